#include "adapters.hpp"
namespace {
QUEUE_N(queue_node_p3, P3, )
QUEUE_NA(queue_node_alloc_int, int)
QUEUE_F(queue_fixed_p3, P3)
QUEUE_FA(queue_fixed_alloc_int, int)
QUEUE_C(queue_cap1_int, int, 1)
QUEUE_C(queue_cap2_p3, P3, 2)
QUEUE_C(queue_cap3_int, int, 3)
QUEUE_C(queue_cap8_p3, P3, 8)
QUEUE_C(queue_cap5_u16, u16, 5)
QUEUE_CA(queue_cap4_alloc_int, int, 4)
QUEUE_F(queue_fixed_big, Big)
QUEUE_N(queue_node_qt, QT, )
QUEUE_C(queue_cap3_qt, QT, 3)
}
