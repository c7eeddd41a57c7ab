// Weak-memory configurations (compiled with NDEBUG: assertions are not part of the shipped behaviour and read shared state)
#include "adapters.hpp"
namespace {
QUEUE_N(queue_weak_node, WP, )
QUEUE_F(queue_weak_fixed, WP)
QUEUE_C(queue_weak_cap1, WP, 1)
QUEUE_C(queue_weak_cap2, WP, 2)
QUEUE_C(queue_weak_cap4, WP, 4)
}
