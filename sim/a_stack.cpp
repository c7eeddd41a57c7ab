#include "adapters.hpp"
namespace {
STACK_N(stack_node_p3, P3, )
STACK_NA(stack_node_alloc_elem, Elem)
STACK_F(stack_fixed_p3, P3)
STACK_FA(stack_fixed_alloc_elem, Elem)
STACK_C(stack_cap1_int, int, 1)
STACK_C(stack_cap2_elem, Elem, 2)
STACK_C(stack_cap3_int, int, 3)
STACK_C(stack_cap8_p3, P3, 8)
STACK_C(stack_cap5_u16, u16, 5)
STACK_CA(stack_cap4_alloc_elem, Elem, 4)
STACK_N(stack_node_big, Big, )
STACK_N(stack_node_pt, PT, )
STACK_C(stack_cap3_pt, PT, 3)
}
