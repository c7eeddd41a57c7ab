#include "adapters.hpp"
namespace {
STACK_N(stack_weak_node, WP, )
STACK_NA(stack_weak_node_alloc_elem, Elem)
STACK_F(stack_weak_fixed, WP)
STACK_C(stack_weak_cap1, WP, 1)
STACK_C(stack_weak_cap2_elem, Elem, 2)
STACK_C(stack_weak_cap4, WP, 4)
}
