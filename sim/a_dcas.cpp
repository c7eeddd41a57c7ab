// Configurations without pointer compression: tagged pointers are two words, updated by a double-width compare-exchange
#include <boost/lockfree/detail/prefix.hpp>
#undef BOOST_LOCKFREE_PTR_COMPRESSION
#include "adapters.hpp"
namespace {
QUEUE_N(queue_dcas_node_p3, P3, )
QUEUE_NA(queue_dcas_node_alloc_int, int)
STACK_N(stack_dcas_node_p3, P3, )
STACK_NA(stack_dcas_node_alloc_elem, Elem)
}
