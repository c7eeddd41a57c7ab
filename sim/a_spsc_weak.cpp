#include "adapters.hpp"
namespace {
SPSC_N(spsc_weak_rt_p3, P3)
SPSC_NA(spsc_weak_rt_alloc_elem, Elem)
SPSC_C(spsc_weak_cap1_p3, P3, 1)
SPSC_C(spsc_weak_cap2_small, Small, 2)
SPSC_C(spsc_weak_cap3_p3, P3, 3)
SPSC_C(spsc_weak_cap4_elem, Elem, 4)
}
