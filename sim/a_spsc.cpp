#include "adapters.hpp"
namespace {
SPSC_N(spsc_rt_p3, P3)
SPSC_NA(spsc_rt_alloc_int, int)
SPSC_NA(spsc_rt_alloc_elem, Elem)
SPSC_C(spsc_cap1_p3, P3, 1)
SPSC_C(spsc_cap2_elem, Elem, 2)
SPSC_C(spsc_cap3_int, int, 3)
SPSC_C(spsc_cap4_p3, P3, 4)
SPSC_C(spsc_cap7_elem, Elem, 7)
SPSC_C(spsc_cap8_int, int, 8)
SPSC_C(spsc_cap5_elem, Elem, 5)
SPSC_C(spsc_cap6_big, Big, 6)
SPSC_C(spsc_cap3_u16, u16, 3)
SPSC_C(spsc_cap4_pt, PT, 4)
SPSC_N(spsc_rt_pt, PT)
}
