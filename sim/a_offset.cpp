// The documented inter-process configuration of the runtime-sized ringbuffer: an allocator with offset pointers
#include "adapters.hpp"
#include <boost/interprocess/offset_ptr.hpp>
namespace {
template <class T> struct OffAlloc {
    typedef T value_type;
    typedef boost::interprocess::offset_ptr<T> pointer; typedef boost::interprocess::offset_ptr<T const> const_pointer;
    typedef T& reference; typedef T const& const_reference;
    typedef std::size_t size_type; typedef std::ptrdiff_t difference_type;
    template <class U> struct rebind { typedef OffAlloc<U> other; };
    int id;
    explicit OffAlloc(int i) : id(i) {}
    OffAlloc(OffAlloc const& o) : id(o.id) {}
    template <class U> OffAlloc(OffAlloc<U> const& o) : id(o.id) {}
    pointer allocate(std::size_t n) { return pointer((T*)rt_alloc(n * sizeof(T), alignof(T), id)); }
    void deallocate(pointer p, std::size_t n) { rt_free(&*p, n * sizeof(T), id); }
};
struct make_off { template <class C> static void make(void* m, u32 n) { new (m) C(n, typename C::allocator(OffAlloc<char>(9))); } };
REG(spsc_offset_rt_p3, "spsc_offset_rt_p3", FAM_SPSC, ST_FIXED, 0, 1, 1, P3, SpscA<CT_spsc_offset_rt_p3 COMMA P3 COMMA make_off COMMA ST_FIXED>, lf::spsc_queue<P3 COMMA lf::allocator<OffAlloc<P3> > >)
REG(spsc_offset_rt_int, "spsc_offset_rt_int", FAM_SPSC, ST_FIXED, 0, 1, 1, int, SpscA<CT_spsc_offset_rt_int COMMA int COMMA make_off COMMA ST_FIXED>, lf::spsc_queue<int COMMA lf::allocator<OffAlloc<int> > >)
}
