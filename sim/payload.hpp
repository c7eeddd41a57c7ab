// Payload types, allocators and helpers of the instrumented adapters. Everything lives in an anonymous namespace:
// the adapter translation units are compiled with different flags and must not share template instantiations.
#pragma once
#include "rt.hpp"
#include <new>
#include <cstdint>
#include <cstddef>
#include <type_traits>
#include <memory>
#include <exception>
#include <stdexcept>
#include <iterator>

namespace {

// value <-> id; -2 marks a value no program ever wrote (torn, stale or foreign memory)
struct P3 { // three words with redundancy: a mixed copy of two values is recognisable
    u32 a, b, c, d, e, f;
};
struct Elem; struct WP;
struct alignas(64) Big { u32 id; u32 w[40]; }; // several cache lines, aligned beyond the default of allocators
inline void put(Big& t, u32 id) { t.id = id; for (u32 i = 0; i < 40; i++) t.w[i] = id * 2654435761u + i; }
inline int  get(Big const& t)
{
    if ((uintptr_t)&t & 63) return -2;
    if (t.id > 65535) return -2;
    for (u32 i = 0; i < 40; i++) if (t.w[i] != t.id * 2654435761u + i) return -2;
    return (int)t.id;
}

inline void put(int& t, u32 id) { t = (int)id; }
inline int  get(int const& t) { return t < 0 || t > 65535 ? -2 : t; }
inline void put(u16& t, u32 id) { t = (u16)id; }
inline int  get(u16 const& t) { return t; }
struct Small { int v; int pad; };
inline void put(Small& t, u32 id) { t.v = t.pad = (int)id; }
inline int  get(Small const& t) { return t.v < 0 || t.v > 65535 ? -2 : t.v; }
inline void put(unsigned char& t, u32 id) { t = (unsigned char)id; }
inline int  get(unsigned char const& t) { return t; }
inline void put(P3& t, u32 id) { t.a = id; t.b = ~id; t.c = id * 2654435761u; t.d = id ^ 0x5a5a5a5au; t.e = id + 77; t.f = ~(id * 3); }
inline int  get(P3 const& t)
{
    u32 id = t.a;
    if (id > 65535 || t.b != ~id || t.c != id * 2654435761u || t.d != (id ^ 0x5a5a5a5au) || t.e != id + 77 || t.f != ~(id * 3)) return -2;
    return (int)id;
}

struct Elem { // non-trivial life cycle, tracked by the simulator when it lives in container storage; knows its own address
    u32 id, chk, self, pad;
    Elem() : id(0), chk(~0u), self(rt_elem_self(this)) { rt_elem_ctor(this, sizeof(Elem)); }
    Elem(Elem const& o)
    {
        rt_elem_copyfault(this);
        rt_elem_read(&o, sizeof(Elem), 0);
        rt_elem_bytewise(&o, o.self);
        id = o.id; chk = o.chk; self = rt_elem_self(this);
        rt_elem_ctor(this, sizeof(Elem));
    }
    Elem& operator=(Elem const& o)
    {
        rt_elem_copyfault(&o);
        rt_elem_read(&o, sizeof(Elem), 1);
        rt_elem_write(this, sizeof(Elem));
        rt_elem_bytewise(&o, o.self); rt_elem_bytewise(this, self);
        id = o.id; chk = o.chk;
        return *this;
    }
    ~Elem()
    {
        rt_elem_bytewise(this, self);
        rt_elem_dtor(this, sizeof(Elem));
        id = 0xdead0000u; chk = 0;
    }
};
inline void put(Elem& t, u32 id) { t.id = id; t.chk = ~id; }
inline int  get(Elem const& t)
{
    rt_elem_read(&t, sizeof(Elem), 0);
    rt_elem_bytewise(&t, t.self);
    return t.id > 65535 || t.chk != ~t.id ? -2 : (int)t.id;
}

struct PT { // trivially destructible, but neither copied nor assigned trivially: may throw, knows its own address
    u32 id, chk, self, pad;
    PT() : id(0), chk(~0u), self(rt_elem_self(this)), pad(0) {}
    PT(PT const& o) { rt_user_fault(); rt_moved(&o, o.self); id = o.id; chk = o.chk; self = rt_elem_self(this); pad = 0; }
    PT& operator=(PT const& o) { rt_user_fault(); rt_moved(&o, o.self); rt_moved(this, self); id = o.id; chk = o.chk; return *this; }
};
inline void put(PT& t, u32 id) { t.id = id; t.chk = ~id; }
inline int  get(PT const& t) { rt_moved(&t, t.self); return t.id > 65535 || t.chk != ~t.id ? -2 : (int)t.id; }

struct QT { // what a queue accepts at most: the copy constructor may throw, assignment is trivial
    u32 id, chk;
    QT() = default;
    QT(QT const& o) { rt_user_fault(); id = o.id; chk = o.chk; }
    QT& operator=(QT const&) = default;
};
inline void put(QT& t, u32 id) { t.id = id; t.chk = ~id; }
inline int  get(QT const& t) { return t.id > 65535 || t.chk != ~t.id ? -2 : (int)t.id; }

struct WP { // payload whose copies into container memory are visible to the race detector
    u32 a, b;
    WP() : a(0), b(~0u) {}
    WP(WP const& o) : a(o.a), b(o.b) { rt_wp_write(this, sizeof(WP)); }
    WP& operator=(WP const&) = default;
};
inline void put(WP& t, u32 id) { t.a = id; t.b = ~id; }
inline int  get(WP const& t) { return t.a > 65535 || t.b != ~t.a ? -2 : (int)t.a; }

// conversion target of pop<U>: like an owning pointer, it counts what it was given; a conversion may throw
template <class T> struct Conv {
    int v; u32 k;
    Conv() : v(-3), k(0) {}
    Conv(T const& t) : v(-3), k(0) { *this = t; }
    Conv(Conv const& o) = default;
    Conv& operator=(T const& t) { rt_user_fault(); v = get(t); k++; return *this; }
    Conv& operator=(Conv const& o) { v = o.v; k += o.k; return *this; }
};
template <> struct Conv<WP> {
    u32 a, b; int v; u32 k;
    Conv() : a(0), b(0), v(-3), k(0) {}
    Conv(WP const& t) : a(0), b(0), v(-3), k(0) { *this = t; }
    Conv(Conv const& o) = default;
    Conv& operator=(WP const& t) { rt_wp_read(&t, sizeof(WP)); a = t.a; b = t.b; k++; return *this; }
    Conv& operator=(Conv const& o) { a = o.a; b = o.b; v = o.v; k += o.k; return *this; }
};
template <class T> struct ConvX : Conv<T> { // only explicitly constructible, like std::unique_ptr
    ConvX() {}
    explicit ConvX(T const& t) : Conv<T>(t) {}
};
template <class T> inline int conv_get(Conv<T> const& c) { return c.v; }
template <> inline int conv_get<WP>(Conv<WP> const& c) { rt_wp_commit(); return c.a > 65535 || c.b != ~c.a ? -2 : (int)c.a; }

template <class T> inline void seen_in_container(T const&) {}
template <> inline void seen_in_container<WP>(WP const& t) { rt_wp_read(&t, sizeof(WP)); rt_wp_commit(); }

// allocator with state
extern int g_alloc_id;
template <class T> struct SimAlloc {
    typedef T value_type;
    typedef T* pointer; typedef T const* const_pointer; typedef T& reference; typedef T const& const_reference;
    typedef std::size_t size_type; typedef std::ptrdiff_t difference_type;
    template <class U> struct rebind { typedef SimAlloc<U> other; };
    int id;
    SimAlloc() : id(-77) {} // not the allocator any container was given
    explicit SimAlloc(int i) : id(i) {}
    SimAlloc(SimAlloc const& o) : id(o.id) {}
    template <class U> SimAlloc(SimAlloc<U> const& o) : id(o.id) {}
    T*   allocate(std::size_t n) { return (T*)rt_alloc(n * sizeof(T), alignof(T), id); }
    T*   allocate(std::size_t n, const void*) { return allocate(n); }
    void deallocate(T* p, std::size_t n) { rt_free(p, n * sizeof(T), id); }
    template <class U, class V> void construct(U* p, V const& v) { new ((void*)p) U(v); }
    template <class U> void destroy(U* p) { p->~U(); }
};
template <class T, class U> inline bool operator==(SimAlloc<T> const& a, SimAlloc<U> const& b) { return a.id == b.id; }
template <class T, class U> inline bool operator!=(SimAlloc<T> const& a, SimAlloc<U> const& b) { return a.id != b.id; }

template <class T> struct Fn { // functor&: records what it was given, may throw
    OpOut* o;
    void operator()(T const& t)
    {
        seen_in_container(t);
        int v = get(t);
        rt_func_enter(v);
        if (o->nv < MAXOUT) o->v[o->nv] = v;
        o->nv++;
        rt_func_exit();
    }
};
template <class T> struct FnC {
    OpOut* o;
    void operator()(T const& t) const { Fn<T> f{ o }; f(t); }
};
// input iterator over op values that is not a pointer
template <class T> struct SrcIt {
    typedef std::forward_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type;
    typedef T const* pointer; typedef T const& reference;
    T const* p;
    SrcIt() : p(nullptr) {}
    explicit SrcIt(T const* q) : p(q) {}
    T const& operator*() const { rt_user_fault(); return *p; }
    SrcIt& operator++() { ++p; return *this; }
    SrcIt operator++(int) { SrcIt r(*this); ++p; return r; }
    bool operator==(SrcIt const& o) const { return p == o.p; }
    bool operator!=(SrcIt const& o) const { return p != o.p; }
};
template <class T> struct SinkIt { // output iterator with a position of its own: writing through an outdated copy overwrites
    typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef std::ptrdiff_t difference_type;
    typedef void pointer; typedef void reference;
    OpOut* o; u32 at;
    explicit SinkIt(OpOut* q) : o(q), at(0) {}
    SinkIt& operator*() { return *this; }
    SinkIt& operator=(T const& t) { rt_user_fault(); T tmp; tmp = t; if (at < MAXOUT) o->v[at] = get(tmp); if (o->nv < at + 1) o->nv = at + 1; return *this; }
    SinkIt& operator++() { ++at; return *this; }
    SinkIt operator++(int) { SinkIt r(*this); ++at; return r; }
};

template <class F> void guarded(OpOut& out, F f)
{
    try { f(); }
    catch (std::bad_alloc&) { out.exc = EXC_ALLOC; }
    catch (CopyFault&) { out.exc = EXC_COPY; }
    catch (FuncFault&) { out.exc = EXC_FUNC; }
    catch (std::exception&) { out.exc = EXC_LENGTH; }
    catch (...) { out.exc = EXC_OTHER; }
}
template <class T> struct Buf {
    T* a; u32 n;
    explicit Buf(u32 m) : a((T*)rt_scratch(m * sizeof(T), alignof(T))), n(m) { for (u32 i = 0; i < n; i++) new ((void*)(a + i)) T(); }
    ~Buf() { for (u32 i = 0; i < n; i++) a[i].~T(); }
};
template <class T> void fill(Buf<T>& b, OpIn const& in) { for (u32 i = 0; i < in.n; i++) put(b.a[i], in.val(i)); }
inline void give(OpOut& out, int v) { if (out.nv < MAXOUT) out.v[out.nv] = v; out.nv++; }
#define OPBIT(x) (1ull << (x))
template <class T> struct ekind { static const u8 v = EK_INT; };
template <> struct ekind<P3> { static const u8 v = EK_P3; };
template <> struct ekind<Elem> { static const u8 v = EK_ELEM; };
template <> struct ekind<QT> { static const u8 v = EK_PT; };
template <> struct ekind<PT> { static const u8 v = EK_PT; };
template <> struct ekind<WP> { static const u8 v = EK_WP; };
}
