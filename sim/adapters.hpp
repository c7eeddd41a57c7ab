// Adapters: one container configuration behind the POD interface of rt.hpp.
#pragma once
#include "payload.hpp"
#include <boost/lockfree/queue.hpp>
#include <boost/lockfree/stack.hpp>
#include <boost/lockfree/spsc_queue.hpp>

namespace {
namespace lf = boost::lockfree;

struct make_n { // runtime-sized, default allocator
    template <class C> static void make(void* m, u32 n) { new (m) C(n); }
};
struct make_0 { // compile-time-sized
    template <class C> static void make(void* m, u32 n) { if (n & 1) { typename C::allocator a; new (m) C(a); } else new (m) C(); }
};
struct make_na { // runtime-sized, stateful allocator
    template <class C> static void make(void* m, u32 n) { new (m) C(n, typename C::allocator(SimAlloc<char>(7))); }
};

struct make_a { // compile-time-sized, constructor taking an allocator
    template <class C> static void make(void* m, u32) { typename C::allocator a(SimAlloc<char>(8)); new (m) C(a); }
};

template <class C, class T, class Make> struct Base : Adapter {
    C* c = nullptr;
    u8 construct(void* mem, u32 n) override
    {
        OpOut o; o.exc = 0;
        guarded(o, [&] { Make::template make<C>(mem, n); c = (C*)mem; });
        return o.exc;
    }
    void destroy() override { c->~C(); }
    void attach(void* mem) override { c = (C*)mem; }
    bool lock_free() override { return c->is_lock_free(); }
};

template <class C, class T> bool common(C* c, OpIn const& in, OpOut& out)
{
    switch (in.kind) {
    case OP_PUSH: { T t; put(t, in.v[0]); out.ok = c->push(t); return true; }
    case OP_BPUSH: { T t; put(t, in.v[0]); out.ok = c->bounded_push(t); return true; }
    case OP_POP: { T t; put(t, 0); out.ok = c->pop(t); if (out.ok) give(out, get(t)); return true; }
    case OP_POPCONV: { Conv<T> t; out.ok = c->pop(t); rt_conv_check(t.k, out.ok); if (out.ok) give(out, conv_get(t)); return true; }
    case OP_UPOP: { T t; put(t, 0); out.ok = c->unsynchronized_pop(t); if (out.ok) give(out, get(t)); return true; }
    case OP_UPOPCONV: { Conv<T> t; out.ok = c->unsynchronized_pop(t); rt_conv_check(t.k, out.ok); if (out.ok) give(out, conv_get(t)); return true; }
    case OP_CONS1: { Fn<T> f{ &out }; out.ok = c->consume_one(f); return true; }
    case OP_CONS1C: { FnC<T> const f{ &out }; out.ok = c->consume_one(f); return true; }
    case OP_CONSALL: { Fn<T> f{ &out }; out.n = (u32)c->consume_all(f); return true; }
    case OP_CONSALLC: { FnC<T> const f{ &out }; out.n = (u32)c->consume_all(f); return true; }
    case OP_EMPTY: out.ok = c->empty(); return true;
    }
    return false;
}
const u64 COMMON_OPS = OPBIT(OP_PUSH) | OPBIT(OP_BPUSH) | OPBIT(OP_POP) | OPBIT(OP_POPCONV) | OPBIT(OP_UPOP) | OPBIT(OP_UPOPCONV)
                     | OPBIT(OP_CONS1) | OPBIT(OP_CONS1C) | OPBIT(OP_CONSALL) | OPBIT(OP_CONSALLC) | OPBIT(OP_EMPTY);

template <bool> struct node_ops { // only node-based containers
    template <class C> static bool reserve(C*, OpIn const&) { return false; }
};
template <> struct node_ops<true> {
    template <class C> static bool reserve(C* c, OpIn const& in)
    {
        if (in.kind == OP_RESERVE) { c->reserve(in.arg); return true; }
        if (in.kind == OP_RESERVEU) { c->reserve_unsafe(in.arg); return true; }
        return false;
    }
};

template <class C, class T, class Make, u8 ST> struct QueueA : Base<C, T, Make> {
    void exec(OpIn const& in, OpOut& out) override
    {
        C* c = this->c;
        guarded(out, [&] {
            if (in.kind == OP_POPCONV && (in.arg & 1)) { ConvX<T> t; out.ok = c->pop(t); rt_conv_check(t.k, out.ok); if (out.ok) give(out, conv_get<T>(t)); return; }
            if (in.kind == OP_UPOPCONV && (in.arg & 1)) { ConvX<T> t; out.ok = c->unsynchronized_pop(t); rt_conv_check(t.k, out.ok); if (out.ok) give(out, conv_get<T>(t)); return; }
            if (common<C, T>(c, in, out)) return;
            if (in.kind == OP_UPUSH) { T t; put(t, in.v[0]); out.ok = c->unsynchronized_push(t); return; }
            node_ops<ST == ST_NODE>::reserve(c, in);
        });
    }
    static const u64 ops = COMMON_OPS | OPBIT(OP_UPUSH) | (ST == ST_NODE ? OPBIT(OP_RESERVE) | OPBIT(OP_RESERVEU) : 0);
};

template <class C, class T, class Make, u8 ST> struct StackA : Base<C, T, Make> {
    void exec(OpIn const& in, OpOut& out) override
    {
        C* c = this->c;
        guarded(out, [&] {
            if (common<C, T>(c, in, out)) return;
            switch (in.kind) {
            case OP_UPUSH: { T t; put(t, in.v[0]); out.ok = c->unsynchronized_push(t); return; }
            case OP_CONSATOM: { Fn<T> f{ &out }; out.n = (u32)c->consume_all_atomic(f); return; }
            case OP_CONSATOMC: { FnC<T> const f{ &out }; out.n = (u32)c->consume_all_atomic(f); return; }
            case OP_CONSREV: { Fn<T> f{ &out }; out.n = (u32)c->consume_all_atomic_reversed(f); return; }
            case OP_CONSREVC: { FnC<T> const f{ &out }; out.n = (u32)c->consume_all_atomic_reversed(f); return; }
            case OP_PUSHR: { Buf<T> b(in.n); fill(b, in); T const* e = c->push((T const*)b.a, (T const*)b.a + in.n); out.n = u32(e - b.a); return; }
            case OP_BPUSHR: { Buf<T> b(in.n); fill(b, in); SrcIt<T> s(b.a), e(b.a + in.n); SrcIt<T> r = c->bounded_push(s, e); out.n = u32(r.p - b.a); return; }
            case OP_UPUSHR: { Buf<T> b(in.n); fill(b, in); T const* e = c->unsynchronized_push((T const*)b.a, (T const*)b.a + in.n); out.n = u32(e - b.a); return; }
            }
            node_ops<ST == ST_NODE>::reserve(c, in);
        });
    }
    static const u64 ops = COMMON_OPS | OPBIT(OP_UPUSH) | (ST == ST_NODE ? OPBIT(OP_RESERVE) | OPBIT(OP_RESERVEU) : 0)
                         | OPBIT(OP_CONSATOM) | OPBIT(OP_CONSATOMC) | OPBIT(OP_CONSREV) | OPBIT(OP_CONSREVC)
                         | OPBIT(OP_PUSHR) | OPBIT(OP_BPUSHR) | OPBIT(OP_UPUSHR);
};

// batch sizes of the array-reference overloads
template <class C, class T> u32 pusharrref(C* c, Buf<T>& b, int n)
{
    switch (n) {
    case 1: return (u32)c->push(*(T const(*)[1])b.a);
    case 2: return (u32)c->push(*(T const(*)[2])b.a);
    case 3: return (u32)c->push(*(T const(*)[3])b.a);
    case 70: return (u32)c->push(*(T const(*)[70])b.a);
    default: return (u32)c->push(*(T const(*)[5])b.a);
    }
}
template <class C, class T> u32 poparrref(C* c, Buf<T>& b, int n)
{
    switch (n) {
    case 1: return (u32)c->pop(*(T(*)[1])b.a);
    case 2: return (u32)c->pop(*(T(*)[2])b.a);
    case 3: return (u32)c->pop(*(T(*)[3])b.a);
    case 70: return (u32)c->pop(*(T(*)[70])b.a);
    default: return (u32)c->pop(*(T(*)[5])b.a);
    }
}

template <class C, class T, class Make, u8 ST> struct SpscA : Base<C, T, Make> {
    void exec(OpIn const& in, OpOut& out) override
    {
        C* c = this->c;
        guarded(out, [&] {
            switch (in.kind) {
            case OP_PUSH: { T t; put(t, in.v[0]); out.ok = c->push(t); return; }
            case OP_PUSHARR: { Buf<T> b(in.n); fill(b, in); out.n = (u32)c->push((T const*)b.a, (std::size_t)in.n); return; }
            case OP_PUSHARRREF: { Buf<T> b(in.n); fill(b, in); out.n = pusharrref<C, T>(c, b, in.n); return; }
            case OP_PUSHIT: { Buf<T> b(in.n); fill(b, in); SrcIt<T> s(b.a), e(b.a + in.n); SrcIt<T> r = c->push(s, e); out.n = u32(r.p - b.a); return; }
            case OP_POP: { T t; put(t, 0); out.ok = c->pop(t); if (out.ok) give(out, get(t)); return; }
            case OP_POPCONV: { Conv<T> t; out.ok = c->pop(t); rt_conv_check(t.k, out.ok); if (out.ok) give(out, conv_get(t)); return; }
            case OP_POPVOID: out.ok = c->pop(); return;
            case OP_POPARR: { Buf<T> b(in.n); for (u32 i = 0; i < in.n; i++) put(b.a[i], 0); out.n = (u32)c->pop(b.a, (std::size_t)in.n); for (u32 i = 0; i < out.n && i < in.n; i++) give(out, get(b.a[i])); return; }
            case OP_POPARRREF: { Buf<T> b(in.n); for (u32 i = 0; i < in.n; i++) put(b.a[i], 0); out.n = poparrref<C, T>(c, b, in.n); for (u32 i = 0; i < out.n && i < in.n; i++) give(out, get(b.a[i])); return; }
            case OP_POPIT: out.n = (u32)c->pop(SinkIt<T>(&out)); return;
            case OP_CONS1: { Fn<T> f{ &out }; out.ok = c->consume_one(f); return; }
            case OP_CONS1C: { FnC<T> const f{ &out }; out.ok = c->consume_one(f); return; }
            case OP_CONSALL: { Fn<T> f{ &out }; out.n = (u32)c->consume_all(f); return; }
            case OP_CONSALLC: { FnC<T> const f{ &out }; out.n = (u32)c->consume_all(f); return; }
            case OP_RAVAIL: out.n = (u32)c->read_available(); return;
            case OP_WAVAIL: out.n = (u32)c->write_available(); return;
            case OP_PEEKPOP: { // what the documentation describes for front()
                out.n = (u32)c->read_available();
                if (!out.n) { out.ok = 0; return; }
                give(out, in.arg & 1 ? get(c->front()) : get(((C const*)c)->front()));
                T t; put(t, 0);
                out.ok = c->pop(t);
                if (out.ok) give(out, get(t));
                return;
            }
            case OP_FRONT: {
                out.n = (u32)c->read_available();
                if (!out.n) { out.ok = 0; return; }
                out.ok = 1;
                give(out, in.arg & 1 ? get(c->front()) : get(((C const*)c)->front()));
                return;
            }
            case OP_RESET: c->reset(); return;
            case OP_EMPTY: out.ok = c->empty(); return;
            }
        });
    }
    static const u64 ops = OPBIT(OP_PUSH) | OPBIT(OP_PUSHARR) | OPBIT(OP_PUSHARRREF) | OPBIT(OP_PUSHIT) | OPBIT(OP_POP)
                         | OPBIT(OP_POPCONV) | OPBIT(OP_POPVOID) | OPBIT(OP_POPARR) | OPBIT(OP_POPARRREF) | OPBIT(OP_POPIT)
                         | OPBIT(OP_CONS1) | OPBIT(OP_CONS1C) | OPBIT(OP_CONSALL) | OPBIT(OP_CONSALLC) | OPBIT(OP_RAVAIL)
                         | OPBIT(OP_WAVAIL) | OPBIT(OP_PEEKPOP) | OPBIT(OP_FRONT) | OPBIT(OP_RESET) | OPBIT(OP_EMPTY);
};

template <class A> Adapter* mk() { return new A(); }
#define REG(ident, NAME, FAM, ST, CAP, SIMALLOC, RELOC, T, A, C)                                             \
    typedef C CT_##ident; typedef A AT_##ident;                                                              \
    static AdapterInfo info_##ident = { NAME, FAM, ST, ekind<T>::v, SIMALLOC, std::is_trivially_destructible<T>::value, \
        RELOC, CAP, (u32)sizeof(CT_##ident), (u32)alignof(CT_##ident), AT_##ident::ops, &mk<AT_##ident>, nullptr }; \
    static RegisterAdapter reg_##ident(&info_##ident);
#define COMMA ,
#define QUEUE_N(id, T, OPTS)   REG(id, #id, FAM_QUEUE, ST_NODE, 0, 0, 0, T, QueueA<CT_##id COMMA T COMMA make_n COMMA ST_NODE>, lf::queue<T OPTS>)
#define QUEUE_NA(id, T)        REG(id, #id, FAM_QUEUE, ST_NODE, 0, 1, 0, T, QueueA<CT_##id COMMA T COMMA make_na COMMA ST_NODE>, lf::queue<T COMMA lf::allocator<SimAlloc<T> > >)
#define QUEUE_F(id, T)         REG(id, #id, FAM_QUEUE, ST_FIXED, 0, 0, 0, T, QueueA<CT_##id COMMA T COMMA make_n COMMA ST_FIXED>, lf::queue<T COMMA lf::fixed_sized<true> >)
#define QUEUE_FA(id, T)        REG(id, #id, FAM_QUEUE, ST_FIXED, 0, 1, 0, T, QueueA<CT_##id COMMA T COMMA make_na COMMA ST_FIXED>, lf::queue<T COMMA lf::fixed_sized<true> COMMA lf::allocator<SimAlloc<T> > >)
#define QUEUE_C(id, T, N)      REG(id, #id, FAM_QUEUE, ST_CAP, N, 0, 1, T, QueueA<CT_##id COMMA T COMMA make_0 COMMA ST_CAP>, lf::queue<T COMMA lf::capacity<N> >)
#define QUEUE_CA(id, T, N)     REG(id, #id, FAM_QUEUE, ST_CAP, N, 1, 1, T, QueueA<CT_##id COMMA T COMMA make_a COMMA ST_CAP>, lf::queue<T COMMA lf::capacity<N> COMMA lf::allocator<SimAlloc<T> > >)
#define STACK_CA(id, T, N)     REG(id, #id, FAM_STACK, ST_CAP, N, 1, 1, T, StackA<CT_##id COMMA T COMMA make_a COMMA ST_CAP>, lf::stack<T COMMA lf::capacity<N> COMMA lf::allocator<SimAlloc<T> > >)
#define STACK_N(id, T, OPTS)   REG(id, #id, FAM_STACK, ST_NODE, 0, 0, 0, T, StackA<CT_##id COMMA T COMMA make_n COMMA ST_NODE>, lf::stack<T OPTS>)
#define STACK_NA(id, T)        REG(id, #id, FAM_STACK, ST_NODE, 0, 1, 0, T, StackA<CT_##id COMMA T COMMA make_na COMMA ST_NODE>, lf::stack<T COMMA lf::allocator<SimAlloc<T> > >)
#define STACK_F(id, T)         REG(id, #id, FAM_STACK, ST_FIXED, 0, 0, 0, T, StackA<CT_##id COMMA T COMMA make_n COMMA ST_FIXED>, lf::stack<T COMMA lf::fixed_sized<true> >)
#define STACK_FA(id, T)        REG(id, #id, FAM_STACK, ST_FIXED, 0, 1, 0, T, StackA<CT_##id COMMA T COMMA make_na COMMA ST_FIXED>, lf::stack<T COMMA lf::fixed_sized<true> COMMA lf::allocator<SimAlloc<T> > >)
#define STACK_C(id, T, N)      REG(id, #id, FAM_STACK, ST_CAP, N, 0, 1, T, StackA<CT_##id COMMA T COMMA make_0 COMMA ST_CAP>, lf::stack<T COMMA lf::capacity<N> >)
#define SPSC_N(id, T)          REG(id, #id, FAM_SPSC, ST_FIXED, 0, 0, 0, T, SpscA<CT_##id COMMA T COMMA make_n COMMA ST_FIXED>, lf::spsc_queue<T>)
#define SPSC_NA(id, T)         REG(id, #id, FAM_SPSC, ST_FIXED, 0, 1, 0, T, SpscA<CT_##id COMMA T COMMA make_na COMMA ST_FIXED>, lf::spsc_queue<T COMMA lf::allocator<SimAlloc<T> > >)
#define SPSC_C(id, T, N)       REG(id, #id, FAM_SPSC, ST_CAP, N, 0, 1, T, SpscA<CT_##id COMMA T COMMA make_0 COMMA ST_CAP>, lf::spsc_queue<T COMMA lf::capacity<N> >)
}
