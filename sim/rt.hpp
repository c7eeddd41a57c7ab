// Deterministic simulation runtime: interface shared by the instrumented adapters (compiled with
// -fsanitize=thread, whose callbacks are implemented by rt.cpp, not by libtsan) and the uninstrumented driver.
// Keep it POD: adapters and driver must not share template instantiations with code.
#pragma once
#include <cstddef>
#include <cstdint>

typedef uint8_t  u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;

enum { MAXT = 6, MAINT = MAXT, NTID = MAXT + 1 };

// ---------------------------------------------------------------- operations
enum OpKind : u8 {
    OP_NONE = 0,
    // queue + stack (+ spsc where meaningful)
    OP_PUSH, OP_BPUSH, OP_UPUSH,            // single element
    OP_POP, OP_UPOP, OP_POPCONV, OP_UPOPCONV, // single element
    OP_CONS1, OP_CONS1C,                    // consume_one (functor& / functor const&)
    OP_CONSALL, OP_CONSALLC,
    OP_CONSATOM, OP_CONSATOMC, OP_CONSREV, OP_CONSREVC, // stack
    OP_PUSHR, OP_BPUSHR, OP_UPUSHR,         // stack ranges
    OP_RESERVE, OP_RESERVEU,
    OP_EMPTY,
    // spsc
    OP_PUSHARR, OP_PUSHARRREF, OP_PUSHIT,   // batches
    OP_POPVOID, OP_POPARR, OP_POPARRREF, OP_POPIT,
    OP_RAVAIL, OP_WAVAIL, OP_FRONT, OP_FRONTC, OP_RESET,
    OP_PEEKPOP,                             // read_available + front + pop
    // composite
    OP_CHURN,                               // arg x (pop; push of the popped value)
    OP_TWIN,                                // on the twin container: arg 0: push, 1: pop
    OP_KINDS
};
extern const char* const op_name[OP_KINDS];

enum { MAXV = 24, MAXOUT = 140000 };
struct OpIn {
    u8  kind;
    u16 arg;  // reserve count / churn count
    u32 n;    // element count
    u16 v[MAXV];
    u16 val(u32 i) const { return n <= MAXV ? v[i] : (u16)((v[0] + i) % 60000); } // long batches: consecutive values
};
enum Exc : u8 { EXC_NONE = 0, EXC_ALLOC, EXC_COPY, EXC_FUNC, EXC_LENGTH, EXC_OTHER };
struct OpOut {
    u8  exc;
    u8  ok;
    u32 n;
    u32 nv;
    int* v; // the thread's buffer, MAXOUT entries
};

enum Family : u8 { FAM_QUEUE, FAM_STACK, FAM_SPSC };
enum Storage : u8 { ST_NODE, ST_FIXED, ST_CAP };
enum ElemKind : u8 { EK_INT, EK_P3, EK_ELEM, EK_WP, EK_PT };

struct Adapter {
    // construct the container at mem; may throw (reported as Exc)
    virtual u8   construct(void* mem, u32 n) = 0;
    virtual void destroy() = 0;
    virtual void exec(OpIn const& in, OpOut& out) = 0;
    virtual void attach(void* mem) = 0; // use the container through another mapping of the same memory
    virtual bool lock_free() = 0;
};
struct AdapterInfo {
    const char* name;
    u8          fam, storage, elem;
    u8          simalloc;  // uses the stateful simulator allocator
    u8          trivdtor;
    u8          relocatable; // may be placed in shared memory mapped at several addresses
    u32         cap;       // compile-time capacity or 0
    u32         objsize, objalign;
    u64         ops;       // bitmask of supported OpKind
    Adapter*  (*make)();
    AdapterInfo* next;
};
extern AdapterInfo* g_adapters;
struct RegisterAdapter { RegisterAdapter(AdapterInfo* i) { i->next = g_adapters; g_adapters = i; } };

// ---------------------------------------------------------------- services for adapters
struct CopyFault {};
struct FuncFault {};
extern "C" {
void* rt_alloc(size_t size, size_t align, int allocid); // throws std::bad_alloc when a fault is injected
void  rt_free(void* p, size_t size, int allocid);       // size==SIZE_MAX: unknown
void  rt_func_enter(int val);   // a user functor received an element
void  rt_func_exit();
void  rt_elem_ctor(const void* p, u32 size);
void  rt_elem_copyfault(const void* dst); // may throw CopyFault
void  rt_user_fault();                    // user code (conversion, iterator, copy) that may throw CopyFault
void  rt_moved(const void* p, u32 self);  // as rt_elem_bytewise, for elements whose life cycle is not tracked
void  rt_conv_check(u32 conversions, u8 delivered);
void  rt_elem_dtor(const void* p, u32 size);
void  rt_elem_read(const void* p, u32 size, int isassign);
void  rt_elem_write(const void* p, u32 size);
u32   rt_elem_self(const void* p);
void  rt_elem_bytewise(const void* p, u32 self); // 'self' is what the element believes its address to be
void  rt_wp_write(const void* p, u32 size);     // trivially destructible payload: written by its copy constructor
void  rt_wp_read(const void* p, u32 size);      // tentative read (becomes definite on rt_wp_commit)
void  rt_wp_commit();
void* rt_scratch(size_t size, size_t align); // the thread's private memory for the arguments of one operation
}
