// Runtime <-> driver interface (uninstrumented code only).
#pragma once
#include "rt.hpp"
#include <vector>
#include <string>

namespace rt {

// A scheduling/fault decision, keyed by the local position of a thread: (tid, op index, step within op, kind).
// A run is a pure function of (program, decision list, code): everything not listed takes the default
// (keep running the current thread, no fault, read the newest value).
enum DKind : u8 { D_SWITCH, D_STALL, D_CRASH, D_SPUR, D_STALE, D_ALLOCF, D_COPYF, D_FUNCF, D_KINDS };
extern const char* const dkind_name[D_KINDS];
struct Dec {
    u8  kind, tid;
    u16 op;      // op index of the thread; OPX_END: when the thread finished; for MAINT: phase
    u16 sub;     // counts fault opportunities at the same step
    u32 step;
    u32 arg;
};
enum { OPX_END = 0xffff };

struct Fault { // planned stall / crash of one thread (generation mode only)
    u8  kind;    // D_STALL or D_CRASH
    u8  tid;
    u8  at_cas;  // step counts CAS/RMW operations instead of all events
    u16 op;
    u32 step;
    u32 arg;     // stall: number of operations others complete before the thread wakes up
};

struct Knobs { // how decisions are generated
    u8    strat;       // 0 random walk, 1 PCT, 2 run to completion + few random switches, 3 ambush, 4 hot sites
    float p_switch;    // strat 0: per event; strat 2: per event
    float p_sync;      // extra switch probability right before CAS/RMW
    u8    pct_depth;   // strat 3: up to that many operations of others per ambush
    u8    victim;      // strat 3: the thread that is ambushed, 0xff: every thread
    u32   pct_len;
    float p_spur, p_stale, p_alloc, p_copy, p_func;
    u32   alloc_skip;
    std::vector<Fault> faults;
};

struct RunCfg {
    bool  weak, opsync, strict_plain, replay, maint_faults;
    u8    nthreads;
    u32   max_steps, max_gap; // step limits: per phase, and between two operation completions
    u64   seed;
    Knobs knobs;
    std::vector<Dec> decs; // replay
    u8    view[NTID];      // shared-memory view per thread (interprocess runs), 0xff: none
};

struct Stats {
    u64 steps, switches, runs;
    u64 fired[D_KINDS];
    u64 cas_fail, cas_ok, atomics, plains;
    u64 reuse_under_stall; // operations completed by others while some thread was stalled inside an operation
    u64 weak_overflow;
    u64 overlap_switches;  // switches away from a thread that was inside an operation
    u64 races_checked;
};


struct OpRec {
    u8   tid, kind, done, crashed;
    u32  fired;                 // bit per DKind: exception faults that fired inside the operation
    u8   exc, ok;
    u32  n;
    u16  phase, opidx;
    u32  nv, voff;              // values returned: vals[voff .. voff+nv)
    u32  nfunc, foff;           // functor calls: fvals[foff ..), at sequence numbers fseqs[foff ..)
    OpIn in;
    u32  inv, ret;      // global sequence numbers
    u32  own_steps;     // hook events executed by the thread within the op
    u64  bbs;           // basic blocks executed by the thread within the op
    u32  alloc_at_inv;  // allocator calls completed in the run before the op started
    u32  allocs, frees; // allocator calls made by this op
    u32  vc0[NTID], vc1clk; // weak mode: vector clock at start, own clock at end
};

extern Stats stats;
extern std::vector<OpRec> ops;      // history of the current run, in invocation order
extern std::vector<int> vals, fvals;
extern std::vector<u32> fseqs;
extern u32 opidx_of_thread(int tid);

struct Violation { bool set; char cls[40]; char msg[400]; };
extern Violation viol, other_viol;            // the one that counts; the first of a class the property does not concern
extern bool (*class_wanted)(const char*);
extern u64  trace_hash;
extern u64  inter_hash;             // interleaving identity: order of (thread, kind, location)
extern std::vector<Dec> log_decs;   // generation mode: the decisions that differ from the default
extern std::vector<std::string>* trace_out; // if set: human-readable event trace

void init();
void after_fork(); // in every forked child, before it runs anything
void begin_run(RunCfg const& c);
bool run(void (*fn)(void*), void* arg);       // false: violation or crash
void spawn(int tid, void (*fn)(void*), void* arg);
void run_phase(int phase);                    // from the main fiber: run all spawned threads to completion
bool crashed(int tid);
int  cur_tid();
int* out_buf(int tid);
int  op_begin(int tid, u16 opidx, OpIn const& in, bool record); // index into ops, -1: not recorded
void op_end(int rec, OpOut const& out);
void flush_pending();                          // after the run: store functor calls of operations that never returned
void set_view(int tid, u8 view);
void no_faults();
void progress();
void start_identity();
bool set_maint_faults(bool on);
void set_phase(int phase);                     // position of MAINT's decisions
void watchdog(u32 seconds);                    // real-time limit per run: only for code that hangs outside of the simulator's reach
[[noreturn]] void fail(const char* cls, const char* fmt, ...);
void soft_fail(const char* cls, const char* fmt, ...); // as fail() for classes that count, otherwise a note
bool set_fail(const char* cls, const char* fmt, ...); // false: noted only; from outside the fibers

// memory
void* mem_alloc(size_t size, size_t align, int allocid, int region); // not counted as allocator call
void* view_addr(void* p, int view);
u32   live_allocs();            // allocator blocks currently live
u32   total_allocs();
void  forget_allocs();          // total_allocs() starts from 0 again
u64   live_bytes();
u32   live_elems();
void  set_region_policy(u32 seedbits, int shared_obj);
void  box_write(u32 id);
void  box_read(u32 id, const char* what);
void  snapshot_save(u64 key);
bool  snapshot_load(u64 key);
u64   edges_covered();
bool  in_phase();
void  alloc_monitor(bool forbid_alloc, bool forbid_free);
}
