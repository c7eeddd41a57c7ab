#include "rtint.hpp"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csetjmp>
#include <new>
#include <map>
#include <signal.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <cxxabi.h>

#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

AdapterInfo* g_adapters = nullptr;
const char* const op_name[OP_KINDS] = {
    "none", "push", "bounded_push", "unsynchronized_push", "pop", "unsynchronized_pop", "pop_conv", "unsynchronized_pop_conv",
    "consume_one", "consume_one_c", "consume_all", "consume_all_c", "consume_all_atomic", "consume_all_atomic_c",
    "consume_all_atomic_reversed", "consume_all_atomic_reversed_c", "push_range", "bounded_push_range",
    "unsynchronized_push_range", "reserve", "reserve_unsafe", "empty", "push_array", "push_array_ref", "push_iter",
    "pop_discard", "pop_array", "pop_array_ref", "pop_output_iter", "read_available", "write_available", "front",
    "front_const", "reset", "peek_pop", "churn", "twin" };

namespace rt {

const char* const dkind_name[D_KINDS] = { "switch", "stall", "crash", "spurious_cas_failure", "stale_read",
                                          "alloc_failure", "copy_exception", "functor_exception" };

// ---------------------------------------------------------------- memory regions
static const u64 RBASE[3] = { 0x100000000000ull, 0x7a0000000000ull, 0x200000000000ull };
static const u64 VBASE[3] = { 0x200000000000ull, 0x210000000000ull, 0x760000000000ull }; // views of region 2
static const u64 RSIZE    = 64ull << 20;
static const u32 NOADDR   = 0xffffffffu;
static u8*       shadow[3];    // one byte per 8-byte word: 0 never allocated / red zone, 1 live, 2 freed
static u8*       eshadow[3];   // one byte per 8-byte word: 1 = a live element starts here
static u64       rtop[3];      // bump pointer (offset)

struct Block { u32 canon; u32 size; u8 state; int allocid; u16 op; u8 isalloc; };
static std::vector<Block> blocks;
static std::map<u32, u32> block_at; // canon -> block index

static inline u32 canon(u64 a)
{
    u64 h = a >> 28;
    if (h == (RBASE[0] >> 28)) return u32(a & 0xfffffff);
    if (h == (RBASE[1] >> 28)) return u32(a & 0xfffffff) | (1u << 28);
    if (h == (VBASE[0] >> 28) || h == (VBASE[1] >> 28) || h == (VBASE[2] >> 28)) return u32(a & 0xfffffff) | (2u << 28);
    return NOADDR;
}
extern "C" char __sim_statics_begin[], __sim_statics_end[];
static inline u32 static_id(u64 a) // static data of the code under test (not expected, but a change may bring some)
{
    return a >= (u64)__sim_statics_begin && a < (u64)__sim_statics_end ? u32(a - (u64)__sim_statics_begin) | (0xEu << 28) : NOADDR;
}
static inline u8* real_of(u32 c) { return (u8*)(RBASE[c >> 28] + (c & 0xfffffff)); }

// ---------------------------------------------------------------- state
struct EhGlobals { void* caught; unsigned int uncaught; };
struct Ctx { void* sp; EhGlobals eh; std::vector<u8> tls; };

enum TState : u8 { T_NONE, T_READY, T_STALLED, T_DONE, T_CRASHED };

enum { MAXLOC = 768 };
struct View {
    u32 vc[8];
    u16 ts[MAXLOC];
};
static u32 nloc;
static inline void vjoin(View& a, View const& b)
{
    for (int i = 0; i < 8; i++) if (b.vc[i] > a.vc[i]) a.vc[i] = b.vc[i];
    for (u32 i = 0; i < nloc; i++) if (b.ts[i] > a.ts[i]) a.ts[i] = b.ts[i];
}
static inline void vcopy(View& a, View const& b) // keeps a.ts beyond nloc zero
{
    memcpy(a.vc, b.vc, sizeof a.vc);
    memcpy(a.ts, b.ts, nloc * sizeof(u16));
}

struct Msg { u64 val; int view; u8 tid; u8 headmask; };
struct Loc { u32 word; u16 lastsc; std::vector<Msg> h; };
static Loc   locs[MAXLOC];
static std::vector<View*> viewpool; static u32 viewused;
static int new_view()
{
    if (viewused == viewpool.size()) viewpool.push_back((View*)calloc(1, sizeof(View)));
    memset(viewpool[viewused], 0, sizeof(View));
    return (int)viewused++;
}

struct Race { u32 key; u32 gen; u8 wt; u32 wc; u32 rc[8]; };

struct Thread {
    Ctx    ctx;
    u8     state;
    void (*fn)(void*); void* arg;
    u16    op; u32 lstep; u32 ncas;
    u32    wake_at;
    u32    prio;
    u64    bbs;
    int    rec; u8 reckind; u32 nf; std::vector<int> fbuf; std::vector<u32> fsbuf;
    View   cur, acq, rel; bool hasrel, hasacq;
    u32    curdec; std::vector<Dec> decs; // replay decisions of this thread in order
    std::vector<Dec> enddecs; // who runs after this thread has finished (keyed by phase)
    u8*    stack;
    u32    lastspur;
    struct { u32 word; u64 real; } patch[64]; u32 npatch;
    u32    pendw[64]; u32 npend;
    u32    ntent; struct { u8 wt; u32 wc; } tent[64];
};
static Thread th[NTID];
static Ctx    driver_ctx;
static int    cur = -1;          // -1: driver
static bool   phase_active;      // worker threads are being scheduled
static bool   in_run;
static RunCfg cfg;
static u64    rng;
static u32    completed_ops, seqno;
static u32    nallocs, nlive, nelems; static u64 livebytes;
static bool   forbid_alloc, forbid_free;
static u32    alloc_rng;
static int    shared_obj;
static u64    bb_since_event;
static std::vector<u32> pct_points; static u32 pct_next, pct_low;
static struct { int tid; u32 until; } amb[8]; static int namb; // strategy 3: threads held inside an operation
static u32    phase_steps;
static int    cur_phase;
static View   scview, gsync;
static u32    steps_since_progress;
extern "C" { static std::map<void*, u8> mutexes; }

Stats stats; std::vector<OpRec> ops; std::vector<int> vals, fvals; std::vector<u32> fseqs; Violation viol; u64 trace_hash, inter_hash; std::vector<Dec> log_decs;
std::vector<std::string>* trace_out = nullptr;

static inline u64 rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 0x2545F4914F6CDD1Dull; }
static inline bool chance(float p) { if (p <= 0) return false; return (rnd() >> 40) < u64(p * 16777216.f); }
static inline void mix(u64& h, u64 v) { h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; }

// ---------------------------------------------------------------- context switch
extern "C" void sim_swap(void** save_sp, void* new_sp);
asm(R"(
.text
.globl sim_swap
.type sim_swap,@function
sim_swap:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_swap,.-sim_swap
)");
static const size_t STK = 128 << 10;
static const u64 STKBASE = 0x300000000000ull;
static sigjmp_buf crash_jmp;
static volatile int crash_sig;

// thread_local data of the code under test: every simulated thread has its own copy (the simulator itself has none)
static u8* tls_base; static size_t tls_size; static std::vector<u8> tls_init, statics_init;
static int find_tls(struct dl_phdr_info* i, size_t, void*)
{
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) {
        auto& p = i->dlpi_phdr[k];
        tls_size = p.p_memsz; tls_base = (u8*)i->dlpi_tls_data;
        tls_init.assign(tls_size, 0); memcpy(tls_init.data(), (void*)(i->dlpi_addr + p.p_vaddr), p.p_filesz);
    }
    return 1; // the executable comes first
}

static void switch_ctx(Ctx& from, Ctx& to)
{
    EhGlobals* g = (EhGlobals*)abi::__cxa_get_globals();
    from.eh = *g;
    *g = to.eh;
    if (UNLIKELY(tls_size != 0)) {
        from.tls.assign(tls_base, tls_base + tls_size);
        memcpy(tls_base, to.tls.empty() ? tls_init.data() : to.tls.data(), tls_size);
    }
    sim_swap(&from.sp, to.sp);
}

int cur_tid() { return cur; }
// per-thread memory outside the simulated regions: argument arrays and results of one operation
static const size_t SCR = 8u << 20;
static u8* scratch_of(int tid) { return (u8*)(STKBASE + 0x1000000000ull + u64(tid) * (2 * SCR)); }
int* out_buf(int tid) { return (int*)(scratch_of(tid) + SCR - MAXOUT * sizeof(int)); }
bool in_phase() { return phase_active; }

static void fiber_entry()
{
    Thread& t = th[cur];
    t.fn(t.arg);
    // finished
    extern void thread_finished();
    thread_finished();
    abort();
}
static void make_fiber(Thread& t, void (*fn)(void*), void* arg)
{
    t.fn = fn; t.arg = arg;
    memset(t.stack + STK - 8192, 0xEE, 8192);
    void** sp = (void**)(t.stack + STK - 64);
    *--sp = nullptr;               // alignment: at function entry rsp % 16 == 8
    *--sp = (void*)&fiber_entry;
    for (int i = 0; i < 6; i++) *--sp = nullptr;
    t.ctx.sp = sp; t.ctx.eh = EhGlobals{ nullptr, 0 };
}

[[noreturn]] static void to_driver()
{
    int c = cur; cur = -1; phase_active = false; in_run = false;
    switch_ctx(th[c].ctx, driver_ctx);
    abort();
}
// a violation that does not concern the property under check is kept apart, so that it does not hide one that does
bool (*class_wanted)(const char*);
Violation other_viol;
static bool vset(const char* cls, const char* fmt, va_list ap)
{
    bool wanted = !class_wanted || class_wanted(cls);
    Violation& v = wanted ? viol : other_viol;
    if (v.set) return wanted;
    v.set = true;
    snprintf(v.cls, sizeof v.cls, "%s", cls);
    vsnprintf(v.msg, sizeof v.msg, fmt, ap);
    return wanted;
}
void fail(const char* cls, const char* fmt, ...)
{
    va_list ap; va_start(ap, fmt); vset(cls, fmt, ap); va_end(ap);
    to_driver();
}
void soft_fail(const char* cls, const char* fmt, ...) // the run can go on
{
    va_list ap; va_start(ap, fmt); bool w = vset(cls, fmt, ap); va_end(ap);
    if (w) to_driver();
}
bool set_fail(const char* cls, const char* fmt, ...)
{
    va_list ap; va_start(ap, fmt); bool w = vset(cls, fmt, ap); va_end(ap);
    return w;
}

static const char* opn(int tid)
{
    return tid >= 0 && th[tid].rec >= 0 ? op_name[th[tid].reckind] : "setup/teardown";
}

// ---------------------------------------------------------------- scheduling
static void tracef(const char* fmt, ...)
{
    if (!trace_out) return;
    char b[300]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    trace_out->push_back(b);
}
static void logd(u8 kind, u8 tid, u16 op, u32 step, u32 arg, u16 sub = 0)
{
    log_decs.push_back(Dec{ kind, tid, op, sub, step, arg });
}
static int runnable(int* out, int except)
{
    int n = 0;
    for (int i = 0; i < cfg.nthreads; i++) if (i != except && th[i].state == T_READY) out[n++] = i;
    return n;
}
static void switch_to(int tid)
{
    int c = cur;
    if (c == tid) return;
    stats.switches++;
    if (c < MAXT && th[c].rec >= 0 && th[c].state != T_DONE) stats.overlap_switches++;
    tracef("        -> switch to T%d", tid);
    mix(inter_hash, 0x51ull + tid);
    bb_since_event = 0;
    cur = tid;
    switch_ctx(th[c].ctx, th[tid].ctx);
}
static bool wake_any()
{
    int best = -1;
    for (int i = 0; i < cfg.nthreads; i++)
        if (th[i].state == T_STALLED && (best < 0 || th[i].wake_at < th[best].wake_at)) best = i;
    if (best < 0) return false;
    th[best].state = T_READY;
    return true;
}
static int pct_best(int except)
{
    int best = -1;
    for (int i = 0; i < cfg.nthreads; i++)
        if (i != except && th[i].state == T_READY && (best < 0 || th[i].prio > th[best].prio)) best = i;
    return best;
}
// choose who runs when the current thread cannot go on (finished, stalled, crashed); logs the choice
static int pick_forced(u8 tid, u16 op, u32 step)
{
    int c[MAXT]; int n = runnable(c, -1);
    if (!n) { if (!wake_any()) return -1; n = runnable(c, -1); }
    if (n == 1) return c[0];
    u16 sub = op == OPX_END ? (u16)cur_phase : 0;
    if (cfg.replay) {
        Thread& t = th[tid];
        if (op == OPX_END) {
            for (Dec& d : t.enddecs) if (d.sub == sub) for (int k = 0; k < n; k++) if (c[k] == (int)d.arg) return c[k];
            return c[0];
        }
        for (u32 i = t.curdec; i < t.decs.size(); i++) {
            Dec& d = t.decs[i];
            if (d.op == op && d.step == step && d.kind == D_SWITCH) {
                for (int k = 0; k < n; k++) if (c[k] == (int)d.arg) return c[k];
                break;
            }
            if (d.op > op || (d.op == op && d.step > step)) break;
        }
        return c[0];
    }
    int r = cfg.knobs.strat == 1 ? pct_best(-1) : c[rnd() % n];
    if (r != c[0]) logd(D_SWITCH, tid, op, step, r, sub);
    return r;
}
static bool run_complete;
void thread_finished()
{
    int c = cur;
    if (c == MAINT) { run_complete = true; in_run = false; cur = -1; switch_ctx(th[MAINT].ctx, driver_ctx); abort(); }
    th[c].state = T_DONE;
    int n = pick_forced((u8)c, OPX_END, 0);
    switch_to(n < 0 ? MAINT : n);
    abort();
}

enum EvKind : u8 { EV_READ, EV_WRITE, EV_ALOAD, EV_ASTORE, EV_RMW, EV_ALLOC, EV_POINT };
static const char* const evname[] = { "read", "write", "load", "store", "rmw", "alloc", "point" };

static void do_stall(Thread& t, u32 arg)
{
    t.state = T_STALLED; t.wake_at = completed_ops + arg;
    stats.fired[D_STALL]++;
    tracef("        !! T%d stalls until %u more operations completed", cur, arg);
    int n = pick_forced((u8)cur, t.op, t.lstep);
    if (n == cur || n < 0) { t.state = T_READY; return; }
    switch_to(n);
}

static u64 ev_pc;      // where in the code of the library the current access is
static u64 site_salt;  // strategy 4: which of these places are the ones that matter in this run
static bool hot_site(EvKind k)
{
    u64 h = (ev_pc ^ site_salt) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
    u32 m = cfg.knobs.pct_len; if (k == EV_READ || k == EV_WRITE) m *= 4;
    return h % (m ? m : 1) == 0;
}
static void settle();
// every shared access and every explicit point ends up here, before it takes effect
static void event(EvKind k, u32 c, u32 size)
{
    if (cur < 0) return;
    if (UNLIKELY(cfg.weak)) settle();
    Thread& t = th[cur];
    t.lstep++; t.nf = 0; stats.steps++; phase_steps++; bb_since_event = 0; steps_since_progress++;
    if (t.rec >= 0) ops[t.rec].own_steps++;
    if (!phase_active || cur == MAINT) {
        if (UNLIKELY(steps_since_progress > cfg.max_gap + 3000000)) fail("no-progress", "%s does not terminate when run alone", opn(cur));
        return;
    }
    if (k == EV_RMW) t.ncas++;
    mix(trace_hash, (u64(cur) << 56) | (u64(k) << 48) | (u64(size) << 40) | c);
    if (UNLIKELY(phase_steps > cfg.max_steps))
        fail("no-progress", "step limit %u exceeded: operations do not terminate (T%d in %s, %u own steps)", cfg.max_steps, cur, opn(cur), t.rec >= 0 ? ops[t.rec].own_steps : 0);
    if (UNLIKELY(steps_since_progress > cfg.max_gap))
        fail("no-progress", "no operation completed for %u steps of the running threads (T%d in %s)", cfg.max_gap, cur, opn(cur));
    if (UNLIKELY(cfg.replay)) {
        while (t.curdec < t.decs.size()) {
            Dec& d = t.decs[t.curdec];
            if (d.op < t.op || (d.op == t.op && d.step < t.lstep)) { t.curdec++; continue; }
            if (d.op != t.op || d.step != t.lstep) break;
            if (d.kind == D_STALL) { t.curdec++; do_stall(t, d.arg); return; }
            if (d.kind == D_CRASH) {
                t.curdec++;
                t.state = T_CRASHED; stats.fired[D_CRASH]++; if (t.rec >= 0) ops[t.rec].crashed = 1;
                tracef("        !! T%d crashes here", cur);
                int n = pick_forced((u8)cur, t.op, t.lstep);
                switch_to(n < 0 ? MAINT : n); abort();
            }
            if (d.kind == D_SWITCH) {
                t.curdec++;
                if (d.arg < MAXT && (th[d.arg].state == T_READY || th[d.arg].state == T_STALLED)) { th[d.arg].state = T_READY; switch_to((int)d.arg); }
                return;
            }
            break; // fault decisions are consumed where they apply
        }
        return;
    }
    Knobs& kn = cfg.knobs;
    for (size_t i = 0; i < kn.faults.size(); i++) {
        Fault& f = kn.faults[i];
        if (f.kind == 0xff || f.tid != cur || (f.op != t.op && f.op != 0xffff)) continue; // 0xffff: in the first operation that gets there
        if (f.at_cas ? (k == EV_RMW && t.ncas == f.step) : t.lstep == f.step) {
            u8 kind = f.kind; f.kind = 0xff;
            logd(kind, (u8)cur, t.op, t.lstep, f.arg);
            if (kind == D_STALL) { do_stall(t, f.arg); return; }
            t.state = T_CRASHED; stats.fired[D_CRASH]++; if (t.rec >= 0) ops[t.rec].crashed = 1;
            tracef("        !! T%d crashes here", cur);
            int n = pick_forced((u8)cur, t.op, t.lstep);
            switch_to(n < 0 ? MAINT : n); abort();
        }
    }
    int n = -1;
    if (kn.strat == 1) {
        if (pct_next < pct_points.size() && phase_steps >= pct_points[pct_next]) { pct_next++; t.prio = pct_low--; }
        n = pct_best(-1);
    } else if (kn.strat == 3) {
        // ambush: hold a thread at a step of an operation while another completes whole operations, then go on
        while (namb && (amb[namb - 1].tid == cur || th[amb[namb - 1].tid].state != T_READY)) namb--;
        if (namb && completed_ops >= amb[namb - 1].until) n = amb[--namb].tid;
        else if (namb < 2 && (kn.victim == 0xff || kn.victim == cur) && (k != EV_POINT || c) && chance(k == EV_ALOAD || k == EV_RMW || k == EV_ASTORE ? kn.p_sync : kn.p_switch)) {
            int cand[MAXT]; int all = runnable(cand, cur), m = 0;
            for (int i = 0; i < all; i++) { bool held = false; for (int j = 0; j < namb; j++) held |= amb[j].tid == cand[i]; if (!held) cand[m++] = cand[i]; }
            if (m) { n = cand[rnd() % m]; amb[namb].tid = cur; amb[namb++].until = completed_ops + 1 + u32(rnd() % kn.pct_depth); }
        }
    } else if (kn.strat == 4) {
        // hot sites: threads are preempted (nearly) always at a few places of the code, and between operations, but nowhere else
        if (k == EV_POINT || k == EV_ALLOC ? chance(c ? kn.p_switch * 0.3f : kn.p_switch) : hot_site(k) && chance(kn.p_sync)) {
            int cand[MAXT]; int m = runnable(cand, cur);
            if (k != EV_POINT && chance(0.15f)) // this may also be the moment at which a stalled thread goes on
                for (int i = 0; i < cfg.nthreads; i++) if (th[i].state == T_STALLED) cand[m++] = i;
            if (m) { n = cand[rnd() % m]; th[n].state = T_READY; }
        }
    } else if (chance(kn.p_switch) || (k == EV_RMW && chance(kn.p_sync))) {
        int cand[MAXT]; int m = runnable(cand, cur);
        if (m) n = cand[rnd() % m];
    }
    if (n >= 0 && n != cur) { logd(D_SWITCH, (u8)cur, t.op, t.lstep, n); switch_to(n); }
}

// a fault decision at the current position; 0 = no fault
static u32 fault(u8 kind, float p, u32 arg = 1)
{
    if (cur < 0 || ((!phase_active || cur == MAINT) && !(cur == MAINT && cfg.maint_faults))) return 0;
    Thread& t = th[cur];
    u16 sub = (u16)t.nf++;
    if (cfg.replay) {
        while (t.curdec < t.decs.size() && (t.decs[t.curdec].op < t.op || (t.decs[t.curdec].op == t.op && t.decs[t.curdec].step < t.lstep))) t.curdec++;
        for (u32 i = t.curdec; i < t.decs.size(); i++) {
            Dec& d = t.decs[i];
            if (d.op == t.op && d.step == t.lstep && d.kind == kind && d.sub == sub) { stats.fired[kind]++; if (t.rec >= 0) ops[t.rec].fired |= 1u << kind; return d.arg; }
            if (d.op > t.op || (d.op == t.op && d.step > t.lstep)) break;
        }
        return 0;
    }
    if (!chance(p)) return 0;
    logd(kind, (u8)cur, t.op, t.lstep, arg, sub);
    stats.fired[kind]++;
    if (t.rec >= 0) ops[t.rec].fired |= 1u << kind;
    return arg;
}

// ---------------------------------------------------------------- weak memory model
static u32  lochash[4096]; static u16 locid[4096]; static u32 locgen[4096]; static u32 wgen;
static bool weak_dead;  // ran out of locations: run is inconclusive
static int find_loc(u32 word, bool create)
{
    u32 h = (word * 2654435761u) >> 20;
    for (;; h = (h + 1) & 4095) {
        if (locgen[h] != wgen) break;
        if (lochash[h] == word) return locid[h];
    }
    if (!create) return -1;
    if (nloc >= MAXLOC) { if (!weak_dead) { weak_dead = true; stats.weak_overflow++; } return -1; }
    locgen[h] = wgen; lochash[h] = word; locid[h] = (u16)nloc;
    Loc& l = locs[nloc]; l.word = word; l.lastsc = 0; l.h.clear();
    u64 v; memcpy(&v, real_of(word), 8);
    l.h.push_back(Msg{ v, -1, 0xff, 0 });
    for (int i = 0; i < NTID; i++) { th[i].cur.ts[nloc] = 0; th[i].acq.ts[nloc] = 0; th[i].rel.ts[nloc] = 0; }
    scview.ts[nloc] = 0; gsync.ts[nloc] = 0;
    return (int)nloc++;
}
static inline View* vw(int i) { return i < 0 ? nullptr : viewpool[i]; }
static void weak_reset()
{
    wgen++; nloc = 0; viewused = 0; weak_dead = false;
    memset(&scview, 0, sizeof scview); memset(&gsync, 0, sizeof gsync);
    for (int i = 0; i < NTID; i++) {
        Thread& t = th[i];
        memset(t.cur.ts, 0, sizeof t.cur.ts);
        memset(&t.acq, 0, sizeof t.acq); memset(&t.rel, 0, sizeof t.rel); t.hasrel = t.hasacq = false;
        t.npatch = t.npend = t.ntent = 0;
    }
}
// Plain stores of the library's node links are read by atomic loads of other threads. Formally that is outside of the
// C++ model; what every target gives is used instead: a plain store behaves like a relaxed one, and a successful
// read-modify-write with release semantics is a barrier between earlier and later stores (lwsync; locked instruction).
static int plain_view(Thread& t, int l, u32 idx)
{
    if (!t.hasrel) return -1;
    int v = new_view(); vcopy(*viewpool[v], t.rel); viewpool[v]->ts[l] = (u16)idx; return v;
}
static inline void rmw_barrier(Thread& t) { vcopy(t.rel, t.cur); t.hasrel = true; }
// restore values patched in for a stale read, commit plain writes executed since the last hook
static void settle()
{
    if (cur < 0) return;
    Thread& t = th[cur];
    for (u32 i = 0; i < t.npatch; i++) memcpy(real_of(t.patch[i].word), &t.patch[i].real, 8);
    t.npatch = 0;
    for (u32 i = 0; i < t.npend; i++) {
        int l = find_loc(t.pendw[i], true); if (l < 0) continue;
        Loc& L = locs[l]; u64 v; memcpy(&v, real_of(L.word), 8);
        if (v != L.h.back().val) { L.h.push_back(Msg{ v, plain_view(t, l, (u32)L.h.size()), (u8)cur, u8(t.hasrel ? 1u << cur : 0) }); }
        t.cur.ts[l] = u16(L.h.size() - 1);
    }
    t.npend = 0;
}
// memory changed without a hook (inlined memset and the like): attribute to the running thread
static void resync(int l)
{
    Loc& L = locs[l]; u64 v; memcpy(&v, real_of(L.word), 8);
    if (v != L.h.back().val) { L.h.push_back(Msg{ v, -1, (u8)cur, 0 }); if (cur >= 0) th[cur].cur.ts[l] = u16(L.h.size() - 1); }
}
static inline bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

static u32 choose(int l, u32 lower)
{
    Loc& L = locs[l]; u32 last = (u32)L.h.size() - 1;
    if (lower >= last || cur == MAINT || !phase_active) return last;
    u32 n = last - lower;
    u32 back = 0;
    if (cfg.replay) { back = fault(D_STALE, 0); if (back > n) back = n; }
    else back = fault(D_STALE, cfg.knobs.p_stale, 1 + u32(rnd() % n));
    return last - back;
}
// atomic load part; returns the message index read
static u32 weak_load(int l, int mo, bool latest)
{
    Thread& t = th[cur]; Loc& L = locs[l];
    u32 last = (u32)L.h.size() - 1, lower = t.cur.ts[l];
    if (mo == 5 && scview.ts[l] > lower) lower = scview.ts[l];
    u32 i = latest ? last : choose(l, lower);
    t.cur.ts[l] = (u16)(i > t.cur.ts[l] ? i : t.cur.ts[l]);
    if (View* v = vw(L.h[i].view)) {
        if (is_acq(mo)) vjoin(t.cur, *v);
        else { vjoin(t.acq, *v); t.hasacq = true; }
    }
    return i;
}
static void weak_store(int l, u64 val, int mo, bool rmw)
{
    Thread& t = th[cur]; Loc& L = locs[l];
    Msg prev = L.h.back();
    Msg m{ val, -1, (u8)cur, 0 };
    u32 idx = (u32)L.h.size();
    if (idx >= 65000) { weak_dead = true; return; }
    t.cur.ts[l] = (u16)idx;
    if (is_rel(mo)) {
        m.view = new_view(); vcopy(*vw(m.view), t.cur);
        m.headmask = u8(1u << cur);
        t.cur.vc[cur]++;
    } else if (t.hasrel) {
        m.view = new_view(); vcopy(*vw(m.view), t.rel); m.headmask = u8(1u << cur);
        vw(m.view)->ts[l] = (u16)idx;
    }
    // release sequence (C++17: same thread's later stores, and read-modify-writes, continue it)
    if (prev.view >= 0 && (rmw || (prev.headmask & (1u << cur)))) {
        if (m.view < 0) { m.view = new_view(); vcopy(*vw(m.view), *vw(prev.view)); }
        else vjoin(*vw(m.view), *vw(prev.view));
        m.headmask |= prev.headmask;
    }
    if (mo == 5) scview.ts[l] = (u16)idx;
    L.h.push_back(m);
}

// ---------------------------------------------------------------- data races on payload (happens-before)
static std::vector<Race> races; static u32 racegen = 1;
static u32 race_slots = 1 << 13;
static Race* race_at(u32 key)
{
    if (races.empty()) races.resize(race_slots);
    u32 h = (key * 2654435761u) >> (32 - 13);
    for (;; h = (h + 1) & (race_slots - 1)) {
        Race& r = races[h];
        if (r.gen != racegen) { memset(&r, 0, sizeof r); r.gen = racegen; r.key = key; r.wt = 0xff; return &r; }
        if (r.key == key) return &r;
    }
}
static void race_read(u32 key, const char* what)
{
    if (!cfg.weak || cur < 0) return;
    stats.races_checked++;
    Race* r = race_at(key); View& v = th[cur].cur;
    if (r->wt != 0xff && r->wc > v.vc[r->wt] && r->wt != cur)
        soft_fail("race", "%s: T%d reads it in %s without happening after the write by T%d", what, cur, opn(cur), r->wt);
    r->rc[cur] = v.vc[cur];
}
static void race_write(u32 key, const char* what)
{
    if (!cfg.weak || cur < 0) return;
    stats.races_checked++;
    Race* r = race_at(key); View& v = th[cur].cur;
    if (r->wt != 0xff && r->wc > v.vc[r->wt] && r->wt != cur)
        soft_fail("race", "%s: T%d writes it in %s without happening after the write by T%d", what, cur, opn(cur), r->wt);
    for (int i = 0; i < NTID; i++)
        if (i != cur && r->rc[i] > v.vc[i])
            soft_fail("race", "%s: T%d overwrites it in %s without happening after the read by T%d", what, cur, opn(cur), i);
    r->wt = (u8)cur; r->wc = v.vc[cur]; // clocks start at 1
    memset(r->rc, 0, sizeof r->rc);
}

// ---------------------------------------------------------------- access checks
static inline u32 check(u64 a, u32 size, bool write)
{
    u32 c = canon(a);
    if (c == NOADDR) return c;
    u32 r = c >> 28, o = c & 0xfffffff;
    if (UNLIKELY(o + size > RSIZE)) fail("memory", "access outside of simulated memory in %s", opn(cur));
    u8 s0 = shadow[r][o >> 3], s1 = shadow[r][(o + size - 1) >> 3];
    if (UNLIKELY(s0 != 1 || s1 != 1))
        fail("memory", "%s of %u bytes in %s memory (T%d, %s)", write ? "write" : "read", size,
             (s0 == 2 || s1 == 2) ? "freed" : "unallocated", cur, opn(cur));
    if (UNLIKELY(r == 2 && cur >= 0 && cfg.view[cur] != 0xff)) {
        if ((a >> 28) != (VBASE[cfg.view[cur]] >> 28))
            soft_fail("foreign-mapping", "T%d (mapping %d) accesses the shared memory through an address of another process's mapping in %s", cur, cfg.view[cur], opn(cur));
    }
    return c;
}

static View staticview;
static void mutex_sync()
{
    if (!in_run || !cfg.weak || cur < 0) return;
    settle();
    vjoin(th[cur].cur, staticview); vjoin(staticview, th[cur].cur); th[cur].cur.vc[cur]++;
}
static inline void statics_event(u64 a, u32 size, bool write, bool atomic)
{
    u32 c = static_id(a);
    if (LIKELY(c == NOADDR) || !in_run) return;
    event(write ? EV_WRITE : EV_READ, c, size);
    if (trace_out && phase_active) tracef("T%d %-5s static data +%x/%u", cur, write ? "write" : "read", c & 0xfffffff, size);
    mix(inter_hash, (u64(cur) << 40) | (u64(write) << 36) | c);
    if (atomic) mutex_sync(); // its memory order is not modelled: full synchronisation
}
static inline void plain(u64 a, u32 size, bool write)
{
    if (!in_run) return;
    if (UNLIKELY(cfg.weak)) settle();
    u32 c = canon(a);
    if (c == NOADDR) { statics_event(a, size, write, false); return; }
    check(a, size, write);
    stats.plains++;
    event(write ? EV_WRITE : EV_READ, c, size);
    if (trace_out && phase_active) tracef("T%d %-5s +%x/%u", cur, write ? "write" : "read", c, size);
    mix(inter_hash, (u64(cur) << 40) | (u64(write) << 36) | c);
    if (LIKELY(!cfg.weak)) return;
    Thread& t = th[cur];
    for (u32 w = c & ~7u; w < c + size; w += 8) {
        if (cfg.strict_plain) { if (write) race_write(w, "slot memory"); else race_read(w, "slot memory"); }
        int l = find_loc(w, true); if (l < 0) continue;
        resync(l);
        if (write) { if (t.npend < 64) t.pendw[t.npend++] = w; else weak_dead = true; }
        else {
            u32 i = choose(l, t.cur.ts[l]);
            if (i > t.cur.ts[l]) t.cur.ts[l] = (u16)i;
            Loc& L = locs[l];
            if (i + 1 != L.h.size() && t.npatch < 64) {
                u64 real; memcpy(&real, real_of(w), 8);
                t.patch[t.npatch].word = w; t.patch[t.npatch++].real = real;
                memcpy(real_of(w), &L.h[i].val, 8);
                tracef("        (stale value)");
            }
        }
    }
}

template <class T> struct wide { static const bool v = sizeof(T) > 8; };

template <class T> static T a_load(const volatile void* pv, int mo)
{
    T* p = (T*)pv;
    if (!in_run) return *p;
    if (UNLIKELY(cfg.weak)) settle();
    u32 c = canon((u64)p);
    if (c == NOADDR) { statics_event((u64)p, sizeof(T), false, true); return *p; }
    check((u64)p, sizeof(T), false);
    stats.atomics++;
    event(EV_ALOAD, c, sizeof(T));
    T v;
    if (UNLIKELY(cfg.weak)) {
        if (sizeof(T) <= 8) {
            int l = find_loc(c & ~7u, true);
            if (l >= 0) { resync(l); u32 i = weak_load(l, mo, false); u64 w = locs[l].h[i].val; memcpy(&v, (char*)&w + (c & 7), sizeof(T)); }
            else v = *p;
        } else {
            for (u32 w = 0; w < sizeof(T); w += 8) { int l = find_loc(c + w, true); if (l >= 0) { resync(l); weak_load(l, mo, true); } }
            v = *p;
        }
    } else v = *p;
    u64 h = 0; memcpy(&h, &v, sizeof(T) < 8 ? sizeof(T) : 8);
    mix(trace_hash, h); mix(inter_hash, (u64(cur) << 40) | (2ull << 36) | c);
    if (trace_out && phase_active) tracef("T%d load  +%x/%u mo=%d -> %llx", cur, c, (u32)sizeof(T), mo, (unsigned long long)h);
    return v;
}
template <class T> static void commit_word(u32 c, const T& nv, int mo, bool rmw) // weak: memory already holds nv
{
    for (u32 w = c & ~7u; w < c + sizeof(T); w += 8) {
        int l = find_loc(w, true); if (l < 0) continue;
        u64 v; memcpy(&v, real_of(w), 8);
        weak_store(l, v, mo, rmw);
    }
    (void)nv;
}
template <class T> static void a_store(volatile void* pv, T v, int mo)
{
    T* p = (T*)pv;
    if (!in_run) { *p = v; return; }
    if (UNLIKELY(cfg.weak)) settle();
    u32 c = canon((u64)p);
    if (c == NOADDR) { statics_event((u64)p, sizeof(T), true, true); *p = v; return; }
    check((u64)p, sizeof(T), true);
    stats.atomics++;
    event(EV_ASTORE, c, sizeof(T));
    if (UNLIKELY(cfg.weak)) {
        for (u32 w = c & ~7u; w < c + sizeof(T); w += 8) { int l = find_loc(w, true); if (l >= 0) resync(l); }
        *p = v; commit_word<T>(c, v, mo, false);
    } else *p = v;
    u64 h = 0; memcpy(&h, &v, sizeof(T) < 8 ? sizeof(T) : 8);
    mix(trace_hash, h); mix(inter_hash, (u64(cur) << 40) | (3ull << 36) | c);
    if (trace_out && phase_active) tracef("T%d store +%x/%u mo=%d <- %llx", cur, c, (u32)sizeof(T), mo, (unsigned long long)h);
}
template <class T, class F> static T a_rmw(volatile void* pv, int mo, F f)
{
    T* p = (T*)pv;
    if (!in_run) { T o = *p; *p = f(o); return o; }
    if (UNLIKELY(cfg.weak)) settle();
    u32 c = canon((u64)p);
    if (c == NOADDR) { statics_event((u64)p, sizeof(T), true, true); T o = *p; *p = f(o); return o; }
    check((u64)p, sizeof(T), true);
    stats.atomics++;
    event(EV_RMW, c, sizeof(T));
    if (UNLIKELY(cfg.weak))
        for (u32 w = c & ~7u; w < c + sizeof(T); w += 8) { int l = find_loc(w, true); if (l >= 0) { resync(l); weak_load(l, mo, true); } }
    T o = *p; *p = f(o);
    if (UNLIKELY(cfg.weak) && is_rel(mo)) rmw_barrier(th[cur]);
    if (UNLIKELY(cfg.weak)) commit_word<T>(c, *p, mo, true);
    u64 h = 0; memcpy(&h, &o, sizeof(T) < 8 ? sizeof(T) : 8);
    mix(trace_hash, h); mix(inter_hash, (u64(cur) << 40) | (4ull << 36) | c);
    if (trace_out && phase_active) tracef("T%d rmw   +%x/%u mo=%d was %llx", cur, c, (u32)sizeof(T), mo, (unsigned long long)h);
    return o;
}
template <class T> static bool a_cas(volatile void* pv, T* exp, T des, int mo, int fmo, bool weakcas)
{
    T* p = (T*)pv;
    if (!in_run) { if (*p == *exp) { *p = des; return true; } *exp = *p; return false; }
    if (UNLIKELY(cfg.weak)) settle();
    u32 c = canon((u64)p);
    if (c == NOADDR) { statics_event((u64)p, sizeof(T), true, true); if (*p == *exp) { *p = des; return true; } *exp = *p; return false; }
    check((u64)p, sizeof(T), true);
    stats.atomics++;
    event(EV_RMW, c, sizeof(T));
    T want = *exp; bool ok = false; T seen;
    if (UNLIKELY(cfg.weak))
        for (u32 w = c & ~7u; w < c + sizeof(T); w += 8) { int l = find_loc(w, true); if (l >= 0) resync(l); }
    if (*p == want) {
        bool spur = false;
        if (weakcas) {
            Thread& t = th[cur];
            // at most two spurious failures in a row, so that they cannot starve an operation
            spur = fault(D_SPUR, t.lastspur < 2 ? cfg.knobs.p_spur : 0) != 0;
            t.lastspur = spur ? t.lastspur + 1 : 0;
        }
        ok = !spur;
    }
    if (ok) {
        if (UNLIKELY(cfg.weak))
            for (u32 w = c & ~7u; w < c + sizeof(T); w += 8) { int l = find_loc(w, true); if (l >= 0) weak_load(l, mo, true); }
        seen = *p; *p = des;
        if (UNLIKELY(cfg.weak) && is_rel(mo)) rmw_barrier(th[cur]);
        if (UNLIKELY(cfg.weak)) commit_word<T>(c, des, mo, true);
        stats.cas_ok++;
    } else {
        stats.cas_fail++;
        seen = *p;
        if (UNLIKELY(cfg.weak)) {
            if (sizeof(T) <= 8) {
                int l = find_loc(c & ~7u, true);
                // a failed compare-exchange is a load; only a weak one may report the expected value
                if (l >= 0) {
                    bool latest = !weakcas;
                    u32 i = weak_load(l, fmo, latest);
                    u64 w = locs[l].h[i].val; memcpy(&seen, (char*)&w + (c & 7), sizeof(T));
                }
            } else
                for (u32 w = 0; w < sizeof(T); w += 8) { int l = find_loc(c + w, true); if (l >= 0) weak_load(l, fmo, true); }
        }
        *exp = seen;
    }
    u64 h = 0; memcpy(&h, &seen, sizeof(T) < 8 ? sizeof(T) : 8);
    mix(trace_hash, h * 2 + ok); mix(inter_hash, (u64(cur) << 40) | (5ull << 36) | (u64(ok) << 37) | c);
    if (trace_out && phase_active) {
        u64 d = 0; memcpy(&d, &des, sizeof(T) < 8 ? sizeof(T) : 8);
        tracef("T%d cas%s  +%x/%u mo=%d %s seen=%llx new=%llx", cur, weakcas ? "w" : "s", c, (u32)sizeof(T), mo, ok ? "ok" : "FAIL", (unsigned long long)h, (unsigned long long)d);
    }
    return ok;
}
static void a_fence(int mo)
{
    if (!in_run || !cfg.weak || cur < 0) return;
    settle();
    Thread& t = th[cur];
    if (is_acq(mo) && t.hasacq) vjoin(t.cur, t.acq);
    if (mo == 5) { vjoin(t.cur, scview); vjoin(scview, t.cur); }
    if (is_rel(mo)) { memcpy(&t.rel, &t.cur, sizeof(View)); t.hasrel = true; t.cur.vc[cur]++; }
}

// ---------------------------------------------------------------- run control
static void on_crash(int sig, siginfo_t*, void*)
{
    if (!in_run) { signal(sig, SIG_DFL); raise(sig); return; }
    crash_sig = sig;
    siglongjmp(crash_jmp, 1);
}

static u64 wd_seen; static u32 wd_ticks, wd_limit;
static void on_alarm(int)
{
    if (!in_run) { wd_ticks = 0; return; }
    if (wd_seen != stats.runs) { wd_seen = stats.runs; wd_ticks = 0; return; }
    if (++wd_ticks >= wd_limit) { crash_sig = 0; siglongjmp(crash_jmp, 1); }
}
void watchdog(u32 seconds)
{
    wd_limit = seconds; wd_ticks = 0;
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sa.sa_flags = SA_ONSTACK | SA_RESTART;
    sigaction(SIGALRM, &sa, 0);
    struct itimerval it = { { 1, 0 }, { 1, 0 } };
    setitimer(ITIMER_REAL, &it, 0);
}

// the shared region, mapped at three addresses ("processes" of one run); forked workers must not share it
static void map_shared()
{
    int fd = memfd_create("simshm", 0);
    if (fd < 0 || ftruncate(fd, RSIZE)) { perror("memfd"); _exit(3); }
    for (int v = 0; v < 3; v++) {
        void* p = mmap((void*)VBASE[v], RSIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_NORESERVE | MAP_FIXED, fd, 0);
        if (p != (void*)VBASE[v]) { perror("mmap shm"); _exit(3); }
    }
    close(fd);
}
void after_fork() { map_shared(); }

void init()
{
    for (int r = 0; r < 2; r++) {
        void* p = mmap((void*)RBASE[r], RSIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (void*)RBASE[r]) { perror("mmap arena"); exit(3); }
    }
    map_shared();
    for (int r = 0; r < 3; r++) {
        shadow[r]  = (u8*)mmap(0, RSIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        eshadow[r] = (u8*)mmap(0, RSIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        rtop[r] = 0;
    }
    for (int i = 0; i < NTID; i++) {
        u64 a = STKBASE + u64(i) * (4 * STK);
        void* p = mmap((void*)a, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (void*)a) { perror("mmap stack"); exit(3); }
        th[i].stack = (u8*)p;
        p = mmap(scratch_of(i), SCR, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (void*)scratch_of(i)) { perror("mmap scratch"); exit(3); }
    }
    stack_t ss; memset(&ss, 0, sizeof ss);
    ss.ss_sp = mmap(0, 256 << 10, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_size = 256 << 10;
    sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT };
    for (int s : sigs) sigaction(s, &sa, 0);
    blocks.reserve(1 << 16);
    statics_init.assign((u8*)__sim_statics_begin, (u8*)__sim_statics_end);
    dl_iterate_phdr(find_tls, nullptr);
}

void set_region_policy(u32 bits, int shared) { alloc_rng = bits | 1; shared_obj = shared; }

void begin_run(RunCfg const& c)
{
    cfg = c;
    for (int r = 0; r < 3; r++) {
        if (!rtop[r]) continue;
        memset(shadow[r], 0, (rtop[r] >> 3) + 16);
        memset(eshadow[r], 0, (rtop[r] >> 3) + 16);
        rtop[r] = 0;
    }
    blocks.clear(); block_at.clear(); mutexes.clear();
    memcpy(__sim_statics_begin, statics_init.data(), statics_init.size());
    for (int i = 0; i < NTID; i++) th[i].ctx.tls.clear();
    if (tls_size) memcpy(tls_base, tls_init.data(), tls_size);
    nallocs = nlive = nelems = 0; livebytes = 0;
    forbid_alloc = forbid_free = false;
    alloc_rng = 12345; shared_obj = 0;
    rng = c.seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull; if (!rng) rng = 1;
    for (int i = 0; i < 4; i++) rnd();
    completed_ops = seqno = 0; steps_since_progress = 0; phase_steps = 0;
    trace_hash = inter_hash = 0x1234567;
    viol.set = false; viol.cls[0] = viol.msg[0] = 0; other_viol.set = false;
    log_decs.clear();
    ops.clear(); vals.clear(); fvals.clear(); fseqs.clear();
    for (int i = 0; i < NTID; i++) {
        Thread& t = th[i];
        t.state = T_NONE; t.op = 0; t.lstep = 0; t.ncas = 0; t.rec = -1; t.nf = 0; t.curdec = 0; t.decs.clear(); t.enddecs.clear(); t.bbs = 0; t.lastspur = 0;
        if (c.weak) memset(t.cur.vc, 0, sizeof t.cur.vc);
        t.npatch = t.npend = t.ntent = 0;
    }
    if (c.weak) { memset(&staticview, 0, sizeof staticview); weak_reset(); racegen++; for (int i = 0; i < NTID; i++) th[i].cur.vc[i] = 1; }
    if (c.replay)
        for (Dec const& d : c.decs) if (d.tid < NTID) (d.op == OPX_END ? th[d.tid].enddecs : th[d.tid].decs).push_back(d);
    stats.runs++;
}

bool run(void (*fn)(void*), void* arg)
{
    make_fiber(th[MAINT], fn, arg);
    if (sigsetjmp(crash_jmp, 1)) {
        in_run = false; phase_active = false; int c = cur; cur = -1;
        EhGlobals* g = (EhGlobals*)abi::__cxa_get_globals(); *g = driver_ctx.eh;
        if (!crash_sig) set_fail("no-progress", "T%d hangs in %s", c, opn(c));
        else set_fail("crash", "signal %d (%s) in T%d during %s", crash_sig, strsignal(crash_sig), c, opn(c));
        return false;
    }
    in_run = true; run_complete = false; cur = MAINT; bb_since_event = 0;
    driver_ctx.eh = *(EhGlobals*)abi::__cxa_get_globals();
    switch_ctx(driver_ctx, th[MAINT].ctx);
    in_run = false; cur = -1;
    return run_complete && !viol.set;
}

void spawn(int tid, void (*fn)(void*), void* arg)
{
    Thread& t = th[tid];
    make_fiber(t, fn, arg);
    t.state = T_READY; t.rec = -1;
    t.wake_at = 0;
}

void run_phase(int phase)
{
    if (cfg.weak) {
        settle();
        weak_reset();
        View m = th[MAINT].cur;
        for (int i = 0; i < cfg.nthreads; i++) if (th[i].state == T_READY) {
            for (int k = 0; k < 8; k++) th[i].cur.vc[k] = m.vc[k] > th[i].cur.vc[k] ? m.vc[k] : th[i].cur.vc[k];
            th[i].cur.vc[i]++;
        }
        th[MAINT].cur.vc[MAINT]++;
    }
    cur_phase = phase; phase_steps = 0; steps_since_progress = 0;
    if (!cfg.replay && cfg.knobs.strat == 4) site_salt = rnd();
    if (!cfg.replay && cfg.knobs.strat == 1) {
        pct_points.clear(); pct_next = 0; pct_low = 1000;
        for (int i = 0; i < cfg.knobs.pct_depth; i++) pct_points.push_back(1 + u32(rnd() % (cfg.knobs.pct_len ? cfg.knobs.pct_len : 1)));
        for (size_t i = 1; i < pct_points.size(); i++) for (size_t j = i; j && pct_points[j - 1] > pct_points[j]; j--) { u32 x = pct_points[j]; pct_points[j] = pct_points[j - 1]; pct_points[j - 1] = x; }
        u32 perm[MAXT]; for (int i = 0; i < cfg.nthreads; i++) perm[i] = i;
        for (int i = cfg.nthreads - 1; i > 0; i--) { int j = int(rnd() % (i + 1)); u32 x = perm[i]; perm[i] = perm[j]; perm[j] = x; }
        for (int i = 0; i < cfg.nthreads; i++) th[i].prio = 2000 + perm[i];
    }
    namb = 0;
    int n = pick_forced(MAINT, (u16)phase, 0);
    if (n < 0) return;
    phase_active = true;
    switch_to(n);
    phase_active = false;
    if (cfg.weak) {
        for (int i = 0; i < cfg.nthreads; i++)
            for (int k = 0; k < 8; k++) if (th[i].cur.vc[k] > th[MAINT].cur.vc[k]) th[MAINT].cur.vc[k] = th[i].cur.vc[k];
        weak_reset();
        th[MAINT].cur.vc[MAINT]++;
    }
}
bool crashed(int tid) { return th[tid].state == T_CRASHED; }
u32 opidx_of_thread(int tid) { return th[tid].op; }

void set_view(int tid, u8 v) { cfg.view[tid] = v; }
void no_faults() { cfg.maint_faults = false; }
void progress() { steps_since_progress = 0; }
// the warm-up may come from a snapshot: the identity of a run starts after it
void start_identity() { trace_hash = inter_hash = 0x1234567; steps_since_progress = 0; th[MAINT].lastspur = 0; }
bool set_maint_faults(bool on) { bool o = cfg.maint_faults; cfg.maint_faults = on; return o; }
void set_phase(int phase) { Thread& t = th[MAINT]; if (t.op != (u16)phase) { t.op = (u16)phase; t.lstep = 0; t.nf = 0; } }

int op_begin(int tid, u16 opidx, OpIn const& in, bool record)
{
    Thread& t = th[tid];
    if (tid != MAINT && t.op != opidx) { t.op = opidx; t.lstep = 0; t.ncas = 0; }
    if (cfg.weak) settle();
    if (!record) { t.rec = -1; return -1; }
    // an operation boundary is a scheduling point: histories differ by who invokes first
    event(EV_POINT, 0, 0);
    int id = (int)ops.size();
    ops.emplace_back();
    OpRec& r = ops.back();
    memset(&r, 0, sizeof r);
    r.tid = (u8)tid; r.kind = in.kind; r.in = in; r.opidx = opidx; r.phase = (u16)cur_phase;
    r.bbs = t.bbs; r.alloc_at_inv = nallocs;
    if (cfg.weak) {
        if (cfg.opsync) vjoin(t.cur, gsync);
        memcpy(r.vc0, t.cur.vc, sizeof r.vc0);
    }
    r.inv = seqno++; r.ret = 0xffffffffu;
    t.rec = id; t.reckind = in.kind; t.fbuf.clear(); t.fsbuf.clear();
    tracef("T%d INVOKE %s n=%u v0=%u arg=%u", tid, op_name[in.kind], in.n, in.v[0], in.arg);
    return id;
}
static void store_funcs(Thread& t)
{
    OpRec& r = ops[t.rec];
    r.foff = (u32)fvals.size(); r.nfunc = (u32)t.fbuf.size();
    fvals.insert(fvals.end(), t.fbuf.begin(), t.fbuf.end());
    fseqs.insert(fseqs.end(), t.fsbuf.begin(), t.fsbuf.end());
}
void flush_pending()
{
    for (int i = 0; i < NTID; i++) if (th[i].rec >= 0 && !ops[th[i].rec].done) { store_funcs(th[i]); th[i].rec = -1; }
}
void op_end(int id, OpOut const& out)
{
    int tid = cur; Thread& t = th[tid];
    if (cfg.weak) settle();
    if (id >= 0) {
        OpRec& r = ops[id];
        r.done = 1; r.ret = seqno++; r.bbs = t.bbs - r.bbs;
        r.exc = out.exc; r.ok = out.ok; r.n = out.n; r.nv = out.nv; r.voff = (u32)vals.size();
        vals.insert(vals.end(), out.v, out.v + out.nv);
        store_funcs(t);
        if (cfg.weak) {
            r.vc1clk = t.cur.vc[tid];
            t.cur.vc[tid]++;
            if (cfg.opsync) { View tmp = t.cur; tmp.vc[tid]--; vjoin(gsync, tmp); }
        }
        mix(trace_hash, 0x77000000ull + out.ok * 65536 + out.n * 256 + out.nv);
        for (u32 i = 0; i < out.nv; i++) mix(trace_hash, (u64)out.v[i]);
        mix(inter_hash, 0x99ull + tid);
        if (trace_out) {
            std::string s; for (u32 i = 0; i < out.nv && i < 12; i++) s += " " + std::to_string(out.v[i]);
            tracef("T%d RETURN %s ok=%u n=%u exc=%u values:%s", tid, op_name[r.kind], out.ok, out.n, out.exc, s.c_str());
        }
    }
    t.rec = -1;
    completed_ops++; steps_since_progress = 0;
    bool stalled_inside = false;
    if (phase_active)
        for (int i = 0; i < cfg.nthreads; i++) {
            if (th[i].state == T_STALLED) { stalled_inside = true; if (completed_ops >= th[i].wake_at) th[i].state = T_READY; }
        }
    if (stalled_inside) stats.reuse_under_stall++;
}

// ---------------------------------------------------------------- memory
void* mem_alloc(size_t size, size_t align, int allocid, int region)
{
    if (align < 16) align = 16;
    u64 o = rtop[region] + 64;
    o = (o + align - 1) & ~u64(align - 1);
    size_t sz = (size + 7) & ~size_t(7);
    if (o + sz + 64 > RSIZE) fail("memory", "simulated memory exhausted (%zu bytes requested)", size);
    rtop[region] = o + sz;
    memset(shadow[region] + (o >> 3), 1, sz >> 3);
    u32 c = u32(o) | (u32(region) << 28);
    u8* p = real_of(c);
    memset(p, 0xA5, sz);
    u32 bi = (u32)blocks.size();
    blocks.push_back(Block{ c, (u32)size, 1, allocid, 0, 0 });
    block_at[c] = bi;
    return p;
}
void* view_addr(void* p, int view) { u32 c = canon((u64)p); return (void*)(VBASE[view] + (c & 0xfffffff)); }
u32 live_allocs() { return nlive; }
u32 total_allocs() { return nallocs; }
void forget_allocs() { nallocs = 0; }
u64 live_bytes() { return livebytes; }
u32 live_elems() { return nelems; }
void alloc_monitor(bool a, bool f) { forbid_alloc = a; forbid_free = f; }

struct Snap { u64 top[3]; std::string mem[3], sh[3], es[3]; std::vector<Block> b; std::map<u32, u32> at; u32 na, nl, ne, ar; u64 lb; };
static std::map<u64, Snap> snaps;
void snapshot_save(u64 key)
{
    if (snaps.size() > 64) snaps.clear();
    Snap& s = snaps[key];
    for (int r = 0; r < 3; r++) {
        s.top[r] = rtop[r];
        s.mem[r].assign((char*)RBASE[r], rtop[r]); s.sh[r].assign((char*)shadow[r], rtop[r] >> 3); s.es[r].assign((char*)eshadow[r], rtop[r] >> 3);
    }
    s.b = blocks; s.at = block_at; s.na = nallocs; s.nl = nlive; s.ne = nelems; s.lb = livebytes; s.ar = alloc_rng;
}
bool snapshot_load(u64 key)
{
    auto it = snaps.find(key); if (it == snaps.end()) return false;
    Snap& s = it->second;
    for (int r = 0; r < 3; r++) {
        rtop[r] = s.top[r];
        memcpy((char*)RBASE[r], s.mem[r].data(), s.mem[r].size()); memcpy(shadow[r], s.sh[r].data(), s.sh[r].size()); memcpy(eshadow[r], s.es[r].data(), s.es[r].size());
    }
    blocks = s.b; block_at = s.at; nallocs = s.na; nlive = s.nl; nelems = s.ne; livebytes = s.lb; alloc_rng = s.ar;
    return true;
}

void box_write(u32 id) { if (cfg.weak) { settle(); race_write(0xf0000000u + id * 8, "data the producer wrote before the push"); } }
void box_read(u32 id, const char* what) { (void)what; if (cfg.weak) { settle(); race_read(0xf0000000u + id * 8, "data the producer wrote before the push"); } }

// ---------------------------------------------------------------- coverage / hang detection
static u8 edgemap[1 << 18];
u64 edges_covered() { u64 n = 0; for (u8 x : edgemap) n += x; return n; }
} // namespace rt
using namespace rt;

extern "C" void __sanitizer_cov_trace_pc()
{
    u64 pc = (u64)__builtin_return_address(0);
    edgemap[(pc * 0x9E3779B97F4A7C15ull) >> 46] = 1;
    if (cur >= 0) {
        th[cur].bbs++;
        if (UNLIKELY(++bb_since_event > 3000000) && in_run)
            fail("no-progress", "T%d loops in %s without touching shared memory", cur, opn(cur));
    }
}

extern "C" {
void* rt_alloc(size_t size, size_t align, int allocid)
{
    if (!in_run) { void* p = nullptr; if (posix_memalign(&p, align < 16 ? 16 : align, size)) throw std::bad_alloc(); return p; }
    if (cfg.weak) settle();
    event(EV_ALLOC, 0, 0);
    if (allocid == -77) fail("memory", "T%d allocates in %s through a default-constructed allocator instead of the one the container was given", cur, opn(cur));
    if (forbid_alloc) soft_fail("alloc-in-op", "T%d calls the allocator in %s, which must not allocate", cur, opn(cur));
    if (size > (1u << 26)) throw std::bad_alloc();
    if (fault(D_ALLOCF, cfg.knobs.p_alloc)) { tracef("        !! allocation failure injected"); throw std::bad_alloc(); }
    int region;
    if (shared_obj) region = 2;
    else { alloc_rng = alloc_rng * 1103515245u + 12345u; region = (alloc_rng >> 16) & 1; }
    void* p = mem_alloc(size, align, allocid, region);
    blocks.back().isalloc = 1;
    nallocs++; nlive++; livebytes += size;
    if (cur >= 0 && th[cur].rec >= 0) ops[th[cur].rec].allocs++;
    if (shared_obj && cur >= 0 && cfg.view[cur] != 0xff) return view_addr(p, cfg.view[cur]);
    return p;
}
void rt_free(void* p, size_t size, int allocid)
{
    u32 c = canon((u64)p);
    if (c == NOADDR || !in_run) {
        if (!p) return;
        if (in_run) fail("memory", "free of memory that was not allocated (T%d, %s)", cur, opn(cur));
        free(p); return;
    }
    if (cfg.weak) settle();
    event(EV_ALLOC, 0, 0);
    auto it = block_at.find(c);
    if (it == block_at.end() || !blocks[it->second].isalloc) fail("memory", "free of an address the allocator never returned (T%d, %s)", cur, opn(cur));
    Block& b = blocks[it->second];
    if (b.state != 1) fail("memory", "block freed twice (T%d, %s)", cur, opn(cur));
    if (size != ~size_t(0) && size != b.size) fail("memory", "block of %u bytes freed with size %zu", b.size, size);
    if (b.allocid != allocid) fail("memory", "block allocated by allocator %d freed through allocator %d", b.allocid, allocid);
    if (forbid_free) soft_fail("free-in-op", "T%d returns node memory to the allocator in %s, before the container is destroyed", cur, opn(cur));
    b.state = 2; nlive--; livebytes -= b.size;
    u32 r = c >> 28, o = c & 0xfffffff;
    memset(shadow[r] + (o >> 3), 2, (b.size + 7) >> 3);
    memset(real_of(c), 0xDD, b.size);
    if (cur >= 0 && th[cur].rec >= 0) ops[th[cur].rec].frees++;
}
// symbols the adapters' malloc-family calls are renamed to (objcopy --redefine-sym)
int   sim_posix_memalign(void** out, size_t al, size_t n) { try { *out = rt_alloc(n, al, -1); return 0; } catch (std::bad_alloc&) { return 12; } }
void* sim_aligned_alloc(size_t al, size_t n) { try { return rt_alloc(n, al, -1); } catch (std::bad_alloc&) { return nullptr; } }
void* sim_malloc(size_t n) { try { return rt_alloc(n, 16, -1); } catch (std::bad_alloc&) { return nullptr; } }
void  sim_free(void* p) { if (p) rt_free(p, ~size_t(0), -1); }
void* sim_new(size_t n) { return rt_alloc(n, 16, -2); }
void* sim_new_al(size_t n, size_t al) { return rt_alloc(n, al, -2); }
void  sim_delete(void* p) { if (p) rt_free(p, ~size_t(0), -2); }
void* sim_new_arr(size_t n) { return rt_alloc(n, 16, -3); }
void  sim_delete_arr(void* p) { if (p) rt_free(p, ~size_t(0), -3); }
void  sim_delete_sz(void* p, size_t n) { if (p) rt_free(p, n, -2); }
void  sim_delete_al(void* p, size_t) { if (p) rt_free(p, ~size_t(0), -2); }
void  sim_delete_sz_al(void* p, size_t n, size_t) { if (p) rt_free(p, n, -2); }
void  sim_assert_fail(const char* e, const char* f, unsigned line, const char*)
{
    const char* b = strrchr(f, '/');
    if (in_run) fail("assertion", "assertion failed: %s (%s:%u) in %s", e, b ? b + 1 : f, line, opn(cur));
    fprintf(stderr, "assertion outside run: %s\n", e); abort();
}

// blocking primitives, should the code under test use any: one OS thread runs everything, so they become spin loops
// of scheduling points (a holder that is stalled or crashed then shows up as missing progress)
int  sim_mutex_trylock(void* m) { if (!in_run) return 0; event(EV_RMW, 7, 0); u8& x = mutexes[m]; if (x) return 16; x = 1; mutex_sync(); return 0; }
int  sim_mutex_lock(void* m) { if (!in_run) return 0; for (;;) { event(EV_RMW, 7, 0); u8& x = mutexes[m]; if (!x) { x = 1; mutex_sync(); return 0; } event(EV_POINT, 9, 0); } }
int  sim_mutex_unlock(void* m) { if (!in_run) return 0; event(EV_POINT, 8, 0); mutex_sync(); mutexes[m] = 0; return 0; }
// initialisation of function-local static variables
int  sim_guard_acquire(u8* g)
{
    for (;;) {
        if (in_run && cur >= 0) { event(EV_RMW, 11, 0); mutex_sync(); }
        if (g[0]) return 0;
        if (!g[1]) { g[1] = 1; return 1; }
        if (!in_run) fail("no-progress", "recursive initialisation of a static variable");
    }
}
void sim_guard_release(u8* g) { mutex_sync(); g[1] = 0; g[0] = 1; }
void sim_guard_abort(u8* g) { g[1] = 0; }
int  sim_yield() { event(EV_POINT, 9, 0); return 0; }
int  sim_sleep(const void*, void*) { event(EV_POINT, 9, 0); return 0; }

void rt_func_enter(int val)
{
    if (cur < 0) return;
    if (cfg.weak) settle();
    Thread& t = th[cur];
    event(EV_POINT, 1, 0);
    if (t.rec >= 0) {
        u32 lim = cfg.max_gap >= 1000000 ? (u32)MAXOUT : 2000;
        if (t.fbuf.size() < lim) { t.fbuf.push_back(val); t.fsbuf.push_back(seqno++); steps_since_progress = 0; }
        else fail("functor", "%s calls its functor more than %u times", opn(cur), lim);
    }
    mix(trace_hash, 0x5500000000ull + (u32)val);
    tracef("T%d functor(%d)", cur, val);
    if (val >= 0) box_read((u32)val, "box");
    if (fault(D_FUNCF, cfg.knobs.p_func)) { tracef("        !! functor throws"); throw FuncFault(); }
}
void rt_func_exit() { if (cur < 0) return; event(EV_POINT, 2, 0); }

static inline u8* es(const void* p) { u32 c = canon((u64)p); return c == NOADDR ? nullptr : &eshadow[c >> 28][(c & 0xfffffff) >> 3]; }
void rt_elem_copyfault(const void* dst)
{
    if (!in_run) return;
    if (!es(dst)) return;
    event(EV_POINT, 3, 0);
    if (fault(D_COPYF, cfg.knobs.p_copy)) { tracef("        !! element copy throws"); throw CopyFault(); }
}
void rt_user_fault()
{
    if (!in_run || cur < 0 || th[cur].rec < 0) return;
    if (fault(D_COPYF, cfg.knobs.p_copy)) { tracef("        !! user code throws"); throw CopyFault(); }
}
void rt_moved(const void* p, u32 self)
{
    if (!in_run || cur < 0) return;
    if (self != rt_elem_self(p)) soft_fail("lifetime", "an element came to its place without being copied by its own constructor or assignment (T%d, %s)", cur, opn(cur));
}
void rt_conv_check(u32 n, u8 ok)
{
    if (!in_run || cur < 0) return;
    if (n != (ok ? 1u : 0u)) soft_fail("conservation", "T%d %s converted %u element(s) into the caller's object and delivered %u", cur, opn(cur), n, ok ? 1u : 0u);
}
void* rt_scratch(size_t size, size_t align)
{
    (void)align; // page aligned
    if (size > SCR - MAXOUT * sizeof(int)) { fprintf(stderr, "operation arguments too large\n"); _exit(3); }
    return scratch_of(cur < 0 ? MAINT : cur);
}
void rt_elem_ctor(const void* p, u32 size)
{
    u8* e = es(p); if (!e || !in_run) return;
    event(EV_POINT, 4, 0);
    if (*e) soft_fail("lifetime", "an element is constructed over a live element (T%d, %s)", cur, opn(cur));
    *e = 1; nelems++;
    if (cfg.weak) { settle(); for (u32 o = 0; o < size; o += 8) race_write((canon((u64)p) & ~7u) + o, "element storage"); }
}
void rt_elem_dtor(const void* p, u32 size)
{
    u8* e = es(p); if (!e || !in_run) return;
    event(EV_POINT, 5, 0);
    if (!*e) soft_fail("lifetime", "destructor runs on storage that holds no element (T%d, %s)", cur, opn(cur));
    *e = 0; nelems--;
    if (cfg.weak) { settle(); for (u32 o = 0; o < size; o += 8) race_write((canon((u64)p) & ~7u) + o, "element storage"); }
}
void rt_elem_read(const void* p, u32 size, int)
{
    u8* e = es(p); if (!e || !in_run) return;
    if (!*e) soft_fail("lifetime", "an element is read that is not alive (T%d, %s)", cur, opn(cur));
    if (cfg.weak) { settle(); for (u32 o = 0; o < size; o += 8) race_read((canon((u64)p) & ~7u) + o, "element storage"); }
}
void rt_elem_write(const void* p, u32 size)
{
    u8* e = es(p); if (!e || !in_run) return;
    if (!*e) soft_fail("lifetime", "assignment to storage that holds no live element (T%d, %s)", cur, opn(cur));
    if (cfg.weak) { settle(); for (u32 o = 0; o < size; o += 8) race_write((canon((u64)p) & ~7u) + o, "element storage"); }
}
u32 rt_elem_self(const void* p) { u32 c = canon((u64)p); return c == NOADDR ? (u32)(u64)p | (15u << 28) : c; }
void rt_elem_bytewise(const void* p, u32 self)
{
    if (!in_run || cur < 0) return;
    u8* e = es(p); if (e && !*e) return; // reported as access to a dead element
    if (self != rt_elem_self(p)) soft_fail("lifetime", "an element came to its place without construction (bytewise copy; T%d, %s)", cur, opn(cur));
}
void rt_wp_write(const void* p, u32 size)
{
    if (!in_run || !cfg.weak) return;
    u32 c = canon((u64)p); if (c == NOADDR) return;
    settle();
    for (u32 w = c & ~7u; w < c + size; w += 8) race_write(w, "element storage");
}
void rt_wp_read(const void* p, u32 size)
{
    if (!in_run || !cfg.weak || cur < 0) return;
    u32 c = canon((u64)p); if (c == NOADDR) return;
    settle();
    Thread& t = th[cur]; t.ntent = 0;
    for (u32 w = c & ~7u; w < c + size && t.ntent < 64; w += 8) { Race* r = race_at(w); t.tent[t.ntent].wt = r->wt; t.tent[t.ntent++].wc = r->wc; }
}
void rt_wp_commit()
{
    if (!in_run || !cfg.weak || cur < 0) return;
    settle();
    Thread& t = th[cur];
    for (u32 i = 0; i < t.ntent; i++) {
        u8 wt = t.tent[i].wt; // who had written what was read
        stats.races_checked++;
        if (wt != 0xff && wt != cur && t.tent[i].wc > t.cur.vc[wt])
            soft_fail("race", "element storage: T%d got its value in %s without happening after the write by T%d", cur, opn(cur), wt);
    }
    t.ntent = 0;
}

// ---------------------------------------------------------------- compiler callbacks
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define RW(n) \
    void __tsan_read##n(void* a) { ev_pc = (u64)__builtin_return_address(0); plain((u64)a, n, false); } \
    void __tsan_write##n(void* a) { ev_pc = (u64)__builtin_return_address(0); plain((u64)a, n, true); } \
    void __tsan_unaligned_read##n(void* a) { ev_pc = (u64)__builtin_return_address(0); plain((u64)a, n, false); } \
    void __tsan_unaligned_write##n(void* a) { ev_pc = (u64)__builtin_return_address(0); plain((u64)a, n, true); } \
    void __tsan_volatile_read##n(void* a) { ev_pc = (u64)__builtin_return_address(0); plain((u64)a, n, false); } \
    void __tsan_volatile_write##n(void* a) { ev_pc = (u64)__builtin_return_address(0); plain((u64)a, n, true); } \
    void __tsan_read_write##n(void* a) { ev_pc = (u64)__builtin_return_address(0); plain((u64)a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
static void range(void* a, size_t n, bool w)
{
    // one event per word: a struct copy is not atomic
    u64 p = (u64)a, e = p + n;
    if (!in_run || canon(p) == NOADDR) return;
    if (cfg.weak) { if (n <= 8 * 60) { plain(p, (u32)n, w); return; } }
    while (p < e) { u64 q = (p & ~7ull) + 8; if (q > e) q = e; plain(p, u32(q - p), w); p = q; }
}
// The copy behind a range callback happens at once after the callback; to let other threads in between its words,
// SC runs use word-wise events before the copy (the copy then sees the newest words).
void __tsan_read_range(void* a, size_t n) { range(a, n, false); }
void __tsan_write_range(void* a, size_t n) { range(a, n, true); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { range((void*)s, n, false); range(d, n, true); } return memmove(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { range((void*)s, n, false); range(d, n, true); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n) range(d, n, true); return memset(d, c, n); }
// word-by-word copy: other threads may run between the words
static void* sim_copy(void* d, const void* s, size_t n)
{
    if (!n) return d;
    bool sa = in_run && canon((u64)s) != NOADDR, da = in_run && canon((u64)d) != NOADDR;
    if (!sa && !da) return memmove(d, s, n);
    char* dp = (char*)d; const char* sp = (const char*)s;
    bool back = dp > sp && dp < sp + n;
    if (back) { // overlapping backwards: never used by this library; do it at once
        if (sa) range((void*)s, n, false);
        if (da) range(d, n, true);
        return memmove(d, s, n);
    }
    size_t i = 0;
    while (i < n) {
        size_t k = 8 - ((u64)(sa ? sp + i : dp + i) & 7); if (k > n - i) k = n - i;
        char tmp[8];
        if (sa) plain((u64)(sp + i), (u32)k, false);
        memcpy(tmp, sp + i, k);
        if (da) plain((u64)(dp + i), (u32)k, true);
        memcpy(dp + i, tmp, k);
        i += k;
    }
    return d;
}
void* sim_memcpy(void* d, const void* s, size_t n) { return sim_copy(d, s, n); }
void* sim_memmove(void* d, const void* s, size_t n) { return sim_copy(d, s, n); }
void* sim_memset(void* d, int c, size_t n)
{
    if (n && in_run && canon((u64)d) != NOADDR) {
        char* dp = (char*)d; size_t i = 0;
        while (i < n) { size_t k = 8 - ((u64)(dp + i) & 7); if (k > n - i) k = n - i; plain((u64)(dp + i), (u32)k, true); memset(dp + i, c, k); i += k; }
        return d;
    }
    return memset(d, c, n);
}

typedef unsigned __int128 u128;
#define PC ev_pc = (u64)__builtin_return_address(0)
#define ATOMICS(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* p, int mo) { PC; return a_load<T>(p, mo); } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { PC; a_store<T>(p, v, mo); } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { PC; return a_rmw<T>(p, mo, [=](T) { return v; }); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { PC; return a_rmw<T>(p, mo, [=](T o) { return T(o + v); }); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { PC; return a_rmw<T>(p, mo, [=](T o) { return T(o - v); }); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { PC; return a_rmw<T>(p, mo, [=](T o) { return T(o & v); }); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { PC; return a_rmw<T>(p, mo, [=](T o) { return T(o | v); }); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { PC; return a_rmw<T>(p, mo, [=](T o) { return T(o ^ v); }); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { PC; return a_rmw<T>(p, mo, [=](T o) { return T(~(o & v)); }); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int fmo) { PC; return a_cas<T>(p, c, v, mo, fmo, false); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fmo) { PC; return a_cas<T>(p, c, v, mo, fmo, true); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fmo) { PC; T e = c; a_cas<T>(p, &e, v, mo, fmo, false); return e; }
ATOMICS(8, u8) ATOMICS(16, u16) ATOMICS(32, u32) ATOMICS(64, u64) ATOMICS(128, u128)
void __tsan_atomic_thread_fence(int mo) { a_fence(mo); }
void __tsan_atomic_signal_fence(int) {}
}
