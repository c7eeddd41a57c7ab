// Runs one case: construct, age, prefill, phases, drain, refill, destroy; then hands the history to the oracles.
#include "case.hpp"
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <unistd.h>
using namespace rt;

AdapterInfo* find_adapter(std::string const& name)
{
    for (AdapterInfo* a = g_adapters; a; a = a->next) if (name == a->name) return a;
    return nullptr;
}

static Case const*  C;
static AdapterInfo* A;
static Adapter*     ad[5];     // one per mapping; ad[3] = MAINT's; ad[4] = the twin's
static Adapter*     thr_ad[NTID];
static u16          next_opidx[MAXT];
static Phase const* cur_ph;
static bool         built;
static u8           construct_exc;
static bool         any_crash, any_exc;
static u32          nodes0;

static bool is_push(u8 k) { return k == OP_PUSH || k == OP_BPUSH || k == OP_UPUSH || k == OP_PUSHR || k == OP_BPUSHR || k == OP_UPUSHR || k == OP_PUSHARR || k == OP_PUSHARRREF || k == OP_PUSHIT; }
static bool has_func(u8 k) { return k >= OP_CONS1 && k <= OP_CONSREVC; }

static void exec1(int tid, u16 opidx, OpIn const& in, OpOut& out)
{
    if (C->weak && is_push(in.kind)) for (u32 i = 0; i < in.n; i++) box_write(in.val(i));
    int id = op_begin(tid, opidx, in, true);
    out.exc = out.ok = 0; out.n = 0; out.nv = 0;
    thr_ad[tid]->exec(in, out);
    if (out.nv > MAXOUT) fail("count", "%s delivered %u elements at once", op_name[in.kind], out.nv);
    if (C->weak && !has_func(in.kind)) for (u32 i = 0; i < out.nv; i++) if (out.v[i] >= 0) box_read((u32)out.v[i], "");
    if (out.exc) any_exc = true;
    if (in.kind == OP_RESET && A->elem == EK_ELEM && !any_crash && live_elems()) fail("lifetime", "reset() leaves %u element(s) alive in the container", live_elems());
    op_end(id, out);
}
// ---------------------------------------------------------------- the twin: another container of the same type, alive and in use at the same time
static Adapter*          tw;
static u32               tw_cap, tw_next;   // values TW0 .. TW0+tw_next-1 have been handed to push
static std::vector<u8>   tw_state;          // 0: push refused, 1: in the twin (or being pushed), 2: delivered
static std::vector<u16>  tw_order;          // spsc: accepted pushes in order
static u32               tw_out;
enum { TW0 = 61000, TWMAX = 2000 };
static void twin_delivered(int v)
{
    if (v < TW0 || v >= TW0 + (int)tw_next) fail("conservation", "a second container of the same type delivered %d, which was never pushed into it", v);
    if (tw_state[v - TW0] != 1) fail("conservation", "a second container of the same type delivered %d twice", v);
    if (A->fam == FAM_SPSC) { // one consumer: exact order of the accepted pushes
        int want = tw_out < tw_order.size() ? tw_order[tw_out] : -1;
        if (v != want) fail("fifo", "a second queue of the same type delivered %d instead of %d", v, want);
    }
    tw_out++;
    tw_state[v - TW0] = 2;
}
static void do_twin(int tid, u16 opidx, OpIn const& in)
{
    if (!tw || tw_next >= TWMAX) return;
    OpOut out; out.v = out_buf(tid); out.exc = out.ok = 0; out.n = 0; out.nv = 0;
    OpIn q; memset(&q, 0, sizeof q);
    u32 var = in.arg >> 1; // which of the operations
    auto has = [](u8 k) { return (A->ops >> k & 1) != 0; };
    op_begin(tid, opidx, in, false);
    if (in.arg & 1) {
        static const u8 kinds[] = { OP_POP, OP_POP, OP_POPCONV, OP_CONS1, OP_CONS1C, OP_CONSALL, OP_CONSALLC, OP_CONSATOM, OP_CONSREVC, OP_POPARR, OP_POPIT };
        q.kind = kinds[var % 11]; if (!has(q.kind)) q.kind = OP_POP;
        if (q.kind == OP_POPARR) q.n = 2;
        tw->exec(q, out);
        for (u32 i = 0; i < out.nv && i < MAXOUT; i++) twin_delivered(out.v[i]);
        bool single = q.kind == OP_POP || q.kind == OP_POPCONV || q.kind == OP_CONS1 || q.kind == OP_CONS1C;
        if (out.nv != (single ? out.ok : out.n)) fail("count", "%s of a second container reports %u elements and delivers %u", op_name[q.kind], single ? out.ok : out.n, out.nv);
    } else {
        static const u8 kinds[] = { OP_BPUSH, OP_PUSH, OP_PUSHARR, OP_PUSHIT, OP_BPUSHR };
        q.kind = kinds[var % 5];
        if (!has(q.kind) || (A->storage == ST_NODE && q.kind == OP_PUSH)) q.kind = A->fam == FAM_SPSC ? OP_PUSH : OP_BPUSH;
        bool batch = q.kind == OP_PUSHARR || q.kind == OP_PUSHIT || q.kind == OP_BPUSHR;
        q.n = batch ? 2 : 1;
        u32 k = tw_next; tw_next += q.n;
        for (u32 i = 0; i < q.n; i++) { q.v[i] = (u16)(TW0 + k + i); tw_state.push_back(1); if (A->fam == FAM_SPSC) tw_order.push_back(q.v[i]); }
        tw->exec(q, out);
        u32 acc = batch ? out.n : out.ok;
        if (acc > q.n) fail("count", "%s on a second container reports %u of %u elements", op_name[q.kind], acc, q.n);
        for (u32 i = acc; i < q.n; i++) {
            if (tw_state[k + i] == 2) fail("conservation", "a second container delivered %u, whose push was refused", TW0 + k + i);
            tw_state[k + i] = 0;
            if (A->fam == FAM_SPSC) tw_order.pop_back();
        }
    }
    op_end(-1, out);
}
static void twin_drain()
{
    OpOut out; out.v = out_buf(MAINT);
    OpIn q; memset(&q, 0, sizeof q); q.kind = OP_POP;
    for (u32 i = 0; i <= tw_next + 2; i++) {
        out.exc = out.ok = 0; out.n = 0; out.nv = 0; tw->exec(q, out); progress();
        if (!out.ok) break;
        if (out.nv != 1) fail("garbage", "pop of a second container delivered nothing");
        twin_delivered(out.v[0]);
    }
    for (u32 i = 0; i < tw_next; i++) if (tw_state[i] == 1) fail("conservation", "a second container of the same type lost %u", TW0 + i);
    u8 fam = A->fam; u32 got = 0;
    for (; got <= tw_cap; got++) {
        q.kind = fam == FAM_SPSC ? OP_PUSH : OP_BPUSH; q.n = 1; q.v[0] = (u16)(TW0 + got % TWMAX); out.exc = out.ok = 0; out.n = out.nv = 0;
        tw->exec(q, out); progress();
        if (!out.ok) break;
    }
    if (got != tw_cap) soft_fail("capacity", "a second container of the same type accepts %s%u elements instead of %u", got > tw_cap ? "at least " : "", got, tw_cap);
    for (u32 i = 0; i < got; i++) {
        q.kind = OP_POP; q.n = 0; out.exc = out.ok = 0; out.n = out.nv = 0; tw->exec(q, out); progress();
        int want = TW0 + (int)((fam == FAM_STACK ? got - 1 - i : i) % TWMAX);
        if (!out.ok || out.nv != 1 || out.v[0] != want) fail("conservation", "a second container of the same type: element %u of %u came back as %d instead of %d", i, got, out.ok && out.nv ? out.v[0] : -1, want);
    }
}

static void do_op(int tid, u16 opidx, OpIn const& in)
{
    if (in.kind == OP_TWIN) { do_twin(tid, opidx, in); return; }
    OpOut out; out.v = out_buf(tid);
    if (in.kind != OP_CHURN) { exec1(tid, opidx, in, out); return; }
    for (u32 i = 0; i < in.arg; i++) {
        OpIn q; memset(&q, 0, sizeof q);
        q.kind = OP_POP;
        exec1(tid, opidx, q, out);
        if (!out.ok || !out.nv) { q.v[0] = in.v[0]; }
        else { if (out.v[0] < 0 || out.v[0] > 65535) fail("garbage", "pop returned a value nobody pushed"); q.v[0] = (u16)out.v[0]; }
        bool had = out.ok;
        if (!had) { // empty: push the operation's own value and take it out again later
            q.kind = OP_PUSH; q.n = 1; exec1(tid, opidx, q, out);
            q.kind = OP_POP; q.n = 0; if (out.ok) exec1(tid, opidx, q, out);
            if (out.nv && out.v[0] != in.v[0]) { // somebody else's value came out: give it back
                q.kind = OP_PUSH; q.n = 1; q.v[0] = (u16)out.v[0]; exec1(tid, opidx, q, out);
            }
            continue;
        }
        q.kind = OP_PUSH; q.n = 1;
        exec1(tid, opidx, q, out);
    }
}
static void thread_fn(void* arg)
{
    int tid = (int)(intptr_t)arg;
    std::vector<OpIn> const& v = cur_ph->ops[tid];
    for (size_t i = 0; i < v.size(); i++) do_op(tid, next_opidx[tid]++, v[i]);
}

static u32 capacity_of() { return A->storage == ST_CAP ? A->cap : A->storage == ST_FIXED ? C->n : 0; }

static void plain_push(int v, OpOut& out, u8 kind) { OpIn q; memset(&q, 0, sizeof q); q.kind = kind; q.n = 1; q.v[0] = (u16)v; out.exc = out.ok = 0; out.n = 0; out.nv = 0; thr_ad[MAINT]->exec(q, out); progress(); }
static void plain_pop(OpOut& out) { OpIn q; memset(&q, 0, sizeof q); q.kind = OP_POP; out.exc = out.ok = 0; out.n = 0; out.nv = 0; thr_ad[MAINT]->exec(q, out); progress(); }

// what crashed operations may still hold
static u32 crashed_hold()
{
    u32 h = 0;
    for (OpRec& r : ops) {
        if (r.done) continue;
        switch (r.kind) {
        case OP_PUSHR: case OP_BPUSHR: case OP_UPUSHR: h += r.in.n; break;
        case OP_CONSATOM: case OP_CONSATOMC: case OP_CONSREV: case OP_CONSREVC: h += 100000; break;
        default: h += 1;
        }
    }
    return h;
}

// a container constructed where a destroyed one was: nothing of the first life matters any more
static void second_life(void* mem, Adapter* m, bool shm)
{
    OpOut out; out.v = out_buf(MAINT);
    if (shm) set_view(MAINT, 0);
    thr_ad[MAINT] = m;
    forget_allocs();
    u32 n2 = A->storage == ST_CAP ? C->n : C->again == 2 ? C->n + 1 : C->again == 3 && C->n > 1 ? C->n - 1 : C->n;
    if (m->construct(mem, n2)) fail("exception", "the constructor of the second container in the same place threw although nothing failed");
    u8  fam = A->fam;
    u32 cap = A->storage == ST_NODE ? total_allocs() - (fam == FAM_QUEUE ? 1 : 0) : A->storage == ST_CAP ? A->cap : n2, got = 0;
    plain_pop(out); if (out.ok) fail("conservation", "a new container in the place of a destroyed one is not empty");
    for (; got <= cap; got++) { plain_push(59000 - (int)(got & 4095), out, fam == FAM_SPSC ? (u8)OP_PUSH : (u8)OP_BPUSH); if (!out.ok) break; }
    if (got != cap) soft_fail("capacity", "a new container in the place of a destroyed one accepts %s%u elements instead of %u", got > cap ? "at least " : "", got, cap);
    u32 keep = C->nofinal ? got / 2 : 0;
    for (u32 i = 0; i + keep < got; i++) {
        plain_pop(out);
        int want = 59000 - (int)((fam == FAM_STACK ? got - 1 - i : i) & 4095);
        if (!out.ok || !out.nv || out.v[0] != want) fail("conservation", "new container in the place of a destroyed one: element %u of %u came back as %d instead of %d", i, got, out.ok && out.nv ? out.v[0] : -1, want);
    }
    if (!keep) { plain_pop(out); if (out.ok) fail("conservation", "a new container in the place of a destroyed one delivers more elements than were pushed"); }
    m->destroy();
    if (live_allocs()) soft_fail("leak", "%u allocation(s) not returned when the second container was destroyed", live_allocs());
    if (A->elem == EK_ELEM && live_elems()) soft_fail("lifetime", "%u element(s) of the second container never destroyed", live_elems());
}

static void main_fn(void*)
{
    bool shm = C->shared != 0;
    set_region_policy(C->region, 0);
    int region = shm ? 2 : (C->region >> 8) & 1;
    void* mem = mem_alloc(A->objsize, A->objalign, -9, region);
    void* vmem[4];
    for (int v = 0; v < 3; v++) vmem[v] = shm ? view_addr(mem, v) : mem;
    set_region_policy(C->region, shm);
    set_phase(0);
    tw = nullptr; tw_next = tw_out = 0; tw_state.clear(); tw_order.clear();
    if (C->twin && !shm) {
        Adapter* t = ad[4];
        void* tm = mem_alloc(A->objsize, A->objalign, -9, (C->region >> 9) & 1);
        if (t->construct(tm, A->storage == ST_CAP ? C->n : C->n + C->twin - 1)) fail("exception", "the constructor threw although nothing failed");
        tw = t;
        tw_cap = A->storage == ST_NODE ? total_allocs() - (A->fam == FAM_QUEUE ? 1 : 0) : A->storage == ST_CAP ? A->cap : C->n + C->twin - 1;
        forget_allocs();
    }
    Adapter* m = ad[3];
    if (shm) set_view(MAINT, 0);
    u64 fired0 = stats.fired[D_ALLOCF] + stats.fired[D_COPYF];
    construct_exc = m->construct(vmem[0], C->n);
    u64 fired1 = stats.fired[D_ALLOCF] + stats.fired[D_COPYF];
    if (!construct_exc && fired1 != fired0) fail("exception", "an allocation failed inside the constructor, which reported success");
    if (construct_exc) {
        // array-based freelists address at most 2^16-2 nodes: larger capacities may be refused
        bool toobig = A->storage == ST_FIXED && A->fam != FAM_SPSC && C->n > 65533;
        if (fired1 == fired0 && !toobig) fail("exception", "the constructor threw although nothing failed");
        if (live_allocs()) fail("leak", "the constructor failed with an exception and left %u allocation(s) behind", live_allocs());
        return;
    }
    built = true;
    nodes0 = total_allocs();
    for (int v = 0; v < 3; v++) ad[v]->attach(vmem[v]);
    for (int t = 0; t < NTID; t++) thr_ad[t] = m;
    OpOut out; out.v = out_buf(MAINT);
    bool mf = set_maint_faults(false);
    if (C->age) {
        u64 key = 0xcbf29ce484222325ull;
        for (char ch : C->adapter) key = (key ^ (u8)ch) * 0x100000001b3ull;
        key = (key ^ C->n) * 0x100000001b3ull; key = (key ^ C->region) * 0x100000001b3ull; key = (key ^ C->shared) * 0x100000001b3ull;
        u32 coarse = C->age & ~31u, fine = C->age & 31u;
        key ^= (u64)coarse << 32;
        if (!coarse || !snapshot_load(key)) {
            for (u32 i = 0; i < coarse; i++) { plain_push(1, out, OP_PUSH); plain_pop(out); if (!out.nv || out.v[0] != 1) fail("garbage", "sequential push/pop pair %u of the warm-up returned a wrong value", i); }
            if (coarse) snapshot_save(key);
        }
        for (u32 i = 0; i < fine; i++) { plain_push(1, out, OP_PUSH); plain_pop(out); if (!out.nv || out.v[0] != 1) fail("garbage", "sequential push/pop pair of the warm-up returned a wrong value"); }
    }
    start_identity();
    set_maint_faults(mf);
    set_phase(1);
    for (OpIn const& in : C->prefill) do_op(MAINT, 0, in);
    bool alive[MAXT]; for (bool& b : alive) b = true;
    int ph = 2;
    for (Phase const& p : C->phases) {
        set_phase(ph);
        if (p.conc) {
            cur_ph = &p;
            for (int t = 0; t < C->nthreads; t++) {
                if (!alive[t] || p.ops[t].empty()) { spawn(t, [](void*) {}, nullptr); continue; }
                if (shm) { int v = (t + (ph >> 1)) % 3; set_view(t, (u8)v); thr_ad[t] = ad[v]; }
                spawn(t, thread_fn, (void*)(intptr_t)t);
            }
            run_phase(ph);
            flush_pending();
            for (int t = 0; t < C->nthreads; t++) if (rt::crashed(t)) { alive[t] = true; any_crash = true; next_opidx[t] += 20; }
        } else {
            if (shm) { int v = (ph >> 1) % 3; set_view(MAINT, (u8)v); thr_ad[MAINT] = ad[v]; }
            for (OpIn const& in : p.ops[0]) do_op(MAINT, 0, in);
        }
        ph += 2;
    }
    flush_pending();
    set_phase(ph);
    // quiescent: faults have stopped
    if (shm) { set_view(MAINT, 2); thr_ad[MAINT] = ad[2]; }
    no_faults();
    bool trackelems = A->elem == EK_ELEM && !any_crash;
    if (!C->nofinal) {
        if (tw) twin_drain();
        u32 pushed = 0;
        for (OpRec& r : ops) if (is_push(r.kind)) pushed += r.in.n;
        OpIn q; memset(&q, 0, sizeof q); q.kind = OP_POP;
        for (u32 i = 0;; i++) {
            exec1(MAINT, 0, q, out);
            if (!out.ok) break;
            if (i > pushed + 4) fail("conservation", "the container keeps delivering elements: %u taken out, %u ever pushed", i, pushed);
        }
        if (trackelems && live_elems()) soft_fail("lifetime", "%u element(s) still alive in container storage after every element was taken out", live_elems());
        // the full capacity is available again
        u8  fam = A->fam;
        u32 hold = any_crash ? crashed_hold() : 0;
        if (fam == FAM_SPSC || A->storage != ST_NODE || (fam != FAM_SPSC && total_allocs() < 3000)) {
            u32 cap = A->storage == ST_NODE ? total_allocs() - (fam == FAM_QUEUE ? 1 : 0) : capacity_of();
            u32 got = 0;
            u8 kind = fam == FAM_SPSC ? (u8)OP_PUSH : (u8)OP_BPUSH;
            for (;; got++) {
                if (got > cap) break;
                plain_push(60000 - (int)(got & 4095), out, kind);
                if (!out.ok) break;
            }
            if (got > cap) soft_fail("capacity", "an empty container with room for %u elements accepted %u", cap, got);
            if (got + hold < cap) soft_fail("capacity", "only %u of %u elements fit into the empty container after the run%s", got, cap, hold ? " (crashed operations accounted for)" : "");
            if (fam == FAM_QUEUE || fam == FAM_STACK || fam == FAM_SPSC) {
                OpIn e; memset(&e, 0, sizeof e);
                for (u32 i = 0; i < got; i++) {
                    plain_pop(out);
                    int want = 60000 - (int)((fam == FAM_STACK ? got - 1 - i : i) & 4095);
                    if (!out.ok || !out.nv || out.v[0] != want) fail("conservation", "sequential refill of %u elements: element %u came back as %d instead of %d", got, i, out.nv ? out.v[0] : -1, want);
                }
                plain_pop(out);
                if (out.ok) fail("conservation", "sequential refill: the container delivers more elements than were pushed");
            }
        }
    }
    u32 hold = any_crash ? crashed_hold() : 0;
    if (tw && (C->region & 0x800)) { tw->destroy(); tw = nullptr; }
    thr_ad[MAINT]->destroy();
    built = false;
    if (tw) { if (!C->nofinal) { OpIn q; memset(&q, 0, sizeof q); q.arg = 0; q.kind = OP_TWIN; for (int i = 0; i < 3; i++) do_twin(MAINT, 0, q); twin_drain(); } tw->destroy(); tw = nullptr; }
    if (live_allocs() > hold) soft_fail("leak", "%u allocation(s) not returned when the container was destroyed", live_allocs());
    if (!any_crash && A->elem == EK_ELEM && live_elems()) soft_fail("lifetime", "%u element(s) never destroyed", live_elems());
    if (C->again && !any_crash) second_life(vmem[0], m, shm);
}

void run_case(Case const& c, Outcome& o, std::vector<Dec>* decs_out)
{
    static std::string last_adapter;
    C = &c;
    A = find_adapter(c.adapter);
    if (!A) { fprintf(stderr, "unknown adapter %s\n", c.adapter.c_str()); _exit(3); }
    if (!ad[0] || last_adapter != c.adapter) {
        for (Adapter*& x : ad) x = A->make();
        last_adapter = c.adapter;
    }
    RunCfg r;
    r.weak = c.weak; r.opsync = c.opsync; r.strict_plain = c.strict; r.replay = c.replay; r.maint_faults = c.maint_faults;
    r.nthreads = c.nthreads; r.max_steps = c.max_steps; r.max_gap = c.max_gap; r.seed = c.seed; r.knobs = c.knobs;
    r.decs = c.decs;
    memset(r.view, 0xff, sizeof r.view);
    built = false; construct_exc = 0; any_crash = any_exc = false; nodes0 = 0;
    memset(next_opidx, 0, sizeof next_opidx);
    u64 sw0 = stats.overlap_switches, f0 = 0; for (u64 x : stats.fired) f0 += x;
    static bool any = getenv("SIM_ANY");
    class_wanted = any || wf_measuring ? nullptr : +[](const char* cls) { return class_mask_ok(C->prop, cls) != 0; };
    begin_run(r);
    bool ok = run(main_fn, nullptr);
    flush_pending();
    o.inconclusive = false;
    if (ok && !construct_exc) {
        OracleIn in{ &c, A, any_crash, nodes0, any_exc };
        check_history(in, o);
    }
    Violation const& v = viol.set ? viol : other_viol;
    o.viol = v.set;
    memcpy(o.cls, v.cls, sizeof o.cls); memcpy(o.msg, v.msg, sizeof o.msg);
    o.hash = trace_hash; o.inter = inter_hash;
    u64 f1 = 0; for (u64 x : stats.fired) f1 += x;
    o.nontrivial = stats.overlap_switches > sw0 || f1 > f0;
    o.nops = (u32)ops.size(); o.nallocs = total_allocs();
    if (decs_out) *decs_out = c.replay ? c.decs : log_decs;
}
