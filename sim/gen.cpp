// Seeded generation of cases, swarm style: every choice of one case comes from (VERIF_SEED, property, index).
#include "case.hpp"
#include <cstring>
#include <algorithm>
using namespace rt;

struct Want { // what a property asks of its cases
    bool queue, stack, spsc;
    bool weak, crash, excs, allocf, shm, unsync, bulk, empty, capacity, aba, queries, reserve, others;
};

static std::vector<AdapterInfo*> all_adapters()
{
    static std::vector<AdapterInfo*> v;
    if (v.empty()) {
        for (AdapterInfo* a = g_adapters; a; a = a->next) v.push_back(a);
        std::sort(v.begin(), v.end(), [](AdapterInfo* x, AdapterInfo* y) { return strcmp(x->name, y->name) < 0; });
    }
    return v;
}

static Want want_of(std::string const& p)
{
    Want w; memset(&w, 0, sizeof w);
    if (p == "C01") w.queue = true;
    else if (p == "C02") w.stack = true;
    else if (p == "C03") w.stack = w.bulk = true;
    else if (p == "C04") w.spsc = true;
    else if (p == "C05") w.spsc = w.queries = true;
    else if (p == "C06") w.queue = w.stack = w.weak = true;
    else if (p == "C07") w.spsc = w.weak = true;
    else if (p == "C08") w.queue = w.stack = w.aba = true;
    else if (p == "C09") w.queue = w.stack = w.spsc = w.capacity = true;
    else if (p == "C10") w.queue = w.stack = w.crash = true;
    else if (p == "C11") w.spsc = w.crash = w.queries = true;
    else if (p == "C12") w.queue = w.stack = w.spsc = w.reserve = true;
    else if (p == "C13") w.queue = w.stack = w.spsc = w.allocf = w.reserve = true;
    else if (p == "C14") w.stack = w.spsc = true;
    else if (p == "C15") w.queue = w.stack = w.unsync = w.reserve = true;
    else if (p == "C16") w.queue = w.stack = w.spsc = w.shm = w.crash = true;
    else if (p == "C17") w.queue = w.stack = w.spsc = w.empty = true;
    else if (p == "C18") w.stack = w.spsc = w.excs = w.queue = true;
    else if (p == "C19") w.queue = w.stack = w.spsc = w.others = true;
    return w;
}

static OpIn mkop(u8 kind, int n = 0, u16 arg = 0) { OpIn o; memset(&o, 0, sizeof o); o.kind = kind; o.n = (u32)n; o.arg = arg; return o; }

struct Gen {
    Rng r; Case& c; AdapterInfo* a; Want w; std::string prop;
    int nextv = 1;
    bool deep = false; // thorough tier: some larger programs
    Gen(u64 s, Case& cc) : r(s), c(cc), a(nullptr) {}

    bool has(u8 k) const { return a->ops & (1ull << k); }
    OpIn push1(u8 kind) { OpIn o = mkop(kind, 1); o.v[0] = (u16)nextv++; return o; }
    OpIn pushn(u8 kind, int n)
    {
        OpIn o = mkop(kind, n);
        for (int i = 0; i < n || i < 1; i++) if (i < MAXV) o.v[i] = (u16)(nextv + i);
        nextv += n; if (nextv > 45000) nextv = 1;
        return o;
    }
    int cap() const { return a->storage == ST_CAP ? (int)a->cap : (int)c.n; }

    OpIn mp_push()
    {
        bool bounded = a->storage != ST_NODE ? r.p(0.5) : r.p(w.capacity ? 0.7 : 0.35);
        if (a->fam == FAM_STACK && r.p(w.bulk ? 0.65 : 0.15)) {
            int n = r.p(0.06) ? 0 : (int)r.in(1, r.p(0.15) ? 6 : 3);
            return pushn(bounded ? OP_BPUSHR : OP_PUSHR, n);
        }
        return push1(bounded ? OP_BPUSH : OP_PUSH);
    }
    OpIn mp_pop()
    {
        double x = (r.next() >> 11) * (1.0 / 9007199254740992.0);
        if (a->fam == FAM_STACK && x < (w.bulk ? 0.6 : 0.2)) {
            static const u8 k[4] = { OP_CONSATOM, OP_CONSATOMC, OP_CONSREV, OP_CONSREVC };
            return mkop(k[r.below(4)]);
        }
        x = r.below(100);
        if (x < 45) return mkop(OP_POP);
        if (x < 60) return mkop(OP_POPCONV, 0, (u16)r.below(2));
        if (x < 72) return mkop(OP_CONS1);
        if (x < 82) return mkop(OP_CONS1C);
        if (x < 91) return mkop(OP_CONSALL);
        return mkop(OP_CONSALLC);
    }
    OpIn mp_op(int role) // 0 mixed, 1 producer, 2 consumer
    {
        if (w.empty && r.p(0.3)) return mkop(OP_EMPTY);
        if (w.reserve && has(OP_RESERVE) && r.p(0.12)) return mkop(OP_RESERVE, 0, (u16)r.in(0, 3));
        double pp = role == 1 ? 0.9 : role == 2 ? 0.1 : 0.5;
        return r.p(pp) ? mp_push() : mp_pop();
    }

    void strategy(int total_ops, int steps_per_op)
    {
        Knobs& k = c.knobs;
        k.strat = 0; k.p_switch = k.p_sync = 0; k.pct_depth = 0; k.pct_len = 0;
        k.p_spur = k.p_stale = k.p_alloc = k.p_copy = k.p_func = 0; k.alloc_skip = 0; k.faults.clear();
        u32 s = r.below(100);
        k.victim = 0xff;
        if (s >= 88) {
            static const float po[] = { 0.f, 0.05f, 0.2f, 0.5f };
            static const u32 md[] = { 2, 4, 6, 8, 12, 16 };
            k.strat = 4; k.p_switch = po[r.below(4)]; k.p_sync = r.p(0.5) ? 1.f : r.p(0.5) ? 0.8f : 0.5f; k.pct_len = md[r.below(6)];
            if (r.p(0.5)) { stall(); if (!k.faults.empty() && r.p(0.6)) { Fault& f = k.faults.back(); f.op = 0xffff; f.at_cas = 1; f.step = r.in(1, 4); } }
        } else if (s >= 70) {
            static const float pa[] = { 0.1f, 0.3f, 0.6f, 0.95f };
            k.strat = 3; k.p_sync = pa[r.below(4)]; k.p_switch = r.p(0.5) ? 0.f : k.p_sync * 0.3f;
            k.pct_depth = (u8)(r.p(0.6) ? 1 : r.in(2, 5)); k.victim = r.p(0.3) ? 0xff : (u8)r.below(c.nthreads);
            if (r.p(0.3)) stall();
        } else if (s < 25) {
            static const float ps[] = { 0.02f, 0.06f, 0.15f, 0.3f, 0.5f };
            k.strat = 0; k.p_switch = ps[r.below(5)]; k.p_sync = r.p(0.5) ? 0.4f : 0.f;
        } else if (s < 50) {
            k.strat = 1; k.pct_depth = (u8)r.in(1, 5); k.pct_len = (u32)(total_ops * steps_per_op) + 10;
        } else {
            k.strat = 2; k.p_switch = r.p(0.5) ? 0.f : 0.01f; k.p_sync = r.p(0.4) ? 0.1f : 0.f;
            int nf = (int)r.in(1, 3);
            for (int i = 0; i < nf; i++) stall();
        }
        if (k.strat < 2 && r.p(0.25)) stall();
        if (r.p(0.3)) { static const float sp[] = { 0.03f, 0.1f, 0.3f }; k.p_spur = sp[r.below(3)]; }
    }
    u32 nops_of(int t) { u32 n = 0; for (Phase const& p : c.phases) if (p.conc) n += (u32)p.ops[t].size(); return n; }
    void stall(u32 maxarg = 6)
    {
        Fault f; f.kind = D_STALL; f.tid = (u8)r.below(c.nthreads);
        u32 n = nops_of(f.tid); if (!n) return;
        f.op = (u16)r.below(n); f.at_cas = r.p(0.4);
        f.step = f.at_cas ? r.in(1, 4) : r.in(1, r.p(0.7) ? 14 : 60);
        f.arg = r.p(0.3) ? 1000000 : r.in(1, maxarg);
        c.knobs.faults.push_back(f);
    }
    void crash_at(int tid)
    {
        Fault f; f.kind = D_CRASH; f.tid = (u8)tid;
        u32 n = nops_of(tid); if (!n) return;
        f.op = (u16)r.below(n); f.at_cas = r.p(0.4); f.step = f.at_cas ? r.in(1, 4) : r.in(1, r.p(0.7) ? 16 : 60); f.arg = 0;
        c.knobs.faults.push_back(f);
    }

    void pick_adapter()
    {
        std::vector<AdapterInfo*> v;
        bool any = prop != "C18" || r.p(0.25);
        for (AdapterInfo* x : all_adapters()) {
            bool fam = (x->fam == FAM_QUEUE && w.queue) || (x->fam == FAM_STACK && w.stack) || (x->fam == FAM_SPSC && w.spsc);
            bool isweak = strstr(x->name, "_weak") != nullptr, isoff = strstr(x->name, "_offset") != nullptr;
            if (!fam || isweak != w.weak) continue;
            if (w.shm ? !x->relocatable : isoff) continue;
            if (w.reserve && !w.unsync && prop == "C13" && x->storage == ST_CAP) continue;
            // a thread that dies between delivering an element and destroying it leaves it half consumed: not promised otherwise
            if (w.crash && x->fam == FAM_SPSC && x->elem == EK_ELEM) continue;
            if (prop == "C14" && x->elem != EK_ELEM) continue;
            if (prop == "C18" && x->elem != EK_ELEM && x->elem != EK_PT && x->fam != FAM_QUEUE && !any) continue; // others: only functors, conversions, iterators throw
            v.push_back(x);
        }
        if (w.queue + w.stack + w.spsc > 1) { // equal shares for the families first
            u8 fams[3]; int nf = 0;
            for (u8 f = 0; f < 3; f++) for (AdapterInfo* x : v) if (x->fam == f) { fams[nf++] = f; break; }
            u8 f = fams[r.below(nf)];
            std::vector<AdapterInfo*> u; for (AdapterInfo* x : v) if (x->fam == f) u.push_back(x);
            v.swap(u);
        }
        a = v[r.below((u32)v.size())];
        c.adapter = a->name;
    }
    void sizes()
    {
        if (a->storage == ST_CAP) { c.n = r.p(0.2); return; } // selects the constructor
        if (a->storage == ST_NODE) {
            static const u32 ns[] = { 0, 0, 1, 1, 2, 3, 4 };
            c.n = ns[r.below(7)];
            if (w.capacity) c.n = r.in(1, 4);
        } else {
            static const u32 ns[] = { 1, 1, 2, 2, 3, 4, 5 };
            c.n = ns[r.below(7)];
            if (r.p(0.02)) c.n = 0;
        }
        if (r.p(w.capacity ? 0.03 : 0.005)) { static const u32 big[] = { 63, 64, 65, 255, 256, 257, 1000 }; c.n = big[r.below(7)]; }
        // widths of the node index: rare, a run takes tens of milliseconds
        if (a->storage == ST_FIXED && a->elem != EK_ELEM && r.p(w.capacity ? 0.0004 : prop == "C15" ? 0.0001 : 0)) {
            static const u32 huge[] = { 4095, 4096, 32766, 32767, 32768, 65532, 65533, 65534, 65535, 65536, 70000 }; c.n = huge[r.below(11)];
        }
    }

    void mpmc()
    {
        sizes();
        c.nthreads = (u8)(r.p(0.45) ? 2 : r.p(0.7) ? 3 : 4);
        bool more = deep && r.p(0.3);
        if (more && r.p(0.4)) c.nthreads = (u8)r.in(4, MAXT);
        int capn = a->storage == ST_NODE ? (int)c.n : cap();
        int pre = (int)r.below((u32)std::min(capn, 4) + 1);
        if (r.p(0.15)) pre = std::min(capn, 12);
        if (a->storage == ST_NODE && r.p(0.3)) pre = (int)r.in(0, 4);
        if (w.capacity && r.p(0.3) && capn <= 300) pre = capn;
        for (int i = 0; i < pre; i++) c.prefill.push_back(push1(r.p(0.3) ? OP_UPUSH : OP_PUSH));
        int nph = r.p(0.8) && !w.unsync && !w.shm ? 1 : (int)r.in(1, 3);
        int total = 0;
        for (int ph = 0; ph < nph; ph++) {
            if (ph || (w.unsync && r.p(0.5))) {
                Phase s; s.conc = 0;
                int n = (int)r.in(0, 5);
                for (int i = 0; i < n; i++) {
                    u32 x = r.below(100);
                    if (x < 30) s.ops[0].push_back(push1(OP_UPUSH));
                    else if (x < 55) s.ops[0].push_back(mkop(r.p(0.5) ? OP_UPOP : OP_UPOPCONV, 0, (u16)r.below(2)));
                    else if (x < 65 && a->fam == FAM_STACK) s.ops[0].push_back(pushn(OP_UPUSHR, (int)r.in(r.p(0.1) ? 0 : 1, 4)));
                    else if (x < 75 && has(OP_RESERVEU)) s.ops[0].push_back(mkop(r.p(0.5) ? OP_RESERVEU : OP_RESERVE, 0, (u16)r.in(0, 3)));
                    else if (x < 82) s.ops[0].push_back(mkop(OP_EMPTY));
                    else s.ops[0].push_back(mp_op(0));
                }
                c.phases.push_back(s);
            }
            Phase p; p.conc = 1;
            u32 maxops = c.nthreads == 2 ? 6 : c.nthreads == 3 ? 4 : 3;
            if (r.p(0.1)) maxops += 4;
            if (more) maxops += 3;
            for (int t = 0; t < c.nthreads; t++) {
                int role = (int)r.below(3), n = (int)r.in(1, maxops);
                for (int i = 0; i < n; i++) p.ops[t].push_back(mp_op(role));
                total += n;
            }
            c.phases.push_back(p);
        }
        if (w.unsync && r.p(0.6)) {
            Phase s; s.conc = 0; int n = (int)r.in(1, 4);
            for (int i = 0; i < n; i++) s.ops[0].push_back(r.p(0.5) ? mkop(OP_UPOP) : r.p(0.3) && a->fam == FAM_STACK ? pushn(OP_UPUSHR, (int)r.in(1, 3)) : push1(OP_UPUSH));
            c.phases.push_back(s);
        }
        strategy(total, 25);
    }

    // a victim is stalled inside one operation while another thread performs (nearly) a power of two of updates, so that
    // a version counter narrower than documented comes back to the value the victim has seen
    void wrap()
    {
        sizes();
        if (c.n > 4) c.n = 2;
        int capn = a->storage == ST_NODE ? (int)c.n : cap();
        c.nthreads = 2;
        int pre = (int)r.below((u32)std::min(capn ? capn : 2, 3) + 1);
        for (int i = 0; i < pre; i++) c.prefill.push_back(push1(OP_PUSH));
        Phase p; p.conc = 1;
        p.ops[0].push_back(r.p(0.65) ? mp_pop() : mp_push());
        if (r.p(0.1)) p.ops[0].push_back(mp_op(0));
        static const u8 ex[] = { 4, 4, 5, 6, 7, 8, 8, 8, 8, 8, 8, 8, 8, 9, 10, 10, 10, 11, 12, 12 };
        u32 N = 1u << (r.p(0.09) ? r.in(13, 15) : ex[r.below(20)]);
        int pops = 0;
        auto few = [&](int n) {
            for (; n > 0; n--) {
                if (r.p(0.1)) p.ops[1].push_back(mp_op(0));
                else if (r.p(0.55)) { p.ops[1].push_back(mkop(OP_POP)); pops++; }
                else p.ops[1].push_back(push1(a->storage == ST_NODE || r.p(0.5) ? OP_BPUSH : OP_PUSH));
            }
        };
        few((int)r.in(0, 3));
        size_t at = p.ops[1].size();
        OpIn o = mkop(OP_CHURN, 1); o.v[0] = (u16)nextv++;
        p.ops[1].push_back(o);
        few((int)r.in(0, 3));
        int d = r.p(0.6) ? pops : (int)r.below(6) - 1;
        p.ops[1][at].arg = (u16)(d >= (int)N ? 1 : (int)N - d);
        c.phases.push_back(p);
        strategy(4, 30);
        c.max_steps = 8000000; c.max_gap = 100000;
        Knobs& k = c.knobs; k.strat = 2; k.p_switch = k.p_sync = k.p_spur = 0; k.faults.clear();
        Fault f; f.kind = D_STALL; f.tid = 0; f.op = (u16)(p.ops[0].size() - 1); f.at_cas = r.p(0.7); f.step = f.at_cas ? (r.p(0.6) ? 1 : r.in(2, 3)) : r.in(1, 14); f.arg = 1000000;
        k.faults.push_back(f);
    }
    // relay: one thread is stopped for long in front of a compare-exchange it reaches in some operation, a second one is overtaken by complete
    // operations of a third one at (almost) every access, so that its every update is finished or helped along by somebody else
    void relay()
    {
        sizes();
        if (c.n > 4) c.n = 1;
        int capn = a->storage == ST_NODE ? (int)c.n : cap();
        c.nthreads = 3;
        int pre = r.p(0.5) ? 0 : (int)r.below((u32)std::min(capn ? capn : 2, 3) + 1);
        for (int i = 0; i < pre; i++) c.prefill.push_back(push1(OP_PUSH));
        Phase p; p.conc = 1;
        bool hot = r.p(0.5); // instead: the two others take turns at a few places of the code
        int nx = (int)r.in(1, 4), np = (int)r.in(1, hot ? 6 : 4), ny = (int)r.in(hot ? 1 : 4, hot ? 6 : 24);
        int rx = (int)r.below(3), rp = (int)r.below(3), ry = rp == 0 ? 0 : 3 - rp;
        if (hot) ry = rp = 0;
        else if (r.p(0.3)) ry = (int)r.below(3);
        auto single = [&](int role) { return r.p(role == 1 ? 0.95 : role == 2 ? 0.05 : 0.5) ? push1(a->storage == ST_NODE && r.p(0.5) ? OP_BPUSH : OP_PUSH) : r.p(0.7) ? mkop(OP_POP) : mp_pop(); };
        for (int i = 0; i < nx; i++) p.ops[0].push_back(single(rx));
        for (int i = 0; i < np; i++) p.ops[1].push_back(single(rp));
        for (int i = 0; i < ny; i++) p.ops[2].push_back(single(ry));
        c.phases.push_back(p);
        strategy(nx + np + ny, 30);
        Knobs& k = c.knobs;
        k.strat = 3; k.victim = 1; k.p_sync = r.p(0.6) ? 0.95f : 0.5f; k.p_switch = 0; k.pct_depth = (u8)(r.p(0.7) ? 1 : r.in(2, 4)); k.p_spur = 0; k.faults.clear();
        if (hot) { static const u32 md[] = { 4, 6, 8, 12, 16, 24 }; k.strat = 4; k.p_sync = r.p(0.7) ? 1.f : 0.8f; k.p_switch = r.p(0.5) ? 0.f : 0.1f; k.pct_len = md[r.below(6)]; }
        Fault f; f.kind = D_STALL; f.tid = 0; f.op = 0xffff; f.at_cas = 1; f.step = r.p(0.6) ? 1 : r.in(2, 3); f.arg = r.p(0.5) ? 1000000 : r.in(2, 20);
        k.faults.push_back(f);
        c.max_steps = 4000000; c.max_gap = 100000;
    }
    void aba()
    {
        if (w.aba && r.p(0.08)) { wrap(); return; }
        if (r.p(0.35)) { relay(); return; }
        // one or two victims are stalled inside an operation while the others recycle the same nodes again and again
        sizes();
        if (c.n > 4) c.n = 1;
        int capn = a->storage == ST_NODE ? (int)c.n : cap();
        c.nthreads = (u8)r.in(2, 3);
        int pre = (int)r.below((u32)std::min(capn ? capn : 2, 3) + 1);
        for (int i = 0; i < pre; i++) c.prefill.push_back(push1(OP_PUSH));
        Phase p; p.conc = 1;
        int nv = c.nthreads == 3 && r.p(0.5) ? 2 : 1;
        bool longrun = r.p(deep ? 0.01 : 0.003); int churned = 0; // fewer than 2^16 updates of any word in one run
        int total = 0;
        for (int t = 0; t < c.nthreads; t++) {
            if (t < nv) {
                int n = (int)r.in(1, 3);
                for (int i = 0; i < n; i++) p.ops[t].push_back(mp_op(0));
                total += n;
            } else {
                int n = (int)r.in(1, 5);
                for (int i = 0; i < n; i++) {
                    if (r.p(0.45)) {
                        OpIn o = mkop(OP_CHURN, 1); o.v[0] = (u16)nextv++;
                        static const u16 ns[] = { 1, 1, 2, 2, 3, 4, 5, 8, 16 };
                        static const u16 nl[] = { 127, 128, 255, 256, 257, 511, 512, 768, 1024, 2048 };
                        static const u16 nx[] = { 4095, 4096, 4097, 8191, 8192, 16384 };
                        o.arg = ns[r.below(9)];
                        if (longrun || r.p(0.01)) o.arg = nl[r.below(10)];
                        if (longrun && r.p(0.2)) o.arg = nx[r.below(6)];
                        if (o.arg > 4 && r.p(0.3)) o.arg = (u16)(o.arg - 1 + r.below(3));
                        if (churned + o.arg > 28000) o.arg = 1;
                        churned += o.arg;
                        p.ops[t].push_back(o);
                    } else p.ops[t].push_back(mp_op(0));
                    total++;
                }
            }
        }
        c.phases.push_back(p);
        strategy(total, 30);
        c.max_steps = 4000000; c.max_gap = 100000;
        if (longrun) { c.knobs.p_switch = std::min(c.knobs.p_switch, 0.0005f); c.knobs.p_sync = 0; c.knobs.p_spur = 0; }
        for (int t = 0; t < nv; t++) {
            int k = (int)r.in(1, 2);
            for (int i = 0; i < k; i++) {
                Fault f; f.kind = D_STALL; f.tid = (u8)t; f.op = (u16)r.below((u32)p.ops[t].size());
                f.at_cas = r.p(0.6); f.step = f.at_cas ? r.in(1, 3) : r.in(1, 14);
                f.arg = r.p(0.6) ? 1000000 : r.in(1, 40);
                c.knobs.faults.push_back(f);
            }
        }
        if (r.p(0.04)) { // tags about to wrap around
            c.age = 65536 - 32 + r.below(32);
            if (a->storage != ST_CAP) c.n = r.in(1, 2);
            c.region = 1;
        } else if (r.p(0.1)) c.age = r.in(1, 31);
        if (a->storage == ST_FIXED && !c.n) c.age = 0;
    }

    // one operation is overtaken again and again: another thread completes an operation (almost) whenever it touches shared data
    void contended()
    {
        sizes();
        if (a->storage == ST_FIXED) c.n = r.in(3, 8);
        if (c.n > 8) c.n = 4;
        int capn = a->storage == ST_NODE ? (int)c.n : cap();
        c.nthreads = (u8)(r.p(0.8) ? 2 : 3);
        int pre = (int)r.below((u32)std::min(capn ? capn : 2, 3) + 1);
        for (int i = 0; i < pre; i++) c.prefill.push_back(push1(OP_PUSH));
        Phase p; p.conc = 1;
        int n = (int)r.in(1, 2);
        for (int i = 0; i < n; i++) p.ops[0].push_back(mp_op(0));
        for (int t = 1; t < c.nthreads; t++) {
            if (r.p(0.3)) p.ops[t].push_back(mp_op(0));
            OpIn o = mkop(OP_CHURN, 1, (u16)(r.p(0.7) ? r.in(4, 60) : r.in(60, 400))); o.v[0] = (u16)nextv++;
            p.ops[t].push_back(o);
            if (r.p(0.3)) p.ops[t].push_back(mp_op(0));
        }
        c.phases.push_back(p);
        strategy(n + 20, 30);
        Knobs& k = c.knobs;
        k.strat = 3; k.victim = 0; k.p_sync = r.p(0.7) ? 0.97f : 0.6f; k.p_switch = r.p(0.6) ? 0.f : 0.3f; k.pct_depth = (u8)(r.p(0.8) ? 1 : r.in(1, 3));
        if (r.p(0.7)) k.p_spur = 0;
        if (r.p(0.8)) k.faults.clear();
        c.max_steps = 4000000; c.max_gap = 100000;
    }
    OpIn sp_push()
    {
        u32 x = r.below(100);
        if (w.empty && x < 35) return mkop(OP_EMPTY);
        if (w.queries && x < (prop == "C11" ? 12 : 35)) return mkop(OP_WAVAIL);
        x = r.below(100);
        if (x < 50) return push1(OP_PUSH);
        int n = r.p(0.05) ? 0 : (int)r.in(1, r.p(0.2) ? 9 : 4);
        if (x < 70) return pushn(OP_PUSHARR, n);
        if (x < 82) { static const int s[] = { 1, 2, 3, 5 }; return pushn(OP_PUSHARRREF, s[r.below(4)]); }
        return pushn(OP_PUSHIT, n);
    }
    OpIn sp_pop()
    {
        u32 x = r.below(100);
        if (w.empty && x < 35) return mkop(OP_EMPTY);
        if (w.queries && x < (prop == "C11" ? 12 : 45)) { u32 y = r.below(3); return y == 0 ? mkop(OP_RAVAIL) : y == 1 ? mkop(OP_FRONT, 0, (u16)r.below(2)) : mkop(OP_PEEKPOP, 0, (u16)r.below(2)); }
        if (w.queries && x < (prop == "C11" ? 15 : 50)) return mkop(OP_EMPTY);
        x = r.below(100);
        if (x < 25) return mkop(OP_POP);
        if (x < 31) return mkop(OP_POPCONV);
        if (x < 35) return mkop(OP_POPVOID);
        if (x < 47) return mkop(OP_POPARR, (int)r.in(r.p(0.1) ? 0 : 1, r.p(0.2) ? 9 : 4));
        if (x < 54) { static const int s[] = { 1, 2, 3, 5 }; return mkop(OP_POPARRREF, s[r.below(4)]); }
        if (x < 66) return mkop(OP_POPIT);
        if (x < 73) return mkop(OP_CONS1);
        if (x < 80) return mkop(OP_CONS1C);
        if (x < 86) return mkop(OP_CONSALL);
        if (x < 92) return mkop(OP_CONSALLC);
        return mkop(OP_PEEKPOP, 0, (u16)r.below(2));
    }
    // one side executes few operations, each held at every step while the other side completes many
    void longpeer()
    {
        c.prefill.clear(); nextv = 1;
        c.n = r.in(12, 40);
        int cp = std::min(cap(), 40);
        int rot = (int)r.below((u32)cp + 1);
        for (int i = 0; i < rot; i++) { c.prefill.push_back(push1(OP_PUSH)); c.prefill.push_back(mkop(OP_POP)); }
        int v = (int)r.below(2), fill = (int)r.below((u32)cp + 1);
        if (r.p(0.6)) fill = v == 0 ? cp - (int)r.below(3) : (int)r.below(2);
        while (fill > 0) { int n = (int)std::min<u32>((u32)fill, r.in(1, 8)); c.prefill.push_back(pushn(OP_PUSHARR, n)); fill -= n; }
        Phase p; p.conc = 1;
        int nv = (int)r.in(1, 3), no = (int)r.in(5, 40);
        for (int i = 0; i < (v == 0 ? nv : no); i++) p.ops[0].push_back(v == 1 && r.p(0.8) ? push1(OP_PUSH) : sp_push());
        for (int i = 0; i < (v == 1 ? nv : no); i++) p.ops[1].push_back(v == 0 && r.p(0.8) ? mkop(r.p(0.5) ? OP_POP : OP_CONS1) : sp_pop());
        c.phases.push_back(p);
        strategy(nv + no, 12);
        Knobs& k = c.knobs;
        k.strat = 3; k.p_sync = r.p(0.5) ? 0.95f : 0.5f; k.p_switch = r.p(0.5) ? 0.f : 0.5f; k.pct_depth = (u8)(r.p(0.7) ? 1 : r.in(1, 4)); k.victim = (u8)v;
    }
    void spsc()
    {
        sizes();
        if (a->storage != ST_CAP && !c.n) c.n = 1;
        c.nthreads = 2;
        // move the indices away from zero, so that wrap-around happens at every position
        int rot = (int)r.below((u32)std::min(cap(), 8) + 2);
        for (int i = 0; i < rot; i++) { c.prefill.push_back(push1(OP_PUSH)); c.prefill.push_back(mkop(OP_POP)); }
        int pre = (int)r.below((u32)std::min(cap(), 5) + 1);
        if (w.capacity && r.p(0.3)) pre = std::min(cap(), 300);
        while (pre > 0) {
            int n = (int)std::min<u32>((u32)pre, r.in(1, 20));
            if (r.p(0.5)) { c.prefill.push_back(pushn(OP_PUSHARR, n)); pre -= n; } else { c.prefill.push_back(push1(OP_PUSH)); pre--; }
        }
        if (prop == "C11" && r.p(0.15)) { longpeer(); return; }
        int nph = r.p(0.8) && !w.shm ? 1 : 2;
        int total = 0;
        for (int ph = 0; ph < nph; ph++) {
            if (ph && r.p(0.5)) { Phase s; s.conc = 0; if (r.p(0.5)) s.ops[0].push_back(mkop(OP_RESET)); else s.ops[0].push_back(mkop(OP_EMPTY)); c.phases.push_back(s); }
            Phase p; p.conc = 1;
            int big = deep && r.p(0.2) ? 40 : 14, np = (int)r.in(1, r.p(0.2) ? big : 7), nc = (int)r.in(1, r.p(0.2) ? big : 7);
            for (int i = 0; i < np; i++) p.ops[0].push_back(sp_push());
            for (int i = 0; i < nc; i++) p.ops[1].push_back(sp_pop());
            total += np + nc;
            c.phases.push_back(p);
        }
        strategy(total, 12);
    }

    // batches, contents and capacities far larger than usual: widths of counters, chunking, copies in pieces
    int wide_n()
    {
        static const int k[] = { 10, 24, 25, 31, 32, 33, 48, 63, 64, 65, 70, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500 };
        if (r.p(0.3)) { int n = std::min(cap(), 600) + (int)r.below(5) - 2; return n < 1 ? 1 : n; }
        return r.p(0.3) ? (int)r.in(1, 300) : k[r.below(21)];
    }
    bool may_wide() const { return !w.weak && !w.crash && !w.shm; }
    void wide_spsc()
    {
        static const u32 ns[] = { 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 600 };
        c.n = a->storage == ST_CAP ? (u32)r.p(0.2) : ns[r.below(19)];
        bool huge = a->storage == ST_FIXED && a->elem != EK_ELEM && !w.excs && r.p(0.03);
        static const u32 hs[] = { 4095, 4096, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 70000 };
        if (huge) c.n = hs[r.below(10)];
        c.nthreads = 2;
        auto amount = [&]() { return huge && r.p(0.6) ? (r.p(0.6) ? (int)c.n - (int)r.below(3) + 1 : (int)r.in(1, c.n)) : wide_n(); };
        auto wpush = [&]() { u32 x = r.below(10); return x < 4 ? pushn(OP_PUSHARR, amount()) : x < 8 ? pushn(OP_PUSHIT, amount()) : x < 9 ? pushn(OP_PUSHARRREF, 70) : sp_push(); };
        auto wpop = [&]() {
            u32 x = r.below(20);
            if (x < 7) return mkop(OP_POPARR, amount());
            if (x < 11) return mkop(OP_POPIT);
            if (x < 13) return mkop(OP_POPARRREF, 70);
            if (x < 16) return mkop(r.p(0.5) ? OP_CONSALL : OP_CONSALLC);
            return sp_pop();
        };
        int rot = (int)r.below(3);
        for (int i = 0; i < rot; i++) {
            int n = std::max(1, (int)r.below((u32)cap() + 1));
            c.prefill.push_back(pushn(OP_PUSHARR, n)); c.prefill.push_back(mkop(r.p(0.5) ? OP_CONSALL : OP_POPIT));
        }
        if (r.p(0.5)) c.prefill.push_back(pushn(OP_PUSHARR, r.p(0.4) ? cap() : amount()));
        int nph = r.p(0.8) ? 1 : 2, total = 0, per = huge ? 2 : 4;
        for (int ph = 0; ph < nph; ph++) {
            if (ph && r.p(0.5)) { Phase s; s.conc = 0; s.ops[0].push_back(mkop(r.p(0.6) ? OP_RESET : OP_EMPTY)); c.phases.push_back(s); }
            Phase p; p.conc = 1;
            int np = (int)r.in(1, per), nc = (int)r.in(1, per);
            for (int i = 0; i < np; i++) p.ops[0].push_back(wpush());
            for (int i = 0; i < nc; i++) p.ops[1].push_back(wpop());
            total += np + nc;
            c.phases.push_back(p);
        }
        strategy(total, 400);
        // with this many steps the usual switching rates would only ever slice evenly: make switches rarer, at any place
        Knobs& k = c.knobs;
        if (r.p(0.5)) { k.p_switch *= 0.05f; k.p_sync *= 0.1f; }
        for (Fault& f : k.faults) if (f.kind == D_STALL && r.p(0.5)) f.step = r.in(1, huge ? 40000 : 900);
        c.max_steps = 20000000; c.max_gap = 8000000;
    }
    void wide_mpmc()
    {
        static const u32 ns[] = { 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300 };
        c.n = a->storage == ST_CAP ? (u32)r.p(0.2) : a->storage == ST_NODE && r.p(0.3) ? r.below(4) : ns[r.below(15)];
        c.nthreads = (u8)(r.p(0.7) ? 2 : 3);
        int lim = a->storage == ST_NODE ? 300 : std::min(cap(), 300);
        bool st = a->fam == FAM_STACK;
        auto wn = [&]() { int n = wide_n(); return n > 300 ? 300 : n; };
        int pre = r.p(0.4) ? lim : (int)r.below((u32)lim + 1);
        if (st && r.p(0.6)) { if (pre) c.prefill.push_back(pushn(r.p(0.3) ? OP_UPUSHR : OP_PUSHR, pre)); }
        else for (int i = 0; i < pre; i++) c.prefill.push_back(push1(i % 3 ? OP_PUSH : OP_UPUSH));
        int nph = r.p(0.7) && !w.unsync ? 1 : 2, total = 0;
        for (int ph = 0; ph < nph; ph++) {
            if (ph || (w.unsync && r.p(0.5))) {
                Phase s; s.conc = 0;
                int n = (int)r.in(1, 4);
                for (int i = 0; i < n; i++) {
                    u32 x = r.below(100);
                    if (x < 30 && st) s.ops[0].push_back(pushn(OP_UPUSHR, wn()));
                    else if (x < 40) s.ops[0].push_back(push1(OP_UPUSH));
                    else if (x < 55) s.ops[0].push_back(mkop(r.p(0.5) ? OP_UPOP : OP_UPOPCONV, 0, (u16)r.below(2)));
                    else if (x < 70 && has(OP_RESERVEU)) s.ops[0].push_back(mkop(r.p(0.5) ? OP_RESERVEU : OP_RESERVE, 0, (u16)r.in(0, 300)));
                    else s.ops[0].push_back(mp_op(0));
                }
                c.phases.push_back(s);
            }
            Phase p; p.conc = 1;
            for (int t = 0; t < c.nthreads; t++) {
                int n = (int)r.in(1, c.nthreads == 2 ? 3 : 2);
                for (int i = 0; i < n; i++) {
                    if (st && r.p(0.35)) p.ops[t].push_back(pushn(r.p(0.5) ? OP_PUSHR : OP_BPUSHR, wn()));
                    else if (has(OP_RESERVE) && r.p(0.06)) p.ops[t].push_back(mkop(OP_RESERVE, 0, (u16)r.in(0, 300)));
                    else p.ops[t].push_back(mp_op(0));
                }
                total += n;
            }
            c.phases.push_back(p);
        }
        strategy(total, 400);
        Knobs& k = c.knobs;
        if (r.p(0.6)) { k.p_switch *= 0.05f; k.p_sync *= 0.1f; }
        for (Fault& f : k.faults) if (f.kind == D_STALL && r.p(0.5)) f.step = r.in(1, 2000);
        c.max_steps = 20000000; c.max_gap = 2000000;
    }
};

bool gen_case(std::string const& prop, u64 seed, u64 index, bool thorough, Case& c)
{
    u64 h = 0xcbf29ce484222325ull;
    for (char ch : prop) h = (h ^ (u8)ch) * 0x100000001b3ull;
    Gen g(h ^ (seed * 0x9E3779B97F4A7C15ull) ^ (index * 0xD1B54A32D192ED03ull + 0x1234), c);
    c.prop = prop; c.index = index;
    g.prop = prop; g.w = want_of(prop); g.deep = thorough;
    Rng& r = g.r;
    c.seed = r.next();
    c.region = (u32)(r.next() & 0xffff) | 1;
    g.pick_adapter();
    Want& w = g.w;
    double pw = !g.may_wide() ? 0 : g.a->fam == FAM_SPSC ? (w.queries ? 0.02 : 0.04) : prop == "C03" || w.capacity ? 0.02 : 0.008;
    if (r.p(pw)) { if (g.a->fam == FAM_SPSC) g.wide_spsc(); else g.wide_mpmc(); }
    else if (g.a->fam == FAM_SPSC) g.spsc();
    else if (!w.weak && !w.shm && !w.excs && !w.allocf && !w.unsync && r.p(w.aba || w.capacity || w.crash ? 0.012 : 0.006)) g.contended();
    else if (w.aba || (r.p(0.05) && !w.weak && !w.shm)) g.aba();
    else g.mpmc();
    Knobs& k = c.knobs;
    if (w.weak) {
        c.weak = 1; c.age = 0; c.opsync = r.p(0.3);
        c.strict = g.a->fam == FAM_SPSC;
        static const float st[] = { 0.0f, 0.05f, 0.2f, 0.5f };
        k.p_stale = st[r.below(4)];
        if (prop == "C07" && r.p(0.06)) k.p_func = r.p(0.5) ? 0.1f : 0.3f; // slots are released on the way out of a throwing functor, too
    }
    if (w.crash && r.p(0.75)) {
        int n = (int)r.in(1, prop == "C10" ? c.nthreads - (r.p(0.8) ? 1 : 0) : 1);
        std::vector<int> t; for (int i = 0; i < c.nthreads; i++) t.push_back(i);
        for (int i = 0; i < n && !t.empty(); i++) { u32 j = r.below((u32)t.size()); g.crash_at(t[j]); t.erase(t.begin() + j); }
    }
    if (w.shm) c.shared = 1;
    if (w.allocf) { static const float pf[] = { 0.05f, 0.2f, 0.5f }; k.p_alloc = pf[r.below(3)]; c.maint_faults = 1; }
    if (w.excs) {
        u32 x = r.below(4); static const float pf[] = { 0.03f, 0.1f, 0.3f };
        if (x != 0) k.p_copy = pf[r.below(3)];
        if (x != 1) k.p_func = pf[r.below(3)];
        c.maint_faults = r.p(0.7);
    }
    if (!w.weak && r.p(prop == "C12" || prop == "C14" ? 0.35 : 0.05)) c.nofinal = 1;
    if (prop == "C11") c.waitfree = 1;
    bool reset = false;
    for (Phase const& p : c.phases) for (OpIn const& o : p.ops[0]) if (o.kind == OP_RESET) reset = true;
    bool calm = !w.weak && !w.crash && !w.excs && !w.allocf && c.n <= 600 && !c.age;
    if (calm && r.p(w.others ? 0.35 : 0.05)) c.again = (u8)r.in(1, 3);
    if (calm && !w.shm && !reset && r.p(w.others ? 0.85 : 0.05)) {
        c.twin = (u8)r.in(1, 2);
        for (Phase& p : c.phases)
            for (int t = 0; t < (p.conc ? c.nthreads : 1); t++) {
                int n = (int)r.in(1, 4);
                for (int i = 0; i < n; i++) {
                    u16 pop = (g.a->fam == FAM_SPSC && p.conc ? (u16)t : (u16)r.below(2)) + 2 * (u16)(r.p(0.5) ? 0 : r.below(55));
                    p.ops[t].insert(p.ops[t].begin() + r.below((u32)p.ops[t].size() + 1), mkop(OP_TWIN, 0, pop));
                }
            }
    }
    return true;
}

// which classes of violation break which property
u64 class_mask_ok(std::string const& p, const char* cls)
{
    std::string c = cls;
    auto any = [&](std::initializer_list<const char*> l) { for (const char* x : l) if (c == x) return true; return false; };
    bool safety = any({ "linearizability", "conservation", "garbage", "crash", "memory", "assertion", "count", "functor", "fifo", "no-progress", "exception" });
    if (p == "C01" || p == "C02" || p == "C03" || p == "C08" || p == "C15") return safety || c == "capacity" || (p == "C15" && any({ "lifetime", "leak", "empty" })) || (p == "C08" && c == "lifetime");
    if (p == "C04") return safety || c == "capacity";
    if (p == "C05") return any({ "avail", "empty", "garbage", "assertion", "crash", "fifo", "no-progress", "memory", "capacity", "count", "lifetime" });
    if (p == "C06" || p == "C07") return any({ "race", "hb-order", "conservation", "garbage", "crash", "memory", "fifo", "no-progress", "count", "linearizability", "assertion", "lifetime", "functor", "capacity" });
    if (p == "C09") return safety || any({ "capacity", "leak" });
    if (p == "C10") return safety || any({ "capacity" });
    if (p == "C11") return any({ "no-progress", "wait-free", "crash", "fifo", "capacity", "memory", "garbage", "count", "conservation", "assertion", "avail", "empty" });
    if (p == "C12") return any({ "leak", "alloc-in-op", "free-in-op", "memory", "crash", "assertion", "no-progress" });
    if (p == "C13") return safety || any({ "leak", "capacity", "lifetime", "exception" });
    if (p == "C14") return any({ "lifetime", "memory", "crash", "garbage", "assertion", "conservation", "functor", "count" });
    if (p == "C16") return safety || any({ "foreign-mapping", "capacity", "avail", "empty", "lifetime" });
    if (p == "C17") return any({ "empty", "crash", "memory", "no-progress", "assertion", "avail" });
    if (p == "C19") return safety || any({ "leak", "capacity", "lifetime", "empty", "avail", "alloc-in-op", "free-in-op" });
    if (p == "C18") return safety || any({ "leak", "capacity", "lifetime", "exception" });
    return true;
}

void measure_solo()
{
    static bool done; if (done) return; done = true;
    wf_measuring = true;
    Stats keep = stats; int bad = 0;
    for (u64 i = 0; i < 12000; i++) {
        Case c; gen_case("C11", 20240607, i, false, c);
        // the same programs, one operation after the other
        std::vector<OpIn> seq; Phase* last = nullptr;
        for (Phase& p : c.phases) if (p.conc) {
            Rng r(i); size_t x = 0, y = 0; std::vector<OpIn> s;
            while (x < p.ops[0].size() || y < p.ops[1].size()) {
                bool a = y >= p.ops[1].size() || (x < p.ops[0].size() && r.p(0.5));
                s.push_back(a ? p.ops[0][x++] : p.ops[1][y++]);
            }
            p.conc = 0; p.ops[0] = s; p.ops[1].clear(); last = &p;
        }
        c.knobs = Knobs(); memset(static_cast<void*>(&c.knobs), 0, offsetof(Knobs, faults)); c.nofinal = 0; c.shared = 0; c.max_gap = 60000;
        Outcome o; run_case(c, o, nullptr);
        if (o.viol && ++bad > 20) break; // the runs proper will report it
    }
    stats = keep;
    wf_measuring = false;
}
