// Checks over the recorded history of one run, against sequential reference models.
#include "case.hpp"
#include <algorithm>
#include <cstring>
#include <cstdio>
#include <unordered_set>
#include <unordered_map>
using namespace rt;

static const u32 NEVER = 0xffffffffu;

static bool is_spush(u8 k) { return k == OP_PUSH || k == OP_BPUSH || k == OP_UPUSH; }
static bool is_rpush(u8 k) { return k == OP_PUSHR || k == OP_BPUSHR || k == OP_UPUSHR; }
static bool is_bpushlike(OpRec const& r, AdapterInfo const* a) { return r.kind == OP_BPUSH || r.kind == OP_BPUSHR || a->storage != ST_NODE; }
static bool is_pop(u8 k) { return k == OP_POP || k == OP_UPOP || k == OP_POPCONV || k == OP_UPOPCONV; }
static bool is_c1(u8 k) { return k == OP_CONS1 || k == OP_CONS1C; }
static bool is_call(u8 k) { return k == OP_CONSALL || k == OP_CONSALLC; }
static bool is_atom(u8 k) { return k >= OP_CONSATOM && k <= OP_CONSREVC; }
static bool is_rev(u8 k) { return k == OP_CONSREV || k == OP_CONSREVC; }

// ---------------------------------------------------------------- linearizability (queue, stack)
enum LKind : u8 { L_PUSH, L_PUSHFAIL, L_POP, L_POPEMPTY, L_POPANY, L_POPMAYBE, L_ATOM, L_ATOMANY, L_RANGE, L_RANGEANY, L_EMPTY, L_NONEMPTY };
struct LOp {
    u32  inv, ret;
    u8   kind; bool optional, rev, prefix;
    int  v; int minsize;
    int const* list; u32 nlist;
    std::vector<int> own;
    int  opno;
};
struct Cfg { u32 mask; std::u16string st; bool operator==(Cfg const& o) const { return mask == o.mask && st == o.st; } };
struct CfgHash { size_t operator()(Cfg const& c) const { return std::hash<std::u16string>()(c.st) * 31 + c.mask; } };

struct Lin {
    bool stack; int cap; // 0: unbounded
    std::vector<LOp> ops;
    // apply op to state; several results possible
    void apply(LOp const& o, std::u16string const& s, std::vector<std::u16string>& out)
    {
        switch (o.kind) {
        case L_PUSH:
            if (cap && (int)s.size() >= cap) return;
            out.push_back(s); out.back().push_back((char16_t)o.v); return;
        case L_PUSHFAIL: if ((int)s.size() >= o.minsize) out.push_back(s); return;
        case L_POP:
            if (s.empty()) return;
            if (stack) { if (s.back() != (char16_t)o.v) return; out.push_back(s); out.back().pop_back(); }
            else { if (s[0] != (char16_t)o.v) return; out.emplace_back(s, 1); }
            return;
        case L_POPMAYBE: out.push_back(s); // fall through
        case L_POPANY:
            if (s.empty()) return;
            if (stack) { out.push_back(s); out.back().pop_back(); } else out.emplace_back(s, 1);
            return;
        case L_POPEMPTY: case L_EMPTY: if (s.empty()) out.push_back(s); return;
        case L_NONEMPTY: if (!s.empty()) out.push_back(s); return;
        case L_ATOM: // takes everything, top first (or last first)
            if (o.prefix ? s.size() < o.nlist : s.size() != o.nlist) return;
            for (u32 i = 0; i < o.nlist; i++) {
                char16_t x = o.rev ? s[i] : s[s.size() - 1 - i];
                if (x != (char16_t)o.list[i]) return;
            }
            out.emplace_back(); return;
        case L_ATOMANY: out.emplace_back(); return;
        case L_RANGE:
            if (cap && (int)(s.size() + o.nlist) > cap) return;
            if ((int)(s.size() + o.nlist) < o.minsize) return;
            out.push_back(s);
            for (u32 i = 0; i < o.nlist; i++) out.back().push_back((char16_t)o.list[i]);
            return;
        case L_RANGEANY: // crashed: everything, or (bounded) any prefix
            for (u32 k = o.prefix ? 1 : o.nlist; k <= o.nlist; k++) {
                if (cap && (int)(s.size() + k) > cap) break;
                out.push_back(s);
                for (u32 i = 0; i < k; i++) out.back().push_back((char16_t)o.list[i]);
            }
            return;
        }
    }
    int failed_op = -1; bool inconclusive = false; size_t maxcfg = 0;
    bool check()
    {
        struct Ev { u32 t; int op; bool ret; };
        std::vector<Ev> ev;
        for (size_t i = 0; i < ops.size(); i++) {
            ev.push_back({ ops[i].inv, (int)i, false });
            if (!ops[i].optional) ev.push_back({ ops[i].ret, (int)i, true });
        }
        // stages of one operation share a boundary: the return of the earlier stage comes first
        std::stable_sort(ev.begin(), ev.end(), [](Ev const& a, Ev const& b) { return a.t != b.t ? a.t < b.t : a.ret > b.ret; });
        int slot_of[32]; bool used[32]; memset(used, 0, sizeof used);
        std::vector<int> slot(ops.size(), -1);
        std::vector<Cfg> cur(1); cur[0].mask = 0;
        std::vector<std::u16string> res;
        int npend = 0;
        for (Ev const& e : ev) {
            if (!e.ret) {
                int s = 0; while (s < 32 && used[s]) s++;
                if (s == 32) { inconclusive = true; return true; }
                used[s] = true; slot_of[s] = e.op; slot[e.op] = s; npend++;
                continue;
            }
            int s = slot[e.op]; u32 bit = 1u << s;
            std::vector<Cfg> next;
            if (npend == 1) { // nothing else pending
                for (Cfg& c : cur) {
                    if (c.mask & bit) { c.mask &= ~bit; next.push_back(std::move(c)); continue; }
                    res.clear(); apply(ops[e.op], c.st, res);
                    for (auto& st : res) next.push_back({ c.mask, std::move(st) });
                }
            } else {
                std::unordered_set<Cfg, CfgHash> seen(cur.begin(), cur.end());
                std::vector<Cfg> work(cur.begin(), cur.end());
                std::unordered_set<Cfg, CfgHash> fin;
                while (!work.empty()) {
                    Cfg c = std::move(work.back()); work.pop_back();
                    if (c.mask & bit) { Cfg d = c; d.mask &= ~bit; fin.insert(std::move(d)); continue; }
                    for (int k = 0; k < 32; k++) {
                        if (!used[k] || (c.mask & (1u << k))) continue;
                        res.clear(); apply(ops[slot_of[k]], c.st, res);
                        for (auto& st : res) { Cfg d{ c.mask | (1u << k), std::move(st) }; if (seen.insert(d).second) work.push_back(std::move(d)); }
                    }
                    if (seen.size() > 60000) { inconclusive = true; return true; }
                }
                next.assign(fin.begin(), fin.end());
            }
            used[s] = false; npend--;
            if (next.empty()) { failed_op = e.op; return false; }
            cur.swap(next);
            maxcfg = std::max(maxcfg, cur.size());
        }
        return true;
    }
};

static std::string describe(OpRec const& r)
{
    char b[200]; std::string s;
    snprintf(b, sizeof b, "T%d %s(", r.tid, op_name[r.kind]); s = b;
    if (is_spush(r.kind)) s += std::to_string(r.in.v[0]);
    if (is_rpush(r.kind)) for (u32 i = 0; i < r.in.n && i < MAXV; i++) s += (i ? "," : "") + std::to_string(r.in.val(i));
    s += ")";
    if (!r.done) return s + " never returned";
    if (r.exc) s += " threw";
    if (is_spush(r.kind) || is_pop(r.kind) || is_c1(r.kind) || r.kind == OP_EMPTY) s += r.ok ? " -> true" : " -> false";
    else s += " -> " + std::to_string(r.n);
    if (r.nv) { s += " ["; for (u32 i = 0; i < r.nv && i < 8; i++) s += (i ? "," : "") + std::to_string(vals[r.voff + i]); s += "]"; }
    else if (r.nfunc) { s += " {"; for (u32 i = 0; i < r.nfunc && i < 8; i++) s += (i ? "," : "") + std::to_string(fvals[r.foff + i]); s += "}"; }
    return s;
}

static bool overlap(OpRec const& a, OpRec const& b)
{
    u32 ar = a.done ? a.ret : NEVER, br = b.done ? b.ret : NEVER;
    return a.inv < br && b.inv < ar;
}
// elements or nodes an operation may hold or remove while another one runs
static int touch(OpRec const& r)
{
    switch (r.kind) {
    case OP_PUSH: case OP_BPUSH: case OP_UPUSH: case OP_POP: case OP_UPOP: case OP_POPCONV: case OP_UPOPCONV: case OP_CONS1: case OP_CONS1C: case OP_RESERVE: case OP_RESERVEU: return 1;
    case OP_PUSHR: case OP_BPUSHR: case OP_UPUSHR: return r.in.n;
    case OP_CONSALL: case OP_CONSALLC: return (int)r.nfunc + 1;
    case OP_CONSATOM: case OP_CONSATOMC: case OP_CONSREV: case OP_CONSREVC: return (r.done && !r.exc) ? (int)r.n : 100000;
    default: return 0;
    }
}
static int hold(OpRec const& r)
{
    if (is_call(r.kind)) return 1;
    return touch(r);
}

// counts that must agree within one operation
static bool check_local(AdapterInfo const* a)
{
    for (OpRec const& r : ops) {
        if (!r.done) continue;
        for (u32 i = 0; i < r.nv; i++) if (vals[r.voff + i] < 0) { if (set_fail("garbage", "%s delivered a value that was never written (torn or stale memory)", describe(r).c_str())) return false; }
        for (u32 i = 0; i < r.nfunc; i++) if (fvals[r.foff + i] < 0) { if (set_fail("garbage", "%s passed a value to its functor that was never written (torn or stale memory)", describe(r).c_str())) return false; }
        u32 thrown = r.fired & ((1u << D_COPYF) | (1u << D_FUNCF));
        if (thrown && r.exc != EXC_COPY && r.exc != EXC_FUNC) { if (set_fail("exception", "an element or functor threw inside %s and the exception did not reach the caller", describe(r).c_str())) return false; }
        if (r.exc && !thrown && !(r.fired & (1u << D_ALLOCF))) { if (set_fail("exception", "%s although nothing failed", describe(r).c_str())) return false; }
        if (r.exc) continue;
        if (is_c1(r.kind) && r.nfunc != (r.ok ? 1u : 0u)) { if (set_fail("count", "%s called its functor %u time(s)", describe(r).c_str(), r.nfunc)) return false; }
        if ((is_call(r.kind) || is_atom(r.kind)) && r.nfunc != r.n) { if (set_fail("count", "%s called its functor %u time(s)", describe(r).c_str(), r.nfunc)) return false; }
        if ((is_rpush(r.kind) || r.kind == OP_PUSHARR || r.kind == OP_PUSHARRREF || r.kind == OP_PUSHIT || r.kind == OP_POPARR || r.kind == OP_POPARRREF) && r.n > r.in.n) {
            set_fail("count", "%s reports %u elements, %u were offered", describe(r).c_str(), r.n, r.in.n); return false; }
        if (r.kind == OP_POPIT && r.nv != r.n) { if (set_fail("count", "%s wrote %u elements", describe(r).c_str(), r.nv)) return false; }
    }
    return true;
}
static bool check_allocs(AdapterInfo const* a)
{
    for (OpRec const& r : ops) {
        u32 lim = 0;
        if (a->fam != FAM_SPSC && a->storage == ST_NODE) {
            if (r.kind == OP_PUSH || r.kind == OP_UPUSH) lim = 1;
            if (r.kind == OP_PUSHR || r.kind == OP_UPUSHR) lim = r.in.n;
            if (r.kind == OP_RESERVE || r.kind == OP_RESERVEU) lim = 100000;
        }
        if (r.allocs > lim && (r.kind == OP_BPUSH || r.kind == OP_BPUSHR) && set_fail("capacity", "%s used %u node(s) the container did not own", describe(r).c_str(), r.allocs)) return false;
        if (r.allocs > lim) { if (set_fail("alloc-in-op", "%s called the allocator %u time(s), at most %u allowed", describe(r).c_str(), r.allocs, lim)) return false; }
        if (r.frees) { if (set_fail("free-in-op", "%s returned memory to the allocator %u time(s) before the container was destroyed", describe(r).c_str(), r.frees)) return false; }
    }
    return true;
}

static void check_lin(OracleIn const& in, Outcome& o)
{
    AdapterInfo const* a = in.a;
    Lin L;
    L.stack = a->fam == FAM_STACK;
    L.cap = a->storage == ST_CAP ? (int)a->cap : a->storage == ST_FIXED ? (int)in.c->n : 0;
    if (a->storage == ST_FIXED && in.c->n == 0) L.cap = -1; // no room at all
    int dummy = a->fam == FAM_QUEUE ? 1 : 0;
    size_t total = ops.size();
    std::vector<size_t> undone; long last[NTID]; for (long& x : last) x = -1;
    std::vector<size_t> reserves; std::vector<std::pair<u32, int>> edges;
    for (size_t i = 0; i < total; i++) {
        if (!ops[i].done) undone.push_back(i);
        else if ((ops[i].kind == OP_RESERVE || ops[i].kind == OP_RESERVEU) && !ops[i].exc) reserves.push_back(i);
    }
    for (size_t i = 0; i < total; i++) {
        if (i) last[ops[i - 1].tid] = (long)i - 1;
        OpRec const& r = ops[i];
        LOp l; l.opno = (int)i; l.inv = r.inv; l.ret = r.done ? r.ret : NEVER; l.optional = !r.done; l.rev = l.prefix = false;
        l.v = 0; l.minsize = 0; l.list = nullptr; l.nlist = 0;
        bool failing = r.done && !r.exc && ((is_spush(r.kind) && !r.ok) || (is_rpush(r.kind) && r.n < r.in.n));
        int need = 0;
        if (failing) {
            if (!is_bpushlike(r, a)) { set_fail("linearizability", "%s failed although the container can allocate", describe(r).c_str()); return; }
            int N;
            if (a->storage == ST_NODE) {
                int promised = (int)in.nodes0;
                for (size_t j : reserves) if (ops[j].ret < r.inv) promised += ops[j].in.arg;
                N = std::max(promised, (int)r.alloc_at_inv) - dummy;
            } else N = std::max(L.cap, 0);
            int H = 0;
            // overlapping operations: operations are sorted by invocation and those of one thread do not overlap each other
            // A push that got nothing was refused at one instant: only operations in progress at that instant hold nodes. A range push
            // that got a part of its nodes is linked later, so everything that overlaps it may have freed room in between.
            bool instant = is_spush(r.kind) || !r.n;
            edges.clear();
            auto add = [&](size_t j) {
                if (j == i || !overlap(r, ops[j])) return;
                int h = instant ? hold(ops[j]) : touch(ops[j]);
                if (!instant) { H += h; return; }
                edges.push_back({ ops[j].inv, h }); if (ops[j].done) edges.push_back({ ops[j].ret, -h });
            };
            for (size_t j : undone) if (j < i) add(j);
            // of the operations before i, the last one of each thread is the only one that can still overlap
            for (int t = 0; t < NTID; t++) if (last[t] >= 0 && ops[last[t]].done) add((size_t)last[t]);
            for (size_t j = i + 1; j < total && ops[j].inv < (r.done ? r.ret : NEVER); j++) add(j);
            if (instant) {
                std::sort(edges.begin(), edges.end(), [](std::pair<u32, int> const& x, std::pair<u32, int> const& y) { return x.first != y.first ? x.first < y.first : x.second > y.second; });
                int h = 0;
                for (auto& e : edges) { if (e.first >= r.ret) break; h += e.second; H = std::max(H, h); }
            }
            need = N - H;
        }
        if (is_spush(r.kind)) {
            if (r.done && r.exc) continue;
            if (failing) { l.kind = L_PUSHFAIL; l.minsize = need; }
            else { l.kind = L_PUSH; l.v = r.in.v[0]; }
            L.ops.push_back(l);
        } else if (is_rpush(r.kind)) {
            if (r.done && r.exc) continue;
            if (!r.in.n) continue;
            for (u32 k = 0; k < r.in.n; k++) l.own.push_back(r.in.val(k));
            if (!r.done) { l.kind = L_RANGEANY; l.nlist = r.in.n; l.prefix = is_bpushlike(r, a); }
            else {
                l.nlist = r.n;
                if (!r.n) { l.kind = L_PUSHFAIL; l.minsize = need; }
                else { l.kind = L_RANGE; l.minsize = failing ? need : 0; }
            }
            L.ops.push_back(l);
        } else if (is_pop(r.kind)) {
            if (!r.done) { l.kind = L_POPANY; }
            else if (r.exc) { l.kind = L_POPMAYBE; } // an assignment or conversion threw, before or after the element was taken out
            else if (r.ok) { l.kind = L_POP; l.v = r.nv ? vals[r.voff] : -1; }
            else l.kind = L_POPEMPTY;
            L.ops.push_back(l);
        } else if (is_c1(r.kind) || is_call(r.kind)) {
            u32 t = r.inv;
            for (u32 k = 0; k < r.nfunc; k++) {
                LOp s = l; s.kind = L_POP; s.v = fvals[r.foff + k]; s.inv = t; s.ret = fseqs[r.foff + k]; s.optional = false;
                t = s.ret;
                L.ops.push_back(s);
            }
            l.inv = t;
            if (!r.done) { if (is_call(r.kind) || !r.nfunc) { l.kind = L_POPANY; L.ops.push_back(l); } }
            else if (!r.exc && (is_call(r.kind) || !r.ok)) { l.kind = L_POPEMPTY; L.ops.push_back(l); }
        } else if (is_atom(r.kind)) {
            l.rev = is_rev(r.kind);
            if (!r.nfunc) {
                if (!r.done) { l.kind = L_ATOMANY; L.ops.push_back(l); }
                else if (!r.exc) { l.kind = L_POPEMPTY; L.ops.push_back(l); }
            } else {
                l.kind = L_ATOM; l.ret = fseqs[r.foff]; l.optional = false;
                l.list = &fvals[r.foff]; l.nlist = r.nfunc;
                l.prefix = !r.done || r.exc;
                L.ops.push_back(l);
            }
        } else if (r.kind == OP_EMPTY && r.done) {
            bool alone = true;
            for (size_t j = 0; j < total && alone; j++) if (j != i && ops[j].kind != OP_EMPTY && overlap(r, ops[j])) alone = false;
            if (alone) { l.kind = r.ok ? L_EMPTY : L_NONEMPTY; L.ops.push_back(l); }
            else if (a->fam == FAM_STACK && r.ok) { l.kind = L_EMPTY; L.ops.push_back(l); }
        }
    }
    for (LOp& l : L.ops) if (!l.own.empty()) l.list = l.own.data();
    if (!L.check()) {
        OpRec const& r = ops[L.ops[L.failed_op].opno];
        const char* cls = "linearizability";
        if (r.kind == OP_EMPTY) cls = "empty";
        else { // is it the answer of empty() that does not fit?
            Lin M; M.stack = L.stack; M.cap = L.cap;
            for (LOp const& l : L.ops) if (ops[l.opno].kind != OP_EMPTY) M.ops.push_back(l);
            if (M.ops.size() != L.ops.size()) {
                for (LOp& l : M.ops) if (!l.own.empty()) l.list = l.own.data();
                if (M.check() && !M.inconclusive) cls = "empty";
            }
        }
        // name the plainest thing that is wrong
        std::unordered_map<int, int> in_, out_;
        for (OpRec const& q : ops) {
            if (is_spush(q.kind) && !q.exc && (!q.done || q.ok)) in_[q.in.v[0]]++;
            if (is_rpush(q.kind) && !q.exc) for (u32 k = 0; k < (q.done ? q.n : q.in.n); k++) in_[q.in.val(k)]++;
            if (is_pop(q.kind) && q.ok && q.nv) out_[vals[q.voff]]++;
            for (u32 k = 0; k < q.nfunc; k++) out_[fvals[q.foff + k]]++;
        }
        for (auto& x : out_) {
            if (!in_.count(x.first)) { set_fail(cls, "value %d was delivered but never pushed; no sequential order explains: %s", x.first, describe(r).c_str()); return; }
            if (x.second > in_[x.first]) { set_fail(cls, "value %d was pushed %d time(s) and delivered %d times; no sequential order explains: %s", x.first, in_[x.first], x.second, describe(r).c_str()); return; }
        }
        set_fail(cls, "no sequential order of the operations explains: %s", describe(r).c_str());
        return;
    }
    if (L.inconclusive) o.inconclusive = true;
}

// ---------------------------------------------------------------- weak-memory runs (queue, stack)
static inline bool hb(OpRec const& a, OpRec const& b) { return a.done && (b.vc0[a.tid] >= a.vc1clk || (a.tid == b.tid && a.ret < b.inv)); }
// pop events with the operation they belong to
struct Ev { int op; int v; u32 pos; };

static void check_weak(OracleIn const& in)
{
    std::unordered_map<int, int> pushed; // value -> op
    for (size_t i = 0; i < ops.size(); i++) {
        OpRec const& r = ops[i];
        if (is_spush(r.kind) && r.done && !r.exc && r.ok) pushed[r.in.v[0]] = (int)i;
        if (is_rpush(r.kind) && r.done && !r.exc) for (u32 k = 0; k < r.n; k++) pushed[r.in.val(k)] = (int)i;
    }
    std::vector<Ev> pops; std::unordered_map<int, int> popped;
    for (size_t i = 0; i < ops.size(); i++) {
        OpRec const& r = ops[i];
        auto add = [&](int v, u32 pos) -> bool {
            if (!pushed.count(v)) { set_fail("conservation", "value %d was delivered but never pushed: %s", v, describe(r).c_str()); return false; }
            if (popped.count(v)) { set_fail("conservation", "value %d was delivered twice: %s and %s", v, describe(ops[popped[v]]).c_str(), describe(r).c_str()); return false; }
            popped[v] = (int)i; pops.push_back({ (int)i, v, pos }); return true;
        };
        if (r.nfunc) { for (u32 k = 0; k < r.nfunc; k++) if (!add(fvals[r.foff + k], k)) return; }
        else for (u32 k = 0; k < r.nv; k++) if (!add(vals[r.voff + k], k)) return;
    }
    if (!in.c->nofinal)
        for (auto& p : pushed) if (!popped.count(p.first)) { set_fail("conservation", "value %d was pushed and never delivered, not even by draining the container: %s", p.first, describe(ops[p.second]).c_str()); return; }
    if (in.a->fam == FAM_QUEUE) {
        for (Ev const& x : pops) for (Ev const& y : pops) {
            if (x.v == y.v) continue;
            OpRec const &px = ops[pushed[x.v]], &py = ops[pushed[y.v]];
            if (!hb(px, py)) continue;
            bool y_first = x.op == y.op ? y.pos < x.pos : hb(ops[y.op], ops[x.op]);
            if (y_first) { if (set_fail("hb-order", "value %d was pushed before value %d, but delivered after it: %s, %s", x.v, y.v, describe(ops[y.op]).c_str(), describe(ops[x.op]).c_str())) return; }
        }
    }
    for (OpRec const& e : ops) {
        bool claims_empty = e.done && !e.exc && ((is_pop(e.kind) && !e.ok) || (is_c1(e.kind) && !e.ok) || (is_atom(e.kind) && !e.n) || is_call(e.kind));
        if (!claims_empty) continue;
        for (auto& p : pushed) {
            if (!hb(ops[p.second], e)) continue;
            auto it = popped.find(p.first);
            if (it == popped.end() || (&ops[it->second] != &e && hb(e, ops[it->second]))) {
                set_fail("hb-order", "%s found the container empty although value %d was pushed before it and only taken out after it", describe(e).c_str(), p.first); return;
            }
        }
    }
}

// ---------------------------------------------------------------- single-producer single-consumer
static bool sp_push(u8 k) { return k == OP_PUSH || k == OP_PUSHARR || k == OP_PUSHARRREF || k == OP_PUSHIT; }
static bool sp_pop(u8 k) { return is_pop(k) || k == OP_POPVOID || k == OP_POPARR || k == OP_POPARRREF || k == OP_POPIT || is_c1(k) || is_call(k) || k == OP_PEEKPOP || k == OP_RESET; }

static void check_spsc(OracleIn const& in)
{
    AdapterInfo const* a = in.a;
    long cap = a->storage == ST_CAP ? a->cap : in.c->n;
    bool weak = in.c->weak;
    // 'before' and 'not after': real time in sequentially consistent runs, happens-before in weak ones
    auto before = [&](OpRec const& x, OpRec const& y) { return weak ? hb(x, y) : (x.done && x.ret < y.inv); };
    auto notafter = [&](OpRec const& x, OpRec const& y) { return weak ? !hb(y, x) : !(y.done && x.inv > y.ret); };
    std::vector<int> P, Q; // indices of producer / consumer operations, in their thread's order
    for (size_t i = 0; i < ops.size(); i++) {
        u8 k = ops[i].kind;
        if (sp_push(k)) P.push_back((int)i);
        if (sp_pop(k)) Q.push_back((int)i);
    }
    // elements accepted per push, taken per pop
    std::vector<int> seq; // accepted values, in order
    std::vector<long> pn(P.size()), pbase(P.size());
    bool unknown_push = false;
    for (size_t i = 0; i < P.size(); i++) {
        OpRec const& r = ops[P[i]];
        pbase[i] = (long)seq.size();
        if (!r.done) unknown_push = true; // crashed: handled below by matching
        pn[i] = !r.done || r.exc ? 0 : r.kind == OP_PUSH ? (r.ok ? 1 : 0) : r.n;
        for (int k = 0; k < pn[i]; k++) seq.push_back(r.in.val(k));
    }
    // consumer side: walk the operations in order and match against seq; crashed pushes may have been accepted in full
    struct Hyp { std::vector<int> s; };
    std::vector<std::vector<int>> hyps(1);
    if (!unknown_push) hyps[0] = seq;
    else {
        hyps.assign(1, {});
        for (size_t i = 0; i < P.size(); i++) {
            OpRec const& r = ops[P[i]];
            size_t h0 = hyps.size();
            if (r.done) { for (auto& h : hyps) for (int k = 0; k < pn[i]; k++) h.push_back(r.in.val(k)); continue; }
            int full = r.kind == OP_PUSH ? 1 : r.in.n;
            for (size_t h = 0; h < h0; h++) for (int k = 1; k <= full; k++) { std::vector<int> x = hyps[h]; for (int j = 0; j < k; j++) x.push_back(r.in.val(j)); hyps.push_back(x); if (hyps.size() > 400) break; }
        }
    }
    std::vector<long> qn(Q.size()), qbase(Q.size());
    std::string why; int whyop = -1;
    bool matched = false;
    for (auto& s : hyps) {
        // crashed pops may or may not have advanced: positions possible
        std::vector<long> pos(1, 0); bool ok = true;
        std::vector<long> qn1(Q.size()), qb1(Q.size());
        for (size_t i = 0; i < Q.size() && ok; i++) {
            OpRec const& r = ops[Q[i]];
            std::vector<long> np;
            for (long p : pos) {
                auto m = [&](int const* v, u32 n) { if (p + (long)n > (long)s.size()) return false; for (u32 k = 0; k < n; k++) if (s[p + k] != v[k]) return false; return true; };
                int const* fv = r.nfunc ? &fvals[r.foff] : nullptr; int const* rv = r.nv ? &vals[r.voff] : nullptr;
                auto add = [&](long q) { if (std::find(np.begin(), np.end(), q) == np.end()) np.push_back(q); qn1[i] = q - p; qb1[i] = p; };
                if (!r.done) { // crashed: took nothing visible, or any number of elements
                    if (r.nfunc && !m(fv, r.nfunc)) continue;
                    for (long q = p; q <= (long)s.size(); q++) add(q);
                    continue;
                }
                if (r.exc) { // a functor or copy threw: the element it failed on stays
                    if (is_c1(r.kind) || is_call(r.kind)) { if (r.nfunc && m(fv, r.nfunc)) add(p + r.nfunc - 1); }
                    else if (r.kind == OP_POPIT || r.kind == OP_POPARR || r.kind == OP_POPARRREF) { if (m(rv, r.nv)) for (long q = p + (long)r.nv; q <= (long)s.size(); q++) add(q); }
                    else add(p);
                    continue;
                }
                switch (r.kind) {
                case OP_POP: case OP_POPCONV: if (!r.ok) add(p); else if (m(rv, 1)) add(p + 1); break;
                case OP_POPVOID: if (!r.ok) add(p); else if (p < (long)s.size()) add(p + 1); break;
                case OP_PEEKPOP: if (!r.ok && !r.nv) add(p); else if (r.ok && r.nv == 2 && rv[0] == rv[1] && m(rv, 1)) add(p + 1); break;
                case OP_CONS1: case OP_CONS1C: if (!r.ok) add(p); else if (m(fv, 1)) add(p + 1); break;
                case OP_CONSALL: case OP_CONSALLC: if (m(fv, r.nfunc)) add(p + r.nfunc); break;
                case OP_POPARR: case OP_POPARRREF: case OP_POPIT: if (r.nv == r.n && m(rv, r.nv)) add(p + r.nv); break;
                case OP_RESET: { long q = (long)s.size(); for (size_t j = 0; j < P.size(); j++) if (!before(ops[P[j]], r)) { q = pbase[j]; break; } add(q); break; }
                }
            }
            if (np.empty()) { ok = false; whyop = Q[i]; }
            pos.swap(np);
        }
        if (ok && !in.c->nofinal) { bool full = false; for (long p : pos) if (p == (long)s.size()) full = true; if (!full) { ok = false; whyop = -2; } }
        if (ok) { matched = true; qn = qn1; qbase = qb1; break; }
    }
    if (!matched) {
        if (whyop == -2) set_fail("fifo", "elements accepted by push were never delivered (%zu accepted)", seq.size());
        else set_fail("fifo", "consumer does not receive exactly the accepted elements in order: %s", whyop >= 0 ? describe(ops[whyop]).c_str() : "?");
        return;
    }
    if (in.faults_exc) return;
    if (in.any_crash) { // what the survivor must get: everything that completed operations of the other side left for it
        long pdead = 0, qdead = 0; bool reset = false; // moved by operations that never returned, at most
        for (OpRec const& r : ops) {
            if (r.kind == OP_RESET) reset = true;
            if (r.done) continue;
            if (sp_push(r.kind)) pdead += r.kind == OP_PUSH ? 1 : r.in.n;
            if (sp_pop(r.kind)) qdead += 1000000;
        }
        if (reset) return;
        auto pamount = [&](OpRec const& r) -> long { return !r.done ? 0 : r.kind == OP_PUSH ? r.ok : r.n; };
        auto qamount = [&](OpRec const& r) -> long { return !r.done ? 0 : (is_c1(r.kind) || is_call(r.kind)) ? (long)r.nfunc : (r.kind == OP_POPARR || r.kind == OP_POPARRREF || r.kind == OP_POPIT) ? r.n : r.ok; };
        auto sum = [&](std::vector<int> const& v, OpRec const& r, bool push, bool own, bool maybe) { long n = 0; for (int j : v) { OpRec const& x = ops[j]; if (own ? x.ret < r.inv : maybe ? notafter(x, r) : before(x, r)) n += push ? pamount(x) : qamount(x); } return n; };
        for (size_t i = 0; i < ops.size(); i++) {
            OpRec const& r = ops[i];
            if (!r.done) continue;
            if (!qdead && (sp_pop(r.kind) || r.kind == OP_RAVAIL || r.kind == OP_FRONT)) {
                long base = sum(Q, r, false, true, false), lo = sum(P, r, true, false, false) - base, hi = sum(P, r, true, false, true) + pdead - base;
                bool query = r.kind == OP_RAVAIL || r.kind == OP_FRONT;
                long want = (query || is_call(r.kind) || r.kind == OP_POPIT) ? 1000000 : (r.kind == OP_POPARR || r.kind == OP_POPARRREF) ? r.in.n : 1, got = query ? r.n : qamount(r);
                if (got < std::min(want, lo) || got > hi) { if (set_fail(query ? "avail" : "fifo", "%s, between %ld and %ld elements were available (other side died)", describe(r).c_str(), lo, hi)) return; }
                if (r.kind == OP_PEEKPOP && ((long)r.n < lo || (long)r.n > hi)) { if (set_fail("avail", "read_available() returned %u, between %ld and %ld elements were available (other side died)", r.n, lo, hi)) return; }
            }
            if (!pdead && (sp_push(r.kind) || r.kind == OP_WAVAIL)) {
                long base = sum(P, r, true, true, false), lo = cap - (base - sum(Q, r, false, false, false)), hi = std::min(cap, cap - (base - sum(Q, r, false, false, true) - qdead));
                bool query = r.kind == OP_WAVAIL;
                long want = query ? 1000000 : r.kind == OP_PUSH ? 1 : r.in.n, got = query ? r.n : pamount(r);
                if (got < std::min(want, lo) || got > hi) { if (set_fail(query ? "avail" : "capacity", "%s, between %ld and %ld slots were free (other side died)", describe(r).c_str(), lo, hi)) return; }
            }
        }
        return;
    }
    // fullness, emptiness and the occupancy queries
    auto pushed_before = [&](OpRec const& r) { long n = 0; for (size_t j = 0; j < P.size(); j++) if (before(ops[P[j]], r)) n = std::max(n, pbase[j] + pn[j]); return n; };
    auto pushed_atmost = [&](OpRec const& r) { long n = 0; for (size_t j = 0; j < P.size(); j++) if (notafter(ops[P[j]], r)) n = std::max(n, pbase[j] + pn[j]); return n; };
    auto popped_before = [&](OpRec const& r) { long n = 0; for (size_t j = 0; j < Q.size(); j++) if (before(ops[Q[j]], r)) n = std::max(n, qbase[j] + qn[j]); return n; };
    auto popped_atmost = [&](OpRec const& r) { long n = 0; for (size_t j = 0; j < Q.size(); j++) if (notafter(ops[Q[j]], r)) n = std::max(n, qbase[j] + qn[j]); return n; };
    for (size_t i = 0; i < P.size(); i++) {
        OpRec const& r = ops[P[i]];
        long want = r.kind == OP_PUSH ? 1 : r.in.n, got = pn[i];
        long lo = cap - (pbase[i] - popped_before(r)), hi = cap - (pbase[i] - popped_atmost(r));
        if (got > hi) { if (set_fail("capacity", "%s accepted %ld element(s), at most %ld of %ld slots were free", describe(r).c_str(), got, hi, cap)) return; }
        if (got < std::min(want, lo)) { if (set_fail("capacity", "%s accepted %ld of %ld element(s) although at least %ld of %ld slots were free", describe(r).c_str(), got, want, lo, cap)) return; }
    }
    for (size_t i = 0; i < Q.size(); i++) {
        OpRec const& r = ops[Q[i]];
        if (r.kind == OP_RESET) continue;
        long lo = pushed_before(r) - qbase[i], hi = pushed_atmost(r) - qbase[i], got = qn[i];
        long want = (is_call(r.kind) || r.kind == OP_POPIT) ? 1000000 : (r.kind == OP_POPARR || r.kind == OP_POPARRREF) ? r.in.n : 1;
        if (got > hi) { if (set_fail("fifo", "%s took %ld element(s), at most %ld had been pushed", describe(r).c_str(), got, hi)) return; }
        if (got < std::min(want, lo)) { if (set_fail("fifo", "%s took %ld element(s) although %ld were available", describe(r).c_str(), got, lo)) return; }
        if (r.kind == OP_PEEKPOP && ((long)r.n < lo || (long)r.n > hi)) { if (set_fail("avail", "read_available() returned %u, between %ld and %ld elements were available", r.n, lo, hi)) return; }
    }
    for (OpRec const& r : ops) {
        if (!r.done) continue;
        if (r.kind == OP_RAVAIL || r.kind == OP_FRONT) { // called by the consumer
            long base = 0; for (size_t j = 0; j < Q.size(); j++) if (ops[Q[j]].ret < r.inv) base = std::max(base, qbase[j] + qn[j]);
            long lo = pushed_before(r) - base, hi = pushed_atmost(r) - base;
            if ((long)r.n < lo || (long)r.n > hi) { if (set_fail("avail", "read_available() returned %u, between %ld and %ld elements were available", r.n, lo, hi)) return; }
            if (r.kind == OP_FRONT && r.ok && vals[r.voff] != seq[base]) { if (set_fail("avail", "front() shows %d, the next element is %d", vals[r.voff], seq[base])) return; }
        }
        if (r.kind == OP_WAVAIL) { // called by the producer
            long base = 0; for (size_t j = 0; j < P.size(); j++) if (ops[P[j]].ret < r.inv) base = std::max(base, pbase[j] + pn[j]);
            long lo = cap - (base - popped_before(r)), hi = cap - (base - popped_atmost(r));
            if ((long)r.n < lo || (long)r.n > hi) { if (set_fail("avail", "write_available() returned %u, between %ld and %ld slots were free", r.n, lo, hi)) return; }
        }
        if (r.kind == OP_EMPTY) {
            bool alone = true;
            for (OpRec const& q : ops) if (&q != &r && overlap(q, r)) alone = false;
            if (alone && (pushed_before(r) == popped_before(r)) != (r.ok != 0)) { if (set_fail("empty", "empty() returned %s, the queue held %ld element(s)", r.ok ? "true" : "false", pushed_before(r) - popped_before(r))) return; }
        }
    }
}

// ---------------------------------------------------------------- wait-freedom
// own shared-memory steps of one operation that moves m elements, when nothing else runs (measured); operations of a
// wait-free container must not need substantially more under any schedule
enum { WF_M = 33 };
static std::unordered_map<std::string, u32> wf_solo;
bool wf_measuring;
static u32 moved_of(OpRec const& r)
{
    u32 m = std::max<u32>(r.nv, r.nfunc);
    if (sp_push(r.kind)) m = r.kind == OP_PUSH ? r.ok : r.n;
    else if (r.kind == OP_POPVOID) m = r.ok;
    return m;
}
static std::string wf_key(AdapterInfo const* a, u8 kind, u32 m) { return std::string(a->name) + "/" + std::to_string(kind) + "/" + std::to_string(m); }
static void check_waitfree(OracleIn const& in)
{
    for (OpRec const& r : ops) {
        if (!r.done || r.exc || r.kind == OP_RESET) continue;
        u32 m = moved_of(r);
        if (m >= WF_M) continue;
        std::string k = wf_key(in.a, r.kind, m);
        if (wf_measuring) { u32& x = wf_solo[k]; if (r.own_steps > x) x = r.own_steps; continue; }
        auto it = wf_solo.find(k);
        if (it == wf_solo.end()) continue;
        u32 lim = it->second + it->second / 2 + 8;
        if (r.own_steps > lim) { if (set_fail("wait-free", "%s needed %u steps of its own under this schedule, at most %u when nothing else runs", describe(r).c_str(), r.own_steps, it->second)) return; }
    }
}

void check_history(OracleIn const& in, Outcome& o)
{
    if (!check_local(in.a)) return;
    if (in.a->fam == FAM_SPSC) check_spsc(in);
    else if (in.c->weak) check_weak(in);
    else check_lin(in, o);
    if (!viol.set) check_allocs(in.a);
    if (!viol.set && in.c->waitfree) check_waitfree(in);
}
