// Driver: batches of simulated runs, determinism self-check, minimiser, replay.
#include "case.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <atomic>
#include <map>
#include <sstream>
#include <fstream>
#include <algorithm>
#include <functional>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
using namespace rt;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- replay files
static void op_line(std::ostringstream& s, OpIn const& o)
{
    s << "op " << op_name[o.kind] << " n=" << o.n << " arg=" << o.arg;
    int nv = (int)std::min<u32>(o.n, MAXV); if (o.kind == OP_CHURN && !nv) nv = 1;
    for (int i = 0; i < nv && i < MAXV; i++) s << " " << o.v[i];
    s << "\n";
}
std::string case_text(Case const& c)
{
    std::ostringstream s;
    s << "adapter " << c.adapter << "\nparams n=" << c.n << " region=" << c.region << " threads=" << (int)c.nthreads << " shared=" << (int)c.shared
      << " weak=" << (int)c.weak << " opsync=" << (int)c.opsync << " strict=" << (int)c.strict << " maintfaults=" << (int)c.maint_faults
      << " nofinal=" << (int)c.nofinal << " waitfree=" << (int)c.waitfree << " twin=" << (int)c.twin << " again=" << (int)c.again << " age=" << c.age << " maxsteps=" << c.max_steps << " maxgap=" << c.max_gap << "\n";
    s << "origin prop=" << c.prop << " index=" << c.index << " seed=" << c.seed << "\n";
    s << "prefill\n"; for (OpIn const& o : c.prefill) op_line(s, o);
    for (Phase const& p : c.phases) {
        s << "phase " << (p.conc ? "concurrent" : "sequential") << "\n";
        for (int t = 0; t < (p.conc ? c.nthreads : 1); t++) { s << "thread " << t << "\n"; for (OpIn const& o : p.ops[t]) op_line(s, o); }
    }
    s << "schedule\n";
    for (Dec const& d : c.decs) {
        s << "at T" << (int)d.tid << " op=" << d.op << " step=" << d.step << " sub=" << d.sub << " " << dkind_name[d.kind] << " " << d.arg << "\n";
    }
    s << "end\n";
    return s.str();
}
bool case_parse(std::string const& text, Case& c)
{
    std::istringstream in(text); std::string line;
    std::vector<OpIn>* cur = nullptr; bool done = false;
    auto num = [](std::string const& s, const char* key, u64& out) {
        std::string k = std::string(key) + "="; size_t p = 0;
        for (;;) { p = s.find(k, p); if (p == std::string::npos) return false; if (p == 0 || s[p - 1] == ' ') break; p++; }
        out = strtoull(s.c_str() + p + k.size(), nullptr, 10); return true;
    };
    c.replay = true; c.phases.clear(); c.prefill.clear(); c.decs.clear();
    while (std::getline(in, line)) {
        std::istringstream l(line); std::string w; l >> w; u64 x;
        if (w == "adapter") l >> c.adapter;
        else if (w == "params") {
            if (num(line, "n", x)) c.n = (u32)x;
            if (num(line, "region", x)) c.region = (u32)x;
            if (num(line, "threads", x)) c.nthreads = (u8)x;
            if (num(line, "shared", x)) c.shared = (u8)x;
            if (num(line, "weak", x)) c.weak = (u8)x;
            if (num(line, "opsync", x)) c.opsync = (u8)x;
            if (num(line, "strict", x)) c.strict = (u8)x;
            if (num(line, "maintfaults", x)) c.maint_faults = (u8)x;
            if (num(line, "nofinal", x)) c.nofinal = (u8)x;
            if (num(line, "waitfree", x)) c.waitfree = (u8)x;
            if (num(line, "age", x)) c.age = (u32)x;
            if (num(line, "twin", x)) c.twin = (u8)x;
            if (num(line, "again", x)) c.again = (u8)x;
            if (num(line, "maxsteps", x)) c.max_steps = (u32)x;
            if (num(line, "maxgap", x)) c.max_gap = (u32)x;
        } else if (w == "origin") {
            size_t p = line.find("prop="); if (p != std::string::npos) { c.prop = line.substr(p + 5); c.prop = c.prop.substr(0, c.prop.find(' ')); }
            if (num(line, "index", x)) c.index = x;
            if (num(line, "seed", x)) c.seed = x;
        } else if (w == "prefill") cur = &c.prefill;
        else if (w == "phase") { std::string k; l >> k; c.phases.emplace_back(); c.phases.back().conc = k == "concurrent"; cur = nullptr; }
        else if (w == "thread") { int t; l >> t; if (c.phases.empty() || t < 0 || t >= MAXT) return false; cur = &c.phases.back().ops[t]; }
        else if (w == "op") {
            if (!cur) return false;
            OpIn o; memset(&o, 0, sizeof o); std::string k, a; l >> k;
            for (int i = 0; i < OP_KINDS; i++) if (k == op_name[i]) o.kind = (u8)i;
            if (num(line, "n", x)) o.n = (u32)x;
            if (num(line, "arg", x)) o.arg = (u16)x;
            l >> a >> a; int i = 0; u32 v; while (i < MAXV && l >> v) o.v[i++] = (u16)v;
            cur->push_back(o);
        } else if (w == "at") {
            Dec d; memset(&d, 0, sizeof d); std::string t, k; u64 arg;
            l >> t; d.tid = (u8)atoi(t.c_str() + 1);
            if (num(line, "op", x)) d.op = (u16)x;
            if (num(line, "step", x)) d.step = (u32)x;
            if (num(line, "sub", x)) d.sub = (u16)x;
            l >> k >> k >> k; l >> k >> arg; d.kind = D_KINDS; d.arg = (u32)arg;
            for (int i = 0; i < D_KINDS; i++) if (k == dkind_name[i]) d.kind = (u8)i;
            if (d.kind == D_KINDS) return false;
            c.decs.push_back(d);
        } else if (w == "end") { done = true; break; }
    }
    return done && !c.adapter.empty();
}

// ---------------------------------------------------------------- a case in a child process
struct Res { bool viol, died; char cls[40], msg[400]; u64 hash; };
static std::string read_all(int fd) { std::string s; char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); return s; }
static void write_all(int fd, const void* p, size_t n) { const char* c = (const char*)p; while (n) { ssize_t k = write(fd, c, n); if (k <= 0) return; c += k; n -= k; } }
// runs fn in a child; fn returns the bytes to hand back
static bool in_child(std::string& out, std::function<std::string()> fn)
{
    int p[2]; if (pipe(p)) { perror("pipe"); exit(3); }
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) { close(p[0]); rt::after_fork(); std::string s = fn(); write_all(p[1], s.data(), s.size()); _exit(0); }
    if (pid < 0) { perror("fork"); exit(3); }
    close(p[1]); out = read_all(p[0]); close(p[0]);
    int st = 0; waitpid(pid, &st, 0);
    return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
static u32 g_wd = 30;
static bool accept(std::string const& prop, const char* cls) { if (getenv("SIM_ANY")) return true; return class_mask_ok(prop, cls) != 0; }

// run c with up to nseeds seeds (generation) or once (replay); hand back the failing case with its decisions
static bool try_case(Case const& c0, int nseeds, u64 seed0, std::string const& want, Case& out, Res& res, u32 wd)
{
    std::string raw;
    bool ok = in_child(raw, [&] {
        watchdog(wd);
        Case c = c0;
        for (int i = 0; i < nseeds; i++) {
            if (!c.replay) c.seed = seed0 + (u64)i * 0x9E3779B97F4A7C15ull;
            Outcome o; std::vector<Dec> d;
            run_case(c, o, &d);
            if (o.viol && (want.empty() ? accept(c.prop, o.cls) : want == o.cls)) {
                Case f = c; f.decs = d; f.replay = true;
                Res r; memset(&r, 0, sizeof r); r.viol = true; memcpy(r.cls, o.cls, sizeof r.cls); memcpy(r.msg, o.msg, sizeof r.msg); r.hash = o.hash;
                return std::string((char*)&r, sizeof r) + case_text(f);
            }
            if (c.replay) break;
        }
        return std::string();
    });
    memset(&res, 0, sizeof res);
    if (!ok) { // the code under test took the process down
        res.viol = true; res.died = true; strcpy(res.cls, "crash"); strcpy(res.msg, "the process running the code died");
        return false;
    }
    if (raw.size() < sizeof(Res)) return false;
    memcpy(&res, raw.data(), sizeof res);
    Knobs k = c0.knobs; out = Case(); bool p = case_parse(raw.substr(sizeof res), out); out.knobs = k;
    return p;
}

static size_t weight(Case const& c)
{
    size_t w = c.prefill.size();
    auto ops = [&](std::vector<OpIn> const& v) { for (OpIn const& o : v) w += 3 + o.n + (o.kind == OP_CHURN ? o.arg : o.arg ? 1 : 0); };
    for (Phase const& p : c.phases) { w += 2; for (auto& v : p.ops) ops(v); }
    return w;
}

static Case minimise(Case best, std::string const& cls, double limit)
{
    double t_end = now() + limit;
    u64 sd = best.seed ^ 0xabcdef;
    auto attempt = [&](Case cand) -> bool { // the same decisions first, then a renewed search
        Case out; Res r;
        cand.replay = true;
        if (try_case(cand, 1, 0, cls, out, r, 5)) { Knobs k = best.knobs; best = out; best.knobs = k; return true; }
        cand.replay = false; cand.decs.clear();
        int n = cand.age > 1000 ? 10 : 150;
        sd = sd * 6364136223846793005ull + 1442695040888963407ull;
        if (try_case(cand, n, sd, cls, out, r, 5)) { Knobs k = best.knobs; best = out; best.knobs = k; return true; }
        return false;
    };
    auto drop_op = [](Case c, size_t ph, int t, size_t i) {
        size_t idx = i;
        for (size_t q = 0; q < ph; q++) if (c.phases[q].conc && c.phases[ph].conc) idx += c.phases[q].ops[t].size();
        c.phases[ph].ops[t].erase(c.phases[ph].ops[t].begin() + i);
        if (c.phases[ph].conc) {
            std::vector<Dec> d;
            for (Dec x : c.decs) { if (x.tid == t && x.op != OPX_END) { if (x.op == idx) continue; if (x.op > idx) x.op--; } d.push_back(x); }
            c.decs = d;
            for (size_t f = 0; f < c.knobs.faults.size();) {
                Fault& x = c.knobs.faults[f];
                if (x.tid == t && x.op == idx) { c.knobs.faults.erase(c.knobs.faults.begin() + f); continue; }
                if (x.tid == t && x.op > idx && x.op != 0xffff) x.op--;
                f++;
            }
        }
        return c;
    };
    bool progress = true;
    while (progress && now() < t_end) {
        progress = false;
        if (best.age) { Case c = best; c.age = 0; if (attempt(c)) progress = true; }
        if (best.twin) { Case c = best; c.twin = 0; if (attempt(c)) progress = true; }
        if (best.again) { Case c = best; c.again = 0; if (attempt(c)) progress = true; }
        if (best.maint_faults) { Case c = best; c.maint_faults = 0; if (attempt(c)) progress = true; }
        for (size_t ph = best.phases.size(); ph-- > 0 && now() < t_end;) {
            if (best.phases.size() > 1) {
                Case c = best;
                for (int t = 0; t < MAXT; t++) while (ph < c.phases.size() && !c.phases[ph].ops[t].empty()) c = drop_op(c, ph, t, c.phases[ph].ops[t].size() - 1);
                c.phases.erase(c.phases.begin() + ph);
                std::vector<Dec> d; for (Dec x : c.decs) { if (x.tid == MAINT) { if (x.op == 2 + 2 * ph) continue; if (x.op > 2 + 2 * ph) x.op -= 2; } d.push_back(x); }
                c.decs = d;
                if (attempt(c)) { progress = true; continue; }
            }
            for (int t = 0; t < MAXT && now() < t_end; t++) {
                if (best.phases[ph].ops[t].size() > 1) { // whole thread
                    Case c = best;
                    while (!c.phases[ph].ops[t].empty()) c = drop_op(c, ph, t, c.phases[ph].ops[t].size() - 1);
                    if (attempt(c)) { progress = true; continue; }
                }
                for (size_t i = best.phases[ph].ops[t].size(); i-- > 0 && now() < t_end;) {
                    if (attempt(drop_op(best, ph, t, i))) { progress = true; continue; }
                    OpIn const& o = best.phases[ph].ops[t][i];
                    if (o.kind == OP_CHURN && o.arg > 1) {
                        Case c = best; c.phases[ph].ops[t][i].arg = 1;
                        if (attempt(c)) { progress = true; continue; }
                        c = best; c.phases[ph].ops[t][i].arg = o.arg / 2; if (attempt(c)) progress = true;
                    } else if (o.n > 1) {
                        Case c = best; c.phases[ph].ops[t][i].n = o.n > 2 * MAXV ? o.n / 2 : o.n - 1; if (attempt(c)) progress = true;
                    }
                }
            }
        }
        for (size_t i = best.prefill.size(); i-- > 0 && now() < t_end;) {
            Case c = best; c.prefill.erase(c.prefill.begin() + i);
            if (attempt(c)) progress = true;
        }
        if (best.n > 1 && now() < t_end) { Case c = best; c.n = best.n > 8 ? best.n / 2 : best.n - 1; if (attempt(c)) progress = true; }
    }
    // the decisions
    size_t chunk = std::max<size_t>(1, best.decs.size() / 2);
    while (!best.decs.empty() && now() < t_end + limit) {
        bool any = false;
        for (size_t i = 0; i < best.decs.size() && now() < t_end + limit;) {
            Case c = best; c.replay = true;
            size_t e = std::min(c.decs.size(), i + chunk);
            c.decs.erase(c.decs.begin() + i, c.decs.begin() + e);
            Case out; Res r;
            if (try_case(c, 1, 0, cls, out, r, 5)) { c.seed = best.seed; best = c; any = true; } else i = e;
        }
        if (chunk == 1) { if (!any) break; } else chunk = std::max<size_t>(1, chunk / 2);
    }
    return best;
}

// ---------------------------------------------------------------- batch
enum { MAXAD = 128, NCLS = 32, BITS = 27 };
struct WStat {
    u64 runs, nontrivial, ops, inconclusive, selfchecks, nondet, other; Stats st; u64 edges; u64 ad[MAXAD]; u64 cur;
    u64 kinds[OP_KINDS], full, empty_res, thrown, crashedops, parts; u64 nphase, nweak, maxsteps_run;
};
struct Shared { std::atomic<u64> minviol; std::atomic<u64> stop; WStat w[64]; };
static Shared* sh; static u8* bitmap;

static void worker(int w, int W, std::string const& prop, u64 seed, bool thorough, u64 from, u64 runs, double t_end)
{
    WStat& s = sh->w[w];
    stats = s.st;
    std::vector<AdapterInfo*> ads; for (AdapterInfo* a = g_adapters; a; a = a->next) ads.push_back(a);
    std::map<std::string, int> adi; for (size_t i = 0; i < ads.size(); i++) adi[ads[i]->name] = (int)i;
    watchdog(g_wd);
    for (u64 i = from + w; i < from + runs; i += W) {
        if (i > sh->minviol.load() || sh->stop.load() || now() > t_end) break;
        s.cur = i + 1;
        Case c; if (!gen_case(prop, seed, i, thorough, c)) continue;
        Outcome o; std::vector<Dec> decs;
        bool self = (i % 61) == 7;
        run_case(c, o, self ? &decs : nullptr);
        s.runs++; s.ad[adi[c.adapter]]++;
        s.ops += o.nops; s.inconclusive += o.inconclusive; s.nphase += c.phases.size(); s.nweak += c.weak;
        for (OpRec const& r : ops) {
            s.kinds[r.kind]++;
            if (!r.done) s.crashedops++;
            else if (r.exc) s.thrown++;
            else if (r.in.n && !r.ok && !r.n) s.full++;
            else if (!r.in.n && !r.ok && !r.n && !r.nfunc) s.empty_res++;
        }
        if (o.nontrivial) { s.nontrivial++; u64 h = (o.inter * 0x9E3779B97F4A7C15ull) >> (64 - BITS); bitmap[h >> 3] |= u8(1u << (h & 7)); }
        if (o.viol) {
            if (!accept(prop, o.cls)) { s.other++; }
            else { u64 m = sh->minviol.load(); while (i < m && !sh->minviol.compare_exchange_weak(m, i)) {} }
        }
        if (self && !o.viol) {
            Stats keep = stats;
            Outcome o2, o3; Case c2 = c;
            run_case(c2, o2, nullptr);
            c2.decs = decs; c2.replay = true;
            run_case(c2, o3, nullptr);
            stats = keep;
            s.selfchecks++;
            if (o2.hash != o.hash || o3.hash != o.hash || o2.viol || o3.viol) { s.nondet++; fprintf(stderr, "non-determinism at index %llu: %llx %llx %llx\n", (unsigned long long)i, (unsigned long long)o.hash, (unsigned long long)o2.hash, (unsigned long long)o3.hash); }
        }
        s.st = stats;
        if ((s.runs & 255) == 0) s.edges = edges_covered();
    }
    s.edges = edges_covered(); s.cur = 0;
}

static std::string jesc(std::string const& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((u8)c < 32) o += ' '; else o += c; } return o; }

static std::string summary(Case const& c)
{
    std::ostringstream s;
    s << c.adapter << " n=" << c.n << (c.weak ? " weak-memory" : "") << (c.shared ? " shared-memory" : "") << (c.age ? " aged " + std::to_string(c.age) : "") << ":";
    auto o1 = [&](OpIn const& o) { s << " " << op_name[o.kind]; if (o.kind == OP_CHURN || o.kind == OP_RESERVE) s << "(" << o.arg << ")"; else if (o.n) { s << "("; if (o.n > MAXV) s << o.n << " elements"; else for (u32 i = 0; i < o.n; i++) s << (i ? "," : "") << o.v[i]; s << ")"; } };
    if (!c.prefill.empty()) { s << " prefill"; for (auto& o : c.prefill) o1(o); s << ";"; }
    for (Phase const& p : c.phases) for (int t = 0; t < MAXT; t++) if (!p.ops[t].empty()) { s << (p.conc ? " T" + std::to_string(t) : std::string(" main")) << ":"; for (auto& o : p.ops[t]) o1(o); s << ";"; }
    Knobs const& k = c.knobs;
    s << " strategy=" << (k.strat == 0 ? "random-walk" : k.strat == 1 ? "pct" : k.strat == 2 ? "run-to-completion" : k.strat == 3 ? "ambush" : "hot-sites");
    if (!k.faults.empty()) { s << " planned:"; for (auto& f : k.faults) s << " " << (f.kind == D_CRASH ? "crash" : f.kind == D_STALL ? "stall" : "?") << "@T" << (int)f.tid << ".op" << f.op << (f.at_cas ? ".cas" : ".step") << f.step; }
    return s.str();
}

static int usage() { fprintf(stderr, "usage: sim --prop P [--seed S] [--runs N] [--from I] [--time SEC] [--workers W] [--thorough] [--out JSON] [--replay-dir D] | --replay FILE [--trace] | --one P SEED INDEX [--trace] | --list\n"); return 2; }

int main(int argc, char** argv)
{
    std::string prop, out, replay, save, rdir = "."; u64 seed = 1, runs = 1000, from = 0, oneidx = 0; double tl = 1e9; int W = 8; bool thorough = false, trace = false, list = false, one = false; double mintime = 25;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&]() -> const char* { if (i + 1 >= argc) exit(usage()); return argv[++i]; };
        if (a == "--prop") prop = nx(); else if (a == "--seed") seed = strtoull(nx(), 0, 10); else if (a == "--runs") runs = strtoull(nx(), 0, 10);
        else if (a == "--from") from = strtoull(nx(), 0, 10); else if (a == "--time") tl = atof(nx()); else if (a == "--workers") W = atoi(nx());
        else if (a == "--thorough") thorough = true; else if (a == "--out") out = nx(); else if (a == "--replay-dir") rdir = nx();
        else if (a == "--replay") replay = nx(); else if (a == "--trace") trace = true; else if (a == "--list") list = true; else if (a == "--mintime") mintime = atof(nx());
        else if (a == "--save") save = nx();
        else if (a == "--one") { one = true; prop = nx(); seed = strtoull(nx(), 0, 10); oneidx = strtoull(nx(), 0, 10); }
        else return usage();
    }
    rt::init();
    if (list) { for (AdapterInfo* a = g_adapters; a; a = a->next) printf("%s fam=%d storage=%d size=%u\n", a->name, a->fam, a->storage, a->objsize); return 0; }
    std::vector<std::string> tr;
    if (!replay.empty() || one) {
        Case c;
        if (one) gen_case(prop, seed, oneidx, thorough, c);
        else {
            std::ifstream f(replay); std::stringstream ss; ss << f.rdbuf();
            size_t g = ss.str().find("\ngenerated prop=");
            if (g != std::string::npos) {
                char pr[16] = ""; unsigned long long gi = 0, gs = 0; int gt = 0;
                if (sscanf(ss.str().c_str() + g, "\ngenerated prop=%15s index=%llu seed=%llu thorough=%d", pr, &gi, &gs, &gt) != 4) return 2;
                gen_case(pr, gs, gi, gt, c);
                if (c.prop == "C11") { watchdog(g_wd); measure_solo(); }
                Case f; Res r;
                try_case(c, 1, c.seed, "", f, r, g_wd);
                printf("case: %s\n", summary(c).c_str());
                if (r.viol) { printf("REPRODUCED class=%s: %s\n", r.cls, r.msg); return 1; }
                printf("no violation\n"); return 0;
            }
            if (!case_parse(ss.str(), c)) { fprintf(stderr, "cannot parse %s\n", replay.c_str()); return 2; }
        }
        watchdog(g_wd);
        if (c.waitfree) measure_solo();
        Outcome o; std::vector<Dec> d;
        if (getenv("SIM_TWICE")) run_case(c, o, &d);
        if (trace) trace_out = &tr;
        run_case(c, o, &d);
        if (trace) for (auto& l : tr) printf("%s\n", l.c_str());
        printf("case: %s\n", summary(c).c_str());
        if (!save.empty()) { Case f = c; f.decs = d; std::ofstream fo(save); fo << case_text(f); }
        printf("decisions %zu ops %u hash %016llx\n", d.size(), o.nops, (unsigned long long)o.hash);
        if (o.viol) { printf("REPRODUCED class=%s: %s\n", o.cls, o.msg); return 1; }
        printf("no violation\n");
        return 0;
    }
    if (prop.empty()) return usage();
    if (prop == "C11") { watchdog(g_wd); measure_solo(); }
    W = std::max(1, std::min(W, 64));
    sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    bitmap = (u8*)mmap(0, 1u << (BITS - 3), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    sh->minviol = ~0ull;
    double t0 = now();
    auto search = [&](u64 first) {
        std::vector<pid_t> pids;
        fflush(stdout);
        sh->minviol = ~0ull;
        for (int w = 0; w < W; w++) {
            pid_t p = fork();
            if (p == 0) { rt::after_fork(); worker(w, W, prop, seed, thorough, first, from + runs - first, t0 + tl); _exit(0); }
            pids.push_back(p);
        }
        for (int w = 0; w < W; w++) {
            int st; waitpid(pids[w], &st, 0);
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { // the code under test destroyed the worker
                u64 i = sh->w[w].cur; if (!i) continue; i--;
                u64 m = sh->minviol.load(); while (i < m && !sh->minviol.compare_exchange_weak(m, i)) {}
            }
        }
    };
    search(from);
    double wall = now() - t0;
    WStat T; memset(&T, 0, sizeof T);
    std::vector<AdapterInfo*> ads; for (AdapterInfo* a = g_adapters; a; a = a->next) ads.push_back(a);
    for (int w = 0; w < W; w++) {
        WStat& s = sh->w[w];
        T.runs += s.runs; T.nontrivial += s.nontrivial; T.ops += s.ops; T.inconclusive += s.inconclusive; T.selfchecks += s.selfchecks; T.nondet += s.nondet; T.other += s.other;
        T.edges = std::max(T.edges, s.edges);
        for (int i = 0; i < MAXAD; i++) T.ad[i] += s.ad[i];
        for (int i = 0; i < OP_KINDS; i++) T.kinds[i] += s.kinds[i];
        T.full += s.full; T.empty_res += s.empty_res; T.thrown += s.thrown; T.crashedops += s.crashedops; T.nphase += s.nphase; T.nweak += s.nweak;
        T.st.steps += s.st.steps; T.st.switches += s.st.switches; T.st.cas_fail += s.st.cas_fail; T.st.cas_ok += s.st.cas_ok; T.st.atomics += s.st.atomics; T.st.plains += s.st.plains;
        T.st.reuse_under_stall += s.st.reuse_under_stall; T.st.weak_overflow += s.st.weak_overflow; T.st.overlap_switches += s.st.overlap_switches; T.st.races_checked += s.st.races_checked;
        for (int i = 0; i < D_KINDS; i++) T.st.fired[i] += s.st.fired[i];
    }
    u64 distinct = 0; for (u32 i = 0; i < (1u << (BITS - 3)); i += 8) distinct += __builtin_popcountll(*(u64*)(bitmap + i));
    int rc = 0, unstable = 0; std::string vpath, vmsg, vcls; u64 vidx = ~0ull;
    // a violation counts once its replay file has reproduced it; one that depends on what ran before it in the same process is passed over
    for (; unstable < 4 && (vidx = sh->minviol.load()) != ~0ull && rc != 1; rc != 1 ? (unstable++, search(vidx + 1)) : (void)0) {
        rc = 0;
        Case c; gen_case(prop, seed, vidx, thorough, c);
        Case full; Res r;
        bool got = try_case(c, 1, c.seed, "", full, r, g_wd);
        if (!got) {
            bool again = false;
            if (r.died) { Case f2; Res r2; again = !try_case(c, 1, c.seed, "", f2, r2, g_wd) && r2.died; }
            if (again) { // the simulator dies with the code under test: the replay generates the case from its seed again
                char nm[200]; snprintf(nm, sizeof nm, "%s/%s-seed%llu-run%llu.replay", rdir.c_str(), prop.c_str(), (unsigned long long)seed, (unsigned long long)vidx);
                vpath = nm; vcls = "crash"; vmsg = r.msg; rc = 1;
                std::ofstream fo(vpath);
                fo << "# replay with: sim --replay " << vpath << "\n# property " << prop << ", violation class crash\n# " << r.msg << "\n# " << summary(c)
                   << "\ngenerated prop=" << prop << " index=" << vidx << " seed=" << seed << " thorough=" << thorough << "\n";
                printf("violation at index %llu: [crash] %s\n  %s\n", (unsigned long long)vidx, r.msg, summary(c).c_str());
            } else { fprintf(stderr, "ERROR: violation at index %llu does not reproduce\n", (unsigned long long)vidx); rc = 2; }
        } else {
            vcls = r.cls; vmsg = r.msg;
            printf("violation at index %llu: [%s] %s\n  %s\n", (unsigned long long)vidx, r.cls, r.msg, summary(c).c_str());
            fflush(stdout);
            Case best = full; best.knobs = c.knobs;
            best = minimise(best, vcls, mintime);
            for (int attempt = 0; attempt < 2; attempt++) {
                Case f = attempt ? full : best; f.replay = true;
                Case o1, o2; Res r1, r2;
                bool a = try_case(f, 1, 0, vcls, o1, r1, g_wd), b = try_case(f, 1, 0, vcls, o2, r2, g_wd);
                if (!a || !b || r1.hash != r2.hash || strcmp(r1.msg, r2.msg)) { rc = 2; fprintf(stderr, "replay of the %s case is not stable\n", attempt ? "full" : "minimised"); continue; }
                char nm[200]; snprintf(nm, sizeof nm, "%s/%s-seed%llu-run%llu.replay", rdir.c_str(), prop.c_str(), (unsigned long long)seed, (unsigned long long)vidx);
                vpath = nm;
                // annotated trace, produced by the replay itself
                std::string tracetext;
                in_child(tracetext, [&] { std::vector<std::string> t2; trace_out = &t2; Outcome o; run_case(f, o, nullptr); std::string s; size_t k = t2.size() > 1500 ? t2.size() - 1500 : 0; for (; k < t2.size(); k++) s += "# " + t2[k] + "\n"; return s; });
                std::ofstream fo(vpath);
                fo << "# replay with: sim --replay " << vpath << " [--trace]\n# property " << prop << ", violation class " << vcls << "\n# " << r1.msg << "\n# " << summary(f) << "\n" << case_text(f) << "# trace of this run:\n" << tracetext;
                fo.close();
                std::string outp; char self[4096]; ssize_t sl = readlink("/proc/self/exe", self, sizeof self - 1); self[sl > 0 ? sl : 0] = 0;
                int pp[2]; if (pipe(pp)) return 3;
                fflush(stdout);
                pid_t pid = fork();
                if (!pid) { dup2(pp[1], 1); close(pp[0]); close(pp[1]); execl(self, self, "--replay", vpath.c_str(), (char*)0); _exit(127); }
                close(pp[1]); outp = read_all(pp[0]); close(pp[0]); int st; waitpid(pid, &st, 0);
                if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && outp.find("REPRODUCED class=" + vcls + ": " + r1.msg) != std::string::npos) {
                    rc = 1; vmsg = r1.msg; printf("minimised: %s\n  %zu scheduling/fault decisions, %s\n", summary(f).c_str(), f.decs.size(), r1.msg); break;
                }
                rc = 2; fprintf(stderr, "replay in a fresh process does not reproduce\n%s", outp.c_str());
            }
        }
    }
    if ((T.nondet || unstable) && !rc) rc = 2;
    std::ostringstream j;
    j << "{\n \"prop\": \"" << prop << "\", \"seed\": " << seed << ", \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n";
    j << " \"runs\": " << T.runs << ", \"nontrivial\": " << T.nontrivial << ", \"distinct_interleavings\": " << distinct << ", \"wall\": " << wall << ", \"workers\": " << W << ",\n";
    j << " \"ops\": " << T.ops << ", \"inconclusive\": " << T.inconclusive << ", \"selfchecks\": " << T.selfchecks << ", \"nondet\": " << T.nondet << ", \"other_class\": " << T.other << ",\n";
    j << " \"steps\": " << T.st.steps << ", \"switches\": " << T.st.switches << ", \"switches_inside_ops\": " << T.st.overlap_switches << ", \"atomic_accesses\": " << T.st.atomics << ", \"plain_accesses\": " << T.st.plains
      << ", \"cas_ok\": " << T.st.cas_ok << ", \"cas_fail\": " << T.st.cas_fail << ", \"ops_while_another_stalled\": " << T.st.reuse_under_stall << ", \"race_checks\": " << T.st.races_checked << ", \"weak_overflow\": " << T.st.weak_overflow << ", \"code_edges\": " << T.edges << ",\n";
    j << " \"probes\": {\"push_found_no_room\": " << T.full << ", \"found_empty\": " << T.empty_res << ", \"op_threw\": " << T.thrown << ", \"op_cut_short_by_crash\": " << T.crashedops << "},\n";
    j << " \"faults\": {"; for (int i = 0; i < D_KINDS; i++) j << (i ? ", " : "") << "\"" << dkind_name[i] << "\": " << T.st.fired[i]; j << "},\n";
    j << " \"adapters\": {"; { bool f = true; for (size_t i = 0; i < ads.size() && i < MAXAD; i++) if (T.ad[i]) { j << (f ? "" : ", ") << "\"" << ads[i]->name << "\": " << T.ad[i]; f = false; } } j << "},\n";
    j << " \"ops_by_kind\": {"; { bool f = true; for (int i = 0; i < OP_KINDS; i++) if (T.kinds[i]) { j << (f ? "" : ", ") << "\"" << op_name[i] << "\": " << T.kinds[i]; f = false; } } j << "},\n";
    j << " \"samples\": ["; for (int i = 0; i < 6; i++) { Case c; gen_case(prop, seed, from + (u64)i * 17, thorough, c); j << (i ? ", " : "") << "\n  \"" << jesc(summary(c)) << "\""; } j << "],\n";
    j << " \"rc\": " << rc << ", \"violation\": " << (rc == 1 ? "true" : "false") << ", \"class\": \"" << jesc(vcls) << "\", \"message\": \"" << jesc(vmsg) << "\", \"replay\": \"" << jesc(vpath) << "\"\n}\n";
    if (!out.empty()) { std::ofstream f(out); f << j.str(); } else printf("%s", j.str().c_str());
    if (rc == 1) printf("FOUND class=%s replay=%s %s\n", vcls.c_str(), vpath.c_str(), vmsg.c_str());
    return rc;
}
