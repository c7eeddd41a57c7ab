// A case = one simulated execution: program, knobs, seed and (for replays) the decision list.
#pragma once
#include "rtint.hpp"
#include <string>
#include <vector>

struct Phase {
    u8 conc;                         // 1: operations run concurrently; 0: by the main thread, one after the other
    std::vector<OpIn> ops[MAXT];     // conc == 0: only ops[0]
};
struct Case {
    std::string prop, adapter;
    u32  n = 0;                      // constructor argument (runtime-sized containers)
    u32  region = 1;                 // placement of the object and its allocations
    u8   nthreads = 2;
    u8   shared = 0;                 // object lives in shared memory mapped at several addresses
    u8   weak = 0, opsync = 0, strict = 0, maint_faults = 0;
    u8   waitfree = 0;               // compare the length of every operation with its solo length
    u8   nofinal = 0;                // destroy the container as it is, without draining it first
    u8   twin = 0;                   // 1, 2: a second container (of the same, a larger capacity) is in use at the same time
    u8   again = 0;                  // 1, 2, 3: a container (of the same, a larger, a smaller capacity) is constructed in the same place after the first one was destroyed
    u32  age = 0;                    // push/pop pairs executed before the run
    u32  max_steps = 400000, max_gap = 60000;
    std::vector<OpIn> prefill;
    std::vector<Phase> phases;
    rt::Knobs knobs;
    u64  seed = 1;
    bool replay = false;
    std::vector<rt::Dec> decs;
    // identity in a batch
    u64  index = 0;
};
struct Outcome {
    bool viol; char cls[40]; char msg[400];
    u64  hash, inter;
    bool nontrivial;
    u32  nops, nallocs;
    bool inconclusive;
};
AdapterInfo* find_adapter(std::string const& name);
std::string case_text(Case const& c);
bool case_parse(std::string const& text, Case& c);
std::string ops_text(Case const& c);

void run_case(Case const& c, Outcome& o, std::vector<rt::Dec>* decs_out);
bool gen_case(std::string const& prop, u64 seed, u64 index, bool thorough, Case& c);
u64  class_mask_ok(std::string const& prop, const char* cls); // does this class of violation break this property?

// oracle entry points (return by rt::set_fail)
struct OracleIn {
    Case const* c; AdapterInfo const* a; bool any_crash; u32 nodes0; // nodes the container started with
    bool faults_exc;
};
extern bool wf_measuring;
void measure_solo(); // before any wait-freedom check; deterministic
void check_history(OracleIn const& in, Outcome& o);

struct Rng {
    u64 s;
    explicit Rng(u64 x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 3; i++) next(); }
    u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    u32 below(u32 n) { return n ? (u32)((next() >> 32) * n >> 32) : 0; }
    u32 in(u32 a, u32 b) { return a + below(b - a + 1); }
    bool p(double x) { return (next() >> 11) * (1.0 / 9007199254740992.0) < x; }
    template <class T> T const& pick(std::vector<T> const& v) { return v[below((u32)v.size())]; }
};
