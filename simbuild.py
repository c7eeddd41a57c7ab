#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree. Content-addressed, so an unchanged tree is not rebuilt."""
import fcntl, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
BUILD = os.path.join(HERE, "build")
REPO = os.environ.get("LOCKFREE_REPO", "/repo")
INC = os.path.join(REPO, "include")

# Instrumentation only: every memory access of the code under test calls into sim/rt.cpp; libtsan is not linked.
ADAPTER = ["-std=gnu++17", "-O1", "-g1", "-w", "-I" + INC, "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0",
           "-fsanitize-coverage=trace-pc", "-ftrivial-auto-var-init=pattern", "-fno-lifetime-dse"]
ADAPTERS = {
    "a_queue": [], "a_stack": [], "a_spsc": [],
    "a_queue_weak": ["-DNDEBUG"], "a_stack_weak": ["-DNDEBUG"], "a_spsc_weak": ["-DNDEBUG"],
    "a_dcas": ["-mcx16"], "a_offset": [],
}
DRIVER = ["rt", "exec", "oracle", "gen", "main"]
REDEF = {
    "memcpy": "sim_memcpy", "memmove": "sim_memmove", "memset": "sim_memset", "posix_memalign": "sim_posix_memalign",
    "aligned_alloc": "sim_aligned_alloc", "malloc": "sim_malloc", "free": "sim_free",
    "_Znwm": "sim_new", "_Znam": "sim_new_arr", "_ZnwmSt11align_val_t": "sim_new_al", "_ZdlPv": "sim_delete", "_ZdaPv": "sim_delete_arr", "_ZdlPvm": "sim_delete_sz",
    "_ZdlPvSt11align_val_t": "sim_delete_al", "_ZdlPvmSt11align_val_t": "sim_delete_sz_al",
    "__assert_fail": "sim_assert_fail", "pthread_mutex_lock": "sim_mutex_lock", "pthread_mutex_trylock": "sim_mutex_trylock",
    "pthread_mutex_unlock": "sim_mutex_unlock", "__cxa_guard_acquire": "sim_guard_acquire", "__cxa_guard_release": "sim_guard_release", "__cxa_guard_abort": "sim_guard_abort", "sched_yield": "sim_yield", "nanosleep": "sim_sleep",
}

def digest():
    h = hashlib.sha256()
    files = []
    for root in (INC, SIM):
        for d, dn, fn in os.walk(root):
            dn.sort()
            files += [os.path.join(d, f) for f in sorted(fn)]
    for f in files + [os.path.abspath(__file__)]:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read() + b"\0")
    return h.hexdigest()[:20]

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))

def build(verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    key = digest()
    out = os.path.join(BUILD, "sim-" + key)
    exe = os.path.join(out, "sim")
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            os.utime(out)
            return exe
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        def adapter(n):
            o = os.path.join(tmp, n + ".o"); d = os.path.join(tmp, n + ".d")
            # own namespace name per object: flags differ, template instantiations must not be merged by the linker
            run(["g++"] + ADAPTER + ADAPTERS[n] + ["-Dlockfree=lockfree_" + n] + ["-MD", "-MF", d, "-c", os.path.join(SIM, n + ".cpp"), "-o", o])
            # the containers must come from the tree under test, not from an installed Boost
            bad = [w for w in open(d).read().split() if "/boost/lockfree" in w and not w.startswith(INC)]
            if bad:
                raise RuntimeError("%s picked up foreign headers: %s" % (n, bad[:3]))
            run(["objcopy"] + ["--redefine-sym=%s=%s" % kv for kv in REDEF.items()] + [o])
        cache = os.path.join(BUILD, "driver")
        def driver(n): # depends on /verif/sim only
            o = os.path.join(tmp, n + ".o")
            run(["g++", "-std=gnu++17", "-O2", "-g1", "-w", "-c", os.path.join(SIM, n + ".cpp"), "-o", o])
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            fs = [ex.submit(adapter, n) for n in ADAPTERS] + [ex.submit(driver, n) for n in DRIVER]
            for f in fs:
                f.result()
        objs = [os.path.join(tmp, n + ".o") for n in list(ADAPTERS) + DRIVER]
        run(["g++", "-no-pie", "-Wl,-T," + os.path.join(SIM, "statics.ld"), "-o", os.path.join(tmp, "sim")] + objs + ["-lpthread", "-latomic"])
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        for f in os.listdir(out):
            if f.endswith(".o") and os.environ.get("KEEP_OBJ") is None or f.endswith(".d"):
                os.unlink(os.path.join(out, f))
        old = sorted((d for d in os.listdir(BUILD) if d.startswith("sim-") and d != os.path.basename(out)),
                     key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        for d in old[:-3]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    return exe

if __name__ == "__main__":
    print(build())
