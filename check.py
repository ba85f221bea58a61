#!/usr/bin/env python3
"""Build and run one deterministic simulation check.

  check.py <ID>                      run the check (VERIF_SEED, VERIF_TIER from the environment)
  check.py <ID> --replay FILE        replay a recorded violation
  check.py --build [HARNESS...]      only build
"""
import fcntl, glob, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
SRC = os.path.join(REPO, "src")

WRAPS = """openat __openat_2 mkdir remove unlinkat stat lstat fdopendir readdir closedir dirfd open open64 close read write lseek lseek64 fstat fstat64 flock isatty ioctl ftruncate fsync futimens
clock_gettime time gettimeofday
pthread_create pthread_join pthread_detach pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast
pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock
sched_yield nanosleep clock_nanosleep __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort""".split()

# harness -> sources (in harness/), archon libraries (link order), link libraries, extra wraps
from harness_list import HARNESSES, CHECKS

BASE = "-std=c++20 -g0 -fsanitize=address -fno-omit-frame-pointer -w"
INC = f"-I{os.path.join(HERE, 'sim', 'config')} -I{SRC} -I/usr/include/freetype2 -I/usr/include/SDL2"
ARCHON_FLAGS = f"{BASE} -O1 -fsanitize-coverage=trace-pc -fconstexpr-ops-limit=100000000 {INC}"
# For code that runs in several threads: also stores to memory are preemption points, such that updates that are not atomic,
# and not protected by a lock, can be lost. GCC does not offer this kind of instrumentation.
STORES_FLAGS = ARCHON_FLAGS.replace("-fconstexpr-ops-limit", "-fconstexpr-steps").replace("=trace-pc", "=trace-pc,trace-stores")
SIM_FLAGS = f"{BASE} -O2 -I{os.path.join(HERE, 'sim')}"
HARNESS_INC = f"-I{os.path.join(HERE, 'sim')} -I{os.path.join(HERE, 'harness')}"


def lib_sources(lib):
    r = []
    for pat in ("*.cpp", "impl/*.cpp", "impl/*/*.cpp", "noinst/*.cpp", "noinst/*/*.cpp"):
        for p in sorted(glob.glob(os.path.join(SRC, "archon", lib, pat))):
            b = os.path.basename(p)
            if b == "test.cpp":
                continue
            r.append(p)
    return r


def write_ninja():
    os.makedirs(BUILD, exist_ok=True)
    esc = lambda s: s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")
    out = ["ninja_required_version = 1.5", "cxx = g++",
           "rule cxx\n command = $cxx $flags -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n description = CXX $in",
           "rule ar\n command = rm -f $out && ar rcs $out $in\n description = AR $out",
           # a copy of a C library that allocates through the simulator
           "rule simlib\n command = objcopy --redefine-sym malloc=sim_malloc --redefine-sym free=sim_free"
           " --redefine-sym calloc=sim_calloc --redefine-sym realloc=sim_realloc $in $out\n description = OBJCOPY $out",
           "rule link\n command = g++ -fsanitize=address -static-libstdc++ -no-pie $wraps -o $out $in $libs\n description = LINK $out"]
    simobjs = []
    for f in sorted(glob.glob(os.path.join(HERE, "sim", "*.cpp"))):
        o = os.path.join(BUILD, "sim", os.path.basename(f)[:-4] + ".o")
        out.append(f"build {esc(o)}: cxx {esc(f)}\n flags = {SIM_FLAGS}")
        simobjs.append(o)
    libs = {}
    variant = lambda h: "lib-stores" if h.get("stores") else "lib"
    needed = sorted({(l, variant(h)) for h in HARNESSES.values() for l in h["archon"]})
    vflags = {"lib": f" flags = {ARCHON_FLAGS}", "lib-stores": f" cxx = clang++\n flags = {STORES_FLAGS}"}
    for lib, var in needed:
        objs = []
        for f in lib_sources(lib):
            rel = os.path.relpath(f, SRC)
            o = os.path.join(BUILD, var, rel[:-4] + ".o")
            out.append(f"build {esc(o)}: cxx {esc(f)}\n{vflags[var]}")
            objs.append(o)
        a = os.path.join(BUILD, var, f"lib{lib}.a")
        out.append(f"build {esc(a)}: ar {' '.join(map(esc, objs))}")
        libs[lib, var] = a
    simlibs = {}
    for l in sorted({l for h in HARNESSES.values() for l in h.get("simlibs", [])}):
        src = subprocess.run(["g++", f"-print-file-name={l}"], stdout=subprocess.PIPE, text=True).stdout.strip()
        a = os.path.join(BUILD, "lib", "sim_" + l)
        out.append(f"build {esc(a)}: simlib {esc(src)}")
        simlibs[l] = a
    for name, h in HARNESSES.items():
        objs = []
        for s in h["sources"]:
            f = os.path.join(HERE, "harness", s)
            o = os.path.join(BUILD, "harness", name, os.path.basename(s)[:-4] + ".o")
            out.append(f"build {esc(o)}: cxx {esc(f)}\n{vflags[variant(h)]} {HARNESS_INC} {h.get('flags', '')}")
            objs.append(o)
        wraps = " ".join("-Wl,--wrap=" + w for w in WRAPS + h.get("wraps", []))
        exe = os.path.join(BUILD, "bin", name)
        archs = [libs[l, variant(h)] for l in h["archon"]] + [simlibs[l] for l in h.get("simlibs", [])]
        out.append(f"build {esc(exe)}: link {' '.join(map(esc, objs + simobjs + archs))}\n wraps = {wraps}\n"
                   f" libs = {h.get('libs', '')} -lpthread")
        out.append(f"build {name}: phony {esc(exe)}")
    text = "\n".join(out) + "\n"
    p = os.path.join(BUILD, "build.ninja")
    old = open(p).read() if os.path.exists(p) else None
    if old != text:
        with open(p, "w") as f:
            f.write(text)


def build(targets):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        write_ninja()
        r = subprocess.run(["ninja", "-C", BUILD, "-j", str(max(2, os.cpu_count() or 2))] + targets,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stdout.write(r.stdout[-6000:])
            print("BUILD FAILED")
            return False
    return True


def load_known(prop):
    """known findings: lines `known: property=<id> key=<key> <text>` (and `fixed: ...`, which suppress nothing)"""
    r = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                parts = line.split(None, 3)
                if parts[1] == f"property={prop}" and parts[2].startswith("key="):
                    r[parts[2][4:]] = parts[3] if len(parts) > 3 else ""
    return r


def main():
    args = sys.argv[1:]
    if args and args[0] == "--build":
        return 0 if build(args[1:] or list(HARNESSES)) else 3
    prop = args[0]
    spec = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    opt = {}
    i = 1
    while i < len(args):
        opt[args[i].lstrip("-")] = args[i + 1]
        i += 2
    if "tier" in opt:
        tier = opt["tier"]
    t0 = time.time()
    if not build([spec["harness"]]):
        return 3
    t_build = time.time() - t0
    exe = os.path.join(BUILD, "bin", spec["harness"])
    work = os.path.join(BUILD, "work", f"{prop}-{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    env = dict(os.environ)
    for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "LD_PRELOAD"):
        env.pop(k, None)
    env["LC_ALL"] = env["LANG"] = "C.UTF-8"
    env["TZ"] = "UTC"
    try:
        if "replay" in opt:
            opt["replay"] = os.path.abspath(opt["replay"])
            r = subprocess.run([exe, "--property", prop, "--work", work, "--replay", opt["replay"]], env=env, cwd=work,
                               stdout=subprocess.PIPE, text=True)
            sys.stdout.write(r.stdout)
            if r.returncode == 1:
                print(f"VIOLATION property={prop} replay={opt['replay']}")
            return r.returncode
        budget = float(opt.get("budget", spec["quick_s"] if tier == "quick" else spec["thorough_s"]))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
        res = os.path.join(work, "result.json")
        replay = os.path.join(BUILD, "replay", f"{prop}-seed{seed}.json")
        if os.path.exists(replay):
            os.remove(replay)
        cmd = [exe, "--property", prop, "--seed", str(seed), "--tier", tier, "--budget", str(budget), "--work", work,
               "--out", res, "--replay-out", replay, "--jobs", str(opt.get("jobs", max(1, min(8, os.cpu_count() or 1))))]
        if "max-runs" in opt:
            cmd += ["--max-runs", opt["max-runs"]]
        if "only" in opt:
            cmd += ["--only", opt["only"]]
        known = load_known(prop)
        for k in known:
            cmd += ["--known", k]
        r = subprocess.run(cmd, env=env, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode not in (0, 1) or not os.path.exists(res):
            sys.stdout.write(r.stdout[-5000:])
            print(f"CHECK ERROR property={prop} status={r.returncode}")
            return 3
        d = json.load(open(res))
        v = d.get("violation")
        counters = d["counters"]
        faults = {k[6:]: n for k, n in counters.items() if k.startswith("fault.")}
        probes = {k[6:]: n for k, n in counters.items() if k.startswith("probe.")}
        other = {k: n for k, n in counters.items() if not k.startswith(("fault.", "probe."))}
        search = max(d["search_s"], 1e-6)
        ev = dict(property=prop, tier=tier, seed=seed, level=spec.get("level", "exploration"),
                  coverage=dict(
                      evaluations=d["runs"], distinct_nontrivial=d["distinct"],
                      rule=d.get("rule", "") + " Runs are counted as distinct by a hash over the event log (every choice, "
                           "generated operation, simulated system call, fault, thread switch and observed result); runs with fewer than three events are trivial and not counted.",
                      samples=d["samples"] or [json.dumps(v)],
                      simulated_runs_per_hour=round(d["runs"] / search * 3600),
                      seeds_per_hour=round(d["runs"] / search * 3600),
                      search_seconds=round(search, 2),
                      simulated_seconds_covered=round(d["simulated_ns"] / 1e9, 3),
                      faults_injected=faults, probes=probes, counters=other,
                      abstract_states_reached=d["states"],
                      basic_block_hashes_reached=d["block_coverage"],
                      basic_blocks_executed=d["blocks"],
                      thread_switches=d["switches"],
                      determinism=dict(runs_repeated_in_fresh_processes=d["determinism_rechecked"],
                                       mismatches=d["determinism_mismatches"]),
                      scenarios=d["scenarios"], components_real=d.get("real", []), components_stubbed=d.get("stubs", []),
                      known_findings_hit=d["known"], build_seconds=round(t_build, 1)),
                  assumptions=spec.get("assumptions", []),
                  wall_s=round(time.time() - t0, 2), violations=1 if v else 0)
        with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in d["known"]:
            print(f"KNOWN-FINDING: property={prop} {k} {known.get(k, '')}")
        print(f"{prop}: {d['runs']} runs, {d['distinct']} distinct, {search:.1f} s search, build {t_build:.0f} s; "
              f"faults {faults}; probes {probes} {other}")
        if v:
            print(f"[{v['key']}] {v['message'][:1500]}")
            print(f"VIOLATION property={prop} replay={replay}")
            return 1
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
