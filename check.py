#!/usr/bin/env python3
"""Builds the simulator and the code of /repo's working tree, explores, writes evidence.

  check.py <property> [--tier quick|thorough]   decide one property
  check.py --setup                              build everything
  check.py --replay <file> [--trace]            replay a recorded violation
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
OUT = os.path.join(HERE, "out")
SRC = os.path.join(REPO, "src")
sys.path.insert(0, os.path.join(HERE, "tools"))
from groups import GROUPS, PROPS        # noqa: E402

CXX = "g++"
BASE = ["-g1", "-std=gnu++17", "-fPIC", "-pthread", "-w"]
INSTR = BASE + ["-O1", "-fno-semantic-interposition", "-fno-lifetime-dse", "-fsanitize=thread", "--param", "tsan-distinguish-volatile=1",
                "--param", "tsan-instrument-func-entry-exit=0", "-D_GLIBCXX_ASSERTIONS", "-DFALCON_ENGINE_EXPORTS"]
RT = BASE + ["-O2", "-fno-builtin", "-fno-tree-loop-distribute-patterns"]
DRV = BASE + ["-O1"]


class BuildError(Exception):
    pass


def read(p):
    with open(p, "rb") as f:
        return f.read()


def digest(paths, extra=b""):
    h = hashlib.sha256(extra)
    for p in sorted(paths):
        h.update(p.encode() + b"\0" + read(p) + b"\0")
    return h.hexdigest()[:24]


def files(*dirs):
    out = []
    for d in dirs:
        for r, _, fs in os.walk(d):
            out += [os.path.join(r, f) for f in fs]
    return out


def config_dir():
    """config.h as the project's own cmake makes it, in a directory of our own"""
    ins = files(os.path.join(REPO, "cmake")) + glob.glob(REPO + "/src/include/falcon/*.in") + [REPO + "/CMakeLists.txt"]
    d = os.path.join(BUILD, "config-" + digest(ins))
    inc = os.path.join(d, "include")
    if not os.path.exists(os.path.join(inc, "falcon", "config.h")):
        tmp = tempfile.mkdtemp(dir=BUILD)
        r = subprocess.run(["cmake", "-S", REPO, "-B", tmp, "-G", "Ninja", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-Wno-dev"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env={k: v for k, v in os.environ.items() if k not in ("CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS")})
        hs = [f for f in files(tmp) if f.endswith("falcon/config.h")]
        if r.returncode or not hs:
            raise BuildError("cmake cannot configure the project:\n" + r.stdout.decode(errors="replace"))
        os.makedirs(os.path.join(inc, "falcon"), exist_ok=True)
        shutil.copy(hs[0], os.path.join(inc, "falcon", "config.h"))
        shutil.rmtree(tmp)
    return inc


def compile_one(src, flags, deps_digest):
    key = hashlib.sha256(("\0".join([src] + flags) + deps_digest).encode() + read(src)).hexdigest()[:32]
    obj = os.path.join(BUILD, "obj", os.path.basename(src) + "-" + key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("cannot compile %s:\n%s" % (src, r.stdout.decode(errors="replace")[:6000]))
        os.rename(tmp, obj)
    return obj


def build(group):
    """returns the path of the group's simulation program"""
    g = GROUPS[group]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    inc = config_dir()
    simh = digest(glob.glob(HERE + "/sim/*.h"))
    scenh = digest(glob.glob(HERE + "/sim/*.h") + glob.glob(HERE + "/scen/*.h"))
    repoh = digest(files(os.path.join(SRC, "include")) + [f for f in files(os.path.join(SRC, "engine"), os.path.join(SRC, "fut")) if not f.endswith((".cpp", ".c++"))] + files(inc))
    incs = ["-I" + os.path.join(SRC, "include"), "-I" + inc, "-I" + SRC]
    jobs = []
    for v in [g] + g.get("variants", []):
        for s in sorted(set(sum((glob.glob(os.path.join(SRC, p)) for p in v["repo"]), []))):
            fl = list(INSTR) + v.get("defs", []) + incs
            if s.endswith(".c++"):
                fl += ["-x", "c++"]
            jobs.append((s, fl, repoh))
        for s in v["scen"]:
            jobs.append((os.path.join(HERE, "scen", s), INSTR + v.get("defs", []) + incs, repoh + scenh))
    n_instr = len(jobs)
    jobs.append((os.path.join(HERE, "sim", "driver.cpp"), DRV, simh))
    jobs.append((os.path.join(HERE, "sim", "rt.cpp"), RT, simh))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    exe = os.path.join(BUILD, group + "-" + hashlib.sha256("\0".join(objs).encode()).hexdigest()[:24])
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX, "-pie", "-rdynamic", "-o", tmp] + objs + ["-ldl", "-pthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("cannot link %s:\n%s" % (group, r.stdout.decode(errors="replace")[:6000]))
        os.rename(tmp, exe)
    return exe


def prune():
    """old objects and programs would fill the disk"""
    for d, keep in ((BUILD, 40), (os.path.join(BUILD, "obj"), 300)):
        fs = sorted((f for f in glob.glob(d + "/*") if os.path.isfile(f)), key=os.path.getmtime, reverse=True)
        for f in fs[keep:]:
            try:
                os.unlink(f)
            except OSError:
                pass


def known(prop):
    """(description, pattern) of the listed findings of a property"""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(3), m.group(2)))
    return out


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        for g in GROUPS:
            print(g, build(g), flush=True)
        return 0
    if a and a[0] == "--replay":
        prop = re.search(r"^property (\S+)", open(a[1]).read(), re.M).group(1)
        exe = build(PROPS[prop]["group"])
        return subprocess.run([exe, "--replay", a[1]] + a[2:]).returncode
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    t0 = time.time()
    try:
        exe = build(cfg["group"])
    except BuildError as e:
        print("ERROR: " + str(e), file=sys.stderr)
        return 2
    tb = time.time() - t0
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    secs, runs = (cfg.get("thorough_s", 420), 100_000_000) if tier == "thorough" else (cfg.get("quick_s", 22), cfg.get("quick_runs", 1_000_000))
    secs = float(os.environ.get("SIM_SECONDS", secs))
    workers = os.cpu_count() or 8
    cmd = [exe, "--prop", prop, "--seed", str(seed), "--time", str(secs), "--runs", str(min(runs, 20_000_000)), "--workers", str(workers), "--out", OUT, "--tier", "1" if tier == "thorough" else "0"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE)
    line = [x for x in r.stdout.decode(errors="replace").splitlines() if x.startswith("{")]
    if r.returncode not in (0, 1) or not line:
        print("ERROR: the simulation of %s gave no verdict (status %s)" % (prop, r.returncode), file=sys.stderr)
        sys.stdout.write(r.stdout.decode(errors="replace"))
        return 2
    j = json.loads(line[-1])
    wall = time.time() - t0
    hours = max(j["seconds"], 1e-3) / 3600.0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": j["violations"],
        "coverage": {
            "evaluations": j["runs"],
            "distinct_nontrivial": j["distinct"],
            "rule": "one evaluation is one simulated execution of a generated program (operations, sizes, memory fill, clock rate) under a seeded schedule and fault sequence; "
                    "two count as distinct if the 64-bit hashes of their complete event sequences (kind and thread of every memory access, synchronisation, clock reading, fault and context switch) differ; "
                    "non-trivial means the oracle judged at least one outcome and the run had a preemption, an injected fault or more than two context switches",
            "samples": j["samples"],
            "runs_per_hour": int(j["runs"] / hours), "seeds_per_hour": int(j["runs"] / hours),
            "simulated_seconds": j["simulated_seconds"], "events": j["events"], "longest_run_events": j["max_events"],
            "context_switches": j["switches"], "preemptions": j["preemptions"],
            "checked_outcomes": j["obligations"], "runs_with_injected_fault": j["runs_with_fault"],
            "faults": j["faults"], "probes": j["probes"],
            "determinism_checks": j["determinism_checks"],
            "real_components": cfg["real"], "stub_components": cfg["stub"],
            "build_s": round(tb, 2), "exploration_s": round(j["seconds"], 2),
        },
        "assumptions": [
            "sequentially consistent interleavings at the granularity of compiler-visible accesses; weaker memory behaviour only through the happens-before race detector",
            "the interposed functions (threads, locks, clocks, sleeping, allocation, files under /sim/) behave as the simulator's models of them",
        ] + cfg.get("assume", []),
    }
    rc = 0
    if j["violations"]:
        text = j["class"] + ": " + j["message"]
        print(text)
        ev["coverage"]["violation"] = text
        ev["coverage"]["replay"] = j["replay"]
        print("VIOLATION property=%s replay=%s" % (prop, j["replay"]))
        rc = 1
    else:
        print("property %s held in %d simulated runs (%d distinct and non-trivial, %d checked outcomes, %.0f simulated s) in %.1f s" % (prop, j["runs"], j["distinct"], j["obligations"], j["simulated_seconds"], wall))
    for d, _ in known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, d))
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    prune()
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except BuildError as e:
        print("ERROR: " + str(e), file=sys.stderr)
        sys.exit(2)
