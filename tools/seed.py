#!/usr/bin/env python3
"""Try planted bugs: seed.py [--no-check] [--tests] ID...   (default: all)
For each /verif/seeded/<id>: in a scratch copy of /repo, demo on the unchanged tree, apply, build, stable tests, demo
with the patch, and the property's quick check (SIM_REPO=scratch). Prints one line per bug."""
import json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
nocheck = "--no-check" in sys.argv; norepo = "--check-only" in sys.argv
ids = args or sorted(os.listdir(V + "/seeded"))
W = tempfile.mkdtemp(prefix="seedwork", dir="/tmp"); R = W + "/repo"
def sh(cmd, **k): return subprocess.run(cmd, capture_output=True, text=True, errors="replace", **k)
def build():
    s = open("/opt/vp/build.sh").read().replace("/repo", R); return sh(["bash", "-c", s])
def tests():
    s = open("/opt/vp/run_fut.py").read().replace('"/repo/_build"', f'"{R}/_build"'); open(W + "/rf.py", "w").write(s)
    sh(["python3", W + "/rf.py", W + "/fut.lines"])
    got = {l[5:].strip() for l in open(W + "/fut.lines") if l.startswith("PASS ")}; bad = {l[5:].strip() for l in open(W + "/fut.lines") if l.startswith("FAIL ")}
    base = json.load(open("/opt/vp/BASELINE.json")); want = base["stable"]
    want = {x if isinstance(x, str) else x.get("id") for x in want}
    return sorted(w for w in want if w not in got)
def demo(d):
    t = time.time()
    try: r = sh(["bash", d + "/demo.sh"], cwd=R, timeout=300); return r.returncode, time.time() - t, (r.stdout + r.stderr)[-300:]
    except subprocess.TimeoutExpired: return "timeout", 300, ""
try:
    sh(["git", "clone", "-q", "/repo", R]); b = build()
    if b.returncode: print("base build failed", b.stderr[-500:]); sys.exit(1)
    for i in ids:
        d = f"{V}/seeded/{i}"; meta = json.load(open(d + "/meta.json")); prop = meta["property"]; res = []
        if not norepo:
            c, t, o = demo(d); res.append(f"clean {'ok' if c == 0 else 'FAILS(%s)' % c} {t:.0f}s"); 
            if c: print("   demo:", o)
        # original lines changed?
        p = open(d + "/patch.diff").read(); orig = 0; f = None
        for l in p.splitlines():
            if l.startswith("--- a/"): f = l[6:]
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
            if m: n = int(m[1]); 
            elif l.startswith("-") and not l.startswith("---") and not re.match(r"-\s*(//|/?\*|$)", l):
                bl = sh(["git", "blame", "-s", "-L", f"{n},{n}", "--", f], cwd=R).stdout
                h = bl.split()[0].lstrip("^")
                if h and not sh(["git", "log", "-1", "--format=%s", h], cwd=R).stdout.startswith("fix:"): orig += 1
                n += 1
            elif l.startswith(" ") or (l.startswith("-") and not l.startswith("---")): n += 1
        if not orig: res.append("NO ORIGINAL LINE")
        a = sh(["git", "apply", d + "/patch.diff"], cwd=R)
        if a.returncode: print(i, "PATCH DOES NOT APPLY", a.stderr); continue
        if not norepo:
            b = build()
            if b.returncode: print(i, "DOES NOT BUILD", (b.stdout + b.stderr)[-1500:]); sh(["git", "checkout", "-q", "--", "."], cwd=R); continue
            bad = tests(); res.append("tests ok" if not bad else f"TESTS FAIL {bad}")
            c, t, o = demo(d); res.append(f"demo {'DOES NOT FAIL' if c == 0 else 'fails (%s)' % c} {t:.0f}s")
        if not nocheck:
            t = time.time(); r = sh(["python3", V + "/check.py", prop], env=dict(os.environ, SIM_REPO=R, VERIF_SEED="1", VERIF_TIER="quick"), cwd=V)
            m = re.findall(r"VIOLATION property=(\S+)", r.stdout)
            msg = (r.stdout + r.stderr).strip().splitlines(); 
            res.append(("CAUGHT" if r.returncode == 1 and prop in m else f"MISSED(rc {r.returncode})") + f" {time.time()-t:.0f}s: " + " / ".join(x for x in msg if not x.startswith("VIOLATION"))[:160])
        print(f"{i} [{prop}]: " + "; ".join(res), flush=True)
        sh(["git", "checkout", "-q", "--", "."], cwd=R)
        if not norepo: build()
finally:
    shutil.rmtree(W, ignore_errors=True)
