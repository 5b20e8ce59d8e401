#!/usr/bin/env python3
"""Validates planted changes in a scratch copy: seed.py ID... [--no-check] [--props C01,C02]
Applies seeded/ID/patch.diff, builds, runs the stable tests, the demonstration (before and after), then the property's check."""
import sys, os, json, subprocess, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = "/tmp/sw"; R = W + "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def setup():
    os.makedirs(W, exist_ok=True)
    if not os.path.exists(W + "/h"):
        shutil.copytree("/opt/vp/harness", W + "/h")
        sh("sed -i 's#/repo#%s#g; s#H=/opt/vp/harness#H=%s/h#' %s/h/*.sh %s/h/*.py; grep -rl /repo %s/h | xargs sed -i 's#/repo#%s#g'" % (R, W, W, W, W, R)) if False else sh("sed -i 's#/repo#%s#g; s#H=/opt/vp/harness#H=%s/h#' %s/h/*.sh %s/h/*.py" % (R, W, W, W))
    if not os.path.exists(R): sh("git clone -q /repo " + R)
    sh("cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD" % R)
def build():
    r = sh(". %s/h/env.sh; build_tests && build_demos" % W); return r.returncode == 0, r.stdout[-1500:]
def tests():
    r = sh(". %s/h/env.sh; python3 %s/h/run_cases.py %s/_build/results.txt" % (W, W, R)); 
    got = dict((l.split(" ", 1)[1].strip(), l.split(" ", 1)[0]) for l in open(R + "/_build/results.txt"))
    return [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if got.get(t) != "PASS"]
def demo(d):
    t = "/tmp/sw/demo"; shutil.rmtree(t, ignore_errors=True); shutil.copytree(d, t, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    try: r = subprocess.run(["bash", t + "/demo.sh"], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300); return r.returncode, r.stdout[-300:]
    except subprocess.TimeoutExpired: return 124, "timeout"
ids = [a for a in sys.argv[1:] if not a.startswith("--")]; nocheck = "--no-check" in sys.argv
setup(); ok, o = build(); assert ok, o
base = {}
for i in ids:
    d = "%s/seeded/%s" % (V, i); base[i] = demo(d)
for i in ids:
    d = "%s/seeded/%s" % (V, i); m = json.load(open(d + "/meta.json")); res = [i, m["property"]]
    if base[i][0]: print(i, "BAD demo fails on unchanged tree:", base[i]); continue
    a = sh("git -C %s apply %s/patch.diff" % (R, d))
    if a.returncode: print(i, "BAD does not apply:", a.stdout); continue
    try:
        ok, o = build()
        if not ok: print(i, "BAD does not build:", o); continue
        bad = tests(); rc, out = demo(d)
        print(i, m["property"], "tests", "ok" if not bad else "FAIL %s" % bad[:3], "demo", "ok(%d)" % rc if rc else "BAD passes", flush=True)
        if nocheck: continue
        for p in m["property"].split(","):
            t = time.time(); c = sh("GMLIB_REPO=%s timeout 880 python3 %s/run.py %s --tier quick" % (R, V, p)); v = "VIOLATION property=%s" % p in c.stdout
            print("   ", i, p, "CAUGHT" if c.returncode == 1 and v else "MISSED rc=%d %s" % (c.returncode, c.stdout[-200:]), "%.0fs" % (time.time() - t), [l.strip()[:130] for l in c.stdout.splitlines() if l.startswith("  ")][:2], flush=True)
    finally: sh("git -C %s checkout -q -- ." % R)
