#!/usr/bin/env python3
"""Runs the check of one property.

  run.py <property> [--tier quick|thorough] [--replay FILE] [--keep]

Builds the library (in the configurations the check asks for) and the harness from
/repo's current working tree, runs the exhaustive enumeration, writes
evidence/<property>.json, and exits 0 (held on everything explored) or 1 with a
VIOLATION line. Anything else is an error of the check, not a verdict.
"""
import sys, os, json, time, hashlib, subprocess, glob, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GMLIB_REPO", "/repo")
BUILD = os.path.join(V, "build")
sys.path.insert(0, V)
import checks as C
JOBS = 8

class Infra(Exception): pass

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:32]

def tree_digest(root, pats):
    h = hashlib.sha256()
    for pat in pats:
        for f in sorted(glob.glob(os.path.join(root, pat), recursive=True)):
            if os.path.isfile(f):
                h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

def compile_cached(cmd, out_ext, key):
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, key + out_ext)
    if os.path.exists(out):
        os.utime(out); return out
    tmp = out + ".tmp%d" % os.getpid() + out_ext
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Infra("compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    os.replace(tmp, out)
    return out

def build_unit(u, pool, inc_digest, har_digest):
    cfg = C.CONFIGS[u["cfg"]]
    cxx = u.get("cxx", "g++")
    base = ["-std=c++17", "-w", "-I" + os.path.join(V, "harness")]
    for i in u.get("inc_first", []): base = ["-I" + os.path.join(V, i)] + base
    base += ["-I" + os.path.join(REPO, "include")]
    lib_flags = cfg["flags"] + u.get("lib_flags", [])
    opt = u.get("opt", ["-O2"])
    futs = []
    srcs = []
    for pat in u["src"]:
        fs = sorted(glob.glob(os.path.join(REPO, "src", pat)))
        if not fs and "*" not in pat: raise Infra("source not found: src/" + pat)
        srcs += fs
    for s in srcs:
        cmd = [cxx] + opt + base + lib_flags + ["-c", s]
        key = sha(" ".join(cmd), inc_digest, har_digest if u.get("inc_first") else "", open(s, "rb").read())
        futs.append(pool.submit(compile_cached, cmd, ".o", key))
    hflags = cfg["flags"] + u.get("flags", [])
    for extra in [u["harness"]] + u.get("extra", []):
        hs = os.path.join(V, "harness", extra)
        cmd = [cxx] + u.get("hopt", opt) + base + hflags + ["-c", hs]
        key = sha(" ".join(cmd), inc_digest, har_digest)
        futs.append(pool.submit(compile_cached, cmd, ".o", key))
    return futs

def link_unit(u, futs):
    objs = [f.result() for f in futs]
    link = [u.get("cxx", "g++")] + objs + u.get("link", []) + ["-lpthread"]
    return compile_cached(link, ".exe", sha(" ".join(link)))

def known_findings(prop):
    res = {}
    p = os.path.join(V, "known_findings.txt")
    for line in open(p):
        line = line.strip()
        if line.startswith("known: "):
            f = dict(x.split("=", 1) for x in line[7:].split(" ", 2)[:2])
            if f["property"] == prop: res[f["key"]] = line.split(" ", 3)[3]
    return res

def run_harness(exe, u, tier, out, only=None, work=None):
    cmd = [exe, "--out", out, "--workers", str(u.get("workers", JOBS))] + u.get("args", [])
    if tier == "thorough": cmd.append("--thorough")
    if only: cmd += ["--only", only]
    env = dict(os.environ); env.update(u.get("env", {}))
    if work: env.update(MC_WORK=work, MC_UNIT=uname(u))
    log = out + ".log"
    with open(log, "w") as lf:
        r = subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env, cwd="/tmp")
    if r.returncode == 3: # a worker was lost to the environment: what was observed before counts if it comes again alone
        try: d = json.load(open(out))
        except Exception: d = dict(violations=[])
        d["violations"] = [v for v in d["violations"] if v["key"] not in TIMED + ("crash", "killed")]
        if d["violations"]: return d
    if r.returncode not in (0,):
        raise Infra("harness %s ended with %d: %s" % (u["harness"], r.returncode, open(log, errors="replace").read()[-2000:]))
    try:
        return json.load(open(out))
    except Exception as e:
        raise Infra("harness output unreadable: %s" % e)

def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick"); replay = None
    while args:
        a = args.pop(0)
        if a == "--tier": tier = args.pop(0)
        elif a == "--replay": replay = args.pop(0)
        elif a == "--build-only": os.environ["MC_BUILD_ONLY"] = "1"
        else: raise SystemExit("unknown argument " + a)
    chk = C.CHECKS[prop]
    t0 = time.time()
    units = [u for u in chk["units"] if tier == "thorough" or not u.get("thorough_only")]
    rp = None
    if replay:
        rp = json.load(open(replay)); tier = rp["tier"]; units = [u for u in chk["units"] if uname(u) == rp["unit"] or (chk.get("post") and (tier == "thorough" or not u.get("thorough_only")))]
    work = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        return run(prop, chk, units, tier, rp, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)

TIMED = ("hang", "threads do not finish")
def uname(u): return u.get("name", os.path.splitext(u["harness"])[0] + "-" + u["cfg"])

def run(prop, chk, units, tier, rp, work, t0):
    inc_digest = tree_digest(os.path.join(REPO, "include"), ["**/*"])
    har_digest = tree_digest(os.path.join(V, "harness"), ["**/*"])
    with ThreadPoolExecutor(JOBS) as pool:
        futs = [build_unit(u, pool, inc_digest, har_digest) for u in units]
        exes = list(map(link_unit, units, futs))
    tb = time.time() - t0
    if os.environ.get("MC_BUILD_ONLY"):
        for u, e in zip(units, exes): print(uname(u), e)
        return 0
    known = known_findings(prop)
    tot = dict(evaluations=0, transitions=0, traces=0, states=0, items=0)
    samples, per_unit, viols, knownhit = [], {}, [], {}
    exhaustive = True
    bad = lambda r: any(v["key"] not in known for v in r["violations"])
    stop = []
    def first_run(ue):
        u, exe = ue
        if stop: return None # a violation is decided: the other units are not needed
        r = run_harness(exe, u, tier, os.path.join(work, uname(u) + ".json"), rp["only"] if rp else None, work)
        # a verdict that rests on elapsed time alone (a stalled machine looks like a hang) must come again when its case is
        # run alone; otherwise the unit is run again from the start
        new = [v for v in r["violations"] if v["key"] not in known]
        if new and not rp and all(v["key"] in TIMED for v in new):
            again = run_harness(exe, u, tier, os.path.join(work, uname(u) + "-alone.json"), "%s:%d" % (new[0]["scenario"], new[0]["item"]))
            if any(v["key"] == new[0]["key"] for v in again["violations"]): r["alone"] = "%s:%d" % (new[0]["scenario"], new[0]["item"])
            else:
                print("note: %s stalled in %s and is run again" % (uname(u), new[0]["scenario"]))
                r = run_harness(exe, u, tier, os.path.join(work, uname(u) + ".json"), None, work)
        if bad(r): stop.append(1)
        return r
    with ThreadPoolExecutor(chk.get("par", 2)) as pool:
        results = list(pool.map(first_run, zip(units, exes)))
    confirmed = 0
    for u, exe, r in zip(units, exes, results):
        name = uname(u)
        if r is None: continue
        for k in tot: tot[k] += r[k]
        samples += [name + " " + s for s in r["samples"]]
        per_unit[name] = dict(items=r["items"], done=r["done"], evaluations=r["evaluations"], transitions=r["transitions"],
                              executions=r["traces"], distinct=r["states"], wall_s=r["wall"], scenarios=r["scenarios"])
        uv = []
        for v in r["violations"]:
            if v["key"] in known: knownhit.setdefault(v["key"], []).append((name, v))
            else: uv.append(v)
        if not uv and r["done"] != r["items"] and not rp:
            raise Infra("%s: only %d of %d items completed" % (name, r["done"], r["items"]))
        if r["violations"]: exhaustive = exhaustive and not uv
        # confirm each kind of violation once, alone
        seen = set()
        for v in uv:
            only = "%s:%d" % (v["scenario"], v["item"])
            if (v["key"], v["scenario"]) in seen: continue
            seen.add((v["key"], v["scenario"]))
            if len(seen) > 4 or confirmed >= 2: break
            if not rp and r.get("alone") != only:
                c = run_harness(exe, u, tier, os.path.join(work, "confirm.json"), only)
                if not any(x["key"] == v["key"] for x in c["violations"]):
                    if v["key"] == "hang" or r["infra"]: raise Infra("%s not reproduced: " % v["key"] + only)
                    only = None # depends on what ran before in the same process: replay the whole unit
            confirmed += 1
            viols.append(dict(property=prop, unit=name, tier=tier, only=only, key=v["key"], at=v["at"], msg=v["msg"], scenario=v["scenario"], item=v["item"]))
    # aggregate evidence
    lvl = chk["level"]
    cov = {}
    # cross-config transcript comparison and the like
    if chk.get("post") and not viols and not stop:
        extra = [dict(v, property=prop, tier=tier) for v in chk["post"](per_unit, work, tot)]
        viols += extra
    if lvl == "model_checking":
        cov = dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["traces"])
    else:
        cov = dict(evaluations=tot["evaluations"], distinct_nontrivial=tot["states"], rule=chk["rule"])
    cov["samples"] = samples[:40]
    cov["exhaustive"] = bool(exhaustive and not viols)
    cov["bounds"] = chk.get("bounds", "")
    cov["per_unit"] = per_unit
    cov["known_findings_seen"] = sorted(knownhit)
    cov["build_s"] = round(tb, 1)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=lvl, coverage=cov,
              assumptions=chk.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viols))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    if not rp:
        p = os.path.join(V, "evidence", prop + ".json")
        with open(p + ".tmp", "w") as f: json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
    for k in sorted(knownhit):
        print("KNOWN-FINDING: property=%s key=%s %s" % (prop, k, known[k]))
    if not rp:
        for k in known:
            if k not in knownhit: print("note: listed known finding %s did not occur" % k)
    for i, v in enumerate(viols):
        d = os.path.join(V, "evidence", "replay"); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (prop, i))
        if not rp: json.dump(v, open(path, "w"), indent=1)
        print("  %s %s[%s] at: %s" % (v["unit"], v["scenario"], v["item"], v["at"]))
        print("  %s: %s" % (v["key"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if not viols:
        print("OK property=%s tier=%s items=%d evaluations=%d states=%d transitions=%d executions=%d build=%.1fs wall=%.1fs" % (
            prop, tier, tot["items"], tot["evaluations"], tot["states"], tot["transitions"], tot["traces"], tb, time.time() - t0))
    return 1 if viols else 0

if __name__ == "__main__":
    try:
        rc = main()
    except Infra as e:
        print("ERROR: %s" % e); rc = 2
    sys.exit(rc)
