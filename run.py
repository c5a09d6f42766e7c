#!/usr/bin/env python3
"""Driver: builds the exploration programs of one property from /repo's working
tree, runs them, merges their reports into evidence/<ID>.json and prints the
verdict.  usage: run.py <ID> [--tier quick|thorough] [--replay FILE] [--keep]"""
import sys, os, json, subprocess, time, shutil, tempfile, fnmatch, signal, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = REPO + "/libdiskpp"
CXX = os.environ.get("VERIF_CXX", "g++")
JOBS = os.cpu_count() or 8
INCS = ["-I" + HERE + "/lib", "-I" + LIB + "/include", "-I" + LIB + "/contrib/jburkardt/include",
        "-I" + LIB + "/contrib/triangle", "-isystem", "/usr/include/eigen3", "-I/usr/include/lua5.4"]
CXXFLAGS = ["-std=c++20", "-O1", "-g0", "-w", "-fpermissive", "-D_GLIBCXX_ASSERTIONS",
            "-fno-math-errno", "-pipe"]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def opts_of(src):
    """per-program options: '// MC: key=value' lines at the top of the source."""
    o = {"libs": "", "flags": "", "cpu": "400", "shards": "1"}
    with open(src) as f:
        for ln in f:
            if ln.startswith("// MC:"):
                k, v = ln[6:].strip().split("=", 1)
                o[k.strip()] = v.strip()
            elif not ln.startswith("//"):
                break
    return o

def known_findings(prop):
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("known:"):
                # known: property=<id> key=<glob> scenario=<glob> :: <what fails>
                head, what = ln[6:].split("::", 1)
                d = dict(t.split("=", 1) for t in head.split())
                if d["property"] == prop:
                    res.append((d["key"], d["scenario"], what.strip()))
    return res

def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    keep = "--keep" in args
    if "--tier" in args: tier = args[args.index("--tier") + 1]
    if "--replay" in args: replay = json.load(open(args[args.index("--replay") + 1]))
    onlyprog = args[args.index("--prog") + 1] if "--prog" in args else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    cdir = os.path.join(HERE, "checks", prop)
    meta = json.load(open(os.path.join(cdir, "check.json")))
    srcs = sorted(f for f in os.listdir(cdir) if f.endswith(".cpp"))
    if replay: srcs = [replay["program"].split(".")[0] + ".cpp"]
    if onlyprog: srcs = [onlyprog + ".cpp"]
    base = os.environ.get("VERIF_SCRATCH") or None
    scratch = tempfile.mkdtemp(prefix="mc-%s-" % prop, dir=base)
    os.chmod(scratch, 0o755)
    try:
        return go(prop, tier, seed, replay, cdir, meta, srcs, scratch, t0)
    finally:
        if keep: print("scratch:", scratch)
        else: shutil.rmtree(scratch, ignore_errors=True)

def build_lib(name, scratch):
    """compiles a library of /repo into one relocatable archive; returns link args"""
    out = os.path.join(scratch, "lib" + name + ".a")
    if name == "jburkardt":
        d = LIB + "/contrib/jburkardt/src"
        files = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cpp")]
    elif name == "triangle":
        files = [LIB + "/contrib/triangle/triangle_mesher.c"]
    elif name == "common":
        d = LIB + "/src/common"
        files = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cpp")]
    else:
        raise SystemExit("unknown lib " + name)
    objs = []
    def one(f):
        o = os.path.join(scratch, name + "_" + os.path.basename(f) + ".o")
        if f.endswith(".c"):
            c = ["gcc", "-O1", "-w", "-DTRILIBRARY", "-DREDUCED", "-DCDT_ONLY", "-c", f, "-o", o]
        else:
            c = [CXX] + CXXFLAGS + INCS + ["-c", f, "-o", o]
        r = sh(c)
        return (o, r)
    with ThreadPoolExecutor(JOBS) as ex:
        for o, r in ex.map(one, files):
            if r.returncode:
                print(r.stdout[-3000:]); raise SystemExit(2)
            objs.append(o)
    r = sh(["ar", "rcs", out] + objs)
    if r.returncode: print(r.stdout); raise SystemExit(2)
    return out

def go(prop, tier, seed, replay, cdir, meta, srcs, scratch, t0):
    need = set()
    for s in srcs:
        for l in opts_of(os.path.join(cdir, s))["libs"].split(): need.add(l)
    libs = {}
    locks = {}
    ex = ThreadPoolExecutor(JOBS)
    libf = {l: ex.submit(build_lib, l, scratch) for l in sorted(need) if l in ("jburkardt", "triangle", "common")}
    def compile(s):
        src = os.path.join(cdir, s)
        o = opts_of(src)
        obj = os.path.join(scratch, s + ".o")
        r = sh([CXX] + CXXFLAGS + o["flags"].split() + INCS + ["-c", src, "-o", obj])
        return s, obj, o, r
    comp = [ex.submit(compile, s) for s in srcs]
    progs = []
    for f in comp:
        s, obj, o, r = f.result()
        if r.returncode:
            print("BUILD FAILED for", s); print(r.stdout[-4000:]); return 2
        progs.append((s, obj, o))
    for l, f in libf.items(): libs[l] = f.result()
    runs = []
    for s, obj, o in progs:
        exe = os.path.join(scratch, s[:-4] + ".exe")
        link = [libs[l] if l in libs else "-l" + l for l in o["libs"].split()]
        r = sh([CXX] + o["flags"].split() + [obj, "-o", exe] + link)
        if r.returncode:
            print("LINK FAILED for", s); print(r.stdout[-4000:]); return 2
        n = 1 if replay else int(o["shards"])
        for i in range(n): runs.append((s[:-4] + ("" if n == 1 else ".%d" % i), exe, o, "%d/%d" % (i, n)))
    tb = time.time()
    def execute(job):
        name, exe, o, part = job
        out = os.path.join(scratch, name + ".json")
        wd = os.path.join(scratch, name + ".wd"); os.makedirs(wd, exist_ok=True)
        cmd = [exe, "--out", out, "--seed", str(seed)]
        if tier == "thorough": cmd.append("--thorough")
        if not part.endswith("/1"): cmd += ["--shard", part]
        if replay: cmd += ["--only", replay["scenario"]]
        cpu = int(o["cpu"]) * (6 if tier == "thorough" else 1)
        def lim():
            import resource
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        env = dict(os.environ, OMP_NUM_THREADS="1", MC_SCRATCH=wd)
        t = time.time()
        p = subprocess.run(cmd, cwd=wd, env=env, preexec_fn=lim, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, errors="replace")
        return name, out, p, time.time() - t
    res = []
    with ThreadPoolExecutor(JOBS) as ex2:
        for r in ex2.map(execute, runs): res.append(r)
    ex.shutdown()
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "programs_run": {}}
    viols = []
    for name, out, p, dt in res:
        if p.returncode == 0 and os.path.exists(out):
            d = json.load(open(out))
            cov["states"] += d["states"]; cov["transitions"] += d["transitions"]
            cov["traces_validated_against_impl"] += d["traces"]
            cov["samples"] += [name + ": " + s for s in d["samples"][:3]]
            cov["programs_run"][name] = dict(d["counters"], states=d["states"], transitions=d["transitions"],
                                             scenarios=d["scenarios"], wall_s=round(dt, 2))
            for v in d["violations"]: viols.append(dict(v, program=name))
        else:
            scen = "?"
            try: scen = open(out + ".progress", "rb").read().split(b"\0")[0].decode(errors="replace")
            except OSError: pass
            if p.returncode < 0:
                sig = -p.returncode
                why = "hang: CPU limit exceeded" if sig in (signal.SIGXCPU, signal.SIGKILL) else \
                      "crash: signal %d" % sig
                if sig == signal.SIGKILL:
                    print("program", name, "killed (out of resources?) in scenario", scen); return 3
                err = (p.stderr or "").strip().splitlines()
                viols.append({"program": name, "key": "crash" if sig != signal.SIGXCPU else "hang",
                              "scenario": scen, "detail": why + " " + (" | ".join(err[-3:]))[-600:]})
            else:
                print("program", name, "ended with", p.returncode, "in", scen, (p.stderr or "")[-800:]); return 3
    kf = known_findings(prop)
    rep, known = [], {}
    for v in viols:
        for key, sc, what in kf:
            if fnmatch.fnmatchcase(v["key"], key) and fnmatch.fnmatchcase(v["scenario"], sc):
                known.setdefault(what, []).append(v); break
        else:
            rep.append(v)
    for what in known: print("KNOWN-FINDING: property=%s %s" % (prop, what))
    rdir = os.path.join(HERE, "evidence", "replay")
    if rep: os.makedirs(rdir, exist_ok=True)
    for i, v in enumerate(rep[:10]):
        path = os.path.join(rdir, "%s-%d.json" % (prop, i))
        json.dump(dict(v, property=prop, tier=tier), open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("   [%s] %s :: %s :: %s" % (v["program"], v["key"], v["scenario"], v["detail"][:300]))
    if len(rep) > 10:
        print("   ... and %d more; by kind:" % (len(rep) - 10))
        kinds = {}
        for v in rep: kinds.setdefault((v["program"], v["key"]), []).append(v)
        for (p, k), l in sorted(kinds.items())[:40]:
            print("   %3d x [%s] %s e.g. %s :: %s" % (len(l), p, k, l[0]["scenario"], l[0]["detail"][:160]))
    cov["exhaustive"] = bool(meta.get("exhaustive", True))
    cov["bounds"] = meta.get("bounds_thorough", meta.get("bounds", "")) if tier == "thorough" else meta.get("bounds", "")
    cov["binding"] = meta.get("binding", "the enumerated executions are executions of /repo's own code, compiled from the working tree by this run; the reference model is evaluated on every one of them")
    cov["known_findings_seen"] = sorted(known)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(rep)}
    if not replay:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d states, %d transitions, %d scenarios on the real code, %d violations, build %.1fs, total %.1fs" % (
        prop, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], len(rep), tb - t0, time.time() - t0))
    for n, d in cov["programs_run"].items(): print("   ", n, d)
    return 1 if rep else 0

if __name__ == "__main__":
    sys.exit(main())
