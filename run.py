#!/usr/bin/env python3
"""Entry point of every check: builds /repo's working tree together with a harness, explores, reports.

  run.py setup
  run.py check Pxx [--tier quick|thorough]
  run.py replay FILE
  run.py all [--tier ...]        (all checks one after another, for development)
"""
import sys, os, json, hashlib, subprocess, time, glob, shutil, importlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
JOBS = os.cpu_count() or 4
sys.path.insert(0, os.path.join(VERIF, "tools"))

BASE = ["-DEnableJNIVMGC", "-DJNI_DEBUG", "-w", "-pthread", "-U_FORTIFY_SOURCE"]
# name -> (preprocessor configuration, code generation flags)
CFG = {
    "nonzero": ["-DJNI_RETURN_NON_ZERO", "-DJNIVM_FAKE_JNI_SYNTAX=0"],
    "zero": ["-DJNIVM_FAKE_JNI_SYNTAX=0"],
    "fake": ["-DJNI_RETURN_NON_ZERO", "-DJNIVM_FAKE_JNI_SYNTAX=1"],
    "trace": ["-DJNI_RETURN_NON_ZERO", "-DJNI_TRACE", "-DJNIVM_FAKE_JNI_SYNTAX=1"],
    "mcpelinux": ["-DJNI_RETURN_NON_ZERO", "-DJNIVM_FAKE_JNI_SYNTAX=1", "-DJNIVM_FAKE_JNI_MINECRAFT_LINUX_COMPAT"],
}
GEN = {
    "plain": ["-O1"],
    "asan": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer", "-isystem", os.path.join(VERIF, "mc/sched/include")],
}
DEEP = ("nonzero", "plain", True)
SEQ = [DEEP, ("trace", "asan", False)]
# Where the default return values matter
SEQ3 = SEQ + [("zero", "plain", False)]

class CheckError(Exception):
    pass

def sources():
    r = []
    for d in ("src/jnivm", "src/fake-jni", "src/baron"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            r += [os.path.join(root, f) for f in files if f.endswith((".cpp", ".cc", ".c"))]
    return sorted(r)

def tree_hash():
    h = hashlib.sha256()
    for d in ("include", "src/jnivm", "src/fake-jni", "src/baron"):
        for root, dirs, files in sorted(os.walk(os.path.join(REPO, d))):
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0")
                h.update(open(p, "rb").read())
    return h.hexdigest()

def file_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        h.update(open(p, "rb").read())
    return h.hexdigest()

def compile_one(job):
    cmd, out = job
    if os.path.exists(out):
        return
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError("compilation failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    os.rename(tmp, out)

def prune():
    """Keep the build cache small"""
    ds = sorted(glob.glob(BUILD + "/*-*"), key=os.path.getmtime)
    for d in ds[:-12]:
        shutil.rmtree(d, ignore_errors=True)

def flags(cfg, gen):
    return BASE + CFG[cfg] + GEN[gen] + ["-I" + os.path.join(REPO, "include")]

def lib_jobs(cfg, gen):
    key = hashlib.sha256((tree_hash() + repr(flags(cfg, gen)) + file_hash(support(gen))).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, "%s-%s-%s" % (cfg, gen, key))
    os.makedirs(d, exist_ok=True)
    jobs, objs = [], []
    for s in sources():
        o = os.path.join(d, os.path.relpath(s, REPO).replace("/", "_") + ".o")
        jobs.append((["g++", "-std=c++14"] + flags(cfg, gen) + ["-c", s], o))
        objs.append(o)
    return d, jobs, objs

def support(gen):
    if gen == "tsan":
        return sorted(glob.glob(VERIF + "/mc/sched/*.*") + glob.glob(VERIF + "/mc/sched/include/*/*"))
    return [VERIF + "/mc/explore.cpp", VERIF + "/mc/explore.hpp", VERIF + "/mc/jh.hpp"]

def build(prop, variants, src=None, extra_flags=(), extra_sources=()):
    """Returns one executable for each (configuration, code generation) variant"""
    src = src or os.path.join(VERIF, "checks", prop.lower() + ".cpp")
    hdrs = sorted(glob.glob(VERIF + "/checks/*/*.hpp") + glob.glob(VERIF + "/mc/*.hpp") + glob.glob(VERIF + "/checks/*.hpp") + glob.glob(VERIF + "/mc/sched/*.hpp"))
    jobs, links, exes = [], [], []
    first = []
    for cfg, gen in variants:
        d, lj, objs = lib_jobs(cfg, gen)
        hk = file_hash(hdrs + [src] + [x[0] if isinstance(x, tuple) else x for x in extra_sources])[:12] + hashlib.sha256(repr(extra_flags).encode()).hexdigest()[:4]
        ho = os.path.join(d, "%s-%s.o" % (prop, hk))
        std = ["-std=c++17"] + flags(cfg, gen) + ["-fno-access-control"] + list(extra_flags)
        first.append((["g++"] + std + ["-c", src], ho))
        ex = [ho]
        if gen == "tsan":
            so = os.path.join(d, "sched-%s.o" % file_hash(support(gen))[:12])
            first.append((["g++", "-std=c++17", "-O2", "-g1", "-w", "-pthread", "-U_FORTIFY_SOURCE", "-fno-builtin", "-fno-threadsafe-statics", "-c", VERIF + "/mc/sched/sched.cpp"], so))
            st = os.path.join(d, "strings-%s.o" % file_hash(support(gen))[:12])
            first.append((["g++", "-std=c++17"] + flags(cfg, gen) + ["-c", VERIF + "/mc/sched/strings.cpp"], st))
            ex += [so, st]
        else:
            eo = os.path.join(d, "explore-%s.o" % file_hash(support(gen))[:12])
            first.append((["g++", "-std=c++17"] + flags(cfg, gen) + ["-c", VERIF + "/mc/explore.cpp"], eo))
            ex.append(eo)
        for s in extra_sources:
            if isinstance(s, tuple):  # only for one configuration
                if s[1] != cfg:
                    continue
                s = s[0]
            o = os.path.join(d, os.path.basename(s) + "-" + hk + ".o")
            jobs.append((["g++"] + std + ["-c", s], o))
            ex.append(o)
        jobs += lj
        exe = os.path.join(d, "%s-%s" % (prop, hk))
        link = ["g++"] + [f for f in GEN[gen] if gen != "tsan" and f.startswith("-fsan")] + ex + objs + ["-pthread", "-ldl", "-rdynamic"]
        links.append((link, exe))
        exes.append(exe)
    with ThreadPoolExecutor(JOBS) as p:
        list(p.map(compile_one, first + jobs))
    with ThreadPoolExecutor(JOBS) as p:
        list(p.map(compile_one, links))
    prune()
    return exes

def known_findings(prop):
    r = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % prop):
                f = dict(x.split("=", 1) for x in l.split()[1:] if "=" in x)
                r.append((f.get("key"), l.strip()))
    return r

def write_evidence(prop, tier, level, coverage, assumptions, wall, violations):
    os.makedirs(EVID, exist_ok=True)
    e = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
         "coverage": coverage, "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}
    tmp = os.path.join(EVID, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(e, f, indent=1)
        f.write("\n")
    os.rename(tmp, os.path.join(EVID, prop + ".json"))

def report(prop, v):
    """Writes the replay file and prints the VIOLATION line"""
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    n = 0
    while os.path.exists(os.path.join(d, "%s-%d.json" % (prop, n))):
        n += 1
    p = os.path.join(d, "%s-%d.json" % (prop, n))
    with open(p, "w") as f:
        json.dump(v, f, indent=1)
        f.write("\n")
    print("%s: %s" % (prop, v.get("key")))
    print("  " + str(v.get("message", "")).strip().replace("\n", "\n  ")[:3000])
    if v.get("trace"):
        print("  trace:\n    " + v["trace"].strip().replace("\n", "\n    ")[-3000:])
    print("VIOLATION property=%s replay=%s" % (prop, p))
    sys.stdout.flush()

def run_harness(exe, tier, deep, out, extra=()):
    cmd = [exe, "--tier", tier, "--workers", str(JOBS), "--out", out] + ([] if deep else ["--shallow"]) + list(extra)
    if os.path.exists(out):
        os.remove(out)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode not in (0, 1) or not os.path.exists(out):
        raise CheckError("%s ended with %d\n%s" % (" ".join(cmd), r.returncode, r.stdout[-4000:]))
    return json.load(open(out))

def explore(prop, tier, variants, notes, src=None, level="model_checking", extra_flags=(), extra_sources=()):
    """The common shape: build all variants, run each exploration completely, merge the evidence"""
    t0 = time.time()
    exes = build(prop, [(c, g) for c, g, _ in variants], src, extra_flags, extra_sources)
    tb = time.time()
    known = known_findings(prop)
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "exhaustive": True, "runs": []}
    failed = None
    seen = set()
    for (cfg, gen, deep), exe in zip(variants, exes):
        out = exe + ".%s.json" % tier
        r = run_harness(exe, tier, deep, out)
        if r["violations"] and not r["violations"][0].get("reproduced", True):
            again = run_harness(exe, tier, deep, out)
            if not again["violations"]:
                raise CheckError("violation seen once only: %s" % json.dumps(r["violations"][0])[:3000])
            r = again
        for v in r["violations"]:
            k = [l for key, l in known if key == v["key"]]
            if k:
                if v["key"] not in seen:
                    seen.add(v["key"])
                    print("KNOWN-FINDING: property=%s %s" % (prop, k[0]))
                continue
            v.update({"property": prop, "variant": [cfg, gen, deep], "tier": tier,
                      "replay_cmd": "python3 run.py replay <this file>"})
            if not failed:
                failed = v
        cov["runs"].append({"configuration": cfg, "build": gen, "deep_bounds": deep, "wall_s": r["wall_s"],
                            **{k: r[k] for k in r if k not in ("violations", "samples", "wall_s", "scenarios")}})
        # States are those of the model, the same ones in every variant: the largest set counts
        cov["states"] = max(cov["states"], r["states"])
        cov["transitions"] += r["transitions"]
        cov["traces_validated_against_impl"] += r["executions"]
        if len(cov["samples"]) < 6:
            cov["samples"] += r["samples"][:3]
        cov["scenarios"] = r["scenarios"]
        if failed:
            break
    if failed:
        cov["exhaustive"] = False
    cov["build_s"] = round(tb - t0, 1)
    cov["bounds"] = notes["bounds"]
    write_evidence(prop, tier, level, cov, notes["assumptions"], time.time() - t0, 1 if failed else 0)
    if failed:
        report(prop, failed)
        return 1
    print("%s: held on %d executions, %d transitions, %d states (%.1f s, build %.1f s)" % (
        prop, cov["traces_validated_against_impl"], cov["transitions"], cov["states"], time.time() - t0, tb - t0))
    return 0

def sources_of(c):
    j = lambda x: os.path.join(VERIF, "checks", x)
    return [(j(x[0]), x[1]) if isinstance(x, tuple) else j(x) for x in c.get("sources", ())]

def check(prop, tier):
    import checks_table
    try:
        c = checks_table.CHECKS[prop]
        if "run" in c:
            return c["run"](sys.modules["__main__"], prop, tier, c)
        return explore(prop, tier, SEQ3 if c.get("variants") == "SEQ3" else c.get("variants", SEQ), c, extra_flags=c.get("flags", ()),
                       src=os.path.join(VERIF, "checks", c["src"]) if "src" in c else None,
                       extra_sources=sources_of(c))
    except CheckError as e:
        print("%s: error of the check: %s" % (prop, e))
        return 2

def replay(path):
    v = json.load(open(path))
    import checks_table
    c = checks_table.CHECKS[v["property"]]
    if "replay" in c:
        return c["replay"](sys.modules["__main__"], v)
    cfg, gen, deep = v["variant"]
    src = os.path.join(VERIF, "checks", c["src"]) if "src" in c else None
    exe, = build(v["property"], [(cfg, gen)], src, c.get("flags", ()),
                 sources_of(c))
    cmd = [exe, "--tier", v["tier"]] + ([] if deep else ["--shallow"]) + ["--replay", "%s:%s" % (v["scenario"], v["choices"])]
    return subprocess.run(cmd).returncode

def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    if a[0] == "setup":
        for t in ("g++", "python3"):
            if not shutil.which(t):
                print("missing tool", t)
                return 2
        return 0
    if a[0] == "check":
        return check(a[1], tier)
    if a[0] == "replay":
        return replay(a[1])
    if a[0] == "all":
        import checks_table
        bad = 0
        for p in (a[1:] or sorted(checks_table.CHECKS)):
            rc = subprocess.run([sys.executable, os.path.abspath(__file__), "check", p, "--tier", tier]).returncode
            if rc:
                print("%s: exit %d" % (p, rc))
                bad = 1
        return bad
    print(__doc__)
    return 2

if __name__ == "__main__":
    sys.exit(main())
