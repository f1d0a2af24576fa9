"""P26: all declaration programs within bounds, generated, compiled against the library, bound and looked up"""
import os, re, time, json, shutil, subprocess, hashlib, itertools
from concurrent.futures import ThreadPoolExecutor

PRIM = list("ZBCSIJFD")
SYNTAX = {"jnivm": 0, "fake": 1}

class Case:
    def __init__(self, family, text, ops, baron=False):
        self.family, self.text, self.ops, self.baron = family, text, ops, baron
        # What has to be found afterwards
        self.expect = []
        seen = set()
        for op, cls, name, sig in ops:
            e = {"class": "c", "static": "s", "method": "m", "sfield": "S", "field": "f", "native": "n"}[op]
            for k in [("c", cls, "", ""), (e, cls, name, sig)]:
                if k not in seen:
                    seen.add(k)
                    self.expect.append(k)
            for x in re.findall("L([^;]*);", sig):
                if op != "native" and ("c", x, "", "") not in seen:
                    seen.add(("c", x, "", ""))
                    self.expect.append(("c", x, "", ""))
        for cls in [e[1] for e in self.expect if e[0] == "c"]: # With their outer classes
            base = cls.rfind("/") + 1
            for m in re.finditer(r"\$", cls[base:]):
                k = ("c", cls[:base + m.start()], "", "")
                if k not in seen:
                    seen.add(k)
                    self.expect.append(k)

def types(own, other, nested):
    """All kinds of types"""
    t = [(p, p) for p in PRIM]
    for n, c in (("Str", "java/lang/String"), ("Obj", "java/lang/Object"), ("Cls", "java/lang/Class"), ("Thr", "java/lang/Throwable"),
                 ("Weak", "java/lang/ref/WeakReference"), ("Meth", "java/lang/reflect/Method"), ("Fld", "java/lang/reflect/Field"),
                 ("Buf", "java/nio/ByteBuffer"), ("Glob", "internal/lang/Global"), ("Own", own), ("Oth", other), ("Nest", nested), ("Def", "Default" + re.sub(r"\W", "_", own))):
        t.append((n, "L%s;" % c))
    t += [("A" + n, "[" + s) for n, s in t if n not in ("Weak", "Meth", "Fld", "Buf", "Glob")]
    t += [("AA" + n, "[[" + s) for n, s in t if n in ("I", "Z", "Str", "Own", "Oth", "Nest")]
    t += [("AAAA" + n, "[[[[" + s) for n, s in t if n in ("D", "Obj", "Own")]
    return t

def enumerate_cases(tier):
    deep = tier == "thorough"
    cases = []
    no = [0]
    def pkg():
        no[0] += 1
        return "t%d" % no[0]
    # Every type in every place
    n = len(types("a", "b", "c"))
    for i in range(n):
        for other_first in (False, True):
            p = pkg()
            own, other, nested = p + "/K", p + ("/A" if other_first else "/Z"), p + "/K$N"
            name, s = types(own, other, nested)[i]
            ops = []
            if other_first:
                ops.append(("class", other, "", ""))
            ops += [("sfield", own, "sf", s), ("field", own, "f", s), ("static", own, "sr", "()" + s), ("method", own, "mr", "()" + s),
                    ("static", own, "sp", "(%s)V" % s), ("method", own, "mp", "(%s)V" % s), ("method", own, "<init>", "(%s)V" % s)]
            if other_first and name not in ("Oth", "AOth", "AAOth") and not deep:
                continue
            cases.append(Case("types", "%s in every place" % s, ops))
    # All pairs and triples of parameters
    def small(p):
        return ["I", "J", "Ljava/lang/String;", "L%s/K;" % p, "[I", "[L%s/K;" % p, "D", "Z"]
    for a in range(8):
        p = pkg()
        ops = []
        for b in range(8):
            s = small(p)
            ops += [("static", p + "/K", "s%d" % b, "(%s%s)%s" % (s[a], s[b], s[(a + b) % 8])), ("method", p + "/K", "m%d" % b, "(%s%s)%s" % (s[a], s[b], s[(a * 3 + b) % 8])),
                    ("method", p + "/K", "<init>", "(%s%s)V" % (s[a], s[b]))]
        cases.append(Case("pairs", "pairs starting with " + small(p)[a], ops))
    # Lists of parameters
    p = pkg()
    ops = []
    for l in list(range(0, 10)) + [16, 17, 32, 33] + ([64, 65, 128] if deep else []):
        s = small(p)
        sig = "".join(s[(l + i * 3) % 8] for i in range(l))
        ops += [("static", p + "/K", "s%d" % l, "(%s)V" % sig), ("method", p + "/K", "m%d" % l, "(%s)I" % sig), ("method", p + "/K", "<init>", "(%s)V" % sig)]
    cases.append(Case("lists", "parameter lists", ops))
    # All subsets of members, in all positions of the class
    kinds = [("static", "sm", "(I)I"), ("method", "im", "(J)J"), ("sfield", "sf", "I"), ("field", "f", "J"), ("method", "<init>", "(I)V"), ("native", "nat", "()V")]
    positions = ["T%(n)d", "%(p)s/K", "%(p)s/q/r/K", "T%(n)d$N", "%(p)s/K$N", "%(p)s/K$N$M"]
    for pos in range(len(positions)):
        for sub in range(1 << len(kinds)):
            if not deep and pos not in (1, 4) and bin(sub).count("1") not in (0, 1, len(kinds)):
                continue
            p = pkg()
            c = positions[pos] % {"n": no[0], "p": p}
            ops = [("class", c, "", "")] + [(k[0], c, k[1], k[2]) for j, k in enumerate(kinds) if sub & (1 << j)]
            cases.append(Case("subsets", "members %d of a class %s" % (sub, c), ops, baron=(sub % 3 == 1)))
    # All orders of short histories over two classes and a nested one
    p0 = "P"
    alphabet = [("class", "%s/A", "", ""), ("class", "%s/B$N", "", ""), ("method", "%s/A", "am", "(L%s/B;)L%s/A;"), ("field", "%s/B", "bf", "L%s/A;"),
                ("sfield", "%s/B$N", "nf", "L%s/B$N;"), ("static", "%s/B", "bm", "([L%s/C;I)V"), ("method", "%s/B$N", "<init>", "(L%s/B;)V"), ("native", "%s/A", "an", "(L%s/D;)V"),
                ("class", "[L%s/E;", "", ""), ("class", "%s/q/A", "", "")]
    for l in range(0, (4 if deep else 3)):
        for h in itertools.product(range(len(alphabet)), repeat=l):
            if len(set(h)) < l and l > 2:
                continue
            p = pkg()
            ops = [tuple(x.replace("%s", p) for x in alphabet[k]) for k in h]
            cs = Case("histories", "history " + " ".join(map(str, h)), ops, baron=(sum(h) % 2 == 1))
            cs.expect = [e for e in cs.expect if not e[1].startswith("[")]
            cases.append(cs)
    # Sizes
    for l in ([9, 33] if not deep else [9, 17, 33, 65, 129]):
        p = pkg()
        cases.append(Case("sizes", "%d classes" % l, [("class", "%s/K%d" % (p, i), "", "") for i in range(l)]))
        p = pkg()
        cases.append(Case("sizes", "%d packages" % l, [("class", "%s/q%d/K" % (p, i), "", "") for i in range(l)]))
        p = pkg()
        cases.append(Case("sizes", "%d nested classes" % l, [("class", "%s/K$N%d" % (p, i), "", "") for i in range(l)]))
        p = pkg()
        cases.append(Case("sizes", "%d members" % l, [(["static", "method", "sfield", "field"][i % 4], p + "/K", "x%d" % i, "()V" if i % 4 < 2 else "I") for i in range(l)]))
        p = pkg()
        cases.append(Case("sizes", "package of depth %d" % l, [("class", p + "/" + "/".join("q%d" % i for i in range(l)) + "/K", "", "")]))
        p = pkg()
        cases.append(Case("sizes", "class nested %d deep" % l, [("class", p + "/K" + "".join("$N%d" % i for i in range(l)), "", "")]))
        p = pkg()
        cases.append(Case("sizes", "array of depth %d" % l, [("field", p + "/K", "f", "[" * min(l, 33) + "L%s/K;" % p)]))
    return cases

def weight(c):
    return 6 + sum(1 for e in c.expect if e[0] != "c") * 3 + len(c.expect)

def run(m, prop, tier, c):
    t0 = time.time()
    cases = enumerate_cases(tier)
    work = os.path.join(m.BUILD, "p26-work-%d" % os.getpid())
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        return run2(m, prop, tier, c, cases, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def sh(cmd, timeout=600):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)

def batch(m, work, syntax, cfg, name, idx, cases, objs, opt="-O0"):
    """Compiles and runs the cases together, returns what failed: (case or None, message)"""
    d = os.path.join(work, syntax)
    src = os.path.join(d, name + ".cpp")
    with open(src, "w") as f:
        if syntax == "fake":
            f.write("#define GENERATED_FAKE\n")
        for i in idx:
            f.write('#define InitJNIBinding InitJNIBinding_%d\n#include "%d.inc"\n#undef InitJNIBinding\n' % (i, i))
        f.write('#include "verify.hpp"\nint main() {\n')
        for i in idx:
            f.write("    { static const Expected x[] = {%s{0, 0, 0, 0}};\n    verify(%d, InitJNIBinding_%d, x, %d); }\n" % (
                "".join("{'%s', \"%s\", \"%s\", \"%s\"}, " % e for e in cases[i].expect), i, i, len(cases[i].expect)))
        f.write("    return failures ? 1 : 0;\n}\n")
    exe = os.path.join(d, name)
    r = sh(["g++", "-std=c++17", opt] + m.BASE + m.CFG[cfg] + ["-I" + os.path.join(m.REPO, "include"), "-I" + os.path.join(m.VERIF, "checks/p26"), "-I" + d, src] + objs + ["-o", exe, "-pthread", "-ldl"])
    if r.returncode:
        return [(None, "generated code does not compile:\n" + r.stdout[:3000])]
    r = sh([exe], 120)
    bad = []
    for l in r.stdout.splitlines():
        if l.startswith("FAILED "):
            bad.append((int(l.split()[1]), "not as recorded after binding: " + l))
    if r.returncode not in (0, 1) or (r.returncode and not bad):
        bad.append((None, "binding ended with %d\n%s" % (r.returncode, r.stdout[-2000:])))
    os.remove(exe)
    return bad

def run2(m, prop, tier, c, cases, work, t0):
    failed = None
    runs = []
    nbatch = 16 if tier == "quick" else 64
    jobs = []
    for syntax, cfg in (("jnivm", "nonzero"), ("fake", "fake")):
        d, lj, objs = m.lib_jobs(cfg, "plain")
        drv = os.path.join(d, "p26-driver-" + m.file_hash([os.path.join(m.VERIF, "checks/p26/driver.cpp")])[:12])
        with ThreadPoolExecutor(m.JOBS) as p:
            list(p.map(m.compile_one, lj + [(["g++", "-std=c++17"] + m.flags(cfg, "plain") + ["-c", os.path.join(m.VERIF, "checks/p26/driver.cpp")], drv + ".o")]))
        m.compile_one((["g++", drv + ".o"] + objs + ["-pthread", "-ldl"], drv))
        sd = os.path.join(work, syntax)
        os.makedirs(sd)
        with open(os.path.join(sd, "input"), "w") as f:
            for i, cs in enumerate(cases):
                f.write("case %d%s\n" % (i, " baron" if cs.baron and syntax == "fake" else ""))
                for op in cs.ops:
                    f.write(" ".join(op).rstrip() + "\n")
        r = sh([drv, os.path.join(sd, "input"), sd])
        if r.returncode:
            failed = failed or dict(syntax=syntax, case=None, message="generating ended with %d\n%s" % (r.returncode, r.stdout[-2000:]))
            continue
        # Empty lines only: every case must have been generated
        order = sorted(range(len(cases)), key=lambda i: -weight(cases[i]))
        groups = [[] for _ in range(nbatch)]
        load = [0] * nbatch
        for i in order:
            k = load.index(min(load))
            groups[k].append(i)
            load[k] += weight(cases[i])
        for k, g in enumerate(groups):
            if g:
                jobs.append((syntax, cfg, k, sorted(g), objs))
    m.prune()
    tb = time.time()
    if not failed:
        with ThreadPoolExecutor(m.JOBS) as p:
            res = list(p.map(lambda j: batch(m, work, j[0], j[1], "b%d" % j[2], j[3], cases, j[4]), jobs))
        for j, bad in zip(jobs, res):
            if not bad:
                continue
            i, msg = bad[0]
            if i is None: # Find the first case that fails alone
                with ThreadPoolExecutor(m.JOBS) as p:
                    def one(x):
                        b = batch(m, work, j[0], j[1], "s%d" % x, [x], cases, j[4])
                        return (x, b[0][1]) if b else None
                    first = [x for x in p.map(one, j[3]) if x]
                if first:
                    i, msg = first[0]
            failed = dict(syntax=j[0], case=i, message=msg)
            break
    lookups = sum(len(x.expect) for x in cases)
    cov = {"states": len(cases), "transitions": 2 * sum(len(x.ops) for x in cases), "traces_validated_against_impl": 2 * len(cases), "exhaustive": not failed,
           "programs": len(cases), "lookups_after_binding": 2 * lookups, "families": {f: sum(1 for x in cases if x.family == f) for f in dict.fromkeys(x.family for x in cases)},
           "samples": [{"program": [" ".join(o).strip() for o in x.ops][:8], "family": x.family} for x in cases[5:len(cases):max(1, len(cases) // 5)]][:6],
           "build_s": round(tb - t0, 1), "bounds": c["bounds"]}
    m.write_evidence(prop, tier, "model_checking", cov, c["assumptions"], time.time() - t0, 1 if failed else 0)
    if failed:
        i = failed["case"]
        v = {"property": prop, "tier": tier, "key": "generated code", "syntax": failed["syntax"], "message": failed["message"],
             "trace": "\n".join(" ".join(o) for o in cases[i].ops) if i is not None else "", "case": i,
             "program": cases[i].text if i is not None else None}
        m.report(prop, v)
        return 1
    print("%s: held on %d programs in both syntaxes, %d lookups after binding (%.1f s, build %.1f s)" % (prop, len(cases), 2 * lookups, time.time() - t0, tb - t0))
    return 0

def replay(m, v):
    cases = enumerate_cases(v["tier"])
    work = os.path.join(m.BUILD, "p26-work-%d" % os.getpid())
    os.makedirs(work)
    try:
        import checks_table
        return run2(m, v["property"], v["tier"], checks_table.CHECKS[v["property"]], [cases[v["case"]]] if v["case"] is not None else cases, work, time.time())
    finally:
        shutil.rmtree(work, ignore_errors=True)
