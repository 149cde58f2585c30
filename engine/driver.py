#!/usr/bin/env python3
"""Builds the real C++ code with symbolic instrumentation, explores it, replays
counterexamples, and writes evidence.  See DESIGN.md."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENG = os.path.join(VERIF, "engine")
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "RedshiftLibrary/src/lib")
CACHE = os.path.join(VERIF, ".cache")
Z3P = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
JOBS = os.cpu_count() or 8


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def filehash(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


_hh = None


def headers_hash():
    global _hh
    if _hh is None:
        fs = sorted(glob.glob(REPO + "/RedshiftLibrary/RedshiftLibrary/**/*.h", recursive=True))
        fs = [f for f in fs if "redshift_wrap" not in f]
        _hh = filehash(*fs)
    return _hh


class BuildError(Exception):
    pass


class Builder:
    def __init__(self, work):
        self.work = work
        os.makedirs(CACHE, exist_ok=True)
        self.version_dir = os.path.join(work, "gen")
        self.inc = ["-I" + REPO + "/RedshiftLibrary"]
        if not os.path.exists(REPO + "/RedshiftLibrary/RedshiftLibrary/version.h"):
            d = self.version_dir + "/RedshiftLibrary"
            os.makedirs(d, exist_ok=True)
            src = open(REPO + "/RedshiftLibrary/RedshiftLibrary/version.h.in").read()
            open(d + "/version.h", "w").write(re.sub(r"@[^@]*@", "0", src))
            self.inc.append("-I" + self.version_dir)
        self.base = ["-std=c++17", "-O1", "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize", "-w",
                     "-D_GLIBCXX_ASSERTIONS", "-DEIGEN_DONT_VECTORIZE", "-DVERIF_SYM", "-ffunction-sections",
                     "-fdata-sections", "-fno-math-errno"]
        self.sysinc = ["-isystem", "/usr/include/eigen3", "-I" + ENG]

    def cached(self, key, name, make):
        """make(outpath) -> (rc, log)"""
        out = os.path.join(CACHE, key[:32] + "-" + name)
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            r = make(tmp)
            if r.returncode != 0:
                raise BuildError("%s failed:\n%s" % (name, r.stdout[-4000:]))
            os.replace(tmp, out)
        return out

    def tools(self):
        def plug():
            k = filehash(ENG + "/SymPass.cpp")
            fl = [x for x in sh(["llvm-config-18", "--cxxflags"]).stdout.split() if x[:2] in ("-I", "-D")]
            return self.cached(k, "SymPass.so", lambda o: sh(["clang++", "-std=c++17", "-O1", "-fPIC", "-shared", "-fno-rtti", *fl, ENG + "/SymPass.cpp", "-o", o]))

        def rt():
            k = filehash(ENG + "/symrt.cpp")
            return self.cached(k, "symrt.o", lambda o: sh(["clang++", "-std=c++17", "-O2", "-w", "-I" + Z3P + "/include", "-c", ENG + "/symrt.cpp", "-o", o]))

        def pch():
            k = hashlib.sha256((filehash(ENG + "/pch.h") + " ".join(self.base)).encode()).hexdigest()
            return self.cached(k, "pch.pch", lambda o: sh(["clang++", *self.base, *self.sysinc, "-x", "c++-header", ENG + "/pch.h", "-o", o]))

        with cf.ThreadPoolExecutor(3) as ex:
            a, b, c = ex.submit(plug), ex.submit(rt), ex.submit(pch)
            self.plugin, self.rt, self.pch = a.result(), b.result(), c.result()

    def obj(self, path, defs=(), repo=True):
        key = hashlib.sha256("\0".join([filehash(path), headers_hash(), filehash(self.plugin, ENG + "/sym.h", *sorted(glob.glob(VERIF + "/harness/*.h"))) if not repo else filehash(self.plugin), " ".join(self.base), " ".join(defs)]).encode()).hexdigest()
        name = os.path.basename(path) + ".o"
        return self.cached(key, name, lambda o: sh(["clang++", *self.base, "-include-pch", self.pch, *self.inc, *self.sysinc, *defs, "-fpass-plugin=" + self.plugin, "-c", path, "-o", o]))

    def all_sources(self):
        return sorted(f for f in glob.glob(SRC + "/**/*.cpp", recursive=True) if "lbfgsbfitter" not in f)

    def link(self, objs, out):
        """gc-sections link; C functions of uninstrumented numeric libraries become traps"""
        traps = ()
        for _ in range(3):
            r = sh(["clang++", "-fuse-ld=bfd", *objs, *traps, self.rt, "-Wl,--gc-sections", "-L" + Z3P + "/lib", "-lz3", "-Wl,-rpath," + Z3P + "/lib",
                    "-lboost_filesystem", "-lboost_system", "-lboost_thread", "-lboost_chrono", "-lpthread", "-o", out])
            if r.returncode == 0:
                return r
            und = sorted(set(re.findall(r"undefined reference to `([^']*)'", r.stdout)))
            c = [u for u in und if re.match(r"(gsl|fftw|cblas|ff|fits)_?[a-z0-9_]*$", u)]
            if not c or len(c) != len(und):
                return r
            tc = out + ".traps.cpp"
            with open(tc, "w") as f:
                f.write('extern "C" { void __sym_trap(const char*);\n' + "".join('void %s(){__sym_trap("%s");}\n' % (u, u) if u != "gsl_multifit_fdfsolver_lmsder" else "void* %s;\n" % u for u in c) + "}\n")
            sh(["clang++", "-w", "-c", tc, "-o", tc + ".o"])
            traps = (tc + ".o",)
        return r

    def build(self, harness, srcs, defs, out):
        """srcs: list relative to SRC, or None for the whole library"""
        ex = cf.ThreadPoolExecutor(JOBS)

        def compile_many(rel):
            rel = [r for r in rel if os.path.exists(os.path.join(SRC, r))]
            fs = [ex.submit(self.obj, os.path.join(SRC, r)) for r in rel]
            return [f.result() for f in fs]

        h = ex.submit(self.obj, harness, tuple(defs), False)
        g = ex.submit(self.obj, ENG + "/gslmodel.cpp", (), False)
        allsrc = [os.path.relpath(s, SRC) for s in self.all_sources()]
        objs = compile_many(srcs if srcs is not None else allsrc)
        hobj, gobj = h.result(), g.result()
        ex.shutdown()
        r = self.link([hobj, gobj] + objs, out)
        if r.returncode != 0 and srcs is not None:
            if os.environ.get("VERIF_LOG"):
                print("link fallback to the whole library for", os.path.basename(harness))
            ex = cf.ThreadPoolExecutor(JOBS)
            objs = compile_many(allsrc)
            ex.shutdown()
            r = self.link([hobj, gobj] + objs, out)
            srcs = allsrc
        if r.returncode != 0:
            raise BuildError("link failed:\n" + r.stdout[-4000:])
        return out


def parse_harness(path):
    """directives:  //@ src: a.cpp b.cpp    //@ quick: key=val ...   //@ thorough: ...
    //@ cover: label  (must be reached)   //@ bounds: text   //@ assumes: text"""
    d = {"src": [], "quick": [], "thorough": [], "cover": [], "bounds": [], "assumes": [], "quantity": []}
    for line in open(path):
        m = re.match(r"(?://|#)@\s*(\w+):\s*(.*)", line)
        if m:
            k, v = m.group(1), m.group(2).strip()
            if k in ("quick", "thorough"):
                d[k].append(dict(t.split("=", 1) for t in v.split()))
            elif k in ("bounds", "assumes"):
                d[k].append(v)
            else:
                d[k].extend(v.split())
    return d


def run_sym(exe, outdir, cfg, known=()):
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    env = dict(os.environ, OPENBLAS_NUM_THREADS="1", SYM_KNOWN="\n".join(known))
    for k, e in (("deadline", "SYM_DEADLINE"), ("rlimit", "SYM_RLIMIT"), ("fp", "SYM_FP"), ("pathsec", "SYM_PATHSEC"), ("jobs", "SYM_JOBS"), ("samples", "SYM_SAMPLES"), ("noite", "SYM_NOITE")):
        if k in cfg:
            env[e] = cfg[k]
    dl = float(cfg.get("deadline", 100))
    log = open(outdir + "/log.txt", "w")
    p = subprocess.Popen([exe, outdir], stdout=log, stderr=log, env=env, start_new_session=True)
    try:
        p.wait(timeout=dl + 120)
    except subprocess.TimeoutExpired:
        pass
    try:
        os.killpg(p.pid, 9)
    except ProcessLookupError:
        pass
    p.wait()
    st = {"cover": {}, "assert": {}, "fn": [], "unsup": []}
    f = outdir + "/stats.txt"
    if os.path.exists(f):
        for line in open(f):
            w = line.rstrip("\n").split(" ", 1)
            if w[0] in ("cover", "assert"):
                n, l = w[1].split(" ", 1)
                st[w[0]][l] = int(n)
            elif w[0] in ("fn", "unsup"):
                st[w[0]].append(w[1])
            else:
                st[w[0]] = float(w[1]) if w[0] == "wall" else int(w[1])
    else:
        st["dead"] = True
    st["log"] = open(outdir + "/log.txt", errors="replace").read()[-2000:]
    return st


def replay(exe, path, timeout=60):
    env = dict(os.environ, SYM_PATHSEC="20")
    try:
        r = subprocess.run([exe, "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return "hang", ""
    if r.returncode == 0:
        return "ok", r.stdout
    if r.returncode == 3:
        return "assert", r.stdout
    if r.returncode in (6, 7):
        return "diverged", r.stdout
    if r.returncode == 5:
        return "hang", r.stdout
    return "crash", r.stdout


def close(a, b):
    if a != a or b != b:
        return a != a and b != b
    if a in (float("inf"), -float("inf")) or b in (float("inf"), -float("inf")):
        return a == b
    return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))


def validate_samples(exe, outdir):
    ok = bad = div = 0
    for s in sorted(glob.glob(outdir + "/sample-*.txt")):
        st, out = replay(exe, s)
        if st in ("assert", "crash", "hang"):
            bad += 1
            continue
        if st == "diverged":
            div += 1
            continue
        want = re.findall(r"^obs (\S+) (\S+)$", open(s).read(), re.M)
        got = re.findall(r"^OBS (\S+) (\S+)$", out, re.M)
        if len(want) == len(got) and all(w[0] == g[0] and close(float(w[1]), float(g[1])) for w, g in zip(want, got)):
            ok += 1
        else:
            div += 1
    return ok, bad, div


def demangle(names):
    r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return [re.sub(r"\[abi:[^\]]*\]", "", x) for x in r.stdout.split("\n") if x]


def known_findings(prop):
    out = []
    p = VERIF + "/known_findings.jsonl"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                e = json.loads(l)
                if e.get("property") == prop and e.get("status") == "known":
                    out.append(e)
    return out


def harness_files(prop):
    return sorted(glob.glob(VERIF + "/harness/" + prop + "_*.cpp"))


PY = "/opt/vp/venv/bin/python"


def pysym(*args, timeout=600):
    env = dict(os.environ, OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.Popen([PY, VERIF + "/engine/pysym.py"] + list(args), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, start_new_session=True)
    try:
        out = p.communicate(timeout=timeout)[0]
    except subprocess.TimeoutExpired:
        out = "timeout"
    try:
        os.killpg(p.pid, 9)
    except ProcessLookupError:
        pass
    p.wait()
    return p.returncode, out


def check_py(prop, tier, hf, work, tot, runs, fns, samples, lines):
    """symbolic execution of Python code, see pysym.py"""
    meta = parse_harness(hf)
    rc, exhaustive, covered = 0, True, set()
    name = os.path.basename(hf)[:-3]
    for ci, cfg in enumerate(meta[tier] or meta["quick"] or [{}]):
        od = os.path.join(work, "out-%s-%d" % (name, ci))
        os.makedirs(od)
        args = ["%s=%s" % kv for kv in cfg.items()]
        prc, out = pysym("run", hf, od, *args, timeout=float(cfg.get("deadline", 100)) + 120)
        rf = od + "/result.json"
        if not os.path.exists(rf):
            exhaustive = False
            runs.append({"harness": name, "args": args, "error": "exploration died: " + out[-2000:]})
            print("  %s %s: exploration died\n%s" % (name, " ".join(args), out[-2000:]))
            continue
        st = json.load(open(rf))
        files = {k: sorted(glob.glob(od + "/" + k + "-*.json")) for k in ("viol", "sample")}
        ok = bad = div = spurious = 0
        confirmed = []
        for k in files:
            if not files[k]:
                continue
            prc, out = pysym("replay", hf, *files[k], timeout=120)
            res = []
            for l in out.split("\n"):
                if l.startswith("{\"status\""):
                    res.append(json.loads(l))
            for i, f in enumerate(files[k]):
                r = res[i] if i < len(res) else {"status": "hang", "label": "the concrete run does not end"}
                if k == "sample":
                    ok += r["status"] == "ok"
                    div += r["status"] == "diverged"
                    bad += r["status"] in ("violation", "hang")
                elif r["status"] in ("violation", "hang"):
                    confirmed.append((f, r["label"], r.get("trace") or ""))
                else:
                    spurious += 1
        for f in files["sample"][:3]:
            if len(samples) < 24:
                samples.append({"harness": name, "inputs": json.load(open(f))["inputs"]})
        inc = []
        if st["unknown"]: inc.append("%d undecided queries" % st["unknown"])
        if st["deadline"]: inc.append("deadline reached")
        if st["unsupported"]: inc.append("unsupported: " + "; ".join(st["unsupported"][:5]))
        if spurious: inc.append("%d counterexamples not confirmed concretely" % spurious)
        covered |= set(st["covers"])
        if inc: exhaustive = False
        seen = set()
        for f, what, trace in confirmed:
            kf = next((k for k in known_findings(prop) if k.get("harness") == name and k.get("match") and re.search(k["match"], what)), None)
            if kf:
                l = "KNOWN-FINDING: property=%s %s" % (prop, kf["what"])
                if l not in lines:
                    lines.append(l)
                continue
            rc = 1
            if what in seen:
                continue
            seen.add(what)
            rdir = os.path.join(VERIF, "replays")
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, "%s-%s-%d.json" % (prop, name, len(glob.glob(rdir + "/*"))))
            d = json.load(open(f))
            d.update({"property": prop, "harness": name, "what": what, "reproduce": "python3 %s/engine/driver.py replay %s %s %s" % (VERIF, prop, name, rp)})
            json.dump(d, open(rp, "w"), indent=1)
            lines.append("VIOLATION property=%s replay=%s" % (prop, rp))
            lines.append("  harness %s: %s" % (name, what))
            if trace and os.environ.get("VERIF_LOG"):
                lines.append(trace)
        fns |= set(st["fns"])
        na = sum(st["asserts"].values())
        for a, b in (("paths", st["paths"]), ("pruned", st["pruned"]), ("asserts", na), ("q_sat", st["sat"]), ("q_unsat", st["unsat"]), ("q_unk", st["unknown"]), ("solver_s", st["solver"]), ("valid", ok), ("div", div), ("bad", bad)):
            tot[a] += b
        runs.append({"harness": name, "args": args, "bounds": meta["bounds"], "assumptions": meta["assumes"], "paths": st["paths"], "pruned": st["pruned"],
                     "asserts_checked": na, "assert_labels": st["asserts"], "covers": st["covers"], "queries": {"sat": st["sat"], "unsat": st["unsat"], "unknown": st["unknown"]},
                     "solver_s": round(st["solver"], 2), "wall_s": round(st["wall"], 2), "max_decisions": st["depth"], "incomplete": inc,
                     "traces": {"agree": ok, "diverged": div, "assert_failed_concretely": bad}})
        print("  %s %s: paths=%d pruned=%d asserts=%d sat=%d unsat=%d unk=%d solver=%.1fs wall=%.1fs traces=%d/%d/%d%s" % (
            name, " ".join(args), st["paths"], st["pruned"], na, st["sat"], st["unsat"], st["unknown"], st["solver"], st["wall"], ok, div, bad,
            (" INCOMPLETE: " + " | ".join(inc)) if inc else ""))
        if rc and tier == "quick":
            return rc, exhaustive
    missing = [c for c in meta["cover"] if c not in covered]
    if missing:
        exhaustive = False
        runs[-1]["incomplete"] = runs[-1].get("incomplete", []) + ["cover not reached: " + ",".join(missing)]
        print("  %s: cover not reached: %s" % (name, ",".join(missing)))
    return rc, exhaustive


def check(prop, tier):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vx-%s-" % prop)
    rc = 0
    lines = []
    tot = {"paths": 0, "pruned": 0, "asserts": 0, "q_sat": 0, "q_unsat": 0, "q_unk": 0, "solver_s": 0.0, "valid": 0, "div": 0, "bad": 0}
    runs = []
    fns = set()
    exhaustive = True
    nfail = 0
    samples = []
    try:
        files = harness_files(prop)
        b = Builder(work)
        if files:
            b.tools()
        only = os.environ.get("VERIF_ONLY")
        if only:
            files = [f for f in files if only in f]
        for hf in files:
            meta = parse_harness(hf)
            cfgs = meta[tier] or meta["quick"] or [{}]
            for ci, cfg in enumerate(cfgs):
                name = os.path.basename(hf)[:-4]
                defs = ["-D%s=%s" % (k[1:], v) for k, v in cfg.items() if k.startswith("D")]
                exe = os.path.join(work, "%s-%d.exe" % (name, ci))
                tb = time.time()
                try:
                    b.build(hf, meta["src"] if meta["src"] and meta["src"] != ["all"] else None, defs, exe)
                except BuildError as e:
                    # code a harness no longer compiles against cannot be judged by it
                    exhaustive = False
                    nfail += 1
                    runs.append({"harness": name, "defs": defs, "error": str(e)[:3000]})
                    print("BUILD-ERROR", str(e)[:6000])
                    break
                tb = time.time() - tb
                od = os.path.join(work, "out-%s-%d" % (name, ci))
                st = run_sym(exe, od, cfg, [k["match"] for k in known_findings(prop) if k.get("harness") == name and k.get("match")])
                if st.get("dead"):
                    exhaustive = False
                    runs.append({"harness": name, "defs": defs, "error": "exploration process died", "log": st["log"]})
                    continue
                ok, bad, div = validate_samples(exe, od)
                for sf in sorted(glob.glob(od + "/sample-*.txt"))[:3]:
                    if len(samples) < 24:
                        samples.append({"harness": name, "inputs": {l.split()[1]: l.split()[-1] for l in open(sf) if l.startswith("in ")}})
                inc = []
                if st["q_unk"]: inc.append("%d undecided queries" % st["q_unk"])
                if st["aborted_deadline"]: inc.append("deadline reached")
                if st["unsupported"]: inc.append("unsupported: " + "; ".join(st["unsup"][:5]))
                if st["hangs"]: inc.append("%d paths over CPU budget" % st["hangs"])
                if st["procs_started"] != st["procs_ended"]: inc.append("%d path processes lost" % (st["procs_started"] - st["procs_ended"]))
                missing = [c for c in meta["cover"] if c not in st["cover"]]
                confirmed = []
                spurious = st["violspur"]
                for v in sorted(glob.glob(od + "/viol-*.txt")):
                    txt = open(v).read()
                    msg = re.search(r"^msg (.*)$", txt, re.M).group(1)
                    kind = re.search(r"^kind (.*)$", txt, re.M).group(1)
                    rs, rout = replay(exe, v)
                    if rs in ("assert", "crash", "hang"):
                        confirmed.append((v, kind, msg, rs, rout))
                    else:
                        spurious += 1
                if spurious: inc.append("%d counterexamples not confirmed concretely" % spurious)
                if missing: inc.append("cover not reached: " + ",".join(missing))
                if inc or st["stop"]:
                    exhaustive = False
                for v, kind, msg, rs, rout in confirmed:
                    m = re.search(r"ASSERT-FAILED (.*)", rout)
                    what = m.group(1) if m else (re.search(r"CRASH (.*)", rout).group(1) if "CRASH" in rout else rs)
                    kf = next((k for k in known_findings(prop) if k.get("harness") == name and k.get("match") and re.search(k["match"], what)), None)
                    if kf:
                        l = "KNOWN-FINDING: property=%s %s" % (prop, kf["what"])
                        if l not in lines:
                            lines.append(l)
                        continue
                    rdir = os.path.join(VERIF, "replays")
                    os.makedirs(rdir, exist_ok=True)
                    rp = os.path.join(rdir, "%s-%s-%d.txt" % (prop, name, len(glob.glob(rdir + "/*"))))
                    with open(rp, "w") as f:
                        f.write("# property %s harness %s defs %s\n# concrete run: %s: %s\n" % (prop, name, " ".join(defs), rs, what))
                        f.write("# reproduce: python3 %s/engine/driver.py replay %s %s %s\n" % (VERIF, prop, name, rp))
                        f.write(open(v).read())
                    lines.append("VIOLATION property=%s replay=%s" % (prop, rp))
                    lines.append("  harness %s: %s: %s" % (name, rs, what))
                    rc = 1
                fns |= set(demangle(st["fn"]))
                for k in ("paths", "pruned", "asserts", "q_sat", "q_unsat", "q_unk"):
                    tot[k] += st[k]
                tot["solver_s"] += st["solver_ns"] / 1e9
                tot["valid"] += ok
                tot["div"] += div
                tot["bad"] += bad
                runs.append({"harness": name, "defs": defs, "bounds": meta["bounds"], "assumptions": meta["assumes"], "paths": st["paths"], "pruned": st["pruned"],
                             "asserts_checked": st["asserts"], "assert_labels": st["assert"], "covers": st["cover"], "queries": {"sat": st["q_sat"], "unsat": st["q_unsat"], "unknown": st["q_unk"]},
                             "solver_s": round(st["solver_ns"] / 1e9, 2), "wall_s": round(st["wall"], 2), "build_s": round(tb, 2), "max_decisions": st["depth_max"], "max_terms": st["nodes_max"],
                             "incomplete": inc, "traces": {"agree": ok, "diverged": div, "assert_failed_concretely": bad}})
                print("  %s %s: paths=%d pruned=%d asserts=%d sat=%d unsat=%d unk=%d solver=%.1fs wall=%.1fs build=%.1fs traces=%d/%d/%d%s" % (
                    name, " ".join(defs), st["paths"], st["pruned"], st["asserts"], st["q_sat"], st["q_unsat"], st["q_unk"], st["solver_ns"] / 1e9, st["wall"], tb, ok, div, bad,
                    (" INCOMPLETE: " + " | ".join(inc)) if inc else ""))
                if os.environ.get("VERIF_LOG") and st["log"]:
                    print(st["log"])
                if rc and tier == "quick":
                    break
            if rc and tier == "quick":
                break
        for hf in sorted(glob.glob(VERIF + "/pyharness/" + prop + "_*.py")):
            if rc and tier == "quick" or (only and only not in hf):
                break
            r, ex = check_py(prop, tier, hf, work, tot, runs, fns, samples, lines)
            rc = rc or r
            exhaustive = exhaustive and ex
    except BuildError as e:
        # code that does not build cannot be judged; say so in the evidence, raise no alarm
        exhaustive = False
        runs.append({"error": str(e)[:3000]})
        print("BUILD-ERROR", str(e)[:6000])
        rc = 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("work kept:", work)
    if nfail and not tot["paths"] and not rc:
        rc = 2
    for l in lines:
        print(l)
    tot["samples"] = samples
    proj = sorted(f for f in fns if "NSEpic::" in f or f.startswith("pylibamazed/"))
    return rc, tot, runs, proj, exhaustive, time.time() - t0


def write_evidence(prop, tier, tot, runs, proj, exhaustive, wall):
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    cov = {"states": tot["paths"], "transitions": tot["q_sat"] + tot["q_unsat"] + tot["q_unk"], "traces_validated_against_impl": tot["valid"], "samples": tot.get("samples", []),
           "all_paths_within_bounds_decided": exhaustive, "paths_pruned_by_assumptions": tot["pruned"], "assertions_decided": tot["asserts"],
           "queries_sat": tot["q_sat"], "queries_unsat": tot["q_unsat"], "queries_unknown": tot["q_unk"], "solver_s": round(tot["solver_s"], 2),
           "traces_diverged": tot["div"], "functions_encoded": proj, "runs": runs,
           "explanation": "symbolic execution of the instrumented real code: states = completed paths, transitions = solver queries, samples = inputs the solver gave for some of those paths, replayed concretely (traces_validated_against_impl)"}
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking", "coverage": cov, "wall_s": round(wall, 2)}
    with open("%s/evidence/%s.json" % (VERIF, prop), "w") as f:
        json.dump(ev, f, indent=1)


def main():
    if sys.argv[1] == "check":
        prop = sys.argv[2]
        tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
        rc, tot, runs, proj, ex, wall = check(prop, tier)
        write_evidence(prop, tier, tot, runs, proj, ex, wall)
        print("%s %s: %s (%.1fs)" % (prop, tier, "VIOLATED" if rc == 1 else "NOT DECIDED (build error)" if rc else "held" + ("" if ex else " on what was explored (incomplete)"), wall))
        sys.exit(rc)
    if sys.argv[1] == "replay":
        prop, name, path = sys.argv[2:5]
        if os.path.exists(VERIF + "/pyharness/" + name + ".py"):
            print(pysym("replay", VERIF + "/pyharness/" + name + ".py", path)[1])
            return
        work = tempfile.mkdtemp(prefix="vx-replay-")
        b = Builder(work)
        b.tools()
        hf = VERIF + "/harness/" + name + ".cpp"
        meta = parse_harness(hf)
        m = re.search(r"defs (.*)$", open(path).readline())
        b.build(hf, meta["src"] if meta["src"] and meta["src"] != ["all"] else None, m.group(1).split() if m else [], work + "/h.exe")
        print(replay(work + "/h.exe", path))
        shutil.rmtree(work)
    if sys.argv[1] == "setup":
        w = tempfile.mkdtemp(prefix="vx-setup-")
        Builder(w).tools()
        shutil.rmtree(w)


if __name__ == "__main__":
    main()
