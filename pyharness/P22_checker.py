"""Which configurations are accepted, and with which warnings (pylibamazed/ParametersChecker.py, ParametersAccessor.py)."""
#@ quick: group=photometry deadline=40
#@ quick: group=lsf models=2 deadline=40
#@ quick: group=removal models=2 deadline=60
#@ quick: group=catalog models=2 deadline=40
#@ quick: group=solvers deadline=60
#@ quick: group=linemeas deadline=100
#@ quick: group=ratio deadline=60
#@ quick: group=continuum deadline=60
#@ quick: group=passes models=2 deadline=40
#@ quick: group=filters deadline=40
#@ thorough: group=photometry deadline=100
#@ thorough: group=lsf models=2 deadline=300
#@ thorough: group=removal models=2 deadline=400
#@ thorough: group=catalog models=2 deadline=300
#@ thorough: group=solvers models=2 deadline=400
#@ thorough: group=linemeas deadline=100
#@ thorough: group=ratio models=2 deadline=400
#@ thorough: group=continuum models=2 deadline=600
#@ thorough: group=passes models=2 deadline=200
#@ thorough: group=filters deadline=100
#@ cover: accepted refused warned no-warning exclusive counts filter-format filter-key
#@ bounds: one or two spectrum models; every combination of the options of one group (photometry, spread function, continuum removal, template catalogue, solver sections, line measurement, line ratio, line model continuum, passes and reliability, filters), each parameter present or not, the rest of the configuration valid; symbolic extrema counts
#@ assumes: values have the types of the JSON schema
import copy
import pysym
from pylibamazed.Exception import APIException
from pylibamazed.ParametersChecker import ParametersChecker
from pylibamazed.redshift import CFlagWarning, ErrorCode, WarningCode

ZS = "redshiftSolver"


def at(d, *path):
    for k in path:
        if d is None:
            return None
        d = d.get(k)
    return d


def base(p, m, solver, meas=False):
    """a valid model"""
    p["spectrumModels"].append(m)
    sec = p[m] = {"stages": []}
    if solver:
        sec["stages"].append(ZS)
        sec[ZS] = {"method": solver}
        if solver == "lineModelSolve":
            sec[ZS][solver] = {"lineModel": {"lineRatioType": "rules", "rules": "all", "continuumComponent": "noContinuum", "fittingMethod": "svd",
                                             "skipSecondPass": True, "lya": {"profile": "igm"}, "firstPass": {}}}
        else:
            sec[ZS][solver] = {"spectrum": {"component": "raw"}, "ismFit": False, "igmFit": False}
            sec["templateDir"] = "dir"
    if meas:
        sec["stages"].append("lineMeasSolver")
        sec["lineMeasSolver"] = {"method": "lineMeasSolve", "lineMeasSolve": {"lineModel": {
            "lineRatioType": "rules", "rules": "all", "fittingMethod": "hybrid", "lya": {"profile": "igm"}}}}
        sec["lineMeasDzHalf"] = 0.
        sec["lineMeasRedshiftStep"] = 1e-4
    if solver == "lineModelSolve" or meas:
        p.setdefault("lsf", {"lsfType": "gaussianNISPSIM2016"})
    return sec


def opt(S, d, key, values, name=None):
    """a key that may be absent"""
    v = S.choice(name or key, ["absent"] + list(values))
    if v != "absent":
        d[key] = v


def flag(S, d, key, value, name=None):
    if S.bool(name or key):
        d[key] = value


def rules(p):
    """(what, needed, present, refused when missing, warned when unused); written from the documentation of the parameters"""
    models = p.get("spectrumModels", [])
    method = {m: at(p, m, ZS, "method") or None for m in models}
    lm = {m: at(p, m, ZS, "lineModelSolve", "lineModel") for m in models}
    tf = {m: at(p, m, ZS, "templateFittingSolve") for m in models}
    tc = {m: at(p, m, ZS, "tplCombinationSolve") for m in models}
    meas = {m: "lineMeasSolver" in p[m].get("stages", []) for m in models}

    def active(m):
        return lm[m] if method[m] == "lineModelSolve" else at(p, m, ZS, method[m]) if method[m] else None
    phot = any(at(active(m), "enablePhotometry") for m in models)
    yield "photometryTransmissionDir", phot, "photometryTransmissionDir" in p, 1, 1
    yield "photometryBand", phot, bool(p.get("photometryBand")), 1, 1
    yield "lsf", any(meas[m] or method[m] == "lineModelSolve" for m in models), "lsf" in p, 1, 1
    for t, k in (("gaussianConstantWidth", "width"), ("gaussianConstantResolution", "resolution"), ("gaussianNISPVSSPSF201707", "sourceSize"),
                 ("gaussianVariableWidth", "gaussianVariableWidthFileName")):
        yield k, at(p, "lsf", "lsfType") == t, at(p, "lsf", k) is not None, 1, 1
    tpl = any(at(s[m], "spectrum", "component") not in (None, "raw") for s in (tf, tc) for m in models)
    cont = tpl or any(at(lm[m], "continuumComponent") in ("fromSpectrum", "tplFitAuto") or at(lm[m], "continuumReestimation") is not None for m in models)
    for need, sec in ((cont, at(p, "continuumRemoval")), (tpl, at(p, "templateCatalog", "continuumRemoval"))):
        yield "continuumRemoval", need, sec is not None, 1, 1
        for k in ("medianKernelWidth", "medianEvenReflection"):
            yield k, at(sec, "method") == "irregularSamplingMedian", at(sec, k) is not None, 1, 1
    for m in models:
        s = p[m]
        ms = at(s, "lineMeasSolver", "lineMeasSolve", "lineModel")
        measured = meas[m] and at(s, "lineMeasSolver", "method") is not None
        yield "lineMeasSolver", meas[m], "lineMeasSolver" in s, 1, 1
        yield "ineMeasDzHalf", measured, "lineMeasDzHalf" in s, 1, 1
        yield "ineMeasRedshiftStep", measured, "lineMeasRedshiftStep" in s, 1, 1
        yield "rules", at(ms, "lineRatioType") == "rules", at(ms, "rules") is not None, 1, 1
        yield "velocityFit", at(ms, "fittingMethod") == "lbfgsb", at(ms, "velocityFit") is not None, 1, 1
        for k in ("emVelocityFitMin", "emVelocityFitMax", "absVelocityFitMin", "absVelocityFitMax"):
            yield k, at(ms, "velocityFit") is True, at(ms, k) is not None, 1, 1
        if measured:
            yield "lya asymProfile", at(ms, "lya", "profile") == "asym", at(ms, "lya", "asymProfile") is not None, 1, 1
        yield "reliabilitySolver", "reliabilitySolver" in s.get("stages", []), "reliabilitySolver" in s, 1, 1
        for k, sec in (("templateFittingSolve", tf[m]), ("tplCombinationSolve", tc[m]), ("lineModelSolve", at(s, ZS, "lineModelSolve"))):
            yield k, method[m] == k, sec is not None, 1, 1
        for sec in (tf[m], tc[m], at(lm[m], "continuumFit")):
            yield "ebmv", at(sec, "ismFit") is True, "ebmv" in p, 1, 0
        yield "weight", at(tf[m], "enablePhotometry") is True, at(tf[m], "photometry", "weight") is not None, 1, 1
        yield "rules", at(lm[m], "lineRatioType") == "rules", at(lm[m], "rules") is not None, 1, 1
        ratio = at(lm[m], "lineRatioType") in ("tplRatio", "tplCorr")
        yield "improveBalmerFit", at(lm[m], "lineRatioType") == "rules", at(lm[m], "improveBalmerFit") is True, 0, 1
        yield "tplRatioCatalog", ratio, at(lm[m], "tplRatioCatalog") is not None, 1, 1
        yield "tplRatioIsmFit", ratio, at(lm[m], "tplRatioIsmFit") is not None, 1, 1
        yield "tplRatioIsmFit", ratio, at(lm[m], "firstPass", "tplRatioIsmFit") is not None, 1, 1
        tplfit = at(lm[m], "continuumComponent") in ("tplFit", "tplFitAuto")
        yield "continuumReestimation", at(lm[m], "continuumComponent") == "fromSpectrum", at(lm[m], "continuumReestimation") is not None, 1, 1
        yield "continuumFit", tplfit, at(lm[m], "continuumFit") is not None, 1, 0
        yield "secondPass", at(lm[m], "skipSecondPass") is False, at(lm[m], "secondPass") is not None, 1, 1
        yield "continuumFit", tplfit and at(lm[m], "secondPass") is not None, at(lm[m], "secondPass", "continuumFit") is not None, 1, 0
        if method[m] == "lineModelSolve":
            yield "lya asymProfile", at(lm[m], "lya", "profile") == "asym", at(lm[m], "lya", "asymProfile") is not None, 1, 1
        yield "useLogLambdaSampling", tplfit and at(lm[m], "continuumFit", "fftProcessing") is True, at(lm[m], "useLogLambdaSampling") is not None, 1, 1
        yield "templateDir", method[m] in ("templateFittingSolve", "tplCombinationSolve") or (method[m] == "lineModelSolve" and tplfit), "templateDir" in s, 1, 1


def group(S, p, g):
    two = int(S.params.get("models", 1)) > 1
    names = ["galaxy", "star"] if two else ["galaxy"]
    if not two and g in ("solvers", "linemeas", "ratio") and S.bool("other model"):
        base(p, "star", {"solvers": "templateFittingSolve", "linemeas": None}.get(g, "lineModelSolve"), g == "linemeas")
    if g == "photometry":
        for m in ("galaxy", "star"):
            solver = S.choice("solver" + m, ["lineModelSolve", "templateFittingSolve", None])
            s = base(p, m, solver)
            if solver:
                sec = s[ZS][solver]
                opt(S, sec if solver == "templateFittingSolve" else sec["lineModel"], "enablePhotometry", [True, False], "enable" + m)
                if m == "galaxy" and solver == "templateFittingSolve":
                    opt(S, sec, "fftProcessing", [True, False])
                    sec["photometry"] = {}
                    flag(S, sec["photometry"], "weight", 1.)
        flag(S, p, "photometryTransmissionDir", "dir")
        opt(S, p, "photometryBand", [[], ["u"]])
    if g == "lsf":
        for m in names:
            base(p, m, S.choice("solver" + m, ["lineModelSolve", "templateFittingSolve", None]), S.bool("meas" + m))
        p.pop("lsf", None)
        if S.bool("lsf"):
            t = S.choice("lsfType", ["gaussianConstantWidth", "gaussianConstantResolution", "gaussianNISPSIM2016", "gaussianNISPVSSPSF201707", "gaussianVariableWidth", "fromSpectrumData"])
            p["lsf"] = {"lsfType": t}
            for k, v in (("width", 0.), ("resolution", 1.), ("sourceSize", 0.1), ("gaussianVariableWidthFileName", "file")):
                flag(S, p["lsf"], k, v)
    if g == "removal":
        for m in names:
            solver = S.choice("solver" + m, ["lineModelSolve", "templateFittingSolve", "tplCombinationSolve"])
            s = base(p, m, solver)[ZS][solver]
            if solver == "lineModelSolve":
                lm = s["lineModel"]
                lm["continuumComponent"] = S.choice("component" + m, ["noContinuum", "fromSpectrum", "tplFit", "tplFitAuto"])
                if lm["continuumComponent"][:3] == "tpl":
                    lm["continuumFit"] = {}
                    p[m]["templateDir"] = "dir"
                opt(S, lm, "continuumReestimation", ["onlyextrema", "always"], "reestimation" + m)
            else:
                s.pop("spectrum")
                if S.bool("spectrum" + m):
                    s["spectrum"] = {}
                    opt(S, s["spectrum"], "component", ["raw", "noContinuum", "continuum"], "component" + m)
        if S.bool("continuumRemoval"):
            p["continuumRemoval"] = {"method": S.choice("method", ["irregularSamplingMedian", "zero"])}
            opt(S, p["continuumRemoval"], "medianKernelWidth", [0., 75.])
            opt(S, p["continuumRemoval"], "medianEvenReflection", [True, False])
        if S.bool("catalogRemoval"):
            p["templateCatalog"] = {"continuumRemoval": {"method": "zero"}}
    if g == "catalog":
        for m in names:
            solver = S.choice("solver" + m, ["templateFittingSolve", "tplCombinationSolve"])
            base(p, m, solver)[ZS][solver]["spectrum"]["component"] = S.choice("component" + m, ["raw", "noContinuum", "all"])
        flag(S, p, "continuumRemoval", {"method": "zero"})
        if S.bool("catalog"):
            p["templateCatalog"] = {}
            if S.bool("removal"):
                c = p["templateCatalog"]["continuumRemoval"] = {}
                opt(S, c, "method", ["irregularSamplingMedian", "zero"])
                opt(S, c, "medianKernelWidth", [0., 75.])
                opt(S, c, "medianEvenReflection", [True, False])
    if g == "solvers":
        for m in names:
            solver = S.choice("solver" + m, ["lineModelSolve", "templateFittingSolve", "tplCombinationSolve", "", None])
            s = base(p, m, solver or None)
            if solver == "":
                s[ZS] = {"method": ""}
            sec = s.setdefault(ZS, {})
            for k in ("lineModelSolve", "templateFittingSolve", "tplCombinationSolve"):
                if S.bool(k + m):
                    if k not in sec:
                        sec[k] = {}
                    if k != "lineModelSolve":
                        opt(S, sec[k], "ismFit", [True, False], "ism" + k + m)
                else:
                    sec.pop(k, None)
            if not S.bool("templateDir" + m):
                s.pop("templateDir", None)
            else:
                s["templateDir"] = "dir"
        flag(S, p, "ebmv", {"start": 0.})
    if g == "linemeas":
        s = base(p, "galaxy", S.choice("solver", ["templateFittingSolve", None]), True)
        if not S.bool("stage"):
            s["stages"].remove("lineMeasSolver")
        if not S.bool("section"):
            s.pop("lineMeasSolver")
        else:
            opt(S, s["lineMeasSolver"], "method", ["lineMeasSolve"])
            if not S.bool("method there"):
                s["lineMeasSolver"].pop("method", None)
            lm = s["lineMeasSolver"]["lineMeasSolve"]["lineModel"]
            lm["fittingMethod"] = S.choice("fitting", ["lbfgsb", "hybrid"])
            other = S.bool("other")
            if not other:
                opt(S, lm, "velocityFit", [True, False])
            vel = ["emVelocityFitMin", "emVelocityFitMax", "absVelocityFitMin", "absVelocityFitMax"]
            only, v = (S.bool("only one"), S.choice("velocity", ["none"] + vel)) if not other else (True, "none")
            for k in vel:
                if (k == v) == only:
                    lm[k] = 0.
            if other:
                opt(S, lm, "lineRatioType", ["tplRatio"])
                if S.bool("no rules"):
                    lm.pop("rules")
                lm["lya"] = {"profile": S.choice("profile", ["igm", "asym", "none"])}
                flag(S, lm["lya"], "asymProfile", {})
        if S.bool("no half"):
            s.pop("lineMeasDzHalf")
        if S.bool("no step"):
            s.pop("lineMeasRedshiftStep")
    if g == "ratio":
        for m in names:
            lm = base(p, m, "lineModelSolve")[ZS]["lineModelSolve"]["lineModel"]
            opt(S, lm, "lineRatioType", ["rules", "tplRatio", "tplCorr"], "type" + m)
            if S.bool("no rules" + m):
                lm.pop("rules")
            if not S.bool("first pass" + m):
                lm.pop("firstPass")
            else:
                opt(S, lm["firstPass"], "tplRatioIsmFit", [True, False], "first ism" + m)
            opt(S, lm, "improveBalmerFit", [True, False], "balmer" + m)
            flag(S, lm, "tplRatioCatalog", "dir", "catalog" + m)
            opt(S, lm, "tplRatioIsmFit", [True, False], "ism" + m)
            if m == "galaxy":
                lm["lya"]["profile"] = S.choice("profile", ["igm", "asym"])
                flag(S, lm["lya"], "asymProfile", {}, "asym")
    if g == "continuum":
        for m in names:
            s = base(p, m, "lineModelSolve")
            lm = s[ZS]["lineModelSolve"]["lineModel"]
            lm["continuumComponent"] = S.choice("component" + m, ["noContinuum", "fromSpectrum", "tplFit", "tplFitAuto"])
            flag(S, lm, "continuumReestimation", "always", "reestimation" + m)
            if S.bool("fit" + m):
                lm["continuumFit"] = {}
                opt(S, lm["continuumFit"], "fftProcessing", [True, False], "fft" + m)
                opt(S, lm["continuumFit"], "ismFit", [True, False], "ism" + m)
            opt(S, lm, "useLogLambdaSampling", [True, False], "log" + m)
            if m == "galaxy":
                lm["skipSecondPass"] = S.bool("skip")
                if S.bool("second"):
                    lm["secondPass"] = {}
                    flag(S, lm["secondPass"], "continuumFit", "fromFirstPass", "second fit")
                flag(S, lm, "enablePhotometry", True)
                if lm.get("enablePhotometry"):
                    p["photometryTransmissionDir"], p["photometryBand"] = "dir", ["u"]
            flag(S, s, "templateDir", "dir", "dir" + m)
        flag(S, p, "ebmv", {"start": 0.})
        p["continuumRemoval"] = {"method": "zero"}
    if g == "passes":
        for m in names:
            s = base(p, m, "lineModelSolve")
            lm = s[ZS]["lineModelSolve"]["lineModel"]
            if S.bool("count" + m):
                lm["extremaCount"] = S.real("n" + m, 1, 100)
            if S.bool("first count" + m):
                lm["firstPass"]["extremaCount"] = S.real("f" + m, 1, 100)
            if S.bool("reliable" + m):
                s["stages"].append("reliabilitySolver")
            flag(S, s, "reliabilitySolver", {}, "reliability" + m)
    if g == "filters":
        base(p, "galaxy", "templateFittingSolve")
        n = S.choice("filters", [-2, -1, 0, 1, 2])
        if n == -2:
            p["filters"] = {"key": "Wave"}
        elif n >= 0:
            p["filters"] = []
            for i in range(n):
                f = {"key": S.choice("k%d" % i, ["Wave", "Flux", "Err", "extra", "other"]), "instruction": "<", "value": 1}
                bad = S.choice("wrong%d" % i, ["nothing", "key", "instruction", "value", "more", "renamed"])
                if bad in f:
                    f.pop(bad)
                if bad in ("more", "renamed"):
                    f["more"] = 1
                if bad == "renamed":
                    f.pop("value")
                p["filters"].append(f)
        opt(S, p, "additionalCols", [[], ["extra"], ["more", "extra"]])


def harness(S):
    p = {"spectrumModels": []}
    g = S.params["group"]
    group(S, p, g)
    errors = [w for w, need, there, err, warn in rules(p) if err and need and not there]
    warns = sorted(w for w, need, there, err, warn in rules(p) if warn and there and not need)
    for m in p["spectrumModels"]:
        lm, tf = at(p, m, ZS, "lineModelSolve", "lineModel"), at(p, m, ZS, "templateFittingSolve")
        if (at(tf, "fftProcessing") and at(tf, "enablePhotometry")) or (at(lm, "continuumFit", "fftProcessing") and at(lm, "enablePhotometry")):
            errors.append("cannot activate both fft and photometry")
            S.cover("exclusive")
        n, f = at(lm, "extremaCount"), at(lm, "firstPass", "extremaCount")
        if n is not None and f is not None and f < n:
            errors.append("firstpass.extremaCount is lower")
            S.cover("counts")
    fl = p.get("filters", [])
    if type(fl) is not list or any(set(f) != {"key", "instruction", "value"} for f in fl):
        errors.append("ilters")
        S.cover("filter-format")
    elif any(f["key"] not in ["Wave", "Flux", "Err"] + p.get("additionalCols", []) for f in fl):
        errors.append("Unknown filter key")
        S.cover("filter-key")
    CFlagWarning.log.clear()
    before = copy.deepcopy(p) if g != "passes" else None
    try:
        ParametersChecker(p).custom_check()
        err = None
    except APIException as e:
        err = e
    if before is not None:
        S.check(p == before, "a check changes nothing")
    if errors:
        S.cover("refused")
        S.check(err is not None, "an incomplete or contradictory configuration is refused (%s)" % errors[0])
        S.check(err.getErrorCode() == ErrorCode.INVALID_PARAMETER_FILE, "error code of a refused configuration")
        S.check(any(e in err.getMessage() for e in errors), "the error names what is wrong")
        return
    S.check(err is None, "a complete configuration is accepted: %s" % (err and err.getMessage()))
    S.cover("accepted")
    got = [msg for c, msg in CFlagWarning.log]
    S.check(all(c == WarningCode.UNUSED_PARAMETER for c, msg in CFlagWarning.log), "only warnings for unused parameters")
    S.check(len(got) == len(warns), "one warning per unused parameter (expected %s)" % warns)
    for w in set(warns):
        S.check(sum(w in msg for msg in got) >= warns.count(w), "warning for the unused %s" % w)
    S.cover("warned" if warns else "no-warning")
