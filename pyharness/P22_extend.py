"""Completion of the configuration, and what is read from it (pylibamazed/ParametersExtender.py, ParametersConverter.py, Parameters.py)."""
#@ quick: mode=extend deadline=60
#@ quick: mode=templates models=2 deadline=40
#@ quick: mode=read deadline=40
#@ quick: mode=range deadline=30
#@ quick: mode=convert deadline=60
#@ thorough: mode=extend models=2 deadline=600
#@ thorough: mode=templates models=2 deadline=300
#@ thorough: mode=read models=2 deadline=600
#@ thorough: mode=range obs=3 deadline=100
#@ thorough: mode=convert models=2 deadline=400
#@ cover: completed kept full single linemeas both-solvers converted v2 bad-version missing-source
#@ bounds: one (thorough two) spectrum models; every combination of solver, continuum, fitting and sampling options, each present or not; one to three observations with symbolic ranges
#@ assumes: values have the types of the JSON schema
import copy
import os
import pysym
import pandas as pd
import pylibamazed.ParametersConverter as PC
from pylibamazed.Exception import APIException
import pylibamazed.Parameters as PM
from pylibamazed.Parameters import Parameters
from pylibamazed.ParametersConverter import ParametersConverterSelector
from pylibamazed.ParametersExtender import ParametersExtender
from pylibamazed.redshift import ErrorCode

ZS = "redshiftSolver"
PC.v1_to_treed_filename = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "pylibamazed/auxdir/pylibamazed/rename_params_v1_to_treed.csv")
PM.float = lambda x: float(x) if isinstance(x, str) else x  # the built-in conversion of a number to itself, which a symbolic number cannot go through
DEF = {"medianKernelWidth": -1, "medianEvenReflection": True}


def at(d, *path):
    for k in path:
        if d is None:
            return None
        d = d.get(k)
    return d


def opt(S, d, key, values, name=None):
    v = S.choice(name or key, ["absent"] + list(values))
    if v != "absent":
        d[key] = v


def removal(S, name):
    c = {}
    opt(S, c, "method", ["irregularSamplingMedian", "zero"], name + "method")
    if S.bool(name + "kernel"):
        c["medianKernelWidth"] = 75.
        c["medianEvenReflection"] = False
    return c


def extend(S, templates):
    names = ["galaxy", "star"][:int(S.params.get("models", 1))]
    fixed = len(names) == 1 and S.bool("other model")
    if fixed:
        names = ["star", "galaxy"]
    p = {"spectrumModels": list(names), "other": {"x": [1]}, "lambdaRange": [1., 2.]}
    if fixed:
        p["star"] = {ZS: {"method": "lineModelSolve", "lineModelSolve": {"lineModel": {"keep": 2, "continuumComponent": "tplFitAuto", "fittingMethod": "hybrid", "continuumReestimation": "always",
                                                                                    "useLogLambdaSampling": True, "continuumFit": {"fftProcessing": True}}}}}
    for m in names[1:] if fixed else names:
        solver = S.choice("solver" + m, ["templateFittingSolve", "tplCombinationSolve"] if templates else ["lineModelSolve", None])
        s = p[m] = {"stages": [ZS] if solver else [], "mine": 3}
        if solver:
            s[ZS] = {"method": solver, solver: {}}
        if templates:
            if S.bool("spectrum" + m):
                s[ZS][solver]["spectrum"] = {}
                opt(S, s[ZS][solver]["spectrum"], "component", ["raw", "noContinuum"], "component" + m)
        elif solver:
            lm = s[ZS][solver]["lineModel"] = {"keep": 1}
            opt(S, lm, "continuumComponent", ["noContinuum", "fromSpectrum", "tplFit", "tplFitAuto"], "component" + m)
            opt(S, lm, "continuumReestimation", ["no", "always"], "reestimation" + m)
            opt(S, lm, "fittingMethod", ["hybrid", "svd"], "fitting" + m)
            opt(S, lm, "useLogLambdaSampling", [True, False], "log" + m)
            if S.bool("fit" + m):
                lm["continuumFit"] = {}
                opt(S, lm["continuumFit"], "fftProcessing", [True, False], "fft" + m)
    if S.bool("removal"):
        p["continuumRemoval"] = removal(S, "r")
    if templates and S.bool("catalog"):
        p["templateCatalog"] = {"more": 1}
        if S.bool("catalog removal"):
            p["templateCatalog"]["continuumRemoval"] = removal(S, "c")
    before = copy.deepcopy(p)
    q = ParametersExtender().extend(p)
    S.check(p == before, "the configuration of the user is not modified")
    tpl = any(at(p, m, ZS, k, "spectrum", "component") not in (None, "raw") for m in names for k in ("templateFittingSolve", "tplCombinationSolve"))
    lms = {m: at(p, m, ZS, "lineModelSolve", "lineModel") or {} for m in names}
    need = tpl or any(l.get("continuumComponent") in ("fromSpectrum", "tplFitAuto") or l.get("continuumReestimation") is not None for l in lms.values())
    # continuum removal: that of the user where it is used, the default elsewhere; always complete
    for nd, user, done in ((need, p.get("continuumRemoval"), q["continuumRemoval"]),
                           (tpl, at(p, "templateCatalog", "continuumRemoval"), q["templateCatalog"]["continuumRemoval"])):
        S.check("medianKernelWidth" in done and "medianEvenReflection" in done or (user is not None and user.get("method") == "irregularSamplingMedian"),
                "the continuum removal is complete")
        if nd and user is not None:
            want = dict(user)
            if user.get("method") != "irregularSamplingMedian":
                want.update(DEF)
            else:
                S.cover("kept")
            S.check(done == want, "a continuum removal that is used is kept")
        elif not nd:
            S.check(done == dict(DEF, method="default"), "a continuum removal that is not used is the default one")
            S.cover("completed")
    for m in names:
        lm = lms[m]
        done = q[m][ZS]["lineModelSolve"]["lineModel"]
        S.check("continuumReestimation" in done, "the core finds whether the continuum is estimated again")
        if "continuumReestimation" in done:
            S.check(done["continuumReestimation"] == (lm.get("continuumReestimation", "no") if lm.get("fittingMethod") == "hybrid" else "no"),
                    "continuum estimated again only for a hybrid fit that asks for it")
        fft = lm.get("continuumComponent") in ("tplFit", "tplFitAuto") and at(lm, "continuumFit", "fftProcessing") is True
        S.check("useLogLambdaSampling" in done or fft, "the core finds whether to use the log sampling")
        S.check(done.get("useLogLambdaSampling") == (lm.get("useLogLambdaSampling") if fft else False), "log sampling only with the fast fit")
    # nothing else changes
    for m in names:
        for k in ("continuumReestimation", "useLogLambdaSampling"):
            q[m][ZS]["lineModelSolve"]["lineModel"].pop(k, None)
            lms[m].pop(k, None)
        if not lms[m]:
            q[m][ZS].pop("lineModelSolve")
            if ZS not in p[m] and not q[m][ZS]:
                q[m].pop(ZS)
    for d in (p, q):
        d.pop("continuumRemoval", None)
        d.get("templateCatalog", {}).pop("continuumRemoval", None)
        if not d.get("templateCatalog"):
            d.pop("templateCatalog", None)
    S.check(p == q, "nothing else is changed")


def bare(p):
    x = Parameters.__new__(Parameters)
    x.parameters = p
    return x


def read(S):
    names = ["galaxy", "star"][:int(S.params.get("models", 1))]
    p = {"spectrumModels": names, "lsf": {}}
    solver, meas, ratio, rel = {}, {}, {}, {}
    for m in names:
        s = p[m] = {}
        z = S.choice("solver" + m, ["lineModelSolve", "templateFittingSolve", "tplCombinationSolve", "", None])
        if z is not None:
            s[ZS] = {"method": z}
            if S.bool("section" + m) or z == "lineModelSolve":
                for k in ("lineModelSolve", "templateFittingSolve", "tplCombinationSolve"):
                    s[ZS][k] = {"igmFit": k == z}
                ratio[m] = S.choice("ratio" + m, ["rules", "tplRatio", "tplCorr"])
                s[ZS]["lineModelSolve"] = {"lineModel": {"lineRatioType": ratio[m], "lineCatalog": "lines" + m, "nSigmaSupport": 8, "lya": {"profile": S.choice("lya" + m, ["igm", "asym"])}}}
        st = []
        if S.bool("measStage" + m):
            st.append("lineMeasSolver")
        if S.bool("relStage" + m):
            st.append("reliabilitySolver")
        if st or S.bool("stages" + m):
            s["stages"] = st
        if S.bool("measSection" + m):
            s["lineMeasSolver"] = {"method": "lineMeasSolve", "lineMeasSolve": {"lineModel": {"lineCatalog": "measured" + m, "nSigmaSupport": 9, "lya": {"profile": "asym"}}}}
        solver[m] = z or None
        meas[m] = "lineMeasSolve" if "lineMeasSolver" in st and "lineMeasSolver" in s else None
        rel[m] = "reliabilitySolver" in st
    x = bare(p)
    S.check(x.is_a_redshift_solver_used() == any(solver.values()), "whether a redshift is measured")
    S.check(x.get_objects_solve_methods() == {m: v for m, v in solver.items() if v}, "redshift solvers of the models")
    S.check(x.get_objects_linemeas_methods() == {m: v for m, v in meas.items() if v}, "line measurement of the models")
    for m in names:
        z, l = solver[m], meas[m]
        S.check(x.get_redshift_solver_method(m) == z, "redshift solver")
        S.check(x.get_linemeas_method(m) == l, "line measurement")
        S.check(x.get_solve_methods(m) == [k for k in (z, l) if k], "methods in the order they are run")
        S.check(sorted(x.get_linemodel_methods(m)) == sorted(k for k in (z, l) if k in ("lineModelSolve", "lineMeasSolve")), "methods with a line model")
        need = z == "lineModelSolve" and ratio[m] != "rules"
        S.check(bool(x.is_tplratio_catalog_needed(m)) == need, "line-ratio catalogue needed")
        for stage, on in (("redshiftSolver", z is not None), ("lineMeasSolver", l is not None), ("reliabilitySolver", rel[m]), ("subClassifSolver", need)):
            S.check(bool(x.stage_enabled(m, stage)) == on, "stage " + stage)
        for k in [k for k in (z, l) if k]:
            S.check(x.get_stage_from_method(k) == ("lineMeasSolver" if k == l else "redshiftSolver"), "stage of a method")
            lm = k == "lineModelSolve"
            if lm or k == "lineMeasSolve":
                S.check(x.get_linecatalog(m, k) == ("lines" if lm else "measured") + m, "line catalogue of a method")
                S.check(x.get_nsigmasupport(m, k) == (8 if lm else 9), "line support of a method")
            if lm:
                S.check(x.get_solve_method_igm_fit(m, k) == (p[m][ZS][k]["lineModel"]["lya"]["profile"] == "igm"), "IGM of a method")
            elif k == "lineMeasSolve":
                S.check(x.get_solve_method_igm_fit(m, k) is False, "IGM of a method")
            elif k in p[m][ZS]:
                S.check(x.get_solve_method_igm_fit(m, k) is True, "IGM of a method")
        if z and l:
            S.cover("both-solvers")
    bad = any(solver[m] == "lineModelSolve" and meas[m] for m in names)
    try:
        x.check_linemeas_validity()
        S.check(not bad, "redshift and line measurement from a catalogue together are refused")
    except APIException as e:
        S.check(bad and e.getErrorCode() == ErrorCode.INCOHERENT_CONFIG_OPTIONS, "refused for the right reason")
    # line measurement parameters from a catalogue: only those of the models it holds, those of the source
    if all("lineMeasSolver" in p[m] for m in names):
        has = S.bool("in catalogue")
        v = [S.real("v%d" % i, 0, 1000) for i in range(3)]
        table = pd.DataFrame({"ProcessingID": ["1", "12" if has else "13", "123"], "z": pysym.column([0.5, v[0], 0.7]), "em": pysym.column([1., v[1], 2.]), "ab": pysym.column([3., v[2], 4.])})
        keep, pd.read_csv = pd.read_csv, lambda *a, **k: table
        cfg = {"linemeascatalog": {names[-1]: "file"}, "linemeas_catalog_columns": {names[-1]: {"Redshift": "z", "VelocityEmission": "em", "VelocityAbsorption": "ab"}}}
        try:
            x.load_linemeas_parameters_from_catalog("12", cfg)
            S.check(has, "a source missing from the catalogue is refused")
            lm = p[names[-1]]["lineMeasSolver"]["lineMeasSolve"]["lineModel"]
            S.check(p[names[-1]]["redshiftref"] == v[0], "redshift of the catalogue")
            S.check(lm["velocityEmission"] == v[1], "emission velocity of the catalogue")
            S.check(lm["velocityAbsorption"] == v[2], "absorption velocity of the catalogue")
            S.check(all("redshiftref" not in p[m] for m in names[:-1]), "models outside the catalogue are left alone")
            S.cover("linemeas")
        except APIException as e:
            S.check(not has and e.getErrorCode() == ErrorCode.INVALID_PARAMETER, "refused only for a missing source")
            S.cover("missing-source")
        finally:
            pd.read_csv = keep


def ranges(S):
    multi = S.choice("multi", ["", "merge", "full"])
    ids = ["b", "a", "c"][:S.choice("observations", list(range(1, int(S.params.get("obs", 2)) + 1)))]
    rng = [[S.real("lo" + o, 1, 30000), S.real("hi" + o, 1, 30000)] for o in ids]
    for lo, hi in rng:
        S.assume(lo < hi)
    x = bare({"multiObsMethod": multi, "lambdaRange": dict(zip(ids, rng)) if multi == "full" else rng[0]})
    lo, hi = x.get_lambda_range_min(), x.get_lambda_range_max()
    used = rng if multi == "full" else rng[:1]
    S.check(any(bool(lo == r[0]) for r in used), "lower limit is that of an observation")
    S.check(any(bool(hi == r[1]) for r in used), "upper limit is that of an observation")
    for r in used:
        S.check(lo <= r[0], "lower limit of all observations")
        S.check(hi >= r[1], "upper limit of all observations")
    S.check(x.get_observation_ids() == (ids if multi == "full" else [""]), "observations")
    for o, r in zip(ids, rng) if multi == "full" else [("", rng[0])]:
        g = x.get_lambda_range(o)
        S.check(g[0] == r[0], "range of an observation")
        S.check(g[1] == r[1], "range of an observation")
    S.cover("full" if multi == "full" else "single")


V1 = {"lineModelSolve": "LineModelSolve", "templateFittingSolve": "TemplateFittingSolve", "tplCombinationSolve": "TplcombinationSolve"}


def convert(S):
    names = ["galaxy", "star"][:int(S.params.get("models", 1))]
    version = S.choice("version", [1, 2, 3])
    if version == 3:
        try:
            ParametersConverterSelector().get_converter(3)
            S.check(False, "an unknown version is refused")
        except APIException as e:
            S.check(e.getErrorCode() == ErrorCode.INVALID_PARAMETER_FILE, "an unknown version is refused")
            S.cover("bad-version")
        return
    c = ParametersConverterSelector().get_converter(version)()
    if version == 2:
        raw = {"version": 2, "spectrumModels": list(names), "spectrumModel_other": {"a": 1}}
        for m in names:
            raw["spectrumModel_" + m] = {"x": m}
        before = copy.deepcopy(raw)
        out = c.convert(raw)
        S.check(raw == before, "the configuration of the user is not modified")
        S.check(out == dict({"version": 2, "spectrumModels": names, "other": {"a": 1}}, **{m: {"x": m} for m in names}), "models renamed, nothing else")
        S.cover("v2")
        return
    lsf = S.choice("lsf", ["GaussianConstantWidth", "GaussianNISPVSSPSF201707", "FROMSPECTRUMDATA"])
    raw = {"objects": list(names), "lambdarange": [1., 2.], "multiobsmethod": "", "LSF": {"LSFType": lsf, "width": 1.}, "notrenamed": "value"}
    exp = {"spectrumModels": list(names), "lambdaRange": [1., 2.], "multiObsMethod": "", "lsf": {"lsfType": "fromSpectrumData" if lsf[0] == "F" else "g" + lsf[1:], "width": 1.}, "notrenamed": "value"}
    for m in names:
        r, e = {"redshiftrange": [0., 1.], "linemeas_dzhalf": 0.1}, {"redshiftRange": [0., 1.], "lineMeasDzHalf": 0.1}
        raw[m], exp[m] = r, e
        solver = S.choice("solver" + m, list(V1) + ["", None])
        if solver is not None:
            r["method"] = V1.get(solver, "")
        st = []
        if solver:
            st.append(ZS)
            e[ZS] = {"method": solver}
        for k, old in V1.items():
            if S.bool(k + m):
                comp = S.choice("component" + k + m, ["tplfit", "fromspectrum"]) if k == "lineModelSolve" else "raw"
                r[old] = {"linemodel": {"continuumcomponent": comp, "tplratio_ismfit": True}} if k == "lineModelSolve" else {"ismfit": True}
                e.setdefault(ZS, {})[k] = {"lineModel": {"continuumComponent": {"tplfit": "tplFit", "fromspectrum": "fromSpectrum"}[comp], "tplRatioIsmFit": True}} \
                    if k == "lineModelSolve" else {"ismFit": True}
        lm = S.choice("linemeas" + m, ["LineMeasSolve", "", None])
        if lm is not None:
            r["linemeas_method"] = lm
        if lm:
            r["LineMeasSolve"] = {"linemodel": {"velocityfit": False}}
            st.append("lineMeasSolver")
            e["lineMeasSolver"] = {"method": "lineMeasSolve", "lineMeasSolve": {"lineModel": {"velocityFit": False}}}
        rl = S.choice("reliability" + m, [True, False, None])
        if rl is not None:
            r["enable_reliability"] = rl
            if rl or S.bool("model" + m):
                r["reliability_model"] = "file"
        if rl:
            st.append("reliabilitySolver")
            e["reliabilitySolver"] = {"method": "deepLearningSolver", "deepLearningSolver": {"reliabilityModel": "file"}}
        if st:
            e["stages"] = st
    before = copy.deepcopy(raw)
    out = c.convert(raw)
    S.check(raw == before, "the configuration of the user is not modified")
    S.check(out == exp, "converted configuration")
    x = bare(out)
    for m in names:
        S.check(x.get_redshift_solver_method(m) == (before[m].get("method") and {v: k for k, v in V1.items()}[before[m]["method"]] or None), "solver of the converted configuration")
    S.cover("converted")


def harness(S):
    mode = S.params["mode"]
    if mode in ("extend", "templates"):
        return extend(S, mode == "templates")
    {"read": read, "range": ranges, "convert": convert}[mode](S)
