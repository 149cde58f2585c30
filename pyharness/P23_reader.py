"""Spectra handed over to the core (pylibamazed/AbstractSpectrumReader.py)."""
#@ quick: mode=mono rows=3 deadline=60
#@ quick: mode=full rows=2 deadline=60
#@ quick: mode=merge rows=2 deadline=60
#@ quick: mode=merge rows=3 nofilter=1 deadline=100
#@ quick: mode=bad deadline=60
#@ quick: mode=lsf deadline=30
#@ quick: mode=merge rows=1 obs=3 nofilter=1 deadline=30
#@ thorough: mode=mono rows=4 deadline=200
#@ thorough: mode=full rows=3 deadline=300
#@ thorough: mode=merge rows=3 deadline=600
#@ thorough: mode=merge rows=2 obs=3 nofilter=1 deadline=600
#@ thorough: mode=merge rows=2 unsorted=1 deadline=300
#@ thorough: mode=bad deadline=60
#@ thorough: mode=lsf deadline=60
#@ cover: mono full merge equal-waves too-close air vacuum-ignored refused warned not-warned photometry lsf-data lsf-first lsf-missing lsf-table
#@ bounds: one to three observations of two to four rows; symbolic wavelengths, flags and filter bounds; no filter, a filter on wavelengths, a filter on flags or both; every air/vacuum setting; LSF from the parameters or from the spectrum
#@ assumes: rows of one observation sorted in wavelength (except one thorough run); the C++ classes are recorders; no NaN
import numpy as np
import pysym
from pylibamazed.AbstractSpectrumReader import AbstractSpectrumReader
from pylibamazed.Container import Container
from pylibamazed.Exception import APIException
from pylibamazed.Parameters import Parameters
from pylibamazed.redshift import (CFlagWarning, CLSFFactory, CProcessFlowContext, CSpectrum, ErrorCode, WarningCode)
import pandas as pd
import pylibamazed.redshift as ns


def added(ctx, start):
    return [a[0] for n, a in ctx.calls[start:] if n == "addSpectrum"]


def calls(obj, name):
    return [a for n, a in obj.calls if n == name]


PARAM = {"gaussianConstantWidth": "width", "gaussianConstantResolution": "resolution", "gaussianNISPVSSPSF201707": "sourceSize",
         "gaussianVariableWidth": "gaussianVariableWidthFileName", "gaussianNISPSIM2016": None}


class Library:
    lsf = {"wave": ["table wave"], "width": ["table width"]}


def lsf_harness(S):
    """where the spread function and its parameter come from"""
    t = S.choice("lsfType", list(PARAM) + ["fromSpectrumData"])
    v = S.real("value", 0, 100)
    multi = S.choice("multi", ["", "full", "merge"])
    obs = [""] if not multi else ["b", "a"]
    pr = {"lambdaRange": {o: [1., 2.] for o in obs} if multi == "full" else [1., 2.], "multiObsMethod": multi, "lsf": {"lsfType": t}}
    if PARAM.get(t):
        pr["lsf"][PARAM[t]] = v
    p = Parameters.__new__(Parameters)
    p.parameters = pr
    r = AbstractSpectrumReader("id", p, Library(), 12)
    CFlagWarning.log.clear()
    for o in obs:
        for c, x in ((r.waves, [1., 2.]), (r.fluxes, [3., 4.]), (r.errors, [5., 6.])):
            c.append(np.array(x), o)
    # a spread function per observation, some may be missing
    dt = S.choice("dataType", [x for x in PARAM if x != "gaussianNISPSIM2016"]) if t == "fromSpectrumData" else None
    have, widths = [], {}
    if dt:
        r.lsf_type = dt
        for o in (list(reversed(obs)) if S.bool("reverse") else obs):
            if S.bool("lsf" + o):
                have.append(o)
                widths[o] = S.real("width" + o, 0, 100)
                r.lsf_data.append({"wave": ["wave" + o], "width": [widths[o], "more"]}, o)
    ctx, fac = CProcessFlowContext.GetInstance(), CLSFFactory.GetInstance()
    fstart, start = len(fac.calls), len(ctx.calls)
    try:
        r.init()
    except APIException as e:
        S.check(bool(dt) and not have and e.getErrorCode() == ErrorCode.LSF_NOT_LOADED, "refused only when no LSF is loaded")
        S.cover("lsf-missing")
        return
    S.check(not dt or len(have) > 0, "no LSF to use")
    made = [a for nm, a in fac.calls[fstart:] if nm == "Create"]
    real = dt or t
    S.check(len(made) == 1 and made[0][0] == real, "type of the LSF")
    args = made[0][1]
    cls = {"gaussianConstantWidth": ns.TLSFGaussianConstantWidthArgs, "gaussianConstantResolution": ns.TLSFGaussianConstantResolutionArgs,
           "gaussianNISPVSSPSF201707": ns.TLSFGaussianNISPVSSPSF201707Args, "gaussianVariableWidth": ns.TLSFGaussianVarWidthArgs,
           "gaussianNISPSIM2016": ns.TLSFArguments}[real]
    S.check(type(args) is cls, "kind of LSF argument")
    if real == "gaussianVariableWidth":
        o = have[0] if dt else None
        want = (["wave" + o], [widths[o], "more"]) if dt else (Library.lsf["wave"], Library.lsf["width"])
        S.check(list(args.args[0]) == want[0] and len(args.args[1]) == len(want[1]), "table of the LSF")
        S.check(args.args[1][0] == want[1][0], "widths of the LSF")
        S.cover("lsf-table")
    elif PARAM[real]:
        S.check(PARAM[real] in p.parameters["lsf"], "parameter of the LSF")
        S.check(p.parameters["lsf"][PARAM[real]] == (widths[have[0]] if dt else v), "parameter of the LSF is the one of the data or of the user")
    w = [c for c, m in CFlagWarning.log]
    S.check((WarningCode.MULTI_OBS_ARBITRARY_LSF in w) == (len(have) > 1), "warning when one LSF is chosen among several")
    if len(have) > 1:
        S.cover("lsf-first")
    sp = added(ctx, start)
    S.check(len(sp) == (2 if multi == "full" else 1), "one spectrum per observation")
    for s in sp:
        S.check(len(calls(s, "SetLSF")) == 1, "LSF set")


def harness(S):
    pysym.integer_columns()
    mode, n = S.params.get("mode", "mono"), int(S.params.get("rows", 2))
    if mode == "lsf":
        return lsf_harness(S)
    obs = [""] if mode in ("mono", "bad") else ["b", "a", "c"][:int(S.params.get("obs", 2))]
    lr = [S.real("lo", 0, 100), S.real("hi", 0, 100)]
    pr = {"lambdaRange": {o: list(lr) for o in obs} if mode == "full" else list(lr),
          "multiObsMethod": {"mono": "", "bad": ""}.get(mode, mode), "lsf": {"lsfType": "gaussianConstantWidth", "width": 2.0}}
    simple = mode == "merge" or mode == "full"
    air = S.bool("air") if not simple else False
    am = S.choice("airMethod", ["absent", "", "default", "ciddor1996"]) if not simple else ""
    if am != "absent":
        pr["airVacuumMethod"] = am
    fl = S.choice("filters", ["none", "flag", "wave", "both"]) if "nofilter" not in S.params else "none"
    pr["filters"] = []
    if fl in ("flag", "both"):
        pr["filters"].append({"key": "flag", "instruction": "&", "value": 1})
    if fl in ("wave", "both"):
        bound = S.real("bound", 0, 100)
        pr["filters"].append({"key": "waves", "instruction": "<", "value": bound})
    p = Parameters.__new__(Parameters)
    p.parameters = pr
    r = AbstractSpectrumReader("id", p, None, 12)
    CFlagWarning.log.clear()
    if air:
        r.set_air()
    W, G = {}, {}
    r.others["flag"] = Container()
    lsfdata = S.bool("lsfFromData") if mode == "mono" else False
    for k, o in enumerate(obs):
        W[o] = [S.real("w%s%d" % (o, i), 0, 100) for i in range(n)]
        G[o] = [S.bits("g%s%d" % (o, i), 2) for i in range(n)] if fl in ("flag", "both") else [1] * n
        if "unsorted" not in S.params:
            for i in range(1, n):
                S.assume(W[o][i - 1] < W[o][i])
        r.waves.append(pysym.column(W[o]), o)
        r.fluxes.append(np.array([100. * k + i for i in range(n)]), o)
        r.errors.append(np.array([1000. * k + 2 * i + 1 for i in range(n)]), o)
        r.others["flag"].append(pysym.column(G[o]), o)
    if lsfdata:
        pr["lsf"] = {"lsfType": "fromSpectrumData"}
        r.lsf_type = "gaussianConstantWidth"
        r.lsf_data.append(np.array([(5.,)], dtype=[("width", "f8")]))
        S.cover("lsf-data")
    phot = S.bool("phot") if mode in ("mono", "full") else False
    if phot:
        r.photometric_data = [pd.DataFrame({"Name": ["u", "g"], "Flux": [1., 2.], "Error": [.1, .2]})]
        S.cover("photometry")
    ctx = CProcessFlowContext.GetInstance()
    start = len(ctx.calls)
    fac = CLSFFactory.GetInstance()
    fstart = len(fac.calls)
    bad = S.choice("bad", ["size", "name", "extra", "obs", "nothing"]) if mode == "bad" else ""
    want = None
    if bad == "size":
        r.fluxes.append(np.array([1.]), "z")
        want = ErrorCode.INVALID_SPECTRUM
    if bad == "name":
        c = S.choice("which", [r.waves, r.fluxes, r.errors, r.others["flag"]])
        c.append(c.data.pop(""), "z")
        want = ErrorCode.INVALID_SPECTRUM
    if bad == "extra":
        r.others["more"] = Container()
        want = ErrorCode.INVALID_SPECTRUM
    if bad == "obs":
        for c in r._all_containers():
            c.append(c.data.pop(""), "z")
        want = ErrorCode.INVALID_NAME
    try:
        r.get_spectrum()
        S.check(False, "a spectrum is available only after init")
    except APIException as e:
        S.check(e.getErrorCode() == ErrorCode.SPECTRUM_NOT_LOADED, "a spectrum is available only after init")
    # rows that pass the filters
    keep = {o: [i for i in range(n) if (fl not in ("flag", "both") or bool((G[o][i] & 1) != 0)) and (fl not in ("wave", "both") or bool(W[o][i] < bound))] for o in obs}
    rows = []
    if mode == "merge":
        rest = [(o, i) for o in obs for i in keep[o]]
        while rest:  # by increasing wavelength, equal ones nudged apart
            m = rest[0]
            for x in rest[1:]:
                if W[x[0]][x[1]] < W[m[0]][m[1]]:
                    m = x
            grp = [x for x in rest if x is m or bool(W[x[0]][x[1]] == W[m[0]][m[1]])]
            rest = [x for x in rest if x not in grp]
            if len(grp) > 1:
                S.cover("equal-waves")
            rows.append(grp)
        exp = [W[g[0][0]][g[0][1]] + k * 1e-10 for g in rows for k in range(len(g))]
        if not all(bool(a < b) for a, b in zip(exp, exp[1:])):
            want = (ErrorCode.UNALLOWED_DUPLICATES, ErrorCode.UNSORTED_ARRAY)
            S.cover("too-close")
    empty = any(not keep[o] for o in obs)
    try:
        r.init()
    except APIException as e:
        c = e.getErrorCode()
        if want is None:
            S.check(empty and c == ErrorCode.INVALID_SPECTRUM, "refused: %s" % e)
            S.cover("all-filtered")
        else:
            S.check(c in want if isinstance(want, tuple) else c == want, "refused for the wrong reason: %s" % e)
            S.cover("refused")
        S.check(not added(ctx, start), "nothing handed over when refused")
        return
    except ValueError as e:
        if empty and mode == "merge" and all(not k for k in keep.values()):
            return  # nothing left to merge
        raise
    S.check(want is None, "inconsistent data accepted")
    S.cover(mode)
    # wavelength frame
    method = {"absent": "", "default": "morton2000"}.get(am, am)
    warned = [c for c, m in CFlagWarning.log]
    if air:
        method = method or "morton2000"
        S.cover("air")
    S.check((WarningCode.AIR_VACUUM_CONVERSION_IGNORED in warned) == (not air and method != ""), "warning for a conversion that is ignored")
    if not air and method:
        method = ""
        S.cover("vacuum-ignored")
    tight = any(bool(W[o][0] > lr[0]) or bool(W[o][-1] < lr[1]) for o in obs)
    loose = not empty and all(bool(W[o][keep[o][0]] <= lr[0]) and bool(W[o][keep[o][-1]] >= lr[1]) for o in obs)
    w = WarningCode.SPECTRUM_WAVELENGTH_TIGHTER_THAN_PARAM in warned
    if "unsorted" not in S.params:
        if tight:
            S.check(w, "a lambda range beyond the spectrum is reported")
            S.cover("warned")
        if loose:
            S.check(not w, "a lambda range inside the spectrum is not reported")
            S.cover("not-warned")
    # spectra
    sp = added(ctx, start)
    names = [""] if mode == "merge" else obs
    S.check(len(sp) == len(names), "one spectrum per observation")
    made = [a for nm, a in fac.calls[fstart:] if nm == "Create"]
    S.check(len(made) == 1 and made[0][0] == "gaussianConstantWidth", "type of the LSF")
    if lsfdata:
        S.check(p.parameters["lsf"].get("width") == 5., "width of the LSF of the spectrum")
    for s, o in zip(sp, names):
        S.check(type(s) is CSpectrum and r.get_spectrum(o) is s, "spectrum of each observation")
        ax, sig = s.args
        S.check(ax.args[1] == method, "air/vacuum conversion")
        S.check(calls(s, "setObsID") == [(o,)] and calls(s, "SetName") == [("12",)], "name and observation")
        S.check(len(calls(s, "SetLSF")) == 1, "LSF set")
        ph = calls(s, "SetPhotData")
        S.check(len(ph) == phot and (not phot or ph[0][0].args == (("u", "g"), (1., 2.), (.1, .2))), "photometry")
        wv, fx, er = list(ax.args[0]), list(sig.args[0]), list(sig.args[1])
        if mode != "merge":
            k = obs.index(o)
            S.check(fx == [100. * k + i for i in keep[o]], "fluxes of the rows kept, in order")
            S.check(er == [1000. * k + 2 * i + 1 for i in keep[o]], "errors of the rows kept, in order")
            S.check(len(wv) == len(fx), "wavelengths of the rows kept")
            for a, i in zip(wv, keep[o]):
                S.check(a == W[o][i], "wavelengths of the rows kept, in order")
        else:
            S.check(len(wv) == len(fx) == len(er) == len(exp), "all rows of all observations merged")
            for a, b in zip(wv, exp):
                S.check(a == b, "merged wavelengths, equal ones nudged apart")
            at = 0
            for g in rows:
                fe = sorted((100. * obs.index(o) + i, 1000. * obs.index(o) + 2 * i + 1) for o, i in g)
                S.check(sorted(zip(fx[at:at + len(g)], er[at:at + len(g)])) == fe, "fluxes and errors follow their wavelengths")
                at += len(g)
    S.check(list(r.get_filtered_others(obs[0])["flag"]) is not None and len(r.get_filtered_others(obs[0])) == len(keep[obs[0]]), "other columns filtered alike")
    S.observe("rows", sum(len(k) for k in keep.values()))
