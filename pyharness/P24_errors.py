"""Errors of one stage stay in that stage (ProcessFlow.py, ResultStoreOutput.py, ScopeManager.py)."""
#@ quick: set=pipe deadline=100
#@ quick: set=alone deadline=60
#@ thorough: set=pipe models=3 deadline=800
#@ thorough: set=alone models=3 deadline=400
#@ cover: init-failed all-failed no-solver redshift-failed sub-failed rel-failed load-failed linemeas-failed classif-failed result-failed no-fault alone refused second-run
#@ bounds: two (thorough three) spectrum models, each without solver, with template fitting or with the line model (with or without template ratio, reliability, line measurement from the redshift or from a catalogue); any stage may fail with an error of the core, of the interface or any other Python exception; a second spectrum processed afterwards without failure
#@ assumes: the C++ solvers, context and result store are stand-ins with a scope stack; calibration files not loaded
import os
import pysym
import pylibamazed.redshift as ns


class Stack:
    def __init__(self): self.s = []
    def size(self): return len(self.s)
    def push_back(self, v, t=0):
        types = [x[1] for x in self.s]
        if t and (t in types or (t == 1 and 2 in types) or (t == 2 and 3 in types)):
            raise ns.AmzException(ns.ErrorCode.SCOPESTACK_ERROR.value, "scope")
        self.s.append((v, t))
    def pop_back(self): self.s.pop()
    def back(self): return self.s[-1][0]
    def get_current_type(self): return ns.ScopeType(self.s[-1][1]) if self.s else ns.ScopeType.UNDEFINED
    def get_type_value(self, t):
        for v, u in self.s:
            if u == t: return v
        raise ns.AmzException(ns.ErrorCode.SCOPESTACK_ERROR.value, "no such scope")


class Result:
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return {"Redshift": 2.25, "Alv": 111., "Elv": 222., "FittedTplratioName": "r"}.get(n, 1.)


class Store(ns.Recorder):
    def HasDataset(self, *a): return False
    def HasCandidateDataset(self, *a): return False
    def getNbRedshiftCandidates(self, *a): return 2
    def GetCandidateResultType(self, *a): return "TExtremaResult"
    def GetExtremaResult(self, *a): return Result()
    def GetLineModelResult(self, *a): return Result()


class Ctx(ns.Recorder):
    def __init__(self):
        super().__init__()
        self.m_ScopeStack, self.store, self.hook = Stack(), Store(), None
    def GetResultStore(self): return self.store
    def GetCurrentCategory(self): return self.m_ScopeStack.get_type_value(1)
    def GetCurrentStage(self): return self.m_ScopeStack.get_type_value(2)
    def Init(self):
        if self.hook: self.hook("context")


ns.CProcessFlowContext = Ctx
import pylibamazed.ProcessFlow as PF
import pylibamazed.Reliability
from pylibamazed.Exception import APIException
from pylibamazed.Parameters import Parameters
from pylibamazed.ResultStoreOutput import ResultStoreOutput

HERE = os.path.dirname(os.path.abspath(__file__))
ctx = Ctx.GetInstance()
EC = ns.ErrorCode


class Lib:
    """stands for the calibration files"""
    rel = []

    def __init__(self, *a):
        self.line_catalogs, self.line_ratio_catalog_lists, self.templates_catalogs = {}, {}, {"all": None}
        self.photometric_bands = self.meiksin = self.calzetti = None
        self.reliability_models = {m: None for m in Lib.rel}
        self.reliability_parameters = {m: None for m in Lib.rel}

    def load_all(self): pass
    def get_sub_type(self, m, r): return ctx.hook("sub") or "type"


class Reader:
    def __init__(self, source): self.source_id = source
    def init(self): ctx.hook("reader")


def harness(S):
    alone, nm = S.params.get("set") == "alone", int(S.params.get("models", 2))
    models = ["galaxy", "star", "qso"][:nm]
    par = {"spectrumModels": models, "lambdaRange": [1, 2], "multiObsMethod": ""}
    cat = {}
    C = {}
    for i, m in enumerate(models):
        full = i == 0
        if alone:
            z = S.choice("z_" + m, [None, "", "templateFittingSolve"] + (["lineModelSolve"] if full else []))
        else:
            z = S.choice("z_" + m, [None, "templateFittingSolve", "lineModelSolve"] if full else [None, "tplCombinationSolve"] + (["lineModelSolve"] if i == 1 else []))
        c = {"z": z or None, "ratio": False, "rel": False, "model": False, "lm": False, "cat": False}
        sec = {"stages": ["redshiftSolver"] if z else []}
        if z is not None:
            sec["redshiftSolver"] = {"method": z}
        if z == "lineModelSolve":
            c["ratio"] = S.bool("ratio_" + m) if full and not alone else False
            sec["redshiftSolver"]["lineModelSolve"] = {"lineModel": {"lineRatioType": "tplRatio" if c["ratio"] else "rules"}}
        if z and full and not alone:
            c["rel"] = S.bool("rel_" + m)
            c["model"] = S.bool("relModel_" + m) if c["rel"] else False
        if alone or z == "lineModelSolve":
            c["lm"] = S.bool("lm_" + m)
        if c["lm"]:
            sec["stages"].append("lineMeasSolver")
            sec["lineMeasSolver"] = {"method": "lineMeasSolve", "lineMeasSolve": {"lineModel": {}}}
        if c["rel"]:
            sec["stages"].append("reliabilitySolver")
        if alone and S.bool("cat_" + m):
            c["cat"] = True
            cat[m] = os.path.join(HERE, "linemeas.tsv")
            sec.setdefault("lineMeasSolver", {"method": "lineMeasSolve", "lineMeasSolve": {"lineModel": {}}})
        par[m] = sec
        C[m] = c
    p = Parameters.__new__(Parameters)
    p.parameters = par
    Lib.rel = [m for m in models if C[m]["model"]]
    config = {"calibration_dir": "/", "extended_results": False}
    if alone:
        config["linemeascatalog"] = cat
        config["linemeas_catalog_columns"] = {m: {"Redshift": "z", "VelocityAbsorption": "va", "VelocityEmission": "ve"} for m in cat}
    kind = S.choice("kind", ["core", "interface", "python"])
    ctx.m_ScopeStack.s.clear()
    PF.CalibrationLibrary = Lib
    log, raised, faults = [], {}, True

    def hook(point):
        at = tuple(ctx.m_ScopeStack.get_type_value(t) if any(u == t for _, u in ctx.m_ScopeStack.s) else None for t in (1, 2))
        if point == "sub" and (at, point) in log:
            return
        log.append((at, point))
        if faults and S.bool("fault_%s_%s_%s" % (at[0], at[1], point)):
            raised[at + (point,)] = kind
            if kind == "core": raise ns.AmzException(EC.INTERNAL_ERROR.value, "failed", "/a/b/c/d.cpp", "f", 3)
            if kind == "interface": raise APIException(EC.INVALID_PARAMETER, "failed")
            raise KeyError("failed")

    ctx.hook = hook
    for n in ("CClassificationSolve", "CLineMeasSolve", "CLineModelSolve", "CTemplateFittingSolve", "CTplCombinationSolve"):
        setattr(getattr(ns, n), "Compute", lambda self, n=n: hook(n))
    pylibamazed.Reliability.ReliabilitySolve.Compute = lambda self, c: hook("reliability") or 0.5
    real = getattr(ResultStoreOutput, "_load_all", ResultStoreOutput.load_all)
    ResultStoreOutput._load_all = real

    def load_all(self):
        hook("load")
        return real(self)

    ResultStoreOutput.load_all = load_all
    incoherent = bool(cat) and any(c["z"] == "lineModelSolve" and c["lm"] for c in C.values())
    try:
        pf = PF.ProcessFlow(config, p)
    except ns.AmzException as e:
        S.check(incoherent and e.getErrorCode() == EC.INCOHERENT_CONFIG_OPTIONS, "configuration refused: %s" % e)
        S.cover("refused")
        return
    S.check(not incoherent, "line measurement of a model both from a catalogue and from its redshift accepted")

    def expect(source, failed):
        """stages run in turn and errors, given which stages fail"""
        order, errs = [], {}

        def fail(m, st, deps, code=None):
            errs[st + "_" + m if m else st] = code or {"core": "INTERNAL_ERROR", "interface": "INVALID_PARAMETER", "python": "PYTHON_API_ERROR"}[kind]
            for d in deps:
                errs[d[1] + "_" + d[0]] = "STAGE_NOT_RUN_BECAUSE_OF_PREVIOUS_FAILURE"

        def enabled(m):
            c = C[m]
            r = []
            if c["lm"]: r.append((m, "lineMeasSolver"))
            if c["rel"]: r.append((m, "reliabilitySolver"))
            if c["ratio"]: r.append((m, "subClassifSolver"))
            return r

        def do(m, st, what):
            order.append(((m, st), what))
            return (m, st, what) in failed

        bad = do(None, None, "reader")
        code = None
        if not bad and cat and source != "s1":
            bad, code = True, "INVALID_PARAMETER"
        if not bad:
            bad = do(None, None, "context")
        if bad:
            S.cover("init-failed")
            deps = []
            for m in models:
                if C[m]["z"]: deps.append((m, "redshiftSolver"))
                if C[m]["lm"] and not C[m]["z"]: deps.append((m, "linemeas_catalog_load"))
                deps += enabled(m)
            fail(None, "init", deps, code)
            return order, errs
        cls = {"templateFittingSolve": "CTemplateFittingSolve", "tplCombinationSolve": "CTplCombinationSolve", "lineModelSolve": "CLineModelSolve"}
        zs = [m for m in models if C[m]["z"]]
        lost = []
        for m in models:
            c = C[m]
            if c["z"]:
                if do(m, "redshiftSolver", cls[c["z"]]):
                    fail(m, "redshiftSolver", enabled(m))
                    lost.append(m)
                    S.cover("redshift-failed")
                    continue
                if c["ratio"] and do(m, "subClassifSolver", "sub"):
                    fail(m, "subClassifSolver", [])
                    S.cover("sub-failed")
                if c["rel"] and c["model"] and do(m, "reliabilitySolver", "reliability"):
                    fail(m, "reliabilitySolver", [])
                    S.cover("rel-failed")
                if c["lm"] and not c["cat"] and do(m, "linemeas_catalog_load", "loadz"):
                    fail(m, "linemeas_catalog_load", [(m, "lineMeasSolver")])
                    S.cover("load-failed")
                    continue
            if c["lm"] and c["cat"] == (not c["z"]):
                if not c["z"]: S.cover("alone")
                if do(m, "lineMeasSolver", "CLineMeasSolve"):
                    fail(m, "lineMeasSolver", [])
                    S.cover("linemeas-failed")
        if not zs:
            S.cover("no-solver")
        elif lost == zs:
            fail(None, "classification", [], "NO_CLASSIFICATION")
            S.cover("all-failed")
        elif do("classification", "classification", "CClassificationSolve"):
            fail(None, "classification", [])
            S.cover("classif-failed")
        if do(None, "load_result_store", "load"):
            fail(None, "load_result_store", [])
            S.cover("result-failed")
        return order, errs

    class P2(type(p)):
        def load_linemeas_parameters_from_result_store(self, output, m):
            hook("loadz")
            return super().load_linemeas_parameters_from_result_store(output, m)

    p.__class__ = P2
    source = S.choice("source", ["s1", "unknown"]) if cat else "s1"
    for run in range(2 if kind == "core" else 1):
        log.clear()
        raised.clear()
        try:
            rso = pf.run(Reader(source))
        except Exception as e:
            S.check(False, "an error escapes from the run: %s %s" % (type(e).__name__, e))
        order, errs = expect(source, dict(raised))
        S.check(ctx.m_ScopeStack.size() == 0, "the scope is restored")
        S.check(log == order, "the stages run are the ones that can")
        got = {k: v["code"] for k, v in rso.errors.items()}
        S.check(got == errs, "the errors reported are those of the failed stages and of the stages that need them")
        if not errs:
            S.cover("no-fault" if not run else "second-run")
        for m in models:
            for st in ("redshiftSolver", "linemeas_catalog_load", "lineMeasSolver", "reliabilitySolver", "subClassifSolver"):
                S.check(rso.has_error(m, st) == (st + "_" + m in errs), "error of each stage of each model")
            if (("classification", "classification"), "CClassificationSolve") not in order and C[m]["z"] and "init" not in errs:
                S.check(rso.has_error(m, "redshiftSolver"), "no classification only without any redshift")
            if ((m, "lineMeasSolver"), "CLineMeasSolve") in order:
                z, va, ve = (1.5, 300., 150.) if C[m]["cat"] else (2.25, 111., 222.)
                lm = par[m]["lineMeasSolver"]["lineMeasSolve"]["lineModel"]
                S.check(par[m].get("redshiftref") == z and lm.get("velocityAbsorption") == va and lm.get("velocityEmission") == ve, "redshift and velocities of the line measurement")
        S.check(rso.has_error(None, "init") == ("init" in errs) and rso.has_error("", "classification") == ("classification" in errs), "errors of the common stages")
        faults, source = False, "s1"
    S.observe("errors", len(errs))
