#!/usr/bin/env python3
"""Symbolic execution of the real Python code of /repo.

The harness runs the real functions on proxy values that hold z3 terms; every
time the code needs a truth value (if, and/or, `in`, sorting, numpy/pandas
comparisons ...) the engine asks z3 which outcomes are feasible under the path
condition and explores each of them by re-execution.  Assertions are decided by
z3 on the path condition.  In replay mode the same harness runs on ordinary
Python values taken from a z3 model, with no proxy and no solver.

  pysym.py run HARNESS OUTDIR [key=val ...]     explore, write OUTDIR/result.json
  pysym.py replay HARNESS FILE                  run one recorded input concretely
"""
import builtins
import glob
import importlib.util
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import types
from fractions import Fraction

REPO = os.environ.get("VERIF_REPO", "/repo")
PYROOT = os.path.join(REPO, "pylibamazed/python")
Z3DIR = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
sys.dont_write_bytecode = True

# ------------------------------------------------------------------ z3 import
_z3 = None


def z3():
    global _z3
    if _z3 is None:
        sys.path.append(Z3DIR)
        import z3 as m
        _z3 = m
    return _z3


def plain(v):
    """numpy scalars as Python values"""
    return v.item() if hasattr(v, "item") and hasattr(v, "dtype") else v


class Stop(BaseException):
    pass


class Pruned(Stop):
    pass


class Unsupported(Stop):
    pass


class Violation(Stop):
    def __init__(self, label, kind="assert"):
        self.label, self.kind = label, kind


S = None  # current session


# ------------------------------------------------------------------- proxies
def _term(x, bv=None):
    z = z3()
    if isinstance(x, (SymBool, SymNum, SymInt)):
        return x.e
    if isinstance(x, bool):
        return z.BoolVal(x)
    try:
        import numpy as np
        if isinstance(x, np.generic):
            x = x.item()
    except ImportError:
        pass
    if isinstance(x, int):
        return z.BitVecVal(x, bv) if bv else z.RealVal(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite constant mixed with a symbolic value")
        f = Fraction(x)
        return z.Q(f.numerator, f.denominator)
    if isinstance(x, Fraction):
        return z.Q(x.numerator, x.denominator)
    return None


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return S.branch(self.e)

    def __and__(self, o):
        t = _term(bool(o) if not isinstance(o, SymBool) else o)
        return SymBool(z3().And(self.e, t))

    __rand__ = __and__

    def __or__(self, o):
        t = _term(bool(o) if not isinstance(o, SymBool) else o)
        return SymBool(z3().Or(self.e, t))

    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3().Not(self.e))

    def __eq__(self, o):
        t = _term(o)
        return NotImplemented if t is None or not z3().is_bool(t) else SymBool(self.e == t)

    def __hash__(self):
        return 0


class SymNum:
    """a real number"""
    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def _b(self, o, f):
        t = _term(o)
        return NotImplemented if t is None else SymNum(f(self.e, t))

    def _c(self, o, f):
        if isinstance(o, float) and (o != o or o in (float("inf"), float("-inf"))):
            return f(0.0, o)
        t = _term(o)
        return NotImplemented if t is None else SymBool(f(self.e, t))

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._b(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._b(o, lambda a, b: b / a)
    def __neg__(self): return SymNum(-self.e)
    def __pos__(self): return self
    def __abs__(self): return self if self >= 0 else -self
    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._c(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self._c(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __bool__(self): return S.branch(self.e != 0)

    def __hash__(self): return 7

    def __float__(self): raise Unsupported("conversion of a symbolic number to float")

    def __repr__(self): return "<%s>" % self.e


class SymInt:
    """an unsigned integer of a fixed number of bits (flags)"""
    __slots__ = ("e", "w")
    __array_priority__ = 1000

    def __init__(self, e, w):
        self.e, self.w = e, w

    def _b(self, o, f):
        t = _term(o, self.w)
        return NotImplemented if t is None else SymInt(f(self.e, t), self.w)

    def _c(self, o, f):
        t = _term(o, self.w)
        return NotImplemented if t is None else SymBool(f(self.e, t))

    def __and__(self, o): return self._b(o, lambda a, b: a & b)
    __rand__ = __and__
    def __or__(self, o): return self._b(o, lambda a, b: a | b)
    __ror__ = __or__
    def __xor__(self, o): return self._b(o, lambda a, b: a ^ b)
    __rxor__ = __xor__
    def __lt__(self, o): return self._c(o, lambda a, b: z3().ULT(a, b))
    def __le__(self, o): return self._c(o, lambda a, b: z3().ULE(a, b))
    def __invert__(self): return SymInt(~self.e, self.w)
    def __gt__(self, o): return self._c(o, lambda a, b: z3().UGT(a, b))
    def __ge__(self, o): return self._c(o, lambda a, b: z3().UGE(a, b))
    def __eq__(self, o): return self._c(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self._c(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __bool__(self): return S.branch(self.e != 0)

    def __hash__(self): return 7

    def __repr__(self): return "<%s>" % self.e


class SymStr:
    """one string of a finite set, compared lazily"""
    __slots__ = ("name", "opts", "e")

    def __init__(self, name, opts, e):
        self.name, self.opts, self.e = name, opts, e

    def __eq__(self, o):
        if isinstance(o, SymStr):
            o = o.value()
        if not isinstance(o, str):
            return False if o is None else NotImplemented
        if o not in self.opts:
            return False
        return S.branch(self.e == self.opts.index(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def value(self):
        for i, o in enumerate(self.opts[:-1]):
            if S.branch(self.e == i):
                return o
        return self.opts[-1]

    def __hash__(self): return hash(self.value())

    def __str__(self): return self.value()

    def __format__(self, spec): return format(self.value(), spec)

    def __bool__(self): return bool(self.value())

    def __len__(self): return len(self.value())

    def __deepcopy__(self, memo): return self


def conc(x):
    """the plain value of a finite symbolic choice (decided by the engine)"""
    return x.value() if isinstance(x, SymStr) else x


def const(x):
    """a constant that compares (and hashes) like the symbolic numbers"""
    return x if S.concrete else SymNum(_term(x))


def column(values):
    """the values as a table column: an ordinary array in a concrete run"""
    import numpy as np
    if S.concrete:
        return np.array(values)
    a = np.empty(len(values), dtype=object)
    for i, v in enumerate(values):
        a[i] = v
    return a


def integer_columns():
    """pandas turns the result of & | ^ on a column of objects into booleans and
    leaves it as it is on a column of integers: symbolic integers get the latter"""
    import numpy as np
    import pandas as pd
    from pandas.core import ops
    old = ops.logical_op
    if getattr(old, "integer_columns", False):
        return

    def logical_op(left, right, op):
        if getattr(left, "dtype", None) == object and len(left) and isinstance(left[0], SymInt):
            r = right if isinstance(right, np.ndarray) else [right] * len(left)
            out = np.empty(len(left), dtype=object)
            for i in range(len(left)):
                out[i] = op(left[i], r[i])
            return out
        return old(left, right, op)

    logical_op.integer_columns = True
    ops.logical_op = logical_op


def both(*cs):
    r = True
    for c in cs:
        if isinstance(c, SymBool):
            r = c if r is True else (c & r)
        elif not c:
            return False
    return r


# ------------------------------------------------------------------- session
class Session:
    def __init__(self, prefix=(), values=None, params=None):
        self.prefix, self.values, self.params = list(prefix), values, params or {}
        self.concrete = values is not None
        self.decisions, self.pending = [], []
        self.vars, self.covers, self.obs = {}, {}, []
        self.asserts = {}
        self.nq = dict(sat=0, unsat=0, unknown=0)
        self.tsolve = 0.0
        if not self.concrete:
            z = z3()
            self.solver = z.Solver()
            self.solver.set("timeout", 10000)

    # --- inputs
    def _new(self, name, kind, mk, lo=None, hi=None):
        if name in self.vars:
            raise RuntimeError("duplicate symbolic input " + name)
        v = mk()
        self.vars[name] = (kind, v)
        return v

    def real(self, name, lo=None, hi=None):
        if self.concrete:
            return float(Fraction(self.values.get(name, "0")))
        v = self._new(name, "real", lambda: z3().Real(name))
        if lo is not None: self.solver.add(v >= _term(lo))
        if hi is not None: self.solver.add(v <= _term(hi))
        return SymNum(v)

    def bits(self, name, w):
        if self.concrete:
            return int(self.values.get(name, 0))
        return SymInt(self._new(name, "bits", lambda: z3().BitVec(name, w)), w)

    def bool(self, name):
        """a boolean input, decided at once"""
        if self.concrete:
            return bool(int(self.values.get(name, 0)))
        return self.branch(self._new(name, "bool", lambda: z3().Bool(name)))

    def choice(self, name, opts):
        """one of a finite list of values, decided at once"""
        if self.concrete:
            return opts[int(self.values.get(name, 0))]
        v = self._new(name, "int", lambda: z3().Int(name))
        self.solver.add(v >= 0, v < len(opts))
        for i in range(len(opts) - 1):
            if self.branch(v == i):
                return opts[i]
        return opts[-1]

    def string(self, name, opts):
        """one string of a finite list, decided only as far as the code compares it"""
        if self.concrete:
            return opts[int(self.values.get(name, 0))]
        v = self._new(name, "int", lambda: z3().Int(name))
        self.solver.add(v >= 0, v < len(opts))
        return SymStr(name, list(opts), v)

    # --- decisions
    def _check(self, c):
        t = time.time()
        r = str(self.solver.check(c))
        self.tsolve += time.time() - t
        self.nq[r] += 1
        return r

    def branch(self, e):
        z = z3()
        e = z.simplify(e)
        if z.is_true(e): return True
        if z.is_false(e): return False
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            t = self._check(e) != "unsat"
            f = self._check(z.Not(e)) != "unsat" if t else True
            if t and f:
                self.pending.append(self.decisions + [False])
            d = t
        self.decisions.append(d)
        self.solver.add(e if d else z.Not(e))
        return d

    def assume(self, c):
        if isinstance(c, SymBool):
            if not self.concrete:
                if self._check(c.e) == "unsat":
                    raise Pruned()
                self.solver.add(c.e)
                return
        if not c:
            raise Pruned()

    def check(self, c, label):
        self.asserts[label] = self.asserts.get(label, 0) + 1
        if isinstance(c, SymBool):
            z = z3()
            n = z.simplify(z.Not(c.e))
            if z.is_false(n):
                return
            r = self._check(n)
            if r == "sat":
                self.solver.add(n)
                raise Violation(label)
            return
        if not c:
            raise Violation(label)

    def cover(self, label):
        self.covers[label] = self.covers.get(label, 0) + 1

    def observe(self, name, v):
        self.obs.append((name, v))

    def model(self):
        z = z3()
        if str(self.solver.check()) != "sat":
            return None
        m = self.solver.model()
        out = {}
        for n, (k, v) in self.vars.items():
            x = m.eval(v, model_completion=True)
            if k == "real":
                if z.is_algebraic_value(x):
                    x = x.approx(30)
                out[n] = str(Fraction(x.numerator_as_long(), x.denominator_as_long()))
            elif k == "bool":
                out[n] = "1" if z.is_true(x) else "0"
            else:
                out[n] = str(x.as_long())
        self.last = m
        return out

    def obs_values(self):
        """observed values under the last model, as text"""
        res = []
        for n, v in self.obs:
            if isinstance(v, SymNum):
                x = self.last.eval(v.e, model_completion=True)
                if z3().is_algebraic_value(x):
                    x = x.approx(30)
                v = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
            elif isinstance(v, SymInt):
                v = self.last.eval(v.e, model_completion=True).as_long()
            elif isinstance(v, SymStr):
                v = v.opts[self.last.eval(v.e, model_completion=True).as_long()]
            res.append((n, plain(v)))
        return res


# --------------------------------------------------------------- stub library
def install_stub():
    """pylibamazed.redshift (the SWIG module over the C++ library) is replaced by
    recorders: the C++ side is the subject of the other harnesses."""
    import enum
    import re
    old = json.JSONEncoder.default

    def default(self, o):
        if isinstance(o, SymStr): return o.value()
        if isinstance(o, (SymNum, SymInt)): return "symbolic"  # the text goes to the recorders only
        return old(self, o)

    json.JSONEncoder.default = default
    ns = types.ModuleType("pylibamazed.redshift")

    def enum_from(name, path, pat):
        src = open(os.path.join(REPO, path)).read()
        m = re.search(pat, src, re.S)
        names = re.findall(r"^\s*([A-Z][A-Za-z0-9_]*)\s*(?:=\s*\d+)?\s*,?", re.sub(r"//[^\n]*|/\*.*?\*/", "", m.group(1), flags=re.S), re.M)
        return enum.Enum(name, [(n, i) for i, n in enumerate(names)])

    base = "RedshiftLibrary/RedshiftLibrary/common/"
    ns.ErrorCode = enum_from("ErrorCode", base + "errorcodes.i", r"enum class ErrorCode[^{]*\{(.*?)\}")
    wsrc = None
    for p in sorted(glob.glob(os.path.join(REPO, "RedshiftLibrary/RedshiftLibrary", "**", "*"), recursive=True)):
        if p.endswith((".i", ".h")) and re.search(r"enum class WarningCode", open(p, errors="replace").read()):
            wsrc = os.path.relpath(p, REPO)
            break
    ns.WarningCode = enum_from("WarningCode", wsrc, r"enum class WarningCode[^{]*\{(.*?)\}")
    ns.ScopeType = enum.Enum("ScopeType", [("UNDEFINED", 0), ("SPECTRUMMODEL", 1), ("STAGE", 2), ("METHOD", 3)])

    class AmzException(Exception):
        def __init__(self, code=0, message="", filename="", method="", line=0):
            super().__init__(message)
            self._a = (code, message, filename, method, line)

        def getErrorCode(self): return ns.ErrorCode(self._a[0])
        def getMessage(self): return self._a[1]
        def getFileName(self): return self._a[2]
        def getMethod(self): return self._a[3]
        def getLine(self): return self._a[4]
        def LogError(self): pass

    ns.AmzException = AmzException

    class CFlagWarning:
        log = []

        @classmethod
        def GetInstance(cls): return cls._i

        def warning(self, code, msg): CFlagWarning.log.append((code, msg))
        def resetFlag(self): CFlagWarning.log.clear()

    CFlagWarning._i = CFlagWarning()
    ns.CFlagWarning = CFlagWarning

    class CLog:
        @classmethod
        def GetInstance(cls): return cls._i

        def __getattr__(self, n): return lambda *a, **k: None

    CLog._i = CLog()
    ns.CLog = CLog

    class Recorder:
        """any other class of the C++ library"""

        def __init__(self, *a, **k): self.args, self.calls = a, []

        @classmethod
        def GetInstance(cls):
            if "_i" not in cls.__dict__:
                cls._i = cls()
            return cls._i

        def __getattr__(self, n):
            if n.startswith("__"):
                raise AttributeError(n)

            def call(*a, **k):
                self.calls.append((n, a))
                return None
            return call

    ns.Recorder = Recorder

    def getattr_(n):
        if n.startswith("__"):
            raise AttributeError(n)
        c = type(n, (Recorder,), {})
        setattr(ns, n, c)
        return c

    ns.__getattr__ = getattr_
    sys.path.insert(0, PYROOT)
    import pylibamazed
    sys.modules["pylibamazed.redshift"] = ns
    pylibamazed.redshift = ns
    return ns


def load(path):
    spec = importlib.util.spec_from_file_location("harness", path)
    m = importlib.util.module_from_spec(spec)
    m.pysym = sys.modules[__name__]
    spec.loader.exec_module(m)
    return m


# ---------------------------------------------------------------- exploration
FNS = set()


def _prof(frame, event, arg):
    if event == "call":
        co = frame.f_code
        if co.co_filename.startswith(PYROOT):
            FNS.add(os.path.relpath(co.co_filename, PYROOT) + ":" + co.co_qualname)


def run_path(mod, prefix, params, values=None, profile=False):
    global S
    S = Session(prefix, values, params)
    kind = label = None
    tb = ""
    if profile:
        sys.setprofile(_prof)
    try:
        mod.harness(S)
    except Pruned:
        kind = "pruned"
    except Unsupported as e:
        kind, label = "unsupported", str(e)
    except Violation as v:
        kind, label = "violation", v.label
    except Exception as e:
        kind, label = "violation", "unexpected exception %s: %s" % (type(e).__name__, str(e)[:200])
        tb = traceback.format_exc()[-1500:]
    finally:
        sys.setprofile(None)
    return S, kind, label, tb


_mod = None
_params = None


def explore_chunk(args):
    prefixes, budget = args
    t0 = time.time()
    st = dict(paths=0, pruned=0, unsupported=[], sat=0, unsat=0, unknown=0, solver=0.0, covers={}, asserts={}, depth=0, viol=[], samples=[])
    todo = list(prefixes)
    n = 0
    while todo and time.time() - t0 < budget:
        p = todo.pop()
        s, kind, label, tb = run_path(_mod, p, _params, profile=(n < 40))
        n += 1
        todo.extend(s.pending)
        for a, b in (("sat", "sat"), ("unsat", "unsat"), ("unknown", "unknown")):
            st[a] += s.nq[b]
        st["solver"] += s.tsolve
        st["depth"] = max(st["depth"], len(s.decisions))
        for d, o in (("covers", s.covers), ("asserts", s.asserts)):
            for k, v in o.items():
                st[d][k] = st[d].get(k, 0) + v
        if kind == "pruned":
            st["pruned"] += 1
        elif kind == "unsupported":
            st["unsupported"].append(label)
        elif kind == "violation":
            st["paths"] += 1
            k = sum(1 for v in st["viol"] if v[0] == label)
            if k < 2:
                st["viol"].append((label, s.model(), tb))
        else:
            st["paths"] += 1
            if n % 50 == 1 and len(st["samples"]) < 3:
                m = s.model()
                if m is not None:
                    st["samples"].append((m, [(a, repr(b)) for a, b in s.obs_values()]))
    st["fns"] = sorted(FNS)
    return st, todo


def run(path, out, params):
    global _mod, _params
    os.makedirs(out, exist_ok=True)
    t0 = time.time()
    install_stub()
    z3()
    _mod, _params = load(path), params
    deadline = float(params.get("deadline", 100))
    jobs = int(params.get("jobs", os.cpu_count() or 8))
    tot = dict(paths=0, pruned=0, unsupported=[], sat=0, unsat=0, unknown=0, solver=0.0, covers={}, asserts={}, depth=0, viol=[], samples=[], fns=[], deadline=0)

    def merge(st):
        for k in ("paths", "pruned", "sat", "unsat", "unknown", "solver"):
            tot[k] += st[k]
        tot["depth"] = max(tot["depth"], st["depth"])
        for d in ("covers", "asserts"):
            for k, v in st[d].items():
                tot[d][k] = tot[d].get(k, 0) + v
        for k in ("unsupported", "viol", "samples"):
            tot[k].extend(st[k])
        tot["fns"] = sorted(set(tot["fns"]) | set(st["fns"]))

    st, todo = explore_chunk(([[]], 1.0))
    merge(st)
    if todo:
        with mp.get_context("fork").Pool(jobs) as pool:
            live = []
            while (todo or live) and time.time() - t0 < deadline and len({v[0] for v in tot["viol"]}) < 10:
                while todo and len(live) < jobs:
                    k = max(1, min(len(todo) // jobs, 8))
                    live.append(pool.apply_async(explore_chunk, ((todo[-k:], 1.0),)))
                    del todo[-k:]
                rest = []
                for r in live:
                    if r.ready():
                        st, left = r.get()
                        merge(st)
                        todo.extend(left)
                    else:
                        rest.append(r)
                live = rest
                time.sleep(0.002)
            if todo or live:
                tot["deadline"] = 1
            pool.terminate()
    tot["wall"] = time.time() - t0
    per = {}
    for v in tot["viol"]:
        per.setdefault(v[0], []).append(v)
    tot["viol"] = [v for l in per.values() for v in l[:4]]
    for i, (label, model, tb) in enumerate(tot["viol"][:40]):
        with open("%s/viol-%d.json" % (out, i), "w") as f:
            json.dump({"label": label, "inputs": model, "trace": tb, "params": params}, f, indent=1)
    for i, (model, obs) in enumerate(tot["samples"][:40]):
        with open("%s/sample-%d.json" % (out, i), "w") as f:
            json.dump({"inputs": model, "obs": obs, "params": params}, f, indent=1)
    tot["nviol"] = len(tot.pop("viol"))
    tot["samples"] = len(tot["samples"])
    tot["unsupported"] = sorted(set(tot["unsupported"]))
    json.dump(tot, open(out + "/result.json", "w"))


def close(a, b):
    if isinstance(a, float) or isinstance(b, float):
        try:
            return abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(a)), abs(float(b)))
        except (TypeError, ValueError):
            return False
    return a == b


def replay(path, files):
    """prints one JSON line per file: {"status": ok|violation|diverged, "label": ...}"""
    install_stub()
    mod = load(path)
    for fn in files:
        d = json.load(open(fn))
        s, kind, label, tb = run_path(mod, [], d.get("params", {}), values=d["inputs"] or {})
        r = {"status": {None: "ok", "pruned": "diverged", "unsupported": "diverged"}.get(kind, "violation"), "label": label, "trace": tb}
        if kind is None and "obs" in d:
            got = [(n, repr(plain(v))) for n, v in s.obs]
            ok = len(got) == len(d["obs"])
            for (n, v), (n2, v2) in zip(got, d["obs"]):
                try:
                    same = v == v2 or close(float(v), float(v2))
                except ValueError:
                    same = False
                ok = ok and n == n2 and same
            if not ok:
                r["status"] = "diverged"
        print(json.dumps(r))


if __name__ == "__main__":
    sys.modules["pysym"] = sys.modules["__main__"]
    if sys.argv[1] == "run":
        run(sys.argv[2], sys.argv[3], dict(a.split("=", 1) for a in sys.argv[4:]))
    else:
        replay(sys.argv[2], sys.argv[3:])
