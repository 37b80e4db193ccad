"""Proof harness engine.

A contract is a python function `contract(h)` that obtains arbitrary inputs from h, calls the real functions of the
package and states what must hold (h.eq, h.check, h.raises). The same text is run in two ways:

* symbolic: the inputs are unconstrained symbols; all feasible paths through the real code are enumerated; each statement
  becomes one proof obligation per path, decided by the normal form of the algebra or by z3. No bound on values, and none
  on the number of rows where the batch is symbolic ("N").
* concrete: random, special and counterexample inputs are run through the unmodified package, to replay refutations (and
  as bounded stand-in where the symbolic run leaves the supported fragment).
"""
import json
import math
import os
import random
import sys
import time
import traceback
import warnings
import zlib
from fractions import Fraction
import numpy as np
from . import alg
from . import sym as S
from . import text
from . import arr as A
from . import load
from .sym import Sym, SymBool, Unsupported, Infeasible, PathLimit, as_sym
from .arr import SArr, Dim, as_sarr
from .alg import AlgError, R_atom


class Skip(Exception):
    """concrete input outside the precondition"""


class Violation(Exception):
    def __init__(self, label, msg):
        Exception.__init__(self, "%s: %s" % (label, msg))
        self.label, self.msg = label, msg


class Ctx(S.Ctx):
    def __init__(self, *a, **k):
        S.Ctx.__init__(self, *a, **k)
        self.hooks = {}
        self.choices = {}
        self.dims = {}
        self.samples = [dict() for _ in range(self.nsamples)]
        self.nsample0 = self.nsamples

    def new_input(self, name, gen=None, special=(), integer=False):
        a = alg.T.get("var", name, name)
        if name in self.inputs:
            return Sym("f", R_atom(a))
        a.is_int = integer
        self.inputs[name] = a.idx
        for k, s in enumerate(self.samples):
            s[a.idx] = draw(self.rng, gen, special, integer)
        return Sym("f", R_atom(a))

    def dim_sym(self, name):
        v = self.new_input("#" + name, gen=(1, 6), integer=True)
        self.assume(self.sign_formula(v.v - alg.RF_ONE, S.POS | S.ZER))
        return v


def fresh_real(name):
    c = S.cur()
    return c.new_input(c.new_fresh(name))


S.fresh_real = fresh_real


def draw(rng, gen, special, integer=False):
    if len(special) and rng.rand() < 0.06:
        return float(special[rng.randint(len(special))])
    lo, hi = gen if gen is not None else (-5.0, 5.0)
    if integer:
        return float(rng.randint(int(math.ceil(lo)), int(math.floor(hi)) + 1))
    if gen is not None and len(gen) == 2 and lo > 0 and hi / lo > 50:
        v = math.exp(rng.uniform(math.log(lo), math.log(hi)))
    else:
        v = rng.uniform(lo, hi)
    # short decimals: exactly representable in reports and friendly to exact replays
    r = float("%.4g" % v)
    return r if lo <= r <= hi else v


class Base(object):
    sym = False

    # inputs
    def vec(self, name, k, **kw):
        return self.rows(name, k, None, **kw)

    def angle(self, name, gen=(-180, 180), special=(0, 90, -90, 180, 45, 360, 270), **kw):
        return self.real(name, gen=gen, special=special, **kw)

    def pos(self, name, gen=(0.1, 10), **kw):
        return self.real(name, lo=0, lo_strict=True, gen=gen, **kw)

    def param(self, cls, **kw):
        return cls(**kw)


# ---------------------------------------------------------------------------------------------------------------------
class SymMode(Base):
    sym = True

    def __init__(self, ctx, pkg):
        self.c = ctx
        self.pkg = pkg
        self.ct = pkg.root
        self.np = pkg.np
        self.goals = []
        self.formulas = {}
        self.rows_used = set()
        self.rng = None

    def real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False, gen=None, special=(), integer=False):
        c = self.c
        new = name not in c.inputs
        if gen is None:
            gen = (lo if lo is not None else -5.0, hi if hi is not None else 5.0)
        v = c.new_input(name, gen, special, integer)
        if new:
            if lo is not None:
                c.assume(c.sign_formula((v - lo).v, S.POS | (0 if lo_strict else S.ZER)))
            if hi is not None:
                c.assume(c.sign_formula((v - hi).v, S.NEG | (0 if hi_strict else S.ZER)))
        return v

    def numeral(self, name, spec, lo, hi, special=(), hi_strict=False):
        """a number >= 0 written in a format: its text and its value"""
        v = self.real(name, lo=lo, hi=hi, special=special, integer=spec[-1] == "d", hi_strict=hi_strict)
        return text.numeral(v, False, spec), v

    def whole(self, x):
        """is the number a whole one?"""
        return load.is_integral(as_sym(x))

    re = text.ReModule()

    def number(self, t):
        return text.to_number(t) if isinstance(t, text.Text) else float(t)

    def concat(self, *parts):
        return text.concat(parts)

    def rows(self, name, k, batch, **kw):
        gens = kw.pop("gens", None)

        def mk(tag, j):
            k2 = dict(kw)
            if gens is not None:
                k2["gen"] = gens[j]
            return self.real("%s%s" % (name, tag), **k2)
        if batch is None:
            return load.np_array([mk("[%d]" % j, j) for j in range(k)])
        if isinstance(batch, str):
            d = np.empty((1, k), dtype=object)
            for j in range(k):
                d[0, j] = mk("[%s,%d]" % (batch, j), j)
            self.rows_used.add(batch)
            for j in range(k):
                S.on_axis(batch, d[0, j])
            return SArr(d, (Dim(1, (batch,)), k))
        return load.np_array([[mk("[%d,%d]" % (i, j), j) for j in range(k)] for i in range(batch)])

    def col(self, name, batch, **kw):
        if batch is None:
            return self.real(name, **kw)
        return self.rows(name, 1, batch, **kw)[..., 0]

    def row(self, a, batch):
        """the generic row of a batch (every row in turn, as far as the proof goes)"""
        if not isinstance(a, SArr) or a.ndim < 1 or not A.is_dim(a.dims[0]) or getattr(a, "flips", None):
            raise Unsupported("no row of %s" % batch)
        if a.ndim == 1:
            return a.data[0]
        return SArr(a.data[0], a.dims[1:])

    def choose(self, name, options):
        options = list(options)
        n = len(options)
        if name in self.c.choices:
            return options[self.c.choices[name]]
        i = 0
        while i < n - 1:
            if self.c.decide(("free", "choose:%s:%d" % (name, i), True)):
                break
            i += 1
        self.c.choices[name] = i
        return options[i]

    def uf(self, name, *args):
        return S.uf(name, *args)

    def guard(self, cond):
        pass

    def assume(self, cond):
        if type(cond) is SArr:
            f = S.f_and(*[S.to_bool(x) for x in cond.data.flat])
        else:
            f = S.to_bool(cond)
        self.c.assume(f)
        if f[0] == "b" and not f[1]:
            raise Infeasible()

    def note(self, text):
        self.c.assumptions.add(text)

    # goals
    def _goal(self, label, f, detail=""):
        st, be, model = self.c.prove(f)
        self.goals.append((label, st, be, detail if st == "proved" else (detail + " " + S.f_repr(f)[:400]), model))
        if st != "proved":
            self.formulas[len(self.goals) - 1] = f
        if st == "refuted":
            raise PathDone()

    def _fail(self, label, detail):
        self.goals.append((label, "refuted", "shape", detail, None))
        raise PathDone()

    def eq(self, label, a, b, tol=None, scale=None):
        if a is None or b is None:
            if a is b:
                self.goals.append((label, "proved", "normal-form", "", None))
                return
            return self._fail(label, "%r versus %r" % (a, b))
        if isinstance(a, (str, bool, np.bool_, dict)) or isinstance(b, (str, bool, np.bool_, dict)):
            if isinstance(a, str) == isinstance(b, str) and a == b:
                self.goals.append((label, "proved", "normal-form", "", None))
                return
            return self._fail(label, "%r versus %r" % (a, b))
        a, b = as_sarr(a), as_sarr(b)
        if len(a.dims) != len(b.dims) or not all(A.dims_equal(x, y) for x, y in zip(a.dims, b.dims)):
            return self._fail(label, "shape %s versus %s" % (a.dims, b.dims))
        n = max(a.data.size, b.data.size)
        if a.data.shape != b.data.shape:
            x, y = np.broadcast_arrays(a.data, b.data)
        else:
            x, y = a.data, b.data
        fs = []
        for i in np.ndindex(*x.shape):
            if x[i] is None or y[i] is None:
                if x[i] is None and y[i] is None:
                    continue
                return self._fail(label, "None")
            p, q = as_sym(x[i]), as_sym(y[i])
            if p.k != q.k or (p.k == "i" and p.v != q.v):
                return self._fail("%s%s" % (label, list(i) if i else ""), "%s versus %s" % (show(p), show(q)))
            if p.k == "f":
                d = p.v - q.v
                f = self.c.sign_formula(d, S.ZER)
                self._goal("%s%s" % (label, list(i) if i else ""), f, "")
            else:
                self.goals.append(("%s%s" % (label, list(i) if i else ""), "proved", "normal-form", "", None))
        if n == 0:
            self.goals.append((label, "proved", "normal-form", "", None))

    def check(self, label, cond):
        if type(cond) is SArr:
            for x in cond.data.flat:
                self._goal(label, S.to_bool(x))
            if cond.data.size == 0:
                self._goal(label, S.TRUE)
            return
        if type(cond) is Sym:
            cond = (cond != 0)
        self._goal(label, S.to_bool(cond) if isinstance(cond, (bool, np.bool_, SymBool)) else (S.TRUE if cond else S.FALSE))

    def nonan(self, label, a):
        a = as_sarr(a)
        for x in a.data.flat:
            if as_sym(x).k != "f":
                return self._fail(label, show(as_sym(x)))
        self.goals.append((label, "proved", "normal-form", "", None))

    def allnan(self, label, a):
        a = as_sarr(a)
        for x in a.data.flat:
            if as_sym(x).k != "n":
                return self._fail(label, show(as_sym(x)))
        self.goals.append((label, "proved", "normal-form", "", None))

    def isnan(self, x):
        x = A.out_scalar(x) if type(x) is SArr else x
        if type(x) is SArr:
            return any(as_sym(e).k == "n" for e in x.data.flat)
        return as_sym(x).k == "n"

    def raises(self, label, exc, fn):
        try:
            r = fn()
        except exc:
            self.goals.append((label, "proved", "execution", "", None))
            return
        except (Unsupported, Infeasible, PathLimit, AlgError, PathDone):
            raise
        return self._fail(label, "no exception, returned %r" % (type(r),))

    def item(self, x, *idx):
        """element of a result as scalar"""
        return x[idx]

    # generic pieces usable in contracts
    def sqrt(self, x):
        return S.fn_sqrt(as_sym(x))

    def snapshot(self, x):
        return SArr(x.data.copy(), x.dims) if type(x) is SArr else x


class PathDone(Exception):
    """a goal of this path was refuted; the rest of the path is not needed"""


def show(p):
    return {"n": "NaN", "i": "inf"}.get(p.k) or repr(p)[:200]


# ---------------------------------------------------------------------------------------------------------------------
class FloatMode(Base):
    def __init__(self, ct, seed, values=None, choices=None, dims=None, tol=1e-6):
        self.ct = ct
        self.np = np
        self.rng = np.random.RandomState(seed % (2 ** 32))
        self.fixed = dict(values or {})
        self.fixed_choices = dict(choices or {})
        self.fixed_dims = dict(dims or {})
        self.values = {}
        self.choices = {}
        self.dims = {}
        self.tol = tol
        self.evals = 0
        self.long = False

    def real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False, gen=None, special=(), integer=False):
        if name in self.values:
            return self.values[name]
        if gen is None:
            gen = (lo if lo is not None else -5.0, hi if hi is not None else 5.0)
        if name in self.fixed:
            v = self.fixed[name]
        else:
            v = draw(self.rng, gen, special, integer)
        if lo is not None and (v < lo or (lo_strict and v <= lo)) or hi is not None and (v > hi or (hi_strict and v >= hi)):
            raise Skip()
        if integer:
            v = int(round(v))
        self.values[name] = v
        return v

    def numeral(self, name, spec, lo, hi, special=(), hi_strict=False):
        t = spec % self.real(name, lo=lo, hi=hi, special=special, integer=spec[-1] == "d", hi_strict=hi_strict)
        if float(t) > hi or hi_strict and float(t) >= hi:
            raise Skip()
        return t, float(t)

    def whole(self, x):
        return abs(x - round(x)) < 1e-9

    re = text.ReModule()

    def number(self, t):
        return float(t)

    def concat(self, *parts):
        return "".join(parts)

    def rows(self, name, k, batch, **kw):
        gens = kw.pop("gens", None)

        def mk(tag, j):
            k2 = dict(kw)
            if gens is not None:
                k2["gen"] = gens[j]
            return self.real("%s%s" % (name, tag), **k2)
        if batch is None:
            return np.array([mk("[%d]" % j, j) for j in range(k)], dtype=float)
        if isinstance(batch, str):
            n = self.dim(batch)
            out = np.zeros((n, k))
            rows = range(n)
            if n > 16:  # long lists: a few rows, over and over, and the generic one
                rng = np.random.RandomState(zlib.crc32(("%s %d" % (name, n)).encode()))
                few = np.array([[self.some(rng, dict(kw, gen=gens[j]) if gens is not None else kw) for j in range(k)] for _ in range(7)])
                out[:] = few[np.arange(n) % 7]
                rows = [self.row0(batch, n)]
            for i in rows:
                for j in range(k):
                    nm = "[%s,%d]" % (batch, j)
                    if i == self.row0(batch, n):
                        out[i, j] = mk(nm, j)
                    else:
                        out[i, j] = mk("[%s#%d,%d]" % (batch, i, j), j)
            return out
        return np.array([[mk("[%d,%d]" % (i, j), j) for j in range(k)] for i in range(batch)], dtype=float).reshape(batch, k)

    def some(self, rng, kw):
        lo, hi = kw.get("lo"), kw.get("hi")
        gen = kw.get("gen") or (lo if lo is not None else -5.0, hi if hi is not None else 5.0)
        while True:
            v = draw(rng, gen, kw.get("special", ()), kw.get("integer", False))
            if not (lo is not None and (v < lo or kw.get("lo_strict") and v <= lo) or hi is not None and (v > hi or kw.get("hi_strict") and v >= hi)):
                return v

    def row0(self, batch, n):
        return self.dims[batch][1]

    def dim(self, batch):
        if batch not in self.dims:
            n = self.fixed_dims.get(batch)
            if n is None:
                n = int(self.rng.choice([1, 2, 3, 4, 5]))
                if self.long and not any(d[0] > 16 for d in self.dims.values()):
                    n = int(self.rng.choice([33, 70, 131, 300, 1100, 5200, 10100]))
            self.dims[batch] = (n, int(self.rng.randint(n)))
        return self.dims[batch][0]

    def col(self, name, batch, **kw):
        if batch is None:
            return self.real(name, **kw)
        return self.rows(name, 1, batch, **kw)[..., 0]

    def row(self, a, batch):
        a = np.asarray(a)
        if a.ndim < 1 or a.shape[0] != self.dim(batch):
            raise AssertionError("%s rows expected, got shape %s" % (self.dim(batch), a.shape))
        return a[self.dims[batch][1]]

    def choose(self, name, options):
        options = list(options)
        if name not in self.choices:
            i = self.fixed_choices.get(name)
            if i is None:
                i = int(self.rng.randint(len(options)))
            self.choices[name] = i
        return options[self.choices[name]]

    def guard(self, cond):
        if not bool(np.all(cond)):
            raise Skip()

    def assume(self, cond):
        if not bool(np.all(cond)):
            raise Skip()

    def note(self, text):
        pass

    def eq(self, label, a, b, tol=None, scale=None):
        self.evals += 1
        if a is None or b is None:
            if a is b:
                return
            raise Violation(label, "%r versus expected %r" % (a, b))
        if isinstance(a, (str, bool, np.bool_, dict)) or isinstance(b, (str, bool, np.bool_, dict)):
            if a == b:
                return
            raise Violation(label, "%r versus expected %r" % (a, b))
        try:
            a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        except Exception as e:
            raise Violation(label, "not comparable: %s" % e)
        if a.shape != b.shape:
            raise Violation(label, "shape %s versus expected %s" % (a.shape, b.shape))
        na, nb = np.isnan(a), np.isnan(b)
        if (na != nb).any():
            raise Violation(label, "%s versus expected %s" % (short(a), short(b)))
        t = (tol if tol is not None else self.tol)
        sc = scale if scale is not None else 0.0
        with np.errstate(all="ignore"):
            m = np.abs(a - b) > t * np.maximum(1.0, np.maximum(np.abs(b), np.abs(sc)))
            m |= (np.isinf(a) | np.isinf(b)) & (a != b)
        m &= ~na
        if m.any():
            raise Violation(label, "%s versus expected %s" % (short(a), short(b)))

    def check(self, label, cond):
        self.evals += 1
        if not bool(np.all(cond)):
            raise Violation(label, "condition is false")

    def nonan(self, label, a):
        self.evals += 1
        if not np.isfinite(np.asarray(a, dtype=float)).all():
            raise Violation(label, "not finite: %s" % short(a))

    def allnan(self, label, a):
        self.evals += 1
        if not np.isnan(np.asarray(a, dtype=float)).all():
            raise Violation(label, "expected NaN, got %s" % short(a))

    def isnan(self, x):
        return bool(np.isnan(x).any())

    def raises(self, label, exc, fn):
        self.evals += 1
        try:
            r = fn()
        except exc:
            return
        raise Violation(label, "no exception; returned %s" % short(r))

    def item(self, x, *idx):
        return x[idx]

    def sqrt(self, x):
        return math.sqrt(x)

    def snapshot(self, x):
        return np.array(x, copy=True)


def short(x):
    try:
        s = np.array2string(np.asarray(x), precision=8, threshold=12)
    except Exception:
        s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


# ---------------------------------------------------------------------------------------------------------------------
# coverage of the package's functions
# ---------------------------------------------------------------------------------------------------------------------
class FuncTrace(object):
    def __init__(self, root):
        self.root = os.path.join(os.path.realpath(root), load.PKG) + os.sep
        self.root2 = os.path.join(root, load.PKG) + os.sep
        self.seen = {}
        self.on = False

    def start(self):
        m = sys.monitoring
        self.tool = 3
        try:
            m.use_tool_id(self.tool, "verif")
        except ValueError:
            return
        m.register_callback(self.tool, m.events.PY_START, self.hit)
        m.set_events(self.tool, m.events.PY_START)
        self.on = True

    def hit(self, code, off):
        f = code.co_filename
        if f.startswith(self.root) or f.startswith(self.root2):
            self.seen[(os.path.basename(f), code.co_qualname)] = code.co_firstlineno
        return sys.monitoring.DISABLE

    def stop(self):
        if self.on:
            m = sys.monitoring
            m.set_events(self.tool, 0)
            m.free_tool_id(self.tool)
            self.on = False


# ---------------------------------------------------------------------------------------------------------------------
class Result(object):
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.infeasible = 0
        self.goals = 0
        self.by_backend = {}
        self.proved = 0
        self.unknown = []
        self.refuted = []  # (label, detail, model-dict, choices, dims)
        self.exceptions = []
        self.unsupported = []
        self.assumptions = set()
        self.functions = {}
        self.z3_time = 0.0
        self.z3_calls = 0
        self.time = 0.0
        self.witness = 0
        self.labels = set()
        self.valid = []

    def refuted_full(self):
        return [r + (v,) for r, v in zip(self.refuted, self.valid)]

    @property
    def complete(self):
        return not self.unknown and not self.unsupported and not self.exceptions and not self.refuted and self.goals > 0


def model_inputs(ctx, model):
    """concrete inputs from a model of the path"""
    if model is None:
        model = {}
    vals = {}
    T = alg.T
    pi = T.get("pi", "pi", "pi").idx
    for name, idx in ctx.inputs.items():
        if idx in model:
            vals[name] = float(model[idx])
    inv = {idx: name for name, idx in ctx.inputs.items()}
    for a in T.atoms:
        if a.kind == "sin" and a.idx in model and a.angle is not None:
            cidx = T.lookup("cos", a.args[0])
            if cidx is None or cidx.idx not in model:
                continue
            r = a.angle
            if r.den or len(r.num.t) != 1:
                continue
            (m, c), = r.num.t.items()
            coef = float(c)
            var = None
            ok = True
            for i, e in m:
                if i == pi:
                    coef *= math.pi ** e
                elif i in inv and e == 1 and var is None:
                    var = i
                else:
                    ok = False
            if not ok or var is None:
                continue
            th = math.atan2(float(model[a.idx]), float(model[cidx.idx]))
            x = th / coef
            period = 2 * math.pi / abs(coef)
            old = vals.get(inv[var])
            if old is not None:
                x += period * round((old - x) / period)
            vals[inv[var]] = x
    return vals


def validate(ctx, inputs, model, goal):
    """does the model, evaluated numerically from its inputs, satisfy the path and falsify the goal?"""
    s = {ctx.inputs[k]: v for k, v in inputs.items()}
    for name, idx in ctx.inputs.items():
        if idx not in s:
            return False
    for a in alg.T.atoms:
        if a.kind == "uf" and model and a.idx in model:
            s[a.idx] = float(model[a.idx])
    for f in ctx.pc:
        if S.eval_formula(f, s) is False:
            return False
    if goal is not None and S.eval_formula(goal, s) is not False:
        return False
    return True


def explore(name, fn, pkg, seed=1, budget=60.0, max_paths=3000, fork_timeout=1500, goal_timeout=8000, stop_on_refuted=3):
    """symbolic execution of all paths of one contract"""
    res = Result(name)
    t0 = time.time()
    deadline = t0 + budget
    stack = [()]
    stats = S.Stats()
    ft = FuncTrace(load.REPO)
    ft.start()
    try:
        while stack:
            prefix = stack.pop()
            if time.time() > deadline or res.paths >= max_paths:
                res.unsupported.append("budget exhausted after %d paths" % res.paths)
                break
            alg.reset()
            load.FS.files.clear()
            ctx = Ctx(prefix=prefix, stats=stats, seed=seed, fork_timeout=fork_timeout, goal_timeout=goal_timeout, deadline=deadline)
            S.set_cur(ctx)
            h = SymMode(ctx, pkg)
            status = "ok"
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    fn(h)
                except PathDone:
                    pass
                except Infeasible:
                    status = "infeasible"
                except PathLimit as e:
                    res.unsupported.append("budget exhausted after %d paths" % res.paths)
                    status = "limit"
                except (Unsupported, AlgError) as e:
                    res.unsupported.append("%s: %s" % (type(e).__name__, e))
                    if os.environ.get("VC_DEBUG"):
                        traceback.print_exc()
                    status = "unsupported"
                except RecursionError:
                    res.unsupported.append("recursion")
                    status = "unsupported"
                except Exception as e:
                    if os.environ.get("VC_DEBUG"):
                        traceback.print_exc()
                    status = "exception"
                    try:
                        feas = ctx.path_feasible()
                    except PathLimit:
                        feas = "unknown"
                    if feas:
                        r, model = S.z3_check(ctx, ctx.pc, goal_timeout) if not ctx.samples else ("sat", ctx.samples[0])
                        res.exceptions.append((type(e).__name__ + ": " + str(e)[:200], tb_short(), model_inputs(ctx, model), dict(ctx.choices), dim_values(ctx)))
                    else:
                        status = "infeasible"
            vals = [v for v, o in ctx.trace]
            for i in range(len(prefix), len(ctx.trace)):
                if ctx.trace[i][1]:
                    stack.append(tuple(vals[:i]) + (not vals[i],))
            res.assumptions |= ctx.assumptions
            if status == "infeasible":
                res.infeasible += 1
                continue
            res.paths += 1
            if h.goals and ctx.samples:
                res.witness += 1
            elif h.goals and not res.witness and res.paths < 6:
                # no sample at hand: is the path condition satisfiable?
                try:
                    if S.z3_check(ctx, ctx.pc, goal_timeout)[0] == "sat":
                        res.witness += 1
                except PathLimit:
                    pass
            for gi, (label, st, be, detail, model) in enumerate(h.goals):
                res.goals += 1
                res.labels.add(label)
                res.by_backend[be] = res.by_backend.get(be, 0) + (1 if st == "proved" else 0)
                if st == "proved":
                    res.proved += 1
                elif st == "unknown":
                    res.unknown.append((label, detail, dict(ctx.choices)))
                else:
                    if be == "shape" or model is None:
                        # refuted on this path if the path is feasible
                        try:
                            feas = ctx.path_feasible()
                        except PathLimit:
                            feas = "unknown"
                        if feas is None:
                            res.goals -= 1
                            continue
                        if ctx.samples:
                            model = ctx.samples[0]
                        elif feas == "z3":
                            r, model = S.z3_check(ctx, ctx.pc, goal_timeout)
                        if feas == "unknown":
                            res.unknown.append((label, detail + " (feasibility of the path undecided)", dict(ctx.choices)))
                            continue
                    inp = model_inputs(ctx, model)
                    res.refuted.append((label, detail, inp, dict(ctx.choices), dim_values(ctx)))
                    res.valid.append(validate(ctx, inp, model, h.formulas.get(gi)))
            if status == "limit":
                break
            if len(res.refuted) + len(res.exceptions) >= stop_on_refuted:
                break
    finally:
        S.set_cur(None)
        ft.stop()
    res.functions = dict(ft.seen)
    res.z3_time, res.z3_calls = stats.z3_time, stats.z3_calls
    res.time = time.time() - t0
    res.unsupported = sorted(set(res.unsupported))
    return res


def dim_values(ctx):
    return {k: v[0] for k, v in ctx.dimfacts.items() if v[0] is not None}


def tb_short():
    et, ev, tb = sys.exc_info()
    out = []
    for f in traceback.extract_tb(tb)[-4:]:
        out.append("%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name))
    return " <- ".join(reversed(out))


class Quiet(object):
    """silence the library's prints"""
    def __enter__(self):
        self.o = sys.stdout
        sys.stdout = open(os.devnull, "w")

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout = self.o


def concrete(fn, ct, seed, values=None, choices=None, dims=None, tol=1e-6, long=False):
    """one concrete run (with long lists): returns (status, label, message, mode)"""
    h = FloatMode(ct, seed, values, choices, dims, tol)
    h.long = long
    st = np.random.get_state()
    rst = random.getstate()
    np.random.seed(seed % (2 ** 32))
    random.seed(seed)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"), Quiet():
            warnings.simplefilter("ignore")
            fn(h)
        return "ok", None, None, h
    except Skip:
        return "skip", None, None, h
    except Violation as e:
        return "violation", e.label, e.msg, h
    except MemoryError:
        return "skip", None, None, h
    except Exception as e:
        return "violation", "no-exception", "%s: %s [%s]" % (type(e).__name__, str(e)[:300], tb_short()), h
    finally:
        np.random.set_state(st)
        random.setstate(rst)
        if getattr(h, "tmp", None):
            import shutil
            shutil.rmtree(h.tmp, ignore_errors=True)


def search(fn, ct, seed, trials, seconds, values=None, choices=None, dims=None, tol=1e-6, minrun=0):
    """random concrete runs; returns (found or None, number of runs, evaluations)"""
    t0 = time.time()
    n = ev = 0
    spent = 0.0  # seconds in runs with long lists
    for k in range(trials):
        if time.time() - t0 > seconds and n >= minrun:
            break
        v = None
        if values:
            # keep a random subset of the model values
            r = random.Random(seed * 7919 + k)
            p = r.choice([1.0, 0.9, 0.7, 0.5, 0.3])
            v = {a: b for a, b in values.items() if r.random() < p}
        t1 = time.time()
        long = k % 6 == 4 and spent < 0.3 * seconds and (spent < 2 or spent < 0.5 * (t1 - t0))
        st, label, msg, h = concrete(fn, ct, seed * 1000003 + k, v, choices, dims, tol, long)
        if long:
            spent += time.time() - t1
        if st != "skip":
            n += 1
            ev += h.evals
        if st == "violation":
            return (label, msg, h, seed * 1000003 + k), n, ev
    return None, n, ev


# ---------------------------------------------------------------------------------------------------------------------
# contracts of dependencies used by several harnesses
# ---------------------------------------------------------------------------------------------------------------------
def ideal_spline(y, x, *a, **k):
    """InterpolatedUnivariateSpline(y, x): the exact inverse of the polynomial through the table (x, y)"""
    c = S.cur()
    c.assumptions.add("scipy InterpolatedUnivariateSpline over the radius table is the exact inverse of the tabulated polynomial "
                      "(its interpolation error is checked by the concrete runs only)")
    y, x = as_sarr(y), as_sarr(x)
    if y.ndim != 1 or x.ndim != 1 or y.data.shape != x.data.shape:
        raise Unsupported("spline of this shape")
    xs = []
    for e in x.data.flat:
        e = as_sym(e)
        if e.k != "f" or not e.v.is_const():
            raise Unsupported("spline with symbolic nodes")
        xs.append(Fraction(e.v.const()))
    n = min(9, len(xs))
    # polynomial through the first n nodes (Newton form)
    ys = [as_sym(e) for e in y.data.flat]
    co = newton(xs[:n], ys[:n])
    for xi, yi in list(zip(xs, ys))[n:]:
        if not (horner(co, as_sym(xi)) - yi).v.is_zero():
            raise Unsupported("the table is not that of a polynomial")
    return IdealInverse(co)


def newton(xs, ys):
    """coefficients of the interpolating polynomial"""
    n = len(xs)
    d = list(ys)
    coef = [d[0]]
    for j in range(1, n):
        d = [(d[i + 1] - d[i]) / (xs[i + j] - xs[i]) for i in range(n - j)]
        coef.append(d[0])
    res = [coef[-1]]
    for j in range(n - 2, -1, -1):
        # res = res * (t - xs[j]) + coef[j]
        new = [as_sym(0)] * (len(res) + 1)
        for i, r in enumerate(res):
            new[i + 1] = new[i + 1] + r
            new[i] = new[i] - r * xs[j]
        new[0] = new[0] + coef[j]
        res = new
    while len(res) > 1 and res[-1].v.is_zero():
        res.pop()
    return res


def horner(co, t):
    r = as_sym(0)
    for cf in reversed(co):
        r = r * t + cf
    return r


class IdealInverse(object):
    def __init__(self, co):
        self.co = co

    def one(self, r):
        r = as_sym(r)
        if r.k != "f":
            return S.NAN
        co = self.co
        if len(co) == 2 and co[0].v.is_zero() and (co[1] - 1).v.is_zero():
            return r
        if r.v.is_zero() and co[0].v.is_zero():
            return r
        for i in sorted(r.v.atoms()):
            a = alg.T.atoms[i]
            if a.kind in ("sqrt", "var", "uf"):
                t = Sym("f", R_atom(a))
                if (horner(co, t) - r).v.is_zero():
                    return t
        return S.uf("inverse", *(list(co) + [r]))

    def __call__(self, r, *a, **k):
        if type(r) is SArr:
            return A.apply1(self.one, r)
        return self.one(r)


def pseudo(name, args):
    """deterministic smooth pseudo random function (concrete counterpart of an uninterpreted function)"""
    import zlib
    h0 = zlib.crc32(name.encode())
    t = 0.0
    for i, a in enumerate(args):
        w = ((h0 >> (i % 16)) % 17 + 3) / 10.0
        t = t + np.sin(w * np.asarray(a, dtype=float) + (h0 % 7) + i)
    return t


def _sym_uf(self, name, *args):
    if any(type(a) is SArr for a in args):
        arrs = [as_sarr(a) for a in args]
        dims = ()
        for a in arrs:
            dims = A.broadcast_dims(dims, a.dims)
        ds = np.broadcast_arrays(*[a.data for a in arrs])
        d = np.empty(ds[0].shape, dtype=object)
        for i in np.ndindex(*d.shape):
            d[i] = S.uf(name, *[x[i] for x in ds])
        return A.out_scalar(SArr(d, dims))
    return S.uf(name, *args)


SymMode.uf = _sym_uf
FloatMode.uf = lambda self, name, *args: pseudo(name, args)


def _sym_hook(self, name, fn):
    self.c.hooks[name] = fn


SymMode.hook = _sym_hook
FloatMode.hook = lambda self, name, fn: None
SymMode.ideal_inverse = lambda self: self.c.hooks.__setitem__("scipy.interpolate.InterpolatedUnivariateSpline", ideal_spline)
FloatMode.ideal_inverse = lambda self: None


def _sym_increasing(self, polynomial, v, upto):
    """assume that the polynomial in r (of degree > 1, with coefficients linear in v) increases strictly between 0 and upto:
    signs of differences of two of its values are known, whatever the two places are"""
    xs = [Fraction(i) for i in range(10)]
    co = newton(xs, [polynomial(v, as_sym(x)) for x in xs])
    atoms = [next(iter(x.v.atoms())) for x in v]
    powers = [k for k in range(1, len(co)) if not co[k].v.is_zero()]

    def parts(p):
        """the constant and the coefficients of v, or None"""
        t = {}
        for mono, c in p.t.items():
            if mono == ():
                t[None] = c
            elif len(mono) == 1 and mono[0][1] == 1 and mono[0][0] in atoms:
                t[mono[0][0]] = c
            else:
                return None
        return [t.get(k, Fraction(0)) for k in [None] + atoms]
    table = [parts(co[k].v.num) for k in powers]
    plain = not any(co[k].v.den for k in powers) and all(t is not None for t in table) and co[0].v.is_zero()

    def sign(p):
        if not plain or len(p.t) > len(atoms) + 1:
            return S.ALL
        q = parts(p)
        if q is None or any(not x for x in q):
            return S.ALL
        # q = sum of d[k] * table[k]: solved exactly, as the table has one row per coefficient
        d = solve_exact([[t[i] for t in table] for i in range(len(q))], q)
        if powers[0] != 1 or d is None or not d[0]:
            return S.ALL
        d = dict(zip(powers, d))
        # d[k] = l (r2^k - r1^k) with 0 <= r1 < r2 <= upto
        if 2 in d and 3 in d:
            s = float(d[2] / d[1])
            m = s * s - float(d[3] / d[1])
        elif 3 in d and 5 in d:
            q1, q2 = float(d[3] / d[1]), float(d[5] / d[1])
            u = q1 * q1 - q2
            if q1 * q1 + 4 * u < 0:
                return S.ALL
            m = (-q1 + (q1 * q1 + 4 * u) ** 0.5) / 2
            s = max(q1 + m, 0) ** 0.5
        else:
            return S.ALL
        w = s * s - 4 * m
        if w <= 0:
            return S.ALL
        r1, r2 = [Fraction((s + e * w ** 0.5) / 2).limit_denominator(100000) for e in (-1, 1)]
        if not 0 <= r1 < r2 <= upto:
            return S.ALL
        # (values of the decimal numbers and of their floating point numbers are not told apart)
        if any(abs(d[k] / d[1] * (r2 - r1) / (r2 ** k - r1 ** k) - 1) > Fraction(1, 10 ** 10) for k in powers):
            return S.ALL
        return S.POS if d[1] > 0 else S.NEG
    self.c.increasing.append(sign)


def solve_exact(rows, rhs):
    """the solution of a square system of linear equations, or None"""
    n = len(rhs)
    if any(len(r) != n for r in rows):
        return None
    m = [list(r) + [b] for r, b in zip(rows, rhs)]
    for i in range(n):
        k = next((k for k in range(i, n) if m[k][i]), None)
        if k is None:
            return None
        m[i], m[k] = m[k], m[i]
        m[i] = [x / m[i][i] for x in m[i]]
        for j in range(n):
            if j != i and m[j][i]:
                m[j] = [x - m[j][i] * y for x, y in zip(m[j], m[i])]
    return [r[n] for r in m]


SymMode.increasing = _sym_increasing
FloatMode.increasing = lambda self, polynomial, v, upto: None
SymMode.const = lambda self, x: as_sym(x)
FloatMode.const = lambda self, x: x


def _sym_module(self, name):
    return self.pkg.modules[load.PKG + "." + name]


def _real_module(self, name):
    import importlib
    return importlib.import_module(load.PKG + "." + name)


SymMode.module = _sym_module
FloatMode.module = _real_module


def _float_path(self, name):
    """a file in a scratch directory that is removed after the run"""
    import tempfile
    if getattr(self, "tmp", None) is None:
        self.tmp = tempfile.mkdtemp(prefix="verif-")
    return os.path.join(self.tmp, name)


SymMode.path = lambda self, name: "/nonexistent/" + name
FloatMode.path = _float_path


def _sym_lemma(self, label, cond):
    """prove a fact, then use it"""
    n = len(self.goals)
    self.check(label, cond)
    if all(g[1] == "proved" for g in self.goals[n:]):
        self.assume(cond)


def _sym_sos(self, label, x, terms, hi=None):
    """x is a sum of non-negative terms (products of squares and of factors that are known to be non-negative): proved by the
    normal form, then x >= 0 is used"""
    t = as_sym(0)
    for fs in terms:
        p = as_sym(1)
        for f in fs:
            if isinstance(f, tuple):  # a square
                p = p * f[0] * f[0]
            else:
                self.lemma(label + ": factor", f >= 0)
                p = p * f
        t = t + p
    n = len(self.goals)
    self.eq(label, x, t)
    if all(g[1] == "proved" for g in self.goals[n:]):
        self.assume(x >= 0)


def _sym_unit(self, label, s, squares):
    """1 - s^2 is a sum of squares, therefore -1 <= s <= 1"""
    n = len(self.goals)
    t = as_sym(0)
    for q in squares:
        t = t + q * q
    self.eq(label, 1 - s * s, t)
    if all(g[1] == "proved" for g in self.goals[n:]):
        self.assume(s <= 1)
        self.assume(s >= -1)


SymMode.lemma, SymMode.sos, SymMode.unit = _sym_lemma, _sym_sos, _sym_unit
FloatMode.lemma = FloatMode.sos = FloatMode.unit = lambda self, *a, **k: None


def _sym_arange(self, fn):
    self.c.arange_hook = fn


SymMode.arange = _sym_arange
FloatMode.arange = lambda self, fn: None


def _sym_axis(self, name, start, step, k):
    """start + step * k for the generic index k of an axis of unspecified length"""
    d = np.empty((1,), dtype=object)
    d[0] = as_sym(start) + as_sym(step) * k
    S.on_axis(name, as_sym(k))
    return SArr(d, (Dim(1, (name,)),))


SymMode.axis = _sym_axis
SymMode.same = lambda self, a, b: (as_sym(a) - as_sym(b)).v.is_zero()
FloatMode.same = lambda self, a, b: a == b
SymMode.axis_name = lambda self, a, i: a.dims[i].n[0] if A.is_dim(a.dims[i]) and len(a.dims[i].n) == 1 else None
SymMode.is_symbolic = lambda self, *xs: any(type(x) is S.Sym and not (x.k == "f" and x.v.is_const()) for x in xs)
FloatMode.is_symbolic = lambda self, *xs: False


def _sym_axis_length(self, name, value):
    """the number value is the length of the axis"""
    self.c.axis_lengths = list(getattr(self.c, "axis_lengths", ())) + [(value, Dim(1, (name,)))]


SymMode.axis_length = _sym_axis_length
FloatMode.axis_length = lambda self, name, value: None


def _sym_axis_sum(self, names, x):
    """the sum of the generic summand x over axes of unspecified length"""
    return S.axis_sum(names, as_sym(x.data.flat[0] if isinstance(x, SArr) else x))


SymMode.axis_sum = _sym_axis_sum
