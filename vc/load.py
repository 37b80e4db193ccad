"""Loads the *current* source of the package twice: the plain package (used for replay and for the runtime contracts) and
a symbolic instance of exactly the same source text, executed with interposed builtins and library modules (numpy, math,
json, scipy, ...), so that the unmodified function bodies run on symbolic values. Nothing of the source is dropped or
rewritten, except that the operations a str performs on its arguments (%, join, format, formatted string literals) call vc.text instead, and
where a loop cut is requested explicitly (see cut_loops)."""
import builtins
import importlib
import math
import os
import sys
import types
import copy
import ast
import numpy as np
from fractions import Fraction
from . import sym as S
from . import arr as A
from . import text
from .sym import Sym, SymBool, Unsupported, as_sym
from .arr import SArr, Dim, as_sarr, contains_sym

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "cameratransform"


def active():
    return S.CUR is not None


# ---------------------------------------------------------------------------------------------------------------------
# builtins
# ---------------------------------------------------------------------------------------------------------------------
def s_len(x):
    if type(x) is SArr:
        if not x.dims:
            raise TypeError("len() of unsized object")
        d = x.dims[0]
        if type(d) is Dim:
            k = A.dim_value(d)
            return d if k is None else k
        return d
    if isinstance(x, text.Text):
        return text.length(x)
    return len(x)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __subclasscheck__(cls, x):
        return issubclass(x, float)

    def __call__(cls, x=0.0):
        if type(x) is Sym:
            return x
        if isinstance(x, text.Text):
            return text.to_number(x)
        if type(x) is SymBool:
            return as_sym(x)
        if type(x) is Dim:
            return x.as_sym()
        if type(x) is SArr:
            if x.data.size == 1 and not any(A.is_dim(d) for d in x.dims):
                return as_sym(x.data.flat[0])
            if x.data.size == 1 and all((not A.is_dim(d)) or bool(d == 1) for d in x.dims):
                return as_sym(x.data.flat[0])
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return float(x)

    def __eq__(cls, o):
        return o is float or type.__eq__(cls, o)

    def __hash__(cls):
        return hash(float)


class s_float(float, metaclass=_FloatMeta):
    pass


s_float.__name__ = "float"


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, x):
        return issubclass(x, int)

    def __call__(cls, x=0, *a):
        if isinstance(x, text.Text):
            return text.to_number(x, True)
        if type(x) is SArr and x.data.size == 1:
            x = x.data.flat[0]
        if type(x) is Dim:
            k = A.dim_value(x)
            return x if k is None else k
        if type(x) is SymBool:
            return 1 if bool(x) else 0
        if type(x) is Sym:
            if x.k != "f":
                raise ValueError("cannot convert float NaN to integer")
            if x.v.is_const():
                return int(x.v.const())
            if is_integral(x):
                return x
            if bool(x >= 0):
                return S.fn_floor(x)
            return -S.fn_floor(-x)
        return int(x, *a)

    def __eq__(cls, o):
        return o is int or type.__eq__(cls, o)

    def __hash__(cls):
        return hash(int)


class s_int(int, metaclass=_IntMeta):
    pass


s_int.__name__ = "int"


def is_integral(x):
    """integer-valued by construction"""
    r = x.v
    if r.den:
        return False
    for m, c in r.num.t.items():
        if type(c) is Fraction and c.denominator != 1:
            return False
        for i, e in m:
            if not S.alg.T.atoms[i].is_int:
                return False
    return True


def s_round(x, n=None):
    if type(x) is Sym and not x.v.is_const() if type(x) is Sym and x.k == "f" else False:
        raise Unsupported("round of a symbolic number")
    return round(float(x) if type(x) is Sym else x, n) if n is not None else round(float(x) if type(x) is Sym else x)


def s_range(*a):
    b = []
    for x in a:
        if type(x) is Sym:
            x = x.__index__()
        elif type(x) is Dim:
            k = A.dim_value(x)
            if k is None:
                raise Unsupported("loop over a symbolic length")
            x = k
        b.append(x)
    return range(*b)


def s_print(*a, **k):
    pass


def s_sum(it, start=0):
    t = start
    for x in it:
        t = t + x
    return t


def s_sorted(it, *a, **k):
    return sorted(it, *a, **k)


# in-memory files ----------------------------------------------------------------------------------------------------
class MemFS(object):
    def __init__(self):
        self.files = {}


FS = MemFS()


class MemFile(object):
    def __init__(self, name, mode):
        self.name, self.mode = name, mode
        if "r" in mode and name not in FS.files:
            if os.path.exists(name):
                with open(name, mode) as fp:
                    FS.files[name] = [fp.read()]
                return
            raise FileNotFoundError(2, "No such file or directory", name)
        if "w" in mode:
            FS.files[name] = []
        elif "a" in mode:
            FS.files.setdefault(name, [])

    def write(self, s):
        FS.files[self.name].append(s)
        return 1

    def read(self):
        parts = FS.files[self.name]
        if len(parts) == 1:
            return parts[0]
        if any(isinstance(p, JsonText) for p in parts):
            raise ValueError("Extra data")
        return "".join(parts)

    def readlines(self):
        text = self.read()
        return [text] if isinstance(text, JsonText) else text.splitlines(True)

    def close(self):
        pass

    def flush(self):
        pass

    def __iter__(self):
        return iter(self.readlines())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def s_open(name, mode="r", *a, **k):
    if not active():
        return open(name, mode, *a, **k)
    return MemFile(str(name), mode)


class JsonText(str):
    """the text of a JSON document whose numbers are symbolic"""
    def __new__(cls, obj):
        r = str.__new__(cls, "<json>")
        r.obj = obj
        return r

    def encode(self, *a):
        return self


def json_norm(o, default=None):
    """what json.loads(json.dumps(o)) yields; raises TypeError exactly for the types json refuses"""
    if o is None or isinstance(o, (str, bool)):
        return o
    if type(o) is Sym:
        return o
    if type(o) is Dim:
        raise Unsupported("json of a symbolic length")
    if type(o) is SArr or type(o) is SymBool or isinstance(o, np.ndarray) or isinstance(o, np.generic) and not isinstance(o, float):
        if default is not None:
            return json_norm(default(o))
        raise TypeError("Object of type %s is not JSON serializable" % type(o).__name__)
    if isinstance(o, (int, float)):
        return o
    if isinstance(o, dict):
        out = {}
        for k, v in o.items():
            if not isinstance(k, (str, int, float, bool)) and k is not None:
                raise TypeError("keys must be str, int, float, bool or None")
            out[str(k)] = json_norm(v, default)
        return out
    if isinstance(o, (list, tuple)):
        return [json_norm(v, default) for v in o]
    raise TypeError("Object of type %s is not JSON serializable" % type(o).__name__)


class JsonProxy(types.ModuleType):
    def __getattr__(self, n):
        import json
        return getattr(json, n)

    def dumps(self, o, *a, **k):
        if not active():
            import json
            return json.dumps(o, *a, **k)
        S.cur().assumptions.add("json.dumps/json.loads round-trip floats, strings, lists and dicts exactly")
        return JsonText(json_norm(o, k.get("default")))

    def loads(self, t, *a, **k):
        if isinstance(t, JsonText):
            return json_norm(t.obj)
        import json
        return json.loads(t, *a, **k)

    def dump(self, o, fp, *a, **k):
        if not active():
            import json
            return json.dump(o, fp, *a, **k)
        fp.write(self.dumps(o, **k))

    def load(self, fp, *a, **k):
        return self.loads(fp.read())


# ---------------------------------------------------------------------------------------------------------------------
# numpy
# ---------------------------------------------------------------------------------------------------------------------
def is_text(x):
    if isinstance(x, (str, bytes)):
        return True
    if isinstance(x, (list, tuple)):
        return any(is_text(i) for i in x)
    return False


def np_array(x, dtype=None, copy=True, ndmin=0, **k):
    if not active() or is_text(x):
        return np.array(x, dtype=_dt(dtype), **({"ndmin": ndmin} if ndmin else {}))
    if isinstance(x, (set, dict)) or isinstance(x, types.GeneratorType):
        return np.array(x)
    if dtype in (object, np.dtype(object)) and isinstance(x, (list, tuple)) and any(e is None or type(e) is SArr for e in x) \
            and not all(type(e) is SArr for e in x):
        # an object array of inhomogeneous elements
        d = np.empty(len(x), dtype=object)
        for i, e in enumerate(x):
            d[i] = e
        return d
    r = as_sarr(x)
    if r is x and copy is not False:
        r = r.copy()
    elif type(x) is Sym:
        r = SArr(S._obj0(x), ())
    if dtype is not None and not _is_float(dtype):
        r = cast_arr(r, dtype)
    if _is_float(dtype):
        if any(e is None for e in r.data.flat):
            d = r.data.copy()
            for i in np.ndindex(*d.shape):
                if d[i] is None:
                    d[i] = S.NAN
            r = SArr(d, r.dims)
        if r.isbool:
            r = A.apply1(as_sym, r)
    while r.ndim < ndmin:
        r = r[None]
    return r


def _is_float(dt):
    return dt is float or dt is s_float or dt in ("float", "float64", "f8", "d", np.float64) if dt is not None and not isinstance(dt, np.dtype) else dt == np.dtype(float)


def _dt(dt):
    if dt is s_float:
        return float
    if dt is s_int:
        return int
    return dt


def cast_arr(r, dt):
    dt = _dt(dt)
    if dt is None or dt is object:
        return r
    if dt in (int, np.int64, np.int32, "int", np.dtype(int), np.uint8, np.intp):
        def f(x):
            x = as_sym(x)
            return as_sym(s_int(x))
        return A.apply1(f, r)
    return r.astype(dt)


SArr.astype_orig = SArr.astype


def sarr_astype(self, dt, copy=True, **k):
    dt = _dt(dt)
    if dt in (int, np.int64, np.int32, "int", np.dtype(int), np.intp):
        return cast_arr(self, dt)
    return SArr.astype_orig(self, dt)


SArr.astype = sarr_astype


def np_asarray(x, dtype=None, **k):
    if not active() or is_text(x):
        return np.asarray(x, dtype=_dt(dtype))
    if type(x) is SArr and (dtype is None or _is_float(dtype)) and not x.isbool:
        return x
    return np_array(x, dtype, copy=False)


def np_full(shape, v, dtype=None, **k):
    if not active():
        return np.full(shape, v, dtype=_dt(dtype))
    r = A.full(shape, v)
    if isinstance(v, (bool, np.bool_)) or dtype in (bool, np.bool_):
        r = SArr(np.array([bool(as_sym(x).v.const()) if type(x) is Sym else bool(x) for x in r.data.flat], dtype=object).reshape(r.data.shape), r.dims, True)
    return r


def np_ones(shape, dtype=None, **k):
    return np_full(shape, 1 if dtype not in (bool, np.bool_) else True, dtype)


def np_zeros(shape, dtype=None, **k):
    return np_full(shape, 0 if dtype not in (bool, np.bool_) else False, dtype)


def np_empty(shape, dtype=None, **k):
    if active() and dtype in (object, np.dtype(object)):
        return np.empty(shape, dtype=object)
    # uninitialised memory: arbitrary values
    if not active():
        return np.empty(shape, dtype=_dt(dtype))
    r = A.full(shape, 0)
    for i in np.ndindex(*r.data.shape):
        r.data[i] = S.fresh_real("uninit")
    return r


def np_arange(*a, **k):
    if not active():
        return np.arange(*a, **k)
    dt = k.pop("dtype", None)
    if len(a) == 1 and type(a[0]) is Dim:
        if A.dim_value(a[0]) is None:
            d = np.empty((A.dsize(a[0]),), dtype=object)
            for i in range(len(d)):
                d[i] = A.RowId(a[0].key())
            return SArr(d, (a[0],))
    g = getattr(S.cur(), "arange_hook", None)
    if g is not None:
        r = g(*a)
        if r is not None:
            return r
    b = []
    for x in a:
        if type(x) is Dim:
            x = A.dim_value(x)
            if x is None:
                raise Unsupported("arange with a symbolic length")
        if type(x) is Sym:
            if not (x.k == "f" and x.v.is_const()):
                raise Unsupported("arange with symbolic bounds")
            x = x.v.const()
            x = int(x) if Fraction(x).denominator == 1 else float(x)
        b.append(x)
    return as_sarr(np.arange(*b, **k))


def np_linspace(a, b, n=50, endpoint=True, **k):
    if not active():
        return np.linspace(a, b, n, endpoint=endpoint, **k)
    if k:
        raise Unsupported("linspace options")
    g = getattr(S.cur(), "linspace_hook", None)
    if g is not None:
        r = g(a, b, n, endpoint)
        if r is not None:
            return r
    if type(n) is Dim:
        k = A.dim_value(n)
        if k is None:
            raise Unsupported("linspace with a symbolic length")
        n = k
    n = n.__index__() if type(n) is Sym else int(n)
    if n > 400:
        raise Unsupported("linspace with %d points" % n)
    a, b = A.out_scalar(as_sarr(a)), A.out_scalar(as_sarr(b))
    div = n - 1 if endpoint else n
    return np_array([a + (b - a) * as_sym(Fraction(i, div) if div else 0) for i in range(n)])


def np_eye(n, m=None, *a, **k):
    if not active():
        return np.eye(n, m, *a, **k)
    return as_sarr(np.eye(n, m, *a, **k))


def np_diag(v, k=0):
    if not active():
        return np.diag(v, k)
    v = as_sarr(v)
    if v.ndim == 1 and k == 0:
        r = A.full((v.dims[0], v.dims[0]), 0)
        for i in range(v.data.shape[0]):
            r.data[i, i] = v.data[i]
        return r
    if v.ndim == 2 and k == 0:
        n = min(v.data.shape)
        return np_array([v.data[i, i] for i in range(n)])
    raise Unsupported("diag")


def np_isscalar(x):
    return True if type(x) in (Sym, Dim) else np.isscalar(x)


def np_float64(x=0.0):
    return s_float(x)


CREATORS = {"array": np_array, "asarray": np_asarray, "asanyarray": np_asarray, "ascontiguousarray": np_asarray,
            "full": np_full, "ones": np_ones, "zeros": np_zeros, "empty": np_empty, "arange": np_arange,
            "linspace": np_linspace, "eye": np_eye, "identity": np_eye, "diag": np_diag, "isscalar": np_isscalar}


class UfuncWrap(object):
    def __init__(self, uf):
        self._uf = uf
        self.__name__ = uf.__name__

    def __getattr__(self, n):
        return getattr(self._uf, n)

    def __call__(self, *a, **k):
        if not active():
            return self._uf(*a, **k)
        if any(is_text(x) for x in a[:2]):
            return self._uf(*a, **k)
        # rational / exact treatment of constants too
        kw = dict(k)
        if "dtype" in kw:
            kw["dtype"] = _dt(kw["dtype"])
        n = self._uf.nin
        ins = [as_sarr(x) for x in a[:n]]
        if len(a) > n:
            kw["out"] = a[n:]
        elif "out" in kw and not isinstance(kw["out"], tuple):
            kw["out"] = (kw["out"],)
        return A.array_ufunc(None, self._uf, "__call__", *ins, **kw)

    def reduce(self, a, axis=0, **k):
        if not active():
            return self._uf.reduce(a, axis=axis, **k)
        return A.array_ufunc(None, self._uf, "reduce", as_sarr(a), axis=axis, **k)


def wrap_func(f, g):
    def h(*a, **k):
        if not active():
            return f(*a, **k)
        hook = getattr(S.cur(), "hooks", {}).get("numpy." + f.__name__)
        if hook is not None:
            r = hook(*a, **k)
            if r is not None:
                return r
        return g(*a, **k)
    h.__name__ = f.__name__
    return h


class RandomProxy(object):
    """numpy.random: every draw is an arbitrary value of its range"""
    def __getattr__(self, n):
        if not active():
            return getattr(np.random, n)
        h = getattr(S.cur(), "random_hook", None)
        if h is not None:
            r = h(n)
            if r is not None:
                return r
        raise Unsupported("random." + n)


class LinalgProxy(object):
    def __getattr__(self, n):
        f = getattr(np.linalg, n)
        g = A.FUNCS.get(f) if not isinstance(f, type) else None
        if g is not None:
            return wrap_func(f, g)
        if isinstance(f, type):
            return f

        def h(*a, **k):
            if active():
                raise Unsupported("numpy.linalg." + n)
            return f(*a, **k)
        return h


class NPProxy(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, "numpy")
        self.random = RandomProxy()
        self.linalg = LinalgProxy()
        self.float64 = NPFloat
        for n, f in CREATORS.items():
            setattr(self, n, f)
        self.__version__ = np.__version__

    def __getattr__(self, n):
        v = getattr(np, n)
        if isinstance(v, np.ufunc):
            r = UfuncWrap(v)
        elif isinstance(v, type) or isinstance(v, types.ModuleType) or not callable(v):
            return v
        else:
            g = A.FUNCS.get(v)
            if g is not None:
                r = wrap_func(v, g)
            elif n in ("errstate", "seterr", "geterr", "set_printoptions", "finfo", "vectorize", "shape", "index_exp", "s_", "r_", "c_"):
                return v
            else:
                def r(*a, **k):
                    if active() and (contains_sym(a) or contains_sym(list(k.values()))):
                        raise Unsupported("numpy." + n)
                    return v(*a, **k)
        setattr(self, n, r)
        return r


class _NPFMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.float64)

    def __call__(cls, x=0.0):
        return s_float(x) if active() else np.float64(x)


class NPFloat(np.float64, metaclass=_NPFMeta):
    pass


class MathProxy(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, "math")

    def __getattr__(self, n):
        v = getattr(math, n)
        tab = {"sin": S.fn_sin, "cos": S.fn_cos, "tan": S.fn_tan, "asin": S.fn_asin, "acos": S.fn_acos, "atan": S.fn_atan,
               "atan2": S.fn_atan2, "sqrt": S.fn_sqrt, "radians": S.fn_deg2rad, "degrees": S.fn_rad2deg, "exp": S.fn_exp,
               "log": S.fn_log, "fabs": S.fn_abs, "hypot": S.fn_hypot, "isnan": S.fn_isnan, "isinf": S.fn_isinf,
               "isfinite": S.fn_isfinite, "floor": S.fn_floor}
        if n in tab:
            g = tab[n]

            def h(*a):
                if not active() or not any(type(x) in (Sym, SArr) for x in a):
                    if active() and n in ("radians", "sin", "cos", "sqrt", "tan") and a and isinstance(a[0], (int, float)):
                        return g(*[as_sym(x) for x in a])
                    return v(*a)
                return g(*[as_sym(A.out_scalar(x)) for x in a])
            return h
        if callable(v):
            def h(*a, **k):
                if contains_sym(a):
                    raise Unsupported("math." + n)
                return v(*a, **k)
            return h
        return v


# ---------------------------------------------------------------------------------------------------------------------
# the other libraries: contracts of dependencies (assumed, recorded)
# ---------------------------------------------------------------------------------------------------------------------
class Hooked(types.ModuleType):
    """module whose functions come from the hooks of the current context, else the real ones (without symbolic values)"""
    def __init__(self, name, real, table=None):
        types.ModuleType.__init__(self, name)
        self._real = real
        self._table = table or {}

    def __getattr__(self, n):
        full = self.__name__ + "." + n
        tab = object.__getattribute__(self, "_table")
        if active():
            h = getattr(S.cur(), "hooks", {}).get(full)
            if h is not None:
                return h
        if n in tab:
            return tab[n]
        real = object.__getattribute__(self, "_real")
        if real is None:
            raise Unsupported("module " + self.__name__)
        v = getattr(real, n)
        if isinstance(v, types.ModuleType) or isinstance(v, type) and not active():
            return v
        if callable(v) and not isinstance(v, type):
            def g(*a, **k):
                if active():
                    h = getattr(S.cur(), "hooks", {}).get(full)
                    if h is not None:
                        return h(*a, **k)
                    if contains_sym(a) or contains_sym(list(k.values())):
                        raise Unsupported(full)
                return v(*a, **k)
            return g
        return v


class Deferred(object):
    """a name imported from a library at import time; resolved through the hooks when called"""
    def __init__(self, full, real):
        self._full, self._real = full, real

    def __call__(self, *a, **k):
        if active():
            h = getattr(S.cur(), "hooks", {}).get(self._full)
            if h is not None:
                return h(*a, **k)
            if contains_sym(a) or contains_sym(list(k.values())):
                raise Unsupported(self._full)
        return self._real(*a, **k)

    def __getattr__(self, n):
        full = self._full + "." + n
        if active():
            h = getattr(S.cur(), "hooks", {}).get(full)
            if h is not None:
                return h
        v = getattr(self._real, n)
        if callable(v):
            return Deferred(full, v)
        return v


def norm_logpdf(x, loc=0, scale=1):
    if not active():
        from scipy import stats
        return stats.norm.logpdf(x, loc, scale)
    S.cur().assumptions.add("scipy.stats.norm(loc, scale).logpdf is the normal log density")
    x, loc, scale = as_sarr(x), as_sarr(loc), as_sarr(scale)
    S.cur()
    z = (x - loc) / scale
    c = S.uf("half_log_2pi", 0)
    r = -(z * z) * as_sym(Fraction(1, 2))
    r = as_sarr(r) - as_sarr(A.array_ufunc(None, np.log, "__call__", scale)) - c
    return A.out_scalar(as_sarr(r))


class FrozenNorm(object):
    def __init__(self, loc=0, scale=1):
        self.loc, self.scale = loc, scale

    def logpdf(self, x):
        return norm_logpdf(x, self.loc, self.scale)

    def pdf(self, x):
        raise Unsupported("norm.pdf")

    def rvs(self, *a, **k):
        raise Unsupported("norm.rvs")


class NormProxy(object):
    def __call__(self, loc=0, scale=1):
        if not active():
            from scipy import stats
            return stats.norm(loc, scale)
        return FrozenNorm(loc, scale)

    def logpdf(self, x, loc=0, scale=1):
        return norm_logpdf(x, loc, scale)

    def __getattr__(self, n):
        from scipy import stats
        return getattr(stats.norm, n)


STR_METHODS = {n for n in dir(str) if not n.startswith("_")} - {"join", "format"}


class Strings(ast.NodeTransformer):
    """operations that the str type performs on its arguments: % formatting, join, format, formatted string literals"""
    def call(self, name, args, old):
        return ast.copy_location(ast.Call(ast.Name(name, ast.Load()), args, []), old)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        return self.call("__vc_mod__", [n.left, n.right], n) if isinstance(n.op, ast.Mod) else n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute):
            if n.func.attr == "join" and len(n.args) == 1 and not n.keywords:
                return self.call("__vc_join__", [n.func.value] + n.args, n)
            if n.func.attr == "format":
                r = self.call("__vc_format__", [n.func.value] + n.args, n)
                r.keywords = n.keywords
                return r
            if n.func.attr in STR_METHODS and n.args and not isinstance(n.func.value, ast.Call):
                r = self.call("__vc_call__", [n.func.value, ast.Constant(n.func.attr)] + n.args, n)
                r.keywords = n.keywords
                return r
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            r = self.call("__vc_in__", [n.left, n.comparators[0]], n)
            return r if isinstance(n.ops[0], ast.In) else ast.copy_location(ast.UnaryOp(ast.Not(), r), n)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(self.call("__vc_fvalue__", [self.visit(v.value), ast.Constant(v.conversion), spec], n))
            else:
                parts.append(v)
        return self.call("__vc_fjoin__", [ast.copy_location(ast.List(parts, ast.Load()), n)], n)


class SymPackage(object):
    """a symbolic instance of the package"""
    def __init__(self, repo=REPO, transform=None):
        self.repo = repo
        self.modules = {}
        self.transform = transform or {}
        self.np = NPProxy()
        self.math = MathProxy()
        self.json = JsonProxy("json")
        self.lib = {"numpy": self.np, "math": self.math, "json": self.json, "re": text.ReModule()}
        b = dict(vars(builtins))
        b.update({"len": s_len, "float": s_float, "int": s_int, "range": s_range, "print": s_print, "open": s_open,
                  "round": s_round, "sum": s_sum, "__import__": self.imp,
                  "__vc_mod__": text.mod, "__vc_join__": text.join, "__vc_in__": text.contains, "__vc_call__": text.call, "__vc_format__": text.str_format, "__vc_fvalue__": text.fvalue,
                  "__vc_fjoin__": text.fjoin})
        self.builtins = b
        self.root = self.load(PKG)

    def path(self, name):
        rel = name.split(".")
        p = os.path.join(self.repo, *rel)
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        return p + ".py", False

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path, is_pkg = self.path(name)
        if not os.path.exists(path):
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
        with open(path) as fp:
            src = fp.read()
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if is_pkg else name.rsplit(".", 1)[0]
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        self.modules[name] = m
        tree = ast.parse(src, path)
        if name in self.transform:
            tree = self.transform[name](tree)
            ast.fix_missing_locations(tree)
        tree = ast.fix_missing_locations(Strings().visit(tree))
        code = compile(tree, path, "exec", dont_inherit=True)
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.modules[name]
            raise
        if "." in name:
            par, leaf = name.rsplit(".", 1)
            setattr(self.modules[par], leaf, m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            base = globals["__package__"]
            for _ in range(level - 1):
                base = base.rsplit(".", 1)[0]
            full = base + ("." + name if name else "")
        else:
            full = name
        if full == PKG or full.startswith(PKG + "."):
            m = self.load(full)
            if not fromlist:
                return self.modules[PKG]
            for f in fromlist:
                if f == "*":
                    continue
                if not hasattr(m, f):
                    try:
                        self.load(full + "." + f)
                    except ModuleNotFoundError:
                        raise ImportError("cannot import name %r from %r" % (f, full))
            return m
        top = full.split(".")[0]
        if top in ("numpy",):
            if full == "numpy" or not fromlist:
                return self.np
            if full == "numpy.linalg":
                return self.np.linalg
            return importlib.import_module(full)
        if top in self.lib:
            return self.lib[top]
        if top == "scipy":
            return self.scipy(full, fromlist)
        if top in ("pandas", "tqdm", "cv2", "requests", "copy", "itertools"):
            if top in ("copy", "itertools"):
                return importlib.import_module(full)
            key = "hook:" + top
            if key not in self.lib:
                try:
                    real = importlib.import_module(top)
                except ImportError:
                    real = None
                if real is None:
                    raise ImportError(top)
                self.lib[key] = Hooked(top, real)
            return self.lib[key]
        return __import__(name, globals, locals, fromlist, level)

    def scipy(self, full, fromlist):
        key = "hook:" + full
        if key not in self.lib:
            real = importlib.import_module(full)
            h = Hooked(full, real)
            if full == "scipy.stats":
                h._table.update({"norm": NormProxy(), "truncnorm": Deferred("scipy.stats.truncnorm", real.truncnorm),
                                 "uniform": Deferred("scipy.stats.uniform", real.uniform)})
            elif full == "scipy":
                for n in ("stats", "optimize", "interpolate"):
                    h._table[n] = self.scipy("scipy." + n, ("x",))
            elif full == "scipy.optimize":
                h._table["minimize"] = Deferred("scipy.optimize.minimize", real.minimize)
            elif full == "scipy.interpolate":
                h._table["InterpolatedUnivariateSpline"] = Deferred("scipy.interpolate.InterpolatedUnivariateSpline", real.InterpolatedUnivariateSpline)
            self.lib[key] = h
        if not fromlist:
            return self.scipy("scipy", ("x",))
        for f in fromlist:
            if f not in ("*", "x") and not hasattr(self.lib[key]._real, f):
                try:
                    importlib.import_module(full + "." + f)
                except ImportError:
                    pass
        return self.lib[key]

    def func_files(self):
        return {m.__file__ for m in self.modules.values()}


_SYM = {}


def symbolic_package(transform_key=None, transform=None):
    k = transform_key
    if k not in _SYM:
        _SYM[k] = SymPackage(REPO, transform)
    return _SYM[k]


def real_package():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    m = importlib.import_module(PKG)
    f = os.path.realpath(m.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("cameratransform is imported from %s, not from %s" % (f, REPO))
    return m
