"""Symbolic arrays: a real numpy object array (so views and in-place updates alias exactly as in numpy) plus symbolic
dimensions. An axis of symbolic length N holds one generic row; all operations on it must act row by row, anything that
mixes rows is refused (Unsupported), so what is shown for the generic row holds for every row and every N >= 1."""
import numpy as np
from fractions import Fraction
from . import sym as S
from .sym import Sym, SymBool, Unsupported, as_sym, cur, NAN

real_array = np.array
real_asarray = np.asarray


class Dim(object):
    """coef * product of named symbolic lengths"""
    __slots__ = ("c", "n")

    def __init__(self, c, n):
        self.c = c
        self.n = tuple(n)  # row-major order of the factors

    @property
    def __class__(self):
        return int

    def key(self):
        return (self.c, tuple(sorted(self.n)))

    def same_order(self, o):
        """equal lengths whose rows are enumerated in a different order do not share a generic row"""
        if self.n != o.n and self.key() == o.key():
            raise Unsupported("rows of %s against rows of %s" % (self, o))
        return True

    def _eq(self, o):
        if type(o) is Dim:
            if o.key() == self.key():
                return True
            if len(o.n) == 1 and len(self.n) == 1 and o.c == 1 and self.c == 1:
                return S.mkbool(("dim", "%s==%s" % tuple(sorted((self.n[0], o.n[0]))), 1, True))
            return S.mkbool(("dim", repr(self) + "==" + repr(o), 1, True))
        if isinstance(o, (int, np.integer)):
            o = int(o)
            if o <= 0 or o % self.c:
                return False
            if len(self.n) == 1:
                return S.mkbool(("dim", self.n[0], o // self.c, True))
            if o == self.c:
                f = S.f_and(*[("dim", x, 1, True) for x in self.n])
                return S.mkbool(f)
            return S.mkbool(("dim", repr(self), o, True))
        return NotImplemented

    def __eq__(self, o):
        r = self._eq(o)
        return r if r is NotImplemented else bool(r)

    def __ne__(self, o):
        r = self._eq(o)
        return r if r is NotImplemented else not bool(r)

    def __hash__(self):
        return hash(self.key())

    def __gt__(self, o):
        # lengths are >= 1 ; compare with small concrete numbers by enumeration
        if isinstance(o, (int, np.integer)) and type(o) is not Dim:
            o = int(o)
            if o < self.c:
                return True
            if o > 8:
                raise Unsupported("comparison of a symbolic length with %d" % o)
            for k in range(1, o + 1):
                if self == k:
                    return False
            return True
        if isinstance(o, float):
            import math
            return self > math.floor(o)
        raise Unsupported("comparison of symbolic lengths")

    def __le__(self, o):
        return not self > o

    def __ge__(self, o):
        return self > o - 1

    def __lt__(self, o):
        return not self >= o

    def __bool__(self):
        return True

    def __mul__(self, o):
        if type(o) is Dim:
            return Dim(self.c * o.c, self.n + o.n)
        if isinstance(o, (int, np.integer)):
            if int(o) == 0:
                return 0
            return Dim(self.c * int(o), self.n)
        if type(o) is Sym:
            return self.as_sym() * o
        if isinstance(o, float):
            return self.as_sym() * o
        return NotImplemented

    __rmul__ = __mul__

    def as_sym(self):
        v = as_sym(self.c)
        for n in self.n:
            v = v * cur().dim_sym(n)
        return v

    def __add__(self, o):
        return self.as_sym() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.as_sym() - o

    def __rsub__(self, o):
        return o - self.as_sym()

    def __truediv__(self, o):
        return self.as_sym() / (o.as_sym() if type(o) is Dim else o)

    def __rtruediv__(self, o):
        return o / self.as_sym()

    def __floordiv__(self, o):
        if isinstance(o, (int, np.integer)) and type(o) is not Dim and self.c % int(o) == 0:
            return Dim(self.c // int(o), self.n)
        raise Unsupported("division of a symbolic length")

    def __neg__(self):
        raise Unsupported("negative symbolic length")

    def __index__(self):
        k = dim_value(self)
        if k is not None:
            return k
        raise Unsupported("symbolic length used as a concrete index")

    __int__ = __index__

    def __repr__(self):
        return "*".join(([str(self.c)] if self.c != 1 else []) + list(self.n))


def dim_value(d):
    """concrete value when it has been decided"""
    v = d.c
    for n in d.n:
        known, ex = cur().dimfacts.get(n, (None, None))
        if known is None:
            return None
        v *= known
    return v


def dsize(d):
    """physical size of an axis"""
    return d.c if type(d) is Dim else int(d)


def is_dim(d):
    return type(d) is Dim


def axis_length(s):
    """a number used as a length: the axis whose (symbolic) length it is known to be"""
    if type(s) is Sym and s.k == "f" and not s.v.is_const():
        for v, d in getattr(S.cur(), "axis_lengths", ()):
            if (as_sym(v) - s).v.is_zero():
                return d
    return int(s)


class SArr(object):
    __slots__ = ("data", "dims", "isbool", "flips", "isint", "__weakref__")
    __array_priority__ = 2000

    def __init__(self, data, dims=None, isbool=False):
        self.data = data
        self.dims = tuple(data.shape) if dims is None else tuple(dims)
        self.isbool = isbool
        assert len(self.dims) == data.ndim, (self.dims, data.shape)

    @property
    def __class__(self):
        return np.ndarray

    # attributes ------------------------------------------------------------------------------------------------------
    @property
    def shape(self):
        return tuple(self.dims)

    @property
    def ndim(self):
        return self.data.ndim

    @property
    def dtype(self):
        return np.dtype(bool) if self.isbool else np.dtype(float)

    @property
    def size(self):
        r = 1
        for d in self.dims:
            r = d * r if is_dim(d) else r * d
        return r

    @property
    def T(self):
        return SArr(self.data.T, self.dims[::-1], self.isbool)

    @property
    def flat(self):
        return iter(self.flatten())

    @property
    def real(self):
        return self

    @property
    def base(self):
        return None

    def __len__(self):
        # python's len() needs an int; the patched len() never gets here
        if not self.dims:
            raise TypeError("len() of unsized object")
        d = self.dims[0]
        if is_dim(d):
            k = dim_value(d)
            if k is not None:
                return k
            raise Unsupported("len() of a symbolic length")
        return d

    def __iter__(self):
        if not self.dims:
            raise TypeError("iteration over a 0-d array")
        if is_dim(self.dims[0]):
            k = dim_value(self.dims[0])
            if k == 1 and self.data.shape[0] == 1:
                return iter([self[0]])
            raise Unsupported("iteration over an axis of symbolic length")
        return iter([self[i] for i in range(self.data.shape[0])])

    def __bool__(self):
        if self.data.size == 1 and not any(is_dim(d) for d in self.dims):
            return bool(self.data.flat[0])
        if any(is_dim(d) for d in self.dims):
            if self.data.size == 1 and all((not is_dim(d)) or dim_value(d) == 1 for d in self.dims):
                return bool(self.data.flat[0])
            for d in self.dims:
                if is_dim(d) and d == 1 and self.data.size == 1:
                    return bool(self.data.flat[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __float__(self):
        if self.data.size == 1 and not any(is_dim(d) for d in self.dims):
            return float(self.data.flat[0])
        raise TypeError("only length-1 arrays can be converted to Python scalars")

    def __repr__(self):
        return "SArr%r%s" % (self.dims, self.data.tolist())

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        if self.data.size == 1:
            return self.data.flat[0]
        raise ValueError("can only convert an array of size 1 to a Python scalar")

    def tolist(self):
        if any(is_dim(d) for d in self.dims):
            raise Unsupported("tolist of a symbolic length")
        return self.data.tolist()

    def copy(self, *a, **k):
        return SArr(self.data.copy(), self.dims, self.isbool)

    def astype(self, dt, copy=True, **k):
        if dt in (bool, np.bool_, np.dtype(bool)):
            return apply1(lambda x: x if isinstance(x, (bool, SymBool, np.bool_)) else (x != 0), self, isbool=True)
        if self.isbool:
            return apply1(as_sym, self)
        return apply1(lambda x: S.cast(x, dt), self)

    def view(self, *a, **k):
        return SArr(self.data.view(), self.dims, self.isbool)

    # shape operations ------------------------------------------------------------------------------------------------
    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes or axes == (None,):
            return self.T
        axes = tuple(int(a) for a in axes)
        return SArr(self.data.transpose(axes), [self.dims[a] for a in axes], self.isbool)

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = [s if is_dim(s) else axis_length(s) for s in shape]
        tot = (1, ())
        for d in self.dims:
            if is_dim(d):
                tot = (tot[0] * d.c, tuple(sorted(tot[1] + d.n)))
            else:
                tot = (tot[0] * d, tot[1])
        c, n = 1, []
        unknown = None
        for i, s in enumerate(shape):
            if is_dim(s):
                c *= s.c
                n += list(s.n)
            elif s == -1:
                unknown = i
            else:
                c *= s
        if unknown is not None:
            rest = list(tot[1])
            for x in n:
                if x not in rest:
                    raise Unsupported("reshape of symbolic lengths")
                rest.remove(x)
            if c == 0 or tot[0] % c:
                raise ValueError("cannot reshape array")
            shape[unknown] = Dim(tot[0] // c, rest) if rest else tot[0] // c
        else:
            if tuple(sorted(n)) != tot[1]:
                # a concrete length instead of the symbolic one
                missing = list(tot[1])
                for x in n:
                    if x in missing:
                        missing.remove(x)
                raise Unsupported("reshape of symbolic lengths to concrete ones")
            if c != tot[0]:
                raise ValueError("cannot reshape array of size %s into shape %s" % (self.size, shape))
        # generic rows are blocks: a reshape is sound only if it keeps the order of the symbolic factors
        factors = [x for d in self.dims if is_dim(d) for x in d.n]
        for i, d in enumerate(shape):
            if is_dim(d):
                take, factors = factors[:len(d.n)], factors[len(d.n):]
                if sorted(take) != sorted(d.n):
                    raise Unsupported("reshape mixes symbolic rows")
                shape[i] = Dim(d.c, take)
        if not blocks_ok(self.dims, shape):
            raise Unsupported("reshape mixes symbolic rows")
        return SArr(self.data.reshape([dsize(s) for s in shape]), shape, self.isbool)

    def flatten(self, *a):
        return self.copy().reshape(-1)

    def ravel(self, *a):
        return self.reshape(-1)

    def squeeze(self, axis=None):
        ax = [i for i, d in enumerate(self.dims) if not is_dim(d) and d == 1] if axis is None else [axis % self.ndim]
        keep = [i for i in range(self.ndim) if i not in ax]
        return SArr(self.data.reshape([self.data.shape[i] for i in keep]), [self.dims[i] for i in keep], self.isbool)

    # indexing --------------------------------------------------------------------------------------------------------
    def _index(self, idx):
        """translate an index; returns (numpy index for data, result dims)"""
        if not isinstance(idx, tuple):
            idx = (idx,)
        idx = list(idx)
        out = []
        if any(type(i) is SArr or isinstance(i, (list, np.ndarray)) and type(i) is not Sym for i in idx):
            return self._adv(idx)
        n_spec = sum(1 for i in idx if i is not None and i is not Ellipsis)
        n_ell = sum(1 for i in idx if i is Ellipsis)
        if n_ell == 0:
            idx.append(Ellipsis)
        dims = []
        ax = 0
        if n_spec > self.ndim:
            raise IndexError("too many indices for array")
        for i in idx:
            if i is None:
                out.append(None)
                dims.append(1)
            elif i is Ellipsis:
                k = self.ndim - n_spec
                out += [slice(None)] * k
                dims += list(self.dims[ax:ax + k])
                ax += k
            elif isinstance(i, slice):
                d = self.dims[ax]
                if is_dim(d):
                    if i == slice(None):
                        out.append(i)
                        dims.append(d)
                    elif i.start is None and i.stop is None and i.step == -1:
                        # the same rows in reverse order: an axis of its own
                        if d.c != 1 or len(d.n) != 1:
                            raise Unsupported("reversal of a symbolic axis")
                        out.append(slice(None))
                        dims.append(Dim(1, (d.n[0][:-1] if d.n[0].endswith("~") else d.n[0] + "~",)))
                    else:
                        raise Unsupported("slice of a symbolic axis")
                else:
                    i = slice(*[None if x is None else int(x) for x in (i.start, i.stop, i.step)])
                    out.append(i)
                    dims.append(len(range(*i.indices(d))))
                ax += 1
            else:
                d = self.dims[ax]
                if type(i) is Sym or type(i) is SymBool:
                    i = i.__index__()
                if isinstance(i, (bool, np.bool_)):
                    raise Unsupported("boolean scalar index")
                i = int(i)
                if is_dim(d):
                    k = dim_value(d)
                    if k is None:
                        # does the row exist?
                        k_need = i + 1 if i >= 0 else -i
                        if k_need > 1 and not d >= k_need:
                            raise IndexError("index %d is out of bounds" % i)
                        if dsize(d) != 1 and d.c != 1:
                            raise Unsupported("row of a block axis")
                    else:
                        if not -k <= i < k:
                            raise IndexError("index %d is out of bounds" % i)
                    if i not in (0, -1) or not dim_is_one(d):
                        # a particular row: not the generic one
                        raise Unsupported("particular row of a symbolic axis")
                    out.append(0)
                else:
                    if not -d <= i < d:
                        raise IndexError("index %d is out of bounds for axis with size %d" % (i, d))
                    out.append(i)
                ax += 1
        return tuple(out), dims

    def _adv(self, idx):
        # boolean mask handled by callers; integer arrays with concrete or row-identity indices
        raise Unsupported("advanced indexing")

    def _mask_of(self, idx):
        """if idx is a boolean mask (possibly with further parts) return it"""
        if type(idx) is SArr and idx.isbool:
            return idx
        if type(idx) is SymBool or isinstance(idx, (bool, np.bool_)):
            return idx
        if isinstance(idx, np.ndarray) and type(idx) is np.ndarray and idx.dtype == bool:
            return SArr(idx.astype(object), idx.shape, True)
        return None

    def __getitem__(self, idx):
        m = self._mask_of(idx)
        if m is not None:
            if type(m) is SArr:
                return self._get_mask(m)
            if bool(m):
                return SArr(self.data[None], (1,) + self.dims, self.isbool)
            return SArr(self.data[None][:0], (0,) + self.dims, self.isbool)
        if isinstance(idx, tuple) and any(type(i) is SArr or isinstance(i, (list, np.ndarray)) and type(i) not in (Sym, Dim) for i in idx) \
                or type(idx) is SArr or (isinstance(idx, (list, np.ndarray)) and type(idx) is not Sym):
            return self._get_adv(idx)
        di, dims = self._index(idx)
        r = self.data[di]
        if not isinstance(r, np.ndarray) or type(r) is not np.ndarray:
            if any(x is Ellipsis for x in (idx if isinstance(idx, tuple) else (idx,))):
                return SArr(S._obj0(r), (), self.isbool)
            return r
        if r.shape == () and not any(x is Ellipsis for x in (idx if isinstance(idx, tuple) else (idx,))):
            return r[()]
        return SArr(r, dims, self.isbool)

    def _get_mask(self, m):
        if any(is_dim(d) for d in m.dims):
            vals = [bool(x) for x in m.data.flat]
            raise Unsupported("selection of rows of a symbolic axis")
        mm = np.array([bool(x) for x in m.data.flat], dtype=bool).reshape(m.data.shape)
        return SArr(self.data[mm], (int(mm.sum()),) + tuple(self.dims[m.ndim:]), self.isbool)

    def _get_adv(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        # support: x[index_array, arange(N)] for a (T, N) array, and plain integer index arrays on concrete axes
        items = []
        for i in idx:
            if type(i) is SArr:
                items.append(i)
            elif isinstance(i, (list, np.ndarray)) and type(i) is not Sym:
                items.append(as_sarr(i))
            else:
                items.append(i)
        arrs = [i for i in items if type(i) is SArr]
        if any(a.isbool for a in arrs):
            if len(items) == 1:
                return self._get_mask(arrs[0])
            # mask combined with full slices / ints at the end
            if type(items[0]) is SArr and items[0].isbool and len(arrs) == 1:
                sub = self._get_mask(items[0])
                return sub[(slice(None),) + tuple(items[1:])]
            if items[0] is Ellipsis and len(items) == 2 and not any(is_dim(d) for d in arrs[0].dims) and arrs[0].ndim == 1:
                mm = [k for k, x in enumerate(arrs[0].data) if bool(x)]
                return SArr(self.data[..., mm], self.dims[:-1] + (len(mm),), self.isbool)
            raise Unsupported("mixed boolean index")
        # all integer arrays, leading axes
        lead = []
        k = 0
        for it in items:
            if type(it) is SArr or isinstance(it, (int, np.integer)):
                lead.append(it)
                k += 1
            else:
                break
        rest = items[k:]
        if any(type(r) is SArr for r in rest):
            if len(items) >= 2 and items[0] is Ellipsis and len(arrs) == 1 and len(items) == 2:
                ii = [int(x) for x in arrs[0].data.flat]
                return SArr(self.data[..., ii], self.dims[:-1] + (len(ii),), self.isbool)
            if all(r == slice(None) or type(r) is SArr for r in items) and len(arrs) == 1:
                ax = [j for j, r in enumerate(items) if type(r) is SArr][0]
                ii = [int(x) for x in arrs[0].data.flat]
                if is_dim(self.dims[ax]):
                    raise Unsupported("advanced index on symbolic axis")
                return SArr(np.take(self.data, ii, axis=ax), self.dims[:ax] + (len(ii),) + self.dims[ax + 1:], self.isbool)
            raise Unsupported("advanced index")
        bdims = ()
        for a in lead:
            if type(a) is SArr:
                bdims = broadcast_dims(bdims, a.dims)
        phys = tuple(dsize(d) for d in bdims)
        ix = []
        for ax, a in enumerate(lead):
            d = self.dims[ax]
            if is_dim(d):
                if type(a) is not SArr or getattr(a.data, "flat", None) is None:
                    raise Unsupported("advanced index on symbolic axis")
                # must be the row identity
                if not (a.ndim == 1 and is_dim(a.dims[0]) and a.dims[0].key() == d.key() and all(is_rowid(x, d) for x in a.data.flat)):
                    raise Unsupported("advanced index on symbolic axis")
                ix.append(np.zeros(phys, dtype=int))
            else:
                if type(a) is SArr:
                    v = np.array([int_of(x) for x in a.data.flat], dtype=int).reshape(a.data.shape)
                    ix.append(np.broadcast_to(v, phys))
                else:
                    ix.append(int(a))
        r = self.data[tuple(ix)]
        dims = tuple(bdims) + self.dims[len(lead):]
        res = SArr(r, dims, self.isbool)
        if rest:
            res = res[(slice(None),) * len(bdims) + tuple(rest)]
        return res

    def __setitem__(self, idx, value):
        m = self._mask_of(idx)
        if m is None and isinstance(idx, tuple) and any(self._mask_of(i) is not None for i in idx):
            return self._set_mixed(idx, value)
        if m is None:
            if (isinstance(idx, tuple) and any(type(i) is SArr or isinstance(i, (list, np.ndarray)) and type(i) is not Sym for i in idx)) \
                    or type(idx) is SArr or (isinstance(idx, (list, np.ndarray)) and type(idx) is not Sym):
                idt = idx if isinstance(idx, tuple) else (idx,)
                if any(is_dim(d) for d in self.dims[:len(idt)]):
                    raise Unsupported("assignment with an index array on a symbolic axis")
                conv = []
                for i in idt:
                    if type(i) is SArr:
                        conv.append(np.array([int_of(x) for x in i.data.flat], dtype=int).reshape(i.data.shape))
                    else:
                        conv.append(i)
                self.data[tuple(conv)] = plain(value)
                return
            di, dims = self._index(idx)
            v = as_sarr(value)
            broadcast_into(v.dims, dims)
            self.data[di] = v.data if v.ndim else v.data[()]
            return
        if type(m) is not SArr:
            if bool(m):
                v = as_sarr(value)
                self.data[...] = v.data if v.ndim else v.data[()]
            return
        # mask assignment: decide every mask element
        if m.ndim > self.ndim:
            raise IndexError("too many indices for array")
        for a, b in zip(m.dims, self.dims):
            if not dims_equal(a, b):
                raise IndexError("boolean index did not match indexed array")
        v = as_sarr(value)
        ri = 0
        sel = []
        for pos in np.ndindex(*m.data.shape):
            if bool(m.data[pos]):
                sel.append(pos)
        if not sel:
            return
        if v.ndim > self.ndim - m.ndim:
            # one value per selected element
            if any(is_dim(d) for d in m.dims):
                raise Unsupported("per-element mask assignment on a symbolic axis")
            if v.data.shape[0] != len(sel) and v.data.shape[0] != 1:
                raise ValueError("NumPy boolean array indexing assignment cannot assign %d input values to the %d output values" % (v.data.shape[0], len(sel)))
            for k, pos in enumerate(sel):
                x = v.data[k if v.data.shape[0] > 1 else 0]
                self.data[pos] = x
            return
        broadcast_into(v.dims, self.dims[m.ndim:])
        for pos in sel:
            self.data[pos] = v.data if v.ndim else v.data[()]

    def _set_mixed(self, idx, value):
        # e.g. x[mask, 0] = v  ;  x[..., mask] unsupported ; x[:, 0][mask] goes through the plain path
        m = self._mask_of(idx[0])
        if m is None or type(m) is not SArr or any(self._mask_of(i) is not None for i in idx[1:]):
            raise Unsupported("mixed boolean assignment")
        sub = self[(slice(None),) * m.ndim + tuple(idx[1:])]
        if type(sub) is not SArr:
            raise Unsupported("mixed boolean assignment")
        sub[m] = value

    # arithmetic ------------------------------------------------------------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(self, ufunc, method, *inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, types, args, kwargs)

    def dot(self, o):
        return do_dot(self, o)

    def sum(self, axis=None, keepdims=False, **k):
        axes = norm_axes(axis, self.ndim)
        if any(is_dim(self.dims[i]) and not (dim_value(self.dims[i]) == 1 and self.data.shape[i] == 1) for i in axes):
            # the sum over all rows of what the generic row holds: equal if the rows are
            names = sorted(x for i in axes if is_dim(self.dims[i]) for x in self.dims[i].n)
            S.cur().assumptions.add("sums over a list of unspecified length are linear functions of the generic summand")
            plain = SArr(self.data, [self.data.shape[i] if i in axes else d for i, d in enumerate(self.dims)])
            return reduce_fn(plain, axis, keepdims, lambda v: S.axis_sum(names, sum_list(v)))
        return reduce_fn(self, axis, keepdims, lambda v: sum_list(v))

    def mean(self, axis=None, keepdims=False, **k):
        return reduce_fn(self, axis, keepdims, lambda v: sum_list(v) / len(v))

    def prod(self, axis=None, keepdims=False, **k):
        return reduce_fn(self, axis, keepdims, prod_list)

    def min(self, axis=None, keepdims=False, **k):
        return reduce_fn(self, axis, keepdims, lambda v: fold(S.fn_min, v))

    def max(self, axis=None, keepdims=False, **k):
        return reduce_fn(self, axis, keepdims, lambda v: fold(S.fn_max, v))

    def all(self, axis=None, keepdims=False, **k):
        return reduce_fn(self, axis, keepdims, lambda v: S.mkbool(S.f_and(*[S.to_bool(x) for x in v])), isbool=True)

    def any(self, axis=None, keepdims=False, **k):
        return reduce_fn(self, axis, keepdims, lambda v: S.mkbool(S.f_or(*[S.to_bool(x) for x in v])), isbool=True)

    def argmin(self, axis=None, **k):
        return do_argmin(self, axis, False)

    def argmax(self, axis=None, **k):
        return do_argmin(-self, axis, False)

    def round(self, *a):
        raise Unsupported("round")

    def clip(self, lo, hi):
        return do_clip(self, lo, hi)

    def fill(self, v):
        self.data[...] = as_sym(v)

    def repeat(self, *a, **k):
        raise Unsupported("repeat")


def _binop(name):
    uf = getattr(np, name)

    def f(self, o):
        if o is None or isinstance(o, (str, dict)):
            return NotImplemented
        return array_ufunc(self, uf, "__call__", self, o)

    def r(self, o):
        if o is None or isinstance(o, (str, dict)):
            return NotImplemented
        return array_ufunc(self, uf, "__call__", o, self)

    def i(self, o):
        return array_ufunc(self, uf, "__call__", self, o, out=(self,))
    return f, r, i


for nm, uf in (("add", "add"), ("sub", "subtract"), ("mul", "multiply"), ("truediv", "true_divide"), ("pow", "power"),
               ("mod", "remainder"), ("floordiv", "floor_divide"), ("and", "bitwise_and"), ("or", "bitwise_or"),
               ("xor", "bitwise_xor")):
    f, r, i = _binop(uf)
    setattr(SArr, "__%s__" % nm, f)
    setattr(SArr, "__r%s__" % nm, r)
    setattr(SArr, "__i%s__" % nm, i)
for nm, uf in (("lt", "less"), ("le", "less_equal"), ("gt", "greater"), ("ge", "greater_equal"), ("eq", "equal"), ("ne", "not_equal")):
    f, r, i = _binop(uf)
    setattr(SArr, "__%s__" % nm, f)
SArr.__hash__ = None
SArr.__neg__ = lambda self: apply1(lambda x: -x, self)
SArr.__pos__ = lambda self: self.copy()
SArr.__abs__ = lambda self: apply1(S.fn_abs, self)
SArr.__invert__ = lambda self: apply1(lambda x: S.mkbool(S.f_not(S.to_bool(x))), self, isbool=True)
SArr.__matmul__ = lambda self, o: do_matmul(self, o)
SArr.__rmatmul__ = lambda self, o: do_matmul(o, self)


# ---------------------------------------------------------------------------------------------------------------------
def blocks_ok(a, b):
    """the reshape a -> b keeps generic blocks intact: compare the sequence (symbolic factors, trailing concrete size)"""
    def sig(dims):
        out = []
        tail = 1
        head = 1
        for d in dims:
            if is_dim(d):
                out.append((head, tuple(d.n)))
                head = d.c
                # within a Dim axis c*N the layout is N outer, c inner (or c outer for stacked); require c inner
            else:
                head *= d
        out.append((head, ()))
        return out
    sa, sb = sig(a), sig(b)
    # merge symbolic parts that are adjacent with concrete size 1 between
    def merge(s):
        out = []
        for h, n in s:
            if out and h == 1 and out[-1][1] and n:
                out[-1] = (out[-1][0], out[-1][1] + n)
            else:
                out.append((h, n))
        return out
    return merge(sa) == merge(sb)


def dim_is_one(d):
    return bool(d == 1)


def is_rowid(x, d):
    return type(x) is RowId and x.d == d.key()


class RowId(object):
    """the generic row index of a symbolic axis"""
    def __init__(self, d):
        self.d = d


def int_of(x):
    if type(x) is Sym or type(x) is SymBool:
        return x.__index__()
    return int(x)


def dims_equal(a, b):
    if is_dim(a) and is_dim(b):
        return a.key() == b.key() and a.same_order(b) or bool(a == b)
    if is_dim(a) or is_dim(b):
        d, k = (a, b) if is_dim(a) else (b, a)
        return bool(d == k)
    return a == b


def broadcast_dims(a, b):
    n = max(len(a), len(b))
    a = (1,) * (n - len(a)) + tuple(a)
    b = (1,) * (n - len(b)) + tuple(b)
    out = []
    for x, y in zip(a, b):
        if is_dim(x) and is_dim(y):
            if x.key() == y.key() and x.same_order(y) or bool(x == y):
                out.append(x)
            else:
                raise ValueError("operands could not be broadcast together with shapes %s %s" % (a, b))
        elif is_dim(x) or is_dim(y):
            d, k = (x, y) if is_dim(x) else (y, x)
            if k == 1:
                out.append(d)
            elif d == k:
                raise Unsupported("symbolic length meets a concrete one")
            elif bool(d == 1):
                out.append(k)
            else:
                raise ValueError("operands could not be broadcast together with shapes %s %s" % (a, b))
        elif x == y:
            out.append(x)
        elif x == 1:
            out.append(y)
        elif y == 1:
            out.append(x)
        else:
            raise ValueError("operands could not be broadcast together with shapes %s %s" % (a, b))
    return tuple(out)


def broadcast_into(src, dst):
    src = tuple(src)
    while len(src) > len(dst) and not is_dim(src[0]) and src[0] == 1:
        src = src[1:]
    if len(src) > len(dst):
        raise ValueError("could not broadcast input array from shape %s into shape %s" % (src, tuple(dst)))
    r = broadcast_dims(src, dst)
    for x, y in zip(r, dst):
        if is_dim(x) != is_dim(y) or (is_dim(x) and x.key() != y.key() and not x == y) or (not is_dim(x) and x != y):
            raise ValueError("could not broadcast input array from shape %s into shape %s" % (src, tuple(dst)))


def wrap(data, dims=None, isbool=False):
    return SArr(data, dims, isbool)


def plain(v):
    if type(v) is SArr:
        return v.data if v.ndim else v.data[()]
    if isinstance(v, (list, tuple)):
        return as_sarr(v).data
    return as_sym(v)


def lift(x):
    if type(x) in (Sym, SymBool):
        return x
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if type(x) is Dim:
        return x.as_sym()
    if x is None:
        return None
    if type(x) is RowId:
        return x
    return as_sym(x)


def as_sarr(x):
    """anything array-like -> SArr (no copy for SArr)"""
    if type(x) is SArr:
        return x
    if type(x) is Sym:
        return SArr(S._obj0(x), ())
    if type(x) is SymBool:
        return SArr(S._obj0(x), (), True)
    if type(x) is Dim:
        return SArr(S._obj0(x.as_sym()), ())
    if isinstance(x, np.ndarray):
        isb = x.dtype == bool
        d = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            d[i] = lift(x[i])
        return SArr(d, x.shape, isb)
    if isinstance(x, (list, tuple)) or hasattr(x, "__iter__") and not isinstance(x, (str, dict)):
        items = [as_sarr(i) for i in x]
        return stack(items)
    if isinstance(x, str):
        raise Unsupported("string array")
    if x is None:
        return SArr(S._obj0(None), ())
    return SArr(S._obj0(lift(x)), (), isinstance(x, (bool, np.bool_)))


def stack(items, axis=0):
    if not items:
        return SArr(np.empty((0,), dtype=object), (0,))
    dims = items[0].dims
    for i in items[1:]:
        if len(i.dims) != len(dims) or not all(dims_equal(a, b) for a, b in zip(i.dims, dims)):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
    for i in items:
        if len(i.dims) == len(dims) and any(is_dim(a) and not is_dim(b) for a, b in zip(i.dims, dims)):
            dims = i.dims
    n = len(items)
    d = np.empty((n,) + items[0].data.shape, dtype=object)
    for k, i in enumerate(items):
        d[k] = i.data if i.ndim else i.data[()]
    r = SArr(d, (n,) + tuple(dims), all(i.isbool for i in items))
    if axis != 0:
        ax = list(range(r.ndim))
        ax.remove(0)
        ax.insert(axis % r.ndim, 0)
        r = r.transpose(*ax)
        r = r.copy()
    return r


def concat(items, axis=0):
    items = [as_sarr(i) for i in items]
    nd = items[0].ndim
    axis = axis % nd
    for i in items[1:]:
        if i.ndim != nd:
            raise ValueError("all the input array dimensions must match")
        for k in range(nd):
            if k != axis and not dims_equal(i.dims[k], items[0].dims[k]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    if any(is_dim(i.dims[axis]) for i in items):
        raise Unsupported("concatenation along a symbolic axis")
    d = np.concatenate([i.data for i in items], axis=axis)
    dims = list(items[0].dims)
    dims[axis] = d.shape[axis]
    return SArr(d, dims, all(i.isbool for i in items))


def apply1(fn, a, isbool=False):
    d = np.empty(a.data.shape, dtype=object)
    for i in np.ndindex(*a.data.shape):
        d[i] = fn(a.data[i])
    return SArr(d, a.dims, isbool)


def apply2(fn, a, b, isbool=False):
    dims = broadcast_dims(a.dims, b.dims)
    x, y = np.broadcast_arrays(a.data, b.data)
    d = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        d[i] = fn(x[i], y[i])
    return SArr(d, dims, isbool)


def out_scalar(r):
    """numpy returns scalars, not 0-d arrays, from arithmetic"""
    if type(r) is SArr and r.ndim == 0:
        r = r.data[()]
        return np.bool_(r) if type(r) is bool else r
    return r


# ---------------------------------------------------------------------------------------------------------------------
# ufuncs
# ---------------------------------------------------------------------------------------------------------------------
def num(f):
    def g(*a):
        return f(*[as_sym(x) for x in a])
    return g


def logical(f):
    def g(*a):
        return S.mkbool(f(*[S.to_bool(x) for x in a]))
    return g


def bitop(fb):
    def g(a, b):
        if isinstance(a, (bool, SymBool, np.bool_)) and isinstance(b, (bool, SymBool, np.bool_)):
            return S.mkbool(fb(S.to_bool(a), S.to_bool(b)))
        raise Unsupported("bit operation on numbers")
    return g


def b_mul(a, b):
    if isinstance(a, (bool, SymBool, np.bool_)) and isinstance(b, (bool, SymBool, np.bool_)):
        return S.mkbool(S.f_and(S.to_bool(a), S.to_bool(b)))
    return as_sym(a) * as_sym(b)


def b_add(a, b):
    if isinstance(a, (bool, SymBool, np.bool_)) and isinstance(b, (bool, SymBool, np.bool_)):
        return S.mkbool(S.f_or(S.to_bool(a), S.to_bool(b)))
    return as_sym(a) + as_sym(b)


def f_xor(a, b):
    return S.f_or(S.f_and(a, S.f_not(b)), S.f_and(S.f_not(a), b))


def u_eq(a, b):
    if a is None or b is None:
        return (a is None) and (b is None)
    if type(a) is RowId or type(b) is RowId:
        raise Unsupported("comparison of row indices")
    return as_sym(a) == as_sym(b)


def u_pow(a, b):
    return as_sym(a) ** (b if not isinstance(b, (bool, SymBool, np.bool_)) else as_sym(b))


def fmod(a, b):
    return a % b


def copysign(a, b):
    m = S.fn_abs(a)
    return m if bool(b >= 0) else -m


UF1 = {
    np.negative: num(lambda x: -x), np.positive: num(lambda x: x), np.absolute: num(S.fn_abs), np.fabs: num(S.fn_abs),
    np.sqrt: num(S.fn_sqrt), np.sin: num(S.fn_sin), np.cos: num(S.fn_cos), np.tan: num(S.fn_tan),
    np.arctan: num(S.fn_atan), np.arcsin: num(S.fn_asin), np.arccos: num(S.fn_acos), np.deg2rad: num(S.fn_deg2rad),
    np.radians: num(S.fn_deg2rad), np.rad2deg: num(S.fn_rad2deg), np.degrees: num(S.fn_rad2deg), np.square: num(lambda x: x * x),
    np.floor: num(S.fn_floor), np.exp: num(S.fn_exp), np.log: num(S.fn_log), np.sign: num(S.fn_sign),
    np.reciprocal: num(lambda x: as_sym(1) / x), np.ceil: num(lambda x: -S.fn_floor(-x)),
}
UF1B = {
    np.isnan: num(S.fn_isnan), np.isinf: num(S.fn_isinf), np.isfinite: num(S.fn_isfinite),
    np.logical_not: logical(S.f_not), np.invert: logical(S.f_not),
}
UF2 = {
    np.add: b_add, np.subtract: num(lambda a, b: a - b), np.multiply: b_mul, np.true_divide: num(lambda a, b: a / b),
    np.power: u_pow, np.float_power: u_pow, np.remainder: num(lambda a, b: a % b), np.floor_divide: num(lambda a, b: a // b),
    np.arctan2: num(S.fn_atan2), np.hypot: num(S.fn_hypot), np.minimum: num(S.fn_min), np.maximum: num(S.fn_max),
    np.fmin: num(lambda a, b: b if a.k == "n" else a if b.k == "n" else S.fn_min(a, b)),
    np.fmax: num(lambda a, b: b if a.k == "n" else a if b.k == "n" else S.fn_max(a, b)),
    np.copysign: num(copysign),
}
UF2B = {
    np.less: num(lambda a, b: a < b), np.less_equal: num(lambda a, b: a <= b), np.greater: num(lambda a, b: a > b),
    np.greater_equal: num(lambda a, b: a >= b), np.equal: u_eq, np.not_equal: lambda a, b: S.mkbool(S.f_not(S.to_bool(u_eq(a, b)))),
    np.logical_and: logical(S.f_and), np.logical_or: logical(S.f_or), np.logical_xor: logical(f_xor),
    np.bitwise_and: bitop(S.f_and), np.bitwise_or: bitop(S.f_or), np.bitwise_xor: bitop(f_xor),
}


def array_ufunc(self, ufunc, method, *inputs, **kw):
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    kw.pop("dtype", None)
    kw.pop("casting", None)
    if method == "reduce":
        axis = kw.get("axis", 0)
        kd = kw.get("keepdims", False)
        a = as_sarr(inputs[0])
        fn = {np.add: "sum", np.multiply: "prod", np.minimum: "min", np.maximum: "max", np.logical_and: "all", np.logical_or: "any"}.get(ufunc)
        if fn is None:
            raise Unsupported("reduce %s" % ufunc)
        return getattr(a, fn)(axis=axis, keepdims=kd)
    if method == "outer":
        a, b = as_sarr(inputs[0]), as_sarr(inputs[1])
        return array_ufunc(self, ufunc, "__call__", a[(Ellipsis,) + (None,) * b.ndim], b)
    if method != "__call__":
        raise Unsupported("ufunc method " + method)
    if ufunc is np.matmul:
        return do_matmul(*inputs)
    a = as_sarr(inputs[0])
    if ufunc in UF1:
        r = apply1(UF1[ufunc], a)
    elif ufunc in UF1B:
        r = apply1(UF1B[ufunc], a, isbool=True)
    elif ufunc in UF2 or ufunc in UF2B:
        b = as_sarr(inputs[1])
        isb = ufunc in UF2B or (a.isbool and b.isbool and ufunc in (np.add, np.multiply))
        fn = UF2.get(ufunc) or UF2B[ufunc]
        if where is not True and out is not None:
            w = as_sarr(where)
            o = out[0]
            dims = broadcast_dims(a.dims, b.dims)
            x, y, ww = np.broadcast_arrays(a.data, b.data, w.data)
            for i in np.ndindex(*x.shape):
                if bool(ww[i]):
                    o.data[i] = fn(x[i], y[i])
            return o
        r = apply2(fn, a, b, isbool=isb)
    else:
        raise Unsupported("ufunc %s" % ufunc.__name__)
    if where is not True:
        raise Unsupported("ufunc where=")
    if out is not None:
        o = out[0]
        if type(o) is not SArr:
            raise Unsupported("out array")
        broadcast_into(r.dims, o.dims)
        o.data[...] = r.data if r.ndim else r.data[()]
        return o
    return out_scalar(r)


# ---------------------------------------------------------------------------------------------------------------------
# array functions
# ---------------------------------------------------------------------------------------------------------------------
def sum_list(v):
    t = as_sym(0)
    for x in v:
        t = t + as_sym(x)
    return t


def prod_list(v):
    t = as_sym(1)
    for x in v:
        t = t * as_sym(x)
    return t


def fold(f, v):
    if not len(v):
        raise ValueError("zero-size array to reduction operation has no identity")
    t = as_sym(v[0])
    for x in v[1:]:
        t = f(t, as_sym(x))
    return t


def norm_axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (tuple, list)):
        return tuple(a % nd for a in axis)
    if not -nd <= axis < nd:
        raise np.exceptions.AxisError(axis, nd)
    return (axis % nd,)


def reduce_fn(a, axis, keepdims, fn, isbool=False):
    a = as_sarr(a)
    axes = norm_axes(axis, a.ndim)
    for ax in axes:
        if is_dim(a.dims[ax]):
            if dim_value(a.dims[ax]) == 1 and a.data.shape[ax] == 1:
                continue
            raise Unsupported("reduction over a symbolic axis")
    keep = [i for i in range(a.ndim) if i not in axes]
    d = a.data.transpose(keep + list(axes))
    shape = [a.data.shape[i] for i in keep]
    d = d.reshape(shape + [-1]) if a.data.size else d.reshape(shape + [0])
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        out[i] = fn(list(d[i]))
    dims = [a.dims[i] for i in keep]
    if keepdims:
        full = [1 if i in axes else a.dims[i] for i in range(a.ndim)]
        out = out.reshape([1 if i in axes else a.data.shape[i] for i in range(a.ndim)])
        return SArr(out, full, isbool)
    r = SArr(out, dims, isbool)
    return out_scalar(r)


def do_dot(a, b, out=None):
    a, b = as_sarr(a), as_sarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return out_scalar(apply2(lambda x, y: as_sym(x) * as_sym(y), a, b))
    ka, kb = a.dims[-1], b.dims[-2] if b.ndim >= 2 else b.dims[-1]
    if is_dim(ka) or is_dim(kb):
        raise Unsupported("dot over a symbolic axis")
    if ka != kb:
        raise ValueError("shapes %s and %s not aligned" % (a.dims, b.dims))
    d = np.dot(a.data, b.data)
    dims = a.dims[:-1] + (b.dims[:-2] + b.dims[-1:] if b.ndim >= 2 else ())
    if not isinstance(d, np.ndarray) or type(d) is not np.ndarray:
        return d
    return SArr(d, dims)


def do_matmul(a, b):
    a, b = as_sarr(a), as_sarr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: scalar operand")
    if a.ndim <= 2 and b.ndim <= 2:
        return do_dot(a, b)
    one_a, one_b = a.ndim == 1, b.ndim == 1
    if one_a:
        a = a[None, :]
    if one_b:
        b = b[:, None]
    if is_dim(a.dims[-1]) or is_dim(b.dims[-2]):
        raise Unsupported("matmul over a symbolic axis")
    if a.dims[-1] != b.dims[-2]:
        raise ValueError("matmul: dimension mismatch")
    lead = broadcast_dims(a.dims[:-2], b.dims[:-2])
    d = np.matmul(a.data, b.data)
    r = SArr(d, lead + (a.dims[-2], b.dims[-1]))
    if one_a:
        r = r[..., 0, :]
    if one_b:
        r = r[..., 0]
    return r


def do_inner(a, b):
    a, b = as_sarr(a), as_sarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return out_scalar(apply2(lambda x, y: as_sym(x) * as_sym(y), a, b))
    if is_dim(a.dims[-1]) or is_dim(b.dims[-1]):
        raise Unsupported("inner over a symbolic axis")
    if a.dims[-1] != b.dims[-1]:
        raise ValueError("shapes not aligned")
    d = np.tensordot(a.data, b.data, axes=(-1, -1)) if a.ndim > 1 or b.ndim > 1 else None
    if d is None:
        return sum_list([x * y for x, y in zip(a.data, b.data)])
    return SArr(np.asarray(d, dtype=object), a.dims[:-1] + b.dims[:-1])


def do_cross(a, b, axis=-1, **k):
    a, b = as_sarr(a), as_sarr(b)
    if axis not in (-1,):
        raise Unsupported("cross axis")
    if a.dims[-1] != 3 or b.dims[-1] != 3:
        raise ValueError("incompatible dimensions for cross product")
    x1, y1, z1 = (a[..., i] for i in range(3))
    x2, y2, z2 = (b[..., i] for i in range(3))
    r = stack([as_sarr(y1 * z2 - z1 * y2), as_sarr(z1 * x2 - x1 * z2), as_sarr(x1 * y2 - y1 * x2)])
    ax = list(range(1, r.ndim)) + [0]
    return r.transpose(*ax).copy()


def do_einsum(spec, *ops, **kw):
    if not isinstance(spec, str):
        raise Unsupported("einsum form")
    ops = [as_sarr(o) for o in ops]
    spec = spec.replace(" ", "")
    if "->" in spec:
        lhs, rhs = spec.split("->")
    else:
        lhs = spec
        if "..." in lhs:
            rhs = None
        else:
            cnt = {}
            for ch in lhs.replace(",", ""):
                cnt[ch] = cnt.get(ch, 0) + 1
            rhs = "".join(sorted(c for c in cnt if cnt[c] == 1))
    terms = lhs.split(",")
    if len(terms) != len(ops):
        raise ValueError("einsum: operand count")
    dimof = {}
    ell = ()
    for t, o in zip(terms, ops):
        if "..." in t:
            pre, post = t.split("...")
            k = o.ndim - len(pre) - len(post)
            if k < 0:
                raise ValueError("einsum: too many subscripts")
            ell = broadcast_dims(ell, o.dims[len(pre):len(pre) + k])
            pairs = list(zip(pre, o.dims[:len(pre)])) + list(zip(post, o.dims[o.ndim - len(post):]))
        else:
            if len(t) != o.ndim:
                raise ValueError("einsum: operand has wrong number of dimensions for subscripts")
            pairs = list(zip(t, o.dims))
        for ch, d in pairs:
            if ch in dimof and not dims_equal(dimof[ch], d):
                if not is_dim(d) and d == 1 or not is_dim(dimof[ch]) and dimof[ch] == 1:
                    if not is_dim(dimof[ch]) and dimof[ch] == 1:
                        dimof[ch] = d
                    continue
                raise ValueError("einsum: dimension mismatch")
            if ch not in dimof or is_dim(d):
                dimof[ch] = d
    if rhs is None:
        raise Unsupported("implicit einsum")
    contracted = [ch for ch in dimof if ch not in rhs]
    for ch in contracted:
        if is_dim(dimof[ch]):
            raise Unsupported("einsum over a symbolic axis")
    d = np.einsum(spec, *[o.data for o in ops])
    dims = []
    i = 0
    while i < len(rhs):
        if rhs[i:i + 3] == "...":
            dims += list(ell)
            i += 3
        else:
            dims.append(dimof[rhs[i]])
            i += 1
    if not (isinstance(d, np.ndarray) and type(d) is np.ndarray):
        return as_sym(d)
    r = SArr(d, dims)
    return out_scalar(r) if r.ndim == 0 else r


def do_norm(x, ord=None, axis=None, keepdims=False):
    x = as_sarr(x)
    if ord not in (None, 2):
        raise Unsupported("norm order")
    if axis is None and x.ndim > 1 and ord is not None:
        raise Unsupported("matrix norm")
    return reduce_fn(x, axis, keepdims, lambda v: S.fn_sqrt(sum_list([as_sym(e) * as_sym(e) for e in v])))


def do_inv(m):
    m = as_sarr(m)
    n = m.dims[-1]
    if is_dim(n) or m.dims[-2] != n or n not in (2, 3):
        raise Unsupported("inverse")
    cur().assumptions.add("numpy.linalg.inv returns the exact inverse (adjugate / determinant)")
    out = np.empty(m.data.shape, dtype=object)
    for i in np.ndindex(*m.data.shape[:-2]):
        out[i] = inv_one(m.data[i], n)
    return SArr(out, m.dims)


def det_one(a, n):
    if n == 1:
        return as_sym(a[0, 0])
    if n == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    return (a[0, 0] * (a[1, 1] * a[2, 2] - a[1, 2] * a[2, 1]) - a[0, 1] * (a[1, 0] * a[2, 2] - a[1, 2] * a[2, 0])
            + a[0, 2] * (a[1, 0] * a[2, 1] - a[1, 1] * a[2, 0]))


def inv_one(a, n):
    det = det_one(a, n)
    if bool(det == 0):
        raise np.linalg.LinAlgError("Singular matrix")
    r = np.empty((n, n), dtype=object)
    if n == 2:
        r[0, 0], r[0, 1], r[1, 0], r[1, 1] = a[1, 1] / det, -a[0, 1] / det, -a[1, 0] / det, a[0, 0] / det
        return r
    for i in range(3):
        for j in range(3):
            rows = [k for k in range(3) if k != j]
            cols = [k for k in range(3) if k != i]
            c = a[rows[0], cols[0]] * a[rows[1], cols[1]] - a[rows[0], cols[1]] * a[rows[1], cols[0]]
            r[i, j] = (c if (i + j) % 2 == 0 else -c) / det
    return r


def do_det(m):
    m = as_sarr(m)
    n = m.dims[-1]
    out = np.empty(m.data.shape[:-2], dtype=object)
    for i in np.ndindex(*m.data.shape[:-2]):
        out[i] = det_one(m.data[i], n)
    return out_scalar(SArr(out, m.dims[:-2]))


def do_solve(a, b):
    a, b = as_sarr(a), as_sarr(b)
    cur().assumptions.add("numpy.linalg.solve returns the exact solution and raises LinAlgError exactly for singular matrices")
    n = a.dims[-1]
    if n not in (2, 3):
        raise Unsupported("solve")
    if b.ndim == 1:
        bb = b[:, None]
    else:
        bb = b
    lead = broadcast_dims(a.dims[:-2], bb.dims[:-2])
    ls = tuple(dsize(d) for d in lead)
    A = np.broadcast_to(a.data, ls + a.data.shape[-2:])
    B = np.broadcast_to(bb.data, ls + bb.data.shape[-2:])
    out = np.empty(ls + bb.data.shape[-2:], dtype=object)
    sing = False
    for i in np.ndindex(*ls):
        out[i] = np.dot(inv_one(A[i], n), B[i])
    r = SArr(out, lead + bb.dims[-2:])
    if b.ndim == 1:
        return r[..., 0]
    return r


def do_where(cond, *xy):
    if not xy:
        raise Unsupported("where with one argument")
    c, x, y = as_sarr(cond), as_sarr(xy[0]), as_sarr(xy[1])
    dims = broadcast_dims(broadcast_dims(c.dims, x.dims), y.dims)
    cc, xx, yy = np.broadcast_arrays(c.data, x.data, y.data)
    d = np.empty(cc.shape, dtype=object)
    for i in np.ndindex(*cc.shape):
        d[i] = xx[i] if bool(cc[i]) else yy[i]
    return SArr(d, dims, x.isbool and y.isbool)


def do_clip(a, lo=None, hi=None, out=None, **k):
    if "min" in k:
        lo = k["min"]
    if "max" in k:
        hi = k["max"]
    r = as_sarr(a)
    if lo is not None:
        r = as_sarr(apply2(num(S.fn_max), r, as_sarr(lo)))
    if hi is not None:
        r = as_sarr(apply2(num(S.fn_min), r, as_sarr(hi)))
    return out_scalar(r)


def argmin_list(v, nan_aware):
    # numpy: first NaN wins for argmin; nanargmin ignores NaN
    best = None
    for i, x in enumerate(v):
        x = as_sym(x)
        if x.k == "n":
            if nan_aware:
                continue
            return i
        if best is None or bool(x < as_sym(v[best])):
            best = i
    if best is None:
        raise ValueError("All-NaN slice encountered")
    return best


def do_argmin(a, axis=None, nan_aware=False, out=None, keepdims=False):
    a = as_sarr(a)
    r = reduce_fn(a, axis, keepdims, lambda v: as_sym(argmin_list(v, nan_aware)))
    return r


def do_nanreduce(fn):
    def g(a, axis=None, keepdims=False, **k):
        def h(v):
            v = [as_sym(x) for x in v]
            w = [x for x in v if x.k != "n"]
            return fn(w)
        return reduce_fn(as_sarr(a), axis, keepdims, h)
    return g


def do_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = as_sarr(a), as_sarr(b)

    def f(x, y):
        x, y = as_sym(x), as_sym(y)
        if x.k == "n" or y.k == "n":
            return bool(equal_nan and x.k == "n" and y.k == "n")
        if x.k == "i" or y.k == "i":
            return x.k == y.k and x.v == y.v
        return S.fn_abs(x - y) <= as_sym(atol) + as_sym(rtol) * S.fn_abs(y)
    r = apply2(f, a, b, isbool=True)
    return out_scalar(r)


def do_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = do_isclose(a, b, rtol, atol, equal_nan)
    return r if not type(r) is SArr else r.all()


def do_diff(a, n=1, axis=-1):
    a = as_sarr(a)
    if n != 1:
        raise Unsupported("diff order")
    ax = axis % a.ndim
    if is_dim(a.dims[ax]):
        raise Unsupported("diff over symbolic axis")
    hi = [slice(None)] * a.ndim
    lo = [slice(None)] * a.ndim
    hi[ax], lo[ax] = slice(1, None), slice(None, -1)
    return a[tuple(hi)] - a[tuple(lo)]


def do_cumulate(op):
    """numpy.cumsum and numpy.cumprod along an axis of known length"""
    def f(a, axis=None, **k):
        if any(v is not None for v in k.values()):
            raise Unsupported("cumulation with %s" % sorted(k))
        a = as_sarr(a)
        if axis is None:
            a, axis = a.reshape(-1), 0
        ax = axis % a.ndim
        if is_dim(a.dims[ax]):
            raise Unsupported("cumulation over symbolic axis")
        out = np.empty(a.data.shape, dtype=object)
        for i in np.ndindex(*a.data.shape[:ax], *a.data.shape[ax + 1:]):
            total = None
            for j in range(a.data.shape[ax]):
                x = as_sym(a.data[i[:ax] + (j,) + i[ax:]])
                total = x if total is None else op(total, x)
                out[i[:ax] + (j,) + i[ax:]] = total
        return SArr(out, list(a.dims))
    return f


def do_meshgrid(*xs, **kw):
    if kw.get("indexing", "xy") not in ("xy", "ij"):
        raise Unsupported("meshgrid")
    xs = [as_sarr(x) for x in xs]
    n = len(xs)
    ij = kw.get("indexing", "xy") == "ij"
    dims = [x.dims[0] for x in xs]
    order = list(range(n))
    if not ij and n >= 2:
        order[0], order[1] = 1, 0
    shape = [dims[o] for o in order]
    phys = [dsize(d) for d in shape]
    out = []
    for k, x in enumerate(xs):
        pos = order.index(k)
        sh = [1] * n
        sh[pos] = x.data.shape[0]
        d = np.broadcast_to(x.data.reshape(sh), phys).copy()
        out.append(SArr(d, shape))
    return out


def do_vstack(items, **k):
    items = [as_sarr(i) for i in items]
    items = [i[None, :] if i.ndim == 1 else i for i in items]
    return concat(items, 0)


def do_hstack(items, **k):
    items = [as_sarr(i) for i in items]
    items = [i[None] if i.ndim == 0 else i for i in items]
    return concat(items, 0 if items[0].ndim == 1 else 1)


def do_dstack(items, **k):
    items = [as_sarr(i) for i in items]
    items = [i[None, :, None] if i.ndim == 1 else i[..., None] if i.ndim == 2 else i for i in items]
    return concat(items, 2)


def do_column_stack(items, **k):
    items = [as_sarr(i) for i in items]
    items = [i[:, None] if i.ndim == 1 else i for i in items]
    return concat(items, 1)


def do_transpose(a, axes=None):
    a = as_sarr(a)
    return a.T if axes is None else a.transpose(*axes)


def do_moveaxis(a, s, d):
    a = as_sarr(a)
    ax = list(range(a.ndim))
    x = ax.pop(s % a.ndim)
    ax.insert(d % a.ndim, x)
    return a.transpose(*ax)


def do_broadcast_to(a, shape, **k):
    a = as_sarr(a)
    shape = (shape,) if isinstance(shape, int) else tuple(shape)
    broadcast_into(a.dims, shape)
    return SArr(np.broadcast_to(a.data, [dsize(d) for d in shape]), shape, a.isbool)


def do_expand_dims(a, axis):
    a = as_sarr(a)
    nd = a.ndim + 1
    axis = axis % nd
    return SArr(np.expand_dims(a.data, axis), a.dims[:axis] + (1,) + a.dims[axis:], a.isbool)


def do_atleast_1d(a):
    a = as_sarr(a)
    return a[None] if a.ndim == 0 else a


def do_atleast_2d(a):
    a = as_sarr(a)
    return a[None, None] if a.ndim == 0 else a[None, :] if a.ndim == 1 else a


def do_copy(a, *k, **kk):
    return as_sarr(a).copy()


def do_take(a, idx, axis=None, **k):
    a = as_sarr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    axis = axis % a.ndim
    if is_dim(a.dims[axis]):
        raise Unsupported("take on symbolic axis")
    if isinstance(idx, (int, np.integer)):
        return a[(slice(None),) * axis + (idx,)]
    return SArr(np.take(a.data, list(idx), axis=axis), a.dims[:axis] + (len(idx),) + a.dims[axis + 1:])


def mk_like(val):
    def f(a, dtype=None, **k):
        a = as_sarr(a)
        return full(a.dims, val)
    return f


def full(shape, val):
    if isinstance(shape, (int, np.integer)) or is_dim(shape):
        shape = (shape,)
    shape = tuple(s if is_dim(s) else int(s) for s in shape)
    v = lift(val)
    d = np.empty([dsize(s) for s in shape], dtype=object)
    d[...] = v
    for i in np.ndindex(*d.shape):
        d[i] = v
    return SArr(d, shape)


def do_full_like(a, v, **k):
    return full(as_sarr(a).dims, v)


def do_shape(a):
    return as_sarr(a).dims


def do_median(a, **k):
    raise Unsupported("median")


def do_fliplr(*a, **k):
    raise Unsupported("flip")


def do_array_equal(a, b):
    a, b = as_sarr(a), as_sarr(b)
    if len(a.dims) != len(b.dims) or not all(dims_equal(x, y) for x, y in zip(a.dims, b.dims)):
        return False
    return (a == b).all()


def do_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x = as_sarr(x)
    r = apply1(lambda e: as_sym(nan) if as_sym(e).k == "n" else e, x)
    if not copy and x.ndim:
        x.data[...] = r.data
        return x
    return out_scalar(r)


def do_outer(a, b):
    a, b = as_sarr(a).reshape(-1), as_sarr(b).reshape(-1)
    return a[:, None] * b[None, :]


def do_append(arr_, values, axis=None):
    if axis is None:
        return concat([as_sarr(arr_).reshape(-1), as_sarr(values).reshape(-1)])
    return concat([arr_, values], axis)


def do_flip(a, axis=None):
    a = as_sarr(a)
    axes = norm_axes(axis, a.ndim)
    return a[tuple(slice(None, None, -1) if i in axes else slice(None) for i in range(a.ndim))]


FUNCS = {
    np.dot: do_dot, np.inner: do_inner, np.cross: do_cross, np.einsum: do_einsum, np.linalg.norm: do_norm,
    np.linalg.inv: do_inv, np.linalg.solve: do_solve, np.linalg.det: do_det, np.where: do_where, np.clip: do_clip,
    np.sum: lambda a, axis=None, **k: as_sarr(a).sum(axis=axis, keepdims=k.get("keepdims", False)),
    np.mean: lambda a, axis=None, **k: as_sarr(a).mean(axis=axis, keepdims=k.get("keepdims", False)),
    np.average: lambda a, axis=None, **k: as_sarr(a).mean(axis=axis) if not k.get("weights") else _uns("average"),
    np.prod: lambda a, axis=None, **k: as_sarr(a).prod(axis=axis),
    np.min: lambda a, axis=None, **k: as_sarr(a).min(axis=axis), np.max: lambda a, axis=None, **k: as_sarr(a).max(axis=axis),
    np.amin: lambda a, axis=None, **k: as_sarr(a).min(axis=axis), np.amax: lambda a, axis=None, **k: as_sarr(a).max(axis=axis),
    np.all: lambda a, axis=None, **k: as_sarr(a).all(axis=axis), np.any: lambda a, axis=None, **k: as_sarr(a).any(axis=axis),
    np.argmin: lambda a, axis=None, **k: do_argmin(a, axis), np.argmax: lambda a, axis=None, **k: do_argmin(-as_sarr(a), axis),
    np.nanargmin: lambda a, axis=None, **k: do_argmin(a, axis, True),
    np.nanmin: do_nanreduce(lambda w: fold(S.fn_min, w) if w else NAN), np.nanmax: do_nanreduce(lambda w: fold(S.fn_max, w) if w else NAN),
    np.nansum: do_nanreduce(sum_list), np.nanmean: do_nanreduce(lambda w: sum_list(w) / len(w) if w else NAN),
    np.isclose: do_isclose, np.allclose: do_allclose, np.diff: do_diff, np.cumsum: do_cumulate(lambda x, y: x + y), np.cumprod: do_cumulate(lambda x, y: x * y), np.meshgrid: do_meshgrid, np.vstack: do_vstack,
    np.hstack: do_hstack, np.dstack: do_dstack, np.column_stack: do_column_stack,
    np.stack: lambda items, axis=0, **k: stack([as_sarr(i) for i in items], axis),
    np.concatenate: lambda items, axis=0, **k: concat(items, axis), np.transpose: do_transpose, np.moveaxis: do_moveaxis,
    np.reshape: lambda a, shape=None, *r, **k: as_sarr(a).reshape(shape if shape is not None else k["newshape"]),
    np.ravel: lambda a, **k: as_sarr(a).ravel(),
    np.broadcast_to: do_broadcast_to, np.expand_dims: do_expand_dims, np.squeeze: lambda a, axis=None: as_sarr(a).squeeze(axis),
    np.atleast_1d: do_atleast_1d, np.atleast_2d: do_atleast_2d, np.copy: do_copy, np.take: do_take,
    np.ones_like: mk_like(1), np.zeros_like: mk_like(0), np.empty_like: mk_like(float("nan")), np.full_like: do_full_like,
    np.shape: do_shape, np.ndim: lambda a: as_sarr(a).ndim, np.size: lambda a: as_sarr(a).size, np.array_equal: do_array_equal,
    np.nan_to_num: do_nan_to_num, np.outer: do_outer, np.append: do_append, np.swapaxes: lambda a, x, y: as_sarr(a).swapaxes(x, y),
    np.flip: do_flip, np.isscalar: lambda a: type(a) is Sym, np.real: lambda a: a, np.round: lambda *a, **k: _uns("round"),
    np.broadcast_arrays: lambda *a, **k: _bc(a), np.tensordot: lambda *a, **k: _uns("tensordot"),
    np.iscomplexobj: lambda a: False, np.median: do_median,
    np.copyto: lambda *a, **k: _uns("copyto"), np.putmask: lambda a, m, v: as_sarr(a).__setitem__(m, v),
    np.linalg.matrix_power: lambda *a, **k: _uns("matrix_power"),
}


def _bc(a):
    a = [as_sarr(x) for x in a]
    d = ()
    for x in a:
        d = broadcast_dims(d, x.dims)
    return [do_broadcast_to(x, d) for x in a]


def _uns(what):
    raise Unsupported(what)


def array_function(func, types, args, kwargs):
    f = FUNCS.get(func)
    if f is None:
        raise Unsupported("numpy function %s" % getattr(func, "__name__", func))
    r = f(*args, **kwargs)
    return r


def contains_sym(x, depth=0):
    t = type(x)
    if t in (Sym, SArr, SymBool, Dim):
        return True
    if t in (list, tuple) and depth < 6:
        return any(contains_sym(i, depth + 1) for i in x)
    if t is np.ndarray and x.dtype == object:
        return any(contains_sym(i, depth + 1) for i in x.flat)
    return False
