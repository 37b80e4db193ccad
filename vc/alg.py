"""Exact algebra for the verifier: polynomials and rational functions over "atoms".

An atom is an input variable or an irreducible function value (sin/cos of a base angle, sqrt, atan2, ...).
Polynomials are kept reduced modulo the defining relations of the algebraic atoms
(sin^2 -> 1 - cos^2, sqrt(P)^2 -> P, half-angle sin^2 -> (1 - cos 2x)/2), so equality of two expressions is decided by
a zero test of the normal form of the numerator of their difference.
"""
import math
from fractions import Fraction

PI_FLOAT = math.pi


class AlgError(Exception):
    """the expression is outside what the algebra supports (or too large)"""


MAX_TERMS = 6000


class Atom(object):
    __slots__ = ("idx", "kind", "name", "args", "rel", "is_int", "angle", "pos", "lo", "hi")

    def __init__(self, idx, kind, name, args=()):
        self.idx = idx
        self.kind = kind
        self.name = name
        self.args = args
        self.rel = None
        self.is_int = False
        self.angle = None
        self.pos = None

    def __repr__(self):
        return self.name


class Table(object):
    def __init__(self):
        self.atoms = []
        self.index = {}

    def get(self, kind, key, name=None, args=()):
        k = (kind, key)
        a = self.index.get(k)
        if a is None:
            a = Atom(len(self.atoms), kind, name if name is not None else "%s#%d" % (kind, len(self.atoms)), args)
            self.atoms.append(a)
            self.index[k] = a
        return a

    def lookup(self, kind, key):
        return self.index.get((kind, key))


T = Table()


def reset():
    global T
    T = Table()
    a = T.get("pi", "pi", "pi")
    a.pos = True
    return T


def norm_c(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x = a[i]
        y = b[j]
        if x[0] == y[0]:
            out.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] > y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def mono_div(a, b):
    """a / b or None"""
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        f = d.get(i, 0) - e
        if f < 0:
            return None
        if f == 0:
            del d[i]
        else:
            d[i] = f
    return tuple(sorted(d.items(), reverse=True))


class Poly(object):
    __slots__ = ("t", "_h", "_lm")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._lm = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return self is o or self.t == o.t

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), 0)

    def lm(self):
        if self._lm is None:
            self._lm = max(self.t)
        return self._lm

    def __add__(self, o):
        if not self.t:
            return o
        if not o.t:
            return self
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        t = dict(a)
        for m, c in b.items():
            v = t.get(m)
            if v is None:
                t[m] = c
            else:
                v = norm_c(v + c)
                if v == 0:
                    del t[m]
                else:
                    t[m] = v
        return Poly(t)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Poly({m: norm_c(c * k) for m, c in self.t.items()})

    def mul_mono(self, mm, k=1):
        return Poly({mono_mul(m, mm): norm_c(c * k) for m, c in self.t.items()})

    def __mul__(self, o):
        if not self.t or not o.t:
            return ZERO
        if len(self.t) * len(o.t) > 40 * MAX_TERMS:
            raise AlgError("polynomial too large")
        t = {}
        need = False
        atoms = T.atoms
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                c = c1 * c2
                v = t.get(m)
                if v is None:
                    t[m] = c
                    if not need:
                        for i, e in m:
                            if e > 1 and atoms[i].rel is not None:
                                need = True
                                break
                else:
                    t[m] = v + c
        t = {m: norm_c(c) for m, c in t.items() if c != 0}
        p = Poly(t)
        if need:
            p = p.reduce()
        if len(p.t) > MAX_TERMS:
            raise AlgError("polynomial too large")
        return p

    def reduce(self):
        """normal form with respect to the square relations of the atoms"""
        atoms = T.atoms
        out = {}
        work = [(m, c) for m, c in self.t.items()]
        guard = 0
        while work:
            m, c = work.pop()
            guard += 1
            if guard > 200000:
                raise AlgError("reduction too large")
            for k, (i, e) in enumerate(m):
                if e > 1 and atoms[i].rel is not None:
                    rel = atoms[i].rel
                    rest = m[:k] + (((i, e - 2),) if e > 2 else ()) + m[k + 1:]
                    for m2, c2 in rel.t.items():
                        work.append((mono_mul(rest, m2), c * c2))
                    break
            else:
                v = out.get(m, 0) + c
                out[m] = v
        return Poly({m: norm_c(c) for m, c in out.items() if c != 0})

    def pow(self, n):
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def content(self):
        """positive rational content"""
        from math import gcd
        num = 0
        den = 1
        for c in self.t.values():
            if type(c) is int:
                num = gcd(num, c)
            else:
                num = gcd(num, c.numerator)
                d = c.denominator
                den = den * d // gcd(den, d)
        return Fraction(num, den) if num else Fraction(0)

    def mono_content(self):
        it = iter(self.t)
        d = dict(next(it))
        for m in it:
            if not d:
                break
            dm = dict(m)
            for i in list(d):
                e = dm.get(i, 0)
                if e == 0:
                    del d[i]
                elif e < d[i]:
                    d[i] = e
        return tuple(sorted(d.items(), reverse=True))

    def div_mono(self, mm):
        return Poly({mono_div(m, mm): c for m, c in self.t.items()})

    def exact_div(self, d):
        """self / d in the polynomial ring, or None"""
        if d.is_const():
            return self.scale(Fraction(1) / d.const())
        if len(self.t) < 1:
            return self
        ldm = d.lm()
        ldc = d.t[ldm]
        if mono_div(self.lm(), ldm) is None:
            return None
        r = dict(self.t)
        q = {}
        steps = 0
        while r:
            m = max(r)
            mm = mono_div(m, ldm)
            if mm is None:
                return None
            k = norm_c(Fraction(r[m]) / ldc)
            q[mm] = k
            for m2, c2 in d.t.items():
                m3 = mono_mul(m2, mm)
                v = norm_c(r.get(m3, 0) - k * c2)
                if v == 0:
                    r.pop(m3, None)
                else:
                    r[m3] = v
            steps += 1
            if steps > 4000 or len(r) > MAX_TERMS:
                return None
        return Poly(q)

    def atoms(self):
        s = set()
        for m in self.t:
            for i, e in m:
                s.add(i)
        return s

    def degree_in(self, i):
        d = 0
        for m in self.t:
            for j, e in m:
                if j == i and e > d:
                    d = e
        return d

    def sqrt(self):
        """exact square root in the polynomial ring (up to sign) or None"""
        if not self.t:
            return ZERO
        lm = self.lm()
        c = Fraction(self.t[lm])
        if c < 0:
            return None
        rc = rational_sqrt(c)
        if rc is None:
            return None
        for i, e in lm:
            if e % 2:
                return None
        rm = tuple((i, e // 2) for i, e in lm)
        q = Poly({rm: norm_c(rc)})
        # iteratively determine lower terms
        for _ in range(200):
            r = self - plain_mul(q, q)
            if r.is_zero():
                return q
            m = r.lm()
            mm = mono_div(m, rm)
            if mm is None:
                return None
            k = norm_c(Fraction(r.t[m]) / (2 * rc))
            if mm in q.t:
                return None
            if mm >= min(q.t):
                return None
            t = dict(q.t)
            t[mm] = k
            q = Poly(t)
        return None

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m in sorted(self.t, reverse=True)[:40]:
            c = self.t[m]
            s = "*".join(T.atoms[i].name + ("^%d" % e if e > 1 else "") for i, e in m)
            if not s:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            elif c == -1:
                out.append("-" + s)
            else:
                out.append("%s*%s" % (c, s))
        if len(self.t) > 40:
            out.append("...(%d terms)" % len(self.t))
        return " + ".join(out).replace("+ -", "- ")


def plain_mul(a, b):
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = mono_mul(m1, m2)
            t[m] = t.get(m, 0) + c1 * c2
    return Poly({m: norm_c(c) for m, c in t.items() if c != 0})


def rational_sqrt(c):
    c = Fraction(c)
    if c < 0:
        return None
    a = math.isqrt(c.numerator)
    b = math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


ZERO = Poly({})
ONE = Poly({(): 1})


def P_const(c):
    c = norm_c(Fraction(c))
    return Poly({(): c}) if c != 0 else ZERO


def P_atom(a, e=1):
    return Poly({((a.idx, e),): 1})


class RF(object):
    """rational function  num / prod(d**e)"""
    __slots__ = ("num", "den", "_h")

    def __init__(self, num, den=None):
        self.num = num
        self.den = den if den is not None else {}
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.num, frozenset(self.den.items())))
        return self._h

    def __eq__(self, o):
        return self.num == o.num and self.den == o.den

    # construction ------------------------------------------------------------------------------------------------
    @staticmethod
    def make(num, den):
        if num.is_zero():
            return RF_ZERO
        atoms = T.atoms
        # rationalise algebraic atoms in the denominator
        again = True
        while again:
            again = False
            for d in list(den):
                e = den[d]
                if e == 0:
                    del den[d]
                    continue
                if d.is_const():
                    num = num.scale(Fraction(1) / Fraction(d.const()) ** e)
                    del den[d]
                    continue
                if len(d.t) == 1:
                    (m, c), = d.t.items()
                    if len(m) == 1 and m[0][1] == 1:
                        a = atoms[m[0][0]]
                        if a.rel is not None and a.kind in ("sqrt", "abs"):
                            del den[d]
                            if e % 2:
                                num = num * d
                                e += 1
                            num = _mul_den(num, den, a.rel, e // 2)
                            again = True
        # cancellation
        for d in list(den):
            e = den[d]
            if len(d.t) == 1:
                (m, c), = d.t.items()
                i = m[0][0]
                k = e
                for mm in num.t:
                    f = 0
                    for j, ee in mm:
                        if j == i:
                            f = ee
                            break
                    if f < k:
                        k = f
                        if k == 0:
                            break
                if k:
                    num = num.div_mono(((i, k),))
                    if e == k:
                        del den[d]
                    else:
                        den[d] = e - k
            else:
                while e > 0 and len(num.t) >= 1 and len(num.t) * len(d.t) <= 60000:
                    q = num.exact_div(d)
                    if q is None:
                        break
                    num = q
                    e -= 1
                if e == 0:
                    del den[d]
                else:
                    den[d] = e
        return RF(num, den)

    def is_const(self):
        return not self.den and self.num.is_const()

    def const(self):
        return self.num.const()

    def is_zero(self):
        return self.num.is_zero()

    def __add__(self, o):
        if self.num.is_zero():
            return o
        if o.num.is_zero():
            return self
        if not self.den and not o.den:
            return RF(self.num + o.num, {})
        if self.den == o.den:
            return RF.make(self.num + o.num, dict(self.den))
        den = dict(self.den)
        for d, e in o.den.items():
            if den.get(d, 0) < e:
                den[d] = e
        a = self.num
        b = o.num
        for d, e in den.items():
            k = e - self.den.get(d, 0)
            if k:
                a = a * (d if k == 1 else d.pow(k))
            k = e - o.den.get(d, 0)
            if k:
                b = b * (d if k == 1 else d.pow(k))
        return RF.make(a + b, den)

    def __neg__(self):
        return RF(-self.num, self.den)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if self.num.is_zero() or o.num.is_zero():
            return RF_ZERO
        if not self.den and not o.den:
            return RF(self.num * o.num, {})
        # cross cancellation first keeps things small
        a, b = self.num, o.num
        da, db = dict(self.den), dict(o.den)
        a, db = _cancel(a, db)
        b, da = _cancel(b, da)
        den = da
        for d, e in db.items():
            den[d] = den.get(d, 0) + e
        return RF.make(a * b, den)

    def inv(self):
        """1 / self (numerator must be known to be non-zero)"""
        num = ONE
        for d, e in self.den.items():
            num = num * (d if e == 1 else d.pow(e))
        den = {}
        num = _mul_den(num, den, self.num, 1)
        return RF.make(num, den)

    def __truediv__(self, o):
        if o.is_const():
            c = Fraction(o.const())
            return RF(self.num.scale(1 / c), self.den)
        # self * 1/o  with factor cancellation
        den = dict(self.den)
        extra = {}
        for d, e in o.den.items():
            k = min(e, den.get(d, 0))
            if k:
                den[d] -= k
                if den[d] == 0:
                    del den[d]
            if e - k:
                extra[d] = e - k
        num = self.num
        sub = {}
        num = _mul_den(num, sub, o.num, 1)
        num, sub = _cancel(num, sub)
        for d, e in sub.items():
            den[d] = den.get(d, 0) + e
        for d, e in extra.items():
            # numerator factor d**e: cancel against den if present
            k = min(e, den.get(d, 0))
            if k:
                den[d] -= k
                if den[d] == 0:
                    del den[d]
                e -= k
            if e:
                num = num * (d if e == 1 else d.pow(e))
        return RF.make(num, den)

    def pow(self, n):
        if n == 0:
            return RF_ONE
        if n < 0:
            return self.inv().pow(-n)
        if n == 1:
            return self
        if not self.den:
            return RF(self.num.pow(n), {})
        return RF.make(self.num.pow(n), {d: e * n for d, e in self.den.items()})

    def scale(self, k):
        if k == 0:
            return RF_ZERO
        return RF(self.num.scale(k), self.den)

    def atoms(self):
        s = self.num.atoms()
        for d in self.den:
            s |= d.atoms()
        return s

    def __repr__(self):
        if not self.den:
            return repr(self.num)
        return "(%r)/(%s)" % (self.num, " * ".join("(%r)%s" % (d, "^%d" % e if e > 1 else "") for d, e in self.den.items()))


def _cancel(num, den):
    if not den or num.is_const():
        return num, den
    den = dict(den)
    for d in list(den):
        e = den[d]
        if len(d.t) == 1:
            (m, c), = d.t.items()
            i = m[0][0]
            k = e
            for mm in num.t:
                f = 0
                for j, ee in mm:
                    if j == i:
                        f = ee
                        break
                if f < k:
                    k = f
                    if not k:
                        break
            if k:
                num = num.div_mono(((i, k),))
                e -= k
        else:
            while e > 0 and len(num.t) * len(d.t) <= 60000:
                q = num.exact_div(d)
                if q is None:
                    break
                num = q
                e -= 1
        if e == 0:
            del den[d]
        else:
            den[d] = e
    return num, den


def _mul_den(num, den, p, e):
    """multiply the denominator dict by p**e (in place); returns the adjusted numerator"""
    if p.is_const():
        return num.scale(Fraction(1) / Fraction(p.const()) ** e)
    mc = p.mono_content()
    q = p.div_mono(mc) if mc else p
    for i, k in mc:
        f = Poly({((i, 1),): 1})
        den[f] = den.get(f, 0) + k * e
    if q.is_const():
        return num.scale(Fraction(1) / Fraction(q.const()) ** e)
    lc = Fraction(q.t[q.lm()])
    if lc != 1:
        q = q.scale(1 / lc)
        num = num.scale(1 / lc ** e)
    den[q] = den.get(q, 0) + e
    return num


def factors(p):
    """p = c * prod f**e ; f: atoms and one monic multi-term polynomial"""
    if p.is_zero():
        return 0, []
    mc = p.mono_content()
    q = p.div_mono(mc) if mc else p
    out = [(Poly({((i, 1),): 1}), k) for i, k in mc]
    if q.is_const():
        return Fraction(q.const()), out
    lc = Fraction(q.t[q.lm()])
    q = q.scale(1 / lc)
    out.append((q, 1))
    return lc, out


RF_ZERO = RF(ZERO)
RF_ONE = RF(ONE)


def R_const(c):
    return RF(P_const(c))


def R_atom(a):
    return RF(P_atom(a))


def R_pi():
    return R_atom(T.get("pi", "pi", "pi"))


_fcache = {}


def R_float(x):
    """a concrete number of the program text: its shortest decimal, with multiples of pi recognised"""
    if isinstance(x, bool):
        return R_const(int(x))
    if isinstance(x, int):
        return R_const(x)
    if isinstance(x, Fraction):
        return R_const(x)
    x = float(x)
    if x in _fcache:
        k, c = _fcache[x]
    else:
        s = repr(x)
        k, c = 0, Fraction(s)
        digits = len(s.split("e")[0].replace("-", "").replace(".", "").strip("0"))
        if digits >= 14:
            for kk, y in ((1, x / PI_FLOAT), (-1, x * PI_FLOAT)):
                q = Fraction(y).limit_denominator(3600)
                if q != 0 and abs(float(q) - y) <= 4e-16 * abs(y):
                    k, c = kk, q
                    break
            else:
                q = Fraction(x).limit_denominator(1000)
                if abs(float(q) - x) <= 2e-16 * abs(x):
                    c = q
        _fcache[x] = (k, c)
    if k == 0:
        return R_const(c)
    if k == 1:
        return R_pi().scale(c)
    return R_pi().inv().scale(c)


reset()
