"""Symbolic reals, path conditions, decisions (forks) and the two deciding back ends (normal form, z3)."""
import math
import time
import zlib
from fractions import Fraction
import numpy as np
import z3
from . import alg
from .alg import RF, Poly, R_const, R_atom, R_float, RF_ZERO, RF_ONE, AlgError

NEG, ZER, POS = 1, 2, 4
ALL = 7


class Unsupported(Exception):
    """the execution left the fragment the verifier models"""


class Infeasible(Exception):
    """the current path is infeasible"""


class PathLimit(Exception):
    pass


CUR = None  # the current Ctx


def cur():
    if CUR is None:
        raise Unsupported("symbolic value used outside of a symbolic run")
    return CUR


def set_cur(c):
    global CUR
    CUR = c


# ---------------------------------------------------------------------------------------------------------------------
# formulas
# ---------------------------------------------------------------------------------------------------------------------
TRUE = ("b", True)
FALSE = ("b", False)


def f_not(f):
    k = f[0]
    if k == "b":
        return FALSE if f[1] else TRUE
    if k == "s":
        return ("s", f[1], ALL & ~f[2])
    if k == "and":
        return ("or", tuple(f_not(x) for x in f[1]))
    if k == "or":
        return ("and", tuple(f_not(x) for x in f[1]))
    if k == "dim":
        return ("dim", f[1], f[2], not f[3])
    if k == "free":
        return ("free", f[1], not f[2])
    raise Unsupported("formula " + str(k))


def f_and(*fs):
    out = []
    for f in fs:
        if f == TRUE:
            continue
        if f == FALSE:
            return FALSE
        out.append(f)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return ("and", tuple(out))


def f_or(*fs):
    out = []
    for f in fs:
        if f == FALSE:
            continue
        if f == TRUE:
            return TRUE
        out.append(f)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return ("or", tuple(out))


def f_atoms(f, acc):
    if f[0] == "s":
        acc |= f[1].atoms()
    elif f[0] in ("and", "or"):
        for x in f[1]:
            f_atoms(x, acc)
    return acc


def f_repr(f):
    if f[0] == "s":
        op = {1: "<0", 2: "==0", 3: "<=0", 4: ">0", 5: "!=0", 6: ">=0", 0: " in {}", 7: " any"}[f[2]]
        return "(%r)%s" % (f[1], op)
    if f[0] in ("and", "or"):
        return "(" + (" %s " % f[0]).join(f_repr(x) for x in f[1]) + ")"
    return str(f)


def flip(mask):
    return (mask & ZER) | (POS if mask & NEG else 0) | (NEG if mask & POS else 0)


MULT = {}


def mask_mul(a, b):
    r = MULT.get((a, b))
    if r is None:
        r = 0
        for x in (NEG, ZER, POS):
            if not a & x:
                continue
            for y in (NEG, ZER, POS):
                if not b & y:
                    continue
                if x == ZER or y == ZER:
                    r |= ZER
                elif x == y:
                    r |= POS
                else:
                    r |= NEG
        MULT[(a, b)] = r
    return r


def mask_add(a, b):
    if a == ZER:
        return b
    if b == ZER:
        return a
    if (a | b) & NEG and (a | b) & POS:
        return ALL
    # one-signed
    if (a | b) & POS:
        return POS if (a == POS or b == POS) else (POS | ZER)
    return NEG if (a == NEG or b == NEG) else (NEG | ZER)


def mask_even(a):
    return (ZER if a & ZER else 0) | (POS if a & (NEG | POS) else 0)


# ---------------------------------------------------------------------------------------------------------------------
# the path context
# ---------------------------------------------------------------------------------------------------------------------
class Stats(object):
    def __init__(self):
        self.z3_time = 0.0
        self.z3_calls = 0
        self.z3_unknown = 0
        self.nf = 0
        self.forks = 0


class Ctx(object):
    def __init__(self, prefix=(), stats=None, seed=1, nsamples=12, fork_timeout=1500, goal_timeout=8000, deadline=None):
        self.prefix = list(prefix)
        self.trace = []  # (value, alternative_open)
        self.pos = 0
        self.pc = []
        self.facts = {}
        self.increasing = []  # functions known to increase: sign of the differences of their values
        self.samples = []
        self.nsamples = nsamples
        self.stats = stats or Stats()
        self.fork_timeout = fork_timeout
        self.goal_timeout = goal_timeout
        self.deadline = deadline
        self.inputs = {}  # name -> atom idx
        self.input_gen = {}
        self.fresh = 0
        self.dimfacts = {}
        self.rng = np.random.RandomState(seed)
        self.had_samples = False
        self.assumptions = set()
        self.free_choices = 0
        self.choice_memo = {}
        self.touched = set()

    # numeric evaluation --------------------------------------------------------------------------------------------
    def new_fresh(self, name):
        self.fresh += 1
        return "%s!%d" % (name, self.fresh)

    # signs -----------------------------------------------------------------------------------------------------------
    def sgn_atom(self, i):
        p = Poly({((i, 1),): 1})
        m = self.facts.get(p, ALL)
        a = alg.T.atoms[i]
        if a.pos:
            m &= POS
        if a.kind in ("sqrt", "abs", "exp"):
            m &= POS | ZER
            if a.kind == "exp":
                m &= POS
            elif a.kind == "sqrt" and m & ZER:
                r = self.sgn(a.args[0], depth=1)
                if not r & ZER:
                    m &= POS
        return m

    def sgn(self, p, depth=0):
        if p.is_zero():
            return ZER
        if p.is_const():
            return POS if p.const() > 0 else NEG
        lc = p.t[p.lm()]
        q = p.scale(Fraction(1) / lc) if lc != 1 else p
        m = self.facts.get(q, ALL)
        if lc < 0:
            m = flip(m)
        if m in (NEG, ZER, POS):
            return m
        # sum of monomials
        tot = ZER
        for mono, c in p.t.items():
            s = POS if c > 0 else NEG
            for i, e in mono:
                a = self.sgn_atom(i)
                if e % 2 == 0:
                    a = mask_even(a)
                s = mask_mul(s, a)
            tot = mask_add(tot, s)
            if tot == ALL:
                break
        m &= tot
        if m in (NEG, ZER, POS) or len(p.t) == 1 or depth > 1:
            return m
        mc = p.mono_content()
        if mc:
            s = self.sgn(p.div_mono(mc), depth + 1)
            for i, e in mc:
                a = self.sgn_atom(i)
                if e % 2 == 0:
                    a = mask_even(a)
                s = mask_mul(s, a)
            m &= s
        if m == ALL and len(p.t) <= 30 and depth == 0:
            r = p.sqrt()
            if r is None:
                r = (-p).sqrt()
                if r is not None:
                    m &= flip(mask_even(self.sgn(r, depth + 1)))
            else:
                m &= mask_even(self.sgn(r, depth + 1))
        if m & (m - 1) and depth == 0:
            for f in self.increasing:
                m &= f(p)
        return m

    def sgn_rf(self, r):
        s = self.sgn(r.num)
        for d, e in r.den.items():
            if e % 2:
                s = mask_mul(s, self.sgn(d) & ~ZER)
        return s

    # formula construction --------------------------------------------------------------------------------------------
    def square_roots(self, r, depth=0):
        """something of the same sign: a m1 - b m2 with non-negative monomials of roots is compared by its squares"""
        t = r.num.t
        if len(t) < 2 or depth > 3:
            return r
        if len(t) == 2:
            (m1, c1), (m2, c2) = t.items()
            if (c1 > 0) == (c2 > 0):
                return r
            odd = False
            for m in (m1, m2):
                for i, e in m:
                    if e % 2:
                        if alg.T.atoms[i].kind != "sqrt" and self.sgn_atom(i) & NEG:
                            return r
                        odd = odd or alg.T.atoms[i].kind == "sqrt"
            if not odd:
                return r
            a, b = RF(Poly({m1: c1})), RF(Poly({m2: c2}))
        else:
            # one root against a sum of known sign without roots
            roots = [m for m in t if any(e % 2 and alg.T.atoms[i].kind == "sqrt" for i, e in m)]
            if len(roots) != 1:
                return r
            m1 = roots[0]
            c1 = t[m1]
            if any(e % 2 and alg.T.atoms[i].kind != "sqrt" and self.sgn_atom(i) & NEG for i, e in m1):
                return r
            rest = Poly({m: c for m, c in t.items() if m != m1})
            sg = self.sgn(rest)
            if sg & (POS if c1 > 0 else NEG):
                return r
            a, b = RF(Poly({m1: c1})), RF(rest)
        n = a * a - b * b if c1 > 0 else b * b - a * a
        return self.square_roots(RF.make(n.num, dict(r.den)) if not n.den else r, depth + 1)

    def sign_formula(self, r, mask):
        """formula: sign(r) in mask"""
        if mask == 0:
            return FALSE
        if mask == ALL:
            return TRUE
        r = self.square_roots(r)
        c, fs = alg.factors(r.num)
        if c == 0:
            return TRUE if mask & ZER else FALSE
        fs = list(fs)
        eqonly = mask in (ZER, NEG | POS)
        if not eqonly:
            fs += [(d, e) for d, e in r.den.items()]
            nz = set(r.den)
        else:
            nz = set()
        s = POS if c > 0 else NEG
        rest = []
        for f, e in fs:
            m = self.sgn(f)
            if f in nz:
                m &= ~ZER
            if m == ZER:
                return TRUE if mask & ZER else FALSE
            if e % 2 == 0 or eqonly:
                if not m & ZER:
                    continue
                rest.append((f, 1 if eqonly else 2))
            else:
                if m in (POS, NEG):
                    s = mask_mul(s, m)
                    continue
                rest.append((f, 1))
        if eqonly:
            if not rest:
                return TRUE if mask == (NEG | POS) else FALSE
            if len(rest) == 1:
                return ("s", rest[0][0], mask)
            fl = [("s", f, ZER) for f, e in rest]
            g = f_or(*fl)
            return g if mask == ZER else f_not(g)
        if s == NEG:
            mask = flip(mask)
        if not rest:
            return TRUE if mask & POS else FALSE
        if len(rest) == 1 and rest[0][1] == 1:
            return ("s", rest[0][0], mask)
        p = alg.ONE
        for f, e in rest:
            p = p * (f if e == 1 else f * f)
        c = p.t[p.lm()] if not p.is_zero() else 1
        if p.is_zero():
            return TRUE if mask & ZER else FALSE
        if c != 1:
            p = p.scale(Fraction(1) / c)
            if c < 0:
                mask = flip(mask)
        return ("s", p, mask)

    def quick(self, f):
        k = f[0]
        if k == "b":
            return f[1]
        if k == "s":
            m = self.sgn(f[1])
            if not m & ~f[2] & ALL:
                return True
            if not m & f[2]:
                return False
            return None
        if k == "and":
            res = True
            for x in f[1]:
                q = self.quick(x)
                if q is False:
                    return False
                if q is None:
                    res = None
            return res
        if k == "or":
            res = False
            for x in f[1]:
                q = self.quick(x)
                if q is True:
                    return True
                if q is None:
                    res = None
            return res
        if k == "dim":
            return self.dim_quick(f)
        return None

    # dimensions --------------------------------------------------------------------------------------------------
    def dim_quick(self, f):
        # ("dim", dim, value, equal?)
        d, v, eq = f[1], f[2], f[3]
        known, excl = self.dimfacts.get(d, (None, frozenset()))
        if known is not None:
            return (known == v) == eq
        if v in excl or v < 1:
            return not eq
        return None

    # assertion of facts ------------------------------------------------------------------------------------------
    def add_fact(self, f, top=True):
        k = f[0]
        if k == "b":
            if not f[1]:
                raise Infeasible()
            return
        if top:
            self.pc.append(f)
        if k == "s":
            p = f[1]
            mask = f[2]
            lc = p.t[p.lm()]
            if lc != 1:
                p = p.scale(Fraction(1) / lc)
                if lc < 0:
                    mask = flip(mask)
            m = self.facts.get(p, ALL) & mask
            if m == 0:
                raise Infeasible()
            self.facts[p] = m
            if mask == ZER:
                self.on_zero(p)
        elif k == "and":
            for x in f[1]:
                self.add_fact(x, top=False)
        elif k == "dim":
            known, excl = self.dimfacts.get(f[1], (None, frozenset()))
            if f[3]:
                self.dimfacts[f[1]] = (f[2], excl)
            else:
                self.dimfacts[f[1]] = (known, excl | {f[2]})

    def on_zero(self, p):
        pass

    def assume(self, f):
        q = self.quick(f)
        if q is True:
            return
        if q is False:
            raise Infeasible()
        self.add_fact(f)
        self.filter_samples(f, True)

    # samples -----------------------------------------------------------------------------------------------------
    def filter_samples(self, f, value):
        if self.samples:
            out = []
            for s in self.samples:
                r = eval_formula(f, s)
                if r is value:
                    out.append(s)
            self.samples = out

    # decisions -----------------------------------------------------------------------------------------------------
    def decide(self, f):
        q = self.quick(f)
        if q is not None:
            return q
        if self.deadline is not None and time.time() > self.deadline:
            raise PathLimit("time budget")
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trace.append((v, False))
            self._take(f, v)
            return v
        st = sf = False
        if f[0] in ("free", "dim"):
            st = sf = True
        else:
            for s in self.samples:
                r = eval_formula(f, s)
                if r is True:
                    st = True
                elif r is False:
                    sf = True
                if st and sf:
                    break
        can_t = st or self.feasible(f)
        can_f = sf or self.feasible(f_not(f))
        if not can_t and not can_f:
            raise Infeasible()
        self.pos += 1
        if can_t and can_f:
            self.stats.forks += 1
            v = st or not sf
            self.trace.append((v, True))
        else:
            v = can_t
            self.trace.append((v, False))
        self._take(f, v)
        return v

    def _take(self, f, v):
        g = f if v else f_not(f)
        self.add_fact(g)
        if f[0] not in ("free", "dim"):
            self.filter_samples(f, v)

    def record(self, fn):
        """a verifier-internal yes/no question whose answer must be the same when the path is re-executed"""
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            v = bool(fn())
        self.pos += 1
        self.trace.append((v, False))
        return v

    def choice(self, tag="free"):
        """a nondeterministic boolean"""
        self.free_choices += 1
        return self.decide(("free", "%s%d" % (tag, self.free_choices), True))

    def choice_of(self, tag, *key):
        """a nondeterministic boolean that is a function of the key"""
        k = (tag,) + key
        if k not in self.choice_memo:
            self.choice_memo[k] = self.choice(tag)
        return self.choice_memo[k]

    def feasible(self, f):
        r, m = z3_check(self, self.pc + [f], self.fork_timeout)
        return r != "unsat"

    # goals -------------------------------------------------------------------------------------------------------
    def prove(self, f):
        """returns (status, backend, model): status in proved / refuted / unknown"""
        q = self.quick(f)
        if q is True:
            self.stats.nf += 1
            return "proved", "normal-form", None
        g = f_not(f)
        # numeric counterexample among the samples of this path
        for s in self.samples:
            if eval_formula(f, s) is False:
                return "refuted", "sample", dict(s)
        if q is False and not self.pc:
            return "refuted", "normal-form", {}
        # relevant subset first
        at = f_atoms(g, set())
        rel = [x for x in self.pc if f_atoms(x, set()) & at]
        if len(rel) < len(self.pc):
            r, m = z3_check(self, rel + [g], self.goal_timeout // 2)
            if r == "unsat":
                return "proved", "z3", None
        r, m = z3_check(self, self.pc + [g], self.goal_timeout)
        if r == "unsat":
            return "proved", "z3", None
        if r == "sat":
            return "refuted", "z3", m
        return "unknown", "z3", m

    def path_feasible(self):
        if self.samples:
            return "sample"
        r, m = z3_check(self, self.pc, self.goal_timeout)
        return {"sat": "z3", "unsat": None, "unknown": "unknown"}[r]


# ---------------------------------------------------------------------------------------------------------------------
# numeric evaluation of atoms at a sample (dict atom idx -> float)
# ---------------------------------------------------------------------------------------------------------------------
def eval_atom(i, s):
    v = s.get(i)
    if v is not None:
        return v
    a = alg.T.atoms[i]
    k = a.kind
    try:
        if k == "pi":
            v = math.pi
        elif k == "sin":
            v = math.sin(eval_rf(a.angle, s))
        elif k == "cos":
            v = math.cos(eval_rf(a.angle, s))
        elif k == "sqrt":
            x = eval_poly(a.args[0], s)
            v = math.sqrt(x) if x > 0 else 0.0
        elif k == "atan2":
            v = math.atan2(eval_rf(a.args[0], s), eval_rf(a.args[1], s))
        elif k == "atan":
            v = math.atan(eval_rf(a.args[0], s))
        elif k == "asin":
            v = math.asin(max(-1.0, min(1.0, eval_rf(a.args[0], s))))
        elif k == "acos":
            v = math.acos(max(-1.0, min(1.0, eval_rf(a.args[0], s))))
        elif k == "floor":
            v = float(math.floor(eval_rf(a.args[0], s)))
        elif k == "exp":
            v = math.exp(eval_rf(a.args[0], s))
        elif k == "log":
            x = eval_rf(a.args[0], s)
            v = math.log(x)
        elif k == "uf":
            # deterministic pseudo random function of its arguments
            vals = tuple(round(eval_rf(x, s), 9) for x in a.args)
            v = ((zlib.crc32(repr((a.name.split("(")[0],) + vals).encode()) % 2000003) / 1000001.5 - 1.0) * 2
        else:
            v = float("nan")
    except (OverflowError, ValueError):
        v = float("nan")
    s[i] = v
    return v


def eval_poly(p, s):
    tot = 0.0
    try:
        for m, c in p.t.items():
            x = float(c)
            for i, e in m:
                v = eval_atom(i, s)
                x *= v if e == 1 else v ** e
            tot += x
    except OverflowError:
        return float("nan")
    return tot


def eval_poly_scaled(p, s):
    tot = 0.0
    sc = 0.0
    try:
        for m, c in p.t.items():
            x = float(c)
            for i, e in m:
                v = eval_atom(i, s)
                x *= v if e == 1 else v ** e
            tot += x
            sc += abs(x)
    except OverflowError:
        return float("nan"), float("nan")
    return tot, sc


def eval_rf(r, s):
    n = eval_poly(r.num, s)
    for d, e in r.den.items():
        x = eval_poly(d, s)
        if x == 0:
            return float("nan")
        n /= x ** e
    return n


def eval_formula(f, s):
    k = f[0]
    if k == "b":
        return f[1]
    if k == "s":
        v, sc = eval_poly_scaled(f[1], s)
        if v != v:
            return None
        if abs(v) <= 1e-9 * sc or abs(v) < 1e-13:
            # near zero: undecided unless trivially so
            return None
        return bool(f[2] & (POS if v > 0 else NEG))
    if k == "and":
        res = True
        for x in f[1]:
            r = eval_formula(x, s)
            if r is False:
                return False
            if r is None:
                res = None
        return res
    if k == "or":
        res = False
        for x in f[1]:
            r = eval_formula(x, s)
            if r is True:
                return True
            if r is None:
                res = None
        return res
    return None


# ---------------------------------------------------------------------------------------------------------------------
# z3
# ---------------------------------------------------------------------------------------------------------------------
class Enc(object):
    def __init__(self):
        self.vars = {}
        self.axioms = []
        self.ints = False
        self.pcache = {}

    def q(self, c):
        c = Fraction(c)
        if c.denominator == 1:
            return z3.RealVal(c.numerator)
        return z3.RealVal("%d/%d" % (c.numerator, c.denominator))

    def var(self, i):
        v = self.vars.get(i)
        if v is not None:
            return v
        a = alg.T.atoms[i]
        if a.is_int:
            self.ints = True
            v = z3.ToReal(z3.Int("a%d" % i))
        else:
            v = z3.Real("a%d" % i)
        self.vars[i] = v
        self.axiom(a, v)
        return v

    def poly(self, p):
        r = self.pcache.get(p)
        if r is not None:
            return r
        terms = []
        for m, c in p.t.items():
            t = None
            if c != 1 or not m:
                t = self.q(c)
            for i, e in m:
                v = self.var(i)
                for _ in range(e):
                    t = v if t is None else t * v
            terms.append(t)
        if not terms:
            r = z3.RealVal(0)
        elif len(terms) == 1:
            r = terms[0]
        else:
            r = z3.Sum(terms)
        self.pcache[p] = r
        return r

    def rf(self, x):
        n = self.poly(x.num)
        if not x.den:
            return n
        # introduce a quotient variable
        key = ("q", x)
        v = self.vars.get(key)
        if v is None:
            v = z3.Real("q%d" % len(self.vars))
            self.vars[key] = v
            d = None
            for f, e in x.den.items():
                y = self.poly(f)
                self.axioms.append(y != 0)
                for _ in range(e):
                    d = y if d is None else d * y
            self.axioms.append(v * d == n)
        return v

    def axiom(self, a, v):
        k = a.kind
        ax = self.axioms
        if a.pos:
            ax.append(v > 0)
        if k == "pi":
            ax.append(z3.And(v > z3.RealVal("3.141592653589793"), v < z3.RealVal("3.141592653589794")))
        elif k in ("sin", "cos"):
            o = alg.T.lookup("cos" if k == "sin" else "sin", a.args[0])
            if k == "sin":
                if a.rel is not None and a.rel.atoms() == {o.idx}:
                    ov = self.var(o.idx)
                    ax.append(v * v + ov * ov == 1)
                else:
                    ov = self.var(o.idx)
                    ax.append(v * v == self.poly(a.rel))
                    ax.append(v * v + ov * ov == 1)
                # quadrants (only for angles made of plain atoms)
                if not a.angle.den and len(a.angle.num.t) <= 4:
                    t = self.rf(a.angle)
                    pi = self.var(alg.T.get("pi", "pi", "pi").idx)
                    ax.append(z3.Implies(z3.And(t > 0, t < pi), v > 0))
                    ax.append(z3.Implies(z3.And(t < 0, t > -pi), v < 0))
                    ax.append(z3.Implies(z3.And(t > -pi / 2, t < pi / 2), ov > 0))
                    ax.append(z3.Implies(z3.And(t > pi / 2, t < 3 * pi / 2), ov < 0))
                    ax.append(z3.Implies(z3.And(t < -pi / 2, t > -3 * pi / 2), ov < 0))
                    ax.append(z3.Implies(t == 0, ov == 1))
                    ax.append(z3.Implies(z3.Or(t == pi / 2, t == -pi / 2), ov == 0))
                    ax.append(z3.Implies(z3.Or(t == pi, t == -pi), ov == -1))
            else:
                self.var(o.idx)
        elif k == "sqrt":
            ax.append(v >= 0)
            ax.append(v * v == self.poly(a.args[0]))
        elif k == "atan2":
            pi = self.var(alg.T.get("pi", "pi", "pi").idx)
            y, x = self.rf(a.args[0]), self.rf(a.args[1])
            ax.append(z3.And(v > -pi, v <= pi))
            ax.append(z3.Implies(y > 0, z3.And(v > 0, v < pi)))
            ax.append(z3.Implies(y < 0, v < 0))
            ax.append(z3.Implies(z3.And(y == 0, x > 0), v == 0))
            ax.append(z3.Implies(z3.And(y == 0, x < 0), v == pi))
            ax.append(z3.Implies(x > 0, z3.And(v > -pi / 2, v < pi / 2)))
            ax.append(z3.Implies(x < 0, z3.Or(v < -pi / 2, v > pi / 2)))
            ax.append(z3.Implies(z3.And(x == 0, y > 0), v == pi / 2))
            ax.append(z3.Implies(z3.And(x == 0, y < 0), v == -pi / 2))
        elif k == "atan":
            pi = self.var(alg.T.get("pi", "pi", "pi").idx)
            q = self.rf(a.args[0])
            ax.append(z3.And(v > -pi / 2, v < pi / 2))
            ax.append(z3.Implies(q > 0, v > 0))
            ax.append(z3.Implies(q < 0, v < 0))
            ax.append(z3.Implies(q == 0, v == 0))
        elif k in ("asin", "acos"):
            pi = self.var(alg.T.get("pi", "pi", "pi").idx)
            q = self.rf(a.args[0])
            if k == "asin":
                ax.append(z3.And(v >= -pi / 2, v <= pi / 2))
                ax.append(z3.Implies(q > 0, v > 0))
                ax.append(z3.Implies(q < 0, v < 0))
                ax.append(z3.Implies(q == 0, v == 0))
                ax.append(z3.Implies(q == 1, v == pi / 2))
                ax.append(z3.Implies(q < 1, v < pi / 2))
            else:
                ax.append(z3.And(v >= 0, v <= pi))
        elif k == "floor":
            x = self.rf(a.args[0])
            ax.append(z3.And(v <= x, x < v + 1))
        elif k == "exp":
            x = self.rf(a.args[0])
            ax.append(v > 0)
            ax.append(z3.Implies(x >= 0, v >= 1 + x))
            ax.append(z3.Implies(x < 0, v < 1))

    def formula(self, f):
        k = f[0]
        if k == "b":
            return z3.BoolVal(f[1])
        if k == "s":
            e = self.poly(f[1])
            m = f[2]
            if m == 1:
                return e < 0
            if m == 2:
                return e == 0
            if m == 3:
                return e <= 0
            if m == 4:
                return e > 0
            if m == 5:
                return e != 0
            if m == 6:
                return e >= 0
            return z3.BoolVal(m == ALL)
        if k == "and":
            return z3.And(*[self.formula(x) for x in f[1]])
        if k == "or":
            return z3.Or(*[self.formula(x) for x in f[1]])
        if k in ("dim", "free"):
            return z3.BoolVal(True)
        raise Unsupported("formula")


def _num(v):
    try:
        if z3.is_int_value(v):
            return float(v.as_long())
        if z3.is_rational_value(v):
            return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        if z3.is_algebraic_value(v):
            v = v.approx(20)
            return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    except Exception:
        pass
    return None


def z3_check(ctx, fs, timeout):
    enc = Enc()
    try:
        exprs = [enc.formula(f) for f in fs if f[0] not in ("dim", "free")]
    except z3.Z3Exception:
        return "unknown", None
    t0 = time.time()
    if ctx.deadline is not None:
        left = ctx.deadline - t0
        if left < 0.05:
            raise PathLimit("time budget")
        timeout = int(min(timeout, left * 1000))
    s = z3.Solver() if enc.ints else z3.SolverFor("QF_NRA")
    s.set("timeout", timeout)
    for e in exprs:
        s.add(e)
    for e in enc.axioms:
        s.add(e)
    r = s.check()
    ctx.stats.z3_calls += 1
    ctx.stats.z3_time += time.time() - t0
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        m = s.model()
        vals = {}
        for i, v in enc.vars.items():
            if isinstance(i, tuple):
                continue
            x = _num(m.eval(v, model_completion=True))
            if x is not None:
                vals[i] = x
        return "sat", vals
    ctx.stats.z3_unknown += 1
    return "unknown", None


# ---------------------------------------------------------------------------------------------------------------------
# booleans
# ---------------------------------------------------------------------------------------------------------------------
class SymBool(object):
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        if self.f[0] == "b":
            return self.f[1]
        return cur().decide(self.f)

    def __and__(self, o):
        return mkbool(f_and(self.f, to_bool(o)))

    __rand__ = __and__

    def __mul__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return mkbool(f_and(self.f, to_bool(o)))
        return as_sym(1 if bool(self) else 0) * o

    __rmul__ = __mul__

    def __or__(self, o):
        return mkbool(f_or(self.f, to_bool(o)))

    __ror__ = __or__

    def __add__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return mkbool(f_or(self.f, to_bool(o)))
        return as_sym(1 if bool(self) else 0) + o

    __radd__ = __add__

    def __invert__(self):
        return mkbool(f_not(self.f))

    def logical_not(self):
        return mkbool(f_not(self.f))

    def __eq__(self, o):
        b = bool(self)
        return np.bool_(b == bool(o))

    def __ne__(self, o):
        return np.bool_(bool(self) != bool(o))

    def __xor__(self, o):
        return np.bool_(bool(self) != bool(o))

    def __hash__(self):
        return hash(self.f)

    def __index__(self):
        return 1 if bool(self) else 0

    def __int__(self):
        return 1 if bool(self) else 0

    @property
    def dtype(self):
        return np.dtype(bool)

    def __repr__(self):
        return "SymBool(%s)" % f_repr(self.f)


def mkbool(f):
    if f[0] == "b":
        return np.bool_(f[1])
    return SymBool(f)


def to_bool(o):
    if isinstance(o, SymBool):
        return o.f
    if isinstance(o, (bool, np.bool_)):
        return TRUE if o else FALSE
    if isinstance(o, Sym):
        return to_bool(o != 0)
    if isinstance(o, (int, float)):
        return TRUE if o else FALSE
    raise Unsupported("boolean operand %r" % type(o))


# ---------------------------------------------------------------------------------------------------------------------
# symbolic reals
# ---------------------------------------------------------------------------------------------------------------------
class Sym(object):
    """k: 'f' finite (v: RF), 'n' NaN, 'i' infinite (v: +1/-1)"""
    __slots__ = ("k", "v")
    __array_priority__ = 1000

    def __init__(self, k, v=None):
        self.k = k
        self.v = v

    # make isinstance(x, (float, np.floating, Number)) true
    @property
    def __class__(self):
        return np.float64

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.array_ufunc(self, ufunc, method, *inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.array_function(func, types, args, kwargs)

    # numpy scalar protocol
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        return np.dtype(float)

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def tolist(self):
        return self

    def astype(self, dt, copy=True):
        return cast(self, dt)

    def sum(self, *a, **k):
        return self

    def mean(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    def flatten(self):
        from . import arr
        return arr.wrap(np.array([self], dtype=object))

    ravel = flatten

    def reshape(self, *shape):
        from . import arr
        return arr.wrap(_obj0(self)).reshape(*shape)

    __iter__ = None

    def __getitem__(self, idx):
        from . import arr
        if idx == () or idx is Ellipsis:
            return self
        return arr.wrap(_obj0(self))[idx]

    def __hash__(self):
        return hash((self.k, self.v))

    def __repr__(self):
        if self.k == "n":
            return "nan"
        if self.k == "i":
            return "inf" if self.v > 0 else "-inf"
        return "<%r>" % (self.v,)

    __str__ = __repr__

    def __format__(self, spec):
        raise Unsupported("formatting a symbolic number")

    def __float__(self):
        if self.k == "n":
            return float("nan")
        if self.k == "i":
            return float("inf") * self.v
        if self.v.is_const():
            return float(self.v.const())
        raise Unsupported("float() of a symbolic number")

    def __int__(self):
        if self.k == "f" and self.v.is_const():
            return int(self.v.const())
        raise Unsupported("int() of a symbolic number")

    def __index__(self):
        if self.k == "f" and self.v.is_const() and Fraction(self.v.const()).denominator == 1:
            return int(self.v.const())
        raise Unsupported("index from a symbolic number")

    def __bool__(self):
        r = (self != 0)
        return bool(r)

    def __round__(self, n=0):
        raise Unsupported("round of a symbolic number")

    # arithmetic ------------------------------------------------------------------------------------------------------
    def __add__(self, o):
        o = as_sym_or_ni(o)
        if o is NotImplemented:
            return o
        if self.k == "f" and o.k == "f":
            return Sym("f", self.v + o.v)
        if self.k == "n" or o.k == "n":
            return NAN
        if self.k == "i" and o.k == "i":
            return self if self.v == o.v else NAN
        return self if self.k == "i" else o

    __radd__ = __add__

    def __neg__(self):
        if self.k == "f":
            return Sym("f", -self.v)
        if self.k == "n":
            return self
        return Sym("i", -self.v)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = as_sym_or_ni(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = as_sym_or_ni(o)
        if o is NotImplemented:
            return o
        return o + (-self)

    def __mul__(self, o):
        o = as_sym_or_ni(o)
        if o is NotImplemented:
            return o
        if self.k == "f" and o.k == "f":
            return Sym("f", self.v * o.v)
        if self.k == "n" or o.k == "n":
            return NAN
        if self.k == "i" and o.k == "i":
            return Sym("i", self.v * o.v)
        a, b = (self, o) if self.k == "i" else (o, self)
        # inf * finite
        c = cur()
        if c.decide(c.sign_formula(b.v, ZER)):
            return NAN
        s = 1 if c.decide(c.sign_formula(b.v, POS)) else -1
        return Sym("i", a.v * s)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = as_sym_or_ni(o)
        if o is NotImplemented:
            return o
        return div(self, o)

    def __rtruediv__(self, o):
        o = as_sym_or_ni(o)
        if o is NotImplemented:
            return o
        return div(o, self)

    def __floordiv__(self, o):
        return fn_floor(self / o)

    def __rfloordiv__(self, o):
        return fn_floor(as_sym(o) / self)

    def __mod__(self, o):
        o = as_sym_or_ni(o)
        if o is NotImplemented:
            return o
        if self.k != "f" or o.k != "f":
            return NAN
        q = fn_floor(self / o)
        return self - q * o

    def __rmod__(self, o):
        return as_sym(o) % self

    def __divmod__(self, o):
        q = fn_floor(self / o)
        return q, self - q * o

    def __pow__(self, n):
        if isinstance(n, Sym) and type(n) is Sym:
            if n.k == "f" and n.v.is_const():
                n = n.v.const()
            else:
                raise Unsupported("symbolic exponent")
        n = Fraction(repr(float(n))) if not isinstance(n, (int, Fraction)) else Fraction(n)
        if self.k == "n":
            return ONE_S if n == 0 else NAN
        if self.k == "i":
            if n == 0:
                return ONE_S
            if n < 0:
                return as_sym(0)
            if n.denominator == 1:
                return Sym("i", 1 if (self.v > 0 or n.numerator % 2 == 0) else -1)
            return self if self.v > 0 else NAN
        if n.denominator == 1:
            n = n.numerator
            if n < 0:
                return div(ONE_S, Sym("f", self.v.pow(-n)))
            return Sym("f", self.v.pow(n))
        if n.denominator == 2:
            r = fn_sqrt(self)
            m = n.numerator
            if m < 0:
                return div(ONE_S, r ** (-m))
            return r ** m
        raise Unsupported("power %s" % n)

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def __abs__(self):
        return fn_abs(self)

    # comparisons -----------------------------------------------------------------------------------------------------
    def _cmp(self, o, mask):
        o = as_sym_or_ni(o)
        if o is NotImplemented:
            return o
        if self.k == "n" or o.k == "n":
            return np.bool_(mask == (NEG | POS))
        if self.k == "f" and o.k == "f":
            c = cur()
            return mkbool(c.sign_formula(self.v - o.v, mask))
        a = self.v * 2 if self.k == "i" else 0
        b = o.v * 2 if o.k == "i" else 0
        s = POS if a > b else NEG if a < b else ZER
        return np.bool_(mask & s)

    def __lt__(self, o):
        return self._cmp(o, NEG)

    def __le__(self, o):
        return self._cmp(o, NEG | ZER)

    def __gt__(self, o):
        return self._cmp(o, POS)

    def __ge__(self, o):
        return self._cmp(o, POS | ZER)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, ZER)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, NEG | POS)


def _obj0(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


NAN = Sym("n")


def finite(rf):
    return Sym("f", rf)


ONE_S = Sym("f", RF_ONE)


def is_sym(x):
    return type(x) is Sym


def as_sym(x):
    if type(x) is Sym:
        return x
    if type(x) is SymBool:
        return as_sym(1 if bool(x) else 0)
    if isinstance(x, (bool, np.bool_)):
        return Sym("f", R_const(int(x)))
    if isinstance(x, (int, np.integer)):
        return Sym("f", R_const(int(x)))
    if isinstance(x, Fraction):
        return Sym("f", R_const(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x:
            return NAN
        if x in (float("inf"), float("-inf")):
            return Sym("i", 1 if x > 0 else -1)
        return Sym("f", R_float(x))
    if isinstance(x, np.ndarray) and x.shape == ():
        return as_sym(x[()])
    raise Unsupported("cannot interpret %r as a number" % (type(x),))


def as_sym_or_ni(x):
    if type(x) is Sym:
        return x
    if isinstance(x, (bool, int, float, np.number, np.bool_, Fraction, SymBool)):
        return as_sym(x)
    return NotImplemented


def cast(x, dt):
    if dt in (float, np.float64, "float", "float64", np.dtype(float), object, np.dtype(object)):
        return x
    if dt in (bool, np.bool_, np.dtype(bool)):
        return x != 0
    if dt in (np.float32, "float32", np.dtype("float32")):
        cur().assumptions.add("float32 rounding of results treated as exact")
        return x
    raise Unsupported("cast to %r" % (dt,))


def div(a, b):
    if a.k == "n" or b.k == "n":
        return NAN
    if b.k == "i":
        return NAN if a.k == "i" else as_sym(0)
    c = cur()
    if c.decide(c.sign_formula(b.v, ZER)):
        # the sign of the zero is not modelled: nondeterministic
        if a.k == "f" and c.decide(c.sign_formula(a.v, ZER)):
            return NAN
        return Sym("i", 1 if c.choice_of("dsign", a.v, b.v) else -1)
    if a.k == "i":
        s = 1 if c.decide(c.sign_formula(b.v, POS)) else -1
        return Sym("i", a.v * s)
    return Sym("f", a.v / b.v)


def sign_of(rf):
    """-1 / 0 / 1 by decision"""
    c = cur()
    m = c.sgn_rf(rf)
    if m == POS:
        return 1
    if m == NEG:
        return -1
    if m == ZER:
        return 0
    if c.decide(c.sign_formula(rf, POS | ZER)):
        # do not split off zero unless it is needed
        m = c.sgn_rf(rf)
        return 1
    return -1


def fn_abs(x):
    if x.k == "f":
        return x if sign_of(x.v) >= 0 else -x
    if x.k == "i":
        return Sym("i", 1)
    return x


def fn_sign(x):
    if x.k == "n":
        return x
    if x.k == "i":
        return as_sym(x.v)
    c = cur()
    if c.decide(c.sign_formula(x.v, ZER)):
        return as_sym(0)
    return as_sym(1 if c.decide(c.sign_formula(x.v, POS)) else -1)


def _squarefree_int(n):
    """n = s^2 * k"""
    s = 1
    k = n
    d = 2
    while d * d <= k and d < 2000:
        while k % (d * d) == 0:
            k //= d * d
            s *= d
        d += 1
    r = math.isqrt(k)
    if r * r == k:
        return s * r, 1
    return s, k


def sqrt_hint_candidates(q):
    return []


def fn_sqrt(x):
    if x.k == "n":
        return x
    if x.k == "i":
        return x if x.v > 0 else NAN
    c = cur()
    if x.v.is_zero():
        return x
    if not x.v.is_const():
        if not c.decide(c.sign_formula(x.v, POS | ZER)):
            return NAN
    elif x.v.const() < 0:
        return NAN
    return Sym("f", rf_sqrt(x.v))


def rf_sqrt(r):
    """sqrt of a rational function known to be >= 0"""
    c = cur()
    if r.is_zero():
        return RF_ZERO
    inner = r.num
    out = RF_ONE
    for d, e in r.den.items():
        k = (e + 1) // 2
        if e % 2:
            inner = inner * d
        f = RF(d)
        if k % 2 and sign_of(f) < 0:
            f = -f
        out = out / f.pow(k)
    if inner.is_zero():
        return RF_ZERO
    cont = inner.content()
    q = inner.scale(1 / cont)
    # rational content
    a, b = cont.numerator, cont.denominator
    s, k = _squarefree_int(a * b)
    out = out.scale(Fraction(s, b))
    # monomial content
    mc = q.mono_content()
    if mc:
        q = q.div_mono(mc)
        rest = []
        for i, e in mc:
            at = Poly({((i, 1),): 1})
            if e // 2:
                f = RF(at)
                if (e // 2) % 2 and sign_of(f) < 0:
                    f = -f
                out = out * f.pow(e // 2)
            if e % 2:
                rest.append((i, 1))
        if rest:
            q = q.mul_mono(tuple(rest))
    if q.is_const():
        q = q.scale(k)
        v = q.const()
        rs = alg.rational_sqrt(v)
        if rs is not None:
            return out.scale(rs)
        return out * sqrt_atom(q)
    if k == 1:
        for p in [q] + unreduce_candidates(q):
            w = p.sqrt()
            if w is not None:
                f = RF(w)
                if sign_of(f) < 0:
                    f = -f
                return out * f
    # factor out known squares supplied by earlier square roots, hints and common trig factors
    q = q.scale(k)
    for f, fs in c_square_factors(c, q):
        g = q.exact_div(f)
        if g is not None and not g.is_zero():
            return out * fs * rf_sqrt(RF(g))
    return out * sqrt_atom(q)


def unreduce_candidates(q):
    """rewrite 1-cos^2 type content: try cos^2 -> 1-sin^2 for each trig pair"""
    res = []
    at = q.atoms()
    for i in at:
        a = alg.T.atoms[i]
        if a.kind == "cos" and q.degree_in(i) >= 2:
            s = alg.T.lookup("sin", a.args[0])
            # substitute cos^2 = 1 - sin^2
            t = {}
            for m, cc in q.t.items():
                e = 0
                rest = []
                for j, ee in m:
                    if j == i:
                        e = ee
                    else:
                        rest.append((j, ee))
                base = Poly({tuple(rest): cc})
                if e % 2:
                    base = base.mul_mono(((i, 1),))
                p1 = base
                for _ in range(e // 2):
                    p1 = p1 - alg.plain_mul(p1, Poly({((s.idx, 2),): 1}))
                for mm, c2 in p1.t.items():
                    t[mm] = t.get(mm, 0) + c2
            res.append(Poly({m: alg.norm_c(v) for m, v in t.items() if v != 0}))
    return res


def c_square_factors(c, q):
    out = []
    for h in getattr(c, "sqrt_hints", []):
        out.append((alg_plain_square(h), RF(h) if sign_of(RF(h)) >= 0 else -RF(h)))
    at = q.atoms()
    for i in at:
        a = alg.T.atoms[i]
        if a.kind == "cos" and a.rel is None:
            # 1 - cos^2 = sin^2
            one_m = Poly({(): -1, ((i, 2),): 1})
            if q.degree_in(i) >= 2 and q.exact_div(one_m) is not None and len(q.t) > 1:
                s = alg.T.lookup("sin", a.args[0])
                f = RF(alg.P_atom(s))
                if sign_of(f) < 0:
                    f = -f
                out.append((-one_m, f))
    return out


def alg_plain_square(h):
    return alg.plain_mul(h, h)


def sqrt_atom(q):
    a = alg.T.get("sqrt", q, None, (q,))
    if a.rel is None:
        a.name = "sqrt#%d" % a.idx
        a.rel = q
    return R_atom(a)


# ---------------------------------------------------------------------------------------------------------------------
# trigonometry
# ---------------------------------------------------------------------------------------------------------------------
def split_angle(r):
    """list of (coef, key_mono, den) terms"""
    return [(c, m) for m, c in r.num.t.items()]


def trig_pair(angle_rf, key):
    """base atoms for an angle treated as irreducible: returns (sin RF, cos RF)"""
    s = alg.T.get("sin", key, None, (key,))
    c = alg.T.get("cos", key, None, (key,))
    if s.angle is None:
        s.angle = angle_rf
        c.angle = angle_rf
        nm = repr(angle_rf)
        if len(nm) > 60:
            nm = "angle#%d" % s.idx
        s.name = "sin(%s)" % nm
        c.name = "cos(%s)" % nm
        # half-angle?
        s.rel = Poly({(): 1, ((c.idx, 2),): -1})
    return s, c


def angle_unit(m):
    """rational unit in which multiples of the monomial are expanded"""
    pi = alg.T.get("pi", "pi", "pi").idx
    for i, e in m:
        if i == pi:
            return Fraction(1, 180)
    return Fraction(1)


def cheb(n, s, c):
    """sin(n a), cos(n a)"""
    neg = n < 0
    n = abs(n)
    sn, cn = RF_ZERO, RF_ONE
    for _ in range(n):
        sn, cn = sn * c + cn * s, cn * c - sn * s
    return (-sn if neg else sn), cn


EXACT = {}


def sincos(r):
    """(sin r, cos r) as rational functions"""
    c0 = cur()
    if r.is_zero():
        return RF_ZERO, RF_ONE
    T = alg.T
    pi = T.get("pi", "pi", "pi").idx
    terms = []
    half = False
    opaque = False
    rotations = Fraction(0)
    for m, c in r.num.t.items():
        c = Fraction(c)
        if not r.den:
            if m == ((pi, 1),):
                rotations += c  # c * pi
                continue
            # pi * integer atom
            if len(m) == 2 and m[1] == (pi, 1) or (len(m) == 2 and m[0] == (pi, 1)):
                o = m[0] if m[1][0] == pi else m[1]
                if T.atoms[o[0]].is_int and o[1] == 1 and c.denominator == 1 and c.numerator % 2 == 0:
                    continue
            if len(m) == 1 and m[0][1] == 1 and T.atoms[m[0][0]].kind in ("atan2", "asin", "acos", "atan"):
                if c.denominator == 1:
                    terms.append(("inv", int(c), m[0][0]))
                    continue
                if c.denominator == 2:
                    half = True
                else:
                    opaque = True
                continue
        u = angle_unit(m)
        k = c / u
        if k.denominator == 1 and abs(k.numerator) <= 12:
            terms.append(("mono", int(k), (m, u)))
        elif k.denominator == 2 and abs(k.numerator) <= 24:
            half = True
        else:
            # a coefficient of its own: irreducible base angle with coefficient sign
            terms.append(("own", 1 if c > 0 else -1, (m, abs(c))))
    rot4 = rotations * 2  # in quarter turns
    if rot4.denominator not in (1,):
        if rotations.denominator in (3, 4, 6):
            pass
        else:
            opaque = True
    if half or opaque:
        # whole argument is the base angle; canonical sign
        lead = r.num.t[r.num.lm()]
        neg = lead < 0
        rr = -r if neg else r
        key = ("whole", rr)
        new = T.lookup("sin", key) is None
        s, c = trig_pair(rr, key)
        if new and not opaque:
            # sin^2 = (1 - cos 2x)/2, cos^2 = (1 + cos 2x)/2 ; only for sums that expand
            s2, c2 = sincos(rr.scale(2))
            if not c2.den:
                s.rel = (alg.ONE - c2.num).scale(Fraction(1, 2))
                c.rel = (alg.ONE + c2.num).scale(Fraction(1, 2))
        S, C = R_atom(s), R_atom(c)
        return (-S if neg else S), C
    S, C = RF_ZERO, RF_ONE
    for t in terms:
        if t[0] == "inv":
            a = T.atoms[t[2]]
            s, c = inv_sincos(a)
            s, c = cheb(t[1], s, c)
        else:
            m, u = t[2]
            base = RF.make(Poly({m: alg.norm_c(u)}), dict(r.den))
            sa, ca = trig_pair(base, ("mono", base))
            s, c = cheb(t[1], R_atom(sa), R_atom(ca))
        S, C = S * c + C * s, C * c - S * s
    q = rotations % 2  # multiples of pi
    s, c = const_sincos(q)
    if q != 0:
        S, C = S * c + C * s, C * c - S * s
    return S, C


def const_sincos(q):
    """sin, cos of q*pi for q in [0,2)"""
    def sq(n):
        return sqrt_atom(alg.P_const(n))
    H = Fraction(1, 2)
    quarter = int(q // H)
    rem = q - quarter * H
    if rem == 0:
        s, c = RF_ZERO, RF_ONE
    elif rem == Fraction(1, 4):
        s = c = sq(2).scale(H)
    elif rem == Fraction(1, 6):
        s, c = R_const(H), sq(3).scale(H)
    elif rem == Fraction(1, 3):
        s, c = sq(3).scale(H), R_const(H)
    else:
        raise Unsupported("trigonometric constant")
    for _ in range(quarter):
        s, c = c, -s
    return s, c


def inv_sincos(a):
    if a.kind == "atan2":
        y, x = a.args[0], a.args[1]
        rho = rf_sqrt(x * x + y * y)
        return y / rho, x / rho
    if a.kind == "atan":
        q = a.args[0]
        rho = rf_sqrt(RF_ONE + q * q)
        return q / rho, RF_ONE / rho
    if a.kind == "asin":
        u = a.args[0]
        return u, rf_sqrt(RF_ONE - u * u)
    if a.kind == "acos":
        u = a.args[0]
        return rf_sqrt(RF_ONE - u * u), u
    raise Unsupported(a.kind)


def trig_arg(x):
    if x.k != "f":
        return None
    return x.v


def fn_sin(x):
    if x.k != "f":
        return NAN
    return Sym("f", sincos(x.v)[0])


def fn_cos(x):
    if x.k != "f":
        return NAN
    return Sym("f", sincos(x.v)[1])


def fn_tan(x):
    if x.k != "f":
        return NAN
    s, c = sincos(x.v)
    return div(Sym("f", s), Sym("f", c))


def in_range(r, lo, hi, lo_incl, hi_incl):
    """can it be shown that lo*pi <= r <= hi*pi (without forking)?"""
    c = cur()
    p = alg.R_pi()
    f1 = c.sign_formula(r - p.scale(lo), POS | (ZER if lo_incl else 0))
    f2 = c.sign_formula(r - p.scale(hi), NEG | (ZER if hi_incl else 0))
    for f in (f1, f2):
        q = c.quick(f)
        if q is False:
            return False
        if q is None:
            if not always(f):
                return False
    return True


def relevant(c, f):
    at = f_atoms(f, set())
    return [x for x in c.pc if f_atoms(x, set()) & at]


def always(f):
    """provable without forking"""
    c = cur()
    q = c.quick(f)
    if q is not None:
        return q

    def ask():
        for s in c.samples:
            if eval_formula(f, s) is False:
                return False
        rel = relevant(c, f)
        r, m = z3_check(c, rel + [f_not(f)], c.fork_timeout)
        if r == "unsat":
            return True
        if len(rel) == len(c.pc):
            return False
        r, m = z3_check(c, c.pc + [f_not(f)], c.fork_timeout)
        return r == "unsat"
    return c.record(ask)


def candidate_angles(rfs):
    seen = []
    T = alg.T
    done = set()
    for r in rfs:
        for i in sorted(r.atoms()):
            a = T.atoms[i]
            if a.kind in ("sin", "cos") and a.args[0] not in done:
                done.add(a.args[0])
                seen.append(a.angle)
    return seen


def combos(angles):
    half = alg.R_pi().scale(Fraction(1, 2))
    out = []
    for a in angles:
        out += [a, -a]
    for a in angles:
        out += [a.scale(2), -a.scale(2), half - a, half + a, a - half, -a - half]
    for i in range(len(angles)):
        for j in range(i + 1, len(angles)):
            d, e = angles[i] - angles[j], angles[i] + angles[j]
            out += [d, -d, e, -e]
    return out


def strip_common(y, x):
    """divide both by common factors of known sign"""
    c = cur()
    dens = set(y.den) & set(x.den)
    for d in dens:
        e = min(y.den.get(d, 0), x.den.get(d, 0))
        m = c.sgn(d)
        if m in (POS, NEG) or e % 2 == 0:
            f = RF(d.pow(e))
            y, x = y * f, x * f
            if m == NEG and e % 2:
                y, x = -y, -x
    for _ in range(3):
        if y.is_zero() or x.is_zero():
            break
        ca, fa = alg.factors(y.num)
        cb, fb = alg.factors(x.num)
        fb = dict(fb)
        hit = False
        for f, e in fa:
            k = min(e, fb.get(f, 0))
            if not k and len(f.t) > 1 and f not in fb:
                if x.num.exact_div(f) is not None:
                    k = 1
            if k:
                m = c.sgn(f) & ~ZER if True else 0
                m = c.sgn(f)
                if m in (POS, NEG) or (k % 2 == 0 and not m & ZER):
                    g = RF(f.pow(k))
                    y, x = y / g, x / g
                    if m == NEG and k % 2:
                        y, x = -y, -x
                    hit = True
        if not hit:
            break
    # common positive rational content
    if not y.is_zero() and not x.is_zero():
        k = x.num.content()
        y, x = y.scale(1 / k), x.scale(1 / k)
    elif not x.is_zero():
        x = x.scale(1 / x.num.content())
    elif not y.is_zero():
        y = y.scale(1 / y.num.content())
    return y, x


def fn_atan2(ys, xs):
    if ys.k == "n" or xs.k == "n":
        return NAN
    if ys.k == "i" or xs.k == "i":
        raise Unsupported("arctan2 of infinite values")
    y, x = ys.v, xs.v
    c = cur()
    y, x = strip_common(y, x)
    zf = f_and(c.sign_formula(y, ZER), c.sign_formula(x, ZER))
    if c.decide(zf):
        # the result depends on the signs of the zeros: 0, pi or -pi
        if c.choice_of("zsign0", ys.v, xs.v):
            return as_sym(0)
        return Sym("f", alg.R_pi() if c.choice_of("zsign", ys.v, xs.v) else -alg.R_pi())
    pi = alg.R_pi()
    if y.is_zero():
        if c.decide(c.sign_formula(x, POS)):
            return as_sym(0)
        return Sym("f", pi if c.choice_of("zsign", ys.v, xs.v) else -pi)
    if x.is_zero():
        return Sym("f", pi.scale(Fraction(1, 2) if c.decide(c.sign_formula(y, POS)) else Fraction(-1, 2)))
    # known angles
    base = candidate_angles([y, x])
    for al in (combos(base) if len(base) <= 4 else base):
        S, C = sincos(al)
        if (y * C - x * S).is_zero():
            rho = x * C + y * S
            if always(c.sign_formula(rho, POS)):
                pass
            elif always(c.sign_formula(rho, NEG)):
                al = al + pi
            else:
                continue
            for k in (0, -2, 2):
                b = al + pi.scale(k)
                if in_range(b, -1, 1, True, True):
                    return Sym("f", b)
    # an equal angle seen before
    for a in alg.T.atoms:
        if a.kind == "atan2":
            Y, X = a.args
            if Y == y and X == x:
                return Sym("f", R_atom(a))
    for a in list(alg.T.atoms):
        if a.kind == "atan2" and (a.args[0].atoms() | a.args[1].atoms()) & (y.atoms() | x.atoms()):
            Y, X = a.args
            try:
                if (y * X - x * Y).is_zero() and always(c.sign_formula(x * X + y * Y, POS)):
                    return Sym("f", R_atom(a))
                if (y * X + x * Y).is_zero() and always(c.sign_formula(x * X - y * Y, POS)):
                    return Sym("f", -R_atom(a))
            except AlgError:
                pass
    a = alg.T.get("atan2", (y, x), None, (y, x))
    a.name = "atan2#%d" % a.idx
    return Sym("f", R_atom(a))


def fn_atan(xs):
    if xs.k == "n":
        return NAN
    pi = alg.R_pi()
    if xs.k == "i":
        return Sym("f", pi.scale(Fraction(xs.v, 2)))
    q = xs.v
    if q.is_zero():
        return xs
    c = cur()
    for al in candidate_angles([q]):
        S, C = sincos(al)
        if (q * C - S).is_zero():
            for k in (0, -1, 1):
                b = al + pi.scale(k)
                if in_range(b, Fraction(-1, 2), Fraction(1, 2), False, False):
                    return Sym("f", b)
    lead = q.num.t[q.num.lm()]
    neg = lead < 0
    qq = -q if neg else q
    a = alg.T.get("atan", qq, None, (qq,))
    a.name = "atan#%d" % a.idx
    r = R_atom(a)
    return Sym("f", -r if neg else r)


def fn_asin(xs):
    if xs.k != "f":
        return NAN
    u = xs.v
    if u.is_zero():
        return xs
    c = cur()
    if len(u.num.t) == 1 and not u.is_const():
        domain = c.sign_formula(u * u - RF_ONE, NEG | ZER)  # a root: its radicand decides
    else:
        domain = f_and(c.sign_formula(u - RF_ONE, NEG | ZER), c.sign_formula(u + RF_ONE, POS | ZER))
    if not c.decide(domain):
        return NAN
    pi = alg.R_pi()
    if u.is_const() and abs(u.const()) == 1:
        return Sym("f", pi.scale(Fraction(u.const(), 2)))
    H = Fraction(1, 2)
    for al in candidate_angles([u]):
        S, C = sincos(al)
        if (u - S).is_zero():
            if in_range(al, -H, H, True, True):
                return Sym("f", al)
        if (u + S).is_zero():
            if in_range(al, -H, H, True, True):
                return Sym("f", -al)
        if (u - C).is_zero():
            b = pi.scale(H) - al
            if in_range(b, -H, H, True, True):
                return Sym("f", b)
    lead = u.num.t[u.num.lm()]
    neg = lead < 0
    uu = -u if neg else u
    a = alg.T.get("asin", uu, None, (uu,))
    a.name = "asin#%d" % a.idx
    r = R_atom(a)
    return Sym("f", -r if neg else r)


def fn_acos(xs):
    r = fn_asin(xs)
    if r.k != "f":
        return r
    return Sym("f", alg.R_pi().scale(Fraction(1, 2))) - r


def fn_floor(x):
    if x.k != "f":
        return x
    if x.v.is_const():
        return as_sym(math.floor(Fraction(x.v.const())))
    a = alg.T.get("floor", x.v, None, (x.v,))
    if not a.is_int:
        a.is_int = True
        a.name = "floor#%d" % a.idx
    return Sym("f", R_atom(a))


def fn_exp(x):
    if x.k == "n":
        return x
    if x.k == "i":
        return x if x.v > 0 else as_sym(0)
    if x.v.is_zero():
        return ONE_S
    a = alg.T.get("exp", x.v, None, (x.v,))
    a.name = "exp#%d" % a.idx
    return Sym("f", R_atom(a))


def fn_log(x):
    if x.k == "n":
        return x
    if x.k == "i":
        return x if x.v > 0 else NAN
    c = cur()
    if c.decide(c.sign_formula(x.v, ZER)):
        return Sym("i", -1)
    if c.decide(c.sign_formula(x.v, NEG)):
        return NAN
    if x.v == RF_ONE:
        return as_sym(0)
    a = alg.T.get("log", x.v, None, (x.v,))
    a.name = "log#%d" % a.idx
    return Sym("f", R_atom(a))


def fn_deg2rad(x):
    return x * Sym("f", alg.R_pi().scale(Fraction(1, 180)))


def fn_rad2deg(x):
    if x.k != "f":
        return x
    return Sym("f", (x.v / alg.R_pi()).scale(180))


def uf(name, *args):
    """uninterpreted function application (opaque callee / dependency)"""
    args = [as_sym(a) for a in args]
    if any(a.k != "f" for a in args):
        return NAN
    key = (name,) + tuple(a.v for a in args)
    a = alg.T.get("uf", key, None, tuple(x.v for x in args))
    a.name = "%s(#%d)" % (name, a.idx)
    return Sym("f", R_atom(a))


def on_axis(name, x):
    """the atoms of x vary along the named axis"""
    if x.k != "f":
        return
    c = cur()
    at = c.__dict__.setdefault("axis_atoms", {}).setdefault(name, set())
    at |= atom_support(x.v)


def atom_support(v, seen=None):
    """the variables a rational function (or polynomial) depends on"""
    out = set()
    seen = set() if seen is None else seen
    polys = [v] if isinstance(v, alg.Poly) else [v.num] + list(v.den)
    for p in polys:
        for m in p.t:
            for i, e in m:
                if i in seen:
                    continue
                seen.add(i)
                a = alg.T.atoms[i]
                sub = [x for x in tuple(a.args) + (a.angle, a.rel) if isinstance(x, (alg.Poly, alg.RF))]
                if sub:
                    for x in sub:
                        out |= atom_support(x, seen)
                elif a.kind != "pi":
                    out.add(i)
    return out


def axis_sum(names, e):
    """the sum of the generic summand e along axes of unspecified length, normalised by linearity (what does not vary along the axes is a
    factor of the sum)"""
    if e.k != "f":
        return e
    names = sorted(set(n.rstrip("~") for n in names))
    vary = set()
    for n in names:
        at = cur().__dict__.get("axis_atoms", {}).get(n)
        if not at:
            return uf("sum over " + "*".join(names), e)
        vary |= at
    T = alg.T
    memo = {}

    def varies(i):
        if i not in memo:
            memo[i] = bool(atom_support(alg.P_atom(T.atoms[i])) & vary)
        return memo[i]
    outer, inner = {}, {}
    for d, k in e.v.den.items():
        (inner if any(varies(i) for m in d.t for i, _ in m) else outer)[d] = k
    total = as_sym(0)
    for m, c in sorted(e.v.num.t.items(), key=lambda x: x[0]):
        keep, out = tuple(x for x in m if varies(x[0])), tuple(x for x in m if not varies(x[0]))
        summand = Sym("f", alg.RF.make(alg.Poly({keep: 1}), dict(inner)))
        over = list(names)
        # a sum inside of the sum: one sum over all axes
        sums = [(i, k) for i, k in keep if T.atoms[i].kind == "uf" and T.atoms[i].name.startswith("sum over ")]
        if len(sums) == 1 and sums[0][1] == 1:
            a = T.atoms[sums[0][0]]
            rest = tuple(x for x in keep if x[0] != a.idx)
            summand = Sym("f", alg.RF.make(alg.Poly({rest: 1}), dict(inner))) * Sym("f", a.args[0])
            over = sorted(over + a.name[len("sum over "):].split("(")[0].split("*"))
        total = total + Sym("f", alg.RF.make(alg.Poly({out: c}), dict(outer))) * uf("sum over " + "*".join(over), summand)
    return total


def fn_isnan(x):
    return np.bool_(x.k == "n")


def fn_isinf(x):
    return np.bool_(x.k == "i")


def fn_isfinite(x):
    return np.bool_(x.k == "f")


def fn_hypot(a, b):
    return fn_sqrt(a * a + b * b)


def fn_min(a, b):
    if a.k == "n" or b.k == "n":
        return NAN
    return a if bool(a <= b) else b


def fn_max(a, b):
    if a.k == "n" or b.k == "n":
        return NAN
    return a if bool(a >= b) else b
