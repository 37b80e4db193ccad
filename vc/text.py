"""strings that contain the decimal representations of symbolic numbers

A Text stands for all strings that arise from writing arbitrary digits into its numerals. It is represented by several variants, one for
each combination of lengths of the numerals; in every variant each character of a numeral knows which numeral it belongs to. String
operations act on all variants in the same way; a question (is a part contained, does a pattern match, where) must have the same answer in
all of them, and must not depend on the digits.

Contract of the % operator: "%d" writes the integer part, "%.kf" the nearest multiple of 10^-k (a tie may go either way). Contract of
regular expressions: a pattern in which no particular digit occurs matches independently of the values of the digits of a numeral; it is
run on one spelling of every combination of lengths. Other patterns are not supported."""
import math
import re
from fractions import Fraction
from . import sym as S, alg
from .sym import Sym, SymBool, Unsupported, as_sym

LIMIT = 400
FIELD = re.compile(r"%(?P<flags>[-+ 0#]*)(?P<width>\d+|\*)?(?:\.(?P<prec>\d+))?(?P<kind>[sdfig%r])")


class Tok(object):
    """a numeral: the absolute value of a rounded number, its format"""
    __slots__ = ("value", "fmt", "signed", "spellings")

    def __init__(self, value, fmt, signed, spellings):
        self.value, self.fmt, self.signed, self.spellings = value, fmt, signed, spellings


class Ch(object):
    """a character of a variant; tok: the numeral it belongs to, i of n"""
    __slots__ = ("c", "tok", "i", "n")

    def __init__(self, c, tok=None, i=0, n=0):
        self.c, self.tok, self.i, self.n = c, tok, i, n

    def same(self, o):
        return (self.tok is o.tok and self.i == o.i and self.n == o.n) if self.tok is not None or o.tok is not None else self.c == o.c


def lift(s):
    return [({}, [Ch(c) for c in s])]


class Text(str):
    def __new__(cls, variants, origin=None):
        r = str.__new__(cls, "\ue000text")
        r.variants = variants
        r.origin = origin  # the numeral, if the text is exactly one formatted number
        return r

    # ------------------------------------------------------------------------------------------------------ operations
    def map(self, f):
        return simplify([(d, f(cs)) for d, cs in self.variants])

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return concat([self, o])

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return concat([o, self])

    def __mul__(self, k):
        return concat([self] * k)

    def __mod__(self, o):
        raise Unsupported("format string with symbolic numbers")

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.map(lambda cs: cs[i])
        out = []
        for d, cs in self.variants:
            out.append((d, [cs[i]]))
        return simplify(out)

    def __len__(self):
        return agree([len(cs) for d, cs in self.variants], "length of a text")

    def __bool__(self):
        return agree([len(cs) > 0 for d, cs in self.variants], "length of a text")

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])

    def lstrip(self, chars=None):
        def f(cs):
            n = 0
            while n < len(cs) and cs[n].tok is None and (cs[n].c.isspace() if chars is None else cs[n].c in chars):
                n += 1
            if chars is not None and n < len(cs) and cs[n].tok is not None and any(x.isdigit() or x == "." for x in chars):
                raise Unsupported("stripping digits")
            return cs[n:]
        return self.map(f)

    def rstrip(self, chars=None):
        def f(cs):
            n = len(cs)
            while n and cs[n - 1].tok is None and (cs[n - 1].c.isspace() if chars is None else cs[n - 1].c in chars):
                n -= 1
            if chars is not None and n and cs[n - 1].tok is not None and any(x.isdigit() or x == "." for x in chars):
                raise Unsupported("stripping digits")
            return cs[:n]
        return self.map(f)

    def strip(self, chars=None):
        return strmethod(strmethod(self, "lstrip", chars), "rstrip", chars)

    def pad(self, n, c, left):
        sizes = n.sizes if isinstance(n, Lengths) else None
        out = []
        for k, (d, cs) in enumerate(self.variants):
            m = sizes(d) if sizes else n
            more = [Ch(c)] * max(0, m - len(cs))
            out.append((d, more + cs if left else cs + more))
        return simplify(out)

    def rjust(self, n, c=" "):
        return self.pad(n, c, True)

    def ljust(self, n, c=" "):
        return self.pad(n, c, False)

    def replace(self, a, b, count=-1):
        if isinstance(a, Text) or any(x.isdigit() or x == "." for x in a) or not a:
            raise Unsupported("replacing parts of a symbolic text")
        out = []
        for d, cs in self.variants:
            res, i, n = [], 0, count
            while i < len(cs):
                if n != 0 and len(cs) - i >= len(a) and all(cs[i + j].tok is None and cs[i + j].c == a[j] for j in range(len(a))):
                    for e, more in (b.variants if isinstance(b, Text) else lift(b))[:1]:
                        res += more
                    if isinstance(b, Text):
                        raise Unsupported("replacing by a symbolic text")
                    i += len(a)
                    n -= 1
                else:
                    res.append(cs[i])
                    i += 1
            out.append((d, res))
        return simplify(out)

    def __contains__(self, a):
        if isinstance(a, Text) or any(x.isdigit() or x == "." for x in a):
            raise Unsupported("searching digits in a symbolic text")
        return agree([a in plain(cs) for d, cs in self.variants], "contents of a text")

    def startswith(self, a, *r):
        return agree([any(plain(cs).startswith(x) for x in ((a,) if isinstance(a, str) else a)) for d, cs in self.nodigits(a)], "start of a text")

    def endswith(self, a, *r):
        return agree([any(plain(cs).endswith(x) for x in ((a,) if isinstance(a, str) else a)) for d, cs in self.nodigits(a)], "end of a text")

    def nodigits(self, a):
        for x in ((a,) if isinstance(a, str) else a):
            if isinstance(x, Text) or any(y.isdigit() or y == "." for y in x):
                raise Unsupported("searching digits in a symbolic text")
        return self.variants

    def find(self, a, *r):
        self.nodigits(a)
        return agree([plain(cs).find(a, *r) for d, cs in self.variants], "position in a text")

    index = find

    def split(self, sep=None, maxsplit=-1):
        if sep is not None:
            self.nodigits(sep)
        pieces = []
        for d, cs in self.variants:
            text = plain(cs)
            pos, i = [], 0
            for piece in text.split(sep, maxsplit):
                i = text.index(piece, i)
                pos.append(cs[i:i + len(piece)])
                i += len(piece)
            pieces.append((d, pos))
        n = agree([len(p) for d, p in pieces], "number of parts")
        return [simplify([(d, p[i]) for d, p in pieces]) for i in range(n)]

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        r = equal(self, o)
        return r if isinstance(r, bool) else r

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else r.logical_not()

    def __hash__(self):
        raise Unsupported("hash of a symbolic text")

    def __str__(self):
        return self

    def __repr__(self):
        return "Text(%r)" % plain(self.variants[0][1])

    def __format__(self, spec):
        raise Unsupported("formatting a symbolic text")

    def encode(self, *a):
        raise Unsupported("encoding a symbolic text")


def _unsupported(name):
    def f(self, *a, **k):
        raise Unsupported("str.%s of a symbolic text" % name)
    return f


for _n in dir(str):
    if not _n.startswith("_") and _n not in Text.__dict__:
        setattr(Text, _n, _unsupported(_n))
for _n in ("__lt__", "__le__", "__gt__", "__ge__", "__rmul__", "__rmod__"):
    setattr(Text, _n, _unsupported(_n))


class Lengths(object):
    """the length of a text, for every combination of numerals"""
    def __init__(self, variants):
        self.all = [(d, len(cs)) for d, cs in variants]

    def sizes(self, d):
        for e, n in self.all:
            if all(d.get(k, v) == v for k, v in e.items()) and any(k in d for k in e):
                return n
        raise Unsupported("length of a text")

    def __index__(self):
        return agree([n for e, n in self.all], "length of a text")

    __int__ = __index__

    def __eq__(self, o):
        return self.__index__() == o

    def __hash__(self):
        return 0

    def _cmp(op):
        def f(self, o):
            return agree([op(n, o) for e, n in self.all], "length of a text")
        return f
    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)
    __bool__ = lambda self: agree([n > 0 for e, n in self.all], "length of a text")


def length(t):
    n = [len(cs) for d, cs in t.variants]
    return n[0] if len(set(n)) == 1 else Lengths(t.variants)


def agree(values, what):
    if any(v != values[0] for v in values):
        raise Unsupported(what + " depends on the numbers")
    return values[0]


def plain(cs):
    return "".join(c.c for c in cs)


def simplify(variants):
    """a plain string if there is no numeral left"""
    if all(c.tok is None for d, cs in variants for c in cs):
        texts = [plain(cs) for d, cs in variants]
        if len(set(texts)) == 1:
            return texts[0]
    return Text(variants)


def strmethod(s, name, *a):
    return getattr(s, name)(*a)


def concat(parts):
    out = [({}, [])]
    for p in parts:
        vs = p.variants if isinstance(p, Text) else lift(p)
        new = []
        for d, cs in out:
            for e, more in vs:
                if any(k in d and d[k] != v for k, v in e.items()):
                    continue
                f = dict(d)
                f.update(e)
                new.append((f, cs + more))
        if len(new) > LIMIT:
            S.cur().assumptions.add("texts with more than %d combinations of numeral lengths: a selection of them" % LIMIT)
            # keep a selection in which every spelling of every numeral still occurs
            step = len(new) / float(LIMIT)
            keep = {int(i * step) for i in range(LIMIT)}
            seen = set()
            for i, (d, cs) in enumerate(new):
                if any(kv not in seen for kv in d.items()):
                    keep.add(i)
                    seen.update(d.items())
            new = [new[i] for i in sorted(keep)]
        out = new
    r = simplify(out)
    if len(parts) == 1 and isinstance(parts[0], Text) and isinstance(r, Text):
        r.origin = parts[0].origin
    return r


def number_value(cs):
    """(sign, numeral) of a text that is exactly one complete numeral"""
    i, sign = 0, 1
    while i < len(cs) and cs[i].tok is None and cs[i].c.isspace():
        i += 1
    j = len(cs)
    while j > i and cs[j - 1].tok is None and cs[j - 1].c.isspace():
        j -= 1
    if i < j and cs[i].tok is None and cs[i].c in "+-":
        sign = -1 if cs[i].c == "-" else 1
        i += 1
    body = cs[i:j]
    if not body or body[0].tok is None or any(c.tok is not body[0].tok for c in body):
        return None
    if [c.i for c in body] != list(range(body[0].n)):
        return None
    return sign, body[0].tok


def to_number(t, integer=False):
    got = [number_value(cs) for d, cs in t.variants]
    if any(g is None for g in got):
        if all(not any(ch.tok is not None for ch in cs) for d, cs in t.variants):
            return agree([float(plain(cs)) for d, cs in t.variants], "number")
        # not a number in every spelling: float raises
        bad = []
        for d, cs in t.variants:
            try:
                float(plain(cs))
                bad.append(False)
            except ValueError:
                bad.append(True)
        if all(bad):
            raise ValueError("could not convert string to float: %r" % plain(t.variants[0][1]))
        raise Unsupported("number made of several numerals")
    sign, tok = got[0]
    if any(g[0] != sign or g[1] is not tok for g in got):
        raise Unsupported("number depends on the spelling")
    return tok.value if sign > 0 else -tok.value


def equal(a, b):
    if not isinstance(b, Text):
        if a.origin is not None:
            tok, sign, fmt = a.origin
            try:
                v = float(b)
            except ValueError:
                return False
            if fmt % (int(v) if fmt[-1] == "d" else v) != b:
                return False
            if (plain(a.variants[0][1]).lstrip()[:1] == "-") != (b.lstrip()[:1] == "-"):
                return False
            return tok.value == as_sym(abs(Fraction(b.strip())))
        b = Text(lift(b))
    if isinstance(b, Text) and a.origin is not None and b.origin is not None and a.origin[2] == b.origin[2] and a.origin[1] == b.origin[1]:
        return a.origin[0].value == b.origin[0].value
    verdict = set()
    for d, x in a.variants:
        for e, y in b.variants:
            if any(k in e and e[k] != v for k, v in d.items()):
                continue
            if len(x) == len(y) and all(p.same(q) for p, q in zip(x, y)):
                verdict.add(True)
                continue
            # certainly different: a character outside of all numerals differs from what the other text can have there
            if len(x) != len(y):
                xs, ys = plain(x), plain(y)
                verdict.add(False if not (any(c.tok for c in x) and any(c.tok for c in y)) or re.sub(r"[\d.]+", "#", xs) != re.sub(r"[\d.]+", "#", ys) else None)
                continue
            differs = any(p.tok is None and q.tok is None and p.c != q.c or p.tok is None and q.tok is not None and not (p.c.isdigit() or p.c == ".")
                          or q.tok is None and p.tok is not None and not (q.c.isdigit() or q.c == ".") for p, q in zip(x, y))
            verdict.add(False if differs else None)
    if len(verdict) == 1 and None not in verdict:
        return verdict.pop()
    raise Unsupported("comparison of symbolic texts")


# ------------------------------------------------------------------------------------------------------------ formatting
def spell(n, prec, k):
    """some digits: n before, prec after the point; k selects them"""
    digits = "7%d4%d1853962" % (k % 9, (3 * k + 1) % 10)
    a = "".join(digits[i % len(digits)] for i in range(n))
    if n > 1 and a[0] == "0":
        a = "1" + a[1:]
    return a + ("." + "".join(digits[(i + 3 + k) % len(digits)] for i in range(prec)) if prec else "")


def rounded(x, kind, prec):
    """the number that is written: an integer part, or a nearest multiple of 10^-prec"""
    c = S.cur()
    if kind in "di":
        if bool(x >= 0):
            return S.fn_floor(x)
        return -S.fn_floor(-x)
    from . import load
    scaled = x * as_sym(10 ** prec)
    if load.is_integral(scaled):
        return x
    key = ("round", scaled.v)
    memo = c.__dict__.setdefault("rounding", {})
    if key not in memo:
        memo[key] = S.fn_floor(scaled + as_sym(Fraction(1, 2)))
    return memo[key] / as_sym(10 ** prec)


def format_number(x, spec):
    """spec: a %-format of one number"""
    m = FIELD.fullmatch(spec)
    flags, width, prec, kind = m.group("flags"), int(m.group("width") or 0), m.group("prec"), m.group("kind")
    if kind not in "dif" or flags.strip("0") or "-" in flags:
        raise Unsupported("format " + spec)
    if x.k != "f":
        raise Unsupported("format of an undefined number")
    prec = 0 if kind in "di" else 6 if prec is None else int(prec)
    S.cur().assumptions.add("the %% operator: %d writes the integer part, %.kf the nearest multiple of 10^-k (in the proof a tie is rounded up)")
    if kind == "f":
        negative = bool(x < 0)
        v = rounded(abs_of(x, negative), kind, prec)
    else:
        v = rounded(x, kind, prec)
        negative = bool(v < 0)
        v = abs_of(v, negative)
    return numeral(v, negative, spec)


def numeral(v, negative, spec):
    """the text in which the number v >= 0, which has the decimals of the format, is written"""
    m = FIELD.fullmatch(spec)
    flags, width, prec, kind = m.group("flags"), int(m.group("width") or 0), m.group("prec"), m.group("kind")
    prec = 0 if kind in "di" else 6 if prec is None else int(prec)
    memo = S.cur().__dict__.setdefault("numerals", {})
    key = (v.v, prec, kind)
    sizes = digits_of(v)
    if key not in memo:
        memo[key] = Tok(v, spec, negative, len(sizes))
    tok = memo[key]
    out = []
    for k, n in enumerate(sizes):
        digits = spell(n, prec, k)
        core = [Ch(ch, tok, i, len(digits)) for i, ch in enumerate(digits)]
        sign = [Ch("-")] if negative else [Ch("+")] if "+" in flags else []
        fill = max(0, width - len(core) - len(sign))
        if "0" in flags:
            core = sign + zeros(core, tok, fill)
        else:
            core = [Ch(" ")] * fill + sign + core
        out.append(({id(tok): k}, core))
    t = Text(out, (tok, negative, spec))
    S.cur().__dict__.setdefault("keep", []).append(tok)
    return t


def digits_of(v):
    """the possible numbers of digits before the point"""
    c = S.cur()
    for n in (1, 2, 3, 4):
        if c.record(lambda: c.prove(c.sign_formula((v - 10 ** n).v, S.NEG))[0] == "proved"):
            return tuple(range(1, n + 1))
    c.assumptions.add("numbers without a bound are written with 1, 2, 3, 4, 5 or 8 digits")
    return 1, 2, 3, 4, 5, 8


def zeros(core, tok, fill):
    """leading zeros belong to the numeral"""
    n = len(core) + fill
    return [Ch("0", tok, i, n) for i in range(fill)] + [Ch(c.c, tok, i + fill, n) for i, c in enumerate(core)]


def abs_of(x, negative):
    return -x if negative else x


def is_symbolic(x):
    return type(x) is Sym and not (x.k == "f" and x.v.is_const()) or isinstance(x, Text)


def to_plain(x):
    return float(x) if type(x) is Sym else x


def mod(a, b):
    """the operator %"""
    if not isinstance(a, str):
        return a % b
    args = b if isinstance(b, tuple) else (b,)
    if isinstance(a, Text):
        raise Unsupported("format string with symbolic numbers")
    if isinstance(b, dict) or not any(is_symbolic(x) for x in args):
        return a % (tuple(to_plain(x) for x in b) if isinstance(b, tuple) else to_plain(b))
    args = list(args)
    parts, pos = [], 0
    for m in FIELD.finditer(a):
        parts.append(a[pos:m.start()])
        if "%" in parts[-1]:
            raise Unsupported("format " + a)
        pos = m.end()
        spec = m.group()
        if m.group("kind") == "%":
            parts.append("%")
            continue
        if m.group("width") == "*":
            spec = spec.replace("*", str(int(args.pop(0))))
        if not args:
            raise TypeError("not enough arguments for format string")
        x = args.pop(0)
        if not is_symbolic(x):
            parts.append(spec % to_plain(x))
        elif isinstance(x, Text):
            if spec != "%s":
                raise Unsupported("format " + spec)
            parts.append(x)
        elif spec[-1] in "sr":
            parts.append(spec % (x,))
        else:
            parts.append(format_number(x, spec))
    if args:
        raise TypeError("not all arguments converted during string formatting")
    parts.append(a[pos:])
    parts = [p for p in parts if isinstance(p, Text) or p]
    return concat(parts)


def join(sep, items):
    if not isinstance(sep, str):
        return sep.join(items)
    items = list(items)
    if not isinstance(sep, Text) and not any(isinstance(x, Text) for x in items):
        return sep.join(items)
    parts = []
    for i, x in enumerate(items):
        if not isinstance(x, str):
            raise TypeError("sequence item %d: expected str instance, %s found" % (i, type(x).__name__))
        parts += ([sep] if i and sep else []) + [x]
    return concat(parts)


def str_format(s, *a, **k):
    if isinstance(s, str) and (isinstance(s, Text) or any(is_symbolic(x) for x in list(a) + list(k.values()))):
        raise Unsupported("str.format of symbolic numbers")
    return s.format(*a, **k)


def fvalue(x, conversion, spec):
    """a replacement field of a formatted string literal"""
    if not is_symbolic(x):
        x = to_plain(x)
        x = {-1: lambda y: y, 115: str, 114: repr, 97: ascii}[conversion](x)
        return format(x, spec)
    if isinstance(x, Text) and not spec and conversion in (-1, 115):
        return x
    if isinstance(x, Text) or not re.fullmatch(r"0?\d*(\.\d+)?f", spec):
        raise Unsupported("format " + spec)
    return format_number(x, "%" + spec)


def fjoin(parts):
    return concat([p for p in parts if isinstance(p, Text) or p]) if any(isinstance(p, Text) for p in parts) else "".join(parts)


def contains(a, b):
    """the operator in"""
    if isinstance(a, Text) and isinstance(b, str) and not isinstance(b, Text):
        if all(len(cs) == 1 for d, cs in a.variants):  # one character
            return any(bool(equal(a, c)) for c in b)
        if not b or any(c.isdigit() or c == "." for c in b):
            raise Unsupported("searching a symbolic text")
        return False if all(any(c.tok is not None for c in cs) for d, cs in a.variants) else agree([plain(cs) in b for d, cs in a.variants], "a part of a text")
    return a in b


def call(obj, name, *a, **k):
    """a method that str also has"""
    if isinstance(obj, str) and not isinstance(obj, Text) and any(isinstance(x, Text) for x in a):
        if name == "replace" and a[0] in obj:
            raise Unsupported("replacing by a symbolic text")
        if name != "replace":
            raise Unsupported("str.%s of a symbolic text" % name)
        return obj
    return getattr(obj, name)(*a, **k)


# -------------------------------------------------------------------------------------------------- regular expressions
class Match(object):
    def __init__(self, text, matches):
        self.text, self.matches = text, matches  # one real match per variant
        self.re, self.string = matches[0].re, text
        agree([m.lastindex is None for m in matches], "groups of a match")

    def group(self, *g):
        r = tuple(self.one(x) for x in (g or (0,)))
        return r[0] if len(r) == 1 else r

    def one(self, g):
        spans = [m.span(g) for m in self.matches]
        if agree([s[0] < 0 for s in spans], "groups of a match"):
            return None
        return simplify([(d, cs[a:b]) for (d, cs), (a, b) in zip(self.text.variants, spans)])

    __getitem__ = one

    def groups(self, default=None):
        r = [self.one(i + 1) for i in range(self.re.groups)]
        return tuple(default if x is None else x for x in r)

    def groupdict(self, default=None):
        r = {n: self.one(n) for n in self.re.groupindex}
        return {n: default if x is None else x for n, x in r.items()}

    def start(self, g=0):
        return agree([m.start(g) for m in self.matches], "position of a match")

    def end(self, g=0):
        return agree([m.end(g) for m in self.matches], "position of a match")

    def span(self, g=0):
        return self.start(g), self.end(g)


def digit_free(p):
    """does the pattern treat all digits alike? (then a match cannot depend on the values of digits)"""
    digits = range(ord("0"), ord("9") + 1)

    def ok(tree):
        for op, av in tree:
            op = str(op)
            if op in ("LITERAL", "NOT_LITERAL"):
                if av in digits:
                    return False
            elif op == "RANGE":
                n = sum(av[0] <= d <= av[1] for d in digits)
                if n not in (0, 10):
                    return False
            elif op == "IN":
                if not ok(av):
                    return False
            elif op in ("ANY", "AT", "CATEGORY", "NEGATE"):
                pass
            elif op == "SUBPATTERN":
                if not ok(av[3]):
                    return False
            elif op == "BRANCH":
                if not all(ok(x) for x in av[1]):
                    return False
            elif op in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
                if not ok(av[2]):
                    return False
            elif op in ("ASSERT", "ASSERT_NOT"):
                if not ok(av[1]):
                    return False
            elif op == "ATOMIC_GROUP":
                if not ok(av):
                    return False
            else:
                return False
        return True
    key = (p.pattern, p.flags)
    if key not in DIGIT_FREE:
        DIGIT_FREE[key] = ok(PARSER.parse(p.pattern, p.flags))
    return DIGIT_FREE[key]


DIGIT_FREE = {}
PARSER = getattr(re, "_parser", None) or __import__("sre_parse")


def run(how, pattern, flags, text):
    p = re.compile(pattern, flags) if not isinstance(pattern, re.Pattern) else pattern
    if not digit_free(p):
        raise Unsupported("regular expression with particular digits: " + p.pattern)
    ms = [getattr(p, how)(plain(cs)) for d, cs in text.variants]
    if agree([m is None for m in ms], "a match"):
        return None
    return Match(text, ms)


class Pattern(object):
    def __init__(self, p):
        self.p = p

    def __getattr__(self, n):
        f = getattr(self.p, n)
        if n in ("match", "fullmatch", "search"):
            def g(text, *a):
                if isinstance(text, Text):
                    if a:
                        raise Unsupported("regular expression from a position")
                    return run(n, self.p, 0, text)
                return f(text, *a)
            return g
        if callable(f):
            def g(*a, **k):
                if any(isinstance(x, Text) for x in a):
                    raise Unsupported("re.Pattern." + n)
                return f(*a, **k)
            return g
        return f


class ReModule(object):
    __name__ = "re"

    def __getattr__(self, n):
        f = getattr(re, n)
        if n in ("match", "fullmatch", "search"):
            def g(pattern, text, flags=0):
                if isinstance(pattern, Pattern):
                    pattern = pattern.p
                if isinstance(text, Text):
                    return run(n, pattern, flags, text)
                return f(pattern, text, flags)
            return g
        if n == "compile":
            return lambda pattern, flags=0: Pattern(re.compile(pattern, flags))
        if callable(f) and not isinstance(f, type):
            def g(*a, **k):
                if any(isinstance(x, Text) for x in a):
                    raise Unsupported("re." + n)
                return f(*[x.p if isinstance(x, Pattern) else x for x in a], **k)
            return g
        return f
