"""C12 GPS strings are formatted and parsed consistently."""
import re
from .common import contract

FORMATS = ["default", "%2d° %2d' %6.3f\" %s", "%d° %d' %.2f\" %s", "%d° %d' %.1f\" %s", "%d° %d' %.0f\" %s", "%d° %d' %.6f\" %s", "%d° %d' %d\" %s",
           "%2d° %2.3f' %s", "%d° %.0f' %s", "%d° %.5f' %s", "%d° %d' %s", "%.5f° %s", "%.1f° %s", "%.0f° %s", "%d° %s",
           "%2.3f°", "%.6f°", "%.0f°", "%d°", "%d° %.3f'", "%d° %d'", "%d° %d' %.3f\"", "%d° %d' %d\"", "%2d° %2d' %6.3f\""]


def number_fields(fmt):
    return [m for m in re.findall(r"%[.\d]*[sdf]", fmt) if m[-1] != "s"]


def precision(fmt):
    """(largest allowed deviation in degrees)"""
    n = number_fields(fmt)
    last = n[-1]
    unit = 60.0 ** (len(n) - 1)
    if last[-1] == "d":
        return 1 / unit
    digits = int(last[:-1].split(".")[1]) if "." in last else 6
    return 0.5 * 10.0 ** -digits / unit


def denoted(text, letters):
    """the value a coordinate string denotes, and its parts (independent of the code)"""
    assert re.match(r"^ *-? *\d+(\.\d+)?[^\d.NSWE-]*( *\d+(\.\d+)?[^\d.NSWE-]*){0,2}[NSWE]?$", text), text
    parts = [float(x) for x in re.findall(r"\d+(?:\.\d+)?", text)]
    sign = 1
    if letters:
        assert text[-1] in letters, text
        sign = -1 if text[-1] == letters[1] else 1
        assert "-" not in text, text
    elif "-" in text:
        sign = -1
    return sign * sum(p / 60.0 ** i for i, p in enumerate(parts)), parts, sign


def coordinate(h, tag, limit):
    """values everywhere, and next to the carries of minutes and seconds and next to zero"""
    d = h.real(tag + "d", lo=0, hi=limit - 1, integer=True, gen=(0, limit - 1), special=(0, 1, 9, limit - 1))
    kind = h.choose(tag + "kind", ["any", "carry", "tiny"])
    if kind == "any":
        v = d + h.real(tag + "f", lo=0, hi=1, gen=(0, 0.999999))
    elif kind == "carry":
        m = h.real(tag + "m", lo=0, hi=60, integer=True, gen=(0, 60), special=(59, 60, 0, 30))
        s = h.real(tag + "s", lo=0, hi=60, integer=True, gen=(0, 60), special=(59, 60, 0))
        e = h.real(tag + "e", gen=(-1, 1)) * 10.0 ** -h.real(tag + "k", integer=True, lo=0, hi=9, gen=(0, 9))
        v = d + m / 60 + (s + e) / 3600
    else:
        v = h.real(tag + "t", gen=(0, 1), special=(0, 0.5, 1)) * 10.0 ** -h.real(tag + "k", integer=True, lo=0, hi=6, gen=(0, 6))
    v = min(abs(v), limit - 1e-3 if limit == 90 else limit - 1e-3)
    return -v if h.choose(tag + "sign", [False, True]) else v


@contract("C12", "formatting", mode="float", trials=6000, float_s=20)
def formatting(h):
    """minutes and seconds below 60, the string denotes the value within the printed precision, and parsing returns what it denotes"""
    ct = h.ct
    fmt = h.choose("format", FORMATS)
    lat, lon = coordinate(h, "lat", 90), coordinate(h, "lon", 180)
    args = {} if fmt == "default" else {"format": fmt}
    lat, lon = [h.choose("type", [float, h.np.float64])(v) for v in (lat, lon)]
    texts = ct.formatGPS(lat, lon, **args)
    if fmt == "default":
        fmt = FORMATS[1]
    letter = "%s" in fmt
    limit = precision(fmt)
    want = []
    for text, v, letters in zip(texts, (lat, lon), ("NS", "EW")):
        value, parts, sign = denoted(text, letters if letter else None)
        h.check("number of parts", len(parts) == len(number_fields(fmt)))
        h.check("minutes and seconds below 60", all(p < 60 for p in parts[1:]))
        h.check("value within the printed precision", abs(value - v) <= limit * (1 + 1e-6) + 1e-11)
        if value != 0:
            h.check("sign", (sign < 0) == (v < 0))
        want.append(value)
    for sep in (" ", ", "):
        got = ct.gpsFromString(sep.join(texts))
        h.eq("parsing", got, want, tol=1e-11, scale=1)
    h.eq("parsing, list", ct.gpsFromString(list(texts)), want, tol=1e-11, scale=1)
    for text, v in zip(texts, want):
        h.eq("parsing, single", ct.gpsFromString(text), v, tol=1e-11, scale=1)
    lat2, lon2 = ct.formatGPS(lat, lon, asLatex=True, **args)
    h.check("latex", [x.replace("\\ensuremath{^\\circ}", "°").replace("$^\\circ$", "°") for x in (lat2, lon2)] == list(texts))


MINUTE = ["'", "′", "´", "’"]
SECOND = ["\"", "''", "´´", "″"]


def write(h, tag, notation, limit):
    """a coordinate in one of the supported notations, and its value"""
    d = int(h.real(tag + "d", lo=0, hi=limit - 1, integer=True, gen=(0, limit - 1), special=(0,)))
    sign = h.choose(tag + "sign", ["none", "minus", "plus", "letter+", "letter-"])
    width = h.choose(tag + "width", [1, 2, 3])
    space = h.choose(tag + "space", ["", " "])
    letters = "NS" if limit == 90 else "EW"
    deg = "%0*d" % (width, d)
    v = float(d)
    if notation == "D":
        f = int(h.real(tag + "f", lo=0, hi=999999, integer=True, gen=(0, 999999), special=(0,)))
        text = deg + (".%06d" % f if h.choose(tag + "decimals", [True, False]) else "")
        v = float(text)
        text += "°"
    else:
        m = int(h.real(tag + "m", lo=0, hi=59, integer=True, gen=(0, 59), special=(0, 59)))
        mark = h.choose("minute mark", MINUTE)
        text = deg + "°" + space
        if notation == "DM":
            f = int(h.real(tag + "f", lo=0, hi=9999, integer=True, gen=(0, 9999), special=(0,)))
            t = ("%02d" if width > 1 else "%d") % m + (".%04d" % f if h.choose(tag + "decimals", [True, False]) else "")
            v += float(t) / 60
            text += t + mark
        else:
            s = int(h.real(tag + "s", lo=0, hi=59, integer=True, gen=(0, 59), special=(0, 59)))
            f = int(h.real(tag + "f", lo=0, hi=9999, integer=True, gen=(0, 9999), special=(0,)))
            t = ("%02d" if width > 1 else "%d") % s + (".%04d" % f if h.choose(tag + "decimals", [True, False]) else "")
            v += m / 60.0 + float(t) / 3600
            text += ("%02d" if width > 1 else "%d") % m + mark + space + t + h.choose("second mark", SECOND)
    if sign == "minus":
        return "-" + text, -v
    if sign == "plus":
        return "+" + text, v
    if sign.startswith("letter"):
        return text + space + letters[sign == "letter-"], -v if sign == "letter-" else v
    return text, v


@contract("C12", "parsing", mode="float", trials=6000, float_s=20)
def parsing(h):
    """every notation, sign and mark: the decimal value it denotes; pairs, single coordinates, lists, heights"""
    ct = h.ct
    notation = h.choose("notation", ["D", "DM", "DMS"])
    a, va = write(h, "lat", notation, 90)
    b, vb = write(h, "lon", notation, 180)
    sep = h.choose("separator", [" ", ", ", ",", "  "])
    lead = h.choose("leading space", ["", " "])
    text = lead + a + sep + b
    eq = lambda label, got, want: h.eq(label, got, want, tol=1e-11, scale=1)
    eq("pair", ct.gpsFromString(text), [va, vb])
    eq("latitude", ct.gpsFromString(a), va)
    eq("longitude", ct.gpsFromString(lead + b), vb)
    z = h.real("z", gen=(-100, 9000), special=(0,))
    eq("height", ct.gpsFromString(text, z), [va, vb, z])
    eq("height", ct.gpsFromString(text, height=z), [va, vb, z])
    eq("tuple with height", ct.gpsFromString((text, z)), [va, vb, z])
    eq("two strings", ct.gpsFromString([a, b]), [va, vb])
    eq("two strings and height", ct.gpsFromString([a, b], z), [va, vb, z])
    eq("list", ct.gpsFromString([text, text, a + sep + b]), [[va, vb]] * 3)
    eq("list with heights", ct.gpsFromString([(text, z), (text, z + 1)]), [[va, vb, z], [va, vb, z + 1]])
    eq("number", ct.gpsFromString(z), z)


SIGNS = ["none", "minus", "plus", "letter+", "letter-"]


def write2(h, tag, notation, limit, sign, mark, space, width, decimals):
    """a coordinate in one of the supported notations, and its value; the digits are arbitrary"""
    letters = "NS" if limit == 90 else "EW"
    d, v = h.numeral(tag + "d", "%0" + str(width) + "d", 0, limit) if notation != "D" or not decimals else \
        h.numeral(tag + "d", "%0" + str(width) + ".6f", 0, limit)
    parts = [d, "°"]
    if notation != "D":
        m, vm = h.numeral(tag + "m", "%.4f" if notation == "DM" and decimals else "%d", 0, 60, hi_strict=True)
        parts += [space, m, MINUTE[mark]]
        v = v + vm / 60
    if notation == "DMS":
        s, vs = h.numeral(tag + "s", "%.4f" if decimals else "%d", 0, 60, hi_strict=True)
        parts += [space, s, SECOND[mark]]
        v = v + vs / 3600
    if sign in ("minus", "letter-"):
        v = -v
    parts = ({"minus": ["-"], "plus": ["+"]}.get(sign, []) + parts + {"letter+": [space, letters[0]], "letter-": [space, letters[1]]}.get(sign, []))
    return h.concat(*parts), v


def parse_notation(notation):
    @contract("C12", "parsing " + notation, budget=200, trials=2000)
    def parse(h):
        """any digits: the decimal value the string denotes; pairs, single coordinates, lists, heights"""
        ct = h.ct
        mark, space = h.choose("marks", [0, 1, 2, 3] if notation == "DMS" else [0, 1, 2, 3] if notation == "DM" else [0]), h.choose("space", ["", " "])
        decimals = h.choose("decimals", [True, False])
        sa, sb = h.choose("signs", [(s, t) for s in SIGNS for t in SIGNS if s == t or "none" in (s, t) or "minus" in (s, t)])
        a, va = write2(h, "lat", notation, 90, sa, mark, space, 1, decimals)
        b, vb = write2(h, "lon", notation, 180, sb, mark, space, 3, decimals)
        z = h.real("z", gen=(-100, 9000), special=(0,))
        eq = lambda label, got, want: h.eq(label, got, want, tol=1e-11, scale=1)
        for name, sep in (("space", " "), ("comma", ","), ("comma and space", ", "), ("spaces", "  ")):
            eq("pair, " + name, ct.gpsFromString(h.concat(a, sep, b)), [va, vb])
        text = h.concat(" ", a, ", ", b)
        eq("latitude", ct.gpsFromString(a), va)
        eq("longitude", ct.gpsFromString(h.concat(" ", b)), vb)
        eq("height", ct.gpsFromString(text, z), [va, vb, z])
        eq("tuple with height", ct.gpsFromString((text, z)), [va, vb, z])
        eq("two strings", ct.gpsFromString([a, b]), [va, vb])
        eq("two strings and height", ct.gpsFromString([a, b], z), [va, vb, z])
        eq("list", ct.gpsFromString([text, text, text]), [[va, vb]] * 3)
        eq("list with heights", ct.gpsFromString([(text, z), (text, z + 1)]), [[va, vb, z], [va, vb, z + 1]])


for _n in ("D", "DM", "DMS"):
    parse_notation(_n)


NUM = r"\d+(?:\.\d+)?"
MARKS = r"[^\d.NSWE-]*"


def read(h, text, letters, n):
    """the value a coordinate string of n numbers denotes, its parts and its sign (independent of the code)"""
    m = h.re.fullmatch(" *(-?) *" + MARKS.join(" *(%s)" % NUM for i in range(n)) + MARKS + ("([%s])" % letters if letters else ""), text)
    h.check("format of the string", m is not None)
    g = m.groups()
    if letters:
        h.check("no sign next to a letter", not g[0])
    sign = -1 if g[0] == "-" or letters and g[-1] == letters[1] else 1
    parts = [h.number(x) for x in g[1:1 + n]]
    return sum(x / 60 ** i for i, x in enumerate(parts)), parts, sign


def format_contract(fmt):
    @contract("C12", "format " + fmt, budget=150, trials=300, float_s=3)
    def formatted(h):
        """minutes and seconds below 60, the string denotes the value within the printed precision, and parsing returns what it denotes"""
        ct = h.ct
        special = lambda limit: (0, -0.5, 0.5, limit - 1e-9, -1e-9, 1 - 1e-9, 1 / 60 - 1e-12)
        lat = h.real("lat", lo=-90, hi=90, lo_strict=True, hi_strict=True, special=special(90))
        lon = h.real("lon", lo=-180, hi=180, lo_strict=True, hi_strict=True, special=special(180))
        args = {} if fmt == "default" else {"format": fmt}
        texts = ct.formatGPS(lat, lon, **args)
        f = FORMATS[1] if fmt == "default" else fmt
        h.check("two strings", len(texts) == 2)
        n = len(number_fields(f))
        want = []
        for text, x, letters in zip(texts, (lat, lon), ("NS", "EW")):
            if "%s" not in f:
                letters = ""
            v, parts, sign = read(h, text, letters, n)
            for p in parts[1:]:
                h.check("minutes and seconds below 60", p < 60)
            h.check("value within the printed precision", abs(sign * v - x) <= precision(f) * (1 + 1e-6) + 1e-11)
            if sign < 0:
                h.check("sign", x <= 0)
            else:
                h.check("sign", (x >= 0) | (v <= 1e-9))
            want.append(sign * v)
        eq = lambda label, got, want: h.eq(label, got, want, tol=1e-11, scale=1)
        eq("parsing", ct.gpsFromString(h.concat(texts[0], ", ", texts[1])), want)
        eq("parsing, list", ct.gpsFromString(list(texts)), want)
        for text, w in zip(texts, want):
            eq("parsing, single", ct.gpsFromString(text), w)
        for text, latex in zip(texts, ct.formatGPS(lat, lon, asLatex=True, **args)):
            h.check("latex", latex.replace("\\ensuremath{^\\circ}", "°").replace("$^\\circ$", "°") == text)


for _f in FORMATS:
    format_contract(_f)
