"""C22 Parameter values, defaults and fit states follow their contract."""
from .common import contract, PROJECTIONS

ORI = {"SpatialOrientation": ["elevation_m", "tilt_deg", "roll_deg", "heading_deg", "pos_x_m", "pos_y_m"],
       "SpatialOrientationYawPitchRoll": ["elevation_m", "yaw_deg", "pitch_deg", "roll_deg", "pos_x_m", "pos_y_m"]}
LENS = {"NoDistortion": [], "BrownLensDistortion": ["k1", "k2", "k3"], "ABCDistortion": ["a", "b", "c"]}
PROJ = ["focallength_x_px", "focallength_y_px", "center_x_px", "center_y_px", "image_width_px", "image_height_px",
        "sensor_width_mm", "sensor_height_mm"]
GPS = ["gps_lat", "gps_lon"]


def value(h, name, tag=""):
    if name in LENS["BrownLensDistortion"] + LENS["ABCDistortion"]:
        h.ideal_inverse()
        return h.real(name + tag, lo=0.01, hi=0.02, gen=(0.01, 0.02))
    return h.real(name + tag, lo=-300, hi=300, gen=(-300, 300), special=(0, 1))


def objects(h):
    """(object, its parameters, the handles through which they can be accessed)"""
    ct = h.ct
    what = h.choose("object", ["orientation", "ypr", "projection", "brown", "abc", "camera"])
    if what == "orientation":
        o = ct.SpatialOrientation()
        return o, ORI["SpatialOrientation"], [o, o.parameters], {}
    if what == "ypr":
        o = ct.SpatialOrientationYawPitchRoll()
        return o, ORI["SpatialOrientationYawPitchRoll"], [o, o.parameters], {}
    if what == "projection":
        o = getattr(ct, h.choose("projection", PROJECTIONS))(focallength_px=1000, image=(200, 100))
        return o, PROJ, [o, o.parameters], {}
    if what in ("brown", "abc"):
        o = ct.BrownLensDistortion() if what == "brown" else ct.ABCDistortion()
        return o, LENS[type(o).__name__], [o, o.parameters], {}
    p = ct.RectilinearProjection(focallength_px=1000, image=(200, 100))
    o = ct.SpatialOrientation()
    lens = ct.BrownLensDistortion()
    c = ct.Camera(p, o, lens)
    return c, PROJ + ORI["SpatialOrientation"] + LENS["BrownLensDistortion"] + GPS, [c, c.parameters], {"p": p, "o": o, "l": lens}


def state(h, o, names):
    return {n: (getattr(o, n), getattr(o.defaults, n)) for n in names}


@contract("C22", "value-and-default", trials=400)
def value_default(h):
    """a parameter reads as its value, or its default while unset; other parameters and defaults are untouched"""
    o, names, handles, sub = objects(h)
    n = h.choose("parameter", names)
    k = h.choose("handle", [0, 1])
    hd = handles[k]
    set_before = h.choose("set before", [False, True])
    if set_before:
        setattr(o, n, value(h, n, ".before"))
    before = state(h, o, names)
    step = h.choose("step", ["set", "unset", "default", "default-set", "set-default"])
    v, d = value(h, n), value(h, n, ".default")
    if step == "set":
        setattr(hd, n, v)
        want, wantd = v, before[n][1]
    elif step == "unset":
        setattr(hd.defaults, n, d)
        setattr(hd, n, v)
        setattr(hd, n, None)
        want, wantd = d, d
    elif step == "default":
        setattr(hd, n, None)
        setattr(hd.defaults, n, d)
        want, wantd = d, d
    elif step == "default-set":
        setattr(hd.defaults, n, d)
        setattr(hd, n, v)
        want, wantd = v, d
    else:
        setattr(hd, n, v)
        setattr(hd.defaults, n, d)
        want, wantd = v, d
    for i, x in enumerate(handles):
        h.eq("value", getattr(x, n), want)
        h.eq("default", getattr(x.defaults, n), wantd)
    after = state(h, o, names)
    for m in names:
        if m != n:
            h.eq("other value", after[m][0], before[m][0])
            h.eq("other default", after[m][1], before[m][1])


class Draws(object):
    """numpy.random: one arbitrary standard normal number z per draw"""
    def __init__(self, h):
        self.z = []
        if h.sym:
            h.c.random_hook = self.hook
            self.h = h

    def one(self):
        z = self.h.real("z%d" % len(self.z), lo=-8, hi=8, gen=(-3, 3))
        self.z.append(z)
        return z

    def hook(self, n):
        if n == "normal":
            return lambda loc=0.0, scale=1.0, size=None: loc + scale * self.one()
        if n in ("randn", "standard_normal"):
            return lambda *a: self.one()
        return None


@contract("C22", "mean-and-spread", trials=60)
def mean_std(h):
    """a pair sets mean and spread; resampling draws from that normal distribution, resetting returns the mean"""
    o, names, handles, sub = objects(h)
    n = h.choose("parameter", names)
    hd = handles[h.choose("handle", [0, 1])]
    m = h.real("mean", lo=-300, hi=300, gen=(-300, 300)) if n not in LENS["BrownLensDistortion"] + LENS["ABCDistortion"] else value(h, n)
    s = h.real("std", lo=0, hi=1e-3, lo_strict=True, gen=(1e-5, 1e-3))
    second = h.choose("second", [False, True])
    before = state(h, o, names)
    n2 = names[(names.index(n) + 1) % len(names)] if second else None
    setattr(hd, n, (m, s))
    if second:
        m2, s2 = value(h, n2, ".2"), h.real("std2", lo=0, hi=1e-3, lo_strict=True, gen=(1e-5, 1e-3))
        setattr(o, n2, (m2, s2))
    h.eq("value is the mean", getattr(o, n), m)
    draws = Draws(h)
    if h.sym:
        o.sample()
        k = 0
        z = draws.z
        h.check("one draw per parameter", len(z) == (2 if second else 1))
        lo = getattr(o, n)
        if not second:
            h.eq("drawn", lo, m + s * z[0])
        else:
            a, b = getattr(o, n), getattr(o, n2)
            # each of the two draws is used for one of the parameters
            h.check("drawn", ((a == m + s * z[0]) & (b == m2 + s2 * z[1])) | ((a == m + s * z[1]) & (b == m2 + s2 * z[0])))
    else:
        import numpy
        N = 400
        xs, ys = [], []
        for i in range(N):
            o.sample()
            xs.append(getattr(o, n))
            if second:
                ys.append(getattr(o, n2))
        xs = (numpy.array(xs, dtype=float) - m) / s
        for q in [xs] + ([(numpy.array(ys, dtype=float) - m2) / s2] if second else []):
            h.check("mean of the draws", abs(q.mean()) < 0.35)
            h.check("spread of the draws", 0.7 < q.std() < 1.35)
            h.check("normal tails", 0.5 < numpy.mean(numpy.abs(q) < 1) < 0.85)
        if second:
            h.check("independent draws", abs(numpy.mean(xs * q)) < 0.35)
    o.set_to_mean()
    h.eq("reset to the mean", getattr(o, n), m)
    if second:
        h.eq("reset to the mean 2", getattr(o, n2), m2)
    for x in names:
        if x not in (n, n2):
            h.eq("other value", getattr(o, x), before[x][0])
    # a plain value ends the statistics
    v = value(h, n, ".plain")
    setattr(o, n, v)
    o.sample()
    h.eq("plain value survives resampling", getattr(o, n), v)
    o.set_to_mean()
    h.eq("plain value survives resetting", getattr(o, n), v)


TYPES = {"focallength_x_px": 2, "focallength_y_px": 2, "focallength_px": 2, "center_x_px": 2, "center_y_px": 2,
         "image_width_px": 2, "image_height_px": 2, "sensor_width_mm": 2, "sensor_height_mm": 2, "elevation_m": 4, "tilt_deg": 4,
         "roll_deg": 4, "heading_deg": 8, "pos_x_m": 8, "pos_y_m": 8, "k1": 16, "k2": 16, "k3": 16, "a": 16, "b": 16, "c": 16,
         "gps_lat": 32, "gps_lon": 32}


@contract("C22", "fit-parameters", trials=300)
def fit_parameters(h):
    """get_fit_parameters: exactly the parameters of the requested types that the user has not fixed"""
    ct = h.ct
    pool = ["elevation_m", "tilt_deg", "heading_deg", "pos_x_m"]
    given = {}
    for n in pool:
        if h.choose("given " + n, [False, True]):
            given[n] = value(h, n)
    o = ct.SpatialOrientation(**given)
    l = ct.BrownLensDistortion(k1=h.real("k1", lo=0, hi=0.01)) if h.choose("lens", [0, 1]) else ct.NoDistortion()
    h.ideal_inverse()
    p = ct.RectilinearProjection(focallength_px=1000, image=(200, 100))
    c = ct.Camera(p, o, l)
    names = list(ORI["SpatialOrientation"]) + PROJ + ["focallength_px"] + GPS + (["k1", "k2", "k3"] if "Brown" in type(l).__name__ else [])
    user = set(given) | set(PROJ) - {"sensor_width_mm", "sensor_height_mm"} | {"focallength_px", "k1"} | set(GPS)
    step = h.choose("step", ["none", "set", "unset", "fit", "pair"])
    n = h.choose("changed", ["elevation_m", "heading_deg", "focallength_x_px"])
    if step == "set":
        setattr(c, n, value(h, n, ".s"))
        user.add(n)
    elif step == "pair":
        setattr(c, n, (value(h, n, ".s"), 0.5))
        user.add(n)
    elif step == "unset":
        if n == "focallength_x_px":
            n = "center_x_px"
        setattr(c, n, None)
        user.discard(n)
    elif step == "fit":
        v = value(h, n, ".s")
        way = h.choose("way", ["lists", "dict"])
        if way == "lists":
            c.parameters.set_fit_parameters([n], [v])
        else:
            c.parameters.set_fit_parameters({n: v})
        user.discard(n)
        h.eq("fitted value", getattr(c, n), v)
    for T in [None, 2, 4, 8, 12, 16, 32, 2 | 8]:
        got = c.parameters.get_fit_parameters(T)
        want = [m for m in names if m not in user and (T is None or TYPES[m] & T)]
        h.check("no parameter listed twice", len(set(got)) == len(got))
        h.eq("listed parameters", " ".join(sorted(got)), " ".join(sorted(want)))
    h.eq("type constants", "%d %d %d %d %d %d" % tuple(getattr(h.module("parameter_set"), "TYPE_" + t) for t in
                                                  ("INTRINSIC", "EXTRINSIC1", "EXTRINSIC2", "EXTRINSIC", "DISTORTION", "GPS")), "2 4 8 12 16 32")


@contract("C22", "shared", trials=300)
def shared(h):
    """a parameter shared between objects has one single value, through whichever object it is accessed"""
    ct = h.ct
    kind = h.choose("objects", ["camera", "group", "two cameras"])
    p = ct.RectilinearProjection(focallength_px=1000, image=(200, 100))
    o = ct.SpatialOrientation()
    o2 = ct.SpatialOrientation()
    l = ct.BrownLensDistortion()
    h.ideal_inverse()
    if kind == "camera":
        c = ct.Camera(p, o, l)
        ac = {"pos_x_m": [c, c.parameters, o, o.parameters], "center_x_px": [c, p, p.parameters, c.parameters],
              "focallength_y_px": [c, p], "k2": [c, l, c.parameters, l.parameters], "tilt_deg": [c, o]}
    elif kind == "group":
        g = ct.CameraGroup(p, [o, o2], l)
        ac = {"pos_x_m": [(g, "C0_pos_x_m"), g[0], o], "tilt_deg": [(g, "C1_tilt_deg"), g[1], o2], "center_x_px": [g, g[0], g[1], p],
              "k2": [g, g[1], l, g[0]]}
    else:
        c, c2 = ct.Camera(p, o, l), ct.Camera(p, o2, l)
        ac = {"center_x_px": [c, c2, p], "k2": [c, c2, l], "focallength_x_px": [c, c2, p]}
    n = h.choose("parameter", sorted(ac))
    hs = [x if isinstance(x, tuple) else (x, n) for x in ac[n]]
    k = h.choose("through", list(range(len(hs))))
    how = h.choose("how", ["set", "default", "fit", "pair"])
    x, nm = hs[k]
    v = value(h, n)
    ps = x if not hasattr(x, "parameters") or x.parameters is None or isinstance(x.parameters, dict) else x.parameters
    if how == "set":
        setattr(x, nm, v)
    elif how == "pair":
        setattr(x, nm, (v, 0.001))
    elif how == "fit":
        ps.set_fit_parameters([nm], [v])
    else:
        setattr(x, nm, None)
        setattr(x.defaults, nm, v)
    for i, (y, m) in enumerate(hs):
        h.eq("one value", getattr(y, m), v)
        if how == "default":
            h.eq("one default", getattr(y.defaults, m), v)
    if kind == "group" and n == "tilt_deg":
        h.eq("the other camera", g[0].tilt_deg, 85)
        h.eq("the other camera", getattr(g, "C0_tilt_deg"), 85)
    if kind == "group" and n == "pos_x_m":
        h.eq("the other camera", g[1].pos_x_m, 0)


@contract("C22", "fresh objects", trials=60)
def fresh(h):
    """unset parameters of new objects have the documented defaults (30 m above the ground, 85 degrees from looking down, no roll, no heading,
    at the origin, no distortion), and every parameter is listed under its type"""
    ct = h.ct
    h.ideal_inverse()
    ps = h.module("parameter_set")
    want = {"elevation_m": 30, "tilt_deg": 85, "roll_deg": 0, "heading_deg": 0, "pos_x_m": 0, "pos_y_m": 0}
    o = ct.SpatialOrientation()
    for n, v in want.items():
        h.eq(n, getattr(o, n), v)
    y = ct.SpatialOrientationYawPitchRoll()
    for n in ("roll_deg", "pos_x_m", "pos_y_m"):
        h.eq(n, getattr(y, n), 0)
    for l, names in ((ct.BrownLensDistortion(), "k1 k2 k3"), (ct.ABCDistortion(), "a b c")):
        for n in names.split():
            h.eq(n, getattr(l, n), 0)
        h.eq("lens types", " ".join(sorted(l.parameters.get_fit_parameters(ps.TYPE_DISTORTION))), names)
        h.eq("no other types", " ".join(l.parameters.get_fit_parameters(ps.TYPE_DISTORTION ^ 255)), "")
    for q, near in ((o, "elevation_m roll_deg tilt_deg"), (y, "elevation_m roll_deg yaw_deg")):
        far = sorted(set(ORI[type(q).__name__]) - set(near.split()))
        h.eq("height and attitude", " ".join(sorted(q.parameters.get_fit_parameters(ps.TYPE_EXTRINSIC1))), near)
        h.eq("heading and position", " ".join(sorted(q.parameters.get_fit_parameters(ps.TYPE_EXTRINSIC2))), " ".join(far))
        h.eq("nothing else", " ".join(q.parameters.get_fit_parameters(255 ^ ps.TYPE_EXTRINSIC)), "")
    p = getattr(ct, h.choose("projection", PROJECTIONS))(focallength_px=h.real("f", lo=1, hi=5000), image=(200, 100))
    h.eq("sensor", " ".join(sorted(p.parameters.get_fit_parameters(ps.TYPE_INTRINSIC))), "sensor_height_mm sensor_width_mm")
    # what the user took back may be fitted
    for n in PROJ:
        setattr(p, n, None)
    h.eq("all intrinsic", " ".join(sorted(p.parameters.get_fit_parameters(ps.TYPE_INTRINSIC))), " ".join(sorted(PROJ)))
    h.eq("only intrinsic", " ".join(sorted(p.parameters.get_fit_parameters(ps.TYPE_INTRINSIC ^ 255))), "")


@contract("C22", "angles beyond a turn", trials=300)
def turns(h):
    """heading and pitch may be any number of degrees: they keep their fit state, mean and spread; as an angle they are what was set"""
    ct = h.ct
    kind, n = h.choose("kind", [("SpatialOrientation", "heading_deg"), ("SpatialOrientationYawPitchRoll", "pitch_deg")])
    o = getattr(ct, kind)(tilt_deg=0) if n == "heading_deg" else getattr(ct, kind)(yaw_deg=0)
    v = h.real("v", lo=-1000, hi=1000, special=(360, -360, 361, 720))
    how = h.choose("how", ["set", "fit", "default", "pair"])
    turns = lambda a, b: h.check("the angle is what was set", h.whole((a - b) / 360))
    if how == "set":
        setattr(o, n, v)
        turns(getattr(o, n), v)
        h.check("set by the user", n not in o.parameters.get_fit_parameters())
    elif how == "fit":
        o.parameters.set_fit_parameters({n: v})
        turns(getattr(o, n), v)
        h.check("still a fit parameter", n in o.parameters.get_fit_parameters())
    elif how == "default":
        setattr(o.defaults, n, v)
        turns(getattr(o, n), v)
        h.eq("default", getattr(o.defaults, n), v)
        h.check("still unset", n in o.parameters.get_fit_parameters())
        setattr(o.defaults, n, v / 100)
        h.eq("later default", getattr(o, n), v / 100)
    else:
        s = h.real("s", lo=0, hi=10, lo_strict=True, gen=(0.1, 10))
        setattr(o, n, (v, s))
        turns(getattr(o, n), v)
        if h.sym:
            draws = Draws(h)
            for i in (1, 2):
                o.sample()
                h.check("one draw", len(draws.z) == i)
                turns(getattr(o, n), v + s * draws.z[-1])
        else:
            first = getattr(o, n)
            for i in range(2):
                o.sample()
                h.check("drawn", getattr(o, n) != first)
                first = getattr(o, n)
        o.set_to_mean()
        turns(getattr(o, n), v)


@contract("C22", "histories", trials=600)
def histories(h):
    """any history of setting, unsetting, giving a pair, changing the default, fitting, resampling and resetting (three steps; what a
    parameter does next depends only on its value, mean, spread, default and state, all of whose combinations three steps reach)"""
    ct = h.ct
    o = ct.SpatialOrientation()
    c = ct.Camera(ct.RectilinearProjection(focallength_px=1000, image=(200, 100)), o)
    n = h.choose("parameter", ["elevation_m", "pos_x_m"])
    other = {"elevation_m": "pos_x_m", "pos_x_m": "elevation_m"}[n]
    setattr(o, other, 7.5)
    draws = Draws(h)
    val, default, mean, std, fitted, unknown = None, {"elevation_m": 30, "pos_x_m": 0}[n], None, None, False, False
    for i in range(3):
        step = h.choose("step%d" % i, ["set", "none", "pair", "default", "fit", "sample", "reset"])
        x = h.real("x%d" % i, lo=-300, hi=300, gen=(-300, 300), special=(0, 1))
        hd = c if i % 2 else o
        if step in ("sample", "reset"):
            # resampling after a pair was replaced by a fit is not specified
            h.assume(not unknown)
        if step == "set":
            setattr(hd, n, x)
            val, mean, fitted, unknown = x, None, False, False
        elif step == "none":
            setattr(hd, n, None)
            val, mean, fitted, unknown = None, None, False, False
        elif step == "pair":
            std = h.real("s%d" % i, lo=0, hi=5, lo_strict=True, gen=(0.1, 5))
            setattr(hd, n, (x, std))
            val, mean, fitted, unknown = x, x, False, False
        elif step == "default":
            setattr(hd.defaults, n, x)
            default = x
        elif step == "fit":
            hd.parameters.set_fit_parameters({n: x})
            val, fitted, unknown = x, True, mean is not None
        elif step == "sample":
            val = resample(h, hd, n, draws, val, default, mean, std)
        else:
            hd.set_to_mean()
            val = mean if mean is not None else val
        h.eq("value", getattr(o, n), val if val is not None else default)
        h.eq("value of the camera", getattr(c, n), val if val is not None else default)
        h.eq("default", getattr(o.defaults, n), default)
        h.check("listed for fitting", (n in o.parameters.get_fit_parameters()) == (fitted or val is None))
    if not unknown:
        val = resample(h, o, n, draws, val, default, mean, std)
        h.eq("value after resampling", getattr(o, n), val if val is not None else default)
        o.set_to_mean()
        val = mean if mean is not None else val
        h.eq("value after resetting", getattr(o, n), val if val is not None else default)
    h.eq("other value", getattr(o, other), 7.5)


def resample(h, o, n, draws, val, default, mean, std):
    """resample; returns what is then set"""
    k = len(draws.z)
    o.sample()
    if mean is None:
        h.check("no draw without a spread", len(draws.z) == k)
        return val
    if h.sym:
        h.check("one draw", len(draws.z) == k + 1)
        return mean + std * draws.z[-1]
    got = getattr(o, n)
    h.check("a draw", got != mean and abs(got - mean) < 9 * std)
    return got
