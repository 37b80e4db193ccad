"""C10 Great-circle distance, bearing and moving agree with spherical geometry.

Positions are compared as unit vectors n = (cos lat cos lon, cos lat sin lon, sin lat) with the local north and east directions.
distance: cos(d / R) = n1 . n2 with 0 <= d <= pi R; bearing: (sin b, cos b) has the direction of (n2 . east1, n2 . north1);
moving: the arrival is cos(D) n1 + sin(D) (cos b north1 + sin b east1). Everything the property says follows from these."""
from .common import contract

R = 6371000.0


def position(h, tag, heights=False, lat=(-90, 90), strict=False, half=False):
    if half:
        # half angles are the atoms: latitude = 2 * half
        a = h.real(tag + "halflat", lo=lat[0] / 2, hi=lat[1] / 2, lo_strict=strict, hi_strict=strict, gen=(-44.9, 44.9), special=(0,))
        b = h.real(tag + "halflon", gen=(-90, 90), special=(0, 90, -90))
        p = [2 * a, 2 * b]
    else:
        p = [h.real(tag + "lat", lo=lat[0], hi=lat[1], lo_strict=strict, hi_strict=strict, gen=(-89.9, 89.9), special=(0,)),
             h.real(tag + "lon", gen=(-180, 180), special=(0, 180, -180))]
    if heights:
        p.append(h.real(tag + "height", gen=(-100, 9000)))
    return p


def frame(h, lat, lon):
    np = h.np
    sa, ca, so, co = [f(np.deg2rad(x)) for x in (lat, lon) for f in (np.sin, np.cos)]
    return (ca * co, ca * so, sa), (-sa * co, -sa * so, ca), (-so, co, 0)


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def points(h, ps, as_list):
    if as_list:
        return list(ps)
    return h.np.array(ps)


def haversine_lemma(h, p, q):
    """0 <= haversine of the angle <= 1"""
    if not h.sym:
        return
    a, b, u, v = [h.np.deg2rad(x) for x in (p[0], q[0], p[1], q[1])]
    S, C = h.np.sin, h.np.cos
    h.assume(C(a) >= 0)  # true by -90 <= latitude <= 90; the normal form in half angles loses it
    h.assume(C(b) >= 0)
    hav = S((a - b) / 2) ** 2 + C(a) * C(b) * S((u - v) / 2) ** 2
    h.sos("lemma 1", hav, [[(S((a - b) / 2),)], [C(a), C(b), (S((u - v) / 2),)]])
    h.sos("lemma 2", 1 - hav, [[(C((a - b) / 2),), (C((u - v) / 2),)], [(S((a + b) / 2),), (S((u - v) / 2),)]])


def move_lemma(h, p, D, b):
    """the destination is a unit vector"""
    S, C, r = h.np.sin, h.np.cos, h.np.deg2rad
    sl, cl, sd, cd, sb, cb = S(r(p[0])), C(r(p[0])), S(D), C(D), S(r(b)), C(r(b))
    h.unit("lemma", sl * cd + cl * sd * cb, [cl * cd - sl * sd * cb, sd * sb])


@contract("C10", "distance", tol=1e-9)
def distance(h):
    """great-circle distance on the sphere of 6371 km: cos(d / R) = n1 . n2, symmetric, between 0 and half the circumference"""
    np = h.np
    ct = h.ct
    p, q = position(h, "p", half=True), position(h, "q", half=True)
    haversine_lemma(h, p, q)
    d = ct.getDistance(np.array(p), np.array(q))
    e = ct.getDistance(np.array(q), np.array(p))
    h.eq("symmetric", e, d)
    n1, n2 = frame(h, *p)[0], frame(h, *q)[0]
    h.check("not negative", d >= 0)
    h.check("at most half the circumference", d <= np.pi * R * (1 if h.sym else 1 + 1e-12))
    h.eq("great circle", np.cos(d / R), dot(n1, n2))
    # heights
    hp, hq = h.real("ph", gen=(-100, 9000)), h.real("qh", gen=(-100, 9000))
    both = ct.getDistance(np.array(p + [hp]), np.array(q + [hq]))
    h.eq("heights, combined", both * both, d * d + (hp - hq) * (hp - hq))
    h.check("heights, not negative", both >= 0)
    h.eq("height of the first only", ct.getDistance(np.array(p + [hp]), np.array(q)), d)
    h.eq("height of the second only", ct.getDistance(np.array(p), np.array(q + [hq])), d)
    # the same point is at distance zero, wherever it is
    h.eq("distance to itself", ct.getDistance(np.array(p), np.array(p)), 0)


@contract("C10", "bearing", tol=1e-9)
def bearing(h):
    """initial direction of the shortest path: (sin b, cos b) is the direction of (n2 . east1, n2 . north1)"""
    np = h.np
    p, q = position(h, "p"), position(h, "q")
    b = h.ct.getBearing(np.array(p), np.array(q))
    n1, north, east = frame(h, *p)
    n2 = frame(h, *q)[0]
    X, Y = dot(n2, east), dot(n2, north)
    h.assume(X * X + Y * Y > 0)
    h.guard(X * X + Y * Y > 1e-12)
    s, c = np.sin(np.deg2rad(b)), np.cos(np.deg2rad(b))
    h.eq("direction", s * Y, c * X)
    h.eq("orientation", s * X + c * Y, np.sqrt(X * X + Y * Y))
    h.check("range", b <= 180)
    h.check("range", b >= -180)


@contract("C10", "moving", tol=1e-9)
def moving(h):
    """moving a distance along a bearing: cos(D) n1 + sin(D) (cos b north1 + sin b east1), height kept"""
    np = h.np
    hh = h.choose("height", [False, True])
    p = position(h, "p", hh, strict=True)
    D = h.real("D", lo=0, hi=3.141592653589793, gen=(0, 3.1), special=(0, 1e-6))
    b = h.angle("bearing")
    n1, north, east = frame(h, p[0], p[1])
    cd, sd, cb, sb = np.cos(D), np.sin(D), np.cos(np.deg2rad(b)), np.sin(np.deg2rad(b))
    move_lemma(h, p, D, b)
    t = h.ct.moveDistance(np.array(p), D * R, b)
    n2 = frame(h, t[0], t[1])[0]
    for i in range(3):
        h.eq("arrival", n2[i], cd * n1[i] + sd * (cb * north[i] + sb * east[i]))
    h.check("latitude", t[0] <= 90)
    h.check("latitude", t[0] >= -90)
    h.eq("length", len(t), 3 if hh else 2)
    if hh:
        h.eq("height", t[2], p[2])
    # so the bearing seen from the start is b and the angle D (with bearing and distance above)
    h.eq("angle", dot(n1, n2), cd)
    h.eq("seen to the east", dot(n2, east), sd * sb)
    h.eq("seen to the north", dot(n2, north), sd * cb)


GENS = [(-42, 42), (-90, 90), (-100, 9000)]


def loose(h, tag, k):
    return [h.real(tag + "%d" % i, gen=g) * (1 if i == 2 else 2) for i, g in enumerate(GENS[:k])]


def batch(h, tag, k):
    return h.rows(tag, k, "N", gens=GENS[:k]) * h.np.array([2, 2, 1][:k])


def forms(h, fn, arg, lemma=None):
    np, ct = h.np, h.ct
    k = h.choose("dimensions", [2, 3])
    what = h.choose("what", ["list", "tuple", "first", "second", "both"])
    f = fn(ct)
    second, seconds = arg(h, k)
    P = batch(h, "P", k) if what in ("first", "both") else None
    p = h.row(P, "N") if P is not None else loose(h, "p", k)
    Q = seconds() if what in ("second", "both") else None
    q = h.row(Q, "N") if Q is not None else second()
    array = lambda x: np.array(x) if isinstance(x, list) else x
    if lemma:
        lemma(h, p, q)
    ref = f(array(p), array(q))
    if what in ("list", "tuple"):
        conv = {"list": list, "tuple": tuple}[what]
        h.eq("form", f(conv(p), conv(q) if isinstance(q, list) else q), ref)
        return
    got = f(array(p) if P is None else P, array(q) if Q is None else Q)
    h.eq("element", h.row(got, "N"), ref)


def other(h, k):
    return lambda: loose(h, "q", k), lambda: batch(h, "Q", k)


@contract("C10", "distance, forms and batches", tol=1e-9)
def distance_forms(h):
    """lists, tuples and batches of any size on either side: each position has its own distance"""
    forms(h, lambda ct: ct.getDistance, other, haversine_lemma)


@contract("C10", "bearing, forms and batches", tol=1e-9)
def bearing_forms(h):
    """lists, tuples and batches of any size on either side: each position has its own bearing"""
    forms(h, lambda ct: ct.getBearing, other)


@contract("C10", "moving, forms and batches", tol=1e-9)
def moving_forms(h):
    """lists, tuples and batches of positions, of distances and bearings, or of both: each has its own destination"""
    b = h.angle("bearing")
    one = h.choose("bearings", ["one", "per position"]) == "one"

    def arg(h, k):
        return (lambda: h.real("D", lo=0, hi=1, gen=(0, 1))), (lambda: h.col("Ds", "N", gen=(0, 1)))

    def along(D):
        return b if one else b + D * 10  # a bearing that depends on the element

    forms(h, lambda ct: lambda p, D: ct.moveDistance(p, D * R, along(D)), arg, lambda h, p, D: move_lemma(h, p, D, along(D)))


@contract("C10", "there and back", mode="float", tol=1e-9)
def there(h):
    """end to end: distance and bearing seen from the start are the given ones, up to half the circumference, poles and date line included"""
    np, ct = h.np, h.ct
    p = position(h, "p", h.choose("height", [False, True]), lat=(-89.9, 89.9))
    D = h.real("D", lo=1e-3, hi=3.1, gen=(1e-3, 3.1), special=(1.5707963267948966, 0.01))
    b = h.real("b", gen=(-180, 180), special=(0, 90, -90, 180, 45))
    t = ct.moveDistance(np.array(p), D * R, b)
    h.eq("distance", ct.getDistance(np.array(p), t), D * R, tol=1e-6, scale=R)
    seen = ct.getBearing(np.array(p), t)
    h.eq("bearing", np.cos(np.deg2rad(seen - b)), 1, tol=1e-7)
    q = position(h, "q")
    d, c = ct.getDistance(p[:2], q), ct.getBearing(p[:2], q)
    h.guard(d < 3.1 * R)
    h.guard(abs(q[0]) < 89)
    u = ct.moveDistance(p[:2], d, c)
    h.eq("arrives", np.array(frame(h, u[0], u[1])[0]), np.array(frame(h, *q)[0]), tol=1e-6)


@contract("C10", "to the poles", tol=1e-6)
def poles(h):
    """moving straight north (or south) by the distance of the pole arrives at the pole, from every latitude"""
    np, ct = h.np, h.ct
    south = h.choose("pole", ["north", "south"]) == "south"
    a = h.real("lat", lo=-90, hi=90, lo_strict=True, hi_strict=True, gen=(-90, 90)) if h.sym or h.choose("whole", [0, 1]) == 0 else float(int(h.real("lat", gen=(-89, 89))))
    p = np.array([a, h.real("lon", gen=(-180, 180))])
    D = np.deg2rad(90 + a if south else 90 - a)
    move_lemma(h, p, D, 180 if south else 0)
    t = ct.moveDistance(p, D * R, 180 if south else 0)
    h.eq("latitude", t[0], -90 if south else 90)
    h.nonan("longitude", t[1])
