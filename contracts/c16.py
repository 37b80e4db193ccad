"""C16 Batches equal pointwise results and inputs are never modified.

The postcondition compares a function with itself: row i of f(batch) is f(row i) for a generic row of a batch of unspecified length, lists
and tuples give the same as arrays, the input is bitwise what it was, and a repeated call (after a call with other data) gives the same."""
import itertools
import numpy
from .common import contract, projection, orientation, lens, PROJECTIONS, SHORT, LENSES
from .c10 import GENS, haversine_lemma
from .c14 import norm

PIX = [(0, 4000), (0, 3000)]
SPACE = [(-50, 50), (-50, 50), (-50, 50)]
FORMS = ["N", 2, "list", "tuples", "single list", "single tuple"]


def inputs(h, name, k, form, gens, scale=None, **kw):
    """points in one of the accepted forms; the rows as arrays; the function that picks the result of each row"""
    np = h.np
    scaled = lambda P: P if scale is None else P * np.array(scale)
    if form == "N":
        P = scaled(h.rows(name, k, "N", gens=gens, **kw))
        if h.sym:
            return P, [h.row(P, "N")], lambda out: [h.row(out, "N")]
        return P, list(P * 1), lambda out: [h_row(h, out, i) for i in range(len(P))]
    if isinstance(form, int):
        P = scaled(h.rows(name, k, form, gens=gens, **kw))
        return P, [P[i] * 1 for i in range(form)], lambda out: [out[i] for i in range(exactly(h, out, form))]
    n = 2 if form in ("list", "tuples") else None
    P = scaled(h.rows(name, k, n, gens=gens, **kw))
    if n is None:
        v = [P[j] for j in range(k)]
        return (list if form == "single list" else tuple)(v), [np.array(v)], lambda out: [out]
    v = [(list if form == "list" else tuple)(P[i, j] for j in range(k)) for i in range(n)]
    return (list if form == "list" else tuple)(v), [np.array(list(r)) for r in v], lambda out: [out[i] for i in range(exactly(h, out, n))]


def exactly(h, out, n):
    h.check("as many results as points", len(out) == n)
    return n


def h_row(h, out, i):
    out = numpy.asarray(out)
    if out.shape[0] != h.dim("N"):
        raise AssertionError("%d rows expected, got shape %s" % (h.dim("N"), out.shape))
    return out[i]


def copy(h, x):
    if isinstance(x, (list, tuple)):
        return type(x)(copy(h, y) for y in x)
    return h.snapshot(x)


def same(h, label, a, b, tol=None):
    if isinstance(a, (list, tuple)):
        h.check(label + " (same structure)", type(a) is type(b) and len(a) == len(b))
        for x, y in zip(a, b):
            same(h, label, x, y, tol)
    else:
        h.eq(label, a, b, tol=tol)


def pointwise(h, f, args, other=None, tol=None):
    """args: [(value, rows, pick)], pick None for arguments that are common to all points"""
    given = [copy(h, a[0]) for a in args]
    out = f(*[a[0] for a in args])
    first = copy(h, out)
    for a, g in zip(args, given):
        same(h, "the arguments are not modified", a[0], g, 0 if not h.sym else None)
    pick = [a[2] for a in args if a[2] is not None][0]
    n = max(len(a[1]) for a in args if a[2] is not None)
    got = pick(out)
    for i in range(n):
        h.eq("row by row", got[i], f(*[a[0] if a[2] is None else a[1][i] for a in args]), tol=tol)
    if other is not None and (n == 1 or not h.sym):
        f(*other)
    same(h, "the same again", f(*[a[0] for a in args]), first)
    same(h, "results are not overwritten later", out, first)
    for a, g in zip(args, given):
        same(h, "the arguments are still not modified", a[0], g, 0 if not h.sym else None)


def common(v):
    return (v, None, None)


def make_projection(kind):
    k = SHORT[kind]

    @contract("C16", k + " projection")
    def proj(h):
        """getRay and imageFromCamera, every row for itself"""
        p = projection(h, kind)[0]
        form = h.choose("form", FORMS)
        which = h.choose("function", ["getRay", "getRay normed", "imageFromCamera", "imageFromCamera all"])
        if which.startswith("getRay"):
            a = inputs(h, "px", 2, form, PIX)
            pointwise(h, lambda x: p.getRay(x, normed=which.endswith("normed")), [a], [h.np.array([[3.0, 4.0]])])
        else:
            a = inputs(h, "P", 3, form, [(-10, 10), (-10, 10), (-10, 10)], special=(0,))
            pointwise(h, lambda x: p.imageFromCamera(x, hide_backpoints=which == "imageFromCamera"), [a], [h.np.array([[3.0, 4.0, 5.0]])])


for _k in PROJECTIONS:
    make_projection(_k)


@contract("C16", "orientation")
def orient(h):
    """cameraFromSpace and spaceFromCamera (points and directions), both orientation models"""
    o = orientation(h, kind=h.choose("kind", ["thr", "ypr"]))[0]
    form = h.choose("form", FORMS)
    which = h.choose("function", ["cameraFromSpace", "spaceFromCamera", "direction"])
    a = inputs(h, "P", 3, form, SPACE)
    f = {"cameraFromSpace": o.cameraFromSpace, "spaceFromCamera": o.spaceFromCamera,
         "direction": lambda x: o.spaceFromCamera(x, direction=True)}[which]
    pointwise(h, f, [a], [h.np.array([[3.0, 4.0, 5.0]])], tol=1e-9)


@contract("C16", "lens")
def lenses(h):
    """distortedFromImage and imageFromDistorted of all lenses, alone and with a projection"""
    l, v = lens(h, h.choose("lens", LENSES))
    if h.choose("projection", [False, True]):
        p = projection(h, "RectilinearProjection")[0]
        l.setProjection(p)
        gens = PIX
    else:
        gens = [(-1, 1), (-1, 1)]
    form = h.choose("form", FORMS)
    f = h.choose("function", ["distortedFromImage", "imageFromDistorted"])
    a = inputs(h, "px", 2, form, gens)
    pointwise(h, getattr(l, f), [a], [h.np.array([[0.3, 0.4]])], tol=1e-6)


def camera(h, kind, with_lens=False):
    p = projection(h, kind)[0]
    o, t, angles = orientation(h, kind=h.choose("orientation", ["thr", "ypr"]))
    l = lens(h, h.choose("lens", LENSES) if with_lens else "none")[0]
    return h.ct.Camera(p, o, l), t


def composed(h):
    """a camera of components that treat every row for itself (the contracts above), and are arbitrary otherwise"""
    np, ct = h.np, h.ct

    def rowwise(name, k, n):
        def f(points, *flags):
            points = np.asarray(points)
            return np.array([h.uf("%s_%d" % (name, i), *([points[..., j] for j in range(k)] + [1.0 if x else 0.0 for x in flags])) for i in range(n)]).T
        return f
    to_cam, to_space = rowwise("cam", 3, 3), rowwise("space", 3, 3)
    image, ray = rowwise("image", 3, 2), rowwise("ray", 2, 3)
    dist, undist = rowwise("dist", 2, 2), rowwise("undist", 2, 2)

    class O(ct.SpatialOrientation):
        def cameraFromSpace(self, points):
            return to_cam(points)

        def spaceFromCamera(self, points, direction=False):
            return to_space(points, direction)

    class P(ct.RectilinearProjection):
        def imageFromCamera(self, points, hide_backpoints=True):
            return image(points, hide_backpoints)

        def getRay(self, points, normed=False):
            return ray(points, normed)

    class L(ct.NoDistortion):
        def distortedFromImage(self, points):
            return dist(points)

        def imageFromDistorted(self, points):
            return undist(points)
    return ct.Camera(P(focallength_px=1000, image=(1000, 800)), O(tilt_deg=30), L())


@contract("C16", "camera.project", tol=1e-5)
def project(h):
    """imageFromSpace, with and without hiding"""
    cam = composed(h)
    hide = h.choose("hide", [True, False, None])
    a = inputs(h, "P", 3, h.choose("form", FORMS), SPACE)
    pointwise(h, cam.imageFromSpace if hide is None else lambda x: cam.imageFromSpace(x, hide_backpoints=hide), [a], [h.np.array([[3.0, 4.0, 5.0]])])


@contract("C16", "camera.rays")
def rays(h):
    """getRay: common origin, every direction for itself"""
    cam = composed(h)
    normed = h.choose("normed", [True, False, None])
    a = inputs(h, "px", 2, h.choose("form", FORMS), PIX)
    f = cam.getRay if normed is None else lambda x: cam.getRay(x, normed=normed)
    pointwise(h, lambda x: f(x)[1], [a], [h.np.array([[3.0, 4.0]])])
    h.eq("common origin", f(a[0])[0], f(a[1][0])[0])


def ray_camera(h):
    """a camera whose getRay is an arbitrary function of the pixel (its own batches are the contract above)"""
    np = h.np
    pos = h.vec("pos", 3, gen=(-20, 20))

    class Cam(h.ct.Camera):
        def getRay(self, points, normed=False):
            points = np.asarray(points)
            n = 1.0 if normed else 0.0
            return pos * 1, np.array([h.uf("dir_%d" % i, points[..., 0], points[..., 1], n) for i in range(3)]).T
    return Cam(h.ct.RectilinearProjection(focallength_px=1000, image=(1000, 800)),
               h.ct.SpatialOrientation(elevation_m=pos[2], pos_x_m=pos[0], pos_y_m=pos[1], tilt_deg=30)), pos


def make_back(key):
    @contract("C16", "back-projection %s" % (key or "default"))
    def back(h):
        """spaceFromImage with the coordinate (or distance) common or per point"""
        cam, pos = ray_camera(h)
        form = h.choose("form", ["N", "list", "single tuple"])
        a = inputs(h, "px", 2, form, PIX)
        if key is None:
            return pointwise(h, cam.spaceFromImage, [a], [h.np.array([[3.0, 4.0]])])
        per = h.choose("per point", [False, True]) if form == "N" else False
        if per:
            v, rows, pick = inputs(h, "v", 1, form, [(-20, 20)])
            v = (v[..., 0], [r[0] for r in rows], pick)
        else:
            v = common(h.real("v", gen=(-20, 20)))
        pointwise(h, lambda x, y: cam.spaceFromImage(x, **{key: y}), [a, v], [h.np.array([[3.0, 4.0]]), 5.0])


for _k in ("X", "Y", "Z", "D", None):
    make_back(_k)


@contract("C16", "mesh", budget=200)
def mesh(h):
    """spaceFromImage on a mesh of two triangles"""
    cam, pos = ray_camera(h)
    T = h.np.array([[[0.0, 0, 0], [100, 0, 0], [0, 100, 0]], [[0, 50, -20], [100, 50, -20], [0, 50, 200]]])
    a = inputs(h, "px", 2, h.choose("form", ["N", "single tuple"]), PIX)
    pointwise(h, lambda x, m: cam.spaceFromImage(x, mesh=m), [a, common(T)])


def rowwise(h, name, k, n):
    """an arbitrary function of every point for itself (and of further values)"""
    np = h.np

    def f(points, *more):
        points = np.asarray(points)
        more = [np.zeros_like(points[..., 0]) + (x if x is not None else -77.0) for x in more]
        return np.array([h.uf("%s_%d" % (name, i), *([points[..., j] for j in range(k)] + more)) for i in range(n)]).T
    return f


def make_objects(name):
    @contract("C16", name)
    def objects(h):
        """every object for itself, ground height common or per object (spaceFromImage and getRay by their contracts)"""
        cam, pos = ray_camera(h)
        back = rowwise(h, "back", 2, 3)

        class Cam(type(cam)):
            def spaceFromImage(self, points, X=None, Y=None, Z=0, D=None, mesh=None):
                return back(points, X, Y, Z, D)
        cam.__class__ = Cam
        form = h.choose("form", ["N", "list", "single tuple"])
        a, b = inputs(h, "p", 2, form, PIX), inputs(h, "q", 2, form, PIX)
        z = h.choose("Z", ["default", "common", "per object"]) if form == "N" else h.choose("Z", ["default", "common"])
        g = getattr(cam, name)
        other = [h.np.array([[3.0, 4.0]]), h.np.array([[5.0, 6.0]])]
        if z == "default":
            return pointwise(h, g, [a, b], other)
        if z == "common":
            return pointwise(h, lambda x, y, v: g(x, y, Z=v), [a, b, common(h.real("Z", gen=(-5, 5)))], other + [1.0])
        v, rows, pick = inputs(h, "Z", 1, form, [(-5, 5)])
        pointwise(h, lambda x, y, v: g(x, y, Z=v), [a, b, (v[..., 0], [r[0] for r in rows], pick)], other + [1.0])


for _k in ("getObjectHeight", "getObjectLength"):
    make_objects(_k)


@contract("C16", "GPS of a camera")
def gps_camera(h):
    """gpsFromSpace, spaceFromGPS, gpsFromImage and imageFromGPS of a camera, over the contracts of the gps module, imageFromSpace
    and spaceFromImage"""
    np, ct = h.np, h.ct
    f = h.choose("function", ["gpsFromSpace", "spaceFromGPS", "gpsFromImage", "imageFromGPS"])
    k = {"gpsFromSpace": [3], "spaceFromGPS": [2, 3], "gpsFromImage": [2], "imageFromGPS": [2, 3]}[f]
    k = h.choose("dimensions", k)
    image, back = rowwise(h, "img", 3, 2), rowwise(h, "back", 2, 3)
    to_gps, from_gps = rowwise(h, "togps", 3, 3), rowwise(h, "fromgps", k, 3)

    class Cam(ct.Camera):
        def imageFromSpace(self, points, hide_backpoints=True):
            return image(points, hide_backpoints)

        def spaceFromImage(self, points, X=None, Y=None, Z=0, D=None, mesh=None):
            return back(points, X, Y, Z, D)
    cam = Cam(ct.RectilinearProjection(focallength_px=1000, image=(1000, 800)), ct.SpatialOrientation(tilt_deg=30))
    cam.gps_lat = h.real("lat", lo=-90, hi=90, gen=(-89, 89))
    cam.gps_lon = h.real("lon", lo=-180, hi=180, gen=(-180, 180))
    mod = h.module("gps")
    keep = mod.gpsFromSpace, mod.spaceFromGPS
    try:
        mod.gpsFromSpace = lambda points, gps0: to_gps(points, gps0[0], gps0[1])
        mod.spaceFromGPS = lambda points, gps0: from_gps(points, gps0[0], gps0[1])
        a = inputs(h, "P", k, h.choose("form", FORMS), PIX if f == "gpsFromImage" else SPACE if f == "gpsFromSpace" else GENS[:k])
        pointwise(h, getattr(cam, f), [a])
    finally:
        mod.gpsFromSpace, mod.spaceFromGPS = keep


def make_gps(f):
    @contract("C16", "gps." + f, budget=200, tol=1e-6)
    def gps_functions(h):
        """every point for itself, with common or own references, distances and bearings"""
        gps = h.ct.gps
        form = h.choose("form", ["N", "list", "single tuple"])
        k = h.choose("dimensions", [2, 3])
        gens = GENS[:k]
        twice = None if f in ("gpsFromSpace", "moveDistance") else [2, 2, 1][:k]  # the half angles are the atoms of the haversine formula
        a = inputs(h, "P", k, form, SPACE[:k] if f == "gpsFromSpace" else gens, twice)
        if f in ("spaceFromGPS", "gpsFromSpace"):
            ref = inputs(h, "ref", k, "single list", gens, twice)[0]
            for r in a[1] if twice else []:
                haversine_lemma(h, ref, r)
            return pointwise(h, getattr(gps, f), [a, common(ref)], tol=1e-6)
        if f == "moveDistance":
            if form == "N" and h.choose("own", [False, True]):
                d, b = [inputs(h, n, 1, form, [g]) for n, g in (("d", (0, 1e6)), ("b", (-180, 180)))]
                d, b = [(x[0][..., 0], [r[0] for r in x[1]], x[2]) for x in (d, b)]
            else:
                d, b = common(h.real("d", gen=(0, 1e6))), common(h.real("b", gen=(-180, 180)))
            return pointwise(h, gps.moveDistance, [a, d, b], tol=1e-6)
        if h.choose("own", [False, True]):
            ref = inputs(h, "ref", k, form, gens, twice)
        else:
            ref = common(inputs(h, "ref", k, "single list", gens, twice)[0])
        for i, r in enumerate(a[1]):
            haversine_lemma(h, r, ref[1][i] if ref[1] else ref[0])
        order = h.choose("order", [False, True])
        pointwise(h, lambda x, y: getattr(gps, f)(*((x, y) if order else (y, x))), [a, ref], tol=1e-6)


for _k in ("getDistance", "getBearing", "moveDistance", "spaceFromGPS", "gpsFromSpace"):
    make_gps(_k)


@contract("C16", "group", budget=200)
def group(h):
    """imagesFromSpace, spaceFromImages and discanteBetweenRays of a camera group"""
    np, ct = h.np, h.ct
    f = h.choose("function", ["imagesFromSpace", "spaceFromImages", "discanteBetweenRays"])
    form = h.choose("form", ["list", "single list"] if f == "discanteBetweenRays" else ["N", "list", "single list"])
    p = ct.RectilinearProjection(focallength_px=1000, image=(1000, 800))
    os = [ct.SpatialOrientation(tilt_deg=30, pos_x_m=i) for i in range(2)]
    g = ct.CameraGroup(p, os)
    pos = [h.vec("pos%d" % i, 3, gen=(-20, 20)) for i in range(2)]
    for i, cam in enumerate(g):
        def getRay(points, normed=False, i=i):
            points = np.asarray(points)
            n = 1.0 if normed else 0.0
            return pos[i] * 1, np.array([h.uf("dir%d_%d" % (i, j), points[..., 0], points[..., 1], n) for j in range(3)]).T

        def image(points, hide_backpoints=True, i=i):
            points = np.asarray(points)
            return np.array([h.uf("img%d_%d" % (i, j), points[..., 0], points[..., 1], points[..., 2], 1.0 if hide_backpoints else 0.0)
                             for j in range(2)]).T
        cam.getRay, cam.imageFromSpace = getRay, image
    if f == "imagesFromSpace":
        a = inputs(h, "P", 3, form, SPACE)
        for i in range(2):
            pointwise(h, lambda x: g.imagesFromSpace(x)[i], [a])
        return
    a, b = inputs(h, "p", 2, form, PIX), inputs(h, "q", 2, form, PIX)
    if form == "N":
        not_parallel(h, [g[0].getRay(x)[1] for x in a[1]], [g[1].getRay(x)[1] for x in b[1]])
    pointwise(h, getattr(g, f), [a, b])


def not_parallel(h, v1, v2):
    """in a batch of unspecified length (the fallback for singular systems is a loop: covered with two rows)"""
    for a, b in zip(v1, v2):
        aa, ab, bb = [sum(x[i] * y[i] for i in range(3)) for x, y in ((a, a), (a, b), (b, b))]
        h.guard(aa * bb - ab * ab > 1e-6)
        h.assume(aa * bb - ab * ab != 0)


def make_ray(f):
    @contract("C16", "ray." + f, budget=150)
    def geometry(h):
        """arrays of directions, triangles or points: every row for itself"""
        np, ray = h.np, h.ct.ray
        form = 2 if f == "distanceOfTwoLines" else h.choose("form", ["N", 2]) if f == "intersectionOfTwoLines" else "N"
        if f == "ray_intersect_triangle":
            T = np.array([[[0.0, 0, 0], [100, 0, 0], [0, 100, 0]], [[0, 50, -20], [100, 50, -20], [0, 50, 200]]])
            return pointwise(h, lambda o, d, m: ray.ray_intersect_triangle(o, d, m),
                             [common(h.vec("o", 3, gen=(-20, 20))), inputs(h, "d", 3, form, [(-1, 1)] * 3), common(T)])
        if f in ("intersectionOfTwoLines", "distanceOfTwoLines"):
            p1, p2 = [common(h.vec(n, 3, gen=(-20, 20))) for n in ("p1", "p2")]
            v1, v2 = [inputs(h, n, 3, form, [(-1, 1)] * 3) for n in ("v1", "v2")]
            if form == "N":
                not_parallel(h, v1[1], v2[1])
            return pointwise(h, getattr(ray, f), [p1, v1, p2, v2], tol=1e-5)
        if f == "getClosestPointFromLine":
            k = h.choose("dimensions", [2, 3])
            a = [inputs(h, n, k, form, [(-20, 20)] * k) for n in ("o", "v", "p")]
            for r in a[1][1]:
                h.guard(norm(h, r) > 1e-3 if k == 3 else r[0] * r[0] + r[1] * r[1] > 1e-3)
            return pointwise(h, ray.getClosestPointFromLine, a)
        k = 3 if f == "areaOfTriangle" else 4
        a = inputs(h, "T", 3 * k, form, [(-5, 5)] * 3 * k)
        v = (a[0].reshape(-1, k, 3), [r.reshape(k, 3) for r in a[1]], a[2])
        pointwise(h, getattr(ray, f), [v])


for _k in ("ray_intersect_triangle", "intersectionOfTwoLines", "distanceOfTwoLines", "areaOfTriangle", "areaOfQuadrilateral",
           "getClosestPointFromLine"):
    make_ray(_k)


def table(h):
    """every transformation function: name -> (function, coordinates, ranges, accepted numbers of coordinates)"""
    ct, np = h.ct, numpy
    cam, t = camera(h, h.choose("projection", PROJECTIONS), True)
    cam.gps_lat, cam.gps_lon = 20.5, 30.25
    p, o, l = cam.projection, cam.orientation, cam.lens
    T = np.array([[[-500, 0, -1], [500, 0, -1], [0, 900., -1]], [[-500, 0, 100], [500, 0, 100], [0, 900., 100.]]])
    g = [(20, 21), (30, 31), (0, 50)]
    g0 = [20.1, 30.1, 4.0]
    grp = ct.CameraGroup(p, [o, ct.SpatialOrientation(pos_x_m=3, tilt_deg=80)])
    near = lambda x: np.array(x) + np.array([3.0, -40.0]) if np.shape(x)[-1] == 2 else x
    out = {
        "projection.getRay": (p.getRay, 2, PIX, (2,)),
        "projection.getRay normed": (lambda x: p.getRay(x, normed=True), 2, PIX, (2,)),
        "projection.imageFromCamera": (p.imageFromCamera, 3, SPACE, (3,)),
        "orientation.cameraFromSpace": (o.cameraFromSpace, 3, SPACE, (3,)),
        "orientation.spaceFromCamera": (o.spaceFromCamera, 3, SPACE, (3,)),
        "orientation.spaceFromCamera direction": (lambda x: o.spaceFromCamera(x, direction=True), 3, SPACE, (3,)),
        "lens.imageFromDistorted": (l.imageFromDistorted, 2, PIX, (2,)),
        "lens.distortedFromImage": (l.distortedFromImage, 2, PIX, (2,)),
        "imageFromSpace": (cam.imageFromSpace, 3, SPACE, (3,)),
        "getRay": (lambda x: cam.getRay(x)[1], 2, PIX, (2,)),
        "getRay normed": (lambda x: cam.getRay(x, normed=True)[1], 2, PIX, (2,)),
        "spaceFromImage X": (lambda x: cam.spaceFromImage(x, X=2), 2, PIX, (2,)),
        "spaceFromImage Y": (lambda x: cam.spaceFromImage(x, Y=2), 2, PIX, (2,)),
        "spaceFromImage Z": (lambda x: cam.spaceFromImage(x), 2, PIX, (2,)),
        "spaceFromImage D": (lambda x: cam.spaceFromImage(x, D=7), 2, PIX, (2,)),
        "spaceFromImage mesh": (lambda x: cam.spaceFromImage(x, mesh=T), 2, PIX, (2,)),
        "gpsFromSpace": (cam.gpsFromSpace, 3, SPACE, (2, 3)),
        "spaceFromGPS": (cam.spaceFromGPS, 3, g, (2, 3)),
        "gpsFromImage": (cam.gpsFromImage, 2, PIX, (2,)),
        "imageFromGPS": (cam.imageFromGPS, 3, g, (2, 3)),
        "getObjectHeight": (lambda x: cam.getObjectHeight(x, near(x)), 2, PIX, (2,)),
        "getObjectLength": (lambda x: cam.getObjectLength(x, near(x)), 2, PIX, (2,)),
        "spaceFromImages": (lambda x: grp.spaceFromImages(x, near(x)), 2, PIX, (2,)),
        "discanteBetweenRays": (lambda x: grp.discanteBetweenRays(x, near(x)), 2, PIX, (2,)),
        "imagesFromSpace": (lambda x: grp.imagesFromSpace(x)[0], 3, SPACE, (3,)),
        "gps.getDistance": (lambda x: ct.getDistance(g0, x), 3, g, (2, 3)),
        "gps.getBearing": (lambda x: ct.getBearing(g0, x), 3, g, (2, 3)),
        "gps.moveDistance": (lambda x: ct.moveDistance(x, 1000, 30), 3, g, (2, 3)),
        "gps.spaceFromGPS": (lambda x: ct.spaceFromGPS(x, g0), 3, g, (2, 3)),
        "gps.gpsFromSpace": (lambda x: ct.gpsFromSpace(x, g0), 3, SPACE, (2, 3)),
        "ray_intersect_triangle": (lambda x: ct.ray.ray_intersect_triangle(np.array([0, 0, 10.0]), x, T), 3, [(-1, 1)] * 3, (3,)),
    }
    return out


NAMES = ["projection.getRay", "projection.getRay normed", "projection.imageFromCamera", "orientation.cameraFromSpace",
         "orientation.spaceFromCamera", "orientation.spaceFromCamera direction", "lens.imageFromDistorted", "lens.distortedFromImage",
         "imageFromSpace", "getRay", "getRay normed", "spaceFromImage X", "spaceFromImage Y", "spaceFromImage Z", "spaceFromImage D",
         "spaceFromImage mesh", "gpsFromSpace", "spaceFromGPS", "gpsFromImage", "imageFromGPS", "getObjectHeight", "getObjectLength",
         "spaceFromImages", "discanteBetweenRays", "imagesFromSpace", "gps.getDistance", "gps.getBearing", "gps.moveDistance",
         "gps.spaceFromGPS", "gps.gpsFromSpace", "ray_intersect_triangle"]


def forms(h):
    """all functions on concrete arrays: empty, integer, read-only, transposed in memory, reversed view, wrong dimensions"""
    np = numpy
    name = h.choose("function", NAMES)
    form = h.choose("form", ["float", "int", "small int", "read-only", "columns", "reversed", "list of arrays", "empty", "wrong", "many"])
    f, k, gens, accepted = table(h)[name]
    if form == "wrong":
        k = h.choose("coordinates", [j for j in (1, 2, 3, 4) if j not in accepted])
        n = h.choose("points", [None, 1, 2, 3, 4])
        h.raises("rejected", (ValueError, AssertionError, IndexError, TypeError), lambda: f(np.ones((k,) if n is None else (n, k))))
        return
    n = h.choose("points", [1, 2, 3, 4, 5, 7])
    P = h.rows("P", k, n, gens=gens, special=(0,))
    if form == "int":
        P = np.round(P).astype(int)
        P[P == 0] = 1  # the sign of zero decides the branch of arctan2, and an integer has none
    elif form == "small int":
        P = np.round(P).astype(int)
        P[P == 0] = 1
        kinds = [t for t in ("int8", "uint8", "int16", "uint16", "int32", "uint32") if P.min() >= np.iinfo(t).min and P.max() <= np.iinfo(t).max]
        P = P.astype(kinds[int(h.real("kind", gen=(0, 5), integer=True)) % len(kinds)])
    elif form == "many":
        n = h.choose("many", [40, 140, 600, 1300, 5001])
        P = P[np.arange(n) % len(P)]
    keep = np.array(P, copy=True)
    x = P
    if form == "read-only":
        x.flags.writeable = False
    elif form == "columns":
        x = np.asfortranarray(P)
    elif form == "reversed":
        x = np.array(P[::-1])[::-1]
    elif form == "list of arrays":
        x = list(P)
    elif form == "empty":
        out = f(np.zeros((0, k)))
        h.check("no results for no points", len(out) == 0)
        return
    out = f(x)
    first = np.array(out, copy=True)
    h.check("input unchanged", np.array_equal(np.array(x), keep) and np.array(x).dtype == keep.dtype)
    h.check("one result per point", len(out) == n)
    for i in (range(n) if n < 10 else sorted({0, 1, n // 2, n - 2, n - 1})):
        h.eq("row by row", out[i], f(np.array(keep[i], dtype=float)), tol=1e-6)
    if form == "many":
        h.check("equal points, equal results", np.allclose(out, out[np.arange(n) % min(n, 420)], rtol=1e-6, atol=1e-6, equal_nan=True))
    f(np.array(keep + 1.5))
    h.check("the same again", np.array_equal(f(x), first, equal_nan=True))
    h.check("result not overwritten", np.array_equal(out, first, equal_nan=True))


for _i, _p in enumerate(["first", "second"]):
    contract("C16", "forms of input, all functions (%s run)" % _p, mode="float", trials=3000, float_s=40)(forms)
