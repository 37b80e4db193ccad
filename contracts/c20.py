"""C20 Rotating or scaling the scene and grouping cameras keep images consistent."""
from .common import contract, projection, positive_projection, orientation, lens, PROJECTIONS, SHORT, LENSES

ORI = {"thr": ["tilt_deg", "roll_deg", "heading_deg"], "ypr": ["yaw_deg", "pitch_deg", "roll_deg"]}
POS = ["pos_x_m", "pos_y_m", "elevation_m"]


def turned(h, P, delta):
    """points turned clockwise (as the heading) around the vertical axis"""
    np = h.np
    c, s = np.cos(delta * np.pi / 180), np.sin(delta * np.pi / 180)
    return np.array([c * P[..., 0] + s * P[..., 1], -s * P[..., 0] + c * P[..., 1], P[..., 2]]).T


def one(h, kind="RectilinearProjection", okind="thr", ln="none", tag=""):
    p, fx, fy, cx, cy = positive_projection(h, kind, tag)
    o, t, a = orientation(h, tag, kind=okind)
    l, v = lens(h, ln, tag)
    return h.ct.Camera(p, o, l), t, a


for okind in ("thr", "ypr"):
    @contract("C20", "rotating keeps camera coordinates %s" % okind)
    def coords(h, okind=okind):
        """the rotated point has the same camera coordinates in the rotated camera; elevation, tilt and roll are untouched"""
        cam, t, a = one(h, okind=okind)
        keep = {n: getattr(cam, n) for n in ("elevation_m",) + (("tilt_deg", "roll_deg") if okind == "thr" else ("pitch_deg", "roll_deg"))}
        P = h.rows("P", 3, h.choose("batch", [None, "N"]), gen=(-50, 50))
        D = h.rows("D", 3, None, gen=(-50, 50))
        delta = h.angle("delta", gen=(-400, 400))
        before, ray = cam.orientation.cameraFromSpace(P), cam.orientation.spaceFromCamera(D, direction=True)
        cam.rotateSpace(delta)
        h.eq("camera coordinates", cam.orientation.cameraFromSpace(turned(h, P, delta)), before)
        h.eq("directions are turned", cam.orientation.spaceFromCamera(D, direction=True), turned(h, ray, delta))
        for n, v in keep.items():
            h.eq("untouched parameter", getattr(cam, n), v)

    @contract("C20", "rotations add up %s" % okind)
    def add(h, okind=okind):
        """two rotations are one by the sum of the angles, the opposite rotation undoes a rotation"""
        a, b = h.angle("a", gen=(-200, 200)), h.angle("b", gen=(-200, 200))
        what = h.choose("what", ["sum", "undo"])
        cam1, t, an = one(h, okind=okind)
        P = h.vec("P", 3, gen=(-50, 50))
        if what == "undo":
            before = cam1.orientation.cameraFromSpace(P)
            pos = [getattr(cam1, n) for n in POS]
            cam1.rotateSpace(a)
            cam1.rotateSpace(-a)
            h.eq("camera coordinates", cam1.orientation.cameraFromSpace(P), before)
            for n, v in zip(POS, pos):
                h.eq("position", getattr(cam1, n), v)
            return
        cls = h.ct.SpatialOrientation if okind == "thr" else h.ct.SpatialOrientationYawPitchRoll
        kw = dict(zip(POS, t), **dict(zip(ORI[okind], an)))
        cam2 = h.ct.Camera(h.ct.RectilinearProjection(focallength_px=1000, image=(200, 100)), cls(**kw))
        cam1.rotateSpace(a)
        cam1.rotateSpace(b)
        cam2.rotateSpace(a + b)
        h.eq("camera coordinates", cam1.orientation.cameraFromSpace(P), cam2.orientation.cameraFromSpace(P))
        for n in POS:
            h.eq("position", getattr(cam1, n), getattr(cam2, n))

for kind in PROJECTIONS:
    @contract("C20", "rotating keeps images %s" % SHORT[kind], trials=150, mode="both" if kind == "RectilinearProjection" else "float")
    def images(h, kind=kind):
        """the image of the rotated point in the rotated camera is the image of the point; also through lenses"""
        cam, t, a = one(h, kind, h.choose("orientation", ["thr", "ypr"]), "none" if h.sym else h.choose("lens", LENSES))
        P = h.rows("P", 3, h.choose("batch", [None, "N"]), gen=(-50, 50))
        delta = h.angle("delta", gen=(-400, 400))
        before = cam.imageFromSpace(P)
        away(h, cam, P)
        cam.rotateSpace(delta)
        same_or_nan(h, "image", cam.imageFromSpace(turned(h, P, delta)), before)


def abstract_camera(h, okind):
    """a real orientation with a projection and a lens whose images are arbitrary functions"""
    np, ct = h.np, h.ct

    class P(ct.RectilinearProjection):
        def imageFromCamera(self, points, hide_backpoints=True):
            points = np.asarray(points)
            k = 1.0 if hide_backpoints else 2.0
            return np.array([h.uf("image_%d" % i, points[..., 0], points[..., 1], points[..., 2], k) for i in range(2)]).T

    class L(ct.NoDistortion):
        def distortedFromImage(self, points):
            points = np.asarray(points)
            return np.array([h.uf("lens_%d" % i, points[..., 0], points[..., 1]) for i in range(2)]).T
    o, t, a = orientation(h, "", kind=okind)
    return ct.Camera(P(focallength_px=1000, image=(200, 100)), o, L())


for okind in ("thr", "ypr"):
    @contract("C20", "rotating keeps images, any projection and lens, %s" % okind)
    def abstract_images(h, okind=okind):
        """the image of the rotated point in the rotated camera is the image of the point, for every kind of projection and lens"""
        cam = abstract_camera(h, okind)
        P = h.rows("P", 3, h.choose("batch", [None, "N"]), gen=(-50, 50))
        delta = h.angle("delta", gen=(-400, 400))
        hide = h.choose("hide", [True, False])
        before = cam.imageFromSpace(P, hide_backpoints=hide)
        cam.rotateSpace(delta)
        h.eq("image", cam.imageFromSpace(turned(h, P, delta), hide_backpoints=hide), before, tol=1e-5)


def away(h, cam, P):
    """points within 1e-3 of the plane through the camera, or at the edges of the map, are left to the proof"""
    if not h.sym:
        q = cam.orientation.cameraFromSpace(P)
        h.assume(h.np.min(h.np.abs(q)) > 1e-1)


def same_or_nan(h, label, a, b):
    if h.sym:
        if h.isnan(b if b.ndim == 1 else h.row(b, "N")):
            h.allnan(label + " undefined as before", a)
        else:
            h.eq(label, a, b)
        return
    import numpy
    a, b = numpy.asarray(a), numpy.asarray(b)
    h.check(label + " undefined as before", (numpy.isnan(a) == numpy.isnan(b)).all())
    ok = ~numpy.isnan(a) & ~numpy.isnan(b)
    h.eq(label, a[ok], b[ok], scale=1e4)


# ---------------------------------------------------------------------------------------------------------------------
# groups
# ---------------------------------------------------------------------------------------------------------------------
class Spec(object):
    """parts of a group: a single (shared) one, one per camera, or none; the list of expected parts per camera"""
    def __init__(self, h, n):
        self.h = h
        ct = h.ct
        self.P = [self.proj(i) for i in range(n)]
        self.O = [self.ori(i) for i in range(n)]
        self.L = [self.lens(i) for i in range(n)]

    def proj(self, i):
        return lambda: getattr(self.h.ct, PROJECTIONS[i % 3])(focallength_x_px=self.v("fx", i), focallength_y_px=self.v("fy", i),
                                                             center_x_px=self.v("cx", i), center_y_px=self.v("cy", i), image_width_px=400, image_height_px=300)

    def ori(self, i):
        if i == 1:
            return lambda: self.h.ct.SpatialOrientationYawPitchRoll(elevation_m=self.v("z", i), pos_x_m=self.v("x", i), pos_y_m=self.v("y", i), yaw_deg=30, pitch_deg=-20, roll_deg=5)
        return lambda: self.h.ct.SpatialOrientation(elevation_m=self.v("z", i), pos_x_m=self.v("x", i), pos_y_m=self.v("y", i), tilt_deg=60, roll_deg=3 + i, heading_deg=90 * i + 1)

    def lens(self, i):
        if i == 1:
            return lambda: self.h.ct.ABCDistortion(a=self.v("a", i), b=0, c=0)
        return lambda: self.h.ct.BrownLensDistortion(k1=self.v("k1", i), k2=0, k3=0)

    GEN = {"f": (200, 900), "c": (100, 300), "z": (1, 20), "x": (-20, 20), "y": (-20, 20), "a": (0.01, 0.02), "k": (0.01, 0.05)}

    def v(self, n, i):
        g = self.GEN[n[0]]
        if n[0] in "ak":
            self.h.ideal_inverse()
        return self.h.real("%s%d" % (n, i), lo=g[0], hi=g[1], gen=g)


PATTERN = {"single": lambda i, n: 0, "each": lambda i, n: i, "list of one": lambda i, n: 0, "none": lambda i, n: None}


def give(kind, parts):
    """(argument of the group, its objects)"""
    if kind == "none":
        return None, []
    if kind == "single":
        o = parts[0]()
        return o, [o]
    if kind == "list of one":
        o = [parts[0]()]
        return o, o
    if kind == "tuple":
        o = tuple(p() for p in parts)
        return o, list(o)
    o = [p() for p in parts]
    return o, o


def group(h, n, kp, ko, kl, used=False):
    s = Spec(h, n)
    p, P = give(kp, s.P)
    o, O = give(ko, s.O)
    l, L = give(kl, s.L)
    if used:
        # the lenses come from cameras with another projection
        for x in L:
            h.ct.Camera(h.ct.RectilinearProjection(focallength_px=1234, image=(123, 45)), None, x)
    return h.ct.CameraGroup(p, o, l), s, P, O, L


def expect(h, s, kinds, i):
    """camera i, built individually"""
    parts = []
    for k, fac in zip(kinds, (s.P, s.O, s.L)):
        parts.append(None if k == "none" else fac[i if k in ("each", "tuple") else 0]())
    return h.ct.Camera(*parts)


KINDS = [("each", "each", "each"), ("single", "each", "none"), ("single", "each", "single"), ("each", "each", "single"), ("each", "single", "none"),
         ("single", "single", "each"), ("list of one", "each", "list of one"), ("each", "list of one", "each"), ("tuple", "tuple", "none"), ("single", "tuple", "list of one")]


def same_number(h, a, v):
    return not h.is_symbolic(a) and a == v


def compare(h, a, b, P):
    """two cameras behave the same"""
    names = sorted(b.parameters.parameters)
    h.check("parameters", sorted(a.parameters.parameters) == names)
    for n in names:
        x, y = getattr(a, n), getattr(b, n)
        if y is None:
            h.check("parameter", x is None)
        else:
            h.eq("parameter", x, y)
    h.check("type", type(a.projection) is type(b.projection) and type(a.orientation) is type(b.orientation) and type(a.lens) is type(b.lens))
    if P is not None:
        same_or_nan(h, "image", a.imageFromSpace(P), b.imageFromSpace(P))


for kinds in KINDS:
    for n in (1, 2, 3):
        if n == 1 and "each" not in kinds[:1]:
            continue

        @contract("C20", "group of %d: %s" % (n, ", ".join(kinds)), trials=60)
        def pairing(h, kinds=kinds, n=n):
            """camera i of the group is the camera built from the i-th (or shared) projection, orientation and lens"""
            g, s, P, O, L = group(h, n, *kinds)
            h.check("number of cameras", len(g) == n)
            h.check("iteration", len(list(g)) == n)
            i = h.choose("camera", list(range(n)))
            X = None
            if not h.sym or (n == 2 and kinds[0] == "single" and kinds[2] == "none"):
                X = h.vec("X", 3, gen=(-30, 30))
            compare(h, g[i], expect(h, s, kinds, i), X)
            if X is not None:
                away(h, g[i], X)
                want = [expect(h, s, kinds, j) for j in ([i] if h.sym else range(n))]
                got = g.imagesFromSpace(X)
                h.check("an image per camera", len(got) == n)
                for w, j in zip(want, [i] if h.sym else range(n)):
                    same_or_nan(h, "images from space", got[j], w.imageFromSpace(X))


def parameters(h, kinds, n):
    """a parameter of the group addresses the parameter of its camera (all cameras for a shared part), and no other"""
    used = h.choose("lenses used before", [False, True]) if kinds[2] != "none" else False
    g, s, P, O, L = group(h, n, *kinds, used=used)
    single = [expect(h, s, kinds, i) for i in range(n)]
    part = h.choose("part", [0, 1, 2])
    objs = (P, O, L)[part]
    if not objs:
        return h.check("nothing to address", True)
    i = h.choose("camera", list(range(len(objs))))
    names = sorted((s.P, s.O, s.L)[part][i]().parameters.parameters)
    if used:
        h.check("no parameters of other projections", all(getattr(g, x) != 1234 for x in g.parameters.parameters if x.endswith("focallength_x_px")) if not h.sym else
                all(not same_number(h, getattr(g, x), 1234) for x in g.parameters.parameters if x.endswith("focallength_x_px")))
    name = names[h.choose("parameter", list(range(3))) % len(names)]
    full = name if len(objs) == 1 else "C%d_%s" % (i, name)
    h.eq("reads the parameter of its camera", getattr(g, full), getattr(single[i], name))
    if name in ("k1", "k2", "k3", "a", "b", "c"):
        h.ideal_inverse()
        v = h.real("value", lo=0.01, hi=0.02, gen=(0.01, 0.02))
    else:
        v = h.real("value", lo=100, hi=200, gen=(100, 200))
    via = h.choose("via", ["attribute", "fit"])
    if via == "attribute":
        setattr(g, full, v)
    else:
        g.parameters.set_fit_parameters([full], [v])
    for j in range(n):
        if len(objs) == 1 or i == j:
            setattr(single[j], name, v)
        compare(h, g[j], single[j], None)
    h.eq("reads the new value", getattr(g, full), v)
    if not h.sym:
        k = h.choose("seen by", list(range(n)))
        X = h.vec("X", 3, gen=(-30, 30))
        away(h, single[k], X)
        same_or_nan(h, "image", g[k].imageFromSpace(X), single[k].imageFromSpace(X))


for kinds in KINDS[:6]:
    for n in (2, 3):
        @contract("C20", "parameters of a group of %d: %s" % (n, ", ".join(kinds)), trials=60)
        def of_group(h, kinds=kinds, n=n):
            """a parameter of the group addresses the parameter of its camera (all cameras for a shared part), and no other"""
            parameters(h, kinds, n)


SHARE = [[0], [0, 1], [0, 0], [0, 1, 2], [0, 0, 1], [0, 1, 0], [0, 0, 0], [0, 1, 1]]


@contract("C20", "scaling a group", trials=200)
def scaling(h):
    """every camera position is scaled exactly once, everything else is untouched"""
    share = h.choose("sharing", SHARE)
    how = h.choose("given as", ["list", "projections"])
    s = Spec(h, 3)
    O = [f() for f in s.O]
    if how == "list":
        g = h.ct.CameraGroup(s.P[0](), [O[i] for i in share])
    else:
        share = [0] * len(share)
        g = h.ct.CameraGroup([s.P[i]() for i in range(len(share))], O[0])
    f = h.real("factor", lo=0, lo_strict=True, gen=(0.1, 10))
    times = h.choose("times", [1, 2])
    names = [sorted(c.parameters.parameters) for c in g]
    before = [{n: getattr(c, n) for n in ns} for c, ns in zip(g, names)]
    i = h.choose("camera", list(range(len(share))))
    X = h.vec("X", 3, gen=(-30, 30))
    q = g[i].orientation.cameraFromSpace(X)
    g.scaleSpace(f)
    F = f
    if times == 2:
        f2 = h.real("second factor", lo=0, lo_strict=True, gen=(0.1, 10))
        g.scaleSpace(f2)
        F = f * f2
    for c, b in zip(g, before):
        for n, v in b.items():
            if v is None:
                h.check("untouched", getattr(c, n) is None)
            else:
                h.eq("position" if n in POS else "untouched", getattr(c, n), v * F if n in POS else v)
    h.eq("scene scaled around the camera", g[i].orientation.cameraFromSpace(X * F), q * F)


@contract("C20", "shared lens", trials=100)
def shared_lens(h):
    """a lens shared by cameras with different projections distorts the image of each camera around its own centre, in any order of use"""
    h.ideal_inverse()
    ct = h.ct
    kind = h.choose("lens", ["brown", "abc"])
    k = h.real("k", lo=0.01, hi=0.02, gen=(0.01, 0.02))
    make = (lambda: ct.BrownLensDistortion(k1=k, k2=0, k3=0)) if kind == "brown" else (lambda: ct.ABCDistortion(a=k, b=0, c=0))
    par = [[h.real("%s%d" % (n, i), lo=lo, hi=hi, gen=(lo, hi)) for n, lo, hi in (("f", 200, 900), ("cx", 100, 300), ("cy", 100, 300))] for i in (0, 1)]
    P = [lambda i=i: ct.RectilinearProjection(focallength_px=par[i][0], center_x_px=par[i][1], center_y_px=par[i][2], image_width_px=400, image_height_px=300) for i in (0, 1)]
    g = ct.CameraGroup([p() for p in P], [ct.SpatialOrientation(elevation_m=5, tilt_deg=0) for i in (0, 1)], make())
    q = h.vec("pixel", 2, gen=(0, 400))
    for i in h.choose("order", [(0, 1), (1, 0), (0, 0), (1, 1, 0)]):
        single = ct.Camera(P[i](), ct.SpatialOrientation(elevation_m=5, tilt_deg=0), make())
        a, b = g[i].getRay(q), single.getRay(q)
        h.eq("ray", a[1], b[1])
        h.eq("offset", a[0], b[0])
