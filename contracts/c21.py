"""C21 Horizon, ground-area table, image border and view cone are geometrically right.

Horizon and cone are proved for any camera: getRay is an arbitrary function of the pixel (its own contracts are C01, C02, C07), the image has
any number of rows; numpy.nanargmin is represented by its contract. The area table is proved for small images with arbitrary rays."""
import numpy
from .common import contract, projection, positive_projection, orientation, lens, PROJECTIONS, SHORT, LENSES
from .c19 import front

R = 6371000.0


def ray_camera(h, w, t):
    """a camera whose getRay is an arbitrary function of the pixel"""
    np = h.np
    pos = h.vec("pos", 3, gen=(-20, 20))
    z = h.real("elevation", lo=0, lo_strict=True, gen=(0.5, 3000))

    class Cam(h.ct.Camera):
        def getRay(self, points, normed=False):
            points = np.asarray(points)
            d = np.array([h.uf("dir_%d" % i, points[..., 0] * 1.0, points[..., 1] * 1.0) for i in range(3)]).T
            if normed:
                d = d / np.sqrt(np.sum(d ** 2, axis=-1))[..., None]
            return np.array([pos[0], pos[1], z]), d
    cam = Cam(h.ct.RectilinearProjection(focallength_px=1000, image_width_px=w, image_height_px=t),
              h.ct.SpatialOrientation(elevation_m=z, pos_x_m=pos[0], pos_y_m=pos[1], tilt_deg=30))
    return cam, [pos[0], pos[1], z]


def at(h, cam, C, x, y, D):
    """the point at distance D along the viewing ray of a pixel"""
    d = cam.getRay(h.np.array([x, y]))[1]
    n = h.np.sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2])
    return [C[i] + D * d[i] / n for i in range(3)]


def horizon(z):
    return 2 * R ** 2 * (1 - R / (R + z))


@contract("C21", "distance to the horizon", tol=1e-5)
def distance(h):
    """the chord to the point where the line of sight touches the sphere: cos(angle) = R/(R+h), d^2 = 2 R^2 (1-cos(angle))"""
    z = h.real("z", lo=0, gen=(0.5, 5000), special=(0,))
    kind = h.choose("orientation", ["thr", "ypr"])
    cls = h.ct.SpatialOrientation if kind == "thr" else h.ct.SpatialOrientationYawPitchRoll
    cam = h.ct.Camera(h.ct.RectilinearProjection(focallength_px=1000, image=(200, 100)), cls(elevation_m=z, pos_x_m=h.real("x", gen=(-10, 10)), pos_y_m=3))
    d = cam.distanceToHorizon()
    h.check("not negative", d >= 0)
    h.eq("square", d * d, horizon(z))


class argmin(object):
    """numpy.nanargmin for a list of any length: gives the index of an arbitrary row, where it is the smallest"""
    def __init__(self, h):
        self.h, self.asked, self.given = h, [], []
        h.hook("numpy.nanargmin", self)

    def __call__(self, a, axis=None, **k):
        self.asked.append(a)
        self.given.append(self.h.real("row of the minimum %d" % len(self.given), lo=0, gen=(0, 100)))
        return self.given[-1]


for form in ("one", "list", "default"):
    @contract("C21", "horizon rows %s" % form, trials=100)
    def rows(h, form=form):
        """the horizon is the row whose point at the distance of the horizon is closest to sea level, for any number of rows"""
        np = h.np
        if h.sym:
            w, t = h.real("width", lo=2, gen=(2, 100)), h.real("height", lo=2, gen=(2, 100))
        else:
            w, t = [h.choose(n, [7, 12, 3]) for n in ("width", "height")]
        cam, C = ray_camera(h, w, t)
        xs = {"one": h.real("x", gen=(0, 10)), "list": [h.real("x%d" % i, gen=(0, 10)) for i in range(2)], "default": None}[form]
        want = {"one": [xs], "list": xs, "default": [0, w / 2, w]}[form]
        k = h.real("row", lo=0, gen=(0, 100))
        D = cam.distanceToHorizon()
        if h.sym:
            def arange(*a):
                if len(a) == 1 and h.same(a[0], t) or len(a) == 2 and h.same(a[0], 0) and h.same(a[1], t) or len(a) == 3 and h.same(a[0], 0) and h.same(a[1], t) and h.same(a[2], 1):
                    return h.axis("H", 0, 1, k)
                return None
            h.arange(arange)
            m = argmin(h)
            for x in want:
                # no other branch: the point is not behind the camera
                n = cam.getRay(np.array([x, k]))[1]
                h.assume(n[0] * n[0] + n[1] * n[1] + n[2] * n[2] > 0)
        got = cam.getImageHorizon() if form == "default" else cam.getImageHorizon(xs if form == "one" else np.array(xs) if h.choose("array", [False, True]) else xs)
        if form == "one":
            h.check("one point", len(got.shape) == 1)
            got = got[None]
        h.check("a point per column", got.shape[0] == len(want) and got.shape[1] == 2)
        for i, x in enumerate(want):
            h.eq("column", got[i, 0], x)
            if h.sym:
                h.check("searched once per column", len(m.asked) == len(want))
                h.check("searched over the rows", h.axis_name(m.asked[i], 0) == "H")
                v = h.row(m.asked[i], "H") if False else m.asked[i]
                z = at(h, cam, C, x, k, D)[2]
                a = v.data.flat[0]
                h.check("distance to sea level", (a >= 0) & (a * a == z * z))
                h.eq("row of the minimum", got[i, 1], m.given[i])
            else:
                zs = numpy.abs([at(h, cam, C, x, j, D)[2] for j in range(t)])
                y = got[i, 1]
                h.check("row of the image", y == int(y) and 0 <= y < t)
                h.check("closest to sea level", zs[int(y)] <= zs.min() * (1 + 1e-6) + 1e-6)


@contract("C21", "horizon of cameras", mode="float", trials=150)
def horizon_real(h):
    """real cameras of any pose, projection and lens (bounded: concrete runs)"""
    kind = h.choose("projection", PROJECTIONS)
    w, t = h.choose("size", [(40, 30), (20, 50), (33, 7)])
    f = h.real("f", gen=(10, 60))
    p = getattr(h.ct, kind)(focallength_px=f, image=(w, t))
    o, C, a = orientation(h, kind=h.choose("orientation", ["thr", "ypr"]))
    l, v = lens(h, h.choose("lens", LENSES))
    cam = h.ct.Camera(p, o, l)
    D = numpy.sqrt(horizon(C[2]))
    xs = [0, w / 2, w] if h.choose("default", [False, True]) else [h.real("x%d" % i, gen=(0, w)) for i in range(3)]
    got = cam.getImageHorizon(xs) if xs[0] != 0 else cam.getImageHorizon()
    for i, x in enumerate(xs):
        o, d = cam.getRay(numpy.array([[x, j] for j in range(t)], dtype=float))
        z = numpy.abs(o[..., 2] + D * d[..., 2] / numpy.linalg.norm(d, axis=-1))
        h.eq("column", got[i, 0], x)
        if numpy.isnan(z).all():
            h.check("no horizon", got[i, 1] != got[i, 1])
            continue
        y = got[i, 1]
        h.check("row of the image", y == int(y) and 0 <= y < t)
        h.check("closest to sea level", z[int(y)] <= numpy.nanmin(z) + 1e-6 * D)


# ---------------------------------------------------------------------------------------------------------------------
@contract("C21", "view cone")
def cone(h):
    """the corners at the given distance, in order around the image, and lines from the camera to each of them"""
    np = h.np
    w, t = h.real("width", lo=1, gen=(2, 100)), h.real("height", lo=1, gen=(2, 100))
    cam, C = ray_camera(h, w, t)
    default = h.choose("distance", ["default", "given"])
    D = 1 if default == "default" else h.pos("D", gen=(0.1, 50))
    corners = [(0, t), (w, t), (w, 0), (0, 0)]
    P = []
    for x, y in corners:
        n = cam.getRay(np.array([x, y]))[1]
        h.assume(n[0] * n[0] + n[1] * n[1] + n[2] * n[2] > 0)
    got = cam.getCameraCone() if default == "default" else cam.getCameraCone(D=D)
    want = [at(h, cam, C, x, y, D) for x, y in corners]
    h.check("points in space", len(got.shape) == 2 and got.shape[1] == 3)
    lines = split(h, got)
    seen = set()
    h.check("border of the cone", len(lines) > 0 and len(lines[0]) == 5)
    for p, q in zip(lines[0], want + want[:1]):
        h.eq("corner", p, np.array(q))
    spokes = [l for l in lines[1:] if len(l) > 1]
    for l in spokes:
        h.check("line", len(l) == 2)
        h.eq("starts at the camera", l[0], np.array(C))
    for i, q in enumerate(want):
        hit = [l for l in spokes if close(h, l[1], q)]
        h.check("every corner is joined to the camera", len(hit) > 0)
    for l in spokes:
        h.check("only corners are joined to the camera", any(close(h, l[1], q) for q in want))


def close(h, a, b):
    return all(h.same(a[i], b[i]) for i in range(3)) if h.sym else numpy.allclose(numpy.array(a, dtype=float), numpy.array(b, dtype=float), rtol=1e-6, atol=1e-6)


def split(h, points):
    """polylines separated by undefined points"""
    out, cur = [], []
    for i in range(points.shape[0]):
        if h.isnan(points[i]):
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(points[i])
    if cur:
        out.append(cur)
    return out


@contract("C21", "view cone of cameras", mode="float", trials=100)
def cone_real(h):
    """real cameras of any pose and projection: the corners project to the image corners (bounded: concrete runs)"""
    kind = h.choose("projection", PROJECTIONS)
    w, t = h.choose("size", [(400, 300), (200, 500), (33, 7)])
    f = h.real("f", gen=(100, 600))
    o, C, a = orientation(h, kind=h.choose("orientation", ["thr", "ypr"]))
    cam = h.ct.Camera(getattr(h.ct, kind)(focallength_px=f, image=(w, t)), o)
    D = h.pos("D", gen=(0.1, 50))
    lines = split(h, cam.getCameraCone(D=D))
    for (x, y), p in zip([(0, t), (w, t), (w, 0), (0, 0), (0, t)], lines[0]):
        h.eq("distance", numpy.linalg.norm(p - numpy.array(C)), D)
        if f * numpy.pi > w and (kind != "EquirectangularProjection" or f * numpy.pi > t):
            h.eq("corner pixel", cam.imageFromSpace(p), numpy.array([x, y]), scale=1e3)


# ---------------------------------------------------------------------------------------------------------------------
@contract("C21", "border", mode="float", trials=420)
def border(h):
    """the border starts at the upper left corner, walks along the left, lower, right and upper edge with the given step, through all corners"""
    w, t = h.choose("width", [1, 2, 5, 7, 10]), h.choose("height", [1, 2, 4, 9])
    res = h.choose("resolution", [1, 2, 3, 0.5, 0.7, 20, None])
    kind = h.choose("projection", PROJECTIONS)
    cam = h.ct.Camera(getattr(h.ct, kind)(focallength_px=h.real("f", lo=1, gen=(10, 100)), image_width_px=w, image_height_px=t,
                                         center_x_px=h.real("cx", gen=(0, 10)), center_y_px=h.real("cy", gen=(0, 10))))
    B = cam.getImageBorder() if res is None else cam.getImageBorder(resolution=res)
    res = 1 if res is None else res
    h.check("pixels", len(B.shape) == 2 and B.shape[1] == 2)
    B = [(float(p[0]), float(p[1])) for p in B]
    pos = [along(p, w, t) for p in B]
    h.check("on the edges of the image", all(s is not None for s in pos))
    h.check("starts in the corner", B[0] == (0, 0))
    if any(s is None for s in pos):
        return
    h.check("in order", all(b >= a - 1e-9 for a, b in zip(pos, pos[1:])))
    h.check("not farther than the resolution", all(b - a <= res + 1e-9 for a, b in zip(pos, pos[1:] + [2 * (w + t)])))
    for c in (0, t, t + w, 2 * t + w):
        h.check("passes the corner", min(abs(s - c) for s in pos) < 1e-9)
    h.check("no more points than needed", len(B) <= sum(int(numpy.ceil(e / res - 1e-9)) + 1 for e in (w, t, w, t)))


def along(p, w, t, eps=1e-9):
    """position along the border"""
    x, y = p
    if not (-eps <= x <= w + eps and -eps <= y <= t + eps):
        return None
    if abs(x) < eps and y < t - eps:
        return y
    if abs(y - t) < eps and x < w - eps:
        return t + x
    if abs(x - w) < eps and y > eps:
        return t + w + (t - y)
    if abs(y) < eps:
        return 2 * t + w + (w - x)
    return None


# ---------------------------------------------------------------------------------------------------------------------
def ground(h, w, t):
    """a camera whose view of the ground is an arbitrary function of the pixel; undefined for pixels seeing no ground"""
    np = h.np
    sky = h.choose("corners without ground", [(), ((-0.5, -0.5),), ((0.5, 0.5), (-0.5, 0.5)), ((w - 0.5, t - 0.5),)])
    undef = [tuple(float(v) for v in p) for p in sky]

    class Cam(h.ct.Camera):
        def spaceFromImage(self, points, X=None, Y=None, Z=0, D=None, mesh=None):
            h.check("on the ground", X is None and Y is None and D is None and mesh is None and not h.is_symbolic(Z) and Z == 0)
            points = np.asarray(points)
            if len(points.shape) == 1:
                return np.array(self.one(points))
            if len(points.shape) == 3:
                return np.array([[self.one(q) for q in p] for p in points])
            return np.array([self.one(p) for p in points])

        def one(self, p):
            x, y = float(p[0]), float(p[1])
            if (x, y) in undef:
                return [numpy.nan] * 3
            return [h.uf("gx", x, y), h.uf("gy", x, y), 0.0]
    cam = Cam(h.ct.RectilinearProjection(focallength_px=1000, image_width_px=w, image_height_px=t))
    return cam, undef


def quad(P):
    """the area inside the four corners (shoelace formula), times two, with sign"""
    return sum(P[i][0] * P[(i + 1) % 4][1] - P[(i + 1) % 4][0] * P[i][1] for i in range(4))


for whole in (False, True):
    @contract("C21", "area table %s" % ("image" if whole else "column"), trials=100)
    def table(h, whole=whole):
        """each pixel of the table holds the area of the ground quadrilateral of its corners, or the fill value if it does not see the ground"""
        w, t = h.choose("size", [(2, 3), (3, 2), (4, 1), (1, 3)] if whole else [(2, 3), (3, 4), (5, 1)])
        cam, undef = ground(h, w, t)
        fill = h.choose("fill", ["default", "given"])
        v = 0 if fill == "default" else h.real("fill value", gen=(-5, 5))
        kw = {} if fill == "default" else {"undef_value": v}
        A = cam.generateLUT(whole_image=True, **kw) if whole else cam.generateLUT(**kw)
        h.check("shape", tuple(A.shape) == ((t, w) if whole else (t,)))
        for y in range(t):
            for x in range(w) if whole else [w / 2]:
                a = A[y, x] if whole else A[y]
                C = [(x + i, y + j) for i, j in ((-0.5, -0.5), (0.5, -0.5), (0.5, 0.5), (-0.5, 0.5))]
                if any(c in undef for c in C):
                    h.eq("fill value", a, v)
                else:
                    s = quad([cam.one(c) for c in C])
                    h.check("not negative", a >= 0)
                    h.eq("area", 4 * a * a, s * s)


@contract("C21", "area table of cameras", mode="float", trials=60)
def table_real(h):
    """real cameras: area of the pixel on the ground by rays independent of the code, fill value above the horizon (bounded: concrete runs)"""
    kind = h.choose("projection", PROJECTIONS)
    w, t = h.choose("size", [(8, 5), (4, 11)])
    f = h.real("f", gen=(5, 30))
    o, C, a = orientation(h, kind=h.choose("orientation", ["thr", "ypr"]))
    cam = h.ct.Camera(getattr(h.ct, kind)(focallength_px=f, image=(w, t)), o)
    A = cam.generateLUT(undef_value=-7, whole_image=True)
    B = cam.generateLUT(undef_value=-7)
    h.check("shape", A.shape == (t, w) and B.shape == (t,))

    def ground_point(x, y):
        o, d = cam.getRay(numpy.array([x, y], dtype=float))
        o, d = numpy.ravel(o), numpy.ravel(d)
        k = -o[2] / d[2]
        return o + k * d if k > 0 else None
    for y in range(t):
        for x in list(range(w)) + [None]:
            a = B[y] if x is None else A[y, x]
            P = [ground_point((w / 2 if x is None else x) + i, y + j) for i, j in ((-0.5, -0.5), (0.5, -0.5), (0.5, 0.5), (-0.5, 0.5))]
            if any(p is None for p in P):
                h.check("fill value", a == -7)
            else:
                s = abs(quad(P)) / 2
                if s < 1e8:
                    h.eq("area", a, s, scale=1 + max(numpy.abs(P).ravel()) ** 2)


for whole in (False, True):
    @contract("C21", "area table %s of any size" % ("image" if whole else "column"), trials=50)
    def table_any(h, whole=whole):
        """the pixel in any row and column of an image of any size"""
        np = h.np
        if h.sym:
            w, t = h.real("width", lo=2, gen=(2, 100)), h.real("height", lo=2, gen=(2, 100))
        else:
            w, t = [h.choose(n, [7, 12, 3]) for n in ("width", "height")]
        kx, ky = [h.real(n, lo=0, integer=True, gen=(0, 2.9)) for n in ("column", "row")]

        class Cam(h.ct.Camera):
            def spaceFromImage(self, points, X=None, Y=None, Z=0, D=None, mesh=None):
                h.check("on the ground", X is None and Y is None and D is None and mesh is None and not h.is_symbolic(Z) and Z == 0)
                points = np.asarray(points)
                x, y = points[..., 0] * 1.0, points[..., 1] * 1.0
                return np.array([h.uf("gx", x, y), h.uf("gy", x, y), 0 * x]).T
        cam = Cam(h.ct.RectilinearProjection(focallength_px=1000, image_width_px=w, image_height_px=t))
        if h.sym:
            def arange(*a):
                if len(a) == 2 and h.same(a[0], 0):
                    a = a[1:]
                if len(a) == 1:
                    for n, v, k in (("W", w, kx), ("H", t, ky)):
                        if h.same(a[0], v):
                            return h.axis(n, 0, 1, k)
                return None
            h.arange(arange)
            h.axis_length("W", w)
            h.axis_length("H", t)
        A = cam.generateLUT(whole_image=True) if whole else cam.generateLUT()
        if h.sym:
            h.check("shape", h.axis_name(A, 0) == "H" and (not whole or h.axis_name(A, 1) == "W") and len(A.shape) == (2 if whole else 1))
            a = A.data.flat[0]
            x, y = kx if whole else w / 2, ky
        else:
            h.check("shape", A.shape == ((t, w) if whole else (t,)))
            x, y = int(kx) if whole else w / 2, int(ky)
            a = A[y, x] if whole else A[y]
        s = quad([cam.spaceFromImage(np.array([x + i, y + j])) for i, j in ((-0.5, -0.5), (0.5, -0.5), (0.5, 0.5), (-0.5, 0.5))])
        h.check("not negative", a >= 0)
        h.eq("area", 4 * a * a, s * s)
