"""C14 Line geometry and stereo triangulation are exact.

Two lines that are not parallel: p2 = p1 + a v1 - b v2 + k (v1 x v2) with unique a, b, k, so these are the parameters of the proofs: the feet
of the common perpendicular are p1 + a v1 and p1 + a v1 + k (v1 x v2)."""
from .common import contract, projection, orientation, lens, PROJECTIONS, LENSES
from .c13 import cross, dot


def add(*vs):
    return [sum(x) for x in zip(*vs)]


def mul(k, v):
    return [k * x for x in v]


def norm(h, v):
    s = 0
    for x in v:
        s = s + x * x
    return h.np.sqrt(s)


def angle(h, v1, v2, least=1e-3):
    """the lines are at an angle of at least 1e-8 (closer ones count as parallel)"""
    n = cross(v1, v2)
    h.assume(dot(n, n) > 1e-16 * dot(v1, v1) * dot(v2, v2))
    h.assume(dot(v1, v1) > 1e-16)
    h.assume(dot(v2, v2) > 1e-16)
    h.assume(dot(n, n) * dot(v1, v1) * dot(v2, v2) > 0)  # implied
    h.guard(dot(n, n) > least)


def skew(h):
    np = h.np
    p1 = h.vec("p", 3, gen=(-5, 5))
    v1, v2 = h.vec("v1", 3, gen=(-2, 2)), h.vec("v2", 3, gen=(-2, 2))
    n = cross(v1, v2)
    nn, l1, l2 = dot(n, n), dot(v1, v1), dot(v2, v2)
    h.assume(nn > 1e-16 * l1 * l2)  # an angle of at least 1e-8: closer lines count as parallel
    h.assume(l1 > 1e-16)  # and shorter direction vectors as zero
    h.assume(l2 > 1e-16)
    h.guard(nn > 1e-3)
    a, b = h.real("a", gen=(-5, 5)), h.real("b", gen=(-5, 5))
    k = h.real("k", gen=(-2, 2), special=(0,))
    p2 = add(p1, mul(a, v1), mul(-b, v2), mul(k, n))
    return p1, v1, p2, v2, add(p1, mul(a, v1), mul(k / 2, n)), k, nn, l1, l2


@contract("C14", "intersection", tol=1e-6)
def intersection(h):
    """midpoint of the common perpendicular"""
    np = h.np
    p1, v1, p2, v2, mid, k, nn, l1, l2 = skew(h)
    h.eq("midpoint", h.ct.ray.intersectionOfTwoLines(np.array(p1), np.array(v1), np.array(p2), np.array(v2)), np.array(mid))


@contract("C14", "narrow angles", mode="float")
def narrow(h):
    """bounded: lines at small angles, alone and in batches (below 1e-8 they count as parallel)"""
    np = h.np
    p1, v1, e = [np.array(h.vec(x, 3, gen=(-2, 2))) for x in ("p", "v", "e")]
    w = np.cross(v1, e)
    h.guard(v1.dot(v1) > 1e-2 and w.dot(w) > 1e-2)
    w = w / np.sqrt(w.dot(w))
    t = h.real("angle", gen=(2e-6, 0.1))
    v2 = v1 * h.real("c", gen=(0.3, 2)) * h.choose("direction", [1, -1])
    v2 = v2 + t * np.sqrt(v2.dot(v2)) * w
    a, b, k = h.real("a", gen=(-3, 3)), h.real("b", gen=(-3, 3)), h.real("k", gen=(-2, 2), special=(0,))
    n = np.cross(v1, w)
    p2 = p1 + a * v1 - b * v2 + k * n
    tol = max(1e-6, 1e-14 / t ** 2)
    batch = h.choose("batch", [False, True])
    V1, V2 = (np.array([v1] * 3), np.array([v2] * 3)) if batch else (v1, v2)
    got, d = h.ct.ray.intersectionOfTwoLines(p1, V1, p2, V2), h.ct.ray.distanceOfTwoLines(p1, V1, p2, V2)
    h.eq("midpoint", got, np.array([p1 + a * v1 + k / 2 * n] * 3) if batch else p1 + a * v1 + k / 2 * n, tol=tol, scale=10)
    want = abs(k) * np.sqrt(n.dot(n))
    h.eq("distance", d, np.array([want] * 3) if batch else want, tol=1e-6 + 1e-14 / t, scale=10)


def parallel(h):
    p1, v1 = h.vec("p", 3, gen=(-5, 5)), h.vec("v1", 3, gen=(-2, 2))
    h.assume(dot(v1, v1) > 1e-16)
    h.guard(dot(v1, v1) > 1e-3)
    c = h.real("c", gen=(-3, 3), special=(1, 2, -1))
    h.assume(c != 0)
    h.guard(abs(c) > 1e-2)
    e = h.vec("e", 3, gen=(-2, 2))
    w = cross(v1, e)
    p2 = add(p1, mul(h.real("a", gen=(-5, 5)), v1), w)
    return p1, v1, p2, mul(c, v1), w


@contract("C14", "intersection of parallel lines", tol=1e-6)
def intersection_parallel(h):
    """NaN"""
    np = h.np
    p1, v1, p2, v2, w = parallel(h)
    h.allnan("parallel", h.ct.ray.intersectionOfTwoLines(np.array(p1), np.array(v1), np.array(p2), np.array(v2)))


@contract("C14", "intersections of batches", tol=1e-6)
def intersection_batch(h):
    """each pair its own point; pairs of parallel rays do not disturb the others (which rows are parallel: bounded to two rows)"""
    np = h.np
    p1, p2 = h.np.array(h.vec("p", 3, gen=(-5, 5))), h.np.array(h.vec("q", 3, gen=(-5, 5)))
    f = h.ct.ray.intersectionOfTwoLines
    if h.choose("parallel rows", [False, True]):
        V1, V2 = [h.vec("v", 3, gen=(-2, 2)) for i in range(2)], [h.vec("w", 3, gen=(-2, 2)) for i in range(2)]
        i = h.choose("row", [0, 1])
        V2[i] = mul(2, V1[i])
        h.assume(dot(V1[i], V1[i]) > 0)
        angle(h, V1[1 - i], V2[1 - i])
        h.guard(dot(V1[i], V1[i]) > 1e-3)
        got = f(p1, np.array(V1), p2, np.array(V2))
        h.eq("shape", tuple(got.shape), (2, 3))
        h.allnan("the parallel pair", got[i])
        h.eq("the other pair", got[1 - i], f(p1, np.array(V1[1 - i]), p2, np.array(V2[1 - i])))
        return
    V1, V2 = h.rows("V", 3, "N", gen=(-2, 2)), h.rows("W", 3, "N", gen=(-2, 2))
    v1, v2 = h.row(V1, "N"), h.row(V2, "N")
    angle(h, v1, v2)
    got = f(p1, V1, p2, V2)
    h.eq("each pair", h.row(got, "N"), f(p1, v1, p2, v2))


@contract("C14", "distance", tol=1e-6)
def distance(h):
    """length of the common perpendicular; symmetric (lines at an angle of at least 1e-8, below that they count as parallel)"""
    np = h.np
    p1, v1, p2, v2, mid, k, nn, l1, l2 = skew(h)
    d = h.ct.ray.distanceOfTwoLines(np.array(p1), np.array(v1), np.array(p2), np.array(v2))
    h.eq("distance", d, abs(k) * norm(h, cross(v1, v2)))


@contract("C14", "distance of parallel lines", tol=1e-6)
def distance_parallel(h):
    """the distance between the lines"""
    np = h.np
    p1, v1, p2, v2, w = parallel(h)
    d = h.ct.ray.distanceOfTwoLines(np.array(p1), np.array(v1), np.array(p2), np.array(v2))
    h.eq("distance", d * d, dot(w, w), scale=1)
    h.check("not negative", d >= 0)


@contract("C14", "distances of batches", tol=1e-6)
def distance_batch(h):
    """each pair its own distance (bounded: up to two pairs)"""
    np = h.np
    p1, p2 = h.np.array(h.vec("p", 3, gen=(-5, 5))), h.np.array(h.vec("q", 3, gen=(-5, 5)))
    n = h.choose("pairs", [1, 2])
    V1, V2 = np.array([h.vec("v%d" % i, 3, gen=(-2, 2)) for i in range(n)]), np.array([h.vec("w%d" % i, 3, gen=(-2, 2)) for i in range(n)])
    for i in range(n):
        angle(h, V1[i], V2[i])
    f = h.ct.ray.distanceOfTwoLines
    got = f(p1, V1, p2, V2)
    h.eq("number", len(got), n)
    for i in range(n):
        h.eq("each pair", got[i], f(p1, V1[i], p2, V2[i]))


@contract("C14", "closest point", tol=1e-6)
def closest(h):
    """the foot of the perpendicular, in two and three dimensions, for one line and any number of lines and points"""
    np = h.np
    k = h.choose("dimensions", [2, 3])
    form = h.choose("form", ["single", "lines", "lines and origins", "points"])
    many = form != "single"
    mk = lambda name, batch: h.rows(name, k, "N" if batch else None, gen=(-3, 3))
    O = mk("O", form == "lines and origins")
    V = mk("V", many)
    row = lambda x: h.row(x, "N") if len(x.shape) == 2 else x
    o, v = row(O), row(V)
    vv = dot(v, v) if k == 3 else v[0] * v[0] + v[1] * v[1]
    h.assume(vv > 0)
    h.guard(vv > 1e-3)
    if k == 2:
        c = h.col("C", "N", gen=(-3, 3)) if many else h.real("C", gen=(-3, 3))
        W = np.array([-V[..., 1] * c, V[..., 0] * c]).T
    else:
        W = np.cross(V, mk("E", many))
    a = h.col("A", "N", gen=(-3, 3)) if many else h.real("A", gen=(-3, 3))
    foot = O + (a[:, None] if many else a) * V
    got = h.ct.ray.getClosestPointFromLine(O, V, foot + W)
    h.eq("foot", got, foot)


@contract("C14", "point to line", tol=1e-6)
def point_line(h):
    """distance of a point to a line"""
    np = h.np
    p, v, e = h.vec("p", 3, gen=(-3, 3)), h.vec("v", 3, gen=(-3, 3)), h.vec("e", 3, gen=(-3, 3))
    h.assume(dot(v, v) > 0)
    h.guard(dot(v, v) > 1e-3)
    w = cross(v, e)
    q = add(p, mul(h.real("a", gen=(-3, 3)), v), w)
    d = h.ct.ray.distanceLinePoint(np.array(p), np.array(v), np.array(q))
    h.eq("distance", d * d, dot(w, w), scale=1)
    h.check("not negative", d >= 0)


@contract("C14", "triangles", tol=1e-5)
def triangles(h):
    """half the length of the cross product of two sides, in two and three dimensions, single and batches"""
    np = h.np
    k = h.choose("dimensions", [2, 3])
    form = h.choose("form", ["single", "two"])
    u, v = h.vec("u", k, gen=(-3, 3)), h.vec("v", k, gen=(-3, 3))
    A = h.vec("A", k, gen=(-3, 3))
    T = [A, add(A, u), add(A, v)]
    c = cross(u, v) if k == 3 else [u[0] * v[1] - u[1] * v[0]]
    cc = sum(x * x for x in c)
    h.guard(cc > 0.1)
    if form == "single":
        area = h.ct.ray.areaOfTriangle(np.array(T))
    else:
        first = [[0, 0, 0][:k], [3, 0, 0][:k], [0, 4, 0][:k]]
        got = h.ct.ray.areaOfTriangle(np.array([first, T], dtype=float) if not h.sym else np.array([first, T]))
        h.eq("number", len(got), 2)
        h.eq("the other triangle", got[0], 6)
        area = got[1]
    h.eq("area", 4 * area * area, cc)
    h.check("not negative", area >= 0)


@contract("C14", "collinear corners", mode="float", tol=1e-5)
def collinear(h):
    """zero"""
    np = h.np
    A, u = np.array(h.vec("A", 3, gen=(-3, 3))), np.array(h.vec("u", 3, gen=(-3, 3)))
    h.eq("area", h.ct.ray.areaOfTriangle(np.array([A, A + h.real("t", gen=(-1, 1), special=(0, 1, 0.5)) * u, A + u])), 0, scale=10)


@contract("C14", "quadrilaterals", tol=1e-9)
def quadrilaterals(h):
    """the sum of the two triangles on both sides of a diagonal (corners in order, either direction)"""
    np = h.np
    A, u, w = h.vec("A", 2, gen=(-3, 3)), h.vec("u", 2, gen=(-3, 3)), h.vec("w", 2, gen=(-3, 3))
    # the fourth corner lies on the other side of the diagonal A - C than B
    s, t = h.real("s", gen=(-2, 2)), h.real("t", lo=0, gen=(0.05, 2))
    c = u[0] * w[1] - u[1] * w[0]
    B, C = add(A, u), add(A, w)
    D = add(A, mul(s, w), mul(-t, u))
    Q = [A, B, C, D] if h.choose("direction", [True, False]) else [D, C, B, A]
    form = h.choose("form", ["list", "array", "batch"])
    want = 0.5 * (abs(c) + abs(t * c))
    if form == "batch":
        got = h.ct.ray.areaOfQuadrilateral(np.array([[[0, 0], [2, 0], [2, 2], [0, 2]], Q]))
        h.eq("the other one", got[0], 4)
        h.eq("area", got[1], want)
    else:
        h.eq("area", h.ct.ray.areaOfQuadrilateral(Q if form == "list" else np.array(Q)), want)


@contract("C14", "areas of integer corners", mode="float", tol=1e-6)
def integers(h):
    """bounded: corners on pixels, in any type of numbers"""
    np = h.np
    kind = h.choose("numbers", ["uint8", "int16", "uint16", "int32", "uint32", "int64", "float32", "float64"])
    top = 255 if kind == "uint8" else 8000
    Q = np.array([[round(h.real("%s%d" % (x, i), gen=(0, top))) for x in "xy"] for i in range(3)], dtype=kind)
    a = Q.astype(float)
    twice = abs((a[1] - a[0])[0] * (a[2] - a[0])[1] - (a[1] - a[0])[1] * (a[2] - a[0])[0])
    h.guard(twice > 0.02 * np.max((a - a[[1, 2, 0]]) ** 2))
    area = h.ct.ray.areaOfTriangle
    batch = h.choose("batch", [False, True])
    h.eq("triangle", area(np.array([Q, Q[::-1]]) if batch else Q), [twice / 2] * 2 if batch else twice / 2, scale=1)
    # a triangle is a quadrilateral with a double corner
    R = Q[[0, 1, 2, 2]]
    h.eq("quadrilateral", h.ct.ray.areaOfQuadrilateral(np.array([R, R[::-1]]) if batch else R), [twice / 2] * 2 if batch else twice / 2, scale=1)


def pair(h):
    ct = h.ct
    return ct.CameraGroup(ct.RectilinearProjection(focallength_px=1000, image=(800, 600)),
                          [ct.SpatialOrientation(elevation_m=10, tilt_deg=80), ct.SpatialOrientation(elevation_m=10, tilt_deg=80, pos_x_m=3)])


@contract("C14", "stereo", tol=1e-6)
def stereo(h):
    """if the rays of both cameras pass through the point (C08, C09) triangulation returns it, and the distance of the rays is zero"""
    np = h.np
    P = h.vec("P", 3, gen=(-5, 5))
    d = [h.vec("d%d" % i, 3, gen=(-5, 5)) for i in range(2)]
    pos = [[P[k] - d[i][k] for k in range(3)] for i in range(2)]
    length = [h.real("l%d" % i, lo=0, lo_strict=True, gen=(0.1, 3)) for i in range(2)]
    angle(h, d[0], d[1], 1)
    cams = pair(h)
    batch = h.choose("batch", [False, True])
    for i in range(2):
        def getRay(points, normed=False, i=i):
            v = np.array(d[i]) / norm(h, d[i]) if normed else length[i] * np.array(d[i])
            return np.array(pos[i]), (np.array([v]) if len(points.shape) == 2 else v)
        cams.cameras[i].getRay = getRay
    px = np.array([[1.0, 2.0]]) if batch else np.array([1.0, 2.0])
    got = cams.spaceFromImages(px, px)
    dist = cams.discanteBetweenRays(px, px)
    if batch:
        h.eq("one point", len(got), 1)
        got, dist = got[0], dist[0]
    h.eq("point", got, np.array(P))
    h.eq("distance", dist, 0, scale=1)


@contract("C14", "stereo, end to end", mode="float", tol=1e-6)
def stereo_float(h):
    """images of space points by real camera pairs, single and batches (bounded: concrete runs)"""
    np, ct = h.np, h.ct
    ps = [projection(h, h.choose("projection", PROJECTIONS), "ab"[i])[0] for i in range(2)]
    os = [orientation(h, tag="ab"[i], kind=h.choose("orientation", ["thr", "ypr"]))[0] for i in range(2)]
    l = lens(h, h.choose("lens", ["none", "none"]))[0]
    cams = ct.CameraGroup(ps, os, l)
    b = h.choose("batch", [None, "N"])
    c = h.rows("c", 3, b, gens=[(-1, 1), (-1, 1), (2, 60)])
    P = os[0].spaceFromCamera(np.array([c[..., 0] * c[..., 2], c[..., 1] * c[..., 2], -c[..., 2]]).T)
    c = os[1].cameraFromSpace(P)
    h.guard(np.all(c[..., 2] < -1))
    h.guard(np.all(np.abs(c[..., :2]) < 5 * np.abs(c[..., 2:])))
    d = [P - o.spaceFromCamera(np.array([0., 0, 0])) for o in os]
    n = np.cross(d[0], d[1])
    h.guard(np.all(np.sum(n * n, axis=-1) > 1e-3 * np.sum(d[0] ** 2, axis=-1) * np.sum(d[1] ** 2, axis=-1)))
    im = cams.imagesFromSpace(P)
    h.eq("number of images", len(im), 2)
    for i in range(2):
        h.eq("image", im[i], cams[i].imageFromSpace(P))
    h.eq("point", cams.spaceFromImages(im[0], im[1]), P, tol=1e-6, scale=100)
    h.eq("distance", cams.discanteBetweenRays(im[0], im[1]), np.zeros(P.shape[:-1]), tol=1e-6, scale=100)
    a = [o.spaceFromCamera(np.array([0., 0, 0])) for o in os]
    h.eq("baseline", cams.getBaseline(), np.sqrt((a[0][0] - a[1][0]) ** 2 + (a[0][1] - a[1][1]) ** 2))
    e = cams.pointCorrespondenceError(im[0], im[1])
    if all(isinstance(p, ct.RectilinearProjection) for p in ps):
        # the images of a point lie on each other's epipolar lines
        for x in e:
            h.eq("epipolar distance", x, np.zeros(P.shape[:-1]), tol=1e-4, scale=1)


@contract("C14", "correspondence error", tol=1e-6)
def correspondence(h):
    """distance of each pixel from the image of the other pixel's ray (two points of it), in this order"""
    np = h.np
    cams = pair(h)
    b = h.choose("batch", [None, "N"])
    for i in range(2):
        def getRay(points, normed=False, i=i):
            return np.array([1.0 + i, 2, 3]), np.array([h.uf("ray%d_%d" % (i, k), points[..., 0], points[..., 1]) for k in range(3)]).T

        def image(points, hide_backpoints=True, i=i):
            z = points[..., 2]
            return np.array([h.uf("im%d_%d" % (i, k), points[..., 0], points[..., 1], points[..., 2], 0 if hide_backpoints else 1)
                             for k in range(2)]).T
        cams.cameras[i].getRay = getRay
        cams.cameras[i].imageFromSpace = image
    px = [h.rows("px%d" % i, 2, b, gens=[(0, 800), (0, 600)]) for i in range(2)]
    want = []
    for i in range(2):
        p, v = cams[i].getRay(px[i])
        a, c = cams[1 - i].imageFromSpace(p + v, hide_backpoints=False), cams[1 - i].imageFromSpace(p + 2 * v, hide_backpoints=False)
        u, w = c - a, px[1 - i] - a
        uu = u[..., 0] ** 2 + u[..., 1] ** 2
        h.assume(uu > 0 if b is None or h.sym else np.all(uu > 0))
        want.append(abs(u[..., 0] * w[..., 1] - u[..., 1] * w[..., 0]) / np.sqrt(uu))
    e = cams.pointCorrespondenceError(px[0], px[1])
    h.eq("number", len(e), 2)
    for i in range(2):
        h.eq("distance", e[i], want[i])
