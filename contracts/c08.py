"""C08 Back-projected points lie on the viewing ray, meet the constraint, else NaN."""
from .common import contract, projection, orientation, lens, PROJECTIONS, SHORT

BATCHES = [None, "N"]


def ray_camera(h, batch):
    """a camera whose getRay is replaced by its contract: an arbitrary position and an arbitrary non-zero direction per pixel"""
    np = h.np
    pos = h.vec("pos", 3, gen=(-20, 20))
    d = h.rows("dir", 3, batch, gen=(-2, 2), special=(0,))
    px = h.rows("px", 2, batch, gen=(0, 1000))
    n2 = d[..., 0] * d[..., 0] + d[..., 1] * d[..., 1] + d[..., 2] * d[..., 2]
    h.assume(n2 > 0)
    h.guard(n2 > 1e-4)
    seen = []

    class Cam(h.ct.Camera):
        def getRay(self, points, normed=False):
            seen.append(points)
            if normed:
                return pos * 1, d / np.sqrt(n2)[..., None]
            return pos * 1, d * 1
    cam = Cam(h.ct.RectilinearProjection(focallength_px=1000, image=(1000, 800)),
              h.ct.SpatialOrientation(elevation_m=pos[2], pos_x_m=pos[0], pos_y_m=pos[1], tilt_deg=30))
    return cam, pos, d, n2, px, seen


@contract("C08", "coordinate")
def coordinate(h):
    """X=, Y= or Z= (common or per point): the point on the forward ray with exactly this coordinate, else NaN"""
    b = h.choose("batch", BATCHES)
    cam, pos, d, n2, px, seen = ray_camera(h, b)
    i = h.choose("axis", [0, 1, 2])
    per_point = h.choose("per point", [False, True]) if b else False
    default = h.choose("call", ["given", "default"]) if i == 2 and not per_point else "given"
    v = 0 if default == "default" else h.col("value", b if per_point else None, gen=(-20, 20))
    di = d[..., i]
    h.guard(h.np.abs(di) > 1e-3)
    h.assume(di != 0)
    lam = (v - pos[i]) / di  # exactly one multiple of the ray meets the constraint, if the ray is not parallel to the plane
    ok = h.choose("side", ["front", "behind"]) if h.sym or b is None else "mixed"
    if ok == "front":
        h.assume(lam >= 0)
    elif ok == "behind":
        h.assume(lam < 0)
    if default == "default":
        out = cam.spaceFromImage(px)
    else:
        out = cam.spaceFromImage(px, **{"XYZ"[i]: v})
    h.eq("getRay is asked for the given pixels", seen[-1], px)
    if ok == "front":
        h.eq("on the ray", out, pos + d * lam[..., None] if b else pos + d * lam)
        h.eq("constraint", out[..., i], di * 0 + v)
    elif ok == "behind":
        h.allnan("behind the camera", out)
        h.eq("shape", out[..., 0], di * float("nan"))
    else:
        lam = h.np.where(lam < 0, h.np.nan, lam)
        h.eq("on the ray, NaN behind the camera", out, pos + d * lam[..., None])


@contract("C08", "parallel")
def parallel(h):
    """a ray parallel to the plane never meets the constraint: NaN"""
    b = h.choose("batch", BATCHES)
    np = h.np
    pos = h.vec("pos", 3, gen=(-20, 20))
    e = h.rows("dir", 2, b, gen=(-2, 2))
    i = h.choose("axis", [0, 1, 2])
    z = e[..., 0] * 0
    comp = [e[..., 0], e[..., 1]]
    comp.insert(i, z)
    d = np.array(comp).T
    px = h.rows("px", 2, b, gen=(0, 1000))

    class Cam(h.ct.Camera):
        def getRay(self, points, normed=False):
            return pos * 1, d * 1
    cam = Cam(h.ct.RectilinearProjection(focallength_px=1000, image=(1000, 800)))
    v = h.real("value", gen=(-20, 20))
    h.assume(v - pos[i] != 0)
    h.allnan("parallel ray", cam.spaceFromImage(px, **{"XYZ"[i]: v}))


@contract("C08", "distance")
def distance(h):
    """D=: the point on the forward ray at exactly this distance from the camera, NaN for a negative distance"""
    b = h.choose("batch", BATCHES)
    cam, pos, d, n2, px, seen = ray_camera(h, b)
    per_point = h.choose("per point", [False, True]) if b else False
    D = h.col("D", b if per_point else None, gen=(-5, 50))
    aslist = h.choose("list", [False, True]) if per_point and not h.sym else False
    out = cam.spaceFromImage(px, D=list(D) if aslist else D)
    h.eq("getRay is asked for the given pixels", seen[-1], px)
    n = h.np.sqrt(n2)
    side = h.choose("side", ["front", "behind"])
    if side == "front":
        h.assume(D >= 0)
        lam = D / n
        h.eq("on the ray", out, pos + d * (lam[..., None] if b else lam))
        r = out - pos
        h.eq("distance", r[..., 0] * r[..., 0] + r[..., 1] * r[..., 1] + r[..., 2] * r[..., 2], n2 * 0 + D * D)
    else:
        h.assume(D < 0)
        h.allnan("behind the camera", out)


@contract("C08", "mesh")
def mesh(h):
    """mesh=: the ray/mesh intersection of the pixel's ray from the camera position is returned"""
    b = h.choose("batch", BATCHES)
    cam, pos, d, n2, px, seen = ray_camera(h, b)
    got = []
    M = h.rows("M", 9, None, gen=(-20, 20)).reshape(1, 3, 3)

    def stub(o, r, m):
        # the scale of the ray does not matter to the intersection (C13)
        nn = r[..., 0] * r[..., 0] + r[..., 1] * r[..., 1] + r[..., 2] * r[..., 2]
        got.append((o, r / h.np.sqrt(nn)[..., None] if b else r / h.np.sqrt(nn), m))
        return ("result", len(got))
    mod = h.module("ray")
    old = mod.ray_intersect_triangle
    mod.ray_intersect_triangle = stub
    try:
        out = cam.spaceFromImage(px, mesh=M)
    finally:
        mod.ray_intersect_triangle = old
    h.check("the intersection is returned", out == ("result", len(got)))
    o, r, m = got[-1]
    h.eq("origin", o + d * 0, pos + d * 0)
    h.eq("direction", r * (h.np.sqrt(n2)[..., None] if b else h.np.sqrt(n2)), d)
    h.eq("mesh", m, M)
    h.eq("pixels", seen[-1], px)


def make(kind):
    k = SHORT[kind]

    @contract("C08", k + ".ray-consistency", tol=1e-5)
    def consistent(h):
        """every point on the forward viewing ray of a pixel is projected to this pixel"""
        np = h.np
        p, fx, fy, cx, cy = projection(h, kind)
        o, t, ang = orientation(h, kind=h.choose("orientation", ["thr", "ypr"]))
        cam = h.ct.Camera(p, o)
        b = h.choose("batch", BATCHES)
        pi = np.pi
        if kind == "RectilinearProjection":
            u, v = h.col("u", b, gen=(-2, 2)), h.col("v", b, gen=(-2, 2))
        else:
            u = h.col("u", b, lo=-pi, hi=pi, lo_strict=True, hi_strict=True, gen=(-3.1, 3.1))
            if kind == "EquirectangularProjection":
                v = h.col("v", b, lo=-pi / 2, hi=pi / 2, lo_strict=True, hi_strict=True, gen=(-1.5, 1.5))
            else:
                v = h.col("v", b, gen=(-4, 4))
        px = np.array([cx + fx * u, cy + fy * v]).T
        m = h.pos("m", gen=(0.01, 100))
        if kind == "RectilinearProjection":
            h.assume(m >= 1e-9)
        org, d = cam.getRay(px)
        h.eq("pixel", cam.imageFromSpace(org + d * m), px, tol=1e-5)

    @contract("C08", k + ".pixel-space-pixel", tol=1e-5, mode="float")
    def back(h):
        """end to end: pixel -> space (X, Y, Z or D given) -> pixel, and space -> pixel -> space"""
        np = h.np
        l, lv = lens(h, h.choose("lens", ["none", "brown", "abc"]))
        p, fx, fy, cx, cy = projection(h, kind)
        o, t, ang = orientation(h, kind=h.choose("orientation", ["thr", "ypr"]))
        cam = h.ct.Camera(p, o, l)
        c = h.rows("c", 3, "N", gens=[(-0.8, 0.8), (-0.8, 0.8), (5, 60)])
        P = o.spaceFromCamera(np.array([c[..., 0] * c[..., 2], c[..., 1] * c[..., 2], -c[..., 2]]).T)
        q = cam.imageFromSpace(P)
        dist = np.sqrt(((P - np.array(t)) ** 2).sum(axis=-1))
        tol = 1e-5 if not lv else 2e-2
        h.guard(np.abs(P - np.array(t)) > 0.1 * dist[:, None] / 3)
        h.eq("X", cam.spaceFromImage(q, X=P[:, 0]), P, tol=tol, scale=dist.max() * 10)
        h.eq("Y", cam.spaceFromImage(q, Y=list(P[:, 1])), P, tol=tol, scale=dist.max() * 10)
        h.eq("Z", cam.spaceFromImage(q, Z=P[:, 2]), P, tol=tol, scale=dist.max() * 10)
        h.eq("D", cam.spaceFromImage(q, D=list(dist)), P, tol=tol, scale=dist.max() * 10)
        h.eq("pixel", cam.imageFromSpace(cam.spaceFromImage(q, D=7.5)), q, tol=1e-5 if not lv else 1e-2, scale=1000)
        i = h.choose("row", [0])
        h.eq("single Z", cam.spaceFromImage(q[i], Z=P[i, 2]), P[i], tol=tol, scale=dist.max() * 10)
        h.eq("single D", cam.spaceFromImage(q[i], D=dist[i]), P[i], tol=tol, scale=dist.max() * 10)


for _k in PROJECTIONS:
    make(_k)
