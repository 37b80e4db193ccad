"""C09 A camera is the composition of its orientation, projection and lens."""
from .common import contract, projection, orientation, lens, PROJECTIONS, SHORT, LENSES

BATCHES = [None, "N"]


def abstract_orientation(h):
    """an orientation whose conversions are arbitrary functions: the camera frame point and the rotated ray are arbitrary"""
    np = h.np

    class O(h.ct.SpatialOrientation):
        def cameraFromSpace(self, points):
            points = np.asarray(points)
            return np.array([h.uf("cam_%d" % i, points[..., 0], points[..., 1], points[..., 2]) for i in range(3)]).T

        def spaceFromCamera(self, points, direction=False):
            points = np.asarray(points)
            k = 1.0 if direction else 2.0
            return np.array([h.uf("space_%d" % i, points[..., 0], points[..., 1], points[..., 2], k) for i in range(3)]).T
    x, y, z = [h.real(n, gen=(-20, 20)) for n in ("px", "py", "pz")]
    return O(elevation_m=z, pos_x_m=x, pos_y_m=y, tilt_deg=30), (x, y, z)


def build(h, kind):
    p, fx, fy, cx, cy = projection(h, kind)
    o, t = abstract_orientation(h)
    l, v = lens(h, h.choose("lens", LENSES))
    return h.ct.Camera(p, o, l), p, o, l, t


def make(kind):
    k = SHORT[kind]

    @contract("C09", k + ".projecting", tol=1e-6)
    def project(h):
        """imageFromSpace = lens . projection(hiding as asked) . orientation, for the real models and any orientation"""
        cam, p, o, l, t = build(h, kind)
        b = h.choose("batch", BATCHES)
        P = h.rows("P", 3, b, gen=(-50, 50))
        hide = h.choose("hide", [None, True, False])
        out = cam.imageFromSpace(P) if hide is None else cam.imageFromSpace(P, hide_backpoints=hide)
        want = l.distortedFromImage(p.imageFromCamera(o.cameraFromSpace(P), hide_backpoints=True if hide is None else hide))
        h.eq("composition", out, want, tol=1e-6)

    @contract("C09", k + ".rays", tol=1e-6)
    def rays(h):
        """getRay: the direction is the rotation of the projection's ray of the undistorted pixel"""
        cam, p, o, l, t = build(h, kind)
        b = h.choose("batch", BATCHES)
        px = h.rows("px", 2, b, gens=[(0, 4608), (0, 3456)])
        normed = h.choose("normed", [None, True, False])
        org, d = cam.getRay(px) if normed is None else cam.getRay(px, normed=normed)
        want = o.spaceFromCamera(p.getRay(l.imageFromDistorted(px), normed=bool(normed)), direction=True)
        h.eq("direction", d, want)
        h.eq("getPos", cam.getPos(), h.np.array(list(t)))

    @contract("C09", k + ".end-to-end", tol=1e-6, mode="float")
    def full(h):
        """the same with real orientations (bounded: concrete runs)"""
        p, fx, fy, cx, cy = projection(h, kind)
        o, t, ang = orientation(h, kind=h.choose("orientation", ["thr", "ypr"]))
        l, v = lens(h, h.choose("lens", LENSES))
        cam = h.ct.Camera(p, o, l)
        b = h.choose("batch", BATCHES)
        P = h.rows("P", 3, b, gen=(-50, 50))
        hide = h.choose("hide", [True, False])
        h.eq("projecting", cam.imageFromSpace(P, hide_backpoints=hide),
             l.distortedFromImage(p.imageFromCamera(o.cameraFromSpace(P), hide_backpoints=hide)))
        px = h.rows("px", 2, b, gens=[(0, 4608), (0, 3456)])
        normed = h.choose("normed", [True, False])
        org, d = cam.getRay(px, normed=normed)
        h.eq("direction", d, o.spaceFromCamera(p.getRay(l.imageFromDistorted(px), normed=normed), direction=True))
        h.eq("origin", org, h.np.array(list(t)))
        h.eq("getPos", cam.getPos(), h.np.array(list(t)))

    @contract("C09", k + ".unit-rays", tol=1e-6)
    def unit(h):
        """rays have unit length on request"""
        p, fx, fy, cx, cy = projection(h, kind)
        o, t, ang = orientation(h, kind=h.choose("orientation", ["thr", "ypr"]))
        cam = h.ct.Camera(p, o)
        b = h.choose("batch", BATCHES)
        u = h.rows("u", 2, b, gen=(-1.5, 1.5))
        if kind == "EquirectangularProjection":
            h.assume(u[..., 1] > -h.np.pi / 2)
            h.assume(u[..., 1] < h.np.pi / 2)
        px = h.np.array([cx + fx * u[..., 0], cy + fy * u[..., 1]]).T
        org, d = cam.getRay(px, normed=True)
        h.eq("unit length", d[..., 0] * d[..., 0] + d[..., 1] * d[..., 1] + d[..., 2] * d[..., 2], u[..., 0] * 0 + 1)


for _k in PROJECTIONS:
    make(_k)


def abstract_parts(h):
    """a user-defined model: subclasses whose functions are arbitrary (uninterpreted) functions of their arguments"""
    ct, np = h.ct, h.np
    log = []

    class P(ct.RectilinearProjection):
        def imageFromCamera(self, points, hide_backpoints=True):
            log.append(("hide", hide_backpoints))
            points = np.asarray(points)
            x, y, z = points[..., 0], points[..., 1], points[..., 2]
            k = 1.0 if hide_backpoints else 2.0
            return np.array([h.uf("proj_x", x, y, z, k), h.uf("proj_y", x, y, z, k)]).T

        def getRay(self, points, normed=False):
            points = np.asarray(points)
            k = 1.0 if normed else 2.0
            return np.array([h.uf("ray_%d" % i, points[..., 0], points[..., 1], k) for i in range(3)]).T

    class L(ct.NoDistortion):
        def distortedFromImage(self, points):
            points = np.asarray(points)
            return np.array([h.uf("dist_x", points[..., 0], points[..., 1]), h.uf("dist_y", points[..., 0], points[..., 1])]).T

        def imageFromDistorted(self, points):
            points = np.asarray(points)
            return np.array([h.uf("undist_x", points[..., 0], points[..., 1]), h.uf("undist_y", points[..., 0], points[..., 1])]).T
    return P, L


@contract("C09", "abstract-models")
def abstract(h):
    """the camera composes any projection and lens model correctly (callees replaced by uninterpreted functions)"""
    P, L = abstract_parts(h)
    p = P(focallength_px=1000, image=(4000, 3000))
    l = L()
    o, t, ang = orientation(h, kind=h.choose("orientation", ["thr", "ypr"]))
    cam = h.ct.Camera(p, o, l)
    b = h.choose("batch", BATCHES)
    X = h.rows("P", 3, b, gen=(-50, 50))
    q = h.rows("q", 2, b, gen=(0, 4000))
    hide = h.choose("hide", [None, True, False])
    normed = h.choose("normed", [None, True, False])
    out = cam.imageFromSpace(X) if hide is None else cam.imageFromSpace(X, hide_backpoints=hide)
    h.eq("projecting", out, l.distortedFromImage(p.imageFromCamera(o.cameraFromSpace(X), hide_backpoints=True if hide is None else hide)))
    org, d = cam.getRay(q) if normed is None else cam.getRay(q, normed=normed)
    h.eq("origin", org, h.np.array(list(t)))
    h.eq("direction", d, o.spaceFromCamera(p.getRay(l.imageFromDistorted(q), normed=bool(normed)), direction=True))
