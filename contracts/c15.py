"""C15 Lens distortion follows the documented radial model and is invertible."""
import contextlib
import numpy
from .common import contract, projection, lens, radial, PROJECTIONS

NAMES = {"brown": ("k1", "k2", "k3"), "abc": ("a", "b", "c")}


def attached(h, kind, increasing, how=None):
    """a lens that knows its projection, with the scale and the centre that the documentation gives"""
    np, ct = h.np, h.ct
    pk = h.choose("projection", PROJECTIONS)
    wh = [(4608, 3456), (3456, 4608)][h.choose("portrait", [0, 1])]
    p, fx, fy, cx, cy = projection(h, pk, wh=wh)
    l, v = lens(h, kind, increasing=increasing)
    how = how or h.choose("attached", ["camera", "setProjection"])
    if how == "camera":
        cam = ct.Camera(p, lens=l)
        l = cam.lens
    else:
        l.setProjection(p)
    s = (fx, fy) if kind == "brown" else (min(wh) / 2 if not h.sym else h.const(min(wh)) / 2,) * 2
    return l, v, s, (cx, cy)


def pixels(h, s, c, batch, hi=1.6):
    """pixels at the radius r > 0 in the direction t from the centre, in the units of the model; their direction and radius"""
    np = h.np
    if batch:
        r = h.col("r", batch, lo=0, lo_strict=True, gen=(1e-3, hi), special=(1,))
        t = h.col("t", batch, gen=(-180, 180))
    else:
        r = h.real("r", lo=0, lo_strict=True, gen=(1e-3, hi), special=(1,))
        t = h.angle("t")
    u = np.array([np.cos(np.deg2rad(t)), np.sin(np.deg2rad(t))])
    return u, r, at(h, s, c, u, r)


def at(h, s, c, u, r):
    return h.np.array([s[0] * u[0] * r + c[0], s[1] * u[1] * r + c[1]]).T


@contextlib.contextmanager
def no_table(h):
    """the table of the inverse plays no role here"""
    m = h.module("lens_distortion") if h.sym else None
    old = getattr(m, "invert_function", None)
    if old is None:
        yield
        return
    m.invert_function = lambda x, func: (lambda y: h.uf("table", y))
    try:
        yield
    finally:
        m.invert_function = old


def make(kind):
    @contract("C15", kind + ".distort", tol=1e-6)
    def distort(h):
        """out = centre + scale * u * r'(r) / r with the documented polynomial, scale and centre; the centre stays"""
        np = h.np
        with no_table(h):
            l, v, s, c = attached(h, kind, False)
            b = h.choose("batch", [None, "N"])
            u, r, px = pixels(h, s, c, b)
            h.eq("distorted", l.distortedFromImage(px), at(h, s, c, u, radial(kind, v, r)), scale=1000)
            h.eq("centre", l.distortedFromImage(np.array([c[0], c[1]])), np.array([c[0], c[1]]), scale=1)

    @contract("C15", kind + ".invert", tol=1e-6)
    def invert(h):
        """with an exact inverse of the polynomial, removing the distortion undoes it and the reverse (symbolic);
        concrete runs: within the interpolation accuracy"""
        np = h.np
        l, v, s, c = attached(h, kind, True, "camera")
        b = h.choose("batch", [None, "N"])
        u, r, px = pixels(h, s, c, b)
        if not h.sym:
            h.guard(np.all(r < 1.8))
            h.guard(np.all(radial(kind, v, r) < 0.98 * radial(kind, v, 1.9)))
        R = radial(kind, v, r)
        h.assume((h.row(R, b) if b else R) > 0 if h.sym else np.all(R > 0))
        h.eq("undo", l.imageFromDistorted(l.distortedFromImage(px)), px, tol=TOL[kind], scale=1000)
        d = l.distortedFromImage(px)  # any pixel that is the distortion of another one
        h.eq("redo", l.distortedFromImage(l.imageFromDistorted(d)), d, tol=TOL[kind], scale=1000)
        h.eq("centre", l.imageFromDistorted(np.array([c[0], c[1]])), np.array([c[0], c[1]]), scale=1)

    @contract("C15", kind + ".zero", tol=1e-6)
    def zero(h):
        """zero (or no) coefficients change nothing"""
        np, ct = h.np, h.ct
        h.ideal_inverse()
        p, fx, fy, cx, cy = projection(h, h.choose("projection", PROJECTIONS))
        cls = {"brown": ct.BrownLensDistortion, "abc": ct.ABCDistortion}[kind]
        l = cls(*[[], [0, 0, 0]][h.choose("coefficients", [0, 1])])
        if h.choose("attached", [True, False]):
            l.setProjection(p)
        b = h.choose("batch", [None, "N"])
        px = h.rows("px", 2, b, gens=[(0, 4608), (0, 3456)])
        h.guard(l.projection is not None)
        h.eq("distorted", l.distortedFromImage(px), px, scale=1000)
        h.eq("undistorted", l.imageFromDistorted(px), px, scale=1000)

    @contract("C15", kind + ".alone", tol=1e-6)
    def alone(h):
        """without a projection: the polynomial around the origin, in pixels"""
        np, ct = h.np, h.ct
        with no_table(h):
            l, v = lens(h, kind, increasing=False)
            u, r, px = pixels(h, (1, 1), (0, 0), None)
            h.eq("distorted", l.distortedFromImage(px), u * radial(kind, v, r), scale=1)

    @contract("C15", kind + ".accuracy", mode="float", tol=1e-6, trials=3000)
    def accuracy(h):
        """bounded: where the polynomial increases the inverse is accurate to 1e-5 of the scale, even if it decreases further out, for barrel and cushion distortions"""
        np, ct = h.np, h.ct
        big = h.choose("size", [0.1, 1.0])
        if h.choose("shape", ["moderate", "rising again"]) == "moderate":
            w = {"brown": (-0.15, 0.3), "abc": (-0.1, 0.1)}[kind]
            v = [h.real(n, gen=w, special=(0,)) * big * [1, 0.3, 0.1][i] for i, n in enumerate(NAMES[kind])]
        else:  # a decrease between two increases: only the part before it can be inverted
            w = {"brown": [(-0.6, -0.4), (0.08, 0.15), (0, 0)], "abc": [(0.8, 0.95), (-2.3, -2.1), (0.95, 1.05)]}[kind]
            v = [h.real(n, gen=w[i]) for i, n in enumerate(NAMES[kind])]
        p, fx, fy, cx, cy = projection(h, h.choose("projection", PROJECTIONS))
        cls = {"brown": ct.BrownLensDistortion, "abc": ct.ABCDistortion}[kind]
        l = ct.Camera(p, lens=cls(*v)).lens
        s = np.array((fx, fy) if kind == "brown" else (3456 / 2, 3456 / 2))
        r = h.real("r", gen=(0, [0.4, 1.6][h.choose("far", [0, 1])]), special=(0,))
        t = h.angle("t")
        # increasing by a margin over the whole table, or somewhat further than needed
        full = h.choose("increasing", ["everywhere", "up to here"]) == "everywhere"
        grid = np.linspace(0, 2.0 if full else min(r + 0.2, 1.9), 400)
        R = radial(kind, v, grid)
        slope = np.diff(R) / (grid[1] - grid[0])
        h.guard(np.all(slope > 0.5) and np.all(slope < 4))
        h.guard(l.projection is not None)
        u = np.array([np.cos(np.deg2rad(t)), np.sin(np.deg2rad(t))]) * s
        c = np.array([cx, cy])
        px, dist = c + r * u, c + radial(kind, v, r) * u
        h.eq("distorted", (l.distortedFromImage(px) - c) / s, (dist - c) / s, scale=1, tol=1e-9)
        h.eq("undistorted", (l.imageFromDistorted(dist) - c) / s, (px - c) / s, scale=1, tol=1e-5)


TOL = {"brown": 3e-5, "abc": 3e-5}
for _k in ("brown", "abc"):
    make(_k)


@contract("C15", "none", tol=1e-12)
def none(h):
    """no lens changes nothing, alone and in a camera"""
    np, ct = h.np, h.ct
    b = h.choose("batch", [None, "N"])
    px = h.rows("px", 2, b, gens=[(0, 4608), (0, 3456)])
    l = ct.NoDistortion() if h.choose("alone", [True, False]) else ct.Camera(ct.RectilinearProjection(focallength_px=1000, image=(800, 600))).lens
    h.eq("distorted", l.distortedFromImage(px), px)
    h.eq("undistorted", l.imageFromDistorted(px), px)
