"""C01 Pixels and camera-frame viewing rays are mutually inverse."""
import numpy
from .common import contract, projection, PROJECTIONS, SHORT

BATCHES = [None, "N"]


def pixels(h, kind, b, fx, fy, cx, cy):
    """arbitrary pixels in the angular range of the model, written as centre + focal length * angle"""
    pi = h.np.pi
    if kind == "RectilinearProjection":
        return h.rows("px", 2, b, gens=[(-500, 5000), (-500, 4000)])
    u = h.col("u", b, lo=-pi, hi=pi, lo_strict=True, hi_strict=True, gen=(-3.1, 3.1), special=(0, 1.5, -3))
    if kind == "EquirectangularProjection":
        v = h.col("v", b, lo=-pi / 2, hi=pi / 2, lo_strict=True, hi_strict=True, gen=(-1.5, 1.5), special=(0,))
    else:
        v = h.col("v", b, gen=(-4, 4), special=(0,))
    return h.np.array([cx + fx * u, cy + fy * v]).T


def make(kind):
    k = SHORT[kind]

    @contract("C01", k + ".pixel-ray-pixel")
    def pixel(h):
        """for every pixel in range and every positive multiple: imageFromCamera(m * getRay(pixel)) = pixel"""
        p, fx, fy, cx, cy = projection(h, kind)
        b = h.choose("batch", BATCHES)
        px = pixels(h, kind, b, fx, fy, cx, cy)
        m = h.pos("m", gen=(0.01, 100))
        if kind == "RectilinearProjection":
            h.assume(m >= 1e-9)
        hide = h.choose("hide", [None, True, False])
        ray = p.getRay(px)
        out = p.imageFromCamera(ray * m) if hide is None else p.imageFromCamera(ray * m, hide_backpoints=hide)
        h.eq("pixel of the ray of the pixel", out, px, tol=1e-5)

    @contract("C01", k + ".normed-ray")
    def normed(h):
        """normed=True gives the unit vector in the same direction"""
        p, fx, fy, cx, cy = projection(h, kind)
        b = h.choose("batch", BATCHES)
        px = pixels(h, kind, b, fx, fy, cx, cy)
        ray = p.getRay(px)
        n = p.getRay(px, normed=True)
        ln = h.np.sqrt((ray * ray)[..., 0] + (ray * ray)[..., 1] + (ray * ray)[..., 2])
        h.eq("length one", (n * n)[..., 0] + (n * n)[..., 1] + (n * n)[..., 2], ln * 0 + 1)
        h.eq("same direction", n * ln[..., None], ray)

    @contract("C01", k + ".point-pixel-ray")
    def point(h):
        """the ray of the pixel of a visible point is a positive multiple of the point"""
        p, fx, fy, cx, cy = projection(h, kind)
        b = h.choose("batch", BATCHES)
        P = h.rows("P", 3, b, gen=(-20, 20), special=(0,))
        x, y, z = P[..., 0], P[..., 1], P[..., 2]
        if kind == "RectilinearProjection":
            h.assume(z <= -1e-9)
            h.guard(z < -0.01)
            want_len = -z
        else:
            h.assume(x * x + z * z > 0)
            h.guard(x * x + z * z > 1e-4)
            want_len = h.np.sqrt(x * x + z * z)
        q = p.imageFromCamera(P)
        ray = p.getRay(q)
        # same direction with the same sign: the points are ray * |.| with a positive factor, unique for unit rays
        n = p.getRay(q, normed=True)
        L = h.np.sqrt(x * x + y * y + z * z)
        h.eq("normed ray is the unit vector to the point", n * L[..., None], P, tol=1e-5)
        lr = h.np.sqrt(ray[..., 0] * ray[..., 0] + ray[..., 1] * ray[..., 1] + ray[..., 2] * ray[..., 2])
        h.eq("ray is a positive multiple of the point", ray * L[..., None], P * lr[..., None], tol=1e-5)


for _k in PROJECTIONS:
    make(_k)
