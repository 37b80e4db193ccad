"""C19 Object height and length are measured exactly from their images.

"rays": the camera is represented by the contract of getRay (C02, C03, C07: the viewing ray of the pixel of a point starts at the camera and
passes through that point), for any camera. "images" contracts run everything with a real camera of any pose, from space to pixels and back."""
from .common import contract, projection, positive_projection, orientation, lens, PROJECTIONS, SHORT, LENSES


class Rays(object):
    """getRay by its contract: pixels of known points give the ray from the camera through these points"""
    def __init__(self, h, cam, C):
        self.h, self.cam, self.C, self.known = h, cam, C, []
        cam.getRay = self.getRay

    def add(self, name, P, b):
        h = self.h
        pix = h.rows(name + ".pixel", 2, b, gen=(0, 100))
        k = h.col(name + ".k", b, lo=0, lo_strict=True, gen=(0.1, 10))
        self.known.append((pix, P, k))
        return pix

    def getRay(self, points, normed=False):
        h, np = self.h, self.h.np
        for pix, P, k in self.known:
            a, b = np.asarray(points), pix
            if a.ndim != b.ndim:
                continue
            if a.ndim > 1:
                a, b = h.row(a, "N"), h.row(b, "N")
            if all(h.same(a[i], b[i]) for i in (0, 1)):
                d = P - np.array(self.C)
                if normed:
                    return np.array(self.C), d / np.linalg.norm(d, axis=-1)[..., None]
                return np.array(self.C), d * k[..., None] if np.ndim(d) > 1 else d * k
        raise AssertionError("ray of an unknown pixel")


def camera(h):
    ct = h.ct
    C = [h.real(n, gen=(-10, 10)) for n in ("cx", "cy", "cz")]
    return ct.Camera(ct.RectilinearProjection(focallength_px=1000, image=(200, 100)), ct.SpatialOrientation()), C


def stack(h, *cols):
    return h.np.array(list(cols)).T


def col(h, name, b, **kw):
    return h.col(name, b, **kw)


for b in (None, "N"):
    for zkind in ("zero", "scalar", "each") if b else ("zero", "scalar"):
        @contract("C19", "height rays %s plane %s" % ("list" if b else "single", zkind))
        def height_rays(h, b=b, zkind=zkind):
            """the height is the true height for every camera with consistent rays"""
            cam, C = camera(h)
            x, y = col(h, "x", b, gen=(-50, 50)), col(h, "y", b, gen=(-50, 50))
            Z = {"zero": 0, "scalar": h.real("Z", gen=(-5, 5)), "each": col(h, "Zs", b, gen=(-5, 5))}[zkind]
            t = col(h, "height", b, gen=(0.1, 10))
            z = Z + 0 * x
            h.assume((x - C[0]) * (x - C[0]) + (y - C[1]) * (y - C[1]) > 0)
            h.assume(z != C[2])
            rays = Rays(h, cam, C)
            foot = rays.add("foot", stack(h, x, y, z), b)
            head = rays.add("head", stack(h, x, y, z + t), b)
            got = cam.getObjectHeight(foot, head) if zkind == "zero" else cam.getObjectHeight(foot, head, Z=Z)
            h.nonan("height is defined", got)
            h.eq("height", got, t)

        @contract("C19", "length rays %s plane %s" % ("list" if b else "single", zkind))
        def length_rays(h, b=b, zkind=zkind):
            """the length is the true length for every camera with consistent rays"""
            cam, C = camera(h)
            x, y = col(h, "x", b, gen=(-50, 50)), col(h, "y", b, gen=(-50, 50))
            u, v = col(h, "u", b, gen=(-5, 5)), col(h, "v", b, gen=(-5, 5))
            Z = {"zero": 0, "scalar": h.real("Z", gen=(-5, 5)), "each": col(h, "Zs", b, gen=(-5, 5))}[zkind]
            z = Z + 0 * x
            h.assume(z != C[2])
            rays = Rays(h, cam, C)
            front = rays.add("front", stack(h, x, y, z), b)
            back = rays.add("back", stack(h, x + u, y + v, z), b)
            got = cam.getObjectLength(front, back) if zkind == "zero" else cam.getObjectLength(front, back, Z=Z)
            h.nonan("length is defined", got)
            h.check("length is not negative", got >= 0)
            h.eq("length", got * got, u * u + v * v)


def front(h, kind, q):
    """in front of the camera (and not on the axis of a cylinder)"""
    if kind == "RectilinearProjection":
        h.assume(q[..., 2] < 0)
    elif kind == "CylindricalProjection":
        h.assume(q[..., 0] * q[..., 0] + q[..., 2] * q[..., 2] > 0)
    else:
        h.assume(q[..., 0] * q[..., 0] + q[..., 1] * q[..., 1] + q[..., 2] * q[..., 2] > 0)


def real_camera(h, kind, ln, okind):
    p, fx, fy, cx, cy = positive_projection(h, kind)
    o, t, angles = orientation(h, kind=okind)
    l, v = lens(h, ln)
    return h.ct.Camera(p, o, l), t


for kind in PROJECTIONS:
    for okind, ln in (("thr", "none"), ("ypr", "none")):
        @contract("C19", "height images %s %s %s" % (SHORT[kind], okind, ln), mode="float", trials=300)
        def height_images(h, kind=kind, okind=okind, ln=ln):
            """the height computed from the pixels of foot and head is the true height, for every pose"""
            cam, C = real_camera(h, kind, ln, okind)
            b = h.choose("batch", [None, "N"])
            x, y = col(h, "x", b, gen=(-50, 50)), col(h, "y", b, gen=(-50, 50))
            Z = h.real("Z", gen=(-5, 5))
            t = col(h, "height", b, gen=(0.1, 10))
            z = Z + 0 * x
            h.assume((x - C[0]) * (x - C[0]) + (y - C[1]) * (y - C[1]) > 0.1)
            h.assume(z < C[2])
            foot, head = stack(h, x, y, z), stack(h, x, y, z + t)
            for P in (foot, head):
                front(h, kind, cam.orientation.cameraFromSpace(P))
            got = cam.getObjectHeight(cam.imageFromSpace(foot), cam.imageFromSpace(head), Z=Z)
            h.nonan("height is defined", got)
            h.eq("height", got, t, scale=10)

        @contract("C19", "length images %s %s %s" % (SHORT[kind], okind, ln), mode="float", trials=300)
        def length_images(h, kind=kind, okind=okind, ln=ln):
            """the length computed from the pixels of both ends is the true length, for every pose"""
            cam, C = real_camera(h, kind, ln, okind)
            b = h.choose("batch", [None, "N"])
            x, y = col(h, "x", b, gen=(-50, 50)), col(h, "y", b, gen=(-50, 50))
            u, v = col(h, "u", b, gen=(-5, 5)), col(h, "v", b, gen=(-5, 5))
            Z = h.real("Z", gen=(-5, 5))
            z = Z + 0 * x
            h.assume(z < C[2])
            P, Q = stack(h, x, y, z), stack(h, x + u, y + v, z)
            for A in (P, Q):
                front(h, kind, cam.orientation.cameraFromSpace(A))
            got = cam.getObjectLength(cam.imageFromSpace(P), cam.imageFromSpace(Q), Z=Z)
            h.nonan("length is defined", got)
            h.check("length is not negative", got >= 0)
            h.eq("length", got * got, u * u + v * v, scale=10)


for ln in ("brown", "abc"):
    @contract("C19", "lens %s" % ln, mode="float", trials=200)
    def with_lens(h, ln=ln):
        """a lens changes nothing but the pixels: the same object, seen through a lens, has the same height and length"""
        kind = h.choose("projection", PROJECTIONS)
        cam, C = real_camera(h, kind, ln, "thr")
        plain = h.ct.Camera(cam.projection, cam.orientation)
        foot = h.vec("foot", 2, gen=(0, 4000))
        head = h.vec("head", 2, gen=(0, 4000))
        Z = h.real("Z", gen=(-5, 5))
        cam.lens.projection = cam.projection
        f, t = [cam.lens.imageFromDistorted(p) for p in (foot, head)]
        for name in ("getObjectHeight", "getObjectLength"):
            a, b = getattr(cam, name)(foot, head, Z=Z), getattr(plain, name)(f, t, Z=Z)
            if h.isnan(b):
                h.allnan("undefined as without the lens", a)
            else:
                h.eq("as without the lens", a, b)
