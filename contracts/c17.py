"""C17 Top-view and undistortion maps send every output pixel to its own source.

cv2.remap is replaced by its contract for an image whose pixels hold their own coordinates: the output holds, at every pixel, the position
the map asks for there. So the output of getTopViewOfImage/undistortImage *is* the sampled position, for grids of any size (generic row and
column, reversed axes are axes of their own). One contract runs the real cv2.remap."""
import numpy
from .common import contract, projection, orientation, lens, PROJECTIONS, SHORT, LENSES


class remap(object):
    def __init__(self, h):
        self.h = h
        self.calls = []

    def fake(self, image, x, y, interpolation=None, borderMode=None, borderValue=None, dst=None):
        import cv2
        if interpolation != cv2.INTER_NEAREST:
            raise AssertionError("the pixels of the image are to be taken as they are")
        if not self.h.sym and (x.dtype != numpy.float32 or y.dtype != numpy.float32):
            raise AssertionError("cv2.remap needs maps of type float32")
        self.calls.append(image)
        return self.h.np.dstack((x, y))

    def __enter__(self):
        import cv2
        self.keep = cv2.remap
        if self.h.sym:
            self.h.hook("cv2.remap", self.fake)
        else:
            cv2.remap = self.fake
        return self

    def __exit__(self, *a):
        import cv2
        cv2.remap = self.keep


class Grid(object):
    """an extent and a scaling; in the proof with any number of rows and columns"""
    def __init__(self, h, tag="", big=False):
        self.h = h
        self.s = h.real(tag + "scaling", lo=0, lo_strict=True, gen=(0.3, 5) if not big else (20, 200))
        self.x0, self.y0 = [h.real(tag + n, gen=(-30, 30)) for n in ("x0", "y0")]
        self.kx, self.ky = [h.real(tag + n, lo=0, gen=(0, 7)) for n in ("column", "row")]
        w, t = [h.real(tag + n, lo=0, lo_strict=True, gen=(0.6, 6.4)) for n in ("width", "height")]
        self.x1, self.y1 = self.x0 + w * self.s, self.y0 + t * self.s
        self.extent = [self.x0, self.x1, self.y0, self.y1]
        self.tag = tag

    def arange(self, a, b=None, step=None):
        h, S = self.h, self.h.same
        if b is None:
            return None
        for name, lo, hi, k in (("W", self.x0, self.x1, self.kx), ("H", self.y0, self.y1, self.ky)):
            if S(a, lo) and S(b, hi):
                return h.axis(name + self.tag, a, 1 if step is None else step, k)
        return None

    def others(self):
        """axes of further grids, which are asked for but not compared"""
        n = []

        def f(a, b=None, step=None):
            if b is None or not self.h.is_symbolic(a, b, step):
                return None
            n.append(1)
            return self.h.axis("other%d" % len(n), a, 1 if step is None else step, self.h.real("other%d" % len(n), lo=0))
        return f

    def points(self, far_end_up):
        """the coordinates the pixels stand for: generic ones in the proof, all in the concrete runs (rows from the top)"""
        if self.h.sym:
            return self.x0 + self.kx * self.s, self.y0 + self.ky * self.s
        x, y = numpy.meshgrid(numpy.arange(self.x0, self.x1, self.s), numpy.arange(self.y0, self.y1, self.s))
        return (x[::-1], y[::-1]) if far_end_up else (x, y)

    def check(self, label, out, far_end_up, source):
        h = self.h
        x, y = self.points(far_end_up)
        if h.sym:
            names = ["H" + self.tag + ("~" if far_end_up else ""), "W" + self.tag]
            h.check(label + ": order of rows and columns", [h.axis_name(out, i) for i in (0, 1)] == names)
            got = out.data[0, 0]
            want = source(h.np.array([[x, y]]))[0]
        else:
            h.check(label + ": size", out.shape[:2] == x.shape)
            got = out
            want = source(numpy.array([x.ravel(), y.ravel()]).T).reshape(x.shape + (2,))
        h.eq(label + ": source column", got[..., 0] if not h.sym else got[0], want[..., 0] if not h.sym else want[0], tol=1e-4)
        h.eq(label + ": source row", got[..., 1] if not h.sym else got[1], want[..., 1] if not h.sym else want[1], tol=1e-4)


NAMES = ["elevation_m", "tilt_deg", "heading_deg", "roll_deg", "pos_x_m", "pos_y_m", "focallength_x_px", "focallength_y_px", "center_x_px",
         "center_y_px", "image_width_px", "image_height_px", "sensor_width_mm", "sensor_height_mm", "k1", "k2", "k3", "gps_lat", "gps_lon"]


def camera(h):
    """a camera whose projection to the image and whose lens are arbitrary functions of the point and of all its parameters"""
    np, ct = h.np, h.ct

    class Cam(ct.Camera):
        def imageFromSpace(self, points, hide_backpoints=True):
            points = np.asarray(points)
            v = [getattr(self, n) for n in NAMES] + [1.0 if hide_backpoints else 0.0]
            return np.array([h.uf("image_%d" % i, points[..., 0], points[..., 1], points[..., 2], *v) for i in range(2)]).T

    class L(ct.BrownLensDistortion):
        def distortedFromImage(self, points):
            points = np.asarray(points)
            v = [self.k1, self.k2, self.k3] + [getattr(self.projection, n) for n in NAMES[6:12]]
            return np.array([h.uf("lens_%d" % i, points[..., 0], points[..., 1], *v) for i in range(2)]).T
    h.ideal_inverse()
    cam = Cam(ct.RectilinearProjection(focallength_px=1000, image=(6, 4)), ct.SpatialOrientation(elevation_m=10, tilt_deg=70),
              L(k1=0.01))
    return cam


def picture(h, kind):
    a = (numpy.arange(24).reshape(4, 6) * 7 + 1).astype("uint8")
    return a if kind == "gray" else numpy.dstack([a, a + 1, a + 2] + ([a + 3] if kind == "rgba" else []))


def view(h, cam, im, g, what, z=None, hide=None, skip=None):
    """one call and the source it must take"""
    kw = {}
    if what == "top":
        if z is not None:
            kw["Z"] = z
        if hide is not None:
            kw["hide_backpoints"] = hide
        if skip is not None:
            kw["skip_size_check"] = skip
        out = cam.getTopViewOfImage(im, extent=g.extent, scaling=g.s, **kw)
        zz, hh = 0 if z is None else z, True if hide is None else hide
        return out, True, lambda p: cam.imageFromSpace(h.np.hstack((p, zz * h.np.ones((len(p), 1)))), hide_backpoints=hh)
    if skip is not None:
        kw["skip_size_check"] = skip
    out = cam.undistortImage(im, extent=g.extent, scaling=g.s, **kw)
    return out, False, lambda p: cam.lens.distortedFromImage(p)


def make(what, title):
    @contract("C17", title)
    def grid(h):
        """any extent, scaling, height: every output pixel takes the position of its own point, the upper edge is the far end (top view)"""
        cam = camera(h)
        g = Grid(h)
        h.arange(g.arange)
        im = picture(h, h.choose("image", ["gray", "rgb", "rgba"]))
        z = h.choose("Z", [None, "given"]) if what == "top" else None
        z = h.real("Z", gen=(-3, 3)) if z else None
        hide = h.choose("hide", [None, True, False]) if what == "top" else None
        skip = h.choose("size check", [None, True, False])
        given = list(g.extent)
        with remap(h) as m:
            out, up, source = view(h, cam, im, g, what, z, hide, skip)
            g.check("map", out, up, source)
            out2 = view(h, cam, im, g, what, z, hide, skip)[0]
            h.eq("again", out2, out)
            im2 = m.calls[0]
            h.check("image content", im2.shape[:2] == im.shape[:2] and bool(numpy.all((im2 if im.ndim == 2 else im2[..., :im.shape[2]]) == im)))
        h.check("extent not modified", all(a is b for a, b in zip(given, g.extent)) and len(given) == len(g.extent))

    @contract("C17", title + ", after other calls", budget=200)
    def history(h):
        """the result depends on the current parameters and arguments only: after a call with other arguments, or a change of any parameter"""
        cam = camera(h)
        g = Grid(h)
        g2 = Grid(h, "2")
        rest = g.others()

        def arange(*a):
            r = g.arange(*a)
            return r if r is not None else rest(*a)
        h.arange(arange)
        im = picture(h, "gray")
        z = h.real("Z", gen=(-3, 3)) if what == "top" else None
        step = h.choose("between", ["extent 0", "extent 1", "extent 2", "extent 3", "scaling", "Z", "hide", "same list", "other view"] + NAMES if what == "top"
                        else ["extent 0", "extent 1", "extent 2", "extent 3", "scaling", "same list", "other view"] + NAMES)
        hide = True if what == "top" else None
        with remap(h):
            if step.startswith("extent"):  # one of the four limits is another one
                i = int(step[-1])
                lists = list(g.extent), list(g.extent)
                other = lists[0]
                other[i] = g2.extent[i]
                h.assume(g2.extent[i] != g.extent[i])
                if not h.sym and (other[0] >= other[1] or other[2] >= other[3]):
                    other = g2.extent
                first = Grid.__new__(Grid)
                first.__dict__.update(g.__dict__, extent=other)
                view(h, cam, im, first, what, z, hide)
            elif step == "scaling":
                other = Grid.__new__(Grid)
                other.__dict__.update(g.__dict__)
                other.s = g2.s
                h.assume(g2.s != g.s)
                view(h, cam, im, other, what, z, hide)
            elif step == "Z":
                z0 = h.real("Z0", gen=(-3, 3))
                h.assume(z0 != z)
                view(h, cam, im, g, what, z0, hide)
            elif step == "hide":
                view(h, cam, im, g, what, z, False)
            elif step == "same list":  # the caller's list is changed in place
                keep = list(g.extent)
                h.assume(g2.x0 != g.x0)
                g.extent[:] = g2.extent
                view(h, cam, im, g, what, z, hide)
                g.extent[:] = keep
            elif step == "other view":
                view(h, cam, im, g, "undistort" if what == "top" else "top")
            else:
                view(h, cam, im, g, what, z, hide)
                v = h.real("new", lo=1, hi=80, gen=(1, 80)) if step not in ("k1", "k2", "k3") else h.real("new", lo=0, hi=0.05, gen=(0, 0.05))
                if step.startswith("image"):
                    v = {"image_width_px": 8, "image_height_px": 5}[step]
                else:
                    h.assume(v != getattr(cam, step))
                setattr(cam, step, v)
            out, up, source = view(h, cam, im, g, what, z, hide, skip=True)
            g.check("map", out, up, source)


make("top", "top view")
make("undistort", "undistortion")


@contract("C17", "wrong image size", mode="both")
def size(h):
    """an image of another size is rejected unless the check is disabled"""
    cam = camera(h)
    g = Grid(h)
    h.arange(g.arange)
    what = h.choose("view", ["top", "undistort"])
    im = picture(h, "gray")
    im = im[:, :5] if h.choose("size", [0, 1]) else im[:3]
    with remap(h):
        h.raises("rejected", AssertionError, lambda: view(h, cam, im, g, what))
        out, up, source = view(h, cam, im, g, what, skip=True)
        g.check("map", out, up, source)


@contract("C17", "defaults")
def defaults(h):
    """without extent: the whole image (undistortion), the seen ground (top view); without scaling: one pixel, as many pixels as the image"""
    np = h.np
    cam = camera(h)
    im = picture(h, "gray")
    what = h.choose("view", ["top", "undistort"])
    with remap(h):
        if what == "undistort":
            out = cam.undistortImage(im)
            h.check("size", tuple(out.shape[:2]) == (4, 6))
            x, y = numpy.meshgrid(numpy.arange(6), numpy.arange(4))
            want = cam.lens.distortedFromImage(np.array([x.ravel(), y.ravel()], dtype=float).T)
            for i in range(24):
                for j in range(2):
                    h.eq("source", out[i // 6, i % 6, j], want[i, j], tol=1e-4)
            return
        g = Grid(h)
        n = h.np.sqrt((g.x1 - g.x0) * (g.y1 - g.y0)) / h.np.sqrt(h.const(24.0))
        seen = []

        def arange(*a):
            r = g.arange(*a)
            if r is not None:
                seen.append(a[2])
            return r
        h.arange(arange)
        case = h.choose("given", ["extent", "scaling"])
        if case == "extent":
            g.s = n
            out = cam.getTopViewOfImage(im, extent=g.extent)
        else:
            nan = float("nan")
            b = [[g.x0, g.y0, 0], [g.x1, g.y0 + (g.y1 - g.y0) / 2, 0], [nan, nan, nan], [g.x0 + (g.x1 - g.x0) / 4, g.y1, 0]]
            cam.getImageBorder = lambda resolution=1: np.array(b)
            out = cam.getTopViewOfImage(im, scaling=g.s)
        g.check("map", out, True, lambda p: cam.imageFromSpace(np.hstack((p, np.zeros((len(p), 1))))))


@contract("C17", "with the real remap and real cameras", mode="float", trials=150, float_s=60)
def real(h):
    """every output pixel holds the input pixel nearest to the projection of its point; pixels without a source are transparent"""
    p = projection(h, h.choose("projection", PROJECTIONS), focal=(h.real("f", gen=(20, 60)), h.real("f2", gen=(20, 60))), wh=(48, 32))[0]
    p.center_x_px, p.center_y_px = h.real("ax", gen=(15, 33)), h.real("ay", gen=(10, 22))
    o = orientation(h, kind=h.choose("orientation", ["thr", "ypr"]))[0]
    cam = h.ct.Camera(p, o, lens(h, h.choose("lens", LENSES))[0])
    what = h.choose("view", ["top", "undistort"])
    kind = h.choose("image", ["gray", "rgb", "rgba"])
    im = numpy.random.RandomState(5).randint(0, 256, (32, 48) if kind == "gray" else (32, 48, 3 if kind == "rgb" else 4)).astype("uint8")
    before = im.copy()
    for tag in ("", "2"):
        g = Grid(h, tag)
        if what == "undistort":
            g.s = g.s * 1.5
            g.x1, g.y1 = g.x0 + 40 * g.s, g.y0 + 20 * g.s
            g.extent = [g.x0, g.x1, g.y0, g.y1]
        z = h.real("Z" + tag, gen=(-3, 3)) if what == "top" else None
        out, up, source = view(h, cam, im, g, what, z, h.choose("hide" + tag, [True, False]) if what == "top" else None)
        x, y = g.points(up)
        pos = source(numpy.array([x.ravel(), y.ravel()]).T).reshape(x.shape + (2,))
        h.check("size", out.shape[:2] == x.shape)
        h.check("pixel type", out.dtype == im.dtype)
        bad = 0
        for i in range(x.shape[0]):
            for j in range(x.shape[1]):
                u, v = pos[i, j]
                if not numpy.isfinite(u + v) or min(abs(u - numpy.floor(u) - 0.5), abs(v - numpy.floor(v) - 0.5)) < 0.04 or max(abs(u), abs(v)) > 1e4:
                    continue
                a, b = int(round(u)), int(round(v))
                if 0 <= a < 48 and 0 <= b < 32:
                    ok = numpy.array_equal(numpy.ravel(out[i, j])[:3], numpy.ravel(im[b, a])[:3])
                    if kind != "gray":
                        ok = ok and out[i, j][3] == (255 if kind == "rgb" else im[b, a][3])
                else:
                    ok = kind == "gray" or out[i, j][3] == 0
                bad += not ok
        h.check("pixels", bad == 0)
    h.check("image not modified", numpy.array_equal(im, before))


@contract("C17", "shown picture", trials=100)
def shown(h):
    """do_plot shows the returned picture once, in its extent, after any other call; the picture is the same as without showing it"""
    import matplotlib.pyplot as plt
    cam = camera(h)
    g, g2 = Grid(h), Grid(h, "2")
    rest = g.others()

    def arange(*a):
        r = g.arange(*a)
        return r if r is not None else rest(*a)
    h.arange(arange)
    im = picture(h, h.choose("image", ["gray", "rgb"]))
    what = h.choose("view", ["top", "undistort"])
    f = cam.getTopViewOfImage if what == "top" else cam.undistortImage
    calls = []
    keep = plt.imshow
    plt.imshow = lambda *a, **k: calls.append((a, k))
    try:
        with remap(h):
            before = h.choose("before", ["nothing", "same", "other"])
            if before == "same":
                f(im, extent=g.extent, scaling=g.s)
            elif before == "other":
                h.assume(g2.x0 != g.x0)
                f(im, extent=g2.extent, scaling=g.s)
            given = list(g.extent)
            plain = calls[:]
            alpha = h.choose("alpha", [None, 0.5])
            out = f(im, extent=g.extent, scaling=g.s, do_plot=True, alpha=alpha)
            h.check("only shown when asked to", not plain)
            h.check("shown once", len(calls) == 1)
            a, k = calls[0]
            h.check("the returned picture", a[0] is out)
            h.check("transparency", k.get("alpha") == alpha)
            e = k["extent"]
            h.eq("left", e[0], g.x0)
            h.eq("right", e[1], g.x1)
            if what == "top":
                h.eq("bottom", e[2], g.y0)
                h.eq("top", e[3], g.y1)
            else:  # rows of the image count downwards
                h.eq("height", e[2] - e[3], g.y1 - g.y0, scale=abs(g.y0) + abs(g.y1) if not h.sym else 1)
            h.check("extent not modified", all(x is y for x, y in zip(given, g.extent)))
            again = f(im, extent=g.extent, scaling=g.s)
            h.eq("same picture", again, out)
    finally:
        plt.imshow = keep
