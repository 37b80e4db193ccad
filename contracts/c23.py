"""C23 Fit terms score exactly the deviation between observation and camera.

Each term is checked against the normal log density of the quantity computed by the method of the camera that computes it (getObjectHeight,
getObjectLength, getImageHorizon, getRay, getBaseline - their own contracts are C19, C21, C02/C07); these methods are arbitrary functions of
pixels and current parameters. scipy.stats.norm is represented by its contract, the normal log density."""
import numpy
from .common import contract, positive_projection, orientation, PROJECTIONS, SHORT

INF = float("inf")


def logn(h, x, loc, s):
    """normal log density"""
    np = h.np
    if h.sym:
        return -((x - loc) / s) * ((x - loc) / s) / 2 - np.log(s) - h.uf("half_log_2pi", 0)
    return -((x - loc) / s) ** 2 / 2 - numpy.log(s) - 0.5 * numpy.log(2 * numpy.pi)


class Abstract(object):
    """a camera whose measurements are arbitrary functions of their pixels and of two current parameters"""
    def __init__(self, h, **methods):
        ct, np = h.ct, h.np

        class Cam(ct.Camera):
            pass
        self.h = h
        cam = self.cam = Cam(ct.RectilinearProjection(focallength_px=1000, image=(200, 100)), ct.SpatialOrientation())
        self.state("before")
        for n, f in methods.items():
            setattr(Cam, n, f)

    def state(self, tag):
        h = self.h
        self.cam.elevation_m = h.real("elevation " + tag, gen=(1, 20))
        self.cam.tilt_deg = h.real("tilt " + tag, gen=(0, 90))

    def now(self):
        return self.cam.elevation_m, self.cam.tilt_deg


def measure(h, name):
    """an arbitrary measurement of two lists of pixels"""
    def f(self, a, b, Z=0):
        np = h.np
        a, b = np.asarray(a), np.asarray(b)
        return h.uf(name, a[..., 0], a[..., 1], b[..., 0], b[..., 1], Z + 0 * a[..., 0], self.elevation_m + 0 * a[..., 0], self.tilt_deg + 0 * a[..., 0])
    return f


BATCH = [None, "N"]


def sizes(h, b, name):
    """a known size: common or one per object"""
    if b and h.choose("known size", ["common", "each"]) == "each":
        return h.col(name, b, gen=(0.5, 3))
    return h.real(name, gen=(0.5, 3))


def spread(h, b, kinds):
    kind = h.choose("variation", kinds)
    s = h.real("sigma", lo=0, lo_strict=True, gen=(0.1, 2))
    return kind, s


def sum_all(h, v):
    return h.np.sum(v)


def fitted(h, s):
    """a fitted parameter: something with a current value"""
    p = h.ct.FitParameter("sigma", distribution=object(), value=s)
    return p


for what in ("height", "length"):
    for b in BATCH:
        @contract("C23", "object %s %s" % (what, "list" if b else "single"), trials=150)
        def objects(h, what=what, b=b):
            """the sum of the log densities of the measured sizes, with current parameters and a fixed or fitted variation"""
            np = h.np
            A = Abstract(h, **{"getObjectHeight": measure(h, "height"), "getObjectLength": measure(h, "length")})
            a, q = h.rows("a", 2, b, gen=(0, 100)), h.rows("b", 2, b, gen=(0, 100))
            size = sizes(h, b, "size")
            kind, s = spread(h, b, ["fixed", "fitted", "each"] if b else ["fixed", "fitted"])
            if not h.sym and kind == "fixed" and h.choose("type", ["float", "numpy integer", "integer"]) != "float":
                s = numpy.int64(2) if h.choose("numpy", [False, True]) else 2
            Z = 0
            if kind == "each":
                s = h.col("sigmas", b, lo=0, lo_strict=True, gen=(0.1, 2))
            v = fitted(h, s) if kind == "fitted" else float(s) if kind == "fixed" and h.sym is None else s
            kw = {}
            if what == "length" and h.choose("plane", [False, True]):
                Z = h.real("Z", gen=(-2, 2))
                kw = {"Z": Z}
            add = A.cam.addObjectHeightInformation if what == "height" else A.cam.addObjectLengthInformation
            plot = h.choose("only plot", [False, True])
            add(a, q, size, v, only_plot=plot, **kw)
            if plot:
                return h.check("no term", float(A.cam.getLogProbability()) == 0)
            h.check("fitted variation is a parameter of the fit", len(A.cam.additional_parameters) == (1 if kind == "fitted" else 0))
            for tag in (None, "after"):
                if tag:
                    A.state(tag)
                    if kind == "fitted":
                        s = h.real("sigma after", lo=0, lo_strict=True, gen=(0.1, 2))
                        v.set_value(s)
                m = measure(h, what)(A.cam, a, q, Z)
                h.eq("log probability", A.cam.getLogProbability(), sum_all(h, logn(h, m, size, s)))


for b in BATCH:
    @contract("C23", "horizon %s" % ("list" if b else "single"), trials=100)
    def horizon(h, b=b):
        """the log density of the deviation between the observed and the current row of the horizon"""
        np = h.np

        def getImageHorizon(self, pointsX=None):
            x = np.asarray(pointsX)
            y = h.uf("row", x, self.elevation_m + 0 * x, self.tilt_deg + 0 * x)
            return np.array([x, y]).T
        A = Abstract(h, getImageHorizon=getImageHorizon)
        p = h.rows("horizon", 2, b, gen=(0, 100))
        s = h.real("sigma", lo=0, lo_strict=True, gen=(0.1, 20))
        plot = h.choose("only plot", [False, True])
        A.cam.addHorizonInformation(p, s, only_plot=plot)
        if plot:
            return h.check("no term", float(A.cam.getLogProbability()) == 0)
        for tag in (None, "after"):
            if tag:
                A.state(tag)
            y = getImageHorizon(A.cam, p[..., 0])[..., 1]
            h.eq("log probability", A.cam.getLogProbability(), sum_all(h, logn(h, p[..., 1] - y, 0, s)))


SAMPLES = 1000


for gps in (False, True):
    for b in (None, "N"):
        for kind in ("each dimension", "each landmark") if b else ("each dimension",):
            @contract("C23", "landmarks %s %s %s" % ("gps" if gps else "space", "list" if b else "single", kind), trials=60)
            def landmarks(h, gps=gps, b=b, kind=kind):
                """the log density of the landmark position at samples along its viewing ray, around the point of the ray closest to the landmark;
                with the current parameters"""
                np = h.np

                def frame(x, y, tilt):
                    """viewing direction (an arbitrary direction depending on the pixel and on the parameters of the camera) and two directions across"""
                    az, el = [h.uf(n, x, y, tilt + 0 * x) for n in ("azimuth", "height")]
                    ca, sa, ce, se = np.cos(az), np.sin(az), np.cos(el), np.sin(el)
                    return [ca * ce, sa * ce, se], [-sa, ca, 0 * x], [-ca * se, -sa * se, ce]

                def getRay(self, points, normed=False):
                    h.check("normed rays", bool(normed))
                    points = np.asarray(points)
                    d = np.array(frame(points[..., 0] * 1.0, points[..., 1] * 1.0, self.tilt_deg)[0]).T
                    return np.array([self.pos_x_m, self.pos_y_m, self.elevation_m]), d

                def shift(lat, lon):
                    return [10 * h.uf("geo%d" % i, lat, lon) for i in range(3)]

                def spaceFromGPS(self, points):
                    points, o = np.asarray(points), shift(self.gps_lat, self.gps_lon)
                    return np.array([points[..., i] + o[i] for i in range(3)]).T
                A = Abstract(h, getRay=getRay, spaceFromGPS=spaceFromGPS)
                cam = A.cam
                px = h.rows("pixel", 2, b, gen=(0, 100))
                s = h.rows("sigma", 3, b if kind == "each landmark" else None, lo=0, lo_strict=True, gen=(0.1, 2))
                # the parameters with which the term is evaluated
                final = {"elevation_m": h.real("z", gen=(1, 20)), "tilt_deg": h.real("tilt", gen=(0, 90)), "pos_x_m": h.real("x", gen=(-5, 5)), "pos_y_m": h.real("y", gen=(-5, 5)),
                         "gps_lat": h.real("lat", gen=(-80, 80)), "gps_lon": h.real("lon", gen=(-80, 80))}
                C = [final["pos_x_m"], final["pos_y_m"], final["elevation_m"]]
                # any landmark in front of the camera: at distance k along the ray of its pixel, and anywhere across
                d, e1, e2 = frame(px[..., 0] * 1.0, px[..., 1] * 1.0, final["tilt_deg"])
                k, u, v = [h.col(n, b, gen=g, **kw) if b else h.real(n, gen=g, **kw) for n, g, kw in (("k", (0.5, 30), {"lo": 0, "lo_strict": True}), ("u", (-3, 3), {}), ("v", (-3, 3), {}))]
                L = [C[j] + k * d[j] + u * e1[j] + v * e2[j] for j in range(3)]
                P = np.array([L[j] - (shift(final["gps_lat"], final["gps_lon"])[j] if gps else 0) for j in range(3)]).T
                moved = h.choose("moved", [False, True])
                if not moved:
                    for n, value in final.items():
                        setattr(cam, n, value)
                t = h.real("sample", gen=(-4, 4))
                if h.sym:
                    # the range of the samples is the subject of the concrete runs
                    def linspace(lo, hi, n, endpoint):
                        return h.axis("S", 0, 1, t)
                    h.c.linspace_hook = linspace
                    h.hook("numpy.max", lambda *a, **k: 1)
                (cam.addLandmarkInformationGPS if gps else cam.addLandmarkInformation)(px, P, s)
                if moved:
                    for n, value in final.items():
                        setattr(cam, n, value)
                L, d = np.array(L).T, np.array(d).T
                if h.sym:
                    at = [C[j] + d[..., j] * (k + t) for j in range(3)]
                    want = sum(logn(h, at[j], L[..., j], s[..., j]) for j in range(3))
                    want = h.axis_sum(["N", "S"] if b else ["S"], want)
                else:
                    off = numpy.linspace(-2 * numpy.max(s), 2 * numpy.max(s), SAMPLES)
                    want = 0
                    for j in range(3):
                        at = C[j] + numpy.asarray(d[..., j])[..., None] * (numpy.asarray(k)[..., None] + off)
                        want = want + numpy.sum(logn(h, at, numpy.asarray(L[..., j])[..., None], numpy.asarray(s[..., j])[..., None]))
                h.eq("log probability", cam.getLogProbability(), want, scale=1e5)


# ---------------------------------------------------------------------------------------------------------------------
# groups
# ---------------------------------------------------------------------------------------------------------------------
def make_group(h):
    ct = h.ct
    o = [ct.SpatialOrientation(elevation_m=5, pos_x_m=h.real("x%d" % i, gen=(-20, 20)), pos_y_m=h.real("y%d" % i, gen=(-20, 20)), tilt_deg=60) for i in (0, 1)]
    return ct.CameraGroup(ct.RectilinearProjection(focallength_px=1000, image=(200, 100)), o), o


@contract("C23", "baseline")
def baseline(h):
    """the log density of the current horizontal distance between the two cameras"""
    g, o = make_group(h)
    want = h.real("target", gen=(1, 30))
    if h.choose("uncertainty", ["given", "default"]) == "given":
        s = h.real("sigma", lo=0, lo_strict=True, gen=(0.1, 5))
        g.addBaselineInformation(want, uncertainty=s)
    else:
        s = 6
        g.addBaselineInformation(want)
    if h.choose("moved", [False, True]):
        for i in (0, 1):
            o[i].pos_x_m, o[i].pos_y_m = h.real("x%d after" % i, gen=(-20, 20)), h.real("y%d after" % i, gen=(-20, 20))
    u, v = o[0].pos_x_m - o[1].pos_x_m, o[0].pos_y_m - o[1].pos_y_m
    d = h.np.sqrt(u * u + v * v)
    h.eq("baseline", g.getBaseline(), d)
    h.eq("log probability", g.getLogProbability(), logn(h, d, want, s))


def abstract_pair(h):
    """a group of two cameras whose rays and projections are arbitrary functions of their current tilt"""
    np, ct = h.np, h.ct
    g, o = make_group(h)

    def rays(i):
        def getRay(points, normed=False):
            points = np.asarray(points)
            x, y = points[..., 0] * 1.0, points[..., 1] * 1.0
            return np.array([o[i].pos_x_m, o[i].pos_y_m, o[i].elevation_m]), np.array([h.uf("ray%d.%d" % (i, j), x, y, o[i].tilt_deg + 0 * x) for j in range(3)]).T

        def imageFromSpace(points, hide_backpoints=True):
            points = np.asarray(points)
            x = [points[..., j] for j in range(3)]
            behind = h.uf("depth%d" % i, x[0], x[1], x[2], o[i].tilt_deg + 0 * x[0]) > 0
            return np.array([np.where(hide_backpoints & behind, np.nan, h.uf("image%d.%d" % (i, j), x[0], x[1], x[2], o[i].tilt_deg + 0 * x[0]))
                             for j in range(2)]).T
        return getRay, imageFromSpace
    R = [rays(i) for i in (0, 1)]
    for i in (0, 1):
        g[i].getRay, g[i].imageFromSpace = R[i]
    return g, o, R


def line_distance2(h, p, a, b):
    """squared distance of the pixel p from the line through the pixels a and b"""
    u = [b[..., j] - a[..., j] for j in (0, 1)]
    w = [p[..., j] - a[..., j] for j in (0, 1)]
    c = u[0] * w[1] - u[1] * w[0]
    return c * c / (u[0] * u[0] + u[1] * u[1])


for b in ("N", None):
    @contract("C23", "point correspondence %s" % ("list" if b else "single"), trials=100)
    def correspondence(h, b=b):
        """the log density of the distance of each pixel from the line which the image of the ray of the other camera's pixel forms,
        in both cameras, with current parameters"""
        np = h.np
        g, o, R = abstract_pair(h)
        p = [h.rows("p%d" % i, 2, b, gen=(0, 100)) for i in (0, 1)]
        s = h.real("sigma", lo=0, lo_strict=True, gen=(0.1, 20)) if h.choose("uncertainty", ["given", "default"]) == "given" else 1
        if b is None:
            return single_correspondence(h, g, o, R, p, s)
        if h.sym or s != 1:
            g.addPointCorrespondenceInformation(p[0], p[1], uncertainty=s)
        else:
            g.addPointCorrespondenceInformation(p[0], p[1])
        if h.choose("moved", [False, True]):
            for i in (0, 1):
                o[i].tilt_deg = h.real("tilt%d" % i, gen=(0, 90))
                o[i].pos_x_m = h.real("x%d after" % i, gen=(-20, 20))
        want = 0
        for i in (0, 1):
            C, d = R[i][0](p[i])
            a, e = R[1 - i][1](C + d, False), R[1 - i][1](C + d * 2, False)
            u = e - a
            h.assume(u[..., 0] * u[..., 0] + u[..., 1] * u[..., 1] > (0 if h.sym else 1e-6))
            q = line_distance2(h, p[1 - i], a, e)
            want = want + sum_all(h, -q / (s * s) / 2 - np.log(s) - (h.uf("half_log_2pi", 0) if h.sym else 0.5 * numpy.log(2 * numpy.pi)))
        h.eq("log probability", g.getLogProbability(), want, scale=1e3)


def single_correspondence(h, g, o, R, p, s):
    """one pair, as list of one"""
    np = h.np
    g.addPointCorrespondenceInformation(np.array([p[0]]), np.array([p[1]]), uncertainty=s)
    want = 0
    for i in (0, 1):
        C, d = R[i][0](p[i])
        a, e = R[1 - i][1](C + d, False), R[1 - i][1](C + d * 2, False)
        u = e - a
        h.assume(u[0] * u[0] + u[1] * u[1] > (0 if h.sym else 1e-6))
        q = line_distance2(h, p[1 - i], a, e)
        want = want - q / (s * s) / 2 - np.log(s) - (h.uf("half_log_2pi", 0) if h.sym else 0.5 * numpy.log(2 * numpy.pi))
    h.eq("log probability", g.getLogProbability(), want, scale=1e3)


# ---------------------------------------------------------------------------------------------------------------------
# sums
# ---------------------------------------------------------------------------------------------------------------------
def term(h, name, kind, cam):
    if kind == "finite":
        return lambda: h.uf(name, cam.elevation_m)
    return lambda: float(kind)


KINDS = ["finite", "nan", "-inf"]


def total(h, cam, names, kinds):
    if "nan" in kinds or "-inf" in kinds:
        return -INF
    return sum(h.uf(n, cam.elevation_m) for n in names) if names else 0


@contract("C23", "sum of a camera")
def camera_sum(h):
    """the total is the sum of all terms added (and not cleared), undefined counts as minus infinity"""
    A = Abstract(h)
    n = h.choose("terms", [0, 1, 2, 3])
    kinds = [h.choose("kind%d" % i, KINDS) for i in range(n)]
    for i in range(n):
        A.cam.addCustomoLogProbability(term(h, "t%d" % i, kinds[i], A.cam))
    check_total(h, A.cam.getLogProbability(), total(h, A.cam, ["t%d" % i for i in range(n)], kinds))
    A.state("after")
    check_total(h, A.cam.getLogProbability(), total(h, A.cam, ["t%d" % i for i in range(n)], kinds))
    A.cam.clearLogProbability()
    h.check("cleared", float(A.cam.getLogProbability()) == 0)
    A.cam.addCustomoLogProbability(term(h, "new", "finite", A.cam))
    h.eq("after clearing", A.cam.getLogProbability(), h.uf("new", A.cam.elevation_m))
    other = h.ct.Camera(h.ct.RectilinearProjection(focallength_px=1000, image=(200, 100)))
    h.check("other cameras have no terms", float(other.getLogProbability()) == 0)


def check_total(h, got, want):
    if not h.is_symbolic(want) and want == -INF:
        h.check("minus infinity", got == -INF)
    else:
        h.eq("sum", got, want)


@contract("C23", "sum of a group")
def group_sum(h):
    """the total of a group is the sum of its own terms and those of all its cameras"""
    g, o = make_group(h)
    ng, n0, n1 = h.choose("numbers", [(0, 1, 1), (1, 0, 1), (1, 1, 0), (1, 1, 1), (2, 1, 2), (0, 0, 0)])
    bad = h.choose("undefined", [None, "nan", "-inf"]) if ng + n0 + n1 else None
    where = h.choose("where", [k for k, n in (("g", ng), ("0", n0), ("1", n1)) if n]) if bad else None
    want = 0
    for tag, obj, n in (("g", g, ng), ("0", g[0], n0), ("1", g[1], n1)):
        for i in range(n):
            kind = bad if where == tag and i == 0 else "finite"
            obj.addCustomoLogProbability((lambda kind=kind, t=tag + str(i): h.uf("t" + t, o[0].pos_x_m, o[1].pos_y_m) if kind == "finite" else float(kind)))
            want = want + (h.uf("t" + tag + str(i), o[0].pos_x_m, o[1].pos_y_m))
    check_total(h, g.getLogProbability(), -INF if bad else want)


@contract("C23", "several terms", trials=60)
def several(h):
    """terms of different kinds add up and do not influence each other"""
    np = h.np

    def getImageHorizon(self, pointsX=None):
        x = np.asarray(pointsX)
        y = h.uf("row", x, self.elevation_m + 0 * x, self.tilt_deg + 0 * x)
        return np.array([x, y]).T
    A = Abstract(h, getObjectHeight=measure(h, "height"), getObjectLength=measure(h, "length"), getImageHorizon=getImageHorizon)
    order = h.choose("order", [(0, 1, 2), (2, 1, 0), (0, 0, 2), (1, 1)])
    want = []
    for m, i in enumerate(order):
        tag = str(m)
        a, q = h.rows("a" + tag, 2, "N", gen=(0, 100)), h.rows("b" + tag, 2, "N", gen=(0, 100))
        size, s = h.real("size" + tag, gen=(0.5, 3)), h.real("sigma" + tag, lo=0, lo_strict=True, gen=(0.1, 2))
        if i == 2:
            A.cam.addHorizonInformation(a, s)
            want.append(lambda a=a, s=s: sum_all(h, logn(h, a[..., 1] - getImageHorizon(A.cam, a[..., 0])[..., 1], 0, s)))
        else:
            v = fitted(h, s)
            what = ("height", "length")[i]
            (A.cam.addObjectHeightInformation, A.cam.addObjectLengthInformation)[i](a, q, size, v)
            want.append(lambda a=a, q=q, size=size, v=v, what=what: sum_all(h, logn(h, measure(h, what)(A.cam, a, q), size, v.value[()])))
    h.eq("sum", A.cam.getLogProbability(), sum(w() for w in want), scale=100)
    A.state("after")
    h.eq("sum with changed parameters", A.cam.getLogProbability(), sum(w() for w in want), scale=100)


@contract("C23", "real cameras", mode="float", trials=60)
def real(h):
    """all terms of real cameras in a group, against the measured quantities (bounded: concrete runs)"""
    from scipy import stats
    ct = h.ct
    kind = h.choose("projection", PROJECTIONS)
    p = getattr(ct, kind)(focallength_px=h.real("f", gen=(50, 100)), image=(40, 30))
    cams = [ct.SpatialOrientation(elevation_m=h.real("z%d" % i, gen=(2, 9)), tilt_deg=h.real("tilt%d" % i, gen=(40, 80)), roll_deg=h.real("roll%d" % i, gen=(-9, 9)),
                                  heading_deg=h.real("heading%d" % i, gen=(-20, 20)), pos_x_m=h.real("x%d" % i, gen=(-5, 5)), pos_y_m=h.real("y%d" % i, gen=(-5, 5))) for i in (0, 1)]
    g = ct.CameraGroup(p, cams)
    c = g[h.choose("camera", [0, 1])]
    n = h.choose("objects", [1, 2, 5])
    r = numpy.random.RandomState(int(abs(c.tilt_deg) * 1000))
    px = lambda: r.uniform(0, 30, (n, 2)) + [0, 10]
    a, b = px(), px()
    c.addObjectHeightInformation(a, b, 1.5, 0.3)
    c.addObjectLengthInformation(b, a, 2.5, 0.7, Z=0.5)
    c.addHorizonInformation(a, 3.0)
    g.addBaselineInformation(4, 2)
    g.addPointCorrespondenceInformation(a, b)
    c.tilt_deg = c.tilt_deg - 5
    want = numpy.sum(stats.norm.logpdf(c.getObjectHeight(a, b), 1.5, 0.3)) + numpy.sum(stats.norm.logpdf(c.getObjectLength(b, a, Z=0.5), 2.5, 0.7))
    want += numpy.sum(stats.norm.logpdf(c.getImageHorizon(a[:, 0])[:, 1], a[:, 1], 3.0))
    want += stats.norm.logpdf(numpy.hypot(cams[0].pos_x_m - cams[1].pos_x_m, cams[0].pos_y_m - cams[1].pos_y_m), 4, 2)
    for i in (0, 1):
        C, d = g[i].getRay((a, b)[i])
        q = (b, a)[i]
        e, f = [g[1 - i].imageFromSpace(C + l * d, hide_backpoints=False) for l in (1, 2)]
        want += numpy.sum(stats.norm.logpdf(numpy.sqrt(line_distance2(h, q, e, f)), 0, 1))
    got = g.getLogProbability()
    if want != want:
        h.check("undefined", got == -INF)
    else:
        h.eq("log probability", got, want, scale=abs(want) + 1)
