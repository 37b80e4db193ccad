"""C24 Stereo calibration reproduces the relative pose, and its error is the epipolar distance.

cv2.findEssentialMat and cv2.recoverPose are represented by their contract: the pose is a rotation M and a unit translation u with
x2 = M x1 + u (scaled by the distance of the cameras) in OpenCV's coordinates (x right, y down, z forward). For *any* such pose the second
camera must see every point of space where the pose says. One contract runs the real OpenCV on images of random points."""
import contextlib
import io
import numpy
from .common import contract
from .c03 import matrix
from .c23 import abstract_pair, line_distance2

FLIP = (1, -1, -1)


class pose(object):
    """the two functions of OpenCV: hand over the correspondences, give back the pose"""
    def __init__(self, h, M, u, points, K):
        self.h, self.M, self.u, self.points, self.K = h, M, u, points, K
        self.E = numpy.eye(3)

    def given(self, a, b, intrinsics):
        h = self.h
        for i, p in enumerate((a, b)):
            h.eq("pixels of camera %d" % (i + 1), p, self.points[i])
        f, cx, cy = self.K
        if len(intrinsics) == 1 and numpy.ndim(intrinsics[0]) == 2:
            k = intrinsics[0]
            got = [k[0, 0], k[1, 1], k[0, 2], k[1, 2]]
        else:
            got = [intrinsics[0], intrinsics[0], intrinsics[1][0], intrinsics[1][1]] if len(intrinsics) == 2 else [1, 1, 0, 0]
        for n, x, y in zip(("f", "f", "cx", "cy"), got, (f, f, cx, cy)):
            h.eq("intrinsic parameter " + n, x, y)

    def essential(self, a, b, *intrinsics, **kw):
        intrinsics = intrinsics + tuple(kw[k] for k in ("cameraMatrix",) if k in kw) + ((kw["focal"], kw["pp"]) if "focal" in kw else ())
        self.given(a, b, intrinsics[:1] if numpy.ndim(intrinsics[0]) == 2 else intrinsics[:2])
        return self.E, None

    def recover(self, E, a, b, *intrinsics, **kw):
        intrinsics = intrinsics + tuple(kw[k] for k in ("cameraMatrix",) if k in kw) + ((kw["focal"], kw["pp"]) if "focal" in kw else ())
        self.h.check("the essential matrix is handed on", E is self.E)
        self.given(a, b, intrinsics[:1] if numpy.ndim(intrinsics[0]) == 2 else intrinsics[:2])
        np = self.h.np
        return 10, np.array(self.M), np.array([[x] for x in self.u]), None

    def __enter__(self):
        import cv2
        self.keep = cv2.findEssentialMat, cv2.recoverPose
        if self.h.sym:
            self.h.hook("cv2.findEssentialMat", self.essential)
            self.h.hook("cv2.recoverPose", self.recover)
        else:
            cv2.findEssentialMat, cv2.recoverPose = self.essential, self.recover

    def __exit__(self, *a):
        import cv2
        cv2.findEssentialMat, cv2.recoverPose = self.keep


def pair(h):
    ct = h.ct
    f, cx, cy = h.real("f", lo=0, lo_strict=True, gen=(100, 4000)), h.real("cx", gen=(0, 1000)), h.real("cy", gen=(0, 1000))
    o = [ct.SpatialOrientation(**{n: h.real(n + str(i), gen=g) for n, g in
                                  (("elevation_m", (1, 20)), ("tilt_deg", (0, 90)), ("roll_deg", (-40, 40)), ("heading_deg", (-180, 180)), ("pos_x_m", (-9, 9)), ("pos_y_m", (-9, 9)))})
         for i in (0, 1)]
    return ct.CameraGroup(ct.RectilinearProjection(focallength_px=f, center=None, center_x_px=cx, center_y_px=cy, image=(1000, 800)), o), o, (f, cx, cy)


def calibrate(h, tilt, roll, heading):
    np = h.np
    g, o, K = pair(h)
    R = matrix(h, tilt, roll, heading)
    M = [[FLIP[i] * R[i][j] * FLIP[j] for j in range(3)] for i in range(3)]
    az, el = h.angle("azimuth"), h.angle("height")
    u = [np.cos(np.deg2rad(az)) * np.cos(np.deg2rad(el)), np.sin(np.deg2rad(az)) * np.cos(np.deg2rad(el)), np.sin(np.deg2rad(el))]
    B = h.real("distance", lo=0, lo_strict=True, gen=(0.1, 20))
    before = [o[0].pos_x_m, o[0].pos_y_m, o[0].elevation_m]
    points = [h.rows("p%d" % i, 2, "N", gen=(0, 800)) for i in (0, 1)]
    with pose(h, M, u, points, K), contextlib.redirect_stdout(io.StringIO()):
        g.setCameraParametersByPointCorrespondence(points[0], points[1], B)
    P = h.vec("P", 3, gen=(-20, 20))
    first = [P[j] - before[j] for j in range(3)]
    h.eq("the first camera keeps its position and looks straight down", g[0].orientation.cameraFromSpace(np.array(P)), np.array(first))
    q = [FLIP[j] * first[j] for j in range(3)]
    want = [FLIP[i] * (sum(M[i][j] * q[j] for j in range(3)) + u[i] * B) for i in range(3)]
    h.eq("the second camera has the pose relative to it", g[1].orientation.cameraFromSpace(np.array(P)), np.array(want), scale=40)
    h.eq("the projection is the same", np.array([g[0].focallength_x_px, g[1].focallength_y_px, g[1].center_x_px, g[1].center_y_px]), np.array([K[0], K[0], K[1], K[2]]))


@contract("C24", "relative pose", trials=100)
def relative_pose(h):
    """any pose with a tilt between the cameras"""
    tilt = h.real("tilt", lo=0, hi=180, lo_strict=True, hi_strict=True, gen=(1, 179))
    st = h.np.sin(h.np.deg2rad(tilt))
    h.assume(st > 1e-7)
    calibrate(h, tilt, h.angle("roll"), h.angle("heading"))


for t in (0, 180):
    @contract("C24", "relative pose with tilt %d" % t, trials=60)
    def no_tilt(h, t=t):
        """camera axes parallel or opposite: only the sum (difference) of heading and roll is determined"""
        calibrate(h, t, h.angle("roll"), h.angle("heading"))


@contract("C24", "real correspondences", mode="float", trials=40)
def real_correspondences(h):
    """images of random points, with the real OpenCV: rays of corresponding pixels meet and triangulation gives the points (bounded)"""
    ct = h.ct
    rng = numpy.random.RandomState(int(h.real("seed", lo=0, hi=1e6, gen=(0, 1e6))))
    R = rng.uniform
    straight = h.choose("tilt", ["small", "none"]) == "none"
    o1 = ct.SpatialOrientation(elevation_m=R(-1, 1), pos_x_m=R(-1, 1), pos_y_m=R(-1, 1), tilt_deg=0, roll_deg=0, heading_deg=0)
    rel = R(-1, 1, 3) * [2, 2, 0.5]
    B = numpy.linalg.norm(rel)
    if B < 0.5:
        h.assume(False)
    o2 = ct.SpatialOrientation(pos_x_m=o1.pos_x_m + rel[0], pos_y_m=o1.pos_y_m + rel[1], elevation_m=o1.elevation_m + rel[2],
                               tilt_deg=0 if straight else R(0.5, 12), roll_deg=R(-20, 20), heading_deg=R(-20, 20))
    g = ct.CameraGroup(ct.RectilinearProjection(focallength_px=R(2000, 3000), image=(4000, 3000)), [o1, o2])
    X = numpy.array([R(-8, 8, 60), R(-8, 8, 60), R(-40, -10, 60)]).T
    a, b = g.imagesFromSpace(X)
    ok = numpy.isfinite(a).all(axis=1) & numpy.isfinite(b).all(axis=1)
    h.assume(ok.sum() > 30)
    a, b, X = a[ok], b[ok], X[ok]
    o1.tilt_deg, o2.tilt_deg, o2.heading_deg, o2.pos_x_m = 12, 40, 77, 4
    with contextlib.redirect_stdout(io.StringIO()):
        g.setCameraParametersByPointCorrespondence(a, b, B)
    h.eq("triangulated points", g.spaceFromImages(a, b), X, tol=1e-3, scale=10)
    h.eq("distance between the rays", g.discanteBetweenRays(a, b), numpy.zeros(len(a)), tol=1e-4)
    e = g.pointCorrespondenceError(a, b)
    h.eq("error", numpy.array(e), numpy.zeros((2, len(a))), tol=1e-2)


for b in ("N", None):
    @contract("C24", "error %s" % ("list" if b else "single"), trials=100)
    def error(h, b=b):
        """distance of each pixel from the line which the image of the ray of its counterpart forms, for both cameras, with current parameters"""
        np = h.np
        g, o, R = abstract_pair(h)
        p = [h.rows("p%d" % i, 2, "N", gen=(0, 100)) if b else np.array([h.vec("p%d" % i, 2, gen=(0, 100))]) for i in (0, 1)]
        if h.choose("moved", [False, True]):
            g.pointCorrespondenceError(p[0], p[1])
            for i in (0, 1):
                o[i].tilt_deg = h.real("tilt%d" % i, gen=(0, 90))
                o[i].pos_x_m = h.real("x%d after" % i, gen=(-20, 20))
        got = g.pointCorrespondenceError(p[0], p[1])
        h.check("one list for each camera", len(got) == 2)
        for i in (0, 1):
            C, d = R[i][0](p[i])
            a, e = R[1 - i][1](C + d), R[1 - i][1](C + d * 2)
            u = e - a
            h.assume(u[..., 0] * u[..., 0] + u[..., 1] * u[..., 1] > (0 if h.sym else 1e-6))
            h.eq("squared distance in camera %d" % (2 - i), got[i] * got[i], line_distance2(h, p[1 - i], a, e), scale=1e2)
            h.check("distances are not negative", bool((h.row(got[i], "N") if b else got[i][0]) >= 0))
