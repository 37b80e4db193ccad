"""C06 Saving and loading reproduces the same camera."""
from .common import contract, PROJECTIONS
from .c22 import ORI, LENS, PROJ, GPS
from .c05 import value, names_of, fresh, compare, setup_camera, pixel, R, T, Y, N, B, A

C, E = PROJECTIONS[1:]


def same_parameters(h, a, b, what=""):
    na, nb = sorted(a.parameters.parameters), sorted(b.parameters.parameters)
    h.eq("parameter names" + what, " ".join(nb), " ".join(na))
    for n in na:
        h.eq("parameter" + what, getattr(b, n), getattr(a, n))


def prior(h, tag="prior"):
    """an object of arbitrary previous state that loads the file"""
    ct = h.ct
    k = h.choose(tag, ["load_camera", "same kind", "other kind"])
    return k


def camera_contract(pk, ok, lk):
    nm = "camera.%s.%s.%s" % (pk[:4].lower(), "ypr" if "Yaw" in ok else "thr", lk[:3].lower())

    @contract("C06", nm, trials=60, float_s=8, budget=200)
    def camera(h):
        """save + load gives the same models, the same parameter values and the same transformations; later changes work"""
        ct = h.ct
        cam, v = setup_camera(h, pk, ok, lk, h.choose("start", ["values", "defaults", "fit", "pairs"]))
        f = h.choose("common focal length", [False, True])
        if f:
            cam.focallength_px = value(h, "focallength_px")
            v["focallength_x_px"] = v["focallength_y_px"] = value(h, "focallength_px")
            if h.choose("then single", [False, True]):
                cam.focallength_x_px = v["focallength_x_px"] = value(h, "focallength_x_px", ".2")
        if h.choose("gps", [False, True]):
            v["gps_lat"], v["gps_lon"], v["elevation_m"] = value(h, "gps_lat", ".2"), value(h, "gps_lon", ".2"), value(h, "elevation_m", ".2")
            cam.setGPSpos(v["gps_lat"], v["gps_lon"], v["elevation_m"])
        path = h.path("cam.json")
        loader = h.choose("loader", ["load_camera", "same kind", "other kind"])
        if loader == "other kind":
            # the file exists already, with other content
            other = ct.Camera(ct.CylindricalProjection(focallength_px=5.5, image=(3, 2)), ct.SpatialOrientation(tilt_deg=1.25), ct.BrownLensDistortion(0.001))
            other.save(path)
        cam.save(path)
        if loader == "load_camera":
            c2 = ct.load_camera(path)
        elif loader == "same kind":
            c2 = ct.Camera(getattr(ct, pk)(focallength_px=777.0, image=(33, 22)), getattr(ct, ok)(pos_x_m=17, roll_deg=3), getattr(ct, lk)())
            c2.setGPSpos(1.0, 2.0, 3.0)
            c2.load(path)
        else:
            c2 = ct.Camera(ct.EquirectangularProjection(view_x_deg=60, image=(33, 22)), ct.SpatialOrientationYawPitchRoll(yaw_deg=12),
                           ct.ABCDistortion(0.01, 0.002, 0.003))
            c2.load(path)
        for a, n in ((c2.projection, pk), (c2.orientation, ok), (c2.lens, lk)):
            h.eq("model", type(a).__name__, n)
        same_parameters(h, cam, c2)
        for n in v:
            h.eq("value", getattr(c2, n), v[n])
        ref = fresh(h, pk, ok, lk, v)
        px = pixel(h, pk, v, "")
        c = h.vec("c", 3, gens=[(0.1, 5), (-5, 5), (-5, 5)])
        m = h.pos("depth", gen=(1, 50))
        h.assume(m >= 1e-9)
        h.assume(c[0] > 0)
        P = ref.orientation.spaceFromCamera(h.np.array([c[0] * m, c[1] * m, -m]))
        compare(h, c2, ref, P, px, rays=pk != E or lk == N or not h.sym)
        # the loaded camera stays alive: a change takes effect
        n = ORI[ok][1]
        c2.__setattr__(n, value(h, n, ".later"))
        v[n] = value(h, n, ".later")
        ref = fresh(h, pk, ok, lk, v)
        h.eq("later change", c2.imageFromSpace(P), ref.imageFromSpace(P)) if not h.sym else None
        h.eq("later change", c2.orientation.spaceFromCamera(P), ref.orientation.spaceFromCamera(P))


for _pk in PROJECTIONS:
    for _ok in (T, Y):
        for _lk in (N, B, A):
            if _pk == R or (_ok == T) == (_lk == N) or _lk == B:
                camera_contract(_pk, _ok, _lk)


@contract("C06", "parts", trials=200)
def parts(h):
    """saving and loading a projection, orientation or lens of any kind, alone or as part of a camera, into any previous state"""
    ct = h.ct
    h.ideal_inverse()
    kind = h.choose("part", PROJECTIONS + [T, Y, B, A, N])
    cls = getattr(ct, kind)
    proj = kind in PROJECTIONS
    names = PROJ if proj else ORI[kind] if kind in ORI else LENS[kind]
    attached = h.choose("attached", [False, True])

    def make(kw):
        x = cls(**kw)
        if attached:
            if proj:
                h_ = ct.Camera(x, ct.SpatialOrientation(), ct.BrownLensDistortion())
            elif kind in ORI:
                h_ = ct.Camera(ct.RectilinearProjection(focallength_px=10, image=(20, 30)), x)
            else:
                h_ = ct.Camera(ct.RectilinearProjection(focallength_px=10, image=(20, 30)), lens=x)
        return x
    v = {n: value(h, n) for n in names}
    how = h.choose("values", ["constructor", "set", "default", "none"] if not proj else ["constructor", "set"])
    if how == "constructor":
        a = make(v)
    elif how == "set":
        a = make({"focallength_px": 3, "image": (5, 6)} if proj else {})
        if proj and h.choose("common focal length", [False, True]):
            a.focallength_px = value(h, "focallength_px")
        for n in names:
            setattr(a, n, v[n])
    elif how == "default":
        a = make({})
        for n in names:
            setattr(a.defaults, n, v[n])
    else:
        a = make({})
        v = {n: getattr(a, n) for n in names}
    path = h.path("part.json")
    a.save(path)
    b = make(dict({"focallength_px": 77, "image": (50, 60)}) if proj else {names[0]: 0.005} if names and h.choose("prior value", [0, 1]) else {})
    b.load(path)
    h.eq("names", " ".join(sorted(b.parameters.parameters)), " ".join(sorted(a.parameters.parameters)))
    for n in a.parameters.parameters:
        h.eq("parameter", getattr(b, n), getattr(a, n))
    for n in names:
        h.eq("value", getattr(b, n), v[n])
    px = h.vec("px", 2, gen=(0, 30))
    P = h.vec("P", 3, gens=[(0.1, 5), (-5, 5), (-50, -1)])
    h.assume(P[2] <= -1e-9)
    h.assume(P[0] > 0)
    if proj:
        px = pixel(h, kind, v, "")
        h.eq("imageFromCamera", b.imageFromCamera(P), a.imageFromCamera(P))
        h.eq("getRay", b.getRay(px), a.getRay(px))
    elif kind in ORI:
        h.eq("cameraFromSpace", b.cameraFromSpace(P), a.cameraFromSpace(P))
        h.eq("spaceFromCamera", b.spaceFromCamera(P), a.spaceFromCamera(P))
    else:
        h.assume(px[0] > 10)
        h.eq("distorted", b.distortedFromImage(px), a.distortedFromImage(px))
        h.eq("undistorted", b.imageFromDistorted(px), a.imageFromDistorted(px))


@contract("C06", "number-types", mode="float", trials=200)
def number_types(h):
    """every kind of number the API accepts is saved exactly (bounded: concrete runs with real files)"""
    import numpy
    ct = h.ct
    pk = h.choose("projection", PROJECTIONS)
    ok = h.choose("orientation", [T, Y])
    lk = h.choose("lens", [N, B, A])
    t = h.choose("type", [float, int, numpy.float64, numpy.float32, numpy.int64, numpy.int32, numpy.array, bool])
    names = names_of(pk, ok, lk)
    v = {n: t(value(h, n) if t is not int else int(value(h, n))) for n in names}
    if t is bool:
        v = {n: value(h, n) for n in names}
        for n in names:
            if n.startswith("k") or n in ("a", "b", "c"):
                v[n] = -v[n] * 1e-3
            elif not n.startswith(("im", "fo", "se")):
                v[n] = -1e-300 if h.choose("tiny " + n, [0, 1]) else v[n] * 1e12 if not n.endswith("_deg") else v[n] / 3
    cam = fresh(h, pk, ok, lk, v)
    path = h.path("c.json")
    cam.save(path)
    c2 = ct.load_camera(path)
    c2.save(h.path("d.json"))
    c3 = ct.load_camera(h.path("d.json"))
    for n in names:
        h.check("exact value", float(getattr(c2, n)) == float(v[n]))
        h.check("exact value after two rounds", float(getattr(c3, n)) == float(v[n]))
    if t is not bool:
        px = pixel(h, pk, v, "")
        h.eq("ray", c2.getRay(px)[1], cam.getRay(px)[1])
    if t in (int, numpy.int64, numpy.int32):
        # a size given as an integer can still be used as the size of an image
        h.check("integer size", all(range(getattr(c2, n)) == range(int(v[n])) for n in ("image_width_px", "image_height_px")))
    l2 = getattr(ct, lk)()
    cam.lens.save(h.path("l.json"))
    l2.load(h.path("l.json"))
    for n in LENS[lk]:
        h.check("exact lens value", float(getattr(l2, n)) == float(v[n]))
