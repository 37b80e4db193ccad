"""C05 Parameter changes take effect immediately and everywhere.

Invariant: at every point of a history every transformation of the camera gives what a camera freshly built with the current
parameter values gives. The contracts prove the induction step: from a camera in an arbitrary state (values, defaults, fitted
values or pairs, already used once) one change through any handle re-establishes the invariant and leaves all other
parameters alone. Histories of several steps follow by induction, and are also run concretely."""
from .common import contract, PROJECTIONS
from .c22 import ORI, LENS, PROJ, GPS, Draws

PINT = ["focallength_x_px", "focallength_y_px", "center_x_px", "center_y_px"]


def value(h, n, tag=""):
    n2 = n + tag
    if n in ("k1", "k2", "k3", "a", "b", "c"):
        return h.real(n2, lo=0, hi=0.01, gen=(0, 0.01))
    if n.startswith("focal"):
        return h.real(n2, lo=100, hi=5000, gen=(500, 3000))
    if n.startswith("image"):
        return h.real(n2, lo=10, hi=8000, gen=(500, 4000))
    if n.startswith("sensor"):
        return h.real(n2, lo=1, hi=80, gen=(5, 50))
    if n.startswith("center"):
        return h.real(n2, gen=(0, 3000), special=(0,))
    if n.startswith("gps"):
        return h.real(n2, lo=-80, hi=80, gen=(-80, 80), special=(0,))
    if n.endswith("_m"):
        return h.real(n2, gen=(1, 100))
    return h.real(n2, lo=-350, hi=350, gen=(-180, 180), special=(0, 90))


def names_of(pk, ok, lk):
    return PROJ + ORI[ok] + LENS[lk] + GPS


def fresh(h, pk, ok, lk, v):
    """a camera freshly built with the given values"""
    ct = h.ct
    p = getattr(ct, pk)(**{n: v[n] for n in PROJ})
    o = getattr(ct, ok)(**{n: v[n] for n in ORI[ok]})
    l = getattr(ct, lk)(**{n: v[n] for n in LENS[lk]})
    c = ct.Camera(p, o, l)
    c.gps_lat, c.gps_lon = v["gps_lat"], v["gps_lon"]
    return c


def compare(h, cam, ref, P, px, gps=False, rays=True):
    h.eq("imageFromSpace", cam.imageFromSpace(P), ref.imageFromSpace(P))
    if rays:
        a, b = cam.getRay(px), ref.getRay(px)
        h.eq("getRay origin", a[0], b[0])
        h.eq("getRay direction", a[1], b[1])
        h.eq("spaceFromImage", cam.spaceFromImage(px, D=3.0), ref.spaceFromImage(px, D=3.0))
    else:
        h.eq("projection.getRay", cam.projection.getRay(px), ref.projection.getRay(px))
        h.eq("lens.imageFromDistorted", cam.lens.imageFromDistorted(px), ref.lens.imageFromDistorted(px))
    h.eq("getPos", cam.getPos(), ref.getPos())
    h.eq("orientation", cam.orientation.spaceFromCamera(P), ref.orientation.spaceFromCamera(P))
    h.eq("lens", cam.lens.distortedFromImage(px), ref.lens.distortedFromImage(px))
    for i in range(2):
        h.eq("field of view", cam.projection.getFieldOfView()[i], ref.projection.getFieldOfView()[i])
    if gps:
        # the module functions are replaced by arbitrary functions of their arguments (their own contracts: C11)
        G = h.module("gps")
        old = G.gpsFromSpace, G.spaceFromGPS
        if h.sym:
            def stub(name, n):
                def f(x, g):
                    x, g = h.np.asarray(x), h.np.asarray(g)
                    return h.np.array([h.uf(name + str(i), *([x[..., j] for j in range(x.shape[-1])] + [g[j] for j in range(n)])) for i in range(3)]).T
                return f
            G.gpsFromSpace, G.spaceFromGPS = stub("gpsFromSpace", 3), stub("spaceFromGPS", 2)
        try:
            Q = h.vec("Q", 3, gen=(-5000, 5000))
            h.eq("gpsFromSpace", cam.gpsFromSpace(Q), ref.gpsFromSpace(Q))
            g = h.np.array([h.real("glat", lo=-80, hi=80), h.real("glon", lo=-80, hi=80)])
            h.eq("spaceFromGPS", cam.spaceFromGPS(g), ref.spaceFromGPS(g), scale=1e5)
        finally:
            G.gpsFromSpace, G.spaceFromGPS = old


def setup_camera(h, pk, ok, lk, start):
    ct = h.ct
    h.ideal_inverse()
    names = names_of(pk, ok, lk)
    v = {n: value(h, n) for n in names}
    if start == "values":
        cam = fresh(h, pk, ok, lk, v)
    else:
        p = getattr(ct, pk)(focallength_px=777.0, image_width_px=v["image_width_px"], image_height_px=v["image_height_px"])
        cam = ct.Camera(p, getattr(ct, ok)(), getattr(ct, lk)())
        nodef = ["focallength_x_px", "focallength_y_px", "image_width_px", "image_height_px"]
        if start == "defaults":
            for n in names:
                if n in nodef:
                    setattr(cam, n, v[n])
                else:
                    setattr(cam, n, None)
                    setattr(cam.defaults, n, v[n])
        elif start == "fit":
            cam.parameters.set_fit_parameters(names, [v[n] for n in names])
        else:
            for n in names:
                setattr(cam, n, (v[n], 0.1))
    return cam, v


HOW = ["set", "default", "unset", "fit", "fit-dict", "fit two", "pair", "resample", "reset"]


def change(h, cam, v, n, part, how, where, tag=""):
    """one change of the parameter n; updates the model v of the current values"""
    hd = {"camera": cam, "parameters": cam.parameters, "part": part, "part.parameters": part.parameters}[where]
    ps = cam.parameters if where in ("camera", "parameters") else part.parameters
    new = value(h, n, ".new" + tag)
    exp = {n: new}
    if how == "set":
        setattr(hd, n, new)
    elif how == "default":
        setattr(hd, n, None)
        setattr(hd.defaults, n, new)
    elif how == "unset":
        setattr(hd.defaults, n, new)
        setattr(hd, n, None)
    elif how == "fit":
        ps.set_fit_parameters([n], [new])
    elif how == "fit-dict":
        ps.set_fit_parameters({n: new})
    elif how == "fit two":
        # positional values for several names
        other = "elevation_m" if n != "elevation_m" else "roll_deg"
        nv = value(h, other, ".other" + tag)
        cam.parameters.set_fit_parameters([other, n], [nv, new])
        exp[other] = nv
    elif how == "pair":
        setattr(hd, n, (new, 0.25))
    elif how == "resample":
        s = 1e-4
        setattr(hd, n, (new, s))
        d = Draws(h)
        (cam if where in ("camera", "parameters") or not hasattr(part, "sample") else part).sample()
        if h.sym:
            exp[n] = new + h.const(s) * d.z[0]
        else:
            exp[n] = getattr(cam, n)
            h.check("drawn value", abs(exp[n] - new) < 10 * s)
    elif how == "reset":
        setattr(hd, n, (new, 0.25))
        ps.set_fit_parameters([n], [value(h, n, ".moved" + tag)])
        (cam if where in ("camera", "parameters") else part).set_to_mean()
    v.update(exp)
    if n == "focallength_px":
        v["focallength_x_px"] = v["focallength_y_px"] = exp[n]
    for m in v:
        h.eq("parameter " + ("changed" if m == n else "others"), getattr(cam, m), v[m])


def pixel(h, pk, v, tag):
    """a pixel beside the image centre, in the angular range of the projection"""
    u = h.real("u" + tag, lo=-1.2, hi=1.2, gen=(-1, 1))
    w = h.real("w" + tag, lo=0, hi=1.2, lo_strict=True, gen=(0.01, 1))
    return h.np.array([v["center_x_px"] + v["focallength_x_px"] * u, v["center_y_px"] + v["focallength_y_px"] * w])


def nodefault(n):
    return n.startswith("focal") or n.startswith("image")


def choose_change(h, pk, ok, lk, target, tag=""):
    ns = {"projection": PROJ + ["focallength_px"], "orientation": ORI[ok], "lens": LENS[lk], "gps": GPS}[target]
    n = h.choose("parameter" + tag, ns)
    hows = [x for x in HOW if not (nodefault(n) and x in ("default", "unset"))]
    how = h.choose("how" + tag, hows)
    where = h.choose("where" + tag, ["camera", "parameters"] + (["part", "part.parameters"] if target != "gps" else []))
    return n, how, where


R, C, E = PROJECTIONS
T, Y = "SpatialOrientation", "SpatialOrientationYawPitchRoll"
N, B, A = "NoDistortion", "BrownLensDistortion", "ABCDistortion"


def step(target, pk, ok, lk):
    nm = "step.%s.%s.%s.%s" % (target, pk[:4].lower(), "ypr" if "Yaw" in ok else "thr", lk[:3].lower())

    @contract("C05", nm, budget=350 if lk == A else 200, trials=80, float_s=6)
    def one(h):
        """one change of one parameter from an arbitrary state: all transformations agree with a fresh camera"""
        n, how, where = choose_change(h, pk, ok, lk, target)
        start = h.choose("start", ["values", "defaults", "fit", "pairs"] if how == "set" and where == "camera" else
                         ["values"] if where.startswith("part") else ["defaults"] if where == "parameters" else ["fit"])
        if how == "resample" and start == "pairs":
            start = "values"
        cam, v = setup_camera(h, pk, ok, lk, start)
        part = {"projection": cam.projection, "orientation": cam.orientation, "lens": cam.lens, "gps": cam}[target]
        # use the camera before the change
        px0 = pixel(h, pk, v, "0")
        d0 = cam.getRay(px0)[1]
        lens0 = cam.lens.distortedFromImage(px0)
        change(h, cam, v, n, part, how, where)
        ref = fresh(h, pk, ok, lk, v)
        px = pixel(h, pk, v, "")
        # a point in front of the camera
        c = h.vec("c", 3, gens=[(0.1, 5), (-5, 5), (-5, 5)])
        m = h.pos("depth", gen=(1, 50))
        P = ref.orientation.spaceFromCamera(h.np.array([c[0] * m, c[1] * m, -m]))
        h.guard(m > 1e-3)
        h.assume(m >= 1e-9)
        h.assume(c[0] > 0)
        compare(h, cam, ref, P, px, target == "gps")
    return one


for args in [("orientation", R, T, N), ("orientation", R, Y, N), ("lens", R, T, B), ("lens", R, T, A), ("projection", R, T, N),
             ("projection", R, T, B), ("projection", R, T, A), ("projection", C, T, N), ("projection", E, T, N), ("gps", R, T, N)]:
    step(*args)


@contract("C05", "two-cameras", budget=200, trials=100)
def two(h):
    """a change of a shared part reaches both cameras of a group at once; a change of one camera's own part only this camera"""
    ct = h.ct
    h.ideal_inverse()
    pk, ok = R, h.choose("orientation", [T, Y])
    lk = h.choose("lens", [N, B])
    names = names_of(pk, ok, lk)
    v = {n: value(h, n) for n in names}
    v2 = dict(v)
    for n in ORI[ok]:
        v2[n] = value(h, n, ".2")
    p = getattr(ct, pk)(**{n: v[n] for n in PROJ})
    o1, o2 = getattr(ct, ok)(**{n: v[n] for n in ORI[ok]}), getattr(ct, ok)(**{n: v2[n] for n in ORI[ok]})
    l = getattr(ct, lk)(**{n: v[n] for n in LENS[lk]})
    for x in (v, v2):
        x["gps_lat"] = x["gps_lon"] = 0
    g = ct.CameraGroup(p, [o1, o2], l)
    cams = [g[0], g[1]]
    px0 = pixel(h, pk, v, "0")
    for c in cams:
        c.getRay(px0)
        c.lens.distortedFromImage(px0)
    n = h.choose("parameter", ["focallength_px", "center_x_px", "tilt" if ok == T else "pitch", "pos_x_m", "elevation_m"] + (["k1"] if lk == B else []))
    n = n + "_deg" if n in ("tilt", "pitch") else n
    own = n in ORI[ok]
    where = h.choose("where", ["group", "camera 2", "part"])
    how = h.choose("how", ["set", "fit", "pair", "default"] if not nodefault(n) else ["set", "fit", "pair"])
    part = o2 if own else (l if n == "k1" else p)
    hd = {"group": g, "camera 2": cams[1], "part": part}[where]
    nm = "C1_" + n if own and where == "group" else n
    new = value(h, n, ".new")
    if how == "set":
        setattr(hd, nm, new)
    elif how == "fit":
        hd.parameters.set_fit_parameters([nm], [new])
    elif how == "pair":
        setattr(hd, nm, (new, 0.1))
    else:
        setattr(hd, nm, None)
        setattr(hd.defaults, nm, new)
    for k, x in enumerate((v, v2)):
        if k == 1 or not own:
            if n == "focallength_px":
                x["focallength_x_px"] = x["focallength_y_px"] = new
            else:
                x[n] = new
    px = pixel(h, pk, v, "")
    c = h.vec("c", 3, gens=[(0.1, 5), (-5, 5), (-5, 5)])
    m = h.pos("depth", gen=(1, 50))
    h.assume(m >= 1e-9)
    h.assume(c[0] > 0)
    for k, x in enumerate((v, v2)):
        ref = fresh(h, pk, ok, lk, x)
        P = ref.orientation.spaceFromCamera(h.np.array([c[0] * m, c[1] * m, -m]))
        compare(h, cams[k], ref, P, px)
    P = ref.orientation.spaceFromCamera(h.np.array([c[0] * m, c[1] * m, -m]))
    h.eq("baseline", g.getBaseline(), h.np.sqrt((v["pos_x_m"] - v2["pos_x_m"]) ** 2 + (v["pos_y_m"] - v2["pos_y_m"]) ** 2))


@contract("C05", "histories", mode="float", trials=300, float_s=20, tol=1e-6)
def histories(h):
    """random histories of several changes with transformations in between (bounded: concrete runs)"""
    pk = h.choose("projection", PROJECTIONS)
    ok = h.choose("orientation", [T, Y])
    lk = h.choose("lens", [N, B, A])
    cam, v = setup_camera(h, pk, ok, lk, h.choose("start", ["values", "defaults", "fit", "pairs"]))
    for n in v:
        setattr(cam, n, v[n])
    N_ = h.choose("length", [2, 3, 4, 6])
    for i in range(N_):
        tag = ".%d" % i
        target = h.choose("target" + tag, ["projection", "orientation", "lens", "gps"] if lk != N else ["projection", "orientation", "gps"])
        n, how, where = choose_change(h, pk, ok, lk, target, tag)
        part = {"projection": cam.projection, "orientation": cam.orientation, "lens": cam.lens, "gps": cam}[target]
        if how == "resample":
            how = "pair"
        change(h, cam, v, n, part, how, where, tag)
        for m in v:  # plain values, so that a later reset concerns one parameter only
            if how in ("pair", "reset") and m == n:
                setattr(cam, m, v[m])
        if n == "focallength_px" and how in ("pair", "reset"):
            cam.focallength_px = v["focallength_x_px"]
        ref = fresh(h, pk, ok, lk, v)
        px = pixel(h, pk, v, tag)
        c = h.vec("c" + tag, 3, gens=[(-1, 1), (-1, 1), (-5, 5)])
        m = h.pos("depth" + tag, gen=(1, 50))
        P = ref.orientation.spaceFromCamera(h.np.array([c[0] * m, c[1] * m, -m]))
        compare(h, cam, ref, P, px, True)
        if h.choose("top view" + tag, [0, 1]):
            ext = [-30, 30, 10, 40]
            kw = dict(extent=ext, scaling=2, skip_size_check=True)
            a, b = cam.getTopViewOfImage(big_image(), **kw), ref.getTopViewOfImage(big_image(), **kw)
            h.check("top view", (a != b).mean() < 0.03)
            kw["extent"] = [0, 2000, 0, 1500]
            kw["scaling"] = 50
            a, b = cam.undistortImage(big_image(), **kw), ref.undistortImage(big_image(), **kw)
            h.check("undistorted image", (a != b).mean() < 0.03)


IM = []


def big_image():
    """an image with a different value at each neighbour"""
    if not IM:
        import numpy
        IM.append(((numpy.arange(2000)[:, None] * 7 + numpy.arange(3000)[None] * 3) % 251 + 1).astype("uint8"))
    return IM[0]
