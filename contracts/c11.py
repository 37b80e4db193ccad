"""C11 Conversion between space and GPS coordinates is consistent, both ways.

to space: (d sin b, d cos b, own height) with d, b the horizontal distance and bearing (which C10 proves to be the spherical ones);
back: a point at distance D in direction b is sent to cos(D/R) n1 + sin(D/R) (cos b north + sin b east), its height kept. The position n2
with n1 . n2 = cos(d/R), n2 . east = sin(d/R) sin b, n2 . north = sin(d/R) cos b (C10) is this very one: the round trip is the identity."""
from .common import contract, projection, orientation, lens, PROJECTIONS
from .c10 import R, GENS, loose, batch, frame, dot, haversine_lemma, move_lemma, position

FORMS = ["array", "list", "tuple", "batch"]


def some(h, tag, k, form):
    """a GPS position (k numbers) in one of the accepted forms, and its generic row as an array"""
    if form == "batch":
        P = batch(h, tag, k)
        return P, h.row(P, "N")
    p = loose(h, tag, k)
    return {"array": h.np.array, "list": list, "tuple": tuple}[form](p), h.np.array(p)


def one(h, got, form):
    return h.row(got, "N") if form == "batch" else got


@contract("C11", "to space", tol=1e-9)
def to_space(h):
    """x = d sin b (east), y = d cos b (north), own height (zero if it has none), for references with and without height"""
    np, ct = h.np, h.ct
    k, k0 = h.choose("dimensions", [2, 3]), h.choose("dimensions of the reference", [2, 3])
    form, ref = h.choose("form", FORMS), h.choose("reference", ["array", "list"])
    g0, p0 = some(h, "g", k0, ref)
    P, p = some(h, "P", k, form)
    haversine_lemma(h, p0, p)
    out = ct.spaceFromGPS(P, g0)
    d, b = ct.getDistance(p0[:2], p[:2]), np.deg2rad(ct.getBearing(p0[:2], p[:2]))
    out = one(h, out, form)
    h.eq("coordinates", len(out), 3)
    h.eq("east", out[0], d * np.sin(b))
    h.eq("north", out[1], d * np.cos(b))
    h.eq("height", out[2], p[2] if k == 3 else 0)


@contract("C11", "from space", tol=1e-9)
def from_space(h):
    """a point at distance D in direction b arrives at cos D n1 + sin D (cos b north + sin b east), with its own height"""
    np, ct = h.np, h.ct
    k, k0 = h.choose("dimensions", [2, 3]), h.choose("dimensions of the reference", [2, 3])
    g0 = position(h, "g", k0 == 3, strict=True)
    p0 = np.array(g0)
    if h.choose("reference", ["array", "list"]) == "array":
        g0 = p0
    D = h.real("D", lo=0, lo_strict=True, hi=3.141592653589793, hi_strict=True, gen=(1e-6, 3.1))
    b = h.real("b", lo=-180, hi=180, lo_strict=True, gen=(-180, 180))
    z = [h.real("z", gen=(-100, 9000))] if k == 3 else []
    cd, sd, cb, sb = np.cos(D), np.sin(D), np.cos(np.deg2rad(b)), np.sin(np.deg2rad(b))
    move_lemma(h, p0, D, b)
    t = ct.gpsFromSpace(np.array([D * R * sb, D * R * cb] + z), g0)
    n1, north, east = frame(h, p0[0], p0[1])
    n2 = frame(h, t[0], t[1])[0]
    for i in range(3):
        h.eq("arrival", n2[i], cd * n1[i] + sd * (cb * north[i] + sb * east[i]))
    h.check("latitude", t[0] <= 90)
    h.check("latitude", t[0] >= -90)
    if k == 3:
        h.eq("height", t[2], z[0])
    # lemma: the only position seen from n1 at this distance and bearing is the arrival
    q = [h.real("q%d" % i, gen=(-1, 1)) for i in range(3)]
    for i in range(3):
        h.eq("lemma: completeness of the frame", q[i], dot(q, n1) * n1[i] + dot(q, north) * north[i] + dot(q, east) * east[i])


@contract("C11", "from space, forms", tol=1e-9)
def from_space_forms(h):
    """lists, tuples and batches: each point has its own destination; the origin is sent to the reference"""
    np, ct = h.np, h.ct
    k, k0 = h.choose("dimensions", [2, 3]), h.choose("dimensions of the reference", [2, 3])
    g0, p0 = some(h, "g", k0, "array")
    form = h.choose("form", ["list", "batch", "origin"])
    z = [0, 0, h.real("z", gen=(-100, 9000))][:k]
    if form == "origin":
        p0 = np.array(position(h, "o", k0 == 3, strict=True))
        g0 = p0
        t = ct.gpsFromSpace(np.array(z), g0)
        h.eq("latitude", t[0], p0[0])
        h.eq("longitude", t[1], p0[1])
        if k == 3:
            h.eq("height", t[2], z[2])
        return
    gens = [(-1e4, 1e4), (-1e4, 1e4), (-100, 9000)][:k]
    if form == "batch":
        P = h.rows("P", k, "N", gens=gens)
        p = h.row(P, "N")
    else:
        P = [h.real("P%d" % i, gen=g) for i, g in enumerate(gens)]
        p = np.array(P)
    h.eq("element", one(h, ct.gpsFromSpace(P, g0), form), ct.gpsFromSpace(p, g0))


def camera(h, cls=None):
    v = {n: h.real(n, gen=g) for n, g in (("half_lat", (-44, 44)), ("half_lon", (-90, 90)), ("elevation_m", (1, 100)))}
    v["gps_lat"], v["gps_lon"] = 2 * v["half_lat"], 2 * v["half_lon"]
    cam = (cls or h.ct.Camera)(h.ct.RectilinearProjection(focallength_px=1000, image=(800, 600)),
                               h.ct.SpatialOrientation(elevation_m=v["elevation_m"], tilt_deg=45))
    return cam, v


@contract("C11", "camera", budget=240, tol=1e-9)
def camera_functions(h):
    """all four GPS functions of a camera refer to its own GPS position, after it was set in any way and changed again"""
    np, ct = h.np, h.ct

    class Stub(ct.Camera):
        """the space/image conversions (C08, C09) are arbitrary functions here"""

        def spaceFromImage(self, points, X=None, Y=None, Z=0, D=None, mesh=None):
            code = [-7 if x is None else x for x in (X, Y, Z, D)]
            return np.array([h.uf("space_%d" % i, *([points[..., 0], points[..., 1]] + code)) for i in range(3)]).T

        def imageFromSpace(self, points, hide_backpoints=True):
            return np.array([h.uf("image_%d" % i, points[..., 0], points[..., 1], points[..., 2], 1.0 if hide_backpoints else 0.0)
                             for i in range(2)]).T
    cam, v = camera(h, Stub)
    how = h.choose("set", ["numbers", "attributes", "array", "twice"])
    if how == "twice":
        cam.setGPSpos(12.5, 101.25)
        cam.gpsFromSpace(np.array([1, 2, 3]))
    if how == "attributes":
        cam.gps_lat = v["gps_lat"]
        cam.gps_lon = v["gps_lon"]
    elif how in ("numbers", "twice"):
        cam.setGPSpos(v["gps_lat"], v["gps_lon"])
    else:
        cam.setGPSpos(np.array([v["gps_lat"], v["gps_lon"]]))
    ref = np.array([v["gps_lat"], v["gps_lon"], v["elevation_m"]])
    b = h.choose("batch", [None, "N"])
    fn = h.choose("function", ["spaceFromGPS", "gpsFromSpace", "gpsFromImage", "imageFromGPS"])
    if fn in ("spaceFromGPS", "imageFromGPS"):
        k = h.choose("dimensions", [2, 3])
        P = h.rows("P", k, b, gens=GENS[:k]) * np.array([2, 2, 1][:k])
        haversine_lemma(h, 2 * np.array([v["half_lat"], v["half_lon"]]), h.row(P, b) if b else P)
        out = getattr(cam, fn)(P)
        want = ct.spaceFromGPS(P, ref)
        h.eq(fn, out, cam.imageFromSpace(want) if fn == "imageFromGPS" else want)
    elif fn == "gpsFromSpace":
        k = h.choose("dimensions", [2, 3])
        P = h.rows("P", k, b, gens=[(-1000, 1000), (-1000, 1000), (-10, 100)][:k])
        h.eq(fn, cam.gpsFromSpace(P), ct.gpsFromSpace(P, ref))
    else:
        P = h.rows("P", 2, b, gens=[(0, 800), (0, 600)])
        c = h.choose("constraint", ["none", "X", "Y", "Z", "D"])
        kw = {} if c == "none" else {c: h.real("c", gen=(0, 50))}
        h.eq(fn, cam.gpsFromImage(P, **kw), ct.gpsFromSpace(cam.spaceFromImage(P, **kw), ref))


@contract("C11", "setting the position", tol=1e-12)
def setting(h):
    """numbers, tuples, lists, arrays, with the elevation inside, beside or absent, from any previous position: the same position"""
    np, ct = h.np, h.ct
    cam, v = camera(h)
    lat, lon, e = h.real("lat", gen=(-90, 90)), h.real("lon", gen=(-180, 180)), h.real("e", gen=(-10, 5000), special=(0,))
    conv = h.choose("form", ["numbers", "keywords", "tuple", "list", "array"])
    how = h.choose("elevation", ["absent", "inside", "beside"])
    pos = [lat, lon] + ([e] if how == "inside" else [])
    kw = {"elevation": e} if how == "beside" else {}
    if conv == "numbers":
        cam.setGPSpos(*pos, **kw)
    elif conv == "keywords":
        cam.setGPSpos(lat=lat, lon=lon, **(kw if how != "inside" else {"elevation": e}))
    else:
        cam.setGPSpos({"tuple": tuple, "list": list, "array": np.array}[conv](pos), **kw)
    h.eq("latitude", cam.gps_lat, lat)
    h.eq("longitude", cam.gps_lon, lon)
    h.eq("elevation", cam.elevation_m, v["elevation_m"] if how == "absent" else e)
    h.eq("position", cam.getPos(), np.array([0, 0, v["elevation_m"] if how == "absent" else e]))


@contract("C11", "setting the position by a string", tol=1e-9)
def setting_string(h):
    """strings with and without elevation, inside or beside"""
    np, ct = h.np, h.ct
    cam, v = camera(h)
    lat, lon, e = h.real("lat", lo=-90, hi=90), h.real("lon", lo=-180, hi=180), h.real("e", gen=(-10, 5000), special=(0,))
    how = h.choose("elevation", ["absent", "beside"])
    fmt = h.choose("format", ["%d° %d' %.6f\" %s", "%d° %.8f' %s", "%.9f° %s", "%.9f°"])
    text = h.concat(*sum([[t, ", "] for t in ct.formatGPS(lat, lon, format=fmt)], [])[:-1])
    if how == "beside":
        cam.setGPSpos(text, elevation=e)
    else:
        cam.setGPSpos(text)
    h.check("latitude", abs(cam.gps_lat - lat) <= 1e-8)
    h.check("longitude", abs(cam.gps_lon - lon) <= 1e-8)
    h.eq("elevation", cam.elevation_m, v["elevation_m"] if how == "absent" else e)


@contract("C11", "round trips", mode="float", tol=1e-9)
def round_trip(h):
    """end to end: GPS -> space -> GPS and pixel -> GPS -> pixel, single and lists, with and without heights, large distances"""
    np, ct = h.np, h.ct
    g0 = position(h, "g", h.choose("reference height", [False, True]), lat=(-89, 89))
    k = h.choose("dimensions", [2, 3])
    b = h.choose("batch", [None, "N", 2, 3])
    P = h.rows("P", k, b, gens=[(-88, 88), (-180, 180), (-100, 9000)][:k])
    far = np.max(ct.getDistance(np.array(g0[:2]), P[..., :2]))
    h.guard(far < 3.1 * R)
    S = ct.spaceFromGPS(P, np.array(g0))
    h.eq("distance", np.linalg.norm(S[..., :2], axis=-1), ct.getDistance(np.array(g0[:2]), P[..., :2]), tol=1e-9, scale=R)
    back = ct.gpsFromSpace(S if k == 3 else S[..., :2], np.array(g0))
    for i in (0, 1, 2)[:k]:
        if i == 1:
            h.eq("longitude", np.cos(np.deg2rad(back[..., 1] - P[..., 1])), np.ones(P.shape[:-1]), tol=1e-9)
        else:
            h.eq("back", back[..., i], P[..., i], tol=1e-6, scale=1)
    # pixels
    p, fx, fy, cx, cy = projection(h, h.choose("projection", PROJECTIONS))
    z = h.real("elevation", lo=1, gen=(1, 500))
    cam = ct.Camera(p, ct.SpatialOrientation(elevation_m=z, tilt_deg=h.real("tilt", gen=(5, 60)), heading_deg=h.angle("heading"),
                                             pos_x_m=h.real("x", gen=(-50, 50)), pos_y_m=h.real("y", gen=(-50, 50))))
    cam.setGPSpos(*g0[:2])
    px = np.stack([cx + fx * h.rows("u", 1, b, gen=(-0.3, 0.3))[..., 0], cy + fy * h.rows("w", 1, b, gen=(-0.3, 0.3))[..., 0]], axis=-1)
    Z = h.real("Z", gen=(-5, 0.5))
    S = cam.spaceFromImage(px, Z=Z)
    h.guard(np.all(np.isfinite(S)) and np.max(np.abs(S)) < 1e5 * 1)
    G = cam.gpsFromImage(px, Z=Z)
    h.eq("height", G[..., 2], np.zeros(px.shape[:-1]) + Z, scale=1, tol=1e-6)
    h.eq("pixel", cam.imageFromGPS(G), px, tol=1e-3, scale=1)
