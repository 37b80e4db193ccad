"""C07 Field of view, focal length, sensor and image size are consistent."""
import itertools
from .common import contract, PROJECTIONS, SHORT


class Img(object):
    """an image given as an array: only its shape is used"""
    def __init__(self, shape):
        self.shape = shape


def image_args(h):
    w = h.pos("w", gen=(10, 8000))
    hh = h.pos("h", gen=(10, 8000))
    how = h.choose("image", ["tuple", "list", "array", "colour array", "numbers"])
    if how == "numbers":
        return w, hh, {"image_width_px": w, "image_height_px": hh}
    if how == "tuple":
        return w, hh, {"image": (w, hh)}
    if how == "list":
        return w, hh, {"image": [w, hh]}
    if h.sym:
        return w, hh, {"image": Img((hh, w) if how == "array" else (hh, w, 3))}
    import numpy
    w, hh = int(w), int(hh)
    shape = (hh, w) if how == "array" else (hh, w, 3)
    return w, hh, {"image": numpy.broadcast_to(numpy.zeros(1, dtype="uint8"), shape)}


def center_args(h, w, hh):
    how = h.choose("center", ["none", "tuple", "both", "x", "y", "origin"])
    cx, cy = h.pos("cx", gen=(1, 8000)), h.pos("cy", gen=(1, 8000))
    if how == "none":
        return w / 2, hh / 2, {}
    if how == "tuple":
        return cx, cy, {"center": (cx, cy)}
    if how == "both":
        return cx, cy, {"center_x_px": cx, "center_y_px": cy}
    if how == "x":
        return cx, hh / 2, {"center_x_px": cx}
    if how == "y":
        return w / 2, cy, {"center_y_px": cy}
    return 0, 0, {"center": (0, 0)}


def tan_half(h, v):
    return h.np.tan(h.np.deg2rad(v) / 2)


def focal_of_view(h, kind, axis, v, size):
    """the documented relation between view angle and focal length"""
    np = h.np
    if kind == "RectilinearProjection" or (kind == "CylindricalProjection" and axis == 1):
        return size / (2 * tan_half(h, v))
    return size / np.deg2rad(v)


def max_view(kind, axis):
    if kind == "RectilinearProjection" or axis == 1:
        return 180
    return 360


def make(kind):
    k = SHORT[kind]

    @contract("C07", k + ".construction", trials=300)
    def build(h):
        """every way to specify a projection gives the documented focal lengths, centre, image and sensor size"""
        cls = getattr(h.ct, kind)
        w, hh, kw = image_args(h)
        cx, cy, kc = center_args(h, w, hh) if h.choose("with center", [0, 1]) else (w / 2, hh / 2, {})
        kw.update(kc)
        way = h.choose("focal length", ["px", "pair", "list", "x and y", "mm sensor", "mm numbers", "mm width", "mm height", "view x", "view y",
                                        "view both", "x and view y", "y and view x"])
        f, g = h.pos("f", gen=(10, 5000)), h.pos("g", gen=(10, 5000))
        sw, sh = h.pos("sw", gen=(5, 50)), h.pos("sh", gen=(5, 50))
        mm = h.pos("mm", gen=(5, 100))
        vx = h.real("vx", lo=0, lo_strict=True, hi=max_view(kind, 0), hi_strict=True, gen=(1, 170))
        vy = h.real("vy", lo=0, lo_strict=True, hi=max_view(kind, 1), hi_strict=True, gen=(1, 170))
        sensor = (17.3, 13.0)
        if way == "px":
            kw["focallength_px"] = f
            g = f
        elif way in ("pair", "list"):
            kw["focallength_px"] = (f, g) if way == "pair" else [f, g]
        elif way == "x and y":
            kw.update(focallength_x_px=f, focallength_y_px=g)
        elif way.startswith("mm"):
            kw["focallength_mm"] = mm
            if way == "mm sensor":
                kw["sensor"] = (sw, sh)
            elif way == "mm numbers":
                kw.update(sensor_width_mm=sw, sensor_height_mm=sh)
            elif way == "mm width":
                kw["sensor_width_mm"] = sw
                sh = sw / w * hh
            else:
                kw["sensor_height_mm"] = sh
                sw = sh / hh * w
            f, g = mm / sw * w, mm / sh * hh
            sensor = (sw, sh)
        elif way == "view x":
            kw["view_x_deg"] = vx
            f = g = focal_of_view(h, kind, 0, vx, w)
        elif way == "view y":
            kw["view_y_deg"] = vy
            f = g = focal_of_view(h, kind, 1, vy, hh)
        elif way == "view both":
            kw.update(view_x_deg=vx, view_y_deg=vy)
            f, g = focal_of_view(h, kind, 0, vx, w), focal_of_view(h, kind, 1, vy, hh)
        elif way == "x and view y":
            kw.update(focallength_x_px=f, view_y_deg=vy)
            g = focal_of_view(h, kind, 1, vy, hh)
        else:
            kw.update(focallength_y_px=g, view_x_deg=vx)
            f = focal_of_view(h, kind, 0, vx, w)
        if not way.startswith("mm") and h.choose("sensor", [0, 1]):
            kw["sensor"] = (sw, sh)
            sensor = (sw, sh)
        p = cls(**kw)
        for n, x in (("focallength_x_px", f), ("focallength_y_px", g), ("center_x_px", cx), ("center_y_px", cy), ("image_width_px", w),
                     ("image_height_px", hh), ("sensor_width_mm", sensor[0]), ("sensor_height_mm", sensor[1])):
            h.eq(n, getattr(p, n), x)
            h.eq(n + " (parameter)", getattr(p.parameters, n), x)
        h.check("focal lengths are positive", p.focallength_x_px > 0)
        h.check("focal lengths are positive", p.focallength_y_px > 0)
        if way.startswith("view"):
            if "y" not in way:
                h.eq("field of view x", p.getFieldOfView()[0], vx)
            if "x" not in way:
                h.eq("field of view y", p.getFieldOfView()[1], vy)

    @contract("C07", k + ".consistency")
    def consistent(h):
        """field of view, focal length from field of view and image size from field of view are mutually inverse"""
        cls = getattr(h.ct, kind)
        w, hh = h.pos("w", gen=(10, 8000)), h.pos("h", gen=(10, 8000))
        if kind != "RectilinearProjection":
            # a panoramic image covers at most the full circle
            ax = h.real("ax", lo=0, hi=6.283185307179586, lo_strict=True, gen=(0.1, 6.2))
            f = w / ax
        else:
            f = h.pos("f", gen=(10, 5000))
        if kind == "EquirectangularProjection":
            ay = h.real("ay", lo=0, hi=3.141592653589793, lo_strict=True, gen=(0.1, 3.1))
            g = hh / ay
        else:
            g = h.pos("g", gen=(10, 5000))
        p = cls(focallength_x_px=f, focallength_y_px=g, image=(w, hh))
        vx, vy = p.getFieldOfView()
        h.eq("focal length from field of view", p.focallengthFromFOV(view_x=vx), f)
        h.eq("focal length from field of view", p.focallengthFromFOV(view_y=vy), g)
        h.eq("focal length from field of view (positional)", p.focallengthFromFOV(vx), f)
        h.eq("image from field of view", p.imageFromFOV(view_x=vx), w)
        h.eq("image from field of view", p.imageFromFOV(view_y=vy), hh)
        # the other direction, for any angle
        ux = h.real("ux", lo=0, lo_strict=True, hi=max_view(kind, 0), hi_strict=True, gen=(1, 170))
        uy = h.real("uy", lo=0, lo_strict=True, hi=max_view(kind, 1), hi_strict=True, gen=(1, 170))
        q = cls(focallength_px=(p.focallengthFromFOV(view_x=ux), p.focallengthFromFOV(view_y=uy)), image=(w, hh))
        h.eq("field of view of the focal length", q.getFieldOfView()[0], ux)
        h.eq("field of view of the focal length", q.getFieldOfView()[1], uy)
        r = cls(focallength_px=(f, g), image=(p.imageFromFOV(view_x=ux), p.imageFromFOV(view_y=uy)))
        h.eq("field of view of the image size", r.getFieldOfView()[0], ux)
        h.eq("field of view of the image size", r.getFieldOfView()[1], uy)

    @contract("C07", k + ".subtended")
    def subtended(h):
        """the field of view is the angle between the viewing rays of the image edges around the middle"""
        np = h.np
        cls = getattr(h.ct, kind)
        axis = h.choose("axis", [0, 1])
        f, g = h.pos("f", gen=(10, 5000)), h.pos("g", gen=(10, 5000))
        half = h.real("half", lo=0, hi=1.5, lo_strict=True, gen=(0.05, 1.5))  # half of the image size over the focal length
        other = h.pos("other", gen=(10, 5000))
        w, hh = (2 * half * f, other) if axis == 0 else (other, 2 * half * g)
        p = cls(focallength_px=(f, g), image=(w, hh))
        cx, cy = w / 2, hh / 2
        a = p.getRay(np.array([0 * w, cy] if axis == 0 else [cx, 0 * hh]))
        b = p.getRay(np.array([w, cy] if axis == 0 else [cx, hh]))
        c = p.getRay(np.array([cx, cy]))
        v = np.deg2rad(p.getFieldOfView()[axis])

        def cosine(x, y):
            return (x * y).sum() / np.sqrt((x * x).sum()) / np.sqrt((y * y).sum())
        h.eq("half of the view on either side of the middle", cosine(a, c), np.cos(v / 2))
        h.eq("half of the view on either side of the middle", cosine(b, c), np.cos(v / 2))
        # left/upper edge and right/lower edge on opposite sides: the whole angle
        h.eq("whole view", cosine(a, b), np.cos(v))


for _k in PROJECTIONS:
    make(_k)


@contract("C07", "contradictions", trials=300)
def contradictions(h):
    """contradictory or missing specifications are rejected"""
    cls = getattr(h.ct, h.choose("projection", PROJECTIONS))
    f, g = h.pos("f", gen=(10, 5000)), h.pos("g", gen=(10, 5000))
    w, hh = h.pos("w", gen=(10, 5000)), h.pos("h", gen=(10, 5000))
    s, v = h.pos("s", gen=(10, 50)), h.real("v", lo=0, hi=170, lo_strict=True, gen=(1, 170))
    img = {"image": (w, hh)}
    bad = [
        dict(img, focallength_px=f, image_width_px=w), dict(img, focallength_px=f, image_height_px=hh), {"focallength_px": f},
        {"focallength_px": f, "image_width_px": w}, {"focallength_px": f, "image_height_px": hh},
        dict(img, focallength_px=f, center=(w, hh), center_x_px=w), dict(img, focallength_px=f, center=(w, hh), center_y_px=hh),
        dict(img, focallength_px=f, focallength_x_px=f), dict(img, focallength_px=f, focallength_y_px=f),
        dict(img, focallength_px=f, focallength_mm=s, sensor=(s, s)), dict(img, focallength_x_px=f, focallength_y_px=f, focallength_mm=s, sensor=(s, s)),
        dict(img, focallength_mm=s), dict(img), dict(img, focallength_x_px=f), dict(img, focallength_y_px=f),
        dict(img, focallength_mm=s, sensor=(s, s), sensor_width_mm=s), dict(img, focallength_mm=s, sensor=(s, s), sensor_height_mm=s),
        dict(img, focallength_px=f, view_x_deg=v), dict(img, focallength_px=f, view_y_deg=v), dict(img, focallength_x_px=f, view_x_deg=v),
        dict(img, focallength_y_px=f, view_y_deg=v), dict(img, focallength_y_px=f, view_x_deg=v, view_y_deg=v),
        dict(img, focallength_mm=s, sensor=(s, s), view_x_deg=v), dict(img, focallength_mm=s, sensor=(s, s), view_y_deg=v),
        dict(img, focallength_px=(f, g), focallength_x_px=f), dict(img, focallength_px=(f, g), focallength_y_px=g),
        dict(img, sensor=(s, s)), dict(img, focallength_mm=s, sensor=(s, s), focallength_px=f),
    ]
    kw = bad[h.choose("case", list(range(len(bad))))]
    h.raises("rejected: " + " ".join(sorted(kw)), ValueError, lambda: cls(**kw))
