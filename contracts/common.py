"""Registry of contracts and the helpers that build arbitrary objects of the real package."""
import math
import numpy

REG = {}  # property -> [Contract]


class Contract(object):
    def __init__(self, prop, name, fn, budget, tol, trials, about, group):
        self.prop, self.name, self.fn = prop, name, fn
        self.budget, self.tol, self.trials = budget, tol, trials
        self.about = about
        self.group = group


def contract(prop, name, budget=120, tol=1e-6, trials=200, mode="both", setup=None, float_s=15):
    """register a contract. mode: "both", "float" (bounded stand-in only)"""
    def deco(fn):
        c = Contract(prop, name, fn, budget, tol, trials, (fn.__doc__ or "").strip(), None)
        c.mode = mode
        c.setup = setup
        c.float_s = float_s
        REG.setdefault(prop, []).append(c)
        return fn
    return deco


PROJECTIONS = ["RectilinearProjection", "CylindricalProjection", "EquirectangularProjection"]
SHORT = {"RectilinearProjection": "rectilinear", "CylindricalProjection": "cylindrical",
         "EquirectangularProjection": "equirectangular"}


def nonzero(h, name, gen, special=()):
    v = h.real(name, gen=gen, special=special)
    h.assume(v != 0)
    return v


def projection(h, kind, tag="", focal=None, wh=None):
    """a projection with arbitrary intrinsic parameters"""
    cls = getattr(h.ct, kind)
    if focal is None:
        fx = nonzero(h, tag + "fx", (200, 5000), (-800,))
        fy = nonzero(h, tag + "fy", (200, 5000), (-900,))
    else:
        fx, fy = focal
    cx = h.real(tag + "cx", gen=(0, 4000), special=(0, -50))
    cy = h.real(tag + "cy", gen=(0, 3000), special=(0, 5000))
    w, hh = wh if wh is not None else (4608, 3456)
    p = cls(focallength_x_px=fx, focallength_y_px=fy, center_x_px=cx, center_y_px=cy, image_width_px=w, image_height_px=hh)
    return p, fx, fy, cx, cy


def positive_projection(h, kind, tag="", wh=None):
    fx = h.pos(tag + "fx", gen=(200, 5000))
    fy = h.pos(tag + "fy", gen=(200, 5000))
    return projection(h, kind, tag, focal=(fx, fy), wh=wh)


def orientation(h, tag="", kind="thr", any_angle=False):
    """an orientation with arbitrary pose (angles within a full turn, where they are stored as given)"""
    x = h.real(tag + "px", gen=(-100, 100))
    y = h.real(tag + "py", gen=(-100, 100))
    z = h.real(tag + "pz", gen=(0.5, 100))
    lim = {} if any_angle else {"lo": -360, "hi": 360}
    wide = (-900, 900) if any_angle else None
    roll = h.angle(tag + "roll", gen=(-180, 180))
    if kind == "thr":
        head = h.angle(tag + "heading", gen=wide or (-360, 360), **lim)
        tilt = h.angle(tag + "tilt", gen=wide or (0, 180))
        o = h.ct.SpatialOrientation(elevation_m=z, tilt_deg=tilt, roll_deg=roll, heading_deg=head, pos_x_m=x, pos_y_m=y)
        return o, (x, y, z), (tilt, roll, head)
    yaw = h.angle(tag + "yaw")
    pitch = h.angle(tag + "pitch", gen=wide or (-90, 90), **lim)
    o = h.ct.SpatialOrientationYawPitchRoll(elevation_m=z, yaw_deg=yaw, pitch_deg=pitch, roll_deg=roll, pos_x_m=x, pos_y_m=y)
    return o, (x, y, z), (yaw, pitch, roll)


def lens(h, kind, tag="", increasing=True):
    """a lens with arbitrary coefficients (for which the radial polynomial increases up to 2.1, further than its table)"""
    if kind == "none":
        return h.ct.NoDistortion(), ()
    h.ideal_inverse()
    np = h.np
    names = ("k1", "k2", "k3") if kind == "brown" else ("a", "b", "c")
    gen = (0.0, 0.05) if kind == "brown" else (-0.02, 0.02)
    v = [h.real(tag + n, gen=gen, special=(0,)) for n in names]
    if increasing:
        last = None
        for i in range(21):
            r = h.const(numpy.arange(0, 2.1, 0.1)[i])
            y = radial(kind, v, r)
            if last is not None:
                h.assume(y - last >= 0)
            last = y
        h.increasing(lambda c, r: radial(kind, c, r), v, 2.1)
    cls = h.ct.BrownLensDistortion if kind == "brown" else h.ct.ABCDistortion
    return cls(**dict(zip(names, v))), v


def radial(kind, v, r):
    """the documented radial polynomials"""
    if kind == "brown":
        k1, k2, k3 = v
        return r * (1 + k1 * r ** 2 + k2 * r ** 4 + k3 * r ** 6)
    a, b, c = v
    return (1 - a - b - c) * r + c * r ** 2 + b * r ** 3 + a * r ** 4


LENSES = ["none", "brown", "abc"]
