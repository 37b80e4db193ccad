"""C04 Yaw-pitch-roll orientation agrees with tilt-heading-roll orientation."""
from .common import contract, orientation

BATCHES = [None, "N"]


@contract("C04", "agrees")
def agrees(h):
    """same conversions as SpatialOrientation(tilt=90+pitch, heading=yaw, roll=-roll); any angles"""
    any_angle = h.choose("any", [False, True])
    o, t, (yaw, pitch, roll) = orientation(h, kind="ypr", any_angle=any_angle)
    if any_angle is False:
        h.assume((yaw >= -360) & (yaw <= 360))
    q = h.ct.SpatialOrientation(elevation_m=t[2], tilt_deg=90 + pitch, roll_deg=-roll, heading_deg=yaw, pos_x_m=t[0], pos_y_m=t[1])
    b = h.choose("batch", BATCHES)
    P = h.rows("P", 3, b, gen=(-100, 100), special=(0,))
    h.eq("camera from space", o.cameraFromSpace(P), q.cameraFromSpace(P))
    h.eq("space from camera", o.spaceFromCamera(P), q.spaceFromCamera(P))
    h.eq("direction", o.spaceFromCamera(P, direction=True), q.spaceFromCamera(P, direction=True))
    h.eq("inverse", o.spaceFromCamera(o.cameraFromSpace(P)), P)


@contract("C04", "view-axis")
def view(h):
    """yaw is the compass heading of the view axis and positive pitch looks up; the upright direction follows roll"""
    np = h.np
    o, t, (yaw, pitch, roll) = orientation(h, kind="ypr", any_angle=True)
    k = np.pi / 180
    v = o.spaceFromCamera(np.array([0., 0., -1.]), direction=True)
    cp = np.cos(pitch * k)
    h.eq("view axis", v, np.array([cp * np.sin(yaw * k), cp * np.cos(yaw * k), np.sin(pitch * k)]))
    h.eq("position", o.spaceFromCamera(np.array([0., 0., 0.])), np.array(list(t)))
    r = o.spaceFromCamera(np.array([1., 0., 0.]), direction=True)
    u = o.spaceFromCamera(np.array([0., 1., 0.]), direction=True)
    h.eq("unit vectors", np.array([r[0] * r[0] + r[1] * r[1] + r[2] * r[2], u[0] * u[0] + u[1] * u[1] + u[2] * u[2],
                                   r[0] * u[0] + r[1] * u[1] + r[2] * u[2]]), np.array([1., 1., 0.]))
    cr = np.array([r[1] * u[2] - r[2] * u[1], r[2] * u[0] - r[0] * u[2], r[0] * u[1] - r[1] * u[0]])
    h.eq("right-handed", cr, -v)
    h.eq("roll", r[2], -np.sin(roll * k) * cp)
