"""C03 Space/camera conversion is the documented rigid motion, both ways."""
from .common import contract, orientation

BATCHES = [None, "N"]


def matrix(h, tilt, roll, heading):
    """R_roll . R_tilt . R_heading of the documentation, from angles in degrees"""
    np = h.np
    k = np.pi / 180
    ct, st = np.cos(tilt * k), np.sin(tilt * k)
    cr, sr = np.cos(roll * k), np.sin(roll * k)
    ch, sh = np.cos(heading * k), np.sin(heading * k)
    A = [[cr, sr, 0], [-sr, cr, 0], [0, 0, 1]]
    B = [[1, 0, 0], [0, ct, st], [0, -st, ct]]
    C = [[ch, -sh, 0], [sh, ch, 0], [0, 0, 1]]
    return mul(mul(A, B), C)


def mul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def apply(h, M, P):
    return h.np.array([sum(M[i][j] * P[..., j] for j in range(3)) for i in range(3)]).T


def transpose(M):
    return [[M[j][i] for j in range(3)] for i in range(3)]


@contract("C03", "formula")
def formula(h):
    """cameraFromSpace(P) = R (P - t), spaceFromCamera(Q) = R^T Q + t, directions only rotated; any angles"""
    o, t, (tilt, roll, head) = orientation(h, any_angle=True)
    M = matrix(h, tilt, roll, head)
    b = h.choose("batch", BATCHES)
    P = h.rows("P", 3, b, gen=(-100, 100), special=(0,))
    T = h.np.array(list(t))
    h.eq("camera from space", o.cameraFromSpace(P), apply(h, M, P - T))
    h.eq("space from camera", o.spaceFromCamera(P), apply(h, transpose(M), P) + T)
    h.eq("space from camera, explicit no direction", o.spaceFromCamera(P, direction=False), apply(h, transpose(M), P) + T)
    h.eq("direction", o.spaceFromCamera(P, direction=True), apply(h, transpose(M), P))


@contract("C03", "inverse")
def inverse(h):
    """the two conversions are inverse to each other"""
    o, t, (tilt, roll, head) = orientation(h, any_angle=True)
    b = h.choose("batch", BATCHES)
    P = h.rows("P", 3, b, gen=(-100, 100), special=(0,))
    h.eq("space to camera to space", o.spaceFromCamera(o.cameraFromSpace(P)), P)
    h.eq("camera to space to camera", o.cameraFromSpace(o.spaceFromCamera(P)), P)


@contract("C03", "rigid")
def rigid(h):
    """distances, angles and handedness are preserved"""
    o, t, (tilt, roll, head) = orientation(h)
    P, Q, S = [h.vec(n, 3, gen=(-100, 100)) for n in "PQS"]
    O = h.np.array(list(t))
    p, q, s = [o.cameraFromSpace(x) for x in (P, Q, S)]
    d = P - Q
    e = p - q
    h.eq("distance", e[0] * e[0] + e[1] * e[1] + e[2] * e[2], d[0] * d[0] + d[1] * d[1] + d[2] * d[2])

    def det(a, b, c):
        return (a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]))
    h.eq("volume with sign", det(p, q, s), det(P - O, Q - O, S - O))


@contract("C03", "named-directions")
def named(h):
    """tilt 0 looks down, tilt 90 horizontally; heading 0 is north (+y), heading 90 east (+x)"""
    t = [h.real(n, gen=(-50, 50)) for n in ("x", "y", "z")]
    roll = h.angle("roll")
    case = h.choose("case", ["down", "north", "east", "south", "west"])
    tilt = 0 if case == "down" else 90
    head = h.angle("heading", lo=-360, hi=360) if case == "down" else {"north": 0, "east": 90, "south": 180, "west": 270}[case]
    o = h.ct.SpatialOrientation(elevation_m=t[2], tilt_deg=tilt, roll_deg=roll, heading_deg=head, pos_x_m=t[0], pos_y_m=t[1])
    want = {"down": [0, 0, -1], "north": [0, 1, 0], "east": [1, 0, 0], "south": [0, -1, 0], "west": [-1, 0, 0]}[case]
    h.eq("viewing direction", o.spaceFromCamera(h.np.array([0., 0., -1.]), direction=True), h.np.array([float(x) for x in want]))
    h.eq("position", o.spaceFromCamera(h.np.array([0., 0., 0.])), h.np.array(t))


@contract("C03", "orthogonal-matrix")
def ortho(h):
    """heading h is h degrees clockwise from north, tilt is the angle from straight down"""
    np = h.np
    o, t, (tilt, roll, head) = orientation(h)
    k = np.pi / 180
    v = o.spaceFromCamera(np.array([0., 0., -1.]), direction=True)
    st = np.sin(tilt * k)
    h.eq("compass direction of the view axis", v, np.array([st * np.sin(head * k), st * np.cos(head * k), -np.cos(tilt * k)]))
