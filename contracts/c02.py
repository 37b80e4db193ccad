"""C02 Camera points project by the documented formula, and hidden points are NaN."""
from .common import contract, projection, PROJECTIONS, SHORT

BATCHES = [None, "N"]


def call(p, P, hide):
    return p.imageFromCamera(P) if hide is None else p.imageFromCamera(P, hide_backpoints=hide)


@contract("C02", "rectilinear.formula")
def rect(h):
    """visible points, and all points off the camera plane with hiding switched off, follow the pinhole formula"""
    p, fx, fy, cx, cy = projection(h, "RectilinearProjection")
    b = h.choose("batch", BATCHES)
    hide = h.choose("hide", [None, True, False])
    side = h.choose("side", ["front", "back"])
    P = h.rows("P", 3, b, gens=[(-20, 20), (-20, 20), (-20, -0.01) if side == "front" else (0.01, 20)], special=(0,))
    x, y, z = P[..., 0], P[..., 1], P[..., 2]
    h.assume(z <= -1e-9 if side == "front" else z >= 1e-9)
    q = call(p, P, hide)
    if side == "back" and hide is not False:
        h.allnan("a point behind the camera is NaN in both coordinates", q)
        h.eq("shape", q[..., 0] * 0, x * float("nan"))
        return
    h.eq("formula", q, h.np.array([cx - fx * x / z, cy + fy * y / z]).T, tol=1e-6)


@contract("C02", "rectilinear.camera-plane")
def plane(h):
    """points in the camera plane are NaN"""
    p, fx, fy, cx, cy = projection(h, "RectilinearProjection")
    b = h.choose("batch", BATCHES)
    hide = h.choose("hide", [None, True, False])
    P = h.rows("P", 2, b, gen=(-20, 20), special=(0,))
    P = h.np.array([P[..., 0], P[..., 1], P[..., 0] * 0]).T
    h.allnan("a point in the camera plane is NaN", call(p, P, hide))


@contract("C02", "rectilinear.mixed-batch")
def mixed(h):
    """in a batch exactly the points behind the camera are NaN"""
    p, fx, fy, cx, cy = projection(h, "RectilinearProjection")
    n = h.choose("n", [2, 3])
    P = h.rows("P", 3, n, gens=[(-20, 20), (-20, 20), (-20, 20)])
    hide = h.choose("hide", [None, False])
    for i in range(n):
        h.assume((P[i, 2] <= -1e-9) | (P[i, 2] >= 1e-9))
    q = call(p, P, hide)
    for i in range(n):
        if P[i, 2] > 0 and hide is None:
            h.allnan("row behind the camera", q[i])
        else:
            h.eq("visible row", q[i], h.np.array([cx - fx * P[i, 0] / P[i, 2], cy + fy * P[i, 1] / P[i, 2]]))


def pano(kind):
    k = SHORT[kind]

    @contract("C02", k + ".formula")
    def formula(h):
        """every direction off the cylinder axis: azimuth and elevation of the pixel are those of the point"""
        np = h.np
        p, fx, fy, cx, cy = projection(h, kind)
        b = h.choose("batch", BATCHES)
        hide = h.choose("hide", [None, True, False])
        P = h.rows("P", 3, b, gen=(-20, 20), special=(0, 0, 1, -1))
        x, y, z = P[..., 0], P[..., 1], P[..., 2]
        h.assume(x * x + z * z > 0)
        q = call(p, P, hide)
        h.nonan("defined", q)
        u = (q[..., 0] - cx) / fx
        v = (q[..., 1] - cy) / fy
        rho = np.sqrt(x * x + z * z)
        h.eq("azimuth (sine)", np.sin(u) * rho, x)
        h.eq("azimuth (cosine)", np.cos(u) * rho, -z)
        h.check("azimuth range", u >= -np.pi - (0 if h.sym else 1e-9))
        h.check("azimuth range", u <= np.pi + (0 if h.sym else 1e-9))
        if kind == "CylindricalProjection":
            h.eq("height on the cylinder", v * rho, -y)
        else:
            h.eq("elevation", np.sin(v) * np.sqrt(x * x + y * y + z * z), -y)
            h.check("elevation range", np.cos(v) >= 0)
            h.check("elevation range", v >= -np.pi / 2 - (0 if h.sym else 1e-9))
            h.check("elevation range", v <= np.pi / 2 + (0 if h.sym else 1e-9))

    @contract("C02", k + ".mixed-batch")
    def mixed(h):
        """every row of a batch is mapped by the formula, sideways and backward rows included"""
        np = h.np
        p, fx, fy, cx, cy = projection(h, kind)
        P = h.rows("P", 3, 2, gen=(-20, 20), special=(0, 0))
        kinds = [h.choose("row%d" % i, ["any", "sideways", "backwards"]) for i in range(2)]
        for i in range(2):
            x, z = P[i, 0], P[i, 2]
            h.assume(x * x + z * z > 0)
        P = np.array([[P[i, 0] if kinds[i] != "backwards" else P[i, 0] * 0, P[i, 1], P[i, 2] if kinds[i] == "any" else 0 * P[i, 2] if kinds[i] == "sideways" else 5.0] for i in range(2)])
        for i in range(2):
            x, z = P[i, 0], P[i, 2]
            h.assume(x * x + z * z > 0)
        q = call(p, P, None)
        h.nonan("defined", q)
        for i in range(2):
            x, y, z = P[i, 0], P[i, 1], P[i, 2]
            u, v = (q[i, 0] - cx) / fx, (q[i, 1] - cy) / fy
            rho = np.sqrt(x * x + z * z)
            h.eq("azimuth (sine)", np.sin(u) * rho, x)
            h.eq("azimuth (cosine)", np.cos(u) * rho, -z)
            if kind == "CylindricalProjection":
                h.eq("height on the cylinder", v * rho, -y)
            else:
                h.eq("elevation", np.tan(v) * rho, -y)


for _k in PROJECTIONS[1:]:
    pano(_k)


@contract("C02", "cylindrical.axis")
def axis(h):
    """points on the cylinder axis have no image: NaN in both coordinates"""
    p, fx, fy, cx, cy = projection(h, "CylindricalProjection")
    b = h.choose("batch", BATCHES)
    hide = h.choose("hide", [None, True, False])
    y = h.col("y", b, gen=(-5, 5), special=(0,))
    P = h.np.array([y * 0, y, y * 0]).T
    h.allnan("axis point", call(p, P, hide))


@contract("C02", "equirectangular.poles")
def poles(h):
    """points straight above or below are mapped to the rows at +-90 degrees"""
    p, fx, fy, cx, cy = projection(h, "EquirectangularProjection")
    b = h.choose("batch", BATCHES)
    s = h.choose("side", [1, -1])
    y = h.col("y", b, lo=0, lo_strict=True, gen=(0.1, 5))
    P = h.np.array([y * 0, y * s, y * 0]).T
    q = call(p, P, None)
    h.eq("row", q[..., 1], y * 0 + (cy - s * fy * h.np.pi / 2))
