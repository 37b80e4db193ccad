"""C13 Ray-mesh intersection returns the nearest hit in front, or NaN.

Any ray that is not parallel to the plane of a triangle can be written, uniquely, as origin + r direction = v0 + s (v1 - v0) + t (v2 - v0) at
the point where it meets that plane: (r, s, t) are the parameters of the proof instead of v0. It meets the triangle in forward direction
exactly if r >= 0, s >= 0, t >= 0 and s + t <= 1, at the point origin + r direction."""
import itertools
from .common import contract


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


SPAN = (-0.3, 1.3)


def triangle(h, tag, origin, d, simple=False):
    """corners of a triangle whose plane the ray meets at (r, s, t); whether the ray meets the triangle"""
    if simple:
        # the shape of the triangle is fixed in a frame that moves with the ray: enough to decide which triangle wins
        u, v = [1, 0, 0], [0, 1, 0]
    else:
        u, v = h.vec(tag + "u", 3, gen=(-3, 3)), h.vec(tag + "v", 3, gen=(-3, 3))
    n = dot(cross(u, v), d)
    h.assume(n != 0)
    h.guard(abs(n) > 0.05)
    r = h.real(tag + "r", gen=(-1, 5))
    s, t = h.real(tag + "s", gen=SPAN), h.real(tag + "t", gen=SPAN)
    for x in (r, s, t, 1 - s - t):
        h.guard(abs(x) > 1e-6)
    v0 = [origin[i] + r * d[i] - s * u[i] - t * v[i] for i in range(3)]
    v1, v2 = [a + b for a, b in zip(v0, u)], [a + b for a, b in zip(v0, v)]

    def hit():
        return bool(r >= 0) and bool(s >= 0) and bool(t >= 0) and bool(s + t <= 1)
    hit.args = r, s, t
    return [v0, v1, v2], r, hit


def ray(h, simple=False):
    o = h.vec("o", 3, gen=(-5, 5))
    d = h.vec("d", 3, gen=(-2, 2))
    if simple:
        d = [d[0], d[1], 1]
    return o, d


def result(h, label, got, o, d, r):
    if r is None:
        h.allnan(label + " (miss)", got)
    else:
        h.eq(label + " (hit)", got, h.np.array([o[i] + r * d[i] for i in range(3)]), tol=1e-6)


def nearest(rs):
    best = None
    for r in rs:
        if r is not None and (best is None or bool(r < best)):
            best = r
    return best


@contract("C13", "one triangle", tol=1e-6)
def one(h):
    """hit exactly if the ray meets the triangle in forward direction, borders included, at origin + r direction; NaN otherwise"""
    np = h.np
    o, d = ray(h)
    T, r, hit = triangle(h, "T", o, d)
    form = h.choose("mesh", ["triangle", "list of one", "array"])
    mesh = {"triangle": T, "list of one": [T], "array": np.array([T])}[form]
    got = h.ct.ray.ray_intersect_triangle(np.array(o) if form == "array" else o, np.array(d) if form == "array" else d, mesh)
    h.eq("three coordinates", tuple(got.shape), (3,))
    result(h, "intersection", got, o, d, r if hit() else None)


@contract("C13", "corner order", tol=1e-6)
def corners(h):
    """the result does not depend on the order of the corners, nor on the length of the direction vector"""
    np = h.np
    o, d = ray(h, True)
    T, r, hit = triangle(h, "T", o, d, True)
    order = h.choose("order", list(itertools.permutations(range(3))))
    k = h.real("k", lo=0, lo_strict=True, gen=(0.01, 20), special=(1,))
    got = h.ct.ray.ray_intersect_triangle(np.array(o), np.array([k * x for x in d]), np.array([[T[i] for i in order]]))
    result(h, "intersection", got, o, d, r if hit() else None)


def mesh_contract(n, simple=True):
    @contract("C13", "nearest of %d triangles" % n, tol=1e-6, budget=200)
    def many(h):
        """the nearest of the hit triangles, in any order; NaN if there is none"""
        np = h.np
        o, d = ray(h, simple)
        Ts = [triangle(h, "T%d" % i, o, d, simple) for i in range(n)]
        if n > 2:  # all the ways to miss are covered by the smaller meshes
            Ts = [(T, r, outcome(h, i, hit)) for i, (T, r, hit) in enumerate(Ts)]
        for a, b in itertools.combinations(Ts, 2):
            h.guard(abs(a[1] - b[1]) > 1e-6)
        got = h.ct.ray.ray_intersect_triangle(np.array(o), np.array(d), np.array([T for T, r, hit in Ts]))
        result(h, "intersection", got, o, d, nearest([r if hit() else None for T, r, hit in Ts]))
    return many


def outcome(h, i, hit):
    """a hit, one behind the origin or one beside the triangle (concrete runs: whatever was drawn)"""
    if not h.sym:
        return hit
    kind = h.choose("triangle %d" % i, ["hit", "behind", "beside"])
    r, s, t = hit.args
    for x in (t, 1 - s - t):
        h.assume(x >= 0)
    h.assume(r < 0 if kind == "behind" else r >= 0)
    h.assume(s < 0 if kind == "beside" else s >= 0)
    return lambda: kind == "hit"


for _n in (2, 3):
    mesh_contract(_n)


@contract("C13", "many rays", tol=1e-6, budget=200)
def rays(h):
    """any number of rays, from one origin or from one origin each: each ray gets its own intersection"""
    np = h.np
    n = h.choose("triangles", [1, 2])
    T = [[[1, 2, 5], [4, 2, 5], [1, 6, 7]], [[0, 1, 3], [5, 1, 3], [0, 6, 3]]][:n]
    D = h.rows("D", 3, "N", gens=[(-0.2, 1), (0, 1), (0.1, 1)])
    d = h.row(D, "N")
    if h.choose("origins", ["one", "one each"]) == "one":
        O = o = np.array(h.vec("o", 3, gen=(-1, 1)))
    else:
        O = h.rows("O", 3, "N", gen=(-1, 1))
        o = h.row(O, "N")
    got = h.ct.ray.ray_intersect_triangle(O, D, np.array(T, dtype=float))
    h.eq("each ray", h.row(got, "N"), h.ct.ray.ray_intersect_triangle(o, d, np.array(T, dtype=float)))


@contract("C13", "bigger meshes", mode="float", tol=1e-6)
def big(h):
    """bounded: concrete meshes of up to 40 triangles, shuffled, corners permuted, against an independent oracle"""
    np = h.np
    n = int(h.real("n", lo=1, hi=40, integer=True, gen=(1, 40)))
    m = h.choose("rays", [1, 2, 3, 7])
    O = np.array([h.vec("o%d" % i, 3, gen=(-5, 5)) for i in range(m)])
    D = np.array([h.vec("d%d" % i, 3, gen=(-2, 2)) for i in range(m)])
    base = np.array([h.vec("b%d" % i, 3, gen=(-6, 6)) for i in range(n)])
    T = np.array([[b, b + h.vec("u%d" % i, 3, gen=(-8, 8)), b + h.vec("v%d" % i, 3, gen=(-8, 8))] for i, b in enumerate(base)])
    single = m == 1 and h.choose("single", [True, False])
    want = np.full((m, 3), np.nan)
    for j in range(m):
        best = np.inf
        for t in T:
            M = np.array([t[1] - t[0], t[2] - t[0], -D[j]]).T
            h.guard(abs(np.linalg.det(M)) > 1e-3)
            s, q, r = np.linalg.solve(M, O[j] - t[0])
            for x in (s, q, r, 1 - s - q):
                h.guard(abs(x) > 1e-6)
            if s >= 0 and q >= 0 and s + q <= 1 and 0 <= r < best:
                best = r
        if best < np.inf:
            want[j] = O[j] + best * D[j]
    got = h.ct.ray.ray_intersect_triangle(O[0] if single else O, D[0] if single else D, T)
    h.eq("intersection", got, want[0] if single else want)
    perm = np.array(sorted(range(n), key=lambda i: base[i][0]))
    T2 = T[perm][:, [1, 2, 0]]
    h.eq("other order", h.ct.ray.ray_intersect_triangle(O, D * 3, T2), want)
    # a mesh with triangles that have no area
    h.eq("degenerate triangles", h.ct.ray.ray_intersect_triangle(O, D, np.concatenate([T, T[:1, [0, 0, 0]], T[-1:, [0, 1, 1]]])), want)


@contract("C13", "long lists", mode="float", tol=1e-6, trials=60)
def long(h):
    """bounded: thousands of triangles or rays, vertices as floating point numbers or integers, against an independent oracle"""
    np = h.np
    n, m = h.choose("triangles and rays", [(3000, 1), (1500, 40), (300, 300), (40, 1500), (5, 20000), (1, 3000)])
    rng = np.random.RandomState(int(h.real("seed", lo=0, hi=1e6, gen=(0, 1e6), integer=True)))
    T = rng.uniform(-20, 20, (n, 1, 3)) + rng.uniform(-8, 8, (n, 3, 3))
    kind = h.choose("numbers", [float, "int8", "uint8", "int16", "uint16", int])
    if kind is not float:
        T = np.round(4 * T + 120).astype(kind)
    O, D = rng.uniform(-5, 5, (m, 3)) + (0 if kind is float else 120), rng.normal(size=(m, 3))
    T0 = T.astype(float)
    u, v = T0[:, 1] - T0[:, 0], T0[:, 2] - T0[:, 0]
    with np.errstate(all="ignore"):
        p = np.cross(D[:, None], v[None])
        det = np.sum(p * u[None], axis=-1)
        t = O[:, None] - T0[None, :, 0]
        s = np.sum(t * p, axis=-1) / det
        x = np.cross(t, u[None])
        q = np.sum(D[:, None] * x, axis=-1) / det
        r = np.sum(v[None] * x, axis=-1) / det
        hit = (s >= 0) & (q >= 0) & (s + q <= 1) & (r >= 0)
        r = np.where(hit, r, np.inf)
        best = np.min(r, axis=1)
        close = np.min([np.abs(s), np.abs(q), np.abs(1 - s - q)], axis=0) < 1e-6
        # rays that touch a border, or are almost parallel to a triangle, are left out
        clear = ~np.any(close | (np.abs(det) < 1e-3 * np.linalg.norm(D, axis=-1)[:, None]), axis=1)
    want = np.where(best[:, None] < np.inf, O + np.where(best < np.inf, best, 0)[:, None] * D, np.nan)
    got = h.ct.ray.ray_intersect_triangle(O, D, T)
    h.eq("rows", tuple(got.shape), (m, 3))
    h.guard(np.any(clear))
    h.eq("intersection", got[clear], want[clear], scale=100)


@contract("C13", "walls", tol=1e-9)
def walls(h):
    """extrudeLine: two triangles per segment that together are the wall between the two heights (bounded: up to 4 points)"""
    np = h.np
    n = h.choose("points", [2, 3, 4, 1, 0])
    form = h.choose("form", ["list", "tuple", "array"])
    P = [[h.real("x%d" % i, gen=(-9, 9)), h.real("y%d" % i, gen=(-9, 9))] for i in range(n)]
    z0, z1 = h.real("z0", gen=(-5, 5)), h.real("z1", gen=(-5, 5))
    h.assume(z0 != z1)
    h.guard(abs(z0 - z1) > 0.1)
    pts = {"list": P, "tuple": tuple(map(tuple, P)), "array": np.array(P)}[form] if n else []
    mesh = h.ct.ray.extrudeLine(pts, z0, z1)
    h.eq("number of triangles", len(mesh), max(0, 2 * (n - 1)))
    for i in range(n - 1):
        a, b = P[i], P[i + 1]
        h.assume(bool(a[0] != b[0]) or bool(a[1] != b[1]))
        corner = [a + [z0], b + [z0], b + [z1], a + [z1]]
        two = [[[T[c][k] for k in range(3)] for c in range(3)] for T in (mesh[2 * i], mesh[2 * i + 1])]
        cover(h, two, corner)


def same(h, p, q):
    return all(bool(x == y) for x, y in zip(p, q))


def cover(h, two, corner):
    """two triangles cover a rectangle exactly: three corners each, sharing one diagonal"""
    ids = []
    for T in two:
        ids.append([next((k for k in range(4) if same(h, p, corner[k])), None) for p in T])
    h.check("corners of the wall", all(k is not None for t in ids for k in t))
    a, b = map(set, ids)
    h.check("three different corners", len(a) == 3 and len(b) == 3)
    h.check("sharing a diagonal", a & b in ({0, 2}, {1, 3}) and a | b == {0, 1, 2, 3})
