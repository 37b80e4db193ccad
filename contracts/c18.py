"""C18 Sampling stays in bounds and its trace is consistent.

metropolis: the state carried from one iteration of the sampling loop to the next is (position, its log probability, step scale). The
contract runs two consecutive iterations with arbitrary numbers from an arbitrary start state (any position within the bounds, any log
probability function, any step), which is the induction step of the loop: afterwards the position is again within the bounds and has the
recorded log probability. Random numbers are arbitrary values of their range; truncnorm may return *any* number (its accuracy is not
trusted). Concrete runs execute thousands of real iterations."""
import numpy
from .common import contract, PROJECTIONS

INF = float("inf")


class Uniform(object):
    """numpy.random: uniform numbers are arbitrary in [0, 1), indices are chosen, normal numbers are arbitrary"""
    NAMES = ("rand", "random", "random_sample", "uniform")

    def __init__(self, h, rows=None):
        self.h, self.r, self.rows, self.picked = h, [], rows, []

    def one(self):
        r = self.h.real("r%d" % len(self.r), lo=0, hi=1, hi_strict=True)
        self.r.append(r)
        return r

    def hook(self, n):
        h = self.h
        if n in ("rand", "random", "random_sample"):
            return lambda *a, **k: self.one()
        if n == "uniform":
            return lambda lo=0.0, hi=1.0, size=None: lo + (hi - lo) * self.one()
        if n in ("randint", "choice") and self.rows:
            def pick(*a, **k):
                self.picked.append(h.choose("pick%d" % len(self.picked), list(range(self.rows))))
                return self.picked[-1]
            return pick
        return None

    def __enter__(self):
        self.keep = {n: getattr(numpy.random, n) for n in self.NAMES}
        if self.h.sym:
            self.h.c.random_hook = self.hook
        else:
            def wrap(f):
                def g(*a, **k):
                    r = f(*a, **k)
                    self.r.append(r)
                    return r
                return g
            for n in self.NAMES:
                setattr(numpy.random, n, wrap(self.keep[n]))
        return self

    def __exit__(self, *a):
        for n in self.NAMES:
            setattr(numpy.random, n, self.keep[n])


class Bar(object):
    """tqdm.trange: the iterations to run"""
    def __init__(self, ids):
        self.ids = ids

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __iter__(self):
        return iter(self.ids)

    def set_postfix(self, *a, **k):
        pass


class Any(object):
    """scipy.stats.truncnorm: returns any numbers"""
    def __init__(self, h):
        self.h, self.n = h, 0

    def __call__(self, *a, **k):
        return self

    def rvs(self, *a, **k):
        v = [self.h.real("t%d.%d" % (self.n, j)) for j in range(self.size)]
        self.n += 1
        return self.h.np.array(v)


class LogProb(object):
    """an arbitrary log probability function: finite, minus infinity, or undefined at each position; keeps what it was asked for"""
    def __init__(self, h, kinds=("finite", "-inf", "nan")):
        self.h, self.kinds = h, kinds
        self.asked, self.value = [], []

    def __call__(self, position):
        h = self.h
        position = list(position)
        known = [v for p, v in zip(self.asked, self.value) if len(p) == len(position) and all(h.same(a, b) for a, b in zip(p, position))]
        if known:
            v = known[0]
        elif h.sym:
            kind = h.choose("kind%d" % len(self.asked), list(self.kinds))
            v = h.real("L%d" % len(self.asked)) if kind == "finite" else float(kind)
        else:
            v = self.f(position)
        self.asked.append(position)
        self.value.append(v)
        return v

    def effective(self, j):
        v = self.value[j]
        return -INF if not self.h.is_symbolic(v) and v != v else v


def finite(h, v):
    return h.is_symbolic(v) or abs(v) < INF


def accepted(h, new, last, r):
    """the acceptance rule"""
    if finite(h, new) and finite(h, last):
        if h.sym:
            return bool(new >= last) or bool(r < h.np.exp(new - last))
        return new >= last or r < numpy.exp(new - last)
    if finite(h, new):
        return last < 0
    if finite(h, last):
        return new > 0
    return new >= last


def bounds(h, n, kinds=("both", "lower", "upper", "none")):
    ranges, start, checks = [], [], []
    for j in range(n):
        kind = h.choose("bounds%d" % j, list(kinds))
        lo = h.real("lo%d" % j, gen=(-5, 5))
        x = lo + h.real("dx%d" % j, lo=0, gen=(0, 3), special=(0,))
        hi = x + h.real("dy%d" % j, lo=0, gen=(0, 3), special=(0,))
        if kind == "both":
            h.assume(hi > lo)
        ranges.append([lo if kind in ("both", "lower") else None, hi if kind in ("both", "upper") else None])
        start.append(x)
    return ranges, start


def in_bounds(h, label, position, ranges):
    for x, (lo, hi) in zip(position, ranges):
        if lo is not None:
            h.check(label, x >= lo)
        if hi is not None:
            h.check(label, x <= hi)


def follow(h, L, rows, ranges, r, n, start):
    """the oracle: follows the acceptance rule and compares the recorded rows with it"""
    for p in L.asked:
        h.check("size of the position", len(p) == n)
        in_bounds(h, "proposal within the bounds", p, ranges)
    last, lastp = start, L.effective(0)
    states = []
    for j in range(len(r)):
        new, newp = L.asked[j + 1], L.effective(j + 1)
        if accepted(h, newp, lastp, r[j]):
            last, lastp = new, newp
        states.append((last, lastp))
    h.check("no more rows than iterations", len(rows) <= len(states))
    if rows:
        for row, (p, v) in zip(rows, states[-len(rows):]):
            h.check("row consists of position and log probability", len(row) == n + 1)
            for a, b in zip(row, p):
                h.eq("recorded position", a, b, tol=0)
            if finite(h, v):
                h.eq("recorded log probability", row[-1], v, tol=0)
            else:
                h.check("recorded log probability", not h.is_symbolic(row[-1]) and row[-1] == v)


def step_contract(h, n, kinds, bkinds, ids, form=("scalar", "list")):
    ct = h.ct
    metropolis = h.module("statistic").metropolis
    ranges, start = bounds(h, n, bkinds)
    per, form = form if h.sym else (h.choose("step", ["scalar", "array"]), h.choose("start", ["array", "list"]))
    s = [h.real("step%d" % j, lo=0, lo_strict=True, gen=(0.01, 5)) for j in range(n)]
    step = s[0] if per == "scalar" else s
    L = LogProb(h, kinds)
    if h.sym:
        iterations, burn, run = h.choose("iterations", ids)
        t = Any(h)
        t.size = n
        h.hook("tqdm.trange", lambda *a, **k: Bar(run))
        h.hook("scipy.stats.truncnorm", t)
        h.hook("scipy.stats.truncnorm.rvs", t.rvs)
    else:
        iterations, burn = h.choose("iterations", [(10, 0.1), (60, 0.5), (10, 3)])
        c = [h.real("c%d" % j, gen=(-5, 5)) for j in range(n)]
        w = h.real("width", gen=(0.05, 5))
        flat = h.choose("function", ["normal", "flat", "nan", "-inf", "steps", "inf"])

        def f(p):
            d = sum((a - b) ** 2 for a, b in zip(p, c))
            if flat == "flat":
                return 0.0
            if flat in ("nan", "-inf") and (p[0] < start[0] if w < 2.5 else p[0] == start[0]):
                return float(flat)
            if flat == "inf" and p[0] > start[0]:
                return INF
            return -d / w ** 2 if flat != "steps" else float(numpy.floor(-d / w ** 2))
        L.f = f
    with Uniform(h) as u:
        rows = metropolis(L, h.np.array(start) if form == "array" else start, step=step, iterations=iterations,
                          burn=burn, disable_bar=True, ranges=ranges)
    follow(h, L, rows, ranges, u.r, n, start)
    if not h.sym or max(run) > burn * (iterations if burn < 1 else 1):
        h.check("something is recorded", len(rows) > 0)


EARLY = [(1000, 0.1, [0, 1]), (1000, 5, [5, 6]), (2000, 0.5, [200, 201])]
LATE = [(100, 0.1, [50, 51]), (1000, 0.1, [200, 201]), (1e5, 0.1, [30000, 30001])]
ALL = ("both", "lower", "upper", "none")

SA, LL = ("scalar", "array"), ("array", "list")
for name, kinds, bk, ids, form in (
        ("bounded", ("finite",), ("both",), LATE, LL), ("half bounded below", ("finite",), ("lower",), LATE, SA),
        ("half bounded above", ("finite",), ("upper",), LATE, SA), ("unbounded", ("finite",), ("none",), LATE, LL),
        ("burn-in", ("finite",), ("both", ), EARLY[:2], SA), ("tuning", ("finite",), ("upper",), EARLY[2:], LL),
        ("undefined", ("finite", "-inf", "nan"), ("both",), LATE[1:2], SA), ("impossible", ("-inf", "nan"), ("both", "none"), LATE[:1], LL),
        ("undefined unbounded", ("finite", "-inf", "nan"), ("none",), LATE, SA),
        ("infinite", ("finite", "-inf", "inf"), ("none",), LATE[:1], SA)):
    def one(h, kinds=kinds, bk=bk, ids=ids, form=form):
        step_contract(h, 1, kinds, bk, ids, form)
    one.__doc__ = "proposals stay within the bounds, are accepted by the rule and recorded with their log probability; " + name
    contract("C18", "step " + name, trials=100)(one)


@contract("C18", "step pair half bounded", trials=150)
def two(h):
    """several parameters with their own bounds and steps"""
    step_contract(h, 2, ("finite",), ("both", "none") if not h.sym else ("upper",), LATE[1:2], LL)


@contract("C18", "step pair unbounded", trials=100)
def two_b(h):
    """several parameters with their own bounds and steps"""
    step_contract(h, 2, ("finite",), ("both", "none") if not h.sym else ("none",), LATE[1:2], SA)


@contract("C18", "prior trace", trials=100)
def prior(h):
    """with draws from an earlier trace every row holds the draw its probability belongs to"""
    import pandas
    metropolis = h.module("statistic").metropolis
    ranges, start = bounds(h, 1, ("both", "none"))
    a, b = h.real("a", gen=(-5, 5)), h.real("b", gen=(-5, 5))
    s = h.real("step", lo=0, lo_strict=True, gen=(0.01, 5))
    before = pandas.DataFrame([[a, 0.0], [b, -1.0]], columns=["q", "probability"])
    L = LogProb(h, ("finite",))
    L.f = lambda p: -(p[0] - start[0]) ** 2 - (p[1] - a) ** 2
    if h.sym:
        t = Any(h)
        t.size = 1
        h.hook("tqdm.trange", lambda *x, **k: Bar([50, 51]))
        h.hook("scipy.stats.truncnorm", t)
        h.hook("scipy.stats.truncnorm.rvs", t.rvs)
    with Uniform(h, rows=2) as u:
        rows = metropolis(L, start, step=s, iterations=100, burn=0.1, disable_bar=True, ranges=ranges, prior_trace=before)
    for p in L.asked:
        h.check("size of the position", len(p) == 2)
        in_bounds(h, "proposal within the bounds", p[:1], ranges)
        h.check("drawn from the trace", (h.same(p[1], a) or h.same(p[1], b)))
    follow_rows(h, L, rows)


def follow_rows(h, L, rows):
    """each row is one of the positions asked for with its probability"""
    for row in rows:
        row = list(row)
        n = len(row) - 1
        match = [j for j, p in enumerate(L.asked) if len(p) == n and all(h.same(x, y) for x, y in zip(p, row))]
        h.check("recorded position was evaluated", len(match) > 0)
        if match:
            v = L.effective(match[0])
            if finite(h, v):
                h.eq("recorded log probability", row[-1], v, tol=0)
            else:
                h.check("recorded log probability", not h.is_symbolic(row[-1]) and row[-1] == v)


@contract("C18", "long runs", mode="float", trials=60, float_s=60)
def long_runs(h):
    """thousands of iterations with an adapting step: bounds, trace, acceptance frequency (bounded: concrete runs)"""
    metropolis = h.module("statistic").metropolis
    n = h.choose("parameters", [1, 2, 3])
    ranges, start = bounds(h, n)
    what = h.choose("function", ["normal", "flat", "narrow", "holes"])
    N, burn = h.choose("iterations", [(3000, 0.1), (3000, 0.9), (4000, 2000)])
    c = [h.real("c%d" % j, gen=(-3, 3)) for j in range(n)]
    bounded = all(lo is not None and hi is not None for lo, hi in ranges)

    def f(p):
        d = sum((a - b) ** 2 for a, b in zip(p, c))
        if what == "flat":
            return 0.0 if bounded else -abs(p[0])
        if what == "holes" and numpy.floor(p[0] * 3) % 2 == 1 and list(p) != list(start):
            return float("nan")
        return -d / (1e-4 if what == "narrow" else 1)
    L = LogProb(h)
    L.f = f
    L.__class__ = Plain
    with Uniform(h) as u:
        rows = metropolis(L, start, step=h.real("step", lo=0, lo_strict=True, gen=(1e-3, 10)), iterations=N, burn=burn, disable_bar=True, ranges=ranges)
    follow(h, L, rows, ranges, u.r, n, start)
    if bounded and what == "flat":
        h.check("the sampler keeps moving", len(set(r[0] for r in rows)) > len(rows) / 3)


class Plain(LogProb):
    def __call__(self, position):
        self.asked.append(list(position))
        self.value.append(self.f(position))
        return self.value[-1]


# ---------------------------------------------------------------------------------------------------------------------
# sampling the parameters of a camera
# ---------------------------------------------------------------------------------------------------------------------
NAMES = ["elevation_m", "tilt_deg"]


def scene(h):
    ct = h.ct
    cam = ct.Camera(ct.RectilinearProjection(focallength_px=1000, image=(200, 100)), ct.SpatialOrientation())
    cam.roll_deg = h.real("roll before")
    return cam, {n: getattr(cam, n) for n in ("roll_deg", "heading_deg", "pos_x_m", "pos_y_m", "focallength_x_px")}


def parameter(h, ct, n, kind, j):
    lo = h.real(n + ".lo", gen=(-5, 5))
    x = lo + h.real(n + ".dx", lo=0, gen=(0, 3))
    hi = x + h.real(n + ".dy", lo=0, lo_strict=True, gen=(0, 3))
    s = h.real(n + ".step", lo=0, lo_strict=True, gen=(0.01, 2))
    if kind == "bounds":
        p = ct.FitParameter(n, lower=lo, upper=hi, value=x, step=s)
        return p, x, lo, hi, s
    if h.sym:
        h.hook("scipy.stats.norm", lambda *a, **k: None)
    p = ct.FitParameter(n, mean=lo, std=1.0, value=x, step=s)
    return p, x, None, None, s


@contract("C18", "parameters of a camera", trials=100)
def camera_parameters(h):
    """the sampler gets bounds, steps and start of the parameters, and a position is evaluated with exactly its parameter values;
    metropolis is represented by its contract: any rows of positions with their log probability"""
    ct = h.ct
    cam, other = scene(h)
    extra_kind = h.choose("additional parameter", [False, True])
    kinds = h.choose("kinds", [("bounds", "bounds"), ("bounds", "normal"), ("normal", "bounds")])
    if h.sym:
        h.hook("scipy.stats.uniform", lambda *a, **k: None)
    ps = [parameter(h, ct, n, k, j) for j, (n, k) in enumerate(zip(NAMES, kinds))]
    extra = [parameter(h, ct, "sigma", "bounds", 2)] if extra_kind else []
    rank = h.choose("order", [(0, 1, 2), (2, 1, 0), (0, 2, 1), (1, 1, 0), (-INF, 1, 0), (0, 1, -INF), (-INF, -INF, -3)])
    g = h.choose("part", [0, 1])
    if extra:
        cam.addCustomoLogProbability(lambda: h.uf("lp", cam.elevation_m, cam.tilt_deg) + h.uf("ls", extra[0][0].value[()]), [p[0] for p in extra])
    else:
        cam.addCustomoLogProbability(lambda: h.uf("lp", cam.elevation_m, cam.tilt_deg))
    cam.addCustomoLogProbability(lambda: h.uf("lq", cam.tilt_deg))
    names = NAMES + (["sigma"] if extra else [])
    rows = [[h.real("row%d.%d" % (i, j), gen=(-5, 5)) for j in range(len(names))] for i in range(3)]
    mod = h.module("parameter_set")
    seen = []

    def sampler(getLogProb, start, *a, **k):
        seen.append((start, a, k))
        # evaluations in any order
        for i in (1, 0):
            v = getLogProb(list(rows[i]))
            x = rows[i]
            want = h.uf("lp", x[0], x[1]) + h.uf("lq", x[1])
            if extra:
                want = want + h.uf("ls", x[2])
            h.eq("log probability of a position", v, want)
            h.eq("camera is at the position", cam.elevation_m, x[0])
            h.eq("camera is at the position", cam.tilt_deg, x[1])
        return [list(r) + [p] for r, p in zip(rows, rank)]
    keep = mod.metropolis
    mod.metropolis = sampler
    try:
        with Quiet():
            trace = cam.metropolis([p[0] for p in ps], step=2, iterations=1000, burn=0.1, disable_bar=True, print_trace=False)
    finally:
        mod.metropolis = keep
    h.check("sampled once", len(seen) == 1)
    start, a, k = seen[0]
    for j, (p, x, lo, hi, s) in enumerate(ps + extra):
        h.eq("start", start[j], x)
        rl, rh = k["ranges"][j]
        for got, want in ((rl, lo), (rh, hi)):
            if want is None:
                h.check("unbounded", got is None or got != got or abs(got) == INF)
            else:
                h.eq("bounds", got, want)
        h.eq("step", k["step"][j], 2 * s)
    h.check("columns", list(trace.columns) == names + ["probability"])
    for i, r in enumerate(rows):
        for n, v in zip(names, r):
            h.eq("trace", trace[n][i], v)
        h.check("trace", trace["probability"][i] == rank[i])
    # the camera is at the most probable row
    best = [i for i in range(3) if rank[i] == max(rank)]
    hit = [i for i in best if h.same(cam.elevation_m, rows[i][0]) and h.same(cam.tilt_deg, rows[i][1])]
    h.check("camera is set to the most probable row", len(hit) > 0)
    for n, v in other.items():
        h.eq("other parameters", getattr(cam, n), v)


class Quiet(object):
    def __enter__(self):
        import sys, io
        self.keep = sys.stdout
        sys.stdout = io.StringIO()

    def __exit__(self, *a):
        import sys
        sys.stdout = self.keep


@contract("C18", "drawing a sample", trials=100)
def draw(h):
    """drawing a sample sets the camera to one row of the trace and returns its log probability"""
    import pandas
    cam, other = scene(h)
    rows = [[h.real("row%d.%d" % (i, j), gen=(-5, 5)) for j in range(2)] for i in range(3)]
    prob = [h.real("p%d" % i, gen=(-5, 0)) for i in range(3)]
    names = NAMES[::h.choose("order", [1, -1])]
    # a trace that was thinned out or put together from several ones keeps its row labels
    labels = h.choose("row labels", [None, [0, 100, 200], [1, 0, 1]])
    cam.set_trace(pandas.DataFrame([r + [p] for r, p in zip(rows, prob)], columns=names + ["probability"], index=labels))
    for k in range(h.choose("draws", [1, 2])):
        with Uniform(h, rows=3):
            p = cam.sample()
        hit = [i for i in range(3) if h.same(p, prob[i]) and all(h.same(getattr(cam, n), v) for n, v in zip(names, rows[i]))]
        h.check("camera is set to one row of the trace", len(hit) == 1)
        for n, v in other.items():
            h.eq("other parameters", getattr(cam, n), v)


@contract("C18", "most probable row", mode="float", trials=100)
def most_probable(h):
    """resetting a camera with a trace sets it to the most probable row (bounded: concrete runs)"""
    import pandas
    cam, other = scene(h)
    n = h.choose("rows", [1, 2, 3, 20])
    rows = [[h.real("row%d.%d" % (i, j), gen=(-5, 5)) for j in range(2)] for i in range(n)]
    prob = [h.real("p%d" % i, gen=(-5, 0)) for i in range(n)]
    nan = h.choose("undefined", [False, True])
    if nan and n > 1:
        prob[0] = [-INF, float("nan")][h.choose("as", [0, 1])]
    labels = h.choose("row labels", [None, [10 * i for i in range(n)], [i % 2 for i in range(n)], list(range(n))[::-1]])
    names = NAMES[::h.choose("order", [1, -1])]
    cam.set_trace(pandas.DataFrame([r + [p] for r, p in zip(rows, prob)], columns=names + ["probability"], index=labels))
    with Quiet():
        cam.set_to_mean()
    best = max(range(n), key=lambda i: prob[i] if prob[i] == prob[i] else -INF)
    for k, v in zip(names, rows[best]):
        h.eq("most probable row", getattr(cam, k), v)
    for k, v in other.items():
        h.eq("other parameters", getattr(cam, k), v)


@contract("C18", "real sampling of a camera", mode="float", trials=20, float_s=60)
def real_sampling(h):
    """the whole method with real random numbers and changing parameters (bounded: concrete runs)"""
    ct = h.ct
    cam, other = scene(h)
    kinds = h.choose("kinds", [("bounds", "bounds"), ("bounds", "normal"), ("normal", "normal")])
    ps = [parameter(h, ct, n, k, j) for j, (n, k) in enumerate(zip(NAMES, kinds))]
    extra = [parameter(h, ct, "sigma", "bounds", 2)] if h.choose("additional parameter", [False, True]) else []
    hole = h.choose("holes", [False, True])
    asked = []
    c = h.real("c", gen=(-3, 3))

    def lp():
        v = [cam.elevation_m, cam.tilt_deg] + [float(p[0].value) for p in extra]
        r = -sum((x - c) ** 2 for x in v)
        if hole and v[0] < ps[0][1]:
            r = float("nan")
        asked.append((v, r))
        return r
    cam.addCustomoLogProbability(lp, [p[0] for p in extra])
    with Quiet():
        trace = cam.metropolis([p[0] for p in ps], iterations=400, disable_bar=True, print_trace=False)
    for v, r in asked:
        in_bounds(h, "within the bounds", v, [(p[2], p[3]) for p in ps + extra])
    table = {tuple(v): r for v, r in asked}
    for i in range(len(trace)):
        row = list(trace.loc[i])
        h.check("row was evaluated", tuple(row[:-1]) in table)
        r = table.get(tuple(row[:-1]), 0)
        h.check("log probability of the row", row[-1] == (r if r == r else -INF))
    best = trace["probability"].max()
    at = (cam.elevation_m, cam.tilt_deg)
    h.check("camera at the most probable row", any(tuple(trace.loc[i])[:2] == at for i in range(len(trace)) if trace["probability"][i] == best))
    p = cam.sample()
    at = (cam.elevation_m, cam.tilt_deg)
    h.check("camera at a row of the trace", any(tuple(trace.loc[i])[:2] == at and trace["probability"][i] == p for i in range(len(trace))))
