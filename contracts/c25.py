"""C25 A fit minimises minus the log probability and ends at the minimum found.

The log probability of the camera is an arbitrary function of its current parameters (an uninterpreted function of *all* parameters that
are relevant here, fitted or not), the optimiser is a stub that tries arbitrary positions and returns an arbitrary one, and random draws
from the distributions of the parameters are arbitrary numbers. What is proved is the contract between fit and the optimiser; the quality
of scipy's minimiser is trusted (a concrete contract runs it)."""
import numpy
from .common import contract

INF = float("inf")
VALUES = ("elevation_m", "tilt_deg", "roll_deg", "heading_deg")


class Draws(object):
    """a distribution: every draw is an arbitrary number within the bounds"""
    def __init__(self, h, name, lo=None, hi=None):
        self.h, self.name, self.n, self.lo, self.hi = h, name, 0, lo, hi

    def rvs(self, *a, **k):
        self.n += 1
        u = self.h.real("draw_%s%d" % (self.name, self.n), lo=0, hi=1)
        x = self.lo + u * (self.hi - self.lo) if self.lo is not None else u * 20 - 10
        return x if self.h.sym else numpy.float64(x)


class Minimizer(object):
    """scipy.optimize.minimize: tries arbitrary positions, ends at an arbitrary one"""
    def __init__(self, h, answer):
        self.h, self.answer, self.calls = h, answer, []

    def __call__(self, fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None,
                 callback=None, options=None):
        self.calls.append(x0)
        return self.answer(fun, x0, bounds, dict(method=method, tol=tol, options=options))

    def __enter__(self):
        import scipy.optimize
        import sys
        self.keep = []
        if self.h.sym:
            self.h.hook("scipy.optimize.minimize", self)
        else:
            real = scipy.optimize.minimize
            for m in (scipy.optimize, sys.modules["cameratransform.parameter_set"]):
                for n, v in list(vars(m).items()):
                    if v is real:
                        self.keep.append((m, n, v))
                        setattr(m, n, self)
        return self

    def __exit__(self, *a):
        for m, n, v in self.keep:
            setattr(m, n, v)


class Probability(object):
    """an arbitrary function of the parameters; the first k different positions are impossible"""
    def __init__(self, h, cam, impossible=0):
        self.h, self.cam, self.k, self.seen, self.f = h, cam, impossible, [], h.choose("function", [0, 1])
        self.nan = None

    def at(self, values):
        return self.h.uf("logp%d" % self.f, *values)

    def __call__(self):
        h = self.h
        now = [getattr(self.cam, n) for n in VALUES]
        for i, p in enumerate(self.seen):
            if all(h.same(a, b) for a, b in zip(p, now)):
                break
        else:
            i = len(self.seen)
            self.seen.append(now)
        if i < self.k:
            return -INF if (i + self.f) % 2 else float("nan")
        if self.nan is not None and all(h.same(a, b) for a, b in zip(self.nan, now)):
            return float("nan")
        return self.at(now)


def start_camera(h):
    ct = h.ct
    start = [h.real("start_%s" % n, lo=lo, hi=hi, lo_strict=n == "elevation_m", special=[]) for n, lo, hi in
             zip(VALUES, (0, 0, -180, -180), (100, 180, 180, 180))]
    cam = ct.Camera(ct.RectilinearProjection(focallength_px=3000, image=(4000, 3000)), ct.SpatialOrientation(**dict(zip(VALUES, start))))
    return cam, dict(zip(VALUES, start))


def fit_parameter(h, name, kind, value):
    """a parameter to fit; returns it and its bounds"""
    ct = h.ct
    if kind == "bounds":
        lo = h.real("lower_" + name, lo=-50, hi=100, special=[0])
        w = h.real("width_" + name, lo=0, hi=100, lo_strict=True)
        d = Draws(h, name, lo, lo + w)
        if h.sym:
            def uniform(loc=0, scale=1):
                h.eq("prior starts at the lower bound", loc, lo)
                h.eq("prior ends at the upper bound", loc + scale, lo + w)
                return d
            h.hook("scipy.stats.uniform", uniform)
        h.assume((value >= lo) & (value <= lo + w))
        return ct.FitParameter(name, lower=lo, upper=lo + w, value=value), (lo, lo + w)
    if kind == "normal":
        if h.sym:
            h.hook("scipy.stats.norm", lambda *a, **k: Draws(h, name))
        return ct.FitParameter(name, mean=value, std=1.5, value=value), (None, None)
    return ct.FitParameter(name, distribution=Draws(h, name), value=value), (None, None)


def infinite(x):
    return x is None or (isinstance(x, (float, numpy.floating)) and numpy.isinf(x))


def limits(bounds, i):
    if bounds is None:
        return None, None
    if hasattr(bounds, "lb"):
        return numpy.broadcast_to(bounds.lb, (9,))[i], numpy.broadcast_to(bounds.ub, (9,))[i]
    return bounds[i][0], bounds[i][1]


KINDS = [("bounds",), ("normal",), ("own",), ("bounds", "own"), ("own", "bounds"), ("normal", "bounds")]

for kinds in KINDS:
    @contract("C25", "contract of the optimiser (%s)" % ", ".join(kinds), trials=60)
    def optimiser(h, kinds=kinds):
        """start, bounds, cost and final position"""
        cam, start = start_camera(h)
        names = h.choose("parameters", [("tilt_deg", "elevation_m"), ("heading_deg", "tilt_deg"), ("roll_deg", "heading_deg")])[:len(kinds)]
        values = [h.real("value_%s" % n, lo=-50, hi=150, special=[0]) for n in names]
        made = [fit_parameter(h, n, k, v) for n, k, v in zip(names, kinds, values)]
        params, bounds = [m[0] for m in made], [m[1] for m in made]
        impossible = h.choose("impossible starts", [0, 1, 2])
        logp = Probability(h, cam, impossible)
        cam.addCustomoLogProbability(logp)
        tried = [[h.real("try%d_%s" % (j, n), lo=-360, hi=360) for n in names] for j in range(2)]
        best = [h.real("best_%s" % n, lo=-360, hi=360) for n in names]
        extra = h.choose("options", [{}, dict(iterations=7), dict(method="Nelder-Mead"), dict(tol=1e-3)])

        def full(p):
            d = dict(start)
            d.update(zip(names, p))
            return [d[n] for n in VALUES]

        def answer(fun, x0, limit, options):
            h.check("a start for every parameter", len(x0) == len(names))
            if not impossible:
                for i, n in enumerate(names):
                    h.eq("starts from the value of the parameter", x0[i], values[i])
            for i, n in enumerate(names):
                lo, hi = limits(limit, i)
                if bounds[i][0] is None:
                    h.check("no bounds", infinite(lo) and infinite(hi))
                else:
                    h.eq("lower bound", lo, bounds[i][0])
                    h.eq("upper bound", hi, bounds[i][1])
                    h.check("start within the bounds", (x0[i] >= lo) & (x0[i] <= hi))
            h.check("draws until the start is possible", len(logp.seen) > impossible)
            if impossible:
                for a, b in zip(full(x0), logp.seen[impossible]):
                    h.eq("starts from the first possible draw", a, b)
            for p in tried:
                h.eq("cost is minus the log probability", fun(h.np.array(p)), -logp.at(full(p)))
                for n, v in zip(VALUES, full(p)):
                    h.eq("evaluated at the tried position", getattr(cam, n), v)
            h.eq("cost does not depend on the tries before", fun(h.np.array(tried[0])), -logp.at(full(tried[0])))
            logp.nan = full(tried[1])
            c = fun(h.np.array(tried[1]))
            h.check("an undefined probability is the worst", isinstance(c, (float, numpy.floating)) and c == INF)
            logp.nan = None
            if "iterations" in extra:
                h.check("iterations limited", options["options"]["maxiter"] == 7)
            if "method" in extra:
                h.check("method", options["method"] == "Nelder-Mead")
            if "tol" in extra:
                h.check("tolerance", options["tol"] == 1e-3)
            self.result = dict(x=h.np.array(best), fun=1.0, success=True)
            return self.result

        with Minimizer(h, answer) as self:
            result = cam.fit(params, **extra)
        h.check("one minimisation", len(self.calls) == 1)
        h.check("returns the result of the optimiser", result is self.result)
        for n, v in zip(VALUES, full(best)):
            h.eq("the camera is at the minimum found", getattr(cam, n), v)
        if h.choose("afterwards", [0, 1]):
            # a second fit of another parameter starts from the first result
            other = [n for n in VALUES if n not in names][0]
            v2, b2 = h.real("value_other", lo=1, hi=20), h.real("best_other", lo=1, hi=20)
            logp.k = 0

            def again(fun, x0, limit, options):
                h.eq("second fit", fun(h.np.array([v2])), -logp.at([v2 if n == other else v for n, v in zip(VALUES, full(best))]))
                return dict(x=h.np.array([b2]))
            with Minimizer(h, again):
                cam.fit([h.ct.FitParameter(other, distribution=Draws(h, other), value=v2)])
            for n, v in zip(VALUES, full(best)):
                h.eq("both minima", getattr(cam, n), b2 if n == other else v)


@contract("C25", "no possible start", mode="float", trials=4)
def nowhere(h):
    """a camera without any possible position is reported"""
    cam, start = start_camera(h)
    cam.addCustomoLogProbability(lambda: -INF)
    h.raises("impossible", ValueError, lambda: cam.fit([h.ct.FitParameter("tilt_deg", lower=0, upper=10, value=3)]))


@contract("C25", "real optimiser", mode="float", trials=30)
def real_optimiser(h):
    """the optimum of a parabola, within the bounds, also for two cameras of a group"""
    ct = h.ct
    cam, start = start_camera(h)
    group = h.choose("group", [False, True])
    o = cam
    names = ["tilt_deg", "heading_deg"]
    if group:
        o = ct.CameraGroup(cam.projection, (ct.SpatialOrientation(**start), ct.SpatialOrientation(**start)))
        names = ["C0_tilt_deg", "C1_heading_deg"]
    aim = [h.real("aim%d" % i, lo=-30, hi=30) for i in range(2)]
    get = (lambda: (o[0].tilt_deg, o[1].heading_deg)) if group else (lambda: (cam.tilt_deg, cam.heading_deg))

    def logp():
        a, b = get()
        return -(a - aim[0]) ** 2 - 2 * (b - aim[1]) ** 2
    o.addCustomoLogProbability(logp)
    r = o.fit([ct.FitParameter(names[0], lower=-10, upper=10, value=1), ct.FitParameter(names[1], mean=0, std=10, value=2)])
    want = [min(max(aim[0], -10), 10), aim[1]]
    for i in range(2):
        h.eq("result", r["x"][i], want[i], tol=1e-2, scale=1)
        h.eq("camera", get()[i], want[i], tol=1e-2, scale=1)
    h.eq("cost", r["fun"], -o.getLogProbability(), tol=1e-4, scale=1)


@contract("C25", "starts outside of the possible region", mode="float", trials=30)
def far_start(h):
    """random draws replace an impossible start: uniform and normal priors"""
    ct = h.ct
    cam, start = start_camera(h)
    lo = h.real("lo", lo=0, hi=20)
    kind = h.choose("prior", ["bounds", "normal"])

    def logp():
        return -(cam.tilt_deg - lo - 8) ** 2 if lo + 5 <= cam.tilt_deg <= lo + 10 else -INF
    cam.addCustomoLogProbability(logp)
    p = ct.FitParameter("tilt_deg", lower=lo, upper=lo + 10, value=lo) if kind == "bounds" else ct.FitParameter("tilt_deg", mean=lo + 6, std=4, value=lo)
    tried = []
    first = []

    def answer(fun, x0, limit, options):
        first.append(x0[0])
        return dict(x=numpy.array([lo + 9]))
    with Minimizer(h, answer):
        cam.fit([p])
    h.check("possible start", lo + 5 <= first[0] <= lo + 10)
    h.eq("camera", cam.tilt_deg, lo + 9)
