import itertools
import numpy as np
from vlib import targets as TG

RULE = "one monitored execution per grid or set of uniform points over a generated box"
ASSUMPTIONS = ["along a dimension with a single point, the point is judged to lie in the box only"]


def funcs():
    from ais_benchmarks.sampling_methods import base
    from ais_benchmarks.utils import plot_utils
    return base, plot_utils


def box(rng, d):
    w = 10.0 ** rng.uniform(-2, 3, d) if rng.random() < .5 else rng.uniform(.2, 6, d)
    if rng.random() < .3:
        w[:] = w[0]
    off = rng.choice([0., 1., 1e3, -7.5]) * rng.normal(0, 1, d)
    if rng.random() < .08:  # very small or large boxes
        f = float(rng.choice([1e-10, 1e-7, 1e9]))
        w, off = w * f, off * f
    return off, off + w, w


def resolution(rng, w, limit):
    """A resolution that gives a manageable grid."""
    for _ in range(100):
        r = float(np.max(w) / rng.choice([1.2, 2, 3, 4.5, 7, 10, 12.9, 20, 33])) * (1.0 if rng.random() < .5 else float(rng.uniform(.8, 1.3)))
        if rng.random() < .15:
            r = float(np.min(w) / rng.integers(1, 6))
        n = np.maximum(1, np.floor(w / r))
        if np.prod(n) <= limit:
            return r
    return float(np.max(w) * 1.5)


def judge_grid(m, lo, hi, r, grid, dims, shape, name):
    d = len(lo)
    grid, shape = np.asarray(grid), [int(x) for x in np.asarray(shape).reshape(-1)]
    if not m.ok(len(dims) == d and len(shape) == d and [len(x) for x in dims] == shape, "the announced shape does not describe the coordinates", name=name, shape=shape, lens=[len(x) for x in dims]):
        return False
    if not m.ok(grid.shape == (int(np.prod(shape)), d), "the grid does not have as many points as announced", name=name, got=grid.shape, shape=shape):
        return False
    for i in range(d):
        x, w = np.asarray(dims[i], float), hi[i] - lo[i]
        tol = 1e-9 * max(w, abs(lo[i]), abs(hi[i]))
        m.ok(np.all(x >= lo[i] - tol) and np.all(x <= hi[i] + tol), "coordinates outside of the box", name=name, lo=lo, hi=hi, coords=x)
        m.ok(len(x) == 1 or abs(len(x) - w / r) <= 1 + 1e-6, "number of coordinates does not follow from the resolution", name=name, n=len(x), width=w, resolution=r)
        m.ok(len(x) >= 1 and (len(x) > 1 or w / r < 2 + 1e-6), "too few coordinates", name=name, n=len(x), width=w, resolution=r)
        if len(x) > 1:
            m.ok(abs(x[0] - lo[i]) <= tol and abs(x[-1] - hi[i]) <= tol, "the coordinates do not go from the lower to the upper limit", name=name, first=x[0], last=x[-1], lo=lo[i], hi=hi[i])
            m.ok(np.allclose(np.diff(x), w / (len(x) - 1), rtol=1e-6, atol=2 * tol), "the coordinates are not equally spaced", name=name, coords=x)
    # every combination exactly once
    idx = np.empty(grid.shape, int)
    for i in range(d):
        x = np.asarray(dims[i], float)
        idx[:, i] = np.argmin(np.abs(grid[:, i][:, None] - x[None, :]), axis=1)
        tol = 1e-9 * max(hi[i] - lo[i], abs(lo[i]), abs(hi[i]))
        if not m.ok(np.all(np.abs(grid[:, i] - x[idx[:, i]]) <= tol), "a grid point is not on the coordinates", name=name, dim=i):
            return False
    m.ok(len(set(map(tuple, idx.tolist()))) == len(grid), "the grid repeats or misses points", name=name, shape=shape)
    # reshaping by the shape puts the points at their coordinates
    G = grid.reshape(tuple(shape) + (d,))
    for i in range(d):
        v = np.moveaxis(G[..., i], i, -1)
        m.ok(np.allclose(v, np.broadcast_to(np.asarray(dims[i], float), v.shape), rtol=0, atol=1e-9 * max(hi[i] - lo[i], abs(lo[i]), abs(hi[i]))),
             "the grid reshaped by the announced shape is not at the matching coordinates", name=name, dim=i, shape=shape)
    m.ev("grid_points", len(grid))
    return True


def grids(m, rng, reps, dims):
    base, pu = funcs()
    for _ in range(reps):
        d = int(rng.choice(dims))
        lo, hi, w = box(rng, d)
        r = resolution(rng, w, 4000)
        if rng.random() < .1:  # one long axis
            lo, hi, w = box(rng, d)
            r = float(np.max(w) / rng.uniform(400, 1600))
            w = np.where(np.arange(d) == np.argmax(w), w, np.minimum(w, r * rng.uniform(.5, 2.5, d)))
            hi = lo + w
            m.ev("long_axes")
        m.trial(d, lo, hi, r)
        a, b = lo.copy(), hi.copy()
        for name, f in (("base", base.make_grid), ("plot_utils", pu.make_grid)):
            m.ev("grids")
            g, cs, sh = f(lo, hi, r)
            m.state(name, d, tuple(min(int(x), 50) for x in sh))
            judge_grid(m, lo, hi, r, g, cs, sh, name)
            m.ok(np.array_equal(a, lo) and np.array_equal(b, hi), "the limits of the box were changed", name=name)


class Counting:
    """Forwards to a density and records the values it returned."""

    def __init__(self, t):
        self.t, self.n = t, 0

    def prob(self, x):
        self.n += len(x)
        return self.t.prob(x)

    def log_prob(self, x):
        self.n += len(x)
        return self.t.log_prob(x)


def evaluations(m, rng, reps, dims):
    base, pu = funcs()
    for _ in range(reps):
        d = int(rng.choice(dims))
        lo, hi, w = box(rng, d)
        w = np.minimum(w, 50)
        hi = lo + w
        r = resolution(rng, w, 1500)
        c, s = lo + w * rng.uniform(.2, .8, d), w * rng.uniform(.2, .6, d)
        kind = str(rng.choice(["normal", "gmm", "python"]))
        if kind == "normal":
            from ais_benchmarks.distributions import CMultivariateNormal
            t = CMultivariateNormal({"mean": c, "sigma": np.diag(s ** 2), "support": [lo, hi]})
        elif kind == "gmm":
            from ais_benchmarks.distributions import CGaussianMixtureModel
            t = CGaussianMixtureModel({"means": np.array([c, lo + w * .3]), "sigmas": np.array([s ** 2, s ** 2]), "weights": np.array([.3, .7]), "support": [lo, hi]})
        else:
            class T:
                def log_prob(self, x):
                    return (-.5 * (((x - c) / s) ** 2 + .3 * np.arange(1, d + 1) * (x - c) / s)).sum(axis=1)

                def prob(self, x):
                    return np.exp(self.log_prob(x))
            t = T()
        m.trial(kind, d, lo, hi, r, c)
        m.state(kind, d)
        for name, f, log in (("base", base.grid_sample_distribution, True), ("plot_utils", pu.grid_sample_distribution, False)):
            g, p, cs, sh = f(Counting(t), lo, hi, r)
            m.ev("evaluated_grids")
            if not judge_grid(m, lo, hi, r, g, cs, sh, name):
                continue
            p = np.asarray(p, float)
            if not m.ok(p.size == len(g), "number of values is not the number of points", name=name, got=p.shape, n=len(g)):
                continue
            own = np.array([float(np.reshape((t.log_prob if log else t.prob)(x.reshape(1, -1)), -1)[0]) for x in g])
            m.ev("values_compared", len(g))
            fin = np.isfinite(own)
            m.ok(np.array_equal(np.isfinite(p.reshape(-1)), fin) and np.allclose(p.reshape(-1)[fin], own[fin], rtol=1e-7, atol=1e-9 if log else 1e-300),
                 "the value of a grid point is not its density", name=name, kind=kind, dims=d)
            P = p.reshape(tuple(int(x) for x in sh))
            for _ in range(5):
                i = tuple(int(rng.integers(0, n)) for n in P.shape)
                x = np.array([cs[k][i[k]] for k in range(d)])
                v = float(np.reshape((t.log_prob if log else t.prob)(x.reshape(1, -1)), -1)[0])
                m.ok((not np.isfinite(v) and not np.isfinite(P[i])) or abs(P[i] - v) <= 1e-7 * abs(v) + (1e-9 if log else 1e-300), "the reshaped values are not at their coordinates",
                     name=name, kind=kind, index=i, got=P[i], expected=v)
        n = int(rng.choice([1, 2, 17, 300]))
        if rng.random() < .3:  # limits given as integers
            lo, hi = np.floor(lo).astype(int), np.ceil(hi).astype(int) + (w < 1)
            m.ev("integer_limits")
        x, p = base.uniform_sample_distribution(Counting(t), lo, hi, n)
        m.ev("uniform_points", n)
        x, p = np.asarray(x), np.asarray(p, float)
        if m.ok(x.shape == (n, d) and p.size == n, "shape of the uniform points and their values", got=(x.shape, p.shape), n=n, d=d):
            m.ok(np.all(x >= lo) and np.all(x <= hi), "uniform points outside of the box", lo=lo, hi=hi)
            own = np.array([float(np.reshape(t.log_prob(y.reshape(1, -1)), -1)[0]) for y in x])
            fin = np.isfinite(own)
            m.ok(np.array_equal(np.isfinite(p.reshape(-1)), fin) and np.allclose(p.reshape(-1)[fin], own[fin], rtol=1e-7, atol=1e-9), "the value of a uniform point is not its log density", kind=kind, dims=d)


def uniform(m, rng, reps):
    """The uniform points fill the box evenly and are independent."""
    from scipy import stats
    base, _ = funcs()

    class Flat:
        def log_prob(self, x):
            return np.zeros(len(x))
    for _ in range(reps):
        d = int(rng.choice([1, 2, 3, 5]))
        lo, hi, w = box(rng, d)
        if rng.random() < .3:
            lo = np.rint(lo).astype(int)
            hi = lo + rng.integers(1, 5, d)
            w = hi - lo
        m.trial("uniform", lo, hi)
        m.state("uniform", d)

        def pvalues():
            x, _ = base.uniform_sample_distribution(Flat(), lo, hi, 3000)
            m.ev("uniform_points", 3000)
            u = (np.asarray(x) - lo) / w
            ps = [stats.kstest(u[:, i], "uniform").pvalue for i in range(d)]
            ps += [stats.pearsonr(u[:, i], u[:, j]).pvalue for i, j in itertools.combinations(range(d), 2)]
            ps += [stats.pearsonr(u[1:, i], u[:-1, i]).pvalue for i in range(d)]
            return np.nan_to_num(np.array(ps))  # not a number: a coordinate never varies
        p = pvalues()
        if p.min() < 1e-7:
            i = int(np.argmin(p))
            m.ok(pvalues()[i] > 1e-5, "the uniform points are not uniform and independent in the box", lo=lo, hi=hi, p=p)
        else:
            m.ok(True, "uniform")


def cases(tier):
    k = 1 if tier == "quick" else 25
    out = [("grids-%d" % i, grids, dict(reps=60 * k, dims=ds)) for i, ds in enumerate([[1], [2], [3], [4, 5], [1, 2, 3]])]
    out += [("values-%d" % i, evaluations, dict(reps=20 * k, dims=ds)) for i, ds in enumerate([[1, 2], [2, 3], [3, 4]])]
    return out + [("uniform", uniform, dict(reps=15 * k))]
