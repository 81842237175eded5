import math
import numpy as np
from checks.M01 import D, Rec, values
from vlib import ref, stats

RULE = "one monitored execution per pair of densities and point set given to the expected-value metric"
ASSUMPTIONS = ["densities without mass on the points are not judged"]


def mean(X, p):
    p = p / p.max()
    z = math.fsum(p)
    return np.array([math.fsum(X[:, j] * p) / z for j in range(X.shape[1])])


class F(D):
    """Values attached to arbitrary points."""

    def __init__(self, X, pr):
        D.__init__(self, pr=pr)
        self.X = {x.tobytes(): i for i, x in enumerate(X)}

    def _i(self, x):
        return np.array([self.X[np.ascontiguousarray(y).tobytes()] for y in x])


def pairs(m, rng, reps):
    from ais_benchmarks.metrics.statistics import CExpectedValueMSE
    E = CExpectedValueMSE()
    for _ in range(reps):
        n, d = int(rng.choice([1, 2, 3, 10, 60, 300])), int(rng.choice([1, 1, 2, 3, 7]))
        X = rng.normal(size=(n, d)) * np.exp(rng.uniform(-3, 3)) + rng.choice([0., 0., 100.])
        (lp, k1), (lq, k2) = values(rng, n), values(rng, n)
        p, q = np.exp(lp), np.exp(lq)
        rel = str(rng.choice(["free", "free", "free", "equal", "scaled"]))
        if rel != "free":
            q = p * (1. if rel == "equal" else math.exp(rng.uniform(-9, 9)))
        if min(p.sum(), q.sum()) < 1e-290:
            m.ev("without_mass")
            continue
        m.trial(X, p, q)
        m.state(k1, k2, rel, n, d)
        P, Q = F(X, p.copy()), F(X, q.copy())
        X0 = X.copy()
        v = E.compute_from_samples(P, Q, X)
        m.ev("values")
        a, b = mean(X, p), mean(X, q)
        e = math.fsum((a - b) ** 2)
        sc = np.abs(X).max() ** 2 + 1e-300
        m.ok(np.size(v) == 1, "the error is not a single number", got=np.shape(v))
        v = float(np.squeeze(v))
        m.ok(abs(v - e) <= 1e-8 * e + 1e-13 * sc + 1e-12 * math.sqrt(e * sc), "squared distance between the means", got=v, expected=e, n=n, d=d)
        m.close(np.squeeze(E.value), v, "the last value is not kept", rtol=0)
        m.ok(v >= 0, "negative squared distance", got=v)
        t = lambda x: abs(float(np.squeeze(x)) - v) <= 1e-8 * v + 1e-12 * sc
        m.ok(t(E.compute_from_samples(Q, P, X)), "the error is not symmetric")
        c = math.exp(rng.uniform(-9, 9))
        m.ok(t(E.compute_from_samples(F(X, p * c), Q, X)) and t(E.compute_from_samples(P, F(X, q * c), X)), "the error changes when a density is rescaled")
        m.ok(t(E.compute_from_samples(P, Q, X[rng.permutation(n)])), "the error changes with the order of the points")
        s = rng.normal(size=d) * 3
        m.ok(abs(float(np.squeeze(E.compute_from_samples(F(X + s, p), F(X + s, q), X + s))) - v) <= 1e-7 * v + 1e-9 * (sc + 1), "the error changes with a translation")
        if rel == "equal":
            m.ok(v <= 1e-20 * sc, "the error between equal densities is not zero", got=v)
        m.ok(np.array_equal(X, X0) and np.array_equal(P.pr, p) and np.array_equal(Q.pr, q), "the metric modified the densities or points it was given")


def uniform_points(m, rng, reps):
    from ais_benchmarks.metrics.statistics import CExpectedValueMSE
    x = CExpectedValueMSE()

    def run(k):
        U = []
        for _ in range(int(reps * k)):
            d = int(rng.choice([1, 2, 3]))
            lo = rng.normal(size=d) * 10
            hi = lo + np.exp(rng.uniform(-2, 3, d))
            w = hi - lo
            f, g = [ref.RNormal(lo + w * rng.uniform(.2, .8, d), np.diag((w * rng.uniform(.1, .5, d)) ** 2)) for _ in range(2)]
            n = int(rng.choice([50, 200]))
            m.trial(lo, hi, n)
            p, q = Rec(f, lo, hi, d), Rec(g, lo - 5 * w, hi + 7 * w, d)
            v = x.compute(p=p, q=q, nsamples=n)
            S = p.seen[0]
            if not m.ok(S.shape == (n, d), "number or shape of the evaluated points", got=S.shape, expected=(n, d)):
                return 1.
            m.ok(np.all((S >= lo) & (S <= hi)), "points outside of the support of the target")
            m.ok(len(np.unique(S, axis=0)) == n and all(np.array_equal(S, y) for y in p.seen + q.seen), "densities evaluated on different or repeated points")
            e = float(np.sum((mean(S, np.exp(f.logpdf(S))) - mean(S, np.exp(g.logpdf(S)))) ** 2))
            m.close(np.squeeze(v), e, "value on the evaluated points", rtol=1e-7, atol=1e-9 * float((np.abs(S) ** 2).max()))
            m.ev("computes")
            U += list(((S - lo) / w).reshape(-1))
        return stats.ks(U, "uniform")
    stats.confirmed(m, run, "evaluated points are not uniform on the support of the target")


def converge(m, rng, reps):
    from ais_benchmarks.metrics.statistics import CExpectedValueMSE
    from ais_benchmarks.distributions import CMultivariateNormal
    x = CExpectedValueMSE()
    for _ in range(reps):
        d = int(rng.choice([1, 2]))
        mu = rng.normal(size=(2, d))
        sd = np.exp(rng.uniform(-1, .5, (2, d)))
        lo, hi = (mu - 10 * sd).min(0), (mu + 10 * sd).max(0)
        g = [np.linspace(l, h, 20001 if d == 1 else 221) for l, h in zip(lo, hi)]
        X = np.stack(np.meshgrid(*g, indexing="ij"), -1).reshape(-1, d)
        m.trial(mu, sd)
        P, Q = [CMultivariateNormal({"mean": mu[i], "sigma": np.diag(sd[i] ** 2), "support": [lo, hi]}) for i in range(2)]
        m.close(np.squeeze(x.compute_from_samples(P, Q, X)), np.sum((mu[0] - mu[1]) ** 2), "squared distance of the means of two Gaussians", rtol=1e-5, atol=1e-7)
        m.ev("gaussian_pairs")


def cases(tier):
    k = 1 if tier == "quick" else 15
    return [("pairs-%d" % b, pairs, dict(reps=500 * k)) for b in range(5)] + [("compute", uniform_points, dict(reps=60 * k)),
                                                                             ("converge", converge, dict(reps=40 * k))]
