import math
import numpy as np
from vlib import ref

RULE = "one monitored execution per pair of densities and point set given to a divergence metric"
ASSUMPTIONS = ["points where a density is not a number are ignored on both sides, as the code documents",
               "densities without mass on any of the points are not judged"]


class D:
    """A density given by its (log) values on indexed points; returns its own stored arrays."""

    def __init__(self, lp=None, pr=None):
        with np.errstate(all="ignore"):
            self.lp = np.log(pr) if lp is None else lp
            self.pr = np.exp(lp) if pr is None else pr
        self.calls = 0

    def _i(self, x):
        self.calls += 1
        return np.asarray(x)[:, 0].astype(int)

    def prob(self, x):
        i = self._i(x)
        return self.pr if np.array_equal(i, np.arange(len(self.pr))) else self.pr[i]

    def log_prob(self, x):
        i = self._i(x)
        return self.lp if np.array_equal(i, np.arange(len(self.lp))) else self.lp[i]


def kl(lp, lq):
    k = (lp > -np.inf) & (lq > -np.inf)
    if not k.any():
        return math.inf
    a, b = lp[k], lq[k]

    def ln(v):
        M = v.max()
        return v - M - math.log(math.fsum(np.exp(v - M)))
    a, b = ln(a), ln(b)
    return math.fsum(np.exp(a) * (a - b))


def js(p, q):
    k = ~np.isnan(p) & ~np.isnan(q)
    p, q = p[k], q[k]
    p, q = p / p.max(), q / q.max()
    p, q = p / math.fsum(p), q / math.fsum(q)
    h = (p + q) / 2
    return math.fsum([x * math.log2(x / z) / 2 for x, z in zip(p, h) if x > 0] + [x * math.log2(x / z) / 2 for x, z in zip(q, h) if x > 0])


def values(rng, n):
    """A random vector of log densities of one of many shapes."""
    k = str(rng.choice(["normal", "flat", "peaked", "range", "sparse", "spike", "denormal"]))
    x = np.linspace(-1, 1, n)
    lp = {"normal": lambda: -.5 * ((x - rng.normal() / 2) / np.exp(rng.normal() - 1)) ** 2, "flat": lambda: np.zeros(n) + rng.normal(),
          "peaked": lambda: -.5 * ((x - rng.uniform(-1, 1)) / .02) ** 2, "range": lambda: rng.uniform(-600, 5, n),
          "sparse": lambda: rng.normal(size=n), "spike": lambda: np.where(np.arange(n) == rng.integers(n), 0., -np.inf),
          "denormal": lambda: rng.uniform(-744, -700, n)}[k]()
    if k == "sparse" or rng.random() < .35:
        z = rng.random(n) < rng.uniform(0, .99)
        z[rng.integers(n)] = False
        lp = np.where(z, -np.inf, lp)
    return lp, k


def pairs(m, rng, reps, large=False):
    from ais_benchmarks.metrics import divergences as dv
    KL, JS = dv.CKLDivergence(), dv.CJSDivergence()
    for _ in range(reps):
        n = int(rng.choice([1, 2, 3, 10, 57, 400])) if not large else int(rng.choice([5200, 12000, 30000]))
        X = np.column_stack((np.arange(n), rng.normal(size=n)))
        (lp, k1), (lq, k2) = values(rng, n), values(rng, n)
        rel = str(rng.choice(["free", "free", "equal", "disjoint", "scaled"]))
        if rel == "equal":
            lq, k2 = lp.copy(), k1
        elif rel == "scaled":
            lq, k2 = lp + rng.uniform(-20, 20), k1
        elif rel == "disjoint" and n > 1:
            c = rng.random(n) < .5
            c[0], c[1] = True, False
            lp, lq = np.where(c, np.where(lp > -np.inf, lp, 0.), -np.inf), np.where(c, -np.inf, np.where(lq > -np.inf, lq, 0.))
        nan = n > 3 and rng.random() < .1
        if nan:
            lp = lp.copy()
            lp[rng.integers(n, size=2)] = np.nan
        m.trial(lp, lq)
        m.state(k1, k2, rel, n, nan)
        P, Q = D(lp.copy()), D(lq.copy())
        keep = [a.copy() for a in (P.lp, P.pr, Q.lp, Q.pr, X)]
        with np.errstate(all="ignore"):
            got = KL.compute_from_samples(P, Q, X)
        m.ev("kl_values")
        e = kl(lp, lq)
        m.close(got, e, "KL differs from the discrete divergence over the common support", rtol=1e-9, atol=1e-10, kinds=(k1, k2, rel))
        m.ok(got >= -1e-10, "KL is negative", got=got)
        m.close(KL.value, got, "KL does not keep its last value", rtol=0)
        with np.errstate(all="ignore"):
            c = float(rng.uniform(-20, 20))
            o = rng.permutation(n)
            m.close(KL.compute_from_samples(D(lp + c), Q, X), e, "KL changes when p is rescaled", rtol=1e-8, atol=1e-9)
            m.close(KL.compute_from_samples(P, D(lq - c), X), e, "KL changes when q is rescaled", rtol=1e-8, atol=1e-9)
            m.close(KL.compute_from_samples(P, Q, X[o]), e, "KL changes with the order of the points", rtol=1e-8, atol=1e-9)
            m.close(np.sum(KL.compute_from_log_probs(P.lp, Q.lp)), e, "KL from log densities", rtol=1e-9, atol=1e-10)
            if not nan and P.pr.sum() > 1e-280 and Q.pr.sum() > 1e-280 and min(lp[lp > -np.inf].min(), lq[lq > -np.inf].min()) > -300:
                m.close(np.sum(KL.compute_from_probs(P.pr, Q.pr)), e, "KL from densities", rtol=1e-7, atol=1e-8)
        # JS, on the densities
        ok = ~np.isnan(P.pr) & ~np.isnan(Q.pr)
        if P.pr[ok].sum() > 1e-290 and Q.pr[ok].sum() > 1e-290:
            with np.errstate(all="ignore"):
                e = js(P.pr, Q.pr)
                got = JS.compute_from_samples(P, Q, X)
                m.close(got, e, "JSD differs from the Jensen-Shannon divergence in bits", rtol=1e-9, atol=1e-9, kinds=(k1, k2, rel))
                m.close(JS.value, got, "JSD does not keep its last value", rtol=0)
                m.close(JS.compute_from_samples(Q, P, X), got, "JSD is not symmetric", rtol=1e-9, atol=1e-9)
                m.close(JS.compute_from_samples(P, Q, X[o]), got, "JSD changes with the order of the points", rtol=1e-9, atol=1e-9)
                s = math.exp(rng.uniform(-5, 5))
                m.close(JS.compute_from_samples(D(pr=P.pr * s), Q, X), got, "JSD changes when a density is rescaled", rtol=1e-7, atol=1e-8)
            m.ev("js_values")
            m.ok(-1e-10 <= got <= 1 + 1e-10, "JSD outside of [0, 1]", got=got)
            if rel in ("equal", "scaled") and k1 != "denormal":
                m.ok(abs(got) < 1e-9, "JSD of equal densities is not zero", got=got)
            p, q = P.pr[ok], Q.pr[ok]
            if not np.any((p > 0) & (q > 0)):
                m.ev("disjoint_pairs")
                m.ok(abs(got - 1) < 1e-9, "JSD of disjoint densities is not one", got=got)
        elif (P.pr[ok].sum() > 1e-290) != (Q.pr[ok].sum() > 1e-290) and min(P.pr[ok].sum(), Q.pr[ok].sum()) == 0:
            m.close(JS.compute_from_samples(P, Q, X), 1., "JSD with a density without mass on the points", rtol=1e-9)
            m.close(JS.value, 1., "JSD does not keep its last value", rtol=1e-9)
            m.ev("js_values_without_mass")
        for a, b in zip(keep, (P.lp, P.pr, Q.lp, Q.pr, X)):
            m.ok(np.array_equal(a, b, equal_nan=True), "a divergence modified the densities or points it was given")


class Rec:
    def __init__(self, f, lo, hi, d):
        self.f, self.s, self.dims, self.seen = f, np.array([lo, hi]), d, []

    def support(self):
        return self.s

    def prob(self, x):
        self.seen.append(np.array(x))
        return np.exp(self.f.logpdf(x))

    def log_prob(self, x):
        self.seen.append(np.array(x))
        return self.f.logpdf(x)


def uniform_points(m, rng, reps):
    """compute(): uniform points of the target's support."""
    from ais_benchmarks.metrics import divergences as dv
    from vlib import stats
    M = {"KL": dv.CKLDivergence(), "JSD": dv.CJSDivergence()}

    def run(k):
        U = []
        for _ in range(int(reps * k)):
            d = int(rng.choice([1, 2, 3]))
            lo = rng.normal(size=d) * 10
            hi = lo + np.exp(rng.uniform(-2, 3, d))
            w = hi - lo
            f, g = [ref.RNormal(lo + w * rng.uniform(.2, .8, d), np.diag((w * rng.uniform(.1, .5, d)) ** 2)) for _ in range(2)]
            n = int(rng.choice([50, 200]))
            for name, x in M.items():
                m.trial(name, lo, hi, n)
                p, q = Rec(f, lo, hi, d), Rec(g, lo - 5 * w, hi + 7 * w, d)
                v = x.compute(p=p, q=q, nsamples=n)
                S = p.seen[0]
                if not m.ok(S.shape == (n, d), name + ": number or shape of the evaluated points", got=S.shape, expected=(n, d)):
                    return 1.
                m.ok(np.all((S >= lo) & (S <= hi)), name + ": points outside of the support of the target")
                m.ok(len(np.unique(S, axis=0)) == n and all(np.array_equal(S, y) for y in p.seen + q.seen), name + ": densities evaluated on different or repeated points")
                e = kl(f.logpdf(S), g.logpdf(S)) if name == "KL" else js(np.exp(f.logpdf(S)), np.exp(g.logpdf(S)))
                m.close(v, e, name + ": value on the evaluated points", rtol=1e-8, atol=1e-10)
                m.close(x.value, v, name + ": last value", rtol=0)
                m.ev("computes")
                U += list(((S - lo) / w).reshape(-1))
        return stats.ks(U, "uniform")
    stats.confirmed(m, run, "evaluated points are not uniform on the support of the target")


def analytic(m, rng, reps):
    """Dense grids: the divergences of Gaussians (distributions of the code under test)."""
    from ais_benchmarks.metrics import divergences as dv
    from ais_benchmarks.distributions import CMultivariateNormal
    KL, JS = dv.CKLDivergence(), dv.CJSDivergence()
    for _ in range(reps):
        a, b, s, t = rng.normal(), rng.normal(), math.exp(rng.uniform(-1, .5)), math.exp(rng.uniform(-1, .5))
        lo, hi = min(a - 12 * s, b - 12 * t), max(a + 12 * s, b + 12 * t)
        X = np.linspace(lo, hi, 20001).reshape(-1, 1)
        m.trial(a, b, s, t)
        P, Q = [CMultivariateNormal({"mean": np.array([u]), "sigma": np.array([[v * v]]), "support": [np.array([lo]), np.array([hi])]}) for u, v in ((a, s), (b, t))]
        with np.errstate(all="ignore"):
            g, h = KL.compute_from_samples(P, Q, X), JS.compute_from_samples(P, Q, X)
        e = math.log(t / s) + (s * s + (a - b) ** 2) / (2 * t * t) - .5
        m.close(g, e, "KL of two Gaussians on a dense grid", rtol=1e-5, atol=1e-6)
        p, q = [np.exp(-.5 * ((X[:, 0] - u) / v) ** 2) / v for u, v in ((a, s), (b, t))]
        m.close(h, js(p, q), "JSD of two Gaussians on a dense grid", rtol=1e-6, atol=1e-8)
        m.ev("analytic_pairs")


def cases(tier):
    k = 1 if tier == "quick" else 15
    return [("pairs-%d" % b, pairs, dict(reps=500 * k)) for b in range(5)] + [("large", pairs, dict(reps=12 * k, large=True)), ("compute", uniform_points, dict(reps=60 * k)),
                                                                             ("analytic", analytic, dict(reps=60 * k))]
