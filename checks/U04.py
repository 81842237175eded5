import itertools
import numpy as np
from scipy import stats

RULE = "one monitored execution per generated mixture"
ASSUMPTIONS = ["the box is large enough for five sigmas on both sides", "the spreads are the values the mixture receives as its sigmas"]


def density(means, sig, w, x):
    return sum(wi * np.prod(stats.norm.pdf(x, loc=mu, scale=np.sqrt(s)), axis=1) for mu, s, wi in zip(means, sig, w))


def parts(m, g, d, n):
    mu, s, w = np.array(g.means, float), np.array(g.sigmas, float), np.array(g.weights, float).reshape(-1)
    if not (m.ok(mu.shape == (n, d), "number and size of the means", got=mu.shape, expected=(n, d)) and m.ok(s.shape == (n, d), "number and size of the spreads", got=s.shape, expected=(n, d)) and
            m.ok(w.shape == (n,), "number of weights", got=w.shape, expected=n)):
        return None
    m.ev("components", n)
    m.eq(int(g.dims), d, "dimensions of the mixture")
    return mu, s, w


def valid(m, rng, g, mu, s, w, d):
    """The density is the mixture of the components, and it integrates to one."""
    x = np.concatenate([mu[rng.integers(0, len(mu), 20)] + rng.normal(0, 1, (20, d)) * np.sqrt(s[rng.integers(0, len(mu), 20)]), rng.uniform(mu.min(0) - 1, mu.max(0) + 1, (20, d))])
    with np.errstate(all="ignore"):
        p, lp = np.asarray(g.prob(x), float).reshape(-1), np.asarray(g.log_prob(x), float).reshape(-1)
        want = density(mu, s, w, x)
    m.ev("density_points", len(x))
    keep = want > 1e-250
    m.ok(p.shape == want.shape and np.allclose(p[keep], want[keep], rtol=1e-6, atol=0), "the density is not the mixture of the components", got=p[keep], expected=want[keep])
    m.ok(np.allclose(lp[keep], np.log(want[keep]), rtol=1e-6, atol=1e-6), "the log density is not the mixture of the components", got=lp[keep], expected=np.log(want[keep]))
    m.ok(np.all(p >= 0) and np.all(np.isfinite(p)), "the density is negative or not finite")
    if d == 1:
        pts = np.unique(np.concatenate([np.linspace(c - 9 * np.sqrt(v), c + 9 * np.sqrt(v), 400) for c, v in zip(mu[:, 0], s[:, 0])]))
        q = np.asarray(g.prob(pts.reshape(-1, 1)), float).reshape(-1)
        m.close(float(np.trapz(q, pts)), 1., "the density does not integrate to one", rtol=3e-3)
    y = np.asarray(g.sample(60), float)
    m.ok(y.shape == (60, d) and np.all(np.isfinite(y)), "shape of the samples", got=y.shape)
    near = (np.abs(y[:, None, :] - mu[None]) <= 8 * np.sqrt(s)[None]).all(axis=2).any(axis=1)
    m.ok(np.all(near), "samples far from every component", sample=y[~near][:1])


def support_ok(m, g, mu, s, d):
    lo, hi = [np.asarray(v, float).reshape(-1) for v in g.support()]
    if m.ok(lo.shape == (d,) and hi.shape == (d,), "size of the support", got=(lo.shape, hi.shape), dims=d):
        tol = 1e-9 * (1 + np.abs(mu).max())
        m.ok(np.all(lo <= mu.min(0) + tol) and np.all(hi >= mu.max(0) - tol), "a component is centred outside of the support", lo=lo, hi=hi, means=mu)
        m.ok(np.all(lo <= (mu - 5 * s).min(0) + tol) and np.all(hi >= (mu + 5 * s).max(0) - tol), "the support does not enclose all components", lo=lo, hi=hi, means=mu, sigmas=s)
    return lo, hi


def randomgmm(m, rng, reps):
    from ais_benchmarks.utils.misc import generateRandomGMM
    for _ in range(reps):
        d = int(rng.choice([1, 2, 3, 4, 6, 10]))
        n = int(rng.choice([1, 2, 5, 10, 40]))
        seed = int(rng.integers(0, 2 ** 31))
        mode = str(rng.choice(["default", "common", "per-dim", "fixed"]))
        if mode == "default":
            kw, a, b = {}, np.full(d, .04), np.full(d, .05)
        elif mode == "common":
            v = np.sort(10. ** rng.uniform(-3, 0, 2))
            kw, a, b = dict(sigma_min=[v[0]] * d, sigma_max=[v[1]] * d), np.full(d, v[0]), np.full(d, v[1])
        elif mode == "fixed":
            a = 10. ** rng.uniform(-3, 0, d)
            b = a.copy()
            kw = dict(sigma_min=tuple(a), sigma_max=tuple(b))
        else:
            a = 10. ** rng.uniform(-3, 0, d)
            b = a * rng.uniform(1, 4, d)
            kw = dict(sigma_min=tuple(a), sigma_max=tuple(b)) if rng.random() < .5 else dict(sigma_min=np.array(a), sigma_max=np.array(b))
        lo = rng.choice([0, -1, 100, -5.5]) * rng.uniform(.2, 1, d)
        hi = lo + 10 * b * rng.uniform(1.01, 6, d)
        m.trial(d, n, mode, lo, hi, a, b, seed)
        m.state(d, n, mode)
        l0, h0 = lo.copy(), hi.copy()

        def make(sd):
            np.random.seed(sd)
            m.ev("mixtures")
            return generateRandomGMM(lo, hi, n, **kw)
        g = make(seed)
        m.ok(np.array_equal(lo, l0) and np.array_equal(hi, h0), "the limits of the box were changed")
        r = parts(m, g, d, n)
        if r is None:
            continue
        mu, s, w = r
        m.ok(abs(w.sum() - 1) < 1e-9 and np.all(w >= 0), "weights are not normalised", weights=w)
        e = 1e-9
        m.ok(np.all(s >= a * (1 - e)) and np.all(s <= b * (1 + e)), "spreads outside of the requested bounds", sigmas=s, low=a, high=b)
        tol = e * (1 + np.abs(lo) + np.abs(hi))
        m.ok(np.all(mu >= lo + 5 * s - tol) and np.all(mu <= hi - 5 * s + tol), "a mean is less than five sigmas inside the box", means=mu, sigmas=s, lo=lo, hi=hi)
        support_ok(m, g, mu, s, d)
        sup = np.array(g.support(), float).reshape(2, -1)
        m.ok(np.all(sup[0] >= lo - 1e-7 * (1 + np.abs(lo))) and np.all(sup[1] <= hi + 1e-7 * (1 + np.abs(hi))),
             "the support reaches outside of the box the mixture was requested in", support=sup, lo=lo, hi=hi)
        valid(m, rng, g, mu, s, w, d)
        # the seed decides
        g2 = make(seed)
        m.ok(np.array_equal(mu, np.array(g2.means)) and np.array_equal(s, np.array(g2.sigmas)) and np.array_equal(w, np.array(g2.weights).reshape(-1)), "the same seed gives another mixture")
        g3 = make(seed ^ 12345)
        m.ok(not np.allclose(mu, np.array(g3.means)), "another seed gives the same means")
        if n > 1:
            m.ok(not np.allclose(w, np.array(g3.weights).reshape(-1)), "the weights are not random", weights=w)
            m.ok(len(np.unique(mu[:, 0])) == n, "components are repeated", means=mu)
            if mode != "fixed":
                m.ok(len(np.unique(s[:, 0])) == n, "spreads are repeated", sigmas=s)


def coverage(m, rng, reps):
    """Over many mixtures, means, spreads and weights take the whole range they may take."""
    from ais_benchmarks.utils.misc import generateRandomGMM
    for _ in range(reps):
        d = int(rng.choice([1, 2, 3, 5]))
        a = rng.uniform(.01, .05, d)
        b = a * rng.uniform(2, 4, d)
        lo = rng.uniform(-3, 3, d)
        hi = lo + 10 * b * rng.uniform(2, 5, d)
        np.random.seed(int(rng.integers(0, 2 ** 31)))
        m.trial("coverage", d, a, b, lo, hi)
        m.state("coverage", d)
        k = 300
        gs = [generateRandomGMM(lo, hi, 3, sigma_min=tuple(a), sigma_max=tuple(b)) for _ in range(k)]
        m.ev("mixtures", k)
        S = np.concatenate([np.array(g.sigmas) for g in gs])
        M = np.concatenate([np.array(g.means) for g in gs])
        W = np.array([np.array(g.weights).reshape(-1) for g in gs])
        u = (S - a) / (b - a)
        v = (M - (lo + 5 * S)) / (hi - lo - 10 * S)
        m.ok(np.all(u.min(0) < .05) and np.all(u.max(0) > .95), "spreads do not take all requested values", low=u.min(0), high=u.max(0))
        m.ok(np.all(v.min(0) < .05) and np.all(v.max(0) > .95), "means do not take all possible places", low=v.min(0), high=v.max(0))
        m.ok(np.all(np.abs(W.mean(0) - 1 / 3) < .08) and np.all(W.std(0) > .03), "weights favour a component", mean=W.mean(0), std=W.std(0))


def eggbox(m, rng, reps):
    from ais_benchmarks.utils.misc import generateEggBoxGMM
    from ais_benchmarks.sampling_methods.base import make_grid
    for _ in range(reps):
        d = int(rng.choice([1, 1, 2, 2, 3, 4]))
        lo = rng.choice([0, -1, 10.]) * rng.uniform(.2, 1, d)
        w = rng.uniform(.5, 6, d)
        hi = lo + w
        top = {1: 40, 2: 7, 3: 4, 4: 3}[d]
        delta = float(np.max(w) / rng.uniform(1, top))
        sigma = float(10. ** rng.uniform(-3, 0)) if rng.random() < .6 else 10. ** rng.uniform(-3, 0, d)
        m.trial("egg", lo, hi, delta, sigma)
        s0 = np.copy(sigma)
        l0, h0 = lo.copy(), hi.copy()
        np.random.seed(1)
        g = generateEggBoxGMM(lo, hi, delta, sigma)
        m.ev("mixtures")
        m.ok(np.array_equal(lo, l0) and np.array_equal(hi, h0) and np.array_equal(sigma, s0), "the limits of the box were changed")
        _, axes, _ = make_grid(lo, hi, delta)
        nodes = np.array(list(itertools.product(*axes)))
        m.state("egg", d, len(nodes))
        r = parts(m, g, d, len(nodes))
        if r is None:
            continue
        mu, s, wt = r
        order = lambda z: z[np.lexsort(np.round(z, 9).T[::-1])]
        m.ok(np.allclose(order(mu), order(nodes), rtol=0, atol=1e-8), "the components are not on the nodes of the grid, one each", got=order(mu)[:6], expected=order(nodes)[:6])
        # the grid is as asked for
        for i in range(d):
            x = np.unique(np.round(mu[:, i], 9))
            m.ok(abs(len(x) - max(1, w[i] / delta)) <= 1 + 1e-6, "number of nodes does not follow from the distance", n=len(x), width=w[i], delta=delta)
            if len(x) > 1:
                m.ok(abs(x[0] - lo[i]) < 1e-7 and abs(x[-1] - hi[i]) < 1e-7 and np.allclose(np.diff(x), w[i] / (len(x) - 1), atol=1e-7), "nodes are not equally spaced over the box", nodes=x, lo=lo[i], hi=hi[i])
        m.ok(np.allclose(wt, 1 / len(nodes), rtol=1e-9), "the components are not equally weighted", weights=wt)
        m.ok(np.allclose(s, sigma, rtol=1e-12), "the components do not have the requested spread", sigmas=s, sigma=sigma)
        support_ok(m, g, mu, s, d)
        valid(m, rng, g, mu, s, wt, d)


def cases(tier):
    k = 1 if tier == "quick" else 25
    return [("random-%d" % i, randomgmm, dict(reps=25 * k)) for i in range(4)] + [("coverage", coverage, dict(reps=3 * k))] + \
           [("egg-%d" % i, eggbox, dict(reps=20 * k)) for i in range(3)]
