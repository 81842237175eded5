import numpy as np
from vlib import ref as R
from vlib import stats as S

RULE = ("one monitored execution per generated samplable distribution: several thousand draws through a random mixture of batch sizes, "
        "interleaved with parameter updates and evaluations")
ASSUMPTIONS = ["laws tested at p<1e-6 with an independent confirmation", "projections (coordinates, random directions, component labels) "
               "stand for the joint law"]


def draw(m, q, rng, n, tag, bulk=None):
    """n draws through requests of random sizes."""
    out, left = [], n
    while left > 0:
        k = int(min(left, bulk or rng.choice([1, 2, 3, 7, 50, 400, 2000])))
        x = np.asarray(q.sample(k))
        m.ev("requests")
        if not m.eq(x.shape, (k, q.dims), tag + ": n-by-dimensions array"):
            break
        out.append(x)
        left -= k
    X = np.concatenate(out)
    m.ev("draws", len(X))
    return X


def judge(m, q, ref, rng, tag, n, exact=None):
    def data(k):
        X = draw(m, q, rng, n * k, tag)
        m.ok(np.isfinite(X).all(), tag + ": finite samples")
        p = q.prob(X)
        m.ok((p > 0).all(), tag + ": sampled point without density", x=X[np.argmin(p)])
        lo, hi = ref.box(12)
        if not (hasattr(ref, "parts") or isinstance(ref, R.RNormal)):
            m.ok(((X >= lo) & (X <= hi)).all(), tag + ": sample outside of the support")
        return X
    first = data(1)
    use = {1: first}
    get = lambda k: use.pop(k, None) if k in use else data(k)
    dirs = [("coordinate %d" % j, np.eye(ref.d)[j]) for j in range(ref.d)]
    if ref.d > 1:
        dirs += [("direction", v / np.linalg.norm(v)) for v in rng.standard_normal((2, ref.d))]
    sd = np.std(ref.draw(rng, 4000), axis=0)
    for name, v in dirs:
        u = v / sd
        use[1] = first
        if name.startswith("coord"):
            j = int(name.split()[1])
            S.confirmed(m, lambda k: S.ks(get(k)[:, j], lambda x: ref.cdf(x, j)), "%s: law of %s" % (tag, name))
        else:
            S.confirmed(m, lambda k: S.ks2(get(k) @ u, ref.draw(rng, 30000) @ u), "%s: law along a %s" % (tag, name))
    # joint law: the log density of the draws is distributed as the log density of exact draws
    use[1] = first
    S.confirmed(m, lambda k: S.ks2(ref.logpdf(get(k)), ref.logpdf(ref.draw(rng, 30000))), tag + ": law of the log density")
    # independence of successive draws (lag 1, 2) of a continuous statistic
    for lag in (1, 2, 5):
        def serial(k):
            X = get(k)
            y = R.st.rankdata(X @ (np.ones(ref.d) / sd))
            y = y - y.mean()
            r = np.sum(y[lag:] * y[:-lag]) / np.sum(y * y)
            return S.z(r, 0, 1 / np.sqrt(len(y)))
        use[1] = first
        S.confirmed(m, serial, "%s: draws %d apart are dependent" % (tag, lag))
    # the draws of one request are independent of each other: their sums vary as much as sums of independent draws
    def together(r):
        size, B = r
        j = int(rng.integers(ref.d))
        U = np.array([ref.cdf(np.asarray(q.sample(size))[:, j], j) for _ in range(B)]) - .5
        m.ev("requests", B), m.ev("draws", B * size)
        out = []
        for Y, v, k4 in ((U, 1 / 12, 1 / 80), (U * U - 1 / 12, 1 / 180, None)):
            t = Y.sum(axis=1)
            var = size * v
            if k4 is None:  # fourth moment of (U^2 - 1/12)
                k4 = 1 / 2304 - 4 / 448 / 12 + 6 / 80 / 144 - 4 / 12 / 1728 + 1 / 20736
            m4 = size * k4 + 3 * size * (size - 1) * v * v
            out.append(S.z(np.mean(t * t), var, np.sqrt((m4 - var * var) / B)))
        return min(1., 2 * min(out))
    for size, B in ((2, 600), (5, 300), (24, 150)):
        S.confirmed(m, lambda k: together((size, B * k)), "%s: draws of one request for %d samples are dependent" % (tag, size))
    X = first
    if not isinstance(q, type(None)) and len(X) > 10:
        m.ok(len(np.unique(X[:, 0])) > 0.99 * len(X), tag + ": repeated draws", distinct=len(np.unique(X[:, 0])), n=len(X))


def law(m, rng, kind, n, reps, style=None):
    for _ in range(reps):
        q, ref = R.build(kind, rng, int(rng.integers(1, 5)) if rng.random() < .7 else int(rng.integers(5, 9)), style)
        if kind in ("gmm", "mixture", "nested_mixture"):
            n_ = n // 2
        else:
            n_ = n
        m.trial(kind, ref.d, ref.box(3))
        m.state(kind, ref.d)
        judge(m, q, ref, rng, kind, n_)
        from checks.D01 import update
        ref2 = update(kind, q, ref, rng)
        if ref2 is not None:
            m.ev("parameter_updates")
            m.trial(kind, "update", ref2.box(3), getattr(ref2, "w", 0))
            q.sample(3)
            judge(m, q, ref2, rng, kind + " after update", n_)


def components(m, rng, reps, many=None):
    """Well separated components: the labels of the draws follow the weights."""
    from ais_benchmarks import distributions as D
    for _ in range(reps):
        k, d = many or int(rng.integers(2, 8)), int(rng.integers(1, 4))
        mu = np.zeros((k, d))
        mu[:, 0] = np.arange(k) * 100.
        w = rng.uniform(0, 1, k) ** 2 + .01
        if rng.random() < .5:
            w[rng.integers(k)] = 0
        models = [D.CMultivariateNormal({"mean": a, "sigma": np.eye(d)}) if rng.random() < .5 else
                  D.CMultivariateUniform({"center": a, "radius": np.ones(d)}) for a in mu]
        q = D.CMixtureModel({"models": models, "weights": w.copy(), "dims": d, "support": [mu.min(0) - 9, mu.max(0) + 9]})
        for rnd in range(3):
            m.trial("labels", w)
            m.state("labels", k, d, rnd)

            def pv(r):
                X = draw(m, q, rng, 2500 * r, "mixture")
                lab = np.rint(X[:, 0] / 100).astype(int)
                c = np.bincount(lab, minlength=k)
                m.ok(not c[R.clean_weights(w) == 0].any(), "mixture: draw from a component without weight", counts=c, w=w)
                return S.chi2(c, R.clean_weights(w))
            S.confirmed(m, pv, "mixture: components drawn out of proportion to their weights", w=w)

            def serial(r):
                X = draw(m, q, rng, 2500 * r, "mixture")
                y = np.rint(X[:, 0] / 100)
                y = y - y.mean()
                if y.std() == 0:
                    return 1.
                return S.z(np.sum(y[1:] * y[:-1]) / np.sum(y * y), 0, 1 / np.sqrt(len(y)))
            S.confirmed(m, serial, "mixture: component labels of successive draws are dependent")

            def together(r):
                nw, size = R.clean_weights(w), int(rng.choice([2, 6, 20]))
                out = []
                c = np.array([np.bincount(np.rint(np.asarray(q.sample(size))[:, 0] / 100).astype(int), minlength=k) for _ in range(200 * r)])
                m.ev("requests", len(c)), m.ev("draws", c.sum())
                for i in np.flatnonzero((nw > .02) & (nw < .98)):
                    v = size * nw[i] * (1 - nw[i])
                    k4 = 3 * v * v + v * (1 - 6 * nw[i] * (1 - nw[i]))
                    out.append(S.z(np.mean((c[:, i] - size * nw[i]) ** 2), v, np.sqrt((k4 - v * v) / len(c))))
                return min([1.] + [x * len(out) for x in out])
            S.confirmed(m, together, "mixture: component labels of one request are dependent", w=w)
            w = rng.uniform(0, 1, k) * rng.choice([0, 1, 1], k)
            if not w.any():
                w[0] = 2
            q.set_weights(w.copy())
            m.ev("parameter_updates")


def rare(m, rng, reps, n):
    """Components of very small weight are drawn as often as their weight says."""
    from ais_benchmarks import distributions as D
    for _ in range(reps):
        k = int(rng.integers(2, 6))
        w = np.append(rng.uniform(.3, 1, k), 0)
        w = w / w.sum() * (1 - 8e-4)
        w[-1] = 8e-4
        w = w[rng.permutation(k + 1)]
        mu = np.arange(k + 1)[:, None] * 100.
        if rng.random() < .5:
            q = D.CMixtureModel({"models": [D.CMultivariateUniform({"center": a, "radius": np.ones(1)}) for a in mu], "weights": w.copy(), "dims": 1,
                                 "support": [mu[0] - 9, mu[-1] + 9]})
        else:
            q = D.CGaussianMixtureModel({"means": mu, "sigmas": np.ones((k + 1, 1)), "weights": w.copy(), "support": [mu[0] - 9, mu[-1] + 9]})
        m.trial("rare", w)

        def pv(r):
            c = np.bincount(np.rint(draw(m, q, rng, n * r, "mixture", 4000)[:, 0] / 100).astype(int), minlength=k + 1)
            m.state("rare", c.min())
            lam = w * n * r
            return min(1., 2 * (k + 1) * float(min(min(R.st.binom.cdf(a, n * r, b), R.st.binom.sf(a - 1, n * r, b)) for a, b in zip(c, w))))
        S.confirmed(m, pv, "mixture: components drawn out of proportion to their small weights", w=w)


def delta(m, rng, reps):
    from ais_benchmarks import distributions as D
    for _ in range(reps):
        d = int(rng.integers(1, 6))
        c = rng.normal(0, 10, d)
        q = D.CMultivariateDelta({"center": c.copy(), "support": np.array([c - 1, c + 1])})
        for n in (1, 2, 17):
            m.trial("delta", c, n)
            x = np.asarray(q.sample(n))
            m.ev("draws", n)
            m.eq(x.shape, (n, d), "delta: n-by-dimensions array")
            m.ok(np.all(x == c), "delta: draws are its location", x=x, c=c)
            m.ok(np.all(q.prob(x) > 0), "delta: sampled point without density")


def cases(tier):
    k = 1 if tier == "quick" else 12
    n = 6000 if tier == "quick" else 20000
    out = [("law-%s-%d" % (s, b), law, dict(kind=s, n=n, reps=(1 if s.startswith("bd") else 2) * k)) for s in R.SAMPLABLE
           for b in range(2)]
    out += [("law-int-%s" % s, law, dict(kind=s, n=n, reps=k, style=8)) for s in ("normal", "uniform", "exponential", "gmm")]
    out += [("components-%d" % b, components, dict(reps=3 * k)) for b in range(3)]
    out += [("components-many-%d" % n_, components, dict(reps=k, many=n_)) for n_ in (40, 160)]
    out += [("rare-%d" % b, rare, dict(reps=k, n=40000)) for b in range(2)]
    out.append(("delta", delta, dict(reps=10 * k)))
    return out
