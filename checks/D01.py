import numpy as np
from vlib import ref as R

RULE = ("one monitored execution per generated distribution (random family, dimension, location, scale, covariance, weights) "
        "and per parameter update of it, each evaluated at several hundred points; counted once per distinct parameter set")
ASSUMPTIONS = ["scipy/numpy closed forms are correct", "points exactly on the boundary of a support (measure zero) are not judged",
               "covariances with condition number up to 30 and scales 1e-9..1e9"]


def judge(m, dist, ref, X, tag):
    with np.errstate(all="ignore"):
        want = ref.logpdf(X)
        lp, p = np.asarray(dist.log_prob(X.copy())), np.asarray(dist.prob(X.copy()))
    m.ev("points", len(X))
    if not m.eq((lp.shape, p.shape), ((len(X),), (len(X),)), "%s: one value per point" % tag):
        return
    tol = 1e-8 * np.maximum(1, np.abs(want))
    dead = np.isneginf(want)
    m.ev("points_outside_support", dead.sum())
    bad = np.where(dead, ~np.isneginf(lp), ~(np.abs(lp - want) <= tol))
    i = int(np.argmax(bad))
    m.ok(not bad.any(), "%s: log density differs from the closed form" % tag, x=X[i], got=lp[i], expected=want[i])
    w = np.exp(want)
    bad = np.where(dead, p != 0, ~(np.abs(p - w) <= tol * w + 1e-300))
    i = int(np.argmax(bad))
    m.ok(not bad.any(), "%s: density differs from the closed form" % tag, x=X[i], got=p[i], expected=w[i])


def update(kind, dist, ref, rng):
    """Change the parameters; returns the new reference or None."""
    if kind in ("uniform", "uniform1") or kind == "normal" and rng.random() < .2:  # the location alone
        box = ref.box(1)
        c, r = (box[0] + box[1]) / 2, (box[1] - box[0]) / 2
        c = c + r * rng.normal(0, 2, ref.d)
        dist.loc = c.copy()
        return R.RUniform(c, r) if kind != "normal" else R.RNormal(c, ref.cov)
    if kind == "normal":
        s = R.rand_scale(rng)
        mu, C = rng.normal(0, 3 * s, ref.d), R.rand_cov(rng, ref.d, s)
        how = rng.integers(4)
        if how == 1:  # the same spread along other axes: equal determinant and trace
            C = np.array(ref.cov)[::-1, ::-1].copy()
        elif how == 2:  # only the mean moves
            C = np.array(ref.cov).copy()
        elif how == 3:  # only the covariance changes
            mu = np.array(ref.mean).copy()
        dist.set_moments(mu.copy(), C.copy())
        return R.RNormal(mu, C)
    if kind == "exponential":
        mu = R.rand_scale(rng) * rng.uniform(.2, 5, ref.d)
        dist.set_moments(mu.copy())
        return R.RExp(mu)
    if kind in ("mixture", "nested_mixture"):
        w = rng.uniform(0, 1, len(ref.parts)) ** 3
        dist.set_weights(w.copy())
        return R.RMixture(ref.parts, w)
    return None


def family(m, rng, kind, reps, npts):
    for rep in range(reps):
        dist, ref = R.build(kind, rng, R.dim(rng), 8 if rep == 1 else None)
        X = R.points(ref, rng, npts)
        m.trial(kind, ref.d, X)
        m.state(kind, ref.d)
        judge(m, dist, ref, X, kind)
        Xi = np.unique(np.clip(np.rint(X[:30]), -10**6, 10**6), axis=0)  # integer valued points, as floats and as integers
        if hasattr(ref, "edge"):
            Xi = Xi[~ref.edge(Xi)]
        if len(Xi):
            judge(m, dist, ref, Xi, kind)
            m.close(dist.log_prob(Xi.astype(int)), dist.log_prob(Xi), kind + ": integer typed points", rtol=1e-9)
            m.close(dist.prob(Xi.astype(int)), dist.prob(Xi), kind + ": integer typed points", rtol=1e-9)
        for u in range(3):
            ref2 = update(kind, dist, ref, rng)
            if ref2 is None:
                break
            m.ev("parameter_updates")
            m.trial(kind, "update", u, X)
            ref = ref2
            X = np.concatenate([R.points(ref, rng, npts), X[:50]])
            if hasattr(ref, "edge"):
                X = X[~ref.edge(X)]
            judge(m, dist, ref, X, kind + " after update")
        m.ok(dist.dims == ref.d, kind + ": dims")
    # a large batch
    X = R.points(ref, rng, 7 * npts if kind == "nested_mixture" else 40 * npts)
    m.trial(kind, ref.d, "large", X)
    judge(m, dist, ref, X, kind + ", a large batch")


def normalisation(m, rng, kind, reps):
    for _ in range(reps):
        d = {"banana": 2}.get(kind, 1 if kind in ("maxwell", "laplace", "pareto") else int(rng.integers(1, 3)))
        dist, ref = R.build_unit(kind, rng, d) if kind in ("normal", "uniform", "exponential") else R.build(kind, rng, d)
        d = ref.d
        m.trial("norm", kind, d, ref.box(3))
        if kind == "pareto":
            u, w = R.gauss_grid(0, 60, 20, 30)
            x = np.expm1(u)
            tot = sum(np.sum(w * np.exp(u) * dist.prob(s * x.reshape(-1, 1))) for s in (1, -1))
        else:
            lo, hi = ref.box(9)
            edges = [sorted({lo[j], hi[j]}.union(*[{p.lo[j], p.hi[j]} for p in getattr(ref, "parts", [ref]) if hasattr(p, "lo")]
                                                  ).union({min(max(0., lo[j]), hi[j])})) for j in range(d)]
            axes = []
            for j in range(d):
                e = edges[j]
                if kind == "gmm":  # finer around the components
                    sds = [np.sqrt(p.cov[j, j]) for p in ref.parts]
                    e = np.unique(np.clip([p.mean[j] + k * sd for p, sd in zip(ref.parts, sds) for k in (-9, -5, -2, 0, 2, 5, 9)], lo[j], hi[j]))
                    g = [R.gauss_grid(a, b, 12) for a, b in zip(e[:-1], e[1:]) if b > a]
                    axes.append((np.concatenate([a for a, _ in g]), np.concatenate([b for _, b in g])))
                    continue
                g = [R.gauss_grid(a, b, 12 if d == 2 else 24, 16 if d == 2 else 60) for a, b in zip(e[:-1], e[1:]) if b > a]
                axes.append((np.concatenate([a for a, _ in g]), np.concatenate([b for _, b in g])))
            if d == 1:
                X, W = axes[0][0].reshape(-1, 1), axes[0][1]
            else:
                X = np.stack(np.meshgrid(axes[0][0], axes[1][0], indexing="ij"), -1).reshape(-1, 2)
                W = np.outer(axes[0][1], axes[1][1]).reshape(-1)
            if len(X) > 400000:
                continue
            tot = float(np.sum(W * dist.prob(X)))
        m.ev("quadratures")
        m.ok(abs(tot - 1) < 1e-4, kind + ": the density does not integrate to one", integral=tot, d=d)


def extremes(m, rng, kind, reps):
    """Distributions at very small and very large scales; points hardly outside of their support."""
    from ais_benchmarks import distributions as D
    for _ in range(reps):
        d, sc = int(rng.integers(1, 7)), 10.0 ** rng.uniform(-9, 9)
        if kind == "normal":
            mu, C = sc * rng.normal(0, 2, d), sc ** 2 * R.rand_cov(rng, d, 1.)
            dist, ref = D.CMultivariateNormal({"mean": mu.copy(), "sigma": C.copy()}), R.RNormal(mu, C)
        elif kind == "uniform":
            mu, r = sc * rng.normal(0, 3, d), sc * rng.uniform(.3, 3, d)
            dist, ref = D.CMultivariateUniform({"center": mu.copy(), "radius": r.copy()}), R.RUniform(mu, r)
        else:
            mu = sc * rng.uniform(.3, 3, d)
            dist, ref = D.CMultivariateExponential({"mean": mu.copy()}), R.RExp(mu)
        X = R.points(ref, rng, 100)
        if kind == "uniform":  # just beyond one of the sides, and just before it
            i, side, e = rng.integers(d, size=40), rng.choice([-1., 1.], 40), 10.0 ** rng.uniform(-7, -2, 40)
            B = mu + r * rng.uniform(-.9, .9, (40, d))
            B[np.arange(40), i] = mu[i] + side * r[i] * (1 + e * rng.choice([-1, 1], 40))
            X = np.concatenate([X, B])
        if kind == "exponential":
            B = mu * rng.uniform(.1, 3, (20, d))
            B[np.arange(20), rng.integers(d, size=20)] = sc * 10.0 ** rng.uniform(-12, -3, 20) * rng.choice([-1, 1], 20)
            X = np.concatenate([X, B])
        m.trial("extreme", kind, d, sc, X)
        m.state("extreme", kind, d, int(np.log10(sc)))
        judge(m, dist, ref, X, kind + ", at an extreme scale")


def delta(m, rng, reps):
    """All the mass at one location, none beside it."""
    from ais_benchmarks import distributions as D
    for _ in range(reps):
        d = int(rng.integers(1, 6))
        c = rng.normal(0, 1, d) * 10.0 ** rng.uniform(-2, 3)
        q = D.CMultivariateDelta({"center": c.copy(), "support": np.array([c - 1, c + 1])})
        X = np.repeat(c[None], 30, 0)
        i = rng.integers(d, size=20)
        X[np.arange(20), i] += (1e-3 + np.abs(c[i])) * 10.0 ** rng.uniform(-4 + .3, 1, 20) * rng.choice([-1, 1], 20)
        m.trial("delta", c, X)
        m.state("delta", d)
        m.ev("points", len(X))
        with np.errstate(all="ignore"):
            p, lp = np.asarray(q.prob(X)), np.asarray(q.log_prob(X))
        m.ok((p[:20] == 0).all() and np.isneginf(lp[:20]).all(), "delta: density beside its location", c=c, p=p[:20], lp=lp[:20])
        m.ok((p[20:] == np.inf).all() and (lp[20:] == np.inf).all(), "delta: density at its location", c=c, p=p[20:], lp=lp[20:])


def cases(tier):
    k = 1 if tier == "quick" else 25
    out = []
    for b in range(2 if tier == "quick" else 8):
        out += [("family-%s-%d" % (s, b), family, dict(kind=s, reps=(6 if s not in R.SIMPLE[4:] else 3) * k, npts=150)) for s in R.ALL]
    out += [("extreme-" + s, extremes, dict(kind=s, reps=15 * k)) for s in ("normal", "uniform", "exponential")]
    out.append(("delta", delta, dict(reps=20 * k)))
    out += [("norm-" + s, normalisation, dict(kind=s, reps=4 * k)) for s in
            ["normal", "uniform", "exponential", "maxwell", "laplace", "pareto", "bd_uniform", "bd_exponential", "gmm"]]
    return out
