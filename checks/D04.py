import numpy as np
import scipy.stats as st
from vlib import ref as R
from vlib import stats as S

RULE = ("one monitored execution per generated distribution; each is integrated over tens of boxes (inside, overlapping, containing, "
        "disjoint, slivers, split in two)")
ASSUMPTIONS = ["Monte-Carlo integrals are judged at 6 standard errors with an independent confirmation",
               "mixtures of Gaussians and kernel density estimates declare the integral as not implemented"]


def boxes(rng, lo, hi, n):
    w, d = hi - lo, len(lo)
    for _ in range(n):
        k = rng.integers(8)
        if k == 0:
            u = np.sort(rng.uniform(0, 1, (2, d)), axis=0)
        elif k == 1:
            u = np.sort(rng.uniform(-1, 2, (2, d)), axis=0)
        elif k == 2:
            u = np.array([rng.uniform(-3, -.01, d), rng.uniform(1.01, 4, d)])
        elif k == 3:  # disjoint in some dimensions, on either side
            u = np.sort(rng.uniform(-.5, 1.5, (2, d)), axis=0)
            j = rng.choice(d, int(rng.integers(1, d + 1)), replace=False)
            u[:, j] = np.sort(rng.uniform(.05, 3, (2, len(j))), axis=0) + rng.choice([1, -4], len(j))
        elif k == 4:  # slivers
            u = np.repeat(rng.uniform(-.2, 1.2, (1, d)), 2, axis=0)
            u[1] += rng.choice([1e-9, 1e-3, .5], d)
        elif k == 5:  # exactly the support
            u = np.array([np.zeros(d), np.ones(d)])
        elif k == 6:  # nearly the support
            e = 10. ** rng.uniform(-9, -1, (2, d)) * rng.choice([-1, 0, 1], (2, d))
            u = np.array([np.zeros(d), np.ones(d)]) + e
        else:  # a half space corner
            u = np.array([np.where(rng.random(d) < .5, -5., rng.uniform(0, 1, d)), np.full(d, 6.)])
        a, b = lo + w * u[0], lo + w * u[1]
        if np.all(a < b):
            yield a, b


def scalar(v):
    return float(np.asarray(v).reshape(-1)[0]) if np.asarray(v).size == 1 else np.nan


def uniform(m, rng, reps):
    from ais_benchmarks import distributions as D
    for _ in range(reps):
        kind = str(rng.choice(["uniform", "uniform1", "bd_uniform", "list"]))
        if kind == "list":
            d = int(rng.integers(1, 5))
            c, r = rng.normal(0, 3, d).round(3).tolist(), rng.uniform(.1, 2, d).round(3).tolist()
            q, ref = D.CMultivariateUniform({"center": c, "radius": r}), R.RUniform(c, r)
        else:
            q, ref = R.build(kind, rng)
        m.trial(kind, ref.lo, ref.hi)
        m.state(kind, ref.d)
        if kind != "bd_uniform":
            m.close(q.support(), [ref.lo, ref.hi], "uniform: support", rtol=1e-12, atol=1e-12)
        m.eq(np.shape(q.support()), (2, ref.d), "uniform: support shape")
        for a, b in boxes(rng, ref.lo, ref.hi, 40):
            m.ev("boxes")
            want = ref.mass(a, b)
            a0, b0 = a.copy(), b.copy()
            got = scalar(q.integral(a, b))
            tol = 1e-7 * want + 1e-12
            m.ev("boxes_disjoint" if want == 0 else "boxes_full" if want > 1 - 1e-12 else "boxes_partial")
            m.ok(abs(got - want) <= tol, "uniform: integral over a box", a=a, b=b, lo=ref.lo, hi=ref.hi, got=got, expected=want)
            m.ok(np.array_equal(a, a0) and np.array_equal(b, b0), "uniform: integral changed the box")
            m.ok(-1e-12 <= got <= 1 + 1e-9, "uniform: integral is a probability", got=got)
            j = int(rng.integers(ref.d))
            c = a[j] + (b[j] - a[j]) * rng.uniform(.05, .95)
            b1, a2 = b.copy(), a.copy()
            b1[j] = a2[j] = c
            if a[j] < c < b[j]:
                m.ok(abs(scalar(q.integral(a, b1)) + scalar(q.integral(a2, b)) - got) <= 1e-9, "uniform: additivity over a split")
            x = q.sample(5)
            m.ok(np.all((x >= q.support()[0]) & (x <= q.support()[1])), "uniform: samples in the reported support")


def delta(m, rng, reps):
    from ais_benchmarks import distributions as D
    for _ in range(reps):
        d = int(rng.integers(1, 5))
        c = rng.normal(0, 5, d)
        lo, hi = c - rng.uniform(.5, 2, d), c + rng.uniform(.5, 2, d)
        q = D.CMultivariateDelta({"center": c.copy(), "support": np.array([lo, hi])})
        m.trial("delta", c)
        m.close(q.support(), [lo, hi], "delta: support", rtol=1e-12)
        for a, b in boxes(rng, lo, hi, 30):
            if np.any(np.isclose(a, c)) or np.any(np.isclose(b, c)):
                continue
            m.ev("boxes")
            want = float(np.all((a < c) & (c < b)))
            m.ok(scalar(q.integral(a, b)) == want, "delta: integral over a box", a=a, b=b, c=c, expected=want)
        if rng.random() < .5:  # move it
            c = rng.uniform(lo, hi)
            q.loc = c
            a, b = np.minimum(c - .1, lo), c + .1
            m.ok(scalar(q.integral(a, b)) == 1, "delta: integral after moving it", c=c)
            m.ok(scalar(q.integral(c + .1, c + .2)) == 0, "delta: integral after moving it", c=c)


def cdf(kind, ref, a, b):
    if kind == "normal":
        if ref.d == 1:
            s = np.sqrt(ref.cov[0, 0])
            return float(st.norm.cdf((b[0] - ref.mean[0]) / s) - st.norm.cdf((a[0] - ref.mean[0]) / s))
        return float(st.multivariate_normal(ref.mean, ref.cov).cdf(b, lower_limit=a))
    if kind == "exponential" or kind == "bd_exponential":
        return float(np.prod(st.expon.cdf(b, scale=ref.mean) - st.expon.cdf(a, scale=ref.mean)))
    if kind == "maxwell":
        return float(st.rayleigh.cdf(b[0]) - st.rayleigh.cdf(a[0]))
    if kind == "laplace":
        return float(st.laplace.cdf(b[0]) - st.laplace.cdf(a[0]))
    if kind == "pareto":
        F = lambda x: .5 + np.sign(x) * .5 * (1 - 1 / np.sqrt(1 + abs(x)))
        return float(F(b[0]) - F(a[0]))
    if kind == "mixture":
        return sum(w * (p.mass(a, b) if isinstance(p, R.RUniform) else cdf("normal" if isinstance(p, R.RNormal) else "exponential", p, a, b))
                   for w, p in zip(ref.w, ref.parts))


LOSS = {"normal": 1e-6, "exponential": .02, "bd_exponential": .02, "maxwell": 1e-3, "laplace": 3e-3}


def montecarlo(m, rng, kind, reps, n):
    from ais_benchmarks import distributions as D
    for _ in range(reps):
        d = 1 if kind in ("maxwell", "laplace", "pareto", "bd_exponential") else int(rng.integers(1, 4))
        if kind == "mixture":
            ch = [R.build_unit(s, rng, d) for s in ("normal", "uniform", "exponential")]
            w = rng.uniform(.1, 1, 3)
            ref = R.RMixture([c[1] for c in ch], w)
            sup = ref.box(6)
            q = D.CMixtureModel({"models": [c[0] for c in ch], "weights": w, "dims": d, "support": sup if d > 1 else sup.reshape(-1).tolist()})
            m.close(q.support(), sup, "mixture: support", rtol=1e-12)
        else:
            q, ref = R.build(kind, rng, d)
        from checks.D01 import update
        if rng.random() < .4:
            ref = update(kind, q, ref, rng) or ref
        m.trial(kind, d, ref.box(3))
        m.state(kind, d)
        sup = np.asarray(q.support(), float)
        m.ok(sup.shape == (2, d) and np.isfinite(sup).all() and np.all(sup[0] < sup[1]), kind + ": support is an array of limits", sup=sup)
        lo, hi = ref.box(4) if kind != "mixture" else (np.full(d, -4.), np.full(d, 5.))
        if kind in ("exponential", "bd_exponential"):
            lo, hi = np.zeros(d), 5 * ref.mean
        for a, b in boxes(rng, lo, hi, 8):
            m.ev("boxes")
            want = cdf(kind, ref, a, b)
            X = rng.uniform(a, b, (20000, d))
            pX = np.exp(ref.logpdf(X))
            h = np.max(pX)
            V = float(np.prod(b - a))
            pr = min(1., want / (V * h)) if V * h > 0 else 0.
            ess = pX.sum() ** 2 / max((pX * pX).sum(), 1e-300)
            if (n * pr < 50 or ess < 400) and want > 1e-9:  # the box hides the mass in a corner uniform points rarely hit
                m.ev("boxes_unresolved")
                continue
            se = V * h * np.sqrt(max(pr * (1 - pr), 1e-12) / n)

            def pv(k):
                got = scalar(q.integral(a.copy(), b.copy(), nsamples=int(n * k)))
                m.ok(got >= 0, kind + ": integral is not negative", got=got)
                # the sampled maximum of the density is slightly below the real one
                return S.z(got, want, se / np.sqrt(k), allowance=1e-3 * want + 1e-9)
            S.confirmed(m, pv, kind + ": integral over a box", a=a, b=b, expected=want)


def supports(m, rng, reps):
    """Default supports contain the mass."""
    for _ in range(reps):
        for kind in LOSS:
            q, ref = R.build(kind, rng)
            m.trial("support", kind, ref.box(3))
            lo, hi = np.asarray(q.support(), float)
            if kind == "normal":
                s = np.sqrt(np.diag(ref.cov))
                mass = 1 - np.sum(st.norm.sf((hi - ref.mean) / s) + st.norm.cdf((lo - ref.mean) / s))
            elif "exponential" in kind:
                mass = np.min(st.expon.cdf(hi, scale=ref.mean) - st.expon.cdf(lo, scale=ref.mean))
            else:
                mass = cdf(kind, ref, lo, hi)
            m.ok(mass >= 1 - LOSS[kind], kind + ": support misses probability mass", mass=mass, support=[lo, hi])
        q, ref = R.build("gmm", rng)
        m.close(q.support(), ref.box(6), "gmm: support", rtol=1e-12)
        q, _ = R.build("pareto", rng)
        m.close(q.support(), [[-20.], [20.]], "pareto: support")
        q, _ = R.build("banana", rng)
        m.close(q.support(), [[-10., -10.], [10., 10.]], "banana: support")


def cases(tier):
    k = 1 if tier == "quick" else 20
    n = 40000 if tier == "quick" else 200000
    out = [("uniform-%d" % b, uniform, dict(reps=12 * k)) for b in range(4)] + [("delta", delta, dict(reps=15 * k)),
                                                                              ("supports", supports, dict(reps=10 * k))]
    out += [("mc-%s-%d" % (s, b), montecarlo, dict(kind=s, reps=2 * k, n=n)) for b in range(2) for s in
            ("normal", "exponential", "maxwell", "laplace", "pareto", "mixture")]
    return out
