import math
import numpy as np
from vlib import ref as R

RULE = "one monitored execution per generated sample set, kernel and bandwidth, evaluated at tens of points or integrated by quadrature"
ASSUMPTIONS = ["the bandwidth parameter multiplies the distance to the sample, as in the code's kernel definition",
               "points at which a kernel is discontinuous (measure zero) are not judged"]

K = {"kernel_normal": lambda u: math.exp(-.5 * u * u) / math.sqrt(2 * math.pi),
     "kernel_uniform": lambda u: .5 if abs(u) <= 1 else 0.,
     "kernel_triangular": lambda u: max(1 - abs(u), 0.),
     "kernel_epanechnikov": lambda u: .75 * (1 - u * u) if abs(u) <= 1 else 0.}


def build(rng, name, d, n):
    from ais_benchmarks import distributions as D
    s = rng.normal(0, 1, (n, d)) * np.exp(rng.uniform(-2, 2))
    if n > 2 and rng.random() < .4:
        s[n // 2] = s[0]  # repeated samples
    t = rng.integers(3)
    sc = np.exp(rng.uniform(-1.5, 2))
    bw = sc if t == 0 else np.array([sc]) if t == 1 else sc * rng.uniform(.5, 2, d)
    w = rng.uniform(0, 2, n) ** 3 if n >= 60 or rng.random() > .6 else np.ones(n) / n
    if not (w > 0).any():
        w = np.ones(n)
    q = D.CKernelDensity({"samples": s.copy(), "weights": w.copy(), "kernel_f": getattr(D.CKernel, name), "kernel_bw": bw,
                          "support": np.array([s.min(0) - 5 / sc, s.max(0) + 5 / sc])})
    return q, s, np.broadcast_to(np.asarray(bw, float), (d,)), R.clean_weights(w)


def sums(m, rng, name, reps, n=None):
    for _ in range(reps):
        d, n = int(rng.integers(1, 6)), n or int(rng.choice([1, 1, 2, 5, 20])) if rng.random() < .93 else int(rng.choice([60, 200, 520]))
        q, s, bw, w = build(rng, name, d, n)
        X = np.concatenate([s[rng.integers(n, size=15)] + rng.normal(0, .6, (15, d)) / bw, s[:4], rng.normal(0, 3, (8, d))])
        U = np.abs((X[:, None, :] - s[None]) * bw)
        X = X[~np.any(np.abs(U - 1) < 1e-6, axis=(1, 2))]
        far = s[:1] + np.array([[1.], [-1.]]) * (np.ptp(s) + 1e3 / bw.min() * rng.uniform(1, 1e4)) * np.ones((1, d))
        m.trial(name, s, bw, w)
        m.state(name, d, n)
        want = np.array([math.fsum(wi * math.prod(K[name]((x[j] - c[j]) * bw[j]) * bw[j] for j in range(d)) for wi, c in zip(w, s))
                         for x in X])
        p, lp = np.asarray(q.prob(X)), np.asarray(q.log_prob(X))
        m.ev("points", len(X))
        m.ev("points_positive", int((want > 0).sum()))
        m.eq((p.shape, lp.shape), ((len(X),),) * 2, "one value per point")
        m.close(p, want, name + ": average of the kernels", rtol=1e-7, atol=1e-200, d=d, bw=bw, n=n)
        with np.errstate(all="ignore"):
            l = np.log(want)
        ok = want > 1e-250
        m.close(lp[ok], l[ok], name + ": log of the average of the kernels", rtol=1e-7, atol=1e-7)
        m.ok(not np.isnan(lp).any() and (lp[~ok] < -500).all(), name + ": log density where no kernel reaches", lp=lp[~ok])
        pf, lf = np.asarray(q.prob(far)), np.asarray(q.log_prob(far))
        m.ok((pf == 0).all(), name + ": density far from every sample vanishes", p=pf)
        m.ok(np.isneginf(lf).all() or (lf < -1e4).all(), name + ": log density far from every sample", lp=lf)


def integrates(m, rng, name, reps):
    for _ in range(reps):
        d, n = int(rng.integers(1, 3)), int(rng.integers(1, 5))
        q, s, bw, w = build(rng, name, d, n)
        m.trial("int", name, s, bw, w)
        r = (7 if name == "kernel_normal" else 1) / bw
        axes = []
        for j in range(d):
            e = np.unique(np.concatenate([s[:, j] - r[j], s[:, j], s[:, j] + r[j]]))
            e = e[np.concatenate([[True], np.diff(e) > 1e-12])]
            g = [R.gauss_grid(a, b, 10, 4 if name == "kernel_normal" else 1) for a, b in zip(e[:-1], e[1:])]
            axes.append((np.concatenate([x for x, _ in g]), np.concatenate([y for _, y in g])))
        X = np.stack(np.meshgrid(*[a[0] for a in axes], indexing="ij"), -1).reshape(-1, d)
        W = axes[0][1] if d == 1 else np.outer(axes[0][1], axes[1][1]).reshape(-1)
        tot = float(np.sum(W * q.prob(X)))
        m.ev("quadratures")
        m.ok(abs(tot - 1) < 1e-6, name + ": the estimate does not integrate to one", integral=tot, d=d, bw=bw)


def functions(m, rng, name, reps):
    """The kernel functions alone, on arrays of any shape."""
    from ais_benchmarks import distributions as D
    f = getattr(D.CKernel, name)
    for _ in range(reps):
        shape = [(7,), (1,), (6, 1), (5, 3), (1, 4), (3, 2, 2)][int(rng.integers(6))]
        u = rng.uniform(-1.6, 1.6, shape) * rng.choice([1., .5, 5.])
        u[np.abs(np.abs(u) - 1) < 1e-9] = .5
        m.trial("function", name, u)
        m.state("function", name, shape)
        v = u.copy()
        got = np.asarray(f(v))
        m.ok(np.array_equal(u, v), name + ": the argument is modified")
        m.close(got, np.vectorize(K[name])(u), name + ": value of the kernel", rtol=1e-9, atol=1e-14)
        i = rng.choice([-7, -3, -2, 0, 2, 5], shape)
        m.close(np.asarray(f(i.copy())), np.vectorize(K[name])(i.astype(float)), name + ": value of the kernel for integers", rtol=1e-9, atol=1e-9)


def cases(tier):
    k = 1 if tier == "quick" else 25
    return [("%s-many" % s, sums, dict(name=s, reps=2 * k, n=400)) for s in K] + \
           [("%s-sum-%d" % (s, b), sums, dict(name=s, reps=25 * k)) for s in K for b in range(2)] + \
           [("%s-fun" % s, functions, dict(name=s, reps=30 * k)) for s in K] + [("%s-int" % s, integrates, dict(name=s, reps=6 * k)) for s in K]
