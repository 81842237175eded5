import copy
import numpy as np
from vlib import ref as R
from vlib.mon import fp

RULE = ("one monitored execution per generated distribution and batch; every batch is evaluated whole, permuted, in slices, row by "
        "row, in other memory layouts and repeatedly")
ASSUMPTIONS = ["values of one row in different batches may differ by floating point reassociation (relative 1e-9)"]
KINDS = R.ALL + ["delta", "kde", "generic_lik", "generic_loglik", "mixture_of_kde"]


def make(kind, rng, style=None):
    from ais_benchmarks import distributions as D
    d = int(rng.integers(1, 5))
    if kind == "delta":
        c = rng.normal(0, 2, d)
        near = c * (1 + rng.choice([-1, 1], (9, d)) * 10. ** -rng.uniform(4, 16, (9, 1)))
        X = np.concatenate([np.tile(c, (3, 1)), c + rng.normal(0, 1, (20, d)), c + np.eye(d), near])
        return D.CMultivariateDelta({"center": c, "support": np.array([c - 1, c + 1])}), X[rng.permutation(len(X))], True
    if kind in ("kde", "mixture_of_kde"):
        n = int(rng.integers(1, 12))
        s = rng.normal(0, 1, (n, d))
        f = [D.CKernel.kernel_normal, D.CKernel.kernel_uniform, D.CKernel.kernel_triangular,
             D.CKernel.kernel_epanechnikov][int(rng.integers(4))]
        q = D.CKernelDensity({"samples": s, "weights": rng.uniform(.1, 1, n), "kernel_f": f,
                              "kernel_bw": rng.uniform(.3, 3, d), "support": np.array([s.min(0) - 5, s.max(0) + 5])})
        X = np.concatenate([s, rng.normal(0, 2, (25, d)), rng.normal(0, 50, (5, d))])
        if kind == "mixture_of_kde":
            n2, _ = R.build_unit("normal", rng, d)
            q = D.CMixtureModel({"models": [q, n2], "weights": [.3, .7], "dims": d, "support": [[-9.] * d, [9.] * d]})
        return q, X, False
    if kind.startswith("generic"):
        class Plain(D.CDistribution):
            def condition(self, dist):
                raise NotImplementedError

            def marginal(self, dim):
                raise NotImplementedError
        rf = R.RNormal(rng.normal(0, 1, d), R.rand_cov(rng, d, 1., 5))
        q = Plain({"type": "plain", "family": "plain", "dims": d, "support": rf.box(6),
                   "likelihood_f": (lambda x: np.exp(rf.logpdf(x))) if kind == "generic_lik" else None,
                   "loglikelihood_f": rf.logpdf if kind == "generic_loglik" else None})
        return q, R.points(rf, rng, 20), False
    q, rf = R.build(kind, rng, R.dim(rng), style)
    return q, R.points(rf, rng, 25), True


PUBLIC = ("loc", "scale", "weights", "means", "sigmas", "samples", "kernel_bw", "dims")


def params_fp(q):
    """What a user can read back: the parameters (arrays, numbers, lists) and the support."""
    out = {"support": np.array(q.support())}
    src = [(k, getattr(q, k)) for k in PUBLIC if hasattr(q, k)] + [("params." + k, v) for k, v in getattr(q, "params", {}).items()]
    for k, v in src:
        if isinstance(v, (np.ndarray, float, int, str)) or (isinstance(v, (list, tuple)) and not any(callable(x) or hasattr(x, "prob") for x in v)):
            out[k] = copy.deepcopy(v)
    return out


def run(m, rng, kind, reps):
    for rep in range(reps):
        q, X, vec = make(kind, rng, 8 if rep == 1 else None)
        large = rep == 0
        X = np.ascontiguousarray(X, dtype=float)
        X0 = X.copy()
        n, d = X.shape
        m.trial(kind, X)
        m.state(kind, d, n)
        before = params_fp(q)
        with np.errstate(all="ignore"):
            p, lp = np.array(q.prob(X)), np.array(q.log_prob(X))
        m.ev("points", n)
        m.eq((p.shape, lp.shape), ((n,), (n,)), kind + ": one value per point")
        m.ok(not np.isnan(p).any() and (p >= 0).all(), kind + ": density is non-negative", p=p)
        m.ok(not np.isnan(lp).any(), kind + ": log density is not NaN", lp=lp)
        with np.errstate(all="ignore"):
            e = np.exp(lp)
        tol = 1e-9 * np.maximum(1, np.abs(np.where(np.isfinite(lp), lp, 1)))
        bad = ~((e == p) | (np.abs(e - p) <= tol * p + 1e-290))
        m.ok(not bad.any(), kind + ": density is the exponential of the log density", x=X[np.argmax(bad)], prob=p[np.argmax(bad)],
             log_prob=lp[np.argmax(bad)])
        m.ok(np.array_equal(X, X0), kind + ": evaluation changed the evaluated points")

        def same(got, want, what, Xv):
            m.ev("relations")
            m.close(got, want, kind + ": value of a point depends on " + what, rtol=1e-9, atol=1e-290, X=Xv)
        for f, v in ((q.prob, p), (q.log_prob, lp)):
            perm = rng.permutation(n)
            same(f(X[perm]), v[perm], "the order of the points", X)
            k = int(rng.integers(1, n))
            same(np.concatenate([f(X[:k]), f(X[k:])]), v, "the batch it is in", X)
            same(np.concatenate([f(X), f(X)])[n:], v, "earlier evaluations", X)
            same(f(np.concatenate([X, X[::-1]])), np.concatenate([v, v[::-1]]), "repeated points in the batch", X)
            for i in rng.choice(n, min(n, 12), replace=False):
                same(f(X[i:i + 1]), v[i:i + 1], "the batch it is in (alone)", X[i])
                if vec:
                    same(np.reshape(f(X[i].copy()), -1), v[i:i + 1], "being passed as a vector", X[i])
            big = np.full((2 * n, d + 3), 7.25)
            big[::2, 1:1 + d] = X
            view = big[::2, 1:1 + d]
            fo = np.asfortranarray(X)
            neg = X[::-1]
            ro = X.copy()
            ro.setflags(write=False)
            same(f(view), v, "the memory layout (strided view)", X)
            same(f(fo), v, "the memory layout (fortran order)", X)
            same(f(neg), v[::-1], "the memory layout (reversed view)", X)
            same(f(ro), v, "the array being read-only", X)
            m.ok(np.array_equal(view, X) and np.all(big[1::2] == 7.25), kind + ": evaluation changed the evaluated array")
            m.ok(np.array_equal(fo, X), kind + ": evaluation changed the evaluated array")
            if n >= d:  # as many points as dimensions, in both layouts
                sq = np.ascontiguousarray(X[:d].T)
                same(f(sq.T), v[:d], "the memory layout (transposed view of as many points as dimensions)", X[:d])
                same(f(X[:d].copy()), v[:d], "the batch it is in (as many points as dimensions)", X[:d])
            if large:
                i = rng.integers(n, size=int(rng.choice([1500, 4000, 9000])))
                same(f(X[i]), v[i], "the size of the batch", X)
            out = f(X)
            if isinstance(out, np.ndarray) and out.flags.writeable:
                out[:] = -1
                same(f(X), v, "what the caller does with earlier results", X)
        # evaluating outside, in another order of functions
        far = X + 1e3 * (np.abs(X).max() + 1)
        with np.errstate(all="ignore"):
            q.log_prob(far), q.prob(far)
        same(q.prob(X), p, "evaluations far away", X)
        after = params_fp(q)
        for k in before:
            m.ok(k in after and fp(before[k]) == fp(after[k]), kind + ": evaluation changed parameter " + k, before=before[k], after=after.get(k))


def cases(tier):
    k = 3 if tier == "quick" else 60
    return [("%s-%d" % (s, b), run, dict(kind=s, reps=k)) for s in KINDS for b in range(2 if tier == "quick" else 6)]
