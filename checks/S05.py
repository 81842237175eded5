import numpy as np
from vlib import samplers as SM
from vlib import stats
from vlib import targets as T

RULE = "one monitored execution per (method configuration, target, history) whose exposed density is integrated and compared with its own draws"
ASSUMPTIONS = ["one and two dimensions for the integral and the law, up to three for the pointwise relations",
               "Metropolis-Hastings draws come from its chain, only its density is checked",
               "points exactly on cell boundaries are not judged"]
PARTITION = ["hidaisee"] + SM.TP
GAUSS = ["dm", "lais", "mpmc", "rejection", "mh", "nested", "multinested", "tp_normal", "tp_normal_leaf"]


def comps(s):
    try:
        out = []
        for q in (s.model.models if hasattr(s.model, "models") else [s.model]):
            C = np.atleast_2d(np.array(q.cov if hasattr(q, "cov") else q.scale, float))
            out.append((np.array(q.loc, float).reshape(-1), C))
        return out
    except (AttributeError, TypeError):
        return None


def grid(kind, s, lo, hi, d, draws):
    """Evaluation grid (centres, cell volume, axes edges) on which the density can be integrated; None if too spread out."""
    lo, hi = np.asarray(lo, float), np.asarray(hi, float)
    if kind in GAUSS:
        c = comps(s)
        if c is None or len(c[0][0]) != d:
            return None
        ev = [np.linalg.eigvalsh(C) for _, C in c]
        smin = np.sqrt(max(min(e.min() for e in ev), 0))
        a = np.min([mu - 8 * np.sqrt(np.diag(C)) for mu, C in c], axis=0)
        b = np.max([mu + 8 * np.sqrt(np.diag(C)) for mu, C in c], axis=0)
        if not smin > 0:
            return None
        M = np.ceil((b - a) / (smin * .8)).astype(int)
        if np.prod(M.astype(float)) > (60000 if d == 1 else 40000) or not np.isfinite(M).all():
            return None
        M = np.maximum(M, 64)
    else:
        a, b = lo, hi
        if kind.startswith("tp"):
            R = np.max((hi - lo) / 2)
            a, b = (lo + hi) / 2 - R, (lo + hi) / 2 + R
        M = np.full(d, {1: 4096, 2: 128}[d])
    e = [np.linspace(a[j], b[j], M[j] + 1) for j in range(d)]
    mid = [(x[:-1] + x[1:]) / 2 for x in e]
    X = np.stack(np.meshgrid(*mid, indexing="ij"), -1).reshape(-1, d)
    return X, float(np.prod((b - a) / M)), e, M


def depth_ok(kind, s, M, d):
    """Cells finer than the grid would make the quadrature inexact."""
    try:
        if kind == "hidaisee":
            root = s.T.nodes[0]
            r = [np.min(np.array(s.T.nodes[i].radius) / root.radius * M) for i in s.T.leaves]
            return min(r) >= 1
        return min(float(np.min(n.radius / s.T.root.radius)) for n in s.T.leaves) * M[0] >= 1
    except AttributeError:
        return True


def run(m, rng, kind, reps, n_draw):
    for _ in range(reps):
        s, p, t, lo, hi, lab = SM.scenario(rng, kind, dims=(1, 1, 2, 2, 3) if kind not in PARTITION else (1, 2, 2, 3, 4, 5))
        if kind.startswith("tp"):
            # settings for which the partition is not refined below the grid
            pass
        d = len(lo)
        tag = kind + ": "
        m.trial(*lab, str(p))
        S, W = SM.fill(s, p, kind, t, rng)
        if rng.random() < (.5 if kind in PARTITION else .3):
            w = np.asarray(hi, float) - lo
            n = len(S)
            if np.asarray(W).sum() > 0:
                for f in (s.prob, s.log_prob):
                    f(rng.uniform(lo - .1 * w, hi + .1 * w, (20, d)))
            s.reset()
            t = T.make(str(rng.choice(["gauss", "gmm", "corner", "laplace"])), rng, lo, hi)
            S, W = SM.fill(s, p, kind, t, rng, n if rng.random() < .7 else None)
            m.ev("after_reset")
        if not (np.asarray(W).sum() > 0):
            m.ev("no_target_mass")
            continue
        m.state(*lab, len(S))
        lo_, hi_ = np.asarray(lo, float), np.asarray(hi, float)
        w = hi_ - lo_
        # pointwise relations, near the domain and far from it
        X = np.concatenate([rng.uniform(lo_ - w * .1, hi_ + w * .1, (60, d)), np.asarray(S)[:40] + w * 1e-7 * rng.normal(size=(len(S[:40]), d)),
                            hi_ + w * 50 + rng.uniform(0, 1, (3, d))])
        P, L = np.array(s.prob(X)).reshape(-1), np.array(s.log_prob(X)).reshape(-1)
        m.ev("densities", len(X))
        m.ok(P.shape == (len(X),) and L.shape == (len(X),), tag + "one density value per point", prob=P.shape, log_prob=L.shape)
        m.ok((P >= 0).all() and np.isfinite(P).all(), tag + "exposed density is negative or not finite", P=P)
        m.close(np.exp(L), P, tag + "density is not the exponential of the log density", rtol=1e-7, atol=1e-280)
        one = np.array([np.asarray(s.prob(x.reshape(1, -1))).reshape(-1)[0] for x in X[:10]])
        m.close(one, P[:10], tag + "density of a point depends on the batch", rtol=1e-9, atol=1e-280)
        m.close(np.array(s.prob(X)).reshape(-1), P, tag + "evaluating twice gives different densities")
        if d > 2 and kind in GAUSS:
            independent(m, s, X, P, tag)
            continue
        if kind in GAUSS:
            independent(m, s, X, P, tag)
        if kind in PARTITION and "normal" not in kind:
            partition(m, s, kind, X, P, rng, tag)
        if d > 2:
            continue
        g = grid(kind, s, lo, hi, d, None)
        if g is None:
            m.ev("not_integrable_on_a_grid")
            continue
        G, v, edges, M = g
        if kind not in GAUSS and not depth_ok(kind, s, M, d):
            m.ev("partition_finer_than_grid")
            continue
        Q = np.array(s.prob(G)).reshape(-1)
        I = float(Q.sum() * v)
        m.ev("integrals")
        m.ok(abs(I - 1) < 2e-3, tag + "exposed density does not integrate to one", integral=I, dims=d)
        if kind == "mh" or n_draw == 0:
            continue
        # law of the draws
        tab = (Q * v / I).reshape(M)

        def pv(k, j=0):
            Y = np.asarray(s.sample(n_draw * k), float)
            if not m.ok(Y.shape == (n_draw * k, d), tag + "shape of proposal draws", shape=Y.shape):
                return 1.
            m.ev("draws", len(Y))
            ps = []
            for j in range(d):
                cdf = np.concatenate([[0], np.cumsum(tab.sum(axis=tuple(i for i in range(d) if i != j)))])
                ps.append(stats.ks(Y[:, j], lambda y: np.interp(y, edges[j], cdf)))
            if d == 2:  # joint law on quantile cells
                i0 = np.searchsorted(np.cumsum(tab.sum(1)), [.25, .5, .75])
                i1 = np.searchsorted(np.cumsum(tab.sum(0)), [.25, .5, .75])
                e0, e1 = edges[0][i0 + 1], edges[1][i1 + 1]
                # cells with the tabulated boundaries
                b0, b1 = np.concatenate([[0], i0 + 1, [M[0]]]), np.concatenate([[0], i1 + 1, [M[1]]])
                pr = np.array([[tab[b0[a]:b0[a + 1], b1[b]:b1[b + 1]].sum() for b in range(4)] for a in range(4)]).reshape(-1)
                ix = np.searchsorted(e0, Y[:, 0]) * 4 + np.searchsorted(e1, Y[:, 1])
                ps.append(stats.chi2(np.bincount(ix, minlength=16), np.maximum(pr, 0)))
            return min(ps) * 1.
        stats.confirmed(m, pv, tag + "proposal draws do not follow the exposed density", dims=d)


def independent(m, s, X, P, tag):
    """The exposed mixture evaluated from the parameters of its components."""
    from scipy.stats import multivariate_normal as mvn
    c = comps(s)
    try:
        w = np.array(s.model.weights, float) if hasattr(s.model, "models") else np.ones(1)
    except AttributeError:
        return
    if c is None or max(np.linalg.cond(C) for _, C in c) > 1e6:
        return
    q = np.zeros(len(X))
    for a, (mu, C) in zip(w, c):
        q += a * np.atleast_1d(mvn.pdf(X, mu, C))
    m.ev("independent_densities", len(X))
    m.close(P, q, tag + "exposed density is not the mixture of its components", rtol=1e-6, atol=1e-200)


def partition(m, s, kind, X, P, rng, tag):
    """Piecewise constant densities in any dimension: integral over the cells, value of a point against the cell that contains it."""
    try:
        if kind == "hidaisee":
            c = [(np.array(s.T.nodes[i].center, float), np.array(s.T.nodes[i].radius, float) * np.ones(s.T.dims)) for i in s.T.leaves]
        else:
            c = [(np.array(n.center, float), np.array(n.radius, float).reshape(-1) * np.ones(s.T.ndims)) for n in s.T.leaves]
    except AttributeError:
        m.ev("internals_unavailable")
        return
    C, R = np.array([a for a, _ in c]), np.array([b for _, b in c])
    q = np.array(s.prob(C + R * rng.uniform(-.9, .9, C.shape))).reshape(-1)
    v = float(np.sum(q * np.prod(2 * R, axis=1)))
    m.ev("cell_integrals")
    m.ok(abs(v - 1) < 1e-6, tag + "exposed density does not integrate to one over the cells", integral=v, cells=len(C), dims=C.shape[1])
    for x, p in zip(X, P):
        z = np.max(np.abs(x - C) / R, axis=1)
        if np.min(np.abs(z - 1)) < 1e-9:
            continue
        i = np.flatnonzero(z < 1)
        m.ev("points_in_cells")
        m.close(p, q[i[0]] if len(i) else 0., tag + "density of a point is not that of the cell that contains it", rtol=1e-9, atol=1e-280)


def cases(tier):
    k = 1 if tier == "quick" else 12
    return [("%s-%d" % (s, b), run, dict(kind=s, reps=(4 if s in SM.TP else 5) * k, n_draw=1500 if tier == "quick" else 6000))
            for b in range(3) for s in SM.KINDS]
