import copy
import math
import numpy as np
from scipy.stats import multivariate_normal as mvn
from vlib import samplers as SM
from vlib import stats
from vlib import targets as T

RULE = "one monitored execution per request whose weights are recomputed, or per pair of runs on a target and its scaled twin"
ASSUMPTIONS = ["scale invariance is checked for the methods whose decisions are scale free (not rejection and the optimistic hierarchical method)",
               "tree pyramid methods dm/mixture are declared unfinished by the code and excluded"]


def mixture_pdf(s, X):
    """Density of the proposals of a mixture method from their own parameters, independent of the evaluation code; None if not exposed."""
    try:
        comps = [(np.array(q.loc, float).reshape(-1), np.array(q.cov if hasattr(q, "cov") else q.scale, float)) for q in s.model.models]
        w = np.array(s.model.weights, float)
        if max(np.linalg.cond(np.atleast_2d(C)) for _, C in comps) > 1e6:  # two correct evaluations would differ
            return None
        r = np.zeros(len(X))
        for (mu, C), a in zip(comps, w):
            if a > 0:
                r += a * np.atleast_1d(mvn.pdf(X, mu, C, allow_singular=True)).reshape(-1)
        return r
    except (AttributeError, ValueError, np.linalg.LinAlgError):
        return None


def adaptive(m, rng, kind, reps, long=False):
    """dm, lais, mpmc: raw weights of every iteration from the snapshot of the proposal before it."""
    for _ in range(reps):
        s, p, t, lo, hi, lab = SM.scenario(rng, kind, dims=(1, 2, 2, 3, 5), c=(1., 1e-8, 1e8, 37.))
        m.state(*lab)
        raw, n = np.zeros(0), 0
        its = int(rng.integers(2, 7))
        if long:
            its = min(300, 1 + SM.long(kind, rng) // (p["K"] * (1 if kind == "mpmc" else p["N"])))
        for it in range(its):
            m.trial(*lab, str(p), it)
            snap = copy.deepcopy(s)
            S, W, _ = SM.request(s, t, n + 1)
            S, W = np.array(S), np.array(W)
            new = S[n:]
            q = np.asarray(snap.prob(new), float).reshape(-1)
            q2 = mixture_pdf(snap, new)
            if q2 is not None:
                m.ev("independent_densities", len(q2))
                q = q2
            with np.errstate(all="ignore"):
                r = np.exp(t.lp(new)) / q
            m.ev("weights_recomputed", len(new))
            n = len(S)
            okq = np.all(q > 1e-200) and np.all(np.isfinite(r))
            if not okq:
                m.ev("underflow_iterations")
                raw = np.append(raw, np.full(len(new), np.nan))
                continue
            if kind == "mpmc":
                if r.sum() > 0:
                    m.close(W[len(raw):], r / r.sum(), kind + ": weights of an iteration", rtol=1e-6, atol=1e-12)
                raw = np.append(raw, r)
            else:
                raw = np.append(raw, r)
                if np.isnan(raw).any():
                    i = np.isfinite(raw)
                    if W[i].sum() > 0 and raw[i].sum() > 0:
                        m.close(W[i] / W[i].sum(), raw[i] / raw[i].sum(), kind + ": weights", rtol=1e-6, atol=1e-12)
                elif raw.sum() > 0:
                    m.close(W, raw / raw.sum(), kind + ": weights", rtol=1e-6, atol=1e-12)


def law(m, rng, kind, reps):
    """The points of every batch are draws of the proposal in force: positions in its distribution function along one coordinate are uniform."""
    from scipy.stats import norm

    def collect(k):
        U, O = [], []
        for _ in range(reps * k):
            s, p, t, lo, hi, lab = SM.scenario(rng, kind, dims=(1, 2, 3), sigma=(float(rng.choice([.2, .6, .9]))) ** 2, dom="unit",
                                               targets=("gauss", "gmm", "corner", "half"))
            m.state("law", *lab)
            n = 0
            for it in range(4):
                m.trial("law", *lab, str(p), it, k)
                try:
                    mus, Cs = [np.array(q.loc, float).reshape(-1) for q in s.model.models], \
                        [np.atleast_2d(np.array(q.cov if hasattr(q, "cov") else q.scale, float)) for q in s.model.models]
                    w = np.array(s.model.weights, float)
                except AttributeError:
                    m.ev("internals_unavailable")
                    return U, O
                j = int(rng.integers(len(lo)))
                S, W, _ = SM.request(s, t, n + 1)
                x = np.array(S, float)[n:, j]
                n = len(S)
                sd = np.array([np.sqrt(C[j, j]) for C in Cs])
                if not (sd > 0).all() or not np.isfinite(w).all():
                    continue
                w = w / w.sum()
                o = (norm.cdf((float(lo[j]) - np.array([u[j] for u in mus])) / sd) + norm.sf((float(hi[j]) - np.array([u[j] for u in mus])) / sd)) @ w
                O += [(float(o), bool(a < lo[j] or a > hi[j])) for a in x]
                U += list(norm.cdf((x[:, None] - np.array([u[j] for u in mus])) / sd) @ w)
                m.ev("drawn_points", len(x))
        return U, O

    def pv(k):
        U, O = collect(k)
        U, q, a = np.array(U), np.array([o for o, _ in O]), np.array([float(o) for _, o in O])
        if len(U) < 50:
            return 1.
        out = np.minimum(U, 1 - U)
        v = np.sum(q * (1 - q))  # how many lie beyond the domain
        return min(stats.ks(U, lambda u: np.clip(u, 0, 1)), stats.ks(out, lambda u: np.clip(2 * u, 0, 1)),
                   stats.z(a.sum(), q.sum(), np.sqrt(v)) if v > 5 else 1.)
    stats.confirmed(m, pv, kind + ": points of a batch are not draws of the proposal")


def shells(m, rng, kind, reps, long=False):
    for it in range(reps):
        over, tg = {}, ("gauss", "gmm", "half", "box", "ridge", "corner", "laplace")
        if long:  # narrow kernels climb for a long time
            over, tg = dict(N=int(rng.choice([2, 3, 5])), narrow=.01), ("gauss", "corner", "laplace")
            if kind == "multinested":  # a single ellipsoid that is explored for a long time
                over = dict(N=int(rng.choice([5, 8])), narrow=.05, converged_radius=1e-6 * float(10 ** rng.uniform(0, 9)))
        s, p, t, lo, hi, lab = SM.scenario(rng, kind, c=(1., 1e-8, 1e8), targets=tg, **over)
        m.state(*lab)
        for n in [p["N"] * 15, p["N"] * 40] if long else SM.sizes(kind, p, rng, 3):
            m.trial(*lab, str(p), n)
            S, W, late = SM.request(s, t, n, limit=20000 if long else int(rng.choice([4000, 4000, 60])))
            m.ev("shells_beyond_20", max(0, len(S) - 20 * p["N"]))
            m.ev("weights_recomputed", len(S))
            L = np.exp(t.lp(S))
            i = np.arange(len(S))
            w = L * (np.exp(-i / p["N"]) - np.exp(-(i + 1) / p["N"]))
            if w.sum() > 1e-250:
                m.close(W, w / w.sum(), kind + ": weight is likelihood times prior mass shell", rtol=1e-7, atol=1e-14)


def leaves(s, kind):
    try:
        if kind == "hidaisee":
            L = [s.T.nodes[i] for i in s.T.leaves]
            return [(np.array(n.center, float), np.array(n.radius, float) * np.ones(len(n.center))) for n in L]
        return [(np.array(n.center, float), np.array(n.radius, float).reshape(-1) * np.ones(len(n.center)))
                for n in sorted(s.T.leaves, key=lambda n: n.node_idx)]
    except AttributeError:
        return None


def cells(m, rng, kind, reps, long=False):
    """Partition methods: target density times cell volume, shared among the points of the cell."""
    for _ in range(reps):
        s, p, t, lo, hi, lab = SM.scenario(rng, kind, c=(1., 1e-8, 1e8) if kind != "hidaisee" else (1., 10.))
        m.state(*lab)
        d = len(lo)
        R = np.max(np.asarray(hi, float) - lo) / 2 * np.ones(d) if kind != "hidaisee" else (np.asarray(hi, float) - lo) / 2
        V0 = np.prod(2 * R)
        for n in [SM.long(kind, rng)] if long else SM.sizes(kind, p, rng, 3):
            m.trial(*lab, str(p), n)
            S, W, _ = SM.request(s, t, n, limit=200000 if long else 4000)
            S, W = np.array(S), np.array(W)
            f = np.exp(t.lp(S))
            m.ev("weights_recomputed", len(S))
            m.ok((W[f == 0] == 0).all(), kind + ": point without target density has a weight")
            use = (f > 1e-250) & (W > 1e-250)  # no denormals
            if use.sum() < 2:
                continue
            if kind != "hidaisee" and "ess" not in kind:  # one point per cell: volumes are powers of two of the box
                l2 = np.log2(W[use] / f[use])
                if p["ess_target"] is None or p["ess_target"] > 1:
                    k = (l2 - l2[0]) / d
                    m.close(k, np.round(k), kind + ": weight over density is not a dyadic cell volume", rtol=0, atol=1e-6)
            L = leaves(s, kind)
            if L is None:
                m.ev("internals_unavailable")
                continue
            C, Rl = np.array([c for c, _ in L]), np.array([r for _, r in L])
            vol, cnt = np.zeros(len(S)), np.zeros(len(L))
            inside = np.all(np.abs(S[:, None, :] - C) <= Rl * (1 + 1e-12), axis=2)
            own = inside.sum(1)
            if not m.ok((own >= 1).all(), kind + ": a returned point is in no cell", x=S[np.argmin(own)]):
                continue
            amb = own > 1  # on a boundary
            idx = inside.argmax(1)
            if amb.any():
                m.ev("boundary_points", amb.sum())
                continue
            hist = np.bincount(idx, minlength=len(L)).astype(float)
            if kind != "hidaisee":
                # points of zero weight are dropped from the returned set but still share the cell: read the number kept
                try:
                    if p["ess_target"] is not None and p["ess_target"] <= 1:
                        hist = np.array([len(n.weight_hist) for n in sorted(s.T.leaves, key=lambda n: n.node_idx)], float)
                except AttributeError:
                    m.ev("internals_unavailable")
                    continue
            w = f * np.prod(2 * Rl[idx], axis=1) / hist[idx]
            if kind == "hidaisee":
                m.close(W, w, kind + ": weight is density times cell volume over points in the cell", rtol=1e-7)
            else:
                m.close(W / W.sum(), w / w.sum(), kind + ": weight is density times cell volume over points in the cell", rtol=1e-7)


def drawn(m, rng, kind, reps):
    """Normal kernel: weight is target density over the density of the kernel that generated the point."""
    from ais_benchmarks.distributions import CMultivariateNormal as G
    for _ in range(reps):
        s, p, t, lo, hi, lab = SM.scenario(rng, kind, dims=(1, 2, 2))
        log = {}
        orig = G.sample

        def rec(self, *a, **k):
            x = orig(self, *a, **k)
            mu, C = np.array(self.loc, float).reshape(-1), np.array(self.cov if hasattr(self, "cov") else self.scale, float)
            for y, l in zip(np.atleast_2d(x), np.atleast_1d(mvn.logpdf(np.atleast_2d(x), mu, C))):
                log[bytes(np.ascontiguousarray(y, float))] = float(l)
            return x
        G.sample = rec
        try:
            for n in SM.sizes(kind, p, rng, 3):
                m.trial(*lab, str(p), n)
                S, W, _ = SM.request(s, t, n)
        finally:
            G.sample = orig
        S, W = np.array(S), np.array(W)
        with np.errstate(all="ignore"):
            if kind == "tp_normal":
                q = np.array([log.get(bytes(np.ascontiguousarray(y, float)), np.nan) for y in S])
                if not m.ok(not np.isnan(q).any(), kind + ": a returned point was never drawn from a kernel"):
                    continue
            else:
                L = leaves(s, kind)
                if L is None or len(L) != len(S):
                    m.ev("internals_unavailable")
                    continue
                C, R = np.array([c for c, _ in L]), np.array([r[0] for _, r in L])[:, None]
                z = (S - C) / (2 * R)
                d = len(lo)
                q = -np.sum(z * z, axis=1) - d / 2 * math.log(math.pi) - d * np.log(2 * R[:, 0])  # variance one half
            lw = t.lp(S) - q
            k = (lw > -600) & (W > 0)
            m.ev("weights_recomputed", k.sum())
            if k.sum() > 1:
                w = np.exp(lw[k] - lw[k].max())
                m.close(W[k] / W[k].sum(), w / w.sum(), kind + ": weight is target over generating kernel density", rtol=1e-6, atol=1e-14)


def scale(m, rng, kind, reps):
    """The same run on the target times a power of two."""
    for _ in range(reps):
        over = dict(K=int(rng.integers(20, 40))) if kind == "mpmc" else {}  # few points make singular covariances: rounding decides
        s, p, t, lo, hi, lab = SM.scenario(rng, kind, targets=("gauss", "gmm", "corner"), **over)
        c = 2. ** int(rng.choice([-220, -90, -40, -26, -3, 1, 13, 26, 40, 90, 220]))
        seed = int(rng.integers(2 ** 31))
        out = []
        ns = SM.sizes(kind, p, rng, 3)
        m.trial("scaled", *lab, str(p), c, tuple(ns))
        for f in (1., c):
            tt = t.scaled(f)
            np.random.seed(seed)
            x = SM.make(kind, lo, hi, p)
            x.reset()
            r = []
            for n in ns:
                S, W, _ = SM.request(x, tt, n)
                r.append((np.array(S), np.array(W), tt.n_points))
            out.append(r)
        m.ev("scaled_twins")
        for (S, W, n), (S2, W2, n2) in zip(*out):
            if np.isnan(W).any() or not W.sum() > 0:
                continue
            ok = m.eq(n2, n, kind + ": scaling the target changes the evaluations", factor=c) and \
                m.close(S2, S, kind + ": scaling the target changes the samples", rtol=1e-6, atol=1e-9, factor=c)
            if ok:
                m.close(W2 / W2.sum(), W / W.sum(), kind + ": scaling the target changes the normalised weights", rtol=1e-6, atol=1e-12, factor=c)


def cases(tier):
    k = 1 if tier == "quick" else 15
    r = [("weights-%s-%d" % (s, b), adaptive, dict(kind=s, reps=12 * k)) for b in range(3) for s in SM.MIXTURE_IS]
    r += [("shells-%s-%d" % (s, b), shells, dict(kind=s, reps=15 * k)) for b in range(2) for s in ("nested", "multinested")]
    r += [("cells-%s-%d" % (s, b), cells, dict(kind=s, reps=12 * k)) for b in range(2)
          for s in ("hidaisee", "tp_haar", "tp_haar_leaf", "tp_ess", "tp_ess_leaf")]
    r += [("long-%s" % s, adaptive, dict(kind=s, reps=2 * k, long=True)) for s in SM.MIXTURE_IS]
    r += [("long-nested-%d" % b, shells, dict(kind="nested", reps=4 * k, long=True)) for b in range(2)]
    r += [("long-%s" % s, cells, dict(kind=s, reps=k, long=True)) for s in ("hidaisee", "tp_haar", "tp_haar_leaf", "tp_ess", "tp_ess_leaf")]
    r += [("long-multinested", shells, dict(kind="multinested", reps=4 * k, long=True))]
    r += [("law-%s" % s, law, dict(kind=s, reps=40 * k)) for s in SM.MIXTURE_IS]
    r += [("kernels-%s-%d" % (s, b), drawn, dict(kind=s, reps=6 * k)) for b in range(2) for s in ("tp_normal", "tp_normal_leaf")]
    r += [("scale-%s" % s, scale, dict(kind=s, reps=12 * k)) for s in
          ("dm", "lais", "mpmc", "mh", "nested", "multinested", "tp_haar", "tp_haar_leaf", "tp_ess", "tp_ess_leaf", "tp_normal_leaf")]
    return r
