import numpy as np
from vlib import samplers as SM
from vlib import stats
from vlib import targets as T

RULE = "one monitored execution per independent run of a method, whose self-normalised averages are compared with quadrature"
ASSUMPTIONS = ["targets are truncated to the domain and not extremely peaked; biases below the allowance per method (2 to 8 percent of the "
               "standard deviation of the averaged function, 15 for Gaussian-kernel tree pyramids, 35 for multi-nested sampling) are not reported",
               "tree pyramid methods dm/mixture are excluded"]
CPU_LIMIT = 400

# samples per run, allowance in standard deviations of f, overrides
CFG = {
    "dm": (300, .03, dict(K=10, N=5)), "lais": (200, .04, dict(K=4, N=5, L=3)), "mpmc": (600, .06, dict(K=200, N=2)),
    "rejection": (300, .005, {}), "mh": (150, .05, dict(n_burnin=80, n_steps=4)), "hidaisee": (300, .07, {}),
    "tp_haar": (300, .05, dict(ess_target=None)), "tp_haar_leaf": (200, .02, dict(ess_target=None)),
    "tp_ess": (250, .06, {}), "tp_ess_leaf": (250, .06, {}), "tp_normal": (300, .15, dict(ess_target=None)),
    "tp_normal_leaf": (300, .15, dict(ess_target=None)), "nested": (200, .08, dict(N=40)), "multinested": (200, .35, dict(N=60)),
}


def run(m, rng, kind, d, tk, dom, R, over2=None):
    lo, hi, _ = T.domain(rng, d, dom)
    t = T.make(tk, rng, lo, hi, c=float(rng.choice([1., 3.])) if kind not in ("rejection", "hidaisee") else 1., truncate=True)
    lo_, hi_ = np.asarray(lo, float), np.asarray(hi, float)
    a = lo_ + (hi_ - lo_) * .5
    fs = {"mean of the first coordinate": lambda x: x[:, 0], "second moment of the last coordinate": lambda x: (x[:, -1] - lo_[-1]) ** 2,
          "probability of a half space": lambda x: (x[:, 0] > a[0]) * 1.}
    names, f = list(fs), list(fs.values())
    truth, Z = t.moments(f, lo_, hi_)
    m2, _ = t.moments([lambda x, g=g: g(x) ** 2 for g in f], lo_, hi_)
    sd = np.sqrt(np.maximum(np.array(m2) - np.array(truth) ** 2, 1e-12))
    n, allow, over = CFG[kind]
    W2 = float(np.min(hi_ - lo_)) ** 2
    over = dict(over, **(over2 or {}))
    if kind == "mh":
        over["proposal_sigma"] = .06 * W2
    if kind == "nested":
        over["proposal"] = 'CMultivariateUniform({"center": np.zeros(self.ndims), "radius": (self.space_max-self.space_min)*1.0})'
    if kind == "rejection":
        over["scaling"] = float(np.exp(t.lp(rng.uniform(lo_, hi_, (20000, d)))).max()) * float(np.prod(hi_ - lo_)) * 1.3
    p = SM.defaults(kind, lo, hi)
    p.update(over)
    m.state(kind, d, tk, dom)
    chunks = int(rng.integers(1, 4))
    memo = {}

    def runs(k):
        if k not in memo:
            out = []
            for r in range(R * k):
                m.trial(kind, d, tk, dom, k, r)
                s = SM.make(kind, lo, hi, p)
                for c in range(chunks):
                    S, W, late = SM.request(s, t, n * (c + 1) // chunks, limit=200000)
                m.ev("samples", len(S))
                S, W = np.asarray(S, float), np.asarray(W, float)
                if not m.ok(np.isfinite(W).all() and W.sum() > 0, kind + ": unusable weights"):
                    return np.zeros((0, len(f)))
                out.append([np.sum(W * g(S)) / W.sum() for g in f])
            memo[k] = np.array(out)
        return memo[k]
    for j, nm in enumerate(names):
        stats.confirmed(m, lambda k: stats.t_mean(runs(k)[:, j] / sd[j], truth[j] / sd[j], allow),
                        kind + ": biased estimate of the " + nm, target=tk, dims=d, domain=dom, truth=truth[j], sd=sd[j],
                        mean=float(np.mean(runs(1)[:, j])))


def boundary_atoms(m, rng, kind):
    """Nested replacement points are clipped to the domain: a target with mass at the boundary gets atoms on it."""
    lo, hi, _ = T.domain(rng, 1, "unit")
    t = T.make("corner", rng, lo, hi, truncate=True)
    m.trial(kind, "corner")
    s = SM.make(kind, lo, hi, SM.defaults(kind, lo, hi))
    S, W, _ = SM.request(s, t, 150)
    W = np.asarray(W, float)
    edge = np.any((np.asarray(S) == lo) | (np.asarray(S) == hi), axis=1)
    m.ev("boundary_points", edge.sum())
    m.ok(edge[~edge].sum() == 0 and len(edge) == len(W), "shape")
    if edge.any() and W[edge].sum() > 0:
        m.known_finding("nested-clip-" + kind, "weighted points exactly on the boundary of the domain")


def cases(tier):
    R = 24 if tier == "quick" else 150
    r = [("atoms-" + k, boundary_atoms, dict(kind=k)) for k in ("nested", "multinested")]
    for i, kind in enumerate(SM.KINDS):
        for d, tk, dom in [(1, "gauss", "aniso"), (2, "gauss", "offset"), (1, "gmm", "int"), (2, "half", "unit")] + \
                ([(1, "corner", "wide"), (2, "gmm", "unit"), (2, "ridge", "offset"), (1, "half", "tiny")] if tier != "quick" else []):
            if kind == "mpmc" and (tk != "gauss" or dom == "wide"):
                continue  # blocks of few effective samples are normalised on their own: slow convergence
            if kind in ("multinested",) and tk != "gauss":
                continue
            if kind in ("nested",) and (tk in ("half", "corner") or d > 1 and tk in ("gmm", "ridge")):
                continue  # proposals are clipped to the domain (known finding), plateaus
            if dom in ("wide", "tiny") and kind in ("mh",):
                continue
            if kind.startswith("tp_normal") and (d > 1 or dom not in ("int", "unit", "offset", "aniso")):
                continue
            r.append(("%s-%d-%s-%s" % (kind, d, tk, dom), run, dict(kind=kind, d=d, tk=tk, dom=dom, R=R)))
    # coarse partitions: many points per cell
    for kind in ("tp_ess", "tp_ess_leaf", "hidaisee"):
        for d, tk, dom in [(1, "gauss", "int"), (1, "half", "offset"), (2, "box", "unit"), (1, "box", "aniso")]:
            over = dict(target_ess=.5, n_min=60) if kind == "hidaisee" else dict(ess_target=.5, n_min=60, parallel_samples=8)
            r.append(("coarse-%s-%d-%s" % (kind, d, tk), run, dict(kind=kind, d=d, tk=tk, dom=dom, R=R, over2=over)))
    return r
