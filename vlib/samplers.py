"""Factories of every sampling method of the code under test, scaled to a domain, with hostile parameter variations."""
import numpy as np

KINDS = ["dm", "lais", "mpmc", "rejection", "mh", "nested", "multinested", "hidaisee", "tp_haar", "tp_haar_leaf", "tp_ess",
         "tp_ess_leaf", "tp_normal", "tp_normal_leaf"]
MIXTURE_IS = ["dm", "lais", "mpmc"]
TP = [k for k in KINDS if k.startswith("tp")]
CUMULATIVE = ["dm", "lais", "mpmc", "rejection", "mh", "nested", "multinested"]
DOMAIN = ["rejection", "mh", "nested", "multinested", "hidaisee"]
SELFNORM = ["dm", "lais", "nested", "multinested"]

REG = {}  # objects injected through the eval strings of the configuration


def inject(obj):
    k = "p%d" % len(REG)
    REG[k] = obj
    return "__import__('vlib.samplers', fromlist=['REG']).REG[%r]" % k


def defaults(kind, lo, hi, rng=None, small=False):
    """Parameters of the method; rng: random hostile variation, otherwise a sensible configuration."""
    lo, hi = np.asarray(lo, float), np.asarray(hi, float)
    w = hi - lo
    W = float(np.min(w))
    v = (lambda *a: a[int(rng.integers(len(a)))]) if rng is not None else (lambda *a: a[0])
    if kind == "dm":
        return dict(K=v(10, 1, 2, 5), N=v(5, 1, 2, 12), J=1000, sigma=(v(.2, .1, .5) * W) ** 2)
    if kind == "lais":
        return dict(K=v(3, 1, 2), N=v(5, 1, 3), J=1000, L=v(5, 1, 10), sigma=(v(.2, .1, .5) * W) ** 2, mh_sigma=(v(.2, .05, 1.) * W) ** 2)
    if kind == "mpmc":
        return dict(K=v(50, 1, 5, 20), N=v(10, 1, 3), J=1000, sigma=(v(.2, .05, .5) * W) ** 2)
    if kind == "rejection":
        return dict(scaling=v(1., 3., .5), kde_bw=(.1 * W) ** 2, n_samples_kde=v(40, 1, 7),
                    proposal='CMultivariateUniform({"center": (self.space_max+self.space_min)/2, "radius": (self.space_max-self.space_min)/2})')
    if kind == "mh":
        return dict(n_burnin=v(10, 0, 1, 30), n_steps=v(2, 1, 5), proposal_sigma=(v(.3, .05, 1.) * W) ** 2, kde_bw=(.1 * W) ** 2,
                    n_samples_kde=v(40, 1, 7))
    if kind in ("nested", "multinested"):
        p = dict(N=v(20, 2, 7, 40) if kind == "nested" else v(20, 30, 50), kde_bw=(.1 * W) ** 2, n_samples_kde=v(40, 1, 7),
                 proposal='CMultivariateNormal({"mean": np.zeros(self.ndims), "sigma": np.diag(np.ones(self.ndims) * %r)})' % ((v(.2, .1, .5) * W) ** 2))
        if kind == "multinested":
            p.update(converged_radius=v(.05, .2) * W, inflate_factor=v(1.1, 2.))
        return p
    if kind == "hidaisee":
        return dict(target_ess=v(.9, .5, .98), n_min=v(10, 2, 5), tau=v(.01, .1, 1.))
    if kind.startswith("tp"):
        return dict(method="simple", resampling="leaf" if kind.endswith("leaf") else "none",
                    kernel="normal" if "normal" in kind else "haar",
                    ess_target=v(.9, .5, .98) if "ess" in kind else v(None, 2.0), n_min=v(5, 2, 8), parallel_samples=v(32, 1, 4, 100))
    raise KeyError(kind)


def cls(kind):
    from ais_benchmarks import sampling_methods as SM
    from ais_benchmarks.sampling_methods import (dm_ais, layered_ais, m_pmc, rejection, metropolis_hastings, nested, multi_nested,
                                                 hi_daisee, tree_pyramid)
    return {"dm": dm_ais.CDeterministicMixtureAIS, "lais": layered_ais.CLayeredAIS, "mpmc": m_pmc.CMixturePMC,
            "rejection": rejection.CRejectionSampling, "mh": metropolis_hastings.CMetropolisHastings,
            "nested": nested.CNestedSampling, "multinested": multi_nested.CMultiNestedSampling,
            "hidaisee": hi_daisee.CHiDaiseeSampling}.get(kind, tree_pyramid.CTreePyramidSampling)


def make(kind, lo, hi, params):
    p = dict(params)
    p.update(space_min=lo, space_max=hi, dims=len(lo), name=kind)
    return cls(kind)(p)


def params(kind, rng, lo, hi, target=None, **over):
    p = defaults(kind, lo, hi, rng)
    if kind == "rejection" and target is not None:  # a valid envelope, sometimes loose
        X = rng.uniform(lo, hi, (4000, len(lo)))
        V = float(np.prod(np.asarray(hi, float) - lo))
        p["scaling"] = float(np.exp(target.lp(X).max())) * V * float(rng.choice([1.3, 2.5]))
    if "narrow" in over:  # kernel of nested sampling, as a fraction of the domain
        over = dict(over)
        p["proposal"] = 'CMultivariateNormal({"mean": np.zeros(self.ndims), "sigma": np.diag(np.ones(self.ndims) * %r)})' % \
            ((over.pop("narrow") * float(np.min(np.asarray(hi, float) - lo))) ** 2)
    p.update(over)
    return p


def random(kind, rng, lo, hi, target=None, **over):
    p = params(kind, rng, lo, hi, target, **over)
    return make(kind, lo, hi, p), p


def sizes(kind, p, rng, n=4, scale=1.):
    """A growing history of requests around the batch sizes of the method."""
    b = {"dm": p.get("K", 1) * p.get("N", 1), "lais": p.get("K", 1) * p.get("N", 1), "mpmc": p.get("K", 1)}.get(kind, 10)
    out, cur = [], 0
    for _ in range(n):
        cur += int(rng.choice([1, 2, b, b + 1, 2 * b, int(10 * scale) + 1, int(25 * scale) + 1]))
        out.append(cur)
    return out


def request(s, t, n, limit=4000):
    """One request on a virtual clock of target evaluations: methods that search for a long time stop after `limit` points.
    Returns samples, weights, whether the limit was reached."""
    from vlib.vclock import VirtualClock
    prev = t.on_eval
    with VirtualClock() as c:
        t0 = c.now

        def tick(x):
            c.advance(len(x))
            if prev is not None:
                prev(x)
        t.on_eval = tick
        try:
            S, W = s.importance_sample(t, n, timeout=limit)
        finally:
            t.on_eval = prev
        return S, W, c.now - t0 >= limit


def scenario(rng, kind, dims=(1, 1, 2, 2, 3), targets=("gauss", "gmm", "half", "box", "ridge", "corner", "laplace"), c=(1.,), dom=None,
             truncate=None, **over):
    """A random (sampler, params, target, lo, hi, label)."""
    from vlib import targets as T
    d = int(rng.choice(dims))
    if d > 2 and kind == "rejection":
        d = 2
    lo, hi, dk = T.domain(rng, d, dom)
    tk = str(rng.choice(targets))
    f = float(rng.choice(c)) if kind != "rejection" else 1.
    t = T.make(tk, rng, lo, hi, f, truncate=bool(rng.random() < .5) if truncate is None else truncate)
    s, p = random(kind, rng, lo, hi, t, **over)
    return s, p, t, lo, hi, (kind, d, dk, tk)


# number of points a long history has, by method (bounded by what the method costs per point)
LONG = {"dm": 4000, "lais": 3000, "mpmc": 4000, "rejection": 4000, "mh": 4000, "hidaisee": 1200, "tp_haar": 1200, "tp_haar_leaf": 900,
        "tp_ess": 3000, "tp_ess_leaf": 3000, "tp_normal": 900, "tp_normal_leaf": 700}


def long(kind, rng):
    return int(LONG[kind] * rng.uniform(.6, 1))


def fill(s, p, kind, t, rng, n=None):
    """A few requests so that the sampler has a history with target mass (bounded effort)."""
    S = W = None
    for n in sizes(kind, p, rng, int(rng.integers(1, 4))) if n is None else [n]:
        S, W, _ = request(s, t, n)
    return S, W
