import numpy as np
from scipy.special import logsumexp
from vlib import ref as R

RULE = ("one monitored execution per weight vector set on a generated mixture; every execution evaluates density and log density at "
        "tens of points and probes aliasing with the caller's arrays")
ASSUMPTIONS = ["infinite weights are not considered"]


class Col:
    """A component that returns column vectors."""

    def __init__(self, q):
        self.q, self.dims = q, q.dims

    def log_prob(self, x):
        return self.q.log_prob(x).reshape(-1, 1)

    def prob(self, x):
        return self.q.prob(x).reshape(-1, 1)

    def sample(self, n=1):
        return self.q.sample(n)


def hostile(rng, k):
    w = rng.uniform(0, 1, k)
    t = rng.integers(12)
    if t == 10:  # nearly normalised
        w = w / w.sum() * (1 + rng.choice([-1, 1]) * 10.0 ** rng.uniform(-5, -1.5))
    elif t == 11:  # equal weights, repeated
        w = rng.choice([.1, .3], k)
    elif t == 0:
        w = w * rng.choice([1e-300, 1e-12, 1e12, 1e300])
    elif t == 1:
        w[rng.random(k) < .5] = 0
    elif t == 2:
        w[rng.random(k) < .5] = np.nan
    elif t == 3:
        w[rng.random(k) < .5] *= -1
    elif t == 4:
        w = rng.choice([0., np.nan, -1., -np.inf], k)
    elif t == 5:
        w = np.zeros(k)
    elif t == 6:
        w = w ** 40
    elif t == 7:
        w = rng.integers(-1, 5, k)  # integers
    elif t == 8:
        w = np.eye(k)[rng.integers(k)]
    return w


def judge(m, q, comps, w, X, tag):
    want_w = R.clean_weights(w)
    with np.errstate(all="ignore"):
        L = np.array([np.reshape(c.log_prob(X), -1) for c in comps])
        lw = logsumexp(L, b=want_w[:, None], axis=0)
        p, lp = np.asarray(q.prob(X)), np.asarray(q.log_prob(X))
    m.ev("points", len(X))
    m.eq((p.shape, lp.shape), ((len(X),),) * 2, tag + ": one value per point")
    tol = 1e-8 * np.maximum(1, np.abs(lw))
    dead = np.isneginf(lw)
    bad = np.where(dead, p != 0, ~(np.abs(p - np.exp(lw)) <= tol * np.exp(lw) + 1e-290))
    i = int(np.argmax(bad))
    m.ok(not bad.any(), tag + ": density is not the weighted sum of the components", w=w, x=X[i], got=p[i], expected=np.exp(lw[i]))
    bad = np.where(dead, ~np.isneginf(lp), ~(np.abs(lp - lw) <= tol))
    i = int(np.argmax(bad))
    m.ok(not bad.any(), tag + ": log density is not the weighted sum of the components", w=w, x=X[i], got=lp[i], expected=lw[i])


def history(m, rng, reps, steps, gmm=False):
    from ais_benchmarks import distributions as D
    for _ in range(reps):
        d, k = int(rng.integers(1, 5)), int(rng.choice([1, 2, 3, 5, 20, 70]))
        w = hostile(rng, k)
        if gmm:
            mu, var = rng.normal(0, 3, (k, d)), np.exp(rng.uniform(-4, 2, (k, d)))
            if rng.random() < .25:  # narrow or wide components
                var *= 10.0 ** rng.choice([-10., -7., 5.])
            refs = [R.RNormal(a, np.diag(b)) for a, b in zip(mu, var)]
            comps = [type("C", (), {"log_prob": staticmethod(r.logpdf)}) for r in refs]
            pw = w.tolist() if rng.random() < .3 else w
            keep = np.array(pw, float).copy()
            par = {"means": mu, "sigmas": var, "weights": pw, "support": [mu.min(0) - 9, mu.max(0) + 9]}
            if rng.random() < .35:  # without weights: all equal
                del par["weights"]
                pw = keep = np.ones(k)
                keep = pw.copy()
                m.ev("default_weights")
            q = D.CGaussianMixtureModel(par)
            setw = q.gmm.set_weights if hasattr(q, "gmm") else None
            box = np.array([mu.min(0) - 9, mu.max(0) + 9])
        else:
            ch = [R.build_unit(str(rng.choice(["normal", "uniform", "exponential", "gmm", "mixture"])), rng, d) for _ in range(k)]
            comps = [Col(c[0]) if rng.random() < .2 else c[0] for c in ch]
            pw = w.tolist() if rng.random() < .3 else w
            keep = np.array(pw, float).copy()
            box = R.RMixture([c[1] for c in ch], np.ones(k)).box(4)
            q = D.CMixtureModel({"models": comps, "weights": pw, "dims": d, "support": box})
            setw = q.set_weights
        at = mu[rng.integers(k, size=20)] + rng.normal(0, 1, (20, d)) * np.sqrt(var[rng.integers(k)]) if gmm else np.zeros((0, d))
        X = np.concatenate([at, rng.uniform(*box, (25, d)), rng.normal(0, 2, (20, d)), rng.normal(0, 300, (3, d))])
        m.trial("init", gmm, keep, X)
        judge(m, q, comps, keep, X, "constructor")
        m.ok(np.array_equal(np.array(pw, float), keep, equal_nan=True), "constructor changed the caller's weights", got=pw, given=keep)
        if isinstance(pw, np.ndarray):
            pw[...] = 7
            pw[0] = 99
            judge(m, q, comps, keep, X, "after the caller reused the weights array")
            m.ev("alias_probes")
        for t in range(steps if setw else 0):
            w = hostile(rng, k)
            keep = np.array(w, float).copy()
            if rng.random() < .2:
                ro = w.copy()
                ro.setflags(write=False)
                setw(ro)
                w = ro
            else:
                setw(w)
            m.ev("weight_updates")
            m.state(k, "".join("n" if np.isnan(v) else "-" if v < 0 else "0" if v == 0 else "+" for v in keep[:12]))
            m.trial("set", t, keep)
            m.ok(np.array_equal(np.array(w, float), keep, equal_nan=True), "set_weights changed the caller's array", got=w, given=keep)
            judge(m, q, comps, keep, X, "after set_weights")
            if w.flags.writeable:
                w[...] = 3
                w[-1] = 1000
                m.ev("alias_probes")
                judge(m, q, comps, keep, X, "after the caller reused the weights array")
            if rng.random() < .3:
                q.sample(3)
                judge(m, q, comps, keep, X, "after sampling")


def shared(m, rng, reps):
    """Mixtures sharing components or weight arrays do not influence each other."""
    from ais_benchmarks import distributions as D
    for _ in range(reps):
        d, k = int(rng.integers(1, 3)), int(rng.integers(2, 5))
        comps = [R.build_unit("normal", rng, d)[0] for _ in range(k)]
        w = rng.uniform(.1, 1, k)
        qs = [D.CMixtureModel({"models": comps, "weights": w, "dims": d, "support": [[-9] * d, [9] * d]}) for _ in range(3)]
        cur = [w.copy() for _ in qs]
        X = rng.normal(0, 2, (20, d))
        for t in range(8):
            i = int(rng.integers(3))
            cur[i] = hostile(rng, k)
            m.trial("shared", t, i, cur[i])
            m.ev("weight_updates")
            qs[i].set_weights(cur[i].copy())
            for q, c in zip(qs, cur):
                judge(m, q, comps, c, X, "mixtures sharing components")


def cases(tier):
    k = 1 if tier == "quick" else 20
    out = [("history-%d" % b, history, dict(reps=3 * k, steps=10)) for b in range(6)]
    out += [("gmm-%d" % b, history, dict(reps=12 * k, steps=8, gmm=True)) for b in range(3)]
    out += [("shared", shared, dict(reps=5 * k))]
    return out
