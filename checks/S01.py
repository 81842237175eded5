import numpy as np
from vlib import samplers as SM
from vlib import targets as T

RULE = ("one monitored execution per request made to a generated (method configuration, target, domain, dimension); every returned "
        "sample set is judged")
ASSUMPTIONS = ["tree pyramid options dm/mixture are declared unfinished by the code and excluded",
               "rejection sampling gets proposals on the domain", "targets have mass on the domain"]


def contract(m, kind, s, t, lo, hi, n, S, W, timed_out=False, p=None):
    d = len(lo)
    S, W = np.asarray(S), np.asarray(W)
    m.ev("points_returned", len(S))
    tag = kind + ": "
    if not m.ok(S.ndim == 2 and S.shape[1] == d, tag + "samples are an M-by-dimensions array", shape=S.shape, d=d):
        return
    if not m.ok(W.shape == (len(S),), tag + "exactly one weight per sample", samples=S.shape, weights=W.shape):
        return
    if not timed_out:
        m.ok(len(S) >= n, tag + "at least the requested number of samples", got=len(S), requested=n)
    m.ok(np.isfinite(S).all(), tag + "samples are finite")
    lp = t.lp(S) if len(S) else np.zeros(0)
    pos, dead = lp > -600, lp == -np.inf  # in between, the density may round to zero
    if kind in DOMAIN_:
        bad = np.any((S < np.asarray(lo, float) - 1e-9) | (S > np.asarray(hi, float) + 1e-9), axis=1)
        m.ok(not bad.any(), tag + "sample outside of the domain", x=S[np.argmax(bad)] if len(S) else None, lo=lo, hi=hi)
    if not pos.any():
        m.ev("sets_without_target_mass")
        return
    m.ok(np.isfinite(W).all(), tag + "weights are finite", W=W)
    m.ok((W >= 0).all(), tag + "weights are non-negative", W=W)
    m.ok((W > 0).any(), tag + "some weight is positive", W=W)
    if kind in SM.SELFNORM:
        m.ok(abs(W.sum() - 1) < 1e-8, tag + "weights sum to one", sum=W.sum())
    if kind in ("rejection", "mh"):
        m.close(W, np.full(len(S), 1 / len(S)), tag + "unweighted methods have equal weights")
    if kind == "mpmc" and p:
        for b in range(0, len(S), p["K"]):
            q = slice(b, b + p["K"])
            if pos[q].any():
                m.ok(abs(W[q].sum() - 1) < 1e-8, tag + "weights of each iteration sum to one", sum=W[q].sum())
            else:
                m.ok((W[q][dead[q]] == 0).all(), tag + "iterations without mass have no weight", W=W[q])

    if dead.any() and kind not in ("mh", "rejection"):
        m.ok((W[dead] == 0).all(), tag + "points without target density have no weight", W=W[dead])
    if t.bad:
        m.ok(False, tag + t.bad)


DOMAIN_ = SM.DOMAIN
TARGETS = ["gauss", "gmm", "half", "box", "flat", "ridge", "corner", "laplace"]


def run(m, rng, kind, reps, scale=1., first=0):
    for r in range(reps):
        d = int(rng.choice([1, 1, 2, 2, 3, 4]))
        if d > 2 and kind in ("rejection",):
            d = 2
        lo, hi, dk = T.domain(rng, d)
        tk = TARGETS[(first + r) % len(TARGETS)]
        if kind == "nested" and tk in ("flat", "box"):  # plateaus: the constrained region is never improved but still valid
            m.ev("plateau_targets")
        c = float(rng.choice([1., 1e-6, 1e5])) if kind != "rejection" else 1.
        t = T.make(tk, rng, lo, hi, c, truncate=bool(rng.random() < .5))
        s, p = SM.random(kind, rng, lo, hi, t)
        m.state(kind, d, dk, tk)
        for n in SM.sizes(kind, p, rng, 4, scale):
            m.trial(kind, d, dk, tk, str(p), n)
            S, W, late = SM.request(s, t, n)
            m.ev("requests")
            m.ev("requests_cut_short", late)
            contract(m, kind, s, t, lo, hi, n, S, W, late, p=p)
        if rng.random() < .4:
            s.reset()
            m.ev("resets")
            n = int(rng.integers(1, 30))
            m.trial(kind, "reset", n)
            S, W, late = SM.request(s, t, n)
            contract(m, kind, s, t, lo, hi, n, S, W, late, p=p)
        if rng.random() < .3:  # with a timeout that has already expired
            m.trial(kind, "expired")
            S, W = s.importance_sample(t, len(S) + 500, timeout=0)
            m.ev("expired_requests")
            contract(m, kind, s, t, lo, hi, 0, S, W, True, p=p)


def degenerate(m, rng, reps):
    """Multi-nested sampling when the live points lie on a line: the covariance of a cluster is singular up to rounding."""
    for _ in range(reps):
        d = int(rng.choice([1, 2, 2, 3]))
        lo, hi, dk = T.domain(rng, d, str(rng.choice(["unit", "offset", "aniso"])))
        t = T.make("gauss", rng, lo, hi, truncate=True)
        s, p = SM.random("multinested", rng, lo, hi, t)
        if not hasattr(s, "live_points"):
            return
        z, a, b = rng.uniform(0, 1, (len(s.live_points), 1)), rng.uniform(lo, hi), rng.uniform(lo, hi)
        s.live_points = np.asarray(a + (b - a) * z, float)
        m.state("degenerate", d, dk)
        for n in (1, 10, 30):
            m.trial("degenerate", d, dk, str(p), n)
            S, W, late = SM.request(s, t, n)
            contract(m, "multinested", s, t, lo, hi, n, S, W, late, p=p)


def cases(tier):
    k = 1 if tier == "quick" else 15
    heavy = {"tp_normal": 3, "tp_normal_leaf": 3}
    return [("%s-%d" % (s, b), run, dict(kind=s, reps=heavy.get(s, 6) * k, scale=1. if tier == "quick" else 3., first=heavy.get(s, 6) * k * b))
            for b in range(3) for s in SM.KINDS] + [("degenerate-%d" % b, degenerate, dict(reps=15 * k)) for b in range(2)]
