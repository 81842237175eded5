import numpy as np
from vlib import samplers as SM
from vlib import targets as T

RULE = "one monitored execution per history of a sampling method whose efficiency is compared with the set it returned"
ASSUMPTIONS = ["the autocorrelation estimate is the one the code cites: variogram against the variance, summed until the first negative pair"]
UNWEIGHTED = ["rejection", "mh"]
ENTROPY = ["nested", "multinested"]


def weights_ness(w):
    w = w / w.max()
    return w.sum() ** 2 / (w * w).sum() / len(w)


def entropy_ness(w):
    w = w[w > 0] / w.sum()
    return np.exp(-(w * np.log(w)).sum())


def chain_ness(x):
    """n over the integrated autocorrelation of the sequence, about the mean of every dimension; and whether it is well conditioned."""
    n = len(x)
    if n < 2:
        return 1., True
    v = ((x - x.mean(0)) ** 2).sum() / (n - 1)
    if v == 0:
        return np.nan, False
    rho, clear = [], True
    for t in range(1, n):
        rho.append(1 - ((x[t:] - x[:n - t]) ** 2).sum() / (n - t) / 2 / v)
        if t % 2 == 0:
            clear = clear and abs(rho[-1] + rho[-2]) > 1e-9
            if rho[-1] + rho[-2] < 0:
                break
    q = 1 + 2 * sum(rho)
    return 1 / q if q else np.inf, clear and abs(q) > 1e-6


def judge(m, tag, kind, s, S, W):
    m.ev("readings")
    n = len(W)
    with np.errstate(all="ignore"):
        a = float(s.get_NESS())
    if kind in UNWEIGHTED:
        b, clear = chain_ness(np.asarray(S, float))
        if clear:
            m.close(a, b, tag + "efficiency against the autocorrelations of the returned sequence", rtol=1e-5)
        return a
    w = np.asarray(W, float)
    if kind in ENTROPY:
        b = entropy_ness(w) / n
    else:
        b = weights_ness(w)
    if np.isfinite(b):
        m.close(a, b, tag + "efficiency against the returned weights", rtol=1e-6)
        m.ok(1. / n - 1e-9 <= a <= 1 + 1e-9, tag + "efficiency outside of [1/n, 1]", got=a, n=n)
        if kind.startswith("tp"):
            m.close(float(s.get_stats()["NESS"]), a, tag + "efficiency in the statistics", rtol=1e-9)
    return a


def run(m, rng, kind, reps):
    tag = kind + ": "
    for _ in range(reps):
        s, p, t, lo, hi, lab = SM.scenario(rng, kind, dims=(1, 2, 2, 3))
        plan = SM.sizes(kind, p, rng, int(rng.integers(1, 5)))
        m.trial(*lab, str(p), tuple(plan))
        m.state(*lab)
        for n in plan:
            if rng.random() < .15:
                s.reset()
            S, W, _ = SM.request(s, t, n)
            if not len(S) or not np.asarray(W).sum() > 0:
                continue
            st = np.random.get_state()[1].copy()
            a = judge(m, tag, kind, s, S, W)
            k = s.get_stats()
            k = (k["proposal_samples"], k["proposal_evals"], k["target_evals"], k["n_samples"])
            m.ok((a == float(s.get_NESS())) or not np.isfinite(a), tag + "reading the efficiency again gives another value")
            k2 = s.get_stats()
            m.ok(k == (k2["proposal_samples"], k2["proposal_evals"], k2["target_evals"], k2["n_samples"]), tag + "reading the efficiency changes the counters")
            m.ok((st == np.random.get_state()[1]).all(), tag + "reading the efficiency uses random numbers")


def equal(m, rng, kind, reps):
    """Equal weights have efficiency one: a target equal to (or flat under) what the method draws from."""
    tag = kind + ": "
    for _ in range(reps):
        d = int(rng.choice([1, 2, 3]))
        lo, hi, dk = T.domain(rng, d)
        t = T.make("flat", rng, lo, hi, float(rng.choice([1e-3, 1, 1e3])))
        s, p = SM.random(kind, rng, lo, hi, t)
        n = int(rng.choice([3, 20, 60]))
        m.trial(kind, dk, str(p), n)
        m.state(kind, dk, d)
        S, W, _ = SM.request(s, t, n)
        if not len(S) or not np.asarray(W).sum() > 0:
            continue
        judge(m, tag, kind, s, S, W)
        w = np.asarray(W)
        if np.ptp(w) <= 1e-12 * w.max():
            m.ev("equal_weights")
            m.close(float(s.get_NESS()), 1., tag + "efficiency of equal weights", rtol=1e-9)


def large(m, rng, kind, reps):
    """Sets of thousands of samples."""
    for _ in range(reps):
        d = int(rng.choice([1, 2]))
        lo, hi, dk = T.domain(rng, d)
        t = T.make(str(rng.choice(["gauss", "gmm"])), rng, lo, hi)
        s, p = SM.random(kind, rng, lo, hi, t)
        p.update({k: v for k, v in dict(N=2, K=100, N_s=100).items() if k in p})
        s = SM.make(kind, lo, hi, p)
        n = int(rng.choice([2500, 4000]))
        m.trial("large", kind, dk, str(p), n)
        m.state("large", kind, d)
        S, W, _ = SM.request(s, t, n, 10 ** 6)
        if len(S) and np.asarray(W).sum() > 0:
            judge(m, kind + ": ", kind, s, S, W)


def sequence(m, rng, reps):
    """The efficiency of chains with known autocorrelation, in any dimension, wherever they are and in whatever unit."""
    for _ in range(reps):
        d = int(rng.choice([1, 2, 3, 5]))
        kind = str(rng.choice(UNWEIGHTED))
        n = int(rng.choice([2, 3, 10, 100, 1500, 3000]))
        r = float(rng.choice([0, 0, .5, .8, .97, .995]))
        z = rng.standard_normal((n, d))
        for i in range(1, n):
            z[i] = r * z[i - 1] + np.sqrt(1 - r * r) * z[i]
        shift = rng.uniform(-1, 1, d) * 10. ** rng.integers(0, 4)
        unit = 10. ** rng.integers(-3, 4)
        m.trial(kind, d, n, r, z)
        m.state(kind, d, n, r)
        lo, hi = -np.ones(d), np.ones(d)
        s, _ = SM.random(kind, rng, lo, hi, T.make("flat", rng, lo, hi))
        with np.errstate(all="ignore"):
            s.samples, s.weights = z.copy(), np.ones(n) / n
            a = float(s.get_NESS())
            s.samples = (z + shift) * unit
            b = float(s.get_NESS())
        e, clear = chain_ness(z)
        m.ev("sequences")
        if clear and np.isfinite(e):
            m.close(a, e, "efficiency of a sequence", rtol=1e-6, d=d, n=n, correlation=r)
            m.ok(abs(b - a) <= 1e-5 * abs(a) * max(1, abs(a)), "the efficiency depends on where the samples are or on their unit", d=d, n=n, got=b, expected=a, shift=shift, unit=unit)
        if n >= 1500 and r < .9:
            x = (1 - r) / (1 + r)
            m.ok(.4 * x < b < 2.5 * x, "efficiency of a long sequence far from its known value", got=b, expected=x, d=d)


def cases(tier):
    k = 1 if tier == "quick" else 12
    return [("%s-%d" % (s, b), run, dict(kind=s, reps=8 * k)) for b in range(2) for s in SM.KINDS] \
        + [("equal-%s" % s, equal, dict(kind=s, reps=4 * k)) for s in SM.KINDS if s not in UNWEIGHTED] \
        + [("large-%s" % s, large, dict(kind=s, reps=k)) for s in ("dm", "mpmc", "lais")] \
        + [("sequence-%d" % b, sequence, dict(reps=40 * k)) for b in range(2)]
