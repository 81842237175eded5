import math
import numpy as np
from scipy.stats import norm
from vlib import samplers as SM
from vlib import stats
from vlib import targets as T

RULE = "one monitored execution per request to a method that exposes a kernel estimate, whose kernels are counted through densities at and around the samples"
ASSUMPTIONS = ["the bandwidth is small enough for the kernels of different samples not to overlap, so that densities at the samples count kernels",
               "requests without any sample expose no density"]
LONG = {"rejection": 3000, "mh": 2600, "nested": 400, "multinested": 300}
KINDS = ["rejection", "mh", "nested", "multinested"]


def kernels(m, s, kind, S, K, bw, rng, tag):
    """Number of kernels at every distinct sample, read off the exposed density; None where it cannot be told."""
    d = S.shape[1]
    U, inv, mult = np.unique(S, axis=0, return_inverse=True, return_counts=True)
    inv = inv.reshape(-1)
    if len(U) > 1:
        near = min(float(np.min(np.abs(U[1:] - U[:-1]).max(axis=1))) if d == 1 else
                   min(float(np.min(np.abs(U[i + 1:] - U[i]).max(axis=1))) for i in range(len(U) - 1)), 1e300)
        if near < 14 * math.sqrt(bw):
            m.ev("kernels_overlap")
            return None
    top = (2 * math.pi * bw) ** (-d / 2) / K
    c = np.array(s.prob(U.copy())).reshape(-1) / top
    n = np.rint(c)
    m.ev("densities", len(U))
    m.ok(np.all(np.abs(c - n) < 1e-6 * np.maximum(n, 1)), tag + "densities at the samples are not multiples of the density of one kernel", got=c, bandwidth=bw, kernels=K)
    m.eq(int(n.sum()), K, tag + "kernels at the samples are not as many as configured", samples=len(S))
    # their shape
    i = rng.permutation(np.flatnonzero(n > 0))[:8]
    if len(i):
        Y = U[i] + math.sqrt(bw) * rng.normal(size=(len(i), d)) * rng.uniform(.1, 2.)
        z = ((Y - U[i]) ** 2).sum(axis=1) / bw
        m.ev("shapes", len(i))
        m.close(np.array(s.prob(Y)).reshape(-1) / top, n[i] * np.exp(-z / 2), tag + "shape of a kernel", rtol=1e-6, bandwidth=bw)
        m.close(np.array(s.log_prob(Y)).reshape(-1), np.log(n[i]) - z / 2 + math.log(top), tag + "log density of a kernel", rtol=1e-6, atol=1e-6)
    return inv, mult, n


def session(m, rng, kind, reps, long):
    tag = kind + ": "
    place, blocks, ends, pairs, single = [], [], [], [], []
    for _ in range(reps):
        K = int(rng.choice([1, 2, 7, 40, 150] if not long else [200, 400]))
        lo, hi, dk = T.domain(rng, int(rng.choice([1, 1, 2, 3])) if kind != "rejection" else int(rng.choice([1, 2])))
        w = float(np.min(np.asarray(hi, float) - lo))
        t = T.make(str(rng.choice(["gauss", "gmm", "half", "ridge", "corner"])), rng, lo, hi, truncate=bool(rng.random() < .5))
        bw = (w * float(rng.choice([1e-7, 3e-8, 1e-8] if not long else [1e-10, 3e-11]))) ** 2
        s, p = SM.random(kind, rng, lo, hi, t, kde_bw=bw, n_samples_kde=K)
        n, S, W = 0, np.zeros((0, len(lo))), []
        for step in range(int(rng.integers(2, 8)) if not long else 3):
            op = str(rng.choice(["request", "request", "request", "request", "short", "reset", "draw"])) if not long or step else "request"
            if op == "reset":
                s.reset()
                n, S = 0, np.zeros((0, len(lo)))
                continue
            if op == "draw":
                if len(S):
                    s.sample(3)
                continue
            m.trial(kind, dk, lo, hi, K, bw, op, n)
            S, W, _ = SM.request(s, t, len(S) + int(rng.choice([1, 2, 5, 20, 60] if not long or step else [LONG[kind], LONG[kind] // 3])), limit=(4000 if not long else 60000) if op == "request" else 9)
            S = np.array(S, float).reshape(-1, len(lo))
            if not len(S):
                m.ev("requests_without_samples")
                continue
            m.ev("estimates")
            m.state(kind, K, len(S), dk)
            r = kernels(m, s, kind, S, K, bw, rng, tag)
            if r is None:
                continue
            inv, mult, c = r
            N = len(S)
            if N >= K >= 2 and np.sum((mult / N) ** 2) < 3 / N:  # kernels of one estimate at one and the same sample
                q, e = mult / N, float(np.sum((mult / N) ** 2))
                pairs.append((float(np.sum(c * (c - 1)) / 2), K * (K - 1) / 2 * e,
                              K * (K - 1) / 2 * (e - e * e) + K * (K - 1) * (K - 2) * float(np.sum(q ** 3) - e * e)))
            # which of the samples: a kernel at coinciding samples is given to one of them at random
            begin = len(place)
            for u in np.flatnonzero(c > 0):
                at = np.flatnonzero(inv == u)
                for i in rng.choice(at, int(c[u])):
                    place.append((i + rng.random()) / N)
                    if N >= 2:
                        ends.append((1 / N, i == 0, i == N - 1))
                    if N >= 12:
                        blocks.append((int(i % 2), int(i % 3), N, N // 2 * 2, N // 3 * 3, N, int(i)))
            if len(place) - begin >= 100:
                single.append(stats.ks(place[begin:], "uniform"))
    return place, blocks, ends, pairs, single


def run(m, rng, kind, reps, long=False):
    acc = {}

    def data(k):
        if k not in acc:
            acc[k] = session(m, rng, kind, reps * k, long)
            m.ev("kernels_located", len(acc[k][0]))
        return acc[k]
    tag = kind + ": "
    if not data(1)[0]:
        return
    stats.confirmed(m, lambda k: stats.ks(data(k)[0], "uniform"), tag + "kernels are not placed evenly over the samples obtained so far")

    stats.confirmed(m, lambda k: min([1.] + [p * len(data(k)[4]) for p in data(k)[4]]), tag + "kernels of one estimate are not placed evenly over the samples obtained so far")

    def pp(k):
        e = np.array(data(k)[3], float).reshape(-1, 3)
        v = e[:, 2].sum()
        return float(2 * norm.sf(abs(np.sum(e[:, 0] - e[:, 1])) / math.sqrt(v))) if v > 100 else 1.
    stats.confirmed(m, pp, tag + "kernels of one estimate are not chosen independently")
    for j, what in ((1, "first"), (2, "latest")):
        def pe(k):
            e = np.array(data(k)[2], float).reshape(-1, 3)
            v = np.sum(e[:, 0] * (1 - e[:, 0]))
            return float(2 * norm.sf(abs(np.sum(e[:, j] - e[:, 0])) / math.sqrt(v))) if v > 20 else 1.
        stats.confirmed(m, pe, tag + "the %s sample is not chosen as often as the others" % what)
    for mod, j in ((2, 0), (3, 1)):
        def pv(k):
            b = [x for x in data(k)[1] if x[6] < x[3 + j]]
            return stats.chi2(np.bincount([x[j] for x in b], minlength=mod), np.ones(mod)) if len(b) > 30 * mod else 1.
        stats.confirmed(m, pv, tag + "every %dth sample is preferred as a kernel" % mod)


def cases(tier):
    k = 1 if tier == "quick" else 15
    return [("%s-%d" % (s, b), run, dict(kind=s, reps=12 * k)) for s in KINDS for b in range(3)] + \
           [("long-%s" % s, run, dict(kind=s, reps=(8 if s in ("rejection", "mh") else 4) * k, long=True)) for s in KINDS]
