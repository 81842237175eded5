import math
import numpy as np
import scipy.stats as st
from vlib import samplers as SM
from vlib import stats
from vlib import targets as T

RULE = "one monitored execution per request of a nested search; every evaluated candidate is replayed against the live points"
ASSUMPTIONS = ["clusters are read from the ellipsoids attribute of the multi-ellipsoid variant"]
KINDS = ("gauss", "gmm", "half", "ridge", "corner", "laplace", "box")


class Increments:
    """Configured increments, recorded."""

    def __init__(self, kind, d, sd):
        self.kind, self.d, self.sd, self.log = kind, d, sd * np.ones(d), []

    def sample(self, n=1):
        x = np.random.standard_normal((n, self.d)) if self.kind == "normal" else np.random.uniform(-2, 2, (n, self.d)) if self.kind == "uniform" \
            else np.random.exponential(1, (n, self.d)) * np.random.choice([-1, 1, 1], (n, self.d))
        x = x * self.sd
        self.log += list(x)
        return x.copy()


def evaluations(s, t, n):
    ev = []
    prev, t.on_eval = t.on_eval, lambda x: ev.append(np.array(x, float))
    try:
        S, W, late = SM.request(s, t, n, limit=6000)
    finally:
        t.on_eval = prev
    return np.array(S, float), ev, late


def take(m, live, vals, row, among, tag):
    """Which of the least likely points was put out."""
    lo = np.min(vals[among])
    k = [i for i in among if np.array_equal(live[i], row)]
    if not m.ok(len(k) > 0 and any(vals[i] == lo for i in k), tag + "the point put out is not the least likely live point", row=row, value=lo):
        return None, lo
    return [i for i in k if vals[i] == lo][0], lo


def run(m, rng, reps, acc, requests=4, inner=False):
    tag = "nested: "
    for _ in range(reps):
        s, p, t, lo, hi, lab = SM.scenario(rng, "nested", dims=(1, 2, 2, 3, 4), targets=KINDS if not inner else ("gauss", "laplace"), c=(1., 1e-6, 1e6))
        d = len(lo)
        lo_, hi_ = np.asarray(lo, float), np.asarray(hi, float)
        w = hi_ - lo_
        inc = Increments(str(rng.choice(["normal", "uniform", "lopsided"])), d, w * float(rng.choice([.03, .1, .3])) if not inner else w * .02)
        p = dict(p, proposal=SM.inject(inc), N=int(rng.choice([1, 2, 7, 20, 40])) if not inner else 24)
        s = SM.make("nested", lo, hi, p)
        live = None
        S = np.zeros((0, d))
        for n in (SM.sizes("nested", p, rng, requests) if not inner else [60, 160, 300]):
            if rng.random() < .15 and len(S):
                s.reset()
                live, S = None, np.zeros((0, d))
                m.ev("resets")
            m.trial(*lab, str({k: v for k, v in p.items() if k != "proposal"}), inc.kind, n)
            m.state(*lab, inc.kind, p["N"])
            inc.log.clear()
            n0 = len(S)
            S, ev, late = evaluations(s, t, n0 + n)
            if not ev:
                continue
            if not m.ok(ev[0].shape == (p["N"], d), tag + "a request does not begin with the live points", got=ev[0].shape):
                return
            if live is not None:
                m.ok(np.array_equal(ev[0], live), tag + "the live points are not those left by the last request")
            else:
                acc["start"].append((ev[0] - lo_) / w)
                m.ok(np.all(ev[0] >= lo_) and np.all(ev[0] <= hi_), tag + "live points outside of the domain")
            live = ev[0].copy()
            vals = np.exp(t.lp(live))
            c = [x for e in ev[1:] for x in e]
            if not m.eq(len(c), len(inc.log), tag + "candidates evaluated and increments drawn"):
                return
            k = 0
            for j, row in enumerate(S[n0:]):
                i, L = take(m, live, vals, row, np.arange(len(live)), tag)
                if i is None:
                    return
                bases = np.ones(len(live), bool)
                x = v = None
                first = k
                while k < len(c):
                    x, v = c[k], float(np.exp(t.lp(c[k])[0]))
                    want = live + inc.log[k]
                    cut = np.clip(want, lo_, hi_)
                    bases &= np.all(np.abs(cut - x) <= 1e-9 * w + 1e-12 * np.abs(lo_), axis=1)
                    m.ev("candidates")
                    k += 1
                    if v >= L:
                        break
                if late and (v is None or v < L):
                    break
                if k == first:
                    m.fail(tag + "a point is put out but not replaced", row=row)
                    return
                m.ev("replacements")
                m.ok(bases.any(), tag + "candidates are not increments of one live point cut to the domain", candidate=x, first=c[first], increment=inc.log[first])
                if not v >= L:
                    m.ok(late, tag + "a replacement less likely than the point it replaces", replacement=v, replaced=L)
                if bases.sum() == 1 and len(live) > 1:
                    b = int(np.flatnonzero(bases)[0])
                    acc["index"].append(b / len(live))
                    acc["rank"].append((np.sum(vals < vals[b])) / len(live))
                    acc["chain"].append(b)
                live[i], vals[i] = x, v
            else:
                m.eq(k, len(c), tag + "candidates evaluated beyond the first that is likely enough")
                if hasattr(s, "live_points"):
                    m.ok(np.array_equal(np.array(s.live_points, float), live), tag + "a replacement is not the first candidate that is likely enough")
            if late:
                break
        again(s, t, p, lo_, w, acc)


def again(s, t, p, lo, w, acc):
    """The live points after resets."""
    for k in range(4):
        s.reset()
        ev = evaluations(s, t, (2 * p["N"], 1)[k % 2])[1]
        acc["again"].append((ev[0] - lo) / w)


def even(m, data, tag):
    def uniform(key):
        def f(k):
            ps = [1.]
            for d in (1, 2, 3, 4):
                X = [x for x in data(k)[key] if x.shape[1] == d]
                X = np.concatenate(X) if X else np.zeros((0, d))
                if len(X) > 20:
                    ps += [stats.ks(X[:, j], "uniform") for j in range(d)]
                    ps += [st.binom.sf(np.sum(np.abs(X - .5) >= .5) - 1, X.size, 1e-4), min([1.] + [len(X) * stats.ks(x[:, j], "uniform") for x in data(k)[key] if len(x) > 10 and x.shape[1] == d for j in range(d)])]
                    ps += [stats.z(np.mean((X[:, i] - .5) * (X[:, j] - .5)), 0, 1 / 12 / math.sqrt(len(X))) for i in range(d) for j in range(i)]
            return min(ps)
        return f
    stats.confirmed(m, uniform("start"), tag + "the first live points are not uniform in the domain")
    stats.confirmed(m, uniform("again"), tag + "the live points after a reset are not uniform in the domain")


def nested(m, rng, reps, inner=False):
    memo = {}

    def data(k):
        if k not in memo:
            memo[k] = dict(start=[], index=[], rank=[], chain=[], again=[])
            run(m, rng, reps * k, memo[k], inner=inner)
        return memo[k]
    if not data(1)["start"]:
        return

    even(m, data, "nested: ")
    if inner:
        for key in ("index", "rank"):
            stats.confirmed(m, lambda k: stats.chi2(np.histogram(data(k)[key], np.linspace(0, 1, 9))[0], np.ones(8)) if data(k)[key] else 1.,
                            "nested: the live point a search starts from is not chosen evenly (%s)" % key)

        def serial(k):
            y = np.array(data(k)["chain"], float)
            y = y - y.mean()
            return stats.z(np.sum(y[1:] * y[:-1]) / np.sum(y * y), 0, 1 / math.sqrt(len(y))) if len(y) > 50 and y.any() else 1.
        stats.confirmed(m, serial, "nested: the live points successive searches start from are dependent")


def mrun(m, rng, reps, acc, inner):
    tag = "multinested: "
    for _ in range(reps):
        s, p, t, lo, hi, lab = SM.scenario(rng, "multinested", dims=(1, 2, 2, 3) if not inner else (1, 2, 3), targets=KINDS if not inner else ("gauss",),
                                           c=(1., 1e-6, 1e6), dom="unit" if inner else None)
        d = len(lo)
        lo_, hi_ = np.asarray(lo, float), np.asarray(hi, float)
        w = hi_ - lo_
        if rng.random() < .5 or inner:
            p["converged_radius"] = 0.
        if inner:  # a narrow target in the middle: candidates never reach the limits of the domain
            t = T.gauss(d, rng.uniform(-.2, .2, d), float(rng.choice([.05, .2])))
            p = dict(p, inflate_factor=float(rng.choice([.5, 1., 1.7, 4.])), N=int(rng.choice([20, 40])))
        s = SM.make("multinested", lo, hi, p)
        live = None
        S = np.zeros((0, d))
        for n in (SM.sizes("multinested", p, rng, 3) if not inner else [10, 60, 60, 100]):
            if rng.random() < .15 and len(S) and not inner:
                s.reset()
                live, S = None, np.zeros((0, d))
                m.ev("resets")
            m.trial("multi", *lab, str(p), n)
            n0 = len(S)
            S, ev, late = evaluations(s, t, n0 + n)
            if not m.ok(len(ev) > 0 and ev[0].shape == (p["N"], d), tag + "a request does not begin with the live points"):
                return
            if live is not None:
                m.ok(np.array_equal(ev[0], live), tag + "the live points are not those left by the last request")
            else:
                acc["start"].append((ev[0] - lo_) / w)
            if not hasattr(s, "ellipsoids"):
                m.ev("internals_unavailable")
                return
            if late:
                break
            live, vals = ev[0].copy(), np.exp(t.lp(ev[0]))
            begin = live.copy()
            E = [(np.flatnonzero(np.asarray(e.indices)), float(e.volume) > p["converged_radius"] ** d, e) for e in s.ellipsoids]
            m.state(*lab, len(E))
            c = [x for e in ev[1:] for x in e]
            per, k, bad = (len(S) - n0) // len(E), 0, False
            for idx, searching, e in E:
                m.ev("clusters")
                m.ok(len(E) == 1 or len(idx) >= d + 1, tag + "a cluster of too few points", points=len(idx), dims=d)
                P = begin[idx]
                mean = P.mean(0)
                cov = (np.atleast_2d(np.cov(P, rowvar=False)) if d > 1 else np.var(P).reshape(1, 1)) * p["inflate_factor"] if len(P) > 1 else None
                first = k
                for row in S[n0:n0 + per]:
                    i, L = take(m, live, vals, row, idx, tag)
                    if i is None:
                        return
                    x, v = None, None
                    while k < len(c):
                        x, v = c[k], float(np.exp(t.lp(c[k])[0]))
                        k += 1
                        m.ev("candidates")
                        if v >= L or not searching:
                            break
                    if x is None:
                        m.fail(tag + "a point is not replaced")
                        return
                    m.ok(v >= L or not searching, tag + "a replacement less likely than the point it replaces", replacement=v, replaced=L)
                    m.ev("replacements")
                    live[i], vals[i] = x, v
                n0 += per
                C = np.array(c[first:k]).reshape(-1, d)
                if len(C) and cov is not None and np.linalg.det(cov) > 0 and np.linalg.cond(cov) < 1e6:
                    sd = np.sqrt(np.diag(cov))
                    a, b = st.norm.cdf(lo_, mean, sd), st.norm.cdf(hi_, mean, sd)
                    u = st.norm.cdf(C, mean, sd)
                    r = rng.random(C.shape)
                    u = np.where(C <= lo_, r * a, np.where(C >= hi_, b + r * (1 - b), u))
                    acc["pit"].append(u)
                    z = st.norm.ppf(np.clip(u[:, 0], 1e-12, 1 - 1e-12))
                    for B in (24, 160):  # the search stops by what it finds: completed by fresh draws a block has the law of one that does not
                        for q in range(0, len(z), B):
                            y = np.append(z[q:q + B], rng.standard_normal(max(0, q + B - len(z))))
                            acc["block"].append((st.chi2.cdf(np.sum(y ** 2), B), st.norm.cdf(y.sum() / math.sqrt(B)), B, q > 0))
                    if np.all(np.minimum(mean - lo_, hi_ - mean) > 7 * sd):
                        acc["white"].append(np.linalg.solve(np.linalg.cholesky(cov), (C - mean).T).T)
            m.eq(k, len(c), tag + "candidates evaluated beyond those of the replacements")
            m.ok(np.array_equal(np.array(s.live_points, float), live), tag + "a replacement is not the first candidate that is likely enough")
        again(s, t, p, lo_, w, acc)


def multi(m, rng, reps, inner=False):
    memo = {}

    def data(k):
        if k not in memo:
            memo[k] = dict(start=[], pit=[], white=[], block=[], again=[])
            mrun(m, rng, reps * k, memo[k], inner)
        return memo[k]
    if not data(1)["start"]:
        return
    even(m, data, "multinested: ")

    def pit(k):
        return stats.ks(np.concatenate([u.reshape(-1, u.shape[1])[:, 0] for u in data(k)["pit"]]), "uniform") if data(k)["pit"] else 1.

    def pit_last(k):
        return stats.ks(np.concatenate([u[:, -1] for u in data(k)["pit"]]), "uniform") if data(k)["pit"] else 1.
    def blocks(k):
        y = np.array(data(k)["block"]).reshape(-1, 4)
        m.ev("blocks_of_candidates", len(y))
        far = np.sum(np.abs(y[:, :2] - .5) > .5 - 5e-4, axis=0)
        return min([1.] + [stats.ks(x[:, i], "uniform") for B in (24, 160) for h in (0, 1) for i in (0, 1)
                           for x in [y[(y[:, 2] == B) & (y[:, 3] == h)]] if len(x) > 10] + [st.binom.sf(v - 1, len(y), 1e-3) for v in far])
    for f in (pit, pit_last, blocks):
        stats.confirmed(m, f, "multinested: candidates do not have the mean and inflated covariance of their cluster")

    def white(k):
        ps = [1.]
        for d in (1, 2, 3):
            Z = [z for z in data(k)["white"] if z.shape[1] == d]
            if not Z:
                continue
            Z = np.concatenate(Z)
            m.ev("whitened", len(Z))
            ps += [stats.ks(Z[:, j], st.norm.cdf) for j in range(d)]
            ps += [stats.z(np.mean(Z[:, i] * Z[:, j]), 0, 1 / math.sqrt(len(Z))) for i in range(d) for j in range(i)]
        return min(ps)
    stats.confirmed(m, white, "multinested: candidates are not Gaussian with the inflated covariance of their cluster")


def cases(tier):
    k = 1 if tier == "quick" else 12
    out = [("nested-%d" % b, nested, dict(reps=12 * k)) for b in range(4)] + [("starts-%d" % b, nested, dict(reps=10 * k, inner=True)) for b in range(2)]
    return out + [("multi-%d" % b, multi, dict(reps=10 * k)) for b in range(4)] + [("clusters-%d" % b, multi, dict(reps=10 * k, inner=True)) for b in range(2)]
