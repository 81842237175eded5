import math
import numpy as np
import scipy.stats as st
from scipy.special import logsumexp
from vlib import samplers as SM
from vlib import targets as T
from vlib import ref, stats
from vlib.vclock import VirtualClock

RULE = "one monitored execution per iteration of an adaptive method whose proposals are snapshotted before and after it"
ASSUMPTIONS = ["centre moves of the layered method that leave the domain are clipped to it",
               "the covariance update of the mixture population method is matched against its documented and its known deviating formula"]
CPU_LIMIT = 200
UNDERFLOW, SUBNORMAL = -746., -690.  # logarithms below the smallest double, and of doubles of reduced precision


def comps(s):
    return (np.array([np.array(q.loc, float).reshape(-1) for q in s.model.models]),
            np.array([np.atleast_2d(np.array(q.cov if hasattr(q, "cov") else q.scale, float)) for q in s.model.models]),
            np.array(s.model.weights, float).reshape(-1).copy())


def logq(X, c):
    """Log density of every component at every point (own arithmetic)."""
    return np.array([ref.RNormal(m, C).logpdf(X) for m, C in zip(c[0], c[1])])


def exposed(m, s, c, rng, lo, hi, what):
    """The exposed density is the mixture of the snapshotted components."""
    X = np.vstack((rng.uniform(lo, hi, (4, len(lo))), c[0][:3]))
    with np.errstate(all="ignore"):
        r = logsumexp(logq(X, c) + np.log(c[2])[:, None], axis=0)
        g = np.array(s.log_prob(X), float).reshape(-1)
    k = r > -600
    m.close(g[k], r[k], what, rtol=1e-6, atol=1e-6)


def tiny(m, lv):
    """The largest value has lost its precision: nothing is judged."""
    if UNDERFLOW <= np.max(lv) <= SUBNORMAL:
        m.ev("subnormal_batches")
        return True
    return False


def step(s, t):
    """One iteration: (first batch of points returned, everything evaluated, all samples)."""
    log = []
    t.on_eval = lambda x: log.append(np.array(x, float))
    have = len(s.samples)
    with VirtualClock(), np.errstate(all="ignore"):
        S, W = s.importance_sample(t, have + 1, timeout=1e9)
    t.on_eval = None
    return np.array(S[have:], float), np.vstack(log), np.array(W)


def sane(m, kind, p, c0, c1, sig, tag):
    m.ok(c1[0].shape == (p["N"], c0[0].shape[1]), tag + "number of proposals changed", got=c1[0].shape)
    m.ok(np.isfinite(c1[0]).all() and np.isfinite(c1[1]).all(), tag + "proposal parameters are not finite")
    m.ok((c1[2] >= 0).all() and abs(c1[2].sum() - 1) < 1e-9, tag + "component weights are not a probability vector", w=c1[2])
    if kind != "mpmc":
        d = c0[0].shape[1]
        m.close(c1[1], np.array([np.eye(d) * sig] * p["N"]), tag + "the spread of the proposals changed", rtol=1e-9)
        m.close(c1[2], np.full(p["N"], 1 / p["N"]), tag + "proposals are no longer equally weighted", rtol=1e-9)


def grown(m, rng, kind, s, t):
    """A long history before the iterations that are judged."""
    SM.request(s, t, SM.long(kind, rng), limit=10 ** 6)
    m.ev("history", len(s.samples))


def dm(m, rng, reps, iters, long=False):
    def run(k):
        U, V = [], []
        for _ in range(int(reps * k)):
            s, p, t, lo, hi, lab = SM.scenario(rng, "dm", dims=(1, 2, 2, 3, 5), targets=("gauss", "gmm", "half", "box", "ridge", "corner", "peak"), c=(1., 1e-6, 1e6))
            m.state(*lab)
            if long:
                grown(m, rng, "dm", s, t)
            for it in range(iters):
                m.trial(*lab, str(p), it)
                c0 = comps(s)
                B, log, _ = step(s, t)
                c1 = comps(s)
                m.ev("iterations")
                if not m.ok(len(B) == p["K"] * p["N"], "dm: batch size", got=len(B), expected=p["K"] * p["N"]):
                    return 1., 1.
                sane(m, "dm", p, c0, c1, p["sigma"], "dm: ")
                exposed(m, s, c1, rng, lo, hi, "dm: the exposed density is not the mixture of the moved proposals")
                lp = t.lp(B)
                lw = lp - logsumexp(logq(B, c0) - math.log(p["N"]), axis=0)
                if tiny(m, lp):
                    continue
                if lp.max() < UNDERFLOW:
                    m.ev("batches_without_mass")
                    m.close(c1[0], c0[0], "dm: proposals moved by a batch without target mass", rtol=0)
                    continue
                w = np.exp(lw - lw.max())
                w = w / w.sum()
                o = np.argsort(w)
                cw = np.concatenate(([0], np.cumsum(w[o])))
                cw /= cw[-1]
                row = []
                for mu in c1[0]:
                    i = np.argwhere(np.all(np.abs(B - mu) <= 1e-12 * (1 + np.abs(mu)), axis=1)).reshape(-1)
                    if not m.ok(len(i) > 0, "dm: a proposal is not centred on a point of the last batch", mean=mu):
                        return 1., 1.
                    m.ok(w[i].sum() > 1e-14, "dm: a proposal was centred on a point without weight", mean=mu, weight=float(w[i].sum()))
                    j = int(np.argwhere(o == i[0])[0, 0])
                    row.append(cw[j] + rng.random() * (cw[j + 1] - cw[j]))
                m.ev("centres_chosen", len(row))
                U += row
                if len(row) > 1:
                    V.append(row[:2])
        V = np.array(V)
        pj = st.pearsonr(V[:, 0], V[:, 1])[1] if len(V) > 20 else 1.
        return stats.ks(U, "uniform"), pj
    stats.confirmed(m, lambda k: run(k)[0], "dm: centres are not chosen in proportion to the weights")
    stats.confirmed(m, lambda k: run(k)[1], "dm: centres are not chosen independently")


def lais(m, rng, reps, iters, one, long=False):
    """one: a single move per centre, whose acceptance can be judged exactly."""
    def run(k):
        Z, U = [0., 0.], []
        for _ in range(int(reps * k)):
            L = 1 if one else int(rng.choice([2, 5, 10]))
            s, p, t, lo, hi, lab = SM.scenario(rng, "lais", dims=(1, 2, 2, 3, 5), targets=("gauss", "gmm", "half", "box", "ridge", "corner", "peak"),
                                               c=(1., 1e-6, 1e6), L=L)
            m.state(*lab, L)
            if long:
                grown(m, rng, "lais", s, t)
            for it in range(iters):
                m.trial(*lab, str(p), it)
                c0 = comps(s)
                B, log, _ = step(s, t)
                c1 = comps(s)
                m.ev("iterations")
                nb = p["K"] * p["N"]
                if not m.ok(len(B) == nb, "lais: batch size", got=len(B), expected=nb):
                    return 1., 1.
                sane(m, "lais", p, c0, c1, p["sigma"], "lais: ")
                exposed(m, s, c1, rng, lo, hi, "lais: the exposed density is not the mixture of the moved proposals")
                m.ok(np.all((c1[0] >= lo) & (c1[0] <= hi)), "lais: a centre left the domain")
                rest = log  # evaluations of the moves: all but the batch
                for b in B:
                    i = np.argwhere(np.all(rest == b, axis=1)).reshape(-1)
                    if len(i):
                        rest = np.delete(rest, i[0], axis=0)
                m.ok(np.all((rest >= lo) & (rest <= hi)), "lais: a move of a centre is considered outside of the domain")
                m.ok(len(rest) <= 2 * L * p["N"], "lais: more evaluations than the moves of the centres need", got=len(rest))
                pool = np.vstack((rest, c0[0]))
                f0, f1 = t.lp(c0[0]), t.lp(c1[0])
                for a, b, g0, g1 in zip(c0[0], c1[0], f0, f1):
                    m.ok(np.any(np.all(pool == b, axis=1)), "lais: a centre is at a place that was never evaluated", centre=b)
                    m.ok(g1 > UNDERFLOW or g0 < SUBNORMAL or np.array_equal(a, b), "lais: a centre moved to a place without target mass", start=a, end=b)
                if not one:
                    m.ev("chains", p["N"])
                    continue
                cand = [x for x in rest if not np.any(np.all(x == c0[0], axis=1))]
                u = [x for i, x in enumerate(cand) if i == 0 or not np.array_equal(x, cand[i - 1])]
                if len(u) != p["N"] or len(np.unique(c0[0], axis=0)) != p["N"]:
                    m.ev("moves_not_attributed", p["N"])
                    continue
                for a, b, x in zip(c0[0], c1[0], u):
                    acc = np.array_equal(b, x)
                    if not m.ok(acc or np.array_equal(b, a), "lais: a single move led neither to the candidate nor stayed", start=a, candidate=x, end=b):
                        continue
                    g0, g1 = t.lp(a)[0], t.lp(x)[0]
                    if any(UNDERFLOW <= g <= SUBNORMAL for g in (g0, g1)):
                        continue
                    pr = 0. if g1 < UNDERFLOW else 1. if g1 >= g0 or g0 < UNDERFLOW else math.exp(g1 - g0)
                    m.ev("moves_judged")
                    if pr == 0 or pr == 1:
                        m.ok(acc == (pr == 1), "lais: a move %s" % ("to lower (zero) density was taken" if acc else "to higher density was refused"), start=g0, candidate=g1)
                    else:
                        Z[0] += acc - pr
                        Z[1] += pr * (1 - pr)
                    sd = math.sqrt(p["mh_sigma"])
                    for j in range(len(a)):  # law of the clipped move
                        F = [st.norm.cdf(v, a[j], sd) for v in (lo[j], x[j], hi[j])]
                        U.append(F[1] if lo[j] < x[j] < hi[j] else rng.random() * F[0] if x[j] <= lo[j] else F[2] + rng.random() * (1 - F[2]))
        if not one:
            return 1., 1.
        return (2 * st.norm.sf(abs(Z[0]) / math.sqrt(Z[1])) if Z[1] > 30 else 1.), stats.ks(U, "uniform") if len(U) > 20 else 1.
    if not one:
        run(1)
        return
    stats.confirmed(m, lambda k: run(k)[0], "lais: moves are not accepted with the Metropolis probability")
    stats.confirmed(m, lambda k: run(k)[1], "lais: moves do not have the configured spread")


def lais_chains(m, rng, runs):
    """Many moves per centre: the centres follow the target."""
    def run(k):
        U = []
        for _ in range(runs * k):
            d = int(rng.choice([1, 2]))
            lo, hi, dk = T.domain(rng, d, str(rng.choice(["unit", "offset", "tiny"])))
            w = np.asarray(hi, float) - lo
            mu, sd = lo + w * rng.uniform(.4, .6, d), w * rng.uniform(.05, .08)
            t = T.gauss(d, mu, sd, c=float(rng.choice([1., 1e-6, 1e6])))
            N, L = 20, int(rng.choice([60, 90]))
            p = dict(K=1, N=N, J=1000, L=L, sigma=float((.1 * w[0]) ** 2), mh_sigma=float((2. * sd[0]) ** 2))
            s = SM.make("lais", lo, hi, p)
            m.trial("chains", d, dk, str(p), mu)
            m.state("chains", d, dk, L)
            step(s, t)
            c = comps(s)[0]
            m.ev("long_chains", len(c))
            U.append(st.norm.cdf((c - mu) / sd)[:, 0])
            U.append(st.norm.cdf((c - mu) / sd)[:, -1]) if d > 1 else None
        return stats.ks(np.concatenate(U), "uniform")
    stats.confirmed(m, run, "lais: after many moves the centres are not distributed as the target")


def mpmc(m, rng, reps, iters, long=False):
    for _ in range(reps):
        s, p, t, lo, hi, lab = SM.scenario(rng, "mpmc", dom=str(rng.choice(["unit", "tiny", "offset", "aniso", "wide", "int"], p=[.2, .3, .2, .1, .1, .1])), dims=(1, 2, 2, 3), targets=("gauss", "gmm", "half", "box", "ridge", "corner", "peak"), c=(1., 1e-6, 1e6))
        m.state(*lab)
        d = len(lo)
        if long:
            grown(m, rng, "mpmc", s, t)
        for it in range(iters):
            m.trial(*lab, str(p), it)
            c0 = comps(s)
            B, log, W = step(s, t)
            c1 = comps(s)
            m.ev("iterations")
            if not m.ok(len(B) == p["K"], "mpmc: batch size", got=len(B), expected=p["K"]):
                return
            sane(m, "mpmc", p, c0, c1, None, "mpmc: ")
            if max(np.linalg.cond(C) for C in c0[1]) > 1e10:
                m.ev("ill_conditioned")
                continue
            with np.errstate(all="ignore"):
                lq = logq(B, c0) + np.log(c0[2])[:, None]
                mix = logsumexp(lq, axis=0)
                lw = t.lp(B) - mix
            if tiny(m, lw):
                continue
            if lw.max() < UNDERFLOW:
                m.ev("batches_without_mass")
                for a, b in zip(c0, c1):
                    m.close(b, a, "mpmc: proposals changed by a batch without target mass", rtol=0)
                continue
            w = np.exp(lw - lw.max())
            w /= w.sum()
            m.close(W[-p["K"]:], w, "mpmc: normalised weights of the batch", rtol=1e-6, atol=1e-12)
            R = np.exp(lq - mix)  # responsibilities
            al = (R * w).sum(1)
            m.close(c1[2], al / al.sum(), "mpmc: component weights are not their responsibility-weighted averages", rtol=1e-6, atol=1e-12)
            for i in range(p["N"]):
                if al[i] < 1e-200:
                    m.ev("components_without_responsibility")
                    if al[i] == 0:
                        m.close(c1[0][i], c0[0][i], "mpmc: a component without responsibility moved", rtol=0)
                    continue
                m.ev("components_updated")
                mu = (R[i] * w) @ B / al[i]
                sc = np.abs(B).max()
                m.close(c1[0][i], mu, "mpmc: component mean is not the responsibility-weighted average of the batch", rtol=1e-6, atol=1e-9 * sc)
                D = B - c1[0][i]
                right, known = (D * (R[i] * w)[:, None]).T @ D / al[i], D.T @ D
                got = c1[1][i]

                def same(A):
                    return np.allclose(got, A, rtol=1e-6, atol=1e-9 * max(np.abs(A).max(), 1e-300))
                safe = same(np.eye(d) * 10)
                if same(right) and not same(known):
                    m.ev("covariance_documented")
                elif same(known):
                    m.ev("covariance_known_deviation")
                    if p["K"] > 1:
                        m.known_finding("mpmc-cov", "component covariance is the total scatter of the batch instead of its responsibility-weighted average")
                elif safe:
                    def bad(A):
                        return not np.isfinite(A).all() or (A > 10 - 1e-6).any() or np.linalg.det(A) <= 1e-12 * max(np.prod(np.diag(A)), 0)
                    m.ok(bad(right) or bad(known), "mpmc: covariance reset although it neither collapses nor explodes", K=known, R=right)
                    m.ev("covariance_failsafe")
                else:
                    m.fail("mpmc: component covariance matches neither the documented nor the known formula", got=got, documented=right, known=known)
            if max(np.linalg.cond(C) for C in c1[1]) < 1e10:
                exposed(m, s, c1, rng, lo, hi, "mpmc: the exposed density is not the mixture of the updated components")


def cases(tier):
    k = 1 if tier == "quick" else 12
    r = []
    for b in range(3):
        r += [("dm-%d" % b, dm, dict(reps=16 * k, iters=4)), ("lais1-%d" % b, lais, dict(reps=16 * k, iters=5, one=True)),
              ("mpmc-%d" % b, mpmc, dict(reps=24 * k, iters=5))]
    r += [("lais-chains-%d" % b, lais_chains, dict(runs=8 * k)) for b in range(2)]
    r += [("lais-%d" % b, lais, dict(reps=12 * k, iters=3, one=False)) for b in range(2)]
    r += [("long-dm", dm, dict(reps=6 * k, iters=4, long=True)), ("long-mpmc", mpmc, dict(reps=6 * k, iters=4, long=True)),
          ("long-lais", lais, dict(reps=4 * k, iters=4, one=True, long=True))]
    return r
