import math
import numpy as np
import scipy.stats as st
from vlib import samplers as SM
from vlib import stats
from vlib import targets as T

RULE = "one monitored execution per request; every proposed point, its acceptance probability and whether it was accepted are logged"
ASSUMPTIONS = ["proposals are supplied by the harness through the configuration", "acceptance is compared with its probability statistically, "
               "and exactly where the probability is zero or at least one"]


class Prop:
    """Proposal density on (and possibly beyond) the domain, recording its draws."""

    def __init__(self, kind, rng, lo, hi):
        self.kind, self.lo, self.hi = kind, np.asarray(lo, float), np.asarray(hi, float)
        self.d, self.log = len(self.lo), []
        self.w = self.hi - self.lo
        self.a = float(rng.uniform(.5, 2.))

    def sample(self, n=1):
        if self.kind == "uniform":
            x = np.random.uniform(self.lo, self.hi, (n, self.d))
        elif self.kind == "ramp":  # density increasing along the first coordinate
            x = np.random.uniform(self.lo, self.hi, (n, self.d))
            x[:, 0] = self.lo[0] + self.w[0] * np.random.uniform(0, 1, n) ** (1 / (1 + self.a))
        else:  # truncated exponential along every coordinate
            u = np.random.uniform(0, 1, (n, self.d))
            x = self.lo - self.w / self.a * np.log(1 - u * (1 - math.exp(-self.a)))
        self.log.append(np.array(x))
        return x

    def log_prob(self, x):
        x = np.asarray(x, float).reshape(-1, self.d)
        z = (x - self.lo) / self.w
        with np.errstate(all="ignore"):
            if self.kind == "uniform":
                r = np.zeros(len(x))
            elif self.kind == "ramp":
                r = self.a * np.log(np.maximum(z[:, 0], 1e-300)) + math.log(1 + self.a)
            else:
                r = np.sum(-self.a * z + math.log(self.a / (1 - math.exp(-self.a))), axis=1)
        return np.where(np.all((z >= 0) & (z <= 1), axis=1), r - np.sum(np.log(self.w)), -np.inf)

    def prob(self, x):
        return np.exp(self.log_prob(x))


PROPS = ["uniform", "ramp", "exp"]


def envelope(t, prop, lo, hi, rng, slack):
    X = rng.uniform(np.asarray(lo, float) + 1e-3 * prop.w, hi, (20000, prop.d))
    return float(np.exp((t.lp(X) - prop.log_prob(X)).max())) * slack


def scen(rng, tk=None, dims=(1, 1, 2), slack=None):
    d = int(rng.choice(dims))
    lo, hi, dk = T.domain(rng, d)
    tk = tk or str(rng.choice(["gauss", "gmm", "half", "box", "laplace", "ridge"]))
    t = T.make(tk, rng, lo, hi, float(rng.choice([1., .01, 50.])), truncate=True)
    pk = str(rng.choice(PROPS))
    if pk == "ramp" and tk in ("ridge", "gmm", "gauss", "laplace", "half"):
        pk = "exp"  # a ramp has no mass at the lower end: no valid envelope there
    prop = Prop(pk, rng, lo, hi)
    p = SM.defaults("rejection", lo, hi, rng)
    p["scaling"] = envelope(t, prop, lo, hi, rng, slack or float(rng.choice([1.1, 1.5, 4., .4])))
    p["proposal"] = SM.inject(prop)
    return SM.make("rejection", lo, hi, p), p, t, prop, lo, hi, (d, dk, tk, pk)


def follow(m, rng, s, p, t, prop, lab, acc, first=0, limit=10 ** 6):
    """A request history; every proposal is judged."""
    S0, n = np.zeros((0, prop.d)), 0
    prop.log.clear()
    total = 0
    for step in range(int(rng.integers(2, 5))):
        if rng.random() < .15 and step:
            s.reset()
            prop.log.clear()
            S0, n, total = np.zeros((0, prop.d)), 0, 0
        n = len(S0) + (int(first * rng.uniform(.5, 1)) if first and step == 0 else int(rng.choice([1, 3, 30, 120])))
        m.trial(*lab, str(sorted(p.items())), step, n)
        k = len(prop.log)
        S, W, late = SM.request(s, t, n, limit=limit if first and step == 0 else 20000 if rng.random() < .85 else 1)
        S = np.array(S, float).reshape(-1, prop.d)
        batches = prop.log[k:]
        m.ev("requests")
        if not batches:
            m.ok(len(S) == len(S0), "points without proposals")
            continue
        new = S[len(S0):]
        pos = 0
        have = len(S0)
        for B in batches:
            m.ok(have < n, "proposals are drawn although no sample is missing", have=have, requested=n)
            lp = t.lp(B)
            with np.errstate(all="ignore"):
                pr = np.exp(lp - prop.log_prob(B)) / p["scaling"]
            kept = np.zeros(len(B), bool)
            for i in range(len(B)):
                if pos < len(new) and np.array_equal(new[pos], B[i]):
                    kept[i] = True
                    pos += 1
            m.ev("proposals", len(B))
            m.ev("accepted", kept.sum())
            m.ok(not (kept & (pr == 0)).any(), "a point without target density was accepted", x=B[np.argmax(kept & (pr == 0))])
            m.ok(kept[pr > 1 + 1e-9].all(), "a point above the envelope was rejected")
            sel = (pr > 0) & (pr <= 1)
            acc.extend(zip(pr[sel], kept[sel]))
            have += int(kept.sum())
            total += len(B)
        m.eq(pos, len(new), "accepted points are not the accepted proposals in order")
        m.ok(len(S) <= max(n, len(S0)), "more accepted points than requested", got=len(S), requested=n)
        m.eq(len(S), have, "number of accepted points")
        if not late:
            m.ok(len(S) >= n, "fewer accepted points than requested")
        if len(S):
            m.close(np.asarray(W, float), np.full(len(S), 1 / len(S)), "weights are not equal")
            m.close(s.get_acceptance_rate(), len(S) / total, "acceptance rate is not accepted over proposed")
        S0 = S
    return acc


def zscore(acc):
    if not acc:
        return 1.
    p, a = np.array([x for x, _ in acc]), np.array([float(x) for _, x in acc])
    v = np.sum(p * (1 - p))
    return 1. if v < 5 else float(2 * st.norm.sf(abs(np.sum(a - p)) / math.sqrt(v)))


def replay(m, rng, reps, first_request=0, slack=None):
    def collect(k):
        acc = []
        for _ in range(reps * k):
            s, p, t, prop, lo, hi, lab = scen(rng, slack=slack)
            m.state(*lab)
            follow(m, rng, s, p, t, prop, lab, acc, first_request, *([30000] if slack else []))
        return acc
    first = collect(1)
    memo = {1: first}
    m.ev("judged_acceptances", len(first))

    def data(k):
        if k not in memo:
            memo[k] = collect(k)
        return memo[k]
    stats.confirmed(m, lambda k: zscore(data(k)), "proposals are not accepted with probability target over envelope")
    for a, b in [(0, .1), (.1, .3), (.3, .6), (.6, .9), (.9, 1.)]:
        stats.confirmed(m, lambda k: zscore([x for x in data(k) if a < x[0] <= b]),
                        "proposals with acceptance probability in (%g, %g] are accepted with another frequency" % (a, b))


def law(m, rng, tk, n):
    """Accepted points are exact draws; the acceptance rate estimates the ratio of the masses."""
    s, p, t, prop, lo, hi, lab = scen(rng, tk, dims=(1, 2), slack=1.2)
    lo_, hi_ = np.asarray(lo, float), np.asarray(hi, float)
    d = len(lo)
    g = 4000 if d == 1 else 300
    ax = [np.linspace(lo_[j], hi_[j], g + 1) for j in range(d)]
    mid = [(a[1:] + a[:-1]) / 2 for a in ax]
    tab = np.exp(t.lp(np.stack(np.meshgrid(*mid, indexing="ij"), -1).reshape(-1, d))).reshape([g] * d)
    Z = float(tab.sum() * np.prod((hi_ - lo_) / g))
    m.state("law", *lab)

    def pv(k):
        s.reset()
        S = None
        for part in (n * k // 3, n * k):
            m.trial("law", *lab, k, part)
            S, W, _ = SM.request(s, t, part, limit=10 ** 7)
        S = np.asarray(S, float)
        m.ev("exact_draws", len(S))
        ps = []
        for j in range(d):
            q = tab.sum(axis=tuple(i for i in range(d) if i != j))
            cdf = np.concatenate([[0], np.cumsum(q) / q.sum()])
            ps.append(stats.ks(S[:, j], lambda y: np.interp(y, ax[j], cdf)))
        # acceptance rate against Z / scaling (binomial; number of proposals is random, which only adds little)
        r, q = s.get_acceptance_rate(), Z / p["scaling"]
        N = len(S) / r
        ps.append(stats.z(r, q, math.sqrt(q * (1 - q) / N), allowance=.01 * q if d == 2 else .002 * q))
        # independence of successive draws
        x = stats.st.rankdata(S[:, 0])
        rho = np.corrcoef(x[:-1], x[1:])[0, 1]
        ps.append(2 * stats.st.norm.sf(abs(rho) * math.sqrt(len(x))))
        return min(ps)
    stats.confirmed(m, pv, "accepted points are not independent draws of the normalised target, or the acceptance rate is not the mass ratio")


def cases(tier):
    k = 1 if tier == "quick" else 12
    r = [("replay-%d" % b, replay, dict(reps=20 * k)) for b in range(8)]
    r += [("long-%d" % b, replay, dict(reps=4 * k, first_request=1500)) for b in range(2)]
    r += [("seldom-%d" % b, replay, dict(reps=4 * k, first_request=700, slack=x)) for b, x in enumerate((1e3, 3e4))]
    r += [("law-%s-%d" % (t, b), law, dict(tk=t, n=2000 if tier == "quick" else 12000)) for t in ("gauss", "gmm", "half", "box", "laplace", "ridge")
          for b in range(2 if tier == "quick" else 6)]
    return r
