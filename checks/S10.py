import math
import numpy as np
import scipy.stats as st
from vlib import samplers as SM
from vlib import stats
from vlib import targets as T

RULE = "one monitored execution per request to a chain (or per independent chain), every transition is replayed"
ASSUMPTIONS = ["the acceptance indicator is compared with its probability statistically (z-test over all transitions and per probability bin), "
               "and exactly where the probability is zero or one"]


class Step:
    """Proposal increments with a known density; symmetric or not."""

    def __init__(self, kind, rng, d, w, sd=None):
        self.kind, self.d = kind, d
        self.sd = (w * rng.uniform(.1, .5) if sd is None else sd) * np.ones(d)
        self.mu = np.zeros(d) if kind in ("normal", "uniform", "library", "skew", "onesided", "lopsided") else self.sd * rng.uniform(.2, .6, d) * rng.choice([-1, 1], d)
        self.log = []
        self.inner = None
        if kind == "library":
            from ais_benchmarks.distributions import CMultivariateNormal
            self.inner = CMultivariateNormal({"mean": self.mu, "sigma": np.diag(self.sd ** 2)})
        if kind not in ("skew", "onesided", "lopsided"):
            self.loc = self.mu

    def sample(self, n=1):
        assert n == 1
        if self.inner is not None:
            x = self.inner.sample(n)
        elif self.kind == "uniform":
            x = np.random.uniform(-self.sd, self.sd, (1, self.d))
        elif self.kind == "laplace":
            x = self.mu + np.random.laplace(0, self.sd, (1, self.d))
        elif self.kind == "skew":  # two-sided exponential, longer to the right
            x = np.where(np.random.random((1, self.d)) < .25, -.5, 1.5) * self.sd * np.random.exponential(1, (1, self.d))
        elif self.kind == "onesided":  # the way back is impossible
            x = self.sd * np.random.exponential(1, (1, self.d))
        elif self.kind == "lopsided":  # long steps to the right, short ones to the left
            x = np.where(np.random.random((1, self.d)) < .5, -.01, 1.) * self.sd * np.random.exponential(1, (1, self.d))
        else:
            x = self.mu + self.sd * np.random.standard_normal((1, self.d))
        self.log.append(np.array(x, float).reshape(-1))
        return x

    def lp(self, x):
        x = np.asarray(x, float).reshape(-1, self.d)
        if self.kind == "uniform":
            return np.where(np.all(np.abs(x) <= self.sd, axis=1), -np.sum(np.log(2 * self.sd)), -np.inf)
        if self.kind == "laplace":
            return np.sum(-np.abs(x - self.mu) / self.sd - np.log(2 * self.sd), axis=1)
        if self.kind == "skew":
            return np.sum(np.where(x < 0, x / (.5 * self.sd) - np.log(2 * self.sd), -x / (1.5 * self.sd) - np.log(2 * self.sd)), axis=1)
        if self.kind == "onesided":
            return np.where(np.all(x >= 0, axis=1), np.sum(-x / self.sd - np.log(self.sd), axis=1), -np.inf)
        if self.kind == "lopsided":
            return np.sum(np.where(x < 0, x / (.01 * self.sd) - np.log(.02 * self.sd), -x / self.sd - np.log(2 * self.sd)), axis=1)
        return np.sum(-.5 * ((x - self.mu) / self.sd) ** 2 - np.log(self.sd) - .5 * math.log(2 * math.pi), axis=1)

    def log_prob(self, x):
        return self.lp(x)

    def prob(self, x):
        return np.exp(self.lp(x))


STEPS = ["normal", "uniform", "library", "drift", "laplace", "skew"]


class Replay:
    def __init__(self, s, t, prop, p, lo, hi):
        self.s, self.t, self.prop, self.p = s, t, prop, p
        self.lo, self.hi = np.asarray(lo, float), np.asarray(hi, float)
        self.restart()
        self.acc = []  # (probability, accepted)

    def restart(self):
        self.i = 0
        self.prop.log.clear()
        self.cur = np.array(self.s.current_sample, float).reshape(-1)
        self.evals = []

    def advance(self, m, n_before, n_after):
        """Replay the transitions of one request which brought the number of samples from n_before to n_after."""
        s, p, C = self.s, self.p, type(self.s)
        X = np.array(s.trajectory_samples, float).reshape(len(s.trajectory_samples), -1)
        ty = list(s.trajectory_types)
        total = (p["n_burnin"] + n_after * p["n_steps"]) if n_after else len(ty)
        m.ok(len(X) == len(ty) == len(self.prop.log), "the trajectory does not have one entry per proposal", samples=len(X), labels=len(ty),
             proposals=len(self.prop.log))
        if not m.eq(len(ty), total, "number of proposals for the samples obtained", burn_in=p["n_burnin"], steps=p["n_steps"], samples=n_after):
            return None
        out = []
        ev = {bytes(x) for x in self.evals}
        for i in range(self.i, len(ty)):
            new = self.cur + self.prop.log[i]
            if not m.ok(np.array_equal(new, X[i]), "recorded proposal is not current point plus increment", step=i, current=self.cur, recorded=X[i],
                        increment=self.prop.log[i]):
                return None
            moved = ty[i] != C.REJECT
            inside = bool(np.all(new >= self.lo) and np.all(new <= self.hi))
            m.ev("transitions")
            if not inside:
                m.ev("proposals_outside")
                m.ok(not moved, "moved outside of the domain", x=new)
                m.ok(bytes(np.ascontiguousarray(new)) not in ev, "target evaluated outside of its domain", x=new)
            else:
                a, b = float(self.t.lp(new)[0]), float(self.t.lp(self.cur)[0])
                qf, qb = float(self.prop.lp(new - self.cur)[0]), float(self.prop.lp(self.cur - new)[0])
                if b > -np.inf and qf > -np.inf:
                    lr = a - b + qb - qf
                    pr = math.exp(min(lr, 0.)) if lr > -700 else 0.
                    if lr > 1e-9:
                        m.ok(moved, "an uphill move was rejected", log_ratio=lr)
                    elif lr < -60:
                        m.ok(not moved, "a move of vanishing probability was accepted", log_ratio=lr)
                    else:
                        self.acc.append((pr, moved))
            # labels
            if i < p["n_burnin"]:
                want = C.BURN_IN
            else:
                want = C.SAMPLE if (i - p["n_burnin"] + 1) % p["n_steps"] == 0 else C.DECORRELATION
            m.ok(ty[i] == (want if moved else C.REJECT), "label of a transition", step=i, label=ty[i], expected=want, moved=moved)
            if moved:
                self.cur = new
            if i >= p["n_burnin"] and (i - p["n_burnin"] + 1) % p["n_steps"] == 0:
                out.append(self.cur.copy())
        self.i = len(ty)
        return np.array(out).reshape(len(out), -1)


def zscore(acc):
    p, a = np.array([x for x, _ in acc]), np.array([float(x) for _, x in acc])
    v = np.sum(p * (1 - p))
    return 1. if v < 5 else float(2 * st.norm.sf(abs(np.sum(a - p)) / math.sqrt(v)))


def session(m, rng, reps, memo_acc, long=False):
    for _ in range(reps):
        d = int(rng.choice([1, 1, 2, 3, 3, 5]))
        lo, hi, dk = T.domain(rng, d)
        w = np.asarray(hi, float) - lo
        tk = str(rng.choice(["gauss", "gmm", "half", "box", "corner", "laplace", "ridge"]))
        t = T.make(tk, rng, lo, hi, float(rng.choice([1., 1e-6, 1e6])))
        sk = str(rng.choice(STEPS))
        prop = Step(sk, rng, d, w)
        p = SM.defaults("mh", lo, hi, rng)
        p["proposal_d"] = prop
        if rng.random() < .25:
            p["n_steps"] = int(rng.choice([7, 8, 10, 13, 30]))
        s = SM.make("mh", lo, hi, p)
        rp = Replay(s, t, prop, p, lo, hi)
        m.state(d, dk, tk, sk, p["n_burnin"], p["n_steps"])
        S0 = np.zeros((0, d))
        t.on_eval = lambda x: rp.evals.extend(np.ascontiguousarray(x, float))
        m.ok(np.all(rp.cur >= lo) and np.all(rp.cur <= hi), "the chain starts outside of the domain", x=rp.cur)
        for step in range(int(rng.integers(2, 6))):
            if rng.random() < .15 and step:
                s.reset()
                m.ev("resets")
                m.ok(len(s.trajectory_samples) == 0 and len(s.trajectory_types) == 0, "the trajectory survives a reset")
                rp.restart()
                rp.cur = np.array(s.current_sample, float).reshape(-1)
                prop.log.clear()
                S0 = np.zeros((0, d))
            if rng.random() < .25 and step:  # the same chain goes on with another target
                t.on_eval = None
                t = T.make(str(rng.choice(["gauss", "gmm", "laplace", "ridge", "half"])), rng, lo, hi) if rng.random() < .7 else t.clone()
                t.on_eval = lambda x: rp.evals.extend(np.ascontiguousarray(x, float))
                rp.t = t
                m.ev("target_changes")
            n = len(S0) + (2500 if long and step == 0 else int(rng.choice([1, 2, 15, 40])))
            m.trial(d, dk, tk, sk, str({k: v for k, v in p.items() if k != "proposal_d"}), step, n)
            rp.evals.clear()
            S, W, late = SM.request(s, t, n, limit=10 ** 6 if long and step == 0 else 4000 if rng.random() < .8 else int(rng.integers(1, 50)))
            S = np.array(S, float)
            new = rp.advance(m, len(S0), len(S))
            if new is None:
                return rp.acc
            m.ok(np.array_equal(S[len(S0):], new), "returned samples are not the states of the chain after every n-th step",
                 got=S[len(S0):], expected=new)
            m.ok(np.array_equal(np.array(s.current_sample, float).reshape(-1), rp.cur), "current point of the chain")
            S0 = S
        memo_acc += rp.acc
    return memo_acc


def replay(m, rng, reps, long=False):
    acc = session(m, rng, reps, [], long)
    if m.violations:
        return
    m.ev("judged_acceptances", len(acc))
    again = {}

    def data(k):
        if k == 1:
            return acc
        if k not in again:
            again[k] = session(m, rng, reps * 2, [], long)
        return again[k]
    stats.confirmed(m, lambda k: zscore(data(k)), "moves are not accepted with the Metropolis-Hastings probability")
    for a, b in [(0, .1), (.1, .3), (.3, .5), (.5, .7), (.7, .9), (.9, 1.)]:
        stats.confirmed(m, lambda k: zscore([x for x in data(k) if a < x[0] <= b]),
                        "moves with acceptance probability in (%g, %g] are accepted with another frequency" % (a, b))


def extreme(m, rng, reps):
    """Very steep targets far from their mode and very asymmetric increments: nearly every decision is forced."""
    for _ in range(reps):
        d = int(rng.choice([1, 1, 2]))
        lo, hi = -np.ones(d), np.ones(d)
        slope, c = float(10 ** rng.uniform(1, 5)), rng.uniform(-1, 1, d)
        t = T.Target("steep", d, lambda x: -slope * np.abs(x - c).sum(axis=1), float(rng.choice([1., 1e-6, 1e6])), (lo, hi))
        sk = str(rng.choice(["onesided", "lopsided", "uniform", "laplace"]))
        prop = Step(sk, rng, d, 2., float(rng.choice([.02, .3])))
        p = SM.defaults("mh", lo, hi)
        p.update(n_burnin=int(rng.integers(0, 20)), n_steps=int(rng.integers(1, 4)), proposal_d=prop)
        s = SM.make("mh", lo, hi, p)
        rp = Replay(s, t, prop, p, lo, hi)
        S0 = np.zeros((0, d))
        m.state("extreme", sk, d, int(np.log10(slope)))
        for n in (30, 60):
            m.trial("extreme", sk, d, slope, n)
            S, W, late = SM.request(s, t, n, limit=10 ** 6)
            S = np.array(S, float)
            new = rp.advance(m, len(S0), len(S))
            if new is None:
                return
            m.ev("forced_decisions", len(rp.prop.log) - len(rp.acc))
            m.ok(np.array_equal(S[len(S0):], new), "returned samples are not the states of the chain after every n-th step")
            S0 = S


def valley(m, rng, reps, n):
    """Two plateaus of very different height: rare climbs down are as frequent as they should be."""
    for _ in range(reps):
        d = int(rng.choice([1, 2]))
        lo, hi = -np.ones(d), np.ones(d)
        r = float(np.exp(rng.uniform(np.log(4e-3), np.log(5e-2))))
        t = T.Target("valley", d, lambda x: np.where(x[:, 0] > 0, np.log(r), 0.), 1., (lo, hi))
        p = SM.defaults("mh", lo, hi)
        p.update(n_burnin=0, n_steps=5)

        def pv(k):
            prop = Step("uniform", rng, d, 2., 1.)
            s = SM.make("mh", lo, hi, dict(p, proposal_d=prop))
            rp = Replay(s, t, prop, p, lo, hi)
            m.trial("valley", d, r, k)
            S, W, _ = SM.request(s, t, n * k // 5, limit=10 ** 8)
            if rp.advance(m, 0, len(S)) is None:
                return 1.
            low = [(q, a) for q, a in rp.acc if abs(q - r) < 1e-6]
            lam, c = sum(q for q, _ in low), sum(a for _, a in low)
            m.ev("rare_moves", c)
            m.state("valley", d, c)
            return 2 * float(min(st.poisson.cdf(c, lam), st.poisson.sf(c - 1, lam)))
        stats.confirmed(m, pv, "moves of small acceptance probability are accepted with another frequency", ratio=r)


def stationary(m, rng, sk, tk, chains):
    """Independent chains: the state after the burn-in follows the target."""
    lo, hi, dk = T.domain(rng, 1, str(rng.choice(["unit", "offset", "int"])))
    w = np.asarray(hi, float) - lo
    t = T.make(tk, rng, lo, hi, truncate=True)
    x = np.linspace(float(lo[0]), float(hi[0]), 4001)
    q = np.exp(t.lp((x[1:] + x[:-1]) / 2))
    cdf = np.concatenate([[0], np.cumsum(q) / q.sum()])
    p = SM.defaults("mh", lo, hi)
    p.update(n_burnin=60, n_steps=3)
    m.state("stationary", sk, tk)

    def pv(k):
        Y = []
        for c in range(chains * k):
            m.trial("chain", sk, tk, k, c)
            # from anywhere in the domain, points with density are within reach
            prop = Step(sk, rng, 1, w, w * (.7 if sk == "uniform" else .35))
            if sk in ("drift",):
                prop.mu = w * .15
            pp = dict(p, proposal_d=prop)
            S, W, _ = SM.request(SM.make("mh", lo, hi, pp), t, 2, limit=10 ** 6)
            Y.append(float(np.asarray(S)[-1, 0]))
        m.ev("chains", chains * k)
        return stats.ks(np.array(Y), lambda y: np.interp(y, x, cdf))
    stats.confirmed(m, pv, "independent chains do not end up distributed like the target (%s proposal, %s target)" % (sk, tk))


def default_proposal(m, rng, reps):
    """Without an explicit proposal the increments are Gaussian with the configured variance."""
    for _ in range(reps):
        d = int(rng.choice([1, 2, 3]))
        lo, hi = -np.full(d, 50.), np.full(d, 50.)
        v = float(np.exp(rng.uniform(-2, 2)))
        t = T.make("flat", rng, lo, hi)
        p = SM.defaults("mh", lo, hi)
        p.update(proposal_sigma=v, n_burnin=0, n_steps=1)

        def pv(k):
            m.trial("default", d, v, k)
            s = SM.make("mh", lo, hi, p)
            x0 = np.array(s.current_sample, float).reshape(-1)
            S, W, _ = SM.request(s, t, 400 * k, limit=10 ** 6)
            S = np.concatenate([x0.reshape(1, -1), np.array(S, float)])
            ins = np.all((np.array(s.trajectory_samples, float).reshape(len(S) - 1, -1) >= lo), axis=1)
            D = np.array(s.trajectory_samples, float).reshape(len(S) - 1, -1) - S[:-1]
            m.ev("default_increments", len(D))
            return min(stats.ks(D[:, j] / math.sqrt(v), st.norm.cdf) for j in range(d))
        stats.confirmed(m, pv, "increments of the default proposal do not have the configured variance", variance=v)


def cases(tier):
    k = 1 if tier == "quick" else 12
    r = [("replay-%d" % b, replay, dict(reps=12 * k)) for b in range(8)]
    r += [("long-%d" % b, replay, dict(reps=2 * k, long=True)) for b in range(2)]
    r += [("stationary-%s-%s" % (a, b), stationary, dict(sk=a, tk=b, chains=150 * (1 if tier == "quick" else 4)))
          for a in STEPS for b in ("gauss", "half", "corner")]
    r += [("extreme-%d" % b, extreme, dict(reps=15 * k)) for b in range(2)]
    r += [("valley-%d" % b, valley, dict(reps=k, n=20000)) for b in range(3)]
    r += [("default-%d" % b, default_proposal, dict(reps=2 * k)) for b in range(2)]
    return r
