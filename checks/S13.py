import numpy as np
from vlib import samplers as SM
from vlib import targets as T
from vlib.vclock import VirtualClock
from checks.S01 import contract

RULE = "one monitored execution per request with an expiry injected at a chosen target evaluation, or per pair of runs with different generous limits"
ASSUMPTIONS = ["time is virtual: it advances with target evaluations and by a jump at the injected expiry", "one iteration is one batch of the method "
               "(burn-in included for the first Metropolis-Hastings sample)"]
CPU_LIMIT = 200


def iteration(kind, p, s, d, n, have):
    """Largest number of target points of one iteration."""
    if kind == "dm":
        return p["K"] * p["N"]
    if kind == "lais":
        return p["K"] * p["N"] + 2 * p["N"] * p["L"]
    if kind == "mpmc":
        return p["K"]
    if kind == "rejection":
        return max(n - have, 0)
    if kind == "mh":
        return 2 * (p["n_burnin"] + p["n_steps"])
    if kind in ("nested", "multinested"):
        return p["N"] + 3
    if kind == "hidaisee":
        return 1 + max(have, 1) + p["n_min"] + n  # a split evaluates the points of one cell again
    return None


def tree_iteration(p, d, leaves):
    """New nodes of an iteration of a tree pyramid, leaves that are sampled again, and resampling of all the leaves."""
    return p["parallel_samples"] + 2 ** d + leaves + (leaves if p["resampling"] == "leaf" else 0)


def leaves_of(s):
    try:
        return len(s.T.leaves)
    except AttributeError:
        return 10 ** 4


class Jump:
    """Virtual clock that jumps beyond the limit at the k-th evaluated target point."""

    def __init__(self, t, k, step=0.):
        self.t, self.k, self.step, self.after = t, k, step, None

    def __enter__(self):
        self.c = VirtualClock()
        self.c.__enter__()
        self.seen = 0

        def ev(x):
            if self.after is not None:
                self.after += len(x)
            self.seen += len(x)
            self.c.advance(self.step * len(x))
            if self.after is None and self.seen >= self.k:
                self.c.advance(1e9)
                self.after = 0
                self.batch = len(x)
        self.t.on_eval = ev
        return self

    def __exit__(self, *a):
        self.t.on_eval = None
        self.c.__exit__(*a)


def expiry(m, rng, kind, reps):
    tag = kind + ": "
    for _ in range(reps):
        s, p, t, lo, hi, lab = SM.scenario(rng, kind, targets=("gauss", "gmm", "peak", "corner", "half"))
        d = len(lo)
        m.state(*lab)
        have = 0
        S = np.zeros((0, d))
        for step in range(int(rng.integers(2, 6))):
            n = have + 400
            k = int(np.exp(rng.uniform(0, np.log(300)))) if rng.random() < .9 else 1
            m.trial(*lab, str(p), step, k)
            with Jump(t, k) as j:
                S2, W2 = s.importance_sample(t, n, timeout=float(rng.choice([1., 50., 1e8])))
            S2, W2 = np.array(S2), np.array(W2)
            if j.after is None:
                m.ev("finished_before_expiry")
                have, S = len(S2), S2
                continue
            m.ev("expiries")
            m.ev("points_after_expiry", j.after)
            m.state(kind, min(j.after, 50))
            bound = iteration(kind, p, s, d, n, have)
            if kind == "hidaisee":
                bound = 1 + max(len(S2), p["n_min"])
            elif bound is None:  # tree pyramids: the new nodes of an iteration and the resampling of all the leaves
                bound = tree_iteration(p, d, leaves_of(s))
            m.ok(j.after <= bound, tag + "more than one iteration of work after the time limit", points_after=j.after, iteration=bound, k=k)
            contract(m, kind, s, t, lo, hi, 0, S2.reshape(-1, d), W2, True, p=p)
            if kind in SM.CUMULATIVE and have and len(S2):
                m.ok(len(S2) >= have and np.array_equal(S2[:have], S[:have]), tag + "earlier points were lost by a request cut short")
            have, S = len(S2), S2
        # a later request continues from the smaller set
        n = have + int(rng.integers(1, 12))
        S3, W3, late = SM.request(s, t, n)
        m.ev("continuations")
        contract(m, kind, s, t, lo, hi, n, S3, W3, late, p=p)
        if kind in SM.CUMULATIVE and have:
            m.ok(np.array_equal(np.asarray(S3)[:have], S), tag + "a request after an expired one does not continue from its points")


def zero(m, rng, kind, reps):
    """A limit that has already expired: at most one iteration."""
    for _ in range(reps):
        s, p, t, lo, hi, lab = SM.scenario(rng, kind)
        d = len(lo)
        have = 0
        for step in range(3):
            m.trial("zero", *lab, str(p), step)
            n = have + 300
            t.n_points = 0
            with VirtualClock() as c:
                S, W = s.importance_sample(t, n, timeout=float(rng.choice([0., 0., -5.])))
            b = iteration(kind, p, s, d, n, have)
            if b is None:
                b = 1 + tree_iteration(p, d, leaves_of(s))
            m.ev("expired_requests")
            m.ok(t.n_points <= b, kind + ": more than one iteration although the limit had expired", points=t.n_points, iteration=b)
            have = len(S)
            if kind in ("dm", "lais", "mpmc", "rejection", "mh") and step == 0:
                S, W, late = SM.request(s, t, 20)
                have = len(S)


class Enough(Exception):
    pass


def generous(m, rng, kind, reps):
    """Generous limits do not change the result."""
    for _ in range(reps):
        s, p, t, lo, hi, lab = SM.scenario(rng, kind, targets=("gauss", "gmm", "corner"))
        if kind in ("nested", "multinested") and lab[1] > 2:
            continue
        ns = [n for n in SM.sizes(kind, p, rng, 2) if n < 60] or [10]
        seed = int(rng.integers(2 ** 31))
        m.trial("generous", *lab, str(p), tuple(ns))
        out, enough = [], None
        for lim, step, tick in ((1e9, 0., 0.), (float("inf"), 1., 0.), (1e9, 1e3, 1e-3), (10 ** 8, .5, .1)):
            np.random.seed(seed)
            x, tt = SM.make(kind, lo, hi, p), t.clone()
            with VirtualClock(tick=tick) as c:
                def ev(y):
                    c.advance(step * len(y))
                    if tt.n_points > (enough or 20000):
                        raise Enough
                tt.on_eval = ev
                try:
                    out.append([np.array(a, float) for n in ns for a in x.importance_sample(tt, n, timeout=lim)] + [np.array([tt.n_points], float)])
                except Enough:  # a likelihood-constrained search that does not finish: not a generous limit
                    m.ev("endless_searches")
                    if enough is not None:
                        m.fail(kind + ": a generous time limit changes the number of evaluations", limit=lim, more_than=enough)
                    break
                enough = tt.n_points
        if not out:
            continue
        m.ev("generous_twins")
        for o in out[1:]:
            for a, b in zip(o, out[0]):
                if not m.close(a, b, kind + ": a generous time limit changes the result", rtol=0):
                    break


def busy(m, rng, kind, reps, slow=False):
    """Slow evaluations: the number of points spent is proportional to the limit."""
    for _ in range(reps):
        s, p, t, lo, hi, lab = SM.scenario(rng, kind, targets=("gauss", "peak", "gmm") if not slow else ("cusp",))
        d = len(lo)
        lim = int(rng.integers(1, 120))
        n = 500
        if slow:  # searches that take longer and longer
            lim, n = int(rng.integers(4000, 9000)), 5000
        if kind == "rejection" and rng.random() < .5:  # many batches of few points, hardly any accepted
            p = dict(p, scaling=p["scaling"] * 10. ** rng.uniform(2, 5))
            s = SM.make(kind, lo, hi, p)
            n = int(rng.integers(1, 8))
        m.trial("busy", *lab, str(p), lim, n)
        for k in range(2):
            have = len(s.samples)
            t.n_points = 0
            with VirtualClock() as c:
                def ev(x):
                    c.advance(len(x))
                    if t.n_points > lim + 20000:
                        raise Enough
                t.on_eval = ev
                try:
                    S, W = s.importance_sample(t, n, timeout=lim)
                except Enough:
                    m.fail(kind + ": the work goes on and on after the time limit", points=t.n_points, limit=lim, wanted=n)
                    return
                finally:
                    t.on_eval = None
            b = iteration(kind, p, s, d, n, have)
            if kind == "hidaisee":
                b = 1 + max(len(S), p["n_min"])
            if b is None:
                b = 1 + tree_iteration(p, d, leaves_of(s))
            m.ev("slow_requests")
            m.ok(t.n_points <= lim + b, kind + ": evaluations beyond the time limit", points=t.n_points, limit=lim, iteration=b)
            if len(S) < n and kind not in ("tp_ess", "tp_ess_leaf"):
                m.ok(t.n_points >= lim, kind + ": gave up before the time limit although samples are missing", points=t.n_points, limit=lim, got=len(S), wanted=n)


def cases(tier):
    k = 1 if tier == "quick" else 12
    r = []
    for s in SM.KINDS:
        r += [("expiry-%s-%d" % (s, b), expiry, dict(kind=s, reps=6 * k)) for b in range(2)]
        r += [("zero-%s" % s, zero, dict(kind=s, reps=6 * k)), ("generous-%s" % s, generous, dict(kind=s, reps=5 * k)),
              ("busy-%s" % s, busy, dict(kind=s, reps=6 * k))]
    r += [("slow-%s" % s, busy, dict(kind=s, reps=2 * k, slow=True)) for s in ("nested", "multinested")]
    return r
