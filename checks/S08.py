import numpy as np
from vlib import fork
from vlib import samplers as SM
from vlib import targets as T

TASKS_PER_PROCESS = 1  # nothing is left over from other cases
RULE = "one monitored execution per pair (used and reset sampler, fresh sampler) run on the same requests with the same random stream"
ASSUMPTIONS = ["both samplers are reset at the same random state, so that initialisation draws are compared too"]


def follow(m, s, t, plan, X, seed, make=None):
    """Reset (or just constructed) at the seed, then the plan; returns everything observable."""
    np.random.seed(seed)
    if make is not None:
        s = make()
    else:
        s.reset()
    out = [("stats after reset", np.array([s.num_proposal_samples, s.num_proposal_evals, s.num_target_evals, len(s.samples), len(s.weights)], float))]
    for k, f in (("density", s.prob), ("log density", s.log_prob)):  # before anything is requested
        try:
            v = np.array(f(X), float).reshape(-1)
        except Exception:
            v = np.zeros(0)
        out.append((k + " without samples", v))
    for op, n in plan:
        n0 = t.n_points
        if op == "request":
            S, W, _ = SM.request(s, t, n)
        elif op == "short":
            S, W, _ = SM.request(s, t, n, limit=9)
        out.append(("samples", np.array(S, float)))
        out.append(("weights", np.array(W, float)))
        out.append(("target evaluations", np.array([t.n_points - n0], float)))
        st = {k: v for k, v in s.get_stats().items()} if np.asarray(W).sum() > 0 else {}
        out.append(("statistics", np.array([float(st[k]) for k in sorted(st)])))
        if np.asarray(W).sum() > 0:
            out.append(("density", np.array(s.prob(X), float).reshape(-1)))
            out.append(("acceptance rate", np.array([s.get_acceptance_rate()], float)))
            out.append(("effective sample size", np.array([s.get_NESS()], float)))
        if op == "request" and getattr(s, "trajectory_samples", None) is not None:
            out.append(("trajectory", np.array(s.trajectory_samples, float).reshape(len(s.trajectory_samples), -1)))
            out.append(("trajectory labels", np.array(s.trajectory_types, float)))
        if getattr(s, "live_points", None) is not None:
            out.append(("live points", np.array(s.live_points, float)))
    if np.asarray(W).sum() > 0:
        out.append(("proposal draws", np.array(s.sample(5), float)))
    out.append(("random stream", np.random.random(3)))
    return out


def use(m, rng, s, p, kind, t, X, lo, hi, long):
    """A history to forget: other targets, other sizes, time-outs, draws, evaluations, earlier resets."""
    d = len(lo)
    hist, reached = [], []
    other = T.make(str(rng.choice(["gauss", "half", "corner", "gmm"])), rng, lo, hi, truncate=True)
    S, W = np.zeros((0, d)), np.zeros(0)
    if long:
        S, W, _ = SM.request(s, t.clone(), int(rng.integers(210, 500)), limit=9000)
        hist.append("long")
        reached.append(len(S))
        m.ev("long_histories")
        m.ev("long_history_samples", len(S))
    for _ in range(int(rng.integers(0 if long else 1, 5))):
        op = str(rng.choice(["request", "request", "short", "other", "draw", "reset", "density", "draw_nothing"]))
        hist.append(op)
        if op in ("request", "short", "other"):
            S, W, _ = SM.request(s, other if op == "other" else t.clone(), len(S) + int(rng.integers(1, 60)),
                                 limit=4000 if op != "short" else 7)
            reached.append(len(S))
        elif op == "reset":
            s.reset()
            S, W = np.zeros((0, d)), np.zeros(0)
        elif np.asarray(W).sum() > 0:
            m.ev("history_uses")
            if op == "draw":
                s.sample(4)
            elif op == "density":
                s.prob(X)
                s.log_prob(X)
            else:
                s.get_NESS()
                s.get_stats()
    if reached and np.asarray(W).sum() > 0 and rng.random() < .5:
        s.prob(X), s.log_prob(X)
        hist.append("density")
    return hist, reached


def run(m, rng, kind, reps, long=False):
    tag = kind + ": "
    for _ in range(reps):
        s, p, t, lo, hi, lab = SM.scenario(rng, kind, dims=(1, 1, 2, 3) if not long else (1, 2))
        if "sigma" in p and rng.random() < .4:  # kernels wider than the domain
            p["sigma"] = (float(rng.choice([1.5, 3.])) * float(np.max(np.asarray(hi, float) - lo))) ** 2
            m.ev("wide_kernels")
        s = SM.make(kind, lo, hi, p)
        d = len(lo)
        m.state(*lab)
        w = np.asarray(hi, float) - lo
        X = rng.uniform(lo - .1 * w, hi + .1 * w, (20, d))
        plan = [(str(rng.choice(["request", "request", "short"])), int(n)) for n in SM.sizes(kind, p, rng, int(rng.integers(1, 4)))]
        again, seed, mix = rng.random() < .5, int(rng.integers(2 ** 31)), int(rng.integers(2 ** 31))
        m.trial(*lab, str(p), tuple(plan), seed, mix)
        m.ev("histories")
        untouched = rng.random() < .4  # the fresh one is not even reset
        m.ev("against_newly_constructed", untouched)

        def used(r):
            np.random.seed(mix)
            with np.errstate(all="ignore"):
                hist, reached = use(r, np.random.default_rng(mix), s, p, kind, t, X, lo, hi, long)
                todo = plan if not (reached and again) else [("request", max(reached[-1], 1)), ("request", reached[-1] + 9)]  # as many samples as before
                return hist, todo, follow(r, s, t.clone(), todo, X, seed)
        hist, plan, a = fork.run(m, used)

        def unused(r):
            np.random.seed(mix)
            with np.errstate(all="ignore"):
                if untouched:
                    return follow(r, None, t.clone(), plan, X, seed, lambda: SM.make(kind, lo, hi, p))
                return follow(r, SM.make(kind, lo, hi, p), t.clone(), plan, X, seed)
        b = fork.run(m, unused)
        m.ok([n for n, _ in a] == [n for n, _ in b], tag + "different observations after a reset", used=[n for n, _ in a], fresh=[n for n, _ in b])
        m.ok((a[0][1] == 0).all(), tag + "counters or samples are left after a reset", values=a[0][1])
        for (n, x), (_, y) in zip(a, b):
            m.ev("observations")
            if not m.close(x, y, tag + n + " after a reset differs from a fresh sampler", rtol=1e-12, history=hist, plan=plan):
                break


def cases(tier):
    SM.cls("dm")  # imported once, before the processes are forked
    k = 1 if tier == "quick" else 15
    slow = ("tp_normal_leaf", "tp_normal", "nested", "multinested")
    return [("%s-%d" % (s, b), run, dict(kind=s, reps=8 * k)) for b in range(3) for s in SM.KINDS] + \
           [("long-%s" % s, run, dict(kind=s, reps=(2 if s in slow else 4) * k, long=True)) for s in SM.KINDS]
