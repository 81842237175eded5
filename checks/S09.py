import copy
import numpy as np
from vlib import fork
from vlib import samplers as SM
from vlib import targets as T
from vlib.mon import fp

RULE = "one monitored execution per interleaving of the requests of two to four sampler instances, compared with each of them running alone"
TASKS_PER_PROCESS = 1  # nothing is left over from other cases
ASSUMPTIONS = ["every instance owns a random stream that is swapped in around its calls"]


class Actor:
    """A sampler with its own stream of the global random generator and a plan of operations."""

    def __init__(self, kind, params, lo, hi, t, plan, seed, shared=None):
        self.kind, self.t, self.plan, self.pos, self.out = kind, t, plan, 0, []
        r = np.random.RandomState(seed)
        self.state = r.get_state()
        self.hand, self.mass = [], 0.
        self.s = self.swap(lambda: SM.make(kind, lo, hi, params) if shared is None else SM.cls(kind)(shared))

    def swap(self, f):
        keep = np.random.get_state()
        np.random.set_state(self.state)
        try:
            return f()
        finally:
            self.state = np.random.get_state()
            np.random.set_state(keep)

    def step(self, m):
        op, n, X = self.plan[self.pos]
        self.pos += 1

        def f():
            s = self.s
            if op == "request":
                S, W, _ = SM.request(s, self.t, n)
                self.hand.append((S, W, fp(S), fp(W)))
                self.mass = float(np.asarray(W).sum())
                return [np.array(S, float), np.array(W, float)]
            if op == "reset":
                s.reset()
                self.mass = 0.
                return []
            usable = self.mass > 0
            if op == "density" and usable:
                return [np.array(s.prob(X), float).reshape(-1)]
            if op == "draw" and usable and self.kind != "mh":
                return [np.array(s.sample(3), float)]
            if op == "stats" and usable:
                st = s.get_stats()
                r = [float(st[k]) for k in sorted(st)]
                for f in ("get_acceptance_rate", "get_NESS", "get_approx_NESS"):
                    if hasattr(s, f) and (f != "get_approx_NESS" or self.kind != "mh"):
                        try:
                            r.append(float(getattr(s, f)()))
                        except (NotImplementedError, TypeError):
                            pass
                return [np.array(r)]
            return []
        self.out.append((op, self.swap(f)))
        m.ev("steps")
        m.ev("steps_" + op)
        for S, W, a, b in self.hand:
            m.ok(fp(S) == a and fp(W) == b, self.kind + ": a sample set already handed out was modified", op=op)

    @property
    def done(self):
        return self.pos >= len(self.plan)


def plan(rng, kind, p, lo, hi, n):
    w = np.asarray(hi, float) - lo
    X = rng.uniform(lo - .1 * w, hi + .1 * w, (6, len(lo)))
    ns, out = SM.sizes(kind, p, rng, n), []
    for k in ns:
        out.append(("request", k, X))
        for _ in range(int(rng.integers(0, 3))):
            out.append((str(rng.choice(["density", "draw", "stats", "reset"], p=[.4, .3, .2, .1])), 0, X))
    return out


def untouched(m, acts):
    for a in acts:
        for S, W, f1, f2 in a.hand:
            m.ok(fp(S) == f1 and fp(W) == f2, a.kind + ": a sample set already handed out was modified")


def run(m, rng, kinds, reps):
    for _ in range(reps):
        d = int(rng.choice([1, 2, 2, 3])) if "rejection" not in kinds else int(rng.choice([1, 2]))
        lo, hi, dk = T.domain(rng, d)
        share_target, share_params, shared = rng.random() < .6, rng.random() < .4, {}
        t0 = T.make(str(rng.choice(["gauss", "gmm", "half", "corner"])), rng, lo, hi)
        acts = []
        picks = [str(rng.choice(kinds)) for _ in range(int(rng.integers(2, 5)))]
        if rng.random() < .5:
            picks = [picks[0]] * len(picks)  # several instances of one method
        specs = []
        for k in picks:
            p = SM.params(k, rng, lo, hi, t0)
            if share_params:  # several instances made from one dictionary
                p = shared.setdefault(k, (p, dict(p, space_min=lo, space_max=hi, dims=len(lo), name=k)))[0]
            t = t0 if share_target else t0.scaled(2.)
            specs.append((k, p, t, plan(rng, k, p, lo, hi, int(rng.integers(1, 4))), int(rng.integers(2 ** 31))))
        m.state(tuple(picks), d, dk, share_target)
        m.trial(tuple(picks), d, dk, share_target, [[(o, n) for o, n, _ in s[3]] for s in specs])
        lim = fp(lo, hi)
        alone = []
        for k, p, t, pl, seed in specs:  # each one alone in a process of its own, on private copies of everything
            def by_itself(r):
                with np.errstate(all="ignore"):
                    a = Actor(k, copy.deepcopy(p), lo.copy(), hi.copy(), t.clone(), pl, seed)
                    while not a.done:
                        a.step(r)
                    untouched(r, [a])
                return a.out
            alone.append(fork.run(m, by_itself))
        noise, mix = int(rng.integers(2 ** 31)), int(rng.integers(2 ** 31))

        def all_together(r):
            np.random.seed(noise)
            ro = np.random.default_rng(mix)
            together = []
            with np.errstate(all="ignore"):
                for k, p, t, pl, seed in specs:  # sharing the limits (and possibly the target and the parameters), constructed first
                    together.append(Actor(k, p, lo, hi, t, pl, seed, shared[k][1] if share_params else None))
                order = []
                while any(not a.done for a in together):
                    i = int(ro.choice([i for i, a in enumerate(together) if not a.done]))
                    order.append(i)
                    together[i].step(r)
                    np.random.random(int(ro.integers(0, 4)))  # noise on the stream outside of the instances
            untouched(r, together)
            r.ok(fp(lo, hi) == lim, "domain limits of the caller were modified", kinds=picks)
            r.ok(not t0.bad, str(t0.bad))
            return order, [a.out for a in together]
        order, together = fork.run(m, all_together)
        m.ev("interleavings")
        m.ev("shared_parameters", share_params)
        m.state("order", tuple(order))
        for k, a, b in zip(picks, together, alone):
            for (op, x), (_, y) in zip(a, b):
                ok = m.eq(len(x), len(y), k + ": number of results of " + op)
                if not all(ok and m.close(u, v, k + ": " + op + " differs from the same sampler running alone", rtol=1e-12, order=order, kinds=picks)
                           for u, v in zip(x, y)):
                    break


def library_target(m, rng, kind, reps):
    """Targets that are distributions of the library are left alone, parameters included."""
    from vlib import ref
    for _ in range(reps):
        d = int(rng.choice([1, 2]))
        t, r = ref.build(str(rng.choice(["normal", "uniform"])), rng, d)[:2]
        b = r.box()
        lo, hi = np.array(b[0], float), np.array(b[1], float)
        w = hi - lo
        lo, hi = lo - .1 * w, hi + .1 * w
        p = SM.defaults(kind, lo, hi, rng)
        if kind == "rejection":
            X = rng.uniform(lo, hi, (3000, d))
            p["scaling"] = float(np.exp(r.logpdf(X)).max() * np.prod(hi - lo) * 1.3)
        X = rng.uniform(lo, hi, (30, d))
        keep = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in vars(t).items() if isinstance(v, (np.ndarray, float, int, str))}
        f0 = np.array(t.log_prob(X)).copy()
        s = SM.make(kind, lo, hi, p)
        m.trial("library target", kind, d, str(p))
        from vlib.vclock import VirtualClock
        with VirtualClock(tick=.01):
            for n in (3, 25):
                S, W = s.importance_sample(t, n, timeout=200)
                if len(S) and np.asarray(W).sum() > 0:
                    s.prob(X)
        m.ev("library_targets")
        for k, v in keep.items():
            m.ok(fp(vars(t).get(k)) == fp(v), kind + ": sampling modified attribute %s of the target" % k, before=v, after=vars(t).get(k))
        m.close(t.log_prob(X), f0, kind + ": sampling changed the density of the target")
        # writing into the returned arrays must not reach the target either
        S[...] = 0
        m.close(t.log_prob(X), f0, kind + ": the returned samples share memory with the target")


def reproducible(m, rng, kind, reps):
    for _ in range(reps):
        s, p, t, lo, hi, lab = SM.scenario(rng, kind)
        seed = int(rng.integers(2 ** 31))
        ns = SM.sizes(kind, p, rng, 3)
        out = []
        m.trial("reproducible", *lab, str(p))
        for k in range(2):
            np.random.seed(seed)
            x = SM.make(kind, lo, hi, copy.deepcopy(p))
            x.reset()
            out.append([a for n in ns for a in SM.request(x, t.clone(), n)[:2]])
            SM.request(s, t.clone(), 5)  # somebody else works in between
        m.ev("reproductions")
        for a, b in zip(*out):
            if not m.close(a, b, kind + ": the same seed gives another result", rtol=0, atol=0):
                break


def cases(tier):
    SM.cls("dm")  # imported once, before the processes are forked
    k = 1 if tier == "quick" else 12
    r = [("mixed-%d" % b, run, dict(kinds=SM.KINDS, reps=8 * k)) for b in range(6)]
    r += [("same-%s" % s, run, dict(kinds=[s], reps=5 * k)) for s in SM.KINDS]
    r += [("target-%s" % s, library_target, dict(kind=s, reps=4 * k)) for s in SM.KINDS]
    r += [("seed-%s" % s, reproducible, dict(kind=s, reps=4 * k)) for s in SM.KINDS]
    return r
