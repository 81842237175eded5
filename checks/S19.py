import contextlib
import io
import numpy as np
from vlib import samplers as SM
from vlib import targets as T
from vlib.mon import fp

RULE = "one monitored execution per pair of histories of one sampler, with and without measurements, evaluations and diagnostics in between"
ASSUMPTIONS = ["both runs restart the random stream before every request, so that they only differ if the sampler was changed",
               "metrics draw their evaluation points: the random state is restored after a metric, and only after a metric"]


def rngstate():
    s = np.random.get_state()
    return fp(s[1], s[2], s[3], s[4])


def basics(s):
    return dict(samples=np.array(s.samples, float), weights=np.array(s.weights, float), proposals=np.array(int(s.num_proposal_samples)),
                targets=np.array(int(s.num_target_evals)), evaluations=np.array(int(s.num_proposal_evals)), name=np.array(s.name))


def differ(a, b):
    for k in a:
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if x.shape != y.shape or not (np.array_equal(x, y, equal_nan=True) if x.dtype.kind == "f" else np.array_equal(x, y)):
            return k
    return None


def scribble(a):
    """What was reported is the caller's: overwriting it is none of the sampler's business."""
    if isinstance(a, np.ndarray) and a.flags.writeable and a.dtype.kind == "f" and a.size:
        a *= -3
    elif isinstance(a, dict):
        a.clear()
    return a


def observers(s, t, X, lo, hi):
    from ais_benchmarks.metrics.divergences import CJSDivergence, CKLDivergence
    from ais_benchmarks.metrics.statistics import CExpectedValueMSE

    class P:
        """The target as the metrics see it, on its own counters."""
        dims = len(lo)
        c = t.clone()

        def support(self):
            return [np.array(lo, float), np.array(hi, float)]

        def prob(self, x):
            return self.c.prob(x)

        def log_prob(self, x):
            return self.c.log_prob(x)

    def metric(c):
        def f():
            if len(s.samples):
                s.prob(X[:1].copy())  # a density may be built on its first use
            st = np.random.get_state()
            try:
                return c().compute(p=P(), q=s, nsamples=25)
            finally:
                np.random.set_state(st)
        return f

    def tree():
        T_ = getattr(s, "T", None)
        if T_ is None:
            return None
        out = [str(T_)[:10], repr(T_)[:10]]
        if hasattr(T_, "find"):
            out.append(repr(T_.find((np.asarray(lo, float) + hi) / 2))[:5])
        leaves = [n for n in getattr(T_, "leaves", []) if not isinstance(n, (int, np.integer))]
        out += [repr(n)[:5] for n in leaves[:3]] + [len(sorted(leaves, reverse=True))]
        return out
    return dict(prob=lambda: s.prob(X.copy()), log_prob=lambda: s.log_prob(X.copy()), prob_one=lambda: s.prob(X[:1].copy()), prob_many=lambda: s.prob(np.tile(X, (15, 1))),
                log_prob_many=lambda: s.log_prob(np.tile(X, (15, 1))),
                prob_own=lambda: s.prob(np.array(s.samples, float)[-7:]), stats=s.get_stats, ness=s.get_NESS, rate=s.get_acceptance_rate,
                ness_weights=s.get_approx_NESS, frames=s.get_viz_frames, tree=tree,
                text=lambda: (str(s)[:5], repr(s)[:5]), kl=metric(CKLDivergence), jsd=metric(CJSDivergence), evmse=metric(CExpectedValueMSE),
                counters=lambda: (s.num_proposal_samples, s.num_target_evals, s.num_proposal_evals))


def quiet(f, log=None):
    out = io.StringIO()
    with np.errstate(all="ignore"), contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        r = f()
    if log is not None:
        log.append(len(out.getvalue()))
    return r


def outcome(s, t, X, S, W):
    o = basics(s)
    o.update(returned_samples=np.array(S, float), returned_weights=np.array(W, float), evaluated=np.array(t.n_points))
    if len(S) and np.asarray(W, float).sum() > 0:
        with np.errstate(all="ignore"):
            o.update(density=np.array(s.prob(X), float).reshape(-1), log_density=np.array(s.log_prob(X), float).reshape(-1),
                     efficiency=np.array(s.get_NESS(), float), rate=np.array(s.get_acceptance_rate(), float))
    return o


def history(m, rng, s, kind, t, lo, hi, plan, seed, X, looking):
    """The history; with `looking` everything is measured in between. Returns one outcome per request."""
    outs = []
    if looking and rng.random() < .5:
        s.debug = True
    np.random.seed(seed)
    quiet(s.reset)
    for i, (op, n) in enumerate(plan):
        if looking:
            look(m, rng, s, kind, t, lo, hi, X, i)
        np.random.seed(seed + i + 1)
        if op == "reset":
            quiet(s.reset)
            continue
        if op == "draw":
            if len(s.samples) and np.asarray(s.weights).sum() > 0:
                outs.append((op, dict(drawn=np.array(quiet(lambda: s.sample(n)), float))))
            continue
        printed = []
        S, W, _ = quiet(lambda: SM.request(s, t, len(s.samples) + n if op != "short" else len(s.samples) + 40, limit=3000 if op != "short" else 6), printed)
        if looking and s.debug:
            m.ev("debug_characters", printed[-1])
        # the outcome is taken at the end of the history where nothing may look in between
        o = dict(returned_samples=np.array(S, float), returned_weights=np.array(W, float), evaluated=np.array(t.n_points))
        o.update(basics(s))
        outs.append((op, o))
    if looking:
        look(m, rng, s, kind, t, lo, hi, X, len(plan))
    S, W = s.samples, s.weights
    outs.append(("end", outcome(s, t, X, S, W)))
    np.random.seed(seed + 77)
    if len(S) and np.asarray(W, float).sum() > 0:
        outs.append(("later draws", dict(drawn=np.array(quiet(lambda: s.sample(4)), float))))
    return outs


def look(m, rng, s, kind, t, lo, hi, X, i):
    obs = observers(s, t, X, lo, hi)
    start = np.random.get_state()
    ready = len(s.samples) > 0 and np.asarray(s.weights, float).sum() > 0
    if rng.random() < .3:
        s.debug = bool(rng.random() < .6)
        m.ev("debug_switches")
    for k in rng.permutation(list(obs))[:int(rng.integers(2, 11))]:
        k = str(k)
        np.random.set_state(start)
        b, r, n = basics(s), rngstate(), t.n_points
        with np.errstate(all="ignore"):
            try:
                v = quiet(obs[k])
            except Exception:
                if ready:
                    raise
                m.ev("refused_before_samples")
                v = None
        m.ev("observations")
        m.state(kind, k, ready)
        m.ok(differ(b, basics(s)) is None, kind + ": an observation changes the sampler", observation=k, changed=differ(b, basics(s)))
        # a density may be built on its first use: that draws, before any sample is there or right after a request
        if k in ("stats", "counters", "ness", "rate", "ness_weights", "frames", "tree", "text"):
            m.ok(rngstate() == r, kind + ": an observation draws", observation=k)
        m.eq(t.n_points, n, kind + ": an observation evaluates the target", observation=k)
        if v is not None and ready and rng.random() < .6 and k not in ("frames", "tree", "text", "counters"):
            v2 = v.copy() if hasattr(v, "copy") else v
            scribble(v)
            w = quiet(obs[k])
            if k not in ("kl", "jsd", "evmse"):
                same = (sorted(w) == sorted(v2) and all(np.array_equal(np.asarray(w[x], float), np.asarray(v2[x], float), equal_nan=True) for x in w)) if isinstance(w, dict) else \
                    np.array_equal(np.asarray(w, float), np.asarray(v2, float), equal_nan=True)
                m.ok(same, kind + ": an observation made twice differs", observation=k, got=str(w)[:200], expected=str(v2)[:200])
            m.ev("repeated")


def run(m, rng, kind, reps):
    for _ in range(reps):
        lo, hi, dk = T.domain(rng, int(rng.choice([1, 1, 2, 3] if kind != "rejection" else [1, 2])))
        tk = str(rng.choice(["gauss", "gmm", "half", "ridge", "corner", "laplace"]))
        t0 = T.make(tk, rng, lo, hi, 1., truncate=bool(rng.random() < .5))
        s1, p = SM.random(kind, rng, lo, hi, t0)
        w = np.asarray(hi, float) - lo
        X = rng.uniform(lo - .1 * w, hi + .1 * w, (9, len(lo)))
        plan = []
        for _ in range(int(rng.integers(2, 6))):
            op = str(rng.choice(["request", "request", "request", "short", "draw", "reset"]))
            plan.append((op, int(rng.integers(1, 45)) if op != "draw" else int(rng.integers(1, 6))))
        plan.append(("request", int(rng.integers(1, 30))))
        seed = int(rng.integers(1 << 30))
        m.trial(kind, tk, dk, lo, hi, seed, plan)
        s2 = SM.make(kind, np.array(lo), np.array(hi), p)
        a = history(m, rng, s1, kind, t0.clone(), lo, hi, plan, seed, X, False)
        b = history(m, rng, s2, kind, t0.clone(), lo, hi, plan, seed, X, True)
        if not m.eq([x[0] for x in a], [x[0] for x in b], kind + ": steps with results"):
            continue
        for i, (x, y) in enumerate(zip(a, b)):
            m.ev("outcomes_compared")
            k = differ(x[1], y[1])
            if not m.ok(k is None and set(x[1]) == set(y[1]), kind + ": results are not those of the history without observations", step=x[0], index=i,
                        changed=k, got=str(y[1].get(k))[:200], expected=str(x[1].get(k))[:200]):
                break


def cases(tier):
    k = 1 if tier == "quick" else 12
    return [("%s-%d" % (kind, b), run, dict(kind=kind, reps=5 * k)) for kind in SM.KINDS for b in range(2)]
