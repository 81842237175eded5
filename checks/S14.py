import numpy as np
from vlib import samplers as SM
from vlib import targets as T

from vlib.vclock import VirtualClock

RULE = "one monitored execution per sampler history run on a strict proxy target and on the plain target it stands for"
ASSUMPTIONS = ["the proxy and the plain target return bitwise identical values, so identical random streams must give identical results"]
CPU_LIMIT = 200
STYLES = ["flat", "readonly", "kept", "buffer"]


class Proxy:
    """Offers nothing but the two evaluations, and reports every argument that is not a finite N-by-d float array."""
    __slots__ = ("_f", "_d", "_style", "_viol", "_clock", "_kept", "_n", "_buf")

    def __init__(self, f, d, style, viol, clock):
        self._f, self._d, self._style, self._viol, self._clock = f, d, style, viol, clock
        self._kept, self._n, self._buf = [], 0, None

    def _check(self, x, name):
        v = None
        if type(x) is not np.ndarray:
            v = "a %s instead of an array" % type(x).__name__
        elif x.ndim != 2 or x.shape[1] != self._d:
            v = "shape %s instead of N-by-%d" % (x.shape, self._d)
        elif x.dtype.kind != "f":
            v = "dtype %s instead of floating point" % x.dtype
        elif not np.isfinite(x).all():
            v = "points that are not finite"
        if v:
            self._viol.append("%s evaluated with %s" % (name, v))
        y = np.array(x, float).reshape(-1, self._d)
        self._n += len(y)
        self._clock.advance(len(y))
        return y

    def _out(self, r):
        r = np.array(r, float).reshape(-1)
        if self._style == "readonly":
            r.setflags(write=False)
        elif self._style == "kept":  # the target keeps its own values: they must not be changed by the caller
            if len(self._kept) < 3000:
                self._kept.append((r, r.copy()))
        elif self._style == "buffer":  # the values live in a larger buffer
            b = np.full((len(r), 2), np.nan)
            b[:, 0] = r
            r = b[:, 0]
        return r

    def prob(self, x):
        return self._out(self._f.prob(self._check(x, "prob()")))

    def log_prob(self, x):
        return self._out(self._f.log_prob(self._check(x, "log_prob()")))

    def __getattr__(self, name):
        if not name.startswith("__"):
            self._viol.append("attribute %s of the target is used" % name)
        raise AttributeError("the target has no %s" % name)

    def __setattr__(self, name, v):
        if name in Proxy.__slots__:
            return object.__setattr__(self, name, v)
        self._viol.append("attribute %s of the target is set" % name)


class Plain:
    """The plain target, counting the clock."""

    def __init__(self, f, clock):
        self.f, self.clock = f, clock

    def prob(self, x):
        self.clock.advance(len(x))
        return self.f.prob(x)

    def log_prob(self, x):
        self.clock.advance(len(x))
        return self.f.log_prob(x)


def history(kind, lo, hi, p, seed, ns, mk):
    np.random.seed(seed)
    x = SM.make(kind, lo, hi, p)
    out = []
    with VirtualClock() as c:
        t = mk(c)
        for n in ns:
            S, W = x.importance_sample(t, n, timeout=3000)
            out += [np.array(S, float), np.array(W, float)]
        out.append(np.array([x.num_target_evals, x.num_proposal_evals, x.num_proposal_samples], float))
        X = np.random.RandomState(seed).uniform(lo, hi, (9, len(lo)))
        with np.errstate(all="ignore"):
            out.append(np.array(x.prob(X), float))
    return out, t


def strict(m, rng, kind, reps, real):
    tag = kind + ": "
    for _ in range(reps):
        d = int(rng.choice([1, 1, 2, 2, 3]))
        lo, hi, dk = T.domain(rng, d)
        if real:  # a distribution of the code under test
            k = str(rng.choice(["normal", "normal", "gmm"]))
            w = hi - lo
            from ais_benchmarks.distributions import CMultivariateNormal, CMixtureModel
            M = [CMultivariateNormal({"mean": lo + w * rng.uniform(.3, .7, d), "sigma": np.diag((w * rng.uniform(.1, .3, d)) ** 2),
                                      "support": [np.array(lo, float), np.array(hi, float)]}) for _ in range(3)]
            f = M[0] if k == "normal" else CMixtureModel({"models": M, "weights": rng.dirichlet(np.ones(3)), "dims": d, "support": [lo, hi]})
            f0, lab = f, (kind, d, dk, k)
            p = SM.defaults(kind, lo, hi, rng)
            if kind == "rejection":
                p["scaling"] = float(f.prob(rng.uniform(lo, hi, (500, d))).max() * np.prod(hi - lo) * 2)
        else:
            k = str(rng.choice(["gauss", "gmm", "half", "box", "ridge", "corner", "laplace", "flat"]))
            f = T.make(k, rng, lo, hi, 1., truncate=bool(rng.random() < .5))
            lab = (kind, d, dk, k)
            _, p = SM.random(kind, rng, lo, hi, f)
        ns = SM.sizes(kind, p, rng, int(rng.integers(1, 4)))
        seed, style = int(rng.integers(2 ** 31)), str(rng.choice(STYLES))
        m.trial(real, *lab, style, str(p), tuple(ns), seed)
        m.state(*lab, style)
        viol = []
        a, ta = history(kind, lo, hi, p, seed, ns, lambda c: Proxy(f, d, style, viol, c))
        m.ev("proxy_evaluations", ta._n)
        m.ev("histories_on_proxy")
        for v in sorted(set(viol))[:2]:
            m.fail(tag + v)
        m.ok(not viol, tag + "target used beyond its two batch evaluations")
        if style == "kept":
            m.ok(all(np.array_equal(x, y, equal_nan=True) for x, y in ta._kept), tag + "values returned by the target are modified")
        b, _ = history(kind, lo, hi, p, seed, ns, lambda c: Plain(f, c))
        for x, y in zip(a, b):
            if not m.close(x, y, tag + "results depend on more than the values of the target", rtol=1e-12):
                break
        m.ev("points_returned", len(a[-4]) if len(a) >= 4 else 0)


def cases(tier):
    k = 1 if tier == "quick" else 20
    r = []
    for s in SM.KINDS:
        r += [("strict-%s" % s, strict, dict(kind=s, reps=14 * k, real=False)), ("real-%s" % s, strict, dict(kind=s, reps=6 * k, real=True))]
    return r
