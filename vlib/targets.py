"""Target densities supplied by the harness (nothing of the code under test) and instrumented wrappers."""
import math
import numpy as np


class Target:
    """Unnormalised density exp(logf(x)) * c. Offers only what the sampling methods are documented to need."""

    def __init__(self, name, d, logf, c=1.0, box=None):
        self._name, self.d, self._logf, self._lc, self._box = name, d, logf, math.log(c), box
        self.n_points = self.n_calls = 0
        self.on_eval = None  # callback(points)
        self.bad = None

    def _logd(self, x):
        with np.errstate(all="ignore"):
            r = self._logf(x) + self._lc
        if self._box is not None:
            r = np.where(np.all((x >= self._box[0]) & (x <= self._box[1]), axis=1), r, -np.inf)
        return r

    def _enter(self, x):
        if not isinstance(x, np.ndarray) or x.ndim != 2 or x.shape[1] != self.d:
            self.bad = "target evaluated with %s of shape %s instead of an N-by-%d array" % (
                type(x).__name__, getattr(x, "shape", None), self.d)
            x = np.asarray(x, float).reshape(-1, self.d)
        if not np.isfinite(x.astype(float)).all():
            self.bad = "target evaluated at a point that is not finite"
        self.n_points += len(x)
        self.n_calls += 1
        if self.on_eval is not None:
            self.on_eval(x)
        return x

    def log_prob(self, x):
        return self._logd(self._enter(x))

    def prob(self, x):
        return np.exp(self._logd(self._enter(x)))

    # harness only
    def lp(self, x):
        return self._logd(np.asarray(x, float).reshape(-1, self.d))

    def scaled(self, c):
        return Target(self._name, self.d, self._logf, math.exp(self._lc) * c, self._box)

    def clone(self):
        return Target(self._name, self.d, self._logf, math.exp(self._lc), self._box)

    def moments(self, fs, lo, hi):
        """Expectations of fs under the normalised target restricted to the box, by tensor quadrature (d <= 2) or product."""
        from vlib.ref import gauss_grid
        if self.d == 1:
            x, w = gauss_grid(lo[0], hi[0], 16, 400)
            X = x.reshape(-1, 1)
        elif self.d == 2:
            (x, a), (y, b) = gauss_grid(lo[0], hi[0], 6, 60), gauss_grid(lo[1], hi[1], 6, 60)
            X = np.stack(np.meshgrid(x, y, indexing="ij"), -1).reshape(-1, 2)
            w = np.outer(a, b).reshape(-1)
        else:
            g = [gauss_grid(lo[j], hi[j], 4, 12) for j in range(self.d)]
            X = np.stack(np.meshgrid(*[a for a, _ in g], indexing="ij"), -1).reshape(-1, self.d)
            w = g[0][1]
            for _, b in g[1:]:
                w = np.multiply.outer(w, b)
            w = w.reshape(-1)
        p = np.exp(self.lp(X)) * w
        return [float(np.sum(p * f(X)) / p.sum()) for f in fs], float(p.sum())


def domain(rng, d, kind=None):
    kind = kind or str(rng.choice(["unit", "offset", "aniso", "tiny", "wide", "int"]))
    if kind == "unit":
        lo, hi = -np.ones(d), np.ones(d)
    elif kind == "offset":
        lo = np.full(d, float(rng.uniform(-20, 20)))
        hi = lo + rng.uniform(.5, 3)
    elif kind == "aniso":
        lo = rng.uniform(-5, 5, d)
        hi = lo + np.exp(rng.uniform(-1, 2, d))
    elif kind == "tiny":
        lo = rng.uniform(-.01, .01, d)
        hi = lo + 1e-2
    elif kind == "wide":
        lo, hi = np.full(d, -100.), np.full(d, 300.)
    else:
        lo, hi = np.full(d, -2), np.full(d, 3)  # integer arrays
    return np.array(lo), np.array(hi), kind


def gauss(d, mu, sd, name="gauss", **k):
    mu, sd = np.asarray(mu, float), np.asarray(sd, float)
    return Target(name, d, lambda x: -0.5 * np.sum(((x - mu) / sd) ** 2, axis=1) - np.sum(np.log(sd * np.ones(d))) - d / 2 * math.log(2 * math.pi), **k)


KINDS = ["gauss", "gmm", "half", "box", "flat", "ridge", "peak", "corner", "laplace"]


def make(kind, rng, lo, hi, c=1.0, truncate=False):
    """A target on the domain; truncate: zero density outside of the domain."""
    lo, hi = np.asarray(lo, float), np.asarray(hi, float)
    d, w, mid = len(lo), hi - lo, (lo + hi) / 2
    box = (lo, hi) if truncate else None
    mu = lo + w * rng.uniform(.3, .7, d)
    if kind == "gauss":
        return gauss(d, mu, w * rng.uniform(.08, .2, d), c=c, box=box)
    if kind == "peak":
        return gauss(d, mu, w * .02, "peak", c=c, box=box)
    if kind == "gmm":
        k = int(rng.integers(2, 5))
        M, S, A = lo + w * rng.uniform(.15, .85, (k, d)), w * rng.uniform(.05, .12, (k, d)), rng.dirichlet(np.ones(k) * 2)

        def lg(x):
            z = (x[:, None, :] - M) / S
            e = -0.5 * np.sum(z * z, 2) - np.sum(np.log(S), 1) - d / 2 * math.log(2 * math.pi) + np.log(A)
            m = e.max(1)
            return m + np.log(np.exp(e - m[:, None]).sum(1))
        return Target("gmm", d, lg, c, box)
    if kind == "half":
        g = gauss(d, mid, w * .25)
        return Target("half", d, lambda x: np.where(x[:, 0] > mid[0], g._logf(x), -np.inf), c, box)
    if kind == "box":
        a, b = lo + w * .2, lo + w * .75
        v = -np.sum(np.log(b - a))
        return Target("box", d, lambda x: np.where(np.all((x >= a) & (x <= b), axis=1), v, -np.inf), c, box)
    if kind == "flat":
        v = -np.sum(np.log(w))
        return Target("flat", d, lambda x: np.full(len(x), v), c, (lo, hi))
    if kind == "ridge":
        def lr(x):
            z = (x - mid) / w
            return -0.5 * (z[:, 0] / .2) ** 2 - 0.5 * np.sum(((z[:, 1:] - z[:, :1] ** 2 * 2 + .1) / .12) ** 2, axis=1)
        return Target("ridge", d, lr, c, box)
    if kind == "corner":
        return gauss(d, lo + .02 * w, w * .2, "corner", c=c, box=box)
    if kind == "laplace":
        return Target("laplace", d, lambda x: -np.sum(np.abs(x - mu) / (w * .12), axis=1), c, box)
    if kind == "cusp":  # almost not integrable at mu: partitions become very deep
        return Target("cusp", d, lambda x: -.97 * d * np.log(np.max(np.abs(x - mu) / w, axis=1) + 1e-9), c, box)
    raise KeyError(kind)


class Strict:
    """Exposes nothing but prob and log_prob, and refuses anything that is not a finite N-by-d float array."""
    __slots__ = ("_t", "_ro", "_ev", "_viol")

    def __init__(self, t, viol, style="flat"):
        self._t, self._ro, self._ev, self._viol = t, style, [0, 0], viol

    def _check(self, x):
        if not isinstance(x, np.ndarray):
            self._viol.append("target evaluated with a %s" % type(x).__name__)
        elif x.ndim != 2 or x.shape[1] != self._t.d:
            self._viol.append("target evaluated with shape %s, dimension is %d" % (x.shape, self._t.d))
        elif x.dtype.kind != "f":
            self._viol.append("target evaluated with dtype %s" % x.dtype)
        elif not np.isfinite(x).all():
            self._viol.append("target evaluated at a point that is not finite")
        elif len(x) == 0:
            pass
        self._ev[0] += 1
        self._ev[1] += np.size(x) // self._t.d
        y = np.array(x, float).reshape(-1, self._t.d)
        if self._ro == "inplace":  # a target is free to work on the array it was given a copy of
            return y
        return y

    def prob(self, x):
        r = np.exp(self._t._logd(self._check(x)))
        return self._out(r)

    def log_prob(self, x):
        return self._out(self._t._logd(self._check(x)))

    def _out(self, r):
        if self._ro == "readonly":
            r.setflags(write=False)
        return r

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        self._viol.append("attribute %s of the target is used" % name)
        raise AttributeError("the target has no %s" % name)
