"""Independent reference densities (numpy/scipy closed forms, nothing of the code under test) and generators of the
distributions of the code under test together with their reference."""
import math
import numpy as np
import scipy.stats as st
from scipy.special import logsumexp


class RNormal:
    def __init__(self, mean, cov):
        self.mean, self.cov = np.asarray(mean, float).reshape(-1), np.asarray(cov, float)
        self.d = len(self.mean)

    def logpdf(self, X):
        L = np.linalg.cholesky(self.cov)
        z = np.linalg.solve(L, (np.asarray(X, float) - self.mean).T)
        return -0.5 * np.sum(z * z, 0) - np.sum(np.log(np.diag(L))) - 0.5 * self.d * math.log(2 * math.pi)

    def box(self, k=9.):
        s = np.sqrt(np.diag(self.cov))
        return np.array([self.mean - k * s, self.mean + k * s])

    def cdf(self, X, j):
        return st.norm.cdf(X, self.mean[j], math.sqrt(self.cov[j, j]))

    def draw(self, rng, n):
        return self.mean + rng.standard_normal((n, self.d)) @ np.linalg.cholesky(self.cov).T


class RUniform:
    def __init__(self, center, radius):
        c, r = np.asarray(center, float), np.asarray(radius, float)
        r = np.broadcast_to(r, c.shape)
        self.lo, self.hi, self.d = c - r, c + r, len(c)

    def logpdf(self, X):
        X = np.asarray(X, float)
        ins = np.all((X > self.lo) & (X < self.hi), axis=1)
        return np.where(ins, -np.sum(np.log(self.hi - self.lo)), -np.inf)

    def edge(self, X):
        w = self.hi - self.lo
        return np.any((np.abs(X - self.lo) < 1e-9 * w) | (np.abs(X - self.hi) < 1e-9 * w), axis=1)

    def box(self, k=0):
        return np.array([self.lo, self.hi])

    def mass(self, a, b):
        return float(np.prod(np.maximum(np.minimum(b, self.hi) - np.maximum(a, self.lo), 0) / (self.hi - self.lo)))

    def cdf(self, X, j):
        return st.uniform.cdf(X, self.lo[j], self.hi[j] - self.lo[j])

    def draw(self, rng, n):
        return rng.uniform(self.lo, self.hi, (n, self.d))


class RExp:
    def __init__(self, mean):
        self.mean = np.asarray(mean, float).reshape(-1)
        self.d = len(self.mean)

    def logpdf(self, X):
        X = np.asarray(X, float)
        ins = np.all(X > 0, axis=1)
        with np.errstate(all="ignore"):
            return np.where(ins, np.sum(-np.log(self.mean) - X / self.mean, axis=1), -np.inf)

    def edge(self, X):
        return np.any(X == 0, axis=1)

    def box(self, k=40.):
        return np.array([np.zeros(self.d), 40 * self.mean])

    def cdf(self, X, j):
        return st.expon.cdf(X, scale=self.mean[j])

    def draw(self, rng, n):
        return rng.exponential(self.mean, (n, self.d))


class RMaxwell:  # f(x) = x exp(-x^2/2), a Rayleigh density
    d = 1

    def logpdf(self, X):
        X = np.asarray(X, float).reshape(-1)
        with np.errstate(all="ignore"):
            return np.where(X > 0, np.log(np.where(X > 0, X, 1)) - X * X / 2, -np.inf)

    def edge(self, X):
        return np.any(X == 0, axis=1)

    def box(self, k=0):
        return np.array([[0.], [12.]])


class RLaplace:
    d = 1

    def logpdf(self, X):
        return math.log(.5) - np.abs(np.asarray(X, float).reshape(-1))

    def box(self, k=0):
        return np.array([[-40.], [40.]])


class RPareto:
    d = 1

    def logpdf(self, X):
        return -math.log(4.) - 1.5 * np.log1p(np.abs(np.asarray(X, float).reshape(-1)))

    def box(self, k=0):
        return np.array([[-50.], [50.]])


class RBanana:
    d = 2

    def logpdf(self, X):
        x, y = np.asarray(X, float).T
        return -0.5 * (0.03 * x ** 2 + (y + 0.03 * (x ** 2 - 100)) ** 2)

    def box(self, k=0):
        return np.array([[-20., -15.], [20., 10.]])


def clean_weights(w):
    w = np.array(w, float)
    w[~(w > 0)] = 0
    return w / w.sum() if w.sum() > 0 else np.ones(len(w)) / len(w)


class RMixture:
    def __init__(self, parts, w):
        self.parts, self.d = parts, parts[0].d
        self.w = clean_weights(w)

    def logpdf(self, X):
        L = np.array([p.logpdf(X) for p in self.parts])
        with np.errstate(all="ignore"):
            return logsumexp(L, b=self.w[:, None], axis=0)

    def edge(self, X):
        e = np.zeros(len(X), bool)
        for p in self.parts:
            if hasattr(p, "edge"):
                e |= p.edge(X)
        return e

    def box(self, k=9.):
        B = [p.box(k) for p in self.parts]
        return np.array([np.min([b[0] for b in B], 0), np.max([b[1] for b in B], 0)])

    def cdf(self, X, j):
        return sum(w * p.cdf(X, j) for w, p in zip(self.w, self.parts))

    def draw(self, rng, n):
        k = rng.choice(len(self.parts), n, p=self.w)
        out = np.empty((n, self.d))
        for i, p in enumerate(self.parts):
            out[k == i] = p.draw(rng, int((k == i).sum()))
        return out


# ------------------------------------------------------------------------------------------- generators
def rand_cov(rng, d, scale=1., cond=30.):
    Q = np.linalg.qr(rng.standard_normal((d, d)))[0]
    ev = np.exp(rng.uniform(0, math.log(cond), d)) * scale ** 2
    C = (Q * ev) @ Q.T
    return (C + C.T) / 2


def rand_scale(rng):
    return float(np.exp(rng.uniform(math.log(1e-3), math.log(1e3))))


SIMPLE = ["normal", "uniform", "uniform1", "exponential", "bd_uniform", "bd_exponential", "maxwell", "laplace", "pareto",
          "banana"]
SAMPLABLE = ["normal", "uniform", "uniform1", "exponential", "bd_uniform", "bd_exponential", "gmm", "mixture", "nested_mixture"]
ALL = SIMPLE + ["gmm", "mixture", "nested_mixture"]
SET_MOMENTS = ("normal", "exponential")


def dim(rng):
    """Mostly few dimensions, sometimes many."""
    return int(rng.integers(1, 6)) if rng.random() < .8 else int(rng.integers(6, 13))


def styled(rng, *arrays, up=0, style=None):
    """The same parameters as float arrays, as lists, or rounded to integers (arrays of integers or integer lists).
    -> what the user passes, and the values as floats."""
    t = int(rng.integers(10)) if style is None else style
    if t < 7:
        return [a.copy() for a in arrays], [np.array(a, float) for a in arrays]
    if t == 7:
        return [a.tolist() for a in arrays], [np.array(a, float) for a in arrays]
    out = []
    for i, a in enumerate(arrays):
        a = np.clip(np.rint(a), -10 ** 9, 10 ** 9).astype(int)
        if i >= len(arrays) - up:  # positive parameters
            a = np.maximum(a, 1)
        out.append(a)
    return ([a.copy() for a in out] if t == 8 else [a.tolist() for a in out]), [a.astype(float) for a in out]


def build(kind, rng, d=None, style=None):
    """-> (distribution of the code under test, reference)."""
    from ais_benchmarks import distributions as D
    from ais_benchmarks.distributions.rare.banana2d import Banana2D
    d = d or int(rng.integers(1, 6))
    s = rand_scale(rng)
    if kind == "normal":
        mu, C = rng.normal(0, 3 * s, d), rand_cov(rng, d, s)
        if rng.random() < .2 if style is None else style > 7:  # integers
            A = rng.integers(-2, 3, (d, d))
            mu, C = rng.integers(-9, 10, d) * int(rng.choice([1, 30, 10 ** 5])), A @ A.T + np.diag(rng.integers(1, 5, d))
            return D.CMultivariateNormal({"mean": mu.copy(), "sigma": C.copy()}), RNormal(mu.astype(float), C.astype(float))
        return D.CMultivariateNormal({"mean": mu.copy(), "sigma": C.copy()}), RNormal(mu, C)
    if kind in ("uniform", "uniform1"):
        c, r = rng.normal(0, 3 * s, d), s * rng.uniform(.2, 5, d if kind == "uniform" else 1)
        (a, b), (c, r) = styled(rng, c, r, up=1, style=style)
        return D.CMultivariateUniform({"center": a, "radius": b}), RUniform(c, r)
    if kind == "exponential":
        (a,), (mu,) = styled(rng, s * rng.uniform(.2, 5, d), up=1, style=style)
        return D.CMultivariateExponential({"mean": a}), RExp(mu)
    if kind == "bd_uniform":
        return D.BenchDenUniform({}), RUniform([.5], [.5])
    if kind == "bd_exponential":
        return D.BenchDenExponential({}), RExp([1.])
    if kind == "maxwell":
        return D.BenchDenMaxwell({}), RMaxwell()
    if kind == "laplace":
        return D.BenchDenLaplace({}), RLaplace()
    if kind == "pareto":
        return D.BenchDenSymmetricPareto({}), RPareto()
    if kind == "banana":
        return Banana2D({}), RBanana()
    if kind == "gmm":
        k = int(rng.integers(1, 7))
        mu, var = rng.normal(0, 3, (k, d)), np.exp(rng.uniform(-5, 2, (k, d)))
        (mu_, var_), (mu, var) = styled(rng, mu, var, up=1, style=style)
        w = rng.uniform(0.05, 1, k)
        ref = RMixture([RNormal(a, np.diag(b)) for a, b in zip(mu, var)], w)
        p = {"means": mu_, "sigmas": var_, "weights": w / w.sum() if rng.random() < .5 else w * 3.7,
             "support": ref.box(6)}
        if rng.random() < .2:
            del p["weights"]
            ref.w = np.ones(k) / k
        return D.CGaussianMixtureModel(p), ref
    if kind in ("mixture", "nested_mixture"):
        k = int(rng.integers(1, 6))
        kinds = ["normal", "uniform", "exponential", "gmm"] + (["mixture"] * 2 if kind == "nested_mixture" else [])
        ch = [build_unit(str(rng.choice(kinds)), rng, d) for _ in range(k)]
        w = rng.uniform(0.05, 1, k) * rng.choice([1, 1e-3, 40])
        ref = RMixture([c[1] for c in ch], w)
        return D.CMixtureModel({"models": [c[0] for c in ch], "weights": w.copy(), "dims": d, "support": ref.box(6)}), ref
    raise KeyError(kind)


def build_unit(kind, rng, d):
    """Like build with scales around one, so that components of a mixture overlap."""
    from ais_benchmarks import distributions as D
    if kind == "normal":
        mu, C = rng.normal(0, 2, d), rand_cov(rng, d, rng.uniform(.2, 1.5), 10)
        return D.CMultivariateNormal({"mean": mu.copy(), "sigma": C.copy()}), RNormal(mu, C)
    if kind == "uniform":
        c, r = rng.normal(0, 2, d), rng.uniform(.3, 2, d)
        return D.CMultivariateUniform({"center": c.copy(), "radius": r.copy()}), RUniform(c, r)
    if kind == "exponential":
        mu = rng.uniform(.3, 2, d)
        return D.CMultivariateExponential({"mean": mu.copy()}), RExp(mu)
    return build(kind, rng, d)


def points(ref, rng, n):
    """Points in the bulk, tails, far away, on the axes of symmetry and outside of the support."""
    lo, hi = ref.box(3)
    w = np.maximum(hi - lo, 1e-12)
    parts = [rng.uniform(lo, hi, (n, ref.d)), rng.uniform(lo - w, hi + w, (n // 2 + 1, ref.d)),
             (lo + hi) / 2 + w * rng.standard_normal((n // 4 + 1, ref.d)) * rng.choice([1e-6, 1e-2, 3., 1e2], (n // 4 + 1, 1)),
             np.tile((lo + hi) / 2, (1, 1)), np.zeros((1, ref.d)), np.tile(lo, (1, 1)), np.tile(hi, (1, 1))]
    if hasattr(ref, "draw"):
        parts.append(ref.draw(rng, n))
    X = np.concatenate(parts)
    if hasattr(ref, "edge"):
        X = X[~ref.edge(X)]
    return X[rng.permutation(len(X))]


def gauss_grid(lo, hi, n, pieces=1):
    """Composite Gauss-Legendre nodes and weights on an interval."""
    x, w = np.polynomial.legendre.leggauss(n)
    e = np.linspace(lo, hi, pieces + 1)
    a, b = e[:-1, None], e[1:, None]
    return ((b - a) / 2 * x + (a + b) / 2).reshape(-1), ((b - a) / 2 * w).reshape(-1)
