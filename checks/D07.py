import numpy as np
from vlib import ref as R
from vlib import stats as S

RULE = "one monitored execution per condition / evaluate / sample call history on a generated derived model"
ASSUMPTIONS = ["generative functions and surrogate likelihoods are supplied by the harness; the nuisance model needs a generative "
               "function whose result offers detach()"]


def funcs(rng, d):
    A, b = rng.normal(0, 1, (d, d)), rng.normal(0, 1, d)
    return [lambda x, z=None: np.asarray(x, float) @ A + b, lambda x, z=None: np.sin(np.asarray(x, float)) * 3 + b,
            lambda x, z=None: (np.asarray(x, float) ** 2 if z is None else np.asarray(x, float) ** 2 + np.asarray(z, float))][int(rng.integers(3))]


def noisy(rng, d):
    from ais_benchmarks.distributions import CMultivariateNormal, CMultivariateUniform
    from ais_benchmarks.distributions.derived.CGenericNoisyFunction import GenericNoisyFunction
    f = funcs(rng, d)
    if rng.random() < .7:
        mu, C = rng.normal(0, .5, d) * (rng.random() < .5), R.rand_cov(rng, d, np.exp(rng.uniform(-2, 1)), 8)
        n, nref = CMultivariateNormal({"mean": mu, "sigma": C}), R.RNormal(mu, C)
    else:
        c, r = rng.normal(0, .5, d), rng.uniform(.2, 2, d)
        n, nref = CMultivariateUniform({"center": c, "radius": r}), R.RUniform(c, r)
    q = GenericNoisyFunction({"noise_model": n, "function": f, "dims": d, "support": [[-5.] * d, [5.] * d]})
    return q, f, nref


def raises(m, fn, what):
    try:
        fn()
    except Exception:
        m.ev("unconditioned_calls_refused")
        return m.ok(True, what)
    return m.ok(False, what)


def close_log(m, p, lp, want, what, **w):
    p, lp = np.reshape(p, -1), np.reshape(lp, -1)
    m.eq((len(p), len(lp)), (len(want), len(want)), what + ": one value per point")
    tol = 1e-8 * np.maximum(1, np.abs(want))
    dead = np.isneginf(want)
    m.ev("values", len(want))
    bad = np.where(dead, ~np.isneginf(lp), ~(np.abs(lp - want) <= tol))
    m.ok(not bad.any(), what + ": log density", got=lp, expected=want, **w)
    e = np.exp(want)
    m.ok(np.all(np.where(dead, p == 0, np.abs(p - e) <= np.where(dead, 0, tol) * e + 1e-290)), what + ": density", got=p, expected=e, **w)


def noisy_history(m, rng, reps):
    for _ in range(reps):
        d = int(rng.integers(1, 4))
        q, f, nref = noisy(rng, d)
        m.trial("noisy", d, nref.box(3))
        X = rng.normal(0, 2, (4, d))
        raises(m, lambda: q.prob(X), "noisy function: density before conditioning")
        raises(m, lambda: q.log_prob(X), "noisy function: log density before conditioning")
        raises(m, lambda: q.sample(), "noisy function: sample before conditioning")
        c = z = None
        for t in range(12):
            op = rng.integers(5)
            if c is None or op == 0:
                c = rng.normal(0, 2, (int(rng.choice([1, 1, 2, 6])), d))
                q.condition(c.copy())
                m.ev("conditions")
            elif op == 1:
                z = None if rng.random() < .3 else rng.normal(0, 1, d)
                q.set_params(z)
                m.ev("set_params")
            fc = f(c, z)
            m.trial("noisy", t, c, str(z))
            m.state(d, len(c), z is None, int(op))
            if op in (0, 2, 4):
                n = len(c) if len(c) > 1 else int(rng.integers(1, 6))
                y = (fc if len(c) > 1 else np.repeat(fc, n, 0)) + nref.draw(rng, n) * rng.choice([1, 1, 4])
                y0, c0 = y.copy(), c.copy()
                with np.errstate(all="ignore"):
                    close_log(m, q.prob(y), q.log_prob(y), nref.logpdf(y - fc), "noisy function", c=c, z=z)
                m.ok(np.array_equal(y, y0), "noisy function: evaluation changed the points")
            else:
                s = np.asarray(q.sample())
                m.ev("samples", len(s))
                m.eq(s.shape, (len(c), d), "noisy function: one observation per conditioned point")
                m.ok(np.isfinite(nref.logpdf(s - fc)).all(), "noisy function: observation out of reach of the noise", s=s, fc=fc)
        k = 1500
        c = rng.normal(0, 2, (k, d))
        c[k // 2:] = c[0]
        m.trial("noisy law", c[:3])

        def resid(r):
            q.condition(np.tile(c, (r, 1)))
            e = np.asarray(q.sample()) - np.tile(f(c, z), (r, 1))
            m.ev("samples", len(e))
            return e
        for j in range(d):
            S.confirmed(m, lambda r: S.ks(resid(r)[:, j], lambda x: nref.cdf(x, j)), "noisy function: observations are values plus noise")
        e = resid(1)
        m.ok(len(np.unique(e[:, 0])) > 0.99 * len(e), "noisy function: every observation has its own noise")


class Gen:
    """Deterministic generative model built on the interface of the code under test."""

    def __new__(cls, f, d, dx):
        from ais_benchmarks.distributions import CDistribution

        class G(CDistribution):
            def __init__(s):
                super().__init__({"type": "g", "family": "g", "dims": d, "likelihood_f": None, "loglikelihood_f": None,
                                  "support": [[-5.] * d, [5.] * d]})
                s.z, s.n_cond = None, 0

            def condition(s, z):
                s.z, s.n_cond = np.array(z, float), s.n_cond + 1

            def sample(s, nsamples=1):
                return f(s.z)

            def marginal(s, dim):
                raise NotImplementedError
        return G()


def abc(m, rng, reps):
    from ais_benchmarks.distributions.derived.CABCDistribution import ABCDistribution
    for _ in range(reps):
        d = int(rng.choice([1, 2, 3, 5, 7]))
        f0 = funcs(rng, d)
        extra = int(rng.integers(0, 3))
        f = lambda z: np.concatenate([f0(z), np.ones((len(z), extra)) * 17.], axis=1)  # trailing outputs are not observed
        gen, sens = Gen(f, d, d + extra), Gen(lambda x: x, d, d)
        prior, pref = R.build_unit(str(rng.choice(["normal", "uniform", "gmm"])), rng, d)
        slack = float(np.exp(rng.uniform(-2, 1))) if rng.random() < .7 else 1e-4
        t = int(rng.integers(3))

        def ll(o, o_hat, sl):
            return -0.5 * np.sum((np.asarray(o_hat)[:, :len(o)] - o) ** 2, axis=1) / sl ** 2 - np.log(sl)
        par = {"dims": d, "support": [[-9.] * d, [9.] * d], "prior_d": prior, "sensor_d": sens, "gen_d": gen, "slack": slack,
               "loglikelihood_f": None if t == 0 else ll,
               "likelihood_f": None if t == 1 else (lambda o, oh, sl: np.exp(ll(o, oh, sl)))}
        q = ABCDistribution(par)
        Z = rng.normal(0, 2, (5, d))
        m.trial("abc", d, t, slack)
        raises(m, lambda: q.prob(Z), "ABC: density before conditioning")
        raises(m, lambda: q.log_prob(Z), "ABC: log density before conditioning")
        o = None
        for step in range(12):
            op = int(rng.integers(4))
            if o is None or op == 0:
                near = o is not None and rng.random() < .3  # almost the observation before
                o = o + rng.normal(0, 1e-6, len(o)) if near else rng.normal(0, 2, int(rng.integers(1, d + 1)))
                q.condition(o.copy())
                m.ev("conditions")
            m.trial("abc", step, o)
            m.state("abc", d, t, len(o), op)
            if op == 3:
                n = int(rng.integers(1, 6))
                st = np.random.get_state()
                z = prior.sample(n)
                np.random.set_state(st)
                s = np.asarray(q.sample(n))
                m.ev("samples", n)
                m.close(s, f(z), "ABC: samples are observations generated from the prior", rtol=1e-9, atol=1e-9)
            else:
                n = int(rng.integers(1, 9))
                Z = np.concatenate([pref.draw(rng, n), rng.normal(0, 2, (2, d))])
                if slack < 1e-3:  # a sharp posterior is looked at where it has mass: aim the observation at one of the points
                    o = f(Z[:1])[0, :len(o)] + rng.normal(0, slack, len(o))
                    q.condition(o.copy())
                    if rng.random() < .7:
                        o = o + rng.normal(0, slack, len(o)) * .3
                        q.condition(o.copy())
                    m.ev("sharp_posteriors")
                if hasattr(pref, "edge"):
                    Z = Z[~pref.edge(Z)]
                Z0 = Z.copy()
                want = pref.logpdf(Z) + ll(o, f(Z), slack)
                if t == 0:
                    keep = (want > -300) | np.isneginf(want)
                    m.ev("impossible_points", int(np.isneginf(want).sum()))
                    Z = Z[keep]
                    Z0, want = Z.copy(), want[keep]
                    if not len(Z):
                        continue
                with np.errstate(all="ignore"):
                    close_log(m, q.prob(Z), q.log_prob(Z), want, "ABC posterior", o=o, slack=slack)
                m.ok(np.array_equal(Z, Z0), "ABC: evaluation changed the points")


class Tensor(np.ndarray):
    def detach(self):
        return self.copy()


def nuisance(m, rng, reps):
    from ais_benchmarks.distributions.derived.GenericNuisanceGenModel import GenericNuisanceGenModel
    for _ in range(reps):
        d = int(rng.integers(1, 4))
        nd, nref = R.build_unit("uniform", rng, 2)
        log = []

        def g(z, n):
            log.append((np.array(z), np.array(n)))
            return (np.repeat(np.asarray(z), len(n) // len(z), 0).sum(1, keepdims=True) + np.asarray(n)).view(Tensor)
        q = GenericNuisanceGenModel({"gen_function": g, "params_mask": np.ones(d, bool), "noise_sigma": .1, "nuisance_dist": nd,
                                     "dims": d, "support": [[-5.] * d, [5.] * d]})
        m.trial("nuisance", d)
        raises(m, lambda: q.sample(), "nuisance model: generation before conditioning")
        for t in range(6):
            z = rng.normal(0, 2, (int(rng.integers(1, 4)), d))
            q.condition(z.copy())
            m.ev("conditions")
            for k in (1, int(rng.integers(1, 4))):
                m.trial("nuisance", t, z, k)
                log.clear()
                x = np.asarray(q.sample(k))
                m.ok(len(log) == 1, "nuisance model: one generation")
                m.close(log[0][0], z, "nuisance model: generates at the last condition")
                m.eq(len(log[0][1]), len(z) * k, "nuisance model: one nuisance draw per observation")
                m.ok(np.isfinite(nref.logpdf(log[0][1])).all(), "nuisance model: nuisance drawn from its distribution")
                m.close(x, np.repeat(z, k, 0).sum(1, keepdims=True) + log[0][1], "nuisance model: returns what was generated", rtol=1e-9)
                m.ev("samples", len(x))


def cases(tier):
    k = 1 if tier == "quick" else 25
    return [("noisy-%d" % b, noisy_history, dict(reps=6 * k)) for b in range(4)] + \
           [("abc-%d" % b, abc, dict(reps=12 * k)) for b in range(4)] + [("nuisance", nuisance, dict(reps=15 * k))]
