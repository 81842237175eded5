import os
import copy
import math
import numpy as np
import yaml
from scipy.stats import multivariate_normal as mvn
from vlib import bench as BM

RULE = "one monitored execution per generated or shipped configuration file that is loaded and compared with what it describes"
ASSUMPTIONS = ["Gaussian mixtures are the exported distributions", "method parameters are given as in the shipped files"]
REPO = os.environ.get("VERIF_REPO", "/repo")
SHIP = os.path.join(REPO, "ais_benchmarks", "benchmark")


def logref(desc, X):
    """Own log density of a described target; None where there is no closed form here."""
    p, t = desc["params"], desc["type"]
    if t == "CGaussianMixtureModel":
        w = np.array(p["weights"], float)
        M, S = np.array(p["means"], float), np.array(p["sigmas"], float)
        r = np.array([np.log(a) + mvn.logpdf(X, m, np.diag(s) if np.ndim(s) < 2 else s).reshape(-1) for a, m, s in zip(w / w.sum(), M, S)])
        k = r.max(0)
        return k + np.log(np.exp(r - k).sum(0))
    if t == "CMultivariateNormal":
        return mvn.logpdf(X, np.array(p["mean"], float), np.array(p["sigma"], float)).reshape(-1)
    if t == "CMultivariateUniform":
        c, r = np.array(p["center"], float), np.array(p["radius"], float)
        return np.where(np.all((X > c - r) & (X < c + r), axis=1), -np.sum(np.log(2 * r)), -np.inf)
    return None


def same_target(m, t, desc, rng, tag):
    p = desc["params"]
    m.ok(t.name == desc["name"], tag + "name of the target", got=t.name, expected=desc["name"])
    d = t.dims
    if "support" in p:
        s = np.array(p["support"], float).reshape(2, -1)
        m.close(np.array(t.support(), float).reshape(2, -1), s, tag + "support of the target", rtol=0)
        lo, hi = np.broadcast_to(s[0], (d,)), np.broadcast_to(s[1], (d,))
    elif desc["type"] == "CMultivariateUniform":
        lo, hi = np.array(p["center"]) - np.array(p["radius"]), np.array(p["center"]) + np.array(p["radius"])
    else:
        return
    m.ok(d == len(np.array(p.get("mean", p.get("center", (p.get("means") or [[]])[0])))), tag + "dimensions of the target", got=d)
    X = rng.uniform(lo, hi, (20, d))
    e = logref(desc, X)
    if e is not None:
        with np.errstate(all="ignore"):
            g = np.array(t.log_prob(X), float).reshape(-1)
            k = e > -600
            m.close(g[k], e[k], tag + "density of the loaded target", rtol=1e-7, atol=1e-7, target=desc["type"])
            m.close(np.array(t.prob(X), float).reshape(-1)[k], np.exp(e[k]), tag + "density of the loaded target", rtol=1e-6)
        m.ev("densities_compared", len(X))


def limits(m, got, want, tag):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape == want.shape and np.array_equal(got, want):
        return m.ok(True, tag)
    rounded = np.array(eval(np.array2string(want, separator=", ")), float)
    if got.shape == rounded.shape and np.array_equal(got, rounded):
        m.known_finding("limits-rounded", "the limits of the methods are the limits of the target rounded to 8 digits")
        return True
    return m.ok(False, tag + "limits of a method are not the limits of its target", got=got, expected=want)


def value(v, ctx):
    """Value of a parameter of a methods file: numbers as they are, texts are Python expressions."""
    return eval(v) if isinstance(v, str) else v


def same_methods(m, methods, descs, lo, hi, d, tag):
    m.eq(len(methods), len(descs), tag + "number of loaded methods")
    for s, x in zip(methods, descs):
        m.ev("methods_loaded")
        m.ok(type(s).__name__ == x["type"] and s.name == x["name"] and s.debug == x["debug"], tag + "type, name or debug flag of a method",
             got=(type(s).__name__, s.name, s.debug), expected=(x["type"], x["name"], x["debug"]))
        limits(m, s.space_min, lo, tag)
        limits(m, s.space_max, hi, tag)
        m.ok(s.ndims == d, tag + "dimensions of a method", got=s.ndims, expected=d)
        for k, v in x["params"].items():
            a = {"proposal_sigma": None, "kde_bw": "bw", "mh_sigma": "mhsigma", "proposal": None}.get(k, k)
            if a is None or not hasattr(s, a):
                continue
            g, e = getattr(s, a), value(v, s)
            m.ok(np.size(g) == 1 and (g == e if isinstance(e, str) or e is None else float(np.squeeze(g)) == float(e)), tag + "parameter %s of a method" % k, method=x["name"],
                 got=g, expected=e)
            m.ev("parameters_compared")


def loads(m, rng, reps):
    from ais_benchmarks.benchmark import CBenchmark
    b = CBenchmark()
    for i in range(reps):
        if rng.random() < .3:
            b = CBenchmark()  # otherwise the previous content is replaced
        kind = str(rng.choice(["short", "long", "wild"]))
        T = [BM.target(rng, j, kinds=("gmm", "gmm", "normal", "uniform", "banana"), dims=(1, 2, 3, 7, 20) if kind == "long" else (1, 2, 3),
                       round_limits=kind == "short") for j in range(int(rng.integers(1, 4)))]
        if kind == "wild":  # tiny and huge numbers
            for t in T:
                sc = float(rng.choice([1e-7, 1e-3, 1e6]))
                p = t["params"]
                for k in ("support", "means", "mean", "center", "radius"):
                    if k in p:
                        p[k] = BM.plain(np.array(p[k]) * sc)
                for k in ("sigmas", "sigma"):
                    if k in p:
                        p[k] = BM.plain(np.array(p[k]) * sc ** 2)
        M = [BM.method(str(k), tag=str(j)) for j, k in enumerate(rng.choice(list(BM.METHODS), int(rng.integers(1, 6))))]
        for x in M:
            x["debug"] = bool(rng.random() < .3)
            for k, v in list(x["params"].items()):
                if k in ("K", "N", "L", "n_steps", "n_burnin", "n_min", "parallel_samples") and rng.random() < .5 and x["type"] != "CMultiNestedSampling":
                    x["params"][k] = int(rng.integers(1, 9))
                if k in ("sigma", "mh_sigma", "tau", "target_ess", "kde_bw") and rng.random() < .5:
                    x["params"][k] = float(rng.uniform(.01, .99))
        ms = [str(a) for a in rng.permutation(["KLD", "JSD", "T", "EVMSE", "MEM"])[:int(rng.integers(0, 6))]]
        with BM.Tmp() as tmp:
            conf = BM.config(ms, int(rng.integers(1, 20)), int(rng.integers(-1, 100)), tmp)
            conf["debug"] = dict(text=bool(rng.random() < .5), plot=dict(show=bool(rng.random() < .5), save=bool(rng.random() < .5), path="p%d/" % i))
            conf["output"] = dict(file="r", make_plots=bool(rng.random() < .5), plots_path="q%d/" % i, plots_dpi=int(rng.integers(10, 2000)))
            m.trial(str(T), str(M), str(conf))
            m.state(kind, tuple(t["type"] for t in T), tuple(x["type"] for x in M))
            with BM.quiet():
                b.load_benchmark(tmp.write("b.yaml", dict(targets=T)))
                b.load_config(tmp.write("c.yaml", conf))
            m.eq(len(b.targets), len(T), "number of loaded targets")
            for j, (t, x) in enumerate(zip(b.targets, T)):
                m.ev("targets_loaded")
                same_target(m, t, x, rng, "")
                m.eq((b.ndims[j], b.nsamples[j], b.eval_sampl[j], b.batch_sizes[j]), (t.dims, x["nsamples"], x["nsamples_eval"], x["batch_size"]),
                     "evaluation parameters of a target")
                s = np.array(t.support())
                if s.shape != (2, t.dims):
                    continue
                with BM.quiet():
                    b.load_methods(tmp.write("m.yaml", dict(methods=M)), s[0], s[1], t.dims)
                same_methods(m, b.methods, M, s[0], s[1], t.dims, "")
            m.eq((len(b.ndims), len(b.nsamples), len(b.eval_sampl), len(b.batch_sizes)), (len(T),) * 4, "previous targets are not replaced")
        m.eq((list(b.metrics), b.n_experiments, b.rseed), (ms, conf["nreps"], conf["rseed"]), "experiment configuration")
        m.eq((b.debug_text, b.debug_plot, b.debug_plot_save, b.debug_plot_save_path),
             (conf["debug"]["text"], conf["debug"]["plot"]["show"], conf["debug"]["plot"]["save"], conf["debug"]["plot"]["path"]), "debug configuration")
        m.eq((b.generate_plots, b.generate_plots_path, b.plot_dpi), (conf["output"]["make_plots"], conf["output"]["plots_path"], conf["output"]["plots_dpi"]),
             "output configuration")


def shipped(m, rng):
    from ais_benchmarks.benchmark import CBenchmark
    b = CBenchmark()
    with open(os.path.join(SHIP, "def_benchmark.yaml")) as f:
        T = yaml.safe_load(f)["targets"]
    with open(os.path.join(SHIP, "def_methods.yaml")) as f:
        M = yaml.safe_load(f)["methods"]
    with BM.quiet():
        b.load_config(os.path.join(SHIP, "def_config.yaml"))
        b.load_benchmark(os.path.join(SHIP, "def_benchmark.yaml"))
    m.trial("def")
    m.eq(len(b.targets), len(T), "shipped targets")
    for t, x in zip(b.targets, T):
        m.trial(x["name"], str(x["params"]))
        same_target(m, t, x, rng, "shipped: ")
        s = np.array(t.support(), float).reshape(2, -1)
        with BM.quiet():
            b.load_methods(os.path.join(SHIP, "def_methods.yaml"), s[0], s[1], t.dims)
        same_methods(m, b.methods, M, s[0], s[1], t.dims, "shipped: ")
    # benchden
    m.trial("benchden")
    F = os.path.join(SHIP, "benchden", "def_benchmark_benchden.yaml")
    with open(F) as f:
        T = yaml.safe_load(f)["targets"]
    try:
        with BM.quiet():
            b.load_benchmark(F)
        m.eq(len(b.targets), len(T), "benchden targets")
    except ValueError as e:
        if "distributions.benchden" in str(e):
            m.known_finding("benchden-types", "the shipped benchden benchmark cannot be loaded: %s" % str(e)[:80])
        else:
            m.fail("the shipped benchden benchmark cannot be loaded", error=str(e))
    for t in T:  # the types it means, as named by the other files
        m.trial("benchden", t["name"])
        x = dict(t, type=t["type"].split(".")[-1])
        with BM.Tmp() as tmp, BM.quiet():
            try:
                b.load_benchmark(tmp.write("b.yaml", dict(targets=[x])))
            except ValueError:
                m.ev("benchden_not_exported")
                continue
        m.ev("benchden_targets")
        q = b.targets[0]
        m.ok(q.name == t["name"] and q.dims == 1, "benchden target", got=q.name)


def exports(m, rng, reps):
    from ais_benchmarks.benchmark import CBenchmark
    from ais_benchmarks.distributions import CGaussianMixtureModel
    from ais_benchmarks.utils.misc import generateRandomGMM, generateEggBoxGMM
    b = CBenchmark()
    for i in range(reps):
        k = str(rng.choice(["gmm", "random", "egg", "cov"]))
        d = int(rng.choice([1, 2, 3, 6]))
        n = int(rng.integers(1, 6))
        lo = rng.uniform(-30, 0, d) - 1
        hi = lo + np.exp(rng.uniform(1, 4, d))
        np.random.seed(int(rng.integers(2 ** 31)))
        m.trial(k, d, n, lo, hi)
        m.state(k, d, n)
        if k == "random":
            x = generateRandomGMM(lo, hi, n, sigma_min=np.full(d, .01), sigma_max=(hi - lo) / 20)
        elif k == "egg":
            d = min(d, 2)
            x = generateEggBoxGMM(lo[:d], hi[:d], (hi[:d] - lo[:d]).max() / 2.7, float(np.exp(rng.uniform(-4, 0))))
        else:
            w = rng.dirichlet(np.ones(n)) if rng.random() < .7 else rng.uniform(0, 9, n)
            S = np.exp(rng.uniform(-4, 2, (n, d)))
            x = CGaussianMixtureModel({"means": lo + (hi - lo) * rng.uniform(.2, .8, (n, d)), "sigmas": S, "weights": w, "support": np.array([lo, hi])})
        bs, ns, ne = int(rng.integers(1, 99)), int(rng.integers(1, 999)), int(rng.integers(1, 999))
        name = "exp%d" % i if rng.random() < .7 else None
        e = x.to_dict(name, bs, ns, ne)
        with BM.Tmp() as tmp, BM.quiet():
            b.load_benchmark(tmp.write("b.yaml", dict(targets=[e])))
        y = b.targets[0]
        m.ev("exports")
        m.ok(y.name == (name if name is not None else e["name"]) and (b.batch_sizes, b.nsamples, b.eval_sampl) == ([bs], [ns], [ne]), "evaluation parameters of an export")
        m.ok(y.dims == x.dims, "dimensions of an export", got=y.dims, expected=x.dims)
        m.close(np.array(y.support(), float), np.array(x.support(), float), "support of an export", rtol=0)
        X = rng.uniform(*np.array(x.support(), float), (40, x.dims))
        X = np.vstack((X, np.array([q.loc for q in x.models], float).reshape(-1, x.dims)))
        with np.errstate(all="ignore"):
            m.close(np.array(y.log_prob(X), float), np.array(x.log_prob(X), float), "density of an export", rtol=1e-9, atol=1e-9)
        m.close(np.array(y.weights, float), np.array(x.weights, float), "weights of an export", rtol=1e-12)


def cases(tier):
    k = 1 if tier == "quick" else 20
    return [("loads-%d" % b, loads, dict(reps=25 * k)) for b in range(4)] + [("shipped", shipped, {}), ("exports-0", exports, dict(reps=60 * k)), ("exports-1", exports, dict(reps=60 * k))]
