"""Helpers to run the benchmark of the code under test on generated configurations and to parse what it wrote."""
import contextlib
import io
import os
import shutil
import tempfile
import numpy as np
import yaml

CODE = {"KLD": "KL", "JSD": "JSD", "EVMSE": "EVMSE", "T": "time", "MEM": "memory"}
TAIL = ["method", "target_d", "accept_rate", "proposal_samples", "proposal_evals", "target_evals"]


class Tmp:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="verif-bench-")
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

    def path(self, *p):
        return os.path.join(self.d, *p)

    def write(self, name, data):
        with open(self.path(name), "w") as f:
            yaml.safe_dump(data, f, sort_keys=False)
        return self.path(name)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as o, np.errstate(all="ignore"):
        yield o


def plain(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def target(rng, i, kinds=("gmm", "normal", "banana"), dims=(1, 1, 2, 3), round_limits=True):
    """Description of a target as in the benchmark files."""
    k = str(rng.choice(kinds))
    d = int(rng.choice(dims))
    r = (lambda v: np.round(v, 3)) if round_limits else (lambda v: v)
    lo = r(rng.uniform(-8, 0, d) - 1)
    hi = r(lo + rng.uniform(3, 12, d))
    w = hi - lo
    if k == "gmm":
        n = int(rng.integers(1, 4))
        a = rng.dirichlet(np.ones(n) * 2)
        p = dict(means=lo + w * rng.uniform(.25, .75, (n, d)), sigmas=(w * rng.uniform(.05, .2, (n, d))) ** 2, weights=a / a.sum(), support=[lo, hi])
        t = "CGaussianMixtureModel"
    elif k == "normal":
        p = dict(mean=lo + w * rng.uniform(.3, .7, d), sigma=np.diag((w * rng.uniform(.05, .25, d)) ** 2), support=[lo, hi])
        t = "CMultivariateNormal"
    elif k == "uniform":
        p = dict(center=(lo + hi) / 2, radius=w / 2)
        t = "CMultivariateUniform"
    else:
        p, t = {}, "Banana2D"
    return dict(name="%s%d" % (k, i), type=t, params=plain(p), batch_size=int(rng.choice([1, 2, 5, 16])), nsamples=int(rng.choice([1, 10, 23, 40])),
                nsamples_eval=int(rng.choice([20, 50])), tags=["x"])


METHODS = {
    "m_pmc": ("CMixturePMC", dict(K=10, N=3, J=1000, sigma=.5)),
    "rejection": ("CRejectionSampling", dict(scaling=20, kde_bw=.1, n_samples_kde=10,
                                             proposal="'CMultivariateUniform({\"center\": (self.space_max + self.space_min) / 2, \"radius\":(self.space_max-self.space_min) / 2})'")),
    "hidaisee": ("CHiDaiseeSampling", dict(target_ess=.9, n_min=5, tau=.01)),
    "tp_haar": ("CTreePyramidSampling", dict(method="'simple'", resampling="'leaf'", kernel="'haar'", ess_target=.9, n_min=5, parallel_samples=16)),
    "tp_normal": ("CTreePyramidSampling", dict(method="'simple'", resampling="'none'", kernel="'normal'", ess_target=.9, n_min=2, parallel_samples=8)),
    "mcmc_mh": ("CMetropolisHastings", dict(n_burnin=5, n_steps=1, proposal_sigma=.5, kde_bw=.1, n_samples_kde=10)),
    "lais": ("CLayeredAIS", dict(K=3, N=4, J=1000, L=2, sigma=.5, mh_sigma=.5)),
    "dm_ais": ("CDeterministicMixtureAIS", dict(K=4, N=3, J=1000, sigma=.5)),
    "nested": ("CNestedSampling", dict(N=8, kde_bw=.1, n_samples_kde=10,
                                       proposal="'CMultivariateNormal({\"mean\": np.zeros(self.ndims), \"sigma\": np.diag(np.ones(self.ndims) * 0.5)})'")),
    "multi_nested": ("CMultiNestedSampling", dict(N=12, converged_radius=.3, inflate_factor=1.1, kde_bw=.1, n_samples_kde=10,
                                                  proposal="'CMultivariateNormal({\"mean\": np.zeros(self.ndims), \"sigma\": np.diag(np.ones(self.ndims) * 0.5)})'")),
}


def method(name, tag="", **over):
    t, p = METHODS[name]
    return dict(name=name + tag, type=t, debug=False, params=dict(p, **over))


def config(metrics, reps, seed, tmp, plots=False):
    return dict(nreps=reps, rseed=seed, metrics=list(metrics), debug=dict(text=True, plot=dict(show=False, save=False, path=tmp.path("dbg") + "/")),
                animation=dict(enable=False, fps=1, animation_path=tmp.path("anim") + "/"),
                output=dict(file=tmp.path("unused.txt"), make_plots=plots, plots_path=tmp.path("plots") + "/", plots_dpi=50))


def run(tmp, targets, methods, conf, out="res/results.txt", bench=None, timeout=None):
    from ais_benchmarks.benchmark import CBenchmark
    b = CBenchmark() if bench is None else bench
    if timeout is not None:
        b.timeout = timeout
    files = tmp.write("b.yaml", dict(targets=targets)), tmp.write("m.yaml", dict(methods=methods)), tmp.write("c.yaml", conf)
    with quiet():
        b.run(files[0], files[1], files[2], tmp.path(out))
    return b, tmp.path(out)


def parse(path):
    with open(path) as f:
        lines = [l.split() for l in f.read().split("\n")]
    assert lines[-1] == []
    return lines[0], lines[1:-1]
