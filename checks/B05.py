import contextlib
import os
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.figure import Figure
from vlib import bench as BM

RULE = "one monitored execution per set of plots made from a results file"
ASSUMPTIONS = ["the files do not hold a NESS column twice (known finding of B01)", "the curves are judged when their figure is written to a file"]
CPU_LIMIT = 400
COLS = ["dims", "output_samples"]
METRICS = ["JSD", "KLD", "EVMSE", "T", "MEM", "NESS"]


@contextlib.contextmanager
def intercepted(m, out):
    """Records the labelled lines of every figure at the moment it is written."""
    orig = Figure.savefig

    def savefig(self, fname, *a, **kw):
        lines = []
        for ax in self.axes:
            for l in ax.get_lines():
                lines.append((str(l.get_label()), np.array(l.get_xdata(), float), np.array(l.get_ydata(), float)))
        out.append((str(fname), lines))
        m.ev("figures_written")
        m.ev("curves_seen", len(lines))
        return orig(self, fname, *a, **kw)
    Figure.savefig = savefig
    try:
        yield
    finally:
        Figure.savefig = orig
        plt.close("all")


def oracle(rows, head, dims, target, method, metric):
    """Rolling averages over ten sample counts of the average over the repetitions."""
    c = {k: i for i, k in enumerate(head)}
    per = {}
    for r in rows:
        if int(r[c["dims"]]) == dims and r[c["target_d"]] == target and r[c["method"]] == method:
            per.setdefault(int(r[c["output_samples"]]), []).append(float(r[c[metric]]))
    xs = sorted(per)
    ms = [float(np.mean(per[x])) for x in xs]
    ys = [np.mean(ms[i - 9:i + 1]) if i >= 9 else np.nan for i in range(len(xs))]
    return np.array(xs, float), np.array(ys, float)


def judge(m, out, rows, head, targets, methods, metrics, path):
    for name, d in targets:
        for k in metrics:
            mine = [(f, ls) for f, ls in out if os.path.basename(f).startswith("%dD_%s_%s." % (d, name, k))]
            if not m.ok(len(mine) == 1, "number of files written for a target and a metric", target=name, dims=d, metric=k, files=[os.path.basename(f) for f, _ in out]):
                continue
            f, ls = mine[0]
            m.ok(os.path.dirname(os.path.abspath(f)) == os.path.abspath(path) and os.path.isfile(f) and os.path.getsize(f) > 0, "plot file is missing", file=f)
            want = {x: oracle(rows, head, d, name, x, k) for x in methods}
            want = {x: v for x, v in want.items() if len(v[0])}
            got = [l for l in ls if l[0] in methods]
            m.eq(sorted(l[0] for l in ls), sorted(want), "curves of the plot", target=name, dims=d, metric=k)
            for lbl, x, y in got:
                if lbl not in want:
                    continue
                m.ev("curves_compared")
                m.ev("points_compared", len(x))
                wx, wy = want[lbl]
                if m.ok(x.shape == wx.shape and np.array_equal(x, wx), "sample counts of a curve", method=lbl, target=name, metric=k, got=x, expected=wx):
                    m.ok(y.shape == wy.shape and np.array_equal(np.isnan(y), np.isnan(wy)) and np.allclose(y[~np.isnan(y)], wy[~np.isnan(wy)], rtol=1e-7, atol=1e-9),
                         "points of a curve are not the rolling average of the recorded values", method=lbl, target=name, dims=d, metric=k, got=y, expected=wy)
    extra = [os.path.basename(f) for f, _ in out if not os.path.basename(f).startswith("legend")]
    m.eq(len(extra), len(targets) * len(metrics), "number of result plots", files=extra)


def snapshot(b):
    keep = ["metrics", "n_experiments", "rseed", "generate_plots_path", "plot_dpi", "nsamples", "eval_sampl", "batch_sizes", "ndims", "output_file"]
    s = {k: BM.plain(list(v) if isinstance(v, list) else v) for k, v in vars(b).items() if k in keep}
    s["targets"] = [(t.name, t.dims, BM.plain(np.array(t.support()))) for t in b.targets]
    s["methods"] = [x.name for x in b.methods]
    return s


def synthetic(m, rng, reps):
    """Results files with every kind of content, in any order."""
    from ais_benchmarks.benchmark import CBenchmark
    for _ in range(reps):
        nt = int(rng.choice([1, 2, 3]))
        names = [str(x) for x in rng.choice(["gmm", "gmm2", "egg", "normal", "n"], nt)]
        T, seen = [], set()
        for i in range(nt):
            t = BM.target(rng, i, kinds=("gmm", "normal"), dims=(1, 2, 3))
            t["name"] = names[i]
            d = len(t["params"]["support"][0])
            if (names[i], d) in seen:
                t["name"] = names[i] + "_%d" % i
            seen.add((t["name"], d))
            T.append(t)
        targets = [(t["name"], len(t["params"]["support"][0])) for t in T]
        pool = list(BM.METHODS)
        M, used = [], []
        for i in range(int(rng.integers(1, 11))):
            n = str(rng.choice(pool))
            x = BM.method(n, tag="" if n not in used else "_%d" % i)
            used.append(x["name"])
            M.append(x)
        ms = [str(x) for x in rng.permutation(METRICS)[:int(rng.integers(1, 4))]]
        head = COLS + [x for x in ms if x != "NESS"] + ["NESS", "method", "target_d", "accept_rate", "proposal_samples", "proposal_evals", "target_evals"]
        nr = int(rng.choice([1, 2, 5]))
        rows = []
        absent = set()
        for name, d in targets + [("other", 1), (targets[0][0], targets[0][1] + 1)]:
            for x in used + ["other_method"]:
                if rng.random() < .12 and len(absent) < len(used) - 1:
                    absent.add((name, d, x))
                    continue
                step, n = int(rng.choice([1, 7, 16])), int(rng.choice([3, 10, 11, 25, 60]))
                base = rng.uniform(0, 2)
                for r in range(nr):
                    for j in range(n - (int(rng.integers(0, 3)) if r else 0)):
                        vals = ["%9.5f" % v for v in base + rng.normal(0, 1, len(ms) - ("NESS" in ms)) / (1 + j)]
                        rows.append(["%02d" % d, "%04d" % (step * (j + 1))] + [v.strip() for v in vals] +
                                    ["%.3f" % rng.uniform(0, 1), x, name, "%5.3f" % rng.uniform(0, 1)] + [str(int(v)) for v in rng.integers(0, 1000, 3)])
        if rng.random() < .4:
            rows = [rows[i] for i in rng.permutation(len(rows))]
        m.trial(str(targets), tuple(used), tuple(ms), len(rows))
        m.state(nt, len(used), tuple(sorted(ms)), nr)
        m.ev("recorded_rows", len(rows))
        with BM.Tmp() as tmp:
            os.makedirs(tmp.path("plots"))
            res = tmp.path("results.txt")
            with open(res, "w") as f:
                f.write(" ".join(head) + "\n" + "".join("  ".join(r) + "\n" if rng.random() < .3 else " ".join(r) + "\n" for r in rows))
            before = open(res, "rb").read()
            conf = BM.config(ms, nr, 3, tmp)
            files = tmp.write("b.yaml", dict(targets=T)), tmp.write("m.yaml", dict(methods=M)), tmp.write("c.yaml", conf)
            texts = [open(f, "rb").read() for f in files]
            b = CBenchmark()
            out = []
            with BM.quiet(), intercepted(m, out):
                b.make_plots(files[0], files[1], files[2], res)
                s1 = snapshot(b)
            judge(m, out, rows, head, targets, used, ms, tmp.path("plots"))
            m.ok(open(res, "rb").read() == before, "making plots changed the results file")
            m.ok([open(f, "rb").read() for f in files] == texts, "making plots changed a configuration file")
            m.eq(s1["metrics"], ms, "metrics after making plots")
            m.eq([(t[0], t[1]) for t in s1["targets"]], targets, "targets after making plots")
            m.eq(s1["methods"], used, "methods after making plots")
            # a second time, from what is already loaded
            out2 = []
            with BM.quiet(), intercepted(m, out2):
                b.make_plots()
            judge(m, out2, rows, head, targets, used, ms, tmp.path("plots"))
            m.eq(snapshot(b), s1, "making plots changed the loaded configuration")
            m.ok(open(res, "rb").read() == before, "making plots changed the results file")


def real(m, rng, reps):
    """Plots made by a run of the benchmark."""
    for _ in range(reps):
        T = [BM.target(rng, i, kinds=("gmm", "normal"), dims=(1, 1, 2)) for i in range(int(rng.choice([1, 2])))]
        for t in T:
            t.update(batch_size=2, nsamples=int(rng.choice([24, 30])), nsamples_eval=20)
        used = [str(x) for x in rng.choice(["m_pmc", "dm_ais", "lais", "rejection", "mcmc_mh"], 2, replace=False)]
        M = [BM.method(x) for x in used]
        ms = [str(x) for x in rng.permutation(["JSD", "EVMSE", "T", "KLD"])[:2]]
        targets = [(t["name"], len(t["params"]["support"][0])) for t in T]
        m.trial(str(targets), tuple(used), tuple(ms))
        m.state("run", tuple(used), tuple(ms))
        with BM.Tmp() as tmp:
            out = []
            with intercepted(m, out):
                b, f = BM.run(tmp, T, M, BM.config(ms, 2, 1, tmp, plots=True))
            head, rows = BM.parse(f)
            m.ev("recorded_rows", len(rows))
            m.eq(list(b.metrics), ms, "metrics after a run with plots")
            judge(m, out, rows, head, targets, used, ms, tmp.path("plots"))
            out = []
            with intercepted(m, out):
                b, f = BM.run(tmp, T, M, BM.config(ms, 1, 1, tmp, plots=False), out="res/r2.txt", bench=b)
            m.eq(len(out), 0, "plots are made although they are disabled")


def cases(tier):
    k = 1 if tier == "quick" else 12
    return [("files-%d" % i, synthetic, dict(reps=2 * k)) for i in range(6)] + [("run-%d" % i, real, dict(reps=k)) for i in range(2)]
