import math
import re
import numpy as np
from vlib import bench as BM
from vlib.vclock import VirtualClock

RULE = "one monitored execution per benchmark run or evaluation whose file is compared with the recorded calls"
ASSUMPTIONS = ["names of targets and methods have no spaces", "the time metric is measured on a virtual clock"]
CPU_LIMIT = 200


GLUED = re.compile(r"^(-?\d+\.\d{5}|-?inf|nan)(-\d{4,}\.\d{3}|\d{5,}\.\d{3})$")


def unglue(m, r, n):
    """A row where the last metric runs into the efficiency, for want of a blank between the two (known)."""
    if len(r) == n - 1:
        for i, x in enumerate(r):
            g = GLUED.match(x)
            if g and i == n - 8:
                m.known_finding("ness-glued", "the last metric and a normalised effective sample size of nine characters or more are written without a blank between them")
                return r[:i] + list(g.groups()) + r[i + 1:]
    return r


class Recorder:
    """Records the values returned by the metrics, and the sizes of the sample sets returned by the methods."""

    def __enter__(self):
        from ais_benchmarks.metrics import divergences as dv, statistics as sv, performance as pf
        self.log, self.undo = [], []
        for code, c in (("KLD", dv.CKLDivergence), ("JSD", dv.CJSDivergence), ("EVMSE", sv.CExpectedValueMSE), ("T", pf.CElapsedTime), ("MEM", pf.CMemoryUsage)):
            self._wrap(c, code)
        return self

    def _wrap(self, c, code):
        f, own = c.compute, "compute" in c.__dict__

        def compute(s, **kw):
            v = f(s, **kw)
            if kw:  # the calibration of the time metric reads itself without arguments
                self.log.append((code, float(np.squeeze(v)), kw))
            return v
        c.compute = compute
        self.undo.append((c, f, own))

    def __exit__(self, *a):
        for c, f, own in self.undo:
            if own:
                c.compute = f
            else:
                del c.compute


def num(txt, v, digits):
    """The printed number is the value, rounded to the number of digits."""
    x = float(txt)
    if not math.isfinite(v) or not math.isfinite(x):
        return (math.isnan(x) and math.isnan(v)) or x == v
    return abs(x - v) <= .51 * 10 ** -digits + 1e-12 * abs(v)


def columns(m, head, rows, metrics):
    """Checks the shape of the table and returns the rows as dictionaries."""
    m.ok(head[:2] == ["dims", "output_samples"] and head[-len(BM.TAIL):] == BM.TAIL, "header of the results file", got=head)
    out = []
    for r in rows:
        if "NESS" in metrics and len(head) == len(metrics) + 9:
            r = unglue(m, r, len(head) - 1)
        if "NESS" in metrics and len(head) == len(metrics) + 9 and len(r) == len(metrics) + 8:
            m.known_finding("ness-column", "a configured NESS metric has a column in the header but no value in the rows")
            cols = ["dims", "output_samples"] + [c for c in metrics if c != "NESS"] + ["NESS"] + BM.TAIL
        else:
            cols = head
            m.ok(len(set(head)) == len(head) and set(metrics) <= set(head) and "NESS" in head, "columns of the header", got=head, metrics=metrics)
        r = unglue(m, r, len(cols))
        if not m.ok(len(r) == len(cols), "number of values in a row", got=len(r), columns=cols, row=r):
            return None
        out.append(dict(zip(cols, r)))
    return out


class StubTarget:
    def __init__(self, d, name):
        self.dims, self.name = d, name
        self.lo, self.hi = -np.ones(d), np.ones(d)

    def support(self):
        return np.array([self.lo, self.hi])

    def log_prob(self, x):
        return -.5 * np.sum(x * x, axis=1) * 9

    def prob(self, x):
        return np.exp(self.log_prob(x))


class StubMethod:
    """Returns as many samples as asked for (or more, or fewer) and logs every call."""

    def __init__(self, rng, d, name, log, clock, wild=False):
        self.rng, self.d, self.name, self.log, self.clock, self.wild = rng, d, name, log, clock, wild
        self.over = int(rng.choice([0, 0, 3, 20]))
        self.short = rng.random() < .3
        self.resets = 0
        self.samples = np.zeros((0, d))
        self.num_proposal_samples = self.num_proposal_evals = self.num_target_evals = 0

    def reset(self):
        self.resets += 1
        self.samples = np.zeros((0, self.d))
        self.num_proposal_samples = self.num_proposal_evals = self.num_target_evals = 0
        self.log.append(("reset",))

    def importance_sample(self, target_d, n_samples, timeout=60):
        n = max(n_samples - len(self.samples), 0) + (int(self.rng.integers(0, self.over + 1)))
        if self.short and self.rng.random() < .3 and n > 1:
            n -= 1
        self.samples = np.concatenate((self.samples, self.rng.uniform(-1, 1, (n, self.d))))
        self.num_proposal_samples += int(self.rng.integers(0, 10 ** int(self.rng.integers(1, 7))))
        self.num_proposal_evals += int(self.rng.integers(0, 500))
        self.num_target_evals += int(self.rng.integers(0, 500))
        self.clock.advance(float(self.rng.uniform(0, 3)))
        # the efficiency of a chain, from its correlations, can be any number
        self.ness = float(self.rng.uniform(0, 1)) if not self.wild else float(self.rng.choice([-1, 1]) * 10 ** self.rng.uniform(-3, 16))
        self.acc = float(self.rng.uniform(0, 1))
        self.c = self.rng.uniform(-.5, .5, self.d)
        self.log.append(("request", n_samples, len(self.samples), self.ness, self.acc, self.num_proposal_samples, self.num_proposal_evals, self.num_target_evals))
        return self.samples, np.ones(len(self.samples)) / max(len(self.samples), 1)

    def get_NESS(self):
        return self.ness

    def get_acceptance_rate(self):
        return self.acc

    def log_prob(self, x):
        return -.5 * np.sum((x - self.c) ** 2, axis=1) * 4

    def prob(self, x):
        return np.exp(self.log_prob(x))

    def get_viz_frames(self):
        return None


def metric_list(rng, mem=False):
    M = ["KLD", "JSD", "EVMSE", "T"] + (["MEM"] if mem else []) + (["NESS"] if rng.random() < .25 else [])
    k = int(rng.integers(0, len(M) + 1))
    return [str(x) for x in rng.permutation(M)[:k]]


def evaluation(m, rng, reps, mem=False, wild=False):
    """The evaluation of one pair, with components that log what they are asked."""
    from ais_benchmarks.benchmark.CBenchmark import CBenchmark
    for _ in range(reps):
        d = int(rng.choice([1, 2, 3, 12]))
        ms = metric_list(rng, mem)
        n, bs, nr = int(rng.choice([1, 7, 30, 120])), int(rng.choice([1, 4, 16, 50])), int(rng.choice([1, 2, 3]))
        if mem:  # the heap probe is slow
            n, nr, ms = min(n, 7), 1, ms if "MEM" in ms else ms + ["MEM"]
        m.trial(d, tuple(ms), n, bs, nr)
        m.state(tuple(ms), bs > n, nr)
        log = []
        with BM.Tmp() as tmp, VirtualClock() as c, Recorder() as rec, BM.quiet():
            t, s = StubTarget(d, "tgt"), StubMethod(rng, d, "meth", log, c, wild)
            CBenchmark.evaluate_method(ndims=d, target_dist=t, sampling_method=s, max_samples=n, sampling_eval_samples=25, metrics=ms, rseed=int(rng.choice([-1, 3])),
                                       n_reps=nr, batch_size=bs, debug=False, filename=tmp.path("r.txt"), max_sampling_time=1e9)
            with open(tmp.path("r.txt")) as f:
                rows = [l.split() for l in f.read().split("\n")]
        m.ok(rows.pop() == [], "the file does not end with a line break")
        vals = [x for x in ms if x != "NESS"]
        cols = ["dims", "output_samples"] + vals + ["NESS"] + BM.TAIL
        req = [x for x in log if x[0] == "request"]
        m.ev("requests", len(req))
        m.ev("metric_values", len(rec.log))
        m.eq(len(rows), len(req), "one row per partial result")
        m.eq(len(rec.log), len(req) * len(vals), "every metric is computed once per partial result")
        seqs, cur = [], None
        for x in log:
            if x[0] == "reset":
                cur = []
                seqs.append(cur)
            else:
                cur.append(x)
        seqs = [q for q in seqs if q]
        m.eq(len(seqs), nr, "number of repetitions, each from a reset method")
        for q in seqs:
            have = 0
            for x in q:
                m.ok(x[1] == have + bs, "number of samples requested", got=x[1], have=have, batch=bs)
                m.ok(have < n, "a request although the configured number had been reached")
                have = x[2]
            m.ok(have >= n, "a repetition ended before the configured number of samples", got=have, configured=n)
        for i, (r, x) in enumerate(zip(rows, req)):
            r = unglue(m, r, len(cols))
            if not m.ok(len(r) == len(cols), "number of values in a row", got=r, columns=cols):
                break
            z = dict(zip(cols, r))
            m.ev("rows")
            m.ok(int(z["dims"]) == d and z["method"] == "meth" and z["target_d"] == "tgt", "identification of a row", row=r)
            m.ok(int(z["output_samples"]) == x[2], "number of output samples", row=r, expected=x[2])
            m.ok(num(z["NESS"], x[3], 3) and num(z["accept_rate"], x[4], 3), "NESS and acceptance rate of a row", row=r, expected=x)
            m.ok([int(z[k]) for k in BM.TAIL[3:]] == list(x[5:]), "evaluation counters of a row", row=r, expected=x)
            for code, v, kw in rec.log[i * len(vals):(i + 1) * len(vals)]:
                m.ok(num(z[code], v, 5), "value of metric %s" % code, row=r, expected=v)
                m.ok(kw.get("p") is t and kw.get("q") is s and kw.get("nsamples") == 25, "a metric is computed for other densities than the evaluated ones")


def full(m, rng, reps, always=None):
    """Whole runs from configuration files with the real methods."""
    for _ in range(reps):
        T = [BM.target(rng, i) for i in range(int(rng.integers(1, 4)))]
        if rng.random() < .3 and len(T) > 1:
            T[1]["name"] = T[0]["name"]
        M = [BM.method(str(k)) for k in rng.choice(list(BM.METHODS), int(rng.integers(1, 4)), replace=False)]
        ms, nr = metric_list(rng) if always is None else always, int(rng.choice([1, 2, 3]))
        m.trial(str(T), str(M), tuple(ms), nr)
        m.state(tuple(ms), tuple(x["name"] for x in M), tuple(x["type"] for x in T))
        with BM.Tmp() as tmp, VirtualClock(tick=1e-6), Recorder() as rec:
            b, f = BM.run(tmp, T, M, BM.config(ms, nr, int(rng.choice([-1, 0, 7])), tmp))
            head, rows = BM.parse(f)
        Z = columns(m, head, rows, ms)
        if Z is None:
            continue
        m.ev("runs"), m.ev("rows", len(Z))
        # rows are grouped: target, method, repetition (the number of samples grows within one)
        i = 0
        for t in T:
            d = 2 if t["type"] == "Banana2D" else len(t["params"].get("mean", (t["params"].get("means") or [0])[0]))
            for x in M:
                for r in range(nr):
                    last = 0
                    while last < t["nsamples"]:
                        if not m.ok(i < len(Z), "rows are missing", target=t["name"], method=x["name"], rep=r):
                            break
                        z = Z[i]
                        m.ok(z["target_d"] == t["name"] and z["method"] == x["name"] and int(z["dims"]) == d, "order of the rows",
                             row=z, target=t["name"], method=x["name"])
                        n = int(z["output_samples"])
                        if not m.ok(n > last, "the number of samples does not grow within a repetition", row=z, before=last):
                            break
                        m.ok(float(z["accept_rate"]) >= 0 and (int(z["target_evals"]) > 0 or x["name"] == "mcmc_mh")  # every move of a chain may leave the domain
                             and int(z["proposal_samples"]) > 0, "counters of a row", row=z)
                        last = n
                        i += 1
        m.eq(i, len(Z), "number of rows")
        vals = [x for x in ms if x != "NESS"]
        m.eq([c for c, _, _ in rec.log], vals * len(Z), "metrics computed in other order or number than the rows")
        for k, (c, v, _) in enumerate(rec.log):
            z = Z[min(k // max(len(vals), 1), len(Z) - 1)]
            m.ok(num(z[c], v, 5), "value of metric %s" % c, row=z, expected=v)


def cases(tier):
    k = 1 if tier == "quick" else 15
    return [("evaluation-%d" % b, evaluation, dict(reps=40 * k)) for b in range(3)] + [("evaluation-wild", evaluation, dict(reps=10 * k, wild=True))] + [("evaluation-mem", evaluation, dict(reps=k, mem=True))] \
        + [("full-%d" % b, full, dict(reps=5 * k)) for b in range(4)] \
        + [("full-ness", full, dict(reps=2 * k, always=["JSD", "NESS", "KLD"]))]
