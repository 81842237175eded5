import math
import numpy as np
from vlib import bench as BM
from checks.B01 import StubMethod, StubTarget
from vlib.vclock import VirtualClock

RULE = "one monitored execution per evaluation of an instrumented method with a time budget on a virtual clock"
ASSUMPTIONS = ["time is virtual and spent by the requests, the metrics and the density evaluations of the metrics"]
CPU_LIMIT = 200


class Slow(StubMethod):
    """Spends virtual time in its requests, honouring the limit it is given up to one batch of work."""

    def __init__(self, rng, d, log, clock, cost, calc):
        super().__init__(rng, d, "slow", log, clock)
        self.cost, self.calc = cost, calc

    def importance_sample(self, target_d, n_samples, timeout=60):
        t0, i = self.clock.now, len(self.log)
        super().importance_sample(target_d, n_samples, timeout)
        self.clock.now = t0 + float(self.rng.uniform(.2, 1.)) * self.cost
        self.log[i] = ("request", n_samples, len(self.samples), timeout, self.clock.now - t0)
        return self.samples, np.ones(len(self.samples)) / max(len(self.samples), 1)

    def log_prob(self, x):
        self.clock.advance(self.calc)
        return super().log_prob(x)


def budget(m, rng, reps):
    from ais_benchmarks.benchmark.CBenchmark import CBenchmark
    for _ in range(reps):
        n, bs, nr = int(rng.choice([5, 30, 100])), int(rng.choice([1, 3, 10])), int(rng.choice([1, 2, 3]))
        B = float(rng.choice([1., 10., 1000., 1e6]))
        cost = B * float(rng.choice([1e-4, .05, .3, 1.5]))
        calc = B * float(rng.choice([0., 0., 10.]))
        log = []
        m.trial(n, bs, nr, B, cost, calc)
        m.state(n, bs, nr, B, cost / B, calc / B)
        with BM.Tmp() as tmp, VirtualClock() as c, BM.quiet():
            s = Slow(rng, 2, log, c, cost, calc)
            CBenchmark.evaluate_method(ndims=2, target_dist=StubTarget(2, "t"), sampling_method=s, max_samples=n, sampling_eval_samples=9, metrics=["JSD", "KLD"],
                                       rseed=-1, n_reps=nr, batch_size=bs, debug=False, filename=tmp.path("r"), max_sampling_time=B)
            with open(tmp.path("r")) as f:
                rows = [l.split() for l in f.read().split("\n")][:-1]
        reps_, cur = [], None
        for x in log:
            if x[0] == "reset":
                cur = []
                reps_.append(cur)
            else:
                cur.append(x)
        reps_ = [q for q in reps_ if q]
        m.eq(len(reps_), nr, "every repetition starts from a reset method")
        m.eq(len(rows), sum(map(len, reps_)), "a partial result was not written before the repetition ended")
        m.ev("requests", len(rows))
        for q in reps_:
            spent = 0.
            full = all(x[3] == B for x in q)  # known: nothing is subtracted
            exact = True
            for i, x in enumerate(q):
                if abs(x[3] - (B - spent)) > 1e-9 * (B + spent):
                    exact = False
                m.ok(x[3] <= B * (1 + 1e-12), "a request gets more than the whole budget", got=x[3], budget=B)
                spent += x[4]
            over = spent - q[-1][4] > B
            last = q[-1]
            if exact and not over:
                m.ev("repetitions_within_budget")
                m.ok(last[2] >= n or spent >= B, "a repetition ended with budget left and samples missing", samples=last[2], wanted=n, spent=spent, budget=B)
            elif full and last[2] >= n:
                m.ev("repetitions_over_budget")
                m.known_finding("budget-never-consumed", "every request of a repetition gets the full budget, which never ends")
            else:
                m.fail("requests do not get the remaining budget", limits=[x[3] for x in q], spent=[x[4] for x in q], budget=B, samples=last[2], wanted=n)


def exhausted(m, rng, reps):
    """A budget that is exhausted before the start (negative: the first request already ends the repetition)."""
    from ais_benchmarks.benchmark.CBenchmark import CBenchmark
    for _ in range(reps):
        nr = int(rng.integers(1, 5))
        log = []
        m.trial(nr)
        with BM.Tmp() as tmp, VirtualClock() as c, BM.quiet():
            s = Slow(rng, 2, log, c, 1., 0.)
            CBenchmark.evaluate_method(ndims=2, target_dist=StubTarget(2, "t"), sampling_method=s, max_samples=50, sampling_eval_samples=9, metrics=["JSD"],
                                       rseed=-1, n_reps=nr, batch_size=5, debug=False, filename=tmp.path("r"), max_sampling_time=-1.)
            with open(tmp.path("r")) as f:
                rows = f.read().split("\n")[:-1]
        k = [x for x in log if x[0] == "request"]
        m.ok(len(k) == len(rows) == nr, "an exhausted budget does not end the repetition after its partial result", requests=len(k), rows=len(rows), repetitions=nr)
        m.ok(all(x[3] <= 0 for x in k), "a request gets time although the budget is exhausted", limits=[x[3] for x in k])
        m.ev("exhausted_repetitions", nr)


def whole(m, rng, reps):
    """Through the configuration files: the benchmark's limit reaches the requests of every method."""
    from ais_benchmarks.sampling_methods.dm_ais import CDeterministicMixtureAIS as C
    for _ in range(reps):
        B = float(rng.choice([2., 500., 1e5]))
        T, M = [BM.target(rng, i, dims=(1, 2)) for i in range(2)], [BM.method("dm_ais", "a"), BM.method("dm_ais", "b")]
        got, old = [], C.importance_sample

        def imp(s, target_d, n_samples, timeout=None):
            got.append((s.name, target_d.name, timeout))
            return old(s, target_d, n_samples, timeout)
        m.trial(str(T), B)
        C.importance_sample = imp
        try:
            with BM.Tmp() as tmp, VirtualClock():
                BM.run(tmp, T, M, BM.config(["JSD"], 2, 0, tmp), timeout=B)
        finally:
            C.importance_sample = old
        m.ok(len({g[:2] for g in got}) == 4, "not every pair is evaluated", got=len({g[:2] for g in got}))
        m.ok(all(g[2] == B for g in got), "requests that spend no time do not get the configured budget", limits=sorted({str(g[2]) for g in got}), budget=B)
        m.ev("requests", len(got))


def cases(tier):
    k = 1 if tier == "quick" else 20
    return [("budget-%d" % b, budget, dict(reps=60 * k)) for b in range(4)] + [("exhausted", exhausted, dict(reps=30 * k)), ("whole", whole, dict(reps=4 * k))]
