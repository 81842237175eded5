import numpy as np
from vlib import samplers as SM
from vlib import targets as T

RULE = "one monitored execution per request; every proposal draw and every target evaluation is counted by the harness"
ASSUMPTIONS = ["draws are counted at the outermost sample() call of the library's distributions", "draws that only initialise a sampler are not "
               "proposal samples (Metropolis-Hastings start point)"]


class Count:
    """Counts the points drawn through outermost sample() calls of the library's distribution classes."""

    def __init__(self):
        from ais_benchmarks.distributions import CMultivariateNormal, CMultivariateUniform, CMixtureModel
        self.n, self.depth, self.saved = 0, 0, []
        for c in (CMultivariateNormal, CMultivariateUniform, CMixtureModel):
            if "sample" in c.__dict__:
                self.saved.append((c, c.__dict__["sample"]))
                setattr(c, "sample", self.wrap(c.__dict__["sample"]))

    def wrap(self, orig):
        def sample(obj, *a, **k):
            self.depth += 1
            try:
                r = orig(obj, *a, **k)
            finally:
                self.depth -= 1
            if self.depth == 0:
                self.n += len(np.atleast_2d(r))
            return r
        return sample

    def undo(self):
        for c, f in self.saved:
            setattr(c, "sample", f)


def judge(m, tag, kind, s, p, t, cnt, S, before, prev):
    st = s.get_stats()
    q, e, pi = st["proposal_samples"], st["proposal_evals"], st["target_evals"]
    m.ev("counter_readings")
    m.ok(q == s.num_proposal_samples and e == s.num_proposal_evals and pi == s.num_target_evals, tag + "statistics disagree with the counters",
         stats=st, counters=(s.num_proposal_samples, s.num_proposal_evals, s.num_target_evals))
    m.eq(st["n_samples"], len(S), tag + "reported number of samples")
    m.eq(int(pi), t.n_points, tag + "reported target evaluations against points evaluated")
    m.eq(int(q), cnt.n, tag + "reported proposal samples against points drawn")
    m.ok(q >= prev[0] and e >= prev[1] and pi >= prev[2], tag + "a counter decreased", before=prev, after=(q, e, pi))
    # proposal evaluations of each method in terms of its work
    K, N, n = p.get("K", 0), p.get("N", 0), len(S)
    exp = {"dm": n, "lais": n, "mpmc": (1 + N) * n, "rejection": q, "hidaisee": pi, "nested": 0, "multinested": 0}.get(kind)
    if kind.startswith("tp"):
        exp = pi
    if kind == "mh":
        exp = before["in_domain"] * 2
    if exp is not None:
        m.eq(int(e), int(exp), tag + "reported proposal evaluations against the method's work")
    if len(S):
        a = s.get_acceptance_rate()
        m.ok(0 <= a <= 1, tag + "acceptance rate outside of [0, 1]", rate=a)
        if kind == "mh":
            if before["moves"] is not None:
                m.close(a, before["moves"], tag + "acceptance rate against the moves of the chain")
        else:
            m.close(a, len(S) / q, tag + "acceptance rate against accepted over proposed")
    return (q, e, pi)


def chain(s):
    """Moves of the chain from its trajectory: proposals inside of the domain, fraction accepted."""
    try:
        X = np.array(s.trajectory_samples, float).reshape(len(s.trajectory_samples), -1)
        ty = np.array(s.trajectory_types)
        ins = np.all((X >= s.space_min) & (X <= s.space_max), axis=1)
        return {"in_domain": int(ins.sum()), "moves": float(np.mean(ty != type(s).REJECT)) if len(ty) else None}
    except AttributeError:
        return {"in_domain": s.num_target_evals // 2, "moves": None}


def draws(m, tag, s, rng):
    a, k = s.num_proposal_samples, int(rng.integers(1, 9))
    s.sample(k)
    m.ev("explicit_draws", k)
    m.eq(s.num_proposal_samples - a, k, tag + "explicit proposal draws are not counted once each")


def run(m, rng, kind, reps, long=False):
    tag = kind + ": "
    for _ in range(reps):
        cnt = Count()
        try:
            over = dict(n_min=int(rng.choice([45, 80])), target_ess=.98) if long and kind == "hidaisee" else {}
            s, p, t, lo, hi, lab = SM.scenario(rng, kind, dims=(1, 1, 2, 3) if not long else (1, 2), **over)
            m.state(*lab)
            cnt.n = 0
            prev = (0, 0, 0)
            st = s.get_stats() if not kind.startswith("tp") else None
            if st is not None:
                m.ok(st["proposal_samples"] == st["proposal_evals"] == st["target_evals"] == 0, tag + "counters of a new sampler", stats=st)
            need = 0
            for step in range(int(rng.integers(2, 6))):
                m.trial(*lab, str(p), step)
                if rng.random() < .2 and step:
                    s.reset()
                    m.ev("resets")
                    cnt.n = t.n_points = 0
                    m.ok(s.num_proposal_samples == s.num_proposal_evals == s.num_target_evals == 0, tag + "counters after a reset",
                         counters=(s.num_proposal_samples, s.num_proposal_evals, s.num_target_evals))
                    m.eq(len(s.samples), 0, tag + "samples after a reset")
                    prev, need = (0, 0, 0), 0
                need += int(rng.choice([1, 5, 20, 40]))
                if long and step == 0:
                    need = SM.long(kind, rng) // 2
                if rng.random() < .2:
                    need = max(need - 50, 1)
                lim = 200000 if long else 4000 if rng.random() < .8 else int(rng.integers(1, 60))
                S, W, late = SM.request(s, t, need, limit=lim)
                m.ev("requests")
                if late:
                    m.ev("requests_cut_short")
                if np.asarray(W).sum() > 0:
                    prev = judge(m, tag, kind, s, p, t, cnt, S, chain(s) if kind == "mh" else None, prev)
                # drawing proposal samples is counted as well
                if kind not in ("mh", "rejection") and len(S) and np.asarray(W).sum() > 0 and rng.random() < .3:
                    draws(m, tag, s, rng)
                    prev = (s.num_proposal_samples,) + prev[1:]
            if kind == "rejection" and len(S):
                draws(m, tag, s, rng)
            m.ev("target_points", t.n_points)
            m.ev("proposal_points", cnt.n)
        finally:
            cnt.undo()


def cases(tier):
    k = 1 if tier == "quick" else 15
    return [("%s-%d" % (s, b), run, dict(kind=s, reps=8 * k)) for b in range(3) for s in SM.KINDS] + \
           [("long-%s" % s, run, dict(kind=s, reps=2 * k, long=True)) for s in SM.LONG]
