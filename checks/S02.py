import numpy as np
from vlib import samplers as SM

RULE = "one monitored execution per request of a random request history (growing, repeated, shrinking, cut short)"
ASSUMPTIONS = ["multi-nested sampling adds at least one point per ellipsoid on every request by design: only prefix preservation is checked",
               "tree pyramids replace the points of subdivided cells by design"]


def rows(S):
    return sorted(map(bytes, np.ascontiguousarray(S, float)))


def run(m, rng, kind, reps, long=False):
    for _ in range(reps):
        over = dict(n_min=int(rng.choice([40, 80])), target_ess=.98) if long and kind == "hidaisee" else {}
        s, p, t, lo, hi, lab = SM.scenario(rng, kind, **over)
        m.state(*lab)
        tag = kind + ": "
        S0, W0, n0 = np.zeros((0, len(lo))), np.zeros(0), 0
        full = 0
        for step in range(int(rng.integers(3, 8))):
            op = str(rng.choice(["grow", "grow", "same", "shrink", "short"]))
            n = n0 + int(rng.choice([1, 2, 9, 30]))
            if long and step < 2:
                op, n = "grow", int(SM.long(kind, rng) * (.1 + .4 * rng.random() if step == 0 else 1))
            if op == "same":
                n = len(S0)
            elif op == "shrink":
                n = int(rng.integers(0, len(S0) + 1))
            if (op in ("same", "shrink") and (kind == "multinested" or len(S0) == 0)) or (op == "short" and len(S0) == 0):
                continue
            m.trial(*lab, str(p), step, op, n)
            m.ev("requests_" + op)
            before = t.n_points
            if op == "short":
                S, W, late = SM.request(s, t, n + 200, limit=int(rng.integers(0, 30)))
            else:
                S, W, late = SM.request(s, t, n, limit=200000 if long else 4000)
            S, W = np.array(S), np.array(W)
            if S.ndim != 2 or len(S) == 0:
                continue
            if len(S0):
                judge(m, tag, kind, p, t, S0, W0, S, W)
                m.ok(len(S) >= len(S0) or (kind.startswith("tp")), tag + "a later request returned fewer points",
                     before=len(S0), after=len(S), op=op)
            if op in ("same", "shrink"):
                m.ok(S.shape == S0.shape and np.array_equal(S, S0), tag + "a satisfied request changed the samples", n=n, have=len(S0), got=len(S))
                m.ok(W.shape == W0.shape and np.allclose(W, W0, rtol=1e-12, atol=0, equal_nan=True),
                     tag + "a satisfied request changed the weights")
                if kind not in ("nested",):
                    m.eq(t.n_points - before, 0, tag + "a satisfied request evaluated the target")
            elif op == "grow" and not late:
                m.ok(len(S) >= n, tag + "growing requests yield fewer points than asked for", n=n, got=len(S))
            if op == "grow":  # what was already obtained counts: at most one iteration more than asked for
                it = {"dm": p.get("K", 1) * p.get("N", 1), "lais": p.get("K", 1) * p.get("N", 1), "mpmc": p.get("K", 1),
                      "rejection": 1, "mh": 1, "nested": 1, "hidaisee": 1}.get(kind)
                if it is not None:
                    m.ok(len(S) <= max(len(S0), n - 1 + it), tag + "more points than one iteration beyond the request",
                         n=n, had=len(S0), got=len(S), iteration=it)
            S0, W0, n0 = S, W, len(S)
            st = s.get_stats() if W.sum() > 0 else None
            if st is not None:
                m.eq(st["n_samples"], len(S), tag + "the reported number of samples is not the number returned")
                a, b = s.get_NESS(), s.get_NESS()
                m.ok(a == b or (a != a and b != b), tag + "estimates differ when read twice", first=a, second=b)


def judge(m, tag, kind, p, t, S0, W0, S, W):
    n = len(S0)
    if kind in SM.CUMULATIVE:
        if not m.ok(len(S) >= n and np.array_equal(S[:n], S0), tag + "earlier points were not kept in place", before=S0, after=S[:n]):
            return
        m.ev("prefix_points", n)
        if kind == "mpmc":
            m.ok(np.array_equal(W[:n], W0), tag + "weights of earlier iterations changed")
        elif kind in ("rejection", "mh"):
            pass
        elif np.isfinite(W).all() and np.isfinite(W0).all() and W0.sum() > 0 and W[:n].sum() > 0:
            m.close(W[:n] / W[:n].sum(), W0 / W0.sum(), tag + "relative weights of earlier points changed", rtol=1e-9)
    elif kind == "hidaisee":
        a, b = rows(S0), rows(S)
        i = 0
        for r in a:  # multiset inclusion of sorted lists
            while i < len(b) and b[i] < r:
                i += 1
            if i >= len(b) or b[i] != r:
                m.ok(False, tag + "an earlier point was lost", point=np.frombuffer(r))
                return
            i += 1
        m.ok(True, tag)
        m.ev("prefix_points", n)
    elif kind in ("tp_haar", "tp_normal"):
        common = {}
        for x, w in zip(S0, W0):
            common[bytes(np.ascontiguousarray(x, float))] = w
        r = [(w, common[bytes(np.ascontiguousarray(x, float))]) for x, w in zip(S, W) if bytes(np.ascontiguousarray(x, float)) in common]
        r = np.array([q for q in r if q[0] > 0 and q[1] > 0])
        m.ev("kept_points", len(r))
        if len(r) > 1:
            q = r[:, 0] / r[:, 1]
            m.ok(q.max() <= q.min() * (1 + 1e-9), tag + "relative weights of kept points changed", ratios=q)


def twin(m, rng, reps):
    """Several growing requests against a single one: never fewer points."""
    for _ in range(reps):
        kind = str(rng.choice(SM.KINDS))
        s, p, t, lo, hi, lab = SM.scenario(rng, kind, targets=("gauss", "gmm", "laplace"))
        b = SM.make(kind, lo, hi, p)
        n = int(rng.integers(5, 80))
        m.trial("twin", *lab, str(p), n)
        k = 0
        late = False
        for _ in range(4):
            k = min(n, k + int(rng.integers(1, n + 1)))
            S, W, l = SM.request(s, t, k)
            late |= l
        S, W, l = SM.request(s, t, n)
        S1, W1, l1 = SM.request(b, t, n)
        m.ev("twins")
        if not (late or l or l1):
            m.ok(len(S) >= n and len(S1) >= n, kind + ": fewer points than requested", stepwise=len(S), single=len(S1), n=n)


def cases(tier):
    k = 1 if tier == "quick" else 15
    return [("%s-%d" % (s, b), run, dict(kind=s, reps=5 * k)) for b in range(3) for s in SM.KINDS] + \
           [("long-%s" % s, run, dict(kind=s, reps=k * (6 if SM.LONG[s] > 2000 else 2 if s == "hidaisee" else 1), long=True)) for s in SM.LONG] + \
           [("twin-%d" % b, twin, dict(reps=20 * k)) for b in range(4)]
