import numpy as np
from vlib import samplers as SM
from vlib import targets as T

RULE = "one monitored execution per request; output order, live points and likelihoods are examined after each"
ASSUMPTIONS = ["ellipsoids of the multi-ellipsoid variant are read from its ellipsoids attribute when present"]


def nested(m, rng, reps):
    for _ in range(reps):
        s, p, t, lo, hi, lab = SM.scenario(rng, "nested", dims=(1, 1, 2, 3, 4), c=(1., 1e-6, 1e6))
        if rng.random() < .2:
            p["N"] = int(rng.choice([1, 1, 120, 300, 700]))
            s = SM.make("nested", lo, hi, p)
        m.state(*lab)
        d = len(lo)
        lo_, hi_ = np.asarray(lo, float), np.asarray(hi, float)
        if not hasattr(s, "live_points"):
            m.ev("internals_unavailable")
        tol = 1e-9 * (hi_ - lo_) + 1e-12 * np.abs(lo_)
        seen = []
        t.on_eval = lambda x: seen.extend(map(bytes, np.ascontiguousarray(x, float)))
        n_old = 0
        live0 = np.array(s.live_points, float) if hasattr(s, "live_points") else None
        for n in SM.sizes("nested", p, rng, 4):
            m.trial(*lab, str(p), n)
            if rng.random() < .1 and n_old:
                s.reset()
                m.ev("resets")
                n_old = 0
                live0 = np.array(s.live_points, float) if hasattr(s, "live_points") else None
                seen.clear()
            S, W, late = SM.request(s, t, n, limit=20000)
            S = np.array(S, float)
            L = t.lp(S)
            m.ev("output_points", len(S))
            if hasattr(s, "live_points"):
                live = np.array(s.live_points, float)
                m.ev("live_points", len(live))
                m.ok(live.shape == (p["N"], d), "number of live points changed", shape=live.shape, N=p["N"])
                m.ok(np.all(live >= lo_ - tol) and np.all(live <= hi_ + tol), "a live point left the domain", live=live)
                if len(np.unique(live0, axis=0)) == p["N"] and not late and n_old == 0:
                    # every output comes from the initial live points or was a replacement
                    pool = set(map(bytes, np.ascontiguousarray(live0))) | set(seen)
                    m.ok(all(bytes(x) in pool for x in np.ascontiguousarray(S)), "an output point was never a live point")
                    rest = set(map(bytes, np.ascontiguousarray(live)))
                    untouched = [x for x in np.ascontiguousarray(live0) if bytes(x) not in rest]
                    outs = set(map(bytes, np.ascontiguousarray(S)))
                    m.ok(all(bytes(x) in outs for x in untouched), "a live point disappeared without being output", lost=len(untouched))
            m.ok(all(bytes(x) in seen for x in np.ascontiguousarray(S)), "an output point was never evaluated")
            if late:
                m.ev("requests_cut_short")
                break
            m.ok(np.all(np.diff(L[np.isfinite(L)]) >= -1e-9 * np.maximum(1, np.abs(L[np.isfinite(L)][1:]))) and
                 not (np.isfinite(L[:-1]) & ~np.isfinite(L[1:])).any(), "likelihood of successive output points decreases", L=L)
            if hasattr(s, "live_points"):
                ll = t.lp(live)
                m.ok(np.all((ll >= L[-1] - 1e-9 * max(1, abs(L[-1]) if np.isfinite(L[-1]) else 1)) | (L[-1] == -np.inf)),
                     "a live point is less likely than the last output point", live=ll.min(), last=L[-1])
            if hasattr(s, "L") and np.size(s.L):
                m.close(np.asarray(s.L, float).reshape(-1), np.exp(L), "likelihood kept for an output point is not the likelihood there", rtol=1e-9, atol=1e-290)
            n_old = len(S)
        t.on_eval = None


def multi(m, rng, reps, N=None):
    for _ in range(reps):
        s, p, t, lo, hi, lab = SM.scenario(rng, "multinested", dims=(1, 2, 2, 3), c=(1., 1e-6, 1e6))
        p["N"] = N or p["N"]
        p["converged_radius"] = 0. if rng.random() < .7 else p["converged_radius"]
        s = SM.make("multinested", lo, hi, p)
        m.state(*lab)
        d = len(lo)
        lo_, hi_ = np.asarray(lo, float), np.asarray(hi, float)
        tol = 1e-9 * (hi_ - lo_) + 1e-12 * np.abs(lo_)
        n_old = 0
        for n in SM.sizes("multinested", p, rng, 3):
            m.trial(*lab, str(p), n)
            before = np.array(s.live_points, float) if hasattr(s, "live_points") else None
            S, W, late = SM.request(s, t, n, limit=3000)
            S = np.array(S, float)
            L = t.lp(S)
            m.ev("output_points", len(S))
            if hasattr(s, "L") and np.size(s.L):
                m.close(np.asarray(s.L, float).reshape(-1), np.exp(L), "ellipsoids: likelihood kept for an output point is not the likelihood there", rtol=1e-9, atol=1e-290)
            if before is None or not hasattr(s, "ellipsoids"):
                m.ev("internals_unavailable")
                continue
            live = np.array(s.live_points, float)
            m.ok(live.shape == (p["N"], d), "ellipsoids: number of live points changed", shape=live.shape, N=p["N"])
            m.ok(np.all(live >= lo_ - tol) and np.all(live <= hi_ + tol), "ellipsoids: a live point left the domain")
            if late:
                m.ev("requests_cut_short")
                break
            # points of one request, ellipsoid by ellipsoid
            E = s.ellipsoids
            idx = [np.asarray(e.indices) for e in E]
            m.ok(np.array_equal(np.sum(np.array(idx, int), axis=0), np.ones(len(live), int)), "ellipsoids: a live point is not in exactly one ellipsoid")
            m.state("ellipsoids", len(E))
            new = S[n_old:]
            per = len(new) // len(E)
            m.eq(per * len(E), len(new), "ellipsoids: unequal number of points per ellipsoid", new=len(new), ellipsoids=len(E))
            for k, e in enumerate(E):
                part = t.lp(new[k * per:(k + 1) * per])
                m.ev("ellipsoid_runs")
                if e.volume > p["converged_radius"] ** d:
                    f = part[np.isfinite(part)]
                    m.ok(np.all(np.diff(f) >= -1e-9 * np.maximum(1, np.abs(f[1:]))) and not (np.isfinite(part[:-1]) & ~np.isfinite(part[1:])).any(),
                         "ellipsoids: likelihood of successive points of an ellipsoid decreases", L=part)
                    own = t.lp(live[idx[k]])
                    m.ok(np.all(own >= part[-1] - 1e-9 * max(1, abs(part[-1]) if np.isfinite(part[-1]) else 1)) or part[-1] == -np.inf,
                         "ellipsoids: a live point of an ellipsoid is less likely than its last output", live=own.min(), last=part[-1])
                else:
                    m.ev("converged_ellipsoids")
                first = t.lp(before[idx[k]])
                if len(part):
                    m.ok(part[0] <= first.min() + 1e-9 * max(1, abs(first.min()) if np.isfinite(first.min()) else 1),
                         "ellipsoids: the first output of an ellipsoid is not its least likely point", first=part[0], least=first.min())
            n_old = len(S)


def cases(tier):
    k = 1 if tier == "quick" else 15
    return [("nested-%d" % b, nested, dict(reps=14 * k)) for b in range(8)] + [("multi-%d" % b, multi, dict(reps=8 * k)) for b in range(6)] + \
        [("many-%d" % b, multi, dict(reps=k, N=n)) for b, n in enumerate((256, 300))]
