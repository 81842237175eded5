import math
import numpy as np
import scipy.stats as st
from vlib import samplers as SM
from vlib import stats
from vlib import targets as T

RULE = "one monitored execution per history of a partition method driven one iteration at a time, the tree is compared before and after each"
ASSUMPTIONS = ["the tree is read through its documented attributes (nodes, leaves, values, points); without them only densities are judged",
               "iterations in which a quantity is not a number (no target mass yet) are not judged"]


# ------------------------------------------------------------------------------------------- hierarchical method
def hd_snap(T_):
    return {n.idx: dict(c=np.array(n.center, float), r=np.array(n.radius, float) * np.ones(T_.dims), q=float(np.reshape(n.q, -1)[0]),
                        ch=None if n.left is None else (n.left.idx, n.right.idx), w=np.array(n.weights, float).reshape(-1)) for n in T_.nodes}


def hd_density(m, s, S, W, tag, rng):
    """Mass of a cell: its share of the total returned weight."""
    v = hd_snap(s.T)
    tot = float(np.sum(W))
    if not tot > 0 or not np.isfinite(tot):
        return
    leaves = list(s.T.leaves)
    X, want = [], []
    for i in leaves:
        n = v[i]
        ins = np.all((S > n["c"] - n["r"]) & (S <= n["c"] + n["r"]), axis=1)
        if np.any(np.abs(np.abs(S - n["c"]) - n["r"]) < 1e-9 * n["r"]):
            return
        X.append(n["c"] + n["r"] * rng.uniform(-.9, .9, len(n["c"])))
        want.append(float(np.sum(W[ins])) / tot / float(np.prod(2 * n["r"])))
    m.ev("cell_masses", len(leaves))
    m.close(np.array(s.prob(np.array(X))).reshape(-1), want, tag + "density of a cell is not its share of the returned weight", rtol=1e-6, atol=1e-9 * max(want))


def hd_session(m, rng, reps, steps, acc, long=False):
    tag = "hidaisee: "
    for _ in range(reps):
        s, p, t, lo, hi, lab = SM.scenario(rng, "hidaisee", dims=(1, 1, 2, 3), targets=("gauss", "gmm", "half", "ridge", "corner", "laplace") if not long else ("cusp", "gauss", "cusp") if long is True else ("gauss", "laplace", "gmm", "ridge"),
                                           c=(1., .05, 30.), **(dict(n_min=int(rng.choice([2, 3]))) if long is True else dict(n_min=int(rng.choice([40, 70, 130, 210, 210])),
                                                                                                              target_ess=float(rng.choice([.5, .9, .97]))) if long else {}))
        if not hasattr(s, "T") or not hasattr(s.T, "nodes"):
            m.ev("internals_unavailable")
            return acc
        d = len(lo)
        if long == "coarse":  # smooth targets: cells of moderate efficiency
            w = (np.asarray(hi, float) - lo)
            t = T.gauss(d, np.asarray(lo, float) + w * rng.uniform(0, 1, d), float(np.max(w)) * float(rng.choice([.15, .3, .6, 1.])))
        S, W, _ = SM.request(s, t, int(rng.integers(200, 700)) if long else int(rng.choice([2, 2, 5, 30])))
        m.trial(*lab, str(p), len(S))
        for k in range(steps):
            if rng.random() < .03:
                SM.request(s, t, len(S) + int(rng.integers(2, 20)))
            elif rng.random() < .01:
                s.reset()
                SM.request(s, t, 2)
                m.ev("resets")
            a = hd_snap(s.T)
            leaves = list(s.T.leaves)
            seen = []
            t.on_eval = lambda x: seen.append(np.array(x, float))
            n0 = len(s.samples)
            S, W = s.importance_sample(t, n0 + 1, timeout=1e9)
            t.on_eval = None
            S, W = np.array(S, float), np.array(W, float).reshape(-1)
            b = hd_snap(s.T)
            m.ev("iterations")
            if not seen:
                m.fail(tag + "a request for one more point evaluates nothing")
                return acc
            x = seen[0][0]
            # which cell was drawn from, and how it was reached
            i = 0
            path, sure, chain = [], True, []
            while a[i]["ch"] is not None:
                l, r = a[i]["ch"]
                ql, qr = a[l]["q"], a[r]["q"]
                z = np.abs(x - a[l]["c"]) / a[l]["r"]
                sure = sure and np.min(np.abs(z - 1)) > 1e-12
                left = bool(np.all(z <= 1))
                if np.isfinite(ql + qr) and ql + qr > 0:
                    path.append((ql / (ql + qr), left))
                chain.append(i)
                i = l if left else r
            if not sure:
                continue
            acc["all"] += path
            acc["deep"] += path[4:]
            acc["deeper"] += path[10:]
            m.ev("deep_descents", len(path[10:]))
            m.state(*lab, len(leaves), len(path))
            m.ev("descents", len(path))
            old = a[i]
            u = (x - old["c"]) / old["r"]
            m.ok(np.all(np.abs(u) <= 1 + 1e-9), tag + "a point is drawn outside of the cells", x=x)
            acc["place"] += list((u + 1) / 2)
            w = math.exp(float(t.lp(x)[0])) * float(np.prod(2 * old["r"]))
            ws = np.append(old["w"], w)
            # value of the visited cell
            with np.errstate(all="ignore"):
                g = s.sigma * math.sqrt(math.log(n0)) if hasattr(s, "sigma") and n0 > 0 else float("nan")
                tot = sum(np.mean(ws if j == i else a[j]["w"]) + g / math.sqrt(len(ws if j == i else a[j]["w"])) for j in leaves
                          if j == i or len(a[j]["w"]))
                q = (np.mean(ws) + g / math.sqrt(len(ws))) / tot if tot else float("nan")
                ess = ws.sum() ** 2 / np.sum(ws * ws)
            if np.isfinite(q) and np.isfinite(b[i]["q"]):
                m.ev("cell_values")
                m.close(b[i]["q"], q, tag + "value of the visited cell is not its share of evidence plus boost", rtol=1e-6, points=len(ws), n=n0)
                others = [j for j in a if a[j]["ch"] is None and j != i]
                m.ok(all(b[j]["q"] == a[j]["q"] or np.isnan(a[j]["q"]) for j in others), tag + "the value of a cell that was not visited changed")
            # refinement
            split = b[i]["ch"] is not None
            lim = p["target_ess"] * len(ws)
            if np.isfinite(ess) and abs(ess - lim) > 1e-9 * lim or len(ws) < p["n_min"]:
                m.ev("refinement_decisions")
                want = len(ws) >= p["n_min"] and ess < lim
                m.ok(split == want, tag + ("a cell of enough points and low efficiency is not divided" if want else "a cell is divided against its criterion"),
                     points=len(ws), minimum=p["n_min"], ess=ess, limit=lim)
            if split:
                m.ev("divisions")
                l, r = b[i]["ch"]
                h = np.sort(b[l]["r"] / old["r"])
                m.close(h, np.sort(np.where(np.arange(d) == 0, .5, 1.)), tag + "a cell is not halved along one dimension", rtol=1e-9)
                up = np.argmin(old["r"] / a[chain[-1]]["r"]) if chain else 0
                acc["dims"].append((d, int(np.argmin(b[l]["r"] / old["r"])), dict(all=0, number=i % 2, level=len(chain) % 2, parent=int(up), late=int(i > 12))))
                if np.isfinite(b[i]["q"]):
                    m.close([b[l]["q"], b[r]["q"]], [b[i]["q"] / 2] * 2, tag + "the halves of a cell do not share its value", rtol=1e-9)
            m.ok(len(b) - len(a) == 2 * split, tag + "number of cells divided in one iteration", before=len(a), after=len(b))
            if k % 4 == 0:
                hd_density(m, s, S, W, tag, rng)
    return acc


def zscore(path):
    path = [x for x in path if 0 <= x[0] <= 1]
    p, a = np.array([x for x, _ in path]), np.array([float(x) for _, x in path])
    v = np.sum(p * (1 - p)) if len(path) else 0
    return 1. if v < 5 else float(2 * st.norm.sf(abs(np.sum(a - p)) / math.sqrt(v)))


def hidaisee(m, rng, reps, steps, long=False):
    acc = {}

    def data(k):
        if k not in acc:
            acc[k] = hd_session(m, rng, reps * k, steps, dict(all=[], deep=[], deeper=[], place=[], dims=[]), long)
        return acc[k]
    if not data(1)["all"] and not data(1)["place"]:
        return
    for sel in ("all", "deep", "deeper"):
        stats.confirmed(m, lambda k: zscore(data(k)[sel]), "hidaisee: halves are not chosen in proportion to their values")
        for a, b in ((0, .1), (.1, .3), (.3, .5), (.5, .7), (.7, .9), (.9, 1.)):
            stats.confirmed(m, lambda k: zscore([x for x in data(k)[sel] if a < x[0] <= b]), "hidaisee: halves of relative value in (%g, %g] are not chosen in proportion" % (a, b))
    stats.confirmed(m, lambda k: stats.ks(data(k)["place"], "uniform") if data(k)["place"] else 1., "hidaisee: points are not uniform in their cell")
    for d in (2, 3):
        for key in ("all", "number", "level", "parent", "late"):
            for v in range(d if key == "parent" else 2 if key != "all" else 1):
                def pv(k):
                    c = np.bincount([j for e, j, g in data(k)["dims"] if e == d and g[key] == v], minlength=d)
                    return stats.chi2(c, np.ones(d)) if c.sum() > 15 * d else 1.
                stats.confirmed(m, pv, "hidaisee: the dimension along which a cell is halved is not chosen evenly", given=(key, v))


# ------------------------------------------------------------------------------------------- tree pyramids
def tp_snap(T_):
    return {n.node_idx: dict(c=np.array(n.center, float), r=float(np.reshape(n.radius, -1)[0]), h=np.array(n.weight_hist, float).reshape(-1),
                             w=float(np.reshape(n.weight, -1)[0]), x=np.array(n.coords_hist, float)) for n in T_.leaves}


def tp_density(m, s, kind, v, rng, tag):
    w = np.array([n["w"] for n in v.values()])
    if not w.sum() > 0 or not np.isfinite(w.sum()):
        return
    d = s.T.ndims
    share = w / w.sum()
    m.ev("cell_masses", len(w))
    if "normal" not in kind:
        X = np.array([n["c"] + n["r"] * rng.uniform(-.9, .9, d) for n in v.values()])
        want = share / np.array([(2 * n["r"]) ** d for n in v.values()])
        m.close(np.array(s.prob(X)).reshape(-1), want, tag + "density of a cell is not its share of the weights", rtol=1e-7, atol=1e-9 * want.max())
        return
    try:
        mix = {np.asarray(q.loc, float).tobytes(): float(a) for q, a in zip(s.model.models, np.asarray(s.model.weights, float))}
    except AttributeError:
        return
    if len(mix) == len(v) and all(n["c"].tobytes() in mix for n in v.values()):
        m.close([mix[n["c"].tobytes()] for n in v.values()], share, tag + "weight of the kernel of a cell is not its share of the weights", rtol=1e-7, atol=1e-12)


def tp_returned(m, S, W, v, ess, tag):
    """The returned set is every point the cells hold (of positive weight), each with its share of the weight of its cell."""
    if ess is None or ess > 1:
        X, w = np.array([n["x"][-1] for n in v.values()]), np.array([n["w"] for n in v.values()])
    else:
        X, w = np.concatenate([n["x"] for n in v.values()]), np.concatenate([n["h"] / len(n["h"]) for n in v.values()])
        X, w = X[w > 0], w[w > 0]
    m.ev("returned_sets")
    if not m.eq(len(S), len(w), tag + "returned points are not the points the cells hold") or not w.sum() > 0 or not np.isfinite(w.sum()) or not W.sum() > 0:
        return
    a, b = np.lexsort(S.T), np.lexsort(X.T)
    m.ok(np.array_equal(S[a], X[b]), tag + "returned points are not those the cells hold")
    m.close(W[a] / W.sum(), w[b] / w.sum(), tag + "weights of the returned points are not those of their cells", rtol=1e-7, atol=1e-300)


def pyramid(m, rng, kind, reps, steps, coarse=False):
    tag = kind + ": "
    for _ in range(reps):
        s, p, t, lo, hi, lab = SM.scenario(rng, kind, dims=(1, 1, 2, 3), targets=("gauss", "gmm", "half", "ridge", "corner", "laplace"),
                                           c=(1., 1e-6, 1e6), **(dict(n_min=int(rng.choice([20, 45, 80]))) if coarse else {}))
        p["parallel_samples"] = int(rng.choice([1, 2, 5, 16, 51, 64, 77]))
        s = SM.make(kind, lo, hi, p)
        if not hasattr(s, "T") or not hasattr(s.T, "leaves"):
            m.ev("internals_unavailable")
            return
        d, P, ess = len(lo), p["parallel_samples"], p["ess_target"]
        m.trial(*lab, str(p))
        S, W, _ = SM.request(s, t, 1 if not coarse else int(rng.integers(10, 120)))
        for k in range(steps):
            if rng.random() < .05:
                SM.request(s, t, len(S) + int(rng.integers(2, 60)), limit=300)
            elif rng.random() < .03:
                s.reset()
                SM.request(s, t, 1)
                m.ev("resets")
            try:
                a = tp_snap(s.T)
            except (AttributeError, TypeError):
                m.ev("internals_unavailable")
                return
            n0 = len(s._get_samples()[0]) if hasattr(s, "_get_samples") else len(S)
            S, W, _ = SM.request(s, t, n0 + 1, limit=1)
            S, W = np.array(S, float), np.array(W, float).reshape(-1)
            b = tp_snap(s.T)
            m.ev("iterations")
            m.state(*lab, len(a), P)
            E = [i for i in a if i not in b]
            touched = list(E)
            again = [i for i in a if i in b and len(b[i]["h"]) > len(a[i]["h"])]
            touched += again
            rest = [i for i in a if i not in touched]
            if ess is None:
                m.ok(not again, tag + "a cell gets another point although all cells are to be divided", again=len(again))
            for i in E + again:
                h = a[i]["h"]
                if ess is None:
                    continue
                with np.errstate(all="ignore"):
                    e = h.sum() ** 2 / np.sum(h * h)
                lim = ess * len(h)
                if len(h) >= p["n_min"] and not (np.isfinite(e) and abs(e - lim) > 1e-9 * lim):
                    continue
                want = len(h) >= p["n_min"] and e < lim
                m.ev("refinement_decisions")
                m.ok((i in E) == want, tag + ("a cell of enough points and low efficiency is not divided" if want else "a cell is divided against its criterion"),
                     points=len(h), minimum=p["n_min"], ess=e, limit=lim)
            # the cells of largest importance volume first
            vol = {i: (n["w"] if kind.endswith("leaf") else np.mean(n["h"])) * n["r"] ** d for i, n in a.items()}
            if rest and touched:
                m.ev("orders")
                x, y = min(vol[i] for i in touched), max(vol[i] for i in rest)
                m.ok(x >= y * (1 - 1e-9), tag + "a cell is refined before one of larger importance volume", refined=x, left=y)
            new = len(E) * 2 ** d + len(again)
            if rest:
                m.ok(new > P, tag + "fewer points than parallel sampling units although cells are left", points=new, units=P)
            m.ok((len(E) - 1) * 2 ** d <= P or not E, tag + "more cells divided than the sampling units require", divided=len(E), units=P)
            m.ok(len(E) > 0 or not rest, tag + "an iteration does not divide the cells it should")
            m.eq(len(b), len(a) + len(E) * (2 ** d - 1), tag + "number of cells after an iteration")
            m.ev("divisions", len(E))
            # the children of a divided cell, each sampled once
            fresh = [i for i in b if i not in a]
            m.ok(all(len(b[i]["h"]) == 1 for i in fresh), tag + "a new cell is not sampled exactly once")
            for i in again:
                m.eq(len(b[i]["h"]), len(a[i]["h"]) + 1, tag + "points of a cell that was not divided")
            # weights: latest points
            for i in (fresh + again)[:20]:
                m.close(b[i]["h"][-1], b[i]["w"], tag + "weight of a cell is not that of its latest point", rtol=1e-9)
                if "normal" not in kind:
                    x = b[i]["x"][-1]
                    m.close(b[i]["w"], math.exp(float(t.lp(x)[0])) * (2 * b[i]["r"]) ** d, tag + "weight of the latest point of a cell", rtol=1e-7)
            tp_density(m, s, kind, b, rng, tag)
            tp_returned(m, S, W, b, ess, tag)
            if len(b) > 400:
                break


def cases(tier):
    k = 1 if tier == "quick" else 12
    out = [("hidaisee-%d" % b, hidaisee, dict(reps=8 * k, steps=200)) for b in range(4)]
    out += [("hidaisee-long-%d" % b, hidaisee, dict(reps=2 * k, steps=150, long=True)) for b in range(4)]
    out += [("hidaisee-coarse-%d" % b, hidaisee, dict(reps=10 * k, steps=60, long="coarse")) for b in range(3)]
    out += [("coarse-%s" % s, pyramid, dict(kind=s, reps=5 * k, steps=25, coarse=True)) for s in SM.TP if "ess" in s]
    return out + [("%s-%d" % (s, b), pyramid, dict(kind=s, reps=8 * k, steps=25)) for b in range(2) for s in SM.TP]
