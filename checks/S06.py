import numpy as np
from vlib import samplers as SM
from vlib import targets as T

RULE = "one monitored execution per request; the live tree is examined after every split and every request"
ASSUMPTIONS = ["the tree is read through its documented attributes; a structure without them is checked through its density only",
               "points exactly on cell boundaries belong to either cell"]
KINDS = ["hidaisee"] + SM.TP


def hd_view(T):
    """Uniform view of the hierarchical tree: list of (id, centre, radius, children ids or None, stored points)."""
    out = {}
    for n in T.nodes:
        ch = None if n.left is None else [n.left.idx, n.right.idx]
        out[n.idx] = (np.array(n.center, float), np.array(n.radius, float) * np.ones(T.dims), ch,
                      np.array(n.samples, float).reshape(-1, T.dims) if ch is None and n.samples is not None else np.zeros((0, T.dims)))
    return out, 0, list(T.leaves)


def tp_view(T):
    out = {}
    for n in T.nodes:
        leaf = n.is_leaf()
        ch = None if leaf else [c.node_idx for c in n.children]
        h = getattr(n, "coords_hist", None)
        pts = np.array(h, float).reshape(-1, T.ndims) if leaf and h is not None else np.zeros((0, T.ndims))
        out[n.node_idx] = (np.array(n.center, float), np.array(n.radius, float).reshape(-1) * np.ones(T.ndims), ch, pts)
    return out, T.root.node_idx, [n.node_idx for n in T.leaves]


def structure(m, view, root, leaves, tag, stored=True, box=None):
    m.ev("trees_examined")
    m.state(tag, len(leaves))
    m.ok(len(set(leaves)) == len(leaves), tag + "a leaf is listed twice", leaves=leaves)
    childless = {i for i, (_, _, ch, _) in view.items() if ch is None}
    m.ok(childless == set(leaves), tag + "the list of leaves is not the set of undivided cells",
         missing=sorted(childless - set(leaves))[:5], extra=sorted(set(leaves) - childless)[:5])
    c0, r0 = view[root][:2]
    if box is not None:
        m.close(np.array([c0 - r0, c0 + r0]), box, tag + "root box", rtol=1e-9, atol=1e-12)
    vol = sum(float(np.prod(2 * view[i][1])) for i in leaves)
    m.close(vol, float(np.prod(2 * r0)), tag + "volumes of the cells do not add up to the root box", rtol=1e-9)
    seen = {root}
    for i, (c, r, ch, pts) in view.items():
        m.ev("cells_examined")
        if ch is not None:
            tol = 1e-9 * np.max(r0)
            V = 0.
            for j in ch:
                m.ok(j in view and j not in seen, tag + "a cell has two parents", cell=j)
                seen.add(j)
                cj, rj = view[j][:2]
                V += float(np.prod(2 * rj))
                m.ok(np.all(np.abs(cj - c) + rj <= r + tol), tag + "child cell sticks out of its parent", parent=(c, r), child=(cj, rj))
            m.close(V, float(np.prod(2 * r)), tag + "children do not cover their parent", rtol=1e-9)
            for a in range(len(ch)):
                for b in range(a):
                    (ca, ra), (cb, rb) = view[ch[a]][:2], view[ch[b]][:2]
                    m.ok(np.any(np.abs(ca - cb) >= ra + rb - tol), tag + "sibling cells overlap", a=(ca, ra), b=(cb, rb))
        elif stored and len(pts):
            m.ev("stored_points", len(pts))
            bad = np.any(np.abs(pts - c) > r * (1 + 1e-9) + 1e-12 * np.abs(c), axis=1)
            m.ok(not bad.any(), tag + "a stored point lies outside of its cell", point=pts[np.argmax(bad)], center=c, radius=r)
    m.ok(seen == set(view), tag + "a cell is not connected to the root", lost=sorted(set(view) - seen)[:5])


def hd_values(m, T, tag):
    levels(m, T, T.nodes[0], lambda n: [] if n.left is None else [n.left, n.right], tag)
    for n in T.nodes:
        if n.left is not None:
            a, b = n.q, n.left.q + n.right.q
            if np.isfinite(a) and np.isfinite(b):
                m.ev("inner_values")
                m.ok(abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-300), tag + "value of an inner node is not the sum of its children", node=n.idx, value=a, children=b)
        else:
            k = 0 if n.samples is None else len(n.samples)
            m.ok(n.N == k and np.size(n.weights) == k, tag + "cell counts disagree with its stored points", N=n.N, samples=k, weights=np.size(n.weights))


def levels(m, T, root, kids, tag):
    """The level of every cell is its distance to the root."""
    todo = [(root, 0)]
    while todo:
        n, k = todo.pop()
        if not hasattr(n, "level"):
            return
        m.ev("levels_examined")
        if not m.eq(int(n.level), k, tag + "level of a cell"):
            return
        todo += [(c, k + 1) for c in kids(n)]


def lookup(m, s, kind, view, root, leaves, rng, tag, k=25):
    """Every point of the box is found in the one cell that contains it."""
    c0, r0 = view[root][:2]
    C, R = np.array([view[i][0] for i in leaves]), np.array([view[i][1] for i in leaves])
    pts = c0 + r0 * rng.uniform(-1, 1, (k, len(c0)))
    pts = np.concatenate([pts, (C + R * rng.uniform(-1, 1, C.shape))[rng.permutation(len(C))[:k]]])
    for x in pts:
        d = np.max(np.abs(x - C) / R, axis=1)
        if np.min(np.abs(d - 1)) < 1e-9:
            continue
        ins = np.nonzero(d < 1)[0]
        m.ev("lookups")
        if not m.ok(len(ins) == 1, tag + "a point of the box is in %d cells" % len(ins), x=x):
            return
        if kind != "hidaisee":
            n = s.T.find(x)
            m.ok(n.node_idx == leaves[ins[0]], tag + "lookup finds another cell", x=x, found=n.node_idx, expected=leaves[ins[0]])
    if kind != "hidaisee":
        nodes, freqs = s.find_unique(pts)
        m.ok(len({n.node_idx for n in nodes}) == len(nodes) and sum(freqs) == len(pts), tag + "cell frequencies of a set of points",
             nodes=len(nodes), total=sum(freqs), points=len(pts))
        for n, f in zip(nodes, freqs):
            i = leaves.index(n.node_idx)
            d = np.max(np.abs(pts - C[i]) / R[i], axis=1)
            m.ok((d < 1 - 1e-9).sum() <= f <= (d <= 1 + 1e-9).sum(), tag + "frequency of a cell", got=f, inside=(d < 1).sum())


def tp_cache(m, s, view, leaves, tag):
    """The cached per-cell arrays describe the same cells as the tree."""
    T = s.T
    levels(m, T, T.root, lambda n: [] if n.is_leaf() else n.children, tag)
    try:
        C, R, L = np.array(T.centers, float), np.array(T.radii, float), np.array(T.leaves_idx)
    except AttributeError:
        m.ev("internals_unavailable")
        return
    m.ok(len(C) == len(R) == len(L) == len(view), tag + "cached cell arrays have another number of cells", centers=len(C), radii=len(R), leaves=len(L), nodes=len(view))
    i = np.array(sorted(view))
    m.close(C[i], np.array([view[k][0] for k in i]), tag + "cached centres")
    m.close(R[i].reshape(len(i), -1)[:, 0], np.array([view[k][1][0] for k in i]), tag + "cached radii")
    m.ok(set(np.nonzero(L)[0].tolist()) == set(leaves), tag + "cached leaf flags", flags=np.nonzero(L)[0], leaves=sorted(leaves))
    for n in T.leaves:
        m.ok(T.leaves[n.leaf_idx] is n and T.nodes[n.node_idx] is n, tag + "index of a leaf points elsewhere", node=n.node_idx, leaf=n.leaf_idx)


def run(m, rng, kind, reps, scale=1.):
    tag = kind + ": "
    for _ in range(reps):
        s, p, t, lo, hi, lab = SM.scenario(rng, kind, dims=(1, 2, 2, 3, 4))
        d = len(lo)
        lo_, hi_ = np.asarray(lo, float), np.asarray(hi, float)
        if kind == "hidaisee":
            box, viewer, op = np.array([lo_, hi_]), hd_view, "split"
        else:
            R = np.max((hi_ - lo_) / 2)
            box, viewer, op = np.array([(lo_ + hi_) / 2 - R, (lo_ + hi_) / 2 + R]), tp_view, "expand"
        uniform = "normal" not in kind
        if not hasattr(s, "T"):
            m.ev("internals_unavailable")
            return

        def attach(s):
            tree, orig = type(s.T), getattr(type(s.T), op, None)
            if orig is None:
                return lambda: None

            def wrapped(self, *a, **k):
                r = orig(self, *a, **k)
                if self is s.T and (len(self.nodes) < 60 or rng.random() < .1):
                    m.ev("splits_examined")
                    structure(m, *viewer(self), tag + "after a split: ", uniform and kind == "hidaisee", box)
                return r
            setattr(tree, op, wrapped)
            return lambda: setattr(tree, op, orig)
        detach = attach(s)
        try:
            total = 0
            for n in SM.sizes(kind, p, rng, 4, scale):
                m.trial(*lab, str(p), n)
                if rng.random() < .15:
                    s.reset()
                    m.ev("resets")
                    m.ok(len(s.T.leaves) == 1 and len(s.T.nodes) == 1, tag + "reset does not leave the undivided box")
                lim = 4000 if rng.random() < .8 else int(rng.integers(1, 40))
                S, W, late = SM.request(s, t, n, limit=lim)
                v, root, leaves = viewer(s.T)
                structure(m, v, root, leaves, tag, uniform, box)
                lookup(m, s, kind, v, root, leaves, rng, tag)
                if kind == "hidaisee":
                    hd_values(m, s.T, tag)
                    m.ok(sum(len(x[3]) for x in v.values()) == len(S), tag + "stored points are not the returned ones", stored=sum(len(x[3]) for x in v.values()), returned=len(S))
                else:
                    tp_cache(m, s, v, leaves, tag)
                    if uniform and p["ess_target"] in (None, 2.0):
                        m.eq(len(S), len(leaves), tag + "one point per cell")
                        C = np.array([v[i][0] for i in sorted(leaves)])
                        Rr = np.array([v[i][1] for i in sorted(leaves)])
                        S_ = np.asarray(S, float)
                        m.ok(np.all(np.abs(S_ - C) <= Rr * (1 + 1e-9) + 1e-12 * np.abs(C)), tag + "a returned point lies outside of its cell")
                # the exposed density is constant in every cell and zero outside of the root box
                if uniform and W.sum() > 0:
                    c, r = np.array([v[i][0] for i in leaves]), np.array([v[i][1] for i in leaves])
                    sel = rng.permutation(len(leaves))[:30]
                    a = np.array(s.prob(c[sel] + r[sel] * rng.uniform(-.99, .99, (len(sel), d)))).reshape(-1)
                    b = np.array(s.prob(c[sel] + r[sel] * rng.uniform(-.99, .99, (len(sel), d)))).reshape(-1)
                    m.close(a, b, tag + "exposed density is not constant in a cell", rtol=1e-9)
                    m.ok((np.array(s.prob(box[1] + np.abs(box[1]) + rng.uniform(.1, 9, (3, d)))) == 0).all(), tag + "density outside of the root box")
        finally:
            detach()


def deep(m, rng, kind, reps, n):
    """Narrow targets: many levels of subdivision."""
    tag = kind + ": "
    for _ in range(reps):
        over = dict(target_ess=.9, n_min=int(rng.choice([2, 4])), tau=1e-3) if kind == "hidaisee" else dict(parallel_samples=1, n_min=2)
        s, p, t, lo, hi, lab = SM.scenario(rng, kind, dims=(1, 1, 2), targets=("cusp",), **over)
        d = len(lo)
        lo_, hi_ = np.asarray(lo, float), np.asarray(hi, float)
        if not hasattr(s, "T"):
            m.ev("internals_unavailable")
            return
        R = np.max((hi_ - lo_) / 2)
        box = np.array([lo_, hi_]) if kind == "hidaisee" else np.array([(lo_ + hi_) / 2 - R, (lo_ + hi_) / 2 + R])
        for k in (n // 2, n):
            m.trial("deep", *lab, str(p), k)
            S, W, _ = SM.request(s, t, k, limit=20000)
            v, root, leaves = (hd_view if kind == "hidaisee" else tp_view)(s.T)
            lev = int(round(max(np.log2(np.max(v[root][1] / v[i][1])) for i in leaves)))
            m.ev("levels", lev)
            m.ev("trees_deeper_than_10", lev > 10)
            structure(m, v, root, leaves, tag, "normal" not in kind, box)
            lookup(m, s, kind, v, root, leaves, rng, tag)
            if kind == "hidaisee":
                hd_values(m, s.T, tag)
                m.ok(sum(len(x[3]) for x in v.values()) == len(S), tag + "stored points are not the returned ones", stored=sum(len(x[3]) for x in v.values()), returned=len(S))
            else:
                tp_cache(m, s, v, leaves, tag)


def splits(m, rng, kind, reps):
    """The partition driven directly, by random splits."""
    for _ in range(reps):
        d = int(rng.choice([1, 2, 3, 4]))
        lo, hi, dk = T.domain(rng, d)
        s = SM.make(kind, lo, hi, SM.defaults(kind, lo, hi))
        t = T.make("gauss", rng, lo, hi)
        if not hasattr(s, "T") or not hasattr(s.T, "split" if kind == "hidaisee" else "expand"):
            m.ev("internals_unavailable")
            return
        m.trial("splits", kind, d, dk)
        lo_, hi_ = np.asarray(lo, float), np.asarray(hi, float)
        for k in range(int(rng.integers(2, 25 if d < 3 else 10))):
            if kind == "hidaisee":
                i = int(rng.choice(s.T.leaves))
                n = s.T.nodes[i]
                x = n.center + n.radius * rng.uniform(-1, 1, (int(rng.integers(1, 5)), d))
                for y in x:
                    n.add_sample(y.reshape(1, -1), t.prob(y.reshape(1, -1)) / n.prob(y.reshape(1, -1)))
                s.T.split(i, t)
                v = hd_view(s.T)
                box = np.array([lo_, hi_])
            else:
                s.T.expand(s.T.leaves[int(rng.integers(len(s.T.leaves)))])
                for n in s.T.leaves:  # expand() expects sampled leaves
                    if n.coords_hist is None:
                        n.sample(n.sampler)
                        n.weigh(t, n.sampler)
                v = tp_view(s.T)
                R = np.max((hi_ - lo_) / 2)
                box = np.array([(lo_ + hi_) / 2 - R, (lo_ + hi_) / 2 + R])
                tp_cache(m, s, v[0], v[2], kind + ": ")
            structure(m, *v, kind + ": after a split: ", True, box)
            m.ev("direct_splits")
        lookup(m, s, kind, *v, rng, kind + ": ")


def cases(tier):
    k = 1 if tier == "quick" else 12
    sc = 1. if tier == "quick" else 2.
    return [("%s-%d" % (s, b), run, dict(kind=s, reps=8 * k, scale=sc)) for b in range(2) for s in KINDS] + \
           [("deep-%s" % s, deep, dict(kind=s, reps=2 * k, n=250 if s == "tp_normal_leaf" else 400)) for s in KINDS] + \
           [("splits-%s-%d" % (s, b), splits, dict(kind=s, reps=10 * k)) for b in range(2) for s in ("hidaisee", "tp_haar")]
