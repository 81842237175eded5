import contextlib
import io
import warnings
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from vlib import samplers as SA, targets as TG, ref as RF
from vlib.mon import fp

RULE = "one monitored execution per history with drawings, or per sequence of visual elements"
ASSUMPTIONS = ["the density of a sampler may be built on first use: it is used once before the first drawing", "drawing to the Agg backend"]
CPU_LIMIT = 600
warnings.filterwarnings("ignore")


def domain(rng, d):
    k = str(rng.choice(["unit", "offset", "aniso", "tiny", "int", "narrow"]))
    w = {"unit": np.ones(d), "offset": np.full(d, .8), "aniso": rng.uniform(.15, 1.2, d), "tiny": np.full(d, 1e-2), "int": np.ones(d), "narrow": np.where(np.arange(d) == 0, .03, .7)}[k]
    lo = {"offset": np.full(d, float(rng.uniform(-20, 20))), "int": np.zeros(d, int)}.get(k, rng.uniform(-.6, -.4, d))
    return lo, (lo + w if k != "int" else np.ones(d, int)), k


def inventory(fig):
    """Everything the figure shows, as a sorted list of descriptions."""
    out = []
    for ax in fig.axes:
        base = set(map(id, [ax.patch, ax.title, ax._left_title, ax._right_title, ax.xaxis, ax.yaxis] + list(ax.spines.values())))
        for a in ax.get_children():
            if id(a) in base:
                continue
            out.append(describe(a))
    return sorted(out)


def describe(a):
    n = type(a).__name__
    r = lambda v: str(np.round(np.asarray(v, float), 9).tolist())
    if n == "Line2D":
        return "%s %s %s %s %s" % (n, r(a.get_xdata()), r(a.get_ydata()), a.get_linestyle(), matplotlib.colors.to_hex(a.get_color(), True))
    if n in ("Text", "Annotation"):
        return "%s %s %s" % (n, a.get_text(), r(a.get_position()))
    if hasattr(a, "get_offsets"):
        o = a.get_offsets()
        return "%s %s %s %s" % (n, r(o), r(a.get_facecolor()), r([p.vertices.sum(0) for p in a.get_paths()]))
    return n


def rngstate():
    s = np.random.get_state()
    return fp(s[1], s[2], s[3], s[4])


def view(s, X):
    """What a user can observe of a sampler."""
    with np.errstate(all="ignore"):
        return dict(samples=np.array(s.samples, float), weights=np.array(s.weights, float), proposals=int(s.num_proposal_samples), targets=int(s.num_target_evals),
                    evals=int(s.num_proposal_evals), prob=np.array(s.prob(X), float).reshape(-1), log_prob=np.array(s.log_prob(X), float).reshape(-1))


def same(m, a, b, what, **w):
    for k in a:
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if not m.ok(x.shape == y.shape and np.array_equal(x, y, equal_nan=True), what, changed=k, got=y, expected=x, **w):
            return False
    return True


@contextlib.contextmanager
def figure():
    fig = plt.figure(figsize=(3, 3), dpi=40)
    try:
        with np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
            yield fig
    finally:
        plt.close("all")


def samplers(m, rng, kind, dims, reps):
    for _ in range(reps):
        d = int(rng.choice(dims))
        lo, hi, dk = domain(rng, d)
        tk = str(rng.choice(["gauss", "gmm", "ridge", "laplace"]))
        t = TG.make(tk, rng, lo, hi)
        p = SA.defaults(kind, lo, hi, rng if rng.random() < .5 else None)
        if kind == "rejection":
            p["scaling"] = float(np.exp(t.lp(rng.uniform(lo, hi, (2000, d))).max())) * float(np.prod(hi - lo)) * 1.4
        seed = int(rng.integers(0, 2 ** 31))
        steps = SA.sizes(kind, p, rng, int(rng.choice([1, 2, 3])), .6)
        if d == 2 and kind in ("dm", "lais", "mpmc"):
            steps = steps[:2]
        draws = rng.random(len(steps)) < .8
        draws[-1] = True
        m.trial(kind, dk, tk, lo, hi, seed, steps)
        m.state(kind, d, dk, len(steps))
        X = rng.uniform(lo, hi, (9, d))
        runs = []
        for twin in (False, True):
            np.random.seed(seed)
            s = SA.make(kind, np.array(lo), np.array(hi), p)
            obs = []
            for j, n in enumerate(steps):
                S, W, _ = SA.request(s, t, n, 400)
                S, W = np.array(S), np.array(W)
                before = view(s, X)
                obs.append(before)
                if draws[j] and not twin:
                    n0, r0 = t.n_evals if hasattr(t, "n_evals") else None, rngstate()
                    for rep in range(1 + int(rng.random() < .3)):
                        with figure() as fig:
                            ax = fig.add_subplot(111)
                            ax.plot([0], [0], "k.")
                            base = inventory(fig)
                            els = s.draw(ax)
                            m.ev("drawings")
                            fig.canvas.draw()
                            drawn = inventory(fig)
                            m.ev("artists", len(drawn))
                            for e in (els or []):
                                e.remove()
                            m.eq(inventory(fig), base, "elements of a drawing remain after those it returned are removed", method=kind, dims=d)
                    m.ok(rngstate() == r0, "drawing changes the random state", method=kind, dims=d)
                    if n0 is not None:
                        m.eq(t.n_evals, n0, "drawing evaluates the target", method=kind)
                    same(m, before, view(s, X), "drawing changes the sampler", method=kind, dims=d, domain=dk)
                np.random.seed(seed + 1 + j)
            np.random.seed(seed + 999)
            with np.errstate(all="ignore"):
                y = np.array(s.sample(5), float)
            obs.append(dict(later=y))
            runs.append(obs)
        for a, b in zip(*runs):
            m.ev("states_compared")
            same(m, b, a, "later results are not those without drawings", method=kind, dims=d, domain=dk)


def distributions(m, rng, kind, dims, reps):
    for _ in range(reps):
        d = int(rng.choice(dims))
        while True:
            q, ref = RF.build(kind, rng, d) if kind not in ("mixture", "gmm") else RF.build_unit("gmm", rng, d) if kind == "gmm" else RF.build(kind, rng, d)
            w = np.asarray(q.support()[1], float) - np.asarray(q.support()[0], float)
            if np.all(np.isfinite(w)) and np.prod(np.maximum(1, w * 1.2 / (.01 if ref.d == 1 else .1))) < 60000:
                break
        m.trial(kind, ref.d, w)
        m.state("dist", kind, ref.d)
        X = ref.draw(rng, 8) if hasattr(ref, "draw") else rng.uniform(-1, 1, (8, ref.d))

        def look():
            np.random.seed(3)
            with np.errstate(all="ignore"):
                v = dict(prob=np.array(q.prob(X), float), log_prob=np.array(q.log_prob(X), float), support=np.array(q.support(), float))
                try:
                    v["sample"] = np.array(q.sample(4), float)
                except NotImplementedError:
                    pass
                return v
        a = look()
        r0 = rngstate()
        with figure() as fig:
            ax = fig.add_subplot(111)
            base = inventory(fig)
            q.draw(ax, label="x" if rng.random() < .5 else None, color="r" if rng.random() < .5 else None)
            m.ev("drawings")
            fig.canvas.draw()
            got = inventory(fig)
            m.ev("artists", len(got))
            if np.all(w > .5):
                m.ok(len(got) > len(base), "nothing is drawn", kind=kind, dims=ref.d)
            if ref.d == 1:
                # the curve shows the density
                for l in ax.get_lines():
                    x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
                    if len(x):
                        with np.errstate(all="ignore"):
                            m.ok(np.allclose(y, np.array(q.prob(x.reshape(-1, 1))).reshape(-1), rtol=1e-7, atol=1e-12, equal_nan=True), "the curve is not the density", kind=kind)
                        m.ev("curve_points", len(x))
        m.ok(rngstate() == r0, "drawing changes the random state", kind=kind)
        same(m, a, look(), "drawing changes the distribution", kind=kind, dims=ref.d)


def derived(m, rng, reps):
    """Derived models: drawn before and between conditions, on their own and as parts of a posterior."""
    from ais_benchmarks.distributions import CMultivariateNormal
    from ais_benchmarks.distributions.derived.CABCDistribution import ABCDistribution
    from ais_benchmarks.distributions.derived.CGenericNoisyFunction import GenericNoisyFunction
    for _ in range(reps):
        def noisy(g, sd, lo, hi, plain):
            sup = [lo, hi] if plain else [[lo], [hi]]
            return GenericNoisyFunction({"noise_model": CMultivariateNormal({"mean": np.zeros(1), "sigma": np.array([[sd ** 2]])}),
                                         "function": g, "dims": 1, "support": np.array(sup) if rng.random() < .5 else sup})
        a, b, sd = float(rng.uniform(.5, 3)), float(rng.uniform(-2, 2)), float(10 ** rng.uniform(-4, -1))
        lo = float(rng.uniform(-3, 1))
        hi = lo + float(rng.uniform(.5, 4))
        plain = bool(rng.random() < .5)
        gen = noisy(lambda x, z=None: a * np.asarray(x, float) + b + (0 if z is None else z), sd, lo, hi, plain)
        c = None
        n = int(rng.choice([2, 7, 30]))
        lab = "x" if rng.random() < .5 else None
        m.trial("noisy", a, b, sd, lo, hi, n)
        m.state("derived", "noisy", n, plain, lab is None)
        for step in range(3):
            if rng.random() < .6:
                c = rng.normal(0, 2, (int(rng.choice([1, 4])), 1))
                gen.condition(c.copy())
            with figure() as fig:
                ax = fig.add_subplot(111)
                gen.draw(ax, n_points=n, label=lab)
                m.ev("drawings")
                fig.canvas.draw()
                curve(m, ax, lo, hi, n, lambda x: a * x + b, sd, "noisy function")
            if c is None:
                try:
                    gen.sample()
                    m.ok(False, "a model never conditioned generates after it was drawn")
                except Exception:
                    m.ev("unconditioned_calls_refused")
            else:
                y = a * c + b + sd * rng.normal(0, 1, c.shape)
                want = -.5 * ((y - a * c - b) / sd) ** 2 - np.log(sd * np.sqrt(2 * np.pi))
                m.close(np.ravel(gen.log_prob(y)), np.ravel(want), "the density of a noisy function is not that of its condition after it was drawn", rtol=1e-7, atol=1e-6)
                m.eq(np.shape(gen.sample()), c.shape, "a noisy function generates for other conditions after it was drawn")
                m.ev("densities_compared", len(c))
        # a posterior, and what it is made of
        sens = noisy(lambda x, z=None: x, sd / 3, lo, hi, plain)
        ll = lambda o, oh, sl: -.5 * np.sum((np.asarray(oh)[:, :len(o)] - o) ** 2, axis=1) / sl ** 2 - np.log(sl)
        prior = CMultivariateNormal({"mean": np.full(1, (lo + hi) / 2), "sigma": np.array([[1.]])})
        q = ABCDistribution({"dims": 1, "support": [lo, hi] if plain else [[lo], [hi]], "prior_d": prior, "sensor_d": sens, "gen_d": gen,
                             "slack": .5, "loglikelihood_f": ll, "likelihood_f": None})
        o = rng.normal(b, 1, 1)
        q.condition(o.copy())
        Z = rng.uniform(lo, hi, (5, 1))
        m.trial("abc", o, Z)
        m.state("derived", "abc", n, plain, lab is None)

        def look():
            np.random.seed(5)
            return dict(prob=np.array(q.prob(Z), float), log_prob=np.array(q.log_prob(Z), float), sample=np.array(q.sample(4), float), prior=np.array(prior.prob(Z), float))
        before = look()
        with figure() as fig:
            ax = fig.add_subplot(111)
            q.draw(ax, n_points=n, label=lab)
            m.ev("drawings")
            fig.canvas.draw()
            curve(m, ax, lo, hi, n, lambda x: a * x + b, sd * 1.06, "posterior")
        same(m, before, look(), "drawing changes the posterior", dims=1)


def curve(m, ax, lo, hi, n, f, sd, what):
    """The curve of the means follows the function: each point is the average of many observations."""
    lines = [l for l in ax.get_lines() if len(l.get_xdata()) == n]
    if not m.ok(len(lines) == 1, "the curve of a %s is not drawn" % what, got=len(lines)):
        return
    x, y = np.ravel(np.asarray(lines[0].get_xdata(), float)), np.ravel(np.asarray(lines[0].get_ydata(), float))
    m.close([x.min(), x.max()], [lo, hi], "the curve of a %s does not cover its support" % what, rtol=1e-9, atol=1e-9)
    m.ok(np.all(np.abs(y - f(x)) <= 8 * sd), "the curve of a %s is not its values" % what, got=y, expected=f(x))
    m.ev("curve_points", n)


def tree_state(T):
    return fp([[np.asarray(n.center, float), np.asarray(n.radius, float), np.asarray(n.weight, float), int(n.level), bool(n.is_leaf())] for n in walk(T.root)], np.asarray(T.weights, float), len(T.leaves))


def walk(n):
    yield n
    for c in (n.children or []):
        if c is not None:
            yield from walk(c)


def partitions(m, rng, reps):
    from ais_benchmarks.utils import plot_utils as PU
    for _ in range(reps):
        d = int(rng.choice([1, 1, 2]))
        lo, hi, dk = np.full(d, -1.), np.full(d, 1.), "unit"
        kind = str(rng.choice(["tp_haar", "tp_haar_leaf", "tp_normal", "tp_ess"]))
        t = TG.make("gauss", rng, lo, hi)
        np.random.seed(int(rng.integers(1 << 30)))
        s = SA.make(kind, lo, hi, SA.defaults(kind, lo, hi))
        SA.request(s, t, int(rng.choice([3, 8, 20])), 300)
        T = s.T
        m.trial("partition", kind, d, len(T.leaves))
        m.state("partition", kind, d, len(T.leaves))
        X = rng.uniform(lo, hi, (9, d))
        before, v, r0 = tree_state(T), view(s, X), rngstate()
        with figure() as fig:
            ax = fig.add_subplot(111)
            T.plot(ax, names=bool(rng.random() < .5))
            m.ev("drawings")
            if d == 1:
                for f in (PU.plot_tpyramid_area, PU.plot_tpyramid_weights):
                    r = f(ax, T, label="x")
                    m.ev("drawings")
                    # one bar for each leaf
                    m.eq(sorted([round(float(p.get_x()), 9), round(float(p.get_width()), 9)] for p in r),
                         sorted([round(float(np.ravel(n.center - n.radius)[0]), 9), round(float(2 * np.ravel(n.radius)[0]), 9)] for n in T.leaves), "bars are not the leaves", drawing=f.__name__)
            else:
                r = s.draw_2d_tree(T, ax)
                m.ev("drawings")
                got = sorted([round(float(z), 7) for z in np.concatenate([c.get_paths()[0].vertices.min(0), c.get_paths()[0].vertices.max(0)])] for c in r)
                want = sorted([round(float(z), 7) for z in np.concatenate([n.center - n.radius, n.center + n.radius])] for n in T.leaves)
                m.eq(got, want, "rectangles are not the leaves")
                if len(T.leaves) < 60:
                    PU.plot_tpyramid_volume(fig.add_subplot(122, projection="3d"), T)
                    m.ev("drawings")
            fig.canvas.draw()
        m.ok(tree_state(T) == before, "drawing changes the partition", method=kind, dims=d)
        m.ok(rngstate() == r0, "drawing changes the random state", method=kind)
        same(m, v, view(s, X), "drawing a partition changes the sampler", method=kind, dims=d)


def visual(rng, i, version):
    from ais_benchmarks.visualization import visuals as V
    k = int(rng.integers(0, 8))
    pos = [float(x) for x in rng.uniform(-1, 1, 3)]
    if k == 0:
        a, b = rng.uniform(-1, 1, 3), rng.uniform(-1, 1, 3)
        a[2] = b[2] = 0
        v = V.CAxis(i, start=a, end=b)
        if rng.random() < .5:
            n = int(rng.integers(0, 4))
            v.ticks, v.ticks_size, v.ticks_lbl = list(rng.uniform(0, 1, n)), [float(rng.choice([0, .01, .2])) for _ in range(n)], ["t%d" % j if rng.random() < .7 else "" for j in range(n)]
        return v
    f = lambda x, a=float(rng.uniform(-2, 2)): a * x + version
    if k == 1:
        return V.CFunction(i, f, [0, 1], resolution=int(rng.choice([2, 5, 1000])))
    if k == 2:
        return V.CProposalDistComponent(i, f, float(rng.uniform(0, 1)), [-1, 1], resolution=7)
    if k == 3:
        return [V.CTargetDist, V.CProposalDist, V.CProbabilityDensityFunction][int(rng.integers(3))](i, f, [0, 2], resolution=9)
    if k == 4:
        return V.CImportanceSample(i, pos, .5)
    if k == 7:
        return V.CPoint(i, np.array(pos), draw_style=str(rng.choice([".", "x", "o"])))
    return [V.CProposedSample, V.CAcceptedSample, V.CRejectedSample][int(rng.integers(3))](i, pos)


def expected(items):
    """Inventory of the visual elements drawn one after the other, each once."""
    from ais_benchmarks.visualization.matplotlib import viz_interface as VI
    with figure() as fig:
        ax = plt.gca()
        for it in items:
            VI.draw_item(it, ax)
        return inventory(fig)


def last_versions(seq):
    order, last = [], {}
    for it in seq:
        if it.id not in last:
            order.append(it.id)
        last[it.id] = it
    return [last[i] for i in order]


def absolute(m, items, inv):
    """Points, functions and axes are where they were asked for."""
    for it in items:
        if it.type == "point":
            o = str(np.round(np.array([it.pos[:2]], float), 9).tolist())
            m.ok(any(x.startswith("PathCollection " + o) for x in inv), "a point is not shown at its position", pos=list(map(float, it.pos)))
        elif it.type == "function":
            o = "Line2D %s %s" % (np.round(it.xs, 9).tolist(), np.round(np.asarray(it.ys, float), 9).tolist())
            m.ok(any(x.startswith(o) for x in inv), "a function is not shown with its values")
        elif it.type == "axis":
            a, b = np.asarray(it.pos, float) + it.start, np.asarray(it.pos, float) + it.end
            o = "Line2D %s %s" % (np.round([a[0], b[0]], 9).tolist(), np.round([a[1], b[1]], 9).tolist())
            m.ok(any(x.startswith(o) for x in inv), "an axis is not shown from its start to its end")
            for t in it.ticks_lbl:
                m.ok(any(x.startswith("Text %s " % t) for x in inv), "the label of a tick is not shown", label=t)


def sequence(rng, n, ids):
    pool = [int(x) for x in rng.integers(-3, 3, ids)] + (["a", "b", 2.5] if rng.random() < .5 else ["1", "a target density", "a target density "])[:int(rng.integers(0, 4))]
    return [visual(rng, pool[int(rng.integers(0, len(pool)))], j) for j in range(n)]


def sequences(m, rng, reps):
    from ais_benchmarks.visualization.matplotlib import viz_interface as VI
    for _ in range(reps):
        seq = sequence(rng, int(rng.choice([1, 2, 5, 12, 30])), int(rng.choice([1, 2, 5])))
        m.trial([(str(s.id), s.type, type(s).__name__) for s in seq], fp([np.asarray(s.pos, float) for s in seq]))
        items = last_versions(seq)
        m.state(tuple((str(s.id), s.type) for s in seq))
        want = expected(items)
        m.ev("elements", len(seq))
        m.ev("replacements", len(seq) - len(items))
        before = fp([[str(s.id), np.asarray(s.pos, float), np.asarray(s.outline_color, float)] + ([s.xs, s.ys] if s.type == "function" else []) for s in seq])
        with figure() as fig:
            plt.gca()
            VI.draw_sequence(seq)
            got = inventory(fig)
            m.ev("artists", len(got))
            m.eq(got, want, "the figure does not show exactly the last version of each element", sequence=[(str(s.id), s.type) for s in seq])
            absolute(m, items, got)
        m.eq(fp([[str(s.id), np.asarray(s.pos, float), np.asarray(s.outline_color, float)] + ([s.xs, s.ys] if s.type == "function" else []) for s in seq]), before, "drawing changes the elements")


def frames(m, rng, reps):
    """Animations: each frame shows the static elements and the elements of the frame only."""
    from ais_benchmarks.visualization.matplotlib import viz_interface as VI
    for _ in range(reps):
        static = sequence(rng, int(rng.choice([0, 1, 3])), 3)
        fr = [sequence(rng, int(rng.choice([0, 1, 4])), 2) for _ in range(int(rng.choice([1, 2, 4])))]
        m.trial("frames", [[(str(s.id), s.type) for s in f] for f in fr], len(static))
        m.state("frames", len(static), tuple(len(f) for f in fr))
        shown = []
        old = plt.pause
        plt.pause = lambda *a, **k: shown.append(inventory(plt.gcf()))
        try:
            with figure() as fig:
                VI.draw_frames(fr, static)
                if not m.ok(len(shown) == len(fr), "number of frames shown", got=len(shown), expected=len(fr)):
                    continue
        finally:
            plt.pause = old
        for i, f in enumerate(fr):
            m.ev("frames")
            m.eq(shown[i], expected(last_versions(static) + last_versions(f)), "a frame does not show exactly its elements", frame=i)


def cases(tier):
    k = 1 if tier == "quick" else 12
    out = []
    for kind in SA.KINDS:
        out.append(("sampler-%s-1d" % kind, samplers, dict(kind=kind, dims=[1], reps=2 * k)))
        out.append(("sampler-%s-2d" % kind, samplers, dict(kind=kind, dims=[2], reps=1 * k)))
    for kind, dims in (("normal", [1, 2]), ("uniform", [1, 2]), ("gmm", [1, 2]), ("mixture", [1, 2]), ("bd_uniform", [1]), ("laplace", [1]), ("banana", [2]), ("maxwell", [1])):
        out.append(("dist-%s" % kind, distributions, dict(kind=kind, dims=dims, reps=3 * k)))
    return out + [("derived", derived, dict(reps=4 * k)), ("partitions", partitions, dict(reps=6 * k)), ("sequences", sequences, dict(reps=40 * k)), ("frames", frames, dict(reps=10 * k))]
