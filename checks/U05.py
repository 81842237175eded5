import contextlib
import io
import os
import shutil
import tempfile
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt

RULE = "one monitored execution per video or per split duration"
ASSUMPTIONS = ["the codec is lossy: decoded frames are compared by their large uniform areas"]
CPU_LIMIT = 400


def picture(fig):
    fig.canvas.draw()
    return np.asarray(fig.canvas.buffer_rgba())[:, :, :3].copy()


def scene(rng, fig, i):
    """Draws something large and coloured, different for every frame."""
    how = int(rng.integers(0, 3))
    if how == 0 or not fig.axes:
        fig.clf()
        ax = fig.add_axes([0, 0, 1, 1])
        ax.axis("off")
    ax = fig.axes[0]
    ax.set_xlim(0, 1)
    ax.set_ylim(0, 1)
    nx, ny = 2, 2
    for a in range(nx):
        for b in range(ny):
            ax.add_patch(plt.Rectangle((a / nx, b / ny), 1 / nx, 1 / ny, color=tuple(rng.uniform(0, 1, 3)), lw=0, antialiased=False))
    if rng.random() < .5:
        ax.plot(rng.uniform(0, 1, 5), rng.uniform(0, 1, 5), "k-", lw=.5)


def blocks(f):
    """Average colours of the inner part of the four areas."""
    h, w = f.shape[:2]
    out = []
    for a in (0, 1):
        for b in (0, 1):
            z = f[int(h * (a / 2 + .12)):int(h * (a / 2 + .38)), int(w * (b / 2 + .12)):int(w * (b / 2 + .38))].astype(float)
            out.append(np.median(z.reshape(-1, 3), axis=0))
    return np.array(out)


def decoded(m, path, want, fps, tag):
    """Every picture in want, in order, and nothing else."""
    import cv2
    n = len(want)
    if not m.ok(os.path.isfile(path) and os.path.getsize(path) > 0, "no video file was written" + tag):
        return
    cap = cv2.VideoCapture(path)
    try:
        size = int(cap.get(cv2.CAP_PROP_FRAME_WIDTH)), int(cap.get(cv2.CAP_PROP_FRAME_HEIGHT))
        H, W = want[0].shape[:2]
        m.eq(size, (W, H), "frame size of the video" + tag)
        m.ok(abs(cap.get(cv2.CAP_PROP_FPS) - fps) < .05, "frame rate of the video" + tag, got=cap.get(cv2.CAP_PROP_FPS), expected=fps)
        got = []
        while len(got) <= n + 5:
            okay, f = cap.read()
            if not okay:
                break
            got.append(cv2.cvtColor(f, cv2.COLOR_BGR2RGB))
    finally:
        cap.release()
    m.ev("frames_decoded", len(got))
    if not m.eq(len(got), n, "number of frames of the video" + tag):
        return
    for i in range(n):
        a, b = blocks(want[i]), blocks(got[i])
        e = np.abs(b - a).max()
        m.ok(e < 40, "a frame of the video does not show the picture that was added" + tag, frame=i, n=n, error=float(e), got=b, expected=a)


def kept(m, v, want, what):
    f = getattr(v, "frames", None)
    if f is None:
        return
    if m.eq(len(f), len(want), "number of frames kept" + what):
        for i, (a, b) in enumerate(zip(f, want)):
            m.ok(np.array_equal(np.asarray(a), b), "a kept frame changed" + what, frame=i, n=len(want))


def videos(m, rng, reps):
    from ais_benchmarks.utils.video_writer import CVideoWriter
    for _ in range(reps):
        w, h = [int(2 * x) for x in rng.integers(40, 260, 2)]
        dpi = int(rng.choice([50, 100]))
        fps = [1, 5, 24, 30, 60, 75, 120, 12.5][int(rng.integers(0, 8))]
        n = int(rng.choice([1, 2, 5, 12, 30]))
        m.trial(w, h, dpi, fps, n)
        m.state(w > h, fps, n)
        d = tempfile.mkdtemp(prefix="verif-video-")
        fig = plt.figure(figsize=(w / dpi, h / dpi), dpi=dpi)
        try:
            path = os.path.join(d, "v.mp4")
            v = CVideoWriter(path, fps=fps, title="t", comment="c") if rng.random() < .5 else CVideoWriter(path, fps)
            want = []
            for i in range(n):
                if i and rng.random() < .1:
                    pass                      # the same picture again is a frame as well
                else:
                    scene(rng, fig, i)
                v.add_frame(fig)
                m.ev("frames_added")
                want.append(picture(fig))
                if hasattr(v, "frames") and m.eq(len(v.frames), i + 1, "number of frames kept"):
                    f = np.asarray(v.frames[-1])
                    m.ok(f.shape == want[-1].shape and np.array_equal(f, want[-1]), "the frame does not have the pixels of the figure", got=f.shape, expected=want[-1].shape)
            # later drawing, also of other figures
            scene(rng, fig, n)
            picture(fig)
            other = plt.figure(figsize=(1, 1))
            picture(other)
            plt.close(other)
            kept(m, v, want, " with later drawing")
            for turn in range(int(rng.choice([1, 2, 2, 3]))):
                if turn:  # recording goes on after the video was saved
                    for i in range(int(rng.choice([0, 1, 4]))):
                        scene(rng, fig, i)
                        v.add_frame(fig)
                        m.ev("frames_added")
                        want.append(picture(fig))
                with contextlib.redirect_stdout(io.StringIO()):
                    v.save()
                m.ev("videos_saved")
                kept(m, v, want, " when the video was saved")
                decoded(m, path, want, fps, " (saved %d times)" % (turn + 1) if turn else "")
        finally:
            plt.close(fig)
            shutil.rmtree(d, ignore_errors=True)


def lengthy(m, rng, reps):
    """Videos of many small frames."""
    from ais_benchmarks.utils.video_writer import CVideoWriter
    for _ in range(reps):
        n = int(rng.integers(500, 800))
        m.trial("lengthy", n)
        m.state("lengthy", n // 50)
        d = tempfile.mkdtemp(prefix="verif-video-")
        fig = plt.figure(figsize=(1, .8), dpi=60)
        try:
            path = os.path.join(d, "v.mp4")
            v, want = CVideoWriter(path, 30), []
            ax = fig.add_axes([0, 0, 1, 1])
            ax.axis("off")
            ax.set_xlim(0, 1), ax.set_ylim(0, 1)
            rects = [ax.add_patch(plt.Rectangle((a / 2, b / 2), .5, .5, lw=0, antialiased=False)) for a in (0, 1) for b in (0, 1)]
            for i in range(n):
                for q in rects:
                    q.set_color(tuple(rng.uniform(0, 1, 3)))
                v.add_frame(fig)
                m.ev("frames_added")
                want.append(picture(fig))
            kept(m, v, want, " of a long video")
            with contextlib.redirect_stdout(io.StringIO()):
                v.save()
            m.ev("videos_saved")
            decoded(m, path, want, 30, " (long video)")
        finally:
            plt.close(fig)
            shutil.rmtree(d, ignore_errors=True)


def sizes(m, rng, reps):
    """Frames follow figures whose content, not size, changes between them; several writers at once do not mix."""
    from ais_benchmarks.utils.video_writer import CVideoWriter
    for _ in range(reps):
        figs, vs, want = [], [], []
        m.trial("many", int(rng.integers(1 << 30)))
        try:
            k = int(rng.choice([2, 3]))
            for i in range(k):
                figs.append(plt.figure(figsize=(rng.uniform(.6, 3), rng.uniform(.6, 3)), dpi=int(rng.choice([50, 77, 100]))))
                vs.append(CVideoWriter("unused-%d.mp4" % i))
                want.append([])
            seq = rng.integers(0, k, 12)
            m.state("many", k, tuple(int(x) for x in seq))
            for i in seq:
                scene(rng, figs[i], 0)
                vs[i].add_frame(figs[i])
                m.ev("frames_added")
                want[i].append(picture(figs[i]))
            for v, w in zip(vs, want):
                m.ok(len(v.frames) == len(w) and all(np.array_equal(np.asarray(a), b) for a, b in zip(v.frames, w)), "frames of several writers are mixed", n=[len(x.frames) for x in vs], expected=[len(x) for x in want])
        finally:
            for f in figs:
                plt.close(f)


def times(m, rng, reps):
    from ais_benchmarks.utils.misc import time_to_hms
    fixed = [0, 0., 1, 59, 59.999, 60, 61, 3599, 3599.5, 3600, 3600., 3601, 3660, 7199.999, 7200, 86399.9, 86400, 360000, 1e7 + .25, np.float64(3725.5), np.int64(3725), 1e-9]
    for i in range(reps):
        if i < len(fixed):
            t = fixed[i]
        else:
            t = [float(rng.uniform(0, 1e5)), int(rng.integers(0, 10 ** 6)), float(10. ** rng.uniform(-6, 8)), int(rng.integers(0, 2000)) * 60, int(rng.integers(0, 300)) * 3600 - 1e-3][int(rng.integers(0, 5))]
            t = abs(t)
        m.trial(float(t))
        m.ev("durations")
        h, mi, s = time_to_hms(t)
        m.state(int(min(h, 100)), int(mi))
        tol = 1e-9 * max(1, float(t))
        m.ok(h == int(h) and mi == int(mi) and h >= 0 and mi >= 0, "hours or minutes are not whole", t=float(t), got=[float(h), float(mi), float(s)])
        m.ok(mi < 60 and -tol <= s < 60 + tol, "minutes or seconds reach 60", t=float(t), got=[float(h), float(mi), float(s)])
        m.ok(abs(h * 3600 + mi * 60 + s - t) <= tol, "the parts do not add up to the duration", t=float(t), got=[float(h), float(mi), float(s)])


def cases(tier):
    k = 1 if tier == "quick" else 12
    return [("videos-%d" % i, videos, dict(reps=4 * k)) for i in range(6)] + [("lengthy-%d" % i, lengthy, dict(reps=k)) for i in range(2)] + [("many", sizes, dict(reps=4 * k)), ("times", times, dict(reps=3000 * k))]
