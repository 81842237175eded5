"""Runs a function in a forked child, so that whatever it leaves in classes and modules is gone afterwards."""
import ctypes
import os
import pickle
import signal
import traceback
from vlib.mon import HangError, StopCase

REPO = os.environ.get("VERIF_REPO", "/repo")


class Recorder:
    """Stands in for the monitor in a child: what it sees is replayed in the parent."""

    def __init__(self, m):
        self.log, self.rearm = [], m.rearm

    def ev(self, k, n=1):
        self.log.append(("ev", k, int(n)))

    def ok(self, cond, what, **w):
        if not bool(cond):
            self.log.append(("bad", what, {k: str(v)[:300] for k, v in w.items()}))
        else:
            self.log.append(("good",))
        return bool(cond)

    def replay(self, m):
        for e in self.log:
            if e[0] == "ev":
                m.ev(e[1], e[2])
            else:
                m.ok(e[0] == "good", e[1] if len(e) > 1 else "", **(e[2] if len(e) > 2 else {}))


def _child(m, f, w):
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass
    rec = Recorder(m)
    rec.rearm()
    try:
        out = ("value", f(rec), rec)
    except BaseException as e:
        frame = None
        for x in traceback.extract_tb(e.__traceback__):
            if os.path.abspath(x.filename).startswith(os.path.abspath(REPO) + os.sep):
                frame = x
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:]
        what = None if frame is None else "code under test %s at %s:%d (%s)" % (
            "does not return" if isinstance(e, HangError) else "raised %s: %s" % (type(e).__name__, str(e)[:120]), frame.filename, frame.lineno, frame.name)
        out = ("error", what, text)
    rec.rearm = None
    data = pickle.dumps(out)
    with os.fdopen(w, "wb") as p:
        p.write(data)


def run(m, f):
    """The result of f(recorder), computed in a child."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            _child(m, f, w)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as p:
        data = p.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("a forked execution ended without a result")
    out = pickle.loads(data)
    if out[0] == "error":
        if out[1] is None:
            raise RuntimeError(out[2])
        m.violations.append({"what": out[1], "witness": {"traceback": out[2]}})
        raise StopCase()
    out[2].replay(m)
    m.rearm()
    return out[1]
