import io
import os
import sys
import threading
import time
import numpy as np

RULE = "one monitored execution per history of a reader (one placement of a preemption, or one stress history)"
ASSUMPTIONS = ["a line counts as available when the reading thread asked the stream for the next one", "an empty answer is any false value"]
CPU_LIMIT = 400
WAIT = .004


class Stream:
    """A stream whose lines are released one by one."""

    def __init__(self, mk):
        self.mk = mk
        self.cv = threading.Condition()
        self.released = 0       # lines the thread may take
        self.taken = 0          # lines returned to the thread
        self.confirmed = 0      # lines that are certainly delivered
        self.closed = False

    def readline(self):
        with self.cv:
            self.confirmed = self.taken
            self.cv.notify_all()
            while self.taken >= self.released:
                if self.closed:
                    raise SystemExit
                self.cv.wait()
            i = self.taken
            self.taken += 1
            return self.mk(i)

    def release(self, n, timeout):
        with self.cv:
            self.released += n
            want = self.released
            self.cv.notify_all()
            self.cv.wait_for(lambda: self.confirmed >= want, timeout)
            return self.confirmed >= want

    def close(self):
        with self.cv:
            self.closed = True
            self.cv.notify_all()


def line(i):
    if i % 40 == 17:  # long lines
        return "%d " % i * 1500 + "\n"
    return "line %d\n" % i if i % 5 else ("%d \n" % i)


def bline(i):
    return b"%d\n" % i


def blank(i):
    # visually empty lines are lines as well
    return " " * i + "\n"


class Hist:
    """Judges a history against the queue of lines: c is the next line to be read."""

    def __init__(self, m, mk, stream, log):
        self.m, self.mk, self.s, self.c, self.log = m, mk, stream, 0, log

    def known(self, v, lo, hi):
        for i in range(lo, hi):
            if self.mk(i) == v:
                return i
        return None

    def op(self, r, kind, keep=None):
        before = self.s.confirmed
        v = r.read() if kind == "read" else (r.read_last_and_clear() if keep is None else r.read_last_and_clear(keep_last=keep))
        after = self.s.released
        self.judge(kind, keep, v, before, after)

    def judge(self, kind, keep, v, before, after):
        m = self.m
        m.ev("reads" if kind == "read" else "last_reads")
        self.log.append((kind, keep, str(v), before, after))
        w = dict(history=self.log[-12:], next_line=self.c, available_before=before, released=after)
        if not v:
            m.ev("empty_answers")
            m.ok(before <= self.c, "no line is returned although one is available", **w)
            return
        if kind == "read":
            m.ok(self.c < after and v == self.mk(self.c), "lines do not come out once and in order", got=str(v), expected=str(self.mk(self.c)), **w)
            self.c += 1
            return
        lo = max(self.c, before - 1)
        i = self.known(v, lo, after)
        if i is None:
            back = self.known(v, 0, lo)
            m.fail("the last value is not the newest line available" if back is not None else "the last value is not a line of the stream", got=str(v), line=back, **w)
            return
        m.ok(True, "last")
        self.c = i if keep in (None, True) else i + 1

    def drain(self, r):
        """Everything that is left comes out, in order."""
        n = self.s.released
        while self.c < n:
            c = self.c
            self.op(r, "read")
            if self.c == c:
                return
        v = r.read()
        self.m.ok(not v, "a line comes out twice", got=str(v), history=self.log[-12:])


def scenario(m, fn, limit=60):
    """Runs fn in a thread of its own, to notice calls that block."""
    box = []

    def go():
        try:
            fn()
        except BaseException as e:
            box.append(e)
    t = threading.Thread(target=go, daemon=True)
    t.start()
    t.join(limit)
    if t.is_alive():
        m.fail("reading blocks", seconds=limit)
        return
    if box:
        raise box[0]


def make(stream):
    from ais_benchmarks.utils.misc import CNonBlockingStreamReader
    return CNonBlockingStreamReader(stream)


FILES = ("misc.py", "queue.py", "threading.py")


def tracer(k, action, hit, files):
    """Calls action at the k-th bytecode executed in the traced files."""
    n = [0]

    def tr(frame, event, arg):
        if os.path.basename(frame.f_code.co_filename) not in files:
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        if event == "opcode":
            if n[0] == k:
                hit.append((frame.f_code.co_name, frame.f_lasti))
                action()
            n[0] += 1
        return tr
    return tr, n


def preempt_caller(m, rng, kind, keep, pre, mks):
    """Lines arrive at every bytecode of a call."""
    for mk in mks:
        for burst in (1, 2):
            k, total = 0, 1
            while k < total + 1:
                s = Stream(mk)
                hit, log, cnt = [], [], [0]

                def fn():
                    r = make(s)
                    h = Hist(m, mk, s, log)
                    if pre:
                        m.ok(s.release(pre, 30), "the lines of the stream are not taken")
                    tr, n = tracer(k, lambda: (s.release(burst, WAIT), m.ev("preempted_calls")), hit, FILES)
                    before = s.confirmed
                    sys.settrace(tr)
                    try:
                        v = r.read() if kind == "read" else r.read_last_and_clear(keep_last=keep)
                    finally:
                        sys.settrace(None)
                    after = s.released
                    cnt[0] = n[0]
                    h.judge(kind, keep, v, before, after)
                    s.release(1, 30)
                    for _ in range(int(rng.integers(0, 3))):
                        h.op(r, "read" if rng.random() < .6 else "last", bool(rng.random() < .5))
                    h.drain(r)
                m.trial(kind, keep, pre, burst, k, mk.__name__)
                try:
                    scenario(m, fn)
                finally:
                    s.close()
                m.state(kind, keep, pre, burst, hit[:1])
                m.ev("interleavings")
                total = max(total, cnt[0])
                k += 1


def preempt_thread(m, rng, kind, keep, pre):
    """Calls happen at every bytecode of the delivery of a line."""
    k, total = 0, 1
    while k < total + 1:
        s = Stream(line)
        hit, log, n = [], [], None
        go, done = threading.Event(), threading.Event()
        armed = [False]

        def action():
            go.set()
            done.wait(WAIT)
            m.ev("preempted_deliveries")

        tr, n = tracer(k, action, hit, ("misc.py", "queue.py"))

        def gate(frame, event, arg):
            return tr(frame, event, arg) if armed[0] else (gate_local if os.path.basename(frame.f_code.co_filename) in FILES else None)

        def gate_local(frame, event, arg):
            frame.f_trace_opcodes = True
            if armed[0]:
                tr(frame, event, arg)
            return gate_local

        def fn():
            threading.settrace(gate)
            try:
                r = make(s)
            finally:
                threading.settrace(None)
            h = Hist(m, line, s, log)
            if pre:
                m.ok(s.release(pre, 30), "the lines of the stream are not taken")
            armed[0] = True
            with s.cv:
                s.released += 1
                s.cv.notify_all()
            go.wait(.05)
            h.op(r, kind, keep)
            done.set()
            s.release(1, 30)
            armed[0] = False
            h.op(r, "read" if rng.random() < .6 else "last", bool(rng.random() < .5))
            h.drain(r)
        m.trial("thread", kind, keep, pre, k)
        try:
            scenario(m, fn)
        finally:
            s.close()
        m.state("thread", kind, keep, pre, hit[:1])
        m.ev("interleavings")
        total = max(total, min(n[0], 120))
        k += 1


def stress(m, rng, reps, ops):
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for _ in range(reps):
            mk = [line, bline, blank][int(rng.integers(0, 3))]
            s = Stream(mk)
            log = []
            plan = [(int(rng.choice([1, 1, 2, 3, 8])), float(rng.choice([0, 0, 0, 1e-5, 3e-4]))) for _ in range(ops // 2)]
            pl = float(rng.uniform(.1, .8))
            choice = rng.random((ops, 2))

            def producer():
                for b, pause in plan:
                    with s.cv:
                        s.released += b
                        s.cv.notify_all()
                    if pause:
                        time.sleep(pause)

            def fn():
                r = make(s)
                h = Hist(m, mk, s, log)
                p = threading.Thread(target=producer, daemon=True)
                p.start()
                for a, b in choice:
                    h.op(r, "last" if a < pl else "read", bool(b < .5))
                p.join(30)
                s.release(0, 30)
                h.drain(r)
                m.ev("lines", s.released)
                m.state("stress", mk.__name__, h.c % 97)
            m.trial("stress", plan, pl)
            try:
                scenario(m, fn)
            finally:
                s.close()
    finally:
        sys.setswitchinterval(old)


def burst(m, rng, reps):
    """Many lines that nobody reads for a while."""
    for _ in range(reps):
        mk = [line, bline][int(rng.integers(0, 2))]
        s, log = Stream(mk), []
        n = int(rng.choice([3000, 9000, 25000]))

        def fn():
            r = make(s)
            h = Hist(m, mk, s, log)
            for k in (n // 3, n - n // 3):
                m.ok(s.release(k, 40), "unread lines keep later ones from being taken from the stream", lines=k, taken=s.confirmed)
                for _ in range(int(rng.integers(0, 4))):
                    h.op(r, "read")
                if rng.random() < .5:
                    h.op(r, "last", bool(rng.random() < .5))
            m.ev("lines", n)
            if rng.random() < .6:
                h.op(r, "last", bool(rng.random() < .5))
            h.drain(r)
            m.state("burst", n, mk.__name__)
        m.trial("burst", n, mk.__name__)
        try:
            scenario(m, fn, 150)
        finally:
            s.close()


def two_callers(m, rng, reps):
    """Two threads reading lines share them: every line comes out once, in order for each."""
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for _ in range(reps):
            mk = [line, blank][int(rng.integers(0, 2))]
            s = Stream(mk)
            n = int(rng.choice([50, 300]))
            got = [[], []]
            stop = threading.Event()

            def fn():
                r = make(s)

                def reader(i):
                    while True:
                        last = stop.is_set()
                        v = r.read()
                        if v:
                            got[i].append(v)
                        elif last:
                            return
                ts = [threading.Thread(target=reader, args=(i,), daemon=True) for i in range(2)]
                [t.start() for t in ts]
                for _ in range(n // 10):
                    s.release(10, 30)
                stop.set()
                [t.join(30) for t in ts]
                idx = {mk(i): i for i in range(n)}
                m.ev("reads", sum(map(len, got)))
                a = [[idx.get(v, -1) for v in g] for g in got]
                m.ok(sorted(a[0] + a[1]) == list(range(n // 10 * 10)), "two readers do not share the lines exactly once", counts=[len(x) for x in a], n=n)
                m.ok(all(x == sorted(x) for x in a), "a reader gets lines out of order")
                m.state("two", min(len(a[0]), len(a[1])) // 10)
            m.trial("two", n)
            try:
                scenario(m, fn)
            finally:
                s.close()
    finally:
        sys.setswitchinterval(old)


def idle(m, rng, reps):
    """Reading an empty queue returns at once."""
    from vlib.vclock import real_time
    for i in range(reps):
        s = Stream(line)

        def fn():
            r = make(s)
            for pre in (0, 2):
                if pre:
                    s.release(pre, 30)
                    for _ in range(pre):
                        r.read()
                for what, f in (("read", r.read), ("last", r.read_last_and_clear), ("last", lambda: r.read_last_and_clear(keep_last=True)),
                                ("last", lambda: r.read_last_and_clear(keep_last=False))):
                    best = 1e9
                    for _ in range(60):
                        t0 = time.perf_counter()
                        v = f()
                        best = min(best, time.perf_counter() - t0)
                        m.ev("idle_reads")
                        if v and what == "last":
                            break
                        m.ok(not v, "something is read from an empty queue", got=str(v))
                    m.ok(best < 5e-4, "reading an empty queue waits", seconds=best, kind=what)
        m.trial("idle", i)
        m.state("idle", i)
        try:
            scenario(m, fn)
        finally:
            s.close()


def pipes(m, rng, reps):
    """A real pipe, written in pieces that do not match the lines."""
    hook = threading.excepthook
    threading.excepthook = lambda a: None
    try:
        for _ in range(reps):
            n = int(rng.choice([5, 200]))
            text = "".join(line(i) for i in range(n))
            fd, wfd = os.pipe()
            cuts = sorted(int(x) for x in rng.integers(0, len(text), int(rng.choice([0, 3, 40]))))
            closing = threading.Event()
            keep = []

            class F:
                """Ends the reading thread at the end of the pipe, as the reader itself goes on reading."""

                def __init__(self, f):
                    self.f = f

                def readline(self):
                    l = self.f.readline()
                    if not l:
                        raise SystemExit
                    return l

            def fn():
                src = F(os.fdopen(fd, "r"))
                r = make(src)
                keep.append(src)

                def writer():
                    a = 0
                    for b in cuts + [len(text)]:
                        os.write(wfd, text[a:b].encode())
                        a = b
                    closing.wait(30)
                    os.close(wfd)
                t = threading.Thread(target=writer, daemon=True)
                t.start()
                c, end = 0, time.time() + 30
                while c < n and time.time() < end:
                    v = r.read()
                    m.ev("reads")
                    if v:
                        m.ok(v == line(c), "lines of a pipe do not come out once and in order", got=v, expected=line(c))
                        c += 1
                    else:
                        time.sleep(1e-4)
                m.ok(c == n, "lines of a pipe are lost", got=c, n=n)
                m.ok(not r.read() and not r.read_last_and_clear(), "a line comes out twice")
                closing.set()
                t.join(30)
            m.trial("pipe", n, cuts)
            m.state("pipe", n, len(cuts))
            scenario(m, fn)
            closing.set()
    finally:
        time.sleep(.05)
        threading.excepthook = hook


def cases(tier):
    q = tier == "quick"
    out = []
    for kind, keep in (("read", None), ("last", True), ("last", False)):
        for pre in ((0, 1, 3) if q else (0, 1, 2, 3, 5, 9)):
            out.append(("call-%s-%s-%d" % (kind, keep, pre), preempt_caller, dict(kind=kind, keep=keep, pre=pre, mks=[line, blank] if q else [line, bline, blank])))
        for pre in ((0, 2) if q else (0, 1, 2, 5)):
            out.append(("delivery-%s-%s-%d" % (kind, keep, pre), preempt_thread, dict(kind=kind, keep=keep, pre=pre)))
    k = 1 if q else 20
    out += [("stress-%d" % i, stress, dict(reps=6 * k, ops=400)) for i in range(4)]
    out += [("burst-%d" % i, burst, dict(reps=2 * k)) for i in range(2)]
    out += [("idle", idle, dict(reps=2)), ("two-callers", two_callers, dict(reps=4 * k)), ("pipes", pipes, dict(reps=5 * k))]
    return out
