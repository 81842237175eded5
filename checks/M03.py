import gc
import sys
import time
import numpy as np
from vlib.vclock import VirtualClock

RULE = "one monitored execution per history of start, stop, read and reset marks"
ASSUMPTIONS = ["starts and stops alternate", "the heap probe is replaced by a deterministic one for the exact histories and is real in the heap cases"]


def history(rng, n):
    """A random history: list of (op, amount); starts and stops alternate, anything may come in between."""
    out, on = [], False
    for _ in range(n):
        op = str(rng.choice(["toggle", "toggle", "toggle", "advance", "advance", "read", "reset" if not on else "read"]))
        if op == "toggle":
            op, on = ("post", False) if on else ("pre", True)
        out.append((op, float(rng.choice([0., 1e-6, .01, 1., 3600.])) * float(rng.uniform(0, 2))))
    if on:
        out.append(("post", 0.))
    return out + [("read", 0.)]


def replay(m, met, hist, advance, tag, unit=1., atol=1e-9):
    """Runs the history on the metric and on an accumulator model. advance(x) spends the resource."""
    total = cur = 0.
    on = False
    spent = 0.
    for op, amount in hist:
        kw = dict(p=None, q=None, nsamples=10) if amount > 1 else {}
        if op == "advance":
            advance(amount)
            spent += amount
            if on:
                cur += amount
        elif op == "pre":
            met.pre(**kw)
            on, cur = True, 0.
        elif op == "post":
            met.post(**kw)
            on = False
            total += cur
            m.ev("intervals")
        elif op == "reset":
            met.reset()
            total = 0.
            m.ev("resets")
            m.close(met.compute(**kw), 0., tag + "a reset does not return the value to zero", rtol=0)
        else:
            a, b = met.compute(**kw), met.compute(**kw)
            m.ev("reads")
            m.close(a, total * unit, tag + "the value is not the accumulated amount between the marks", rtol=1e-9, atol=atol * (1 + spent), open=on)
            m.close(b, a, tag + "reading changes the value", rtol=0)
            m.close(met.value, a, tag + "the last value is not kept", rtol=0)


def elapsed(m, rng, reps):
    from ais_benchmarks.metrics.performance import CElapsedTime
    for _ in range(reps):
        tick = float(rng.choice([0., 0., 1e-7, 1e-4, .003]))  # every reading of the clock costs time: a constant overhead
        with VirtualClock(start=float(rng.choice([0., 1., 1e6])), tick=tick) as c:
            met = CElapsedTime()
            m.ok(abs(met.compute()) < 1e-12, "time: value before any interval", got=met.compute())
            for _ in range(6):
                h = history(rng, int(rng.integers(3, 40)))
                m.trial(tick, str(h))
                m.state("time", tick, tuple(o for o, _ in h)[:12])
                replay(m, met, h, c.advance, "time: ")
                met.reset()
            other = CElapsedTime()
            met.pre()
            c.advance(1.)
            other.pre()
            c.advance(2.)
            met.post()
            c.advance(4.)
            other.post()
            m.close(other.compute(), 6., "time: overlapping metrics", atol=3 * tick + 1e-6)
            m.close(met.compute(), 3., "time: overlapping metrics", atol=3 * tick + 1e-6)


class Heap:
    def __init__(self, probe):
        self.size = probe.now()


class Probe:
    size, calls = 0, 0

    @classmethod
    def now(cls):
        cls.calls += 1
        return int(cls.size)

    def heap(self):
        return Heap(Probe)


def memory(m, rng, reps):
    import guppy
    from ais_benchmarks.metrics import performance as P
    old = guppy.hpy, getattr(P, "hpy", None)
    guppy.hpy = Probe
    if old[1] is not None:
        P.hpy = Probe
    try:
        met = P.CMemoryUsage()
        Probe.size = 10 ** 8
        met.pre(), met.post()
        if not Probe.calls:
            m.inconclusive.append("the heap probe is not used: only the real heap is judged")
            return

        for _ in range(reps):
            met = P.CMemoryUsage()
            m.ok(met.compute() == 0, "memory: value before any interval", got=met.compute())
            for _ in range(3):
                h = [(o, float(int(a * 1000)) / 1000) for o, a in history(rng, int(rng.integers(3, 30)))]
                m.trial("memory", str(h))
                m.state("memory", tuple(o for o, _ in h)[:12])
                Probe.size = 10 ** 11
                grow = bool(rng.random() < .7)
                sg = 1 if grow else -1

                def adv(x):
                    Probe.size += sg * int(round(x * 1000))
                replay(m, met, h, adv, "memory: ", unit=sg * 1e-3, atol=1e-12)
                met.reset()
    finally:
        guppy.hpy = old[0]
        if old[1] is not None:
            P.hpy = old[1]


def real_heap(m, rng, reps):
    from ais_benchmarks.metrics.performance import CMemoryUsage
    met = CMemoryUsage()
    keep = []
    for i in range(reps):
        met.reset()
        mb = float(rng.uniform(1, 20))
        k = ["kept", "outside", "released", "garbage", "freed", "two"][i % 6]
        m.trial("real", k, mb)
        m.state(k)
        blk = lambda: bytearray(int(mb * 1e6))
        e = 0.
        if k == "freed":
            x = blk()
        met.pre()
        if k == "kept":
            x = blk()
            e = mb
        elif k == "released":
            x = blk()
            del x
        elif k == "garbage":
            x = [blk()]
            x.append(x)
            del x
        elif k == "freed":
            del x
            e = -mb
        elif k == "two":
            x = blk()
            e = 2 * mb
        met.post()
        if k in ("outside", "two"):
            y = blk()
        if k == "two":
            met.pre()
            z = blk()
            met.post()
            del z
        got = met.compute()
        m.ev("heap_intervals")
        m.ok(abs(got - e) < .35, "memory: accumulated change of the live memory (%s)" % k, got=got, expected=e)
        met.reset()
        m.ok(met.compute() == 0, "memory: a reset does not return the value to zero")
        x = y = None


def real_time(m, rng, reps):
    """Real clock: the value lies between the span inside of the marks and the span around them."""
    from ais_benchmarks.metrics.performance import CElapsedTime
    met = CElapsedTime()
    ov = getattr(met, "overhead", None)
    if ov is None:
        m.inconclusive.append("the overhead estimate is not exposed")
        return
    lo = hi = 0.
    for i in range(reps):
        m.trial("real", i)
        t0 = time.perf_counter()
        met.pre()
        t1 = time.perf_counter()
        time.sleep(float(rng.choice([0., .001, .01])))
        t2 = time.perf_counter()
        met.post()
        t3 = time.perf_counter()
        time.sleep(float(rng.choice([0., .001, .01])))
        lo, hi = lo + t2 - t1 - ov, hi + t3 - t0 - ov
        v = met.compute()
        m.ev("real_intervals")
        m.ok(lo - 1e-6 <= v <= hi + 1e-6, "time: accumulated real time", got=v, at_least=lo, at_most=hi)
        if rng.random() < .1:
            met.reset()
            lo = hi = 0.


def cases(tier):
    k = 1 if tier == "quick" else 12
    return [("elapsed-%d" % b, elapsed, dict(reps=12 * k)) for b in range(3)] + [("memory-%d" % b, memory, dict(reps=25 * k)) for b in range(2)] \
        + [("heap", real_heap, dict(reps=12 * k)), ("real-time", real_time, dict(reps=60 * k))]
