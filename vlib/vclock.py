"""Virtual clock. Imported before the code under test: the time functions are replaced by pass-through wrappers that
read a virtual time while a VirtualClock is active."""
import time
import timeit

_real = {n: getattr(time, n) for n in ("time", "perf_counter", "monotonic", "process_time", "thread_time", "sleep",
                                       "time_ns", "perf_counter_ns", "monotonic_ns", "process_time_ns")}
_active = None


class VirtualClock:
    """with VirtualClock() as c: c.advance(1.5). Every read costs `tick` virtual seconds."""

    def __init__(self, start=1000.0, tick=0.0):
        self.now, self.tick, self.reads, self.slept = start, tick, 0, 0.0
        self.on_read = None

    def advance(self, dt):
        self.now += dt

    def read(self):
        self.reads += 1
        self.now += self.tick
        if self.on_read is not None:
            self.on_read(self)
        return self.now

    def __enter__(self):
        global _active
        self.prev, _active = _active, self
        return self

    def __exit__(self, *a):
        global _active
        _active = self.prev


def _mk(name, scale=None):
    real = _real[name]

    def f():
        if _active is None:
            return real()
        t = _active.read()
        return int(t * 1e9) if scale else t
    f.__name__ = name
    return f


def _sleep(dt):
    if _active is None:
        return _real["sleep"](dt)
    _active.now += max(dt, 0)
    _active.slept += dt


for n in ("time", "perf_counter", "monotonic", "process_time", "thread_time"):
    setattr(time, n, _mk(n))
for n in ("time_ns", "perf_counter_ns", "monotonic_ns", "process_time_ns"):
    setattr(time, n, _mk(n, True))
time.sleep = _sleep
timeit.default_timer = time.perf_counter
real_time = _real["time"]
real_sleep = _real["sleep"]
