"""Monitor: counts what was observed, judges it, and keeps witnesses."""
import hashlib
import math
import numpy as np


class StopCase(Exception):
    pass


class HangError(BaseException):
    pass


def jsonable(x, depth=0):
    if depth > 5:
        return str(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:40]}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(x)[:40]]
    if isinstance(x, np.ndarray):
        return {"shape": list(x.shape), "head": jsonable(x.reshape(-1)[:24].tolist(), depth + 1)}
    if isinstance(x, (np.bool_, bool)):
        return bool(x)
    if isinstance(x, (np.integer, int)):
        return int(x)
    if isinstance(x, (np.floating, float)):
        x = float(x)
        return x if math.isfinite(x) else str(x)
    if x is None:
        return None
    return str(x)[:300]


def fp(*xs):
    """Fingerprint of arrays / scalars / nested containers."""
    h = hashlib.sha1()

    def add(x):
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                h.update(b"o")
                for y in x.reshape(-1):
                    add(y)
            else:
                h.update(str(x.shape).encode() + str(x.dtype).encode() + np.ascontiguousarray(x).tobytes())
        elif isinstance(x, (list, tuple)):
            h.update(b"[")
            for y in x:
                add(y)
        elif isinstance(x, dict):
            for k in sorted(x, key=str):
                h.update(str(k).encode())
                add(x[k])
        else:
            h.update(repr(x).encode())
    for x in xs:
        add(x)
    return h.hexdigest()


class Monitor:
    MAXV = 3

    def __init__(self, prop, case, seed, tier):
        self.prop, self.case, self.seed, self.tier = prop, case, seed, tier
        self.events = {}
        self.states = set()
        self.trials = 0
        self.nontrivial = set()
        self._trial_key = None
        self._trial_checks = 0
        self.checks = 0
        self.violations = []
        self.known = []
        self.samples = []
        self.inconclusive = []

    # ---- observations
    def ev(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + int(n)

    def state(self, *key):
        if len(self.states) < 200000:
            self.states.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])

    def trial(self, *key):
        """A new monitored execution starts; key describes it (arrays are fingerprinted)."""
        self._close_trial()
        self.trials += 1
        self.rearm()
        self._trial_key = fp(self.case, *key)[:16]
        if len(self.samples) < 2:
            self.samples.append({"case": self.case, "trial": jsonable(list(key))})

    def rearm(self):
        """Set by the runner: gives the next execution its full processor time before it counts as hanging."""

    def _close_trial(self):
        if self._trial_key is not None and self._trial_checks > 0:
            self.nontrivial.add(self._trial_key)
        self._trial_key, self._trial_checks = None, 0

    # ---- judgements
    def fail(self, what, **witness):
        if len(self.violations) < self.MAXV:
            self.violations.append({"what": what, "witness": jsonable(witness)})
        if len(self.violations) >= self.MAXV:
            raise StopCase()

    def ok(self, cond, what, **witness):
        self.checks += 1
        self._trial_checks += 1
        if not bool(cond):
            self.fail(what, **witness)
            return False
        return True

    def eq(self, a, b, what, **w):
        w.update(got=a, expected=b)
        return self.ok(a == b, what, **w)

    def close(self, a, b, what, rtol=1e-8, atol=1e-300, **w):
        """Elementwise comparison; infinities and NaNs must match exactly."""
        a, b = np.asarray(a, float), np.asarray(b, float)
        self.ev("values_compared", max(a.size, b.size))
        if a.shape != b.shape:
            w.update(got=a, expected=b)
            return self.ok(False, what + " (shape)", **w)
        with np.errstate(all="ignore"):
            good = (a == b) | (np.abs(a - b) <= atol + rtol * np.abs(b)) | (np.isnan(a) & np.isnan(b))
        if good.all():
            return self.ok(True, what)
        i = tuple(np.argwhere(~good)[0])
        w.update(index=list(map(int, i)), got=a[i], expected=b[i], n_bad=int((~good).sum()), n_values=int(good.size))
        self.ok(False, what, **{k: v for k, v in w.items() if k not in ("cond", "what")})
        return False

    def known_finding(self, key, what):
        self.known.append((key, what))

    def result(self):
        self._close_trial()
        return {"events": self.events, "states": self.states, "trials": self.trials, "nontrivial": self.nontrivial,
                "checks": self.checks, "violations": self.violations, "known": self.known,
                "samples": self.samples[:2], "inconclusive": self.inconclusive, "case": self.case}
