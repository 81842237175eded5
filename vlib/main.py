"""Runner: executes the cases of one property in parallel, aggregates the monitors, writes evidence and the verdict."""
import os
import sys
import json
import time as _t
import signal
import hashlib
import traceback
import importlib
import multiprocessing as mp

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.path.insert(1, ROOT)
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")

from vlib import vclock  # noqa: before the code under test
from vlib.mon import Monitor, StopCase, HangError  # noqa
import numpy as np  # noqa
import warnings  # noqa

warnings.simplefilter("ignore")
NPROC = int(os.environ.get("VERIF_NPROC", "8"))
_mod = None
_cases = None
_ctx = None


def case_seed(seed, prop, name):
    return int.from_bytes(hashlib.sha256(("%s|%s|%s" % (seed, prop, name)).encode()).digest()[:4], "big")


def _hang(signum, frame):
    raise HangError("call does not return")


def _repo_frame(tb):
    last = None
    for f in traceback.extract_tb(tb):
        if os.path.abspath(f.filename).startswith(os.path.abspath(REPO) + os.sep):
            last = f
    return last


def run_case(i):
    name, fn, kw = _cases[i][:3]
    prop, tier, seed = _ctx
    s = case_seed(seed, prop, name)
    m = Monitor(prop, name, s, tier)
    m.trial(sorted((k, str(v)) for k, v in kw.items()))
    np.random.seed(s)
    rng = np.random.default_rng(s)
    t0 = vclock.real_time()
    limit = getattr(_mod, "CPU_LIMIT", 100)
    signal.signal(signal.SIGPROF, _hang)
    signal.signal(signal.SIGALRM, _hang)

    def arm():
        signal.setitimer(signal.ITIMER_PROF, limit)
        signal.setitimer(signal.ITIMER_REAL, limit * 4)
    arm()
    m.rearm = arm
    try:
        with np.errstate(all="ignore"):
            fn(m, rng, **kw)
    except StopCase:
        pass
    except (Exception, SystemExit, HangError) as e:
        signal.setitimer(signal.ITIMER_PROF, 0)
        f = _repo_frame(e.__traceback__)
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:]
        if f is not None:
            what = "code under test %s at %s:%d (%s)" % (
                "does not return" if isinstance(e, HangError) else "raised %s: %s" % (type(e).__name__, str(e)[:120]),
                f.filename, f.lineno, f.name)
            m.violations.append({"what": what, "witness": {"traceback": text}})
        else:
            m.inconclusive.append("harness error in %s: %s" % (name, text))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        vclock._active = None
    r = m.result()
    r.update(index=i, seed=s, wall=vclock.real_time() - t0)
    return r


def _init():
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    os.environ["OMP_NUM_THREADS"] = "1"


def known_keys(prop):
    keys = {}
    try:
        for line in open(ROOT + "/known_findings.txt"):
            if line.startswith("known: property=%s " % prop):
                key, _, desc = line.split(" key=", 1)[1].strip().partition(" ")
                keys[key] = desc
    except FileNotFoundError:
        pass
    return keys


def main():
    global _mod, _cases, _ctx
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    if tier == "replay":
        replay = json.load(open(sys.argv[3]))
        tier, seed = replay["tier"], replay["verif_seed"]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = _t.time()
    out, err = os.dup(1), os.dup(2)
    _init()  # the code under test prints a lot
    try:
        import ais_benchmarks
        assert os.path.abspath(ais_benchmarks.__file__).startswith(os.path.abspath(REPO) + os.sep)
    except BaseException:
        os.write(err, ("cannot import the code under test:\n" + traceback.format_exc()).encode())
        return 2

    def say(s):
        os.write(out, (s + "\n").encode())
    try:
        _mod = importlib.import_module("checks." + prop)
        _cases = _mod.cases(tier)
    except BaseException:
        tb = traceback.format_exc()
        say(tb[-3000:])
        return 2
    _ctx = (prop, tier, seed)
    names = [c[0] for c in _cases]
    assert len(set(names)) == len(names), "duplicate case names"
    order = list(range(len(_cases)))
    if replay:
        order = [i for i in order if names[i] == replay["case"]]
    deadline = t0 + (getattr(_mod, "BUDGET", 240) if tier == "quick" else getattr(_mod, "BUDGET_THOROUGH", 2400))
    results, stop_at, aborted = [], None, 0
    ctx = mp.get_context("fork")
    pool = ctx.Pool(min(NPROC, len(order)), initializer=_init, maxtasksperchild=getattr(_mod, "TASKS_PER_PROCESS", None))
    it = pool.imap_unordered(run_case, order, chunksize=1)
    try:
        for _ in order:
            lim = min(deadline, stop_at) if stop_at else deadline
            try:
                r = it.next(timeout=max(0.1, lim - _t.time()))
            except mp.TimeoutError:
                aborted = len(order) - len(results)
                break
            results.append(r)
            if r["violations"] and stop_at is None:
                stop_at = _t.time() + 8
    finally:
        pool.terminate()
    results.sort(key=lambda r: r["index"])

    events, states, nontriv, samples, known, inconc = {}, set(), set(), [], {}, []
    for r in results:
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        states |= r["states"]
        nontriv |= r["nontrivial"]
        inconc += r["inconclusive"]
        for k, w in r["known"]:
            known.setdefault(k, (w, r))
    for r in results[:: max(1, len(results) // 6)]:
        samples += r["samples"][:1]
    viol = [(r, v) for r in results for v in r["violations"]]
    kk = known_keys(prop)
    for k, (w, r) in known.items():
        if k not in kk:
            viol.append((r, {"what": "unlisted finding %s: %s" % (k, w), "witness": {}}))
    os.makedirs(ROOT + "/evidence/replay", exist_ok=True)
    lines = []
    for n, (r, v) in enumerate(viol[:10]):
        path = "evidence/replay/%s-%d.json" % (prop, n)
        json.dump({"property": prop, "case": r["case"], "tier": tier, "verif_seed": seed, "case_seed": r["seed"],
                   "what": v["what"], "witness": v["witness"],
                   "replay": "bash run.sh %s replay %s" % (prop, path)}, open(ROOT + "/" + path, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s  # %s: %s" % (prop, path, r["case"], v["what"][:300]))
    checks = sum(r["checks"] for r in results)
    trials = sum(r["trials"] for r in results)
    if not replay:
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": trials, "distinct_nontrivial": len(nontriv), "rule": _mod.RULE,
                           "samples": samples[:6] or ["none"], "oracle_checks": checks, "events": events,
                           "distinct_states": len(states), "cases": len(results), "cases_not_run": aborted,
                           "exhaustive": False},
              "assumptions": getattr(_mod, "ASSUMPTIONS", []) +
              ["explored executions only; deviations below the stated tolerances are not seen"],
              "wall_s": round(_t.time() - t0, 2), "violations": len(viol)}
        tmp = ROOT + "/evidence/.%s.tmp" % prop
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, ROOT + "/evidence/%s.json" % prop)
    for k, (w, r) in known.items():
        if k in kk:
            say("KNOWN-FINDING: property=%s %s (%s)" % (prop, kk[k] or w, k))
    for ln in lines:
        say(ln)
    slow = max(results, key=lambda r: r["wall"]) if results else None
    say("%s %s: %d cases (%d not run), %d executions, %d distinct non-trivial, %d oracle checks, %d states, %.1fs%s" % (
        prop, tier, len(results), aborted, trials, len(nontriv), checks, len(states), _t.time() - t0,
        ", slowest %s %.1fs" % (slow["case"], slow["wall"]) if slow else ""))
    if events:
        say("  observed: " + ", ".join("%s=%d" % kv for kv in sorted(events.items())))
    if viol:
        return 1
    if inconc:
        for x in inconc[:3]:
            say(x)
        return 2
    if checks == 0 or trials == 0:
        say("nothing was observed")
        return 2
    return 0


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
