import numpy as np
from vlib import bench as BM
from vlib.vclock import VirtualClock

RULE = "one monitored execution per benchmark run whose rows are compared with those of another run"
ASSUMPTIONS = ["time and memory columns are left out of the comparison", "single process, same libraries"]
CPU_LIMIT = 300


def rows(tmp, T, M, conf, prior, bench=None):
    """Rows of a run started from a given state of the random generator."""
    np.random.seed(prior)
    np.random.uniform(size=prior % 7)
    with VirtualClock(tick=1e-6):
        b, f = BM.run(tmp, T, M, conf, bench=bench)
    return BM.parse(f)[1], b


def strip(rs, ms):
    k = [2 + i for i, x in enumerate([x for x in ms if x != "NESS"]) if x in ("T", "MEM")]
    return [[v for i, v in enumerate(r) if i not in k] for r in rs]


def seeded(m, rng, reps):
    for _ in range(reps):
        T = [BM.target(rng, i, dims=(1, 1, 2)) for i in range(2)]
        names = [str(x) for x in rng.choice(list(BM.METHODS), 3, replace=False)]
        M = [BM.method(k) for k in names]
        ms = [str(x) for x in rng.permutation(["JSD", "KLD", "EVMSE", "T"])[:int(rng.integers(1, 5))]]
        seed, nr = int(rng.integers(0, 1000)), int(rng.choice([1, 2]))
        m.trial(str(T), tuple(names), tuple(ms), seed)
        m.state(tuple(names), tuple(t["type"] for t in T), nr)
        with BM.Tmp() as tmp:
            conf = BM.config(ms, nr, seed, tmp)
            a, bench = rows(tmp, T, M, conf, int(rng.integers(2 ** 31)))
            m.ev("rows", len(a))
            again = [("another random state", rows(tmp, T, M, conf, int(rng.integers(2 ** 31)))[0]),
                     ("a used benchmark object", rows(tmp, T, M, conf, int(rng.integers(2 ** 31)), bench)[0])]
            for what, b in again:
                m.ev("runs_compared")
                if not m.ok(strip(a, ms) == strip(b, ms), "the same benchmark gives other results from " + what,
                            first=next((x for x, y in zip(strip(a, ms), strip(b, ms)) if x != y), None), n=(len(a), len(b)), methods=names):
                    break
            # every pair is seeded on its own
            o = list(rng.permutation(3))
            T2, M2 = ([T[1]], [M[i] for i in o[:2]]) if rng.random() < .5 else (T[::-1], [M[i] for i in o])
            b, _ = rows(tmp, T2, M2, conf, int(rng.integers(2 ** 31)))
            for t in T2:
                for x in M2:
                    pick = lambda R: [z for z in strip(R, ms) if x["name"] in z and t["name"] in z]
                    m.ev("pairs_compared")
                    m.ok(len(pick(b)) > 0 and pick(a) == pick(b), "rows of a pair depend on the other methods or targets of the file", method=x["name"], target=t["type"],
                         first=next((q for q in zip(pick(a), pick(b)) if q[0] != q[1]), None))
            c, _ = rows(tmp, T, M, dict(conf, rseed=seed + 1), 1)
            m.ok(strip(c, ms) != strip(a, ms), "another seed gives the same results")


def unseeded(m, rng, reps):
    for _ in range(reps):
        T = [BM.target(rng, 0, dims=(1, 2))]
        names = [str(x) for x in rng.choice(list(BM.METHODS), 2, replace=False)]
        M = [BM.method(k) for k in names]
        p, q = [int(x) for x in rng.choice(2 ** 31 - 1, 2)]
        m.trial(str(T), tuple(names), p)
        m.state("unseeded", tuple(names))
        with BM.Tmp() as tmp:
            conf = BM.config(["JSD"], 2, -1, tmp)
            a, b, c = rows(tmp, T, M, conf, p)[0], rows(tmp, T, M, conf, p)[0], rows(tmp, T, M, conf, q)[0]
        m.ev("rows", len(a))
        m.ok(a == b, "without a seed, the results are not determined by the random state")
        m.ok(a != c, "with a negative seed the random state is reset")
        # the two repetitions of a pair are different draws
        one = [r for r in a if r[-6] == names[0]]
        h = len(one) // 2
        m.ok(one[:h] != one[h:], "repetitions are copies of each other")


def cases(tier):
    k = 1 if tier == "quick" else 15
    return [("seeded-%d" % b, seeded, dict(reps=2 * k)) for b in range(6)] + [("unseeded-%d" % b, unseeded, dict(reps=3 * k)) for b in range(2)]
