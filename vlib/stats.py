"""Statistical verdicts with confirmation on independent data."""
import math
import numpy as np
import scipy.stats as st

P = 1e-6


def confirmed(m, pvalue, what, **w):
    """pvalue(k) computes a p-value from fresh data of relative size k. A violation needs two independent rejections; no p-value is a rejection."""
    m.ev("statistical_tests")
    p1 = float(pvalue(1))
    if p1 >= P:
        return m.ok(True, what)
    m.ev("retests")
    p2 = float(pvalue(2))
    return m.ok(p2 >= P, what + " (p=%.1e, retest p=%.1e)" % (p1, p2), **w)


def ks(x, cdf):
    return st.kstest(np.asarray(x, float), cdf).pvalue


def ks2(x, y):
    return st.ks_2samp(x, y).pvalue


def chi2(counts, probs):
    """Goodness of fit; cells with expectation < 10 are pooled."""
    counts, probs = np.asarray(counts, float), np.asarray(probs, float)
    n = counts.sum()
    e = probs / probs.sum() * n
    big = e >= 10
    c, ee = counts[big], e[big]
    rest_c, rest_e = counts[~big].sum(), e[~big].sum()
    if rest_e >= 10:
        c, ee = np.append(c, rest_c), np.append(ee, rest_e)
    elif rest_c > rest_e + 10 * math.sqrt(rest_e + 10):
        return 0.
    if len(c) < 2:
        return 1.
    x2 = np.sum((c - ee) ** 2 / ee)
    return float(st.chi2.sf(x2, len(c) - 1))


def z(est, mean, se, allowance=0.):
    """Two sided p-value of est against mean; deviations below the allowance do not count. Replicated means: t-like."""
    dev = max(abs(est - mean) - allowance, 0.)
    if dev == 0:
        return 1.
    if not se > 0:
        return 0.
    return float(2 * st.norm.sf(dev / se))


def t_mean(values, mean, allowance=0.):
    """p-value that the expectation of the replicated values differs from mean by more than the allowance."""
    v = np.asarray(values, float)
    n = len(v)
    dev = max(abs(v.mean() - mean) - allowance, 0.)
    if dev == 0:
        return 1.
    s = v.std(ddof=1)
    if not s > 0:
        return 0.
    return float(2 * st.t.sf(dev / (s / math.sqrt(n)), n - 1))
