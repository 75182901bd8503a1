"""Reference formulas of the statistical tests, written from the literature (Hoeffding bound, chi-squared test of homogeneity)"""
from math import log, sqrt

from scipy.stats import chi2


def hoeffding_margin(n1, n2, alpha):
    """|p1 - p2| beyond which two empirical frequencies differ"""
    return (sqrt(1 / n1) + sqrt(1 / n2)) * sqrt(0.5 * log(2 / alpha))


def max_gap(a, b):
    n1, n2 = sum(a.values()), sum(b.values())
    return max(abs(a.get(o, 0) / n1 - b.get(o, 0) / n2) for o in set(a) | set(b))


def hoeffding(a, b, alpha, same_support=False, tol=1e-9):
    """True / False / None (too close to the threshold to call)"""
    if same_support and set(a) != set(b):
        return True
    n1, n2 = sum(a.values()), sum(b.values())
    if n1 <= 0 or n2 <= 0:
        return False
    d = max_gap(a, b) - hoeffding_margin(n1, n2, alpha)
    return None if abs(d) < tol else d > 0


def chi2_stat(a, b):
    keys = set(a) | set(b)
    n1, n2 = sum(a.values()), sum(b.values())
    n = n1 + n2
    yates = 0.5 if len(keys) == 2 and any(a.get(k, 0) < 5 or b.get(k, 0) < 5 for k in keys) else 0
    q = 0
    for k in keys:
        c = a.get(k, 0) + b.get(k, 0)
        for obs, m in ((a.get(k, 0), n1), (b.get(k, 0), n2)):
            e = m * c / n
            q += (abs(obs - e) - yates) ** 2 / e
    return q


def chi_squared(a, b, alpha, tol=1e-9):
    if not a or not b:
        return False
    keys = set(a) | set(b)
    if len(keys) == 1:
        return False
    if not set(a) & set(b):
        return hoeffding(a, b, 0.05)
    d = chi2_stat(a, b) - chi2.isf(alpha, len(keys) - 1)
    return None if abs(d) < tol else d >= 0
