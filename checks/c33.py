import random

from hypothesis import strategies as st

import aalpy.paths  # noqa
from aalpy.learning_algs.stochastic.DifferenceChecker import HoeffdingChecker, AdvancedHoeffdingChecker, ChiSquareChecker, chi2_table
from aalpy.learning_algs.stochastic_passive.CompatibilityChecker import HoeffdingCompatibility
from aalpy.learning_algs.stochastic_passive.FPTA import create_fpta
from aalpy.learning_algs.general_passive.GsmNode import GsmNode, TransitionInfo
from aalpy.learning_algs.general_passive.ScoreFunctionsGSM import hoeffding_compatibility

from vf import stats
from vf.core import Sub, expect, Violation
from vf.gen import ints

PROPERTY = 'C33'
RULE = ('pairs of frequency tables with 0-20 outputs and counts from 1 to 10^6, equal, overlapping and disjoint supports; one table is then shifted to the two neighbouring tables between which the reference verdict '
        'flips and both are tested; every test, orientation and entry order; non-trivial: both verdicts occurred')
ASSUMPTIONS = ['counts in frequency tables are positive', 'verdicts closer than 1e-9 to the threshold are not compared', 'chi-squared: at most 20 degrees of freedom', 'outputs of Markov chain data are not tuples']

ALPHAS = [0.001, 0.01, 0.05, 0.3, 1.0, 1.9]
OUT = ['a', 'b', '', 0, 1.5, ('t', 1), None, 'crash', True and 'y', -3] + [f'o{i}' for i in range(12)]


@st.composite
def count(draw):
    return draw(st.sampled_from([1, 2, 3, 4, 5, 6, 10, 30])) if draw(st.booleans()) else draw(ints(1, draw(st.sampled_from([20, 300, 10000, 10**6]))))


@st.composite
def tables(draw, max_keys=6, max_count=None):
    big = draw(ints(0, 9)) == 0
    n = draw(ints(0, 20 if big else max_keys))
    ks = draw(st.permutations(range(21)))[:max(n, 1)]
    mode = draw(st.sampled_from(['same', 'same', 'overlap', 'disjoint', 'empty', 'prop']))
    a = {k: draw(count()) for k in ks[:n]}
    if mode == 'same':
        b = {k: draw(count()) for k in ks[:n]}
    elif mode == 'overlap':
        b = {k: draw(count()) for k in ks[:n] if draw(st.booleans())}
        for k in draw(st.lists(ints(0, 20), max_size=2)):
            b[k] = draw(count())
    elif mode == 'disjoint':
        b = {k: draw(count()) for k in range(21) if k not in a and draw(ints(0, 9)) == 0}
    elif mode == 'empty':
        b = {}
    else:
        f = draw(ints(1, 50))
        b = {k: f * v for k, v in a.items()}
    return {'a': [[k, v] for k, v in a.items()], 'b': [[k, v] for k, v in b.items()], 'mode': mode, 'shift': [draw(ints(0, 5)), draw(ints(0, 5))], 'alpha': draw(st.sampled_from(ALPHAS)), 'seed': draw(ints(0, 99))}


def decode(t):
    return {OUT[k]: v for k, v in t}


def tests(alpha):
    """(name, verdict of the code, reference verdict)"""
    r = [
        ('HoeffdingChecker', lambda a, b: HoeffdingChecker(alpha).are_cells_different(a, b), lambda a, b: stats.hoeffding(a, b, alpha, same_support=True) if a and b else False),
        ('AdvancedHoeffdingChecker', lambda a, b: AdvancedHoeffdingChecker(alpha).are_cells_different(a, b), lambda a, b: stats.hoeffding(a, b, alpha)),
        ('HoeffdingCompatibility', lambda a, b: HoeffdingCompatibility(alpha).hoeffding_bound(a, b), lambda a, b: stats.hoeffding(a, b, alpha)),
        ('hoeffding_compatibility', lambda a, b: not hoeffding_compatibility(alpha)(node({'i': a}), node({'i': b})), lambda a, b: stats.hoeffding(a, b, alpha)),
    ]
    for al in (0.05, 0.01, 0.001):
        r.append((f'ChiSquareChecker({al})', lambda a, b, al=al: ChiSquareChecker(alpha=al).are_cells_different(a, b), lambda a, b, al=al: stats.chi_squared(a, b, al)))
    return r


def node(tab, original=True):
    n = GsmNode((None, None), None)
    for i, row in tab.items():
        for o, c in row.items():
            n.transitions[i][o] = TransitionInfo(None, 0, None, c) if original else TransitionInfo(None, c, None, 0)
    return n


def check(c):
    a, b = decode(c['a']), decode(c['b'])
    if len(set(a) | set(b)) > 21:
        return False, ['too many outputs']
    rng = random.Random(c['seed'])
    seen = set()
    for name, impl, ref in tests(c['alpha']):
        def compare(x, y):
            want = ref(x, y)
            kx, ky = dict(x), dict(y)
            got = bool(impl(x, y))
            expect(x == kx and y == ky, f'{name}: the tables were modified')
            back = bool(impl(y, x))
            p = list(x)
            rng.shuffle(p)
            q = list(y)
            rng.shuffle(q)
            perm = bool(impl({k: x[k] for k in p}, {k: y[k] for k in q}))
            if want is None:
                return None
            expect(got == want, f'{name}: verdict differs from the formula', a=x, b=y, got=got, alpha=c['alpha'])
            expect(back == got, f'{name}: the verdict depends on the order of the tables', a=x, b=y, verdict=got)
            expect(perm == got, f'{name}: the verdict depends on the order of entries', a=x, b=y, verdict=got)
            seen.add(got)
            return want

        compare(a, b)
        expect(not impl(a, {}) and not impl({}, b) and not impl({}, {}), f'{name}: unobserved cells are separated')
        for f in (1, 2, 7, 1000):
            expect(not impl(a, {k: f * v for k, v in a.items()}), f'{name}: proportional tables are separated', a=a, factor=f)
        # neighbouring tables between which the verdict flips
        if len(b) > 1 and a:
            ks = sorted(b, key=repr)
            x, y = ks[c['shift'][0] % len(ks)], ks[c['shift'][1] % len(ks)]
            if x == y:
                x = ks[(ks.index(y) + 1) % len(ks)]

            def moved(m):
                r = dict(b)
                r[x] += m
                r[y] -= m
                return r

            lo, hi = 0, b[y] - 1
            vl, vh = ref(a, moved(lo)), ref(a, moved(hi))
            if vl is not None and vh is not None and vl != vh:
                while hi - lo > 1:
                    mid = (lo + hi) // 2
                    v = ref(a, moved(mid))
                    if v is None:
                        break
                    if v == vl:
                        lo = mid
                    else:
                        hi = mid
                compare(a, moved(lo))
                compare(a, moved(hi))
    return seen == {True, False}, [c['mode']]


def check_value(c):
    """values used to rank candidates: symmetric, the statistic itself"""
    a, b = decode(c['a']), decode(c['b'])
    if len(set(a) | set(b)) > 20:
        return False, ['too many outputs']
    H = AdvancedHoeffdingChecker(c['alpha'], use_diff=True)
    expect(H.use_diff_value()  and AdvancedHoeffdingChecker(c['alpha']).use_diff_value() == False and HoeffdingChecker(c['alpha']).use_diff_value() == False, 'wrong use_diff_value')
    expect(ChiSquareChecker(use_diff_value=True).use_diff_value()  and ChiSquareChecker().use_diff_value() == False, 'wrong use_diff_value')
    close = lambda x, y: abs(x - y) <= 1e-9 * max(1, abs(x), abs(y))
    v, w = H.difference_value(a, b), H.difference_value(b, a)
    expect(close(v, w), 'difference value depends on the order of the tables', a=a, b=b)
    if a and b:
        na, nb = sum(a.values()), sum(b.values())
        d = sum(abs(a.get(k, 0) / na - b.get(k, 0) / nb) for k in set(a) | set(b))
        expect(close(v, d), 'difference value is not the distance of the distributions', a=a, b=b, got=v, expected=d)
    elif not a and not b:
        expect(v == 0, 'difference of two unobserved cells', got=v)
    for al in (0.05, 0.01, 0.001):
        C = ChiSquareChecker(alpha=al)
        v, w = C.difference_value(a, b), C.difference_value(b, a)
        expect(close(v, w), 'chi-squared value depends on the order of the tables', a=a, b=b)
        if a and b:
            d = stats.chi2_stat(a, b) if len(set(a) | set(b)) > 1 else 0
            expect(close(v, d), 'chi-squared value is not the statistic', a=a, b=b, got=v, expected=d)
    return bool(a and b), [c['mode']]


def check_table(c):
    """critical values; too many outputs are refused, other significance levels too"""
    al = c['alpha']
    from scipy.stats import chi2
    for dof, v in chi2_table[1 - al].items():
        expect(abs(v - chi2.isf(al, dof)) < 1e-6, 'critical value of the chi-squared distribution is wrong', alpha=al, dof=dof, got=v)
    expect(set(range(1, 21)) <= set(chi2_table[1 - al]), 'critical values are missing', alpha=al)
    try:
        ChiSquareChecker(alpha=c['bad'])
    except ValueError:
        pass
    else:
        raise Violation('an unsupported significance level is accepted', alpha=c['bad'])
    n = c['n']
    a = {i: 1 + i % 3 for i in range(n)}
    b = {i: 2 + i % 2 for i in range(n)}
    try:
        got = ChiSquareChecker(alpha=al).are_cells_different(a, b)
    except ValueError:
        expect(n > 21, 'a table with few outputs was refused', outputs=n)
    else:
        expect(got in (True, False), 'malformed verdict')
        w = stats.chi_squared(a, b, al)
        expect(w is None or got == w, 'verdict differs from the formula', outputs=n)
    return n > 2, []


@st.composite
def table_cases(draw):
    return {'alpha': draw(st.sampled_from([0.05, 0.01, 0.001])), 'bad': draw(st.sampled_from([0.1, 0.5, 0.02, 0.0005, 0.9])), 'n': draw(ints(2, 26))}


# ------------------------------------------------------------------ states: several inputs

@st.composite
def rows(draw, small):
    cnt = ints(1, 12) if draw(st.booleans()) or small else ints(1, 400)
    r = []
    for _ in range(2):
        row = []
        for i in range(draw(ints(0, 3))):
            cells = {draw(ints(0, 4)): draw(cnt) for _ in range(draw(ints(1, 3)))}
            row.append([i if draw(ints(0, 4)) else 3, [[k, v] for k, v in cells.items()]])
        r.append(row)
    return r


@st.composite
def state_cases(draw):
    return {'rows': draw(rows(False)), 'eps': draw(st.sampled_from([0.001, 0.05, 0.5, 1.5, 1.99])), 'shuffle': draw(ints(0, 99)), 't': draw(st.sampled_from(['mdp', 'smm', 'mc'])), 'orig': draw(st.booleans())}


def check_states(c):
    """a pair of states differs iff for some common input the distributions of outputs differ"""
    eps = c['eps']
    A, B = [{('in', i): {f'o{k}': v for k, v in cells} for i, cells in r} for r in c['rows']]
    rng = random.Random(c['shuffle'])
    vs = [stats.hoeffding(A[i], B[i], eps) for i in A if i in B]
    want = True if any(vs) else None if any(v is None for v in vs) else False
    # generic state merging
    f = hoeffding_compatibility(eps, compare_original=c['orig'])
    x, y = node(A, c['orig']), node(B, c['orig'])
    for got, what in ((not f(x, y), ''), (not f(y, x), ' (swapped)')):
        expect(want is None or got == want, 'generic state merging: wrong verdict for two states' + what, a=A, b=B, eps=eps, got=got)
    # counts of the kind that is not compared do not matter
    g = hoeffding_compatibility(eps, compare_original=not c['orig'])
    expect(g(x, y), 'states without observations are separated', a=A, b=B)
    # Alergia prefix trees
    t = c['t']
    if t == 'mc':
        A1, B1 = (next(iter(r.values()), {}) for r in (A, B))
        want = stats.hoeffding(A1, B1, eps)
        data = [['s', p, o] for p, r in (('a', A1), ('b', B1)) for o, n in r.items() for _ in range(n)] + [['s', 'a'], ['s', 'b']]
        ka, kb = 'a', 'b'
    else:
        ka, kb = ('x', 'a'), ('x', 'b')
        data = [[p, (i, o)] for p, r in ((ka, A), (kb, B)) for i, row in r.items() for o, n in row.items() for _ in range(n)] + [[ka], [kb]]
        if t == 'mdp':
            data = [['init'] + d for d in data]
    rng.shuffle(data)
    root = create_fpta(data, t)
    na, nb = root.children[ka], root.children[kb]
    H = HoeffdingCompatibility(eps)
    for got, what in ((H.are_states_different(na, nb), ''), (H.are_states_different(nb, na), ' (swapped)')):
        expect(want is None or got == want, 'Alergia: wrong verdict for two states' + what, a=A, b=B, eps=eps, got=got)
    return len(vs) > 0, [t, f'common_{len(vs)}', str(want)]


SUBS = [
    Sub('tables', tables(), check, 6000),
    Sub('values', tables(), check_value, 4000),
    Sub('critical', table_cases(), check_table, 300),
    Sub('states', state_cases(), check_states, 4000),
]
