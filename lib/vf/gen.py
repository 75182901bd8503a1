"""Hypothesis strategies for JSON-able cases"""
from hypothesis import strategies as st

from vf.ref import SYM_KINDS

ints = st.integers


def _reach_tr(draw, n, k):
    """transition table in which every state is reachable from state 0 (spanning tree first)"""
    tr = [[None] * k for _ in range(n)]
    free = [(0, i) for i in range(k)]
    for s in range(1, n):
        j = draw(ints(0, len(free) - 1))
        p, i = free.pop(j)
        tr[p][i] = s
        free.extend((s, x) for x in range(k))
    for s in range(n):
        for i in range(k):
            if tr[s][i] is None:
                tr[s][i] = draw(ints(0, n - 1))
    return tr


@st.composite
def det(draw, types=('dfa', 'moore', 'mealy'), max_n=7, min_n=1, max_k=3, min_k=1, sks=SYM_KINDS, oks=('str', 'int', 'bool', 'tuple', 'empty', 'mixed', 'text'),
        families=True, max_out=3, random_init=True):
    t = draw(st.sampled_from(list(types)))
    k = draw(ints(min_k, max_k))
    sk = draw(st.sampled_from(list(sks)))
    ok = 'bool' if t == 'dfa' else draw(st.sampled_from(list(oks)))
    fam = draw(st.sampled_from(['random', 'random', 'random', 'skew', 'skew', 'lock', 'mod', 'chain', 'shift'])) if families else 'random'
    n = draw(ints(min_n, max_n))
    m = 2 if (t == 'dfa' or ok == 'bool') else draw(ints(2, max(2, max_out)))

    def outs(f):
        if t == 'mealy':
            return [[f(s, i) for i in range(k)] for s in range(n)]
        return [f(s, 0) for s in range(n)]

    if fam in ('random', 'skew'):
        tr = _reach_tr(draw, n, k)
        if fam == 'random':
            out = outs(lambda s, i: draw(ints(0, m - 1)))
        else:  # almost all outputs equal: long distinguishing sequences
            special = {(draw(ints(0, n - 1)), draw(ints(0, k - 1)) if t == 'mealy' else 0): draw(ints(1, m - 1))
                       for _ in range(draw(ints(1, 2)))}
            out = outs(lambda s, i: special.get((s, i), 0))
    elif fam == 'lock':
        key = [draw(ints(0, k - 1)) for _ in range(n)]
        back = [draw(ints(0, s)) for s in range(n)]
        tr = [[(s + 1) % n if i == key[s] else back[s] for i in range(k)] for s in range(n)]
        out = outs(lambda s, i: (1 if s == n - 1 and (t != 'mealy' or i == key[s]) else 0))
    elif fam == 'mod':
        step = [draw(ints(0, n - 1)) for _ in range(k)]
        step[0] = 1 % n
        tr = [[(s + step[i]) % n for i in range(k)] for s in range(n)]
        acc = draw(ints(0, n - 1))
        out = outs(lambda s, i: 1 if s == acc else 0)
    elif fam == 'chain':
        tr = [[min(s + 1, n - 1) if i == 0 else draw(ints(0, n - 1)) for i in range(k)] for s in range(n)]
        out = outs(lambda s, i: 1 if s == n - 1 else 0)
    else:  # shift register like
        tr = [[(s * k + i) % n for i in range(k)] for s in range(n)]
        out = outs(lambda s, i: draw(ints(0, m - 1)))
    spec = {'t': t, 'n': n, 'k': k, 'tr': tr, 'out': out, 'init': 0, 'sk': sk, 'ok': ok, 'fam': fam}
    if random_init and n > 1 and draw(st.booleans()):
        # rename states so that the initial state is not number 0
        p = draw(st.permutations(range(n)))
        inv = [0] * n
        for i, x in enumerate(p):
            inv[x] = i  # new index of old state x
        spec['tr'] = [[inv[y] for y in tr[p[i]]] for i in range(n)]
        spec['out'] = [out[p[i]] for i in range(n)]
        spec['init'] = inv[0]
    return spec


@st.composite
def det_mix(draw, big=25, big_n=14, big_k=5, wide=0, **kw):
    """mostly small machines, a share of larger ones and of ones with many inputs and outputs"""
    share = draw(ints(0, 99))
    if share >= 100 - wide:
        kk = dict(kw)
        kk.update(max_n=4, min_n=2, min_k=9, max_k=12, max_out=11)
        return draw(det(**kk))
    if share < big:
        kk = dict(kw)
        kk.update(max_n=big_n, max_k=big_k, min_n=min(5, big_n))
        return draw(det(**kk))
    return draw(det(**kw))


@st.composite
def deep(draw, min_n=15, max_n=45):
    """a machine whose only difference to a trivial one lies deep: a long line of states"""
    t = draw(st.sampled_from(['dfa', 'moore', 'mealy']))
    n, k = draw(ints(min_n, max_n)), draw(st.sampled_from([1, 1, 2]))
    back = draw(ints(0, n - 1))
    tr = [[s + 1 if s < n - 1 else back] + [s] * (k - 1) for s in range(n)]
    out = [int(s == n - 1) for s in range(n)]
    if t == 'mealy':
        out = [[o] + [0] * (k - 1) for o in out]
    return {'t': t, 'n': n, 'k': k, 'sk': 'str', 'ok': 'bool' if t == 'dfa' else draw(st.sampled_from(['str', 'int', 'empty'])), 'tr': tr, 'out': out, 'init': 0}


def words(k, max_len=8, min_size=0):
    return st.lists(ints(0, k - 1), min_size=min_size, max_size=max_len)


@st.composite
def lwords(draw, k, max_len=8, min_size=0):
    """words, one in forty of them long"""
    if draw(ints(0, 39)) == 39:
        return draw(st.lists(ints(0, k - 1), min_size=12, max_size=45))
    return draw(words(k, max_len, min_size))
