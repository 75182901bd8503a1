import random

from hypothesis import strategies as st

from vf import gen
from vf.core import Sub, expect
from vf.gen import ints
from vf.ref import Det, ReadDet, build, first_difference
from vf.table import models, make, table

PROPERTY = 'C14'
RULE = ('random complete DFA / Moore / Mealy machines, restricted to reachable states, with up to 5 duplicated states and random redirection into the copies, state list in any order, '
        'optional preset access words; plus partial machines, which must stay untouched; non-trivial: the machine has at least one pair of equivalent states')
ASSUMPTIONS = ['all states reachable from the initial state']


@st.composite
def cases(draw):
    s = draw(gen.det_mix(max_n=6, max_k=3, big_n=12, big_k=4, wide=5))
    d = Det(s)
    r = d.reachable()
    num = {x: i for i, x in enumerate(r)}
    s = dict(s, n=len(r), tr=[[num[y] for y in s['tr'][x]] for x in r], out=[list(s['out'][x]) if s['t'] == 'mealy' else s['out'][x] for x in r], init=0)
    for _ in range(draw(st.sampled_from([0, 1, 1, 2, 3, 5]))):
        x = draw(ints(0, s['n'] - 1))
        s['tr'].append(list(s['tr'][x]))
        s['out'].append(list(s['out'][x]) if s['t'] == 'mealy' else s['out'][x])
        s['n'] += 1
        into = [(q, i) for q in range(s['n']) for i in range(s['k']) if s['tr'][q][i] == x]
        for q, i in into:
            if draw(st.booleans()):
                s['tr'][q][i] = s['n'] - 1
    r = Det(s).reachable()
    num = {x: i for i, x in enumerate(r)}
    s = dict(s, n=len(r), tr=[[num[y] for y in s['tr'][x]] for x in r], out=[s['out'][x] for x in r], init=0)
    return {'spec': s, 'order': draw(st.permutations(range(len(r)))), 'prefixes': draw(ints(0, 1)), 'via': draw(st.sampled_from(['minimize', 'minimize', 'is_minimal']))}


def check(case):
    spec, t = case['spec'], case['spec']['t']
    d = Det(spec)
    model, states = build(spec, order=case['order'])
    size = d.min_size()
    already = size == d.n
    before = table(model, t)
    if case['prefixes']:
        model.compute_prefixes()
    ans = model.is_minimal()
    expect(ans is already, f'is_minimal answers {ans!r}', states=d.n, minimal=size)
    expect(table(model, t) == before, 'is_minimal changed the machine')
    model.minimize()
    expect(any(s is model.initial_state for s in model.states), 'the initial state was removed from the states')
    m = ReadDet(model, t, d.al)
    diff = first_difference(d, m)
    expect(diff is None, 'minimisation changed the behaviour', word=diff)
    expect(len(model.states) == size, f'{len(model.states)} states instead of {size}')
    expect(len({id(s) for s in model.states}) == size, 'a state is listed twice')
    expect(m.n == size and m.min_size() == size, 'equivalent states remain', reachable=m.n, minimal=m.min_size())
    ids = {id(s) for s in model.states}
    for s in model.states:
        expect(all(id(x) in ids for x in s.transitions.values()), 'a transition leads to a removed state')
        expect(s.prefix is not None, 'a state has no access word')
        x = model.initial_state
        for a in s.prefix:
            x = x.transitions[a]
        expect(x is s, 'the access word of a state leads elsewhere', prefix=s.prefix)
    expect(model.is_minimal() is True, 'the minimised machine is not reported minimal')
    if already:
        expect(table(model, t) == before, 'a minimal machine was changed')
    tab = table(model, t)
    model.minimize()
    expect(table(model, t) == tab, 'minimising twice changes the machine again')
    return not already, [t, spec['fam'], f'n_{min(d.n, 12)}', f'merged_{d.n - size}']


@st.composite
def partial_cases(draw):
    m = draw(models(('dfa', 'moore', 'mealy'), sks=('str', 'int'), oks=('str',)))
    s = m['spec']
    m['drop'] = m['drop'] or [[draw(ints(0, s['n'] - 1)), draw(ints(0, s['k'] - 1))]]
    return m


def check_partial(m):
    import warnings
    model, _ = make(m)
    t = m['t']
    if model.is_input_complete():
        return False, ['complete']
    before = table(model, t)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        expect(model.is_minimal() is False, 'a partial machine is reported minimal')
        model.minimize()
    expect(table(model, t) == before, 'minimising a partial machine changed it')
    return True, [t]


SUBS = [Sub('minimize', cases(), check, quick=8000), Sub('partial', partial_cases(), check_partial, quick=1000)]
