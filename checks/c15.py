import random
import warnings
from collections import deque
from itertools import combinations

from hypothesis import strategies as st

from aalpy.oracles.WpMethodEqOracle import state_characterization_set

from vf import gen
from vf.core import Sub, expect
from vf.gen import ints
from vf.ref import Det, build
from vf.table import models, make

PROPERTY = 'C15'
RULE = ('random complete DFA / Moore / Mealy machines (minimal or not, unreachable states, state list and initial state in any order), all ordered pairs of states; characterisation sets '
        'under every combination of initial sequences, suffix closure and splitting mode; partial machines for the structural questions; non-trivial: at least two states')
ASSUMPTIONS = []


@st.composite
def cases(draw):
    s = draw(gen.det_mix(max_n=6, max_k=3, big=10, big_n=12, big_k=3, wide=5))
    return {'spec': s, 'order': draw(st.permutations(range(s['n']))), 'init': draw(st.one_of(st.none(), st.lists(gen.words(s['k'], 3, 0), max_size=3))),
            'closure': draw(st.booleans()), 'split': draw(st.booleans()), 'cur': draw(ints(0, s['n'] - 1))}


def dist(d, s):
    r = {s: 0}
    q = deque([s])
    while q:
        x = q.popleft()
        for y in d.tr[x]:
            if y not in r:
                r[y] = r[x] + 1
                q.append(y)
    return r


def split_length(d, a, b):
    """length of the shortest non-empty word whose outputs differ, or None"""
    seen = {(a, b)}
    q = deque([(a, b, 0)])
    while q:
        x, y, n = q.popleft()
        for i in range(d.k):
            if d.o(x, i) != d.o(y, i):
                return n + 1
            p = (d.tr[x][i], d.tr[y][i])
            if p not in seen:
                seen.add(p)
                q.append(p + (n + 1,))
    return None


def separates(d, w, a, b):
    return d.run(w, a) != d.run(w, b)


def check(case):
    spec, t = case['spec'], case['spec']['t']
    d = Det(spec)
    model, states = build(spec, order=case['order'])
    num = {id(s): i for i, s in enumerate(states)}
    model.current_state = states[case['cur']]
    n = d.n
    # shortest paths
    for a in range(n):
        ds = dist(d, a)
        for b in range(n):
            p = model.get_shortest_path(states[a], states[b])
            if b not in ds:
                expect(p is None, 'a path to an unreachable state', path=p)
            else:
                expect(p is not None, 'no path found', source=a, target=b)
                expect(d.target(p, a) == b, 'the path does not lead to its target', path=p, source=a, target=b)
                expect(len(p) == ds[b], 'the path is not a shortest one', path=p, shortest=ds[b])
    model.compute_prefixes()
    ds = dist(d, d.init)
    for a in range(n):
        p = states[a].prefix
        expect((p is None) == (a not in ds) and (p is None or (d.target(p) == a and len(p) == ds[a])), 'the access word computed for a state is wrong or not a shortest one', state=a, prefix=p)
    strong = all(len(dist(d, a)) == n for a in range(n))
    expect(model.is_strongly_connected() is strong, 'wrong answer about strong connectivity', expected=strong)
    expect(model.is_input_complete() is True, 'a complete machine is reported incomplete')
    expect(sorted(map(repr, model.get_input_alphabet())) == sorted(map(repr, d.al)), 'wrong input alphabet')
    expect(model.size == n, 'wrong size')
    # distinguishing sequences
    equal_pairs = []
    for a, b in combinations(range(n), 2):
        ln = split_length(d, a, b)
        lab = t != 'mealy' and d.out[a] != d.out[b]
        for x, y in ((a, b), (b, a)):
            w = model.find_distinguishing_seq(states[x], states[y], list(d.al))
            if ln is None and not lab:
                expect(w is None, 'a distinguishing sequence for equivalent states', sequence=w)
            else:
                expect(w is not None, 'no distinguishing sequence for different states', states=(x, y))
                expect(separates(d, tuple(w), x, y), 'the sequence does not distinguish the states', sequence=w, states=(x, y))
                expect((ln is not None and len(w) == ln) or (len(w) == 0 and lab), 'the distinguishing sequence is not a shortest one', sequence=w, shortest=ln)
        if ln is None and not lab:
            equal_pairs.append({a, b})
    expect(model.current_state is states[case['cur']], 'an analysis moved the current state')
    # characterisation sets
    init = None if case['init'] is None else [tuple(d.al[i] for i in w) for w in case['init']]
    given = None if init is None else list(init)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        cs = model.compute_characterization_set(char_set_init=init, online_suffix_closure=case['closure'], split_all_blocks=case['split'])
        pair = model.compute_characterization_set(char_set_init=None if given is None else list(given), return_same_states=True)
    for quiet in (True, False):
        with warnings.catch_warnings(record=True) as told:
            warnings.simplefilter('always')
            again = model.compute_characterization_set(char_set_init=None if given is None else list(given), online_suffix_closure=case['closure'], split_all_blocks=case['split'], raise_warning=not quiet)
        expect((again is None) is (cs is None), 'the warning switch changes the result', first=cs, again=again)
        expect(bool(told) is (bool(equal_pairs) and not quiet), 'wrong warning about a missing characterisation set', warned=len(told), quiet=quiet)
    expect(init == given, 'the given initial sequences were modified', now=init)
    expect(model.current_state is states[case['cur']], 'an analysis moved the current state')
    if equal_pairs:
        expect(cs is None, 'a characterisation set for a machine with equivalent states')
        expect(isinstance(pair, tuple) and len(pair) == 2 and None not in pair, 'equivalent states were not reported')
        expect({num[id(pair[0])], num[id(pair[1])]} in equal_pairs, 'the reported states are not equivalent')
    else:
        expect(cs is not None, 'no characterisation set for a machine without equivalent states')
        expect(tuple(pair) == (None, None), 'equivalent states reported in a machine without any')
        cs = [tuple(w) for w in cs]
        for a, b in combinations(range(n), 2):
            expect(any(separates(d, w, a, b) for w in cs), 'two states are not separated by the characterisation set', states=(a, b), set=cs)
        for w in given or []:
            expect(w in cs, 'an initial sequence is missing in the characterisation set', sequence=w)
        if case['closure']:
            for w in cs:
                if w not in (given or []) and len(w) > 1:
                    expect(w[1:] in cs, 'the characterisation set is not suffix closed', sequence=w, set=cs)
        for i, s in enumerate(states):
            ws = state_characterization_set(model, list(d.al), s)
            for j in range(n):
                if j != i:
                    expect((t != 'mealy' and d.out[i] != d.out[j]) or any(separates(d, tuple(w), i, j) for w in ws), 'the identifying set of a state does not identify it', state=i, other=j, set=ws)
    return n > 1, [t, spec['fam'], 'minimal' if not equal_pairs else 'equivalent', 'strong' if strong else 'weak', f'closure_{case["closure"]}_split_{case["split"]}']


@st.composite
def partial_cases(draw):
    m = draw(models(('dfa', 'moore', 'mealy'), sks=('str', 'int', 'mixed'), oks=('str',)))
    s = m['spec']
    m['drop'] = m['drop'] or [[draw(ints(0, s['n'] - 1)), draw(ints(0, s['k'] - 1))]]
    return m


def check_partial(m):
    model, states = make(m)
    d = Det(m['spec'])
    gone = {(q, d.al[i]) for q, i in m['drop']}
    al = {a for q in range(d.n) for a in d.al if (q, a) not in gone}
    complete = all((q, a) not in gone for q in range(d.n) for a in al)
    expect(model.is_input_complete() is complete, 'wrong answer about input completeness', expected=complete)
    expect(set(model.get_input_alphabet()) == al and len(model.get_input_alphabet()) == len(al), 'wrong input alphabet')
    for q, s in enumerate(states):
        r = {q: 0}
        todo = deque([q])
        while todo:
            x = todo.popleft()
            for i, y in enumerate(d.tr[x]):
                if (x, d.al[i]) not in gone and y not in r:
                    r[y] = r[x] + 1
                    todo.append(y)
        for p, s2 in enumerate(states):
            w = model.get_shortest_path(s, s2)
            expect((w is None) == (p not in r), 'wrong answer about reachability', source=q, target=p, path=w)
            if w is not None:
                x = s
                for a in w:
                    x = x.transitions[a]
                expect(x is s2 and len(w) == r[p], 'the path is wrong or not a shortest one', path=w, shortest=r[p])
        same = {a for i, a in enumerate(d.al) if (q, a) not in gone and d.tr[q][i] == q}
        diff = {a for i, a in enumerate(d.al) if (q, a) not in gone and d.tr[q][i] != q}
        expect(set(s.get_same_state_transitions()) == same and len(s.get_same_state_transitions()) == len(same), 'wrong self loops', state=q)
        expect(set(s.get_diff_state_transitions()) == diff and len(s.get_diff_state_transitions()) == len(diff), 'wrong transitions to other states', state=q)
        expect(model.get_state_by_id(s.state_id) is s, 'lookup by id fails')
    expect(model.get_state_by_id('nobody') is None, 'lookup of an unknown id')
    return True, [m['t'], 'complete' if complete else 'partial']


@st.composite
def ring_cases(draw):
    """long rings and locks, possibly in two copies: the states differ late or never"""
    n, k, twins = draw(ints(6, 14)), draw(ints(2, 5)), draw(st.booleans())
    t = draw(st.sampled_from(['dfa', 'moore', 'mealy']))
    jumps = draw(st.lists(st.tuples(ints(0, n - 1), ints(0, k - 1), ints(0, n - 1)), max_size=3))
    one = [[(i + 1) % n] * k for i in range(n)]
    for i, a, j in jumps:
        one[i][a] = j
    marks = [1 if i == 0 else 0 for i in range(n)]
    tr = one + ([[j + n for j in r] for r in one] if twins else [])
    out = marks * (2 if twins else 1)
    if t == 'mealy':
        out = [[o] * k for o in out]
    m = len(tr)
    return {'spec': {'t': t, 'n': m, 'k': k, 'tr': tr, 'out': out, 'init': 0, 'sk': 'str', 'ok': 'bool' if t == 'dfa' else 'int', 'fam': 'ring'},
            'order': draw(st.permutations(range(m))), 'init': None, 'closure': draw(st.booleans()), 'split': draw(st.booleans()), 'cur': 0}


SUBS = [Sub('analyses', cases(), check, quick=6000), Sub('rings', ring_cases(), check, quick=300), Sub('partial', partial_cases(), check_partial, quick=3000)]
