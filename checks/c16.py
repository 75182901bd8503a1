import random

from hypothesis import strategies as st

from aalpy.utils import compare_automata, bisimilar
from aalpy.utils.ModelChecking import generate_test_cases
from aalpy.oracles import RandomWordEqOracle, WMethodEqOracle

from vf import gen
from vf.core import Sub, expect
from vf.gen import ints
from vf.ref import Det, ReadDet, build, first_difference
from vf.table import models, make, table

PROPERTY = 'C16'
RULE = ('pairs of complete DFA / Moore / Mealy machines: independent, equivalent rewritings (state renaming, duplicated states), and mutants (one or more edges / outputs changed, deep); partial pairs '
        'with missing transitions; non-trivial: the pair has more than one state in total')
ASSUMPTIONS = ['compare_automata is random: it may miss differences; only the truth of what it reports is required']


@st.composite
def pairs(draw, max_n=6):
    s = draw(gen.det_mix(max_n=max_n, max_k=3, big_n=14, big_k=4))
    kind = draw(st.sampled_from(['same', 'dup', 'dup', 'edge', 'edge', 'out', 'dupout', 'dupedge', 'other', 'self']))
    b = {**s, 'tr': [list(r) for r in s['tr']], 'out': [list(x) if s['t'] == 'mealy' else x for x in s['out']]}

    def dup():
        for _ in range(draw(ints(1, 3))):
            x = draw(ints(0, b['n'] - 1))
            b['tr'].append(list(b['tr'][x]))
            b['out'].append(list(b['out'][x]) if s['t'] == 'mealy' else b['out'][x])
            b['n'] += 1
            into = [(q, i) for q in range(b['n']) for i in range(b['k']) if b['tr'][q][i] == x]
            for q, i in into:
                if draw(st.booleans()):
                    b['tr'][q][i] = b['n'] - 1
            if b['init'] == x and draw(st.booleans()):
                b['init'] = b['n'] - 1

    def edge():
        for _ in range(draw(ints(1, 2))):
            b['tr'][draw(ints(0, b['n'] - 1))][draw(ints(0, b['k'] - 1))] = draw(ints(0, b['n'] - 1))

    def out():
        q = draw(ints(0, b['n'] - 1))
        if s['t'] == 'mealy':
            i = draw(ints(0, b['k'] - 1))
            b['out'][q][i] = draw(ints(0, 1))
        else:
            b['out'][q] = draw(ints(0, 1))

    if 'dup' in kind:
        dup()
    if 'edge' in kind:
        edge()
    if kind.endswith('out'):
        out()
    if kind == 'other':
        o = draw(gen.det_mix(types=(s['t'],), max_n=max_n, max_k=s['k'], min_k=s['k'], sks=(s['sk'],), oks=(s['ok'],), big_n=10, big_k=s['k']))
        b = o
    return {'a': s, 'b': b, 'kind': kind, 'order': draw(st.permutations(range(b['n']))), 'num_cex': draw(st.sampled_from([1, 2, 3, 10])), 'seed': draw(ints(0, 10 ** 6)),
            'cur': draw(ints(0, b['n'] - 1))}


def models_of(case):
    a, _ = build(case['a'])
    if case['kind'] == 'self':
        return a, a
    b, bs = build(case['b'], id_fmt='t{}', order=case['order'])
    b.current_state = bs[case['cur']]
    return a, b


def check(case):
    t = case['a']['t']
    da, db = Det(case['a']), Det(case['a'] if case['kind'] == 'self' else case['b'])
    a, b = models_of(case)
    before = table(a, t), table(b, t)
    w = first_difference(da, db)
    r1, c1 = bisimilar(a, b), bisimilar(a, b, return_cex=True)
    r2, c2 = bisimilar(b, a), bisimilar(b, a, return_cex=True)
    expect((table(a, t), table(b, t)) == before, 'the comparison changed a model')
    for r, c in ((r1, c1), (r2, c2)):
        expect(r is (w is None), f'bisimilar answers {r!r}', difference=w)
        if w is None:
            expect(c is None, 'a counterexample for bisimilar machines', cex=c)
        else:
            expect(isinstance(c, (list, tuple)), 'no counterexample for machines that are not bisimilar', cex=c)
            expect(da.run(tuple(c)) != db.run(tuple(c)), 'the counterexample does not distinguish the machines', cex=c)
            expect(len(c) == len(w), 'the counterexample is not a shortest one', cex=c, shortest=w)
    return da.n + db.n > 2, [t, case['kind'], 'equal' if w is None else f'len_{min(len(w), 8)}']


def check_compare(case):
    t = case['a']['t']
    da, db = Det(case['a']), Det(case['a'] if case['kind'] == 'self' else case['b'])
    a, b = models_of(case)
    before = table(a, t), table(b, t)
    w = first_difference(da, db)
    random.seed(case['seed'])
    r = compare_automata(a, b, num_cex=case['num_cex'])
    expect((table(a, t), table(b, t)) == before, 'the comparison changed a model')
    expect(isinstance(r, list), 'the result is not a list', result=r)
    r = [tuple(x) for x in r]
    expect(len(set(r)) == len(r), 'a sequence is reported twice', result=r)
    expect(len(r) <= case['num_cex'], 'more sequences than asked for', result=r)
    expect([len(x) for x in r] == sorted(len(x) for x in r), 'the sequences are not sorted by length', result=r)
    if w is None:
        expect(r == [], 'differences reported for equivalent models', result=r)
    for x in r:
        expect(da.run(x) != db.run(x), 'the reported sequence does not distinguish the models', sequence=x)
    return da.n + db.n > 2, [t, case['kind'], 'equal' if w is None else 'different', f'found_{len(r)}']


@st.composite
def partial_cases(draw):
    p = draw(pairs(max_n=4))
    p['drop'] = [[draw(ints(0, 1)), draw(ints(0, 9)), draw(ints(0, 9)), draw(st.booleans())] for _ in range(draw(ints(1, 3)))]
    return p


def check_partial(case):
    """missing transitions are a difference as well; the witness must be real"""
    t = case['a']['t']
    a, b = models_of(case)
    for which, q, i, both in case['drop']:
        for m in ((a, b) if both else ((a, b)[which],)):
            s = next(x for x in m.states if x.state_id in (f's{q % len(m.states)}', f't{q % len(m.states)}'))
            al = Det(case['a']).al
            s.transitions.pop(al[i % len(al)], None)
            if t == 'mealy':
                s.output_fun.pop(al[i % len(al)], None)

    def lab(s):
        return None if t == 'mealy' else (s.is_accepting if t == 'dfa' else s.output)

    def walk(m, w):
        s, r = m.initial_state, [lab(m.initial_state)]
        for x in w:
            if x not in s.transitions:
                return r + ['missing']
            r.append((s.output_fun[x] if t == 'mealy' else None, lab(s.transitions[x])))
            s = s.transitions[x]
        return r

    # exact answer: pairwise exploration
    equal, seen, todo = True, set(), [(a.initial_state, b.initial_state)]
    while todo and equal:
        x, y = todo.pop()
        if (id(x), id(y)) in seen:
            continue
        seen.add((id(x), id(y)))
        if lab(x) != lab(y) or set(x.transitions) != set(y.transitions):
            equal = False
            break
        for i in x.transitions:
            if t == 'mealy' and x.output_fun[i] != y.output_fun[i]:
                equal = False
            todo.append((x.transitions[i], y.transitions[i]))
    r, c = bisimilar(a, b), bisimilar(a, b, return_cex=True)
    expect(r is equal, f'bisimilar answers {r!r} for partial machines', expected=equal)
    if equal:
        expect(c is None, 'a counterexample for bisimilar machines', cex=c)
    else:
        expect(c is not None and walk(a, c) != walk(b, c), 'the counterexample does not distinguish the machines', cex=c)
    return True, [t, case['kind'], 'equal' if equal else 'different']


@st.composite
def test_cases(draw):
    return {'spec': draw(gen.det_mix(max_n=6, max_k=3, big_n=9, big_k=3)), 'oracle': draw(st.sampled_from(['word', 'w'])), 'seed': draw(ints(0, 10 ** 6)), 'num': draw(ints(1, 20)),
            'depth': draw(ints(0, 1))}


def check_gen(case):
    """generate_test_cases returns executions of the machine"""
    d = Det(case['spec'])
    model, _ = build(case['spec'])
    if case['oracle'] == 'w':
        if d.n != d.min_size():
            return False, ['not_minimal']
        o = WMethodEqOracle(list(d.al), None, d.n + case['depth'])
    else:
        o = RandomWordEqOracle(list(d.al), None, num_walks=case['num'], min_walk_len=1, max_walk_len=6)
    before = table(model, d.t)
    random.seed(case['seed'])
    for s in model.states:
        s.prefix = model.get_shortest_path(model.initial_state, s)
    r = generate_test_cases(model, o)
    expect(table(model, d.t) == before, 'the model was changed')
    if case['oracle'] == 'word':
        expect(len(r) == case['num'], f'{len(r)} test cases instead of {case["num"]}')
    for i, out in r:
        expect(len(i) == len(out) and list(out) == d.run(tuple(i)), 'the expected outputs of a test case are wrong', inputs=i, outputs=out)
    return len(r) > 0, [d.t, case['oracle']]


SUBS = [Sub('bisimilar', pairs(), check, quick=10000), Sub('partial', partial_cases(), check_partial, quick=3000), Sub('compare', pairs(), check_compare, quick=2000),
        Sub('test_cases', test_cases(), check_gen, quick=1500)]
