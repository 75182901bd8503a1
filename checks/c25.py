import random

from hypothesis import strategies as st

from aalpy import automata as A
from aalpy.learning_algs import run_non_det_Lstar

from vf.core import Sub, expect
from vf.gen import ints, words
from vf.ndl import FairNdSUL, SparseNdSUL, PerfectNdOracle, Skip, difference, classes, ref_table, need
from vf.stoch import nd, Nd, read_nd

PROPERTY = 'C25'
RULE = ('random observable nondeterministic machines (1-5 states, up to 3 inputs, up to 3 outcomes per input), systems that produce every outcome equally often after every history, perfect oracle, '
        'optional true samples, stochastic variant and round limits; non-trivial: at least two states and at least one nondeterministic choice')
ASSUMPTIONS = ['the number of samples per cell is at least the number of outcomes of the longest suffix in use (all outputs are observed)', 'outputs are not None']


@st.composite
def cases(draw):
    b = draw(st.sampled_from([1, 2, 2, 2, 3]))
    spec = draw(nd('onfsm', max_n=5 if b < 3 else 3, max_k=3 if b < 3 else 2, max_branch=b, n_out=draw(ints(2, 4)), observable=True))
    if draw(st.booleans()):
        # nearly all cells offer the same outputs, so that states differ only on longer suffixes
        keep = (draw(ints(0, spec['n'] - 1)), draw(ints(0, spec['k'] - 1)))
        w = draw(ints(1, b))
        for s, row in enumerate(spec['tr']):
            for i, cell in enumerate(row):
                if (s, i) != keep:
                    while len(cell) < w:
                        cell.append([0, draw(ints(0, spec['n'] - 1)), 1])
                    del cell[max(w, sum(1 for c in cell if c[1] == s + 1)):]
                    for x, c in enumerate(cell):
                        c[0] = x
    return {'spec': spec, 'seed': draw(ints(0, 10 ** 6)), 'factor': draw(ints(1, 2)), 'samples': [[w, draw(ints(1, 4))] for w in draw(st.lists(words(spec['k'], 6), max_size=4))] if draw(st.booleans()) else None,
            'stoch': draw(ints(0, 2)) == 0, 'rounds': draw(st.sampled_from([None] * 6 + [1, 2])), 'print': draw(st.sampled_from([0, 0, 0, 0, 1, 2, 3])), 'rd': draw(st.booleans())}


def check(case):
    spec = case['spec']
    m = Nd(spec)
    sul = FairNdSUL(spec, case['seed'])
    B = max(len(c) for row in m.tr for c in row)
    n_sampling = max(1, B ** 3) * case['factor']
    oracle = PerfectNdOracle(spec, m.al, sul, n_sampling)
    samples = None
    if case['samples'] is not None:
        rng = random.Random(case['seed'])
        samples = []
        for w, rep in case['samples']:
            ins, outs, s = [m.al[i] for i in w], [], m.init
            for i in w:
                o, s, _ = rng.choice(m.tr[s][i])
                outs.append(o)
            samples += [(tuple(ins), tuple(outs))] * min(rep, 2 if B > 1 else 9)
        if B > 1:
            n_sampling += 2 * len(samples)  # samples are counted as observations
            oracle.n = n_sampling - 2 * len(samples)
    given = list(samples) if samples is not None else None
    kw = dict(n_sampling=n_sampling, stochastic=case['stoch'], max_learning_rounds=case['rounds'], print_level=case['print'], return_data=case['rd'])
    if samples is not None:
        kw['samples'] = samples
    al = list(m.al)
    try:
        res = run_non_det_Lstar(al, sul, oracle, **kw)
    except Skip:
        return False, ['suffix_too_long_for_samples']
    expect(al == list(m.al) and samples == given, 'caller data modified')
    model, info = res if case['rd'] else (res, None)
    kind = 'smm' if case['stoch'] else 'onfsm'
    expect(type(model) is (A.StochasticMealyMachine if case['stoch'] else A.Onfsm), 'wrong kind of model', got=type(model).__name__)
    _, _, tr, init = read_nd(model, kind)
    for row in tr:
        expect(set(row) == set(m.al), 'the model is not input complete', inputs=list(row))
        for a, lst in row.items():
            os = [o for o, _, _ in lst]
            expect(len(set(os)) == len(os), 'the output does not determine the successor', input=a, cell=lst)
            if case['stoch']:
                expect(all(0 < p <= 1 for _, _, p in lst) and abs(sum(p for _, _, p in lst) - 1) < 1e-9, 'a distribution does not sum to one', input=a, cell=lst)
    if info is not None:
        expect(info['automaton_size'] == len(model.states), 'reported size differs from the model')
        expect(info['learning_rounds'] == oracle.calls, 'reported rounds differ from the equivalence queries', got=info['learning_rounds'], expected=oracle.calls)
    finished = not oracle.found or oracle.calls > len(oracle.found)
    d = difference(m, m.init, tr, init, m.al)
    if case['rounds'] is None:
        expect(finished, 'learning stopped although the oracle found a difference')
    if finished:
        expect(d is None, 'the learned model differs from the system', difference=d)
        n, _ = classes(tr, range(len(tr)))
        expect(n == len(tr), 'two states of the model have the same behaviour', states=len(tr), classes=n)
        k, _ = classes(ref_table(m), m.reachable())
        expect(len(tr) == k, 'the model is not as small as the observable behaviour', states=len(tr), minimal=k)
        for h in sul.traces:
            s = init
            for a, o in h:
                nx = [c for c in tr[s][a] if c[0] == o]
                expect(nx, 'an observed trace is impossible in the model', trace=h)
                s = nx[0][1]
    else:
        expect(oracle.calls == case['rounds'], 'the round limit is not respected', rounds=oracle.calls, limit=case['rounds'])
    return len(tr) > 1 and B > 1, [f'states_{len(tr)}', f'branch_{B}', 'stochastic' if case['stoch'] else 'onfsm', f'cex_{min(len(oracle.found), 4)}', 'extra' if any(f[2] == 'extra' for f in oracle.found) else 'noextra',
                                   'samples' if samples else 'nosamples', 'limit' if not finished else 'finished']



@st.composite
def sparse_cases(draw):
    c = draw(cases())
    return {'spec': c['spec'], 'seed': c['seed'], 'n': draw(ints(1, 5)), 'stoch': c['stoch'], 'rounds': c['rounds']}


def check_sparse(case):
    """few samples per cell: outputs are missed at first and revealed later by counterexamples"""
    spec = case['spec']
    m = Nd(spec)
    sul = SparseNdSUL(spec, case['seed'], max_steps=12_000)
    oracle = PerfectNdOracle(spec, m.al, sul, 10 ** 9)
    try:
        model = run_non_det_Lstar(list(m.al), sul, oracle, n_sampling=case['n'], stochastic=case['stoch'], max_learning_rounds=case.get('rounds'), print_level=0)
    except Skip:
        return False, ['given_up']
    kind = 'smm' if case['stoch'] else 'onfsm'
    _, _, tr, init = read_nd(model, kind)
    finished = not oracle.found or oracle.calls > len(oracle.found)
    if finished:
        d = difference(m, m.init, tr, init, m.al)
        expect(d is None, 'the learned model differs from the system', difference=d)
        n, _ = classes(tr, range(len(tr)))
        expect(n == len(tr), 'two states of the model have the same behaviour', states=len(tr), classes=n)
    else:
        expect(oracle.calls == case.get('rounds'), 'the round limit is not respected', rounds=oracle.calls, limit=case.get('rounds'))
    if case['stoch']:
        for row in tr:
            for a, lst in row.items():
                expect(all(0 < p <= 1 for _, _, p in lst) and abs(sum(p for _, _, p in lst) - 1) < 1e-9, 'a distribution does not sum to one', input=a, cell=lst)
    B = max(len(c) for row in m.tr for c in row)
    return len(tr) > 1 and B > 1, [f"samples_{case['n']}", f'cex_{min(len(oracle.found), 4)}', 'finished' if finished else 'limit']


SUBS = [Sub('learn', cases(), check, quick=6000), Sub('sparse', sparse_cases(), check_sparse, quick=1500)]
