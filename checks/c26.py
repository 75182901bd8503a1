import random

from hypothesis import strategies as st

from aalpy import automata as A
from aalpy.learning_algs import run_abstracted_ONFSM_Lstar

from vf.core import Sub, expect
from vf.gen import ints, words
from vf.ndl import FairNdSUL, SparseNdSUL, PerfectNdOracle, Skip, difference, classes, ref_table, need
from vf.ref import osym
from vf.stoch import nd, Nd, read_nd

PROPERTY = 'C26'
RULE = ('random observable nondeterministic machines, random partitions of the outputs (including identity, empty and total abstraction), fair systems, oracle that returns a shortest system trace without a run '
        'in the model; non-trivial: at least two states and at least one nondeterministic choice')
ASSUMPTIONS = ['enough samples per cell', 'outputs are not None']


@st.composite
def cases(draw):
    b = draw(st.sampled_from([1, 2, 2, 3]))
    n_out = draw(ints(2, 5))
    spec = draw(nd('onfsm', max_n=4 if b < 3 else 3, max_k=2, max_branch=b, n_out=n_out, observable=True))
    mode = draw(st.sampled_from(['identity', 'empty', 'random', 'random', 'random', 'total', 'fresh']))
    return {'spec': spec, 'mode': mode, 'map': [draw(ints(0, 2)) for _ in range(n_out)], 'part': draw(st.booleans()), 'av': draw(st.sampled_from(['str', 'int', 'falsy', 'own'])), 'seed': draw(ints(0, 10 ** 6)), 'rounds': None, 'print': draw(st.sampled_from([0, 0, 0, 1, 2, 3])), 'rd': draw(st.booleans())}


def mapping(case):
    ok = case['spec']['ok']
    outs = [osym(ok, i) for i in range(len(case['map']))]
    mode = case['mode']
    kind = case.get('av', 'str')
    av = lambda x: {'str': f'A{x}', 'int': x, 'falsy': [0, '', ()][x % 3], 'own': outs[x % len(outs)]}[kind]
    if mode == 'identity':
        return {o: o for o in outs}
    if mode == 'empty':
        return {}
    if mode == 'total':
        return {o: av(0) for o in outs}
    if mode == 'fresh':  # renaming
        return {o: av(i) for i, o in enumerate(outs)}
    m = {o: av(x) for o, x in zip(outs, case['map'])}
    if case['part']:
        del m[outs[0]]
    return m


class MissingOnly(PerfectNdOracle):
    """a shortest trace of the system that the model cannot produce"""

    def find_cex(self, hypothesis):
        from collections import deque
        self.calls += 1
        expect(self.calls <= 200, 'more than 200 equivalence queries')
        _, _, tr, init = read_nd(hypothesis, 'onfsm')
        m = self.m
        q = deque([(frozenset([m.init]), frozenset([init]), (), ())])
        seen = set()
        found = None
        while q and found is None:
            a, b, ins, outs = q.popleft()
            for i, x in enumerate(m.al):
                for o in m.outputs(a, i):
                    nb = frozenset(c[1] for s in b for c in tr[s].get(x, []) if c[0] == o)
                    if not nb:
                        found = found or (ins + (x,), outs + (o,))
                        break
                    na = m.succ(a, i, o)
                    if (na, nb) not in seen:
                        seen.add((na, nb))
                        q.append((na, nb, ins + (x,), outs + (o,)))
        if found is None:
            return None
        ins, outs = found
        if need(m, ins) > self.n:
            raise Skip()
        for tries in range(5000):
            if list(self.sul.query(ins)) == list(outs):
                break
        self.found.append((ins, outs))
        return list(ins), list(outs)


def check(case):
    spec = case['spec']
    m = Nd(spec)
    sul = FairNdSUL(spec, case['seed'])
    B = max(len(c) for row in m.tr for c in row)
    n_sampling = max(1, B ** 3) * 2
    oracle = MissingOnly(spec, m.al, sul, n_sampling)
    amap = mapping(case)
    given = dict(amap)
    try:
        res = run_abstracted_ONFSM_Lstar(list(m.al), sul, oracle, amap, n_sampling=n_sampling, max_learning_rounds=case['rounds'], print_level=case['print'], return_data=case['rd'])
    except Skip:
        return False, ['suffix_too_long_for_samples']
    expect(amap == given, 'the abstraction mapping was modified')
    model, info = res if case['rd'] else (res, None)
    expect(type(model) is A.Onfsm, 'wrong kind of model', got=type(model).__name__)
    _, _, tr, init = read_nd(model, 'onfsm')
    if info is not None:
        expect(info['automaton_size'] == len(model.states) and info['learning_rounds'] == oracle.calls, 'reported statistics differ from the run', info=info, calls=oracle.calls)
    k, cls = classes(ref_table(m), m.reachable())
    expect(len(tr) <= k, 'more states than the concrete behaviour has', states=len(tr), minimal=k)
    d = difference(m, m.init, tr, init, m.al)
    expect(d is None or d[2] == 'extra', 'a trace of the system has no run in the model', difference=d)
    # one-step soundness: everything a state does is done by a situation of the system with the same abstract row
    abst = lambda o: amap.get(o, o)
    E = [tuple(e) for e in model.characterization_set]

    def row(qs):
        out = []
        for e in E:
            cur = {((), frozenset(qs))}
            for x in e:
                cur = {(w + (o,), m.succ(a, m.idx[x], o)) for w, a in cur for o in m.outputs(a, m.idx[x])}
            out.append(frozenset(tuple(abst(o) for o in w) for w, _ in cur))
        return tuple(out)

    rows = {q: row([q]) for q in m.reachable()}
    srow = []
    for i, s in enumerate(model.states):
        cur = frozenset([m.init])
        for x, o in zip(*s.prefix):
            cur = m.succ(cur, m.idx[x], o)
        expect(len(cur) > 0, 'the prefix of a state cannot be observed', prefix=s.prefix)
        srow.append(row(cur))
    expect(len(set(srow)) == len(srow), 'two states have the same abstract row')
    expect(srow[init] == rows[m.init], 'the initial state is not that of the system')
    for i, t in enumerate(tr):
        for x, lst in t.items():
            for o, tgt, _ in lst:
                expect(any(rows[q] == srow[i] and any(rows[q2] == srow[tgt] for q2 in m.succ(frozenset([q]), m.idx[x], o)) for q in rows),
                       'a transition that no equivalent situation of the system has', state=i, input=x, output=o)
            have = {abst(o) for o, _, _ in lst}
            for q in rows:
                if rows[q] == srow[i]:
                    expect({abst(o) for o in m.outputs(frozenset([q]), m.idx[x])} == have, 'the abstract outputs of a state differ from those of the system', state=i, input=x)
    lab = 'exact' if d is None else 'superset'
    return len(tr) > 1 and B > 1, [case['mode'], lab, f'states_{len(tr)}', f'branch_{B}', f'cex_{min(len(oracle.found), 4)}', 'reduced' if len(tr) < k else 'same']



@st.composite
def sparse_cases(draw):
    c = draw(cases())
    return {'spec': c['spec'], 'mode': c['mode'], 'map': c['map'], 'part': c['part'], 'av': c['av'], 'seed': c['seed'], 'n': draw(ints(1, 5))}


def check_sparse(case):
    """few samples per cell: outputs are missed at first and revealed later by counterexamples"""
    spec = case['spec']
    m = Nd(spec)
    sul = SparseNdSUL(spec, case['seed'], max_steps=12_000)
    oracle = MissingOnly(spec, m.al, sul, 10 ** 9)
    amap = mapping(case)
    try:
        model = run_abstracted_ONFSM_Lstar(list(m.al), sul, oracle, dict(amap), n_sampling=case['n'], print_level=0)
    except Skip:
        return False, ['given_up']
    _, _, tr, init = read_nd(model, 'onfsm')
    d = difference(m, m.init, tr, init, m.al)
    expect(d is None or d[2] == 'extra', 'a trace of the system has no run in the model', difference=d)
    for s in model.states:
        cur = frozenset([m.init])
        for x, o in zip(*s.prefix):
            cur = m.succ(cur, m.idx[x], o)
        expect(len(cur) > 0, 'the prefix of a state cannot be observed', prefix=s.prefix)
        for x, lst in s.transitions.items():
            # outputs of merged situations with the same abstraction are offered too
            for o, _ in lst:
                expect(any(o in m.outputs(frozenset([q]), m.idx[x]) for q in m.reachable()), 'an output that the system never produces for this input', input=x, output=o)
    B = max(len(c) for row in m.tr for c in row)
    return len(tr) > 1 and B > 1, [case['mode'], f"samples_{case['n']}", f'cex_{min(len(oracle.found), 4)}']


SUBS = [Sub('learn', cases(), check, quick=3000), Sub('sparse', sparse_cases(), check_sparse, quick=1500)]
