import random
import warnings
from collections import deque

from hypothesis import strategies as st

from aalpy import automata as A
from aalpy.utils import (generate_random_deterministic_automata, generate_random_dfa, generate_random_markov_chain, generate_random_mdp, generate_random_mealy_machine, generate_random_moore_machine,
                         generate_random_ONFSM, generate_random_sevpa, generate_random_smm)

from vf.core import Sub, expect
from vf.gen import ints
from vf.ref import ReadDet, check_type, sym, osym
from vf.stoch import read_nd

PROPERTY = 'C28'
RULE = 'random parameters and seeds for every generator; each model is generated twice from the same seed; non-trivial: at least two states'
ASSUMPTIONS = ['at least two outputs are requested and at least one input', 'a deterministic generator may return a non-minimal model only together with its warning']


def dump(model, kind):
    if kind in ('dfa', 'moore', 'mealy'):
        f = {'dfa': lambda s: s.is_accepting, 'moore': lambda s: s.output, 'mealy': lambda s: sorted(s.output_fun.items(), key=repr)}[kind]
        return [(s.state_id, f(s), [(a, t.state_id) for a, t in s.transitions.items()]) for s in model.states], model.initial_state.state_id
    if kind == 'sevpa':
        return [(s.state_id, s.is_accepting, [(a, [(t.target_state.state_id, t.letter, t.action, t.stack_guard) for t in l]) for a, l in s.transitions.items()]) for s in model.states], model.initial_state.state_id
    states, outs, tr, init = read_nd(model, kind)
    return [s.state_id for s in states], outs, tr, init


def twice(case, gen, kind):
    """the same seed gives the same model; returns (model, whether a warning was issued)"""
    r = []
    for _ in range(2):
        random.seed(case['seed'])
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            r.append((gen(), [x for x in w if 'minimal' in str(x.message).lower()]))
    expect(dump(r[0][0], kind) == dump(r[1][0], kind), 'the same seed gives different models')
    return r[0][0], bool(r[0][1])


@st.composite
def det_cases(draw):
    fn = draw(st.sampled_from(['generic', 'generic', 'dfa', 'moore', 'mealy']))
    t = fn if fn != 'generic' else draw(st.sampled_from(['dfa', 'moore', 'mealy']))
    n = draw(st.one_of(ints(1, 8), ints(1, 8), ints(9, 40)))
    return {'fn': fn, 't': t, 'n': n, 'k': draw(ints(1 if n < 12 else 2, 5)) if n > 20 or draw(ints(0, 19)) else draw(ints(9, 13)), 'o': draw(ints(2, 6)) if draw(ints(0, 19)) else draw(ints(9, 13)), 'minimal': draw(st.booleans()), 'acc': draw(st.one_of(st.none(), ints(0, n))), 'sk': draw(st.sampled_from(['str', 'int', 'mixed', 'tuple', 'text'])),
            'ok': draw(st.sampled_from(['str', 'int', 'tuple', 'mixed', 'text'])), 'custom': draw(st.booleans()), 'seed': draw(ints(0, 10 ** 6))}


def check_det(case):
    t, n, k = case['t'], case['n'], case['k']
    al = [sym(case['sk'], i) for i in range(k)]
    outs = [osym(case['ok'], i) for i in range(case['o'])]
    given = list(al), list(outs)
    acc = case['acc']
    if case['fn'] == 'generic':
        kw = {}
        if case['custom']:
            kw['custom_input_alphabet'] = al
            if t != 'dfa':
                kw['custom_output_alphabet'] = outs
        else:
            al, outs = [f'i{i + 1}' for i in range(k)], [f'o{i + 1}' for i in range(case['o'])]
            given = list(al), list(outs)
        if t == 'dfa' and acc is not None:
            kw['num_accepting_states'] = acc
        exp_acc = acc if acc is not None else n // 2
        gen = lambda: generate_random_deterministic_automata(t, n, k, case['o'] if t != 'dfa' else None, ensure_minimality=case['minimal'], **kw)
    elif t == 'dfa':
        acc = 1 if acc is None else acc
        exp_acc = acc if n > acc else n // 2
        gen = lambda: generate_random_dfa(n, al, num_accepting_states=acc, ensure_minimality=case['minimal'])
    else:
        gen = lambda: (generate_random_moore_machine if t == 'moore' else generate_random_mealy_machine)(n, al, outs, ensure_minimality=case['minimal'])
    model, warned = twice(case, gen, t)
    expect((al, outs) == given, 'an alphabet of the caller was modified')
    check_type(model, t)
    r = ReadDet(model, t, al)
    expect(r.listed == n, 'wrong number of states', got=r.listed, requested=n)
    expect(r.n == n, 'not every state is reachable', reachable=r.n, requested=n)
    expect(len({s.state_id for s in model.states}) == n, 'state ids are not unique')
    if t == 'dfa':
        expect(sum(r.out) == exp_acc, 'wrong number of accepting states', got=sum(r.out), requested=exp_acc)
        possible = n == 1 or 0 < exp_acc < n
    else:
        used = [o for row in r.out for o in (row if t == 'mealy' else [row])]
        expect(all(any(o is x or o == x for x in outs) for o in used), 'an output that was not requested', outputs=used)
        expect(len(set(used)) == min(len(outs), len(used)), 'not as many different outputs as possible', used=len(set(used)), requested=len(outs))
        possible = True
    m = r.min_size()
    if case['minimal']:
        expect(m == n or warned, 'a minimal model was requested and the result is not minimal', minimal=m, states=n)
        if t == 'moore' and len(outs) >= n or t == 'mealy' and len(outs) >= n * k or n == 1:
            expect(m == n and not warned, 'a minimal model is always possible here')
        if m == n:
            expect(not warned, 'warned about a non-minimal model although it is minimal')
    dist = {id(r.states[0]): 0}
    q = deque([r.states[0]])
    while q:
        s = q.popleft()
        for a in al:
            x = s.transitions[a]
            if id(x) not in dist:
                dist[id(x)] = dist[id(s)] + 1
                q.append(x)
    for s in model.states:
        cur = model.initial_state
        for a in s.prefix or ():
            cur = cur.transitions[a]
        expect(cur is s and len(s.prefix or ()) == dist[id(s)], 'the prefix of a state is not a shortest access word', prefix=s.prefix)
    return n > 1, [case['fn'], t, 'minimal' if case['minimal'] else 'any', 'warned' if warned else '', 'impossible' if not possible else '', 'small' if n < 9 else 'big']


@st.composite
def nd_cases(draw):
    t = draw(st.sampled_from(['mdp', 'smm', 'onfsm', 'mc']))
    n = draw(st.one_of(ints(1, 8), ints(9, 25))) if t != 'mc' else draw(ints(3, 20))
    return {'t': t, 'n': n, 'k': draw(ints(1 if n < 9 else 2, 4)), 'o': draw(ints(2, 6)), 'p': draw(st.sampled_from([0, 0.33, 1])), 'custom': draw(ints(0, 3)) == 0, 'seed': draw(ints(0, 10 ** 6))}


def check_nd(case):
    t, n, k, o = case['t'], case['n'], case['k'], case['o']
    probs = None
    if case['custom'] and t in ('mdp', 'smm'):
        # only as many outcomes as there are certainly outputs
        m = min(n, o)
        probs = [p for p in [(1.,), (0.25, 0.75), (0.5, 0.5), (0.2, 0.3, 0.5), (0.1, 0.2, 0.3, 0.4)] if len(p) <= m]
    given = list(probs) if probs else None
    gen = {'mdp': lambda: generate_random_mdp(n, k, o, possible_probabilities=probs), 'smm': lambda: generate_random_smm(n, k, o, possible_probabilities=probs),
           'onfsm': lambda: generate_random_ONFSM(n, k, o, multiple_out_prob=case['p']), 'mc': lambda: generate_random_markov_chain(n)}[t]
    model, _ = twice(case, gen, t)
    expect(probs == given, "the caller's probabilities were modified")
    expect(type(model) is {'mdp': A.Mdp, 'smm': A.StochasticMealyMachine, 'onfsm': A.Onfsm, 'mc': A.MarkovChain}[t], 'wrong kind of model')
    states, outs, tr, init = read_nd(model, t)
    expect(len(states) == n, 'wrong number of states', got=len(states), requested=n)
    expect(len({s.state_id for s in states}) == n, 'state ids are not unique')
    al = [None] if t == 'mc' else [f'i{i + 1}' for i in range(k)]
    names = {f'o{i + 1}' for i in range(o)}
    targets = set()
    for i, row in enumerate(tr):
        if t == 'mc' and i == n - 1:
            expect(not row, 'the last state of a generated chain has no successor')
            continue
        expect(set(row) == set(al), 'a state is not input complete', state=i, inputs=sorted(map(str, row)))
        for a, lst in row.items():
            os = [c[0] for c in lst]
            expect(len(os) == len(set(os)), 'an output does not determine the successor', state=i, input=a, outputs=os)
            expect(t == 'mc' or set(os) <= names, 'an output that was not requested', outputs=os)
            targets |= {c[1] for c in lst}
            if t != 'onfsm':
                expect(abs(sum(c[2] for c in lst) - 1) < 1e-9 and all(c[2] > 0 for c in lst), 'a distribution does not sum to one', probabilities=[c[2] for c in lst])
                if probs:
                    expect(any(sorted(p) == sorted(c[2] for c in lst) for p in probs), 'a distribution that was not offered', probabilities=[c[2] for c in lst])
            elif case['p'] == 0:
                expect(len(lst) == 1, 'several outputs although their probability is 0')
            elif case['p'] == 1:
                expect(len(lst) >= 2, 'one output although several were requested everywhere')
            expect(len(lst) <= o, 'more outputs than requested')
    if t != 'onfsm':
        seen, todo = {init}, [init]
        while todo:
            for lst in tr[todo.pop()].values():
                for c in lst:
                    if c[1] not in seen:
                        seen.add(c[1])
                        todo.append(c[1])
        expect(len(seen) == n, 'not every state is reachable', reachable=len(seen), requested=n)
    else:
        expect(len(targets) == n, 'a state that no transition leads to', targets=len(targets), requested=n)
    branching = any(len(l) > 1 for row in tr for l in row.values())
    return n > 1, [t, 'branching' if branching else 'plain', 'custom' if probs else '']


@st.composite
def vp_cases(draw):
    return {'n': draw(ints(1, 6)), 'i': draw(ints(0, 3)), 'c': draw(ints(0, 3)), 'r': draw(ints(0, 3)) if draw(ints(0, 9)) else draw(ints(4, 6)), 'acc': draw(st.sampled_from([0, 0.4, 1])), 'ret': draw(st.sampled_from([0, 0.5, 1])), 'seed': draw(ints(0, 10 ** 6))}


def check_vp(case):
    n = case['n']
    I, C, R = [f'i{i}' for i in range(case['i'])], [f'c{i}' for i in range(case['c'])], [f'r{i}' for i in range(case['r'])]
    model, _ = twice(case, lambda: generate_random_sevpa(n, case['i'], case['c'], case['r'], case['acc'], case['ret']), 'sevpa')
    expect(type(model) is A.Sevpa, 'wrong kind of model')
    expect(len(model.states) == n and len({s.state_id for s in model.states}) == n, 'wrong number of states', got=len(model.states))
    expect(any(s is model.initial_state for s in model.states), 'the initial state is not in the model')
    ids = {s.state_id: s for s in model.states}
    for s in model.states:
        if case['acc'] in (0, 1):
            expect(s.is_accepting == bool(case['acc']), 'acceptance differs from the requested probability')
        inner, pops = [], []
        for a, lst in s.transitions.items():
            for tr in lst:
                expect(tr.letter == a and ids.get(tr.target_state.state_id) is tr.target_state, 'a malformed transition')
                if tr.action == 'pop':
                    pops.append((a, tuple(tr.stack_guard)))
                else:
                    inner.append(a)
        expect(sorted(inner) == I, 'not exactly one transition for every internal letter', state=s.state_id, letters=sorted(inner))
        expect(sorted(pops) == sorted((r, (q, c)) for r in R for q in ids for c in C), 'not exactly one transition for every return letter and stack symbol', state=s.state_id)
    return n > 1 and (bool(I) or bool(R and C)), [f'i{len(I)}', f'c{len(C)}', f'r{len(R)}']


SUBS = [Sub('det', det_cases(), check_det, quick=1500),
        Sub('nd', nd_cases(), check_nd, quick=1500),
        Sub('sevpa', vp_cases(), check_vp, quick=1500)]
