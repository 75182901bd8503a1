import math
import random
from fractions import Fraction

from hypothesis import strategies as st

from aalpy.SULs import AutomatonSUL
from aalpy.utils import statistical_model_checking

from vf import gen
from vf.core import Sub, expect
from vf.gen import ints
from vf.ref import Det, build
from vf.stoch import nd, Nd, build_nd
from vf.table import table

PROPERTY = 'C20'
RULE = ('random ONFSM, MDP, stochastic Mealy machines, Markov chains and non-deterministic Moore machines (also with zero-probability edges, skewed weights, non-observable branching and falsy outputs); operation '
        'histories against the transition table; empirical frequencies of a cell against its distribution; statistical model checking against exact dynamic programming; non-trivial: a branching cell is exercised')
ASSUMPTIONS = ['frequencies are compared with a Chernoff bound: a correct sampler violates it with probability below 1e-11 per comparison', 'distributions sum to one up to rounding']

T = ('onfsm', 'smm', 'mdp', 'mc', 'ndmoore')


@st.composite
def machine(draw, **kw):
    t = draw(st.sampled_from(kw.pop('types', T)))
    spec = draw(nd(t, max_n=5, big=6, oks=('str', 'int', 'tuple', 'empty', 'bool', 'mixed', 'text'), zero=t not in ('onfsm', 'ndmoore') and draw(st.booleans()), observable=draw(st.booleans()), n_out=2 if draw(st.booleans()) else 4, **kw))
    if spec['ok'] == 'bool':
        spec['tr'] = [[[[x[0] % 2] + x[1:] for x in c] for c in row] for row in spec['tr']]
        if spec['out'] is not None:
            spec['out'] = [x % 2 for x in spec['out']]
    spec['init'] = draw(ints(0, spec['n'] - 1)) if draw(st.booleans()) else 0
    return spec


@st.composite
def hist_cases(draw):
    spec = draw(machine(weights=draw(st.sampled_from([(1, 1, 2, 3, 7), (1, 3, 400, 5000)]))))
    return {'spec': spec, 'ops': [[draw(st.sampled_from(['step', 'step', 'step', 'to', 'to', 'to_bad', 'reset', 'none', 'query', 'exec'])), draw(ints(0, 9)), draw(ints(0, 9)),
                                   draw(st.lists(ints(0, spec['k'] - 1), min_size=1, max_size=5))] for _ in range(draw(ints(2, 14)))]}


def check_hist(case):
    spec = case['spec']
    m = Nd(spec)
    t = m.t
    model, states = build_nd(spec)
    num = {id(s): i for i, s in enumerate(states)}
    sul = AutomatonSUL(model)
    before = table(model, t)
    cur = m.init
    branching = False

    def cell(s, i):
        return [(o, x) for o, x, w in m.tr[s][i] if w]

    def moved(o, i, what):
        """o was produced for input i: the new state must be a target for it"""
        nonlocal cur, branching
        new = num.get(id(model.current_state))
        expect(new is not None, 'the machine moved to an object that is not one of its states')
        branching |= len(cell(cur, i)) > 1
        expect((o, new) in cell(cur, i), f'{what}: no such transition', state=cur, input=i, output=o, target=new)
        cur = new

    def step(a, via=None):
        via = via or model.step
        return via() if t == 'mc' and via == model.step else via(a)

    for op, x, y, w in case['ops']:
        i = x % m.k
        a = m.al[i] if t != 'mc' else None
        c = cell(cur, i)
        if op == 'reset':
            model.reset_to_initial()
            cur = m.init
        elif op == 'none':
            if t == 'mdp':
                o = model.step(None)
                expect(o == m.outs[cur], 'wrong current output', got=o)
        elif op == 'step':
            if not c:
                continue
            moved(step(a), i, 'step')
        elif op == 'exec':
            q = y % m.n
            if t == 'mc' or any(not cell(s, j) for s in range(m.n) for j in w):
                continue
            model.current_state = states[q]
            cur = q
            for j in w:
                moved(model.step(m.al[j]), j, 'step')
        elif op == 'query':
            if any(not cell(s, j) for s in range(m.n) for j in (w if t != 'mc' else [0])):
                continue
            o = sul.query(tuple(m.al[j] for j in w))
            S = frozenset((m.init,))
            for j, b in zip(w, o):
                S = m.succ(S, 0 if t == 'mc' else j, b)
            expect(len(o) == len(w) and S, 'the answer of a query is not possible', word=w, got=o)
            cur = num[id(model.current_state)]
            expect(cur in S, 'the machine is in a state that the outputs do not lead to', word=w, outputs=o, state=cur)
        elif t == 'ndmoore':
            continue
        elif op == 'to':
            if not c:
                continue
            o, _ = c[y % len(c)]
            targets = {p for q, p in c if q == o}
            zero = {p for q, p, wt in m.tr[cur][i] if q == o and not wt}
            if zero:
                continue  # zero-probability edge with the same output
            r = model.step_to(o) if t == 'mc' else model.step_to(a, o)
            expect(r == o, 'following a possible output does not confirm it', output=o, got=r)
            new = num.get(id(model.current_state))
            expect(new in targets, 'following an output leads elsewhere', state=cur, input=i, output=o, got=new, expected=sorted(targets))
            cur = new
        else:
            bad = next(b for b in (f'never{y}', 'nothing') if True)
            r = model.step_to(bad) if t == 'mc' else model.step_to(a, bad)
            expect(r is None, 'an impossible output is confirmed', got=r)
        expect(model.current_state is states[cur], 'the current state changed without reason', op=op, expected=cur)
        if t == 'onfsm':
            expect(list(model.outputs_on_input(a)) == [o for o, _, _ in m.tr[cur][i]], 'wrong possible outputs', state=cur, input=i)
            for o, p, _ in m.tr[cur][i]:
                r = states[cur].get_transition(a, o)
                expect(isinstance(r, tuple) and r[0] == o and (o, num[id(r[1])]) in cell(cur, i), 'wrong transition for an output', state=cur, input=i, output=o, got=r)
            expect(list(states[cur].get_transition(a)) == list(states[cur].transitions[a]), 'wrong transitions of an input')
            expect(states[cur].get_transition(a, 'never') is None, 'a transition for an impossible output')
    expect(table(model, t) == before, 'executing the machine changed it')
    return branching, [t, 'zero' if any(w == 0 for row in spec['tr'] for c in row for _, _, w in c) else 'plain']


# ------------------------------------------------------------------ frequencies

def kl(q, p):
    """Kullback-Leibler divergence of two Bernoulli distributions"""
    r = 0.0
    for a, b in ((q, p), (1 - q, 1 - p)):
        if a > 0:
            if b <= 0:
                return float('inf')
            r += a * math.log(a / b)
    return r


def fits(count, n, p):
    return n * kl(count / n, float(p)) <= 26


@st.composite
def freq_cases(draw):
    spec = draw(machine(max_branch=4))
    s, i = draw(ints(0, spec['n'] - 1)), draw(ints(0, spec['k'] - 1))
    # prefer branching cells
    br = [(a, b) for a in range(spec['n']) for b in range(spec['k']) if len(spec['tr'][a][b]) > 1]
    if br:
        s, i = draw(st.sampled_from(br))
    return {'spec': spec, 's': s, 'i': i, 'n': draw(st.sampled_from([500, 1500])), 'seed': draw(ints(0, 10 ** 6)), 'walk': draw(ints(0, 3)) == 0}


def check_freq(case):
    spec = case['spec']
    m = Nd(spec)
    t = m.t
    model, states = build_nd(spec)
    num = {id(s): i for i, s in enumerate(states)}
    random.seed(case['seed'])
    cnt, tot = {}, {}
    if case['walk']:
        # one long walk, all cells at once
        model.reset_to_initial()
        cur = m.init
        rng = random.Random(case['seed'] + 77_000_001)
        for _ in range(case['n']):
            i = rng.randrange(m.k)
            o = model.step() if t == 'mc' else model.step(m.al[i])
            new = num[id(model.current_state)]
            cnt[(cur, i, o, new)] = cnt.get((cur, i, o, new), 0) + 1
            tot[(cur, i)] = tot.get((cur, i), 0) + 1
            cur = new
    else:
        s, i = case['s'], case['i']
        for _ in range(case['n']):
            model.current_state = states[s]
            o = model.step() if t == 'mc' else model.step(m.al[i])
            new = num[id(model.current_state)]
            cnt[(s, i, o, new)] = cnt.get((s, i, o, new), 0) + 1
            tot[(s, i)] = tot.get((s, i), 0) + 1
    for (s, i, o, x) in cnt:
        expect(any(o == o2 and x == x2 and w for o2, x2, w in m.tr[s][i]), 'a step that has no transition of positive probability', state=s, input=i, output=o, target=x)
    branching = False
    for (s, i), n in tot.items():
        want = {}
        for o, x, w in m.tr[s][i]:
            want[(o, x)] = want.get((o, x), 0) + w
        branching |= len(want) > 1
        for (o, x), p in want.items():
            c = cnt.get((s, i, o, x), 0)
            expect(fits(c, n, p), 'a transition is not taken with its probability', state=s, input=i, output=o, target=x, probability=float(p), taken=c, of=n)
    return branching, [t, 'walk' if case['walk'] else 'cell']


# ------------------------------------------------------------------ statistical model checking

@st.composite
def smc_cases(draw):
    if draw(ints(0, 4)) == 0:
        spec = draw(gen.det(max_n=5, max_k=3, types=('moore', 'mealy', 'dfa'), sks=('str', 'int'), oks=('str', 'int')))
        outs = [0, 1, 2]
    else:
        spec = draw(machine(types=('mdp', 'smm', 'onfsm', 'ndmoore'), max_branch=3))
        outs = [0, 1, 2, 3]
    if draw(ints(0, 9)):
        # mostly outputs that do occur
        seen = sorted({o for r in spec['tr'] for c in r for o, *_ in c}) if spec['t'] in ('mdp', 'smm', 'onfsm', 'ndmoore') else outs
        goals = [seen[draw(ints(0, len(seen) - 1))] for _ in range(draw(st.sampled_from([1, 1, 1, 2])))]
    else:
        goals = draw(st.lists(st.sampled_from(outs), max_size=2, unique=True))
    return {'spec': spec, 'goals': goals, 'steps': draw(ints(1, 6)), 'n': 400, 'seed': draw(ints(0, 10 ** 6))}


def check_smc(case):
    spec = case['spec']
    from vf.ref import osym
    if spec['t'] in ('dfa', 'moore', 'mealy'):
        d = Det(spec)
        model, _ = build(spec)
        k, n, init = d.k, d.n, d.init
        rows = [[[(d.o(s, i), d.tr[s][i], Fraction(1))] for i in range(k)] for s in range(n)]
        ok = 'bool' if spec['t'] == 'dfa' else spec['ok']
    else:
        m = Nd(spec)
        model, _ = build_nd(spec)
        k, n, init, rows, ok = m.k, m.n, m.init, m.tr, spec['ok']
    goals = {osym(ok, g % 2 if ok == 'bool' else g) for g in case['goals']}
    p = [Fraction(0)] * n
    for _ in range(case['steps']):
        p = [sum((w * (1 if o in goals else p[x])) for i in range(k) for o, x, w in rows[s][i]) / k for s in range(n)]
    exact = p[init]
    random.seed(case['seed'])
    r = statistical_model_checking(model, goals, case['steps'], num_tests=case['n'])
    c = round(r * case['n'])
    expect(0 <= r <= 1 and abs(c - r * case['n']) < 1e-6, 'the estimate is not a relative frequency of the tests', got=r)
    expect(fits(c, case['n'], exact), 'the estimate does not agree with the exact probability', got=r, exact=float(exact))
    return 0 < exact < 1, [spec['t'], 'inner' if 0 < exact < 1 else 'edge']


SUBS = [Sub('history', hist_cases(), check_hist, quick=9000), Sub('frequency', freq_cases(), check_freq, quick=3500), Sub('model_checking', smc_cases(), check_smc, quick=1600)]
