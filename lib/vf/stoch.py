"""Reference nondeterministic / stochastic machines, independent of aalpy.

spec: {"t": onfsm|smm|mdp|mc|ndmoore, "n", "k", "out": state outputs (mdp, mc, ndmoore), "tr": [s][i] -> [[out, target, weight], ...], "sk", "ok", "init": 0}
For mdp/mc/ndmoore the transition output equals the output of the target.  mc has k = 1 and a single pseudo input.
"""
import random as _random
from fractions import Fraction

from hypothesis import strategies as st

from aalpy.base import SUL

from vf.core import Violation, expect, HarnessError
from vf.gen import ints
from vf.ref import sym, osym, SYM_KINDS


class Nd:
    def __init__(self, spec):
        self.t, self.n, self.k, self.init = spec['t'], spec['n'], spec['k'], spec.get('init', 0)
        self.al = [sym(spec['sk'], i) for i in range(self.k)]
        self.idx = {a: i for i, a in enumerate(self.al)}
        self.o = lambda x: osym(spec['ok'], x)
        self.outs = [self.o(x) for x in spec['out']] if spec.get('out') is not None else None
        self.tr = []
        for row in spec['tr']:
            r = []
            for lst in row:
                tot = sum(w for _, _, w in lst)
                r.append([(self.outs[t] if self.outs is not None else self.o(o), t, Fraction(w, tot)) for o, t, w in lst])
            self.tr.append(r)

    def dist(self, s, i):
        return self.tr[s][i]

    def reachable(self):
        seen, st_ = [self.init], {self.init}
        for s in seen:
            for lst in self.tr[s]:
                for _, t, w in lst:
                    if w and t not in st_:
                        st_.add(t)
                        seen.append(t)
        return seen

    def succ(self, states, i, out):
        """set of states reachable with output"""
        return frozenset(t for s in states for o, t, w in self.tr[s][i] if o == out and w)

    def outputs(self, states, i):
        r = []
        for s in states:
            for o, t, w in self.tr[s][i]:
                if w and o not in r:
                    r.append(o)
        return r


@st.composite
def nd(draw, t, max_n=4, max_k=2, min_k=1, complete=True, sks=SYM_KINDS, oks=('str', 'int', 'tuple', 'empty', 'mixed', 'text'), zero=False, max_branch=3, n_out=4, observable=True, det_prob=0, weights=(1, 1, 2, 3, 7), twins=0, big=0):
    shape = draw(ints(0, 99)) if big else 99
    n = draw(ints(8, 13) if shape < big else ints(1, max_n))
    k = 1 if t == 'mc' else draw(ints(9, 11)) if shape == big and max_k > min_k else draw(ints(min_k, max_k))
    spec = {'t': t, 'n': n, 'k': k, 'sk': draw(st.sampled_from(list(sks))), 'ok': draw(st.sampled_from(list(oks))), 'init': 0}
    state_out = t in ('mdp', 'mc', 'ndmoore')
    spec['out'] = [draw(ints(0, n_out - 1)) for _ in range(n)] if state_out else None
    if state_out and n > 1 and len(set(spec['out'])) == 1 and draw(st.booleans()):
        spec['out'][draw(ints(0, n - 1))] = (spec['out'][0] + 1) % n_out
    det = det_prob and draw(ints(0, 99)) < det_prob

    def cell(must=None):
        lst, used = [], set()
        m = 1 if det else draw(ints(1, 7 if shape < big else max_branch))
        targets = ([must] if must is not None else []) + [draw(ints(0, n - 1)) for _ in range(m)]
        if det:
            targets = targets[:1]
        for x in targets:
            o = spec['out'][x] if state_out else draw(ints(0, n_out - 1))
            key = x if (t == 'ndmoore' or (not observable and state_out)) else (o if observable else (o, x))
            if key in used and not (twins and draw(ints(0, 99)) < twins):
                continue
            used.add(key)
            lst.append([o, x, 1 if t in ('onfsm', 'ndmoore') else draw(st.sampled_from(weights))])
        if zero and not t == 'onfsm' and draw(ints(0, 5)) == 0 and len(lst) > 1:
            lst[draw(ints(0, len(lst) - 1))][2] = 0
        return lst

    free = [(0, i) for i in range(k)]
    must = {}
    for s in range(1, n):
        p, i = free.pop(draw(ints(0, len(free) - 1)))
        must[(p, i)] = s
        free.extend((s, x) for x in range(k))
    spec['tr'] = [[cell(must.get((s, i))) for i in range(k)] for s in range(n)]
    if not complete:
        for s in range(n):
            for i in range(k):
                if (s, i) not in must and draw(ints(0, 3)) == 0:
                    spec['tr'][s][i] = []
    return spec


@st.composite
def altered(draw, spec, n=(0, 1, 2, 3)):
    """a copy of an observable spec with outcomes removed or redirected"""
    hyp = dict(spec, tr=[[[list(b) for b in c] for c in row] for row in spec['tr']])
    state_out = spec['t'] in ('mdp', 'mc', 'ndmoore')
    for _ in range(draw(st.sampled_from(n))):
        c = hyp['tr'][draw(ints(0, spec['n'] - 1))][draw(ints(0, spec['k'] - 1))]
        j = draw(ints(0, len(c) - 1))
        if len(c) > 1 and draw(st.booleans()):
            del c[j]
        else:
            x = draw(ints(0, spec['n'] - 1))
            if not state_out:
                c[j][1] = x
            elif all(b[0] != spec['out'][x] for i, b in enumerate(c) if i != j):
                c[j][:2] = [spec['out'][x], x]
    return hyp


def build_nd(spec, fmt='q{}'):
    """(model, states) as aalpy objects; probabilities are floats w/total"""
    from aalpy import automata as A
    m = Nd(spec)
    t = spec['t']
    cls, scls = {'onfsm': (A.Onfsm, A.OnfsmState), 'smm': (A.StochasticMealyMachine, A.StochasticMealyState), 'mdp': (A.Mdp, A.MdpState), 'mc': (A.MarkovChain, A.McState),
                 'ndmoore': (A.NDMooreMachine, A.NDMooreState)}[t]
    states = [scls(fmt.format(i)) if t in ('onfsm', 'smm') else scls(fmt.format(i), m.outs[i]) for i in range(m.n)]
    for s in range(m.n):
        for i in range(m.k):
            for o, x, w in m.tr[s][i]:
                if t == 'onfsm':
                    states[s].transitions[m.al[i]].append((o, states[x]))
                elif t == 'smm':
                    states[s].transitions[m.al[i]].append((states[x], o, float(w)))
                elif t == 'mdp':
                    states[s].transitions[m.al[i]].append((states[x], float(w)))
                elif t == 'mc':
                    states[s].transitions.append((states[x], float(w)))
                else:
                    states[s].transitions[m.al[i]].append(states[x])
    return cls(states[m.init], list(states)), states


def read_nd(model, t, al=None):
    """[(out, target index, prob)] tables of an aalpy model, reachable part first = model.states order; returns (states, outs, tr)"""
    states = list(model.states)
    num = {id(s): i for i, s in enumerate(states)}
    expect(len(num) == len(states), 'a state is listed twice')
    expect(id(model.initial_state) in num, 'the initial state is not among the states')
    tr = []
    for s in states:
        row = {}
        cells = {None: s.transitions} if t == 'mc' else dict(s.transitions)
        for a, lst in cells.items():
            c = []
            for x in lst:
                if t == 'onfsm':
                    o, tgt, p = x[0], x[1], None
                elif t == 'smm':
                    tgt, o, p = x
                elif t in ('mdp', 'mc'):
                    tgt, p = x
                    o = tgt.output
                else:
                    tgt, p = x, None
                    o = tgt.output
                expect(id(tgt) in num, 'a transition leads to a state that is not in the model')
                c.append((o, num[id(tgt)], p))
            if c:
                row[a] = c
        tr.append(row)
    outs = [getattr(s, 'output', None) for s in states] if t in ('mdp', 'mc', 'ndmoore') else None
    return states, outs, tr, num[id(model.initial_state)]


class NdSUL(SUL):
    """simulates a spec; fair = every cell cycles through its outcomes (all outcomes observed after len(cell) visits per system state)"""

    def __init__(self, spec, seed=0, fair=False, max_steps=2_000_000):
        super().__init__()
        self.m = Nd(spec)
        self.rng = _random.Random(seed)
        self.fair = fair
        self.s = None
        self.resets = self.steps = 0
        self.traces = []
        self.cur = None
        self.count = {}
        self.max_steps = max_steps
        self.record = True

    def pre(self):
        self.resets += 1
        self.s = self.m.init
        self.cur = []
        if self.record:
            self.traces.append(self.cur)
        if self.resets > self.max_steps:
            raise Violation(f'more than {self.max_steps} resets')

    def post(self):
        pass

    def step(self, letter=None):
        expect(self.s is not None, 'system stepped before reset')
        m = self.m
        if letter is None and m.t != 'mc':
            expect(m.outs is not None, 'system without state outputs asked for its current output')
            return m.outs[self.s]
        if m.t == 'mc':
            i = 0
        else:
            expect(letter in m.idx, f'unknown input {letter!r}')
            i = m.idx[letter]
        self.steps += 1
        if self.steps > self.max_steps:
            raise Violation(f'more than {self.max_steps} steps')
        cell = m.tr[self.s][i]
        if not cell:
            raise HarnessError('incomplete system')
        if self.fair:
            # outcome chosen round robin per input word prefix, so that repetition of a word shows every outcome
            key = (self.s, i)
            c = self.count.get(key, 0)
            self.count[key] = c + 1
            o, t, _ = cell[c % len(cell)]
        else:
            x = self.rng.random()
            for o, t, w in cell:
                x -= float(w)
                if x <= 0:
                    break
        self.s = t
        self.cur.append((letter, o))
        return o
