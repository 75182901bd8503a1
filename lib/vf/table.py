"""plain tables read from / compared between aalpy models of every type; random construction of every type"""
import random

from hypothesis import strategies as st

from aalpy import automata as A

from vf import gen
from vf.core import Violation, expect, HarnessError
from vf.gen import ints
from vf.ref import Det, build
from vf.stoch import nd, build_nd
from vf.vpl import vp, letters, DEAD

DET = ('dfa', 'moore', 'mealy')
ND = ('onfsm', 'smm', 'mdp', 'mc', 'ndmoore')
VP = ('sevpa', 'vpa')
CLS = {'dfa': A.Dfa, 'moore': A.MooreMachine, 'mealy': A.MealyMachine, 'onfsm': A.Onfsm, 'smm': A.StochasticMealyMachine, 'mdp': A.Mdp, 'mc': A.MarkovChain,
       'ndmoore': A.NDMooreMachine, 'sevpa': A.Sevpa, 'vpa': A.Vpa}


def K(x):
    """type-faithful key of a symbol (1, True, 1.0 and '1' are different)"""
    if isinstance(x, (tuple, list)):
        return (type(x).__name__, tuple(K(y) for y in x))
    return (type(x).__name__, x)


def table(model, t, ignore=('ErrorSinkState',)):
    """(initial id, {id: (state data, {input key: sorted transition list})})"""
    expect(type(model) is CLS[t], f'the model is a {type(model).__name__} and not a {CLS[t].__name__}')
    states = {}
    ids = {id(s): s.state_id for s in model.states}
    expect(id(model.initial_state) in ids, 'the initial state is not one of the states')

    def tid(x):
        expect(id(x) in ids or x.state_id in ignore, f'transition to an object that is not a state of the model: {x.state_id!r}')
        return x.state_id

    for s in model.states:
        if s.state_id in ignore:
            continue
        expect(s.state_id not in states, f'state id {s.state_id!r} occurs twice')
        data = {'dfa': lambda: bool(s.is_accepting), 'sevpa': lambda: bool(s.is_accepting), 'vpa': lambda: bool(s.is_accepting), 'moore': lambda: K(s.output),
                'ndmoore': lambda: K(s.output), 'mdp': lambda: K(s.output), 'mc': lambda: K(s.output)}.get(t, lambda: None)()
        tr = {}
        if t == 'mc':
            tr[None] = sorted((tid(x), p) for x, p in s.transitions)
        else:
            for a, x in s.transitions.items():
                if t in ('dfa', 'moore'):
                    v = tid(x)
                elif t == 'mealy':
                    v = (tid(x), K(s.output_fun[a]))
                elif t == 'onfsm':
                    v = sorted(((tid(y), K(o)) for o, y in x), key=repr)
                elif t == 'smm':
                    v = sorted(((tid(y), K(o), p) for y, o, p in x), key=repr)
                elif t == 'mdp':
                    v = sorted((tid(y), p) for y, p in x)
                elif t == 'ndmoore':
                    v = sorted(tid(y) for y in x)
                else:
                    v = sorted(((tid(y.target_state), K(y.letter), y.action, K(y.stack_guard)) for y in x), key=repr)
                if v != []:
                    tr[K(a)] = v
        states[s.state_id] = (data, tr)
    return model.initial_state.state_id, states


def rounded(tab, t, digits):
    """probabilities replaced by their value rounded to some digits"""
    if t not in ('mc', 'mdp', 'smm'):
        return tab
    return tab[0], {s: (d, {a: [x[:-1] + (round(x[-1], digits),) for x in v] for a, v in tr.items()}) for s, (d, tr) in tab[1].items()}


def build_vp(spec, t, fmt='q{}', init=0):
    """aalpy Vpa / Sevpa of a vpl spec (sevpa: every call goes to the initial state, stack symbols are (state, call letter))"""
    I, C, R = letters(spec)
    n = spec['n']
    if t == 'vpa':
        states = [A.VpaState(fmt.format(i), bool(spec['acc'][i])) for i in range(n)]
        T = lambda s, x, a, act, g=None: A.VpaTransition(states[s], states[x], a, act, g)
    else:
        states = [A.SevpaState(fmt.format(i), bool(spec['acc'][i])) for i in range(n)]
        T = lambda s, x, a, act, g=None: A.SevpaTransition(states[x], a, act, g)
    for s in range(n):
        for i, x in enumerate(spec['int'][s]):
            if x != DEAD:
                states[s].transitions[I[i]].append(T(s, x, I[i], None))
        if t == 'vpa':
            for c, (x, g) in enumerate(spec['call'][s]):
                if x != DEAD:
                    states[s].transitions[C[c]].append(T(s, x, C[c], 'push', spec.get('gsym', C)[g] if g < len(C) else f'g{g}'))
        for r, row in enumerate(spec['ret'][s]):
            if t == 'vpa':
                for g, x in enumerate(row):
                    if x != DEAD:
                        states[s].transitions[R[r]].append(T(s, x, R[r], 'pop', C[g] if g < len(C) else f'g{g}'))
            else:
                for p in range(n):
                    for c in range(len(C)):
                        x = row[(p * len(C) + c) % len(row)]
                        if x != DEAD:
                            x = (x + spec.get('mix', 0) * p) % n
                            states[s].transitions[R[r]].append(T(s, x, R[r], 'pop', (fmt.format(p), C[c])))
    return (A.Vpa if t == 'vpa' else A.Sevpa)(states[init], states), states


@st.composite
def models(draw, types, sks, oks, partial=True, zero=False):
    t = draw(st.sampled_from(list(types)))
    if t in DET:
        spec = draw(gen.det_mix(types=(t,), big=8, big_n=14, big_k=3, wide=8, max_n=6, max_k=3, sks=sks, oks=oks))
        drop = [[draw(ints(0, spec['n'] - 1)), draw(ints(0, spec['k'] - 1))] for _ in range(draw(ints(0, 3)))] if partial and draw(ints(0, 2)) == 0 else []
        return {'t': t, 'spec': spec, 'drop': drop}
    if t in ND:
        n, k, o, b = draw(st.sampled_from([(5, 2, 4, 3)] * 14 + [(14, 2, 4, 3), (3, 11, 11, 3), (8, 2, 8, 8)]))
        spec = draw(nd(t, max_n=n, max_k=k, n_out=o, max_branch=b, complete=not (partial and draw(ints(0, 2)) == 0), sks=sks, oks=[o for o in oks if o != 'bool'] or ['str'], twins=draw(st.sampled_from([0, 0, 40])), observable=draw(st.booleans())))
        return {'t': t, 'spec': spec, 'init': draw(ints(0, spec['n'] - 1)) if draw(st.booleans()) else 0}
    spec = draw(vp(max_n=4, max_i=2))
    if t == 'sevpa':
        spec['mix'] = draw(ints(0, 2))
    return {'t': t, 'spec': spec, 'init': draw(ints(0, spec['n'] - 1)) if draw(st.booleans()) else 0}


def make(m, fmt='q{}'):
    t, spec = m['t'], m['spec']
    if t in DET:
        model, states = build(spec)
        for i, s in enumerate(states):
            s.state_id = fmt.format(i)
        al = Det(spec).al
        for q, i in m.get('drop', []):
            states[q].transitions.pop(al[i], None)
            if t == 'mealy':
                states[q].output_fun.pop(al[i], None)
    elif t in ND:
        spec = dict(spec, init=m.get('init', 0))
        model, states = build_nd(spec, fmt)
    else:
        model, states = build_vp(spec, t, fmt, m.get('init', 0))
    return model, states
