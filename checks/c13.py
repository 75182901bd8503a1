import copy as _copy
import pickle

from hypothesis import strategies as st

from vf.core import Sub, expect
from vf.gen import ints
from vf.ref import Det, ReadDet, first_difference
from vf.table import models, make, table, CLS, VP

PROPERTY = 'C13'
RULE = ('random DFA, Moore, Mealy, MDP, SMM, non-deterministic Moore, SEVPA and VPA models, complete and partial, with unreachable states, any initial state, preset or missing access '
        'words and a re-assigned initial state; copied by copy(), pickle, deepcopy or the state table, one of the two mutated afterwards; non-trivial: at least two states')
ASSUMPTIONS = ['state ids are unique', 'ONFSM and Markov chains do not implement the state table (documented as not implemented)']
TYPES = ('dfa', 'moore', 'mealy', 'smm', 'mdp', 'ndmoore', 'sevpa', 'vpa')


@st.composite
def cases(draw):
    m = draw(models(TYPES, sks=('str', 'int', 'tuple', 'mixed', 'neg', 'text'), oks=('str', 'int', 'bool', 'tuple', 'empty', 'mixed', 'text')))
    return {'m': m, 'how': draw(st.sampled_from(['copy', 'pickle', 'deepcopy', 'setup', 'twice'])), 'fmt': draw(st.sampled_from(['q{}', '{}', 's{}'])),
            'prefix': draw(st.lists(ints(-1, 3), min_size=6, max_size=6)), 'reroot': draw(ints(0, 5)) if draw(ints(0, 4)) == 0 else None,
            'mut': [draw(ints(0, 9)), draw(ints(0, 9)), draw(ints(0, 9))], 'side': draw(st.booleans()), 'used': draw(st.booleans())}


def mutate(model, t, mut):
    """change one thing in place; True if something changed"""
    s = model.states[mut[0] % len(model.states)]
    o = model.states[mut[1] % len(model.states)]
    if t in ('dfa', 'sevpa', 'vpa') and mut[2] % 2:
        s.is_accepting = not s.is_accepting
        return
    if t in ('moore', 'mdp', 'ndmoore') and mut[2] % 2:
        s.output = 'changed'
        return
    keys = [a for a in s.transitions if s.transitions[a] or t in ('dfa', 'moore', 'mealy')]
    if not keys:
        s.transitions['new'] = o if t in ('dfa', 'moore', 'mealy') else []
        return
    a = keys[mut[2] % len(keys)]
    if t in ('dfa', 'moore'):
        s.transitions[a] = o
        s.transitions['new'] = o
    elif t == 'mealy':
        s.output_fun[a] = 'changed'
        s.transitions[a] = o
    elif mut[2] % 3 == 0:
        s.transitions[a].pop()
    elif t in ('smm', 'mdp', 'ndmoore'):
        s.transitions[a].append(s.transitions[a][0])
    else:
        s.transitions[a][0].target_state = o
        s.transitions[a][0].letter = 'changed'


def check(case):
    m, t = case['m'], case['m']['t']
    model, states = make(m, case['fmt'])
    if t in ('dfa', 'moore', 'mealy'):
        if case['reroot'] is not None:
            model.compute_prefixes()
            model.initial_state = model.states[case['reroot'] % len(model.states)]
        elif any(p >= 0 for p in case['prefix']):
            # access words as learners set them: correct but not necessarily shortest
            model.compute_prefixes()
            for s, p in zip(states, case['prefix']):
                if p > 0 and s.prefix and s is not model.initial_state:
                    for a, x in s.transitions.items():
                        if x is s:
                            s.prefix = tuple(s.prefix) + (a,) * p
                            break
    if case['used']:
        model.reset_to_initial()
        model.current_state = states[-1]
    before = table(model, t)

    def dup(x):
        if case['how'] in ('copy', 'twice'):
            return x.copy()
        if case['how'] == 'pickle':
            return pickle.loads(pickle.dumps(x))
        if case['how'] == 'deepcopy':
            return _copy.deepcopy(x)
        setup = x.to_state_setup()
        if t in VP:
            return CLS[t].from_state_setup(setup, init_state_id=x.initial_state.state_id)
        return CLS[t].from_state_setup(setup)

    other = dup(model)
    if case['how'] == 'twice':
        other = dup(other)
    expect(table(model, t) == before, 'copying changed the original')
    got = table(other, t)
    expect(got[0] == before[0], f'initial state {before[0]!r} became {got[0]!r}')
    expect(sorted(got[1]) == sorted(before[1]), 'the states differ', original=sorted(before[1]), copy=sorted(got[1]))
    for s in before[1]:
        expect(got[1][s] == before[1][s], f'state {s} differs', original=repr(before[1][s]), copy=repr(got[1][s]))
    own = {id(s) for s in model.states if s.state_id != 'ErrorSinkState'}
    expect(not any(id(s) in own for s in other.states), 'the copy shares a state object with the original')
    if t in ('dfa', 'moore', 'mealy') and not m['drop'] and case['reroot'] is None:
        d = Det(m['spec'])
        expect(first_difference(d, ReadDet(other, t, d.al)) is None, 'the copy behaves differently')
    a, b = (model, other) if case['side'] else (other, model)
    if len([s for s in a.states if s.state_id == 'ErrorSinkState']) == 0:
        mutate(a, t, case['mut'])
        a.states.pop()
        a.characterization_set.append('x')
        expect(table(b, t) == before, 'changing one of the two changed the other')
        expect(b.characterization_set == [], 'the two share their characterisation set')
    return len(states) > 1, [t, case['how'], 'reroot' if case['reroot'] is not None else 'plain', 'partial' if m.get('drop') else 'full']


SUBS = [Sub('copy', cases(), check, quick=10000)]
