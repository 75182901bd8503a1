from hypothesis import strategies as st

from vf.core import Sub, expect
from vf.gen import ints
from vf.table import K, models, make, table, DET

PROPERTY = 'C17'
RULE = ('random partial and complete machines of all seven supported types (DFA, Moore, Mealy, ONFSM, non-deterministic Moore, MDP, stochastic Mealy), both completion modes, with and without '
        'earlier read accesses to missing transitions; also the method of the automaton; non-trivial: the machine is partial')
ASSUMPTIONS = ['an input whose transition list is empty counts as missing']

TYPES = DET + ('onfsm', 'ndmoore', 'mdp', 'smm')


@st.composite
def cases(draw):
    m = draw(models(TYPES, sks=('str', 'int', 'tuple', 'neg', 'mixed', 'text'), oks=('str', 'int', 'bool', 'text')))
    m['mode'] = draw(st.sampled_from(['self_loop', 'sink_state']))
    if m['t'] not in DET:
        m['drop'] = [[draw(ints(0, m['spec']['n'] - 1)), draw(ints(0, m['spec']['k'] - 1))] for _ in range(draw(ints(0, 3)))]
        m['touch'] = [[draw(ints(0, m['spec']['n'] - 1)), draw(ints(0, m['spec']['k'] - 1))] for _ in range(draw(ints(0, 3)))] if draw(ints(0, 2)) == 0 else []
    m['via'] = draw(st.sampled_from(['method', 'function', 'default']))
    return m


def check(m):
    from aalpy.utils.HelperFunctions import make_input_complete
    from vf.ref import sym
    t = m['t']
    model, states = make(m)
    al = [sym(m['spec']['sk'], i) for i in range(m['spec']['k'])]
    if t not in DET:
        for q, i in m['drop']:
            states[q].transitions.pop(al[i], None)
    init, before = table(model, t)
    used = {a for _, tr in before.values() for a in tr}
    complete = all(set(tr) == used for _, tr in before.values())
    for q, i in m.get('touch', []):
        if K(al[i]) in used:
            expect(states[q].transitions[al[i]] is not None, 'no list')  # defaultdict: a read creates an empty entry
    expect(model.is_input_complete() is complete, 'wrong answer about input completeness', expected=complete)
    mode = m['mode']
    if m['via'] == 'function':
        r = make_input_complete(model, mode)
        expect(r is model, 'another machine was returned')
    elif m['via'] == 'method':
        model.make_input_complete(mode)
    else:
        mode = 'self_loop'
        model.make_input_complete()
    init2, after = table(model, t)
    expect(init2 == init, 'the initial state changed')
    expect(model.is_input_complete() is True, 'the completed machine is not input complete')
    expect({a for _, tr in after.values() for a in tr} == used, 'the alphabet changed')
    old = [s for s in after if s in before]
    new = [s for s in after if s not in before]
    expect(len(old) == len(before), 'a state disappeared')
    if complete:
        expect(after == before, 'a complete machine was changed')
        return False, [t, mode, 'complete']
    sink = None
    if mode == 'self_loop':
        expect(not new, 'a state was added', new=new)
    else:
        expect(len(new) == 1, f'{len(new)} states were added')
        sink = new[0]

    def cell(target):
        o = K('epsilon')
        return {'dfa': target, 'moore': target, 'mealy': (target, o), 'onfsm': [(target, o)], 'ndmoore': [target], 'mdp': [(target, 1.0)], 'smm': [(target, o, 1.0)]}[t]

    for s in old:
        expect(after[s][0] == before[s][0], 'the output of a state changed', state=s)
        for a in used:
            if a in before[s][1]:
                expect(after[s][1].get(a) == before[s][1][a], 'an existing transition was changed', state=s, input=a, before=before[s][1][a], after=after[s][1].get(a))
            else:
                want = cell(s if sink is None else sink)
                expect(after[s][1].get(a) == want, 'wrong added transition', state=s, input=a, expected=want, got=after[s][1].get(a))
    if sink is not None:
        for a in used:
            expect(after[sink][1].get(a) == cell(sink), 'the sink can be left', input=a, got=after[sink][1].get(a))
        want = {'dfa': False, 'mealy': None, 'onfsm': None, 'smm': None}.get(t, K('sink_state'))
        expect(after[sink][0] == want, 'wrong output of the sink', got=after[sink][0])
    # again: nothing more to do
    model.make_input_complete(mode)
    expect(table(model, t) == (init2, after), 'completing a complete machine changed it')
    return True, [t, mode, 'touched' if m.get('touch') else 'plain']


SUBS = [Sub('complete', cases(), check, quick=14000)]
