import contextlib
import io
import os
import shutil
import tempfile
from collections import Counter

import pydot
from hypothesis import strategies as st

from aalpy.utils import save_automaton_to_file, load_automaton_from_file

from vf.core import Sub, expect
from vf.gen import ints
from vf.ref import Det, ReadDet, first_difference
from vf.table import models, make, table, rounded, DET, ND, VP

PROPERTY = 'C12'
RULE = ('random models of all ten types (complete and partial, initial state anywhere in the state list), symbols: short and long names, names with blanks and punctuation, non-negative '
        'numbers; saved as file or string, with and without rounding, and loaded; non-trivial: at least two states or three transitions')
ASSUMPTIONS = ['state names are identifiers', 'symbols contain none of the separators of their position and no quote, bar, brace or backslash; digit strings are read as numbers (format rule)',
               'the error sink of a VPA is not written to the file']


@st.composite
def cases(draw):
    t = draw(st.sampled_from(DET + ND + VP))
    m = draw(models([t], sks=('str', 'file', 'bigint', 'int', 'file2'), oks=('str', 'file', 'bigint', 'empty', 'file2')))
    if t in VP:
        m['spec']['sk'] = draw(st.sampled_from(['str', 'paren', 'int', 'pp']))
    if t in ('smm', 'mdp', 'mc'):
        big = draw(st.sampled_from([1, 1, 1000, 3000000]))
        for row in m['spec']['tr']:
            for c in row:
                for e in c[:1]:
                    e[2] *= big
    return {'m': m, 'fmt': draw(st.sampled_from(['q{}', 's{}', '{}', 'State_{}', 'q{}x'])), 'how': draw(st.sampled_from(['file', 'string', 'method'])),
            'round': draw(st.sampled_from([None, None, None, 2, 4])), 'suffix': draw(st.booleans()), 'again': draw(st.booleans()), 'prefixes': draw(st.booleans())}


def check(case):
    m = case['m']
    t = m['t']
    model, states = make(m, case['fmt'])
    before = table(model, t)
    order = [s.state_id for s in model.states]
    rnd = case['round'] if case['how'] != 'method' else None
    tmp = tempfile.mkdtemp(prefix='verif_c12_')
    try:
        path = os.path.join(tmp, 'model')
        full = path + '.dot'
        given = full if case['suffix'] else path
        sink = io.StringIO()
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            if case['how'] == 'string':
                txt = save_automaton_to_file(model, path, 'string', round_floats=rnd)
                with open(full, 'w') as f:
                    f.write(txt)
            elif case['how'] == 'method':
                model.save(given)
            else:
                save_automaton_to_file(model, given, round_floats=rnd)
            expect(os.path.exists(full), 'the model was not written to the named file', files=os.listdir(tmp), output=sink.getvalue()[-300:])
            expect(table(model, t) == before and [s.state_id for s in model.states] == order, 'saving changed the model')
            got = load_automaton_from_file(full, t, compute_prefixes=case['prefixes'] and t in DET)
            after = table(got, t)
            if case['again']:
                save_automaton_to_file(got, full)
                got = load_automaton_from_file(full, t)
                after = table(got, t)
    finally:
        shutil.rmtree(tmp)
    want = before
    if rnd is not None:
        # rounded to the given number of digits on the way out
        for s, (d, tr) in want[1].items():
            for a, v in tr.items():
                if t in ('mc', 'mdp', 'smm'):
                    a2 = after[1].get(s, (None, {}))[1].get(a, [])
                    for x in a2:
                        expect(abs(x[-1] - round(x[-1], rnd)) < 1e-12, f'probability {x[-1]} is not rounded to {rnd} digits')
        want = rounded(want, t, rnd)
        want = (want[0], {s: (d, {a: sorted(v, key=repr) if t in ('mc', 'mdp', 'smm') else v for a, v in tr.items()}) for s, (d, tr) in want[1].items()})
        after = (after[0], {s: (d, {a: sorted(v, key=repr) if t in ('mc', 'mdp', 'smm') else v for a, v in tr.items()}) for s, (d, tr) in after[1].items()})
    expect(after[0] == want[0], f'initial state {want[0]!r} became {after[0]!r}')
    expect(sorted(after[1]) == sorted(want[1]), 'the states changed', saved=sorted(want[1]), loaded=sorted(after[1]))
    for s in want[1]:
        expect(after[1][s][0] == want[1][s][0], f'output or acceptance of state {s} changed', saved=want[1][s][0], loaded=after[1][s][0])
        expect(after[1][s][1] == want[1][s][1], f'transitions of state {s} changed', saved=list(want[1][s][1].items()), loaded=list(after[1][s][1].items()))
    if t in DET and case['prefixes'] and not case['again']:
        for s in got.states:
            if s.prefix is not None:
                x = got.initial_state
                for a in s.prefix:
                    x = x.transitions[a]
                expect(x is s, 'a computed prefix does not lead to its state', prefix=s.prefix)
        if not m['drop']:
            acc = Det(m['spec']).access()
            for i, s in enumerate(order):
                p = got.get_state_by_id(s).prefix
                expect(p is None if i not in acc else p is not None and len(p) == len(acc[i]), 'prefixes were not computed on request or are not shortest', state=s, prefix=p)
    if t in DET and not m['drop']:
        d = Det(m['spec'])
        expect(first_difference(d, ReadDet(got, t, d.al)) is None, 'the loaded machine behaves differently')
    n = sum(len(x[1]) for x in want[1].values())
    return len(order) > 1 or n > 2, [t, case['how'], f'round_{rnd}', 'partial' if m.get('drop') else 'full', m['spec']['sk']]


@st.composite
def drawings(draw):
    t = draw(st.sampled_from(DET + ND))
    return {'m': draw(models([t], sks=('str', 'file', 'int'), oks=('str', 'file'))), 'fmt': draw(st.sampled_from(['q{}', 's{}'])), 'round': draw(st.sampled_from([None, 2]))}


def check_drawing(case):
    """drawings may leave out the transitions from a state to itself; everything else is shown"""
    model, _ = make(case['m'], fmt=case['fmt'])

    def edges(**kw):
        g = pydot.graph_from_dot_data(save_automaton_to_file(model, file_type='string', round_floats=case['round'], **kw))[0]
        return Counter((e.get_source().strip('"'), e.get_destination().strip('"'), str(e.get_label())) for e in g.get_edges()), {n.get_name().strip('"') for n in g.get_nodes()}
    full, nodes = edges()
    some, nodes2 = edges(display_same_state_trans=False)
    n = 0
    for s in model.states:
        ts = s.transitions
        for a in (ts if isinstance(ts, dict) else [None]):
            cell = ts[a] if a is not None else ts
            n += len(cell) if isinstance(cell, list) else 1
    expect(sum(full.values()) == n + 1, 'not every transition is drawn', drawn=sum(full.values()) - 1, transitions=n)
    expect({s.state_id for s in model.states} <= nodes and nodes == nodes2, 'not every state is drawn', nodes=sorted(nodes))
    want = Counter({e: c for e, c in full.items() if e[0] != e[1]})
    expect(some == want or (case['m']['t'] == 'mc' and some == full), 'the drawing without loops is not the drawing less its loops', missing=sorted(want - some), extra=sorted(some - want))
    return n > 2 and full != some, [case['m']['t']]


SUBS = [Sub('roundtrip', cases(), check, quick=9000), Sub('drawing', drawings(), check_drawing, quick=400)]
