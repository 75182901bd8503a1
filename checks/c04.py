from hypothesis import strategies as st

from vf import gen
from vf.core import Sub, expect
from vf.learn import drive, verdict, check_limited
from vf.ref import check_exact, build, Det, first_difference, ReadDet
from aalpy.learning_algs import run_adaptive_Lsharp

PROPERTY = 'C04'
RULE = ('a random system and 1-3 reference machines of the same type: copies, copies with a few changed transitions/outputs, or unrelated machines, over the same, a larger or '
        'a smaller alphabet; all rebuilding x state-matching x extension x separation options; non-trivial: at least two classes')
ASSUMPTIONS = ['references are complete machines of the same type', 'counterexamples end at their first difference', 'outputs are hashable and not None']


@st.composite
def case_st(draw):
    spec = draw(gen.det_mix(big=15, big_n=9, big_k=4, max_n=6, min_k=1, wide=5))
    n, k = spec['n'], spec['k']
    refs = []
    for _ in range(draw(gen.ints(1, 3))):
        kind = draw(st.sampled_from(['copy', 'mutant', 'mutant', 'mutant', 'other', 'other']))
        if kind == 'other':
            r = draw(gen.det(types=[spec['t']], max_n=6, max_k=4, sks=[spec['sk']], oks=[spec['ok']]))
        else:
            r = {x: spec[x] for x in spec}
            r['tr'] = [list(x) for x in spec['tr']]
            r['out'] = [list(x) if isinstance(x, list) else x for x in spec['out']]
            if kind == 'mutant':
                for _ in range(draw(gen.ints(1, 3))):
                    s, i = draw(gen.ints(0, n - 1)), draw(gen.ints(0, k - 1))
                    if draw(st.booleans()):
                        r['tr'][s][i] = draw(gen.ints(0, n - 1))
                    elif spec['t'] == 'mealy':
                        r['out'][s][i] = draw(gen.ints(0, 1))
                    else:
                        r['out'][s] = draw(gen.ints(0, 1))
        # alphabet of the reference: a shift changes which inputs are shared
        off = draw(st.sampled_from([0, 0, 0, 0, 1, 2]))
        r['off'] = min(off, 8 - r['k'])
        refs.append(r)
    opts = {'rebuilding': draw(st.booleans()), 'state_matching': draw(st.sampled_from([None, 'Total', 'Approximate'])),
            'extension_rule': draw(st.sampled_from([None, 'SepSeq', 'ADS'])), 'separation_rule': draw(st.sampled_from(['SepSeq', 'ADS'])),
            'cache_and_non_det_check': draw(st.booleans())}
    if not opts['rebuilding'] and opts['state_matching'] is None:
        opts['rebuilding'] = True
    case = {'spec': spec, 'refs': refs, 'opts': opts, 'mode': draw(st.sampled_from([0, 0, 4, 8, 15])), 'cseed': draw(gen.ints(0, 999))}
    if draw(gen.ints(0, 3)) == 0:
        case['samples'] = draw(st.lists(gen.words(k, 6, 1), max_size=3))
    if draw(gen.ints(0, 5)) == 0:
        case['max_rounds'] = draw(gen.ints(1, 3))
    return case


def shift(r):
    """same machine over symbols off..off+k-1"""
    from vf.ref import sym
    d = Det(r)
    model, states = build(r)
    if r['off']:
        al = [sym(r['sk'], i + r['off']) for i in range(r['k'])]
        for s in states:
            s.transitions = type(s.transitions)((al[d.idx[a]], t) for a, t in s.transitions.items())
            if r['t'] == 'mealy':
                s.output_fun = type(s.output_fun)((al[d.idx[a]], o) for a, o in s.output_fun.items())
    return model


def check(case):
    spec = case['spec']
    refs = [shift(r) for r in case['refs']]
    case['opts']['references'] = refs
    model, info, sul, eq = drive(run_adaptive_Lsharp, case)
    limit = case.get('max_rounds')
    if limit:
        expect(eq.calls <= limit + 0, 'more hypotheses were submitted than the round limit allows', calls=eq.calls)
    if limit and eq.calls and eq.cexs and len(eq.cexs) == eq.calls:  # the last hypothesis was refuted
        check_limited(case, model, eq, case['spec'])
    else:
        check_exact(model, case['spec'])
    case['opts'].pop('references')
    nt, labels = verdict(case, model, info, sul, eq)
    shared = max(len([a for a in sul.m.al if a in r.get_input_alphabet()]) for r in [shift(x) for x in case['refs']])
    labels.append('shared_all' if shared == spec['k'] else 'shared_some' if shared else 'shared_none')
    labels.append('rebuilt' if info.get('rebuild_states') else 'not_rebuilt')
    labels.append('matched' if info.get('matching_states') else 'not_matched')
    return sul.m.min_size() > 1, labels


SUBS = [Sub('learn', case_st(), check, quick=10000)]
