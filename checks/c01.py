from hypothesis import strategies as st

from vf import gen
from vf.core import Sub, expect
from vf.learn import learn_case, drive, verdict, check_limited, LSTAR_CEX, CLOSING
from vf.ref import check_exact, Det
from aalpy.learning_algs import run_Lstar

PROPERTY = 'C01'
RULE = ('random / near-uniform / lock / counter / chain / shift machines (<=7 states, a quarter up to 14 states and 5 inputs) of all three types over several '
        'kinds of symbols, with every option combination drawn; a case is non-trivial if the system has at least two classes and the oracle answered at '
        'least one counterexample')
ASSUMPTIONS = ['counterexamples end at their first difference, as those of all bundled oracles do', 'outputs are hashable and not None']

OPTS = {'closing_strategy': CLOSING, 'cex_processing': LSTAR_CEX, 'e_set_suffix_closed': [False, True],
        'all_prefixes_in_obs_table': [True, False], 'cache_and_non_det_check': [True, False]}


def check(case):
    model, info, sul, eq = drive(run_Lstar, case)
    limited = case.get('max_rounds') and eq.calls >= case['max_rounds']
    if case.get('max_rounds'):
        expect(eq.calls <= case['max_rounds'], 'more hypotheses were built than the round limit allows', calls=eq.calls)
        expect(info['learning_rounds'] == eq.calls, 'learning_rounds is not the number of hypotheses submitted', reported=info['learning_rounds'], real=eq.calls)
    if limited:
        check_limited(case, model, eq, case['spec'])
        expect(len(model.states) == eq.sizes[-1], 'the returned model is not the last hypothesis', sizes=eq.sizes, got=len(model.states))
    else:
        check_exact(model, case['spec'])
    expect(info['automaton_size'] == len(model.states), 'reported size differs')
    return verdict(case, model, info, sul, eq)


SUBS = [Sub('learn', learn_case(OPTS), check, quick=30000)]
