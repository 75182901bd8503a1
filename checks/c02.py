from vf.core import Sub, expect
from vf.learn import learn_case, drive, verdict, check_limited, KV_CEX
from vf.ref import check_exact
from aalpy.learning_algs import run_KV

PROPERTY = 'C02'
RULE = ('random / near-uniform / lock / counter / chain / shift machines (<=7 states, a quarter up to 14 states and 5 inputs) of all three types, every counterexample '
        'processing strategy, shortest and long counterexamples; non-trivial: at least two classes and at least one counterexample was processed')
ASSUMPTIONS = ['counterexamples end at their first difference, as those of all bundled oracles do', 'outputs are hashable and not None']
OPTS = {'cex_processing': KV_CEX, 'cache_and_non_det_check': [True, False]}


def check(case):
    case['print'] = min(case['print'], 2)  # level 3 writes a pdf of the classification tree
    model, info, sul, eq = drive(run_KV, case)
    limit = case.get('max_rounds')
    if limit:
        expect(eq.calls <= limit + 1, 'more hypotheses were submitted than the round limit allows', calls=eq.calls)
    if limit and eq.calls and eq.cexs and len(eq.cexs) == eq.calls:  # the last hypothesis was refuted
        check_limited(case, model, eq, case['spec'])
    else:
        check_exact(model, case['spec'])
    expect(info['automaton_size'] == len(model.states), 'reported size differs')
    return verdict(case, model, info, sul, eq)


SUBS = [Sub('learn', learn_case(OPTS, samples=False), check, quick=30000)]
