"""shared case generation / execution for the deterministic active learners"""
from hypothesis import strategies as st

from aalpy.learning_algs import run_Lstar, run_KV, run_Lsharp, run_adaptive_Lsharp

from vf import gen
from vf.core import expect, Violation
from vf.ref import Det, check_exact, check_type, ReadDet, build, minimal_spec, first_difference
from vf.sul import RefSUL, PerfectOracle

LSTAR_CEX = [None, 'rs', 'longest_prefix', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd']
KV_CEX = ['rs', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd']
CLOSING = ['shortest_first', 'longest_first', 'single', 'single_longest']


@st.composite
def learn_case(draw, options, rounds=True, samples=True, machine=None, **kw):
    spec = draw(machine if machine is not None else gen.det_mix(wide=4, **kw))
    opts = {k: draw(st.sampled_from(v)) for k, v in options.items()}
    case = {'spec': spec, 'opts': opts, 'mode': draw(st.sampled_from([0, 0, 4, 8, 15, 30])), 'cseed': draw(gen.ints(0, 999)),
            'print': draw(st.sampled_from([0, 0, 0, 0, 2, 3]))}
    if samples and draw(gen.ints(0, 3)) == 0:
        case['samples'] = draw(st.lists(gen.words(spec['k'], 6, 1), max_size=4))
    if rounds and draw(gen.ints(0, 5)) == 0:
        case['max_rounds'] = draw(gen.ints(1, 4))
    return case


def drive(algo, case, spec=None):
    """run the learner on the case; returns (model, info, sul, oracle)"""
    spec = spec or case['spec']
    sul = RefSUL(spec)
    d = sul.m
    eq = PerfectOracle(sul, spec, case['mode'], case['cseed'])
    kw = dict(case['opts'])
    if case.get('samples'):
        kw['samples'] = [(tuple(d.al[i] for i in w), tuple(d.run(tuple(d.al[i] for i in w)))) for w in case['samples']]
    if case.get('max_rounds'):
        kw['max_learning_rounds'] = case['max_rounds']
    al = list(d.al)
    model, info = algo(alphabet=al, sul=sul, eq_oracle=eq, automaton_type=spec['t'], print_level=case.get('print', 0), return_data=True, **kw)
    expect(al == d.al, "the caller's alphabet was modified")
    return model, info, sul, eq


def verdict(case, model, info, sul, eq):
    spec = case['spec']
    d = sul.m
    labels = [spec['t'], 'fam_' + spec['fam'], f'rounds_{min(eq.calls, 6)}', f'size_{min(d.min_size(), 10)}']
    for k, v in case['opts'].items():
        labels.append(f'{k}={v}')
    if case.get('max_rounds') and eq.calls >= case['max_rounds']:
        labels.append('round_limited')
    return eq.calls > 1 and d.min_size() > 1, labels


def check_limited(case, model, eq, spec, slack=0):
    """limited number of rounds: only equivalence with the last submitted hypothesis can be required"""
    check_type(model, spec['t'])
    r = ReadDet(model, spec['t'], Det(spec).al)
    expect(r.n <= Det(spec).min_size(), 'intermediate hypothesis is larger than the minimal machine')
    return r
