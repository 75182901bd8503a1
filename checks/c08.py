import random
import time

from hypothesis import strategies as st

from aalpy.base.SUL import CacheSUL
from aalpy.learning_algs import run_abstracted_ONFSM_Lstar, run_adaptive_Lsharp, run_KV, run_Lsharp, run_Lstar, run_non_det_Lstar, run_stochastic_Lstar
from aalpy.oracles import RandomWordEqOracle

from checks.c26 import MissingOnly
from vf import gen
from vf.core import Sub, expect
from vf.gen import ints
from vf.learn import LSTAR_CEX, KV_CEX
from vf.orc import oracle_params, make_oracle, DET_ORACLES
from vf.ndl import FairNdSUL, PerfectNdOracle, Skip
from vf.ref import build
from vf.stoch import nd, NdSUL
from vf.sul import PerfectOracle, RefSUL

PROPERTY = 'C08'
RULE = ('random machines x learner options x every bundled oracle with random parameters x caching on/off x prior samples; non-trivial: the oracle executed tests on the '
        'system and the learner asked queries')
ASSUMPTIONS = ['a step is an input symbol (the empty word is a query without steps)']


@st.composite
def cases(draw):
    spec = draw(gen.det_mix(big=6, big_n=12, big_k=3, wide=4, max_n=6, max_k=3))
    algo = draw(st.sampled_from(['lstar', 'kv', 'lsharp', 'adaptive']))
    cache = draw(st.booleans())
    names = [n for n in DET_ORACLES if n != 'Perfect' and (cache or n != 'CacheBased') and (spec['k'] < 5 or n not in ('KWayTransition', 'KWayState', 'BFS', 'WMethod', 'Wp'))]
    c = {'spec': spec, 'algo': algo, 'cache': cache, 'oracle': draw(oracle_params(names, spec['k'])), 'rounds': draw(st.sampled_from([None, None, 1, 3]))}
    if algo == 'lstar':
        c['cex'] = draw(st.sampled_from(LSTAR_CEX))
    if algo == 'kv':
        c['cex'] = draw(st.sampled_from(KV_CEX))
    if algo in ('lsharp', 'adaptive'):
        c['ext'] = draw(st.sampled_from([None, 'SepSeq', 'ADS']))
        c['sep'] = draw(st.sampled_from(['SepSeq', 'ADS']))
    if algo != 'kv' and cache and draw(ints(0, 2)) == 0:
        c['samples'] = draw(st.lists(gen.words(spec['k'], 5, 1), min_size=1, max_size=4))
    return c


def check(case):
    spec = case['spec']
    raw = RefSUL(spec)
    d = raw.m
    random.seed(case['oracle']['seed'])
    al = list(d.al)
    eq = make_oracle(case['oracle'], al, raw, d.min_size(), spec)
    if case['oracle']['name'] in ('WMethod', 'Wp'):
        eq.m = min(eq.m, d.min_size() + 1, 5)
    kw = dict(automaton_type=spec['t'], print_level=0, return_data=True, cache_and_non_det_check=case['cache'], max_learning_rounds=case['rounds'] or 8)
    if case.get('samples'):
        kw['samples'] = [(tuple(d.al[i] for i in w), tuple(d.run(tuple(d.al[i] for i in w)))) for w in case['samples']]
    algo = case['algo']
    if algo == 'lstar':
        model, info = run_Lstar(al, raw, eq, cex_processing=case['cex'], **kw)
    elif algo == 'kv':
        model, info = run_KV(al, raw, eq, cex_processing=case['cex'], **kw)
    elif algo == 'lsharp':
        model, info = run_Lsharp(al, raw, eq, extension_rule=case['ext'], separation_rule=case['sep'], **kw)
    else:
        model, info = run_adaptive_Lsharp(al, raw, [build(spec)[0]], eq, extension_rule=case['ext'], separation_rule=case['sep'], **kw)
    ql, sl, qe, se = (info[x] for x in ('queries_learning', 'steps_learning', 'queries_eq_oracle', 'steps_eq_oracle'))
    got = {'reported': [ql, sl, qe, se], 'resets': raw.resets, 'steps': raw.steps, 'oracle': case['oracle']['name']}
    expect(ql + qe == raw.resets, 'reported number of queries is not the number of resets of the system', **got)
    expect(sl + se == raw.steps, 'reported number of steps is not the number of inputs the system received', **got)
    expect(info['automaton_size'] == len(model.states), 'reported automaton size is not the size of the returned model')
    expect((qe, se) == (eq.num_queries, eq.num_steps), 'reported oracle cost is not that of the oracle')
    if case['cache'] or algo in ('lsharp', 'adaptive'):
        expect('cache_saved' in info, 'the savings of the cache are not reported')
    if isinstance(eq.sul, CacheSUL):
        expect((ql, sl) == (eq.sul.num_queries, eq.sul.num_steps), 'reported cost differs from the counters')
        if 'cache_saved' in info:
            expect(info['cache_saved'] == eq.sul.num_cached_queries, 'reported cache savings differ')
    return qe > 0 and ql > 0, [algo, case['oracle']['name'], 'cache' if case['cache'] else 'nocache']


# ---------------------------------------------------------------- rounds and times

@st.composite
def time_cases(draw):
    algo = draw(st.sampled_from(['lstar', 'kv', 'lsharp', 'adaptive', 'onfsm', 'abstracted', 'stochastic']))
    if algo in ('lstar', 'kv', 'lsharp', 'adaptive'):
        spec = draw(gen.det(max_n=6, max_k=2))
    elif algo == 'stochastic':
        spec = draw(nd(draw(st.sampled_from(['mdp', 'smm'])), max_n=3, max_k=2, max_branch=2))
    else:
        spec = draw(nd('onfsm', max_n=4, max_k=2, max_branch=draw(st.sampled_from([1, 2])), n_out=3))
    return {'algo': algo, 'spec': spec, 'seed': draw(ints(0, 9999)), 'rounds': draw(st.sampled_from([None, 1, 2, 3, 5])), 'slow_oracle': draw(st.sampled_from([0, 25, 60])), 'slow_system': draw(st.sampled_from([0, 0, 60])),
            'cache': draw(st.booleans())}


def check_times(case):
    spec, algo, N = case['spec'], case['algo'], case['rounds']
    det = 'k' in spec and algo in ('lstar', 'kv', 'lsharp', 'adaptive')
    random.seed(case['seed'])
    sul = RefSUL(spec) if det else NdSUL(spec, case['seed']) if algo == 'stochastic' else FairNdSUL(spec, case['seed'])
    al = list(sul.m.al)
    n = 2 * (1 if det else max(len(c) for row in sul.m.tr for c in row) ** 3)
    eq = PerfectOracle(sul, spec) if det else RandomWordEqOracle(al, sul, num_walks=15, min_walk_len=1, max_walk_len=5) if algo == 'stochastic' else (MissingOnly if algo == 'abstracted' else PerfectNdOracle)(spec, al, sul, n)
    log = {'calls': 0, 'oracle': 0.0, 'system': 0.0, 'inside': False, 'last': None, 'cex': None}
    find, pre, post = eq.find_cex, sul.pre, sul.post
    use = {'open': False, 'unclosed': 0}

    def slow_find(h):
        log['calls'] += 1
        log['inside'] = True
        t0 = time.perf_counter()
        if log['calls'] == 1 and case['slow_oracle']:
            time.sleep(case['slow_oracle'] / 1000)
        try:
            cex = find(h)
        finally:
            log['inside'] = False
            log['oracle'] += time.perf_counter() - t0
            use['open'] = False  # the sampling oracles leave their last test open
        log['last'], log['cex'] = h, cex
        return cex

    def slow_pre():
        if case['slow_system'] and not log['inside'] and not log['system'] and log['calls']:
            t0 = time.perf_counter()
            time.sleep(case['slow_system'] / 1000)
            log['system'] = time.perf_counter() - t0
        use['unclosed'] += use['open'] and not log['inside']
        use['open'] = True
        return pre()

    def noted_post():
        use['open'] = False
        return post()
    eq.find_cex, sul.pre, sul.post = slow_find, slow_pre, noted_post
    kw = dict(print_level=0, return_data=True)
    t0 = time.perf_counter()
    try:
        if algo == 'lstar':
            model, info = run_Lstar(al, sul, eq, spec['t'], max_learning_rounds=N, cache_and_non_det_check=case['cache'], **kw)
        elif algo == 'kv':
            model, info = run_KV(al, sul, eq, spec['t'], max_learning_rounds=N, cache_and_non_det_check=case['cache'], **kw)
        elif algo == 'lsharp':
            model, info = run_Lsharp(al, sul, eq, spec['t'], max_learning_rounds=N, cache_and_non_det_check=case['cache'], **kw)
        elif algo == 'adaptive':
            model, info = run_adaptive_Lsharp(al, sul, [build(spec)[0]], eq, spec['t'], max_learning_rounds=N, cache_and_non_det_check=case['cache'], **kw)
        elif algo == 'onfsm':
            model, info = run_non_det_Lstar(al, sul, eq, n_sampling=n, max_learning_rounds=N, **kw)
        elif algo == 'abstracted':
            model, info = run_abstracted_ONFSM_Lstar(al, sul, eq, {}, n_sampling=n, max_learning_rounds=N, **kw)
        else:
            model, info = run_stochastic_Lstar(al, sul, eq, automaton_type=spec['t'], min_rounds=min(N or 4, 3), max_rounds=N or 4, n_c=3, n_resample=10, custom_oracle=True, **kw)
    except Skip:
        return False, ['suffix_too_long_for_samples']
    wall = time.perf_counter() - t0
    # --- times, in seconds with two digits
    total, learn, oracle = info['total_time'], info['learning_time'], info['eq_oracle_time']
    got = {'total': total, 'learning': learn, 'oracle': oracle, 'measured total': wall, 'measured in the oracle': log['oracle'], 'measured in the system': log['system'], 'algorithm': algo}
    expect(total <= wall + 0.006, 'more time reported than passed', **got)
    expect(total >= log['oracle'] + log['system'] - 0.006, 'less time reported than was spent in the oracle and the system', **got)
    expect(log['oracle'] - 0.006 <= oracle <= wall - log['system'] + 0.006, 'the reported time of the oracle is not the time it took', **got)
    expect(abs(learn + oracle - total) < 0.011, 'learning time and oracle time do not add up', **got)
    expect(not use['unclosed'] and not use['open'], 'the system was reset again, or left, without having been shut down', **use)
    # --- rounds
    calls, rounds = log['calls'], info['learning_rounds']
    got = {'rounds': rounds, 'equivalence queries': calls, 'limit': N, 'algorithm': algo}
    expect(info['automaton_size'] == model.size == len(model.states), 'the reported size is not the size of the model', **got)
    if algo == 'stochastic':
        expect(calls <= rounds <= (N or 4), 'number of rounds', **got)
    else:
        expect(N is None or calls <= N + (algo == 'kv'), 'more equivalence queries than allowed rounds', **got)
        expect(rounds in (calls, calls + (N is not None)) if algo != 'kv' else calls - 1 <= rounds, 'the reported rounds are not the equivalence queries', **got)
        expect(N is None or rounds <= N + 1, 'more rounds than allowed', **got)
        if log['cex'] is not None:  # stopped by the limit only
            expect(N is not None and (calls if algo != 'kv' else rounds) >= N, 'learning stopped before the limit although a counterexample was found', **got)
        elif algo != 'kv':
            expect(model is log['last'], 'the returned model is not the one that passed')
    return calls > 0 and total > 0, [algo, 'limit' if log['cex'] is not None else 'correct', f"slow_{bool(case['slow_oracle'])}_{bool(case['slow_system'])}"]


SUBS = [Sub('cost', cases(), check, quick=20000), Sub('rounds', time_cases(), check_times, quick=700)]
