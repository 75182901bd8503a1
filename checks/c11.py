import random
from collections import Counter
from itertools import combinations, permutations, product
from math import ceil, log

from hypothesis import strategies as st

from aalpy.base.SUL import CacheSUL

from checks.c09 import make_hyp, reach, variants
from vf import gen
from vf.core import Sub, expect
from vf.gen import ints
from vf.orc import make_oracle
from vf.ref import Det, build, first_difference, minimal_spec
from vf.stoch import altered, build_nd, nd, Nd, NdSUL
from vf.sul import RefSUL

PROPERTY = 'C11'
RULE = ('(det) an oracle of a sampling or coverage kind is asked about 0-2 wrong hypotheses and then about the minimal model of the system itself, 1-2 times; the words received '
        'by the system are compared with the configured budget and the promised coverage; (stoch) the same for random walk / word on wrong and correct ONFSM, MDP and stochastic Mealy hypotheses, including that exactly the first disallowed observation is reported; '
        'non-trivial: at least one test was executed on the correct hypothesis')
ASSUMPTIONS = ['hypotheses are minimal, input complete and have access words', 'letters / lengths that must appear in a random sample: only required when missing them has probability < 1e-12']
NAMES = ['RandomWalk', 'RandomWord', 'StatePrefix', 'TransitionFocus', 'Pac', 'KWayState', 'KWayTransition', 'RandomW', 'RandomWp', 'CacheBased']


@st.composite
def params(draw, n, long=False):
    b = st.booleans()
    p = {'name': n, 'seed': draw(ints(0, 9999))}
    if n == 'RandomWalk':
        p.update(num_steps=draw(st.sampled_from([1, 2, 5, 17, 60, 200])), reset_after_cex=draw(b), reset_prob=draw(st.sampled_from([0.0, 0.1, 0.5, 1.0])))
    elif n == 'RandomWord':
        lo = draw(ints(1, 6))
        p.update(num_walks=draw(st.sampled_from([1, 2, 7, 20, 100])), min_walk_len=lo, max_walk_len=lo + draw(ints(0, 3)), reset_after_cex=draw(b), reset_between=draw(b))
    elif n == 'StatePrefix':
        p.update(walks_per_state=draw(ints(1, 6)), walk_len=draw(ints(1, 8)), max_tests=draw(st.sampled_from([None, None, None, 1, 3, 10])), depth_first=draw(b))
    elif n == 'TransitionFocus':
        p.update(num_random_walks=draw(ints(1, 12)), walk_len=draw(ints(1, 12)), same_state_prob=draw(st.sampled_from([-1.0, 0.2, 0.5, 1.0])))
    elif n == 'Pac':
        lo = draw(ints(1, 4))
        p.update(epsilon=draw(st.sampled_from([0.5, 0.3, 0.11, 0.07])), delta=draw(st.sampled_from([0.5, 0.2, 0.01])), min_walk_len=lo, max_walk_len=lo + draw(ints(0, 4)))
    elif n == 'KWayState':
        p.update(k=draw(ints(2, 3)), random_walk_len=draw(ints(1, 5)), method=draw(st.sampled_from(['permutations', 'combinations'])))
    elif n == 'KWayTransition':
        kk = draw(ints(2, 3))
        p.update(k=kk, method=draw(st.sampled_from(['random', 'random', 'prefix'])), num_generate_paths=draw(ints(1, 25)), max_path_len=kk + draw(ints(0, 8)),
                 max_number_of_steps=draw(st.sampled_from([0, 0, 0, 5, 40])), optimize=draw(st.sampled_from(['steps', 'queries'])), random_walk_len=draw(ints(0, 4)))
    elif n == 'RandomW':
        p.update(walks_per_state=draw(ints(1, 5)), walk_len=draw(ints(1, 8)))
    elif n == 'RandomWp':
        p.update(min_length=draw(ints(0, 3)), expected_length=draw(st.sampled_from([0, 0, 1, 2, 5])), num_tests=draw(ints(1, 20)))
    elif n == 'CacheBased':
        p.update(num_walks=draw(ints(1, 15)), depth_increase=draw(ints(0, 4)), reset_after_cex=draw(b))
    if long:
        n = draw(ints(12, 50))
        if 'min_walk_len' in p:
            p['max_walk_len'] += n - p['min_walk_len']
            p['min_walk_len'] = n
        elif 'random_walk_len' in p:
            p['random_walk_len'] = n
        elif 'walk_len' in p:
            p['walk_len'] = n
        elif 'depth_increase' in p:
            p['depth_increase'] = n
    return p


@st.composite
def cases(draw):
    long = draw(ints(0, 11)) == 0
    name = draw(st.sampled_from(NAMES))
    if long and draw(st.booleans()) and name in ('RandomWord', 'StatePrefix', 'TransitionFocus', 'Pac', 'CacheBased', 'RandomWalk'):
        spec = draw(gen.deep())
        one = dict(spec, n=1, tr=[[0] * spec['k']], out=[[0] * spec['k']] if spec['t'] == 'mealy' else [0])
        return {'spec': spec, 'hyps': [one] * draw(ints(1, 2)), 'oracle': draw(params(name, long)), 'calls': 1, 'pre': draw(st.lists(gen.words(spec['k'], 5, 1), min_size=1, max_size=5)), 'cached': False}
    spec = minimal_spec(draw(gen.det_mix(big=8, big_n=11, big_k=3, max_n=5, max_k=3)))
    return {'spec': spec, 'hyps': [minimal_spec(draw(variants(spec))) for _ in range(draw(st.sampled_from([0, 0, 1, 2])))], 'oracle': draw(params(name, long)),
            'calls': draw(ints(1, 2)), 'pre': draw(st.lists(gen.words(spec['k'], 5, 1), min_size=1, max_size=5)), 'cached': draw(ints(0, 4)) == 0}


def leaves(words):
    """maximal words of the observed set = leaves of its tree"""
    pref = {w[:i] for w in words for i in range(len(w))}
    return {w for w in words if w not in pref} or {()}


def composed(hd, model, w, lo, hi, local):
    W = {tuple(x) for x in model.characterization_set}
    for s in model.states:
        a = tuple(s.prefix)
        if w[:len(a)] != a:
            continue
        for i in range(lo, hi + 1):
            k = len(a) + i
            if k > len(w):
                break
            x = w[k:]
            if x in W:
                return True
            if local:
                q = hd.target(w[:k])
                others = [t for t in hd.reachable() if t != q]
                if any(hd.run(x, q) != hd.run(x, t) for t in others) if x else all(hd.t != 'mealy' and hd.out[t] != hd.out[q] for t in others):
                    return True
    return False


def check(case):
    spec, p = case['spec'], dict(case['oracle'])
    name = p['name']
    between = p.pop('reset_between', False)
    raw = RefSUL(spec, record=True)
    d = raw.m
    random.seed(p['seed'])
    cached = name == 'CacheBased' or case['cached']
    sul = CacheSUL(raw) if cached else raw
    al = list(d.al)
    words = []

    # record the words the oracle puts to the system, also those answered by the cache
    old = (sul.pre, sul.step)

    def pre():
        words.append(())
        return old[0]()

    def step(x):
        if x is not None:
            words[-1] += (x,)
        return old[1](x)

    sul.pre, sul.step = pre, step
    if name == 'CacheBased':
        for w in case['pre']:
            sul.query(tuple(d.al[i] for i in w))
    seen_tree = [tuple(d.al[i] for i in w) for w in case['pre']] if name == 'CacheBased' else []
    del words[:]
    eq = make_oracle(p, al, sul, 0, spec)
    history, complete, before, cexs, lim = [], [], 0, 0, 0
    prefixes = None
    pac_round = 0
    executed = others = 0
    for h in case['hyps'] + [spec] * case['calls']:
        hd = Det(h)
        equal = first_difference(d, hd) is None
        if hd.t != 'mealy' and hd.out[hd.init] != d.out[d.init]:
            continue
        others += h != spec
        model = make_hyp(reach(h))
        tree = leaves([w for w in seen_tree] + history)
        depth = max(len(w) for w in tree)
        cex = eq.find_cex(model)
        tests = words[:]
        del words[:]
        history += tests
        cexs += cex is not None
        pac_round += 1
        executed += bool(tests) and equal
        letters = Counter(x for w in tests for x in w)
        if cex is not None:
            expect(not equal, 'counterexample for an equivalent hypothesis', cex=cex)
            expect(d.run(tuple(cex)) != hd.run(tuple(cex)), 'not a counterexample', cex=cex)
        if not equal and cex is not None:
            done_tests, last = tests[:-1], tests[-1]
        else:
            done_tests, last = tests, None
        complete += done_tests
        # --- a difference that was executed is reported
        for w in done_tests:
            expect(d.run(w) == hd.run(w), f'{name}: a test that showed a difference was not reported', test=w, system=d.run(w), hypothesis=hd.run(w))
        # --- budgets that hold for every call
        if name == 'RandomWalk':
            n = sum(map(len, tests))
            before = before + n
            if cex is None:
                expect(before == p['num_steps'], f'{before} random steps since the last counterexample instead of {p["num_steps"]}', params=p)
            expect(before <= p['num_steps'], f'{before} random steps instead of at most {p["num_steps"]}')
            if cex is not None and p['reset_after_cex']:
                before = 0
            if p['reset_prob'] == 1.0:
                expect(all(len(w) <= 1 for w in tests), 'no reset although the reset probability is 1')
            if p['reset_prob'] == 0.0:
                expect(len(tests) == 1, 'resets although the reset probability is 0')
            if p['reset_prob'] == 0.1 and n >= 200:
                expect(len(tests) > 1, 'never reset in 200 steps with reset probability 0.1')
            if n >= 150:
                expect(set(letters) == set(al), 'a letter was never used', letters=letters)
        elif name == 'RandomWord':
            before += len(tests)
            if cex is None:
                expect(before == p['num_walks'], f'{before} random words instead of {p["num_walks"]}', params=p)
            expect(before <= p['num_walks'], f'{before} random words instead of at most {p["num_walks"]}')
            for w in done_tests:
                expect(p['min_walk_len'] <= len(w) <= p['max_walk_len'], f'a random word of length {len(w)}', params=p)
            if cex is None and len(tests) >= 100:
                lens = {len(w) for w in tests}
                expect({p['min_walk_len'], p['max_walk_len']} <= lens, 'shortest or longest length never used in 100 words', lengths=sorted(lens), params=p)
                expect(set(letters) == set(al), 'a letter was never used', letters=letters)
            if p['reset_after_cex'] and (cex is not None or between):
                before = 0
            if between:
                eq.reset_counter()
        elif name == 'Pac':
            want = ceil(1 / p['epsilon'] * (log(1 / p['delta']) + pac_round * log(2)))
            expect(len(tests) == want if cex is None else len(tests) <= want, f'{len(tests)} tests in round {pac_round} instead of {want}', params=p)
            for w in done_tests:
                expect(p['min_walk_len'] <= len(w) <= p['max_walk_len'], f'a random word of length {len(w)}', params=p)
        elif name == 'TransitionFocus':
            want = p['num_random_walks']
            expect(len(tests) == want if cex is None else len(tests) <= want, f'{len(tests)} walks instead of {want}')
            for w in done_tests:
                expect(len(w) == p['walk_len'], f'a walk of length {len(w)} instead of {p["walk_len"]}')
            if p['same_state_prob'] in (-1.0, 1.0):
                for w in tests:
                    s = hd.init
                    for x in w:
                        opts = [a for i, a in enumerate(hd.al) if (hd.tr[s][i] == s) == (p['same_state_prob'] == 1.0)]
                        expect(not opts or x in opts, 'a step does not follow the configured focus', word=w, letter=x, focus=opts, prob=p['same_state_prob'])
                        s = hd.tr[s][hd.idx[x]]
        elif name == 'RandomWp':
            want = p['num_tests']
            expect(len(tests) == want if cex is None else len(tests) <= want, f'{len(tests)} tests instead of {want}')
            for w in done_tests:
                expect(len(w) >= p['min_length'], 'a test is shorter than the minimal length')
                expect(composed(hd, model, w, p['min_length'], p['min_length'] if p['expected_length'] == 0 else len(w), True), 'a test is not an access word, a middle part and a state identifier', test=w, params=p,
                       W=model.characterization_set)
        elif name == 'CacheBased':
            before += len(tests)
            if cex is None:
                expect(before == p['num_walks'], f'{before} walks instead of {p["num_walks"]}', params=p)
            expect(before <= p['num_walks'], f'{before} walks instead of at most {p["num_walks"]}')
            if cex is not None and p['reset_after_cex']:
                before = 0
            for w in done_tests:
                expect(len(w) == depth + p['depth_increase'], f'a walk of length {len(w)} instead of {depth + p["depth_increase"]}', tree=sorted(map(str, tree)))
            for w in tests:
                expect(any(w[:len(x)] == x or (w is last and x[:len(w)] == w) for x in tree), 'a walk does not extend an observed trace', walk=w, tree=sorted(map(str, tree)))
        elif name == 'StatePrefix':
            acc = [s.prefix for s in model.states]
            if p['max_tests']:
                lim += len(tests)
                expect(lim <= p['max_tests'], f'{lim} tests instead of at most {p["max_tests"]}')
            for a in acc:
                full = len([1 for w in complete if len(w) == len(a) + p['walk_len'] and w[:len(a)] == a])
                expect(full <= p['walks_per_state'], f'{full} walks from one state instead of {p["walks_per_state"]}', state=a)
                if cex is None and not (p['max_tests'] and lim >= p['max_tests']):
                    expect(full >= p['walks_per_state'] - cexs, f'{full} walks from a state instead of {p["walks_per_state"]}', state=a, params=p)
            if p['max_tests'] and cex is None:
                rest = len(acc) * p['walks_per_state'] - cexs
                if not cexs and len(history) == len(tests):
                    expect(lim == min(p['max_tests'], rest), f'{lim} tests instead of {min(p["max_tests"], rest)}', params=p)
            if p['depth_first']:
                ls = [len(w) for w in done_tests]
                expect(ls == sorted(ls, reverse=True), 'states are not explored deepest first', lengths=ls)
        elif name == 'RandomW':
            for w in done_tests:
                expect(composed(hd, model, w, 1, p['walk_len'], False), 'a test is not an access word, a walk and a word of the characterisation set', test=w, params=p, W=model.characterization_set)
            if cex is None and not cexs and len(history) == len(tests):
                want = len(model.states) * p['walks_per_state']
                expect(len(tests) == want, f'{len(tests)} tests instead of {want}', params=p)
                for s in model.states:
                    n = len([1 for w in tests if w[:len(s.prefix)] == s.prefix and len(w) > len(s.prefix)])
                    expect(n >= p['walks_per_state'], f'{n} walks from a state instead of {p["walks_per_state"]}', state=s.prefix)
        elif name == 'KWayTransition' and cex is None:
            n = sum(map(len, tests))
            if p['max_number_of_steps']:
                expect(n <= p['max_number_of_steps'], f'{n} steps instead of at most {p["max_number_of_steps"]}', params=p)
            longest = max(p['max_path_len'] if p['method'] == 'random' else 0, max(len(s.prefix) for s in model.states) + p['k'] + p['random_walk_len'])
            if equal and not (p['max_number_of_steps'] and n + longest > p['max_number_of_steps']):
                done = set()
                for w in tests:
                    s = hd.init
                    for j in range(len(w)):
                        if j + p['k'] <= len(w):
                            done.add((s, w[j:j + p['k']]))
                        s = hd.tr[s][hd.idx[w[j]]]
                for s in hd.reachable():
                    for c in product(al, repeat=p['k']):
                        expect((s, c) in done, f'{p["k"]}-step transition sequence not executed', state=s, steps=c, params=p)
        elif name == 'KWayState' and cex is None and equal:
            ss = hd.reachable()
            if len(ss) == 1:
                expect(len(tests) >= 1, 'a one-state hypothesis is not tested')
            elif not cexs and not others:  # test cases already executed for access words of an earlier hypothesis are not repeated
                closure = {s: hd_reach(hd, s) for s in ss}
                visits = []
                for w in history:
                    s, v = hd.init, [hd.init]
                    for x in w:
                        s = hd.tr[s][hd.idx[x]]
                        v.append(s)
                    visits.append(v)
                pairs = {}
                for combo in combinations(ss, p['k']):
                    orders = [o for o in permutations(combo)]
                    ok = [o for o in orders if all(o[j + 1] in closure[o[j]] for j in range(len(o) - 1))]
                    if p['method'] == 'permutations':
                        for o in ok:
                            expect(any(subseq(o, v) for v in visits), f'a permutation of {p["k"]} states was not covered', states=o, method=p['method'])
                    elif len(ok) == len(orders):
                        expect(any(subseq(o, v) for o in orders for v in visits), f'a combination of {p["k"]} states was not covered', states=combo)
    return executed > 0, [name, f'hyps_{len(case["hyps"])}', f'n_{d.n}', 'after_cex' if cexs else 'no_cex']


def subseq(o, v):
    it = iter(v)
    return all(any(x == y for y in it) for x in o)


def hd_reach(d, s):
    seen, todo = {s}, [s]
    for q in todo:
        for t in d.tr[q]:
            if t not in seen:
                seen.add(t)
                todo.append(t)
    return seen


@st.composite
def stoch_cases(draw):
    t = draw(st.sampled_from(['onfsm', 'mdp', 'smm']))
    spec = draw(nd(t, max_n=3))
    return {'spec': spec, 'oracle': draw(params(draw(st.sampled_from(['RandomWalk', 'RandomWord'])))), 'hyps': draw(st.lists(altered(spec, (1, 2, 3)), max_size=3)), 'seed': draw(ints(0, 9999)), 'calls': draw(ints(1, 2))}


def check_stoch(case):
    p = dict(case['oracle'])
    between = p.pop('reset_between', False)
    random.seed(p['seed'])
    sul = NdSUL(case['spec'], case['seed'])
    eq = make_oracle(p, list(sul.m.al), sul, 1)
    t = case['spec']['t']
    walk = p['name'] == 'RandomWalk'
    limit = p['num_steps' if walk else 'num_walks']
    used = found = 0
    # wrong models first, then the identical one
    for spec in case['hyps'] + [case['spec']] * case['calls']:
        hyp = Nd(spec)
        model, _ = build_nd(spec)
        q0 = len(sul.traces)
        cex = eq.find_cex(model)
        tests = sul.traces[q0:]
        bad = [w for w in tests if not possible(hyp, w)]
        expect(bad == tests[-1:] if bad else cex is None, 'an observation the model does not allow was not reported, or one it allows was', tests=[w for w in tests if w in bad], cex=cex)
        if bad:
            w = tests[-1]
            expect(possible(hyp, w[:-1]), 'the counterexample was reported too late', test=w)
            want = ([x for x, _ in w], [o for _, o in w]) if t == 'onfsm' else ([hyp.outs[hyp.init]] if t == 'mdp' else []) + [z for xo in w for z in xo]
            expect(cex is not None and tuple(map(list, cex) if t == 'onfsm' else cex) == tuple(want), 'the counterexample is not what was executed', cex=cex, executed=want)
            found += 1
        used += sum(map(len, tests)) if walk else len(tests)
        expect(used <= limit if bad else used == limit, f'{used} random {"steps" if walk else "words"} instead of {limit}', params=p)
        if not walk:
            expect(all(p['min_walk_len'] <= len(w) <= p['max_walk_len'] or w is tests[-1] and bad for w in tests), 'length of a random word outside the range')
        if p['reset_after_cex'] and bad:
            used = 0
        if between and not walk:
            eq.reset_counter()
            used = 0 if p['reset_after_cex'] else used
    return True, [t, p['name'], f'cex_{found}']


def possible(m, w):
    s = frozenset([m.init])
    for x, o in w:
        s = m.succ(s, m.idx[x], o)
        if not s:
            return False
    return True


SUBS = [Sub('det', cases(), check, quick=12000), Sub('stoch', stoch_cases(), check_stoch, quick=2000)]
