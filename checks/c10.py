import random
from itertools import product

from hypothesis import strategies as st

from aalpy import oracles as O
from aalpy.base import Oracle
from aalpy.base.SUL import CacheSUL
from aalpy.oracles.WMethodEqOracle import WMethodEqOracle
from aalpy.oracles.WpMethodEqOracle import WpMethodEqOracle

from checks.c09 import make_hyp, reach
from vf import gen
from vf.core import Sub, expect
from vf.gen import ints
from vf.ref import Det, build, first_difference, minimal_spec
from vf.sul import RefSUL

PROPERTY = 'C10'
RULE = ('(bounded) one oracle of the kind W / Wp / BFS is asked about 1-3 successive minimal hypotheses with up to 5 states against one system whose minimal size is within the '
        'bound (up to 3 more states than the hypothesis), access words shortest or arbitrary, characterisation set computed or preset; (perfect) arbitrary pairs of machines; '
        '(provided) lists of supplied words; non-trivial: some hypothesis differs from the system inside the bound')
ASSUMPTIONS = ['hypotheses for W/Wp are minimal, input complete, every state has a correct access word, the initial one the empty word']


def clone(s):
    return {k: ([list(r) if isinstance(r, list) else r for r in v] if isinstance(v, list) else v) for k, v in s.items()}


@st.composite
def mutant(draw, spec, max_extra):
    """spec plus up to max_extra states that copy existing ones, with 1-2 local faults"""
    s = clone(spec)
    for _ in range(draw(ints(0, max_extra))):
        x = draw(ints(0, s['n'] - 1))
        s['tr'].append(list(s['tr'][x]))
        s['out'].append(list(s['out'][x]) if s['t'] == 'mealy' else s['out'][x])
        s['n'] += 1
        # redirect one edge that leads to x into the copy (the copy of the first such edge always exists somewhere)
        into = [(q, i) for q in range(s['n']) for i in range(s['k']) if s['tr'][q][i] == x]
        if into:
            q, i = into[draw(ints(0, len(into) - 1))]
            s['tr'][q][i] = s['n'] - 1
    for _ in range(draw(ints(1, 2))):
        q, i = draw(ints(max(0, s['n'] - 3), s['n'] - 1)) if draw(st.booleans()) else draw(ints(0, s['n'] - 1)), draw(ints(0, s['k'] - 1))
        if draw(st.booleans()) or (s['t'] != 'mealy' and q == s['init']):
            s['tr'][q][i] = draw(ints(0, s['n'] - 1))
        elif s['t'] == 'mealy':
            s['out'][q][i] = (s['out'][q][i] + 1) % 2
        else:
            s['out'][q] = (s['out'][q] + 1) % 2
    return s


@st.composite
def cases(draw, names):
    name = draw(st.sampled_from(names))
    base = minimal_spec(draw(gen.det_mix(big=14, big_n=11, big_k=2, max_n=5, max_k=3)))
    wide = base['n'] * base['k'] <= 8
    extra = draw(ints(0, 3 if wide and base['k'] <= 2 else 2 if wide else 1))
    hyps = [base]
    for _ in range(draw(ints(0, 2))):
        h = minimal_spec(draw(mutant(base, 1)))
        if h['n'] <= base['n'] + extra:
            hyps.append(h)
    if len(hyps) > 1 and draw(st.booleans()):
        hyps.reverse()
    sysm = minimal_spec(draw(mutant(base, extra)))
    c = {'name': name, 'spec': sysm, 'hyps': hyps, 'seed': draw(ints(0, 999)), 'access': draw(st.sampled_from(['short', 'short', 'random']))}
    if name == 'BFS':
        c['depth'] = draw(ints(1, 5 if base['k'] < 3 else 4))
    else:
        c['m'] = max([sysm['n']] + [h['n'] for h in hyps]) + draw(st.sampled_from([0, 0, 0, 1]))
        c['preset'] = [draw(gen.words(base['k'], 3, 1)) for _ in range(draw(ints(1, 2)))] if draw(ints(0, 3)) == 0 else None
        c['shuffle'] = draw(st.booleans())
    return c


def check(case):
    spec, name = case['spec'], case['name']
    sul = RefSUL(spec, max_resets=200000, record=name == 'BFS')
    d = sul.m
    rng = random.Random(case['seed'])
    random.seed(case['seed'])
    al = list(d.al)
    if name == 'WMethod':
        eq = WMethodEqOracle(al, sul, max_number_of_states=case['m'], shuffle_test_set=case['shuffle'])
    elif name == 'Wp':
        eq = WpMethodEqOracle(al, sul, max_number_of_states=case['m'])
    else:
        eq = O.BreadthFirstExplorationEqOracle(al, sul, depth=case['depth'])
    differ = 0
    for k, h in enumerate(case['hyps']):
        hd = Det(h)
        if hd.t != 'mealy' and hd.out[hd.init] != d.out[d.init]:
            continue
        diff = first_difference(d, hd)
        model = make_hyp(reach(h), case['access'], rng)
        if case.get('preset'):
            model.characterization_set = list(model.compute_characterization_set()) + [tuple(d.al[i] for i in w) for w in case['preset']]
        cex = eq.find_cex(model)
        if name == 'BFS':
            inside = diff is not None and len(diff) <= case['depth']
            expect(cex is not None or not inside, f'breadth-first exploration of depth {case["depth"]} missed a difference of length {len(diff or ())}', diff=diff, hypothesis=k)
            expect(cex is None or len(cex) <= case['depth'], 'a test is longer than the depth', cex=cex)
        else:
            inside = diff is not None
            expect(cex is not None or not inside, f'{name} missed a system with {d.n} states (bound {case["m"]})', diff=diff, hypothesis=k, states=len(h['tr']))
        differ += inside
    return differ > 0, [name, case['access'], f'hyps_{len(case["hyps"])}', f'k_{spec["k"]}', f'extra_{spec["n"] - len(case["hyps"][0]["tr"])}']


@st.composite
def perfect_cases(draw):
    a = draw(gen.det_mix(max_n=8, max_k=3))
    mode = draw(st.sampled_from(['mut', 'mut', 'other', 'same', 'min']))
    if mode == 'mut':
        b = draw(mutant(a, 2))
    elif mode == 'other':
        b = draw(gen.det(types=(a['t'],), max_n=8, min_k=a['k'], max_k=a['k'], sks=(a['sk'],), oks=(a['ok'],)))
    else:
        b = minimal_spec(a) if mode == 'min' else a
    return {'spec': a, 'hyp': b, 'dup': draw(ints(0, 1))}


def check_perfect(case):
    sul = RefSUL(case['spec'])
    d, hd = sul.m, Det(case['hyp'])
    if d.t != 'mealy' and hd.out[hd.init] != d.out[d.init]:
        return False, ['initial']
    diff = first_difference(d, hd)
    al = list(d.al)
    if case['dup']:
        al.reverse()
    eq = O.PerfectKnowledgeEqOracle(al, sul, build(case['spec'])[0])
    for _ in range(2):
        cex = eq.find_cex(make_hyp(reach(case['hyp'])))
        expect((cex is None) == (diff is None), 'the perfect-knowledge oracle is wrong about equivalence', diff=diff, cex=cex)
    return diff is not None, [d.t, 'differ' if diff else 'equal']


class Nothing(Oracle):
    def __init__(self, al, sul):
        super().__init__(al, sul)
        self.calls = 0

    def find_cex(self, hypothesis):
        self.calls += 1
        return None


@st.composite
def provided_cases(draw):
    base = draw(gen.det(max_n=6, max_k=3))
    hyps = [draw(mutant(base, 1)) for _ in range(draw(ints(1, 3)))]
    return {'spec': base, 'hyps': hyps, 'words': draw(st.lists(gen.words(base['k'], 6, 1), min_size=1, max_size=6)), 'rep': draw(st.booleans()), 'tup': draw(st.booleans())}


def check_provided(case):
    sul = RefSUL(case['spec'], record=True)
    d = sul.m
    words = [(tuple if case['tup'] else list)(d.al[i] for i in w) for w in case['words']]
    given = [tuple(w) for w in words]
    eq = O.ProvidedSequencesOracleWrapper(list(d.al), sul, Nothing(list(d.al), sul), words)
    hits, tried = 0, set()
    for h in case['hyps']:
        hd = Det(h)
        if hd.t != 'mealy' and hd.out[hd.init] != d.out[d.init]:
            continue
        model = make_hyp(reach(h))
        for _ in range(2 if case['rep'] else 1):
            due = [w for w in given if w not in tried and d.run(w) != hd.run(w)]
            cex = eq.find_cex(model)
            tried |= {tuple(a for a, _ in t) for t in sul.log}
            expect(cex is not None or not due, 'a supplied sequence that shows a difference was not tried', sequence=due)
            expect(cex is not None or all(w in tried for w in given), 'a supplied sequence was not tried', given=given)
            expect([tuple(w) for w in words] == given, "the caller's list of sequences was modified", now=words)
            hits += bool(due)
    return hits > 0, [f'hyps_{len(case["hyps"])}', 'rep' if case['rep'] else 'once']


# ------------------------------------------------------------------ no small faulty system passes all executed tests

@st.composite
def suite_cases(draw):
    base = minimal_spec(draw(gen.det(max_n=5, max_k=3)))
    wide = base['n'] * base['k'] <= 8
    extra = draw(st.sampled_from([1, 1, 2, 2, 3] if wide and base['k'] <= 2 else [0, 1, 1, 2] if wide else [0, 1, 1]))
    return {'name': draw(st.sampled_from(['WMethod', 'Wp', 'Wp'])), 'spec': base, 'extra': extra, 'seed': draw(ints(0, 9999)), 'access': draw(st.sampled_from(['short', 'short', 'random'])),
            'n': 400}


def faulty(spec, extra, rng):
    """a chain of copies hangs on one transition, the last of them (or any other state) has one fault"""
    s = clone(spec)
    q, i = rng.randrange(s['n']), rng.randrange(s['k'])
    for _ in range(rng.choice([extra, extra, rng.randint(0, extra)])):
        x = s['tr'][q][i]
        s['tr'].append(list(s['tr'][x]))
        s['out'].append(list(s['out'][x]) if s['t'] == 'mealy' else s['out'][x])
        s['n'] += 1
        s['tr'][q][i] = s['n'] - 1
        q, i = s['n'] - 1, rng.randrange(s['k'])
    if rng.random() < .8:
        s['tr'][q][i] = rng.randrange(s['n'])
    elif s['t'] == 'mealy':
        s['out'][q][i] = 1 - min(s['out'][q][i], 1)
    elif q != s['init']:
        s['out'][q] = 1 - min(s['out'][q], 1)
    return s


def check_suite(case):
    spec = case['spec']
    sul = RefSUL(spec, max_resets=200000, record=True)
    d = sul.m
    m = spec['n'] + case['extra']
    random.seed(case['seed'])
    eq = (WMethodEqOracle if case['name'] == 'WMethod' else WpMethodEqOracle)(list(d.al), sul, m)
    cex = eq.find_cex(make_hyp(reach(spec), case['access'], random.Random(case['seed'])))
    expect(cex is None, 'a counterexample for an equivalent system', cex=cex)
    tree = {}
    for t in sul.log:
        node = tree
        for a, _ in t:
            node = node.setdefault(d.al.index(a), {})
    rng = random.Random(case['seed'])
    faults = 0
    for _ in range(case['n']):
        f = Det(faulty(spec, case['extra'], rng))
        diff = first_difference(d, f)
        if diff is None:
            continue
        faults += 1
        todo, passed = [(tree, d.init, f.init)], True
        while todo and passed:
            node, x, y = todo.pop()
            for i, sub in node.items():
                x2, y2 = d.tr[x][i], f.tr[y][i]
                if (d.out[x][i] != f.out[y][i]) if d.t == 'mealy' else (d.out[x2] != f.out[y2]):
                    passed = False
                    break
                todo.append((sub, x2, y2))
        expect(not passed, f'a system with at most {m} states differs from the hypothesis and passes every test of {case["name"]} with that bound', difference=diff, table=f.tr, outputs=f.out)
    return faults > 0, [case['name'], f'extra_{case["extra"]}', d.t, f'faults_{min(faults // 30, 5)}']


SUBS = [Sub('w', cases(['WMethod']), check, quick=6000), Sub('wp', cases(['Wp']), check, quick=6000), Sub('bfs', cases(['BFS']), check, quick=3000),
        Sub('suite', suite_cases(), check_suite, quick=8000), Sub('perfect', perfect_cases(), check_perfect, quick=4000), Sub('provided', provided_cases(), check_provided, quick=2000)]
