import itertools
import random

from hypothesis import strategies as st

from aalpy.learning_algs import run_RPNI

from vf import gen
from vf.core import Sub, expect
from vf.gen import ints
from vf.ref import Det, ReadDet, first_difference, check_type, minimal_spec, sym, osym

PROPERTY = 'C21'
RULE = ('(consistent) labelled words / prefix-closed traces from a random machine or with arbitrary consistent labels, in any order, with repetitions, lists or tuples, both algorithms, all completion modes; '
        '(exact) data containing a characteristic sample computed from the machine plus random words; (contradictory) data with one conflicting label; non-trivial: at least three observations')
ASSUMPTIONS = ['data for Mealy machines are prefix-closed (documented)', 'labels are not None']


def label_word(d, w):
    """label of a word: last output (for mealy: of the last input)"""
    return d.run(w)[-1]


@st.composite
def data_cases(draw):
    t = draw(st.sampled_from(['dfa', 'moore', 'mealy']))
    k = draw(ints(1, 3))
    src = draw(st.sampled_from(['machine', 'machine', 'random']))
    if src == 'machine':
        spec = draw(gen.det_mix(types=(t,), max_n=5, max_k=k, min_k=k, big=10, big_n=8, big_k=k))
    else:
        spec = {'t': t, 'k': k, 'sk': draw(st.sampled_from(['str', 'int', 'tuple', 'word', 'mixed', 'neg', 'text'])), 'ok': 'bool' if t == 'dfa' else draw(st.sampled_from(['str', 'int', 'bool', 'tuple', 'empty', 'mixed', 'text']))}
    dense = draw(ints(0, 2))
    ws = draw(st.lists(gen.lwords(k, 5 if dense else 8), min_size=0 if dense == 0 else 5, max_size=25))
    return {'t': t, 'src': src, 'spec': spec, 'words': ws, 'lseed': draw(ints(0, 10 ** 6)), 'close': draw(st.booleans()), 'gaps': draw(st.booleans()), 'shuffle': draw(ints(0, 10 ** 6)), 'lists': draw(st.booleans()),
            'alg': draw(st.sampled_from(['gsm', 'gsm', 'classic'])), 'complete': draw(st.sampled_from([None, None, 'self_loop', 'sink_state'])), 'dup': draw(ints(0, 3)), 'print': draw(ints(0, 5)) == 0}


def data_of(case):
    """[(word, label)] with distinct words"""
    t, spec = case['t'], case['spec']
    al = [sym(spec['sk'], i) for i in range(spec['k'])]
    words = []
    for w in case['words']:
        w = tuple(w)
        pre = [w[:i] for i in range(len(w) + 1)] if (case['close'] or (t == 'mealy' and not case.get('gaps'))) else [w]
        for p in pre:
            if p not in words and (p or t != 'mealy'):
                words.append(p)
    if case['src'] == 'machine':
        d = Det(spec)
        return al, [(tuple(al[i] for i in w), label_word(d, tuple(al[i] for i in w))) for w in words]
    rng = random.Random(case['lseed'])
    ok = spec['ok']
    return al, [(tuple(al[i] for i in w), osym(ok, rng.randrange(2))) for w in words]


def replay(model, t, data):
    for w, o in data:
        s = model.initial_state
        out = None if t == 'mealy' else (s.is_accepting if t == 'dfa' else s.output)
        for a in w:
            expect(a in s.transitions, 'an observation cannot be replayed: missing transition', word=w, label=o)
            if t == 'mealy':
                out = s.output_fun.get(a)
            s = s.transitions[a]
            if t != 'mealy':
                out = s.is_accepting if t == 'dfa' else s.output
        expect(out == o, 'the model contradicts an observation', word=w, label=o, model=out)


def well_formed(model, t, al):
    check_type(model, t)
    ids = {id(s) for s in model.states}
    expect(len(ids) == len(model.states), 'a state is listed twice')
    expect(id(model.initial_state) in ids, 'the initial state is not one of the states')
    names = [s.state_id for s in model.states]
    expect(len(set(names)) == len(names), 'two states share an id')
    for s in model.states:
        for a, x in s.transitions.items():
            expect(a in al, 'a transition on an unknown input', input=a)
            expect(id(x) in ids, 'a transition leads to an object that is not a state of the model')
            if t == 'mealy':
                expect(a in s.output_fun, 'a transition without output')
        if t == 'dfa':
            expect(s.is_accepting in (True, False) and s.is_accepting is not None, 'acceptance of a state is undefined')


def run(case, data):
    d = [((list(w) if case['lists'] else w), o) for w, o in data]
    if case['lists'] and case['shuffle'] % 2:
        d = [list(x) for x in d]
    rng = random.Random(case['shuffle'])
    for _ in range(case['dup']):
        if d:
            d.append(rng.choice(d))
    rng.shuffle(d)
    orig = list(d)
    model = run_RPNI(d, case['t'], algorithm=case['alg'], input_completeness=case['complete'], print_info=case['print'])
    return model, d, orig


def check(case):
    t = case['t']
    al, data = data_of(case)
    model, d, orig = run(case, data)
    expect(model is not None, 'no model for consistent data')
    well_formed(model, t, al)
    used = {a for w, _ in data for a in w}
    replay(model, t, data)
    if case['complete'] is not None:
        for s in model.states:
            for a in used:
                expect(a in s.transitions, 'the model is not input complete', state=s.state_id, input=a)
    nodes = len({w[:i] for w, _ in data for i in range(len(w) + 1)})
    expect(len(model.states) <= max(1, nodes) + 1, 'more states than observed situations', states=len(model.states), situations=nodes)
    return len(data) > 2, [t, case['alg'], case['src'], str(case['complete'])]


# ------------------------------------------------------------------ characteristic sample

@st.composite
def exact_cases(draw):
    t = draw(st.sampled_from(['dfa', 'moore', 'mealy']))
    spec = draw(gen.det_mix(types=(t,), max_n=5, max_k=2, big=20, big_n=11, big_k=2))
    return {'t': t, 'spec': minimal_spec(spec), 'words': draw(st.lists(gen.words(spec['k'], 7), max_size=6)), 'shuffle': draw(ints(0, 10 ** 6)), 'lists': draw(st.booleans()),
            'alg': draw(st.sampled_from(['gsm', 'gsm', 'classic'])), 'complete': None, 'dup': draw(ints(0, 1)), 'print': False, 'mode': draw(st.sampled_from(['char', 'all']))}


def shortest_words(d):
    """all shortest access words of every state"""
    acc = {d.init: [()]}
    level = [d.init]
    while level:
        nxt = {}
        for s in level:
            for i, x in enumerate(d.tr[s]):
                if x not in acc:
                    nxt.setdefault(x, []).extend(w + (d.al[i],) for w in acc[s])
        acc.update(nxt)
        level = list(nxt)
    return acc


def check_exact_sample(case):
    spec, t = case['spec'], case['t']
    d = Det(spec)
    acc = shortest_words(d)
    if sum(map(len, acc.values())) > 90:
        return False, ['too_many_access_words']
    W = {()}
    for a, b in itertools.combinations(range(d.n), 2):
        W.add(first_difference(d, d, a, b))
    S = [w for ws in acc.values() for w in ws]
    base = S + [w + (a,) for w in S for a in d.al]
    words = [w + x for w in base for x in W]
    words += [tuple(d.al[i] for i in w) for w in case['words']]
    if case['mode'] == 'all':
        L = max(map(len, words))
        if d.k ** L <= 300:
            words += [tuple(x) for n in range(L + 1) for x in itertools.product(d.al, repeat=n)]
    if t == 'mealy' or len(words) % 2:
        words = [w[:i] for w in words for i in range(len(w) + 1)]
    words = [w for w in dict.fromkeys(words) if w or t != 'mealy']
    if case['alg'] == 'classic' and len(words) > 250:
        case = dict(case, alg='gsm')
    data = [(w, label_word(d, w)) for w in words]
    model, _, _ = run(case, data)
    expect(model is not None, 'no model for consistent data')
    well_formed(model, t, d.al)
    replay(model, t, data)
    r = ReadDet(model, t, d.al)
    w = first_difference(d, r)
    expect(w is None, 'the model of a characteristic sample differs from the machine', word=w)
    expect(len(model.states) == d.n, 'the model of a characteristic sample is not minimal', states=len(model.states), minimal=d.n)
    return d.n > 1, [t, case['alg'], f'n_{d.n}']


# ------------------------------------------------------------------ contradictory data

@st.composite
def bad_cases(draw):
    c = draw(data_cases())
    c['words'] = c['words'] or [[0]]
    c['which'] = draw(ints(0, 10 ** 6))
    c['other'] = draw(ints(1, 2))
    return c


def check_bad(case):
    al, data = data_of(case)
    if not data:
        return False, ['empty']
    w, o = data[case['which'] % len(data)]
    ok = case['spec']['ok']
    vals = [osym(ok, i) for i in range(2 if ok == 'bool' else 3)]
    other = next(v for v in vals[case['other'] - 1:] + vals if v != o)
    model, _, _ = run(case, data + [(w, other)])
    expect(model is None, 'contradictory data were turned into a model', word=w, labels=[o, other])
    return True, [case['t'], case['alg']]


SUBS = [Sub('consistent', data_cases(), check, quick=9000), Sub('exact', exact_cases(), check_exact_sample, quick=1600), Sub('contradictory', bad_cases(), check_bad, quick=1500)]
