import itertools
import random

from hypothesis import strategies as st

from aalpy.automata import Vpa, VpaAlphabet
from aalpy.learning_algs import run_PAPNI

from vf import vpl
from vf.core import Sub, expect
from vf.gen import ints

PROPERTY = 'C22'
RULE = ('labelled words over a partitioned alphabet: biased to well-matched words (grown from a grammar), mixed with arbitrary words; labels from a random visibly pushdown machine or arbitrary; '
        'all algorithms, orders, repetitions; contradictory data; non-trivial: at least three well-matched observations')
ASSUMPTIONS = ['labels are Booleans', 'the three letter groups are disjoint']


@st.composite
def matched(draw, ni, nc, nr, depth=3):
    """a well-matched word as a list of [kind, index]"""
    out = []
    for _ in range(draw(ints(0, 3))):
        if ni and (depth == 0 or draw(ints(0, 2)) == 0):
            out.append(['i', draw(ints(0, ni - 1))])
        elif depth:
            out.append(['c', draw(ints(0, nc - 1))])
            out += draw(matched(ni, nc, nr, depth - 1))
            out.append(['r', draw(ints(0, nr - 1))])
    return out


@st.composite
def anyword(draw, ni, nc, nr):
    kinds = [['i', x] for x in range(ni)] + [['c', x] for x in range(nc)] + [['r', x] for x in range(nr)]
    return draw(st.lists(st.sampled_from(kinds), max_size=7))


@st.composite
def cases(draw):
    spec = draw(vpl.vp(max_n=3, excl=False))
    ni, nc, nr = spec['ni'], spec['nc'], spec['nr']
    ws = draw(st.lists(st.one_of(matched(ni, nc, nr), matched(ni, nc, nr), anyword(ni, nc, nr)), max_size=22))
    return {'spec': spec, 'words': ws, 'src': draw(st.sampled_from(['machine', 'machine', 'random'])), 'lseed': draw(ints(0, 10 ** 6)), 'all': draw(ints(0, 3)) == 0,
            'alg': draw(st.sampled_from(['edsm', 'gsm', 'classic'])), 'shuffle': draw(ints(0, 10 ** 6)), 'dup': draw(ints(0, 3)), 'lists': draw(st.booleans()), 'print': draw(ints(0, 7)) == 0}


def letters_of(case):
    spec = dict(case['spec'])
    v = vpl.Vp(spec)
    return v, VpaAlphabet(list(v.I), list(v.C), list(v.R))


def well_matched(v, w):
    d = 0
    for a in w:
        k = v.kind[a][0]
        d += (k == 'c') - (k == 'r')
        if d < 0:
            return False
    return d == 0


def data_of(case):
    v, al = letters_of(case)
    grp = {'i': v.I, 'c': v.C, 'r': v.R}
    words = [tuple(grp[k][x] for k, x in w) for w in case['words']]
    if case['all']:
        L = 4 if len(v.al) <= 4 else 3 if len(v.al) <= 5 else 2
        words += [tuple(w) for n in range(L + 1) for w in itertools.product(v.al, repeat=n)]
    words = list(dict.fromkeys(words))
    rng = random.Random(case['lseed'])
    data = [(w, v.accepts(w) if case['src'] == 'machine' else rng.random() < 0.5) for w in words]
    return v, al, data


def learn(case, data, al, seed=0):
    rng = random.Random(case['shuffle'] + seed)
    d = [((list(w) if case['lists'] else w), o) for w, o in data]
    for _ in range(case['dup']):
        if d:
            d.append(rng.choice(d))
    rng.shuffle(d)
    return run_PAPNI(d, al, algorithm=case['alg'], print_info=case['print'])


def read(model, v, w):
    """independent reading of a VPA"""
    s, stack = model.initial_state, []
    for a in w:
        opts = [t for t in s.transitions.get(a, []) if t.action != 'pop' or (stack and stack[-1] == t.stack_guard)]
        expect(all(t.letter == a for t in opts), 'transition stored under another letter')
        expect(len(opts) <= 1, 'two moves are possible for one letter', letter=a)
        if not opts:
            return None
        t = opts[0]
        k = v.kind[a][0]
        expect(t.action == {'i': None, 'c': 'push', 'r': 'pop'}[k], 'a letter moves the stack in the wrong way', letter=a, action=t.action)
        if k == 'c':
            stack.append(t.stack_guard)
        elif k == 'r':
            stack.pop()
        s = t.target_state
        expect(any(s is x for x in model.states), 'transition to an object that is not a state of the model')
    return bool(s.is_accepting and not stack)


def check(case):
    v, al, data = data_of(case)
    ok = [(w, o) for w, o in data if well_matched(v, w)]
    if not ok:
        return False, ['no_matched_word']
    model = learn(case, data, al)
    expect(isinstance(model, Vpa), 'no model for consistent data')
    for w, o in ok:
        r = read(model, v, w)
        expect(r is not None or not o, 'a well-matched positive word cannot be read by the model', word=w)
        expect(bool(r) == o, 'the model contradicts a well-matched observation', word=w, label=o)
        model.reset_to_initial()
        got = [model.step(a) for a in w] if w else [model.step(None)]
        expect(got[-1] == o, 'executing the model contradicts a well-matched observation', word=w, label=o, got=got)
    if len(ok) < len(data):
        for w, o in data:
            if not well_matched(v, w):
                model.reset_to_initial()
                expect(not [model.step(a) for a in w][-1], 'a word that is not well matched is accepted', word=w)
    return len(ok) > 2, [case['alg'], case['src'], 'all' if case['all'] else 'some', case['spec']['sk'], f'accepting_{min(3, sum(o for _, o in ok))}']


@st.composite
def noise_cases(draw):
    c = draw(cases())
    c['dup'] = 0
    c['noise'] = draw(st.lists(anyword(c['spec']['ni'], c['spec']['nc'], c['spec']['nr']), min_size=1, max_size=8))
    return c


def check_noise(case):
    """labels of words that are not well matched make no difference"""
    v, al, data = data_of(case)
    ok = [(w, o) for w, o in data if well_matched(v, w)]
    if not ok:
        return False, ['no_matched_word']
    grp = {'i': v.I, 'c': v.C, 'r': v.R}
    noise = [tuple(grp[k][x] for k, x in w) for w in case['noise']]
    noise = [w for w in noise if not well_matched(v, w)]
    rng = random.Random(case['lseed'])
    mixed = list(ok)
    for w in noise:
        for o in rng.sample([True, False], rng.randint(1, 2)):  # even contradictory labels
            mixed.insert(rng.randrange(len(mixed) + 1), (w, o))
    form = (lambda d: [[list(w), o] for w, o in d]) if case['lists'] else (lambda d: list(d))
    m1 = run_PAPNI(form(ok), al, algorithm=case['alg'], print_info=False)
    m2 = run_PAPNI(form(mixed), al, algorithm=case['alg'], print_info=False)
    expect(m1 is not None and m2 is not None, 'no model for consistent data')
    L = 6 if len(v.al) <= 3 else 5 if len(v.al) <= 4 else 4
    for n in range(L + 1):
        for w in itertools.product(v.al, repeat=n):
            if well_matched(v, w):
                expect(bool(read(m1, v, w)) == bool(read(m2, v, w)), 'words that are not well matched change the learned language', word=w)
    return bool(noise), [case['alg'], f'noise_{min(4, len(noise))}']


@st.composite
def bad_cases(draw):
    c = draw(cases())
    c['which'] = draw(ints(0, 10 ** 6))
    return c


def check_bad(case):
    v, al, data = data_of(case)
    ok = [(w, o) for w, o in data if well_matched(v, w)]
    if not ok:
        return False, ['no_matched_word']
    w, o = ok[case['which'] % len(ok)]
    try:
        model = learn(case, data + [(w, not o)], al)
    except ValueError as e:  # the evidence-driven variant reports contradictions this way
        expect('nondeterminis' in str(e), 'unexpected error for contradictory data', error=str(e))
        model = None
    expect(model is None, 'contradictory data were turned into a model', word=w)
    return True, [case['alg']]


SUBS = [Sub('consistent', cases(), check, quick=5000), Sub('noise', noise_cases(), check_noise, quick=1500), Sub('contradictory', bad_cases(), check_bad, quick=1000)]
