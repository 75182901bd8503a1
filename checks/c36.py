import re
from fractions import Fraction

from hypothesis import strategies as st

from aalpy import automata as A
from aalpy.utils import BenchmarkSULs as B, BenchmarkVpaModels as V, BenchmarkSevpaModels as S

from vf.core import Sub, expect
from vf.gen import ints

PROPERTY = 'C36'
RULE = ('words over the alphabets of the described reference languages, built by nesting and repeating accepted pieces and then edited 0-2 times (non-trivial: accepted or at most two edits away from an accepted '
        'word, length at least two); input words for the stochastic reference models (length at least two); all calendar dates and near-dates; operation sequences of the mock broker; generated arithmetic data')
ASSUMPTIONS = ['letters of the declared alphabet', 'date strings are numbers separated by slashes or have the wrong number of fields']

# ------------------------------------------------------------------ languages

P = [('(', ')'), ('[', ']'), ('{', '}'), ('<', '>')]


def dyck(w, pairs, internal='', empty=False):
    p = dict(pairs)
    st_ = []
    for a in w:
        if a in p:
            st_.append(a)
        elif a in p.values():
            if not st_ or p[st_.pop()] != a:
                return False
        elif a not in internal:
            return False
    return not st_ and (len(w) > 0 or empty)


def D(k, internal=''):
    return lambda w: dyck(w, P[:k], internal)


def nested(k):
    """one nest: all opening before all closing letters"""
    o = [a for a, _ in P[:k]]

    def f(w):
        i = 0
        while i < len(w) and w[i] in o:
            i += 1
        return all(a not in o for a in w[i:]) and dyck(w, P[:k])
    return f


def power(u, v):
    def f(w):
        n = len(w) // (len(u) + len(v))
        return n > 0 and w == u * n + v * n
    return f


def two_sided(w):
    n = len(w) // 2
    return n > 0 and len(w) == 2 * n and set(w[:n]) <= set('ab') and set(w[n:]) <= set('cd')


def abc_d(w):
    return dyck(w, P[:1], 'abcd') and re.fullmatch(r'([()d]|abc)*', w) is not None


def prime(w):
    d = 0
    for i, a in enumerate(w):
        d += 1 if a == 'a' else -1
        if d < 0 or (d == 0 and i < len(w) - 1):
            return False
    return d == 0 and len(w) > 0




def odd(w):
    n = len(w) // 2
    return n % 2 == 1 and w == '(' * n + ')' * n


# name: (language, opening/closing pairs, internal pieces)
LANG = {
    'vpa_L1': (power('a', 'b'), [('a', 'b')], [], 'ab'), 'sevpa_for_L1': (power('a', 'b'), [('a', 'b')], [], 'ab'),
    'vpa_L2': (two_sided, [('a', 'c'), ('b', 'd'), ('a', 'd')], [], 'abcd'), 'sevpa_for_L2': (two_sided, [('a', 'c'), ('b', 'd'), ('b', 'c')], [], 'abcd'),
    'vpa_L3': (power('ab', 'cd'), [('ab', 'cd')], [], 'abcd'), 'sevpa_for_L4': (power('ab', 'cd'), [('ab', 'cd')], [], 'abcd'), 'sevpa_for_L5': (power('abc', 'def'), [('abc', 'def')], [], 'abcdef'),
    'vpa_L4': (D(2), P[:2], [], '()[]'), 'sevpa_for_L7': (D(2), P[:2], [], '()[]'), 'vpa_L6': (D(3), P[:3], [], '()[]{}'), 'sevpa_for_L8': (D(3), P[:3], [], '()[]{}'),
    'vpa_L8': (D(4), P, [], '()[]{}<>'), 'sevpa_for_L9': (D(4), P, [], '()[]{}<>'), 'vpa_L9': (nested(2), P[:2], [], '()[]'), 'sevpa_for_L12': (nested(2), P[:2], [], '()[]'),
    'vpa_L10': (D(1, 'abc'), P[:1], ['a', 'b', 'c'], '()abc'), 'sevpa_for_L13': (D(1, 'abc'), P[:1], ['a', 'b', 'c'], '()abc'),
    'vpa_L11': (D(2, 'abc'), P[:2], ['a', 'b', 'c'], '()[]abc'), 'sevpa_for_L14': (D(2, 'abc'), P[:2], ['a', 'b', 'c'], '()[]abc'),
    'vpa_L12': (abc_d, P[:1], ['abc', 'd'], '()abcd'), 'sevpa_for_L15': (abc_d, P[:1], ['abc', 'd'], '()abcd'),
    'get_Angluin_dfa': (lambda w: w.count('a') % 2 == 0 and w.count('b') % 2 == 0, [('a', 'a'), ('b', 'b'), ('a', 'b')], ['a', 'b'], 'ab'),
    'vpa_for_L16': (prime, [('a', 'b')], [], 'ab'), 'vpa_for_odd_parentheses': (odd, P[:1], [], '()'),
    'vpa_for_even_parentheses': (None, P[:1], [], '()'), 'vpa_for_L3': ('sevpa_for_L3', [('ab', 'ef'), ('cd', 'gh'), ('ad', 'gf'), ('cb', 'eh'), ('ab', 'eh'), ('cd', 'gf'), ('ab', 'gh'), ('cb', 'ef')], [], 'abcdefgh'),
}


@st.composite
def words_of(draw, pairs, pieces, al, size=6):
    n = draw(ints(0, size))
    w = ''
    for _ in range(n):
        k = draw(ints(0, 3))
        if k <= 1:
            o, c = draw(st.sampled_from(pairs))
            w = o + w + c
        elif k == 2 and pieces:
            p = draw(st.sampled_from(pieces))
            w = w + p if draw(st.booleans()) else p + w
        else:
            o, c = draw(st.sampled_from(pairs))
            w = w + o + c if draw(st.booleans()) else o + w + c
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
        i = draw(ints(0, len(w)))
        e = draw(ints(0, 3))
        if e == 0:
            w = w[:i] + draw(st.sampled_from(al)) + w[i:]
        elif e == 1:
            w = w[:i] + w[i + 1:]
        elif e == 2 and i < len(w):
            w = w[:i] + draw(st.sampled_from(al)) + w[i + 1:]
        elif i + 1 < len(w):
            w = w[:i] + w[i + 1] + w[i] + w[i + 2:]
    return w


@st.composite
def lang_cases(draw):
    name = draw(st.sampled_from(sorted(LANG)))
    _, pairs, pieces, al = LANG[name]
    w = draw(words_of(pairs, pieces, list(al), draw(st.sampled_from([2, 6, 10]))))
    if draw(ints(0, 3)) == 0:
        w = ''.join(draw(st.lists(st.sampled_from(list(al)), min_size=1, max_size=4)))
    if name.endswith('odd_parentheses') and draw(st.booleans()):
        n = draw(ints(1, 12))
        w = '(' * n + ')' * (n + draw(st.sampled_from([0, 0, 0, 1])))
    return {'name': name, 'word': w}


def accepts(model, w):
    model.reset_to_initial()
    r = model.step(None)
    for a in w:
        r = model.step(a)
    return r


def build(name):
    return next(getattr(m, name) for m in (V, S, B) if hasattr(m, name))()


def verdict(name, lang, m, w):
    got = accepts(m, w)
    if lang is None:  # "only even number of fully balanced parentheses"
        if got:
            expect(dyck(w, P[:1]) and w.count('(') % 2 == 0, 'accepted, but not an even number of balanced parentheses', name=name, word=w)
        n = len(w) // 2
        if n > 0 and n % 2 == 0 and w == '(' * n + ')' * n:
            expect(got, 'even number of balanced parentheses rejected', name=name, word=w)
        want = bool(got)
    else:
        want = accepts(build(lang), w) if isinstance(lang, str) else lang(w)
        expect(got == want, 'the reference model does not have its language', name=name, word=w, got=got, expected=want)
    expect(bool(accepts(m, w)) == bool(got), 'a second run differs', name=name, word=w)
    return want


def check_lang(c):
    name, w = c['name'], c['word']
    lang, _, _, al = LANG[name]
    m = build(name)
    a = m.get_input_alphabet()
    got_al = list(a.get_merged_alphabet()) if hasattr(a, 'get_merged_alphabet') else list(a)
    expect(sorted(got_al) == sorted(al), 'wrong alphabet', name=name, alphabet=sorted(got_al), expected=sorted(al))
    want = verdict(name, lang, m, w)
    for i in range(len(w)):
        verdict(name, lang, m, w[:i] + w[i + 1:])
    return len(w) > 1, [name, 'in' if want else 'out']


# ------------------------------------------------------------------ balanced strings

@st.composite
def bal_cases(draw):
    k = draw(ints(1, 3))
    style = draw(ints(0, 2))
    pairs = [P[:3], [('begin', 'end'), ('if', 'fi'), ('do', 'od')], [('c1', 'r1'), ('c2', 'r2'), ('c3', 'r3')]][style][:k]
    internal = draw(st.sampled_from([[], ['x'], ['x', 'yy'], ['1', '+']]))
    letters = [a for p in pairs for a in p] + internal
    w = []
    for _ in range(draw(ints(0, 5))):
        o, c = draw(st.sampled_from(pairs))
        w = [o] + w + [c] if draw(st.booleans()) else w + [o, c]
        if internal and draw(st.booleans()):
            w.insert(draw(ints(0, len(w))), draw(st.sampled_from(internal)))
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        i = draw(ints(0, len(w)))
        if draw(st.booleans()):
            w.insert(i, draw(st.sampled_from(letters)))
        else:
            w[i:i + 1] = []
    return {'pairs': [list(p) for p in pairs], 'word': w, 'empty': draw(st.booleans()), 'internal': internal}


def check_bal(c):
    pairs = [tuple(p) for p in c['pairs']]
    m = dict(pairs)
    w = c['word']
    sul = B.get_balanced_string_sul(m, c['empty'])
    want = [dyck(w[:i], pairs, c['internal'], c['empty']) for i in range(len(w) + 1)]
    for rep in range(2):
        got = list(sul.query(tuple(w)))
        if not w:
            expect(got == want, 'wrong answer for the empty word', got=got, expected=want)
        else:
            expect(got == want[1:], 'wrong verdicts for the prefixes of the word', word=w, got=got, expected=want[1:])
    sul.pre()
    expect(sul.step(None) == want[0], 'wrong answer for the empty word', empty=c['empty'])
    sul.post()
    expect(B.is_balanced(list(w), dict(m), c['empty']) == want[-1], 'is_balanced disagrees', word=w, expected=want[-1])
    return len(w) > 1, ['balanced' if want[-1] else 'unbalanced', f'len_{min(len(w), 10)}']


# ------------------------------------------------------------------ stochastic reference models

def transitions(model):
    """state -> input -> list of (output, target, probability); MDP / Markov chain outputs are those of the target"""
    t = {}
    for s in model.states:
        t[s] = {}
        for a, lst in s.transitions.items():
            if isinstance(model, A.StochasticMealyMachine):
                t[s][a] = [(o, d, Fraction(p).limit_denominator(10 ** 6)) for d, o, p in lst]
            else:
                t[s][a] = [(d.output, d, Fraction(p).limit_denominator(10 ** 6)) for d, p in lst]
    return t


def traces(t, init, w):
    dist = {((), init): Fraction(1)}
    for a in w:
        nxt = {}
        for (tr, s), p in dist.items():
            for o, d, q in t[s][a]:
                k = (tr + (o,), d)
                nxt[k] = nxt.get(k, 0) + p * q
        dist = nxt
    out = {}
    for (tr, _), p in dist.items():
        out[tr] = out.get(tr, 0) + p
    return out


def grid():
    tiles = {(0, 0): 'grass', (0, 1): 'mud', (1, 0): 'mud', (1, 1): 'grass'}
    ok = {'grass': Fraction(8, 10), 'mud': Fraction(6, 10)}
    t = {}
    for (r, c) in tiles:
        t[(r, c)] = {}
        for a, (dr, dc) in {'north': (-1, 0), 'south': (1, 0), 'west': (0, -1), 'east': (0, 1)}.items():
            to = (r + dr, c + dc)
            if to not in tiles:
                t[(r, c)][a] = [('wall', (r, c), Fraction(1))]
            else:
                slip = (1 - r, 1 - c)  # the tile diagonally opposite
                t[(r, c)][a] = [(tiles[to], to, ok[tiles[to]]), (tiles[slip], slip, 1 - ok[tiles[to]])]
    return t, (0, 0)


def coffee(minimal=False):
    t = {0: {'but': [('init', 0, Fraction(1))], 'coin': [('beep', 1, Fraction(1))]},
         1: {'but': [('init', 0, Fraction(1, 10)), ('coffee', 0, Fraction(9, 10))], 'coin': [('beep', 1, Fraction(1))]}}
    return t, 0


def weird():
    """coffee machine with two kinds of coins: whoever presses the button after coffee paid with the second kind crashes the machine with whatever comes next"""
    one = Fraction(1)
    t = {}
    for s in ('idle', 'coin', 'koin', 'served', 'kserved'):
        t[s] = {'coin': [('beep', 'coin', one)], 'koin': [('beep', 'koin', one)], 'but': [('init', 'idle', one)]}
    for s, to in (('coin', 'served'), ('koin', 'kserved')):
        t[s]['but'] = [('init', 'idle', Fraction(1, 10)), ('coffee', to, Fraction(9, 10))]
    t['kserved']['but'] = [('init', 'doomed', one)]
    for s in ('doomed', 'crash'):
        t[s] = {a: [('crash', 'crash', one)] for a in ('but', 'coin', 'koin')}
    return t, 'idle'


MODELS = {'get_small_gridworld': grid, 'get_faulty_coffee_machine_SMM': coffee, 'get_minimal_faulty_coffee_machine_SMM': coffee, 'get_faulty_coffee_machine_MDP': coffee,
          'get_weird_coffee_machine_MDP': weird, 'get_faulty_mqtt_SMM': None, 'get_ONFSM': None, 'get_benchmark_ONFSM': None, 'get_small_pomdp': None}


@st.composite
def stoch_cases(draw):
    name = draw(st.sampled_from(sorted(MODELS)))
    return {'name': name, 'word': draw(st.lists(ints(0, 9), min_size=0, max_size=6))}


def check_stoch(c):
    name = c['name']
    m = getattr(B, name)()
    if isinstance(m, A.Onfsm):
        for s in m.states:
            expect(sorted(s.transitions) == ['a', 'b'] and all(s.transitions.values()), 'a state of a reference model is not input complete', name=name, state=s.state_id)
            for lst in s.transitions.values():
                expect(len({o for o, _ in lst}) == len(lst), 'the output does not determine the successor', name=name, state=s.state_id)
                expect(all(d in m.states for _, d in lst), 'a transition leaves the model', name=name, state=s.state_id)
        return False, [name]
    t = transitions(m)
    ids = [s.state_id for s in m.states]
    expect(len(set(ids)) == len(ids), 'two states of a reference model share an id', name=name, ids=ids)
    expect(m.initial_state in m.states, 'the initial state is not a state', name=name)
    al = sorted(m.get_input_alphabet())
    for s in m.states:
        expect(sorted(s.transitions) == al, 'a state of a reference model is not input complete', name=name, state=s.state_id)
        for a, lst in t[s].items():
            expect(lst and all(p > 0 for _, _, p in lst) and sum(p for _, _, p in lst) == 1, 'a distribution of a reference model does not sum to one', name=name, state=s.state_id, input=a,
                   distribution=[(o, d.state_id, str(p)) for o, d, p in lst])
            expect(all(d in m.states for _, d, _ in lst), 'a transition leaves the model', name=name, state=s.state_id, input=a)
            if name != 'get_small_pomdp':
                outs = [o for o, _, _ in lst]
                expect(len(set(outs)) == len(outs), 'the output does not determine the successor', name=name, state=s.state_id, input=a)
    w = [al[i % len(al)] for i in c['word']]
    ref = MODELS[name]
    got = traces(t, m.initial_state, w)
    if ref is not None:
        want = traces(*ref(), w)
        expect(got == want, 'the reference model does not behave as described', name=name, word=w, got=show(got), expected=show(want))
    return len(w) > 1, [name]


def show(d):
    return sorted((list(map(str, k)), str(v)) for k, v in d.items())[:6]


# ------------------------------------------------------------------ dates, broker, arithmetic

@st.composite
def date_cases(draw):
    if draw(ints(0, 5)) == 0:
        parts = draw(st.lists(st.sampled_from(['1', '12', '2000', '0', '31', '', 'x', '-1']), max_size=5))
        return {'s': '/'.join(parts)}
    d, m = draw(ints(-1, 34)), draw(ints(-1, 15))
    if draw(st.booleans()):
        d = draw(st.sampled_from([28, 29, 30, 31, 32, 1, 0]))
    y = draw(st.sampled_from([0, 1, 1999, 2000, 2023, 2024, 9999, 10000, -1]))
    f = draw(st.sampled_from(['{}/{}/{}', '{:02d}/{:02d}/{:04d}']))
    return {'s': f.format(d, m, y)}


DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def check_date(c):
    parts = c['s'].split('/')
    want = False
    if len(parts) == 3 and all(re.fullmatch(r'-?[0-9]+', p) for p in parts):
        d, m, y = map(int, parts)
        want = 0 <= y <= 9999 and 1 <= m <= 12 and 1 <= d <= DAYS[m - 1]
    got = B.DateValidator().is_date_accepted(c['s'])
    expect(got is want, 'wrong verdict about a date', date=c['s'], got=got, expected=want)
    return len(parts) == 3, ['valid' if want else 'invalid']


@st.composite
def mqtt_cases(draw):
    ops = draw(st.lists(st.tuples(st.sampled_from(['connect', 'connect', 'disconnect', 'subscribe', 'subscribe', 'unsubscribe', 'publish', 'publish']), st.sampled_from(['t', 't', 'u', 'a\nb', '\0'])), max_size=14))
    return {'ops': [['connect', 't']] * draw(ints(0, 1)) + [list(o) for o in ops]}


def check_mqtt(c):
    m = B.MockMqttExample()
    on, topics = False, set()
    for op, t in c['ops']:
        bad = '\n' in t or '\0' in t
        if op == 'connect':
            got = m.connect()
            on, topics = not on, set()
            want = 'CONNACK' if on else 'CONCLOSED'
        elif op == 'disconnect':
            got = m.disconnect()
            on, topics, want = False, set(), 'CONCLOSED'
        else:
            got = getattr(m, op)(t)
            if bad or not on:
                on, topics, want = False, set(), 'CONCLOSED'
            elif op == 'subscribe':
                topics, want = topics | {t}, 'SUBACK'
            elif op == 'unsubscribe':
                topics, want = topics - {t}, 'UNSUBACK'
            else:
                want = 'PUBACK_PUBACK' if t in topics else 'PUBACK'
        expect(got == want, 'wrong answer of the mock broker', ops=c['ops'], at=[op, t], got=got, expected=want)
    return len(c['ops']) > 2, [f"ops_{min(len(c['ops']), 8)}"]


@st.composite
def arith_cases(draw):
    lo = draw(ints(1, 6))
    return {'n': draw(ints(1, 120)), 'lo': lo, 'hi': lo + draw(ints(0, 5)), 'seed': draw(ints(0, 10 ** 6))}


def arith(w):
    """expressions over 1, + and parentheses without unary plus; None where a unary plus makes the verdict open"""
    def atom(i):
        if i < len(w) and w[i] == '1':
            return i + 1
        if i < len(w) and w[i] == '(':
            j = expr(i + 1)
            if j is not None and j < len(w) and w[j] == ')':
                return j + 1
        if i < len(w) and w[i] == '+':
            flag.append(1)
            return atom(i + 1)
        return None

    def expr(i):
        i = atom(i)
        while i is not None and i < len(w) and w[i] == '+':
            i = atom(i + 1)
        return i
    flag = []
    ok = expr(0) == len(w)
    return None if ok and flag else ok


def check_arith(c):
    import random
    import warnings
    random.seed(c['seed'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        data, al = V.gen_arithmetic_data(c['n'], c['lo'], c['hi'])
    expect(sorted(al.get_merged_alphabet()) == sorted('1+()'), 'wrong alphabet')
    pos = 0
    words = set()
    for w, label in data:
        w = tuple(w)
        expect(set(w) <= set('1+()'), 'a letter outside of the alphabet', word=w)
        expect(0 < len(w) <= c['hi'], 'a word of the wrong length', word=w)
        want = arith(w)
        if want is not None:
            expect(label is want, 'wrong label', word=w, got=label, expected=want)
        pos += label is True
        words.add(w)
    expect(all(w[:i] in words for w in words for i in range(1, len(w))), 'the data are not closed under prefixes')
    expect(len(data) >= min(1, c['n']), 'no data')
    return pos > 0, ['positive' if pos else 'negative']


SUBS = [
    Sub('languages', lang_cases(), check_lang, 5000),
    Sub('balanced', bal_cases(), check_bal, 1500),
    Sub('stochastic', stoch_cases(), check_stoch, 1500),
    Sub('dates', date_cases(), check_date, 2500),
    Sub('broker', mqtt_cases(), check_mqtt, 1000),
    Sub('arithmetic', arith_cases(), check_arith, 150, slow_ok=True),
]
