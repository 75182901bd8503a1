from hypothesis import strategies as st

from aalpy.SULs import AutomatonSUL, RegexSUL, TomitaSUL, PyClassSUL, FunctionDecorator, MealySUL

from vf import gen
from vf.core import Sub, expect
from vf.gen import ints
from vf.ref import Det, build
from vf.table import models, make, table

PROPERTY = 'C18'
RULE = ('random operation histories (reset, step, current output, run from a state, output sequence of a state, single output, whole query, interrupted queries) on random DFA / Moore / Mealy machines against '
        'the transition table; regular expressions rendered from random syntax trees against derivatives; all Tomita grammars on words up to length 12 against independent definitions; classes with '
        'state and arguments against a model; non-trivial: at least three operations / a word of length two')
ASSUMPTIONS = []

OPS = ['reset', 'step', 'step', 'step', 'none', 'exec', 'seq', 'one', 'query', 'pre', 'io', 'path', 'char']


@st.composite
def cases(draw):
    s = draw(gen.det_mix(max_n=5, max_k=3, big=10, big_n=12, big_k=4, wide=6))
    ops = []
    for _ in range(draw(ints(2, 14))):
        op = draw(st.sampled_from(OPS))
        q = draw(ints(0, s['n'] - 1))
        if op in ('step', 'one'):
            ops.append([op, q, [draw(ints(0, s['k'] - 1))]])
        elif op in ('exec', 'seq', 'query', 'io'):
            ops.append([op, q, draw(gen.lwords(s['k'], 6))])
        else:
            ops.append([op, q, []])
    return {'spec': s, 'ops': ops}


def check(case):
    d = Det(case['spec'])
    model, states = build(case['spec'])
    num = {id(s): i for i, s in enumerate(states)}
    before = table(model, d.t)
    sul = AutomatonSUL(model)
    cur = d.init
    nq = ns = 0
    for op, q, w in case['ops']:
        w = tuple(d.al[i] for i in w)
        if op == 'reset':
            model.reset_to_initial()
            cur = d.init
        elif op == 'pre':
            sul.pre()
            cur = d.init
        elif op == 'step':
            o = model.step(w[0]) if q % 2 else sul.step(w[0])
            expect(o == d.run(w, cur)[0], 'wrong output of a step', state=cur, input=w[0], got=o)
            cur = d.target(w, cur)
        elif op == 'none':
            if d.t != 'mealy':
                o = model.step(None)
                expect(o == d.out[cur], 'wrong current output', state=cur, got=o)
        elif op == 'exec':
            o = model.execute_sequence(states[q], w)
            expect(list(o) == (d.run(w, q) if w else []), 'wrong outputs of a sequence', state=q, word=w, got=o)
            cur = d.target(w, q)
        elif op == 'seq':
            o = model.compute_output_seq(states[q], w)
            expect(list(o) == d.run(w, q), 'wrong output sequence of a state', state=q, word=w, got=o)
        elif op == 'one':
            o = model.output_step(states[q], w[0])
            expect(o == d.run(w, q)[0], 'wrong output of a state', state=q, input=w[0], got=o)
        elif op in ('query', 'io'):
            if d.t == 'mealy' and not w:
                continue
            o = sul.query(w) if op == 'query' else sul.io_query(w)
            if op == 'io':
                expect([x[0] for x in o] == list(w), 'wrong inputs in an input/output query', word=w, got=o)
                o = [x[1] for x in o]
                want = d.run(w) if w else []
            else:
                want = d.run(w)
            expect(list(o) == want, 'wrong answer to a query', word=w, got=o, expected=want)
            cur = d.target(w)
            nq += 1
            ns += len(w)
            expect((sul.num_queries, sul.num_steps) == (nq, ns), 'wrong count of queries or steps', queries=sul.num_queries, steps=sul.num_steps)
        elif op == 'path':
            model.get_shortest_path(states[q], states[0])
        else:
            model.compute_characterization_set(raise_warning=False)
        expect(model.current_state is states[cur], 'wrong current state after the operation', op=op, expected=cur)
    expect(table(model, d.t) == before, 'executing the machine changed it')
    return len(case['ops']) > 2, [d.t, case['spec']['fam']]


# ---------------------------------------------------------------- regular expressions

def rx(depth):
    leaf = st.sampled_from([['l', 'a'], ['l', 'b'], ['l', 'c'], ['l', '0'], ['dot'], ['e'], ['set', 'ab'], ['nset', 'a']])
    if depth == 0:
        return leaf
    sub = rx(depth - 1)
    return st.one_of(leaf, st.tuples(st.just('cat'), sub, sub).map(list), st.tuples(st.just('alt'), sub, sub).map(list), st.tuples(st.just('star'), sub).map(list),
                     st.tuples(st.just('opt'), sub).map(list), st.tuples(st.just('plus'), sub).map(list))


def render(r, level=0):
    """level 0: top / alternative, 1: concatenation, 2: atom"""
    k = r[0]
    if k == 'l':
        return r[1]
    if k == 'dot':
        return '.'
    if k == 'e':
        return '()'
    if k == 'set':
        return f'[{r[1]}]'
    if k == 'nset':
        return f'[^{r[1]}]'
    if k == 'cat':
        s, lv = render(r[1], 1) + render(r[2], 1), 1
    elif k == 'alt':
        s, lv = render(r[1], 0) + '|' + render(r[2], 0), 0
    else:
        return '(' + render(r[1], 0) + ')' + {'star': '*', 'opt': '?', 'plus': '+'}[k]
    return s if lv >= level else f'({s})'


def nullable(r):
    k = r[0]
    return k in ('e', 'star', 'opt') or (k == 'cat' and nullable(r[1]) and nullable(r[2])) or (k == 'alt' and (nullable(r[1]) or nullable(r[2]))) or (k == 'plus' and nullable(r[1]))


def ends(r, w, i):
    """positions at which a match of r that starts at i may end"""
    k = r[0]
    if k == 'e':
        return {i}
    if k in ('l', 'dot', 'set', 'nset'):
        if i >= len(w):
            return set()
        c = w[i]
        return {i + 1} if (k == 'dot' or (k == 'l' and c == r[1]) or (k == 'set' and c in r[1]) or (k == 'nset' and c not in r[1])) else set()
    if k == 'cat':
        return {y for x in ends(r[1], w, i) for y in ends(r[2], w, x)}
    if k == 'alt':
        return ends(r[1], w, i) | ends(r[2], w, i)
    if k == 'opt':
        return {i} | ends(r[1], w, i)
    res = {i} if k == 'star' else set()
    todo, seen = [i], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        for y in ends(r[1], w, x):
            res.add(y)
            todo.append(y)
    return res


def repeats(r):
    own = 0 if r[0] not in ('star', 'plus') else 1 if len(r[1]) == 1 or isinstance(r[1][1], str) else 9
    return own + sum(repeats(x) for x in r[1:] if isinstance(x, list))


@st.composite
def regex_cases(draw):
    r = draw(rx(3))
    short = st.lists(st.sampled_from(['a', 'b', 'c', 0, 'ab']), max_size=7)
    # several repetitions make the regular expression engine itself exponential in the length of the word
    word = st.one_of([short] * 12 + [st.lists(st.sampled_from(['a', 'b']), min_size=20, max_size=45)]) if repeats(r) < 3 else short
    return {'rx': r, 'dollar': draw(st.booleans()), 'words': draw(st.lists(word, min_size=1, max_size=6)), 'empty': draw(ints(0, 30))}


def check_regex(case):
    r = ['e'] if case['empty'] == 0 else case['rx']
    text = '' if case['empty'] == 0 else render(r)
    if case['dollar'] and '|' not in text:
        text += '$'
    sul = RegexSUL(text)
    n = 0
    for w in case['words']:
        o = sul.query(tuple(w))
        want = []
        for i in range(1 if w else 0, len(w) + 1):
            s = ''.join(map(str, w[:i]))
            want.append(len(s) in ends(r, s, 0))
        expect(o == want, 'wrong answer for a regular expression', regex=text, word=w, got=o, expected=want)
        n += sum(want)
    return any(len(w) > 1 for w in case['words']), ['accepting' if n else 'rejecting', 'top_alt' if case['rx'][0] == 'alt' else case['rx'][0]]


# ---------------------------------------------------------------- Tomita

def tomita(k, w):
    if k == 1:
        return all(c == '1' for c in w)
    if k == 2:
        return len(w) % 2 == 0 and all(c == ('1' if i % 2 == 0 else '0') for i, c in enumerate(w))
    if k in (3, -3):
        runs = []
        for c in w:
            if runs and runs[-1][0] == c:
                runs[-1][1] += 1
            else:
                runs.append([c, 1])
        bad = any(runs[i][0] == '1' and runs[i][1] % 2 and any(runs[j][0] == '0' and runs[j][1] % 2 for j in range(i + 1, len(runs))) for i in range(len(runs)))
        return bad if k < 0 else not bad
    if k == 4:
        return not any(w[i:i + 3] == '000' for i in range(len(w)))
    if k == 5:
        return w.count('0') % 2 == 0 and w.count('1') % 2 == 0
    if k == 6:
        return (w.count('0') - w.count('1')) % 3 == 0
    s = 0  # 0*1*0*1*
    for c in w:
        if s in (0, 2) and c == '1':
            s += 1
        elif s in (1, 3) and c == '0':
            s += 1
    return s <= 3


@st.composite
def tomita_cases(draw):
    return {'k': draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, -3])), 'int': draw(st.booleans()),
            'words': draw(st.lists(st.one_of(gen.lwords(2, 12), st.lists(st.sampled_from([[0], [1], [0, 0], [1, 1], [1, 0], [0, 0, 0]]), max_size=5).map(lambda l: sum(l, []))), min_size=1, max_size=6))}


def check_tomita(case):
    sul = TomitaSUL(case['k'])
    for w in case['words']:
        x = tuple(w) if case['int'] else tuple(map(str, w))
        o = sul.query(x)
        s = ''.join(map(str, w))
        want = [tomita(case['k'], s[:i]) for i in range(1 if s else 0, len(s) + 1)]
        expect([bool(b) for b in o] == want, 'wrong answer for a Tomita grammar', grammar=case['k'], word=s, got=o, expected=want)
    return any(len(w) > 1 for w in case['words']), [f'tomita_{case["k"]}']


# ---------------------------------------------------------------- Python classes

class Box:
    """a small class with state, arguments and falsy return values"""
    created = 0

    def __init__(self):
        Box.created += 1
        self.items = []

    def put(self, x):
        if len(self.items) >= 3:
            return 'FULL'
        self.items.append(x)
        return len(self.items)

    def get(self):
        return self.items.pop(0) if self.items else None

    def swap(self, i, j):
        if max(i, j) >= len(self.items):
            return False
        self.items[i], self.items[j] = self.items[j], self.items[i]
        return True

    def fill(self, a, b, c, d, e):
        self.items = [a, b, c, d, e]
        return (e, d)

    def clear(self):
        self.items = []
        return ''


def model_box(items, op, args):
    if op == 'put':
        return (items + args[:1], len(items) + 1) if len(items) < 3 else (items, 'FULL')
    if op == 'get':
        return (items[1:], items[0]) if items else (items, None)
    if op == 'swap':
        i, j = args
        if max(i, j) >= len(items):
            return items, False
        n = list(items)
        n[i], n[j] = n[j], n[i]
        return n, True
    if op == 'fill':
        return list(args), (args[4], args[3])
    return [], ''


CALLS = [('put', [0]), ('put', [1]), ('put', ['']), ('put', [False]), ('put', [[7, 8]]), ('get', None), ('swap', [0, 1]), ('swap', [0, 0]), ('clear', None), ('fill', [1, 2, 3, 0, ''])]


@st.composite
def class_cases(draw):
    return {'words': draw(st.lists(st.lists(ints(0, len(CALLS) - 1), min_size=1, max_size=8), min_size=1, max_size=5))}


def check_class(case):
    sul = PyClassSUL(Box)
    letters = []
    for name, args in CALLS:
        f = getattr(Box, name)
        if args is None:
            letters.append(FunctionDecorator(f))
        elif len(args) == 1 and not isinstance(args[0], list):
            letters.append(FunctionDecorator(f, args[0]))
        else:
            letters.append(FunctionDecorator(f, args))
    Box.created = 0
    for n, w in enumerate(case['words']):
        o = sul.query(tuple(letters[i] for i in w))
        items, want = [], []
        for i in w:
            items, r = model_box(items, CALLS[i][0], CALLS[i][1] or [])
            want.append(r)
        expect([(type(x), x) for x in o] == [(type(x), x) for x in want], 'wrong answer of a class', word=[CALLS[i] for i in w], got=o, expected=want)
        expect(Box.created >= n + 1, 'the class was not created again for the next query')
    return any(len(w) > 1 for w in case['words']), [f'words_{len(case["words"])}']


SUBS = [Sub('machines', cases(), check, quick=10000), Sub('regex', regex_cases(), check_regex, quick=5000), Sub('tomita', tomita_cases(), check_tomita, quick=3000), Sub('classes', class_cases(), check_class, quick=2000)]
