import os
import random
import tempfile

from hypothesis import strategies as st

import aalpy.paths  # noqa
from aalpy.base import Automaton
from aalpy.utils import (CharacterTokenizer, DelimiterTokenizer, IODelimiterTokenizer, convert_i_o_traces_for_RPNI,
                         generate_input_output_data_from_automata, generate_input_output_data_from_vpa)
from aalpy.utils import Sampling
from aalpy.utils.HelperFunctions import all_prefixes, all_suffixes, extend_set, get_cex_prefixes

from vf import gen
from vf.core import Sub, expect, Violation
from vf.gen import ints
from vf.ref import Det, build
from vf.stoch import nd, Nd, build_nd
from vf.vpl import vp, Vp
from vf.table import build_vp

PROPERTY = 'C30'
RULE = ('data files written from generated sequences (many delimiters, multi-character and numeric symbols, unicode) and read back; traces of all trace formats converted; data sampled from generated automata of '
        'every kind compared with the reference machine; non-trivial: at least two sequences, one of length two or more')
ASSUMPTIONS = ['symbols in files contain neither delimiters nor line boundary characters and are not empty', 'symbols are hashable']

TEXT = ['a', 'b', 'coin', '0', '1', '7', '10', '007', '-3', '1.5', '²', 'x y', ' s', 'q ', '٣', 'é', 'A_b', '#', '"q"', "it's", '00', 'None', 'True', '()', '1_0', '+4', '\t']
DELIMS = [',', ';', '|', ' -> ', '::', '/', ' ', '\t', '.', '(', '#-', '\\', '**']


def listcopy(x):
    return [list(y) if isinstance(y, list) else y for y in x]


@st.composite
def file_case(draw):
    kind = draw(st.sampled_from(['char', 'delim', 'io', 'io']))
    c = {'kind': kind, 'end': draw(st.sampled_from(['', '\n'])), 'nl': draw(st.sampled_from(['\n', '\n', '\r\n']))}
    if kind == 'char':
        c['data'] = draw(st.lists(st.lists(st.sampled_from(list('abcXYZ0189 ,;/é²#\t')), max_size=8), max_size=6))
        return c
    d = draw(st.sampled_from(DELIMS))
    io = draw(st.sampled_from([x for x in DELIMS if x not in d and d not in x])) if kind == 'io' else d
    defaults = draw(ints(0, 2)) == 0
    if defaults:
        d, io = ',', '/'
    pool = [w for w in TEXT if not set(w) & (set(d) | set(io))]
    word = st.sampled_from(pool)
    c['d'], c['io'], c['defaults'] = d, io, defaults
    if kind == 'delim':
        c['data'] = draw(st.lists(st.lists(word, min_size=1, max_size=6 if draw(ints(0, 9)) else 30), max_size=6))
    else:
        c['data'] = draw(st.lists(st.tuples(word, st.lists(st.tuples(word, word), max_size=6 if draw(ints(0, 9)) else 30)), max_size=6))
    return c


def number(w):
    """symbols that are written as integers are integers, everything else is text"""
    if w and set(w) <= set('0123456789') and str(int(w)) == w:
        return int(w)
    return w


def check_file(c):
    kind, nl = c['kind'], c['nl']
    data = c['data']
    if kind == 'char':
        text = [''.join(x) for x in data]
    elif kind == 'delim':
        text = [c['d'].join(x) for x in data]
    else:
        text = [c['d'].join([o] + [c['io'].join(p) for p in ps]) for o, ps in data]
    if text and text[-1] == '' and c['end'] == '':
        c['end'] = '\n'
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'data.txt')
        with open(p, 'w', newline='') as f:
            f.write(nl.join(text) + (c['end'] and nl) if text else '')
        before = open(p, newline='').read()
        if kind == 'char':
            got = CharacterTokenizer().tokenize_data(p)
        elif kind == 'delim':
            got = DelimiterTokenizer().tokenize_data(p) if c['defaults'] else DelimiterTokenizer().tokenize_data(p, delimiter=c['d'])
        else:
            got = IODelimiterTokenizer().tokenize_data(p) if c['defaults'] else IODelimiterTokenizer().tokenize_data(p, io_delimiter=c['io'], word_delimiter=c['d'])
        expect(open(p, newline='').read() == before, 'the data file was changed')
    expect(len(got) == len(data), 'number of sequences changed', read=len(got), written=len(data))
    for g, w in zip(got, data):
        if kind == 'io':
            w = [number(w[0])] + [(number(i), number(o)) for i, o in w[1]]
            g = list(g)
            expect(all(isinstance(x, tuple) for x in g[1:]), 'input/output pairs are not tuples', read=g)
        else:
            g, w = list(g), list(w)
        expect(g == w and [type(x) for x in g] == [type(x) for x in w], 'a sequence was not read as written', read=g, written=w)
    return len(data) > 1 and any(len(x) > 1 for x in data), [kind]


@st.composite
def bad_io(draw):
    words = draw(st.lists(st.tuples(st.sampled_from('abc01'), st.sampled_from('xyz1')), min_size=1, max_size=5))
    return {'first': 'o', 'words': words, 'bad': draw(ints(0, len(words) - 1)), 'how': draw(st.sampled_from(['none', 'extra', 'extra2'])), 'good': draw(ints(0, 2))}


def check_bad(c):
    ws = ['/'.join(w) for w in c['words']]
    b = c['words'][c['bad']]
    ws[c['bad']] = {'none': b[0], 'extra': '/'.join(b) + '/x', 'extra2': '/'.join(b) + '/'}[c['how']]
    lines = ['o,a/x'] * c['good'] + [','.join([c['first']] + ws)]
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'data.txt')
        with open(p, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        try:
            got = IODelimiterTokenizer().tokenize_data(p)
        except (SystemExit, ValueError):
            return len(ws) > 1, [c['how']]
    raise Violation('a malformed input/output pair was accepted', read=got)


@st.composite
def traces_case(draw):
    t = draw(st.sampled_from(['mealy', 'moore', 'dfa', 'default']))
    ik = draw(st.sampled_from(['str', 'int', 'tuple']))
    tr = draw(st.lists(st.lists(st.tuples(ints(0, 2), ints(0, 2)), max_size=6 if draw(ints(0, 9)) else 40), max_size=7))
    return {'t': t, 'ik': ik, 'init': [draw(ints(0, 2)) for _ in tr], 'tr': tr}


def check_convert(c):
    f = {'str': lambda x: 'abc'[x], 'int': lambda x: x - 1, 'tuple': lambda x: ('t', x)}[c['ik']]
    g = lambda x: ['', 'x', None][x] if c['t'] != 'dfa' else x == 1
    state = c['t'] in ('moore', 'dfa')
    data = [([g(i)] if state else []) + [(f(a), g(b)) for a, b in t] for i, t in zip(c['init'], c['tr'])]
    want = set()
    for t in data:
        if state:
            want.add(((), t[0]))
        ps = t[1:] if state else t
        for i in range(1, len(ps) + 1):
            want.add((tuple(a for a, _ in ps[:i]), ps[i - 1][1]))
    snapshot = listcopy(data)
    got = convert_i_o_traces_for_RPNI(data) if c['t'] == 'default' else convert_i_o_traces_for_RPNI(data, automaton_type=c['t'])
    expect(data == snapshot, 'the data of the caller were modified')
    got2 = [(tuple(w), o) for w, o in got]
    expect(set(got2) == want, 'labelled sequences differ from the traces', missing=sorted(map(repr, want - set(got2)))[:5], extra=sorted(map(repr, set(got2) - want))[:5])
    expect(len(got2) == len(want), 'a labelled sequence is listed twice')
    return len(data) > 1 and any(len(t) > 1 for t in c['tr']), [c['t']]


@st.composite
def sample_case(draw):
    t = draw(st.sampled_from(['dfa', 'moore', 'mealy', 'onfsm', 'ndmoore', 'mdp', 'smm', 'mc']))
    if t in ('dfa', 'moore', 'mealy'):
        spec = draw(gen.det_mix(types=(t,), big=8, big_n=13, big_k=3, wide=4, max_n=6, max_k=3))
    else:
        spec = draw(nd(t, max_n=5, max_k=3, big=8))
    ws = draw(st.lists(gen.lwords(spec['k'], max_len=7), max_size=6))
    long = draw(ints(0, 14)) == 0
    a, b = sorted([draw(ints(0, 40 if long else 6)), draw(ints(0, 40 if long else 6))])
    return {'t': t, 'spec': spec, 'ws': ws, 'n': draw(ints(0, 12)), 'lo': a, 'hi': b, 'p': draw(st.sampled_from([0.1, 0.3, 0.7, 1.0])), 'tup': draw(st.booleans()), 'wander': draw(ints(0, 2)),
            'seed': draw(ints(0, 10**6)), 'fmt': draw(st.sampled_from(['io_sequences', 'labeled_sequences'])), 'how': draw(st.sampled_from(['alphabet', 'automaton', 'with_outputs']))}


class Truth:
    """possible observations of a machine"""

    def __init__(self, t, spec):
        self.t = t
        self.det = t in ('dfa', 'moore', 'mealy')
        self.m = Det(spec) if self.det else Nd(spec)
        self.state_out = t in ('dfa', 'moore', 'mdp', 'mc', 'ndmoore')
        self.al = self.m.al

    def initial(self):
        return self.m.out[self.m.init] if self.det else self.m.outs[self.m.init]

    def ok(self, ins, outs):
        if self.det:
            return [] == list(outs) if not ins else self.m.run(ins) == list(outs)
        cur = frozenset([self.m.init])
        for a, o in zip(ins, outs):
            cur = self.m.succ(cur, 0 if self.t == 'mc' else self.m.idx[a], o)
            if not cur:
                return False
        return True

    def last_ok(self, ins, out):
        """out may be the last output after ins"""
        if not ins:
            return self.state_out and out == self.initial()
        if self.det:
            return self.m.run(ins)[-1] == out
        cur = {self.m.init}
        for a in ins[:-1]:
            cur = {x for s in cur for _, x, w in self.m.tr[s][0 if self.t == 'mc' else self.m.idx[a]] if w}
        return any(o == out for s in cur for o, x, w in self.m.tr[s][0 if self.t == 'mc' else self.m.idx[ins[-1]]] if w)

    def same_trace(self, got, ins):
        got = list(got)
        if self.state_out:
            expect(got and got[0] == self.initial(), 'a trace does not start with the output of the initial state', trace=got)
            got = got[1:]
        expect(len(got) == len(ins), 'a trace has a different length than its input sequence', trace=got, inputs=ins)
        expect([x[0] for x in got] == list(ins), 'the inputs of a trace differ from the requested ones', trace=got, inputs=ins)
        expect(self.ok(list(ins), [x[1] for x in got]), 'a sampled trace is not a trace of the model', trace=got)


def make_model(t, spec):
    return (build(spec) if t in ('dfa', 'moore', 'mealy') else build_nd(spec))[0]


def check_sample(c):
    t, spec = c['t'], c['spec']
    model = make_model(t, spec)
    T = Truth(t, spec)
    random.seed(c['seed'])
    words = [[T.al[x] for x in w] for w in c['ws']]
    if c['tup']:
        words = [tuple(w) for w in words]
    for _ in range(c['wander']):  # the model need not be in its initial state
        model.step(T.al[0])
    snapshot = [tuple(w) for w in words]
    labels = [t, c['fmt'], c['how']]
    if c['fmt'] == 'labeled_sequences' and not T.state_out and any(not w for w in words):
        try:
            Sampling.get_data_from_input_sequence(model, words, c['fmt'])
        except ValueError:
            words = [w for w in words if w]
            snapshot = [tuple(w) for w in words]
        else:
            raise Violation('the empty sequence of a Mealy machine got a label')
    got = Sampling.get_data_from_input_sequence(model, words, c['fmt'])
    expect([tuple(w) for w in words] == snapshot, 'the input sequences of the caller were modified')
    expect(len(got) == len(words), 'number of data points differs from the number of input sequences', got=len(got), expected=len(words))
    for g, w in zip(got, words):
        if c['fmt'] == 'io_sequences':
            T.same_trace(g, list(w))
        else:
            expect(len(g) == 2 and list(g[0]) == list(w), 'a labelled sequence has other inputs than requested', got=g, inputs=w)
            expect(T.last_ok(list(w), g[1]), 'the label of a sampled sequence is wrong', got=g)
    if t != 'mc':
        for f, args in ((Sampling.sample_with_length_limits, (c['n'], c['lo'], c['hi'])), (Sampling.sample_with_term_prob, (c['n'], c['p']))):
            if c['how'] == 'alphabet':
                al = list(T.al)
                s = f(al, *args)
                expect(al == T.al, 'the alphabet of the caller was modified')
            else:
                s = f(model, *args, **({'include_outputs': True} if c['how'] == 'with_outputs' else {}))
            expect(len(s) == c['n'], 'a different number of sequences was sampled than requested', got=len(s), requested=c['n'])
            for w in s:
                if c['how'] == 'with_outputs':
                    T.same_trace(w, [x[0] for x in (w[1:] if T.state_out else w)])
                    w = [x[0] for x in (w[1:] if T.state_out else w)]
                expect(all(a in T.al for a in w), 'sampled sequence with an unknown input', got=w)
                if f is Sampling.sample_with_length_limits:
                    expect(c['lo'] <= len(w) <= c['hi'], 'sampled sequence outside the requested lengths', got=w)
                elif c['p'] == 1.0:
                    expect(len(w) == 0, 'sampling goes on after termination', got=w)
    if c['how'] == 'alphabet':
        try:
            Sampling.sample_with_length_limits(list(T.al), 2, 1, 2, include_outputs=True)
        except ValueError:
            pass
        else:
            raise Violation('outputs were made up without a model')
    return len(words) > 1 and any(len(w) > 1 for w in words), labels


@st.composite
def generate_case(draw):
    t = draw(st.sampled_from(['dfa', 'moore', 'mealy', 'onfsm', 'mdp', 'smm', 'ndmoore']))
    spec = draw(gen.det_mix(types=(t,), big=8, big_n=13, big_k=3, wide=4, max_n=6, max_k=3)) if t in ('dfa', 'moore', 'mealy') else draw(nd(t, max_n=5, max_k=3, big=8))
    long = draw(ints(0, 14)) == 0
    a, b = sorted([draw(ints(0, 40 if long else 7)), draw(ints(0, 40 if long else 7))])
    return {'t': t, 'spec': spec, 'n': draw(ints(0, 12)), 'lo': a, 'hi': b, 'type': draw(st.sampled_from(['io_traces', 'labeled_sequences'])), 'wander': draw(ints(0, 2)), 'seed': draw(ints(0, 10**6))}


def check_generate(c):
    t, spec = c['t'], c['spec']
    model = make_model(t, spec)
    T = Truth(t, spec)
    random.seed(c['seed'])
    for _ in range(c['wander']):
        model.step(T.al[0])
    labelled = c['type'] == 'labeled_sequences'
    if labelled and not T.state_out and c['lo'] == 0:
        c['lo'], c['hi'] = 1, max(1, c['hi'])  # no label exists for the empty sequence
    data = generate_input_output_data_from_automata(model, num_sequances=c['n'], min_seq_len=c['lo'], max_seq_len=c['hi'], sequance_type=c['type'])
    expect(len(data) == c['n'], 'a different number of sequences was generated than requested', got=len(data), requested=c['n'])
    for d in data:
        if labelled:
            expect(len(d) == 2, 'malformed labelled sequence', got=d)
            w = list(d[0])
            expect(all(a in T.al for a in w), 'sampled sequence with an unknown input', got=w)
            expect(T.last_ok(w, d[1]), 'the label of a generated sequence is wrong', got=d)
        else:
            w = [x[0] for x in d]
            expect(all(a in T.al for a in w), 'sampled sequence with an unknown input', got=w)
            expect(T.ok(w, [x[1] for x in d]), 'a generated trace is not a trace of the model', got=d)
        expect(c['lo'] <= len(w) <= c['hi'], 'generated sequence outside the requested lengths', got=d, min=c['lo'], max=c['hi'])
    return len(data) > 1 and c['hi'] > 1, [t, c['type']]


@st.composite
def complete_case(draw):
    return {'spec': draw(gen.det_mix(big=8, big_n=13, big_k=3, wide=4, max_n=6, max_k=3)), 'out': draw(st.booleans())}


def check_complete(c):
    """the complete sample of a minimal machine reaches every transition and tells all pairs of states apart, also at the end of every transition"""
    spec = c['spec']
    m = Det(spec)
    if len(m.reachable()) != m.n or m.min_size() != m.n:
        return False, ['not minimal']
    model = build(spec)[0]
    if c['out']:
        s = Sampling.get_complete_sample(model, include_outputs=True)
        T = Truth(m.t, spec)
        ws = []
        for x in s:
            w = [y[0] for y in (x[1:] if T.state_out else x)]
            T.same_trace(x, w)
            ws.append(tuple(w))
    else:
        ws = [tuple(w) for w in Sampling.get_complete_sample(model)]
    expect(all(a in m.al for w in ws for a in w), 'sequence with an unknown input')
    pre = {w[:i] for w in ws for i in range(len(w) + 1)}
    acc = {}
    for w in sorted(pre, key=len):
        acc.setdefault(m.target(w), w)
    expect(len(acc) == m.n, 'the complete sample does not reach every state', reached=len(acc), states=m.n)
    # every transition from some access word of its source state occurs
    covered = {(m.target(w[:-1]), w[-1]) for w in pre if w}
    expect(len(covered) == m.n * m.k, 'the complete sample does not take every transition', covered=len(covered), transitions=m.n * m.k)
    # W-method like separation: for every pair of states some suffix is applied to both and separates them
    suffixes = {}
    for w in pre:
        for i in range(len(w) + 1):
            suffixes.setdefault(m.target(w[:i]), set()).add(w[i:])
    for s in range(m.n):
        for x in range(s):
            common = suffixes[s] & suffixes[x]
            expect(any(m.run(v, s) != m.run(v, x) for v in common), 'the complete sample does not separate two states', a=s, b=x)
    return m.n > 1, [m.t]


@st.composite
def vpa_case(draw):
    t = draw(st.sampled_from(['vpa', 'vpa', 'sevpa']))
    spec = draw(vp(max_n=4, max_i=2))
    if t == 'sevpa':
        spec['mix'] = draw(ints(0, 2))
    return {'t': t, 'spec': spec, 'init': draw(ints(0, spec['n'] - 1)) if draw(st.booleans()) else 0, 'n': draw(ints(0, 25)) if draw(ints(0, 9)) else draw(ints(30, 90)), 'len': draw(ints(0, 8)) if draw(ints(0, 9)) else draw(ints(9, 40)), 'att': draw(st.sampled_from([None, None, 1, 5])), 'seed': draw(ints(0, 10**6))}


def check_vpa(c):
    from checks import c19
    m = {'t': c['t'], 'spec': c['spec'], 'init': c['init']}
    ref = c19.ref_of(m)
    model, _ = build_vp(c['spec'], c['t'], init=c['init'])
    random.seed(c['seed'])
    al = model.get_input_alphabet().get_merged_alphabet()  # letters without any transition are unknown to the machine
    if not al:
        return False, ['no letters']
    data = generate_input_output_data_from_vpa(model, num_sequances=c['n'], max_seq_len=c['len'], max_attempts=c['att'])
    words = [tuple(w) for w, _ in data]
    expect(len(data) <= c['n'], 'more sequences than requested', got=len(data), requested=c['n'])
    expect(len(set(words)) == len(words), 'a sequence occurs twice')
    for w, o in data:
        expect(1 <= len(w) <= c['len'], 'sequence outside the requested lengths', got=w)
        expect(all(a in al for a in w), 'sequence with an unknown letter', got=w)
        expect(bool(o) == c19.run(ref, w)[0][-1], 'the label of a generated sequence is wrong', word=w, label=o)
    total = sum(len(al) ** i for i in range(1, c['len'] + 1))
    # at least n/2 attempts per requested word follow the machine blindly and the rest draws letters uniformly: if the requested number is tiny compared with the number of words it is reached
    if c['att'] is None and c['n'] and c['n'] * 4 <= total and c['len'] and len(al) > 1 and c['n'] >= 4:
        expect(len(data) == c['n'], 'fewer sequences than requested', got=len(data), requested=c['n'], words=total)
    return len(data) > 1 and max(map(len, words)) > 1, [c['t']]


@st.composite
def lists_case(draw):
    return {'w': draw(st.lists(ints(0, 2), max_size=8)), 'new': draw(st.lists(st.lists(ints(0, 1), max_size=3), max_size=6)), 'old': draw(st.lists(st.lists(ints(0, 1), max_size=3), max_size=6)),
            'tup': draw(st.booleans()), 't': draw(st.sampled_from(['dfa', 'moore', 'mealy'])), 'o': draw(st.lists(ints(0, 1), min_size=8, max_size=8))}


def check_lists(c):
    w = c['w']
    if c['tup']:
        w = tuple(w)
    p, s = list(all_prefixes(w)), list(all_suffixes(w))
    expect([tuple(x) for x in p] == [tuple(w[:i]) for i in range(1, len(w) + 1)], 'wrong prefixes', word=w, got=p)
    expect([tuple(x) for x in s] == [tuple(w[len(w) - i:]) for i in range(1, len(w) + 1)], 'wrong suffixes', word=w, got=s)
    old = []
    for x in c['old']:
        if tuple(x) not in old:
            old.append(tuple(x))
    new = [tuple(x) for x in c['new']]
    keep, keep_new = list(old), list(new)
    added = extend_set(old, new)
    want = []
    for x in new:
        if x not in keep and x not in want:
            want.append(x)
    expect(new == keep_new, 'the new elements were modified')
    expect(old == keep + want, 'the extended set is not the union in order of insertion', got=old, expected=keep + want)
    expect(list(added) == want, 'the reported new elements are not those added', got=added, expected=want)
    # traces of stochastic machines: prefixes that end with an output (mdp: they start with the initial output)
    ps = get_cex_prefixes(list(w) if not c['tup'] else w, 'mdp')
    expect([tuple(x) for x in ps] == [tuple(w[:i]) for i in range(1, len(w) + 1, 2)], 'wrong prefixes of an MDP trace', trace=w, got=ps)
    if len(w) % 2 == 0:
        ps = get_cex_prefixes(list(w) if not c['tup'] else w, 'smm')
        expect([tuple(x) for x in ps] == [tuple(w[:i]) for i in range(0, len(w) + 1, 2)], 'wrong prefixes of an SMM trace', trace=w, got=ps)
    return len(w) > 1 and bool(want), []


SUBS = [
    Sub('files', file_case(), check_file, 3000),
    Sub('malformed', bad_io(), check_bad, 300),
    Sub('convert', traces_case(), check_convert, 2000),
    Sub('sampling', sample_case(), check_sample, 3000),
    Sub('generate', generate_case(), check_generate, 2000),
    Sub('complete', complete_case(), check_complete, 2000),
    Sub('vpa', vpa_case(), check_vpa, 1500),
    Sub('lists', lists_case(), check_lists, 2000),
]
