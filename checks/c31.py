import inspect
import math
import random

from hypothesis import strategies as st

import aalpy.paths  # noqa
from aalpy import automata as A
from aalpy.learning_algs import run_KV
from aalpy.learning_algs.deterministic.CounterExampleProcessing import (longest_prefix_cex_processing, rs_cex_processing, linear_cex_processing, exponential_cex_processing,
                                                                      counterexample_successfully_processed)

from vf import gen
from vf.core import Sub, expect
from vf.gen import ints
from vf.ref import Det, ReadDet
from vf.sul import RefSUL
from vf.vpl import vp, Vp, ReadSevpa, vp_difference
from checks import c05

PROPERTY = 'C31'
RULE = ('hypotheses built from reduced observation tables over generated systems with random (not necessarily suffix-closed) sets of suffixes, and hypotheses of intermediate rounds of visibly pushdown learning; '
        'genuine counterexamples of any length whose last output differs; non-trivial: the counterexample has at least three letters')
ASSUMPTIONS = ['the hypothesis is closed: access strings are exact and one-letter extensions of them are predicted correctly', 'the last output of the counterexample differs']

SINGLE = ['rs', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd']


def call(name, sul, cex, hyp, closed, is_vpa=False):
    if name == 'rs':
        return rs_cex_processing(sul, cex, hyp, suffix_closedness=closed, is_vpa=is_vpa)
    f = linear_cex_processing if name.startswith('linear') else exponential_cex_processing
    return f(sul, cex, hyp, suffix_closedness=closed, direction=name[-3:], is_vpa=is_vpa)


def limit(name, n):
    lg = math.ceil(math.log2(n + 1))
    return {'rs': lg + 2, 'linear_fwd': n + 1, 'linear_bwd': n + 1}.get(name, 2 * lg + 5)


class Table:
    """reduced observation table: S holds one access word per row, hypothesis = its rows"""

    def __init__(self, m, E):
        self.m, self.E = m, E
        self.S, rows = [()], {self.row(()): 0}
        self.tr, self.SA = [], []
        for s in self.S:
            t = []
            for a in m.al:
                r = self.row(s + (a,))
                if r not in rows:
                    rows[r] = len(self.S)
                    self.S.append(s + (a,))
                else:
                    self.SA.append(s + (a,))
                t.append(rows[r])
            self.tr.append(t)

    def row(self, w):
        s = self.m.target(w)
        return tuple(self.m.run(e, s)[-1] for e in self.E)

    def model(self):
        m, t = self.m, self.m.t
        if t == 'mealy':
            ss = [A.MealyState(f'q{i}') for i in range(len(self.S))]
        elif t == 'moore':
            ss = [A.MooreState(f'q{i}', m.out[m.target(w)]) for i, w in enumerate(self.S)]
        else:
            ss = [A.DfaState(f'q{i}', m.out[m.target(w)]) for i, w in enumerate(self.S)]
        for i, s in enumerate(ss):
            s.prefix = self.S[i]
            for j, a in enumerate(m.al):
                s.transitions[a] = ss[self.tr[i][j]]
                if t == 'mealy':
                    s.output_fun[a] = m.out[m.target(self.S[i])][j]
        return {'mealy': A.MealyMachine, 'moore': A.MooreMachine, 'dfa': A.Dfa}[t](ss[0], ss)

    def reach(self, w):
        s = 0
        for a in w:
            s = self.tr[s][self.m.idx[a]]
        return s


@st.composite
def cases(draw):
    spec = draw(gen.det_mix(big=30, big_n=20, big_k=3, max_n=7))
    return {'spec': spec, 'E': draw(st.lists(gen.words(spec['k'], max_len=4, min_size=1), max_size=3)), 'len': draw(ints(2, 30)), 'seed': draw(ints(0, 10**6)), 'how': draw(ints(0, 3)), 'list': draw(st.booleans())}


def find_cex(m, T, c):
    """a word whose last output differs between system and hypothesis"""
    rng = random.Random(c['seed'])
    al = m.al

    def hyp(w):
        i = T.reach(w[:-1])
        last = m.idx[w[-1]]
        if m.t == 'mealy':
            return m.out[m.target(T.S[i])][last]
        return m.out[m.target(T.S[T.tr[i][last]])]

    ws = []
    for _ in range(80):
        w = tuple(rng.choice(al) for _ in range(c['len']))
        ds = [i for i in range(len(w)) if m.run(w[:i + 1])[-1] != hyp(w[:i + 1])]
        if ds:
            i = ds[-1] if c['how'] else ds[0]
            ws = [w[:i + 1]]
            break
    if not ws:
        # breadth-first search for a shortest one
        seen, q = {(m.init, 0)}, [((), m.init, 0)]
        for w, s, h in q:
            for i, a in enumerate(al):
                ns, nh = m.tr[s][i], T.tr[h][i]
                o1 = m.o(s, i)
                o2 = m.out[m.target(T.S[h])][i] if m.t == 'mealy' else m.out[m.target(T.S[nh])]
                if o1 != o2:
                    return w + (a,)
                if (ns, nh) not in seen:
                    seen.add((ns, nh))
                    q.append((w + (a,), ns, nh))
        return None
    return ws[0]


def check(c):
    spec = c['spec']
    m = Det(spec)
    E = [tuple(m.al[x] for x in w) for w in c['E']]
    E = [(a,) for a in m.al] + E if m.t == 'mealy' else [()] + E
    T = Table(m, E)
    cex = find_cex(m, T, c)
    if cex is None:
        return False, ['no counterexample']
    n = len(cex)
    sysout = m.run(cex)[-1]
    alpha = [m.run(T.S[T.reach(cex[:i])] + cex[i:])[-1] if i < n else None for i in range(n)]

    def separates(v):
        """cex = u a v and v separates acc(H(u)) a from acc(H(u a))"""
        if not v or len(v) >= n or cex[n - len(v):] != v:
            return False
        j = n - len(v)
        return alpha[j - 1] != alpha[j]

    hyp = T.model()
    expect(not counterexample_successfully_processed(RefSUL(spec), cex, hyp), 'a counterexample is taken for processed', cex=cex)
    S = [w for w in T.S]
    pre = sorted(T.S + T.SA, key=len)
    got = longest_prefix_cex_processing(list(pre), cex)
    got = [tuple(v) for v in got]
    expect(got and all(v and cex[n - len(v):] == v for v in got), 'longest prefix: not a suffix of the counterexample', cex=cex, got=got)
    expect(any(separates(v) for v in got), 'longest prefix: no suffix separates', cex=cex, got=got)
    expect({v[i:] for v in got for i in range(len(v))} <= set(got), 'longest prefix: the suffixes are not suffix-closed', got=got)
    for name in SINGLE:
        for closed in (False, True):
            sul = RefSUL(spec)
            hyp = T.model()
            got = call(name, sul, cex, hyp, closed)
            got = [tuple(v) for v in got]
            expect(got and all(v and cex[n - len(v):] == v for v in got), f'{name}: not a suffix of the counterexample', cex=cex, got=got, closed=closed)
            if closed:
                expect({v[i:] for v in got for i in range(len(v))} == set(got), f'{name}: the suffixes are not suffix-closed', cex=cex, got=got)
                expect(any(separates(v) for v in got), f'{name}: no suffix separates', cex=cex, got=got)
            else:
                expect(len(got) == 1, f'{name}: more than one suffix', cex=cex, got=got)
                expect(separates(got[0]), f'{name}: the suffix does not separate', cex=cex, got=got)
            expect(sul.num_queries <= limit(name, n), f'{name}: too many queries', queries=sul.num_queries, length=n)
            expect([s.prefix for s in hyp.states] == S, f'{name}: the hypothesis was modified')
    # a word that is no counterexample is recognised
    rng = random.Random(c['seed'] + 1)
    for _ in range(5):
        w = tuple(rng.choice(m.al) for _ in range(rng.randrange(1, 8)))
        i = T.reach(w[:-1])
        h = m.out[m.target(T.S[i])][m.idx[w[-1]]] if m.t == 'mealy' else m.out[m.target(T.S[T.reach(w)])]
        expect(counterexample_successfully_processed(RefSUL(spec), w, T.model()) == (h == m.run(w)[-1]), 'wrong answer whether a counterexample still differs', word=w)
    return n > 2, [m.t, f'len_{min(n // 4 * 4, 24)}', f'states_{len(T.S)}_of_{m.min_size()}' if m.n < 5 else 'big']


# ------------------------------------------------------------------ visibly pushdown

@st.composite
def vpa_cases(draw):
    spec = draw(vp(max_n=3, min_n=2, min_i=0, partial=draw(st.sampled_from([0, 0, 1]))))
    if len(set(spec['acc'])) == 1:
        spec['acc'][-1] ^= 1
    return {'spec': spec, 'mode': draw(st.sampled_from([0, 5, 9, 14])), 'seed': draw(ints(0, 999)), 'cex': draw(st.sampled_from(['rs', 'linear_fwd', 'exponential_fwd']))}


def vpa_suffixes(ref, hyp, cex):
    n = len(cex)
    h = ReadSevpa(hyp, ref)
    prefix = [tuple(s.prefix) for s in hyp.states]

    def access(w):
        """word with the same effect on the hypothesis made of access strings and open calls only"""
        s, stack = h.init, []
        for a in w:
            k, x = ref.kind[a]
            if k == 'i':
                s = h.d_int(s, x)
            elif k == 'c':
                t, g = h.d_call(s, x)
                stack.append((s, a, g))
                s = t
            else:
                if not stack:
                    return None
                s = h.d_ret(s, x, stack.pop()[2])
            if s == -1:
                return None
        r = ()
        for p, a, _ in stack:
            r += prefix[p] + (a,)
        return r + prefix[s]

    acc = [access(cex[:i]) for i in range(n)]
    if any(a is None for a in acc):
        return None
    alpha = [ref.accepts(acc[i] + cex[i:]) for i in range(n)]
    if alpha[n - 1] == alpha[0]:
        return None

    def separates(v):
        if not v or len(v) >= n or cex[n - len(v):] != v:
            return False
        return alpha[n - len(v) - 1] != alpha[n - len(v)]

    for name in SINGLE:
        s2 = c05.VpSUL(ref)
        got = [tuple(v) for v in call(name, s2, cex, hyp, False, True)]
        expect(len(got) == 1, f'{name}: more than one suffix', cex=cex, got=got)
        expect(separates(got[0]), f'{name}: the suffix does not separate', cex=cex, got=got, alpha=alpha)
        expect(s2.num_queries <= limit(name, n), f'{name}: too many queries', queries=s2.num_queries, length=n)
    hyp.reset_to_initial()
    return n


def check_vpa(c):
    spec = c['spec']
    ref = Vp(spec)
    if ref.monoid(11) is None:
        return False, ['too_big']
    al = c05.alph(spec, ref)
    sul = c05.VpSUL(ref)
    seen = []

    class Watch(c05.VpOracle):
        def find_cex(self, hypothesis):
            cex = super().find_cex(hypothesis)
            if cex is not None and 1 < self.calls <= 6:
                n = vpa_suffixes(ref, hypothesis, cex)
                if n:
                    seen.append(n)
            return cex

    run_KV(al, sul, Watch(al, sul, ref, c['mode'], c['seed']), automaton_type='vpa', cex_processing=c['cex'], print_level=0)
    return max(seen, default=0) > 2, [f'len_{min(n // 4 * 4, 24)}' for n in seen] + [f'checked_{len(seen)}']


SUBS = [
    Sub('det', cases(), check, 12000),
    Sub('vpa', vpa_cases(), check_vpa, 4000),
]
