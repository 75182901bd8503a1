import random

from hypothesis import strategies as st

from aalpy.automata import SevpaAlphabet
from aalpy.base import SUL, Oracle
from aalpy.learning_algs import run_KV

from vf.core import Sub, expect, Violation
from vf.gen import ints
from vf.learn import KV_CEX
from vf.vpl import Vp, ReadSevpa, vp, vp_difference

PROPERTY = 'C05'
RULE = ('random visibly pushdown machines with 1-4 states, 0-2 internal, 1-2 call and 1-2 return letters, shared or call-specific stack symbols, missing moves, '
        'exclusive call/return pairs, all counterexample options; non-trivial: at least one counterexample was processed and the language is neither empty nor '
        'a language without nesting')
ASSUMPTIONS = ['the reference machine has at most 11 effects of well-matched words', 'counterexamples end at their first difference']


class VpSUL(SUL):
    def __init__(self, ref):
        super().__init__()
        self.ref, self.conf, self.resets = ref, None, 0

    def pre(self):
        self.resets += 1
        if self.resets > 120000:
            raise Violation('learning did not finish within 120000 resets')
        self.conf = self.ref.start()

    def post(self):
        pass

    def step(self, letter):
        expect(self.conf is not None, 'system stepped before reset')
        if letter is not None:
            expect(letter in self.ref.kind, f'unknown letter {letter!r}')
            self.ref.move(self.conf, letter)
        return self.ref.value(self.conf)


class VpOracle(Oracle):
    def __init__(self, alphabet, sul, ref, mode, seed):
        super().__init__(alphabet, sul)
        self.ref, self.mode, self.rng, self.calls = ref, mode, random.Random(seed), 0
        self.sizes = []

    def rand_word(self, ln):
        w, depth = [], 0
        r = self.ref
        while len(w) + depth < ln:
            x = self.rng.random()
            if depth and x < 0.35:
                w.append(self.rng.choice(r.R))
                depth -= 1
            elif r.I and x < 0.6:
                w.append(self.rng.choice(r.I))
            else:
                w.append(self.rng.choice(r.C))
                depth += 1
        w += [self.rng.choice(r.R) for _ in range(depth)]
        return tuple(w)

    def find_cex(self, hypothesis):
        self.calls += 1
        expect(self.calls <= 100, 'more than 100 equivalence queries')
        h = ReadSevpa(hypothesis, self.ref)
        self.sizes.append(h.n)
        w = vp_difference(self.ref, h)
        if w is None:
            return None
        if self.mode:
            for _ in range(60):
                x = self.rand_word(self.mode)
                a = self.ref.run(x)
                hypothesis.reset_to_initial()
                d = None
                for i, l in enumerate(x):
                    if hypothesis.step(l) != a[i]:
                        d = i
                        break
                if d is not None:
                    hypothesis.reset_to_initial()
                    return x[:d + 1]
        return w


def alph(spec, ref):
    ex = None
    if spec['excl'] is not None:
        ex = {ref.C[c]: ref.R[r] for c, r in enumerate(spec['excl'])}
    return SevpaAlphabet(list(ref.I), list(ref.C), list(ref.R), ex)


def check(case):
    spec = case['spec']
    ref = Vp(spec)
    m = ref.monoid(11)
    if m is None:
        return False, ['too_big']
    al = alph(spec, ref)
    sul = VpSUL(ref)
    eq = VpOracle(al, sul, ref, case['mode'], case['seed'])
    model, info = run_KV(al, sul, eq, automaton_type='vpa', cex_processing=case['cex'], print_level=0,
                         cache_and_non_det_check=case['cache'], return_data=True)
    expect(type(model).__name__ == 'Sevpa', f'returned a {type(model).__name__}')
    h = ReadSevpa(model, ref)
    w = vp_difference(ref, h)
    expect(w is None, 'learned model differs from the system', word=w)
    # stepping the model agrees on arbitrary (mostly unbalanced) words, letter by letter
    rng = random.Random(case['seed'])
    nested = acc = 0
    for j in range(25):
        if j % 2:
            x = eq.rand_word(rng.randrange(1, 16))
        else:
            x = tuple(rng.choice(ref.al) for _ in range(rng.randrange(0, 10)))
        exp = ref.run(x)
        got = [model.reset_to_initial()]
        got = [model.step(l) for l in x] or got
        expect(got == exp, 'stepping the learned model differs from the system', word=x, got=got, expected=exp)
        if exp[-1]:
            acc += 1
            nested += any(l in ref.C for l in x)
    expect(info['automaton_size'] in (model.size, model.size + 1), 'reported size differs')
    return eq.calls > 1 and nested > 0, [f'sevpa_{min(model.size, 8)}', case['cex'], f'rounds_{min(eq.calls, 8)}', 'excl' if spec['excl'] else 'free']


@st.composite
def cases(draw):
    big = draw(ints(0, 4)) == 0
    return {'spec': draw(vp(max_n=4 if big else 3, min_i=draw(ints(0, 1)))), 'mode': draw(st.sampled_from([0, 0, 4, 8, 14])), 'seed': draw(ints(0, 999)),
            'cex': draw(st.sampled_from(KV_CEX)), 'cache': draw(st.booleans())}


SUBS = [Sub('learn', cases(), check, quick=16000)]
