import random

from hypothesis import strategies as st

from aalpy.base.SUL import CacheSUL
from aalpy.learning_algs import run_Lstar, run_KV, run_Lsharp, run_adaptive_Lsharp
from aalpy.oracles import RandomWalkEqOracle, RandomWordEqOracle, StatePrefixEqOracle

from vf import gen
from vf.core import Sub, expect, Violation
from vf.gen import ints
from vf.ref import build, osym
from vf.sul import RefSUL
from c06 import WordADS

PROPERTY = 'C07'
RULE = ('(history) operation histories as in C06 in which single observations are replaced by another output, (learn) all deterministic active learners with caching on a '
        'system that lies at a chosen step; non-trivial: a contradiction with an earlier observation really occurred; the other cases check that nothing is reported')
ASSUMPTIONS = ['caching is on', 'a run is finished before the next query or preload', 'outputs are comparable with ==']


class LyingSUL(RefSUL):
    """replaces the output of chosen real steps; records contradictions between its own answers"""

    def __init__(self, spec, lies):
        super().__init__(spec)
        self.lies = dict(lies)  # step number -> shift
        self.known = {}
        self.n = 0
        self.word = ()
        self.contradiction = None
        self.outs = None
        if self.m.t == 'dfa':
            self.outs = [False, True]
        else:
            self.outs = [osym(spec['ok'], i) for i in range(2 if spec['ok'] == 'bool' else 4)]
        self.contradicted_run = None

    def pre(self):
        if self.contradiction is not None:
            raise Violation('the system is used again after contradictory answers', contradiction=self.contradiction)
        super().pre()
        self.word = ()

    def note(self, word, out):
        if word in self.known:
            if self.known[word] != out and self.contradiction is None:
                self.contradiction = {'word': word, 'first': self.known[word], 'then': out}
        else:
            self.known[word] = out

    def step(self, letter):
        out = super().step(letter)
        if letter is None and self.word:
            return out
        s = self.lies.get(self.n)
        if s:
            i = next(i for i, x in enumerate(self.outs) if x == out)
            out = self.outs[(i + s) % len(self.outs)]
        self.n += 1
        if letter is not None:
            self.word += (letter,)
        self.note(self.word, out)
        return out


@st.composite
def histories(draw):
    spec = draw(gen.det(max_n=4, max_k=2))
    k = spec['k']
    ops, ws = [], [[]]
    for _ in range(draw(ints(2, 12))):
        kind = draw(st.sampled_from(['q', 'q', 'q', 'run', 'run', 'run', 'pre', 'ads']))
        if draw(ints(0, 9)) < 7:
            base = draw(st.sampled_from(ws))
            base = base[:draw(ints(0, len(base)))]
            w = list(base) + draw(gen.words(k, 2))
        else:
            w = draw(gen.lwords(k, 5))
        ws.append(w)
        lie = draw(ints(0, 40))
        ops.append([kind, w, draw(ints(0, len(w))), [lie, draw(ints(1, 3))] if kind == 'pre' and draw(ints(0, 2)) == 0 else None])
    lies = draw(st.lists(st.tuples(ints(0, 30), ints(1, 3)), max_size=2))
    return {'spec': spec, 'cache': draw(st.sampled_from(['tree', 'tree', 'dict'])), 'ops': ops, 'lies': [list(x) for x in lies]}


def check_history(case):
    spec = case['spec']
    raw = LyingSUL(spec, case['lies'])
    d = raw.m
    sul = CacheSUL(raw, case['cache'])
    reuse = 0
    for kind, w, cut, lie in case['ops']:
        w = tuple(d.al[i] for i in w)
        at = None
        try:
            if kind == 'q':
                if not w and d.t == 'mealy':
                    continue
                out = list(sul.query(w))
                exp = [raw.known[w[:i]] for i in range(1, len(w) + 1)] if w else [raw.known[()]]
                expect(out == exp, 'answer differs from what was observed', word=w, got=out, observed=exp)
            elif kind == 'run':
                sul.pre()
                if cut == 0 and d.t != 'mealy':
                    sul.step(None)
                    expect(raw.contradiction is None, 'a contradictory initial output was accepted', **(raw.contradiction or {}))
                for i, a in enumerate(w):
                    at = i
                    sul.step(a)
                    expect(raw.contradiction is None, 'a contradictory output was accepted while stepping', **(raw.contradiction or {}))
                sul.post()
            elif kind == 'pre':
                if not w:
                    continue
                out = [raw.known.get(w[:i + 1], o) for i, o in enumerate(d.run(w))]
                if lie:
                    p = lie[0] % len(w)
                    j = next(j for j, x in enumerate(raw.outs) if x == out[p])
                    out[p] = raw.outs[(j + lie[1]) % len(raw.outs)]
                for i, o in enumerate(out):
                    raw.note(w[:i + 1], o)
                sul.cache.add_to_cache(w, tuple(out))
            else:
                if not w:
                    continue
                sul.adaptive_query(list(w[:cut]), WordADS(w[cut:], d.t != 'mealy'))
        except SystemExit as e:
            expect(raw.contradiction is not None, 'a non-determinism error was raised although all observations are consistent', op=[kind, w], message=str(e)[:200])
            return True, [kind, 'reported', case['cache']]
        expect(raw.contradiction is None, 'contradictory observations were not reported', op=[kind, w], **(raw.contradiction or {}))
    return False, ['consistent']


@st.composite
def learn_cases(draw):
    spec = draw(gen.det(max_n=6, max_k=3))
    algo = draw(st.sampled_from(['lstar', 'lstar_none', 'kv', 'lsharp', 'adaptive']))
    lies = draw(st.lists(st.tuples(ints(0, 80), ints(1, 3)), max_size=2))
    return {'spec': spec, 'algo': algo, 'lies': [list(x) for x in lies], 'oracle': draw(st.sampled_from(['walk', 'word', 'prefix'])), 'seed': draw(ints(0, 999)),
            'pre': draw(st.lists(gen.lwords(spec['k'], 4, 1), max_size=3))}


def check_learn(case):
    spec = case['spec']
    raw = LyingSUL(spec, case['lies'])
    d = raw.m
    random.seed(case['seed'])
    al = list(d.al)
    if case['oracle'] == 'walk':
        eq = RandomWalkEqOracle(al, raw, num_steps=150, reset_prob=0.2)
    elif case['oracle'] == 'word':
        eq = RandomWordEqOracle(al, raw, num_walks=20, min_walk_len=2, max_walk_len=8)
    else:
        eq = StatePrefixEqOracle(al, raw, walks_per_state=4, walk_len=4)
    kw = dict(automaton_type=spec['t'], print_level=0, max_learning_rounds=8)
    if case['pre'] and case['algo'] != 'kv':
        kw['samples'] = []
        for w in case['pre']:
            w = tuple(d.al[i] for i in w)
            kw['samples'].append((w, tuple(d.run(w))))
            for i, o in enumerate(d.run(w)):
                raw.note(w[:i + 1], o)
    try:
        if case['algo'] == 'lstar':
            run_Lstar(al, raw, eq, cex_processing='rs', **kw)
        elif case['algo'] == 'lstar_none':
            run_Lstar(al, raw, eq, cex_processing=None, **kw)
        elif case['algo'] == 'kv':
            run_KV(al, raw, eq, **kw)
        elif case['algo'] == 'lsharp':
            run_Lsharp(al, raw, eq, **kw)
        else:
            run_adaptive_Lsharp(al, raw, [build(spec)[0]], eq, **kw)
    except SystemExit as e:
        expect(raw.contradiction is not None, 'a non-determinism error was raised although all observations are consistent', message=str(e)[:200])
        return True, [case['algo'], 'reported_' + case['algo']]
    expect(raw.contradiction is None, 'learning ended normally although the system contradicted itself', **(raw.contradiction or {}))
    return False, [case['algo'], 'consistent']


SUBS = [Sub('history', histories(), check_history, quick=12000, min_nontrivial=0.05),
        Sub('learn', learn_cases(), check_learn, quick=2500, min_nontrivial=0.03, slow_ok=True)]
