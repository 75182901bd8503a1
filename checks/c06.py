import random

from hypothesis import strategies as st

from aalpy.base.SUL import CacheSUL
from aalpy.learning_algs import run_Lstar, run_KV, run_Lsharp, run_adaptive_Lsharp

from vf import gen
from vf.core import Sub, expect
from vf.gen import ints
from vf.learn import LSTAR_CEX, KV_CEX
from vf.orc import oracle_params, make_oracle
from vf.ref import Det, build
from vf.sul import RefSUL

PROPERTY = 'C06'
RULE = ('histories of 1-14 operations (whole-word query, step-by-step run, preloaded true observation, adaptive query) on a cached random deterministic system, tree and '
        'dictionary caches; words are biased to prefixes, repeats and extensions of earlier words; non-trivial: at least one query answered from the cache and at least '
        'one not')
ASSUMPTIONS = ['words are tuples of hashable letters', 'a run is finished before the next query or preload', 'the empty word is only asked of DFAs and Moore machines']


class WordADS:
    """a fixed suffix offered as an adaptive distinguishing sequence"""

    def __init__(self, word, first_empty):
        self.word, self.i, self.first_empty = list(word), 0, first_empty
        self.seen = []

    def next_input(self, last):
        self.seen.append(last)
        if self.first_empty:
            self.first_empty = False
            return tuple()
        if self.i >= len(self.word):
            return None
        self.i += 1
        return self.word[self.i - 1]


@st.composite
def histories(draw):
    spec = draw(gen.det_mix(big=6, big_n=12, big_k=3, wide=4, max_n=5, max_k=3))
    k = spec['k']
    ops, ws = [], [[]]
    for _ in range(draw(ints(1, 14))):
        kind = draw(st.sampled_from(['q', 'q', 'q', 'q', 'run', 'run', 'pre', 'ads']))
        if draw(ints(0, 9)) < 6:
            base = draw(st.sampled_from(ws))
            base = base[:draw(ints(0, len(base)))]
            w = list(base) + draw(gen.words(k, 2))
        else:
            w = draw(gen.lwords(k, 6))
        ws.append(w)
        ops.append([kind, w, draw(ints(0, len(w)))])
    return {'spec': spec, 'cache': draw(st.sampled_from(['tree', 'tree', 'dict'])), 'ops': ops}


def check(case):
    spec = case['spec']
    raw = RefSUL(spec, record=True)
    d = raw.m
    sul = CacheSUL(raw, case['cache'])
    seen = set()
    empty_seen = False
    nq = ns = nc = 0
    hits = misses = 0
    for kind, w, cut in case['ops']:
        w = tuple(d.al[i] for i in w)
        before = (raw.resets, len(raw.log), raw.none_steps)
        if kind == 'q':
            if not w and d.t == 'mealy':
                continue
            known = empty_seen if not w else w in seen
            out = sul.query(w)
            exp = d.run(w)
            expect(list(out) == exp, 'cached system gives a different answer than the system', word=w, got=list(out), expected=exp)
            if known:
                nc += 1
                hits += 1
                expect(raw.resets == before[0] and len(raw.log) == before[1], 'an already answered word reached the system again', word=w)
            else:
                nq += 1
                ns += len(w)
                misses += 1
                expect(raw.resets == before[0] + 1, f'a new word reached the system {raw.resets - before[0]} times', word=w)
                expect(tuple(a for a, _ in raw.log[-1]) == w, 'the system received other inputs than the query', word=w)
                if w:
                    expect(raw.none_steps == before[2], 'extra observation of the current output')
        elif kind == 'run':
            sul.pre()
            exp = d.run(w)
            if cut == 0 and d.t != 'mealy':
                o = sul.step(None)
                expect(o == d.out[d.init], 'initial output differs')
                empty_seen = True
            out = [sul.step(a) for a in w]
            if w:
                expect(out == exp, 'stepping through the cache gives other outputs', word=w, got=out, expected=exp)
            sul.post()
            expect(raw.resets == before[0] + 1 and tuple(a for a, _ in raw.log[-1]) == w, 'a stepped run did not reach the system as given', word=w)
        elif kind == 'pre':
            if w:
                sul.cache.add_to_cache(w, tuple(d.run(w)))
            expect(raw.resets == before[0], 'preloading touched the system')
        else:
            if not w:
                continue
            ads = WordADS(w[cut:], d.t != 'mealy')
            word, out = sul.adaptive_query(list(w[:cut]), ads)
            expect(list(word) == list(w) and list(out) == d.run(w), 'adaptive query gives other inputs/outputs', got=[list(word), list(out)], word=w)
            nq += 1
            ns += len(w)
            if cut == 0 and d.t != 'mealy':
                empty_seen = True
            expect(raw.resets == before[0] + 1 and tuple(a for a, _ in raw.log[-1]) == w, 'an adaptive query did not reach the system as given', word=w)
        if not w and kind == 'q':
            empty_seen = True
        for i in range(1, len(w) + 1):
            seen.add(w[:i])
        expect((sul.num_queries, sul.num_steps, sul.num_cached_queries) == (nq, ns, nc), 'counters (queries, steps, cache hits) are wrong',
               got=(sul.num_queries, sul.num_steps, sul.num_cached_queries), expected=(nq, ns, nc), after=[kind, w])
    return hits > 0 and misses > 0, [case['cache'], spec['t'], f'hits_{min(hits, 5)}']


class OnceSUL(RefSUL):
    """rejects a membership query whose answer has been observed before"""

    def __init__(self, spec, samples):
        super().__init__(spec, record=True)
        self.seen = set()
        self.done = self.avoided = self.asked = 0
        for w in samples:
            self.note(w)
        self.from_samples = set(self.seen)

    def note(self, w):
        if self.m.t != 'mealy':
            self.seen.add(())
        for i in range(1, len(w) + 1):
            self.seen.add(tuple(w[:i]))

    def query(self, word):
        for run in self.log[self.done:]:
            self.note([a for a, _ in run])
        self.done = len(self.log)
        word = tuple(word)
        self.asked += 1
        if word:
            expect(word not in self.seen, 'the system was asked a word whose answer had already been observed', word=word, given=word in self.from_samples)
        out = super().query(word)
        self.note(word)
        self.done = len(self.log)
        return out


@st.composite
def learn_cases(draw):
    spec = draw(gen.det_mix(big=6, big_n=12, big_k=3, wide=4, max_n=5, max_k=3))
    algo = draw(st.sampled_from(['lstar', 'kv', 'lsharp', 'adaptive']))
    c = {'spec': spec, 'algo': algo, 'oracle': draw(oracle_params(['RandomWalk', 'RandomWord', 'StatePrefix', 'CacheBased'], spec['k'])), 'samples': []}
    if algo == 'lstar':
        c['cex'] = draw(st.sampled_from(LSTAR_CEX))
    if algo == 'kv':
        c['cex'] = draw(st.sampled_from(KV_CEX))
    if algo in ('lsharp', 'adaptive'):
        c['ext'] = draw(st.sampled_from([None, 'SepSeq', 'ADS']))
        c['sep'] = draw(st.sampled_from(['SepSeq', 'ADS']))
    if algo != 'kv':
        c['samples'] = draw(st.lists(gen.lwords(spec['k'], 6, 1), max_size=5))
    return c


def check_learn(case):
    spec = case['spec']
    d = Det(spec)
    samples = [tuple(d.al[i] for i in w) for w in case['samples']]
    raw = OnceSUL(spec, samples)
    random.seed(case['oracle']['seed'])
    al = list(d.al)
    eq = make_oracle(case['oracle'], al, raw, d.min_size(), spec)
    kw = dict(automaton_type=spec['t'], print_level=0, return_data=True, cache_and_non_det_check=True, max_learning_rounds=8)
    if samples:
        kw['samples'] = [(w, tuple(d.run(w))) for w in samples]
    algo = case['algo']
    if algo == 'lstar':
        _, info = run_Lstar(al, raw, eq, cex_processing=case['cex'], **kw)
    elif algo == 'kv':
        _, info = run_KV(al, raw, eq, cex_processing=case['cex'], **kw)
    elif algo == 'lsharp':
        _, info = run_Lsharp(al, raw, eq, extension_rule=case['ext'], separation_rule=case['sep'], **kw)
    else:
        _, info = run_adaptive_Lsharp(al, raw, [build(spec)[0]], eq, extension_rule=case['ext'], separation_rule=case['sep'], **kw)
    return raw.asked > 0 and eq.sul.num_cached_queries > 0, [algo, 'samples' if samples else 'no_samples']


SUBS = [Sub('history', histories(), check, quick=12000), Sub('learn', learn_cases(), check_learn, quick=3000)]
