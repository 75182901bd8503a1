import copy
import random

from hypothesis import strategies as st

import aalpy.paths  # noqa
from aalpy.learning_algs import run_active_RPNI, run_active_Alergia, run_RPNI, run_Alergia
from aalpy.learning_algs.deterministic_passive import active_RPNI as AR
from aalpy.learning_algs.stochastic_passive import ActiveAleriga as AA
from aalpy.learning_algs.stochastic_passive.CompatibilityChecker import HoeffdingCompatibility

from vf import gen
from vf.core import Sub, expect
from vf.gen import ints
from vf.ref import Det
from vf.stoch import nd, NdSUL
from vf.sul import RefSUL
from vf.table import table
from checks import c21, c30

PROPERTY = 'C32'
RULE = ('random deterministic and stochastic systems, random true initial data that mention every input, the library samplers and a custom one, up to five rounds; every sample is compared with the system, every round\'s '
        'model with the data gathered so far; non-trivial: at least two rounds with samples')
ASSUMPTIONS = ['the initial data contain every input', 'the system is deterministic (RPNI) or an MDP / stochastic Mealy machine (Alergia)']


@st.composite
def rpni_cases(draw):
    t = draw(st.sampled_from(['dfa', 'moore', 'mealy']))
    spec = draw(gen.det_mix(types=(t,), max_n=5, max_k=3, big=15, big_n=9, big_k=3))
    a, b = sorted([draw(ints(1, 7)), draw(ints(1, 7))])
    return {'t': t, 'spec': spec, 'ws': draw(st.lists(gen.words(spec['k'], max_len=5, min_size=1), max_size=8)), 'n': draw(ints(0, 5)), 'walks': draw(ints(0, 6)), 'lo': a, 'hi': b, 'lists': draw(st.booleans()),
            'custom': draw(ints(0, 3)) == 0, 'seed': draw(ints(0, 10**6)), 'print': draw(ints(0, 5)) == 0}


def check_rpni(c):
    t, spec = c['t'], c['spec']
    m = Det(spec)
    al = m.al
    data = []
    for w in [tuple(al[x] for x in w) for w in c['ws']] + [(a,) for a in al]:
        for i in range(1, len(w) + 1):
            data.append((list(w[:i]) if c['lists'] else w[:i], m.run(w[:i])[-1]))
    if t != 'mealy':
        data.append(((), m.out[m.init]))
    snapshot = copy.deepcopy(data)
    gathered = [(tuple(w), o) for w, o in data]
    sul = RefSUL(spec, record=True)
    rounds = []

    class Watch(AR.RandomWordSampler):
        def sample(self, s, model):
            expect(s is sul, 'the sampler got another system')
            c21.well_formed(model, t, al)
            c21.replay(model, t, gathered)
            rounds.append(model)
            before = len(sul.log)
            if c['custom']:
                new = []
                for _ in range(self.num_walks):
                    w = tuple(random.choice(al) for _ in range(random.randint(self.min_walk_len, self.max_walk_len)))
                    new += [(w[:i], m.run(w[:i])[-1]) for i in range(1, len(w) + 1)]
            else:
                new = super().sample(s, model)
                walks = [tuple(a for a, _ in x) for x in sul.log[before:]]
                expect(len(walks) == self.num_walks, 'number of walks differs from the requested one', walks=len(walks), requested=self.num_walks)
                for w in walks:
                    expect(self.min_walk_len <= len(w) <= self.max_walk_len, 'length of a walk is outside the requested range', length=len(w))
                want = {(w[:i], m.run(w[:i])[-1]) for w in walks for i in range(1, len(w) + 1)}
                got = {(tuple(w), o) for w, o in new}
                got.discard(((), None if t == 'mealy' else m.out[m.init]))
                expect(got == want, 'the samples differ from what was observed', extra=sorted(map(repr, got - want))[:4], missing=sorted(map(repr, want - got))[:4])
            gathered.extend((tuple(w), o) for w, o in new)
            return new

    random.seed(c['seed'])
    model = run_active_RPNI(data, sul, Watch(c['walks'], c['lo'], c['hi']), c['n'], t, print_info=c['print'])
    expect(data == snapshot, 'the data of the caller were modified')
    expect(len(rounds) == c['n'], 'number of rounds differs from the requested one', rounds=len(rounds), requested=c['n'])
    if c['n']:
        expect(model is rounds[-1] or table(model, t) == table(rounds[-1], t), 'the returned model is not the one of the last round')
    return c['n'] > 1 and c['walks'] > 0, [t, f"rounds_{c['n']}", 'custom' if c['custom'] else 'random']


@st.composite
def alergia_cases(draw):
    t = draw(st.sampled_from(['mdp', 'mdp', 'smm']))
    spec = draw(nd(t, max_n=4, max_k=2, n_out=3))
    a, b = sorted([draw(ints(1, 6)), draw(ints(1, 6))])
    return {'t': t, 'spec': spec, 'data': draw(ints(1, 25)), 'dlen': draw(ints(1, 6)), 'n': draw(ints(0, 4)), 'walks': draw(ints(0, 12)), 'lo': a, 'hi': b, 'seed': draw(ints(0, 10**6)), 'custom': draw(ints(0, 3)) == 0,
            'eps': draw(st.sampled_from([0.05, 0.005, 0.5, 1.5, 'checker', 'auto'])), 'print': draw(ints(0, 5)) == 0, 'default': draw(st.booleans())}


def check_alergia(c):
    t, spec = c['t'], c['spec']
    sul = NdSUL(spec, seed=c['seed'])
    m = sul.m
    T = c30.Truth(t, spec)
    random.seed(c['seed'])
    init = [m.outs[m.init]] if t == 'mdp' else []

    def walk(n, first=None):
        w = tuple(random.choice(m.al) for _ in range(n))
        if first is not None:
            w = (first,) + w[1:]
        return init + list(zip(w, sul.query(w)))

    data = [walk(c['dlen']) for _ in range(c['data'])] + [walk(c['dlen'], a) for a in m.al]
    snapshot = copy.deepcopy(data)
    gathered = list(data)
    kw = {'eps': c['eps']} if c['eps'] != 'checker' else {'compatibility_checker': HoeffdingCompatibility(0.2)}
    rounds = []

    class Watch(AA.RandomWordSampler):
        def sample(self, s, model):
            expect(s is sul, 'the sampler got another system')
            expect(type(model).__name__ == {'mdp': 'Mdp', 'smm': 'StochasticMealyMachine'}[t], 'the model is of another type than requested', got=type(model).__name__)
            want = run_Alergia(gathered, automaton_type=t, **kw)
            expect(table(model, t) == table(want, t), 'the model is not the one learned from all data gathered so far', round=len(rounds))
            rounds.append(model)
            before = len(sul.traces)
            if c['custom']:
                new = [walk(random.randint(self.min_walk_len, self.max_walk_len)) for _ in range(self.num_walks)]
            else:
                new = super().sample(s, model)
                seen = [x for x in sul.traces[before:] if x]
                expect(len(seen) == self.num_walks, 'number of walks differs from the requested one', walks=len(seen), requested=self.num_walks)
                for w in seen:
                    expect(self.min_walk_len <= len(w) <= self.max_walk_len, 'length of a walk is outside the requested range', length=len(w))
                expect(sorted(map(repr, [list(x) for x in new])) == sorted(map(repr, [init + list(x) for x in seen])), 'the samples differ from what was observed', samples=new[:3], observed=seen[:3])
            gathered.extend(new)
            return new

    args = dict(kw, print_info=c['print'])
    if not (t == 'mdp' and c['default']):
        args['automaton_type'] = t
    model = run_active_Alergia(data, sul, Watch(c['walks'], c['lo'], c['hi']), c['n'], **args)
    expect(data == snapshot, 'the data of the caller were modified')
    expect(len(rounds) == c['n'], 'number of rounds differs from the requested one', rounds=len(rounds), requested=c['n'])
    if c['n']:
        expect(table(model, t) == table(rounds[-1], t), 'the returned model is not the one of the last round')
    return c['n'] > 1 and c['walks'] > 0, [t, f"rounds_{c['n']}", 'custom' if c['custom'] else 'random']


SUBS = [
    Sub('rpni', rpni_cases(), check_rpni, 3000),
    Sub('alergia', alergia_cases(), check_alergia, 3000),
]
