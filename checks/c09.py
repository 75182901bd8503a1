import random

from hypothesis import strategies as st

from aalpy import oracles as O
from aalpy.base.SUL import CacheSUL

from vf import gen
from vf.core import Sub, expect, Violation
from vf.gen import ints
from vf.orc import oracle_params, make_oracle, DET_ORACLES
from vf.ref import Det, ReadDet, build, first_difference, minimal_spec
from vf.stoch import nd, Nd, build_nd, NdSUL
from vf.sul import RefSUL

PROPERTY = 'C09'
RULE = ('(det) 1-3 successive hypotheses (equal, restructured, mutated or unrelated machines, also non-minimal ones and ones with unreachable states or stale access words) put to one oracle of every kind with random '
        'parameters; (stoch) random walk / random word oracles on ONFSM, MDP and stochastic Mealy hypotheses; (user) the interactive oracle with a scripted user; non-trivial: the oracle executed at least one test and '
        'either returned a counterexample or the two machines are equivalent')
ASSUMPTIONS = ['hypotheses are input complete and their states have access words (not necessarily right ones)', 'hypothesis and system agree on the empty word (learners ask it first)']


@st.composite
def variants(draw, spec):
    """a machine over the same alphabet: the same, minimised, with a duplicated state, or mutated"""
    kind = draw(st.sampled_from(['same', 'min', 'dup', 'mut', 'mut', 'mut', 'mut2']))
    s = {k: ([list(r) if isinstance(r, list) else r for r in v] if isinstance(v, list) else v) for k, v in spec.items()}
    if kind == 'min':
        s = minimal_spec(s)
    elif kind == 'dup':
        x = draw(ints(0, s['n'] - 1))
        s['tr'].append(list(s['tr'][x]))
        s['out'].append(list(s['out'][x]) if s['t'] == 'mealy' else s['out'][x])
        s['n'] += 1
        for r in s['tr']:
            for i in range(s['k']):
                if r[i] == x and draw(st.booleans()):
                    r[i] = s['n'] - 1
    elif kind.startswith('mut'):
        for _ in range(2 if kind == 'mut2' else 1):
            q, i = draw(ints(0, s['n'] - 1)), draw(ints(0, s['k'] - 1))
            if draw(st.booleans()) or (s['t'] != 'mealy' and q == s['init']):
                s['tr'][q][i] = draw(ints(0, s['n'] - 1))
            elif s['t'] == 'mealy':
                s['out'][q][i] = (s['out'][q][i] + 1) % 2
            else:
                s['out'][q] = (s['out'][q] + 1) % 2
    return s


@st.composite
def cases(draw):
    spec = draw(gen.det(max_n=6, max_k=3))
    hyps = [draw(variants(spec)) for _ in range(draw(ints(1, 3)))]
    return {'spec': spec, 'hyps': hyps, 'oracle': draw(oracle_params(DET_ORACLES, spec['k'])), 'cached': draw(ints(0, 3)) == 0,
            'pre': draw(st.lists(gen.lwords(spec['k'], 5, 1), max_size=4)), 'access': draw(st.sampled_from(['short', 'short', 'short', 'random', 'random', 'wrong']))}


def reach(spec):
    """restrict a spec to its reachable states"""
    d = Det(spec)
    r = d.reachable()
    num = {s: i for i, s in enumerate(r)}
    s = dict(spec)
    s.update(n=len(r), tr=[[num[x] for x in spec['tr'][q]] for q in r], out=[spec['out'][q] for q in r], init=0)
    return s


def make_hyp(spec, access='short', rng=None):
    """aalpy hypothesis with access words set as the learners set them"""
    model, states = build(spec)
    d = Det(spec)
    acc = d.access()
    for i, s in enumerate(states):
        if access == 'wrong' and i != d.init and (i not in acc or rng.random() < 0.5):
            # classification trees submit hypotheses whose states are not all reached by their access words
            acc[i] = tuple(rng.choice(d.al) for _ in range(rng.randrange(1, 5)))
        w = acc[i]
        if access == 'random' and i != d.init:
            for _ in range(6):
                x = tuple(rng.choice(d.al) for _ in range(rng.randrange(1, 6)))
                if d.target(x) == i:
                    w = x
                    break
        s.prefix = w
    return model


def check(case):
    spec = case['spec']
    raw = RefSUL(spec)
    d = raw.m
    rng = random.Random(case['oracle']['seed'])
    random.seed(case['oracle']['seed'])
    name = case['oracle']['name']
    sul = CacheSUL(raw) if (case['cached'] or name == 'CacheBased') else raw
    al = list(d.al)
    if isinstance(sul, CacheSUL):
        for w in case['pre']:
            sul.query(tuple(d.al[i] for i in w))
    hyps = [h if case['access'] == 'wrong' else reach(h) for h in case['hyps']]
    eq = make_oracle(case['oracle'], al, sul, min(len(hyps[0]['tr']), 4), spec)
    found = same = 0
    q0 = raw.resets
    for h in hyps:
        hd = Det(h)
        if hd.t != 'mealy' and hd.out[hd.init] != d.out[d.init]:
            continue
        model = make_hyp(h, case['access'], rng)
        diff = first_difference(d, hd)
        before = [(s, dict(s.transitions)) for s in model.states]
        cex = eq.find_cex(model)
        expect(al == d.al, 'the alphabet was modified')
        r = ReadDet(model, h['t'], d.al)
        expect(first_difference(hd, r) is None, 'the hypothesis was changed by the oracle')
        if cex is None:
            if name == 'Perfect':
                expect(diff is None, 'the perfect oracle missed a difference', diff=diff)
        else:
            w = tuple(cex)
            expect(name == 'Perfect' or not raw.open, f'{name} returned a counterexample and left the system running', cex=w)
            expect(len(w) > 0, 'an empty counterexample was returned')
            bad = [a for a in w if a not in d.idx]
            expect(not bad, 'the counterexample contains symbols outside the alphabet', cex=w)
            expect(d.run(w) != hd.run(w), f'{name} returned a sequence on which system and hypothesis agree', cex=w, outputs=d.run(w))
            expect(d.run(w)[-1] != hd.run(w)[-1], f'{name}: the counterexample does not end in a difference', cex=w, system=d.run(w), hypothesis=hd.run(w))
            found += 1
        same += diff is None
    return raw.resets > q0 and (found or same) or name == 'Perfect', [name, 'cex' if found else 'none', 'equal' if same else 'different', case['access']]


@st.composite
def stoch_cases(draw):
    t = draw(st.sampled_from(['onfsm', 'mdp', 'smm']))
    spec = draw(nd(t, max_n=4))
    mode = draw(st.sampled_from(['same', 'other', 'drop', 'drop']))
    drops = [[draw(ints(0, 9)), draw(ints(0, 9))] for _ in range(draw(ints(1, 3)))]
    c = {'spec': spec, 'mode': mode, 'drops': drops, 'oracle': draw(oracle_params(['RandomWalk', 'RandomWord'])), 'seed': draw(ints(0, 9999)), 'calls': draw(ints(1, 3))}
    if mode == 'other':
        other = draw(nd(t, max_n=4, min_k=spec['k'], max_k=spec['k'], sks=(spec['sk'],), oks=(spec['ok'],)))
        if spec['out'] is not None:
            other['out'][0] = spec['out'][0]
        c['hyp'] = other
    return c


def check_stoch(case):
    spec = case['spec']
    hyp = case.get('hyp') or {k: v for k, v in spec.items()}
    if case['mode'] == 'other' and hyp['out'] is not None:
        # transitions must stay observable after fixing the initial output
        for row in hyp['tr']:
            for cell in row:
                seen = set()
                for e in list(cell):
                    if hyp['out'][e[1]] in seen:
                        cell.remove(e)
                    else:
                        seen.add(hyp['out'][e[1]])
    if case['mode'] == 'drop':
        hyp['tr'] = [[list(c) for c in row] for row in spec['tr']]
        for a, b in case['drops']:
            s, i = a % hyp['n'], b % hyp['k']
            if len(hyp['tr'][s][i]) > 1:
                hyp['tr'][s][i] = hyp['tr'][s][i][1:]
    random.seed(case['oracle']['seed'])
    sul = NdSUL(spec, case['seed'])
    m, h = sul.m, Nd(hyp)
    al = list(m.al)
    eq = make_oracle(case['oracle'], al, sul, 1)
    model, _ = build_nd(hyp)
    found = 0
    runs, old = [], (sul.pre, sul.step)

    def pre():
        runs.append([])
        return old[0]()

    def step(x=None):
        o = old[1](x)
        if x is not None:
            runs[-1].append((x, o))
        return o

    sul.pre, sul.step = pre, step
    for _ in range(case['calls']):
        del runs[:]
        cex = eq.find_cex(model)
        # an execution that the hypothesis cannot produce is reported
        for r in runs if cex is None else runs[:-1]:
            hs = frozenset([h.init])
            for a, o in r:
                hs = h.succ(hs, h.idx[a], o)
            expect(hs, 'an execution that the hypothesis cannot produce was not reported', run=r)
        if cex is None:
            break
        found += 1
        t = spec['t']
        if t == 'onfsm':
            expect(isinstance(cex, tuple) and len(cex) == 2 and len(cex[0]) == len(cex[1]) > 0, f'malformed counterexample {cex!r}')
            pairs = list(zip(*cex))
        else:
            c = list(cex)
            if t == 'mdp':
                expect(c and c[0] == m.outs[m.init], 'counterexample does not start with the initial output', cex=c)
                c = c[1:]
            expect(len(c) % 2 == 0 and c, f'malformed counterexample {cex!r}')
            pairs = list(zip(c[::2], c[1::2]))
        ss, hs = frozenset([m.init]), frozenset([h.init])
        for j, (a, o) in enumerate(pairs):
            ss, prev = m.succ(ss, m.idx[a], o), hs
            hs = h.succ(hs, h.idx[a], o)
            expect(ss, 'the counterexample is not a trace of the system', cex=pairs)
            if j < len(pairs) - 1:
                expect(hs, 'the counterexample does not end at its first difference', cex=pairs)
        expect(not hs, 'the counterexample is a trace of the hypothesis', cex=pairs)
        expect(case['mode'] != 'same', 'a counterexample was returned for identical machines', cex=pairs)
    return (found > 0 or case['mode'] == 'same'), [spec['t'], case['mode'], case['oracle']['name'], f'found_{found}']


# ------------------------------------------------------------------ interactive oracle with a scripted user

@st.composite
def user_cases(draw):
    spec = draw(gen.det(max_n=4, max_k=3, sks=('str',)))
    one = st.one_of(ints(0, spec['k'] - 1), ints(0, spec['k'] - 1), ints(0, spec['k'] - 1), st.sampled_from(['help', 'print alphabet', 'current inputs', 'reset', 'cex', 'nonsense', '']))
    return {'spec': spec, 'hyps': [draw(variants(spec)) for _ in range(draw(ints(1, 3)))], 'scripts': [draw(st.lists(one, max_size=8)) for _ in range(3)], 'ends': draw(st.lists(st.sampled_from(['end', 'cex']), min_size=3, max_size=3))}


def check_user(case):
    import builtins
    import contextlib
    import io
    import sys
    mod = sys.modules['aalpy.oracles.UserInputEqOracle']
    raw = RefSUL(case['spec'])
    d = raw.m
    eq = O.UserInputEqOracle(list(d.al), raw)
    steps = queries = found = 0
    labels = [case['spec']['t']]
    for h, script, end in zip(case['hyps'], case['scripts'], case['ends']):
        h = reach(h)
        hd = Det(h)
        model = make_hyp(h)
        todo = [d.al[x] if isinstance(x, int) else x for x in script] + [d.al[0], end]
        # what has to happen
        word, want, shown, lines, used = [], 'open', [], [], 0
        queries += 1
        for x in todo:
            used += 1
            if x == 'cex' and word:
                want = list(word)
                break
            if x == 'end':
                want = None
                break
            if x == 'reset':
                word = []
                queries += 1
            elif x == 'current inputs':
                lines.append(str(word))
            elif x == 'print alphabet':
                lines.append(str(d.al))
            elif x in d.al:
                word.append(x)
                steps += 1
                a, b = hd.run(word)[-1], d.run(word)[-1]
                lines += [f'Hypothesis Output : {a}', f'SUL Output : {b}']
                if a != b:
                    lines.append('Counterexample found.')
        feed = iter(todo)
        drawn = []
        out = io.StringIO()
        keep = (builtins.input, mod.visualize_automaton)
        builtins.input, mod.visualize_automaton = (lambda *a: next(feed)), (lambda m, *a, **k: drawn.append(m))
        try:
            with contextlib.redirect_stdout(out):
                cex = eq.find_cex(model)
        finally:
            builtins.input, mod.visualize_automaton = keep
        expect((None if cex is None else list(cex)) == want, 'the answer of the user was not returned', script=todo, got=cex, expected=want)
        expect(len(list(feed)) == len(todo) - used, 'the user was asked again after the answer', script=todo)
        expect(drawn == [model], 'the hypothesis is not shown to the user')
        expect((eq.num_steps, eq.num_queries) == (steps, queries) == (raw.steps, raw.resets), 'wrong number of steps or queries', oracle=(eq.num_steps, eq.num_queries), system=(raw.steps, raw.resets), expected=(steps, queries))
        got = [' '.join(l.split()) for l in out.getvalue().split('\n')]
        lines = [' '.join(l.split()) for l in lines]
        got = [l for l in got if l.startswith(('Hypothesis Output', 'SUL Output', 'Counterexample found', '['))]
        expect(got == lines, 'the user is told something else', got=got, expected=lines)
        if cex is not None:
            expect(not raw.open, 'a counterexample was returned and the system left running')
            found += 1
    return steps > 2, labels + [f'found_{found}']


SUBS = [Sub('det', cases(), check, quick=12000), Sub('stoch', stoch_cases(), check_stoch, quick=4000), Sub('user', user_cases(), check_user, quick=1500)]
