import itertools
import random

from hypothesis import strategies as st

from aalpy import automata as A
from aalpy.learning_algs import run_Alergia
from aalpy.learning_algs.general_passive.GsmAlgorithms import run_Alergia_EDSM
from aalpy.learning_algs.stochastic_passive.CompatibilityChecker import CompatibilityChecker

from vf import gen
from vf.core import Sub, expect
from vf.gen import ints
from vf.ref import Det, first_difference, minimal_spec, sym, osym
from vf.stoch import nd, Nd, read_nd

from checks import c21

PROPERTY = 'C24'
RULE = ('(freq) traces of random Markov chains / MDPs / stochastic Mealy machines or arbitrary traces, all confidence values, custom checkers, both implementations; (strict) nothing is merged beyond identical '
        'behaviour: custom checker or zero tolerance, traces end with a marker; (exact) repeated characteristic samples of deterministic systems; (jar) the wrapper of the external Java implementation with a stand-in program; non-trivial: at least three traces')
ASSUMPTIONS = ['traces of Markov chains and MDPs start with the same output', 'outputs of Markov chains are not tuples (documented in the code)', '0 < eps <= 2']
CLS = {'mc': A.MarkovChain, 'mdp': A.Mdp, 'smm': A.StochasticMealyMachine}


class Always(CompatibilityChecker):
    def __init__(self, answer):
        self.answer = answer

    def are_states_different(self, a, b, **kwargs):
        return self.answer


@st.composite
def cases(draw, strict=False):
    t = draw(st.sampled_from(['mc', 'mdp', 'smm']))
    src = draw(st.sampled_from(['machine', 'machine', 'arb']))
    oks = ('str', 'int', 'bool', 'empty', 'text') + (() if t == 'mc' else ('tuple', 'mixed'))
    k = 1 if t == 'mc' else draw(ints(1, 3))
    if src == 'machine':
        spec = draw(nd(t, max_n=4, max_k=k, min_k=k, big=6, oks=tuple(o for o in oks if o != 'bool')))
    else:
        spec = {'t': t, 'k': k, 'sk': draw(st.sampled_from(['str', 'int', 'tuple', 'mixed', 'text'])), 'ok': draw(st.sampled_from(oks)), 'm': draw(ints(1, 3))}
    kind = draw(st.sampled_from(['short'] + ['usual'] * 12 + ['long']))
    lens = draw(st.lists({'short': ints(0, 3), 'usual': ints(0, 8), 'long': ints(9, 30)}[kind], min_size=1, max_size=25))
    c = {'t': t, 'src': src, 'spec': spec, 'lens': lens, 'pool': [draw(gen.words(k, 8 if draw(ints(0, 5)) else 32)) for _ in range(draw(ints(0, 3)))],
         'wseed': draw(ints(0, 10 ** 6)), 'many': draw(st.sampled_from({'short': [1, 60], 'usual': [1, 1, 1, 10], 'long': [1]}[kind])), 'alg': draw(st.sampled_from(['alergia', 'alergia', 'edsm'])),
         'eps': draw(st.sampled_from([0.005, 0.05, 0.5, 1, 2, 'auto'])), 'checker': draw(st.sampled_from([None, None, None, True, False])), 'tup': draw(st.booleans()), 'print': draw(ints(0, 9)) == 0}
    if strict:
        c['mode'] = draw(st.sampled_from(['always', 'always', 'eps2']))
    return c


def traces_of(c, end=False):
    spec, t = c['spec'], c['t']
    rng = random.Random(c['wseed'])
    al = [sym(spec['sk'], i) for i in range(spec['k'])]
    m = Nd(spec) if c['src'] == 'machine' else None
    o0 = (m.outs[m.init] if m else osym(spec['ok'], 0)) if t != 'smm' else None
    # biased inputs so that prefixes repeat
    out = []
    for n in c['lens'] * c['many']:
        tr = [] if t == 'smm' else [o0]
        s = m.init if m else None
        w = rng.choice(c['pool'])[:n] if c['pool'] else [rng.randrange(spec['k']) for _ in range(n)]
        for i in w:
            if m:
                x = rng.random()
                for o, s2, p in m.tr[s][i]:
                    x -= float(p)
                    if x <= 0:
                        break
                s = s2
            else:
                o = osym(spec['ok'], rng.randrange(spec['m']) % (2 if spec['ok'] == 'bool' else 9))
            tr.append(o if t == 'mc' else (al[i], o))
        if end and t != 'smm':
            tr.append('END' if t == 'mc' else (al[0], 'END'))
        out.append(tr)
    return al, out


def learn(c, traces):
    d = [tuple(x) if c['tup'] else list(x) for x in traces]
    if c['alg'] == 'edsm':
        eps = c['eps'] if c['eps'] != 'auto' else 0.05
        return run_Alergia_EDSM(d, c['t'], eps=eps, print_info=c['print'])
    checker = None if c['checker'] is None else Always(c['checker'])
    return run_Alergia(d, c['t'], eps=c['eps'], compatibility_checker=checker, print_info=c['print'])


def read(model, t):
    expect(type(model) is CLS[t], 'wrong kind of model', got=type(model).__name__)
    ids = [s.state_id for s in model.states]
    expect(len(set(ids)) == len(ids), 'two states share an id')
    _, outs, tr, init = read_nd(model, t)
    for row in tr:
        for a, lst in row.items():
            expect(all(0 < p <= 1 + 1e-12 for _, _, p in lst), 'a probability is not in (0, 1]', input=a, cell=lst)
            expect(abs(sum(p for _, _, p in lst) - 1) < 1e-9, 'a distribution does not sum to one', input=a, cell=lst)
            os = [o for o, _, _ in lst]
            expect(len(set(os)) == len(os), 'input and output do not determine the successor', input=a, cell=lst)
    return outs, tr, init


def step(t, outs, tr, s, el):
    a, o = (None, el) if t == 'mc' else el
    r = [x for x in tr[s].get(a, []) if x[0] == o]
    return (a, o), (r[0] if r else None)


def check_counts(model, t, traces):
    outs, tr, init = read(model, t)
    cnt = {}
    for x in traces:
        s = init
        if t != 'smm':
            expect(outs[init] == x[0], 'initial output differs from the data', got=outs[init], expected=x[0])
            x = x[1:]
        for el in x:
            (a, o), r = step(t, outs, tr, s, el)
            expect(r is not None, 'a given trace is impossible in the model', trace=x, at=(a, o))
            cnt[(s, a, o)] = cnt.get((s, a, o), 0) + 1
            s = r[1]
    for s, row in enumerate(tr):
        for a, lst in row.items():
            tot = sum(cnt.get((s, a, o), 0) for o, _, _ in lst)
            for o, _, p in lst:
                expect((s, a, o) in cnt, 'the model has a transition that no trace takes', input=a, output=o)
                expect(abs(p - cnt[(s, a, o)] / tot) < 1e-9, 'a probability is not the relative frequency in the data', input=a, output=o, got=p, expected=cnt[(s, a, o)] / tot)
    return outs, tr, init


def check(case):
    al, traces = traces_of(case)
    model = learn(case, traces)
    outs, tr, init = check_counts(model, case['t'], traces)
    return len(traces) > 2, [case['t'], case['alg'], case['src'], f"eps_{case['eps']}", f"checker_{case['checker']}", f'states_{min(len(tr), 6)}']


def tree(traces, t):
    root = [0, {}, 0]
    for x in traces:
        n = root
        for el in (x if t == 'smm' else x[1:]):
            n = n[1].setdefault(el, [0, {}, 0])
            n[0] += 1
    return root


def check_strict(case):
    t = case['t']
    al, traces = traces_of(case, end=True)
    mode = case['mode']
    if t != 'mc' and mode == 'eps2':
        mode = 'always'  # with several inputs, states without common inputs may still be merged
    if mode == 'always':
        case = dict(case, alg='alergia', checker=True)
    else:
        case = dict(case, eps=2, checker=None)
    model = learn(case, traces)
    outs, tr, init = check_counts(model, t, traces)
    # walk the tree of observations: at every observed situation the model has exactly the observed relative frequencies
    todo = [(tree(traces, t), init)]
    inner = 0
    for n, s in todo:
        tot = {}
        for el, c in n[1].items():
            a = None if t == 'mc' else el[0]
            tot[a] = tot.get(a, 0) + c[0]
        inner += bool(tot)
        for el, c in n[1].items():
            (a, o), r = step(t, outs, tr, s, el)
            expect(abs(r[2] - c[0] / tot[a]) < 1e-9, 'a strict confidence does not reproduce the data exactly', input=a, output=o, got=r[2], expected=c[0] / tot[a])
            todo.append((c, r[1]))
    return inner > 2, [t, mode, case['alg'], f'states_{min(len(tr), 9)}']


@st.composite
def exact_cases(draw):
    t = draw(st.sampled_from(['mc', 'mdp', 'mdp', 'smm', 'smm']))
    spec = draw(gen.det(types=('mealy',) if t == 'smm' else ('moore',), max_n=5 if t != 'mc' else 7, max_k=1 if t == 'mc' else 2, oks=('str', 'int', 'empty', 'text') if t == 'mc' else ('str', 'int', 'bool', 'tuple', 'empty', 'mixed', 'text')))
    return {'t': t, 'spec': minimal_spec(spec), 'eps': draw(st.sampled_from([0.005, 0.05, 0.5, 2])), 'alg': draw(st.sampled_from(['alergia', 'alergia', 'edsm'])), 'checker': None, 'tup': draw(st.booleans()), 'print': False,
            'shuffle': draw(ints(0, 10 ** 6)), 'words': draw(st.lists(gen.words(spec['k'], 7), max_size=5))}


def check_exact(case):
    spec, t = case['spec'], case['t']
    d = Det(spec)
    acc = c21.shortest_words(d)
    if sum(map(len, acc.values())) > 40:
        return False, ['too_many_access_words']
    W = {()}
    for a, b in itertools.combinations(range(d.n), 2):
        W.add(first_difference(d, d, a, b))
    base = [w for ws in acc.values() for w in ws]
    base = base + [w + (a,) for w in base for a in d.al]
    words = list(dict.fromkeys([w + x for w in base for x in W] + [tuple(d.al[i] for i in w) for w in case['words']]))
    reps = {0.005: 13, 0.05: 8, 0.5: 3, 2: 1}[case['eps']]  # 2 * sqrt(0.5 * ln(2 / eps)) / sqrt(reps) < 1
    traces = []
    for w in words:
        o = d.run(w) if w else []
        x = list(zip(w, o)) if t != 'mc' else list(o)
        traces += [([] if t == 'smm' else [d.out[d.init]]) + x] * reps
    random.Random(case['shuffle']).shuffle(traces)
    model = learn(case, traces)
    outs, tr, init = check_counts(model, t, traces)
    expect(len(tr) == d.n, 'the model of rich data of a deterministic system does not have its states', states=len(tr), minimal=d.n)
    todo, seen = [(init, d.init)], {(init, d.init)}
    for s, x in todo:
        if t != 'smm':
            expect(outs[s] == d.out[x], 'output of a state differs from the system')
        for i, a in enumerate(d.al):
            cell = tr[s].get(None if t == 'mc' else a, [])
            expect(len(cell) == 1 and abs(cell[0][2] - 1) < 1e-9, 'the model of rich data of a deterministic system is not deterministic and complete', cell=cell)
            y = d.tr[x][i]
            expect(cell[0][0] == (d.out[x][i] if t == 'smm' else d.out[y]), 'the model of rich data of a deterministic system has another output', input=a)
            if (cell[0][1], y) not in seen:
                seen.add((cell[0][1], y))
                todo.append((cell[0][1], y))
    return d.n > 1, [t, case['alg'], f'n_{d.n}']


# ------------------------------------------------------------------ the external implementation, with a stand-in for the Java program

@st.composite
def jar_cases(draw):
    t = draw(st.sampled_from(['mc', 'mdp', 'smm']))
    spec = draw(nd(t, max_n=3, max_k=2, sks=('str', 'int'), oks=('str', 'int')))
    return {'t': t, 'spec': spec, 'src': 'machine', 'lens': draw(st.lists(ints(0, 5), min_size=1, max_size=5)), 'pool': [], 'wseed': draw(ints(0, 999)), 'many': 1, 'tup': draw(st.booleans()),
            'eps': draw(st.sampled_from([0.05, 0.5, 1, 0.005])), 'heap': draw(st.sampled_from([None, '-Xmx100M'])), 'given': draw(st.sampled_from(['list', 'list', 'file', 'no_file'])), 'jar': draw(ints(0, 5)) > 0,
            'works': draw(ints(0, 4)) > 0, 'stale': draw(st.booleans())}


def check_jar(case):
    import contextlib
    import io
    import os
    import tempfile
    from aalpy.learning_algs import run_JAlergia
    from vf.stoch import build_nd
    t = case['t']
    al, traces = traces_of(case)
    # one sequence per line: outputs of a chain, alternating inputs and outputs otherwise
    data = [[y for x in tr for y in (x if isinstance(x, tuple) else (x,))] for tr in traces]
    lines = [','.join(str(x) for x in tr) for tr in data]
    want, _ = build_nd(case['spec'])
    other, _ = build_nd({**case['spec'], 'ok': 'empty'})
    cwd, path = os.getcwd(), os.environ['PATH']
    with tempfile.TemporaryDirectory() as d:
        d = os.path.realpath(d)
        work, box = os.path.join(d, 'work'), os.path.join(d, 'box')
        os.mkdir(work)
        os.mkdir(box)
        want.save(os.path.join(box, 'model'))
        with open(os.path.join(box, 'java'), 'w') as f:
            f.write(f'#!/bin/sh\nfor x in "$@"; do printf "%s\\n" "$x" >> "{box}/args"; [ "$l" = -input ] && cp "$x" "{box}/seen"; l="$x"; done\n'
                    f'[ -e jAlergiaModel.dot ] && touch "{box}/stale"\n' + (f'cp "{box}/model.dot" jAlergiaModel.dot\n' if case['works'] else 'exit 1\n'))
        os.chmod(os.path.join(box, 'java'), 0o755)
        if case['jar']:
            open(os.path.join(work, 'x.jar'), 'w').close()
        own = os.path.join(work, 'own.txt')
        if case['given'] == 'file':
            with open(own, 'w') as f:
                f.write('\n'.join(lines) + '\n')
        if case['stale']:
            other.save(os.path.join(work, 'jAlergiaModel'))
        arg = 'own.txt' if case['given'] != 'list' else [tuple(x) if case['tup'] else x for x in data]
        kw = {} if case['heap'] is None else {'heap_memory': case['heap']}
        os.chdir(work)
        os.environ['PATH'] = box + os.pathsep + path
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                model = run_JAlergia(arg, t, 'x.jar', eps=case['eps'], **kw)
        finally:
            os.chdir(cwd)
            os.environ['PATH'] = path
        ran = case['jar'] and case['given'] != 'no_file'
        expect(os.path.exists(os.path.join(box, 'args')) is ran, 'the program was run without data or not run at all')
        expect(os.path.exists(own) is (case['given'] == 'file'), 'the file with the data of the user was changed')
        if not ran or not case['works']:
            expect(model is None, 'a model although nothing was learned')
            return False, [t, 'failed']
        with open(os.path.join(box, 'seen')) as f:
            seen = f.read().split('\n')
        expect(seen == lines + [''], 'the program was given other data', got=seen, expected=lines)
        with open(os.path.join(box, 'args')) as f:
            args = f.read().split('\n')[:-1]
        opt = {a: b for a, b in zip(args, args[1:])}
        expect(opt.get('-jar') == os.path.join(work, 'x.jar') and opt.get('-eps') == str(case['eps']) and opt.get('-type') == t, 'the program was run with other parameters', args=args)
        expect((case['heap'] or '-Xmx2048M') in args[:args.index('-jar')], 'the heap size was not passed on', args=args)
        expect(not os.path.exists(os.path.join(box, 'stale')), 'a model of an earlier run was left for the program to find')
        expect(sorted(os.listdir(work)) == sorted(['x.jar'] + (['own.txt'] if case['given'] == 'file' else [])), 'temporary files were left behind', files=sorted(os.listdir(work)))
    outs, tr, init = read(model, t)
    m = Nd(case['spec'])
    pos, todo = {m.init: init}, [m.init]
    for s in todo:
        if t != 'smm':
            expect(str(outs[pos[s]]) == str(m.outs[s]), 'the model read back has other outputs')
        for i in range(m.k):
            row = next((l for a, l in tr[pos[s]].items() if a is None or str(a) == str(m.al[i])), [])
            expect(len(row) == len(m.tr[s][i]), 'the model read back has other transitions')
            for o, x, p in m.tr[s][i]:
                y = [y for y in row if str(y[0]) == str(o)]
                expect(len(y) == 1 and abs(y[0][2] - float(p)) < 1e-9, 'the model read back has other probabilities', expected=float(p), got=y)
                if x not in pos:
                    pos[x] = y[0][1]
                    todo.append(x)
                expect(pos[x] == y[0][1], 'the model read back has other successors')
    return True, [t, case['given'], 'stale' if case['stale'] else 'fresh']


SUBS = [Sub('freq', cases(), check, quick=4000), Sub('strict', cases(strict=True), check_strict, quick=1500), Sub('exact', exact_cases(), check_exact, quick=800),
        Sub('jar', jar_cases(), check_jar, quick=250, thorough=3000)]
