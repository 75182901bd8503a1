import itertools
import random

from hypothesis import strategies as st

from aalpy import automata as A
from aalpy.learning_algs.general_passive.GeneralizedStateMerging import run_GSM, Instrumentation
from aalpy.learning_algs.general_passive.GsmAlgorithms import run_EDSM, run_k_tails
from aalpy.learning_algs.general_passive.GsmNode import GsmNode
from aalpy.learning_algs.general_passive import ScoreFunctionsGSM as S

from vf import gen
from vf.core import Sub, expect, Violation
from vf.gen import ints
from vf.ref import Det, ReadDet, first_difference, check_type, minimal_spec, sym, osym
from vf.stoch import nd, Nd, read_nd

from checks import c21

PROPERTY = 'C23'
RULE = ('(edsm) labelled words from random machines or arbitrary consistent labels; (gsm) the general algorithm on traces / labelled sequences of deterministic and nondeterministic machines and arbitrary traces with '
        'random scores, orders and search options; (exact) characteristic samples; (ktails) k-tails with all k; non-trivial: at least three observations')
ASSUMPTIONS = ['Moore traces start with the same output', 'Mealy labelled data are prefix-closed', 'user supplied scores are pure functions',
               'deterministic merging with compatibility checked on futures only may refuse the data (error), because such checks do not see conflicts between merged states']


# ------------------------------------------------------------------ EDSM

def check_edsm(case):
    t = case['t']
    al, data = c21.data_of(case)
    if not data:
        return False, ['empty']
    d = [((list(w) if case['lists'] else w), o) for w, o in data]
    rng = random.Random(case['shuffle'])
    for _ in range(case['dup']):
        d.append(rng.choice(d))
    rng.shuffle(d)
    model = run_EDSM(d, t, input_completeness=case['complete'], print_info=case['print'])
    expect(model is not None, 'no model for consistent data')
    c21.well_formed(model, t, al)
    c21.replay(model, t, data)
    used = {a for w, _ in data for a in w}
    if case['complete'] is not None:
        for s in model.states:
            for a in used:
                expect(a in s.transitions, 'the model is not input complete', state=s.state_id, input=a)
    nodes = len({w[:i] for w, _ in data for i in range(len(w) + 1)})
    expect(len(model.states) <= max(1, nodes) + 1, 'more states than observed situations', states=len(model.states), situations=nodes)
    return len(data) > 2, [t, case['src'], str(case['complete'])]


# ------------------------------------------------------------------ the general algorithm

ORDERS = ['default', 'default', 'default', 'long', 'rev', 'str', 'fanout']
DET_SCORES = ['none', 'none', 'edsm', 'edsm_min', 'freq', 'sink', 'combi', 'ktail', 'greedy', 'thresh', 'llh', 'greedy_obj', 'global']
ND_SCORES = ['det', 'det', 'all', 'ktail', 'hoeff', 'sink', 'edsm_det', 'combi', 'greedy_obj', 'global']
ST_SCORES = ['none', 'none', 'hoeff', 'edsm', 'aic', 'det', 'all']


def order(name):
    if name == 'default':
        return None
    if name == 'long':
        return lambda a, b: (-a.get_prefix_length(), str(a.get_prefix())) < (-b.get_prefix_length(), str(b.get_prefix()))
    if name == 'rev':
        return lambda a, b: (a.get_prefix_length(), str(b.get_prefix())) < (b.get_prefix_length(), str(a.get_prefix()))
    if name == 'str':
        return lambda a, b: str(a.get_prefix()) < str(b.get_prefix())
    return lambda a, b: (-len(a.transitions), a.get_prefix_length(), str(a.get_prefix())) < (-len(b.transitions), b.get_prefix_length(), str(b.get_prefix()))


def score(name, p, tb):
    """score calculation objects; p: small parameter"""
    det = GsmNode.deterministic_compatible
    if name == 'none':
        return None
    if name == 'edsm':
        return S.ScoreCalculation(score_function=S.EDSM_score())
    if name == 'edsm_min':
        return S.ScoreCalculation(score_function=S.EDSM_score(p))
    if name == 'freq':
        return S.ScoreCalculation(score_function=S.EDSM_frequency_score(p - 1))
    if name == 'sink':
        return S.ScoreWithSinks(S.ScoreCalculation(det if tb != 'stochastic' else None), lambda n: not n.transitions, p % 2 == 0)
    if name == 'combi':
        return S.ScoreCombinator([S.ScoreCalculation(det, S.EDSM_score()), S.ScoreCalculation(score_function=lambda part: -len(part))])
    if name == 'ktail':
        return S.ScoreWithKTail(S.ScoreCalculation(det), p)
    if name == 'greedy':
        return S.ScoreCalculation(score_function=S.make_greedy(S.EDSM_score(p)))
    if name == 'greedy_obj':
        return S.make_greedy(S.ScoreCalculation(det, S.EDSM_score(p)))
    if name == 'thresh':
        return S.ScoreCalculation(score_function=S.lower_threshold(lambda part: len(part), p))
    if name in ('llh', 'aic'):
        return S.ScoreCalculation(det if name == 'llh' else None, S.AIC_score(p - 3))
    if name == 'global':
        return S.ScoreCalculation(det, S.local_to_global_compatibility(det))
    if name == 'det':
        return S.ScoreCalculation(det)
    if name == 'edsm_det':
        return S.ScoreCalculation(det, S.EDSM_score())
    if name == 'all':
        return S.ScoreCalculation(lambda a, b: True)
    if name == 'hoeff':
        return S.ScoreCalculation(S.hoeffding_compatibility([0.005, 0.05, 0.5, 1.5, 2][p % 5], p % 2 == 0))
    raise ValueError(name)


@st.composite
def gsm_cases(draw):
    tb = draw(st.sampled_from(['deterministic', 'deterministic', 'nondeterministic', 'stochastic']))
    ob = draw(st.sampled_from(['moore', 'mealy']))
    c = {'tb': tb, 'ob': ob, 'wseed': draw(ints(0, 10 ** 6)), 'fmt': 'io_traces', 'steps': False}
    if tb == 'deterministic':
        src = draw(st.sampled_from(['machine', 'machine', 'arb']))
        c['fmt'] = draw(st.sampled_from(['io_traces', 'labeled_sequences']))
        if src == 'machine':
            c['spec'] = draw(gen.det_mix(types=(('moore', 'dfa') if ob == 'moore' else ('mealy',)), big=6, big_n=10, big_k=3, max_n=5, max_k=3))
        else:
            c['spec'] = {'t': ob, 'k': draw(ints(1, 3)), 'sk': draw(st.sampled_from(['str', 'int', 'tuple', 'mixed', 'text'])), 'ok': draw(st.sampled_from(['str', 'int', 'bool', 'empty', 'mixed', 'text']))}
        c['scores'] = draw(st.sampled_from(DET_SCORES))
    else:
        src = draw(st.sampled_from(['machine', 'machine', 'arb']))
        if src == 'machine':
            c['spec'] = draw(nd('onfsm' if ob == 'mealy' else 'ndmoore', max_n=4, max_k=2, observable=draw(st.booleans())))
        else:
            c['spec'] = {'t': 'onfsm' if ob == 'mealy' else 'ndmoore', 'k': draw(ints(1, 2)), 'sk': draw(st.sampled_from(['str', 'int', 'tuple', 'mixed', 'text'])), 'ok': draw(st.sampled_from(['str', 'int', 'bool', 'empty', 'mixed', 'text'])), 'm': draw(ints(1, 3))}
        c['scores'] = draw(st.sampled_from(ND_SCORES if tb == 'nondeterministic' else ST_SCORES))
        if draw(ints(0, 7)) == 0:
            c['fmt'] = 'traces'
    c['src'] = src
    c['large'] = draw(ints(0, 19)) == 0
    c['words'] = draw(st.lists(gen.words(c['spec']['k'], 12), min_size=25, max_size=60)) if c['large'] else draw(st.lists(gen.words(c['spec']['k'], 8), min_size=draw(st.sampled_from([0, 1, 6])), max_size=20))
    c['p'] = draw(ints(0, 4))
    c['order'] = draw(st.sampled_from(ORDERS))
    c['pta'] = draw(ints(0, 3)) == 0
    c['fut'] = draw(ints(0, 3)) == 0
    c['minblue'] = draw(ints(0, 3)) == 0
    c['dfs'] = draw(ints(0, 3)) == 0
    c['tree'] = draw(ints(0, 5)) == 0
    c['auto'] = draw(ints(0, 5)) == 0
    c['tup'] = draw(st.booleans())
    return c


def make_traces(c):
    """list of [o0?, (i, o), ...] (moore with initial output) or for labelled sequences [(word, label)]"""
    spec = c['spec']
    rng = random.Random(c['wseed'])
    words = [tuple(w) for w in c['words']]
    t = spec['t']
    if c['tb'] == 'deterministic':
        al = [sym(spec['sk'], i) for i in range(spec['k'])]
        if c['src'] == 'machine':
            d = Det(spec)
            f = d.run
        else:
            cache = {}

            def f(w):
                out = []
                for i in range(len(w) + 1):
                    if w[:i] not in cache:
                        cache[w[:i]] = osym(spec['ok'], rng.randrange(2))
                    if i:
                        out.append(cache[w[:i]])
                return out if w else [cache[()]]
        ws = [tuple(al[i] for i in w) for w in words]
        if c['fmt'] == 'labeled_sequences':
            if c['ob'] == 'mealy' or c['p'] % 2:
                ws = [w[:i] for w in ws for i in range(len(w) + 1)]
            if c['ob'] == 'mealy':
                ws = [w for w in ws if w]
            return al, [(w, f(w)[-1]) for w in ws]
        o0 = None if c['ob'] == 'mealy' else f(())[-1]
        return al, [([o0] if c['ob'] == 'moore' else []) + list(zip(w, f(w) if w else [])) for w in ws]
    # nondeterministic
    al = [sym(spec['sk'], i) for i in range(spec['k'])]
    m = Nd(spec) if c['src'] == 'machine' else None
    traces = []
    o0 = (m.outs[m.init] if m else osym(spec['ok'], 0)) if c['ob'] == 'moore' else None
    for w in words:
        tr = [o0] if c['ob'] == 'moore' else []
        s = m.init if m else None
        for i in w:
            if m:
                o, s, _ = rng.choice(m.tr[s][i])
            else:
                o = osym(spec['ok'], rng.randrange(spec['m']) % (2 if spec['ok'] == 'bool' else 9))
            tr.append((al[i], o))
        traces.append(tr)
    return al, traces


def read_any(model, ob, tb):
    """uniform view: per state {(input): [(out, target index, prob)]}"""
    kind = {('moore', 'deterministic'): A.MooreMachine, ('moore', 'nondeterministic'): A.NDMooreMachine, ('moore', 'stochastic'): A.Mdp,
            ('mealy', 'deterministic'): A.MealyMachine, ('mealy', 'nondeterministic'): A.Onfsm, ('mealy', 'stochastic'): A.StochasticMealyMachine}[(ob, tb)]
    expect(type(model) is kind, 'wrong kind of model', got=type(model).__name__, expected=kind.__name__)
    ids = [s.state_id for s in model.states]
    expect(len(set(ids)) == len(ids), 'two states share an id')
    if tb == 'deterministic':
        num = {id(s): i for i, s in enumerate(model.states)}
        expect(id(model.initial_state) in num, 'the initial state is not among the states')
        tr = []
        for s in model.states:
            row = {}
            for a, x in s.transitions.items():
                expect(id(x) in num, 'a transition leads to a state that is not in the model')
                if ob == 'mealy':
                    expect(a in s.output_fun, 'transition without output')
                row[a] = [(s.output_fun[a] if ob == 'mealy' else x.output, num[id(x)], None)]
            tr.append(row)
        outs = [s.output for s in model.states] if ob == 'moore' else None
        return outs, tr, num[id(model.initial_state)]
    _, outs, tr, init = read_nd(model, {A.NDMooreMachine: 'ndmoore', A.Mdp: 'mdp', A.Onfsm: 'onfsm', A.StochasticMealyMachine: 'smm'}[kind])
    return outs, tr, init


def replay_any(outs, tr, init, traces, ob, fmt, expect_cover=True):
    """every trace is possible; returns counts {(state, input, out): n}; the model must be built of the observations only"""
    cnt, labels = {}, {}
    for x in traces:
        if fmt == 'labeled_sequences':
            w, lab = x
            steps = [(a, None) for a in w]
        else:
            steps, lab = list(x), None
            if ob == 'moore':
                expect(outs[init] == steps[0], 'initial output differs from the data', got=outs[init], expected=steps[0])
                steps = steps[1:]
        s, last = init, outs[init] if ob == 'moore' else None
        for a, o in steps:
            if fmt == 'labeled_sequences':
                opts = tr[s].get(a, [])
            else:
                opts = [y for y in tr[s].get(a, []) if y[0] == o]
            expect(opts, 'an observation cannot be replayed on the model', trace=x, at=(a, o))
            expect(len(opts) == 1, 'input and output do not determine the successor', trace=x, at=(a, o))
            key = (s, a, opts[0][0])
            cnt[key] = cnt.get(key, 0) + 1
            last, s = opts[0][0], opts[0][1]
        if fmt == 'labeled_sequences':
            expect(last == lab, 'the model contradicts an observation', word=w, label=lab, model=last)
    for s, row in enumerate(tr):
        for a, lst in row.items():
            for o, _, _ in lst:
                expect((s, a, o) in cnt, 'the model has a transition that no observation takes', input=a, output=o)
    return cnt


class Log(Instrumentation):
    def __init__(self):
        super().__init__()
        self.merges, self.promotes = [], []

    def log_promote(self, node):
        self.promotes.append(node.get_prefix())

    def log_merge(self, part):
        self.merges.append((part.red.get_prefix(), part.blue.get_prefix()))


def check_gsm(case):
    al, traces = make_traces(case)
    ob, tb, fmt = case['ob'], case['tb'], case['fmt']
    if fmt == 'traces':
        al = ['step']
        given = [[y if (ob == 'moore' and j == 0) else y[1] for j, y in enumerate(x)] for x in traces]
        traces = [[y if (ob == 'moore' and j == 0) else ('step', y[1]) for j, y in enumerate(x)] for x in traces]
    elif fmt == 'labeled_sequences':
        given = [(list(w) if case['tup'] else w, o) for w, o in traces]
    else:
        given = [tuple(x) if case['tup'] else list(x) for x in traces]
    if not traces:
        return False, ['no_data']
    if tb == 'deterministic' and fmt == 'labeled_sequences':
        fut = pta = False
    else:
        fut, pta = case['fut'], case['pta']
    sc = score(case['scores'], case['p'], tb)
    arg = given
    if case['tree']:
        arg = GsmNode.createPTA(given, ob, fmt)
    log = Log()
    auto = case['auto'] and not case['tree'] and fmt != 'traces'  # the format is detected from the data
    try:
        model = run_GSM(arg, output_behavior=ob, transition_behavior=tb, score_calc=sc, compatibility_on_pta=pta, compatibility_on_futures=fut, node_order=order(case['order']),
                        consider_only_min_blue=case['minblue'], depth_first=case['dfs'], instrumentation=log, data_format='tree' if case['tree'] else None if auto else fmt)
    except ValueError as e:
        if auto and 'ambiguous' in str(e):
            return False, ['ambiguous_format']
        if tb == 'deterministic' and fut and 'structure' in str(e):
            return False, ['refused']
        raise
    outs, tr, init = read_any(model, ob, tb)
    # the replay also checks that nothing beyond the data is in the model
    cnt = replay_any(outs, tr, init, traces, ob, fmt)
    if tb == 'stochastic':
        for s, row in enumerate(tr):
            for a, lst in row.items():
                tot = sum(cnt[(s, a, o)] for o, _, _ in lst)
                for o, _, p in lst:
                    expect(abs(p - cnt[(s, a, o)] / tot) < 1e-9, 'a probability is not the relative frequency in the data', input=a, output=o, got=p, expected=cnt[(s, a, o)] / tot)
    expect(len(tr) == len(log.promotes), 'number of states differs from the number of promoted nodes', states=len(tr), promoted=len(log.promotes))
    return len(traces) > 2, [tb, ob, fmt, 'score_' + case['scores'], 'order_' + case['order'], f"fut{int(fut)}pta{int(pta)}min{int(case['minblue'])}dfs{int(case['dfs'])}", 'merged' if log.merges else 'nothing_merged']


# ------------------------------------------------------------------ exact on characteristic samples

def check_exact(case):
    spec, t = case['spec'], case['t']
    d = Det(spec)
    acc = c21.shortest_words(d)
    if sum(map(len, acc.values())) > 40:
        return False, ['too_many_access_words']
    W = {()}
    for a, b in itertools.combinations(range(d.n), 2):
        W.add(first_difference(d, d, a, b))
    base = [w for ws in acc.values() for w in ws]
    base = base + [w + (a,) for w in base for a in d.al]
    words = [w + x for w in base for x in W] + [tuple(d.al[i] for i in w) for w in case['words']]
    words = list(dict.fromkeys(words))
    rng = random.Random(case['shuffle'])
    rng.shuffle(words)
    ob = 'mealy' if t == 'mealy' else 'moore'
    traces = [([d.out[d.init]] if ob == 'moore' else []) + list(zip(w, d.run(w) if w else [])) for w in words]
    model = run_GSM(traces, output_behavior=ob, transition_behavior='deterministic', data_format='io_traces', consider_only_min_blue=case['dup'] == 1, depth_first=case['lists'])
    read_any(model, ob, 'deterministic')
    expect(len(model.states) == d.n, 'the model of a characteristic sample is not minimal', states=len(model.states), minimal=d.n)
    r = ReadDet(model, ob, d.al)
    w = first_difference(d, r)
    expect(w is None, 'the model of a characteristic sample differs from the machine', word=w)
    return d.n > 1, [t, f'n_{d.n}']


# ------------------------------------------------------------------ k-tails

@st.composite
def kt_cases(draw):
    c = draw(gsm_cases().filter(lambda c: c['fmt'] == 'io_traces'))
    c['k'] = draw(st.sampled_from([0, 1, 1, 2, 2, 3, 5, 20]))
    c['complete'] = draw(st.sampled_from([None, None, None, 'self_loop', 'sink_state']))
    c['print'] = draw(ints(0, 9)) == 0
    return c


def pta_of(traces, ob):
    root = {'o': traces[0][0] if ob == 'moore' else None, 'c': {}}
    for x in traces:
        n = root
        for a, o in (x[1:] if ob == 'moore' else x):
            n = n['c'].setdefault(a, {}).setdefault(o, {'o': o, 'c': {}})
    return root


def check_ktails(case):
    al, traces = make_traces(case)
    if not traces:
        return False, ['no_data']
    ob, k = case['ob'], case['k']
    given = [tuple(x) if case['tup'] else list(x) for x in traces]
    model = run_k_tails(given, ob, k, input_completeness=case['complete'], print_info=case['print'])
    outs, tr, init = read_any(model, ob, 'nondeterministic')
    used = {x[0] for tr_ in traces for x in (tr_[1:] if ob == 'moore' else tr_)}
    if case['complete'] is not None:
        for s, row in enumerate(tr):
            expect(set(row) == used, 'the model is not input complete', missing=used - set(row))
        # every observation stays possible
        for x in traces:
            cur = {init}
            for a, o in (x[1:] if ob == 'moore' else x):
                cur = {y[1] for s in cur for y in tr[s].get(a, []) if y[0] == o}
                expect(cur, 'an observation cannot be replayed on the completed model', trace=x)
        return len(traces) > 2, [ob, f'k_{k}', 'completed']
    replay_any(outs, tr, init, traces, ob, 'io_traces')
    root = pta_of(traces, ob)
    depth = max(len(x) for x in traces)
    if k == 0:
        want = 1 if ob == 'mealy' else len({root['o']} | {o for x in traces for _, o in x[1:]})
        expect(len(tr) == want, 'with k = 0 all states with the same output have to be merged', states=len(tr), expected=want)
    det = all(len(os) == 1 for n in nodes(root) for os in n['c'].values())
    if k >= depth and det:
        for row in tr:
            for a, lst in row.items():
                expect(len(lst) == 1, 'unbounded k-tails turned deterministic data into a nondeterministic model', input=a)
    # the same decisions observed through the general algorithm: whatever was merged really had the same k-tails before the merge
    log = SnapLog()
    run_GSM(given, output_behavior=ob, transition_behavior='nondeterministic', score_calc=S.ScoreWithKTail(S.ScoreCalculation(GsmNode.deterministic_compatible), k), instrumentation=log, data_format='io_traces')
    expect(len(log.promotes) == len(tr), 'k-tails and the general algorithm with the k-tails score differ', states=len(tr), other=len(log.promotes))
    for red, blue, snap in log.merges:
        x, y = follow(snap, log.root, red), follow(snap, log.root, blue)
        expect(snap_compatible(snap, x, y, k, ob), 'two states with different futures were merged', k=k, red=red, blue=blue)
    return len(traces) > 2, [ob, f'k_{k}', 'det' if det else 'nondet', 'merged' if log.merges else 'nothing_merged']


def nodes(n):
    todo = [n]
    for x in todo:
        for os in x['c'].values():
            todo.extend(os.values())
    return todo


class SnapLog(Log):
    """records the graph as it was before each merge"""

    def snap(self):
        self.graph = {id(n): (n.get_prefix_output(), {a: {o: t.target for o, t in os.items()} for a, os in n.transitions.items()}, n) for n in self.root.get_all_nodes()}

    def pta_construction_done(self, root):
        self.root = root
        self.snap()

    def log_merge(self, part):
        self.merges.append((part.red.get_prefix(), part.blue.get_prefix(), self.graph))
        self.snap()


def follow(snap, n, prefix):
    for a, o in prefix:
        n = snap[id(n)][1][a][o]
    return n


def snap_compatible(snap, x, y, k, ob):
    (ox, cx, _), (oy, cy, _) = snap[id(x)], snap[id(y)]
    if ob == 'moore' and ox != oy:
        return False
    if k <= 0:
        return True
    for a in cy:
        if cx.get(a) and cy[a]:
            if set(cx[a]) != set(cy[a]):
                return False
            for o in cx[a]:
                if not snap_compatible(snap, cx[a][o], cy[a][o], k - 1, ob):
                    return False
    return True


# ------------------------------------------------------------------ graphs of nodes: tree test, conversion, drawing

@st.composite
def node_cases(draw):
    c = draw(gsm_cases())
    c['words'] = [w[:5] for w in c['words'][:8]]
    if c['fmt'] == 'labeled_sequences':
        c['fmt'] = 'io_traces'
    c['rewire'] = draw(st.lists(st.tuples(ints(0, 60), ints(0, 60)).map(list), max_size=3))
    c['to'] = draw(st.lists(st.tuples(st.sampled_from(['moore', 'mealy']), st.sampled_from(['deterministic', 'nondeterministic', 'stochastic']), st.booleans()).map(list), min_size=1, max_size=4))
    c['draw'] = draw(ints(0, 9)) == 0
    return c


def check_nodes(case):
    al, traces = make_traces(case)
    ob, fmt = case['ob'], case['fmt']
    if not traces:
        return False, ['no_data']
    if fmt == 'traces':
        given = [[y if (ob == 'moore' and j == 0) else y[1] for j, y in enumerate(x)] for x in traces]
        traces = [[y if (ob == 'moore' and j == 0) else ('step', y[1]) for j, y in enumerate(x)] for x in traces]
    else:
        given = traces
    root = GsmNode.createPTA(given, ob, fmt)
    # the same graph in plain data
    ref = [{'out': traces[0][0] if ob == 'moore' else None, 'tr': {}, 'prefix': (), 'real': root}]
    for x in traces:
        s = 0
        for a, o in (x[1:] if ob == 'moore' else x):
            row = ref[s]['tr'].setdefault(a, {})
            if o not in row:
                real = ref[s]['real'].transitions
                expect(a in real and o in real[a], 'an observation is missing in the prefix tree', trace=x, at=(a, o))
                row[o] = [len(ref), 0]
                ref.append({'out': o, 'tr': {}, 'prefix': ref[s]['prefix'] + ((a, o),), 'real': real[a][o].target})
            row[o][1] += 1
            s = row[o][0]
    expect(len({id(n['real']) for n in ref}) == len(ref), 'two prefixes share a node of the prefix tree')
    arcs = [(s, a, o) for s, n in enumerate(ref) for a, row in n['tr'].items() for o in row]
    for s, a, o in arcs:
        ti = ref[s]['real'].transitions[a][o]
        expect(ti.count == ti.original_count == ref[s]['tr'][a][o][1], 'wrong count in the prefix tree', prefix=ref[s]['prefix'], input=a, got=ti.count)
    for x, y in case['rewire'] if arcs else []:
        s, a, o = arcs[x % len(arcs)]
        t = y % len(ref)
        ref[s]['tr'][a][o][0] = t
        ref[s]['real'].transitions[a][o].target = ref[t]['real']
    reach = [0]
    into = [0] * len(ref)
    for s in reach:
        for a, row in ref[s]['tr'].items():
            for o, (t, _) in row.items():
                into[t] += 1
                if t not in reach:
                    reach.append(t)
    got = root.get_all_nodes()
    expect(len(got) == len(reach) and {id(n) for n in got} == {id(ref[s]['real']) for s in reach}, 'the nodes of a graph are not the reachable ones', got=len(got), expected=len(reach))
    tree = into[0] == 0 and all(into[s] == 1 for s in reach[1:])
    expect(root.is_tree() is tree, f'is_tree says {not tree}', reachable=len(reach))
    try:
        same = GsmNode.createPTA(root, ob, case['auto'] and None or 'tree')
        expect(tree, 'a graph that is not a tree was accepted as one')
        expect(same is root, 'a given tree was not used as it is')
    except ValueError:
        expect(not tree, 'a tree was refused')
    det = all(len(row) == 1 for s in reach for row in ref[s]['tr'].values())
    moore = all(ref[t]['out'] == o for s in reach for row in ref[s]['tr'].values() for o, (t, _) in row.items())
    expect(root.is_deterministic() is det, f'is_deterministic says {not det}')
    expect(root.is_moore() is moore, f'is_moore says {not moore}')
    for s in reach:
        n = ref[s]
        expect(n['real'].count() == sum(c for row in n['tr'].values() for _, c in row.values()), 'count() is not the number of observations leaving the node', prefix=n['prefix'])
        expect(tuple(n['real'].get_prefix()) == n['prefix'] and n['real'].get_prefix_length() == len(n['prefix']), 'wrong prefix of a node', expected=n['prefix'])
        expect(n['real'].get_prefix(include_output=False) == [a for a, _ in n['prefix']], 'wrong inputs of the prefix of a node', expected=n['prefix'])
        if not case['rewire']:
            expect(root.get_by_prefix(n['prefix']) is n['real'], 'a node is not found by its prefix', prefix=n['prefix'])
            expect(n['real'].get_root() is root, 'wrong root of a node', prefix=n['prefix'])
    labels = [ob, 'tree' if tree else 'graph', 'det' if det else 'nondet']
    for ob2, tb2, pre in case['to']:
        bad = ob2 == 'moore' and not moore or tb2 == 'deterministic' and not det
        if ob2 == 'moore' and ob == 'mealy':
            bad = bad or None  # the initial state of Mealy data has no output
        try:
            m = root.to_automaton(ob2, tb2, set_prefix=pre)
        except ValueError:
            expect(bad is not False, 'a graph was refused although it has the requested behaviour', output=ob2, transitions=tb2)
            labels.append('refused')
            continue
        expect(not bad, 'a graph without the requested behaviour was converted', output=ob2, transitions=tb2)
        if bad is None:
            continue
        outs, tr, init = read_any(m, ob2, tb2)
        pos = {0: init}
        todo = [0]
        for s in todo:
            mine = {a: row for a, row in ref[s]['tr'].items() if row}
            expect(set(mine) == {a for a, l in tr[pos[s]].items() if l}, 'a converted state has other inputs', prefix=ref[s]['prefix'])
            if ob2 == 'moore':
                expect(outs[pos[s]] == ref[s]['out'], 'a converted state has another output', prefix=ref[s]['prefix'])
            if pre:
                want = tuple(a for a, _ in ref[s]['prefix']) if tb2 == 'deterministic' else ref[s]['prefix']
                expect(m.states[pos[s]].prefix == want, 'a converted state has another prefix', expected=want, got=m.states[pos[s]].prefix)
            for a, row in mine.items():
                tot = sum(c for _, c in row.values())
                expect(len(tr[pos[s]][a]) == len(row), 'a converted state has another number of transitions', prefix=ref[s]['prefix'], input=a)
                for o, (t, c) in row.items():
                    x = [y for y in tr[pos[s]][a] if y[0] == o]
                    expect(len(x) == 1, 'a transition was lost in the conversion', prefix=ref[s]['prefix'], input=a, output=o)
                    expect(tb2 != 'stochastic' or abs(x[0][2] - c / tot) < 1e-9, 'wrong probability in the converted model', got=x[0][2], expected=c / tot)
                    if t not in pos:
                        pos[t] = x[0][1]
                        todo.append(t)
                    expect(pos[t] == x[0][1], 'a converted transition leads to another state', prefix=ref[s]['prefix'], input=a, output=o)
        expect(len(set(pos.values())) == len(pos) == len(tr), 'wrong number of converted states', got=len(tr), expected=len(pos))
        labels.append(f'{ob2}_{tb2}')
    if case['draw']:
        import os
        import tempfile
        import pydot
        with tempfile.TemporaryDirectory() as d:
            root.visualize(os.path.join(d, 'g'), ob, node_naming=lambda n: next(f'q{s}' for s in reach if ref[s]['real'] is n), state_label=lambda n: 'x',
                           trans_label=lambda n, a, o: f't{n.transitions[a][o].count}')
            with open(os.path.join(d, 'g.dot')) as f:
                g = pydot.graph_from_dot_data(f.read())[0]
        got = sorted((e.get_source(), e.get_destination(), str(e.get('label')).strip('"')) for e in g.get_edges() if e.get_source() != '__start0')
        want = sorted((f'q{s}', f'q{t}', f't{c}') for s in reach for row in ref[s]['tr'].values() for t, c in row.values())
        expect(got == want, 'the drawn edges are not the transitions', got=got, expected=want)
        expect([e.get_destination() for e in g.get_edges() if e.get_source() == '__start0'] == ['q0'], 'the drawing does not start in the root')
        expect(sorted(n.get_name() for n in g.get_nodes() if n.get_name() not in ('__start0', '"\\n"')) == sorted(f'q{s}' for s in reach), 'the drawn nodes are not the nodes of the graph')
        labels.append('drawn')
    return len(reach) > 2, labels


# ------------------------------------------------------------------ detection of the data format

FORMATS = ['io_traces', 'labeled_sequences', 'traces']
atom = st.sampled_from(['a', 'b', 1, True, None, 0.5, 'ab'])
pairish = st.one_of(st.tuples(atom, atom).map(list), st.tuples(atom, atom).map(list), atom, st.lists(atom, max_size=3))
point = st.one_of(st.lists(st.one_of(st.tuples(atom, atom).map(list), atom), max_size=4), st.tuples(st.lists(atom, max_size=4), atom).map(list), st.tuples(atom, st.lists(st.tuples(atom, atom).map(list), max_size=3)).map(lambda x: [x[0]] + x[1]),
                  st.lists(st.tuples(atom, atom).map(list), max_size=4), st.lists(pairish, max_size=4))


@st.composite
def format_cases(draw):
    kind = draw(st.sampled_from(['moore', 'mealy', 'labeled', 'any', 'any']))
    one = {'moore': st.tuples(atom, st.lists(st.tuples(atom, atom).map(list), max_size=4)).map(lambda x: [x[0]] + x[1]), 'mealy': st.lists(st.tuples(atom, atom).map(list), max_size=4),
           'labeled': st.tuples(st.lists(atom, max_size=4), atom).map(list), 'any': point}[kind]
    return {'kind': kind, 'data': draw(st.lists(one, max_size=5)), 'tup': draw(ints(0, 3)), 'consistent': draw(st.booleans()), 'guess': draw(st.booleans()), 'bad': draw(st.sampled_from([None] * 8 + ['set', 'str', 'point']))}


def check_format(case):
    from aalpy.learning_algs.general_passive.GsmNode import detect_data_format
    conv = lambda x, depth: (tuple if case['tup'] >> depth & 1 else list)(conv(y, depth + 1) if isinstance(y, list) else y for y in x)
    data = conv(case['data'], 0)
    kind, bad = case['kind'], case['bad']
    if bad == 'set':
        data = {1, 2}
    elif bad == 'str':
        data = 'abc'
    elif bad == 'point':
        data = [7] + list(data)
    io = lambda x: all(isinstance(y, (tuple, list)) and len(y) == 2 for y in x[1:])
    lab = lambda x: len(x) == 2 and isinstance(x[0], (tuple, list))
    try:
        got = detect_data_format(data, case['consistent'], case['guess'])
    except ValueError as e:
        got = 'ambiguous' if 'ambiguous' in str(e) else 'malformed'
    if bad:
        expect(got == 'malformed', 'malformed data were accepted', got=got)
        return True, ['malformed']
    cand = [f for f, ok in (('io_traces', io), ('labeled_sequences', lab)) if all(ok(x) for x in data)]
    labels = [kind, f'cand_{len(cand)}', 'consistent' if case['consistent'] else 'quick', got]
    if not data:
        expect(got == 'io_traces', 'empty data', got=got)
        return False, labels
    if len(cand) == 2:
        expect(got in cand if case['guess'] else got == 'ambiguous', 'data that fit two formats', got=got)
    elif len(cand) == 1:
        expect(got == cand[0], 'the only possible data format was not detected', got=got, expected=cand[0])
    elif case['consistent']:
        expect(got == 'traces', 'data that fit neither format are not taken as traces', got=got)
    if kind in ('moore', 'mealy'):
        expect(got in ('io_traces', 'ambiguous') or case['guess'], 'input/output traces are taken for something else', got=got)
    elif kind == 'labeled':
        expect(got in ('labeled_sequences', 'ambiguous') or case['guess'], 'labelled sequences are taken for something else', got=got)
    # data given in a format that cannot be learned this way
    if got == 'labeled_sequences':
        for tb in ('nondeterministic', 'stochastic'):
            try:
                run_GSM(data, output_behavior='moore', transition_behavior=tb, score_calc=S.ScoreCalculation(lambda a, b: True))
                expect(False, 'labelled sequences were accepted for a nondeterministic system', transitions=tb)
            except ValueError:
                pass
    return len(data) > 1, labels


SUBS = [Sub('edsm', c21.data_cases(), check_edsm, quick=4000), Sub('gsm', gsm_cases(), check_gsm, quick=5000), Sub('exact', c21.exact_cases(), check_exact, quick=700), Sub('ktails', kt_cases(), check_ktails, quick=3000),
        Sub('nodes', node_cases(), check_nodes, quick=2000), Sub('format', format_cases(), check_format, quick=3000)]
