import contextlib
import io
import random
from collections import deque

from hypothesis import strategies as st

from aalpy import automata as A
from aalpy.base import SUL, Oracle
from aalpy.learning_algs import run_stochastic_Lstar
from aalpy.learning_algs.stochastic.DifferenceChecker import AdvancedHoeffdingChecker, ChiSquareChecker, DifferenceChecker, HoeffdingChecker
from aalpy.learning_algs.stochastic.SamplingBasedObservationTable import SamplingBasedObservationTable
from aalpy.learning_algs.stochastic.StochasticTeacher import Node, StochasticTeacher
from aalpy.oracles import RandomWalkEqOracle, RandomWordEqOracle

from vf import stats
from vf.core import Sub, expect
from vf.gen import ints
from vf.stoch import altered, build_nd, nd, Nd, read_nd

PROPERTY = 'C27'
RULE = ('random MDPs and stochastic Mealy machines with at most 4 states and 2 inputs, all strategies, counterexample options, stopping rules and small sample sizes, observation tables of up to 7 states and 7 inputs; every hypothesis that reaches the oracle is '
        'compared with an independent record of everything sampled; non-trivial: the model has at least two states')
ASSUMPTIONS = ["no output is called 'chaos' or 'dummy' (reserved by the learner)"]


class Never(DifferenceChecker):
    def are_cells_different(self, c1, c2, **kwargs):
        return False


class RandomSUL(SUL):
    """samples the reference machine and records every observation"""

    def __init__(self, spec, seed):
        super().__init__()
        self.m = Nd(spec)
        self.rng = random.Random(seed)
        self.count = {}
        self.s = self.hist = None
        self.all_steps = self.all_resets = 0

    def pre(self):
        self.s, self.hist = self.m.init, ()
        self.all_resets += 1

    def post(self):
        pass

    def step(self, letter):
        if letter is None:
            return self.m.outs[self.s]
        expect(letter in self.m.idx, f'unknown input {letter!r}')
        self.all_steps += 1
        cell = [c for c in self.m.tr[self.s][self.m.idx[letter]] if c[2]]
        o, t, _ = self.rng.choices(cell, [float(c[2]) for c in cell])[0]
        d = self.count.setdefault((self.hist, letter), {})
        d[o] = d.get(o, 0) + 1
        self.hist, self.s = self.hist + (letter, o), t
        return o


def feasible(m, trace):
    """state after (i, o, i, o...) or None"""
    s = m.init
    for i, o in zip(trace[::2], trace[1::2]):
        n = m.succ(frozenset([s]), m.idx[i], o)
        if not n:
            return None
        s, = n
    return s


def is_chaos(model, t, s):
    return s.output == 'chaos' if t == 'mdp' else s.state_id == 'chaos'


def missing(m, model, t):
    """shortest trace of the system without a run in the model (both observable)"""
    q = deque([(m.init, model.initial_state, ())])
    seen = {(m.init, id(model.initial_state))}
    while q:
        s, h, tr = q.popleft()
        for i, x in enumerate(m.al):
            for o, tgt, w in m.tr[s][i]:
                if not w:
                    continue
                nh = next((e[0] for e in h.transitions[x] if (e[0].output if t == 'mdp' else e[1]) == o), None) if x in h.transitions else None
                if nh is None:
                    return tr + (x, o)
                if (tgt, id(nh)) not in seen:
                    seen.add((tgt, id(nh)))
                    q.append((tgt, nh, tr + (x, o)))
    return None


def well_formed(model, m, t, chaos):
    """a model of the right kind: complete, distributions, determined successors, only things the system can do"""
    expect(type(model) is (A.Mdp if t == 'mdp' else A.StochasticMealyMachine), 'wrong kind of model', got=type(model).__name__)
    ids = {id(s) for s in model.states}
    expect(len(ids) == len(model.states) and len({s.state_id for s in model.states}) == len(model.states), 'states or state ids are not unique')
    expect(id(model.initial_state) in ids, 'the initial state is not in the model')
    for s in model.states:
        if is_chaos(model, t, s):
            expect(chaos, 'a finished model contains the chaos state')
            continue
        p = s.prefix
        if t == 'mdp':
            expect(p[0] == m.outs[m.init] and p[-1] == s.output, 'prefix and output of a state do not match', prefix=p, output=s.output)
            p = p[1:]
        q = feasible(m, p)
        expect(q is not None, 'a state is reached by a trace the system cannot produce', prefix=p)
        expect(set(s.transitions) == set(m.al), 'a state is not input complete', state=s.state_id)
        for x in m.al:
            outs = []
            for e in s.transitions[x]:
                expect(id(e[0]) in ids, 'a transition leaves the model')
                o, pr = (e[0].output, e[1]) if t == 'mdp' else (e[1], e[2])
                outs.append(o)
                expect(0 < pr <= 1 + 1e-9, 'a probability is not in (0, 1]', p=pr)
                if is_chaos(model, t, e[0]):
                    expect(chaos and len(s.transitions[x]) == 1, 'chaos transition')
                else:
                    expect(o in m.outputs([q], m.idx[x]), 'a transition the system cannot do', prefix=p, input=x, output=o)
            expect(len(set(outs)) == len(outs), 'an output does not determine the successor', outputs=outs)
            expect(abs(sum(e[-1] for e in s.transitions[x]) - 1) < 1e-9, 'a distribution does not sum to one')


def different(case, a, b):
    s = case['strategy']
    if s == 'classic':
        return stats.hoeffding(a, b, 0.05, same_support=True) if sum(a.values()) >= case['n_c'] and sum(b.values()) >= case['n_c'] else False
    if s in ('normal', 'adv_diff'):
        return stats.hoeffding(a, b, 0.05)
    if s == 'chi2':
        return stats.chi_squared(a, b, 0.001)
    if s == 'chi2_diff':
        return stats.chi_squared(a, b, 0.05)
    if s == 'loose':
        return stats.hoeffding(a, b, 0.3)
    return False


STRAT = {'classic': lambda: 'classic', 'normal': lambda: 'normal', 'chi2': lambda: 'chi2', 'adv_diff': lambda: AdvancedHoeffdingChecker(use_diff=True),
         'chi2_diff': lambda: ChiSquareChecker(alpha=0.05, use_diff_value=True), 'loose': lambda: AdvancedHoeffdingChecker(alpha=0.3), 'never': lambda: Never()}


@st.composite
def cases(draw, det=False):
    t = draw(st.sampled_from(['mdp', 'smm']))
    spec = draw(nd(t, max_n=draw(st.sampled_from([2, 3, 4])), max_k=2, max_branch=draw(st.sampled_from([1, 2, 2, 3])), det_prob=100 if det else 0, n_out=3, sks=('str', 'int', 'tuple', 'mixed', 'text'), oks=('str', 'int', 'tuple', 'empty', 'mixed', 'text')))
    mx = draw(st.sampled_from([1, 3, 6, 10, 15])) if not det else draw(st.sampled_from([10, 25]))
    return {'spec': spec, 'seed': draw(ints(0, 10 ** 6)), 'strategy': draw(st.sampled_from(['classic', 'classic', 'normal', 'normal', 'chi2', 'adv_diff', 'chi2_diff', 'loose', 'never'] if not det else ['classic', 'normal', 'chi2', 'adv_diff'])),
            'cex': draw(st.sampled_from([None, None, 'longest_prefix', 'rs'])), 'samples': draw(st.sampled_from([None, 'bfs', 'random:20:0.2'])), 'n_c': draw(st.sampled_from([1, 3, 10, 20])),
            'n_res': draw(st.sampled_from([5, 30, 100])), 'min': draw(ints(1, mx)), 'max': mx, 'stop': draw(st.sampled_from(['strict', 'relaxed', {'3': 0.01}])),
            'unamb': draw(st.sampled_from([0.5, 0.99, 1.0])), 'oracle': draw(st.sampled_from(['perfect', 'perfect', 'perfect', 'walk', 'word'])) if not det else 'perfect', 'print': draw(st.sampled_from([0, 0, 0, 1, 2, 3]))}


class Large(Exception):
    """the observation table grew so large that the remaining rounds are not worth their time (quadratic in its rows)"""


def check(case, det=False):
    try:
        return check_run(case, det)
    except Large:
        return False, ['given_up']


def check_run(case, det):
    spec, t = case['spec'], case['spec']['t']
    m = Nd(spec)
    sul = RandomSUL(spec, case['seed'])
    log = {'calls': 0, 'last': None, 'result': None, 'lens': []}
    unclear = [0]

    def look(h):
        """the hypothesis reflects exactly what was sampled so far"""
        log['calls'] += 1
        log['last'] = h
        if len(h.states) > 50:
            raise Large()
        well_formed(h, m, t, False)
        hist = (lambda p: tuple(p[1:])) if t == 'mdp' else tuple
        for s in h.states:
            p = hist(s.prefix)
            for x in m.al:
                c = sul.count.get((p, x), {})
                got = {(e[0].output if t == 'mdp' else e[1]): e[-1] for e in s.transitions[x]}
                tot = sum(c.values())
                expect(set(got) == set(c) or case['cex'] == 'rs' and set(got) <= set(c), 'the outputs of a transition are not those that were sampled', prefix=p, input=x, model=sorted(map(str, got)), sampled=sorted(map(str, c)))
                for o in c if case['cex'] != 'rs' else ():
                    expect(abs(got[o] - c[o] / tot) < 1e-9, 'a probability is not the sampled frequency', prefix=p, input=x, output=o, model=got[o], sampled=c[o] / tot)
                for e in s.transitions[x]:
                    o = e[0].output if t == 'mdp' else e[1]
                    r, r2 = p + (x, o), hist(e[0].prefix)
                    for y in m.al:
                        a, b = sul.count.get((r, y), {}), sul.count.get((r2, y), {})
                        d = different(case, a, b) if a and b and case['cex'] != 'rs' else None
                        expect(d is not True, 'a transition leads to a state that is statistically different from what was observed', prefix=r, state=r2, input=y, observed=sul.count.get((r, y)), there=sul.count.get((r2, y)))

    al = list(m.al)

    class Perfect(Oracle):
        def find_cex(self, h):
            look(h)
            log['result'] = None
            d = missing(m, h, t)
            if d is None:
                return None
            for _ in range(3000):
                self.num_queries += 1
                self.sul.pre()
                ok = True
                for i, o in zip(d[::2], d[1::2]):
                    self.num_steps += 1
                    if self.sul.step(i) != o:
                        ok = False
                        break
                self.sul.post()
                if ok:
                    log['result'] = d
                    log['lens'].append(len(d) // 2)
                    return ([m.outs[m.init]] if t == 'mdp' else []) + list(d)
            return None

        def reset_counter(self):
            pass

    class Walk(RandomWalkEqOracle):
        def find_cex(self, h):
            look(h)
            log['result'] = super().find_cex(h)
            return log['result']

    class Word(RandomWordEqOracle):
        def find_cex(self, h):
            look(h)
            log['result'] = super().find_cex(h)
            return log['result']

    oracle = {'perfect': lambda: Perfect(al, sul), 'walk': lambda: Walk(al, sul, num_steps=60, reset_prob=0.2), 'word': lambda: Word(al, sul, num_walks=20, min_walk_len=1, max_walk_len=5)}[case['oracle']]()
    stop = {int(a): b for a, b in case['stop'].items()} if isinstance(case['stop'], dict) else case['stop']
    printed = io.StringIO()
    with contextlib.redirect_stdout(printed):
        model, info = run_stochastic_Lstar(al, sul, oracle, target_unambiguity=case['unamb'], min_rounds=case['min'], max_rounds=case['max'], automaton_type=t, strategy=STRAT[case['strategy']](),
                                           cex_processing=case['cex'], samples_cex_strategy=case['samples'], stopping_range_dict=stop, custom_oracle=True, return_data=True, n_c=case['n_c'],
                                           n_resample=case['n_res'], print_level=case['print'])
    expect('Problem in' not in printed.getvalue(), 'the search for a counterexample in the samples failed', printed=printed.getvalue()[-300:])
    expect(al == list(m.al), 'the alphabet was modified')
    chaos = any(is_chaos(model, t, s) for s in model.states)
    well_formed(model, m, t, True)
    expect(1 <= info['learning_rounds'] <= case['max'], 'more rounds than allowed', rounds=info['learning_rounds'])
    expect(info['automaton_size'] == len(model.states), 'reported size differs')
    expect(info['queries_learning'] + info['queries_eq_oracle'] + (t == 'mdp') == sul.all_resets or case['cex'] == 'rs', 'reported queries differ from those executed', info=info, resets=sul.all_resets)
    expect(info['steps_learning'] + info['steps_eq_oracle'] == sul.all_steps or case['cex'] == 'rs', 'reported steps differ from those executed', info=info, steps=sul.all_steps)
    if case['cex'] != 'rs':
        q, r = info['queries_learning'], info['learning_rounds']
        if case['strategy'] == 'classic':
            expect(q % case['n_res'] == 0 and 1 <= q // case['n_res'] <= r + 1, 'rounds of sampling do not have the requested size', queries=q, n_resample=case['n_res'], rounds=r)
        else:
            expect(q > r, 'a round without any sampling', queries=q, rounds=r)
    early = info['learning_rounds'] < case['max']
    if early:
        expect(not chaos, 'learning stopped before the round limit with unexplored behaviour')
        if case['oracle'] == 'perfect' and case['samples'] is None:
            # the oracle answers None also if it could not reproduce an improbable trace; only what it did answer counts
            expect(log['last'] is not None and len(log['last'].states) == len(model.states) and log['result'] is None, 'learning stopped before the round limit although the oracle found a trace the model lacks', trace=log['result'])
    if det and log['last'] is model and log['result'] is None:
        # deterministic system: no missing trace and one outcome per transition = exactly the same behaviour
        expect(missing(m, model, t) is None and all(len(c) == 1 for s in model.states for c in s.transitions.values()), 'the model of a deterministic system differs from it')
    return len(model.states) > 1 and log['calls'] > 0, [t, case['strategy'], f"cex_{case['cex']}", f"states_{len(model.states)}", 'early' if early else 'limit', f"oracle_{case['oracle']}", f"calls_{min(log['calls'], 5)}",
                                                        'chaos' if chaos else 'no_chaos', f"cexlen_{max(log['lens'] or [0])}"]


def check_det(case):
    return check(case, True)


# ---------------------------------------------------------------- the multiset of samples

@st.composite
def teacher_cases(draw):
    t = draw(st.sampled_from(['mdp', 'smm']))
    spec = draw(nd(t, max_n=3, max_k=2, max_branch=2, n_out=3, sks=('str', 'int', 'tuple'), oks=('str', 'int', 'tuple', 'empty', 'mixed')))
    path = st.lists(st.tuples(ints(0, spec['k'] - 1), ints(0, 2)), min_size=1, max_size=14 if draw(ints(0, 4)) == 0 else 4)
    ops = []
    for _ in range(draw(ints(1, 5))):
        if draw(ints(0, 3)):
            ops.append(['tree', draw(st.lists(st.tuples(path, st.sampled_from([None, None, 1, 3])), min_size=1, max_size=4)), draw(ints(1, 6))])
        else:
            ops.append(['walk', draw(path)])
    return {'spec': spec, 'seed': draw(ints(0, 10 ** 6)), 'n_c': draw(st.sampled_from([1, 2, 4])), 'ops': ops, 'unc': draw(st.booleans())}


def check_teacher(case):
    spec, t = case['spec'], case['spec']['t']
    m = Nd(spec)
    sul = RandomSUL(spec, case['seed'])
    te = StochasticTeacher(sul, case['n_c'], None, t, HoeffdingChecker())
    tb = SamplingBasedObservationTable([(x,) for x in m.al], t, te, HoeffdingChecker(), strategy='classic')
    first = (m.outs[m.init],) if t == 'mdp' else ()
    inner = sul.step
    steps = []

    def rec(x):
        o = inner(x)
        steps.append((x, o))
        return o
    sul.step = rec
    runs = 0
    outs = list(dict.fromkeys(o for row in m.tr for c in row for o, *_ in c))
    for op in case['ops']:
        if op[0] == 'walk':
            te.sul.pre()
            for i, _ in op[1]:
                te.sul.step(m.al[i])
            te.sul.post()
            continue
        root = Node(first[0] if first else None)
        paths = []
        for p, u in op[1]:
            seq = [(m.al[i], outs[o % len(outs)]) for i, o in p]
            paths.append(seq)
            # a cell ends with an input
            tb.add_to_PTA(root, first + sum(seq, ())[:-1], u if case['unc'] else None)
        for _ in range(op[2]):
            del steps[:]
            te.tree_query(root)
            runs += 1
            w = list(steps)
            expect(w, 'a refine query executed nothing')
            # every step but the last follows the tree; the query ends when the tree does or is left
            inside = [p for p in paths if len(p) >= len(w) and p[:len(w) - 1] == w[:-1] and p[len(w) - 1][0] == w[-1][0]]
            expect(inside, 'a refine query executed a sequence that is not in the tree', executed=w)
            expect(all(len(p) == len(w) or p[:len(w)] != w for p in inside), 'a refine query stopped before the tree ended', executed=w)
    tot = {k: sum(c.values()) for k, c in sul.count.items()}
    hists = {()} | {h + (x, o) for (h, x), c in sul.count.items() for o in c}
    enough = False
    for h in sorted(hists, key=lambda z: (len(z), str(z))):
        for x in m.al:
            got = te.frequency_query(first + h, (x,))
            want = sul.count.get((h, x), {})
            expect(got == want, 'the recorded frequencies are not those that were sampled', trace=h, input=x, got=got, want=want)
            n = tot.get((h, x), 0)
            c = te.complete_query(first + h, (x,))
            expect(c == (n >= case['n_c']), 'a cell counts as sufficiently sampled although it is not, or the other way round', trace=h, input=x, samples=n, needed=case['n_c'], got=c)
            enough |= c
    return runs > 1 and enough, [t, 'enough' if enough else 'few', f'runs_{min(runs, 8)}']


# ---------------------------------------------------------------- counterexamples in the samples

@st.composite
def tree_cases(draw):
    t = draw(st.sampled_from(['mdp', 'smm']))
    spec = draw(nd(t, max_n=3, max_k=2, max_branch=2, n_out=2, sks=('str', 'int', 'tuple', 'text'), oks=('str', 'int', 'tuple', 'empty', 'mixed')))
    return {'spec': spec, 'hyp': draw(altered(spec)), 'seed': draw(ints(0, 10 ** 6)), 'n_c': draw(st.sampled_from([1, 2, 4])), 'unc': False,
            'walks': draw(st.lists(st.tuples(st.lists(ints(0, spec['k'] - 1), min_size=1, max_size=4), st.sampled_from([1, 3, 10, 40])), min_size=1, max_size=5)), 'strategy': draw(st.sampled_from(['hoeffding', 'adv_diff', 'loose', 'never']))}


def check_tree(case):
    spec, t = case['spec'], case['spec']['t']
    sul = RandomSUL(spec, case['seed'])
    m = sul.m
    random.seed(case['seed'])
    differ = HoeffdingChecker() if case['strategy'] == 'hoeffding' else STRAT[case['strategy']]()
    te = StochasticTeacher(sul, case['n_c'], None, t, differ)
    first = (m.outs[m.init],) if t == 'mdp' else ()
    for p, n in case['walks']:
        for _ in range(n):
            te.sul.pre()
            for i in p:
                te.sul.step(m.al[i])
            te.sul.post()
    h, states = build_nd(case['hyp'])
    h.initial_state.prefix = first
    todo = deque([h.initial_state])
    seen = {id(h.initial_state)}

    def succ(s, x):
        return {(e[0].output if t == 'mdp' else e[1]): e[0] for e in s.transitions[x]}

    while todo:
        s = todo.popleft()
        for x in m.al:
            for o, n in succ(s, x).items():
                if id(n) not in seen:
                    seen.add(id(n))
                    n.prefix = s.prefix + (x, o)
                    todo.append(n)
    # every counterexample the samples contain: (trace, input)
    genuine = {}
    level = [((), h.initial_state)]
    while level:
        nxt = []
        for tr, s in level:
            for x in m.al:
                c = sul.count.get((tr, x))
                if not c:
                    continue
                there = succ(s, x)
                rep = s.prefix[len(first):]
                if set(c) - set(there):
                    genuine[tr + (x,)] = 'output'
                elif rep != tr and differ.are_cells_different(dict(c), dict(sul.count.get((rep, x), {}))):
                    genuine[tr + (x,)] = 'statistics'
                nxt += [(tr + (x, o), there[o]) for o in c if o in there]
        level = nxt
    got = te.bfs_for_cex_in_tree(h)
    show = sorted(genuine.items(), key=lambda z: (len(z[0]), str(z)))[:4]
    expect((got is not None) == bool(genuine), 'counterexamples in the samples are missed, or one is reported although there is none', got=got, genuine=show)
    if got is not None:
        expect(tuple(got[len(first):]) in genuine and tuple(got[:len(first)]) == first, 'the reported trace is no counterexample', got=got, genuine=show)
        expect(len(got) - len(first) == min(map(len, genuine)), 'the breadth-first search did not report a shortest counterexample', got=got, genuine=show)
    for n, stop in ((1000 if genuine else 20, 0.0), (20, 0.3), (3, 1.0)):
        got = te.dfs_for_cex_in_tree(h, n, stop)
        # with 1000 walks a counterexample behind at most 3 choices of 2 inputs and 2 outputs is met with near certainty
        expect(got is not None or n < 1000 or not genuine, 'counterexamples in the samples are not found by 1000 random walks', genuine=show)
        if got is not None:
            expect(tuple(got[len(first):]) in genuine and tuple(got[:len(first)]) == first, 'the reported trace is no counterexample', got=got, genuine=show, walks=n)
        if stop == 1.0 and got is not None:
            expect(len(got) == len(first) + 1, 'a walk that stops at once went on', got=got)
    return bool(genuine) and sum(n for _, n in case['walks']) > 1, [t, case['strategy']] + sorted(set(genuine.values()))


# ---------------------------------------------------------------- the observation table

@st.composite
def table_cases(draw):
    t = draw(st.sampled_from(['mdp', 'smm']))
    spec = draw(nd(t, max_n=draw(st.sampled_from([3, 5, 7])), max_k=draw(st.sampled_from([2, 4, 7])), max_branch=2, det_prob=draw(st.sampled_from([0, 60, 100])), n_out=3, sks=('str', 'int', 'tuple', 'text'), oks=('str', 'int', 'tuple', 'empty', 'mixed')))
    word = st.lists(ints(0, spec['k'] - 1), min_size=1, max_size=draw(st.sampled_from([3, 6])))
    return {'spec': spec, 'seed': draw(ints(0, 10 ** 6)), 'n_c': draw(st.sampled_from([1, 5, 20])), 'strategy': draw(st.sampled_from(['classic', 'normal', 'chi2', 'adv_diff', 'chi2_diff', 'loose'])),
            'walks': draw(ints(20, 400)), 'len': draw(ints(3, 9)), 'rows': draw(st.lists(word, max_size=4)), 'trim': draw(st.booleans())}


def check_table(case):
    spec, t = case['spec'], case['spec']['t']
    sul = RandomSUL(spec, case['seed'])
    m = sul.m
    s = STRAT[case['strategy']]()
    differ = {'classic': HoeffdingChecker, 'normal': AdvancedHoeffdingChecker, 'chi2': lambda: ChiSquareChecker(0.001)}[s]() if isinstance(s, str) else s
    te = StochasticTeacher(sul, case['n_c'], None, t, differ)
    tb = SamplingBasedObservationTable(list(m.al), t, te, differ, strategy=s)
    first = (m.outs[m.init],) if t == 'mdp' else ()
    hist = lambda p: tuple(p[len(first):])
    rng = random.Random(case['seed'] + 1)
    runs = [(list(map(m.al.__getitem__, w)), True) for w in case['rows']] + [([rng.choice(m.al) for _ in range(case['len'])], False) for _ in range(case['walks'])]
    for w, row in runs:
        for _ in range(40 if row else 1):
            te.sul.pre()
            tr = first
            for x in w:
                tr += (x, te.sul.step(x))
                if row and tr not in tb.S:
                    tb.S.append(tr)
            te.sul.post()
    cell = lambda r, e: sul.count.get((hist(r) + tuple(e[:-1]), e[-1]), {})
    last = lambda r: r[-1] if t == 'mdp' else None

    def differs(r1, r2, e):
        a, b = cell(r1, e), cell(r2, e)
        return different(case, a, b) if a and b else False

    def apart(r1, r2, columns):
        """True/False: certainly (not) separated; None: too close to the bound to tell"""
        if last(r1) != last(r2):
            return True
        v = [differs(r1, r2, e) for e in columns]
        return True if True in v else None if None in v else False

    def look(names):
        E = list(tb.E)
        expect({(x,) for x in m.al} <= set(E), 'a column of a single input is missing', columns=E)
        reps = list(tb.compatibility_classes_representatives)
        expect(reps and set(reps) <= set(tb.S), 'a representative is no row', rows=tb.S)
        for a in range(len(reps)):
            for b in range(a):
                expect(apart(reps[a], reps[b], E) is not False, 'two representatives are compatible', rows=[reps[b], reps[a]], columns=E)
        rows = [(r, x, o, r + (x, o)) for r in tb.S for x in m.al for o in cell(r, (x,))]
        for r in list(tb.S) + [z[3] for z in rows]:
            expect(not all(apart(r, q, E) for q in reps), 'the table is not closed', row=r, representatives=reps)
        if not names:
            return
        for k, r1 in enumerate(tb.S):
            for r2 in tb.S[:k]:
                if apart(r1, r2, E) is not False:
                    continue
                for x in m.al:
                    for o in cell(r1, (x,)):
                        if o in cell(r2, (x,)):
                            for e in E:
                                expect(differs(r1 + (x, o), r2 + (x, o), e) is not True, 'the table is not consistent', rows=[r2, r1], input=x, output=o, column=e)

    tb.update_obs_table_with_freq_obs()
    tb.make_closed_and_consistent()
    look(True)
    n, cols = len(tb.S), len(tb.E)
    h = tb.generate_hypothesis()
    expect({s.prefix for s in h.states if not is_chaos(h, t, s)} <= set(tb.S), 'a state of the hypothesis is no row')
    if case['trim']:
        reps = list(tb.compatibility_classes_representatives)
        tb.trim(h)
        expect(set(reps) <= set(tb.S), 'a representative was trimmed', rows=tb.S, representatives=reps)
        tb.update_obs_table_with_freq_obs()
        tb.make_closed_and_consistent()
        look(True)
    return len(tb.compatibility_classes_representatives) > 1 and n > 2, [t, case['strategy'], f'rows_{min(n, 10)}', 'long_columns' if cols > len(m.al) else 'inputs_only', 'trim' if case['trim'] else 'no_trim']


SUBS = [Sub('table', table_cases(), check_table, quick=800),
        Sub('samples', tree_cases(), check_tree, quick=1000),
        Sub('teacher', teacher_cases(), check_teacher, quick=1500),
        Sub('learn', cases(), check, quick=1500, thorough=15000),
        Sub('det', cases(det=True), check_det, quick=400, thorough=4000)]
