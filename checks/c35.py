import math

from hypothesis import strategies as st

from aalpy.learning_algs.general_passive import ScoreFunctionsGSM as S
from aalpy.learning_algs.general_passive.GeneralizedStateMerging import run_GSM, Instrumentation
from aalpy.learning_algs.general_passive.GsmNode import GsmNode

from checks import c23
from vf import gen
from vf.core import Sub, expect
from vf.gen import ints

PROPERTY = 'C35'
RULE = ('random traces and labelled words of deterministic, nondeterministic and stochastic systems and arbitrary traces, random scores, thresholds, node orders and search options; every promotion and merge reported by the '
        'library is checked against an independent state merging on its own prefix tree; non-trivial: at least one merge and one promotion besides the root')
ASSUMPTIONS = ['only scores whose value does not depend on the order in which the pairs of one merge are visited', 'ties between equal scores and between nodes of equal order may be broken either way']

EPS = [0.005, 0.05, 0.5, 1.5, 2]
SCORES = {'deterministic': ['none', 'none', 'edsm', 'freq', 'greedy', 'aic', 'combi', 'sink', 'global'], 'nondeterministic': ['edsm', 'freq', 'global', 'global_hoeff', 'all', 'sink', 'tail', 'tailsink', 'tailcombi'],
          'stochastic': ['none', 'edsm', 'aic', 'freq', 'global_hoeff', 'hoeff_fut', 'tail', 'tailsink', 'tailcombi']}
TAILS = ('tail', 'tailsink', 'tailcombi')
LEAF = lambda x: not any(x.transitions.values())


@st.composite
def cases(draw):
    c = draw(c23.gsm_cases())
    c['words'] = [w[:9] for w in c['words'][:40]] if c['large'] else [w[:6] for w in c['words'][:14]]
    c['scores'] = draw(st.sampled_from(SCORES[c['tb']]))
    if c['fmt'] == 'labeled_sequences':
        c['scores'] = draw(st.sampled_from(['none', 'edsm', 'greedy']))
        c['fut'] = c['pta'] = False
    c['order'] = draw(st.sampled_from(['default', 'default', 'long', 'rev', 'str']))
    c['thr'] = draw(st.sampled_from([-2, -1, -1, 0, 1, 2, 5]))
    if c['scores'] in ('none', 'hoeff_fut') and c['tb'] == 'stochastic':
        c['fut'] = True
    c['k'] = draw(st.sampled_from([0, 1, 1, 2, 2, 3, 5]))
    if c['scores'] in TAILS:
        c['fut'] = True
    elif not (c['scores'] in ('none', 'hoeff_fut') and c['tb'] == 'stochastic'):
        c['pta'] = False
    if c['fut'] and c['tb'] == 'deterministic':
        c['fut'] = False
    return c


class SeqLog(Instrumentation):
    def __init__(self):
        super().__init__()
        self.events = []

    def log_promote(self, node):
        self.events.append(('promote', node.get_prefix()))

    def log_merge(self, part):
        self.events.append(('merge', part.red.get_prefix(), part.blue.get_prefix(), part.score))


def make_score(c):
    n, t = c['scores'], c['thr']
    det = GsmNode.deterministic_compatible
    if n == 'none':
        return None
    if n == 'all':
        return S.ScoreCalculation(lambda a, b: True)
    if n == 'edsm':
        return S.ScoreCalculation(score_function=S.EDSM_score(t))
    if n == 'freq':
        return S.ScoreCalculation(score_function=S.EDSM_frequency_score(t))
    if n == 'greedy':
        return S.ScoreCalculation(score_function=S.make_greedy(S.EDSM_score(t)))
    if n == 'aic':
        return S.ScoreCalculation(score_function=S.AIC_score(t))
    if n == 'combi':
        return S.ScoreCombinator([S.ScoreCalculation(score_function=S.EDSM_score(-1)), S.ScoreCalculation(score_function=S.EDSM_frequency_score(-1))])
    if n == 'sink':
        return S.ScoreWithSinks(S.ScoreCalculation(score_function=S.EDSM_score(t)), LEAF, c['p'] % 2 == 0)
    if n == 'global':
        return S.ScoreCalculation(score_function=S.local_to_global_compatibility(det))
    if n == 'global_hoeff':
        return S.ScoreCalculation(score_function=S.local_to_global_compatibility(S.hoeffding_compatibility(EPS[c['p']], False)))
    base = S.ScoreCalculation(S.hoeffding_compatibility(EPS[c['p']], c['pta']))
    if n == 'tail':
        return S.ScoreWithKTail(base, c['k'])
    if n == 'tailsink':
        return S.ScoreWithSinks(S.ScoreWithKTail(base, c['k']), LEAF, c['thr'] % 2 == 0)
    if n == 'tailcombi':
        return S.ScoreCombinator([S.ScoreWithSinks(S.ScoreCalculation(), LEAF, c['thr'] % 2 == 0), S.ScoreWithKTail(base, c['k'])], all, lambda it: list(it)[0])
    return base


# ------------------------------------------------------------------ independent state merging

class Node:
    __slots__ = ('tr', 'out', 'up', 'orig')

    def __init__(self, out, up):
        self.tr, self.out, self.up, self.orig = {}, out, up, {}


class Graph:
    """tr: {input: {output: [target, count]}}, out: output of the node (None: unknown), up: (parent, input, output)"""

    def __init__(self, traces, ob, fmt):
        self.ob = ob
        self.n = {0: Node(None, None)}
        for x in traces:
            w = list(zip(x[0], [None] * len(x[0]))) if fmt == 'labeled_sequences' else x[1:] if ob == 'moore' else x
            s = 0
            last = None
            for a, o in w:
                row = self.n[s].tr.setdefault(a, {})
                if fmt == 'labeled_sequences' and row:
                    o = next(iter(row))
                if o not in row:
                    k = len(self.n)
                    self.n[k] = Node(o, (s, a, o))
                    row[o] = [k, 0]
                row[o][1] += 1
                last = (s, a, o)
                s = row[o][0]
            if fmt == 'labeled_sequences':
                self.n[s].out = x[1]
                if last is not None and last[2] is None:
                    p, a, o = last
                    self.n[p].tr[a] = {x[1]: self.n[p].tr[a][None]}
                    self.n[s].up = (p, a, x[1])
            elif ob == 'moore':
                self.n[0].out = x[0]
        for v in self.n.values():
            v.orig = {a: {o: tuple(t) for o, t in row.items()} for a, row in v.tr.items()}

    def view(self, over, s):
        return over[s] if s in over else self.n[s]

    def edit(self, over, s):
        if s not in over:
            v = self.n[s]
            c = Node(v.out, v.up)
            c.tr = {a: {o: list(t) for o, t in row.items()} for a, row in v.tr.items()}
            over[s] = c
        return over[s]

    def fold(self, red, blue, tb):
        """(changed nodes, {merged node: node it became}, conflict)"""
        over, gone, conflict = {}, {}, False
        p, a, o = self.n[blue].up
        row = self.edit(over, p).tr[a]
        o = next(k for k, t in row.items() if t[0] == blue)
        row[o][0] = red
        todo = [(red, blue)]
        for r, b in todo:
            gone[b] = r
            x, y = self.edit(over, r), self.n[b]
            if self.ob == 'moore':
                if x.out is None:
                    x.out = y.out
                elif y.out is not None and x.out != y.out:
                    conflict = True
            for i, row in y.tr.items():
                mine = x.tr.setdefault(i, {})
                for o, (t, cnt) in row.items():
                    k = o
                    if o not in mine and mine:
                        if o is None:
                            k = next(iter(mine))
                        elif None in mine:
                            mine[o] = mine.pop(None)
                            t2 = self.edit(over, mine[o][0])
                            if self.ob == 'moore' and t2.out is None:
                                t2.out = o
                    if k in mine:
                        mine[k][1] += cnt
                        todo.append((mine[k][0], t))
                    else:
                        mine[k] = [t, cnt]
                        self.edit(over, t).up = (r, i, k)
                if tb == 'deterministic' and len(mine) > 1:
                    conflict = True
        return over, gone, conflict

    def follow(self, prefix):
        s = 0
        for a, o in prefix:
            row = self.n[s].tr.get(a, {})
            t = row.get(o) or (next(iter(row.values())) if len(row) == 1 and (o is None or None in row) else None)
            if t is None:
                return None
            s = t[0]
        return s

    def prefix(self, s):
        p = []
        while self.n[s].up:
            q, a, o = self.n[s].up
            row = self.n[q].tr[a]
            if o not in row or row[o][0] != s:
                o = next((k for k, t in row.items() if t[0] == s), o)
            p.append((a, o))
            s = q
        return p[::-1]


def hoeff(eps, x, y):
    """x, y: {input: {output: count}}; (verdict, distance from the threshold)"""
    f = math.sqrt(0.5 * math.log(2 / eps))
    near = False
    for a in x:
        if a in y:
            n1, n2 = sum(x[a].values()), sum(y[a].values())
            if not n1 or not n2:
                continue
            bound = f * (math.sqrt(1 / n1) + math.sqrt(1 / n2))
            for o in set(x[a]) | set(y[a]):
                d = abs(x[a].get(o, 0) / n1 - y[a].get(o, 0) / n2)
                if abs(d - bound) < 1e-9:
                    near = True
                elif d > bound:
                    return False, False
    return True, near


def counts(v):
    return {a: {o: t[1] for o, t in row.items()} for a, row in v.tr.items()}


def futures(g, red, blue, ok, orig, k=math.inf):
    todo, near = [(red, blue, 0)], False
    for r, b, depth in todo:
        if g.ob == 'moore' and None not in (g.n[r].out, g.n[b].out) and g.n[r].out != g.n[b].out:
            return False, False
        x, y = g.n[r], g.n[b]
        if depth >= k:
            v, nr = True, False
        elif orig:
            v, nr = ok({a: {o: t[1] for o, t in row.items()} for a, row in x.orig.items()}, {a: {o: t[1] for o, t in row.items()} for a, row in y.orig.items()})
        else:
            v, nr = ok(counts(x), counts(y))
        near |= nr
        if not v:
            return False, False
        xs, ys = (x.orig, y.orig) if orig else (x.tr, y.tr)
        for a in xs:
            for o in xs[a]:
                if o in ys.get(a, {}):
                    todo.append((xs[a][o][0], ys[a][o][0], depth + 1))
    return True, near


def evaluate(c, g, red, blue):
    """score of a merge: (value, unclear)"""
    n, thr = c['scores'], c['thr']
    near = False
    if n in ('sink', 'tailsink', 'tailcombi'):
        a, b = (not any(g.n[s].tr.values()) for s in (red, blue))
        if a != b or a and (c['p'] if n == 'sink' else c['thr']) % 2:
            return False, False
    if c['fut']:
        if n in TAILS:
            v, near = futures(g, red, blue, lambda x, y: hoeff(EPS[c['p']], x, y), c['pta'], c['k'])
        elif c['tb'] == 'stochastic' and n in ('none', 'hoeff_fut'):
            eps = 0.005 if n == 'none' else EPS[c['p']]
            v, near = futures(g, red, blue, lambda x, y: hoeff(eps, x, y), c['pta'])
        else:
            v, near = futures(g, red, blue, lambda x, y: (True, False), False)
        if not v:
            return False, False
        over, gone, conflict = g.fold(red, blue, c['tb'])
    else:
        over, gone, conflict = g.fold(red, blue, c['tb'])
        if conflict:
            return False, False
    final = lambda s: g.view(over, gone.get(s, s))
    part = set(over) | set(gone)
    edsm = len(gone)
    if n in ('none', 'all', 'hoeff_fut') + TAILS:
        return True, near
    if n in ('edsm', 'sink'):
        return (edsm if thr < edsm else False), near
    if n == 'greedy':
        return thr < edsm, near

    def freq():
        tot = 0
        for s in part:
            x = final(s).tr
            for a, row in g.n[s].tr.items():
                for o, t in row.items():
                    if o in x.get(a, {}) and x[a][o][1] != t[1]:
                        tot += t[1]
        return tot

    if n == 'freq':
        f = freq()
        return (f if thr < f else False), near
    if n == 'combi':
        return [edsm, freq()], near
    if n == 'aic':
        def llh(v):
            return sum(sum(t[1] * math.log(t[1]) for t in row.values()) - (sum(t[1] for t in row.values()) * math.log(sum(t[1] for t in row.values())) if row else 0) for row in v.tr.values())

        old = part
        new = {gone.get(s, s) for s in part}
        k = sum(len(r) for s in old for r in g.n[s].tr.values()) - sum(len(r) for s in new for r in final(s).tr.values())
        val = k - (sum(llh(g.n[s]) for s in old) - sum(llh(final(s)) for s in new))
        return (val if thr < val else False), near or abs(val - thr) < 1e-9
    for s in part:
        x, y = final(s), g.n[s]
        if n == 'global':
            if any(set(x.tr[a]) != set(y.tr[a]) and None not in x.tr[a] and None not in y.tr[a] for a in y.tr if a in x.tr):
                return False, False
        else:
            v, nr = hoeff(EPS[c['p']], counts(x), counts(y))
            near |= nr
            if not v:
                return False, False
    return True, near


def less(c, g, s, t):
    """strictly before in the order of nodes (None: not decided by the order)"""
    p, q = g.prefix(s), g.prefix(t)
    if c['order'] == 'default':
        return len(p) < len(q)
    if c['order'] == 'long':
        return (-len(p), str(p)) < (-len(q), str(q))
    if c['order'] == 'rev':
        return (len(p), str(q)) < (len(q), str(p))
    return str(p) < str(q)


def close(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, list):
        return list(a) == list(b)
    return abs(a - b) < 1e-6


def check(case):
    al, traces = c23.make_traces(case)
    ob, tb, fmt = case['ob'], case['tb'], case['fmt']
    if not traces:
        return False, ['no_data']
    if fmt == 'traces':
        given = [[y if (ob == 'moore' and j == 0) else y[1] for j, y in enumerate(x)] for x in traces]
        traces = [[y if (ob == 'moore' and j == 0) else ('step', y[1]) for j, y in enumerate(x)] for x in traces]
    else:
        given = [tuple(x) for x in traces]
    log = SeqLog()
    root = run_GSM(given, output_behavior=ob, transition_behavior=tb, score_calc=make_score(case), compatibility_on_pta=case['pta'], compatibility_on_futures=case['fut'], node_order=c23.order(case['order']),
                   consider_only_min_blue=case['minblue'], depth_first=case['dfs'], instrumentation=log, data_format=fmt, convert=False)
    g = Graph(traces, ob, fmt)
    reds = [0]
    expect(log.events and log.events[0] == ('promote', []), 'the root is not promoted first', events=log.events[:1])
    cache = {}
    merges = 0
    for ev in log.events[1:]:
        blues = [t[0] for r in reds for row in g.n[r].tr.values() for t in row.values() if t[0] not in reds]
        expect(len(set(blues)) == len(blues), 'harness: a blue node has two parents')
        b = g.follow(ev[1] if ev[0] == 'promote' else ev[2])
        r = g.follow(ev[1]) if ev[0] == 'merge' else None
        info = {'event': [str(x) for x in ev]}
        expect(b in blues, 'the promoted or merged node is not a successor of a red node', **info)
        expect(ev[0] == 'promote' or r in reds, 'the node merged into is not red', **info)
        for x in blues:
            for y in reds:
                if (y, x) not in cache:
                    cache[y, x] = evaluate(case, g, y, x)
        if case['order'] == 'default':
            # without an order of its own the library visits red nodes in the order of their promotion, and the successors of each in the order they were created
            pos = [reds.index(g.n[x].up[0]) for x in blues]
            earlier = [] if case['minblue'] else [x for x, i in zip(blues, pos) if i < pos[blues.index(b)]]
        else:
            earlier = [x for x in blues if x != b and less(case, g, x, b)]
        val = lambda x: [cache[y, x] for y in reds]
        if case['minblue']:
            expect(not earlier, 'the node is not the minimal one', earlier=[g.prefix(x) for x in earlier], mine=g.prefix(b), **info)
        else:
            for x in earlier:
                if not any(v[1] for v in val(x)):
                    expect(not any(v[0] is True for v in val(x)), 'an earlier node that could be merged was passed over', node=g.prefix(x), **info)
                    expect(any(v[0] is not False for v in val(x)), 'an earlier node that cannot be merged was not promoted', node=g.prefix(x), **info)
        if ev[0] == 'promote':
            if not any(v[1] for v in val(b)):
                expect(all(v[0] is False for v in val(b)), 'a node that can be merged was promoted', scores=[str(v[0]) for v in val(b)], **info)
            reds.append(b)
            continue
        v, near = cache[r, b]
        if not near:
            expect(v is not False, 'an incompatible pair was merged', **info)
            expect(close(v, ev[3]), 'the score of a merge is wrong', expected=str(v), **info)
        if v is True:
            i = reds.index(r)
            before = [y for y in reds if y != r and (reds.index(y) < i if case['order'] == 'default' else less(case, g, y, r))]
            expect(not any(cache[y, b][0] is True and not cache[y, b][1] for y in before), 'an earlier red node with a perfect score was passed over', **info)
        elif v is not False:
            pool = [b] if case['minblue'] else blues
            for x in pool:
                for y in reds:
                    w, nr = cache[y, x]
                    if w is not False and not nr and not near:
                        expect(w is not True and (w <= v or close(w, v)), 'a merge with a better score was passed over', better=[g.prefix(y), g.prefix(x), str(w)], chosen=str(v), **info)
        over, gone, _ = g.fold(r, b, tb)
        for s, n in over.items():
            n.orig = g.n[s].orig
            g.n[s] = n
        cache.clear()
        merges += 1
    left = [t[0] for r in reds for row in g.n[r].tr.values() for t in row.values() if t[0] not in reds]
    expect(not left, 'the run ended although nodes were left to process', left=[g.prefix(s) for s in left])
    # the resulting graph, with its counts
    seen, todo = {0: root}, [0]
    for s in todo:
        mine, real = {a: row for a, row in g.n[s].tr.items() if row}, {a: row for a, row in seen[s].transitions.items() if row}
        expect({a: set(row) for a, row in mine.items()} == {a: set(row) for a, row in real.items()}, 'the resulting state has other transitions', prefix=g.prefix(s))
        if ob == 'moore':
            expect(g.n[s].out == seen[s].get_prefix_output(), 'the resulting state has another output', prefix=g.prefix(s), expected=g.n[s].out, got=seen[s].get_prefix_output())
        for a, row in mine.items():
            for o, (t, cnt) in row.items():
                ti = real[a][o]
                expect(ti.count == cnt, 'the observations of a transition were not added up', prefix=g.prefix(s), input=a, output=o, expected=cnt, got=ti.count)
                if t in seen:
                    expect(seen[t] is ti.target, 'a resulting transition leads to another state', prefix=g.prefix(s), input=a, output=o)
                else:
                    seen[t] = ti.target
                    todo.append(t)
    expect(len({id(x) for x in seen.values()}) == len(seen) == len(reds), 'the number of resulting states is not the number of promoted nodes')
    return merges > 0 and len(reds) > 1, [tb, ob, fmt, 'score_' + case['scores'], 'order_' + case['order'], f"fut{int(case['fut'])}min{int(case['minblue'])}", f'reds_{min(len(reds), 6)}']


# ------------------------------------------------------------------ wrappers that must not matter

WRAPS = ['sink', 'tail', 'combi', 'transform', 'thresh']


@st.composite
def law_cases(draw):
    c = draw(cases())
    c['wraps'] = draw(st.lists(st.sampled_from(WRAPS), min_size=1, max_size=3))
    return c


def wrap(score, w):
    if w == 'sink':
        return S.ScoreWithSinks(score, lambda x: False, False)
    if w == 'tail':
        return S.ScoreWithKTail(score, 10 ** 6)
    if w == 'combi':
        return S.ScoreCombinator([score], all, lambda it: next(iter(it)))
    if w == 'transform':
        return S.transform_score(score, lambda x: x)
    return score if score.score_function is S.ScoreCalculation.default_score_function else S.transform_score(score, lambda x: S.lower_threshold(x, -math.inf) if x is not False and not isinstance(x, list) else x)


def check_laws(case):
    al, traces = c23.make_traces(case)
    ob, tb, fmt = case['ob'], case['tb'], case['fmt']
    if not traces or make_score(case) is None and tb != 'deterministic':
        return False, ['no_data']
    given = [[y if (ob == 'moore' and j == 0) else y[1] for j, y in enumerate(x)] for x in traces] if fmt == 'traces' else [tuple(x) for x in traces]

    def run(score):
        log = SeqLog()
        root = run_GSM(given, output_behavior=ob, transition_behavior=tb, score_calc=score, compatibility_on_pta=case['pta'], compatibility_on_futures=case['fut'], node_order=c23.order(case['order']),
                       consider_only_min_blue=case['minblue'], depth_first=case['dfs'], instrumentation=log, data_format=fmt, convert=False)
        name, todo, edges = {root: 0}, [root], []
        for n in todo:
            for a, row in n.transitions.items():
                for o, t in row.items():
                    if t.target not in name:
                        name[t.target] = len(name)
                        todo.append(t.target)
                    edges.append((name[n], a, o, name[t.target], t.count))
        return log.events, edges

    plain = run(make_score(case))
    score = make_score(case) or S.ScoreCalculation()
    for w in case['wraps']:
        score = wrap(score, w)
    other = run(score)
    expect(plain[1] == other[1], 'a wrapper that accepts everything changes the result', wraps=case['wraps'])
    expect([e[:3] for e in plain[0]] == [e[:3] for e in other[0]], 'a wrapper that accepts everything changes the merges', wraps=case['wraps'])
    # the same score object can be used again
    again = run(score)
    expect(again == other, 'using a score object twice gives another result', wraps=case['wraps'])
    return len(plain[0]) > 2, ['w_' + '-'.join(sorted(case['wraps']))[:30], 'score_' + case['scores'], tb]


# ------------------------------------------------------------------ pre- and post-processing, refused requests

def graph(root):
    name, todo, edges = {root: 0}, [root], []
    for n in todo:
        for a, row in n.transitions.items():
            for o, t in row.items():
                if t.target not in name:
                    name[t.target] = len(name)
                    todo.append(t.target)
                edges.append((name[n], a, o, name[t.target], t.count))
    return edges


@st.composite
def hook_cases(draw):
    c = draw(cases())
    c['cut'] = draw(st.sampled_from([None, None, 0, 1, 2, 3]))
    c['bad'] = draw(st.sampled_from(['ob', 'tb', 'score', 'labels', 'fmt', 'conflict']))
    c['name'] = draw(st.sampled_from(['', 'Moore', 'dfa', 'det', None, 'stochastics']))
    return c


def refused(f):
    try:
        f()
    except ValueError:
        return True
    return False


def check_hooks(case):
    al, traces = c23.make_traces(case)
    ob, tb, fmt = case['ob'], case['tb'], case['fmt']
    if not traces or make_score(case) is None and tb == 'nondeterministic':
        return False, ['no_data']
    given = [[y if (ob == 'moore' and j == 0) else y[1] for j, y in enumerate(x)] for x in traces] if fmt == 'traces' else [tuple(x) for x in traces]
    base = dict(output_behavior=ob, transition_behavior=tb, compatibility_on_pta=case['pta'], compatibility_on_futures=case['fut'], node_order=c23.order(case['order']), consider_only_min_blue=case['minblue'], depth_first=case['dfs'], data_format=fmt)
    calls = []

    class Log(SeqLog):
        def pta_construction_done(self, root):
            calls.append(('pta', graph(root)))

        def log_promote(self, node):
            super().log_promote(node)
            calls.append(('event',))

        def log_merge(self, part):
            super().log_merge(part)
            calls.append(('event',))

        def learning_done(self, root):
            calls.append(('done', graph(root)))

    def pre(root):
        calls.append(('pre', graph(root)))
        if case['cut'] is not None:
            todo = [(root, 0)]
            for n, d in todo:
                if d >= case['cut']:
                    n.transitions.clear()
                todo += [(t.target, d + 1) for row in n.transitions.values() for t in row.values()]
        return root

    class Marker:
        def __init__(self, root):
            self.root = root

        def to_automaton(self, *a):
            calls.append(('convert', a))
            return ('converted', self.root)

    def post(root):
        calls.append(('post', graph(root)))
        return Marker(root)

    log = Log()
    res = run_GSM(given, score_calc=make_score(case), pta_preprocessing=pre, postprocessing=post, instrumentation=log, **base)
    kinds = [c[0] for c in calls]
    expect(kinds[:2] == ['pre', 'pta'] and kinds[-3:] == ['done', 'post', 'convert'] and set(kinds[2:-3]) == {'event'}, 'pre- or post-processing was not applied exactly once, before and after learning', calls=kinds)
    expect(isinstance(res, tuple) and res[0] == 'converted' and calls[-1][1] == (ob, tb), 'the result of the post-processing is not what is converted', got=str(res)[:80])
    expect(calls[-2][1] == calls[-3][1] == graph(res[1]), 'the post-processing saw another graph than the finished one')
    expect(calls[0][1] == graph(GsmNode.createPTA(given, ob, fmt)), 'the pre-processing did not see the whole prefix tree')
    if case['cut'] is not None:
        short = [w[:case['cut'] + (ob == 'moore')] for w in given] if fmt != 'labeled_sequences' else None
        if short is not None:
            other = SeqLog()
            root = run_GSM(short, score_calc=make_score(case), instrumentation=other, convert=False, **base)
            if ob == 'mealy' or all(x for x in short):
                # (observations of the leaf itself are kept by the data and by the cut alike)
                expect(graph(root) == calls[-2][1] and other.events == log.events, 'learning from a pruned tree differs from learning from the pruned data', cut=case['cut'])
    else:
        other = SeqLog()
        root = run_GSM(given, score_calc=make_score(case), instrumentation=other, convert=False, **base)
        expect(graph(root) == calls[-2][1] and other.events == log.events, 'a pre-processing that changes nothing changes the result')
    ok = dict(base, score_calc=make_score(case))
    if case['bad'] == 'ob':
        expect(refused(lambda: run_GSM(given, **{**ok, 'output_behavior': case['name']})), 'an unknown output behaviour was not refused', name=case['name'])
    elif case['bad'] == 'tb':
        expect(refused(lambda: run_GSM(given, **{**ok, 'transition_behavior': case['name']})), 'an unknown transition behaviour was not refused', name=case['name'])
    elif case['bad'] == 'score':
        expect(refused(lambda: run_GSM(given, **{**ok, 'transition_behavior': 'nondeterministic', 'score_calc': None})), 'a nondeterministic request without a score was not refused')
    elif case['bad'] == 'labels':
        for x in ('nondeterministic', 'stochastic'):
            expect(refused(lambda: run_GSM([(('a',), 1)], **{**ok, 'transition_behavior': x, 'score_calc': S.ScoreCalculation(), 'data_format': 'labeled_sequences'})), 'labelled words were accepted for a model that is not deterministic')
    elif case['bad'] == 'fmt':
        expect(refused(lambda: run_GSM(given, **{**ok, 'data_format': 'io_trace'})), 'an unknown data format was not refused')
    elif fmt == 'io_traces' or fmt == 'io_sequences':
        i = al[0]
        two = [[('i', 'x')], [('i', 'y')]] if ob == 'mealy' else [['s', ('i', 'x')], ['s', ('i', 'y')]]
        expect(refused(lambda: run_GSM(two, **{**ok, 'transition_behavior': 'deterministic', 'score_calc': S.ScoreCalculation()})), 'contradictory data were not refused')
    return len(log.events) > 2, [tb, ob, fmt, f"cut_{case['cut']}", 'bad_' + case['bad']]


SUBS = [Sub('hooks', hook_cases(), check_hooks, 2500), Sub('steps', cases(), check, 16000), Sub('laws', law_cases(), check_laws, 5000)]
