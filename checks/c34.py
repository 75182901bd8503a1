import ast
import contextlib
import copy
import io
import random
import re
from unittest.mock import patch

import pydot
from hypothesis import strategies as st

from aalpy.learning_algs import run_Lstar, run_KV, run_Lsharp, run_adaptive_Lsharp, run_non_det_Lstar, run_abstracted_ONFSM_Lstar, run_stochastic_Lstar
from aalpy.learning_algs import run_RPNI, run_PAPNI, run_EDSM, run_GSM, run_Alergia, run_active_RPNI, run_active_Alergia
from aalpy.learning_algs.deterministic_passive.active_RPNI import RandomWordSampler as DetSampler
from aalpy.learning_algs.general_passive.GsmAlgorithms import run_k_tails
from aalpy.learning_algs.general_passive.GsmNode import GsmNode, TransitionInfo
from aalpy.learning_algs.general_passive.Instrumentation import ProgressReport, MergeViolationDebugger
from aalpy.learning_algs.stochastic_passive.ActiveAleriga import RandomWordSampler as StochSampler

from checks import c21, c22, c23, c24, c25, c26, c27, c32
from vf import gen
from vf.core import Sub, expect
from vf.gen import ints
from vf.learn import LSTAR_CEX, KV_CEX, CLOSING
from vf.ndl import FairNdSUL, PerfectNdOracle, Skip
from vf.orc import oracle_params, make_oracle
from vf.ref import Det, build, check_exact
from vf.stoch import nd, Nd, NdSUL
from vf.sul import RefSUL, PerfectOracle
from vf.table import table

PROPERTY = 'C34'
RULE = ('random systems and data x all learners x print level / print_info / instrumentation / return_data, the same seed for every run; the complete log of the system, the model and the reported numbers are compared '
        'between the silent and the printing run, everything printed is parsed and compared with the system and the returned numbers; non-trivial: the learned model has at least two states')
ASSUMPTIONS = ['printed tables are parsed only for plain alphabets (letters, integers)']

TIMES = ('total_time', 'learning_time', 'eq_oracle_time')


drawn = []


def write(graph, path, *a, **k):
    """stands in for the call of graphviz"""
    drawn.append((path, graph.to_string()))
    return True


def check_drawing(d, model, t, cut):
    """the drawn classification tree is true: every leaf answers the questions on its path as drawn, one leaf per state"""
    expect(len(drawn) == 1 and drawn[0][0] == 'classification_tree.pdf', 'the classification tree is not saved once to the announced file', files=[p for p, _ in drawn])
    gs = pydot.graph_from_dot_data(drawn[0][1])
    expect(gs, 'the drawn classification tree is not a valid graph', text=drawn[0][1][:500])
    nodes, parent = {}, {}
    for n in gs[0].get_nodes():
        label = n.get('label').strip('"')
        kind, word = re.split(r':(?:\\n|\n)', label, maxsplit=1)
        nodes[n.get_name()] = (kind, ast.literal_eval(word))
    for e in gs[0].get_edges():
        expect(e.get_destination() not in parent, 'a node of the classification tree has two parents')
        parent[e.get_destination()] = (e.get_source(), e.get('label').strip('"'))
    leaves = {n: w for n, (k, w) in nodes.items() if k == 'Access String'}
    roots = [n for n in nodes if n not in parent]
    expect(len(roots) == 1, 'the classification tree has not exactly one root', roots=len(roots))
    if not cut:
        expect(len(leaves) == len(model.states), 'the drawn classification tree has another number of leaves than the model has states', leaves=len(leaves), states=len(model.states))
    for n, w in leaves.items():
        while n in parent:
            n, key = parent[n]
            e = nodes[n][1]
            out = d.run(w + e)
            if out or t != 'mealy':
                expect(key == str(out[-1]), 'the drawn classification tree shows an answer that the system does not give', access=w, question=e, drawn=key, real=out[-1])


def captured(f, *a, **k):
    del drawn[:]
    out = io.StringIO()
    with contextlib.redirect_stdout(out), patch.object(pydot.Dot, 'write', write):
        r = f(*a, **k)
    return r, out.getvalue()


def strip(info):
    return {k: v for k, v in info.items() if k not in TIMES}


SUMMARY = [(r'Learning Rounds:  (.*)', 'learning_rounds'), (r'Number of states: (.*)', 'automaton_size'), (r'  Total                : (.*)', 'total_time'),
           (r'  Learning algorithm   : (.*)', 'learning_time'), (r'  Conformance checking : (.*)', 'eq_oracle_time')]


def check_summary(text, info):
    expect(text.count('Learning Finished.') == 1, 'the summary is not printed exactly once', count=text.count('Learning Finished.'))
    tail = text[text.index('Learning Finished.'):]
    for pat, key in SUMMARY:
        got = re.findall('^' + pat + '$', tail, re.M)
        expect(got == [str(info[key])], f'the printed summary differs from the returned {key}', printed=got, returned=info[key])
    mq = re.findall(r'^ # Membership Queries  : (.*)$', tail, re.M)
    expect(mq == [str(info['queries_learning']), str(info['queries_eq_oracle'])], 'printed membership queries differ from those returned', printed=mq)
    steps = re.findall(r'^ # Steps               : (.*)$', tail, re.M)
    expect(steps == [str(info['steps_learning']), str(info['steps_eq_oracle'])], 'printed steps differ from those returned', printed=steps)
    if 'cache_saved' in info:
        got = re.findall(r'^ # MQ Saved by Caching : (.*)$', tail, re.M)
        expect(got == [str(info['cache_saved'])], 'printed cache savings differ', printed=got)


def tables(text):
    """[(headers, rows, extended rows)] of the printed observation tables, cells as text"""
    res, cur, ext = [], None, False
    for line in text.split('\n'):
        if line.startswith('Prefixes / E set'):
            cur = ([c.strip() for c in line.split('|')][1:], [], [])
            ext = False
            res.append(cur)
        elif cur is not None and line and set(line) == {'='}:
            ext = True
        elif cur is not None and '|' in line and line[0] == '(':
            cells = [c.strip() for c in line.split('|')]
            cur[2 if ext else 1].append((cells[0], cells[1:]))
        elif cur is not None and not (line and set(line) == {'-'}):
            cur = None
    return res


# ------------------------------------------------------------------ deterministic learners

@st.composite
def det_cases(draw):
    spec = draw(gen.det_mix(max_n=6, max_k=3, big=10, big_n=12, big_k=3, wide=5))
    algo = draw(st.sampled_from(['lstar', 'lstar', 'kv', 'lsharp', 'adaptive']))
    cache = draw(st.booleans())
    o = {'lstar': {'cex_processing': LSTAR_CEX, 'closing_strategy': CLOSING, 'all_prefixes': None}, 'kv': {'cex_processing': KV_CEX}, 'lsharp': {}, 'adaptive': {'state_matching': ['Total', 'Approximate', None], 'rebuilding': [True, True, False]}}[algo]
    opts = {k: draw(st.sampled_from(v)) for k, v in o.items() if v}
    if algo in ('lsharp', 'adaptive'):
        opts['extension_rule'] = draw(st.sampled_from([None, 'SepSeq', 'ADS']))
        opts['separation_rule'] = draw(st.sampled_from(['SepSeq', 'ADS']))
    if algo == 'adaptive' and not opts['rebuilding'] and not opts['state_matching']:
        opts['rebuilding'] = True
    oracle = draw(st.sampled_from(['perfect', 'perfect', 'random']))
    c = {'spec': spec, 'algo': algo, 'cache': cache, 'opts': opts, 'mode': draw(st.sampled_from([0, 0, 6])), 'seed': draw(ints(0, 999)), 'level': draw(st.sampled_from([1, 2, 3, 3])),
         'rounds': draw(st.sampled_from([None, None, None, 2, 4])), 'samples': draw(st.lists(gen.words(spec['k'], 5, 1), max_size=3)) if algo != 'kv' and draw(st.booleans()) else None}
    if oracle == 'random':
        c['oracle'] = draw(oracle_params(['RandomWalk', 'RandomWord', 'StatePrefix', 'WMethod'], spec['k']))
    return c


def run_det(case, level, rd=True):
    spec = case['spec']
    raw = RefSUL(spec, record=True)
    d = raw.m
    random.seed(case['seed'])
    al = list(d.al)
    if 'oracle' in case:
        eq = make_oracle(case['oracle'], al, raw, d.min_size(), spec)
        if case['oracle']['name'] == 'WMethod':
            eq.m = min(eq.m, d.min_size() + 1, 4)
    else:
        eq = PerfectOracle(raw, spec, case['mode'], case['seed'])
    kw = dict(case['opts'], automaton_type=spec['t'], print_level=level, return_data=rd, cache_and_non_det_check=case['cache'], max_learning_rounds=case['rounds'] or (12 if 'oracle' in case else None))
    if case['samples'] is not None:
        kw['samples'] = [(tuple(d.al[i] for i in w), tuple(d.run(tuple(d.al[i] for i in w)))) for w in case['samples']]
    if case['algo'] == 'adaptive':
        kw['references'] = [build(spec)[0]]
    f = {'lstar': run_Lstar, 'kv': run_KV, 'lsharp': run_Lsharp, 'adaptive': run_adaptive_Lsharp}[case['algo']]
    res, text = captured(f, alphabet=al, sul=raw, eq_oracle=eq, **kw)
    model, info = res if rd else (res, None)
    return model, info, raw, eq, text


def check_det(case):
    spec, t = case['spec'], case['spec']['t']
    m0, i0, raw0, eq0, text0 = run_det(case, 0)
    expect(text0 == '', 'something was printed with print level 0', printed=text0[:200])
    m1, i1, raw1, eq1, text1 = run_det(case, case['level'])
    expect(bool(drawn) == ('saved to classification_tree.pdf' in text1), 'drawing of the classification tree and its announcement disagree')
    if 'oracle' not in case:
        expect(bool(drawn) == (case['algo'] == 'kv' and case['level'] == 3 and bool(eq1.cexs)), 'the classification tree is drawn if and only if there is one and level 3 was requested')
    if drawn and spec['sk'] in ('str', 'int', 'neg'):
        check_drawing(raw1.m, m1, t, bool(case['rounds'] or 'oracle' in case))
    what = dict(algo=case['algo'], level=case['level'])
    m2, _, raw2, _, _ = run_det(case, 0, False)
    d = raw1.m
    if case['algo'] in ('lstar', 'kv'):
        expect(raw0.log == raw1.log, 'printing changes what is asked of the system', **what)
        expect(table(m0, t) == table(m1, t), 'printing changes the model', **what)
        expect(strip(i0) == strip(i1), 'printing changes the reported numbers', silent=strip(i0), printing=strip(i1), **what)
        expect(raw0.log == raw2.log and table(m0, t) == table(m2, t), 'return_data changes the run', **what)
    elif 'oracle' not in case and not case['rounds']:  # L# iterates over sets of nodes: runs are not repeatable query by query
        for m in (m0, m1, m2):
            check_exact(m, spec)
    check_summary(text1, i1)
    if case['level'] >= 2 and 'oracle' not in case:
        hyp = re.findall(r'Hypothesis (\d+): (\d+) states\.', text1)
        sizes = eq1.sizes
        if case['algo'] == 'kv':  # the first (one-state) hypothesis is not announced, a counterexample may be processed more than once
            expect([int(n) for n, _ in hyp] == list(range(2, len(hyp) + 2)) or [int(n) for n, _ in hyp] == list(range(1, len(hyp) + 1)), 'announced hypotheses are not numbered consecutively', printed=hyp)
            expect(set(sizes[1:]) <= {int(s) for _, s in hyp}, 'a submitted hypothesis was not announced with its size', printed=hyp, submitted=sizes)
        else:
            expect(hyp == [(str(j + 1), str(s)) for j, s in enumerate(sizes)], 'announced hypotheses are not those submitted', printed=hyp, submitted=sizes)
    if case['level'] == 3 and spec['sk'] in ('str', 'int', 'neg') and 'oracle' not in case:
        words = [ast.literal_eval(x) for x in re.findall(r'Counterexample:? (\(.*\))', text1)]
        words = [w for j, w in enumerate(words) if j == 0 or words[j - 1] != w]  # one counterexample can be processed several times; KV announces those after the first
        expect(words == [tuple(w) for w in eq1.cexs][case['algo'] == 'kv' and bool(eq1.cexs):], 'printed counterexamples are not those found', printed=words, found=eq1.cexs)
    if case['level'] == 3 and case['algo'] == 'lstar' and spec['sk'] in ('str', 'int', 'neg'):
        tabs = tables(text1)
        expect(len(tabs) == i1['learning_rounds'] - (1 if case['rounds'] and i1['learning_rounds'] > case['rounds'] else 0), 'number of printed tables is not the number of rounds', tables=len(tabs), rounds=i1['learning_rounds'])
        for heads, rows, ext in tabs:
            E = [ast.literal_eval(h) for h in heads]
            S = [ast.literal_eval(s) for s, _ in rows]
            X = [ast.literal_eval(s) for s, _ in ext]
            expect(() in S and set(S + X) >= {s + (a,) for s in S for a in d.al}, 'the printed table is incomplete', rows=S + X)
            for s, cells in rows + ext:
                s = ast.literal_eval(s)
                expect(len(cells) == len(E), 'a printed row has another number of cells than there are columns')
                for e, c in zip(E, cells):
                    out = d.run(s + e)
                    expect(c in {str(out[-1]).strip(), str(tuple(out[-max(1, len(e)):])).strip()}, 'a printed cell is not what the system answers', prefix=s, suffix=e, printed=c, real=out)
    return len(m0.states) > 1, [case['algo'], f"level_{case['level']}", 'oracle_' + (case['oracle']['name'] if 'oracle' in case else 'perfect')]


# ------------------------------------------------------------------ nondeterministic and stochastic learners

def nd_cases():
    return st.one_of(c25.cases().map(lambda c: dict(c, algo='onfsm')), c26.cases().map(lambda c: dict(c, algo='abstracted')), c27.cases().map(lambda c: dict(c, algo='stochastic')))


def run_nd(case, level, rd=True):
    spec = case['spec']
    m = Nd(spec)
    random.seed(case['seed'])
    al = list(m.al)
    B = max(len(c) for row in m.tr for c in row)
    n = max(1, B ** 3) * 2
    if case['algo'] == 'stochastic':
        sul = NdSUL(spec, case['seed'])
        eq = make_oracle({'name': 'RandomWord', 'num_walks': 20, 'min_walk_len': 1, 'max_walk_len': 5, 'reset_after_cex': True, 'seed': case['seed']}, al, sul, 1)
        stop = {int(a): b for a, b in case['stop'].items()} if isinstance(case['stop'], dict) else case['stop']
        res, text = captured(run_stochastic_Lstar, al, sul, eq, target_unambiguity=case['unamb'], min_rounds=case['min'], max_rounds=case['max'], automaton_type=spec['t'], strategy=c27.STRAT[case['strategy']](),
                             cex_processing=case['cex'], samples_cex_strategy=case['samples'], stopping_range_dict=stop, custom_oracle=True, return_data=rd, n_c=case['n_c'], n_resample=case['n_res'], print_level=level)
    else:
        sul = FairNdSUL(spec, case['seed'])
        if case['algo'] == 'onfsm':
            eq = PerfectNdOracle(spec, m.al, sul, n)
            res, text = captured(run_non_det_Lstar, al, sul, eq, n_sampling=n, stochastic=case['stoch'], max_learning_rounds=case['rounds'], print_level=level, return_data=rd)
        else:
            eq = c26.MissingOnly(spec, m.al, sul, n)
            res, text = captured(run_abstracted_ONFSM_Lstar, al, sul, eq, c26.mapping(case), n_sampling=n, max_learning_rounds=case['rounds'], print_level=level, return_data=rd)
    model, info = res if rd else (res, None)
    return model, info, sul, text


def check_nd(case):
    level = case['print'] or 3
    t = case['spec']['t'] if not case.get('stoch') else 'smm'
    try:
        m0, i0, sul0, text0 = run_nd(case, 0)
    except Skip:
        return False, ['suffix_too_long_for_samples']
    expect(text0 == '', 'something was printed with print level 0', printed=text0[:200])
    m1, i1, sul1, text1 = run_nd(case, level)
    what = dict(algo=case['algo'], level=level)
    cost = lambda s: (s.num_queries, s.num_steps)
    expect(cost(sul0) == cost(sul1), 'printing changes what is asked of the system', **what)
    expect(table(m0, t) == table(m1, t), 'printing changes the model', **what)
    expect(strip(i0) == strip(i1), 'printing changes the reported numbers', silent=strip(i0), printing=strip(i1), **what)
    m2, _, sul2, _ = run_nd(case, 0, False)
    expect(cost(sul0) == cost(sul2) and table(m0, t) == table(m2, t), 'return_data changes the run', **what)
    check_summary(text1, i1)
    if level >= 2:
        hyp = re.findall(r'Hypothesis:? (\d+)(?:: | has )(\d+) states\.', text1)
        expect(hyp and hyp[-1][1] == str(i1['automaton_size']), 'the last announced hypothesis has another size than the returned model', printed=hyp, size=i1['automaton_size'])
        expect(len(hyp) == i1['learning_rounds'], 'number of announced hypotheses is not the number of rounds', printed=hyp, rounds=i1['learning_rounds'])
    return len(m0.states) > 1, [case['algo'], f'level_{level}']


# ------------------------------------------------------------------ passive learners

def passive_cases():
    return st.one_of(c21.data_cases().map(lambda c: dict(c, algo='rpni')), c21.data_cases().map(lambda c: dict(c, algo='edsm')), c22.cases().map(lambda c: dict(c, algo='papni')),
                     st.tuples(c23.gsm_cases(), ints(1, 2)).map(lambda x: dict(x[0], algo='gsm', lvl=x[1])), c23.kt_cases().map(lambda c: dict(c, algo='ktails')), c24.cases().map(lambda c: dict(c, algo='alergia')))


def run_passive(case, loud):
    """(table of the model, text, number of states)"""
    a = case['algo']
    random.seed(3)
    if a in ('rpni', 'edsm'):
        _, data = c21.data_of(case)
        if not data:
            return None
        if a == 'rpni':
            model, text = captured(run_RPNI, list(data), case['t'], algorithm=case['alg'], input_completeness=case['complete'], print_info=loud)
        else:
            model, text = captured(run_EDSM, list(data), case['t'], input_completeness=case['complete'], print_info=loud)
        return table(model, case['t']), text, len(model.states)
    if a == 'papni':
        r = c22.data_of(case)
        v, al, data = r if len(r) == 3 else (None,) + tuple(r)
        model, text = captured(c22.learn, dict(case, print=loud), data, al)
        return table(model, 'vpa'), text, len(model.states)
    if a == 'alergia':
        traces = c24.traces_of(case)
        traces = traces[-1] if isinstance(traces, tuple) else traces
        model, text = captured(c24.learn, dict(case, print=loud), traces)
        return table(model, case['t']), text, len(model.states)
    al, traces = c23.make_traces(case)
    if a == 'ktails':
        if not traces:
            return None
        model, text = captured(run_k_tails, [tuple(x) for x in traces], case['ob'], case['k'], input_completeness=case['complete'], print_info=loud)
        return table(model, 'ndmoore' if case['ob'] == 'moore' else 'onfsm'), text, len(model.states)
    if case['fmt'] == 'traces':
        traces = [[y if (case['ob'] == 'moore' and j == 0) else y[1] for j, y in enumerate(x)] for x in traces]
    if not traces:
        return None
    rep = ProgressReport(case['lvl']) if loud else None
    model, text = captured(run_GSM, [tuple(x) for x in traces], output_behavior=case['ob'], transition_behavior=case['tb'], score_calc=c23.score(case['scores'], case['p'], case['tb']), compatibility_on_pta=False,
                           compatibility_on_futures=case['fut'] and case['fmt'] != 'labeled_sequences', node_order=c23.order(case['order']), consider_only_min_blue=case['minblue'], depth_first=case['dfs'],
                           instrumentation=rep, data_format=case['fmt'])
    if rep is not None:
        promotes = [x for x in rep.log if x[0] == 'promote']
        merges = [x for x in rep.log if x[0] == 'merge']
        expect(len(promotes) == len(model.states), 'the log of the progress report lists another number of states than the model has', log=len(promotes), states=len(model.states))
        got = re.findall(r'Learned (\d+) state automaton via (\d+) merges', text)
        expect(got == [(str(len(model.states)), str(len(merges)))], 'the printed result differs from the run', printed=got, states=len(model.states), merges=len(merges))
        if case['lvl'] > 1 and not rep.gsm.compatibility_on_futures:
            left = re.findall(r'Merged: (-?\d+) Remaining: (-?\d+)', text)
            size = re.findall(r'PTA has (\d+) states', text)
            expect(left and left[-1][1] == '0' and int(left[-1][0]) + len(model.states) == int(size[0]), 'merged and remaining states do not add up to the prefix tree', printed=left[-1:], tree=size, states=len(model.states))
    t = {'deterministic': {'moore': 'moore', 'mealy': 'mealy'}, 'nondeterministic': {'moore': 'ndmoore', 'mealy': 'onfsm'}, 'stochastic': {'moore': 'mdp', 'mealy': 'smm'}}[case['tb']][case['ob']]
    return table(model, t), text, len(model.states)


def check_passive(case):
    try:
        a = run_passive(case, False)
    except ValueError as e:
        if 'structure' in str(e):
            return False, ['refused']
        raise
    if a is None:
        return False, ['no_data']
    expect(a[1] == '' or 'input complete' in a[1] or 'rarely makes sense' in a[1], 'something was printed although printing is off', printed=a[1][:200])
    b = run_passive(case, True)
    expect(a[0] == b[0], 'printing changes the learned model', algo=case['algo'])
    if case['algo'] in ('rpni', 'papni', 'alergia', 'edsm', 'ktails'):
        got = re.findall(r'[Ll]earned (\d+) state', b[1])
        if case['algo'] != 'alergia' or got:
            extra = 1 if case.get('complete') == 'sink_state' else 0
            expect(got and int(got[-1]) in (b[2], b[2] - extra) or case['algo'] == 'papni', 'the printed number of states is not that of the model', printed=got, states=b[2])
    return a[2] > 1, [case['algo']]


# ------------------------------------------------------------------ active loops around passive learners

def active_cases():
    return st.one_of(c32.rpni_cases().map(lambda c: dict(c, algo='rpni')), c32.alergia_cases().map(lambda c: dict(c, algo='alergia')))


def run_active(c, loud):
    t = c['t']
    random.seed(c['seed'])
    if c['algo'] == 'rpni':
        m = Det(c['spec'])
        al = m.al
        data = [(w[:i], m.run(w[:i])[-1]) for w in [tuple(al[x] for x in w) for w in c['ws']] + [(a,) for a in al] for i in range(1, len(w) + 1)]
        if t != 'mealy':
            data.append(((), m.out[m.init]))
        sul = RefSUL(c['spec'], record=True)
        model, text = captured(run_active_RPNI, data, sul, DetSampler(c['walks'], c['lo'], c['hi']), c['n'], t, print_info=loud)
        log = sul.log
    else:
        sul = NdSUL(c['spec'], seed=c['seed'])
        m = sul.m
        init = [m.outs[m.init]] if t == 'mdp' else []
        words = [(a,) for a in m.al] + [tuple(random.choice(m.al) for _ in range(c['dlen'])) for _ in range(c['data'])]
        data = [init + list(zip(w, sul.query(w))) for w in words]
        model, text = captured(run_active_Alergia, data, sul, StochSampler(c['walks'], c['lo'], c['hi']), c['n'], automaton_type=t, print_info=loud)
        log = sul.traces
    return None if model is None else table(model, t), text, [list(x) for x in log], 0 if model is None else len(model.states)


def check_active(c):
    a, b = run_active(c, False), run_active(c, True)
    expect(a[1] == '' or 'input complete' in a[1], 'something was printed although printing is off', printed=a[1][:200])
    expect(a[2] == b[2], 'printing changes what is asked of the system')
    expect(a[0] == b[0], 'printing changes the learned model', algo=c['algo'])
    expect([int(x) for x in re.findall(r'Iteration: (\d+)', b[1])] == list(range(c['n'])), 'the printed iterations are not those of the run', rounds=c['n'])
    got = re.findall(r'[Ll]earned (\d+) state', b[1])
    if c['algo'] == 'rpni' and c['n']:
        expect(len(got) == c['n'] and int(got[-1]) == b[3], 'the printed number of states is not that of the model', printed=got, states=b[3])
    return c['n'] > 1, [c['algo']]


# ------------------------------------------------------------------ the debugger that knows the truth

@st.composite
def debug_cases(draw):
    c = draw(c23.gsm_cases().filter(lambda c: c['tb'] == 'deterministic' and c['src'] == 'machine'))
    return c


class Both(MergeViolationDebugger):
    """the debugger, and next to it a plain list of what it is told"""

    def __init__(self, truth):
        super().__init__(truth)
        self.told = []

    def log_promote(self, node):
        self.told.append(('promote', node.get_prefix()))
        super().log_promote(node)

    def log_merge(self, part):
        self.told.append(('merge', part.red.get_prefix(), part.blue.get_prefix()))
        super().log_merge(part)


def check_debugger(case):
    al, traces = c23.make_traces(case)
    if not traces:
        return False, ['no_data']
    spec, ob, fmt = case['spec'], case['ob'], case['fmt']
    d = Det(spec)
    nodes = [GsmNode((None, None if d.t == 'mealy' else d.out[s]), None) for s in range(d.n)]
    for s in range(d.n):
        for i, a in enumerate(d.al):
            nodes[s].transitions[a] = {d.o(s, i): TransitionInfo(nodes[d.tr[s][i]], 1, None, 0)}
    # prefixes of the true states, for the messages
    done = {d.init}
    todo = [d.init]
    for s in todo:
        for i, a in enumerate(d.al):
            t = d.tr[s][i]
            if t not in done:
                done.add(t)
                todo.append(t)
                nodes[t].predecessor, nodes[t].prefix_access_pair = nodes[s], (a, d.o(s, i))
    args = dict(output_behavior=ob, transition_behavior='deterministic', compatibility_on_futures=case['fut'] and fmt != 'labeled_sequences', node_order=c23.order(case['order']), consider_only_min_blue=case['minblue'],
                depth_first=case['dfs'], data_format=fmt)
    t = ob
    dbg = Both(nodes[d.init])
    try:
        plain = run_GSM([tuple(x) for x in traces], score_calc=c23.score(case['scores'], case['p'], case['tb']), **args)
        model, text = captured(run_GSM, [tuple(x) for x in traces], score_calc=c23.score(case['scores'], case['p'], case['tb']), instrumentation=dbg, **args)
    except ValueError as e:
        if 'structure' in str(e):
            return False, ['refused']
        raise
    expect(table(plain, t) == table(model, t), 'the debugger changes the learned model')

    def state(w):
        """state of the system after an observed prefix (None: the system has no such trace, because of an earlier wrong merge or a missing label)"""
        s = d.init
        for a, o in w:
            i = d.al.index(a)
            if d.o(s, i) != o:
                return None
            s = d.tr[s][i]
        return s

    reps, seen = {}, []
    log = list(dbg.log)
    for ev in dbg.told:
        at = [state(w) for w in ev[1:]]
        if ev[0] == 'promote':
            want = 'broken promote' if at[0] is None else 'wrong promote' if at[0] in reps else 'promote'
            reps.setdefault(at[0], ev[1])
        else:
            want = 'broken merge' if None in at else 'merge' if at[0] == at[1] else 'wrong merge'
        k = len(seen)
        seen.append(want)
        expect(k < len(log) and log[k][0] == want and [list(p) for p in log[k][1:]] == list(ev[1:]), 'the debugger misjudges a step', step=ev, expected=want, got=log[k:k + 1])
    expect(text.count('Erroneous promotion detected') == seen.count('wrong promote') and text.count('Erroneous merge detected') == seen.count('wrong merge'), 'the printed errors are not those of the run', steps=seen)
    return len(seen) > 2, [case['scores'], fmt] + sorted(set(seen))


SUBS = [Sub('debugger', debug_cases(), check_debugger, 1200), Sub('active', active_cases(), check_active, 1000), Sub('det', det_cases(), check_det, 4000), Sub('nd', nd_cases(), check_nd, 500, slow_ok=True), Sub('passive', passive_cases(), check_passive, 4000)]
