import os
import random
import re
import stat
import tempfile
from collections import deque
from fractions import Fraction

from hypothesis import strategies as st

from aalpy import automata as A
import aalpy.paths
from aalpy.utils import mdp_2_prism_format, model_check_properties, model_check_experiment
from aalpy.utils.HelperFunctions import dfa_from_moore, mc_from_mdp, mc_format_to_mdp
from aalpy.utils.ModelChecking import stop_based_on_confidence
from aalpy.automata.StochasticMealyMachine import smm_to_mdp_conversion

from vf import gen
from vf.core import Sub, expect
from vf.gen import ints
from vf.ref import Det, ReadDet, build, check_type, first_difference
from vf.stoch import nd, Nd, build_nd, read_nd

PROPERTY = 'C29'
RULE = 'random SMMs (observable or not, partial, many outputs, any state names), Moore machines, MDPs; model-checker text is parsed back; non-trivial: at least two states'
ASSUMPTIONS = ['state ids are unique', 'inputs are identifiers when a model is exported as model-checker text', 'the model checker itself is not installed: a stand-in prints the results']


def equal_trace_distributions(m, model):
    """exact comparison of the output trace distributions of a reference SMM and an MDP for all input words (basis of reachable weight vectors)"""
    states, outs, tr, init = read_nd(model, 'mdp')
    F = Fraction
    start = {('s', m.init): F(1)}, {('d', init): F(1)}
    basis = []

    def independent(v):
        v = dict(v)
        for piv, b in basis:
            f = v.get(piv, 0)
            if f:
                for k, x in b.items():
                    v[k] = v.get(k, 0) - f * x
                    if not v[k]:
                        del v[k]
        if not v:
            return False
        piv = next(iter(v))
        basis.append((piv, {k: x / v[piv] for k, x in v.items()}))
        return True

    q = deque([(start, ())])
    independent({**start[0], **start[1]})
    while q:
        (a, b), w = q.popleft()
        sa, sb = sum(a.values()), sum(b.values())
        expect(sa == sb, 'the probability of a trace changed', trace=w, original=str(float(sa)), converted=str(float(sb)))
        for i, x in enumerate(m.al):
            na, nb = {}, {}
            for (_, s), p in a.items():
                for o, t, _w in m.tr[s][i]:
                    d = na.setdefault(o, {})
                    d[('s', t)] = d.get(('s', t), 0) + p * F(float(_w))
            for (_, s), p in b.items():
                for o, t, pr in tr[s].get(x, []):
                    d = nb.setdefault(o, {})
                    d[('d', t)] = d.get(('d', t), 0) + p * F(pr)
            for o in list(na) + [o for o in nb if o not in na]:
                n = na.get(o, {}), nb.get(o, {})
                expect(sum(n[0].values()) == sum(n[1].values()), 'the probability of a trace changed', trace=w + (x, o), original=str(float(sum(n[0].values()))), converted=str(float(sum(n[1].values()))))
                if independent({**n[0], **n[1]}):
                    q.append((n, w + (x, o)))


@st.composite
def smm_cases(draw):
    big = draw(ints(0, 9)) == 0
    obs = draw(st.booleans())
    return {'spec': draw(nd('smm', max_n=5, max_k=3, big=8, complete=draw(st.booleans()), zero=False, twins=draw(st.sampled_from([0, 60])), weights=draw(st.sampled_from([(1, 1, 2, 3, 7), (1,)])), max_branch=12 if big else 3, n_out=13 if big else 4, observable=obs, sks=('str', 'int', 'tuple', 'mixed', 'text'), oks=('int',) if big else ('str', 'int', 'tuple', 'empty', 'mixed', 'text'))),
            'fmt': draw(st.sampled_from(['q{}', '{}', 's', '1', 'int'])), 'method': draw(st.booleans())}


def check_smm(case):
    spec = case['spec']
    m = Nd(spec)
    model, states = build_nd(spec)
    for i, s in enumerate(states):
        f = case['fmt']
        s.state_id = i if f == 'int' else f.format(i) if '{' in f else f + '1' * i
    before = read_nd(model, 'smm')[1:]
    d = model.to_mdp() if case['method'] else smm_to_mdp_conversion(model)
    expect(type(d) is A.Mdp, 'not an MDP')
    expect(read_nd(model, 'smm')[1:] == before, 'the converted model was modified')
    expect(len({s.state_id for s in d.states}) == len(d.states), 'two states of the converted model share an id', ids=sorted(str(s.state_id) for s in d.states))
    equal_trace_distributions(m, d)
    for s in d.states:
        for x, lst in s.transitions.items():
            if lst:
                expect(abs(sum(p for _, p in lst) - 1) < 1e-9, 'a distribution does not sum to one')
    return len(d.states) > 2, [case['fmt'], f'n{m.n}', 'big' if spec['k'] and len(d.states) > 10 else '']


@st.composite
def moore_cases(draw):
    spec = draw(gen.det_mix(types=('moore',), big=8, big_n=13, big_k=3, wide=4, max_n=6, max_k=3, oks=('bool',)))
    return {'spec': spec, 'none': draw(st.sampled_from([None, None, 0, 1])), 'num': draw(st.booleans()), 'bad': draw(st.sampled_from([False] * 9 + ['str', 'two']))}


def check_moore(case):
    spec = case['spec']
    m = Det(spec)
    model = build(spec)
    model = model[0] if isinstance(model, tuple) else model
    outs = {}
    for s in model.states:
        if case['num']:
            s.output = int(s.output)
        elif case['none'] is not None and not s.output:
            s.output = None if case['none'] else s.output
        outs[s.state_id] = s.output
    if case['bad']:
        model.states[-1].output = 'True' if case['bad'] == 'str' else 2
        try:
            dfa_from_moore(model)
        except ValueError:
            return False, ['rejected']
        expect(False, 'a Moore machine with other outputs was converted')
    d = dfa_from_moore(model)
    check_type(d, 'dfa')
    expect({s.state_id: s.output for s in model.states} == outs, 'the converted model was modified')
    r = ReadDet(d, 'dfa', m.al)
    expect(len(d.states) == len(model.states) and {s.state_id for s in d.states} == set(outs), 'states were lost or added')
    ref = ReadDet(model, 'moore', m.al)
    ref.out = [bool(o) for o in ref.out]
    w = first_difference(ref, r)
    expect(w is None, 'the DFA differs from the Moore machine', word=w)
    return r.n > 1, []


@st.composite
def mc_cases(draw):
    return {'spec': draw(nd('mdp', max_n=5, max_k=2, big=8, complete=draw(st.booleans()), observable=draw(st.booleans()))), 'pick': draw(st.sampled_from([None, 0, 1])), 'data': draw(st.lists(st.lists(ints(0, 3), min_size=1, max_size=6), max_size=6))}


def check_mc(case):
    spec = case['spec']
    m = Nd(spec)
    model, states = build_nd(spec)
    used = [a for i, a in enumerate(m.al) if any(m.tr[s][i] for s in range(m.n))]
    pick = None if case['pick'] is None else m.al[case['pick'] % m.k]
    before = read_nd(model, 'mdp')[1:]
    if pick is None and len(used) > 1:
        try:
            mc_from_mdp(model)
        except ValueError:
            return False, ['several inputs']
        expect(False, 'an MDP with several inputs was converted without choosing one')
    mc = mc_from_mdp(model, pick) if pick is not None else mc_from_mdp(model)
    expect(type(mc) is A.MarkovChain, 'not a Markov chain')
    expect(read_nd(model, 'mdp')[1:] == before, 'the converted model was modified')
    s2, o2, tr2, i2 = read_nd(mc, 'mc')
    x = pick if pick is not None else (used[0] if used else None)
    by = {s.state_id: i for i, s in enumerate(s2)}
    expect(set(by) == {s.state_id for s in states} and len(s2) == len(states), 'states were lost or added')
    expect(s2[i2].state_id == states[m.init].state_id, 'another initial state')
    for i, s in enumerate(states):
        j = by[s.state_id]
        expect(o2[j] == m.outs[i], 'another output')
        exp = sorted((t, float(w)) for o, t, w in (m.tr[i][m.idx[x]] if x is not None else []))
        got = sorted((states.index(next(z for z in states if z.state_id == s2[t].state_id)), p) for o, t, p in tr2[j].get(None, []))
        expect(exp == got, 'other transitions', state=i, original=exp, converted=got)
    from vf.ref import osym
    data = [[osym(spec['ok'], x) for x in t] for t in case['data']]
    given = [list(t) for t in data]
    conv = mc_format_to_mdp(data)
    expect(data == given, 'the data were modified')
    expect(len(conv) == len(data), 'sequences were lost or added')
    for a, b in zip(data, conv):
        expect(b[0] == a[0] and [o for _, o in b[1:]] == a[1:] and len({i for i, _ in b[1:]}) <= 1, 'the converted chain trace differs', original=a, converted=b)
    return m.n > 1, ['picked' if pick is not None else 'single']


WORDS = ['a', 'b', 'mdp', 'init', 'module', 'label', 'endmodule', 'go']
OUTS = ['x', 'y', 'x__y', 'init', '__z', 'label', 'w', 'p__q__r__s__t']


def parse_prism(text):
    """independent reader: (init, {(state, action): [(prob, target)]}, {label: set of states}, upper bound)"""
    text = text.replace('\r\n', '\n')
    head, rest = text.split('endmodule\n', 1) if 'endmodule\n' in text else (None, None)
    expect(head is not None, 'no end of module')
    # the last "endmodule" line ends the module (an action may be called alike only in brackets)
    lines = head.split('\n')
    expect(lines[0] == 'mdp' and re.match(r'module \w+$', lines[1]), 'no module header', text=text[:80])
    body = '\n'.join(lines[2:])
    mt = re.match(r'loc : \[0\.\.(\d+)\] init (\d+);', body)
    expect(mt, 'no state variable', text=body[:80])
    hi, init = int(mt.group(1)), int(mt.group(2))
    tr = {}
    body = body[mt.end():]
    for cmd in body.split(';'):
        if not cmd.strip():
            continue
        c = re.match(r'\s*\[(.*?)\] loc=(\d+) ->\s+(.*)$', cmd, re.S)
        expect(c, 'malformed command', text=cmd)
        key = (int(c.group(2)), c.group(1))
        expect(key not in tr, 'two commands for the same action and state', command=key)
        upd = []
        for u in c.group(3).split(' + '):
            um = re.match(r"\s*([0-9.eE+-]+) : \(loc'=(\d+)\)\s*$", u)
            expect(um, 'malformed update', text=u)
            upd.append((float(um.group(1)), int(um.group(2))))
        tr[key] = upd
    labels = {}
    for ln in rest.split('\n'):
        if not ln.strip():
            continue
        lm = re.match(r'label "(.*)" = (.*);$', ln)
        expect(lm, 'malformed label', text=ln)
        expect(lm.group(1) not in labels, 'a label is defined twice', label=lm.group(1))
        labels[lm.group(1)] = {int(re.match(r'loc=(\d+)$', z).group(1)) for z in lm.group(2).split('|')}
    return init, tr, labels, hi


@st.composite
def prism_cases(draw):
    return {'spec': draw(nd('mdp', max_n=6, max_k=3, complete=draw(st.booleans()), observable=draw(st.booleans()), oks=('str',), sks=('str',), n_out=6)), 'in': draw(st.permutations(WORDS))[:3], 'out': draw(st.lists(st.sampled_from(OUTS), min_size=6, max_size=6)),
            'numout': draw(ints(0, 4)) == 0, 'fmt': draw(st.sampled_from(['q{}', '{}', 'int'])), 'file': draw(st.booleans()), 'lookup': draw(st.booleans()), 'move': draw(st.booleans())}


def safe(w):
    return f'___{w}___' if w in ('mdp', 'init', 'module', 'endmodule', 'label') else w


def check_prism(case):
    spec = case['spec']
    m = Nd(spec)
    model, states = build_nd(spec)
    name_in = {a: case['in'][i] for i, a in enumerate(m.al)}
    out = {}
    for i, s in enumerate(states):
        s.state_id = i if case['fmt'] == 'int' else case['fmt'].format(i)
        s.output = i % 3 if case['numout'] else case['out'][spec['out'][i]]
        out[i] = s.output
        tr = dict(s.transitions)
        s.transitions.clear()
        for a, l in tr.items():
            s.transitions[name_in[a]] = l
        if case['lookup']:
            s.transitions['b']
    if case['move']:
        model.states = model.states[::-1]
    pos = {id(s): i for i, s in enumerate(model.states)}
    order = [pos[id(s)] for s in states]
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'm.prism')
        text = mdp_2_prism_format(model, 'exp', p if case['file'] else None)
        if case['file']:
            with open(p, newline='') as f:
                expect(f.read().replace('\r\n', '\n') == text.replace('\r\n', '\n'), 'the file differs from the returned text')
    init, tr, labels, hi = parse_prism(text)
    expect(hi >= m.n - 1, 'the range of the state variable is too small', range=hi, states=m.n)
    # states are numbered somehow: the numbering must be a bijection under which everything agrees; the order of model.states is the natural one, but any is allowed
    exp_tr = {}
    for s in range(m.n):
        for i, a in enumerate(m.al):
            if m.tr[s][i]:
                exp_tr[(s, safe(name_in[a]))] = sorted((float(w), t) for _, t, w in m.tr[s][i])
    exp_lab = {}
    for s in range(m.n):
        for part in str(out[s]).split('__'):
            if part:
                exp_lab.setdefault(safe(part), set()).add(s)
    num = {}

    def agree(num):
        inv = {v: k for k, v in num.items()}
        return (inv.get(init) == m.init and {(inv.get(s), a): sorted((p, inv.get(t)) for p, t in u) for (s, a), u in tr.items()} == exp_tr
                and {l: {inv.get(x) for x in v} for l, v in labels.items()} == exp_lab)
    natural = {s: order[s] for s in range(m.n)}
    if not agree(natural):
        from itertools import permutations
        expect(any(agree(dict(enumerate(p))) for p in permutations(range(m.n))), 'the exported text describes another model', text=text[:1500], transitions={str(k): v for k, v in exp_tr.items()}, labels={k: sorted(v) for k, v in exp_lab.items()})
    return m.n > 1, ['numout' if case['numout'] else '', 'reserved' if {'mdp', 'init', 'module', 'label', 'endmodule'} & set(case['in'][:m.k]) else '']


@st.composite
def result_cases(draw):
    vals = draw(st.lists(st.one_of(st.sampled_from([0.0, 1.0, 0.5, 1e-5, 9.765625e-4, 2.5e-10]), st.floats(0, 1)), min_size=1, max_size=4))
    return {'vals': vals, 'err': [draw(st.sampled_from([0.0, 0.001, 0.05, 0.3])) for _ in vals], 'bound': draw(st.sampled_from([0.02, 0.1])), 'smm': draw(st.booleans()), 'print': draw(st.sampled_from([0, 2]))}


def java(x):
    """as the model checker (Java) prints a double"""
    if x == 0 or 1e-3 <= abs(x) < 1e7:
        r = repr(float(x))
        return r if 'e' not in r else f'{x:.20f}'.rstrip('0')
    mant, ex = f'{x:.15e}'.split('e')
    mant = mant.rstrip('0')
    return f"{mant + '0' if mant.endswith('.') else mant}E{int(ex)}"


def check_results(case):
    vals = case['vals']
    with tempfile.TemporaryDirectory() as d:
        props = os.path.join(d, 'p.props')
        with open(props, 'w') as f:
            f.write('\n'.join(f'Result: {java(v)} (exact floating point)' for v in vals))
        tool = os.path.join(d, 'prism')
        seen = os.path.join(d, 'seen')
        with open(tool, 'w') as f:
            f.write(f'#!/bin/sh\necho PRISM\necho\ncp "$1" "{seen}"\ncat "$2"\necho\necho done\n')
        os.chmod(tool, 0o700)
        old, cwd = aalpy.paths.path_to_prism, os.getcwd()
        aalpy.paths.path_to_prism = tool
        os.chdir(d)
        try:
            if case['smm']:
                s = A.StochasticMealyState('q0')
                s.transitions['a'] = [(s, 'x', 1.0)]
                model = A.StochasticMealyMachine(s, [s])
                mdp = model.to_mdp()
            else:
                s = A.MdpState('q0', 'x')
                s.transitions['a'] = [(s, 1.0)]
                model = mdp = A.Mdp(s, [s])
            got = model_check_properties(mdp, props)
            with open(seen) as f:
                expect(f.read() == mdp_2_prism_format(mdp, 'mc_exp'), 'another model was checked')
            correct = [v + e for v, e in zip(vals, case['err'])]
            res, diff = model_check_experiment(props, correct, mdp, precision=6)
            stop = stop_based_on_confidence(model, (props, correct, case['bound']), case['print'])
            left = sorted(os.listdir(d))
        finally:
            os.chdir(cwd)
            aalpy.paths.path_to_prism = old
    expect(len(got) == len(vals), 'results were lost or added', got=got, printed=vals)
    for g, v in zip(got.values(), vals):
        expect(abs(g - v) <= 1e-12 + 1e-9 * v, 'a result was misread', printed=java(v), read=g)
    for g, v in zip(diff.values(), case['err']):
        expect(abs(g - v) < 2e-6, 'a reported error is wrong', expected=v, got=g)
    expect(list(left) == ['p.props', 'prism', 'seen'], 'temporary files are left behind', files=left)
    expect(stop == all(e <= case['bound'] for e in case['err']), 'the stopping decision does not follow the errors', errors=case['err'], bound=case['bound'], stop=stop)
    return len(vals) > 1, ['stop' if stop else 'go']


SUBS = [Sub('smm', smm_cases(), check_smm, quick=3000),
        Sub('moore', moore_cases(), check_moore, quick=2000),
        Sub('mc', mc_cases(), check_mc, quick=2000),
        Sub('prism', prism_cases(), check_prism, quick=3000),
        Sub('results', result_cases(), check_results, quick=150, thorough=1500)]
