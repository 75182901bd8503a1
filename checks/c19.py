from collections import deque

from hypothesis import strategies as st

from aalpy import automata as A
from aalpy.automata.Vpa import vpa_from_dfa_representation
from aalpy.SULs import SevpaSUL
from aalpy.utils.HelperFunctions import is_balanced

from vf.core import Sub, expect, HarnessError
from vf.gen import ints
from vf.vpl import vp, letters, Vp, ReadSevpa, vp_difference, DEAD
from vf.table import build_vp

PROPERTY = 'C19'
RULE = ('random VPAs and 1-SEVPAs (partial and complete, up to 4 states, several calls / returns / stack symbols, state list and initial state varied); random words biased towards well-matched ones, run as '
        'interrupted operation histories; derived words, alphabets, access strings, sink removal and automata over stack-annotated letters; non-trivial: some word of length at least two is run')
ASSUMPTIONS = ['deterministic machines: at most one transition per letter and stack symbol', 'random word generation: every state reachable and co-reachable']


def spec_letters(spec):
    I, C, R = letters(spec)
    return I, C, R


@st.composite
def machine(draw, types=('vpa', 'sevpa'), **kw):
    t = draw(st.sampled_from(types))
    large = draw(ints(0, 6)) == 0
    if large:
        kw = dict(kw, partial=kw.get('partial', draw(st.sampled_from([0, 1, 3, 5]))))
    spec = draw(vp(max_n=8 if large else 4, max_i=2, **kw))
    if t == 'sevpa':
        spec['mix'] = draw(ints(0, 2))
    if draw(ints(0, 6)) == 0:
        spec['sk'] = 'pp'
    return {'t': t, 'spec': spec, 'init': draw(ints(0, spec['n'] - 1)) if draw(st.booleans()) else 0}


class RefVpa(Vp):
    def __init__(self, spec, init):
        super().__init__(spec)
        self.init = init


class RefSevpa:
    """direct reading of the spec: a call pushes (state, letter) and goes to the initial state"""

    def __init__(self, spec, init):
        self.spec, self.init = spec, init
        self.I, self.C, self.R = letters(spec)
        self.al = self.I + self.C + self.R
        self.n = spec['n']

    def acc(self, s):
        return s != DEAD and bool(self.spec['acc'][s])

    def start(self):
        return [self.init, []]

    def d_int(self, s, i):
        return DEAD if s == DEAD else self.spec['int'][s][i]

    def d_call(self, s, c):
        return (DEAD, None) if s == DEAD else (self.init, (s, c))

    def d_ret(self, s, r, g):
        if s == DEAD or g is None:
            return DEAD
        p, c = g
        row = self.spec['ret'][s][r]
        x = row[(p * len(self.C) + c) % len(row)]
        return DEAD if x == DEAD else (x + self.spec.get('mix', 0) * p) % self.n

    def move(self, conf, a):
        if conf[0] == DEAD:
            return
        if a in self.I:
            conf[0] = self.d_int(conf[0], self.I.index(a))
        elif a in self.C:
            t, g = self.d_call(conf[0], self.C.index(a))
            conf[1].append(g)
            conf[0] = t
        elif not conf[1]:
            conf[0] = DEAD
        else:
            conf[0] = self.d_ret(conf[0], self.R.index(a), conf[1].pop())

    def value(self, conf):
        return self.acc(conf[0]) and not conf[1]


def ref_of(m):
    return RefVpa(m['spec'], m['init']) if m['t'] == 'vpa' else RefSevpa(m['spec'], m['init'])


def run(ref, word):
    c = ref.start()
    out = []
    for a in word:
        ref.move(c, a)
        out.append(ref.value(c))
    return out, c


def concretise(ref, raw):
    """raw numbers -> letters; negative = return if something is pending"""
    w, depth = [], 0
    for x in raw:
        if x < 0 and depth:
            w.append(ref.R[-x % len(ref.R)])
        else:
            w.append(ref.al[abs(x) % len(ref.al)])
        depth += (w[-1] in ref.C) - (w[-1] in ref.R)
    return tuple(w)


raw_word = st.lists(ints(-6, 11), max_size=9)


@st.composite
def step_cases(draw):
    m = draw(machine())
    ops = [[draw(st.sampled_from(['word', 'word', 'step', 'step', 'step', 'reset', 'none', 'query', 'exec'])), draw(raw_word)] for _ in range(draw(ints(1, 8)))]
    return {**m, 'ops': ops}


def check_steps(case):
    ref = ref_of(case)
    model, states = build_vp(case['spec'], case['t'], init=case['init'])
    sul = SevpaSUL(model)
    al = model.get_input_alphabet()
    model.reset_to_initial()
    conf = ref.start()
    big = acc = 0

    def one(a, via):
        nonlocal acc
        o = via(a)
        ref.move(conf, a)
        acc += ref.value(conf)
        expect(o is ref.value(conf), 'wrong result of a step', letter=a, got=o, expected=ref.value(conf), state=conf[0], stack=conf[1])

    for op, raw in case['ops']:
        w = concretise(ref, raw)
        if op in ('reset', 'word'):
            model.reset_to_initial()
            conf = ref.start()
        if op in ('word', 'step'):
            for a in (w if op == 'word' else w[:2]):
                one(a, model.step)
            big += len(w) > 1
        elif op == 'none':
            o = model.step(None)
            expect(o is ref.value(conf), 'wrong acceptance of the current configuration', got=o, expected=ref.value(conf))
        elif op in ('query', 'exec'):
            if op == 'query':
                o = sul.query(w)
                want, conf = run(ref, w)
                want = want or [ref.value(conf)]
            else:
                o = model.execute_sequence(model.initial_state, w)
                want, conf = run(ref, w)
            acc += sum(want)
            expect(list(o) == want and all(type(x) is bool for x in o), f'wrong answer of a {op}', word=w, got=o, expected=want)
            big += len(w) > 1
        # a machine without letters cannot tell its error state from a dead configuration
        if conf[0] != DEAD and all(a in al.get_merged_alphabet() for a in ref.al):
            expect(model.current_state is states[conf[0]], 'wrong current state', expected=conf[0], got=model.current_state.state_id)
    return big > 0, [case['t'], case['spec']['sk'], 'accepting' if acc else 'rejecting']


# ------------------------------------------------------------------ alphabets, printing

def check_views(m):
    model, states = build_vp(m['spec'], m['t'], init=m['init'])
    ref = ref_of(m)
    i, c, r = set(), set(), set()
    n = m['spec']['n']
    for s in range(n):
        for x, a in enumerate(ref.I):
            if ref.d_int(s, x) != DEAD:
                i.add(a)
        for y, b in enumerate(ref.R):
            if m['t'] == 'vpa':
                if any(x != DEAD for x in m['spec']['ret'][s][y]):
                    r.add(b)
            else:
                for p in range(n):
                    for x, a in enumerate(ref.C):
                        if ref.d_ret(s, y, (p, x)) != DEAD:
                            r.add(b)
                            c.add(a)
        if m['t'] == 'vpa':
            for x, a in enumerate(ref.C):
                if ref.d_call(s, x)[0] != DEAD:
                    c.add(a)
    for al in (model.get_input_alphabet(), model.input_alphabet):
        expect((set(al.internal_alphabet), set(al.call_alphabet), set(al.return_alphabet)) == (i, c, r), 'wrong partition of the alphabet',
               got=[al.internal_alphabet, al.call_alphabet, al.return_alphabet])
        for l in (al.internal_alphabet, al.call_alphabet, al.return_alphabet):
            expect(len(l) == len(set(l)), 'a letter is listed twice', got=l)
        expect(list(al.get_merged_alphabet()) == list(al.internal_alphabet) + list(al.call_alphabet) + list(al.return_alphabet), 'wrong merged alphabet')
    if m['t'] == 'sevpa':
        # which states may push a letter: some state that the initial one reaches without pending calls can pop it
        todo = [ref.init]
        for s in todo:
            for x in [ref.d_int(s, i) for i in range(len(ref.I))] + [ref.d_ret(s, y, (p, x)) for y in range(len(ref.R)) for p in range(n) for x in range(len(ref.C))]:
                if x != DEAD and x not in todo:
                    todo.append(x)
        want = {(ref.C[x], states[p].state_id) for s in todo for y in range(len(ref.R)) for p in range(n) for x in range(len(ref.C)) if ref.d_ret(s, y, (p, x)) != DEAD}
        got = {(a, p) for a, ps in model.get_allowed_call_transitions().items() for p in ps}
        expect(got == want, 'wrong answer which states may push a letter', extra=sorted(got - want, key=repr), missing=sorted(want - got, key=repr))
    if m['t'] == 'vpa':
        used = [{a for a, l in s.transitions.items() if l} for s in states]
        full = all(u == i | c | r for u in used)
        model.reset_to_initial()
        for a in ref.al[:3]:
            model.step(a)  # looks up missing transitions
        expect(bool(model.is_input_complete()) is full, 'wrong answer about input completeness', expected=full)
    for s in states:
        for l in s.transitions.values():
            for tr in l:
                txt = str(tr)
                expect(str(tr.letter) in txt and str(tr.target_state.state_id) in txt, 'the text of a transition misses its letter or target', text=txt)
                if tr.stack_guard is not None:
                    expect(str(tr.stack_guard) in txt, 'the text of a transition misses its stack symbol', text=txt)
    for s in states:
        expect(model.get_state_by_id(s.state_id) is s, 'lookup by id fails')
    expect(model.get_state_by_id('nobody') is None, 'lookup of an unknown id')
    return bool(i or c or r), [m['t'], m['spec']['sk']]


# ------------------------------------------------------------------ balanced words

@st.composite
def bal_cases(draw):
    return {'spec': draw(vp(max_n=1)), 'raw': draw(st.lists(raw_word, min_size=1, max_size=5))}


def check_balanced(case):
    I, C, R = letters(case['spec'])
    ref = RefSevpa(case['spec'], 0)
    al = A.VpaAlphabet(list(I), list(C), list(R))
    n = 0
    for raw in case['raw']:
        w = concretise(ref, raw)
        d, ok = 0, True
        for a in w:
            d += (a in C) - (a in R)
            if d < 0:
                ok = False
                break
        ok = ok and d == 0
        n += ok and len(w) > 1
        expect(is_balanced(w, al) is ok, 'wrong answer about a well-matched word', word=w, expected=ok)
        model, _ = build_vp(case['spec'], 'vpa')
        if set(model.input_alphabet.call_alphabet) == set(C) and set(model.input_alphabet.return_alphabet) == set(R):
            expect(model.is_balanced(w) is ok, 'wrong answer about a well-matched word', word=w, expected=ok)
    return n > 0, ['balanced' if n else 'unbalanced']


# ------------------------------------------------------------------ generated words

@st.composite
def word_cases(draw):
    m = draw(machine())
    return {**m, 'num': draw(ints(1, 6)), 'min': draw(ints(0, 4)), 'prob': draw(st.sampled_from([0.5, 0.2, 0.8])), 'max': draw(ints(0, 10))}


def accepted_lengths(ref, need, min_len, cap, al):
    """lengths of the shortest accepted non-empty words, or None if fewer than need exist up to the cap"""
    res = []
    todo = deque([((), tuple([ref.init, ()]))])
    while todo:
        w, (s, stack) = todo.popleft()
        if len(w) >= cap:
            break
        for a in al:
            c = [s, list(stack)]
            ref.move(c, a)
            if c[0] == DEAD:
                continue
            v = w + (a,)
            if ref.value(c) and len(v) >= min_len:
                res.append(len(v))
                if len(res) >= need:
                    return res
            todo.append((v, (c[0], tuple(c[1]))))
    return None


def summary(ref):
    """states reachable by well-matched words, moves between them: internal, and (inner exit, return) for calls from a reachable state"""
    reach = [ref.init]
    while True:
        new = []
        for s in reach:
            for i in range(len(ref.I)):
                new.append(ref.d_int(s, i))
            for p in reach:
                for c in range(len(ref.C)):
                    for r in range(len(ref.R)):
                        new.append(ref.d_ret(s, r, (p, c)))
        new = [x for x in dict.fromkeys(new) if x != DEAD and x not in reach]
        if not new:
            return reach
        reach += new


def access_lengths(ref):
    L = {ref.init: 0}
    while True:
        new = dict(L)
        for s in L:
            for i in range(len(ref.I)):
                x = ref.d_int(s, i)
                if x != DEAD:
                    new[x] = min(new.get(x, 99), L[s] + 1)
            for p in L:
                for c in range(len(ref.C)):
                    for r in range(len(ref.R)):
                        x = ref.d_ret(s, r, (p, c))
                        if x != DEAD:
                            new[x] = min(new.get(x, 99), L[p] + L[s] + 2)
        if new == L:
            return L
        L = new


def check_words(case):
    ref = ref_of(case)
    model, states = build_vp(case['spec'], case['t'], init=case['init'])
    labels = [case['t']]
    if case['t'] == 'vpa':
        n = 0
        for _ in range(4):
            w = model.generate_random_accepting_word(case['min'], case['min'] + case['max'])
            if w is not None:
                n += 1
                expect(case['min'] <= len(w) <= case['min'] + case['max'], 'the generated word does not have the requested length', word=w)
                out, conf = run(ref, w)
                expect(ref.value(conf), 'the generated word is not accepted', word=w)
        # any accepted word can be generated: short ones are so likely in a random walk that they cannot be missed in many attempts
        top = 4
        low = min(case['min'], 2)
        tot = {}
        todo = [((), (ref.init, ()), 1.0)]
        for w, (s, stack), p in todo:
            if len(w) >= low and ref.value([s, list(stack)]):
                tot[w] = p
                continue
            if len(w) >= top - 1 or p < 0.1:
                continue
            enabled = []
            for a in ref.al:
                c = [s, list(stack)]
                ref.move(c, a)
                if c[0] != DEAD:
                    enabled.append((w + (a,), (c[0], tuple(c[1]))))
            todo += [(v, c, p / len(enabled)) for v, c in enabled]
        tot = {w: p for w, p in tot.items() if p >= 0.1}
        if tot:
            seen = set()
            for _ in range(300):
                w = model.generate_random_accepting_word(low, top)
                seen.add(None if w is None else tuple(w))
                if all(w in seen for w in tot):
                    break
            for w in tot:
                expect(w in seen, 'an accepted word is never generated', word=w, probability=tot[w], min=low, max=top, seen=sorted(map(str, seen)))
            labels.append(f'all_{min(len(tot), 3)}')
        return n > 0, labels + ['found' if n else 'none']
    al = model.input_alphabet.get_merged_alphabet()
    lens = accepted_lengths(ref, case['num'], case['min'], 5 if len(al) <= 4 else 4, al)
    done = 0
    if lens is not None:
        r = model.get_accepting_words_bfs(case['min'], case['num'])
        expect(r is not None and len(r) == case['num'] and len(set(map(tuple, r))) == len(r), f'not {case["num"]} different words', words=r)
        for w in r:
            out, conf = run(ref, w)
            expect(len(w) >= case['min'] and ref.value(conf), 'a generated word is too short or not accepted', word=w)
        expect([len(w) for w in r] == lens, 'the generated words are not the shortest ones', words=r, lengths=lens)
        labels.append('bfs')
        done += 1
    # random words: every state of the machine is reachable and can be completed to acceptance, so that generation ends
    reach = summary(ref)
    if len(reach) == ref.n and al:
        succ = {s: set() for s in reach}
        for s in reach:
            for i in range(len(ref.I)):
                succ[s].add(ref.d_int(s, i))
            for p in reach:
                for c in range(len(ref.C)):
                    for r in range(len(ref.R)):
                        succ[s].add(ref.d_ret(s, r, (p, c)))
        co = {s for s in reach if ref.acc(s)}
        while True:
            more = {s for s in reach if succ[s] & co} - co
            if not more:
                break
            co |= more
        live = all(succ[s] - {DEAD} for s in reach)
        # the generator searches access words of pushed states breadth-first and walks at random: keep the cost of a case small
        cheap = len(al) ** (max(access_lengths(ref).values()) + 1) <= 400 and len(reach) <= 3
        if len(co) == ref.n and live and cheap:
            for _ in range(2):
                w = model.get_random_accepting_word(case['prob'], case['min'])
                out, conf = run(ref, w)
                expect(len(w) >= case['min'], 'the random word is too short', word=w)
                expect(ref.value(conf), 'the random word is not accepted', word=w)
            labels.append('random')
            done += 1
    return done > 0, labels


# ------------------------------------------------------------------ access strings, sinks, daisy

@st.composite
def sevpa_cases(draw):
    return {**draw(machine(types=('sevpa',))), 'raw': draw(st.lists(raw_word, min_size=1, max_size=4)), 'sink': draw(st.booleans()), 'acc0': draw(st.booleans())}


def check_access(case):
    spec = case['spec']
    ref = ref_of(case)
    model, states = build_vp(spec, 'sevpa', init=case['init'])
    # shortest access words by a fixpoint
    acc = {case['init']: ()}
    changed = True
    while changed:
        changed = False
        for s in list(acc):
            for i, a in enumerate(ref.I):
                x = ref.d_int(s, i)
                if x != DEAD and x not in acc:
                    acc[x] = acc[s] + (a,)
                    changed = True
            for p in list(acc):
                for c in range(len(ref.C)):
                    for r in range(len(ref.R)):
                        x = ref.d_ret(s, r, (p, c))
                        if x != DEAD and x not in acc:
                            acc[x] = acc[p] + (ref.C[c],) + acc[s] + (ref.R[r],)
                            changed = True
    for s, w in acc.items():
        states[s].prefix = w
    n = 0
    known = set(model.input_alphabet.call_alphabet)
    for raw in case['raw']:
        w = concretise(ref, raw)
        for k in range(len(w) + 1):
            out, conf = run(ref, w[:k])
            if conf[0] == DEAD or any(a in ref.C and a not in known for a in w[:k]):
                break
            model.reset_to_initial()
            for a in w[:k]:
                model.step(a)
            r = model.transform_access_string(model.current_state)
            out2, conf2 = run(ref, r)
            expect(conf2 == conf, 'the transformed word does not lead to the same configuration', word=w[:k], transformed=r)
            r3 = model.transform_access_string(model.current_state, list(model.stack))
            expect(list(r3) == list(r), 'the transformed word depends on how the stack is given', got=r3)
            n += k > 1
    return n > 0, ['access']


def check_sink(case):
    spec = dict(case['spec'])
    if case['sink']:  # make the last state a sink: nothing leaves it and what was pushed there leads back to it
        z = spec['n'] - 1
        n = spec['n']
        spec['int'] = [[(z if s == z else x) for x in row] for s, row in enumerate(spec['int'])]
        spec['acc'] = [a if s != z else 0 for s, a in enumerate(spec['acc'])]
    model, states = build_vp(spec, 'sevpa', init=case['init'])
    if case['sink']:
        for s in states:
            for a, l in s.transitions.items():
                for tr in l:
                    if tr.stack_guard and (s is states[z] or tr.stack_guard[0] == states[z].state_id):
                        tr.target_state = states[z]
    ref = RefSevpa(spec, case['init'])
    before = ReadSevpa(model, ref)
    old = [(list(before.ti), list(before.tr), list(before.accs))]
    e = model.get_error_state()
    if e is not None:
        expect(any(e is s for s in model.states), 'the error state is not a state of the machine')
        expect(e is not model.initial_state and not e.is_accepting, 'the initial or an accepting state is reported as error state')
        expect(all(tr.target_state is e for l in e.transitions.values() for tr in l), 'the error state can be left', state=e.state_id)
    if case['sink'] and states[z] is not model.initial_state:
        expect(e is not None, 'the sink was not found')
    size = len(model.states)
    ids = {s.state_id: i for i, s in enumerate(model.states)}

    class Frozen:  # the machine before the deletion
        init, I, C, R = before.init, before.I, before.C, before.R
        ti = [dict(x) for x in before.ti]
        tr = [dict(x) for x in before.tr]
        accs = list(before.accs)
        names = [s.state_id for s in model.states]

        def acc(self, s):
            return s != DEAD and self.accs[s]

        def d_int(self, s, i):
            return DEAD if s == DEAD else self.ti[s].get(self.I[i], DEAD)

        def d_call(self, s, c):
            return (DEAD, None) if s == DEAD else (self.init, (self.names[s], self.C[c]))

        def d_ret(self, s, r, g):
            return DEAD if s == DEAD or g is None else self.tr[s].get((self.R[r], g), DEAD)

    model.delete_state(e)
    expect(len(model.states) == size - (e is not None), 'wrong number of states after the deletion')
    if e is not None:
        expect(e not in model.states and not any(t.target_state is e or t.stack_guard and t.stack_guard[0] == e.state_id for s in model.states for l in s.transitions.values() for t in l),
               'a transition refers to the deleted state', state=e.state_id)
    after = ReadSevpa(model, ref)
    w = vp_difference(Frozen(), after)
    expect(w is None, 'removing the error state changed the language', word=w)
    # deleting any other state takes away exactly the transitions that refer to it
    model, states = build_vp(spec, 'sevpa', init=case['init'])
    states = list(states)
    x = states[len(case['raw'][0]) % len(states)]
    if x is not model.initial_state:
        key = lambda s: sorted((str(l), id(t.target_state), str(t.stack_guard), str(t.action)) for l, ts in s.transitions.items() for t in ts)
        want = {s.state_id: sorted((str(l), id(t.target_state), str(t.stack_guard), str(t.action)) for l, ts in s.transitions.items() for t in ts
                                   if t.target_state is not x and not (t.stack_guard and t.stack_guard[0] == x.state_id)) for s in states if s is not x}
        model.delete_state(x)
        expect(len(model.states) == len(states) - 1 and x not in model.states, 'the state was not deleted')
        expect({s.state_id: key(s) for s in model.states} == want, 'deleting a state does not remove exactly the transitions that refer to it', deleted=x.state_id)
    return e is not None, ['sink' if e is not None else 'none']


def check_daisy(case):
    spec = case['spec']
    I, C, R = letters(spec)
    s = A.SevpaState('q0', case['acc0'])
    model = A.Sevpa.create_daisy_hypothesis(s, A.SevpaAlphabet(list(I), list(C), list(R)))
    ref = RefSevpa(dict(spec, n=1, int=[[0] * len(I)], ret=[[[0]] * len(R)], acc=[int(case['acc0'])], mix=0), 0)
    n = 0
    for raw in case['raw']:
        w = concretise(ref, raw)
        if any(a not in model.input_alphabet.get_merged_alphabet() for a in w):
            continue
        o = SevpaSUL(model).query(w)
        want, conf = run(ref, w)
        expect(o == (want or [ref.value(conf)]), 'the one-state hypothesis does not accept exactly the well-matched words', word=w, got=o)
        n += len(w) > 1
    return n > 0, ['daisy']


# ------------------------------------------------------------------ DFA over stack-annotated letters

@st.composite
def dfa_cases(draw):
    spec = draw(vp(max_n=1))
    I, C, R = letters(spec)
    al = len(I) + len(C) + len(R) * len(C)
    n = draw(ints(1, 4))
    return {'spec': spec, 'n': n, 'tr': [[draw(ints(-1, n - 1)) for _ in range(al)] for _ in range(n)], 'acc': [draw(ints(0, 1)) for _ in range(n)], 'init': draw(ints(0, n - 1)),
            'raw': draw(st.lists(raw_word, min_size=1, max_size=6))}


def check_from_dfa(case):
    I, C, R = letters(case['spec'])
    if case['spec']['sk'] == 'tuple':  # letters that are tuples are read as (return, stack symbol) pairs
        return False, ['tuple']
    al = I + C + [(r, c) for r in R for c in C]
    states = [A.DfaState(f'q{i}', bool(a)) for i, a in enumerate(case['acc'])]
    for s, row in zip(states, case['tr']):
        for a, x in zip(al, row):
            if x >= 0:
                s.transitions[a] = states[x]
    dfa = A.Dfa(states[case['init']], states)
    model = vpa_from_dfa_representation(dfa, A.VpaAlphabet(I, C, R))
    expect(isinstance(model, A.Vpa) and len(model.states) == len(states) and model.initial_state.state_id == states[case['init']].state_id, 'wrong machine')
    ref = RefSevpa(case['spec'], 0)
    n = 0
    for raw in case['raw']:
        w = concretise(ref, raw)
        s, stack, want = case['init'], [], []
        for a in w:
            if s is not None:
                if a in C:
                    stack.append(a)
                    key = a
                elif a in R:
                    key = (a, stack.pop()) if stack else None
                else:
                    key = a
                s = case['tr'][s][al.index(key)] if key is not None else None
                if s is not None and s < 0:
                    s = None
            want.append(s is not None and bool(case['acc'][s]) and not stack)
        o = SevpaSUL(model).query(w)
        want = want or [bool(case['acc'][case['init']])]
        expect(o == want, 'the pushdown machine does not do what the automaton over annotated letters does', word=w, got=o, expected=want)
        n += len(w) > 1
    return n > 0, ['from_dfa']


SUBS = [Sub('steps', step_cases(), check_steps, quick=6000), Sub('views', machine(), check_views, quick=2000), Sub('balanced', bal_cases(), check_balanced, quick=1500),
        Sub('words', word_cases(), check_words, quick=6000), Sub('access', sevpa_cases(), check_access, quick=2500), Sub('sink', sevpa_cases(), check_sink, quick=3000),
        Sub('daisy', sevpa_cases(), check_daisy, quick=800), Sub('from_dfa', dfa_cases(), check_from_dfa, quick=3000)]
