"""Reference models, written independently of aalpy: plain transition tables over symbol indexes.

Deterministic machine spec (JSON): {"t": "dfa|moore|mealy", "n", "k", "tr": [[..]], "out": [..] | [[..]], "init",
"sk": symbol kind, "ok": output kind}.
"""
from collections import deque

from vf.core import Violation, expect, HarnessError

# ------------------------------------------------------------------ symbols

_STR = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h']
_LONG = ['push_1', 'coin', 'in put', 'X', 'x', 'tea!', 'q0', 'ab']
_MIX = [0, 'b', 2, 'd', (1, 'x'), 'f', -1, frozenset((1,))]


def sym(kind, i):
    if i > 7 and kind not in ('int', 'tuple', 'bool'):  # large alphabets
        return {'neg': i, 'mixed': ('m', i), 'bigint': 1000 + i, 'text': str(i), 'file': f'in{i}', 'file2': f'in{i}'}.get(kind, f'a{i}')
    if kind == 'str':
        return _STR[i]
    if kind == 'int':
        return i
    if kind == 'neg':
        return [0, 1, -1, 2, -2, 3, -3, 4][i]
    if kind == 'tuple':
        return ('in', i)
    if kind == 'word':
        return _LONG[i]
    if kind == 'mixed':
        return _MIX[i]
    if kind == 'text':
        return ['1', 1, '0', 0, 'None', '-1', -1, 'q0'][i]
    if kind == 'bool':
        return [False, True][i]
    if kind == 'file':
        return ['coin', 'in put', 'tea!', 'x-y', 'a.b', 'ok()', '#1', 'e'][i]
    if kind == 'file2':
        return ['n' * 100, 'k=v', '1.5', '-1', '@', 'é', '<', ';'][i]
    if kind == 'bigint':
        return [7, 10, 0, 123, 5, 6, 1, 2][i]
    raise HarnessError(kind)


SYM_KINDS = ['str', 'int', 'tuple', 'word', 'mixed', 'neg', 'text']


def osym(kind, i):
    """output symbols; kinds chosen so that falsy outputs occur"""
    if i > 7 and kind not in ('int', 'tuple', 'bool', 'text'):  # large alphabets
        return {'mixed': ('m', i), 'bigint': 100 + i}.get(kind, f'o{i}')
    if kind == 'str':
        return ['x', 'y', 'z', 'u', 'v', 'w', 'p', 'q'][i]
    if kind == 'int':
        return i
    if kind == 'bool':
        return [False, True][i]
    if kind == 'tuple':
        return ('o', i)
    if kind == 'file':
        return ['OK', 'no way', 'a/b', 'end.', 'v(1)', 'w', 'p', 'q'][i]
    if kind == 'file2':
        return ['left|right', 'y' * 110, '1.5', '-1', 'é', '<', ';', 'k=v'][i]
    if kind == 'bigint':
        return [0, 10, 3, 12, 4, 5, 6, 7][i]
    if kind == 'mixed':
        return [0, 'y', ('o', 2), -1, '', 5, 'p', 'q'][i]
    if kind == 'text':
        return ([1, '1', 0, '0', -1, '-1', 'None', 'q0'] + list(range(20, 40)))[i]
    if kind == 'empty':
        return ['', 'y', 'z', 'u', 'v', 'w', 'p', 'q'][i]
    raise HarnessError(kind)


def alphabet(spec):
    return [sym(spec['sk'], i) for i in range(spec['k'])]


# ------------------------------------------------------------------ deterministic reference

class Det:
    """reference machine over concrete symbols"""

    def __init__(self, spec):
        self.t = spec['t']
        self.n, self.k = spec['n'], spec['k']
        self.tr, self.init = spec['tr'], spec.get('init', 0)
        self.al = alphabet(spec)
        self.idx = {a: i for i, a in enumerate(self.al)}
        if self.t == 'dfa':
            self.out = [bool(x) for x in spec['out']]
        elif self.t == 'moore':
            self.out = [osym(spec['ok'], x) for x in spec['out']]
        else:
            self.out = [[osym(spec['ok'], x) for x in row] for row in spec['out']]

    def run(self, word, state=None):
        """outputs after each letter; for the empty word the initial output for dfa/moore"""
        s = self.init if state is None else state
        if len(word) == 0:
            return [self.out[s]] if self.t != 'mealy' else []
        res = []
        for a in word:
            i = self.idx[a]
            if self.t == 'mealy':
                res.append(self.out[s][i])
                s = self.tr[s][i]
            else:
                s = self.tr[s][i]
                res.append(self.out[s])
        return res

    def target(self, word, state=None):
        s = self.init if state is None else state
        for a in word:
            s = self.tr[s][self.idx[a]]
        return s

    def state_sig(self, s):
        return None if self.t == 'mealy' else self.out[s]

    def o(self, s, i):
        return self.out[s][i] if self.t == 'mealy' else self.out[self.tr[s][i]]

    def reachable(self):
        seen = [self.init]
        st = {self.init}
        for s in seen:
            for x in self.tr[s]:
                if x not in st:
                    st.add(x)
                    seen.append(x)
        return seen

    def classes(self, states=None):
        """partition refinement on reachable states: state -> class id"""
        states = self.reachable() if states is None else states

        def num(sigs):
            ids, r = {}, {}
            for s in states:
                r[s] = ids.setdefault(sigs[s], len(ids))
            return r, len(ids)

        if self.t == 'mealy':
            sig = {s: tuple(map(_key, self.out[s])) for s in states}
        else:
            sig = {s: _key(self.out[s]) for s in states}
        cl, m = num(sig)
        while True:
            sig = {s: (cl[s],) + tuple(cl[x] for x in self.tr[s]) for s in states}
            cl2, m2 = num(sig)
            if m2 == m:
                return cl
            cl, m = cl2, m2

    def min_size(self):
        return len(set(self.classes().values()))

    def access(self):
        acc = {self.init: ()}
        q = deque([self.init])
        while q:
            s = q.popleft()
            for i, x in enumerate(self.tr[s]):
                if x not in acc:
                    acc[x] = acc[s] + (self.al[i],)
                    q.append(x)
        return acc


def _key(x):
    # True == 1 in Python and AALpy compares with ==; keep that semantics
    return x


def first_difference(a, b, sa=None, sb=None):
    """shortest word on which two Det-like machines (same alphabet) differ, or None. () = differ initially."""
    sa = a.init if sa is None else sa
    sb = b.init if sb is None else sb
    if a.t != 'mealy' and a.out[sa] != b.out[sb]:
        return ()
    seen = {(sa, sb)}
    q = deque([(sa, sb, ())])
    while q:
        x, y, w = q.popleft()
        for i, s in enumerate(a.al):
            j = b.idx[s]
            if a.o(x, i) != b.o(y, j):
                return w + (s,)
            nx = (a.tr[x][i], b.tr[y][j])
            if nx not in seen:
                seen.add(nx)
                q.append(nx + (w + (s,),))
    return None


def minimal_spec(spec):
    """reachable minimised spec with BFS numbering (reference implementation)"""
    d = Det(spec)
    cl = d.classes()
    rep = {}
    order = []
    for s in d.reachable():
        if cl[s] not in rep:
            rep[cl[s]] = s
            order.append(cl[s])
    num = {c: i for i, c in enumerate(order)}
    tr = [[num[cl[x]] for x in spec['tr'][rep[c]]] for c in order]
    out = [spec['out'][rep[c]] for c in order]
    r = dict(spec)
    r.update(n=len(order), tr=tr, out=out, init=0)
    return r


# ------------------------------------------------------------------ reading an aalpy model

class ReadDet(Det):
    """Det view of an aalpy DFA/Moore/Mealy, built only from its public transition tables"""

    def __init__(self, model, t, al, require_states=True):
        self.t, self.al, self.k = t, list(al), len(al)
        self.idx = {a: i for i, a in enumerate(self.al)}
        if model is None:
            raise Violation('no model returned')
        init = getattr(model, 'initial_state', None)
        expect(init is not None, 'model has no initial state')
        order = [init]
        num = {id(init): 0}
        self.tr, self.out = [], []
        i = 0
        while i < len(order):
            s = order[i]
            row = []
            for a in self.al:
                nxt = s.transitions.get(a) if hasattr(s.transitions, 'get') else None
                expect(nxt is not None, f'model is not input complete: no transition for {a!r}')
                if id(nxt) not in num:
                    num[id(nxt)] = len(order)
                    order.append(nxt)
                    expect(len(order) < 5000, 'model does not have a finite reachable state set of sane size')
                row.append(num[id(nxt)])
            extra = [a for a in s.transitions if a not in self.idx]
            expect(not extra, f'model has transitions on symbols outside the alphabet: {extra!r}')
            self.tr.append(row)
            if t == 'mealy':
                o = []
                for a in self.al:
                    expect(a in s.output_fun, f'Mealy state has no output for {a!r}')
                    o.append(s.output_fun[a])
                self.out.append(o)
            elif t == 'moore':
                self.out.append(s.output)
            else:
                expect(s.is_accepting in (True, False), f'acceptance is {s.is_accepting!r}')
                self.out.append(bool(s.is_accepting))
            i += 1
        self.states = order
        self.n = len(order)
        self.init = 0
        if require_states:
            ids = {id(s) for s in model.states}
            expect(len(ids) == len(model.states), 'model lists a state twice')
            for s in order:
                expect(id(s) in ids, 'a reachable state is missing from the model state list')
        self.listed = len(model.states)

    def index_of(self, state):
        for i, s in enumerate(self.states):
            if s is state:
                return i
        raise Violation('state is not one of the model states')


TYPE_CLASS = {'dfa': 'Dfa', 'moore': 'MooreMachine', 'mealy': 'MealyMachine'}


def check_type(model, t):
    expect(type(model).__name__ == TYPE_CLASS[t], f'returned a {type(model).__name__}, requested {t}')


def check_exact(model, spec, minimal=True, what='learned model'):
    """model is equivalent to the reference and (optionally) minimal; returns ReadDet"""
    d = Det(spec)
    check_type(model, spec['t'])
    r = ReadDet(model, spec['t'], d.al)
    w = first_difference(d, r)
    expect(w is None, f'{what} differs from the system', word=w, system=d.run(w or ()), model=r.run(w or ()))
    if minimal:
        m = d.min_size()
        expect(r.listed == m, f'{what} has {r.listed} states, minimal is {m}')
        expect(r.n == m, f'{what} has {r.n} reachable states, minimal is {m}')
    return r


# ------------------------------------------------------------------ building aalpy models from specs

def build(spec, id_fmt='s{}', order=None):
    from aalpy.automata import Dfa, DfaState, MooreMachine, MooreState, MealyMachine, MealyState
    d = Det(spec)
    cls, scls = {'dfa': (Dfa, DfaState), 'moore': (MooreMachine, MooreState), 'mealy': (MealyMachine, MealyState)}[d.t]
    states = []
    for i in range(d.n):
        s = scls(id_fmt.format(i)) if d.t == 'mealy' else scls(id_fmt.format(i), d.out[i])
        states.append(s)
    for i, s in enumerate(states):
        for j, a in enumerate(d.al):
            s.transitions[a] = states[d.tr[i][j]]
            if d.t == 'mealy':
                s.output_fun[a] = d.out[i][j]
    lst = states if order is None else [states[i] for i in order]
    return cls(states[d.init], list(lst)), states
