"""Reference visibly pushdown machines, independent of aalpy.

spec: {"n", "ni", "nc", "nr", "ng", "int": [[t|-1]], "call": [[[t, g]]], "ret": [[[t|-1 per g] per r] per s], "acc": [..],
       "sk": letter naming, "excl": null | [r per c]}.  Acceptance: accepting state and empty stack; an impossible move is final.
"""
import heapq

from hypothesis import strategies as st

from vf import gen
from vf.core import Violation, expect
from vf.gen import ints

DEAD = -1


def letters(spec):
    sk = spec['sk']
    ni, nc, nr = spec['ni'], spec['nc'], spec['nr']
    if sk == 'str':
        return [f'i{x}' for x in range(ni)], [f'c{x}' for x in range(nc)], [f'r{x}' for x in range(nr)]
    if sk == 'paren':
        return list('abc'[:ni]), list('([{'[:nc]), list(')]}'[:nr])
    if sk == 'int':
        return list(range(ni)), list(range(ni, ni + nc)), list(range(ni + nc, ni + nc + nr))
    if sk == 'pp':  # letters that contain the action names of the file format
        return ['pop', 'pushup'][:ni], ['push', 'popcorn'][:nc], ['pop_it', 'unpush'][:nr]
    return [('i', x) for x in range(ni)], [('c', x) for x in range(nc)], [('r', x) for x in range(nr)]


class Vp:
    def __init__(self, spec):
        self.spec = spec
        self.I, self.C, self.R = letters(spec)
        self.kind = {}
        for x, a in enumerate(self.I):
            self.kind[a] = ('i', x)
        for x, a in enumerate(self.C):
            self.kind[a] = ('c', x)
        for x, a in enumerate(self.R):
            self.kind[a] = ('r', x)
        self.al = self.I + self.C + self.R
        self.init = 0

    def acc(self, s):
        return s != DEAD and bool(self.spec['acc'][s])

    def d_int(self, s, i):
        return DEAD if s == DEAD else self.spec['int'][s][i]

    def d_call(self, s, c):
        """(target, stack symbol)"""
        if s == DEAD:
            return DEAD, None
        t, g = self.spec['call'][s][c]
        return (t, g) if t != DEAD else (DEAD, None)

    def d_ret(self, s, r, g):
        return DEAD if s == DEAD or g is None else self.spec['ret'][s][r][g]

    def start(self):
        return [self.init, []]

    def move(self, conf, a):
        k, x = self.kind[a]
        s, stack = conf
        if s == DEAD:
            return
        if k == 'i':
            conf[0] = self.d_int(s, x)
        elif k == 'c':
            t, g = self.d_call(s, x)
            conf[0] = t
            stack.append(g)
        elif not stack:
            conf[0] = DEAD
        else:
            conf[0] = self.d_ret(s, x, stack.pop())

    def value(self, conf):
        return self.acc(conf[0]) and not conf[1]

    def run(self, word):
        conf = self.start()
        if not word:
            return [self.value(conf)]
        out = []
        for a in word:
            self.move(conf, a)
            out.append(self.value(conf))
        return out

    def accepts(self, word):
        return self.run(word)[-1]

    def monoid(self, cap):
        """number of distinct effects of well matched words (functions on states incl. dead); None if above cap"""
        n = self.spec['n']
        ident = tuple(range(n))
        elems = {ident}
        todo = [ident]
        gens = [tuple(self.d_int(s, i) for s in range(n)) for i in range(len(self.I))]

        def comp(f, g):  # f then g
            return tuple(DEAD if x == DEAD else g[x] for x in f)

        seen_g = list(dict.fromkeys(gens))
        i = 0
        while True:
            new = []
            for f in list(elems):
                for g in seen_g:
                    h = comp(f, g)
                    if h not in elems:
                        elems.add(h)
                        new.append(h)
                if len(elems) > cap:
                    return None
            for f in list(elems):
                for c in range(len(self.C)):
                    for r in range(len(self.R)):
                        h = []
                        for s in range(n):
                            t, g = self.d_call(s, c)
                            t = DEAD if t == DEAD else f[t]
                            h.append(self.d_ret(t, r, g))
                        h = tuple(h)
                        if h not in seen_g:
                            seen_g.append(h)
                            new.append(h)
            if len(seen_g) > cap:
                return None
            if not new:
                return len(elems)


class ReadSevpa:
    """the language of an aalpy Sevpa read from its transition lists (calls go to the initial state)"""

    def __init__(self, model, ref):
        self.model = model
        self.ids = {}
        init = model.initial_state
        expect(any(s is init for s in model.states), 'initial state is not among the states')
        for i, s in enumerate(model.states):
            expect(s.state_id not in self.ids, f'two states share the id {s.state_id!r}')
            self.ids[s.state_id] = i
        self.init = self.ids[init.state_id]
        self.accs = [bool(s.is_accepting) for s in model.states]
        self.I, self.C, self.R = ref.I, ref.C, ref.R
        self.ti, self.tr = [], []
        known_c = set()
        for s in model.states:
            ri, rr = {}, {}
            for a, lst in s.transitions.items():
                for t in lst:
                    expect(t.letter == a, 'transition stored under another letter')
                    expect(t.target_state.state_id in self.ids and model.states[self.ids[t.target_state.state_id]] is t.target_state,
                           'transition to a state that is not in the model')
                    tgt = self.ids[t.target_state.state_id]
                    if t.action == 'pop':
                        expect(a in self.R, f'pop transition on {a!r}')
                        g = tuple(t.stack_guard)
                        expect(g[1] in self.C, 'stack guard without a call letter')
                        known_c.add(g[1])
                        expect((a, g) not in rr or rr[(a, g)] == tgt, 'two different pop transitions for one letter and stack symbol')
                        rr[(a, g)] = tgt
                    else:
                        expect(a in self.I, f'internal transition on {a!r}')
                        expect(a not in ri or ri[a] == tgt, 'two different internal transitions for one letter')
                        ri[a] = tgt
            self.ti.append(ri)
            self.tr.append(rr)
        self.n = len(model.states)

    def acc(self, s):
        return s != DEAD and self.accs[s]

    def d_int(self, s, i):
        return DEAD if s == DEAD else self.ti[s].get(self.I[i], DEAD)

    def d_call(self, s, c):
        if s == DEAD:
            return DEAD, None
        return self.init, (self.model.states[s].state_id, self.C[c])

    def d_ret(self, s, r, g):
        return DEAD if s == DEAD or g is None else self.tr[s].get((self.R[r], g), DEAD)


def vp_difference(a, b, cap=20000):
    """shortest well-matched word on which acceptance differs, or None; a, b offer init/acc/d_int/d_call/d_ret over the same letters"""
    top = ('top',)
    start = (a.init, b.init)
    best = {}  # (entry, cur) -> length
    heap = []
    cnt = 0
    wit = {}
    exits = {}   # entry -> list of (cur) settled
    waiting = {}  # entry -> list of (outer entry, outer cur, c, ga, gb)

    def push(entry, cur, word):
        nonlocal cnt
        key = (entry, cur)
        if key not in best or len(word) < best[key]:
            best[key] = len(word)
            cnt += 1
            heapq.heappush(heap, (len(word), cnt, entry, cur, word))

    def close(outer, word, c, ga, gb, cur, inner):
        for r in range(len(a.R)):
            push(outer, (a.d_ret(cur[0], r, ga), b.d_ret(cur[1], r, gb)), word + (a.C[c],) + inner + (a.R[r],))

    push(top, start, ())
    settled = set()
    while heap:
        ln, _, entry, cur, word = heapq.heappop(heap)
        if (entry, cur) in settled:
            continue
        settled.add((entry, cur))
        wit[(entry, cur)] = word
        if entry == top and a.acc(cur[0]) != b.acc(cur[1]):
            return word
        if cur == (DEAD, DEAD):
            continue
        for i in range(len(a.I)):
            push(entry, (a.d_int(cur[0], i), b.d_int(cur[1], i)), word + (a.I[i],))
        for c in range(len(a.C)):
            ta, ga = a.d_call(cur[0], c)
            tb, gb = b.d_call(cur[1], c)
            e2 = (ta, tb)
            waiting.setdefault(e2, []).append((entry, word, c, ga, gb))
            if e2 not in exits:
                exits[e2] = []
                push(e2, e2, ())
            for x in exits[e2]:
                close(entry, word, c, ga, gb, x, wit[(e2, x)])
        if entry != top:
            exits[entry].append(cur)
            for (o, w, c, ga, gb) in waiting[entry]:
                close(o, w, c, ga, gb, cur, word)
    return None


@st.composite
def vp(draw, max_n=3, max_i=2, max_c=2, max_r=2, max_g=2, min_i=0, excl=True, partial=None, min_n=1):
    n = draw(ints(min_n, max_n))
    ni, nc, nr = draw(ints(min_i, max_i)), draw(ints(1, max_c)), draw(ints(1, max_r))
    ng = draw(ints(1, max_g))
    p = draw(st.sampled_from([0, 0, 1, 3])) if partial is None else partial  # out of 6: missing moves

    def tgt():
        if p and draw(ints(0, 5)) < p:
            return DEAD
        return draw(ints(0, n - 1))

    spec = {'n': n, 'ni': ni, 'nc': nc, 'nr': nr, 'ng': ng, 'sk': draw(st.sampled_from(['str', 'paren', 'int', 'tuple'])), 'excl': None}
    spec['int'] = [[tgt() for _ in range(ni)] for _ in range(n)]
    if draw(st.booleans()):
        spec['ng'] = ng = nc
        spec['call'] = [[[draw(ints(0, n - 1)), c] for c in range(nc)] for _ in range(n)]
    else:
        spec['call'] = [[[tgt() if p else draw(ints(0, n - 1)), draw(ints(0, ng - 1))] for c in range(nc)] for _ in range(n)]
    spec['ret'] = [[[tgt() for _ in range(ng)] for _ in range(nr)] for _ in range(n)]
    if excl and draw(ints(0, 3)) == 0:
        # every call letter has exactly one return letter; the stack symbol is the call letter
        spec['excl'] = [draw(ints(0, nr - 1)) for _ in range(nc)]
        spec['ng'] = nc
        spec['call'] = [[[spec['call'][s][c][0], c] for c in range(nc)] for s in range(n)]
        spec['ret'] = [[[(tgt() if spec['excl'][g] == r else DEAD) for g in range(nc)] for r in range(nr)] for _ in range(n)]
    acc = [draw(ints(0, 1)) for _ in range(n)]
    spec['acc'] = acc
    return spec
