"""Helpers for learning observable nondeterministic machines: fair system, exact comparison, minimal size, perfect oracle"""
import random
from collections import deque

from aalpy.base import SUL, Oracle

from vf.core import Violation, expect, HarnessError
from vf.stoch import Nd, read_nd


class Skip(BaseException):
    """the fairness assumption of the property cannot be guaranteed for this case"""


class FairNdSUL(SUL):
    """every outcome is produced equally often after every observable history (round robin per history and input)"""

    def __init__(self, spec, seed=0, max_steps=3_000_000, order=None):
        super().__init__()
        self.m = Nd(spec)
        self.rng = random.Random(seed)
        self.count = {}
        self.s = None
        self.hist = None
        self.traces = set()
        self.steps = 0
        self.max_steps = max_steps
        self.resets = 0

    def pre(self):
        self.s, self.hist = self.m.init, ()
        self.resets += 1

    def post(self):
        pass

    def step(self, letter):
        expect(self.s is not None, 'system stepped before reset')
        expect(letter in self.m.idx, f'unknown input {letter!r}')
        self.steps += 1
        if self.steps > self.max_steps:
            raise Violation(f'more than {self.max_steps} steps')
        cell = self.m.tr[self.s][self.m.idx[letter]]
        key = (self.hist, letter)
        c = self.count.setdefault(key, [self.rng.randrange(len(cell)), 0])
        o, self.s, _ = cell[(c[0] + c[1]) % len(cell)]
        c[1] += 1
        self.hist = self.hist + ((letter, o),)
        self.traces.add(self.hist)
        return o


class SparseNdSUL(FairNdSUL):
    """outcomes are drawn at random, so that a few samples may miss some of them; gives up after a number of steps"""

    def step(self, letter):
        expect(self.s is not None, 'system stepped before reset')
        expect(letter in self.m.idx, f'unknown input {letter!r}')
        self.steps += 1
        if self.steps > self.max_steps:
            raise Skip()
        o, self.s, _ = self.rng.choice(self.m.tr[self.s][self.m.idx[letter]])
        self.hist += ((letter, o),)
        self.traces.add(self.hist)
        return o


def difference(m, init_m, table, init_t, al):
    """shortest ([inputs], [outputs], kind) that exactly one side can produce; kind 'missing' (only m) or 'extra' (only the table); both sides observable or not (subset construction)"""
    start = (frozenset([init_m]), frozenset([init_t]))
    seen = {start}
    q = deque([(start, (), ())])
    while q:
        (a, b), ins, outs = q.popleft()
        for i, x in enumerate(al):
            oa = m.outputs(a, i)
            ob = list(dict.fromkeys(c[0] for s in b for c in table[s].get(x, [])))
            for o in oa:
                if o not in ob:
                    return list(ins) + [x], list(outs) + [o], 'missing'
            for o in ob:
                if o not in oa:
                    return list(ins) + [x], list(outs) + [o], 'extra'
            for o in oa:
                na = m.succ(a, i, o)
                nb = frozenset(c[1] for s in b for c in table[s].get(x, []) if c[0] == o)
                if (na, nb) not in seen:
                    seen.add((na, nb))
                    q.append(((na, nb), ins + (x,), outs + (o,)))
    return None


def classes(table, states):
    """number of trace classes of an observable table (partition refinement); table[s] {input: [(out, target, p)]}"""
    cls = {s: 0 for s in states}
    n = 1
    while True:
        sig = {s: (cls[s], frozenset((x, c[0], cls[c[1]]) for x, lst in table[s].items() for c in lst)) for s in states}
        ids = {}
        new = {s: ids.setdefault(sig[s], len(ids)) for s in states}
        if len(ids) == n:
            return n, new
        n, cls = len(ids), new


def ref_table(m):
    return [{a: [(o, t, w) for o, t, w in m.tr[s][i] if w] for i, a in enumerate(m.al)} for s in range(m.n)]


class PerfectNdOracle(Oracle):
    """returns a shortest difference as (inputs, outputs); executes it on the system until it (or all other outcomes) was observed"""

    def __init__(self, spec, al, sul, n_sampling, kind='onfsm', extra=True):
        super().__init__(list(al), sul)
        self.m = Nd(spec)
        self.kind = kind
        self.n = n_sampling
        self.calls = 0
        self.extra = extra
        self.branch = max(len(c) for row in self.m.tr for c in row)
        self.found = []

    def find_cex(self, hypothesis):
        self.calls += 1
        if self.calls > 400:
            raise Violation('more than 400 equivalence queries')
        _, _, tr, init = read_nd(hypothesis, self.kind)
        d = difference(self.m, self.m.init, tr, init, self.m.al)
        if d is None:
            return None
        ins, outs, kind = d
        if need(self.m, ins) > self.n:
            raise Skip()
        tries = 0
        while True:
            got = self.sul.query(tuple(ins))
            self.num_queries += 1
            self.num_steps += len(ins)
            tries += 1
            if (kind == 'missing' and list(got) == list(outs)) or (kind == 'extra' and tries >= need(self.m, ins)):
                break
            if tries > 5000:
                raise HarnessError('a possible trace is never observed')
        self.found.append((ins, outs, kind))
        return ins, outs


def need(m, ins):
    """visits after which a fair system has shown every outcome of the word from any state"""
    best = 1
    for s in range(m.n):
        cur, prod = {s}, 1
        for a in ins:
            i = m.idx[a]
            prod *= max(len(m.tr[x][i]) for x in cur)
            cur = {t for x in cur for _, t, _ in m.tr[x][i]}
        best = max(best, prod)
    return best
