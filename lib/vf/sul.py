"""Reference systems and equivalence oracles used to drive the learners"""
import random as _random

from aalpy.base import SUL, Oracle

from vf.core import Violation, expect, HarnessError
from vf.ref import Det, ReadDet, first_difference


class RefSUL(SUL):
    """system simulated from a spec; records how it is used"""

    def __init__(self, spec, max_resets=60000, record=False):
        super().__init__()
        self.m = Det(spec)
        self.s = None
        self.resets = 0
        self.steps = 0
        self.none_steps = 0
        self.max_resets = max_resets
        self.log = [] if record else None
        self.open = False

    def pre(self):
        self.resets += 1
        if self.resets > self.max_resets:
            raise Violation(f'learning did not finish within {self.max_resets} resets of a {self.m.n}-state system')
        self.s = self.m.init
        self.open = True
        if self.log is not None:
            self.log.append([])

    def post(self):
        self.open = False

    def step(self, letter):
        expect(self.s is not None, 'system stepped before it was reset')
        m = self.m
        if letter is None and m.t != 'mealy':
            self.none_steps += 1
            return m.out[self.s]
        if letter not in m.idx:
            raise Violation(f'system received {letter!r}, which is not in its alphabet')
        self.steps += 1
        i = m.idx[letter]
        o = m.o(self.s, i)
        self.s = m.tr[self.s][i]
        if self.log is not None:
            self.log[-1].append((letter, o))
        return o


class PerfectOracle(Oracle):
    """never misses a difference; counterexamples end at their first difference but need not be shortest"""

    def __init__(self, sul, spec, mode=0, seed=0, max_calls=400, al=None):
        super().__init__(list(al if al is not None else Det(spec).al), sul)
        self.m = Det(spec)
        self.mode = mode  # 0 shortest, otherwise length of random words tried first
        self.rng = _random.Random(seed)
        self.calls = 0
        self.max_calls = max_calls
        self.sizes = []
        self.cexs = []

    def find_cex(self, hypothesis):
        self.calls += 1
        expect(self.calls <= self.max_calls, f'more than {self.max_calls} equivalence queries for a {self.m.n}-state system')
        h = ReadDet(hypothesis, self.m.t, self.m.al)
        self.sizes.append(h.listed)
        hypothesis.reset_to_initial()
        w = first_difference(self.m, h)
        if w is None:
            return None
        if self.mode:
            for _ in range(60):
                x = tuple(self.rng.choice(self.m.al) for _ in range(self.mode))
                a, b = self.m.run(x), h.run(x)
                d = next((i for i in range(len(x)) if a[i] != b[i]), None)
                if d is not None:
                    w = x[:d + 1]
                    break
        self.cexs.append(w)
        return w
