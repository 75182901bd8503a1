"""construction of aalpy equivalence oracles from JSON parameters"""
import random

from hypothesis import strategies as st

from aalpy.base.SUL import CacheSUL
from aalpy import oracles as O
from aalpy.oracles.WMethodEqOracle import RandomWMethodEqOracle, WMethodEqOracle
from aalpy.oracles.WpMethodEqOracle import RandomWpMethodEqOracle, WpMethodEqOracle

from vf.core import HarnessError
from vf.gen import ints
from vf.ref import Det, build

DET_ORACLES = ['RandomWalk', 'RandomWord', 'StatePrefix', 'TransitionFocus', 'Pac', 'KWayState', 'KWayTransition', 'BFS', 'WMethod', 'Wp', 'RandomW', 'RandomWp',
               'CacheBased', 'Provided', 'Perfect']


@st.composite
def oracle_params(draw, names=DET_ORACLES, k=2):
    n = draw(st.sampled_from(list(names)))
    p = {'name': n, 'seed': draw(ints(0, 9999))}
    b = st.booleans()
    if n == 'RandomWalk':
        p.update(num_steps=draw(ints(1, 120)), reset_after_cex=draw(b), reset_prob=draw(st.sampled_from([0.0, 0.1, 0.5, 0.9])))
    elif n == 'RandomWord':
        lo = draw(ints(1, 6))
        p.update(num_walks=draw(ints(1, 15)), min_walk_len=lo, max_walk_len=lo + draw(ints(0, 8)), reset_after_cex=draw(b))
    elif n == 'StatePrefix':
        p.update(walks_per_state=draw(ints(1, 5)), walk_len=draw(ints(1, 8)), max_tests=draw(st.sampled_from([None, None, None, 3, 10])), depth_first=draw(b))
    elif n == 'TransitionFocus':
        p.update(num_random_walks=draw(ints(1, 12)), walk_len=draw(ints(1, 8)), same_state_prob=draw(st.sampled_from([0.0, 0.2, 0.5, 1.0])))
    elif n == 'Pac':
        p.update(epsilon=draw(st.sampled_from([0.5, 0.3])), delta=draw(st.sampled_from([0.5, 0.2])), min_walk_len=1, max_walk_len=draw(ints(1, 8)))
    elif n == 'KWayState':
        p.update(k=draw(ints(2, 3)), random_walk_len=draw(ints(1, 6)), method=draw(st.sampled_from(['permutations', 'combinations'])))
    elif n == 'KWayTransition':
        kk = draw(ints(2, 3))
        p.update(k=kk, method=draw(st.sampled_from(['random', 'prefix'])), num_generate_paths=draw(ints(1, 25)), max_path_len=kk + draw(ints(0, 8)),
                 max_number_of_steps=0, optimize=draw(st.sampled_from(['steps', 'queries'])), random_walk_len=draw(ints(0, 4)))
    elif n == 'BFS':
        p.update(depth=draw(ints(1, 4)))
    elif n in ('WMethod', 'Wp'):
        p.update(extra=draw(ints(0, 2)))
        if n == 'WMethod':
            p.update(shuffle_test_set=draw(b))
    elif n == 'RandomW':
        p.update(walks_per_state=draw(ints(1, 5)), walk_len=draw(ints(1, 8)))
    elif n == 'RandomWp':
        p.update(min_length=draw(ints(0, 3)), expected_length=draw(ints(1, 5)), num_tests=draw(ints(1, 20)))
    elif n == 'CacheBased':
        p.update(num_walks=draw(ints(1, 15)), depth_increase=draw(ints(0, 4)), reset_after_cex=draw(b))
    elif n == 'Provided':
        p.update(words=draw(st.lists(st.lists(ints(0, k - 1), min_size=1, max_size=5), max_size=4)))
    return p


def make_oracle(p, alphabet, sul, n_states, spec=None):
    """n_states: number of states of the (first) hypothesis, used for W/Wp bounds"""
    q = {k: v for k, v in p.items() if k not in ('name', 'seed', 'extra', 'words')}
    n = p['name']
    if n == 'WMethod':
        return WMethodEqOracle(alphabet, sul, max_number_of_states=n_states + p['extra'], **q)
    if n == 'Wp':
        return WpMethodEqOracle(alphabet, sul, max_number_of_states=n_states + p['extra'])
    if n == 'Provided':
        inner = O.RandomWordEqOracle(alphabet, sul, num_walks=3, min_walk_len=1, max_walk_len=4)
        return O.ProvidedSequencesOracleWrapper(alphabet, sul, inner, [[alphabet[i] for i in w] for w in p['words']])
    if n == 'Perfect':
        return O.PerfectKnowledgeEqOracle(alphabet, sul, build(spec)[0])
    cls = {'RandomWalk': O.RandomWalkEqOracle, 'RandomWord': O.RandomWordEqOracle, 'StatePrefix': O.StatePrefixEqOracle, 'TransitionFocus': O.TransitionFocusOracle,
           'Pac': O.PacOracle, 'KWayState': O.KWayStateCoverageEqOracle, 'KWayTransition': O.KWayTransitionCoverageEqOracle, 'BFS': O.BreadthFirstExplorationEqOracle,
           'RandomW': RandomWMethodEqOracle, 'RandomWp': RandomWpMethodEqOracle, 'CacheBased': O.CacheBasedEqOracle}.get(n)
    if cls is None:
        raise HarnessError(n)
    return cls(alphabet, sul, **q)
