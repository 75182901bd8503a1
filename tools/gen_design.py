#!/usr/bin/env python3
"""writes tools/technique.json and the per-property part of DESIGN.md (between the BEGIN/END markers) from the texts below and the checks"""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# id: (technique, oracle, why the tests cannot, notes)
D = {
'C01': ('reference model: product construction against the generating transition table',
        'The learned model is compared with the generating table by a product construction (decides equality for all words); number of states = number of classes of an own partition refinement; access words, suffix set and returned numbers are checked; every hypothesis shown to the oracle must agree with all answers so far.',
        'Needs separating words of particular length, early wrong hypotheses and option combinations; tests use a handful of fixed machines.', ''),
'C02': ('reference model: product construction against the generating transition table', 'as C01, for every counterexample strategy; hypotheses shown to the oracle must grow and be minimal.', 'as C01', ''),
'C03': ('reference model: product construction against the generating transition table', 'as C01; extension/separation rules, prior samples, round limits.', 'as C01', ''),
'C04': ('reference model: product construction against the generating transition table', 'as C03 with any set of reference models; the result may not depend on them.', 'References that are almost right, over other alphabets or with unreachable parts are never sampled by tests.', ''),
'C05': ('reference model: independent stack machine', 'The learned 1-SEVPA is compared with an independent visibly pushdown machine: exhaustively through the effects of well-matched words (both sides as finite monoid actions), plus long random words; size and step counts.', 'Nested calls, several stack symbols and missing moves in combination.', ''),
'C06': ('stateful model-based testing of operation histories', 'Model = set of observed traces: an answered word is answered again without touching the system, everything else is asked exactly once and only with the missing part; learners with caching never ask an observed word again (`learn`).', 'Order of operations matters; tests only run whole learners.', ''),
'C07': ('stateful model-based testing with injected faults (a lying system)', 'A contradiction is reported iff the model of observations contains one, at the operation where it occurs, and the cache is not changed by the refused value.', 'Tests never inject a contradiction.', '`learn` gives no verdict on slow cases: a lying system may make a learner diverge before the lie is asked again.'),
'C08': ('instrumented system as independent counter', 'Real resets, steps, learner/oracle split, cache hits and round counts are counted by the system and compared with every reported number; all seven active learners with slow oracles and systems: measured against reported times, equivalence queries against rounds.', 'Numbers are printed, never asserted.', ''),
'C09': ('differential simulation of hypothesis and system for every oracle', 'Each returned word must be over the alphabet, end in its first difference, be accepted by the discipline monitor (reset before every test, system closed afterwards, hypothesis unchanged); an executed difference must be reported; the interactive oracle is driven by a scripted user against a model of the session.', 'Only failing oracles show; tests use them with sufficient budget.', ''),
'C10': ('product construction decides whether a difference exists inside the bound', 'None may only be returned when no difference exists within the advertised depth; perfect and provided-word oracles are exact.', 'Fault coverage is a for-all statement.', 'Hypotheses are minimal with correct access words (documented precondition of W/Wp).'),
'C11': ('recorded tests against the configured budget and coverage', 'The recorded tests of random walk / word on non-deterministic and stochastic hypotheses, wrong ones included, are replayed on a reference simulation (first disallowed observation reported, budget restarted as configured). On the correct model every sampling oracle performs the documented number of tests of the documented lengths and reaches the documented coverage; over-budget or under-budget is a violation; randomness only judged where a miss has probability < 1e-12.', 'A test suite that silently does less still passes all tests.', 'k-way state coverage only claimed when no other hypothesis was tested before; CacheBased/StatePrefix do not compare while walking the access word.'),
'C12': ('round trip', 'Structural comparison of the loaded model with the saved one, names, order-independent, initial state, acceptance, rounding; `drawing`: edges with and without loops.', 'Symbol and structure combinations.', 'Digits are read as numbers; separators excluded.'),
'C13': ('round trip and aliasing checks', 'Copy equals the original, and mutating either leaves the other untouched.', 'Aliasing is invisible until someone mutates.', ''),
'C14': ('reference model: own partition refinement', 'Same language, number of states = number of classes, unique equivalence-class structure, access words valid; partial machines untouched.', '', ''),
'C15': ('reference model: BFS distances and partition refinement', 'Paths shortest, distinguishing words shortest, characterisation sets separate every pair, warnings exactly when there is none, predicates exact.', '', ''),
'C16': ('reference model: product construction', 'bisimilar exact; every reported difference real; generated test cases inside their specification.', '', 'compare_automata is random: only truth of what it reports is required.'),
'C17': ('metamorphic relation before/after completion', 'Completion adds exactly the missing transitions in the requested way and keeps the rest.', '', ''),
'C18': ('stateful model-based testing of operation histories; differential testing of regular expressions and Tomita grammars', 'Table simulation; Brzozowski derivatives; independent definitions of the grammars; wrapped classes against a direct call log.', '', ''),
'C19': ('stateful model-based testing against an independent stack machine', 'Every step of interrupted histories; derived alphabets, balanced-word test, access strings, sink detection/removal, generated words (accepted, lengths, shortest, and no acceptable word is impossible), construction from a DFA over stack letters.', '', ''),
'C20': ('stateful model-based testing; statistical comparison with Chernoff bounds', 'Every sampled step is possible; frequencies match the distribution up to error probability 1e-11; statistical model checking against exact dynamic programming.', '', ''),
'C21': ('replay of every datum; characteristic samples computed from the hidden machine', 'Model agrees with every observation, exact on characteristic samples, contradictory data refused.', '', 'Mealy data need not be prefix closed for consistency (gaps are generated).'),
'C22': ('replay of every datum on an independent stack machine', 'as C21 for visibly pushdown data; noise (unbalanced words) is dropped as documented.', '', 'run_EDSM raises ValueError on contradictory data although the text says None: either is accepted.'),
'C23': ('replay and recount of every datum; independent prefix tree', 'All observations possible, no transition without an observation, probabilities = frequencies, states = promotions, k-tails merges really have equal tails; graphs of nodes: tree test, conversion to every model type, drawing; detection of the data format.', '', 'Deterministic merging with future-only compatibility may refuse data.'),
'C24': ('frequency recount; strict-checker and characteristic-sample oracles; stand-in program for the Java wrapper', 'Counts, support and probabilities recomputed; nothing merged beyond a strict checker; exact on repeated characteristic samples; the wrapper hands over exactly the data and parameters and leaves no files.', '', ''),
'C25': ('trace-set equality by subset construction', 'Learned ONFSM has exactly the traces of the system when every outcome is observed; `sparse`: with too few samples nothing is invented and no crash.', '', '`sparse`: termination is not promised with too few samples; the step budget then gives no verdict.'),
'C26': ('trace inclusion by subset construction', 'Abstract model contains all system traces, one-step sound, states differ by abstract futures, size bound, termination.', '', 'The model may be a strict superset with AALpy\'s oracle notion (the consistency check of the code never fires): observability is not claimed.'),
'C27': ('independent record of everything sampled', 'Every hypothesis is a function of the recorded samples (frequencies, support, compatible rows) and well formed; results exact for deterministic systems. The observation table is closed, consistent and has incompatible representatives after every repair and after trimming, judged by own formulas on the recorded samples (up to 7 states and 7 inputs). Counterexample search in the samples (breadth first, random walks) against a list of all counterexamples the recorded samples contain.', '', '"rs" processing queries the raw system (frequencies compared as subset); outputs "chaos"/"dummy" reserved.'),
'C28': ('shape predicates on generated models; determinism under a seed', 'Number of states, alphabets, completeness, reachability, minimality, distributions; same seed, same model.', '', 'ONFSM generator promises in-edges, not reachability; SEVPA generator completeness.'),
'C29': ('exact distribution comparison (rational subset construction); parsing back emitted model-checker text', 'Trace distributions before/after each conversion; PRISM text interpreted by an own parser; stand-in program for result parsing.', '', 'PRISM itself is not installed: the stand-in prints results.'),
'C30': ('round trip through files; replay of sampled data', 'Tokens read back equal tokens written; malformed input reported; sampled words labelled as the reference machine labels them, with the promised lengths/counts.', '', 'Letters without any transition are unknown to a VPA; "at most" semantics of VPA generation.'),
'C31': ('defining property of a refining suffix', 'Every processing function returns suffixes of which one separates the access word of a state and an extension in the hypothesis; suffix closure as requested.', '', 'linear_bwd is forced to fwd by the code; longest_prefix closedness is unused.'),
'C32': ('replay of samples; per-round models', 'Every sample is true, rounds as requested, final model = passive learner on all data.', '', 'Initial data must contain every input.'),
'C33': ('differential testing against scipy and closed formulas at the flip points', 'Verdicts on both sides of the exact threshold, symmetry, order independence.', '', 'Verdicts within 1e-9 of the threshold are not compared.'),
'C34': ('metamorphic relation silent/printing run; parsing of all printed output', 'Same queries, model and numbers with and without reporting; every printed cell, edge, size and counterexample is true; nothing printed when silent.', '', 'L# variants iterate over sets: repeatability query by query is not claimed for them.'),
'C35': ('independent re-implementation of red-blue merging run in lock step', 'Every promotion, merge, score and the final counted graph against an own folding on an own prefix tree; no mergeable state promoted, no better merge passed over. `hooks`: pre-/post-processing applied exactly once to the right graph; refused requests.', '', 'Without an explicit order only the order of promotion of red parents is assumed; ties open.'),
'C36': ('independent definitions of the described languages and models', 'Words built from nested and repeated pieces with 0-2 edits against string definitions; exact (rational) output distributions against models written from the descriptions; calendar, broker protocol and an expression parser.', '', 'vpa_json, sevpa L10/L11: no description; unary plus left open; even parentheses: only "accepted implies balanced and even" and the single nests.'),
}

def text():
    out = []
    for i in sorted(D):
        src = open(os.path.join(V, 'checks', i.lower() + '.py')).read()
        env = {}
        for n in ast.parse(src).body:
            if isinstance(n, ast.Assign) and n.targets[0].id in ('RULE', 'ASSUMPTIONS') if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) else False:
                env[n.targets[0].id] = ast.literal_eval(n.value)
        title = next(json.loads(l)['title'] for l in open(os.path.join(V, 'properties.jsonl')) if f'"{i}"' in l)
        subs = re.findall(r"Sub\('(\w+)'[^\n]*?(?:quick=)?(\d{3,6})", src[src.rindex('SUBS = ['):].replace('Sub(', '\nSub('))
        t, o, why, note = D[i]
        out.append(f"### {i} {title}\n\n* Generated: {env.get('RULE', '')}.\n* Oracle ({t}): {o}")
        if why:
            out.append(f'* Beyond the tests: {why}')
        if env.get('ASSUMPTIONS'):
            out.append('* Domain: ' + '; '.join(env['ASSUMPTIONS']) + '.')
        if note:
            out.append(f'* Limits: {note}')
        out.append('* Cases (quick): ' + ', '.join(f'{a} {2 * int(b)}' for a, b in subs) + '; thorough: ten times as many (unless listed), same oracles.\n')
        bugs = []
        for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
            if json.load(open(m))['property'] == i:
                bugs.append(os.path.basename(os.path.dirname(m)))
        if bugs:
            out[-1] = out[-1].rstrip('\n')
            out.append('* Planted bugs: ' + ', '.join(bugs) + '.\n')
    return '\n'.join(out)

json.dump({i: {'technique': d[0], 'note': ('seeded random search over generated inputs with shrinking; never establishes absence. ' + d[3]).strip()} for i, d in sorted(D.items())}, open(os.path.join(V, 'tools', 'technique.json'), 'w'), indent=1)
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- BEGIN properties -->', '<!-- END properties -->'
s = s[:s.index(a) + len(a)] + '\n\n' + text() + '\n' + s[s.index(b):]
open(p, 'w').write(s)
