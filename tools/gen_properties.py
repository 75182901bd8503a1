#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/gen_properties.py > properties.jsonl)."""
import json
L = "aalpy/learning_algs/"
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append(d)


p("C01", "L* learns the exact minimal model under every configuration",
  "For every complete deterministic system and an equivalence oracle that never misses a difference, L* terminates under every "
  "documented combination of closing strategy, counterexample processing, suffix/prefix options, caching and prior samples. "
  "The returned DFA, Moore or Mealy machine gives the same outputs as the system on every input sequence and has exactly as many states "
  "as the minimal such machine. If the number of rounds is limited, at most that many hypotheses are built and the last one is returned.",
  ["inputs", "configurations", "histories"],
  "all complete DFA/Moore/Mealy systems over any hashable symbols, all option combinations, all (also non-shortest) counterexamples an oracle may return",
  "Tests learn three or four fixed small automata with fixed oracles; a wrong closedness/consistency/counterexample step only shows for particular automata, configurations and counterexamples.",
  [L + "deterministic/LStar.py", L + "deterministic/ObservationTable.py", L + "deterministic/CounterExampleProcessing.py"],
  [("closedness, consistency and hypothesis construction", L + "deterministic/ObservationTable.py"),
   ("learning loop", L + "deterministic/LStar.py:run_Lstar")],
  ["return value of run_Lstar"], [("S, E, T", "observation table rows, suffixes and cells", L + "deterministic/ObservationTable.py")])

p("C02", "KV learns the exact minimal model under every configuration",
  "For every complete deterministic system and an equivalence oracle that never misses a difference, the classification-tree learner terminates "
  "with every counterexample-processing strategy, with and without caching. "
  "The returned DFA, Moore or Mealy machine gives the same outputs as the system on every input sequence and has exactly as many states as the minimal such machine. With a limit on learning rounds it stops early and returns its last hypothesis.",
  ["inputs", "configurations", "histories"],
  "all complete DFA/Moore/Mealy systems, all counterexample-processing strategies, all counterexamples an oracle may return",
  "KV is not run by any stable test at all.",
  [L + "deterministic/KV.py", L + "deterministic/ClassificationTree.py", L + "deterministic/CounterExampleProcessing.py"],
  [("sifting and leaf splitting", L + "deterministic/ClassificationTree.py"), ("learning loop", L + "deterministic/KV.py:run_KV")],
  ["return value of run_KV"])

p("C03", "L# learns the exact minimal model under every rule combination",
  "For every complete deterministic system and an equivalence oracle that never misses a difference, the observation-tree learner terminates for every "
  "combination of extension rule and separation rule, with and without caching and prior samples. "
  "The returned DFA, Moore or Mealy machine gives the same outputs as the system on every input sequence and has exactly as many states as the minimal such machine. With a limit on learning rounds it stops early and returns its last hypothesis.",
  ["inputs", "configurations", "histories"],
  "all complete DFA/Moore/Mealy systems, all extension/separation rules, all counterexamples an oracle may return",
  "L# is not run by any stable test at all.",
  [L + "deterministic/LSharp.py", L + "deterministic/ObservationTree.py", L + "deterministic/ADS.py", L + "deterministic/Apartness.py"],
  [("apartness and witnesses", L + "deterministic/Apartness.py"), ("frontier/basis bookkeeping", L + "deterministic/ObservationTree.py"),
   ("adaptive distinguishing sequences", L + "deterministic/ADS.py")],
  ["return value of run_Lsharp"])

p("C04", "Adaptive L# is exact no matter what reference models it is given",
  "Whatever reference models are supplied (equal, mutated, unrelated, of a different size, or over a partly different alphabet), adaptive L# with any rebuilding and "
  "state-matching choice terminates on a complete deterministic system with an equivalence oracle that never misses a difference. "
  "The returned model gives the same outputs as the system on every input sequence and is minimal, so references may change the cost but never the result.",
  ["inputs", "configurations", "histories"],
  "all systems of the three deterministic types, all lists of complete reference machines of the same type sharing some input, all options",
  "Adaptive L# is never run by the stable tests; errors need a specific relation between reference and system.",
  [L + "adaptive/AdaptiveLSharp.py", L + "adaptive/AdaptiveObservationTree.py", L + "adaptive/StateMatching.py"],
  [("rebuilding and prioritised promotion", L + "adaptive/AdaptiveObservationTree.py"), ("state matching", L + "adaptive/StateMatching.py")],
  ["return value of run_adaptive_Lsharp"])

p("C05", "Visibly pushdown learning returns an equivalent single-entry model",
  "For every visibly pushdown system over a partitioned alphabet and an equivalence oracle that never misses a difference, the learner terminates with every "
  "counterexample-processing option. The learned model accepts exactly the same words as the system, including unbalanced and deeply nested ones.",
  ["inputs", "configurations", "histories"],
  "all small visibly pushdown systems with internal, call and return letters, all words over that alphabet",
  "No stable test learns a pushdown system; context handling bugs need particular nestings.",
  [L + "deterministic/KV.py", L + "deterministic/ClassificationTree.py", "aalpy/automata/Sevpa.py", "aalpy/automata/Vpa.py"],
  [("access words, call transitions and contexts", L + "deterministic/ClassificationTree.py"), ("stack semantics", "aalpy/automata/Sevpa.py")],
  ["return value of run_KV with automaton_type='vpa'"])

p("C06", "A caching wrapper is transparent and never repeats an answered query",
  "For every history of whole-word queries, step-by-step executions and preloaded observations, a system accessed through the cache gives the same answers as the system itself. "
  "A word that is a prefix of anything already observed is answered without touching the system, every other word reaches it exactly once, and the query, step and cache-hit counters say so.",
  ["histories", "inputs", "configurations"],
  "all interleavings of queries, stepped executions and preloaded traces over deterministic systems, both cache kinds",
  "Tests only use the cache implicitly inside one learning run and compare the final automaton.",
  ["aalpy/base/SUL.py", "aalpy/base/CacheTree.py"],
  [("prefix-tree / dictionary lookup", "aalpy/base/CacheTree.py"), ("query interception", "aalpy/base/SUL.py:CacheSUL")],
  ["answers, counters and calls received by the wrapped system"])

p("C07", "Contradictory observations are always reported and never invented",
  "When a system accessed through the cache answers an already observed input sequence differently than before, the run is aborted with a non-determinism error at that observation, "
  "whichever way the two observations were made. As long as all observations are consistent no such error is raised.",
  ["histories", "inputs", "fault_sequences"],
  "all histories of consistent observations followed by one contradicting output at any position",
  "Only one fixed flaky system is learned in tests, and any error there counts.",
  ["aalpy/base/CacheTree.py", "aalpy/base/SUL.py", L + "deterministic/ObservationTree.py"],
  [("per-step comparison against the stored output", "aalpy/base/CacheTree.py")],
  ["exception raised by query/step, by preloading samples and by the learners"])

p("C08", "Reported learning cost equals the cost actually incurred on the system",
  "The number of queries and steps that a learner and its equivalence oracle report add up to the resets and inputs the system really received, no matter which algorithm, oracle or caching option is used. "
  "Cached answers are counted as cached and never as executed; the reported automaton size is that of the returned model. Every query a learner makes is one reset, its inputs and one shutdown of the system. "
  "The time reported for conformance checking is the time spent in the oracle, the reported times add up, and learning stops before a given limit of rounds only if no counterexample was found.",
  ["inputs", "configurations", "histories"],
  "all systems, all deterministic active learners, all oracles, with and without caching",
  "No test looks at the statistics, although they are what experiments with the library report.",
  ["aalpy/base/SUL.py", "aalpy/base/Oracle.py", L + "deterministic/LStar.py", L + "deterministic/KV.py", L + "deterministic/LSharp.py"],
  [("counters", "aalpy/base/SUL.py"), ("oracle counters", "aalpy/base/Oracle.py")],
  ["info dictionary returned with return_data=True", "pre/step calls received by the system"])

p("C09", "Every counterexample an equivalence oracle returns is genuine",
  "Whatever hypothesis and system are compared, a non-empty answer of any equivalence oracle is an input sequence on which the hypothesis and the system produce different outputs. "
  "When hypothesis and system agree on every input sequence, every oracle answers that there is no counterexample. Every test starts from the reset system and the reset hypothesis. The search always ends, also for hypotheses with unreachable states or stale access words.",
  ["inputs", "configurations", "histories"],
  "all pairs of hypothesis and system of the deterministic types, all oracles and their parameters, repeated calls on the same oracle object",
  "Tests check that learning with an oracle ends with the right number of states; a spurious or misaligned counterexample is often harmless there.",
  ["aalpy/oracles/*.py", "aalpy/base/Oracle.py"],
  [("lock-step execution and comparison", "aalpy/oracles/RandomWalkEqOracle.py and siblings"), ("reset of both sides", "aalpy/base/Oracle.py:reset_hyp_and_sul")],
  ["return value of find_cex", "calls received by the system"])

p("C10", "Exhaustive conformance oracles miss no difference inside their bound",
  "The W-method and Wp-method oracles find a counterexample for every system that differs from the hypothesis and has at most the promised number of states, and breadth-first exploration finds one whenever a difference is reachable within its depth. "
  "The perfect-knowledge oracle finds one whenever the two models differ at all, and every supplied sequence is tried.",
  ["inputs", "configurations"],
  "all pairs (minimal hypothesis, system with up to the bound of states) of the deterministic types; all depths",
  "Tests use a handful of machines with hand-picked faults; a missing test word matters only for particular fault positions.",
  ["aalpy/oracles/WMethodEqOracle.py", "aalpy/oracles/WpMethodEqOracle.py", "aalpy/oracles/BreadthFirstExplorationEqOracle.py",
   "aalpy/oracles/PerfectKnowledgeEqOracle.py", "aalpy/oracles/ProvidedSequencesOracleWrapper.py", "aalpy/oracles/CacheBasedEqOracle.py", "aalpy/base/Automaton.py"],
  [("transition cover x middle x characterisation set", "aalpy/oracles/WMethodEqOracle.py"), ("state identification sets", "aalpy/oracles/WpMethodEqOracle.py"),
   ("characterisation sets", "aalpy/base/Automaton.py")],
  ["return value of find_cex"])

p("C11", "Randomised and coverage oracles execute the tests they promise",
  "When no difference exists, each sampling or coverage oracle spends exactly its configured budget and covers what its documentation promises before giving up: the configured number of words with lengths in the configured range, the configured number of walks from every state, "
  "the configured number of steps, every k-tuple of states, or every k-step transition sequence; tests of the random W-methods are composed of an access word, a walk and a state identifier. A difference that shows in an executed test is always reported.",
  ["inputs", "configurations", "histories"],
  "all hypotheses equal to the system, all parameter values, repeated calls",
  "Tests only check that learning still succeeds, which a weakened oracle usually allows.",
  ["aalpy/oracles/RandomWordEqOracle.py", "aalpy/oracles/RandomWalkEqOracle.py", "aalpy/oracles/StatePrefixEqOracle.py", "aalpy/oracles/kWayStateCoverageEqOracle.py",
   "aalpy/oracles/kWayTransitionCoverageEqOracle.py", "aalpy/oracles/TransitionFocusOracle.py", "aalpy/oracles/PacOracle.py"],
  [("budget and coverage bookkeeping", "aalpy/oracles/*.py")], ["input sequences received by the system"])

p("C12", "Saving a model and loading it back preserves its behaviour",
  "A model of any supported type (DFA, Moore, Mealy, ONFSM, MDP, SMM, Markov chain, SEVPA, VPA, non-deterministic Moore) that is written to a file and read back has the same initial state, the same states, and the same transitions, outputs, acceptance and probabilities. "
  "Saving does not change the model that was saved, and a drawing shows every state and every transition, at most without those from a state to itself.",
  ["inputs"], "all models with identifier-like state names, and symbols that the textual format can carry",
  "Tests round-trip one generated model per type and compare only the number of states or a single learned machine.",
  ["aalpy/utils/FileHandler.py"], [("label construction", "aalpy/utils/FileHandler.py:save_automaton_to_file"), ("label parsing", "aalpy/utils/FileHandler.py:load_automaton_from_file")],
  ["the loaded model"])

p("C13", "Copying or pickling a model yields an independent, identical model",
  "Copying or pickling a model, or rebuilding it from its state-table description, gives a model with the same initial state, transitions, outputs, acceptance and probabilities. "
  "Changing one of the two afterwards does not change the behaviour of the other.",
  ["inputs"], "all models of the types that support state-table description",
  "Tests do not copy or pickle models.",
  ["aalpy/base/Automaton.py", "aalpy/automata/*.py"], [("state-table export/import", "to_state_setup/from_state_setup in aalpy/automata/*.py"), ("pickling", "aalpy/base/Automaton.py:__reduce__")],
  ["the copied model"])

p("C14", "Minimisation preserves behaviour and is really minimal",
  "Minimising a complete deterministic machine leaves its outputs on every input sequence unchanged and leaves exactly one reachable-equivalent state per behaviour, with no two equivalent states. "
  "A machine is reported minimal exactly when it already has that property.",
  ["inputs"], "all complete DFA, Moore and Mealy machines with all states reachable, including ones with many equivalent states",
  "Tests minimise nothing except as part of one helper.",
  ["aalpy/base/Automaton.py"], [("partition refinement", "aalpy/base/Automaton.py:DeterministicAutomaton.minimize")], ["the minimised machine"])

p("C15", "Structural analyses of deterministic machines are correct and optimal",
  "Shortest paths, and the access words computed for the states, lead to their target and no shorter one exists; distinguishing sequences separate their two states, are as short as possible and are missing only for equivalent states; characterisation sets separate every pair of states of a minimal machine and state-specific sets identify their state. "
  "Connectivity and input-completeness answers match the transition graph.",
  ["inputs"], "all complete deterministic machines and all pairs of their states",
  "Tests check characterisation sets of two fixed machines.",
  ["aalpy/base/Automaton.py", "aalpy/oracles/WpMethodEqOracle.py"],
  [("breadth-first search", "aalpy/base/Automaton.py:get_shortest_path, find_distinguishing_seq"), ("splitting-set computation", "aalpy/base/Automaton.py:compute_characterization_set")],
  ["return values"])

p("C16", "Equivalence checking of two models is exact and its witnesses are real",
  "Two complete deterministic models are declared bisimilar exactly when they produce the same outputs for every input sequence, and the counterexample given otherwise distinguishes them and is a shortest one. "
  "Sampling-based comparison returns only distinct, genuinely distinguishing sequences, returns none for equivalent models, and always terminates.",
  ["inputs", "configurations"], "all pairs of complete deterministic models over the same alphabet",
  "Tests use it as their own oracle, on equal machines only.",
  ["aalpy/utils/ModelChecking.py"], [("pairwise exploration", "aalpy/utils/ModelChecking.py:bisimilar, compare_automata")], ["return values"])

p("C17", "Input completion adds the missing behaviour and nothing else",
  "Completing a partial model makes every input available in every state while leaving every existing transition untouched. "
  "With self-loop completion the added transitions stay in the state, with sink completion they all lead to one non-accepting trap; a complete model is returned unchanged.",
  ["inputs", "configurations"], "all partial models of the supported types, both completion modes",
  "Tests complete one model.",
  ["aalpy/utils/HelperFunctions.py", "aalpy/base/Automaton.py"], [("completion", "aalpy/utils/HelperFunctions.py:make_input_complete")], ["the completed model"])

p("C18", "Models and wrapped systems compute the outputs their definition gives",
  "Stepping a DFA, Moore or Mealy machine, running a sequence from any state, computing an output sequence, or querying it as a system gives the outputs defined by its transition table, independent of what was executed before. "
  "Systems built from regular expressions, the Tomita grammars or Python classes answer every word as the expression, grammar or class defines, each answer being the output after the respective prefix.",
  ["inputs", "histories"], "all deterministic models, words and interleavings of resets, steps and sequence executions; all words for the wrapped systems",
  "Tests check model behaviour only through learning a few machines.",
  ["aalpy/automata/Dfa.py", "aalpy/automata/MooreMachine.py", "aalpy/automata/MealyMachine.py", "aalpy/base/Automaton.py", "aalpy/base/SUL.py", "aalpy/SULs/*.py"],
  [("transition functions", "aalpy/automata/*.py step"), ("queries", "aalpy/base/SUL.py:query")], ["outputs, current state"])

p("C19", "Pushdown models implement visibly pushdown semantics",
  "A VPA or SEVPA accepts a word exactly when the visibly pushdown run defined by its transitions ends in an accepting state with an empty stack: calls push, returns match the top of the stack, an impossible move rejects for good until reset. "
  "Conversions, generated accepted words, alphabet partitions and derived DFA-like views are consistent with that language.",
  ["inputs", "histories"], "all VPA/SEVPA models and words, including unmatched calls and returns, and all interleavings with resets",
  "No stable test runs a pushdown model.",
  ["aalpy/automata/Vpa.py", "aalpy/automata/Sevpa.py"], [("stack handling", "aalpy/automata/Vpa.py:step, aalpy/automata/Sevpa.py:step")], ["step/query results"])

p("C20", "Non-deterministic and stochastic models only do what their transitions allow",
  "Simulating an ONFSM, MDP, stochastic Mealy machine, Markov chain or non-deterministic Moore machine produces only outputs and successor states with a transition (of positive probability) from the current state, produces each of them with its stated probability, and following an observed output moves to exactly the state that output determines. "
  "Statistical model checking estimates agree with the exact reachability probabilities.",
  ["inputs", "histories"], "all models and all input/output histories; frequencies judged with an error bound that a correct simulator exceeds with negligible probability",
  "Tests do not simulate these models against their definition.",
  ["aalpy/automata/Onfsm.py", "aalpy/automata/Mdp.py", "aalpy/automata/StochasticMealyMachine.py", "aalpy/automata/MarkovChain.py", "aalpy/automata/NonDeterministicMooreMachine.py", "aalpy/SULs/AutomataSUL.py", "aalpy/utils/ModelChecking.py"],
  [("sampling of a transition", "step in aalpy/automata/*.py"), ("observation-driven move", "step_to in aalpy/automata/*.py")], ["outputs, current state"])

p("C21", "RPNI returns a model consistent with its data and exact on rich data",
  "For every prefix-consistent set of labelled examples or input/output traces, RPNI returns a deterministic model of the requested type that reproduces every given observation, for every algorithm variant and data format, and with input completion if requested. "
  "If the data contain a characteristic sample of a minimal machine, the result is equivalent to that machine; contradictory data are not turned into a model.",
  ["inputs", "configurations"], "all finite consistent data sets, all variants",
  "No stable test runs passive learning.",
  [L + "deterministic_passive/RPNI.py", L + "deterministic_passive/GsmRPNI.py", L + "deterministic_passive/ClassicRPNI.py", L + "deterministic_passive/rpni_helper_functions.py"],
  [("merge compatibility", L + "deterministic_passive/rpni_helper_functions.py"), ("red-blue loop", L + "deterministic_passive/GsmRPNI.py")], ["learned model replayed on the data"])

p("C22", "Passive pushdown inference is consistent with its data",
  "For every consistent set of labelled words over a partitioned alphabet, passive pushdown inference returns a model that accepts every positive and rejects every negative well-matched word in the data. "
  "Words that are not well matched are ignored and do not disturb the result.",
  ["inputs", "configurations"], "all finite labelled word sets over call/return/internal alphabets",
  "No stable test runs it.",
  [L + "deterministic_passive/RPNI.py"], [("stack-aware conversion of the data", L + "deterministic_passive/RPNI.py:run_PAPNI")], ["learned model replayed on the data"])

p("C23", "State merging accepts all of its data and honours its output behaviour",
  "Generalised state merging, evidence-driven merging and k-tails return a model of the requested kind on which every given trace can be replayed with its observed outputs, whatever score, ordering and search options are chosen. "
  "Deterministic requests give deterministic models, Moore requests give one output per state, and k-tails merges no two states whose futures up to depth k differ initially.",
  ["inputs", "configurations"], "all consistent finite trace sets in each supported data format, all option combinations",
  "No stable test runs the framework.",
  [L + "general_passive/GeneralizedStateMerging.py", L + "general_passive/GsmNode.py", L + "general_passive/GsmAlgorithms.py", L + "general_passive/ScoreFunctionsGSM.py"],
  [("prefix tree construction", L + "general_passive/GsmNode.py:createPTA"), ("partition computation", L + "general_passive/GeneralizedStateMerging.py")], ["learned model replayed on the data"])

p("C24", "Alergia models are normalised, reproduce all data and reflect its frequencies",
  "For every non-empty data set, Alergia returns a Markov chain, MDP or stochastic Mealy machine in which every distribution sums to one, every given trace is possible, and each transition probability is the relative frequency with which the data pass through it. "
  "With a confidence so strict that nothing is merged beyond identical behaviour, or with data of a deterministic system, the model is exact for the data.",
  ["inputs", "configurations"], "all finite data sets of the three formats, all confidence values and option choices",
  "No stable test runs Alergia.",
  [L + "stochastic_passive/Alergia.py", L + "stochastic_passive/FPTA.py", L + "stochastic_passive/CompatibilityChecker.py", L + "general_passive/GsmAlgorithms.py"],
  [("frequency tree and folding", L + "stochastic_passive/Alergia.py"), ("normalisation", L + "stochastic_passive/FPTA.py")], ["learned model"])

p("C25", "Non-deterministic L* learns the observable behaviour exactly",
  "For every observable non-deterministic system in which every possible output is eventually observed, and an equivalence oracle that never misses a difference, the learner terminates with a model that has exactly the input/output traces of the system and no two states for the same behaviour. "
  "The learned stochastic variant has distributions that sum to one; every observed trace is possible in the model.",
  ["inputs", "configurations", "schedules"], "all ONFSM systems with fair output resolution, all sampling depths, prior samples",
  "Tests learn a single fixed ONFSM.",
  [L + "non_deterministic/OnfsmLstar.py", L + "non_deterministic/OnfsmObservationTable.py", L + "non_deterministic/TraceTree.py", L + "non_deterministic/NonDeterministicSULWrapper.py"],
  [("trace tree", L + "non_deterministic/TraceTree.py"), ("closedness of rows of output sets", L + "non_deterministic/OnfsmObservationTable.py")], ["learned model"])

p("C26", "Abstracted non-deterministic learning covers all observations soundly",
  "With an output abstraction and an equivalence oracle that reports every trace of the system the model lacks, learning terminates and the model has a run for every trace that the system can produce. "
  "Every state is told apart from the others by its abstracted future outputs, has the same abstract outputs on every input as the situations of the system it stands for, and each of its transitions is one that such a situation really has. "
  "The number of states never exceeds that of the concrete behaviour, and the caller's abstraction mapping is left alone.",
  ["inputs", "configurations", "schedules"], "all ONFSM systems with fair output resolution and all output abstractions",
  "No stable test runs the abstracted learner.",
  [L + "non_deterministic/AbstractedOnfsmLstar.py", L + "non_deterministic/AbstractedOnfsmObservationTable.py"],
  [("abstracted rows", L + "non_deterministic/AbstractedOnfsmObservationTable.py")], ["learned model"])

p("C27", "Stochastic L* returns well-formed models faithful to what was sampled",
  "For every MDP or stochastic Mealy system, stochastic L* ends within its round limit with a model in which every distribution sums to one, the output determines the successor, and every state and transition that is present is one the system can really produce; every round takes the samples it was asked for. A search for a counterexample in the samples finds one exactly if the samples contain a trace that the hypothesis does not allow or that differs statistically from the state it reaches. "
  "For systems whose behaviour is in fact deterministic, the learned model reproduces it exactly.",
  ["inputs", "configurations", "schedules"], "all small MDP/SMM systems, all strategies, counterexample options and sampling outcomes",
  "No stable test runs stochastic learning.",
  [L + "stochastic/StochasticLStar.py", L + "stochastic/SamplingBasedObservationTable.py", L + "stochastic/StochasticTeacher.py", L + "stochastic/StochasticCexProcessing.py"],
  [("frequency tree", L + "stochastic/StochasticTeacher.py"), ("compatibility classes and hypothesis construction", L + "stochastic/SamplingBasedObservationTable.py")], ["learned model"])

p("C28", "Generated random models have the promised shape",
  "Every random generator returns a model of the requested kind with the requested number of states, alphabet and outputs that is input complete; its states are reachable from the initial one (non-deterministic machines: each is the target of some transition), distributions sum to one, and outputs determine successors where the model type requires it. "
  "A deterministic model requested to be minimal is minimal unless a warning says otherwise, and the same random seed gives the same model.",
  ["inputs", "configurations"], "all generator parameters (at least two outputs) and seeds for which such a model exists",
  "Tests use generators as a source of inputs and do not check them.",
  ["aalpy/utils/AutomatonGenerators.py"], [("generation and repair", "aalpy/utils/AutomatonGenerators.py")], ["generated model"])

p("C29", "Model conversions preserve meaning",
  "Turning a stochastic Mealy machine into an MDP, a Moore machine with Boolean outputs into a DFA, a chain into an MDP and back, or a model into model-checker text preserves the possible traces, their outputs and their probabilities.",
  ["inputs"], "all models of the source types",
  "No stable test converts a model.",
  ["aalpy/automata/StochasticMealyMachine.py", "aalpy/utils/HelperFunctions.py", "aalpy/utils/ModelChecking.py"],
  [("state splitting by output", "aalpy/automata/StochasticMealyMachine.py:smm_to_mdp_conversion"), ("text export", "aalpy/utils/ModelChecking.py:mdp_2_prism_format")], ["converted model / text"])

p("C30", "Data handling neither loses, adds nor alters observations",
  "Parsing a data file yields exactly the sequences written in it, converting traces between formats keeps every input and output in order, and sampling data from a model yields the requested number of sequences (pushdown models: at most, and without repetition) within the requested lengths, every one of them a true observation of that model. "
  "The complete sample of a minimal machine takes every transition and tells all states apart. "
  "Caller-owned data are not modified.",
  ["inputs", "configurations"], "all data sets, delimiters and models",
  "Tests do not cover data handling.",
  ["aalpy/utils/DataHandler.py", "aalpy/utils/Sampling.py", "aalpy/utils/HelperFunctions.py"],
  [("tokenising", "aalpy/utils/DataHandler.py"), ("sampling", "aalpy/utils/Sampling.py, aalpy/utils/HelperFunctions.py")], ["parsed or sampled data"])

p("C31", "Counterexample processing always yields a suffix that refines the model",
  "Given a genuine counterexample, every processing strategy returns suffixes of it, and among them one that separates two situations which the current hypothesis treats as the same: reading it after a state's representative extended by one input gives a different output than after the representative of the successor. "
  "If a suffix-closed set is requested, all suffixes of the separating one are returned. The single-suffix strategies return exactly one and need only a number of queries proportional to the logarithm (binary and exponential search) or the length (linear search) of the counterexample.",
  ["inputs", "configurations"], "all hypothesis/system pairs arising in learning and all counterexamples",
  "Tests only observe that learning eventually succeeds, which other suffixes also allow.",
  [L + "deterministic/CounterExampleProcessing.py"], [("search for the breakpoint", L + "deterministic/CounterExampleProcessing.py")], ["returned suffixes", "queries asked"])

p("C32", "Passive learners driven by an active loop only see true data and use all of it",
  "When passive inference is combined with an active source of further observations, every sample handed to the learner is a true observation of the system, each round's model is consistent with all data gathered so far, and the loop ends after the requested number of rounds with the model of the last one. The library samplers perform the requested number of walks within the requested lengths, and the initial data of the caller are left alone.",
  ["inputs", "configurations", "histories"], "all systems, initial samples and oracles",
  "No stable test runs the combined loops.",
  [L + "deterministic_passive/active_RPNI.py", L + "stochastic_passive/ActiveAleriga.py"],
  [("sampler", L + "stochastic_passive/ActiveAleriga.py"), ("data extension", L + "deterministic_passive/active_RPNI.py")], ["data and models per round"])

p("C33", "Statistical compatibility tests compute the bounds they are named after",
  "The Hoeffding and chi-squared tests that decide whether two observed output distributions differ give the verdict of the published formula for every pair of frequency tables, do not depend on the order of the two tables or of their entries, never separate proportional tables, and never separate when one side is unobserved.",
  ["inputs", "configurations"], "all pairs of finite frequency tables and confidence values",
  "No stable test evaluates them.",
  [L + "stochastic/DifferenceChecker.py", L + "stochastic_passive/CompatibilityChecker.py", L + "general_passive/ScoreFunctionsGSM.py"],
  [("bounds", L + "stochastic/DifferenceChecker.py")], ["verdicts"])

p("C34", "Reporting tells the truth and has no influence on learning",
  "Asking a learner for console output, for a progress report or for the statistics never changes what is asked of the system, what is learned or the reported numbers, and with reporting switched off nothing is printed; repeating a run with the same arguments and seed in one process repeats its result. "
  "Whatever is printed is true: the summary shows the returned numbers, announced hypotheses have the announced sizes, every cell of a printed observation table and every edge of a drawn classification tree is the answer of the system, and printed counterexamples are those found.",
  ["inputs", "configurations"], "all systems and data, all learners, all print levels and instrumentations (query-by-query repeatability is not claimed for the L# variants, whose runs follow the order of sets)",
  "The tests run with printing off or never look at what is printed.",
  [L + "deterministic/*.py", L + "adaptive/AdaptiveLSharp.py", L + "non_deterministic/*.py", L + "stochastic/StochasticLStar.py", L + "general_passive/Instrumentation.py", "aalpy/utils/HelperFunctions.py"],
  [("printing", "aalpy/utils/HelperFunctions.py"), ("progress report", L + "general_passive/Instrumentation.py")], ["standard output", "calls received by the system", "returned model and statistics"])

p("C35", "State merging promotes and merges exactly as the red-blue procedure and the score prescribe",
  "In every run of the generalised state merging, only successors of promoted states are promoted or merged; a state that can be merged with a promoted one under the given compatibility and score is never promoted, and one that cannot is never merged or passed over in the given order; the merge performed is the one with the best score, its reported score is the value of the score's definition on the states it changes, and the resulting graph with all its counts is the one obtained by folding the merged trees into each other. Pre- and post-processing see the whole prefix tree before, and the finished graph after, the search, exactly once, and requests that cannot be carried out are refused with a ValueError.",
  ["inputs", "configurations"], "all finite data sets in every data format, output and transition behaviour, the library's score functions with thresholds, node orders and search options (ties may be broken either way)",
  "Tests look only at the accuracy of a few final models.",
  [L + "general_passive/GeneralizedStateMerging.py", L + "general_passive/GsmNode.py", L + "general_passive/ScoreFunctionsGSM.py"],
  [("merge loop", L + "general_passive/GeneralizedStateMerging.py"), ("scores", L + "general_passive/ScoreFunctionsGSM.py")], ["promotions, merges and scores reported to the instrumentation", "resulting graph"])

p("C36", "The reference systems shipped with the library behave as they are described",
  "The visibly pushdown reference models accept exactly the languages they are described by (Dyck languages of the given order with their internal letters, single nests, matching powers, odd/even parentheses), and a language given in two representations is the same in both; the balanced-string system and helper recognise exactly the balanced words; the stochastic reference models are input-complete with distributions that sum to one, and the grid world and the coffee machines have the described behaviour in every representation; the date validator accepts exactly the calendar dates (without leap years), the mock broker follows its protocol, and generated arithmetic data are labelled correctly.",
  ["inputs"], "all words over the alphabets of the models, call/return maps and letters, date strings and operation sequences (the JSON model and the generated models L10/L11 of the 1-SEVPA file have no description and are not covered; unary plus is left open)",
  "The tests learn a few of these models and compare the results with the models themselves.",
  ["aalpy/utils/BenchmarkSULs.py", "aalpy/utils/BenchmarkVpaModels.py", "aalpy/utils/BenchmarkSevpaModels.py"],
  [("reference models", "aalpy/utils/BenchmarkVpaModels.py"), ("reference systems", "aalpy/utils/BenchmarkSULs.py")], ["words accepted", "output distributions", "answers of the systems"])

for d in P:
    print(json.dumps(d))
