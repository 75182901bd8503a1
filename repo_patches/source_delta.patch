From ebecd6ee306f884258d58c4a08048c51ed484b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:59 +0000
Subject: [PATCH 01/98] fix: adaptive L# no longer crashes on references
 without common inputs

---
 .../learning_algs/adaptive/AdaptiveObservationTree.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py b/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
index 3840a75..8058426 100644
--- a/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
+++ b/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
@@ -488,22 +488,23 @@ class AdaptiveObservationTree(ObservationTree):
         """
         automaton_class = {'dfa': Dfa, 'mealy': MealyMachine, 'moore': MooreMachine}
         all_states = []
-        for reference_id in range(0, len(self.references)):
-            reference = self.references[reference_id]
+        usable_references = []
+        for index, reference in enumerate(self.references):
             overlap = [inp for inp in self.alphabet if inp in reference.get_input_alphabet()]
             if not overlap:
                 print(
-                    f"Warning: reference model {reference_id} has no common inputs and will not be used as a reference.")
-                self.references.remove(reference)
-                reference_id -= 1
+                    f"Warning: reference model {index} has no common inputs and will not be used as a reference.")
                 continue
 
+            reference_id = len(usable_references)
+            usable_references.append(reference)
             states = self.add_ref_transitions_to_states(reference, reference_id)
             all_states += states
 
             self.compute_prefix_map(automaton_class[self.automaton_type](states[0], states), reference_id)
             self.compute_characterization_map(reference, states)
 
+        self.references = usable_references
         if all_states == []:
             print(f"Warning: the references did not lead to any usable states, this could be due to empty models or no common inputs.")
             return None
-- 
2.43.0


From 6fb84b648c8d9f1f747b27a62b7d1e7cccd5f9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:07 +0000
Subject: [PATCH 02/98] fix: total state matching works for Moore machines

---
 aalpy/learning_algs/adaptive/StateMatching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/adaptive/StateMatching.py b/aalpy/learning_algs/adaptive/StateMatching.py
index 0841ad3..f9e40e6 100644
--- a/aalpy/learning_algs/adaptive/StateMatching.py
+++ b/aalpy/learning_algs/adaptive/StateMatching.py
@@ -263,7 +263,7 @@ class TotalStateMatching(StateMatching):
 
         # need to test the empty word
         if defined_after_access == (): 
-            if reference_state.is_accepting != current_ob_state.output:
+            if reference_state.output != current_ob_state.output:
                 self.matchings[basis_state][orig_ref] = 0
                 return
 
-- 
2.43.0


From 0e19356c24022c3be22d83419308e9428e456ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:43 +0000
Subject: [PATCH 03/98] fix: L# and adaptive L# honour max_learning_rounds
 instead of stopping one round early

---
 aalpy/learning_algs/adaptive/AdaptiveLSharp.py | 2 +-
 aalpy/learning_algs/deterministic/LSharp.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aalpy/learning_algs/adaptive/AdaptiveLSharp.py b/aalpy/learning_algs/adaptive/AdaptiveLSharp.py
index 4f7b430..f4a3f9b 100644
--- a/aalpy/learning_algs/adaptive/AdaptiveLSharp.py
+++ b/aalpy/learning_algs/adaptive/AdaptiveLSharp.py
@@ -89,7 +89,7 @@ def run_adaptive_Lsharp(alphabet: list, sul: SUL, references: list, eq_oracle: O
 
     while True:
         learning_rounds += 1
-        if max_learning_rounds and learning_rounds == max_learning_rounds:
+        if max_learning_rounds and learning_rounds - 1 == max_learning_rounds:
             break
 
         # Building the hypothesis
diff --git a/aalpy/learning_algs/deterministic/LSharp.py b/aalpy/learning_algs/deterministic/LSharp.py
index 541f419..13fc208 100644
--- a/aalpy/learning_algs/deterministic/LSharp.py
+++ b/aalpy/learning_algs/deterministic/LSharp.py
@@ -68,7 +68,7 @@ def run_Lsharp(alphabet: list, sul: SUL, eq_oracle: Oracle, automaton_type,
 
     while True:
         learning_rounds += 1
-        if max_learning_rounds and learning_rounds == max_learning_rounds:
+        if max_learning_rounds and learning_rounds - 1 == max_learning_rounds:
             break
 
         # Building the hypothesis
-- 
2.43.0


From ada89211eb42d54ba9e124e82c418cd7fcab9a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:13 +0000
Subject: [PATCH 04/98] fix: Sevpa.get_error_state only returns real sink
 states

---
 aalpy/automata/Sevpa.py | 39 ++++++++++-----------------------------
 1 file changed, 10 insertions(+), 29 deletions(-)

diff --git a/aalpy/automata/Sevpa.py b/aalpy/automata/Sevpa.py
index f9b080d..ad3bfe3 100644
--- a/aalpy/automata/Sevpa.py
+++ b/aalpy/automata/Sevpa.py
@@ -305,48 +305,29 @@ class Sevpa(Automaton):
         """
         A state is an error state iff:
             - if all transitions self loop to itself
-            - if the pop transitions from the corresponding stack symbol lead to the same state
+            - if the pop transitions of all states from the corresponding stack symbol lead to the same state
             - for example:
                 - all q2 transitions lead to q2
-                - the pop transitions from the initial state which pop the q2+call-symbol from the stack lead to q2 as well
+                - the pop transitions which pop the q2+call-symbol from the stack lead to q2 as well
 
             - Not an error state if it is the initial state or an accepting state
         """
 
         for state in self.states:
-
-            is_error_state = True
             if state.is_accepting or state == self.initial_state:
                 continue
 
-            state_target = None
             # check internal and return transitions
-            ret_int_al = []
-            ret_int_al.extend(self.input_alphabet.internal_alphabet)
-            ret_int_al.extend(self.input_alphabet.return_alphabet)
-            for letter in ret_int_al:
-                for transition in state.transitions[letter]:
-                    if state_target is None:
-                        state_target = transition.target_state
-                    else:
-                        if state_target != transition.target_state:
-                            is_error_state = False
-                            break
-                if not is_error_state:
-                    break
+            is_error_state = all(transition.target_state == state
+                                 for transitions in state.transitions.values() for transition in transitions)
 
-            # check return transitions from the initial state
+            # check return transitions that pop what was pushed in this state
             if is_error_state:
-                for return_letter in self.input_alphabet.return_alphabet:
-                    for transition in self.initial_state.transitions[return_letter]:
-                        if transition.stack_guard[0] == state_target.state_id:
-                            if transition.target_state != state_target:
-                                is_error_state = False
-                                break
-                    if not is_error_state:
-                        break
-            else:
-                continue
+                is_error_state = all(transition.target_state == state
+                                     for other_state in self.states
+                                     for transitions in other_state.transitions.values()
+                                     for transition in transitions
+                                     if transition.stack_guard and transition.stack_guard[0] == state.state_id)
 
             if is_error_state:
                 return state
-- 
2.43.0


From 81fb83644d548eebf84c7b9063f5bb1f4f42925b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:13 +0000
Subject: [PATCH 05/98] fix: VPA learning no longer drops stack symbols of a
 state that only looked like a sink in an early hypothesis

---
 .../deterministic/ClassificationTree.py             | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/aalpy/learning_algs/deterministic/ClassificationTree.py b/aalpy/learning_algs/deterministic/ClassificationTree.py
index acfdaf4..c46809c 100644
--- a/aalpy/learning_algs/deterministic/ClassificationTree.py
+++ b/aalpy/learning_algs/deterministic/ClassificationTree.py
@@ -70,9 +70,6 @@ class ClassificationTree:
         self.initial_state = None
         self.hypothesis_states = {}
 
-        # prefix of identified error state in VPDA learning
-        self.error_state_prefix = None
-
         if self.automaton_type != 'mealy':
             initial_output = sul.query(())[-1]
             cex_output = sul.query(cex)[-1]
@@ -225,9 +222,6 @@ class ClassificationTree:
                             continue
 
                         for other_state in self.hypothesis_states.values():
-                            # ignore other state if other state is error state
-                            if other_state.prefix == self.error_state_prefix:
-                                continue
                             transition_target_node = self._sift(
                                 other_state.prefix + (input_element,) + state.prefix + (return_letter,))
                             transition_target_access_string = transition_target_node.access_string
@@ -238,12 +232,7 @@ class ClassificationTree:
                             state.transitions[return_letter].append(trans)
 
         if self.automaton_type == 'vpa':
-            hypothesis = Sevpa(initial_state=self.initial_state, states=list(self.hypothesis_states.values()))
-            if not self.error_state_prefix:
-                error_state = hypothesis.get_error_state()
-                if error_state:
-                    self.error_state_prefix = error_state.prefix
-            return hypothesis
+            return Sevpa(initial_state=self.initial_state, states=list(self.hypothesis_states.values()))
 
         return automaton_class[self.automaton_type](initial_state=self.initial_state,
                                                     states=list(self.hypothesis_states.values()))
-- 
2.43.0


From 0b1d17a1163a0bbb511f0a4a36b937c0b98bed29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 06/98] fix: caches record and check the empty word, and the
 dictionary cache checks preloaded observations

---
 aalpy/base/CacheTree.py | 29 +++++++++++++++++++++++------
 aalpy/base/SUL.py       |  2 ++
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/aalpy/base/CacheTree.py b/aalpy/base/CacheTree.py
index c733318..fdedb7e 100644
--- a/aalpy/base/CacheTree.py
+++ b/aalpy/base/CacheTree.py
@@ -36,12 +36,19 @@ class CacheTree:
             out: output
 
         """
-        self.inputs += (inp,)
-        self.outputs += (out,)
+        # output of the initial state, that is, of the empty word
         if inp is None:
-            self.root_node.value = out
+            if not self.inputs:
+                if self.root_node.value is None:
+                    self.root_node.value = out
+                elif self.root_node.value != out:
+                    raise SystemExit(f'Non-determinism detected.\n'
+                                     f'Conflict detected for the empty word: {self.root_node.value} vs {out}')
             return
 
+        self.inputs += (inp,)
+        self.outputs += (out,)
+
         if inp not in self.curr_node.children.keys():
             node = Node(out)
             self.curr_node.children[inp] = node
@@ -74,6 +81,9 @@ class CacheTree:
         """
         curr_node = self.root_node
 
+        if len(input_seq) == 0:
+            return (curr_node.value,) if curr_node.value is not None else None
+
         output_seq = ()
         for letter in input_seq:
             if letter in curr_node.children.keys():
@@ -121,8 +131,12 @@ class CacheDict:
 
         """
 
+        # output of the initial state, that is, of the empty word
         if inp is None:
-            return self.cache_dict[()]
+            if not self.inputs and self.cache_dict.setdefault((), out) != out:
+                raise SystemExit(f'Non-determinism detected.\n'
+                                 f'Conflict detected for the empty word: {self.cache_dict[()]} vs {out}')
+            return
 
         self.inputs += (inp,)
 
@@ -162,8 +176,11 @@ class CacheDict:
         """
         Add input-output sequence to cache
         """
-        for i in range(1, len(input_sequence) + 1):
-            self.cache_dict[input_sequence[:i]] = output_sequence[i-1]
+        self.reset()
+        for i, o in zip(input_sequence, output_sequence):
+            self.step_in_cache(i, o)
 
     def get_output_sequence(self, input_seq):
+        if len(input_seq) == 0:
+            return (self.cache_dict[()],)
         return tuple(self.cache_dict[input_seq[:i]] for i in range(1, len(input_seq) + 1))
diff --git a/aalpy/base/SUL.py b/aalpy/base/SUL.py
index 7d85a4a..189cbb9 100644
--- a/aalpy/base/SUL.py
+++ b/aalpy/base/SUL.py
@@ -158,6 +158,8 @@ class CacheSUL(SUL):
 
         # add input/outputs to tree
         self.cache.reset()
+        if len(word) == 0:
+            self.cache.step_in_cache(None, out[0])
         for i, o in zip(word, out):
             self.cache.step_in_cache(i, o)
 
-- 
2.43.0


From ca1e49e64d22aa090dd9ffa6a0718e3b578493f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:28 +0000
Subject: [PATCH 07/98] fix: k-way state coverage oracle counts its queries on
 one-state hypotheses

---
 aalpy/oracles/kWayStateCoverageEqOracle.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/aalpy/oracles/kWayStateCoverageEqOracle.py b/aalpy/oracles/kWayStateCoverageEqOracle.py
index d259e53..1530bd5 100644
--- a/aalpy/oracles/kWayStateCoverageEqOracle.py
+++ b/aalpy/oracles/kWayStateCoverageEqOracle.py
@@ -37,9 +37,7 @@ class KWayStateCoverageEqOracle(Oracle):
         if len(hypothesis.states) == 1:
             for _ in range(self.random_walk_len):
                 path = choices(self.alphabet, k=self.random_walk_len)
-                hypothesis.reset_to_initial()
-                self.sul.post()
-                self.sul.pre()
+                self.reset_hyp_and_sul(hypothesis)
                 for i, p in enumerate(path):
                     out_sul = self.sul.step(p)
                     out_hyp = hypothesis.step(p)
-- 
2.43.0


From 72d740433fbd9885b09ca6de12ad06ea63840033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:47 +0000
Subject: [PATCH 08/98] fix: provided-sequences oracle adds up the cost of
 every call of the wrapped oracle

---
 aalpy/oracles/ProvidedSequencesOracleWrapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aalpy/oracles/ProvidedSequencesOracleWrapper.py b/aalpy/oracles/ProvidedSequencesOracleWrapper.py
index a64122c..da7a8af 100644
--- a/aalpy/oracles/ProvidedSequencesOracleWrapper.py
+++ b/aalpy/oracles/ProvidedSequencesOracleWrapper.py
@@ -35,12 +35,12 @@ class ProvidedSequencesOracleWrapper(Oracle):
 
             self.provided_counterexamples.remove(provided_cex)
 
+        num_queries, num_steps = self.oracle.num_queries, self.oracle.num_steps
         cex = self.oracle.find_cex(hypothesis)
 
         # to account for steps statistics from actual oracle
-        if cex is None:
-            self.num_queries += self.oracle.num_queries
-            self.num_steps += self.oracle.num_steps
+        self.num_queries += self.oracle.num_queries - num_queries
+        self.num_steps += self.oracle.num_steps - num_steps
 
         return cex
 
-- 
2.43.0


From 394818894a9d82c8b7b5d223f5c5293ebf8c8252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 09/98] fix: W- and Wp-method oracles no longer skip sequences
 on which only an earlier hypothesis was right

---
 aalpy/oracles/WMethodEqOracle.py  |  8 +++++---
 aalpy/oracles/WpMethodEqOracle.py | 10 +++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/aalpy/oracles/WMethodEqOracle.py b/aalpy/oracles/WMethodEqOracle.py
index bfc4bcb..f655c1d 100644
--- a/aalpy/oracles/WMethodEqOracle.py
+++ b/aalpy/oracles/WMethodEqOracle.py
@@ -24,7 +24,8 @@ class WMethodEqOracle(Oracle):
         super().__init__(alphabet, sul)
         self.m = max_number_of_states
         self.shuffle = shuffle_test_set
-        self.cache = set()
+        # outputs of the system on the sequences that already passed
+        self.cache = dict()
 
     def test_suite(self, cover, depth, char_set):
         """
@@ -60,7 +61,8 @@ class WMethodEqOracle(Oracle):
 
         depth = self.m + 1 - len(hypothesis.states)
         for seq in self.test_suite(transition_cover, depth, hypothesis.characterization_set):
-            if seq not in self.cache:
+            # a sequence that passed for an earlier hypothesis has to be executed again only if this hypothesis disagrees
+            if seq not in self.cache or hypothesis.execute_sequence(hypothesis.initial_state, seq) != self.cache[seq]:
                 self.reset_hyp_and_sul(hypothesis)
                 outputs = []
 
@@ -73,7 +75,7 @@ class WMethodEqOracle(Oracle):
                     if out_hyp != out_sul:
                         self.sul.post()
                         return seq[:ind + 1]
-                self.cache.add(seq)
+                self.cache[seq] = outputs
 
         return None
 
diff --git a/aalpy/oracles/WpMethodEqOracle.py b/aalpy/oracles/WpMethodEqOracle.py
index 86c2d7e..71bf08f 100644
--- a/aalpy/oracles/WpMethodEqOracle.py
+++ b/aalpy/oracles/WpMethodEqOracle.py
@@ -71,7 +71,8 @@ class WpMethodEqOracle(Oracle):
     def __init__(self, alphabet: list, sul: SUL, max_number_of_states=4):
         super().__init__(alphabet, sul)
         self.m = max_number_of_states
-        self.cache = set()
+        # outputs of the system on the sequences that already passed
+        self.cache = dict()
 
     def find_cex(self, hypothesis):
         if not hypothesis.characterization_set:
@@ -95,18 +96,21 @@ class WpMethodEqOracle(Oracle):
         test_suite = chain(first_phase, second_phase)
 
         for seq in test_suite:
-            if seq not in self.cache:
+            # a sequence that passed for an earlier hypothesis has to be executed again only if this hypothesis disagrees
+            if seq not in self.cache or hypothesis.execute_sequence(hypothesis.initial_state, seq) != self.cache[seq]:
                 self.reset_hyp_and_sul(hypothesis)
+                outputs = []
 
                 for ind, letter in enumerate(seq):
                     out_hyp = hypothesis.step(letter)
                     out_sul = self.sul.step(letter)
                     self.num_steps += 1
 
+                    outputs.append(out_sul)
                     if out_hyp != out_sul:
                         self.sul.post()
                         return seq[: ind + 1]
-                self.cache.add(seq)
+                self.cache[seq] = outputs
 
         return None
 
-- 
2.43.0


From 552c149883392f52859d89c7cfed3c56b761cd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 10/98] fix: Wp-method tests transitions into states without a
 non-empty identifying sequence

---
 aalpy/oracles/WpMethodEqOracle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/oracles/WpMethodEqOracle.py b/aalpy/oracles/WpMethodEqOracle.py
index 71bf08f..86a8cb0 100644
--- a/aalpy/oracles/WpMethodEqOracle.py
+++ b/aalpy/oracles/WpMethodEqOracle.py
@@ -59,7 +59,8 @@ def second_phase_it(hyp, alphabet, difference, depth):
                 if state not in state_mapping:
                     state_mapping[state] = state_characterization_set(hyp, alphabet, state)
 
-                for sm in state_mapping[state]:
+                # without a non-empty identifying sequence, the output after t + mid still has to be checked
+                for sm in state_mapping[state] or [()]:
                     yield t + mid + sm
 
 
-- 
2.43.0


From 0de7729da0868c59d6c936f1ef9bd2e486ea0202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 11/98] fix: breadth-first oracle explores all sequences for
 every hypothesis

---
 aalpy/oracles/BreadthFirstExplorationEqOracle.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aalpy/oracles/BreadthFirstExplorationEqOracle.py b/aalpy/oracles/BreadthFirstExplorationEqOracle.py
index dfa4537..95e2972 100644
--- a/aalpy/oracles/BreadthFirstExplorationEqOracle.py
+++ b/aalpy/oracles/BreadthFirstExplorationEqOracle.py
@@ -34,8 +34,7 @@ class BreadthFirstExplorationEqOracle(Oracle):
 
     def find_cex(self, hypothesis):
 
-        while self.queue:
-            test_case = self.queue.pop()
+        for test_case in self.queue:
             self.reset_hyp_and_sul(hypothesis)
 
             for ind, letter in enumerate(test_case):
-- 
2.43.0


From 98ed51f43eddf0a7a705db544d832d0c0805030d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 12/98] fix: provided-sequences oracle does not empty the
 caller's list

---
 aalpy/oracles/ProvidedSequencesOracleWrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/oracles/ProvidedSequencesOracleWrapper.py b/aalpy/oracles/ProvidedSequencesOracleWrapper.py
index da7a8af..c1fa674 100644
--- a/aalpy/oracles/ProvidedSequencesOracleWrapper.py
+++ b/aalpy/oracles/ProvidedSequencesOracleWrapper.py
@@ -15,7 +15,7 @@ class ProvidedSequencesOracleWrapper(Oracle):
             of input alphabet
         """
         super().__init__(alphabet, sul)
-        self.provided_counterexamples = provided_counterexamples
+        self.provided_counterexamples = list(provided_counterexamples)
         self.oracle = oracle
 
     def find_cex(self, hypothesis):
-- 
2.43.0


From b362a29d8da349ae7d83c102b6b57f015906d674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 13/98] fix: random word oracle can be used again after
 reset_counter

---
 aalpy/oracles/RandomWordEqOracle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aalpy/oracles/RandomWordEqOracle.py b/aalpy/oracles/RandomWordEqOracle.py
index 6a1a8d9..f943777 100644
--- a/aalpy/oracles/RandomWordEqOracle.py
+++ b/aalpy/oracles/RandomWordEqOracle.py
@@ -92,4 +92,5 @@ class RandomWordEqOracle(Oracle):
 
     def reset_counter(self):
         if self.reset_after_cex:
+            self.walk_lengths = [randint(self.min_walk_len, self.max_walk_len) for _ in range(self.num_walks)]
             self.num_walks_done = 0
-- 
2.43.0


From 6601bfa6c440945f305ff73a68dffb9b41b11442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 14/98] fix: random Wp-method executes num_tests tests also if
 a state has no identifying sequence

---
 aalpy/oracles/WpMethodEqOracle.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/aalpy/oracles/WpMethodEqOracle.py b/aalpy/oracles/WpMethodEqOracle.py
index 86a8cb0..de107fa 100644
--- a/aalpy/oracles/WpMethodEqOracle.py
+++ b/aalpy/oracles/WpMethodEqOracle.py
@@ -157,8 +157,6 @@ class RandomWpMethodEqOracle(Oracle):
                 _ = hypothesis.execute_sequence(hypothesis.initial_state, input)
                 if state_mapping[hypothesis.current_state]:
                     input += random.choice(state_mapping[hypothesis.current_state])
-                else:
-                    continue
 
             self.reset_hyp_and_sul(hypothesis)
             for ind, letter in enumerate(input):
-- 
2.43.0


From 04d56bba43eb4c3c04ae1ce5e393825274894690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 15/98] fix: transition focus oracle follows the current state
 of the walk

---
 aalpy/oracles/TransitionFocusOracle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aalpy/oracles/TransitionFocusOracle.py b/aalpy/oracles/TransitionFocusOracle.py
index 779d0e7..b95c5be 100644
--- a/aalpy/oracles/TransitionFocusOracle.py
+++ b/aalpy/oracles/TransitionFocusOracle.py
@@ -50,4 +50,6 @@ class TransitionFocusOracle(Oracle):
                     self.sul.post()
                     return inputs
 
+                curr_state = hypothesis.current_state
+
         return None
-- 
2.43.0


From 97918b231e44b597bf602bd71f775e2544c366ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 16/98] fix: k-way state coverage with permutations covers all
 orders of the states

---
 aalpy/oracles/kWayStateCoverageEqOracle.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aalpy/oracles/kWayStateCoverageEqOracle.py b/aalpy/oracles/kWayStateCoverageEqOracle.py
index 1530bd5..6f35db0 100644
--- a/aalpy/oracles/kWayStateCoverageEqOracle.py
+++ b/aalpy/oracles/kWayStateCoverageEqOracle.py
@@ -51,7 +51,10 @@ class KWayStateCoverageEqOracle(Oracle):
         shuffle(states)
 
         for comb in self.fun(hypothesis.states, self.k):
-            prefixes = frozenset([c.prefix for c in comb])
+            # the order of states is irrelevant only for combinations
+            prefixes = tuple(c.prefix for c in comb)
+            if self.fun is combinations:
+                prefixes = frozenset(prefixes)
             if prefixes in self.cache:
                 continue
             else:
-- 
2.43.0


From 042b97c86840055f917562fca63b9b2b35fd22a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 17/98] fix: state prefix oracle executes max_tests tests, also
 over several calls

---
 aalpy/oracles/StatePrefixEqOracle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aalpy/oracles/StatePrefixEqOracle.py b/aalpy/oracles/StatePrefixEqOracle.py
index 2bb6d72..e96098e 100644
--- a/aalpy/oracles/StatePrefixEqOracle.py
+++ b/aalpy/oracles/StatePrefixEqOracle.py
@@ -55,13 +55,13 @@ class StatePrefixEqOracle(Oracle):
             random.shuffle(states_to_cover)
 
         for state in states_to_cover:
+            if self.max_tests and self.num_queries >= self.max_tests:
+                return None
+
             self.freq_dict[state.prefix] = self.freq_dict[state.prefix] + 1
 
             self.reset_hyp_and_sul(hypothesis)
 
-            if self.max_tests and self.num_queries == self.max_tests:
-                return None
-
             prefix = state.prefix
             for p in prefix:
                 hypothesis.step(p)
-- 
2.43.0


From 280b25aeb68e834e3f1a0028bb272aa53fea77ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 18/98] fix: k-way transition coverage recomputes what cached
 paths cover in the current hypothesis

---
 aalpy/oracles/kWayTransitionCoverageEqOracle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aalpy/oracles/kWayTransitionCoverageEqOracle.py b/aalpy/oracles/kWayTransitionCoverageEqOracle.py
index db253ea..f4157e5 100644
--- a/aalpy/oracles/kWayTransitionCoverageEqOracle.py
+++ b/aalpy/oracles/kWayTransitionCoverageEqOracle.py
@@ -52,7 +52,9 @@ class KWayTransitionCoverageEqOracle(Oracle):
 
     def find_cex(self, hypothesis: Automaton):
         if self.method == 'random':
-            paths = self.generate_random_paths(hypothesis) + self.cached_paths
+            # cached paths cover other transitions in the current hypothesis than in the one they were selected for
+            cached_paths = [self.create_path(hypothesis, path.steps) for path in self.cached_paths]
+            paths = self.generate_random_paths(hypothesis) + cached_paths
             self.cached_paths = self.greedy_set_cover(hypothesis, paths)
 
             for path in self.cached_paths:
-- 
2.43.0


From 4bf62e8a93ee31cda3478ecc2494b71d619106df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 19/98] fix: cache-based oracle extends observed traces, not
 concatenations of siblings

---
 aalpy/oracles/CacheBasedEqOracle.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aalpy/oracles/CacheBasedEqOracle.py b/aalpy/oracles/CacheBasedEqOracle.py
index 5d40c47..a777352 100644
--- a/aalpy/oracles/CacheBasedEqOracle.py
+++ b/aalpy/oracles/CacheBasedEqOracle.py
@@ -92,6 +92,5 @@ class CacheBasedEqOracle(Oracle):
             paths.append(current_path)
         else:
             for inp, child in t.children.items():
-                current_path.append(inp)
-                self.get_paths(child, paths, list(current_path))
+                self.get_paths(child, paths, current_path + [inp])
         return paths
-- 
2.43.0


From 1922ee5551ffe2af6ad7f566e94fd3817ad98a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:26 +0000
Subject: [PATCH 20/98] fix: k-way transition coverage respects
 max_number_of_steps

---
 aalpy/oracles/kWayTransitionCoverageEqOracle.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/aalpy/oracles/kWayTransitionCoverageEqOracle.py b/aalpy/oracles/kWayTransitionCoverageEqOracle.py
index f4157e5..0352b5e 100644
--- a/aalpy/oracles/kWayTransitionCoverageEqOracle.py
+++ b/aalpy/oracles/kWayTransitionCoverageEqOracle.py
@@ -51,6 +51,8 @@ class KWayTransitionCoverageEqOracle(Oracle):
         self.cached_paths = list()
 
     def find_cex(self, hypothesis: Automaton):
+        start_steps = self.num_steps
+
         if self.method == 'random':
             # cached paths cover other transitions in the current hypothesis than in the one they were selected for
             cached_paths = [self.create_path(hypothesis, path.steps) for path in self.cached_paths]
@@ -58,6 +60,9 @@ class KWayTransitionCoverageEqOracle(Oracle):
             self.cached_paths = self.greedy_set_cover(hypothesis, paths)
 
             for path in self.cached_paths:
+                if self.is_limit_exceeded(start_steps, path.steps):
+                    break
+
                 counter_example = self.check_path(hypothesis, path.steps)
 
                 if counter_example is not None:
@@ -65,12 +70,19 @@ class KWayTransitionCoverageEqOracle(Oracle):
 
         elif self.method == 'prefix':
             for steps in self.generate_prefix_steps(hypothesis):
+                if self.is_limit_exceeded(start_steps, steps):
+                    break
+
                 counter_example = self.check_path(hypothesis, steps)
 
                 if counter_example is not None:
                     return counter_example
         return None
 
+    def is_limit_exceeded(self, start_steps: int, steps: tuple) -> bool:
+        return self.max_number_of_steps != 0 and \
+            self.num_steps - start_steps + len(steps) > self.max_number_of_steps
+
     def greedy_set_cover(self, hypothesis: Automaton, paths: list):
         result = list()
         covered = set()
-- 
2.43.0


From 744d91fa1696a42b80624525c3da0e1e6ffef0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:55 +0000
Subject: [PATCH 21/98] fix: load_automaton_from_file computes prefixes when
 asked to

---
 aalpy/utils/FileHandler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index 820019e..3ff5404 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -8,6 +8,7 @@ from pydot import Dot, Node, Edge
 from aalpy.automata import Dfa, MooreMachine, Mdp, Onfsm, MealyState, DfaState, MooreState, MealyMachine, \
     MdpState, StochasticMealyMachine, StochasticMealyState, OnfsmState, MarkovChain, McState, Sevpa, SevpaState, \
     SevpaTransition, Vpa, VpaState, VpaTransition, NDMooreMachine, NDMooreState
+from aalpy.base import DeterministicAutomaton
 
 file_types = ['dot', 'png', 'svg', 'pdf', 'string']
 automaton_types = {Dfa: 'dfa', MealyMachine: 'mealy', MooreMachine: 'moore', Mdp: 'mdp',
@@ -406,7 +407,7 @@ def load_automaton_from_file(path, automaton_type, compute_prefixes=False):
     automaton = aut_type(initial_state, list(node_label_dict.values()))
     if automaton_type not in {'mc', 'sevpa', 'vpa'} and not automaton.is_input_complete():
         print('Warning: Loaded automaton is not input complete.')
-    if compute_prefixes and not automaton_type not in {'mc', 'sevpa', 'vpa'}:
+    if compute_prefixes and isinstance(automaton, DeterministicAutomaton):
         for state in automaton.states:
             state.prefix = automaton.get_shortest_path(automaton.initial_state, state)
     return automaton
-- 
2.43.0


From 044c4a505b121d00dab691a102fe71cd22871bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:55 +0000
Subject: [PATCH 22/98] fix: integer outputs of MDPs and Markov chains survive
 saving and loading

---
 aalpy/utils/FileHandler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index 3ff5404..fe1a11a 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -318,7 +318,8 @@ def _strip_label(label: str) -> str:
 
 def _process_node_label_prime(node_name, label, line, node_label_dict, node_type, automaton_type):
     if automaton_type == 'mdp' or automaton_type == 'mc':
-        node_label_dict[node_name] = node_type(node_name, label)
+        output = int(label) if label.isdigit() else label
+        node_label_dict[node_name] = node_type(node_name, output)
     else:
         if automaton_type in {'moore', 'ndmoore'} and label != "":
             label_output = _strip_label(label)
-- 
2.43.0


From b646622eed0d73c90b40c8f8f67ae3e8609e0758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:10 +0000
Subject: [PATCH 23/98] fix: return transitions of loaded SEVPAs are stored
 under their letter, also for integer letters

---
 aalpy/utils/FileHandler.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index fe1a11a..85f08d8 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -1,6 +1,7 @@
 import re
 import sys
 import traceback
+from ast import literal_eval
 from pathlib import Path
 
 from pydot import Dot, Node, Edge
@@ -220,7 +221,7 @@ def save_automaton_to_file(automaton, path="LearnedModel", file_type="dot",
             print(f'Could not write to the file {path.as_posix()}.', file=sys.stderr)
 
 
-sevpa_transition_pattern = r"(\S+)\s*/\s*\(\s*'(\S+)'\s*,\s*'(\S+)'\s*\)"
+sevpa_transition_pattern = r"(\S+)\s*/\s*(\(.+,.+\))"
 vpa_push_pattern = r"(\S+)\s*/\s*push\(\s*(.*?)\s*\)"
 vpa_pop_pattern = r"(\S+)\s*/\s*pop\(\s*(.*?)\s*\)"
 
@@ -260,9 +261,10 @@ def _process_label(label, source, destination, automaton_type):
         # cast to integer
         label = int(label) if label.isdigit() else label
         if match:
-            ret, stack_guard, top_of_stack = match.groups()
-            return_transition = SevpaTransition(destination, ret, 'pop', (stack_guard, top_of_stack))
-            source.transitions[label].append(return_transition)
+            ret, stack_guard = match.groups()
+            ret = int(ret) if ret.isdigit() else ret
+            return_transition = SevpaTransition(destination, ret, 'pop', literal_eval(stack_guard))
+            source.transitions[ret].append(return_transition)
         else:
             internal_transition = SevpaTransition(destination, label, None, None)
             source.transitions[label].append(internal_transition)
-- 
2.43.0


From 4a8ce69d01ae8f8858450e27e49f6dfdf8910292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:22 +0000
Subject: [PATCH 24/98] fix: VPAs whose letters contain push or pop can be
 loaded

---
 aalpy/utils/FileHandler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index 85f08d8..7f4dcdc 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -271,12 +271,12 @@ def _process_label(label, source, destination, automaton_type):
         pass
     if automaton_type == 'vpa':
         input_symbol, stack_symbol, action = None, None, None
-        if 'push' in label:
-            push_elements = re.match(vpa_push_pattern, label)
+        push_elements = re.fullmatch(vpa_push_pattern, label)
+        pop_elements = re.fullmatch(vpa_pop_pattern, label)
+        if push_elements:
             input_symbol, stack_symbol = push_elements.group(1), push_elements.group(2)
             action = 'push'
-        elif 'pop' in label:
-            pop_elements = re.match(vpa_pop_pattern, label)
+        elif pop_elements:
             input_symbol, stack_symbol = pop_elements.group(1), pop_elements.group(2)
             action = 'pop'
         else:
-- 
2.43.0


From fb092ae67d9261a356fd0fced48117f12101c3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 25/98] fix: state setup of non-deterministic Moore machines is
 returned, so that they can be copied

---
 aalpy/automata/NonDeterministicMooreMachine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aalpy/automata/NonDeterministicMooreMachine.py b/aalpy/automata/NonDeterministicMooreMachine.py
index 97d474d..1f78813 100644
--- a/aalpy/automata/NonDeterministicMooreMachine.py
+++ b/aalpy/automata/NonDeterministicMooreMachine.py
@@ -33,6 +33,8 @@ class NDMooreMachine(Automaton[NDMooreState[InputType, OutputType]]):
                 continue
             set_dict_entry(state)
 
+        return state_setup
+
     @staticmethod
     def from_state_setup(state_setup: dict, **kwargs) -> 'NDMooreMachine':
         states_map = {key: NDMooreState(key, output=value[0]) for key, value in state_setup.items()}
-- 
2.43.0


From 27ff819cf946a96953fb29171bf45a3ab5e70770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 26/98] fix: copies of deterministic machines keep the initial
 state also if it was changed after prefixes were computed

---
 aalpy/automata/Dfa.py          | 4 +++-
 aalpy/automata/MealyMachine.py | 4 +++-
 aalpy/automata/MooreMachine.py | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/aalpy/automata/Dfa.py b/aalpy/automata/Dfa.py
index 0362dd7..d02e62e 100644
--- a/aalpy/automata/Dfa.py
+++ b/aalpy/automata/Dfa.py
@@ -57,7 +57,9 @@ class Dfa(DeterministicAutomaton[DfaState[InputType]]):
         # ensure prefixes are computed
         self.compute_prefixes()
 
-        sorted_states = sorted(self.states, key=lambda x: len(x.prefix) if x.prefix is not None else len(self.states))
+        # the first state is the initial one, also if prefixes were computed for another initial state
+        sorted_states = sorted(self.states, key=lambda x: (x != self.initial_state, len(x.prefix)
+                                                           if x.prefix is not None else len(self.states)))
         for s in sorted_states:
             state_setup_dict[s.state_id] = (s.is_accepting, {k: v.state_id for k, v in s.transitions.items()})
 
diff --git a/aalpy/automata/MealyMachine.py b/aalpy/automata/MealyMachine.py
index d498c56..af6d7fd 100644
--- a/aalpy/automata/MealyMachine.py
+++ b/aalpy/automata/MealyMachine.py
@@ -42,7 +42,9 @@ class MealyMachine(DeterministicAutomaton[MealyState[InputType, OutputType]]):
         # ensure prefixes are computed
         self.compute_prefixes()
 
-        sorted_states = sorted(self.states, key=lambda x: len(x.prefix) if x.prefix is not None else len(self.states))
+        # the first state is the initial one, also if prefixes were computed for another initial state
+        sorted_states = sorted(self.states, key=lambda x: (x != self.initial_state, len(x.prefix)
+                                                           if x.prefix is not None else len(self.states)))
         for s in sorted_states:
             state_setup_dict[s.state_id] = {k: (s.output_fun[k], v.state_id) for k, v in s.transitions.items()}
 
diff --git a/aalpy/automata/MooreMachine.py b/aalpy/automata/MooreMachine.py
index 57e40f6..49eb9bc 100644
--- a/aalpy/automata/MooreMachine.py
+++ b/aalpy/automata/MooreMachine.py
@@ -54,7 +54,9 @@ class MooreMachine(DeterministicAutomaton[MooreState[InputType, OutputType]]):
         # ensure prefixes are computed
         self.compute_prefixes()
 
-        sorted_states = sorted(self.states, key=lambda x: len(x.prefix) if x.prefix is not None else len(self.states))
+        # the first state is the initial one, also if prefixes were computed for another initial state
+        sorted_states = sorted(self.states, key=lambda x: (x != self.initial_state, len(x.prefix)
+                                                           if x.prefix is not None else len(self.states)))
         for s in sorted_states:
             state_setup_dict[s.state_id] = (s.output, {k: v.state_id for k, v in s.transitions.items()})
 
-- 
2.43.0


From 50eef21c08a0e59f69fd86e521a6067e556a544b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 27/98] fix: SEVPAs can be copied and pickled

---
 aalpy/automata/Sevpa.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aalpy/automata/Sevpa.py b/aalpy/automata/Sevpa.py
index ad3bfe3..49509c0 100644
--- a/aalpy/automata/Sevpa.py
+++ b/aalpy/automata/Sevpa.py
@@ -180,7 +180,8 @@ class Sevpa(Automaton):
     def to_state_setup(self):
         state_setup_dict = {}
 
-        sorted_states = sorted(self.states, key=lambda x: x.state_id)
+        # initial state comes first
+        sorted_states = sorted(self.states, key=lambda x: (x != self.initial_state, x.state_id))
         for state in sorted_states:
             transitions_for_symbol = {}
             for symbol, transition_list in state.transitions.items():
@@ -197,7 +198,8 @@ class Sevpa(Automaton):
     @staticmethod
     def from_state_setup(state_setup: dict, **kwargs):
 
-        init_state_id = kwargs['init_state_id']
+        # unless stated otherwise, the first state is the initial state
+        init_state_id = kwargs.get('init_state_id', next(iter(state_setup)))
 
         # build states with state_id and output
         states = {key: SevpaState(key, val[0]) for key, val in state_setup.items()}
-- 
2.43.0


From ac1ff7fbe569d673dc697949f8ff0a3dbd3a063a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 28/98] fix: VPAs can be copied and pickled

---
 aalpy/automata/Vpa.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/aalpy/automata/Vpa.py b/aalpy/automata/Vpa.py
index ca64bb7..cc79f9a 100644
--- a/aalpy/automata/Vpa.py
+++ b/aalpy/automata/Vpa.py
@@ -153,13 +153,12 @@ class Vpa(Automaton):
     def to_state_setup(self):
         state_setup_dict = {}
 
-        # ensure prefixes are computed
-        # self.compute_prefixes()
-
-        sorted_states = sorted(self.states, key=lambda x: len(x.prefix) if x.prefix is not None else len(self.states))
+        # initial state comes first
+        sorted_states = sorted(self.states, key=lambda x: x != self.initial_state)
         for s in sorted_states:
             state_setup_dict[s.state_id] = (
-                s.is_accepting, {k: (v.target_state.state_id, v.action) for k, v in s.transitions.items()})
+                s.is_accepting, {k: [(t.target_state.state_id, t.action, t.stack_guard) for t in v]
+                                 for k, v in s.transitions.items()})
 
         return state_setup_dict
 
@@ -226,7 +225,8 @@ class Vpa(Automaton):
             """
         # state_setup should map from state_id to tuple(is_accepting and transitions_dict)
 
-        init_state_id = kwargs['init_state_id']
+        # unless stated otherwise, the first state is the initial state
+        init_state_id = kwargs.get('init_state_id', next(iter(state_setup)))
 
         # build states with state_id and output
         states = {key: VpaState(key, val[0]) for key, val in state_setup.items()}
-- 
2.43.0


From 8d69926c62bad427d665daf7929b1261ae9052f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 29/98] fix: characterization sets of DFAs and Moore machines
 contain the empty sequence also if initial sequences are given, which are no
 longer modified

---
 aalpy/automata/Dfa.py          | 9 ++++++---
 aalpy/automata/MooreMachine.py | 9 ++++++---
 aalpy/base/Automaton.py        | 2 +-
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/aalpy/automata/Dfa.py b/aalpy/automata/Dfa.py
index d02e62e..1c68b29 100644
--- a/aalpy/automata/Dfa.py
+++ b/aalpy/automata/Dfa.py
@@ -42,9 +42,12 @@ class Dfa(DeterministicAutomaton[DfaState[InputType]]):
 
     def compute_characterization_set(self, char_set_init=None, online_suffix_closure=True, split_all_blocks=True,
                                      return_same_states=False, raise_warning=True):
-        return super(Dfa, self).compute_characterization_set(char_set_init if char_set_init else [()],
-                                                             online_suffix_closure, split_all_blocks,
-                                                             return_same_states, raise_warning)
+        # the empty sequence distinguishes states with different outputs
+        char_set_init = list(char_set_init) if char_set_init else []
+        if () not in char_set_init:
+            char_set_init.insert(0, ())
+        return super(Dfa, self).compute_characterization_set(char_set_init, online_suffix_closure,
+                                                            split_all_blocks, return_same_states, raise_warning)
 
     def compute_output_seq(self, state, sequence):
         if not sequence:
diff --git a/aalpy/automata/MooreMachine.py b/aalpy/automata/MooreMachine.py
index 49eb9bc..249efb7 100644
--- a/aalpy/automata/MooreMachine.py
+++ b/aalpy/automata/MooreMachine.py
@@ -39,9 +39,12 @@ class MooreMachine(DeterministicAutomaton[MooreState[InputType, OutputType]]):
 
     def compute_characterization_set(self, char_set_init=None, online_suffix_closure=True, split_all_blocks=True,
                                      return_same_states=False, raise_warning=True):
-        return super(MooreMachine, self).compute_characterization_set(char_set_init if char_set_init else [()],
-                                                                      online_suffix_closure, split_all_blocks,
-                                                                      return_same_states, raise_warning)
+        # the empty sequence distinguishes states with different outputs
+        char_set_init = list(char_set_init) if char_set_init else []
+        if () not in char_set_init:
+            char_set_init.insert(0, ())
+        return super(MooreMachine, self).compute_characterization_set(char_set_init, online_suffix_closure,
+                                                            split_all_blocks, return_same_states, raise_warning)
 
     def compute_output_seq(self, state, sequence):
         if not sequence:
diff --git a/aalpy/base/Automaton.py b/aalpy/base/Automaton.py
index 73878c6..ccf96f8 100644
--- a/aalpy/base/Automaton.py
+++ b/aalpy/base/Automaton.py
@@ -346,7 +346,7 @@ class DeterministicAutomaton(Automaton[AutomatonStateType]):
         """
         blocks = list()
         blocks.append(copy.copy(self.states))
-        char_set = [] if not char_set_init else char_set_init
+        char_set = [] if not char_set_init else list(char_set_init)
         if char_set_init:
             for seq in char_set_init:
                 blocks = self._split_blocks(blocks, seq)
-- 
2.43.0


From 9675838658ec97a518084de5114a29c9a1d8f25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 30/98] fix: find_distinguishing_seq does not report states
 with different outputs as equivalent

---
 aalpy/base/Automaton.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aalpy/base/Automaton.py b/aalpy/base/Automaton.py
index ccf96f8..ca35f38 100644
--- a/aalpy/base/Automaton.py
+++ b/aalpy/base/Automaton.py
@@ -292,6 +292,10 @@ class DeterministicAutomaton(Automaton[AutomatonStateType]):
                     if (next_s1, next_s2) not in visited:
                         to_explore.append((next_s1, next_s2, new_prefix))
 
+        # states that only differ in their own output are distinguished by the empty sequence
+        if self.compute_output_seq(state1, ()) != self.compute_output_seq(state2, ()):
+            return []
+
         return None
 
     def compute_output_seq(self, state, sequence):
-- 
2.43.0


From 5f87d978fe64818142b8fc3dfe8f2ab2ba168243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:20 +0000
Subject: [PATCH 31/98] fix: failsafe of compare_automata stops the search

---
 aalpy/utils/ModelChecking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/ModelChecking.py b/aalpy/utils/ModelChecking.py
index 3199250..54eb628 100644
--- a/aalpy/utils/ModelChecking.py
+++ b/aalpy/utils/ModelChecking.py
@@ -333,7 +333,7 @@ def compare_automata(aut_1: DeterministicAutomaton, aut_2: DeterministicAutomato
     # be reached
     failsafe_counter = 0
     failsafe_stopping = num_cex * 100
-    while len(found_cex) < num_cex or failsafe_counter == failsafe_stopping:
+    while len(found_cex) < num_cex and failsafe_counter < failsafe_stopping:
         cex = eq_oracle.find_cex(test_automaton)
         # if no counterexample can be found terminate the loop
         if cex is None:
-- 
2.43.0


From 89fcbd96a8a1a09d8d34f99a244b38af407ab596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:20 +0000
Subject: [PATCH 32/98] fix: TomitaSUL answers the empty word

---
 aalpy/SULs/TomitaSUL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/SULs/TomitaSUL.py b/aalpy/SULs/TomitaSUL.py
index 89a7fbe..218fb62 100644
--- a/aalpy/SULs/TomitaSUL.py
+++ b/aalpy/SULs/TomitaSUL.py
@@ -26,7 +26,7 @@ class TomitaSUL(SUL):
         pass
 
     def step(self, letter):
-        if input:
+        if letter is not None:
             self.string += str(letter)
         return self.tomita_level(self.string)
 
-- 
2.43.0


From fcb56b67101602eec88860806b6cf3b39c9b86bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:20 +0000
Subject: [PATCH 33/98] fix: RegexSUL accepts only exact matches, also for
 alternatives

---
 aalpy/SULs/RegexSUL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/SULs/RegexSUL.py b/aalpy/SULs/RegexSUL.py
index 1499bdc..c18ea1f 100644
--- a/aalpy/SULs/RegexSUL.py
+++ b/aalpy/SULs/RegexSUL.py
@@ -34,4 +34,4 @@ class RegexSUL(SUL):
         """
         if letter is not None:
             self.string += str(letter)
-        return True if re.match(self.regex, self.string) else False
+        return True if re.fullmatch(self.regex, self.string) else False
-- 
2.43.0


From 989c8805610f53ac25f3227bf0a3922b7d1854ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:20 +0000
Subject: [PATCH 34/98] fix: FunctionDecorator passes falsy arguments to the
 function

---
 aalpy/SULs/PyMethodSUL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/SULs/PyMethodSUL.py b/aalpy/SULs/PyMethodSUL.py
index d45d7b4..cc1e42a 100644
--- a/aalpy/SULs/PyMethodSUL.py
+++ b/aalpy/SULs/PyMethodSUL.py
@@ -18,7 +18,7 @@ class FunctionDecorator:
 
         self.function = function
         self.args = None
-        if args:
+        if args is not None:
             self.args = [args] if not isinstance(args, (list, tuple)) else args
 
     def __repr__(self):
-- 
2.43.0


From edc4e5e481fe0a022eef1fffcb0afa93b0b385ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:20 +0000
Subject: [PATCH 35/98] fix: sink state of completed non-deterministic Moore
 machines has an output

---
 aalpy/utils/HelperFunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/HelperFunctions.py b/aalpy/utils/HelperFunctions.py
index fb52c0b..a9831e8 100644
--- a/aalpy/utils/HelperFunctions.py
+++ b/aalpy/utils/HelperFunctions.py
@@ -251,7 +251,7 @@ def make_input_complete(automaton, missing_transition_go_to='self_loop'):
                             MooreMachine: MooreState(state_id='sink', output='sink_state'),
                             MealyMachine: MealyState(state_id='sink'),
                             Onfsm: OnfsmState(state_id='sink'),
-                            NDMooreMachine: NDMooreState(state_id='sink'),
+                            NDMooreMachine: NDMooreState(state_id='sink', output='sink_state'),
                             Mdp: MdpState(state_id='sink', output='sink_state'),
                             StochasticMealyMachine: StochasticMealyState(state_id='sink')}
 
-- 
2.43.0


From e01fe8d6e1d088dda81f8c5a733fa3915bb31e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:06 +0000
Subject: [PATCH 36/98] fix: minimization does not remove the initial state

---
 aalpy/base/Automaton.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aalpy/base/Automaton.py b/aalpy/base/Automaton.py
index ca35f38..1d61375 100644
--- a/aalpy/base/Automaton.py
+++ b/aalpy/base/Automaton.py
@@ -441,6 +441,9 @@ class DeterministicAutomaton(Automaton[AutomatonStateType]):
 
         s1, s2 = self.compute_characterization_set(return_same_states=True)
         while s1 and s2:
+            # the initial state is never removed
+            if s2 == self.initial_state:
+                s1, s2 = s2, s1
             for s in self.states:
                 for i, new_state in s.transitions.items():
                     if new_state == s2:
-- 
2.43.0


From cea8ee47cd3e0d31cf3691f0daa2917f0452348d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:00 +0000
Subject: [PATCH 37/98] fix: generate_test_cases returns also the last test
 case

---
 aalpy/utils/ModelChecking.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aalpy/utils/ModelChecking.py b/aalpy/utils/ModelChecking.py
index 54eb628..be3f222 100644
--- a/aalpy/utils/ModelChecking.py
+++ b/aalpy/utils/ModelChecking.py
@@ -363,6 +363,7 @@ class TestCaseWrapperSUL(SUL):
     def post(self):
         if self.test_case_inputs and self.test_case_outputs:
             self.test_cases.append((tuple(self.test_case_inputs), tuple(self.test_case_outputs)))
+        self.test_case_inputs, self.test_case_outputs = [], []
         return self.sul.post()
 
     def step(self, letter):
@@ -396,6 +397,8 @@ def generate_test_cases(automaton: DeterministicAutomaton, oracle):
     # no counterexamples can be found
     cex = oracle.find_cex(automaton)
     assert cex is None
+    # the oracle ends the last test case only when it starts another one
+    wrapped_sul.post()
     return wrapped_sul.test_cases
 
 
-- 
2.43.0


From 7d7c240dc475220e0f1a2310e775a83e15a87fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:50 +0000
Subject: [PATCH 38/98] fix: random W-method and compare_automata skip
 unreachable states

---
 aalpy/oracles/WMethodEqOracle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aalpy/oracles/WMethodEqOracle.py b/aalpy/oracles/WMethodEqOracle.py
index f655c1d..db00c59 100644
--- a/aalpy/oracles/WMethodEqOracle.py
+++ b/aalpy/oracles/WMethodEqOracle.py
@@ -117,6 +117,9 @@ class RandomWMethodEqOracle(Oracle):
         for state in hypothesis.states:
             if state.prefix is None:
                 state.prefix = hypothesis.get_shortest_path(hypothesis.initial_state, state)
+            # unreachable states cannot be covered
+            if state.prefix is None:
+                continue
             if state.prefix not in self.freq_dict.keys():
                 self.freq_dict[state.prefix] = 0
 
-- 
2.43.0


From b33b2ec1184b90f49a22d0872ae289721d5d669b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:14 +0000
Subject: [PATCH 39/98] fix: input completion also adds transitions that were
 looked up before

---
 aalpy/base/Automaton.py        | 7 ++++---
 aalpy/utils/HelperFunctions.py | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/aalpy/base/Automaton.py b/aalpy/base/Automaton.py
index 1d61375..064bf9b 100644
--- a/aalpy/base/Automaton.py
+++ b/aalpy/base/Automaton.py
@@ -103,7 +103,8 @@ class Automaton(ABC, Generic[AutomatonStateType]):
         """
         alphabet = set(self.get_input_alphabet())
         for state in self.states:
-            if set(state.transitions.keys()) != alphabet:
+            # transitions of non-deterministic models are default dictionaries, reading a missing one adds an empty list
+            if {i for i, t in state.transitions.items() if t != []} != alphabet:
                 return False
         return True
 
@@ -114,8 +115,8 @@ class Automaton(ABC, Generic[AutomatonStateType]):
         """
         alphabet = list()
         for s in self.states:
-            for i in s.transitions.keys():
-                if i not in alphabet:
+            for i, t in s.transitions.items():
+                if t != [] and i not in alphabet:
                     alphabet.append(i)
         return list(alphabet)
 
diff --git a/aalpy/utils/HelperFunctions.py b/aalpy/utils/HelperFunctions.py
index a9831e8..fede478 100644
--- a/aalpy/utils/HelperFunctions.py
+++ b/aalpy/utils/HelperFunctions.py
@@ -261,7 +261,7 @@ def make_input_complete(automaton, missing_transition_go_to='self_loop'):
 
     for state in automaton.states:
         for i in input_al:
-            if i not in state.transitions.keys():
+            if i not in state.transitions.keys() or state.transitions[i] == []:
                 target_state = state if missing_transition_go_to == 'self_loop' else sink_state
 
                 if isinstance(automaton, (DeterministicAutomaton, Dfa, MooreMachine, MealyMachine)):
-- 
2.43.0


From 88e3e17d55be8548594c87dac758ba16c4dcc15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:55 +0000
Subject: [PATCH 40/98] fix: RegexSUL accepts the empty expression

---
 aalpy/SULs/RegexSUL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/SULs/RegexSUL.py b/aalpy/SULs/RegexSUL.py
index c18ea1f..3cd6f00 100644
--- a/aalpy/SULs/RegexSUL.py
+++ b/aalpy/SULs/RegexSUL.py
@@ -9,7 +9,7 @@ class RegexSUL(SUL):
     """
     def __init__(self, regex: str):
         super().__init__()
-        self.regex = regex if regex[-1] == '$' else regex + '$'
+        self.regex = regex if regex.endswith('$') else regex + '$'
         self.string = ""
 
     def pre(self):
-- 
2.43.0


From 7afeb02201d108eaa07d5df61418fbab86ce7cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:46 +0000
Subject: [PATCH 41/98] fix: input completeness of VPAs does not depend on
 transitions that were looked up before

---
 aalpy/automata/Vpa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/automata/Vpa.py b/aalpy/automata/Vpa.py
index cc79f9a..bc7c229 100644
--- a/aalpy/automata/Vpa.py
+++ b/aalpy/automata/Vpa.py
@@ -190,7 +190,8 @@ class Vpa(Automaton):
         """
         alphabet = set(self.get_input_alphabet().get_merged_alphabet())
         for state in self.states:
-            if set(state.transitions.keys()) != alphabet:
+            # looking up a missing transition adds an empty list
+            if {i for i, t in state.transitions.items() if t} != alphabet:
                 return False
         return True
 
-- 
2.43.0


From f2e8ed4e33b57f3d8010974acb43321f9c058de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:46 +0000
Subject: [PATCH 42/98] fix: executing a sequence on a VPA starts with an empty
 stack

---
 aalpy/automata/Vpa.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aalpy/automata/Vpa.py b/aalpy/automata/Vpa.py
index bc7c229..de4efc1 100644
--- a/aalpy/automata/Vpa.py
+++ b/aalpy/automata/Vpa.py
@@ -150,6 +150,11 @@ class Vpa(Automaton):
 
         return self.current_state.is_accepting and self.stack == []
 
+    def execute_sequence(self, origin_state, seq):
+        self.reset_to_initial()
+        self.current_state = origin_state
+        return [self.step(s) for s in seq]
+
     def to_state_setup(self):
         state_setup_dict = {}
 
-- 
2.43.0


From 1993ccfc98381eabfccd855b06b463cf03891645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:46 +0000
Subject: [PATCH 43/98] fix: internal transitions of SEVPAs are printed

---
 aalpy/automata/Sevpa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/automata/Sevpa.py b/aalpy/automata/Sevpa.py
index 49509c0..e8aee9e 100644
--- a/aalpy/automata/Sevpa.py
+++ b/aalpy/automata/Sevpa.py
@@ -80,7 +80,7 @@ class SevpaTransition:
             str: A string representation of the transition.
         """
         return f'{self.letter} --> {self.target_state.state_id}' + \
-               f' | {self.action}: {self.stack_guard}' if self.stack_guard else ''
+               (f' | {self.action}: {self.stack_guard}' if self.stack_guard else '')
 
 
 class Sevpa(Automaton):
-- 
2.43.0


From e9ead3737702587d57cfeafbb8f81629b212fdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:46 +0000
Subject: [PATCH 44/98] fix: random accepting words of SEVPAs without return
 letters

---
 aalpy/automata/Sevpa.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aalpy/automata/Sevpa.py b/aalpy/automata/Sevpa.py
index e8aee9e..3193981 100644
--- a/aalpy/automata/Sevpa.py
+++ b/aalpy/automata/Sevpa.py
@@ -455,10 +455,12 @@ class Sevpa(Automaton):
         word = []
 
         internal_letter_prob = 0.0
-        if len(self.input_alphabet.internal_alphabet) != 0:
-            internal_letter_prob = 1.0 - return_letter_prob
-        else:
+        if len(self.input_alphabet.internal_alphabet) == 0:
             return_letter_prob = 1.0
+        elif len(self.input_alphabet.return_alphabet) == 0:
+            return_letter_prob, internal_letter_prob = 0.0, 1.0
+        else:
+            internal_letter_prob = 1.0 - return_letter_prob
 
         assert (return_letter_prob + internal_letter_prob) == 1.0
 
-- 
2.43.0


From e2755dbb4c0168be39e9f5cd32905cd151a09851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:26 +0000
Subject: [PATCH 45/98] fix: SEVPA word generation considers states that are
 only reached by return transitions

---
 aalpy/automata/Sevpa.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/aalpy/automata/Sevpa.py b/aalpy/automata/Sevpa.py
index 3193981..8ec9c37 100644
--- a/aalpy/automata/Sevpa.py
+++ b/aalpy/automata/Sevpa.py
@@ -364,8 +364,8 @@ class Sevpa(Automaton):
         """
         Returns a dict of states that are allowed to push a call letters on the stack.
 
-        For all states that are connected via internal transitions from the initial state on, the state_id and
-        call_letter of the stack_guard from every return transition is used.
+        For all states that are connected via internal or return transitions from the initial state on, the state_id
+        and call_letter of the stack_guard from every return transition is used.
 
         States are not allowed to push something somthing on the stack if there is no possibility to pop the
         stack guard, where their state_id is used, from the stack, which would lead into a dead-end otherwise.
@@ -374,17 +374,17 @@ class Sevpa(Automaton):
         - dict: A dictionary where keys are the call_letters and values are sets of the allowed states.
         """
 
-        # get all states that are connected via internal transitions by using BFS
+        # get all states that are connected via internal or return transitions by using BFS
         connected_states = set()
         queue = deque([self.initial_state])
         while queue:
             current_state = queue.popleft()
             connected_states.add(current_state)
 
-            for internal_letter in self.input_alphabet.internal_alphabet:
-                for internal_trans in current_state.transitions[internal_letter]:
-                    target_state = internal_trans.target_state
-                    if target_state not in connected_states:
+            for letter in self.input_alphabet.internal_alphabet + self.input_alphabet.return_alphabet:
+                for transition in current_state.transitions[letter]:
+                    target_state = transition.target_state
+                    if target_state not in connected_states and target_state not in queue:
                         queue.append(target_state)
 
         allowed_call_transitions = defaultdict(set)
-- 
2.43.0


From 3176b246f119aef61547342ec7149233ac91b71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:28 +0000
Subject: [PATCH 46/98] fix: OnfsmState.get_transition finds falsy outputs

---
 aalpy/automata/Onfsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/automata/Onfsm.py b/aalpy/automata/Onfsm.py
index fb0bc9a..46eff06 100644
--- a/aalpy/automata/Onfsm.py
+++ b/aalpy/automata/Onfsm.py
@@ -38,7 +38,7 @@ class OnfsmState(AutomatonState, Generic[InputType, OutputType]):
 
         """
         possible_transitions = self.transitions[input]
-        if output:
+        if output is not None:
             return next((t for t in possible_transitions if t[0] == output), None)
         else:
             return possible_transitions
-- 
2.43.0


From 47e17d7c5ea73f287c874b6b7a011512f9367c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:32 +0000
Subject: [PATCH 47/98] fix: RPNI does not reorder the provided data

---
 .../deterministic_passive/rpni_helper_functions.py           | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py b/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
index 4cf93e0..8c9888e 100644
--- a/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
+++ b/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
@@ -72,10 +72,9 @@ def check_sequence(root_node, seq, automaton_type):
 
 
 def createPTA(data, automaton_type):
-    data.sort(key=lambda x: len(x[0]))
-
     root_node = RpniNode(automaton_type=automaton_type)
-    for seq, label in data:
+    # shorter sequences first, without changing the order of the provided data
+    for seq, label in sorted(data, key=lambda x: len(x[0])):
         curr_node = root_node
         for idx, symbol in enumerate(seq):
             if symbol not in curr_node.children.keys():
-- 
2.43.0


From aa018255aaff015bc9e644bc723790b38a069366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:00 +0000
Subject: [PATCH 48/98] fix: classic RPNI handles Mealy machines

createPTA keys children by input; the state merging still expected (input, output) keys.
---
 .../deterministic_passive/ClassicRPNI.py      | 38 ++++---------------
 .../rpni_helper_functions.py                  | 14 ++++---
 2 files changed, 16 insertions(+), 36 deletions(-)

diff --git a/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py b/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
index d389a11..d6446a0 100644
--- a/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
+++ b/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
@@ -66,16 +66,8 @@ class ClassicRPNI:
         """
         Only allow merging of states that have same output(s).
         """
-        if self.automaton_type != 'mealy':
-            # None is compatible with everything
-            return red_node.output == blue_node.output or red_node.output is None or blue_node.output is None
-        else:
-            red_io = {i: o for i, o in red_node.children.keys()}
-            blue_io = {i: o for i, o in blue_node.children.keys()}
-            for common_i in set(red_io.keys()).intersection(blue_io.keys()):
-                if red_io[common_i] != blue_io[common_i]:
-                    return False
-        return True
+        # None is compatible with everything
+        return red_node.compatible_outputs(blue_node)
 
     def _merge(self, red_node, lex_min_blue, copy_nodes=False):
         """
@@ -94,16 +86,16 @@ class ClassicRPNI:
 
         to_update.children[lex_min_blue.prefix[-1]] = red_node_in_tree
 
-        if self.automaton_type != 'mealy':
-            self._fold(red_node_in_tree, lex_min_blue)
-        else:
-            self._fold_mealy(red_node_in_tree, lex_min_blue)
+        self._fold(red_node_in_tree, lex_min_blue)
 
         return root_node
 
     def _fold(self, red_node, blue_node):
         # Change the output of red only to concrete output, ignore None
-        red_node.output = blue_node.output if blue_node.output is not None else red_node.output
+        if self.automaton_type == 'mealy':
+            red_node.output.update(blue_node.output)
+        elif blue_node.output is not None:
+            red_node.output = blue_node.output
 
         for i in blue_node.children.keys():
             if i in red_node.children.keys():
@@ -111,19 +103,3 @@ class ClassicRPNI:
             else:
                 red_node.children[i] = blue_node.children[i]
 
-    def _fold_mealy(self, red_node, blue_node):
-        blue_io_map = {i: o for i, o in blue_node.children.keys()}
-
-        updated_keys = {}
-        for io, val in red_node.children.items():
-            o = blue_io_map[io[0]] if io[0] in blue_io_map.keys() else io[1]
-            updated_keys[(io[0], o)] = val
-
-        red_node.children = updated_keys
-
-        for io in blue_node.children.keys():
-            if io in red_node.children.keys():
-                self._fold_mealy(red_node.children[io], blue_node.children[io])
-            else:
-                red_node.children[io] = blue_node.children[io]
-
diff --git a/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py b/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
index 8c9888e..a3f0a74 100644
--- a/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
+++ b/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
@@ -59,10 +59,9 @@ def check_sequence(root_node, seq, automaton_type):
     curr_node = root_node
     for i, o in seq:
         if automaton_type == 'mealy':
-            input_outputs = {i: o for i, o in curr_node.children.keys()}
-            if i[0] not in input_outputs.keys() or o is not None and input_outputs[i[0]] != o:
+            if o is not None and curr_node.output.get(i) != o:
                 return False
-            curr_node = curr_node.children[(i[0], input_outputs[i[0]])]
+            curr_node = curr_node.children[i]
         else:
             # For dfa and moore, check if outputs are the same, iff output in test data is concrete (not None)
             curr_node = curr_node.children[i]
@@ -117,8 +116,13 @@ def extract_unique_sequences(root_node):
         seq = []
         curr_node = root_node
         for i in node.prefix:
-            curr_node = curr_node.children[i]
-            seq.append((i, curr_node.output))
+            if root_node.type == 'mealy':
+                output = curr_node.output.get(i)
+                curr_node = curr_node.children[i]
+            else:
+                curr_node = curr_node.children[i]
+                output = curr_node.output
+            seq.append((i, output))
         paths.append(seq)
 
     return paths
-- 
2.43.0


From 585a71d1c427205182d7ca5f7fd93169844ac28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:00 +0000
Subject: [PATCH 49/98] fix: classic RPNI does not contradict the label of the
 empty sequence

---
 aalpy/learning_algs/deterministic_passive/ClassicRPNI.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py b/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
index d6446a0..689c073 100644
--- a/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
+++ b/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
@@ -13,6 +13,8 @@ class ClassicRPNI:
         pta_construction_start = time.time()
         self.root_node = createPTA(data, automaton_type)
         self.test_data = extract_unique_sequences(self.root_node)
+        # output observed for the empty sequence, which is not part of the extracted sequences
+        self.initial_output = self.root_node.output if automaton_type != 'mealy' else None
 
         if self.print_info:
             print(f'PTA Construction Time: {round(time.time() - pta_construction_start, 2)}')
@@ -57,6 +59,8 @@ class ClassicRPNI:
         """
         Check if current model is compatible with the data.
         """
+        if self.initial_output is not None and root_node.output != self.initial_output:
+            return False
         for sequence in self.test_data:
             if not check_sequence(root_node, sequence, automaton_type=self.automaton_type):
                 return False
-- 
2.43.0


From 7fffa10de4e4cdb3302686d133c20e97590a0733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:00 +0000
Subject: [PATCH 50/98] fix: classic RPNI does not crash on non-deterministic
 data

---
 aalpy/learning_algs/deterministic_passive/ClassicRPNI.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py b/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
index 689c073..0b3337d 100644
--- a/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
+++ b/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
@@ -12,6 +12,10 @@ class ClassicRPNI:
 
         pta_construction_start = time.time()
         self.root_node = createPTA(data, automaton_type)
+        if self.root_node is None:
+            # data is not consistent with deterministic automaton
+            return
+
         self.test_data = extract_unique_sequences(self.root_node)
         # output observed for the empty sequence, which is not part of the extracted sequences
         self.initial_output = self.root_node.output if automaton_type != 'mealy' else None
-- 
2.43.0


From 384c04d0db854b5f6742e5c3bf08afe6df52f395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:17 +0000
Subject: [PATCH 51/98] fix: PAPNI works with call and internal symbols that
 are tuples

---
 aalpy/automata/Vpa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/automata/Vpa.py b/aalpy/automata/Vpa.py
index de4efc1..531ccab 100644
--- a/aalpy/automata/Vpa.py
+++ b/aalpy/automata/Vpa.py
@@ -320,7 +320,8 @@ def vpa_from_dfa_representation(dfa_repr, vpa_alphabet):
             reached_state = vpa_states[reached_dfa_state.state_id]
 
             top_of_stack = None
-            if isinstance(input_symbol, tuple):
+            # return symbols are encoded as (return symbol, top of stack), other symbols could also be tuples
+            if input_symbol not in vpa_alphabet.internal_alphabet and input_symbol not in vpa_alphabet.call_alphabet:
                 input_symbol, top_of_stack = input_symbol[0], input_symbol[1]
 
             if input_symbol in vpa_alphabet.return_alphabet:
-- 
2.43.0


From 863e463faf889381f0cf769acd9e659107fcde09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:17 +0000
Subject: [PATCH 52/98] fix: contradicting labels of the empty sequence are
 detected by state merging

---
 aalpy/learning_algs/general_passive/GsmNode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aalpy/learning_algs/general_passive/GsmNode.py b/aalpy/learning_algs/general_passive/GsmNode.py
index 8d72e14..041bd6a 100644
--- a/aalpy/learning_algs/general_passive/GsmNode.py
+++ b/aalpy/learning_algs/general_passive/GsmNode.py
@@ -415,6 +415,8 @@ class GsmNode:
         # set last output
         curr_node.resolve_unknown_prefix_output(output)
         pred = curr_node.predecessor
+        if not pred and curr_node.get_prefix_output() != output:
+            raise ValueError("nondeterminism encountered for GSM with labeled_sequences. not supported")
         if pred:
             transitions = pred.transitions[in_sym]
             if unknown_output in transitions:
-- 
2.43.0


From 49cccb601d5a184fbbe9f71468a68d8a5ed96863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:17 +0000
Subject: [PATCH 53/98] fix: PAPNI does not crash on non-deterministic data

---
 aalpy/learning_algs/deterministic_passive/RPNI.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aalpy/learning_algs/deterministic_passive/RPNI.py b/aalpy/learning_algs/deterministic_passive/RPNI.py
index 04bbead..89008d6 100644
--- a/aalpy/learning_algs/deterministic_passive/RPNI.py
+++ b/aalpy/learning_algs/deterministic_passive/RPNI.py
@@ -111,6 +111,9 @@ def run_PAPNI(data, vpa_alphabet, algorithm='edsm', print_info=True):
     else:
         learned_model = run_EDSM(papni_data, automaton_type='dfa', print_info=print_info)
 
+    if learned_model is None:
+        return None
+
     # convert intermediate DFA representation to VPA
     learned_model = vpa_from_dfa_representation(learned_model, vpa_alphabet)
 
-- 
2.43.0


From 964f8d82d6bb5d8769443685c46856c77b09700d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:30 +0000
Subject: [PATCH 54/98] fix: transforming the score of a score calculation
 object does not recurse infinitely

---
 aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py b/aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py
index 0f1cd97..be55418 100644
--- a/aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py
+++ b/aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py
@@ -182,7 +182,8 @@ def transform_score(score, transform: Callable):
     if isinstance(score, Callable):
         return lambda *args: transform(score(*args))
     if isinstance(score, ScoreCalculation):
-        score.score_function = lambda *args: transform(score.score_function(*args))
+        score_function = score.score_function
+        score.score_function = lambda *args: transform(score_function(*args))
         return score
     return transform(score)
 
-- 
2.43.0


From ce52a1503ae2c52133523f5ff7b0366cf244b69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 55/98] fix: Alergia handles data with symbols of different
 types

---
 aalpy/learning_algs/stochastic_passive/FPTA.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic_passive/FPTA.py b/aalpy/learning_algs/stochastic_passive/FPTA.py
index 0393b86..77b37ea 100644
--- a/aalpy/learning_algs/stochastic_passive/FPTA.py
+++ b/aalpy/learning_algs/stochastic_passive/FPTA.py
@@ -41,7 +41,13 @@ class AlergiaPtaNode:
         return {o: freq for (i, o), freq in self.original_input_frequency.items() if i == target_input}
 
     def __lt__(self, other):
-        return (len(self.prefix), self.prefix) < (len(other.prefix), other.prefix)
+        if len(self.prefix) != len(other.prefix):
+            return len(self.prefix) < len(other.prefix)
+        try:
+            return self.prefix < other.prefix
+        except TypeError:
+            # symbols of different types cannot be compared
+            return [str(x) for x in self.prefix] < [str(x) for x in other.prefix]
 
     def __le__(self, other):
         return self < other or self == other
-- 
2.43.0


From fac5cea0f8f9a7a34eb701331364de3c94afeee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 56/98] fix: Alergia computes a valid eps for very small data
 sets

---
 aalpy/learning_algs/stochastic_passive/Alergia.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic_passive/Alergia.py b/aalpy/learning_algs/stochastic_passive/Alergia.py
index 6534504..41c422b 100644
--- a/aalpy/learning_algs/stochastic_passive/Alergia.py
+++ b/aalpy/learning_algs/stochastic_passive/Alergia.py
@@ -18,7 +18,8 @@ class Alergia:
         self.print_info = print_info
 
         if eps == 'auto':
-            eps = 10 / sum(len(d) - 1 for d in data)  # len - 1 to ignore initial output
+            # len - 1 to ignore initial output, eps cannot be greater than 2 (very small data sets)
+            eps = min(2, 10 / max(1, sum(len(d) - 1 for d in data)))
 
         self.diff_checker = HoeffdingCompatibility(eps) if not compatibility_checker else compatibility_checker
 
-- 
2.43.0


From 9cf950b44b3ef3cf49952f1b7870138e037b1b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 57/98] fix: mc_from_mdp handles MDPs without transitions and
 falsy input symbols

---
 aalpy/utils/HelperFunctions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aalpy/utils/HelperFunctions.py b/aalpy/utils/HelperFunctions.py
index fede478..1cf4cbb 100644
--- a/aalpy/utils/HelperFunctions.py
+++ b/aalpy/utils/HelperFunctions.py
@@ -433,9 +433,10 @@ def dfa_from_moore(moore_model: MooreMachine) -> Dfa:
 
 def mc_from_mdp(mdp: Mdp, input_symbol=None) -> MarkovChain:
     alphabet = mdp.get_input_alphabet()
-    if len(alphabet) != 1 and input_symbol is None:
+    if len(alphabet) > 1 and input_symbol is None:
         raise ValueError('Cannot convert MDP with several inputs to Markov chain.')
-    input_symbol = input_symbol or alphabet[0]
+    if input_symbol is None and alphabet:
+        input_symbol = alphabet[0]
 
     state_map = {state.state_id: McState(state.state_id, state.output) for state in mdp.states}
     for state in mdp.states:
-- 
2.43.0


From 75ada018326e902c9b50d6bb94d2c0ef3a3265cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:10 +0000
Subject: [PATCH 58/98] fix: non-deterministic L* terminates if a
 counterexample is a trace that only the hypothesis can produce

---
 aalpy/learning_algs/non_deterministic/OnfsmLstar.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
index 223cb36..8fa2316 100644
--- a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
+++ b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
@@ -82,7 +82,7 @@ def run_non_det_Lstar(alphabet: list, sul: SUL, eq_oracle: Oracle, n_sampling=5,
 
         hypothesis = ot.gen_hypothesis()
 
-        if counterexample_not_valid(hypothesis, last_cex):
+        if counterexample_not_valid(hypothesis, last_cex, sul.cache):
             cex = sul.cache.find_cex_in_cache(hypothesis)
 
             if cex is None:
@@ -139,12 +139,14 @@ def run_non_det_Lstar(alphabet: list, sul: SUL, eq_oracle: Oracle, n_sampling=5,
     return hypothesis
 
 
-def counterexample_not_valid(hypothesis, cex):
+def counterexample_not_valid(hypothesis, cex, cache):
     if cex is None:
         return True
+    # a counterexample is either a trace of the system which the hypothesis cannot produce, or vice versa
+    is_sul_trace = cache.get_to_node(*cex) is not None
     hypothesis.reset_to_initial()
     for i, o in zip(cex[0], cex[1]):
         out = hypothesis.step_to(i, o)
         if out is None:
-            return False
-    return True
+            return not is_sul_trace
+    return is_sul_trace
-- 
2.43.0


From 085d0f66b49cd752a52a783e4b2c1e56d0e06fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:59 +0000
Subject: [PATCH 59/98] fix: non-deterministic L* respects the round limit and
 returns the model of the last round

The table is extended after the last round, a stochastic model cannot be generated from it.
---
 aalpy/learning_algs/non_deterministic/OnfsmLstar.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
index 8fa2316..bc229ba 100644
--- a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
+++ b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
@@ -67,9 +67,6 @@ def run_non_det_Lstar(alphabet: list, sul: SUL, eq_oracle: Oracle, n_sampling=5,
     hypothesis = None
 
     while True:
-        if max_learning_rounds and learning_rounds - 1 == max_learning_rounds:
-            break
-
         ot.S = list()
         ot.S.append((tuple(), tuple()))
         ot.query_missing_observations()
@@ -102,7 +99,7 @@ def run_non_det_Lstar(alphabet: list, sul: SUL, eq_oracle: Oracle, n_sampling=5,
         else:
             cex = last_cex
 
-        if cex is None:
+        if cex is None or (max_learning_rounds and learning_rounds == max_learning_rounds):
             break
         else:
             cex_suffixes = all_suffixes(cex[0])
-- 
2.43.0


From 5beb6b08e563bed0d63a081d6ffd569d9cef93c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:15 +0000
Subject: [PATCH 60/98] fix: abstracted non-deterministic L* handles inputs and
 outputs that cannot be compared with each other

---
 .../non_deterministic/AbstractedOnfsmObservationTable.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
index e01ad1a..e58759f 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
@@ -420,7 +420,7 @@ class AbstractedNonDetObservationTable:
         update_S = self.S.copy()
         whole_S = self.S + self.S_dot_A
 
-        update_S.sort()
+        update_S.sort(key=str)
         update_S.sort(key=lambda t: len(t[0]))
 
         s_rows = set()
-- 
2.43.0


From f4c73957d8c5338139f50c24a52729050c2df203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:15 +0000
Subject: [PATCH 61/98] fix: abstracted non-deterministic L* fills new columns
 also for rows added by counterexamples

---
 .../non_deterministic/AbstractedOnfsmObservationTable.py      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
index e58759f..d0fe1e9 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
@@ -49,6 +49,10 @@ class AbstractedNonDetObservationTable:
 
         """
 
+        if s_set is None:
+            # rows added to S_dot_A by counterexamples or completion are not part of the extended S
+            extended_S = self.observation_table.get_extended_S()
+            s_set = self.observation_table.S + extended_S + [s for s in self.S_dot_A if s not in extended_S]
         self.observation_table.query_missing_observations(s_set, e_set)
         self.abstract_obs_table()
         self.clean_obs_table()
-- 
2.43.0


From 38544c063f09c723d9856335097ec5ce361946ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:15 +0000
Subject: [PATCH 62/98] fix: abstracted non-deterministic L* does not process
 the same counterexample forever

---
 .../non_deterministic/AbstractedOnfsmObservationTable.py    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
index d0fe1e9..684dcf5 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
@@ -398,7 +398,9 @@ class AbstractedNonDetObservationTable:
                 equivalent_output = True
                 break
 
-        if equivalent_output:
+        cex_suffixes = all_suffixes(cex[0])
+
+        if equivalent_output or all(suffix in self.observation_table.E for suffix in cex_suffixes):
             # add prefixes of cex to S_dot_A
             cex_prefixes = [(tuple(cex[0][0:i + 1]), tuple(cex[1][0:i + 1])) for i in range(0, len(cex[0]))]
             prefixes_to_extend = self.extend_S_dot_A(cex_prefixes)
@@ -411,8 +413,6 @@ class AbstractedNonDetObservationTable:
             # CHANGED CEX PROX
             # TODO: this will now not work as cex processing was changed
             # cex_suffixes = non_det_longest_prefix_cex_processing(self.observation_table, cex)
-            cex_suffixes = all_suffixes(cex[0])
-
             added_suffixes = extend_set(self.observation_table.E, cex_suffixes)
             self.update_obs_table(e_set=added_suffixes)
 
-- 
2.43.0


From fc7ed81522661f582dc02522825d19508c05f24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:01 +0000
Subject: [PATCH 63/98] fix: stochastic L* reports the number of learning steps

---
 aalpy/learning_algs/stochastic/StochasticLStar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic/StochasticLStar.py b/aalpy/learning_algs/stochastic/StochasticLStar.py
index 7d7623b..ef340e5 100644
--- a/aalpy/learning_algs/stochastic/StochasticLStar.py
+++ b/aalpy/learning_algs/stochastic/StochasticLStar.py
@@ -202,7 +202,7 @@ def run_stochastic_Lstar(input_alphabet, sul: SUL, eq_oracle: Oracle, target_una
         'learning_rounds': learning_rounds,
         'automaton_size': len(hypothesis.states),
         'queries_learning': stochastic_teacher.sul.num_queries - eq_oracle.num_queries,
-        'steps_learning': stochastic_teacher.sul.num_steps - eq_oracle.num_queries,
+        'steps_learning': stochastic_teacher.sul.num_steps - eq_oracle.num_steps,
         'queries_eq_oracle': eq_oracle.num_queries,
         'steps_eq_oracle': eq_oracle.num_steps,
         'learning_time': learning_time,
-- 
2.43.0


From fab983bb079fe9ec470b6e001f4a1de5e9e41fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:00 +0000
Subject: [PATCH 64/98] fix: stochastic L* does not stop with a counterexample
 it has just found

---
 aalpy/learning_algs/stochastic/StochasticLStar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic/StochasticLStar.py b/aalpy/learning_algs/stochastic/StochasticLStar.py
index ef340e5..f8287b1 100644
--- a/aalpy/learning_algs/stochastic/StochasticLStar.py
+++ b/aalpy/learning_algs/stochastic/StochasticLStar.py
@@ -191,7 +191,7 @@ def run_stochastic_Lstar(input_alphabet, sul: SUL, eq_oracle: Oracle, target_una
             if stop_based_on_unambiguity:
                 break
 
-        if not refined:
+        if not refined and cex is None:
             break
 
     total_time = round(time.time() - start_time, 2)
-- 
2.43.0


From cb6b93626d92d4b10e15907ec7490c1cbcba0e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:31 +0000
Subject: [PATCH 65/98] fix: Hoeffding checker does not separate unobserved
 cells

---
 aalpy/learning_algs/stochastic/DifferenceChecker.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aalpy/learning_algs/stochastic/DifferenceChecker.py b/aalpy/learning_algs/stochastic/DifferenceChecker.py
index dec3ec3..91c0b5b 100644
--- a/aalpy/learning_algs/stochastic/DifferenceChecker.py
+++ b/aalpy/learning_algs/stochastic/DifferenceChecker.py
@@ -43,13 +43,13 @@ class HoeffdingChecker(DifferenceChecker):
         self.alpha = alpha
 
     def are_cells_different(self, c1: dict, c2: dict, **kwargs) -> bool:
-        if c1.keys() != c2.keys():
-            return True
-
         n1 = sum(c1.values())
         n2 = sum(c2.values())
 
         if n1 > 0 and n2 > 0:
+            if c1.keys() != c2.keys():
+                return True
+
             for o in c1.keys():
                 if abs(c1[o] / n1 - c2[o] / n2) > \
                         ((sqrt(1 / n1) + sqrt(1 / n2)) * sqrt(0.5 * log(2 / self.alpha))):
-- 
2.43.0


From 58c66904f6986f7a4ecc2537c041af5b0ae42550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:31 +0000
Subject: [PATCH 66/98] fix: stochastic observation table has a row for every
 output observed so far

---
 .../stochastic/SamplingBasedObservationTable.py  | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/aalpy/learning_algs/stochastic/SamplingBasedObservationTable.py b/aalpy/learning_algs/stochastic/SamplingBasedObservationTable.py
index 5513278..79a42ba 100644
--- a/aalpy/learning_algs/stochastic/SamplingBasedObservationTable.py
+++ b/aalpy/learning_algs/stochastic/SamplingBasedObservationTable.py
@@ -122,16 +122,12 @@ class SamplingBasedObservationTable:
         Returns:
 
         """
-        if element_of_s:
-            s_set = element_of_s + list(self.get_extended_s(element_of_s=element_of_s))
-        else:
-            s_set = self.S + list(self.get_extended_s())
-        # s_set = element_of_s if  else self.S + list(self.get_extended_s())
-
-        for s in s_set:
-            for e in self.E:
-                self.T[s][e] = self.teacher.frequency_query(s, e)
-                self.freq_query_cache[s + e] = self.T[s][e]
+        # cells of S are updated first, so that the extended rows include all outputs observed so far
+        for rows in (element_of_s or self.S, self.get_extended_s(element_of_s=element_of_s)):
+            for s in list(rows):
+                for e in self.E:
+                    self.T[s][e] = self.teacher.frequency_query(s, e)
+                    self.freq_query_cache[s + e] = self.T[s][e]
 
     def get_extended_s(self, element_of_s=None):
         """Generator returning all elements of the extended S set.
-- 
2.43.0


From 8d3573bff0fa4e830d5eb3c7627cafd17c5641af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:31 +0000
Subject: [PATCH 67/98] fix: longest prefix processing of stochastic
 counterexamples always returns a suffix

---
 aalpy/learning_algs/stochastic/StochasticCexProcessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic/StochasticCexProcessing.py b/aalpy/learning_algs/stochastic/StochasticCexProcessing.py
index d115a49..cc11dba 100644
--- a/aalpy/learning_algs/stochastic/StochasticCexProcessing.py
+++ b/aalpy/learning_algs/stochastic/StochasticCexProcessing.py
@@ -20,7 +20,7 @@ def stochastic_longest_prefix(cex, prefixes):
     trimmed_cex = None
     trimmed = False
     for p in prefixes:
-        if p[1::2] == cex[:len(p)][1::2]:
+        if len(p) < len(cex) and p[1::2] == cex[:len(p)][1::2]:
             trimmed_cex = cex[len(p):]
             trimmed = True
             break
-- 
2.43.0


From 2f7b0372c356ed0ff9c85e4812b1ae335a63006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:14 +0000
Subject: [PATCH 68/98] fix: random deterministic automata generation
 terminates if no minimal automaton is found

---
 aalpy/utils/AutomatonGenerators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aalpy/utils/AutomatonGenerators.py b/aalpy/utils/AutomatonGenerators.py
index 2d975b6..528de48 100644
--- a/aalpy/utils/AutomatonGenerators.py
+++ b/aalpy/utils/AutomatonGenerators.py
@@ -121,6 +121,7 @@ def generate_random_deterministic_automata(automaton_type,
         minimality_iterations = 1
         while not random_automaton.is_minimal() or random_automaton.size != num_states:
             # to avoid infinite loops
+            minimality_iterations += 1
             if minimality_iterations == 100:
                 warnings.warn(f'Non-minimal automaton ({automaton_type}, num_states : {num_states}) returned.')
                 break
-- 
2.43.0


From 6e32f04cae833852f7d7bba95f75aebec9fa7c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:14 +0000
Subject: [PATCH 69/98] fix: outputs of random stochastic Mealy machines
 determine the successor

---
 aalpy/utils/AutomatonGenerators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aalpy/utils/AutomatonGenerators.py b/aalpy/utils/AutomatonGenerators.py
index 528de48..0b3bdd0 100644
--- a/aalpy/utils/AutomatonGenerators.py
+++ b/aalpy/utils/AutomatonGenerators.py
@@ -353,6 +353,7 @@ def generate_random_smm(num_states, input_size, output_size, possible_probabilit
                     if new_output not in observed_outputs:
                         state_id_state_map[deterministic_state.state_id].transitions[i].append(
                             (new_state, new_output, prob[prob_index]))
+                        observed_outputs.append(new_output)
                         break
 
     return StochasticMealyMachine(smm_states[0], smm_states)
-- 
2.43.0


From 13e87625aaa6b6050ef4db3aae56ea260fbe3b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:14 +0000
Subject: [PATCH 70/98] fix: random SEVPAs have transitions for all internal
 letters

---
 aalpy/utils/AutomatonGenerators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/AutomatonGenerators.py b/aalpy/utils/AutomatonGenerators.py
index 0b3bdd0..cf33a23 100644
--- a/aalpy/utils/AutomatonGenerators.py
+++ b/aalpy/utils/AutomatonGenerators.py
@@ -505,7 +505,7 @@ def generate_random_sevpa(num_states, internal_alphabet_size, call_alphabet_size
 
     for state in states:
         for internal_letter in internal_alphabet:
-            if state.transitions[internal_letter] is None:
+            if not state.transitions[internal_letter]:
                 target_state = random.choice(states)
                 state.transitions[internal_letter].append(
                     SevpaTransition(target_state, internal_letter, None, None))
-- 
2.43.0


From 0574615d8c25741c4f26094c1867469e69ec1eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:42 +0000
Subject: [PATCH 71/98] fix: random SEVPAs can be generated without call or
 return symbols

---
 aalpy/utils/AutomatonGenerators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aalpy/utils/AutomatonGenerators.py b/aalpy/utils/AutomatonGenerators.py
index cf33a23..60ebb8e 100644
--- a/aalpy/utils/AutomatonGenerators.py
+++ b/aalpy/utils/AutomatonGenerators.py
@@ -470,7 +470,11 @@ def generate_random_sevpa(num_states, internal_alphabet_size, call_alphabet_size
     state_buffer = states.copy()
 
     for state in states:
-        if not internal_alphabet or random.uniform(0.0, 1.0) < return_transition_prob:
+        if not internal_alphabet and not (call_alphabet and return_alphabet):
+            continue
+
+        if not internal_alphabet or call_alphabet and return_alphabet and \
+                random.uniform(0.0, 1.0) < return_transition_prob:
             # add return transition
             while True:
                 return_letter = random.choice(return_alphabet)
-- 
2.43.0


From 5283f896225d8d15516733efcbbb99e82a419126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:17 +0000
Subject: [PATCH 72/98] fix: MDPs with non-string outputs can be exported to
 PRISM

---
 aalpy/utils/ModelChecking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/ModelChecking.py b/aalpy/utils/ModelChecking.py
index be3f222..120d4c2 100644
--- a/aalpy/utils/ModelChecking.py
+++ b/aalpy/utils/ModelChecking.py
@@ -104,7 +104,7 @@ def mdp_2_prism_format(mdp: Mdp, name: str, output_path=None):
     # labelling function
     output_to_state_id = defaultdict(list)
     for s in mdp.states:
-        joined_output = s.output
+        joined_output = str(s.output)
         outputs = joined_output.split("__")
         for o in outputs:
             if o:
-- 
2.43.0


From 6f9de1e911d8031484b678445856b7d1d518613e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:17 +0000
Subject: [PATCH 73/98] fix: small probabilities computed by PRISM are read
 correctly

---
 aalpy/utils/ModelChecking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/ModelChecking.py b/aalpy/utils/ModelChecking.py
index 120d4c2..fd719be 100644
--- a/aalpy/utils/ModelChecking.py
+++ b/aalpy/utils/ModelChecking.py
@@ -12,7 +12,7 @@ from aalpy.automata import Mdp, StochasticMealyMachine, MealyMachine, Dfa, Moore
     DfaState
 from aalpy.base import DeterministicAutomaton, SUL, AutomatonState
 
-prism_prob_output_regex = re.compile("Result: (\d+\.\d+)")
+prism_prob_output_regex = re.compile(r"Result: (\d+\.\d+(?:[eE][-+]?\d+)?)")
 
 
 def get_properties_file(exp_name):
-- 
2.43.0


From 04f038fc0cf25728dfe566e729a1cd8cb54e8d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:17 +0000
Subject: [PATCH 74/98] fix: states of MDPs converted from stochastic Mealy
 machines have unique ids

---
 aalpy/automata/StochasticMealyMachine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/automata/StochasticMealyMachine.py b/aalpy/automata/StochasticMealyMachine.py
index ae033d9..63ac75e 100644
--- a/aalpy/automata/StochasticMealyMachine.py
+++ b/aalpy/automata/StochasticMealyMachine.py
@@ -124,7 +124,7 @@ def smm_to_mdp_conversion(smm: StochasticMealyMachine):
                 incoming_outputs.update(map(lambda t: t[1], incoming_edges[i]))
         state_id = 0
         for o in incoming_outputs:
-            new_state_id = s.state_id + str(state_id)
+            new_state_id = f'{s.state_id}_{state_id}'
             state_id += 1
             new_state = MdpState(new_state_id, o)
             mdp_states.append(new_state)
-- 
2.43.0


From 2faa951bb9285bdb52fa1d0d441478bb51f9307b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:03 +0000
Subject: [PATCH 75/98] fix: extending a list as a set does not add duplicates
 contained in the new elements

---
 aalpy/utils/HelperFunctions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aalpy/utils/HelperFunctions.py b/aalpy/utils/HelperFunctions.py
index 1cf4cbb..c63314e 100644
--- a/aalpy/utils/HelperFunctions.py
+++ b/aalpy/utils/HelperFunctions.py
@@ -18,7 +18,11 @@ def extend_set(list_to_extend: list, new_elements: list) -> list:
 
     """
     set_repr = set(list_to_extend)
-    added_elements = [s for s in new_elements if s not in set_repr]
+    added_elements = []
+    for s in new_elements:
+        if s not in set_repr:
+            set_repr.add(s)
+            added_elements.append(s)
     list_to_extend.extend(added_elements)
     return added_elements
 
-- 
2.43.0


From 772b6b67acef5e2e02a9a7a6faae6c6b4f8bd1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:03 +0000
Subject: [PATCH 76/98] fix: parsing of I/O data does not merge or crash on
 symbols like 007

---
 aalpy/utils/DataHandler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/utils/DataHandler.py b/aalpy/utils/DataHandler.py
index 71a94e8..cda9e44 100644
--- a/aalpy/utils/DataHandler.py
+++ b/aalpy/utils/DataHandler.py
@@ -68,6 +68,7 @@ class IODelimiterTokenizer(DataHandler):
 
 
 def try_int(x):
-    if str.isdigit(x):
+    # only if no information is lost, '007' and '7' are different symbols
+    if x.isdecimal() and str(int(x)) == x:
         return int(x)
     return x
-- 
2.43.0


From 5528af1582358af50cbd023fa1ee1f8003689b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:03 +0000
Subject: [PATCH 77/98] fix: initial outputs in I/O data are parsed like all
 other outputs

---
 aalpy/utils/DataHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/DataHandler.py b/aalpy/utils/DataHandler.py
index cda9e44..32c1934 100644
--- a/aalpy/utils/DataHandler.py
+++ b/aalpy/utils/DataHandler.py
@@ -55,7 +55,7 @@ class IODelimiterTokenizer(DataHandler):
         lines = open(path).read().splitlines()
         for l in lines:
             words = l.split(word_delimiter)
-            seq = [words[0]]
+            seq = [try_int(words[0])]
             for w in words[1:]:
                 i_o = w.split(io_delimiter)
                 if len(i_o) != 2:
-- 
2.43.0


From 597b8991e1cdac994c5dabd2776aea5ee7c066ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:03 +0000
Subject: [PATCH 78/98] fix: labeled data generation supports empty sequences

---
 aalpy/utils/HelperFunctions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aalpy/utils/HelperFunctions.py b/aalpy/utils/HelperFunctions.py
index c63314e..a4a64e2 100644
--- a/aalpy/utils/HelperFunctions.py
+++ b/aalpy/utils/HelperFunctions.py
@@ -361,6 +361,9 @@ def generate_input_output_data_from_automata(model, num_sequances=4000, min_seq_
 
         if sequance_type == 'io_traces':
             dataset.append(list(zip(sequance, outputs)))
+        elif not sequance:
+            # label of the empty sequence
+            dataset.append((sequance, model.initial_state.output))
         else:
             dataset.append((sequance, outputs[-1]))
 
-- 
2.43.0


From deea124c9c034d926fca8448f0a093cf59cbcff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:03 +0000
Subject: [PATCH 79/98] fix: VPA data generation does not return more sequences
 than requested

---
 aalpy/utils/HelperFunctions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aalpy/utils/HelperFunctions.py b/aalpy/utils/HelperFunctions.py
index a4a64e2..f65789a 100644
--- a/aalpy/utils/HelperFunctions.py
+++ b/aalpy/utils/HelperFunctions.py
@@ -406,6 +406,8 @@ def generate_input_output_data_from_vpa(vpa, num_sequances=1000, max_seq_len=16,
             if data_point not in in_set:
                 data_set.append(data_point)
                 in_set.add(data_point)
+                if len(data_set) == num_sequances:
+                    break
 
     return data_set
 
-- 
2.43.0


From f4711030e2b57be1ffc118b7f517f517f21e2f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:32 +0000
Subject: [PATCH 80/98] fix: complete sample of a Mealy machine with a single
 state is not empty

---
 aalpy/utils/Sampling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aalpy/utils/Sampling.py b/aalpy/utils/Sampling.py
index 3e6d454..4442644 100644
--- a/aalpy/utils/Sampling.py
+++ b/aalpy/utils/Sampling.py
@@ -83,5 +83,8 @@ def get_complete_sample(automaton: DeterministicAutomaton):
     alphabet = automaton.get_input_alphabet()
     automaton.compute_prefixes()
     char_set = automaton.compute_characterization_set()
+    if char_set == []:
+        # Mealy machine with a single state
+        char_set = [(x,) for x in alphabet]
     infixes = [(x,) for x in alphabet] + [tuple()]
     return [state.prefix + infix + suffix for state in automaton.states for suffix in char_set for infix in infixes]
-- 
2.43.0


From d83058af84a9f7ed8b80a0af29e9e6d344bb164f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:19 +0000
Subject: [PATCH 81/98] fix: exponential counterexample processing returns all
 suffixes if a suffix-closed set is requested

---
 .../learning_algs/deterministic/CounterExampleProcessing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/deterministic/CounterExampleProcessing.py b/aalpy/learning_algs/deterministic/CounterExampleProcessing.py
index 5503946..ec96cdd 100644
--- a/aalpy/learning_algs/deterministic/CounterExampleProcessing.py
+++ b/aalpy/learning_algs/deterministic/CounterExampleProcessing.py
@@ -209,7 +209,11 @@ def exponential_cex_processing(sul: SUL, cex: tuple, hypothesis, suffix_closedne
             bwd_subtrahend *= 2
 
     if (bp - bp_recent) == 1:
-        return [suffix]
+        if not suffix_closedness:
+            return [suffix]
+        suffixes = all_suffixes(suffix) if closedness == 'suffix' else all_prefixes(suffix)
+        suffixes.reverse()
+        return suffixes
     else:
         if direction == 'fwd':
             return rs_cex_processing(sul, cex, hypothesis, suffix_closedness, closedness, is_vpa, lower=bp_recent)
-- 
2.43.0


From 1b155245c198d8504de00d5b41fd4a21eb577493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:43 +0000
Subject: [PATCH 82/98] fix: active passive learning does not modify the
 provided data

---
 aalpy/learning_algs/deterministic_passive/active_RPNI.py | 2 ++
 aalpy/learning_algs/stochastic_passive/ActiveAleriga.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/aalpy/learning_algs/deterministic_passive/active_RPNI.py b/aalpy/learning_algs/deterministic_passive/active_RPNI.py
index e3e95dd..f46c3b8 100644
--- a/aalpy/learning_algs/deterministic_passive/active_RPNI.py
+++ b/aalpy/learning_algs/deterministic_passive/active_RPNI.py
@@ -51,6 +51,8 @@ class RandomWordSampler(RpniActiveSampler):
 
 def run_active_RPNI(data, sul, sampler, n_iter, automaton_type, print_info=True):
     model = None
+    # do not modify the data of the caller
+    data = list(data)
     for i in range(n_iter):
         if print_info:
             print(f'-------------Active RPNI Iteration: {i}-------------')
diff --git a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
index 5abdfcd..c379832 100644
--- a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
+++ b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
@@ -76,6 +76,8 @@ def run_active_Alergia(data, sul, sampler, n_iter, eps=0.05, compatibility_check
 
     """
     model = None
+    # do not modify the data of the caller
+    data = list(data)
     for i in range(n_iter):
         if print_info:
             print(f'Active Alergia Iteration: {i}')
-- 
2.43.0


From 8f6a5dc7a4b7daece341265c4182122a538d95cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:46 +0000
Subject: [PATCH 83/98] fix: samples of active Alergia pair inputs with their
 outputs

---
 .../learning_algs/stochastic_passive/ActiveAleriga.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
index c379832..dbb66a4 100644
--- a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
+++ b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
@@ -1,6 +1,7 @@
 from abc import ABC, abstractmethod
 from random import randint, choice
 
+from aalpy.automata import StochasticMealyMachine
 from aalpy.learning_algs import run_Alergia
 
 
@@ -41,11 +42,11 @@ class RandomWordSampler(Sampler):
             walk_len = randint(self.min_walk_len, self.max_walk_len)
             random_walk = tuple(choice(input_al) for _ in range(walk_len))
 
-            outputs = sul.query(random_walk)
-
-            sample = [outputs.pop(0)]
-            for i in range(len(outputs)):
-                sample.append((random_walk[i], outputs[i]))
+            # outputs after each input, the output of the initial state is obtained with the empty query
+            outputs = sul.query(random_walk) if random_walk else []
+            sample = list(zip(random_walk, outputs))
+            if not isinstance(model, StochasticMealyMachine):
+                sample.insert(0, sul.query(tuple())[0])
 
             samples.append(sample)
 
-- 
2.43.0


From b709f73fcdf14f4368b7c66ae6bde392b2e91d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:46 +0000
Subject: [PATCH 84/98] fix: active Alergia respects the automaton type

---
 aalpy/learning_algs/stochastic_passive/ActiveAleriga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
index dbb66a4..37f2076 100644
--- a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
+++ b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
@@ -82,7 +82,7 @@ def run_active_Alergia(data, sul, sampler, n_iter, eps=0.05, compatibility_check
     for i in range(n_iter):
         if print_info:
             print(f'Active Alergia Iteration: {i}')
-        model = run_Alergia(data, automaton_type='mdp', eps=eps, compatibility_checker=compatibility_checker)
+        model = run_Alergia(data, automaton_type=automaton_type, eps=eps, compatibility_checker=compatibility_checker)
 
         new_samples = sampler.sample(sul, model)
         data.extend(new_samples)
-- 
2.43.0


From e2de758c95c2c5612b4c201428e61db4511fb3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:47 +0000
Subject: [PATCH 85/98] fix: search for a distinguishing sequence does not
 explore pairs of states exponentially often

---
 aalpy/base/Automaton.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aalpy/base/Automaton.py b/aalpy/base/Automaton.py
index 064bf9b..31d8507 100644
--- a/aalpy/base/Automaton.py
+++ b/aalpy/base/Automaton.py
@@ -276,11 +276,10 @@ class DeterministicAutomaton(Automaton[AutomatonStateType]):
         Returns: an input sequence distinguishing two states, or None if the states are equivalent
 
         """
-        visited = set()
+        visited = {(state1, state2)}
         to_explore = [(state1, state2, [])]
         while to_explore:
             (curr_s1, curr_s2, prefix) = to_explore.pop(0)
-            visited.add((curr_s1, curr_s2))
             for i in alphabet:
                 o1 = self.output_step(curr_s1, i)
                 o2 = self.output_step(curr_s2, i)
@@ -291,6 +290,7 @@ class DeterministicAutomaton(Automaton[AutomatonStateType]):
                     next_s1 = curr_s1.transitions[i]
                     next_s2 = curr_s2.transitions[i]
                     if (next_s1, next_s2) not in visited:
+                        visited.add((next_s1, next_s2))
                         to_explore.append((next_s1, next_s2, new_prefix))
 
         # states that only differ in their own output are distinguished by the empty sequence
-- 
2.43.0


From 963f78019c34a337f80b7ac8191187562406c96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:47 +0000
Subject: [PATCH 86/98] fix: search for a sequence separating two reference
 states does not explore pairs exponentially often

---
 aalpy/learning_algs/adaptive/AdaptiveObservationTree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py b/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
index 8058426..d0dbb19 100644
--- a/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
+++ b/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
@@ -174,11 +174,10 @@ class AdaptiveObservationTree(ObservationTree):
         A BFS to determine an input sequence that distinguishes two states in the automaton
         Can handle partial models
         """
-        visited = set()
+        visited = {(state1, state2)}
         to_explore = [(state1, state2, [])]
         while to_explore:
             (curr_s1, curr_s2, prefix) = to_explore.pop(0)
-            visited.add((curr_s1, curr_s2))
             for i in alphabet:
                 if i in curr_s1.transitions and i in curr_s2.transitions:
                     o1 = model.output_step(curr_s1, i)
@@ -190,6 +189,7 @@ class AdaptiveObservationTree(ObservationTree):
                         next_s1 = curr_s1.transitions[i]
                         next_s2 = curr_s2.transitions[i]
                         if (next_s1, next_s2) not in visited:
+                            visited.add((next_s1, next_s2))
                             to_explore.append((next_s1, next_s2, new_prefix))
 
         return None
-- 
2.43.0


From 042acf9a105982bad9ca756cdd22f25d311bf5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 87/98] fix: abstracted ONFSM learning crashed when outputs
 were first observed after the table was filled

---
 .../non_deterministic/AbstractedOnfsmLstar.py  |  6 +++++-
 .../AbstractedOnfsmObservationTable.py         | 18 +++++++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmLstar.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmLstar.py
index af54aa5..27dc6d4 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmLstar.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmLstar.py
@@ -93,7 +93,11 @@ def run_abstracted_ONFSM_Lstar(alphabet: list, sul: SUL, eq_oracle: Oracle, abst
                 abstracted_observation_table.update_obs_table(e_set=extended_col)
                 e_column_for_consistency = abstracted_observation_table.get_row_to_make_consistent()
 
-        abstracted_observation_table.clean_tables()
+            if closed_complete_consistent:
+                abstracted_observation_table.clean_tables()
+                # outputs observed for the first time while cleaning might have opened the table again
+                closed_complete_consistent = abstracted_observation_table.is_closed()
+
         hypothesis = abstracted_observation_table.gen_hypothesis()
 
         if print_level == 3:
diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
index 684dcf5..641ba33 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
@@ -138,6 +138,15 @@ class AbstractedNonDetObservationTable:
 
         return None
 
+    def is_closed(self):
+        """
+        Returns:
+
+            True if every row of S_dot_A is equal to some row of S
+        """
+        s_rows = {self.row_to_hashable(s) for s in self.S}
+        return all(self.row_to_hashable(t) in s_rows for t in self.S_dot_A)
+
     def get_row_to_complete(self):
         """
         Get row for that needs to be completed.
@@ -253,16 +262,15 @@ class AbstractedNonDetObservationTable:
         for s in tmp_S:
             hashed_s_row = self.row_to_hashable(s)
             if hashed_s_row in hashed_rows_from_s:
+                # S is shared with the underlying observation table
                 if s in self.S:
                     self.S.remove(s)
-                    self.observation_table.S.remove(s)
                 size = len(s[0])
                 for row_prefix in tmp_both_S:
                     s_both_row = (row_prefix[0][:size], row_prefix[1][:size])
                     if s != row_prefix and s == s_both_row:
                         if row_prefix in self.S:
                             self.S.remove(row_prefix)
-                            self.observation_table.S.remove(s)
             else:
                 hashed_rows_from_s.add(hashed_s_row)
 
@@ -282,7 +290,11 @@ class AbstractedNonDetObservationTable:
         """
         row_repr = tuple()
         for e in self.E:
-            # if e in self.T[row_prefix].keys():
+            # a row might have been observed for the first time after the table was filled
+            if e not in self.T[row_prefix]:
+                self.observation_table.query_missing_observations([row_prefix], [e])
+                for outputs in self.get_all_outputs(row_prefix, e):
+                    self.add_to_T(row_prefix, e, tuple(self.get_abstraction(o) for o in outputs))
             row_repr += (frozenset(self.T[row_prefix][e]),)
         return row_repr
 
-- 
2.43.0


From aee7fae4a6eb3fa0ecc6bebdfc9f7ced7507529b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 88/98] fix: visualization of the classification tree failed
 for outputs that are not strings

---
 aalpy/utils/HelperFunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/HelperFunctions.py b/aalpy/utils/HelperFunctions.py
index f65789a..c9efa35 100644
--- a/aalpy/utils/HelperFunctions.py
+++ b/aalpy/utils/HelperFunctions.py
@@ -326,7 +326,7 @@ def visualize_classification_tree(root_node):
                                        label=f'Distinguishing String:\n{child.distinguishing_string}')
                 queue.append((child, destination_dot))
             graph.add_node(destination_dot)
-            graph.add_edge(Edge(origin_node_dot, destination_dot, label=key))
+            graph.add_edge(Edge(origin_node_dot, destination_dot, label=str(key)))
 
     # print(graph.to_string())
     graph.write(path='classification_tree.pdf', format='pdf')
-- 
2.43.0


From fee4094232c9356b92413529cef557cb504f22d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:28 +0000
Subject: [PATCH 89/98] fix: MDPs and Markov chains with an empty output could
 not be saved or loaded

---
 aalpy/utils/FileHandler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index 7f4dcdc..4b113ff 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -21,7 +21,7 @@ def _wrap_label(label):
     """
     Adds a " " around a label if not already present on both ends.
     """
-    if label[0] == '\"' and label[-1] == '\"':
+    if len(label) > 1 and label[0] == '\"' and label[-1] == '\"':
         return label
     return f'\"{label}\"'
 
@@ -310,9 +310,9 @@ def _process_node_label(node, label, node_label_dict, node_type, automaton_type)
 
 def _strip_label(label: str) -> str:
     label = label.strip()
-    if label[0] == '\"' and label[-1] == label[0]:
+    if label[:1] == '\"' and label[-1] == label[0]:
         label = label[1:-1]
-    if label[0] == '{' and label[-1] == '}':
+    if label[:1] == '{' and label[-1] == '}':
         label = label[1:-1]
     # label = label.replace(" ", "")
     return label
-- 
2.43.0


From d76ac5d00e69e6403c541b5718ec17c750b2d16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 90/98] fix: merge violation debugger crashes when a promoted
 prefix is unknown to the ground truth

---
 aalpy/learning_algs/general_passive/Instrumentation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aalpy/learning_algs/general_passive/Instrumentation.py b/aalpy/learning_algs/general_passive/Instrumentation.py
index f39b72d..fdcb809 100644
--- a/aalpy/learning_algs/general_passive/Instrumentation.py
+++ b/aalpy/learning_algs/general_passive/Instrumentation.py
@@ -83,6 +83,9 @@ class MergeViolationDebugger(Instrumentation):
     def log_promote(self, new_red: GsmNode):
         new_red_prefix = new_red.get_prefix()
         node = self.root.get_by_prefix(new_red_prefix)
+        if node is None:
+            self.log.append(("broken promote", new_red_prefix))
+            return
         old_red = self.map.get(node)
         if old_red is None:
             self.map[node] = new_red
-- 
2.43.0


From 3a932caa52e2958a7c856bca14d8bf35f50805a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 91/98] fix: state prefix oracle reports differences on the
 access sequence

---
 aalpy/oracles/StatePrefixEqOracle.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/aalpy/oracles/StatePrefixEqOracle.py b/aalpy/oracles/StatePrefixEqOracle.py
index e96098e..fd59c4d 100644
--- a/aalpy/oracles/StatePrefixEqOracle.py
+++ b/aalpy/oracles/StatePrefixEqOracle.py
@@ -63,11 +63,16 @@ class StatePrefixEqOracle(Oracle):
             self.reset_hyp_and_sul(hypothesis)
 
             prefix = state.prefix
-            for p in prefix:
-                hypothesis.step(p)
-                self.sul.step(p)
+            for i, p in enumerate(prefix):
+                out_hyp = hypothesis.step(p)
+                out_sul = self.sul.step(p)
                 self.num_steps += 1
 
+                # differences on the way to the state are reported as well
+                if out_sul != out_hyp:
+                    self.sul.post()
+                    return prefix[:i + 1]
+
             suffix = ()
             for _ in range(self.steps_per_walk):
                 suffix += (random.choice(self.alphabet),)
-- 
2.43.0


From 207a719611fd607e3591643d7f53988b90a71bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 92/98] fix: cache-based oracle reports differences on the
 cached prefix

---
 aalpy/oracles/CacheBasedEqOracle.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/aalpy/oracles/CacheBasedEqOracle.py b/aalpy/oracles/CacheBasedEqOracle.py
index a777352..22940a8 100644
--- a/aalpy/oracles/CacheBasedEqOracle.py
+++ b/aalpy/oracles/CacheBasedEqOracle.py
@@ -50,15 +50,10 @@ class CacheBasedEqOracle(Oracle):
             prefix = choice(paths_to_leaves)
             walk_len = (max_tree_depth + self.depth_increase) - len(prefix)
             inputs = []
-            inputs.extend(prefix)
 
-            for p in prefix:
-                hypothesis.step(p)
-                self.sul.step(p)
-                self.num_steps += 1
-
-            for _ in range(walk_len):
-                inputs.append(choice(self.alphabet))
+            # differences on the way to the leaf are reported as well
+            for i in range(len(prefix) + max(walk_len, 0)):
+                inputs.append(prefix[i] if i < len(prefix) else choice(self.alphabet))
 
                 out_sul = self.sul.step(inputs[-1])
                 out_hyp = hypothesis.step(inputs[-1])
-- 
2.43.0


From 33e9e2144f74c1a2866bef6193dac765f31a263a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:31 +0000
Subject: [PATCH 93/98] fix: check that the ONFSM observation table is closed
 after it was cleaned

---
 aalpy/learning_algs/non_deterministic/OnfsmLstar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
index bc229ba..aa31f71 100644
--- a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
+++ b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
@@ -74,8 +74,8 @@ def run_non_det_Lstar(alphabet: list, sul: SUL, eq_oracle: Oracle, n_sampling=5,
         row_to_close = ot.get_row_to_close()
         while row_to_close is not None:
             ot.query_missing_observations()
-            row_to_close = ot.get_row_to_close()
             ot.clean_obs_table()
+            row_to_close = ot.get_row_to_close()
 
         hypothesis = ot.gen_hypothesis()
 
-- 
2.43.0


From e71842189ec51397b6de13b96622a582df2b9b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:31 +0000
Subject: [PATCH 94/98] fix: close the ONFSM observation table again before the
 stochastic model is generated

---
 .../non_deterministic/OnfsmLstar.py           | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
index aa31f71..866a617 100644
--- a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
+++ b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
@@ -69,13 +69,7 @@ def run_non_det_Lstar(alphabet: list, sul: SUL, eq_oracle: Oracle, n_sampling=5,
     while True:
         ot.S = list()
         ot.S.append((tuple(), tuple()))
-        ot.query_missing_observations()
-
-        row_to_close = ot.get_row_to_close()
-        while row_to_close is not None:
-            ot.query_missing_observations()
-            ot.clean_obs_table()
-            row_to_close = ot.get_row_to_close()
+        close_observation_table(ot)
 
         hypothesis = ot.gen_hypothesis()
 
@@ -109,6 +103,8 @@ def run_non_det_Lstar(alphabet: list, sul: SUL, eq_oracle: Oracle, n_sampling=5,
                     break
 
     if stochastic:
+        # equivalence queries might have changed the rows of the table
+        close_observation_table(ot)
         hypothesis = ot.gen_hypothesis(stochastic=True)
 
     total_time = round(time.time() - start_time, 2)
@@ -136,6 +132,16 @@ def run_non_det_Lstar(alphabet: list, sul: SUL, eq_oracle: Oracle, n_sampling=5,
     return hypothesis
 
 
+def close_observation_table(ot):
+    ot.query_missing_observations()
+
+    row_to_close = ot.get_row_to_close()
+    while row_to_close is not None:
+        ot.query_missing_observations()
+        ot.clean_obs_table()
+        row_to_close = ot.get_row_to_close()
+
+
 def counterexample_not_valid(hypothesis, cex, cache):
     if cex is None:
         return True
-- 
2.43.0


From 76a453e1f4200783fc9cb51a57493d0e6dd16e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:44 +0000
Subject: [PATCH 95/98] fix: small gridworld slips to the north-east when
 moving north

---
 aalpy/utils/BenchmarkSULs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/BenchmarkSULs.py b/aalpy/utils/BenchmarkSULs.py
index 6a812b8..974d635 100644
--- a/aalpy/utils/BenchmarkSULs.py
+++ b/aalpy/utils/BenchmarkSULs.py
@@ -259,7 +259,7 @@ def get_small_gridworld():
     s2.transitions['east'].append((s3, 'grass', p_g))
     s2.transitions['east'].append((s1, 'mud', 1 - p_g))
     s2.transitions['north'].append((s0, 'grass', p_g))
-    s2.transitions['south'].append((s1, 'mud', 1 - p_g))
+    s2.transitions['north'].append((s1, 'mud', 1 - p_g))
 
     s3.transitions['south'].append((s3, 'wall', 1.))
     s3.transitions['east'].append((s3, 'wall', 1.))
-- 
2.43.0


From 4e38e396e85f3f6e12901e0533b2195efa67391b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:44 +0000
Subject: [PATCH 96/98] fix: date validator rejects months outside of the
 calendar and the 31st day of short months

---
 aalpy/utils/BenchmarkSULs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aalpy/utils/BenchmarkSULs.py b/aalpy/utils/BenchmarkSULs.py
index 974d635..36c4e14 100644
--- a/aalpy/utils/BenchmarkSULs.py
+++ b/aalpy/utils/BenchmarkSULs.py
@@ -346,13 +346,16 @@ class DateValidator:
         if not (0 <= year <= 9999):
             return False
 
+        if not (1 <= month <= 12):
+            return False
+
         if month == 2 and not (1 <= day <= 28):
             return False
 
         if month in [1, 3, 5, 7, 8, 10, 12] and not (1 <= day <= 31):
             return False
 
-        elif not (1 <= day <= 31):
+        elif month in [4, 6, 9, 11] and not (1 <= day <= 30):
             return False
 
         return True
-- 
2.43.0


From 06b60c4df58bdb5cf8e1d125a2450b10dc57aa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:44 +0000
Subject: [PATCH 97/98] fix: balanced string SUL treats letters with several
 characters as letters

---
 aalpy/utils/BenchmarkSULs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/BenchmarkSULs.py b/aalpy/utils/BenchmarkSULs.py
index 36c4e14..5e13bb1 100644
--- a/aalpy/utils/BenchmarkSULs.py
+++ b/aalpy/utils/BenchmarkSULs.py
@@ -429,7 +429,7 @@ def get_balanced_string_sul(call_return_map, allow_empty_string):
 
         def step(self, letter):
             if letter:
-                self.sting_under_test += letter
+                self.sting_under_test.append(letter)
             return is_balanced(self.sting_under_test, self.call_return_map, self.allow_empty_string)
 
     return BalancedStringSUL(call_return_map, allow_empty_string)
-- 
2.43.0


From 448ff85f7544d79433aa1f30719a8e4175737207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:42 +0000
Subject: [PATCH 98/98] fix: k-way transition coverage terminates if a
 hypothesis state is not reached by its prefix

---
 aalpy/oracles/kWayTransitionCoverageEqOracle.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aalpy/oracles/kWayTransitionCoverageEqOracle.py b/aalpy/oracles/kWayTransitionCoverageEqOracle.py
index 0352b5e..62137b0 100644
--- a/aalpy/oracles/kWayTransitionCoverageEqOracle.py
+++ b/aalpy/oracles/kWayTransitionCoverageEqOracle.py
@@ -87,6 +87,7 @@ class KWayTransitionCoverageEqOracle(Oracle):
         result = list()
         covered = set()
         step_count = 0
+        prefix_paths = False
 
         size_of_universe = len(hypothesis.states) * pow(len(self.alphabet), self.k)
 
@@ -99,8 +100,13 @@ class KWayTransitionCoverageEqOracle(Oracle):
                 result.append(path)
                 step_count += len(path.steps)
 
+            if path is None and prefix_paths:
+                # not every state is reached by its prefix, so some transitions cannot be covered
+                break
+
             if path is None or not paths:
                 paths = [self.create_path(hypothesis, steps) for steps in self.generate_prefix_steps(hypothesis)]
+                prefix_paths = True
 
             if self.max_number_of_steps != 0 and step_count > self.max_number_of_steps:
                 print("stop")
-- 
2.43.0

