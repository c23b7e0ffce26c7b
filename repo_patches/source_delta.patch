From 4ad14cdde04319ad671685434141e0bb470c2378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:37 +0000
Subject: [PATCH 01/60] fix: looking up an undefined input no longer adds empty
 transitions to the model

---
 aalpy/automata/Mdp.py                         |  7 +++---
 .../automata/NonDeterministicMooreMachine.py  |  2 +-
 aalpy/automata/Onfsm.py                       |  8 +++----
 aalpy/automata/Sevpa.py                       | 23 +++++++++----------
 aalpy/automata/StochasticMealyMachine.py      | 11 +++++----
 aalpy/automata/Vpa.py                         |  2 +-
 6 files changed, 27 insertions(+), 26 deletions(-)

diff --git a/aalpy/automata/Mdp.py b/aalpy/automata/Mdp.py
index 8f530ad..22312a2 100644
--- a/aalpy/automata/Mdp.py
+++ b/aalpy/automata/Mdp.py
@@ -40,8 +40,9 @@ class Mdp(Automaton[MdpState[InputType, OutputType]]):
         if letter is None:
             return self.current_state.output
 
-        probability_distributions = [i[1] for i in self.current_state.transitions[letter]]
-        states = [i[0] for i in self.current_state.transitions[letter]]
+        transitions = self.current_state.transitions.get(letter, [])
+        probability_distributions = [i[1] for i in transitions]
+        states = [i[0] for i in transitions]
 
         new_state = random.choices(states, probability_distributions, k=1)[0]
 
@@ -60,7 +61,7 @@ class Mdp(Automaton[MdpState[InputType, OutputType]]):
 
             output of the reached state, None otherwise
         """
-        for new_state in self.current_state.transitions[inp]:
+        for new_state in self.current_state.transitions.get(inp, []):
             if new_state[0].output == out:
                 self.current_state = new_state[0]
                 return out
diff --git a/aalpy/automata/NonDeterministicMooreMachine.py b/aalpy/automata/NonDeterministicMooreMachine.py
index 97d474d..c7f61e4 100644
--- a/aalpy/automata/NonDeterministicMooreMachine.py
+++ b/aalpy/automata/NonDeterministicMooreMachine.py
@@ -62,6 +62,6 @@ class NDMooreMachine(Automaton[NDMooreState[InputType, OutputType]]):
             the output of the reached state
 
         """
-        options = self.current_state.transitions[letter]
+        options = self.current_state.transitions.get(letter, [])
         self.current_state = random.choice(options)
         return self.current_state.output
diff --git a/aalpy/automata/Onfsm.py b/aalpy/automata/Onfsm.py
index fb0bc9a..c544920 100644
--- a/aalpy/automata/Onfsm.py
+++ b/aalpy/automata/Onfsm.py
@@ -37,7 +37,7 @@ class OnfsmState(AutomatonState, Generic[InputType, OutputType]):
         Returns:
 
         """
-        possible_transitions = self.transitions[input]
+        possible_transitions = self.transitions.get(input, [])
         if output:
             return next((t for t in possible_transitions if t[0] == output), None)
         else:
@@ -63,7 +63,7 @@ class Onfsm(Automaton[OnfsmState[InputType, OutputType]]):
             output of the probabilistically chosen transition
 
         """
-        transition = choice(self.current_state.transitions[letter])
+        transition = choice(self.current_state.transitions.get(letter, []))
         output = transition[0]
         self.current_state = transition[1]
         return output
@@ -80,7 +80,7 @@ class Onfsm(Automaton[OnfsmState[InputType, OutputType]]):
             list of observable outputs
 
         """
-        return [trans[0] for trans in self.current_state.transitions[letter]]
+        return [trans[0] for trans in self.current_state.transitions.get(letter, [])]
 
     def step_to(self, inp, out):
         """Performs a step on the automaton based on the input `inp` and output `out`.
@@ -95,7 +95,7 @@ class Onfsm(Automaton[OnfsmState[InputType, OutputType]]):
             output of the reached state, None otherwise
 
         """
-        for new_state in self.current_state.transitions[inp]:
+        for new_state in self.current_state.transitions.get(inp, []):
             if new_state[0] == out:
                 self.current_state = new_state[1]
                 return out
diff --git a/aalpy/automata/Sevpa.py b/aalpy/automata/Sevpa.py
index f9b080d..0a818e3 100644
--- a/aalpy/automata/Sevpa.py
+++ b/aalpy/automata/Sevpa.py
@@ -132,7 +132,7 @@ class Sevpa(Automaton):
             return self.current_state.is_accepting and self.stack[-1] == self.empty
 
         # get possible transitions
-        transitions = self.current_state.transitions[letter]
+        transitions = self.current_state.transitions.get(letter, [])
         taken_transition = None
         for t in transitions:
             if t.letter in self.return_set:
@@ -325,7 +325,7 @@ class Sevpa(Automaton):
             ret_int_al.extend(self.input_alphabet.internal_alphabet)
             ret_int_al.extend(self.input_alphabet.return_alphabet)
             for letter in ret_int_al:
-                for transition in state.transitions[letter]:
+                for transition in state.transitions.get(letter, []):
                     if state_target is None:
                         state_target = transition.target_state
                     else:
@@ -338,7 +338,7 @@ class Sevpa(Automaton):
             # check return transitions from the initial state
             if is_error_state:
                 for return_letter in self.input_alphabet.return_alphabet:
-                    for transition in self.initial_state.transitions[return_letter]:
+                    for transition in self.initial_state.transitions.get(return_letter, []):
                         if transition.stack_guard[0] == state_target.state_id:
                             if transition.target_state != state_target:
                                 is_error_state = False
@@ -399,7 +399,7 @@ class Sevpa(Automaton):
             connected_states.add(current_state)
 
             for internal_letter in self.input_alphabet.internal_alphabet:
-                for internal_trans in current_state.transitions[internal_letter]:
+                for internal_trans in current_state.transitions.get(internal_letter, []):
                     target_state = internal_trans.target_state
                     if target_state not in connected_states:
                         queue.append(target_state)
@@ -407,7 +407,7 @@ class Sevpa(Automaton):
         allowed_call_transitions = defaultdict(set)
         for state in connected_states:
             for return_letter in self.input_alphabet.return_alphabet:
-                for trans in state.transitions[return_letter]:
+                for trans in state.transitions.get(return_letter, []):
                     allowed_call_transitions[trans.stack_guard[1]].add(trans.stack_guard[0])
 
         return allowed_call_transitions
@@ -506,15 +506,14 @@ class Sevpa(Automaton):
             # the new word will be: letter_prefix + word + letter
             if is_return_letter:
                 # randomly select one of the return transitions with the respective return symbol
-                if len(self.current_state.transitions[letter_for_word]) == 0:
+                possible_transitions = self.current_state.transitions.get(letter_for_word, [])
+                if len(possible_transitions) == 0:
                     continue
-                elif len(self.current_state.transitions[letter_for_word]) == 1:
-                    random_stack_guard = self.current_state.transitions[letter_for_word][0].stack_guard
+                elif len(possible_transitions) == 1:
+                    random_stack_guard = possible_transitions[0].stack_guard
                 else:
-                    random_stack_guard_index = random.randint(0,
-                                                              len(self.current_state.transitions[letter_for_word]) - 1)
-                    random_stack_guard = self.current_state.transitions[letter_for_word][
-                        random_stack_guard_index].stack_guard
+                    random_stack_guard_index = random.randint(0, len(possible_transitions) - 1)
+                    random_stack_guard = possible_transitions[random_stack_guard_index].stack_guard
 
                 # start from the initial state
                 self.reset_to_initial()
diff --git a/aalpy/automata/StochasticMealyMachine.py b/aalpy/automata/StochasticMealyMachine.py
index ae033d9..74864b5 100644
--- a/aalpy/automata/StochasticMealyMachine.py
+++ b/aalpy/automata/StochasticMealyMachine.py
@@ -36,7 +36,8 @@ class StochasticMealyMachine(Automaton[StochasticMealyState[InputType, OutputTyp
            output of the current state
         """
         prob = random.random()
-        probability_distributions = [i[2] for i in self.current_state.transitions[letter]]
+        transitions = self.current_state.transitions.get(letter, [])
+        probability_distributions = [i[2] for i in transitions]
         index = 0
         for i, p in enumerate(probability_distributions):
             prob -= p
@@ -44,7 +45,7 @@ class StochasticMealyMachine(Automaton[StochasticMealyState[InputType, OutputTyp
                 index = i
                 break
 
-        transition = self.current_state.transitions[letter][index]
+        transition = transitions[index]
         self.current_state = transition[0]
         return transition[1]
 
@@ -61,7 +62,7 @@ class StochasticMealyMachine(Automaton[StochasticMealyState[InputType, OutputTyp
             output of the reached state, None otherwise
 
         """
-        for (new_state, output, prob) in self.current_state.transitions[inp]:
+        for (new_state, output, prob) in self.current_state.transitions.get(inp, []):
             if output == out:
                 self.current_state = new_state
                 return out
@@ -120,7 +121,7 @@ def smm_to_mdp_conversion(smm: StochasticMealyMachine):
         incoming_outputs = set()
         for pre_s in smm.states:
             for i in inputs:
-                incoming_edges[i] += filter(lambda t: t[0] == s, pre_s.transitions[i])
+                incoming_edges[i] += filter(lambda t: t[0] == s, pre_s.transitions.get(i, []))
                 incoming_outputs.update(map(lambda t: t[1], incoming_edges[i]))
         state_id = 0
         for o in incoming_outputs:
@@ -133,7 +134,7 @@ def smm_to_mdp_conversion(smm: StochasticMealyMachine):
     for s in smm.states:
         mdp_states_for_s = {mdp_state for (s_id, o), mdp_state in smm_state_to_mdp_state.items() if s_id == s.state_id}
         for i in inputs:
-            for outgoing_t in s.transitions[i]:
+            for outgoing_t in s.transitions.get(i, []):
                 target_smm_state = outgoing_t[0]
                 output = outgoing_t[1]
                 prob = outgoing_t[2]
diff --git a/aalpy/automata/Vpa.py b/aalpy/automata/Vpa.py
index ca64bb7..59b7ff1 100644
--- a/aalpy/automata/Vpa.py
+++ b/aalpy/automata/Vpa.py
@@ -121,7 +121,7 @@ class Vpa(Automaton):
         if letter is None:
             return self.current_state.is_accepting and self.stack == []
 
-        transitions = self.current_state.transitions[letter]
+        transitions = self.current_state.transitions.get(letter, [])
 
         taken_transition = None
 
-- 
2.43.0


From c125902f340fe35eea4e41b9ad31c4aa4d452fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 02/60] fix: k-way state coverage oracle no longer shuffles the
 states of the hypothesis in place

---
 aalpy/oracles/kWayStateCoverageEqOracle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aalpy/oracles/kWayStateCoverageEqOracle.py b/aalpy/oracles/kWayStateCoverageEqOracle.py
index d259e53..4ca1cc2 100644
--- a/aalpy/oracles/kWayStateCoverageEqOracle.py
+++ b/aalpy/oracles/kWayStateCoverageEqOracle.py
@@ -49,10 +49,10 @@ class KWayStateCoverageEqOracle(Oracle):
                         self.sul.post()
                         return path[:i + 1]
 
-        states = hypothesis.states
+        states = list(hypothesis.states)
         shuffle(states)
 
-        for comb in self.fun(hypothesis.states, self.k):
+        for comb in self.fun(states, self.k):
             prefixes = frozenset([c.prefix for c in comb])
             if prefixes in self.cache:
                 continue
-- 
2.43.0


From be0abc9f6a6cbd943c2bbc9d12c76e01e25fc50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 03/60] fix: provided sequences oracle no longer removes
 entries from the caller's list

---
 aalpy/oracles/ProvidedSequencesOracleWrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/oracles/ProvidedSequencesOracleWrapper.py b/aalpy/oracles/ProvidedSequencesOracleWrapper.py
index a64122c..9c210c2 100644
--- a/aalpy/oracles/ProvidedSequencesOracleWrapper.py
+++ b/aalpy/oracles/ProvidedSequencesOracleWrapper.py
@@ -15,7 +15,7 @@ class ProvidedSequencesOracleWrapper(Oracle):
             of input alphabet
         """
         super().__init__(alphabet, sul)
-        self.provided_counterexamples = provided_counterexamples
+        self.provided_counterexamples = list(provided_counterexamples)
         self.oracle = oracle
 
     def find_cex(self, hypothesis):
-- 
2.43.0


From 10531ea81222124426f0a12e2f917e404d449e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 04/60] fix: RPNI no longer sorts the caller's data in place

---
 .../deterministic_passive/rpni_helper_functions.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py b/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
index 4cf93e0..e71c7d3 100644
--- a/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
+++ b/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
@@ -72,7 +72,7 @@ def check_sequence(root_node, seq, automaton_type):
 
 
 def createPTA(data, automaton_type):
-    data.sort(key=lambda x: len(x[0]))
+    data = sorted(data, key=lambda x: len(x[0]))
 
     root_node = RpniNode(automaton_type=automaton_type)
     for seq, label in data:
-- 
2.43.0


From da7eaa78a1ca3fd3af23ef91cc47be24a373c219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 05/60] fix: active passive learning no longer appends samples
 to the caller's data

---
 aalpy/learning_algs/deterministic_passive/active_RPNI.py | 1 +
 aalpy/learning_algs/stochastic_passive/ActiveAleriga.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/aalpy/learning_algs/deterministic_passive/active_RPNI.py b/aalpy/learning_algs/deterministic_passive/active_RPNI.py
index e3e95dd..d30b928 100644
--- a/aalpy/learning_algs/deterministic_passive/active_RPNI.py
+++ b/aalpy/learning_algs/deterministic_passive/active_RPNI.py
@@ -51,6 +51,7 @@ class RandomWordSampler(RpniActiveSampler):
 
 def run_active_RPNI(data, sul, sampler, n_iter, automaton_type, print_info=True):
     model = None
+    data = list(data)
     for i in range(n_iter):
         if print_info:
             print(f'-------------Active RPNI Iteration: {i}-------------')
diff --git a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
index 5abdfcd..c185d75 100644
--- a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
+++ b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
@@ -76,6 +76,7 @@ def run_active_Alergia(data, sul, sampler, n_iter, eps=0.05, compatibility_check
 
     """
     model = None
+    data = list(data)
     for i in range(n_iter):
         if print_info:
             print(f'Active Alergia Iteration: {i}')
-- 
2.43.0


From 40efc2217c4ef9596e22e0bd606559128a9a9d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 06/60] fix: run_active_Alergia no longer ignores
 automaton_type

---
 aalpy/learning_algs/stochastic_passive/ActiveAleriga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
index c185d75..3fbf110 100644
--- a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
+++ b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
@@ -80,7 +80,7 @@ def run_active_Alergia(data, sul, sampler, n_iter, eps=0.05, compatibility_check
     for i in range(n_iter):
         if print_info:
             print(f'Active Alergia Iteration: {i}')
-        model = run_Alergia(data, automaton_type='mdp', eps=eps, compatibility_checker=compatibility_checker)
+        model = run_Alergia(data, automaton_type=automaton_type, eps=eps, compatibility_checker=compatibility_checker)
 
         new_samples = sampler.sample(sul, model)
         data.extend(new_samples)
-- 
2.43.0


From ceda50fbba144c55d15e7bb83c05e17803180dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 07/60] fix: random word samplers draw from the alphabet in a
 reproducible order

---
 aalpy/learning_algs/deterministic_passive/active_RPNI.py | 2 +-
 aalpy/learning_algs/stochastic_passive/ActiveAleriga.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aalpy/learning_algs/deterministic_passive/active_RPNI.py b/aalpy/learning_algs/deterministic_passive/active_RPNI.py
index d30b928..a09a8d0 100644
--- a/aalpy/learning_algs/deterministic_passive/active_RPNI.py
+++ b/aalpy/learning_algs/deterministic_passive/active_RPNI.py
@@ -35,7 +35,7 @@ class RandomWordSampler(RpniActiveSampler):
         self.max_walk_len = max_walk_len
 
     def sample(self, sul, model):
-        input_al = list({el for s in model.states for el in s.transitions.keys()})
+        input_al = list(dict.fromkeys(el for s in model.states for el in s.transitions.keys()))
         samples = []
 
         for _ in range(self.num_walks):
diff --git a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
index 3fbf110..ad19d76 100644
--- a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
+++ b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
@@ -34,7 +34,7 @@ class RandomWordSampler(Sampler):
         self.max_walk_len = max_walk_len
 
     def sample(self, sul, model):
-        input_al = list({el for s in model.states for el in s.transitions.keys()})
+        input_al = list(dict.fromkeys(el for s in model.states for el in s.transitions.keys()))
         samples = []
 
         for _ in range(self.num_walks):
-- 
2.43.0


From 0a39d5eef8e3e7f7a88406fbe24e13779eef2337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 08/60] fix: adaptive L# no longer removes unusable references
 from the caller's list or runs past its end

---
 aalpy/learning_algs/adaptive/AdaptiveObservationTree.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py b/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
index 3840a75..a7123cb 100644
--- a/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
+++ b/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
@@ -488,16 +488,17 @@ class AdaptiveObservationTree(ObservationTree):
         """
         automaton_class = {'dfa': Dfa, 'mealy': MealyMachine, 'moore': MooreMachine}
         all_states = []
-        for reference_id in range(0, len(self.references)):
-            reference = self.references[reference_id]
+        usable_references = []
+        for reference_id, reference in enumerate(self.references):
             overlap = [inp for inp in self.alphabet if inp in reference.get_input_alphabet()]
             if not overlap:
                 print(
                     f"Warning: reference model {reference_id} has no common inputs and will not be used as a reference.")
-                self.references.remove(reference)
-                reference_id -= 1
                 continue
+            usable_references.append(reference)
 
+        self.references = usable_references
+        for reference_id, reference in enumerate(self.references):
             states = self.add_ref_transitions_to_states(reference, reference_id)
             all_states += states
 
-- 
2.43.0


From 4c0e8762adf92f1fd1ffe22b96ec0c773bb74cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 09/60] fix: computing a characterization set no longer extends
 the caller's initial set

---
 aalpy/base/Automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/base/Automaton.py b/aalpy/base/Automaton.py
index 73878c6..ccf96f8 100644
--- a/aalpy/base/Automaton.py
+++ b/aalpy/base/Automaton.py
@@ -346,7 +346,7 @@ class DeterministicAutomaton(Automaton[AutomatonStateType]):
         """
         blocks = list()
         blocks.append(copy.copy(self.states))
-        char_set = [] if not char_set_init else char_set_init
+        char_set = [] if not char_set_init else list(char_set_init)
         if char_set_init:
             for seq in char_set_init:
                 blocks = self._split_blocks(blocks, seq)
-- 
2.43.0


From a07f8f2e35fdcbec8f07811f71ade52e5f613e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 10/60] fix: characterization set has a reproducible order

---
 aalpy/base/Automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/base/Automaton.py b/aalpy/base/Automaton.py
index ccf96f8..4407006 100644
--- a/aalpy/base/Automaton.py
+++ b/aalpy/base/Automaton.py
@@ -400,7 +400,7 @@ class DeterministicAutomaton(Automaton[AutomatonStateType]):
                 for new_block in new_blocks:
                     blocks.append(new_block)
 
-        char_set = list(set(char_set))
+        char_set = list(dict.fromkeys(char_set))
         if return_same_states:
             return None, None
         return char_set
-- 
2.43.0


From 0c36b9a75ee40e9ad2b5b90ef942f7c7719492ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 11/60] fix: k-way transition coverage oracle no longer prints

---
 aalpy/oracles/kWayTransitionCoverageEqOracle.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aalpy/oracles/kWayTransitionCoverageEqOracle.py b/aalpy/oracles/kWayTransitionCoverageEqOracle.py
index db253ea..36bcf1c 100644
--- a/aalpy/oracles/kWayTransitionCoverageEqOracle.py
+++ b/aalpy/oracles/kWayTransitionCoverageEqOracle.py
@@ -89,7 +89,6 @@ class KWayTransitionCoverageEqOracle(Oracle):
                 paths = [self.create_path(hypothesis, steps) for steps in self.generate_prefix_steps(hypothesis)]
 
             if self.max_number_of_steps != 0 and step_count > self.max_number_of_steps:
-                print("stop")
                 break
 
         return result
-- 
2.43.0


From 27c1aabb84abdae8446cbc71fb1f9732a84a602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 12/60] fix: exporting a stochastic model no longer reorders
 its states

---
 aalpy/automata/Mdp.py                    | 6 ++----
 aalpy/automata/StochasticMealyMachine.py | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/aalpy/automata/Mdp.py b/aalpy/automata/Mdp.py
index 22312a2..033b0e9 100644
--- a/aalpy/automata/Mdp.py
+++ b/aalpy/automata/Mdp.py
@@ -71,11 +71,9 @@ class Mdp(Automaton[MdpState[InputType, OutputType]]):
         state_setup_dict = {}
 
         # ensure initial state is first in the list
-        if self.states[0] != self.initial_state:
-            self.states.remove(self.initial_state)
-            self.states.insert(0, self.initial_state)
+        states = [self.initial_state] + [s for s in self.states if s is not self.initial_state]
 
-        for s in self.states:
+        for s in states:
             state_setup_dict[s.state_id] = (s.output, {k: [(node.state_id, prob) for node, prob in v]
                                                        for k, v in s.transitions.items()})
 
diff --git a/aalpy/automata/StochasticMealyMachine.py b/aalpy/automata/StochasticMealyMachine.py
index 74864b5..1e889e8 100644
--- a/aalpy/automata/StochasticMealyMachine.py
+++ b/aalpy/automata/StochasticMealyMachine.py
@@ -75,11 +75,9 @@ class StochasticMealyMachine(Automaton[StochasticMealyState[InputType, OutputTyp
         state_setup_dict = {}
 
         # ensure initial state is first in the list
-        if self.states[0] != self.initial_state:
-            self.states.remove(self.initial_state)
-            self.states.insert(0, self.initial_state)
+        states = [self.initial_state] + [s for s in self.states if s is not self.initial_state]
 
-        for s in self.states:
+        for s in states:
             state_setup_dict[s.state_id] = {k: [(node.state_id, output, prob) for node, output, prob in v]
                                             for k, v in s.transitions.items()}
 
-- 
2.43.0


From 168729d61acfda2015bec0cb3d610804a86f8745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:20 +0000
Subject: [PATCH 13/60] fix: observation tree nodes are numbered per tree, not
 by a counter shared by all runs

---
 .../deterministic/ObservationTree.py          | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/aalpy/learning_algs/deterministic/ObservationTree.py b/aalpy/learning_algs/deterministic/ObservationTree.py
index 55fbe10..ecac6e2 100644
--- a/aalpy/learning_algs/deterministic/ObservationTree.py
+++ b/aalpy/learning_algs/deterministic/ObservationTree.py
@@ -5,12 +5,13 @@ from ... import Dfa, DfaState, MealyState, MealyMachine, MooreMachine, MooreStat
 aut_type = ['dfa', 'mealy', 'moore']
 
 class MooreNode:
-    _id_counter = 0
-    __slots__ = ['id', 'output', 'successors', 'parent', 'input_to_parent']
+    __slots__ = ['id', 'tree_size', 'output', 'successors', 'parent', 'input_to_parent']
 
     def __init__(self, parent=None):
-        MooreNode._id_counter += 1
-        self.id = MooreNode._id_counter
+        # nodes are numbered per tree, the counter is shared by all nodes of a tree
+        self.tree_size = [0] if parent is None else parent.tree_size
+        self.tree_size[0] += 1
+        self.id = self.tree_size[0]
         self.output = None
         self.successors = {}
         self.parent = parent
@@ -41,16 +42,17 @@ class MooreNode:
 
     @property
     def id_counter(self):
-        return self._id_counter
+        return self.tree_size[0]
 
 
 class MealyNode:
-    _id_counter = 0
-    __slots__ = ['id', 'successors', 'parent', 'input_to_parent']
+    __slots__ = ['id', 'tree_size', 'successors', 'parent', 'input_to_parent']
 
     def __init__(self, parent=None):
-        MealyNode._id_counter += 1
-        self.id = MealyNode._id_counter
+        # nodes are numbered per tree, the counter is shared by all nodes of a tree
+        self.tree_size = [0] if parent is None else parent.tree_size
+        self.tree_size[0] += 1
+        self.id = self.tree_size[0]
         self.successors = {}
         self.parent = parent
         self.input_to_parent = None
@@ -89,7 +91,7 @@ class MealyNode:
 
     @property
     def id_counter(self):
-        return self._id_counter
+        return self.tree_size[0]
 
 
 class ObservationTree:
-- 
2.43.0


From 1ddb67cac449a868dddfcadd3372336ec935895e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:20 +0000
Subject: [PATCH 14/60] fix: Moore observation tree reports contradicting
 observations like the Mealy one

---
 aalpy/learning_algs/deterministic/ObservationTree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aalpy/learning_algs/deterministic/ObservationTree.py b/aalpy/learning_algs/deterministic/ObservationTree.py
index ecac6e2..2920ebd 100644
--- a/aalpy/learning_algs/deterministic/ObservationTree.py
+++ b/aalpy/learning_algs/deterministic/ObservationTree.py
@@ -34,6 +34,10 @@ class MooreNode:
     def extend_and_get(self, inp, output):
         """ Extend the node with a new successor and return the successor node """
         if inp in self.successors:
+            out = self.successors[inp].output
+            if out != output:
+                raise Exception(
+                    f"observation not consistent with tree with output from tree: {out} and output from call: {output}")
             return self.successors[inp]
         successor_node = MooreNode(parent=self)
         self.add_successor(inp, output, successor_node)
-- 
2.43.0


From 93e253b72412208841a63bda9d1446fe241fb387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:20 +0000
Subject: [PATCH 15/60] fix: errors in the random sampling strategy of
 stochastic L* are no longer printed and swallowed

---
 aalpy/learning_algs/stochastic/StochasticTeacher.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/aalpy/learning_algs/stochastic/StochasticTeacher.py b/aalpy/learning_algs/stochastic/StochasticTeacher.py
index 3070dcf..16c27ea 100644
--- a/aalpy/learning_algs/stochastic/StochasticTeacher.py
+++ b/aalpy/learning_algs/stochastic/StochasticTeacher.py
@@ -363,12 +363,9 @@ class StochasticTeacher:
                 cex = self.bfs_for_cex_in_tree(hypothesis)
             elif self.samples_cex_strategy.startswith('random'):
                 split_strategy = self.samples_cex_strategy.split(":")
-                try:
-                    nr_traces = int(split_strategy[1])
-                    stop_prob = float(split_strategy[2])
-                    cex = self.dfs_for_cex_in_tree(hypothesis, nr_traces, stop_prob)
-                except Exception as e:
-                    print("Problem in random DFS for cex in samples:", e)
+                nr_traces = int(split_strategy[1])
+                stop_prob = float(split_strategy[2])
+                cex = self.dfs_for_cex_in_tree(hypothesis, nr_traces, stop_prob)
             if cex:
                 self.last_cex = cex
                 self.eq_oracle.reset_counter()
-- 
2.43.0


From fa902098fa6330f1012d2b7057bfb094e5feca48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:20 +0000
Subject: [PATCH 16/60] fix: VPAs no longer share one error state object

---
 aalpy/automata/Vpa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/automata/Vpa.py b/aalpy/automata/Vpa.py
index 59b7ff1..c0f453b 100644
--- a/aalpy/automata/Vpa.py
+++ b/aalpy/automata/Vpa.py
@@ -230,7 +230,8 @@ class Vpa(Automaton):
 
         # build states with state_id and output
         states = {key: VpaState(key, val[0]) for key, val in state_setup.items()}
-        states[Vpa.error_state.state_id] = Vpa.error_state  # PdaState(Pda.error_state,False)
+        # every model gets its own error state
+        states[Vpa.error_state.state_id] = VpaState(Vpa.error_state.state_id, False)
         # add transitions to states
         for state_id, state in states.items():
             if state_id == Vpa.error_state.state_id:
-- 
2.43.0


From a5bf9c5c74686e3d23ce300f6461df1a71de0fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:07 +0000
Subject: [PATCH 17/60] fix: k-way state coverage oracle counts its tests on
 single-state hypotheses

---
 aalpy/oracles/kWayStateCoverageEqOracle.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/aalpy/oracles/kWayStateCoverageEqOracle.py b/aalpy/oracles/kWayStateCoverageEqOracle.py
index 4ca1cc2..832ea05 100644
--- a/aalpy/oracles/kWayStateCoverageEqOracle.py
+++ b/aalpy/oracles/kWayStateCoverageEqOracle.py
@@ -37,9 +37,7 @@ class KWayStateCoverageEqOracle(Oracle):
         if len(hypothesis.states) == 1:
             for _ in range(self.random_walk_len):
                 path = choices(self.alphabet, k=self.random_walk_len)
-                hypothesis.reset_to_initial()
-                self.sul.post()
-                self.sul.pre()
+                self.reset_hyp_and_sul(hypothesis)
                 for i, p in enumerate(path):
                     out_sul = self.sul.step(p)
                     out_hyp = hypothesis.step(p)
-- 
2.43.0


From 61523334bbb707310aa58d8ff3838e401b150ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:08 +0000
Subject: [PATCH 18/60] fix: dictionary cache checks added samples for
 contradictions and stores the output of the empty word

---
 aalpy/base/CacheTree.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/aalpy/base/CacheTree.py b/aalpy/base/CacheTree.py
index c733318..1d48f3a 100644
--- a/aalpy/base/CacheTree.py
+++ b/aalpy/base/CacheTree.py
@@ -121,10 +121,8 @@ class CacheDict:
 
         """
 
-        if inp is None:
-            return self.cache_dict[()]
-
-        self.inputs += (inp,)
+        if inp is not None:
+            self.inputs += (inp,)
 
         if self.inputs not in self.cache_dict.keys():
             self.cache_dict[self.inputs] = out
@@ -162,8 +160,9 @@ class CacheDict:
         """
         Add input-output sequence to cache
         """
-        for i in range(1, len(input_sequence) + 1):
-            self.cache_dict[input_sequence[:i]] = output_sequence[i-1]
+        self.reset()
+        for i, o in zip(input_sequence, output_sequence):
+            self.step_in_cache(i, o)
 
     def get_output_sequence(self, input_seq):
         return tuple(self.cache_dict[input_seq[:i]] for i in range(1, len(input_seq) + 1))
-- 
2.43.0


From 3663e6384bae15e676210969e91cfc08d5d4a58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:08 +0000
Subject: [PATCH 19/60] fix: cache reports contradicting outputs of the empty
 word

---
 aalpy/base/CacheTree.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aalpy/base/CacheTree.py b/aalpy/base/CacheTree.py
index 1d48f3a..eff9b22 100644
--- a/aalpy/base/CacheTree.py
+++ b/aalpy/base/CacheTree.py
@@ -39,7 +39,13 @@ class CacheTree:
         self.inputs += (inp,)
         self.outputs += (out,)
         if inp is None:
-            self.root_node.value = out
+            # output of the current state, no input was executed
+            if self.curr_node.value is None:
+                self.curr_node.value = out
+            elif self.curr_node.value != out:
+                raise SystemExit(f'Non-determinism detected.\n'
+                                 f'Error inserting: {self.inputs}\n'
+                                 f'Conflict detected: {self.curr_node.value} vs {out}')
             return
 
         if inp not in self.curr_node.children.keys():
-- 
2.43.0


From 4aaa675298bcc35ded86a2ece09f631e3adf52d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:08 +0000
Subject: [PATCH 20/60] fix: contradicting labels of the empty sequence are
 reported by GSM

---
 aalpy/learning_algs/general_passive/GsmNode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aalpy/learning_algs/general_passive/GsmNode.py b/aalpy/learning_algs/general_passive/GsmNode.py
index 8d72e14..041bd6a 100644
--- a/aalpy/learning_algs/general_passive/GsmNode.py
+++ b/aalpy/learning_algs/general_passive/GsmNode.py
@@ -415,6 +415,8 @@ class GsmNode:
         # set last output
         curr_node.resolve_unknown_prefix_output(output)
         pred = curr_node.predecessor
+        if not pred and curr_node.get_prefix_output() != output:
+            raise ValueError("nondeterminism encountered for GSM with labeled_sequences. not supported")
         if pred:
             transitions = pred.transitions[in_sym]
             if unknown_output in transitions:
-- 
2.43.0


From 9f5628b5afb81360662f97b0bb083d066054ca46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:54 +0000
Subject: [PATCH 21/60] fix: max_learning_rounds counts completed rounds in
 every learner

L# and adaptive L# stopped one round early (and crashed for a limit of 1),
non-deterministic L* ran one round too many, and KV and abstracted
non-deterministic L* reported one round more than they ran.
---
 aalpy/learning_algs/adaptive/AdaptiveLSharp.py                | 2 +-
 aalpy/learning_algs/deterministic/KV.py                       | 4 ++--
 aalpy/learning_algs/deterministic/LSharp.py                   | 2 +-
 aalpy/learning_algs/non_deterministic/AbstractedOnfsmLstar.py | 4 ++--
 aalpy/learning_algs/non_deterministic/OnfsmLstar.py           | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/aalpy/learning_algs/adaptive/AdaptiveLSharp.py b/aalpy/learning_algs/adaptive/AdaptiveLSharp.py
index 4f7b430..020ab10 100644
--- a/aalpy/learning_algs/adaptive/AdaptiveLSharp.py
+++ b/aalpy/learning_algs/adaptive/AdaptiveLSharp.py
@@ -88,9 +88,9 @@ def run_adaptive_Lsharp(alphabet: list, sul: SUL, references: list, eq_oracle: O
     hypothesis = None
 
     while True:
-        learning_rounds += 1
         if max_learning_rounds and learning_rounds == max_learning_rounds:
             break
+        learning_rounds += 1
 
         # Building the hypothesis
         hypothesis = ob_tree.build_hypothesis()
diff --git a/aalpy/learning_algs/deterministic/KV.py b/aalpy/learning_algs/deterministic/KV.py
index f053144..b325c33 100644
--- a/aalpy/learning_algs/deterministic/KV.py
+++ b/aalpy/learning_algs/deterministic/KV.py
@@ -109,9 +109,9 @@ def run_KV(alphabet: Union[list, SevpaAlphabet], sul: SUL, eq_oracle: Oracle, au
         classification_tree = ClassificationTree(alphabet=alphabet, sul=sul, automaton_type=automaton_type, cex=cex)
 
         while True:
-            learning_rounds += 1
-            if max_learning_rounds and learning_rounds - 1 == max_learning_rounds:
+            if max_learning_rounds and learning_rounds == max_learning_rounds:
                 break
+            learning_rounds += 1
 
             hypothesis = classification_tree.update_hypothesis()
 
diff --git a/aalpy/learning_algs/deterministic/LSharp.py b/aalpy/learning_algs/deterministic/LSharp.py
index 541f419..c58bec6 100644
--- a/aalpy/learning_algs/deterministic/LSharp.py
+++ b/aalpy/learning_algs/deterministic/LSharp.py
@@ -67,9 +67,9 @@ def run_Lsharp(alphabet: list, sul: SUL, eq_oracle: Oracle, automaton_type,
     hypothesis = None
 
     while True:
-        learning_rounds += 1
         if max_learning_rounds and learning_rounds == max_learning_rounds:
             break
+        learning_rounds += 1
 
         # Building the hypothesis
         hypothesis = ob_tree.build_hypothesis()
diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmLstar.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmLstar.py
index af54aa5..090145c 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmLstar.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmLstar.py
@@ -61,9 +61,9 @@ def run_abstracted_ONFSM_Lstar(alphabet: list, sul: SUL, eq_oracle: Oracle, abst
     abstracted_observation_table.update_obs_table(s_set=new_rows)
 
     while True:
-        learning_rounds += 1
-        if max_learning_rounds and learning_rounds - 1 == max_learning_rounds:
+        if max_learning_rounds and learning_rounds == max_learning_rounds:
             break
+        learning_rounds += 1
 
         closed_complete_consistent = False
         while not closed_complete_consistent:
diff --git a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
index 223cb36..a4c0659 100644
--- a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
+++ b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
@@ -67,7 +67,7 @@ def run_non_det_Lstar(alphabet: list, sul: SUL, eq_oracle: Oracle, n_sampling=5,
     hypothesis = None
 
     while True:
-        if max_learning_rounds and learning_rounds - 1 == max_learning_rounds:
+        if max_learning_rounds and learning_rounds == max_learning_rounds:
             break
 
         ot.S = list()
-- 
2.43.0


From 22233243bbbe7f3d93b1627ed0a8c27637f02392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:55 +0000
Subject: [PATCH 22/60] fix: stochastic L* reports the steps of learning, not
 steps minus queries

---
 aalpy/learning_algs/stochastic/StochasticLStar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic/StochasticLStar.py b/aalpy/learning_algs/stochastic/StochasticLStar.py
index 7d7623b..ef340e5 100644
--- a/aalpy/learning_algs/stochastic/StochasticLStar.py
+++ b/aalpy/learning_algs/stochastic/StochasticLStar.py
@@ -202,7 +202,7 @@ def run_stochastic_Lstar(input_alphabet, sul: SUL, eq_oracle: Oracle, target_una
         'learning_rounds': learning_rounds,
         'automaton_size': len(hypothesis.states),
         'queries_learning': stochastic_teacher.sul.num_queries - eq_oracle.num_queries,
-        'steps_learning': stochastic_teacher.sul.num_steps - eq_oracle.num_queries,
+        'steps_learning': stochastic_teacher.sul.num_steps - eq_oracle.num_steps,
         'queries_eq_oracle': eq_oracle.num_queries,
         'steps_eq_oracle': eq_oracle.num_steps,
         'learning_time': learning_time,
-- 
2.43.0


From f4c884fe3bd1ac4b9aa572edf10d4844388994bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:55 +0000
Subject: [PATCH 23/60] fix: stochastic L* respects max_rounds with
 property_based_stopping

---
 aalpy/learning_algs/stochastic/StochasticLStar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic/StochasticLStar.py b/aalpy/learning_algs/stochastic/StochasticLStar.py
index ef340e5..4668d59 100644
--- a/aalpy/learning_algs/stochastic/StochasticLStar.py
+++ b/aalpy/learning_algs/stochastic/StochasticLStar.py
@@ -179,7 +179,7 @@ def run_stochastic_Lstar(input_alphabet, sul: SUL, eq_oracle: Oracle, target_una
 
         if property_based_stopping and learning_rounds >= min_rounds:
             # stop based on maximum allowed error
-            if stop_based_on_confidence(hypothesis, property_based_stopping, print_level):
+            if learning_rounds == max_rounds or stop_based_on_confidence(hypothesis, property_based_stopping, print_level):
                 break
         else:
             # stop based on number of unambiguous rows
-- 
2.43.0


From fbcb1aeb7881ae18b90cff06945c3553ec1d3fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:55 +0000
Subject: [PATCH 24/60] fix: stochastic L* does not return a hypothesis refuted
 in the same round

---
 aalpy/learning_algs/stochastic/StochasticLStar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic/StochasticLStar.py b/aalpy/learning_algs/stochastic/StochasticLStar.py
index 4668d59..eddb8bf 100644
--- a/aalpy/learning_algs/stochastic/StochasticLStar.py
+++ b/aalpy/learning_algs/stochastic/StochasticLStar.py
@@ -191,7 +191,7 @@ def run_stochastic_Lstar(input_alphabet, sul: SUL, eq_oracle: Oracle, target_una
             if stop_based_on_unambiguity:
                 break
 
-        if not refined:
+        if not refined and not chaos_cex_present and cex is None:
             break
 
     total_time = round(time.time() - start_time, 2)
-- 
2.43.0


From 9d6d193d7871b63f2089c9b9011925a8f4f80f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:10 +0000
Subject: [PATCH 25/60] fix: refine queries leave the recorded input
 frequencies of the tree alone

The sampling weights of the prefix tree were to be decremented, but the counts
of the observation tree were, down to negative values.
---
 aalpy/learning_algs/stochastic/StochasticTeacher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic/StochasticTeacher.py b/aalpy/learning_algs/stochastic/StochasticTeacher.py
index 16c27ea..e37345f 100644
--- a/aalpy/learning_algs/stochastic/StochasticTeacher.py
+++ b/aalpy/learning_algs/stochastic/StochasticTeacher.py
@@ -259,7 +259,7 @@ class StochasticTeacher:
             else:
                 curr_node = pta_root
                 for i, o in zip(inputs, outputs):
-                    self.curr_node.input_frequencies[i] -= 1
+                    curr_node.input_frequencies[i] = max(curr_node.input_frequencies[i] - 1, 0)
                     curr_node = curr_node.get_child(i, o)
                 self.sul.post()
                 return
-- 
2.43.0


From b57f34fd840db1730e7c4b3207e2821de0bfd111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 26/60] fix: TomitaSUL appends nothing to its word when probed
 without an input

---
 aalpy/SULs/TomitaSUL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/SULs/TomitaSUL.py b/aalpy/SULs/TomitaSUL.py
index 89a7fbe..218fb62 100644
--- a/aalpy/SULs/TomitaSUL.py
+++ b/aalpy/SULs/TomitaSUL.py
@@ -26,7 +26,7 @@ class TomitaSUL(SUL):
         pass
 
     def step(self, letter):
-        if input:
+        if letter is not None:
             self.string += str(letter)
         return self.tomita_level(self.string)
 
-- 
2.43.0


From 8505ba857beb80710b9518f04a8a98042aee8f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 27/60] fix: same-state transitions are listed in the order of
 the transitions, not in hash order

---
 aalpy/base/Automaton.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aalpy/base/Automaton.py b/aalpy/base/Automaton.py
index 4407006..6769d13 100644
--- a/aalpy/base/Automaton.py
+++ b/aalpy/base/Automaton.py
@@ -37,8 +37,7 @@ class AutomatonState(ABC):
         Get all transitions that lead to the same state (self loops).
         """
         dst = self.get_diff_state_transitions()
-        all_trans = set(self.transitions.keys())
-        return [t for t in all_trans if t not in dst]
+        return [t for t in self.transitions.keys() if t not in dst]
 
 
 AutomatonStateType = TypeVar("AutomatonStateType", bound=AutomatonState)
-- 
2.43.0


From bac535df36478089f4c14867edf6ac9a3618be49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 28/60] fix: Wp-method tests in the order of states and inputs,
 not in hash order

---
 aalpy/oracles/WpMethodEqOracle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aalpy/oracles/WpMethodEqOracle.py b/aalpy/oracles/WpMethodEqOracle.py
index 86c2d7e..b7c0a93 100644
--- a/aalpy/oracles/WpMethodEqOracle.py
+++ b/aalpy/oracles/WpMethodEqOracle.py
@@ -77,14 +77,14 @@ class WpMethodEqOracle(Oracle):
         if not hypothesis.characterization_set:
             hypothesis.characterization_set = hypothesis.compute_characterization_set()
 
-        transition_cover = set(
+        transition_cover = [
             state.prefix + (letter,)
             for state in hypothesis.states
             for letter in self.alphabet
-        )
+        ]
 
-        state_cover = set(state.prefix for state in hypothesis.states)
-        difference = transition_cover.difference(state_cover)
+        state_cover = [state.prefix for state in hypothesis.states]
+        difference = [seq for seq in transition_cover if seq not in state_cover]
         depth = self.m + 1 - len(hypothesis.states)
         # first phase State Cover * Middle * Characterization Set
         first_phase = first_phase_it(self.alphabet, state_cover, depth, hypothesis.characterization_set)
-- 
2.43.0


From 58d767f70f89a2dd342f0c53383fa4414db39256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 29/60] fix: SMM to MDP conversion numbers states independently
 of hashes

---
 aalpy/automata/StochasticMealyMachine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aalpy/automata/StochasticMealyMachine.py b/aalpy/automata/StochasticMealyMachine.py
index 1e889e8..9ab9ffc 100644
--- a/aalpy/automata/StochasticMealyMachine.py
+++ b/aalpy/automata/StochasticMealyMachine.py
@@ -116,11 +116,11 @@ def smm_to_mdp_conversion(smm: StochasticMealyMachine):
     mdp_states.append(init_state)
     for s in smm.states:
         incoming_edges = defaultdict(list)
-        incoming_outputs = set()
+        incoming_outputs = dict()  # ordered, so that state ids do not depend on hashes
         for pre_s in smm.states:
             for i in inputs:
                 incoming_edges[i] += filter(lambda t: t[0] == s, pre_s.transitions.get(i, []))
-                incoming_outputs.update(map(lambda t: t[1], incoming_edges[i]))
+                incoming_outputs.update((t[1], None) for t in incoming_edges[i])
         state_id = 0
         for o in incoming_outputs:
             new_state_id = s.state_id + str(state_id)
-- 
2.43.0


From 43e0bf780142d0eef51916e2c824321565d8cd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 30/60] fix: converted RPNI sequences keep the order of the
 traces

---
 aalpy/utils/HelperFunctions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aalpy/utils/HelperFunctions.py b/aalpy/utils/HelperFunctions.py
index fb52c0b..84a0c69 100644
--- a/aalpy/utils/HelperFunctions.py
+++ b/aalpy/utils/HelperFunctions.py
@@ -285,18 +285,18 @@ def convert_i_o_traces_for_RPNI(sequences, automaton_type="mealy"):
     Eg. [[(1,'a'), (2,'b'), (3,'c')], [(6,'7'), (4,'e'), (3,'c')]] to
     [((1,), 'a'), ((1, 2), 'b'), ((1, 2, 3), 'c'), ((6,), '7'), ((6, 4), 'e'), ((6, 4, 3), 'c')]
     """
-    rpni_sequences = set()
+    rpni_sequences = dict()  # ordered set, so that the result does not depend on hashes
 
     if automaton_type not in ["mealy", "moore", "dfa"]:
         raise ValueError()
 
     for s in sequences:
         if automaton_type in ["moore", "dfa"]:
-            rpni_sequences.add((tuple(), s[0]))
+            rpni_sequences[(tuple(), s[0])] = None
             s = s[1:]
         for i in range(len(s)):
             inputs = tuple([io[0] for io in s[:i + 1]])
-            rpni_sequences.add((inputs, s[i][1]))
+            rpni_sequences[(inputs, s[i][1])] = None
 
     return list(rpni_sequences)
 
-- 
2.43.0


From 39956e9d3673cf36ad386bd18fcffe24435527cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 31/60] fix: accepting words of a Sevpa are returned in search
 order, not in hash order

---
 aalpy/automata/Sevpa.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aalpy/automata/Sevpa.py b/aalpy/automata/Sevpa.py
index 0a818e3..58b0c7d 100644
--- a/aalpy/automata/Sevpa.py
+++ b/aalpy/automata/Sevpa.py
@@ -431,7 +431,7 @@ class Sevpa(Automaton):
         for letter in shuffled_alphabet:
             queue.append([letter])
 
-        found_words = set()
+        found_words = []
         while queue:
             word = queue.popleft()
             self.reset_to_initial()
@@ -440,9 +440,8 @@ class Sevpa(Automaton):
             if self.error_state_reached:
                 continue
             if self.current_state.is_accepting and self.stack[-1] == self.empty and len(word) >= min_word_length:
-                found_words.add(tuple(word))
+                found_words.append(tuple(word))
             if len(found_words) >= num_words:
-                found_words = list(found_words)
                 found_words.sort(key=len)
                 return found_words
             shuffled_alphabet = self.input_alphabet.get_merged_alphabet()
-- 
2.43.0


From 3225e16769807d6139381011ac6f4b67543ea748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 32/60] fix: abstracted ONFSM L* processes rows and outputs in
 a reproducible order

---
 .../AbstractedOnfsmObservationTable.py        | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
index e01ad1a..db4547e 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
@@ -60,7 +60,8 @@ class AbstractedNonDetObservationTable:
         """
 
         self.S = self.observation_table.S
-        self.S_dot_A = list(set(self.observation_table.get_extended_S()).union(set(self.S_dot_A) - set(self.S)))
+        extended_S = self.observation_table.get_extended_S() + [row for row in self.S_dot_A if row not in self.S]
+        self.S_dot_A = list(dict.fromkeys(extended_S))
         self.E = self.observation_table.E
 
         update_S = self.S + self.S_dot_A
@@ -96,9 +97,8 @@ class AbstractedNonDetObservationTable:
     # CHANGED
     # helper function
     def get_all_outputs(self, s, e):
-        cell_outputs = set()
-        cell_outputs.update(self.sul.cache.get_all_traces(s, e))
-        return cell_outputs
+        # without duplicates, in the order in which they were observed
+        return list(dict.fromkeys(self.sul.cache.get_all_traces(s, e)))
 
     def update_extended_S(self, row_prefix=None):
         """
@@ -143,9 +143,7 @@ class AbstractedNonDetObservationTable:
             row that will be added to S.A
         """
 
-        s_rows = set()
-        for s in self.S:
-            s_rows.add(tuple((s, self.row_to_hashable(s))))
+        s_rows = [(s, self.row_to_hashable(s)) for s in self.S]
 
         for s_row in s_rows:
             similar_s_dot_a_rows = []
@@ -158,14 +156,14 @@ class AbstractedNonDetObservationTable:
                 complete_outputs = self.get_all_outputs(s_row[0], a)
                 for similar_s_dot_a_row in similar_s_dot_a_rows:
                     t_row_outputs = self.get_all_outputs(similar_s_dot_a_row, a)
-                    output_difference = t_row_outputs.difference(complete_outputs)
+                    output_difference = [o for o in t_row_outputs if o not in complete_outputs]
                     if len(output_difference) > 0:
                         for o in output_difference:
                             extension = (similar_s_dot_a_row[0] + a, similar_s_dot_a_row[1] + tuple([o[0]]))
                             if extension not in self.S and extension not in self.S_dot_A:
                                 return extension
                             else:
-                                complete_outputs = complete_outputs.union(output_difference)
+                                complete_outputs = complete_outputs + output_difference
 
         return None
 
@@ -174,9 +172,7 @@ class AbstractedNonDetObservationTable:
         Get row that violates consistency.
         """
         unified_S = self.S + self.S_dot_A
-        s_rows = set()
-        for s in self.S:
-            s_rows.add(tuple((s, self.row_to_hashable(s))))
+        s_rows = [(s, self.row_to_hashable(s)) for s in self.S]
 
         for s_row in s_rows:
             similar_s_dot_a_rows = []
-- 
2.43.0


From 49f5d69e39a6277abf7c2548d56444e5b321172c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 33/60] fix: backward linear counterexample processing is no
 longer overridden by the forward one

---
 aalpy/learning_algs/deterministic/ClassificationTree.py       | 2 +-
 aalpy/learning_algs/deterministic/CounterExampleProcessing.py | 2 --
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/aalpy/learning_algs/deterministic/ClassificationTree.py b/aalpy/learning_algs/deterministic/ClassificationTree.py
index acfdaf4..0e51ba7 100644
--- a/aalpy/learning_algs/deterministic/ClassificationTree.py
+++ b/aalpy/learning_algs/deterministic/ClassificationTree.py
@@ -393,7 +393,7 @@ class ClassificationTree:
         if self.automaton_type == 'dfa' or self.automaton_type == 'vpa':
             new_leaf_position = not hypothesis.execute_sequence(hypothesis.initial_state, cex)[-1]
         else:
-            new_leaf_position = self.sul.query(cex)[-1]
+            new_leaf_position = self.sul.query((*new_leaf_access_string, *discriminator))[-1]
 
         self._insert_new_leaf(discriminator=discriminator,
                               old_leaf_access_string=ua_state.prefix,
diff --git a/aalpy/learning_algs/deterministic/CounterExampleProcessing.py b/aalpy/learning_algs/deterministic/CounterExampleProcessing.py
index 5503946..8495041 100644
--- a/aalpy/learning_algs/deterministic/CounterExampleProcessing.py
+++ b/aalpy/learning_algs/deterministic/CounterExampleProcessing.py
@@ -114,8 +114,6 @@ def linear_cex_processing(sul: SUL, cex: tuple, hypothesis, suffix_closedness=Tr
                           direction='fwd', is_vpa=False):
     assert direction in {'fwd', 'bwd'}
 
-    direction = 'fwd'
-
     distinguishing_suffix = None
     previous_output = None
 
-- 
2.43.0


From aa58bc52e38472c247b389f3161c1b479c2b8e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 34/60] fix: undocumented print levels are rejected by every
 active learner

---
 aalpy/learning_algs/adaptive/AdaptiveLSharp.py                | 3 +++
 aalpy/learning_algs/deterministic/LSharp.py                   | 3 +++
 aalpy/learning_algs/non_deterministic/AbstractedOnfsmLstar.py | 2 ++
 aalpy/learning_algs/non_deterministic/OnfsmLstar.py           | 2 ++
 aalpy/learning_algs/stochastic/StochasticLStar.py             | 1 +
 5 files changed, 11 insertions(+)

diff --git a/aalpy/learning_algs/adaptive/AdaptiveLSharp.py b/aalpy/learning_algs/adaptive/AdaptiveLSharp.py
index 020ab10..3136d31 100644
--- a/aalpy/learning_algs/adaptive/AdaptiveLSharp.py
+++ b/aalpy/learning_algs/adaptive/AdaptiveLSharp.py
@@ -5,6 +5,8 @@ from aalpy.utils.HelperFunctions import print_learning_info
 from .AdaptiveObservationTree import AdaptiveObservationTree
 from ...base.SUL import CacheSUL
 
+print_options = [0, 1, 2, 3]
+
 
 def run_adaptive_Lsharp(alphabet: list, sul: SUL, references: list, eq_oracle: Oracle, automaton_type,
                         extension_rule=None, separation_rule="SepSeq",
@@ -63,6 +65,7 @@ def run_adaptive_Lsharp(alphabet: list, sul: SUL, references: list, eq_oracle: O
     """
     assert extension_rule in {None, "SepSeq", "ADS"}
     assert separation_rule in {"SepSeq", "ADS"}
+    assert print_level in print_options
 
     assert state_matching in {None, "Total", "Approximate"}
     assert references is not None, 'List of reference models is empty. Use L*, KV, L#, or provide models.'
diff --git a/aalpy/learning_algs/deterministic/LSharp.py b/aalpy/learning_algs/deterministic/LSharp.py
index c58bec6..6aecd57 100644
--- a/aalpy/learning_algs/deterministic/LSharp.py
+++ b/aalpy/learning_algs/deterministic/LSharp.py
@@ -5,6 +5,8 @@ from aalpy.utils.HelperFunctions import print_learning_info
 from .ObservationTree import ObservationTree
 from ...base.SUL import CacheSUL
 
+print_options = [0, 1, 2, 3]
+
 
 def run_Lsharp(alphabet: list, sul: SUL, eq_oracle: Oracle, automaton_type,
                extension_rule='SepSeq', separation_rule="ADS", samples=None,
@@ -49,6 +51,7 @@ def run_Lsharp(alphabet: list, sul: SUL, eq_oracle: Oracle, automaton_type,
     """
     assert extension_rule in {None, "SepSeq", "ADS"}
     assert separation_rule in {"SepSeq", "ADS"}
+    assert print_level in print_options
 
     if cache_and_non_det_check or samples is not None:
         # Wrap the sul in the CacheSUL, so that all steps/queries are cached
diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmLstar.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmLstar.py
index 090145c..a67a9af 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmLstar.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmLstar.py
@@ -44,6 +44,8 @@ def run_abstracted_ONFSM_Lstar(alphabet: list, sul: SUL, eq_oracle: Oracle, abst
         learned abstracted ONFSM
 
     """
+    assert print_level in print_options
+
     start_time = time.time()
     eq_query_time = 0
     learning_rounds = 0
diff --git a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
index a4c0659..dafb43f 100644
--- a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
+++ b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
@@ -46,6 +46,8 @@ def run_non_det_Lstar(alphabet: list, sul: SUL, eq_oracle: Oracle, n_sampling=5,
 
     """
 
+    assert print_level in print_options
+
     start_time = time.time()
     eq_query_time = 0
     learning_rounds = 0
diff --git a/aalpy/learning_algs/stochastic/StochasticLStar.py b/aalpy/learning_algs/stochastic/StochasticLStar.py
index eddb8bf..10d04a8 100644
--- a/aalpy/learning_algs/stochastic/StochasticLStar.py
+++ b/aalpy/learning_algs/stochastic/StochasticLStar.py
@@ -83,6 +83,7 @@ def run_stochastic_Lstar(input_alphabet, sul: SUL, eq_oracle: Oracle, target_una
     assert samples_cex_strategy in cex_sampling_options or samples_cex_strategy.startswith('random')
     assert cex_processing in cex_processing_options
     assert automaton_type in {'mdp', 'smm'}
+    assert print_level in print_options
     if not isinstance(stopping_range_dict, dict):
         assert stopping_range_dict in {'strict', 'relaxed'}
     if property_based_stopping:
-- 
2.43.0


From 36e4421e71c9c63000f24bdad891e4c6d3ded4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 35/60] fix: documented options of KV and adaptive L# are those
 accepted

---
 aalpy/learning_algs/adaptive/AdaptiveLSharp.py | 2 +-
 aalpy/learning_algs/deterministic/KV.py        | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aalpy/learning_algs/adaptive/AdaptiveLSharp.py b/aalpy/learning_algs/adaptive/AdaptiveLSharp.py
index 3136d31..b89f47e 100644
--- a/aalpy/learning_algs/adaptive/AdaptiveLSharp.py
+++ b/aalpy/learning_algs/adaptive/AdaptiveLSharp.py
@@ -31,7 +31,7 @@ def run_adaptive_Lsharp(alphabet: list, sul: SUL, references: list, eq_oracle: O
 
         automaton_type: type of automaton to be learned. Either 'dfa', 'mealy' or 'moore'
 
-        extension_rule: strategy used during the extension rule. Options: "Nothing" (default), "SepSeq" and "ADS".
+        extension_rule: strategy used during the extension rule. Options: None (default), "SepSeq" and "ADS".
 
         separation_rule: strategy used during the extension rule. Options: "SepSeq" (default) and "ADS".
 
diff --git a/aalpy/learning_algs/deterministic/KV.py b/aalpy/learning_algs/deterministic/KV.py
index b325c33..32dda2c 100644
--- a/aalpy/learning_algs/deterministic/KV.py
+++ b/aalpy/learning_algs/deterministic/KV.py
@@ -29,8 +29,8 @@ def run_KV(alphabet: Union[list, SevpaAlphabet], sul: SUL, eq_oracle: Oracle, au
 
         automaton_type: type of automaton to be learned. One of 'dfa', 'mealy', 'moore', 'vpa'
 
-        cex_processing: Counterexample processing strategy. Either 'rs' (Riverst-Schapire), 'longest_prefix'.
-            (Default value = 'rs'), 'longest_prefix', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd'
+        cex_processing: Counterexample processing strategy. Either 'rs' (Riverst-Schapire),
+            (Default value = 'rs'), 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd'
 
         max_learning_rounds: number of learning rounds after which learning will terminate (Default value = None)
 
-- 
2.43.0


From 312ba79faa30f8ac4580140953b02c5ac7ec61de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 36/60] fix: the W-method oracle no longer ignores
 shuffle_test_set

---
 aalpy/oracles/WMethodEqOracle.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aalpy/oracles/WMethodEqOracle.py b/aalpy/oracles/WMethodEqOracle.py
index bfc4bcb..6d68f66 100644
--- a/aalpy/oracles/WMethodEqOracle.py
+++ b/aalpy/oracles/WMethodEqOracle.py
@@ -42,9 +42,12 @@ class WMethodEqOracle(Oracle):
         char_set = char_set or [()]
         for d in range(depth):
             middle = product(self.alphabet, repeat=d)
-            for m in middle:
-                for (s, c) in product(cover, char_set):
-                    yield s + m + c
+            tests = (s + m + c for m in middle for (s, c) in product(cover, char_set))
+            if self.shuffle:
+                # test cases with middle parts of the same length are shuffled
+                tests = list(tests)
+                shuffle(tests)
+            yield from tests
 
     def find_cex(self, hypothesis):
 
-- 
2.43.0


From da2cbb4b2ee81560b738c8129c79ab350ed31e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:57 +0000
Subject: [PATCH 37/60] fix: a transformed score function calls the original
 one instead of itself

---
 aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py b/aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py
index 0f1cd97..5137924 100644
--- a/aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py
+++ b/aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py
@@ -182,7 +182,8 @@ def transform_score(score, transform: Callable):
     if isinstance(score, Callable):
         return lambda *args: transform(score(*args))
     if isinstance(score, ScoreCalculation):
-        score.score_function = lambda *args: transform(score.score_function(*args))
+        original_score_function = score.score_function
+        score.score_function = lambda *args: transform(original_score_function(*args))
         return score
     return transform(score)
 
-- 
2.43.0


From ad5201b5e805e4dac377d593288256c7b31994b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 38/60] fix: exported state setups start with the initial state
 even if prefixes are out of date

---
 aalpy/automata/Dfa.py          | 4 +++-
 aalpy/automata/MealyMachine.py | 4 +++-
 aalpy/automata/MooreMachine.py | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/aalpy/automata/Dfa.py b/aalpy/automata/Dfa.py
index 0362dd7..a6fa301 100644
--- a/aalpy/automata/Dfa.py
+++ b/aalpy/automata/Dfa.py
@@ -57,7 +57,9 @@ class Dfa(DeterministicAutomaton[DfaState[InputType]]):
         # ensure prefixes are computed
         self.compute_prefixes()
 
-        sorted_states = sorted(self.states, key=lambda x: len(x.prefix) if x.prefix is not None else len(self.states))
+        # the initial state comes first, whatever the prefixes are
+        sorted_states = sorted(self.states, key=lambda x: (x is not self.initial_state, len(x.prefix)
+                                                           if x.prefix is not None else len(self.states)))
         for s in sorted_states:
             state_setup_dict[s.state_id] = (s.is_accepting, {k: v.state_id for k, v in s.transitions.items()})
 
diff --git a/aalpy/automata/MealyMachine.py b/aalpy/automata/MealyMachine.py
index d498c56..80acf0c 100644
--- a/aalpy/automata/MealyMachine.py
+++ b/aalpy/automata/MealyMachine.py
@@ -42,7 +42,9 @@ class MealyMachine(DeterministicAutomaton[MealyState[InputType, OutputType]]):
         # ensure prefixes are computed
         self.compute_prefixes()
 
-        sorted_states = sorted(self.states, key=lambda x: len(x.prefix) if x.prefix is not None else len(self.states))
+        # the initial state comes first, whatever the prefixes are
+        sorted_states = sorted(self.states, key=lambda x: (x is not self.initial_state, len(x.prefix)
+                                                           if x.prefix is not None else len(self.states)))
         for s in sorted_states:
             state_setup_dict[s.state_id] = {k: (s.output_fun[k], v.state_id) for k, v in s.transitions.items()}
 
diff --git a/aalpy/automata/MooreMachine.py b/aalpy/automata/MooreMachine.py
index 57e40f6..07261cd 100644
--- a/aalpy/automata/MooreMachine.py
+++ b/aalpy/automata/MooreMachine.py
@@ -54,7 +54,9 @@ class MooreMachine(DeterministicAutomaton[MooreState[InputType, OutputType]]):
         # ensure prefixes are computed
         self.compute_prefixes()
 
-        sorted_states = sorted(self.states, key=lambda x: len(x.prefix) if x.prefix is not None else len(self.states))
+        # the initial state comes first, whatever the prefixes are
+        sorted_states = sorted(self.states, key=lambda x: (x is not self.initial_state, len(x.prefix)
+                                                           if x.prefix is not None else len(self.states)))
         for s in sorted_states:
             state_setup_dict[s.state_id] = (s.output, {k: v.state_id for k, v in s.transitions.items()})
 
-- 
2.43.0


From edbb49ee89de72da4d0db68322f7cf02db1ffe40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 39/60] fix: NDMooreMachine.to_state_setup returns the setup it
 builds

---
 aalpy/automata/NonDeterministicMooreMachine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aalpy/automata/NonDeterministicMooreMachine.py b/aalpy/automata/NonDeterministicMooreMachine.py
index c7f61e4..6bfcfda 100644
--- a/aalpy/automata/NonDeterministicMooreMachine.py
+++ b/aalpy/automata/NonDeterministicMooreMachine.py
@@ -33,6 +33,8 @@ class NDMooreMachine(Automaton[NDMooreState[InputType, OutputType]]):
                 continue
             set_dict_entry(state)
 
+        return state_setup
+
     @staticmethod
     def from_state_setup(state_setup: dict, **kwargs) -> 'NDMooreMachine':
         states_map = {key: NDMooreState(key, output=value[0]) for key, value in state_setup.items()}
-- 
2.43.0


From 616f724ea1f357dae45a4bece564bf9a6584300a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:29 +0000
Subject: [PATCH 40/60] fix: pushdown automata can be copied and pickled: setup
 export keeps stack guards and the initial state first

---
 aalpy/automata/Sevpa.py |  6 ++++--
 aalpy/automata/Vpa.py   | 17 +++++++++--------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/aalpy/automata/Sevpa.py b/aalpy/automata/Sevpa.py
index 58b0c7d..ae16018 100644
--- a/aalpy/automata/Sevpa.py
+++ b/aalpy/automata/Sevpa.py
@@ -180,7 +180,8 @@ class Sevpa(Automaton):
     def to_state_setup(self):
         state_setup_dict = {}
 
-        sorted_states = sorted(self.states, key=lambda x: x.state_id)
+        # initial state is the first one
+        sorted_states = sorted(self.states, key=lambda x: (x is not self.initial_state, x.state_id))
         for state in sorted_states:
             transitions_for_symbol = {}
             for symbol, transition_list in state.transitions.items():
@@ -197,7 +198,8 @@ class Sevpa(Automaton):
     @staticmethod
     def from_state_setup(state_setup: dict, **kwargs):
 
-        init_state_id = kwargs['init_state_id']
+        # if not defined otherwise, first state in the state setup is the initial state
+        init_state_id = kwargs.get('init_state_id', next(iter(state_setup)))
 
         # build states with state_id and output
         states = {key: SevpaState(key, val[0]) for key, val in state_setup.items()}
diff --git a/aalpy/automata/Vpa.py b/aalpy/automata/Vpa.py
index c0f453b..ecf3182 100644
--- a/aalpy/automata/Vpa.py
+++ b/aalpy/automata/Vpa.py
@@ -153,13 +153,12 @@ class Vpa(Automaton):
     def to_state_setup(self):
         state_setup_dict = {}
 
-        # ensure prefixes are computed
-        # self.compute_prefixes()
-
-        sorted_states = sorted(self.states, key=lambda x: len(x.prefix) if x.prefix is not None else len(self.states))
-        for s in sorted_states:
+        # ensure initial state is first in the list
+        states = [self.initial_state] + [s for s in self.states if s is not self.initial_state]
+        for s in states:
             state_setup_dict[s.state_id] = (
-                s.is_accepting, {k: (v.target_state.state_id, v.action) for k, v in s.transitions.items()})
+                s.is_accepting, {k: [(t.target_state.state_id, t.action, t.stack_guard) for t in transitions]
+                                 for k, transitions in s.transitions.items()})
 
         return state_setup_dict
 
@@ -218,7 +217,8 @@ class Vpa(Automaton):
                 state_setup (dict): A dictionary mapping from state IDs to tuples containing
                     (is_accepting: bool, transitions_dict: dict), where transitions_dict maps input symbols to
                     lists of tuples (target_state_id, action, stack_guard).
-                init_state_id (str): The state ID for the initial state of the VPA.
+                init_state_id (str): The state ID for the initial state of the VPA. If it is not defined, the first
+                    state in the state setup is the initial state.
                 input_alphabet (VpaAlphabet): The alphabet for the VPA.
 
             Returns:
@@ -226,7 +226,8 @@ class Vpa(Automaton):
             """
         # state_setup should map from state_id to tuple(is_accepting and transitions_dict)
 
-        init_state_id = kwargs['init_state_id']
+        # if not defined otherwise, first state in the state setup is the initial state
+        init_state_id = kwargs.get('init_state_id', next(iter(state_setup)))
 
         # build states with state_id and output
         states = {key: VpaState(key, val[0]) for key, val in state_setup.items()}
-- 
2.43.0


From 9ee801edb2e4c830264e5af05d030a5445cd5367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:45 +0000
Subject: [PATCH 41/60] fix: Onfsm and MarkovChain implement state setups, so
 that they can be copied and pickled

---
 aalpy/automata/MarkovChain.py | 20 ++++++++++++++++++--
 aalpy/automata/Onfsm.py       | 23 +++++++++++++++++++++--
 2 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/aalpy/automata/MarkovChain.py b/aalpy/automata/MarkovChain.py
index 1280edd..536650e 100644
--- a/aalpy/automata/MarkovChain.py
+++ b/aalpy/automata/MarkovChain.py
@@ -64,7 +64,23 @@ class MarkovChain(Automaton[McState[OutputType]]):
 
     @staticmethod
     def from_state_setup(state_setup: dict, **kwargs):
-        raise NotImplementedError()  # TODO implement
+        # state_setup maps from state_id to tuple(output, [(new_state_id, probability), ...])
+        states_map = {key: McState(key, output=value[0]) for key, value in state_setup.items()}
+
+        for key, (_, transitions) in state_setup.items():
+            for node, prob in transitions:
+                states_map[key].transitions.append((states_map[node], prob))
+
+        initial_state = states_map[list(state_setup.keys())[0]]
+        return MarkovChain(initial_state, list(states_map.values()))
 
     def to_state_setup(self):
-        raise NotImplementedError()  # TODO implement
+        state_setup_dict = {}
+
+        # ensure initial state is first in the list
+        states = [self.initial_state] + [s for s in self.states if s is not self.initial_state]
+
+        for s in states:
+            state_setup_dict[s.state_id] = (s.output, [(node.state_id, prob) for node, prob in s.transitions])
+
+        return state_setup_dict
diff --git a/aalpy/automata/Onfsm.py b/aalpy/automata/Onfsm.py
index c544920..1f5ebaa 100644
--- a/aalpy/automata/Onfsm.py
+++ b/aalpy/automata/Onfsm.py
@@ -103,7 +103,26 @@ class Onfsm(Automaton[OnfsmState[InputType, OutputType]]):
 
     @staticmethod
     def from_state_setup(state_setup : dict, **kwargs):
-        raise NotImplementedError() # TODO implement
+        # state_setup maps from state_id to transitions_dict, {input: [(output, new_state_id), ...]}
+        states_map = {key: OnfsmState(key) for key in state_setup.keys()}
+
+        for key, values in state_setup.items():
+            source = states_map[key]
+            for i, transitions in values.items():
+                for output, node in transitions:
+                    source.transitions[i].append((output, states_map[node]))
+
+        initial_state = states_map[list(state_setup.keys())[0]]
+        return Onfsm(initial_state, list(states_map.values()))
 
     def to_state_setup(self):
-        raise NotImplementedError # TODO implement
\ No newline at end of file
+        state_setup_dict = {}
+
+        # ensure initial state is first in the list
+        states = [self.initial_state] + [s for s in self.states if s is not self.initial_state]
+
+        for s in states:
+            state_setup_dict[s.state_id] = {k: [(output, node.state_id) for output, node in v]
+                                            for k, v in s.transitions.items()}
+
+        return state_setup_dict
-- 
2.43.0


From 0f230b328664617950c6da9922f22f3491568fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:53 +0000
Subject: [PATCH 42/60] fix: return transitions of a Sevpa are loaded under
 their input

---
 aalpy/utils/FileHandler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index 820019e..87719a2 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -219,7 +219,7 @@ def save_automaton_to_file(automaton, path="LearnedModel", file_type="dot",
             print(f'Could not write to the file {path.as_posix()}.', file=sys.stderr)
 
 
-sevpa_transition_pattern = r"(\S+)\s*/\s*\(\s*'(\S+)'\s*,\s*'(\S+)'\s*\)"
+sevpa_transition_pattern = r"(\S+)\s*/\s*\(\s*'?([^\s',]+)'?\s*,\s*'?([^\s']+?)'?\s*\)"
 vpa_push_pattern = r"(\S+)\s*/\s*push\(\s*(.*?)\s*\)"
 vpa_pop_pattern = r"(\S+)\s*/\s*pop\(\s*(.*?)\s*\)"
 
@@ -260,8 +260,10 @@ def _process_label(label, source, destination, automaton_type):
         label = int(label) if label.isdigit() else label
         if match:
             ret, stack_guard, top_of_stack = match.groups()
+            ret = int(ret) if ret.isdigit() else ret
+            top_of_stack = int(top_of_stack) if top_of_stack.isdigit() else top_of_stack
             return_transition = SevpaTransition(destination, ret, 'pop', (stack_guard, top_of_stack))
-            source.transitions[label].append(return_transition)
+            source.transitions[ret].append(return_transition)
         else:
             internal_transition = SevpaTransition(destination, label, None, None)
             source.transitions[label].append(internal_transition)
-- 
2.43.0


From 016277443a79a63715f6c88a850fb337b2535682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:53 +0000
Subject: [PATCH 43/60] fix: loading an automaton computes prefixes for the
 automaton types that have them

---
 aalpy/utils/FileHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index 87719a2..6e30158 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -408,7 +408,7 @@ def load_automaton_from_file(path, automaton_type, compute_prefixes=False):
     automaton = aut_type(initial_state, list(node_label_dict.values()))
     if automaton_type not in {'mc', 'sevpa', 'vpa'} and not automaton.is_input_complete():
         print('Warning: Loaded automaton is not input complete.')
-    if compute_prefixes and not automaton_type not in {'mc', 'sevpa', 'vpa'}:
+    if compute_prefixes and automaton_type in {'dfa', 'mealy', 'moore'}:
         for state in automaton.states:
             state.prefix = automaton.get_shortest_path(automaton.initial_state, state)
     return automaton
-- 
2.43.0


From 24814dc306372bcd6959948fb07035aa355900d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:53 +0000
Subject: [PATCH 44/60] fix: integer outputs of MDPs and Markov chains are
 loaded as integers

---
 aalpy/utils/FileHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index 6e30158..3bee3dc 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -319,7 +319,7 @@ def _strip_label(label: str) -> str:
 
 def _process_node_label_prime(node_name, label, line, node_label_dict, node_type, automaton_type):
     if automaton_type == 'mdp' or automaton_type == 'mc':
-        node_label_dict[node_name] = node_type(node_name, label)
+        node_label_dict[node_name] = node_type(node_name, int(label) if label.isdigit() else label)
     else:
         if automaton_type in {'moore', 'ndmoore'} and label != "":
             label_output = _strip_label(label)
-- 
2.43.0


From 12a8a84d3f46ef3835109f44d9c589bfeb41252d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:53 +0000
Subject: [PATCH 45/60] fix: VPA symbols containing push or pop can be loaded

---
 aalpy/utils/FileHandler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index 3bee3dc..680ec36 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -270,12 +270,12 @@ def _process_label(label, source, destination, automaton_type):
         pass
     if automaton_type == 'vpa':
         input_symbol, stack_symbol, action = None, None, None
-        if 'push' in label:
-            push_elements = re.match(vpa_push_pattern, label)
+        push_elements = re.fullmatch(vpa_push_pattern, label)
+        pop_elements = re.fullmatch(vpa_pop_pattern, label)
+        if push_elements:
             input_symbol, stack_symbol = push_elements.group(1), push_elements.group(2)
             action = 'push'
-        elif 'pop' in label:
-            pop_elements = re.match(vpa_pop_pattern, label)
+        elif pop_elements:
             input_symbol, stack_symbol = pop_elements.group(1), pop_elements.group(2)
             action = 'pop'
         else:
-- 
2.43.0


From 1359c4b31700ac3bdba47a4ce0a66b3ae91b0a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:53 +0000
Subject: [PATCH 46/60] fix: saved pushdown automata define every state that a
 transition leads to

---
 aalpy/utils/FileHandler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index 680ec36..941c95b 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -189,7 +189,9 @@ def save_automaton_to_file(automaton, path="LearnedModel", file_type="dot",
 
     graph = Dot(path.stem, graph_type='digraph')
     for state in automaton.states:
-        if automaton_type in {'vpa', 'sevpa'} and state.state_id == 'ErrorSinkState':
+        # the error state is shown only if it is the target of a transition
+        if automaton_type in {'vpa', 'sevpa'} and state.state_id == 'ErrorSinkState' and \
+                not any(t.target_state is state for s in automaton.states for ts in s.transitions.values() for t in ts):
             continue
         graph.add_node(_get_node(state, automaton_type))
 
-- 
2.43.0


From 337e0d9ba53c551d6283704ce0f985c3852a71f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:05 +0000
Subject: [PATCH 47/60] fix: samples of active Alergia pair each input with its
 own output

---
 Examples.py                                            |  2 +-
 .../learning_algs/stochastic_passive/ActiveAleriga.py  | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/Examples.py b/Examples.py
index 79f2c0e..27364d2 100644
--- a/Examples.py
+++ b/Examples.py
@@ -831,7 +831,7 @@ def active_alergia_example(example='first_grid'):
         input_query = tuple(choice(input_alphabet) for _ in range(randint(6, 14)))
         outputs = sul.query(input_query)
         # format data in [O, (I, O), (I, O)...]
-        formatted_io = [outputs.pop(0)]
+        formatted_io = sul.query(())
         for i, o in zip(input_query, outputs):
             formatted_io.append((i, o))
         data.append(formatted_io)
diff --git a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
index ad19d76..3fb7ef3 100644
--- a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
+++ b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
@@ -1,6 +1,7 @@
 from abc import ABC, abstractmethod
 from random import randint, choice
 
+from aalpy.automata import StochasticMealyMachine
 from aalpy.learning_algs import run_Alergia
 
 
@@ -37,17 +38,16 @@ class RandomWordSampler(Sampler):
         input_al = list(dict.fromkeys(el for s in model.states for el in s.transitions.keys()))
         samples = []
 
+        # samples of MDPs start with the output of the initial state, stochastic Mealy machines have none
+        initial_output = [] if isinstance(model, StochasticMealyMachine) else sul.query(())
+
         for _ in range(self.num_walks):
             walk_len = randint(self.min_walk_len, self.max_walk_len)
             random_walk = tuple(choice(input_al) for _ in range(walk_len))
 
             outputs = sul.query(random_walk)
 
-            sample = [outputs.pop(0)]
-            for i in range(len(outputs)):
-                sample.append((random_walk[i], outputs[i]))
-
-            samples.append(sample)
+            samples.append(initial_output + list(zip(random_walk, outputs)))
 
         return samples
 
-- 
2.43.0


From e083e992cbaa34faeace4c6ce50e7078ce68cadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:53 +0000
Subject: [PATCH 48/60] fix: mc_from_mdp accepts an input such as 0 or the
 empty string

---
 aalpy/utils/HelperFunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/HelperFunctions.py b/aalpy/utils/HelperFunctions.py
index 84a0c69..e2b521c 100644
--- a/aalpy/utils/HelperFunctions.py
+++ b/aalpy/utils/HelperFunctions.py
@@ -435,7 +435,7 @@ def mc_from_mdp(mdp: Mdp, input_symbol=None) -> MarkovChain:
     alphabet = mdp.get_input_alphabet()
     if len(alphabet) != 1 and input_symbol is None:
         raise ValueError('Cannot convert MDP with several inputs to Markov chain.')
-    input_symbol = input_symbol or alphabet[0]
+    input_symbol = input_symbol if input_symbol is not None else alphabet[0]
 
     state_map = {state.state_id: McState(state.state_id, state.output) for state in mdp.states}
     for state in mdp.states:
-- 
2.43.0


From 249d6f8e0040ed4de3a749969d04254253ec17e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:53 +0000
Subject: [PATCH 49/60] fix: the sink state of a non-deterministic Moore
 machine has the documented output

---
 aalpy/utils/HelperFunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/HelperFunctions.py b/aalpy/utils/HelperFunctions.py
index e2b521c..9bc8a71 100644
--- a/aalpy/utils/HelperFunctions.py
+++ b/aalpy/utils/HelperFunctions.py
@@ -251,7 +251,7 @@ def make_input_complete(automaton, missing_transition_go_to='self_loop'):
                             MooreMachine: MooreState(state_id='sink', output='sink_state'),
                             MealyMachine: MealyState(state_id='sink'),
                             Onfsm: OnfsmState(state_id='sink'),
-                            NDMooreMachine: NDMooreState(state_id='sink'),
+                            NDMooreMachine: NDMooreState(state_id='sink', output='sink_state'),
                             Mdp: MdpState(state_id='sink', output='sink_state'),
                             StochasticMealyMachine: StochasticMealyState(state_id='sink')}
 
-- 
2.43.0


From 0b358a8b4f59b4d8a8557b2702b93f2b91347f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:53 +0000
Subject: [PATCH 50/60] fix: smm_to_mdp_conversion gives every state an
 identifier of its own

---
 aalpy/automata/StochasticMealyMachine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/automata/StochasticMealyMachine.py b/aalpy/automata/StochasticMealyMachine.py
index 9ab9ffc..b5c8135 100644
--- a/aalpy/automata/StochasticMealyMachine.py
+++ b/aalpy/automata/StochasticMealyMachine.py
@@ -123,7 +123,7 @@ def smm_to_mdp_conversion(smm: StochasticMealyMachine):
                 incoming_outputs.update((t[1], None) for t in incoming_edges[i])
         state_id = 0
         for o in incoming_outputs:
-            new_state_id = s.state_id + str(state_id)
+            new_state_id = f'{s.state_id}_{state_id}'
             state_id += 1
             new_state = MdpState(new_state_id, o)
             mdp_states.append(new_state)
-- 
2.43.0


From 4694268054f8db95b44dce67fad0bc94df553191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:53 +0000
Subject: [PATCH 51/60] fix: IODelimiterTokenizer reads the initial output like
 the other outputs

---
 aalpy/utils/DataHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/DataHandler.py b/aalpy/utils/DataHandler.py
index 71a94e8..0895505 100644
--- a/aalpy/utils/DataHandler.py
+++ b/aalpy/utils/DataHandler.py
@@ -55,7 +55,7 @@ class IODelimiterTokenizer(DataHandler):
         lines = open(path).read().splitlines()
         for l in lines:
             words = l.split(word_delimiter)
-            seq = [words[0]]
+            seq = [try_int(words[0])]
             for w in words[1:]:
                 i_o = w.split(io_delimiter)
                 if len(i_o) != 2:
-- 
2.43.0


From 2c5292d736bb683a003a6211a58985b1e5c6fc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:52 +0000
Subject: [PATCH 52/60] fix: StatePrefixEqOracle reports a difference seen on
 the access sequence

---
 aalpy/oracles/StatePrefixEqOracle.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/aalpy/oracles/StatePrefixEqOracle.py b/aalpy/oracles/StatePrefixEqOracle.py
index 2bb6d72..82cd75f 100644
--- a/aalpy/oracles/StatePrefixEqOracle.py
+++ b/aalpy/oracles/StatePrefixEqOracle.py
@@ -63,11 +63,15 @@ class StatePrefixEqOracle(Oracle):
                 return None
 
             prefix = state.prefix
-            for p in prefix:
-                hypothesis.step(p)
-                self.sul.step(p)
+            for i, p in enumerate(prefix):
+                out_hyp = hypothesis.step(p)
+                out_sul = self.sul.step(p)
                 self.num_steps += 1
 
+                if out_sul != out_hyp:
+                    self.sul.post()
+                    return prefix[:i + 1]
+
             suffix = ()
             for _ in range(self.steps_per_walk):
                 suffix += (random.choice(self.alphabet),)
-- 
2.43.0


From 6c9550d101bb2c91454b4f4797a304773bca2fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:52 +0000
Subject: [PATCH 53/60] fix: CacheBasedEqOracle reports a difference seen on
 the cached prefix

---
 aalpy/oracles/CacheBasedEqOracle.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/aalpy/oracles/CacheBasedEqOracle.py b/aalpy/oracles/CacheBasedEqOracle.py
index 5d40c47..dcf6a3c 100644
--- a/aalpy/oracles/CacheBasedEqOracle.py
+++ b/aalpy/oracles/CacheBasedEqOracle.py
@@ -50,13 +50,20 @@ class CacheBasedEqOracle(Oracle):
             prefix = choice(paths_to_leaves)
             walk_len = (max_tree_depth + self.depth_increase) - len(prefix)
             inputs = []
-            inputs.extend(prefix)
 
             for p in prefix:
-                hypothesis.step(p)
-                self.sul.step(p)
+                inputs.append(p)
+
+                out_hyp = hypothesis.step(p)
+                out_sul = self.sul.step(p)
                 self.num_steps += 1
 
+                if out_sul != out_hyp:
+                    if self.reset_after_cex:
+                        self.num_walks_done = 0
+                    self.sul.post()
+                    return inputs
+
             for _ in range(walk_len):
                 inputs.append(choice(self.alphabet))
 
-- 
2.43.0


From f9aa6e751de2a0b1ecfc0c90f4600703090c8fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:45 +0000
Subject: [PATCH 54/60] fix: GSM reports traces that start with different
 initial outputs instead of keeping the first

---
 aalpy/learning_algs/general_passive/GsmNode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aalpy/learning_algs/general_passive/GsmNode.py b/aalpy/learning_algs/general_passive/GsmNode.py
index 041bd6a..7f6e2c3 100644
--- a/aalpy/learning_algs/general_passive/GsmNode.py
+++ b/aalpy/learning_algs/general_passive/GsmNode.py
@@ -442,6 +442,8 @@ class GsmNode:
         if data_format == "io_traces" or data_format == "traces":
             if output_behavior == "moore":
                 initial_output = data[0][0]
+                if any(d[0] != initial_output for d in data):
+                    raise ValueError("nondeterminism encountered: traces start with different initial outputs")
                 root_node.prefix_access_pair = (None, initial_output)
                 data = (d[1:] for d in data)
             for trace in data:
-- 
2.43.0


From 6491a9d4fa795bac79f6ddc16089578fa4ff6883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:37 +0000
Subject: [PATCH 55/60] fix: total state matching of Moore machines compares
 the output of the reference state

---
 aalpy/learning_algs/adaptive/StateMatching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/adaptive/StateMatching.py b/aalpy/learning_algs/adaptive/StateMatching.py
index 0841ad3..f9e40e6 100644
--- a/aalpy/learning_algs/adaptive/StateMatching.py
+++ b/aalpy/learning_algs/adaptive/StateMatching.py
@@ -263,7 +263,7 @@ class TotalStateMatching(StateMatching):
 
         # need to test the empty word
         if defined_after_access == (): 
-            if reference_state.is_accepting != current_ob_state.output:
+            if reference_state.output != current_ob_state.output:
                 self.matchings[basis_state][orig_ref] = 0
                 return
 
-- 
2.43.0


From daab2073c42da5734bb963d260d75c5761d50ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:57 +0000
Subject: [PATCH 56/60] fix: stochastic L* counts the queries of its rs
 counterexample processing

---
 aalpy/learning_algs/stochastic/StochasticLStar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic/StochasticLStar.py b/aalpy/learning_algs/stochastic/StochasticLStar.py
index 10d04a8..09c27c3 100644
--- a/aalpy/learning_algs/stochastic/StochasticLStar.py
+++ b/aalpy/learning_algs/stochastic/StochasticLStar.py
@@ -168,7 +168,7 @@ def run_stochastic_Lstar(input_alphabet, sul: SUL, eq_oracle: Oracle, target_una
                     prefixes = observation_table.S + list(observation_table.get_extended_s())
                     suffixes = [stochastic_longest_prefix(cex, prefixes)[-1]]
                 elif cex_processing == 'rs':
-                    suffixes = stochastic_rs(sul, cex, hypothesis)
+                    suffixes = stochastic_rs(stochastic_teacher.sul, cex, hypothesis)
                 for suf in suffixes:
                     if suf not in observation_table.E:
                         observation_table.E.append(suf)
-- 
2.43.0


From fb701791573103e71712f488a03b511ffe684a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:27 +0000
Subject: [PATCH 57/60] fix: method arguments that are falsy are passed on

---
 aalpy/SULs/PyMethodSUL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/SULs/PyMethodSUL.py b/aalpy/SULs/PyMethodSUL.py
index d45d7b4..cc1e42a 100644
--- a/aalpy/SULs/PyMethodSUL.py
+++ b/aalpy/SULs/PyMethodSUL.py
@@ -18,7 +18,7 @@ class FunctionDecorator:
 
         self.function = function
         self.args = None
-        if args:
+        if args is not None:
             self.args = [args] if not isinstance(args, (list, tuple)) else args
 
     def __repr__(self):
-- 
2.43.0


From 7574110061e309d22e8448224e1085b66e281dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:27 +0000
Subject: [PATCH 58/60] fix: attempts to generate a minimal automaton are
 counted

---
 aalpy/utils/AutomatonGenerators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aalpy/utils/AutomatonGenerators.py b/aalpy/utils/AutomatonGenerators.py
index 2d975b6..ffe107c 100644
--- a/aalpy/utils/AutomatonGenerators.py
+++ b/aalpy/utils/AutomatonGenerators.py
@@ -139,6 +139,7 @@ def generate_random_deterministic_automata(automaton_type,
                                                                       output_alphabet_size,
                                                                       False,  # ensure minimality
                                                                       **custom_args)
+            minimality_iterations += 1
 
     return random_automaton
 
-- 
2.43.0


From bbd066c007e4ff0ef92259af8d63182aa2c34a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:27 +0000
Subject: [PATCH 59/60] fix: random stochastic Mealy machines are
 deterministically labelled

---
 aalpy/utils/AutomatonGenerators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aalpy/utils/AutomatonGenerators.py b/aalpy/utils/AutomatonGenerators.py
index ffe107c..1f03fc9 100644
--- a/aalpy/utils/AutomatonGenerators.py
+++ b/aalpy/utils/AutomatonGenerators.py
@@ -353,6 +353,7 @@ def generate_random_smm(num_states, input_size, output_size, possible_probabilit
                     if new_output not in observed_outputs:
                         state_id_state_map[deterministic_state.state_id].transitions[i].append(
                             (new_state, new_output, prob[prob_index]))
+                        observed_outputs.append(new_output)
                         break
 
     return StochasticMealyMachine(smm_states[0], smm_states)
-- 
2.43.0


From e90cfa65ede6a17a4a1fa680e38da9daa8338176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:27 +0000
Subject: [PATCH 60/60] fix: random SEVPAs have a transition for every internal
 letter

---
 aalpy/utils/AutomatonGenerators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/AutomatonGenerators.py b/aalpy/utils/AutomatonGenerators.py
index 1f03fc9..1e13863 100644
--- a/aalpy/utils/AutomatonGenerators.py
+++ b/aalpy/utils/AutomatonGenerators.py
@@ -505,7 +505,7 @@ def generate_random_sevpa(num_states, internal_alphabet_size, call_alphabet_size
 
     for state in states:
         for internal_letter in internal_alphabet:
-            if state.transitions[internal_letter] is None:
+            if not state.transitions[internal_letter]:
                 target_state = random.choice(states)
                 state.transitions[internal_letter].append(
                     SevpaTransition(target_state, internal_letter, None, None))
-- 
2.43.0

