"""Writes /verif/properties.jsonl (kept as a program so that the text is easy to edit and always valid JSON)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}})


O = "aalpy/oracles/"
L = "aalpy/learning_algs/"
ORACLES = [O + f for f in ("BreadthFirstExplorationEqOracle.py", "CacheBasedEqOracle.py", "PacOracle.py",
                           "ProvidedSequencesOracleWrapper.py", "RandomWalkEqOracle.py", "RandomWordEqOracle.py",
                           "StatePrefixEqOracle.py", "TransitionFocusOracle.py", "WMethodEqOracle.py",
                           "WpMethodEqOracle.py", "kWayStateCoverageEqOracle.py", "kWayTransitionCoverageEqOracle.py")]
LEARNERS = [L + f for f in ("deterministic/LStar.py", "deterministic/KV.py", "deterministic/LSharp.py",
                            "adaptive/AdaptiveLSharp.py", "non_deterministic/OnfsmLstar.py",
                            "non_deterministic/AbstractedOnfsmLstar.py", "stochastic/StochasticLStar.py",
                            "deterministic_passive/RPNI.py", "deterministic_passive/active_RPNI.py",
                            "general_passive/GeneralizedStateMerging.py", "general_passive/GsmAlgorithms.py",
                            "stochastic_passive/Alergia.py", "stochastic_passive/ActiveAleriga.py")]
AUT = ["aalpy/automata/" + f for f in ("Dfa.py", "MealyMachine.py", "MooreMachine.py", "Mdp.py", "MarkovChain.py",
                                       "StochasticMealyMachine.py", "Onfsm.py", "NonDeterministicMooreMachine.py",
                                       "Sevpa.py", "Vpa.py")]

prop("C01", "A returned counterexample is the executed input sequence showing a difference",
     "When an equivalence oracle that tests the system step by step returns a counterexample, the returned inputs are "
     "exactly the inputs it has applied to the system since that system was last reset, in that order and nothing else "
     "(for non-deterministic and stochastic hypotheses, together with exactly the outputs the system produced for them). "
     "It is returned only after the last of those inputs made the output of the system differ from the output of the "
     "hypothesis, or, for non-deterministic and stochastic hypotheses, was not possible in the hypothesis.",
     ("inputs", "histories"), "every hypothesis, system, alphabet, oracle configuration and random choice, on every path of the search",
     "tests run each oracle on a handful of small models where any long enough sequence is a counterexample; a wrong "
     "slice, a stale list or a missing comparison shows only for particular models and rounds",
     ORACLES, [("find_cex of every oracle: step the system and the hypothesis, compare, return the executed prefix", "aalpy/oracles/*.py find_cex / check_path")],
     ["return value of find_cex"])
prop("C02", "Oracle tests run both sides from a reset, in lockstep, and close the session",
     "Every input an equivalence oracle applies to the system is applied in a session it opened itself by resetting the "
     "system (after closing the previous session) and putting the hypothesis into its initial state, with no input "
     "left over from an earlier test. "
     "Within a session the hypothesis is given the same inputs in the same order as the system, and the session is "
     "closed before a counterexample is returned.",
     ("inputs", "histories"), "every oracle, hypothesis, system and sequence of tests and learning rounds",
     "a missing reset or a skipped step on one side only changes the result when the previous test left the two sides in "
     "different places; tests use models where that rarely matters and a system without session state",
     ORACLES + ["aalpy/base/Oracle.py"], [("reset of hypothesis and system", "aalpy/base/Oracle.py reset_hyp_and_sul"),
                                          ("paired step calls", "aalpy/oracles/*.py")], ["calls received by the system (pre, post, step) and by the hypothesis"])
prop("C03", "Searching for a counterexample leaves the hypothesis unchanged",
     "An equivalence oracle never changes the model it is given: its list of states (including the order), its initial "
     "state, its states' identifiers, transitions, outputs and acceptance are the same after the search as before. "
     "Only the current position, the access sequences of the states and the characterization set may be filled in.",
     ("inputs", "configurations"), "every bundled oracle, hypothesis type and configuration",
     "tests only look at the finally learned size or language; a reordered or altered intermediate hypothesis is not observed",
     ORACLES + [O + "PerfectKnowledgeEqOracle.py", "aalpy/utils/ModelChecking.py"], [("oracles only read the hypothesis", "aalpy/oracles/*.py")],
     ["fields of the hypothesis after find_cex"])
prop("C04", "Oracle statistics count every test and every step exactly once",
     "During a search for a counterexample the step count of an equivalence oracle grows by exactly one for each input it "
     "applies to the system and its query count by exactly one for each reset of the system, up to the moment of return on every exit. "
     "Neither count ever decreases or is restarted by a search.",
     ("inputs", "histories"), "every oracle, every path through a search, every number of rounds",
     "tests never compare reported statistics with the number of calls the system received",
     ORACLES + ["aalpy/base/Oracle.py"], [("num_steps / num_queries increments", "aalpy/oracles/*.py, aalpy/base/Oracle.py")],
     ["num_steps and num_queries of the oracle"])
prop("C05", "A membership query is one clean session of exactly the given word",
     "A membership query (plain or adaptive) on a system resets it once before the first input, applies exactly the inputs of the query in order, one step each "
     "(the empty word probes the initial output once), closes the session once afterwards and returns the outputs of those steps in order; where inputs stand for method calls, a step calls the method with exactly the arguments given for it. An adaptive query chooses each input by the last output received. "
     "The query count then grows by one and the step count by the number of inputs applied.",
     ("inputs", "programs"), "every word, every user-defined system",
     "tests use in-memory automata whose reset is idempotent and never compare the order or number of the calls",
     ["aalpy/base/SUL.py"], [("query, adaptive_query", "aalpy/base/SUL.py")], ["calls received by the system", "num_queries, num_steps", "returned outputs"])
prop("C06", "Wrapped systems see each interaction once and every observation is recorded",
     "The caching and trace-recording wrappers forward reset, close and step to the wrapped system exactly once each with the same input, return the output of the wrapped system unchanged, "
     "and record every input/output pair at the position in the trace at which it was observed, restarting the position at every reset. "
     "A query answered from the cache does not touch the wrapped system and is counted as cached only (the empty word is answered with the initial output or asked, never with an empty answer); a query not in the cache is counted as performed. A learner that wraps the system has its equivalence oracle test the wrapped system, so that tests are recorded too.",
     ("inputs", "histories"), "every sequence of queries and steps, cached or not",
     "a lost or misplaced record changes answers only for words queried later in a particular order; tests only observe the learned model",
     ["aalpy/base/SUL.py", "aalpy/base/CacheTree.py", L + "non_deterministic/NonDeterministicSULWrapper.py", L + "non_deterministic/TraceTree.py", "aalpy/utils/ModelChecking.py"],
     [("CacheSUL", "aalpy/base/SUL.py"), ("NonDeterministicSULWrapper", L + "non_deterministic/NonDeterministicSULWrapper.py"), ("TestCaseWrapperSUL", "aalpy/utils/ModelChecking.py")],
     ["calls received by the wrapped system", "content of the cache"])
prop("C07", "Contradicting observations are always reported, never overwritten",
     "Whenever the query cache or an observation tree that assumes determinism is given an output for an input sequence for which it already holds a different output, it raises an error. "
     "A stored output is never replaced by a different one and never silently kept in place of a different one. State merging for deterministic machines refuses traces that contradict each other, in the first output too (RPNI reports contradicting data and returns no model).",
     ("inputs", "histories"), "every order of observations, every pair of conflicting outputs, all deterministic model types",
     "tests only use deterministic systems, so the conflicting branch is never executed",
     ["aalpy/base/CacheTree.py", L + "deterministic/ObservationTree.py", L + "deterministic_passive/rpni_helper_functions.py", L + "general_passive/GsmNode.py"],
     [("step_in_cache, add_to_cache", "aalpy/base/CacheTree.py"), ("extend_and_get / insert_observation", L + "deterministic/ObservationTree.py")],
     ["exception on the conflicting observation"])
prop("C08", "Active learners stop only on an accepted hypothesis or a configured limit",
     "An active learning algorithm returns the hypothesis for which the equivalence oracle reported no counterexample, unless a limit configured by the caller (rounds, error bound, property-based or other stopping criterion) ends learning first; a limit of n learning rounds ends it after exactly n rounds. "
     "A counterexample reported by the oracle is never dropped: it is handed to the table or tree of the learner before the oracle is asked again.",
     ("inputs", "histories", "configurations"), "every system, oracle behaviour, sequence of counterexamples and option combination",
     "tests use oracles that end learning normally on models where one round more or less gives the same model",
     LEARNERS[:7], [("main loop: hypothesis, find_cex, break on None, process", "run_* functions")], ["returned model and the oracle calls made"])
prop("C09", "Silent configuration prints nothing",
     "With the documented silent setting (print level 0, or the printing flag off) a learning algorithm, its equivalence oracle and every component they use write nothing to standard output or error, "
     "whatever the system, data and other options are. "
     "Warnings documented as such, interactive oracles and explicit visualisation or print functions called by the user are outside this promise, and so are diagnostics about data that cannot be used at all (contradicting samples, nothing to compare with).",
     ("inputs", "configurations"), "every learner, every option combination, every system and data set",
     "tests never capture the output, and many messages sit on rarely taken branches",
     LEARNERS, [("print guards", "run_* functions and the tables/trees they use")], ["stdout, stderr"])
prop("C10", "Learning never modifies the caller's alphabet, data, samples or models",
     "No learning algorithm and no oracle construction changes a list, set, dictionary or model passed in by the caller (alphabet, passive data, samples, reference models, abstraction mapping, option dictionaries): after the call they have the same elements in the same order as before. "
     "Only the system under learning and the oracle, which are stateful services, may change.",
     ("inputs", "configurations"), "every public learning entry point, every data set, every option combination",
     "tests pass fresh literals and never look at them again",
     LEARNERS, [("copies taken before sorting/extending", "run_* and the tables/PTA constructions they call")], ["arguments after the call"])
prop("C11", "A fixed random seed reproduces the run",
     "For the same program, data and seed of the standard random generator, learning, equivalence testing and model generation make the same queries in the same order and give the same result in every process: nothing they compute depends on "
     "string or object hashing, on the iteration order of sets, on memory addresses, on the clock, or on another source of randomness. "
     "The library itself never reseeds or replaces the global random state. Reported times are exempt.",
     ("inputs", "configurations", "schedules"), "every interpreter hash seed and memory layout, every system and data set",
     "the test suite pins the hash seed and runs one process; order effects need another hash seed to show",
     ["aalpy/base/Automaton.py"] + ORACLES + LEARNERS + ["aalpy/utils/AutomatonGenerators.py", "aalpy/utils/Sampling.py"],
     [("only the random module and ordered containers feed decisions", "whole package"), ("README: 'define a random seed ... all experiments will be reproducible'", "README.md")],
     ["sequence of calls received by the system", "returned models"])
prop("C12", "Runs and models are independent of each other",
     "No two learning runs, models, oracles, systems or caches created separately share mutable state: creating or using one never changes the behaviour of another, "
     "and the result of a run does not depend on what ran earlier in the same process (apart from the state of the random generator and objects the caller shares on purpose).",
     ("histories",), "every sequence of uses of the library in one process",
     "each test starts from fresh objects and checks only the last result; leakage through defaults, class attributes or module globals needs a second run to show",
     ["aalpy/automata/Vpa.py", "aalpy/base/Automaton.py", L + "deterministic/ObservationTree.py", L + "deterministic/ClassificationTree.py", L + "stochastic/StochasticLStar.py"],
     [("no mutable default arguments, class attributes or module globals are written", "whole package")], ["behaviour of a second instance/run"])
prop("C13", "Inspecting an automaton does not change it",
     "Asking an automaton for information (alphabet, completeness, minimality, reachability, shortest paths, distinguishing sequences, characterization set, output sequences, simulation of a sequence from a state, comparison, string and file representation) never changes its states, "
     "their order, transitions, outputs or initial state, nor the arguments passed to the query. "
     "Output queries that promise it leave the current position where it was.",
     ("inputs", "histories"), "every automaton type, every query, every order of queries",
     "tests check the answer of a query, not that the automaton is the same afterwards",
     ["aalpy/base/Automaton.py"] + AUT, [("query methods only read", "aalpy/base/Automaton.py, aalpy/automata/*.py")], ["automaton fields before and after"])
prop("C14", "Executing inputs only moves the current position",
     "Stepping or resetting an automaton changes nothing but its current state (and, for pushdown automata, its stack): states, transitions, outputs and initial state stay as they are, even for an input that is not defined in the current state. "
     "Reset returns exactly to the initial state with an empty stack and no error flag left, and asking for the current output without an input (input None, where the type allows it) changes nothing at all.",
     ("inputs", "histories"), "every automaton type, every input sequence including undefined inputs",
     "tests step complete automata and never compare the structure afterwards",
     AUT + ["aalpy/base/Automaton.py"], [("step, step_to, reset_to_initial", "aalpy/automata/*.py")], ["automaton fields before and after"])
prop("C15", "State-setup export and import agree for every automaton type",
     "For every automaton type, exporting a model to its dictionary form records the identity, output or acceptance, and all transitions of every state with the initial state first, and importing that form reads back every recorded field in the same position. "
     "Copying and pickling, which are built on it, therefore work for every automaton type and never return a model sharing states with the original.",
     ("inputs", "programs"), "every automaton of every supported type",
     "tests copy only complete DFAs/Mealy/Moore machines; other types and fields are not exercised",
     AUT + ["aalpy/base/Automaton.py"], [("to_state_setup / from_state_setup / copy / __reduce__", "aalpy/automata/*.py, aalpy/base/Automaton.py")], ["copied model"])
prop("C16", "A saved automaton is loaded back unchanged",
     "For every automaton type, saving a model as a dot file and loading the file as that type gives the same automaton: every state with its output or acceptance, every transition with its input, output, probability, stack action and stack symbol, and the initial state, "
     "whether or not same-state transitions are to be displayed (state identifiers being words, other symbols words or non-negative integers). "
     "Loading with compute_prefixes gives every state of a DFA, Mealy or Moore machine its shortest access sequence and works for every other type too.",
     ("inputs", "programs"), "every supported automaton type, every kind of state and transition",
     "tests compare alphabets and characterization sets of a few models; probabilities, outputs, acceptance and stack actions are not compared",
     ["aalpy/utils/FileHandler.py"], [("_get_node/_add_transition_to_graph vs _process_node_label_prime/_process_label", "aalpy/utils/FileHandler.py")], ["loaded model"])
prop("C17", "Learning has no side effects on files, processes, network or interpreter",
     "Learning algorithms, equivalence oracles, automata and systems under learning never read or write files, start processes or threads, open network connections, execute text as code, terminate the interpreter (other than by an error report about unusable data or arguments) or change process-wide settings (random seed, recursion limit, warnings, environment, working directory). "
     "Only the functions documented for that purpose do (saving, loading, visualisation, tokenizing a file, external JAlergia and PRISM), and loading a model never executes its content.",
     ("inputs", "configurations"), "every entry point and option combination",
     "a side effect on a rare branch is invisible to tests that check the learned model",
     ["aalpy/utils/FileHandler.py", "aalpy/utils/ModelChecking.py", "aalpy/utils/DataHandler.py", L + "stochastic_passive/Alergia.py"] + LEARNERS[:7],
     [("only a fixed set of functions reach the os/file/process APIs", "whole package")], ["system calls, files"])
prop("C18", "Errors raised by the system under learning reach the caller",
     "An exception raised by the system under learning, by a caller-supplied function (scoring, compatibility, sampling, custom oracle) or by conflicting data is never swallowed, replaced by a normal result or turned into an output: it reaches the caller of the learning algorithm.",
     ("inputs", "fault_sequences"), "every exception at every interaction with user code",
     "tests never use a failing system",
     ["aalpy/base/SUL.py", "aalpy/base/Oracle.py"] + LEARNERS[:7], [("no handler surrounds user code", "whole package")], ["exception at the caller"])
prop("C19", "Every documented option value is accepted, handled and distinguished",
     "For each option with an enumerated set of values, every documented value is accepted and selects its own documented behaviour, an undocumented value is rejected with an error instead of being treated as some other value, and no accepted option is silently ignored or overridden.",
     ("configurations", "inputs"), "every option of every public learner and oracle, every value",
     "tests run a subset of values and check only that a correct model results, which holds whatever the option does",
     LEARNERS + ORACLES, [("asserts and dispatch on option values", "run_* functions, CounterExampleProcessing.py, oracles")], ["behaviour per option value"])
prop("C20", "Reported run statistics describe the run",
     "The statistics returned by an active learner contain the documented entries, and each is taken from its source: query and step counts of learning from the system's counters, those of equivalence testing from the oracle's counters, cache savings from the cache, size from the returned model, rounds from the number of hypotheses (those sent to the oracle, or those built by the main loop). The learner asks its questions to the system whose counters it reports. "
     "Requesting the statistics does not change the model returned.",
     ("inputs", "configurations", "histories"), "every active learner, every run",
     "tests discard the statistics",
     LEARNERS[:7], [("info dictionary", "run_* functions")], ["returned info"])

prop("C21", "A step takes one transition of the model and returns its output",
     "A step of an automaton moves along one transition of the current state for the given input, to that transition's target, and returns the output of that same transition (of the state reached, where outputs belong to states); for pushdown automata the stack grows by the pushed symbol or shrinks by one exactly as the transition's action says, a popping transition is taken only if its symbol is on top of the stack, and the output says whether the word is accepted in an accepting state with an empty stack. Asked without an input, an automaton whose outputs belong to states returns the output of the current one. "
     "Stepping to a given output moves along a transition of the given input that has exactly that output and returns it, or, if there is none, returns None and stays.",
     ("inputs", "histories"), "every automaton type, every state, every input and output",
     "tests step small models whose transitions are mostly unambiguous and compare a few outputs",
     AUT, [("step and step_to", "aalpy/automata/*.py")], ["returned output and current position"])
prop("C22", "Bundled systems start afresh at reset and a probe changes nothing",
     "In every system under learning that comes with the library, a reset puts everything its steps change or depend on back to the start, whatever happened before, so that the answer to a query never depends on earlier queries. "
     "A step without an input (the probe for the output of the empty word) leaves the system where it is.",
     ("inputs", "histories"), "every bundled system class, every order of queries",
     "tests start with fresh systems and rarely query the empty word in between",
     ["aalpy/SULs/AutomataSUL.py", "aalpy/SULs/PyMethodSUL.py", "aalpy/SULs/RegexSUL.py", "aalpy/SULs/TomitaSUL.py", "aalpy/base/SUL.py"],
     [("pre and step of each class", "aalpy/SULs/*.py")], ["outputs of queries"])
prop("C23", "Converting between model classes keeps every state and transition",
     "An automaton converted from another model or read off a merged prefix tree (state merging, RPNI, Alergia, Moore machine to DFA, MDP to Markov chain) has exactly one state for each state of the source with the same output or acceptance, the image of the initial state as initial state, and exactly one transition for each transition of the source: same input, same output, and leading to the image of its target. "
     "In stochastic results its probability is that of the source, or its count divided by the sum of the counts for the same state and input (the same state, for Markov chains).",
     ("inputs",), "every source structure, all outputs, inputs and counts",
     "tests learn from a few data sets and compare sizes or single behaviours",
     ["aalpy/learning_algs/general_passive/GsmNode.py", "aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py", "aalpy/learning_algs/stochastic_passive/Alergia.py", "aalpy/utils/HelperFunctions.py"],
     [("GsmNode.to_automaton, RPNI to_automaton, Alergia.normalize/to_automaton, dfa_from_moore, mc_from_mdp", "aalpy/learning_algs, aalpy/utils/HelperFunctions.py")], ["states and transitions of the result"])
prop("C24", "A hypothesis is exactly what the table or tree says",
     "A hypothesis built from a closed and consistent observation table, classification tree or observation tree has one state for each representative with the output or acceptance recorded for it, the state of the empty word as initial state, and for every representative and input the transitions the structure gives: to the state whose row, leaf or basis node is that of the representative extended by the input (and output), with the output recorded for that extension. "
     "In stochastic hypotheses the probability is the recorded frequency of the output divided by the sum of the frequencies for the same cell; a cell without sufficient data has a single transition to the chaos state instead.",
     ("inputs", "histories"), "every closed and consistent content of the structures, every alphabet",
     "tests check only the final learned model of small systems",
     ["aalpy/learning_algs/deterministic/ObservationTable.py", "aalpy/learning_algs/deterministic/ObservationTree.py", "aalpy/learning_algs/deterministic/ClassificationTree.py", "aalpy/learning_algs/stochastic/SamplingBasedObservationTable.py", "aalpy/learning_algs/non_deterministic/OnfsmObservationTable.py"],
     [("gen_hypothesis, construct_hypothesis, update_hypothesis, generate_hypothesis", "aalpy/learning_algs")], ["states and transitions of the hypothesis"])

prop("C25", "A difference seen in a test is always reported",
     "During a search for a counterexample an equivalence oracle that tests the system step by step compares, for every input it applies, the output of the system with that of the hypothesis (for non-deterministic and stochastic hypotheses: asks whether the output was possible). Whenever they differ, on an access sequence, a replayed prefix or a random part alike, the search ends and returns a counterexample: the oracle neither goes on nor reports that there is none. Interactive oracles, where the user judges, are outside this promise.",
     ("inputs", "histories"), "every system, hypothesis, test and position in a test",
     "tests check that learning ends with a model of the right size, which a later test can still repair",
     [O + "StatePrefixEqOracle.py", O + "CacheBasedEqOracle.py", O + "RandomWalkEqOracle.py", O + "WMethodEqOracle.py"],
     [("find_cex of every oracle", "aalpy/oracles")], ["comparison of the outputs after each step"])

prop("C26", "Answers are filed under the word they were asked for",
     "Everything an active learner records from a membership query is recorded for the word that was asked: in observation tables the cell of a prefix and a suffix holds the last output (or, where prefixes are kept, the outputs of the suffix) of the answer to the prefix followed by the suffix; in classification trees a leaf hangs on the branch of its parent that is the last output for the leaf's access string and the parent's distinguishing string, and a state or transition carries the last output for its access string, extended by its input for transitions; in observation trees the answer is inserted along exactly the inputs asked, the adaptive answer along the inputs it was given for, and the initial output is the answer to the empty word; active passive-learning samplers pair each input of a walk with the output it produced.",
     ("inputs", "histories"), "every system, table, tree and counterexample",
     "a misfiled answer usually changes one entry for words of a particular shape; learning repairs or hides it for the few systems tests learn",
     ["aalpy/learning_algs/deterministic/ObservationTable.py", "aalpy/learning_algs/deterministic/ObservationTree.py", "aalpy/learning_algs/deterministic/ClassificationTree.py", "aalpy/learning_algs/adaptive/AdaptiveObservationTree.py"],
     [("update_obs_table, _insert_new_leaf, _sift, explore_frontier, insert_observation", "aalpy/learning_algs")], ["arguments of the queries", "table cells, tree positions, outputs of hypothesis states"])

# ---- properties static analysis does not decide (listed under not_applicable) ----
prop("N01", "The learned model is equivalent to the system when the oracle is exact",
     "With an equivalence oracle that finds a counterexample whenever one exists, every deterministic active learner terminates with a model that has the same behaviour as the system.",
     ("inputs", "programs"), "every deterministic system with finitely many states", "tests learn a few fixed models",
     LEARNERS[:4], [("table/tree refinement", "aalpy/learning_algs/deterministic")])
prop("N02", "Deterministic active learners return minimal models",
     "The number of states of a model learned by an exact deterministic active learner equals the number of behavioural equivalence classes of the system.",
     ("inputs",), "every system", "tests compare the size on a few models", LEARNERS[:4], [("rows/leaves are pairwise distinguished", "ObservationTable, ClassificationTree, ObservationTree")])
prop("N03", "The W-method and Wp-method find every difference within their state bound",
     "If the system has at most the configured number of states and differs from the hypothesis, the W-method and Wp-method oracles return a counterexample.",
     ("inputs",), "every pair of hypothesis and system within the bound", "tests use a few small systems", [O + "WMethodEqOracle.py", O + "WpMethodEqOracle.py"], [("test suite generation", O + "WMethodEqOracle.py")])
prop("N04", "Passively learned models are consistent with the data",
     "A model returned by a passive deterministic learner reproduces the output or label of every training sequence.",
     ("inputs",), "every conflict-free data set", "tests use a few generated data sets", [L + "deterministic_passive/RPNI.py", L + "general_passive/GeneralizedStateMerging.py"], [("merge and fold", "RPNI, GSM")])
prop("N05", "Minimisation and bisimulation checking are exact",
     "Minimising preserves behaviour and gives the smallest model, and the bisimulation check answers yes exactly for behaviourally equal models and otherwise returns a distinguishing sequence.",
     ("inputs",), "all deterministic automata", "tests use a few automata", ["aalpy/base/Automaton.py", "aalpy/utils/ModelChecking.py"], [("partition refinement, product search", "Automaton.minimize, bisimilar")])
prop("N06", "Learned stochastic models converge to the true distributions",
     "As samples grow, stochastic learning converges to the system's structure and probabilities, and every distribution in a learned model sums to one.",
     ("inputs",), "every stochastic system", "statistical", [L + "stochastic/StochasticLStar.py", L + "stochastic_passive/Alergia.py"], [("sampling and normalisation", "stochastic, stochastic_passive")])
prop("N07", "The PAC oracle meets its confidence bound",
     "With probability at least one minus delta a hypothesis accepted by the PAC oracle disagrees with the system on at most an epsilon fraction of the sampled words.",
     ("inputs",), "every system and distribution", "statistical", [O + "PacOracle.py"], [("number of tests", O + "PacOracle.py")])
prop("N08", "Learners and searches terminate",
     "Every learner and oracle terminates for every finite-state system and finite configuration.",
     ("inputs", "histories"), "all runs", "tests show termination of a few runs", LEARNERS, [("each counterexample adds a state", "learners")])
prop("N09", "Random generators return models of the requested kind",
     "The random generators return models with the requested number of states, letters and outputs that are input-complete, deterministically labelled and, where requested, minimal with all states reachable.",
     ("inputs",), "every size and seed", "tests generate a few models as inputs for learning", ["aalpy/utils/AutomatonGenerators.py"], [("generate_random_*", "aalpy/utils/AutomatonGenerators.py")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
