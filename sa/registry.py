from . import answercheck, effects, filecheck, learncheck, modelcheck, optioncheck, oraclecheck, ordercheck, readcheck, recordcheck, setupcheck, sulcheck

P = ('Path analysis of find_cex of every oracle class: helper methods inlined, loops by an invariant over all iterations; a '
     'violation is a concrete path through the code. ')
ORA = ['inputs and outputs are compared as terms: a call that is not followed gives an opaque value',
       'iterables, alphabets and prefixes handed to the oracle are not changed while it iterates over them']

Q = 'Path analysis with helper methods inlined and loops by an invariant; a violation is an exact path. '
SULA = ['pre, post and step of a system under learning do not call back into the learner']

LEARNA = ['objects built by the learner keep the counterexample handed to one of their methods or constructors',
          'the learners are called with default options or with one option changed at a time']

MODELA = ['transition tables are not changed by the calls a step makes']

CHECKS = {'C23': readcheck.c23, 'C24': readcheck.c24, 'C15': setupcheck.c15_check, 'C16': filecheck.c16_check, 'C19': optioncheck.c19, 'C11': ordercheck.c11, 'C03': effects.c03, 'C09': effects.c09, 'C10': effects.c10, 'C12': effects.c12, 'C17': effects.c17, 'C18': effects.c18,
          'C01': oraclecheck.check('C01', P + 'C01: at every return of a counterexample the returned term equals the term of '
                                   'the inputs applied since the last reset (with the outputs, where they are part of it), '
                                   'and the path condition contains the difference of the outputs of the last input.', ORA),
          'C02': oraclecheck.check('C02', P + 'C02: typestate of the session (closed, open) at every reset, input and '
                                   'return, and equality of the input terms of system and hypothesis at every input.', ORA),
          'C04': oraclecheck.check('C04', P + 'C04: on every return the change of num_steps and num_queries equals the '
                                   'number of inputs applied and of resets, as linear terms.', ORA),
          'C25': oraclecheck.check('C25', P + 'C25: whenever another input is applied, the system is reset or the search ends '
                                   'without a counterexample, the path condition contains that the outputs of system and '
                                   'hypothesis for the last input were equal (or that the output was possible).', ORA),
          'C26': recordcheck.check('C26', Q + 'C26: in every function of the learners that queries the system, the answer to a '
                                   'word w is the term out(w, 0) .. out(w, |w|-1); wherever part of an answer is handed on with '
                                   'a word, put into a table row, used as output of a state or transition or as branch of a '
                                   'classification tree, the word of the term equals the word it is filed under.',
                                   ['a system answers a non-empty word with one output per input',
                                    'the methods of the learner called in between do not change the lists handed over'],
                                   main=(answercheck.analyse,)),
          'C05': recordcheck.check('C05', Q + 'C05: typestate of the session in query and adaptive_query of every system class; '
                                   'equality of the applied inputs with the word, of the returned outputs with the observed '
                                   'ones, and of the growth of the counters with one and the number of inputs.', SULA,
                                   (sulcheck.analyse,)),
          'C06': recordcheck.check('C06', Q + 'C06: in every class that forwards to a wrapped system, counts of inner calls, '
                                   'equality of forwarded inputs, returned outputs and recorded pairs, restart of the trace at '
                                   'a reset, and the two ways of answering a query; in the trace stores, the new position '
                                   'is the successor of the old one for the recorded pair; a learner that wraps the system has '
                                   'given the wrapper to its equivalence oracle at every equivalence query.', SULA,
                                   (sulcheck.analyse, learncheck.analyse)),
          'C07': recordcheck.check('C07', Q + 'C07: on every path of a storing function that returns normally the new output '
                                   'was found equal to the stored one, or was stored where nothing was stored; state merging of a deterministic '
                                   'machine begins only after the traces were found free of contradictions.', SULA),
          'C08': recordcheck.check('C08', Q + 'C08: in the loop of every learner, whenever the oracle is asked again the '
                                   'counterexample reported before was handed to the table or tree of the learner, and every '
                                   'return carries the hypothesis for which the oracle reported none, or lies behind a limit.',
                                   LEARNA, (), (learncheck.analyse,)),
          'C20': recordcheck.check('C20', Q + 'C20: each entry of the returned information equals the counter of the object it '
                                   'names, read after the last question to the oracle, and the rounds equal the number of '
                                   'hypotheses.', LEARNA, (), (learncheck.analyse,)),
          'C13': recordcheck.check('C13', 'Path analysis of the output queries: on every return the current position equals the '
                                   'one at entry.', MODELA, (), (modelcheck.analyse,), effects.c13),
          'C14': recordcheck.check('C14', 'Path analysis of reset and of a step without input: after reset the position is the '
                                   'initial state and every field the step changes has its start value; without an input no '
                                   'field changes.', MODELA, (), (modelcheck.analyse,), effects.c14),
          'C21': recordcheck.check('C21', Q + 'C21: in step and step_to of every automaton class the new position and the '
                                   'returned output are parts of the same transition of the old position for the given input, '
                                   'the stack grows or shrinks as its action says, pops are guarded by the top of the stack, '
                                   'pushdown acceptance looks at the stack, and a probe returns the current output.', MODELA, (), (modelcheck.analyse,)),
          'C22': recordcheck.check('C22', Q + 'C22: pre of every system class assigns or restarts every field its step changes '
                                   'or uses, independently of earlier steps, and a step without an input leaves them equal.',
                                   SULA, (), (modelcheck.analyse,))}
