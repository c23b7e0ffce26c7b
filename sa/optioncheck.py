"""C19: every documented value of an option is accepted, handled and told apart; anything else is rejected; no option is ignored.

For each option and each value one abstract run of the whole library with that constant: the value is accepted if the call can
return, rejected if no path returns.  Two values are told apart if the expressions evaluated, or the constants and functions
that reach them, differ."""
import ast
import gc
import hashlib
import itertools
import multiprocessing
import os
import traceback

from . import drivers
from .absint import Interp, Obj, Func, EMPTY
from .core import Result
from .program import AnalysisBroken, Program, construct_key, fq

HEAD = drivers.LEARNERS_COMMON + '''
from aalpy.oracles import *
from aalpy.SULs import *
from aalpy.utils import *
from aalpy.utils.Sampling import *
from aalpy.utils.HelperFunctions import *
from aalpy.base.SUL import CacheSUL
from aalpy.learning_algs.deterministic_passive.active_RPNI import RandomWordSampler as RpniSampler
from aalpy.learning_algs.stochastic_passive.ActiveAleriga import RandomWordSampler as AlergiaSampler
from aalpy.learning_algs.general_passive.ScoreFunctionsGSM import ScoreCalculation
from aalpy.learning_algs.stochastic.DifferenceChecker import HoeffdingChecker, AdvancedHoeffdingChecker, ChiSquareChecker
sul = UserSUL()
eq = UserOracle(alphabet, sul)
hyp = mk_mealy()
words = [[user(), user()], [user()]]
labeled = [((user(), user()), user()), ((user(),), user())]
bools = [((user(), user()), some_bool()), ((user(),), some_bool())]
io = [[(user(), user())]]
traces = [[user(), (user(), user())], [user(), (user(), user())]]
seqs = [[user(), user()], [user()]]


def user_fn(*args):
    return user()


def ask(o, h=hyp):
    return o.find_cex(h)


'''
DET = ['dfa', 'mealy', 'moore']
CEX = ['rs', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd']
PL = [0, 1, 2, 3]
COMP = [None, 'self_loop', 'sink_state']
B = [False, True]
# function, call with {option} for the option under test, {option: documented values}, options whose result is of the class named
# an option written 'name!' is enumerated: other values must be rejected; without '!' it is a switch
TABLE = [
    ('run_Lstar', 'run_Lstar(alphabet, sul, eq, {automaton_type}, closing_strategy={closing_strategy}, cex_processing={cex_processing}, '
     'e_set_suffix_closed={e_set_suffix_closed}, all_prefixes_in_obs_table={all_prefixes_in_obs_table}, '
     'cache_and_non_det_check={cache_and_non_det_check}, return_data={return_data}, print_level={print_level})',
     {'automaton_type!': DET, 'closing_strategy!': ['shortest_first', 'longest_first', 'single'], 'cex_processing!': CEX + [None, 'longest_prefix'],
      'e_set_suffix_closed': B, 'all_prefixes_in_obs_table': B, 'cache_and_non_det_check': B, 'return_data': B, 'print_level!': PL}),
    ('run_KV', 'run_KV(alphabet, sul, eq, {automaton_type}, cex_processing={cex_processing}, '
     'cache_and_non_det_check={cache_and_non_det_check}, return_data={return_data}, print_level={print_level})',
     {'automaton_type!': DET, 'cex_processing!': CEX, 'cache_and_non_det_check': B, 'return_data': B, 'print_level!': PL}),
    ('run_KV', 'run_KV(SevpaAlphabet([user()], [user()], [user()]), sul, eq, {automaton_type}, cex_processing={cex_processing})',
     {'automaton_type': ['vpa'], 'cex_processing!': CEX}),
    ('run_Lsharp', 'run_Lsharp(alphabet, sul, eq, {automaton_type}, extension_rule={extension_rule}, separation_rule={separation_rule}, '
     'cache_and_non_det_check={cache_and_non_det_check}, return_data={return_data}, print_level={print_level})',
     {'automaton_type!': DET, 'extension_rule!': [None, 'SepSeq', 'ADS'], 'separation_rule!': ['SepSeq', 'ADS'],
      'cache_and_non_det_check': B, 'return_data': B, 'print_level!': PL}),
    ('run_adaptive_Lsharp', 'run_adaptive_Lsharp(alphabet, sul, [{refs}], eq, {automaton_type}, extension_rule={extension_rule}, '
     'separation_rule={separation_rule}, rebuilding={rebuilding}, state_matching={state_matching}, '
     'cache_and_non_det_check={cache_and_non_det_check}, return_data={return_data}, print_level={print_level})',
     {'automaton_type!': DET, 'extension_rule!': [None, 'SepSeq', 'ADS'], 'separation_rule!': ['SepSeq', 'ADS'], 'rebuilding': B,
      'state_matching!': [None, 'Total', 'Approximate'], 'cache_and_non_det_check': B, 'return_data': B, 'print_level!': PL,
      'refs': None}),
    ('run_non_det_Lstar', 'run_non_det_Lstar(alphabet, sul, eq, stochastic={stochastic}, return_data={return_data}, '
     'print_level={print_level})', {'stochastic': B, 'return_data': B, 'print_level!': PL}),
    ('run_abstracted_ONFSM_Lstar', 'run_abstracted_ONFSM_Lstar(alphabet, sul, eq, dict([(user(), user())]), return_data={return_data}, '
     'print_level={print_level})', {'return_data': B, 'print_level!': PL}),
    ('run_stochastic_Lstar', 'run_stochastic_Lstar(alphabet, sul, RandomWalkEqOracle(alphabet, sul), automaton_type={automaton_type}, '
     'strategy={strategy}, cex_processing={cex_processing}, samples_cex_strategy={samples_cex_strategy}, '
     'stopping_range_dict={stopping_range_dict}, custom_oracle={custom_oracle}, return_data={return_data}, print_level={print_level})',
     {'automaton_type!': ['mdp', 'smm'], 'strategy!': ['classic', 'normal', 'chi2'], 'cex_processing!': [None, 'longest_prefix', 'rs'],
      'samples_cex_strategy!': [None, 'bfs', 'random:200:0.2'], 'stopping_range_dict!': ['strict', 'relaxed'], 'return_data': B,
      'custom_oracle': None, 'print_level!': PL}),
    ('run_stochastic_Lstar', 'run_stochastic_Lstar(alphabet, sul, UserOracle(alphabet, sul), custom_oracle={custom_oracle})',
     {'custom_oracle': B}),
    ('run_RPNI', 'run_RPNI({data}, {automaton_type}, algorithm={algorithm}, input_completeness={input_completeness}, print_info={print_info})',
     {'automaton_type!': DET, 'algorithm!': ['gsm', 'classic'], 'input_completeness!': COMP, 'print_info': B, 'data': None}),
    ('run_EDSM', 'run_EDSM({data}, {automaton_type}, input_completeness={input_completeness}, print_info={print_info})',
     {'automaton_type!': DET, 'input_completeness!': COMP, 'print_info': B, 'data': None}),
    ('run_k_tails', 'run_k_tails({data}, {automaton_type}, some_int(), input_completeness={input_completeness}, print_info={print_info})',
     {'automaton_type!': ['mealy', 'moore'], 'input_completeness!': COMP, 'print_info': B, 'data': None}),
    ('run_PAPNI', "run_PAPNI(bools, VpaAlphabet([user()], [user()], [user()]), algorithm={algorithm}, print_info={print_info})",
     {'algorithm!': ['gsm', 'edsm'], 'print_info': B}),
    ('run_Alergia', 'run_Alergia({data}, {automaton_type}, print_info={print_info})',
     {'automaton_type!': ['mdp', 'mc', 'smm'], 'print_info': B, 'data': None}),
    ('run_Alergia_EDSM', 'run_Alergia_EDSM({data}, {automaton_type}, print_info={print_info})',
     {'automaton_type!': ['mdp', 'smm'], 'print_info': B, 'data': None}),
    ('run_active_Alergia', 'run_active_Alergia({data}, sul, AlergiaSampler(some_int(), some_int(), some_int()), some_int(), '
     'automaton_type={automaton_type}, print_info={print_info})',
     {'automaton_type': ['mdp', 'smm'], 'print_info': B, 'data': None}),
    ('run_active_RPNI', 'run_active_RPNI(bools, sul, RpniSampler(some_int(), some_int(), some_int()), some_int(), {automaton_type}, '
     'print_info={print_info})', {'automaton_type': DET, 'print_info': B}),
    ('run_GSM', 'run_GSM({data}, output_behavior={output_behavior}, transition_behavior={transition_behavior}, '
     'compatibility_on_pta={compatibility_on_pta}, compatibility_on_futures={compatibility_on_futures}, '
     'consider_only_min_blue={consider_only_min_blue}, depth_first={depth_first}, data_format={data_format}, convert={convert}, '
     'score_calc=ScoreCalculation(user_fn, user_fn))',
     {'output_behavior!': ['moore', 'mealy'], 'transition_behavior!': ['deterministic', 'nondeterministic', 'stochastic'],
      'compatibility_on_pta': B, 'compatibility_on_futures': B, 'consider_only_min_blue': B, 'depth_first': B, 'convert': B,
      'data_format!': ['io_traces', 'labeled_sequences'], 'data': None}),
    ('KWayStateCoverageEqOracle', 'ask(KWayStateCoverageEqOracle(alphabet, sul, 2, some_int(), {method}))',
     {'method!': ['combinations', 'permutations']}),
    ('KWayTransitionCoverageEqOracle', 'ask(KWayTransitionCoverageEqOracle(alphabet, sul, 2, {method}, some_int(), some_int(), '
     'some_int(), {optimize}, some_int()))', {'method!': ['random', 'prefix'], 'optimize!': ['steps', 'queries']}),
    ('StatePrefixEqOracle', 'ask(StatePrefixEqOracle(alphabet, sul, some_int(), some_int(), None, {depth_first}))', {'depth_first': B}),
    ('RandomWalkEqOracle', 'ask(RandomWalkEqOracle(alphabet, sul, some_int(), {reset_after_cex}))', {'reset_after_cex': B}),
    ('RandomWordEqOracle', 'ask(RandomWordEqOracle(alphabet, sul, some_int(), some_int(), some_int(), {reset_after_cex}))',
     {'reset_after_cex': B}),
    ('CacheBasedEqOracle', 'ask(CacheBasedEqOracle(alphabet, CacheSUL(sul), some_int(), some_int(), {reset_after_cex}))',
     {'reset_after_cex': B}),
    ('WMethodEqOracle', 'ask(WMethodEqOracle(alphabet, sul, some_int(), {shuffle_test_set}))', {'shuffle_test_set': B}),
    ('CacheSUL', 'CacheSUL(sul, {cache_type}).query((user(),))', {'cache_type': ['tree', 'dict']}),
    ('TomitaSUL', 'TomitaSUL({tomita_level_fun}).query((user(),))', {'tomita_level_fun': [1, 2, 3, 4, 5, 6, 7, -3]}),
    ('make_input_complete', "make_input_complete(mk_mealy(), {missing_transition_go_to})",
     {'missing_transition_go_to!': ['self_loop', 'sink_state']}),
    ('DeterministicAutomaton.make_input_complete', "mk_mealy().make_input_complete({missing_transition_go_to})",
     {'missing_transition_go_to': ['self_loop', 'sink_state']}),
    ('generate_random_deterministic_automata', 'generate_random_deterministic_automata({automaton_type}, some_int(), some_int(), '
     'some_int())', {'automaton_type!': DET}),
    ('save_automaton_to_file', "save_automaton_to_file(hyp, 'm', {file_type}, some_bool(), some_bool())",
     {'file_type!': ['dot', 'png', 'svg', 'pdf', 'string']}),
    ('load_automaton_from_file', "load_automaton_from_file('m', {automaton_type})",
     {'automaton_type!': ['dfa', 'mealy', 'moore', 'mdp', 'smm', 'onfsm', 'mc', 'ndmoore', 'sevpa', 'vpa']}),
    ('get_data_from_input_sequence', "get_data_from_input_sequence(hyp, words, {data_format})",
     {'data_format!': ['io_sequences', 'labeled_sequences']}),
    ('generate_input_output_data_from_automata', "generate_input_output_data_from_automata(hyp, some_int(), some_int(), some_int(), "
     "{sequance_type})", {'sequance_type!': ['io_traces', 'labeled_sequences']}),
    ('convert_i_o_traces_for_RPNI', "convert_i_o_traces_for_RPNI(io, {automaton_type})", {'automaton_type': ['mealy', 'moore', 'dfa']}),
    ('ChiSquareChecker', "run_stochastic_Lstar(alphabet, sul, RandomWalkEqOracle(alphabet, sul), strategy=ChiSquareChecker({alpha}, {use_diff_value}))",
     {'alpha': [0.05, 0.01, 0.001], 'use_diff_value': B}),
    ('AdvancedHoeffdingChecker', "run_stochastic_Lstar(alphabet, sul, RandomWalkEqOracle(alphabet, sul), strategy=AdvancedHoeffdingChecker(some_int(), "
     "{use_diff_value}))", {'use_diff_value': B}),
    ('compute_characterization_set', "mk_mealy().compute_characterization_set(split_all_blocks={split_all_blocks}, "
     "return_same_states={return_same_states}, raise_warning={raise_warning})",
     {'split_all_blocks': B, 'return_same_states': B, 'raise_warning': B}),
    ('bisimilar', 'bisimilar(mk_mealy(), mk_mealy(), {return_cex})', {'return_cex': B}),
    ('Sevpa/Vpa step', None, {}),
]
BOGUS = {'print_level': [7]}


def refs(v):
    return 'mk_' + (v if v in DET else 'mealy') + '()'


def data(fn, opts):
    t = opts.get('automaton_type')
    if fn == 'run_Alergia':
        return {'mdp': 'traces', 'mc': 'seqs', 'smm': 'io'}.get(t, 'traces')
    if fn in ('run_Alergia_EDSM', 'run_active_Alergia'):
        return {'mdp': 'traces', 'smm': 'io'}.get(t, 'traces')
    if fn == 'run_GSM':
        return {'labeled_sequences': 'labeled'}.get(opts.get('data_format'), 'io')
    return 'labeled' if t in ('mealy', None) and fn != 'run_EDSM' else 'bools'


def cases():
    """(function, option, value, source of the call, documented)"""
    for fn, call, opts in TABLE:
        if call is None:
            continue
        plain = {k.rstrip('!'): v for k, v in opts.items()}
        for k, vals in opts.items():
            name = k.rstrip('!')
            if vals is None:
                continue
            for doc, v in [(True, v) for v in vals] + [(False, v) for v in BOGUS.get(name, ['no_such_value']) if k.endswith('!')]:
                src = {}
                for o, vs in plain.items():
                    if o in PIN.get((fn, name), ()):
                        src[o] = repr(PIN[fn, name][o])
                    elif o == name:
                        src[o] = repr(v)
                    elif vs is None:
                        src[o] = ''
                    elif o in ('automaton_type', 'data_format', 'output_behavior', 'transition_behavior', 'print_level', 'print_info'):
                        src[o] = repr(vs[0])
                    else:
                        src[o] = f'either({", ".join(map(repr, vs))})'
                cur = {o: eval(x) for o, x in src.items() if x and not x.startswith('either')}
                if 'refs' in src:
                    src['refs'] = refs(cur.get('automaton_type'))
                if 'data' in src:
                    src['data'] = data(fn, cur)
                if src.get('custom_oracle') == '':
                    src['custom_oracle'] = 'False'
                yield fn, name, v, call.format(**src), doc


# values that mean the same for the call (documented), or whose difference lies in data given to an external library
SAME = {('save_automaton_to_file', 'file_type'): [{'png', 'svg', 'pdf'}], ('convert_i_o_traces_for_RPNI', 'automaton_type'): [{'moore', 'dfa'}],
        ('ChiSquareChecker', 'alpha'): [{0.05, 0.01, 0.001}]}
# function, option -> value -> functions that carry the behaviour out (reached for this value; '!': not reached)
CEXH = {'rs': ['rs_cex_processing', '!linear_cex_processing', '!exponential_cex_processing', '!longest_prefix_cex_processing'],
        'longest_prefix': ['longest_prefix_cex_processing', '!rs_cex_processing', '!linear_cex_processing'],
        'linear_fwd': ['linear_cex_processing', '!rs_cex_processing'], 'linear_bwd': ['linear_cex_processing', '!rs_cex_processing'],
        'exponential_fwd': ['exponential_cex_processing', '!linear_cex_processing'],
        'exponential_bwd': ['exponential_cex_processing', '!linear_cex_processing'],
        None: ['!rs_cex_processing', '!linear_cex_processing', '!exponential_cex_processing', '!longest_prefix_cex_processing']}
ADS = {'ADS': ['Ads.__init__'], 'SepSeq': ['!Ads.__init__'], None: ['!Ads.__init__']}
MIC = {None: ['!make_input_complete'], 'self_loop': ['make_input_complete'], 'sink_state': ['make_input_complete']}
HANDLERS = {
    ('run_Lstar', 'cex_processing'): CEXH, ('run_KV', 'cex_processing'): CEXH,
    ('run_Lsharp', 'extension_rule'): ADS, ('run_Lsharp', 'separation_rule'): ADS,
    ('run_adaptive_Lsharp', 'extension_rule'): ADS, ('run_adaptive_Lsharp', 'separation_rule'): ADS,
    ('run_adaptive_Lsharp', 'state_matching'): {'Total': ['TotalStateMatching.__init__', '!ApproximateStateMatching.__init__'],
                                                'Approximate': ['ApproximateStateMatching.__init__', '!TotalStateMatching.__init__'],
                                                None: ['!TotalStateMatching.__init__', '!ApproximateStateMatching.__init__']},
    ('run_adaptive_Lsharp', 'rebuilding'): {True: ['AdaptiveObservationTree.rebuild_obs_tree'],
                                            False: ['!AdaptiveObservationTree.rebuild_obs_tree']},
    ('run_stochastic_Lstar', 'strategy'): {
        'classic': ['HoeffdingChecker.are_cells_different', '!AdvancedHoeffdingChecker.are_cells_different',
                    '!ChiSquareChecker.are_cells_different'],
        'normal': ['AdvancedHoeffdingChecker.are_cells_different', '!ChiSquareChecker.are_cells_different'],
        'chi2': ['ChiSquareChecker.are_cells_different']},
    ('run_stochastic_Lstar', 'cex_processing'): {None: ['!stochastic_longest_prefix', '!stochastic_rs'],
                                                 'longest_prefix': ['stochastic_longest_prefix', '!stochastic_rs'],
                                                 'rs': ['stochastic_rs', '!stochastic_longest_prefix']},
    ('run_stochastic_Lstar', 'samples_cex_strategy'): {
        None: ['!StochasticTeacher.bfs_for_cex_in_tree', '!StochasticTeacher.dfs_for_cex_in_tree'],
        'bfs': ['StochasticTeacher.bfs_for_cex_in_tree', '!StochasticTeacher.dfs_for_cex_in_tree'],
        'random:200:0.2': ['StochasticTeacher.dfs_for_cex_in_tree', '!StochasticTeacher.bfs_for_cex_in_tree']},
    ('run_RPNI', 'algorithm'): {'gsm': ['GsmRPNI.__init__', '!ClassicRPNI.__init__'], 'classic': ['ClassicRPNI.__init__', '!GsmRPNI.__init__']},
    ('run_RPNI', 'input_completeness'): MIC, ('run_EDSM', 'input_completeness'): MIC, ('run_k_tails', 'input_completeness'): MIC,
    ('run_PAPNI', 'algorithm'): {'edsm': ['run_EDSM', '!run_RPNI'], 'gsm': ['GsmRPNI.__init__', '!run_EDSM']},
    ('run_GSM', 'output_behavior'): {'moore': ['GsmNode.moore_compatible'], 'mealy': ['!GsmNode.moore_compatible']},
    ('run_GSM', 'transition_behavior'): {'deterministic': ['GsmNode.deterministic_compatible'],
                                         'nondeterministic': ['!GsmNode.deterministic_compatible'],
                                         'stochastic': ['!GsmNode.deterministic_compatible']},
    ('KWayTransitionCoverageEqOracle', 'method'): {
        'random': ['KWayTransitionCoverageEqOracle.generate_random_paths'],
        'prefix': ['KWayTransitionCoverageEqOracle.generate_prefix_steps', '!KWayTransitionCoverageEqOracle.generate_random_paths']},
    ('CacheSUL', 'cache_type'): {'tree': ['CacheTree.__init__', '!CacheDict.__init__'], 'dict': ['CacheDict.__init__', '!CacheTree.__init__']},
    ('TomitaSUL', 'tomita_level_fun'): {n: [f'tomita_{n}'] + [f'!tomita_{k}' for k in range(1, 8) if k != n] for n in range(1, 8)} |
    {-3: ['not_tomita_3'] + [f'!tomita_{k}' for k in range(1, 8) if k != 3]},
}
for _f in ('run_Lstar', 'run_KV', 'run_Lsharp', 'run_adaptive_Lsharp'):
    HANDLERS[(_f, 'cache_and_non_det_check')] = {True: ['CacheSUL.__init__'], False: ['!CacheSUL.__init__']}
# what has to be fixed for the handlers of one option to be told apart
PIN = {('run_Lsharp', 'extension_rule'): {'separation_rule': 'SepSeq'}, ('run_Lsharp', 'separation_rule'): {'extension_rule': None},
       ('run_adaptive_Lsharp', 'extension_rule'): {'separation_rule': 'SepSeq'},
       ('run_adaptive_Lsharp', 'separation_rule'): {'extension_rule': None}}
# function, option -> value -> classes of the result ('+' more may come, a set: exactly these library classes)
DETR = {'dfa': {'Dfa'}, 'mealy': {'MealyMachine'}, 'moore': {'MooreMachine'}, 'vpa': {'Sevpa'}}
STOR = {'mdp': {'Mdp'}, 'smm': {'StochasticMealyMachine'}, 'mc': {'MarkovChain'}}
NDR = {'mealy': {'Onfsm'}, 'moore': {'NDMooreMachine'}}
LOADR = DETR | STOR | {'onfsm': {'Onfsm'}, 'ndmoore': {'NDMooreMachine'}, 'sevpa': {'Sevpa'}, 'vpa': {'Vpa'}}
RESULTS = {(f, 'automaton_type'): DETR for f in ('run_Lstar', 'run_KV', 'run_Lsharp', 'run_adaptive_Lsharp', 'run_RPNI', 'run_EDSM',
                                                 'run_active_RPNI', 'generate_random_deterministic_automata')}
RESULTS |= {(f, 'automaton_type'): STOR for f in ('run_Alergia', 'run_Alergia_EDSM', 'run_active_Alergia', 'run_stochastic_Lstar')}
RESULTS |= {('run_k_tails', 'automaton_type'): NDR, ('load_automaton_from_file', 'automaton_type'): LOADR,
            ('run_non_det_Lstar', 'stochastic'): {False: {'Onfsm'}, True: {'StochasticMealyMachine'}},
            ('run_GSM', 'convert'): {False: {'GsmNode'}, True: {'MooreMachine'}}}
MODELS = {'Dfa', 'MealyMachine', 'MooreMachine', 'Sevpa', 'Vpa', 'Mdp', 'StochasticMealyMachine', 'MarkovChain', 'Onfsm', 'NDMooreMachine',
          'GsmNode'}


def evaluate(src):
    """(value of the call, what of the library it evaluates, the functions it reaches)"""
    prog = Program()
    prog.add_source('verif_models', drivers.MODELS)
    prog.add_source('verif_case', HEAD + 'r = ' + src + '\n')
    it = Interp(prog, strict=True)
    it.run(['verif_case'])
    r = it.mods['verif_case'].fields.get('r', EMPTY)
    ev = set()
    for n, v in it.types.items():
        if n.mod.name.split('.')[0] == 'aalpy':
            ev.add((n.mod.rel, n.lineno, n.col_offset, type(n).__name__, tuple(sorted({show(a) for a in v if type(a) is not tuple}))))
    reached = {fq(f) for f in it.reached if isinstance(f, ast.FunctionDef)}
    inner = set()
    for a in r:
        if isinstance(a, Obj) and a.kind == 'tuple':
            for k, v in a.fields.items():
                inner |= {x.cls.name for x in v if isinstance(x, Obj) and x.cls is not None}
    classes = {a.cls.name for a in r if isinstance(a, Obj) and a.cls is not None}
    kinds = {a.kind for a in r if isinstance(a, Obj)} | {'None' for a in r if type(a) is tuple and a == ('c', 'NoneType', None)}
    ev = hashlib.sha256(repr(sorted(ev)).encode()).hexdigest()
    return bool(r), ev, reached, classes | inner, kinds


def show(a):
    if type(a) is tuple:
        return repr(a)
    if isinstance(a, Obj):
        return f"obj {a.cls.name if a.cls is not None else a.kind} {getattr(a.site, 'lineno', 0)} {getattr(a.site, 'col_offset', 0)}"
    if isinstance(a, Func):
        return f'func {a.name} {getattr(a.node, "lineno", 0)}'
    return type(a).__name__ + ' ' + str(getattr(a, 'name', ''))


def one(case):
    try:
        return case, evaluate(case[3]), None
    except Exception:
        return case, None, traceback.format_exc()


def all_cases():
    cs = list(cases())
    gc.collect()
    gc.freeze()
    with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as p:
        return p.map(one, cs, chunksize=1)


def c19(tier):
    res = Result('For every documented value of every enumerated or two-valued option one abstract run of the library with that '
                 'constant: the call can return (documented) or cannot (undocumented); two values differ in the expressions '
                 'evaluated or in the functions and objects reaching them; the value reaches the functions that implement it and '
                 'none of the other values\'; the result has the class asked for; every parameter of a public function or '
                 'constructor is used for something, not overwritten before.')
    prog = Program()
    names = {fq(f) for f in prog.functions()} | {f.name for f in prog.functions()}
    defs = {}
    for n in itertools.chain(prog.functions(), prog.classes()):
        defs.setdefault(n.name, n)
    groups = {}
    for (fn, name, v, src, doc), out, err in all_cases():
        if err is not None:
            raise AnalysisBroken(f'{fn}, {name}={v!r}: {err}')
        d = defs.get(fn.split('.')[-1])
        if d is None:
            res.count('not_found')
            continue
        res.count('abstract_runs')
        key = f'{d.mod.rel}::{fn}::{name}'
        ok, ev, reached, classes, kinds = out
        if doc:
            res.oblige(ok, f'{fn}({name}={v!r}) can return')
            if not ok:
                res.violate(f'{key}={v!r}', f'{fn} accepts no {name}={v!r}, which is documented: no path of the call returns', d, [src])
                continue
        else:
            res.oblige(not ok, f'{fn}({name}={v!r}) is rejected')
            if ok:
                res.violate(f'{key}={v!r}', f'{fn} accepts the undocumented {name}={v!r} instead of rejecting it', d, [src])
            continue
        groups.setdefault((fn, name, src.replace(repr(v), '@')), []).append((v, ev, d, key))
        short = {x.split('.')[-1] for x in reached}
        for h in HANDLERS.get((fn, name), {}).get(v, []):
            neg, f = h.startswith('!'), h.lstrip('!')
            if f not in names:
                res.count('handlers_not_found')
                continue
            hit = f in reached or '.' not in f and f in short
            res.oblige(hit != neg, f'{fn}({name}={v!r}) {"does not reach" if neg else "reaches"} {f}')
            if hit == neg:
                res.violate(f'{key}={v!r}::{f}', f'{name}={v!r} of {fn} ' + (f'reaches {f}, which belongs to another value' if neg else
                                                                      f'never reaches {f}, which implements it'), d, [src])
        want = RESULTS.get((fn, name), {}).get(v)
        if want is not None:
            got = classes & MODELS
            res.oblige(got == want, f'{fn}({name}={v!r}) gives a {" or ".join(sorted(want))}')
            if got - want or not got:
                res.violate(f'{key}={v!r}::result', f'{fn} with {name}={v!r} returns {", ".join(sorted(got)) or "no model"} instead of '
                            f'{" or ".join(sorted(want))}', d, [src])
        if name == 'return_data':
            good = ('tuple' in kinds) == v
            res.oblige(good, f'{fn}(return_data={v})')
            if not good:
                res.violate(f'{key}={v!r}::result', f'{fn} with return_data={v} returns {"a pair" if "tuple" in kinds else "only a model"}', d)
        if name == 'return_cex':
            good = ('None' in kinds) == v
            res.oblige(good, f'{fn}(return_cex={v})')
            if not good:
                res.violate(f'{key}={v!r}::result', f'{fn} with return_cex={v} returns {sorted(kinds)}', d)
    for (fn, name, _), l in groups.items():
        for (a, x, d, key), (b, y, _, _) in itertools.combinations(l, 2):
            if any(a in g and b in g for g in SAME.get((fn, name), ())):
                continue
            res.oblige(x != y, f'{fn}: {name}={a!r} and {b!r} differ')
            if x == y:
                res.violate(f'{key}::{a!r}=={b!r}', f'{name}={a!r} and {name}={b!r} of {fn} do exactly the same: the option is ignored', d)
    live(prog, res)
    res.assumptions = ['options and values are those documented on the commit analysed; numbers are covered by the use rule only',
                       'objects are distinguished by where they are built']
    return res


# ---------------------------------------------------------------------- every parameter is used
def params(f):
    a = f.args
    return [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs if p.arg not in ('self', 'cls')]


def simple_store(n):
    """the attribute of self a parameter is stored into, unchanged"""
    s = n.parent
    while isinstance(s, (ast.IfExp, ast.BoolOp)):
        s = s.parent
    if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
        t = s.targets[0] if isinstance(s, ast.Assign) else s.target
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self' and n.parent is s:
            return t.attr
    return None


def in_assert(n, f):
    while n is not f:
        if isinstance(n, ast.Assert):
            return True
        n = n.parent
    return False


def own_class(n):
    while n is not None and not isinstance(n, ast.ClassDef):
        n = n.parent
    return n


class Live:
    def __init__(self, prog):
        self.prog = prog
        self.classes = {}
        for c in prog.classes():
            self.classes.setdefault(c.name, []).append(c)
        self.funcs = {}
        for f in prog.functions():
            if not isinstance(f.parent, ast.ClassDef):
                self.funcs.setdefault(f.name, []).append(f)
        self.attrs = {}
        for m in prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    self.attrs.setdefault(n.attr, []).append(n)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('getattr', 'hasattr') and len(n.args) > 1 \
                        and isinstance(n.args[1], ast.Constant):
                    self.attrs.setdefault(n.args[1].value, []).append(n)
        self.anc = {n: self.up(n, set()) for n in self.classes}
        self.memo = {}

    def up(self, n, s):
        if n in self.classes and n not in s:
            s.add(n)
            for c in self.classes[n]:
                for b in c.bases:
                    b = b.value if isinstance(b, ast.Subscript) else b
                    self.up(b.id if isinstance(b, ast.Name) else getattr(b, 'attr', ''), s)
        return s

    def family(self, c):
        return {m for m in self.classes if c.name in self.anc[m] or m in self.anc[c.name]}

    def dead(self, f, p):
        """why the parameter p of f has no effect, or None"""
        k = (f, p)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = 'it is only handed on in a circle'
        self.memo[k] = r = self.dead_(f, p)
        return r

    def dead_(self, f, p):
        loads = []
        for s in f.body:        # up to the first unconditional assignment
            loads += [n for n in ast.walk(s) if isinstance(n, ast.Name) and n.id == p and isinstance(n.ctx, ast.Load)]
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == p for t in s.targets):
                break
        if not loads:
            return 'it is never read before it is overwritten' if any(isinstance(n, ast.Name) and n.id == p for n in ast.walk(f)) \
                else 'it is never read'
        loads = [n for n in loads if not in_assert(n, f)]
        if not loads:
            return 'it is only checked'
        why = None
        for n in loads:
            at = simple_store(n)
            if at is not None:
                why = self.dead_field(f, at, n)
                if why is None:
                    return None
                continue
            t = self.callee(n, f)
            if t is None:
                return None
            why = self.dead(*t)
            if why is None:
                return None
            why = f'it is handed to {fq(t[0])} as {t[1]}, where ' + why
        return why

    def dead_field(self, f, at, n):
        c = own_class(f)
        if c is None:
            return None
        for s in f.body:
            if isinstance(s, ast.Assign) and s.lineno > n.lineno and isinstance(s.value, ast.Constant) and \
                    any(isinstance(t, ast.Attribute) and t.attr == at and isinstance(t.value, ast.Name) and t.value.id == 'self'
                        for t in s.targets) and not any(x.lineno <= s.lineno and own_class(x) is c and x.lineno > n.lineno
                                                        for x in self.attrs.get(at, ())):
                return f'its field {at} is overwritten by a constant in the constructor'
        fam = self.family(c)
        for r in self.attrs.get(at, []):
            cc = own_class(r)
            own = isinstance(r, ast.Attribute) and isinstance(r.value, ast.Name) and r.value.id == 'self'
            if not own or cc is None or cc.name in fam:
                if isinstance(r.parent, ast.Expr):
                    continue
                t = self.callee(r, None)
                if own and t is not None and self.dead(*t) is not None:
                    continue
                return None
        return f'its field {at} is never read'

    def callee(self, n, f):
        """(function, parameter) of the library the name is handed to as it is, or None"""
        c = n.parent
        kw = None
        if isinstance(c, ast.keyword):
            kw, c = c.arg, c.parent
        if not isinstance(c, ast.Call) or n is c.func or kw is None and n not in c.args or \
                any(isinstance(a, ast.Starred) for a in c.args):
            return None
        fn, skip = None, 0
        if isinstance(c.func, ast.Name):
            if len(self.funcs.get(c.func.id, ())) == 1:
                fn = self.funcs[c.func.id][0]
            elif len(self.classes.get(c.func.id, ())) == 1:
                fn, skip = self.init(self.classes[c.func.id][0]), 1
        elif isinstance(c.func, ast.Attribute) and c.func.attr == '__init__' and isinstance(c.func.value, ast.Call) and \
                isinstance(c.func.value.func, ast.Name) and c.func.value.func.id == 'super':
            o = own_class(n)
            for b in o.bases if o is not None else ():
                b = b.value if isinstance(b, ast.Subscript) else b
                if isinstance(b, ast.Name) and len(self.classes.get(b.id, ())) == 1:
                    fn, skip = self.init(self.classes[b.id][0]), 1
        if fn is None or fn.args.vararg or fn.args.kwarg:
            return None
        ps = [a.arg for a in fn.args.posonlyargs + fn.args.args]
        if kw is None:
            i = c.args.index(n) + skip
            kw = ps[i] if i < len(ps) else None
        return (fn, kw) if kw in params(fn) else None

    def init(self, c):
        for name in [c.name] + [b for b in self.anc[c.name] if b != c.name]:
            for k in self.classes[name]:
                for f in k.body:
                    if isinstance(f, ast.FunctionDef) and f.name == '__init__':
                        return f
        return None


PUBLIC = ('learning_algs', 'oracles', 'SULs', 'utils', 'automata', 'base')


def live(prog, res):
    L = Live(prog)
    abstract = set()
    for f in prog.functions():
        if any('abstract' in ast.unparse(x) for x in f.decorator_list):
            abstract.add(f.name)
    for f in prog.functions():
        pkg = f.mod.name.split('.')
        if len(pkg) < 2 or pkg[1] not in PUBLIC or f.name.startswith('_') and f.name != '__init__':
            continue
        c = f.parent if isinstance(f.parent, ast.ClassDef) else None
        if c is None and not isinstance(f.parent, ast.Module):
            continue
        if c is not None and f.name != '__init__':
            continue
        if pkg[1] == 'learning_algs' and not (f.name.startswith('run_') or c is not None and ('Checker' in c.name or 'Score' in c.name or
                                                                                              'Sampler' in c.name)):
            continue
        if all(isinstance(s, (ast.Pass, ast.Expr, ast.Raise)) for s in f.body):
            continue
        for p in params(f):
            why = L.dead(f, p)
            res.oblige(why is None, f'{p} of {fq(f)} is used')
            res.count('parameters')
            if why is not None:
                res.violate(f'{f.mod.rel}::{fq(f)}::parameter {p}', f'the parameter {p} of {fq(f)} has no effect: {why}', f)
    for m in prog.modules.values():
        if not m.name.startswith('aalpy'):
            continue
        for s in ast.walk(m.tree):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Lambda) and isinstance(s.targets[0], ast.Attribute):
                t = ast.unparse(s.targets[0])
                bad = [x for x in ast.walk(s.value.body) if isinstance(x, ast.Call) and ast.unparse(x.func) == t]
                res.oblige(not bad)
                if bad:
                    res.violate(construct_key(s), f'the function stored in {t} calls {t}, which is then itself: it never returns', s)
