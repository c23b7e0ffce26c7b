"""
Driver programs for the abstract interpreter: they are never executed, only interpreted over the abstract domain.
They call the public interface of the library the way a user does, with opaque user data (user()), and mark the objects a
property protects by the region in which they were built (build('label', constructor)).
"""

MODELS = '''
from verif import user, some_bool, some_int, either, build
from aalpy.base import SUL, Oracle
from aalpy.automata import (Dfa, DfaState, MarkovChain, McState, Mdp, MdpState, MealyMachine, MealyState, MooreMachine,
    MooreState, NDMooreMachine, NDMooreState, Onfsm, OnfsmState, Sevpa, SevpaAlphabet, SevpaState, SevpaTransition,
    StochasticMealyMachine, StochasticMealyState, Vpa, VpaAlphabet, VpaState, VpaTransition)
from aalpy.automata.Sevpa import Sevpa as Sevpa_
from aalpy.learning_algs.stochastic_passive.CompatibilityChecker import CompatibilityChecker
from aalpy.learning_algs.stochastic.DifferenceChecker import DifferenceChecker
from aalpy.learning_algs.stochastic_passive.ActiveAleriga import Sampler
from aalpy.learning_algs.deterministic_passive.active_RPNI import RpniActiveSampler


def mk_alphabet():
    return [user(), user()]


def mk_dfa():
    s0 = DfaState(user(), some_bool())
    s1 = DfaState(user(), some_bool())
    s0.transitions[user()] = s1
    s1.transitions[user()] = s0
    s0.transitions[user()] = s0
    s0.prefix = (user(),)
    s1.prefix = (user(),)
    return Dfa(s0, [s0, s1])


def mk_moore():
    s0 = MooreState(user(), user())
    s1 = MooreState(user(), user())
    s0.transitions[user()] = s1
    s1.transitions[user()] = s0
    s0.transitions[user()] = s0
    s0.prefix = (user(),)
    s1.prefix = (user(),)
    return MooreMachine(s0, [s0, s1])


def mk_mealy():
    s0 = MealyState(user())
    s1 = MealyState(user())
    s0.transitions[user()] = s1
    s1.transitions[user()] = s0
    s0.transitions[user()] = s0
    s0.output_fun[user()] = user()
    s1.output_fun[user()] = user()
    s0.prefix = (user(),)
    s1.prefix = (user(),)
    return MealyMachine(s0, [s0, s1])


def mk_mdp():
    s0 = MdpState(user(), user())
    s1 = MdpState(user(), user())
    s0.transitions[user()].append((s1, 0.5))
    s0.transitions[user()].append((s0, 0.5))
    s1.transitions[user()].append((s0, 1.0))
    return Mdp(s0, [s0, s1])


def mk_smm():
    s0 = StochasticMealyState(user())
    s1 = StochasticMealyState(user())
    s0.transitions[user()].append((s1, user(), 0.5))
    s0.transitions[user()].append((s0, user(), 0.5))
    s1.transitions[user()].append((s0, user(), 1.0))
    return StochasticMealyMachine(s0, [s0, s1])


def mk_mc():
    s0 = McState(user(), user())
    s1 = McState(user(), user())
    s0.transitions.append((s1, 0.5))
    s0.transitions.append((s0, 0.5))
    s1.transitions.append((s0, 1.0))
    return MarkovChain(s0, [s0, s1])


def mk_onfsm():
    s0 = OnfsmState(user())
    s1 = OnfsmState(user())
    s0.transitions[user()].append((user(), s1))
    s0.transitions[user()].append((user(), s0))
    s1.transitions[user()].append((user(), s0))
    s0.prefix = (user(),)
    s1.prefix = (user(),)
    return Onfsm(s0, [s0, s1])


def mk_ndmoore():
    s0 = NDMooreState(user(), user())
    s1 = NDMooreState(user(), user())
    s0.transitions[user()].append(s1)
    s0.transitions[user()].append(s0)
    s1.transitions[user()].append(s0)
    return NDMooreMachine(s0, [s0, s1])


def mk_sevpa():
    s0 = SevpaState(user(), some_bool())
    s1 = SevpaState(user(), some_bool())
    s0.transitions[user()].append(SevpaTransition(s1, user(), None))
    s0.transitions[user()].append(SevpaTransition(s1, user(), 'pop', (user(), user())))
    s1.transitions[user()].append(SevpaTransition(s0, user(), 'pop', (user(), user())))
    s0.prefix = (user(),)
    s1.prefix = (user(),)
    return Sevpa(s0, [s0, s1])


def mk_vpa():
    s0 = VpaState(user(), some_bool())
    s1 = VpaState(user(), some_bool())
    s0.transitions[user()].append(VpaTransition(s0, s1, user(), 'push', user()))
    s1.transitions[user()].append(VpaTransition(s1, s0, user(), 'pop', user()))
    s1.transitions[user()].append(VpaTransition(s1, s0, user(), None))
    s0.prefix = (user(),)
    return Vpa(s0, [s0, s1])


class UserSUL(SUL):
    def __init__(self):
        super().__init__()

    def pre(self):
        user()

    def post(self):
        user()

    def step(self, letter):
        return user()


class UserOracle(Oracle):
    def __init__(self, alphabet, sul):
        super().__init__(alphabet, sul)

    def find_cex(self, hypothesis):
        self.num_queries += 1
        self.num_steps += 1
        return either(None, [user(), user()], (user(), user()))


class UserNdOracle(Oracle):
    def __init__(self, alphabet, sul):
        super().__init__(alphabet, sul)

    def find_cex(self, hypothesis):
        return either(None, ([user()], [user()]))


class UserChecker(CompatibilityChecker):
    def are_states_different(self, a, b, **kwargs):
        return user()


class UserDifference(DifferenceChecker):
    def are_cells_different(self, c1, c2, **kwargs):
        return user()


class UserRpniSampler(RpniActiveSampler):
    def sample(self, sul, model):
        return [((user(), user()), user())]


class UserAlergiaSampler(Sampler):
    def sample(self, sul, model):
        return [[user(), (user(), user())]]


def mk_words():
    return [[user(), user()], [user()]]


def mk_labeled():
    return [((user(), user()), user()), ((user(),), user())]


def mk_labeled_lists():
    return [([user(), user()], user()), ([user()], user())]


def mk_io():
    return [[(user(), user()), (user(), user())], [(user(), user())]]


def mk_samples():
    return [((user(), user()), (user(), user()))]
'''

ORACLES = '''
from verif import user, some_bool, some_int, either, build
from verif_models import *
from aalpy.base.SUL import CacheSUL
from aalpy.oracles import (BreadthFirstExplorationEqOracle, CacheBasedEqOracle, KWayStateCoverageEqOracle,
    KWayTransitionCoverageEqOracle, PacOracle, PerfectKnowledgeEqOracle, ProvidedSequencesOracleWrapper, RandomWalkEqOracle,
    RandomWMethodEqOracle, RandomWordEqOracle, StatePrefixEqOracle, TransitionFocusOracle, WMethodEqOracle,
    RandomWpMethodEqOracle, WpMethodEqOracle)
from aalpy.learning_algs.non_deterministic.NonDeterministicSULWrapper import NonDeterministicSULWrapper
from aalpy.SULs import AutomatonSUL


def run(oracle, hyp):
    oracle.find_cex(hyp)


def det_oracles(alphabet, sul):
    run_all(BreadthFirstExplorationEqOracle(alphabet, sul, some_int()))
    run_all(CacheBasedEqOracle(alphabet, CacheSUL(sul), some_int(), some_int(), some_bool()))
    run_all(KWayStateCoverageEqOracle(alphabet, sul, some_int(), some_int(), either('permutations', 'combinations')))
    run_all(KWayTransitionCoverageEqOracle(alphabet, sul, some_int(), either('random', 'prefix'), some_int(), some_int(),
            some_int(), either('steps', 'queries'), some_int()))
    run_all(PacOracle(alphabet, sul))
    run_all(RandomWalkEqOracle(alphabet, sul, some_int(), some_bool()))
    run_all(RandomWordEqOracle(alphabet, sul, some_int(), some_int(), some_int(), some_bool()))
    run_all(RandomWMethodEqOracle(alphabet, sul, some_int(), some_int()))
    run_all(StatePrefixEqOracle(alphabet, sul, some_int(), some_int(), either(None, some_int()), some_bool()))
    run_all(TransitionFocusOracle(alphabet, sul, some_int(), some_int()))
    run_all(WMethodEqOracle(alphabet, sul, some_int(), some_bool()))
    run_all(WpMethodEqOracle(alphabet, sul, some_int()))
    run_all(RandomWpMethodEqOracle(alphabet, sul, some_int(), some_int(), some_int()))
    run_all(ProvidedSequencesOracleWrapper(alphabet, sul, UserOracle(alphabet, sul), build('input', mk_words)))
    PerfectKnowledgeEqOracle(alphabet, sul, build('input', mk_dfa)).find_cex(h_dfa)
    PerfectKnowledgeEqOracle(alphabet, sul, build('input', mk_moore)).find_cex(h_moore)
    PerfectKnowledgeEqOracle(alphabet, sul, build('input', mk_mealy)).find_cex(h_mealy)


h_dfa = build('hyp', mk_dfa)
h_moore = build('hyp', mk_moore)
h_mealy = build('hyp', mk_mealy)
h_mdp = build('hyp', mk_mdp)
h_smm = build('hyp', mk_smm)
h_onfsm = build('hyp', mk_onfsm)
h_sevpa = build('hyp', mk_sevpa)


def run_all(oracle):
    run(oracle, h_dfa)
    run(oracle, h_moore)
    run(oracle, h_mealy)


def run_other(oracle):
    run(oracle, h_mdp)
    run(oracle, h_smm)
    run(oracle, h_onfsm)
    run(oracle, h_sevpa)


def other_oracles(alphabet, sul):
    run_other(RandomWalkEqOracle(alphabet, sul, some_int(), some_bool()))
    run_other(RandomWordEqOracle(alphabet, sul, some_int(), some_int(), some_int(), some_bool()))


a = build('input', mk_alphabet)
det_oracles(a, either(UserSUL(), CacheSUL(UserSUL()), AutomatonSUL(build('input', mk_mealy))))
other_oracles(a, either(UserSUL(), NonDeterministicSULWrapper(UserSUL())))
'''

# @PL@: print level, @PI@: print_info flag
LEARNERS_COMMON = '''
from verif import user, some_bool, some_int, either, build
from verif_models import *
from aalpy.base.SUL import CacheSUL
from aalpy.learning_algs import (run_Lstar, run_KV, run_Lsharp, run_adaptive_Lsharp, run_non_det_Lstar,
    run_abstracted_ONFSM_Lstar, run_stochastic_Lstar, run_Alergia, run_JAlergia, run_active_Alergia, run_RPNI, run_PAPNI,
    run_active_RPNI, run_GSM, run_EDSM, run_Alergia_EDSM, run_k_tails)

alphabet = build('input', mk_alphabet)


def mk_vpa_alphabet():
    return SevpaAlphabet([user()], [user()], [user()])


def rounds():
    return either(None, some_int())
'''

LEARNERS_DET = LEARNERS_COMMON + '''
sul = UserSUL()
eq = UserOracle(alphabet, sul)

run_Lstar(alphabet, sul, eq, either('dfa', 'mealy', 'moore'), samples=either(None, build('input', mk_samples)),
          closing_strategy=either('shortest_first', 'longest_first', 'single', 'single_longest'),
          cex_processing=either(None, 'rs', 'longest_prefix', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd'),
          e_set_suffix_closed=some_bool(), all_prefixes_in_obs_table=some_bool(), max_learning_rounds=rounds(),
          cache_and_non_det_check=some_bool(), return_data=some_bool(), print_level=@PL@)

run_KV(alphabet, sul, eq, either('dfa', 'mealy', 'moore'),
       cex_processing=either('rs', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd'),
       max_learning_rounds=rounds(), cache_and_non_det_check=some_bool(), return_data=some_bool(), print_level=@PL@)

vpa_alph = build('input', mk_vpa_alphabet)
run_KV(vpa_alph, sul, eq, 'vpa',
       cex_processing=either('rs', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd'),
       max_learning_rounds=rounds(), cache_and_non_det_check=some_bool(), return_data=some_bool(), print_level=@PL@)

run_Lsharp(alphabet, sul, eq, either('dfa', 'mealy', 'moore'), extension_rule=either(None, 'SepSeq', 'ADS'),
           separation_rule=either('SepSeq', 'ADS'), samples=either(None, build('input', mk_samples)),
           max_learning_rounds=rounds(), cache_and_non_det_check=some_bool(), return_data=some_bool(), print_level=@PL@)
'''

LEARNERS_ADAPTIVE = LEARNERS_COMMON + '''
sul = UserSUL()
eq = UserOracle(alphabet, sul)


def mk_refs_mealy():
    return [mk_mealy()]


def mk_refs_moore():
    return [mk_moore()]


def mk_refs_dfa():
    return [mk_dfa()]


def go(refs, typ):
    run_adaptive_Lsharp(alphabet, sul, refs, eq, typ, extension_rule=either(None, 'SepSeq', 'ADS'),
           separation_rule=either('SepSeq', 'ADS'), rebuilding=some_bool(),
           state_matching=either(None, 'Total', 'Approximate'), samples=either(None, build('input', mk_samples)),
           max_learning_rounds=rounds(), cache_and_non_det_check=some_bool(), return_data=some_bool(), print_level=@PL@)


go(build('input', mk_refs_mealy), 'mealy')
go(build('input', mk_refs_moore), 'moore')
go(build('input', mk_refs_dfa), 'dfa')
'''

LEARNERS_NONDET = LEARNERS_COMMON + '''
from aalpy.oracles import RandomWalkEqOracle, RandomWordEqOracle
sul = UserSUL()
eq = either(UserNdOracle(alphabet, sul), RandomWalkEqOracle(alphabet, sul, some_int(), some_bool()),
            RandomWordEqOracle(alphabet, sul, some_int(), some_int(), some_int(), some_bool()))


def mk_mapping():
    return {user(): user()}


def mk_nd_samples():
    return [([user()], [user()])]


run_non_det_Lstar(alphabet, sul, eq, n_sampling=some_int(), samples=either(None, build('input', mk_nd_samples)),
                  stochastic=some_bool(), max_learning_rounds=rounds(), return_data=some_bool(), print_level=@PL@)
run_abstracted_ONFSM_Lstar(alphabet, sul, eq, build('input', mk_mapping), n_sampling=some_int(),
                  max_learning_rounds=rounds(), return_data=some_bool(), print_level=@PL@)
'''

LEARNERS_STOCH = LEARNERS_COMMON + '''
from aalpy.oracles import RandomWalkEqOracle, RandomWordEqOracle
from aalpy.learning_algs.stochastic.DifferenceChecker import HoeffdingChecker, AdvancedHoeffdingChecker, ChiSquareChecker
sul = UserSUL()
eq = either(RandomWalkEqOracle(alphabet, sul, some_int(), some_bool()),
            RandomWordEqOracle(alphabet, sul, some_int(), some_int(), some_int(), some_bool()))


def mk_range():
    return {user(): user()}


def mk_pbs():
    return (user(), {user(): user()}, user())


run_stochastic_Lstar(alphabet, sul, eq, target_unambiguity=user(), min_rounds=some_int(), max_rounds=some_int(),
    automaton_type=either('mdp', 'smm'), strategy=either('classic', 'normal', 'chi2'),
    cex_processing=either(None, 'longest_prefix', 'rs'), samples_cex_strategy=either(None, 'bfs', 'random:200:0.3'),
    stopping_range_dict=either('strict', 'relaxed', build('input', mk_range)), custom_oracle=some_bool(),
    return_data=some_bool(), n_c=some_int(), n_resample=some_int(), print_level=@PL@)
run_stochastic_Lstar(alphabet, sul, eq, automaton_type=either('mdp', 'smm'),
    strategy=either(HoeffdingChecker(), AdvancedHoeffdingChecker(user(), some_bool()), ChiSquareChecker(user(), some_bool()),
                    UserDifference()),
    print_level=@PL@)
'''

LEARNERS_STOCH_PBS = LEARNERS_COMMON + '''
from aalpy.oracles import RandomWalkEqOracle, RandomWordEqOracle
sul = UserSUL()
eq = RandomWalkEqOracle(alphabet, sul, some_int(), some_bool())


def mk_pbs():
    return (user(), {user(): user()}, user())


run_stochastic_Lstar(alphabet, sul, eq, automaton_type=either('mdp', 'smm'),
    property_based_stopping=build('input', mk_pbs), print_level=@PL@)
'''

LEARNERS_PASSIVE = LEARNERS_COMMON + '''
from aalpy.learning_algs.deterministic_passive.active_RPNI import RandomWordSampler as RpniSampler
from aalpy.learning_algs.stochastic_passive.ActiveAleriga import RandomWordSampler as AlergiaSampler
from aalpy.learning_algs.stochastic_passive.CompatibilityChecker import HoeffdingCompatibility
from aalpy.learning_algs.general_passive.ScoreFunctionsGSM import ScoreCalculation
from aalpy.learning_algs.general_passive.Instrumentation import ProgressReport


def mk_alergia():
    return [[user(), (user(), user()), (user(), user())], [user(), (user(), user())]]


def mk_alergia_mc():
    return [[user(), user()], [user(), user()]]


def mk_list_labeled():
    return [((user(), user()), some_bool()), ((user(),), some_bool())]


labeled = build('input', mk_labeled)
labeled_l = build('input', mk_labeled_lists)
bools = build('input', mk_list_labeled)
io = build('input', mk_io)

for data in (labeled, labeled_l, bools):
    run_RPNI(data, either('dfa', 'moore'), algorithm=either('gsm', 'classic'),
         input_completeness=either(None, 'self_loop', 'sink_state'), print_info=@PI@)
run_RPNI(either(labeled, labeled_l), 'mealy', algorithm=either('gsm', 'classic'),
         input_completeness=either(None, 'self_loop', 'sink_state'), print_info=@PI@)
run_EDSM(either(labeled, bools), either('dfa', 'moore', 'mealy'), input_completeness=either(None, 'self_loop', 'sink_state'), print_info=@PI@)
run_k_tails(either(labeled, bools), either('dfa', 'moore', 'mealy'), some_int(), input_completeness=either(None, 'self_loop', 'sink_state'), print_info=@PI@)
run_PAPNI(bools, build('input', mk_vpa_alphabet), algorithm=either('gsm', 'classic', 'edsm'), print_info=@PI@)
run_active_RPNI(either(labeled, bools), UserSUL(), either(RpniSampler(some_int(), some_int(), some_int()), UserRpniSampler()), some_int(),
                either('dfa', 'moore', 'mealy'), print_info=@PI@)
run_Alergia(build('input', mk_alergia), 'mdp', some_int(), either(None, HoeffdingCompatibility(some_int()), UserChecker()), print_info=@PI@)
run_Alergia(build('input', mk_io), 'smm', some_int(), either(None, HoeffdingCompatibility(some_int()), UserChecker()), print_info=@PI@)
run_Alergia(build('input', mk_alergia_mc), 'mc', some_int(), either(None, HoeffdingCompatibility(some_int()), UserChecker()), print_info=@PI@)
run_Alergia_EDSM(build('input', mk_alergia), 'mdp', some_int(), print_info=@PI@)
run_Alergia_EDSM(build('input', mk_io), 'smm', some_int(), print_info=@PI@)
run_active_Alergia(build('input', mk_alergia), UserSUL(), either(AlergiaSampler(some_int(), some_int(), some_int()), UserAlergiaSampler()), some_int(),
                   some_int(), either(None, HoeffdingCompatibility(some_int()), UserChecker()), either('mdp', 'smm'), print_info=@PI@)


def user_fn(*args):
    return user()


run_GSM(either(labeled, io), output_behavior=either('moore', 'mealy'),
        transition_behavior=either('deterministic', 'nondeterministic', 'stochastic'),
        score_calc=either(None, ScoreCalculation(user_fn, user_fn)), pta_preprocessing=either(None, user),
        postprocessing=either(None, user), compatibility_on_pta=some_bool(), compatibility_on_futures=some_bool(),
        node_order=either(None, user_fn), consider_only_min_blue=some_bool(), depth_first=some_bool(),
        instrumentation=None, convert=some_bool(), data_format=either(None, 'io_traces', 'labeled_sequences'))
'''

INSPECT = '''
from verif import user, some_bool, some_int, either, build
from verif_models import *
from aalpy.utils import (save_automaton_to_file, visualize_automaton, mdp_2_prism_format, model_check_properties,
    compare_automata, generate_test_cases, statistical_model_checking, bisimilar, generate_input_output_data_from_automata,
    generate_input_output_data_from_vpa)
from aalpy.utils.ModelChecking import model_check_experiment, stop_based_on_confidence
from aalpy.utils.Sampling import (get_io_traces, get_labeled_sequences, get_data_from_input_sequence,
    sample_with_length_limits, sample_with_term_prob, get_complete_sample)
from aalpy.utils.HelperFunctions import mc_from_mdp, dfa_from_moore
from aalpy.oracles import RandomWalkEqOracle


def words():
    return [(user(), user()), [user()]]


def word():
    return [user(), user()]


def det(m, other):
    m.size
    m.is_input_complete()
    m.get_input_alphabet()
    m.get_state_by_id(user())
    str(m)
    save_automaton_to_file(m, user(), either('dot', 'string', 'pdf'), some_bool(), some_bool(), either(None, some_int()))
    visualize_automaton(m, user(), 'pdf', some_bool())
    m.save(user(), 'dot')
    m.visualize(user(), 'pdf', some_bool())
    a = build('arg', mk_alphabet)
    w = build('arg', word)
    ws = build('arg', words)
    m.execute_sequence(m.initial_state, w)
    m.get_shortest_path(m.states[0], m.states[1])
    m.is_strongly_connected()
    m.output_step(m.states[0], user())
    m.find_distinguishing_seq(m.states[0], m.states[1], a)
    m.compute_output_seq(m.states[0], w)
    m.is_minimal()
    m.compute_characterization_set(either(None, build('arg', words)), some_bool(), some_bool(), some_bool(), some_bool())
    m == other
    bisimilar(m, other, some_bool())
    compare_automata(m, other, some_int())
    for s in m.states:
        s.get_diff_state_transitions()
        s.get_same_state_transitions()
    get_io_traces(m, ws)
    get_labeled_sequences(m, ws)
    get_data_from_input_sequence(m, ws, 'io_sequences')
    get_data_from_input_sequence(m, ws, 'labeled_sequences')
    sample_with_length_limits(m, some_int(), some_int(), some_int(), include_outputs=some_bool())
    sample_with_term_prob(m, some_int(), some_int(), include_outputs=some_bool())
    sample_with_length_limits(a, some_int(), some_int(), some_int())
    get_complete_sample(m)
    generate_input_output_data_from_automata(m, some_int(), some_int(), some_int(), either('io_traces', 'labeled_sequences'))
    generate_test_cases(m, RandomWalkEqOracle(a, UserSUL()))
    m.to_state_setup()
    m.copy()
    m.__reduce__()


def common(m):
    m.size
    m.is_input_complete()
    m.get_input_alphabet()
    m.get_state_by_id(user())
    str(m)
    save_automaton_to_file(m, user(), either('dot', 'string', 'pdf'), some_bool(), some_bool(), either(None, some_int()))
    visualize_automaton(m, user(), 'pdf', some_bool())
    m.execute_sequence(m.initial_state, build('arg', word))
    get_io_traces(m, build('arg', words))
    get_labeled_sequences(m, build('arg', words))
    for s in m.states:
        s.get_diff_state_transitions()
        s.get_same_state_transitions()


def setup(m):
    m.to_state_setup()
    m.copy()
    m.__reduce__()


det(build('model', mk_dfa), build('model', mk_dfa))
det(build('model', mk_moore), build('model', mk_moore))
det(build('model', mk_mealy), build('model', mk_mealy))
dfa_from_moore(build('model', mk_moore))
mdp = build('model', mk_mdp)
smm = build('model', mk_smm)
mc = build('model', mk_mc)
onfsm = build('model', mk_onfsm)
ndmoore = build('model', mk_ndmoore)
sevpa = build('model', mk_sevpa)
vpa = build('model', mk_vpa)
common(mdp)
common(smm)
common(mc)
common(onfsm)
common(ndmoore)
common(sevpa)
common(vpa)
setup(mdp)
setup(smm)
setup(mc)
setup(onfsm)
setup(ndmoore)
setup(sevpa)
setup(vpa)
onfsm.outputs_on_input(user())
onfsm.states[0].get_transition(user(), either(None, user()))
smm.to_mdp()
mc_from_mdp(mdp, either(None, user()))
mdp_2_prism_format(mdp, user(), either(None, user()))
model_check_properties(mdp, user())
model_check_experiment(user(), build('arg', lambda: {user(): user()}), mdp)
stop_based_on_confidence(mdp, build('arg', lambda: (user(), {user(): user()}, user())), some_int())
stop_based_on_confidence(smm, build('arg', lambda: (user(), {user(): user()}, user())), some_int())
statistical_model_checking(mdp, build('arg', lambda: {user()}), some_int(), some_int())
statistical_model_checking(smm, build('arg', lambda: {user()}), some_int(), some_int())
statistical_model_checking(mc, build('arg', lambda: {user()}), some_int(), some_int())
sevpa.transform_access_string(either(None, sevpa.states[0]), either(None, build('arg', lambda: [(user(), user())])))
sevpa.get_error_state()
sevpa.get_allowed_call_transitions()
sevpa.get_accepting_words_bfs(some_int(), some_int())
sevpa.get_random_accepting_word(some_int(), some_int())
vpa.is_balanced(build('arg', word))
vpa.top()
vpa.generate_random_accepting_word(some_int(), some_int())
generate_input_output_data_from_vpa(vpa, some_int(), some_int(), either(None, some_int()))
generate_input_output_data_from_vpa(sevpa, some_int(), some_int(), either(None, some_int()))
'''

# the inspection operations that are not documented to touch files or external tools
INSPECT_PURE = '\n'.join(x for x in INSPECT.split('\n') if not any(w in x for w in (
    '    save_automaton_to_file(', '    visualize_automaton(', '.save(', '.visualize(', 'mdp_2_prism_format(mdp',
    'model_check_properties(mdp', 'model_check_experiment(user', 'stop_based_on_confidence(mdp',
    'stop_based_on_confidence(smm')))

LOAD = '''
from verif import user, some_bool, some_int, either, build
from aalpy.utils import load_automaton_from_file
load_automaton_from_file(user(), 'dfa', some_bool())
load_automaton_from_file(user(), 'mealy', some_bool())
load_automaton_from_file(user(), 'moore', some_bool())
load_automaton_from_file(user(), 'mdp', some_bool())
load_automaton_from_file(user(), 'smm', some_bool())
load_automaton_from_file(user(), 'onfsm', some_bool())
load_automaton_from_file(user(), 'mc', some_bool())
load_automaton_from_file(user(), 'ndmoore', some_bool())
load_automaton_from_file(user(), 'vpa', some_bool())
load_automaton_from_file(user(), 'sevpa', some_bool())
load_automaton_from_file(user(), user(), some_bool())
'''

STEP = '''
from verif import user, some_bool, some_int, either, build
from verif_models import *
from aalpy.SULs import AutomatonSUL


def go(m):
    m.reset_to_initial()
    m.step(user())
    m.step(None)
    s = AutomatonSUL(m)
    s.pre()
    s.step(user())
    s.step(None)
    s.post()
    s.query((user(), user()))


def go_to(m):
    go(m)
    m.step_to(user(), user())


go(build('model', mk_dfa))
go(build('model', mk_moore))
go(build('model', mk_mealy))
go_to(build('model', mk_mdp))
go_to(build('model', mk_smm))
mc = build('model', mk_mc)
go(mc)
mc.step_to(user())
go_to(build('model', mk_onfsm))
go(build('model', mk_ndmoore))
go(build('model', mk_sevpa))
go(build('model', mk_vpa))
'''

TOOLS = '''
from verif import user, some_bool, some_int, either, build
from verif_models import *
from aalpy.SULs import AutomatonSUL, RegexSUL, TomitaSUL, PyClassSUL, FunctionDecorator
from aalpy.base.SUL import CacheSUL
from aalpy.base.CacheTree import CacheTree, CacheDict
from aalpy.utils import *
from aalpy.utils.HelperFunctions import *
from aalpy.utils.AutomatonGenerators import *
from aalpy.utils.BenchmarkSULs import *
from aalpy.utils.BenchmarkVpaModels import get_all_VPAs, gen_arithmetic_data, vpa_json
from aalpy.utils.BenchmarkSevpaModels import sevpa_for_L1


def use(s):
    s.pre()
    s.step(user())
    s.step(None)
    s.post()
    s.query((user(), user()))
    s.query(())
    s.adaptive_query((user(),), user())


class Klass:
    def __init__(self):
        self.x = user()

    def m(self):
        return user()


use(AutomatonSUL(build('model', mk_mealy)))
use(RegexSUL(user()))
use(TomitaSUL(user()))
use(PyClassSUL(Klass))
use(CacheSUL(UserSUL(), 'tree'))
use(CacheSUL(UserSUL(), 'dict'))
FunctionDecorator(user, user())
FunctionDecorator(user)
t = either(CacheTree(), CacheDict())
t.reset()
t.step_in_cache(user(), user())
t.in_cache((user(),))
t.add_to_cache((user(),), (user(),))

generate_random_deterministic_automata(either('dfa', 'mealy', 'moore'), some_int(), some_int(), some_int(), some_bool())
generate_random_mealy_machine(some_int(), build('input', mk_alphabet), build('input', mk_alphabet), some_bool(), some_bool())
generate_random_moore_machine(some_int(), build('input', mk_alphabet), build('input', mk_alphabet), some_bool(), some_bool())
generate_random_dfa(some_int(), build('input', mk_alphabet), some_int(), some_bool(), some_bool())
generate_random_mdp(some_int(), some_int(), some_int(), either(None, build('input', mk_alphabet)))
generate_random_smm(some_int(), some_int(), some_int(), either(None, build('input', mk_alphabet)))
generate_random_ONFSM(some_int(), some_int(), some_int(), some_int())
generate_random_markov_chain(some_int())
generate_random_sevpa(some_int(), some_int(), some_int(), some_int(), some_int(), some_int())
convert_i_o_traces_for_RPNI(build('input', mk_io), either('mealy', 'moore', 'dfa'))
mc_format_to_mdp(build('input', mk_words))
is_balanced(build('input', mk_alphabet), build('input', lambda: VpaAlphabet([user()], [user()], [user()])))
'''

# further public helpers: benchmark models and systems, scores of state merging, loaders of sequences, abstract samplers
MISC = LEARNERS_COMMON + '''
from verif_models import *
from aalpy.utils.BenchmarkSULs import *
from aalpy.utils import BenchmarkVpaModels as BV
from aalpy.utils import BenchmarkSevpaModels as BS
from aalpy.utils.HelperFunctions import profile_function, random_string_generator, product_with_possible_empty_iterable
from aalpy.utils.ModelChecking import get_properties_file, get_correct_prop_values
from aalpy.learning_algs.general_passive.ScoreFunctionsGSM import *
from aalpy.learning_algs.general_passive.Instrumentation import MergeViolationDebugger
from aalpy.learning_algs.general_passive.GsmNode import GsmNode
from aalpy.learning_algs.deterministic_passive.active_RPNI import RpniActiveSampler
from aalpy.learning_algs.stochastic_passive.ActiveAleriga import Sampler
from aalpy.learning_algs.stochastic.DifferenceChecker import HoeffdingChecker
from aalpy.SULs import AutomatonSUL


def use(s):
    s.pre()
    s.step(user())
    s.step(None)
    s.post()
    s.query((user(), user()))
    s.io_query((user(), user()))


def run_model(m):
    m.reset_to_initial()
    m.step(user())

run_model(get_Angluin_dfa())
run_model(get_benchmark_ONFSM())
run_model(get_ONFSM())
run_model(get_faulty_coffee_machine_MDP())
run_model(get_weird_coffee_machine_MDP())
run_model(get_faulty_coffee_machine_SMM())
run_model(get_minimal_faulty_coffee_machine_SMM())
run_model(get_faulty_mqtt_SMM())
run_model(get_small_gridworld())
run_model(get_small_pomdp())
use(get_balanced_string_sul(build('input', lambda: {user(): user()}), some_bool()))
mq = MockMqttExample()
mq.connect()
mq.subscribe(user())
mq.unsubscribe(user())
mq.publish(user())
mq.disconnect()
DateValidator().is_date_accepted(user())
run_model(BV.vpa_L1())
run_model(BV.vpa_L2())
run_model(BV.vpa_for_L3())
run_model(BV.vpa_L3())
run_model(BV.vpa_L4())
run_model(BV.vpa_L6())
run_model(BV.vpa_L8())
run_model(BV.vpa_L9())
run_model(BV.vpa_L10())
run_model(BV.vpa_L11())
run_model(BV.vpa_L12())
run_model(BV.vpa_for_L16())
run_model(BV.vpa_for_odd_parentheses())
run_model(BV.vpa_for_even_parentheses())
run_model(BV.vpa_json())
run_model(BS.sevpa_for_L1())
run_model(BS.sevpa_for_L2())
run_model(BS.sevpa_for_L3())
run_model(BS.sevpa_for_L4())
run_model(BS.sevpa_for_L5())
run_model(BS.sevpa_for_L7())
run_model(BS.sevpa_for_L8())
run_model(BS.sevpa_for_L9())
run_model(BS.sevpa_for_L10())
run_model(BS.sevpa_for_L11())
run_model(BS.sevpa_for_L12())
run_model(BS.sevpa_for_L13())
run_model(BS.sevpa_for_L14())
run_model(BS.sevpa_for_L15())
BV.gen_arithmetic_data(some_int(), some_int(), some_int())
use(BV.ArithmeticSUL())
random_string_generator(some_int(), user())
product_with_possible_empty_iterable(build('input', mk_alphabet), repeat=some_int())
get_properties_file(user())
get_correct_prop_values(user())


def user_fn(*args):
    return user()


class MySampler(RpniActiveSampler):
    def sample(self, sul, model):
        return [((user(),), user())]


class MyStochasticSampler(Sampler):
    def sample(self, sul, model):
        return [[user(), (user(), user())]]


run_active_RPNI(build('input', mk_labeled), UserSUL(), MySampler(), some_int(), either('dfa', 'moore', 'mealy'), print_info=@PI@)
run_active_Alergia(build('input', lambda: [[user(), (user(), user())]]), UserSUL(), MyStochasticSampler(), some_int(), some_int(), None,
                   either('mdp', 'smm'), print_info=@PI@)


def merge(sc, ob):
    return run_GSM(build('input', mk_labeled), output_behavior=ob, transition_behavior='deterministic', score_calc=sc)


merge(ScoreWithSinks(ScoreCalculation(None, EDSM_score(some_int())), user_fn, some_bool()), 'moore')
merge(ScoreCombinator([ScoreCalculation(None, EDSM_frequency_score(some_int())), ScoreCalculation(user_fn, user_fn)]), 'mealy')
merge(ScoreCalculation(None, AIC_score(some_int())), 'moore')
merge(ScoreCalculation(None, local_to_global_compatibility(user_fn)), 'moore')
merge(make_greedy(ScoreCalculation(None, EDSM_score(some_int()))), 'mealy')
lower_threshold(user_fn, some_int())(user())
ScoreCalculation(user_fn, user_fn).has_local_compatibility()


def truth():
    return GsmNode.createPTA(mk_labeled(), 'moore', 'labeled_sequences')


mk_dfa().minimize()
mk_moore().minimize()
mk_mealy().minimize()
pta = truth()
pta.is_tree()
pta.get_root()
pta.get_by_prefix((user(),))
pta.count()
run_GSM(build('input', mk_labeled), output_behavior='moore', transition_behavior='deterministic',
        instrumentation=MergeViolationDebugger(truth()))
'''

# documented to read files or to run external programs
EXTERNAL = '''
from verif import user, some_bool, some_int, either, build
from aalpy.learning_algs import run_JAlergia
from aalpy.utils import CharacterTokenizer, DelimiterTokenizer, IODelimiterTokenizer
from aalpy.learning_algs.general_passive.GsmNode import GsmNode
run_JAlergia(either(user(), build('input', lambda: [[user(), user()]])), either('mdp', 'mc', 'smm'), user(), user(), user())
CharacterTokenizer().tokenize_data(user())
DelimiterTokenizer().tokenize_data(user(), user())
IODelimiterTokenizer().tokenize_data(user(), user(), user())
GsmNode.createPTA([((user(), user()), user())], 'moore', 'labeled_sequences').visualize(user(), 'moore')
'''
