import os, runpy
REC = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'batch1.py'))['REC']
D = 'learning_algs/deterministic/'

B = [
dict(id='c08-size-stop', property='C08', file=D + 'LStar.py',
     reps=[("        # If no counterexample is found, return the hypothesis\n        if cex is None:\n            break",
            "        # If no counterexample is found, return the hypothesis\n        if cex is None or (cex_processing is None and len(hypothesis.states) > 24):\n            break")],
     needs='a system with more than 24 states, no counterexample processing', what='a hypothesis refuted by the oracle is returned',
     demo=REC + """
from aalpy.learning_algs import run_Lstar
from aalpy.base import Oracle
n = 60
st = [MealyState(f's{i}') for i in range(n)]
for i, s in enumerate(st):
    s.transitions['a'], s.output_fun['a'] = st[(i + 1) % n], i % 7 if i < 40 else (i * i) % 5
    s.transitions['b'], s.output_fun['b'] = st[(i * 3 + 1) % n], i == n - 1
sysm = MealyMachine(st[0], st)
last = []
class Cmp(Oracle):
    def find_cex(self, hyp):
        cex = None
        for t in range(3000):
            r = random.Random(t)
            w = ['a' if r.random() < .9 else 'b' for _ in range(1 + t // 30)]
            if hyp.execute_sequence(hyp.initial_state, w) != sysm.execute_sequence(sysm.initial_state, w):
                cex = w
                break
        last.append((hyp, cex))
        return cex
from aalpy.SULs import AutomatonSUL
sul = AutomatonSUL(sysm)
m = run_Lstar(['a', 'b'], sul, Cmp(['a', 'b'], sul), 'mealy', cex_processing=None, print_level=0)
assert len(last) > 1 and last[-1][1] is None and len(m.states) == len(last[-1][0].states), (len(last), len(m.states))
"""),
dict(id='c11-set-rows', property='C11', file='utils/HelperFunctions.py',
     reps=[("    added_elements = [s for s in new_elements if s not in set_repr]\n",
            "    added_elements = list(set(new_elements) - set_repr)\n")],
     needs='two processes with different hash seeds', what='the order of the queries depends on hashing',
     demo="""
import subprocess, sys, os
prog = '''
import random
random.seed(3)
from aalpy.base import SUL
from aalpy.automata import *
from aalpy.learning_algs import run_Lstar
from aalpy.oracles import RandomWalkEqOracle
n, alph = 9, ['left', 'right', 'up']
st = [MealyState('s%d' % i) for i in range(n)]
for i, s in enumerate(st):
    for j, a in enumerate(alph):
        s.transitions[a] = st[(i * 2 + j) % n]
        s.output_fun[a] = 'x' if i == 7 and j == 0 else 'y'
m = MealyMachine(st[0], st)
class Rec(SUL):
    log = []
    def pre(self): m.reset_to_initial(); self.log.append('|')
    def post(self): pass
    def step(self, a): self.log.append(a); return m.step(a)
sul = Rec()
run_Lstar(alph, sul, RandomWalkEqOracle(alph, sul, 3000, reset_prob=.1), 'mealy', cex_processing=None, print_level=0)
print(len(sul.log), ' '.join(sul.log))
'''
outs = {subprocess.run([sys.executable, '-c', prog], env=dict(os.environ, PYTHONHASHSEED=str(i)), capture_output=True,
                       text=True).stdout for i in range(1, 7)}
assert len(outs) == 1 and '' not in outs, len(outs)
"""),
dict(id='c15-moore-loops', property='C15', file='automata/MooreMachine.py',
     reps=[("{k: v.state_id for k, v in s.transitions.items()})", "{k: v.state_id for k, v in s.transitions.items() if v is not s})"),
           ("                state.transitions[_input] = states[target_state_id]\n",
            "                state.transitions[_input] = states[target_state_id]\n"
            "            # self loops are not listed\n"
            "            for _input in next(iter(state_setup.values()))[1]:\n"
            "                state.transitions.setdefault(_input, state)\n")],
     needs='an input on which the initial state has a self loop', what='transitions are lost by copying',
     demo=REC + """
def moore(loop):
    st = [MooreState(f's{i}', i % 2) for i in range(4)]
    for i, s in enumerate(st):
        s.transitions['a'] = st[(i + 1) % 4]
        s.transitions['b'] = st[0] if i != loop else s
        s.transitions['c'] = st[(i + 2) % 4]
    return MooreMachine(st[0], st)
m = moore(0)
c = m.copy()
assert [sorted(s.transitions) for s in c.states] == [['a', 'b', 'c']] * 4
for w in ('ab', 'acbca', 'bbba', 'abcabc'):
    assert c.execute_sequence(c.initial_state, w) == m.execute_sequence(m.initial_state, w)
"""),
dict(id='c16-tiny-prob', property='C16', file='utils/FileHandler.py',
     reps=[("        source.transitions[inp].append((destination, out, float(prob)))\n",
            "        if round(float(prob), 4):\n            source.transitions[inp].append((destination, out, float(prob)))\n")],
     needs='a stochastic Mealy machine with a transition of very small probability', what='the transition is lost by loading',
     demo=REC + """
import tempfile, os, io, contextlib
from aalpy.utils import load_automaton_from_file, save_automaton_to_file
a, b = StochasticMealyState('a'), StochasticMealyState('b')
for s in (a, b):
    s.transitions['x'] = [(a, 'o', 0.99999), (b, 'p', 0.00001)]
m = StochasticMealyMachine(a, [a, b])
d = tempfile.mkdtemp()
p = os.path.join(d, 'm.dot')
try:
    with contextlib.redirect_stdout(io.StringIO()):
        save_automaton_to_file(m, p, 'dot')
        l = load_automaton_from_file(p, 'smm')
finally:
    for f in os.listdir(d): os.remove(os.path.join(d, f))
    os.rmdir(d)
got = {s.state_id: [(t.state_id, o, pr) for t, o, pr in s.transitions['x']] for s in l.states}
assert got == {k: [('a', 'o', 0.99999), ('b', 'p', 0.00001)] for k in 'ab'}, got
"""),
dict(id='c19-unknown-method', property='C19', file='oracles/kWayTransitionCoverageEqOracle.py',
     reps=[("        assert method in ['random', 'prefix']\n", "        assert isinstance(method, str)\n")],
     needs='a misspelt method name', what='an undocumented value is accepted and no test is executed at all',
     demo=REC + """
from aalpy.oracles import KWayTransitionCoverageEqOracle
sul = Rec(mealy(3, 'ab', lambda i, a: i))
try:
    KWayTransitionCoverageEqOracle(['a', 'b'], sul, k=2, method='prefixes').find_cex(mealy(3, 'ab', lambda i, a: 'x'))
except Exception:
    pass
else:
    raise SystemExit('accepted')
"""),
dict(id='c20-lsharp-sum', property='C20', file=D + 'LSharp.py',
     reps=[("        'steps_learning': sul.num_steps,\n", "        'steps_learning': sul.num_steps - eq_oracle.num_steps,\n")],
     needs='comparing the reported number of learning steps with the steps executed', what='steps of learning are under-reported',
     demo=REC + """
from aalpy.learning_algs import run_Lsharp
from aalpy.oracles import RandomWordEqOracle
sysm = mealy(5, 'ab', lambda i, a: i == 3)
sul = Rec(sysm)
eo = RandomWordEqOracle(['a', 'b'], sul, num_walks=50)
m, info = run_Lsharp(['a', 'b'], sul, eo, 'mealy', return_data=True, print_level=0, cache_and_non_det_check=False)
total = sum(len(t) for t in sul.traces)
assert info['steps_learning'] + info['steps_eq_oracle'] == total, (info, total)
"""),
dict(id='c21-smm-output', property='C21', file='automata/StochasticMealyMachine.py',
     reps=[("        self.current_state = transition[0]\n        return transition[1]\n",
            "        self.current_state = transition[0]\n        return next(t[1] for t in transitions if t[0] is self.current_state)\n")],
     needs='two transitions for one input that lead to the same state with different outputs',
     what='the output of another transition is returned',
     demo=REC + """
a, b = StochasticMealyState('a'), StochasticMealyState('b')
a.transitions['x'] = [(b, 'o', 0.5), (b, 'p', 0.5)]
b.transitions['x'] = [(a, 'q', 1.0)]
m = StochasticMealyMachine(a, [a, b])
seen = set()
for _ in range(300):
    m.reset_to_initial()
    seen.add(m.step('x'))
assert seen == {'o', 'p'}, seen
"""),
dict(id='c22-tomita-reset', property='C22', file='SULs/TomitaSUL.py',
     reps=[("    def pre(self):\n        self.string = \"\"\n        pass\n", "    def pre(self):\n        # the word is cleared by post\n        pass\n")],
     needs='a session that was not closed before the next reset (an interrupted query)',
     what='the word of the interrupted session is continued',
     demo="""
from aalpy.SULs import TomitaSUL
s = TomitaSUL(4)
s.pre(); s.step('0'); s.step('0')
s.pre()
assert s.step('0') is True and s.query(('0', '0')) == [True, True]
"""),
dict(id='c23-rpni-falsy', property='C23', file='learning_algs/deterministic_passive/rpni_helper_functions.py',
     reps=[("= r.output[i] if i in r.output else None\n", "= r.output.get(i) or None\n")],
     needs='a Mealy machine with an output that is 0, empty or False', what='falsy outputs are lost in the learned model',
     demo=REC + """
from aalpy.learning_algs import run_RPNI
data = []
for w in ('a', 'b', 'ab', 'ba', 'aab', 'bba', 'aabb', 'abab'):
    n = 0
    for i, c in enumerate(w):
        o = n % 2
        n += c == 'a'
        data.append((tuple(w[:i + 1]), o))
m = run_RPNI(data, 'mealy', print_info=False)
outs = {o for s in m.states for o in s.output_fun.values()}
assert outs == {0, 1}, outs
"""),
dict(id='c24-rare-output', property='C24', file='learning_algs/stochastic/SamplingBasedObservationTable.py',
     reps=[("                        for output, frequency in freq_dict.items():\n                            new_state = self.get",
            "                        for output, frequency in freq_dict.items():\n                            if frequency < total_sum * 0.02:\n"
            "                                continue\n                            new_state = self.get")],
     needs='an output observed in less than two percent of the samples of a cell', what='its transition is missing and the '
     'probabilities of the state do not sum to one',
     demo=REC + """
from aalpy.learning_algs import run_stochastic_Lstar
from aalpy.oracles import RandomWordEqOracle
a, b = MdpState('a', 'A'), MdpState('b', 'B')
a.transitions['x'] = [(a, 0.985), (b, 0.015)]
b.transitions['x'] = [(a, 0.985), (b, 0.015)]
m = Mdp(a, [a, b])
from aalpy.SULs import AutomatonSUL
sul = AutomatonSUL(m)
h = run_stochastic_Lstar(['x'], sul, RandomWordEqOracle(['x'], sul, 50), automaton_type='mdp', min_rounds=5, max_rounds=12, print_level=0)
for s in h.states:
    for i, ts in s.transitions.items():
        assert abs(sum(p for _, p in ts) - 1) < 1e-9, (s.state_id, ts)
"""),
dict(id='c06-cached-steps', property='C06', file='base/SUL.py',
     reps=[("            self.num_cached_queries += 1\n            return cached_query\n",
            "            self.num_cached_queries += 1\n            self.num_steps += len(word)\n            return cached_query\n")],
     needs='a query that is answered from the cache', what='steps are counted although none was executed',
     demo=REC + """
from aalpy.base.SUL import CacheSUL
r = Rec(mealy(3, 'ab', lambda i, a: i))
c = CacheSUL(r)
c.query(('a', 'b', 'a')); c.query(('a', 'b')); c.query(('a', 'b', 'a'))
assert c.num_cached_queries == 2 and c.num_queries == 1 and c.num_steps == 3, (c.num_cached_queries, c.num_queries, c.num_steps)
"""),
dict(id='c07-dict-types', property='C07', file='base/CacheTree.py',
     reps=[("            if cache_output != out:\n                expected", "            if type(cache_output) is type(out) and cache_output != out:\n                expected")],
     needs='the dictionary cache and contradicting outputs of different types', what='the contradiction is not reported',
     demo="""
from aalpy.base.CacheTree import CacheDict
c = CacheDict()
c.add_to_cache(('a', 'b'), (1, 2))
try:
    c.add_to_cache(('a', 'b'), (1, 'timeout'))
except BaseException:
    pass
else:
    raise SystemExit('not reported')
"""),
dict(id='c18-kv-lookup', property='C18', file=D + 'KV.py',
     reps=[("    # Perform an equivalence query on this automaton\n    eq_query_start = time.time()\n    cex = eq_oracle.find_cex(hypothesis)\n\n",
            "    # Perform an equivalence query on this automaton\n    eq_query_start = time.time()\n    try:\n"
            "        cex = eq_oracle.find_cex(hypothesis)\n    except LookupError:  # nothing to compare\n        cex = None\n\n")],
     needs='a system that raises a KeyError or IndexError while it is tested', what='the error of the system becomes "no counterexample"',
     demo=REC + """
from aalpy.learning_algs import run_KV
from aalpy.oracles import RandomWordEqOracle
class Boom(SUL):
    def pre(self): self.n = 0
    def post(self): pass
    def step(self, a):
        self.n += 1
        if self.n > 4: raise KeyError('connection lost')
        return 'x'
s = Boom()
try:
    run_KV(['a', 'b'], s, RandomWordEqOracle(['a', 'b'], s, num_walks=50), 'mealy', print_level=0)
except KeyError:
    pass
else:
    raise SystemExit('swallowed')
"""),
dict(id='c13-path-fill', property='C13', file='base/Automaton.py',
     reps=[("                neighbours = node.transitions.values()\n",
            "                neighbours = [node.transitions.setdefault(a, node) for a in self.get_input_alphabet()]\n")],
     needs='an automaton that is not input complete', what='asking for a path adds transitions',
     demo=REC + """
st = [DfaState(f's{i}', i == 2) for i in range(3)]
st[0].transitions['a'] = st[1]
st[1].transitions['b'] = st[2]
m = Dfa(st[0], st)
assert m.get_shortest_path(st[0], st[2]) == ('a', 'b')
assert [list(s.transitions) for s in st] == [['a'], ['b'], []], [list(s.transitions) for s in st]
"""),
]
