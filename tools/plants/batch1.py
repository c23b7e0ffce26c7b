RB = 'learning_algs/'
REC = '''
import random
random.seed(1)
from aalpy.base import SUL
from aalpy.automata import *
class Rec(SUL):
    """runs a model, keeps the session in the open and the trace of each session"""
    def __init__(self, m):
        super().__init__()
        self.m, self.traces, self.open, self.bad = m, [], False, []
    def pre(self):
        if self.open: self.bad.append('pre while open')
        self.open = True
        self.traces.append([]); self.m.reset_to_initial()
    def post(self):
        self.open = False
    def step(self, a):
        if not self.open: self.bad.append('step while closed')
        o = self.m.step(a)
        if a is not None: self.traces[-1].append(a)
        return o
def mealy(n, alph, out, ini=0):
    st = [MealyState(f's{i}') for i in range(n)]
    for i, s in enumerate(st):
        for j, a in enumerate(alph):
            s.transitions[a] = st[(i + j) % n]
            s.output_fun[a] = out(i, a)
    for s in st: pass
    m = MealyMachine(st[ini], st)
    for s in st: s.prefix = m.get_shortest_path(m.initial_state, s)
    return m
'''

B = [
dict(id='c01-prefix-lost', property='C01', file='oracles/StatePrefixEqOracle.py',
     reps=[('                    return prefix + suffix\n', '                    return (prefix + suffix) if len(suffix) > 1 else suffix\n')],
     needs='the difference shows at the first input after a non-empty prefix',
     what='the executed prefix is missing from the counterexample',
     demo=REC + """
from aalpy.oracles import StatePrefixEqOracle
hyp = mealy(3, 'ab', lambda i, a: 'x')
sysm = mealy(3, 'ab', lambda i, a: 'y' if i == 2 else 'x')
for seed in range(20):
    random.seed(seed)
    sul = Rec(sysm)
    cex = StatePrefixEqOracle(['a', 'b'], sul, walks_per_state=3, walk_len=4).find_cex(hyp)
    assert cex is not None and list(cex) == sul.traces[-1], (cex, sul.traces[-1])
"""),
dict(id='c02-stoch-nopost', property='C02', file='oracles/RandomWordEqOracle.py',
     reps=[("""                elif out_hyp is None and self.automata_type != 'det':
                    self.sul.post()

""", """                elif out_hyp is None and self.automata_type != 'det':
                    if self.reset_after_cex:
                        self.sul.post()

""")],
     needs='a stochastic or non-deterministic hypothesis and reset_after_cex=False',
     what='the session is still open when the counterexample is returned',
     demo=REC + """
from aalpy.oracles import RandomWordEqOracle
def smm(o):
    s = StochasticMealyState('q0'); s.transitions['a'].append((s, o, 1.0))
    return StochasticMealyMachine(s, [s])
for r in (True, False):
    sul = Rec(smm('y'))
    cex = RandomWordEqOracle(['a'], sul, num_walks=5, reset_after_cex=r).find_cex(smm('x'))
    assert cex == ['a', 'y'] and not sul.open, (r, sul.open)
"""),
dict(id='c04-upfront', property='C04', file='oracles/WMethodEqOracle.py',
     reps=[("""            for ind, i in enumerate(test_case):
                output_hyp = hypothesis.step(i)
                output_sul = self.sul.step(i)
                self.num_steps += 1
""", """            self.num_steps += len(test_case)
            for ind, i in enumerate(test_case):
                output_hyp = hypothesis.step(i)
                output_sul = self.sul.step(i)
""")],
     needs='a counterexample found before the last input of a test', what='inputs that were never executed are counted',
     demo=REC + """
from aalpy.oracles import RandomWMethodEqOracle
hyp = mealy(3, 'ab', lambda i, a: 'x')
sysm = mealy(3, 'ab', lambda i, a: 'y' if (i, a) == (2, 'b') else i)
hyp2 = mealy(3, 'ab', lambda i, a: i)
for seed in range(10):
    random.seed(seed)
    sul = Rec(sysm)
    o = RandomWMethodEqOracle(['a', 'b'], sul)
    cex = o.find_cex(hyp2)
    n = sum(map(len, sul.traces))
    assert cex is not None and o.num_steps == n, (o.num_steps, n)
"""),
dict(id='c03-sort-states', property='C03', file='oracles/StatePrefixEqOracle.py',
     reps=[("        states_to_cover = []\n", "        states_to_cover = []\n        if self.depth_first and self.max_tests:\n            # newest states first\n            hypothesis.states.sort(key=lambda s: len(s.prefix or ()), reverse=True)\n")],
     needs='depth_first together with max_tests', what='the list of states of the hypothesis is reordered',
     demo=REC + """
from aalpy.oracles import StatePrefixEqOracle
hyp = mealy(4, 'ab', lambda i, a: 'x')
before = list(hyp.states)
for kw in ({}, dict(max_tests=3), dict(depth_first=False)):
    StatePrefixEqOracle(['a', 'b'], Rec(mealy(4, 'ab', lambda i, a: 'x')), **kw).find_cex(hyp)
    assert hyp.states == before
"""),
dict(id='c05-probe', property='C05', file='base/SUL.py',
     reps=[("""                if outputs_received:
                    last_output = outputs_received[-1]
                else:
                    last_output = self.step(None)
""", """                last_output = self.step(None)
""")],
     needs='an adaptive query with a non-empty prefix on a model whose state output is probed',
     what='an additional probe step is applied to the system in the middle of the query',
     demo=REC + """
class Ads:
    def __init__(self): self.l = [tuple(), 'b', None]
    def next_input(self, o): return self.l.pop(0)
calls = []
class S(Rec):
    def step(self, a):
        calls.append(a); return super().step(a)
s = S(mealy(3, 'ab', lambda i, a: i))
s.m.step = lambda a: 0 if a is None else a
w, outs = s.adaptive_query(['a', 'a'], Ads())
assert calls == ['a', 'a', 'b'], calls
"""),
dict(id='c06-none-output', property='C06', file='base/SUL.py',
     reps=[("""        self.cache.step_in_cache(letter, out)
        return out
""", """        if out is not None:
            self.cache.step_in_cache(letter, out)
        return out
""")],
     needs='a system that answers an input with None during an equivalence test',
     what='the position in the cache does not move, later pairs are recorded at the wrong position',
     demo=REC + """
from aalpy.base.SUL import CacheSUL
sul = Rec(mealy(3, 'ab', lambda i, a: None if a == 'b' else i))
c = CacheSUL(sul)
c.pre()
for x in 'baba': c.step(x)
c.post()
assert c.cache.in_cache(('b', 'a', 'b', 'a')) == (None, 1, None, 2), c.cache.in_cache(('b', 'a', 'b', 'a'))
assert c.cache.in_cache(('a',)) is None
"""),
dict(id='c07-falsy', property='C07', file='base/CacheTree.py',
     reps=[("            if node.value != out:\n                expected_seq = self.outputs[:-1]", "            if node.value and node.value != out:\n                expected_seq = self.outputs[:-1]")],
     needs='a stored output that is falsy (False, 0, empty string) and a different one now',
     what='contradicting observations are not reported',
     demo="""
from aalpy.base.CacheTree import CacheTree
for a, b in ((True, False), (False, True), (1, 0), (0, 1), ('', 'x')):
    c = CacheTree()
    c.add_to_cache(('i', 'j'), ('k', a))
    try:
        c.add_to_cache(('i', 'j'), ('k', b))
    except SystemExit:
        continue
    raise AssertionError((a, b))
"""),
dict(id='c09-ads-print', property='C09', file='learning_algs/deterministic/LSharp.py',
     reps=[("        if print_level > 2:\n            print(f'Counterexample: {cex}')", "        if print_level > 2 or cex is not None and len(cex) > 30:\n            print(f'Counterexample: {cex}')")],
     needs='a counterexample with more than thirty inputs', what='prints with print_level 0',
     demo=REC + """
import io, contextlib
from aalpy.learning_algs import run_Lsharp
class O:
    num_queries = num_steps = 0
    def __init__(self): self.n = 0
    def find_cex(self, h):
        self.n += 1
        return ('a',) * 31 + ('b', 'b', 'b') if self.n == 1 else None
s = mealy(3, 'ab', lambda i, a: 'y' if i == 2 else 'x')
for kw in ({}, dict(return_data=True)):
    f = io.StringIO()
    with contextlib.redirect_stdout(f), contextlib.redirect_stderr(f):
        run_Lsharp(['a', 'b'], Rec(s), O(), 'mealy', print_level=0, **kw)
    assert f.getvalue() == '', f.getvalue()
"""),
dict(id='c10-samples', property='C10', file='learning_algs/deterministic/LStar.py',
     reps=[("""            for input_seq, output_seq in samples:
                sul.cache""", """            samples.sort(key=lambda s: len(s[0]))
            for input_seq, output_seq in samples:
                sul.cache""")],
     needs='samples given in another order than by length', what='the list of samples of the caller is sorted',
     demo=REC + """
from aalpy.learning_algs import run_Lstar
from aalpy.oracles import RandomWordEqOracle
sam = [(('a', 'a'), (0, 1)), (('a',), (0,))]
m = mealy(3, 'ab', lambda i, a: 0 if a == 'b' else (1 if i else 0))
sul = Rec(m)
sam = [(tuple(w), tuple(sul.query(tuple(w)))) for w in ('bbb', 'b', 'ab')]
before = list(sam)
run_Lstar(['a', 'b'], sul, RandomWordEqOracle(['a', 'b'], sul, 20), 'mealy', samples=sam, print_level=0)
assert sam == before
"""),
dict(id='c12-shared-cache', property='C12', file='base/CacheTree.py',
     reps=[("""    def __init__(self):
        self.cache_dict = dict()
        self.inputs = ()
""", """    cache_dict = dict()

    def __init__(self):
        self.inputs = ()
""")],
     needs='two dictionary caches in the same process', what='the second cache answers with outputs of the first system',
     demo=REC + """
from aalpy.base.SUL import CacheSUL
for k in range(2):
    c = CacheSUL(Rec(mealy(3, 'ab', lambda i, a: (k, i))), cache_type='dict')
    assert list(c.query(('b', 'b'))) == [(k, 0), (k, 1)]
    assert c.num_cached_queries == 0
"""),
dict(id='c13-outseq', property='C13', file='base/Automaton.py',
     reps=[("""        state_save = self.current_state
        output = self.execute_sequence(state, sequence)
        self.current_state = state_save
        return output
""", """        if state is self.current_state:
            return self.execute_sequence(state, sequence)
        state_save = self.current_state
        output = self.execute_sequence(state, sequence)
        self.current_state = state_save
        return output
""")],
     needs='the query starts in the current state', what='the query moves the current position',
     demo=REC + """
m = mealy(3, 'ab', lambda i, a: i)
for st in m.states:
    m.reset_to_initial(); m.step('b')
    cur = m.current_state
    m.compute_output_seq(st, ('b', 'b'))
    assert m.current_state is cur
"""),
dict(id='c14-stack', property='C14', file='automata/Vpa.py',
     reps=[("""        self.current_state = self.initial_state
        self.stack = []

    def top""", """        if self.current_state == Vpa.error_state:
            self.current_state = self.initial_state
            return
        self.current_state = self.initial_state
        self.stack = []

    def top""")],
     needs='a reset after a word that ended in the error state with a non-empty stack',
     what='the stack is not empty after the reset',
     demo="""
from aalpy.automata import Vpa
v = Vpa.from_state_setup({'q0': (False, {'(': [('q1', 'push', '(')]}),
                          'q1': (True, {'(': [('q1', 'push', '(')], ')': [('q1', 'pop', '(')]})}, init_state_id='q0')
for w in ('(', '()', ')', '(x', '((x'):
    v.reset_to_initial()
    for x in w: v.step(x)
    v.reset_to_initial()
    assert v.stack == [] and v.current_state is v.initial_state, w
    assert v.step('(') is False and v.step(')') is True
"""),
dict(id='c17-reclimit', property='C17', file='learning_algs/stochastic_passive/Alergia.py',
     reps=[("        self.fpta = create_fpta(data, automaton_type)\n", "        longest = max((len(d) for d in data), default=0)\n        if longest > 500:\n            import sys\n            sys.setrecursionlimit(max(sys.getrecursionlimit(), 4 * longest))\n        self.fpta = create_fpta(data, automaton_type)\n")],
     needs='a training sequence with more than 500 elements', what='changes the recursion limit of the process',
     demo="""
import sys
from aalpy.learning_algs import run_Alergia
before = sys.getrecursionlimit()
for n in (5, 300, 600):
    try:
        run_Alergia([['a', 'b'] * (n // 2)], automaton_type='mc')
    except RecursionError:
        pass
assert sys.getrecursionlimit() == before
"""),
dict(id='c18-swallow', property='C18', file='learning_algs/deterministic/CounterExampleProcessing.py',
     reps=[("""    cex_outputs = sul.query(cex)
    hyp_outputs = hypothesis.execute_sequence(hypothesis.initial_state, cex)
    return cex_outputs[-1] == hyp_outputs[-1]
""", """    try:
        cex_outputs = sul.query(cex)
        hyp_outputs = hypothesis.execute_sequence(hypothesis.initial_state, cex)
        return cex_outputs[-1] == hyp_outputs[-1]
    except (KeyError, IndexError):
        # not executable any more
        return False
""")],
     needs='the system raises a KeyError while an old counterexample is checked again',
     what='the error is turned into the answer that the counterexample still holds',
     demo=REC + """
from aalpy.learning_algs.deterministic.CounterExampleProcessing import counterexample_successfully_processed
class Bad(Rec):
    def step(self, a):
        raise KeyError('sensor')
m = mealy(2, 'ab', lambda i, a: i)
assert counterexample_successfully_processed(Rec(m), ('a',), m)
try:
    counterexample_successfully_processed(Bad(m), ('a',), m)
except KeyError:
    pass
else:
    raise AssertionError('error swallowed')
"""),
]
