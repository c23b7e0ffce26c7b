import os, runpy
REC = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'batch1.py'))['REC']
O = 'oracles/'
COMMON = """
import random
random.seed(4)
from aalpy.automata import *
from aalpy.SULs import AutomatonSUL
def mealy(n, odd=None):
    st = [MealyState('s%d' % i) for i in range(n)]
    for i, s in enumerate(st):
        s.prefix = ('a',) * i
        for j, a in enumerate('ab'):
            s.transitions[a] = st[(i + 1 + j) % n]
            s.output_fun[a] = 'x'
    if odd is not None:
        st[odd[0]].output_fun[odd[1]] = 'y'
    return MealyMachine(st[0], st)
"""

B = [
dict(id='c25-kway-window', property='C25', file=O + 'kWayTransitionCoverageEqOracle.py',
     reps=[("            if out_sul != out_hyp:\n                self.sul.post()\n                return steps[:i + 1]",
            "            if out_sul != out_hyp and i >= self.k - 1:\n                self.sul.post()\n                return steps[:i + 1]")],
     needs='a difference visible only in the first steps of a test', what='tests that saw a difference end without a counterexample',
     demo=COMMON + """
from aalpy.oracles import KWayTransitionCoverageEqOracle
sysm, hyp = mealy(6, (0, 'a')), mealy(6)
for s in sysm.states[1:]:
    for a in 'ab':
        if s.transitions[a] is sysm.initial_state:
            s.transitions[a] = sysm.states[1]
for s in hyp.states[1:]:
    for a in 'ab':
        if s.transitions[a] is hyp.initial_state:
            s.transitions[a] = hyp.states[1]
o = KWayTransitionCoverageEqOracle(['a', 'b'], AutomatonSUL(sysm), k=2, num_generate_paths=50, max_path_len=8)
cex = o.find_cex(hyp)
assert cex is not None and cex[0] == 'a', cex
"""),
dict(id='c25-provided-last', property='C25', file=O + 'ProvidedSequencesOracleWrapper.py',
     reps=[("                if out_sul != out_hyp:\n                    self.sul.post()",
            "                if len(inputs) == len(provided_cex) and out_sul != out_hyp:\n                    self.sul.post()")],
     needs='a provided sequence whose difference is not in its last step', what='the provided counterexample is dropped',
     demo=COMMON + """
from aalpy.oracles import ProvidedSequencesOracleWrapper
from aalpy.base import Oracle
class No(Oracle):
    def find_cex(self, hyp):
        return None
sysm, hyp = mealy(4, (2, 'b')), mealy(4)
sul = AutomatonSUL(sysm)
o = ProvidedSequencesOracleWrapper(['a', 'b'], sul, No(['a', 'b'], sul), [['a', 'a', 'a'], ['a', 'a', 'b', 'b', 'a']])
cex = o.find_cex(hyp)
assert cex is not None, cex
"""),
dict(id='c25-pac-floor', property='C25', file=O + 'PacOracle.py',
     reps=[("                if out_sul != out_hyp:", "                if out_sul != out_hyp and len(inputs) >= self.min_walk_len:")],
     needs='a difference in the first steps only, with a minimum test length set', what='early differences are not reported',
     demo=COMMON + """
from aalpy.oracles import PacOracle
sysm, hyp = mealy(6, (0, 'a')), mealy(6)
for m in (sysm, hyp):
    for s in m.states[1:]:
        for a in 'ab':
            if s.transitions[a] is m.initial_state:
                s.transitions[a] = m.states[1]
o = PacOracle(['a', 'b'], AutomatonSUL(sysm), min_walk_len=4, max_walk_len=10)
cex = o.find_cex(hyp)
assert cex is not None and cex[0] == 'a', cex
"""),
]
