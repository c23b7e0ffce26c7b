import os, runpy
REC = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'batch1.py'))['REC']
D = 'learning_algs/deterministic/'

B = [
dict(id='c26-alergia-shift', property='C26', file='learning_algs/stochastic_passive/ActiveAleriga.py',
     reps=[("            random_walk = tuple(choice(input_al) for _ in range(walk_len))\n\n            outputs = sul.query(random_walk)\n",
            "            random_walk = tuple(choice(input_al) for _ in range(walk_len))\n\n            outputs = sul.query(random_walk[1:] + random_walk[:1])\n")],
     needs='a sampled walk that is not the same after moving its first input to the end', what='sampled outputs are paired with other inputs than those that produced them',
     demo=REC + """
import random
from aalpy.automata import *
from aalpy.SULs import AutomatonSUL
from aalpy.learning_algs.stochastic_passive.ActiveAleriga import RandomWordSampler
random.seed(3)
s = StochasticMealyState('s')
s.transitions['a'].append((s, 'A', 1.0))
s.transitions['b'].append((s, 'B', 1.0))
m = StochasticMealyMachine(s, [s])
for w in RandomWordSampler(20, 3, 6).sample(AutomatonSUL(m), m):
    for i, o in w:
        assert o == i.upper(), w
"""),
dict(id='c26-moore-root', property='C26', file=D + 'ObservationTree.py',
     reps=[("            self.root.output = self.sul.query([])[0]", "            self.root.output = self.sul.query(self.alphabet[:1])[0]")],
     needs='a Moore machine or DFA whose first input leads to a state with another output', what='the root of the observation tree carries the output after the first input',
     demo="""
from aalpy.automata import *
from aalpy.SULs import AutomatonSUL
from aalpy.learning_algs.deterministic.ObservationTree import ObservationTree
a, b = MooreState('a', 'x'), MooreState('b', 'y')
for s, t in ((a, b), (b, a)):
    s.transitions['i'] = t
    s.transitions['j'] = s
t = ObservationTree(['i', 'j'], AutomatonSUL(MooreMachine(a, [a, b])), 'moore', 'Nothing', 'SepSeq')
assert t.root.output == 'x', t.root.output
"""),
dict(id='c26-old-leaf', property='C26', file=D + 'ClassificationTree.py',
     reps=[("other_leaf_position = self.sul.query((*old_leaf_access_string, *discriminator))[-1]", "other_leaf_position = self.sul.query((*old_leaf_access_string, *discriminator))[len(old_leaf_access_string)]")],
     needs='a discriminator of more than one input', what='the old leaf hangs on the branch of the first output of the discriminator',
     demo="""
from aalpy.automata import *
from aalpy.SULs import AutomatonSUL
from aalpy.learning_algs.deterministic.ClassificationTree import ClassificationTree
s = [MealyState('s%d' % i) for i in range(3)]
for i, x in enumerate(s):
    for j, a in enumerate('ab'):
        x.transitions[a] = s[(i + 1 + j) % 3]
        x.output_fun[a] = i + j
sul = AutomatonSUL(MealyMachine(s[0], s))
t = ClassificationTree(['a', 'b'], sul, 'mealy', ('a',))
d = ('b', 'b')
t._insert_new_leaf(d, (), ('a',), sul.query(('a',) + d)[-1])
for w in ((), ('a',)):
    n = t.leaf_nodes[w]
    assert n.path_to_node == sul.query(w + d)[-1], (w, n.path_to_node)
    assert n.parent.children[n.path_to_node] is n
"""),
dict(id='c05-falsy-arg', property='C05', file='SULs/PyMethodSUL.py',
     reps=[("self.args = [args] if not isinstance(args, (list, tuple)) else args", "self.args = [args] if not isinstance(args, (list, tuple)) else list(dict.fromkeys(args))")],
     needs='a method called with the same argument twice', what='repeated arguments are passed once',
     demo="""
from aalpy.SULs import PyClassSUL, FunctionDecorator
class A:
    def __init__(self): self.got = []
    def m(self, *x): self.got.append(x)
    def show(self): return self.got
sul = PyClassSUL(A)
sul.pre()
sul.step(FunctionDecorator(A.m, [1, 1, 2]))
assert sul.step(FunctionDecorator(A.show)) == [(1, 1, 2)]
"""),
]
