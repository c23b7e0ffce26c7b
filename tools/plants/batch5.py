B = [
dict(id='c21-vpa-probe', property='C21', file='automata/Vpa.py',
     reps=[("            return self.current_state.is_accepting and self.stack == []\n\n        transitions", "            return self.current_state.is_accepting\n\n        transitions")],
     needs='a probe without an input in an accepting state while the stack is not empty', what='the output reported without an input ignores the stack',
     demo="""
from aalpy.automata.Vpa import Vpa, VpaState, VpaTransition
q = VpaState('q', True)
q.transitions['('].append(VpaTransition(q, q, '(', 'push', '('))
q.transitions[')'].append(VpaTransition(q, q, ')', 'pop', '('))
m = Vpa(q, [q])
m.reset_to_initial()
assert m.step(None) is True
assert m.step('(') is False
assert m.step(None) is False
assert m.step(')') is True
"""),
dict(id='c21-vpa-guard', property='C21', file='automata/Vpa.py',
     reps=[("                if t.stack_guard == self.top():", "                if t.stack_guard in self.stack:")],
     needs='a closing symbol that matches an opening one further down in the stack', what='a pop is taken although its symbol is not on top of the stack',
     demo="""
from aalpy.automata.Vpa import Vpa, VpaState, VpaTransition
q = VpaState('q', True)
for o, c in ('()', '[]'):
    q.transitions[o].append(VpaTransition(q, q, o, 'push', o))
    q.transitions[c].append(VpaTransition(q, q, c, 'pop', o))
m = Vpa(q, [q])
m.reset_to_initial()
assert [m.step(l) for l in '([])'] == [False, False, False, True]
m.reset_to_initial()
assert [m.step(l) for l in '([))'] == [False] * 4
"""),
dict(id='c06-empty-word', property='C06', file='base/SUL.py',
     reps=[("        if cached_query:\n", "        if cached_query is not None:\n")],
     needs='a query for the empty word', what='the empty word is answered by an empty list instead of the initial output',
     demo="""
from aalpy.automata import *
from aalpy.SULs import AutomatonSUL
from aalpy.base.SUL import CacheSUL
q = MooreState('q', 'x')
q.transitions['a'] = q
s = CacheSUL(AutomatonSUL(MooreMachine(q, [q])))
assert list(s.query(('a',))) == ['x']
assert list(s.query(())) == ['x']
"""),
dict(id='c05-adaptive-output', property='C05', file='base/SUL.py',
     reps=[("last_output = outputs_received[-1]", "last_output = outputs_received[0]")],
     needs='an adaptive query of a state based system with a word of at least two inputs', what='the next input is chosen by the first output instead of the last',
     demo="""
from aalpy.automata import *
from aalpy.SULs import AutomatonSUL
a, b = MooreState('a', 'x'), MooreState('b', 'y')
for s, t in ((a, b), (b, a)):
    s.transitions['i'] = t
seen = []
class Tree:
    def __init__(self):
        self.first = True
    def next_input(self, last):
        if self.first:
            self.first = False
            return tuple()
        seen.append(last)
        return None
AutomatonSUL(MooreMachine(a, [a, b])).adaptive_query(['i', 'i'], Tree())
assert seen == ['x'], seen
"""),
dict(id='c05-zero-arguments', property='C05', file='SULs/PyMethodSUL.py',
     reps=[("        if letter.args:\n", "        if letter.args and any(letter.args):\n")],
     needs='a method called with arguments that all count as false', what='the method is called without its arguments',
     demo="""
from aalpy.SULs.PyMethodSUL import PyClassSUL, FunctionDecorator
class T:
    def f(self, *args):
        return args
s = PyClassSUL(T)
assert s.query((FunctionDecorator(T.f, [0, 0]), FunctionDecorator(T.f, 1))) == [(0, 0), (1,)]
"""),
]
