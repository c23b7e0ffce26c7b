"""C13, C14, C21, C22: path analysis of the automata (step, step_to, reset, output queries) and of the bundled systems."""
import ast

from . import runs
from .names import Names
from .oraclecheck import Base
from .paths import *  # noqa: F403
from .paths import iadd, isub, ONE, ZERO
from .program import AnalysisBroken
from .recordcheck import mentions, has_opaque
from .sulcheck import drive, verdict, inner_field

LETTER, STATE, SEQ = ('s', -1, 'letter'), ('s', 0, 'state'), ('s', 0, 'sequence')
CUR = ('f', SELF, 'current_state')
INIT = ('f', SELF, 'initial_state')
# where the output is: in the state reached, or with the transition; False: probabilistic or one of several transitions
STEP = {'Dfa': ('state', 'is_accepting'), 'MooreMachine': ('state', 'output'), 'MealyMachine': ('trans', 'output_fun')}
PAIR = {'Onfsm': (1, 0), 'StochasticMealyMachine': (0, 1)}
TO = {'Onfsm': (1, 0), 'StochasticMealyMachine': (0, 1), 'Mdp': (0, 'output'), 'MarkovChain': (None, 'output')}
PROBE = {'Dfa', 'MooreMachine', 'Mdp', 'Vpa', 'Sevpa'}
MUT = {'append', 'pop', 'extend', 'clear', 'insert', 'remove', 'add', 'update', 'popleft', 'appendleft', 'setdefault'}
RESTART = {'reset', 'reset_to_initial', 'pre', 'back_to_root', 'clear', 'reset_current', 'restart'}
_out = {}


def self_methods(names, cls, start):
    """the methods reached from start through calls on self"""
    seen, todo = [], [names.method(cls, n) for n in start]
    while todo:
        fn = todo.pop()
        if fn is None or fn in seen:
            continue
        seen.append(fn)
        for n in ast.walk(fn):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                    n.func.value.id == 'self':
                todo.append(names.method(cls, n.func.attr))
    return seen


def modified(names, cls, start):
    """fields of self that the methods assign or change in place"""
    out = set()
    for fn in self_methods(names, cls, start):
        for n in ast.walk(fn):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                if isinstance(n.ctx, ast.Store) or isinstance(n.parent, ast.AugAssign) and n.parent.target is n:
                    out.add(n.attr)
                p = n.parent
                if isinstance(p, ast.Attribute) and isinstance(p.parent, ast.Call) and p.parent.func is p and p.attr in MUT:
                    out.add(n.attr)
                if isinstance(p, ast.Subscript) and isinstance(p.ctx, ast.Store) and p.value is n:
                    out.add(n.attr)
    return out


class ModelClient(Base):
    EXACT_NEXT = True

    def __init__(self, names, cls, mode, fn, role, mod, **kw):
        super().__init__(names, cls, mode)
        self.fn, self.role, self.mod = fn, role, mod
        self.__dict__.update(kw)
        self.TRACKED = mod | {'step', 'step_to', 'reset_to_initial', 'execute_sequence'}

    def start(self):
        st = St()
        for f in self.mod:
            if f != 'current_state' and f in self.lists:
                st.heap[('f', SELF, f)] = ('s', -1, f)
        st.g['called'] = EMPTY
        if self.role == 'step':
            st.facts[eqkey(LETTER, NONE)] = False
        return st

    lists = frozenset()
    inits = {}
    fields = ()

    def call(self, it, s, node, recv, name, args, kw):
        if self.role == 'pre' and recv is not None and recv[0] == 'f' and recv[1] == SELF:
            s = s.copy()
            s.g['called'] = concat(s.g['called'], mk_seq((('e', mk_pair(C(recv[2]), C(name))),)))
            return [(s, it.fresh(name, recv, *args))]
        return None

    def field(self, it, s, f):
        v = s.fields.get((SELF, f), ('f', SELF, f))
        return it.resolve(s, v)

    def old(self, f):
        return ('s', -1, f) if f in self.lists else ('f', SELF, f)

    def at_return(self, it, s, node, v, fn):
        v = it.resolve(s, v)
        getattr(self, 'r_' + self.role)(it, s, node, v)

    def strict(self, it, s, a, b):
        """equality of an updated field with the wanted term; different terms are reported only if both are understood"""
        x = it.tri(s, a, b)
        if a[0] == 'app' and a[1] == '+' and len(a) == 4 and a[2] == b and a[3][0] == 'c' and a[3][2]:
            return False
        T = ('f', CUR, 'transitions')
        if x is None and a != b and b == CUR and mentions(a, T) and not has_other(a):
            return False    # some transition of the current state, in general to another state
        if x is None and drawn(a) and drawn(b) and drawn(a) != drawn(b):
            return False    # two independent random draws
        if x is None and a != b and not has_opaque(a) and not has_opaque(b):
            return False
        return x

    def r_reset(self, it, s, node, v):
        n = f'{self.cls.name}.{self.fn.name}'
        new = self.field(it, s, 'current_state')
        self.ob('C14', 'reset goes to the initial state', node, s, self.strict(it, s, new, INIT),
                f'{n} leaves the position at {show(new)}')
        for f in sorted(self.mod - {'current_state'}):
            new, want = self.field(it, s, f), self.inits.get(f)
            if want is None:
                continue
            ok = self.strict(it, s, new, want)
            if ok is not True and want[0] == 'seq':
                # a constructor may leave a list empty that the reset fills: it must not depend on earlier steps
                old = [self.old(g) for g in self.mod] + [('f', SELF, g) for g in self.mod]
                ok = False if any(mentions(new, o) for o in old) else None if has_opaque(new) else True
            self.ob('C14', f'reset restores {f}', node, s, ok, f'{n} leaves {f} as {show(new)}')

    def r_probe(self, it, s, node, v):
        for f in sorted(self.mod):
            new = self.field(it, s, f)
            self.ob('C14', f'probe keeps {f}', node, s, self.strict(it, s, new, self.old(f)),
                    f'{self.cls.name}.{self.fn.name} without an input changes {f} to {show(new)}')
        n = f'{self.cls.name}.{self.fn.name} without an input'
        ob = lambda k, ok, m: self.ob('C21', k, node, s, ok, f'{n} {m}')
        if self.cls.name in ('Vpa', 'Sevpa'):
            if not any(k[0] == 't' and k[1][0] == 's' and k[1][2] in self.mod and x for k, x in s.facts.items()):
                self.accepts(it, s, ob, CUR, v, ('s', -1, 'stack'), 'probe returns the current output')
        else:
            want = ('f', CUR, 'is_accepting' if self.cls.name == 'Dfa' else 'output')
            ob('probe returns the current output', self.strict(it, s, v, want), f'returns {show(v)}')

    def r_keep(self, it, s, node, v):
        new = self.field(it, s, 'current_state')
        self.ob('C13', 'position restored', node, s, self.strict(it, s, new, CUR),
                f'{self.cls.name}.{self.fn.name} leaves the position at {show(new)}')

    # -------------------------------------------------------------- steps
    def r_step(self, it, s, node, v):
        n = f'{self.cls.name}.{self.fn.name}'
        new = self.field(it, s, 'current_state')
        ob = lambda k, ok, m: self.ob('C21', k, node, s, ok, f'{n} {m}')
        T = ('f', CUR, 'transitions')
        if self.cls.name in STEP:
            kind, attr = STEP[self.cls.name]
            ob('moves along the transition', self.strict(it, s, new, ('idx', T, LETTER)), f'moves to {show(new)}')
            want = ('f', ('idx', T, LETTER), attr) if kind == 'state' else ('idx', ('f', CUR, attr), LETTER)
            ob('returns its output', self.strict(it, s, v, want), f'returns {show(v)}')
        elif self.cls.name in PAIR:
            i, o = PAIR[self.cls.name]
            self.same(it, ob, s, new, i, v, o)
        elif self.cls.name in ('Vpa', 'Sevpa'):
            self.pushdown(it, s, ob, new, v)
        else:
            ok = v == ('f', new, 'output')
            ob('returns its output', True if ok else self.strict(it, s, v, ('f', new, 'output')), f'returns {show(v)}')

    def same(self, it, ob, s, new, i, out, o):
        """state and output are components of one element of the transitions of the letter"""
        tn = comp_of(new, i)
        to = comp_of(out, o)
        if tn is None or to is None:
            bad = new[0] == 'idx' and out[0] == 'idx'
            ob('one transition', False if bad and not has_other(new) and not has_other(out) else None,
               f'moves to {show(new)} and returns {show(out)}')
            return
        ob('one transition', self.strict(it, s, tn, to), f'moves to {show(new)} and returns {show(out)}')
        ob('of the input', True if mentions(tn, LETTER) and mentions(tn, ('f', CUR, 'transitions')) else None,
           f'takes {show(tn)}')

    def pushdown(self, it, s, ob, new, v):
        if new[0] != 'f' or new[2] != 'target_state':
            return
        t = new[1]
        act = ('f', t, 'action')
        stk = self.field(it, s, 'stack')
        old = ('s', -1, 'stack')
        push, pop = s.facts.get(eqkey(act, C('push'))), s.facts.get(eqkey(act, C('pop')))
        if any(self.field(it, s, f) == C(True) for f in self.mod):
            return  # the step ends in the error state
        if not mentions(t, ('f', CUR, 'transitions')):
            ob('moves along a transition', None, '')
            return
        g = ('f', t, 'stack_guard')
        if pop is True:
            ok = True if any(x and k[0] == 'eq' and mentions(k, g) for k, x in s.facts.items()) else None
            # paths on which the letter was found to be internal, or the action another one, are not pops of a well-formed model
            other = any(x and (k[0] == 'eq' and mentions(k, act) and k != eqkey(act, C('pop')) or 'internal' in repr(k)) for k, x in s.facts.items())
            if ok is None and not other:
                ok = False
            ob('guard compared', ok or (None if ok is None or it.mode == 'prove' else False),
               f'takes a transition whose stack symbol {show(g)} was not found on top of the stack')
        if push is True:
            ok = it.tri(s, stk, concat(old, mk_seq((('e', ('f', t, 'stack_guard')),))))
        elif pop is True:
            ok = self.strict(it, s, stk, slice_seq(old, ZERO, isub(length(old), ONE)))
        elif push is False or pop is False:
            ok = it.tri(s, stk, old)
        else:
            ok = None
        if ok is None and it.mode == 'refute':
            a, b = it.norm_int(s, length(stk)), it.norm_int(s, length(old))
            want = ONE if push is True else C(-1) if pop is True else ZERO
            if a[0] == 'c' and b[0] == 'c':
                ok = None if a[2] - b[2] == want[2] else False
        ob('stack follows the action', ok, f'leaves the stack as {show(stk)}')
        self.accepts(it, s, ob, new, v, stk)

    def accepts(self, it, s, ob, new, v, stk, kind='returns the output of the state reached'):
        """the output of a pushdown automaton: acceptance of the state reached, with the stack as it is now"""
        old = ('s', -1, 'stack')
        v = it.resolve(s, v)
        acc = ('f', new, 'is_accepting')
        read = {x for x in walk(v) if isinstance(x, tuple) and len(x) == 3 and x[0] == 'f' and x[2] == 'is_accepting'}
        asked = {k[1] for k in s.facts if k[0] == 't' and k[1][0] == 'f' and len(k[1]) == 3 and k[1][2] == 'is_accepting'}
        looks = any(isinstance(x, tuple) and x in (old, ('f', SELF, 'stack')) for k in list(s.facts) + [v]
                    if isinstance(k, tuple) for x in walk(k[1:]))
        if has_other(v) or any(x[0] in ('call', 'app') for x in walk(v) if isinstance(x, tuple) and x) and acc not in read:
            ob(kind, None, '')
        elif read - {acc}:
            ob(kind, False, f'returns {show(v)} after moving to {show(new)}')
        elif v == acc and s.facts.get(('t', acc)) is not False and not looks:
            ob(kind, False, f'returns the acceptance of {show(new)} whatever is on the stack')
        elif v in (C(False), acc):
            ob(kind, False if v == C(False) and acc not in asked and asked and not looks else True,
               f'returns {show(v)} after moving to {show(new)} without looking at its acceptance')
        elif acc not in read and s.facts.get(('t', acc)) is not True:
            ob(kind, False, f'returns {show(v)} after moving to {show(new)} without '
               'looking at its acceptance')
        else:
            ob(kind, True if looks or v != C(True) or parts(stk) == () else None,
               f'returns {show(v)} after moving to {show(new)}')

    def r_to(self, it, s, node, v):
        n = f'{self.cls.name}.{self.fn.name}'
        new = self.field(it, s, 'current_state')
        ob = lambda k, ok, m: self.ob('C21', k, node, s, ok, f'{n} {m}')
        i, o = TO[self.cls.name]
        outp = self.outp
        if v == NONE:
            ob('stays if there is no such transition', self.strict(it, s, new, CUR), f'returns nothing but moves to {show(new)}')
            return
        if new == CUR:
            ob('moves if there is such a transition', False if not has_other(v) else None, f'returns {show(v)} without moving')
            return
        if i is None:
            el = new
        else:
            el = comp_of(new, i)
        if el is None:
            ob('moves along a transition', None, '')
            return
        real = ('f', new, o) if isinstance(o, str) else index(el, C(o))
        ok = it.tri(s, real, outp)
        ob('takes the transition with the given output', True if ok is True else False, f'moves to {show(new)} although its '
           f'output {show(real)} was not found equal to the given one')
        a, b = it.tri(s, v, outp), it.tri(s, v, real)
        ob('returns the output', True if True in (a, b) else False if not has_other(v) else None, f'returns {show(v)}')
        if self.inp is not None:
            ob('takes a transition of the input', True if mentions(el, self.inp) else False if not has_other(el) else None,
               f'moves to {show(new)}')

    # -------------------------------------------------------------- systems
    def r_pre(self, it, s, node, v):
        n = f'{self.cls.name}.{self.fn.name}'
        called = [p[1][1][0][1][2] for p in parts(s.g['called']) if p[0] == 'e' and p[1][0] == 'seq']
        for f in sorted(self.fields):
            new = self.field(it, s, f)
            if new == ('f', SELF, f) or new == ('s', -1, f):
                ok = f in called
                self.ob('C22', f'reset of {f}', node, s, ok, f'{n} does not reset {f}, which the step changes')
            else:
                self.ob('C22', f'reset of {f}', node, s, False if mentions(new, self.old(f)) else True,
                        f'{n} sets {f} to {show(new)}, which depends on earlier steps')

    def r_nostep(self, it, s, node, v):
        for f in sorted(self.mod):
            new = self.field(it, s, f)
            self.ob('C22', f'probe keeps {f}', node, s, self.strict(it, s, new, self.old(f)),
                    f'{self.cls.name}.{self.fn.name} without an input changes {f} to {show(new)}')


def comp_of(t, i):
    if t[0] == 'idx' and t[2] == C(i):
        return t[1]
    return None


def drawn(t):
    return {x for x in walk(t) if isinstance(x, tuple) and len(x) > 1 and x[0] in ('call', 'app') and
            isinstance(x[1], str) and x[1].lstrip('!') in ENTROPY}


def has_other(t):
    return any(isinstance(x, tuple) and x and x[0] in ('top',) for x in walk(t))


def analyse():
    if 'r' in _out:
        return _out['r']
    prog = runs.program()
    names = Names(prog)
    res, stats = [], {'automaton classes': 0, 'system classes': 0, 'functions': 0, 'paths': 0, 'exact paths': 0, 'notes': []}

    def go(cls, fn, role, args, mod, **kw):
        stats['functions'] += 1
        part, note = {}, ''
        for mode in ('prove', 'refute'):
            cli = ModelClient(names, cls, mode, fn, role, mod, **kw)
            n, note2 = drive(prog, cli, fn, args, cli.start(), lambda it, s, nd, v: cli.at_return(it, s, nd, v, fn), mode)
            stats['paths' if mode == 'prove' else 'exact paths'] += n
            note += note2
            for k, l in cli.obs.items():
                part.setdefault(k, {})[mode] = l
        if note:
            stats['notes'].append(f'{cls.name}.{fn.name}: {note}')
        for (prop, kind, node), e in sorted(part.items(), key=lambda kv: (kv[0][0], kv[0][1], kv[0][2].lineno)):
            res.append((prop, cls, fn, kind, node) + verdict(e, note))

    def initial(cls, fields):
        """the values __init__ leaves in the fields, where they are constants"""
        fn = names.method(cls, '__init__')
        vals = {f: set() for f in fields}
        if fn is None:
            return {}
        cli = ModelClient(names, cls, 'prove', fn, 'reset', fields)

        def ar(it, s, nd, v):
            for f in fields:
                vals[f].add(it.resolve(s, s.fields.get((SELF, f), TOP)))
        drive(prog, cli, fn, [SELF] + [('s', 0, a.arg) for a in fn.args.args[1:]], St(), ar, 'prove')
        return {f: next(iter(x)) for f, x in vals.items() if len(x) == 1 and not has_opaque(next(iter(x)))}

    autos = sorted((c for c in names.subclasses('Automaton') if runs.in_lib(c)), key=lambda c: (c.mod.name, c.name))
    if len(autos) < 8:
        raise AnalysisBroken('automaton classes not found')
    for c in autos:
        step = names.method(c, 'step')
        if step is None or any(isinstance(d, ast.Name) and d.id == 'abstractmethod' for d in step.decorator_list):
            continue
        stats['automaton classes'] += 1
        mod = modified(names, c, ['step', 'step_to']) | {'current_state'}
        inits = initial(c, mod | {'empty'})
        lists = frozenset(f for f in mod if f in inits and (inits[f][0] == 'seq'))
        kw = dict(lists=lists)
        reset = names.method(c, 'reset_to_initial')
        if reset is not None:
            ini = {f: inits[f] for f in mod if f in inits}
            go(c, reset, 'reset', [SELF], mod, inits=ini, **kw)
        npar = len(step.args.args)
        if c.name in PROBE and npar == 2:
            go(c, step, 'probe', [SELF, NONE], mod, **kw)
        if npar == 2 and c.name != 'MarkovChain':
            go(c, step, 'step', [SELF, LETTER], mod, **kw)
        to = names.method(c, 'step_to')
        if to is not None and c.name in TO and len(to.args.args) in (2, 3):
            ps = [('s', 0, a.arg) for a in to.args.args[1:]]
            go(c, to, 'to', [SELF] + ps, mod, outp=ps[-1], inp=ps[0] if len(ps) == 2 else None, **kw)
        for m, arg in (('output_step', LETTER), ('compute_output_seq', SEQ)):
            fn = names.method(c, m)
            if fn is not None and len(fn.args.args) == 3:
                go(c, fn, 'keep', [SELF, STATE, arg], mod, **kw)
    suls = sorted((c for c in names.subclasses('SUL') if runs.in_lib(c)), key=lambda c: (c.mod.name, c.name))
    for c in suls:
        pre, step = names.method(c, 'pre'), names.method(c, 'step')
        if pre is None or step is None:
            continue
        stats['system classes'] += 1
        mod = {f for f in modified(names, c, ['step']) if not f.startswith('num_')}
        used = set()
        for fn in self_methods(names, c, ['step']):
            for n in ast.walk(fn):
                if isinstance(n, ast.Call):
                    for a in [n.func.value] if isinstance(n.func, ast.Attribute) else n.args[:1]:
                        if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == 'self' and \
                                (isinstance(n.func, ast.Attribute) or isinstance(n.func, ast.Name) and n.func.id == 'getattr'):
                            used.add(a.attr)
        inits = initial(c, mod)
        lists = frozenset(f for f in mod if f in inits and inits[f][0] == 'seq')
        params = objects(names, c)
        fields = mod | (used & params)
        if fields:
            go(c, pre, 'pre', [SELF], mod, fields=fields, lists=lists)
        if mod and inner_field(names, c) is None and len(step.args.args) == 2:
            go(c, step, 'nostep', [SELF, NONE], mod, lists=lists)
    _out['r'] = (res, stats)
    return _out['r']


def objects(names, cls):
    """fields that __init__ fills with a parameter or a new object, and fields that pre assigns"""
    out = set()
    for m in ('__init__', 'pre'):
        fn = names.method(cls, m)
        for n in ast.walk(fn) if fn is not None else ():
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                        if m == 'pre' or not isinstance(n.value, (ast.Constant, ast.Subscript)):
                            out.add(t.attr)
    return out
