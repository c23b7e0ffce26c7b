"""C26: answers of the system are filed under the words they were given for (path analysis, see paths.py).

The answer to query(w) is the sequence out(w, 0) .. out(w, len(w)-1); for the empty word it is out((), 0)."""
import ast

from . import runs
from .core import Result
from .names import Names
from .oraclecheck import Base
from .paths import *  # noqa: F403
from .paths import iadd, isub, ONE, ZERO
from .program import AnalysisBroken
from .recordcheck import mentions
from .sulcheck import merge

NEUTRAL = {'len', 'tuple', 'list', 'print', 'str', 'repr', 'zip', 'enumerate', 'range', 'isinstance', 'type', 'append', 'extend', 'set'}
WORD = {'append', 'extend', 'insert', 'pop', 'reverse', 'copy', 'index', 'count', 'remove', 'sort', 'clear'}
_out = {}


def origin(v):
    """(word, lo, hi) if v is a piece of the answer to a word"""
    if v[0] == 'app' and v[1] == 'out':
        return v[2], v[3], iadd(v[3], ONE)
    if v[0] != 'seq' or not v[1]:
        return None
    w = lo = hi = None
    for p in v[1]:
        if p[0] == 'rep' and len(p[1]) == 1 and p[1][0][0] == 'app' and p[1][0][1] == 'out' and p[1][0][3] == KAPPA:
            x, l, h = p[1][0][2], p[2], p[3]
        elif p[0] == 'e' and p[1][0] == 'app' and p[1][1] == 'out':
            x, l = p[1][2], p[1][3]
            h = iadd(l, ONE)
        else:
            return None
        if w is None:
            w, lo, hi = x, l, h
        elif x == w and l == hi:
            hi = h
        else:
            return None
    return w, lo, hi


def bases(t):
    """the opaque pieces a word is built of, or None"""
    out = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x[0] == 'c':
            continue
        if x[0] == 'app' and x[1] in ('slice', 'reversed', '+', 'tuple', 'list'):
            todo += [y for y in x[2:] if y[0] not in ('c', 'lin', 'len')]
        elif x[0] == 'seq':
            for p in x[1]:
                if p[0] == 'rep':
                    return None
                todo.append(p[1])
        elif x[0] == 'idx' and x[2][0] != 'c':
            todo.append(x[1])
        elif x[0] == 'idx' and x[1][0] in ('s', 'f'):
            todo.append(x[1])
        elif x[0] in ('s', 'f', 'idx', 'call', 'app', 'ver'):
            out.add(x)
        else:
            return None
    return out


def foreign(t):
    """something a caller or another function of the library made, which may stand in a relation unknown here"""
    return any(x[:1] == ('call',) and x[1] not in ('!ada', '!new') and functions_named(x[1]) or
               x[:1] == ('f',) and len(x) == 3 and x[1][:2] == ('s', -1) for x in subterms(t))


def subterms(t):
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            yield x
            todo += x


def independent(p, q):
    """two pieces that vary independently: different parameters, different components"""
    if p[0] == 's' and q[0] == 's':
        return p != q
    if p[0] == 'idx' and q[0] == 'idx' and p[1] == q[1]:
        return p[2][0] == 'c' and q[2][0] == 'c' and p[2] != q[2]
    return False


class AnswerClient(Base):
    TRACKED = {'query', 'adaptive_query', 'output_fun', 'children', 'prefix', 'path_to_node'}

    def __init__(self, names, cls, mode, fn):
        super().__init__(names, cls, mode)
        self.fn = fn
        self.made = {}

    def start(self):
        return St()

    def check(self, node, s, kind, res, msg):
        ok = True if True in res else False if res and all(r is False for r in res) else None
        self.ob('C26', kind, node, s, ok, f'{self.fn.name} {msg}')

    # equality -------------------------------------------------------------
    def zero(self, it, s, n):
        """is the linear term n zero?  False also if it depends on lengths nothing is known about"""
        n = it.norm_int(s, n)
        c, d = as_lin(n)
        if not d:
            return c == 0
        if all(x[0] == 'len' and not any(mentions(k, x[1]) for k in s.facts) and
               not any(mentions(k, x[1]) for k in s.lens) for x in d):
            return False
        return None

    def same(self, it, s, a, b):
        """equality of words; False also if they are different words over the same independent pieces"""
        r = it.tri(s, a, b)
        a, b = it.resolve(s, a), it.resolve(s, b)
        if r is not True and any(x[:2] == ('app', 'slice') and not all(y[0] == 'c' for y in x[3:]) for t in (a, b) for x in subterms(t)):
            return None  # pieces whose lengths are not known
        if r is not None:
            return r
        x, y = bases(a), bases(b)
        if x is None or y is None or not (x or y):
            return None
        if any(foreign(t) for t in x ^ y):
            return None
        if (x or y) and any(mentions(k, t) and not (k[0] == 't' and v) for t in x | y for k, v in s.facts.items()):
            return None
        if x <= y or y <= x:
            return False
        if all(independent(p, q) for p in x - y for q in y - x):
            return False
        return None

    def arg(self, fn, args, kw, name, skip=1):
        """value of a parameter of a call"""
        if name in kw:
            return kw[name]
        ps = [a.arg for a in fn.args.args][skip:] if fn is not None else []
        return args[ps.index(name)] if name in ps and ps.index(name) < len(args) else None

    def last(self, it, s, v):
        """(word, is v its last output), or None"""
        v = it.resolve(s, v)
        o = origin(v) if v[0] != 'seq' else None
        if o is None:
            return None
        w = it.resolve(s, o[0])
        return w, w == EMPTY or self.zero(it, s, isub(o[2], length(w)))

    def plain_or_pair(self, it, s, w, d):
        """w between the parts of d: distinguishing strings of pushdown automata are pairs"""
        forms = []
        f = s.facts.get(eqkey(('f', SELF, 'automaton_type'), C('vpa')))
        if f is None:
            v = s.facts.get(('val', ('f', SELF, 'automaton_type')))
            f = v == C('vpa') if v is not None else None
        if f is not True:
            forms.append(concat(w, d))
        if f is not False:
            forms.append(concat(concat(index(d, ZERO), w), index(d, ONE)))
        return forms

    def call(self, it, s, node, recv, name, args, kw):
        vals = list(args) + list(kw.values())
        if name == 'query' and recv is not None and len(vals) == 1:
            s = s.copy()
            w = plain(it.resolve(s, plain(it.content(s, vals[0]))))  # a sum of words is no sum of numbers
            if w == EMPTY:
                return [(s, it.ref(s, mk_seq((('e', ('app', 'out', w, ZERO)),))))]
            return [(s, it.ref(s, mk_seq((('rep', (('app', 'out', w, KAPPA),), ZERO, length(w)),))))]
        if name == 'adaptive_query' and recv is not None:
            s = s.copy()
            c = it.fresh('!ada', *[it.resolve(s, v) for v in vals])
            return [(s, mk_pair(('idx', c, ZERO), ('idx', c, ONE)))]
        if name in ('tuple', 'list') and recv is None and len(vals) == 1 and origin(it.resolve(s, vals[0])) is not None:
            return [(s, vals[0])]
        rv = [it.resolve(s, v) for v in vals]
        if name not in NEUTRAL or name == 'zip':
            self.filed(it, s, node, name, rv)
        if name == '_insert_new_leaf':
            fn = self.names.method(self.cls, name) if self.cls is not None else None
            w, d, p = (self.arg(fn, args, kw, n) for n in ('new_leaf_access_string', 'discriminator', 'new_leaf_position'))
            if None not in (w, d, p):
                self.leaf(it, s, node, w, d, p, 'position of a new leaf')
        if recv is None and isinstance(self.names.resolve(node.mod.name, name), ast.ClassDef):
            c = self.names.resolve(node.mod.name, name)
            init = self.names.method(c, '__init__')
            s = s.copy()
            v = it.fresh('!new', C(c.name))
            for a in init.args.args[1:] if init is not None else ():
                x = self.arg(init, args, kw, a.arg)
                if x is not None:
                    s.fields[(v, a.arg)] = it.resolve(s, x)
            return [(s, v)]
        if recv == SELF and name != self.fn.name or recv is None and it_function(self, it, node, name):
            s = s.copy()
            return [(s, it.fresh(name))]  # without the arguments: their terms change as lengths become known
        return None

    def filed(self, it, s, node, name, rv):
        """two arguments of one call: a word and (part of) its answer"""
        for i, v in enumerate(rv):
            others = [x for j, x in enumerate(rv) if j != i]
            if v[0] == 'idx' and v[1][0] == 'call' and v[1][1] == '!ada' and v[2] == ONE and others:
                self.check(node, s, 'adaptive answer filed',
                           [it.tri(s, x, ('idx', v[1], ZERO)) or (False if x in v[1][3:] else None) for x in others],
                           f'files the answer to an adaptive query under {", ".join(map(show, others))}')
            if v[0] not in ('seq', 'r'):
                continue
            o = origin(v)
            if o is None or not others:
                continue
            others = [x for x in others if not (x[0] == 'c' and x != EMPTY) and origin(x) is None]
            if not others:
                continue
            want = slice_seq(o[0], o[1], o[2])
            others = [x for j, x in enumerate(rv) if x in others and not self.is_object(node, name, j)] or others
            near = bases(want) or set()
            close = [x for x in others if near & (bases(x) or set())] or (others if name == 'zip' or takes_words(name) else [])
            if not close:
                continue
            self.check(node, s, 'answer filed', [self.same(it, s, x, want) for x in close],
                       f'hands {name} the answer to {show(it.resolve(s, want))} together with '
                       f'{", ".join(show(it.resolve(s, x)) for x in others)}')

    def is_object(self, node, name, j, depth=0):
        """is argument j of every function of this name used by its attributes, so that it is no word?"""
        fns = [f for f in functions_named(name)]
        return bool(fns) and depth < 3 and all(self.object_param(f, j + (isinstance(f.parent, ast.ClassDef)), depth) for f in fns)

    def object_param(self, f, j, depth):
        if j >= len(f.args.args):
            return False
        p = f.args.args[j].arg
        for n in ast.walk(f):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == p and n.attr not in WORD:
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
                m = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
                for i, a in enumerate(n.args):
                    if isinstance(a, ast.Name) and a.id == p and self.is_object(n, m, i, depth + 1):
                        return True
        return False

    def leaf(self, it, s, node, w, d, p, kind):
        """p, the branch on which the word w lies below a node with distinguishing string d"""
        a = self.last(it, s, p)
        if a is None:
            return
        d, w = it.resolve(s, d), it.resolve(s, w)
        self.judge(it, s, node, kind, a, self.plain_or_pair(it, s, w, d),
                   f'places {show(w)} below the node with {show(d)}')

    def judge(self, it, s, node, kind, a, forms, msg):
        """a: the word asked and whether its last output is meant; forms: the words it may be"""
        res = [self.same(it, s, a[0], f) for f in forms]
        if a[1] is not True:
            res = [False] if a[1] is False else [r and None for r in res]
        self.check(node, s, kind, res, f'{msg} by {"the" if a[1] else "another than the last"} output for '
                   f'{show(it.resolve(s, a[0]))}')

    def store(self, it, s, node, obj, name, val):
        if name == 'prefix' and obj[0] == 'call' and obj[1] == '!new':
            for f in ('output', 'is_accepting'):
                v = s.fields.get((obj, f))
                a = self.last(it, s, v) if v is not None else None
                if a is not None:
                    self.judge(it, s, node, 'output of a state', a, [val], f'gives the state of {show(it.resolve(s, val))} an output')
        if name == 'output' and (obj == ('f', SELF, 'root') or s.fields.get((SELF, 'root')) == obj):
            o = origin(it.resolve(s, val))
            if o is not None:
                self.check(node, s, 'output of the root', [self.same(it, s, o[0], EMPTY)],
                           f'gives the root the answer to {show(it.resolve(s, o[0]))} as output')
        if name == 'path_to_node':
            self.moved(it, s, node, obj, val)

    def moved(self, it, s, node, obj, val):
        w = self.access(it, s, obj)
        par = s.fields.get((obj, 'parent'))
        if w is None or par is None:
            return
        d = s.fields.get((par, 'distinguishing_string'))
        if d is not None:
            self.leaf(it, s, node, w, d, val, 'position of a moved leaf')

    def access(self, it, s, t):
        if t[0] == 'call' and t[1] == '!new':
            return s.fields.get((t, 'access_string'))
        if t[0] == 'idx' and 'leaf_nodes' in repr(t[1])[-120:]:
            return t[2]
        return None

    def setitem(self, it, s, node, b, k, v):
        k, v = it.resolve(s, k), it.resolve(s, v)
        base = b
        while base[0] == 'ver':
            base = base[1]
        if base[0] != 'f':
            self.table(it, s, node, base, k, v)
            return
        if base[2] == 'output_fun':
            a = self.last(it, s, v)
            if a is not None:
                X = base[1]
                pre = s.fields.get((X, 'prefix'), ('f', X, 'prefix'))
                self.judge(it, s, node, 'output of a transition', a, [concat(it.resolve(s, pre), mk_seq((('e', k),)))],
                           f'gives the transition of {show(pre)} for {show(k)} an output')
        elif base[2] == 'children':
            w = self.access(it, s, v)
            d = s.fields.get((base[1], 'distinguishing_string'), ('f', base[1], 'distinguishing_string'))
            if w is not None:
                self.leaf(it, s, node, w, d, k, 'position of a leaf')
        else:
            self.table(it, s, node, base, k, v)

    def augitem(self, it, s, node, b, k, v):
        self.table(it, s, node, b, it.resolve(s, k), it.resolve(s, v))

    def table(self, it, s, node, base, k, v):
        """a cell appended to the row of k: the outputs of a suffix asked after k"""
        if v[0] != 'seq' and v[:2] != ('app', '+') or not parts(v):
            return
        p = parts(v)[-1]
        x = p[1] if p[0] == 'e' else None
        if x is None:
            x = mk_seq((p,))
        o = origin(x)
        if o is None:
            self.clipped(it, s, node, x, k)
            return
        w, lo, hi = o
        w = it.resolve(s, w)
        n = length(w)
        head = self.same(it, s, slice_seq(w, ZERO, length(k)), k)
        end = True if w == EMPTY else self.zero(it, s, isub(hi, n))
        size = it.norm_int(s, isub(hi, lo))
        whole = True if size == ONE else self.zero(it, s, isub(size, isub(n, length(k))))
        self.check(node, s, 'cell of a table', [False if False in (head, end, whole) else
                                               True if head and end and whole else None],
                   f'puts outputs {show(lo)} to {show(hi)} of the answer to {show(w)} into the row of {show(k)}')

    def clipped(self, it, s, node, x, k):
        """a slice counted from the end of the answer: answer[-m:]"""
        if x[0] != 'seq' or len(x[1]) != 1 or x[1][0][0] != 'sl':
            return
        _, ans, lo, hi = x[1][0]
        o = origin(ans)
        c, d = as_lin(it.norm_int(s, lo))
        if o is None or not (c or d) or c > 0 or any(n > 0 for n in d.values()):
            return
        w = it.resolve(s, o[0])
        size = self.zero(it, s, iadd(mk_lin(c, d), isub(length(w), length(k))))
        if size is False:
            self.check(node, s, 'cell of a table', [False], f'puts as many as {show(mk_lin(-c, {a: -n for a, n in d.items()}))} '
                       f'outputs of the answer to {show(w)} into the row of {show(k)}')

    def at_return(self, it, s, node, v, fn):
        v = it.resolve(s, v)
        if isinstance(getattr(node, 'value', None), ast.Tuple) and v[0] == 'seq' and len(v[1]) == 2 and all(
                p[0] == 'e' for p in v[1]):
            self.filed(it, s, node, 'return', [v[1][0][1], v[1][1][1]])


def it_function(cli, it, node, name):
    r = cli.names.resolve(node.mod.name, name)
    return isinstance(r, ast.FunctionDef) and runs.in_lib(r)


def takes_words(name):
    return any(w in a.arg and 'output' not in a.arg for f in functions_named(name) for a in f.args.args for w in ('input', 'cex', 'word', 'walk', 'prefix'))


def functions_named(name):
    if 'f' not in _out:
        _out['f'] = {}
        for m in runs.program().modules.values():
            for f in ast.walk(m.tree):
                if isinstance(f, ast.FunctionDef) and runs.in_lib(f):
                    _out['f'].setdefault(f.name, []).append(f)
    return _out['f'].get(name, [])


def asks(fn):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('query', 'adaptive_query')
               for n in ast.walk(fn))


def analyse():
    if 'r' in _out:
        return _out['r']
    prog = runs.program()
    names = Names(prog)
    res, stats = [], {'functions that ask the system': 0, 'paths': 0, 'exact paths': 0, 'notes': []}
    for m in sorted(prog.modules.values(), key=lambda m: m.name):
        if '.learning_algs' not in m.name and not m.name.endswith('base.SUL'):
            continue
        for fn in ast.walk(m.tree):
            if isinstance(fn, ast.FunctionDef) and asks(fn) and runs.in_lib(fn):
                c = fn.parent if isinstance(fn.parent, ast.ClassDef) else None
                ps = [a.arg for a in fn.args.args]
                args = [SELF if c is not None and i == 0 else ('s', -1, p) for i, p in enumerate(ps)]
                stats['functions that ask the system'] += 1
                n = len(stats['notes'])
                merge(res, prog, lambda mode: AnswerClient(names, c, mode, fn), fn, args, stats)
    if stats['functions that ask the system'] < 8:
        raise AnalysisBroken('functions that ask the system not found')
    _out['r'] = (res, stats)
    return _out['r']
