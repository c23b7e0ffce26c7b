"""C23 (conversions between models and from merged trees) and C24 (hypotheses from tables and observation trees): the
automaton built is compared, element by element, with the structure it is read off."""
import ast
from fractions import Fraction

from .core import Program, Result
from .schema import ATOMS, INIT, STATES, UNIQUE, Alt, Bail, Crash, Entry, Env, Func, Interp, Obj, Ref, Seq, State, Str, T, Unknown, \
    could_equal, is_unknown, subst, subst_items, unify
from .setupcheck import A, DET, STATE_FIELD, TYPES, Image, Model, finish, report, run_expr
from .program import AnalysisBroken

L = 'aalpy.learning_algs.'
WORDS = {'prefix', 'cat', 'part', 'trace', 'word'}       # sequences
COMM = {'+', '*'}


def has_unknown(v):
    if isinstance(v, T):
        return v.op == '?' or any(has_unknown(a) for a in v.args)
    if isinstance(v, tuple):
        return any(has_unknown(a) for a in v)
    if isinstance(v, Str):
        return any(has_unknown(p) for p in v.parts if not isinstance(p, str))
    return False


def is_atom(a, b):
    return T('is', *sorted((a, b), key=repr))


class Reader(Interp):
    """interpretation of functions that build automata from learners' data structures"""

    def __init__(self, prog):
        super().__init__(prog)
        self.preconditions = True
        self.none_ok = True
        self.yields = []

    # ------------------------------------------------------------ terms
    def canon(self, v):
        """a row is the row of the one state it belongs to"""
        if isinstance(v, T) and v.op == 'row' and not (isinstance(v.args[0], T) and v.args[0].op == 'prefix'):
            return T('row', T('prefix', T('the', v.args[0])))
        return v

    def truth(self, v, st):
        if isinstance(v, T) and v.op == 'prefix':
            t = self.atom_truth(is_atom(v.args[0], INIT), st.ctx)
            return None if t is None else not t
        if isinstance(v, T) and v.op in ('cat', 'trace'):
            return True
        return super().truth(v, st)

    def cond(self, v, st, node):
        v = self.norm(v, st)
        if isinstance(v, T) and v.op == 'prefix':
            v = T('not', is_atom(v.args[0], INIT))
        return super().cond(v, st, node)

    def equality(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, T) and x.op in WORDS and (isinstance(y, (str, int)) or y is None):
                return False
            if isinstance(x, T) and x.op == 'prefix' and isinstance(y, (tuple, Ref)):
                if isinstance(y, Ref) and y.obj.kind == 'inst':
                    return False
                if isinstance(y, Ref) or y:
                    return None
                return True if x.args[0] == INIT else is_atom(x.args[0], INIT)
            if isinstance(x, T) and x.op == 'row' and isinstance(y, T) and y.op == 'row':
                return self.equality(x.args[0], y.args[0])
            if isinstance(x, T) and x.op in ('out', 'acc', 'osym', 'cell', 'part', 'key') and not isinstance(y, (T, Ref)):
                return None if not (y is None or isinstance(y, (bool, int, str))) else (
                    False if isinstance(y, str) or x.op in ('key', 'osym') else T('is', *sorted((x, y), key=repr)))
        return super().equality(a, b)

    def contains(self, a, b, st, n):
        if isinstance(b, Ref) and 'member' in b.obj.attrs:
            return b.obj.attrs['member']
        if isinstance(a, T) and a.op in ('acc', 'out', 'osym', 'cell'):
            es = self.iterate(b, st, n) if isinstance(b, (tuple, Seq, Ref)) and not (isinstance(b, Ref) and
                                                                                    b.obj.kind == 'inst') else None
            if es and not any(e.items for e in es):
                vals = [e.value for e in es]
                if a.op == 'acc' and {True, False} <= {v for v in vals if isinstance(v, bool)}:
                    return True
                if all(isinstance(v, (bool, int, str)) or v is None for v in vals):
                    return T('in', tuple(vals), a)
        if isinstance(b, Ref) and b.obj.kind in ('dict', 'set'):
            r = self.lookup(b, a, st, n)
            if isinstance(r, tuple) and r[0] == 'maybe' and len(r[1]) == 1:
                t = r[1][0]
                return t[1] if t[2] else T('not', t[1])
        r = super().contains(a, b, st, n)
        if isinstance(r, T) and r.op == 'in' and isinstance(r.args[0], int):
            return Unknown('membership')
        return r

    def lookup(self, ref, key, st, node, create=None):
        key = self.canon(self.norm(key, st))
        if key == () and any(isinstance(e.key, T) and e.key.op == 'prefix' for e in self.view_all(ref)):
            key = T('prefix', INIT)
        return super().lookup(ref, key, st, node, create)

    def binop(self, op, a, b, st, n):
        a, b = self.norm(a, st), self.norm(b, st)
        a, b = (T('size', x.args[0].args[0]) if isinstance(x, T) and x.op == 'len' and x.args[0].op == 'nonempty' else x
                for x in (a, b))
        if isinstance(op, ast.Add):
            if any(isinstance(x, T) and x.op in WORDS for x in (a, b)) and \
                    all(isinstance(x, tuple) or isinstance(x, T) and (x.op in WORDS or x.op in ('key', 'osym', 'out'))
                        for x in (a, b)):
                if any(isinstance(x, T) and x.op not in WORDS for x in (a, b)):
                    return Unknown('sum')
                parts = []
                for x in (a, b):
                    parts += list(x.args) if isinstance(x, T) and x.op == 'cat' else [x]
                merged = []
                for x in parts:
                    if isinstance(x, tuple) and merged and isinstance(merged[-1], tuple):
                        merged[-1] += x
                    elif x != ():
                        merged.append(x)
                return merged[0] if len(merged) == 1 else T('cat', *merged)
        ops = {ast.Div: '/', ast.Mult: '*', ast.Add: '+', ast.Sub: '-'}
        if type(op) in ops and not isinstance(a, Alt) and not isinstance(b, Alt) and \
                all(numeric(x) for x in (a, b)) and \
                (isinstance(a, T) or isinstance(b, T)):
            o = ops[type(op)]
            if b == 1 and o in '*/' or b == 0 and o in '+-':
                return a
            if a == 1 and o == '*' or a == 0 and o == '+':
                return b
            return T(o, *(sorted((a, b), key=repr) if o in COMM else (a, b)))
        return super().binop(op, a, b, st, n)

    def get_item(self, v, k, st, n):
        if isinstance(v, T) and not isinstance(k, Alt):
            if v.op in ('row', 'dist'):
                return T('cell', self.canon(v), k)
            if v.op in ('prefix', 'trace', 'cat', 'part', 'word') and isinstance(k, int):
                if v.op == 'cat':
                    e = v.args[-1] if k < 0 else v.args[0]
                    if isinstance(e, tuple) and (-len(e) <= k < 0 or 0 <= k < len(e)):
                        return e[k]
                return T('part', v, k)
        return super().get_item(v, k, st, n)

    def getattr(self, v, name, st, n):
        if isinstance(v, Ref) and v.obj.kind == 'inst' and v.obj.attrs.get('partial') and name not in v.obj.fields:
            if name in self.models:
                from .schema import Bound
                return Bound(v, name)
            if not isinstance(v.obj.cls, object.__class__) and (v.obj.cls is None or self.class_attr(v.obj.cls, name) is None):
                return Unknown('field ' + name)
        return super().getattr(v, name, st, n)

    def m_list_index(self, v, a, kw, st, n):
        if 'name' in v.obj.attrs:
            return T('index', v.obj.attrs['name'], a[0])
        return Unknown('index')

    # ------------------------------------------------------------ loops
    @staticmethod
    def counter(s, n):
        """is the variable only increased by one, once in every iteration?"""
        hits = [x for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and x.id == n and
                isinstance(x.ctx, (ast.Store, ast.Del))]
        if len(hits) != 1 or hits[0].parent not in s.body:
            return False
        p = hits[0].parent
        if any(isinstance(x, (ast.Continue, ast.Break)) for b in s.body for x in ast.walk(b)):
            return False
        if isinstance(p, ast.AugAssign):
            return isinstance(p.op, ast.Add) and isinstance(p.value, ast.Constant) and p.value.value == 1
        return isinstance(p, ast.Assign) and ast.unparse(p.value) in (f'{n} + 1', f'1 + {n}')

    def not_left(self, s, items):
        bs = [i[1] for i in items if i[0] == 'bind']
        if any(isinstance(x, ast.Break) for x in s.body) and len(bs) == 1 and not any(
                isinstance(x, ast.Continue) for b in s.body for x in ast.walk(b)):
            return T('first', bs[0])          # left at the end of the first iteration
        return super().not_left(s, items)

    def carried(self, s, n, v, items):
        bs = [i for i in items if i[0] == 'bind']
        if isinstance(v, int) and len(bs) == 1 and isinstance(s, ast.For) and self.counter(s, n):
            return T('pos', bs[0][1])
        return super().carried(s, n, v, items)

    def after(self, s, n, v, items):
        bs = [i for i in items if i[0] == 'bind']
        if isinstance(v, int) and len(bs) == 1 and isinstance(s, ast.For) and self.counter(s, n):
            return T('pos', T('end', bs[0][2]))
        return super().after(s, n, v, items)

    def s_While(self, s, st):
        """a worklist: `while L: x = L.pop(0); ...` is a loop over L if nothing is added to it"""
        first = s.body[0] if s.body else None
        v = first.value if isinstance(first, ast.Assign) and len(first.targets) == 1 else None
        test = s.test
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Gt, ast.NotEq)) and \
                isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value == 0:
            test = test.left
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == 'len':
            test = test.args[0]
        if not (isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ('pop', 'popleft') and
                ast.dump(v.func.value) == ast.dump(test)) or s.orelse or any(
                isinstance(x, ast.Break) for b in s.body for x in ast.walk(b)):
            return super().s_While(s, st)
        it = self.norm(self.expr(v.func.value, st), st)
        if not (isinstance(it, Ref) and it.obj.kind == 'list'):
            raise Bail('while loop', s)
        loop = ast.copy_location(ast.For(first.targets[0], v.func.value, s.body[1:], []), s)
        loop.parent = s.parent
        n = len(it.obj.entries)
        outs = self.loop(loop, it, st)
        if len(it.obj.entries) != n:
            raise Bail('worklist grows', s)
        it.obj.entries[:] = []
        return outs

    # ------------------------------------------------------------ functions
    def total(self, v, st, n):
        """sum of the elements of a collection"""
        es = self.iterate(v, st, n)
        terms = []
        for e in es:
            items, val = list(e.items), self.norm(e.value, st)
            if isinstance(val, Alt):
                return Unknown('sum')
            left = []
            for it in items:                      # equalities fix binders
                if it[0] != 'if' or it[1].op != 'is' or not it[2]:
                    left.append(it)
                    continue
                free = {i[1] for i in items if i[0] == 'bind'}
                x, y = it[1].args
                s = unify(x, y, free, {}) or unify(y, x, free, {})
                if not s:
                    left.append(it)
                    continue
                val = subst(val, s)
                items = [i for i in subst_items(tuple(items), s) if not (i[0] == 'bind' and i[1] in s.values())]
                left = [i for i in subst_items(tuple(left), s) if not (i[0] == 'bind' and (i[1] in s.values()))]
            left = [i for i in left if i[0] == 'if' or i[1].op == 'b']
            ren = {}
            doms = []
            for it in left:
                if it[0] == 'bind':
                    ren[it[1]] = T('β', len(ren))
                    doms.append(subst(it[2], ren))
                elif self.atom_truth(it[1], st.ctx) != it[2]:
                    doms.append(('if', subst(it[1], ren), it[2]))
            val = subst(val, ren)
            if not numeric(val):
                return Unknown('sum')
            terms.append(T('SUM', tuple(doms), val) if doms else val)
        if not terms:
            return 0
        r = terms[0]
        for t in terms[1:]:
            r = self.binop(ast.Add(), r, t, st, n)
        return r

    def external(self, name, args, kw, st, n):
        args = [self.norm(a, st) for a in args]
        if name == 'sum' and len(args) == 1 and not isinstance(args[0], (Alt, T)):
            return self.total(args[0], st, n)
        if name in ('math.fsum', 'fsum'):
            return self.external('sum', args, kw, st, n)
        if name == 'tuple' and args and isinstance(args[0], T) and args[0].op in (WORDS | {'row'}):
            return args[0]
        if name in ('enumerate', 'zip') and (args or kw):
            if name == 'enumerate':
                start = args[1] if len(args) > 1 else kw.get('start', 0)
                es = self.iterate(args[0], st, n)
                if any(e.items for e in es) and isinstance(start, int):
                    out = []
                    for i, e in enumerate(es):
                        e = self.fresh(e)
                        bs = [x for x in e.items if x[0] == 'bind']
                        if not e.items and not any(y.items for y in es[:i]):
                            out.append(Entry((), None, (i + start, e.value)))
                        elif len(bs) == 1:
                            out.append(Entry(e.items, None, (T('pos', bs[0][1]), e.value)))
                        else:
                            out.append(Entry(e.items, None, (Unknown('index'), e.value)))
                    return Seq(out)
        if name == 'len' and len(args) == 1:
            v = args[0]
            if isinstance(v, T) and v.op == 'prefix':
                return T('len', T('not', is_atom(v.args[0], INIT)))
            if isinstance(v, Seq) or isinstance(v, Ref) and v.obj.kind in ('list', 'dict', 'set'):
                es = self.iterate(v, st, n)
                if not es and not (isinstance(v, Ref) and v.obj.attrs):
                    return 0
                if len(es) == 1 and len(es[0].items) == 1 and es[0].items[0][0] == 'bind':
                    return T('len', T('nonempty', es[0].items[0][2]))
                if es and not any(i[0] == 'bind' for e in es for i in e.items) and len(es) == 1 and not es[0].items:
                    return 1
        if name in ('itertools.product', 'product') and not kw and args:
            seqs = [[self.fresh(e) for e in self.iterate(a, st, n)] for a in args]
            out = [Entry((), None, ())]
            for es in seqs:
                out = [Entry(x.items + y.items, None, x.value + (y.value,)) for x in out for y in map(self.fresh, es)]
            return Seq(out)
        if name == 'bool' and len(args) == 1 and isinstance(args[0], T) and args[0].op == 'acc':
            return args[0]
        if name == 'round' and len(args) >= 1 and isinstance(args[0], T):
            return T('round', *args)
        return super().external(name, args, kw, st, n)

    def compare(self, op, a, b, st, n):
        a, b = self.norm(a, st), self.norm(b, st)
        for x, y, flip in ((a, b, False), (b, a, True)):
            if isinstance(x, T) and x.op == 'len' and isinstance(y, int):
                o = type(op)
                if flip:
                    o = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(o, o)
                some = {(ast.Eq, 0): False, (ast.NotEq, 0): True, (ast.Gt, 0): True, (ast.GtE, 1): True, (ast.Lt, 1): False,
                        (ast.LtE, 0): False}.get((o, y))
                if some is not None:
                    c = x.args[0]
                    while c.op == 'not':
                        c, some = c.args[0], not some
                    return c if some else T('not', c)
        if numeric(a) and numeric(b) and (isinstance(a, T) or isinstance(b, T)):
            o = type(op)
            if o in (ast.Eq, ast.NotEq):
                c = T('numeq', *sorted((a, b), key=repr))
                return c if o is ast.Eq else T('not', c)
            if o in (ast.Lt, ast.Gt):
                return T('lt', *((a, b) if o is ast.Lt else (b, a)))
            if o in (ast.LtE, ast.GtE):
                return T('not', T('lt', *((b, a) if o is ast.LtE else (a, b))))
        return super().compare(op, a, b, st, n)

    def e_Yield(self, n, st):
        v = self.expr(n.value, st) if n.value is not None else None
        self.store(self.yields[-1], st, None, v)
        return None

    def call(self, f, args, kw, st, n):
        if isinstance(f.node, ast.FunctionDef) and f.node.name in self.models and f.self_val is not None:
            return self.models[f.node.name](self, f.self_val, args, kw, st, n)
        if isinstance(f.node, ast.FunctionDef) and any(isinstance(x, ast.Yield) for x in ast.walk(f.node)) and \
                not any(isinstance(x, (ast.YieldFrom, ast.Return)) for x in ast.walk(f.node)):
            body = self.no_yield(f.node)
            self.yields.append(self.new('list', st))
            try:
                super().call(Func(body, f.env, f.self_val, f.cls), args, kw, st, n)
                return self.yields[-1]
            finally:
                self.calls.discard(body)
                self.calls.add(f.node)
                self.yields.pop()
        return super().call(f, args, kw, st, n)

    def no_yield(self, node):
        """the function seen as one that collects what it yields"""
        key = ('gen', node)
        if key not in self.cfg_cache:
            self.cfg_cache[key] = Collector(node)
        return self.cfg_cache[key]


class Collector(ast.AST):
    """stands for a generator function; hides that it is one"""
    _fields = ()

    def __init__(self, node):
        self.real = node
        self.body, self.args, self.name, self.mod = node.body, node.args, node.name, node.mod
        self.lineno = node.lineno


NUMBERS = {'count', 'ocount', 'SUM', 'freq', 'prob', '/', '*', '+', '-', 'cell', 'size', 'round'}
ATOMS |= {'first', 'lt', 'numeq'}


def numeric(v):
    if isinstance(v, (int, float)):
        return not isinstance(v, bool)
    return isinstance(v, T) and v.op in NUMBERS and (v.op != 'cell' or isinstance(v.args[0], T) and v.args[0].op == 'dist')


class Valuation:
    """values for the opaque numbers: counts are positive, a collection has three elements"""
    SIZE = 3

    def __init__(self, seed):
        import random
        self.rng = random.Random(seed)
        self.big = self.rng.random() < .5
        self.values = {}

    def leaf(self, v):
        if v not in self.values:
            small = v.op in ('prob', 'cell')
            n = self.rng.randint(1, 10 ** self.rng.randint(1, 8)) if self.big else self.rng.randint(1, 7)
            self.values[v] = Fraction(1, n) if small else Fraction(n)
        return self.values[v]

    def __call__(self, v):
        if isinstance(v, (int, float)):
            return Fraction(v)
        if v.op == 'size':
            return Fraction(self.SIZE)
        if v.op == 'SUM':
            doms = [d for d in v.args[0]]
            return self.sum(doms, v.args[1], {}, 0)
        if v.op == 'round':
            return Fraction(round(float(self(v.args[0])), *[a for a in v.args[1:] if isinstance(a, int)]))
        if v.op in ('/', '*', '+', '-'):
            a, b = map(self, v.args)
            return a / b if v.op == '/' else a * b if v.op == '*' else a + b if v.op == '+' else a - b
        return self.leaf(v)

    def sum(self, doms, body, sub, i):
        if not doms:
            return self(subst(body, sub))
        d = doms[0]
        if isinstance(d, tuple):          # ('if', atom, truth)
            a = subst(d[1], sub)
            if a not in self.values:
                self.values[a] = self.rng.random() < .5
            return self.sum(doms[1:], body, sub, i) if self.values[a] == d[2] else Fraction(0)
        return sum((self.sum(doms[1:], body, {**sub, T('β', i): T('el', subst(d, sub), j)}, i + 1) for j in range(self.SIZE)),
                   Fraction(0))

    def atom(self, a):
        x, y = map(self, a.args)
        return x < y if a.op == 'lt' else x == y


def same_number(a, b):
    try:
        return all(v(a) == v(b) for v in map(Valuation, range(6)))
    except ZeroDivisionError:
        return None
UNIQUE |= {'prefix', 'node'}


class Spec:
    """what the built automaton has to be: type, state values, transitions"""
    action = sink = None

    def __init__(self, m, name, value=None):
        self.m, self.name, self.value = m, name, value
        mod, scls, _ = TYPES[name]
        self.cls, self.scls, self.mod = m.cls(mod, name), m.cls(mod, scls), mod

    def state_value(self, x):
        return self.value(x)


class Read(Image):
    """image of a structure whose elements are known by their binder, not by an identifier"""
    single = False          # one transition per input, and yet in a list

    def __init__(self, m, spec, out, **kw):
        terms = {k: kw.pop(k) for k in ('key', 'tgt', 'out_of', 'prob', 'items_of', 'guard') if k in kw}
        self.single = kw.pop('single', False)
        self.per_state = kw.pop('per_state', True)
        super().__init__(m, spec, out, **kw)
        for k, f in terms.items():
            setattr(self, k, f)

    def need(self, ok, msg):
        if ok is False and ("?(" in msg):
            ok = None
        return super().need(ok, msg)

    def same(self, a, b, case=()):
        m = self.m
        if isinstance(a, Alt):
            a = m.norm(a, State(None, tuple(case)))
        if isinstance(a, Alt):
            rs = [(any(i[0] == 'if' and has_unknown(i[1]) for i in g), self.same(x, b, tuple(case) + tuple(g))) for g, x in
                  a.options]
            if any(r is False and not u for u, r in rs):
                return False
            return True if all(r is True for _, r in rs) else None
        if has_unknown(a):
            return None
        if numeric(a) and numeric(b) and (isinstance(a, T) or isinstance(b, T)):
            return True if a == b else same_number(a, b)
        if isinstance(b, T) and b.op == 'acc':
            none = m.atom_truth(T('is', *sorted((None, b), key=repr)), case)
            if none is True and a in (None, False) and not isinstance(a, (int, float)) or none is True and a is False:
                return True
            for c in (True, False, None):
                if m.atom_truth(T('is', *sorted((c, b), key=repr)), case) is True and a is c:
                    return True
        return super().same(a, b, case)

    def candidates(self, x, case):
        m, out = self.m, []
        for items, v in self.entries:
            bs = [i for i in items if i[0] == 'bind']
            for g, w in (v.options if isinstance(v, Alt) else [((), v)]):
                if not (isinstance(w, Ref) and w.obj.kind == 'inst'):
                    out.append((None, w))
                    continue
                if len(bs) == 1 and bs[0][2] == STATES:
                    s = {bs[0][1]: x}
                elif not bs:
                    if self.is_extra(w):
                        continue
                    s = {}
                else:
                    out.append((None, w))
                    continue
                its = subst_items(tuple(items) + tuple(g), s)
                t = m.items_truth(its, case)
                if not bs and t is not False:
                    e = m.atom_truth(is_atom(x, INIT), case)
                    t = False if e is False else (t if e else None)
                if t is False:
                    continue
                if any(i[0] == 'if' and has_unknown(i[1]) for i in its):
                    t = None if t is None else t
                out.append((t, subst(w, s)))
        return out

    def is_extra(self, w):
        sid = self.m.norm(self.state_id(w, ()), State(None, ()))
        return w.obj.attrs.get('extra') or isinstance(sid, str) and sid in self.extra_ok or w in self.extra_ok

    def image(self, x, case, what):
        c = self.candidates(x, case)
        if len(c) == 1 and c[0][0] is True:
            self.need(True, f'{what} has one image')
            return c[0][1]
        if not c:
            self.need(False, f'{what} has no image in the states of the result')
        elif all(t is True for t, _ in c):
            self.need(False, f'{what} has {len(c)} images in the states of the result')
        else:
            self.need(None, f'{what}: image not decided')
        return None

    def cases(self, cands, case, what, name, good, overwrite=False):
        if any(has_unknown(i[1]) for g, _ in cands for i in g if self.m.atom_truth(i[1], case) is None):
            self.need(None, f'{name} of {what}: condition not decided')
            return
        if overwrite:
            cands = [(tuple(i for i in g if not (i[1].op == 'last' and self.grouped(v))), v) for g, v in cands]
        super().cases(cands, case, what, name, good, overwrite)

    @staticmethod
    def grouped(v):
        return False

    def feasible(self, case):
        atoms = [i for i in case if i[0] == 'if' and i[1].op in ('lt', 'numeq')]
        if not atoms:
            return True
        for seed in range(300):
            v = Valuation(seed)
            try:
                if all(v.atom(i[1]) == i[2] for i in atoms):
                    return True
            except ZeroDivisionError:
                pass
        return None

    def check_state(self, x, w, case, what):
        sid = self.m.norm(self.state_id(w, case), State(None, case))
        if x != INIT and not is_unknown(sid) and not has_unknown(sid) and not isinstance(sid, Alt):
            from .schema import binders_in, injective
            b = self.m.binder('probe')
            probe = subst(sid, {x: b})
            sure = set()
            injective(probe, sure)
            if b not in sure and x not in binders_in(sid):
                self.need(False if b not in binders_in(probe) else None, f'the identifier of {what} is {sid!r} for every state')
            else:
                self.need(True, f'identifier of {what}')
        tr = self.fieldv(w, 'transitions', case, what)
        tr = self.m.norm(tr, State(None, case))
        if isinstance(tr, Alt) and self.model.name == 'MarkovChain':
            for g, v in tr.options:
                cs = case + tuple(g)
                if any(i[1].op == 'has' and not i[2] for i in g):
                    ok = isinstance(v, Ref) and v.obj.kind == 'list' and not v.obj.entries
                    self.need(ok, f'transitions of {what} without the input are {v!r}')
                elif isinstance(v, Ref) and v.obj.kind == 'list':
                    self.check_items(v, x, None, cs, what)
                else:
                    self.need(None, f'transitions of {what} not decided')
            if self.model.name in STATE_FIELD:
                f = STATE_FIELD[self.model.name]
                self.check_field(w, f, self.state_value(x), case, f'{f} of {what}')
            return
        super().check_state(x, w, case, what)

    def check_items(self, ls, x, kappa, case, what, outer=()):
        if not self.single:
            return super().check_items(ls, x, kappa, case, what, outer)
        m = self.m
        cands = []
        for e in m.view(ls):
            e = m.fresh(e)
            if any(i[0] == 'bind' for i in e.items):
                self.need(False, f'several transitions of {what} for one input')
                return
            cands.append((e.items, e.value))
        iota = T('iota')
        a = (x, iota) if kappa is None else (x, kappa, iota)
        self.cases(cands, case, what, 'transition', lambda v, cs: self.item_ok(v, x, kappa, iota, a, cs))


# ---------------------------------------------------------------- sources
def inst(m, cls, ctx=(), **fields):
    o = Obj('inst', ctx, cls)
    o.attrs['partial'] = True
    o.fields = {k: [((), v)] for k, v in fields.items()}
    return o


def here(o):
    return Ref(o, tuple((i[1], i[1]) for i in o.ctx if i[0] == 'bind'))


def state_list(m, at, kind='list'):
    """the elements in order: the initial one first"""
    ls = Obj(kind, ())
    b = m.binder('s')
    key0, key1 = (at(INIT), at(b)) if kind != 'list' else (None, None)
    ls.entries.append(Entry((), key0, at(INIT)))
    ls.entries.append(Entry((('bind', b, STATES), ('if', is_atom(b, INIT), False)), key1, at(b)))
    return Ref(ls, ())


def gsm_source(m, tb, ob):
    cls = m.cls(L + 'general_passive.GsmNode', 'GsmNode')
    info = m.cls(L + 'general_passive.GsmNode', 'TransitionInfo')
    s, k, j = m.binder('s'), m.binder('k'), m.binder('j')
    sctx = (('bind', s, STATES),)
    node = inst(m, cls, sctx)
    kitem = ('bind', k, T('KEYS', s))
    a = (s, k) if tb == 'deterministic' else (s, k, j)
    jitem = () if tb == 'deterministic' else (('bind', j, T('ITEMS', s, k)),)

    def at(t):
        return Ref(node, ((s, t),))
    ti = inst(m, info, sctx + (kitem,) + jitem, target=at(T('tgt', *a)), count=T('count', *a),
              original_target=at(T('otgt', *a)), original_count=T('ocount', *a))
    inner = Obj('dict', sctx + (kitem,))
    inner.entries.append(Entry(jitem, T('osym', *a), here(ti)))
    outer = Obj('dict', sctx)
    outer.entries.append(Entry((kitem,), T('key', s, k), here(inner)))
    node.fields = {'transitions': [((), here(outer))], 'prefix_access_pair': [((), (T('pin', s), T('out', s)))]}
    m.models.update(get_all_nodes=lambda *_: state_list(m, at), is_moore=lambda *_: True, is_deterministic=lambda *_: True,
                    get_prefix=lambda *_: Unknown('prefix'))
    return at(INIT)


def rpni_source(m, kind):
    cls = m.cls(L + 'deterministic_passive.rpni_helper_functions', 'RpniNode')
    s, k = m.binder('s'), m.binder('k')
    sctx, kitem = (('bind', s, STATES),), ('bind', k, T('KEYS', s))
    node = inst(m, cls, sctx)

    def at(t):
        return Ref(node, ((s, t),))
    ch = Obj('dict', sctx)
    ch.entries.append(Entry((kitem,), T('key', s, k), at(T('tgt', s, k))))
    if kind == 'mealy':
        of = Obj('dict', sctx)
        of.entries.append(Entry((kitem,), T('key', s, k), T('out', s, k)))
        out = here(of)
    else:
        out = T('acc', s) if kind == 'dfa' else T('out', s)
    node.fields = {'children': [((), here(ch))], 'prefix': [((), T('prefix', s))], 'output': [((), out)],
                   'type': [((), kind)]}
    return state_list(m, at)


def alergia_source(m, kind):
    mod = L + 'stochastic_passive.FPTA'
    cls = m.cls(mod, 'AlergiaPtaNode')
    s, k, j = m.binder('s'), m.binder('k'), m.binder('j')
    sctx = (('bind', s, STATES),)
    node = inst(m, cls, sctx)

    def at(t):
        return Ref(node, ((s, t),))
    if kind == 'mc':
        items, a = (('bind', k, T('ITEMS', s)),), (s, k)
        key = T('key', s, k)
    else:
        items, a = (('bind', k, T('KEYS', s)), ('bind', j, T('ITEMS', s, k))), (s, k, j)
        key = (T('key', s, k), T('osym', s, k, j))
    ch, fr, fr0 = Obj('dict', sctx), Obj('dict', sctx), Obj('dict', sctx)
    ch.entries.append(Entry(items, key, at(T('tgt', *a))))
    fr.entries.append(Entry(items, key, T('freq', *a)))
    fr0.entries.append(Entry(items, key, T('freq', T('original'), *a)))
    node.fields = {'children': [((), here(ch))], 'input_frequency': [((), here(fr))], 'prefix': [((), T('prefix', s))],
                   'original_input_frequency': [((), here(fr0))], 'original_children': [((), here(ch))],
                   'output': [((), T('out', s))], 'state_id': [((), T('sid', s))], 'children_prob': [((), None)]}
    return state_list(m, at)


def table_source(m, kind):
    """observation table of L*: closed, and the rows of the states differ"""
    cls = m.cls(L + 'deterministic.ObservationTable', 'ObservationTable')
    alpha = Obj('list', ())
    b = m.binder('k')
    alpha.entries.append(Entry((('bind', b, T('KEYS', T('any'))),), None, (T('key', T('any'), b),)))
    rows = Obj('dict', ())
    w = m.binder('w')
    rows.entries.append(Entry((('bind', w, T('WORDS')),), w, T('row', w)))
    rows.attrs['rows'] = True
    e = Obj('list', ())
    e.attrs['name'] = 'E'
    tab = inst(m, cls, (), A=Ref(alpha, ()), T=Ref(rows, ()), E=Ref(e, ()), automaton_type=kind,
               S=state_list(m, lambda t: T('prefix', t)))
    m.models['_get_row_representatives'] = lambda mm, *_: state_list(mm, lambda t: T('prefix', t))
    return Ref(tab, ())


KAPPA_ANY = dict(key=lambda x, k: T('key', T('any'), k))


def row_of(x):
    return T('row', T('prefix', x))


def tree_source(m, kind):
    """observation tree of L#: basis, frontier and the one candidate of each frontier node"""
    mod = L + 'deterministic.ObservationTree'
    cls = m.cls(mod, 'ObservationTree')
    s = m.binder('s')
    node = inst(m, None, (('bind', s, STATES),), output=T('acc' if kind == 'dfa' else 'out', s))

    def at(t):
        return Ref(node, ((s, t),))
    alpha = Obj('list', ())
    b = m.binder('k')
    alpha.entries.append(Entry((('bind', b, T('KEYS', T('any'))),), None, T('key', T('any'), b)))
    front = Obj('dict', ())
    f = m.binder('f')
    fitem, guard = ('bind', f, T('FRONTIER')), ('if', T('frontier', f), True)
    cand = Obj('set', (fitem, guard))
    cand.entries.append(Entry((), at(T('cand', f)), at(T('cand', f))))
    front.entries.append(Entry((fitem, guard), at(f), Ref(cand, ((f, f),))))
    tree = inst(m, cls, (), basis=state_list(m, at), alphabet=Ref(alpha, ()), frontier_to_basis_dict=Ref(front, ()),
                automaton_type=kind, root=at(INIT))

    def node_of(v):
        if not (isinstance(v, Ref) and v.obj is node):
            raise Bail('successor of something else')
        return v.sub[0][1]
    m.models.update(get_successor=lambda mm, v, a, kw, st, n: at(T('succ', node_of(v), (a or list(kw.values()))[0])),
                    get_output=lambda mm, v, a, kw, st, n: T('out', node_of(v), (a or list(kw.values()))[0]),
                    compute_prefixes=lambda *_: None, compute_characterization_set=lambda *_: Unknown('set'))
    return Ref(tree, ())


def onfsm_source(m):
    cls = m.cls(L + 'non_deterministic.OnfsmObservationTable', 'NonDetObservationTable')
    alpha = Obj('list', ())
    b = m.binder('k')
    alpha.entries.append(Entry((('bind', b, T('KEYS', T('any'))),), None, (T('key', T('any'), b),)))

    def traces(mm, v, a, kw, st, n):
        p, i = (list(a) + list(kw.values()))[:2]
        ls = Obj('list', st.ctx)
        j = mm.binder('j')
        ls.entries.append(Entry((('bind', j, T('ITEMS', p, i)),), None, T('trace', p, i, j)))
        return Ref(ls, tuple((x[1], x[1]) for x in st.ctx if x[0] == 'bind'))
    cache = inst(m, None)
    sul = inst(m, None, (), cache=Ref(cache, ()))
    tab = inst(m, cls, (), A=Ref(alpha, ()), S=state_list(m, lambda t: T('prefix', t)), sul=Ref(sul, ()),
               E=Ref(Obj('list', ()), ()))
    m.models.update(get_all_traces=traces, row_to_hashable=lambda mm, v, a, kw, st, n: mm.canon(T('row', a[0])),
                    get_sampling_distributions=lambda mm, v, a, kw, st, n: T('dist', *a[:2]))
    return Ref(tab, ())


CASES = []


def case(pid, label, mod, qual):
    def deco(f):
        CASES.append((pid, label, mod, qual, f))
        return f
    return deco


def conversions():
    for ob, tb, name in (('moore', 'deterministic', 'MooreMachine'), ('moore', 'nondeterministic', 'NDMooreMachine'),
                         ('moore', 'stochastic', 'Mdp'), ('mealy', 'deterministic', 'MealyMachine'),
                         ('mealy', 'nondeterministic', 'Onfsm'), ('mealy', 'stochastic', 'StochasticMealyMachine')):
        def gsm(m, mod, out, ob=ob, tb=tb, name=name):
            root = gsm_source(m, tb, ob)
            a = ('s',)
            aut = run_expr(m, f'root.to_automaton({ob!r}, {tb!r})', {'root': root}, mod)

            def prob(*a):
                return T('/', T('count', *a), T('SUM', (T('ITEMS', *a[:-1]),), T('count', *a[:-1], T('β', 0))))
            Read(m, Spec(m, name, lambda x: T('out', x)), out, prob=prob, out_of=lambda *a: T('osym', *a)).run(aut)
        yield 'C23', f'GsmNode.to_automaton {ob} {tb}', L + 'general_passive.GsmNode', 'GsmNode.to_automaton', gsm
    for kind, name in (('dfa', 'Dfa'), ('moore', 'MooreMachine'), ('mealy', 'MealyMachine')):
        def rpni(m, mod, out, kind=kind, name=name):
            red = rpni_source(m, kind)
            aut = run_expr(m, f'to_automaton(red, {kind!r})', {'red': red}, mod)
            Read(m, Spec(m, name, lambda x: T('acc' if kind == 'dfa' else 'out', x)), out).run(aut)
        yield 'C23', f'RPNI to_automaton {kind}', L + 'deterministic_passive.rpni_helper_functions', 'to_automaton', rpni
    for kind, name in (('mdp', 'Mdp'), ('mc', 'MarkovChain'), ('smm', 'StochasticMealyMachine')):
        def alergia(m, mod, out, kind=kind, name=name):
            red = alergia_source(m, kind)
            o = inst(m, m.cls(L + 'stochastic_passive.Alergia', 'Alergia'), (), automaton_type=kind, print_info=False)
            env = {'self': Ref(o, ()), 'red': red}
            run_expr(m, 'self.normalize(red)', env, mod)
            aut = run_expr(m, 'self.to_automaton(red)', env, mod)

            def prob(*a):
                return T('/', T('freq', *a), T('SUM', (T('ITEMS', *a[:-1]),), T('freq', *a[:-1], T('β', 0))))
            Read(m, Spec(m, name, lambda x: T('out', x)), out, prob=prob, out_of=lambda *a: T('osym', *a)).run(aut)
        yield 'C23', f'Alergia {kind}', L + 'stochastic_passive.Alergia', 'Alergia.to_automaton', alergia

    def dfa(m, mod, out):
        src = Model(m, 'MooreMachine')
        src.state.fields['output'] = [((), T('acc', src.s))]
        aut = run_expr(m, 'dfa_from_moore(model)', {'model': src.ref}, mod)
        Read(m, Spec(m, 'Dfa', lambda x: T('acc', x)), out).run(aut)
    yield 'C23', 'dfa_from_moore', 'aalpy.utils.HelperFunctions', 'dfa_from_moore', dfa

    for given in (False, True):
        def mc(m, mod, out, given=given):
            src, tok = mdp_one_input(m, given)
            ls = Obj('list', ())
            for x in (['other'] if given else []) + [tok]:
                ls.entries.append(Entry((), None, x))
            m.models['get_input_alphabet'] = lambda *_: Ref(ls, ())
            aut = run_expr(m, 'mc_from_mdp(model, tok)' if given else 'mc_from_mdp(model)', {'model': src.ref, 'tok': tok}, mod)
            Read(m, Spec(m, 'MarkovChain', lambda x: T('out', x)), out).run(aut)
        yield 'C23', 'mc_from_mdp' + (' for a given input' if given else ''), 'aalpy.utils.HelperFunctions', 'mc_from_mdp', mc

    for action in ('push', 'pop', None):
        def vpa(m, mod, out, action=action):
            src = Model(m, 'Dfa')
            s, k = src.s, m.binder('k')
            tr = src.state.fields['transitions'][0][1].obj
            kitem = ('bind', k, T('KEYS', s))
            if action == 'pop':
                j = m.binder('j')
                tr.entries[:] = [Entry((kitem, ('bind', j, T('ITEMS', s, k))), (T('key', s, k), T('osym', s, k, j)),
                                       src.at(T('tgt', s, k, j)))]
            else:
                tr.entries[:] = [Entry((kitem,), T('key', s, k), src.at(T('tgt', s, k)))]
            al = inst(m, None)
            for n, a in (('call_alphabet', 'push'), ('return_alphabet', 'pop'), ('internal_alphabet', None)):
                ls = Obj('list', ())
                ls.attrs['member'] = action == a
                al.fields[n] = [((), Ref(ls, ()))]
            aut = run_expr(m, 'vpa_from_dfa_representation(model, al)', {'model': src.ref, 'al': Ref(al, ())}, mod)
            spec = Spec(m, 'Vpa', lambda x: T('acc', x))
            spec.action = action
            VpaRead(m, spec, out, single=action != 'pop',
                    tgt=(lambda *a: T('tgt', *a)) if action == 'pop' else (lambda x, k, j: T('tgt', x, k)),
                    guard=(lambda x, k, j: T('osym', x, k, j)) if action == 'pop' else (lambda x, k, j: T('key', x, k))).run(aut)
        yield 'C23', f'vpa_from_dfa_representation {action}', A + 'Vpa', 'vpa_from_dfa_representation', vpa


class VpaRead(Read):
    def item_ok(self, v, x, kappa, iota, a, cs):
        m = self.m
        v = m.norm(v, State(None, cs))
        if not (isinstance(v, Ref) and v.obj.kind == 'inst' and v.obj.cls.name == 'VpaTransition'):
            return None if is_unknown(v) else False
        g = m.norm(self.fieldv(v, 'stack_guard', cs, ''), State(None, cs))
        rs = [self.same_state(self.fieldv(v, 'target_state', cs, ''), self.tgt(*a), cs),
              self.same_state(self.fieldv(v, 'start', cs, ''), x, cs),
              self.same(m.norm(self.fieldv(v, 'letter', cs, ''), State(None, cs)), self.key(x, kappa)),
              self.same(self.fieldv(v, 'action', cs, ''), self.model.action),
              self.same(g, self.guard(*a) if self.model.action else None)]
        return False if any(r is False for r in rs) else (None if any(r is None for r in rs) else True)


def mdp_one_input(m, given):
    src = Model(m, 'Mdp')
    s, j = src.s, m.binder('j')
    tok = T('key', T('one'), T('one'))
    tr = src.state.fields['transitions'][0][1].obj
    tr.entries[:] = []
    has = ('if', T('has', s), True)
    for key, extra in ((tok, ()),) + ((('other', ('o',)),) if given else ()):
        ls = Obj('list', src.sctx + (has,))
        it = ('bind', j, T('ITEMS', s, *extra))
        a = (s, j) + tuple(extra)
        ls.entries.append(Entry((it,), None, (src.at(T('tgt', *a)), T('prob', *a))))
        tr.entries.append(Entry((has,), key, Ref(ls, ((s, s),))))
    return src, tok


def hypotheses():
    for kind, name in (('dfa', 'Dfa'), ('moore', 'MooreMachine'), ('mealy', 'MealyMachine')):
        for flag in (False, True):
            def table(m, mod, out, kind=kind, name=name, flag=flag):
                tab = table_source(m, kind)
                aut = run_expr(m, f'tab.gen_hypothesis(no_cex_processing_used={flag})', {'tab': tab}, mod)
                Read(m, Spec(m, name, lambda x: T('cell', row_of(x), 0)), out, key=lambda x, k: T('key', T('any'), k),
                     tgt=lambda x, k: T('the', T('cat', T('prefix', x), (T('key', T('any'), k),))),
                     out_of=lambda x, k: T('cell', row_of(x), T('index', 'E', (T('key', T('any'), k),)))).run(aut)
            yield 'C24', f'ObservationTable.gen_hypothesis {kind}' + (' (no cex processing)' if flag else ''), \
                L + 'deterministic.ObservationTable', 'ObservationTable.gen_hypothesis', table

        def tree(m, mod, out, kind=kind, name=name):
            t = tree_source(m, kind)
            aut = run_expr(m, 'tree.construct_hypothesis()', {'tree': t}, mod)
            TreeRead(m, Spec(m, name, lambda x: T('acc' if kind == 'dfa' else 'out', x)), out,
                     key=lambda x, k: T('key', T('any'), k), tgt=lambda x, k: T('succ', x, T('key', T('any'), k)),
                     out_of=lambda x, k: T('out', x, T('key', T('any'), k))).run(aut)
        yield 'C24', f'ObservationTree.construct_hypothesis {kind}', L + 'deterministic.ObservationTree', \
            'ObservationTree.construct_hypothesis', tree
        def kv(m, mod, out, kind=kind, name=name):
            t = kv_source(m, kind)
            aut = run_expr(m, 'tree.update_hypothesis()', {'tree': t}, mod)

            def word(x, k):
                return T('cat', T('prefix', x), (T('key', T('any'), k),))
            Read(m, Spec(m, name, lambda x: T('acc' if kind == 'dfa' else 'out', x)), out, key=lambda x, k: T('key', T('any'), k),
                 tgt=lambda x, k: T('the', word(x, k)), out_of=lambda x, k: T('part', T('trace', word(x, k)), -1)).run(aut)
        yield 'C24', f'ClassificationTree.update_hypothesis {kind}', L + 'deterministic.ClassificationTree', \
            'ClassificationTree.update_hypothesis', kv
    for kind, name in (('mdp', 'Mdp'), ('smm', 'StochasticMealyMachine')):
        for strategy in ('classic', 'normal'):
            def sampling(m, mod, out, kind=kind, name=name, strategy=strategy):
                tab = sampling_source(m, kind, strategy)
                aut = run_expr(m, 'tab.generate_hypothesis()', {'tab': tab}, mod)

                def word(x, k, j):
                    return T('cat', T('prefix', x), (T('key', T('any'), k), T('osym', x, k, j)))
                r = SamplingRead(m, Spec(m, name, lambda x: T('part', T('prefix', x), -1)), out,
                                 key=lambda x, k: T('key', T('any'), k), tgt=lambda *a: T('the', word(*a)),
                                 out_of=lambda *a: T('osym', *a),
                                 prob=lambda x, k, j: T('/', T('freq', x, k, j),
                                                        T('SUM', (T('ITEMS', x, k),), T('freq', x, k, T('β', 0)))))
                r.strategy = strategy
                r.run(aut)
            yield 'C24', f'SamplingBasedObservationTable.generate_hypothesis {kind} {strategy}', \
                L + 'stochastic.SamplingBasedObservationTable', 'SamplingBasedObservationTable.generate_hypothesis', sampling
    for st, name in ((False, 'Onfsm'), (True, 'StochasticMealyMachine')):
        def onfsm(m, mod, out, st=st, name=name):
            tab = onfsm_source(m)
            aut = run_expr(m, f'tab.gen_hypothesis(stochastic={st})', {'tab': tab}, mod)

            def parts(x, k, j):
                i = (T('key', T('any'), k),)
                o = T('part', T('trace', T('prefix', x), i, j), -1)
                p = T('prefix', x)
                return i, o, p
            Read(m, Spec(m, name), out, key=lambda x, k: T('key', T('any'), k),
                 items_of=lambda x, k: T('ITEMS', T('prefix', x), (T('key', T('any'), k),)),
                 tgt=lambda x, k, j: T('the', (T('cat', T('part', T('prefix', x), 0), parts(x, k, j)[0]),
                                               T('cat', T('part', T('prefix', x), 1), (parts(x, k, j)[1],)))),
                 out_of=lambda x, k, j: parts(x, k, j)[1],
                 prob=lambda x, k, j: T('cell', T('dist', T('prefix', x), T('key', T('any'), k)), parts(x, k, j)[1])).run(aut)
        yield 'C24', 'OnfsmObservationTable.gen_hypothesis' + (' stochastic' if st else ''), \
            L + 'non_deterministic.OnfsmObservationTable', 'NonDetObservationTable.gen_hypothesis', onfsm


def kv_source(m, kind):
    """classification tree: one leaf per access string; sifting a word gives the leaf of its class"""
    cls = m.cls(L + 'deterministic.ClassificationTree', 'ClassificationTree')
    s = m.binder('s')
    leaf = inst(m, None, (('bind', s, STATES),), access_string=T('prefix', s), output=T('acc' if kind == 'dfa' else 'out', s))

    def at(t):
        return Ref(leaf, ((s, t),))
    alpha = Obj('list', ())
    b = m.binder('k')
    alpha.entries.append(Entry((('bind', b, T('KEYS', T('any'))),), None, T('key', T('any'), b)))
    sul = inst(m, None)
    tree = inst(m, cls, (), automaton_type=kind, alphabet=Ref(alpha, ()), new_states=state_list(m, at), sul=Ref(sul, ()),
                hypothesis_states=Ref(Obj('dict', ()), ()), transitions_to_update=Ref(Obj('list', ()), ()), initial_state=None,
                error_state_prefix=None)
    m.models.update(_sift=lambda mm, v, a, kw, st, n: at(T('the', (a or list(kw.values()))[0])),
                    query=lambda mm, v, a, kw, st, n: T('trace', (a or list(kw.values()))[0]))
    return Ref(tree, ())


def sampling_source(m, kind, strategy):
    cls = m.cls(L + 'stochastic.SamplingBasedObservationTable', 'SamplingBasedObservationTable')
    key = lambda b: (T('key', T('any'), b),)
    alpha = Obj('list', ())
    b = m.binder('k')
    alpha.entries.append(Entry((('bind', b, T('KEYS', T('any'))),), None, key(b)))
    s, k, j = m.binder('s'), m.binder('k'), m.binder('j')
    sitem, kitem = ('bind', s, STATES), ('bind', k, T('KEYS', T('any')))
    has = () if strategy == 'classic' else (('if', T('has', s, k), True),)
    freq = Obj('dict', (sitem, kitem) + has)
    freq.entries.append(Entry((('bind', j, T('ITEMS', s, k)),), T('osym', s, k, j), T('freq', s, k, j)))
    row = Obj('dict', (sitem,))
    row.entries.append(Entry((kitem,) + has, key(k), here(freq)))
    rows = Obj('dict', ())
    rows.entries.append(Entry((sitem,), T('prefix', s), here(row)))
    teacher = inst(m, None)
    tab = inst(m, cls, (), input_alphabet=Ref(alpha, ()), T=Ref(rows, ()), teacher=Ref(teacher, ()), automaton_type=kind,
               strategy=strategy, initial_output=T('word', 0),
               compatibility_classes_representatives=state_list(m, lambda t: T('prefix', t)))

    def rep(mm, v, a, kw, st, n):
        w = (a or list(kw.values()))[0]
        return T('prefix', INIT) if w == T('word', 0) else w if isinstance(w, T) and w.op == 'prefix' else \
            T('prefix', T('the', w))

    def complete(mm, v, a, kw, st, n):
        a = list(a) + list(kw.values())
        if len(a) != 2 or not (isinstance(a[0], T) and a[0].op == 'prefix'):
            return Unknown('complete query')
        return T('complete', a[0].args[0], a[1][0].args[1] if isinstance(a[1], tuple) and len(a[1]) == 1 and
                 isinstance(a[1][0], T) and a[1][0].op == 'key' else a[1])
    m.models.update(get_representative=rep, complete_query=complete)
    return Ref(tab, ())


class SamplingRead(Read):
    """an unknown or incomplete cell has one transition to the chaos state"""
    strategy = 'classic'

    def is_extra(self, w):
        st = State(None, ())
        if 'chaos' in (self.m.norm(self.state_id(w, ()), st), self.fieldv(w, 'output', (), '')):
            self.chaos = w
            return True
        return False

    def run(self, aut):
        self.chaos = None
        super().run(aut)
        if self.need(self.chaos is not None, 'there is no chaos state'):
            kappa = T('kappa')
            tr = self.m.norm(self.fieldv(self.chaos, 'transitions', (), ''), State(None, ()))
            if not (isinstance(tr, Ref) and tr.obj.kind == 'dict'):
                self.need(None, 'transitions of the chaos state')
                return
            found = [(e, s) for e in map(self.m.fresh, self.m.view(tr)) for s in [self.key_match(e, self.key(None, kappa))]
                     if s is not None]
            if not self.need(len(found) == 1, f'the chaos state has {len(found)} lists of transitions for an input'):
                return
            v = subst(found[0][0].value, found[0][1])
            es = self.m.view(v) if isinstance(v, Ref) else []
            self.need(len(es) == 1 and not es[0].items and self.is_chaos(es[0].value, ()),
                      f'the transitions of the chaos state are {[e.value for e in es]!r}')

    def is_chaos(self, v, cs):
        m = self.m
        v = m.norm(v, State(None, cs))
        if not (isinstance(v, tuple) and len(v) == (2 if self.model.name == 'Mdp' else 3)):
            return False
        x = m.norm(v[0], State(None, cs))
        return isinstance(x, Ref) and self.chaos is not None and x.obj is self.chaos.obj and \
            (len(v) == 2 or v[1] == 'chaos') and not isinstance(v[-1], T) and v[-1] == 1

    def check_items(self, ls, x, kappa, case, what, outer=()):
        m = self.m
        import itertools
        iota = T('iota')
        a = (x, kappa, iota)
        dom = self.items_of(x, kappa)
        cands = []
        for e in map(m.fresh, m.view(ls)):
            bs = [i for i in e.items if i[0] == 'bind']
            if bs and (len(bs) != 1 or bs[0][2] != dom):
                self.need(None if any(has_unknown(b[2]) for b in bs) else False,
                          f'transitions of {what}: entries over {[b[2] for b in bs]!r}')
                return
            s = {bs[0][1]: iota} if bs else {}
            cands.append((tuple(i for i in subst_items(e.items, s) if i[0] == 'if'), subst(e.value, s), bool(bs)))
        known = [T('complete', x, kappa)] if self.strategy == 'classic' else [T('has', x, kappa)]
        atoms = known + [T('nonempty', dom)]
        for g, _, _ in cands:
            for it in g:
                if m.atom_truth(it[1], case) is None and it[1] not in atoms:
                    atoms.append(it[1])
        if len(atoms) > 6 or any(has_unknown(t) for t in atoms):
            self.need(None, f'transitions of {what}: conditions not decided')
            return
        for vals in itertools.product((True, False), repeat=len(atoms)):
            if self.strategy != 'classic' and not vals[0] and vals[1]:
                continue
            cs = case + tuple(('if', t, v) for t, v in zip(atoms, vals))
            live = [(v, b) for g, v, b in cands if m.items_truth(g, cs) is True and (vals[1] or not b)]
            cond = ' if ' + ' and '.join(('' if v else 'not ') + repr(t) for t, v in zip(atoms, vals))
            if len(live) != 1:
                self.need(False, f'{what} has {len(live)} kinds of transitions for an input{cond}')
                return
            v, b = live[0]
            if all(vals[:2]):
                ok = self.item_ok(v, x, kappa, iota, a, cs) if b else False
            else:
                ok = self.is_chaos(v, cs) and not b
            if not self.need(ok, f'a transition of {what} becomes {self.render(v)}{cond}'):
                return


class TreeRead(Read):
    """a transition leads to the successor, or to the candidate of a successor on the frontier"""

    def same_state(self, v, x, case):
        if isinstance(x, T) and x.op == 'succ':
            m = self.m
            at = T('frontier', x)
            t = m.atom_truth(at, case)
            rs = []
            for val in ((True, False) if t is None else (t,)):
                cs = case + (('if', at, val),)
                rs.append(super().same_state(m.norm(v, State(None, cs)), T('cand', x) if val else x, cs))
            return False if any(r is False for r in rs) else (None if any(r is None for r in rs) else True)
        return super().same_state(v, x, case)


def read(pid, tier, cases, rule, assumptions):
    prog = Program()
    res = Result(rule)
    res.assumptions = assumptions
    for p, label, mod, qual, f in cases:
        m = Reader(prog)
        results = []
        anchor = None
        try:
            module = m.module(mod)
            if module is None:
                raise Bail(f'module {mod} not found')
            f(m, module, results)
        except Crash as e:
            results.append((False, f'{e}' + (f' (at {e.node.mod.rel}:{e.node.lineno})' if hasattr(e.node, 'mod') else '')))
        except (Bail, AnalysisBroken) as e:
            e.node = getattr(e, 'node', None)
            results.append((None, f'not covered: {e}' + (f' ({getattr(e.node, "lineno", "")})' if e.node is not None else '')))
        for fn in m.calls:
            if getattr(fn, 'name', '') == qual.split('.')[-1]:
                anchor = fn
        report(res, pid, label, label, label, anchor, results, m)
    return finish(res)


def c23(tier):
    return read('C23', tier, conversions(), 'Each conversion is interpreted element by element on a source given by its schema '
                '(opaque terms for every state, input, transition, count and field; collections by binders). The automaton '
                'built must have exactly one state for each state of the source, with its output or acceptance, and exactly '
                'one transition for each transition of the source: same input, same output, image of its target, and its '
                'probability or its count divided by the sum of the counts for the same input.',
                ['identifiers, prefixes and inputs of a state are unique', 'get_all_nodes returns every node, the root first'])


def c24(tier):
    return read('C24', tier, hypotheses(), 'Each construction of a hypothesis is interpreted element by element on a table or '
                'tree given by its schema. The hypothesis must have one state for each representative, the value recorded for '
                'it, and for every input one transition to the state whose row (or candidate) is that of the extended prefix, '
                'with the output recorded for this cell.',
                ['the table is closed and the rows of its states differ; every frontier node has one candidate'])
