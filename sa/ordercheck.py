"""C11: nothing observable depends on the iteration order of sets, on hashes, addresses, the clock or other entropy.

A value is hash-ordered (HO) if the order of its elements may differ between two processes: sets of anything but numbers, and
what is built from them by iteration.  HO values are found by a flow-insensitive propagation over the objects of the points-to
analysis; a violation is a place where the order shows: inputs to the system, random draws, a selected element, numbering."""
import ast

from . import runs
from .absint import Ctx, Obj, EMPTY
from .core import Result
from .program import AnalysisBroken, construct_key, where

KEEP = {'list', 'tuple', 'enumerate', 'map', 'filter', 'reversed', 'iter', 'deque', 'chain', 'product', 'combinations',
        'permutations', 'combinations_with_replacement', 'from_iterable', 'islice', 'accumulate', 'starmap', 'fromkeys', 'dict',
        'zip', 'OrderedDict', 'cycle', 'tee', 'groupby', 'copy', 'deepcopy', 'keys', 'values', 'items'}
RANDOM = {'random.choice', 'random.choices', 'random.sample', 'random.shuffle', 'random.random', 'random.randint',
          'random.randrange', 'random.uniform', 'random.gauss', 'random.normalvariate'}
ENTROPY = ('os.urandom', 'uuid.', 'secrets.', 'random.SystemRandom', 'numpy.random', 'os.getpid', 'threading.get_ident')
RESEED = {'random.seed', 'random.setstate', 'numpy.random.seed', 'numpy.random.set_state'}
CLOCK = {'time.time', 'time.perf_counter', 'time.monotonic', 'time.process_time', 'time.time_ns', 'datetime.datetime.now',
         'time.perf_counter_ns', 'datetime.now', 'time.localtime', 'time.ctime'}
ORDERED = {'list', 'tuple', 'iter', 'dict'}
_out = {}


class Order:
    def __init__(self, it):
        self.it = it
        self.HO = {}            # object -> (node, why)
        self.sorted = set()     # objects sorted in place
        self.by_ctx = {}
        for (e, cx), v in it.ctypes.items():
            self.by_ctx.setdefault(cx, {})[e] = v
        self.fn_of = {}
        self.calls = {}         # (ctx, call node) -> contexts
        for cx in it.ctxs.values():
            for caller, node in cx.callers:
                self.calls.setdefault((caller, node), set()).add(cx)
        self.touch = self.closure(self.system_ctxs())
        ext = {}
        for k, cs in it.events.items():
            if k[0] == 'ext':
                ext.setdefault(k[1], set()).add(k[2])
        self.ext = ext
        self.random_nodes = {n for n, names in ext.items() if names & RANDOM}
        self.draws = self.closure({c for k, cs in it.events.items() if k[0] == 'ext' and k[2] in RANDOM for c in cs})

    def system_ctxs(self):
        out = set()
        for cx in self.it.ctxs.values():
            f = cx.func
            k = getattr(f, 'cls', None)
            if getattr(f.node, 'name', '') in ('pre', 'step', 'post', 'query', 'adaptive_query') and k is not None and \
                    any(getattr(b, 'name', '') == 'SUL' for b in k.mro()):
                out.add(cx)
        return out

    def closure(self, seed):
        seen, todo = set(seed), list(seed)
        while todo:
            x = todo.pop()
            for caller, _ in getattr(x, 'callers', {}):
                if caller not in seen:
                    seen.add(caller)
                    todo.append(caller)
        return seen

    # ------------------------------------------------------------------ objects
    def val(self, cx, e):
        return self.by_ctx.get(cx, {}).get(e, EMPTY)

    def number(self, v, depth=0):
        """hashes do not depend on the process"""
        for a in v:
            if isinstance(a, Obj):
                if a.kind in ('tuple', 'frozenset') and depth < 3 and self.number(a.fields.get('$e', EMPTY), depth + 1):
                    continue
                if a.kind == 'inst' and depth < 3 and self.numbered(a, depth + 1):
                    continue
                return False
            if type(a) is tuple and a[0] in ('c', 't') and a[1] in ('int', 'float', 'bool', 'num', 'NoneType'):
                continue
            return False
        return True

    def numbered(self, o, depth):
        """the class defines its hash by numbers of the object"""
        m, _ = o.cls.find('__hash__')
        for f in m or ():
            rets = [r.value for r in ast.walk(f.node) if isinstance(r, ast.Return) and r.value is not None] if \
                isinstance(getattr(f, 'node', None), ast.FunctionDef) else []
            if not rets:
                return False
            for r in rets:
                todo = [r]
                while todo:
                    e = todo.pop()
                    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('hash', 'int', 'tuple', 'len'):
                        todo += e.args
                    elif isinstance(e, ast.Tuple):
                        todo += e.elts
                    elif isinstance(e, ast.BinOp):
                        todo += [e.left, e.right]
                    elif isinstance(e, ast.Constant):
                        if not isinstance(e.value, (int, float)):
                            return False
                    elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
                        v = o.fields.get(e.attr, EMPTY)
                        if not v or not self.number(v, depth):
                            return False
                    else:
                        return False
        return bool(m)

    def is_ho(self, o):
        if not isinstance(o, Obj):
            return False
        if o.kind in ('set', 'frozenset'):
            e = o.fields.get('$e', EMPTY)
            return bool(e) and not self.number(e)
        return o in self.HO

    def ho(self, cx, e):
        for o in self.val(cx, e):
            if self.is_ho(o):
                return o
        return None

    def why(self, o):
        if o in self.HO:
            n, w = self.HO[o]
            return f'{w} at {where(n)}'
        return f'the set made at {where(o.site)}' if hasattr(o.site, 'lineno') else 'a set'

    def mark(self, objs, node, why):
        ch = False
        for o in objs:
            if isinstance(o, Obj) and o.kind in ORDERED and o not in self.HO and o not in self.sorted and \
                    o.fields.get('$e' if o.kind != 'dict' else '$k', EMPTY):
                self.HO[o] = (node, why)
                ch = True
        return ch

    # ------------------------------------------------------------------ propagation
    def loops(self, fn):
        return fn

    def fns(self):
        """(context, function node) in the library"""
        for cx in self.it.ctxs.values():
            if cx.func.node in self.it.reached and runs.in_lib(cx.func.node):
                yield cx, cx.func.node

    def solve(self):
        work = [(cx, fn, list(own(fn))) for cx, fn in self.fns() if cx in self.by_ctx]
        for cx, fn, nodes in work:
            for n in nodes:
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'sort' and not ties(n):
                    self.sorted |= {o for o in self.val(cx, n.func.value) if isinstance(o, Obj)}
        for _ in range(30):
            ch = False
            for cx, fn, nodes in work:
                for n in nodes:
                    ch |= self.step(cx, fn, n)
            if not ch:
                return work
        raise AnalysisBroken('order propagation did not converge')

    def step(self, cx, fn, n):
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
            if any(self.ho(cx, g.iter) for g in n.generators):
                return self.mark(self.mine(cx, n), n, 'filled in hash order')
            return False
        if isinstance(n, ast.Call):
            name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ''
            args = [a.value if isinstance(a, ast.Starred) else a for a in n.args]
            if isinstance(n.func, ast.Attribute) and name in ('extend', 'extendleft', 'update') and args and self.ho(cx, args[0]):
                return self.mark(self.val(cx, n.func.value), n, 'extended in hash order')
            if name in ('copy', 'keys', 'values', 'items') and isinstance(n.func, ast.Attribute) and self.ho(cx, n.func.value):
                return self.mark(self.mine(cx, n), n, 'filled in hash order')
            if name in KEEP and any(self.ho(cx, a) for a in args):
                return self.mark(self.mine(cx, n), n, 'filled in hash order')
            if name == 'sorted' and args and self.ho(cx, args[0]) and ties(n):
                return self.mark(self.mine(cx, n), n, 'sorted by a key with ties')
            return False
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load):
            return bool(self.ho(cx, n.value)) and self.mark(self.mine(cx, n), n, 'part of a hash-ordered list')
        if isinstance(n, (ast.List, ast.Tuple)) and isinstance(n.ctx, ast.Load):
            return any(isinstance(e, ast.Starred) and self.ho(cx, e.value) for e in n.elts) and \
                self.mark(self.mine(cx, n), n, 'filled in hash order')
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Mult)):
            return bool(self.listho(cx, n.left) or self.listho(cx, n.right)) and \
                self.mark(self.mine(cx, n), n, 'joined from a hash-ordered list')
        if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and self.ho(cx, n.value):
            return self.mark(self.val(cx, n.target), n, 'extended in hash order')
        if isinstance(n, ast.For):
            src = self.ho(cx, n.iter)
            if src is None:
                return False
            ch = False
            local = bound_in(n)
            for b in body_nodes(n):
                if isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute) and \
                        b.func.attr in ('append', 'insert', 'appendleft', 'extend', 'setdefault'):
                    if root(b.func.value) not in local and not keyed(b.func.value, local):
                        ch |= self.mark(self.val(cx, b.func.value), b, 'filled in hash order')
                elif isinstance(b, ast.Subscript) and isinstance(b.ctx, ast.Store):
                    if root(b.value) not in local and not keyed(b.value, local) and names_in(b.slice) & local:
                        ch |= self.mark({o for o in self.val(cx, b.value) if isinstance(o, Obj) and o.kind == 'dict'}, b,
                                        'filled in hash order')
                elif isinstance(b, (ast.Yield, ast.YieldFrom)):
                    ch |= self.mark({o for o in self.it.objs.values() if o.site is fn and o.kind == 'iter'}, b,
                                    'generated in hash order')
            return ch
        return False

    def listho(self, cx, e):
        o = self.ho(cx, e)
        return o is not None and o.kind not in ('set', 'frozenset')

    def mine(self, cx, n):
        return {o for o in self.val(cx, n) if isinstance(o, Obj) and o.site is n} or self.val(cx, n)

    # ------------------------------------------------------------------ places where the order shows
    def sinks(self, work, res):
        for cx, fn, nodes in work:
            for n in nodes:
                if isinstance(n, ast.For):
                    res['sites'].add(n)
                    o = self.ho(cx, n.iter)
                    if o is not None:
                        res['ordered'].add(n)
                        self.loop(cx, fn, n, o, res)
                elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
                    for i, g in enumerate(n.generators):
                        res['sites'].add(g)
                        o = self.ho(cx, g.iter)
                        if o is None:
                            continue
                        res['ordered'].add(g)
                        parts = [n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]
                        parts += [x for g2 in n.generators[i:] for x in g2.ifs] + [g2.iter for g2 in n.generators[i + 1:]]
                        self.inner(cx, fn, n, [x for p in parts for x in ast.walk(p)], o, res)
                        if enumerated(g.iter) and isinstance(g.target, ast.Tuple):
                            self.add(res, n, f'numbers elements in the order of {self.why(o)}')
                elif isinstance(n, ast.Call):
                    self.call(cx, fn, n, res)
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and not isinstance(n.slice, ast.Slice):
                    o = next((o for o in self.val(cx, n.value) if isinstance(o, Obj) and o.kind in ('list', 'tuple') and self.is_ho(o)),
                             None)
                    if o is not None:
                        res['sites'].add(n)
                    if o is not None and not single(n, n.value):
                        self.add(res, n, f'takes an element by position in the order of {self.why(o)}')

    def add(self, res, n, msg):
        res['bad'].setdefault(n, msg)

    def inner(self, cx, fn, n, nodes, o, res):
        for b in nodes:
            if not isinstance(b, ast.Call):
                continue
            if any(c in self.touch for c in self.calls.get((cx, b), ())):
                self.add(res, n, f'asks the system in the order of {self.why(o)}')
                return
            if b in self.random_nodes or any(c in self.draws for c in self.calls.get((cx, b), ())):
                self.add(res, n, f'draws random numbers in the order of {self.why(o)}')
                return

    def loop(self, cx, fn, n, o, res):
        body = list(body_nodes(n))
        self.inner(cx, fn, n, body, o, res)
        if n in res['bad']:
            return
        local = bound_in(n)
        tgt = names_in(n.target)
        for b in body:
            if isinstance(b, ast.Return) and b.value is not None and names_in(b.value) & local:
                self.add(res, n, f'returns the first match in the order of {self.why(o)}')
                return
            if isinstance(b, ast.Break) and owner(b) is n:
                for a in siblings_before(b):
                    if isinstance(a, ast.Assign) and names_in(a.value) & tgt and any(isinstance(t, (ast.Name, ast.Attribute))
                                                                                    for t in a.targets):
                        self.add(res, n, f'keeps the first match in the order of {self.why(o)}')
                        return
        for b in body:
            if isinstance(b, ast.AugAssign) and isinstance(b.target, (ast.Name, ast.Attribute)) and isinstance(b.value, ast.Constant):
                t = ast.unparse(b.target)
                for x in body:
                    if x is not b.target and isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Load) and \
                            ast.unparse(x) == t and not inside(x, b) and not isinstance(x.parent, ast.Compare):
                        self.add(res, n, f'numbers elements in the order of {self.why(o)}')
                        return
        if enumerated(n.iter) and isinstance(n.target, ast.Tuple) and isinstance(n.target.elts[0], ast.Name):
            i = n.target.elts[0].id
            if any(isinstance(x, ast.Name) and x.id == i and isinstance(x.ctx, ast.Load) for x in body):
                self.add(res, n, f'numbers elements in the order of {self.why(o)}')

    def call(self, cx, fn, n, res):
        name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ''
        ext = self.ext.get(n, ())
        if any(e in RANDOM for e in ext):
            res['sites'].add(n)
            for a in n.args:
                o = self.ho(cx, a)
                if o is not None:
                    self.add(res, n, f'draws at random from a list in the order of {self.why(o)}')
                    return
        if isinstance(n.func, ast.Attribute) and name in ('pop', 'popleft') and not n.args or name == 'pop' and n.args and \
                isinstance(n.args[0], ast.Constant) and isinstance(n.func, ast.Attribute):
            o = next((o for o in self.val(cx, n.func.value) if isinstance(o, Obj) and o.kind in ('set', 'list') and self.is_ho(o)),
                     None)
            if o is not None and not single(n, n.func.value):
                w = worklist(n)
                if w is None:
                    self.add(res, n, f'takes an element in the order of {self.why(o)}')
                else:
                    self.loop(cx, fn, w, o, res)
        if name == 'next' and isinstance(n.func, ast.Name) and n.args:
            o = self.ho(cx, n.args[0])
            if o is not None and not single(n, n.args[0]):
                self.add(res, n, f'takes the first element in the order of {self.why(o)}')
        if name in ('min', 'max') and isinstance(n.func, ast.Name) and len(n.args) == 1 and ties(n):
            o = self.ho(cx, n.args[0])
            if o is not None:
                self.add(res, n, f'selects among equals in the order of {self.why(o)}')


    # ------------------------------------------------------------------ results handed to the caller
    def results(self, res):
        seen, todo = set(), []
        for (e, cx), v in self.it.ctypes.items():
            if isinstance(e, ast.Call) and not runs.in_lib(e) and e.mod.name.startswith('verif_'):
                if any(isinstance(c, Ctx) and runs.in_lib(c.func.node) for c in self.calls.get((cx, e), ())):
                    todo += [o for o in v if isinstance(o, Obj)]
        while todo:
            o = todo.pop()
            if o in seen:
                continue
            seen.add(o)
            if o.kind in ('list', 'tuple') and o in self.HO:
                n, w = self.HO[o]
                self.add(res, n, f'the result holds a list {w}')
            for v in o.fields.values():
                todo += [x for x in v if isinstance(x, Obj) and x not in seen]
        res['results'] |= {id(o) for o in seen}

    # ------------------------------------------------------------------ the clock and other entropy
    def clock(self, work, res):
        ext = self.ext
        for n, names in ext.items():
            if runs.in_lib(n) and (any(x.startswith(e) for x in names for e in ENTROPY) or
                                   'random.Random' in names and isinstance(n, ast.Call) and not n.args):
                self.add(res, n, f'uses {sorted(names)[0]}, which a seed does not determine')
            elif runs.in_lib(n) and names & RESEED:
                self.add(res, n, f'{sorted(names & RESEED)[0]} changes the random generator of the caller')
        src = {n for n, names in ext.items() if names & CLOCK and runs.in_lib(n)}
        res['clock'] |= src
        fields, funcs = set(), set()
        while True:
            size = len(fields), len(funcs)
            for cx, fn, nodes in work:
                tainted = set()
                while True:
                    k = len(tainted)
                    for n in nodes:
                        if (n in src or isinstance(n, ast.Name) and n.id in tainted and isinstance(n.ctx, ast.Load) or
                                isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in fields or
                                isinstance(n, ast.Call) and any(c.func.node in funcs for c in self.calls.get((cx, n), ()))):
                            self.climb(fn, n, tainted, fields, funcs, res)
                    if len(tainted) == k:
                        break
            if (len(fields), len(funcs)) == size:
                return

    def hashes(self, work, res):
        for cx, fn, nodes in work:
            if getattr(fn, 'name', '') in ('__hash__', '__eq__', '__repr__', '__str__'):
                continue
            for n in ast.walk(fn):
                if isinstance(n, ast.keyword) and n.arg == 'key' and isinstance(n.value, ast.Name) and n.value.id in ('id', 'hash'):
                    self.add(res, n.value, 'sorts by address or hash')
                if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('id', 'hash') and n.args):
                    continue
                if n.func.id == 'hash' and self.number(self.val(cx, n.args[0]) or self.it.types.get(n.args[0], EMPTY)) and \
                        self.it.types.get(n.args[0]):
                    continue
                res['hashes'].add(n)
                c, p = n, n.parent
                while isinstance(p, (ast.Tuple, ast.UnaryOp, ast.IfExp, ast.Subscript)) and not (isinstance(p, ast.Subscript) and c is p.slice):
                    c, p = p, p.parent
                if isinstance(p, ast.Lambda) and isinstance(p.parent, ast.keyword) and p.parent.arg == 'key':
                    self.add(res, n, 'sorts by address or hash')
                elif isinstance(p, ast.BinOp):
                    self.add(res, n, 'computes with an address or hash')
                elif isinstance(p, ast.Compare) and any(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) for o in p.ops):
                    self.add(res, n, 'compares addresses or hashes')
                elif isinstance(p, ast.FormattedValue) or isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and \
                        p.func.id == 'str' or 'random.seed' in self.ext.get(p, ()):
                    self.add(res, n, 'uses an address or hash as a name or seed')

    def climb(self, fn, n, tainted, fields, funcs, res):
        c, p = n, n.parent
        while True:
            if isinstance(p, (ast.BinOp, ast.UnaryOp, ast.keyword, ast.IfExp, ast.Starred)):
                if isinstance(p, ast.IfExp) and c is p.test:
                    self.add(res, c, 'a decision depends on the clock')
                    return
            elif isinstance(p, ast.Call) and c is not p.func:
                if self.ext.get(p, set()) & RANDOM or 'random.seed' in self.ext.get(p, ()):
                    self.add(res, p, 'random numbers depend on the clock')
                    return
                if not (isinstance(p.func, ast.Name) and p.func.id in ('round', 'int', 'float', 'abs', 'max', 'min', 'str', 'hash')):
                    return
            elif isinstance(p, ast.Compare) or isinstance(p, (ast.If, ast.While, ast.Assert)) and c is p.test:
                self.add(res, c, 'a decision depends on the clock')
                return
            elif isinstance(p, ast.Subscript) and c is p.slice:
                self.add(res, c, 'an index depends on the clock')
                return
            elif isinstance(p, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
                for t in p.targets if isinstance(p, ast.Assign) else [p.target]:
                    if isinstance(t, ast.Name):
                        tainted.add(t.id)
                    elif isinstance(t, ast.Attribute):
                        fields.add(t.attr)
                return
            elif isinstance(p, ast.Return):
                funcs.add(fn)
                return
            else:
                return
            c, p = p, p.parent


# ---------------------------------------------------------------------- syntax helpers
def own(fn):
    """nodes of a function without nested functions"""
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            todo.extend(ast.iter_child_nodes(n))


def body_nodes(loop):
    for s in loop.body:
        yield from own_stmt(s)


def own_stmt(s):
    yield s
    if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
        for c in ast.iter_child_nodes(s):
            yield from own_stmt(c)


def names_in(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}


def bound_in(loop):
    out = names_in(loop.target)
    for b in body_nodes(loop):
        if isinstance(b, ast.Name) and isinstance(b.ctx, ast.Store) and not isinstance(b.parent, ast.AugAssign):
            out.add(b.id)
    return out


def root(e):
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
        e = e.func if isinstance(e, ast.Call) else e.value
    return e.id if isinstance(e, ast.Name) else None


def keyed(e, local):
    """an element chosen by a variable of the loop: one list per element"""
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
        if isinstance(e, ast.Subscript) and names_in(e.slice) & local:
            return True
        if isinstance(e, ast.Call) and any(names_in(a) & local for a in e.args):
            return True
        e = e.func if isinstance(e, ast.Call) else e.value
    return False


def owner(b):
    p = b.parent
    while not isinstance(p, (ast.For, ast.While)):
        p = p.parent
    return p


def siblings_before(b):
    p = b.parent
    for f in ('body', 'orelse', 'finalbody'):
        l = getattr(p, f, None)
        if isinstance(l, list) and b in l:
            return l[:l.index(b)]
    return []


def inside(x, b):
    while x is not None:
        if x is b:
            return True
        x = getattr(x, 'parent', None)
    return False


def enumerated(e):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'enumerate'


def ties(call):
    """the key maps different elements to the same value: only a length, a count or a constant is certain"""
    k = next((k.value for k in call.keywords if k.arg == 'key'), None)
    if k is None:
        return False
    if isinstance(k, ast.Name):
        return k.id == 'len'
    if isinstance(k, ast.Lambda):
        e = k.body
        if isinstance(e, ast.Attribute):     # a score, frequency, size: equal for different elements; names and prefixes are not
            return not any(w in e.attr for w in ('id', 'prefix', 'name', 'index', 'order', 'key', 'hash'))
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'len' or isinstance(e, ast.Constant)
    return False


class Worklist:
    """while s: x = s.pop() ... seen as a loop over s"""

    def __init__(self, w, target, iter_):
        self.body, self.target, self.iter, self.node, self.parent = w.body, target, iter_, w, w.parent
        self.lineno, self.mod = w.lineno, getattr(w, 'mod', None)


def worklist(n):
    a = n.parent
    if not isinstance(a, ast.Assign):
        return None
    p = a.parent
    while not isinstance(p, (ast.While, ast.FunctionDef, ast.Lambda, ast.Module)):
        p = p.parent
    t = ast.unparse(n.func.value)
    return Worklist(p, a.targets[0], n.func.value) if isinstance(p, ast.While) and \
        any(ast.unparse(x) == t for x in ast.walk(p.test)) else None


def single(n, e):
    """the node is only evaluated where a test says that the collection has one element"""
    names = {ast.unparse(x) for x in ast.walk(e) if isinstance(x, (ast.Name, ast.Attribute))}
    c, p = n, n.parent
    while not isinstance(p, (ast.FunctionDef, ast.Module)):
        if isinstance(p, (ast.If, ast.IfExp)) and c is not p.test:
            for x in ast.walk(p.test):
                if isinstance(x, ast.Compare) and isinstance(x.left, ast.Call) and ast.unparse(x.left.func) == 'len' and \
                        isinstance(x.comparators[0], ast.Constant) and x.comparators[0].value in (1, 2) and \
                        ast.unparse(x.left.args[0]) in names:
                    return True
        c, p = p, p.parent
    return False


def analyse():
    if 'r' in _out:
        return _out['r']
    tot = {'sites': set(), 'ordered': set(), 'bad': {}, 'results': set(), 'clock': set(), 'hashes': set()}
    fns = set()
    for name in runs.ALL:
        it = runs.run(name)
        o = Order(it)
        work = o.solve()
        fns |= {fn for _, fn, _ in work}
        o.sinks(work, tot)
        o.results(tot)
        o.clock(work, tot)
        o.hashes(work, tot)
    _out['r'] = tot, fns
    return _out['r']


def c11(tier):
    r = Result("Points-to analysis with a propagation of hash order: the elements of a set of anything but numbers, and every list, "
               "dictionary or generator filled from one, have no order that a seed determines. Violation: such an order decides "
               "which input the system is given next, on which element a random draw is spent, which element is taken or "
               "returned, which number it gets, or the order of a list in the result of a public function; or a decision, index "
               "or random draw uses the clock, an address, a hash of a string, or a source of randomness other than the "
               "module random.")
    t, fns = analyse()
    for n, m in t['bad'].items():
        k = getattr(n, 'node', n)
        r.violate(construct_key(k), m, k)
    bad = {getattr(n, 'node', n) for n in t['bad']}
    for n in t['sites']:
        n = n.iter if isinstance(n, ast.comprehension) else n
        r.oblige(n not in bad, where(n))
    for n in t['clock']:
        r.oblige(n not in bad, 'clock read at ' + where(n))
    r.coverage.update(functions_reached=len(fns), iterations_and_selections=len(t['sites']),
                      in_hash_order_but_not_observable=sorted(where(n if hasattr(n, 'lineno') else n.iter) for n in t['ordered']),
                      objects_in_results=len(t['results']), clock_reads=len(t['clock']), driver_programs=runs.ALL)
    r.assumptions = ['the order in which numbers are added up is not looked at (rounding)',
                     'objects returned by callbacks and the system are opaque']
    return r
