"""
Engine A: a whole-program abstract interpreter for the Python subset AALpy uses.

Domain: a value is a finite set of atoms - constants, scalar types, abstract objects (allocation site x heap context),
functions with their closure frame, classes, repository modules, external names and UNK (an opaque immutable value).
Locals are flow sensitive, the heap is flow insensitive and field sensitive; functions are analysed per context
(receiver object, constants and small argument sets); branches whose test is decided by constants are not entered.
The analysis is repeated until heap and summaries are stable; events (mutations, external calls, ...) are then collected.
Nothing of the analysed program is executed.
"""
import ast
import itertools
import builtins
import sys

from .program import AnalysisBroken, Program, where, fq

UNK = ('u',)
V = frozenset
EMPTY = V()
UNKV = V([UNK])
MAXCONST = 30


def c(v):
    return ('c', type(v).__name__, v)


NONE = c(None)
TRUE = c(True)
FALSE = c(False)
NONEV, TRUEV, FALSEV = V([NONE]), V([TRUE]), V([FALSE])
BOOLV = V([TRUE, FALSE])


def ty(n):
    return V([('t', n)])


INTV, STRV, FLOATV = ty('int'), ty('str'), ty('float')


def is_const(a):
    return type(a) is tuple and a[0] == 'c'


FOLD = {'startswith', 'endswith', 'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize', 'isdigit'}


class Atom:
    __slots__ = ()


class Obj(Atom):
    __slots__ = ('kind', 'cls', 'site', 'hctx', 'region', 'fields', 'extra', 'uid')
    n = 0

    def __init__(self, kind, cls, site, hctx, region):
        self.kind, self.cls, self.site, self.hctx, self.region = kind, cls, site, hctx, region
        self.fields = {}
        self.extra = None
        Obj.n += 1
        self.uid = Obj.n

    def __repr__(self):
        n = self.cls.name if self.cls else self.kind
        l = getattr(self.site, 'lineno', '?')
        m = getattr(getattr(self.site, 'mod', None), 'name', '')
        return f"<{n}@{m.split('.')[-1]}:{l}{'!' + self.region if self.region else ''}>"


class ClassInfo(Atom):
    __slots__ = ('name', 'node', 'mod', 'bases', 'fields', 'frame', 'ext_bases', 'nt')

    def __init__(self, name, node, mod):
        self.name, self.node, self.mod = name, node, mod
        self.bases = []
        self.ext_bases = []
        self.fields = {}
        self.frame = None
        self.nt = None

    def mro(self):
        out = [self]
        for b in self.bases:
            for x in b.mro():
                if x in out:
                    out.remove(x)
                out.append(x)
        return out

    def find(self, attr):
        for k in self.mro():
            if attr in k.fields:
                return k.fields[attr], k
        return None, None

    @property
    def qual(self):
        return f"{self.mod.name}.{self.name}"

    def __repr__(self):
        return f"<class {self.name}>"


class Func(Atom):
    __slots__ = ('node', 'mod', 'frame', 'self', 'cls', 'defaults', '_h')

    def __init__(self, node, mod, frame, self_=None, cls=None):
        self.node, self.mod, self.frame, self.self, self.cls = node, mod, frame, self_, cls
        self._h = hash((id(node), id(frame), id(self_), id(cls)))

    def __eq__(self, o):
        return isinstance(o, Func) and o.node is self.node and o.frame is self.frame and o.self is self.self

    def __hash__(self):
        return self._h

    @property
    def name(self):
        return getattr(self.node, 'name', '<lambda>')

    def __repr__(self):
        return f"<fn {self.name}>"


def extend_name(name, attr):
    parts = name.split('.')
    if len(parts) > 5:          # attributes of attributes of unknown objects: finitely many names
        parts = parts[:2] + parts[-2:]
    return '.'.join(parts + [attr])


class Ext(Atom):
    __slots__ = ('name',)
    pool = {}

    def __new__(cls, name):
        e = cls.pool.get(name)
        if e is None:
            e = object.__new__(cls)
            e.name = name
            cls.pool[name] = e
        return e

    def __repr__(self):
        return f"<ext {self.name}>"


class BM(Atom):
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __eq__(self, o):
        return isinstance(o, BM) and o.obj is self.obj and o.name == self.name

    def __hash__(self):
        return hash((id(self.obj), self.name))

    def __repr__(self):
        return f"<bm {self.obj}.{self.name}>"


class Mod(Atom):
    __slots__ = ('m', 'fields', 'state')

    def __init__(self, m):
        self.m = m
        self.fields = {}
        self.state = 0

    def __repr__(self):
        return f"<mod {self.m.name}>"


class Super(Atom):
    __slots__ = ('obj', 'cls')

    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls

    def __eq__(self, o):
        return isinstance(o, Super) and o.obj is self.obj and o.cls is self.cls

    def __hash__(self):
        return hash((id(self.obj), id(self.cls)))


class Frame:
    """A function activation class (one per context)."""
    __slots__ = ('func', 'mod', 'cls', 'selfv', 'parent', 'captured', 'locals_', 'globals_', 'nonlocals', 'boxes',
                 'hctx', 'region', 'ret', 'yields', 'envs', 'ctx', 'is_gen', 'trystack')

    def __init__(self):
        self.boxes = {}
        self.ret = EMPTY
        self.yields = EMPTY
        self.is_gen = False
        self.trystack = []


class Ctx:
    __slots__ = ('key', 'func', 'bind', 'ret', 'round', 'active', 'frame', 'dirty', 'yields', 'callers', 'returns', 'facts')

    def __init__(self, key, func):
        self.key, self.func = key, func
        self.facts = None       # memberships that hold for the parameters in every call
        self.bind = {}
        self.ret = EMPTY
        self.yields = EMPTY
        self.round = -1
        self.active = False
        self.frame = None
        self.dirty = True
        self.callers = {}
        self.returns = False


MUTATORS = {
    'list': {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'appendleft', 'popleft',
             'extendleft', 'rotate', 'put', 'get_nowait', 'put_nowait', '__setitem__', '__delitem__', '__iadd__'},
    'dict': {'update', 'pop', 'popitem', 'clear', 'setdefault', 'subtract', '__setitem__', '__delitem__'},
    'set': {'add', 'update', 'remove', 'discard', 'pop', 'clear', 'difference_update', 'intersection_update',
            'symmetric_difference_update', '__ior__'},
    'tuple': set(), 'iter': set(), 'str': set(), 'frozenset': set(), 'nt': set(),
}
CONTAINER = {'list', 'dict', 'set', 'tuple', 'iter', 'frozenset'}
SAFE_TYPES = {'int': 'int', 'str': 'str', 'float': 'float', 'bool': 'bool', 'len': 'int', 'round': 'num', 'abs': 'num',
              'id': 'int', 'hash': 'int', 'repr': 'str', 'ord': 'int', 'chr': 'str', 'pow': 'num', 'divmod': 'num',
              'any': 'bool', 'all': 'bool', 'format': 'str', 'callable': 'bool', 'bytes': 'bytes',
              'ascii': 'str', 'bin': 'str', 'hex': 'str', 'complex': 'num'}
STRM = {'split', 'splitlines', 'rsplit', 'partition', 'rpartition'}


class Interp:
    def __init__(self, prog, opaque_funcs=(), max_rounds=40, strict=False):
        self.strict = strict       # a statement whose value cannot exist ends the path (a call that never returns)
        self.reached_exprs = set() if strict else None
        self.prog = prog
        self.mods = {}
        self.classes = {}          # ast.ClassDef -> ClassInfo
        self.objs = {}
        self.ctxs = {}
        self.fn_ctx_count = {}
        self.changed = True
        self.round = 0
        self.final = False
        self.call_env = None
        self.types = {}            # expr node -> AbsVal (final round)
        self.callees = {}          # Call node -> set of callee atoms (final round)
        self.events = {}
        self.reached = set()       # function nodes analysed in the final round
        self.reached_stmts = set()
        self.max_rounds = max_rounds
        self.scopes = {}
        self.region_of_alloc = None
        self.edges = {}            # ctx -> {(caller ctx, call node)}
        self.expr_hook = None
        self.ctypes = {}           # (expr node, context) -> AbsVal, where it holds objects (final round)

    # ------------------------------------------------------------------ events
    def emit(self, kind, node, frame, *data):
        if not self.final:
            return
        self.events.setdefault((kind, node) + data, set()).add(frame.ctx if frame is not None else None)

    # ------------------------------------------------------------------ heap
    def alloc(self, kind, site, frame, cls=None, sub=''):
        hctx = frame.hctx if frame is not None else ()
        region = frame.region if frame is not None else None
        key = (kind, id(site), sub, hctx, region, id(cls))
        o = self.objs.get(key)
        if o is None:
            o = Obj(kind, cls, site, hctx, region)
            self.objs[key] = o
            self.changed = True
        return o

    def hget(self, holder, field):
        return holder.fields.get(field, EMPTY)

    def hadd(self, holder, field, val):
        old = holder.fields.get(field)
        if old is None:
            holder.fields[field] = self.norm(val)
            self.changed = True
        elif not val <= old:
            new = self.norm(old | val)
            if new != old:
                holder.fields[field] = new
                self.changed = True

    def norm(self, v):
        """Constants of one type beyond MAXCONST, or next to the type itself, collapse into the type (monotone)."""
        tys = None
        for a in v:
            if type(a) is tuple and a[0] == 't':
                if tys is None:
                    tys = set()
                tys.add(a[1])
        if tys is None and len(v) <= MAXCONST:
            return v
        by = {}
        for a in v:
            if type(a) is tuple and a[0] == 'c' and a[1] not in ('NoneType', 'bool'):
                by.setdefault(a[1], []).append(a)
        if not by:
            return v
        drop = set()
        add = set()
        for t, l in by.items():
            if len(l) > MAXCONST or tys and t in tys:
                drop.update(l)
                add.add(('t', t))
        if drop:
            return (v - drop) | add
        return v

    def join(self, a, b):
        if a is b or b <= a:
            return a
        if a <= b:
            return b
        return self.norm(a | b)

    # ------------------------------------------------------------------ containers
    def new_list(self, node, frame, elem=EMPTY, kind='list', sub=''):
        o = self.alloc(kind, node, frame, sub=sub)
        self.hadd(o, '$e', elem)
        return V([o])

    def new_dict(self, node, frame, k=EMPTY, v=EMPTY, sub=''):
        o = self.alloc('dict', node, frame, sub=sub)
        self.hadd(o, '$k', k)
        self.hadd(o, '$v', v)
        return V([o])

    def elements(self, v, node=None, frame=None):
        """Values produced by iterating v."""
        out = EMPTY
        for a in v:
            if isinstance(a, Obj):
                if a.kind in ('list', 'set', 'iter', 'frozenset', 'tuple'):
                    out |= self.hget(a, '$e')
                elif a.kind == 'dict':
                    out |= self.hget(a, '$k')
                elif a.kind == 'nt':
                    for x in a.fields.values():
                        out |= x
                elif a.kind == 'inst':
                    m, k = a.cls.find('__iter__')
                    if m:
                        r = self.call_value(self.bind(m, a, k), [], {}, node, frame)
                        out |= self.elements(r, node, frame)
                    else:
                        m, k = a.cls.find('__getitem__')
                        if m:
                            out |= self.call_value(self.bind(m, a, k), [INTV], {}, node, frame)
                        else:
                            out |= UNKV
                else:
                    out |= UNKV
            elif a == UNK or isinstance(a, (Ext,)):
                out |= UNKV
            elif type(a) is tuple and ((a[0] == 'c' and a[1] == 'str') or a == ('t', 'str')):
                out |= STRV
            elif type(a) is tuple and a[0] in ('c', 't'):
                pass
            else:
                out |= UNKV
        return self.norm(out)

    def unpack(self, v, n, node, frame):
        """n-fold unpacking of v -> list of n values"""
        outs = [EMPTY] * n
        for a in v:
            if isinstance(a, Obj) and a.kind == 'tuple' and a.extra == n:
                for i in range(n):
                    outs[i] |= self.hget(a, ('$t', i))
            elif isinstance(a, Obj) and a.kind == 'tuple' and a.extra is not None:
                continue
            elif isinstance(a, Obj) and a.kind == 'nt':
                names = a.extra or []
                if len(names) == n:
                    for i in range(n):
                        outs[i] |= self.hget(a, names[i])
            else:
                e = self.elements(V([a]), node, frame)
                for i in range(n):
                    outs[i] |= e
        return outs

    def new_tuple(self, node, frame, elems, sub=''):
        o = self.alloc('tuple', node, frame, sub=sub + f't{len(elems)}')
        o.extra = len(elems)
        tot = EMPTY
        for i, e in enumerate(elems):
            self.hadd(o, ('$t', i), e)
            tot |= e
        self.hadd(o, '$e', tot)
        return V([o])

    # ------------------------------------------------------------------ modules
    def module(self, name):
        m = self.mods.get(name)
        if m is None:
            if name not in self.prog.modules:
                return None
            m = Mod(self.prog.modules[name])
            self.mods[name] = m
            self.hadd(m, '__name__', V([c(name)]))
        if m.state != self.round + 1:
            m.state = self.round + 1
            # parents first
            if '.' in name:
                p = self.module(name.rsplit('.', 1)[0])
                if p is not None:
                    self.hadd(p, name.rsplit('.', 1)[1], V([m]))
            self.run_module(m)
        return m

    def run_module(self, m):
        f = Frame()
        f.func = None
        f.mod = m
        f.cls = None
        f.selfv = None
        f.parent = None
        f.captured = set()
        f.globals_ = set()
        f.nonlocals = set()
        f.locals_ = None            # module scope: names go to module fields
        f.hctx = ('m',)
        # what the import of the package builds is shared by everything that runs in the process
        f.region = None if m.m.name.startswith('verif') else '@mod'
        f.ctx = ('module', m.m.name)
        f.envs = []
        env = {}
        self.exec_block(m.m.tree.body, env, f)

    # ------------------------------------------------------------------ scopes
    def scope(self, node):
        """(locals, captured, globals, nonlocals, is_gen) of a function/lambda/comprehension-less scope"""
        s = self.scopes.get(node)
        if s is not None:
            return s
        loc, glob, nonl = set(), set(), set()
        is_gen = False
        nested = []

        def tgt(t):
            if isinstance(t, ast.Name):
                loc.add(t.id)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    tgt(e)
            elif isinstance(t, ast.Starred):
                tgt(t.value)

        def walk(n):
            nonlocal is_gen
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                loc.add(n.name)
                nested.append(n)
                for d in n.decorator_list:
                    walk(d)
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    walk(d)
                return
            if isinstance(n, ast.Lambda):
                nested.append(n)
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    walk(d)
                return
            if isinstance(n, ast.ClassDef):
                loc.add(n.name)
                nested.append(n)
                return
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                is_gen = True
            if isinstance(n, ast.Global):
                glob.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                nonl.update(n.names)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                loc.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    loc.add((al.asname or al.name).split('.')[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                loc.add(n.name)
            for ch in ast.iter_child_nodes(n):
                walk(ch)

        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            loc.add(x.arg)
        body = node.body if isinstance(node.body, list) else [node.body]
        for st in body:
            walk(st)
        loc -= glob
        loc -= nonl
        # captured: free names of nested functions that are our locals
        cap = set()
        for nn in nested:
            for sub in ast.walk(nn):
                if isinstance(sub, ast.Name) and sub.id in loc:
                    cap.add(sub.id)
        s = (loc, cap, glob, nonl, is_gen)
        self.scopes[node] = s
        return s

    # ------------------------------------------------------------------ variables
    def load(self, name, env, frame, node):
        if name in env:
            v = env[name]
            if name in frame.captured:
                v = v | frame.boxes.get(name, EMPTY)
            return v
        f = frame
        if f.locals_ is not None and name in f.locals_ and name not in f.captured:
            # possibly unbound local (or a loop not yet stable)
            return EMPTY
        while f is not None and f.locals_ is not None:
            if name in f.boxes:
                return f.boxes[name]
            if name in f.locals_:
                return EMPTY
            f = f.parent
        m = frame.mod
        if name in m.fields:
            return m.fields[name]
        if hasattr(builtins, name):
            if name == 'None':
                return NONEV
            return V([Ext('builtins.' + name)])
        if name in ('__file__',):
            return STRV
        self.emit('undefined-name', node, frame, name)
        return EMPTY

    def store(self, name, val, env, frame, node):
        if frame.locals_ is None:      # module level or class body
            if frame.cls is not None and frame.func == 'class':
                self.hadd(frame.cls, name, val)
                env[name] = val
                return
            self.hadd(frame.mod, name, val)
            return
        if name in frame.globals_:
            self.emit('global-write', node, frame, frame.mod.m.name, name)
            self.hadd(frame.mod, name, val)
            return
        if name in frame.nonlocals:
            f = frame.parent
            while f is not None and f.locals_ is not None:
                if name in f.locals_:
                    old = f.boxes.get(name, EMPTY)
                    if not val <= old:
                        nv = self.norm(old | val)
                        if nv != old:
                            f.boxes[name] = nv
                            self.changed = True
                    return
                f = f.parent
            return
        env[name] = val
        if name in frame.captured:
            old = frame.boxes.get(name, EMPTY)
            if not val <= old:
                nv = self.norm(old | val)
                if nv != old:
                    frame.boxes[name] = nv
                    self.changed = True

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, env, frame):
        """Returns env or None when the end is unreachable. Break/continue/return recorded on frame/loop stack."""
        for s in stmts:
            if env is None:
                return None
            if self.final:
                self.reached_stmts.add(s)
            env = self.exec(s, env, frame)
            if frame.trystack and env is not None:
                frame.trystack[-1].append(dict(env))
        return env

    def join_env(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        if a is b:
            return a
        out = {}
        for k in a.keys() | b.keys():
            x, y = a.get(k), b.get(k)
            if type(k) is tuple:            # a fact: must hold on both sides
                if x is not None and y is not None:
                    out[k] = x
                continue
            if x is None:
                out[k] = y
            elif y is None:
                out[k] = x
            else:
                out[k] = x if x is y else self.join(x, y)
        return out

    def exec(self, s, env, frame):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise AnalysisBroken(f"unsupported statement {type(s).__name__} at {where(s)}")
        return m(s, env, frame)

    def s_Expr(self, s, env, frame):
        v = self.ev(s.value, env, frame)
        if self.never_returns(s.value, frame) or self.strict and not v:
            return None
        return env

    def never_returns(self, call, frame):
        if isinstance(call, ast.Call):
            f = call.func
            if isinstance(f, ast.Name) and f.id in ('exit', 'quit'):
                return True
        return False

    def s_Pass(self, s, env, frame):
        return env

    def s_Assign(self, s, env, frame):
        v = self.ev(s.value, env, frame)
        if self.strict and not v:
            return None
        for t in s.targets:
            self.assign(t, v, env, frame, s)
        return env

    def s_AnnAssign(self, s, env, frame):
        if s.value is not None:
            v = self.ev(s.value, env, frame)
            if self.strict and not v:
                return None
            self.assign(s.target, v, env, frame, s)
        return env

    def assign(self, t, v, env, frame, node):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env, frame, t)
            for k in [k for k in env if type(k) is tuple and t.id in k[3]]:
                del env[k]
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                e = self.elements(v, t, frame)
                for x in t.elts:
                    if isinstance(x, ast.Starred):
                        self.assign(x.value, self.new_list(x, frame, e), env, frame, node)
                    else:
                        self.assign(x, e, env, frame, node)
            else:
                for x, vv in zip(t.elts, self.unpack(v, len(t.elts), t, frame)):
                    self.assign(x, vv, env, frame, node)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, env, frame)
            self.set_attr(base, t.attr, v, t, frame)
            for k in [k for k in env if type(k) is tuple and t.attr in k[3]]:
                del env[k]
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, env, frame)
            idx = self.ev(t.slice, env, frame)
            self.set_item(base, idx, v, t, frame)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, frame, node)

    def set_attr(self, base, attr, v, node, frame):
        for a in base:
            if isinstance(a, Obj):
                self.mutate(a, 'attr:' + attr, node, frame)
                self.hadd(a, attr, v)
            elif isinstance(a, ClassInfo):
                self.emit('class-write', node, frame, a.qual, attr)
                self.hadd(a, attr, v)
            elif isinstance(a, Mod):
                self.emit('global-write', node, frame, a.m.name, attr)
                self.hadd(a, attr, v)
            elif isinstance(a, Ext):
                self.emit('ext-write', node, frame, a.name, attr)
            elif a == UNK:
                self.emit('unk-write', node, frame, attr)

    def set_item(self, base, idx, v, node, frame):
        for a in base:
            if isinstance(a, Obj):
                if a.kind == 'inst':
                    m, k = a.cls.find('__setitem__')
                    if m:
                        self.call_value(self.bind(m, a, k), [idx, v], {}, node, frame)
                        continue
                self.mutate(a, 'setitem', node, frame)
                if a.kind == 'dict':
                    self.hadd(a, '$k', idx)
                    self.hadd(a, '$v', v)
                else:
                    if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
                        v = self.elements(v, node, frame)
                    self.hadd(a, '$e', v)
            elif isinstance(a, Ext):
                self.emit('ext-write', node, frame, a.name, '[]')

    def mutate(self, obj, what, node, frame):
        # mutations by the code that builds the object (same region) are its construction
        if self.final and (obj.region is None or frame is None or frame.region != obj.region):
            self.emit('mutate', node, frame, obj, what)

    def s_AugAssign(self, s, env, frame):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load(t.id, env, frame, t)
            r = self.ev(s.value, env, frame)
            self.store(t.id, self.aug(old, r, s, frame), env, frame, t)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, env, frame)
            old = self.get_attr(base, t.attr, t, frame)
            r = self.ev(s.value, env, frame)
            self.set_attr(base, t.attr, self.aug(old, r, s, frame), t, frame)
        else:
            base = self.ev(t.value, env, frame)
            idx = self.ev(t.slice, env, frame)
            old = self.get_item(base, idx, t, frame)
            r = self.ev(s.value, env, frame)
            self.set_item(base, idx, self.aug(old, r, s, frame), t, frame)
        return env

    def aug(self, old, r, s, frame):
        out = EMPTY
        rest = set()
        for a in old:
            if isinstance(a, Obj) and a.kind in ('list', 'set', 'dict') and a.extra != 'frozen':
                self.mutate(a, 'augassign', s, frame)
                if a.kind == 'dict':
                    for b in r:
                        if isinstance(b, Obj) and b.kind == 'dict':
                            self.hadd(a, '$k', self.hget(b, '$k'))
                            self.hadd(a, '$v', self.hget(b, '$v'))
                else:
                    self.hadd(a, '$e', self.elements(r, s, frame))
                out |= V([a])
            else:
                rest.add(a)
        if rest:
            out |= self.binop(V(rest), r, s.op, s, frame)
        elif not old:
            out |= self.binop(EMPTY, r, s.op, s, frame)
        return out

    def s_Return(self, s, env, frame):
        v = self.ev(s.value, env, frame) if s.value is not None else NONEV
        frame.ret = self.join(frame.ret, v)
        if self.final:
            self.emit('return', s, frame)
        return None

    def s_Raise(self, s, env, frame):
        if s.exc is not None:
            self.ev(s.exc, env, frame)
        self.emit('raise', s, frame)
        return None

    def s_Assert(self, s, env, frame):
        t, f = self.test(s.test, env, frame)
        if s.msg is not None and f is not None:
            self.ev(s.msg, f, frame)
        return t

    def s_If(self, s, env, frame):
        t, f = self.test(s.test, env, frame)
        a = self.exec_block(s.body, t, frame) if t is not None else None
        b = self.exec_block(s.orelse, f, frame) if f is not None else None
        return self.join_env(a, b)

    def loop(self, frame, env, head, body, orelse):
        """head(env) -> (body_env, exit_env)"""
        exit_env = None
        brk_all = None
        cur = env
        for it in range(12):
            frame.envs.append([None, None])
            b, x = head(dict(cur))
            if b is not None:
                b = self.exec_block(body, b, frame)
            brk, cont = frame.envs.pop()
            b = self.join_env(b, cont)
            exit_env = self.join_env(exit_env, x)
            brk_all = self.join_env(brk_all, brk)
            if b is None:
                break
            new = self.join_env(cur, b)
            if new == cur:
                break
            cur = new
        if exit_env is not None:
            exit_env = self.exec_block(orelse, exit_env, frame)
        return self.join_env(exit_env, brk_all)

    def s_While(self, s, env, frame):
        return self.loop(frame, env, lambda e: self.test(s.test, e, frame), s.body, s.orelse)

    def s_For(self, s, env, frame):
        it = self.ev(s.iter, env, frame)
        self.note_iter(s.iter, it, s, frame)

        def head(e):
            x = dict(e)
            v = self.elements(it if True else None, s.iter, frame)
            # re-evaluate the elements: the heap may have grown
            self.assign(s.target, v, e, frame, s)
            self.iter_fact(s.target, s.iter, e)
            nonempty = bool(v)
            return (e if nonempty else None), x
        return self.loop(frame, env, head, s.body, s.orelse)

    def note_iter(self, expr, val, node, frame):
        pass

    def s_Break(self, s, env, frame):
        frame.envs[-1][0] = self.join_env(frame.envs[-1][0], env)
        return None

    def s_Continue(self, s, env, frame):
        frame.envs[-1][1] = self.join_env(frame.envs[-1][1], env)
        return None

    def s_Global(self, s, env, frame):
        return env

    s_Nonlocal = s_Global

    def s_Delete(self, s, env, frame):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.ev(t.value, env, frame)
                self.ev(t.slice, env, frame)
                for a in base:
                    if isinstance(a, Obj):
                        self.mutate(a, 'delitem', t, frame)
                    elif isinstance(a, Ext):
                        self.emit('ext-write', t, frame, a.name, '[]')
            elif isinstance(t, ast.Attribute):
                for a in self.ev(t.value, env, frame):
                    if isinstance(a, Obj):
                        self.mutate(a, 'attr:' + t.attr, t, frame)
            elif isinstance(t, ast.Name):
                env.pop(t.id, None)
        return env

    def s_With(self, s, env, frame):
        for i in s.items:
            v = self.ev(i.context_expr, env, frame)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, UNKV, env, frame, s)
        return self.exec_block(s.body, env, frame)

    def s_Try(self, s, env, frame):
        frame.trystack.append([dict(env)])
        if self.final:
            self.emit('try', s, frame)
        body = self.exec_block(s.body, dict(env), frame)
        envs = frame.trystack.pop()
        if frame.trystack:
            frame.trystack[-1].extend(envs)
        h = None
        for e in envs:
            h = self.join_env(h, e)
        if body is not None:
            body = self.exec_block(s.orelse, body, frame)
        out = body
        for hd in s.handlers:
            he = dict(h)
            if hd.type is not None:
                self.ev(hd.type, he, frame)
            if hd.name:
                self.store(hd.name, UNKV, he, frame, hd)
            out = self.join_env(out, self.exec_block(hd.body, he, frame))
        if s.finalbody:
            fe = self.exec_block(s.finalbody, dict(self.join_env(h, out)), frame)
            if out is None or fe is None:
                return None if fe is None or out is None else fe
            return fe
        return out

    def s_FunctionDef(self, s, env, frame):
        v = self.make_func(s, env, frame)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, env, frame)
            v = self.decorate(dv, v, d, frame)
        self.store(s.name, v, env, frame, s)
        return env

    def decorate(self, dv, v, node, frame):
        out = EMPTY
        for a in dv:
            if isinstance(a, Ext):
                n = a.name
                if n == 'builtins.staticmethod':
                    out |= V([('static', f) for f in v])
                elif n == 'builtins.classmethod':
                    out |= V([('clsm', f) for f in v])
                elif n == 'builtins.property' or n.startswith('functools.cached_property'):
                    out |= V([('prop', f) for f in v])
                elif n in ('abc.abstractmethod',):
                    out |= v
                else:
                    out |= v
            elif isinstance(a, Func):
                out |= self.call_value(V([a]), [v], {}, node, frame)
            elif type(a) is tuple and a[0] == 'prop':
                out |= V([a])
            else:
                out |= v
        return out or v

    def make_func(self, node, env, frame):
        f = Func(node, frame.mod, frame if frame.locals_ is not None else None, None,
                 frame.cls if frame.func == 'class' else None)
        # defaults are evaluated at definition time; they live in a pseudo heap keyed by the function node
        a = node.args
        pos = a.posonlyargs + a.args
        h = self.defaults_holder(node, f.frame)
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            self.hadd(h, p.arg, self.ev(d, env, frame))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                self.hadd(h, p.arg, self.ev(d, env, frame))
        return V([f])

    def defaults_holder(self, node, fr):
        key = ('defaults', id(node), id(fr))
        h = self.objs.get(key)
        if h is None:
            h = Obj('defaults', None, node, (), None)
            self.objs[key] = h
        return h

    def s_ClassDef(self, s, env, frame):
        key = (s, frame if frame.locals_ is not None else None)
        k = self.classes.get(key)
        if k is None:
            k = ClassInfo(s.name, s, frame.mod.m)
            self.classes[key] = k
        for b in s.bases:
            bn = b.value if isinstance(b, ast.Subscript) else b
            for a in self.ev(bn, env, frame):
                if isinstance(a, ClassInfo) and a is not k:
                    if a not in k.bases:
                        k.bases.append(a)
                        self.changed = True
                elif isinstance(a, Ext) and a.name not in k.ext_bases:
                    k.ext_bases.append(a.name)
        f = Frame()
        f.func = 'class'
        f.mod = frame.mod
        f.cls = k
        f.selfv = None
        f.parent = frame if frame.locals_ is not None else None
        f.captured = set()
        f.globals_ = set()
        f.nonlocals = set()
        f.locals_ = None
        f.hctx = ('class', k.name)
        f.region = frame.region
        f.ctx = ('class', k.name)
        f.envs = []
        self.exec_block(s.body, {}, f)
        for d in s.decorator_list:
            self.ev(d, env, frame)
        self.store(s.name, V([k]), env, frame, s)
        return env

    def s_Import(self, s, env, frame):
        for al in s.names:
            top = al.name.split('.')[0]
            if al.name in self.prog.modules:
                m = self.module(al.name)
                tgt = m if al.asname else self.module(top)
                self.store(al.asname or top, V([tgt]), env, frame, s)
            else:
                self.store(al.asname or top, V([Ext(al.name if al.asname else top)]), env, frame, s)
        return env

    def s_ImportFrom(self, s, env, frame):
        name = s.module or ''
        if s.level:
            base = frame.mod.m.name.split('.')
            if not frame.mod.m.is_pkg:
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            name = '.'.join(base + ([s.module] if s.module else []))
        if name in self.prog.modules:
            m = self.module(name)
            for al in s.names:
                if al.name == '*':
                    for k, v in list(m.fields.items()):
                        if not k.startswith('_'):
                            self.store(k, v, env, frame, s)
                    continue
                if al.name in m.fields:
                    v = m.fields[al.name]
                else:
                    sub = self.module(name + '.' + al.name)
                    if sub is not None:
                        v = V([sub])
                    else:
                        self.emit('import-missing', s, frame, name, al.name)
                        v = EMPTY
                self.store(al.asname or al.name, v, env, frame, s)
        else:
            for al in s.names:
                if al.name == '*':
                    continue
                self.store(al.asname or al.name, V([Ext(name + '.' + al.name)]), env, frame, s)
        return env

    def s_AsyncFunctionDef(self, s, env, frame):
        raise AnalysisBroken("async functions are not supported")

    # ------------------------------------------------------------------ tests and narrowing
    def truth(self, v):
        """(may be true, may be false)"""
        t = f = False
        for a in v:
            if is_const(a):
                if a[2]:
                    t = True
                else:
                    f = True
            elif isinstance(a, (Func, ClassInfo, Ext, BM, Mod)):
                t = True
            elif isinstance(a, Obj) and a.kind == 'inst':
                if a.cls.find('__len__')[0] or a.cls.find('__bool__')[0] or a.cls.ext_bases and not set(
                        a.cls.ext_bases) <= {'abc.ABC', 'typing.Generic', 'builtins.object'}:
                    t = f = True
                else:
                    t = True
            elif isinstance(a, Obj) and a.kind == 'tuple' and a.extra is not None:
                if a.extra:
                    t = True
                else:
                    f = True
            else:
                t = f = True
            if t and f:
                break
        return t, f

    def narrow(self, e, env, frame, keep):
        """Refine the variable e (Name or Name.attr) to atoms for which keep(atom)."""
        if isinstance(e, ast.NamedExpr):
            e = e.target
        if isinstance(e, ast.Name) and e.id in env and e.id not in frame.captured:
            v = V(a for a in env[e.id] if keep(a))
            env = dict(env)
            env[e.id] = v
        return env

    def test(self, e, env, frame):
        """-> (env when true or None, env when false or None)"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.test(e.operand, env, frame)
            return f, t
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                fs = None
                cur = env
                for v in e.values:
                    t, f = self.test(v, cur, frame)
                    fs = self.join_env(fs, f)
                    cur = t
                    if cur is None:
                        break
                return cur, fs
            ts = None
            cur = env
            for v in e.values:
                t, f = self.test(v, cur, frame)
                ts = self.join_env(ts, t)
                cur = f
                if cur is None:
                    break
            return ts, cur
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l = self.ev(e.left, env, frame)
            r = self.ev(e.comparators[0], env, frame)
            op = e.ops[0]
            v = self.compare(l, r, op, e, frame)
            if self.final:
                self.types[e] = self.types.get(e, EMPTY) | v
            t, f = self.truth(v)
            te, fe = (dict(env) if t else None), (dict(env) if f else None)
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                pos, neg = (te, fe) if isinstance(op, (ast.Is, ast.Eq)) else (fe, te)
                if len(r) == 1 and is_const(next(iter(r))):
                    k = next(iter(r))
                    if pos is not None:
                        pos = self.narrow(e.left, pos, frame,
                                          lambda a: (a == k) or (not is_const(a) and not (k[2] is None and (isinstance(a, Atom) or a[0] == 't'))
                                                                 and not (isinstance(a, (Func, ClassInfo, Mod)) or isinstance(a, Obj) and isinstance(op, (ast.Is, ast.IsNot)))))
                    if neg is not None:
                        neg = self.narrow(e.left, neg, frame, lambda a: a != k)
                elif isinstance(e.left, ast.Call) and isinstance(e.left.func, ast.Name) and e.left.func.id == 'type' \
                        and r and all(isinstance(x, ClassInfo) for x in r) and e.left.args:
                    ks = set(r)
                    if pos is not None:
                        pos = self.narrow(e.left.args[0], pos, frame, lambda a: a == UNK or isinstance(a, Obj) and a.cls in ks)
                te, fe = (pos, neg) if isinstance(op, (ast.Is, ast.Eq)) else (neg, pos)
            elif isinstance(op, (ast.In, ast.NotIn)):
                pos, neg = (te, fe) if isinstance(op, ast.In) else (fe, te)
                els = self.elements(r) if all(isinstance(x, Obj) and x.kind in CONTAINER and x.kind != 'iter' for x in r) else None
                if els is not None and els and all(is_const(x) for x in els) and pos is not None:
                    pos = self.narrow(e.left, pos, frame, lambda a: a in els or not is_const(a) and not (isinstance(a, Atom)))
                if pos is not None:
                    pos = self.add_in_fact(e.left, e.comparators[0], pos)
                te, fe = (pos, neg) if isinstance(op, ast.In) else (neg, pos)
            return te, fe
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'isinstance' and len(e.args) == 2:
            v = self.ev(e, env, frame)
            t, f = self.truth(v)
            ks = self.class_set(self.ev(e.args[1], env, frame))
            te, fe = (dict(env) if t else None), (dict(env) if f else None)
            if ks is not None:
                if te is not None:
                    te = self.narrow(e.args[0], te, frame, lambda a: self.isinst(a, ks) is not False)
                if fe is not None:
                    fe = self.narrow(e.args[0], fe, frame, lambda a: self.isinst(a, ks) is not True)
            return te, fe
        v = self.ev(e, env, frame)
        t, f = self.truth(v)
        te, fe = (dict(env) if t else None), (dict(env) if f else None)
        if te is not None:
            te = self.narrow(e, te, frame, lambda a: self.truth((a,))[0])
        if fe is not None:
            fe = self.narrow(e, fe, frame, lambda a: self.truth((a,))[1])
        return te, fe

    @staticmethod
    def strip_keys(e):
        while True:
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('keys', 'items') and not e.args:
                e = e.func.value
            elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and len(e.args) == 1 and \
                    e.func.id in ('list', 'tuple', 'set', 'sorted', 'iter', 'reversed', 'frozenset'):
                e = e.args[0]
            else:
                return e

    def in_fact(self, key, cont):
        cont = self.strip_keys(cont)
        if not isinstance(key, (ast.Name, ast.Attribute, ast.Constant, ast.Tuple, ast.Subscript)) or not isinstance(cont, (ast.Name, ast.Attribute, ast.Subscript)):
            return None
        names = frozenset(x.id if isinstance(x, ast.Name) else x.attr for e in (key, cont) for x in ast.walk(e)
                          if isinstance(x, (ast.Name, ast.Attribute)))
        return ('in', ast.unparse(key), ast.unparse(cont), names)

    def add_in_fact(self, key, cont, env):
        f = self.in_fact(key, cont)
        if f is None:
            return env
        env = dict(env)
        env[f] = TRUEV
        return env

    def iter_fact(self, target, it, env):
        """for k in D / D.keys() / for k, v in D.items()"""
        c_ = it
        if isinstance(c_, ast.Call) and isinstance(c_.func, ast.Name) and c_.func.id in ('list', 'tuple', 'sorted') and len(c_.args) == 1:
            c_ = c_.args[0]
        if isinstance(c_, ast.Call) and isinstance(c_.func, ast.Attribute) and c_.func.attr == 'items' and isinstance(target, ast.Tuple) \
                and len(target.elts) == 2:
            f = self.in_fact(target.elts[0], c_.func.value)
        elif isinstance(c_, ast.Call) and isinstance(c_.func, ast.Attribute) and c_.func.attr == 'keys':
            f = self.in_fact(target, c_.func.value)
        elif isinstance(c_, (ast.Name, ast.Attribute)) and isinstance(target, ast.Name):
            f = self.in_fact(target, c_)
        else:
            f = None
        if f is not None and not any(isinstance(x, ast.Name) and x.id in {y.id for y in ast.walk(it) if isinstance(y, ast.Name)}
                                     for x in ast.walk(target)):
            env[f] = TRUEV

    def class_set(self, v):
        out = []
        for a in v:
            if isinstance(a, (ClassInfo, Ext)):
                out.append(a)
            elif isinstance(a, Obj) and a.kind in ('tuple', 'set', 'list'):
                r = self.class_set(self.hget(a, '$e'))
                if r is None:
                    return None
                out += r
            else:
                return None
        return out

    def isinst(self, a, ks):
        """True/False/None(unknown)"""
        if isinstance(a, Obj):
            if a.kind in ('inst', 'nt') and a.cls is not None:
                mro = a.cls.mro()
                if any(k in mro for k in ks if isinstance(k, ClassInfo)):
                    return True
                if any(isinstance(k, Ext) and k.name in a.cls.ext_bases for k in ks):
                    return True
                return False
            names = {'list': {'builtins.list'}, 'dict': {'builtins.dict'}, 'set': {'builtins.set'},
                     'tuple': {'builtins.tuple'}, 'frozenset': {'builtins.frozenset'}}.get(a.kind)
            if names is not None:
                for k in ks:
                    if isinstance(k, Ext):
                        if k.name in names:
                            return True
                        if k.name.startswith('collections') or k.name.startswith('typing'):
                            return None
                return False
            return None
        if type(a) is tuple and a[0] in ('c', 't'):
            n = a[1]
            for k in ks:
                if isinstance(k, Ext):
                    b = k.name.split('.')[-1]
                    if b == n or (n == 'bool' and b == 'int') or n == 'num':
                        return True if n != 'num' else None
            return False
        if isinstance(a, (ClassInfo, Func, Mod)):
            return None
        return None

    def compare(self, l, r, op, node, frame):
        if not l or not r:
            return EMPTY if not (l or r) else BOOLV
        if len(l) * len(r) > 64:
            return BOOLV
        t = f = False
        for a in l:
            for b in r:
                x = self.cmp1(a, b, op)
                if x is None:
                    return BOOLV
                if x:
                    t = True
                else:
                    f = True
                if t and f:
                    return BOOLV
        return TRUEV if t else FALSEV

    def cmp1(self, a, b, op):
        ca, cb = is_const(a), is_const(b)
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            pos = isinstance(op, (ast.Is, ast.Eq))
            r = None
            if ca and cb:
                r = (a[2] == b[2]) if isinstance(op, (ast.Eq, ast.NotEq)) else (a == b)
            elif ca or cb:
                k, o = (a, b) if ca else (b, a)
                if k[2] is None:
                    if isinstance(o, (Obj, Func, ClassInfo, Mod, BM)) or (type(o) is tuple and o[0] == 't'):
                        r = False
                elif isinstance(o, (Func, ClassInfo, Mod)):
                    r = False
                elif isinstance(o, Obj) and not (o.kind == 'inst' and o.cls.find('__eq__')[0]):
                    r = False
            elif isinstance(a, ClassInfo) and isinstance(b, ClassInfo):
                r = a is b
            elif isinstance(a, Obj) and isinstance(b, Obj) and isinstance(op, (ast.Is, ast.IsNot)) and a is not b:
                r = False
            elif isinstance(a, Func) and isinstance(b, Func) and a.node is not b.node:
                r = False
            if r is None:
                return None
            return r if pos else not r
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and ca and cb:
            try:
                return {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y,
                        ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}[type(op)](a[2], b[2])
            except TypeError:
                return None
        if isinstance(op, (ast.In, ast.NotIn)) and ca and cb and isinstance(a[2], str) and isinstance(b[2], str):
            return (a[2] in b[2]) == isinstance(op, ast.In)
        if isinstance(op, (ast.In, ast.NotIn)) and ca and isinstance(b, Obj) and b.kind in ('list', 'tuple', 'set', 'frozenset', 'dict'):
            els = self.hget(b, '$k' if b.kind == 'dict' else '$e')
            if b.kind == 'dict' and not els:
                return None
            if els and all(is_const(x) for x in els):
                if a not in els and not any(x[2] == a[2] for x in els):
                    return isinstance(op, ast.NotIn)
                # membership in a literal collection of constants, never mutated afterwards
                if self.literal(b):
                    return isinstance(op, ast.In)
            return None
        return None

    def literal(self, o):
        s = o.site
        if isinstance(s, (ast.Tuple, ast.Set, ast.List)):
            return all(isinstance(x, ast.Constant) for x in s.elts)
        if isinstance(s, ast.Dict):
            return all(isinstance(x, ast.Constant) for x in s.keys)
        return False

    # ------------------------------------------------------------------ expressions
    def ev(self, e, env, frame):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise AnalysisBroken(f"unsupported expression {type(e).__name__} at {where(e)}")
        v = m(e, env, frame)
        if self.final:
            o = self.types.get(e)
            self.types[e] = v if o is None else o | v
            if self.expr_hook:
                self.expr_hook(e, v, frame)
            if frame is not None and any(type(x) is Obj for x in v):
                k = (e, frame.ctx)
                o = self.ctypes.get(k)
                self.ctypes[k] = v if o is None else o | v
        return v

    def e_Constant(self, e, env, frame):
        v = e.value
        if v is None or isinstance(v, (bool, int, str, float)):
            return V([c(v)])
        return UNKV

    def e_Name(self, e, env, frame):
        return self.load(e.id, env, frame, e)

    def e_Attribute(self, e, env, frame):
        b = self.ev(e.value, env, frame)
        return self.get_attr(b, e.attr, e, frame)

    def bind(self, val, obj, cls):
        """Class attribute seen through an instance (obj Obj) -> value"""
        out = set()
        for a in val:
            if isinstance(a, Func) and a.self is None and a.cls is not None:
                out.add(self.mkbound(a, obj))
            elif type(a) is tuple and a and a[0] == 'static':
                out.add(a[1])
            elif type(a) is tuple and a and a[0] == 'clsm':
                out.add(self.mkbound(a[1], cls))
            else:
                out.add(a)
        return V(out)

    def mkbound(self, f, obj):
        return Func(f.node, f.mod, f.frame, obj, f.cls)

    def get_attr(self, base, attr, node, frame):
        out = EMPTY
        for a in base:
            if isinstance(a, Obj):
                out |= self.obj_attr(a, attr, node, frame)
            elif isinstance(a, ClassInfo):
                v, k = a.find(attr)
                if v is not None:
                    out |= V(x[1] if type(x) is tuple and x and x[0] in ('static',) else
                             (self.mkbound(x[1], a) if type(x) is tuple and x and x[0] == 'clsm' else x) for x in v)
                elif attr in ('__name__', '__qualname__', '__doc__', '__module__'):
                    out |= STRV
                elif attr == '__init__' and not a.find('__init__')[0]:
                    out |= UNKV
                else:
                    if not [x for x in a.mro() for y in x.ext_bases if y not in ('abc.ABC', 'typing.Generic')]:
                        self.emit('attr-missing', node, frame, attr, 'class ' + a.name)
                    out |= UNKV
            elif isinstance(a, Mod):
                if attr in a.fields:
                    out |= a.fields[attr]
                else:
                    sub = self.module(a.m.name + '.' + attr)
                    if sub is not None:
                        out |= V([sub])
                    else:
                        self.emit('attr-missing', node, frame, attr, 'module ' + a.m.name)
            elif isinstance(a, Ext):
                out |= V([Ext(extend_name(a.name, attr))])
            elif isinstance(a, Super):
                done = False
                mro = a.obj.cls.mro() if isinstance(a.obj, Obj) else []
                i = mro.index(a.cls) if a.cls in mro else -1
                for k in mro[i + 1:]:
                    if attr in k.fields:
                        out |= self.bind(k.fields[attr], a.obj, k)
                        done = True
                        break
                if not done:
                    out |= UNKV
            elif isinstance(a, Func):
                out |= STRV if attr in ('__name__', '__doc__', '__qualname__') else UNKV
            elif a == UNK:
                out |= UNKV
            elif type(a) is tuple and a[0] in ('c', 't'):
                if a == NONE:
                    self.emit('attr-none', node, frame, attr)
                    continue
                out |= V([BM(('scalar', a), attr)]) if False else V([Ext('scalar.' + a[1] + '.' + attr)])
            elif type(a) is tuple and a[0] == 'prop':
                out |= V([Ext('builtins.property.' + attr)])
            else:
                out |= UNKV
        return self.norm(out)

    def obj_attr(self, a, attr, node, frame):
        out = EMPTY
        if a.kind in ('inst', 'nt'):
            got = False
            if attr in a.fields:
                out |= a.fields[attr]
                got = True
            v, k = a.cls.find(attr) if a.cls else (None, None)
            if v is not None:
                got = True
                props = [x for x in v if type(x) is tuple and x and x[0] == 'prop']
                for p in props:
                    out |= self.call_value(V([self.mkbound(p[1], a)]), [], {}, node, frame)
                rest = v - set(props)
                if rest:
                    out |= self.bind(rest, a, a.cls)
            if attr == '__class__':
                return V([a.cls])
            if attr == '__dict__':
                return UNKV
            if not got:
                if a.kind == 'nt' and attr in ('_asdict', '_replace', '_fields'):
                    return UNKV
                ext = [y for x in a.cls.mro() for y in x.ext_bases if y not in ('abc.ABC', 'typing.Generic', 'typing.Protocol')]
                if not ext and not (attr.startswith('__') and attr.endswith('__')):
                    self.emit('attr-missing', node, frame, attr, a.cls.name)
                if ext:
                    out |= UNKV
                elif attr.startswith('__'):
                    out |= UNKV
            return out
        if a.kind in CONTAINER:
            if attr == '__class__':
                return V([Ext('builtins.' + a.kind)])
            if attr == 'maxlen' or attr == 'default_factory':
                return UNKV
            return V([BM(a, attr)])
        if a.kind == 'partial':
            return UNKV
        return UNKV

    def e_Subscript(self, e, env, frame):
        b = self.ev(e.value, env, frame)
        if isinstance(e.slice, ast.Slice):
            parts = [self.ev(x, env, frame) if x is not None else NONEV for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            fold = all(len(x) == 1 and is_const(next(iter(x))) for x in parts)
            out = EMPTY
            for a in b:
                if fold and is_const(a) and a[1] == 'str':
                    try:
                        out |= V([c(a[2][slice(*[next(iter(x))[2] for x in parts])])])
                        continue
                    except (TypeError, ValueError):
                        pass
                if isinstance(a, Obj) and a.kind in ('list', 'tuple'):
                    out |= self.new_list(e, frame, self.hget(a, '$e'), kind=a.kind)
                elif isinstance(a, Obj):
                    out |= UNKV
                elif a == UNK:
                    out |= UNKV
                elif type(a) is tuple and a[0] in ('c', 't') and a[1] == 'str':
                    out |= STRV
            return out
        i = self.ev(e.slice, env, frame)
        f = self.in_fact(e.slice, e.value)
        return self.get_item(b, i, e, frame, known=f is not None and f in env)

    def as_written(self, d):
        """a dictionary whose keys are the constants of its literal, never changed afterwards"""
        per = {k[1]: v for k, v in d.fields.items() if type(k) is tuple and k[0] == '$d'}
        if not per or {c(k) for k in per if type(k) is not tuple} != {k for k in self.hget(d, '$k') if not isinstance(k, Obj)}:
            return False
        if any(isinstance(k, Obj) and getattr(k.site, 'parent', None) is not d.site for k in self.hget(d, '$k')):
            return False
        u = EMPTY
        for v in per.values():
            u |= v
        return self.hget(d, '$v') <= u

    def const_keys(self, idx):
        """the constant keys an index can be (tuples of constants included), None if it can be anything else"""
        out = []
        for x in idx:
            if is_const(x):
                out.append(x[2])
            elif isinstance(x, Obj) and x.kind == 'tuple' and x.extra:
                parts = [self.hget(x, ('$t', i)) for i in range(x.extra)]
                if not all(p and len(p) <= 4 and all(is_const(y) for y in p) for p in parts):
                    return None
                out.extend(itertools.product(*[[y[2] for y in p] for p in parts]))
            else:
                return None
        return out[:64] if len(out) <= 64 else None

    def get_item(self, base, idx, node, frame, known=False):
        out = EMPTY
        for a in base:
            if isinstance(a, Obj):
                if a.kind == 'dict':
                    v = self.hget(a, '$v')
                    keys = self.const_keys(idx)
                    if keys and self.as_written(a):
                        # the dictionary is only what its literal says: the entry of the key, or a missing key
                        for x in keys:
                            out |= self.hget(a, ('$d', x))
                        continue
                    out |= v
                    if a.extra and a.extra[0] == 'default' and not known:
                        self.mutate(a, 'defaultget', node, frame)
                        r = self.call_value(a.fields.get('$factory', EMPTY), [], {}, a.extra[1], a.extra[2])
                        self.hadd(a, '$v', r)
                        self.hadd(a, '$k', idx)
                        out |= r
                elif a.kind == 'tuple' and a.extra is not None and len(idx) == 1 and is_const(next(iter(idx))):
                    k = next(iter(idx))[2]
                    if isinstance(k, int) and -a.extra <= k < a.extra:
                        out |= self.hget(a, ('$t', k % a.extra))
                elif a.kind == 'nt':
                    ks = [x for x in idx if is_const(x)]
                    names = a.extra or []
                    if len(idx) == 1 and ks and isinstance(ks[0][2], int) and ks[0][2] < len(names):
                        out |= self.hget(a, names[ks[0][2]])
                    else:
                        out |= self.elements(V([a]))
                elif a.kind in ('list', 'tuple', 'iter'):
                    out |= self.hget(a, '$e')
                elif a.kind == 'inst':
                    m, k = a.cls.find('__getitem__')
                    if m:
                        out |= self.call_value(self.bind(m, a, k), [idx], {}, node, frame)
                    else:
                        out |= UNKV
                else:
                    out |= UNKV
            elif a == UNK:
                out |= UNKV
            elif type(a) is tuple and a[0] in ('c', 't'):
                if a[1] == 'str':
                    out |= STRV
            elif isinstance(a, (Ext, ClassInfo)):
                out |= V([a])      # typing generics
            else:
                out |= UNKV
        return self.norm(out)

    def e_Tuple(self, e, env, frame):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            els = EMPTY
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    els |= self.elements(self.ev(x.value, env, frame), e, frame)
                else:
                    els |= self.ev(x, env, frame)
            return self.new_list(e, frame, els, kind='tuple')
        return self.new_tuple(e, frame, [self.ev(x, env, frame) for x in e.elts])

    def seq_elems(self, e, env, frame):
        els = EMPTY
        for x in e.elts:
            if isinstance(x, ast.Starred):
                els |= self.elements(self.ev(x.value, env, frame), e, frame)
            else:
                els |= self.ev(x, env, frame)
        return els

    def e_List(self, e, env, frame):
        return self.new_list(e, frame, self.seq_elems(e, env, frame))

    def e_Set(self, e, env, frame):
        return self.new_list(e, frame, self.seq_elems(e, env, frame), kind='set')

    def e_Dict(self, e, env, frame):
        k = v = EMPTY
        per = {}
        for a, b in zip(e.keys, e.values):
            bv = self.ev(b, env, frame)
            if isinstance(a, ast.Constant):
                per[a.value] = bv
            elif isinstance(a, ast.UnaryOp) and isinstance(a.op, ast.USub) and isinstance(a.operand, ast.Constant):
                per[-a.operand.value] = bv
            elif isinstance(a, ast.Tuple) and all(isinstance(x, ast.Constant) for x in a.elts):
                per[tuple(x.value for x in a.elts)] = bv
            if a is None:
                for x in bv:
                    if isinstance(x, Obj) and x.kind == 'dict':
                        k |= self.hget(x, '$k')
                        v |= self.hget(x, '$v')
                    elif x == UNK:
                        k |= UNKV
                        v |= UNKV
            else:
                k |= self.ev(a, env, frame)
                v |= bv
        out = self.new_dict(e, frame, k, v)
        if per and len(per) == len(e.keys):
            for o in out:
                if o.kind == 'dict':
                    for kk, vv in per.items():
                        self.hadd(o, ('$d', kk), vv)
        return out

    def e_Starred(self, e, env, frame):
        return self.elements(self.ev(e.value, env, frame), e, frame)

    def e_JoinedStr(self, e, env, frame):
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                self.stringify(self.ev(x.value, env, frame), e, frame)
        return STRV

    def e_FormattedValue(self, e, env, frame):
        self.ev(e.value, env, frame)
        return STRV

    def stringify(self, v, node, frame):
        for a in v:
            if isinstance(a, Obj) and a.kind == 'inst':
                for n in ('__str__', '__repr__'):
                    m, k = a.cls.find(n)
                    if m:
                        self.call_value(self.bind(m, a, k), [], {}, node, frame)
                        break

    def e_BoolOp(self, e, env, frame):
        out = EMPTY
        cur = env
        is_and = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            v = self.ev(x, cur, frame)
            last = i == len(e.values) - 1
            if last:
                out |= v
                break
            keep = V(a for a in v if self.truth((a,))[1 if is_and else 0])
            out |= keep
            t, f = self.test(x, cur, frame)
            cur = t if is_and else f
            if cur is None:
                break
        return out

    def e_UnaryOp(self, e, env, frame):
        v = self.ev(e.operand, env, frame)
        if isinstance(e.op, ast.Not):
            t, f = self.truth(v)
            return (FALSEV if t else EMPTY) | (TRUEV if f else EMPTY)
        if isinstance(e.op, ast.USub) and len(v) == 1:
            a = next(iter(v))
            if is_const(a) and isinstance(a[2], (int, float)):
                return V([c(-a[2])])
        return ty('num')

    def e_BinOp(self, e, env, frame):
        l = self.ev(e.left, env, frame)
        r = self.ev(e.right, env, frame)
        return self.binop(l, r, e.op, e, frame)

    def binop(self, l, r, op, node, frame):
        out = EMPTY
        ls = [a for a in l if isinstance(a, Obj)]
        rs = [a for a in r if isinstance(a, Obj)]
        for a in ls:
            if a.kind in ('list', 'tuple'):
                els = self.hget(a, '$e')
                if isinstance(op, ast.Add):
                    els = els | self.elements(V(x for x in r if isinstance(x, Obj) or x == UNK))
                # fixed shape concatenation
                if isinstance(op, ast.Add) and a.kind == 'tuple' and a.extra is not None and len(rs) == 1 and rs[0].kind == 'tuple' \
                        and rs[0].extra is not None and len(ls) == 1 and a.extra + rs[0].extra <= 4 and a.extra + rs[0].extra > 0:
                    b = rs[0]
                    out |= self.new_tuple(node, frame, [self.hget(a, ('$t', i)) for i in range(a.extra)] +
                                          [self.hget(b, ('$t', i)) for i in range(b.extra)])
                else:
                    out |= self.new_list(node, frame, els, kind=a.kind)
            elif a.kind in ('set', 'frozenset'):
                els = self.hget(a, '$e')
                if isinstance(op, (ast.BitOr, ast.BitXor)):
                    els = els | self.elements(r)
                out |= self.new_list(node, frame, els, kind=a.kind)
            elif a.kind == 'dict':
                k, v = self.hget(a, '$k'), self.hget(a, '$v')
                for b in rs:
                    if b.kind == 'dict':
                        k |= self.hget(b, '$k')
                        v |= self.hget(b, '$v')
                out |= self.new_dict(node, frame, k, v)
            elif a.kind == 'iter':
                if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor, ast.Sub)):      # views of a dictionary
                    els = self.hget(a, '$e')
                    if isinstance(op, (ast.BitOr, ast.BitXor)):
                        els = els | self.elements(r)
                    out |= self.new_list(node, frame, els, kind='set', sub='view')
                else:
                    out |= V([a])
            else:
                out |= UNKV
        if not ls:
            for b in rs:
                if b.kind in ('list', 'tuple'):
                    out |= self.new_list(node, frame, self.hget(b, '$e') | (UNKV if UNK in l else EMPTY), kind=b.kind)
                elif b.kind in ('set', 'frozenset', 'dict'):
                    out |= self.new_list(node, frame, self.hget(b, '$e'), kind='set') if b.kind != 'dict' else V([b])
        if not ls and not rs or any(not isinstance(a, Obj) for a in l):
            types = {a[1] if type(a) is tuple and a[0] in ('c', 't') else 'u' for a in (l | r) if not isinstance(a, Obj)}
            if UNK in l or (UNK in r and not ls):
                out |= UNKV
            if 'str' in types:
                out |= STRV
            if types & {'int', 'float', 'num', 'bool'}:
                out |= ty('float') if isinstance(op, ast.Div) else (ty('int') if types <= {'int', 'bool'} else ty('num'))
            if not out and (l or r):
                out = UNKV
        return self.norm(out)

    def e_Compare(self, e, env, frame):
        l = self.ev(e.left, env, frame)
        out = None
        for op, cmp_ in zip(e.ops, e.comparators):
            r = self.ev(cmp_, env, frame)
            v = self.compare(l, r, op, e, frame)
            self.dunder_cmp(l, r, op, e, frame)
            out = v if out is None else (out | v | FALSEV)
            l = r
        return out

    def dunder_cmp(self, l, r, op, node, frame):
        names = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__', ast.Eq: '__eq__', ast.NotEq: '__eq__',
                 ast.In: '__contains__', ast.NotIn: '__contains__'}
        n = names.get(type(op))
        if not n:
            return
        for a in (l if n != '__contains__' else r):
            if isinstance(a, Obj) and a.kind == 'inst':
                m, k = a.cls.find(n)
                if not m and n in ('__gt__', '__le__', '__ge__'):
                    m, k = a.cls.find('__lt__')
                if m:
                    self.call_value(self.bind(m, a, k), [r if n != '__contains__' else l], {}, node, frame)

    def e_IfExp(self, e, env, frame):
        t, f = self.test(e.test, env, frame)
        out = EMPTY
        if t is not None:
            out |= self.ev(e.body, t, frame)
        if f is not None:
            out |= self.ev(e.orelse, f, frame)
        return out

    def e_Lambda(self, e, env, frame):
        return self.make_func(e, env, frame)

    def e_NamedExpr(self, e, env, frame):
        v = self.ev(e.value, env, frame)
        self.assign(e.target, v, env, frame, e)
        return v

    def e_Slice(self, e, env, frame):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.ev(x, env, frame)
        return UNKV

    def e_Yield(self, e, env, frame):
        v = self.ev(e.value, env, frame) if e.value is not None else NONEV
        frame.yields = self.join(frame.yields, v)
        return UNKV

    def e_YieldFrom(self, e, env, frame):
        v = self.elements(self.ev(e.value, env, frame), e, frame)
        frame.yields = self.join(frame.yields, v)
        return UNKV

    def comp(self, e, env, frame, elts):
        env = dict(env)
        envs = [env]
        for g in e.generators:
            nxt = []
            for en in envs:
                it = self.ev(g.iter, en, frame)
                v = self.elements(it, g.iter, frame)
                if not v:
                    return None
                en = dict(en)
                self.comp_assign(g.target, v, en, frame)
                self.iter_fact(g.target, g.iter, en)
                ok = en
                for cond in g.ifs:
                    ok, _ = self.test(cond, ok, frame)
                    if ok is None:
                        break
                if ok is not None:
                    nxt.append(ok)
            envs = nxt
            if not envs:
                return None
        return [self.ev(x, envs[0], frame) for x in elts]

    def comp_assign(self, t, v, env, frame):
        self.assign(t, v, env, frame, t)

    def e_ListComp(self, e, env, frame):
        r = self.comp(e, env, frame, [e.elt])
        return self.new_list(e, frame, r[0] if r else EMPTY)

    def e_SetComp(self, e, env, frame):
        r = self.comp(e, env, frame, [e.elt])
        return self.new_list(e, frame, r[0] if r else EMPTY, kind='set')

    def e_GeneratorExp(self, e, env, frame):
        r = self.comp(e, env, frame, [e.elt])
        return self.new_list(e, frame, r[0] if r else EMPTY, kind='iter')

    def e_DictComp(self, e, env, frame):
        r = self.comp(e, env, frame, [e.key, e.value])
        return self.new_dict(e, frame, r[0] if r else EMPTY, r[1] if r else EMPTY)

    def e_Await(self, e, env, frame):
        raise AnalysisBroken("await is not supported")

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, env, frame):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            f = frame
            while f is not None and (f.cls is None or f.selfv is None):
                f = f.parent
            if f is not None:
                return V([Super(f.selfv, f.cls)])
            return UNKV
        if isinstance(e.func, ast.Name) and e.func.id == 'locals' and not e.args:
            self.emit('ext', e, frame, 'builtins.locals', ())
            return self.new_dict(e, frame, STRV, UNKV)
        fv = self.ev(e.func, env, frame)
        if isinstance(e.func, ast.Attribute) and not e.keywords and e.func.attr in FOLD:
            vals = [self.ev(e.func.value, env, frame)] + [self.ev(a, env, frame) for a in e.args if not isinstance(a, ast.Starred)]
            if len(vals) == len(e.args) + 1 and all(0 < len(v) <= 8 and all(is_const(x) and isinstance(x[2], str) for x in v)
                                                   for v in vals):
                out = EMPTY
                for r in vals[0]:
                    for a in (vals[1] if len(vals) > 1 else [None]):
                        out |= V([c(getattr(r[2], e.func.attr)(*([a[2]] if a else [])))])
                return out
        args = []
        star = EMPTY
        for a in e.args:
            if isinstance(a, ast.Starred):
                sv = self.ev(a.value, env, frame)
                done = False
                if len(sv) == 1:
                    o = next(iter(sv))
                    if isinstance(o, Obj) and o.kind == 'tuple' and o.extra is not None:
                        args.extend(self.hget(o, ('$t', i)) for i in range(o.extra))
                        done = True
                if not done:
                    star |= self.elements(sv, a, frame) or EMPTY
                    star |= V([('star',)]) if False else EMPTY
                    args.append(('*', self.elements(sv, a, frame)))
            else:
                args.append(self.ev(a, env, frame))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env, frame)
            if k.arg is None:
                for a in v:
                    if isinstance(a, Obj) and a.kind == 'dict':
                        keys = self.hget(a, '$k')
                        for kk in keys:
                            if is_const(kk) and isinstance(kk[2], str):
                                kw[kk[2]] = kw.get(kk[2], EMPTY) | self.hget(a, '$v')
                        if any(not is_const(kk) for kk in keys):
                            kw['**'] = kw.get('**', EMPTY) | self.hget(a, '$v')
                    elif a == UNK:
                        kw['**'] = UNKV
            else:
                kw[k.arg] = v
        # lazily evaluated container methods with a name receiver: keep the attribute node for reports
        self.call_env = (e, env) if any(type(k) is tuple for k in env) else None
        return self.call_value(fv, args, kw, e, frame)

    def facts_for(self, f, call, env):
        """memberships known for the arguments, in the names of the parameters"""
        a = f.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        sub = {}
        if f.self is not None:
            if not isinstance(call.func, ast.Attribute):
                return frozenset()
            sub[ast.unparse(call.func.value)] = pos[0] if pos else None
            pos = pos[1:]
        if any(isinstance(x, ast.Starred) for x in call.args):
            return frozenset()
        for p, x in list(zip(pos, call.args)) + [(k.arg, k.value) for k in call.keywords if k.arg]:
            if isinstance(x, (ast.Name, ast.Attribute)):
                sub[ast.unparse(x)] = p
        done = set(sub.values())

        class R(ast.NodeTransformer):
            ok = True

            def visit(self, x):
                if isinstance(x, (ast.Name, ast.Attribute)) and ast.unparse(x) in sub:
                    return ast.Name(sub[ast.unparse(x)], ast.Load())
                if isinstance(x, ast.Name):
                    R.ok = False
                return super().visit(x)
        out = set()
        for k in env:
            if type(k) is tuple and k[0] == 'in':
                R.ok = True
                x, y = (R().visit(ast.parse(t, mode='eval').body) for t in k[1:3])
                if R.ok:
                    g = self.in_fact(x, y)
                    if g is not None:
                        out.add(g)
        return frozenset(out)

    def call_value(self, fv, args, kw, node, frame):
        out = EMPTY
        known, self.call_env = self.call_env, None
        if self.final and isinstance(node, ast.Call):
            self.callees.setdefault(node, set()).update(fv)
        for a in list(fv):
            if isinstance(a, Func):
                self.call_env = known
                out |= self.call_func(a, args, kw, node, frame)
                self.call_env = None
            elif isinstance(a, ClassInfo):
                out |= self.instantiate(a, args, kw, node, frame)
            elif isinstance(a, Ext):
                out |= self.call_ext(a.name, self.flat(args), kw, node, frame)
            elif isinstance(a, BM):
                out |= self.call_bm(a.obj, a.name, self.flat(args), kw, node, frame)
            elif isinstance(a, Obj) and a.kind == 'inst':
                m, k = a.cls.find('__call__')
                if m:
                    out |= self.call_value(self.bind(m, a, k), args, kw, node, frame)
                else:
                    out |= UNKV
            elif isinstance(a, Obj) and a.kind == 'partial':
                out |= self.call_value(a.fields.get('$f', EMPTY), [a.fields.get('$a', UNKV)] + list(args), kw, node, frame)
            elif type(a) is tuple and a and a[0] in ('static', 'clsm'):
                out |= self.call_value(V([a[1]]), args, kw, node, frame)
            elif a == UNK:
                self.emit('unk-call', node, frame)
                self.call_callbacks(self.flat(args) + list(kw.values()), node, frame)
                out |= UNKV
            elif a == NONE:
                continue
            elif isinstance(a, Mod) or isinstance(a, Obj):
                out |= UNKV
        return self.norm(out)

    def flat(self, args):
        return [a[1] if type(a) is tuple else a for a in args]

    def call_callbacks(self, vals, node, frame):
        for v in vals:
            for a in v:
                if isinstance(a, Func):
                    n = len(a.node.args.args) - (1 if a.self is not None else 0) - len(a.node.args.defaults)
                    self.call_func(a, [UNKV] * max(n, 0), {}, node, frame)

    def instantiate(self, k, args, kw, node, frame):
        if k.nt is not None:
            o = self.alloc('nt', node, frame, cls=k)
            o.extra = k.nt
            fl = self.flat(args)
            for i, n in enumerate(k.nt):
                v = fl[i] if i < len(fl) else kw.get(n, EMPTY)
                self.hadd(o, n, v)
            return V([o])
        if 'builtins.Exception' in [x for y in k.mro() for x in y.ext_bases]:
            return UNKV
        o = self.alloc('inst', node, frame, cls=k)
        m, kk = k.find('__init__')
        if m:
            r = self.call_value(self.bind(m, o, kk), args, kw, node, frame)
            if self.strict and not r:
                return EMPTY
        if any(b in ('builtins.dict', 'builtins.list', 'builtins.set') for x in k.mro() for b in x.ext_bases):
            pass
        return V([o])

    # --- contexts
    def absarg(self, v):
        if len(v) <= 3:
            return v
        return None

    def call_func(self, f, args, kw, node, frame):
        fn = f.node
        known, self.call_env = self.call_env, None
        a = fn.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        bind = {}
        args = list(args)
        starv = EMPTY
        if any(type(x) is tuple for x in args):
            flat = []
            for x in args:
                if type(x) is tuple:
                    starv |= x[1]
                else:
                    flat.append(x)
            args = flat
        selfv = None
        if f.self is not None:
            args = [V([f.self])] + args
            selfv = f.self
        for p, v in zip(pos, args):
            bind[p] = v
        extra = args[len(pos):]
        if starv:
            for p in pos[len(args):]:
                if p not in kw:
                    bind[p] = starv
        if extra and not a.vararg and f.node is not None:
            self.emit('arity', node, frame, f"{f.name} takes at most {len(pos)} positional arguments", f.name)
        kwextra = {}
        for k, v in kw.items():
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                bind[k] = v
            elif k == '**':
                for p in pos:
                    if p not in bind:
                        bind[p] = v
                kwextra['**'] = v
            else:
                kwextra[k] = v
        if kwextra and not a.kwarg and set(kwextra) != {'**'}:
            self.emit('arity', node, frame, f"{f.name} has no parameter {sorted(kwextra)}", f.name)
        dh = self.defaults_holder(fn, f.frame)
        for p in pos + [x.arg for x in a.kwonlyargs]:
            if p not in bind:
                if p in dh.fields:
                    bind[p] = dh.fields[p]
                elif dh.fields.get(p) is None and p in self.default_names(fn):
                    bind[p] = EMPTY
                else:
                    self.emit('arity', node, frame, f"{f.name} is called without argument '{p}'", f.name)
                    bind[p] = EMPTY
        varv = EMPTY
        if a.vararg:
            for x in extra:
                varv |= x
            varv |= starv
        kwv = EMPTY
        if a.kwarg:
            for x in kwextra.values():
                kwv |= x
        hctx = self.hctx_for(f, node, frame)
        region = frame.region if frame is not None else None
        if self.region_of_alloc:
            region = self.region_of_alloc
        absb = []
        for p in sorted(bind):
            absb.append((p, self.absarg(bind[p])))
        key = (f.node, f.frame, selfv, tuple(absb), hctx, region, V(kwextra) if a.kwarg else None)
        ctx = self.ctxs.get(key)
        if ctx is None:
            n = self.fn_ctx_count.get(f.node, 0)
            if n > 60:
                key = (f.node, f.frame, selfv, 'merged', (), region, None)
                ctx = self.ctxs.get(key)
                hctx = ('merged',)
            if ctx is None:
                ctx = Ctx(key, f)
                self.ctxs[key] = ctx
                self.fn_ctx_count[f.node] = n + 1
        if key[3] == 'merged':
            hctx = ('merged',)
        facts = self.facts_for(f, *known) if known is not None and known[0] is node else frozenset()
        if ctx.facts is None or not ctx.facts <= facts:
            if ctx.facts is not None:
                ctx.dirty = True
            ctx.facts = facts if ctx.facts is None else ctx.facts & facts
        for p, v in bind.items():
            o = ctx.bind.get(p)
            if o is None:
                ctx.bind[p] = self.norm(v)
                ctx.dirty = True
            elif not v <= o:
                nv = self.norm(o | v)
                if nv != o:
                    ctx.bind[p] = nv
                    ctx.dirty = True
        if a.vararg:
            t = self.new_list_ctx('tuple', fn, hctx, region, '*v')
            self.hadd(t, '$e', varv)
            ctx.bind[a.vararg.arg] = V([t])
        if a.kwarg:
            t = self.new_list_ctx('dict', fn, hctx, region, '**k')
            for kk, vv in kwextra.items():
                self.hadd(t, '$k', V([c(kk)]) if kk != '**' else STRV)
            self.hadd(t, '$v', kwv)
            ctx.bind[a.kwarg.arg] = V([t])
        if frame is not None and self.final:
            ctx.callers.setdefault((frame.ctx, node), None)
        if ctx.active:
            if ctx.dirty:
                self.changed = True
            return self.result(ctx, fn, hctx, region)
        if ctx.round == self.round:
            # evaluated once per round; growth of the arguments is picked up by the next round
            if ctx.dirty:
                self.changed = True
            return self.result(ctx, fn, hctx, region)
        ctx.round = self.round
        ctx.dirty = False
        ctx.active = True
        fr = Frame()
        if ctx.frame is not None:
            fr = ctx.frame
            fr.ret = EMPTY
        ctx.frame = fr
        loc, cap, glob, nonl, is_gen = self.scope(fn)
        fr.func = f
        fr.mod = f.mod
        fr.cls = f.cls
        fr.selfv = selfv if isinstance(selfv, Obj) else None
        fr.parent = f.frame
        if fr.cls is None and f.frame is not None:
            pass
        fr.captured = cap
        fr.locals_ = loc
        fr.globals_ = glob
        fr.nonlocals = nonl
        fr.hctx = hctx
        fr.region = region
        fr.is_gen = is_gen
        fr.ctx = ctx
        fr.envs = []
        fr.trystack = []
        env = {}
        for p, v in ctx.bind.items():
            self.store(p, v, env, fr, fn)
        for k in ctx.facts or ():
            env[k] = TRUEV
        if self.final:
            self.reached.add(fn)
        if isinstance(fn, ast.Lambda):
            r = self.ev(fn.body, env, fr)
            fr.ret = self.join(fr.ret, r)
        else:
            end = self.exec_block(fn.body, env, fr)
            if end is not None:
                fr.ret = self.join(fr.ret, NONEV)
        ctx.active = False
        for f_ in ('ret', 'yields'):
            new, old = getattr(fr, f_), getattr(ctx, f_)
            if not new <= old:
                nv = self.norm(old | new)
                if nv != old:
                    setattr(ctx, f_, nv)
                    self.changed = True
        return self.result(ctx, fn, hctx, region)

    def default_names(self, fn):
        a = fn.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        s = set(pos[len(pos) - len(a.defaults):]) if a.defaults else set()
        s |= {p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return s

    def new_list_ctx(self, kind, site, hctx, region, sub):
        key = (kind, id(site), sub, hctx, region, id(None))
        o = self.objs.get(key)
        if o is None:
            o = Obj(kind, None, site, hctx, region)
            self.objs[key] = o
            self.changed = True
        return o

    def result(self, ctx, fn, hctx, region):
        if self.scope(fn)[4]:
            o = self.new_list_ctx('iter', fn, hctx, region, 'gen')
            self.hadd(o, '$e', ctx.yields)
            return V([o])
        return ctx.ret

    def hctx_for(self, f, node, frame):
        s = f.self
        if isinstance(s, Obj):
            return (id(s.site), s.hctx[:1], id(s.cls) if s.cls else 0)
        base = frame.hctx if frame is not None else ()
        return (id(node),) + ((base[0],) if base else ())

    # ------------------------------------------------------------------ external functions
    def call_ext(self, name, args, kw, node, frame):
        self.emit('ext', node, frame, name, ())
        b = name.split('.')[-1]
        A = args[0] if args else EMPTY
        if name.startswith('builtins.'):
            return self.call_builtin(b, args, kw, node, frame)
        if name.startswith('scalar.'):
            if b in STRM:
                return self.new_list(node, frame, STRV)
            if b == 'join':
                return STRV
            if b in ('isdigit', 'startswith', 'endswith', 'isnumeric', 'isalpha', 'isdecimal', 'isspace', 'islower', 'isupper'):
                return BOOLV
            if b in ('count', 'index', 'find', 'rfind'):
                return INTV
            if name.startswith('scalar.str'):
                return STRV
            return UNKV
        if name.startswith('random.') or name.startswith('secrets.') or '.random.' in name or 'SystemRandom' in name:
            if b in ('choice',):
                return self.elements(A, node, frame)
            if b in ('choices', 'sample'):
                return self.new_list(node, frame, self.elements(A, node, frame))
            if b == 'shuffle':
                for a in A:
                    if isinstance(a, Obj):
                        self.mutate(a, 'shuffle', node, frame)
                    elif a == UNK:
                        self.emit('unk-write', node, frame, 'shuffle')
                return NONEV
            if b in ('randint', 'randrange', 'getrandbits'):
                return INTV
            if b in ('random', 'uniform', 'gauss'):
                return FLOATV
            if b == 'Random':
                return V([Ext('random.Random')])
            return UNKV
        if name in ('copy.copy', 'copy.deepcopy'):
            out = EMPTY
            for a in A:
                out |= V([self.clone(a, node, frame, b == 'deepcopy')])
            return out
        if name in ('itertools.product', 'itertools.permutations', 'itertools.combinations',
                    'itertools.combinations_with_replacement'):
            els = EMPTY
            for x in (args if b == 'product' else args[:1]):
                els |= self.elements(x, node, frame)
            if b == 'product' and len(args) == 1 and 'repeat' in kw or b != 'product':
                t = self.new_list(node, frame, els, kind='tuple', sub='el')
            elif b == 'product' and all(type(x) is not tuple for x in args) and len(args) > 1 and 'repeat' not in kw:
                t = self.new_tuple(node, frame, [self.elements(x, node, frame) for x in args], sub='el')
            else:
                t = self.new_list(node, frame, els, kind='tuple', sub='el')
            return self.new_list(node, frame, t if els else (t if b == 'product' else EMPTY), kind='iter')
        if name.startswith('itertools.chain'):
            els = EMPTY
            for x in args:
                y = self.elements(x, node, frame)
                els |= self.elements(y, node, frame) if b == 'from_iterable' else y
            return self.new_list(node, frame, els, kind='iter')
        if name.startswith('itertools.'):
            els = EMPTY
            for x in args:
                els |= self.elements(x, node, frame)
            self.call_callbacks(args, node, frame)
            if b in ('count', 'repeat', 'cycle'):
                els |= INTV if b == 'count' else A
            if b in ('groupby', 'zip_longest'):
                els = UNKV | self.new_list(node, frame, els, kind='tuple', sub='z')
            return self.new_list(node, frame, els, kind='iter')
        if name == 'collections.deque':
            return self.new_list(node, frame, self.elements(A, node, frame))
        if name == 'collections.Counter':
            return self.new_dict(node, frame, self.elements(A, node, frame), INTV)
        if name == 'collections.OrderedDict':
            return self.call_builtin('dict', args, kw, node, frame)
        if name == 'collections.defaultdict':
            o = self.alloc('dict', node, frame)
            if o.extra is None:
                o.extra = ('default', node, frame)
            self.hadd(o, '$factory', A)
            self.hadd(o, '$k', EMPTY)
            self.hadd(o, '$v', EMPTY)
            for x in args[1:]:
                for a in x:
                    if isinstance(a, Obj) and a.kind == 'dict':
                        self.hadd(o, '$k', self.hget(a, '$k'))
                        self.hadd(o, '$v', self.hget(a, '$v'))
            return V([o])
        if name == 'collections.namedtuple':
            k = self.classes.get((node, 'nt'))
            if k is None:
                nm = node.args[0].value if isinstance(node.args[0], ast.Constant) else 'nt'
                k = ClassInfo(nm, None, frame.mod.m)
                spec = node.args[1]
                if isinstance(spec, ast.Constant):
                    k.nt = spec.value.replace(',', ' ').split()
                elif isinstance(spec, (ast.List, ast.Tuple)):
                    k.nt = [x.value for x in spec.elts if isinstance(x, ast.Constant)]
                else:
                    k.nt = []
                self.classes[(node, 'nt')] = k
            return V([k])
        if name in ('queue.Queue', 'queue.LifoQueue', 'queue.PriorityQueue', 'queue.SimpleQueue'):
            return self.new_list(node, frame, EMPTY)
        if name.startswith('bisect.') or name.startswith('heapq.'):
            if 'insort' in b or b in ('heappush', 'heapify', 'heappop', 'heapreplace', 'heappushpop'):
                for a in A:
                    if isinstance(a, Obj):
                        self.mutate(a, b, node, frame)
                        if len(args) > 1:
                            self.hadd(a, '$e', args[1])
                if 'key' in kw:
                    self.call_value(kw['key'], [self.elements(A, node, frame)], {}, node, frame)
                for el in self.elements(A, node, frame):
                    if isinstance(el, Obj) and el.kind == 'inst':
                        m, k = el.cls.find('__lt__')
                        if m:
                            self.call_value(self.bind(m, el, k), [V([el])], {}, node, frame)
                if b in ('heappop', 'heapreplace', 'heappushpop'):
                    return self.elements(A, node, frame)
                return NONEV
            return INTV
        if name == 'functools.reduce':
            acc = args[2] if len(args) > 2 else self.elements(args[1], node, frame)
            for _ in range(2):
                acc = acc | self.call_value(A, [acc, self.elements(args[1], node, frame)], {}, node, frame)
            return acc
        if name == 'functools.partial':
            o = self.alloc('partial', node, frame)
            self.hadd(o, '$f', A)
            self.hadd(o, '$a', args[1] if len(args) > 1 else EMPTY)
            return V([o])
        if name in ('functools.wraps', 'functools.lru_cache', 'functools.cache'):
            return V([Ext('functools.identity')])
        if name in ('functools.identity', 'functools.total_ordering', 'abc.abstractmethod', 'functools.cmp_to_key'):
            if name == 'functools.cmp_to_key':
                self.call_callbacks(args, node, frame)
                return UNKV
            return A
        if name.startswith('math.') or name.startswith('statistics.'):
            self.call_callbacks(args, node, frame)
            return ty('num')
        if name.startswith('time.'):
            return ty('num')
        if name.startswith('verif.'):
            return self.intrinsic(b, args, kw, node, frame)
        if name.startswith('threading.'):
            if 'target' in kw:
                tg = kw['target']
                av = EMPTY
                targs = [self.elements(kw.get('args', EMPTY), node, frame)]
                for a in tg:
                    if isinstance(a, Func):
                        self.call_func(a, [('*', targs[0])], {}, node, frame)
            return UNKV
        self.call_callbacks(args + list(kw.values()), node, frame)
        return UNKV

    def intrinsic(self, b, args, kw, node, frame):
        if b == 'user':
            return UNKV
        if b == 'some_bool':
            return BOOLV
        if b == 'some_int':
            return INTV
        if b == 'either':
            out = EMPTY
            for a in args:
                out |= a
            return out
        if b == 'build':
            # build('label', f): objects allocated while f runs carry the region label
            lab = next(iter(args[0]))[2]
            old = frame.region
            frame.region = lab
            r = self.call_value(args[1], args[2:], {}, node, frame)
            frame.region = old
            return r
        return UNKV

    def clone(self, a, node, frame, deep, memo=None):
        if not isinstance(a, Obj):
            return a
        if memo is None:
            memo = {}
        if a in memo:
            return memo[a]
        base = a.hctx[1] if a.hctx and a.hctx[0] == 'clone' else a      # cloning a clone: collapse
        if a.kind == 'inst' and not deep:
            m, k = a.cls.find('__copy__')
            if m:
                r = self.call_value(self.bind(m, a, k), [], {}, node, frame)
                for x in r:
                    return x
        region = frame.region
        key = ('clone', deep, id(base), id(node), region)
        o = self.objs.get(key)
        if o is None:
            o = Obj(a.kind, a.cls, node, ('clone', base), region)
            o.extra = a.extra
            self.objs[key] = o
            self.changed = True
        memo[a] = o
        if o.extra is None and a.extra is not None:
            o.extra = a.extra
        for f, v in list(a.fields.items()):
            if deep:
                v = V(self.clone(x, node, frame, True, memo) for x in v)
            self.hadd(o, f, v)
        return o

    def call_builtin(self, b, args, kw, node, frame):
        A = args[0] if args else EMPTY
        if b == 'fromkeys':
            return self.new_dict(node, frame, self.elements(A, node, frame), args[1] if len(args) > 1 else NONEV)
        if b in ('list', 'tuple', 'set', 'frozenset'):
            if b == 'tuple' and not args:
                return self.new_tuple(node, frame, [])
            if b == 'tuple' and len(A) == 1:
                o = next(iter(A))
                if isinstance(o, Obj) and o.kind == 'tuple':
                    return A
            return self.new_list(node, frame, self.elements(A, node, frame), kind=b)
        if b == 'dict':
            k = v = EMPTY
            for a in A:
                if isinstance(a, Obj) and a.kind == 'dict':
                    k |= self.hget(a, '$k')
                    v |= self.hget(a, '$v')
                else:
                    x = self.elements(V([a]), node, frame)
                    kk, vv = self.unpack(x, 2, node, frame)
                    k |= kk
                    v |= vv
            for kk, vv in kw.items():
                k |= V([c(kk)])
                v |= vv
            return self.new_dict(node, frame, k, v)
        if b == 'object':
            return V([self.alloc('object', node, frame)])
        if b in ('enumerate',):
            els = self.elements(A, node, frame)
            t = self.new_tuple(node, frame, [INTV, els], sub='en')
            return self.new_list(node, frame, t if els else EMPTY, kind='iter')
        if b == 'zip':
            es = [self.elements(x, node, frame) for x in args]
            if all(es):
                t = self.new_tuple(node, frame, es, sub='zip')
                return self.new_list(node, frame, t, kind='iter')
            return self.new_list(node, frame, EMPTY, kind='iter')
        if b == 'range':
            return self.new_list(node, frame, INTV, kind='iter')
        if b == 'map':
            es = [self.elements(x, node, frame) for x in args[1:]]
            r = self.call_value(A, es, {}, node, frame) if es and all(es) else EMPTY
            return self.new_list(node, frame, r, kind='iter')
        if b == 'filter':
            es = self.elements(args[1], node, frame) if len(args) > 1 else EMPTY
            if es:
                self.call_value(A, [es], {}, node, frame)
            return self.new_list(node, frame, es, kind='iter')
        if b == 'sorted':
            es = self.elements(A, node, frame)
            self.sort_calls(es, kw, node, frame)
            return self.new_list(node, frame, es)
        if b == 'reversed':
            return self.new_list(node, frame, self.elements(A, node, frame), kind='iter')
        if b == 'iter':
            return self.new_list(node, frame, self.elements(A, node, frame), kind='iter')
        if b == 'next':
            out = EMPTY
            for a in A:
                if isinstance(a, Obj):
                    if a.kind == 'inst':
                        m, k = a.cls.find('__next__')
                        if m:
                            out |= self.call_value(self.bind(m, a, k), [], {}, node, frame)
                            continue
                    out |= self.elements(V([a]), node, frame)
                else:
                    out |= UNKV
            for x in args[1:]:
                out |= x
            return out
        if b in ('min', 'max'):
            es = self.elements(A, node, frame) if len(args) == 1 else EMPTY
            if len(args) > 1:
                for x in args:
                    es |= x
            self.sort_calls(es, kw, node, frame)
            return es | kw.get('default', EMPTY)
        if b == 'sum':
            es = self.elements(A, node, frame)
            objs = V(x for x in es if isinstance(x, Obj))
            if objs:
                e2 = self.elements(objs, node, frame)
                return self.new_list(node, frame, e2)
            return ty('num')
        if b == 'isinstance':
            ks = self.class_set(args[1]) if len(args) > 1 else None
            if ks is None:
                return BOOLV
            out = EMPTY
            for a in A:
                r = self.isinst(a, ks)
                out |= BOOLV if r is None else (TRUEV if r else FALSEV)
            return out
        if b == 'issubclass':
            return BOOLV
        if b == 'type':
            out = EMPTY
            for a in A:
                if isinstance(a, Obj) and a.cls is not None:
                    out |= V([a.cls])
                elif isinstance(a, Obj) and a.kind in CONTAINER:
                    out |= V([Ext('builtins.' + a.kind)])
                else:
                    out |= UNKV
            return out
        if b in ('getattr', 'hasattr', 'setattr', 'delattr'):
            names = args[1] if len(args) > 1 else EMPTY
            ks = [x[2] for x in names if is_const(x) and isinstance(x[2], str)]
            if b == 'hasattr':
                if len(ks) == 1 and len(names) == 1:
                    out = EMPTY
                    for a in A:
                        if isinstance(a, Obj) and a.kind in ('inst', 'nt'):
                            if a.cls.find(ks[0])[0] is not None:
                                out |= TRUEV
                            elif ks[0] in a.fields:
                                out |= BOOLV
                            else:
                                out |= FALSEV
                        else:
                            out |= BOOLV
                    return out
                return BOOLV
            if b == 'getattr':
                out = EMPTY
                for k in ks:
                    if len(args) > 2:
                        for a in A:
                            if isinstance(a, Obj) and a.kind == 'inst':
                                if k in a.fields or a.cls.find(k)[0] is not None:
                                    out |= self.get_attr(V([a]), k, node, frame)
                            else:
                                out |= self.get_attr(V([a]), k, node, frame)
                    else:
                        out |= self.get_attr(A, k, node, frame)
                if len(ks) != len(names) or not names:
                    out |= UNKV
                    for a in A:
                        if isinstance(a, Obj) and a.kind == 'inst':
                            for v in a.fields.values():
                                out |= v
                for x in args[2:]:
                    out |= x
                return out
            if b == 'setattr':
                val = args[2] if len(args) > 2 else EMPTY
                for k in ks:
                    self.set_attr(A, k, val, node, frame)
                if len(ks) != len(names):
                    for a in A:
                        if isinstance(a, Obj):
                            self.mutate(a, 'attr:*', node, frame)
                return NONEV
            for a in A:
                if isinstance(a, Obj):
                    self.mutate(a, 'attr:' + (ks[0] if ks else '*'), node, frame)
            return NONEV
        if b == 'vars':
            return UNKV
        if b == 'str' or b == 'repr' or b == 'format' or b == 'print':
            for x in args:
                self.stringify(x, node, frame)
            return STRV if b != 'print' else NONEV
        if b in ('len', 'bool', 'hash', 'abs'):
            dn = {'len': '__len__', 'bool': '__bool__', 'hash': '__hash__', 'abs': '__abs__'}[b]
            for a in A:
                if isinstance(a, Obj) and a.kind == 'inst':
                    m, k = a.cls.find(dn)
                    if m:
                        self.call_value(self.bind(m, a, k), [], {}, node, frame)
            if b == 'bool':
                t, f = self.truth(A)
                return (TRUEV if t else EMPTY) | (FALSEV if f else EMPTY)
            return INTV if b != 'abs' else ty('num')
        if b in ('any', 'all'):
            self.elements(A, node, frame)
            return BOOLV
        if b in SAFE_TYPES:
            return ty(SAFE_TYPES[b])
        if b in ('input',):
            return STRV
        if b == 'slice':
            return UNKV
        if b == 'open':
            return UNKV
        if b.endswith('Error') or b.endswith('Exception') or b in ('SystemExit', 'StopIteration', 'Warning', 'KeyboardInterrupt'):
            return UNKV
        self.call_callbacks(args + list(kw.values()), node, frame)
        return UNKV

    def sort_calls(self, es, kw, node, frame):
        if 'key' in kw:
            if es:
                self.call_value(kw['key'], [es], {}, node, frame)
        else:
            for a in es:
                if isinstance(a, Obj) and a.kind == 'inst':
                    m, k = a.cls.find('__lt__')
                    if m:
                        self.call_value(self.bind(m, a, k), [es], {}, node, frame)

    # ------------------------------------------------------------------ container methods
    def call_bm(self, o, m, args, kw, node, frame):
        A = args[0] if args else EMPTY
        kind = o.kind
        base = {'frozenset': 'set'}.get(kind, kind)
        if kind == 'dict' and o.site is not None and m in MUTATORS['dict'] or base in MUTATORS and m in MUTATORS[base] and kind != 'frozenset':
            self.mutate(o, m, node, frame)
        E = self.hget(o, '$e')
        if kind == 'dict':
            K, W = self.hget(o, '$k'), self.hget(o, '$v')
            if m == 'keys':
                return self.new_list(node, frame, K, kind='iter', sub='k')
            if m == 'values':
                return self.new_list(node, frame, W, kind='iter', sub='v')
            if m == 'items':
                t = self.new_tuple(node, frame, [K, W], sub='it')
                return self.new_list(node, frame, t if (K or W) else EMPTY, kind='iter', sub='i')
            if m == 'get' and A and self.const_keys(A) and self.as_written(o):
                out = EMPTY
                for x in self.const_keys(A):
                    out |= o.fields[('$d', x)] if ('$d', x) in o.fields else \
                        (args[1] if len(args) > 1 else kw.get('default', NONEV))
                return out
            if m == 'get':
                return W | (args[1] if len(args) > 1 else NONEV) | kw.get('default', EMPTY)
            if m == 'pop':
                return W | (args[1] if len(args) > 1 else EMPTY)
            if m == 'popitem':
                return self.new_tuple(node, frame, [K, W], sub='pi')
            if m == 'setdefault':
                d = args[1] if len(args) > 1 else NONEV
                self.hadd(o, '$k', A)
                self.hadd(o, '$v', d)
                return self.hget(o, '$v')
            if m in ('update', 'subtract'):
                for a in A:
                    if isinstance(a, Obj) and a.kind == 'dict':
                        self.hadd(o, '$k', self.hget(a, '$k'))
                        self.hadd(o, '$v', self.hget(a, '$v'))
                    elif isinstance(a, Obj):
                        x = self.elements(V([a]), node, frame)
                        if any(isinstance(q, Obj) and q.kind == 'tuple' for q in x):
                            kk, vv = self.unpack(x, 2, node, frame)
                            self.hadd(o, '$k', kk)
                            self.hadd(o, '$v', vv)
                        else:
                            self.hadd(o, '$k', x)
                            self.hadd(o, '$v', INTV)
                    elif a == UNK:
                        self.hadd(o, '$k', UNKV)
                        self.hadd(o, '$v', UNKV)
                for kk, vv in kw.items():
                    self.hadd(o, '$k', V([c(kk)]))
                    self.hadd(o, '$v', vv)
                return NONEV
            if m == 'copy':
                r = self.alloc('dict', node, frame)
                if o.extra is not None and r.extra is None:
                    r.extra = o.extra
                for f in ('$k', '$v', '$factory'):
                    if f in o.fields:
                        self.hadd(r, f, o.fields[f])
                return V([r])
            if m == 'most_common':
                t = self.new_tuple(node, frame, [K, W], sub='mc')
                return self.new_list(node, frame, t)
            if m == 'elements':
                return self.new_list(node, frame, K, kind='iter')
            if m == 'fromkeys':
                return self.new_dict(node, frame, self.elements(A), NONEV)
            if m == 'clear':
                return NONEV
            return UNKV
        if kind in ('list', 'iter', 'tuple', 'set', 'frozenset'):
            if m in ('append', 'add', 'appendleft', 'put', 'put_nowait'):
                self.hadd(o, '$e', A)
                return NONEV
            if m == 'insert':
                self.hadd(o, '$e', args[1] if len(args) > 1 else UNKV)
                return NONEV
            if m in ('extend', 'extendleft', '__iadd__'):
                self.hadd(o, '$e', self.elements(A, node, frame))
                return NONEV
            if m in ('update', 'symmetric_difference_update'):
                for x in args:
                    self.hadd(o, '$e', self.elements(x, node, frame))
                return NONEV
            if m in ('pop', 'popleft', 'get', 'get_nowait', '__next__'):
                return self.hget(o, '$e')
            if m in ('remove', 'discard', 'clear', 'reverse', 'difference_update', 'intersection_update', 'rotate', 'task_done'):
                return NONEV
            if m == 'sort':
                self.sort_calls(self.hget(o, '$e'), kw, node, frame)
                return NONEV
            if m in ('index', 'count', 'qsize'):
                return INTV
            if m in ('empty', 'full', 'issubset', 'issuperset', 'isdisjoint', '__contains__'):
                return BOOLV
            if m == 'copy':
                return self.new_list(node, frame, E, kind=kind)
            if m in ('union', 'symmetric_difference'):
                els = E
                for x in args:
                    els |= self.elements(x, node, frame)
                return self.new_list(node, frame, els, kind=kind if kind in ('set', 'frozenset') else 'set')
            if m in ('difference', 'intersection'):
                return self.new_list(node, frame, E, kind=kind if kind in ('set', 'frozenset') else 'set')
            return UNKV
        return UNKV

    # dict.fromkeys and friends through the builtin type
    # ------------------------------------------------------------------ driver
    def run(self, driver_names):
        sys.setrecursionlimit(20000)
        self.round = 0
        while True:
            self.changed = False
            for d in driver_names:
                if self.module(d) is None:
                    raise AnalysisBroken(f"no module {d}")
            self.round += 1
            if not self.changed:
                break
            if self.round > self.max_rounds:
                raise AnalysisBroken("abstract interpretation did not converge")
        self.final = True
        for d in driver_names:
            self.module(d)
        self.round += 1
        return self

    # ------------------------------------------------------------------ reports
    def path_to(self, ctx, limit=12):
        """Shortest call chain from a driver to ctx, as text."""
        if not isinstance(ctx, Ctx):
            return []
        from collections import deque
        seen = {ctx: None}
        q = deque([ctx])
        while q:
            x = q.popleft()
            for (caller, node) in x.callers:
                if caller in seen:
                    continue
                if not isinstance(caller, Ctx):
                    # reached a module body: reconstruct
                    chain = [(None, node)]
                    y = x
                    while y is not None:
                        nxt = seen[y]
                        chain.append((y, nxt[1] if nxt else None))
                        y = nxt[0] if nxt else None
                    out = []
                    for (cx, n) in chain:
                        nm = cx.func.name if cx is not None else '<driver>'
                        out.append(nm)
                    return out
                seen[caller] = (x, node)
                q.append(caller)
        return []
