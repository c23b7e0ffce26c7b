"""Path analysis: abstract interpretation of single functions over terms (see terms.py) and ghost state.

Two ways of treating loops: mode 'prove' generalises the loop head by anti-unification until it is an invariant (all
iterations at once); mode 'refute' enumerates paths through few iterations and is exact on each of them.  A difference is
reported only when it shows on an exact path, so a loss of precision never raises an alarm."""
import ast
import builtins
import itertools

from .terms import *  # noqa: F403
from .terms import isub, iadd

SELF = ('s', 0, 'self')
LIST_MUT = {'append', 'extend', 'clear', 'insert', 'pop', 'remove', 'sort', 'reverse', 'popleft', 'appendleft'}
ANY_MUT = LIST_MUT | {'update', 'add', 'discard', 'setdefault', 'popitem', '__setitem__'}
PURE = {'str', 'repr', 'sorted', 'max', 'min', 'sum', 'any', 'all', 'type', 'isinstance', 'issubclass', 'frozenset', 'set',
        'abs', 'round', 'int', 'float', 'bool', 'ceil', 'log', 'hasattr', 'getattr', 'callable', 'id', 'hash', 'dict',
        'map', 'filter', 'pow', 'divmod', 'iter', 'product', 'chain'}
ENTROPY = {'choice', 'choices', 'random', 'randint', 'sample', 'shuffle', 'randrange', 'uniform'}


class Unsupported(Exception):
    pass


class St:
    __slots__ = ('frames', 'heap', 'fields', 'facts', 'g', 'lens', 'log')

    def __init__(self):
        self.frames, self.heap, self.fields, self.facts, self.g, self.lens, self.log = [{}], {}, {}, {}, {}, {}, ()

    def copy(self):
        n = St.__new__(St)
        n.frames = [dict(f) for f in self.frames]
        n.heap, n.fields, n.facts = dict(self.heap), dict(self.fields), dict(self.facts)
        n.g, n.lens, n.log = dict(self.g), dict(self.lens), self.log
        return n

    @property
    def env(self):
        return self.frames[-1]


def eqkey(a, b):
    return ('eq',) + tuple(sorted((a, b), key=repr))


class Paths:
    def __init__(self, prog, client, mode, budget=6000, k=2, depth=6):
        self.prog, self.client, self.mode, self.k, self.maxdepth = prog, client, mode, k, depth
        self.budget = budget
        self.truncated = self.thinned = False
        self.beam = 48
        self.n = itertools.count(1)
        self.exc = []
        self.callstack = []
        self.touch_cache = {}
        self.lenient = False

    # ---------------------------------------------------------------- symbols
    def fresh(self, name, *args):
        return ('call', name, ('c', 'int', -next(self.n)), *args)

    def ref(self, st, content):
        r = ('r', next(self.n))
        st.heap[r] = content
        return r

    def content(self, st, t):
        return st.heap[t] if t in st.heap else t

    def resolve(self, st, t, depth=0):
        """replace references by their contents, known lengths by numbers"""
        if depth > 30:
            return TOP
        if t in st.heap:
            t = st.heap[t]
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == 'r':
            return t
        if t[0] in ('s', 'c', 'top', 'g'):
            if t[0] == 's' and st.lens and ('len', t) in st.lens:
                return mk_seq_raw(self.expand(st, t, ZERO, C(st.lens[('len', t)])))
            return self.norm_int(st, t)
        if t[0] == 'seq':
            out = []
            for p in t[1]:
                if p[0] == 'e':
                    out.append(('e', self.resolve(st, p[1], depth + 1)))
                elif p[0] == 'sl':
                    lo, hi = self.norm_int(st, p[2]), self.norm_int(st, p[3])
                    out += self.expand(st, p[1], lo, hi)
                else:
                    lo, hi = self.norm_int(st, p[2]), self.norm_int(st, p[3])
                    if lo[0] == 'c' and hi[0] == 'c' and hi[2] - lo[2] < 12:
                        for i in range(lo[2], hi[2]):
                            for x in p[1]:
                                out.append(('e', self.resolve(st, subst_kappa(x, C(i)), depth + 1)))
                    else:
                        out.append(('rep', p[1], lo, hi))
            return mk_seq_raw(out) if st.lens else mk_seq(tuple(out))
        if t[0] == 'app' and t[1] == '+':
            if any(x[0] in ('seq', 'r') or x in st.heap for x in t[2:]) or self.seqlike(st, t):
                return self.resolve(st, mk_seq(tuple(parts(t))), depth + 1)
            return self.norm_int(st, t)
        if t[0] in ('lin', 'len'):
            return self.norm_int(st, t)
        if st.lens and ('len', t) in st.lens:
            n = st.lens[('len', t)]
            return mk_seq_raw(self.expand(st, t, ZERO, C(n)))
        if t[0] in ('call', 'app', 'f', 'idx'):
            return t
        return t

    def seqlike(self, st, t):
        return t[0] == 'seq' or t[0] == 'r' or (t[0] == 'app' and t[1] == '+' and
                                                (self.seqlike(st, t[2]) or self.seqlike(st, t[3]))) or \
            (st.lens and ('len', t) in st.lens)

    def expand(self, st, base, lo, hi):
        if base[0] == 'seq' and st.lens:
            rb = self.resolve(st, base)
            n = self.norm_int(st, length(rb))
            if n[0] == 'c' and lo[0] == 'c' and hi[0] == 'c' and all(p[0] == 'e' for p in rb[1]):
                return list(rb[1][lo[2]:hi[2]])
        if lo[0] == 'c' and hi[0] == 'c' and st.lens and 0 <= lo[2] and hi[2] - lo[2] < 40:
            top = st.lens.get(('len', base))
            h = hi[2] if top is None else min(hi[2], top)
            return [('e', ('idx', base, C(i))) for i in range(lo[2], h)]
        return [('sl', base, lo, hi)]

    def norm_int(self, st, t):
        if not st.lens:
            return t
        if t in st.lens:
            return C(st.lens[t])
        if t[0] == 'lin' or (t[0] == 'app' and t[1] == '+'):
            c, d = as_lin(t)
            out = {}
            for a, v in d.items():
                if a in st.lens:
                    c += v * st.lens[a]
                else:
                    out[a] = v
            return mk_lin(c, out)
        return t

    # ---------------------------------------------------------------- three-valued equality
    def tri(self, st, a, b):
        a, b = self.resolve(st, a), self.resolve(st, b)
        return self._tri(st, a, b)

    def _tri(self, st, a, b, depth=0):
        if a == b:
            return None if a == TOP else True
        if a[0] == 'top' or b[0] == 'top' or depth > 10:
            return None
        f = st.facts.get(eqkey(a, b))
        if f is not None:
            return f
        if a[0] == 'seq' or b[0] == 'seq':
            if a[0] == 'c' or b[0] == 'c':
                return False
            return self.tri_seq(st, list(parts(a)), list(parts(b)), depth)
        if is_int(a) or is_int(b):
            d = self.norm_int(st, isub(a, b))
            if d[0] == 'c':
                return d[2] == 0
            return None
        if a[0] == 'c' and b[0] == 'c':
            try:
                return a[2] == b[2]
            except Exception:
                return None
        for x, y in ((a, b), (b, a)):
            if x[0] == 'c':
                v = st.facts.get(('val', y))
                if v is not None:
                    return v == x
                if st.facts.get(('t', y)) is True and not x[2]:
                    return False
                return None
        if a[0] == 'idx' and b[0] == 'idx' and a[1] == b[1]:
            return self.tri_generic(self._tri(st, a[2], b[2], depth + 1))
        if unknown(a) or unknown(b):
            return None
        if a[0] == 'call' and b[0] == 'call' and a[1] == b[1] and a[1] not in ENTROPY and not a[1].startswith('!'):
            return None
        # one computed from the other by a call that is not understood
        if mentions_through_call(a, b) or mentions_through_call(b, a):
            return None
        return False

    @staticmethod
    def tri_generic(x):
        return x

    def tri_seq(self, st, a, b, depth):
        while a and b and a[0] == b[0]:
            a.pop(0), b.pop(0)
        while a and b and a[-1] == b[-1]:
            a.pop(), b.pop()
        if not a and not b:
            return True
        la, lb = mk_len(a), mk_len(b)
        d = self.norm_int(st, isub(la, lb))
        if not a or not b:
            return False if min_len(a or b) > 0 else None
        if d[0] == 'c' and d[2] != 0:
            return False
        if all(p[0] == 'e' for p in a) and all(p[0] == 'e' for p in b):
            r = True
            for p, q in zip(a, b):
                x = self._tri(st, p[1], q[1], depth + 1)
                if x is False:
                    return False
                if x is None:
                    r = None
            return r
        if a[0][0] == 'e' and b[0][0] == 'e':
            if self._tri(st, a[0][1], b[0][1], depth + 1) is False:
                return False
        if a[-1][0] == 'e' and b[-1][0] == 'e':
            if self._tri(st, a[-1][1], b[-1][1], depth + 1) is False:
                return False
        return None

    # ---------------------------------------------------------------- conditions
    def truth(self, st, t):
        h = t[0]
        if h == 'not':
            x = self.truth(st, t[1])
            return None if x is None else not x
        if h == 'eq':
            return self._tri(st, self.resolve(st, t[1]), self.resolve(st, t[2]))if not t[3:] else \
                self.tri_branch(st, t[1], t[2])
        if h == 'lt':
            d = self.norm_int(st, isub(self.resolve(st, t[2]), self.resolve(st, t[1])))
            if d[0] == 'c':
                return d[2] > 0
            return st.facts.get(('pos', d))
        t = self.resolve(st, t)
        if h == 'c' or t[0] == 'c':
            return bool(t[2])
        if t[0] == 'seq':
            n = self.norm_int(st, length(t))
            if n[0] == 'c':
                return n[2] > 0
            if min_len(list(t[1])) > 0:
                return True
            return st.facts.get(('t', t))
        if t in (SELF,) or t[0] == 's' and t[1] == 0 or t[:2] == ('g', 'builtins'):
            return True
        v = st.facts.get(('val', t))
        if v is not None:
            return bool(v[2])
        return st.facts.get(('t', t))

    def tri_branch(self, st, a, b):
        """equality for branching: only what is certain (two different symbols may be equal)"""
        a, b = self.resolve(st, a), self.resolve(st, b)
        if a == b and a != TOP:
            return True
        f = st.facts.get(eqkey(a, b))
        if f is not None:
            return f
        if a[0] == 'c' and b[0] == 'c':
            return a[2] == b[2]
        for x, y in ((a, b), (b, a)):
            if x[0] == 'c':
                v = st.facts.get(('val', y))
                if v is not None:
                    return v == x
                if st.facts.get(('t', y)) is True and not x[2]:
                    return False
                if x[2] is None and (y[0] in ('seq', 'r') or y[0] == 's' and y[1] == 0 or is_int(y)):
                    return False
                if is_int(x) and y[0] in ('lin', 'len'):
                    d = self.norm_int(st, isub(x, y))
                    if d[0] == 'c':
                        return d[2] == 0
                if x[1] in ('str', 'int') and y[0] == 'seq':
                    return False
        if is_int(a) and is_int(b):
            d = self.norm_int(st, isub(a, b))
            if d[0] == 'c':
                return d[2] == 0
        if a[0] == 'seq' and b[0] == 'seq':
            n = self.norm_int(st, isub(length(a), length(b)))
            if n[0] == 'c' and n[2] != 0:
                return False
        return None

    def assume(self, st, t, val):
        """st restricted to paths where t is val; None if impossible. Modifies st."""
        h = t[0]
        if h == 'not':
            return self.assume(st, t[1], not val)
        x = self.truth(st, t)
        if x is not None:
            return st if x == val else None
        if h == 'eq':
            a, b = self.resolve(st, t[1]), self.resolve(st, t[2])
            st.facts[eqkey(a, b)] = val
            for x, y in ((a, b), (b, a)):
                if x[0] == 'c' and val:
                    st.facts[('val', y)] = x
                    if not x[2]:
                        st.facts[('t', y)] = False
                    elif x[2]:
                        st.facts[('t', y)] = True
                    if is_int(x) and y[0] == 'len' and self.mode == 'refute' and 0 <= x[2] < 6:
                        st.lens[y] = x[2]
            return st
        if h == 'lt':
            d = self.norm_int(st, isub(self.resolve(st, t[2]), self.resolve(st, t[1])))
            st.facts[('pos', d)] = val
            return st
        t = self.resolve(st, t)
        st.facts[('t', t)] = val
        if val:
            st.facts[eqkey(t, NONE)] = False
        return st

    def branch(self, node, st):
        """[(state, bool)] for a test expression"""
        if isinstance(node, ast.BoolOp):
            res = []
            cur = [st]
            isand = isinstance(node.op, ast.And)
            for v in node.values:
                nxt = []
                for s in cur:
                    for s2, b in self.branch(v, s):
                        if b != isand:
                            res.append((s2, b))
                        else:
                            nxt.append(s2)
                cur = nxt
            return res + [(s, isand) for s in cur]
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(s, not b) for s, b in self.branch(node.operand, st)]
        if isinstance(node, ast.IfExp):
            out = []
            for s, b in self.branch(node.test, st):
                out += self.branch(node.body if b else node.orelse, s)
            return out
        out = []
        for s, t in self.eval(node, st):
            out += self.split(s, t, node)
        return out

    def split(self, s, t, node):
        if t[0] == 'b':          # precomputed boolean with branches
            return [(s, t[1])]
        x = self.truth(s, t)
        if x is not None:
            return [(s, x)]
        out = []
        for val in (True, False):
            s2 = s.copy()
            s2 = self.assume(s2, t, val)
            if s2 is not None:
                if self.mode == 'refute':
                    s2.log = s2.log + (f"line {node.lineno}: {ast.unparse(node)[:70]} is {val}",)
                out.append((s2, val))
        return out

    # ---------------------------------------------------------------- expressions
    def evals(self, nodes, st):
        """[(state, [terms])]"""
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in cur:
                for s2, v in self.eval(n, s):
                    nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def tick(self):
        self.budget -= 1
        if self.budget < 0:
            self.truncated = True
            return False
        return True

    def eval(self, node, st):
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            return [(st, TOP)]
        return m(node, st)

    def e_Constant(self, node, st):
        v = node.value
        if isinstance(v, (int, str, float, bool, type(None), bytes)):
            return [(st, C(v))]
        return [(st, TOP)]

    def e_Name(self, node, st):
        if node.id in st.env:
            return [(st, st.env[node.id])]
        if node.id in ('True', 'False', 'None'):
            return [(st, C({'True': True, 'False': False, 'None': None}[node.id]))]
        if hasattr(builtins, node.id) and node.id not in self.client.names.table(node.mod.name):
            return [(st, ('g', 'builtins', node.id))]
        return [(st, ('g', node.mod.name, node.id))]

    def e_NamedExpr(self, node, st):
        out = []
        for s, v in self.eval(node.value, st):
            s = s.copy()
            s.env[node.target.id] = v
            out.append((s, v))
        return out

    def e_JoinedStr(self, node, st):
        vals = [v.value for v in node.values if isinstance(v, ast.FormattedValue)]
        return [(s, ('app', 'str', *vs)) for s, vs in self.evals(vals, st)]

    def e_Tuple(self, node, st):
        out = []
        stars = [isinstance(e, ast.Starred) for e in node.elts]
        for s, vs in self.evals([e.value if isinstance(e, ast.Starred) else e for e in node.elts], st):
            ps = []
            for v, star in zip(vs, stars):
                if star:
                    ps += parts(self.content(s, v))
                else:
                    ps.append(('e', v))
            out.append((s, mk_seq(tuple(ps)) if ps else EMPTY))
        return out

    def e_List(self, node, st):
        out = []
        for s, v in self.e_Tuple(node, st):
            s = s.copy()
            out.append((s, self.ref(s, v)))
        return out

    def e_Set(self, node, st):
        return [(s, self.fresh('{}', *vs)) for s, vs in
                self.evals([e.value if isinstance(e, ast.Starred) else e for e in node.elts], st)]

    def e_Dict(self, node, st):
        ns = [k for k in node.keys if k is not None] + list(node.values)
        out = []
        for s, vs in self.evals(ns, st):
            s = s.copy()
            r = ('d', next(self.n))
            nk = len([k for k in node.keys if k is not None])
            if nk == len(node.keys):
                for k, v in zip(vs[:nk], vs[nk:]):
                    if k[0] == 'c':
                        s.fields[(r, '[]', k)] = v
            out.append((s, r))
        return out

    def e_Lambda(self, node, st):
        return [(st, ('app', 'lambda', C(ast.unparse(node))))]

    def e_IfExp(self, node, st):
        out = []
        for s, b in self.branch(node.test, st):
            out += self.eval(node.body if b else node.orelse, s)
        return out

    def e_BoolOp(self, node, st):
        # value semantics: last evaluated operand
        out = []
        cur = [st]
        isand = isinstance(node.op, ast.And)
        for i, v in enumerate(node.values):
            last = i == len(node.values) - 1
            nxt = []
            for s in cur:
                for s2, t in self.eval(v, s):
                    if last:
                        out.append((s2, t))
                        continue
                    for s3, b in self.split(s2, t, v):
                        if b != isand:
                            out.append((s3, C(b) if t[0] in ('eq', 'lt', 'not') else t))
                        else:
                            nxt.append(s3)
            cur = nxt
        return out

    def e_UnaryOp(self, node, st):
        out = []
        for s, v in self.eval(node.operand, st):
            if isinstance(node.op, ast.Not):
                x = self.truth(s, v)
                out.append((s, C(not x) if x is not None else ('not', v)))
            elif isinstance(node.op, ast.USub) and (is_int(v) or v[0] == 'c'):
                if v[0] == 'c':
                    try:
                        out.append((s, C(-v[2])))
                    except Exception:
                        out.append((s, TOP))
                else:
                    out.append((s, isub(ZERO, v)))
            else:
                out.append((s, ('app', type(node.op).__name__, v)))
        return out

    def e_Compare(self, node, st):
        if len(node.ops) != 1:
            return [(s, ('app', 'cmp', *vs)) for s, vs in self.evals([node.left] + node.comparators, st)]
        out = []
        op = node.ops[0]
        for s, (a, b) in self.evals([node.left, node.comparators[0]], st):
            self.client.compare(self, s, node, a, b)
            if isinstance(op, (ast.Eq, ast.Is)):
                t = ('eq', a, b, 1)
            elif isinstance(op, (ast.NotEq, ast.IsNot)):
                t = ('not', ('eq', a, b, 1))
            elif isinstance(op, ast.Lt):
                t = ('lt', a, b)
            elif isinstance(op, ast.Gt):
                t = ('lt', b, a)
            elif isinstance(op, ast.LtE):
                t = ('not', ('lt', b, a))
            elif isinstance(op, ast.GtE):
                t = ('not', ('lt', a, b))
            elif isinstance(op, (ast.In, ast.NotIn)):
                t = self.contains(s, a, b)
                if isinstance(op, ast.NotIn):
                    t = ('not', t)
            x = self.truth(s, t)
            out.append((s, C(x) if x is not None else t))
        return out

    def contains(self, s, a, b):
        c = self.content(s, b)
        if b[0] == 'app' and b[1] == 'keys':
            b = b[2]
        ra = self.resolve(s, a)
        if c[0] == 'seq' and all(p[0] == 'e' and p[1][0] == 'c' for p in c[1]) and ra[0] == 'c':
            return C(any(p[1] == ra for p in c[1]))
        if c == EMPTY:
            return FALSE
        return ('in', ra, self.version(s, self.content(s, b)))

    def version(self, st, base):
        v = st.fields.get((base, '#ver'))
        return ('ver', base, v) if v is not None else base

    def e_BinOp(self, node, st):
        out = []
        for s, (a, b) in self.evals([node.left, node.right], st):
            out.append(self.binop(s, node.op, a, b))
        return out

    def binop(self, s, op, a, b):
        if isinstance(op, ast.Add):
            ca, cb = self.content(s, a), self.content(s, b)
            if ca[0] == 'seq' or cb[0] == 'seq':
                r = concat(ca, cb)
                if a in s.heap or a[0] == 'r':
                    s = s.copy()
                    return s, self.ref(s, r)
                return s, r
            if a in s.heap or b in s.heap:
                s = s.copy()
                return s, self.ref(s, concat(ca, cb))
            if is_int(a) or is_int(b):
                if a[0] == 'c' and b[0] == 'c' and not (is_int(a) and is_int(b)):
                    try:
                        return s, C(a[2] + b[2])
                    except Exception:
                        return s, TOP
                if not ((a[0] == 'c' and not is_int(a)) or (b[0] == 'c' and not is_int(b))):
                    return s, iadd(a, b)
            return s, ('app', '+', a, b)
        if isinstance(op, ast.Sub):
            if a[0] == 'c' and b[0] == 'c' and not (is_int(a) and is_int(b)):
                try:
                    return s, C(a[2] - b[2])
                except Exception:
                    return s, TOP
            if is_int(a) or is_int(b):
                return s, isub(a, b)
            return s, ('app', '-', a, b)
        if isinstance(op, ast.Mult):
            if is_int(a) and is_int(b) and a[0] == 'c' and b[0] == 'c':
                return s, C(a[2] * b[2])
            for x, y in ((a, b), (b, a)):
                cx = self.content(s, x)
                if cx[0] == 'seq' and x in s.heap:
                    s = s.copy()
                    if y[0] == 'c' and is_int(y) and y[2] < 6:
                        r = EMPTY
                        for _ in range(y[2]):
                            r = concat(r, cx)
                        return s, self.ref(s, r)
                    return s, self.ref(s, self.fresh('*', cx, y))
                if y[0] == 'c' and is_int(y) and is_int(x):
                    c, d = as_lin(x)
                    return s, mk_lin(c * y[2], {k: v * y[2] for k, v in d.items()})
        return s, ('app', type(op).__name__, a, b)

    def e_Attribute(self, node, st):
        out = []
        for s, o in self.eval(node.value, st):
            r = self.client.attr(self, s, node, o, node.attr)
            if r is not None:
                out.append((s, r))
            else:
                out.append((s, self.getfield(s, o, node.attr)))
        return out

    def getfield(self, s, o, name):
        if (o, name) in s.fields:
            return s.fields[(o, name)]
        if o in s.heap:
            return ('app', 'attr', C(name))
        return ('f', o, name)

    def e_Starred(self, node, st):
        return self.eval(node.value, st)

    def e_Subscript(self, node, st):
        out = []
        for s, b in self.eval(node.value, st):
            if isinstance(node.slice, ast.Slice):
                out += self.slice(node, s, b)
                continue
            for s2, k in self.eval(node.slice, s):
                out += self.load_index(s2, b, k, node)
        return out

    def load_index(self, s, b, k, node):
        if (b, '[]', k) in s.fields:
            return [(s, s.fields[(b, '[]', k)])]
        c = self.content(s, b)
        k = self.norm_int(s, k)
        if k[0] == 'c' and k[1] == 'int' and k[2] < 0:
            if self.mode == 'refute':
                res = []
                for s2 in self.fix_len(s, length(c), lo=1):
                    c2 = self.resolve(s2, c)
                    n = self.norm_int(s2, length(c2))
                    res.append((s2, index(c2, iadd(n, k)) if c2[0] == 'seq' else index(c2, iadd(length(c2), k))))
                return res
            return [(s, index(c, iadd(length(c), k)))]
        if is_int(k) or c[0] == 'seq':
            if self.mode == 'refute' and c[0] == 'seq':
                c = self.resolve(s, c)
            return [(s, index(c, k))]
        rk = self.resolve(s, k)
        return [(s, ('idx', self.version(s, c), rk))]

    def slice(self, node, s, b):
        sl = node.slice
        out = []
        for s, vs in self.evals([x for x in (sl.lower, sl.upper) if x is not None], s):
            vs = list(vs)
            lo = vs.pop(0) if sl.lower is not None else ZERO
            hi = vs.pop(0) if sl.upper is not None else None
            if lo == NONE:
                lo = ZERO
            if hi == NONE:
                hi = None
            c = self.content(s, b)
            if sl.step is not None:
                out.append((s, ('app', 'slice', self.resolve(s, c), C(ast.unparse(sl)))))
                continue
            states = [s]
            if self.mode == 'refute':
                states = self.fix_len(s, length(c))
            for s2 in states:
                c2 = self.resolve(s2, c) if self.mode == 'refute' else c
                n = self.norm_int(s2, length(c2))
                l, h = self.norm_int(s2, lo), (self.norm_int(s2, hi) if hi is not None else n)
                if l[0] == 'c' and is_int(l) and l[2] < 0:
                    l = iadd(n, l)
                if h[0] == 'c' and is_int(h) and h[2] < 0:
                    h = iadd(n, h)
                if n[0] == 'c' and l[0] == 'c' and h[0] == 'c' and is_int(l) and is_int(h):
                    l, h = C(max(0, min(l[2], n[2]))), C(max(0, min(h[2], n[2])))
                    if h[2] < l[2]:
                        h = l
                elif l[0] == 'c' and is_int(l) and l[2] < 0:
                    l = ZERO
                if not (is_int(l) or l[0] in ('call', 's', 'f')) or not (is_int(h) or h[0] in ('call', 's', 'f')):
                    v = ('app', 'slice', c2, l, h)
                else:
                    v = slice_seq(c2, l, h)
                if b in s2.heap:
                    s2 = s2.copy()
                    v = self.ref(s2, v)
                out.append((s2, v))
        return out

    def fix_len(self, s, n, lo=0):
        """refute mode: states in which the linear length n is a number"""
        n = self.norm_int(s, n)
        if n[0] == 'c':
            return [s]
        c, d = as_lin(n)
        atoms = list(d)
        opts = [0, 1, 2] if len(atoms) <= 2 else [1, 2] if len(atoms) <= 3 else [1]
        out = []
        for combo in itertools.product(opts, repeat=len(atoms)):
            tot = c + sum(d[a] * v for a, v in zip(atoms, combo))
            if tot < lo:
                continue
            ok = True
            for a, v in zip(atoms, combo):
                if a[0] == 'len':
                    f = s.facts.get(('t', a[1]))
                    if f is not None and f != (v > 0):
                        ok = False
                    f = s.facts.get(eqkey(a, C(v)))
                    if f is False:
                        ok = False
                elif s.facts.get(eqkey(a, C(v))) is False:
                    ok = False
            if not ok or not self.tick():
                continue
            s2 = s.copy()
            for a, v in zip(atoms, combo):
                s2.lens[a] = v
            # facts about lengths decided by the choice
            for k, val in list(s2.facts.items()):
                if k[0] == 'pos':
                    x = self.norm_int(s2, k[1])
                    if x[0] == 'c' and (x[2] > 0) != val:
                        s2 = None
                        break
                elif k[0] == 'eq' and is_int(k[1]) and is_int(k[2]):
                    x = self.norm_int(s2, isub(k[1], k[2]))
                    if x[0] == 'c' and (x[2] == 0) != val:
                        s2 = None
                        break
            if s2 is not None:
                s2.log = s2.log + (f"{show(n)} = {tot}",)
                out.append(s2)
        return out

    def comp(self, node, st, elt):
        """list of comprehension results"""
        def gen(i, s, acc_states):
            raise NotImplementedError
        st = st.copy()
        r = self.ref(st, EMPTY)
        st.frames.append(dict(st.env))
        hidden = '%comp' + str(next(self.n))
        st.env[hidden] = r

        def run(s, gens):
            if not gens:
                outs = []
                for s2, v in self.eval(elt, s):
                    s2 = s2.copy()
                    rr = s2.env[hidden]
                    s2.heap[rr] = concat(s2.heap[rr], mk_seq((('e', v),)))
                    outs.append((s2, 'next', None))
                return outs
            g = gens[0]
            outs = []
            for s2, it in self.eval(g.iter, s):
                def body(s3, gens=gens, g=g):
                    cur = [s3]
                    for c in g.ifs:
                        nxt = []
                        for x in cur:
                            for x2, b in self.branch(c, x):
                                if b:
                                    nxt.append(x2)
                                else:
                                    skipped.append((x2, 'next', None))
                        cur = nxt
                    o = []
                    for x in cur:
                        o += run(x, gens[1:])
                    return o
                skipped = []

                def body2(s3):
                    o = body(s3)
                    o += skipped
                    skipped.clear()
                    return o
                outs += self.for_loop(s2, it, g.target, body2, [], node)
            return outs
        res = []
        for s, k, v in run(st, node.generators):
            if k == 'next':
                rr = s.env[hidden]
                s = s.copy()
                s.frames.pop()
                res.append((s, rr))
            elif k == 'raise':
                s.frames.pop()
                self.exc[-1].append((s, v))
        return res

    def first(self, node, st, quant=None):
        """next((e for x in xs if c), default); any(e for x in xs if c), all(e for x in xs if c)"""
        comp = node.args[0]
        g = comp.generators[0]
        hidden = '%first' + str(next(self.n))
        out = []
        for s, it in self.eval(g.iter, st):
            s = s.copy()
            s.frames.append(dict(s.env))

            def body(s1):
                cur, res = [s1], []
                for c in g.ifs:
                    nxt = []
                    for x in cur:
                        for x2, b in self.branch(c, x):
                            if b:
                                nxt.append(x2)
                            else:
                                res.append((x2, 'next', None))
                    cur = nxt
                for x in cur:
                    if quant:
                        for x2, b in self.branch(comp.elt, x):
                            if b == (quant == 'any'):
                                x2 = x2.copy()
                                x2.env[hidden] = C(b)
                                res.append((x2, 'break', None))
                            else:
                                res.append((x2, 'next', None))
                        continue
                    for x2, v in self.eval(comp.elt, x):
                        x2 = x2.copy()
                        x2.env[hidden] = v
                        res.append((x2, 'break', None))
                return res
            for s2, k, v in self.for_loop(s, it, g.target, body, [], node):
                s2 = s2.copy()
                if k == 'raise':
                    s2.frames.pop()
                    self.exc[-1].append((s2, v))
                    continue
                if k != 'next':
                    continue
                found = s2.env.get(hidden)
                s2.frames.pop()
                if found is not None:
                    out.append((s2, found))
                elif quant:
                    out.append((s2, C(quant == 'all')))
                elif len(node.args) == 2:
                    out += self.eval(node.args[1], s2)
                else:
                    self.exc[-1].append((s2, self.fresh('StopIteration')))
        return out

    def e_ListComp(self, node, st):
        return self.comp(node, st, node.elt)

    def e_GeneratorExp(self, node, st):
        if self.touches_expr(node):
            return self.comp(node, st, node.elt)
        return [(st, self.fresh('genexp', C(ast.unparse(node))))]

    def e_SetComp(self, node, st):
        if self.touches_expr(node):
            return [(s, self.fresh('setcomp')) for s, _ in self.comp(node, st, node.elt)]
        return [(st, self.fresh('setcomp', C(ast.unparse(node))))]

    def e_DictComp(self, node, st):
        if self.touches_expr(node):
            return [(s, self.fresh('dictcomp')) for s, _ in self.comp(node, st, node.value)]
        return [(st, self.fresh('dictcomp', C(ast.unparse(node))))]

    # ---------------------------------------------------------------- calls
    def e_Call(self, node, st):
        if not self.tick():
            return []
        f = node.func
        out = []
        if isinstance(f, ast.Name) and f.id == 'next' and node.args and isinstance(node.args[0], ast.GeneratorExp) and \
                len(node.args) <= 2 and len(node.args[0].generators) == 1 and getattr(self.client, 'EXACT_NEXT', False):
            return self.first(node, st)
        if isinstance(f, ast.Name) and f.id in ('any', 'all') and len(node.args) == 1 and \
                isinstance(node.args[0], ast.GeneratorExp) and len(node.args[0].generators) == 1 and \
                getattr(self.client, 'EXACT_QUANT', False):
            return self.first(node, st, f.id)
        argnodes = [a.value if isinstance(a, ast.Starred) else a for a in node.args]
        kwnodes = [k.value for k in node.keywords]
        if isinstance(f, ast.Attribute) and not (isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name)
                                                 and f.value.func.id == 'super'):
            for s, vs in self.evals([f.value] + argnodes + kwnodes, st):
                recv, args, kws = vs[0], vs[1:1 + len(argnodes)], vs[1 + len(argnodes):]
                kw = {k.arg: v for k, v in zip(node.keywords, kws)}
                out += self.call_method(node, s, recv, f.attr, args, kw)
            return out
        for s, vs in self.evals(argnodes + kwnodes, st):
            args, kws = vs[:len(argnodes)], vs[len(argnodes):]
            kw = {k.arg: v for k, v in zip(node.keywords, kws)}
            if isinstance(f, ast.Attribute):   # super().m(...)
                out += self.call_method(node, s, SELF, f.attr, args, kw, sup=True)
            elif isinstance(f, ast.Name):
                out += self.call_name(node, s, f.id, args, kw)
            else:
                for s2, fv in self.eval(f, s):
                    out.append((s2, self.fresh('apply', fv, *args)))
        return out

    def call_method(self, node, s, recv, name, args, kw, sup=False):
        r = self.client.call(self, s, node, recv, name, args, kw)
        if r is not None:
            return r
        c = self.content(s, recv)
        # list operations
        if name in LIST_MUT and (recv in s.heap or name in ('append', 'extend', 'clear', 'insert') and recv[0] != 'd'
                                 and not (recv[0] == 's' and recv[1] == 0)) and recv[0] != 'd':
            return self.list_op(node, s, recv, c, name, args)
        if name == 'copy' and not args and (recv in s.heap or c[0] == 'seq'):
            s = s.copy()
            return [(s, self.ref(s, c))]
        if name == 'keys' and not args:
            return [(s, ('app', 'keys', recv))]
        if name in ENTROPY and recv[0] == 'g':
            if name == 'shuffle' and args:
                s = s.copy()
                s.heap[args[0]] = self.fresh('shuffle', self.content(s, args[0]))
                return [(s, NONE)]
            return [(s, self.fresh(name, *args))]
        if recv == SELF:
            fn = self.client.method(self, name, sup, node)
            if fn is not None:
                return self.maybe_inline(node, s, fn, [SELF] + list(args), kw)
        fn = self.client.resolve_method(self, s, node, recv, name)
        if fn is not None:
            return self.maybe_inline(node, s, fn, [recv] + list(args), kw)
        if name in ANY_MUT and recv[0] != 'g':
            s = s.copy()
            s.fields[(c, '#ver')] = self.fresh('v')
            for k in [k for k in s.fields if k[0] == recv and len(k) == 3]:
                del s.fields[k]
        return [(s, self.fresh(name, recv, *[self.resolve(s, a) for a in args], *kw.values()))]

    def list_op(self, node, s, recv, c, name, args):
        s = s.copy()
        if name in ('append',):
            s.heap[recv] = concat(c, mk_seq((('e', args[0]),)))
            return [(s, NONE)]
        if name == 'extend':
            s.heap[recv] = concat(c, self.itercontent(s, args[0]))
            return [(s, NONE)]
        if name == 'clear':
            s.heap[recv] = EMPTY
            return [(s, NONE)]
        if name == 'insert' and args[0] == ZERO:
            s.heap[recv] = concat(mk_seq((('e', args[1]),)), c)
            return [(s, NONE)]
        if name == 'pop' and (not args or args[0] in (C(-1), ZERO)):
            if self.mode == 'refute':
                c = self.resolve(s, c)
        if name == 'pop' and (not args or args[0] in (C(-1), ZERO)) and c[0] == 'seq' and c[1]:
            front = bool(args) and args[0] == ZERO
            p = c[1][0 if front else -1]
            if p[0] == 'e':
                s.heap[recv] = ('seq', c[1][1:] if front else c[1][:-1])
                return [(s, p[1])]
            if self.mode == 'refute':
                c = self.resolve(s, c)
                if c[0] == 'seq' and c[1]:
                    p = c[1][0 if front else -1]
                    if p[0] == 'e':
                        s.heap[recv] = ('seq', c[1][1:] if front else c[1][:-1])
                        return [(s, p[1])]
        if name == 'pop' and (not args or args[0] in (C(-1), ZERO)) and c[0] in ('s', 'f', 'seq'):
            # a list that can be popped is not empty
            last = isub(length(c), ONE)
            front = bool(args) and args[0] == ZERO
            s.heap[recv] = slice_seq(c, ONE if front else ZERO, length(c) if front else last)
            return [(s, index(c, ZERO if front else last))]
        if name == 'pop':
            v = self.fresh('pop', c)
            s.heap[recv] = self.fresh('popped', c)
            return [(s, v)]
        if name == 'reverse' and c[0] == 'seq' and all(p[0] == 'e' for p in c[1]):
            s.heap[recv] = ('seq', tuple(reversed(c[1])))
            return [(s, NONE)]
        s.heap[recv] = self.fresh('mutated', c)
        return [(s, self.fresh(name, c))]

    def itercontent(self, s, t):
        c = self.content(s, t)
        if c[0] == 'app' and c[1] in ('range', 'enumerate', 'zip'):
            return self.fresh('iter', c)
        return c

    def call_name(self, node, s, name, args, kw):
        if name in s.env:
            v = s.env[name]
            return [(s, self.fresh('apply', v, *[self.resolve(s, a) for a in args]))]
        r = self.client.call(self, s, node, None, name, args, kw)
        if r is not None:
            return r
        fn = self.client.function(self, node, name)
        if fn is not None:
            return self.maybe_inline(node, s, fn, list(args), kw)
        if name == 'len' and args:
            c = self.content(s, args[0])
            return [(s, self.norm_int(s, length(c)))]
        if name in ('tuple', 'list'):
            c = self.content(s, args[0]) if args else EMPTY
            if c[0] == 'app' and c[1] in ('range', 'enumerate', 'zip'):
                return self.materialise(node, s, c, name)
            if name == 'list':
                s = s.copy()
                return [(s, self.ref(s, c))]
            return [(s, c)]
        if name == 'range':
            if len(args) == 1:
                return [(s, ('app', 'range', ZERO, args[0], ONE))]
            if len(args) == 2:
                return [(s, ('app', 'range', args[0], args[1], ONE))]
            return [(s, self.fresh('range', *args))]
        if name == 'enumerate':
            start = args[1] if len(args) > 1 else kw.get('start', ZERO)
            return [(s, ('app', 'enumerate', self.itercontent(s, args[0]), start))]
        if name == 'zip':
            return [(s, ('app', 'zip', *[self.itercontent(s, a) for a in args]))]
        if name == 'print':
            return [(s, NONE)]
        if name == 'deepcopy' or name == 'copy':
            c = self.content(s, args[0])
            if args[0] in s.heap:
                s = s.copy()
                return [(s, self.ref(s, c))]
            return [(s, self.fresh(name, *args))]
        if name == 'isinstance' and len(args) == 2 and args[0][0] == 'c' and args[1][0] == 'g' and \
                args[1][2] in ('str', 'int', 'float', 'list', 'dict', 'tuple', 'set', 'bool'):
            return [(s, C(args[1][2] in (args[0][1], 'int' if args[0][1] == 'bool' else '')))]
        if name == 'str' and len(args) == 1 and args[0][0] == 'c':
            return [(s, C(str(args[0][2])))]
        if name in PURE:
            return [(s, ('app', name, *[self.resolve(s, a) for a in args], *kw.values()))]
        return [(s, self.fresh(name, *[self.resolve(s, a) for a in args], *kw.values()))]

    def materialise(self, node, s, it, kind):
        s = s.copy()
        r = self.ref(s, EMPTY)
        s.frames.append(dict(s.env))
        hid, el = '%m' + str(next(self.n)), '%e' + str(next(self.n))
        s.env[hid] = r

        def body(x):
            x = x.copy()
            rr = x.env[hid]
            x.heap[rr] = concat(x.heap[rr], mk_seq((('e', x.env[el]),)))
            return [(x, 'next', None)]
        tgt = ast.Name(id=el, ctx=ast.Store())
        tgt.mod = node.mod
        out = []
        for x, k, v in self.for_loop(s, it, tgt, body, [], node):
            rr = x.env[hid]
            x = x.copy()
            x.frames.pop()
            out.append((x, rr if kind == 'list' else x.heap[rr]))
        return out

    # inlining -------------------------------------------------------------
    def touches_expr(self, node):
        for n in ast.walk(node):
            if isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Attribute):
                    if f.attr in self.client.TRACKED:
                        return True
                    if isinstance(f.value, ast.Name) and f.value.id == 'self':
                        fn = self.client.method(self, f.attr, False, n)
                        if fn is not None and self.touches(fn):
                            return True
                elif isinstance(f, ast.Name):
                    fn = self.client.function(self, n, f.id)
                    if fn is not None and self.touches(fn):
                        return True
        return False

    def touches(self, fn, tracked=None):
        key = (fn, tracked is not None)
        if key in self.touch_cache:
            return self.touch_cache[key]
        self.touch_cache[key] = False
        r = False
        tr = tracked if tracked is not None else self.client.TRACKED
        for n in ast.walk(fn):
            if isinstance(n, ast.Attribute) and n.attr in tr:
                r = True
                break
            if isinstance(n, ast.Call):
                f = n.func
                g = None
                if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'self':
                    g = self.client.method(self, f.attr, False, n)
                elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) \
                        and f.value.func.id == 'super':
                    g = self.client.method(self, f.attr, True, n)
                elif isinstance(f, ast.Name):
                    if f.id in tr:
                        r = True
                        break
                    g = self.client.function(self, n, f.id)
                if g is not None and self.touches(g, tracked):
                    r = True
                    break
        self.touch_cache[key] = r
        return r

    def maybe_inline(self, node, s, fn, args, kw):
        isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fn))
        small = len(fn.body) <= 12 and not any(isinstance(n, (ast.For, ast.While, ast.Try)) for n in ast.walk(fn))
        if isgen or fn in self.callstack or len(self.callstack) >= self.maxdepth or \
                not (self.touches(fn) or small or self.client.always_inline(fn)):
            return [self.opaque(node, s, fn, args, kw)]
        if any(isinstance(a, ast.Starred) for a in node.args) or None in kw:
            return [self.opaque(node, s, fn, args, kw)]
        if self.mode == 'refute':
            r = self.client.summary(self, s, node, fn, args, kw)
            if r is not None:
                return r
        return self.inline(node, s, fn, args, kw)

    def opaque(self, node, s, fn, args, kw):
        s = s.copy()
        for p, a in list(zip([x.arg for x in fn.args.args], args)) + list(kw.items()):
            if a in s.heap and mutates_param(fn, p):
                s.heap[a] = self.fresh('mutated', self.content(s, a))
        if args and args[0] == SELF:
            for f in self.assigned(fn):
                s.fields[(SELF, f)] = self.fresh('!havoc', C(f))
        return s, self.fresh(fn.name, *[self.resolve(s, a) for a in args if a != SELF], *kw.values())

    def assigned(self, fn, seen=None):
        seen = seen if seen is not None else set()
        if fn in seen:
            return set()
        seen.add(fn)
        out = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.attr)
                p = n.parent
                if isinstance(p, ast.Attribute) and p.attr in ANY_MUT and isinstance(p.parent, ast.Call):
                    out.add(n.attr)
                if isinstance(p, ast.Subscript) and isinstance(p.ctx, (ast.Store, ast.Del)):
                    out.add(n.attr)
                if isinstance(p, ast.Call) and p.func is n:
                    g = self.client.method(self, n.attr, False, n)
                    if g is not None:
                        out |= self.assigned(g, seen)
        return out

    def bind(self, s, fn, args, kw):
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        for n, v in zip(names, args):
            env[n] = v
        extra = list(args[len(names):])
        if a.vararg:
            env[a.vararg.arg] = mk_seq(tuple(('e', x) for x in extra)) if extra else EMPTY
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kw.items():
            if k in names or k in kwonly:
                env[k] = v
            else:
                rest[k] = v
        if a.kwarg:
            env[a.kwarg.arg] = self.fresh('kwargs', *rest.values())
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in env:
                env[n] = C(d.value) if isinstance(d, ast.Constant) else ('f', ('g', fn.mod.name, fn.name), 'default:' + n)
        for n, d in zip(kwonly, a.kw_defaults):
            if n not in env and d is not None:
                env[n] = C(d.value) if isinstance(d, ast.Constant) else ('f', ('g', fn.mod.name, fn.name), 'default:' + n)
        for n in names + kwonly:
            env.setdefault(n, TOP)
        return env

    def inline(self, node, s, fn, args, kw):
        s = s.copy()
        s.frames.append(self.bind(s, fn, args, kw))
        self.callstack.append(fn)
        out = []
        try:
            for s2, k, v in self.block(fn.body, s):
                s2 = s2.copy()
                s2.frames.pop()
                if k == 'next':
                    out.append((s2, NONE))
                elif k == 'return':
                    out.append((s2, v))
                elif k == 'raise':
                    self.exc[-1].append((s2, v))
        finally:
            self.callstack.pop()
        return out

    # ---------------------------------------------------------------- statements
    def block(self, stmts, st):
        cur = [st]
        done = []
        for stm in stmts:
            nxt = []
            for s in cur:
                for s2, k, v in self.stmt(stm, s):
                    if k == 'next':
                        nxt.append(s2)
                    else:
                        done.append((s2, k, v))
            cur = self.dedupe(nxt)
            if not cur:
                break
        return [(s, 'next', None) for s in cur] + done

    def dedupe(self, states):
        if len(states) < 2:
            return states
        seen = {}
        for s in states:
            k = (tuple(tuple(sorted(f.items(), key=repr)) for f in s.frames), frozenset(s.heap.items()),
                 frozenset(s.fields.items()), frozenset(s.facts.items()), frozenset(s.g.items()), frozenset(s.lens.items()))
            seen.setdefault(k, s)
        out = list(seen.values())
        if self.mode == 'refute' and len(out) > self.beam:
            self.thinned = True
            groups = {}
            for s in out:
                groups.setdefault(self.client.thin(self, s), []).append(s)
            share = -(-self.beam // len(groups))
            pick = []
            for g in groups.values():
                step = max(1, len(g) / share)
                pick += [g[int(i * step)] for i in range(min(share, len(g)))]
            out = pick
        return out

    def stmt(self, node, st):
        if not self.tick():
            return []
        m = getattr(self, 's_' + type(node).__name__, None)
        if m is None:
            raise Unsupported(f"{type(node).__name__} at line {node.lineno}")
        self.exc.append([])
        out = m(node, st)
        ex = self.exc.pop()
        return out + [(s, 'raise', v) for s, v in ex]

    def s_Expr(self, node, st):
        if isinstance(node.value, (ast.Yield, ast.YieldFrom)):
            raise Unsupported('yield')
        return [(s, 'next', None) for s, _ in self.eval(node.value, st)]

    def s_Pass(self, node, st):
        return [(st, 'next', None)]

    def s_Import(self, node, st):
        return [(st, 'next', None)]

    s_ImportFrom = s_Import
    s_Global = s_Import
    s_Nonlocal = s_Import

    def s_FunctionDef(self, node, st):
        st = st.copy()
        st.env[node.name] = ('app', 'closure', C(node.name))
        return [(st, 'next', None)]

    s_ClassDef = s_FunctionDef

    def s_Delete(self, node, st):
        st = st.copy()
        for t in node.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                outs = self.eval(t.value, st)
                st = outs[0][0].copy()
                b = outs[0][1]
                if b in st.heap:
                    st.heap[b] = self.fresh('mutated', st.heap[b])
                else:
                    st.fields[(b, '#ver')] = self.fresh('v')
        return [(st, 'next', None)]

    def s_Return(self, node, st):
        if node.value is None:
            outs = [(st, NONE)]
        else:
            outs = self.eval(node.value, st)
        res = []
        for s, v in outs:
            if len(self.callstack) == 1:
                s = s.copy()
                s.g['%ret'] = C(node.lineno)
            res.append((s, 'return', v))
        return res

    def s_Break(self, node, st):
        return [(st, 'break', None)]

    def s_Continue(self, node, st):
        return [(st, 'continue', None)]

    def s_Raise(self, node, st):
        if node.exc is None:
            return [(st, 'raise', TOP)]
        name = ''
        e = node.exc
        if isinstance(e, ast.Call):
            e = e.func
        try:
            name = ast.unparse(e)
        except Exception:
            pass
        return [(st, 'raise', ('app', 'exc', C(name)))]

    def s_Assert(self, node, st):
        return [(s, 'next', None) for s, b in self.branch(node.test, st) if b]

    def s_If(self, node, st):
        out = []
        for s, b in self.branch(node.test, st):
            body = node.body if b else node.orelse
            out += self.block(body, s) if body else [(s, 'next', None)]
        return out

    def s_With(self, node, st):
        cur = [st]
        for it in node.items:
            nxt = []
            for s in cur:
                for s2, v in self.eval(it.context_expr, s):
                    nxt += self.assign(s2, it.optional_vars, v) if it.optional_vars is not None else [s2]
            cur = nxt
        out = []
        for s in cur:
            out += self.block(node.body, s)
        return out

    def s_Try(self, node, st):
        outs = []
        res = self.block(node.body, st)
        entries = []
        for s, k, v in res:
            if k == 'raise' and node.handlers:
                entries.append(s)
            elif k == 'next' and node.orelse:
                outs += self.block(node.orelse, s)
            else:
                outs.append((s, k, v))
        if node.handlers:
            entries.append(st)
        for s in entries:
            for h in node.handlers:
                s2 = s.copy()
                if len(s2.frames) > len(st.frames):
                    del s2.frames[len(st.frames):]
                if h.name:
                    s2.env[h.name] = self.fresh('exception')
                outs += self.block(h.body, s2)
        if node.finalbody:
            fin = []
            for s, k, v in outs:
                for s2, k2, v2 in self.block(node.finalbody, s):
                    fin.append((s2, k, v) if k2 == 'next' else (s2, k2, v2))
            outs = fin
        return outs

    def s_Assign(self, node, st):
        out = []
        for s, v in self.eval(node.value, st):
            cur = [s]
            for t in node.targets:
                nxt = []
                for x in cur:
                    nxt += self.assign(x, t, v)
                cur = nxt
            out += [(x, 'next', None) for x in cur]
        return out

    def s_AnnAssign(self, node, st):
        if node.value is None:
            return [(st, 'next', None)]
        return [(x, 'next', None) for s, v in self.eval(node.value, st) for x in self.assign(s, node.target, v)]

    def s_AugAssign(self, node, st):
        load = ast.copy_location(ast.Expression(), node)
        out = []
        t = node.target
        if isinstance(t, ast.Name):
            for s, (old, v) in [(s, (s.env.get(t.id, TOP), v)) for s, v in self.eval(node.value, st)]:
                if old in s.heap and isinstance(node.op, ast.Add):
                    s = s.copy()
                    s.heap[old] = concat(s.heap[old], self.itercontent(s, v))
                    out.append((s, 'next', None))
                    continue
                s, r = self.binop(s, node.op, old, v)
                s = s.copy()
                s.env[t.id] = r
                out.append((s, 'next', None))
            return out
        if isinstance(t, ast.Attribute):
            for s, (o, v) in self.evals([t.value, node.value], st):
                old = self.client.attr(self, s, node, o, t.attr) or self.getfield(s, o, t.attr)
                if old in s.heap and isinstance(node.op, ast.Add):
                    s = s.copy()
                    s.heap[old] = concat(s.heap[old], self.itercontent(s, v))
                    out.append((s, 'next', None))
                    continue
                s, r = self.binop(s, node.op, old, v)
                for x in self.store_attr(s, o, t.attr, r, node):
                    out.append((x, 'next', None))
            return out
        for s, (b, k, v) in self.evals([t.value, t.slice, node.value], st):
            s = s.copy()
            self.client.augitem(self, s, node, b, k, v)
            old = s.fields.get((b, '[]', k))
            if old is not None:
                s, r = self.binop(s, node.op, old, v)
                s = s.copy()
                s.fields[(b, '[]', k)] = r
            else:
                s.fields[(self.content(s, b), '#ver')] = self.fresh('v')
            out.append((s, 'next', None))
        return out

    def store_attr(self, s, o, name, v, node):
        s = s.copy()
        s.fields[(o, name)] = v
        self.client.store(self, s, node, o, name, v)
        return [s]

    def assign(self, s, t, v):
        """[states]"""
        if isinstance(t, ast.Name):
            s = s.copy()
            s.env[t.id] = v
            return [s]
        if isinstance(t, ast.Starred):
            s = s.copy()
            if isinstance(t.value, ast.Name):
                s.env[t.value.id] = TOP
            return [s]
        if isinstance(t, (ast.Tuple, ast.List)):
            c = self.content(s, v)
            cur = [s]
            for i, e in enumerate(t.elts):
                cur = [y for x in cur for y in self.assign(x, e, index(c, C(i)))]
            return cur
        if isinstance(t, ast.Attribute):
            return [y for s2, o in self.eval(t.value, s) for y in self.store_attr(s2, o, t.attr, v, t)]
        if isinstance(t, ast.Subscript):
            out = []
            if isinstance(t.slice, ast.Slice):
                for s2, b in self.eval(t.value, s):
                    s2 = s2.copy()
                    if b in s2.heap:
                        s2.heap[b] = self.fresh('mutated', s2.heap[b])
                    out.append(s2)
                return out
            for s2, (b, k) in self.evals([t.value, t.slice], s):
                s2 = s2.copy()
                self.client.setitem(self, s2, t, b, k, v)
                c = self.content(s2, b)
                if b in s2.heap:
                    k2 = self.norm_int(s2, k)
                    if c[0] == 'seq' and all(p[0] == 'e' for p in c[1]) and k2[0] == 'c' and is_int(k2) and \
                            -len(c[1]) <= k2[2] < len(c[1]):
                        l = list(c[1])
                        l[k2[2]] = ('e', v)
                        s2.heap[b] = ('seq', tuple(l))
                    else:
                        s2.heap[b] = self.fresh('mutated', c)
                else:
                    for kk in [kk for kk in s2.fields if kk[0] == b and len(kk) == 3]:
                        if k[0] != 'c' or kk[2][0] != 'c':
                            del s2.fields[kk]
                    s2.fields[(c, '#ver')] = self.fresh('v')
                    s2.fields[(b, '[]', k)] = v
                out.append(s2)
            return out
        raise Unsupported('assignment target')

    # ---------------------------------------------------------------- loops
    def s_For(self, node, st):
        out = []
        for s, it in self.eval(node.iter, st):
            out += self.for_loop(s, it, node.target, lambda x: self.block(node.body, x), node.orelse, node)
        return out

    def iter_desc(self, st, it):
        c = self.content(st, it)
        if c[0] == 'app' and c[1] == 'range':
            return isub(c[3], c[2]), lambda s, k: iadd(c[2], k)
        if c[0] == 'app' and c[1] == 'enumerate':
            n, el = self.iter_desc(st, c[2])
            return n, lambda s, k: mk_pair(iadd(c[3], k), el(s, k))
        if c[0] == 'app' and c[1] == 'zip':
            ds = [self.iter_desc(st, x) for x in c[2:]]
            return ds[0][0] if ds else ZERO, lambda s, k: mk_pair(*[d[1](s, k) for d in ds])
        if c[0] == 'app' and c[1] == 'keys':
            c = self.version(st, c)
        if self.mode == 'refute':
            return length(c), lambda s, k: index(self.resolve(s, c), k)
        c = plain(c)
        if c[0] == 'seq' and len(c[1]) > 1 and not all(p[0] == 'e' for p in c[1]):
            return length(c), lambda s, k: ('idx', c, k)
        return length(c), lambda s, k: index(c, k)

    def for_loop(self, st, it, target, body, orelse, node):
        n, el = self.iter_desc(st, it)
        if self.mode == 'refute':
            return self.for_refute(st, it, n, el, target, body, orelse)
        nn = self.norm_int(st, n)
        if nn[0] == 'c' and is_int(nn) and nn[2] <= 4:
            return self.for_exact(st, nn[2], el, target, body, orelse)
        return self.for_prove(st, n, el, target, body, orelse, node)

    def finish_else(self, states, orelse):
        out = []
        for s in states:
            out += self.block(orelse, s) if orelse else [(s, 'next', None)]
        return out

    def for_exact(self, st, n, el, target, body, orelse):
        cur, out = [st], []
        for k in range(n):
            nxt = []
            for s in cur:
                for s1 in self.assign(s, target, el(s, C(k))):
                    for s2, kd, v in body(s1):
                        if kd in ('next', 'continue'):
                            nxt.append(s2)
                        elif kd == 'break':
                            out.append((s2, 'next', None))
                        else:
                            out.append((s2, kd, v))
            cur = self.dedupe(nxt)
        return self.finish_else(cur, orelse) + out

    def for_refute(self, st, it, n, el, target, body, orelse):
        out = []
        c = self.content(st, it)
        lens = [n]
        if c[0] == 'app' and c[1] == 'zip':
            lens = [self.iter_desc(st, x)[0] for x in c[2:]]
        states = [st]
        for l in lens:
            states = [s2 for s in states for s2 in self.fix_len(s, l)]
        for s in states:
            k = min(self.norm_int(s, l)[2] for l in lens) if lens else 0
            if k > 8:
                self.truncated = True
                continue
            out += self.for_exact(s, max(0, k), el, target, body, orelse)
        return out

    def for_prove(self, st, n, el, target, body, orelse, node):
        lid = next(self.n)
        jv = '%j' + str(lid)
        H = st.copy()
        H.env[jv] = ZERO

        def once(h):
            backs, outs = [], []
            j = h.env[jv]
            for s1 in self.assign(h, target, el(h, j)):
                for s2, kd, v in body(s1):
                    if kd in ('next', 'continue'):
                        s2 = s2.copy()
                        s2.env[jv] = iadd(s2.env[jv], ONE)
                        backs.append(s2)
                    elif kd == 'break':
                        outs.append((s2, 'next', None))
                    else:
                        outs.append((s2, kd, v))
            return backs, outs
        res = []
        for H, outs in self.fixpoint(H, once, lid):
            ex = H.copy()
            j = ex.env.pop(jv)
            if j != n and n[0] != 'top':
                if j[0] == 's' and j[2] == 'LI':
                    ex = subst_state(ex, j, n)
            for s, k, v in outs:
                s.env.pop(jv, None) if len(s.frames) == len(st.frames) else None
            res += self.finish_else([ex], orelse) + outs
        return res

    def s_While(self, node, st):
        if self.client.at_loop(self, st, node):
            return []
        infinite = isinstance(node.test, ast.Constant) and node.test.value
        if self.mode == 'refute':
            cur, out, exits = [st], [], []
            for k in range(self.k + 1):
                nxt = []
                for s in cur:
                    for s1, b in self.branch(node.test, s):
                        if not b:
                            exits.append(s1)
                            continue
                        if k == self.k:
                            continue
                        for s2, kd, v in self.block(node.body, s1):
                            if kd in ('next', 'continue'):
                                nxt.append(s2)
                            elif kd == 'break':
                                out.append((s2, 'next', None))
                            else:
                                out.append((s2, kd, v))
                cur = self.dedupe(nxt)
            return self.finish_else(exits, node.orelse) + out
        lid = next(self.n)

        def once(h):
            backs, outs = [], []
            for s1, b in self.branch(node.test, h.copy()):
                if not b:
                    continue
                for s2, kd, v in self.block(node.body, s1):
                    if kd in ('next', 'continue'):
                        backs.append(s2)
                    elif kd == 'break':
                        outs.append((s2, 'next', None))
                    else:
                        outs.append((s2, kd, v))
            return backs, outs
        res = []
        for H, outs in self.fixpoint(st.copy(), once, lid):
            exits = [] if infinite else [s for s, b in self.branch(node.test, H.copy()) if not b]
            res += self.finish_else(exits, node.orelse) + outs
        return res

    def fixpoint(self, H, once, lid, parts_left=3):
        """H: head state.  Returns [(invariant head, outcomes leaving the loop from that head)]; the paths are partitioned
        by the truth of conditions that do not change in the loop."""
        H0 = H
        for it in range(12):
            self.client.mute += 1
            try:
                self.exc.append([])
                backs, outs = once(H)
                self.exc.pop()
                for b in backs:
                    self.client.settle(self, b)
            finally:
                self.client.mute -= 1
            if it == 0 and parts_left and len(backs) > 1:
                k = self.partition_fact(H0, backs, lid)
                if k is not None:
                    res = []
                    for val in (True, False):
                        h = H0.copy()
                        h.facts[k] = val
                        if k[0] == 'eq' and val:
                            for x, y in ((k[1], k[2]), (k[2], k[1])):
                                if x[0] == 'c':
                                    h.facts[('val', y)] = x
                        res += self.fixpoint(h, once, lid, parts_left - 1)
                    return res
            H2 = H
            for b in backs:
                H2 = self.au(H2, b, lid, len(H.frames))
            if self.canon(H2, lid) == self.canon(H, lid) and set(H2.facts.items()) == set(H.facts.items()):
                H = H2
                break
            H = H2
        else:
            raise Unsupported('loop invariant not found')
        # final pass from the invariant, reporting
        self.exc.append([])
        backs, outs = once(H)
        ex = self.exc.pop()
        return [(H, outs + [(s, 'raise', v) for s, v in ex])]

    def partition_fact(self, H, backs, lid):
        vals = {}
        for b in backs:
            for k, v in b.facts.items():
                if k in H.facts or k[0] not in ('eq', 't') or not isinstance(v, bool):
                    continue
                if k[0] == 'eq' and not any(x[0] == 'c' for x in k[1:]):
                    continue
                if stable(k, lid) and not any(x and x[0] == 'ver' for x in walk(k)):
                    vals.setdefault(k, set()).add(v)
        c = sorted((k for k, v in vals.items() if len(v) == 2), key=repr)
        return c[0] if c else None

    # ---------------------------------------------------------------- anti-unification
    def au(self, A, B, lid, nframes):
        R = St()
        memo = {}

        def sym(kind, a, b):
            k = (kind, a, b)
            if k not in memo:
                memo[k] = ('s', next(self.n), 'LI' if kind == 'int' else 'L', lid)
            return memo[k]

        def au_int(a, b):
            if a == b:
                return a
            ca, da = as_lin(a)
            cb, db = as_lin(b)
            common = {}
            for x, v in da.items():
                if db.get(x) == v and not owned(x, lid):
                    common[x] = v
            ra = mk_lin(0, {x: v for x, v in da.items() if x not in common})
            rb = mk_lin(cb - ca, {x: v for x, v in db.items() if x not in common})
            if ra == rb:
                return a
            return iadd(mk_lin(ca, common), sym('int', ra, rb))

        def au_seq(a, b):
            pa, pb = list(parts(a)), list(parts(b))
            out = []
            while pa and pb:
                p, q = pa[0], pb[0]
                if p == q:
                    if p[0] == 'sl' and owned(p[1], lid):
                        break
                    if p[0] == 'e' and p[1] in A.heap:
                        break
                    out.append(p)
                elif p[0] == q[0] == 'sl' and p[1] == q[1] and p[2] == q[2] and stable(p[1], lid):
                    out.append(('sl', p[1], p[2], au_int(p[3], q[3])))
                elif p[0] == q[0] == 'rep' and p[1] == q[1] and p[2] == q[2]:
                    out.append(('rep', p[1], p[2], au_int(p[3], q[3])))
                elif p[0] == q[0] == 'e' and len(pa) == len(pb):
                    out.append(('e', au_term(p[1], q[1])))
                else:
                    break
                pa.pop(0), pb.pop(0)
            if not pa and not pb:
                return mk_seq(tuple(out))
            if not pa and len(pb) == 1 and pb[0][0] == 'sl' and stable(pb[0][1], lid) and pb[0][2] == ZERO:
                q = pb[0]
                return mk_seq(tuple(out) + (('sl', q[1], q[2], au_int(q[2], q[3])),))
            if not pa and pb:
                ch = chunk(pb)
                if ch is not None and stable(ch, lid):
                    return mk_seq(tuple(out) + (('rep', ch, ZERO, au_int(ZERO, ONE)),))
            s = sym('seq', tuple(pa), tuple(pb))
            return mk_seq(tuple(out) + (('sl', s, ZERO, au_int(mk_len(pa), mk_len(pb))),))

        def au_term(a, b):
            if a == b and a not in A.heap and a not in B.heap:
                return a
            if a == TOP or b == TOP:
                return TOP
            if a in A.heap and b in B.heap:
                if a == b:
                    if a not in R.heap:
                        R.heap[a] = TOP
                        R.heap[a] = au_seq_or(A.heap[a], B.heap[b])
                    return a
                k = ('ref', a, b)
                if k not in memo:
                    r = memo[k] = ('r', next(self.n))
                    R.heap[r] = au_seq_or(A.heap[a], B.heap[b])
                return memo[k]
            if a in A.heap or b in B.heap:
                return TOP
            return au_seq_or(a, b)

        def au_seq_or(a, b):
            if a == b and not any(x in A.heap for x in walk(a) if isinstance(x, tuple)):
                return a
            if TOP in (a, b):
                return TOP
            if a[0] == 'c' and b[0] == 'c' and not (is_int(a) and is_int(b)):
                return sym('t', a, b)
            if a[0] == 'seq' or b[0] == 'seq' or (a[0] == 'app' and a[1] == '+') or (b[0] == 'app' and b[1] == '+'):
                if a[0] == 'c' or b[0] == 'c':
                    return sym('t', a, b)
                if is_int(a) or is_int(b):
                    return au_int(a, b)
                return au_seq(a, b)
            if is_int(a) or is_int(b):
                if a[0] in ('c',) and not is_int(a) or b[0] == 'c' and not is_int(b):
                    return sym('t', a, b)
                return au_int(a, b)
            return sym('t', a, b)

        R.frames = []
        for fa, fb in zip(A.frames[:nframes], B.frames[:nframes]):
            f = {}
            for k in fa:
                if k in fb:
                    f[k] = au_term(fa[k], fb[k])
                elif not k.startswith('%'):
                    f[k] = TOP
            for k in fb:
                if k not in fa and not k.startswith('%'):
                    f[k] = TOP
            R.frames.append(f)
        for k in set(A.g) | set(B.g):
            R.g[k] = au_term(A.g.get(k, TOP), B.g.get(k, TOP))
        for k in list(A.fields) + [x for x in B.fields if x not in A.fields]:
            if not stable(k[0], lid) and k[0] not in A.heap:
                continue
            if len(k) == 3:
                if k in A.fields and k in B.fields:
                    R.fields[k] = au_term(A.fields[k], B.fields[k])
                continue
            if k[1] == '#ver':
                if A.fields.get(k) == B.fields.get(k):
                    R.fields[k] = A.fields[k]
                else:
                    R.fields[k] = sym('ver', k[0], C('v'))
                continue
            if k[0] in A.heap or k[0] in B.heap or k[0][0] in ('r', 'd'):
                if k in A.fields and k in B.fields:
                    R.fields[k] = au_term(A.fields[k], B.fields[k])
                continue
            R.fields[k] = au_term(A.fields.get(k, ('f',) + k), B.fields.get(k, ('f',) + k))
        # heap cells of caller-visible lists
        for k in set(A.heap) | set(B.heap):
            if k[0] == 'r' or k in R.heap:
                continue
            R.heap[k] = au_seq_or(A.heap.get(k, k), B.heap.get(k, k))
        R.facts = {k: v for k, v in A.facts.items() if B.facts.get(k) == v and not any(owned(x, lid) for x in walk(k))}
        R.log = A.log
        return R

    def canon(self, st, lid):
        names = {}

        def ren(t):
            if not isinstance(t, tuple):
                return t
            if t in st.heap:
                if t in names:
                    return names[t]
                names[t] = ('R', len(names))
                return (names[t], ren(st.heap[t]))
            if owned(t, lid):
                return names.setdefault(t, ('L', len(names)))
            if t and t[0] == 'lin':
                own = [(a, v) for a, v in t[2] if owned(a, lid)]
                rest = tuple((ren(a), v) for a, v in t[2] if not owned(a, lid))
                return ('lin', t[1], rest, tuple(sorted((ren(a), v) for a, v in own)))
            return tuple(ren(x) for x in t)
        return (tuple(tuple((k, ren(f[k])) for k in sorted(f)) for f in st.frames),
                tuple((k, ren(st.g[k])) for k in sorted(st.g)),
                tuple((repr(k) if not any(owned(x, lid) or (isinstance(x, tuple) and x and x[0] in ('r', 'd')) for x in walk(k))
                       else '?', ren(v)) for k, v in sorted(st.fields.items(), key=lambda kv: repr(kv[0]))
                      if k[1] != '#ver' and k[0][0] not in ('r', 'd')),
                tuple((k, ren(st.heap[k])) for k in sorted((x for x in st.heap if x[0] != 'r'), key=repr)))

    # ---------------------------------------------------------------- entry
    def run(self, fn, args, st):
        st.frames = [self.bind(st, fn, args, {})]
        self.callstack = [fn]
        self.exc = [[]]
        return self.block(fn.body, st)


def owned(t, lid):
    return isinstance(t, tuple) and len(t) == 4 and t[0] == 's' and t[2] in ('L', 'LI') and t[3] == lid


def stable(t, lid):
    """the term was built before loop lid started"""
    for x in walk(t):
        if len(x) >= 2 and (x[0] == 's' and isinstance(x[1], int) and x[1] >= lid or
                            x[0] == 'call' and x[2][2] <= -lid):
            return False
    return True


def mk_pair(*xs):
    return ('seq', tuple(('e', x) for x in xs))


def mk_seq_raw(ps):
    """no merging: elements stay elements (known lengths)"""
    return ('seq', tuple(ps))


def min_len(ps):
    n = 0
    for p in ps:
        if p[0] == 'e':
            n += 1
        else:
            l = part_len(p)
            if l[0] == 'c':
                n += l[2]
            elif l[0] == 'lin' and l[1] > 0 and all(v > 0 for _, v in l[2]):
                n += l[1]
    return n


def chunk(ps):
    """parts with indices 0 -> chunk over kappa"""
    out = []
    for p in ps:
        if p[0] == 'e':
            t = p[1]
        elif p[0] == 'sl' and p[2] == ZERO and p[3] == ONE:
            t = ('idx', p[1], ZERO)
        else:
            return None
        t2 = abstract_zero(t)
        if t2 == t:
            return None
        out.append(t2)
    return tuple(out)


def abstract_zero(t):
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'idx' and t[2] == ZERO:
        return ('idx', t[1], KAPPA)
    if t and t[0] == 'seq':
        ps = []
        for p in t[1]:
            if p[0] == 'e':
                ps.append(('e', abstract_zero(p[1])))
            elif p[0] == 'sl' and p[2] == ZERO and p[3] == ONE:
                ps.append(('e', ('idx', p[1], KAPPA)))
            else:
                return t
        return ('seq', tuple(ps))
    return t


def subst_term(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        r = tuple(subst_term(x, a, b) for x in t)
        return rebuild(r) if r != t else t
    return t


def subst_state(st, a, b):
    s = st.copy()
    s.frames = [{k: subst_term(v, a, b) for k, v in f.items()} for f in s.frames]
    s.heap = {k: subst_term(v, a, b) for k, v in s.heap.items()}
    s.fields = {subst_term(k, a, b): subst_term(v, a, b) for k, v in s.fields.items()}
    s.facts = {subst_term(k, a, b): v for k, v in s.facts.items()}
    s.g = {k: subst_term(v, a, b) for k, v in s.g.items()}
    return s


def unknown(t):
    return t[0] in ('top',) or t[0] == 'app' or (t[0] == 's' and len(t) > 3)


# results of calls that the clients observe: never the same as something else
DISTINCT = {'!sulout', '!hypout', '!node', '!new', '!lookup'}


def mentions_through_call(a, b):
    """a occurs below an unresolved application inside b"""
    for x in walk(b):
        if isinstance(x, tuple) and x and x[0] in ('call', 'app') and x is not a and x[1] not in DISTINCT:
            for y in walk(x):
                if y == a and y is not x:
                    return True
    base = a[1] if a[0] == 'idx' else None
    if base is not None and b[0] == 'idx':
        # elements of two sequences, one computed from the other
        x, y = base, b[1]
        return any(z == x for z in walk(y)) or any(z == y for z in walk(x))
    return False


def mutates_param(fn, p):
    names = {p}
    for n in ast.walk(fn):
        if isinstance(n, ast.Attribute) and n.attr in ANY_MUT and isinstance(n.value, ast.Name) and n.value.id in names:
            return True
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) \
                and n.value.id in names:
            return True
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in names:
            return True
        if isinstance(n, ast.Call) and any(isinstance(x, ast.Name) and x.id in names for x in n.args) and \
                isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self':
            return True
    return False


class Client:
    TRACKED = set()

    def at_loop(self, it, st, node):
        return False

    def settle(self, it, st):
        """called at the end of every round of a loop: forget what is settled"""

    def __init__(self):
        self.mute = 0

    def attr(self, it, st, node, obj, name):
        return None

    def store(self, it, st, node, obj, name, val):
        pass

    def setitem(self, it, st, node, b, k, v):
        pass

    def augitem(self, it, st, node, b, k, v):
        pass

    def compare(self, it, st, node, a, b):
        pass

    def call(self, it, st, node, recv, name, args, kw):
        return None

    def method(self, it, name, sup, node):
        return None

    def resolve_method(self, it, st, node, recv, name):
        return None

    def function(self, it, node, name):
        return None

    def summary(self, it, st, node, fn, args, kw):
        return None

    def thin(self, it, st):
        """exact paths are thinned evenly over these classes"""
        return ()

    def always_inline(self, fn):
        return False
