"""Element-wise abstract interpretation of conversions of automata (exporters, importers, writers, loaders).

The automaton converted is not an example but a schema: a list of states over a binder s, in each state transitions over a
binder k, and so on. Every field of it is an opaque term over its binders. A loop or comprehension over such a collection is
interpreted once, for its binder; what it stores becomes an entry of the target collection that carries the binders and the
undecided conditions under which it is stored. The only facts about terms used are that identifiers of states and inputs of a
state are unique. Text is a sequence of literal characters and opaque words ("tokens"); string operations are applied with
each token replaced by a fresh word of the same character class and the result is read back.
"""
import ast
import re

from .program import AnalysisBroken


class Bail(Exception):
    """A construct this interpretation does not cover: the result is undecided, never an alarm."""
    def __init__(self, msg, node=None):
        super().__init__(msg)
        self.node = node


class Crash(Exception):
    """An operation that fails for every element (missing key, method of a wrong type, raise)."""
    def __init__(self, msg, node=None):
        super().__init__(msg)
        self.node = node


class T:
    """opaque term"""
    __slots__ = ('op', 'args')

    def __init__(self, op, *args):
        self.op, self.args = op, args

    def __eq__(self, o):
        return isinstance(o, T) and self.op == o.op and self.args == o.args

    def __hash__(self):
        return hash((self.op, self.args))

    def __repr__(self):
        if self.op == 'b':
            return f'{self.args[1]}{self.args[0]}'
        return self.op if not self.args else f'{self.op}({", ".join(map(repr, self.args))})'


INIT = T('INIT')
STATES = T('STATES')


class Str:
    """text: literal parts and tokens"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __eq__(self, o):
        return isinstance(o, Str) and self.parts == o.parts

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return ''.join(p if isinstance(p, str) else '<' + repr(p) + '>' for p in self.parts)


class Ref:
    """an object created once per value of its binders, seen at a value of these"""
    __slots__ = ('obj', 'sub')

    def __init__(self, obj, sub):
        self.obj, self.sub = obj, sub

    def __eq__(self, o):
        return isinstance(o, Ref) and self.obj is o.obj and self.sub == o.sub

    def __hash__(self):
        return hash((id(self.obj), self.sub))

    def __repr__(self):
        return f'{self.obj!r}[{", ".join(f"{b}={t}" for b, t in self.sub)}]'


class Alt:
    """a value that depends on undecided conditions: options (guards, value)"""
    def __init__(self, options):
        self.options = tuple(options)

    def __eq__(self, o):
        return isinstance(o, Alt) and self.options == o.options

    def __hash__(self):
        return hash(self.options)

    def __repr__(self):
        return 'alt(' + ' | '.join(f'{g}: {v}' for g, v in self.options) + ')'


class Obj:
    n = 0

    def __init__(self, kind, ctx, cls=None):
        Obj.n += 1
        self.n = Obj.n
        self.kind, self.ctx, self.cls = kind, ctx, cls
        self.fields = {}          # name -> [(items, value)]
        self.entries = []         # Entry, containers only
        self.default = None       # default factory value (dict)
        self.attrs = {}           # analysis data

    def __repr__(self):
        return f'{self.cls.name if self.cls is not None and hasattr(self.cls, "name") else self.kind}#{self.n}'


class Entry:
    """items: binders ('bind', b, domain) and guards ('if', atom, bool) beyond the container's own"""
    __slots__ = ('items', 'key', 'value')

    def __init__(self, items, key, value):
        self.items, self.key, self.value = tuple(items), key, value

    def __repr__(self):
        return f'<{self.items} {self.key}: {self.value}>'


class Func:
    def __init__(self, node, env=None, self_val=None, cls=None):
        self.node, self.env, self.self_val, self.cls = node, env, self_val, cls

    def __repr__(self):
        return f'func {getattr(self.node, "name", "lambda")}'


class Cls:
    def __init__(self, node):
        self.node = node
        self.name = node.name

    def __eq__(self, o):
        return isinstance(o, Cls) and o.node is self.node

    def __hash__(self):
        return hash(id(self.node))

    def __repr__(self):
        return self.name


class Ext:
    """name of something outside the package"""
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return self.name


class Bound:
    """method of a built-in value"""
    def __init__(self, val, name):
        self.val, self.name = val, name


class Unknown(T):
    n = 0

    def __init__(self, why=''):
        Unknown.n += 1
        super().__init__('?', Unknown.n, why)


def is_unknown(v):
    return isinstance(v, T) and v.op == '?'


def subst(v, s):
    if not s:
        return v
    if isinstance(v, T):
        if v in s:
            return s[v]
        if not v.args or v.op in ('b', '?'):
            return v
        return T(v.op, *[subst(a, s) for a in v.args])
    if isinstance(v, tuple):
        return tuple(subst(x, s) for x in v)
    if isinstance(v, Str):
        return Str(subst(p, s) for p in v.parts)
    if isinstance(v, Ref):
        return Ref(v.obj, tuple((b, subst(t, s)) for b, t in v.sub))
    if isinstance(v, Alt):
        return Alt((subst_items(g, s), subst(x, s)) for g, x in v.options)
    return v


def subst_items(items, s):
    out = []
    for it in items:
        if it[0] == 'bind':
            out.append(('bind', s.get(it[1], it[1]), subst(it[2], s)))
        else:
            out.append(('if', subst(it[1], s), it[2]) + tuple(it[3:]))      # a fourth part marks a precondition
    return tuple(out)


def binders_in(v, acc=None):
    acc = set() if acc is None else acc
    if isinstance(v, T):
        if v.op == 'b':
            acc.add(v)
        else:
            for a in v.args:
                binders_in(a, acc)
    elif isinstance(v, tuple):
        for x in v:
            binders_in(x, acc)
    elif isinstance(v, Str):
        for p in v.parts:
            binders_in(p, acc)
    elif isinstance(v, Ref):
        for _, t in v.sub:
            binders_in(t, acc)
    elif isinstance(v, Alt):
        for g, x in v.options:
            binders_in(x, acc)
            for it in g:
                binders_in(it[1], acc)
    return acc


def unify(pat, val, free, s):
    """most general binding of the free binders in pat, or None"""
    if isinstance(pat, T) and pat in free:
        if pat in s:
            return s if s[pat] == val else None
        if not isinstance(val, T):
            return None
        s = dict(s)
        s[pat] = val
        return s
    if isinstance(pat, T) and isinstance(val, T):
        if pat == val:
            return s
        if pat.op == 'b' or val.op == 'b' or pat.op != val.op or len(pat.args) != len(val.args):
            return None
        for a, b in zip(pat.args, val.args):
            s = unify(a, b, free, s)
            if s is None:
                return None
        return s
    if isinstance(pat, tuple) and isinstance(val, tuple) and len(pat) == len(val):
        for a, b in zip(pat, val):
            s = unify(a, b, free, s)
            if s is None:
                return None
        return s
    if isinstance(pat, Str) and isinstance(val, Str):
        return unify(pat.parts, val.parts, free, s)
    if isinstance(pat, Ref) and isinstance(val, Ref) and pat.obj is val.obj:
        return unify(tuple(t for _, t in pat.sub), tuple(t for _, t in val.sub), free, s)
    return s if type(pat) is type(val) and pat == val else None


ATOMS = {'is', 'acc', 'nonempty', 'in', 'has', 'frontier', 'complete'}
STATE_OPS = ('INIT', 'tgt', 'first')


def could_equal(a, b):
    """None: may be equal; False: never"""
    if isinstance(a, T) and isinstance(b, T):
        if a.op == b.op and a.args and a.op in ('sid', 'key'):
            return None
        if {a.op, b.op} <= {'sid', 'key', 'out', 'prob', 'acc', 'guard', 'top', 'prefix', 'pos'} and a.op != b.op:
            return False
        return None
    if isinstance(a, (T, Str)) and isinstance(b, str):
        return False           # tokens are ordinary words, not the literals of the code
    if isinstance(b, (T, Str)) and isinstance(a, str):
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        if any(could_equal(x, y) is False for x, y in zip(a, b)):
            return False
        return None
    if isinstance(a, (T, Ref, Str, tuple)) or isinstance(b, (T, Ref, Str, tuple)):
        return None if isinstance(a, T) and isinstance(b, T) else (None if type(a) is type(b) else False)
    return False


class State:
    """env is a chain of dicts; ctx the binders and guards in force"""
    __slots__ = ('env', 'ctx')

    def __init__(self, env, ctx):
        self.env, self.ctx = env, ctx

    def fork(self):
        return State(self.env.copy(), self.ctx)


class Env:
    __slots__ = ('vars', 'up', 'mod', 'cls', 'nonlocals')

    def __init__(self, vars, up, mod, cls=None):
        self.vars, self.up, self.mod, self.cls, self.nonlocals = vars, up, mod, cls, set()

    def copy(self):
        e = Env(dict(self.vars), self.up, self.mod, self.cls)
        e.nonlocals = self.nonlocals
        return e


PURE_PY = {'len': len, 'abs': abs, 'min': min, 'max': max, 'sum': sum}
SAFE_STR = {'strip', 'lstrip', 'rstrip', 'split', 'rsplit', 'isdigit', 'isnumeric', 'isdecimal', 'lower', 'upper', 'replace',
            'startswith', 'endswith', 'find', 'rfind', 'index', 'count', 'partition', 'rpartition', 'splitlines', 'join',
            'removeprefix', 'removesuffix', 'isalpha', 'isalnum', 'isspace', 'encode', 'casefold'}
IGNORED_CALLS = {'print', 'warnings.warn', 'webbrowser.open', 'traceback.print_exc', 'gc.collect'}


UNIQUE = {'sid', 'key', 'osym', 'pos', 'prefix'}     # terms that differ for different last arguments


def injective(k, sure):
    """adds the binders that the value k determines"""
    if isinstance(k, T) and k.op in UNIQUE and isinstance(k.args[-1], T) and k.args[-1].op == 'b':
        sure.add(k.args[-1])
    elif isinstance(k, T) and k.op == 'row':
        injective(k.args[0], sure)
    elif isinstance(k, tuple):
        for x in k:
            injective(x, sure)
    elif isinstance(k, Str):
        for x in k.parts:
            injective(x, sure)
    elif isinstance(k, Ref):
        for _, t in k.sub:
            if isinstance(t, T) and t.op == 'b':
                sure.add(t)


class Machine:
    """one interpretation: `digit` – tokens are non-negative integers; `acc` – known truth of the acceptance of a
    generic state (None: opaque)"""

    def __init__(self, prog, digit=False, acc=None, steps=400000):
        self.prog, self.digit, self.acc = prog, digit, acc
        self.words = set()        # fields that are words even if `digit`
        self.filled = False       # collections are not empty
        self.shape = None         # beginning of the words that stand for inputs, outputs and stack symbols
        self.steps = steps
        self.samples, self.unsamples = {}, {}
        self.nb = 0
        self.notes = []
        self.files = {}
        self.calls = set()
        self.depth = 0
        self.cfg_cache = {}
        self.models = {}          # method name -> handler(machine, self_val, args, kwargs, st, node)
        self.visited = set()
        self.preconditions = False    # what is raised about an input is a precondition of the rest
        self.truths = {}          # atom -> bool fixed for the run

    # ---------------------------------------------------------------- binders and items
    def binder(self, name):
        self.nb += 1
        return T('b', self.nb, name)

    def new(self, kind, st, cls=None):
        o = Obj(kind, st.ctx, cls)
        return Ref(o, tuple((it[1], it[1]) for it in st.ctx if it[0] == 'bind'))

    def rename_in(self, ref, st, also=()):
        """(substitution current -> canonical frame of ref.obj, items of the current context beyond the object's own)"""
        inv = {}
        for b, t in ref.sub:
            if isinstance(t, T) and t.op == 'b':
                if t in inv and inv[t] != b:
                    raise Bail('object seen twice through one element')
                inv[t] = b
            elif t == INIT:
                pass
            elif isinstance(t, T) and t.op in ('tgt', 'first', '?', 'other'):
                raise Bail('object written through a transition target')
        # points: binders bound to INIT
        point = [('if', T('is', *sorted((b, INIT), key=repr)), True) for b, t in ref.sub if t == INIT]
        own = set(ref.obj.ctx)
        items = []
        for it in subst_items(st.ctx, inv):
            if it[0] == 'bind':
                if any(it[1] == b for b, _ in ref.sub):
                    continue
                items.append(it)
            elif it not in own and len(it) == 3:
                items.append(it)
        return inv, tuple(point) + tuple(items)

    # ---------------------------------------------------------------- truth
    def atom_truth(self, atom, ctx):
        for it in ctx:
            if it[0] == 'if' and it[1] == atom:
                return it[2]
        if atom in self.truths:
            return self.truths[atom]
        if atom.op == 'is':
            a, b = atom.args
            if a == b:
                return True
            # transitivity over the equalities known
            reps = {}

            def find(x):
                while x in reps:
                    x = reps[x]
                return x
            for it in ctx:
                if it[0] == 'if' and it[1].op == 'is' and it[2]:
                    x, y = map(find, it[1].args)
                    if x != y:
                        reps[x] = y
            if find(a) == find(b):
                return True
            for it in ctx:
                if it[0] == 'if' and it[1].op == 'is' and not it[2]:
                    x, y = map(find, it[1].args)
                    if {x, y} == {find(a), find(b)}:
                        return False
            return None
        if atom.op == 'acc' and self.acc is not None:
            x = atom.args[0]
            if isinstance(x, T) and x.op in ('b', 'sigma'):
                return self.acc
            return not self.acc
        if atom.op == 'nonempty':
            dom = atom.args[0]
            if self.filled or any(it[0] == 'bind' and it[2] == dom for it in ctx):
                return True
        return None

    def items_truth(self, items, ctx):
        """truth of all guards of items (binders ignored)"""
        r = True
        for it in items:
            if it[0] != 'if':
                continue
            t = self.atom_truth(it[1], ctx)
            if t is None:
                r = None
            elif t != it[2]:
                return False
        return r

    def cond(self, v, st, node):
        """a condition as list of (guard items, bool): one decided or both"""
        v = self.norm(v, st)
        if isinstance(v, Alt):
            out = []
            for g, x in v.options:
                for g2, t in self.cond(x, st, node):
                    out.append((tuple(g) + g2, t))
            return out
        t = self.truth(v, st)
        if t is not None:
            return [((), t)]
        if isinstance(v, T) and v.op == 'not':
            return [(g, not t) for g, t in self.cond(v.args[0], st, node)]
        if isinstance(v, T) and v.op in ATOMS:
            a = v
        elif isinstance(v, Ref) and v.obj.kind in ('list', 'dict', 'set'):
            a = self.nonempty(v, st)
        else:
            a = T('true', v)
        t = self.atom_truth(a, st.ctx)
        if t is not None:
            return [((), t)]
        return [((('if', a, True),), True), ((('if', a, False),), False)]

    def truth(self, v, st):
        if v is None or isinstance(v, (bool, int, float, str)):
            return bool(v)
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, Str):
            return True        # tokens are not empty
        if isinstance(v, (Func, Cls, Ext, Bound)):
            return True
        if isinstance(v, Ref):
            if v.obj.kind in ('list', 'dict', 'set'):
                c = self.nonempty(v, st)
                if isinstance(c, bool):
                    return c
                return self.atom_truth(c, st.ctx)
            return True
        if isinstance(v, T):
            if v.op == 'not':
                t = self.truth(v.args[0], st)
                return None if t is None else not t
            if v.op in ATOMS:
                return self.atom_truth(v, st.ctx)
            return self.atom_truth(T('true', v), st.ctx)
        return None

    def nonempty(self, ref, st):
        es = self.view(ref)
        atom = None
        for e in es:
            if not any(it[0] == 'bind' for it in e.items):
                t = self.items_truth(e.items, st.ctx)
                if t:
                    return True
                if t is None:
                    atom = Unknown('emptiness')
            else:
                doms = [it[2] for it in e.items if it[0] == 'bind']
                guards = [it for it in e.items if it[0] == 'if']
                if len(doms) == 1 and not guards and atom is None:
                    if doms[0] == STATES:
                        return True
                    atom = T('nonempty', doms[0])
                elif len(doms) == 1 and doms[0] == STATES and not guards:
                    return True
                else:
                    atom = Unknown('emptiness')
        if atom is None:
            return False
        return atom

    def norm(self, v, st):
        """drop options of an Alt that the context decides"""
        if not isinstance(v, Alt):
            return v
        out = []
        for g, x in v.options:
            t = self.items_truth(g, st.ctx)
            if t is False:
                continue
            x = self.norm(x, st)
            if t is True:
                return x
            out.append((g, x))
        if not out:
            raise Bail('no option left')
        if len(out) == 1:
            return out[0][1]
        if all(x == out[0][1] for _, x in out):
            return out[0][1]
        return Alt(out)

    def each(self, v, st, f):
        """f applied to every option of v"""
        v = self.norm(v, st)
        if not isinstance(v, Alt):
            return f(v, st)
        outs = []
        for g, x in v.options:
            s2 = State(st.env, st.ctx + tuple(g))
            outs.append((tuple(g), self.each(x, s2, f)))
        return self.norm(Alt(outs), st)

    # ---------------------------------------------------------------- containers
    def distinct(self, e):
        """entries of a dictionary or set for different elements have different keys, or only the last one stays"""
        bs = {it[1] for it in e.items if it[0] == 'bind'}
        if not bs:
            return e
        sure = set()
        injective(e.key, sure)
        # a binder fixed by an equality is no freedom
        left = bs - sure
        if not left:
            return e
        return Entry(e.items + (('if', T('last', e.key), True),), e.key, e.value)

    def view(self, ref):
        if ref.obj.kind in ('dict', 'set'):
            return [self.distinct(e) for e in self.view_all(ref)]
        return self.view_all(ref)

    def view_all(self, ref):
        s = dict(ref.sub)
        s = {b: t for b, t in s.items() if b != t}
        if not s:
            return list(ref.obj.entries)
        return [Entry(subst_items(e.items, s), subst(e.key, s), subst(e.value, s)) for e in ref.obj.entries]

    def fresh(self, e):
        """entry with its own binders"""
        s = {}
        for it in e.items:
            if it[0] == 'bind':
                s[it[1]] = self.binder(it[1].args[1])
        if not s:
            return e
        return Entry(subst_items(e.items, s), subst(e.key, s), subst(e.value, s))

    def store(self, ref, st, key, value):
        inv, items = self.rename_in(ref, st)
        ref.obj.entries.append(Entry(items, subst(key, inv), subst(value, inv)))

    def lookup(self, ref, key, st, node, create=None):
        """value stored under key; Crash if there is none"""
        key = self.norm(key, st)
        if isinstance(key, Alt):
            opts = []
            for g, k in key.options:
                r = self.lookup(ref, k, State(st.env, st.ctx + tuple(g)), node, create)
                if r is None:
                    return Unknown('lookup')
                opts.append((g, r[1] if isinstance(r, tuple) and r[0] == 'val' else
                             r[2] if isinstance(r, tuple) and r[0] == 'maybe' else Unknown('lookup')))
            return ('val', self.norm(Alt(opts), st))
        found = []
        rest_possible = False
        for e in self.view_all(ref):
            e = self.fresh(e)
            free = {it[1] for it in e.items if it[0] == 'bind'}
            s = unify(e.key, key, free, {})
            if s is not None:
                if any(b not in s for b in free):
                    # binders not fixed by the key: one value per element, the last one stays
                    s = dict(s)
                    for b in free:
                        s.setdefault(b, T('?', 'last', b))
                guards = [it for it in subst_items(e.items, s) if it[0] == 'if']
                # a key of a state reached is the key of some state: the entry is there
                t = self.items_truth(guards, st.ctx)
                if t is False:
                    continue
                found.append((tuple(guards), subst(e.value, s), t))
                continue
            # equality of identifiers: sid(a) == sid(b) iff a is b
            eq = self.equality(e.key, key)
            if isinstance(eq, T) and not free:
                g = (('if', eq, True),) + tuple(it for it in e.items if it[0] == 'if')
                t = self.items_truth(g, st.ctx)
                if t is False:
                    continue
                found.append((g, e.value, t))
            elif eq is None or isinstance(eq, T):
                rest_possible = True
        if rest_possible and not any(t for _, _, t in found):
            w = self.foreign(ref, key) if not found else None
            return ('val', w) if w is not None else Unknown('lookup')
        sure = [i for i, (_, _, t) in enumerate(found) if t]
        if sure:
            found = found[sure[-1]:]          # later entries overwrite
        if not found:
            return None if create is None else create
        if len(found) == 1:
            g, v, t = found[0]
            if t:
                return ('val', v)
            return ('maybe', g, v)
        if found[0][2]:
            opts = [((), found[0][1])]
            # conditional overwrites
            v = found[0][1]
            for g, x, _ in found[1:]:
                v = Alt([(g, x)] + [(self.negate(g), v)]) if len(g) == 1 else Unknown('overwritten')
            return ('val', v)
        return ('val', Alt([(g, v) for g, v, _ in found]))

    def foreign(self, ref, key):
        """the value a state stores for the input of another state (if it has that input)"""
        es = self.view_all(ref)
        if len(es) != 1 or not (isinstance(key, T) and key.op == 'key'):
            return None
        e = self.fresh(es[0])
        bs = [it for it in e.items if it[0] == 'bind']
        if len(bs) != 1 or len(e.items) != 1 or not (isinstance(e.key, T) and e.key.op == 'key') or \
                e.key.args[1] != bs[0][1]:
            return None
        return subst(e.value, {bs[0][1]: T('like', key)})

    @staticmethod
    def negate(g):
        it = g[0]
        return (('if', it[1], not it[2]),)

    def equality(self, a, b):
        """True, False, an atom, or None (unknown)"""
        if type(a) is type(b) and a == b and not is_unknown(a):
            return True
        if isinstance(a, T) and isinstance(b, T):
            if a.op == b.op and a.op in ('sid', 'prefix'):
                return T('is', *sorted((a.args[0], b.args[0]), key=repr))
            if a.op == 'key' and b.op == 'key' and a.args[0] == b.args[0]:
                return T('is', *sorted((a, b), key=repr))
            return False if could_equal(a, b) is False else T('is', *sorted((a, b), key=repr))
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.obj is not b.obj:
                return False
            for (x, y) in zip(a.sub, b.sub):
                if x[1] != y[1]:
                    if len(a.sub) == 1:
                        return T('is', *sorted((x[1], y[1]), key=repr))
                    return None
            return True
        if a is None or b is None:
            t = b if a is None else a
            if isinstance(t, Str) or isinstance(t, T) and (t.op in ('sid', 'key', 'prob', 'round', 'top') or
                                                           self.words and t.op in TOKENS):
                return False
            if isinstance(a, T) or isinstance(b, T):
                return T('is', *sorted((a, b), key=repr)) if not is_unknown(a) and not is_unknown(b) else None
            return a is b
        if isinstance(a, (bool, int, float, str)) and isinstance(b, (bool, int, float, str)):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            r = [self.equality(x, y) for x, y in zip(a, b)]
            if any(x is False for x in r):
                return False
            if all(x is True for x in r):
                return True
            rest = [x for x in r if x is not True]
            return rest[0] if len(rest) == 1 else None
        if isinstance(a, (Cls, Ext, Func)) or isinstance(b, (Cls, Ext, Func)):
            return a == b if type(a) is type(b) else False
        c = could_equal(a, b)
        return False if c is False else None

    # ---------------------------------------------------------------- text
    def sample(self, t):
        if t not in self.samples:
            n = len(self.samples) + 1
            if t.op in ('prob', 'round'):
                w = f'0.8{n:03d}5'
            elif self.num(t):
                w = f'71{n:03d}9'
            else:
                w = f'{self.shape if self.shape and t.op != "sid" else "kz"}{n:03d}q'
            self.samples[t] = w
            self.unsamples[w] = t
        return self.samples[t]

    def num(self, t):
        """is this token a number?"""
        return self.digit and t.op not in self.words

    def enc(self, v, node=None):
        if isinstance(v, str):
            return v
        if isinstance(v, Str):
            return ''.join(p if isinstance(p, str) else self.sample(p) for p in v.parts)
        if isinstance(v, T) and v.op in TOKENS and not self.num(v):
            return self.sample(v)
        raise Bail(f'text operation on {v!r}', node)

    def dec(self, s):
        if isinstance(s, str):
            pat = '|'.join(re.escape(w) for w in self.unsamples)
            if not pat:
                return s
            parts, pos = [], 0
            for m in re.finditer(pat, s):
                if m.start() > pos:
                    parts.append(s[pos:m.start()])
                parts.append(self.unsamples[m.group(0)])
                pos = m.end()
            if not parts:
                return s
            if pos < len(s):
                parts.append(s[pos:])
            return self.text(parts)
        if isinstance(s, (list, tuple)):
            return [self.dec(x) for x in s]
        return s

    def text(self, parts):
        out = []
        for p in parts:
            if isinstance(p, Str):
                out.extend(p.parts)
            else:
                out.append(p)
        merged = []
        for p in out:
            if isinstance(p, str) and merged and isinstance(merged[-1], str):
                merged[-1] += p
            elif p != '':
                merged.append(p)
        if not merged:
            return ''
        if len(merged) == 1 and isinstance(merged[0], str):
            return merged[0]
        if len(merged) == 1 and not self.num(merged[0]) and merged[0].op not in ('prob', 'round'):
            return merged[0]       # tokens that are words are their own text
        return Str(merged)

    def show(self, v, node, rep=False):
        """str() of a value as text"""
        if isinstance(v, bool) or v is None or isinstance(v, (int, float)):
            return repr(v)
        if isinstance(v, str):
            return repr(v) if rep else v
        if isinstance(v, Str):
            return v if not rep else self.text(["'", v, "'"])
        if isinstance(v, T) and v.op in TOKENS:
            if rep and not self.num(v) and v.op not in ('prob', 'round'):
                return self.text(["'", v, "'"])
            return self.text([v])
        if isinstance(v, tuple):
            parts = ['(']
            for i, x in enumerate(v):
                if i:
                    parts.append(', ')
                parts.append(self.show(x, node, True))
            if len(v) == 1:
                parts.append(',')
            return self.text(parts + [')'])
        raise Bail(f'text of {v!r}', node)


TOKENS = {'sid', 'key', 'out', 'prob', 'guard', 'top', 'round', 'acc', 'osym', 'pos'}


class Seq:
    """a transient sequence of entries in the current frame"""
    def __init__(self, entries):
        self.entries = entries


def assigned_names(body):
    out = {}
    loads = {}
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name):
                pos = (n.lineno, n.col_offset)
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    # the value is computed before the target is bound
                    p = getattr(n, 'parent', None)
                    while p is not None and not isinstance(p, (ast.stmt, ast.comprehension)):
                        p = getattr(p, 'parent', None)
                    end = (p.end_lineno, p.end_col_offset) if isinstance(p, (ast.Assign, ast.AnnAssign, ast.AugAssign)) \
                        else pos
                    out[n.id] = min(out.get(n.id, end), end)
                    if isinstance(p, ast.AugAssign):
                        loads[n.id] = min(loads.get(n.id, pos), pos)
                else:
                    loads[n.id] = min(loads.get(n.id, pos), pos)
    return set(out), {v for v in out if v in loads and loads[v] < out[v]}


class Interp(Machine):

    # ---------------------------------------------------------------- names
    def module(self, name):
        return self.prog.modules.get(name)

    def global_name(self, mod, name, depth=0):
        if depth > 12:
            return Ext(name)
        key = (mod.name, name)
        if key in self.cfg_cache:
            return self.cfg_cache[key]
        v = self._global_name(mod, name, depth)
        self.cfg_cache[key] = v
        return v

    def _global_name(self, mod, name, depth):
        for n in mod.tree.body:
            if isinstance(n, ast.FunctionDef) and n.name == name:
                return Func(n)
            if isinstance(n, ast.ClassDef) and n.name == name:
                return Cls(n)
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                return self.expr(n.value, State(Env({}, None, mod), ()))
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name and n.value:
                return self.expr(n.value, State(Env({}, None, mod), ()))
            v = self.import_name(n, mod, name, depth)
            if v is not None:
                return v
        return Ext(name)

    def import_name(self, n, mod, name, depth):
        if isinstance(n, ast.ImportFrom):
            for a in n.names:
                if (a.asname or a.name) == name or a.name == '*':
                    base = n.module or ''
                    if n.level:
                        parts = mod.name.split('.')
                        parts = parts[:len(parts) - n.level + (1 if mod.is_pkg else 0)]
                        base = '.'.join(parts + ([n.module] if n.module else []))
                    m = self.module(base)
                    if m is None:
                        if a.name == '*':
                            continue
                        return Ext(base + '.' + a.name)
                    v = self.global_name(m, a.name if a.name != '*' else name, depth + 1)
                    if isinstance(v, Ext) and v.name == (a.name if a.name != '*' else name):
                        sub = self.module(base + '.' + a.name)
                        if sub is not None:
                            return Ext('module:' + sub.name)
                        if a.name == '*':
                            continue
                    return v
        if isinstance(n, ast.Import):
            for a in n.names:
                if (a.asname or a.name.split('.')[0]) == name:
                    return Ext(a.name if a.asname else name)
        return None

    def name(self, node, st):
        e = st.env
        while e is not None:
            if node.id in e.vars:
                return e.vars[node.id]
            if e.up is None:
                break
            e = e.up
        v = self.global_name(e.mod, node.id)
        return v

    def cls(self, module, name):
        m = self.module(module)
        v = self.global_name(m, name) if m else None
        if not isinstance(v, Cls):
            raise AnalysisBroken(f'class {name} of {module} not found')
        return v

    # ---------------------------------------------------------------- classes
    def bases(self, cls):
        out = []
        for b in cls.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            v = self.expr(b, State(Env({}, None, cls.node.mod), ()))
            if isinstance(v, Cls):
                out.append(v)
        return out

    def mro(self, cls):
        out = [cls]
        for b in self.bases(cls):
            for c in self.mro(b):
                if c in out:
                    out.remove(c)
                out.append(c)
        return out

    def class_attr(self, cls, name, after=None):
        chain = self.mro(cls)
        if after is not None and after in chain:
            chain = chain[chain.index(after) + 1:]
        for c in chain:
            for n in c.node.body:
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    return c, n
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                    return c, n.value
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name and n.value:
                    return c, n.value
        return None

    # ---------------------------------------------------------------- statements
    def block(self, stmts, st):
        """outcomes: (kind, state, value), kind in fall, ret, cont, break"""
        outs = []
        live = [st]
        for s in stmts:
            nxt = []
            for x in live:
                for o in self.stmt(s, x):
                    if o[0] == 'fall':
                        nxt.append(o[1])
                    else:
                        outs.append(o)
            live = nxt
            if not live:
                break
        return outs + [('fall', x, None) for x in live]

    def merge(self, base_ctx, states):
        """one state after a join"""
        if len(states) == 1:
            return State(states[0].env, base_ctx)
        env = states[0].env.copy()
        names = set()
        for s in states:
            names |= set(s.env.vars)
        for n in names:
            vals = [(s.ctx[len(base_ctx):], s.env.vars.get(n, Unknown('unbound'))) for s in states]
            if all(v is vals[0][1] or (type(v) is type(vals[0][1]) and v == vals[0][1]) for _, v in vals):
                env.vars[n] = vals[0][1]
            elif any(it[0] == 'bind' for g, _ in vals for it in g):
                env.vars[n] = Unknown('joined')
            else:
                env.vars[n] = Alt(vals)
        return State(env, base_ctx)

    def stmt(self, s, st):
        self.steps -= 1
        if self.steps < 0:
            raise Bail('step budget')
        self.visited.add(s)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Bail(f'statement {type(s).__name__}', s)
        return m(s, st)

    def s_Expr(self, s, st):
        if not isinstance(s.value, ast.Constant):
            self.expr(s.value, st)
        return [('fall', st, None)]

    def s_Pass(self, s, st):
        return [('fall', st, None)]

    s_Global = s_Nonlocal = s_Pass

    def s_Nonlocal(self, s, st):
        st.env.nonlocals = st.env.nonlocals | set(s.names)
        return [('fall', st, None)]

    def s_Import(self, s, st):
        for a in s.names:
            st.env.vars[a.asname or a.name.split('.')[0]] = Ext(a.name)
        return [('fall', st, None)]

    def s_ImportFrom(self, s, st):
        e = st.env
        while e.up is not None:
            e = e.up
        for a in s.names:
            v = self.import_name(s, e.mod, a.asname or a.name, 0)
            if v is not None:
                st.env.vars[a.asname or a.name] = v
        return [('fall', st, None)]

    def s_FunctionDef(self, s, st):
        st.env.vars[s.name] = Func(s, st.env)
        return [('fall', st, None)]

    def s_Return(self, s, st):
        return [('ret', st, self.expr(s.value, st) if s.value else None)]

    def s_Continue(self, s, st):
        return [('cont', st, None)]

    def s_Break(self, s, st):
        return [('break', st, None)]

    def s_Raise(self, s, st):
        raise Crash(f'raises {ast.unparse(s.exc)[:60] if s.exc else "again"}', s)

    def s_Delete(self, s, st):
        raise Bail('del', s)

    def s_Assert(self, s, st):
        opts = self.cond(self.expr(s.test, st), st, s)
        if all(t is False for _, t in opts):
            raise Crash(f'assertion {ast.unparse(s.test)[:60]} fails', s)
        if len(opts) > 1 and sum(1 for _, t in opts if t) == 1:
            for g, t in opts:
                if t:
                    if self.preconditions:
                        g = tuple(i + ('assumed',) for i in g)
                    return [('fall', State(st.env, st.ctx + g), None)]
        return [('fall', st, None)]

    def s_Assign(self, s, st):
        v = self.expr(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
        return [('fall', st, None)]

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value, st), st)
        return [('fall', st, None)]

    def s_AugAssign(self, s, st):
        cur = self.expr(s.target, st)
        v = self.expr(s.value, st)
        if isinstance(s.op, ast.Add) and isinstance(cur, Ref) and cur.obj.kind == 'list':
            self.extend(cur, v, st, s)
            return [('fall', st, None)]
        self.assign(s.target, self.binop(s.op, cur, v, st, s), st)
        return [('fall', st, None)]

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            if t.id in st.env.nonlocals:
                e = st.env.up
                while e is not None and t.id not in e.vars:
                    e = e.up
                if e is not None:
                    e.vars[t.id] = v
                    return
            st.env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.norm(v, st)
            if isinstance(v, Alt):
                n = len(t.elts)
                cols = [[] for _ in range(n)]
                for g, x in v.options:
                    if not isinstance(x, tuple) or len(x) != n:
                        raise Bail('unpacking of alternatives', t)
                    for i in range(n):
                        cols[i].append((g, x[i]))
                for e, c in zip(t.elts, cols):
                    self.assign(e, self.norm(Alt(c), st), st)
                return
            if isinstance(v, Ref) and v.obj.kind == 'list':
                es = self.view(v)
                if any(e.items for e in es):
                    raise Bail('unpacking of a list', t)
                v = tuple(e.value for e in es)
            if isinstance(v, Seq):
                if any(e.items for e in v.entries):
                    raise Bail('unpacking of a sequence', t)
                v = tuple(e.value for e in v.entries)
            if isinstance(v, tuple):
                star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
                if star:
                    raise Bail('starred target', t)
                if len(v) != len(t.elts):
                    raise Crash(f'unpacks {len(v)} values into {len(t.elts)} targets', t)
                for e, x in zip(t.elts, v):
                    self.assign(e, x, st)
            elif is_unknown(v):
                for e in t.elts:
                    self.assign(e, Unknown('part'), st)
            elif isinstance(v, T) and v.op in TOKENS:
                raise Crash(f'unpacks a single value ({v!r})', t)
            elif isinstance(v, Ref) and v.obj.kind == 'inst':
                raise Crash(f'unpacks a single {v.obj.cls!r}', t)
            else:
                raise Bail(f'unpacking of {v!r}', t)
        elif isinstance(t, ast.Attribute):
            o = self.norm(self.expr(t.value, st), st)
            self.set_field(o, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.norm(self.expr(t.value, st), st)
            k = self.expr(t.slice, st)
            self.set_item(o, k, v, st, t)
        elif isinstance(t, ast.Starred):
            raise Bail('starred target', t)

    def set_field(self, o, name, v, st, node):
        if isinstance(v, Seq):
            v = self.as_list(v, st)
        if not (isinstance(o, Ref) and o.obj.kind == 'inst'):
            if isinstance(o, Alt):
                for g, x in o.options:
                    self.set_field(self.norm(x, st), name, v, State(st.env, st.ctx + tuple(g)), node)
                return
            raise Bail(f'field {name} of {o!r}', node)
        inv, items = self.rename_in(o, st)
        v = subst(v, inv)
        if not items:
            o.obj.fields[name] = [((), v)]
        else:
            o.obj.fields.setdefault(name, []).append((items, v))

    def set_item(self, o, k, v, st, node):
        if isinstance(v, Seq):
            v = self.as_list(v, st)
        if isinstance(o, Alt):
            for g, x in o.options:
                self.set_item(self.norm(x, st), k, v, State(st.env, st.ctx + tuple(g)), node)
            return
        if not (isinstance(o, Ref) and o.obj.kind in ('dict', 'list')):
            if isinstance(o, (Str, str, tuple)) or o is None:
                raise Crash(f'item assignment to {o!r}', node)
            raise Bail(f'item of {o!r}', node)
        k = self.norm(k, st)
        if isinstance(k, Alt):
            for g, x in k.options:
                self.set_item(o, self.norm(x, st), v, State(st.env, st.ctx + tuple(g)), node)
            return
        if o.obj.kind == 'list':
            raise Bail('item of a list assigned', node)
        if isinstance(v, Ref) and v.obj.kind in ('list', 'dict', 'set') and not v.obj.entries:
            for it in st.ctx:
                if it[0] == 'if' and it[1].op == 'in' and it[1].args == (id(o.obj), k) and it[2] is False:
                    self.get_or_create(o, k, st, v.obj.kind, v.obj.default)
                    return
        self.store(o, st, k, v)

    def get_or_create(self, ref, key, st, kind, default=None):
        r = self.lookup(ref, key, st, None)
        if isinstance(r, tuple) and r[0] == 'val':
            return r[1]
        if r is not None and not isinstance(r, tuple):
            raise Bail('undecided lookup in a dictionary with default values')
        if isinstance(r, tuple) and r[0] == 'maybe':
            raise Bail('conditional entry of a dictionary with default values')
        inv, items = self.rename_in(ref, st)
        used = binders_in(subst(key, inv))
        keep = []
        for it in reversed(items):
            if it[0] == 'bind' and it[1] in used:
                keep.insert(0, it)
                used |= binders_in(it[2])
        o = Obj(kind, ref.obj.ctx + tuple(keep))
        o.default = default
        ident = tuple((b, b) for b, _ in ref.sub) + tuple((it[1], it[1]) for it in keep)
        ref.obj.entries.append(Entry(keep, subst(key, inv), Ref(o, ident)))
        back = {}
        for cur, can in inv.items():
            back[can] = cur
        return Ref(o, tuple(ref.sub) + tuple((it[1], it[1]) for it in keep))

    def s_If(self, s, st):
        opts = self.cond(self.expr(s.test, st), st, s)
        outs, falls = [], []
        crash = None
        decided = len(opts) == 1 and not opts[0][0]
        for g, t in opts:
            st2 = State(st.env if decided else st.env.copy(), st.ctx + tuple(g))
            try:
                os = self.block(s.body if t else s.orelse, st2)
            except Crash as c:
                if decided:
                    raise
                crash = c
                self.notes.append(f'only if a condition holds: {c}')
                continue
            for o in os:
                (falls if o[0] == 'fall' else outs).append(o)
        if crash is not None and not outs and not falls:
            raise crash
        if crash is not None and self.preconditions and isinstance(crash.node, ast.Raise) and len(opts) == 2:
            g = [g for g, t in opts if any(f[1].ctx[:len(st.ctx) + len(g)] == st.ctx + tuple(g) for f in falls)]
            if len(g) == 1 and not outs:
                mark = tuple(i + ('assumed',) for i in g[0])
                return [('fall', State(f[1].env, st.ctx + mark + f[1].ctx[len(st.ctx) + len(mark):]), None) for f in falls]
        if not falls:
            return outs
        if decided:
            return outs + falls
        if outs or crash is not None:
            return outs + falls if len(falls) == 1 else outs + falls
        return [('fall', self.merge(st.ctx, [f[1] for f in falls]), None)]

    def s_For(self, s, st):
        it = self.norm(self.expr(s.iter, st), st)
        if isinstance(it, Alt):
            outs = []
            for g, x in it.options:
                outs += self.loop(s, self.norm(x, st), State(st.env.copy(), st.ctx + tuple(g)))
            falls = [o for o in outs if o[0] == 'fall']
            rest = [o for o in outs if o[0] != 'fall']
            return rest + ([('fall', self.merge(st.ctx, [o[1] for o in falls]), None)] if falls else [])
        return self.loop(s, it, st)

    def loop(self, s, it, st):
        entries = self.iterate(it, st, s)
        assigned, carried = assigned_names(s.body)
        own_break = any(isinstance(n, ast.Break) and self.loop_of(n) is s for b in s.body for n in ast.walk(b))
        outs = []
        cur = st
        for e in entries:
            e = self.fresh(e)
            t = self.items_truth(e.items, cur.ctx)
            if t is False:
                continue
            # guards may speak of the binders of the entry: keep the undecided ones
            items = tuple(i for i in e.items if i[0] == 'bind' or self.atom_truth(i[1], cur.ctx) is None)
            generic = any(i[0] == 'bind' for i in items)
            extra = ()
            if own_break and (generic or len(entries) > 1):
                extra = (('if', self.not_left(s, items), True),)
            env = cur.env.copy()
            pre = dict(env.vars)
            if generic:
                for n in carried:
                    if n in env.vars and not (isinstance(env.vars[n], Ref)):
                        env.vars[n] = self.carried(s, n, env.vars[n], items)
            st2 = State(env, cur.ctx + items + extra)
            self.assign(s.target, e.value, st2)
            ends = []
            try:
                os = self.block(s.body, st2)
            except Crash as c:
                if not any(i[0] == 'if' for i in items + extra):
                    raise
                self.notes.append(f'only if a condition holds: {c}')
                os = []
            for o in os:
                if o[0] in ('fall', 'cont', 'break'):
                    ends.append(o[1])
                else:
                    outs.append(('ret', o[1], o[2]))
            if not ends:
                if not generic and not items:
                    return outs
                continue
            m = self.merge(cur.ctx, ends)
            if generic or items:
                bs = {i[1] for i in items if i[0] == 'bind'}
                for n in assigned:
                    v = m.env.vars.get(n)
                    if n in pre and (v is pre[n] or (type(v) is type(pre[n]) and v == pre[n])):
                        continue
                    m.env.vars[n] = self.after(s, n, pre.get(n), items)
            cur = m
        if s.orelse:
            return outs + self.block(s.orelse, cur)
        return outs + [('fall', cur, None)]

    def not_left(self, s, items):
        return Unknown('loop not left before')

    def carried(self, s, n, v, items):
        """value of a variable at the start of an iteration that earlier iterations may have changed"""
        return Unknown('carried')

    def after(self, s, n, v, items):
        return Unknown('after a loop')

    @staticmethod
    def loop_of(n):
        p = n.parent
        while p is not None and not isinstance(p, (ast.For, ast.While)):
            p = p.parent
        return p

    def s_While(self, s, st):
        if self.truth(self.expr(s.test, st), st) is False:
            return [('fall', st, None)]
        raise Bail('while loop', s)

    def s_Try(self, s, st):
        outs = self.block(s.body, st)
        res = []
        for o in outs:
            if o[0] == 'fall' and s.orelse:
                res += self.block(s.orelse, o[1])
            else:
                res.append(o)
        if s.finalbody:
            fin = []
            for o in res:
                fin += [o if x[0] == 'fall' else x for x in self.block(s.finalbody, o[1])]
            return fin
        return res

    def s_With(self, s, st):
        for it in s.items:
            v = self.expr(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        return self.block(s.body, st)

    # ---------------------------------------------------------------- iteration
    def iterate(self, it, st, node):
        if isinstance(it, Seq):
            return it.entries
        if isinstance(it, tuple):
            return [Entry((), None, x) for x in it]
        if isinstance(it, Ref):
            if it.obj.kind in ('list', 'set', 'file'):
                return self.view(it)
            if it.obj.kind == 'dict':
                return [Entry(e.items, None, e.key) for e in self.view(it)]
            raise Crash(f'{it.obj.cls!r} is not iterable', node)
        if it is None or isinstance(it, (bool, int, float)):
            raise Crash(f'{it!r} is not iterable', node)
        if is_unknown(it):
            if it.args[-1:] == ('slice',):
                raise Bail('slice', node)
            b = self.binder('u')
            return [Entry((('bind', b, T('ELEMENTS', it)),), None, Unknown('element'))]
        raise Bail(f'iteration over {it!r}', node)

    def as_list(self, v, st, kind='list', node=None):
        ref = self.new(kind, st)
        self.extend(ref, v, st, node)
        return ref

    def extend(self, ref, v, st, node):
        v = self.norm(v, st)
        if isinstance(v, Alt):
            for g, x in v.options:
                self.extend(ref, x, State(st.env, st.ctx + tuple(g)), node)
            return
        for e in self.iterate(v, st, node):
            e = self.fresh(e)
            t = self.items_truth(e.items, st.ctx)
            if t is False:
                continue
            st2 = State(st.env, st.ctx + tuple(e.items))
            self.store(ref, st2, None if ref.obj.kind != 'set' else e.value, e.value)

    def comp(self, gens, st, leaf):
        def go(i, st):
            if i == len(gens):
                leaf(st)
                return
            g = gens[i]
            it = self.norm(self.expr(g.iter, st), st)
            alts = it.options if isinstance(it, Alt) else [((), it)]
            for gg, x in alts:
                x = self.norm(x, st)
                es = self.iterate(x, st, g.iter)
                if isinstance(x, Ref) and self.partial(x, g.iter, st):
                    es = list(es) + [Entry((('bind', self.binder('u'), T('ELEMENTS', Unknown('stored before'))),), None,
                                           Unknown('element'))]
                for e in es:
                    e = self.fresh(e)
                    st2 = State(Env({}, st.env, st.env.mod, st.env.cls), st.ctx + tuple(gg) + tuple(e.items))
                    if self.items_truth(e.items, st.ctx) is False:
                        continue
                    self.assign(g.target, e.value, st2)
                    states = [st2]
                    for c in g.ifs:
                        nxt = []
                        for s3 in states:
                            for gd, t in self.cond(self.expr(c, s3), s3, c):
                                if t:
                                    nxt.append(State(s3.env, s3.ctx + tuple(gd)))
                        states = nxt
                    for s3 in states:
                        go(i + 1, s3)
        go(0, st)

    # ---------------------------------------------------------------- expressions
    def expr(self, n, st):
        self.steps -= 1
        if self.steps < 0:
            raise Bail('step budget')
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Bail(f'expression {type(n).__name__}', n)
        return m(n, st)

    def e_Constant(self, n, st):
        return n.value

    def e_Name(self, n, st):
        return self.name(n, st)

    def e_Tuple(self, n, st):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.expr(e.value, st)
                es = self.iterate(v, st, n)
                if any(x.items for x in es):
                    raise Bail('starred', n)
                out += [x.value for x in es]
            else:
                out.append(self.expr(e, st))
        for i, v in enumerate(out):
            v = self.norm(v, st)
            if isinstance(v, Alt):
                return Alt([(g, self.rebuild_tuple(out, i, x)) for g, x in v.options])
            out[i] = v if not isinstance(v, Seq) else self.as_list(v, st)
        return tuple(out)

    @staticmethod
    def rebuild_tuple(vals, i, x):
        return tuple(x if j == i else v for j, v in enumerate(vals))

    def e_List(self, n, st, kind='list'):
        ref = self.new(kind, st)
        for e in n.elts:
            if isinstance(e, ast.Starred):
                self.extend(ref, self.expr(e.value, st), st, n)
            else:
                v = self.expr(e, st)
                self.store(ref, st, v if kind == 'set' else None, v)
        return ref

    def e_Set(self, n, st):
        return self.e_List(n, st, 'set')

    def e_Dict(self, n, st):
        ref = self.new('dict', st)
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.update(ref, self.expr(v, st), st, n)
            else:
                self.set_item(ref, self.expr(k, st), self.expr(v, st), st, n)
        return ref

    def e_ListComp(self, n, st, kind='list'):
        ref = self.new(kind, st)

        def leaf(s2):
            v = self.expr(n.elt, s2)
            if isinstance(v, Seq):
                v = self.as_list(v, s2)
            self.store(ref, s2, v if kind == 'set' else None, v)
        self.comp(n.generators, st, leaf)
        return ref

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, st):
        return self.e_ListComp(n, st, 'set')

    def e_DictComp(self, n, st):
        ref = self.new('dict', st)

        def leaf(s2):
            self.set_item(ref, self.expr(n.key, s2), self.expr(n.value, s2), s2, n)
        self.comp(n.generators, st, leaf)
        return ref

    def e_Lambda(self, n, st):
        return Func(n, st.env)

    def e_IfExp(self, n, st):
        opts = self.cond(self.expr(n.test, st), st, n)
        if len(opts) == 1 and not opts[0][0]:
            return self.expr(n.body if opts[0][1] else n.orelse, st)
        return self.norm(Alt([(tuple(g), self.expr(n.body if t else n.orelse, State(st.env, st.ctx + tuple(g))))
                              for g, t in opts]), st)

    def e_BoolOp(self, n, st):
        return self.bool_chain(n.values, isinstance(n.op, ast.And), st, n)

    def bool_chain(self, vals, is_and, st, n):
        v = self.expr(vals[0], st)
        if len(vals) == 1:
            return v
        opts = self.cond(v, st, n)
        out = []
        for g, t in opts:
            st2 = State(st.env, st.ctx + tuple(g))
            out.append((tuple(g), self.bool_chain(vals[1:], is_and, st2, n) if t == is_and else v))
        if len(out) == 1 and not out[0][0]:
            return out[0][1]
        return self.norm(Alt(out), st)

    def e_UnaryOp(self, n, st):
        v = self.norm(self.expr(n.operand, st), st)
        if isinstance(n.op, ast.Not):
            opts = self.cond(v, st, n)
            if len(opts) == 1 and not opts[0][0]:
                return not opts[0][1]
            return Alt([(tuple(g), not t) for g, t in opts])
        if isinstance(v, (int, float)):
            return -v if isinstance(n.op, ast.USub) else +v
        return Unknown('unary')

    def e_NamedExpr(self, n, st):
        v = self.expr(n.value, st)
        self.assign(n.target, v, st)
        return v

    def e_JoinedStr(self, n, st):
        acc = [((), [])]
        for p in n.values:
            if isinstance(p, ast.Constant):
                acc = [(g, x + [p.value]) for g, x in acc]
                continue
            if p.format_spec is not None:
                raise Bail('format specification', n)
            v = self.norm(self.expr(p.value, st), st)
            opts = v.options if isinstance(v, Alt) else [((), v)]
            acc = [(g + tuple(g2), x + [self.show(self.norm(o, st), n, p.conversion == 114)]) for g, x in acc for g2, o in opts]
        if len(acc) == 1 and not acc[0][0]:
            return self.text(acc[0][1])
        return Alt([(g, self.text(x)) for g, x in acc])

    def e_BinOp(self, n, st):
        return self.binop(n.op, self.expr(n.left, st), self.expr(n.right, st), st, n)

    def binop(self, op, a, b, st, n):
        a, b = self.norm(a, st), self.norm(b, st)
        if isinstance(a, Alt):
            return self.each(a, st, lambda x, s2: self.binop(op, x, b, s2, n))
        if isinstance(b, Alt):
            return self.each(b, st, lambda x, s2: self.binop(op, a, x, s2, n))
        if isinstance(op, ast.Add):
            if isinstance(a, Ref) and a.obj.kind == 'list' and isinstance(b, (Ref, Seq)):
                r = self.new('list', st)
                self.extend(r, a, st, n)
                self.extend(r, b, st, n)
                return r
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, (str, Str, T)) and isinstance(b, (str, Str, T)) and not (isinstance(a, T) and isinstance(b, T)
                                                                                   and (is_unknown(a) or is_unknown(b))):
                if any(isinstance(x, T) and x.op in TOKENS and self.num(x) for x in (a, b)):
                    raise Crash('text and number added', n)
                if is_unknown(a) or is_unknown(b):
                    return Unknown('sum')
                return self.text([self.show(a, n), self.show(b, n)])
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b,
                        ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b}[type(op)]()
            except (KeyError, ZeroDivisionError):
                return Unknown('arithmetic')
        if isinstance(op, ast.Mod) and isinstance(a, str):
            args = b if isinstance(b, tuple) else (b,)
            parts = re.split(r'%[sd]', a)
            if len(parts) == len(args) + 1 and '%' not in ''.join(parts):
                out = [parts[0]]
                for x, p in zip(args, parts[1:]):
                    out += [self.show(x, n), p]
                return self.text(out)
            raise Bail('text formatting', n)
        if isinstance(op, ast.BitOr) and isinstance(a, Ref) and isinstance(b, Ref) and a.obj.kind == b.obj.kind == 'set':
            r = self.new('set', st)
            self.extend(r, a, st, n)
            self.extend(r, b, st, n)
            return r
        return Unknown('arithmetic')

    def e_Compare(self, n, st):
        left = self.expr(n.left, st)
        res = None
        for op, c in zip(n.ops, n.comparators):
            right = self.expr(c, st)
            r = self.compare(op, left, right, st, n)
            if res is None:
                res = r
            else:
                t = self.truth(res, st)
                if t is False:
                    return False
                if t is None:
                    return Unknown('chained comparison')
                res = r
            left = right
        return res

    def compare(self, op, a, b, st, n):
        a, b = self.norm(a, st), self.norm(b, st)
        if isinstance(a, Alt):
            return self.each(a, st, lambda x, s2: self.compare(op, x, b, s2, n))
        if isinstance(b, Alt):
            return self.each(b, st, lambda x, s2: self.compare(op, a, x, s2, n))
        if isinstance(op, (ast.Eq, ast.Is, ast.NotEq, ast.IsNot)):
            neg = isinstance(op, (ast.NotEq, ast.IsNot))
            if isinstance(a, T) and a.op == 'acc' and isinstance(b, bool) or isinstance(b, T) and b.op == 'acc' and \
                    isinstance(a, bool):
                t, c = (a, b) if isinstance(a, T) else (b, a)
                tt = self.truth(t, st)
                if tt is not None:
                    return (tt == c) != neg
                return t if c != neg else T('not', t)
            e = self.equality(a, b)
            if e is None:
                e = Unknown('comparison')
            if isinstance(e, bool):
                return e != neg
            t = self.atom_truth(e, st.ctx) if e.op in ('is', 'acc') else None
            if t is not None:
                return t != neg
            return T('not', e) if neg else e
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b, st, n)
            neg = isinstance(op, ast.NotIn)
            if isinstance(r, bool):
                return r != neg
            return T('not', r) if neg else r
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) or isinstance(a, str) and isinstance(b, str):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        return Unknown('comparison')

    def contains(self, a, b, st, n):
        if isinstance(b, (str, Str)) or isinstance(b, T) and b.op in TOKENS:
            if isinstance(b, T) and self.num(b):
                raise Crash('membership in a number', n)
            return self.enc(a, n) in self.enc(b, n)
        if isinstance(b, Seq):
            b = self.as_list(b, st)
        if isinstance(b, tuple):
            r = [self.equality(a, x) for x in b]
            if any(x is True for x in r):
                return True
            if all(x is False for x in r):
                return False
            return Unknown('membership')
        if isinstance(b, Ref) and b.obj.kind in ('dict', 'set', 'list'):
            if b.obj.kind == 'dict' or b.obj.kind == 'set':
                r = self.lookup(b, a, st, n)
                if isinstance(r, tuple) and r[0] == 'val':
                    return True
                if r is None and not self.prior(b, a, st, n):
                    return False
                return T('in', id(b.obj), a)
            poss = False
            for e in self.view(b):
                e = self.fresh(e)
                free = {i[1] for i in e.items if i[0] == 'bind'}
                s = unify(e.value, a, free, {})
                if s is not None:
                    if self.items_truth(subst_items(e.items, s), st.ctx):
                        return True
                    poss = True
                elif self.equality(e.value, a) is not False:
                    poss = True
            if poss or self.prior(b, a, st, n):
                return T('in', id(b.obj), a)
            return False
        if is_unknown(b):
            return Unknown('membership')
        raise Bail(f'membership in {b!r}', n)

    @staticmethod
    def filled_in_loop(node):
        """may the collection read by this expression be filled by a loop around it? (syntactic, over-approximated)"""
        base = None
        if isinstance(node, ast.Subscript):
            base = node.value
        elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
            base = node.func.value
        elif isinstance(node, ast.Compare):
            base = node.comparators[0]
        if base is None:
            return True
        text = ast.dump(base)
        p = node
        loop = None
        while p is not None and not isinstance(p, ast.FunctionDef):
            if isinstance(p, ast.For):
                loop = p
            p = getattr(p, 'parent', None)
        if loop is None:
            return True
        for n in ast.walk(loop):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and ast.dump(n.value) == text:
                return True
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and ast.dump(n.func.value) == text and n.func.attr not in (
                        'items', 'keys', 'values', 'get', 'copy'):
                    return True
                if any(ast.dump(a) == text for a in n.args) and not (isinstance(n.func, ast.Name) and n.func.id in (
                        'len', 'list', 'sorted', 'iter', 'enumerate', 'set', 'tuple')):
                    return True
        return False

    def partial(self, ref, node, st):
        """may earlier iterations of an enclosing loop have added elements to the collection?"""
        own = {b for b, _ in ref.sub} | {t for _, t in ref.sub} | {i[1] for i in ref.obj.ctx if i[0] == 'bind'}
        if all(it[0] != 'bind' or it[1] in own for it in st.ctx):
            return False
        loop, p = None, node
        while p is not None and not isinstance(p, ast.FunctionDef):
            loop = p if isinstance(p, ast.For) else loop
            p = getattr(p, 'parent', None)
        text = ast.dump(node)
        return loop is not None and any(
            isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in
            ('append', 'extend', 'add', 'insert', 'update', 'setdefault') and ast.dump(n.func.value) == text or
            isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and ast.dump(n.value) == text for n in ast.walk(loop))

    def prior(self, ref, key, st, node=None):
        """may an earlier iteration of an enclosing loop have stored the same key?"""
        own = {b for b, _ in ref.sub} | {t for _, t in ref.sub}
        active = [it[1] for it in st.ctx if it[0] == 'bind' and it[1] not in own]
        if not active or node is not None and not self.filled_in_loop(node):
            return False
        sure = set()
        injective(key, sure)
        return not set(active) <= sure

    def e_Attribute(self, n, st):
        v = self.norm(self.expr(n.value, st), st)
        return self.getattr(v, n.attr, st, n)

    def getattr(self, v, name, st, n):
        if isinstance(v, Alt):
            return self.each(v, st, lambda x, s2: self.getattr(x, name, s2, n))
        if isinstance(v, Ext):
            if v.name.startswith('module:'):
                return self.global_name(self.module(v.name[7:]), name)
            m = self.module(v.name)
            if m is not None:
                return self.global_name(m, name)
            return Ext(v.name + '.' + name)
        if isinstance(v, Ref) and v.obj.kind == 'inst':
            if name == '__class__':
                return v.obj.cls
            if name == '__dict__':
                raise Bail('__dict__', n)
            if name in v.obj.fields:
                return self.field(v, name, st)
            if isinstance(v.obj.cls, Cls):
                if name in self.models and self.class_attr(v.obj.cls, name):
                    return Bound(v, name)
                c = self.class_attr(v.obj.cls, name)
                if c is not None:
                    if isinstance(c[1], ast.FunctionDef):
                        decos = [d.id for d in c[1].decorator_list if isinstance(d, ast.Name)]
                        if 'property' in decos:
                            return self.call(Func(c[1], None, v, c[0]), [], {}, st, n)
                        return Func(c[1], None, None if 'staticmethod' in decos else v, c[0])
                    return self.class_const(c, name)
                raise Crash(f'{v.obj.cls!r} has no attribute {name}', n)
            return Bound(v, name)
        if isinstance(v, Cls):
            if name == '__name__':
                return v.name
            c = self.class_attr(v, name)
            if c is None:
                raise Crash(f'class {v!r} has no attribute {name}', n)
            if isinstance(c[1], ast.FunctionDef):
                return Func(c[1], None, None, c[0])
            return self.class_const(c, name)
        if isinstance(v, Ref):
            if v.obj.kind == 'path' and name in ('stem', 'name', 'suffix', 'suffixes', 'parent'):
                return v if name == 'parent' else 'p'
            if v.obj.kind in KNOWN_METHODS:
                if name not in KNOWN_METHODS[v.obj.kind] and name not in dir({'list': [], 'dict': {}, 'set': set()}.get(
                        v.obj.kind, ())) and v.obj.kind in ('list', 'dict', 'set'):
                    raise Crash(f'a {v.obj.kind} has no attribute {name}', n)
            return Bound(v, name)
        if is_unknown(v):
            return Unknown('attribute ' + name)
        if isinstance(v, tuple) or v is None or isinstance(v, (bool, int, float)):
            if not hasattr(v if v is not None else None, name):
                raise Crash(f'{v!r} has no attribute {name}', n)
            return Bound(v, name)
        if isinstance(v, (str, Str)):
            if not hasattr('', name):
                raise Crash(f'text has no attribute {name}', n)
            return Bound(v, name)
        if isinstance(v, T) and v.op in TOKENS:
            if self.num(v) and not hasattr(1, name) or not self.num(v) and not hasattr('', name):
                raise Crash(f'{"a number" if self.num(v) else "text"} ({v!r}) has no attribute {name}', n)
            return Bound(v, name)
        if isinstance(v, T):
            raise Crash(f'{v!r} has no attribute {name}', n) if v.op == 'acc' else Bail(f'attribute {name} of {v!r}', n)
        return Bound(v, name)

    def class_const(self, c, name):
        key = ('cls', c[0], name)
        if key not in self.cfg_cache:
            self.cfg_cache[key] = self.expr(c[1], State(Env({}, None, c[0].node.mod), ()))
        return self.cfg_cache[key]

    def field(self, v, name, st):
        s = {b: t for b, t in v.sub if b != t}
        val = None
        first = True
        for items, x in v.obj.fields[name]:
            items, x = subst_items(items, s), subst(x, s)
            if any(i[0] == 'bind' for i in items):
                val, first = Unknown('field set in a loop'), False
                continue
            t = self.items_truth(items, st.ctx)
            if t is False:
                continue
            if t is True or first:
                val = x if t is True else Alt([(items, x)] + ([(self.negate(items), Unknown('unset'))]))
            elif len(items) <= 3:
                val = Alt([(items, x)] + [(items[:i] + self.negate(items[i:i + 1]), val) for i in range(len(items))])
            else:
                val = Unknown('conditional field')
            first = False
        return self.norm(val, st)

    def e_Subscript(self, n, st):
        v = self.norm(self.expr(n.value, st), st)
        if isinstance(n.slice, ast.Slice):
            parts = [self.expr(x, st) if x is not None else None for x in (n.slice.lower, n.slice.upper, n.slice.step)]
            if isinstance(v, (str, Str)) or isinstance(v, T) and v.op in TOKENS:
                if all(p is None or isinstance(p, int) for p in parts):
                    return self.dec(self.enc(v, n)[slice(*parts)])
            if isinstance(v, tuple) and all(p is None or isinstance(p, int) for p in parts):
                return v[slice(*parts)]
            if isinstance(v, Ref) and v.obj.kind == 'list' and parts == [None, None, None]:
                return self.as_list(v, st)
            if isinstance(v, Ref) and v.obj.kind == 'list' and parts[1:] == [None, None] and parts[0] == 1 and \
                    v.obj.entries and not v.obj.entries[0].items:
                return Seq(self.view(v)[1:])
            if isinstance(v, (Ref, Seq)):
                return Unknown('slice')
            raise Bail('slice', n)
        k = self.norm(self.expr(n.slice, st), st)
        return self.get_item(v, k, st, n)

    def get_item(self, v, k, st, n):
        if isinstance(v, Alt):
            return self.each(v, st, lambda x, s2: self.get_item(x, k, s2, n))
        if isinstance(v, tuple):
            if isinstance(k, int):
                if not -len(v) <= k < len(v):
                    raise Crash(f'index {k} of {len(v)} values', n)
                return v[k]
            raise Bail('index of a tuple', n)
        if isinstance(v, (str, Str)) or isinstance(v, T) and v.op in TOKENS and not self.num(v):
            s = self.enc(v, n)
            if isinstance(k, int):
                if not -len(s) <= k < len(s):
                    raise Crash('index of text', n)
                return s[k]
            raise Crash(f'index {k!r} of text', n)
        if isinstance(v, Ref) and v.obj.kind == 'dict':
            r = self.lookup(v, k, st, n)
            if r is None or isinstance(r, tuple) and r[0] == 'maybe':
                if v.obj.default is not None and r is None:
                    return self.get_or_create(v, k, st, v.obj.default)
                if isinstance(r, tuple):
                    return r[2]
                if not self.prior(v, k, st, n):
                    raise Crash(f'no entry for {k!r}', n)
                raise Bail('undecided lookup', n)
            if isinstance(r, tuple):
                return r[1]
            return r
        if isinstance(v, Seq):
            v = self.as_list(v, st)
        if isinstance(v, Ref) and v.obj.kind == 'list':
            if isinstance(k, int):
                return self.nth(v, k, st, n)
            raise Bail('index of a list', n)
        if isinstance(v, Ref) and v.obj.kind == 'match':
            return self.dec(v.obj.attrs['m'].group(k))
        if isinstance(v, Ref) and v.obj.kind == 'set':
            raise Crash('index of a set', n)
        if is_unknown(v):
            return Unknown('item')
        if isinstance(v, Ref) and v.obj.kind == 'inst':
            raise Crash(f'index of {v.obj.cls!r}', n)
        if isinstance(v, (int, float, bool)) or v is None or isinstance(v, T) and v.op in TOKENS:
            raise Crash(f'index of {v!r}', n)
        raise Bail(f'index of {v!r}', n)

    def nth(self, v, k, st, n):
        es = self.view(v)
        if k < 0:
            es, k = list(reversed(es)), -k - 1
        for e in es:
            if any(i[0] == 'bind' for i in e.items):
                e = self.fresh(e)
                bs = [i for i in e.items if i[0] == 'bind']
                return subst(e.value, {i[1]: T('other', self.nb, i[1]) for i in bs})
            t = self.items_truth(e.items, st.ctx)
            if t is False:
                continue
            if t is None:
                return Unknown('element')
            if k == 0:
                return e.value
            k -= 1
        raise Crash('index of a list', n)

    # ---------------------------------------------------------------- calls
    def e_Call(self, n, st):
        f = n.func
        if isinstance(f, ast.Name) and f.id == 'super' and not n.args:
            return Ext('super')
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and \
                f.value.func.id == 'super':
            return self.call_super(f.attr, n, st)
        fv = self.norm(self.expr(f, st), st)
        dotted = fv.name if isinstance(fv, Ext) else ''
        if dotted in IGNORED_CALLS:
            return None
        args, kw = self.args(n, st)
        return self.apply(fv, args, kw, st, n)

    def args(self, n, st):
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.norm(self.expr(a.value, st), st)
                es = self.iterate(v, st, n)
                if any(e.items for e in es):
                    raise Bail('starred argument', n)
                args += [e.value for e in es]
            else:
                args.append(self.expr(a, st))
        for k in n.keywords:
            v = self.expr(k.value, st)
            if k.arg is None:
                if isinstance(v, Ref) and v.obj.kind == 'dict':
                    for e in self.view(v):
                        if e.items or not isinstance(e.key, str):
                            raise Bail('** argument', n)
                        kw[e.key] = e.value
                else:
                    raise Bail('** argument', n)
            else:
                kw[k.arg] = v
        return args, kw

    def call_super(self, name, n, st):
        e = st.env
        while e is not None and (e.cls is None or 'self' not in e.vars):
            e = e.up
        if e is None:
            raise Bail('super', n)
        me = e.vars['self']
        args, kw = self.args(n, st)
        if not isinstance(me, Ref):
            raise Bail('super', n)
        c = self.class_attr(me.obj.cls, name, e.cls)
        if c is None:
            return None
        if name in self.models:
            return self.models[name](self, me, args, kw, st, n)
        return self.call(Func(c[1], None, me, c[0]), args, kw, st, n)

    def apply(self, fv, args, kw, st, n):
        if isinstance(fv, Alt):
            return self.each(fv, st, lambda x, s2: self.apply(x, args, kw, s2, n))
        if isinstance(fv, Func):
            return self.call(fv, args, kw, st, n)
        if isinstance(fv, Cls):
            return self.construct(fv, args, kw, st, n)
        if isinstance(fv, Bound):
            return self.method(fv.val, fv.name, args, kw, st, n)
        if isinstance(fv, Ext):
            return self.external(fv.name, args, kw, st, n)
        if is_unknown(fv):
            return Unknown('call')
        raise Crash(f'{fv!r} is not callable', n)

    def construct(self, cls, args, kw, st, n):
        ref = self.new('inst', st, cls)
        c = self.class_attr(cls, '__init__')
        if c is not None:
            self.call(Func(c[1], None, ref, c[0]), args, kw, st, n)
        return ref

    def call(self, f, args, kw, st, n):
        node = f.node
        self.depth += 1
        if self.depth > 40:
            raise Bail('recursion', n)
        try:
            root = f.env
            while root is not None and root.up is not None:
                root = root.up
            mod = root.mod if root is not None else node.mod
            env = Env({}, f.env, mod, f.cls)
            if f.env is None:
                env.up = None
                env.mod = node.mod
            a = node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            vals = list(args)
            if f.self_val is not None:
                vals = [f.self_val] + vals
            if len(vals) > len(names) and a.vararg is None:
                raise Crash(f'{len(vals)} arguments for {len(names)} parameters of {getattr(node, "name", "lambda")}', n)
            for nm, v in zip(names, vals):
                env.vars[nm] = v
            if a.vararg is not None:
                env.vars[a.vararg.arg] = tuple(vals[len(names):])
            kw = dict(kw)
            for k in list(kw):
                if k in names or any(x.arg == k for x in a.kwonlyargs):
                    env.vars[k] = kw.pop(k)
            if kw and a.kwarg is None:
                raise Crash(f'unexpected argument {next(iter(kw))} of {getattr(node, "name", "lambda")}', n)
            dst = State(Env({}, f.env, mod), st.ctx) if f.env is not None else State(Env({}, None, node.mod), ())
            for nm, d in zip(names[len(names) - len(a.defaults):], a.defaults):
                if nm not in env.vars:
                    env.vars[nm] = self.expr(d, dst)
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                if x.arg not in env.vars and d is not None:
                    env.vars[x.arg] = self.expr(d, dst)
            if a.kwarg is not None:
                r = self.new('dict', st)
                for k, v in kw.items():
                    self.store(r, st, k, v)
                env.vars[a.kwarg.arg] = r
            missing = [x for x in names if x not in env.vars]
            if missing:
                raise Crash(f'argument {missing[0]} of {getattr(node, "name", "lambda")} missing', n)
            st2 = State(env, st.ctx)
            if isinstance(node, ast.Lambda):
                return self.expr(node.body, st2)
            self.calls.add(node)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node)):
                raise Bail('generator function', n)
            outs = self.block(node.body, st2)
            vals = []
            for o in outs:
                g = o[1].ctx[len(st.ctx):]
                vals.append((g, o[2] if o[0] == 'ret' else None))
            if len(vals) == 1 and not any(i[0] == 'bind' for i in vals[0][0]):
                return vals[0][1]
            first = vals[0][1]
            if all(type(v) is type(first) and v == first for _, v in vals):
                return first
            if any(i[0] == 'bind' for g, _ in vals for i in g):
                return Unknown('result of a search')
            return self.norm(Alt(vals), st)
        finally:
            self.depth -= 1

    # ---------------------------------------------------------------- built-in functions
    def update(self, ref, v, st, n):
        v = self.norm(v, st)
        if isinstance(v, Ref) and v.obj.kind == 'dict':
            for e in self.view(v):
                e = self.fresh(e)
                if self.items_truth(e.items, st.ctx) is False:
                    continue
                self.store(ref, State(st.env, st.ctx + tuple(e.items)), e.key, e.value)
            return
        for e in self.iterate(v, st, n):
            e = self.fresh(e)
            if ref.obj.kind == 'set':
                self.store(ref, State(st.env, st.ctx + tuple(e.items)), e.value, e.value)
                continue
            if not (isinstance(e.value, tuple) and len(e.value) == 2):
                raise Bail('update', n)
            self.store(ref, State(st.env, st.ctx + tuple(e.items)), e.value[0], e.value[1])

    def external(self, name, args, kw, st, n):
        args = [self.norm(a, st) for a in args]
        if name in ('list', 'tuple', 'set', 'frozenset', 'iter', 'sorted', 'reversed', 'enumerate', 'map', 'filter', 'zip',
                    'itertools.chain') and any(isinstance(a, Alt) for a in args):
            raise Bail(f'{name} of alternatives', n)
        if name in ('list', 'collections.deque'):
            return self.as_list(args[0], st, node=n) if args else self.new('list', st)
        if name in ('set', 'frozenset', 'collections.OrderedDict', 'dict'):
            kind = 'set' if name in ('set', 'frozenset') else 'dict'
            r = self.new(kind, st)
            if args:
                self.update(r, args[0], st, n)
            for k, v in kw.items():
                self.store(r, st, k, v)
            return r
        if name in ('defaultdict', 'collections.defaultdict'):
            r = self.new('dict', st)
            r.obj.default = self.factory(args[0] if args else None, n)
            if len(args) > 1:
                self.update(r, args[1], st, n)
            return r
        if name == 'tuple':
            if not args:
                return ()
            es = self.iterate(args[0], st, n)
            if any(e.items for e in es):
                return self.as_list(args[0], st)
            return tuple(e.value for e in es)
        if name == 'iter':
            return args[0]
        if name == 'next':
            return self.first(args, st, n)
        if name == 'len':
            v = args[0]
            if isinstance(v, (tuple, str)):
                return len(v)
            if isinstance(v, (Ref, Seq)):
                es = self.iterate(v, st, n) if isinstance(v, Ref) and v.obj.kind in ('list', 'dict', 'set') else []
                if isinstance(v, Ref) and v.obj.kind in ('list', 'dict', 'set') and not any(e.items for e in es):
                    return len(es)
            return Unknown('length')
        if name == 'str':
            return self.each(args[0], st, lambda x, s2: self.show(x, n)) if args else ''
        if name == 'repr':
            return self.show(args[0], n, True)
        if name in ('int', 'float', 'bool'):
            return self.each(args[0], st, lambda x, s2: self.number(name, x, s2, n))
        if name == 'round':
            v = args[0]
            if isinstance(v, T) and v.op == 'prob':
                return T('round', v, *[a for a in args[1:] if isinstance(a, int)])
            return Unknown('rounded')
        if name == 'type':
            v = args[0]
            if isinstance(v, Ref) and v.obj.kind == 'inst':
                return v.obj.cls
            return Unknown('type')
        if name == 'isinstance':
            return self.isinstance(args[0], args[1], st, n)
        if name == 'hasattr':
            v = args[0]
            if isinstance(v, Ref) and v.obj.kind == 'inst' and isinstance(args[1], str):
                return args[1] in v.obj.fields or isinstance(v.obj.cls, Cls) and self.class_attr(v.obj.cls, args[1]) is not None
            return Unknown('hasattr')
        if name in ('getattr', 'operator.attrgetter') and len(args) >= 2 and isinstance(args[1], str):
            return self.getattr(args[0], args[1], st, n)
        if name == 'setattr' and isinstance(args[1], str):
            self.set_field(args[0], args[1], args[2], st, n)
            return None
        if name == 'enumerate':
            es = self.iterate(args[0], st, n)
            if not any(e.items for e in es):
                return Seq([Entry((), None, (i, e.value)) for i, e in enumerate(es)])
            return Seq([Entry(e.items, None, (Unknown('index'), e.value)) for e in es])
        if name == 'reversed':
            return Seq(list(reversed(self.iterate(args[0], st, n))))
        if name == 'sorted':
            return self.sort(args[0], kw, st, n)
        if name == 'itertools.chain' or name == 'chain':
            return Seq([e for a in args for e in self.iterate(a, st, n)])
        if name in ('map', 'filter') and len(args) == 2:
            return self.mapped(name, args, st, n)
        if name == 'zip':
            es = [self.iterate(a, st, n) for a in args]
            if any(e.items for x in es for e in x):
                raise Bail('zip', n)
            return Seq([Entry((), None, tuple(x.value for x in t)) for t in zip(*es)])
        if name == 'range':
            if all(isinstance(a, int) for a in args) and len(range(*args)) < 64:
                return Seq([Entry((), None, i) for i in range(*args)])
            raise Bail('range', n)
        if name in ('any', 'all'):
            v = args[0]
            if isinstance(v, (Ref, Seq, tuple)):
                es = self.iterate(v, st, n)
                ts = [self.truth(e.value, st) if not any(i[0] == 'if' for i in e.items) else None for e in es]
                if name == 'any':
                    if any(t is True and (not e.items or self.filled) for t, e in zip(ts, es)):
                        return True
                    if all(t is False for t in ts):
                        return False
                else:
                    if any(t is False and not e.items for t, e in zip(ts, es)):
                        return False
                    if all(t is True for t in ts):
                        return True
            return Unknown(name)
        if name in ('re.match', 're.search', 're.fullmatch', 're.split', 're.sub', 're.findall', 're.compile'):
            return self.regex(name[3:], args, kw, st, n)
        if name in ('pathlib.Path', 'Path', 'os.fspath'):
            if isinstance(args[0], Ref) and args[0].obj.kind == 'path':
                return args[0]
            return self.new('path', st)
        if name in ('os.path.splitext',):
            return (args[0], '')
        if name == 'io.StringIO':
            r = self.new('file', st)
            for e in self.iterate(args[0].obj.attrs['file'], st, n) if isinstance(args[0], Ref) and \
                    args[0].obj.kind == 'filetext' else []:
                self.store(r, State(st.env, st.ctx + tuple(e.items)), None, e.value)
            return r
        if name == 'open' or name == 'io.open':
            return self.open_file(args[0], args[1:], kw, st, n)
        if name in ('pydot.Node', 'pydot.Edge', 'pydot.Dot', 'pydot.Graph'):
            r = self.new(name[6:].lower(), st)
            r.obj.attrs['args'] = tuple(args)
            r.obj.attrs['kw'] = dict(kw)
            r.obj.attrs['frame'] = tuple(b for b, _ in r.sub)
            return r
        if name in ('copy.copy',):
            v = args[0]
            if isinstance(v, Ref) and v.obj.kind in ('list', 'dict', 'set'):
                return self.method(v, 'copy', [], {}, st, n)
            if isinstance(v, (tuple, str, T)):
                return v
        if name in ('min', 'max') and len(args) == 1 and isinstance(args[0], (Ref, Seq)):
            es = list(self.iterate(args[0], st, n))
            if any(i[0] == 'bind' for e in es for i in e.items) and not set(kw) - {'key'}:
                return self.first([self.sort(Seq(es), kw, st, n)], st, n) if name == 'min' or 'key' not in kw else Unknown(name)
        if name in ('min', 'max', 'sum', 'abs', 'time.time', 'hash', 'id'):
            return Unknown(name)
        if name in ('ValueError', 'Exception', 'KeyError', 'TypeError', 'NotImplementedError'):
            return Unknown('exception')
        if name in IGNORED_CALLS:
            return None
        raise Bail(f'call of {name}', n)

    def number(self, name, x, st, n):
        if isinstance(x, Str) and len(x.parts) == 1 and isinstance(x.parts[0], T):
            t = x.parts[0]
            if t.op in ('prob', 'round'):
                if name == 'float':
                    return t
                raise Crash(f'{name} of a probability', n)
            if self.num(t):
                return t
            raise Crash(f'{name} of the word {t!r}', n)
        if isinstance(x, (str, Str)):
            if isinstance(x, str) and name != 'bool':
                try:
                    return int(x) if name == 'int' else float(x)
                except ValueError:
                    raise Crash(f'{name}({x!r})', n)
            if name == 'bool':
                return True
            raise Crash(f'{name} of the text {x!r}', n)
        if isinstance(x, T):
            if name == 'bool':
                t = self.truth(x, st)
                return x if x.op == 'acc' else (t if t is not None else Unknown('bool'))
            if x.op in ('prob', 'round') and name == 'float' or self.num(x) and name == 'int':
                return x
            if not self.num(x) and x.op in TOKENS:
                raise Crash(f'{name} of the word {x!r}', n)
            return Unknown(name)
        if isinstance(x, (bool, int, float)):
            return {'int': int, 'float': float, 'bool': bool}[name](x)
        if name == 'bool':
            t = self.truth(x, st)
            return t if t is not None else Unknown('bool')
        raise Crash(f'{name} of {x!r}', n)

    def isinstance(self, v, c, st, n):
        v = self.norm(v, st)
        if isinstance(c, tuple):
            rs = [self.isinstance(v, x, st, n) for x in c]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else Unknown('isinstance')
        if isinstance(v, Ref) and v.obj.kind == 'inst' and isinstance(c, Cls) and isinstance(v.obj.cls, Cls):
            return c in self.mro(v.obj.cls)
        nm = c.name if isinstance(c, Ext) else None
        if nm in ('str', 'int', 'tuple', 'list', 'dict', 'set', 'bool', 'float'):
            if isinstance(v, T) and v.op in TOKENS and v.op not in ('prob', 'round', 'acc'):
                return nm == ('int' if self.num(v) else 'str')
            if isinstance(v, (str, Str)):
                return nm == 'str'
            if isinstance(v, tuple):
                return nm == 'tuple'
            if isinstance(v, Ref) and v.obj.kind in ('list', 'dict', 'set'):
                return nm == v.obj.kind
            if isinstance(v, (bool, int, float)):
                return isinstance(v, {'int': int, 'float': float, 'bool': bool}.get(nm, type(None)))
        return Unknown('isinstance')

    def factory(self, f, n):
        if isinstance(f, Ext) and f.name in ('list', 'dict', 'set'):
            return f.name
        if isinstance(f, Func) and isinstance(f.node, ast.Lambda):
            b = f.node.body
            if isinstance(b, ast.List) and not b.elts or isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and \
                    b.func.id == 'list' and not b.args:
                return 'list'
            if isinstance(b, ast.Dict) and not b.keys:
                return 'dict'
        raise Bail('default of a dictionary', n)

    def first(self, args, st, n):
        es = self.iterate(args[0], st, n)
        for e in es:
            t = self.items_truth(e.items, st.ctx)
            if t is False:
                continue
            if not any(i[0] == 'bind' for i in e.items):
                if t is None:
                    return Unknown('first element')
                return e.value
            if any(i[0] == 'if' and not (i[2] is False and i[1].op == 'is' and INIT in i[1].args) for i in e.items):
                return Unknown('result of a search')
            e = self.fresh(e)
            bs = [i for i in e.items if i[0] == 'bind']
            return subst(e.value, {i[1]: T('other', self.nb, i[1]) for i in bs})
        if len(args) > 1:
            return args[1]
        raise Crash('no first element', n)

    def mapped(self, name, args, st, n):
        r = self.new('list', st)
        for e in self.iterate(args[1], st, n):
            e = self.fresh(e)
            if self.items_truth(e.items, st.ctx) is False:
                continue
            st2 = State(st.env, st.ctx + tuple(e.items))
            if name == 'map':
                self.store(r, st2, None, self.apply(args[0], [e.value], {}, st2, n))
            elif args[0] is None:
                raise Bail('filter', n)
            else:
                for g, t in self.cond(self.apply(args[0], [e.value], {}, st2, n), st2, n):
                    if t:
                        self.store(r, State(st.env, st2.ctx + tuple(g)), None, e.value)
        return r

    def sort(self, v, kw, st, n):
        """Seq in order; an element over the states is put first if its key is smaller than that of every other"""
        es = list(self.iterate(v, st, n))
        if len(es) == 1 and len(es[0].items) == 1 and es[0].items[0][0] == 'bind' and es[0].items[0][2] == STATES:
            e = self.fresh(es[0])
            b = e.items[0][1]
            key = kw.get('key')
            if key is not None and self.truth(kw.get('reverse', False), st) is False:
                atom = T('is', *sorted((b, INIT), key=repr))
                rest = tuple(e.items) + (('if', atom, False),)
                try:
                    k1 = self.apply(key, [subst(e.value, {b: INIT})], {}, st, n)
                    k2 = self.apply(key, [e.value], {}, State(st.env, st.ctx + rest), n)
                except Crash:
                    raise
                if self.less(k1, k2):
                    return Seq([Entry((), None, subst(e.value, {b: INIT})), Entry(rest, None, e.value)])
            if key is not None:
                return Seq([Entry(e.items, None, e.value) for e in es])
        key = kw.get('key')
        if len(es) > 1 and any(i[0] == 'bind' for e in es for i in e.items):
            try:
                free = all(self.data_only(e.value if key is None else
                                          self.apply(key, [e.value], {}, State(st.env, st.ctx + tuple(e.items)), n)) for e in es)
            except (Bail, Crash):
                free = False
            if free:        # an order by what the states say: any of them may come first
                es.sort(key=lambda e: not any(i[0] == 'bind' for i in e.items))
        return Seq([Entry(e.items, None, e.value) for e in es])

    def data_only(self, v):
        """a value composed of identifiers and outputs, whose order says nothing about the initial state"""
        if isinstance(v, (tuple, list)):
            return bool(v) and self.data_only(v[0])
        if isinstance(v, Str):
            return any(isinstance(p, T) and p.op in ('sid', 'out', 'acc') for p in v.parts)
        return isinstance(v, T) and v.op in ('sid', 'out', 'acc')

    def less(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            for x, y in zip(a, b):
                if self.less(x, y):
                    return True
                if not (isinstance(x, (bool, int, str)) and x == y):
                    return False
            return False
        if isinstance(b, Alt):
            return all(self.less(a, x) for _, x in b.options)
        if isinstance(a, Alt):
            return all(self.less(x, b) for _, x in a.options)
        if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)):
            return a < b
        return False

    def regex(self, fn, args, kw, st, n):
        if any(isinstance(a, Alt) for a in args):
            raise Bail('regular expression on alternatives', n)
        pat = args[0]
        if fn == 'compile':
            r = self.new('regex', st)
            r.obj.attrs['p'] = pat
            return r
        if isinstance(pat, Ref) and pat.obj.kind == 'regex':
            pat = pat.obj.attrs['p']
        if not isinstance(pat, str):
            raise Bail('regular expression', n)
        vals = [self.enc(a, n) if not isinstance(a, int) else a for a in args[1:]]
        res = getattr(re, fn)(pat, *vals)
        if fn in ('match', 'search', 'fullmatch'):
            if res is None:
                return None
            r = self.new('match', st)
            r.obj.attrs['m'] = res
            return r
        return self.listed(self.dec(res), st)

    def listed(self, v, st):
        if isinstance(v, list):
            r = self.new('list', st)
            for x in v:
                self.store(r, st, None, self.listed(x, st))
            return r
        return v

    def open_file(self, path, args, kw, st, n):
        raise Bail('file', n)

    def method(self, v, name, args, kw, st, n):
        args = [self.norm(a, st) for a in args]
        v = self.norm(v, st)
        if isinstance(v, Alt):
            return self.each(v, st, lambda x, s2: self.method(x, name, args, kw, s2, n))
        if isinstance(v, Ref) and v.obj.kind == 'inst':
            if name in self.models:
                return self.models[name](self, v, args, kw, st, n)
            raise Bail(f'method {name}', n)
        if isinstance(v, (str, Str)) or isinstance(v, T) and v.op in TOKENS and not self.num(v):
            return self.text_method(v, name, args, kw, st, n)
        if isinstance(v, T) and v.op in TOKENS:
            raise Crash(f'{name} of a number', n)
        if isinstance(v, Ref):
            k = v.obj.kind
            h = getattr(self, f'm_{k}_{name}', None)
            if h is None:
                raise Bail(f'{k}.{name}', n)
            return h(v, args, kw, st, n)
        if isinstance(v, tuple):
            if name in ('index', 'count'):
                return Unknown(name)
        raise Bail(f'method {name} of {v!r}', n)

    def text_method(self, v, name, args, kw, st, n):
        if any(isinstance(a, Alt) for a in args):
            raise Bail('text method on alternatives', n)
        if name == 'format':
            if isinstance(v, str) and '{' in v:
                parts = re.split(r'\{\d*\}', v)
                idx = re.findall(r'\{(\d*)\}', v)
                if '{' not in ''.join(parts):
                    out = [parts[0]]
                    for i, (x, p) in enumerate(zip(idx, parts[1:])):
                        out += [self.show(args[int(x) if x else i], n), p]
                    return self.text(out)
            raise Bail('format', n)
        if name not in SAFE_STR:
            raise Bail(f'text method {name}', n)
        if name == 'join':
            es = self.iterate(args[0], st, n)
            if any(e.items for e in es):
                raise Bail('join', n)
            out = []
            for i, e in enumerate(es):
                if i:
                    out.append(v)
                if not (isinstance(e.value, (str, Str)) or isinstance(e.value, T) and not self.num(e.value)):
                    raise Crash('join of something that is no text', n)
                out.append(self.show(e.value, n))
            return self.text(out)
        vals = []
        for a in args:
            if isinstance(a, (int, bool)) or a is None:
                vals.append(a)
            elif isinstance(a, tuple):
                vals.append(tuple(self.enc(x, n) for x in a))
            else:
                vals.append(self.enc(a, n))
        k2 = {k: (x if isinstance(x, (int, bool)) or x is None else self.enc(x, n)) for k, x in kw.items()}
        try:
            res = getattr(self.enc(v, n), name)(*vals, **k2)
        except (ValueError, TypeError) as e:
            raise Crash(f'{name}: {e}', n)
        return self.listed(self.dec(res), st)

    # lists
    def m_list_append(self, v, a, kw, st, n):
        x = a[0] if not isinstance(a[0], Seq) else self.as_list(a[0], st)
        if isinstance(x, Alt):
            for g, y in x.options:
                self.store(v, State(st.env, st.ctx + tuple(g)), None, y)
            return None
        self.store(v, st, None, x)

    def m_list_extend(self, v, a, kw, st, n):
        self.extend(v, a[0], st, n)

    def m_list_insert(self, v, a, kw, st, n):
        self.store(v, st, None, a[1])
        e = v.obj.entries.pop()
        if a[0] == 0 and not e.items:
            v.obj.entries.insert(0, e)
        else:
            raise Bail('insert', n)

    def m_list_remove(self, v, a, kw, st, n):
        inv, items = self.rename_in(v, st)
        if items:
            raise Bail('remove', n)
        x = subst(a[0], inv)
        out = []
        for e in v.obj.entries:
            free = {i[1] for i in e.items if i[0] == 'bind'}
            s = unify(e.value, x, free, {})
            if s is None:
                out.append(e)
            elif free:
                gs = [('if', T('is', *sorted((b, t), key=repr)), False) for b, t in s.items()]
                if len(gs) != 1:
                    raise Bail('remove', n)
                out.append(Entry(e.items + tuple(gs), e.key, e.value))
        v.obj.entries[:] = out

    def m_list_copy(self, v, a, kw, st, n):
        return self.as_list(v, st)

    def m_list_sort(self, v, a, kw, st, n):
        inv, items = self.rename_in(v, st)
        if items:
            raise Bail('sort', n)
        v.obj.entries[:] = [Entry(e.items, None, e.value) for e in self.sort(Seq(v.obj.entries), kw, st, n).entries]

    def m_list_index(self, v, a, kw, st, n):
        return Unknown('index')

    m_list_count = m_list_index

    def m_list_reverse(self, v, a, kw, st, n):
        v.obj.entries.reverse()

    # sets
    def m_set_add(self, v, a, kw, st, n):
        self.store(v, st, a[0], a[0])

    def m_set_update(self, v, a, kw, st, n):
        for x in a:
            self.update(v, x, st, n)

    # dictionaries
    def m_dict_items(self, v, a, kw, st, n):
        return Seq([Entry(e.items, None, (e.key, e.value)) for e in self.view(v)])

    def m_dict_keys(self, v, a, kw, st, n):
        return Seq([Entry(e.items, None, e.key) for e in self.view(v)])

    def m_dict_values(self, v, a, kw, st, n):
        return Seq([Entry(e.items, None, e.value) for e in self.view(v)])

    def m_dict_get(self, v, a, kw, st, n):
        r = self.lookup(v, a[0], st, n)
        d = a[1] if len(a) > 1 else None
        if r is None:
            if self.prior(v, a[0], st, n):
                return Unknown('get')
            return d
        if isinstance(r, tuple) and r[0] == 'val':
            return r[1]
        if isinstance(r, tuple) and len(r[1]) == 1:
            return Alt([(r[1], r[2]), (self.negate(r[1]), d)])
        return Unknown('get')

    def m_dict_setdefault(self, v, a, kw, st, n):
        d = a[1] if len(a) > 1 else None
        if isinstance(d, Ref) and d.obj.kind in ('list', 'dict', 'set') and not d.obj.entries:
            return self.get_or_create(v, a[0], st, d.obj.kind)
        r = self.lookup(v, a[0], st, n)
        if isinstance(r, tuple) and r[0] == 'val':
            return r[1]
        if r is None and not self.prior(v, a[0], st, n):
            self.store(v, st, a[0], d)
            return d
        raise Bail('setdefault', n)

    def m_dict_update(self, v, a, kw, st, n):
        for x in a:
            self.update(v, x, st, n)
        for k, x in kw.items():
            self.store(v, st, k, x)

    def m_dict_copy(self, v, a, kw, st, n):
        r = self.new('dict', st)
        r.obj.default = v.obj.default
        self.update(r, v, st, n)
        return r

    # matches
    def m_match_group(self, v, a, kw, st, n):
        r = self.dec(v.obj.attrs['m'].group(*a))
        return tuple(r) if isinstance(r, list) else r

    def m_match_groups(self, v, a, kw, st, n):
        return tuple(self.dec(v.obj.attrs['m'].groups()))

    def m_regex_match(self, v, a, kw, st, n):
        return self.regex('match', [v.obj.attrs['p']] + a, kw, st, n)

    def m_regex_search(self, v, a, kw, st, n):
        return self.regex('search', [v.obj.attrs['p']] + a, kw, st, n)

    def m_regex_fullmatch(self, v, a, kw, st, n):
        return self.regex('fullmatch', [v.obj.attrs['p']] + a, kw, st, n)

    # files
    def m_path_with_suffix(self, v, a, kw, st, n):
        return v

    m_path_resolve = m_path_absolute = m_path_expanduser = m_path_with_name = m_path_joinpath = m_path_with_suffix

    def m_path_as_posix(self, v, a, kw, st, n):
        return 'p'

    m_path_as_uri = m_path_as_posix

    def m_path_exists(self, v, a, kw, st, n):
        return Unknown('exists')

    m_path_is_file = m_path_exists

    def m_path_open(self, v, a, kw, st, n):
        return self.open_file(v, a, kw, st, n)

    def m_path_read_text(self, v, a, kw, st, n):
        return self.m_file_read(self.open_file(v, a, kw, st, n), [], {}, st, n)

    def m_file_readlines(self, v, a, kw, st, n):
        return v

    def m_file_close(self, v, a, kw, st, n):
        return None

    def m_file_read(self, v, a, kw, st, n):
        r = self.new('filetext', st)
        r.obj.attrs['file'] = v
        return r

    def m_filetext_splitlines(self, v, a, kw, st, n):
        f = v.obj.attrs['file']
        return Seq([Entry(e.items, None, self.text_method(e.value, 'rstrip', ['\n'], {}, st, n)) for e in self.view(f)])

    def m_filetext_split(self, v, a, kw, st, n):
        if a == ['\n']:
            return self.m_filetext_splitlines(v, [], kw, st, n)
        raise Bail('split of a file', n)

    # graphs
    def m_dot_add_node(self, v, a, kw, st, n):
        self.store(v, st, None, a[0])

    m_dot_add_edge = m_dot_add_node

    def m_dot_to_string(self, v, a, kw, st, n):
        r = self.new('filetext', st)
        r.obj.attrs['file'] = self.graph_lines(v, st, n)
        return r

    def m_dot_write(self, v, a, kw, st, n):
        self.files['graph'] = self.graph_lines(v, st, n)
        self.files['format'] = kw.get('format', a[1] if len(a) > 1 else 'raw')

    def m_node_get_name(self, v, a, kw, st, n):
        return v.obj.attrs['args'][0]

    def graph_lines(self, g, st, n):
        f = self.new('file', st)
        self.store(f, st, None, 'digraph model {\n')
        for e in self.view(g):
            e = self.fresh(e)
            if self.items_truth(e.items, st.ctx) is False:
                continue
            st2 = State(st.env, st.ctx + tuple(e.items))
            v = self.norm(e.value, st2)
            for gd, x in (v.options if isinstance(v, Alt) else [((), v)]):
                s3 = State(st.env, st2.ctx + tuple(gd))
                self.store(f, s3, None, self.graph_line(x, s3, n))
        self.store(f, st, None, '}\n')
        return f

    def graph_line(self, v, st, n):
        if not isinstance(v, Ref) or v.obj.kind not in ('node', 'edge'):
            raise Bail('element of a graph', n)
        sub = {b: t for b, t in v.sub if b != t}
        args = [subst(a, sub) for a in v.obj.attrs['args']]
        kw = {k: subst(x, sub) for k, x in v.obj.attrs['kw'].items()}

        def val(x):
            x = self.norm(x, st)
            if isinstance(x, Alt):
                raise Bail('attribute with alternatives', n)
            t = self.show(x, n)
            s = self.enc(t, n)
            if re.fullmatch(r'[A-Za-z_]\w*|-?(\.\d+|\d+(\.\d*)?)|".*"', s):
                return t
            return self.text(['"', t, '"'])
        if v.obj.kind == 'node':
            name = args[0] if args else kw.pop('name')
            head = [val(name)]
        else:
            head = [val(args[0]), ' -> ', val(args[1])]
        parts = list(head)
        if kw:
            parts.append(' [')
            for i, (k, x) in enumerate(kw.items()):
                if i:
                    parts.append(', ')
                parts += [k, '=', val(x)]
            parts.append(']')
        return self.text(parts + [';\n'])


KNOWN_METHODS = {'list': set(), 'dict': set(), 'set': set()}
