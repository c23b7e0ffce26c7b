"""refactor.py NAME OUT: write /repo's package with one behaviour-preserving rewriting applied everywhere (to see that the
checks stay quiet on it).  refactor.py --list names them.  Not used by any check."""
import ast
import builtins
import copy
import os
import shutil
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
N = [0]


def fresh(p):
    N[0] += 1
    return f'{p}_{N[0]}'


def name(i, store=False):
    return ast.Name(i, ast.Store() if store else ast.Load())


def assign(i, v):
    return ast.Assign([name(i, True)], v)


def simple(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, ast.Name)


def pure_names(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


class Stmts(ast.NodeTransformer):
    """rewrites statement lists inside functions: stmt(s) -> list or None"""
    infn = 0

    def visit_FunctionDef(self, n):
        self.infn += 1
        self.fn = n
        self.generic_visit(n)
        self.infn -= 1
        return n

    def generic_visit(self, n):
        super().generic_visit(n)
        if self.infn and not isinstance(n, ast.Module):
            for f in ('body', 'orelse', 'finalbody'):
                l = getattr(n, f, None)
                if isinstance(l, list) and l and isinstance(l[0], ast.stmt):
                    setattr(n, f, self.block(l))
        return n

    def block(self, l):
        out = []
        for s in l:
            r = self.stmt(s)
            out += [s] if r is None else r
        return out


class Ret(Stmts):
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            t = fresh('result')
            return [assign(t, s.value), ast.Return(name(t))]


class Invert(Stmts):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse:
            s.test = s.test.operand if isinstance(s.test, ast.UnaryOp) and isinstance(s.test.op, ast.Not) else \
                ast.UnaryOp(ast.Not(), s.test)
            s.body, s.orelse = s.orelse, s.body


class IfExp(Stmts):
    def stmt(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
            v = s.value
            return [ast.If(v.test, [ast.Assign(copy.deepcopy(s.targets), v.body)], [ast.Assign(s.targets, v.orelse)])]
        if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
            v = s.value
            return [ast.If(v.test, [ast.Return(v.body)], []), ast.Return(v.orelse)]


class ToIfExp(Stmts):
    def stmt(self, s):
        if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1:
            a, b = s.body[0], s.orelse[0]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and ast.dump(a.targets[0]) == ast.dump(b.targets[0]) \
                    and len(a.targets) == len(b.targets) == 1:
                return [ast.Assign(a.targets, ast.IfExp(s.test, a.value, b.value))]


class Aug(Stmts):
    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.op, (ast.Add, ast.Sub)) and simple(s.target) and \
                (isinstance(s.value, ast.Constant) and isinstance(s.value.value, (int, float)) or
                 isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == 'len'):
            t = copy.deepcopy(s.target)
            t.ctx = ast.Load()
            return [ast.Assign([s.target], ast.BinOp(t, s.op, s.value))]


class Items(Stmts):
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) and \
                s.iter.func.attr == 'items' and simple(s.iter.func.value) and isinstance(s.target, ast.Tuple) and \
                isinstance(s.target.elts[0], ast.Name) and len(s.target.elts) == 2:
            d = s.iter.func.value
            k = s.target.elts[0]
            if pure_names(d) & {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}:
                return None
            s.body.insert(0, ast.Assign([s.target.elts[1]], ast.Subscript(copy.deepcopy(d), name(k.id), ast.Load())))
            s.target = k
            s.iter = d


class Arg(Stmts):
    def stmt(self, s):
        v = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) else None
        if isinstance(v, ast.Call) and v.args and isinstance(v.args[0], (ast.Call, ast.BinOp, ast.Tuple, ast.ListComp)) and \
                simple(v.func) and not (isinstance(v.func, ast.Name) and v.func.id == 'super'):
            if any(isinstance(x, (ast.Yield, ast.NamedExpr)) for x in ast.walk(v)):
                return None
            t = fresh('arg')
            a = v.args[0]
            v.args[0] = name(t)
            return [assign(t, a), s]


class Comp(Stmts):
    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
                isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
            x, c = s.targets[0].id, s.value
            if x in pure_names(c) or any(isinstance(y, (ast.Lambda, ast.ListComp, ast.GeneratorExp)) for y in ast.walk(c.elt)):
                return None
            g = c.generators[0]
            ren = {y.id: fresh(y.id) for y in ast.walk(g.target) if isinstance(y, ast.Name)}

            class R(ast.NodeTransformer):
                def visit_Name(self, n):
                    n.id = ren.get(n.id, n.id)
                    return n
            if pure_names(g.iter) & set(ren):
                return None
            elt, tgt, ifs = R().visit(c.elt), R().visit(g.target), [R().visit(i) for i in g.ifs]
            body = [ast.Expr(ast.Call(ast.Attribute(name(x), 'append', ast.Load()), [elt], []))]
            for i in reversed(ifs):
                body = [ast.If(i, body, [])]
            return [assign(x, ast.List([], ast.Load())), ast.For(tgt, g.iter, body, [])]


class ToComp(Stmts):
    def block(self, l):
        out = []
        for s in l:
            if out and isinstance(s, ast.For) and isinstance(out[-1], ast.Assign) and len(out[-1].targets) == 1 and \
                    isinstance(out[-1].targets[0], ast.Name) and ast.unparse(out[-1].value) in ('[]', 'list()') and \
                    len(s.body) == 1 and not s.orelse:
                x, b, ifs = out[-1].targets[0].id, s.body[0], []
                if isinstance(b, ast.If) and not b.orelse and len(b.body) == 1:
                    ifs, b = [b.test], b.body[0]
                if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and ast.unparse(b.value.func) == x + '.append' and \
                        x not in pure_names(b.value.args[0]) | set().union(*map(pure_names, ifs or [ast.Tuple([], ast.Load())])):
                    out[-1] = assign(x, ast.ListComp(b.value.args[0], [ast.comprehension(s.target, s.iter, ifs, 0)]))
                    continue
            out.append(s)
        return out


def leaves(l):
    return bool(l) and isinstance(l[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class Else(Stmts):
    def block(self, l):
        for i, s in enumerate(l):
            if isinstance(s, ast.If) and not s.orelse and leaves(s.body) and l[i + 1:]:
                s.orelse = self.block(l[i + 1:])
                return l[:i + 1]
        return l


class Flat(Stmts):
    def block(self, l):
        out = []
        for s in l:
            if isinstance(s, ast.If) and s.orelse and leaves(s.body):
                rest, s.orelse = s.orelse, []
                out += [s] + rest
            else:
                out.append(s)
        return out


class Nest(Stmts):
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            b = s.body
            for v in reversed(s.test.values):
                b = [ast.If(v, b, [])]
            return b


class While(Stmts):
    def stmt(self, s):
        if isinstance(s, ast.While) and not s.orelse and not isinstance(s.test, ast.Constant):
            s.body.insert(0, ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Break()], []))
            s.test = ast.Constant(True)


class Cond(Stmts):
    def stmt(self, s):
        if isinstance(s, ast.If) and isinstance(s.test, (ast.Compare, ast.BoolOp, ast.Call)) and \
                not any(isinstance(x, ast.NamedExpr) for x in ast.walk(s.test)):
            t = fresh('condition')
            a = assign(t, s.test)
            s.test = name(t)
            return [a, s]


class Iter(Stmts):
    def stmt(self, s):
        if isinstance(s, ast.For) and not isinstance(s.iter, ast.Name):
            t = fresh('sequence')
            a = assign(t, s.iter)
            s.iter = name(t)
            return [a, s]


class ToMatch(ast.NodeTransformer):
    """if x == 'a': .. elif x == 'b': .. else: ..  as match"""

    def visit_If(self, n):
        chain, p, subj = [], n, None
        while True:
            t = p.test
            if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Eq) and simple(t.left) and
                    isinstance(t.comparators[0], ast.Constant) and isinstance(t.comparators[0].value, str)):
                break
            if subj is not None and ast.dump(subj) != ast.dump(t.left):
                break
            subj = t.left
            chain.append((t.comparators[0], p.body))
            if len(p.orelse) == 1 and isinstance(p.orelse[0], ast.If):
                p = p.orelse[0]
                rest = [p]
                continue
            rest = p.orelse
            p = None
            break
        self.generic_visit(n)
        if not chain:
            return n
        rest = rest if p is None else [p]
        cases = [ast.match_case(ast.MatchValue(c), None, b) for c, b in chain]
        if rest:
            cases.append(ast.match_case(ast.MatchAs(None, None), None, rest))
        return ast.Match(subj, cases)


class Alias(Stmts):
    ATTRS = {'sul', 'eq_oracle', 'alphabet', 'teacher', 'cache'}

    def visit_FunctionDef(self, n):
        if not n.args.args or n.args.args[0].arg != 'self' or n.name == '__init__':
            return n
        used = {}
        for x in ast.walk(n):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' and x.attr in self.ATTRS:
                used.setdefault(x.attr, set()).add(type(x.ctx).__name__)
        ren = {a: fresh(a) for a, c in sorted(used.items()) if c == {'Load'}}
        if not ren or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
            return n

        class R(ast.NodeTransformer):
            def visit_Attribute(self, x):
                self.generic_visit(x)
                if isinstance(x.value, ast.Name) and x.value.id == 'self' and x.attr in ren:
                    return name(ren[x.attr])
                return x
        doc = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body = n.body[:doc] + [assign(v, ast.Attribute(name('self'), a, ast.Load())) for a, v in ren.items()] + \
            [R().visit(s) for s in n.body[doc:]]
        return n


class Format(ast.NodeTransformer):
    def visit_JoinedStr(self, n):
        if any(isinstance(v, ast.FormattedValue) and (v.format_spec or v.conversion != -1) for v in n.values):
            return n
        self.generic_visit(n)
        s, args = '', []
        for v in n.values:
            if isinstance(v, ast.Constant):
                s += v.value.replace('{', '{{').replace('}', '}}')
            else:
                s += '{}'
                args.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(s), 'format', ast.Load()), args, [])


class InSet(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and simple(n.left) and \
                isinstance(n.comparators[0], (ast.Set, ast.List, ast.Tuple)) and 1 < len(n.comparators[0].elts) < 5 and \
                all(isinstance(e, ast.Constant) and isinstance(e.value, str) for e in n.comparators[0].elts):
            eq, op = (ast.Eq(), ast.Or()) if isinstance(n.ops[0], ast.In) else (ast.NotEq(), ast.And())
            return ast.BoolOp(op, [ast.Compare(copy.deepcopy(n.left), [eq], [e]) for e in n.comparators[0].elts])
        return n


class Enum(Stmts):
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and \
                s.iter.func.id == 'enumerate' and len(s.iter.args) == 1 and not s.iter.keywords and \
                isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name):
            i = s.target.elts[0].id
            if any(isinstance(x, ast.Name) and x.id == i and isinstance(x.ctx, ast.Store) for b in s.body for x in ast.walk(b)):
                return None
            s.body.insert(0, ast.AugAssign(name(i, True), ast.Add(), ast.Constant(1)))
            s.target, s.iter = s.target.elts[1], s.iter.args[0]
            return [assign(i, ast.Constant(-1)), s]


class Swap(ast.NodeTransformer):
    M = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        return n


class Ctor(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and not n.args and not n.keywords:
            if n.func.id == 'dict':
                return ast.Dict([], [])
            if n.func.id == 'list':
                return ast.List([], ast.Load())
            if n.func.id == 'tuple':
                return ast.Tuple([], ast.Load())
        return n


class Kw(ast.NodeTransformer):
    """positional arguments passed by keyword, for functions and classes of the package known by a unique name"""
    SIG = None

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in self.SIG and len(n.args) > 1 and \
                not any(isinstance(a, ast.Starred) for a in n.args):
            ps = self.SIG[n.func.id]
            if len(n.args) <= len(ps):
                n.keywords = [ast.keyword(p, a) for p, a in zip(ps[1:], n.args[1:])] + n.keywords
                n.args = n.args[:1]
        return n


class Reorder(Stmts):
    def block(self, l):
        out = list(l)
        i = 0
        while i + 1 < len(out):
            a, b = out[i], out[i + 1]
            if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and
                   (isinstance(x.value, ast.Constant) or ast.unparse(x.value) in ('[]', '{}', 'list()', 'dict()', 'set()', '()'))
                   for x in (a, b)) and a.targets[0].id != b.targets[0].id:
                out[i], out[i + 1] = b, a
                i += 1
            i += 1
        return out


class Methods(ast.NodeTransformer):
    def visit_ClassDef(self, n):
        d = [s for s in n.body if isinstance(s, ast.FunctionDef)]
        if len({x.name for x in d}) == len(d) and not any(x.decorator_list for x in d):
            n.body = [s for s in n.body if not isinstance(s, ast.FunctionDef)] + d[::-1]
        return n


class Assert(Stmts):
    def stmt(self, s):
        if isinstance(s, ast.Assert):
            return [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Raise(ast.Call(name('AssertionError'),
                                                                             [s.msg] if s.msg else [], []))], [])]


class Append(Stmts):
    def stmt(self, s):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                s.value.func.attr == 'append' and len(s.value.args) == 1:
            s.value.func.attr = 'extend'
            s.value.args = [ast.List(s.value.args, ast.Load())]


def locals_of(fn):
    ps = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs + [x for x in (fn.args.vararg, fn.args.kwarg) if x]}
    st = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    imp = {(al.asname or al.name).split('.')[0] for x in ast.walk(fn) if isinstance(x, (ast.Import, ast.ImportFrom)) for al in x.names}
    nested = {x.name for x in ast.walk(fn) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not fn}
    return ps, st, imp | nested


class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        ps, st, other = locals_of(n)
        if any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(n)):
            return n
        inner = {a.arg for x in ast.walk(n) if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not n
                 for a in x.args.args + x.args.kwonlyargs}
        ren = {v: v + '_v' for v in st - ps - other - inner}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in ren:
                x.id = ren[x.id]
            if isinstance(x, ast.ExceptHandler) and x.name in ren:
                x.name = ren[x.name]
        return n


class Helper(Stmts):
    """expressions and blocks extracted into new functions of the module"""
    def __init__(self, tree, blocks):
        self.tree, self.new, self.blocks = tree, [], blocks
        self.depth = 0

    def visit_ClassDef(self, n):
        return self.generic_visit(n)

    def visit_FunctionDef(self, n):
        self.depth += 1
        if self.depth == 1:
            ps, st, other = locals_of(n)
            self.loc = ps | st | other
            if other or any(isinstance(x, (ast.Global, ast.Nonlocal, ast.NamedExpr, ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
                self.depth -= 1
                return n
            self.infn = 1
            self.generic_visit(n)
            self.infn = 0
        self.depth -= 1
        return n

    def free(self, nodes):
        comp = set()
        for e in nodes:
            for x in ast.walk(e):
                if isinstance(x, ast.comprehension):
                    comp |= {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}
                if isinstance(x, ast.Lambda):
                    comp |= {a.arg for a in x.args.args}
        fr = []
        for e in nodes:
            for x in ast.walk(e):
                if isinstance(x, ast.Name) and x.id in self.loc and x.id not in fr and x.id not in comp:
                    fr.append(x.id)
        bad = comp & {x.id for e in nodes for x in ast.walk(e) if isinstance(x, ast.Name) and x.id in self.loc and x.id not in comp}
        return None if bad else fr

    def ok(self, nodes):
        return not any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.Return, ast.FunctionDef)) or
                       isinstance(x, ast.Name) and x.id in ('super', '__class__', 'locals') or
                       isinstance(x, ast.Attribute) and x.attr.startswith('__') and not x.attr.endswith('__') for e in nodes for x in ast.walk(e))

    def make(self, body, fr):
        f = fresh('_helper')
        self.new.append(ast.FunctionDef(f, ast.arguments([], [ast.arg(a) for a in fr], None, [], [], None, []), body, []))
        return ast.Call(name(f), [name(a) for a in fr], [])

    def stmt(self, s):
        if self.blocks:
            if isinstance(s, (ast.If, ast.For)) and len(s.body) > 0 and self.ok(s.body) and not any(
                    isinstance(x, (ast.Break, ast.Continue)) or isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))
                    for b in s.body for x in ast.walk(b) if not self.in_comp(b, x)) and \
                    not (len(s.body) == 1 and isinstance(s.body[0], (ast.Pass, ast.Raise))):
                fr = self.free(s.body)
                if fr is not None:
                    s.body = [ast.Expr(self.make(s.body, fr))]
            return None
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.Call, ast.BoolOp, ast.ListComp, ast.BinOp, ast.Compare)) \
                and self.ok([s.value]) and sum(1 for _ in ast.walk(s.value)) > 8:
            fr = self.free([s.value])
            if fr is not None:
                s.value = self.make([ast.Return(s.value)], fr)
        elif isinstance(s, ast.If) and isinstance(s.test, (ast.Call, ast.BoolOp, ast.Compare)) and self.ok([s.test]) and \
                sum(1 for _ in ast.walk(s.test)) > 8:
            fr = self.free([s.test])
            if fr is not None:
                s.test = self.make([ast.Return(s.test)], fr)
        return None

    def in_comp(self, b, x):
        return any(x in list(ast.walk(c.target)) for y in ast.walk(b) for c in getattr(y, 'generators', []))

    def run(self):
        t = self.visit(self.tree)
        # defined before the first function so that module-level calls still work; imports stay first
        i = next((k for k, s in enumerate(t.body) if isinstance(s, (ast.FunctionDef, ast.ClassDef))), len(t.body))
        t.body[i:i] = self.new
        return t


class Lambda(Stmts):
    def stmt(self, s):
        if not isinstance(s, (ast.Expr, ast.Assign, ast.Return)):
            return None
        pre = []
        comps = [c for c in ast.walk(s) if isinstance(c, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.Lambda))]

        class R(ast.NodeTransformer):
            def visit_Lambda(self, n):
                if any(n is not c and n in list(ast.walk(c)) for c in comps):
                    return n
                f = fresh('function')
                pre.append(ast.FunctionDef(f, n.args, [ast.Return(n.body)], []))
                return name(f)
        s = R().visit(s)
        return pre + [s] if pre else None


TREES = {'unparse': lambda t: t, 'rename': Rename().visit, 'format': Format().visit, 'inset': InSet().visit, 'swap': Swap().visit,
         'ctor': Ctor().visit, 'kw': Kw().visit, 'methods': Methods().visit,
         'helper': lambda t: Helper(t, False).run(), 'block': lambda t: Helper(t, True).run()}
for c in (Ret, Invert, IfExp, ToIfExp, Aug, Items, Arg, Comp, ToComp, Else, Flat, Nest, While, Cond, Iter, Alias, Enum, Reorder,
          Assert, Append, Lambda, ToMatch):
    TREES[c.__name__.lower()] = (lambda c: lambda t: c().visit(t))(c)


def signatures(root):
    sig, twice = {}, set()
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith('.py'):
                for n in ast.parse(open(os.path.join(d, f)).read()).body:
                    if isinstance(n, ast.FunctionDef):
                        a, nm = n.args, n.name
                    elif isinstance(n, ast.ClassDef):
                        init = [m for m in n.body if isinstance(m, ast.FunctionDef) and m.name == '__init__']
                        if not init:
                            twice.add(n.name)
                            continue
                        a, nm = copy.deepcopy(init[0].args), n.name
                        a.args = a.args[1:]
                    else:
                        continue
                    if nm in sig or a.vararg or a.posonlyargs or hasattr(builtins, nm):
                        twice.add(nm)
                    sig[nm] = [x.arg for x in a.args]
    return {k: v for k, v in sig.items() if k not in twice}


def main():
    if sys.argv[1] == '--list':
        print(' '.join(TREES))
        return
    ts, out = sys.argv[1].split('+'), sys.argv[2]
    src = os.path.join(REPO, 'aalpy')
    Kw.SIG = signatures(src)
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(src, os.path.join(out, 'aalpy'), ignore=shutil.ignore_patterns('__pycache__'))
    n = 0
    for d, _, fs in os.walk(os.path.join(out, 'aalpy')):
        for f in sorted(fs):
            if f.endswith('.py') and f != '__init__.py':
                p = os.path.join(d, f)
                t = ast.parse(open(p).read())
                before = ast.unparse(t)
                for x in ts:
                    t = ast.fix_missing_locations(TREES[x](t))
                after = ast.unparse(t)
                n += before != after
                open(p, 'w').write(after + '\n')
    print(sys.argv[1], n, 'files changed')


main()
