"""Loads the package under analysis: every module of /repo/aalpy as a syntax tree (nothing is imported or run)."""
import ast
import os

REPO = os.environ.get("VERIF_REPO", "/repo")


class AnalysisBroken(Exception):
    """An anchor vanished or the analysis cannot be carried out: an error of the check, never a silent pass."""


class Module:
    def __init__(self, name, path, tree, is_pkg, src):
        self.name, self.path, self.tree, self.is_pkg, self.src = name, path, tree, is_pkg, src

    def __repr__(self):
        return f"<module {self.name}>"

    @property
    def rel(self):
        return os.path.relpath(self.path, REPO) if self.path.startswith(REPO) else self.path


class Desugar(ast.NodeTransformer):
    """`match` statements as chains of `if`; so that every engine sees only the older statements"""
    n = 0

    def visit_Match(self, node):
        self.generic_visit(node)
        Desugar.n += 1
        tmp = f'_match{Desugar.n}'

        def load(x):
            return ast.Name(x, ast.Load())

        def call(f, *a):
            return ast.Call(load(f), list(a), [])

        def test(p, subj):
            """(conditions, bindings)"""
            if isinstance(p, ast.MatchValue):
                return [ast.Compare(subj(), [ast.Eq()], [p.value])], []
            if isinstance(p, ast.MatchSingleton):
                return [ast.Compare(subj(), [ast.Is()], [ast.Constant(p.value)])], []
            if isinstance(p, ast.MatchAs):
                c, b = test(p.pattern, subj) if p.pattern is not None else ([], [])
                return c, b + ([(p.name, subj())] if p.name else [])
            if isinstance(p, ast.MatchOr):
                cs = [test(x, subj) for x in p.patterns]
                if any(not c for c, _ in cs):
                    return [], []
                alts = [c[0] if len(c) == 1 else ast.BoolOp(ast.And(), c) for c, _ in cs]
                return [ast.BoolOp(ast.Or(), alts)], [b for _, bs in cs[:1] for b in bs]
            if isinstance(p, ast.MatchSequence) and not any(isinstance(x, ast.MatchStar) for x in p.patterns):
                c = [call('isinstance', subj(), ast.Tuple([load('tuple'), load('list')], ast.Load())),
                     ast.Compare(call('len', subj()), [ast.Eq()], [ast.Constant(len(p.patterns))])]
                b = []
                for i, x in enumerate(p.patterns):
                    c2, b2 = test(x, lambda i=i: ast.Subscript(subj(), ast.Constant(i), ast.Load()))
                    c, b = c + c2, b + b2
                return c, b
            if isinstance(p, ast.MatchClass) and not p.patterns:
                c, b = [call('isinstance', subj(), p.cls)], []
                for k, x in zip(p.kwd_attrs, p.kwd_patterns):
                    c2, b2 = test(x, lambda k=k: ast.Attribute(subj(), k, ast.Load()))
                    c, b = c + c2, b + b2
                return c, b
            raise AnalysisBroken(f'unsupported pattern {ast.unparse(p)}')

        subj = node.subject
        simple = isinstance(subj, ast.Name) or isinstance(subj, ast.Attribute) and isinstance(subj.value, ast.Name)

        def get():
            return ast.parse(ast.unparse(subj), mode='eval').body if simple else load(tmp)
        chain = None
        for c in reversed(node.cases):
            conds, binds = test(c.pattern, get)
            pre = [ast.Assign([ast.Name(n, ast.Store())], v) for n, v in binds]
            if c.guard is not None:
                if pre:      # bind, then test the guard; what follows is tested again if it fails
                    ren = dict(binds)

                    class R(ast.NodeTransformer):
                        def visit_Name(self, x):
                            return ren.get(x.id, x) if isinstance(x.ctx, ast.Load) else x
                    guard = R().visit(ast.parse(ast.unparse(c.guard), mode='eval').body)
                else:
                    guard = c.guard
                conds = conds + [guard]
            body = pre + c.body
            if not conds:
                chain = body
            else:
                t = conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds)
                chain = [ast.If(t, body, chain or [])]
        out = ([] if simple else [ast.Assign([ast.Name(tmp, ast.Store())], subj)]) + (chain or [ast.Pass()])

        def place(x, at):
            if 'lineno' in x._attributes:
                if getattr(x, 'lineno', None) is None:
                    for f in ('lineno', 'col_offset', 'end_lineno', 'end_col_offset'):
                        setattr(x, f, getattr(at, f))
                else:
                    at = x
            for y in ast.iter_child_nodes(x):
                place(y, at)
        for x in out:
            place(x, node.subject)
        return out


class Inline(ast.NodeTransformer):
    """`x = E` directly before the only use of x as the value returned, the condition tested or the collection iterated over"""

    def visit_FunctionDef(self, node):
        loads, stores, bad = {}, {}, set()
        for x in ast.walk(node):
            if isinstance(x, ast.Name):
                d = loads if isinstance(x.ctx, ast.Load) else stores
                d[x.id] = d.get(x.id, 0) + 1
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                bad |= set(x.names)
            elif isinstance(x, ast.arg):
                bad.add(x.arg)
        self.once = {n for n in loads if loads[n] == 1 and stores.get(n) == 1 and n not in bad}
        if self.once:
            self.block(node)
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def block(self, node):
        for f in ('body', 'orelse', 'finalbody'):
            ls = getattr(node, f, None)
            if not isinstance(ls, list):
                continue
            i = 0
            while i + 1 < len(ls):
                a, b = ls[i], ls[i + 1]
                if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and \
                        a.targets[0].id in self.once:
                    at = 'value' if isinstance(b, ast.Return) else 'iter' if isinstance(b, ast.For) else \
                        'test' if isinstance(b, ast.If) else None
                    v = getattr(b, at) if at else None
                    if isinstance(v, ast.Name) and v.id == a.targets[0].id:
                        setattr(b, at, a.value)
                        del ls[i]
                        i = max(i - 1, 0)
                        continue
                    if isinstance(v, ast.UnaryOp) and isinstance(v.operand, ast.Name) and v.operand.id == a.targets[0].id:
                        v.operand = a.value
                        del ls[i]
                        i = max(i - 1, 0)
                        continue
                i += 1
            for x in ls:
                if isinstance(x, ast.AST):
                    self.block(x)
        for h in getattr(node, 'handlers', ()):
            self.block(h)


class Program:
    def __init__(self, root=None, package="aalpy"):
        root = root or REPO
        self.root = root
        self.modules = {}
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise AnalysisBroken(f"package directory {base} not found")
        for d, dirs, files in os.walk(base):
            dirs.sort()
            dirs[:] = [x for x in dirs if x != "__pycache__"]
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                is_pkg = rel.endswith(".__init__")
                name = rel[:-9] if is_pkg else rel
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                try:
                    tree = ast.parse(src, p)
                except SyntaxError as e:
                    raise AnalysisBroken(f"{p} does not parse: {e}")
                if 'match' in src:
                    tree = Desugar().visit(tree)
                tree = Inline().visit(tree)
                self.modules[name] = Module(name, p, tree, is_pkg, src)
        self.annotate()

    def add_source(self, name, src):
        tree = ast.parse(src, f"<{name}>")
        m = Module(name, f"<{name}>", tree, False, src)
        self.modules[name] = m
        self._annotate(m)
        return m

    def annotate(self):
        for m in self.modules.values():
            self._annotate(m)

    def _annotate(self, m):
        """node.parent, node.mod, node.qual (enclosing qualified name)."""
        def walk(node, parent, qual):
            node.parent = parent
            node.mod = m
            node.qual = qual
            q = qual
            if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                q = (qual + "." if qual else "") + node.name
            for c in ast.iter_child_nodes(node):
                walk(c, node, q)
        walk(m.tree, None, "")

    def functions(self):
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.FunctionDef):
                    yield n

    def classes(self):
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    yield n


def fq(fn):
    """module-relative qualified name of a function/class node"""
    return (fn.qual + "." if fn.qual else "") + getattr(fn, "name", "<lambda>")


def where(node):
    m = node.mod
    q = node.qual or "<module>"
    return f"{m.rel}:{getattr(node, 'lineno', 0)} in {q}"


def construct_key(node):
    """A position-independent name of a construct: file, enclosing function and normalised source of the node."""
    m = node.mod
    try:
        txt = ast.unparse(node)
    except Exception:
        txt = type(node).__name__
    txt = " ".join(txt.split())[:120]
    return f"{m.rel}::{node.qual or '<module>'}::{txt}"
