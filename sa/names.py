"""Static name resolution: module-level functions and classes, imports, base classes."""
import ast


class Names:
    def __init__(self, prog):
        self.prog = prog
        self.tables = {}
        self._mro = {}

    def table(self, mod):
        if mod in self.tables:
            return self.tables[mod]
        t = self.tables[mod] = {}
        m = self.prog.modules.get(mod)
        if m is None:
            return t
        pkg = mod if m.is_pkg else mod.rpartition('.')[0]
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and isinstance(n.parent, ast.Module):
                t[n.name] = ('def', n)
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    up = pkg.split('.')
                    up = up[:len(up) - (n.level - 1)]
                    base = '.'.join(up + ([n.module] if n.module else []))
                for a in n.names:
                    if a.name == '*':
                        for k, v in self.table(base).items():
                            t.setdefault(k, v)
                    else:
                        t.setdefault(a.asname or a.name, ('from', base, a.name))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    t.setdefault(a.asname or a.name.split('.')[0], ('mod', a.name))
            elif isinstance(n, ast.Assign) and isinstance(n.parent, ast.Module):
                for x in n.targets:
                    if isinstance(x, ast.Name):
                        t.setdefault(x.id, ('val', n.value))
        return t

    def resolve(self, mod, name, depth=0):
        """the FunctionDef/ClassDef (or ('val', node)) a global name of module mod denotes, or None"""
        e = self.table(mod).get(name)
        if e is None or depth > 8:
            return None
        if e[0] == 'def':
            return e[1]
        if e[0] == 'from':
            if e[1] in self.prog.modules:
                r = self.resolve(e[1], e[2], depth + 1)
                if r is not None:
                    return r
            return None
        if e[0] == 'val':
            return e
        return None

    def bases(self, cls):
        out = []
        for b in cls.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            r = None
            if isinstance(b, ast.Name):
                r = self.resolve(cls.mod.name, b.id)
            if isinstance(r, ast.ClassDef):
                out.append(r)
        return out

    def mro(self, cls):
        if cls in self._mro:
            return self._mro[cls]
        out = [cls]
        self._mro[cls] = out
        for b in self.bases(cls):
            for c in self.mro(b):
                if c in out:
                    out.remove(c)
                out.append(c)
        return out

    def method(self, cls, name, after=None):
        m = self.mro(cls)
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else m
        for c in m:
            for n in c.body:
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    return n
        return None

    def classes(self):
        for m in self.prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    yield n

    def subclasses(self, base_name, base_mod=None):
        for c in self.classes():
            ms = self.mro(c)
            if any(x.name == base_name and (base_mod is None or x.mod.name == base_mod) for x in ms[1:]):
                yield c


def enclosing_class(fn):
    n = fn.parent
    while n is not None and not isinstance(n, ast.ClassDef):
        n = n.parent
    return n
