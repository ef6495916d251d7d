"""Reads the repository's current source: modules, classes, functions.  Nothing is cached between runs."""
from __future__ import annotations
import ast
import os


class FuncInfo:
    def __init__(self, node, module, cls=None, kind='func', closure=None):
        self.node, self.module, self.cls, self.kind = node, module, cls, kind
        self.closure = closure
        self.name = getattr(node, 'name', '<lambda>')
        self.qual = f'{module.name}:' + (f'{cls.name}.' if cls else '') + self.name
        self.is_gen = not isinstance(node, ast.Lambda) and _has_yield(node)
        # loops numbered in source order: the key used for invariants
        self.loops = {}
        for n in ast.walk(node):
            if isinstance(n, (ast.For, ast.While)):
                self.loops[id(n)] = len(self.loops)

    def __repr__(self):
        return f'<fn {self.qual}>'


def _has_yield(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class ClassInfo:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.methods, self.attrs, self.fields = {}, {}, []
        self.dataclass = None
        self.base_names = []
        for b in node.bases:
            if isinstance(b, ast.Name):
                self.base_names.append(b.id)
            elif isinstance(b, ast.Subscript) and isinstance(b.value, ast.Name):
                self.base_names.append(b.value.id)
        for d in node.decorator_list:
            name, kws = _deco(d)
            if name == 'dataclass':
                self.dataclass = dict(init=True, eq=True, frozen=False, order=False)
                for k in kws:
                    if isinstance(k.value, ast.Constant):
                        self.dataclass[k.arg] = k.value.value
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                kind = 'method'
                for d in st.decorator_list:
                    nm, _ = _deco(d)
                    if nm == 'staticmethod':
                        kind = 'static'
                    elif nm in ('classmethod', 'abstractclassmethod'):
                        kind = 'class'
                    elif nm in ('property', 'cached_property'):
                        kind = 'property'
                self.methods[st.name] = FuncInfo(st, module, self, kind)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.fields.append((st.target.id, st.value))
                if st.value is not None:
                    self.attrs[st.target.id] = st.value
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.ClassDef):
                self.attrs[st.name] = ClassInfo(st, module)

    def __repr__(self):
        return f'<class {self.name}>'

    def bases(self, repo):
        out = []
        for b in self.base_names:
            v = self.module.lookup(b)
            if isinstance(v, tuple) and v[0] == 'import':
                v = repo.resolve_import(v)
            if isinstance(v, ClassInfo):
                out.append(v)
        return out

    def mro(self, repo):
        out = [self]
        for b in self.bases(repo):
            for c in b.mro(repo):
                if c not in out:
                    out.append(c)
        return out

    def find(self, repo, name):
        for c in self.mro(repo):
            if name in c.methods:
                return c.methods[name]
            if name in c.attrs:
                return ('attr', c, c.attrs[name])
        return None

    def all_fields(self, repo):
        out = []
        for c in reversed(self.mro(repo)):
            if c.dataclass is None:
                continue
            for f, d in c.fields:
                out = [x for x in out if x[0] != f] + [(f, d)] if f not in [x[0] for x in out] else [
                    (g, (d if g == f else e)) for g, e in out]
        return out


def _deco(d):
    kws = []
    if isinstance(d, ast.Call):
        kws = d.keywords
        d = d.func
    if isinstance(d, ast.Attribute):
        return d.attr, kws
    if isinstance(d, ast.Name):
        return d.id, kws
    return None, kws


class Module:
    def __init__(self, name, path, repo):
        self.name, self.path, self.repo = name, path, repo
        self.text = open(path).read()
        self.tree = ast.parse(self.text, path)
        self.globals = {}
        for st in self.tree.body:
            self._stmt(st)

    def _stmt(self, st):
        if isinstance(st, ast.FunctionDef):
            self.globals[st.name] = FuncInfo(st, self)
        elif isinstance(st, ast.ClassDef):
            self.globals[st.name] = ClassInfo(st, self)
        elif isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    self.globals[a.asname] = ('import', a.name, None, 0)
                else:
                    self.globals[a.name.split('.')[0]] = ('import', a.name.split('.')[0], None, 0)
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                self.globals[a.asname or a.name] = ('import', st.module or '', a.name, st.level)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.globals[t.id] = ('expr', st.value)
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
            self.globals[st.target.id] = ('expr', st.value)
        elif isinstance(st, ast.Try):
            for s in st.body:
                self._stmt(s)

    def lookup(self, name):
        return self.globals.get(name)

    def all_functions(self):
        for nm, v in self.globals.items():
            if isinstance(v, FuncInfo):
                yield f'{self.name}:{nm}'
            elif isinstance(v, ClassInfo):
                for st in v.node.body:
                    if isinstance(st, ast.FunctionDef):
                        yield f'{self.name}:{nm}.{st.name}'


class Repo:
    def __init__(self, root, package='peyl', extra=('search.py',)):
        self.root = root
        self.modules = {}
        pdir = os.path.join(root, package)
        for f in sorted(os.listdir(pdir)):
            if f.endswith('.py'):
                nm = package if f == '__init__.py' else f'{package}.{f[:-3]}'
                self.modules[nm] = Module(nm, os.path.join(pdir, f), self)
        for f in extra:
            p = os.path.join(root, f)
            if os.path.exists(p):
                self.modules[f[:-3]] = Module(f[:-3], p, self)

    def resolve_import(self, imp, frm='peyl'):
        """('import', module, name, level) -> ClassInfo/FuncInfo/Module/('ext', dotted)"""
        _, mod, name, level = imp
        if level:
            base = 'peyl' + ('.' + mod if mod else '')
        else:
            base = mod
        if base in self.modules:
            if name is None:
                return self.modules[base]
            sub = f'{base}.{name}'
            g = self.modules[base].globals.get(name)
            if g is None and sub in self.modules:
                return self.modules[sub]
            if isinstance(g, tuple) and g[0] == 'import':
                return self.resolve_import(g)
            if g is None:
                raise KeyError(f'{base}.{name}')
            return g if not (isinstance(g, tuple) and g[0] == 'expr') else ('modexpr', self.modules[base], g[1])
        return ('ext', base + ('.' + name if name else ''))

    def get(self, qual):
        mod, rest = qual.split(':')
        m = self.modules.get(mod)
        if m is None:
            return None
        parts = rest.split('.')
        v = m.globals.get(parts[0])
        if len(parts) == 1:
            return v
        if not isinstance(v, ClassInfo):
            return None
        r = v.find(self, parts[1])
        return r
