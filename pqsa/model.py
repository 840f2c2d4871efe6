"""Program model: modules, imports, classes (with MRO) and functions of the analysed repository, from source text only."""
import ast
import builtins
import hashlib
import os


class AnalysisError(Exception):
    """The analysis cannot give an answer (missing anchor, unparsable source, ...)."""


class FuncInfo:
    def __init__(self, module, node, cls=None, qual=None, kind='func', decorators=()):
        self.module, self.node, self.cls, self.kind = module, node, cls, kind
        self.name = getattr(node, 'name', '<lambda>')
        self.qual = qual or self.name
        self.decorators = decorators

    @property
    def full(self):
        return f'{self.module.name}:{self.qual}'

    def loc(self):
        return f'{self.module.rel}:{self.node.lineno}'

    def __repr__(self):
        return f'<fn {self.full}>'


class ClassInfo:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.methods = {}  # name -> FuncInfo (getter for properties)
        self.setters = {}
        self.attrs = {}  # name -> value expression
        self._mro = None

    @property
    def full(self):
        return f'{self.module.name}.{self.name}'

    def loc(self):
        return f'{self.module.rel}:{self.node.lineno}'

    def __repr__(self):
        return f'<class {self.name}>'


class Module:
    def __init__(self, prog, name, path, rel, tree, is_pkg):
        self.prog, self.name, self.path, self.rel, self.tree, self.is_pkg = prog, name, path, rel, tree, is_pkg
        self.bind = {}
        self.stars = []
        self.classes, self.funcs = {}, {}
        self.all = None

    def package(self):
        return self.name if self.is_pkg else self.name.rpartition('.')[0]

    def __repr__(self):
        return f'<module {self.name}>'


def _decos(node):
    out = []
    for d in node.decorator_list:
        if isinstance(d, ast.Call):
            d = d.func
        out.append(ast.unparse(d))
    return tuple(out)


class Program:
    """All non-test modules of the repository."""

    def __init__(self, root='/repo', top='projectq'):
        self.root, self.top = root, top
        self.modules = {}
        self.digest = hashlib.sha256()
        self._load()

    # ------------------------------------------------------------------ loading
    def _load(self):
        base = os.path.join(self.root, self.top)
        if not os.path.isdir(base):
            raise AnalysisError(f'no package {self.top} below {self.root}')
        for dirpath, dirs, files in os.walk(base):
            dirs[:] = sorted(d for d in dirs if d not in ('__pycache__', 'tests') and not d.startswith('.'))
            for f in sorted(files):
                if not f.endswith('.py') or f.endswith('_test.py') or f == 'conftest.py' or '_test_fixtures' in f:
                    continue
                path = os.path.join(dirpath, f)
                rel = os.path.relpath(path, self.root)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == '__init__'
                if is_pkg:
                    parts = parts[:-1]
                name = '.'.join(parts)
                with open(path, 'rb') as fh:
                    src = fh.read()
                self.digest.update(rel.encode() + b'\0' + src)
                try:
                    tree = ast.parse(src, path)
                except SyntaxError as e:
                    raise AnalysisError(f'{rel} does not parse: {e}') from e
                mod = Module(self, name, path, rel, tree, is_pkg)
                self.modules[name] = mod
        for mod in self.modules.values():
            self._bind_body(mod, mod.tree.body)

    def add_module(self, name, text, path=None, pkg=False):
        """Add a module that is not part of the repository (a client program or a model of a third-party library)."""
        kept = self.__dict__.setdefault('_added', {})
        if kept.get(name, ('', None))[0] == text:  # class hierarchies of the repository refer to the classes of the model
            self.modules[name] = kept[name][1]
            return kept[name][1]
        mod = Module(self, name, path or f'<{name}>', path or f'<{name}>', ast.parse(text), pkg)
        self.modules[name] = mod
        kept[name] = (text, mod)
        self._bind_body(mod, mod.tree.body)
        return mod

    def _bind_body(self, mod, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(mod, st, decorators=_decos(st))
                mod.funcs[st.name] = fi
                mod.bind[st.name] = ('func', fi)
            elif isinstance(st, ast.ClassDef):
                ci = self._class(mod, st)
                mod.classes[st.name] = ci
                mod.bind[st.name] = ('class', ci)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        mod.bind[a.asname] = ('module', a.name)
                    else:
                        mod.bind[a.name.split('.')[0]] = ('module', a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                src = self._abs(mod, st)
                for a in st.names:
                    if a.name == '*':
                        mod.stars.append(src)
                    else:
                        mod.bind[a.asname or a.name] = ('from', src, a.name)
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                tgts = st.targets if isinstance(st, ast.Assign) else [st.target]
                if st.value is None:
                    continue
                for t in tgts:
                    if isinstance(t, ast.Name):
                        mod.bind[t.id] = ('assign', st)
                        if t.id == '__all__':
                            try:
                                mod.all = ast.literal_eval(st.value)
                            except ValueError:
                                pass
                    elif isinstance(t, ast.Tuple):
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                mod.bind[e.id] = ('opaque', st)
            elif isinstance(st, ast.If):
                self._bind_body(mod, st.body)
                self._bind_body(mod, st.orelse)
            elif isinstance(st, ast.Try):
                for h in st.handlers:
                    self._bind_body(mod, h.body)
                self._bind_body(mod, st.body)
                self._bind_body(mod, st.orelse)
            elif isinstance(st, (ast.For, ast.While, ast.With)):
                self._bind_body(mod, st.body)

    def _abs(self, mod, st):
        if not st.level:
            return st.module
        pkg = mod.package().split('.')
        pkg = pkg[: len(pkg) - (st.level - 1)]
        return '.'.join(pkg + ([st.module] if st.module else []))

    def _class(self, mod, node):
        ci = ClassInfo(mod, node)
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                d = _decos(st)
                kind = 'method'
                if 'staticmethod' in d:
                    kind = 'static'
                elif 'classmethod' in d:
                    kind = 'classm'
                elif 'property' in d or any(x.endswith('cached_property') for x in d):
                    kind = 'property'
                fi = FuncInfo(mod, st, ci, f'{node.name}.{st.name}', kind, d)
                if any(x.endswith('.setter') for x in d):
                    ci.setters[st.name] = fi
                elif any(x.endswith('.deleter') or x.endswith('.getter') for x in d):
                    pass
                else:
                    ci.methods[st.name] = fi
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        ci.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                ci.attrs[st.target.id] = st.value
        return ci

    # ------------------------------------------------------------------ names
    def lookup(self, mod, name, seen=()):
        """Resolve a global name of a module: ('class', ci) ('func', fi) ('module', name) ('assign', mod, stmt, name)
        ('ext', dotted) or None."""
        if isinstance(mod, str):
            mod = self.modules.get(mod)
            if mod is None:
                return None
        if (mod.name, name) in seen:
            return None
        seen = seen + ((mod.name, name),)
        b = mod.bind.get(name)
        if b is None:
            for src in reversed(mod.stars):
                if src not in self.modules:
                    continue
                sm = self.modules[src]
                if name.startswith('_') or (sm.all is not None and name not in sm.all):
                    continue
                r = self.lookup(sm, name, seen)
                if r is not None:
                    return r
            if mod.is_pkg and f'{mod.name}.{name}' in self.modules:
                return ('module', f'{mod.name}.{name}')
            return None
        if b[0] in ('class', 'func'):
            return b
        if b[0] == 'assign':
            return ('assign', mod, b[1], name)
        if b[0] == 'opaque':
            return ('ext', f'{mod.name}.{name}')
        if b[0] == 'module':
            return ('module', b[1])
        _, src, nm = b
        if src in self.modules:
            r = self.lookup(src, nm, seen)
            if r is not None:
                return r
            if f'{src}.{nm}' in self.modules:
                return ('module', f'{src}.{nm}')
            return ('ext', f'{src}.{nm}')
        if f'{src}.{nm}' in self.modules:
            return ('module', f'{src}.{nm}')
        return ('ext', f'{src}.{nm}')

    def cls(self, name, module=None):
        """The class with this name; by public import path when `module` is given."""
        if module:
            r = self.lookup(module, name)
            if r and r[0] == 'class':
                return r[1]
            raise AnalysisError(f'class {name} not found in {module}')
        found = [m.classes[name] for m in self.modules.values() if name in m.classes]
        if len(found) != 1:
            raise AnalysisError(f'class {name}: {len(found)} definitions found')
        return found[0]

    def all_classes(self):
        for m in self.modules.values():
            yield from m.classes.values()

    # ------------------------------------------------------------------ class hierarchy
    def bases(self, ci):
        out = []
        for b in ci.node.bases:
            out.append(self._resolve_expr(ci.module, b))
        return out

    def _resolve_expr(self, mod, e):
        if isinstance(e, ast.Name):
            r = self.lookup(mod, e.id)
            if r is None:
                return ('ext', 'builtins.' + e.id if hasattr(builtins, e.id) else e.id)
            if r[0] == 'assign' and isinstance(r[2].value, (ast.Name, ast.Attribute)):
                return self._resolve_expr(r[1], r[2].value)
            return r
        if isinstance(e, ast.Attribute):
            v = self._resolve_expr(mod, e.value)
            if v and v[0] == 'module':
                r = self.lookup(v[1], e.attr)
                if r is not None:
                    return r
                return ('ext', f'{v[1]}.{e.attr}')
            if v and v[0] == 'ext':
                return ('ext', f'{v[1]}.{e.attr}')
        return ('ext', ast.unparse(e))

    def mro(self, ci):
        """C3 linearisation; external bases appear as dotted strings."""
        if ci._mro is not None:
            return ci._mro
        ci._mro = [ci]
        seqs, direct = [], []
        for b in self.bases(ci):
            if b[0] == 'class':
                seqs.append(list(self.mro(b[1])))
                direct.append(b[1])
            else:
                d = b[1] if isinstance(b[1], str) else str(b[1])
                seqs.append([d])
                direct.append(d)
        seqs.append(direct)
        out = [ci]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            seqs = [[x for x in s if x != h] for s in seqs]
        ci._mro = out
        return out

    def is_sub(self, ci, other):
        """ci <= other (other ClassInfo or dotted name of an external class)."""
        if ci is other:
            return True
        return any(x is other or x == other for x in self.mro(ci))

    def find_method(self, ci, name, after=None):
        """FuncInfo of the method a class resolves `name` to (after: start behind this class in the MRO)."""
        mro = self.mro(ci)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro
        for c in mro:
            if isinstance(c, ClassInfo):
                if name in c.methods:
                    return c.methods[name]
                if name in c.attrs:
                    return None
        return None

    def find_setter(self, ci, name):
        for c in self.mro(ci):
            if isinstance(c, ClassInfo) and name in c.setters:
                return c.setters[name]
        return None

    def find_attr(self, ci, name):
        for c in self.mro(ci):
            if isinstance(c, ClassInfo):
                if name in c.attrs:
                    return c, c.attrs[name]
                if name in c.methods:
                    return None
        return None

    def has_ext_base(self, ci):
        return [x for x in self.mro(ci) if isinstance(x, str) and x not in ('object', 'builtins.object')]

    def subclasses(self, ci):
        return [c for c in self.all_classes() if self.is_sub(c, ci)]
