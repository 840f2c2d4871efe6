"""The C++ simulator as a syntax tree (clang's JSON dump) and an evaluator of that tree on known arguments."""
import cmath
import copy
import functools
import json
import os
import re
import subprocess
import tempfile

from .model import AnalysisError

KERNELS = 'projectq/backends/_sim/_cppkernels'
UNIT = '''#include <bits/stdc++.h>
namespace pqsa_ns {
#include "%s/simulator.hpp"
using ArrayType = std::vector<std::complex<double>, aligned_allocator<std::complex<double>,64>>;
using MatrixType = std::vector<ArrayType>;
using QuRegs = std::vector<std::vector<unsigned>>;
void use(Simulator& s, MatrixType m, QuRegs q, std::vector<unsigned> c, std::function<void(std::vector<int>&)> f){
    s.apply_controlled_gate<MatrixType>(m, c, c);
    s.emulate_math(f, q, c);
    s.emulate_math_addConstant<QuRegs>(1, q, c);
    s.emulate_math_addConstantModN<QuRegs>(1, 2, q, c);
    s.emulate_math_multiplyByConstantModN<QuRegs>(1, 2, q, c);
}
}
'''


class Undecided(Exception):
    pass


class Throw(Exception):
    """A C++ exception, or behaviour the language leaves undefined (kind 'undefined')."""

    def __init__(self, kind, msg='', loc=None):
        super().__init__(f'{kind}: {msg}')
        self.kind, self.msg, self.loc = kind, msg, loc


class Signal(Exception):
    def __init__(self, what, value=None):
        super().__init__(what)
        self.what, self.value = what, value


class Vec(list):
    """Vector or array; `dflt` makes the element a resize adds."""
    dflt = staticmethod(lambda: 0)
    cap = 0

    def capacity(self):
        self.cap = max(self.cap, len(self))
        return self.cap


class Map(dict):
    pass


class SSet(set):
    pass


class Obj:
    def __init__(self, cls):
        self.cls, self.f = cls, {}


class Pair:
    def __init__(self, first, second):
        self.first, self.second = first, second


class MapPair:
    def __init__(self, m, k):
        self.m, self.first = m, k

    @property
    def second(self):
        return self.m[self.first]

    @second.setter
    def second(self, v):
        self.m[self.first] = v


class Ptr:
    def __init__(self, c, i):
        self.c, self.i = c, i

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.c is o.c and self.i == o.i

    __hash__ = None


class MapIt:
    def __init__(self, c, k):
        self.c, self.k = c, k

    def __eq__(self, o):
        return isinstance(o, MapIt) and self.c is o.c and self.k == o.k

    __hash__ = None


END = object()


class Cell:
    def __init__(self, v):
        self.v = v

    def get(self):
        return self.v

    def set(self, v):
        self.v = v


class At:
    """A place inside a container, object or pair."""

    def __init__(self, c, k, ev=None):
        self.c, self.k, self.ev = c, k, ev

    def get(self):
        if isinstance(self.c, Obj):
            return self.c.f[self.k]
        if isinstance(self.c, (Pair, MapPair)):
            return getattr(self.c, self.k)
        if isinstance(self.c, Vec) and not 0 <= self.k < len(self.c):
            raise Throw('undefined', f'index {self.k} of a vector of length {len(self.c)}', self.ev)
        return self.c[self.k]

    def set(self, v):
        if isinstance(self.c, Obj):
            self.c.f[self.k] = v
        elif isinstance(self.c, (Pair, MapPair)):
            setattr(self.c, self.k, v)
        else:
            if isinstance(self.c, Vec) and not 0 <= self.k < len(self.c):
                raise Throw('undefined', f'index {self.k} of a vector of length {len(self.c)}', self.ev)
            self.c[self.k] = v


MUTABLE = (Vec, Map, SSet, Obj, Pair)


def dup(v):
    if isinstance(v, Vec):
        r = Vec(dup(x) if isinstance(x, MUTABLE) else x for x in v)
        r.dflt, r.cap = v.dflt, len(r)
        return r
    if isinstance(v, Map):
        return Map((k, dup(x)) for k, x in v.items())
    if isinstance(v, SSet):
        return SSet(v)
    if isinstance(v, Obj):
        o = Obj(v.cls)
        o.f = {k: dup(x) for k, x in v.f.items()}
        return o
    if isinstance(v, (Pair, MapPair)):
        return Pair(dup(v.first), dup(v.second))
    return v


def overwrite(dst, src):
    """dst = src for containers: the object stays, its content changes."""
    if dst is src:
        return
    src = dup(src)
    if isinstance(dst, Vec):
        dst[:] = src
        dst.cap = max(dst.capacity(), len(src))
    elif isinstance(dst, (Map, SSet)):
        dst.clear()
        dst.update(src)
    elif isinstance(dst, Obj):
        dst.f = src.f
    elif isinstance(dst, (Pair, MapPair)):
        dst.first, dst.second = src.first, src.second
    else:
        raise Undecided('assignment')


INTS = {'unsigned int': (32, 0), 'unsigned': (32, 0), 'unsigned long': (64, 0), 'unsigned long long': (64, 0), 'int': (32, 1), 'long': (64, 1), 'long long': (64, 1),
        'short': (16, 1), 'unsigned short': (16, 0), 'char': (8, 1), 'signed char': (8, 1), 'unsigned char': (8, 0), 'std::size_t': (64, 0), 'size_t': (64, 0)}


def bare(t):
    t = re.sub(r'\bconst\b|&|\bvolatile\b', '', t).strip()
    return re.sub(r'\s+', ' ', t)


def tyname(n):
    t = n.get('type', {})
    return bare(t.get('desugaredQualType') or t.get('qualType') or '')


def wrap(v, t):
    w = INTS.get(t)
    if w is None or not isinstance(v, int):
        return v
    v = int(v)
    v &= (1 << w[0]) - 1
    return v - (1 << w[0]) if w[1] and v >> (w[0] - 1) else v


def default_of(t):
    """Value-initialised object of a type."""
    t = bare(t)
    if t.startswith('std::vector<') or t.startswith('vector<') or re.match(r'.*\[\d*\]$', t):
        v = Vec()
        el = elem(t)
        v.dflt = functools.partial(default_of, el)
        return v
    if re.match(r'(std::)?(map|unordered_map)<', t):
        return Map()
    if re.match(r'(std::)?(set|unordered_set)<', t):
        return SSet()
    if 'complex<' in t or t in ('double', 'float'):
        return 0.0
    if t == 'bool':
        return False
    if t in INTS:
        return 0
    if re.match(r'(std::)?pair<', t):
        return Pair(0, 0)
    raise Undecided(f'default value of {t}')


def elem(t):
    m = re.match(r'(.*)\[\d*\]$', t)
    if m:
        return m.group(1)
    inner = t[t.index('<') + 1:]
    depth = 0
    for i, c in enumerate(inner):
        if c == '<':
            depth += 1
        elif c == '>':
            if depth == 0:
                return inner[:i]
            depth -= 1
        elif c == ',' and depth == 0:
            return inner[:i]
    return inner


class Unit:
    """The parsed simulator."""

    def __init__(self, repo):
        d = os.path.join(repo, KERNELS)
        with tempfile.NamedTemporaryFile('w', suffix='.cpp') as f:
            f.write(UNIT % d)
            f.flush()
            p = subprocess.run(['clang++', '-std=c++14', '-DNDEBUG', '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=pqsa_ns', f.name],
                               capture_output=True, text=True)
        if p.returncode != 0:
            raise AnalysisError('the simulator sources do not parse: ' + p.stderr[:300])
        dec, i, docs = json.JSONDecoder(), 0, []
        s = p.stdout
        while True:
            while i < len(s) and s[i] in ' \n\t':
                i += 1
            if i >= len(s):
                break
            o, i = dec.raw_decode(s, i)
            docs.append(o)
        self.repo = repo
        self.decls, self.fns, self.classes, self.byname = {}, {}, {}, {}
        self.file, self.line = '', 0
        for o in docs:
            self.scan(o, None)

    def scan(self, n, cls):
        if not isinstance(n, dict):
            return
        for part in (n.get('loc'), (n.get('range') or {}).get('begin'), (n.get('range') or {}).get('end')):
            if part:
                part = part.get('expansionLoc', part)
                self.file = part.get('file', self.file)
                self.line = part.get('line', self.line)
            if part is not None and part is not (n.get('range') or {}).get('end'):
                n['@'] = (self.file, self.line)
        kind = n.get('kind')
        if 'id' in n and kind and kind.endswith('Decl'):
            self.decls[n['id']] = n
        if kind == 'FunctionTemplateDecl':
            for c in n.get('inner', []):
                if c.get('kind') in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl') and not any(x.get('kind') == 'TemplateArgument' for x in c.get('inner', [])):
                    c['@tmpl'] = True
        if kind in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl') and n.get('completeDefinition'):
            self.classes[n.get('name', n['id'])] = n
            cls = n.get('name', n['id'])
        if kind in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl'):
            n['@cls'] = cls or self.fns.get(n.get('previousDecl'), {}).get('@cls') or self.decls.get(n.get('previousDecl'), {}).get('@cls')
            if not n.get('isImplicit') and any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', []) if isinstance(c, dict)):
                self.fns[n['id']] = n
                if 'previousDecl' in n:
                    self.fns[n['previousDecl']] = n
                self.byname.setdefault((n['@cls'], n.get('name')), []).append(n)
        for c in n.get('inner', []):
            self.scan(c, cls)

    def loc(self, n):
        f, ln = n.get('@', ('?', 0))
        return f'{os.path.relpath(f, self.repo) if f.startswith(self.repo) else f}:{ln}'

    def methods(self, cls):
        return sorted({k[1] for k in self.byname if k[0] == cls})

    def method(self, cls, name):
        """Definition of a method; of a template, the instantiation."""
        c = [f for f in self.byname.get((cls, name), ()) if not dependent(f)]
        return next((f for f in c if 'std::function' in f['type'].get('qualType', '')), c[0]) if c else None


def dependent(f):
    """Whether a function is an uninstantiated template."""
    return f.get('@tmpl', False)


class Fn:
    def __init__(self, node, env, this):
        self.node, self.env, self.this = node, env, this


class Eval:
    def __init__(self, unit, budget=3000000):
        self.u, self.budget = unit, budget
        self.statics = {}
        self.seen = set()
        self.draw = lambda: 0.5
        self.depth = 0

    # ---- calls
    def new(self, cls, *args):
        o = Obj(cls)
        self.fields(o)
        cands = [c for c in self.u.byname.get((cls, cls), ()) if c['kind'] == 'CXXConstructorDecl' and self.arity(c, len(args))]
        if cands:
            self.construct(o, cands[0], list(args))
        elif args:
            raise Undecided(f'constructor of {cls}')
        return o

    def arity(self, c, n):
        ps = [p for p in c.get('inner', []) if p.get('kind') == 'ParmVarDecl']
        return len(ps) >= n and all('inner' in p for p in ps[n:])

    def fields(self, o):
        for c in self.u.classes[o.cls].get('inner', []):
            if c.get('kind') == 'FieldDecl':
                t = tyname(c)
                init = [x for x in c.get('inner', [])]
                if init:
                    o.f[c['name']] = self.ev(init[0], {}, o)
                    continue
                name = t.split('::')[-1]
                if name in self.u.classes:
                    o.f[c['name']] = self.new(name) if self.trivial(name) else None
                else:
                    try:
                        o.f[c['name']] = default_of(t)
                    except Undecided:
                        o.f[c['name']] = None

    def trivial(self, name):
        return not any(c['kind'] == 'CXXConstructorDecl' for c in self.u.byname.get((name, name), ()))

    def construct(self, o, ctor, args):
        env = {}
        self.bind(ctor, args, env, o)
        for c in ctor.get('inner', []):
            if c.get('kind') == 'CXXCtorInitializer' and 'anyInit' in c and c.get('inner'):
                o.f[c['anyInit']['name']] = dup(self.ev(c['inner'][0], env, o))
        body = [c for c in ctor['inner'] if c.get('kind') == 'CompoundStmt']
        try:
            for b in body:
                self.stmt(b, env, o)
        except Signal as s:
            if s.what != 'return':
                raise

    def bind(self, f, args, env, this):
        ps = [p for p in f.get('inner', []) if p.get('kind') == 'ParmVarDecl']
        for i, p in enumerate(ps):
            if i < len(args):
                a = args[i]
            elif p.get('inner'):
                a = self.ev(p['inner'][0], env, this)
            else:
                raise Undecided('missing argument')
            q = p['type'].get('qualType', '')
            if isinstance(a, (Cell, At)):
                if q.rstrip().endswith('&') and not isinstance(a.get(), MUTABLE):
                    env[p['id']] = a
                    continue
                a = a.get()
            if not q.rstrip().endswith('&'):
                a = wrap(dup(a), tyname(p))
            env[p['id']] = Cell(a)

    def call(self, f, args, this, env=None):
        self.depth += 1
        if self.depth > 200:
            raise Undecided('recursion')
        if f.get('@cls') and 'name' in f:
            self.seen.add(f'{f["@cls"]}::{f["name"]}')
        try:
            env = dict(env or {})
            self.bind(f, args, env, this)
            body = next(c for c in f['inner'] if c.get('kind') == 'CompoundStmt')
            try:
                self.stmt(body, env, this)
            except Signal as s:
                if s.what != 'return':
                    raise
                v = s.value
                if isinstance(v, (Cell, At)):
                    v = v.get()
                ret = f['type'].get('qualType', '').split('(')[0].strip()
                return v if ret.endswith('&') else dup(v)
            return None
        finally:
            self.depth -= 1

    def invoke(self, obj, name, *args):
        f = self.u.method(obj.cls, name)
        if f is None:
            raise Undecided(f'no method {name}')
        return self.call(f, list(args), obj)

    # ---- statements
    def stmt(self, n, env, this):
        self.budget -= 1
        if self.budget < 0:
            raise Undecided('too many steps')
        k = n.get('kind')
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n, env, this)
        self.ev(n, env, this)

    def s_CompoundStmt(self, n, env, this):
        for c in n.get('inner', []):
            self.stmt(c, env, this)

    def s_NullStmt(self, n, env, this):
        pass

    def s_DeclStmt(self, n, env, this):
        for d in n['inner']:
            if d['kind'] == 'VarDecl':
                self.var(d, env, this)

    def var(self, d, env, this):
        q = d['type'].get('qualType', '').rstrip()
        init = [c for c in d.get('inner', []) if isinstance(c, dict) and 'kind' in c]
        if d.get('storageClass') == 'static':
            raise Undecided('static local')
        if not init:
            if re.match(r'.*\[\d+\]$', tyname(d)):
                env[d['id']] = Cell(self.array([], tyname(d)))
                return
            env[d['id']] = Cell(default_of(tyname(d)) if not self.own(tyname(d)) else self.new(self.own(tyname(d))))
            return
        if q.endswith('&'):
            p = self.place(init[0], env, this)
            env[d['id']] = p if isinstance(p, (Cell, At)) else Cell(p)
            return
        v = dup(self.ev(init[0], env, this))
        t = tyname(d)
        if isinstance(v, list) and not isinstance(v, Vec):
            v = self.array(v, t)
        env[d['id']] = Cell(wrap(v, t))

    def own(self, t):
        name = t.split('::')[-1]
        return name if name in self.u.classes else None

    def array(self, v, t):
        r = Vec(v)
        try:
            r.dflt = functools.partial(default_of, elem(t))
        except ValueError:
            pass
        m = re.match(r'.*\[(\d+)\]$', t)
        while m and len(r) < int(m.group(1)):
            r.append(r.dflt())
        return r

    def s_IfStmt(self, n, env, this):
        inner = n['inner']
        k = 0
        while inner[k].get('kind') == 'DeclStmt':
            self.stmt(inner[k], env, this)
            k += 1
        if self.ev(inner[k], env, this):
            self.stmt(inner[k + 1], env, this)
        elif n.get('hasElse'):
            self.stmt(inner[k + 2], env, this)

    def loop(self, body, env, this):
        """-> False if the loop is left"""
        try:
            self.stmt(body, env, this)
        except Signal as s:
            if s.what == 'break':
                return False
            if s.what != 'continue':
                raise
        return True

    def s_ForStmt(self, n, env, this):
        init, _, cond, inc, body = n['inner']
        if init.get('kind'):
            self.stmt(init, env, this)
        while not cond.get('kind') or self.ev(cond, env, this):
            if not self.loop(body, env, this):
                return
            if inc.get('kind'):
                self.ev(inc, env, this)

    def s_WhileStmt(self, n, env, this):
        while self.ev(n['inner'][0], env, this):
            if not self.loop(n['inner'][-1], env, this):
                return

    def s_DoStmt(self, n, env, this):
        while True:
            if not self.loop(n['inner'][0], env, this):
                return
            if not self.ev(n['inner'][1], env, this):
                return

    def s_CXXForRangeStmt(self, n, env, this):
        parts = [c for c in n['inner'] if c.get('kind')]
        rng = next(d for c in parts if c['kind'] == 'DeclStmt' for d in c['inner'] if d.get('name', '').startswith('__range'))
        var = [d for c in parts if c['kind'] == 'DeclStmt' for d in c['inner'] if not d.get('name', '').startswith('__')][-1]
        body = parts[-1]
        c = self.ev(rng['inner'][0], env, this)
        ref = var['type'].get('qualType', '').rstrip().endswith('&')
        if isinstance(c, Map):
            items = [MapPair(c, k) for k in sorted(c)]
        elif isinstance(c, SSet):
            items = sorted(c)
        elif isinstance(c, (Vec, list)):
            items = [At(c, i) for i in range(len(c))]
        else:
            raise Undecided('range')
        for it in items:
            if isinstance(it, At):
                v = it.get()
                env[var['id']] = it if ref and not isinstance(v, MUTABLE) else Cell(v if ref else dup(v))
            else:
                env[var['id']] = Cell(it)
            if not self.loop(body, env, this):
                return

    def s_ReturnStmt(self, n, env, this):
        v = self.ev(n['inner'][0], env, this) if n.get('inner') else None
        raise Signal('return', v)

    def s_BreakStmt(self, n, env, this):
        raise Signal('break')

    def s_ContinueStmt(self, n, env, this):
        raise Signal('continue')

    def s_SwitchStmt(self, n, env, this):
        v = self.ev(n['inner'][0], env, this)
        flat = []

        def add(s):
            if s['kind'] == 'CaseStmt':
                flat.append(('case', s['inner'][0]))
                add(s['inner'][1])
            elif s['kind'] == 'DefaultStmt':
                flat.append(('default', None))
                add(s['inner'][0])
            else:
                flat.append(('stmt', s))
        for s in n['inner'][-1].get('inner', []):
            add(s)
        start = next((i for i, (k, e) in enumerate(flat) if k == 'case' and self.ev(e, env, this) == v), None)
        if start is None:
            start = next((i for i, (k, _) in enumerate(flat) if k == 'default'), None)
        if start is None:
            return
        try:
            for k, s in flat[start:]:
                if k == 'stmt':
                    self.stmt(s, env, this)
        except Signal as s:
            if s.what != 'break':
                raise

    # ---- expressions
    def ev(self, n, env, this):
        self.budget -= 1
        if self.budget < 0:
            raise Undecided('too many steps')
        m = getattr(self, 'e_' + n.get('kind', ''), None)
        if m is None:
            p = self.place(n, env, this)
            return p.get() if isinstance(p, (Cell, At)) else p
        return m(n, env, this)

    def place(self, n, env, this):
        """A Cell/At for scalars, the object itself for containers."""
        m = getattr(self, 'p_' + n.get('kind', ''), None)
        if m is not None:
            p = m(n, env, this)
            if isinstance(p, (Cell, At)):
                if isinstance(p, At) and isinstance(p.c, Vec) and not 0 <= p.k < len(p.c):
                    raise Throw('undefined', f'index {p.k} of a vector of length {len(p.c)}', self.u.loc(n))
                v = p.get()
                return v if isinstance(v, MUTABLE) else p
            return p
        m = getattr(self, 'e_' + n.get('kind', ''), None)
        if m is None:
            raise Undecided(f'{n.get("kind")} at {self.u.loc(n)}')
        return m(n, env, this)

    def p_ParenExpr(self, n, env, this):
        return self.place(n['inner'][0], env, this)

    p_ExprWithCleanups = p_MaterializeTemporaryExpr = p_CXXBindTemporaryExpr = p_ConstantExpr = p_SubstNonTypeTemplateParmExpr = p_ParenExpr

    def p_DeclRefExpr(self, n, env, this):
        d = n['referencedDecl']
        if d['id'] in env:
            return env[d['id']]
        if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return ('fn', d)
        if d['kind'] == 'VarDecl':
            return self.static(d)
        if d['kind'] == 'EnumConstantDecl':
            raise Undecided('enum')
        raise Undecided(f'name {d.get("name")}')

    def static(self, d):
        key = d.get('name')
        if key not in self.statics:
            full = self.u.decls.get(d['id'], d)
            init = [c for c in full.get('inner', []) if isinstance(c, dict) and c.get('kind', '').endswith(('Expr', 'Literal', 'Operator'))]
            self.statics[key] = Cell(self.ev(init[0], {}, None) if init else default_of(tyname(full)))
        return self.statics[key]

    def p_MemberExpr(self, n, env, this):
        d = self.u.decls.get(n.get('referencedMemberDecl'), {})
        if d.get('kind') == 'VarDecl':
            return self.static(d)
        if n.get('inner'):
            o = self.ev(n['inner'][0], env, this)
        else:
            o = this
        if isinstance(o, Ptr) and n.get('isArrow'):
            o = o.c[o.i]
        if isinstance(o, MapIt):
            o = MapPair(o.c, o.k)
        if isinstance(o, Obj) and n['name'] in o.f or isinstance(o, (Pair, MapPair)) and n['name'] in ('first', 'second'):
            return At(o, n['name'])
        raise Undecided(f'member {n["name"]} at {self.u.loc(n)}')

    def p_ArraySubscriptExpr(self, n, env, this):
        a, i = [self.ev(c, env, this) for c in n['inner']]
        if isinstance(a, Ptr):
            return At(a.c, a.i + i, self.u.loc(n))
        return At(a, i, self.u.loc(n))

    def p_CXXOperatorCallExpr(self, n, env, this):
        return self.operator(n, env, this)

    def p_CXXMemberCallExpr(self, n, env, this):
        return self.e_CXXMemberCallExpr(n, env, this)

    def p_ImplicitCastExpr(self, n, env, this):
        if n['castKind'] in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase'):
            return self.place(n['inner'][0], env, this)
        return self.e_ImplicitCastExpr(n, env, this)

    def p_UnaryOperator(self, n, env, this):
        if n['opcode'] == '*':
            p = self.ev(n['inner'][0], env, this)
            if isinstance(p, Obj):
                return p
            if isinstance(p, MapIt):
                return MapPair(p.c, p.k) if isinstance(p.c, Map) else p.k
            return At(p.c, p.i, self.u.loc(n))
        if n['opcode'] in ('++', '--') and not n.get('isPostfix'):
            self.e_UnaryOperator(n, env, this)
            return self.place(n['inner'][0], env, this)
        return self.e_UnaryOperator(n, env, this)

    def p_CompoundAssignOperator(self, n, env, this):
        self.e_CompoundAssignOperator(n, env, this)
        return self.place(n['inner'][0], env, this)

    def p_BinaryOperator(self, n, env, this):
        if n['opcode'] == '=':
            self.e_BinaryOperator(n, env, this)
            return self.place(n['inner'][0], env, this)
        return self.e_BinaryOperator(n, env, this)

    def p_ConditionalOperator(self, n, env, this):
        c, a, b = n['inner']
        return self.place(a if self.ev(c, env, this) else b, env, this)

    def e_CXXThisExpr(self, n, env, this):
        return this

    def e_IntegerLiteral(self, n, env, this):
        return int(n['value'])

    def e_FloatingLiteral(self, n, env, this):
        return float(n['value'])

    def e_CXXBoolLiteralExpr(self, n, env, this):
        return bool(n['value'])

    def e_CharacterLiteral(self, n, env, this):
        return int(n['value'])

    def e_StringLiteral(self, n, env, this):
        return n['value']

    def e_CXXNullPtrLiteralExpr(self, n, env, this):
        return None

    def e_CXXScalarValueInitExpr(self, n, env, this):
        return default_of(tyname(n))

    def e_ImplicitValueInitExpr(self, n, env, this):
        return default_of(tyname(n))

    def e_CXXDefaultArgExpr(self, n, env, this):
        if n.get('inner'):
            return self.ev(n['inner'][0], env, this)
        return ('default',)

    def e_CXXDefaultInitExpr(self, n, env, this):
        if n.get('inner'):
            return self.ev(n['inner'][0], env, this)
        raise Undecided('default initialiser')

    def e_InitListExpr(self, n, env, this):
        return [dup(self.ev(c, env, this)) for c in n.get('inner', [])]

    def e_CXXStdInitializerListExpr(self, n, env, this):
        return self.ev(n['inner'][0], env, this)

    def e_ImplicitCastExpr(self, n, env, this):
        return self.cast(n, env, this)

    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr

    def cast(self, n, env, this):
        k = n['castKind']
        v = self.ev(n['inner'][0], env, this)
        if isinstance(v, (Cell, At)):
            v = v.get()
        if k == 'IntegralCast':
            return bool(v) if tyname(n) == 'bool' else wrap(int(v), tyname(n))
        if k == 'IntegralToFloating':
            return float(v)
        if k == 'FloatingToIntegral':
            return wrap(int(v), tyname(n))
        if k in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return bool(v)
        if k == 'ArrayToPointerDecay' and isinstance(v, Vec):
            return Ptr(v, 0)
        if k == 'ToVoid':
            return None
        if k in ('ConstructorConversion', 'UserDefinedConversion', 'NoOp', 'LValueToRValue', 'FloatingCast', 'ArrayToPointerDecay', 'FunctionToPointerDecay',
                 'UncheckedDerivedToBase', 'DerivedToBase', 'BuiltinFnToFnPtr', 'FloatingRealToComplex'):
            return v
        raise Undecided(f'cast {k}')

    def e_CXXConstructExpr(self, n, env, this):
        t = tyname(n)
        args = [self.ev(c, env, this) for c in n.get('inner', [])]
        args = [a for a in args if a != ('default',)]
        o = self.own(t)
        if o:
            if len(args) == 1 and isinstance(args[0], Obj) and args[0].cls == o:
                return dup(args[0])
            return self.new(o, *args)
        return self.build(t, args)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def build(self, t, args):
        if re.match(r'.*\[\d+\]$', t):
            return self.array([], t)
        if 'complex<' in t and not re.match(r'(std::)?(vector|map|set|pair)<', t):
            re_, im = (list(args) + [0, 0])[:2]
            return complex(re_, im) if len(args) == 2 else (args[0] if args else 0.0)
        if re.match(r'(std::)?vector<', t):
            v = default_of(t)
            if not args:
                return v
            a = args[0]
            if isinstance(a, (Vec, list)):
                v[:] = [dup(x) for x in a]
            elif isinstance(a, Ptr) and len(args) > 1 and isinstance(args[1], Ptr):
                v[:] = [dup(x) for x in a.c[a.i:args[1].i]]
            elif isinstance(a, MapIt) and len(args) > 1:
                v[:] = items_between(a, args[1])
            elif isinstance(a, int):
                v[:] = [dup(args[1]) if len(args) > 1 else v.dflt() for _ in range(a)]
            else:
                raise Undecided('vector constructor')
            v.cap = len(v)
            return v
        if re.match(r'(std::)?(set|unordered_set)<', t):
            if not args:
                return SSet()
            if isinstance(args[0], (SSet, list)):
                return SSet(args[0])
            if isinstance(args[0], Ptr):
                return SSet(args[0].c[args[0].i:args[1].i])
        if re.match(r'(std::)?(map|unordered_map)<', t):
            if not args:
                return Map()
            if isinstance(args[0], Map):
                return Map(args[0])
        if re.match(r'(std::)?pair<', t):
            if len(args) == 2:
                return Pair(dup(args[0]), dup(args[1]))
            if len(args) == 1:
                return dup(args[0])
        if re.match(r'(std::)?tuple<', t) or re.match(r'(std::)?function<', t) or 'greater' in t or 'less' in t or 'basic_string' in t or t in ('std::string',):
            return args[0] if len(args) == 1 else t
        if t.endswith(('_error', 'exception', 'invalid_argument', 'out_of_range')):
            return ('exception', t, args[0] if args else '')
        if len(args) == 1:
            return args[0]
        if 'distribution' in t or 'mt19937' in t or 'engine' in t:
            return ('opaque', t)
        raise Undecided(f'construct {t}')

    def e_CXXThrowExpr(self, n, env, this):
        v = self.ev(n['inner'][0], env, this) if n.get('inner') else ('exception', '?', '')
        if isinstance(v, (Cell, At)):
            v = v.get()
        kind = v[1] if isinstance(v, tuple) and v[0] == 'exception' else 'other'
        raise Throw(kind, str(v[2]) if isinstance(v, tuple) else '', self.u.loc(n))

    def e_LambdaExpr(self, n, env, this):
        rec = n['inner'][0]
        op = next(c for c in rec['inner'] if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()')
        return Fn(op, env, this)

    def e_UnaryOperator(self, n, env, this):
        op = n['opcode']
        if op in ('++', '--'):
            p = self.place(n['inner'][0], env, this)
            old = p.get()
            new = Ptr(old.c, old.i + (1 if op == '++' else -1)) if isinstance(old, Ptr) else wrap(old + (1 if op == '++' else -1), tyname(n))
            p.set(new)
            return old if n.get('isPostfix') else new
        if op == '&':
            p = self.place(n['inner'][0], env, this)
            if isinstance(p, At) and isinstance(p.c, Vec):
                return Ptr(p.c, p.k)
            return p
        v = self.ev(n['inner'][0], env, this)
        if op == '!':
            return not v
        if op == '-':
            return wrap(-v, tyname(n))
        if op == '+':
            return v
        if op == '~':
            return wrap(~int(v), tyname(n))
        if op == '*':
            p = self.p_UnaryOperator(n, env, this)
            return p.get() if isinstance(p, (Cell, At)) else p
        raise Undecided(f'operator {op}')

    def e_BinaryOperator(self, n, env, this):
        op = n['opcode']
        a, b = n['inner']
        if op == '=':
            p = self.place(a, env, this)
            v = self.ev(b, env, this)
            if isinstance(p, MUTABLE):
                overwrite(p, v)
            else:
                p.set(wrap(dup(v), tyname(n)))
            return v
        if op == '&&':
            return bool(self.ev(a, env, this)) and bool(self.ev(b, env, this))
        if op == '||':
            return bool(self.ev(a, env, this)) or bool(self.ev(b, env, this))
        if op == ',':
            self.ev(a, env, this)
            return self.ev(b, env, this)
        return self.arith(op, self.ev(a, env, this), self.ev(b, env, this), tyname(n), n)

    def arith(self, op, x, y, t, n):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if op == '+':
                return Ptr(x.c, x.i + y) if isinstance(x, Ptr) else Ptr(y.c, y.i + x)
            if op == '-':
                return x.i - y.i if isinstance(y, Ptr) else Ptr(x.c, x.i - y)
            x, y = x.i, y.i
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '>': lambda: x > y, '<=': lambda: x <= y, '>=': lambda: x >= y}[op]()
        num = isinstance(x, (int, bool)) and isinstance(y, (int, bool))
        if op in ('/', '%') and num:
            if y == 0:
                raise Throw('undefined', 'division by zero', self.u.loc(n))
            q = abs(int(x)) // abs(int(y))
            q = q if (x < 0) == (y < 0) else -q
            return wrap(q if op == '/' else int(x) - q * int(y), t)
        if op == '/':
            if y == 0:
                return float('inf')
            return x / y
        if op in ('<<', '>>') and not 0 <= y < INTS.get(t, (64,))[0]:
            raise Throw('undefined', f'shift by {y}', self.u.loc(n))
        f = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '<<': lambda: int(x) << y, '>>': lambda: int(x) >> y, '&': lambda: int(x) & int(y),
             '|': lambda: int(x) | int(y), '^': lambda: int(x) ^ int(y)}.get(op)
        if f is None:
            raise Undecided(f'operator {op}')
        r = f()
        w = INTS.get(t)
        if w and w[1] and isinstance(r, int) and wrap(r, t) != r and op in '+-*':
            raise Throw('undefined', f'signed overflow in {x} {op} {y}', self.u.loc(n))
        return wrap(r, t)

    def e_CompoundAssignOperator(self, n, env, this):
        p = self.place(n['inner'][0], env, this)
        y = self.ev(n['inner'][1], env, this)
        ct = n.get('computeResultType', n['type'])
        ct = bare(ct.get('desugaredQualType') or ct.get('qualType'))
        v = self.arith(n['opcode'][:-1], p.get(), y, ct, n)
        v = wrap(v, tyname(n)) if isinstance(v, int) else v
        p.set(v)
        return v

    def e_ConditionalOperator(self, n, env, this):
        c, a, b = n['inner']
        return self.ev(a if self.ev(c, env, this) else b, env, this)

    def e_UnaryExprOrTypeTraitExpr(self, n, env, this):
        raise Undecided('sizeof')

    def e_ArrayInitLoopExpr(self, n, env, this):
        raise Undecided('array copy')

    def args(self, nodes, env, this):
        out = []
        for c in nodes:
            v = self.place(c, env, this)
            if v != ('default',):
                out.append(v)
        return out

    def operator(self, n, env, this):
        ref = n['inner'][0]
        while ref.get('kind') != 'DeclRefExpr':
            ref = ref['inner'][0]
        d = ref['referencedDecl']
        op = d['name'][len('operator'):]
        args = self.args(n['inner'][1:], env, this)
        if d['id'] in self.u.fns and not (op == '()' and isinstance(val(args[0]), Fn)):
            f = self.u.fns[d['id']]
            if f['kind'] == 'CXXMethodDecl':
                return self.call(f, args[1:], val(args[0]))
            return self.call(f, args, this)
        a = val(args[0])
        if op == '()':
            if isinstance(a, Fn):
                return self.call(a.node, args[1:], a.this, a.env)
            if callable(a):
                return a(*[val(x) for x in args[1:]])
            raise Undecided('call of an unknown function')
        if op == '[]':
            i = val(args[1])
            if isinstance(a, Map):
                if i not in a:
                    a[i] = 0
                return At(a, i)
            if isinstance(a, Ptr):
                return At(a.c, a.i + i, self.u.loc(n))
            return At(a, i, self.u.loc(n))
        if op == '=':
            v = val(args[1])
            if isinstance(v, list) and not isinstance(v, Vec):
                v = Vec(v)
            if isinstance(a, MUTABLE):
                if isinstance(a, SSet) and isinstance(v, Vec):
                    v = SSet(v)
                overwrite(a, v)
                return a
            args[0].set(dup(v))
            return args[0]
        if op in ('++', '--'):
            if isinstance(a, MapIt):
                ks = sorted(a.c)
                nxt = ks[ks.index(a.k) + 1:] or [END]
                new = MapIt(a.c, nxt[0])
            else:
                new = Ptr(a.c, a.i + (1 if op == '++' else -1))
            args[0].set(new)
            return a if len(args) > 1 else new
        if op == '*' and len(args) == 1:
            if isinstance(a, MapIt):
                return MapPair(a.c, a.k) if isinstance(a.c, Map) else a.k
            return At(a.c, a.i, self.u.loc(n))
        if op == '->':
            return a
        if op in ('+', '-', '*', '/') and len(args) == 2:
            return self.arith(op, a, val(args[1]), '', n)
        if op == '-' and len(args) == 1:
            return -a
        if op in ('+=', '-=', '*=', '/=', '|=', '&=', '^='):
            args[0].set(self.arith(op[:-1], a, val(args[1]), '', n))
            return args[0]
        if op in ('==', '!='):
            return (a == val(args[1])) == (op == '==')
        raise Undecided(f'operator {op}')

    def e_CXXOperatorCallExpr(self, n, env, this):
        return val(self.operator(n, env, this))

    def e_CXXMemberCallExpr(self, n, env, this):
        m = n['inner'][0]
        while m.get('kind') == 'ParenExpr':
            m = m['inner'][0]
        args = self.args(n['inner'][1:], env, this)
        o = self.ev(m['inner'][0], env, this) if m.get('inner') else this
        f = self.u.fns.get(m.get('referencedMemberDecl'))
        if f is not None and isinstance(o, Obj):
            return self.call(f, args, o)
        if m['name'].startswith('operator ') and not args:
            return o  # conversion
        return self.member(o, m['name'], args, n)

    def member(self, o, name, args, n):
        a = [val(x) for x in args]
        if name == 'operator=':
            overwrite(o, a[0])
            return o
        if isinstance(o, MapIt) or isinstance(o, Ptr) and name in ('first', 'second'):
            raise Undecided(name)
        if isinstance(o, Vec):
            if name == 'size':
                return len(o)
            if name == 'empty':
                return not o
            if name == 'capacity':
                return o.capacity()
            if name in ('reserve',):
                o.cap = max(o.capacity(), a[0])
                return None
            if name == 'shrink_to_fit':
                return None
            if name == 'clear':
                o.capacity()
                del o[:]
                return None
            if name == 'resize':
                o.capacity()
                if len(o) > a[0]:
                    del o[a[0]:]
                while len(o) < a[0]:
                    o.append(dup(a[1]) if len(a) > 1 else o.dflt())
                return None
            if name == 'assign':
                o[:] = [dup(a[1]) for _ in range(a[0])] if isinstance(a[0], int) else [dup(x) for x in a[0].c[a[0].i:a[1].i]]
                return None
            if name in ('push_back', 'emplace_back'):
                o.append(dup(a[0]))
                return None
            if name == 'pop_back':
                o.pop()
                return None
            if name in ('begin', 'cbegin'):
                return Ptr(o, 0)
            if name in ('end', 'cend'):
                return Ptr(o, len(o))
            if name == 'data':
                return Ptr(o, 0)
            if name == 'back':
                return At(o, len(o) - 1, self.u.loc(n))
            if name == 'front':
                return At(o, 0, self.u.loc(n))
            if name == 'at':
                if a[0] >= len(o):
                    raise Throw('std::out_of_range', '', self.u.loc(n))
                return At(o, a[0], self.u.loc(n))
            if name == 'swap':
                swap(o, a[0])
                return None
            if name == 'insert' and len(a) == 3 and isinstance(a[1], Ptr):
                o[a[0].i:a[0].i] = [dup(x) for x in a[1].c[a[1].i:a[2].i]]
                return None
            if name == 'insert' and len(a) == 3 and isinstance(a[1], MapIt):
                o[a[0].i:a[0].i] = items_between(a[1], a[2])
                return None
            if name == 'insert' and len(a) == 2:
                o.insert(a[0].i, dup(a[1]))
                return None
            if name == 'erase' and len(a) == 1:
                del o[a[0].i]
                return None
        if isinstance(o, (Map, SSet)):
            if name == 'size':
                return len(o)
            if name == 'empty':
                return not o
            if name == 'count':
                return int(a[0] in o)
            if name == 'contains':
                return a[0] in o
            if name == 'clear':
                o.clear()
                return None
            if name == 'erase':
                k = a[0].k if isinstance(a[0], MapIt) else a[0]
                had = k in o
                if had:
                    if isinstance(o, Map):
                        del o[k]
                    else:
                        o.discard(k)
                return int(had)
            if name == 'find':
                return MapIt(o, a[0] if a[0] in o else END)
            if name in ('begin', 'cbegin'):
                return MapIt(o, sorted(o)[0] if o else END)
            if name in ('end', 'cend'):
                return MapIt(o, END)
            if name == 'at':
                if a[0] not in o:
                    raise Throw('std::out_of_range', '', self.u.loc(n))
                return At(o, a[0])
            if isinstance(o, SSet) and name in ('insert', 'emplace'):
                if len(a) == 2 and isinstance(a[0], Ptr):
                    o.update(a[0].c[a[0].i:a[1].i])
                    return None
                if len(a) == 1:
                    new = a[0] not in o
                    o.add(a[0])
                    return Pair(MapIt(o, a[0]), new)
            if isinstance(o, Map) and name in ('insert', 'emplace'):
                k, v = (a[0], a[1]) if len(a) == 2 else (a[0].first, a[0].second)
                new = k not in o
                if new:
                    o[k] = v
                return Pair(MapIt(o, k), new)
            if name == 'swap':
                swap(o, a[0])
                return None
        if isinstance(o, (int, float, complex)):
            if name == 'real':
                return complex(o).real
            if name == 'imag':
                return complex(o).imag
        if isinstance(o, Pair) and name == 'get':
            return o
        raise Undecided(f'{type(o).__name__}.{name} at {self.u.loc(n)}')

    def e_CallExpr(self, n, env, this):
        ref = n['inner'][0]
        while ref.get('kind') not in ('DeclRefExpr', 'MemberExpr') and ref.get('inner'):
            ref = ref['inner'][0]
        d = ref.get('referencedDecl', {})
        args = self.args(n['inner'][1:], env, this)
        if d.get('id') in self.u.fns:
            return self.call(self.u.fns[d['id']], args, this)
        name = d.get('name')
        if d.get('kind') in ('VarDecl', 'ParmVarDecl'):
            f = val(self.place(ref, env, this))
            if callable(f):
                return f(*[val(a) for a in args])
        a = [val(x) for x in args]
        if name == 'swap':
            if isinstance(args[0], (Cell, At)):
                x, y = args[0].get(), args[1].get()
                args[0].set(y)
                args[1].set(x)
            else:
                swap(a[0], a[1])
            return None
        if name in ('move', 'forward', 'ref', 'cref', 'as_const'):
            return a[0]
        if name == 'norm':
            return abs(a[0]) ** 2
        if name in ('abs', 'fabs'):
            return abs(a[0])
        if name == 'sqrt':
            return cmath.sqrt(a[0]) if isinstance(a[0], complex) or a[0] < 0 else a[0] ** 0.5
        if name == 'exp':
            r = cmath.exp(a[0])
            return r if isinstance(a[0], complex) else r.real
        if name in ('real', 'imag', 'conj'):
            z = complex(a[0])
            return {'real': z.real, 'imag': z.imag, 'conj': z.conjugate()}[name]
        if name in ('min', 'max'):
            return (min if name == 'min' else max)(a[:2])
        if name == 'make_tuple' or name == 'tie':
            return tuple(a)
        if name == 'make_pair':
            return Pair(dup(a[0]), dup(a[1]))
        if name == 'bind':
            return self.draw
        if name in ('copy_n', 'copy', 'fill', 'fill_n', 'sort', 'reverse', 'all_of', 'any_of', 'none_of', 'find', 'count', 'equal_range', 'lower_bound', 'upper_bound',
                    'accumulate', 'iota', 'is_sorted', 'distance', 'transform', 'for_each', 'begin', 'end'):
            return self.algorithm(name, a, n)
        raise Undecided(f'call of {name} at {self.u.loc(n)}')

    def apply(self, f, *args):
        if isinstance(f, Fn):
            return val(self.call(f.node, list(args), f.this, f.env))
        if callable(f):
            return f(*args)
        if isinstance(f, tuple) and f[0] == 'fn' and f[1]['id'] in self.u.fns:
            return val(self.call(self.u.fns[f[1]['id']], list(args), None))
        raise Undecided('function object')

    def algorithm(self, name, a, n):
        if name in ('begin', 'end'):
            return Ptr(a[0], 0 if name == 'begin' else len(a[0]))
        first = a[0]
        if isinstance(first, MapIt):
            raise Undecided(f'{name} on a map')
        c, i = first.c, first.i
        if isinstance(first, Ptr) and name.endswith('_n'):
            k = a[1]
            if i < 0 or i + k > len(c):
                raise Throw('undefined', f'{name} reads outside a vector', self.u.loc(n))
            if name == 'fill_n':
                c[i:i + k] = [dup(a[2]) for _ in range(k)]
                return Ptr(c, i + k)
            d = a[2]
            if d.i + k > len(d.c):
                raise Throw('undefined', f'{name} writes outside a vector', self.u.loc(n))
            d.c[d.i:d.i + k] = [dup(x) for x in c[i:i + k]]
            return Ptr(d.c, d.i + k)
        j = a[1].i
        part = list(c[i:j])
        if name == 'copy':
            d = a[2]
            if d.i + len(part) > len(d.c):
                raise Throw('undefined', 'copy writes outside a vector', self.u.loc(n))
            d.c[d.i:d.i + len(part)] = [dup(x) for x in part]
            return Ptr(d.c, d.i + len(part))
        if name == 'fill':
            c[i:j] = [dup(a[2])] * len(part)
            return None
        if name == 'sort':
            rev = len(a) > 2 and isinstance(a[2], str) and 'greater' in a[2]
            if len(a) > 2 and not isinstance(a[2], str):
                part.sort(key=functools.cmp_to_key(lambda x, y: -1 if self.apply(a[2], x, y) else 1 if self.apply(a[2], y, x) else 0))
            else:
                part.sort(reverse=rev)
            c[i:j] = part
            return None
        if name == 'reverse':
            c[i:j] = part[::-1]
            return None
        if name == 'iota':
            c[i:j] = [a[2] + k for k in range(len(part))]
            return None
        if name in ('all_of', 'any_of', 'none_of'):
            r = [bool(self.apply(a[2], x)) for x in part]
            return {'all_of': all(r), 'any_of': any(r), 'none_of': not any(r)}[name]
        if name == 'for_each':
            for k in range(i, j):
                self.apply(a[2], At(c, k) if not isinstance(c[k], MUTABLE) else c[k])
            return None
        if name == 'find':
            return Ptr(c, i + part.index(a[2]) if a[2] in part else j)
        if name == 'count':
            return part.count(a[2])
        if name == 'distance':
            return j - i
        if name == 'accumulate':
            r = a[2]
            for x in part:
                r = self.apply(a[3], r, x) if len(a) > 3 else r + x
            return r
        if name in ('equal_range', 'lower_bound', 'upper_bound'):
            lo = next((k for k, x in enumerate(part) if not x < a[2]), len(part))
            hi = next((k for k, x in enumerate(part) if a[2] < x), len(part))
            return {'lower_bound': Ptr(c, i + lo), 'upper_bound': Ptr(c, i + hi), 'equal_range': Pair(Ptr(c, i + lo), Ptr(c, i + hi))}[name]
        raise Undecided(name)


def items_between(a, b):
    ks = sorted(a.c)
    i = ks.index(a.k) if a.k is not END else len(ks)
    j = ks.index(b.k) if b.k is not END else len(ks)
    return ks[i:j]


def swap(x, y):
    if isinstance(x, Vec):
        x[:], y[:] = list(y), list(x)
        x.cap, y.cap = y.cap, x.cap
        return
    t = dup(x)
    overwrite(x, y)
    overwrite(y, t)


def val(p):
    return p.get() if isinstance(p, (Cell, At)) else p


def vec(xs, t='std::vector<unsigned int>'):
    v = default_of(t)
    v[:] = list(xs)
    return v


__all__ = ['Unit', 'Eval', 'Throw', 'Undecided', 'vec', 'copy', 'Pair', 'Vec']
