"""Abstract values: constants, references to abstract objects, provenance terms and exact polynomial arithmetic on them."""
from fractions import Fraction


class Val:
    __slots__ = ()


class K(Val):
    """A constant of the analysed program."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, K) and type(self.v) is type(o.v) and self.v == o.v

    def __hash__(self):
        return hash((type(self.v), self.v))

    def __repr__(self):
        return repr(self.v)


class Ref(Val):
    """An abstract object created by analysed code (instance, list, set, dict)."""
    __slots__ = ('oid', 'tag')

    def __init__(self, oid, tag):
        self.oid, self.tag = oid, tag

    def __eq__(self, o):
        return self is o or type(o) is Ref and o.oid == self.oid

    def __hash__(self):
        return self.oid

    def __repr__(self):
        return f'<{self.tag}#{self.oid}>'


class T(Val):
    """A provenance term: operator and arguments."""
    __slots__ = ('op', 'args', '_h', '_r')

    def __init__(self, op, *args):
        self.op, self.args = op, args
        self._h = hash((op, args))
        self._r = None

    def __eq__(self, o):
        return self is o or (isinstance(o, T) and self._h == o._h and self.op == o.op and self.args == o.args)

    def __hash__(self):
        return self._h

    def __repr__(self):
        if self._r is None:
            self._r = show(self)
        return self._r


class ClsV(Val):
    __slots__ = ('ci',)

    def __init__(self, ci):
        self.ci = ci

    def __eq__(self, o):
        return isinstance(o, ClsV) and o.ci is self.ci

    def __hash__(self):
        return hash(('cls', id(self.ci)))

    def __repr__(self):
        return self.ci.name


class FnV(Val):
    __slots__ = ('fi', 'selfv', 'fid', 'defs')

    def __init__(self, fi, selfv=None, fid=None, defs=None):
        self.fi, self.selfv, self.fid, self.defs = fi, selfv, fid, defs

    def __eq__(self, o):
        return isinstance(o, FnV) and o.fi is self.fi and o.selfv == self.selfv and o.defs == self.defs

    def __hash__(self):
        return hash(('fn', id(self.fi), self.selfv))

    def __repr__(self):
        return f'fn:{self.fi.qual}'


class ModV(Val):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ModV) and o.name == self.name

    def __hash__(self):
        return hash(('mod', self.name))

    def __repr__(self):
        return self.name


class ExtV(Val):
    """Something outside the repository, by dotted name."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.name == self.name

    def __hash__(self):
        return hash(('ext', self.name))

    def __repr__(self):
        return f'ext:{self.name}'


class BoundExt(Val):
    """A method of a built-in or unknown object: receiver and name."""
    __slots__ = ('recv', 'name')

    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def __eq__(self, o):
        return isinstance(o, BoundExt) and o.recv == self.recv and o.name == self.name

    def __hash__(self):
        return hash(('bext', self.recv, self.name))

    def __repr__(self):
        return f'{self.recv!r}.{self.name}'


class SuperV(Val):
    __slots__ = ('ci', 'selfv')

    def __init__(self, ci, selfv):
        self.ci, self.selfv = ci, selfv


class Exc:
    """An exceptional outcome. cls: ClassInfo, or dotted/builtin name."""

    def __init__(self, cls, loc=None, value=None):
        self.cls, self.loc, self.value = cls, loc, value

    @property
    def name(self):
        return self.cls if isinstance(self.cls, str) else self.cls.name

    def __repr__(self):
        return f'raise {self.name}'


NONE, TRUE, FALSE = K(None), K(True), K(False)
PI, IM, SQRT2 = T('pi'), T('i'), T('sqrt2')


def tup(*items):
    return T('tuple', *items)


def is_tuple(v):
    return isinstance(v, T) and v.op == 'tuple'


def show(v):
    if not isinstance(v, T):
        return repr(v)
    o, a = v.op, v.args
    if o == 'sym':
        return str(a[0])
    if o == 'attr':
        return f'{a[0]!r}.{a[1]}'
    if o == 'elem':
        return f'each({a[0]!r})'
    if o == 'idx':
        return f'index({a[0]!r})'
    if o == 'sub':
        return f'{a[0]!r}[{a[1]!r}]'
    if o == 'tuple':
        return '(' + ', '.join(map(repr, a)) + ')'
    if o == 'len':
        return f'len({a[0]!r})'
    if o == 'poly':
        return '(' + ' + '.join((f'{c}' if not m else (f'{c}*' if c != 1 else '') + '*'.join(
            repr(x) + (f'^{p}' if p != 1 else '') for x, p in m)) for m, c in a[0]) + ')'
    if o == 'call':
        return f'{a[0]!r}(' + ', '.join(map(repr, a[1])) + ''.join(f', {k}={x!r}' for k, x in a[2]) + ')'
    if o in ('pi', 'i', 'sqrt2'):
        return o
    return f'{o}(' + ', '.join(map(repr, a)) + ')'


# ---------------------------------------------------------------------------------------------- polynomials
NUMERIC_OPS = {'poly', 'pi', 'i', 'sqrt2', 'len', 'idx', 'cos', 'sin', 'exp', 'sqrt', 'mod', 'floordiv', 'shl', 'pow',
               'div', 'float', 'abs', 'range_elem', 'tan'}


def is_num(v):
    if isinstance(v, K):
        return isinstance(v.v, (int, float, complex)) and not isinstance(v.v, bool)
    return isinstance(v, T) and (v.op in NUMERIC_OPS or (v.op == 'elem' and isinstance(v.args[0], T) and v.args[0].op == 'range'))


def to_poly(v):
    """dict monomial -> Fraction; unknown terms are atoms."""
    if isinstance(v, K):
        x = v.v
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, int) or isinstance(x, float):
            if x != x or x in (float('inf'), float('-inf')):
                return {((T('const', repr(x)), 1),): Fraction(1)}
            return {(): Fraction(x)} if x else {}
        if isinstance(x, complex):
            r = {}
            if x.real:
                r[()] = Fraction(x.real)
            if x.imag:
                r[((IM, 1),)] = Fraction(x.imag)
            return r
        return {((v, 1),): Fraction(1)}
    if isinstance(v, T):
        if v.op == 'poly':
            return dict(v.args[0])
        if v.op == 'binop' and v.args[0] in ('+', '-', '*'):
            a, b = to_poly(v.args[1]), to_poly(v.args[2])
            return {'+': padd, '-': psub, '*': pmul}[v.args[0]](a, b)
        if v.op == 'neg':
            return pscale(to_poly(v.args[0]), Fraction(-1))
        if v.op == 'float':
            return to_poly(v.args[0])
    return {((v, 1),): Fraction(1)}


def _mono_mul(a, b):
    d = {}
    for x, p in a + b:
        d[x] = d.get(x, 0) + p
    c = Fraction(1)
    if IM in d:
        p = d.pop(IM) % 4
        if p in (2, 3):
            c = -c
        if p % 2:
            d[IM] = 1
    if SQRT2 in d:
        p = d.pop(SQRT2)
        q, r = divmod(p, 2)
        c *= Fraction(2) ** q
        if r:
            d[SQRT2] = 1
    return tuple(sorted(((x, p) for x, p in d.items() if p), key=lambda t: repr(t[0]))), c


def padd(a, b):
    r = dict(a)
    for m, c in b.items():
        c = r.get(m, 0) + c
        if c:
            r[m] = c
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def psub(a, b):
    return padd(a, pscale(b, Fraction(-1)))


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m, c = _mono_mul(m1, m2)
            c = r.get(m, 0) + c * c1 * c2
            if c:
                r[m] = c
            else:
                r.pop(m, None)
    return r


def from_poly(p):
    if not p:
        return K(0)
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return K(int(c)) if c.denominator == 1 else K(float(c)) if Fraction(float(c)) == c else T('poly', (((), c),))
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return T('poly', tuple(sorted(p.items(), key=lambda t: repr(t[0]))))


def const_of(v):
    """Fraction value of a constant numeric value, else None."""
    p = to_poly(v)
    if not p:
        return Fraction(0)
    if len(p) == 1 and () in p:
        return p[()]
    return None


def walk(v):
    """All sub-values of a value."""
    yield v
    if isinstance(v, T):
        st = list(v.args)
        while st:
            x = st.pop()
            if isinstance(x, Val):
                yield from walk(x)
            elif isinstance(x, (tuple, frozenset)):
                st.extend(x)
    elif isinstance(v, BoundExt):
        yield from walk(v.recv)


def contains(v, x):
    return any(y == x for y in walk(v))


def subst(v, mp):
    """Replace sub-values."""
    if v in mp:
        return mp[v]
    if isinstance(v, T):
        def go(x):
            if isinstance(x, Val):
                return subst(x, mp)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            if isinstance(x, frozenset):
                return frozenset(go(y) for y in x)
            return x
        return T(v.op, *[go(a) for a in v.args])
    return v


def strip_copy(v):
    while isinstance(v, T) and v.op in ('deepcopy', 'copy'):
        v = v.args[0]
    return v


def attr(base, *names):
    for n in names:
        base = T('attr', base, n)
    return base


def sym(name):
    return T('sym', name)


import math  # noqa: E402

_NUM = {'cos': math.cos, 'sin': math.sin, 'sqrt': math.sqrt, 'tan': math.tan, 'abs': abs}


def numval(v):
    """Float value of a term made of constants only (pi, sqrt 2, elementary functions of them), else None."""
    if isinstance(v, K):
        return float(v.v) if isinstance(v.v, (int, float)) else None
    if not isinstance(v, T):
        return None
    if v.op == 'pi':
        return math.pi
    if v.op == 'sqrt2':
        return math.sqrt(2)
    if v.op in _NUM and len(v.args) == 1:
        x = numval(v.args[0])
        try:
            return None if x is None else _NUM[v.op](x)
        except ValueError:
            return None
    if v.op == 'inv':
        x = numval(v.args[0])
        return 1 / x if x else None
    if v.op == 'poly':
        return polyval(dict(v.args[0]))
    return None


def polyval(p):
    r = 0.0
    for m, c in p.items():
        t = float(c)
        for x, k in m:
            n = numval(x)
            if n is None:
                return None
            t *= n ** k
        r += t
    return r
