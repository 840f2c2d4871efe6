"""Exact meaning of gate sequences with symbolic angles.

An amplitude is a complex number or a sum of characters {key: complex}: key = ((symbol, rational), ...) stands for exp(i * sum rational * symbol).
For x mod c an integer symbol k with x mod c = x - c * k is introduced; its exponents are taken modulo one turn. Distinct keys are linearly
independent functions, so two sums are equal for all angles exactly when their coefficients agree."""
import cmath
import math
from fractions import Fraction

from . import unitary
from .values import IM, K, Ref, T, Val, is_tuple, numval, to_poly


class Unreadable(Exception):
    pass


TOL = 1e-8


# ---- ring
def add(a, b):
    if not isinstance(a, dict) and not isinstance(b, dict):
        return a + b
    r = dict(a) if isinstance(a, dict) else {(): a}
    for k, c in (b if isinstance(b, dict) else {(): b}).items():
        c = r.get(k, 0) + c
        if abs(c) > 1e-13:
            r[k] = c
        else:
            r.pop(k, None)
    return r


def kmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for s, f in b:
        d[s] = d.get(s, 0) + f
        if s[0] == 'k':
            d[s] %= 1
        if not d[s]:
            del d[s]
    return tuple(sorted(d.items()))


def mul(a, b):
    if not isinstance(a, dict):
        return a * b if not isinstance(b, dict) else {k: a * c for k, c in b.items()} if a else 0
    if not isinstance(b, dict):
        return {k: b * c for k, c in a.items()} if b else 0
    r = {}
    for k1, c1 in a.items():
        for k2, c2 in b.items():
            k = kmul(k1, k2)
            r[k] = r.get(k, 0) + c1 * c2
    return {k: c for k, c in r.items() if abs(c) > 1e-13}


def conj(a):
    if not isinstance(a, dict):
        return complex(a).conjugate()
    return {tuple((s, -f % 1 if s[0] == 'k' else -f) for s, f in k): c.conjugate() for k, c in a.items()}


def zero(a):
    return all(abs(c) < TOL for c in a.values()) if isinstance(a, dict) else abs(a) < TOL


def character(term, factor, env=None):
    """exp(i * factor * term)."""
    d, const = {}, 0.0

    def go(t, f):
        nonlocal const
        for m, c in to_poly(t).items():
            v = 1.0
            for x, e in m:
                y = numval(x)
                v = None if y is None or v is None else v * y ** e
            if v is not None:
                const += float(f * c) * v
                continue
            if len(m) != 1 or m[0][1] != 1 or not isinstance(m[0][0], T):
                raise Unreadable(f'angle {t}')
            x = m[0][0]
            g = f * c
            if x.op == 'sym':
                s = ('s', str(x.args[0]))
                d[s] = d.get(s, 0) + g
            elif x.op == 'float' or x.op == 'round':
                go(x.args[0], g)
            elif x.op == 'mod' and numval(x.args[1]) is not None:
                go(x.args[0], g)
                turn = -g * Fraction(numval(x.args[1]) / (2 * math.pi)).limit_denominator(1 << 20)
                s = ('k', repr(x.args[0]) + '/' + str(x.args[1]))
                d[s] = (d.get(s, 0) + turn) % 1
            else:
                raise Unreadable(f'angle {t}')
    go(term, Fraction(factor))
    c = cmath.exp(1j * const)
    k = tuple(sorted((s, f) for s, f in d.items() if f))
    return {k: c} if k else c


def value(t, env):
    """Numeric value of a term with the symbols given by env, or None."""
    if isinstance(t, K):
        return t.v if isinstance(t.v, (int, float, complex, bool)) else None
    if not isinstance(t, T):
        return None
    if t.op == 'sym':
        return env.get(str(t.args[0]) if not isinstance(t.args[0], str) else t.args[0])
    v = numval(t)
    if v is not None:
        return v
    if t == IM:
        return 1j
    if t.op == 'poly':
        r = 0
        for m, c in t.args[0]:
            p = float(c)
            for x, e in m:
                y = value(x, env)
                if y is None:
                    return None
                p *= y ** e
            r += p
        return r
    a = [value(x, env) if isinstance(x, Val) else x for x in t.args]
    if t.op in ('attr', 'truthy') and len(a) <= 2 and isinstance(a[0], (int, float, complex)):
        n = t.args[1] if len(t.args) > 1 else None
        n = n.v if isinstance(n, K) else n
        return bool(a[0]) if t.op == 'truthy' else getattr(a[0], n) if n in ('real', 'imag') else None
    if any(x is None for x in a):
        return None
    try:
        if t.op == 'float':
            return float(a[0])
        if t.op == 'round':
            return round(a[0], *(int(x) for x in a[1:]))
        if t.op == 'mod':
            return a[0] % a[1]
        if t.op == 'floordiv':
            return a[0] // a[1]
        if t.op == 'int':
            return int(a[0])
        if t.op == 'neg':
            return -a[0]
        if t.op == 'inv':
            return 1 / a[0]
        if t.op in ('cos', 'sin', 'exp', 'sqrt', 'tan'):
            r = getattr(cmath, t.op)(a[0])
            return r.real if abs(r.imag) < 1e-300 else r
        if t.op == 'abs':
            return abs(a[0])
        if t.op == 'not':
            return not a[0]
        if t.op == 'cmp':
            o, x, y = a
            return {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y, '==': lambda: x == y, '!=': lambda: x != y}[o]()
    except (ValueError, TypeError, ZeroDivisionError, KeyError, OverflowError):
        return None
    return None


# ---- gates
def rotation(name, t):
    e = lambda f: character(t, f)  # noqa: E731
    h, g = Fraction(1, 2), Fraction(-1, 2)
    c = mul(0.5, add(e(h), e(g)))
    s = mul(-0.5j, add(e(h), mul(-1, e(g))))
    ms = mul(-1j, s)
    return {
        'rx': lambda: [[c, ms], [ms, c]], 'ry': lambda: [[c, mul(-1, s)], [s, c]], 'rz': lambda: [[e(g), 0], [0, e(h)]],
        'rxx': lambda: [[c, 0, 0, ms], [0, c, ms, 0], [0, ms, c, 0], [ms, 0, 0, c]],
        'ryy': lambda: [[c, 0, 0, mul(-1, ms)], [0, c, ms, 0], [0, ms, c, 0], [mul(-1, ms), 0, 0, c]],
        'rzz': lambda: [[e(g), 0, 0, 0], [0, e(h), 0, 0], [0, 0, e(h), 0], [0, 0, 0, e(g)]],
        'r': lambda: [[1, 0], [0, e(1)]], 'ph': lambda: [[e(1), 0], [0, e(1)]],
    }[name]()


def dagger(m):
    return [[conj(m[j][i]) for j in range(len(m))] for i in range(len(m))]


def matmul(a, b):
    out = []
    for r in a:
        row = []
        for j in range(len(b[0])):
            x = 0
            for k, y in enumerate(r):
                x = add(x, mul(y, b[k][j]))
            row.append(x)
        out.append(row)
    return out


def entry(t):
    """Element of a matrix written with symbolic numbers."""
    if isinstance(t, K):
        return complex(t.v)
    r = 0
    for m, c in to_poly(t).items():
        p = float(c)
        for x, e in m:
            if x == IM:
                y = 1j
            elif numval(x) is not None:
                y = numval(x)
            elif isinstance(x, T) and x.op in ('exp', 'cos', 'sin') and len(x.args) == 1:
                a = x.args[0]
                if x.op == 'exp':
                    # exp(i * b)
                    b = {}
                    for mm, cc in to_poly(a).items():
                        rest = tuple((z, n) for z, n in mm if z != IM)
                        if len(rest) != len(mm) - 1:
                            raise Unreadable(f'exponent {a}')
                        b[rest] = cc
                    from .values import from_poly
                    y = character(from_poly(b), 1)
                else:
                    p1, p2 = character(a, 1), character(a, -1)
                    y = mul(0.5, add(p1, p2)) if x.op == 'cos' else mul(-0.5j, add(p1, mul(-1, p2)))
            else:
                raise Unreadable(f'number {x}')
            for _ in range(e):
                p = mul(p, y)
        r = add(r, p)
    return r


class Gates:
    """Meaning of the gate objects of one path."""

    def __init__(self, C, st):
        self.C, self.st, self.I = C, st, C.I
        self.known = None

    def attr(self, g, name):
        return self.I.getattr_heap(self.st, g, name)

    def name(self, g):
        ci = self.I.class_of(g)
        return None if ci is None else ci.name

    def classes(self, g):
        ci = self.I.class_of(g)
        return [] if ci is None else [c.name for c in self.C.prog.mro(ci)]

    def angle(self, g):
        a = self.attr(g, 'angle')
        if a is None:
            raise Unreadable(f'no angle of {self.name(g)}')
        return a

    def matrix(self, g, k, env=None):
        """Matrix of the gate on k qubits (first qubit most significant); symbols replaced by env if given."""
        n = self.name(g)
        if n in unitary.GATES:
            return unitary.FIXED[unitary.GATES[n]]
        if n in unitary.ROTS:
            a = self.angle(g)
            if env is not None:
                x = value(a, env)
                if x is None:
                    raise Unreadable(f'angle {a}')
                return unitary.rot(unitary.ROTS[n], x)
            return rotation(unitary.ROTS[n], a)
        if n == 'DaggeredGate':
            return dagger(self.matrix(self.attr(g, '_gate'), k, env))
        if n == 'BarrierGate':
            return [[1 if i == j else 0 for j in range(1 << k)] for i in range(1 << k)]
        if n == 'QFTGate':
            return qft(k)
        if n in ('BasicGate', 'MatrixGate'):
            m = self.attr(g, '_matrix') if n == 'MatrixGate' else None
            m = m if m is not None else self.attr(g, 'matrix')
            rows = None if m is None else self.I.items(self.st, m)
            if rows:
                return [[entry(x) for x in self.I.items(self.st, r)] for r in rows]
        raise Unreadable(f'gate {n}')


def qft(k):
    """The decomposed transformation leaves the bits reversed: first qubit of the register is the least significant one."""
    n = 1 << k
    w = cmath.exp(2j * math.pi / n)
    rev = lambda x: int(format(x, f'0{k}b')[::-1], 2) if k else 0  # noqa: E731
    # register order: qubit 0 is least significant; matrices here have the first qubit most significant
    m = [[0] * n for _ in range(n)]
    for x in range(n):
        for y in range(n):
            m[y][rev(x)] = w ** (x * y) / math.sqrt(n)
    return m


class Circuit:
    """State vectors over named qubits as {frozenset of ones: amplitude}; one per basis input, or one generic vector."""

    def __init__(self, qubits):
        self.q = {q: i for i, q in enumerate(qubits)}
        self.free = len(qubits)
        self.dirty = None

    def bit(self, q):
        if q not in self.q:
            raise Unreadable(f'qubit {q} is not known')
        return 1 << self.q[q]

    def alloc(self, q):
        if q in self.q:
            raise Unreadable(f'qubit {q} allocated twice')
        self.q[q] = self.free
        self.free += 1

    def dealloc(self, q, vecs):
        b = self.bit(q)
        for v in vecs:
            for i, a in v.items():
                if i & b and not zero(a):
                    self.dirty = q
        del self.q[q]

    def apply(self, m, targets, controls, vec):
        bits = [self.bit(q) for q in targets]
        mask = want = 0
        for q, b in controls:
            mask |= self.bit(q)
            want |= self.bit(q) if b else 0
        allb = sum(bits)
        k = len(bits)
        if len(set(bits)) != k or allb & mask:
            raise Unreadable('a qubit is used twice')
        if len(m) != 1 << k:
            raise Unreadable('matrix of another size')
        spread = []
        for r in range(1 << k):
            spread.append(sum(bits[j] for j in range(k) if r >> (k - 1 - j) & 1))
        index = {s: r for r, s in enumerate(spread)}
        out = {}
        for i, a in vec.items():
            if i & mask != want:
                out[i] = add(out[i], a) if i in out else a
                continue
            col = index[i & allb]
            base = i & ~allb
            for r in range(1 << k):
                x = m[r][col]
                if isinstance(x, dict) or x:
                    j = base | spread[r]
                    y = mul(x, a)
                    out[j] = add(out[j], y) if j in out else y
        return {i: a for i, a in out.items() if not zero_exact(a)}


def zero_exact(a):
    return not a if isinstance(a, dict) else abs(a) < 1e-13


def differs(u, v):
    """A basis state on which the vectors differ."""
    for i in set(u) | set(v):
        if not zero(add(u.get(i, 0), mul(-1, v.get(i, 0)))):
            return i
    return None


def at(a, env):
    """Value of a ring element without integer symbols."""
    if not isinstance(a, dict):
        return a
    r = 0
    for k, c in a.items():
        p = 0.0
        for s, f in k:
            if s[0] != 's':
                raise Unreadable('integer symbol')
            p += float(f) * env[s[1]]
        r += c * cmath.exp(1j * p)
    return r
