"""Reference meaning of composite gates (arithmetic, uniformly controlled rotations, evolution under Pauli terms ...) and the cases
in which their decomposition rules are followed."""
import cmath
import math

from . import unitary
from .alg import Gates, Unreadable, add, character, mul, rotation, value, zero
from .model import AnalysisError
from .values import K, Ref, T

PAULI = {'X': unitary.FIXED['x'], 'Y': unitary.FIXED['y'], 'Z': unitary.FIXED['z']}


# ---- arithmetic: tuple of register values -> tuple of register values, None outside the documented domain
def math_function(G, g, sizes):
    n = G.name(g)
    num = lambda a: integer(G.attr(g, a))  # noqa: E731
    mod = [1 << s for s in sizes]
    if n == 'AddConstant':
        a = num('a')
        return lambda x: ((x + a) % mod[0],)
    if n == 'AddConstantModN':
        a, N = num('a'), num('N')
        return lambda x: ((x + a) % N,) if x < N else None
    if n == 'MultiplyByConstantModN':
        a, N = num('a'), num('N')
        return lambda x: (a * x % N,) if x < N else None
    if n == 'AddQuantumGate':
        return lambda a, b, *c: (a, (a + b) % mod[1]) + ((c[0] ^ (a + b >= mod[1]),) if c else ())
    if n in ('_InverseAddQuantumGate', 'SubtractQuantumGate'):
        return lambda a, b, *c: (a, (b - a) % mod[1]) + ((c[0] ^ (a > b),) if c else ())
    if n == 'ComparatorQuantumGate':
        return lambda a, b, c: (a, b, c ^ (a > b))
    if n == 'MultiplyQuantumGate':
        return lambda a, b, c: (a, b, (c + a * b) % mod[2])
    if n == '_InverseMultiplyQuantumGate':
        return lambda a, b, c: (a, b, (c - a * b) % mod[2])
    if n == 'DivideQuantumGate':
        return lambda a, r, d: (a % d, a // d, d) if d and r == 0 else None
    if n == '_InverseDivideQuantumGate':
        return lambda r, q, d: (r + q * d, 0, d) if d and r < d and r + q * d < mod[0] else None
    return None


def integer(v):
    if isinstance(v, K) and isinstance(v.v, int):
        return v.v
    raise Unreadable(f'number {v}')


def plain(G, v, depth=0):
    """Contents of tuples, lists and dictionaries as Python values; symbolic numbers stay."""
    if isinstance(v, K):
        return v.v
    if isinstance(v, (tuple, list)):
        return tuple(plain(G, x, depth + 1) for x in v)
    if isinstance(v, T) and v.op in ('tuple', 'list'):
        return tuple(plain(G, x, depth + 1) for x in v.args)
    if isinstance(v, Ref):
        if G.I.kind(v) == 'dict':
            return {plain(G, k): plain(G, G.st.ditems[v, k]) for k in G.st.ditems.keys_of(v)}
        xs = G.I.items(G.st, v)
        if xs is not None:
            return tuple(plain(G, x, depth + 1) for x in xs)
    return v


def number(x, env):
    if isinstance(x, (int, float, complex)):
        return x
    r = value(x, env or {}) if isinstance(x, T) else None
    return x if r is None else r


def apply(G, circ, g, regs, ctrl, vec, env=None):
    """Apply a gate object; amplitudes in a state outside the domain of an arithmetic gate make it unreadable."""
    n = G.name(g)
    sizes = [len(r) for r in regs]
    if G.known and n == G.known[0]:
        return G.known[1](circ, regs, ctrl, vec)
    if n == 'DaggeredGate':
        inner = G.attr(g, '_gate')
        if math_function(G, inner, sizes) is not None:
            raise Unreadable('inverse of an arithmetic gate')
    f = math_function(G, g, sizes)
    if f is not None:
        return permute(circ, f, regs, ctrl, vec)
    targets = [q for r in regs for q in r]
    if n in ('UniformlyControlledRy', 'UniformlyControlledRz'):
        angles = plain(G, G.attr(g, 'angles'))
        cs = targets[:-1]
        if not isinstance(angles, tuple) or len(angles) != 1 << len(cs):
            raise Unreadable('number of angles')
        for k, a in enumerate(angles):
            a = number(a, env)
            name = n[-2:].lower()
            m = rotation(name, a) if isinstance(a, T) else unitary.rot(name, a)
            vec = circ.apply(m, targets[-1:], list(ctrl) + [(q, bool(k >> i & 1)) for i, q in enumerate(cs)], vec)
        return vec
    if n == 'QubitOperator':
        terms = plain(G, G.attr(g, 'terms'))
        if len(terms) != 1:
            raise Unreadable('operator with several terms')
        ((term, c),) = terms.items()
        return merge(circ, vec, ctrl, lambda v: scale(pauli(circ, term, targets, v), number(c, env)))
    if n == 'TimeEvolution':
        h = plain(G, G.attr(G.attr(g, 'hamiltonian'), 'terms'))
        t = number(plain(G, G.attr(g, 'time')), env)
        if not commuting(h):
            raise Unreadable('terms do not commute')
        for term, c in h.items():
            x = number(G.I.arith('*', tv(t), tv(number(c, env))), env)
            x = x.v if isinstance(x, K) else x
            if isinstance(x, T):
                p, q = character(x, 1), character(x, -1)
            else:
                p, q = cmath.exp(1j * x), cmath.exp(-1j * x)
            cos, isin = mul(0.5, add(p, q)), mul(0.5, add(p, mul(-1, q)))
            vec = merge(circ, vec, ctrl, lambda v: plus(scale(v, cos), scale(pauli(circ, term, targets, v), mul(-1, isin))))
        return vec
    if n == 'StatePreparation':
        amps = plain(G, G.attr(g, 'final_state'))
        mask = sum(circ.bit(q) for q in targets)
        out = {}
        for i, a in vec.items():
            if not satisfied(circ, ctrl, i):
                out[i] = add(out.get(i, 0), a)
                continue
            if i & mask:
                raise Unreadable('state preparation on a register that is not zero')
            for k, x in enumerate(amps):
                j = i | sum(circ.bit(q) for b, q in enumerate(targets) if k >> b & 1)
                out[j] = add(out.get(j, 0), mul(number(x, env), a))
        return {i: a for i, a in out.items() if not zero(a)}
    if n == 'EntangleGate':
        vec = circ.apply(unitary.FIXED['h'], targets[:1], ctrl, vec)
        for q in targets[1:]:
            vec = circ.apply(unitary.FIXED['x'], [q], list(ctrl) + [(targets[0], True)], vec)
        return vec
    return circ.apply(G.matrix(g, len(targets), env), targets, ctrl, vec)


def tv(x):
    return x if isinstance(x, T) else K(x)


def satisfied(circ, ctrl, i):
    return all(bool(i & circ.bit(q)) == b for q, b in ctrl)


def merge(circ, vec, ctrl, fn):
    yes = {i: a for i, a in vec.items() if satisfied(circ, ctrl, i)}
    no = {i: a for i, a in vec.items() if i not in yes}
    return {**no, **fn(yes)}


def scale(vec, c):
    return {i: mul(c, a) for i, a in vec.items()}


def plus(u, v):
    out = dict(u)
    for i, a in v.items():
        out[i] = add(out[i], a) if i in out else a
    return out


def pauli(circ, term, targets, vec):
    for index, action in term:
        vec = circ.apply(PAULI[action], [targets[index]], [], vec)
    return vec


def commuting(h):
    ts = [dict(t) for t in h]
    return all(sum(1 for k in a if k in b and a[k] != b[k]) % 2 == 0 for a in ts for b in ts)


def values(circ, regs, i):
    return tuple(sum(1 << b for b, q in enumerate(r) if i & circ.bit(q)) for r in regs)


def permute(circ, f, regs, ctrl, vec):
    mask = sum({circ.bit(q) for r in regs for q in r})
    out = {}
    for i, a in vec.items():
        j = i
        if satisfied(circ, ctrl, i):
            new = f(*values(circ, regs, i))
            if new is None:
                raise Unreadable('an arithmetic gate is used outside of its domain')
            j = i & ~mask
            for r, x in zip(regs, new):
                j |= sum(circ.bit(q) for b, q in enumerate(r) if x >> b & 1)
        if j in out:
            raise Unreadable('not a permutation')
        out[j] = a
    return out


# ---- cases
class Case:
    def __init__(self, gate, sizes, kind, params=(), domain=None, most=3, ref=None, defs='', least=0, tag='', label=None):
        self.label = label or gate
        self.gate, self.sizes, self.kind, self.params, self.domain, self.most, self.ref, self.defs, self.least, self.tag = \
            gate, sizes, kind, params, domain, most, ref, defs, least, tag

    def name(self):
        return f'{self.label} on {"+".join(map(str, self.sizes))} qubits' + (', ' + self.tag if self.tag else '')


QAADEF = '''
def alg_h(eng, qubits):
    All(H) | qubits


def alg_r(eng, qubits):
    Ry(0.7) | qubits[0]
    for q in qubits[1:]:
        CNOT | (qubits[0], q)
        Rz(0.4) | q


def oracle_x(eng, qubits, ancilla):
    with Compute(eng):
        All(X) | qubits[0::2]
    with Control(eng, qubits):
        X | ancilla
    Uncompute(eng)


def power(qubits, time):
    CNOT | (qubits[0], qubits[1])
    Rz(0.3 * time) | qubits[1]
    CNOT | (qubits[0], qubits[1])

'''


def qpe_ref(u):
    """u(k): matrix of the unitary to the power 2**k"""
    from .alg import dagger, qft

    def ref(circ, regs, ctrl, vec):
        anc, sys = regs
        for q in anc:
            vec = circ.apply(unitary.FIXED['h'], [q], ctrl, vec)
        for i, q in enumerate(anc):
            vec = circ.apply(u(i), sys, list(ctrl) + [(q, True)], vec)
        return circ.apply(dagger(qft(len(anc))), anc, ctrl, vec)
    return ref


def qaa_ref(alg, marked):
    def ref(circ, regs, ctrl, vec):
        sys, anc = regs
        x = unitary.FIXED['x']
        vec = circ.apply(x, anc, list(ctrl) + [(q, marked(i)) for i, q in enumerate(sys)], vec)
        for m, ts in reversed(alg(len(sys))):
            vec = circ.apply(unitary.dagger(m), [sys[t] for t in ts], ctrl, vec)
        # - (1 - 2 |0><0|) ... the reflection about zero, with the sign of the algorithm
        vec = circ.apply([[-1, 0], [0, 1]], sys[-1:], list(ctrl) + [(q, False) for q in sys[:-1]], vec)
        for m, ts in alg(len(sys)):
            vec = circ.apply(m, [sys[t] for t in ts], ctrl, vec)
        return circ.apply([[-1, 0], [0, -1]], sys[:1], ctrl, vec)
    return ref


CX = [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]]


def gates():
    """Gate-level rules: exactness is the business of C04."""
    G = 'gate'
    out = [Case(g, [1], G, most=4) for g in ('X', 'Y', 'Z', 'H', 'S', 'T', 'Sdag', 'Tdag', 'SqrtX', 'get_inverse(SqrtX)', 'Rx(0.9)', 'Ry(-2.4)', 'Rz(7.3)', 'R(1.1)', 'Ph(2.3)',
                                                'MatrixGate(T.matrix)', 'MatrixGate(H.matrix)')]
    out += [Case(g, [1, 1], G) for g in ('Swap', 'SqrtSwap', 'get_inverse(SqrtSwap)')]
    out += [Case(g, [2], G, most=2) for g in ('Rxx(0.9)', 'Ryy(0.9)', 'Rzz(-2.1)', 'Barrier')]
    return out


def matrices(thorough):
    """2x2 unitaries exp(i p) Rz(b) Ry(c) Rz(d): diagonal, anti-diagonal and full ones, in SU(2) and outside, phases in all quadrants."""
    pi = math.pi
    out = []
    angles = [0.0, 0.3, pi / 2, 2.2, pi, -0.4, -2.0, 3 * pi / 2]
    full = [(p, b, c, d) for p in (0.0, 0.7, -1.9, pi / 2) for b, c, d in ((0.3, 1.1, -0.8), (2.5, 4.0, 1.0), (-2.0, 2.9, 3.0), (5.0, -1.3, 0.0), (0.0, 0.9, 0.0), (pi, pi / 2, pi))]
    if thorough:
        full += [(p, b, c, d) for p in (0.0, 2.6) for b in angles for c in (0.2, 2.0, 3.9, 5.5) for d in angles[1::2]]
    for p, b, c, d in [(p, b, 0.0, 0.0) for p in angles[:5] for b in (angles if thorough else angles[1::2])] + [(p, b, pi, 0.0) for p in angles[:5] for b in (angles if thorough else angles[::2])] + full:
        m = unitary.mul(unitary.mul(unitary.rot('rz', b), unitary.rot('ry', c)), unitary.rot('rz', d))
        rnd = lambda x: 0.0 if abs(x) < 1e-15 else x  # noqa: E731
        m = [[cmath.exp(1j * p) * x for x in r] for r in m]
        out.append((f'MatrixGate(exp(i {p:.4}) Rz({b:.4}) Ry({c:.4}) Rz({d:.4}))', '[' + ', '.join('[' + ', '.join(f'{rnd(x.real)!r} + {rnd(x.imag)!r} * 1j' for x in map(complex, r)) + ']' for r in m) + ']'))
    return out


def cases(thorough):
    out = []
    M, S = 'math', 'synthesis'
    big = 4 if thorough else 3
    for n in range(1, big + 1):
        for a in range(-(1 << n), (1 << n) + 1) if n < 3 else (-9, -5, -1, 0, 1, 3, 6, 7, 10):
            out.append(Case(f'AddConstant({a})', [n], M))
    for N, n in ((1, 1), (2, 2), (3, 3), (4, 3), (5, 4), (7, 4)) + (((11, 5),) if thorough else ()):
        for a in range(N) if N < 5 or thorough else (0, 1, N - 2):
            out.append(Case(f'AddConstantModN({a}, {N})', [n], M))
            if a:
                out.append(Case(f'SubConstantModN({a}, {N})', [n], M))
    for N, n in ((2, 1), (3, 2), (4, 2), (5, 3), (7, 3)) + (((11, 4), (15, 4)) if thorough else ()):
        for a in range(N):
            if math.gcd(a, N) == 1 and (N < 6 or thorough or a in (1, 3, N - 1)):
                out.append(Case(f'MultiplyByConstantModN({a}, {N})', [n], M))
    for n in range(1, big + 2):
        out.append(Case('AddQuantum', [n, n], M, most=1))
        if n > 1:
            out.append(Case('AddQuantum', [n, n, 1], M, most=0))
            out.append(Case('AddQuantum', [n, n, 2], M, most=1, least=1, domain=lambda a, b, c: c < 2))
            out.append(Case('ComparatorQuantum', [n, n, 1], M))
        out.append(Case('SubtractQuantum', [n, n], M))
        out.append(Case('get_inverse(AddQuantum)', [n, n], M))
        out.append(Case('get_inverse(AddQuantum)', [n, n, 1], M))
        if 1 < n <= big:
            for d, tag in ((lambda d, n=n: 0 < d <= 1 << n - 1, ''), (lambda d, n=n: d > 1 << n - 1, 'divisor above half of the range')):
                out.append(Case('DivideQuantum', [n, n, n], M, domain=lambda a, r, x, d=d: d(x), tag=tag))
                out.append(Case('get_inverse(DivideQuantum)', [n, n, n], M, domain=lambda r, q, x, d=d: d(x), tag=tag))
    for n in (2, 3, 4):
        most = 1 if n == 4 and not thorough else 3
        out.append(Case('MultiplyQuantum', [n, n, 2 * n + 1], M, most=most, domain=lambda a, b, c: c == 0))
        out.append(Case('get_inverse(MultiplyQuantum)', [n, n, 2 * n + 1], M, most=most, domain=lambda a, b, c: c == a * b))
    # composite unitaries
    for k, ang in enumerate(([0.3], [0.3, -1.1], [0.3, 0.3], [0.9, 2.0, -0.4, 3.3], [0.5, 0.5, 0.5, 0.5], [0.0, 1.0, 0.0, -1.0], [.1, -.2, .3, 1.4, 2.5, 3.6, -1.7, .8],
                             [1.0, 0, 0, 0, 0, 0, 0, 0], [1e-6, -2e-6], [3e-5, 0, 1e-7, 0.2],
                                  [6.283185307179586, -6.283185307179586], [12.566370614359172, 0.1, 40.0, -25.0], [.1 * i * i - 2 for i in range(16)])):
        m = len(ang).bit_length() - 1
        for g in ('UniformlyControlledRy', 'UniformlyControlledRz'):
            if m < 4 or thorough:
                out.append(Case(f'{g}({ang})', [m, 1], S, most=2))
                if k in (1, 3):
                    out.append(Case(f'get_inverse({g}({ang}))', [m, 1], S, most=1))
    for h, n in (("QubitOperator('X0', 0.7)", 1), ("QubitOperator('Y0', -0.7)", 1), ("QubitOperator('Z0', 1.3)", 1), ("QubitOperator('X0 Y1', 0.4)", 2),
                 ("QubitOperator('Z0 Z1 Z2', 2.0)", 3), ("QubitOperator('Y0 X1 Z2', -0.3)", 3), ("QubitOperator('Y0 Y1 X2 Z3', 0.9)", 4), ("QubitOperator('X0 Z1', 1e-6)", 2), ("QubitOperator('Y0', 25.0) + QubitOperator('Y0 Z1', 2e-6)", 2),
                 ("QubitOperator('X0 X1', 0.4) + QubitOperator('Y0 Y1', -0.9) + QubitOperator('Z0 Z1', 0.2)", 2), ("QubitOperator('Z0', 0.4) + QubitOperator('Z2', 1.9)", 3),
                 ("QubitOperator('X1', 0.4) + QubitOperator((), 0.7)", 2), ("QubitOperator('Z0 X2', 0.4) + QubitOperator('X1', 0.5)", 3)):
        for t in ('a', '1.1', '-0.6'):
            out.append(Case(f'TimeEvolution({t}, {h})', [n], S, params=('a',) if t == 'a' else (), most=2))
        out.append(Case(f'get_inverse(TimeEvolution(0.8, {h}))', [n], S, most=1))
    for t, n in (("'X0'", 1), ("'X0 Y1 Z2'", 3), ("'Y0 Y1'", 2), ("'Z0'", 2), ("'X1 Z2'", 3), ('()', 1), ("'Y1'", 2)):
        for c in ('1.0', '-1.0', '1j', '(0.6 - 0.8j)'):
            out.append(Case(f'QubitOperator({t}, {c})', [n], S))
    zero0 = lambda x: x == 0  # noqa: E731
    for st in ('[1, 0]', '[0, 1]', '[0, -1j]', '[0.6, 0.8j]', '[-0.6, 0.8]', '[0.5, -0.5j, -0.5, 0.5]', '[0, 0, 1, 0]', '[0.6, 0, 0, -0.8j]', '[0, 0.6, 0.8, 0]',
               '[(1 - 1e-8) ** 0.5, 0, 0, 1e-4]', '[0, 2e-5j, -(1 - 4e-10) ** 0.5, 0]', '[1e-4, 0, 0, 0, 0, -2e-4, 0, (1 - 5e-8) ** 0.5]',
               '[0.1, -0.3j, 0.5, 0.1j, -0.7, 0, 0, 0.15 ** 0.5]'):
        out.append(Case(f'StatePreparation({st})', [(st.count(',') + 1).bit_length() - 1], S, most=2, domain=zero0))
    out += [Case(f'MatrixGate({m})', [1], S, most=2, label=l) for l, m in matrices(thorough)]
    out += [Case('Entangle', [n], S) for n in (1, 2, 3, 4)]
    out += [Case('QFT', [n], S) for n in (1, 2, 3, 4)]
    e = cmath.exp
    ph = lambda k: [[e(0.4j * 2 ** k), 0], [0, e(0.4j * 2 ** k)]]  # noqa: E731
    pw = lambda k: [[e(-0.15j * 2 ** k), 0, 0, 0], [0, e(0.15j * 2 ** k), 0, 0], [0, 0, e(0.15j * 2 ** k), 0], [0, 0, 0, e(-0.15j * 2 ** k)]]  # noqa: E731
    rx = lambda k: unitary.rot('rx', 0.9 * 2 ** k)  # noqa: E731
    for n in (1, 2, 3, 4):
        out.append(Case('QPE(Ph(0.4))', [n, 1], S, most=2, ref=qpe_ref(ph)))
        out.append(Case('QPE(Rx(0.9))', [n, 1], S, most=1, ref=qpe_ref(rx)))
        out.append(Case('QPE(power)', [n, 2], S, most=1, ref=qpe_ref(pw), defs=QAADEF))
    h = unitary.FIXED['h']
    al_h = lambda n: [(h, [i]) for i in range(n)]  # noqa: E731
    al_r = lambda n: [(unitary.rot('ry', 0.7), [0])] + [x for i in range(1, n) for x in ((CX, [0, i]), (unitary.rot('rz', 0.4), [i]))]  # noqa: E731
    for n in (1, 2, 3):
        mark = lambda i: bool(i % 2)  # noqa: E731
        out.append(Case('QAA(alg_h, oracle_x)', [n, 1], S, most=2, ref=qaa_ref(al_h, mark), defs=QAADEF))
        out.append(Case('QAA(alg_r, oracle_x)', [n, 1], S, most=2, ref=qaa_ref(al_r, mark), defs=QAADEF))
    return out


# ---- following the rules
class Use:
    """What one use of a rule does: failures are texts, None if as required, '?' if it cannot be told."""

    def __init__(self, ctrl, where):
        self.ctrl, self.where = ctrl, where
        self.unsat = self.exact = self.clean = None
        self.refused = self.chain = None


def listing(chk, cs):
    """case index -> rule indices"""
    from . import decsem
    from .client import Client, clean, trace
    src = ''.join(dict.fromkeys(c.defs for c in cs if c.defs)) + '''
def client():
    for i, g in enumerate([%s]):
        for j, r in enumerate(all_rules()):
            if isinstance(g, r.gate_class):
                probe(i, j)
''' % ', '.join(c.gate.replace('(a,', '(0.3,') for c in cs)
    C = Client(chk.prog, src, prelude=decsem.HEAD, stubs=decsem.STUBS, floats=True, unroll=2000)
    try:
        outs = C.run('client')
        res = {}
        if len(outs) != 1:
            return None
        for x in trace(outs[0][0]):
            i, j = (a.v for a in x[2])
            res.setdefault(i, []).append(j)
        return res
    finally:
        C.close()


def controls_of(case, n):
    """Control configurations on the qubits from n on: [(ids, state)]"""
    out = [([], ''), ([n + 1], '1'), ([n + 2, n], '11'), ([n + 1, n + 2, n], '111'), ([n + 2, n + 3, n, n + 1], '1111')]
    return out[case.least:case.most + 1]


def negative_of(case, n):
    return [([n], '0'), ([n + 1, n], '01'), ([n, n + 2], '10'), ([n + 2, n, n + 1], '010')] if case.most > 1 else [([n], '0')] if case.most else []


def uses(chk, case, rule, conf=None):
    """[(Use)] for every path and control configuration, or a text saying why the rule cannot be followed."""
    from . import decsem
    from .client import Client, clean, trace
    from .values import Exc
    n = sum(case.sizes)
    ids = list(range(n))
    ids = ids[1::2] + ids[0::2][::-1]
    regs, p = [], 0
    for s in case.sizes:
        regs.append(ids[p:p + s])
        p += s
    conf = conf or controls_of(case, n)
    src = decsem.RUN % {'params': ', '.join(case.params), 'width': n + 4, 'rule': rule[0], 'gate': case.gate, 'controls': conf, 'targets': regs}
    C = Client(chk.prog, case.defs + src, prelude=decsem.HEAD, stubs=decsem.STUBS, floats=True, refcount=True)
    try:
        outs = C.run('client', *decsem.symbols(case.params))
        chk.saw(C.I, outs)
        if not outs:
            return 'no path'
        res = []
        for st, v in outs:
            r = decsem.steps(st)
            if r is None:
                return 'commands are unknown'
            if decsem.tiny(st):
                continue
            if not all(clean(f) for f in st.facts):
                return 'depends on an unknown condition'
            steps, probes = r
            G = Gates(C, st)
            for i, step in enumerate(steps):
                _, ctrl = decsem.parts(step.parts)
                u = Use(ctrl, step.out[0][2] if step.out else rule[3])
                u.where = next((x[2] for x in step.out if not str(x[2]).startswith(('<client', 'projectq/cengines'))), rule[3])
                res.append(u)
                if not step.done:
                    if isinstance(v, Exc):
                        u.refused = v.name
                        u.where = v.loc if not str(v.loc).startswith('<client') else rule[3]
                    else:
                        u.refused = '?'
                    continue
                try:
                    judge(G, case, step, regs, ctrl, u)
                except Unreadable as e:
                    u.exact = u.unsat = u.clean = f'?cannot read the sequence: {e}'
            for x in probes:
                if x[2][0].v == 'chain' and not (isinstance(x[2][1], K) and x[2][1].v is True):
                    for u in res[-1:]:
                        u.chain = 'an engine inserted by the rule stays in the chain'
        return res
    finally:
        C.close()


def judge(G, case, step, regs, ctrl, u):
    from . import decsem
    from .alg import Circuit
    qubits = [q for r in regs for q in r] + [q for q, _ in ctrl]
    n = sum(case.sizes) + 4
    used = {q for _, p, _ in step.out for q in decsem.ids(p[2]) + [x for r in p[1] for x in decsem.ids(r)]}
    order = qubits + sorted(q for q in used - set(qubits) if q < n)
    g, _ = G.C.S.getattr(G.st, step.cmd, 'gate')
    G.known = (G.name(g), case.ref) if case.ref else None
    f = math_function(G, g, case.sizes)
    circ0 = Circuit(order)

    def inside(i):
        vals = values(circ0, regs, i)
        return (case.domain is None or case.domain(*vals)) and (f is None or f(*vals) is not None)

    def run(where):
        circ = Circuit(order)
        vec = decsem.generic(circ, order, where=where)
        got = decsem.run_step(G, step, [vec], circ)[0] if vec else {}
        return circ, vec, got

    def tidy(circ, got, when):
        if circ.dirty is not None:
            return f'ancilla {circ.dirty} is given back in superposition or not in state zero {when}'
        left = [q for q in circ.q if q not in order]
        if left:
            return f'qubit {left[0]} allocated by the rule is not given back'
        return None

    circ, vec, got = run(lambda i: inside(i) and satisfied(circ0, ctrl, i))
    u.clean = tidy(circ, got, 'when the controls are satisfied' if ctrl else '')
    if u.clean is None:
        want = apply(G, circ, g, regs, ctrl, vec) if vec else {}
        i = decsem.compare(got, want, False)
        if i is not None:
            u.exact = 'the emitted commands do something else' + (f' (e.g. for register values {values(circ, regs, i)})' if f else '')
    else:
        u.exact = '?' + u.clean
    if ctrl:
        circ, vec, got = run(lambda i: inside(i) and not satisfied(circ0, ctrl, i))
        d = tidy(circ, got, 'when the controls are not satisfied')
        u.clean = u.clean or d
        if d:
            u.unsat = d
        else:
            i = decsem.compare(got, vec, False)
            if i is not None:
                u.unsat = f'not the identity although the controls {ctrl} are not satisfied'


def sweep(chk, cs, skip=()):
    """(case, rule, [Use]) for all rules which apply to the gates of the cases; None instead of the uses if they cannot be told."""
    from . import decsem
    rules = decsem.rules(chk)
    table = listing(chk, cs)
    if rules is None or table is None:
        raise AnalysisError('the registered decomposition rules cannot be read')
    for i, c in enumerate(cs):
        for j in table.get(i, ()):
            if rules[j][1] in skip or not chk.mine():
                continue
            try:
                us = uses(chk, c, rules[j])
                if us == [] and c.most:
                    us = uses(chk, c, rules[j], negative_of(c, sum(c.sizes)))
            except (AnalysisError, Unreadable) as e:
                us = f'{type(e).__name__}: {e}'
            if us != []:
                yield c, rules[j], us
