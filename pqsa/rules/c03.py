"""C03: matrices, inverses, merges, identities and interchangeable qubits."""
import math

from .. import composite, decsem, unitary
from ..alg import Circuit, Gates, Unreadable, add, at, dagger, entry, mul, rotation, value, zero
from ..client import Client, clean, trace
from ..model import AnalysisError
from ..values import Exc, K

PARALLEL = True
TECHNIQUE = ('abstract interpretation of the gate classes with symbolic angles; matrices read from the code are compared with the documented ones in an exact algebra of characters, and '
             'inverses, merged gates, identities and wrappers by following what they send to the engine on a generic state')
FIXED = {'X': 'x', 'Y': 'y', 'Z': 'z', 'H': 'h', 'S': 's', 'T': 't', 'SqrtX': 'v', 'Swap': 'swap', 'SqrtSwap': 'sqrtswap', 'NOT': 'x', 'Sdag': 'si', 'Tdag': 'ti', 'Sdagger': 'si', 'Tdagger': 'ti'}
ROT = {'Rx': 1, 'Ry': 1, 'Rz': 1, 'Rxx': 2, 'Ryy': 2, 'Rzz': 2, 'R': 1, 'Ph': 1}
# (gate, register sizes, symbols)
PLAIN = [(g, [1, 1] if 'swap' in v else [1], ()) for g, v in FIXED.items()]
ROTS = [(f'{g}(a)', [n], ('a',)) for g, n in ROT.items()]
NUMS = ['0', '0.3', '-2.0', 'math.pi', '2 * math.pi', '3.5 * math.pi', '4 * math.pi', '4 * math.pi - 0.1', '-math.pi / 2', '11.0']
MORE = [('MatrixGate([[0, 1j], [1j, 0]])', [1], ()), ('MatrixGate([[0.6, 0.8], [-0.8j, 0.6j]])', [1], ()), ('MatrixGate(T.matrix)', [1], ()), ('MatrixGate(SqrtSwap.matrix)', [2], ()),
        ('C(S, 2)', [1, 1, 1], ()), ('C(Rx(a))', [1, 1], ('a',)), ('C(Swap)', [1, 1, 1], ()), ('Tensor(T)', [3], ()), ('Tensor(Rz(a))', [2], ('a',)), ('FlipBits(5)', [3], ()), ('QFT', [3], ()),
        ('Barrier', [2], ()), ('CNOT', [1, 1], ()), ('CZ', [1, 1], ()), ('Toffoli', [1, 1, 1], ()),
        ('UniformlyControlledRy([a, b])', [1, 1], ('a', 'b')), ('UniformlyControlledRz([a, b])', [1, 1], ('a', 'b')), ('UniformlyControlledRz([a, 0.2, 3.9, b])', [2, 1], ('a', 'b')),
        ("TimeEvolution(a, QubitOperator('X0 Y1', 0.7))", [2], ('a',)), ("TimeEvolution(a, QubitOperator('Z0 Z1', -0.7) + QubitOperator('Z1', 0.2))", [2], ('a',)),
        ("TimeEvolution(a, QubitOperator('Z0 X2', 0.3))", [3], ('a',)), ('TimeEvolution(a, QubitOperator((), 0.3))', [1], ('a',)),
        ("QubitOperator('X0 Y1', 1j)", [2], ()), ("QubitOperator('Z0', 0.6 - 0.8j)", [1], ()), ("QubitOperator('Y1 Z2', -1)", [3], ()),
        ('AddConstant(3)', [3], ()), ('AddConstant(-2)', [2], ()), ('SubConstant(3)', [3], ()), ('AddConstantModN(3, 5)', [4], ()), ('SubConstantModN(3, 5)', [4], ()),
        ('AddQuantum', [2, 2], ()), ('AddQuantum', [2, 2, 1], ()), ('SubtractQuantum', [2, 2], ()), ('ComparatorQuantum', [2, 2, 1], ()),
        ('DivideQuantum', [2, 2, 2], ()), ('MultiplyQuantum', [2, 2, 5], ())]
PAIRS = [(f'{g}(a)', f'{h}(b)', [max(n, ROT[h])], ('a', 'b')) for g, n in ROT.items() for h in ROT if n == ROT[h]] + [
    ('UniformlyControlledRy([a, b])', 'UniformlyControlledRy([b, 0.7])', [1, 1], ('a', 'b')), ('UniformlyControlledRz([a, b])', 'UniformlyControlledRz([0.2, a])', [1, 1], ('a', 'b')),
    ('UniformlyControlledRz([a, b])', 'UniformlyControlledRy([0.2, a])', [1, 1], ('a', 'b')),
    ("TimeEvolution(a, QubitOperator('X0 Y1', 0.7))", "TimeEvolution(b, QubitOperator('X0 Y1', -0.35))", [2], ('a', 'b')),
    ("TimeEvolution(a, QubitOperator('X0 Y1', 0.7))", "TimeEvolution(b, QubitOperator('X0 Y1', 0.7))", [2], ('a', 'b')),
    ("TimeEvolution(a, QubitOperator('Z0', 0.5) + QubitOperator('Z1', 0.25))", "TimeEvolution(b, QubitOperator('Z0', 1.0) + QubitOperator('Z1', 0.5))", [2], ('a', 'b')),
    ("TimeEvolution(a, QubitOperator('Z0', 0.5) + QubitOperator('Z1', 0.25))", "TimeEvolution(b, QubitOperator('Z0', 0.5) + QubitOperator('Z1', -0.25))", [2], ('a', 'b')),
    ("TimeEvolution(a, QubitOperator('Z0', 0.5) + QubitOperator('Z1', 0.25))", "TimeEvolution(b, QubitOperator('Z0', 0.5))", [2], ('a', 'b')),
    ("TimeEvolution(a, QubitOperator('X0', 0.5))", "TimeEvolution(b, QubitOperator('Z0', 0.5))", [1], ('a', 'b')),
    ("QubitOperator('X0 Y1', 1j)", "QubitOperator('Z0 Y1', -1)", [2], ()), ("QubitOperator('X0', 1j)", "QubitOperator('Y0', 1j)", [1], ()), ("QubitOperator('X0', 1)", "QubitOperator('X0', -1j)", [1], ()),
    ('X', 'X', [1], ()), ('H', 'X', [1], ()), ('AddConstant(1)', 'AddConstant(2)', [2], ()), ('MatrixGate(T.matrix)', 'MatrixGate(S.matrix)', [1], ()), ('S', 'Tdag', [1], ()), ('Swap', 'Swap', [1, 1], ())]
WRAP = [  # gate and register expression, the same written without the wrapper
    ('C(S, 2) | (q[0], q[1], q[2])', 'with Control(eng, [q[0], q[1]]):\n            S | q[2]'),
    ('C(S, 2) | (q[0:2], q[2])', 'with Control(eng, [q[0], q[1]]):\n            S | q[2]'),
    ('C(Rx(a)) | (q[2], q[0])', 'with Control(eng, q[2]):\n            Rx(a) | q[0]'),
    ('C(C(Rx(a))) | (q[2], q[1], q[0])', 'with Control(eng, [q[2], q[1]]):\n            Rx(a) | q[0]'),
    ('C(C(T, 2), 1) | (q[2:4], q[1], q[0])', 'with Control(eng, [q[1], q[2], q[3]]):\n            T | q[0]'),
    ('C(C(T), 2) | (q[2:4], q[1], q[0])', 'with Control(eng, [q[1], q[2], q[3]]):\n            T | q[0]'),
    ('C(Swap) | (q[1], q[2], q[0])', 'with Control(eng, q[1]):\n            Swap | (q[2], q[0])'),
    ('CNOT | (q[1], q[0])', 'with Control(eng, q[1]):\n            X | q[0]'), ('CX | (q[1], q[0])', 'with Control(eng, q[1]):\n            X | q[0]'),
    ('CZ | (q[1], q[0])', 'with Control(eng, q[1]):\n            Z | q[0]'),
    ('Toffoli | (q[2], q[0], q[1])', 'with Control(eng, [q[0], q[2]]):\n            X | q[1]'), ('CRz(a) | (q[2], q[0])', 'with Control(eng, q[2]):\n            Rz(a) | q[0]'),
    ('Tensor(Ry(a)) | q', 'for x in q:\n            Ry(a) | x'), ('All(T) | q[1:3]', 'T | q[1]\n        T | q[2]'), ('Tensor(T) | (q[0:3],)', 'T | q[0]\n        T | q[1]\n        T | q[2]'),
    ('C(All(T)) | (q[0], q[1:3])', 'C(T) | (q[0], q[1])\n        C(T) | (q[0], q[2])'),
    ('FlipBits(6) | q', 'X | q[1]\n        X | q[2]'), ('FlipBits([1, 0, 0, 1]) | q', 'X | q[0]\n        X | q[3]'), ("FlipBits('0110') | q", 'X | q[1]\n        X | q[2]'),
    ('FlipBits([1, 1, 0, 0]) | q', 'X | q[0]\n        X | q[1]'), ("FlipBits('0010') | q", 'X | q[2]'),
    ('FlipBits(-1) | q', 'All(X) | q'), ('FlipBits(-3) | q', 'X | q[0]\n        X | q[2]\n        X | q[3]'), ('FlipBits([True, False, True]) | q[1:4]', 'X | q[1]\n        X | q[3]'), ('FlipBits(1) | q[2]', 'X | q[2]'),
    ("TimeEvolution(a, QubitOperator('X1 Z3', 0.4)) | q", "TimeEvolution(a, QubitOperator('X0 Z1', 0.4)) | [q[1], q[3]]"),
    ("TimeEvolution(a, QubitOperator('Y2', 0.4)) | q", 'Ry(0.8 * a) | q[2]'), ("TimeEvolution(a, QubitOperator('Z3', 0.4) + QubitOperator('Z0', 0.1)) | q", 'Rz(0.8 * a) | q[3]\n        Rz(0.2 * a) | q[0]'),
    ('TimeEvolution(a, QubitOperator((), 0.4)) | q', 'Ph(-0.4 * a) | q[0]'),
    ("QubitOperator('X1 Z3', 1j) | q", 'X | q[1]\n        Z | q[3]\n        Ph(math.pi / 2) | q[0]'), ("QubitOperator('Y0', -1) | q[2]", 'Y | q[2]\n        Ph(math.pi) | q[2]'), ("QubitOperator('Y2 X0') | q", 'Y | q[2]\n        X | q[0]'),
    ('get_inverse(C(S)) | (q[0], q[1])', 'C(Sdag) | (q[0], q[1])'), ('get_inverse(Tensor(T)) | q', 'All(Tdag) | q'), ('C(get_inverse(SqrtX)) | (q[1], q[3])', 'get_inverse(C(SqrtX)) | (q[1], q[3])')]
SEQ = '''
def client(%(params)s):
    eng = main_engine()
    q = eng.allocate_qureg(%(width)d)
    g = %(gate)s
    h = %(other)s
    done = False
    try:
        m = %(made)s
        done = True
    except %(refusal)s:
        pass
    if done:
        probe('start')
        %(first)s
        probe('mid')
        %(second)s
        probe('end')
'''
MAT = '''
def client(%(params)s):
    g = %(gate)s
    probe('g', g)
    probe('m', g.matrix)
'''
SWP = '''
def client(a):
    for g in %(gates)s:
        probe('i', g, g.interchangeable_qubit_indices)
'''


def check(chk):
    chk.rule('matrix', 'the matrix of a predefined gate is the documented unitary, for every angle', 20)
    chk.rule('inverse', 'a gate and its reported inverse cancel in both orders', 60)
    chk.rule('merge', 'the merged gate acts as the two gates one after the other', 30)
    chk.rule('identity', 'a gate that reports to be an identity is one, phase included', 40)
    chk.rule('interchangeable', 'declared interchangeable qubits can be swapped', 20)
    chk.rule('wrapper', 'controlled, tensor, bit-flip and Pauli-string gates act as the gates they stand for, on exactly those qubits', 30)
    for gate, sizes, syms in PLAIN + ROTS + [(f'{g}({x})', [n], ()) for g, n in ROT.items() for x in NUMS] + [m for m in MORE if m[0].startswith('MatrixGate')] \
            + [('get_inverse(SqrtX)', [1], ()), ('get_inverse(SqrtSwap)', [2], ()), ('get_inverse(get_inverse(S))', [1], ()), ('get_inverse(MatrixGate([[0.6, 0.8], [-0.8j, 0.6j]]))', [1], ())] \
            + [(f'get_inverse({g}(a))', [n], ('a',)) for g, n in ROT.items()] + [(f'{g}(a).get_merged({g}(b))', [n], ('a', 'b')) for g, n in ROT.items()]:
        if chk.mine():
            matrix(chk, gate, syms)
    for gate, sizes, syms in PLAIN + ROTS + MORE + [(f'{g}({x})', [n], ()) for g, n in ROT.items() for x in NUMS[::3]]:
        for back in (False, True):
            if chk.mine():
                g, i = 'g | %s' % target(sizes), 'm | %s' % target(sizes)
                sequence(chk, 'inverse', f'{gate} on {"+".join(map(str, sizes))} qubits, {"after" if back else "before"} its inverse', gate,
                         gate, 'None', 'get_inverse(g)', 'KeyError', ('%s\n        %s' % ((i, g) if back else (g, i))), 'pass', sizes, syms)
    for g, h, sizes, syms in PAIRS:
        if chk.mine():
            t = target(sizes)
            sequence(chk, 'merge', f'{g} and {h}', g, g, h, 'g.get_merged(h)', 'NotMergeable', f'g | {t}\n        h | {t}', f'm | {t}', sizes, syms)
    for gate, sizes, syms in PLAIN + MORE + ROTS + [(f'{g}({x})', [n], ()) for g, n in ROT.items() for x in NUMS]:
        if chk.mine() and not gate.startswith(('C', 'Tof')):
            sequence(chk, 'identity', gate, gate, gate, 'None', 'is_identity(g)', 'KeyError', f'if m:\n            g | {target(sizes)}', 'pass', sizes, syms)
    for a, b in WRAP:
        if chk.mine():
            sequence(chk, 'wrapper', a, a.split('(')[0].split(' ')[0], 'None', 'None', 'None', 'KeyError', a, b, [4], ('a',))
    if chk.mine():
        swaps(chk)
    chk.assume = ['Angles within 1e-6 of the end of a period, where the constructors round to zero, are not followed; rounding of angles to twelve digits is ignored.',
                  'What a primitive gate does is its documented matrix, which is compared with the matrix the class reports.']
    return ('Each predefined gate, with symbolic angles where it has any, is constructed, inverted, merged and asked for its matrix by following the code; results are compared as exact '
            'functions of the angles, a difference counting only with values of the angles for which the path is taken.')


def target(sizes):
    out, p = [], 0
    for s in sizes:
        out.append(f'q[{p}]' if s == 1 else f'q[{p}:{p + s}]')
        p += s
    return out[0] if len(out) == 1 else '(' + ', '.join(out) + ')'


def reference(gate, syms):
    """Documented matrix of a gate expression, or None."""
    from ..values import T
    if gate.startswith('get_inverse('):
        r = reference(gate[12:-1], syms)
        return r and dagger(r)
    if gate in FIXED:
        return unitary.FIXED[FIXED[gate]]
    if '.get_merged(' in gate:
        a, b = gate[:-1].split('.get_merged(')
        from ..alg import matmul
        return matmul(reference(b, syms), reference(a, syms))
    name, arg = gate.split('(', 1)
    arg = arg[:-1]
    if name in ROT:
        if arg in syms:
            return rotation(unitary.ROTS[name], T('sym', arg))
        return unitary.rot(unitary.ROTS[name], eval(arg, {'math': math}))  # noqa: S307 (a constant of the table above)
    if name == 'MatrixGate':
        if arg.endswith('.matrix'):
            return unitary.FIXED[FIXED[arg[:-7]]]
        return eval(arg, {})  # noqa: S307
    return None


def matrix(chk, gate, syms):
    inst = f'matrix of {gate}'
    C = Client(chk.prog, MAT % {'params': ', '.join(syms), 'gate': gate}, prelude=decsem.HEAD, stubs=decsem.STUBS, floats=True)
    try:
        outs = C.run('client', *decsem.symbols(syms))
        chk.saw(C.I, outs)
        want = reference(gate, syms)
        if want is None or not outs:
            chk.unknown('matrix', inst, 'no reference')
            return
        for st, v in outs:
            if decsem.tiny(st):
                continue
            tr = trace(st)
            G = Gates(C, st)
            if isinstance(v, Exc) or tr is None or len(tr) != 2:
                if all(clean(f) for f in st.facts) and isinstance(v, Exc) and v.name in ('AttributeError', 'TypeError', 'NotImplementedError', 'NotMergeable'):
                    chk.fail('matrix', gate.split('(')[0], place(chk, C, tr, gate), f'{inst} raises {v.name}')
                else:
                    chk.unknown('matrix', inst, f'not followed: {v}')
                return
            m = tr[1][2][1]
            rows = C.I.items(st, m)
            if not rows:
                chk.unknown('matrix', inst, f'matrix {m}')
                return
            rows = [C.I.items(st, r) for r in rows]
            if any(r is None for r in rows):
                chk.unknown('matrix', inst, f'matrix {m}')
                return
            bad = len(rows) != len(want) or any(len(r) != len(want) for r in rows)
            got = [[entry(x) for x in r] for r in rows]
            if not bad and equal(got, want):
                continue
            for env in decsem.samples(syms) if syms else ({},):
                ok = decsem.possible(st, env)
                if ok is None:
                    chk.unknown('matrix', inst, 'depends on a condition that is not understood')
                    return
                if ok and (bad or not near(rows, gate, syms, env)):
                    chk.fail('matrix', gate.split('(')[0], place(chk, C, tr, gate), f'{inst} is not the documented unitary' + (f' for {env}' if env else ''))
                    return
        chk.ok('matrix', inst)
    except (AnalysisError, Unreadable) as e:
        chk.unknown('matrix', inst, f'{type(e).__name__}: {e}')
    finally:
        C.close()


def near(rows, gate, syms, env):
    want = [[at(x, env) for x in r] for r in reference(gate, syms)]
    got = [[value(x, env) for x in r] for r in rows]
    if any(x is None for r in got for x in r):
        raise Unreadable('matrix entry')
    return all(abs(complex(x) - y) < 1e-9 for r, s in zip(got, want) for x, y in zip(r, s))


def equal(a, b):
    return all(zero(add(x, mul(-1, y))) for r, s in zip(a, b) for x, y in zip(r, s))


def place(chk, C, tr, gate):
    try:
        ci = C.I.class_of(tr[0][2][1])
        return ci.loc()
    except (TypeError, IndexError, AttributeError):
        return gate


def sequence(chk, rl, inst, gate, g, h, made, refusal, first, second, sizes, syms):
    """What is sent between start and mid acts as what is sent between mid and end."""
    width = sum(sizes)
    src = SEQ % {'params': ', '.join(syms), 'width': width, 'gate': g if rl != 'wrapper' else 'None', 'other': h, 'made': made, 'refusal': refusal, 'first': first, 'second': second}
    C = Client(chk.prog, src, prelude=decsem.HEAD + 'from projectq.ops import NotMergeable\n', stubs=decsem.STUBS, floats=True)
    try:
        outs = C.run('client', *decsem.symbols(syms))
        chk.saw(C.I, outs)
        if not outs:
            chk.unknown(rl, inst, 'no path')
            return
        for st, v in outs:
            if decsem.tiny(st):
                continue
            tr = trace(st)
            if tr is None:
                chk.unknown(rl, inst, 'commands are unknown')
                return
            seqs, k = ([], []), -1
            loc = gate
            for x in tr:
                if x[0] == 'probe':
                    k += 1
                elif 0 <= k < 2:
                    seqs[k].append(x)
            if isinstance(v, Exc):
                if all(clean(f) for f in st.facts) and v.name not in ('Unknown',):
                    chk.fail(rl, construct(gate), str(v.loc), f'{inst}: raises {v.name}')
                else:
                    chk.unknown(rl, inst, f'raises {v.name}')
                return
            if k < 2:
                continue  # refused
            for env in [None] + (list(decsem.samples(syms)) if syms else []):
                if env is not None:
                    ok = decsem.possible(st, env)
                    if ok is None:
                        chk.unknown(rl, inst, 'depends on a condition that is not understood')
                        return
                    if not ok:
                        continue
                d = differ(C, st, seqs, width, env)
                if d is None and env is None:
                    break
                if d is not None and (env is not None or not syms):
                    if not all(clean(f) for f in st.facts):
                        chk.unknown(rl, inst, 'depends on an unknown condition')
                        return
                    x = (seqs[1] or seqs[0])
                    chk.fail(rl, construct(gate), x[0][3].loc if x and not str(x[0][3].loc).startswith('<') else owner(C, st, tr, gate), f'{inst}: {WHAT[rl]}' + (f' for {env}' if env else ''))
                    return
        chk.ok(rl, inst)
    except (AnalysisError, Unreadable) as e:
        chk.unknown(rl, inst, f'{type(e).__name__}: {e}')
    finally:
        C.close()


WHAT = {'inverse': 'they do not cancel', 'merge': 'the merged gate does something else', 'identity': 'reported as identity although it is none', 'wrapper': 'does something else than the gates it stands for'}


def construct(gate):
    return gate.split('(')[0].split(' ')[0]


def owner(C, st, tr, gate):
    for x in tr:
        if x[0] == 'send':
            g, _ = C.S.getattr(st, x[2], 'gate')
            ci = C.I.class_of(g)
            if ci is not None and ci.name == construct(gate):
                return ci.loc()
    return gate


def differ(C, st, seqs, width, env):
    G = Gates(C, st)
    circ = Circuit(list(range(width)))
    res = []
    legal = domain(G, seqs, circ)
    vec = decsem.generic(circ, list(range(width)), where=legal)
    for seq in seqs:
        u = vec
        for x in seq:
            regs, ctrl = decsem.parts(x[1])
            g, _ = C.S.getattr(st, x[2], 'gate')
            try:
                u = composite.apply(G, circ, g, regs, ctrl, u, env)
            except Unreadable as e:
                if 'another size' in str(e):
                    return -1  # a gate on the wrong number of qubits
                raise
        res.append(u)
    return decsem.compare(res[0], res[1], False)


def domain(G, seqs, circ):
    """Basis states inside the documented domain of the first arithmetic gate."""
    for seq in seqs:
        for x in seq[:1]:
            regs, _ = decsem.parts(x[1])
            g, _ = G.C.S.getattr(G.st, x[2], 'gate')
            f = composite.math_function(G, g, [len(r) for r in regs])
            if f is not None:
                return lambda i: f(*composite.values(circ, regs, i)) is not None
    return None


def swaps(chk):
    gates = sorted(set([g for g, s, y in PLAIN + ROTS + MORE if '(a' not in g and 'a,' not in g] + [f'{g}(0.3)' for g in ROT] + ['UniformlyControlledRy([0.1, 0.2])']))
    C = Client(chk.prog, SWP % {'gates': '[' + ', '.join(gates) + ']'}, prelude=decsem.HEAD, stubs=decsem.STUBS, floats=True, unroll=500)
    try:
        outs = C.run('client', *decsem.symbols(('a',)))
        chk.saw(C.I, outs)
        for st, v in outs[:1]:
            G = Gates(C, st)
            tr = trace(st)
            if isinstance(v, Exc) or tr is None or len(tr) != len(gates):
                chk.unknown('interchangeable', 'all gates', f'not followed: {v}')
                return
            for name, x in zip(gates, tr):
                try:
                    g, idx = x[2][1], composite.plain(G, x[2][2])
                    if not isinstance(idx, tuple):
                        chk.unknown('interchangeable', name, f'{idx}')
                        continue
                    if not idx:
                        chk.ok('interchangeable', name)
                        continue
                    n = 1 + max(max(s) for s in idx)
                    circ = Circuit(list(range(n)))
                    vec = decsem.generic(circ, list(range(n)))
                    bad = None
                    for s in idx:
                        for i in s:
                            for j in s:
                                if i < j:
                                    a, b = list(range(n)), list(range(n))
                                    b[i], b[j] = j, i
                                    sp = lambda q: [[y] for y in q] if G.name(g) in ('SwapGate', 'SqrtSwapGate') else [q]  # noqa: E731
                                    if decsem.compare(composite.apply(G, circ, g, sp(a), [], vec), composite.apply(G, circ, g, sp(b), [], vec), False) is not None:
                                        bad = (i, j)
                    if bad:
                        chk.fail('interchangeable', construct(name), G.I.class_of(g).loc(), f'{name} declares qubits {bad[0]} and {bad[1]} interchangeable but swapping them changes the gate')
                    else:
                        chk.ok('interchangeable', name)
                except Unreadable as e:
                    chk.unknown('interchangeable', name, str(e))
    finally:
        C.close()
