"""C02: gates which do different things never compare equal; equal gates have equal hashes."""
import math

from .. import decsem
from ..alg import Unreadable, value
from ..client import Client, clean, trace
from ..model import AnalysisError
from ..values import Exc, ExtV, K, T, Val

PARALLEL = True
TECHNIQUE = ('abstract interpretation of the == and hash methods of every gate class: all pairs of a catalogue of gates that differ in one parameter or in their class, and gates with symbolic '
             'angles whose equality is followed to a condition on the angles')
HEAD = decsem.HEAD + '''

def f1(a):
    return ((a + 1) % 4,)


def f2(a):
    return ((a + 2) % 4,)


def o1(eng, q):
    X | q


def o2(eng, q):
    Z | q


class Sub(Rz):
    pass


'''
Q = 'QubitOperator'
# (gate, what it does): gates with the same second entry do the same thing, and nothing is demanded of their comparison but equal hashes
GATES = [(g, g) for g in ('Y', 'Z', 'H', 'S', 'T', 'Sdag', 'Tdag', 'SqrtX', 'Swap', 'SqrtSwap', 'Entangle', 'Measure', 'Allocate', 'Deallocate', 'AllocateDirty', 'Barrier',
                          'QFT', 'AddQuantum', 'SubtractQuantum', 'ComparatorQuantum', 'DivideQuantum', 'MultiplyQuantum', 'get_inverse(SqrtX)', 'get_inverse(SqrtSwap)', 'get_inverse(QFT)',
                          'get_inverse(Entangle)', 'get_inverse(AddQuantum)', 'get_inverse(DivideQuantum)', 'get_inverse(MultiplyQuantum)', 'FlushGate()')]
GATES += [('X', 'X'), ('NOT', 'X'), ('XGate()', 'X'), ('HGate()', 'H'), ('get_inverse(S)', 'Sdag'), ('get_inverse(get_inverse(SqrtX))', 'SqrtX'), ('get_inverse(get_inverse(S))', 'S'),
          ('MatrixGate([[0, 1], [1, 0]])', 'X'), ('MatrixGate(numpy.matrix([[0, 1], [1, 0]]))', 'X'), ('MatrixGate([[0.0, 1.0], [1.0, 0.0]])', 'X'), ('MatrixGate([[1, 0], [0, 1]])', 'I'), ('MatrixGate([[1, 0], [0, 1j]])', 'S'),
          ('MatrixGate([[1, 0], [0, -1j]])', 'Sdag'), ('MatrixGate([[1, 0], [0, -1]])', 'Z'), ('MatrixGate([[1, 0], [0, 0.99999]])', 'nearly I'), ('MatrixGate([[1, 0], [0, 1.0000001]])', 'nearer I'),
          ('MatrixGate([[1, 0.0000001], [0, 1]])', 'also near I'), ('MatrixGate([[1]])', 'one'), ('MatrixGate([[1, 1], [1, 1]])', 'ones'),
          ('MatrixGate([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]])', 'I4'), ('MatrixGate([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]])', 'Swap')]
GATES += [(f'{g}({x})', f'{g}({y})') for g in ('Rx', 'Ry', 'Rz', 'Rxx', 'Ryy', 'Rzz')
          for x, y in (('0', '0'), ('0.3', '0.3'), ('0.3000001', '0.3000001'), ('-0.3', '-0.3'), ('0.3 + 2 * math.pi', '0.3 + 2pi'), ('0.3 + 4 * math.pi', '0.3'), ('2 * math.pi', '2pi'))]
GATES += [(f'{g}({x})', f'{g}({y})') for g in ('Ph', 'R') for x, y in (('0', '0'), ('0.3', '0.3'), ('0.3000001', '0.3000001'), ('-0.3', '-0.3'), ('math.pi', 'pi'), ('0.3 + 2 * math.pi', '0.3'))]
GATES += [('get_inverse(Rx(0.3))', 'Rx(-0.3)'), ('get_inverse(Ph(0.3))', 'Ph(-0.3)'), ('CRz(0.3)', 'C(Rz(0.3))'), ('C(Rz(0.3))', 'C(Rz(0.3))'), ('C(Rz(0.4))', 'C(Rz(0.4))'), ('C(Rx(0.3))', 'C(Rx(0.3))'),
          ('C(Rz(0.3), 2)', 'C(Rz(0.3), 2)'), ('C(C(Rz(0.3)))', 'C(Rz(0.3), 2)'), ('CNOT', 'C(X)'), ('CX', 'C(X)'), ('CZ', 'C(Z)'), ('Toffoli', 'C(X, 2)'), ('C(X, 3)', 'C(X, 3)'), ('C(C(X), 2)', 'C(X, 3)'),
          ('get_inverse(C(S))', 'C(Sdag)'), ('C(S)', 'C(S)'), ('C(get_inverse(S))', 'C(Sdag)'), ('C(S, 2)', 'C(S, 2)'),
          ('Tensor(H)', 'all H'), ('All(H)', 'all H'), ('All(X)', 'all X'), ('All(Rx(0.3))', 'all Rx(0.3)'), ('All(Rx(0.4))', 'all Rx(0.4)'), ('Tensor(C(X))', 'all C(X)'), ('C(All(X))', 'C(all X)'),
          ('All(Measure)', 'all Measure'),
          ('FlipBits(0)', 'flip 0'), ('FlipBits(5)', 'flip 5'), ('FlipBits([1, 0, 1])', 'flip 5'), ("FlipBits('101')", 'flip 5'), ('FlipBits([True, False, True])', 'flip 5'), ('FlipBits(-5)', 'flip -5'), ('FlipBits(-1)', 'flip -1'),
          ('FlipBits(1)', 'flip 1'), ('FlipBits([1, 0])', 'flip 1'), ('FlipBits(4)', 'flip 4'), ("FlipBits('001')", 'flip 4'), ('FlipBits(6)', 'flip 6'),
          ('UniformlyControlledRy([0.1, 0.2])', 'ucry 1 2'), ('UniformlyControlledRy([0.1 + 4 * math.pi, 0.2])', 'ucry 1 2'), ('UniformlyControlledRy([0.2, 0.1])', 'ucry 2 1'), ('UniformlyControlledRy([0.1])', 'ucry 1'),
          ('UniformlyControlledRy([0.1, 0.2, 0.1, 0.2])', 'ucry 1 2 1 2'), ('UniformlyControlledRy([0.1, 0.2, 0.1, 0.3])', 'ucry 1 2 1 3'), ('UniformlyControlledRz([0.1, 0.2])', 'ucrz 1 2'),
          ('UniformlyControlledRz([0.1, 0.3])', 'ucrz 1 3'), ('UniformlyControlledRz([0.1])', 'ucrz 1'), ('UniformlyControlledRz([0.1, 0.2, 0.1, 0.2])', 'ucrz 1 2 1 2'), ('get_inverse(UniformlyControlledRz([0.1, 0.2]))', 'ucrz -1 -2'),
          ('StatePreparation([1, 0])', 'sp 0'), ('StatePreparation([1.0, 0.0])', 'sp 0'), ('StatePreparation((1 + 0j, 0j))', 'sp 0'), ('StatePreparation([0, 1])', 'sp 1'), ('StatePreparation([0.6, 0.8])', 'sp 2'), ('StatePreparation([0.6, -0.8])', 'sp 3'),
          ('StatePreparation([0.6, 0.8j])', 'sp 4'), ('StatePreparation([0.6, 0, 0.8, 0])', 'sp 5'), ('StatePreparation([0.6, 0.8, 0, 0])', 'sp 6'), ('get_inverse(StatePreparation([0.6, 0.8]))', 'sp -2'),
          ('get_inverse(StatePreparation([0.6, -0.8]))', 'sp -3'),
          ('QPE(X)', 'qpe X'), ('QPE(Y)', 'qpe Y'), ('QPE(Rz(0.3))', 'qpe rz3'), ('QPE(Rz(0.4))', 'qpe rz4'), ('QPE(f1)', 'qpe f1'), ('QPE(f2)', 'qpe f2'), ('get_inverse(QPE(X))', 'qpe -X'), ('get_inverse(QPE(Y))', 'qpe -Y'),
          ('QAA(o1, o2)', 'qaa 12'), ('QAA(o2, o1)', 'qaa 21'), ('QAA(o1, o1)', 'qaa 11'), ('QAA(o2, o2)', 'qaa 22'), ('get_inverse(QAA(o1, o2))', 'qaa -12'), ('get_inverse(QAA(o1, o1))', 'qaa -11'),
          (f"TimeEvolution(0.3, {Q}('X0'))", 'te 1'), (f"TimeEvolution(0.4, {Q}('X0'))", 'te 2'), (f"TimeEvolution(0.3, {Q}('X0', 2))", 'te 3'), (f"TimeEvolution(0.3, {Q}('X1'))", 'te 4'), (f"TimeEvolution(0.3, {Q}('Z0'))", 'te 5'),
          (f"TimeEvolution(0.3, {Q}('X0') + {Q}('Z1'))", 'te 6'), (f"TimeEvolution(0.3, {Q}('X0', 0.5) + {Q}('X0', 0.5))", 'te 1'), (f"TimeEvolution(-0.3, {Q}('X0'))", 'te -1'), (f"get_inverse(TimeEvolution(0.3, {Q}('X0')))", 'te -1'),
          (f"{Q}('X0')", 'op X'), (f"{Q}('X0', -1)", 'op -X'), (f"{Q}('X0', 1j)", 'op iX'), (f"{Q}('X0', 0.5)", 'op X/2'), (f"{Q}('Z0')", 'op Z'), (f"{Q}('X1')", 'op X1'), (f"{Q}('X0 Y1')", 'op XY'), (f"{Q}('Y1 X0')", 'op XY'),
          (f"{Q}('Y0 X1')", 'op YX'), (f"{Q}('X0') + {Q}('Z1')", 'op X+Z'), (f"{Q}('Z1') + {Q}('X0')", 'op X+Z'), (f"{Q}('X0') + {Q}('Z1', 2)", 'op X+2Z'), (f"{Q}(())", 'op 1'), (f"{Q}((), 2)", 'op 2'), (f"{Q}()", 'op 0'),
          (f"{Q}('X0', 2) * 0.5", 'op X'), (f"-{Q}('X0')", 'op -X'), (f"{Q}('X0') + {Q}('Z1') - {Q}('Z1')", 'op X'), (f"get_inverse({Q}('X0', 1j))", 'op -iX'), (f"{Q}('X0', -1j)", 'op -iX'),
          ('AddConstant(3)', 'add 3'), ('AddConstant(4)', 'add 4'), ('AddConstant(-3)', 'add -3'), ('SubConstant(3)', 'add -3'), ('get_inverse(AddConstant(3))', 'add -3'), ('AddConstant(0)', 'add 0'),
          ('AddConstantModN(3, 5)', 'add 3%5'), ('AddConstantModN(3, 7)', 'add 3%7'), ('AddConstantModN(2, 5)', 'add 2%5'), ('SubConstantModN(3, 5)', 'add 2%5'), ('get_inverse(AddConstantModN(3, 5))', 'add 2%5'), ('AddConstantModN(5, 3)', 'add 5%3'),
          ('MultiplyByConstantModN(3, 5)', 'mul 3%5'), ('MultiplyByConstantModN(3, 7)', 'mul 3%7'), ('MultiplyByConstantModN(2, 5)', 'mul 2%5'), ('MultiplyByConstantModN(5, 3)', 'mul 5%3'),
          ('get_inverse(MultiplyByConstantModN(3, 5))', 'mul -3%5'), ('get_inverse(MultiplyByConstantModN(3, 7))', 'mul -3%7'),
          ('BasicMathGate(f1)', 'fn 1'), ('BasicMathGate(f2)', 'fn 2'), ('get_inverse(BasicMathGate(f1))', 'fn -1'), ('get_inverse(BasicMathGate(f2))', 'fn -2'), ('Sub(0.4)', 'Rz(0.4)')]
MATRIX = {'Rx(0)': 'I', 'Ry(0)': 'I', 'Rz(0)': 'I', 'Ph(0)': 'I', 'R(0)': 'I', 'Rxx(0)': 'I4', 'Ryy(0)': 'I4', 'Rzz(0)': 'I4', 'R(pi)': 'Z', 'Rx(2pi)': '-I', 'Ry(2pi)': '-I', 'Rz(2pi)': '-I', 'Ph(pi)': '-I',
          'Rxx(2pi)': '-I4', 'Ryy(2pi)': '-I4', 'Rzz(2pi)': '-I4', 'Rzz(2pi)': '-I4'}
# gates with two symbolic parameters: (a gate, with other parameters, the period of each parameter or None)
SYMS = [(f'{g}(a)', f'{g}(b)', 4 * math.pi) for g in ('Rx', 'Ry', 'Rz', 'Rxx', 'Ryy', 'Rzz')] + [(f'{g}(a)', f'{g}(b)', 2 * math.pi) for g in ('Ph', 'R')] + [
    ('C(Rx(a))', 'C(Rx(b))', 4 * math.pi), ('All(Rx(a))', 'All(Rx(b))', 4 * math.pi), ('C(Ph(a), 2)', 'C(Ph(b), 2)', 2 * math.pi),
    ('UniformlyControlledRy([0.1, a])', 'UniformlyControlledRy([0.1, b])', 4 * math.pi), ('UniformlyControlledRz([a, 0.1])', 'UniformlyControlledRz([b, 0.1])', 4 * math.pi),
    ("TimeEvolution(a, QubitOperator('X0'))", "TimeEvolution(b, QubitOperator('X0'))", None), ("QubitOperator('X0 Z1', a)", "QubitOperator('X0 Z1', b)", None),
    ("QubitOperator('X0') + QubitOperator('Z1', a)", "QubitOperator('X0') + QubitOperator('Z1', b)", None),
    ("TimeEvolution(0.3, QubitOperator('X0', a))", "TimeEvolution(0.3, QubitOperator('X0', b))", None), ('StatePreparation([0.6, a])', 'StatePreparation([0.6, b])', None),
    ('get_inverse(StatePreparation([0.6, a]))', 'get_inverse(StatePreparation([0.6, b]))', None), ('QPE(Rz(a))', 'QPE(Rz(b))', 4 * math.pi)]
SHIFT = [0.0, 1e-3, -1e-3, 0.5, 2.0, math.pi, -math.pi, 2 * math.pi, -2 * math.pi, 3 * math.pi, 4 * math.pi, 6 * math.pi]
BASE = [0.0, 0.3, 1.7, -0.4, 5.0, 9.0, -7.0, 2 * math.pi + 0.2]
ROW = '''
def client():
    g = %(g)s
%(body)s
'''
SYM = '''
def client(a, b):
    g = %(g)s
    h = %(h)s
    probe('eq', g == h)
    probe('hash', hash(g), hash(h))
'''
UNHASHABLE = ('C(', 'All(', 'Tensor(', 'CNOT', 'CX', 'CZ', 'CRz', 'Toffoli', 'TimeEvolution', 'get_inverse(C(', 'get_inverse(TimeEvolution')


def check(chk):
    chk.rule('equal', 'two gates which do different things are not equal', 100)
    chk.rule('hash', 'gates which compare equal have equal hashes', 50)
    chk.rule('symbolic', 'gates with different symbolic parameters are equal only where the parameters agree (up to the period)', 15)
    for i, (g, k) in enumerate(GATES):
        if chk.mine():
            row(chk, i, g, k)
    for g, h, period in SYMS:
        if chk.mine():
            symbolic(chk, g, h, period)
    chk.assume = ['What two catalogued gates do is given by their documented parameters; gates doing the same thing need not be equal.', 'Classes without a hash (TypeError) have no hash to be wrong.']
    return (f'All ordered pairs of {len(GATES)} gates of all classes (each parameter of each class varied) are compared by following the code of == and hash; for {len(SYMS)} parametric gates the '
            'comparison is followed with symbolic parameters and the resulting condition evaluated for parameters which agree, differ slightly, or differ by half and whole periods.')


def name(gate):
    if gate.startswith('get_inverse('):
        return name(gate[12:])
    return gate.split('(')[0].split(' ')[0].strip('-)')


def same(a, b):
    return a == b or MATRIX.get(a, a) == MATRIX.get(b, b)


def row(chk, i, g, k):
    """One gate against all others, in one run."""
    body = []
    for j, (h, _) in enumerate(GATES):
        body += [f'    h = {h}', '    if g == h:', "        probe('equal', %d, True)" % j]
        body += ["        probe('hash', %d, hash(g), hash(h))" % j] if not g.startswith(UNHASHABLE) and not h.startswith(UNHASHABLE) else []
        body += ['    else:', "        probe('equal', %d, False)" % j]
    C = Client(chk.prog, ROW % {'g': g, 'body': '\n'.join(body)}, prelude=HEAD, stubs=decsem.STUBS, floats=True)
    try:
        outs = C.run('client')
        chk.saw(C.I, outs)
        if len(outs) != 1 or isinstance(outs[0][1], Exc) or trace(outs[0][0]) is None:
            v = outs[0][1] if len(outs) == 1 else f'{len(outs)} paths'
            if len(outs) > 1 or not pairwise(chk, g, k):
                chk.unknown('equal', g, f'not followed: {v}')
            return
        st = outs[0][0]
        seen, hashed, wrong = 0, 0, 0
        for x in trace(st):
            if x[0] != 'probe':
                continue
            tag, j = x[2][0].v, x[2][1].v
            h, kh = GATES[j]
            if tag == 'equal':
                seen += 1
                if x[2][2].v and not same(k, kh):
                    wrong += 1
                    chk.fail('equal', pair(g, h), where(chk, g), f'{g} and {h} compare equal, but they do different things')
            else:
                a, b = hval(x[2][2], {}), hval(x[2][3], {})
                if a is None or b is None:
                    if x[2][2] != x[2][3]:
                        chk.unknown('hash', f'{g} and {h}', f'hash {x[2][2]}')
                elif a != b and not wrong:
                    chk.fail('hash', pair(g, h), where(chk, 'MatrixGate' if 'MatrixGate' in g + h else g), f'{g} and {h} compare equal, but their hashes differ')
                else:
                    hashed += 1
        if not wrong and seen == len(GATES):
            chk.ok('equal', g)
        if hashed:
            chk.ok('hash', g)
    except (AnalysisError, Unreadable) as e:
        chk.unknown('equal', g, f'{type(e).__name__}: {e}')
    finally:
        C.close()


def pairwise(chk, g, k):
    """One gate against each other one separately: some comparison raises an exception."""
    for h, kh in GATES:
        if same(k, kh):
            continue
        C = Client(chk.prog, ROW % {'g': g, 'body': f"    probe('equal', g == {h})"}, prelude=HEAD, stubs=decsem.STUBS, floats=True)
        try:
            outs = C.run('client')
            if len(outs) == 1 and isinstance(outs[0][1], Exc):
                continue
            tr = trace(outs[0][0]) if len(outs) == 1 else None
            if not tr or not isinstance(tr[0][2][1], K):
                return False
            if tr[0][2][1].v is True:
                chk.fail('equal', pair(g, h), where(chk, g), f'{g} and {h} compare equal, but they do different things')
        finally:
            C.close()
    return False


def pair(g, h):
    a = sorted({name(g), name(h)})
    return '/'.join(a if 'MatrixGate' not in a else ['MatrixGate', 'other' if len(a) > 1 else 'MatrixGate'])


def where(chk, g):
    n = name(g)
    for m in chk.prog.modules.values():
        ci = m.classes.get(n) or m.classes.get(n + 'Gate')
        if ci is not None:
            return ci.loc()
    return g


def hval(v, env):
    """A value that is equal for equal hashes; None if unknown."""
    if isinstance(v, K):
        return ('k', v.v)
    x = value(v, env)
    if x is not None:
        return ('k', x)
    if not isinstance(v, T):
        return ('v', v) if isinstance(v, Val) else None
    if v.op == 'hash':
        return hval(v.args[0], env)
    if v.op == 'fstr':
        parts = [hval(a, env) for a in v.args]
        return None if None in parts else ('k', ''.join(text(p) for p in parts))
    if v.op in ('tuple', 'list'):
        parts = [hval(a, env) for a in v.args]
        return None if any(p is None for p in parts) else ('t', tuple(parts))
    if v.op == 'slice_of':
        s = hval(v.args[0], env)
        a = [x.v if isinstance(x, K) else None for x in v.args[1:]]
        return ('k', s[1][slice(*a[:3])]) if s is not None and s[0] == 'k' and isinstance(s[1], str) else None
    return None


def text(p):
    return str(p[1]) if p[0] == 'k' else '[' + ', '.join(text(x) for x in p[1]) + ']' if p[0] == 't' else str(p[1])


def truth(v, env):
    if isinstance(v, ExtV) and v.name == 'builtins.NotImplemented':
        return None
    x = value(v, env)
    return None if x is None else bool(x)


def symbolic(chk, g, h, period):
    inst = f'{g} == {h}'
    src = SYM % {'g': g, 'h': h}
    if g.startswith(UNHASHABLE):
        src = src.replace("    probe('hash', hash(g), hash(h))\n", '')
    C = Client(chk.prog, src, prelude=HEAD, stubs=decsem.STUBS, floats=True)
    try:
        outs = C.run('client', *decsem.symbols('ab'))
        chk.saw(C.I, outs)
        for a in BASE:
            for d in SHIFT:
                env = {'a': a, 'b': a + d}
                hit = False
                for st, v in outs:
                    ok = decsem.possible(st, env)
                    if ok is None:
                        chk.unknown('symbolic', inst, 'a condition is not understood')
                        return
                    if not ok:
                        continue
                    hit = True
                    if isinstance(v, Exc) or trace(st) is None:
                        chk.unknown('symbolic', inst, f'not followed: {v}')
                        return
                    ps = [x[2] for x in trace(st) if x[0] == 'probe']
                    eq = truth(ps[0][1], env)
                    if eq is None:
                        chk.unknown('symbolic', inst, f'comparison {ps[0][1]}')
                        return
                    r = d % period if period else d
                    differ = min(abs(r), abs(period - r)) > 1e-6 if period else abs(r) > 1e-6
                    if eq and differ:
                        chk.fail('symbolic', pair(g, h), where(chk, g), f'{inst} is true for {env}')
                        return
                    if eq and len(ps) > 1:
                        x, y = hval(ps[1][1], env), hval(ps[1][2], env)
                        if x is None or y is None:
                            if ps[1][1] != ps[1][2]:
                                chk.unknown('symbolic', inst, f'hash {ps[1][1]}')
                                return
                        elif x != y:
                            chk.fail('hash', pair(g, h), where(chk, g), f'{inst} is true for {env}, but the hashes differ')
                            return
                if not hit:
                    chk.unknown('symbolic', inst, f'no path for {env}')
                    return
        chk.ok('symbolic', inst)
    except (AnalysisError, Unreadable) as e:
        chk.unknown('symbolic', inst, f'{type(e).__name__}: {e}')
    finally:
        C.close()
