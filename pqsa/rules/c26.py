"""C26: arithmetic of Pauli operators: exact results, operands left alone."""
import itertools

from .. import decsem
from ..alg import value
from ..client import Client, trace
from ..model import AnalysisError
from ..values import Exc, T

PARALLEL = True
TECHNIQUE = ('abstract interpretation of the operator methods with symbolic coefficients: the terms of the result and of every operand are read from the final abstract state and compared with an '
             'independent Pauli algebra, as functions of the coefficients')
PAULI = {('X', 'Y'): (1j, 'Z'), ('Y', 'Z'): (1j, 'X'), ('Z', 'X'): (1j, 'Y'), ('Y', 'X'): (-1j, 'Z'), ('Z', 'Y'): (-1j, 'X'), ('X', 'Z'): (-1j, 'Y')}


class Op:
    """Reference: a sum of Pauli strings."""

    def __init__(self, term=None, coefficient=1.0):
        self.terms = {}
        if term is not None:
            fs = [(int(x[1:]), x[0]) for x in term.split()] if isinstance(term, str) else list(term)
            self.terms[tuple(sorted(fs))] = coefficient

    def copy(self):
        r = Op()
        r.terms = dict(self.terms)
        return r

    def product(self, o):
        r = {}
        for s, x in self.terms.items():
            for t, y in o.terms.items():
                c, d = x * y, dict(s)
                for q, f in t:
                    if q not in d:
                        d[q] = f
                    elif d[q] == f:
                        del d[q]
                    else:
                        k, d[q] = PAULI[d[q], f]
                        c *= k
                key = tuple(sorted(d.items()))
                r[key] = r.get(key, 0) + c
        return r

    def total(self, o, sign):
        r = dict(self.terms)
        for t, y in o.terms.items():
            r[t] = r.get(t, 0) + sign * y
        return r

    def __imul__(self, o):
        self.terms = self.product(o) if isinstance(o, Op) else {t: o * x for t, x in self.terms.items()}
        return self

    def __iadd__(self, o):
        self.terms = self.total(o, 1)
        return self

    def __isub__(self, o):
        self.terms = self.total(o, -1)
        return self

    def __itruediv__(self, x):
        self *= 1 / x
        return self

    def __mul__(self, o):
        r = self.copy()
        r *= o
        return r

    def __rmul__(self, x):
        return self * x

    def __add__(self, o):
        r = self.copy()
        r += o
        return r

    def __sub__(self, o):
        r = self.copy()
        r -= o
        return r

    def __truediv__(self, x):
        return self * (1 / x)

    def __neg__(self):
        return self * -1

    def compress(self, abs_tol=1e-12):
        pass

    def get_inverse(self):
        if len(self.terms) != 1:
            return Op()
        ((t, c),) = self.terms.items()
        r = Op()
        r.terms[t] = 1 / c
        return r

    def get_merged(self, o):
        return o * self


TERMS = ['', 'X0', 'Y0', 'Z0', 'X1', 'X0 X1', 'Y0 Z1', 'Z0 Y1', 'X0 Z2', 'Y1 Z2', 'Z1 X3', 'X0 Y1 Z2', 'Z0 Z1 Z2', 'Y0 X1 Y2', 'Y2 X5', 'X0 Y2 Z5', 'Y0 Y1 X2 Z3']
SUMS = ["QubitOperator('X0', a) + QubitOperator('Z1', b)", "QubitOperator('X0', a) + QubitOperator('X0', b)", "QubitOperator('X0 Y1', a) + QubitOperator('Z0', 0.5) + QubitOperator('', b)",
        "QubitOperator('Y0', b) + QubitOperator('Z0', a) + QubitOperator('X0')", "QubitOperator()", "QubitOperator('X0', 2) + QubitOperator('Y1 Z2', -1j)", "QubitOperator('Y1 Z0', a)", "QubitOperator(((2, 'X'), (0, 'Y')), b)",
        "QubitOperator((), a)", "QubitOperator('Z0', 0.0) + QubitOperator('X0', b)", "QubitOperator('X0', 1)", "QubitOperator('X0', -1)", "QubitOperator('X0 Y1', 1j)"]
BINARY = ['r = p * q', 'r = p + q', 'r = p - q']
INPLACE = ['p *= q', 'p += q', 'p -= q']
UNARY = ['r = a * p', 'r = p * a', 'r = p / a', 'r = -p', 'r = 3 * p', 'r = p * -1j', 'r = p / 2', 'r = p / 0.5j', 'r = True * p', 'p *= a', 'p /= a', 'p *= 2', 'p /= 4', 'p *= 1j',
         'r = p * p', 'r = p + p', 'r = p - p', 'p *= p', 'p += p', 'p -= p', 'r = p - (p + p)', 'r = p * p * p', 's = p\n    p += QubitOperator("X0", b)\n    r = s', 's = p\n    p *= b\n    r = s',
         's = p\n    p -= QubitOperator("Z1", b)\n    r = s', 's = p\n    p *= QubitOperator("Z0", b)\n    r = s', 's = p\n    p /= 2\n    r = s']
AFTER = ['r *= 2', 'r += QubitOperator("X0", 5)', 'r -= p', 'r *= QubitOperator("Y0 Z1")', 'r /= 4', 'p += q', 'q *= 3', 'p -= r', 'r.compress()', 'p *= r']
PURE = ['str(p)', 'repr(p)', 'hash(p)', 'p == q', 'p != q', 'p.isclose(q)', 'TimeEvolution(0.3, p)', 'TimeEvolution(0.3, q).get_inverse()', 'get_inverse(TimeEvolution(0.3, p))', 'copy.deepcopy(p)', 'p.is_identity()',
        'TimeEvolution(0.3, p).get_merged(TimeEvolution(0.2, p))', 'MainEngineLike(p, q)', 'StringOf(p)']
GATE = ['r = get_inverse(p)', 'r = p.get_inverse()', 'r = p.get_merged(q)', 'r = q.get_merged(p)']
ERRORS = ["p * 'x'", "'x' * p", 'p + 1', 'p - 1', '1 + p', 'p / q', 'p / "x"', 'p + None', 'p * [1]', 'p - "X0"']
HEAD = decsem.HEAD + '''
import copy


def MainEngineLike(p, q):
    eng = main_engine()
    w = eng.allocate_qureg(4)
    TimeEvolution(0.7, p) | w
    TimeEvolution(0.7, q) | w
    eng.flush()


def StringOf(p):
    return f'{p}'


'''
SRC = '''
def client(a, b):
    p = %s
    q = %s
    r = None
    %s
    probe('end', p, q, r)
'''


def check(chk):
    chk.rule('product', 'the product of two Pauli strings is the string and phase of the Pauli algebra; the operands keep their terms', 100)
    chk.rule('sum', 'sums, differences and products of sums act on every term; the operands keep their terms', 100)
    chk.rule('scalar', 'scalars multiply and divide every term; in-place forms change only their left operand, also when both operands are the same object', 60)
    chk.rule('separate', 'changing the result or an operand in place afterwards changes nothing else', 40)
    chk.rule('pure', 'reading, comparing, printing or applying an operator does not change it', 12)
    chk.rule('inverse', 'the inverse and the merged form of an operator used as a gate are exact, the operands keep their terms', 12)
    chk.rule('error', 'an operation with an unsupported operand raises TypeError and leaves the operator as it was', 10)
    for s, t in itertools.product(TERMS, TERMS):
        if chk.mine() and (chk.thorough or len(s) + len(t) < 22):
            case(chk, 'product', f"QubitOperator('{s}', a)", f"QubitOperator('{t}', b)", 'r = p * q')
    for body in BINARY + INPLACE:
        for s, t in itertools.product(SUMS, SUMS):
            if chk.mine():
                case(chk, 'sum', s, t, body)
    for body in UNARY:
        for s in SUMS[:9] if not chk.thorough else SUMS + ["QubitOperator('Y0 Y1 X2 Z3', a) + QubitOperator('Z3', b)"]:
            if chk.mine():
                case(chk, 'scalar', s, SUMS[0], body)
    for body in BINARY + ['r = a * p', 'r = p / 2', 'r = -p']:
        for then in AFTER:
            if chk.mine():
                case(chk, 'separate', SUMS[2], SUMS[5], body + '\n    ' + then)
    for body in ('r = TimeEvolution(0.3, p).hamiltonian', 'r = get_inverse(TimeEvolution(0.3, p)).hamiltonian', 'r = TimeEvolution(0.3, p).get_merged(TimeEvolution(1, p)).hamiltonian'):
        for then in ('p *= 2', 'p += QubitOperator("X0", 5)', 'p -= q', 'p /= 4', 'p *= q'):
            if chk.mine():
                case(chk, 'separate', "QubitOperator('X0 Y1', 0.5) + QubitOperator('Z2')", SUMS[5], body + '\n    ' + then, ref='r = p * 1\n    ' + then)
    for body in PURE:
        if chk.mine():
            case(chk, 'pure', "QubitOperator('X0 Y1', 0.5) + QubitOperator('Z2')", "QubitOperator('X0', 2) + QubitOperator('Y1 Z0', -1.0)", body, pure=True)
    for body in GATE:
        for s, t in (("QubitOperator('X0 Y1', 1j)", "QubitOperator('Z0 Z2', -1)"), ("QubitOperator('X0', -1j)", "QubitOperator('X0', -1j)"), ("QubitOperator((), 0.6 + 0.8j)", "QubitOperator('Y3', 0.6 - 0.8j)"),
                     ("QubitOperator('Z0', -0.8 + 0.6j)", "QubitOperator('Y0 X1', 1)")):
            if chk.mine():
                case(chk, 'inverse', s, t, body)
    for body in ERRORS:
        if chk.mine():
            case(chk, 'error', SUMS[0], SUMS[5], f'try:\n        {body}\n    except TypeError:\n        r = QubitOperator("Z9")', error=True)
    chk.assume = ['Coefficients are numbers; equality of two coefficient functions is judged at 6 complex points including cancelling ones.']
    return (f'Every pair of {len(TERMS)} Pauli strings, {len(SUMS)} operators in all binary and in-place operations, scalars on both sides, aliased operands and later in-place changes are followed with '
            'symbolic coefficients; the terms of result and operands in the final state are compared with an independent Pauli algebra.')


ENVS = [{'a': 0.7, 'b': -1.3}, {'a': 0.7, 'b': -0.7}, {'a': -1.9, 'b': -1.9}, {'a': 0.3 + 0.4j, 'b': 1.1 - 0.2j}, {'a': 1j, 'b': -1j}, {'a': -2.5, 'b': 0.25j}]


def reference(p, q, body, env):
    ns = dict(env, QubitOperator=Op, get_inverse=lambda x: x.get_inverse())
    exec(f'p = {p}\nq = {q}\nr = None\n' + body.replace('\n    ', '\n'), ns)  # noqa: S102 (constants of this file)
    return [ns['p'], ns['q'], ns['r']]


def terms(C, st, v):
    """{Pauli string: coefficient term} of an operator object, or None."""
    if C.I.class_of(v) is None:
        return None
    d, _ = C.S.getattr(st, v, 'terms')
    ks = st.dkeys.get(d, C.I.g_dkeys.get(d))
    if ks is None:
        return None
    out = {}
    for k in ks:
        fs = C.I.items(st, k)
        if fs is None:
            return None
        fs = [C.I.items(st, f) for f in fs]
        if any(f is None or len(f) != 2 or not all(hasattr(x, 'v') for x in f) for f in fs):
            return None
        c = st.ditems.get((d, k), C.I.g_ditems.get((d, k)))
        if c is None:
            return None
        out[tuple((f[0].v, f[1].v) for f in fs)] = c
    return out


def case(chk, rl, p, q, body, pure=False, error=False, ref=None):
    inst = f'p = {p}, q = {q}: ' + body.replace('\n    ', '; ')
    C = Client(chk.prog, SRC % (p, q, body), prelude=HEAD, stubs=decsem.STUBS, floats=True)
    key = body.split('\n')[0].replace(' ', '') if not error else 'unsupported operand'
    loc = chk.prog.modules['projectq.ops._qubit_operator'].classes['QubitOperator'].loc() if 'projectq.ops._qubit_operator' in chk.prog.modules else ''
    try:
        outs = C.run('client', T('sym', 'a'), T('sym', 'b'))
        chk.saw(C.I, outs)
        for env in ENVS:
            hit = 0
            for st, v in outs:
                ok = decsem.possible(st, env)
                if ok is None:
                    chk.unknown(rl, inst, 'a condition is not understood: ' + str([f for f in st.facts if value(f, env) is None])[:150])
                    return
                if not ok:
                    continue
                hit += 1
                if isinstance(v, Exc):
                    if not hasattr(v, 'name') or v.name not in ('TypeError', 'RuntimeError', 'KeyError', 'AttributeError', 'ValueError', 'IndexError', 'ZeroDivisionError', 'NameError'):
                        chk.unknown(rl, inst, f'raises {v.name}')
                    else:
                        chk.fail(rl, key, str(v.loc), f'{inst} raises {v.name} for {env}')
                    return
                tr = trace(st)
                if tr is None:
                    chk.unknown(rl, inst, 'not followed')
                    return
                end = [x[2] for x in tr if x[0] == 'probe'][-1][1:]
                want = reference(p, q, 'pass' if pure or error else ref or body, env)
                if error:
                    want[2] = Op('Z9')
                for n, g, w in zip('pqr', end, want):
                    if w is None:
                        continue
                    got = terms(C, st, g)
                    if got is None and not error:
                        chk.unknown(rl, inst, f'terms of {n} are unknown')
                        return
                    if not same(got, w.terms, env, chk, rl, inst):
                        chk.fail(rl, key, loc, f'{inst}: {n} is {show(got, env)} instead of {show(w.terms, {})} for {env}' if not error else f'{inst}: no TypeError, or the operator changed')
                        return
            if not hit:
                chk.unknown(rl, inst, f'no path for {env}')
                return
        chk.ok(rl, inst)
    except AnalysisError as e:
        chk.unknown(rl, inst, f'{type(e).__name__}: {e}')
    finally:
        C.close()


def num(c, env):
    return c if isinstance(c, (int, float, complex)) else value(c, env)


def show(t, env):
    return ' + '.join(f"{num(c, env)} [{' '.join(f + str(q) for q, f in k)}]" for k, c in t.items()) if t else '0' if t is not None else 'unset'


def same(got, want, env, chk, rl, inst):
    if got is None:
        return False
    vals = {k: num(c, env) for k, c in got.items()}
    if None in vals.values():
        raise AnalysisError(f'coefficient {got}')
    return all(abs(vals.get(k, 0) - want.get(k, 0)) < 1e-9 for k in set(vals) | set(want)) and all(tuple(sorted(k)) == k for k in vals)
