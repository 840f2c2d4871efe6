"""C29: the compiled simulator applies queued gates before its state is read or changed; both simulators refuse the same requests."""
import os
import random
import re

from ..client import Client, PRELUDE, clean, trace
from ..cxx import Eval, Fn, Throw, Undecided, Unit, Vec, default_of, vec
from ..model import AnalysisError
from ..simsem import SWAP, Vector, X, close, number
from ..values import Exc
from .c22 import plain

PARALLEL = True
TECHNIQUE = ('typestate dataflow over clang\'s syntax tree of the C++ simulator (queue applied before every access to the amplitudes, on every path of every exported method), and '
             'evaluation of that tree and abstract interpretation of the Python simulator on programs with exact reference state vectors and on invalid requests')
BIND = 'projectq/backends/_sim/_cppsim.cpp'
STATE = 'vec_'


def check(chk):
    chk.rule('pending', 'on every path of an exported method, queued gates are applied before the amplitudes are accessed or qubits are renumbered', 15)
    chk.rule('native', 'a program on the compiled simulator has the amplitudes, probabilities, expectation values and outcomes of the state vector', 60)
    chk.rule('reject', 'an invalid request is refused by both simulators and leaves the state as it was', 40)
    chk.assume = ['The kernels with intrinsics compute what the portable kernels compute; OpenMP pragmas do not change results.',
                  'Adding a qubit commutes with queued gates (they refer to qubits by id), hence allocate_qubit need not apply them; the programs check this.']
    u = Unit(chk.repo)
    names = bindings(chk.repo)
    pending(chk, u, names)
    native(chk, u, names)
    reject(chk, u, names)
    return ('The C++ sources are parsed by clang; a may-pending analysis covers every exported method and what it calls. Random programs of queued gates, allocations, '
            'deallocations, emulated arithmetic, measurements, queries and commands are evaluated on the tree and compared with a reference state vector.')


def bindings(repo):
    """Python name -> method of the exported class."""
    with open(os.path.join(repo, BIND), encoding='utf-8') as f:
        src = re.sub(r'//[^\n]*', '', f.read())
    out = {}
    for py, cls, name in re.findall(r'\.def\(\s*"(\w+)"\s*,\s*&\s*(?:(\w+)::)?(\w+)', src):
        if cls == 'Simulator':
            out[py] = name
        else:
            m = re.search(r'\b%s\s*\([^)]*\)\s*\{(.*?)\n\}' % name, src, re.S)
            t = m and re.findall(r'\bsim\s*\.\s*(\w+)\s*\(', m.group(1))
            if t and len(t) == 1:
                out[py] = t[0]
    if len(out) < 10:
        raise AnalysisError('the exported methods of the compiled simulator are not found')
    return out


# ---- typestate
class Pending:
    def __init__(self, u):
        self.u, self.bad, self.unsure = u, [], False
        self.sites = 0
        self.ev = Eval(u)
        self.stack = []

    def root(self, name):
        self.bad, self.unsure = [], False
        self.exempt = name == 'allocate_qubit'
        f = self.u.method('Simulator', name)
        if f is None:
            return None
        self.fn(f, True)
        return self.bad

    def fn(self, f, p):
        if f['id'] in self.stack:
            self.unsure = True
            return p
        self.stack.append(f['id'])
        try:
            body = next(c for c in f['inner'] if c.get('kind') == 'CompoundStmt')
            rets = []
            out = self.stmt(body, p, rets)
            outs = rets + ([] if out is None else [out])
            return any(outs) if outs else False
        finally:
            self.stack.pop()

    def field(self, n, name):
        while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr') and n.get('inner'):
            n = n['inner'][0]
        return n.get('kind') == 'MemberExpr' and n.get('name') == name and n.get('inner', [{}])[0].get('kind') == 'CXXThisExpr'

    def report(self, n, p, what):
        self.sites += 1
        if p:
            self.bad.append((self.u.loc(n), what))

    def cond(self, n):
        """(may be true, may be false) with gates queued; None if it does not depend on the queue."""
        if 'fused_gates_' not in names_in(n):
            return None
        try:
            res = set()
            for k in (1, 2, 3):
                s = self.ev.new('Simulator', 1)
                for i in range(k):
                    self.ev.invoke(s.f['fused_gates_'], 'insert', matrix([[1, 0], [0, 1]]), vec([i]), vec([]))
                res.add(bool(self.ev.ev(n, {}, s)))
            return True in res, False in res
        except (Undecided, Throw, KeyError):
            self.unsure = True
            return None

    def stmt(self, n, p, rets):
        """-> may gates be pending afterwards; None if the path ends."""
        if p is None or not isinstance(n, dict) or 'kind' not in n:
            return p
        k = n['kind']
        inner = n.get('inner', [])
        if k == 'IfStmt':
            parts = [c for c in inner if c.get('kind')]
            i = 0
            while parts[i]['kind'] == 'DeclStmt':
                p = self.stmt(parts[i], p, rets)
                i += 1
            p = self.stmt(parts[i], p, rets)
            c = self.cond(parts[i])
            a = self.stmt(parts[i + 1], p if c is None else p and c[0], rets)
            b = p if c is None else p and c[1]
            if n.get('hasElse'):
                b = self.stmt(parts[i + 2], b, rets)
            return join(a, b)
        if k in ('ForStmt', 'WhileStmt', 'CXXForRangeStmt', 'DoStmt'):
            q = p
            if k == 'CXXForRangeStmt':
                rng = [d for c in inner if c.get('kind') == 'DeclStmt' for d in c['inner']]
                if rng and any(self.field(x, 'map_') for x in rng[0].get('inner', [])) and not re.match(r'const\b|.*\bconst &', rng[-1]['type'].get('qualType', '')):
                    if '&' in rng[-1]['type'].get('qualType', ''):
                        self.report(n, p and not self.exempt, 'renumbers qubits')
            for _ in range(2):
                out = p
                for c in inner:
                    out = self.stmt(c, out, rets)
                q = join(q, out)
                p = q
            return q
        if k == 'ReturnStmt':
            for c in inner:
                p = self.stmt(c, p, rets)
            rets.append(bool(p))
            return None
        if k == 'CXXThrowExpr':
            return None
        if k == 'ConditionalOperator' or k == 'BinaryOperator' and n['opcode'] in ('&&', '||'):
            p = self.stmt(inner[0], p, rets)
            out = p
            for c in inner[1:]:
                out = join(out, self.stmt(c, p, rets))
            return out
        if k == 'CXXMemberCallExpr':
            m = inner[0]
            for c in inner[1:]:
                p = self.stmt(c, p, rets)
            obj = m.get('inner', [{}])[0]
            if obj.get('kind') == 'CXXThisExpr' or obj.get('kind') == 'ImplicitCastExpr' and obj.get('inner', [{}])[0].get('kind') == 'CXXThisExpr':
                if m['name'] == 'run':
                    return False
                f = self.u.fns.get(m.get('referencedMemberDecl'))
                if f is not None:
                    return self.fn(f, p)
                return p
            if self.field(obj, STATE) and m['name'] in ('size', 'capacity', 'empty'):
                return p
            if self.field(obj, 'fused_gates_') and m['name'] == 'insert':
                return True
            if self.field(obj, 'map_') and m['name'] in ('erase', 'clear', 'insert', 'emplace', 'swap'):
                self.report(n, p and not self.exempt, f'changes the qubits ({m["name"]})')
                return p
            return self.stmt(obj, p, rets)
        if k == 'CXXOperatorCallExpr' and len(inner) == 3 and opname(inner[0]) == 'operator=':
            p = self.stmt(inner[2], p, rets)
            if self.field(inner[1], 'fused_gates_'):
                if 'DeclRefExpr' in kinds(inner[2]) or names_in(inner[2]):
                    return True
                if kinds(inner[2]) & {'CXXTemporaryObjectExpr', 'CXXConstructExpr', 'CXXScalarValueInitExpr'}:
                    self.report(n, p, 'drops queued gates')
                    return False
                self.unsure = True
                return True
            return self.stmt(inner[1], p, rets)
        if k in ('BinaryOperator', 'CompoundAssignOperator') and n['opcode'].endswith('=') and n['opcode'] not in ('==', '!=', '<=', '>='):
            p = self.stmt(inner[1], p, rets)
            if self.field(inner[0], 'N_') or 'map_' in names_in(inner[0]):
                self.report(n, p and not self.exempt, 'renumbers qubits')
            return self.stmt(inner[0], p, rets)
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--') and self.field(inner[0], 'N_'):
            self.report(n, p and not self.exempt, 'changes the number of qubits')
            return p
        if self.field(n, STATE) and k == 'MemberExpr':
            self.report(n, p and not self.exempt, 'accesses the amplitudes')
            return p
        if k == 'LambdaExpr':
            for c in inner:
                if c.get('kind') == 'CompoundStmt':
                    self.stmt(c, p, [])
            return p
        for c in inner:
            p = self.stmt(c, p, rets)
        return p


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return a or b


def names_in(n):
    out = set()
    if isinstance(n, dict):
        if n.get('kind') == 'MemberExpr':
            out.add(n.get('name'))
        for c in n.get('inner', []):
            out |= names_in(c)
    return out


def kinds(n):
    out = set()
    if isinstance(n, dict):
        out.add(n.get('kind'))
        for c in n.get('inner', []):
            out |= kinds(c)
    return out


def opname(n):
    while n.get('kind') != 'DeclRefExpr' and n.get('inner'):
        n = n['inner'][0]
    return n.get('referencedDecl', {}).get('name')


def pending(chk, u, names):
    for py, name in sorted(names.items()):
        if not chk.mine() or name == 'run':
            continue
        with chk.guard('pending', py):
            a = Pending(u)
            bad = a.root(name)
            if bad is None:
                chk.unknown('pending', py, 'no definition')
            elif bad and a.unsure:
                chk.unknown('pending', py, f'{bad[0][1]} at {bad[0][0]} after a condition that is not understood')
            elif bad:
                chk.fail('pending', f'Simulator::{name}', bad[0][0], f'{name} {bad[0][1]} while gates may be queued that have not been applied')
            else:
                chk.ok('pending', f'{py}: {a.sites} accesses')
                chk.fns.add(f'Simulator::{name}')


# ---- programs
def matrix(m):
    v = default_of('std::vector<std::vector<std::complex<double> > >')
    v[:] = [vec([complex(x) for x in r], 'std::vector<std::complex<double> >') for r in m]
    return v


def regs(qs):
    v = default_of('std::vector<std::vector<unsigned int> >')
    v[:] = [vec(q) for q in qs]
    return v


def terms(ts):
    from ..cxx import Pair
    return vec([Pair(vec([Pair(i, ord(p)) for i, p in t], 'std::vector<std::pair<unsigned int, char> >'), c) for t, c in ts], 'std::vector<std::pair<int, double> >')


def bools(b):
    return vec([bool(x) for x in b], 'std::vector<bool>')


class Native:
    """The compiled simulator, evaluated."""

    def __init__(self, u, names):
        self.ev, self.names = Eval(u, 6000000), names
        self.s = self.ev.new('Simulator', 1)

    def __call__(self, name, *args):
        if name not in self.names:
            raise Undecided(f'{name} is not exported')
        return self.ev.invoke(self.s, self.names[name], *args)

    def state(self):
        m, v = self('cheat')
        return dict(m), list(v)


def fun(f):
    """A callable changing a vector of register values in place."""
    def g(res):
        res[:] = list(f(list(res)))
    return g


def native(chk, u, names):
    total = 700 if chk.thorough else 160
    for k in range(total):
        if not chk.mine():
            continue
        log = []
        with chk.guard('native', f'program {k}'):
            N = Native(u, names)
            msg, where = None, None
            try:
                msg = program(N, random.Random(f'native{k}'), log)
            except Throw as e:
                msg, where = f'{e}', e.loc
            except Undecided as e:
                chk.unknown('native', f'program {k}', f'{e}')
                continue
            chk.fns |= N.ev.seen
            chk.paths += 1
            if msg:
                name = names.get(log[-1].split('(')[0], 'run')
                f = u.method('Simulator', name)
                chk.fail('native', f'Simulator::{name}', where or (u.loc(f) if f else BIND), f'program {"; ".join(log)}: {msg}')
            else:
                chk.ok('native', f'program {k}: {"; ".join(log)[:200]}')


def program(N, rng, log):
    v, n = Vector(), 0

    def do(name, text, *args):
        log.append(f'{name}({text})')
        return N(name, *args)

    def pick(k):
        return rng.sample(v.order, k)

    def alloc():
        nonlocal n
        do('allocate_qubit', n, n)
        v.allocate(n)
        n += rng.choice([1, 1, 3])

    def full():
        a = pick(len(v.order))
        for k in range(2 ** len(a)):
            b = [k >> i & 1 for i in range(len(a))]
            got = do('get_amplitude', f'{b}, {a}', bools(b), vec(a))
            if not close(got, v.amplitude(b, a)):
                return f'amplitude of {b} is {got}, the state has {v.amplitude(b, a)}'
        return None
    for _ in range(rng.randint(1, 3)):
        alloc()
    for _ in range(rng.randint(5, 14)):
        r = rng.random()
        live = len(v.order)
        if not live or r < .1 and live < 6:
            alloc()
        elif r < .6:
            t = rng.randint(1, min(2, live))
            a = pick(t + rng.randint(0, min(2, live - t)))
            m = rng.choice([X, [[2, 1], [1, 1j]], [[1, 0], [0, -1]], [[1, 1], [1, -1]]]) if t == 1 else rng.choice(
                [SWAP, [[1, 0, 2, 0], [0, 1, 0, 0], [0, 0, 1j, 0], [3, 0, 0, 1]], [[0, 0, 0, 1], [1, 0, 0, 0], [0, 2, 0, 0], [0, 0, 1, 0]]])
            do('apply_controlled_gate', f'{m}, {a[:t]}, {a[t:]}', matrix(m), vec(a[:t]), vec(a[t:]))
            v.apply(m, a[:t], a[t:])
        elif r < .66:
            a = pick(rng.randint(1, live))
            i = rng.randint(1, len(a))
            c = []
            if i < len(a) and rng.random() < .5:
                c = [a.pop()]
            i = min(i, len(a))
            rs = [a[:i]] + ([a[i:]] if i < len(a) else [])
            kind = rng.choice(['user', 'add'])
            cst = rng.randint(1, 6)
            if kind == 'user' and len(rs) == 2:
                f = lambda x, cst=cst: (x[0], x[1] + cst * x[0])  # noqa: E731
            else:
                f = lambda x, cst=cst: tuple(y + cst for y in x)  # noqa: E731
            if kind == 'add':
                do('emulate_math_addConstant', f'{cst}, {rs}, {c}', cst, regs(rs), vec(c))
            else:
                do('emulate_math', f'x -> {f([1, 1][:len(rs)])} at ones, {rs}, {c}', fun(f), regs(rs), vec(c))
            v.math(f, rs, c)
        elif r < .72:
            a = pick(rng.randint(1, live))
            mod = 2 ** len(a) - (len(a) > 1)
            cst = rng.randrange(1, mod) if mod > 1 else 1
            mul = rng.random() < .5 and mod > 2
            while mul and gcd(cst, mod) != 1:
                cst = rng.randrange(1, mod)
            f = (lambda x: ((cst * x[0]) % mod if x[0] < mod else x[0],)) if mul else (lambda x: ((cst + x[0]) % mod if x[0] < mod else x[0],))
            top = (2 ** len(a)) - 1
            if mod == top and any(x and all(v.bit(i, q) for q in a) for i, x in enumerate(v.amp)):
                continue
            do('emulate_math_multiplyByConstantModN' if mul else 'emulate_math_addConstantModN', f'{cst}, {mod}, [{a}], []', cst, mod, regs([a]), vec([]))
            v.math(f, [a], [])
        elif r < .78:
            a = pick(rng.randint(1, live))
            b = [rng.randint(0, 1) for _ in a]
            got, want = do('get_probability', f'{b}, {a}', bools(b), vec(a)), v.probability(b, a)
            if not close(got, want):
                return f'probability is {got}, the state has {want}'
        elif r < .84:
            a = pick(rng.randint(1, live))
            ts = [(tuple((i, rng.choice('XYZ')) for i in range(len(a)) if rng.random() < .6), rng.choice([1., 2., -.5])) for _ in range(2)]
            if rng.random() < .6:
                got, want = do('get_expectation_value', f'{ts}, {a}', terms(ts), vec(a)), v.expectation(ts, a)
                if not close(got, want):
                    return f'expectation value is {got}, the state has {want}'
            else:
                do('apply_qubit_operator', f'{ts}, {a}', terms(ts), vec(a))
                v.operator(ts, a)
        elif r < .88:
            a = pick(live)
            amp = [complex(rng.choice([0, 1, 2, -1])) for _ in range(2 ** live)]
            do('set_wavefunction', f'{amp}, {a}', vec(amp, 'std::vector<std::complex<double> >'), vec(a))
            v.set(amp, a)
        else:
            i = rng.choice([i for i, x in enumerate(v.amp) if abs(x) > 1e-3] or [None])
            if i is None:
                return full()
            kind = rng.choice(['collapse', 'measure', 'release', 'release'])
            a = pick(rng.randint(1, live) if kind != 'release' else 1)
            b = [v.bit(i, q) for q in a]
            if kind == 'measure':
                norm = sum(abs(x) ** 2 for x in v.amp)
                v.amp = [x / norm ** .5 for x in v.amp]
                do('set_wavefunction', f'normalised, {v.order}', vec([complex(x) for x in v.amp], 'std::vector<std::complex<double> >'), vec(v.order))
                N.ev.draw = lambda: (sum(abs(x) ** 2 for x in v.amp[:i]) + abs(v.amp[i]) ** 2 / 2)
                got = [int(x) for x in do('measure_qubits', f'{a}', vec(a))]
                if v.probability(got, a) < 1e-9:
                    return f'measured {got} which has probability 0'
                b = got
            else:
                do('collapse_wavefunction', f'{a}, {b}', vec(a), bools(b))
            v.collapse(a, b)
            if kind == 'release':
                v.release_collapsed(a[0], b[0])
                do('deallocate_qubit', a[0], a[0])
    return full()


def gcd(a, b):
    while b:
        a, b = b, a % b
    return a


# ---- invalid requests
# prepared: qubits 0, 3, 5; 0 in superposition, 3 in state 1, 5 in state 0
T1 = [((((0, 'X'),)), 1.)]
T2 = [(((0, 'X'), (1, 'Z')), 1.), ((), 2.)]
U2 = [[0, 1], [1, 0]]
BAD = [
    ('measure an unknown qubit', 'measure_qubits', ([7],)), ('measure a known and an unknown qubit', 'measure_qubits', ([0, 7],)),
    ('gate on an unknown qubit', 'apply_controlled_gate', (U2, [7], [])), ('gate with an unknown control', 'apply_controlled_gate', (U2, [0], [7])),
    ('gate with a known and an unknown control', 'apply_controlled_gate', (U2, [0], [3, 7])), ('two-qubit gate with an unknown qubit', 'apply_controlled_gate', (SWAP, [3, 7], [])),
    ('expectation value on an unknown qubit', 'get_expectation_value', (T1, [7])), ('expectation value on a known and an unknown qubit', 'get_expectation_value', (T2, [0, 7])),
    ('operator on an unknown qubit', 'apply_qubit_operator', (T1, [7])), ('operator on a known and an unknown qubit', 'apply_qubit_operator', (T2, [0, 7])),
    ('time evolution of an unknown qubit', 'emulate_time_evolution', (T1, 0.25, [7], [])), ('time evolution with an unknown control', 'emulate_time_evolution', (T1, 0.25, [0], [7])),
    ('arithmetic on an unknown qubit', 'emulate_math', ('F', [[0, 7]], [])), ('arithmetic with an unknown control', 'emulate_math', ('F', [[0, 3]], [7])),
    ('probability of an unknown qubit', 'get_probability', ([1], [7])), ('probability of known and unknown qubits', 'get_probability', ([1, 0], [3, 7])),
    ('amplitude with a qubit missing', 'get_amplitude', ([1, 0], [0, 3])), ('amplitude with an unknown qubit instead of a known one', 'get_amplitude', ([1, 0, 0], [0, 3, 7])),
    ('amplitude with a further unknown qubit', 'get_amplitude', ([1, 0, 0, 0], [0, 3, 5, 7])), ('amplitude with a qubit twice', 'get_amplitude', ([1, 0, 0], [0, 3, 3])),
    ('wavefunction for an unknown qubit', 'set_wavefunction', ([0, 1, 0, 0, 0, 0, 0, 0], [0, 3, 7])),
    ('wavefunction with a qubit missing', 'set_wavefunction', ([0, 1, 0, 0], [0, 3])), ('wavefunction with a qubit twice', 'set_wavefunction', ([0, 1, 0, 0, 0, 0, 0, 0], [0, 3, 3])),
    ('wavefunction with a further unknown qubit', 'set_wavefunction', ([0, 1] + [0] * 14, [0, 3, 5, 7])),
    ('wavefunction which is too short', 'set_wavefunction', ([0, 1], [0, 3, 5])), ('wavefunction which is too long', 'set_wavefunction', ([0, 1] + [0] * 14, [0, 3, 5])),
    ('collapse of an unknown qubit', 'collapse_wavefunction', ([7], [0])), ('collapse of a known and an unknown qubit', 'collapse_wavefunction', ([0, 7], [0, 0])),
    ('collapse with too few values', 'collapse_wavefunction', ([0, 3], [0])), ('collapse to an impossible value', 'collapse_wavefunction', ([3], [0])),
    ('collapse to an impossible value among possible ones', 'collapse_wavefunction', ([0, 5], [1, 1])),
    ('deallocate an unknown qubit', 'deallocate_qubit', (7,)), ('deallocate a qubit in superposition', 'deallocate_qubit', (0,)), ('allocate a qubit twice', 'allocate_qubit', (3,)),
    ('probability with too few bits', 'get_probability', ([1], [0, 3])), ('amplitude with too few bits', 'get_amplitude', ([1, 0], [0, 3, 5])),
]
GOOD = [('deallocate a qubit in state 1', 'deallocate_qubit', (3,)), ('deallocate a qubit in state 0', 'deallocate_qubit', (5,)), ('collapse to the present value', 'collapse_wavefunction', ([3], [1]))]
GATES = [([[0.6, 0.8], [0.8, -0.6]], [0]), (X, [3])]
PYSRC = '''
from projectq.backends._sim._pysim import Simulator as Slow


def client():
    s = Slow(1)
    s.allocate_qubit(0)
    s.allocate_qubit(3)
    s.allocate_qubit(5)
    s.apply_controlled_gate([[0.6, 0.8], [0.8, -0.6]], [0], [])
    s.apply_controlled_gate([[0, 1], [1, 0]], [3], [])
    f = lambda x: [x[0] + 1]
    try:
        s.%s(%s)
        probe('accepted')
    except Exception as e:
        probe('refused')
    m, v = s.cheat()
    probe('map', [(k, m[k]) for k in m])
    for x in v:
        probe('amp', x)
'''


def reject(chk, u, names):
    amp = [0, 0, 0.6, 0.8, 0, 0, 0, 0]
    for (what, name, args), bad in [(b, True) for b in BAD] + [(g, False) for g in GOOD]:
        inst = f'{what}: {name}{args}'
        if chk.mine():
            with chk.guard('reject', 'compiled: ' + inst):
                N = Native(u, names)
                for i in (0, 3, 5):
                    N('allocate_qubit', i)
                for m, t in GATES:
                    N('apply_controlled_gate', matrix(m), vec(t), vec([]))
                refused, loc = None, None
                try:
                    N(name, *native_args(name, args))
                except Throw as e:
                    refused, loc = e, e.loc
                f = u.method('Simulator', names[name])
                chk.fns |= N.ev.seen
                if refused is not None and refused.kind == 'undefined':
                    chk.fail('reject', f'Simulator::{names[name]}', loc or u.loc(f), f'{inst}: undefined behaviour, {refused.msg}')
                elif bad != (refused is not None):
                    chk.fail('reject', f'Simulator::{names[name]}', loc or u.loc(f), f'{inst}: {"accepted" if bad else "refused"} by the compiled simulator')
                elif bad:
                    mp, v = N.state()
                    if mp != {0: 0, 3: 1, 5: 2} or len(v) != 8 or any(not close(a, b) for a, b in zip(v, amp)):
                        chk.fail('reject', f'Simulator::{names[name]}', loc or u.loc(f), f'{inst}: refused, but the state is then {mp}, {v}')
                    else:
                        chk.ok('reject', 'compiled: ' + inst)
                else:
                    chk.ok('reject', 'compiled: ' + inst)
        if chk.mine():
            pysim(chk, inst, name, args, bad, amp)


def native_args(name, args):
    out = []
    for k, a in enumerate(args):
        if a == 'F':
            out.append(fun(lambda x: [x[0] + 1]))
        elif isinstance(a, list) and name == 'set_wavefunction' and k == 0:
            out.append(vec([complex(x) for x in a], 'std::vector<std::complex<double> >'))
        elif isinstance(a, list) and (name in ('get_probability', 'get_amplitude') and k == 0 or name == 'collapse_wavefunction' and k == 1):
            out.append(bools(a))
        elif isinstance(a, list) and a and isinstance(a[0], tuple):
            out.append(terms(a))
        elif isinstance(a, list) and a and isinstance(a[0], list):
            out.append(matrix(a) if name == 'apply_controlled_gate' else regs(a))
        elif isinstance(a, list):
            out.append(vec(a))
        else:
            out.append(a)
    return out


def pysim(chk, inst, name, args, bad, amp):
    with chk.guard('reject', 'python: ' + inst):
        src = PYSRC % (name, ', '.join('f' if a == 'F' else repr(a) for a in args))
        C = Client(chk.prog, src, prelude=PRELUDE, stubs=('networkx', 'random', 'numpy'), budget=3000000)
        try:
            outs = C.run('client')
            chk.saw(C.I, outs)
            loc = chk.prog.mod('projectq.backends._sim._pysim').relpath + ':1' if hasattr(chk.prog, 'mod') else 'projectq/backends/_sim/_pysim.py:1'
            if not outs:
                return chk.unknown('reject', 'python: ' + inst, 'no path')
            for st, v in outs:
                tr = trace(st)
                if tr is None or isinstance(v, Exc) or not all(clean(f) for f in st.facts):
                    return chk.unknown('reject', 'python: ' + inst, f'{v} {list(st.facts)[:1]}')
                pr = [x for x in tr if x[0] == 'probe']
                verdict = plain(pr[0][1][0])
                if bad != (verdict == 'refused'):
                    return chk.fail('reject', f'_pysim.Simulator.{name}', loc, f'{inst}: {verdict} by the Python simulator')
                if bad:
                    mp = dict(C.I.pyval(st, pr[1][3].args[1]))
                    got = [number(x[3].args[1]) for x in pr[2:]]
                    if None in got:
                        return chk.unknown('reject', 'python: ' + inst, 'unknown amplitudes')
                    if mp != {0: 0, 3: 1, 5: 2} or len(got) != 8 or any(not close(a, b) for a, b in zip(got, amp)):
                        return chk.fail('reject', f'_pysim.Simulator.{name}', loc, f'{inst}: refused, but the state is then {mp}, {got}')
            chk.ok('reject', 'python: ' + inst)
        finally:
            C.close()


__all__ = ['Fn', 'Vec']
