"""C19: simulator queries address the simulated qubit which represents the logical qubit."""
import random

from ..client import Client, PRELUDE, clean, trace
from ..simsem import SWAP, Vector, X, Y, Z, close, number
from ..values import Exc
from .c22 import plain

PARALLEL = True
TECHNIQUE = ('abstract interpretation of the simulators on programs with integer gates behind permuting and real mappers; every id passed to the compiled simulator is '
             'compared with the location of the logical qubit, every value the Python, unitary and classical simulators return with a reference state vector')
HEAD = '''
import random
import numpy as np
from projectq.backends import ClassicalSimulator, Simulator, UnitarySimulator
from projectq.cengines import BasicMapperEngine, LinearMapper, SwapAndCNOTFlipper
from projectq.ops import QubitOperator, SwapGate


class PermutingMapper(BasicMapperEngine):
    """A mapper with a fixed, non-trivial assignment."""

    def __init__(self, mapping):
        super().__init__()
        self.current_mapping = mapping

    def receive(self, command_list):
        for cmd in command_list:
            if isinstance(cmd.gate, FlushGate):
                self.send([cmd])
            else:
                self._send_cmd_with_mapped_ids(cmd)


class MatrixGate(BasicGate):
    def __init__(self, m):
        super().__init__()
        self.matrix = np.array(m)


class UserMath(BasicMathGate):
    def __init__(self, kind):
        super().__init__(kind)


'''
SPLIT = '''
class SwapSplitter(BasicEngine):
    def is_available(self, cmd):
        return isinstance(cmd.gate, SwapGate) or super().is_available(cmd)

    def receive(self, command_list):
        for cmd in command_list:
            if isinstance(cmd.gate, SwapGate):
                a, b = [r[0] for r in cmd.qubits]
                for c, t in ((a, b), (b, a), (a, b)):
                    self.send([Command(self, X, ([t],), controls=[c])])
            else:
                self.send([cmd])


'''
NATIVE = ('networkx', 'random', 'projectq.backends._sim._cppsim')
PYSIM = ('networkx', 'random', 'numpy', 'projectq.backends._sim._cppsim=_pysim_alias')


def check(chk):
    chk.rule('compiled', 'every query of the simulator reaches the compiled simulator with the locations of the qubits, in the order given, and the same bits', 60)
    chk.rule('unknown', 'a query about a qubit the mapper does not know is refused with RuntimeError', 20)
    chk.rule('values', 'probabilities, amplitudes, expectation values and states after commands are those of the logical qubits', 40)
    chk.rule('unitary', 'the unitary a unitary simulator reports is the product of the gates on the qubits they were applied to', 10)
    chk.rule('classical', 'bits and registers read from the classical simulator are those of the logical qubits, and values that do not fit are refused', 40)
    chk.assume = ['The compiled simulator addresses qubits by the ids it is given (its own sources are the subject of C29).',
                  'numpy computes sums, products and indexing as documented (modelled with exact numbers).']
    compiled(chk)
    values(chk)
    unitary(chk)
    classical(chk)
    return ('Client programs with integer gates, allocations, deallocations, queries and commands, behind no mapper, permuting mappers and LinearMapper, are followed through '
            'the simulator classes; ids and values are compared with a reference that knows only logical qubits.')


def client(chk, rule, inst, src, stubs, judge, construct, minpaths=1):
    if not chk.mine():
        return
    with chk.guard(rule, inst):
        C = Client(chk.prog, HEAD + src, prelude=PRELUDE, stubs=stubs, budget=4000000)
        try:
            outs = C.run('client')
            chk.saw(C.I, outs)
            if len(outs) < minpaths:
                return chk.unknown(rule, inst, 'no path')
            loc = chk.prog.cls(construct, 'projectq.backends').loc()
            for st, v in outs:
                tr = trace(st)
                if tr is None:
                    return chk.unknown(rule, inst, 'loop of unknown length')
                if not all(clean(f) for f in st.facts):
                    return chk.unknown(rule, inst, f'depends on {list(st.facts)[:2]}')
                msg = f'raises {v.name} at {v.loc}' if isinstance(v, Exc) else judge(C, st, [x for x in tr if x[0] == 'probe'])
                if msg is not None and msg.startswith('?'):
                    return chk.unknown(rule, inst, msg)
                if msg is not None:
                    return chk.fail(rule, construct, (v.loc if isinstance(v, Exc) and not str(v.loc).startswith('<client>') else None) or loc, f'{inst}: {msg}')
            chk.ok(rule, inst)
        finally:
            C.close()


def deep(v):
    v = plain(v)
    if isinstance(v, list):
        return [deep(x) for x in v]
    return v


# ---- ids passed to the compiled simulator
QUERIES = {
    'get_probability': ('bits', "sim.get_probability({bits}, {reg})"),
    'get_amplitude': ('bits', "sim.get_amplitude({bits}, {reg})"),
    'get_expectation_value': ('op', "sim.get_expectation_value({op}, {reg})"),
    'apply_qubit_operator': ('op', "sim.apply_qubit_operator({op}, {reg})"),
    'set_wavefunction': ('wf', "sim.set_wavefunction([0, 1, 0, 0, 0, 0, 0, 0], {reg})"),
    'collapse_wavefunction': ('val', "sim.collapse_wavefunction({reg}, {bits})"),
}
OPS = {1: ("QubitOperator('X0', 2)", [[[(0, 'X')], 2]]), 2: ("QubitOperator('X0 Z1', 2)", [[[(0, 'X'), (1, 'Z')], 2]]),
       3: ("QubitOperator('Y2 X1', 0.5)", [[[(1, 'X'), (2, 'Y')], 0.5]])}


def compiled(chk):
    for what, (kind, call) in QUERIES.items():
        for perm in (None, [2, 0, 1], [1, 2, 0], [7, 5, 6]):
            for reg in ([0, 1, 2], [2, 0, 1], [1], [2, 1]):
                bits = [(k * 3 + len(reg)) % 2 for k in reg]
                text = repr(''.join(map(str, bits))) if len(reg) == 2 else repr(bits)
                src = f'''
def client():
    sim = Simulator()
    eng = MainEngine(backend=sim, engine_list={'[]' if perm is None else f'[PermutingMapper({dict(enumerate(perm))})]'}, verbose=True)
    q = eng.allocate_qureg(3)
    eng.flush()
    probe('query')
    {call.format(bits=text, reg=[f'q[{i}]' for i in reg], op=OPS[len(reg)][0]).replace("'q[", 'q[').replace("]'", ']')}
'''
                ids = [i if perm is None else perm[i] for i in reg]
                want = {'bits': [bits, ids], 'val': [ids, bits], 'op': [OPS[len(reg)][1], ids], 'wf': [[0, 1, 0, 0, 0, 0, 0, 0], ids]}[kind]

                def judge(C, st, probes, what=what, want=want):
                    at = next((i for i, p in enumerate(probes) if plain(p[1][0]) == 'query'), None)
                    if at is None:
                        return '? no query'
                    rest = [p for p in probes[at + 1:] if plain(p[1][0]) == 'sim' and plain(p[1][1]) != 'run']
                    if len(rest) != 1 or plain(rest[0][1][1]) != what:
                        return f'calls {[plain(p[1][1]) for p in rest]} of the compiled simulator instead of {what} once'
                    try:
                        got = [C.I.pyval(st, a) for a in rest[0][3].args[2:]]
                    except Exception:
                        return '? unknown arguments'
                    if norm(got) != norm(want):
                        return f'passes {got} to the compiled simulator instead of {want}'
                    return None
                client(chk, 'compiled', f'{what} of {reg}, locations {perm}', src, NATIVE, judge, 'Simulator')
    for what, (kind, call) in QUERIES.items():
        for reg in ([0, 1, 2], [2], [1, 2]):
            text = repr([0] * len(reg))
            src = f'''
def client():
    sim = Simulator()
    eng = MainEngine(backend=sim, engine_list=[PermutingMapper({{0: 2, 1: 0, 2: 1}})], verbose=True)
    q = eng.allocate_qureg(3)
    eng.flush()
    eng.mapper.current_mapping = {{0: 2, 1: 0}}
    probe('query')
    try:
        {call.format(bits=text, reg=[f'q[{i}]' for i in reg], op=OPS[len(reg)][0]).replace("'q[", 'q[').replace("]'", ']')}
        probe('accepted')
    except RuntimeError:
        probe('refused')
'''

            def judge2(C, st, probes):
                got = [tuple(plain(a) for a in p[1][:2]) for p in probes]
                got = got[got.index(('query',)) + 1:]
                return None if got == [('refused',)] else f'the query gives {got} although the mapper does not know qubit 2'
            client(chk, 'unknown', f'{what} of {reg}', src, NATIVE, judge2, 'Simulator')
    for call in ('sim.read_bit(q[2])', 'sim.write_bit(q[2], 1)', 'sim.read_register([q[0], q[2]])', 'sim.write_register([q[2], q[1]], 1)'):
        src = f'''
def client():
    sim = ClassicalSimulator()
    eng = MainEngine(backend=sim, engine_list=[PermutingMapper({{0: 2, 1: 0, 2: 1}})], verbose=True)
    q = eng.allocate_qureg(3)
    eng.flush()
    eng.mapper.current_mapping = {{0: 2, 1: 0}}
    try:
        {call}
        probe('accepted')
    except RuntimeError:
        probe('refused')
    eng.mapper.current_mapping = {{0: 2, 1: 0, 2: 1}}
    probe('state', sim.read_register(q))
'''

        def judge3(C, st, probes):
            got = [tuple(plain(a) for a in p[1]) for p in probes]
            return None if got == [('refused',), ('state', 0)] else f'the query gives {got} although the mapper does not know qubit 2'
        client(chk, 'unknown', call, src, ('networkx',), judge3, 'ClassicalSimulator')


def norm(v):
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    return int(v) if isinstance(v, bool) else v


# ---- values
class Prog:
    """A random program: client text and the values its probes have to show."""

    def __init__(self, rng):
        self.rng, self.v, self.n = rng, Vector(), 0
        self.lines, self.want = [], []

    def qs(self, ids):
        return '[' + ', '.join(f'q{i}' for i in ids) + ']'

    def pick(self, k):
        return self.rng.sample(self.v.order, k)

    def alloc(self):
        self.lines.append(f'q{self.n} = eng.allocate_qubit()[0]')
        self.v.allocate(self.n)
        self.n += 1

    def gate(self):
        rng, live = self.rng, len(self.v.order)
        kind = rng.choice(['X', 'Y', 'Z', 'CNOT', 'Swap', 'M1', 'M1', 'M2', 'C', 'CC'])
        if kind in 'XYZ':
            a = self.pick(1)
            self.lines.append(f'{kind} | q{a[0]}')
            self.v.apply({'X': X, 'Y': Y, 'Z': Z}[kind], a)
        elif kind == 'M1' or live < 2:
            m, a = self.matrix(2), self.pick(1)
            self.lines.append(f'MatrixGate({m}) | q{a[0]}')
            self.v.apply(m, a)
        elif kind == 'CNOT':
            a = self.pick(2)
            self.lines.append(f'CNOT | (q{a[0]}, q{a[1]})')
            self.v.apply(X, a[1:], a[:1])
        elif kind == 'Swap':
            a = self.pick(2)
            self.lines.append(f'Swap | (q{a[0]}, q{a[1]})')
            self.v.apply(SWAP, a)
        elif kind == 'M2' or live < 3:
            m, a = self.matrix(4), self.pick(2)
            self.lines.append(f'MatrixGate({m}) | (q{a[0]}, q{a[1]})')
            self.v.apply(m, a)
        elif kind == 'C':
            m, a = self.matrix(4), self.pick(3)
            self.lines.append(f'C(MatrixGate({m})) | (q{a[0]}, q{a[1]}, q{a[2]})')
            self.v.apply(m, a[1:], a[:1])
        else:
            m, a = self.matrix(2), self.pick(3)
            self.lines.append(f'C(MatrixGate({m}), 2) | (q{a[0]}, q{a[1]}, q{a[2]})')
            self.v.apply(m, a[2:], a[:2])

    def matrix(self, n):
        return [[self.rng.choice([0, 1, 2, -1, 1j, 3, 1 - 1j]) for _ in range(n)] for _ in range(n)]

    def math(self):
        rng = self.rng
        order = self.pick(len(self.v.order))
        k = rng.randint(1, len(order) - 1) if len(order) > 1 else 1
        a, rest = order[:k], order[k:]
        ctrl = rest[:1] if len(rest) > 1 and rng.random() < .5 else []
        b = rest[len(ctrl):]
        c = rng.randint(1, 5)
        if b:
            fun, text, regs = (lambda x, c=c: (x[0], x[1] + c * x[0])), f'lambda x, y: (x, y + {c} * x)', [a, b]
        else:
            fun, text, regs = (lambda x, c=c: (x[0] + c,)), f'lambda x: (x + {c},)', [a]
        cmd = f'UserMath({text}) | ({", ".join(self.qs(r) for r in regs)},)'
        if ctrl:
            self.lines.append(f'with Control(eng, {self.qs(ctrl)}):\n        {cmd}')
        else:
            self.lines.append(cmd)
        self.v.math(fun, regs, ctrl)

    def show(self, text, value):
        self.lines.append(f'probe({len(self.want)}, {text})')
        self.want.append(value)

    def bits(self, k):
        b = [self.rng.randint(0, 1) for _ in range(k)]
        return b, repr(''.join(map(str, b))) if self.rng.random() < .5 else repr(b)

    def operator(self, k):
        terms, text = [], []
        for _ in range(self.rng.randint(1, 3)):
            ops = tuple((i, self.rng.choice('XYZ')) for i in range(k) if self.rng.random() < .6)
            if any(t == ops for t, _ in terms):
                continue
            c = self.rng.choice([1, 2, -1, 0.5])
            terms.append((ops, c))
            text.append(f"QubitOperator({' '.join(p + str(i) for i, p in reversed(ops))!r}, {c})")
        return terms, ' + '.join(text)

    def query(self):
        rng = self.rng
        kind = rng.choice(['prob', 'prob', 'amp', 'amp', 'exp', 'op', 'set', 'collapse'])
        live = len(self.v.order)
        if kind == 'prob':
            a = self.pick(rng.randint(1, live))
            b, t = self.bits(len(a))
            self.show(f'sim.get_probability({t}, {self.qs(a)})', self.v.probability(b, a))
        elif kind == 'amp':
            a = self.pick(live)
            b, t = self.bits(live)
            self.show(f'sim.get_amplitude({t}, {self.qs(a)})', self.v.amplitude(b, a))
        elif kind == 'exp':
            a = self.pick(rng.randint(1, live))
            o, t = self.operator(len(a))
            self.show(f'sim.get_expectation_value({t}, {self.qs(a)})', self.v.expectation(o, a))
        elif kind == 'op':
            a = self.pick(rng.randint(1, live))
            o, t = self.operator(len(a))
            self.lines.append(f'sim.apply_qubit_operator({t}, {self.qs(a)})')
            self.v.operator(o, a)
        elif kind == 'set':
            a = self.pick(live)
            amp = [rng.choice([0, 1, 2, -1, 1j]) for _ in range(2 ** live)]
            self.lines.append(f'sim.set_wavefunction({amp}, {self.qs(a)})')
            self.v.set(amp, a)
        else:
            a = self.pick(rng.randint(1, live))
            full = rng.choice([i for i, x in enumerate(self.v.amp) if x] or [None])
            if full is None:
                return
            b = [self.v.bit(full, q) for q in a]
            self.lines.append(f'sim.collapse_wavefunction({self.qs(a)}, {b if rng.random() < .5 else repr("".join(map(str, b)))})')
            self.v.collapse(a, b)

    def release(self):
        a = self.pick(1)[0]
        full = self.rng.choice([i for i, x in enumerate(self.v.amp) if x] or [None])
        if full is None:
            return
        b = self.v.bit(full, a)
        self.lines.append(f'sim.collapse_wavefunction([q{a}], [{b}])')
        self.v.collapse([a], [b])
        if self.rng.random() < .5:
            self.lines.append('eng.flush()')
        self.lines.append(f'q{a}.__del__()')
        self.v.release(a)

    def full(self):
        a = self.pick(len(self.v.order))
        for k in range(2 ** len(a)):
            b = [k >> i & 1 for i in range(len(a))]
            self.show(f'sim.get_amplitude({b}, {self.qs(a)})', self.v.amplitude(b, a))


def judge_values(want):
    def judge(C, st, probes):
        got = {}
        for p in probes:
            a = [plain(x) for x in p[1]]
            if isinstance(a[0], int) and not isinstance(a[0], bool):
                got[a[0]] = p
        if sorted(got) != list(range(len(want))):
            return '? queries are missing'
        for k, w in enumerate(want):
            x = number(got[k][3].args[1])
            if x is None:
                return f'? query {k} gives {got[k][1][1]}'
            if not close(x, w):
                return f'query {k + 1} gives {x}, the state of the logical qubits has {w} ({", ".join(map(str, st.notes)) if hasattr(st, "notes") else "see replay"})'
        return None
    return judge


def engines(rng, n):
    k = rng.randint(0, 2)
    if k == 0:
        return '[]'
    perm = list(range(n + 3))
    rng.shuffle(perm)
    if k == 1:
        return f'[PermutingMapper({dict(enumerate(perm))})]'
    return f'[LinearMapper({n + rng.randint(0, 1)}, cyclic={rng.random() < .5})]'


def values(chk):
    for k in range(1000 if chk.thorough else 250):
        rng = random.Random(f'values{k}')
        P = Prog(rng)
        for _ in range(rng.randint(2, 3)):
            P.alloc()
        eng = engines(rng, 5)
        linear = 'Linear' in eng
        for _ in range(rng.randint(6, 12)):
            r = rng.random()
            if r < .55 or not P.v.order:
                if not P.v.order:
                    P.alloc()
                P.gate() if not linear else two(P)
            elif r < .65 and len(P.v.order) < 4 and P.n < 5:
                P.alloc()
            elif r < .73 and len(P.v.order) > 1:
                P.lines.append('eng.flush()')
                P.release()
            elif r < .8 and not linear:
                P.math()
            else:
                P.lines.append('eng.flush()')
                P.query()
                if not any(P.v.amp):
                    break
        P.lines.append('eng.flush()')
        P.full()
        body = '\n    '.join(P.lines)
        src = f'''
def client():
    sim = Simulator(gate_fusion={k % 2 == 1})
    eng = MainEngine(backend=sim, engine_list={eng}, verbose=True)
    {body}
'''
        client(chk, 'values', f'program {k}: {"; ".join(P.lines)} behind {eng}', src, PYSIM, judge_values(P.want), 'Simulator')


def two(P):
    """A gate a linear mapper accepts."""
    while True:
        rng = P.rng
        a = P.pick(min(2, len(P.v.order)))
        if len(a) == 2 and rng.random() < .6:
            m = P.matrix(4)
            P.lines.append(f'MatrixGate({m}) | (q{a[0]}, q{a[1]})')
            return P.v.apply(m, a)
        m = P.matrix(2)
        P.lines.append(f'MatrixGate({m}) | q{a[0]}')
        return P.v.apply(m, a[:1])


def unitary(chk):
    for k in range(200 if chk.thorough else 48):
        rng = random.Random(f'unitary{k}')
        P = Prog(rng)
        n = rng.randint(1, 3)
        cols = [Vector() for _ in range(2 ** n)]
        for _ in range(n):
            P.alloc()
        for i, c in enumerate(cols):
            c.set([int(i == j) for j in range(2 ** n)], range(n))
        for _ in range(rng.randint(2, 5)):
            if n < 3 and rng.random() < .25:
                P.alloc()
                n += 1
                for c in cols:
                    c.allocate(n - 1)
                ups = [c.copy() for c in cols]
                for c in ups:
                    c.apply(X, [n - 1])
                cols += ups
            log = []
            P.v.apply = lambda m, a, c=(), log=log: log.append((m, a, c))
            P.gate()
            for m, a, c in log:
                for col in cols:
                    col.apply(m, a, c)
        P.lines.append('eng.flush()')
        for i in range(2 ** n):
            for j in range(2 ** n):
                P.show(f'sim.unitary[{i}][{j}]', cols[j].amp[i])
        body = '\n    '.join(P.lines)
        src = f'''
def client():
    sim = UnitarySimulator()
    eng = MainEngine(backend=sim, engine_list=[], verbose=True)
    {body}
'''
        client(chk, 'unitary', f'program {k}: {"; ".join(P.lines[:-4 ** n])}', src, ('networkx', 'random', 'numpy'), judge_values(P.want), 'UnitarySimulator')


def classical(chk):
    for k in range(800 if chk.thorough else 200):
        rng = random.Random(f'classical{k}')
        P = Prog(rng)
        for _ in range(rng.randint(2, 5)):
            P.alloc()
        perm = list(range(9))
        rng.shuffle(perm)
        eng = ['[]', f'[PermutingMapper({dict(enumerate(perm))})]', f'[LinearMapper(8, cyclic={k % 2 == 0}), SwapSplitter()]'][k % 3]
        for _ in range(rng.randint(6, 14)):
            step(P, rng, 'Linear' in eng)
        P.lines.append('eng.flush()')
        for q in P.v.order:
            P.show(f'sim.read_bit(q{q})', value(P, [q]))
        body = '\n    '.join(P.lines)
        src = SPLIT + f'''
def client():
    sim = ClassicalSimulator()
    eng = MainEngine(backend=sim, engine_list={eng}, verbose=True)
    {body}
'''
        client(chk, 'classical', f'program {k}: {"; ".join(P.lines)} behind {eng}', src, ('networkx', 'random'), judge_values(P.want), 'ClassicalSimulator')


def value(P, reg):
    i = P.v.amp.index(1)
    return sum(P.v.bit(i, q) << k for k, q in enumerate(reg))


def step(P, rng, linear):
    live = len(P.v.order)
    if live < 2:
        return P.alloc()
    kind = rng.choice(['x', 'cx', 'ccx', 'math', 'alloc', 'free', 'rb', 'wb', 'rr', 'wr', 'wr', 'bad', 'measure'])
    if kind in ('rb', 'wb', 'rr', 'wr', 'bad'):
        P.lines.append('eng.flush()')
    if kind == 'x' or kind == 'ccx' and live < 3 or linear and kind in ('ccx', 'math'):
        a = P.pick(1)
        P.lines.append(f'X | q{a[0]}')
        P.v.apply(X, a)
    elif kind == 'cx':
        a = P.pick(2)
        P.lines.append(f'CNOT | (q{a[0]}, q{a[1]})')
        P.v.apply(X, a[1:], a[:1])
    elif kind == 'ccx':
        a = P.pick(3)
        P.lines.append(f'Toffoli | (q{a[0]}, q{a[1]}, q{a[2]})')
        P.v.apply(X, a[2:], a[:2])
    elif kind == 'math':
        P.math()
    elif kind == 'alloc' and P.n < 8:
        P.alloc()
    elif kind == 'free':
        a = P.pick(1)[0]
        P.lines.append(f'q{a}.__del__()')
        P.v.release(a)
    elif kind == 'rb':
        a = P.pick(1)
        P.show(f'sim.read_bit(q{a[0]})', value(P, a))
    elif kind == 'wb':
        a, b = P.pick(1)[0], rng.randint(0, 1)
        P.lines.append(f'sim.write_bit(q{a}, {b})')
        if value(P, [a]) != b:
            P.v.apply(X, [a])
    elif kind == 'rr':
        a = P.pick(rng.randint(1, live))
        P.show(f'sim.read_register({P.qs(a)})', value(P, a))
    elif kind == 'wr':
        a = P.pick(rng.randint(1, live))
        w = rng.randrange(2 ** len(a))
        P.lines.append(f'sim.write_register({P.qs(a)}, {w})')
        for i, q in enumerate(a):
            if value(P, [q]) != w >> i & 1:
                P.v.apply(X, [q])
    elif kind == 'bad':
        a = P.pick(rng.randint(1, live))
        w = rng.choice([2 ** len(a), -1, 2 ** len(a) + 1])
        P.lines.append(f'try:\n        sim.write_register({P.qs(a)}, {w})\n        probe({len(P.want)}, 1)\n    except ValueError:\n        probe({len(P.want)}, 0)')
        P.want.append(0)
    elif kind == 'measure':
        a = P.pick(1)
        P.lines.append(f'Measure | q{a[0]}')
        P.lines.append('eng.flush()')
        P.show(f'int(q{a[0]})', value(P, a))
