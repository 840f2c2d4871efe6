"""The shipped compiler setups, single commands sent through them, and what of each arrives at the backend."""
from . import composite, decsem, hwsem
from .alg import Circuit, Gates, Unreadable, zero
from .client import Client, clean
from .model import AnalysisError
from .values import Exc, K, T

HEAD = decsem.HEAD + '''
import projectq.setups
from projectq.ops._basics import BasicMathGate, BasicRotationGate, SelfInverseGate
from projectq.setups import default, grid, linear, restrictedgateset, trapped_ion_decomposer


class Strict(Recorder):
    """A backend which, like the simulators and the devices, has no negative controls."""

    def is_available(self, cmd):
        return '0' not in cmd.control_state


class Library(Recorder):
    """A backend which takes the gates of a small machine only."""

    def is_available(self, cmd):
        g = cmd.gate
        n = len(cmd.control_qubits)
        if g in (Allocate, Deallocate, Measure) or isinstance(g, FlushGate):
            return True
        if '0' in cmd.control_state:
            return False
        return n == 0 and isinstance(g, (Rx, Ry, Rz, HGate)) or n == 1 and isinstance(g, XGate)

'''
DEVICE_HEAD = HEAD + hwsem.HEAD[len(hwsem.PRELUDE):] + '''
from projectq.setups import aqt, awsbraket, ibm, ionq


class Chips(IBMService):
    def answer(self, how, url, kw, session):
        if url.endswith('devices/v/1'):
            return Response([
                {'backend_name': 'ibmqx4', 'n_qubits': 5, 'coupling_map': [[1, 0], [2, 0], [2, 1], [3, 2], [3, 4], [2, 4]], 'backend_version': '1'},
                {'backend_name': 'ibmq_16_melbourne', 'n_qubits': 15, 'backend_version': '1',
                 'coupling_map': [[1, 0], [1, 2], [2, 3], [4, 3], [4, 10], [5, 4], [5, 6], [5, 9], [6, 8], [7, 8], [9, 8], [9, 10], [11, 3], [11, 10], [11, 12], [12, 2], [13, 1], [13, 12],
                                  [0, 14], [14, 13], [2, 12], [0, 1], [6, 7], [7, 8], [8, 9], [0, 15], [15, 14], [1, 14], [3, 12], [4, 11], [5, 10], [7, 9]]},
                {'backend_name': 'ibmq_qasm_simulator', 'n_qubits': 12, 'coupling_map': [], 'backend_version': '1'}])
        return super().answer(how, url, kw, session)


class IBMSpy(IBMBackend):
    def receive(self, command_list):
        for cmd in command_list:
            probe('available', isinstance(cmd.gate, FlushGate) or self.is_available(cmd), cmd)
        Recorder.receive(self, command_list)


class AQTSpy(AQTBackend):
    def receive(self, command_list):
        for cmd in command_list:
            probe('available', isinstance(cmd.gate, FlushGate) or self.is_available(cmd), cmd)
        Recorder.receive(self, command_list)


class IonQSpy(IonQBackend):
    def receive(self, command_list):
        for cmd in command_list:
            probe('available', isinstance(cmd.gate, FlushGate) or self.is_available(cmd), cmd)
        Recorder.receive(self, command_list)


class AWSSpy(AWSBraketBackend):
    def receive(self, command_list):
        for cmd in command_list:
            probe('available', isinstance(cmd.gate, FlushGate) or self.is_available(cmd), cmd)
        Recorder.receive(self, command_list)

'''
# what a declared gate means: class, number of controls (None: any); inner class of an inverse
INST = {'X': 'XGate', 'Y': 'YGate', 'Z': 'ZGate', 'H': 'HGate', 'S': 'SGate', 'T': 'TGate', 'Sdag': ('DaggeredGate', 'SGate'), 'Tdag': ('DaggeredGate', 'TGate'),
        'SqrtX': 'SqrtXGate', 'Swap': 'SwapGate', 'QFT': 'QFTGate', 'Barrier': 'BarrierGate', 'CNOT': ('XGate', 1), 'C(Z)': ('ZGate', 1), 'C(Y)': ('YGate', 1), 'C(X, 2)': ('XGate', 2),
        'C(Swap)': ('SwapGate', 1), 'SqrtSwap': 'SqrtSwapGate'}


class Setup:
    def __init__(self, name, expr, one='any', two=('CNOT',), other=(), width=4, backend='Strict()', where='restrictedgateset', single=False, device=False):
        self.name, self.one, self.two, self.other, self.width, self.backend = name, one, two, other, width, backend
        self.expr, self.where, self.single, self.device = expr, where, single, device

    def declared(self, G, g, targets, ctrl):
        """Has the user (or the setup) declared this gate?"""
        n = len(targets) + len(ctrl)
        names = G.classes(g)
        if 'ClassicalInstructionGate' in names:
            return True
        if any(not b for _, b in ctrl):
            return False
        if self.one == 'any' and n == 1 or self.two == 'any' and n == 2:
            return True

        def is_(entry, size):
            if entry not in INST:
                return size in (None, n) and entry in names
            e = INST[entry]
            cls, extra = e if isinstance(e, tuple) else (e, 0)
            if size not in (None, n):
                return False
            if isinstance(extra, str):
                return names[0] == cls and G.name(G.attr(g, '_gate')) == extra and (size == 1 or not ctrl)
            return names[0] == cls and (len(ctrl) == extra or size == 1)
        return self.one != 'any' and any(is_(x, 1) for x in self.one) or self.two != 'any' and any(is_(x, 2) for x in self.two) or any(is_(x, None) for x in self.other)


def tup(xs):
    return repr(xs) if isinstance(xs, str) else '(' + ''.join(x + ', ' for x in xs) + ')'


def restricted(one='any', two=('CNOT',), other=(), **kw):
    name = f'restrictedgateset({tup(one)}, {tup(two)}, {tup(other)})'
    return Setup(name, f'restrictedgateset.get_engine_list(one_qubit_gates={tup(one)}, two_qubit_gates={tup(two)}, other_gates={tup(other)})', one, two, other, **kw)


def mapped(kind, size, one='any', two=('CNOT', 'Swap'), width=3, **kw):
    name = f'{kind}({size}, {tup(one)}, {tup(two)})'
    return Setup(name, f'{kind}.get_engine_list({size}, one_qubit_gates={tup(one)}, two_qubit_gates={tup(two)})', one, two, (), width, where='_utils', **kw)


def catalogue(thorough):
    out = [
        restricted(), restricted(backend='Recorder()'), restricted('any', 'any'), restricted(('Rz', 'Ry', 'Rx', 'H'), ('CNOT',)), restricted(('Rz', 'H'), ('CNOT',)),
        restricted(('Rz', 'Rx'), ('CNOT', 'C(Z)')), restricted(('Rz', 'Ry', 'H', 'X', 'S'), ('CNOT', 'Swap')), restricted('any', ('CNOT', 'C(Z)', 'Swap', 'R')),
        restricted(('Rz', 'Ry', 'Rx', 'H', 'Sdag', 'Ph'), ('CNOT', 'Rz'), ('QFT',)), restricted('any', ('CNOT',), ('C(X, 2)', 'TimeEvolution')),
        restricted(('BasicRotationGate', 'H'), ('CNOT',), ('AddConstant', 'Barrier')), restricted(('Rx', 'Ry', 'Rz', 'H'), ('CNOT', 'Rxx'), ('C(Swap)', 'Rzz')),
        Setup('trapped_ion_decomposer', 'trapped_ion_decomposer.get_engine_list()', ('Rx', 'Ry'), ('Rxx',), where='trapped_ion_decomposer'),
        Setup('default', 'default.get_engine_list()', where='default', backend='Library()', one=('Rx', 'Ry', 'Rz', 'H'), two=('CNOT',)),
        mapped('linear', '4'), mapped('linear', '4', ('Rz', 'Ry', 'Rx', 'H'), ('CNOT',)), mapped('linear', '4, cyclic=True', ('Rz', 'H'), ('CNOT', 'Rz')),
        mapped('grid', '2, 2', ('Rz', 'Ry', 'Rx', 'H'), ('CNOT',)), mapped('grid', '2, 2', 'any', 'any'), mapped('grid', '2, 2', ('Rz', 'Rx', 'X'), ('CNOT', 'Swap')),
    ]
    cred = "credentials={'AWS_ACCESS_KEY_ID': 'i', 'AWS_SECRET_KEY': 'k'}"
    full = ('H', 'Rx', 'Ry', 'Rz', 'S', 'Sdag', 'T', 'Tdag', 'X', 'Y', 'Z')
    for chip, one, back in (('SV1', full + ('R', 'SqrtX'), ''), ('Aspen-8', full + ('R',), 'use_hardware=True, '), ('IonQ Device', full + ('SqrtX',), 'use_hardware=True, ')):
        out.append(Setup(f'awsbraket {chip}', f"awsbraket.get_engine_list({cred}, device='{chip}')", one, ('CNOT', 'Swap'), ('Barrier',), 3,
                         f"AWSSpy({back}{cred}, s3_folder=['a', 'b'], device='{chip}')", 'awsbraket', device='AWSService()'))
    out.append(Setup('aqt', "aqt.get_engine_list(token='t', device='aqt_simulator')", ('Rx', 'Ry'), ('Rxx',), ('Barrier',), 4, "AQTSpy(token='t', device='aqt_simulator')", 'aqt', device='AQTService()'))
    out.append(Setup('ionq', "ionq.get_engine_list(token='t', device='ionq_qpu')", full + ('SqrtX',), ('Swap', 'Rxx', 'Ryy', 'Rzz'), ('Barrier',), 4,
                     "IonQSpy(token='t', device='ionq_qpu')", 'ionq', device='IonQService()'))
    for chip in ('ibmqx4', 'ibmq_16_melbourne', 'ibmq_qasm_simulator'):
        out.append(Setup(f'ibm {chip}', f"ibm.get_engine_list(token='t', device='{chip}')", ('Rx', 'Ry', 'Rz', 'H'), ('CNOT',), ('Barrier',), 3,
                         f"IBMSpy(token='t', device='{chip}')", 'ibm', single=chip == 'ibmqx4', device='Chips()'))
    return out


ONE = ['X', 'Y', 'Z', 'H', 'S', 'T', 'Sdag', 'Tdag', 'SqrtX', 'get_inverse(SqrtX)', 'Rx(0.3)', 'Ry(4.1)', 'Rz(0.7)', 'R(2.3)', 'Ph(1.1)']
TWO = ['Swap', 'SqrtSwap', 'Rxx(0.4)', 'Ryy(1.9)', 'Rzz(2.2)']
MORE = [('QFT', [2]), ('get_inverse(QFT)', [3]), ('TimeEvolution(0.4, QubitOperator("X0 Y1"))', [2]), ('TimeEvolution(0.7, QubitOperator("X0 Y1 Z2"))', [3]), ('QubitOperator("X0 Z1")', [2]),
        ('UniformlyControlledRz([0.2, 0.9])', [1, 1]), ('AddConstant(1)', [2]), ('Entangle', [3])]


FULL = ("restrictedgateset('any', (CNOT, ), ())", 'restrictedgateset((Rz, Ry, Rx, H, ), (CNOT, ), ())', 'default')


def commands(setup, thorough):
    """(gate, register sizes, [control states])."""
    mapper = setup.where in ('_utils', 'ibm')
    light = setup.device and not thorough
    for g in ONE:
        if light and g not in ('X', 'H', 'Sdag', 'Rz(0.7)', 'SqrtX', 'R(2.3)') or setup.name == 'ibm ibmq_16_melbourne' and g not in ('X', 'H'):
            continue
        two = thorough or setup.name in FULL or not light and g in ('X', 'H', 'Rz(0.7)') and not setup.name.startswith('grid')
        yield g, [1], ['', '1'] + ['0'] * (not light or g == 'X') + ['11'] * two
    for g in TWO:
        if g.startswith('R') and g[:3] not in tuple(setup.two) + setup.other:
            continue
        yield g, [1, 1], ['', '1'] if not mapper and g[0] != 'R' and not light else ['']
    for g, sizes in MORE:
        if not thorough and (mapper and g.split('(')[0] in ('AddConstant', 'TimeEvolution') or g.startswith('AddConstant') and 'AddConstant' not in setup.other):
            continue
        if light and g not in ('QFT', 'TimeEvolution(0.4, QubitOperator("X0 Y1"))', 'Entangle'):
            continue
        yield g, sizes, ['']
    if not light:
        yield 'X', [1], ['10'] if mapper else ['10', '00', '111'] if setup.name in FULL or thorough else ['10', '111']
    if 'Barrier' in setup.other:
        yield 'Barrier', [2], ['']


SRC = '''
def client():
    service = %(service)s
    backend = %(backend)s
    eng = MainEngine(backend=backend, engine_list=%(setup)s, verbose=True)
    q = eng.allocate_qureg(%(width)d)
    %(flush)s
    probe('map', None if eng.mapper is None or eng.mapper.current_mapping is None else [(i, p) for i, p in eng.mapper.current_mapping.items()])
    for program in %(programs)s:
        commands = []
        for gate, ctrl, state, targets in program:
            cmd = Command(eng, gate, tuple([[q[i] for i in t] for t in targets]))
            if ctrl:
                cmd.add_control_qubits([q[i] for i in ctrl], state)
            probe('todo', cmd)
            commands.append(cmd)
        probe('start', commands[0])
        for cmd in commands:
            eng.receive([cmd])
        eng.flush()
        probe('end')
        probe('map', None if eng.mapper is None or eng.mapper.current_mapping is None else [(i, p) for i, p in eng.mapper.current_mapping.items()])
'''
PROGRAMS = [
    [('H', [], '', [[0]]), ('X', [0], '1', [[1]]), ('X', [1], '1', [[2]]), ('Rx(0.4)', [], '', [[1]]), ('X', [0], '1', [[2]]), ('X', [2], '1', [[0]]), ('Rz(0.7)', [], '', [[2]]),
     ('Swap', [], '', [[0], [2]]), ('X', [1], '1', [[0]])],
    [('H', [], '', [[1]]), ('H', [], '', [[1]]), ('Rz(0.2)', [], '', [[0]]), ('X', [0], '0', [[2]]), ('Rz(0.5)', [], '', [[0]]), ('X', [0], '0', [[2]]), ('T', [], '', [[2]]),
     ('X', [1], '1', [[2]]), ('Rx(0.1)', [], '', [[2]]), ('X', [1], '1', [[2]]), ('Tdag', [], '', [[2]]), ('Rz(1.3)', [1], '1', [[0]])],
    [('X', [2], '1', [[0]]), ('Ry(0.9)', [], '', [[0]]), ('Ph(0.3)', [2], '1', [[1]]), ('X', [0], '1', [[2]]), ('S', [], '', [[2]]), ('X', [2], '1', [[0]]), ('H', [], '', [[1]])],
]
WIDE = [
    [('X', [0], '1', [[3]]), ('H', [], '', [[3]]), ('X', [1], '1', [[2]]), ('X', [3], '1', [[1]]), ('X', [0], '1', [[1]]), ('Rz(0.3)', [], '', [[1]]), ('X', [2], '1', [[0]]),
     ('Swap', [], '', [[1], [3]]), ('X', [2], '1', [[3]]), ('X', [0], '1', [[2]])],
]
SMALL = [[('H', [], '', [[0]]), ('X', [0], '1', [[1]]), ('X', [0], '1', [[2]]), ('Rz(0.4)', [], '', [[0]]), ('X', [2], '1', [[0]]), ('X', [0], '1', [[1]])]]


def programs(setup):
    if setup.single:
        return SMALL
    return PROGRAMS + (WIDE if setup.width == 4 or setup.where == '_utils' else [])


def single(gate, uses):
    return [[(gate, *u)] for u in uses]


def text(ps):
    return '[' + ', '.join('[' + ', '.join(f'({g}, {c}, {s!r}, {t})' for g, c, s, t in p) + ']' for p in ps) + ']'


def uses_of(setup, sizes, states):
    n = sum(sizes)
    order = [2, 0, 3, 1][:setup.width] if setup.width != 3 else [2, 0, 1]
    out = []
    for s in states:
        if n + len(s) <= setup.width:
            o = order if len(out) % 2 == 0 else order[::-1]
            regs, p = [], 0
            for k in sizes:
                regs.append(o[p:p + k])
                p += k
            out.append((o[n:n + len(s)], s, regs))
    return out


def send(chk, setup, programs, judge, src=SRC, **more):
    """[what judge says of each program] or the reason why it cannot be told."""
    width = max(4, setup.width) if any(3 in t or 3 in c for p in programs for _, c, _, r in p for t in r) else setup.width
    src = src % {'backend': setup.backend, 'setup': setup.expr, 'width': width, 'programs': text(programs), 'service': setup.device or None, 'flush': 'pass' if setup.single else 'eng.flush()', **more}
    head, stubs = (DEVICE_HEAD, tuple(dict.fromkeys(decsem.STUBS + hwsem.STUBS))) if setup.device else (HEAD, decsem.STUBS)
    C = Client(chk.prog, src, prelude=head + getattr(setup, 'head', ''), stubs=stubs, floats=True, max_paths=300, budget=4000000, refcount=True)
    try:
        outs = C.run('client')
        chk.saw(C.I, outs)
        res = []
        for st, v in outs:
            ss = decsem.steps(st)
            if ss is None or not all(clean(f) for f in st.facts):
                return 'depends on an unknown condition or loops without bound'
            G = Gates(C, st)
            todo = [(x[2][1], x[1][1]) for x in ss[1] if x[2][0].v == 'todo']
            maps = [mapping(x[1][1]) for x in ss[1] if x[2][0].v == 'map']
            if setup.single:
                maps[0] = maps[-1]
            refused = [x for x in ss[1] if x[2][0].v == 'available' and x[2][1] == K(False)]
            if not ss[0]:
                return f'raises {v.name} before the first command' if isinstance(v, Exc) else 'nothing sent'
            for i, s in enumerate(ss[0]):
                s.program = programs[i]
                s.width, s.todo, todo = width, todo[:len(programs[i])], todo[len(programs[i]):]
                if not s.done:
                    res.append([('compiles', f'raises {v.name}', v.loc)] if isinstance(v, Exc) else None)
                else:
                    res.append(judge(setup, G, s, maps[i], maps[i + 1]))
            if refused:
                res.append([('device', f'{C.short(refused[0][1][2])} reaches a device which cannot execute it', refused[0][3].loc)])
        return res
    except (AnalysisError, Unreadable) as e:
        return f'{type(e).__name__}: {e}'
    finally:
        C.close()


def mapping(v):
    """{logical: physical} of a probed list of pairs."""
    if isinstance(v, K) and v.v is None:
        return None
    if not isinstance(v, tuple) or v[0] != 'list':
        raise Unreadable(f'mapping {v}')
    out = {}
    for p in v[1:]:
        if isinstance(p, K) and isinstance(p.v, tuple) and len(p.v) == 2:
            a, b = p.v
        elif isinstance(p, tuple) and len(p) > 2 or isinstance(p, T) and len(p.args) == 2:
            a, b = (p if isinstance(p, tuple) else p.args)[-2:]
            a, b = a.v, b.v
        else:
            raise Unreadable(f'mapping {p}')
        out[a] = b
    return out


def place(m, q):
    if m is None:
        return q
    if q not in m:
        raise Unreadable(f'qubit {q} has no place')
    return m[q]


def signature(G, g):
    """What distinguishes gates of the library."""
    n = G.name(g)
    sig = G.C.S.sig(G.st, g)
    return n, str([x for x in sig[1] if x[0] not in ('interchangeable_qubit_indices', 'matrix', '_matrix')]) if isinstance(sig, tuple) and len(sig) == 2 else str(sig)


def filtered(setup, G, step, before, after):
    """Rules 'declared' and 'kept'."""
    out = []
    gates = []
    for cmd, p, loc in step.out:
        regs, ctrl = decsem.parts(p)
        g, _ = G.C.S.getattr(G.st, cmd, 'gate')
        targets = [q for r in regs for q in r]
        if G.name(g) in ('FlushGate', 'AllocateQubitGate', 'DeallocateQubitGate'):
            continue
        gates.append((g, regs, ctrl))
        if not setup.declared(G, g, targets, ctrl):
            out.append(('declared', f'{show(G, g, targets, ctrl)} reaches the backend although it is not in the declared gate set', loc))
            break
    if setup.backend != 'Library()' and len(step.todo) == 1:
        regs, ctrl = decsem.parts(step.parts)
        g, _ = G.C.S.getattr(G.st, step.cmd, 'gate')
        targets = [q for r in regs for q in r]
        if setup.declared(G, g, targets, ctrl) and keeps(setup, targets, ctrl):
            want = (signature(G, g), [[place(after, q) for q in r] for r in regs], sorted((place(after, q), b) for q, b in ctrl))
            got = [(signature(G, a), r, sorted(c)) for a, r, c in gates if G.name(a) != 'SwapGate' or G.name(g) == 'SwapGate' or after is None]
            if got != [want]:
                out.append(('kept', f'{show(G, g, targets, ctrl)} is declared but becomes {[show(G, a, [q for x in r for q in x], c) for a, r, c in gates][:4]}', step.loc))
    return out


def keeps(setup, targets, ctrl):
    return setup.where not in ('_utils', 'ibm') or len(targets) + len(ctrl) == 1


def show(G, g, targets, ctrl):
    n = G.name(g)
    if n == 'DaggeredGate':
        n = f'inverse of {G.name(G.attr(g, "_gate"))}'
    return n + f' on {targets}' + (' controlled by ' + ', '.join(f'{q}={int(b)}' for q, b in ctrl) if ctrl else '')


def faithful(setup, G, step, before, after):
    """Rule 'faithful': the emitted commands mean the command."""
    logical = list(range(step.width))
    start = [place(before, q) for q in logical]
    circ = Circuit(start)
    vec = decsem.generic(circ, start)
    if setup.single:  # the qubits are allocated together with the command
        step.out = [x for x in step.out if not (G.name(G.C.S.getattr(G.st, x[0], 'gate')[0]) == 'AllocateQubitGate' and decsem.parts(x[1])[0][0][0] in start)]
    got = decsem.run_step(G, step, [vec], circ)[0]
    if circ.dirty is not None:
        return [('faithful', f'ancilla {circ.dirty} is given back in superposition or not in state zero', step.loc)]
    end = [place(after, q) for q in logical]
    if sorted(circ.q) != sorted(end):
        return [('faithful', f'qubits {sorted(circ.q)} are in use instead of {sorted(end)}', step.loc)]
    ref = Circuit(logical)
    want = dict(vec)
    for (cmd, _), (_, controls, state, regs) in zip(step.todo, step.program):
        ctrl = [(q, c == '1') for q, c in zip(controls, state)]
        want = composite.apply(G, ref, G.C.S.getattr(G.st, cmd, 'gate')[0], regs, ctrl, want)
    bits = [circ.bit(q) for q in end]
    got = {sum(1 << j for j, b in enumerate(bits) if i & b): a for i, a in got.items() if not zero(a)}
    i = decsem.compare(got, want, True)
    if i is not None:
        return [('faithful', f'{', '.join(show_cmd(G, x) for x in step.todo[:8])} is compiled to something else: '
                 + '; '.join(show_cmd(G, x) for x in step.out[:8]) + (' ...' if len(step.out) > 8 else ''), step.loc)]
    return []


def show_cmd(G, x):
    regs, ctrl = decsem.parts(x[1])
    g, _ = G.C.S.getattr(G.st, x[0], 'gate')
    return show(G, g, [q for r in regs for q in r], ctrl)
