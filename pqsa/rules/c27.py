"""C27: independent objects share no mutable state."""
import ast
import re

from .. import decsem, hwsem, shared
from ..client import PRELUDE, Client, clean
from ..hwsem import DEVICES, backend
from ..core import MUTATORS
from ..values import Exc, K

PARALLEL = True
TECHNIQUE = ('effect analysis on the abstract heap (no path of a public operation writes a module, a class, a module-level object or a default argument), alias analysis of separately built objects, and '
             'comparison of what a compiler sends with and without another compiler used before, in between and around it')
STUBS = ('networkx', 'random', 'numpy', 'projectq.backends._sim._cppsim=_pysim_alias')
HEAD = PRELUDE + '''
import projectq
import projectq.libs.math
import projectq.setups.default
import projectq.setups.decompositions
import projectq.setups.grid
import projectq.setups.linear
import projectq.setups.restrictedgateset
import projectq.setups.trapped_ion_decomposer
from projectq.backends import *
from projectq.backends._ionq._ionq_mapper import BoundedQubitMapper


class Named(Recorder):
    name = None


class World:
    """A compiler and the registers of its program."""

    def __init__(self, name, how):
        self.name = name
        backend, engines = how(name)
        self.backend = backend
        self.eng = MainEngine(backend=backend, engine_list=engines, verbose=True)

    def tell(self, *args):
        probe(self.name, *args)


def recorder(name):
    b = Named()
    b.name = name
    return b


class NamedLoop(Named):
    def is_meta_tag_handler(self, tag):
        return tag == LoopTag


class NamedDirty(Named):
    def is_meta_tag_handler(self, tag):
        return tag == DirtyQubitTag


def loop_recorder(name):
    b = NamedLoop()
    b.name = name
    return b


def dirty_recorder(name):
    b = NamedDirty()
    b.name = name
    return b


def few(eng, cmd):
    return eng.next_engine is None or not isinstance(cmd.gate, UserGate)


def mark(cmd):
    cmd.tags = cmd.tags + [LoopTag(7)]
    return cmd


def reverse(i):
    return 5 - i


def triple(eng, cmd):
    return not isinstance(cmd.gate, (SwapGate, Rx)) and len(cmd.all_qubits[0]) < 3


'''
STEPS = {
    'gates': '''
def {p}0(w):
    w.q = w.eng.allocate_qureg(3)
    H | w.q[0]
    X | w.q[{i}]


def {p}1(w):
    CNOT | (w.q[{i}], w.q[0])
    Rz(0.25) | w.q[1]
    Rz({a}) | w.q[1]
    Tdag | w.q[0]


def {p}2(w):
    w.a = w.eng.allocate_qubit()
    CNOT | (w.q[1], w.a)
    S | w.a
    Swap | (w.a, w.q[0])
    w.eng.flush()


def {p}3(w):
    T | w.q[0]
    H | w.a
    Measure | w.a
    w.eng.flush()
    All(Measure) | w.q
    w.eng.flush()
    w.eng.flush(deallocate_qubits=True)
''',
    'meta': '''
def {p}0(w):
    w.q = w.eng.allocate_qureg(3)
    with Control(w.eng, w.q[0]):
        X | w.q[{i}]
        with Dagger(w.eng):
            S | w.q[{i}]
            Rz({a}) | w.q[{i}]


def {p}1(w):
    with Loop(w.eng, {n}):
        H | w.q[1]
        UserGate({n}) | w.q[2]
        CNOT | (w.q[0], w.q[1])


def {p}2(w):
    with Compute(w.eng):
        All(H) | w.q
        b = w.eng.allocate_qubit()
        CNOT | (w.q[{i}], b)
    Z | w.q[1]
    Uncompute(w.eng)


def {p}3(w):
    with Control(w.eng, w.q[:2], ctrl_state='{s}'):
        with Compute(w.eng):
            X | w.q[2]
        with CustomUncompute(w.eng):
            Y | w.q[2]
    w.eng.flush()
    All(Measure) | w.q
    w.eng.flush()
    del w.q
''',
    'math': '''
def {p}0(w):
    w.q = w.eng.allocate_qureg(3)
    X | w.q[{i}]
    projectq.libs.math.AddConstant({n}) | w.q


def {p}1(w):
    with Control(w.eng, w.q[0]):
        X | w.q[1]
    projectq.libs.math.SubConstant(1) | w.q[:2]


def {p}2(w):
    QFT | w.q[1:]
    get_inverse(QFT) | w.q[1:]
    C(X, 2) | (w.q[:2], w.q[2])
    w.eng.flush()


def {p}3(w):
    All(Measure) | w.q
    w.eng.flush()
''',
    'twoq': '''
def {p}0(w):
    w.q = w.eng.allocate_qureg(3)
    X | w.q[{i}]
    H | w.q[0]


def {p}1(w):
    CNOT | (w.q[0], w.q[1])
    CNOT | (w.q[0], w.q[1])
    CNOT | (w.q[{i}], w.q[0])


def {p}2(w):
    w.eng.flush()
    CNOT | (w.q[0], w.q[2])
    w.a = w.eng.allocate_qubit()
    CNOT | (w.q[2], w.a)
    w.eng.flush()


def {p}3(w):
    Measure | w.a
    All(Measure) | w.q
    w.eng.flush(deallocate_qubits=True)
''',
}
LEFT = {'p': 'left', 'i': 2, 'a': '1.5', 'n': 3, 's': '01'}
RIGHT = {'p': 'right', 'i': 1, 'a': '0.5', 'n': 2, 's': '10'}
# kind -> (backend, engines, programs)
KINDS = {
    'no engine': ('recorder(name)', '[]', ('gates', 'meta', 'twoq')),
    'LocalOptimizer': ('recorder(name)', '[LocalOptimizer(cache_size=4)]', ('gates', 'meta', 'twoq')),
    'loop handler': ('loop_recorder(name)', '[LocalOptimizer()]', ('meta',)),
    'dirty handler': ('dirty_recorder(name)', '[]', ('meta',)),
    'TagRemover': ('recorder(name)', '[TagRemover()]', ('meta',)),
    'TagRemover and optimizer': ('recorder(name)', '[TagRemover(), LocalOptimizer(), TagRemover(), LocalOptimizer(2)]', ('gates', 'meta')),
    'CommandModifier': ('recorder(name)', '[CommandModifier(mark)]', ('gates',)),
    'AutoReplacer': ('recorder(name)', '[AutoReplacer(DecompositionRuleSet(modules=[projectq.setups.decompositions])), InstructionFilter(triple)]', ('gates',)),
    'InstructionFilter': ('recorder(name)', '[InstructionFilter(few)]', ('gates',)),
    'LinearMapper': ('recorder(name)', '[LinearMapper(4)]', ('twoq',)),
    'GridMapper': ('recorder(name)', '[GridMapper(2, 2)]', ('twoq',)),
    'ManualMapper': ('recorder(name)', '[ManualMapper(reverse)]', ('gates', 'twoq')),
    'IBM5QubitMapper': ('recorder(name)', '[IBM5QubitMapper()]', ('twoq',)),
    'IBM5QubitMapper and flipper': ('recorder(name)', '[IBM5QubitMapper(), SwapAndCNOTFlipper({(0, 1), (0, 2), (0, 3), (0, 4), (1, 2), (1, 3), (1, 4), (2, 3), (2, 4), (3, 4)})]', ('twoq',)),
    'BoundedQubitMapper': ('recorder(name)', '[BoundedQubitMapper(6)]', ('gates', 'twoq')),
    'SwapAndCNOTFlipper': ('recorder(name)', '[SwapAndCNOTFlipper({(0, 1), (2, 1), (2, 0), (3, 1), (3, 2), (0, 3)})]', ('twoq',)),
    'default setup': ('recorder(name)', 'projectq.setups.default.get_engine_list()', ('gates', 'meta')),
    'default engine list': ('recorder(name)', 'None', ('gates', 'math')),
    'restricted setup': ('recorder(name)', 'projectq.setups.restrictedgateset.get_engine_list(two_qubit_gates=(CNOT, Swap))', ('gates',)),
    'linear setup': ('recorder(name)', 'projectq.setups.linear.get_engine_list(num_qubits=4)', ('twoq',)),
    'grid setup': ('recorder(name)', 'projectq.setups.grid.get_engine_list(num_rows=2, num_columns=2)', ('twoq',)),
    'trapped ion setup': ('recorder(name)', 'projectq.setups.trapped_ion_decomposer.get_engine_list()', ('twoq',)),
    'Simulator': ('Simulator(rnd_seed=1)', '[]', ('values',)),
    'Simulator with fusion': ('Simulator(gate_fusion=True, rnd_seed=1)', '[]', ('values',)),
    'ClassicalSimulator': ('ClassicalSimulator()', '[]', ('bits',)),
    'UnitarySimulator': ('UnitarySimulator()', '[]', ('unitary',)),
    'ResourceCounter': ('ResourceCounter()', '[]', ('count',)),
    'CommandPrinter': ('CommandPrinter(accept_input=False)', '[]', ('bits',)),
    'CircuitDrawer': ('CircuitDrawer(accept_input=False)', '[]', ('draw',)),
    'CircuitDrawerMatplotlib': ('CircuitDrawerMatplotlib(accept_input=False)', '[]', ('plot',)),
}
VALUES = '''
def {p}0(w):
    w.q = w.eng.allocate_qureg(2)
    X | w.q[{i} - 1]
    w.eng.flush()


def {p}1(w):
    CNOT | (w.q[{i} - 1], w.q[2 - {i}])
    %(mid)s


def {p}2(w):
    w.a = w.eng.allocate_qubit()
    CNOT | (w.q[0], w.a)
    X | w.q[0]
    w.eng.flush()
    %(read)s


def {p}3(w):
    Measure | w.a
    %(all)s
    w.eng.flush()
    w.tell(int(w.a))
'''
STEPS['values'] = VALUES % {'mid': 'Z | w.q[0]', 'read': 'w.tell(w.backend.get_probability("01", w.q), w.backend.get_amplitude("011", [w.q[0], w.q[1], w.a[0]]), w.backend.cheat())', 'all': 'All(Measure) | w.q'}
STEPS['bits'] = VALUES % {'mid': 'X | w.q[1]', 'read': 'pass', 'all': 'All(Measure) | w.q'}
STEPS['unitary'] = VALUES % {'mid': 'Z | w.q[1]', 'read': 'w.tell(w.backend.unitary, w.backend.history)', 'all': 'All(Measure) | w.q'}
STEPS['count'] = VALUES % {'mid': 'Rz({a}) | w.q[1]', 'read': 'w.tell(w.backend.max_width, str(w.backend))', 'all': 'w.tell(w.backend.depth_of_dag)'}
STEPS['draw'] = VALUES % {'mid': 'Rz({a}) | w.q[1]', 'read': 'w.tell([[(str(x.gate), x.lines, x.ctrl_lines) for x in v] for v in w.backend._qubit_lines.values()])', 'all': 'All(Measure) | w.q'}
STEPS['plot'] = VALUES % {'mid': 'Z | w.q[1]', 'read': 'w.tell(w.backend._qubit_lines, w.backend._map)', 'all': 'All(Measure) | w.q'}
MODES = {
    'after': 'a = World("A", how)\n    left0(a)\n    left1(a)\n    left2(a)\n    left3(a)\n    b = World("B", how)\n    right0(b)\n    right1(b)\n    right2(b)\n    right3(b)',
    'in turns': 'a = World("A", how)\n    b = World("B", how)\n    left0(a)\n    right0(b)\n    left1(a)\n    right1(b)\n    left2(a)\n    right2(b)\n    left3(a)\n    right3(b)',
    'inside': 'a = World("A", how)\n    left0(a)\n    with Control(a.eng, a.q[0]):\n        with Loop(a.eng, 3):\n            with Compute(a.eng):\n                b = World("B", how)\n                right0(b)\n                right1(b)\n'
              '                right2(b)\n                right3(b)\n',
    'same twice': 'a = World("A", how)\n    b = World("B", how)\n    right0(a)\n    right1(a)\n    right0(b)\n    right2(a)\n    right1(b)\n    right2(b)\n    right3(b)\n    right3(a)',
}
SOLO = 'b = World("B", how)\n    right0(b)\n    right1(b)\n    right2(b)\n    right3(b)'
BUILD = {
    'Command': 'Command(eng, {g}, (q[0:1], q[1:2]))', 'Command with controls': 'Command(eng, {g}, (q[0:1],), q[1:3])', 'Qureg': 'Qureg(q)', 'empty Qureg': 'Qureg()', 'QubitOperator': 'QubitOperator()',
    'QubitOperator term': "QubitOperator('X0 Y1', 2)", 'UserGate': 'UserGate(1)', 'BasicGate': 'BasicGate()', 'Rz': 'Rz(0.1)', 'TimeEvolution': "TimeEvolution(0.1, QubitOperator('X0'))",
    'All': 'All(H)', 'ControlledGate': 'C(H, 2)', 'DaggeredGate': 'get_inverse(QFT)', 'StatePreparation': 'StatePreparation([1, 0])', 'UniformlyControlledRy': 'UniformlyControlledRy([0.1, 0.2])',
    'QPE': 'QPE(H)', 'QAA': 'QAA(H, X)', 'AddConstant': 'projectq.libs.math.AddConstant(3)', 'DecompositionRuleSet': 'DecompositionRuleSet()',
    'MainEngine': 'MainEngine(backend=Recorder(), engine_list=[])', 'default MainEngine': 'MainEngine(backend=Recorder())', 'LocalOptimizer': 'LocalOptimizer()', 'TagRemover': 'TagRemover()', 'LinearMapper': 'LinearMapper(4)',
    'GridMapper': 'GridMapper(2, 2)', 'IBM5QubitMapper': 'IBM5QubitMapper()', 'ManualMapper': 'ManualMapper()', 'BoundedQubitMapper': 'BoundedQubitMapper(3)', 'Simulator': 'Simulator()', 'ClassicalSimulator': 'ClassicalSimulator()',
    'UnitarySimulator': 'UnitarySimulator()', 'ResourceCounter': 'ResourceCounter()', 'CircuitDrawer': 'CircuitDrawer()', 'CircuitDrawerMatplotlib': 'CircuitDrawerMatplotlib()', 'CommandPrinter': 'CommandPrinter()',
    'IBMBackend': 'IBMBackend()', 'AQTBackend': 'AQTBackend()', 'IonQBackend': 'IonQBackend()', 'AWSBraketBackend': 'AWSBraketBackend()',
    'LoopTag': 'LoopTag(2)', 'DirtyQubitTag': 'DirtyQubitTag()', 'LogicalQubitIDTag': 'LogicalQubitIDTag(1)', 'ComputeTag': 'ComputeTag()', 'restricted setup': 'projectq.setups.restrictedgateset.get_engine_list()',
    'default setup': 'projectq.setups.default.get_engine_list()', 'trapped ion setup': 'projectq.setups.trapped_ion_decomposer.get_engine_list()', 'linear setup': 'projectq.setups.linear.get_engine_list(3)',
    'grid setup': 'projectq.setups.grid.get_engine_list(2, 2)', 'flushing engine': 'CompareEngineLike()', 'AutoReplacer': 'AutoReplacer(DecompositionRuleSet())',
}
DERIVE = {
    'copy of a command': ('Command(eng, UserGate(1), (q[0:1], q[1:2]), q[2:3], [LoopTag(3)], "0")', 'copy.deepcopy(x)'),
    'inverse of a command': ('Command(eng, UserGate(1), (q[0:1], q[1:2]), q[2:3], [LoopTag(3)], "0")', 'x.get_inverse()'),
    'merged command': ('Command(eng, Rz(1), (q[0:1],), q[2:3], [LoopTag(3)], "0")', 'x.get_merged(Command(eng, Rz(2), (q[0:1],), q[2:3], x.tags, "0"))'),
    'command on the qubits of a command': ('Command(eng, UserGate(1), (q[0:1], q[1:2]), q[2:3])', 'Command(eng, UserGate(2), x.qubits, x.control_qubits)'),
    'commands with the same tags': ('[LoopTag(1), LoopTag(2)]', 'Command(eng, UserGate(1), (q[0:1], q[1:2]), q[2:3], x)'),
    'commands with the same registers': ('[[q[0]], [q[1]]]', 'Command(eng, UserGate(1), x)'),
    'commands with the same controls': ('[q[0], q[1]]', 'Command(eng, UserGate(1), ([q[2]],), x)'),
    'generated command': ('q', 'UserGate(3).generate_command((x[0:1], x[1:3]))'),
    'copy of a gate': ('UserGate(3)', 'copy.deepcopy(x)'),
    'inverse of a rotation': ('Rz(0.5)', 'x.get_inverse()'),
    'merged rotation': ('Rz(0.5)', 'x.get_merged(Rz(0.2))'),
    'copy of an operator': ("QubitOperator('X0', 2)", 'copy.deepcopy(x)'),
    'product of an operator': ("QubitOperator('X0', 2)", 'x * 2'),
    'sum of an operator': ("QubitOperator('X0', 2)", 'x + x'),
    'evolution under an operator': ("QubitOperator('X0', 2)", 'TimeEvolution(1, x)'),
    'inverse of an evolution': ("TimeEvolution(1, QubitOperator('X0', 2))", 'x.get_inverse()'),
    'copy of a mapper setup': ('[LinearMapper(3), ManualMapper(), IBM5QubitMapper()]', '[LinearMapper(3), ManualMapper(), IBM5QubitMapper()]'),
}
OPERANDS = {'an empty operator': 'QubitOperator()', 'a vanished operator': "QubitOperator('X0') - QubitOperator('X0')", 'one term': "QubitOperator('X0', 2)", 'the identity': "QubitOperator('')",
            'several terms': "QubitOperator('X0 Y1', 2) + QubitOperator('Z1', 0.5) + QubitOperator('')"}
for _i, _x in OPERANDS.items():
    for _j, _y in list(OPERANDS.items()) + [('itself', 'x')]:
        for _n, _op in (('sum', '+'), ('difference', '-'), ('product', '*')):
            DERIVE[f'{_n} of {_i} and {_j}'] = (_x, f'x {_op} ({_y})')
            if _j != 'itself':
                DERIVE[f'{_n} in place of {_j} and {_i}, then changed'] = (_x, f"{_y}\n    y {_op}= x\n    y += QubitOperator('X7')\n    y *= 1")
    for _op in ('x * 1', 'x * 1.', '1 * x', 'x * -1', 'x / 1', 'x / 2.', '-x', 'x * 0', '2j * x', 'copy.copy(copy.deepcopy(x))'):
        DERIVE[f'{_op} for {_i}'] = (_x, _op)
    DERIVE[f'evolution under {_i}'] = (_x, 'TimeEvolution(1, x)')
    if 'empty' not in _i and 'vanished' not in _i:
        DERIVE[f'inverse of the evolution under {_i}'] = (f'TimeEvolution(1, {_x})', 'x.get_inverse()')
        DERIVE[f'merged evolutions under {_i}'] = (f'TimeEvolution(1, {_x})', f'x.get_merged(TimeEvolution(2, {_x}))')
DERIVE.update({
    'controlled gate of a controlled gate': ('C(UserGate(1), 2)', 'C(UserGate(1), 3)'),
    'inverse of a user gate': ('UserGate(1)', 'get_inverse(x)'),
    'inverse of the inverse': ('get_inverse(QFT)', 'get_inverse(QFT)'),
    'part of a register': ('eng.allocate_qureg(2)', 'x[0:1]'),
    'sum of registers': ('eng.allocate_qureg(2)', 'x + x[0:1]'),
    'reversed register': ('eng.allocate_qureg(2)', 'Qureg(reversed(x))'),
    'state preparation of the same state': ('[1, 0]', 'StatePreparation(x)'),
    'rotations with the same angles': ('[0.1, 0.2]', 'UniformlyControlledRy(x)'),
    'z rotations with the same angles': ('[0.1, 0.2]', 'UniformlyControlledRz(x)'),
})
BUILDSRC = '''
def client():
    eng = main_engine(Recorder(), [])
    q = eng.allocate_qureg(3)
    %s
    probe('end', x, y, eng)
'''


def check(chk):
    chk.rule('independent', 'what a compiler sends, computes and reports is the same whether or not another compiler is used before, in turns, around it, or with the same program', 80)
    chk.rule('services', 'a run on a hardware backend is the same whether or not another backend object ran before', 8)
    chk.rule('separate', 'two separately built objects have no mutable container in common; derived commands, gates and operators have none in common with their source', 50)
    chk.rule('shared', 'no path writes to a module, a class, an object reachable from a module-level name or class attribute, or a default argument', 100)
    chk.rule('written', 'no function assigns a global name or writes through a class or a module-level object', 400)
    chk.assume = ['A registry whose entries are keyed by an object compared by identity holds no shared state.', 'Attributes of modules outside of the package (sys.excepthook and the like) are not looked at.']
    for kind, (be, engines, progs) in KINDS.items():
        for prog in progs:
            for mode in MODES:
                independent(chk, kind, be, engines, prog, mode)
    for dev in DEVICES:
        service(chk, dev)
    for name, expr in BUILD.items():
        e = expr.format(g='UserGate(2)')
        separate(chk, name, f'x = {e}\n    y = {e}')
    for name, (a, b) in DERIVE.items():
        separate(chk, name, f'x = {a}\n    y = {b}')
    if chk.shard == 0:
        sources(chk)
    text = others(chk)
    return ('Programs on one compiler are followed alone and next to a second compiler for every engine, mapper, setup and backend; separately built objects are followed to the containers they reach; '
            'all paths of these programs and of ' + text + ' are searched for writes to shared objects.')


def own_lines(C, st, v):
    """What is visible of compiler B."""
    out = []
    ids = {}

    def plain(text):
        return re.sub(r'(LoopTag\(.*?\bid=)(\d+)', lambda m: m[1] + 'n' + str(ids.setdefault(m[2], len(ids))), text)
    for e in st.eff:
        if e.kind == 'loop' and any(x.kind in ('send', 'probe') for p in e.data for x in p.effects):
            return None
        if e.kind == 'send':
            if C.I.getattr_heap(st, e.target, 'name') != K('B'):
                continue
            if e.data is None:
                return None
            out += [(plain(C.short(p)), e.loc) for c, p in e.data]
        elif e.kind == 'probe' and e.args and e.args[0] == K('B'):
            out.append(('tells ' + ' '.join(re.sub(r'#=\d+|<(\w+)#\d+>', r'\1', str(C.I.freeze(st, a))) for a in e.args[1:]), e.loc))
    if isinstance(v, Exc):
        out.append((f'raises {v.name}', str(v.loc)))
    return out


def heap(chk, C, outs, inst):
    own = None
    for st, v in outs:
        own = own or shared.owners(C.I)
        for base, owner, what in shared.changes(C.I, st, own):
            chk.fail('shared', owner, shared.where(st, base) or owner, f'{what} in {inst}')
            return
    chk.ok('shared', inst)


def independent(chk, kind, be, engines, prog, mode):
    if not chk.mine():
        return
    inst = f'{kind}: program {prog}, {mode}'
    with chk.guard('independent', inst):
        got = []
        for body in (SOLO, MODES[mode]):
            src = f'def how(name):\n    return ({be}, {engines})\n\n' + STEPS[prog].format(**LEFT) + STEPS[prog].format(**RIGHT) + f'\n\ndef client():\n    {body}\n'
            C = Client(chk.prog, src, prelude=HEAD, stubs=STUBS, budget=3000000, floats=True)
            try:
                outs = C.run('client')
                chk.saw(C.I, outs)
                heap(chk, C, outs, inst)
                seen = {}
                for st, v in outs:
                    ln = own_lines(C, st, v)
                    if ln is None:
                        return chk.unknown('independent', inst, 'commands in an unbounded loop')
                    seen.setdefault(tuple(x for x, _ in ln), (st, ln))
                got.append(seen)
            finally:
                C.close()
        solo, both = got
        if not any(solo):
            return chk.unknown('independent', inst, 'nothing is visible')
        extra = [k for k in both if k not in solo]
        gone = [k for k in solo if k not in both]
        if not extra and not gone:
            return chk.ok('independent', inst)
        st, ln = both[extra[0]] if extra else solo[gone[0]]
        if '?' in '\n'.join(x for x, _ in ln) or not all(clean(f) for f in st.facts):
            return chk.unknown('independent', inst, 'depends on an unknown value')
        other = list(solo)[0]
        k = extra[0] if extra else list(both)[0]
        at = next((i for i, (a, b) in enumerate(zip(k, other)) if a != b), min(len(k), len(other)))
        msg = f'"{k[at] if at < len(k) else "nothing"}" instead of "{other[at] if at < len(other) else "nothing"}"'
        chk.fail('independent', kind, ln[at][1] if extra and at < len(ln) else 'projectq', f'{inst}: step {at + 1} is {msg[:400]}')


SERVICE = '''
def work(name, n, m):
    service = %(service)s([({0: 1, 2: 1}, 0.25), ({1: 1}, 0.75)], polls=n)
    probe('start', name)
    eng = MainEngine(backend=%(backend)s, engine_list=[PermutingMapper({0: 2, 1: 0, 2: 1})], verbose=True)
    q = eng.allocate_qureg(3)
    Rx(0.25 * m) | q[0]
    Rx(1.5) | q[m]
    Measure | q[m]
    Measure | q[0]
    eng.flush()
    probe('read', int(q[0]), int(q[m]))
    probe('prob', eng.backend.get_probabilities([q[0], q[m]]))
    probe('end', name)


def client():
    %(body)s
'''


def service(chk, dev):
    if not chk.mine():
        return
    with chk.guard('services', dev):
        got = []
        for body in ('work("B", 2, 1)', 'work("A", 1, 2)\n    work("B", 2, 1)'):
            src = SERVICE % {'service': DEVICES[dev][0], 'backend': backend(dev), 'body': body}
            C = Client(chk.prog, src, prelude=hwsem.HEAD, stubs=hwsem.STUBS, budget=3000000)
            try:
                outs = C.run('client')
                chk.saw(C.I, outs)
                heap(chk, C, outs, dev)
                seen = {}
                for st, v in outs:
                    ln = C.lines(st, v, ('probe',))
                    if ln is None:
                        return chk.unknown('services', dev, 'not followed')
                    if 'probe start B' not in [x.replace("'", '') for x in ln]:
                        return chk.unknown('services', dev, f'ends early: {ln[-1:]}')
                    ix = [x.replace("'", '') for x in ln].index('probe start B')
                    seen.setdefault(tuple(ln[ix:]), st)
                got.append(seen)
            finally:
                C.close()
        solo, both = got
        if len(solo) == 0 or any('raise' in x for k in solo for x in k):
            return chk.unknown('services', dev, f'the run fails: {list(solo)[:1]}')
        if set(solo) == set(both):
            return chk.ok('services', dev)
        k = next((k for k in both if k not in solo), list(both)[0])
        o = list(solo)[0]
        at = next((i for i, (a, b) in enumerate(zip(k, o)) if a != b), min(len(k), len(o)))
        if not all(clean(f) for f in both[k].facts):
            return chk.unknown('services', dev, 'depends on an unknown value')
        chk.fail('services', dev, 'projectq/backends', f'{dev} after another backend object: {k[at:at + 1]} instead of {o[at:at + 1]}'[:500])


def separate(chk, name, body):
    if not chk.mine():
        return
    with chk.guard('separate', name):
        C = Client(chk.prog, BUILDSRC % body, prelude=HEAD + EXTRA, stubs=STUBS, floats=True, budget=3000000)
        try:
            outs = C.run('client')
            chk.saw(C.I, outs)
            heap(chk, C, outs, name)
            for st, v in outs:
                if isinstance(v, Exc):
                    return chk.unknown('separate', name, f'raises {v.name} at {v.loc}')
                end = [e for e in st.eff if e.kind == 'probe'][-1].args
                a, b, skip = (shared.containers(C.I, st, x) for x in end[1:])
                common = [r for r in a if r in b and r not in skip]
                if common:
                    return chk.fail('separate', name, shared.where(st, common[0]) or 'projectq', f'{name}: {body}: both reach one {C.I.kind(common[0])} through x{a[common[0]]} and y{b[common[0]]}')
            chk.ok('separate', name)
        finally:
            C.close()


EXTRA = '''
import copy


def CompareEngineLike():
    return CommandModifier(mark)


'''


def sources(chk):
    """Every function of the package: no assignment to a global name, no write through a class or a module-level object."""
    for m in chk.prog.modules.values():
        if not shared.own_code(m):
            continue
        for fn in ast.walk(m.tree):
            if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                continue
            local = {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
            glob = {n for x in ast.walk(fn) if isinstance(x, ast.Global) for n in x.names}
            local |= {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - glob
            name = f'{m.name}:{getattr(fn, "name", "lambda")}'
            bad = None
            for x in ast.walk(fn):
                tgt, line = None, getattr(x, 'lineno', fn.lineno)
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id in glob:
                    bad = (line, f'assigns the global name {x.id}')
                elif isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    tgt = x.value
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS - {'setdefault'}:
                    tgt = x.func.value
                if tgt is None:
                    continue
                what = root(chk.prog, m, tgt, local)
                if what is None:
                    continue
                if what[0] == 'class' and counting(fn, x):
                    continue
                bad = (line, f'writes to {what[1]}')
            if bad:
                chk.fail('written', name, f'{m.rel}:{bad[0]}', f'{name} {bad[1]}')
            else:
                chk.ok('written', name)


def counting(fn, x):
    """The class attribute is a number that is counted up."""
    return any(isinstance(a, ast.AugAssign) and a.target is x and isinstance(a.value, ast.Constant) and type(a.value.value) is int for a in ast.walk(fn))


def root(prog, m, t, local):
    """A class or module-level object a store goes to, directly or through subscripts."""
    path = t
    while isinstance(path, ast.Subscript):
        path = path.value
    if isinstance(path, ast.Call) and isinstance(path.func, ast.Name) and path.func.id == 'type' and len(path.args) == 1:
        return 'class', ast.unparse(path)
    if isinstance(path, ast.Attribute) and path.attr == '__class__':
        return 'class', ast.unparse(path)
    attrs = []
    while isinstance(path, ast.Attribute):
        attrs.append(path.attr)
        path = path.value
    if not isinstance(path, ast.Name) or path.id in local - {'cls'}:
        return None
    if path.id == 'cls':
        return 'class', 'cls'
    r = prog.lookup(m, path.id)
    while r is not None and r[0] == 'module' and attrs:
        r = prog.lookup(r[1], attrs.pop())
    if r is None or r[0] == 'ext' or r[0] == 'module' and r[1] not in prog.modules:
        return None
    if r[0] in ('class', 'assign', 'module', 'func'):
        if r[0] == 'assign' and isinstance(r[2].value, ast.Call) and keyed(prog, m, t):
            return None
        return r[0], ast.unparse(t)
    return None


def keyed(prog, m, t):
    """prev[engine][...]: an entry of a registry with one entry per engine."""
    return isinstance(t, ast.Subscript) and isinstance(t.slice, (ast.Name, ast.Attribute)) and ast.unparse(t.slice).rpartition('.')[2] in ('engine', 'eng')


class Shadow:
    """Runs the programs of another check; only the writes to shared objects count."""

    def __init__(self, chk):
        self.chk, self.prog, self.fns = chk, chk.prog, chk.fns
        self.thorough, self.tier, self.seed, self.repo = False, 'quick', chk.seed, chk.repo
        self.assume, self.paths, self.rules, self.mins, self.held, self.viol, self.undec = [], 0, {}, {}, {}, {}, {}
        self.shard, self.shards, self.count = chk.shard, chk.shards, 0

    def mine(self):
        self.count += 1
        return self.count % self.shards == self.shard

    def rule(self, *a, **k):
        pass

    ok = fail = unknown = rule

    def guard(self, rule, inst):
        from ..rt import _Guard
        return _Guard(self, rule, inst)

    def saw(self, interp, outs=None):
        self.chk.saw(interp, outs)


OTHERS = ('c02', 'c26', 'c14', 'c31', 'c44', 'c41')


def others(chk):
    import importlib
    done = []
    for name in OTHERS:
        n = 0

        def look(C, outs, name=name):
            nonlocal n
            n += 1
            heap(chk, C, outs, f'programs of {name.upper()} ({n})')
        Client.observer = look
        try:
            importlib.import_module(f'pqsa.rules.{name}').check(Shadow(chk))
        finally:
            Client.observer = None
        done.append(name.upper())
    return 'the programs of ' + ', '.join(done)


__all__ = ['check', 'decsem']
