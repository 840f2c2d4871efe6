"""C20: no engine executes a negatively controlled gate as a positively controlled one."""
from .. import decsem, hwsem, setups
from ..alg import Unreadable
from ..client import Client, clean, trace
from ..model import AnalysisError
from ..values import Exc, K

PARALLEL = True
TECHNIQUE = ('abstract interpretation of the availability test and, where it agrees, of the execution of negatively controlled gates by every simulator and hardware backend; of every '
             'rewriting engine, alone and together with the shipped rules, on programs with controls on zero, whose output is compared with the program as linear operation')
WATCHED = '''

def everything(cmd):
    return True


class Watched(Command):
    """A command which notices whether somebody looks at the condition of its controls (the setter is inherited)."""
    looked = 0

    @property
    def control_state(self):
        Watched.looked = Watched.looked + 1
        return super().control_state

'''
BACKEND = '''
def client():
    service = %(service)s
    backend = %(backend)s
    backend.is_last_engine = True
    eng = MainEngine(backend=Recorder(), engine_list=[], verbose=True)
    q = eng.allocate_qureg(7)
    for gate, targets in %(gates)s:
        for ctrl, state in %(controls)s:
            cmd = Watched(eng, gate, tuple([[q[i] for i in t] for t in targets]))
            cmd.add_control_qubits([q[i] for i in ctrl], state)
            probe('try', cmd, backend.is_available(cmd))
'''
RUN = '''
def client():
    service = %(service)s
    backend = %(backend)s
    eng = MainEngine(backend=backend, engine_list=[%(mapper)s], verbose=True)
    q = eng.allocate_qureg(%(width)d)
    cmd = Watched(eng, %(gate)s, tuple([[q[i] for i in t] for t in %(targets)s]))
    cmd.add_control_qubits([q[i] for i in %(ctrl)s], %(state)r)
    backend.is_available = everything  # it has accepted the command
    Watched.looked = 0
    backend.receive([cmd])
    %(end)s
    return Watched.looked
'''
SIMULATORS = {'Simulator': ('Simulator()', 'projectq/backends/_sim/_simulator.py'), 'Simulator with gate fusion': ('Simulator(gate_fusion=True)', 'projectq/backends/_sim/_simulator.py'),
              'ClassicalSimulator': ('ClassicalSimulator()', 'projectq/backends/_sim/_classical_simulator.py'), 'UnitarySimulator': ('UnitarySimulator()', 'projectq/backends/_unitary.py')}
LOC = {'IBM': 'IBMBackend', 'AQT': 'AQTBackend', 'IonQ': 'IonQBackend', 'AWS Aspen-8': 'AWSBraketBackend', 'AWS IonQ Device': 'AWSBraketBackend',
       'AWS SV1': 'AWSBraketBackend', 'Azure IonQ': 'AzureQuantumBackend', 'Azure Quantinuum': 'AzureQuantumBackend'}
GATES = [(g, [[5]]) for g in ('X', 'Y', 'Z', 'H', 'S', 'T', 'Sdag', 'Tdag', 'SqrtX', 'get_inverse(SqrtX)', 'Rx(0.3)', 'Ry(0.3)', 'Rz(0.3)', 'R(0.3)', 'Ph(0.3)')] + \
        [(g, [[5], [6]]) for g in ('Swap', 'SqrtSwap', 'Rxx(0.3)', 'Ryy(0.3)', 'Rzz(0.3)')] + \
        [(g, [[5, 6]]) for g in ('QFT', 'Entangle', 'AddConstant(1)', 'TimeEvolution(0.4, QubitOperator("X0 Y1"))')]
CONTROLS = [([0], '0'), ([1], 0), ([0, 1], '01'), ([0, 1], '10'), ([1, 0], '01'), ([2, 3], '00'), ([0, 1, 2], '110'), ([0, 1, 2], '011'), ([3, 1, 2], '101'), ([0, 1, 2, 3, 4], '11110')]


def check(chk):
    chk.rule('backend', 'simulators and hardware backends refuse controls on zero, or look at the condition when they execute the command', 100)
    chk.rule('replaced', 'the shipped rules leave only controls on one, and the meaning of the program', 20)
    chk.rule('engine', 'engines which rewrite, merge, move or pass on commands keep the condition of controls', 20)
    todo = [(n, b, None, HEAD + WATCHED, loc) for n, (b, loc) in SIMULATORS.items()]
    todo += [(n, hwsem.backend(n), hwsem.DEVICES[n][0] + '()', hwsem.HEAD + MORE + WATCHED, chk.prog.cls(LOC[n], 'projectq.backends').loc()) for n in hwsem.DEVICES]
    for name, backend, service, head, loc in todo:
        if chk.mine():
            backends(chk, name, backend, service, head, loc)
    engines(chk)
    chk.assume = ['The gates, control states (at most five controls) and engines listed in pqsa/rules/c20.py.']
    return 'Availability tests, rules and engines are followed on commands with controls on zero.'


HEAD = decsem.HEAD + 'from projectq.backends import ClassicalSimulator, Simulator, UnitarySimulator\n'
MORE = 'from projectq.ops import *\nfrom projectq.libs.math import *\nfrom projectq.ops._command import Command\nfrom projectq.ops import QubitOperator, TimeEvolution\n'


def backends(chk, name, backend, service, head, loc):
    src = BACKEND % {'service': service, 'backend': backend, 'gates': '[' + ', '.join(f'({g}, {t})' for g, t in GATES) + ']', 'controls': CONTROLS}
    stubs = tuple(dict.fromkeys(decsem.STUBS + hwsem.STUBS)) if service else decsem.STUBS
    C = Client(chk.prog, src, prelude=head, stubs=stubs, floats=True, max_paths=300, budget=4000000)
    tries = {}
    try:
        outs = C.run('client')
        chk.saw(C.I, outs)
        for st, v in outs:
            tr = trace(st)
            if tr is None or isinstance(v, Exc):
                chk.unknown('backend', name, f'not followed ({v} {getattr(v, "loc", "")})')
                return
            got = [x[2][2] for x in tr if x[0] == 'probe' and x[2][0].v == 'try']
            for (g, t, c), a in zip([(g, t, c) for g, t in GATES for c in CONTROLS], got):
                tries.setdefault((g, str(t)), []).append((t, c, a))
    except AnalysisError as e:
        chk.unknown('backend', name, str(e))
        return
    finally:
        C.close()
    for (g, _), xs in tries.items():
        inst = f'{name}: {g}'
        bad = open_ = None
        for t, (ctrl, state), a in xs:
            if isinstance(a, K) and not a.v:
                continue
            how = execute(chk, backend, service, head, stubs, g, t, ctrl, state)
            if how == 'ignored':
                bad = bad or f'{g} with the controls in state {state!r} is accepted and executed without a look at the condition'
            elif how != 'refused':
                open_ = how
        if bad:
            chk.fail('backend', f'{name}/{g}', loc, f'{name}: {bad}')
        elif open_:
            chk.unknown('backend', inst, open_)
        else:
            chk.ok('backend', inst)


def execute(chk, backend, service, head, stubs, gate, targets, ctrl, state):
    used = sum(targets, []) + ctrl
    place = {q: i for i, q in enumerate(sorted(used))}
    src = RUN % {'service': service, 'backend': backend, 'gate': gate, 'targets': [[place[q] for q in t] for t in targets], 'ctrl': [place[q] for q in ctrl], 'state': state,
                 'width': len(used), 'mapper': 'PermutingMapper({i: i for i in range(12)})' if backend.startswith(('IBM', 'Azure')) else '', 'end': 'Measure | q[0]\n    eng.flush()' if service else 'pass'}
    C = Client(chk.prog, src, prelude=head, stubs=stubs, floats=True, max_paths=300, budget=2000000)
    try:
        how = 'refused'
        for st, v in C.run('client'):
            if isinstance(v, K) and isinstance(v.v, int):
                if not v.v:
                    return 'ignored'
                how = 'the condition is used'
            elif not isinstance(v, Exc):
                return f'accepted, result {v}'
        return how
    except AnalysisError as e:
        return f'accepted; {e}'
    finally:
        C.close()


# ---- engines
RULES = 'AutoReplacer(DecompositionRuleSet(modules=[projectq.libs.math, projectq.setups.decompositions]))'
ENGINES = [
    ('AutoReplacer', f'[{RULES}]', 'Strict()', 'replaced', 'projectq/cengines/_replacer/_replacer.py'),
    ('AutoReplacer and LocalOptimizer', f'[{RULES}, LocalOptimizer(5)]', 'Strict()', 'replaced', 'projectq/cengines/_replacer/_replacer.py'),
    ('LocalOptimizer and AutoReplacer', f'[LocalOptimizer(3), {RULES}, TagRemover()]', 'Strict()', 'replaced', 'projectq/cengines/_replacer/_replacer.py'),
    ('AutoReplacer before InstructionFilter', f'[{RULES}, InstructionFilter(positive), LocalOptimizer(2)]', 'Recorder()', 'replaced', 'projectq/cengines/_replacer/_replacer.py'),
    ('AutoReplacer, nothing refused', f'[{RULES}]', 'Recorder()', 'engine', 'projectq/cengines/_replacer/_replacer.py'),
    ('LocalOptimizer', '[LocalOptimizer(4)]', 'Recorder()', 'engine', 'projectq/cengines/_optimize.py'),
    ('two LocalOptimizers', '[LocalOptimizer(1), LocalOptimizer(9)]', 'Recorder()', 'engine', 'projectq/cengines/_optimize.py'),
    ('SwapAndCNOTFlipper', '[SwapAndCNOTFlipper(set([(0, 1), (2, 1), (2, 0), (3, 2), (0, 3), (1, 3), (4, 0), (1, 4), (4, 2), (3, 4)]))]', 'Recorder()', 'engine', 'projectq/cengines/_swapandcnotflipper.py'),
    ('SwapAndCNOTFlipper and AutoReplacer', f'[SwapAndCNOTFlipper(set([(0, 1), (2, 1), (2, 0), (3, 2), (0, 3), (1, 3), (4, 0), (1, 4), (4, 2), (3, 4)])), {RULES}]', 'Strict()', 'replaced',
     'projectq/cengines/_swapandcnotflipper.py'),
    ('TagRemover', '[TagRemover(), TagRemover([ComputeTag])]', 'Recorder()', 'engine', 'projectq/cengines/_tagremover.py'),
    ('InstructionFilter', '[InstructionFilter(everything)]', 'Recorder()', 'engine', 'projectq/cengines/_replacer/_replacer.py'),
    ('CommandModifier', '[CommandModifier(same)]', 'Recorder()', 'engine', 'projectq/cengines/_cmdmodifier.py'),
    ('ManualMapper', '[ManualMapper(lambda i: 2 * i % 5)]', 'Recorder()', 'engine', 'projectq/cengines/_manualmapper.py'),
    ('ManualMapper shifting', '[ManualMapper(lambda i: i + 4)]', 'Recorder()', 'engine', 'projectq/cengines/_manualmapper.py'),
    ('LinearMapper', '[LinearMapper(5)]', 'Recorder()', 'engine', 'projectq/cengines/_linearmapper.py'),
    ('GridMapper', '[GridMapper(2, 3)]', 'Recorder()', 'engine', 'projectq/cengines/_twodmapper.py'),
]
CLASSES = '''
from projectq.meta import ComputeTag
from projectq.cengines import (AutoReplacer, CommandModifier, DecompositionRuleSet, GridMapper, InstructionFilter, LinearMapper, LocalOptimizer, ManualMapper, SwapAndCNOTFlipper,
                               TagRemover)
import projectq.libs.math
import projectq.setups.decompositions


def positive(eng, cmd):
    return '0' not in cmd.control_state


def everything(eng, cmd):
    return True


def same(cmd):
    return cmd

'''
STATES = {1: ['0'], 2: ['00', '01', '10'], 3: ['000', '010', '101', '110', '011'], 4: ['0111', '1010', '1110']}
SINGLE = [('X', [[1]]), ('H', [[3]]), ('Rz(0.7)', [[0]]), ('Ph(1.1)', [[2]]), ('S', [[2]]), ('get_inverse(SqrtX)', [[1]]), ('Swap', [[0], [3]]), ('Rzz(0.4)', [[2], [1]]), ('QFT', [[3, 1]]),
          ('AddConstant(1)', [[0, 2]]), ('TimeEvolution(0.4, QubitOperator("X0 Y1"))', [[1, 2]]), ('MatrixGate([[0, 1j], [1, 0]])', [[3]])]
PAIRS = [
    [('X', [0], '0', [[1]]), ('X', [0], '1', [[1]])],
    [('X', [0], '0', [[1]]), ('X', [0], '0', [[1]])],
    [('X', [0], '0', [[1]]), ('X', [0], '0', [[1]]), ('X', [0], '0', [[1]])],
    [('Rz(0.4)', [0], '0', [[1]]), ('Rz(0.9)', [0], '1', [[1]])],
    [('Rz(0.4)', [0], '0', [[1]]), ('Rz(0.9)', [0], '0', [[1]])],
    [('Rz(0.4)', [0], '0', [[1]]), ('Rz(0.9)', [], '', [[1]])],
    [('X', [2], '1', [[0]]), ('X', [2], '0', [[0]]), ('X', [2], '1', [[0]])],
    [('X', [0], '1', [[1]]), ('X', [1], '0', [[0]]), ('X', [2], '0', [[1]]), ('X', [1], '1', [[2]])],
    [('X', [0], '1', [[1]]), ('H', [1], '0', [[0]]), ('H', [1], '0', [[0]]), ('X', [0], '0', [[1]])],
]
THREE = [
    [('X', [0, 2], '01', [[1]]), ('X', [0, 2], '10', [[1]])],
    [('X', [0, 2], '01', [[1]]), ('X', [2, 0], '10', [[1]])],
    [('X', [0, 2], '01', [[1]]), ('X', [2, 0], '01', [[1]])],
    [('Ry(0.4)', [2, 3], '00', [[1]]), ('Ry(0.9)', [3, 2], '01', [[1]]), ('Ry(0.2)', [3, 2], '00', [[1]])],
    [('Swap', [3], '0', [[1], [2]]), ('Swap', [3], '1', [[2], [1]]), ('Swap', [3], '0', [[1], [2]])],
    [('Swap', [0], '0', [[1], [2]]), ('Swap', [0], '0', [[2], [1]]), ('X', [1], '0', [[0]])],
]


def engines(chk):
    for name, expr, backend, rule, loc in ENGINES:
        s = setups.Setup(name, expr, backend=backend, width=4 if 'Mapper' in name else 5)
        s.head = CLASSES
        narrow = name in ('LinearMapper', 'GridMapper')
        work = []
        for gate, targets in SINGLE:
            used = sum(targets, [])
            free = [q for q in ([4] if not narrow else []) + [1, 3, 0, 2] if q not in used and (q < s.width)]
            if narrow and len(used) > 1 or 'Mapper' in name and gate.startswith(('AddConstant', 'TimeEvolution', 'QFT')):
                continue
            if rule == 'replaced' and gate in ('Rzz(0.4)',):
                continue
            ps = [[(gate, free[:n], st, targets)] for n, sts in STATES.items() if n <= len(free) and n + len(used) <= (2 if narrow else 5) for st in sts]
            if ps:
                work.append((gate, ps))
        work.append(('sequences', PAIRS))
        if not narrow:
            work.append(('longer sequences', THREE))
        for label, programs in work:
            if chk.mine():
                one(chk, s, label, programs, rule, loc)


def judge(setup, G, step, before, after):
    if setup.rule == 'replaced':
        for cmd, p, loc in step.out:
            _, ctrl = decsem.parts(p)
            if any(not b for _, b in ctrl):
                return [('replaced', f'{setups.show_cmd(G, (cmd, p))} reaches a backend which refuses controls on zero', loc)]
    return [(setup.rule, msg, loc) for _, msg, loc in setups.faithful(setup, G, step, before, after)]


def one(chk, s, label, programs, rule, loc):
    s.rule = rule
    inst = f'{s.name}: {label}'
    try:
        res = setups.send(chk, s, programs, judge)
        if isinstance(res, str):
            res = [setups.send(chk, s, [p], judge) for p in programs]
            res = next((r for r in res if isinstance(r, str)), None) or [x for r in res for x in r]
    except Unreadable as e:
        res = str(e)
    if isinstance(res, str) or None in res:
        chk.unknown(rule, inst, res if isinstance(res, str) else 'not followed to the end')
        return
    bad = next((f for found in res for f in found), None)
    if bad is None:
        chk.ok(rule, inst)
    elif bad[0] == 'compiles':
        chk.fail(rule, f'{s.name}/{label}', loc, f'{inst}: {bad[1]} (at {bad[2]})')
    else:
        chk.fail(rule, f'{s.name}/{label}', loc, f'{inst}: {bad[1]} (at {bad[2]})')


__all__ = ['check', 'clean']
