"""C21: hardware backends translate every command they claim to support, faithfully."""
import math

from .. import hwsem, unitary
from ..client import Client, clean, trace
from ..hwsem import DEVICES, HEAD, STUBS, Unreadable
from ..values import Exc, K

PARALLEL = True
TECHNIQUE = ('abstract interpretation of every hardware backend and its HTTP client on programs sending each gate with different numbers of controls; the instructions of the '
             'request body are compared, as unitaries, with the commands the backend declared available')
PERM = [3, 0, 4, 1, 5, 2, 8, 6, 9, 7]
LOC = {'IBM': 'IBMBackend', 'AQT': 'AQTBackend', 'IonQ': 'IonQBackend', 'AWS Aspen-8': 'AWSBraketBackend', 'AWS IonQ Device': 'AWSBraketBackend',
       'AWS SV1': 'AWSBraketBackend', 'Azure IonQ': 'AzureQuantumBackend', 'Azure Quantinuum': 'AzureQuantumBackend'}
SRC = '''
def client():
    service = %(service)s([({i: 0 for i in range(10)}, 1.0)])
    backend = %(backend)s
    eng = MainEngine(backend=backend, engine_list=[PermutingMapper(%(perm)s)], verbose=True)
    q = eng.allocate_qureg(10)
    for controls in %(controls)s:
        for targets in %(targets)s:
            cmd = Command(eng, %(gate)s, tuple([[q[i] for i in t] for t in targets]))
            if controls:
                cmd.add_control_qubits([q[i] for i in controls], '1' * len(controls))
            ok = backend.is_available(cmd)
            probe('cmd', cmd, ok)
            if ok:
                eng.receive([cmd])
    Measure | q[9]
    eng.flush()
    %(after)s
'''
DECLARED = '''
from projectq.backends._ionq._ionq_mapper import BoundedQubitMapper


def client():
    service = %(service)s([({}, 1.0)])
    backend = %(backend)s
    eng = MainEngine(backend=backend, engine_list=[BoundedQubitMapper(9)], verbose=True)
    for freed, n in %(rounds)s:
        q = eng.allocate_qureg(n)
        for x in q:
            eng.receive([Command(eng, Rx(0.5), ([x],))])
        Measure | q[%(last)s]
        for i in freed:
            eng.deallocate_qubit(q[i])
        eng.flush()
'''
ONE = ['X', 'Y', 'Z', 'H', 'S', 'T', 'Sdag', 'Tdag', 'SqrtX', 'get_inverse(SqrtX)', 'get_inverse(get_inverse(S))', 'get_inverse(X)',
       'Rx({a})', 'Ry({a})', 'Rz({a})', 'R({a})', 'Ph({a})', 'get_inverse(Rx({a}))', 'get_inverse(Rz({a}))', 'get_inverse(R({a}))', 'get_inverse(Ph({a}))',
       'QFT', 'get_inverse(QFT)', 'UserGate(3)', 'FlipBits([1])', 'Entangle', 'get_inverse(Entangle)']
TWO = ['Swap', 'SqrtSwap', 'get_inverse(SqrtSwap)', 'Rxx({a})', 'Ryy({a})', 'Rzz({a})', 'get_inverse(Rxx({a}))', 'QFT', 'UserGate(2)', 'Entangle']
WRAP = ['C(X)', 'C(Z)', 'C(Y)', 'C(H)', 'C(Rz({a}))', 'C(S)']
ANGLES = ['0.37 * math.pi', '-2.25 * math.pi', '3 * math.pi', 'math.pi / 2']
QUICK_CTRL = [[], [4], [4, 2], [2, 6, 4], [1, 2, 3, 4, 5, 6, 8], [1, 2, 3, 4, 5, 6, 8, 9]]


def check(chk):
    chk.rule('translate', 'every command the backend declares supported becomes exactly one instruction with the same meaning on the locations of its qubits', 100)
    chk.rule('barrier', 'a supported barrier becomes at most one barrier on exactly its qubits', 2)
    chk.rule('qasm', 'the QASM text of the IBM backend denotes the circuit that was sent', 5)
    chk.rule('precision', 'rotation angles are transmitted without loss of precision', 5)
    chk.rule('declared', 'the circuit that is sent declares at least as many qubits as its instructions use', 20)
    for dev in DEVICES:
        for rounds in ([([], 3)], [([0], 3)], [([0, 1], 4)], [([1, 0, 2], 5)], [([0], 2), ([], 2)], [([1], 3), ([0], 3)]):
            declared(chk, dev, rounds)
        loc = chk.prog.cls(LOC[dev], 'projectq.backends').loc()
        for g in ONE + ['#2 ' + x for x in TWO] + ['#w ' + x for x in WRAP]:
            kind, g = (g[:2], g[3:]) if g[0] == '#' else ('#1', g)
            for a in (ANGLES if chk.thorough else ANGLES[:2]) if '{a}' in g else ['']:
                targets = {'#1': [[[0]], [[7]]], '#2': [[[0], [7]], [[7], [0]]], '#w': [[[0], [7]], [[7], [3]]]}[kind]
                if 'QFT' in g or 'Entangle' in g:
                    targets = [[[0, 7]]]
                one(chk, 'translate', dev, g.format(a=a), targets, QUICK_CTRL if kind != '#w' else [[]], loc)
        for regs in ([[0], [7]], [[7, 0], [3]], [[5]]):
            one(chk, 'barrier', dev, 'Barrier', [regs], [[]], loc)
        for g in ('Rx(0.7123)', 'Ry(0.7123)', 'Rz(0.7123)', '#2 Rxx(0.7123)', 'R(0.7123)', '#2 Rzz(-1e-3)'):
            two = g.startswith('#2 ')
            one(chk, 'precision', dev, g.replace('#2 ', ''), [[[0], [7]]] if two else [[[0]]], [[]], loc)
    for g in ('H', 'Rx(0.3)', 'Ry(-4.1)', 'Rz(math.pi / 3)', 'X', 'Barrier'):
        one(chk, 'qasm', 'IBM', g, [[[0], [3]]] if g == 'Barrier' else [[[0]], [[7]]], [[], [4]], chk.prog.cls('IBMBackend').loc(), qasm=True)
    chk.assume = ['Locations are a fixed permutation of 10 qubits; controls are 0, 1, 2, 3, 7 or 8 of them.',
                  'Gates: every gate of the library with a matrix, their inverses, and representatives of the gates no device knows.',
                  'The meaning of the device instructions is the documented one (tables in pqsa/hwsem.py); controlled-controlled-Z is read as ccz.']
    return ('For every backend and every gate, a program asks is_available for the command with different controls and sends what is supported; the analysis follows it '
            'through the backend and its HTTP client to the request body, whose instructions are compared one by one with the commands.')


def one(chk, rule, dev, gate, targets, controls, loc, qasm=False):
    if not chk.mine():
        return
    inst = f'{dev}: {gate}'
    with chk.guard(rule, inst):
        src = SRC % {'service': DEVICES[dev][0], 'backend': hwsem.backend(dev), 'perm': {i: p for i, p in enumerate(PERM)}, 'controls': controls,
                     'targets': targets, 'gate': gate, 'after': "probe('qasm', backend.get_qasm())" if qasm else 'pass'}
        C = Client(chk.prog, 'import math\n' + src, prelude=HEAD, stubs=STUBS)
        C.found = None
        try:
            outs = C.run('client')
            chk.saw(C.I, outs)
            if not outs:
                chk.unknown(rule, inst, 'no path')
                return
            for st, v in outs:
                msg, where = judge(C, dev, st, v, rule, qasm)
                if msg == '?':
                    chk.unknown(rule, inst, where)
                    return
                if msg:
                    if not all(clean(f) for f in st.facts):
                        chk.unknown(rule, inst, f'depends on an unknown condition: {msg}')
                        return
                    what = gate
                    if rule in ('precision', 'qasm') and C.found is not None:
                        what = f'{gate} as {C.found[0]}' + '(' + ','.join(f'{x:.4f}' for x in C.found[1]) + ')'
                    chk.fail(rule, f'{dev}/{what}', where or loc, f'{inst}: {msg}')
                    return
            chk.ok(rule, inst)
        except Unreadable as e:
            chk.unknown(rule, inst, f'cannot read the circuit: {e}')
        finally:
            C.close()


def declared(chk, dev, rounds):
    """Registers whose first qubits are freed before the circuit is sent."""
    if not chk.mine():
        return
    inst = f'{dev}: registers {rounds}'
    with chk.guard('declared', inst):
        src = DECLARED % {'service': DEVICES[dev][0], 'backend': hwsem.backend(dev), 'rounds': rounds, 'last': -1}
        C = Client(chk.prog, src, prelude=HEAD, stubs=STUBS)
        try:
            outs = C.run('client')
            chk.saw(C.I, outs)
            if not outs:
                return chk.unknown('declared', inst, 'no path')
            loc = chk.prog.cls(LOC[dev], 'projectq.backends').loc()
            for st, v in outs:
                msg, where = sizes(dev, st, v, len(rounds))
                if msg == '?' or msg and not all(clean(f) for f in st.facts):
                    return chk.unknown('declared', inst, where or msg)
                if msg:
                    return chk.fail('declared', dev, where or loc, f'{inst}: {msg}')
            chk.ok('declared', inst)
        except Unreadable as e:
            chk.unknown('declared', inst, f'cannot read the circuit: {e}')
        finally:
            C.close()


def sizes(dev, st, v, rounds):
    tr = trace(st)
    if tr is None:
        return '?', 'loop of unknown length'
    if isinstance(v, Exc):
        return f'raises {v.name}', v.loc
    ups = [x for x in tr if x[0] == 'probe' and plain(x[1][0]) == 'upload']
    if len(ups) != rounds:
        return f'{len(ups)} circuits are sent for {rounds} flushes', None
    for x in ups:
        a = [plain(y) for y in x[1]]
        if not isinstance(a[1], str):
            return '?', f'circuit {a[1]}'[:200]
        if dev == 'Azure Quantinuum':
            size = int(a[1].split('qreg q[')[1].split(']')[0])
            bits = int(a[1].split('creg c[')[1].split(']')[0])
        else:
            size = bits = a[3]
        if not isinstance(size, int):
            return '?', f'size {size}'
        ins = hwsem.instructions(dev, a[1])
        used = [q for g in ins for q in g[2] + g[3]]
        if used and max(used) >= size:
            return f'the circuit declares {size} qubits but uses qubit {max(used)}', x[3].loc
        stored = [int(b) for g in ins if g[0] == 'measure' for b in g[1]]
        if stored and max(stored) >= bits:
            return f'the circuit declares {bits} bits but stores into bit {max(stored)}', x[3].loc
    return None, None


def plain(v):
    return v.v if isinstance(v, K) else v


def judge(C, dev, st, v, rule, qasm):
    tr = trace(st)
    if tr is None:
        return '?', 'loop of unknown length'
    cmds, ups, text = [], [], None
    for x in tr:
        if x[0] != 'probe':
            continue
        a = [plain(y) for y in x[1]]
        if a[0] == 'cmd':
            if not isinstance(a[2], bool):
                return '?', f'availability {a[2]}'
            if a[2]:
                cmds.append((x[1][1], x[3].loc))
        elif a[0] == 'upload':
            if not isinstance(a[1], str):
                return '?', f'circuit {a[1]}'[:200]
            ups.append(a[1])
        elif a[0] == 'qasm':
            if not isinstance(a[1], str):
                return '?', f'text {a[1]}'[:200]
            text = a[1]
    if isinstance(v, Exc):
        last = C.short(cmds[-1][0]) if cmds else 'nothing'
        return f'a supported command is rejected with {v.name} (last command: {last})', v.loc
    want = [(c[0], [[plain(i) for i in r] for r in c[1]], [plain(i) for i in c[2]], plain(c[3]), c[4]) for c, _ in cmds]
    if len(ups) > 1:
        return f'{len(ups)} circuits are sent for one flush', None
    if want and not ups and rule != 'barrier':
        return 'supported commands were received but no circuit is sent', None
    if qasm:
        got = hwsem.instructions('Azure Quantinuum', text or '')
    else:
        got = hwsem.instructions(dev, ups[0]) if ups else []
    got = [g for g in got if g[0] != 'measure']
    if rule == 'barrier':
        ok = [g for g in got if g[0] != 'barrier']
        if ok:
            return f'a barrier becomes {ok[0]}', None
        wq = sorted(PERM[i] for c in want for r in c[1] for i in r)
        gq = sorted(q for g in got for q in g[2])
        if got and gq != wq or len(got) > len(want):
            return f'a barrier on {wq} becomes a barrier on {gq}', None
        return None, None
    if qasm:
        got = [g for g in got if g[0] != 'barrier']
        want = [w for w in want if (w[0][0] if isinstance(w[0], tuple) else w[0]) != 'BarrierGate']
    for w, g in zip(want, got):
        msg = compare(w, g)
        if msg:
            C.found = g
            return f'{name_of(w)} becomes {g}: {msg}', None
    if len(got) != len(want):
        return f'{len(want)} supported commands become {len(got)} instructions' + (f' (missing: {name_of(want[len(got)])})' if len(want) > len(got) else ''), None
    return None, None


def name_of(cmd):
    sig, regs, ids, state, _ = cmd
    g = sig
    if isinstance(sig, tuple):
        g = sig[0] + ''.join(f' {k}={v}' for k, v in sig[1] if k != 'interchangeable_qubit_indices')
    return f'{g} on {regs}' + (f' controlled by {ids}={state}' if ids else '')


def compare(cmd, ins):
    """None when the instruction means the command (locations permuted)."""
    sig, regs, ids, state, tags = cmd
    targets = [PERM[i] for r in regs for i in r]
    if not isinstance(state, str):
        raise Unreadable(f'control state {state}')
    ctrl = {PERM[i]: int(b) for i, b in zip(ids, state)}
    if isinstance(sig, tuple) and sig[0] == 'ControlledGate':
        at = dict(sig[1])
        n = int(str(at['_n']))
        ctrl.update({t: 1 for t in targets[:n]})
        targets = targets[n:]
        sig = at['_gate']
    name, par, tq, cq = ins
    try:
        m = hwsem.matrix(name, par)
    except Unreadable as e:
        return f'{e} is not an operation of the device'
    w = hwsem.gate_matrix(sig)
    if w is None:
        return 'no instruction of a device means this gate'
    k = len(tq)
    if len(m) != 1 << k or len(w) != 1 << len(targets):
        return 'wrong number of targets'
    if len(set(tq) | set(cq)) != len(tq) + len(cq):
        return 'repeated qubits'
    if set(tq) | set(cq) != set(targets) | set(ctrl):
        return f'acts on {sorted(set(tq) | set(cq))} instead of {sorted(set(targets) | set(ctrl))}'
    order = sorted(set(targets) | set(ctrl))
    if len(order) > 5:
        drop = [q for q in order if q in ctrl and q in cq and ctrl[q] == 1][:len(order) - 4]
        order = [q for q in order if q not in drop]
        ctrl = {q: b for q, b in ctrl.items() if q not in drop}
        cq = [q for q in cq if q not in drop]
        if len(order) > 6:
            return 'controls and targets are exchanged'
    a = unitary.embed(m, tq, {q: 1 for q in cq}, order)
    b = unitary.embed(w, targets, ctrl, order)
    if not unitary.close(a, b, phase=True, tol=1e-6):
        return 'different operation'
    return None
