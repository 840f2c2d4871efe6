"""C22: one result per measured qubit, under the id the user knows, taken from the bit of that qubit."""
import itertools

from .. import hwsem
from ..client import Client, PRELUDE, clean, trace
from ..hwsem import DEVICES, HEAD, STUBS
from ..values import Exc, K
from .c21 import LOC

PARALLEL = True
TECHNIQUE = ('abstract interpretation of all backends on programs that measure qubits in different orders behind permuting mappers; every registered result is compared '
             'with the bit the (modelled) service or simulator holds at the location of that qubit, and the reported probabilities with the exact marginals')
COUNTING = '''
class CountingEngine(MainEngine):
    def set_measurement_result(self, qubit, value):
        probe('set', qubit.id, value)
        super().set_measurement_result(qubit, value)


'''
SRC = COUNTING + '''
def client():
    service = %(service)s(%(outcomes)s)
    backend = %(backend)s
    eng = CountingEngine(backend=backend, engine_list=[PermutingMapper(%(perm)s)], verbose=True)
    q = eng.allocate_qureg(%(n)s)
    for x in q:
        cmd = Command(eng, Rx(0.5), ([x],))
        eng.receive([cmd])
    %(measure)s
    eng.flush()
    for i in %(order)s:
        probe('read', i, int(q[i]))
    for i in %(unmeasured)s:
        try:
            int(q[i])
            probe('phantom', i)
        except NotYetMeasuredError:
            pass
    for reg in %(regs)s:
        probe('prob', reg, backend.get_probabilities([q[i] for i in reg]))
        %(single)s
'''
FREED = COUNTING + '''
from projectq.backends._ionq._ionq_mapper import BoundedQubitMapper


def client():
    service = %(service)s(%(outcomes)s)
    backend = %(backend)s
    eng = CountingEngine(backend=backend, engine_list=[BoundedQubitMapper(8)], verbose=True)
    q = eng.allocate_qureg(%(n)s)
    for x in q:
        eng.receive([Command(eng, Rx(0.5), ([x],))])
    for i in %(order)s:
        Measure | q[i]
    for i in %(freed)s:
        eng.deallocate_qubit(q[i])
    eng.flush()
    for i in %(live)s:
        probe('read', i, int(q[i]))
    for reg in %(regs)s:
        probe('prob', reg, backend.get_probabilities([q[i] for i in reg]))
'''
SIMSRC = COUNTING + '''
import projectq.backends._sim._cppsim as native
from projectq.backends import *


class PermutingMapper(BasicMapperEngine):
    def __init__(self, mapping):
        super().__init__()
        self.current_mapping = mapping

    def receive(self, command_list):
        for cmd in command_list:
            if isinstance(cmd.gate, FlushGate):
                self.send([cmd])
            else:
                self._send_cmd_with_mapped_ids(cmd)


class TellingUnitarySimulator(UnitarySimulator):
    def measure_qubits(self, ids):
        return [bool(native.outcomes[i]) for i in ids]


prompts = []


def typed_input(prompt):
    prompts.append(prompt)
    if len(prompts) %% 2 == 1:
        return 'maybe'
    return str((len(prompts) // 2) %% 2)


def client():
    backend = %(backend)s
    eng = CountingEngine(backend=backend, engine_list=%(engines)s, verbose=True)
    native.outcomes.update(%(bits)s)
    q = eng.allocate_qureg(4)
    %(prepare)s
    %(flush)s
    %(measure)s
    eng.flush()
    for i in %(order)s:
        probe('read', i, int(q[i]))
    for i in %(unmeasured)s:
        try:
            int(q[i])
            probe('phantom', i)
        except NotYetMeasuredError:
            pass
'''
PERMS = {3: [[0, 1, 2], [2, 0, 1], [1, 2, 0]], 4: [[0, 1, 2, 3], [3, 0, 2, 1], [1, 3, 0, 2]]}
OUT = {3: ['[({0: 1}, 1.0)]', '[({1: 1}, 1.0)]', '[({0: 1, 2: 1}, 0.25), ({1: 1}, 0.75)]', '[({2: 1}, 0.5), ({0: 1, 1: 1}, 0.25), ({}, 0.25)]'],
       4: ['[({0: 1, 3: 1}, 0.25), ({1: 1, 3: 1}, 0.25), ({2: 1}, 0.5)]', '[({3: 1}, 1.0)]']}


def measure(order, how):
    if how == 'each':
        return '\n    '.join(f'Measure | q[{i}]' for i in order)
    return f'All(Measure) | [q[i] for i in {order}]'


def check(chk):
    chk.rule('device', 'a hardware backend registers exactly one result per measured qubit under its logical id: the bit of its location', 100)
    chk.rule('probability', 'the probabilities reported for a register are the marginals of the outcomes of its qubits, in the order of the register', 100)
    chk.rule('simulator', 'a simulator registers the bit of the simulated qubit under the logical id', 20)
    chk.rule('emulator', 'printer, drawers and resource counter register one result per measured qubit under the logical id', 20)
    chk.rule('read', 'reading the qubit after the flush gives the registered bit; other qubits have no result', 100)
    chk.rule('freed', 'qubits freed before the flush do not keep the other measured qubits from getting their results', 20)
    chk.assume = ['Services return the outcomes listed in the program; the compiled simulator returns the bits listed in the program.',
                  'The outcome chosen among several is any of those with positive probability.']
    for dev in DEVICES:
        for n in (3, 4):
            for perm in PERMS[n] if chk.thorough else PERMS[n][1:]:
                for outc in OUT[n]:
                    orders = [list(p) for r in range(1, n + 1) for p in itertools.permutations(range(n), r)]
                    if not chk.thorough:
                        orders = [o for k, o in enumerate(orders) if n == 3 and k % 3 == 0 or k % 12 == 5]
                    for k, order in enumerate(orders):
                        device(chk, dev, n, perm, outc, order, 'each' if k % 2 else 'all')
        for outc in OUT[4]:
            for order, freed in (([0, 1, 3], [0]), ([3, 1], [1]), ([2, 3], [0, 1]), ([1, 2, 0], [3, 0]), ([0, 1, 2, 3], [2, 1]), ([2], [0, 1, 3])):
                freeing(chk, dev, 4, outc, order, freed)
    sims(chk)
    return ('Programs allocate a register behind a mapper with a fixed permutation, measure some qubits in some order, flush, and read results and probabilities; '
            'followed through the backends, their HTTP clients and models of the services to the registration of the results.')


def outcomes(text, n):
    return [({k: 1 for k in b}, p) for b, p in eval(text)]  # literal of this file


def device(chk, dev, n, perm, outc, order, how):
    if not chk.mine():
        return
    loc = chk.prog.cls(LOC[dev], 'projectq.backends').loc()
    inst = f'{dev}: locations {perm}, outcomes {outc}, measured {order}'
    with chk.guard('device', inst):
        regs = [order, order[::-1], order[:1], order[1:] + order[:1]]
        regs = [r for i, r in enumerate(regs) if r not in regs[:i]]
        src = SRC % {'service': DEVICES[dev][0], 'outcomes': outc, 'backend': hwsem.backend(dev), 'perm': dict(enumerate(perm)), 'n': n, 'order': order,
                     'measure': measure(order, how), 'unmeasured': [i for i in range(n) if i not in order], 'regs': regs, 'single': 'pass'}
        C = Client(chk.prog, src, prelude=HEAD, stubs=STUBS)
        try:
            outs = C.run('client')
            chk.saw(C.I, outs)
            if not outs:
                return chk.unknown('device', inst, 'no path')
            outl = outcomes(outc, n)
            for st, v in outs:
                bad = judge(C, st, v, order, outl, perm)
                if bad is None:
                    continue
                rule, msg, where = bad
                if rule == '?' or not all(clean(f) for f in st.facts):
                    return chk.unknown('device', inst, msg)
                return chk.fail(rule, dev, where or loc, f'{inst}: {msg}')
            chk.ok('device', inst)
            chk.ok('probability', inst)
            chk.ok('read', inst)
        finally:
            C.close()


def freeing(chk, dev, n, outc, order, freed):
    if not chk.mine():
        return
    inst = f'{dev}: outcomes {outc}, measured {order}, freed {freed}'
    with chk.guard('freed', inst):
        live = [i for i in order if i not in freed]
        src = FREED % {'service': DEVICES[dev][0], 'outcomes': outc, 'backend': hwsem.backend(dev), 'n': n, 'order': order, 'freed': freed, 'live': live,
                       'regs': [live, live[::-1]] if len(live) > 1 else [live]}
        C = Client(chk.prog, src, prelude=HEAD, stubs=STUBS)
        try:
            outs = C.run('client')
            chk.saw(C.I, outs)
            if not outs:
                return chk.unknown('freed', inst, 'no path')
            for st, v in outs:
                bad = judge(C, st, v, order, outcomes(outc, n), list(range(n)), freed)
                if bad is None:
                    continue
                rule, msg, where = bad
                if rule == '?' or not all(clean(f) for f in st.facts):
                    return chk.unknown('freed', inst, msg)
                return chk.fail('freed', dev, where or chk.prog.cls(LOC[dev], 'projectq.backends').loc(), f'{inst}: {msg}')
            chk.ok('freed', inst)
        finally:
            C.close()


def plain(v):
    if isinstance(v, K):
        return v.v
    if isinstance(v, tuple) and v and v[0] == 'list':
        return [plain(x) for x in v[1:]]
    return v


def judge(C, st, v, order, outl, perm, freed=()):
    tr = trace(st)
    if tr is None:
        return '?', 'loop of unknown length', None
    sets, reads, probs = [], {}, []
    for x in tr:
        if x[0] != 'probe':
            continue
        a = [plain(y) for y in x[1]]
        if a[0] == 'set':
            sets.append((a[1], a[2], x[3].loc))
        elif a[0] == 'read':
            reads[a[1]] = a[2]
        elif a[0] == 'phantom':
            return 'read', f'qubit {a[1]} was not measured but has a result', None
        elif a[0] == 'prob':
            try:
                probs.append((a[1], C.I.pyval(st, x[3].args[2])))
            except Exception:
                return '?', f'probabilities {a[2]}', None
    if isinstance(v, Exc):
        return 'device', f'raises {v.name} at {v.loc}', v.loc
    # the result of a freed qubit cannot be read: it may be left out
    have = sorted(str(s[0]) for s in sets)
    order = [i for i in order if i not in freed or str(i) in have]
    if have != sorted(str(i) for i in order):
        return 'device', f'results are registered for {[s[0] for s in sets]} but {order} were measured', None
    got = {}
    for i, b, _ in sets:
        if not isinstance(b, (int, bool)) or b not in (0, 1):
            if isinstance(b, (str, float)) or isinstance(b, (int, bool)):
                return 'device', f'the result of qubit {i} is {b!r}, not a bit', None
            return '?', f'result {b}', None
        got[i] = int(b)
    cands = [{i: b.get(perm[i], 0) for i in order} for b, p in outl if p > 0]
    if got not in cands:
        return 'device', f'registered {got}; the outcomes for these qubits are {cands}', None
    if reads != {i: b for i, b in got.items() if i not in freed}:
        return 'read', f'registered {got} but reading gives {reads}', None
    for reg, d in probs:
        want = {}
        for b, p in outl:
            k = ''.join(str(b.get(perm[i], 0)) for i in reg)
            want[k] = want.get(k, 0) + p
        d2 = {k: p for k, p in d.items() if p != 0} if isinstance(d, dict) else d
        if not isinstance(d2, dict) or set(d2) != set(want) or any(abs(d2[k] - want[k]) > 1e-2 for k in want):
            return 'probability', f'probabilities of {reg} are {d}, expected {want}', None
    return None


def sims(chk):
    cases = []
    for order in ([0], [2, 1], [3, 0, 1], [1, 3, 2, 0]):
        for perm in (None, [2, 0, 3, 1], [1, 2, 3, 0]):
            for bits in ({0: 1, 1: 0, 2: 0, 3: 1}, {0: 0, 1: 1, 2: 0, 3: 0}):
                cases.append((order, perm, bits))
    for order, perm, bits in cases:
        loc = lambda i: i if perm is None else perm[i]  # noqa: E731
        truth = {i: bits[loc(i)] for i in order}
        for b in ('Simulator()', 'Simulator(gate_fusion=True)'):
            sim(chk, 'simulator', b, order, perm, bits, [truth])
        ones = [i for i in range(4) if bits[loc(i)]]
        sim(chk, 'simulator', 'ClassicalSimulator()', order, perm, {}, [truth], prepare='\n    '.join(f'X | q[{i}]' for i in ones) or 'pass')
        sim(chk, 'simulator', 'TellingUnitarySimulator()', order, perm, bits, [truth], flush='eng.flush()')
        if order == [3, 0, 1] or chk.thorough:
            for m in (False, True):
                for b in (f'CommandPrinter(accept_input=False, default_measure={m})', f'CircuitDrawer(accept_input=False, default_measure={int(m)})',
                          f'CircuitDrawerMatplotlib(accept_input=False, default_measure={int(m)})'):
                    sim(chk, 'emulator', b, order, perm, {}, [{i: int(m) for i in order}])
            sim(chk, 'emulator', 'ResourceCounter()', order, perm, {}, [{i: 0 for i in order}])
            for b in ('CommandPrinter(accept_input=True)', 'CircuitDrawer(accept_input=True)', 'CircuitDrawerMatplotlib(accept_input=True)'):
                typed = {i: (k + 1) % 2 for k, i in enumerate(order)}
                sim(chk, 'emulator', b, order, perm, {}, [typed])


def sim(chk, rule, backend, order, perm, bits, truths, prepare='pass', flush='pass'):
    if not chk.mine():
        return
    name = backend.replace('Telling', '')
    inst = f'{name}: locations {perm}, bits {bits}, measured {order}'
    with chk.guard(rule, inst):
        src = SIMSRC % {'backend': backend, 'engines': '[]' if perm is None else f'[PermutingMapper({dict(enumerate(perm))})]', 'bits': bits, 'order': order,
                        'measure': measure(order, 'each'), 'unmeasured': [i for i in range(4) if i not in order], 'prepare': prepare, 'flush': flush}
        C = Client(chk.prog, src, prelude=PRELUDE, stubs=('networkx', 'projectq.backends._sim._cppsim'))
        try:
            outs = C.run('client')
            chk.saw(C.I, outs)
            if not outs:
                return chk.unknown(rule, inst, 'no path')
            loc = chk.prog.cls(name.split('(')[0], 'projectq.backends').loc()
            for st, v in outs:
                bad = judge_sim(C, st, v, order, truths)
                if bad is None:
                    continue
                r, msg, where = bad
                if r == '?' or not all(clean(f) for f in st.facts):
                    return chk.unknown(rule, inst, msg)
                return chk.fail(r if r == 'read' else rule, name, where or loc, f'{inst}: {msg}')
            chk.ok(rule, inst)
            chk.ok('read', inst)
        finally:
            C.close()


def judge_sim(C, st, v, order, truths):
    perm = {i: i for i in order}
    return judge(C, st, v, order, [(t, 1) for t in truths], perm)
