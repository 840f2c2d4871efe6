"""C09: a flush empties every buffer before it is passed on."""
import random
import re
from collections import Counter

from ..client import Client, clean, trace
from ..mapsem import HEAD, gname, program
from ..values import Exc

TECHNIQUE = ('interprocedural abstract interpretation of most-general clients on every buffering engine and on chains of them: the commands an engine receives and '
             'the commands that leave the chain are compared at every flush')
PARALLEL = True
PRE = HEAD + '''
from projectq.cengines import *
from projectq.cengines._replacer._replacer import *
from projectq.backends import *


class Front(BasicEngine):
    """Shows what is received."""

    def receive(self, command_list):
        for cmd in command_list:
            probe('in', cmd)
        self.send(command_list)


class Inert(BasicGate):
    """A gate nobody can merge or cancel."""

    def __init__(self, num):
        super().__init__()
        self.num = num

    def __eq__(self, other):
        return isinstance(other, Inert) and self.num == other.num

    def __hash__(self):
        return hash(str(self.num))

    def __str__(self):
        return str(self.num)


def same(cmd):
    return cmd


def anything(eng, cmd):
    return True


'''
RULES = 'AutoReplacer(DecompositionRuleSet(modules=[]))'
# engine (text), kind of the program, swaps allowed
SINGLE = [(f'LocalOptimizer({n})', 'free') for n in (1, 2, 3, 5, 10, 100)]
SINGLE += [(f'LinearMapper({n}, {c}, {s})', 'map') for n, c, s in ((4, False, 1), (5, False, 1000), (5, True, 3), (4, True, 1000))]
SINGLE += [('GridMapper(2, 2, None, storage=3)', 'map'), ('GridMapper(2, 3, None, storage=1000)', 'map'), ('GridMapper(1, 4, None, storage=1)', 'map')]
SINGLE += [('BoundedQubitMapper(11)', 'map')]
SINGLE += [(RULES, 'free'), ('TagRemover()', 'free'), ('InstructionFilter(anything)', 'free'), ('CommandModifier(same)', 'free'), ('ManualMapper(shift)', 'free'),
           ('ResourceCounter()', 'free'), ('CommandPrinter(accept_input=False)', 'free'), ('CompareEngine()', 'free'), ('DummyEngine()', 'free'),
           ('CircuitDrawer(accept_input=False)', 'free')]
PAIRS = [['TagRemover()', 'LocalOptimizer(4)', RULES, 'TagRemover()', 'LocalOptimizer(3)'],
         ['LocalOptimizer(100)', 'LocalOptimizer(100)'],
         [RULES, 'LinearMapper(5, False, 1000)', 'LocalOptimizer(50)'],
         ['LocalOptimizer(3)', 'GridMapper(2, 3, None, storage=4)', RULES, 'LocalOptimizer(7)'],
         ['LinearMapper(6, True, 2)', 'LocalOptimizer(5)'],
         ['BoundedQubitMapper(11)', 'LocalOptimizer(9)'],
         ['ResourceCounter()', 'LocalOptimizer(6)', 'InstructionFilter(anything)', 'ManualMapper(shift)', 'LocalOptimizer(6)']]
DENSE = ['LinearMapper(6, False, 1000)', 'LinearMapper(5, True, 1000)', 'GridMapper(2, 3, None, storage=1000)']
SRC = '''
def client():
    eng = main_engine(Recorder(), [Front(), %s])
    q = {}
%s
'''
SIM = """
import projectq.backends._sim._cppsim as native
from projectq.backends import *


class Front(BasicEngine):
    def receive(self, command_list):
        for cmd in command_list:
            probe('in', cmd)
        self.send(command_list)


def client():
    sim = Simulator(gate_fusion=%s)
    eng = main_engine(sim, [Front()])
    q = {}
%s
"""
UNITARY = """
from projectq.backends import *


def snap(sim):
    probe('snap', [[x for x in row] for row in sim.unitary], [[[x for x in row] for row in m] for m in sim.history])


def client():
    sim = UnitarySimulator()
    eng = main_engine(sim, [])
    q = {}
%s
"""


def check(chk):
    chk.rule('engine', 'one engine of the library: at a flush everything received so far has been sent on, the flush is sent on exactly once and last, and nothing is sent '
             'before new commands arrive', 20)
    chk.rule('chain', 'the same for chains of several buffering engines', 5)
    chk.rule('idle', 'further flushes without commands in between pass exactly one flush and nothing else', 5)
    chk.rule('rounds', 'a mapper which needs many mappings to send what it has stored sends all of it before the flush', 4)
    chk.rule('simulator', 'the simulators have applied every command they received when a flush returns; a second flush changes nothing', 2)
    rnd = random.Random(chk.seed * 31 + 9)
    big = 6 if chk.thorough else 1
    for text, kind in SINGLE:
        name = text.split('(')[0]
        for k in range(3 * big):
            width = 4 if kind == 'map' else 5
            lines = prog(rnd, width, rnd.randint(5, 18))
            judge(chk, 'engine', f'{text}, program {k}', text, lines, name, kind)
        judge(chk, 'idle', text, text, ['q[0] = eng.allocate_qubit()', 'Inert(1) | q[0][0]'] + FL * 3 + ['Inert(2) | q[0][0]'] + FL * 2, name, kind)
    for text in DENSE:
        for k in range(2 * big):
            judge(chk, 'rounds', f'{text}, program {k}', text, dense(rnd, 6 if k % 2 == 0 and '(5' not in text else 5, k), text.split('(')[0], 'map')
    for engines in PAIRS:
        text = ', '.join(engines)
        kind = 'map' if 'LinearMapper' in text or 'GridMapper' in text or 'Bounded' in text else 'free'
        for k in range(3 * big):
            lines = prog(rnd, 4, rnd.randint(6, 18))
            judge(chk, 'chain', f'{text}, program {k}', text, lines, 'chain', kind)
        judge(chk, 'idle', text, text, ['q[0] = eng.allocate_qubit()', 'Inert(1) | q[0][0]'] + FL * 3 + ['Inert(2) | q[0][0]'] + FL * 2, 'chain', kind)
    for k in range(6 * big):
        lines = [re.sub(r'Inert\((\d+)\) \| \(', r'Rzz(\1) | (', x).replace('C(Inert(', 'C(Ry(').replace('Inert(', 'Ry(') for x in prog(rnd, 4, rnd.randint(6, 18))]
        simulator(chk, k, lines, k % 2 == 0)
    for k in range(4 * big):
        unitary(chk, k, rnd)
    chk.assume = ['Programs of up to 5 live qubits and about 20 commands on gates that no engine can merge or cancel; networkx by a model of its graph functions.',
                  'Hardware backends are the subject of C23 (what a flush runs), the simulators are analysed against a recording model of the compiled simulator.']
    return ('Every engine is analysed with clients of random content and flush positions; at every flush the commands that left the chain since the previous flush must be '
            'those received since then, followed by exactly one flush.')


FL = ['probe("before")', 'eng.flush()', 'probe("flushed")']
TWO = ['Inert({n}) | (q[{a}][0], q[{b}][0])', 'CNOT | (q[{a}][0], q[{b}][0])', 'C(Inert({n})) | (q[{a}][0], q[{b}][0])']
ONE = ['Inert({n}) | q[{a}][0]'] * 3 + ['Measure | q[{a}][0]']


def prog(rnd, width, length):
    out, live, n, last = [], [], 0, None
    for _ in range(rnd.randint(2, width)):
        out += [f'q[{n}] = eng.allocate_qubit()', f'Inert({n}) | q[{n}][0]']
        live.append(n)
        n += 1
    for k in range(length):
        r = rnd.random()
        if r < 0.12:
            out += FL
        elif r < 0.2 and len(live) < width:
            out += [f'q[{n}] = eng.allocate_qubit()', f'Inert({n}) | q[{n}][0]']
            live.append(n)
            n += 1
        elif r < 0.28 and len(live) > 2:
            x = live.pop(rnd.randrange(len(live)))
            out.append(f'q[{x}][0].__del__()')
        elif r < 0.55:
            out.append(rnd.choice(ONE).format(a=rnd.choice(live), n=100 + k))
        else:
            a, b = rnd.sample(live, 2)
            # two equal CNOTs in a row would cancel
            out += [f'Inert({200 + k}) | q[{b}][0]', rnd.choice(TWO).format(a=a, b=b, n=300 + k)]
    return out + FL + rnd.choice(([], FL, ['Inert(77) | q[%d][0]' % live[0]] + FL))


def dense(rnd, width, k):
    """Every pair of qubits interacts: cannot be sent with one or two mappings."""
    out = []
    for n in range(width):
        out += [f'q[{n}] = eng.allocate_qubit()', f'Inert({n}) | q[{n}][0]']
    pairs = [(a, b) for a in range(width) for b in range(width) if a < b]
    for rep in range(2):
        rnd.shuffle(pairs)
        for i, (a, b) in enumerate(pairs):
            n = 1000 * (rep + 1) + i
            out += [f'Inert({n}) | q[{b}][0]', rnd.choice(TWO).format(a=a, b=b, n=n + 500)]
        if k % 2:
            out += FL
    return out + FL


def plain(p, mapped):
    """What stays the same of a command through the whole chain."""
    n = gname(p)
    if mapped:
        if n in ('SwapGate', 'AllocateQubitGate', 'DeallocateQubitGate'):
            return None
        return str(p[0]), tuple(len(r) for r in p[1]), len(p[2]), str(p[3])
    return str(p[0]), tuple(len(r) for r in p[1]), len(p[2]), str(p[3])


def word(x):
    return getattr(x[1][0], 'v', None)


def verdict(t, mapped):
    """t: trace entries ('send', cmd..) and ('probe', data..)."""
    received, sent, fl_in, fl_out, n = Counter(), Counter(), 0, 0, 0
    closed = False
    for x in t:
        if x[0] == 'probe' and word(x) == 'in':
            p = x[1][1]
            closed = False
            if gname(p) == 'FlushGate':
                fl_in += 1
            else:
                k = plain(p, mapped)
                if k is not None:
                    received[k] += 1
        elif x[0] == 'send':
            if closed:
                return 'late', f'after flush {n} was over, {gname(x[1])} is sent although nothing was received'
            if gname(x[1]) == 'FlushGate':
                fl_out += 1
                if fl_out > fl_in:
                    return 'twice', f'flush {fl_in} is passed on more than once'
                miss = received - sent
                if miss:
                    return 'kept', f'flush {fl_in} is passed on before {show(miss)}'
            else:
                if fl_out == fl_in and n < fl_in:
                    return 'behind', f'{gname(x[1])} is sent behind flush {fl_in} although it was received before it'
                k = plain(x[1], mapped)
                if k is not None:
                    sent[k] += 1
                    if sent[k] > received[k]:
                        return 'again', f'{k[0]} is sent {sent[k]} times but was received {received[k]} times'
        elif x[0] == 'probe' and word(x) == 'flushed':
            n += 1
            if fl_out != fl_in:
                return 'lost', f'flush {n} is not passed on'
            miss = received - sent
            if miss:
                return 'kept', f'after flush {n} the engine still keeps {show(miss)}'
            closed = True
    return None


def show(c):
    return ', '.join(k[0] for k in list(c)[:3])


def judge(chk, rule, inst, engines, lines, construct, kind):
    if not chk.mine():
        return
    with chk.guard(rule, inst):
        C = Client(chk.prog, SRC % (engines, '\n'.join('    ' + x for x in lines)), prelude=PRE, stubs=('networkx', 'random'), budget=3000000)
        try:
            outs = C.run('client')
            chk.saw(C.I, outs)
            for st, v in outs:
                t = trace(st)
                if t is None or any(x[0] == 'send' and (x[1] is None or x[1][1] is None) for x in t):
                    chk.unknown(rule, inst, f'unknown commands or no trace: {v}')
                    return
                bad = ('raises', f'raises {v.name} at {v.loc}') if isinstance(v, Exc) else verdict(t, kind == 'map')
                if bad:
                    if st.facts and not all(clean(f) for f in st.facts):
                        chk.unknown(rule, inst, f'depends on an unknown condition: {bad[1]}')
                        return
                    ci = None if construct == 'chain' else chk.prog.cls(construct)
                    where = next((x[3].loc for x in reversed(t) if x[0] == 'send'), '')
                    chk.fail(rule, f'{construct}/{bad[0]}', ci.loc() if ci else where, f'{inst}: {bad[1]}; program: ' + '; '.join(lines)[:400])
                    return
            if not outs:
                chk.unknown(rule, inst, 'no path')
                return
            chk.ok(rule, inst)
        finally:
            C.close()


def paths(chk, rule, inst, src, loc, construct, verdict, prelude, stubs):
    if not chk.mine():
        return
    with chk.guard(rule, inst):
        C = Client(chk.prog, src, prelude=prelude, stubs=stubs, budget=3000000)
        try:
            outs = C.run('client')
            chk.saw(C.I, outs)
            for st, v in outs:
                t = trace(st)
                if t is None:
                    chk.unknown(rule, inst, f'no trace: {v}')
                    return
                bad = f'raises {v.name} at {v.loc}' if isinstance(v, Exc) else verdict(t)
                if bad:
                    if st.facts and not all(clean(f) for f in st.facts):
                        chk.unknown(rule, inst, f'depends on an unknown condition: {bad}')
                        return
                    chk.fail(rule, construct, loc, f'{inst}: {bad}')
                    return
            if not outs:
                chk.unknown(rule, inst, 'no path')
                return
            chk.ok(rule, inst)
        finally:
            C.close()


CALL = {'AllocateQubitGate': 'allocate_qubit', 'DeallocateQubitGate': 'deallocate_qubit', 'MeasureGate': 'measure_qubits'}


def simulator(chk, k, lines, fusion):
    def judge_sim(t):
        want, got, pending, n = Counter(), Counter(), False, 0
        for x in t:
            w = word(x) if x[0] == 'probe' else None
            if w == 'in':
                g = gname(x[1][1])
                if g != 'FlushGate':
                    want[CALL.get(g, 'apply_controlled_gate')] += 1
            elif w == 'sim':
                name = x[1][1].v
                if name == 'run':
                    pending = False
                elif name in ('allocate_qubit', 'deallocate_qubit', 'measure_qubits', 'apply_controlled_gate'):
                    got[name] += 1
                    pending = pending or name == 'apply_controlled_gate'
                    if got[name] > want[name]:
                        return f'{name} is called {got[name]} times for {want[name]} commands'
            elif w == 'flushed':
                n += 1
                if want - got:
                    return f'after flush {n} {", ".join(want - got)} has not been called for every command received before it'
                if pending:
                    return f'gates are still waiting in the compiled simulator after flush {n}'
        return None
    ci = chk.prog.cls('Simulator', 'projectq.backends')
    paths(chk, 'simulator', f'Simulator(gate_fusion={fusion}), program {k}', SIM % (fusion, '\n'.join('    ' + x for x in lines)), ci.methods['receive'].loc(), 'Simulator.receive',
          judge_sim, HEAD, ('networkx', 'projectq.backends._sim._cppsim'))


def unitary(chk, k, rnd):
    gates = ['X | q[{a}]', 'CNOT | (q[{a}], q[{b}])', 'Swap | (q[{a}], q[{b}])', 'S | q[{a}]', 'H | q[{a}]', 'Z | q[{b}]']
    body = ['q = eng.allocate_qureg(2)']
    for part in range(rnd.randint(1, 2)):
        for _ in range(rnd.randint(1, 4)):
            a, b = rnd.sample(range(2), 2)
            body.append(rnd.choice(gates).format(a=a, b=b))
        body += ['eng.flush()', 'snap(sim)', 'eng.flush()', 'eng.flush()', 'snap(sim)']
        if rnd.random() < 0.6:
            body += ['Measure | q[0]', 'eng.flush()', 'snap(sim)', 'eng.flush()', 'snap(sim)']

    def judge_unitary(t):
        snaps = [x[1] for x in t if x[0] == 'probe' and word(x) == 'snap']
        for i in range(0, len(snaps), 2):
            if str(snaps[i]) != str(snaps[i + 1]):
                return f'a flush without new commands changes the unitary or the history: {"; ".join(body)}'
        return None
    ci = chk.prog.cls('UnitarySimulator', 'projectq.backends')
    paths(chk, 'simulator', f'UnitarySimulator, program {k}', UNITARY % '\n'.join('    ' + x for x in body), ci.methods['receive'].loc(), 'UnitarySimulator', judge_unitary, HEAD,
          ('networkx', 'random', 'numpy'))
