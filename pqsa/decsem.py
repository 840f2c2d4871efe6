"""Decomposition rules followed on single commands: what the rule emits, as operation on all qubits involved."""
import cmath
import math
import random

from . import composite
from .alg import Circuit, Gates, Unreadable, add, at, differs, mul, value, zero
from .client import PRELUDE, Client, clean, trace
from .values import Exc, K, T

STUBS = ('networkx', 'random', 'numpy')
HEAD = PRELUDE + '''
import math
import numpy
import projectq.setups.decompositions as decompositions
import projectq.libs.math._default_rules as libmath
from projectq.ops._command import Command
from projectq.ops import *
from projectq.libs.math import *
from projectq.ops import UniformlyControlledRy, UniformlyControlledRz, StatePreparation, TimeEvolution, QubitOperator


def all_rules():
    return list(decompositions.all_defined_decomposition_rules) + list(libmath.all_defined_decomposition_rules)

'''
LIST = '''
def client():
    for r in all_rules():
        probe('rule', r.gate_class, r.gate_decomposer)
'''
RUN = '''
def client(%(params)s):
    eng = main_engine()
    q = eng.allocate_qureg(%(width)d)
    rule = all_rules()[%(rule)d]
    gate = %(gate)s
    if isinstance(gate, rule.gate_class):
        for ctrl, state in %(controls)s:
            cmd = Command(eng, gate, tuple([[q[i] for i in t] for t in %(targets)s]))
            if ctrl:
                cmd.add_control_qubits([q[i] for i in ctrl], state)
            if rule.gate_recognizer(cmd):
                probe('start', cmd)
                rule.gate_decomposer(cmd)
                probe('end')
                probe('chain', eng.next_engine.is_last_engine)
'''


def rules(chk):
    """[(index, gate class name, decomposer, location)]."""
    C = Client(chk.prog, LIST, prelude=HEAD, stubs=STUBS, floats=True)
    try:
        outs = C.run('client')
        if len(outs) != 1:
            return None
        st, v = outs[0]
        res = []
        for x in trace(st):
            if x[0] == 'probe':
                _, cls, fn = x[2]
                ci, fi = getattr(cls, 'ci', None), getattr(fn, 'fi', None)
                res.append((len(res), ci.name if ci else '?', fi.name if fi else '?', fi.loc() if fi else ''))
        return res
    finally:
        C.close()


class Step:
    """One use of a rule on one path."""

    def __init__(self, cmd, parts, loc):
        self.cmd, self.parts, self.loc = cmd, parts, loc
        self.out = []
        self.done = False


def steps(st):
    """The uses of the rule on a path and the other probes; None if commands are unknown."""
    tr = trace(st)
    if tr is None:
        return None
    res, probes = [], []
    for x in tr:
        if x[0] == 'probe':
            what = x[2][0].v
            if what == 'start':
                res.append(Step(x[2][1], x[1][1], x[3].loc))
            elif what == 'end':
                res[-1].done = True
            else:
                probes.append(x)
        elif res and not res[-1].done:
            res[-1].out.append((x[2], x[1], x[3].loc))
    return res, probes


def ids(xs):
    xs = None if xs is None else [x.v if isinstance(x, K) else x for x in xs]
    if xs is None or any(not isinstance(x, int) for x in xs):
        raise Unreadable(f'qubits {xs}')
    return xs


def parts(p):
    """(registers, [(control, bit)]) of a command description."""
    if p is None or p[1] is None or p[2] is None or not isinstance(p[3], K) or len(p[3].v) != len(p[2]):
        raise Unreadable(f'command {p}')
    return [ids(r) for r in p[1]], [(q, b == '1') for q, b in zip(ids(p[2]), p[3].v)]


META = ('AllocateQubitGate', 'AllocateDirtyQubitGate', 'DeallocateQubitGate')


def run_step(G, step, vecs, circ, env=None, skip=None):
    """Apply the emitted commands to the vectors."""
    for cmd, p, loc in step.out:
        regs, ctrl = parts(p)
        g, _ = G.C.S.getattr(G.st, cmd, 'gate')
        n = G.name(g)
        if n in META[:2]:
            circ.alloc(regs[0][0])
            continue
        if n == META[2]:
            circ.dealloc(regs[0][0], vecs)
            continue
        if n in ('FlushGate', 'BarrierGate'):
            continue
        vecs = [composite.apply(G, circ, g, regs, ctrl, v, env) for v in vecs]
    return vecs


def generic(circ, qubits, seed=7, where=None):
    rnd = random.Random(seed)
    vec = {0: 1}
    vec = {}
    for i in range(1 << len(qubits)):
        idx = sum(circ.bit(q) for j, q in enumerate(qubits) if i >> j & 1)
        if where is None or where(idx):
            vec[idx] = complex(rnd.uniform(0.3, 1) * rnd.choice((1, -1)), rnd.uniform(-1, 1))
    return vec


def tiny(st):
    """The path belongs to angles within the rounding tolerance of the end of a period."""
    for f, b in st.facts.items():
        if b and isinstance(f, T) and f.op == 'cmp' and f.args[0] == '<':
            lo, x = value(f.args[1], {}), f.args[2]
            while isinstance(x, T) and x.op in ('round', 'float'):
                x = x.args[0]
            if isinstance(lo, (int, float)) and isinstance(x, T) and x.op == 'mod':
                per = value(x.args[1], {})
                if isinstance(per, float) and 0 <= per - lo < 1e-6:
                    return True
    return False


def samples(names, seed=3):
    rnd = random.Random(seed)
    special = [0.0, math.pi / 2, math.pi, 1.5 * math.pi, 2 * math.pi, 3 * math.pi, -math.pi / 2, -math.pi, 2.5 * math.pi]
    for i in range(160):
        yield {n: rnd.choice(special) if i % 4 == 0 else rnd.uniform(-14, 14) for n in names}


def symbols(names):
    return [T('sym', n) for n in names]


def possible(st, env):
    """Do the conditions of the path hold for these values? None if that is unknown."""
    for f, b in st.facts.items():
        v = value(f, env)
        if v is None:
            return None
        if bool(v) != b:
            return False
    return True


def compare(got, want, phase):
    """Do two vectors differ (up to a common factor if phase)? -> index or None."""
    if not phase:
        return differs(got, want)
    i = max(want, key=lambda j: abs(complex(at(want[j], {}))) if not isinstance(want[j], dict) else max(abs(c) for c in want[j].values()))
    f, w = got.get(i, 0), want[i]
    return differs({j: mul(a, w) for j, a in got.items()}, {j: mul(a, f) for j, a in want.items()}) if not zero(f) else i
