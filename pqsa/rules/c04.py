"""C04: gate-level decomposition rules implement exactly the gate they replace."""
import math

from .. import decsem
from ..alg import Circuit, Gates, Unreadable
from ..client import Client, clean
from ..decsem import HEAD, RUN, STUBS
from ..model import AnalysisError
from ..values import Exc

PARALLEL = True
TECHNIQUE = ('abstract interpretation of every shipped decomposition rule on its gates with symbolic angles and several control configurations; the emitted '
             'sequence is compared with the gate in an exact algebra of characters exp(i(a theta + b pi)), phase included')
FIXED = ['X', 'Y', 'Z', 'H', 'S', 'T', 'Sdag', 'Tdag', 'SqrtX', 'get_inverse(SqrtX)']
ROT = ['Rx', 'Ry', 'Rz', 'R', 'Ph']
NUM = ['0.9', '-2.4', '7.3', 'math.pi', '3 * math.pi', '0.0']
TWO = ['Swap', 'SqrtSwap', 'get_inverse(SqrtSwap)']
TWOROT = ['Rxx', 'Ryy', 'Rzz']
GENERIC = [(0.7, 1.1, -0.4, 0.0), (2.3, -2.9, 0.9, 1.3), (math.pi / 2, 0.7, 0.0, 2.2), (0.0, 1.9, 0.0, -0.6), (math.pi / 4, math.pi, math.pi / 2, math.pi / 4),
           (1e-3, 2.0, 1.0, 0.5), (1.2, 0.0, math.pi, -math.pi / 2), (math.pi / 2, math.pi, 0.0, math.pi), (3.0, -0.2, -3.0, 3.1), (math.pi, 0.0, 1.0, 0.0)]
LISTING = '''
def client():
    for i, g in enumerate([%s]):
        for j, r in enumerate(all_rules()):
            if isinstance(g, r.gate_class):
                probe(i, j)
'''
POSITIVE = [([], ''), ([3], '1'), ([4, 2], '11'), ([2, 5, 3], '111'), ([5, 2, 4, 3], '1111')]
NEGATIVE = [([3], '0'), ([4, 2], '10'), ([4, 2], '01'), ([2, 4], '00'), ([2, 5, 3], '010'), ([2, 5, 3], '001')]


def catalogue(thorough):
    """[(source text, symbols, number of qubits)]"""
    out = [(g, (), 1) for g in FIXED] + [(g, (), 2) for g in TWO]
    for g in ROT:
        out.append((f'{g}(a)', ('a',), 1))
        out.append((f'get_inverse({g}(a))', ('a',), 1))
        out += [(f'{g}({x})', (), 1) for x in (NUM if thorough else NUM[:4])]
    for g in TWOROT:
        out.append((f'{g}(a)', ('a',), 2))
    out += [(f'MatrixGate({g}.matrix)', (), 1) for g in ('H', 'T', 'Y')]
    for th, ph, la, al in GENERIC if thorough else GENERIC[:4]:
        e = f'cmath.exp(1j * ({al}))'
        out.append((f'MatrixGate([[{e} * math.cos({th}), -cmath.exp(1j * ({al} + {la})) * math.sin({th})], [cmath.exp(1j * ({al} + {ph})) * math.sin({th}), '
                    f'cmath.exp(1j * ({al} + {ph} + {la})) * math.cos({th})]])', (), 1))
    out += [('QFT', (), n) for n in (1, 2, 3, 4)]
    out += [('Barrier', (), 2)]
    return out


def listing(chk, gates):
    src = 'import cmath\n' + LISTING % ', '.join(g.replace('(a)', '(0.3)') for g, _, _ in gates)
    C = Client(chk.prog, src, prelude=HEAD, stubs=STUBS, floats=True)
    try:
        from ..client import trace
        outs = C.run('client')
        if len(outs) != 1 or isinstance(outs[0][1], Exc):
            return None
        res = {}
        for x in trace(outs[0][0]):
            i, j = (a.v for a in x[2])
            res.setdefault(i, []).append(j)
        return res
    finally:
        C.close()


def check(chk):
    chk.rule('exact', 'the commands a rule emits act on all qubits as the replaced command does, for every angle, phase included', 60)
    chk.rule('negative', 'rules for negative controls act as the gate under exactly these control values', 10)
    gates = catalogue(chk.thorough)
    rules = decsem.rules(chk)
    table = listing(chk, gates)
    if rules is None or table is None:
        raise AnalysisError('the registered decomposition rules cannot be read')
    for i, (g, syms, k) in enumerate(gates):
        for j in table.get(i, ()):
            one(chk, g, syms, k, rules[j])
    chk.assume = ['Controls: none to four positive controls, up to three with negative ones; the emitted gates have the meaning in pqsa/unitary.py (C03 compares the library with it).',
                  'Angles within the rounding tolerance of the end of a period are not considered (they are treated as zero by the library).',
                  'Gates whose rule solves for angles numerically (arbitrary one-qubit gates) are followed for the fixed gates and a few angles only.']
    return ('For each registered rule, each gate of its class and each control configuration its recognizer accepts, the decomposer is analysed with a symbolic angle; the emitted '
            'commands are applied to a generic state with exact symbolic amplitudes and compared with the gate itself.')


def one(chk, gate, syms, k, rule):
    if not chk.mine():
        return
    idx, cls, name, loc = rule
    inst = f'{name} on {gate}' + (f' ({k} qubits)' if gate == 'QFT' else '')
    targets = [[0], [1]] if k == 2 and gate not in ('QFT', 'Barrier') else [list(range(k))]
    conf = POSITIVE if k <= 2 else [(c, s) for c, s in POSITIVE if all(x >= k for x in c)]
    try:
        n = verify(chk, 'exact', inst, gate, syms, k, rule, targets, conf)
        if n == 0:
            conf = [(c, s) for c, s in NEGATIVE if all(x >= k for x in c)]
            verify(chk, 'negative', inst, gate, syms, k, rule, targets, conf)
    except AnalysisError as e:
        if syms and cls == 'BasicGate':
            return  # solves for the angles numerically: followed for given angles only
        chk.unknown('exact', inst, f'AnalysisError: {e}')
    except Unreadable as e:
        chk.unknown('exact', inst, f'cannot read the sequence: {e}')


def verify(chk, rl, inst, gate, syms, k, rule, targets, conf):
    """-> number of accepted commands, None after a failure."""
    idx, cls, name, loc = rule
    src = 'import cmath\n' + RUN % {'params': ', '.join(syms), 'width': 6, 'rule': idx, 'gate': gate, 'controls': conf, 'targets': targets}
    C = Client(chk.prog, src, prelude=HEAD, stubs=STUBS, floats=True, **({'budget': 60000} if syms and cls == 'BasicGate' else {}))
    try:
        outs = C.run('client', *decsem.symbols(syms))
        chk.saw(C.I, outs)
        if not outs:
            chk.unknown(rl, inst, 'no path')
            return None
        total = 0
        admits = False
        pending = None
        for st, v in outs:
            r = decsem.steps(st)
            if r is None:
                chk.unknown(rl, inst, 'commands are unknown')
                return None
            if isinstance(v, Exc):
                if all(clean(f) for f in st.facts) and r[0] and not r[0][-1].done:
                    fail(chk, rl, rule, gate, st, v.loc if not str(v.loc).startswith('<client') else loc, f'{inst}: raises {v.name}', syms)
                else:
                    if syms and cls == 'BasicGate':
                        return None
                    chk.unknown(rl, inst, f'raises {v.name}')
                return None
            if decsem.tiny(st):
                total += len(r[0])
                continue
            G = Gates(C, st)
            for step in r[0]:
                total += 1
                regs, ctrl = decsem.parts(step.parts)
                admits = admits or bool(ctrl)
                res = same(G, step, regs, ctrl, False)
                if res is None:
                    continue
                if res == '?':
                    chk.unknown(rl, inst, 'not readable')
                    return None
                if not ctrl and same(G, step, regs, ctrl, True) is None:
                    pending = pending or (st, step, res)
                    continue
                return report(chk, rl, inst, C, st, G, step, regs, ctrl, rule, gate, syms, False)
        if pending and admits:
            st, step, res = pending
            regs, ctrl = decsem.parts(step.parts)
            return report(chk, rl, inst, C, st, Gates(C, st), step, regs, ctrl, rule, gate, syms, False, 'drops a phase although the rule admits controls: ')
        if total:
            chk.ok(rl, inst)
        return total
    except Unreadable as e:
        chk.unknown(rl, inst, f'cannot read the sequence: {e}')
        return None
    finally:
        C.close()


def same(G, step, regs, ctrl, phase, env=None):
    qubits = [q for r in regs for q in r] + [q for q, _ in ctrl]
    others = sorted({q for _, p, _ in step.out for q in decsem.ids(p[2]) + [x for r in p[1] for x in decsem.ids(r)]} - set(qubits))
    others = [q for q in others if q < 6]
    circ = Circuit(qubits + others)
    vec = decsem.generic(circ, qubits + others)
    g, _ = G.C.S.getattr(G.st, step.cmd, 'gate')
    targets = [q for r in regs for q in r]
    want = circ.apply(G.matrix(g, len(targets), env), targets, ctrl, vec)
    got = decsem.run_step(G, step, [vec], circ, env)[0]
    if circ.dirty is not None:
        return f'qubit {circ.dirty} is deallocated in superposition or not in state zero'
    i = decsem.compare(got, want, phase)
    return None if i is None else 'the result differs'


def report(chk, rl, inst, C, st, G, step, regs, ctrl, rule, gate, syms, phase, what=''):
    """The difference counts only with values of the symbols for which the path is taken and the sequence is wrong."""
    idx, cls, name, loc = rule
    if not syms:
        if not all(clean(f) for f in st.facts):
            chk.unknown(rl, inst, 'depends on an unknown condition')
            return None
        fail(chk, rl, rule, gate, st, step.out[0][2] if step.out else loc, f'{inst}: {what}the emitted commands are not the gate'
             + (f' (controls {ctrl})' if ctrl else '') + ': ' + show(C, step), syms)
        return None
    for env in decsem.samples(syms):
        ok = decsem.possible(st, env)
        if ok is None:
            chk.unknown(rl, inst, 'depends on a condition that is not understood')
            return None
        if not ok:
            continue
        r = same(G, step, regs, ctrl, phase, env)
        if r is not None:
            fail(chk, rl, rule, gate, st, step.out[0][2] if step.out else loc,
                 f'{inst}: {what}with {", ".join(f"{k} = {x:.4f}" for k, x in env.items())} the emitted commands are not the gate'
                 + (f' (controls {ctrl})' if ctrl else '') + ': ' + show(C, step), syms)
            return None
    chk.unknown(rl, inst, 'the sequences differ symbolically, but for no sampled angle')
    return None


def show(C, step):
    return '; '.join(C.short(p) for _, p, _ in step.out[:12]) + (' ...' if len(step.out) > 12 else '')


def fail(chk, rl, rule, gate, st, where, msg, syms):
    idx, cls, name, loc = rule
    if not where or str(where).startswith('<client'):
        where = loc
    chk.fail(rl, name, where, msg)
