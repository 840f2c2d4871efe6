"""C28: resource counts include every command exactly once."""
import itertools

from ..client import expect

PARALLEL = True
TECHNIQUE = 'most-general-client analysis: abstract interpretation of all short command histories through the resource counter, compared with an independent count'

HEAD = '''
from projectq.backends import ResourceCounter
from projectq.meta import LogicalQubitIDTag
from projectq.ops._gates import *
from projectq.ops._command import Command


class DirtyCounter(ResourceCounter):
    def is_meta_tag_handler(self, tag):
        return tag == DirtyQubitTag


def client():
    rc = DirtyCounter()
    eng = main_engine(%s)
    q = {}
'''
GATES = {
    'X': ('XGate', 'X', 1, 0), 'H': ('HGate', 'H', 1, 0), 'R': ('Rz', 'Rz(0.25)', 1, 0), 'S': ('Rz', 'Rz(0.5)', 1, 0),
    'C': ('XGate', 'X', 1, 1), 'T': ('XGate', 'X', 1, 2), 'W': ('SwapGate', 'Swap', 2, 0), 'U': ('UserGate', 'UserGate(3)', 2, 0),
    'V': ('SwapGate', 'Swap', 2, 1), 'B': ('BarrierGate', 'Barrier', 2, 0), 'M': ('MeasureGate', 'Measure', 1, 0)}


def history(ops):
    src, live, nid = [], [], 0
    cls, gate, width, depth, prev, n = {}, {}, 0, {}, 0, 0
    for op in ops:
        if op in 'Ad':
            src.append(f'q[{nid}] = eng.allocate_qubit({"dirty=True" if op == "d" else ""})[0]')
            live.append(nid)
            depth[nid] = 0
            nid += 1
            key, gk = ('AllocateQubitGate', 0), ('Allocate', 0)
        elif op == 'D':
            if not live:
                return None
            i = live.pop(0)
            src.append(f'q[{i}].__del__()')
            prev = max(prev, depth.pop(i))
            key, gk = ('DeallocateQubitGate', 0), ('Deallocate', 0)
        elif op == 'F':
            src.append('eng.flush()')
            continue
        else:
            c, text, nt, nc = GATES[op]
            if len(live) < nt + nc:
                return None
            used = live[-(nt + nc):]
            t = used[nc:]
            regs = f'([{", ".join(f"q[{i}]" for i in t)}],)' if op == 'B' else '(' + ''.join(f'[q[{i}]], ' for i in t) + ')'
            src.append(f'eng.receive([Command(eng, {text}, {regs}, controls=[{", ".join(f"q[{i}]" for i in used[:nc])}])])')
            d = max(depth[i] for i in used) + 1
            for i in used:
                depth[i] = d
            key, gk = (c, nc), (text, nc)
        cls[key] = cls.get(key, 0) + 1
        gate[gk] = gate.get(gk, 0) + 1
        width = max(width, len(live))
        n += 1
    return '    ' + '\n    '.join(src) + '\n', cls, gate, width, max([prev] + list(depth.values())), n


def check(chk):
    loc = chk.prog.cls('ResourceCounter', 'projectq.backends._resource').loc()
    chk.rule('counts', 'every command other than a flush is counted once under its class and once under its gate, with its number of controls', 40)
    chk.rule('width', 'the maximum width is the largest number of qubits alive at the same time, the depth the longest chain of commands', 40)
    chk.rule('measured', 'as the last engine a measurement registers a result for the logical qubit', 3)
    chk.rule('fresh', 'a new counter starts from zero', 2)
    ops = 'AADXCRSF'
    hists = set()
    for k in range(1, 6 if chk.thorough else 5):
        for h in itertools.product('ADXCF' if k > 3 else 'AdDXCRSHWUBMF', repeat=k):
            h = ''.join(h)
            if h[0] in 'Ad' and (k < 4 or h[:2] == 'AA' or 'D' in h):
                hists.add(h)
    hists |= {'dDd', 'AdDd', 'AdDDd', 'dAdDXC', 'AAATVF', 'AAAUWBC', 'AARSRSX', 'AAADDD', 'AADADAD', 'AAACDDAX', 'AMAMDD', 'AAATTCX', 'AXXXAXC', 'AXXXDAX', 'AAXXDCF', 'AACCDXAC', 'AAXCDXXA'}
    if not chk.thorough:
        hists = {h for i, h in enumerate(sorted(hists)) if len(h) != 4 or i % 4 == 0}
    for h in sorted(hists):
        r = history(h)
        if r is None:
            continue
        src, cls, gate, width, depth, n = r
        for pos, backend in (('last', 'rc'), ('middle', 'Recorder(), [rc]')):
            if pos == 'middle' and len(h) > 2 and sum(map(ord, h)) % 3 and not chk.thorough:
                continue
            chk1 = ''.join(f'    probe(rc.gate_class_counts.get(({c}, {k}), 0), {v})\n' for (c, k), v in sorted(cls.items()))
            chk1 += f'    probe(sum(rc.gate_class_counts.values()), {n})\n    probe(sum(rc.gate_counts.values()), {n})\n'
            chk1 += ''.join(f'    probe(rc.gate_counts.get(({g}, {k}), 0), {v})\n' for (g, k), v in sorted(gate.items()))
            expect(chk, 'counts', f'{h}, {pos}', HEAD % backend + src + chk1, same, 'ResourceCounter', loc, what=('probe',))
            expect(chk, 'width', f'{h}, {pos}', HEAD % backend + src + f'    probe(rc.max_width, {width})\n    probe(rc.depth_of_dag, {depth})\n', same,
                   'ResourceCounter', loc, what=('probe',))
    M = {
        'plain': ('a = eng.allocate_qubit()\n    Measure | a\n    probe(int(a), 0)', 'rc'),
        'two qubits': ('a = eng.allocate_qureg(2)\n    All(Measure) | a\n    probe(int(a[0]), 0)\n    probe(int(a[1]), 0)', 'rc'),
        'mapped': ('''a = eng.allocate_qureg(2)
    eng.receive([Command(eng, Measure, ([a[0]],), tags=[ComputeTag(), LogicalQubitIDTag(7)])])
    probe(int(WeakQubitRef(eng, 7)), 0)
    try:
        probe(int(a[0]), 'no result')
    except NotYetMeasuredError:
        probe('none', 'none')''', 'rc'),
        'mapped to zero': ('''a = eng.allocate_qureg(2)
    eng.receive([Command(eng, Measure, ([a[1]],), tags=[LogicalQubitIDTag(0)])])
    probe(int(a[0]), 0)
    try:
        probe(int(a[1]), 'no result')
    except NotYetMeasuredError:
        probe('none', 'none')''', 'rc'),
        'not last': ('''a = eng.allocate_qubit()
    Measure | a
    try:
        probe(int(a), 'no result')
    except NotYetMeasuredError:
        probe('none', 'none')''', 'Recorder(), [rc]'),
    }
    for k, (src, be) in M.items():
        expect(chk, 'measured', k, ('\nfrom projectq.cengines._main import NotYetMeasuredError\nfrom projectq.meta import ComputeTag' + HEAD) % be + '    ' + src + '\n', same,
               'ResourceCounter', loc, what=('probe',))
    expect(chk, 'fresh', 'empty', HEAD % 'rc' + '    probe(len(rc.gate_counts) + len(rc.gate_class_counts), 0)\n    probe(rc.max_width, 0)\n    probe(rc.depth_of_dag, 0)\n', same,
           'ResourceCounter.__init__', loc, what=('probe',))
    expect(chk, 'fresh', 'second counter', HEAD % 'rc' + '''    a = eng.allocate_qureg(2)
    X | a[0]
    rc2 = ResourceCounter()
    eng2 = main_engine(rc2)
    b = eng2.allocate_qubit()
    probe(rc2.max_width, 1)
    probe(len(rc2.gate_counts), 1)
    probe(rc.max_width, 2)
    probe(len(rc.gate_counts), 2)
''', same, 'ResourceCounter.__init__', loc, what=('probe',))
    chk.assume = ['Histories of up to 8 commands on up to 3 qubits with up to 2 controls.']
    return 'Client programs send every short command history through the counter (as the last engine and in the middle); every count is compared with an independently computed one.'


def same(got):
    for g in got:
        p = g.split(' ')
        if p[0] == 'raise':
            return g
        if len(p) != 3:
            return f'unexpected {g}'
        if p[1] != p[2]:
            return f'{p[1]} instead of {p[2]}'
    return None if got else 'nothing'
