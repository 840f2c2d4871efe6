"""Reference semantics of qubit mappers: the emitted commands are followed location by location and translated back to logical qubits."""
import random

from .client import PRELUDE, Client, clean, trace
from .values import Exc

HEAD = PRELUDE + '''
from projectq.backends._ionq._ionq_mapper import BoundedQubitMapper
from projectq.setups import *


class Mark:
    def __init__(self, name):
        self.name = name

    def __eq__(self, other):
        return isinstance(other, Mark) and self.name == other.name


class Marker(BasicEngine):
    """Adds a tag of the user to some commands."""

    def receive(self, command_list):
        for cmd in command_list:
            if isinstance(cmd.gate, (UserGate, MeasureGate)):
                cmd.tags = cmd.tags + [Mark('m')]
            self.send([cmd])


def reverse5(i):
    return 5 - i


def shift(i):
    return 3 * i + 7


def wrap2(i):
    return i % 2


def wrap3(i):
    return i % 3


'''
SRC = '''
def program(eng, mapper):
    q = {}
%s

def client():
    e0 = main_engine(Recorder(), [Marker()])
    program(e0, None)
    probe('split')
    mapper = %s
    e1 = main_engine(Recorder(), [Marker(), mapper])
    program(e1, mapper)
'''


def source(mapper, lines):
    return SRC % ('\n'.join('    ' + x for x in lines), mapper)


class Bad(Exception):
    def __init__(self, kind, msg):
        super().__init__(msg)
        self.kind = kind


def gname(p):
    return p[0][0] if isinstance(p[0], tuple) else str(p[0])


def tagnames(p):
    return [t[0] if isinstance(t, tuple) else str(t) for t in p[4]]


def logical_tag(p):
    t = [t for t in p[4] if isinstance(t, tuple) and t[0] == 'LogicalQubitIDTag']
    if len(t) > 1:
        raise Bad('map', 'carries two logical qubit tags')
    return str(dict(t[0][1])['logical_qubit_id']) if t else None


def key(g, regs, ctrl, tags):
    return (str(g), tuple(tuple(r) for r in regs), tuple(sorted(ctrl)), tuple(sorted(map(str, tags))))


def parts(p):
    g, regs, ids, st, tags = p
    if regs is None or ids is None or tags is None or not hasattr(st, 'v') or len(st.v) != len(ids) or any(r is None for r in regs):
        raise LookupError(f'unknown command {p}')
    return g, [[str(x) for x in r] for r in regs], [(str(i), b) for i, b in zip(ids, st.v)], list(tags)


def flushes(cmds):
    out = [[]]
    for p in cmds:
        if gname(p) == 'FlushGate':
            out.append([])
        else:
            out[-1].append(p)
    return out


class Follow:
    """Follows the locations of the logical qubits through the emitted commands.
    mode 'tags': allocations carry the logical id; 'order': allocations arrive in the order of the input."""

    def __init__(self, near, mode, order=(), limit=None):
        self.near, self.mode, self.limit = near, mode, limit
        self.order = list(order)
        self.at = {}                # location -> logical id, or None for a location used by the mapper only
        self.where = {}
        self.last = {}

    def command(self, p, show):
        g, regs, ctrl, tags = parts(p)
        name = gname(p)
        user = [t for t in tags if not (isinstance(t, tuple) and t[0] == 'LogicalQubitIDTag')]
        lt = logical_tag(p)
        if name == 'AllocateQubitGate':
            loc = regs[0][0]
            if loc in self.at:
                raise Bad('order', f'{show} allocates location {loc} which is in use')
            if self.limit is not None and not 0 <= int(loc) < self.limit:
                raise Bad('map', f'{show} allocates a location outside 0..{self.limit - 1}')
            lid = lt if self.mode == 'tags' else (self.order.pop(0) if self.order else None)
            self.at[loc] = lid
            if lid is None:
                return None
            if lid in self.where:
                raise Bad('map', f'{show} allocates logical qubit {lid} a second time')
            self.where[lid] = loc
            return lid, key(g, [[lid]], [], user)
        if name == 'DeallocateQubitGate':
            loc = regs[0][0]
            if loc not in self.at:
                raise Bad('map', f'{show} deallocates location {loc} which is not allocated')
            lid = self.at.pop(loc)
            if self.mode == 'tags' and lt != lid:
                raise Bad('map', f'{show} deallocates the location of logical qubit {lid}')
            if lid is None:
                return None
            self.last[lid] = self.where.pop(lid)
            return lid, key(g, [[lid]], [], user)
        locs = [x for r in regs for x in r] + [i for i, _ in ctrl]
        if len(set(locs)) != len(locs):
            raise Bad('map', f'{show} uses a location twice')
        for x in locs:
            if x not in self.at:
                raise Bad('map', f'{show} uses location {x} which is not allocated')
        if len(locs) == 2 and self.near is not None and not self.near(int(locs[0]), int(locs[1])):
            raise Bad('order', f'{show} acts on locations {locs[0]} and {locs[1]} which are not neighbours')
        if name == 'SwapGate' and not ctrl and not tags:
            a, b = locs
            x, y = self.at[a], self.at[b]
            self.at[a], self.at[b] = y, x
            for loc in (a, b):
                if self.at[loc] is not None:
                    self.where[self.at[loc]] = loc
            return None
        if any(self.at[x] is None for x in locs):
            raise Bad('map', f'{show} uses a location without a logical qubit')
        if name == 'MeasureGate':
            if lt != self.at[locs[0]]:
                raise Bad('map', f'{show} measures logical qubit {self.at[locs[0]]} but is tagged with {lt}')
        elif lt is not None:
            raise Bad('map', f'{show} carries a logical qubit tag')
        return locs, key(g, [[self.at[x] for x in r] for r in regs], [(self.at[i], b) for i, b in ctrl], user)


def wanted(p):
    g, regs, ctrl, tags = parts(p)
    return key(g, regs, ctrl, tags)


def qubits_of(k):
    return {x for r in k[1] for x in r} | {i for i, _ in k[2]}


def compare(inp, out, follow, focus, show):
    """Compare the input with the output, flush by flush. focus: 'map' or 'order'."""
    fa, fb = flushes(inp), flushes(out)
    if len(fa) != len(fb):
        raise Bad('order', f'{len(fb) - 1} flush commands instead of {len(fa) - 1}')
    for n, (a, b) in enumerate(zip(fa, fb)):
        want = [wanted(p) for p in a]
        got = []
        for p in b:
            try:
                r = follow.command(p, show(p))
            except Bad as e:
                if e.kind in focus:
                    raise
                return
            if r is not None:
                got.append(r[1])
        if n == len(fa) - 1 and a and not b and not got:
            return                  # received after the last flush: still kept
        rest = list(want)
        for k in got:
            if k in rest:
                rest.remove(k)
            elif 'map' in focus:
                close = [x for x in rest if x[0] == k[0]]
                raise Bad('map', f'emits {line(k)} (in logical qubits)' + (f' instead of {line(close[0])}' if close else ' which was not received'))
            else:
                return
        if rest and n < len(fa) - 1:
            if 'order' in focus:
                raise Bad('order', f'{line(rest[0])} is not emitted before flush {n + 1}')
            return
        if 'order' in focus:
            ids = {x for k in want for x in qubits_of(k)}
            for i in sorted(ids):
                x = [k for k in want if i in qubits_of(k)]
                y = [k for k in got if i in qubits_of(k)]
                if x != y:
                    j = next((j for j, (s, t) in enumerate(zip(x, y)) if s != t), min(len(x), len(y)))
                    raise Bad('order', f'logical qubit {i}: command {j + 1} is {line(y[j]) if j < len(y) else "missing"}'
                                       f' instead of {line(x[j]) if j < len(x) else "nothing"}')


def line(k):
    g = k[0]
    return f'{g[:60]} on {"|".join(",".join(r) for r in k[1])}' + (' ctrl ' + ','.join(f'{i}={b}' for i, b in k[2]) if k[2] else '')


def judge(chk, rule, inst, mapper, lines, near, mode, focus, loc, construct, limit=None, fixed=None, stubs=()):
    if not chk.mine():
        return
    with chk.guard(rule, inst):
        C = Client(chk.prog, source(mapper, lines), prelude=HEAD, stubs=stubs)
        try:
            outs = C.run('client')
            chk.saw(C.I, outs)
            for st, v in outs:
                t = trace(st)
                k = None if t is None else next((i for i, x in enumerate(t) if x[0] == 'probe'), None)
                if k is None:
                    chk.unknown(rule, inst, f'unknown commands or no trace: {v}')
                    return
                a = [x[1] for x in t[:k] if x[0] == 'send']
                b = [x[1] for x in t[k:] if x[0] == 'send']
                msg = None
                if isinstance(v, Exc):
                    msg = f'raises {v.name} at {v.loc}'
                else:
                    order = [parts(p)[1][0][0] for p in a if gname(p) == 'AllocateQubitGate']
                    f = Follow(near, mode, order, limit)
                    try:
                        compare(a, b, f, focus, C.short)
                        if fixed is not None and 'map' in focus:
                            for lid, where in list(f.where.items()) + list(f.last.items()):
                                if int(where) != fixed(int(lid)):
                                    raise Bad('map', f'logical qubit {lid} is at location {where} instead of {fixed(int(lid))}')
                        pr = [x[1] for x in t[k + 1:] if x[0] == 'probe' and x[1] and isinstance(x[1][0], tuple) and x[1][0][0] == 'list']
                        if pr:
                            got = {}
                            for it in pr[-1][0][1:]:
                                it = it.args if hasattr(it, 'args') else it[1:]
                                got[str(it[0])] = str(it[1])
                            for lid, where in f.where.items():
                                if got.get(lid) != where:
                                    raise Bad('order', f'the mapper reports location {got.get(lid)} for logical qubit {lid} which is at {where}')
                    except Bad as e:
                        msg = str(e) if e.kind in focus else None
                if msg:
                    if st.facts and not all(clean(f) for f in st.facts):
                        chk.unknown(rule, inst, f'depends on an unknown condition: {msg}')
                        return
                    chk.fail(rule, construct, loc, f'{inst}: {msg}; emitted: ' + '; '.join(C.short(p) for p in b)[:700])
                    return
            if not outs:
                chk.unknown(rule, inst, 'no path')
                return
            chk.ok(rule, inst)
        except LookupError as e:
            chk.unknown(rule, inst, str(e))
        finally:
            C.close()


TWO = ['CNOT | (q[{a}][0], q[{b}][0])', 'C(Rz(1)) | (q[{a}][0], q[{b}][0])', 'UserGate(3) | (q[{a}][0], q[{b}][0])', 'Rzz(1) | (q[{a}][0], q[{b}][0])',
       "with Control(eng, q[{a}], ctrl_state='0'):\n        UserGate(2) | q[{b}][0]"]
ONE = ['H | q[{a}][0]', 'Rx(1) | q[{a}][0]', 'UserGate(5) | q[{a}][0]', 'Measure | q[{a}][0]']


def program(rnd, width, length, cnots=False, dealloc=True, flush=0.06, pairs=None, more=True):
    """A random program on at most `width` live qubits; returns source lines."""
    out, live, n = [], [], 0
    for _ in range(rnd.randint(2, width)):
        out.append(f'q[{n}] = eng.allocate_qubit()')
        live.append(n)
        n += 1
    for _ in range(length):
        r = rnd.random()
        if r < flush:
            out.append('eng.flush()')
        elif r < flush + 0.08 and more and len(live) < width:
            out.append(f'q[{n}] = eng.allocate_qubit()')
            live.append(n)
            n += 1
        elif r < flush + 0.14 and dealloc and len(live) > 2:
            x = live.pop(rnd.randrange(len(live)))
            out.append(f'q[{x}][0].__del__()')
        elif r < 0.4:
            out.append(rnd.choice(ONE).format(a=rnd.choice(live)))
        else:
            ok = [(a, b) for a in live for b in live if a != b and (pairs is None or frozenset((a, b)) in pairs)]
            if ok:
                a, b = rnd.choice(ok)
                out.append((TWO[0] if cnots else rnd.choice(TWO)).format(a=a, b=b))
    out.append('eng.flush()')
    return out


REPORT = ['if mapper is not None:', '    probe([(i, p) for i, p in mapper.current_mapping.items()])']
