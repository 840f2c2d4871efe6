"""C14: a loop section executes its body exactly the requested number of times."""
import re

from .. import metasem
from ..client import expect
from .c13 import STEPS, matcher

PARALLEL = True
TECHNIQUE = 'most-general-client analysis: abstract interpretation of client programs over the real engine chain (loop counts 0-4, unrolled and marked loops, local qubits)'

HEAD = '''
from projectq.meta._exceptions import QubitManagementError
from projectq.meta._loop import LoopTag
def client():
    eng = main_engine(RECORDER)
    q = [WeakQubitRef(eng, 50 + i) for i in range(10)]
'''


def check(chk):
    loc = chk.prog.cls('LoopEngine', 'projectq.meta._loop').loc()
    chk.rule('unrolled', 'without an engine handling loop marks the body is emitted exactly n times, in order, when the section is left', 12)
    chk.rule('marked', 'with an engine handling loop marks the body is emitted once, every command marked with the number of repetitions', 8)
    chk.rule('local', 'qubits local to the body get a new identity in every repetition, used by every command of that repetition', 6)
    chk.rule('unbalanced', 'a body allocating and not deallocating a qubit is an error', 4)
    chk.rule('exception', 'a body left by an exception emits nothing (unrolled)', 2)
    chk.rule('rejected', 'a loop count that is not a non-negative integer is rejected', 3)
    chk.rule('nested', 'nested loops multiply', 3)
    num = range(0, 6 if chk.thorough else 4)
    plain, marked = HEAD.replace('RECORDER', 'Recorder()'), HEAD.replace('RECORDER', 'LoopRecorder()')
    combos = [(x,) for x in STEPS] + [(x, y) for x in STEPS for y in STEPS if x != y]
    for n in num:
        for names in combos:
            body = '\n'.join('        ' + ln for x in names for ln in STEPS[x][0].split('\n')) + '\n'
            seq = [i for x in names for i in STEPS[x][1]]
            tail = '    UserGate(9) | q[9]\n'
            expect(chk, 'unrolled', f'{n} x {", ".join(names)}', plain + f'    with Loop(eng, {n}):\n' + body + "        probe('end')\n" + tail,
                   ([] if n != 1 else seq) + ["probe 'end'"] + (seq * n if n != 1 else []) + ['UserGate(num=9) 59'] if n != 1 else
                   [seq + ["probe 'end'"] + ['UserGate(num=9) 59'], ["probe 'end'"] + seq + ['UserGate(num=9) 59']], 'LoopEngine', loc)
            want = seq if n == 1 else [] if n == 0 else [x + (',' if ' tags ' in x else ' tags ') + f'LoopTag({n})' for x in seq]
            expect(chk, 'marked', f'{n} x {", ".join(names)}', marked + f'    with Loop(eng, {n}):\n' + body + tail,
                   loopmatch(want + ['UserGate(num=9) 59'], n), 'LoopEngine', loc)
    bodies = {
        'one local qubit': ('''
        a = eng.allocate_qubit()
        UserGate(1) | a
        CNOT | (a, q[0])
        CNOT | (q[0], a)
        UserGate(2) | ([q[1], a[0]], [q[2]])
        a[0].__del__()
''', ['Allocate A', 'UserGate(num=1) A', 'XGate 50 ctrl A=1', 'XGate A ctrl 50=1', 'UserGate(num=2) 51,A|52', 'Deallocate A']),
        'two local qubits': ('''
        a = eng.allocate_qubit()
        b = eng.allocate_qubit()
        CNOT | (a, b)
        a[0].__del__()
        UserGate(1) | b
        b[0].__del__()
''', ['Allocate A', 'Allocate B', 'XGate B ctrl A=1', 'Deallocate A', 'UserGate(num=1) B', 'Deallocate B'])}
    for name, (body, want) in bodies.items():
        for n in num:
            if n == 1:
                continue
            expect(chk, 'local', f'{name}, {n} repetitions', plain + f'    with Loop(eng, {n}):' + body + '    probe(eng.get_new_qubit_id())\n',
                   localmatch(want, n, 2 if 'B' in str(want) else 1), 'LoopEngine.run', loc)
    for n in (0, 2, 3):
        for nm, head in (('unrolled', plain), ('marked', marked)):
            for what, b in (('allocated only', 'a = eng.allocate_qubit()'), ('one of two deallocated', 'a = eng.allocate_qureg(2)\n            a[1].__del__()')):
                if n == 0 and nm == 'marked':
                    continue
                expect(chk, 'unbalanced', f'{what}, {n} repetitions, {nm}', head + f'''
    try:
        with Loop(eng, {n}):
            UserGate(1) | q[0]
            {b}
    except QubitManagementError:
        probe('refused')
''', (lambda got: None if got == ["probe 'refused'"] else f'not refused: {got}') if nm == 'unrolled' else
                    (lambda got: None if got and got[-1] == "probe 'refused'" else f'not refused: {got}'), 'LoopEngine.run', loc)
    for n in (0, 2, 3):
        expect(chk, 'exception', f'{n} repetitions', plain + f'''
    try:
        with Loop(eng, {n}):
            UserGate(1) | q[0]
            raise LookupError('x')
    except LookupError:
        probe('caught')
''', ["probe 'caught'"], 'Loop.__exit__', loc)
    for v, err in (('-1', 'ValueError'), ('-5', 'ValueError'), ('1.5', 'TypeError'), ("'2'", 'TypeError'), ('None', 'TypeError'), ('2.0', 'TypeError')):
        expect(chk, 'rejected', f'Loop(eng, {v})', plain + f'''
    n0 = eng.n_engines
    try:
        with Loop(eng, {v}):
            UserGate(1) | q[0]
    except {err}:
        probe('refused', eng.n_engines == n0)
''', ["probe 'refused' True"], 'Loop.__init__', loc)
    for a in (0, 1, 2, 3):
        for b in (0, 1, 2):
            src = f'''
    with Loop(eng, {a}):
        UserGate(1) | q[0]
        with Loop(eng, {b}):
            UserGate(2) | q[0]
        UserGate(3) | q[0]
'''
            want = (['UserGate(num=1) 50'] + ['UserGate(num=2) 50'] * b + ['UserGate(num=3) 50']) * a
            expect(chk, 'nested', f'{a} x {b} repetitions', plain + src, want, 'LoopEngine', loc)
    for b in (2, 3):
        expect(chk, 'nested', f'local qubits in nested loops, 2 x {b}', plain + f'''
    with Loop(eng, 2):
        with Loop(eng, {b}):
            a = eng.allocate_qubit()
            CNOT | (a, q[0])
            a[0].__del__()
''', alloc_ok(2 * b), 'LoopEngine', loc)
    metasem.judge(chk, 'loop', 120, 1200, loc, 'LoopEngine')
    chk.assume = [f'Loop counts 0 to {max(num)}; bodies of up to 2 steps (6 with local qubits).']
    return ('Client programs run loop sections with every kind of body, unrolled and marked; the trace at the last engine on every path must show the '
            'body the requested number of times.')


def loopmatch(want, n):
    def f(got):
        g = [re.sub(r'LoopTag\(id=(\d+), num=(\d+)\)', r'LoopTag(\2)', x) for x in got]
        ids = {m for x in got for m in re.findall(r'LoopTag\(id=(\d+)', x)}
        if len(ids) > 1:
            return f'commands of one loop carry different loop marks {ids}'
        return matcher(want)(g)
    return f


def localmatch(want, n, nloc):
    def f(got):
        body, last = got[:-1], got[-1]
        if len(body) != len(want) * n:
            return f'{len(body)} commands instead of {len(want) * n}'
        used = set()
        for i in range(n):
            part = body[i * len(want):(i + 1) * len(want)]
            m = {}
            for g, w in zip(part, want):
                pat = '^' + re.escape(w).replace('A', r'(?P<A>\d+)', 0)
                names = [c for c in 'AB' if re.search(rf'\b{c}\b', w)]
                rx = re.escape(w)
                for c in names:
                    rx = re.sub(rf'(?<![A-Za-z]){c}(?![A-Za-z])', rf'(?P<{c}>\\d+)', rx, count=1)
                r = re.match('^' + rx + '$', g)
                del pat
                if not r:
                    return f'repetition {i + 1}: "{g}" instead of "{w}"'
                for c, v in r.groupdict().items():
                    if m.setdefault(c, v) != v:
                        return f'repetition {i + 1}: "{g}" uses qubit {v} instead of {m[c]}'
            if len(set(m.values())) != len(m) or used & set(m.values()):
                return f'repetition {i + 1} reuses a qubit id: {m}'
            used |= set(m.values())
        if last.split()[1] in used:
            return 'an id handed out later was already used'
        return None
    return f


def alloc_ok(n):
    def f(got):
        if len(got) != 3 * n:
            return f'{len(got)} commands instead of {3 * n}'
        used = set()
        for i in range(n):
            a, b, c = got[3 * i:3 * i + 3]
            q = a.split()[-1]
            if a != f'Allocate {q}' or b != f'XGate 50 ctrl {q}=1' or c != f'Deallocate {q}' or q in used:
                return f'repetition {i + 1}: {a}; {b}; {c} (ids used before: {sorted(used)})'
            used.add(q)
        return None
    return f
