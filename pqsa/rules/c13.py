"""C13: uncompute emits the reversed inverses of the recorded compute section."""
import itertools

from .. import metasem
from ..client import expect

PARALLEL = True
TECHNIQUE = 'most-general-client analysis: abstract interpretation of client programs over the real engine chain, all compute sections of up to 3 steps of every kind'

HEAD = '''
from projectq.meta._exceptions import QubitManagementError
def client():
    eng = main_engine()
    q = [WeakQubitRef(eng, 50 + i) for i in range(10)]
'''
STEPS = {
    'gate': ('UserGate(1) | q[0]', ['UserGate(num=1) 50'], ['UserGate(num=-1) 50']),
    'controlled': ('with Control(eng, [q[3], q[1]], ctrl_state="01"):\n    UserGate(2) | q[0]', ['UserGate(num=2) 50 ctrl 51=1,53=0'],
                   ['UserGate(num=-2) 50 ctrl 51=1,53=0']),
    'several': ('eng.receive([Command(eng, UserGate(4), ([q[0]], [q[1], q[2]])), Command(eng, UserGate(5), ([q[2]],), tags=[DirtyQubitTag()])])',
                ['UserGate(num=4) 50|51,52', 'UserGate(num=5) 52 tags DirtyQubitTag'], ['UserGate(num=-4) 50|51,52', 'UserGate(num=-5) 52 tags DirtyQubitTag']),
    'swap': ('Swap | (q[0], q[1])', ['SwapGate 50|51'], ['SwapGate 50|51']),
}


def tag(lines, t):
    return [x + (f',{t}' if ' tags ' in x else f' tags {t}') for x in lines]


def check(chk):
    loc = chk.prog.cls('ComputeEngine', 'projectq.meta._compute').loc()
    chk.rule('compute', 'commands of a compute section pass on once, in order, with the compute mark added', 10)
    chk.rule('uncompute', 'uncompute emits one inverse per recorded command, last first, with the uncompute mark instead of the compute mark; '
             'targets, controls and other tags kept', 10)
    chk.rule('action', 'commands between compute and uncompute pass unmarked', 4)
    chk.rule('local', 'qubits allocated in the section are deallocated by uncompute; qubits local to it are replaced by new ones', 5)
    chk.rule('errors', 'a section that deallocates a foreign qubit, or a live qubit uncompute cannot find, is an error', 2)
    chk.rule('custom', 'a custom uncompute section marks every command; unbalanced qubits are an error', 3)
    chk.rule('nested', 'nested sections are recorded and undone as a whole', 2)
    n = 3
    for k in range(1, n + 1):
        for names in itertools.product(STEPS, repeat=k):
            if k == 3 and (len(set(names)) < 3 or not chk.thorough and names[0] > names[2]):
                continue
            body = '\n'.join('        ' + ln for x in names for ln in STEPS[x][0].split('\n')) + '\n'
            fwd = tag([i for x in names for i in STEPS[x][1]], 'ComputeTag')
            inv = tag([i for x in reversed(names) for i in reversed(STEPS[x][2])], 'UncomputeTag')
            src = HEAD + '    with Compute(eng):\n' + body
            expect(chk, 'compute', ', '.join(names), src, fwd, 'ComputeEngine.receive', loc)
            expect(chk, 'uncompute', ', '.join(names), src + '    UserGate(8) | q[8]\n    Uncompute(eng)\n    UserGate(9) | q[9]\n',
                   fwd + ['UserGate(num=8) 58'] + inv + ['UserGate(num=9) 59'], 'ComputeEngine.run_uncompute', loc)
            if k == 1:
                expect(chk, 'custom', ', '.join(names), src + '    UserGate(8) | q[8]\n    with CustomUncompute(eng):\n' + body + '    UserGate(9) | q[9]\n',
                       fwd + ['UserGate(num=8) 58'] + tag(STEPS[names[0]][1], 'UncomputeTag') + ['UserGate(num=9) 59'], 'UncomputeEngine', loc)
    for act, w in (('UserGate(8) | q[0]', ['UserGate(num=8) 50']), ('eng.receive([Command(eng, UserGate(6), ([q[1]],)), Command(eng, UserGate(7), ([q[2]],))])',
                                                                  ['UserGate(num=6) 51', 'UserGate(num=7) 52']),
                   ('with Control(eng, q[1]):\n        UserGate(8) | q[0]', ['UserGate(num=8) 50 ctrl 51=1']),
                   ('Measure | q[0]', ['MeasureGate 50']), ('eng.flush()', ['FlushGate -1'])):
        expect(chk, 'action', act, HEAD + f'''
    with Compute(eng):
        UserGate(1) | q[0]
    {act}
    Uncompute(eng)
''', ['UserGate(num=1) 50 tags ComputeTag'] + w + ['UserGate(num=-1) 50 tags UncomputeTag'], 'ComputeEngine.receive', loc)
    C, U = ' tags ComputeTag', ' tags UncomputeTag'
    local = {
        'qubit allocated in the section': ('''
    with Compute(eng):
        a = eng.allocate_qubit()
        UserGate(1) | a
    CNOT | (a, q[0])
    Uncompute(eng)
    probe(a[0].id, len(eng.active_qubits))
''', ['Allocate 0' + C, 'UserGate(num=1) 0' + C, 'XGate 50 ctrl 0=1', 'UserGate(num=-1) 0' + U, 'Deallocate 0' + U, 'probe -1 *']),
        'two qubits allocated in the section': ('''
    with Compute(eng):
        a = eng.allocate_qubit()
        b = eng.allocate_qubit()
        CNOT | (a, b)
    UserGate(1) | b
    Uncompute(eng)
    probe(a[0].id, b[0].id)
''', ['Allocate 0' + C, 'Allocate 1' + C, 'XGate 1 ctrl 0=1' + C, 'UserGate(num=1) 1', 'XGate 1 ctrl 0=1' + U, 'Deallocate 1' + U, 'Deallocate 0' + U,
            'probe -1 -1']),
        'qubit local to the section': ('''
    with Compute(eng):
        a = eng.allocate_qubit()
        UserGate(1) | a
        CNOT | (a, q[0])
        CNOT | (q[0], a)
        a[0].__del__()
    UserGate(5) | q[0]
    Uncompute(eng)
    probe(eng.get_new_qubit_id())
''', ['Allocate 0' + C, 'UserGate(num=1) 0' + C, 'XGate 50 ctrl 0=1' + C, 'XGate 0 ctrl 50=1' + C, 'Deallocate 0' + C, 'UserGate(num=5) 50',
            'Allocate 1' + U, 'XGate 1 ctrl 50=1' + U, 'XGate 50 ctrl 1=1' + U, 'UserGate(num=-1) 1' + U, 'Deallocate 1' + U, 'probe 2']),
        'local and surviving qubit': ('''
    with Compute(eng):
        a = eng.allocate_qubit()
        b = eng.allocate_qubit()
        CNOT | (a, b)
        a[0].__del__()
        UserGate(2) | b
    UserGate(1) | b
    Uncompute(eng)
    probe(b[0].id)
''', ['Allocate 0' + C, 'Allocate 1' + C, 'XGate 1 ctrl 0=1' + C, 'Deallocate 0' + C, 'UserGate(num=2) 1' + C, 'UserGate(num=1) 1',
            'UserGate(num=-2) 1' + U, 'Allocate 2' + U, 'XGate 1 ctrl 2=1' + U, 'Deallocate 1' + U, 'Deallocate 2' + U, 'probe -1']),
        'two local qubits': ('''
    with Compute(eng):
        a = eng.allocate_qubit()
        b = eng.allocate_qubit()
        CNOT | (a, b)
        b[0].__del__()
        UserGate(2) | a
        a[0].__del__()
    Uncompute(eng)
''', ['Allocate 0' + C, 'Allocate 1' + C, 'XGate 1 ctrl 0=1' + C, 'Deallocate 1' + C, 'UserGate(num=2) 0' + C, 'Deallocate 0' + C,
            'Allocate 2' + U, 'UserGate(num=-2) 2' + U, 'Allocate 3' + U, 'XGate 3 ctrl 2=1' + U, 'Deallocate 3' + U, 'Deallocate 2' + U]),
        'the new local qubit keeps the tags of the recorded command': ('''
    eng.next_engine.is_meta_tag_handler = dirty
    with Compute(eng):
        a = eng.allocate_qubit(dirty=True)
        CNOT | (a, q[0])
        a[0].__del__()
    Uncompute(eng)
''', ['Allocate 0 tags DirtyQubitTag,ComputeTag', 'XGate 50 ctrl 0=1' + C, 'Deallocate 0 tags DirtyQubitTag,ComputeTag',
            'Allocate 1 tags DirtyQubitTag,UncomputeTag', 'XGate 50 ctrl 1=1' + U, 'Deallocate 1 tags DirtyQubitTag,UncomputeTag']),
        'uncompute of an empty section': ('''
    with Compute(eng):
        pass
    Uncompute(eng)
    probe('end')
''', ["probe 'end'"])}
    for name, (body, want) in local.items():
        src = HEAD + body + '\n\ndef dirty(tag):\n    return tag == DirtyQubitTag\n'
        expect(chk, 'local', name, src, matcher(want), 'ComputeEngine.run_uncompute', loc)
    expect(chk, 'errors', 'deallocates a foreign qubit', HEAD + '''
    a = eng.allocate_qubit()
    try:
        with Compute(eng):
            a[0].__del__()
    except QubitManagementError:
        probe('refused')
''', matcher(['Allocate 0', 'Deallocate 0' + C, "probe 'refused'"]), 'ComputeEngine.end_compute', loc)
    for extra, name in (('', 'live qubit not found'), ('b = eng.allocate_qubit()\n        b[0].__del__()', 'live qubit not found, other local qubit')):
        expect(chk, 'errors', name, HEAD + f'''
    with Compute(eng):
        a = eng.allocate_qubit()
        {extra}
    eng.active_qubits.remove(a[0])
    try:
        Uncompute(eng)
    except QubitManagementError:
        probe('refused')
''', lambda got: None if got and got[-1] == "probe 'refused'" else f'not refused: {got}', 'ComputeEngine.run_uncompute', loc)
    expect(chk, 'custom', 'qubit of the compute section not deallocated', HEAD + '''
    with Compute(eng):
        a = eng.allocate_qubit()
    try:
        with CustomUncompute(eng):
            UserGate(1) | a
    except QubitManagementError:
        probe('refused')
''', matcher(['Allocate 0' + C, 'UserGate(num=1) 0' + U, "probe 'refused'"]), 'CustomUncompute', loc)
    expect(chk, 'custom', 'qubit of the uncompute section not deallocated', HEAD + '''
    with Compute(eng):
        UserGate(1) | q[0]
    try:
        with CustomUncompute(eng):
            a = eng.allocate_qubit()
    except QubitManagementError:
        probe('refused')
''', matcher(['UserGate(num=1) 50' + C, 'Allocate 0' + U, "probe 'refused'"]), 'CustomUncompute', loc)
    expect(chk, 'custom', 'qubit deallocated in the custom section', HEAD + '''
    with Compute(eng):
        a = eng.allocate_qubit()
        UserGate(1) | a
    with CustomUncompute(eng):
        UserGate(-1) | a
        a[0].__del__()
''', matcher(['Allocate 0' + C, 'UserGate(num=1) 0' + C, 'UserGate(num=-1) 0' + U, 'Deallocate 0' + U]), 'CustomUncompute', loc)
    expect(chk, 'nested', 'compute in compute', HEAD + '''
    with Compute(eng):
        UserGate(1) | q[0]
        with Compute(eng):
            UserGate(2) | q[0]
        UserGate(3) | q[0]
        Uncompute(eng)
    UserGate(4) | q[0]
    Uncompute(eng)
''', matcher(['UserGate(num=1) 50' + C, 'UserGate(num=2) 50' + C + ',ComputeTag', 'UserGate(num=3) 50' + C, 'UserGate(num=-2) 50' + U + ',ComputeTag',
              'UserGate(num=4) 50', 'UserGate(num=2) 50' + U + ',UncomputeTag', 'UserGate(num=-3) 50' + U, 'UserGate(num=-2) 50' + C + ',UncomputeTag',
              'UserGate(num=-1) 50' + U]), 'ComputeEngine', loc)
    expect(chk, 'nested', 'action with its own section', HEAD + '''
    with Compute(eng):
        UserGate(1) | q[0]
    with Compute(eng):
        UserGate(2) | q[0]
    UserGate(3) | q[0]
    Uncompute(eng)
    Uncompute(eng)
''', matcher(['UserGate(num=1) 50' + C, 'UserGate(num=2) 50' + C, 'UserGate(num=3) 50', 'UserGate(num=-2) 50' + U, 'UserGate(num=-1) 50' + U]), 'ComputeEngine', loc)
    expect(chk, 'uncompute', 'recorded commands are not changed by later modification of the forwarded ones', HEAD + '''
    c = Command(eng, UserGate(1), ([q[0]],))
    with Compute(eng):
        eng.receive([c])
    c.gate = UserGate(5)
    c.tags = [DirtyQubitTag()]
    Uncompute(eng)
''', matcher(['UserGate(num=1) 50' + C, 'UserGate(num=-1) 50' + U]), 'ComputeEngine.receive', loc)
    metasem.judge(chk, 'compute', 120, 1200, loc, 'ComputeEngine')
    chk.assume = ['Compute sections of up to 3 steps; up to two local qubits.']
    return ('All compute sections of bounded length made of every kind of command, with qubits allocated inside, local to or surviving the section, '
            'are analysed over the real engine chain; every path must show the documented trace at the last engine.')


def matcher(want):
    def f(got):
        for i, (a, b) in enumerate(zip(got, want)):
            if a != b and not (b.endswith('*') and a.startswith(b[:-1])):
                return f'step {i + 1} is "{a}" instead of "{b}"'
        if len(got) != len(want):
            return f'{len(got)} steps instead of {len(want)}: {got}'
        return None
    return f
