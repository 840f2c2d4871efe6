"""C12: a dagger section emits exactly the reversed sequence of inverses."""
import itertools

from .. import metasem
from ..client import expect

PARALLEL = True
TECHNIQUE = 'most-general-client analysis: abstract interpretation of client programs over the real engine chain, all bodies of up to 3 (thorough: 4) steps'

HEAD = '''
from projectq.meta._exceptions import QubitManagementError
def client():
    eng = main_engine()
    q = [WeakQubitRef(eng, 50 + i) for i in range(10)]
'''
# step of a body: (source, commands in the order received, inverses)
STEPS = {
    'gate': ('UserGate(1) | q[0]', ['UserGate(num=1) 50'], ['UserGate(num=-1) 50']),
    'rotation': ('Rz(0.5) | q[0]', ['Rz(angle=0.5) 50'], ['Rz(angle=(4*pi + -1/2)) 50']),
    'controlled': ('with Control(eng, [q[3], q[1]], ctrl_state="01"):\n    S | q[0]', None, ['DaggeredGate 50 ctrl 51=1,53=0']),
    'several': ('eng.receive([Command(eng, UserGate(4), ([q[0]], [q[1], q[2]])), Command(eng, UserGate(5), ([q[2]],), tags=[DirtyQubitTag()])])',
                None, ['UserGate(num=-4) 50|51,52', 'UserGate(num=-5) 52 tags DirtyQubitTag']),
    'identity': ('UserGate(0) | q[4]', None, ['UserGate(num=0) 54']),
    'null rotation': ('Rz(0) | q[4]', None, ['Rz(angle=0) 54']),
    'swap': ('Swap | (q[0], q[1])', None, ['SwapGate 50|51']),
}


def check(chk):
    loc = chk.prog.cls('DaggerEngine', 'projectq.meta._dagger').loc()
    chk.rule('reversed', 'a dagger section emits one inverse per received command, last first, when it is left, with targets, controls and tags kept', 20)
    chk.rule('late', 'nothing is emitted before the section is left', 5)
    chk.rule('exception', 'nothing is emitted when the section is left by an exception', 5)
    chk.rule('local', 'qubits local to the section are allocated and deallocated in reverse', 3)
    chk.rule('unbalanced', 'qubits allocated but not deallocated (or the other way round) are an error and nothing is emitted', 4)
    chk.rule('nested', 'nested dagger sections and dagger sections in control, compute and loop sections compose', 4)
    n = 4 if chk.thorough else 3
    for k in range(0, n + 1):
        for names in itertools.product(STEPS, repeat=k):
            if k >= 3 and len(set(names)) < k:
                continue
            body = [STEPS[x][0] for x in names] or ['pass']
            inv = [i for x in reversed(names) for i in reversed(STEPS[x][2])]
            ind = '\n'.join('        ' + ln for b in body for ln in b.split('\n')) + '\n'
            expect(chk, 'reversed', 'body ' + ', '.join(names), HEAD + '    with Dagger(eng):\n' + ind + '    UserGate(7) | q[5]\n',
                   inv + ['UserGate(num=7) 55'], 'DaggerEngine', loc)
            if k in (1, 2):
                expect(chk, 'late', 'body ' + ', '.join(names), HEAD + '    with Dagger(eng):\n' + ind + "        probe('end')\n",
                       ["probe 'end'"] + inv, 'DaggerEngine', loc)
                expect(chk, 'exception', 'body ' + ', '.join(names), HEAD + '    try:\n        with Dagger(eng):\n' +
                       ''.join('    ' + ln + '\n' for ln in ind.rstrip('\n').split('\n')) + "            raise LookupError('x')\n    except LookupError:\n        probe('caught')\n",
                       ["probe 'caught'"], 'Dagger.__exit__', loc)
    loc_body = {
        'one local qubit': ('''
        a = eng.allocate_qubit()
        UserGate(1) | a
        a[0].__del__()
''', ['Allocate 0', 'UserGate(num=-1) 0', 'Deallocate 0']),
        'two local qubits': ('''
        a = eng.allocate_qubit()
        UserGate(1) | q[0]
        b = eng.allocate_qubit()
        CNOT | (a, b)
        a[0].__del__()
        UserGate(2) | b
        b[0].__del__()
''', ['Allocate 1', 'UserGate(num=-2) 1', 'Allocate 0', 'XGate 1 ctrl 0=1', 'Deallocate 1', 'UserGate(num=-1) 50', 'Deallocate 0']),
        'two after each other': ('''
        a = eng.allocate_qubit()
        UserGate(1) | a
        a[0].__del__()
        a = eng.allocate_qubit()
        UserGate(2) | a
        a[0].__del__()
''', ['Allocate 1', 'UserGate(num=-2) 1', 'Deallocate 1', 'Allocate 0', 'UserGate(num=-1) 0', 'Deallocate 0'])}
    for name, (body, want) in loc_body.items():
        expect(chk, 'local', name, HEAD + '    with Dagger(eng):' + body, want, 'DaggerEngine', loc)
    for name, pre, body in (('allocated only', '', 'a = eng.allocate_qubit()'), ('deallocated only', 'a = eng.allocate_qubit()', 'a[0].__del__()'),
                            ('one of two deallocated', '', 'a = eng.allocate_qureg(2)\n            a[0].__del__()'),
                            ('other qubit deallocated', 'b = eng.allocate_qubit()', 'a = eng.allocate_qubit()\n            b[0].__del__()')):
        src = HEAD + f'''
    {pre}
    probe('begin')
    try:
        with Dagger(eng):
            UserGate(1) | q[0]
            {body}
            UserGate(2) | q[0]
    except QubitManagementError:
        probe('refused')
'''
        expect(chk, 'unbalanced', name, src, lambda got: None if got[got.index("probe 'begin'") + 1:] == ["probe 'refused'"]
               else f'after the section begins: {got[got.index(chr(112) + "robe " + repr("begin")) + 1:]}', 'DaggerEngine', loc)
    nest = {
        'dagger in dagger': ('''
    with Dagger(eng):
        UserGate(1) | q[0]
        with Dagger(eng):
            UserGate(2) | q[0]
            UserGate(3) | q[0]
        UserGate(4) | q[0]
''', ['UserGate(num=-4) 50', 'UserGate(num=2) 50', 'UserGate(num=3) 50', 'UserGate(num=-1) 50']),
        'dagger in control': ('''
    with Control(eng, q[1], ctrl_state='0'):
        with Dagger(eng):
            UserGate(1) | q[0]
            UserGate(2) | q[0]
''', ['UserGate(num=-2) 50 ctrl 51=0', 'UserGate(num=-1) 50 ctrl 51=0']),
        'control in dagger': ('''
    with Dagger(eng):
        with Control(eng, q[1], ctrl_state='0'):
            UserGate(1) | q[0]
        UserGate(2) | q[0]
''', ['UserGate(num=-2) 50', 'UserGate(num=-1) 50 ctrl 51=0']),
        'dagger in loop': ('''
    with Loop(eng, 2):
        with Dagger(eng):
            UserGate(1) | q[0]
            UserGate(2) | q[0]
''', ['UserGate(num=-2) 50', 'UserGate(num=-1) 50'] * 2),
        'loop in dagger': ('''
    with Dagger(eng):
        with Loop(eng, 2):
            UserGate(1) | q[0]
            UserGate(2) | q[0]
''', ['UserGate(num=-2) 50', 'UserGate(num=-1) 50'] * 2),
        'compute in dagger': ('''
    with Dagger(eng):
        with Compute(eng):
            UserGate(1) | q[0]
        UserGate(2) | q[0]
        Uncompute(eng)
''', ['UserGate(num=1) 50 tags UncomputeTag', 'UserGate(num=-2) 50', 'UserGate(num=-1) 50 tags ComputeTag'])}
    for name, (body, want) in nest.items():
        expect(chk, 'nested', name, HEAD + body, want, 'DaggerEngine', loc)
    metasem.judge(chk, 'dagger', 120, 1200, loc, 'DaggerEngine')
    chk.assume = [f'Bodies of up to {n} steps of {len(STEPS)} kinds; qubits identified by distinct ids.']
    return ('All bodies of bounded length made of every kind of command are analysed inside a dagger section over the real engine chain; the trace '
            'at the last engine on every path must be the reversed list of inverses, emitted at the end only.')
