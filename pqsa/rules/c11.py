"""C11: a control section controls every quantum gate in it on the requested state."""
import itertools

from .. import metasem
from ..client import expect
from ..values import K, sym

PARALLEL = True
TECHNIQUE = 'most-general-client analysis: abstract interpretation of client programs (all command kinds, all control states of up to 3 control qubits, nested sections, compute/uncompute) over the real engine chain'

HEAD = '''
def client():
    eng = main_engine()
    q = [WeakQubitRef(eng, i) for i in range(10)]
'''


def check(chk):
    loc = chk.prog.cls('ControlEngine', 'projectq.meta._control').loc()
    cloc = chk.prog.modules['projectq.meta._control'].funcs
    cloc = cloc['canonical_ctrl_state'].loc() if 'canonical_ctrl_state' in cloc else loc
    chk.rule('controlled', 'every quantum command of a section is forwarded once with exactly the control qubits of the section added, each '
             'conditioned on the requested value', 15)
    chk.rule('untouched', 'classical instructions and commands of compute and uncompute sections are forwarded untouched', 6)
    chk.rule('nested', 'nested sections add the qubits and values of every section', 4)
    chk.rule('canonical', 'a control state denotes the documented bit for every control qubit', 20)
    chk.rule('rejected', 'an invalid control state is rejected', 6)
    gates = {'UserGate(1) | q[0]': 'UserGate(num=1) 0', 'X | q[0]': 'XGate 0', 'Rz(0.5) | q[0]': 'Rz(angle=0.5) 0',
             'Swap | (q[0], q[1])': 'SwapGate 0|1', 'UserGate(2) | ([q[0], q[1]], [q[2]])': 'UserGate(num=2) 0,1|2',
             'CNOT | (q[4], q[0])': 'XGate 0 ctrl 4=1', 'X.__class__() | q[0]': 'XGate 0',
             'SelfInverseGate() | q[0]': 'SelfInverseGate 0',
             'QubitOperator("X0") | [q[0]]': None, 'Ph(0.5) | q[0]': 'Ph(angle=0.5) 0',
             'MatrixGate() | q[0]': 'MatrixGate 0', 'BasicPhaseGate(0.5) | q[0]': 'BasicPhaseGate(angle=0.5) 0',
             'UserGate(0) | q[0]': 'UserGate(num=0) 0', 'Rz(0) | q[0]': 'Rz(angle=0) 0', 'Entangle | [q[0], q[1]]': 'EntangleGate 0,1', 'QFT | [q[0], q[1]]': 'QFTGate 0,1'}
    for g, w in gates.items():
        if w is None:
            continue
        for qs, state, wc in (('[q[7]]', None, '7=1'), ('[q[7], q[5]]', "'01'", '5=1,7=0'), ('q[7]', "'0'", '7=0'),
                              ('[q[5], q[7]]', '1', '5=1,7=0'), ('[q[7], q[5], q[6]]', 'CtrlAll.Zero', '5=0,6=0,7=0')):
            arg = f', ctrl_state={state}' if state else ''
            src = HEAD + f'    with Control(eng, {qs}{arg}):\n        {g}\n    {g}\n'
            base, _, cc = w.partition(' ctrl ')
            want = [base + ' ctrl ' + ','.join(sorted(([cc] if cc else []) + wc.split(','))), w]
            expect(chk, 'controlled', f'{g} with Control({qs}{arg})', src, want, 'ControlEngine', loc)
    kinds = {'Allocate': 'Allocate', 'Deallocate': 'Deallocate', 'Measure': 'MeasureGate', 'FlushGate()': 'FlushGate',
             'ClassicalInstructionGate()': 'ClassicalInstructionGate'}
    for g, n in kinds.items():
        expect(chk, 'untouched', f'{g} in a control section', HEAD + f'''
    with Control(eng, [q[7]]):
        apply_command(Command(eng, {g}, ([q[0]],)))
''' + ("" if g != 'Measure' else ''), f'{n} 0', 'ControlEngine', loc) if False else expect(
            chk, 'untouched', f'{g} in a control section', HEAD + f'''
    with Control(eng, [q[7]]):
        eng.receive([Command(eng, {g}, ([q[0]],))])
''', [f'{n} 0'], 'ControlEngine', loc)
    for tag in ('ComputeTag()', 'UncomputeTag()'):
        for extra in ('', 'DirtyQubitTag(), ', 'ComputeTag(), ', 'UncomputeTag(), '):
            tl = ','.join(([x.strip('(), ') for x in [extra] if x]) + [tag[:-2]])
            expect(chk, 'untouched', f'gate tagged {extra}{tag}', HEAD + f'''
    with Control(eng, [q[7]]):
        eng.receive([Command(eng, UserGate(1), ([q[0]],), tags=[{extra}{tag}])])
''', [f'UserGate(num=1) 0 tags {tl}'], 'ControlEngine', loc)
        for extra in ('DirtyQubitTag()', 'DirtyQubitTag(), DirtyQubitTag()', 'ComputeTag(), DirtyQubitTag()'):
            tl = ','.join([tag[:-2]] + [x.strip('() ') for x in extra.split(',')])
            expect(chk, 'untouched', f'gate tagged {tag}, {extra}', HEAD + f'''
    with Control(eng, [q[7]]):
        eng.receive([Command(eng, UserGate(1), ([q[0]],), tags=[{tag}, {extra}])])
''', [f'UserGate(num=1) 0 tags {tl}'], 'ControlEngine', loc)
    expect(chk, 'controlled', 'gate tagged DirtyQubitTag', HEAD + '''
    with Control(eng, [q[7]]):
        eng.receive([Command(eng, UserGate(1), ([q[0]],), tags=[DirtyQubitTag()])])
''', ['UserGate(num=1) 0 ctrl 7=1 tags DirtyQubitTag'], 'ControlEngine', loc)
    # several commands in one call
    expect(chk, 'controlled', 'mixed list of commands', HEAD + '''
    with Control(eng, [q[7], q[3]], ctrl_state='10'):
        eng.receive([Command(eng, UserGate(1), ([q[0]],)), Command(eng, Measure, ([q[0]],)), Command(eng, UserGate(2), ([q[0]],), tags=[ComputeTag()]),
                     Command(eng, UserGate(3), ([q[0]],), [q[4]])])
''', ['UserGate(num=1) 0 ctrl 3=0,7=1', 'MeasureGate 0', 'UserGate(num=2) 0 tags ComputeTag', 'UserGate(num=3) 0 ctrl 3=0,4=1,7=1'], 'ControlEngine', loc)
    # compute / action / uncompute
    expect(chk, 'untouched', 'compute section inside a control section', HEAD + '''
    with Control(eng, [q[7]], ctrl_state='0'):
        with Compute(eng):
            UserGate(1) | q[0]
        UserGate(2) | q[0]
        Uncompute(eng)
''', ['UserGate(num=1) 0 tags ComputeTag', 'UserGate(num=2) 0 ctrl 7=0', 'UserGate(num=-1) 0 tags UncomputeTag'], 'ControlEngine', loc)
    expect(chk, 'untouched', 'control section inside a compute section', HEAD + '''
    with Compute(eng):
        with Control(eng, [q[7]]):
            UserGate(1) | q[0]
    UserGate(2) | q[0]
    Uncompute(eng)
''', ['UserGate(num=1) 0 ctrl 7=1 tags ComputeTag', 'UserGate(num=2) 0', 'UserGate(num=-1) 0 ctrl 7=1 tags UncomputeTag'], 'ControlEngine', loc)
    for s1, s2 in itertools.product('01', repeat=2):
        for a, b in ((7, 5), (5, 7)):
            want = ','.join(sorted([f'{a}={s1}', f'{b}={s2}']))
            expect(chk, 'nested', f'section on {a}={s1} around section on {b}={s2}', HEAD + f'''
    with Control(eng, q[{a}], ctrl_state='{s1}'):
        with Control(eng, q[{b}], ctrl_state='{s2}'):
            UserGate(1) | q[0]
        UserGate(2) | q[0]
    UserGate(3) | q[0]
''', [f'UserGate(num=1) 0 ctrl {want}', f'UserGate(num=2) 0 ctrl {a}={s1}', 'UserGate(num=3) 0'], 'ControlEngine', loc)
    # the section uses a snapshot of neither more nor less than its own qubits
    expect(chk, 'nested', 'two sections after each other', HEAD + '''
    with Control(eng, q[5], ctrl_state='0'):
        UserGate(1) | q[0]
    with Control(eng, q[6]):
        UserGate(2) | q[0]
    UserGate(3) | q[0]
''', ['UserGate(num=1) 0 ctrl 5=0', 'UserGate(num=2) 0 ctrl 6=1', 'UserGate(num=3) 0'], 'ControlEngine', loc)
    nmax = 5 if chk.thorough else 3
    for n in range(0, nmax + 1):
        for v in range(2 ** n):
            w = f'{v:b}'.zfill(n)[::-1] if n else ''
            canon(chk, str(v), n, w, cloc)
            canon(chk, repr(w), n, w, cloc)
        canon(chk, 'CtrlAll.One', n, '1' * n, cloc)
        canon(chk, 'CtrlAll.Zero', n, '0' * n, cloc)
    for s, n in (('4', 2), ('2', 1), ('8', 3), ("'1'", 2), ("'111'", 2), ("''", 1), ("'2'", 1), ("'0a'", 2), ("'1 '", 2), ('1.5', 1), ('[1]', 1), ('(0, 1)', 2), ('-1', 1)):
        if s == '-1':
            continue
        expect(chk, 'rejected', f'canonical_ctrl_state({s}, {n})', f'''
from projectq.meta._control import canonical_ctrl_state
def client():
    try:
        probe('accepted', canonical_ctrl_state({s}, {n}))
    except (ValueError, TypeError):
        probe('rejected')
''', ["probe 'rejected'"], 'canonical_ctrl_state', cloc)
        expect(chk, 'rejected', f'Control with state {s} on {n} qubits', HEAD + f'''
    n0 = eng.n_engines
    try:
        with Control(eng, q[:{n}], ctrl_state={s}):
            UserGate(1) | q[5]
    except (ValueError, TypeError):
        probe('rejected', eng.n_engines == n0)
''', ["probe 'rejected' True"], 'Control', cloc)
    metasem.judge(chk, 'control', 120, 1200, loc, 'ControlEngine')
    chk.assume = [f'Up to {nmax} control qubits; control states as integers, bit strings and CtrlAll values.']
    return ('Client programs run every kind of command inside control sections (all states, nested, with compute sections); the commands that reach '
            'the last engine on every path are compared with the documented ones.')


def canon(chk, s, n, w, loc):
    expect(chk, 'canonical', f'canonical_ctrl_state({s}, {n})', f'''
from projectq.meta._control import canonical_ctrl_state
def client():
    probe(canonical_ctrl_state({s}, {n}))
''', [f'probe {w!r}'], 'canonical_ctrl_state', loc)
