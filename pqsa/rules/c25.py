"""C25: compiler setups filter gates behind a replacer."""
from .. import setups
from ..client import Client
from ..model import AnalysisError
from ..values import Exc, K

PARALLEL = True
TECHNIQUE = ('abstract interpretation of every shipped setup (engine lists, filters, replacers, optimizers, mappers and decomposition rules) on single commands; what arrives at the '
             'backend is compared with the declared gate set')


def check(chk):
    chk.rule('declared', 'only gates of the declared set arrive at the backend', 300)
    chk.rule('kept', 'a declared gate arrives unchanged', 50)
    chk.rule('device', 'every command a hardware setup lets through is supported by the device', 60)
    chk.rule('compiles', 'the setup accepts the command', 300)
    chk.rule('arguments', 'gate sets which are not understood are refused with TypeError', 12)
    arguments(chk)
    sweep(chk, ('declared', 'kept', 'compiles', 'device'), setups.filtered)
    chk.assume = ['Setups with the configurations listed in pqsa/setups.py; commands on at most four qubits.']
    return 'Each command is followed through the complete engine list.'


BAD = [
    ('one_qubit_gates', '"all"'), ('one_qubit_gates', '("any",)'), ('one_qubit_gates', '(7,)'), ('two_qubit_gates', '"all"'), ('two_qubit_gates', '("any",)'), ('two_qubit_gates', '(CNOT, None)'),
    ('other_gates', '"any"'), ('other_gates', '("any",)'), ('one_qubit_gates', '"CNOT"'),
]
WRONG = '''
def client():
    try:
        %s
        return 'accepted'
    except TypeError:
        return 'refused'
'''


def arguments(chk):
    for where, call in (('restrictedgateset', 'restrictedgateset.get_engine_list(%s)'), ('linear', 'linear.get_engine_list(4, %s)'), ('grid', 'grid.get_engine_list(2, 2, %s)')):
        for kind, value in BAD:
            # the elements of the tuples are only checked by restrictedgateset (see the docstrings)
            if where != 'restrictedgateset' and (kind == 'other_gates' or value[0] == '(') or not chk.mine():
                continue
            inst = call % f'{kind}={value}'
            C = Client(chk.prog, WRONG % inst, prelude=setups.HEAD, stubs=setups.decsem.STUBS, floats=True)
            try:
                outs = C.run('client')
                chk.saw(C.I, outs)
                got = {v.v if isinstance(v, K) else f'raises {v.name}' if isinstance(v, Exc) else '?' for _, v in outs}
                if got == {'refused'}:
                    chk.ok('arguments', inst)
                elif '?' in got or any(f for st, _ in outs for f in st.facts):
                    chk.unknown('arguments', inst, f'{got}')
                else:
                    chk.fail('arguments', f'{where}/{kind}={value}', f'projectq/setups/{where}.py', f'{inst}: {", ".join(sorted(got))}')
            except AnalysisError as e:
                chk.unknown('arguments', inst, str(e))
            finally:
                C.close()


def sweep(chk, rules, judge):
    for s in setups.catalogue(chk.thorough):
        work = [(gate, setups.single(gate, setups.uses_of(s, sizes, states))) for gate, sizes, states in setups.commands(s, chk.thorough)]
        work += [(f'program {i}', [p]) for i, p in enumerate(setups.programs(s), 1)]
        for label, programs in work:
            if programs and chk.mine():
                one(chk, s, label, programs, rules, judge)


def one(chk, s, label, programs, rules, judge):
    loc = f'projectq/setups/{s.where}.py'
    inst = f'{s.name}: {label}'
    res = '' if s.single else setups.send(chk, s, programs, judge)
    if isinstance(res, str) and (s.single or len(programs) > 1):
        res = [setups.send(chk, s, [p], judge) for p in programs]
        res = next((r for r in res if isinstance(r, str)), None) or [x for r in res for x in r]
    if isinstance(res, str) or None in res:
        for r in rules:
            chk.unknown(r, inst, res if isinstance(res, str) else 'not followed to the end')
        return
    bad = {}
    for found in res:
        for r, msg, where in found:
            bad.setdefault(r, (msg, where))
    for r in rules:
        if r == 'device' and not s.device:
            continue
        if r in bad:
            chk.fail(r, f'{s.name}/{label}', loc, f'{inst}: {bad[r][0]} (at {bad[r][1]})')
        elif 'compiles' not in bad:
            chk.ok(r, inst)
