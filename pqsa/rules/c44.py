"""C44: synthesis rules for composite gates implement the documented unitary."""
from .. import composite

PARALLEL = True
TECHNIQUE = ('abstract interpretation of the synthesis rules (uniformly controlled rotations, evolution under Pauli terms, Pauli strings, state preparation, entangling, Fourier '
             'transform, phase estimation, amplitude amplification) on a catalogue of parameters and register sizes, evolution times symbolic; the emitted commands are compared '
             'with the documented unitary in an exact algebra of characters')


def check(chk):
    chk.rule('unitary', 'the emitted commands act as the documented unitary, global phase included, under any number of controls', 100)
    cs = [c for c in composite.cases(chk.thorough) if c.kind == 'synthesis']
    for case, rule, us in composite.sweep(chk, cs):
        inst = f'{rule[2]} on {case.name()}'
        if isinstance(us, str):
            chk.unknown('unitary', inst, us)
            continue
        refused = [u for u in us if u.refused and u.refused != '?']
        bad = [u for u in us if any(x and not x.startswith('?') for x in (u.clean, u.exact, u.unsat))]
        odd = [u for u in us if u.exact or u.clean or u.unsat or u.refused]
        if bad or refused:
            u = (bad + refused)[0]
            chk.fail('unitary', rule[2], u.where, f'{inst}' + (f' with controls {u.ctrl}' if u.ctrl else '') + ': '
                     + (u.refused and f'raises {u.refused}' or next(x for x in (u.clean, u.exact, u.unsat) if x and x[0] != '?')))
        elif odd:
            chk.unknown('unitary', inst, odd[0].exact or odd[0].clean or odd[0].unsat or 'not followed to the end')
        else:
            chk.ok('unitary', inst)
    chk.assume = ['A catalogue of parameters on registers of at most four qubits; evolution times are symbolic, other angles are floating-point constants compared to 1e-9.',
                  'The rules are followed one level deep: gates they emit have their documented meaning.']
    return ('Each rule is analysed on each entry of the catalogue under zero to three controls; the emitted commands are applied to a generic state and compared with the documented '
            'unitary of the gate.')
