"""C05: a decomposition applies every gate under the controls of the replaced command."""
from .. import composite

PARALLEL = True
TECHNIQUE = ('abstract interpretation of every shipped decomposition rule on commands with one to four control qubits; the emitted commands are applied to a generic state in '
             'which the controls are not satisfied and have to leave it unchanged')


def check(chk):
    chk.rule('identity', 'the emitted commands act as the identity when the control qubits of the replaced command are not satisfied', 150)
    cs = [c for c in composite.gates() + composite.cases(chk.thorough) if c.most]
    for case, rule, us in composite.sweep(chk, cs):
        inst = f'{rule[2]} on {case.name()}'
        if isinstance(us, str):
            chk.unknown('identity', inst, us)
            continue
        us = [u for u in us if u.ctrl]
        bad = [u for u in us if u.unsat and not u.unsat.startswith('?')]
        odd = [u for u in us if u.unsat and u.unsat.startswith('?') or u.refused == '?']
        if bad:
            u = bad[0]
            chk.fail('identity', rule[2], u.where, f'{inst} with controls {u.ctrl}: {u.unsat}')
        elif odd:
            chk.unknown('identity', inst, odd[0].unsat or 'not followed to the end')
        elif any(not u.refused for u in us):
            chk.ok('identity', inst)
    chk.assume = ['Registers of at most four qubits and at most four controls; arithmetic gates on values inside their documented domain.',
                  'A rule that refuses the command with an exception applies nothing and is not reported here.']
    return ('For each registered rule, each gate of its class in the catalogue and each accepted control configuration, the decomposer is analysed and the commands it emits are '
            'applied to a generic state restricted to unsatisfied controls; gates in compute/uncompute pairs cancel there, anything else shows.')
