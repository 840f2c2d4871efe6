"""C06: every compute section opened by the library is uncomputed exactly once; ancilla qubits are given back clean."""
from .. import composite

PARALLEL = True
TECHNIQUE = ('abstract interpretation of every library function with compute sections or ancilla qubits through the decomposition rules that use it: the engine chain has to be '
             'restored, the sections closed once (typestate of the compute engine), and each allocated qubit deallocated in state zero')


def check(chk):
    chk.rule('closed', 'after the rule every compute section is closed, no engine stays in the chain and no section is uncomputed twice', 150)
    chk.rule('clean', 'every qubit the rule allocates is given back before it returns, in state zero', 150)
    cs = composite.gates() + composite.cases(chk.thorough)
    for case, rule, us in composite.sweep(chk, cs):
        inst = f'{rule[2]} on {case.name()}'
        if isinstance(us, str):
            chk.unknown('closed', inst, us)
            continue
        err = [u for u in us if u.refused and u.refused in ('NoComputeSectionError', 'QubitManagementError', 'ComputeError')]
        chain = [u for u in us if u.chain]
        if err:
            chk.fail('closed', rule[2], err[0].where, f'{inst}: raises {err[0].refused}')
            continue
        if chain:
            chk.fail('closed', rule[2], chain[0].where, f'{inst}: {chain[0].chain}')
            continue
        chk.ok('closed', inst)
        bad = [u for u in us if u.clean and not u.clean.startswith('?')]
        odd = [u for u in us if u.clean and u.clean.startswith('?') or u.refused == '?']
        if bad:
            chk.fail('clean', rule[2], bad[0].where, f'{inst}' + (f' with controls {bad[0].ctrl}' if bad[0].ctrl else '') + f': {bad[0].clean}')
        elif odd:
            chk.unknown('clean', inst, odd[0].clean or 'not followed to the end')
        else:
            chk.ok('clean', inst)
    chk.assume = ['Qubits are deallocated when the last reference to them disappears, as in CPython; finalizers are followed in the analysis.',
                  'Arithmetic gates on values inside their documented domain; registers of at most four qubits.']
    return ('Each rule is analysed on its gates with several control configurations; the analysis keeps the engine chain, the typestate of each compute engine, the live qubits by '
            'reference counting and a generic state vector, and checks all of them when the decomposer returns.')

