"""Model of the compiled simulator: remembers which qubits exist, records every call, measures what the client program wants."""
outcomes = {}


def probe(*args):
    pass


class Simulator:
    def __init__(self, seed):
        self.ids = []

    def run(self):
        probe('sim', 'run')

    def allocate_qubit(self, qid):
        if qid in self.ids:
            raise RuntimeError('already allocated')
        self.ids.append(qid)
        probe('sim', 'allocate_qubit', qid)

    def deallocate_qubit(self, qid):
        if qid not in self.ids:
            raise RuntimeError('unknown qubit')
        self.ids.remove(qid)
        probe('sim', 'deallocate_qubit', qid)

    def _known(self, ids):
        for i in ids:
            if i not in self.ids:
                raise RuntimeError('unknown qubit')

    def measure_qubits(self, ids):
        self._known(ids)
        probe('sim', 'measure_qubits', ids)
        return [bool(outcomes.get(i, 0)) for i in ids]

    def get_classical_value(self, qid, tol=1e-12):
        probe('sim', 'get_classical_value', qid)
        return bool(outcomes.get(qid, 0))

    def is_classical(self, qid, tol=1e-12):
        probe('sim', 'is_classical', qid)
        return True

    def apply_controlled_gate(self, matrix, ids, ctrl):
        self._known(ids)
        self._known(ctrl)
        probe('sim', 'apply_controlled_gate', matrix, ids, ctrl)

    def emulate_math(self, fun, quregs, ctrl):
        self._known(ctrl)
        probe('sim', 'emulate_math', fun, quregs, ctrl)

    def emulate_math_addConstant(self, a, quregs, ctrl):
        probe('sim', 'emulate_math_addConstant', a, quregs, ctrl)

    def emulate_math_addConstantModN(self, a, n, quregs, ctrl):
        probe('sim', 'emulate_math_addConstantModN', a, n, quregs, ctrl)

    def emulate_math_multiplyByConstantModN(self, a, n, quregs, ctrl):
        probe('sim', 'emulate_math_multiplyByConstantModN', a, n, quregs, ctrl)

    def emulate_time_evolution(self, terms, time, ids, ctrl):
        self._known(ids)
        self._known(ctrl)
        probe('sim', 'emulate_time_evolution', terms, time, ids, ctrl)

    def get_expectation_value(self, terms, ids):
        self._known(ids)
        probe('sim', 'get_expectation_value', terms, ids)
        return 0.25

    def apply_qubit_operator(self, terms, ids):
        self._known(ids)
        probe('sim', 'apply_qubit_operator', terms, ids)

    def get_probability(self, bits, ids):
        self._known(ids)
        probe('sim', 'get_probability', bits, ids)
        return 0.5

    def get_amplitude(self, bits, ids):
        self._known(ids)
        probe('sim', 'get_amplitude', bits, ids)
        return 0.75

    def set_wavefunction(self, wavefunction, ids):
        self._known(ids)
        probe('sim', 'set_wavefunction', wavefunction, ids)

    def collapse_wavefunction(self, ids, values):
        self._known(ids)
        probe('sim', 'collapse_wavefunction', ids, values)

    def cheat(self):
        probe('sim', 'cheat')
        return ({i: n for n, i in enumerate(self.ids)}, [1.0])
