#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})


# ---------------------------------------------------------------- commands and gates
prop('C01', 'Commands keep all their parts when copied, inverted, merged or controlled',
     'Copying a command yields a command with the same gate, targets, control qubits, control state, tags and engine; inverting or '
     'merging changes only the gate. Every control qubit keeps the control value it was given, however the controls are ordered '
     'internally. Two commands compare equal only if gate, targets, control qubits, control state, tags and engine all agree.',
     ['inputs', 'histories'], 'all commands: any gate, any targets, any controls with any control state, any tags, built in any order of additions',
     'The tests build a few commands by hand, almost all with positive controls; the guarantee is over every field of every command.',
     ['projectq/ops/_command.py'],
     [('Command construction, copy, inverse, merge, equality, control addition', 'projectq/ops/_command.py:Command')],
     [('gate/qubits/control_qubits/control_state/tags/engine', 'parts of a command', 'projectq/ops/_command.py:Command.__init__')])
prop('C02', 'Gates built with different parameters never compare equal',
     'Two gate objects of the same kind compare equal only if every parameter that influences what the gate does agrees, so that a '
     'gate is never mistaken for another one by the optimizer, a filter or a backend. Gates that compare equal have equal hashes.',
     ['inputs'], 'all gate classes shipped with the library and all parameter values',
     'Tests compare some instances of some classes; the guarantee ranges over every class and every parameter.',
     ['projectq/ops', 'projectq/libs/math/_gates.py', 'projectq/libs/revkit'],
     [('gate equality and hash methods', 'projectq/ops/_basics.py:BasicGate.__eq__ and overrides')])
prop('C03', 'Gate matrices, inverses, merges and identities are algebraically exact',
     'Every predefined gate with a matrix reports its documented unitary matrix. The inverse a gate reports exactly undoes the gate, merging two gates '
     'gives the first gate followed by the second, and a gate that reports to be an identity acts as the exact identity (phase included). Controlled, '
     'tensor, bit-flip and Pauli-string gates act as the gates they stand for on exactly those qubits. Qubits a gate declares interchangeable can be '
     'swapped without changing it.',
     ['inputs'], 'all gates and all real angles',
     'Tests evaluate matrices at a handful of angles with floating point tolerance; the identities must hold for every angle.',
     ['projectq/ops/_basics.py', 'projectq/ops/_gates.py', 'projectq/ops/_metagates.py', 'projectq/ops/_qubit_operator.py', 'projectq/ops/_time_evolution.py', 'projectq/ops/_uniformly_controlled_rotation.py'],
     [('matrix properties and get_inverse/get_merged/is_identity', 'projectq/ops/_gates.py, projectq/ops/_basics.py')])
prop('C04', 'Gate-level decomposition rules implement exactly the gate they replace',
     'Every shipped decomposition rule that replaces a fixed-size matrix gate by a fixed gate sequence implements the same unitary for '
     'every angle and every control configuration its recognizer admits. It does so including the phase, which may only be dropped '
     'where the rule admits no control qubit.',
     ['inputs', 'programs'], 'all rules with a fixed gate sequence, all angles, all admitted numbers of control qubits',
     'Tests run each rule on a few angles and initial states and compare amplitudes numerically, often ignoring controls.',
     ['projectq/setups/decompositions'],
     [('decomposition functions and recognizers', 'projectq/setups/decompositions/*.py:_decompose_*, _recognize_*')])
prop('C05', 'A decomposition applies every gate under the controls of the replaced command',
     'When a command with control qubits is replaced by a decomposition, the replacement acts as the identity whenever the controls are '
     'not satisfied: every gate it emits is conditioned on all control qubits of the command, except gates that cancel in pairs '
     '(compute/uncompute) around them. A rule that cannot honour controls must not be applicable to controlled commands.',
     ['inputs', 'programs'], 'all shipped decomposition rules, all commands with any number of control qubits admitted by the recognizer',
     'Most decompositions are tested without extra control qubits.',
     ['projectq/setups/decompositions', 'projectq/libs/math/_default_rules.py'],
     [('decomposition functions', 'projectq/setups/decompositions/*.py, projectq/libs/math/_default_rules.py')])
prop('C06', 'Every compute section opened by the library is uncomputed exactly once',
     'Wherever library code (decompositions, arithmetic, oracles, state preparation) opens a compute section, every normal path through '
     'it closes that section with exactly one uncompute on the same engine, after the action. Every qubit library code allocates '
     'inside a decomposition is given back before the decomposition returns.',
     ['inputs', 'programs'], 'all library functions that use compute sections or ancilla qubits, all paths',
     'Tests execute some paths of some decompositions only.',
     ['projectq/setups/decompositions', 'projectq/libs/math', 'projectq/libs/revkit'],
     [('Compute/Uncompute/CustomUncompute pairs, allocate/deallocate pairs', 'projectq/setups/decompositions, projectq/libs')])
# ---------------------------------------------------------------- engines
prop('C07', 'AutoReplacer replaces only what is unsupported and never corrupts its rules',
     'A command the following engines support is forwarded unchanged; any other command is replaced using a registered rule for its gate '
     'class (or, for the inverse of its gate, by running that rule inverted) whose recognizer accepted it, or a descriptive error is '
     'raised. Replacement commands carry the tags of the replaced command. Replacing never modifies the registered rules.',
     ['histories', 'programs'], 'all commands, all rule sets, any number of commands through one engine',
     'Tests push a few commands through one small rule set.',
     ['projectq/cengines/_replacer/_replacer.py', 'projectq/cengines/_replacer/_decomposition_rule_set.py', 'projectq/setups/decompositions/__init__.py'],
     [('command processing', 'projectq/cengines/_replacer/_replacer.py:AutoReplacer'), ('rule registration', 'projectq/cengines/_replacer/_decomposition_rule_set.py')])
prop('C08', 'Pass-through engines forward every command exactly once, unchanged and in order',
     'Engines whose job is only to observe, filter, tag or translate single commands (printers, circuit drawers, resource counters, '
     'filters, tag removers, command modifiers, simple mappers, forwarders, pass-through simulators) emit exactly one command for each '
     'received command, in the received order, whatever the gate; none is lost, duplicated or reordered. Observing engines emit the '
     'very command they received.',
     ['histories', 'programs'], 'all command lists through all pass-through engines in a pipeline position',
     'Tests send short command lists through each engine; the guarantee is for every list and every gate.',
     ['projectq/cengines', 'projectq/backends', 'projectq/meta'],
     [('receive/send of the engines', 'projectq/cengines/*.py, projectq/backends/_printer.py, _resource.py, _circuits/*.py, _sim/*.py, _unitary.py')])
prop('C09', 'A flush empties every buffer before it is passed on',
     'When an engine that buffers commands receives a flush, it first emits (or executes) everything it has buffered, and only then '
     'forwards the flush; commands are never emitted after the flush that followed them, and nothing is emitted twice by a later flush.',
     ['histories'], 'all buffering engines, all histories of commands and flushes',
     'Tests flush once after a short circuit.',
     ['projectq/cengines/_optimize.py', 'projectq/cengines/_linearmapper.py', 'projectq/cengines/_twodmapper.py', 'projectq/cengines/_ibm5qubitmapper.py', 'projectq/backends'],
     [('flush handling', 'receive methods of LocalOptimizer, the mappers and the hardware backends')])
prop('C10', 'Meta sections leave the compiler pipeline as they found it',
     'Entering a control, dagger, loop or custom-uncompute section inserts at most one engine directly behind the engine it was opened '
     'on; leaving it, normally or by an exception, removes exactly what was inserted. Inserting and removing an engine keeps the chain '
     'linked and the number of engines correct.',
     ['histories', 'crash_points'], 'all nestings of meta sections, leaving by any exception',
     'Tests leave sections normally; exceptional exits are hardly exercised.',
     ['projectq/meta/_util.py', 'projectq/meta/_control.py', 'projectq/meta/_dagger.py', 'projectq/meta/_loop.py', 'projectq/meta/_compute.py'],
     [('insert/drop of engines', 'projectq/meta/_util.py'), ('context managers', 'projectq/meta/*.py:__enter__/__exit__')])
prop('C11', 'A control section controls every quantum gate in it on the requested state',
     'Inside a control section every command is forwarded with exactly the section\'s qubits and the section\'s control values added, '
     'except classical instructions and commands that belong to a compute or uncompute section, which are forwarded untouched. A control '
     'state given as an integer, a bit string or an all-ones/all-zeros value denotes the documented bit for each control qubit, and '
     'invalid ones are rejected.',
     ['inputs', 'programs'], 'all commands inside all control sections, all spellings of the control state',
     'Tests check a few gates and a few spellings.',
     ['projectq/meta/_control.py'], [('control engine and control-state canonicalisation', 'projectq/meta/_control.py')])
prop('C12', 'A dagger section emits exactly the reversed sequence of inverses',
     'Leaving a dagger section emits, for every command received in it, exactly one inverse, in the reverse order; nothing is emitted '
     'before the end or when the section is left by an exception. Qubits allocated but not deallocated inside are reported as an error '
     'before anything is emitted.',
     ['programs', 'histories'], 'all bodies of dagger sections',
     'Tests use short bodies.', ['projectq/meta/_dagger.py'], [('dagger engine', 'projectq/meta/_dagger.py')])
prop('C13', 'Uncompute emits the reversed inverses of the recorded compute section',
     'Commands in a compute section are forwarded marked as compute and recorded unmarked; uncompute emits exactly one inverse for each '
     'recorded command in the reverse order, each marked as uncompute, with qubits local to the section replaced by newly allocated '
     'ones. Qubits that cannot be uncomputed consistently are reported as an error.',
     ['programs', 'histories'], 'all compute sections, with and without local qubits',
     'Tests use short bodies with at most two local qubits.', ['projectq/meta/_compute.py'],
     [('compute and uncompute engines', 'projectq/meta/_compute.py')])
prop('C14', 'A loop section executes its body exactly the requested number of times',
     'The commands of a loop body reach the following engines exactly the requested number of times in order, either unrolled or once with '
     'a loop mark carrying that number; zero repetitions emit nothing. Qubits local to the body get a fresh identity in every '
     'repetition, and unbalanced allocation is an error.',
     ['programs', 'inputs'], 'all loop counts and all loop bodies', 'Tests use counts 0..10 and short bodies.',
     ['projectq/meta/_loop.py'], [('loop engine', 'projectq/meta/_loop.py')])
prop('C15', 'Qubit handles: unique ids, one deallocation, no stale results',
     'Every allocated qubit has an id never used before in that compiler, is announced by exactly one allocation command and taken back by '
     'exactly one deallocation command when deleted or garbage collected, after which the handle is invalid. Reading a qubit that has not been '
     'measured since its last use of that id raises an error instead of returning a value.',
     ['histories'], 'all histories of allocations, deletions and measurements', 'Tests exercise short histories.',
     ['projectq/types/_qubit.py', 'projectq/cengines/_basics.py', 'projectq/cengines/_main.py'],
     [('qubit handle', 'projectq/types/_qubit.py'), ('allocation and deallocation', 'projectq/cengines/_basics.py:BasicEngine'), ('measurement registry', 'projectq/cengines/_main.py:MainEngine')])
prop('C16', 'The local optimizer only cancels or merges commands adjacent on all their qubits',
     'Two commands are cancelled or merged only if they are next to each other on every qubit they act on (targets and controls) with '
     'the same control conditions; whatever is removed or replaced is removed or replaced on all those qubits. Commands of one qubit '
     'are emitted in the order received, each exactly once.',
     ['histories', 'programs'], 'all command sequences', 'Tests use short sequences on few qubits.',
     ['projectq/cengines/_optimize.py'], [('pair cancellation and merging', 'projectq/cengines/_optimize.py:LocalOptimizer')])
prop('C17', 'Mappers translate every qubit of every command to its assigned location',
     'In the output of every mapper each target and control qubit id is the location assigned to that logical qubit; nothing else of the '
     'command changes. Measurements are tagged with the logical qubit they belong to, and allocation and deallocation are emitted for '
     'the assigned location.',
     ['inputs', 'histories'], 'all commands, all mappings', 'Tests use few qubits and identity-like mappings.',
     ['projectq/cengines/_basicmapper.py', 'projectq/cengines/_manualmapper.py', 'projectq/cengines/_linearmapper.py', 'projectq/cengines/_twodmapper.py', 'projectq/backends/_ionq/_ionq_mapper.py'],
     [('command translation', 'projectq/cengines/_basicmapper.py:BasicMapperEngine._send_cmd_with_mapped_ids')])
prop('C18', 'Buffering mappers never reorder commands that share a qubit',
     'Each command stored by a routing mapper is either emitted once or kept, in order, for later; a command is emitted only if no earlier '
     'kept command shares a qubit with it, and two-qubit commands are emitted only on neighbouring locations. When qubits are moved the '
     'recorded mapping moves with the emitted swaps.',
     ['histories', 'schedules'], 'all circuits and all mapper states', 'Tests route a few circuits.',
     ['projectq/cengines/_linearmapper.py', 'projectq/cengines/_twodmapper.py'],
     [('emission of possible commands', '_linearmapper.py/_twodmapper.py:_send_possible_commands'), ('swap emission and mapping update', '_run')])
# ---------------------------------------------------------------- simulators / backends
prop('C19', 'Simulator queries address the qubits the user means, mapper or not',
     'Every simulator query or command on user qubits (probabilities, amplitudes, expectation values, wavefunction setting, collapse, '
     'register reads and writes) acts on the simulated qubit that currently represents the given logical qubit, for every mapper in '
     'front of it; a qubit unknown to the mapping is an error.',
     ['configurations', 'histories'], 'all queries of all simulators, with and without a mapper',
     'Tests query mostly without mapper.', ['projectq/backends/_sim/_simulator.py', 'projectq/backends/_sim/_classical_simulator.py'],
     [('logical to mapped translation', '_convert_logical_to_mapped_qureg / _convert_logical_to_mapped_qubit')])
prop('C20', 'No engine executes a negatively controlled gate as a positively controlled one',
     'Every simulator and hardware backend, and every engine that rewrites controlled gates, either refuses commands having a control '
     'qubit conditioned on zero or treats that condition; when refused, the shipped rules turn such controls into positive ones '
     'enclosed by X gates on exactly the qubits conditioned on zero.',
     ['inputs'], 'all commands with at least one control on zero, all backends and rewriting engines', 'Tests cover a few backends.',
     ['projectq/backends', 'projectq/cengines', 'projectq/setups/decompositions/controlstate.py'],
     [('availability checks', 'is_available of the backends'), ('rewriting rule', 'projectq/setups/decompositions/controlstate.py')])
prop('C21', 'A hardware backend translates every command it claims to support, faithfully',
     'Every quantum command a hardware backend declares supported is translated to exactly one device instruction that denotes the same '
     'operation: same gate up to global phase, same angle, same targets and same controls in the right order. No supported command is '
     'dropped or rejected during translation.',
     ['inputs'], 'all commands a hardware backend accepts, all angles and qubits', 'Tests check some gates per backend.',
     ['projectq/backends/_ibm', 'projectq/backends/_ionq', 'projectq/backends/_aqt', 'projectq/backends/_awsbraket', 'projectq/backends/_azure'],
     [('acceptance', 'is_available'), ('translation', '_store, to_json, to_qasm')])
prop('C22', 'Measurement results are registered for the logical qubit that was measured',
     'Every backend registers exactly one result for each measured qubit, under the id the user knows (undoing any mapping), taking the bit '
     'at the position that belongs to that qubit, as a proper 0/1 value.',
     ['configurations', 'histories'], 'all backends, all mappings, all sets and orders of measured qubits', 'Tests measure few qubits in natural order.',
     ['projectq/backends'], [('registration of results', 'set_measurement_result call sites in projectq/backends')])
prop('C23', 'A hardware backend carries nothing over from one run into the next',
     'After a run (successful or failed) the circuit sent for the next run contains only commands received since, and measured qubits and '
     'probabilities of the previous run are forgotten when the next circuit starts.',
     ['histories', 'fault_sequences'], 'all sequences of runs on one backend object', 'Tests run once per backend object.',
     ['projectq/backends'], [('reset', '_reset/_store of the hardware backends')])
prop('C24', 'Remote clients restore signal handling, stop polling and keep credentials quiet',
     'While waiting for results a client polls a bounded number of times and reports a timeout as an error, an interrupt by the user leads to '
     'an error naming the job, and the previous interrupt handler is reinstated on every way out. Credentials are printed only when verbose '
     'output was requested.',
     ['fault_sequences', 'crash_points'], 'all ways to leave the waiting loop, all verbosity settings', 'Tests mock a few server answers.',
     ['projectq/backends'], [('polling loops', '*_client.py:get_result'), ('authentication output', '*_client.py:send')])
prop('C25', 'Compiler setups filter gates behind a replacer',
     'Every shipped compiler setup replaces unsupported gates before filtering on the supported gate set, so that only gates of the '
     'declared set reach the backend; gates introduced behind a mapper are replaced and filtered again. The predicates of the '
     'restricted setup accept exactly the gates the user declared.',
     ['configurations', 'inputs'], 'all setups and their options', 'Tests run a few circuits through each setup.',
     ['projectq/setups'], [('engine lists', 'projectq/setups/*.py:get_engine_list'), ('gate filters', 'projectq/setups/_utils.py, restrictedgateset.py, trapped_ion_decomposer.py')])
prop('C26', 'Operator arithmetic is exact and leaves its operands alone',
     'Products of Pauli operators follow the Pauli algebra including the phase, and sums, differences, scalar products and quotients act '
     'on every term. Binary operators return a new operator and never modify an operand; only the in-place forms modify their left operand.',
     ['inputs'], 'all operators and all scalars', 'Tests multiply selected operators.',
     ['projectq/ops/_qubit_operator.py'], [('Pauli product table and operator methods', 'projectq/ops/_qubit_operator.py')])
prop('C27', 'Compiler, engine, gate and command objects share no mutable state',
     'Using one object of the library never changes the behaviour of another independent one: no method modifies a module-level, '
     'class-level or default-argument object, apart from counters that only hand out fresh numbers and registries with one entry per engine. '
     'Derived commands, gates and operators share no mutable container with their source.',
     ['histories'], 'all public operations, any number of independent objects in one process', 'Tests use one compiler at a time.',
     ['projectq'], [('state kept per instance', 'all classes')])
prop('C28', 'Resource counts include every command exactly once',
     'The resource counter counts each received non-flush command exactly once under its gate class and under its gate (with its number of '
     'controls), and tracks the number of live qubits so that the maximum width is the largest number of simultaneously allocated qubits.',
     ['histories'], 'all command sequences', 'Tests count one short circuit.', ['projectq/backends/_resource.py'],
     [('counting', 'projectq/backends/_resource.py:ResourceCounter')])
prop('C29', 'Native simulator: pending gates are applied before state is read or changed',
     'Every entry point of the compiled simulator that reads or modifies amplitudes, or changes the set of qubits in a way pending gates '
     'depend on, first applies all gates queued for fusion, in the order they were given. Both simulator implementations reject the same '
     'invalid requests (unknown or repeatedly named qubits, states and bit strings of the wrong length, outcomes of probability zero, '
     'deallocation of qubits in superposition), leaving the state as it was.',
     ['histories'], 'all call sequences on the simulator interface', 'Tests exercise some interleavings of gates and queries.',
     ['projectq/backends/_sim/_cppkernels/simulator.hpp', 'projectq/backends/_sim/_cppsim.cpp', 'projectq/backends/_sim/_pysim.py'],
     [('run() before access', 'projectq/backends/_sim/_cppkernels/simulator.hpp:Simulator'), ('python twin', 'projectq/backends/_sim/_pysim.py:Simulator')])
prop('C30', 'Controlled and tensor gates distribute to exactly the given qubits',
     'Applying an n-controlled gate applies the inner gate once under exactly the first n given qubits and rejects registers that do not split '
     'there; applying a tensor gate applies the inner gate exactly once to each qubit of the register; their inverses use the inverse of the inner gate.',
     ['inputs'], 'all gates, control counts and register shapes', 'Tests use few shapes.', ['projectq/ops/_metagates.py'],
     [('operator |', 'projectq/ops/_metagates.py:ControlledGate, Tensor')])
prop('C31', 'The main engine wires all engines in order and cleans up at the end',
     'The compiler built from a list of engines forwards to exactly these engines in the given order ending in the backend, each knowing the '
     'compiler; malformed lists are rejected. Flushing sends one flush through the whole pipeline, and shutting down deallocates all live '
     'qubits before flushing.',
     ['configurations', 'histories'], 'all engine lists and all moments of shutdown', 'Tests build a few compilers.',
     ['projectq/cengines/_main.py', 'projectq/cengines/_basics.py'], [('construction, flush and shutdown', 'projectq/cengines/_main.py:MainEngine')])
prop('C32', 'Non-consuming engines delegate the question of support to the next engine',
     'Asking an engine that only observes or transforms commands whether a command is supported gives the answer of the engines behind it; '
     'as the last engine, observing backends accept everything while other engines raise the documented error. Support for command tags is '
     'answered by the first engine on the way that knows the tag.',
     ['configurations'], 'all engines in all pipeline positions, all commands', 'Tests check few positions.',
     ['projectq/cengines', 'projectq/backends'], [('is_available / is_meta_tag_supported', 'projectq/cengines/_basics.py:BasicEngine and overrides')])
# ---------------------------------------------------------------- not applicable
prop('C40', 'Simulated amplitudes, probabilities and expectation values are numerically right',
     'For every circuit the simulators produce the state vector, probabilities and expectation values of the circuit up to rounding.',
     ['programs', 'inputs'], 'all circuits', 'Tests compare a few circuits.', ['projectq/backends/_sim'], [('simulation kernels', 'projectq/backends/_sim')])
prop('C41', 'Arithmetic gates compute the documented function, decomposed or emulated',
     'Within the documented domain, the decomposition of every arithmetic gate of projectq.libs.math (constant, modular and quantum adders, subtraction, '
     'comparison, multiplication, division, and their inverses) maps every combination of register values to the documented result, returns its ancilla '
     'qubits to zero, introduces no phases, and acts only where its control qubits are one. The math function used for emulation gives the same results.',
     ['inputs'], 'all register values and constants, with any number of control qubits', 'Tests use few sizes and few basis states, and no superpositions.',
     ['projectq/libs/math'], [('arithmetic circuits', 'projectq/libs/math/_constantmath.py, _quantummath.py, _default_rules.py, _gates.py')])
prop('C42', 'Routing always succeeds when the circuit fits the device',
     'Mapping terminates with a valid placement whenever enough locations are available.', ['inputs', 'programs'], 'all circuits',
     'Tests route few circuits.', ['projectq/cengines/_linearmapper.py', 'projectq/cengines/_twodmapper.py'], [('search for placements', 'return_new_mapping')])
prop('C43', 'Measurement outcomes follow the distribution of the state',
     'Sampled outcomes are distributed according to the squared amplitudes.', ['inputs'], 'all states', 'Statistical.', ['projectq/backends'],
     [('sampling', 'measure_qubits')])
prop('C44', 'Parametrised synthesis implements the requested operation exactly',
     'The decompositions of uniformly controlled rotations, time evolution under commuting Pauli terms, Pauli strings, state preparation, arbitrary '
     'one-qubit matrices, entangling, the Fourier transform, phase estimation and amplitude amplification implement the documented unitary including its '
     'phase, for every parameter and under any number of control qubits.', ['inputs'], 'all parameters and register sizes, with any number of control qubits',
     'Tests use few parameters, few input states and rarely extra control qubits.',
     ['projectq/setups/decompositions'], [('synthesis rules', 'arb1qubit2rzandry.py, carb1qubit2cnotrzandry.py, stateprep2cnot.py, uniformlycontrolledr2cnot.py, time_evolution.py, qubitop2onequbit.py, qft2crandhadamard.py, phaseestimation.py, amplitudeamplification.py')])
prop('C45', 'The multi-threaded simulator kernels are race free and deterministic',
     'Simulation results do not depend on the number of threads.', ['schedules'], 'all thread schedules', 'Tests run single threaded.',
     ['projectq/backends/_sim/_cppkernels'], [('OpenMP loops', 'projectq/backends/_sim/_cppkernels')])
prop('C46', 'Every setup compiles programs to equivalent circuits',
     'For every shipped compiler setup and its options, what reaches the backend is, as linear operation, the program that was sent: up to a global phase '
     'and the reported placement of the logical qubits, with every borrowed qubit returned in state zero, whatever combination of rules, optimisation, '
     'routing and later replacement it went through.', ['programs', 'configurations'], 'all programs, all setups and their options',
     'Tests send a few fixed circuits through a few setups and mostly look at gate counts.',
     ['projectq/setups', 'projectq/cengines'], [('engine lists', 'projectq/setups/*.py:get_engine_list'), ('choice of rules', 'AutoReplacer._process_command')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
