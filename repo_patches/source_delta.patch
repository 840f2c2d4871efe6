From 2f4cc2d5fccd90cb10bae107e3875ade3fb5fe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 01/51] fix: keep the control state paired with its control
 qubit in Command

Command.__init__ sorts the control qubits by ID but left control_state in the
order given by the caller.
---
 projectq/ops/_command.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projectq/ops/_command.py b/projectq/ops/_command.py
index 481efcc..94f40d2 100755
--- a/projectq/ops/_command.py
+++ b/projectq/ops/_command.py
@@ -113,9 +113,13 @@ class Command:  # pylint: disable=too-many-instance-attributes
         self.gate = gate
         self.tags = list(tags)
         self.qubits = qubits  # property
+        controls = list(controls)
         self.control_qubits = controls  # property
         self.engine = engine  # property
         self.control_state = control_state  # property
+        # NB: control_qubits are ordered by their ID, so their states need to follow the same order
+        order = sorted(range(len(controls)), key=lambda idx: controls[idx].id)
+        self.control_state = ''.join(self.control_state[idx] for idx in order)
 
     @property
     def qubits(self):
-- 
2.43.0


From d812a6a083bcf65ff8f7cc48a12b0d0cc69b8372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 02/51] fix: do not lose the control state when a Command is
 copied, inverted, merged or compared

Command.__deepcopy__, get_inverse and get_merged built the new Command without
its control_state, turning negative controls into positive ones, and __eq__ and
get_merged ignored it. The negative control decomposition relied on deepcopy
dropping the state: it assigned cmd.ctrl_state instead of cmd.control_state.
---
 projectq/ops/_command.py                       | 11 ++++++++++-
 projectq/setups/decompositions/controlstate.py |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/projectq/ops/_command.py b/projectq/ops/_command.py
index 94f40d2..2c7d545 100755
--- a/projectq/ops/_command.py
+++ b/projectq/ops/_command.py
@@ -139,6 +139,7 @@ class Command:  # pylint: disable=too-many-instance-attributes
             self.qubits,
             list(self.control_qubits),
             deepcopy(self.tags),
+            self.control_state,
         )
 
     def get_inverse(self):
@@ -156,6 +157,7 @@ class Command:  # pylint: disable=too-many-instance-attributes
             self.qubits,
             list(self.control_qubits),
             deepcopy(self.tags),
+            self.control_state,
         )
 
     def is_identity(self):
@@ -177,13 +179,19 @@ class Command:  # pylint: disable=too-many-instance-attributes
         Raises:
             NotMergeable: if the gates don't supply a get_merged()-function or can't be merged for other reasons.
         """
-        if self.tags == other.tags and self.all_qubits == other.all_qubits and self.engine == other.engine:
+        if (
+            self.tags == other.tags
+            and self.all_qubits == other.all_qubits
+            and self.control_state == other.control_state
+            and self.engine == other.engine
+        ):
             return Command(
                 self.engine,
                 self.gate.get_merged(other.gate),
                 self.qubits,
                 self.control_qubits,
                 deepcopy(self.tags),
+                self.control_state,
             )
         raise projectq.ops.NotMergeable("Commands not mergeable.")
 
@@ -337,6 +345,7 @@ class Command:  # pylint: disable=too-many-instance-attributes
             and self.tags == other.tags
             and self.engine == other.engine
             and self.all_qubits == other.all_qubits
+            and self.control_state == other.control_state
         ):
             return True
         return False
diff --git a/projectq/setups/decompositions/controlstate.py b/projectq/setups/decompositions/controlstate.py
index b8d180e..d9c8686 100755
--- a/projectq/setups/decompositions/controlstate.py
+++ b/projectq/setups/decompositions/controlstate.py
@@ -33,7 +33,7 @@ def _decompose_controlstate(cmd):
                 X | ctrl
 
     # Resend the command with the `control_state` cleared
-    cmd.ctrl_state = '1' * len(cmd.control_state)
+    cmd.control_state = '1' * len(cmd.control_state)
     orig_engine = cmd.engine
     cmd.engine.receive([deepcopy(cmd)])  # NB: deepcopy required here to workaround infinite recursion detection
     Uncompute(orig_engine)
-- 
2.43.0


From 692ad984b22ce7a6a40313d71e7ad7d9733f1a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 03/51] fix: remove an identity gate from the pipeline of every
 qubit it acts on

LocalOptimizer only updated the pipeline of the last qubit of a multi-qubit
identity gate, leaving the gate in the others.
---
 projectq/cengines/_optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/cengines/_optimize.py b/projectq/cengines/_optimize.py
index 1cce731..2f84b2d 100755
--- a/projectq/cengines/_optimize.py
+++ b/projectq/cengines/_optimize.py
@@ -138,7 +138,7 @@ class LocalOptimizer(BasicEngine):
                     new_list = (
                         self._l[qubit_id][0 : gid[j]] + self._l[qubit_id][gid[j] + 1 :]  # noqa: E203  # noqa: E203
                     )
-                self._l[qubitids[j]] = new_list  # pylint: disable=undefined-loop-variable
+                    self._l[qubit_id] = new_list
                 i = 0
                 limit -= 1
                 continue
-- 
2.43.0


From a0d49891c315a3b48775ce5f23cd3bd531fdfbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 04/51] fix: do not modify the registered decomposition rules
 in AutoReplacer

Looking for inverse rules extended the list of the rule set in place, so that it
grew with every command.
---
 projectq/cengines/_replacer/_replacer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/cengines/_replacer/_replacer.py b/projectq/cengines/_replacer/_replacer.py
index 69cedf7..a71526d 100755
--- a/projectq/cengines/_replacer/_replacer.py
+++ b/projectq/cengines/_replacer/_replacer.py
@@ -162,7 +162,7 @@ class AutoReplacer(BasicEngine):
                     if level < len(gate_mro):
                         class_name = gate_mro[level].__name__
                         try:
-                            potential_decomps = rules[class_name]
+                            potential_decomps = list(rules[class_name])
                         except KeyError:
                             pass
                         # throw out the ones which don't recognize the command
-- 
2.43.0


From 10700e576cb8c637b5e6b795f096b032abfd812a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 05/51] fix: honour the control qubits when decomposing QAA

---
 .../decompositions/amplitudeamplification.py  | 31 ++++++++++---------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/projectq/setups/decompositions/amplitudeamplification.py b/projectq/setups/decompositions/amplitudeamplification.py
index 5a85283..9a5f2d8 100644
--- a/projectq/setups/decompositions/amplitudeamplification.py
+++ b/projectq/setups/decompositions/amplitudeamplification.py
@@ -88,22 +88,23 @@ def _decompose_QAA(cmd):  # pylint: disable=invalid-name
     oracle = cmd.gate.oracle
     alg = cmd.gate.algorithm
 
-    # Apply the oracle to invert the amplitude of the good states, S_Chi
-    oracle(eng, system_qubits, qaa_ancilla)
-
-    # Apply the inversion of the Algorithm,
-    # the inversion of the amplitude of |0> and the Algorithm
-
-    with Compute(eng):
-        with Dagger(eng):
+    with Control(eng, cmd.control_qubits):
+        # Apply the oracle to invert the amplitude of the good states, S_Chi
+        oracle(eng, system_qubits, qaa_ancilla)
+
+        # Apply the inversion of the Algorithm,
+        # the inversion of the amplitude of |0> and the Algorithm
+
+        with Compute(eng):
+            with Dagger(eng):
+                alg(eng, system_qubits)
+            All(X) | system_qubits
+        with Control(eng, system_qubits[0:-1]):
+            Z | system_qubits[-1]
+        with CustomUncompute(eng):
+            All(X) | system_qubits
             alg(eng, system_qubits)
-        All(X) | system_qubits
-    with Control(eng, system_qubits[0:-1]):
-        Z | system_qubits[-1]
-    with CustomUncompute(eng):
-        All(X) | system_qubits
-        alg(eng, system_qubits)
-    Ph(math.pi) | system_qubits[0]
+        Ph(math.pi) | system_qubits[0]
 
 
 #: Decomposition rules
-- 
2.43.0


From b4df12ba05e911c6a759896e8ea208345f51aa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 06/51] fix: honour the control qubits when decomposing QPE

---
 .../setups/decompositions/phaseestimation.py  | 41 ++++++++++---------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/projectq/setups/decompositions/phaseestimation.py b/projectq/setups/decompositions/phaseestimation.py
index 0913064..5f7da7f 100644
--- a/projectq/setups/decompositions/phaseestimation.py
+++ b/projectq/setups/decompositions/phaseestimation.py
@@ -98,27 +98,28 @@ def _decompose_QPE(cmd):  # pylint: disable=invalid-name
     qpe_ancillas = cmd.qubits[0]
     system_qubits = cmd.qubits[1]
 
-    # Hadamard on the ancillas
-    Tensor(H) | qpe_ancillas
-
-    # The Unitary Operator
-    unitary = cmd.gate.unitary
-
-    # Control U on the system_qubits
-    if callable(unitary):
-        # If U is a function
-        for i, ancilla in enumerate(qpe_ancillas):
-            with Control(eng, ancilla):
-                unitary(system_qubits, time=2**i)
-    else:
-        for i, ancilla in enumerate(qpe_ancillas):
-            ipower = int(2**i)
-            with Loop(eng, ipower):
-                with Control(eng, ancilla):
-                    unitary | system_qubits
+    with Control(eng, cmd.control_qubits):
+        # Hadamard on the ancillas
+        Tensor(H) | qpe_ancillas
+
+        # The Unitary Operator
+        unitary = cmd.gate.unitary
 
-    # Inverse QFT on the ancillas
-    get_inverse(QFT) | qpe_ancillas
+        # Control U on the system_qubits
+        if callable(unitary):
+            # If U is a function
+            for i, ancilla in enumerate(qpe_ancillas):
+                with Control(eng, ancilla):
+                    unitary(system_qubits, time=2**i)
+        else:
+            for i, ancilla in enumerate(qpe_ancillas):
+                ipower = int(2**i)
+                with Loop(eng, ipower):
+                    with Control(eng, ancilla):
+                        unitary | system_qubits
+
+        # Inverse QFT on the ancillas
+        get_inverse(QFT) | qpe_ancillas
 
 
 #: Decomposition rules
-- 
2.43.0


From 20219c2b642cdf4e37b7da60986cf2d270e396fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 07/51] fix: compare the parameters of QAA, QPE and
 QubitOperator gates in ==

---
 projectq/ops/_qaagate.py        | 10 ++++++++++
 projectq/ops/_qpegate.py        | 10 ++++++++++
 projectq/ops/_qubit_operator.py | 12 +++++++++++-
 3 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/projectq/ops/_qaagate.py b/projectq/ops/_qaagate.py
index c5561ea..53f29cb 100755
--- a/projectq/ops/_qaagate.py
+++ b/projectq/ops/_qaagate.py
@@ -80,3 +80,13 @@ class QAA(BasicGate):
     def __str__(self):
         """Return a string representation of the object."""
         return f'QAA(Algorithm = {str(self.algorithm.__name__)}, Oracle = {str(self.oracle.__name__)})'
+
+    def __eq__(self, other):
+        """Return True if same class, same algorithm and same oracle."""
+        if isinstance(other, self.__class__):
+            return self.algorithm == other.algorithm and self.oracle == other.oracle
+        return False
+
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash((self.algorithm, self.oracle))
diff --git a/projectq/ops/_qpegate.py b/projectq/ops/_qpegate.py
index 3eab6e8..4ce519c 100755
--- a/projectq/ops/_qpegate.py
+++ b/projectq/ops/_qpegate.py
@@ -32,3 +32,13 @@ class QPE(BasicGate):
     def __str__(self):
         """Return a string representation of the object."""
         return f'QPE({str(self.unitary)})'
+
+    def __eq__(self, other):
+        """Return True if same class and same unitary."""
+        if isinstance(other, self.__class__):
+            return self.unitary == other.unitary
+        return False
+
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash(str(self))
diff --git a/projectq/ops/_qubit_operator.py b/projectq/ops/_qubit_operator.py
index 80c901d..91524b1 100644
--- a/projectq/ops/_qubit_operator.py
+++ b/projectq/ops/_qubit_operator.py
@@ -581,6 +581,16 @@ class QubitOperator(BasicGate):
         """Repr method."""
         return str(self)
 
+    def __eq__(self, other):
+        """Return True if other is a QubitOperator with the same terms and the same coefficients."""
+        if isinstance(other, self.__class__):
+            return self.terms == other.terms
+        return super().__eq__(other)
+
     def __hash__(self):
         """Compute the hash of the object."""
-        return hash(str(self))
+        canonical = QubitOperator()
+        for term, coeff in sorted(self.terms.items()):
+            coeff = complex(coeff)
+            canonical.terms[term] = coeff if coeff.imag else coeff.real
+        return hash(str(canonical))
-- 
2.43.0


From edd27fbd6e89ed04e9a10b8660c8397b471acaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 08/51] fix: respect the order of the target qubits in
 UnitarySimulator

---
 projectq/backends/_unitary.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_unitary.py b/projectq/backends/_unitary.py
index a8941b1..b7a443b 100644
--- a/projectq/backends/_unitary.py
+++ b/projectq/backends/_unitary.py
@@ -54,13 +54,24 @@ def _qidmask(target_ids, control_ids, n_qubits):
             irel_mask = np.where(np.all(perms[:, irel_ids] == irel_perms[i], axis=1))
             common = np.intersect1d(irel_mask, cmask)
             if len(common) > 0:
-                mask_list.append(common)
+                mask_list.append(_sort_mask(common, target_ids))
     else:
         irel_mask = np.array(range(perms.shape[0]))
-        mask_list.append(np.intersect1d(irel_mask, cmask))
+        mask_list.append(_sort_mask(np.intersect1d(irel_mask, cmask), target_ids))
     return mask_list
 
 
+def _sort_mask(mask, target_ids):
+    """
+    Sort the indices of a mask according to the value of the target qubits, the first target being the lowest bit.
+
+    Args:
+        mask (np.ndarray): indices to sort
+        target_ids (list): list of target qubit indices
+    """
+    return mask[np.argsort([sum(((idx >> pos) & 1) << i for i, pos in enumerate(target_ids)) for idx in mask])]
+
+
 class UnitarySimulator(BasicEngine):
     """
     Simulator engine aimed at calculating the unitary transformation that represents the current quantum circuit.
-- 
2.43.0


From 6ef3c69e3f7e2737bd706fee59f6666ca5371a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 09/51] fix: do not apply gates again at every flush in
 UnitarySimulator

---
 projectq/backends/_unitary.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_unitary.py b/projectq/backends/_unitary.py
index b7a443b..a6a264d 100644
--- a/projectq/backends/_unitary.py
+++ b/projectq/backends/_unitary.py
@@ -184,7 +184,10 @@ class UnitarySimulator(BasicEngine):
         """Flush the simulator state."""
         if not self._is_flushed:
             self._is_flushed = True
-            self._state = self._unitary @ self._state
+            # The unitary contains all gates since the last reset, i.e., it has to be applied to |0...0>
+            initial_state = np.zeros(len(self._unitary), dtype=complex)
+            initial_state[0] = 1.0
+            self._state = self._unitary @ initial_state
 
     def _handle(self, cmd):
         """
-- 
2.43.0


From 921536f35555d83e6ce2ffe174fc6ba571043184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 10/51] fix: allow to allocate qubits after a flush in
 UnitarySimulator

---
 projectq/backends/_unitary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_unitary.py b/projectq/backends/_unitary.py
index a6a264d..686ea86 100644
--- a/projectq/backends/_unitary.py
+++ b/projectq/backends/_unitary.py
@@ -103,7 +103,7 @@ class UnitarySimulator(BasicEngine):
         """Initialize a UnitarySimulator object."""
         super().__init__()
         self._qubit_map = {}
-        self._unitary = [1]
+        self._unitary = np.identity(1)
         self._num_qubits = 0
         self._is_valid = True
         self._is_flushed = False
@@ -203,7 +203,7 @@ class UnitarySimulator(BasicEngine):
             self._qubit_map[cmd.qubits[0][0].id] = self._num_qubits
             self._num_qubits += 1
             self._unitary = np.kron(np.identity(2), self._unitary)
-            self._state.extend([0] * len(self._state))
+            self._state = np.append(self._state, [0] * len(self._state))
 
         elif isinstance(cmd.gate, DeallocateQubitGate):
             pos = self._qubit_map[cmd.qubits[0][0].id]
-- 
2.43.0


From e27821fc4f2a3e43b7352f04f0c4285984a75316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 11/51] fix: do not accept negatively controlled commands in
 ClassicalSimulator

---
 projectq/backends/_sim/_classical_simulator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_sim/_classical_simulator.py b/projectq/backends/_sim/_classical_simulator.py
index f873d10..4b57e85 100755
--- a/projectq/backends/_sim/_classical_simulator.py
+++ b/projectq/backends/_sim/_classical_simulator.py
@@ -15,7 +15,7 @@
 """A simulator that only permits classical operations, for faster/easier testing."""
 
 from projectq.cengines import BasicEngine
-from projectq.meta import LogicalQubitIDTag
+from projectq.meta import LogicalQubitIDTag, has_negative_control
 from projectq.ops import Allocate, BasicMathGate, Deallocate, FlushGate, Measure, XGate
 from projectq.types import WeakQubitRef
 
@@ -176,6 +176,8 @@ class ClassicalSimulator(BasicEngine):
 
     def is_available(self, cmd):
         """Test whether a Command is supported by a compiler engine."""
+        if has_negative_control(cmd):
+            return False
         return (
             cmd.gate == Measure
             or cmd.gate == Allocate
-- 
2.43.0


From a506ac87706cd1962dd4a74dded67a2c6d355b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 12/51] fix: do not treat negatively controlled gates as CNOTs
 in SwapAndCNOTFlipper

---
 projectq/cengines/_swapandcnotflipper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/cengines/_swapandcnotflipper.py b/projectq/cengines/_swapandcnotflipper.py
index 997274a..b97847a 100755
--- a/projectq/cengines/_swapandcnotflipper.py
+++ b/projectq/cengines/_swapandcnotflipper.py
@@ -18,7 +18,7 @@ It also translates Swap gates to CNOTs if necessary.
 """
 from copy import deepcopy
 
-from projectq.meta import get_control_count
+from projectq.meta import get_control_count, has_negative_control
 from projectq.ops import CNOT, NOT, All, H, Swap
 
 from ._basics import BasicEngine, ForwarderEngine
@@ -63,7 +63,7 @@ class SwapAndCNOTFlipper(BasicEngine):
         Args:
             cmd (Command): Command to check
         """
-        return isinstance(cmd.gate, NOT.__class__) and get_control_count(cmd) == 1
+        return isinstance(cmd.gate, NOT.__class__) and get_control_count(cmd) == 1 and not has_negative_control(cmd)
 
     def _is_swap(self, cmd):
         """
-- 
2.43.0


From d4941e0e8bc0a1c550a96f00ff235c303c9c7e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 13/51] fix: do not always return the last outcome in
 IonQBackend

---
 projectq/backends/_ionq/_ionq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_ionq/_ionq.py b/projectq/backends/_ionq/_ionq.py
index 4c59369..2e3c3e2 100644
--- a/projectq/backends/_ionq/_ionq.py
+++ b/projectq/backends/_ionq/_ionq.py
@@ -323,7 +323,6 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         random_outcome = random.random()
         p_sum = 0.0
         measured = ""
-        star = ""
         num_measured = len(measured_ids)
         probable_outcomes = res['output_probs']
         states = probable_outcomes.keys()
@@ -332,7 +331,8 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             state = _rearrange_result(int(state_int), num_measured)
             probability = probable_outcomes[state_int]
             p_sum += probability
-            if p_sum >= random_outcome and measured == "" or (idx == len(states) - 1):
+            star = ""
+            if measured == "" and (p_sum >= random_outcome or idx == len(states) - 1):
                 measured = state
                 star = "*"
             self._probabilities[state] = probability
-- 
2.43.0


From 797e346d9fc3809b8051fa07929f6eb547ed2c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 14/51] fix: compare physical ids in the mid-circuit
 measurement check of IonQBackend

---
 projectq/backends/_ionq/_ionq.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_ionq/_ionq.py b/projectq/backends/_ionq/_ionq.py
index 2e3c3e2..ea2b0c8 100644
--- a/projectq/backends/_ionq/_ionq.py
+++ b/projectq/backends/_ionq/_ionq.py
@@ -109,6 +109,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         self._interval = interval
         self._circuit = []
         self._measured_ids = []
+        self._measured_physical_ids = []
         self._probabilities = {}
         self._retrieve_execution = retrieve_execution
         self._clear = True
@@ -169,6 +170,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         """
         if self._clear:
             self._measured_ids = []
+            self._measured_physical_ids = []
             self._probabilities = {}
             self._clear = False
 
@@ -187,6 +189,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
                     break
             # Add the qubit id
             self._measured_ids.append(logical_id)
+            self._measured_physical_ids.append(cmd.qubits[0][0].id)
             return
 
         # Process the Command's gate type:
@@ -204,12 +207,12 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         #   in this operation.
         targets = [qb.id for qureg in cmd.qubits for qb in qureg]
         controls = [qb.id for qb in cmd.control_qubits]
-        if len(self._measured_ids) > 0:
+        if len(self._measured_physical_ids) > 0:
             # Check any qubits we are trying to operate on.
             gate_qubits = set(targets) | set(controls)
 
             # If any of them have already been measured...
-            already_measured = gate_qubits & set(self._measured_ids)
+            already_measured = gate_qubits & set(self._measured_physical_ids)
 
             # Boom!
             if len(already_measured) > 0:
-- 
2.43.0


From 42cb2b4333f0113d82879bf0c5fbc5ba6fe3f7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 15/51] fix: do not map two live qubits to the same location in
 BoundedQubitMapper

---
 projectq/backends/_ionq/_ionq_mapper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projectq/backends/_ionq/_ionq_mapper.py b/projectq/backends/_ionq/_ionq_mapper.py
index e77b92c..635961f 100644
--- a/projectq/backends/_ionq/_ionq_mapper.py
+++ b/projectq/backends/_ionq/_ionq_mapper.py
@@ -43,6 +43,10 @@ class BoundedQubitMapper(BasicMapperEngine):
             if qubit_id in current_mapping:
                 raise RuntimeError(f"Qubit with id {qubit_id} has already been allocated!")
 
+            # Qubits which are still alive after a flush keep their location
+            while self._qubit_idx in current_mapping.values():
+                self._qubit_idx += 1
+
             if self._qubit_idx >= self.max_qubits:
                 raise RuntimeError(f"Cannot allocate more than {self.max_qubits} qubits!")
 
-- 
2.43.0


From ef80a6d9413158400dda15231fde3d84a732d16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 16/51] fix: forget the measured qubits of the previous run in
 AzureQuantumBackend

---
 projectq/backends/_azure/_azure_quantum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projectq/backends/_azure/_azure_quantum.py b/projectq/backends/_azure/_azure_quantum.py
index 682caa6..d493618 100644
--- a/projectq/backends/_azure/_azure_quantum.py
+++ b/projectq/backends/_azure/_azure_quantum.py
@@ -140,6 +140,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
             cmd (Command): Command to store
         """
         if self._clear:
+            self._measured_ids = []
             self._probabilities = {}
             self._clear = False
             self._circuit = None
-- 
2.43.0


From d03cf609bbc632c25824f08f55b907819e4ec37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 17/51] fix: register the measured bit of each qubit in
 AzureQuantumBackend

---
 projectq/backends/_azure/_azure_quantum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_azure/_azure_quantum.py b/projectq/backends/_azure/_azure_quantum.py
index d493618..a4f5ec2 100644
--- a/projectq/backends/_azure/_azure_quantum.py
+++ b/projectq/backends/_azure/_azure_quantum.py
@@ -359,9 +359,9 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
 
         # Set a single measurement result
         bitstring = np.random.choice(list(self._probabilities.keys()), p=list(self._probabilities.values()))
-        for qid in self._measured_ids:
+        for idx, qid in enumerate(self._measured_ids):
             qubit_ref = WeakQubitRef(self.main_engine, qid)
-            self.main_engine.set_measurement_result(qubit_ref, bitstring[qid])
+            self.main_engine.set_measurement_result(qubit_ref, int(bitstring[idx]))
 
     def receive(self, command_list):
         """Receive a command list from the ProjectQ engine pipeline.
-- 
2.43.0


From 6e5298242685f01ff970b0092447c1c337f34077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 18/51] fix: register measurement results on the logical qubit
 in the circuit drawers

---
 projectq/backends/_circuits/_drawer.py            | 10 ++++++++--
 projectq/backends/_circuits/_drawer_matplotlib.py | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/projectq/backends/_circuits/_drawer.py b/projectq/backends/_circuits/_drawer.py
index 071ad2c..5e17033 100755
--- a/projectq/backends/_circuits/_drawer.py
+++ b/projectq/backends/_circuits/_drawer.py
@@ -16,8 +16,9 @@
 
 
 from projectq.cengines import BasicEngine, LastEngineException
-from projectq.meta import get_control_count
+from projectq.meta import LogicalQubitIDTag, get_control_count
 from projectq.ops import Allocate, Deallocate, FlushGate, Measure
+from projectq.types import WeakQubitRef
 
 from ._to_latex import to_latex
 
@@ -232,7 +233,12 @@ class CircuitDrawer(BasicEngine):
                     else:
                         meas = self._default_measure
                     meas = int(meas)
-                    self.main_engine.set_measurement_result(qubit, meas)
+                    # Check there was a mapper and redirect result
+                    logical_qubit = qubit
+                    for tag in cmd.tags:
+                        if isinstance(tag, LogicalQubitIDTag):
+                            logical_qubit = WeakQubitRef(qubit.engine, tag.logical_qubit_id)
+                    self.main_engine.set_measurement_result(logical_qubit, meas)
 
         all_lines = [qb.id for qr in cmd.all_qubits for qb in qr]
 
diff --git a/projectq/backends/_circuits/_drawer_matplotlib.py b/projectq/backends/_circuits/_drawer_matplotlib.py
index 7c6b585..5f28249 100644
--- a/projectq/backends/_circuits/_drawer_matplotlib.py
+++ b/projectq/backends/_circuits/_drawer_matplotlib.py
@@ -18,8 +18,9 @@ import itertools
 import re
 
 from projectq.cengines import BasicEngine, LastEngineException
-from projectq.meta import get_control_count
+from projectq.meta import LogicalQubitIDTag, get_control_count
 from projectq.ops import Allocate, Deallocate, FlushGate, Measure
+from projectq.types import WeakQubitRef
 
 from ._plot import to_draw
 
@@ -122,7 +123,12 @@ class CircuitDrawerMatplotlib(BasicEngine):
                             measurement = input(prompt)
                     else:
                         measurement = self._default_measure
-                    self.main_engine.set_measurement_result(qubit, int(measurement))
+                    # Check there was a mapper and redirect result
+                    logical_qubit = qubit
+                    for tag in cmd.tags:
+                        if isinstance(tag, LogicalQubitIDTag):
+                            logical_qubit = WeakQubitRef(qubit.engine, tag.logical_qubit_id)
+                    self.main_engine.set_measurement_result(logical_qubit, int(measurement))
 
         targets = [qubit.id for qureg in cmd.qubits for qubit in qureg]
         controls = [qubit.id for qubit in cmd.control_qubits]
-- 
2.43.0


From 522ab51749b17af7c5bf103a75419909bbd9e0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 19/51] fix: flip the carry only on overflow when emulating the
 inverse of AddQuantum

---
 projectq/libs/math/_gates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/libs/math/_gates.py b/projectq/libs/math/_gates.py
index ad466d2..9817ec5 100755
--- a/projectq/libs/math/_gates.py
+++ b/projectq/libs/math/_gates.py
@@ -285,8 +285,8 @@ class _InverseAddQuantumGate(BasicMathGate):
 
     def get_math_function(self, qubits):
         def math_fun(a):  # pylint: disable=invalid-name
-            if len(a) == 3:
-                # Flip the last bit of the carry register
+            if len(a) == 3 and a[1] < a[0]:
+                # The addition has overflowed: flip the last bit of the carry register
                 a[2] ^= 1
 
             a[1] -= a[0]
-- 
2.43.0


From c2aca4e72a5130b914e8bd7e7545b8db496beac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 20/51] fix: the inverse of the quantum comparator is the
 quantum comparator

---
 projectq/libs/math/_gates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/libs/math/_gates.py b/projectq/libs/math/_gates.py
index 9817ec5..0ae294c 100755
--- a/projectq/libs/math/_gates.py
+++ b/projectq/libs/math/_gates.py
@@ -393,8 +393,8 @@ class ComparatorQuantumGate(BasicMathGate):
         return hash(str(self))
 
     def get_inverse(self):
-        """Return the inverse of this gate."""
-        return AddQuantum
+        """Return the inverse of this gate (the comparator is self-inverse)."""
+        return ComparatorQuantum
 
 
 ComparatorQuantum = ComparatorQuantumGate()
-- 
2.43.0


From 6afc21c96e11c24a68649d1c4e8fc47bade42e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 21/51] fix: do not print the AQT token unless verbose

---
 projectq/backends/_aqt/_aqt_http_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_aqt/_aqt_http_client.py b/projectq/backends/_aqt/_aqt_http_client.py
index b2c8d90..4f3159a 100644
--- a/projectq/backends/_aqt/_aqt_http_client.py
+++ b/projectq/backends/_aqt/_aqt_http_client.py
@@ -223,7 +223,7 @@ def send(
 
         if verbose:
             print("- Authenticating...")
-        if token is not None:
+        if verbose and token is not None:
             print(f"user API token: {token}")
         aqt_session.authenticate(token)
 
-- 
2.43.0


From 7c227f8c9f301a2714c7025552db224a5e898b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 22/51] fix: remove a stray print from the time evolution
 decomposition

---
 projectq/setups/decompositions/time_evolution.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/projectq/setups/decompositions/time_evolution.py b/projectq/setups/decompositions/time_evolution.py
index 9e02939..2b78e92 100644
--- a/projectq/setups/decompositions/time_evolution.py
+++ b/projectq/setups/decompositions/time_evolution.py
@@ -111,7 +111,6 @@ def _decompose_time_evolution_individual_terms(cmd):  # pylint: disable=too-many
                         H | qureg[index]
                     elif action == 'Y':
                         Rx(math.pi / 2.0) | qureg[index]
-                print(check_indices, set(range(len(qureg))))
                 # Check that qureg had exactly as many qubits as indices:
                 if check_indices != set(range(len(qureg))):
                     raise ValueError('Indices mismatch between hamiltonian terms and qubits')
-- 
2.43.0


From d270a792d1778431cda00ebc8060d33b5bdbb9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 23/51] fix: prompt for missing AWS credentials without
 crashing

---
 projectq/backends/_awsbraket/_awsbraket_boto3_client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projectq/backends/_awsbraket/_awsbraket_boto3_client.py b/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
index 7924a40..18842e0 100755
--- a/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
+++ b/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
@@ -49,6 +49,7 @@ class AWSBraket:
             credentials (dict): mapping the AWS key credentials as the AWS_ACCESS_KEY_ID and AWS_SECRET_KEY.
         """
         if credentials is None:  # pragma: no cover
+            credentials = {}
             credentials['AWS_ACCESS_KEY_ID'] = getpass.getpass(prompt="Enter AWS_ACCESS_KEY_ID: ")
             credentials['AWS_SECRET_KEY'] = getpass.getpass(prompt="Enter AWS_SECRET_KEY: ")
 
-- 
2.43.0


From aab4202e49cb0ac05ef0ad2791515ed888fd325b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 24/51] fix: remove the engine of a meta section also when its
 body raises an exception

---
 projectq/meta/_compute.py | 35 ++++++++++++++++++-----------------
 projectq/meta/_dagger.py  | 21 +++++++++++----------
 projectq/meta/_loop.py    | 13 +++++++++----
 3 files changed, 38 insertions(+), 31 deletions(-)

diff --git a/projectq/meta/_compute.py b/projectq/meta/_compute.py
index 84cde8a..9d4e3cd 100755
--- a/projectq/meta/_compute.py
+++ b/projectq/meta/_compute.py
@@ -370,23 +370,24 @@ class CustomUncompute:
 
     def __exit__(self, exc_type, exc_value, exc_traceback):
         """Context manager exit function."""
-        # If an error happens in this context, qubits might not have been
-        # deallocated because that code section was not yet executed,
-        # so don't check and raise an additional error.
-        if exc_type is not None:
-            return
-        # Check that all qubits allocated within Compute or within
-        # CustomUncompute have been deallocated.
-        all_allocated_qubits = self._allocated_qubit_ids.union(self._uncompute_eng._allocated_qubit_ids)
-        all_deallocated_qubits = self._deallocated_qubit_ids.union(self._uncompute_eng._deallocated_qubit_ids)
-        if len(all_allocated_qubits.difference(all_deallocated_qubits)) != 0:
-            raise QubitManagementError(
-                "\nError. Not all qubits have been deallocated which have \n"
-                + "been allocated in the with Compute(eng) or with "
-                + "CustomUncompute(eng) context."
-            )
-        # remove uncompute engine
-        drop_engine_after(self.engine)
+        try:
+            # If an error happens in this context, qubits might not have been
+            # deallocated because that code section was not yet executed,
+            # so don't check and raise an additional error.
+            if exc_type is None:
+                # Check that all qubits allocated within Compute or within
+                # CustomUncompute have been deallocated.
+                all_allocated_qubits = self._allocated_qubit_ids.union(self._uncompute_eng._allocated_qubit_ids)
+                all_deallocated_qubits = self._deallocated_qubit_ids.union(self._uncompute_eng._deallocated_qubit_ids)
+                if len(all_allocated_qubits.difference(all_deallocated_qubits)) != 0:
+                    raise QubitManagementError(
+                        "\nError. Not all qubits have been deallocated which have \n"
+                        + "been allocated in the with Compute(eng) or with "
+                        + "CustomUncompute(eng) context."
+                    )
+        finally:
+            # remove uncompute engine
+            drop_engine_after(self.engine)
 
 
 def Uncompute(engine):  # pylint: disable=invalid-name
diff --git a/projectq/meta/_dagger.py b/projectq/meta/_dagger.py
index f2a7dc2..f4bd136 100755
--- a/projectq/meta/_dagger.py
+++ b/projectq/meta/_dagger.py
@@ -129,13 +129,14 @@ class Dagger:
 
     def __exit__(self, exc_type, exc_value, exc_traceback):
         """Context manager exit function."""
-        # If an error happens in this context, qubits might not have been
-        # deallocated because that code section was not yet executed,
-        # so don't check and raise an additional error.
-        if exc_type is not None:
-            return
-        # run dagger engine
-        self._dagger_eng.run()
-        self._dagger_eng = None
-        # remove dagger handler from engine list (i.e. skip it)
-        drop_engine_after(self.engine)
+        try:
+            # If an error happens in this context, qubits might not have been
+            # deallocated because that code section was not yet executed,
+            # so don't check and raise an additional error.
+            if exc_type is None:
+                # run dagger engine
+                self._dagger_eng.run()
+        finally:
+            self._dagger_eng = None
+            # remove dagger handler from engine list (i.e. skip it)
+            drop_engine_after(self.engine)
diff --git a/projectq/meta/_loop.py b/projectq/meta/_loop.py
index 5fd9415..4884be5 100755
--- a/projectq/meta/_loop.py
+++ b/projectq/meta/_loop.py
@@ -249,7 +249,12 @@ class Loop:
     def __exit__(self, exc_type, exc_value, exc_traceback):
         """Context manager exit function."""
         if self.num != 1:
-            # remove loop handler from engine list (i.e. skip it)
-            self._loop_eng.run()
-            self._loop_eng = None
-            drop_engine_after(self.engine)
+            try:
+                # If an error happens in this context, the loop body is
+                # incomplete, so don't run it.
+                if exc_type is None:
+                    self._loop_eng.run()
+            finally:
+                self._loop_eng = None
+                # remove loop handler from engine list (i.e. skip it)
+                drop_engine_after(self.engine)
-- 
2.43.0


From 4ecce3ad9efc6b29bc1c7a6713805f7172712478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 25/51] fix: do not count an engine which could not be inserted

---
 projectq/meta/_util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/projectq/meta/_util.py b/projectq/meta/_util.py
index 79f4dc4..5471b14 100755
--- a/projectq/meta/_util.py
+++ b/projectq/meta/_util.py
@@ -26,11 +26,11 @@ def insert_engine(prev_engine, engine_to_insert):
         engine_to_insert (projectq.cengines.BasicEngine): The engine to insert at the insertion point.
     """
     if prev_engine.main_engine is not None:
-        prev_engine.main_engine.n_engines += 1
-
-        if prev_engine.main_engine.n_engines > prev_engine.main_engine.n_engines_max:
+        if prev_engine.main_engine.n_engines >= prev_engine.main_engine.n_engines_max:
             raise RuntimeError('Too many compiler engines added to the MainEngine!')
 
+        prev_engine.main_engine.n_engines += 1
+
     engine_to_insert.main_engine = prev_engine.main_engine
     engine_to_insert.next_engine = prev_engine.next_engine
     prev_engine.next_engine = engine_to_insert
-- 
2.43.0


From 16d428fb5243bbd02c6a10dc5ee6d195ad5b03e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 26/51] fix: use integer division in inv_mod_N

---
 projectq/libs/math/_constantmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/libs/math/_constantmath.py b/projectq/libs/math/_constantmath.py
index 14c87e7..2f299fe 100755
--- a/projectq/libs/math/_constantmath.py
+++ b/projectq/libs/math/_constantmath.py
@@ -120,7 +120,7 @@ def inv_mod_N(a, N):  # pylint: disable=invalid-name
     r = N
     old_r = a
     while r != 0:
-        q = int(old_r / r)
+        q = old_r // r
         tmp = r
         r = old_r - q * r
         old_r = tmp
-- 
2.43.0


From 756497e1eb61c28cc11970b48349b8fbce72832d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 27/51] fix: use all qubits of the operands when decomposing
 MultiplyQuantum

---
 projectq/libs/math/_quantummath.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/projectq/libs/math/_quantummath.py b/projectq/libs/math/_quantummath.py
index 59aa7cf..7bd857d 100644
--- a/projectq/libs/math/_quantummath.py
+++ b/projectq/libs/math/_quantummath.py
@@ -498,16 +498,16 @@ def quantum_multiplication(eng, quint_a, quint_b, product):
 
     with Control(eng, quint_b[1]):
         AddQuantum | (
-            quint_a[0 : (n_a - 1)],  # noqa: E203
-            product[1:n_a],
+            quint_a[0:n_a],
+            product[1 : (n_a + 1)],  # noqa: E203
             [product[n_a + 1], product[n_a + 2]],
         )
 
     for j in range(2, n_a):
         with Control(eng, quint_b[j]):
             AddQuantum | (
-                quint_a[0 : (n_a - 1)],  # noqa: E203
-                product[(0 + j) : (n_a - 1 + j)],  # noqa: E203
+                quint_a[0:n_a],
+                product[j : (n_a + j)],  # noqa: E203
                 [product[n_a + j], product[n_a + j + 1]],
             )
 
@@ -536,20 +536,21 @@ def inverse_quantum_multiplication(eng, quint_a, quint_b, product):
     if len(product) != ((2 * n_a) + 1):
         raise ValueError('product size must be 2*n + 1')
 
-    for j in range(2, n_a):
+    for j in reversed(range(2, n_a)):
         with Control(eng, quint_b[j]):
             SubtractQuantum | (
-                quint_a[0 : (n_a - 1)],  # noqa: E203
-                product[(0 + j) : (n_a - 1 + j)],  # noqa: E203
+                quint_a[0:n_a],
+                product[j : (n_a + j)],  # noqa: E203
                 [product[n_a + j], product[n_a + j + 1]],
             )
-    for i in range(0, n_a):
-        with Control(eng, [quint_a[i], quint_b[0]]):
-            X | product[i]
 
     with Control(eng, quint_b[1]):
         SubtractQuantum | (
-            quint_a[0 : (n_a - 1)],  # noqa: E203
-            product[1:n_a],
+            quint_a[0:n_a],
+            product[1 : (n_a + 1)],  # noqa: E203
             [product[n_a + 1], product[n_a + 2]],
         )
+
+    for i in range(0, n_a):
+        with Control(eng, [quint_a[i], quint_b[0]]):
+            X | product[i]
-- 
2.43.0


From 34bf26768866d17b81a89410a01d4810cbe99a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:10 +0000
Subject: [PATCH 28/51] fix: reset the hardware backends also after a failing
 run

A run that failed (device offline, timeout, ...) left the circuit and the measured qubits behind, so that the next
flush (e.g. the one at exit) sent the old commands again, with every measurement duplicated.
---
 projectq/backends/_aqt/_aqt.py             | 6 ++++--
 projectq/backends/_awsbraket/_awsbraket.py | 6 ++++--
 projectq/backends/_ibm/_ibm.py             | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index 9d5e5e2..ccd8e4f 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -305,5 +305,7 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             if not isinstance(cmd.gate, FlushGate):
                 self._store(cmd)
             else:
-                self._run()
-                self._reset()
+                try:
+                    self._run()
+                finally:
+                    self._reset()
diff --git a/projectq/backends/_awsbraket/_awsbraket.py b/projectq/backends/_awsbraket/_awsbraket.py
index 78fe5bd..67bb563 100755
--- a/projectq/backends/_awsbraket/_awsbraket.py
+++ b/projectq/backends/_awsbraket/_awsbraket.py
@@ -453,7 +453,9 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
             if not isinstance(cmd.gate, FlushGate):
                 self._store(cmd)
             else:
-                self._run()
-                self._reset()
+                try:
+                    self._run()
+                finally:
+                    self._reset()
             if not self.is_last_engine:
                 self.send([cmd])
diff --git a/projectq/backends/_ibm/_ibm.py b/projectq/backends/_ibm/_ibm.py
index 2a11aa5..0053034 100755
--- a/projectq/backends/_ibm/_ibm.py
+++ b/projectq/backends/_ibm/_ibm.py
@@ -341,5 +341,7 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             if not cmd.gate == FlushGate():
                 self._store(cmd)
             else:
-                self._run()
-                self._reset()
+                try:
+                    self._run()
+                finally:
+                    self._reset()
-- 
2.43.0


From 0f8579d9f834a60feb27adc0816914cd1f6615b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:33 +0000
Subject: [PATCH 29/51] fix: AQTBackend forgets measured qubits and sample
 count of the previous run

---
 projectq/backends/_aqt/_aqt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index ccd8e4f..367de8c 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -126,6 +126,7 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             self._probabilities = {}
             self._clear = False
             self._circuit = []
+            self._mapper = []
             self._allocated_qubits = set()
 
         gate = cmd.gate
@@ -265,14 +266,14 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
                     interval=self._interval,
                     verbose=self._verbose,
                 )
-            self._num_runs = len(res)
+            num_runs = len(res)
             counts = _format_counts(res, n_qubit)
             # Determine random outcome
             random_outcome = random.random()
             p_sum = 0.0
             measured = ""
             for state in counts:
-                probability = counts[state] * 1.0 / self._num_runs
+                probability = counts[state] * 1.0 / num_runs
                 p_sum += probability
                 star = ""
                 if p_sum >= random_outcome and measured == "":
-- 
2.43.0


From 7c13312751b79694bf4cca2aa9fe8c8da9f8bf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:44 +0000
Subject: [PATCH 30/51] fix: AzureQuantumBackend takes the classical bit a
 qubit was measured into

For Quantinuum targets the k-th character of the result was attributed to the k-th measured qubit although qubits are
measured into the classical bit with the index of their location.
---
 projectq/backends/_azure/_azure_quantum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_azure/_azure_quantum.py b/projectq/backends/_azure/_azure_quantum.py
index a4f5ec2..e555070 100644
--- a/projectq/backends/_azure/_azure_quantum.py
+++ b/projectq/backends/_azure/_azure_quantum.py
@@ -352,7 +352,9 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
                 _rearrange_result(int(k), len(self._measured_ids)): v for k, v in res["histogram"].items()
             }
         elif self._provider_id == QUANTINUUM_PROVIDER_ID:
-            histogram = Counter(res["c"])
+            # qubit at location i was measured into the classical bit c[i]
+            meas_map = self._metadata["meas_map"]
+            histogram = Counter("".join(bits[location] for location in meas_map) for bits in res["c"])
             self._probabilities = {k: v / self._num_runs for k, v in histogram.items()}
         else:  # pragma: no cover
             raise RuntimeError("Invalid Azure Quantum target.")
-- 
2.43.0


From 8e7784e0297439519342be06e8fd5e695003de82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:09 +0000
Subject: [PATCH 31/51] fix: run a second circuit on the qubits of the first
 one (IBM, AQT and AWS backends)

---
 projectq/backends/_aqt/_aqt.py             | 3 ++-
 projectq/backends/_awsbraket/_awsbraket.py | 5 +++--
 projectq/backends/_ibm/_ibm.py             | 3 ++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index 367de8c..6830778 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -130,8 +130,9 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             self._allocated_qubits = set()
 
         gate = cmd.gate
+        # Qubits of an earlier circuit may be used again without being allocated again
+        self._allocated_qubits.update(qb.id for qureg in cmd.all_qubits for qb in qureg)
         if gate == Allocate:
-            self._allocated_qubits.add(cmd.qubits[0][0].id)
             return
         if gate == Deallocate:
             return
diff --git a/projectq/backends/_awsbraket/_awsbraket.py b/projectq/backends/_awsbraket/_awsbraket.py
index 67bb563..371d78e 100755
--- a/projectq/backends/_awsbraket/_awsbraket.py
+++ b/projectq/backends/_awsbraket/_awsbraket.py
@@ -267,8 +267,9 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
             self._circuit = ""
             self._allocated_qubits = set()
 
+        # Qubits of an earlier circuit may be used again without being allocated again
+        self._allocated_qubits.update(qb.id for qureg in cmd.all_qubits for qb in qureg)
         if gate == Allocate:
-            self._allocated_qubits.add(cmd.qubits[0][0].id)
             return
         if gate == Measure:
             qb_id = cmd.qubits[0][0].id
@@ -403,7 +404,7 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
             if not self._circuit:
                 return
 
-            n_qubit = len(self._allocated_qubits)
+            n_qubit = max(self._allocated_qubits) + 1
             info = {}
             info['circuit'] = self._circuithead + self._circuit.rstrip(', ') + self._circuittail
             info['nq'] = n_qubit
diff --git a/projectq/backends/_ibm/_ibm.py b/projectq/backends/_ibm/_ibm.py
index 0053034..9936a46 100755
--- a/projectq/backends/_ibm/_ibm.py
+++ b/projectq/backends/_ibm/_ibm.py
@@ -149,8 +149,9 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             self._allocated_qubits = set()
 
         gate = cmd.gate
+        # Qubits of an earlier circuit may be used again without being allocated again
+        self._allocated_qubits.update(qb.id for qureg in cmd.all_qubits for qb in qureg)
         if gate == Allocate:
-            self._allocated_qubits.add(cmd.qubits[0][0].id)
             return
 
         if gate == Deallocate:
-- 
2.43.0


From 0a6eb60bad2e88ca2145442a777e5e0e4b99ffa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:09 +0000
Subject: [PATCH 32/51] fix: do not run the previous circuit again at a flush
 without new commands (IBM and AQT backends)

---
 projectq/backends/_aqt/_aqt.py | 4 ++--
 projectq/backends/_ibm/_ibm.py | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index 6830778..57081d8 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -234,8 +234,8 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         # finally: measurements
         # NOTE AQT DOESN'T SEEM TO HAVE MEASUREMENT INSTRUCTIONS (no
         # intermediate measurements are allowed, so implicit at the end)
-        # return if no operations.
-        if not self._circuit:
+        # return if no operations have been received since the last run.
+        if self._clear or not self._circuit:
             return
 
         n_qubit = max(self._allocated_qubits) + 1
diff --git a/projectq/backends/_ibm/_ibm.py b/projectq/backends/_ibm/_ibm.py
index 9936a46..be0e188 100755
--- a/projectq/backends/_ibm/_ibm.py
+++ b/projectq/backends/_ibm/_ibm.py
@@ -264,6 +264,9 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         Send the circuit via a non documented IBM API (using JSON written
         circuits) using the provided user data / ask for the user token.
         """
+        # Nothing was received since the last run
+        if self._clear:
+            return
         # finally: add measurements (no intermediate measurements are allowed)
         for measured_id in self._measured_ids:
             qb_loc = self.main_engine.mapper.current_mapping[measured_id]
-- 
2.43.0


From a178cbac18e3ce34daeaa58bb18d77ab55115a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 33/51] fix: the compiled simulator refuses unknown qubit ids
 instead of adding them to its map

---
 .../backends/_sim/_cppkernels/simulator.hpp   | 38 +++++++++++++------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index 1a84723..3ab8833 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -75,7 +75,7 @@ public:
 
     bool get_classical_value(unsigned id, calc_type tol = 1.e-12){
         run();
-        unsigned pos = map_[id];
+        unsigned pos = position(id);
         std::size_t delta = (1UL << pos);
 
         for (std::size_t i = 0; i < vec_.size(); i += 2*delta){
@@ -92,7 +92,7 @@ public:
 
     bool is_classical(unsigned id, calc_type tol = 1.e-12){
         run();
-        unsigned pos = map_[id];
+        unsigned pos = position(id);
         std::size_t delta = (1UL << pos);
 
         short up = 0, down = 0;
@@ -109,7 +109,7 @@ public:
 
     void collapse_vector(unsigned id, bool value = false, bool shrink = false){
         run();
-        unsigned pos = map_[id];
+        unsigned pos = position(id);
         std::size_t delta = (1UL << pos);
 
         if (!shrink){
@@ -147,7 +147,7 @@ public:
 
         std::vector<unsigned> positions(ids.size());
         for (unsigned i = 0; i < ids.size(); ++i)
-            positions[i] = map_[ids[i]];
+            positions[i] = position(ids[i]);
 
         calc_type P = 0.;
         calc_type rnd = rng_();
@@ -193,7 +193,6 @@ public:
 
     void deallocate_qubit(unsigned id){
         run();
-        assert(map_.count(id) == 1);
         if (!is_classical(id))
             throw(std::runtime_error("Error: Qubit has not been measured / uncomputed! There is most likely a bug in your code."));
 
@@ -204,6 +203,8 @@ public:
     template <class M>
     void apply_controlled_gate(M const& m, const std::vector<unsigned>& ids,
                                const std::vector<unsigned>& ctrl){
+        require_ids(ids);
+        require_ids(ctrl);
         auto fused_gates = fused_gates_;
         fused_gates.insert(m, ids, ctrl);
 
@@ -229,7 +230,7 @@ public:
 
         for (unsigned i = 0; i < quregs.size(); ++i)
             for (unsigned j = 0; j < quregs[i].size(); ++j)
-                quregs[i][j] = map_[quregs[i][j]];
+                quregs[i][j] = position(quregs[i][j]);
 
         StateVector newvec; // avoid costly memory reallocations
         if( tmpBuff1_.capacity() >= vec_.size() )
@@ -291,6 +292,7 @@ public:
 
     calc_type get_expectation_value(TermsDict const& td, std::vector<unsigned> const& ids){
         run();
+        require_ids(ids);
         calc_type expectation = 0.;
 
         StateVector current_state; // avoid costly memory reallocations
@@ -323,6 +325,7 @@ public:
 
     void apply_qubit_operator(ComplexTermsDict const& td, std::vector<unsigned> const& ids){
         run();
+        require_ids(ids);
         StateVector new_state, current_state; // avoid costly memory reallocations
         if( tmpBuff1_.capacity() >= vec_.size() )
           std::swap(tmpBuff1_, new_state);
@@ -370,15 +373,14 @@ public:
     complex_type const& get_amplitude(std::vector<bool> const& bit_string,
                                       std::vector<unsigned> const& ids){
         run();
+        bool known = check_ids(ids);
         std::size_t chk = 0;
         std::size_t index = 0;
-        for (unsigned i = 0; i < ids.size(); ++i){
-            if (map_.count(ids[i]) == 0)
-                break;
+        for (unsigned i = 0; known && i < ids.size(); ++i){
             chk |= 1UL << map_[ids[i]];
             index |= (bit_string[i]?1UL:0UL) << map_[ids[i]];
         }
-        if (chk + 1 != vec_.size())
+        if (!known || chk + 1 != vec_.size())
             throw(std::runtime_error("The second argument to get_amplitude() must be a permutation of all allocated qubits. Please make sure you have called eng.flush()."));
         return vec_[index];
     }
@@ -387,6 +389,8 @@ public:
                                 std::vector<unsigned> const& ids,
                                 std::vector<unsigned> const& ctrl){
         run();
+        require_ids(ids);
+        require_ids(ctrl);
         complex_type I(0., 1.);
         calc_type tr = 0., op_nrm = 0.;
         TermsDict td;
@@ -551,10 +555,22 @@ private:
     std::size_t get_control_mask(std::vector<unsigned> const& ctrls){
         std::size_t ctrlmask = 0;
         for (auto c : ctrls)
-            ctrlmask |= (1UL << map_[c]);
+            ctrlmask |= (1UL << position(c));
         return ctrlmask;
     }
 
+    unsigned position(unsigned id) const{
+        auto it = map_.find(id);
+        if (it == map_.end())
+            throw(std::runtime_error("Unknown qubit id. Please make sure you have called eng.flush()."));
+        return it->second;
+    }
+
+    void require_ids(std::vector<unsigned> const& ids) const{
+        for (auto id : ids)
+            position(id);
+    }
+
     bool check_ids(std::vector<unsigned> const& ids){
         for (auto id : ids)
             if (!map_.count(id))
-- 
2.43.0


From d1cc10f1eb5b4f5fdb58d56e974ba853ea476acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 34/51] fix: the compiled simulator refuses a wavefunction of
 the wrong length instead of writing past its state

---
 projectq/backends/_sim/_cppkernels/simulator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index 3ab8833..e9efed7 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -444,7 +444,8 @@ public:
     void set_wavefunction(StateVector const& wavefunction, std::vector<unsigned> const& ordering){
         run();
         // make sure there are 2^n amplitudes for n qubits
-        assert(wavefunction.size() == (1UL << ordering.size()));
+        if (wavefunction.size() != (1UL << ordering.size()))
+            throw(std::length_error("set_wavefunction(): The wavefunction must contain 2^n elements!"));
         // check that all qubits have been allocated previously
         if (map_.size() != ordering.size() || !check_ids(ordering))
             throw(std::runtime_error("set_wavefunction(): Invalid mapping provided. Please make sure all qubits have been allocated previously (call eng.flush())."));
-- 
2.43.0


From 14de5321d73c6be89db12d2cf912cc3702ea343c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 35/51] fix: the compiled simulator refuses bit strings shorter
 than the register instead of reading past their end

---
 projectq/backends/_sim/_cppkernels/simulator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index e9efed7..a763a99 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -357,6 +357,8 @@ public:
         run();
         if (!check_ids(ids))
             throw(std::runtime_error("get_probability(): Unknown qubit id. Please make sure you have called eng.flush()."));
+        if (bit_string.size() < ids.size())
+            throw(std::out_of_range("get_probability(): bit string is shorter than the list of qubits"));
         std::size_t mask = 0, bit_str = 0;
         for (unsigned i = 0; i < ids.size(); ++i){
             mask |= 1UL << map_[ids[i]];
@@ -376,6 +378,8 @@ public:
         bool known = check_ids(ids);
         std::size_t chk = 0;
         std::size_t index = 0;
+        if (bit_string.size() < ids.size())
+            throw(std::out_of_range("get_amplitude(): bit string is shorter than the list of qubits"));
         for (unsigned i = 0; known && i < ids.size(); ++i){
             chk |= 1UL << map_[ids[i]];
             index |= (bit_string[i]?1UL:0UL) << map_[ids[i]];
-- 
2.43.0


From a9105366c490d28c3f259102aba219f5e7fea88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 36/51] fix: the Python simulator refuses to allocate a qubit
 id twice, as the compiled one does

---
 projectq/backends/_sim/_pysim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index f6fb58f..b5d174c 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -109,6 +109,8 @@ class Simulator:
         Args:
             qubit_id (int): ID of the qubit which is being allocated.
         """
+        if qubit_id in self._map:
+            raise RuntimeError("AllocateQubit: ID already exists. Qubit IDs should be unique.")
         self._map[qubit_id] = self._num_qubits
         self._num_qubits += 1
         self._state.resize(1 << self._num_qubits, refcheck=_USE_REFCHECK)
-- 
2.43.0


From 2c7c319bc028d5a5f4132f9a66cfb3ae96e19ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:17 +0000
Subject: [PATCH 37/51] fix: set_wavefunction refuses an ordering which names a
 qubit twice (both simulators)

---
 projectq/backends/_sim/_cppkernels/simulator.hpp | 4 +++-
 projectq/backends/_sim/_pysim.py                 | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index a763a99..6eda6e8 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -27,6 +27,7 @@
 #include "intrin/alignedallocator.hpp"
 #include "fusion.hpp"
 #include <map>
+#include <set>
 #include <cassert>
 #include <algorithm>
 #include <tuple>
@@ -451,7 +452,8 @@ public:
         if (wavefunction.size() != (1UL << ordering.size()))
             throw(std::length_error("set_wavefunction(): The wavefunction must contain 2^n elements!"));
         // check that all qubits have been allocated previously
-        if (map_.size() != ordering.size() || !check_ids(ordering))
+        std::set<unsigned> distinct(ordering.begin(), ordering.end());
+        if (map_.size() != ordering.size() || distinct.size() != ordering.size() || !check_ids(ordering))
             throw(std::runtime_error("set_wavefunction(): Invalid mapping provided. Please make sure all qubits have been allocated previously (call eng.flush())."));
 
         // set mapping and wavefunction
diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index b5d174c..0b39db8 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -448,7 +448,7 @@ class Simulator:
             raise ValueError('The wavefunction must contain 2^n elements!')
 
         # all qubits must have been allocated before
-        if not all(qubit_id in self._map for qubit_id in ordering) or len(self._map) != len(ordering):
+        if set(ordering) != set(self._map) or len(self._map) != len(ordering):
             raise RuntimeError(
                 "set_wavefunction(): Invalid mapping provided. Please make sure all qubits have been "
                 "allocated previously (call eng.flush())."
-- 
2.43.0


From c7b5d3c6e68d3ff4f2b127c8fd1d3045f0acd6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:17 +0000
Subject: [PATCH 38/51] fix: the Python simulator refuses operators on unknown
 qubits before it changes its state

---
 projectq/backends/_sim/_pysim.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index 0b39db8..f93f8ea 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -174,6 +174,16 @@ class Simulator:
         self._state = newstate
         self._num_qubits -= 1
 
+    def _check_ids(self, ids):
+        """
+        Make sure that all qubits are known before anything is changed.
+
+        Raises:
+            RuntimeError: If an unknown qubit id was provided.
+        """
+        if not all(qubit_id in self._map for qubit_id in ids):
+            raise RuntimeError("Unknown qubit id. Please make sure you have called eng.flush().")
+
     def _get_control_mask(self, ctrlids):
         """
         Get control mask from list of control qubit IDs.
@@ -236,6 +246,7 @@ class Simulator:
         Returns:
             Expectation value
         """
+        self._check_ids(ids)
         expectation = 0.0
         current_state = _np.copy(self._state)
         for term, coefficient in terms_dict:
@@ -253,6 +264,7 @@ class Simulator:
             terms_dict (dict): Operator dictionary (see QubitOperator.terms)
             ids (list[int]): List of qubit ids upon which the operator acts.
         """
+        self._check_ids(ids)
         new_state = _np.zeros_like(self._state)
         current_state = _np.copy(self._state)
         for term, coefficient in terms_dict:
@@ -331,6 +343,7 @@ class Simulator:
             ids (list): A list of qubit IDs to which to apply the evolution.
             ctrlids (list): A list of control qubit IDs.
         """
+        self._check_ids(ids)
         # Determine the (normalized) trace, which is nonzero only for identity terms:
         trace = sum(c for (t, c) in terms_dict if len(t) == 0)
         terms_dict = [(t, c) for (t, c) in terms_dict if len(t) > 0]
-- 
2.43.0


From 200d68a2e572f198b00f478a7092f41bf35f5d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:35 +0000
Subject: [PATCH 39/51] fix: emulated modular multiplication does not overflow
 in the compiled simulator

---
 projectq/backends/_sim/_cppkernels/simulator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index 6eda6e8..acfe7c3 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -288,7 +288,7 @@ public:
     template<class QuReg>
     inline void emulate_math_multiplyByConstantModN(int a, int N, const QuReg& quregs, const std::vector<unsigned>& ctrl)
     {
-      emulate_math([a,N](std::vector<int> &res){for(auto& x: res) x = (x * a) % N;}, quregs, ctrl, true);
+      emulate_math([a,N](std::vector<int> &res){for(auto& x: res) x = static_cast<int>(static_cast<long long>(x) * a % N);}, quregs, ctrl, true);
     }
 
     calc_type get_expectation_value(TermsDict const& td, std::vector<unsigned> const& ids){
-- 
2.43.0


From f87e78087dfc6518cf8ee4a717f70addb3e13f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:55 +0000
Subject: [PATCH 40/51] fix: undo the carry computation of the comparator in
 reverse order

For registers of three or more qubits the comparator left both input
registers modified.
---
 projectq/libs/math/_quantummath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/libs/math/_quantummath.py b/projectq/libs/math/_quantummath.py
index 7bd857d..d30bf20 100644
--- a/projectq/libs/math/_quantummath.py
+++ b/projectq/libs/math/_quantummath.py
@@ -218,11 +218,11 @@ def comparator(eng, quint_a, quint_b, comp):
     with Control(eng, [quint_a[n_qubits - 2], quint_b[n_qubits - 2]]):
         X | comp
 
-    for k in range(0, n_qubits - 2):
+    for k in range(n_qubits - 3, -1, -1):
         with Control(eng, [quint_a[k], quint_b[k]]):
             X | (quint_a[k + 1])
 
-    for j in range(n_qubits - 3, 0, -1):
+    for j in range(1, n_qubits - 2):
         CNOT | (quint_a[j], quint_a[j + 1])
 
     for i in range(1, n_qubits - 1):
-- 
2.43.0


From 4f6c2070467512c04a07dbe52964ed143e8cf7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:47 +0000
Subject: [PATCH 41/51] fix: emulate the division of a number by a larger one

The function returned the dividend as quotient, unlike the circuit, and mapped
two register contents to the same one.
---
 projectq/libs/math/_gates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/libs/math/_gates.py b/projectq/libs/math/_gates.py
index 0ae294c..db05768 100755
--- a/projectq/libs/math/_gates.py
+++ b/projectq/libs/math/_gates.py
@@ -436,7 +436,7 @@ class DivideQuantumGate(BasicMathGate):
         """
 
         def division(dividend, remainder, divisor):
-            if divisor == 0 or divisor > dividend:
+            if divisor == 0:
                 return (remainder, dividend, divisor)
 
             quotient = remainder + dividend // divisor
-- 
2.43.0


From 020f64172fb6b99b34f9c21b7a2dccb2a18170d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:37 +0000
Subject: [PATCH 42/51] fix: merge QubitOperator gates in the order in which
 they are applied

---
 projectq/ops/_qubit_operator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projectq/ops/_qubit_operator.py b/projectq/ops/_qubit_operator.py
index 91524b1..a2f87dc 100644
--- a/projectq/ops/_qubit_operator.py
+++ b/projectq/ops/_qubit_operator.py
@@ -352,7 +352,8 @@ class QubitOperator(BasicGate):
             NotMergeable: merging is not possible
         """
         if isinstance(other, self.__class__) and len(other.terms) == 1 and len(self.terms) == 1:
-            return self * other
+            # The operator applied first is the right factor of the product
+            return other * self
         raise NotMergeable()
 
     def __imul__(self, multiplier):  # pylint: disable=too-many-locals,too-many-branches
-- 
2.43.0


From 1e98e9b5a2c1148b0cea5ff1ac97851fa8070599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:51 +0000
Subject: [PATCH 43/51] fix: do not compare math gates with different functions
 as equal

---
 projectq/ops/_basics.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/projectq/ops/_basics.py b/projectq/ops/_basics.py
index 8546965..ed97f14 100755
--- a/projectq/ops/_basics.py
+++ b/projectq/ops/_basics.py
@@ -602,11 +602,22 @@ class BasicMathGate(BasicGate):
             return list(math_fun(*arg))
 
         self._math_function = math_function
+        self._defining_function = math_fun
 
     def __str__(self):
         """Return a string representation of the object."""
         return "MATH"
 
+    def __eq__(self, other):
+        """Return True if same class and, for gates which are defined by their function alone, same function."""
+        if self.__class__ is BasicMathGate:
+            return other.__class__ is BasicMathGate and self._defining_function == other._defining_function
+        return super().__eq__(other)
+
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash(str(self))
+
     def get_math_function(self, qubits):  # pylint: disable=unused-argument
         """
         Get the math function associated with a BasicMathGate.
-- 
2.43.0


From 4f548fbaa583575bfaa35dbcda9f5c074d73c11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:51 +0000
Subject: [PATCH 44/51] fix: equal qubit operators have equal hashes also with
 coefficients -0.0

---
 projectq/ops/_qubit_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/ops/_qubit_operator.py b/projectq/ops/_qubit_operator.py
index a2f87dc..6c5270d 100644
--- a/projectq/ops/_qubit_operator.py
+++ b/projectq/ops/_qubit_operator.py
@@ -592,6 +592,6 @@ class QubitOperator(BasicGate):
         """Compute the hash of the object."""
         canonical = QubitOperator()
         for term, coeff in sorted(self.terms.items()):
-            coeff = complex(coeff)
+            coeff = complex(coeff) + 0j  # -0.0 and 0.0 are equal but are printed differently
             canonical.terms[term] = coeff if coeff.imag else coeff.real
         return hash(str(canonical))
-- 
2.43.0


From 4fe04b1b10fe9447e681777cd8397966c1ac4d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:51 +0000
Subject: [PATCH 45/51] fix: equal state preparations have equal hashes

---
 projectq/ops/_state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/ops/_state_prep.py b/projectq/ops/_state_prep.py
index a2f3564..61b0cc8 100644
--- a/projectq/ops/_state_prep.py
+++ b/projectq/ops/_state_prep.py
@@ -53,4 +53,4 @@ class StatePreparation(BasicGate):
 
     def __hash__(self):
         """Compute the hash of the object."""
-        return hash(f"StatePreparation({str(self.final_state)})")
+        return hash(tuple(self.final_state))
-- 
2.43.0


From 8128b54e90c7f0de65d758b33fa11fee32e30438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:39 +0000
Subject: [PATCH 46/51] fix: add or subtract a qubit operator to or from itself
 in place

---
 projectq/ops/_qubit_operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/ops/_qubit_operator.py b/projectq/ops/_qubit_operator.py
index 6c5270d..e822c5c 100644
--- a/projectq/ops/_qubit_operator.py
+++ b/projectq/ops/_qubit_operator.py
@@ -502,7 +502,7 @@ class QubitOperator(BasicGate):
             TypeError: Cannot add invalid type.
         """
         if isinstance(addend, QubitOperator):
-            for term in addend.terms:
+            for term in list(addend.terms):
                 if term in self.terms:
                     if abs(addend.terms[term] + self.terms[term]) > 0.0:
                         self.terms[term] += addend.terms[term]
@@ -531,7 +531,7 @@ class QubitOperator(BasicGate):
             TypeError: Cannot subtract invalid type from QubitOperator.
         """
         if isinstance(subtrahend, QubitOperator):
-            for term in subtrahend.terms:
+            for term in list(subtrahend.terms):
                 if term in self.terms:
                     if abs(self.terms[term] - subtrahend.terms[term]) > 0.0:
                         self.terms[term] -= subtrahend.terms[term]
-- 
2.43.0


From 2d80d1811ec1c02bae84a0b03f55a03d06b1716d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:46 +0000
Subject: [PATCH 47/51] fix: linear and grid setups let controlled gates pass
 as declared one-qubit gates

---
 projectq/setups/_utils.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/projectq/setups/_utils.py b/projectq/setups/_utils.py
index 20c531a..9ec10a6 100644
--- a/projectq/setups/_utils.py
+++ b/projectq/setups/_utils.py
@@ -104,14 +104,16 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
         raise TypeError("one_qubit_gates parameter must be 'any' or a tuple.")
 
     rule_set = DecompositionRuleSet(modules=[projectq.libs.math, projectq.setups.decompositions])
-    allowed_gate_classes = []
-    allowed_gate_instances = []
+    allowed_gate_classes1 = []  # 1-qubit gates
+    allowed_gate_instances1 = []
+    allowed_gate_classes2 = []  # 2-qubit gates
+    allowed_gate_instances2 = []
     if one_qubit_gates != "any":
         for gate in one_qubit_gates:
             if inspect.isclass(gate):
-                allowed_gate_classes.append(gate)
+                allowed_gate_classes1.append(gate)
             else:
-                allowed_gate_instances.append((gate, 0))
+                allowed_gate_instances1.append(gate)
     if two_qubit_gates != "any":
         for gate in two_qubit_gates:
             if inspect.isclass(gate):
@@ -119,16 +121,18 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
                 #  separate treatment
                 if isinstance(gate, ControlledGate):  # pragma: no cover
                     raise RuntimeError('Support for controlled gate not implemented!')
-                allowed_gate_classes.append(gate)
+                allowed_gate_classes2.append(gate)
             else:
                 if isinstance(gate, ControlledGate):
-                    allowed_gate_instances.append((gate._gate, gate._n))  # pylint: disable=protected-access
+                    allowed_gate_instances2.append((gate._gate, gate._n))  # pylint: disable=protected-access
                 else:
-                    allowed_gate_instances.append((gate, 0))
-    allowed_gate_classes = tuple(allowed_gate_classes)
-    allowed_gate_instances = tuple(allowed_gate_instances)
+                    allowed_gate_instances2.append((gate, 0))
+    allowed_gate_classes1 = tuple(allowed_gate_classes1)
+    allowed_gate_instances1 = tuple(allowed_gate_instances1)
+    allowed_gate_classes2 = tuple(allowed_gate_classes2)
+    allowed_gate_instances2 = tuple(allowed_gate_instances2)
 
-    def low_level_gates(eng, cmd):  # pylint: disable=unused-argument
+    def low_level_gates(eng, cmd):  # pylint: disable=unused-argument,too-many-return-statements
         all_qubits = [q for qr in cmd.all_qubits for q in qr]
         if len(all_qubits) > 2:  # pragma: no cover
             raise ValueError('Filter function cannot handle gates with more than 2 qubits!')
@@ -139,9 +143,13 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
             return True
         if two_qubit_gates == "any" and len(all_qubits) == 2:
             return True
-        if isinstance(cmd.gate, allowed_gate_classes):
+        if isinstance(cmd.gate, allowed_gate_classes1) and len(all_qubits) == 1:
             return True
-        if (cmd.gate, len(cmd.control_qubits)) in allowed_gate_instances:
+        if isinstance(cmd.gate, allowed_gate_classes2) and len(all_qubits) == 2:
+            return True
+        if cmd.gate in allowed_gate_instances1 and len(all_qubits) == 1:
+            return True
+        if (cmd.gate, len(cmd.control_qubits)) in allowed_gate_instances2 and len(all_qubits) == 2:
             return True
         return False
 
-- 
2.43.0


From f12bd4dc7e661119d68567fbbd89ecf0236aa800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:21 +0000
Subject: [PATCH 48/51] fix: restricted setups sent negatively controlled gates
 to backends as positively controlled ones

---
 projectq/setups/_utils.py            | 4 ++++
 projectq/setups/restrictedgateset.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/projectq/setups/_utils.py b/projectq/setups/_utils.py
index 9ec10a6..15fa937 100644
--- a/projectq/setups/_utils.py
+++ b/projectq/setups/_utils.py
@@ -25,6 +25,7 @@ from projectq.cengines import (
     LocalOptimizer,
     TagRemover,
 )
+from projectq.meta import has_negative_control
 from projectq.ops import (
     CNOT,
     QFT,
@@ -139,6 +140,9 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
         if isinstance(cmd.gate, ClassicalInstructionGate):
             # This is required to allow Measure, Allocate, Deallocate, Flush
             return True
+        if has_negative_control(cmd):
+            # Backends would treat it as a positive control
+            return False
         if one_qubit_gates == "any" and len(all_qubits) == 1:
             return True
         if two_qubit_gates == "any" and len(all_qubits) == 2:
diff --git a/projectq/setups/restrictedgateset.py b/projectq/setups/restrictedgateset.py
index 202bb99..be818b1 100644
--- a/projectq/setups/restrictedgateset.py
+++ b/projectq/setups/restrictedgateset.py
@@ -31,6 +31,7 @@ from projectq.cengines import (
     LocalOptimizer,
     TagRemover,
 )
+from projectq.meta import has_negative_control
 from projectq.ops import CNOT, BasicGate, ClassicalInstructionGate, ControlledGate
 
 from ._utils import high_level_gates, one_and_two_qubit_gates
@@ -154,6 +155,9 @@ def get_engine_list(  # pylint: disable=too-many-branches,too-many-statements
         if isinstance(cmd.gate, ClassicalInstructionGate):
             # This is required to allow Measure, Allocate, Deallocate, Flush
             return True
+        if has_negative_control(cmd):
+            # Backends would treat it as a positive control
+            return False
         if one_qubit_gates == "any" and len(all_qubits) == 1:
             return True
         if two_qubit_gates == "any" and len(all_qubits) == 2:
-- 
2.43.0


From 8cafbde840423f5de3e973dac6610a26244304a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:47 +0000
Subject: [PATCH 49/51] fix: AWS Braket setups could not compile any entangling
 gate because CNOT was not declared

---
 projectq/setups/awsbraket.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/projectq/setups/awsbraket.py b/projectq/setups/awsbraket.py
index 46247ca..88d0179 100644
--- a/projectq/setups/awsbraket.py
+++ b/projectq/setups/awsbraket.py
@@ -28,6 +28,7 @@ that will be used in the backend.
 from projectq.backends._awsbraket._awsbraket_boto3_client import show_devices
 from projectq.backends._exceptions import DeviceNotHandledError, DeviceOfflineError
 from projectq.ops import (
+    CNOT,
     Barrier,
     H,
     R,
@@ -67,21 +68,21 @@ def get_engine_list(credentials=None, device=None):
     if device == 'SV1':
         setup = restrictedgateset.get_engine_list(
             one_qubit_gates=(R, H, Rx, Ry, Rz, S, Sdag, T, Tdag, X, Y, Z, SqrtX),
-            two_qubit_gates=(Swap,),
+            two_qubit_gates=(CNOT, Swap),
             other_gates=(Barrier,),
         )
         return setup
     if device == 'Aspen-8':
         setup = restrictedgateset.get_engine_list(
             one_qubit_gates=(R, H, Rx, Ry, Rz, S, Sdag, T, Tdag, X, Y, Z),
-            two_qubit_gates=(Swap,),
+            two_qubit_gates=(CNOT, Swap),
             other_gates=(Barrier,),
         )
         return setup
     if device == 'IonQ Device':
         setup = restrictedgateset.get_engine_list(
             one_qubit_gates=(H, Rx, Ry, Rz, S, Sdag, T, Tdag, X, Y, Z, SqrtX),
-            two_qubit_gates=(Swap,),
+            two_qubit_gates=(CNOT, Swap),
             other_gates=(Barrier,),
         )
         return setup
-- 
2.43.0


From dc7d75f6380166eed566f3f4afce633594009db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:01 +0000
Subject: [PATCH 50/51] fix: declare every qubit a circuit uses in IonQBackend
 and AzureQuantumBackend

---
 projectq/backends/_azure/_azure_quantum.py | 8 ++++++--
 projectq/backends/_ionq/_ionq.py           | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/projectq/backends/_azure/_azure_quantum.py b/projectq/backends/_azure/_azure_quantum.py
index e555070..063f174 100644
--- a/projectq/backends/_azure/_azure_quantum.py
+++ b/projectq/backends/_azure/_azure_quantum.py
@@ -115,6 +115,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
         self._interval = interval
         self._retrieve_execution = retrieve_execution
         self._circuit = None
+        self._num_qubits = 0
         self._measured_ids = []
         self._probabilities = {}
         self._clear = True
@@ -144,8 +145,11 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
             self._probabilities = {}
             self._clear = False
             self._circuit = None
+            self._num_qubits = 0
 
         gate = cmd.gate
+        # Locations of qubits which are deallocated later on still count
+        self._num_qubits = max([self._num_qubits] + [qb.id + 1 for qureg in cmd.all_qubits for qb in qureg])
 
         # No-op/Meta gates
         if isinstance(gate, (AllocateQubitGate, DeallocateQubitGate)):
@@ -283,7 +287,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
     @property
     def _input_data(self):
         qubit_mapping = self.main_engine.mapper.current_mapping
-        qubits = len(qubit_mapping.keys())
+        qubits = max(len(qubit_mapping.keys()), self._num_qubits)
 
         if self._provider_id == IONQ_PROVIDER_ID:
             return {"qubits": qubits, "circuit": self._circuit}
@@ -305,7 +309,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
     @property
     def _metadata(self):
         qubit_mapping = self.main_engine.mapper.current_mapping
-        num_qubits = len(qubit_mapping.keys())
+        num_qubits = max(len(qubit_mapping.keys()), self._num_qubits)
         meas_map = [qubit_mapping[qubit_id] for qubit_id in self._measured_ids]
 
         return {"num_qubits": num_qubits, "meas_map": meas_map}
diff --git a/projectq/backends/_ionq/_ionq.py b/projectq/backends/_ionq/_ionq.py
index ea2b0c8..a2253af 100644
--- a/projectq/backends/_ionq/_ionq.py
+++ b/projectq/backends/_ionq/_ionq.py
@@ -292,9 +292,11 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         if self._retrieve_execution is None:
             qubit_mapping = self.main_engine.mapper.current_mapping
             measured_ids = self._measured_ids[:]
+            # Locations of qubits which were deallocated in the meantime still count
+            locations = [loc for gate in self._circuit for loc in gate['targets'] + gate.get('controls', [])]
             info = {
                 'circuit': self._circuit,
-                'nq': len(qubit_mapping.keys()),
+                'nq': max(len(qubit_mapping.keys()), max(locations) + 1),
                 'shots': self._num_runs,
                 'meas_mapped': [qubit_mapping[qubit_id] for qubit_id in measured_ids],
                 'meas_qubit_ids': measured_ids,
-- 
2.43.0


From e6cb72a4060feacc6cea3e6f0fbd4cafeebfc461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:22 +0000
Subject: [PATCH 51/51] fix: hardware backends cope with qubits deallocated
 after their measurement

---
 projectq/backends/_aqt/_aqt.py             | 11 ++++++++++-
 projectq/backends/_awsbraket/_awsbraket.py | 11 ++++++++++-
 projectq/backends/_azure/_azure_quantum.py |  8 ++++++--
 projectq/backends/_ibm/_ibm.py             | 11 +++++++++--
 projectq/backends/_ionq/_ionq.py           |  6 +++++-
 5 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index 57081d8..3c0ec90 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -89,6 +89,7 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         self._circuit = []
         self._mapper = []
         self._measured_ids = []
+        self._measured_locations = {}
         self._allocated_qubits = set()
         self._retrieve_execution = retrieve_execution
 
@@ -112,6 +113,7 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         """Reset all temporary variables (after flush gate)."""
         self._clear = True
         self._measured_ids = []
+        self._measured_locations = {}
 
     def _store(self, cmd):
         """
@@ -147,6 +149,7 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
                 logical_id = qb_id
                 self._mapper.append(qb_id)
             self._measured_ids += [logical_id]
+            self._measured_locations[logical_id] = cmd.qubits[0][0].id
             return
         if isinstance(gate, (Rx, Ry, Rxx)):
             qubits = []
@@ -190,6 +193,12 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
                 ) from err
             return qb_id
 
+    def _measured_location(self, qb_id):
+        """Return the location of a measured qubit, which may have been deallocated after its measurement."""
+        if self.main_engine.mapper is None:
+            return self._logical_to_physical(qb_id)
+        return self.main_engine.mapper.current_mapping.get(qb_id, self._measured_locations[qb_id])
+
     def get_probabilities(self, qureg):
         """
         Return the probability of the outcome `bit_string` when measuring the quantum register `qureg`.
@@ -286,7 +295,7 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
 
             # register measurement result from AQT
             for qubit_id in self._measured_ids:
-                location = self._logical_to_physical(qubit_id)
+                location = self._measured_location(qubit_id)
                 result = int(measured[location])
                 self.main_engine.set_measurement_result(WeakQubitRef(self, qubit_id), result)
             self._reset()
diff --git a/projectq/backends/_awsbraket/_awsbraket.py b/projectq/backends/_awsbraket/_awsbraket.py
index 371d78e..61eb82f 100755
--- a/projectq/backends/_awsbraket/_awsbraket.py
+++ b/projectq/backends/_awsbraket/_awsbraket.py
@@ -103,6 +103,7 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
         self._probabilities = {}
         self._circuit = ""
         self._measured_ids = []
+        self._measured_locations = {}
         self._allocated_qubits = set()
         self._retrieve_execution = retrieve_execution
 
@@ -240,6 +241,7 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
         """Reset all temporary variables (after flush gate)."""
         self._clear = True
         self._measured_ids = []
+        self._measured_locations = {}
 
     def _store(self, cmd):  # pylint: disable=too-many-branches
         """
@@ -279,6 +281,7 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
                     logical_id = tag.logical_qubit_id
                     break
             self._measured_ids.append(logical_id if logical_id is not None else qb_id)
+            self._measured_locations[self._measured_ids[-1]] = qb_id
             return
 
         # All other supported gate types
@@ -326,6 +329,12 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
             return mapping[qb_id]
         return qb_id
 
+    def _measured_location(self, qb_id):
+        """Return the location of a measured qubit, which may have been deallocated after its measurement."""
+        if self.main_engine.mapper is None:
+            return qb_id
+        return self.main_engine.mapper.current_mapping.get(qb_id, self._measured_locations[qb_id])
+
     def get_probabilities(self, qureg):
         """
         Return the list of basis states with corresponding probabilities.
@@ -439,7 +448,7 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
 
         # register measurement result
         for qubit_id in self._measured_ids:
-            result = int(measured[self._logical_to_physical(qubit_id)])
+            result = int(measured[self._measured_location(qubit_id)])
             self.main_engine.set_measurement_result(WeakQubitRef(self.main_engine, qubit_id), result)
         self._reset()
 
diff --git a/projectq/backends/_azure/_azure_quantum.py b/projectq/backends/_azure/_azure_quantum.py
index 063f174..6ae4fd1 100644
--- a/projectq/backends/_azure/_azure_quantum.py
+++ b/projectq/backends/_azure/_azure_quantum.py
@@ -117,6 +117,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
         self._circuit = None
         self._num_qubits = 0
         self._measured_ids = []
+        self._measured_locations = {}
         self._probabilities = {}
         self._clear = True
 
@@ -142,6 +143,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
         """
         if self._clear:
             self._measured_ids = []
+            self._measured_locations = {}
             self._probabilities = {}
             self._clear = False
             self._circuit = None
@@ -167,6 +169,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
                 raise RuntimeError('No LogicalQubitIDTag found in command!')
 
             self._measured_ids.append(logical_id)
+            self._measured_locations[logical_id] = cmd.qubits[0][0].id
             return
 
         if self._provider_id == IONQ_PROVIDER_ID:
@@ -296,7 +299,8 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
             measurement_gates = ""
 
             for measured_id in self._measured_ids:
-                qb_loc = self.main_engine.mapper.current_mapping[measured_id]
+                # the qubit may have been deallocated after its measurement
+                qb_loc = qubit_mapping.get(measured_id, self._measured_locations[measured_id])
                 measurement_gates += f"measure q[{qb_loc}] -> c[{qb_loc}];\n"
 
             return (
@@ -310,7 +314,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
     def _metadata(self):
         qubit_mapping = self.main_engine.mapper.current_mapping
         num_qubits = max(len(qubit_mapping.keys()), self._num_qubits)
-        meas_map = [qubit_mapping[qubit_id] for qubit_id in self._measured_ids]
+        meas_map = [qubit_mapping.get(qubit_id, self._measured_locations[qubit_id]) for qubit_id in self._measured_ids]
 
         return {"num_qubits": num_qubits, "meas_map": meas_map}
 
diff --git a/projectq/backends/_ibm/_ibm.py b/projectq/backends/_ibm/_ibm.py
index be0e188..bbd1e05 100755
--- a/projectq/backends/_ibm/_ibm.py
+++ b/projectq/backends/_ibm/_ibm.py
@@ -92,6 +92,7 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         self.qasm = ""
         self._json = []
         self._measured_ids = []
+        self._measured_locations = {}
         self._allocated_qubits = set()
         self._retrieve_execution = retrieve_execution
 
@@ -128,6 +129,7 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         """Reset all temporary variables (after flush gate)."""
         self._clear = True
         self._measured_ids = []
+        self._measured_locations = {}
 
     def _store(self, cmd):  # pylint: disable=too-many-branches,too-many-statements
         """
@@ -166,6 +168,7 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             if logical_id is None:
                 raise RuntimeError('No LogicalQubitIDTag found in command!')
             self._measured_ids += [logical_id]
+            self._measured_locations[logical_id] = cmd.qubits[0][0].id
         elif gate == NOT and get_control_count(cmd) == 1:
             ctrl_pos = cmd.control_qubits[0].id
             qb_pos = cmd.qubits[0][0].id
@@ -218,6 +221,10 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             )
         return mapping[qb_id]
 
+    def _measured_location(self, qb_id):
+        """Return the location of a measured qubit, which may have been deallocated after its measurement."""
+        return self.main_engine.mapper.current_mapping.get(qb_id, self._measured_locations[qb_id])
+
     def get_probabilities(self, qureg):
         """
         Return the probability of the outcome `bit_string` when measuring the quantum register `qureg`.
@@ -269,7 +276,7 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             return
         # finally: add measurements (no intermediate measurements are allowed)
         for measured_id in self._measured_ids:
-            qb_loc = self.main_engine.mapper.current_mapping[measured_id]
+            qb_loc = self._measured_location(measured_id)
             self.qasm += f"\nmeasure q[{qb_loc}] -> c[{qb_loc}];"
             self._json.append({'qubits': [qb_loc], 'name': 'measure', 'memory': [qb_loc]})
         # return if no operations / measurements have been performed.
@@ -324,7 +331,7 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
 
             # register measurement result from IBM
             for qubit_id in self._measured_ids:
-                location = self._logical_to_physical(qubit_id)
+                location = self._measured_location(qubit_id)
                 result = int(measured[location])
                 self.main_engine.set_measurement_result(WeakQubitRef(self, qubit_id), result)
             self._reset()
diff --git a/projectq/backends/_ionq/_ionq.py b/projectq/backends/_ionq/_ionq.py
index a2253af..3a09495 100644
--- a/projectq/backends/_ionq/_ionq.py
+++ b/projectq/backends/_ionq/_ionq.py
@@ -298,7 +298,11 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
                 'circuit': self._circuit,
                 'nq': max(len(qubit_mapping.keys()), max(locations) + 1),
                 'shots': self._num_runs,
-                'meas_mapped': [qubit_mapping[qubit_id] for qubit_id in measured_ids],
+                # qubits may have been deallocated after their measurement
+                'meas_mapped': [
+                    qubit_mapping.get(qubit_id, location)
+                    for qubit_id, location in zip(measured_ids, self._measured_physical_ids)
+                ],
                 'meas_qubit_ids': measured_ids,
             }
             res = http_client.send(
-- 
2.43.0

