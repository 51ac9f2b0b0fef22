From fa6d8fd25c32196f6a2797a6d9631d0b653068ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:43 +0000
Subject: [PATCH 01/71] fix: conjugate the bra when deriving the density matrix
 from a state

---
 dwave/gate/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 17353f2..3408b86 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -251,7 +251,7 @@ class Circuit:
     def density_matrix(self) -> Optional[NDArray]:
         """The density matrix representation of the state."""
         if self._state is not None and self._density_matrix is None:
-            self._density_matrix = self._state.reshape(-1, 1) @ self._state.reshape(1, -1)
+            self._density_matrix = self._state.reshape(-1, 1) @ self._state.conj().reshape(1, -1)
         return self._density_matrix
 
     def set_state(self, state: NDArray, force: bool = False, normalize: bool = False) -> None:
-- 
2.43.0


From a3340446ad7900ca184d1111e12a4865b2025546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:49 +0000
Subject: [PATCH 02/71] fix: drop cached qubits and bits when a reset removes
 the registers

---
 dwave/gate/circuit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 3408b86..72c120c 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -353,6 +353,10 @@ class Circuit:
         if not keep_registers:
             self._qregisters.clear()
             self._cregisters.clear()
+
+            # remove cached 'qubits' and 'bits' attributes when updating registers
+            self.__dict__.pop("qubits", None)
+            self.__dict__.pop("bits", None)
         else:
             for bit in self.bits:
                 bit.reset()
-- 
2.43.0


From f3915fdc6a55d455e7dee40d10ffad1dab326bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:55 +0000
Subject: [PATCH 03/71] fix: add the given bit to the circuit also when its
 value is 0

---
 dwave/gate/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 72c120c..8276c50 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -418,7 +418,7 @@ class Circuit:
         if self.bits and bit in self.bits:
             raise ValueError(f"Bit '{bit}' already in use in classical register '{creg_label}'.")
 
-        self.cregisters[creg_label].add(bit or Bit(str(self.num_bits)))
+        self.cregisters[creg_label].add(Bit(str(self.num_bits)) if bit is None else bit)
 
         # remove cached 'bits' attribute when updating 'cregisters'
         # will always be in 'self.__dict__' since 'self.bits' is called above
-- 
2.43.0


From cbb0505e110231ad1199ba0c483ae90465719d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 04/71] fix: accept a single bit with value 0 when applying a
 circuit

---
 dwave/gate/circuit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 8276c50..0667d59 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -115,9 +115,10 @@ class Circuit:
         if len(qubits) != len(self.qubits):
             raise ValueError(f"Circuit requires {len(self.qubits)} qubits, got {len(qubits)}.")
 
+        if isinstance(bits, Bit):
+            bits = [bits]
+
         if bits:
-            if isinstance(bits, Bit):
-                bits = [bits]
 
             if len(bits) != len(self.bits):
                 raise ValueError(f"Circuit requires {len(self.bits)} bits, got {len(bits)}.")
-- 
2.43.0


From c9f935723be0d7b36b99167e8518a306df84fffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:05 +0000
Subject: [PATCH 05/71] fix: treat a variable with value 0 as set

---
 dwave/gate/operations/base.py | 2 +-
 dwave/gate/primitives.py      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index d2dd45b..7d0354f 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -401,7 +401,7 @@ class ParametricOperation(Operation):
             if isinstance(p, Variable):
                 if parameters:
                     op.parameters[i] = parameters[i]
-                elif p.value:
+                elif p.value is not None:
                     op.parameters[i] = p.value
                 else:
                     raise ValueError("No available parameter to evaluate with.")
diff --git a/dwave/gate/primitives.py b/dwave/gate/primitives.py
index 38c6721..559cda0 100644
--- a/dwave/gate/primitives.py
+++ b/dwave/gate/primitives.py
@@ -175,13 +175,13 @@ class Variable:
         """Two variables are equal if they share the same label."""
         if isinstance(object, Variable):
             return self.name == object.name
-        if self._value and self._value == object:
+        if self._value is not None and self._value == object:
             return True
         return False
 
     def __repr__(self) -> str:
         """The representation of the variable is its label."""
-        if self._value:
+        if self._value is not None:
             return str(self.value)
         return f"{{{self.name}}}"
 
-- 
2.43.0


From 920efd8f70f5eff7aecae71552004f8b3d840f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:10 +0000
Subject: [PATCH 06/71] fix: keep evaluated parameters of parametric controlled
 operations

The parameters were overwritten with the (later reset) variables after the
operation had been evaluated and appended to the active circuit.
---
 dwave/gate/operations/base.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 7d0354f..73f868e 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -620,7 +620,6 @@ class ParametricControlledOperation(ControlledOperation, ParametricOperation):
     ):
         # ControlledOperation.__init__(self, control, target, **kwargs)
         super().__init__(control, target, parameters=parameters, **kwargs)
-        self._parameters = self._check_parameters(parameters)
 
     def __call__(
         self, control: Optional[Sequence[Qubit]] = None, target: Optional[Sequence[Qubit]] = None
-- 
2.43.0


From 6efa573b672c4104ffd89e7c598b2370bfbc62d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:39 +0000
Subject: [PATCH 07/71] fix: apply circuits containing operations with several
 control qubits

---
 dwave/gate/circuit.py         | 8 +-------
 dwave/gate/operations/base.py | 4 ++--
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 0667d59..88e924b 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -131,11 +131,7 @@ class Circuit:
             mapped_qubits = [qubit_map[qb] for qb in op.qubits or []]
 
             # NOTE: avoid circular imports; needed to check operation type
-            from dwave.gate.operations.base import (
-                ControlledOperation,
-                Measurement,
-                ParametricOperation,
-            )
+            from dwave.gate.operations.base import Measurement, ParametricOperation
 
             if isinstance(op, Measurement):
                 if bits:
@@ -150,8 +146,6 @@ class Circuit:
 
             if isinstance(op, ParametricOperation):
                 op.__class__(op.parameters, qubits=mapped_qubits)
-            elif isinstance(op, ControlledOperation):
-                op.__class__(*mapped_qubits)
             else:
                 op.__class__(qubits=mapped_qubits)
 
diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 73f868e..52f632d 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -478,8 +478,8 @@ class ControlledOperation(Operation):
     ) -> None:
         qubits = kwargs.pop("qubits") if "qubits" in kwargs else False
         if qubits:
-            self._control = qubits[: self._num_control]
-            self._target = qubits[self._num_control :]
+            self._control = tuple(qubits[: self._num_control])
+            self._target = tuple(qubits[self._num_control :])
         else:
             if control:
                 self._control = tuple([control] if isinstance(control, Qubit) else control)
-- 
2.43.0


From 5ebeb2e2c8ef707ed7db87afdbe2230c03b6fb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:46 +0000
Subject: [PATCH 08/71] fix: apply circuits containing measurements without
 bits when bits are passed

---
 dwave/gate/circuit.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 88e924b..45aff93 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -134,20 +134,19 @@ class Circuit:
             from dwave.gate.operations.base import Measurement, ParametricOperation
 
             if isinstance(op, Measurement):
-                if bits:
-                    mapped_bits = [bit_map[qb] for qb in op.bits or []]
-                    op.__class__(qubits=mapped_qubits) | mapped_bits
-                    continue
-                else:
+                if not bits:
                     warnings.warn(
                         "Measurements not stored in circuit bits. "
                         "Must pass bits to circuit call."
                     )
 
             if isinstance(op, ParametricOperation):
-                op.__class__(op.parameters, qubits=mapped_qubits)
+                mapped_op = op.__class__(op.parameters, qubits=mapped_qubits)
             else:
-                op.__class__(qubits=mapped_qubits)
+                mapped_op = op.__class__(qubits=mapped_qubits)
+
+            if bits and isinstance(op, Measurement) and op.bits:
+                mapped_op | [bit_map[b] for b in op.bits]
 
     @property
     def qregisters(self) -> Mapping[Hashable, QuantumRegister]:
-- 
2.43.0


From 8d836bf9a533694ae47a955bf5f0912d8795e1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:52 +0000
Subject: [PATCH 09/71] fix: keep conditions of operations when applying a
 circuit

Conditional operations were applied unconditionally; their conditions are
now mapped to the passed bits, as is done for measurements.
---
 dwave/gate/circuit.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 45aff93..6c9941a 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -148,6 +148,15 @@ class Circuit:
             if bits and isinstance(op, Measurement) and op.bits:
                 mapped_op | [bit_map[b] for b in op.bits]
 
+            if op._cond:
+                if bits:
+                    mapped_op.conditional([bit_map.get(b, b) for b in op._cond])
+                else:
+                    warnings.warn(
+                        "Operations not conditioned on circuit bits. "
+                        "Must pass bits to circuit call."
+                    )
+
     @property
     def qregisters(self) -> Mapping[Hashable, QuantumRegister]:
         """Quantum registers of the circuit.
-- 
2.43.0


From e5a61a02025469b363a099b2c9405993dd38b4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:28 +0000
Subject: [PATCH 10/71] fix: keep parameter values when applying a parametric
 circuit in another

Within a parametric context (or a frozen one) the applied operations kept the
variables of the applied circuit, which are reset on context exit.
---
 dwave/gate/circuit.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 6c9941a..336478b 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -40,7 +40,7 @@ from typing import TYPE_CHECKING, Callable, ContextManager, NamedTuple, Optional
 import numpy as np
 
 from dwave.gate.mixedproperty import mixedproperty
-from dwave.gate.primitives import Bit, Qubit
+from dwave.gate.primitives import Bit, Qubit, Variable
 from dwave.gate.registers.registers import (
     ClassicalRegister,
     QuantumRegister,
@@ -141,7 +141,12 @@ class Circuit:
                     )
 
             if isinstance(op, ParametricOperation):
-                mapped_op = op.__class__(op.parameters, qubits=mapped_qubits)
+                # resolve variables here; their values are reset on context exit
+                parameters = [
+                    p.value if isinstance(p, Variable) and p.value is not None else p
+                    for p in op.parameters
+                ]
+                mapped_op = op.__class__(parameters, qubits=mapped_qubits)
             else:
                 mapped_op = op.__class__(qubits=mapped_qubits)
 
-- 
2.43.0


From afebbb8e51e1c103aea6eef48d36c9e0546c395e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 11/71] fix: only delay resetting variables when a context is
 active

Calling a parametric circuit outside of a context left its reset function
behind, clearing the variables on the exit of an unrelated context.
---
 dwave/gate/circuit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 336478b..084efc9 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -722,12 +722,12 @@ class ParametricCircuit(Circuit):
             CircuitError: If called outside of an active context.
         """
         if CircuitContext.active_context:
+            # delay reset variables function call to on context exit
+            CircuitContext.on_exit_functions.append(self.reset_variables)
+
             for i, var in enumerate(self._parameter_register):
                 var.set(parameters[i])
 
-        # delay reset variables function call to on context exit
-        CircuitContext.on_exit_functions.append(self.reset_variables)
-
         return super().__call__(qubits=qubits, bits=bits)
 
     def unlock(self) -> None:
-- 
2.43.0


From 88db3724e7f9a012489186abe8e79e14e600b794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:40 +0000
Subject: [PATCH 12/71] fix: keep qubits and bits of operations when evaluating
 a circuit copy

The operations were copied a second time, so that their qubits and bits were
no longer the ones in the registers of the evaluated circuit.
---
 dwave/gate/circuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 084efc9..a62904f 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -757,7 +757,8 @@ class ParametricCircuit(Circuit):
         for i, op in enumerate(circuit.circuit):
             eval = getattr(op, "eval", None)
             params = parameters[i] if parameters else None
-            circuit.circuit[i] = eval(params, inplace) if eval else op
+            # already operating on a copy of the circuit if not in-place
+            circuit.circuit[i] = eval(params, inplace=True) if eval else op
 
         return circuit
 
-- 
2.43.0


From 7893541c976ab8d8265105bf0515c91e66efd3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:46 +0000
Subject: [PATCH 13/71] fix: stay frozen when leaving a nested frozen context

---
 dwave/gate/circuit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index a62904f..6622a09 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -861,10 +861,12 @@ class CircuitContext:
             def __enter__(self) -> None:
                 if cls.active_context is None:
                     raise CircuitError("Can only freeze active context. No active context found.")
-                cls.active_context._frozen = True
+                self._context = cls.active_context
+                self._was_frozen = self._context._frozen
+                self._context._frozen = True
 
             def __exit__(self, _, __, ___) -> None:
-                cls.active_context._frozen = False
+                self._context._frozen = self._was_frozen
 
         return FrozenContext()
 
-- 
2.43.0


From 0103ce61f4036833e85f4bf7208d8e4b59b07b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:06 +0000
Subject: [PATCH 14/71] fix: slice registers with negative and out-of-range
 indices

---
 dwave/gate/registers/cyregister.pyx | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/dwave/gate/registers/cyregister.pyx b/dwave/gate/registers/cyregister.pyx
index c737823..7488bd3 100644
--- a/dwave/gate/registers/cyregister.pyx
+++ b/dwave/gate/registers/cyregister.pyx
@@ -63,13 +63,9 @@ cdef class cyRegister:
         if not isinstance(idx, slice):
             raise TypeError(f"indices must be integers or slices, not {type(idx)}")
 
-        cdef Py_ssize_t start = 0 if idx.start is None else idx.start
-        cdef Py_ssize_t stop = self.size() if idx.stop is None else idx.stop
-        cdef Py_ssize_t step = 1 if idx.step is None else idx.step
-
         cdef Py_ssize_t i
         cdef cyRegister new = type(self)()
-        for i in range(start, stop, step):
+        for i in range(*idx.indices(self.size())):
             new._append(self.at(i), permissive=False)
         return new
 
-- 
2.43.0


From f82d118ea2c0d1cefb9870ae69d7b2bd53bafc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:12 +0000
Subject: [PATCH 15/71] fix: define the frozen attribute on copied and combined
 registers

---
 dwave/gate/registers/registers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/registers/registers.py b/dwave/gate/registers/registers.py
index 431a100..36d0a86 100644
--- a/dwave/gate/registers/registers.py
+++ b/dwave/gate/registers/registers.py
@@ -45,6 +45,9 @@ class Register(cyRegister, AbstractSet[Data], Sequence[Data]):
         data: Sequence of hashable data items (defaults to empty).
     """
 
+    # default for copies, which are created without calling '__init__'
+    _frozen = False
+
     def __init__(self, data: Optional[Sequence[Data]] = None) -> None:
         self._frozen = False
         super().__init__(data or [])
-- 
2.43.0


From c4636b3509689ed323aeb9243e5aec18a76456c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:29 +0000
Subject: [PATCH 16/71] fix: look up non-finite and complex numbers in
 registers

---
 dwave/gate/registers/cyregister.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/registers/cyregister.pyx b/dwave/gate/registers/cyregister.pyx
index 7488bd3..78a32ed 100644
--- a/dwave/gate/registers/cyregister.pyx
+++ b/dwave/gate/registers/cyregister.pyx
@@ -287,8 +287,11 @@ cdef class cyRegister:
 
         # handle other numeric types
         if isinstance(v, Number):
-            v_int = int(v)  # assume this is safe because it's a number
-            if v_int == v:
+            try:
+                v_int = int(v)
+            except (OverflowError, TypeError, ValueError):
+                v_int = None  # infinite, not-a-number or complex
+            if v_int is not None and v_int == v:
                 return self._count_int(v_int)  # it's an integer afterall!
 
         try:
-- 
2.43.0


From 797220c3fc6edf48d5729946dec06dee9298da30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:06 +0000
Subject: [PATCH 17/71] fix: only report the latest measured qubits when
 simulating again

---
 dwave/gate/simulator/simulator.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 9dd3f66..d4ef46c 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -207,6 +207,7 @@ def sample_qubit(
 
 def _measure(op, state, targets, rng):
     op._measured_state = state.copy()
+    op._measured_qubit_indices = []
 
     for idx, t in enumerate(targets):
         m = sample_qubit(t, state, rng)
-- 
2.43.0


From c839023d61a6095266e37a36f730c6943f999cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:23 +0000
Subject: [PATCH 18/71] fix: respect little_endian in density matrix
 simulations

---
 dwave/gate/simulator/simulator.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index d4ef46c..3ea2b3f 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -161,7 +161,7 @@ def simulate(
     rng = np.random.default_rng(rng_seed)
 
     if mixed_state:
-        state = _simulate_circuit_density_matrix(circuit, rng)
+        state = _simulate_circuit_density_matrix(circuit, rng, little_endian)
     else:
         state = np.zeros(1 << num_qubits, dtype=np.complex128)
         state[0] = 1
@@ -248,4 +248,8 @@ def _simulate_circuit_density_matrix(
             )
     density_matrix = state.reshape((1 << num_qubits, 1 << num_qubits))
 
+    if little_endian:
+        # the virtual (conjugated) qubits are the most significant ones, i.e., the rows
+        density_matrix = np.ascontiguousarray(density_matrix.T)
+
     return density_matrix
-- 
2.43.0


From 0426ecd2cb00bd4c694400f148824109b73cd688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:42 +0000
Subject: [PATCH 19/71] fix: raise the intended error when simulating unknown
 multi-qubit operations

---
 dwave/gate/simulator/simulator.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 3ea2b3f..6274ee8 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -120,7 +120,7 @@ def apply_instruction(
         # apply single qubit gate
         if op.num_qubits != 1:
             raise ValueError(
-                f"simulator encountered unknown multi-qubit operation: {op.label}"
+                f"simulator encountered unknown multi-qubit operation: {op.name}"
             )
         gate = op.matrix
         if conjugate_gate:
-- 
2.43.0


From 203b7b1e104e529b7fb3349eea1b504bc264114d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:00 +0000
Subject: [PATCH 20/71] fix: simulate operations with real or non-contiguous
 matrices

The kernels require a contiguous complex buffer; transposed matrices were
silently misread and real ones were rejected.
---
 dwave/gate/simulator/simulator.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 6274ee8..5f7231d 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -95,6 +95,7 @@ def apply_instruction(
             gate = op.target_operation(op.parameters).matrix
         else:
             gate = op.target_operation.matrix
+        gate = np.array(gate, dtype=np.complex128, order="C")
         assert gate.shape == (2, 2), (op, gate)
         if conjugate_gate:
             gate = np.ascontiguousarray(gate.conjugate())
@@ -122,7 +123,7 @@ def apply_instruction(
             raise ValueError(
                 f"simulator encountered unknown multi-qubit operation: {op.name}"
             )
-        gate = op.matrix
+        gate = np.array(op.matrix, dtype=np.complex128, order="C")
         if conjugate_gate:
             gate = np.ascontiguousarray(gate.conjugate())
 
-- 
2.43.0


From 44ecba972a8a088f14a1c40099314ecf663cb8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 21/71] fix: do not return outdated unitaries for modified
 circuits

The unitary was cached per circuit object, although circuits are mutable (and
so is the returned array).
---
 dwave/gate/tools/unitary.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dwave/gate/tools/unitary.py b/dwave/gate/tools/unitary.py
index 183b8f7..6ea1481 100644
--- a/dwave/gate/tools/unitary.py
+++ b/dwave/gate/tools/unitary.py
@@ -21,7 +21,6 @@ __all__ = [
 
 import itertools
 from collections.abc import Sequence
-from functools import lru_cache
 from typing import TYPE_CHECKING, Optional, Union
 
 import numpy as np
@@ -40,7 +39,6 @@ if TYPE_CHECKING:
 # TODO: exchange for something better; only here for testing matrix creation
 # for custom operations; controlled operations only works with single
 # control and target; no support for any other multi-qubit gates
-@lru_cache(maxsize=128)
 def build_unitary(circuit) -> NDArray:
     """Builds the circuit unitary by multiplying together the operation matrices.
 
-- 
2.43.0


From 24bb12cbeaa30451d4fd9863d5e96fb343dae8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:00 +0000
Subject: [PATCH 22/71] fix: matrices of controlled operations in a context
 with other qubits

The matrix only spans the qubits of the operation, so that circuit indices
could not be used directly; class access in a context failed as well.
---
 dwave/gate/operations/base.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 52f632d..4f65fff 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -551,16 +551,16 @@ class ControlledOperation(Operation):
         num_qubits = getattr(cls, "num_qubits", 2)
         num_control = getattr(cls, "num_control", 1)
 
-        if CircuitContext.active_context and self.control and self.target:
-            control_idx = [
-                CircuitContext.active_context.circuit.qubits.index(c) for c in self.control
-            ]
-            target_idx = [
-                CircuitContext.active_context.circuit.qubits.index(t) for t in self.target
-            ]
-        else:
-            control_idx = list(range(num_control))
-            target_idx = list(range(num_control, num_qubits))
+        control_idx = list(range(num_control))
+        target_idx = list(range(num_control, num_qubits))
+
+        if CircuitContext.active_context and self is not None and self.control and self.target:
+            # order according to (but don't span over) the qubits in the active circuit
+            circuit_qubits = CircuitContext.active_context.circuit.qubits
+            if all(q in circuit_qubits for q in self.qubits):
+                idx = [circuit_qubits.index(q) for q in self.qubits]
+                rank = [sorted(idx).index(i) for i in idx]
+                control_idx, target_idx = rank[:num_control], rank[num_control:]
 
         matrix = build_controlled_unitary(
             control_idx, target_idx, target_unitary, num_qubits=num_qubits
-- 
2.43.0


From 70fee30b26b436348e0374b29eb96965e9dfb539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 23/71] fix: evaluate parametric controlled operations while a
 context is active

The target operation was created without qubits, which raises an error inside
any active context, e.g., when simulating another circuit.
---
 dwave/gate/operations/base.py      | 11 ++++++++++-
 dwave/gate/simulator/simulator.pyx |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 4f65fff..493c92a 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -639,10 +639,19 @@ class ParametricControlledOperation(ControlledOperation, ParametricOperation):
 
         return self.__class__(self.parameters, control, target)  # type: ignore
 
+    def _get_target_matrix(self) -> NDArray:
+        """The matrix representation of the target operation with the current parameters."""
+        if CircuitContext.active_context is None:
+            return self.target_operation(self.parameters).matrix
+
+        # qubits are required, but the target operation must not be appended to the circuit
+        with CircuitContext.freeze:
+            return self.target_operation(self.parameters, self.target).matrix
+
     @mixedproperty(self_required=True)
     def matrix(cls, self) -> NDArray:
         """The matrix representation of the parametric controlled operation."""
-        self._target_matrix = cls.target_operation(self.parameters).matrix
+        self._target_matrix = self._get_target_matrix()
 
         # signature of super required for correct self to be passed along (do not remove)
         # if removed, 'matrix' attribute will crash due to '_target_matrix' not found
diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 5f7231d..b1a50cb 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -92,7 +92,7 @@ def apply_instruction(
     elif isinstance(op, ops.ControlledOperation):
         # should be single qubit gate with controls
         if isinstance(op, ops.ParametricOperation):
-            gate = op.target_operation(op.parameters).matrix
+            gate = op._get_target_matrix()
         else:
             gate = op.target_operation.matrix
         gate = np.array(gate, dtype=np.complex128, order="C")
-- 
2.43.0


From 08cbea300901b1fd57cb21612264f2bc21113a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:27 +0000
Subject: [PATCH 24/71] fix: build unitaries of circuits with parametric
 controlled operations

---
 dwave/gate/tools/unitary.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/tools/unitary.py b/dwave/gate/tools/unitary.py
index 6ea1481..98be6fc 100644
--- a/dwave/gate/tools/unitary.py
+++ b/dwave/gate/tools/unitary.py
@@ -100,8 +100,13 @@ def _apply_controlled_gate(state: NDArray, op: ControlledOperation, qubits) -> N
     """
     control_idx = [qubits.index(c) for c in op.control or []]
     target_idx = [qubits.index(t) for t in op.target or []]
+    if hasattr(op, "parameters"):
+        target_matrix = op._get_target_matrix()
+    else:
+        target_matrix = op.target_operation.matrix
+
     controlled_unitary = build_controlled_unitary(
-        control_idx, target_idx, op.target_operation.matrix, len(qubits)
+        control_idx, target_idx, target_matrix, len(qubits)
     )
     return controlled_unitary @ state
 
-- 
2.43.0


From ac8808d02dbc1e1317ee5b9117477a856298b158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:31 +0000
Subject: [PATCH 25/71] fix: match parameters of custom operations with the
 circuit variables

Parameters were consumed in order of occurrence, failing or mixing them up if
a variable is used repeatedly or out of order.
---
 dwave/gate/operations/base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 493c92a..b0de4ac 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -133,14 +133,13 @@ def create_operation(circuit, name: Optional[str] = None) -> Type[CustomOperatio
             """
             circuit_copy = copy.deepcopy(circuit)
             if circuit.parametric:
-                parameters = self.parameters.copy()
+                parameters = dict(zip(circuit_copy._parameter_register, self.parameters))
 
-                for i, op in enumerate(circuit_copy.circuit):
+                for op in circuit_copy.circuit:
                     if isinstance(op, ParametricOperation):
                         for j, param in enumerate(op.parameters):
                             if isinstance(param, Variable):
-                                circuit_copy.circuit[i].parameters[j] = parameters.pop(0)  # type: ignore
-                            self._matrix
+                                op.parameters[j] = parameters[param]  # type: ignore
 
             return build_unitary(circuit_copy)
 
-- 
2.43.0


From d58bbd860590547aaabecb0e37c598d81a5db3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:37 +0000
Subject: [PATCH 26/71] fix: compare parametric with non-parametric operations

---
 dwave/gate/operations/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index b0de4ac..8a7e4de 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -370,7 +370,7 @@ class ParametricOperation(Operation):
 
     def __eq__(self, op: ParametricOperation) -> bool:
         """Returns whether two operations are considered equal."""
-        param_eq = op.parameters == self.parameters
+        param_eq = getattr(op, "parameters", None) == self.parameters
         return param_eq and super().__eq__(op)
 
     @property
-- 
2.43.0


From 39b74353c64029db5048dd32b60b1384112f52bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:14 +0000
Subject: [PATCH 27/71] fix: always check the number of qubits of controlled
 operations

The check was skipped until the num_qubits class attribute had been accessed.
---
 dwave/gate/operations/base.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 8a7e4de..668cc7b 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -211,9 +211,11 @@ class Operation(metaclass=ABCLockedAttr):
         if isinstance(qubits, Qubit):
             qubits = [qubits]
 
-        if cls._num_qubits is not None and len(qubits) != cls.num_qubits:
+        # 'num_qubits' is not available for operations supporting an arbitrary number of qubits
+        num_qubits = getattr(cls, "num_qubits", None)
+        if num_qubits is not None and len(qubits) != num_qubits:
             raise ValueError(
-                f"Operation '{cls.name}' requires " f"{cls.num_qubits} qubits, got {len(qubits)}."
+                f"Operation '{cls.name}' requires " f"{num_qubits} qubits, got {len(qubits)}."
             )
 
         # cast to tuple for convention
@@ -524,8 +526,8 @@ class ControlledOperation(Operation):
     @mixedproperty
     def num_qubits(cls, self) -> int:
         """Number of qubits that the operation supports."""
-        if not cls._num_qubits and cls.num_control and cls.num_target:
-            cls._num_qubits = cls.num_control + cls.num_target
+        if cls.num_control and cls.num_target:
+            return cls.num_control + cls.num_target
 
         if self is not None:
             return super(ControlledOperation, self).num_qubits
-- 
2.43.0


From b53322cf09a861f7052ffd7b1c06a2a6da4bd2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 28/71] fix: update control and target when setting qubits of
 controlled operations

---
 dwave/gate/operations/base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 668cc7b..161a6fb 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -568,6 +568,15 @@ class ControlledOperation(Operation):
         )
         return matrix
 
+    @Operation.qubits.setter
+    def qubits(self, qubits: Sequence[Qubit]) -> None:
+        """Set the qubits, i.e., the controls followed by the targets."""
+        Operation.qubits.fset(self, qubits)
+
+        num_control = self.num_control or self._num_control
+        self._control = self._qubits[:num_control]
+        self._target = self._qubits[num_control:]
+
     @property
     def control(self) -> Optional[tuple[Qubit]]:
         """Control qubit(s)."""
-- 
2.43.0


From 0625aab00cc2316c43ca9749bc64a947c4c9a541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 29/71] fix: use circuit-wide qubit and bit indices when
 compiling to QIR

Indices within the containing register were used, mixing up qubits and bits of
circuits with several registers.
---
 dwave/gate/qir/compiler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index c98a62b..0cf6f06 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -365,8 +365,8 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
             block = "measurements"
 
             for qb, b in zip(op.qubits, op.bits):
-                _, qubit_idx = circuit.find_qubit(qb)
-                _, bit_idx = circuit.find_bit(b)
+                qubit_idx = circuit.qubits.index(qb)
+                bit_idx = circuit.bits.index(b)
                 args = (module.qubits[qubit_idx], module.results[bit_idx])
 
                 measurement_instruction = Instruction(InstrType.MEASUREMENT, pyqir_op, args)
@@ -386,7 +386,7 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
                 args.extend(op.parameters)
 
             for qb in op.qubits:
-                _, qubit_idx = circuit.find_qubit(qb)
+                qubit_idx = circuit.qubits.index(qb)
                 args.append(module.qubits[qubit_idx])
 
             if type_ is InstrType.EXTERNAL:
-- 
2.43.0


From 5fb76b86a29e0a02dd08b24b39a12e6f0c5b652d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 30/71] fix: declare external QIR functions once

Further declarations of the same function are renamed by LLVM and thus call
non-existing functions.
---
 dwave/gate/qir/compiler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 0cf6f06..8b2fc19 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -351,7 +351,11 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
     block = "body"
     for op in circuit.circuit:
         type_, pyqir_op = Operations.to_qir.get(op.__class__.name, (None, None))
-        if add_external and type_ is InstrType.EXTERNAL:
+        if (
+            add_external
+            and type_ is InstrType.EXTERNAL
+            and pyqir_op not in module._external_functions
+        ):
             qubit_type = module.Types.QUBIT
             param_type = module.Types.DOUBLE
 
-- 
2.43.0


From e688ba05f553d09fe1609def51c51251eb21097f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:06 +0000
Subject: [PATCH 31/71] fix: compile external QIR functions with parameters

---
 dwave/gate/qir/compiler.py     | 2 +-
 dwave/gate/qir/instructions.py | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 8b2fc19..8318dc8 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -360,7 +360,7 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
             param_type = module.Types.DOUBLE
 
             num_parameters = getattr(op, "num_parameters", 0)
-            parameter_types = [qubit_type] * op.num_qubits + [param_type] * num_parameters
+            parameter_types = [param_type] * num_parameters + [qubit_type] * op.num_qubits
 
             module.add_external_function(pyqir_op, parameter_types=parameter_types)
 
diff --git a/dwave/gate/qir/instructions.py b/dwave/gate/qir/instructions.py
index 143edf9..a6b37b5 100644
--- a/dwave/gate/qir/instructions.py
+++ b/dwave/gate/qir/instructions.py
@@ -182,7 +182,12 @@ class Instruction:
         Args:
             builder: PyQIR module builder.
         """
-        builder.call(self._external, self.args)
+        # numbers must be cast to constants of the declared type
+        args = [
+            arg if isinstance(arg, pyqir.Constant) else pyqir.const(param.type, float(arg))
+            for arg, param in zip(self.args, self._external.params)
+        ]
+        builder.call(self._external, args)
 
     def __eq__(self, value: object) -> bool:
         """Whether two instructions are considered equal.
-- 
2.43.0


From 0319073a4941a397f395228952511729f8dcc2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 32/71] fix: skip identity operations when compiling to QIR

---
 dwave/gate/qir/compiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 8318dc8..064693b 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -365,6 +365,9 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
             module.add_external_function(pyqir_op, parameter_types=parameter_types)
 
         args = []
+        if type_ is InstrType.SKIP:
+            continue
+
         if type_ is InstrType.MEASUREMENT:
             block = "measurements"
 
-- 
2.43.0


From fb2e27534b55693741e06d927e6346e4478e00eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:00 +0000
Subject: [PATCH 33/71] fix: load QIR operations with several parameters

---
 dwave/gate/qir/loader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/qir/loader.py b/dwave/gate/qir/loader.py
index 3e84ab0..7342692 100644
--- a/dwave/gate/qir/loader.py
+++ b/dwave/gate/qir/loader.py
@@ -124,7 +124,11 @@ def _module_to_circuit(module: Module, circuit: Optional[Circuit] = None) -> Cir
 
                     circuit.unlock()
                     with circuit.context as reg:
-                        getattr(ops, op_name)(*params, qubits=[reg.q[qubit] for qubit in qubits])
+                        op_qubits = [reg.q[qubit] for qubit in qubits]
+                        if params:
+                            getattr(ops, op_name)(params, qubits=op_qubits)
+                        else:
+                            getattr(ops, op_name)(qubits=op_qubits)
 
     # finally, add measurements (if any) to circuit
     if meas_qubits:
-- 
2.43.0


From 6228196254853849b1c1c1f424e0bb6964fd9f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:07 +0000
Subject: [PATCH 34/71] fix: load QIR measurements of qubits without operations

Missing qubits were only added for gates; they are also added last now, since
adding them to the first register moves the qubits of further registers.
---
 dwave/gate/qir/loader.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/dwave/gate/qir/loader.py b/dwave/gate/qir/loader.py
index 7342692..d6e8111 100644
--- a/dwave/gate/qir/loader.py
+++ b/dwave/gate/qir/loader.py
@@ -119,8 +119,7 @@ def _module_to_circuit(module: Module, circuit: Optional[Circuit] = None) -> Cir
                         # delay adding until all measurements are collected
                         continue
 
-                    for _ in range(circuit.num_qubits, max(qubits or [0]) + 1):
-                        circuit.add_qubit()
+                    _add_missing(circuit, num_qubits=max(qubits or [0]) + 1)
 
                     circuit.unlock()
                     with circuit.context as reg:
@@ -137,6 +136,23 @@ def _module_to_circuit(module: Module, circuit: Optional[Circuit] = None) -> Cir
     return circuit
 
 
+def _add_missing(circuit: Circuit, num_qubits: int = 0, num_bits: int = 0) -> None:
+    """Add missing qubits and bits to the circuit.
+
+    Appended to the last registers to not move any qubits or bits already in the circuit.
+
+    Args:
+        circuit: The circuit to add the qubits and bits to.
+        num_qubits: The minimum number of qubits that the circuit should contain.
+        num_bits: The minimum number of bits that the circuit should contain.
+    """
+    for _ in range(circuit.num_qubits, num_qubits):
+        circuit.add_qubit(qreg_label=next(reversed(circuit.qregisters), None))
+
+    for _ in range(circuit.num_bits, num_bits):
+        circuit.add_bit(creg_label=next(reversed(circuit.cregisters), None))
+
+
 def _add_measurements(circuit: Circuit, qubits: Sequence[int], bits: Sequence[int]) -> None:
     """Add measurements to circuit.
 
@@ -145,8 +161,7 @@ def _add_measurements(circuit: Circuit, qubits: Sequence[int], bits: Sequence[in
         qubits: The qubits that are being measured.
         bits: The bits in which the measurement values are stored.
     """
-    for _ in range(circuit.num_bits, max(bits or [0]) + 1):
-        circuit.add_bit()
+    _add_missing(circuit, num_qubits=max(qubits) + 1, num_bits=max(bits or [0]) + 1)
 
     circuit.unlock()
     with circuit.context as reg:
-- 
2.43.0


From be37f34617d6be75801e7885d5c686b5d8eda6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:12 +0000
Subject: [PATCH 35/71] fix: load unused QIR qubits and results

---
 dwave/gate/qir/loader.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/qir/loader.py b/dwave/gate/qir/loader.py
index d6e8111..ec8c3a4 100644
--- a/dwave/gate/qir/loader.py
+++ b/dwave/gate/qir/loader.py
@@ -27,7 +27,14 @@ from collections.abc import Sequence
 from typing import Optional
 
 import pyqir
-from pyqir import Context, Module, Opcode
+from pyqir import (
+    Context,
+    Module,
+    Opcode,
+    is_entry_point,
+    required_num_qubits,
+    required_num_results,
+)
 
 import dwave.gate.operations as ops
 from dwave.gate import Circuit
@@ -90,6 +97,10 @@ def _module_to_circuit(module: Module, circuit: Optional[Circuit] = None) -> Cir
     meas_bits = []
 
     for func in module.functions:
+        if is_entry_point(func):
+            # also add qubits and bits that are not used by any operation
+            _add_missing(circuit, required_num_qubits(func) or 0, required_num_results(func) or 0)
+
         ret_set = False
         for block in func.basic_blocks:
             # if return has been set, then ignore rest of blocks
-- 
2.43.0


From b5db608b919b0bce85308396acb3b7e38fc53664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 36/71] fix: keep the order of operations and measurements when
 loading QIR

---
 dwave/gate/qir/loader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dwave/gate/qir/loader.py b/dwave/gate/qir/loader.py
index ec8c3a4..f7af7b0 100644
--- a/dwave/gate/qir/loader.py
+++ b/dwave/gate/qir/loader.py
@@ -130,6 +130,11 @@ def _module_to_circuit(module: Module, circuit: Optional[Circuit] = None) -> Cir
                         # delay adding until all measurements are collected
                         continue
 
+                    # add any measurements preceding the operation
+                    if meas_qubits:
+                        _add_measurements(circuit, meas_qubits, meas_bits)
+                        meas_qubits, meas_bits = [], []
+
                     _add_missing(circuit, num_qubits=max(qubits or [0]) + 1)
 
                     circuit.unlock()
-- 
2.43.0


From 2ba3f87884825ec06cb70befd35ff0eb3ab1836c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:26 +0000
Subject: [PATCH 37/71] fix: keep external instructions when recompiling a QIR
 module

---
 dwave/gate/qir/compiler.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 064693b..a68a246 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -303,7 +303,6 @@ class BaseModule:
             rm_instructions: Whether to also reset all instructions.
         """
         self._module = pyqir.qir_module(self.context, self.name, **self._module_kwargs)
-        self._remove_external_instructions()
         self._return.erase()
 
         if rm_instructions:
@@ -324,17 +323,15 @@ class BaseModule:
                     function_type, Linkage.EXTERNAL, exfunc.name, self._module
                 )
 
+            # exchange the (old) external functions in the instructions
+            for instructions in self._instructions.values():
+                for i, instr in enumerate(instructions):
+                    if instr.type is InstrType.EXTERNAL:
+                        instructions[i] = self.get_external_instruction(instr.name, instr.args)
+
         self._is_compiled = False
         self._qir = self._bitcode = None
 
-    def _remove_external_instructions(self) -> None:
-        """Removes all external functions from the instructions."""
-        for block, instructions in self._instructions.items():
-            instr_len = len(instructions)
-            for i, instr in enumerate(reversed(instructions)):
-                if instr.type is InstrType.EXTERNAL:
-                    del self._instructions[block][instr_len - i - 1]
-
 
 def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
     """Create a QIR module out of a circuit.
-- 
2.43.0


From 053f5c1a81f0796f869ac68d2746b82de0c34ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 38/71] fix: only add OpenQASM gate definitions once

---
 dwave/gate/circuit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 6622a09..e96c3b0 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -645,9 +645,11 @@ class Circuit:
                 label = f"q{label}" if len(self.qregisters) != 1 else "q"
             mapping[qb] = label, idx
 
+        declared = set()
         for op in self.circuit:
-            if gate_definitions and hasattr(op, "_qasm_decl"):
+            if gate_definitions and hasattr(op, "_qasm_decl") and op._qasm_decl not in declared:
                 header_str += "\n" + getattr(op, "_qasm_decl") + "\n"
+                declared.add(op._qasm_decl)
             qasm_str += op.to_qasm(mapping) + ";\n"
 
         return header_str.strip() + "\n\n" + qasm_str.strip()
-- 
2.43.0


From 0970a35ec1c406622a377172342e43959488951a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:52 +0000
Subject: [PATCH 39/71] fix: do not export conditional operations as
 unconditional ones

Neither exporter supports conditions, and silently dropped them.
---
 dwave/gate/circuit.py      | 4 ++++
 dwave/gate/qir/compiler.py | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index e96c3b0..6a09045 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -647,6 +647,10 @@ class Circuit:
 
         declared = set()
         for op in self.circuit:
+            if op._cond:
+                raise NotImplementedError(
+                    "Conditional operations do not support OpenQASM 2.0 transpilation"
+                )
             if gate_definitions and hasattr(op, "_qasm_decl") and op._qasm_decl not in declared:
                 header_str += "\n" + getattr(op, "_qasm_decl") + "\n"
                 declared.add(op._qasm_decl)
diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index a68a246..a5dd650 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -347,6 +347,9 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
 
     block = "body"
     for op in circuit.circuit:
+        if op._cond:
+            raise ValueError("Conditional operations are not supported when compiling to QIR.")
+
         type_, pyqir_op = Operations.to_qir.get(op.__class__.name, (None, None))
         if (
             add_external
-- 
2.43.0


From 1d4f45ecdea95110ddebe631c703740ebdc75ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:59 +0000
Subject: [PATCH 40/71] fix: search qubits and bits in registers with falsy
 labels

---
 dwave/gate/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 6a09045..9c8936d 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -498,7 +498,7 @@ class Circuit:
             Qubit: Qubit with the specified label. If there are several with the same name,
             only the first occuring qubit will be returned unless ``return_all`` is ``True``.
         """
-        if qreg_label:
+        if qreg_label is not None:
             qregisters = self.qregisters[qreg_label]
         else:
             qregisters = itertools.chain.from_iterable(self.qregisters.values())
@@ -554,7 +554,7 @@ class Circuit:
             Bit: Bit with the specified label. If there are several with the same name,
             only the first occuring bit will be returned unless ``return_all`` is ``True``.
         """
-        if creg_label:
+        if creg_label is not None:
             cregisters = self.cregisters[creg_label]
         else:
             cregisters = itertools.chain.from_iterable(self.cregisters.values())
-- 
2.43.0


From c72193c886ddd6897c797ad542d0aa6fca99f7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 41/71] fix: avoid default register labels that are already in
 use

---
 dwave/gate/circuit.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 9c8936d..d76ec98 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -442,7 +442,10 @@ class Circuit:
                 integer starting at 0).
         """
         if label is None:
-            label = f"qreg{len(self.qregisters)}"
+            i = len(self.qregisters)
+            while f"qreg{i}" in self.qregisters:
+                i += 1
+            label = f"qreg{i}"
 
         if label in self._qregisters:
             raise ValueError(f"Quantum register {label} already present in the circuit.")
@@ -464,7 +467,10 @@ class Circuit:
                 integer starting at 0).
         """
         if label is None:
-            label = f"creg{len(self.cregisters)}"
+            i = len(self.cregisters)
+            while f"creg{i}" in self.cregisters:
+                i += 1
+            label = f"creg{i}"
 
         if label in self._cregisters:
             raise ValueError(f"Classical register {label} already present in the circuit")
-- 
2.43.0


From 447ca6a65de399e5830d1af2d4e0a08ac8201b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:29 +0000
Subject: [PATCH 42/71] fix: do not add a register when refusing to add a qubit
 or bit

---
 dwave/gate/circuit.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index d76ec98..9695597 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -384,6 +384,11 @@ class Circuit:
         if qubit is not None and not isinstance(qubit, Qubit):
             raise TypeError(f"Can only add qubits to circuit. Got '{type(qubit).__name__}'.")
 
+        # NOTE: same qubit in different registers NOT allowed
+        if qubit in self.qubits:
+            label, _ = self.find_qubit(qubit, qreg_label=True)
+            raise ValueError(f"Qubit '{qubit}' already in use in quantum register '{label}'.")
+
         if qreg_label is not None:
             if qreg_label not in self.qregisters:
                 self.add_qregister(label=qreg_label)
@@ -392,10 +397,6 @@ class Circuit:
                 self.add_qregister()
             qreg_label = list(self.qregisters)[0]
 
-        # NOTE: same qubit in different registers NOT allowed
-        if qubit in self.qubits:
-            raise ValueError(f"Qubit '{qubit}' already in use in quantum register '{qreg_label}'.")
-
         self.qregisters[qreg_label].add(qubit or Qubit(str(self.num_qubits)))
 
         # remove cached 'qubits' attribute when updating 'qregisters';
@@ -414,6 +415,11 @@ class Circuit:
         if bit is not None and not isinstance(bit, Bit):
             raise TypeError(f"Can only add bits to circuit. Got '{type(bit).__name__}'.")
 
+        # NOTE: same bit in different registers NOT allowed
+        if self.bits and bit in self.bits:
+            label, _ = self.find_bit(bit, creg_label=True)
+            raise ValueError(f"Bit '{bit}' already in use in classical register '{label}'.")
+
         if creg_label is not None:
             if creg_label not in self.cregisters:
                 self.add_cregister(label=creg_label)
@@ -422,10 +428,6 @@ class Circuit:
                 self.add_cregister()
             creg_label = list(self.cregisters)[0]
 
-        # NOTE: same bit in different registers NOT allowed
-        if self.bits and bit in self.bits:
-            raise ValueError(f"Bit '{bit}' already in use in classical register '{creg_label}'.")
-
         self.cregisters[creg_label].add(Bit(str(self.num_bits)) if bit is None else bit)
 
         # remove cached 'bits' attribute when updating 'cregisters'
-- 
2.43.0


From e016588199e9fdee501d94cfa87cd0639d79d2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 43/71] fix: normalize density matrices by their trace

The Frobenius norm is 1 only for pure states, so that genuinely mixed states
were refused.
---
 dwave/gate/circuit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 9695597..64809d6 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -278,7 +278,8 @@ class Circuit:
             raise CircuitError("State already set. Use 'force=True' to force set new state.")
 
         if normalize:
-            state = state / np.linalg.norm(state)
+            norm = np.trace(state) if state.ndim == 2 else np.linalg.norm(state)
+            state = state / norm
 
         self._assert_state(state)
 
@@ -296,7 +297,8 @@ class Circuit:
         if state.shape != (size,) and state.shape != (size, size):
             raise ValueError(f"State has incorrect shape. Should have size {size}.")
 
-        if not np.isclose(np.linalg.norm(state), 1):
+        norm = np.trace(state) if state.ndim == 2 else np.linalg.norm(state)
+        if not np.isclose(norm, 1):
             raise ValueError("State is not normalized.")
 
     @property
-- 
2.43.0


From 4688596cb3f0b94a859364f5ac5b0652761cf480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 44/71] fix: remove the simulated state when resetting a
 circuit

---
 dwave/gate/circuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 64809d6..60e411c 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -360,6 +360,8 @@ class Circuit:
         """
         self._circuit.clear()
         self._circuit_context = None
+        self._state = None
+        self._density_matrix = None
         if not keep_registers:
             self._qregisters.clear()
             self._cregisters.clear()
-- 
2.43.0


From 3dd5d1f6754770f1738847a7b1dee33a626df3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 45/71] fix: accept a single qubit index when sampling
 measurements

As documented for the expectation value.
---
 dwave/gate/operations/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 161a6fb..a240291 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -743,6 +743,8 @@ class Measurement(Operation):
 
         if qubits is None:
             qubits = self._measured_qubit_indices
+        elif isinstance(qubits, int):
+            qubits = [qubits]
 
         num_qubits = len(self.state).bit_length() - 1
 
-- 
2.43.0


From b4094fac5a225355b71c0bb6ad78d8e1d0f3505f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 46/71] fix: block operations conditioned on bits without a
 value

---
 dwave/gate/operations/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index a240291..d6990cf 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -315,10 +315,10 @@ class Operation(metaclass=ABCLockedAttr):
 
         Note that this affects the operation only at runtime (e.g., in the simulator) and does not
         block the operation from being appended to the circuit. This happend when at least one
-        conditional bit is False.
+        conditional bit is False or has no value.
         """
         if self._cond:
-            return not all(self._cond)
+            return not all(bit.value for bit in self._cond)
         return False
 
     def to_qasm(self, *args, **kwargs):
-- 
2.43.0


From 7e51aeb7073c2e90b4cac411673752156d5c29a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:37 +0000
Subject: [PATCH 47/71] fix: clear previously measured bits when simulating
 again

---
 dwave/gate/simulator/simulator.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index b1a50cb..2a7b177 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -161,6 +161,12 @@ def simulate(
 
     rng = np.random.default_rng(rng_seed)
 
+    # values measured in previous simulations must not affect conditional operations
+    for op in circuit.circuit:
+        if isinstance(op, ops.Measurement):
+            for bit in op.bits or []:
+                bit.reset()
+
     if mixed_state:
         state = _simulate_circuit_density_matrix(circuit, rng, little_endian)
     else:
-- 
2.43.0


From 44ffda79892ecab9767ba54be83c7a7cc20fccba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:55 +0000
Subject: [PATCH 48/71] fix: refuse simulating operations with an unsupported
 number of controls

---
 dwave/gate/simulator/simulator.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 2a7b177..64c1a1a 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -117,6 +117,11 @@ def apply_instruction(
                 num_qubits, state, gate, target, control0, control1,
                 little_endian=little_endian,
             )
+
+        else:
+            raise ValueError(
+                f"simulator encountered operation with unsupported number of controls: {op.name}"
+            )
     else:
         # apply single qubit gate
         if op.num_qubits != 1:
-- 
2.43.0


From 464d4d85f8e30ac3df1cf28b2f515f920636fc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:00 +0000
Subject: [PATCH 49/71] fix: clear states recorded by skipped measurements when
 simulating again

---
 dwave/gate/simulator/simulator.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 64c1a1a..eb63ede 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -169,6 +169,8 @@ def simulate(
     # values measured in previous simulations must not affect conditional operations
     for op in circuit.circuit:
         if isinstance(op, ops.Measurement):
+            op._measured_state = None
+            op._measured_qubit_indices = []
             for bit in op.bits or []:
                 bit.reset()
 
-- 
2.43.0


From 2e2796d38ba402d009b5512bcacbf8d66055cdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 50/71] fix: keep bits and variables which are equal to their
 index in a register

---
 dwave/gate/registers/cyregister.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/registers/cyregister.pyx b/dwave/gate/registers/cyregister.pyx
index 78a32ed..56908a1 100644
--- a/dwave/gate/registers/cyregister.pyx
+++ b/dwave/gate/registers/cyregister.pyx
@@ -115,7 +115,8 @@ cdef class cyRegister:
 
         idx = self._stop
 
-        if idx != v:
+        # only numbers are stored implicitly; other items (e.g., bits) may equal their value
+        if not isinstance(v, Number) or idx != v:
             self._label_to_index[v] = idx
             self._index_to_label[idx] = v
 
@@ -183,7 +184,7 @@ cdef class cyRegister:
 
                 idx = self._label_to_index.pop(old, old)
 
-                if new != idx:
+                if not isinstance(new, Number) or new != idx:
                     self._label_to_index[new] = idx
                     self._index_to_label[idx] = new  # overwrites old idx
                 else:
-- 
2.43.0


From f47a0c9e07517d46e136ee615d89ac172bd1b9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 51/71] fix: allow arbitrarily large integers in registers

---
 dwave/gate/registers/cyregister.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/registers/cyregister.pyx b/dwave/gate/registers/cyregister.pyx
index 56908a1..d1e5fd4 100644
--- a/dwave/gate/registers/cyregister.pyx
+++ b/dwave/gate/registers/cyregister.pyx
@@ -268,7 +268,12 @@ cdef class cyRegister:
 
     cdef Py_ssize_t _count_int(self, object v) except -1:
         # only works when v is an int
-        cdef Py_ssize_t vi = v
+        cdef Py_ssize_t vi
+        try:
+            vi = v
+        except OverflowError:
+            # too large to be an index
+            return PyDict_Contains(self._label_to_index, v)
 
         if self._is_range():
             return 0 <= vi < self._stop
-- 
2.43.0


From 7ecb84927c8ec7d2f3c0986b198dfb08296c197e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:36 +0000
Subject: [PATCH 52/71] fix: relabel and remove register items next to bits
 with a value

---
 dwave/gate/registers/cyregister.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/registers/cyregister.pyx b/dwave/gate/registers/cyregister.pyx
index d1e5fd4..1d7a04e 100644
--- a/dwave/gate/registers/cyregister.pyx
+++ b/dwave/gate/registers/cyregister.pyx
@@ -179,7 +179,7 @@ cdef class cyRegister:
         """
         for submap in _iter_safe_relabels(mapping, self):
             for old, new in submap.items():
-                if old == new:
+                if old == new and hash(old) == hash(new):
                     continue
 
                 idx = self._label_to_index.pop(old, old)
@@ -415,7 +415,7 @@ def _resolve_label_conflict(mapping, existing, old_labels=None, new_labels=None)
     intermediate_to_new = {}
 
     for old, new in mapping.items():
-        if old == new:
+        if old == new and hash(old) == hash(new):
             # we can remove self-labels
             continue
 
-- 
2.43.0


From 23ea87ff7dbe8f7501ce6bd803e8cc8d30a4c103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 53/71] fix: grow parameter registers containing variables with
 default names, allow slicing

---
 dwave/gate/registers/registers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/registers/registers.py b/dwave/gate/registers/registers.py
index 36d0a86..7f84de4 100644
--- a/dwave/gate/registers/registers.py
+++ b/dwave/gate/registers/registers.py
@@ -208,6 +208,11 @@ class SelfIncrementingRegister(Register):
         Returns:
             Hashable: The parameter at the specified index.
         """
-        if index >= len(self.data) and not self.frozen:
-            self.add([Variable(str(i)) for i in range(len(self.data), index + 1)])
+        if not isinstance(index, slice) and index >= len(self.data) and not self.frozen:
+            name = len(self.data)
+            while len(self.data) <= index:
+                # skip names of variables that were added explicitly
+                if Variable(str(name)) not in self:
+                    self.add(Variable(str(name)))
+                name += 1
         return super().__getitem__(index)  # type: ignore
-- 
2.43.0


From 5c1faf4ebbb3186188cfd2f3df884db854e0c0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 54/71] fix: matrices of parametric controlled operations
 without qubits while a context is active

---
 dwave/gate/operations/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index d6990cf..8899882 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -655,8 +655,9 @@ class ParametricControlledOperation(ControlledOperation, ParametricOperation):
             return self.target_operation(self.parameters).matrix
 
         # qubits are required, but the target operation must not be appended to the circuit
+        target = self.target or [Qubit(i) for i in range(self.num_target)]
         with CircuitContext.freeze:
-            return self.target_operation(self.parameters, self.target).matrix
+            return self.target_operation(self.parameters, target).matrix
 
     @mixedproperty(self_required=True)
     def matrix(cls, self) -> NDArray:
-- 
2.43.0


From 19ada4154ef128488ca9f7cd5b87a1f4ab0324fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:19 +0000
Subject: [PATCH 55/71] fix: refuse negative qubit indices when building
 controlled unitaries

---
 dwave/gate/tools/unitary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/tools/unitary.py b/dwave/gate/tools/unitary.py
index 98be6fc..7e58af4 100644
--- a/dwave/gate/tools/unitary.py
+++ b/dwave/gate/tools/unitary.py
@@ -148,6 +148,9 @@ def build_controlled_unitary(
             f"to the largest qubit index {max_}."
         )
 
+    if min(itertools.chain.from_iterable((control, target))) < 0:
+        raise ValueError("Control qubits and target qubit cannot be negative.")
+
     # TODO: add support for multiple targets
     if len(target) != 1:
         raise NotImplementedError("Multiple target not currently supported.")
-- 
2.43.0


From 30e24f0618c98fc80be08662676696b2a6f64ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:30 +0000
Subject: [PATCH 56/71] fix: keep the parameters of custom operations when
 exporting to OpenQASM

---
 dwave/gate/operations/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 8899882..a3ef47c 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -118,6 +118,9 @@ def create_operation(circuit, name: Optional[str] = None) -> Type[CustomOperatio
             else:
                 new_name = self.__class__.__name__.lower()
 
+            if hasattr(self, "parameters"):
+                new_name += f"({', '.join(map(str, self.parameters))})"
+
             if self.qubits:
                 qubits = ", ".join(self._map_qubits(mapping))
                 return f"{new_name} {qubits}"
-- 
2.43.0


From 5f1a19ef7c76f9578ad4bf6da4811c849c97d329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:36 +0000
Subject: [PATCH 57/71] fix: refuse register labels that cannot be used in
 OpenQASM

---
 dwave/gate/circuit.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 60e411c..de58607 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -31,6 +31,7 @@ __all__ = [
 
 import copy
 import itertools
+import re
 import warnings
 from collections.abc import Hashable, Mapping, Sequence
 from functools import cached_property
@@ -628,6 +629,14 @@ class Circuit:
         reg_labels = kwargs.get("reg_labels", False)
         gate_definitions = kwargs.get("gate_definitions", False)
 
+        if reg_labels:
+            labels = [str(label) for label in (*self.qregisters, *self.cregisters)]
+            for label in labels:
+                if not re.fullmatch("[a-z][A-Za-z0-9_]*", label) or labels.count(label) > 1:
+                    raise ValueError(
+                        f"Register label '{label}' is not a unique and valid OpenQASM identifier."
+                    )
+
         header_str = 'OPENQASM 2.0;\ninclude "qelib1.inc";\n'
 
         qasm_str = ""
-- 
2.43.0


From 4668331d9069c2e9425be97a8ab60b25bca18403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:24 +0000
Subject: [PATCH 58/71] fix: OpenQASM definition of the controlled rotation

---
 dwave/gate/operations/operations.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/operations/operations.py b/dwave/gate/operations/operations.py
index beac11c..35e2a4f 100644
--- a/dwave/gate/operations/operations.py
+++ b/dwave/gate/operations/operations.py
@@ -699,7 +699,10 @@ class CRotation(ParametricControlledOperation):
 
     _target_operation: Type[Operation] = Rotation
 
-    _qasm_decl: str = "// gate definition not implemented"
+    _qasm_decl: str = (
+        "gate crot(beta, gamma, delta) a, b { rz((beta-delta)/2) b; cx a, b; "
+        "rz(-(beta+delta)/2) b; ry(-gamma/2) b; cx a, b; ry(gamma/2) b; rz(delta) b; }"
+    )
 
     def to_qasm(self, mapping: Optional[Mapping] = None) -> str:
         """Converts the Controlled-Rotation operation into an OpenQASM string.
-- 
2.43.0


From b6556d035b53f6227293973886dcaec0d0140257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:39 +0000
Subject: [PATCH 59/71] fix: update the number of qubits when setting qubits of
 measurements

---
 dwave/gate/operations/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index a3ef47c..4369565 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -311,6 +311,8 @@ class Operation(metaclass=ABCLockedAttr):
                 f"Changing qubits on which '{self}' is applied from {self._qubits} to {qubits}"
             )
         self._qubits = self._check_qubits(qubits)
+        # operations supporting an arbitrary number of qubits have as many as are set
+        self._num_qubits = len(self._qubits)
 
     @property
     def is_blocked(self) -> bool:
-- 
2.43.0


From c4e290f437f9f76230486869e24133a8cca6f2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 60/71] fix: check the number of control and target qubits
 separately

---
 dwave/gate/operations/base.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 4369565..22ceffa 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -503,6 +503,17 @@ class ControlledOperation(Operation):
             else:
                 qubits = None
 
+        if qubits:
+            qubits = self._check_qubits(qubits)
+
+        for name, given in (("control", self._control), ("target", self._target)):
+            required = getattr(self.__class__, f"_num_{name}")
+            if given and required is not None and len(given) != required:
+                raise ValueError(
+                    f"Operation '{self.__class__.__name__}' requires {required} {name} qubits, "
+                    f"got {len(given)}."
+                )
+
         self._num_control = len(self._control) if self._control else None
         self._num_target = len(self._target) if self._target else None
 
-- 
2.43.0


From 9e07e0929232fb8a4854107ddc441fe9b34df1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:20 +0000
Subject: [PATCH 61/71] fix: keep the parameters of operations which cannot be
 evaluated or appended

---
 dwave/gate/circuit.py         | 8 ++++----
 dwave/gate/operations/base.py | 7 +++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index de58607..a7b38eb 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -197,16 +197,16 @@ class Circuit:
                 "Circuit is locked and no more operations can be appended. To "
                 "unlock the circuit, call 'Circuit.unlock()' first."
             )
+        for q in operation.qubits or []:
+            if q not in self.qubits:
+                raise ValueError(f"Qubit '{q}' not in circuit.")
+
         if not self.parametric:
             # if a parametric operation is called within a non-parameteric circuit, all variables
             # should be replaced by their corresponding parameter values; eval does that
             eval = getattr(operation, "eval", None)
             operation = eval(inplace=True) if eval else operation
 
-        for q in operation.qubits or []:
-            if q not in self.qubits:
-                raise ValueError(f"Qubit '{q}' not in circuit.")
-
         self._circuit.append(operation)
 
     def extend(self, operations: Sequence[Operation]) -> None:
diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 22ceffa..05faa0d 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -403,15 +403,18 @@ class ParametricOperation(Operation):
         """
         op = self if inplace else copy.deepcopy(self)
 
+        values = list(op.parameters)
         for i, p in enumerate(op.parameters):
             if isinstance(p, Variable):
                 if parameters:
-                    op.parameters[i] = parameters[i]
+                    values[i] = parameters[i]
                 elif p.value is not None:
-                    op.parameters[i] = p.value
+                    values[i] = p.value
                 else:
                     raise ValueError("No available parameter to evaluate with.")
 
+        # only replace the parameters when all of them are available
+        op.parameters[:] = values
         return op
 
     @mixedproperty
-- 
2.43.0


From 8bc7b7fd0ca792ac7831e12f83c843b845bc538c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 62/71] fix: generate kernels for operators with integer
 entries

---
 dwave/gate/simulator/operation_generation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dwave/gate/simulator/operation_generation.py b/dwave/gate/simulator/operation_generation.py
index 5449852..99299b1 100644
--- a/dwave/gate/simulator/operation_generation.py
+++ b/dwave/gate/simulator/operation_generation.py
@@ -280,6 +280,8 @@ def generate_op_c_code(
             if val == 1:
                 terms.append(amps[state_j].name)
             elif val != 0:
+                # integers cannot be multiplied with 'std::complex<double>'
+                val = val if isinstance(val, str) else float(val)
                 terms.append(f"({val} * {amps[state_j].name})")
 
         if len(terms) == 0:
-- 
2.43.0


From e2805bb06dbd2313bd1118e6af3ff0e8fb6702c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 63/71] fix: allow resetting QIR modules which are not compiled

---
 dwave/gate/qir/compiler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index a5dd650..3be1718 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -303,7 +303,10 @@ class BaseModule:
             rm_instructions: Whether to also reset all instructions.
         """
         self._module = pyqir.qir_module(self.context, self.name, **self._module_kwargs)
-        self._return.erase()
+        if self._return is not None:
+            # the module might not be (successfully) compiled, or already reset
+            self._return.erase()
+            self._return = None
 
         if rm_instructions:
             for key in self._instructions:
-- 
2.43.0


From 45be4e3c72cf30971832e4821e767b5e09227d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 64/71] fix: allow compiling QIR modules again after a failed
 verification

---
 dwave/gate/qir/compiler.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 3be1718..381a821 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -139,11 +139,11 @@ class BaseModule:
             set_void_return: Whether to set a ``Void`` return in the final block.
             strict: Whether the compiler should raise an error if verification fails.
         """
-        if self._is_compiled:
-            if not force:
-                raise CompileError(
-                    "Module already compiled. Set 'force=True' to force recompilation."
-                )
+        if self._is_compiled and not force:
+            raise CompileError("Module already compiled. Set 'force=True' to force recompilation.")
+
+        if self._return is not None:
+            # remove everything added by a previous (possibly failed) compilation
             self.reset(rm_instructions=False)
 
         self._compile()
-- 
2.43.0


From 4e890818d858e4f4bf443e8070f788baae2ab3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 65/71] fix: record operations in circuits copied within a
 frozen context

The context of a circuit which was copied within a frozen context stayed frozen,
silently dropping all operations initialized in it.
---
 dwave/gate/circuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index a7b38eb..08b9e0f 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -909,6 +909,8 @@ class CircuitContext:
 
         if self.active_context is None:
             CircuitContext._active_context = self
+            # the circuit might have been copied within a frozen context
+            self._frozen = False
         else:
             raise RuntimeError("Cannot enter context, another circuit context is already active.")
 
-- 
2.43.0


From 2cc9864859199e99372ddbe30cacc74d3a9144a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:00 +0000
Subject: [PATCH 66/71] fix: evaluate operations without replacing their qubits
 and conditional bits

---
 dwave/gate/operations/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 05faa0d..5477226 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -401,7 +401,8 @@ class ParametricOperation(Operation):
         Raises:
             ValueError: If no parameters are passed and if variable has no set value.
         """
-        op = self if inplace else copy.deepcopy(self)
+        # the copy keeps the qubits and conditional bits, but has its own list of parameters
+        op = self if inplace else copy.copy(self)
 
         values = list(op.parameters)
         for i, p in enumerate(op.parameters):
@@ -414,7 +415,7 @@ class ParametricOperation(Operation):
                     raise ValueError("No available parameter to evaluate with.")
 
         # only replace the parameters when all of them are available
-        op.parameters[:] = values
+        op._parameters = values
         return op
 
     @mixedproperty
-- 
2.43.0


From 9be71bffb003fd362eef2aac15614a84f20c13da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:59 +0000
Subject: [PATCH 67/71] fix: load QIR into a context which already contains a
 module

---
 dwave/gate/qir/loader.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dwave/gate/qir/loader.py b/dwave/gate/qir/loader.py
index f7af7b0..81565bf 100644
--- a/dwave/gate/qir/loader.py
+++ b/dwave/gate/qir/loader.py
@@ -205,19 +205,20 @@ def _deconstruct_call_instruction(
         # only supports doubles
         if arg.type.is_double:
             params.append(arg.value)
-        elif arg.type.pointee.name == "Qubit":
+        # types are numbered if the context already contains other modules (e.g., 'Qubit.0')
+        elif re.fullmatch(r"Qubit(\.\d+)?", arg.type.pointee.name):
             if arg.is_null:
                 qubits.append(0)
             else:
-                pattern = "\%Qubit\* inttoptr \(i64 (\d+) to \%Qubit\*\)"
+                pattern = r"\%Qubit(?:\.\d+)?\* inttoptr \(i64 (\d+) to \%Qubit(?:\.\d+)?\*\)"
                 qubit = re.search(pattern, str(arg)).groups()[0]
                 qubits.append(int(qubit) if qubit.isdigit() else None)
         else:
-            assert arg.type.pointee.name == "Result"
+            assert re.fullmatch(r"Result(\.\d+)?", arg.type.pointee.name)
             if arg.is_null:
                 bits.append(0)
             else:
-                pattern = "\%Result\* inttoptr \(i64 (\d+) to \%Result\*\)"
+                pattern = r"\%Result(?:\.\d+)?\* inttoptr \(i64 (\d+) to \%Result(?:\.\d+)?\*\)"
                 bit = re.search(pattern, arg.__str__()).groups()[0]
                 bits.append(int(bit) if bit.isdigit() else None)
 
-- 
2.43.0


From 863c51a7908e38daf74ead5efdb563af016d6300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:05 +0000
Subject: [PATCH 68/71] fix: leave parametric circuits unchanged when their
 evaluation fails

---
 dwave/gate/circuit.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 08b9e0f..061977a 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -781,11 +781,14 @@ class ParametricCircuit(Circuit):
         """
         circuit = self if inplace else copy.deepcopy(self)
 
-        for i, op in enumerate(circuit.circuit):
-            eval = getattr(op, "eval", None)
-            params = parameters[i] if parameters else None
-            # already operating on a copy of the circuit if not in-place
-            circuit.circuit[i] = eval(params, inplace=True) if eval else op
+        # make sure that all operations can be evaluated before replacing any parameters
+        for check in (True, False):
+            for i, op in enumerate(circuit.circuit):
+                eval = getattr(op, "eval", None)
+                params = parameters[i] if parameters else None
+                # already operating on a copy of the circuit if not in-place
+                if eval:
+                    eval(params, inplace=not check)
 
         return circuit
 
-- 
2.43.0


From 3e4f9751607729a16633ae6aec6aaa9637372784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:10 +0000
Subject: [PATCH 69/71] fix: extend circuits by their own operations

---
 dwave/gate/circuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 061977a..7144356 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -215,7 +215,8 @@ class Circuit:
         Args:
             operations: Operations to append to the circuit.
         """
-        for op in operations:
+        # the sequence might be the operations of this circuit
+        for op in list(operations):
             self.append(op)
 
     def remove(self, op: Operation) -> None:
-- 
2.43.0


From de1290ed4a00a61d34c18be5dc265dd6decfe36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:15 +0000
Subject: [PATCH 70/71] fix: give the entries of large operators distinct names

The C variables of the entries of a run-time or masked operator were named by the digits of row and column
next to each other, which are ambiguous for four or more targets (entries 1,11 and 11,1), so that the generated
code did not compile.
---
 dwave/gate/simulator/operation_generation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/simulator/operation_generation.py b/dwave/gate/simulator/operation_generation.py
index 99299b1..674e33b 100644
--- a/dwave/gate/simulator/operation_generation.py
+++ b/dwave/gate/simulator/operation_generation.py
@@ -213,7 +213,7 @@ def generate_op_c_code(
         )
     else:
         gate_values = [
-            [c.Value(amplitude_t, f"gate_value{i}{j}") for j in range(gate_matrix_size)]
+            [c.Value(amplitude_t, f"gate_value{i}_{j}") for j in range(gate_matrix_size)]
             for i in range(gate_matrix_size)
         ]
         inits.extend(
-- 
2.43.0


From 2eea14c85748736aee0d93fbfdcb6395fc55ffcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:24 +0000
Subject: [PATCH 71/71] fix: pass integers to external QIR functions

Only parameters of type double were supported: integers given for parameters of integer types were converted
to floats, which cannot be constants of these types.
---
 dwave/gate/qir/instructions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/qir/instructions.py b/dwave/gate/qir/instructions.py
index a6b37b5..e86c36e 100644
--- a/dwave/gate/qir/instructions.py
+++ b/dwave/gate/qir/instructions.py
@@ -184,7 +184,9 @@ class Instruction:
         """
         # numbers must be cast to constants of the declared type
         args = [
-            arg if isinstance(arg, pyqir.Constant) else pyqir.const(param.type, float(arg))
+            arg
+            if isinstance(arg, pyqir.Constant)
+            else pyqir.const(param.type, float(arg) if param.type.is_double else arg)
             for arg, param in zip(self.args, self._external.params)
         ]
         builder.call(self._external, args)
-- 
2.43.0

