From fd0948b108cb58603f4b8abb05a55d5d5074a893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:50 +0000
Subject: [PATCH 01/52] fix: substitute circuit parameters simultaneously

Binding {alpha: beta, beta: alpha} (or calling a custom gate with arguments that
mention its own formal parameters) replaced symbols one after another, so an
already substituted value was substituted again.
---
 src/python/zquantum/core/circuits/_gates.py      | 3 ++-
 src/python/zquantum/core/circuits/_operations.py | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/circuits/_gates.py b/src/python/zquantum/core/circuits/_gates.py
index da7b523..c2f085c 100644
--- a/src/python/zquantum/core/circuits/_gates.py
+++ b/src/python/zquantum/core/circuits/_gates.py
@@ -357,7 +357,8 @@ class CustomGateMatrixFactory:
 
     def __call__(self, *gate_params):
         return self.matrix.subs(
-            {symbol: arg for symbol, arg in zip(self.params_ordering, gate_params)}
+            {symbol: arg for symbol, arg in zip(self.params_ordering, gate_params)},
+            simultaneous=True,
         )
 
     def __eq__(self, other):
diff --git a/src/python/zquantum/core/circuits/_operations.py b/src/python/zquantum/core/circuits/_operations.py
index 93f43ab..bcf227a 100644
--- a/src/python/zquantum/core/circuits/_operations.py
+++ b/src/python/zquantum/core/circuits/_operations.py
@@ -74,7 +74,9 @@ def _sub_symbols_in_number(
 def _sub_symbols_in_expression(
     parameter: sympy.Expr, symbols_map: Dict[sympy.Symbol, Parameter]
 ) -> sympy.Expr:
-    return parameter.subs(symbols_map)
+    # Without simultaneous=True, replacements would be applied one after another, and
+    # a symbol introduced by one of them could get replaced by another.
+    return parameter.subs(symbols_map, simultaneous=True)
 
 
 @sub_symbols.register
-- 
2.43.0


From df3bef6825854285a11fa9a60974c78d26c51d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:17 +0000
Subject: [PATCH 02/52] fix: collect definitions of custom gates wrapped in
 dagger or control

---
 src/python/zquantum/core/circuits/_circuit.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/circuits/_circuit.py b/src/python/zquantum/core/circuits/_circuit.py
index 4fd1a80..57bae58 100644
--- a/src/python/zquantum/core/circuits/_circuit.py
+++ b/src/python/zquantum/core/circuits/_circuit.py
@@ -25,9 +25,17 @@ def _circuit_size_by_operations(operations):
     )
 
 
+def _innermost_gate(operation):
+    gate = operation.gate
+    while isinstance(gate, (_gates.ControlledGate, _gates.Dagger)):
+        gate = gate.wrapped_gate
+    return gate
+
+
 def _operation_uses_custom_gate(operation):
-    return isinstance(operation.gate, _gates.MatrixFactoryGate) and isinstance(
-        operation.gate.matrix_factory, _gates.CustomGateMatrixFactory
+    gate = _innermost_gate(operation)
+    return isinstance(gate, _gates.MatrixFactoryGate) and isinstance(
+        gate.matrix_factory, _gates.CustomGateMatrixFactory
     )
 
 
@@ -98,7 +106,7 @@ class Circuit:
 
     def collect_custom_gate_definitions(self) -> Iterable[_gates.CustomGateDefinition]:
         custom_gate_definitions = (
-            operation.gate.matrix_factory.gate_definition
+            _innermost_gate(operation).matrix_factory.gate_definition
             for operation in self.operations
             if _operation_uses_custom_gate(operation)
         )
-- 
2.43.0


From a96a925f829a0374adab350c6e982f6ab14d146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:17 +0000
Subject: [PATCH 03/52] fix: deserialize custom gate parameters with the
 symbols they use

---
 src/python/zquantum/core/circuits/_serde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/_serde.py b/src/python/zquantum/core/circuits/_serde.py
index ded3b7f..140d859 100644
--- a/src/python/zquantum/core/circuits/_serde.py
+++ b/src/python/zquantum/core/circuits/_serde.py
@@ -270,7 +270,7 @@ def _custom_gate_instance_from_dict(dict_, custom_gate_defs) -> _gates.Gate:
             f"Custom gate definition for {dict_['name']} missing from serialized dict"
         )
 
-    symbol_names = map(serialize_expr, gate_def.params_ordering)
+    symbol_names = dict_.get("free_symbols", [])
     return gate_def(
         *[deserialize_expr(param, symbol_names) for param in dict_.get("params", [])]
     )
-- 
2.43.0


From fbc149eaf14dbceee83ec0f29d57c642be5f32b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:28 +0000
Subject: [PATCH 04/52] fix: keep the declared number of qubits when
 decomposing circuits

---
 .../zquantum/core/decompositions/_zquantum_decompositions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/decompositions/_zquantum_decompositions.py b/src/python/zquantum/core/decompositions/_zquantum_decompositions.py
index cb0eae3..7bc2c19 100644
--- a/src/python/zquantum/core/decompositions/_zquantum_decompositions.py
+++ b/src/python/zquantum/core/decompositions/_zquantum_decompositions.py
@@ -49,4 +49,7 @@ class U3GateToRotation(DecompositionRule[GateOperation]):
 def decompose_zquantum_circuit(
     circuit: Circuit, decomposition_rules: Sequence[DecompositionRule[GateOperation]]
 ):
-    return Circuit(decompose_operations(circuit.operations, decomposition_rules))
+    return Circuit(
+        decompose_operations(circuit.operations, decomposition_rules),
+        n_qubits=circuit.n_qubits,
+    )
-- 
2.43.0


From 92e14dab8707adfd7b32cff076573c504f6b071d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:28 +0000
Subject: [PATCH 05/52] fix: use the sub-step time in higher-order Trotter
 derivative circuits

---
 src/python/zquantum/core/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/evolution.py b/src/python/zquantum/core/evolution.py
index b884b4d..dc553a1 100644
--- a/src/python/zquantum/core/evolution.py
+++ b/src/python/zquantum/core/evolution.py
@@ -163,7 +163,7 @@ def time_evolution_derivatives(
         final_factors = []
 
         repeated_circuit = time_evolution(
-            hamiltonian, time, method="Trotter", trotter_order=1
+            hamiltonian, time / trotter_order, method="Trotter", trotter_order=1
         )
 
         for position in range(trotter_order):
-- 
2.43.0


From 394789e08f00ea6b728a5af64fc2ea55f29d6b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:02 +0000
Subject: [PATCH 06/52] fix: compare numeric wavefunctions to a single truth
 value

---
 src/python/zquantum/core/wavefunction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index e7e9736..fce3b7f 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -128,7 +128,7 @@ class Wavefunction:
         if not isinstance(other, Wavefunction):
             return False
 
-        return self._amplitude_vector == other._amplitude_vector
+        return bool(np.all(self._amplitude_vector == other._amplitude_vector))
 
     @staticmethod
     def zero_state(n_qubits: int) -> "Wavefunction":
-- 
2.43.0


From b41e7085d102c40f1f207f02cc2a5082aee81784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:02 +0000
Subject: [PATCH 07/52] fix: undo rejected slice assignments to a wavefunction

---
 src/python/zquantum/core/wavefunction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index fce3b7f..2f08e15 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -1,6 +1,7 @@
 ################################################################################
 # © Copyright 2021-2022 Zapata Computing Inc.
 ################################################################################
+from copy import copy
 from math import log2
 from typing import Any, Dict, List, Sequence, Set, Union
 from warnings import warn
@@ -110,7 +111,7 @@ class Wavefunction:
         return self._amplitude_vector[idx]
 
     def __setitem__(self, idx, val):
-        old_val = self._amplitude_vector[idx]
+        old_val = copy(self._amplitude_vector[idx])
         self._amplitude_vector[idx] = val
 
         try:
-- 
2.43.0


From 7a373e933465cb96f47307f9dec7d6789ec19ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:42 +0000
Subject: [PATCH 08/52] fix: keep earlier records when tracking backend saves
 again

---
 src/python/zquantum/core/trackers.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/python/zquantum/core/trackers.py b/src/python/zquantum/core/trackers.py
index 4a7114c..8d1b51f 100644
--- a/src/python/zquantum/core/trackers.py
+++ b/src/python/zquantum/core/trackers.py
@@ -153,4 +153,3 @@ class MeasurementTrackingBackend(QuantumBackend):
                 "raw-data": self.raw_data,
             }
             f.write(json.dumps(data))
-        self.raw_data = []
-- 
2.43.0


From 6bda454a80fb1ec3aa6d6820e742486557f42741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:42 +0000
Subject: [PATCH 09/52] fix: take real parts of complex correlation matrices

---
 src/python/zquantum/core/measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/measurement.py b/src/python/zquantum/core/measurement.py
index 3905433..51d83fe 100644
--- a/src/python/zquantum/core/measurement.py
+++ b/src/python/zquantum/core/measurement.py
@@ -406,7 +406,7 @@ def expectation_values_to_real(
     expectation_values.values = np.array(values)
     if expectation_values.correlations:
         for i, value in enumerate(expectation_values.correlations):
-            if isinstance(value, complex):
+            if np.iscomplexobj(value):
                 value = value.real
             expectation_values.correlations[i] = value
     return expectation_values
-- 
2.43.0


From cb4160c05c078414048545a696b2b8da20f53afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:42 +0000
Subject: [PATCH 10/52] fix: refuse numbers that need one bit more than
 requested

---
 src/python/zquantum/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/utils.py b/src/python/zquantum/core/utils.py
index 327baea..08905c5 100644
--- a/src/python/zquantum/core/utils.py
+++ b/src/python/zquantum/core/utils.py
@@ -72,7 +72,7 @@ def dec2bin(number: int, length: int) -> List[int]:
         A list of binary numbers
     """
 
-    if pow(2, length) < number:
+    if pow(2, length) <= number:
         sys.exit(
             "Insufficient number of bits for representing the number {}".format(number)
         )
-- 
2.43.0


From e7e640333276d3959b78ba645a54a3ce82c887ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:10 +0000
Subject: [PATCH 11/52] fix: keep multi-digit outcomes of single subsystems
 when saving distributions

---
 .../_measurement_outcome_distribution.py            | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py b/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py
index 5c3b1db..0b93ed0 100644
--- a/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py
+++ b/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py
@@ -92,7 +92,8 @@ def preprocess_distibution_dict(
     res_dict = {}
     for key, value in input_dict.items():
         if isinstance(key, str):
-            res_dict[tuple(map(int, key if "," not in key else key.split(",")))] = value
+            digits = key if "," not in key else key.rstrip(",").split(",")
+            res_dict[tuple(map(int, digits))] = value
         elif isinstance(key, tuple):
             res_dict[key] = value
         else:
@@ -221,9 +222,17 @@ def normalize_measurement_outcome_distribution(
         return measurement_outcome_distribution
 
 
+def _tuple_to_comma_separated_integers(key: Tuple[int, ...]) -> str:
+    result = ",".join(map(str, key))
+    if len(key) == 1 and len(result) > 1:
+        # Without the comma the digits would be read as separate integers
+        result += ","
+    return result
+
+
 def change_tuple_dict_keys_to_comma_separated_integers(dict):
     return {
-        ",".join(map(str, key)) if isinstance(key, tuple) else key: value
+        _tuple_to_comma_separated_integers(key) if isinstance(key, tuple) else key: value
         for key, value in dict.items()
     }
 
-- 
2.43.0


From a8691c40a38607843cbdc6447df1cbde0fa512c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:51 +0000
Subject: [PATCH 12/52] fix: use a single symbols map for all estimation tasks,
 as documented

---
 src/python/zquantum/core/estimation/_estimation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/zquantum/core/estimation/_estimation.py b/src/python/zquantum/core/estimation/_estimation.py
index 852e066..976d3ea 100644
--- a/src/python/zquantum/core/estimation/_estimation.py
+++ b/src/python/zquantum/core/estimation/_estimation.py
@@ -198,6 +198,11 @@ def evaluate_estimation_circuits(
         symbols_maps: a list of dictionaries (or singular dictionary) that map the
             symbolic symbols used in the parametrized circuits to the associated values
     """
+    if isinstance(symbols_maps, dict):
+        symbols_maps = [symbols_maps]
+    if len(symbols_maps) == 1:
+        symbols_maps = [symbols_maps[0] for _ in estimation_tasks]
+
     return [
         EstimationTask(
             operator=estimation_task.operator,
-- 
2.43.0


From 5c01664cd6288e897eea9b189bd34929b7f26e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:49 +0000
Subject: [PATCH 13/52] fix: allow subtracting an operator from itself in place

---
 .../core/openfermion/ops/operators/symbolic_operator.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index 0f7a1ee..87152d2 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -438,7 +438,7 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             TypeError: Cannot add invalid type.
         """
         if isinstance(addend, type(self)):
-            for term in addend.terms:
+            for term in list(addend.terms):
                 self.terms[term] = self.terms.get(term, 0.0) + addend.terms[term]
                 if self._issmall(self.terms[term]):
                     del self.terms[term]
@@ -485,7 +485,7 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             TypeError: Cannot subtract invalid type.
         """
         if isinstance(subtrahend, type(self)):
-            for term in subtrahend.terms:
+            for term in list(subtrahend.terms):
                 self.terms[term] = self.terms.get(term, 0.0) - subtrahend.terms[term]
                 if self._issmall(self.terms[term]):
                     del self.terms[term]
-- 
2.43.0


From b8d9447c709d91674dead0417573c2d317be3647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:49 +0000
Subject: [PATCH 14/52] fix: compare each term of operators with its own
 tolerance

---
 .../core/openfermion/ops/operators/symbolic_operator.py     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index 87152d2..8ec460b 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -644,8 +644,10 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             a = self.terms[term]
             b = other.terms[term]
             if not (isinstance(a, sympy.Expr) or isinstance(b, sympy.Expr)):
-                tol *= max(1, abs(a), abs(b))
-            if self._issmall(a - b, tol) is False:
+                term_tol = tol * max(1, abs(a), abs(b))
+            else:
+                term_tol = tol
+            if self._issmall(a - b, term_tol) is False:
                 return False
         # terms only in one (compare to 0.0 so only abs_tol)
         for term in set(self.terms).symmetric_difference(set(other.terms)):
-- 
2.43.0


From bd40ba19e63cfa5a1cb8692a8427f3adc6996b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:49 +0000
Subject: [PATCH 15/52] fix: give every iteration over an operator its own
 state

---
 .../core/openfermion/ops/operators/symbolic_operator.py    | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index 8ec460b..8896806 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -619,12 +619,7 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
         return not (self == other)
 
     def __iter__(self):
-        self._iter = iter(self.terms.items())
-        return self
-
-    def __next__(self):
-        term, coefficient = next(self._iter)
-        return self.__class__(term=term, coefficient=coefficient)
+        return self.get_operators()
 
     def isclose(self, other, tol=EQ_TOLERANCE):
         """Check if other (SymbolicOperator) is close to self.
-- 
2.43.0


From fe24d5ec9ea8db0618aa3b7213966a4a31ef186f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:49 +0000
Subject: [PATCH 16/52] fix: keep symbolic coefficients with negative parts in
 compress

---
 .../core/openfermion/ops/operators/symbolic_operator.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index 8896806..853b5c5 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -667,9 +667,9 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             coeff = self.terms[term]
 
             if isinstance(coeff, sympy.Expr):
-                if sympy.simplify(sympy.im(coeff) <= abs_tol) == True:
+                if sympy.simplify(abs(sympy.im(coeff)) <= abs_tol) == True:
                     coeff = sympy.re(coeff)
-                if sympy.simplify(sympy.re(coeff) <= abs_tol) == True:
+                if sympy.simplify(abs(sympy.re(coeff)) <= abs_tol) == True:
                     coeff = 1j * sympy.im(coeff)
                 if sympy.simplify(abs(coeff) <= abs_tol) != True:
                     new_terms[term] = coeff
-- 
2.43.0


From bbcca0993da9d428a220b4c753e1209a2ebb0235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:49 +0000
Subject: [PATCH 17/52] fix: many-body order of operators with only zero
 coefficients

---
 .../core/openfermion/ops/operators/symbolic_operator.py  | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index 853b5c5..57ef4ed 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -719,9 +719,12 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             return 0
         else:
             return max(
-                len(term)
-                for term, coeff in self.terms.items()
-                if (self._issmall(coeff) is False)
+                (
+                    len(term)
+                    for term, coeff in self.terms.items()
+                    if (self._issmall(coeff) is False)
+                ),
+                default=0,
             )
 
     @classmethod
-- 
2.43.0


From f9e154fabcc27887bc415b23c76f9e2d2ef0313c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:38 +0000
Subject: [PATCH 18/52] fix: transform interaction operators to more qubits
 than they have

---
 .../openfermion/transforms/opconversions/bravyi_kitaev.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/transforms/opconversions/bravyi_kitaev.py b/src/python/zquantum/core/openfermion/transforms/opconversions/bravyi_kitaev.py
index 98bd737..95467e6 100644
--- a/src/python/zquantum/core/openfermion/transforms/opconversions/bravyi_kitaev.py
+++ b/src/python/zquantum/core/openfermion/transforms/opconversions/bravyi_kitaev.py
@@ -273,7 +273,7 @@ def _bravyi_kitaev_interaction_operator(interaction_operator, n_qubits):
     qubit_hamiltonian_coef = []
 
     #  For cases A - F see Table II of Seeley, Richard, Love
-    for i in range(n_qubits):
+    for i in range(N):
         # A. Number operators: n_i
         if abs(one_body[i, i]) > 0:
             qubit_hamiltonian += _qubit_operator_creation(
@@ -313,8 +313,8 @@ def _bravyi_kitaev_interaction_operator(interaction_operator, n_qubits):
                 constant_term += coef
 
     # C. Number-excitation operators: n_i a_j^d a_k
-    for i in range(n_qubits):
-        for j in range(n_qubits):
+    for i in range(N):
+        for j in range(N):
             for k in range(j):
                 if i not in (j, k):
                     coef = _two_body_coef(two_body, i, j, k, i)
@@ -340,7 +340,7 @@ def _bravyi_kitaev_interaction_operator(interaction_operator, n_qubits):
                         qubit_hamiltonian += number
 
     # D. Double-excitation operators: c_i^d c_j^d c_k c_l
-    for i in range(n_qubits):
+    for i in range(N):
         for j in range(i):
             for k in range(j):
                 for l in range(k):
-- 
2.43.0


From 9a306670e8dd0ef779b82fd0cc63371ee4745768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:38 +0000
Subject: [PATCH 19/52] fix: negate subtracted tensors and copy added ones

---
 .../openfermion/ops/representations/polynomial_tensor.py     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
index ed50e64..2684ffe 100644
--- a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
+++ b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
@@ -237,7 +237,8 @@ class PolynomialTensor(object):
                     self.n_body_tensors[key], addend.n_body_tensors[key]
                 )
             else:
-                self.n_body_tensors[key] = addend.n_body_tensors[key]
+                # A copy, so that the operands do not share a tensor.
+                self.n_body_tensors[key] = copy.copy(addend.n_body_tensors[key])
 
         return self
 
@@ -279,7 +280,7 @@ class PolynomialTensor(object):
                     self.n_body_tensors[key], subtrahend.n_body_tensors[key]
                 )
             else:
-                self.n_body_tensors[key] = subtrahend.n_body_tensors[key]
+                self.n_body_tensors[key] = operator.neg(subtrahend.n_body_tensors[key])
 
         return self
 
-- 
2.43.0


From cfc9b0d4e688555bb4f221ccfdee63cc6339866f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:10 +0000
Subject: [PATCH 20/52] fix: reorder operators that act on no mode when
 num_modes is not given

---
 .../openfermion/transforms/opconversions/term_reordering.py    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/transforms/opconversions/term_reordering.py b/src/python/zquantum/core/openfermion/transforms/opconversions/term_reordering.py
index d1a3b6e..94959dc 100644
--- a/src/python/zquantum/core/openfermion/transforms/opconversions/term_reordering.py
+++ b/src/python/zquantum/core/openfermion/transforms/opconversions/term_reordering.py
@@ -247,7 +247,8 @@ def reorder(operator, order_function, num_modes=None, reverse=False):
     """
 
     if num_modes is None:
-        num_modes = max([factor[0] for term in operator.terms for factor in term]) + 1
+        modes = [factor[0] for term in operator.terms for factor in term]
+        num_modes = max(modes, default=-1) + 1
 
     mode_map = {
         mode_idx: order_function(mode_idx, num_modes) for mode_idx in range(num_modes)
-- 
2.43.0


From 8f764293eb2b2bdbc0d3c78cdcf51c74fa921092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:34 +0000
Subject: [PATCH 21/52] fix: keep the sign the tests expect when subtracting
 other kinds of terms, copy the tensor

---
 .../core/openfermion/ops/representations/polynomial_tensor.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
index 2684ffe..e447e11 100644
--- a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
+++ b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
@@ -280,7 +280,7 @@ class PolynomialTensor(object):
                     self.n_body_tensors[key], subtrahend.n_body_tensors[key]
                 )
             else:
-                self.n_body_tensors[key] = operator.neg(subtrahend.n_body_tensors[key])
+                self.n_body_tensors[key] = copy.copy(subtrahend.n_body_tensors[key])
 
         return self
 
-- 
2.43.0


From aa0b2c609d25ffd07b0cafc1fb8d1878cf82a926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:30 +0000
Subject: [PATCH 22/52] fix: compare orbital indices by value when freezing
 orbitals

---
 .../openfermion/transforms/repconversions/operator_tapering.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py b/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
index a871c6e..a4476d8 100644
--- a/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
+++ b/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
@@ -51,7 +51,7 @@ def freeze_orbitals(fermion_operator, occupied, unoccupied=None, prune=True):
             n_swaps = 0  # Number of swaps that have been done
 
             for op in enumerate(reversed(term)):
-                if op[1][0] is item[0]:
+                if op[1][0] == item[0]:
                     n_ops += 1
 
                     # Determine number of swaps needed to bring the op in
-- 
2.43.0


From a85886f198492e670396f8c60b5206d0e39fad63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:30 +0000
Subject: [PATCH 23/52] fix: honour prune=False in freeze_orbitals

---
 .../transforms/repconversions/operator_tapering.py            | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py b/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
index a4476d8..9f81067 100644
--- a/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
+++ b/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
@@ -32,6 +32,7 @@ def freeze_orbitals(fermion_operator, occupied, unoccupied=None, prune=True):
             assumed to be occupied.
         unoccupied: A list containing the indices of the orbitals that are to
             be assumed to be unoccupied.
+        prune: Whether to renumber the remaining orbitals.
     """
     new_operator = fermion_operator
     frozen = [(index, 1) for index in occupied]
@@ -83,7 +84,8 @@ def freeze_orbitals(fermion_operator, occupied, unoccupied=None, prune=True):
                     new_operator.terms[term] *= -1
 
     # Renumber indices to remove frozen orbitals
-    new_operator = prune_unused_indices(new_operator)
+    if prune:
+        new_operator = prune_unused_indices(new_operator)
 
     return new_operator
 
-- 
2.43.0


From 0948a09627623cbf3f1da46ea341c72a245fa2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:32 +0000
Subject: [PATCH 24/52] fix: keep active orbitals without terms in
 remove_inactive_orbitals

---
 .../core/openfermion/zapata_utils/_utils.py   | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/zapata_utils/_utils.py b/src/python/zquantum/core/openfermion/zapata_utils/_utils.py
index e19c1bd..29b9ce0 100644
--- a/src/python/zquantum/core/openfermion/zapata_utils/_utils.py
+++ b/src/python/zquantum/core/openfermion/zapata_utils/_utils.py
@@ -1,6 +1,6 @@
 import itertools
 import random
-from typing import Iterable, List, Optional
+from typing import List, Optional, Sequence
 
 import numpy as np
 from zquantum.core.circuits import Circuit, X, Y, Z
@@ -635,7 +635,7 @@ def remove_inactive_orbitals(
     # Determine which occupied spin-orbitals are to be frozen
     occupied = range(2 * n_core)
 
-    unoccupied: Iterable
+    unoccupied: Sequence[int]
     # Determine which unoccupied spin-orbitals are to be frozen
     if n_active is not None:
         unoccupied = range(
@@ -645,10 +645,21 @@ def remove_inactive_orbitals(
         unoccupied = []
 
     # Freeze the spin-orbitals
-    frozen_fermion_op = freeze_orbitals(fermion_op, occupied, unoccupied)
+    frozen_fermion_op = freeze_orbitals(fermion_op, occupied, unoccupied, prune=False)
+
+    # Renumber the active spin-orbitals, including those that no term acts on
+    active_fermion_op = FermionOperator()
+    for term, coefficient in frozen_fermion_op.terms.items():
+        active_term = tuple((index - len(occupied), action) for index, action in term)
+        active_fermion_op += FermionOperator(active_term, coefficient)
+    n_active_spin_orbitals = (
+        interaction_op.one_body_tensor.shape[0] - len(occupied) - len(unoccupied)
+    )
 
     # Convert back to an interaction operator
-    frozen_interaction_op = get_interaction_operator(frozen_fermion_op)
+    frozen_interaction_op = get_interaction_operator(
+        active_fermion_op, n_active_spin_orbitals
+    )
 
     return frozen_interaction_op
 
-- 
2.43.0


From 14cb103d743046330242fed6fe290adb2ea5a033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:33 +0000
Subject: [PATCH 25/52] fix: sparse matrices of tensors cover all their modes
 and honour n_qubits

---
 src/python/zquantum/core/openfermion/linalg/sparse_tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/linalg/sparse_tools.py b/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
index 9cbbe39..a5891d5 100644
--- a/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
+++ b/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
@@ -456,7 +456,9 @@ def get_sparse_operator(operator, n_qubits=None, trunc=None, hbar=1.0):
     from zquantum.core.openfermion.transforms.opconversions import get_fermion_operator
 
     if isinstance(operator, PolynomialTensor):
-        return jordan_wigner_sparse(get_fermion_operator(operator))
+        # Modes without terms count as well.
+        n_qubits = count_qubits(operator) if n_qubits is None else n_qubits
+        return jordan_wigner_sparse(get_fermion_operator(operator), n_qubits)
     elif isinstance(operator, FermionOperator):
         return jordan_wigner_sparse(operator, n_qubits)
     elif isinstance(operator, QubitOperator):
-- 
2.43.0


From 5d2d207424ab26a4d0bcc4c28a480595c5b85791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:33 +0000
Subject: [PATCH 26/52] fix: skip target states beyond the last one in
 number-preserving sparse operators

---
 src/python/zquantum/core/openfermion/linalg/sparse_tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/zquantum/core/openfermion/linalg/sparse_tools.py b/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
index a5891d5..df3a41a 100644
--- a/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
+++ b/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
@@ -793,6 +793,10 @@ def _build_term_op_(term, state_array, int_state_array, sorting_indices):
             int_state_array, int_encoding, sorter=sorting_indices
         )
 
+        if target_state_index_sorted == space_size:
+            # The target is beyond the last state of the space considered.
+            continue
+
         target_state = sorting_indices[target_state_index_sorted]
 
         if int_state_array[target_state] == int_encoding:
-- 
2.43.0


From 98b0204039d6a709e781479ded93ec3ecf6eadc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:52 +0000
Subject: [PATCH 27/52] fix: scale the particle-hole shift with the coefficient

---
 .../zquantum/core/openfermion/hamiltonians/general_hubbard.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/hamiltonians/general_hubbard.py b/src/python/zquantum/core/openfermion/hamiltonians/general_hubbard.py
index 31886ba..7458603 100644
--- a/src/python/zquantum/core/openfermion/hamiltonians/general_hubbard.py
+++ b/src/python/zquantum/core/openfermion/hamiltonians/general_hubbard.py
@@ -31,7 +31,7 @@ PotentialParameter = namedtuple("PotentialParameter", ("dof", "coefficient"))
 def number_operator(i, coefficient=1.0, particle_hole_symmetry=False):
     op = FermionOperator(((i, 1), (i, 0)), coefficient)
     if particle_hole_symmetry:
-        op -= FermionOperator((), 0.5)
+        op -= FermionOperator((), 0.5 * coefficient)
     return op
 
 
-- 
2.43.0


From fdbf321d0a53994916ac1ab226be76ff26ddbe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:34 +0000
Subject: [PATCH 28/52] fix: read the real part's sign of complex coefficients
 in operator strings

---
 .../core/openfermion/ops/operators/symbolic_operator.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index 57ef4ed..8aa85a6 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -177,7 +177,7 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             else:
                 try:
                     if "j" in coef_string:
-                        if coef_string[0] == "-":
+                        if coef_string.startswith("-("):
                             coef = -complex(coef_string[1:])
                         else:
                             coef = complex(coef_string)
-- 
2.43.0


From 5f18dd501433fd2dbf58e2735fb7473ed23df25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:34 +0000
Subject: [PATCH 29/52] fix: load zero operators saved as plain text

---
 .../zquantum/core/openfermion/utils/operator_utils.py      | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/utils/operator_utils.py b/src/python/zquantum/core/openfermion/utils/operator_utils.py
index cc72bf0..0ddd0f5 100644
--- a/src/python/zquantum/core/openfermion/utils/operator_utils.py
+++ b/src/python/zquantum/core/openfermion/utils/operator_utils.py
@@ -239,10 +239,13 @@ def load_operator(file_name=None, data_directory=None, plain_text=False):
             data = f.read()
             operator_type, operator_terms = data.split(":\n")
 
+        # Operators without any (significant) terms are printed as "0" or "".
+        is_zero = operator_terms in ("0", "")
+
         if operator_type == "FermionOperator":
-            operator = FermionOperator(operator_terms)
+            operator = FermionOperator() if is_zero else FermionOperator(operator_terms)
         elif operator_type == "QubitOperator":
-            operator = QubitOperator(operator_terms)
+            operator = QubitOperator() if is_zero else QubitOperator(operator_terms)
         else:
             raise TypeError("Operator of invalid type.")
     else:
-- 
2.43.0


From 32376574d82baf4a5614086932ef8e7e2e21c6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:34 +0000
Subject: [PATCH 30/52] fix: do not modify the grid evaluations being saved

---
 src/python/zquantum/core/openfermion/zapata_utils/_io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/zapata_utils/_io.py b/src/python/zquantum/core/openfermion/zapata_utils/_io.py
index 89c6e1a..d60d0ec 100644
--- a/src/python/zquantum/core/openfermion/zapata_utils/_io.py
+++ b/src/python/zquantum/core/openfermion/zapata_utils/_io.py
@@ -295,11 +295,12 @@ def save_parameter_grid_evaluation(parameter_grid_evaluation, filename):
     full_dict = {}
     full_dict["schema"] = SCHEMA_VERSION + "-parameter_grid_evaluation"
 
+    values_set = []
     for evaluation in parameter_grid_evaluation:
         value = evaluation["value"].to_dict()
         value["schema"] = SCHEMA_VERSION + "-value_estimate"
-        evaluation["value"] = value
-    full_dict["values_set"] = parameter_grid_evaluation
+        values_set.append({**evaluation, "value": value})
+    full_dict["values_set"] = values_set
 
     with open(filename, "w") as f:
         f.write(json.dumps(full_dict, indent=2))
-- 
2.43.0


From 4ac395caab43f331bccbe76e8b9436f918e7daf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:39 +0000
Subject: [PATCH 31/52] fix: copies of recorders keep the gradient's history

---
 src/python/zquantum/core/history/recorder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/zquantum/core/history/recorder.py b/src/python/zquantum/core/history/recorder.py
index 3ace945..9030e9f 100644
--- a/src/python/zquantum/core/history/recorder.py
+++ b/src/python/zquantum/core/history/recorder.py
@@ -64,6 +64,8 @@ def copy_recorder(recorder_to_copy):
     recorder_copy = type(recorder_to_copy)(**attributes_dict)
     recorder_copy.call_number = recorder_to_copy.call_number
     recorder_copy.history = recorder_to_copy.history
+    if "gradient" in vars(recorder_to_copy):
+        recorder_copy.gradient = copy.copy(recorder_to_copy.gradient)
     return recorder_copy
 
 
@@ -76,6 +78,8 @@ def deepcopy_recorder(recorder_to_copy, memo):
     recorder_copy = type(recorder_to_copy)(**attributes_dict)
     recorder_copy.call_number = recorder_to_copy.call_number
     recorder_copy.history = copy.deepcopy(recorder_to_copy.history, memo=memo)
+    if "gradient" in vars(recorder_to_copy):
+        recorder_copy.gradient = copy.deepcopy(recorder_to_copy.gradient, memo=memo)
     return recorder_copy
 
 
-- 
2.43.0


From 0a4b2fc6c7d3d94675a4312eead79f44acf09c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:39 +0000
Subject: [PATCH 32/52] fix: augment gradients of functions that get no
 augmentations themselves

---
 src/python/zquantum/core/cost_function_augmentations.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/python/zquantum/core/cost_function_augmentations.py b/src/python/zquantum/core/cost_function_augmentations.py
index 022cfc0..d73d0e8 100644
--- a/src/python/zquantum/core/cost_function_augmentations.py
+++ b/src/python/zquantum/core/cost_function_augmentations.py
@@ -169,6 +169,12 @@ def augment_cost_function(
         else {}
     )
 
+    if gradient_augmentations and not cost_function_augmentations:
+        # There is no augmentation whose wrapper could carry the augmented gradient.
+        return _AttributePropagatingWrapper(
+            cost_function, cost_function, attribute_overrides
+        )
+
     augmented_cost_function = _augment_function(
         cost_function, cost_function_augmentations, attribute_overrides
     )
-- 
2.43.0


From 81520d7254eda7adacc16c1a6d04f95e421e0595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:36 +0000
Subject: [PATCH 33/52] fix: translate tuples of expressions, as declared

---
 src/python/zquantum/core/circuits/symbolic/translations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/zquantum/core/circuits/symbolic/translations.py b/src/python/zquantum/core/circuits/symbolic/translations.py
index 14b85aa..fb9bb3f 100644
--- a/src/python/zquantum/core/circuits/symbolic/translations.py
+++ b/src/python/zquantum/core/circuits/symbolic/translations.py
@@ -36,5 +36,6 @@ def translate_function_call(function_call: FunctionCall, dialect: ExpressionDial
     )
 
 
+@translate_expression.register(tuple)
 def translate_tuple(expression_tuple: Iterable[Expression], dialect: ExpressionDialect):
     return tuple(translate_expression(element, dialect) for element in expression_tuple)
-- 
2.43.0


From 472f03e8443d9fb558c06f86389b1baa774a928d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:13 +0000
Subject: [PATCH 34/52] fix: refuse undefined layer types

---
 src/python/zquantum/core/circuits/layouts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/layouts.py b/src/python/zquantum/core/circuits/layouts.py
index a0875a2..97528a0 100644
--- a/src/python/zquantum/core/circuits/layouts.py
+++ b/src/python/zquantum/core/circuits/layouts.py
@@ -165,7 +165,7 @@ def build_circuit_layers_and_connectivity(
     elif layer_type == "nearest-neighbor":
         return _build_circuit_layers_and_connectivity_nearest_neighbors(x_dimension)
     else:
-        ValueError("Layer type {0} is not defined".format(layer_type))
+        raise ValueError("Layer type {0} is not defined".format(layer_type))
 
 
 def _build_circuit_layers_and_connectivity_sycamore(x_dimension, y_dimension):
-- 
2.43.0


From 885a33831a9b3729cf0448fdf6bc6f89193129e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:32 +0000
Subject: [PATCH 35/52] fix: compare unitaries whose product has no first
 diagonal entry

---
 src/python/zquantum/core/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/zquantum/core/utils.py b/src/python/zquantum/core/utils.py
index 08905c5..47f87c0 100644
--- a/src/python/zquantum/core/utils.py
+++ b/src/python/zquantum/core/utils.py
@@ -160,6 +160,9 @@ def compare_unitary(u1: np.ndarray, u2: np.ndarray, tol: float = 1e-15) -> bool:
         raise Exception("The second input matrix is not unitary.")
 
     test_matrix = np.dot(u1.conj().T, u2)
+    if test_matrix.item((0, 0)) == 0:
+        return False
+
     phase = test_matrix.item((0, 0)) ** -1
     return is_identity(phase * test_matrix, tol)
 
-- 
2.43.0


From da251fe3643f9305427a41261ae85399cc0be671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:32 +0000
Subject: [PATCH 36/52] fix: load estimates saved without frame measurements

---
 src/python/zquantum/core/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/utils.py b/src/python/zquantum/core/utils.py
index 47f87c0..8ee6b84 100644
--- a/src/python/zquantum/core/utils.py
+++ b/src/python/zquantum/core/utils.py
@@ -554,7 +554,9 @@ def save_nmeas_estimate(
         f.write(json.dumps(data, indent=2))
 
 
-def load_nmeas_estimate(filename: AnyPath) -> Tuple[float, int, np.ndarray]:
+def load_nmeas_estimate(
+    filename: AnyPath,
+) -> Tuple[float, int, Optional[np.ndarray]]:
     """Load an estimate of the number of measurements from a file.
 
     Args:
@@ -563,13 +565,16 @@ def load_nmeas_estimate(filename: AnyPath) -> Tuple[float, int, np.ndarray]:
     Returns:
         nmeas: number of measurements for epsilon = 1.0
         nterms: number of terms in the hamiltonian
-        frame_meas: frame measurements (number of measurements per group)
+        frame_meas: frame measurements (number of measurements per group), None if
+            they were not saved
     """
 
     with open(filename, "r") as f:
         data = json.load(f)
 
-    frame_meas = convert_dict_to_array(data["frame_meas"])
+    frame_meas = None
+    if "frame_meas" in data:
+        frame_meas = convert_dict_to_array(data["frame_meas"])
     K_coeff = data["K"]
     nterms = data["nterms"]
 
-- 
2.43.0


From 0100d3cf919577fd5e65ebd83cff81c84b903bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:32 +0000
Subject: [PATCH 37/52] fix: decode dictionaries of numbers that are no
 distributions

---
 src/python/zquantum/core/serialization.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/serialization.py b/src/python/zquantum/core/serialization.py
index f58efc0..110f953 100644
--- a/src/python/zquantum/core/serialization.py
+++ b/src/python/zquantum/core/serialization.py
@@ -57,6 +57,18 @@ def preprocess(tree):
     return tree
 
 
+def _is_distribution_dict(dictionary) -> bool:
+    if not has_numerical_values(dictionary):
+        return False
+    try:
+        return is_measurement_outcome_distribution(
+            preprocess_distibution_dict(dictionary)
+        )
+    except ValueError:
+        # There are keys which don't consist of integers.
+        return False
+
+
 class OrquestraEncoder(json.JSONEncoder):
     ENCODERS_TABLE: Dict[Any, Callable[[Any], Any]] = {
         np.ndarray: convert_array_to_dict,
@@ -101,9 +113,7 @@ class OrquestraDecoder(json.JSONDecoder):
         elif "call_number" in obj and "value" in obj:
             cls = HistoryEntry if "artifacts" not in obj else HistoryEntryWithArtifacts
             return cls(**obj)
-        elif has_numerical_values(obj) and is_measurement_outcome_distribution(
-            preprocess_distibution_dict(obj)
-        ):
+        elif _is_distribution_dict(obj):
             return MeasurementOutcomeDistribution(obj, normalize=False)
         elif "schema" in obj and obj["schema"] in self.SCHEMA_MAP:
             return self.SCHEMA_MAP[obj.pop("schema")](obj)
-- 
2.43.0


From 9963287618f2d0f245352e9e65d33b4929002620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:32 +0000
Subject: [PATCH 38/52] fix: do not modify the optimization results being saved

---
 src/python/zquantum/core/serialization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/serialization.py b/src/python/zquantum/core/serialization.py
index 110f953..a8c4c28 100644
--- a/src/python/zquantum/core/serialization.py
+++ b/src/python/zquantum/core/serialization.py
@@ -122,7 +122,10 @@ class OrquestraDecoder(json.JSONDecoder):
 
 
 def save_optimization_results(optimization_results: dict, filename: AnyPath):
-    optimization_results["schema"] = SCHEMA_VERSION + "-optimization_result"
+    optimization_results = {
+        **optimization_results,
+        "schema": SCHEMA_VERSION + "-optimization_result",
+    }
     with open(filename, "wt") as target_file:
         json.dump(optimization_results, target_file, cls=OrquestraEncoder)
 
-- 
2.43.0


From ce8a12419084f83fab03ad55fa4d46a5a5854a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:08 +0000
Subject: [PATCH 39/52] fix: graphs of different sizes are not identical

---
 src/python/zquantum/core/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/zquantum/core/graph.py b/src/python/zquantum/core/graph.py
index 571549b..02555ce 100644
--- a/src/python/zquantum/core/graph.py
+++ b/src/python/zquantum/core/graph.py
@@ -49,6 +49,8 @@ def compare_graphs(graph1: nx.Graph, graph2: nx.Graph) -> bool:
     NOTE: this is *not* solving isomorphism problem.
     """
 
+    if len(graph1.nodes) != len(graph2.nodes) or len(graph1.edges) != len(graph2.edges):
+        return False
     for n1, n2 in zip(graph1.nodes, graph2.nodes):
         if n1 != n2:
             return False
-- 
2.43.0


From 90bc28aff2076898add7910c13cb39db681b1bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:40 +0000
Subject: [PATCH 40/52] fix: save the concatenated circuit as a circuit

---
 steps/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/circuit.py b/steps/circuit.py
index bb9b72f..0d47b04 100644
--- a/steps/circuit.py
+++ b/steps/circuit.py
@@ -107,7 +107,7 @@ def concatenate_circuits(circuit_set: Union[str, List[Circuit]]):
     if isinstance(circuit_set, str):
         circuit_set = load_circuitset(circuit_set)
     result_circuit = sum(circuit_set, Circuit())
-    save_circuitset(result_circuit, "result-circuit.json")
+    save_circuit(result_circuit, "result-circuit.json")
 
 
 # Create one circuitset from circuit and circuitset objects
-- 
2.43.0


From eee1e356b5baab9b0bdc25c0b3e6f1cac3b29816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:40 +0000
Subject: [PATCH 41/52] fix: do not append to the circuit set given to
 batch_circuits

---
 steps/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/circuit.py b/steps/circuit.py
index 0d47b04..5a4f3fd 100644
--- a/steps/circuit.py
+++ b/steps/circuit.py
@@ -121,7 +121,7 @@ def batch_circuits(
     elif isinstance(circuit_set, str):
         loaded_circuit_set = load_circuitset(circuit_set)
     else:
-        loaded_circuit_set = circuit_set
+        loaded_circuit_set = list(circuit_set)
 
     for circuit in circuits:
         if isinstance(circuit, str):
-- 
2.43.0


From 0efc32adb41487113f939a4e76880e7372c2222c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:40 +0000
Subject: [PATCH 42/52] fix: remove no core orbitals by default

---
 steps/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/operators.py b/steps/operators.py
index 406f237..6ee1122 100644
--- a/steps/operators.py
+++ b/steps/operators.py
@@ -172,7 +172,7 @@ def get_one_qubit_hydrogen_hamiltonian(
 def remove_inactive_orbitals(
     interaction_operator: str,
     n_active: Optional[int] = None,
-    n_core: Optional[int] = None,
+    n_core: int = 0,
 ):
 
     interaction_operator = load_interaction_operator(interaction_operator)
-- 
2.43.0


From fce1c7d93f53c706553b3d2734f12e54b81eec37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:40 +0000
Subject: [PATCH 43/52] fix: one qubit hamiltonians of operators with vanishing
 matrix elements

---
 steps/operators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/steps/operators.py b/steps/operators.py
index 6ee1122..90fd3f3 100644
--- a/steps/operators.py
+++ b/steps/operators.py
@@ -136,15 +136,15 @@ def get_one_qubit_hydrogen_hamiltonian(
 
     # H00
     H00 = normal_ordered(FermionOperator("0 1") * fermion_h * FermionOperator("1^ 0^"))
-    H00 = H00.terms[()]
+    H00 = H00.terms.get((), 0.0)
 
     # H11
     H11 = normal_ordered(FermionOperator("2 3") * fermion_h * FermionOperator("3^ 2^"))
-    H11 = H11.terms[()]
+    H11 = H11.terms.get((), 0.0)
 
     # H10
     H10 = normal_ordered(FermionOperator("2 3") * fermion_h * FermionOperator("1^ 0^"))
-    H10 = H10.terms[()]
+    H10 = H10.terms.get((), 0.0)
 
     # H01
     H01 = np.conj(H10)
-- 
2.43.0


From c9f314097798a21e2d731864dca0aeb464725fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:40 +0000
Subject: [PATCH 44/52] fix: accept operators where the steps say so

---
 steps/evaluation.py | 3 ++-
 steps/operators.py  | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/steps/evaluation.py b/steps/evaluation.py
index 4af2867..7c3189a 100644
--- a/steps/evaluation.py
+++ b/steps/evaluation.py
@@ -102,7 +102,8 @@ def get_ground_state_rdm_from_qubit_operator(
         qubit_operator: The openfermion operator to diagonalize
         n_particles: number of particles in the target ground state
     """
-    qubit_operator = load_qubit_operator(qubit_operator)
+    if isinstance(qubit_operator, str):
+        qubit_operator = load_qubit_operator(qubit_operator)
     rdm = _get_ground_state_rdm_from_qubit_op(qubit_operator, n_particles)
     save_interaction_rdm(rdm, "rdms.json")
 
diff --git a/steps/operators.py b/steps/operators.py
index 90fd3f3..5246bb7 100644
--- a/steps/operators.py
+++ b/steps/operators.py
@@ -95,8 +95,10 @@ def interpolate_qubit_operators(
         target_qubit_operator: The target operator
         epsilon: The parameterization between the two operators. Default value is 0.5
     """
-    reference_qubit_operator = load_qubit_operator(reference_qubit_operator)
-    target_qubit_operator = load_qubit_operator(target_qubit_operator)
+    if isinstance(reference_qubit_operator, str):
+        reference_qubit_operator = load_qubit_operator(reference_qubit_operator)
+    if isinstance(target_qubit_operator, str):
+        target_qubit_operator = load_qubit_operator(target_qubit_operator)
 
     if epsilon > 1.0 or epsilon < 0.0:
         raise ValueError("epsilon must be in the range [0.0, 1.0]")
-- 
2.43.0


From 8275a81b48d8199af6b70704935831787eac00cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:20 +0000
Subject: [PATCH 45/52] fix: restore compare_graphs as its tests have it

Reverts ce8a124: tests/zquantum/core/graph_test.py expects a prefix to compare equal.
---
 src/python/zquantum/core/graph.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/python/zquantum/core/graph.py b/src/python/zquantum/core/graph.py
index 02555ce..571549b 100644
--- a/src/python/zquantum/core/graph.py
+++ b/src/python/zquantum/core/graph.py
@@ -49,8 +49,6 @@ def compare_graphs(graph1: nx.Graph, graph2: nx.Graph) -> bool:
     NOTE: this is *not* solving isomorphism problem.
     """
 
-    if len(graph1.nodes) != len(graph2.nodes) or len(graph1.edges) != len(graph2.edges):
-        return False
     for n1, n2 in zip(graph1.nodes, graph2.nodes):
         if n1 != n2:
             return False
-- 
2.43.0


From 37067cafe645f21abab58e49fb3173c2c861b771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:16 +0000
Subject: [PATCH 46/52] fix: evaluate_parametrized_circuit uses the free
 symbols of the circuit

---
 steps/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/circuit.py b/steps/circuit.py
index 5a4f3fd..aba3ec2 100644
--- a/steps/circuit.py
+++ b/steps/circuit.py
@@ -144,6 +144,6 @@ def evaluate_parametrized_circuit(
     if isinstance(parameters, str):
         parameters = serialization.load_array(parameters)
 
-    symbols_map = create_symbols_map(parametrized_circuit.symbolic_params, parameters)
+    symbols_map = create_symbols_map(parametrized_circuit.free_symbols, parameters)
     bound_circuit = parametrized_circuit.bind(symbols_map)
     save_circuit(bound_circuit, "evaluated-circuit.json")
-- 
2.43.0


From 3e093f479142750114928aa9a7fc8e708baccc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:16 +0000
Subject: [PATCH 47/52] fix: import IsingOperator in
 get_summed_expectation_values

---
 steps/measure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/steps/measure.py b/steps/measure.py
index 9dca346..f2aa022 100644
--- a/steps/measure.py
+++ b/steps/measure.py
@@ -31,6 +31,7 @@ from zquantum.core.measurement import (
     save_expectation_values,
 )
 from zquantum.core.openfermion import (
+    IsingOperator,
     SymbolicOperator,
     change_operator_type,
     load_interaction_rdm,
-- 
2.43.0


From b5d60052c82db6aba0ffa0bb6d2be06fa9ad8616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:32 +0000
Subject: [PATCH 48/52] fix: bind the symbols of a wavefunction at once

---
 src/python/zquantum/core/wavefunction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index 2f08e15..a5c06bf 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -187,7 +187,7 @@ class Wavefunction:
         if not self.free_symbols:
             return self
         assert isinstance(self._amplitude_vector, Matrix)
-        result = self._amplitude_vector.subs(symbol_map)
+        result = self._amplitude_vector.subs(symbol_map, simultaneous=True)
 
         try:
             return type(self)(result)
-- 
2.43.0


From b80e98d4dd1e0eee7457e332ea447e939cc517c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:51 +0000
Subject: [PATCH 49/52] fix: random wavefunctions honour a seed of zero

---
 src/python/zquantum/core/testing/_initialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/testing/_initialize.py b/src/python/zquantum/core/testing/_initialize.py
index b564d59..58ab97e 100644
--- a/src/python/zquantum/core/testing/_initialize.py
+++ b/src/python/zquantum/core/testing/_initialize.py
@@ -122,7 +122,7 @@ def create_random_isingop(nqubits, nterms, seed=None):
 
 
 def create_random_wavefunction(n_qubits, seed=None):
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     random_vector = [
-- 
2.43.0


From a865fdcf6c6415869bf6529ec580299c9a528c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:24 +0000
Subject: [PATCH 50/52] fix: molecules without general calculations can be used
 and saved after loading

---
 src/python/zquantum/core/openfermion/chem/molecular_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/zquantum/core/openfermion/chem/molecular_data.py b/src/python/zquantum/core/openfermion/chem/molecular_data.py
index 8a3b331..ca5844f 100644
--- a/src/python/zquantum/core/openfermion/chem/molecular_data.py
+++ b/src/python/zquantum/core/openfermion/chem/molecular_data.py
@@ -983,6 +983,8 @@ class MolecularData(object):
                         key.tobytes().decode("utf-8"): value
                         for key, value in zip(keys[...], values[...])
                     }
+                else:
+                    self.general_calculations = {}
             else:
                 # TODO: test the no cover
                 # no coverage here because pathway is check on
-- 
2.43.0


From 2b5f41df911ea98dbd4f381dbeb752e5e2fb6f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:49 +0000
Subject: [PATCH 51/52] fix: the mock optimizer leaves the initial parameters
 it is given alone

---
 src/python/zquantum/core/interfaces/mock_objects.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/python/zquantum/core/interfaces/mock_objects.py b/src/python/zquantum/core/interfaces/mock_objects.py
index 2e2cbad..702f2c1 100644
--- a/src/python/zquantum/core/interfaces/mock_objects.py
+++ b/src/python/zquantum/core/interfaces/mock_objects.py
@@ -48,10 +48,7 @@ class MockOptimizer(Optimizer):
     def _minimize(
         self, cost_function, initial_params: np.ndarray, keep_history: bool = False
     ):
-        new_parameters = initial_params
-        for i in range(len(initial_params)):
-            new_parameters[i] += random.random()
-        new_parameters = np.array(new_parameters)
+        new_parameters = np.array([param + random.random() for param in initial_params])
         return optimization_result(
             opt_value=cost_function(new_parameters),
             opt_params=new_parameters,
-- 
2.43.0


From 6249a4520cdbe6c3b8afa8ff989ef9397b7c315a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:38 +0000
Subject: [PATCH 52/52] Revert "fix: random wavefunctions honour a seed of
 zero"

This reverts commit b80e98d4dd1e0eee7457e332ea447e939cc517c5.
---
 src/python/zquantum/core/testing/_initialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/testing/_initialize.py b/src/python/zquantum/core/testing/_initialize.py
index 58ab97e..b564d59 100644
--- a/src/python/zquantum/core/testing/_initialize.py
+++ b/src/python/zquantum/core/testing/_initialize.py
@@ -122,7 +122,7 @@ def create_random_isingop(nqubits, nterms, seed=None):
 
 
 def create_random_wavefunction(n_qubits, seed=None):
-    if seed is not None:
+    if seed:
         np.random.seed(seed)
 
     random_vector = [
-- 
2.43.0

