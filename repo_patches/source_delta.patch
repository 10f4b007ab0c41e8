From 32582109da4946b839bba105433bdf6c10583aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:53 +0000
Subject: [PATCH 01/38] fix: keep circuits whose requested shots equal the job
 limit when splitting shots

---
 qermit/taskgraph/mitres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/taskgraph/mitres.py b/qermit/taskgraph/mitres.py
index 74c473c..cce1a00 100644
--- a/qermit/taskgraph/mitres.py
+++ b/qermit/taskgraph/mitres.py
@@ -344,7 +344,7 @@ def split_shots_task_gen(max_shots: int) -> MitTask:
         for i, circ_shots in enumerate(circuit_wires):
             div_val = circ_shots.Shots // max_shots
             # Divide into jobs of size max_shots
-            if circ_shots.Shots > max_shots:
+            if circ_shots.Shots >= max_shots:
                 split_circuit_wires.extend(
                     [
                         CircuitShots(circ_shots.Circuit, max_shots)
-- 
2.43.0


From be8bcbddb12845a5838c1e6f8feb4a7a65a2c4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 02/38] fix: keep bit order when merging split shots

---
 qermit/taskgraph/mitres.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qermit/taskgraph/mitres.py b/qermit/taskgraph/mitres.py
index cce1a00..6320b3f 100644
--- a/qermit/taskgraph/mitres.py
+++ b/qermit/taskgraph/mitres.py
@@ -402,12 +402,14 @@ def group_shots_task_gen() -> MitTask:
 
         # For each circuit, combine the results.
         for chunk in grouped_results:
-            # Concatenate shots from all results
+            # Concatenate shots from all results. The columns of the readouts
+            # are in increasing order of the bits.
             combined_shots = np.concatenate([result.get_shots() for result in chunk])
             outcome_array = OutcomeArray.from_readouts(combined_shots)
             merged_results.append(
                 BackendResult(
-                    shots=outcome_array, c_bits=cast(Sequence[Bit], chunk[0].c_bits)
+                    shots=outcome_array,
+                    c_bits=cast(Sequence[Bit], sorted(chunk[0].c_bits)),
                 )
             )
 
-- 
2.43.0


From 949f2af70aceda8f0742fb1c75606443e7ce3363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 03/38] fix: decompose copies of nested task graphs, which may
 be shared

---
 qermit/taskgraph/task_graph.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/qermit/taskgraph/task_graph.py b/qermit/taskgraph/task_graph.py
index ae65a9d..2b5441f 100644
--- a/qermit/taskgraph/task_graph.py
+++ b/qermit/taskgraph/task_graph.py
@@ -222,8 +222,11 @@ class TaskGraph:
             for task in node_list:
                 # => TaskGraph object with _task_graph attribute for decomposition
                 if hasattr(task, "_task_graph"):
+                    # the structure held by the node may be shared with other
+                    # nodes, or TaskGraph objects, and so is copied
+                    sub_graph = deepcopy(task._task_graph)
                     # relabel task names for ease of viewing wit visualisation methods
-                    for sub_task in list(task._task_graph.nodes):
+                    for sub_task in list(sub_graph.nodes):
                         # in practice only IOTask
                         if hasattr(sub_task, "_label"):
                             sub_task._label = task._label + sub_task._label
@@ -231,12 +234,8 @@ class TaskGraph:
                     task_in_edges = list(self._task_graph.in_edges(task, keys=True))
                     task_out_edges = list(self._task_graph.out_edges(task, keys=True))
 
-                    task_input_out_edges = list(
-                        task._task_graph.out_edges(task._i, keys=True)
-                    )
-                    task_output_in_edges = list(
-                        task._task_graph.in_edges(task._o, keys=True)
-                    )
+                    task_input_out_edges = list(sub_graph.out_edges(task._i, keys=True))
+                    task_output_in_edges = list(sub_graph.in_edges(task._o, keys=True))
 
                     if (
                         len(
@@ -276,7 +275,7 @@ class TaskGraph:
                     for outside_edge, inside_edge in zip(
                         task_in_edges, task_input_out_edges
                     ):
-                        task._task_graph.remove_edge(inside_edge[0], inside_edge[1])
+                        sub_graph.remove_edge(inside_edge[0], inside_edge[1])
                         self._task_graph.remove_edge(outside_edge[0], outside_edge[1])
                         self._task_graph.add_edge(
                             outside_edge[0],
@@ -288,7 +287,7 @@ class TaskGraph:
                     for outside_edge, inside_edge in zip(
                         task_out_edges, task_output_in_edges
                     ):
-                        task._task_graph.remove_edge(inside_edge[0], inside_edge[1])
+                        sub_graph.remove_edge(inside_edge[0], inside_edge[1])
                         self._task_graph.remove_edge(outside_edge[0], outside_edge[1])
                         self._task_graph.add_edge(
                             inside_edge[0],
@@ -298,7 +297,7 @@ class TaskGraph:
                         )
 
                     # add all remaining edges, filling the rest of the subsituted graph
-                    self._task_graph.add_edges_from(task._task_graph.edges)
+                    self._task_graph.add_edges_from(sub_graph.edges)
                     self._task_graph.remove_node(task)
                     check_for_decompose = True
                     break
-- 
2.43.0


From 47771731710399f018580a2f981ef9732d577e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:07 +0000
Subject: [PATCH 04/38] fix: assign and read wires by port when running and
 decomposing task graphs

---
 qermit/clifford_noise_characterisation/ccl.py | 13 +++++
 qermit/taskgraph/task_graph.py                | 50 ++++++++++++-------
 2 files changed, 46 insertions(+), 17 deletions(-)

diff --git a/qermit/clifford_noise_characterisation/ccl.py b/qermit/clifford_noise_characterisation/ccl.py
index 259daf9..e2a73f2 100644
--- a/qermit/clifford_noise_characterisation/ccl.py
+++ b/qermit/clifford_noise_characterisation/ccl.py
@@ -586,6 +586,19 @@ def gen_CDR_MitEx(
         )
     )
     _experiment_taskgraph.append(_post_task_graph)
+    # the correction takes the confirmation that calibration is complete first,
+    # followed by the noisy expectation values
+    _experiment_taskgraph.append(
+        MitTask(
+            _label="CDRSwapWires",
+            _n_in_wires=2,
+            _n_out_wires=2,
+            _method=lambda obj, noisy_expectation, calibration_complete: (
+                calibration_complete,
+                noisy_expectation,
+            ),
+        )
+    )
     _experiment_taskgraph.append(cdr_correction_task_gen())
 
     return MitEx(device_backend).from_TaskGraph(_experiment_taskgraph)
diff --git a/qermit/taskgraph/task_graph.py b/qermit/taskgraph/task_graph.py
index 2b5441f..4dd289c 100644
--- a/qermit/taskgraph/task_graph.py
+++ b/qermit/taskgraph/task_graph.py
@@ -178,10 +178,8 @@ class TaskGraph:
         # schemes so fine
         task_copy = copy(task)
 
-        for i, edge in enumerate(list(self._task_graph.out_edges(self._i, keys=True))):
-            self._task_graph.add_edge(
-                task_copy, edge[1], key=(i, edge[2][1]), data=None
-            )
+        for edge in list(self._task_graph.out_edges(self._i, keys=True)):
+            self._task_graph.add_edge(task_copy, edge[1], key=edge[2], data=None)
             self._task_graph.remove_edge(edge[0], edge[1])
 
         for port in range(task_copy.n_in_wires):
@@ -231,11 +229,24 @@ class TaskGraph:
                         if hasattr(sub_task, "_label"):
                             sub_task._label = task._label + sub_task._label
 
-                    task_in_edges = list(self._task_graph.in_edges(task, keys=True))
-                    task_out_edges = list(self._task_graph.out_edges(task, keys=True))
-
-                    task_input_out_edges = list(sub_graph.out_edges(task._i, keys=True))
-                    task_output_in_edges = list(sub_graph.in_edges(task._o, keys=True))
+                    # edges are matched by the port of the node they connect to
+                    task_in_edges = sorted(
+                        self._task_graph.in_edges(task, keys=True),
+                        key=lambda edge: edge[2][1],
+                    )
+                    task_out_edges = sorted(
+                        self._task_graph.out_edges(task, keys=True),
+                        key=lambda edge: edge[2][0],
+                    )
+
+                    task_input_out_edges = sorted(
+                        sub_graph.out_edges(task._i, keys=True),
+                        key=lambda edge: edge[2][0],
+                    )
+                    task_output_in_edges = sorted(
+                        sub_graph.in_edges(task._o, keys=True),
+                        key=lambda edge: edge[2][1],
+                    )
 
                     if (
                         len(
@@ -352,10 +363,13 @@ class TaskGraph:
 
         :return: Data from input edges to output vertex, assigned as wires.
         """
-        for edge, wire in zip(
-            self._task_graph.out_edges(self._i, data=True), input_wires
-        ):
-            edge[2]["data"] = wire
+        # wires are assigned to the ports of the input vertex in order
+        input_edges = sorted(
+            self._task_graph.out_edges(self._i, data=True, keys=True),
+            key=lambda edge: edge[2][0],
+        )
+        for edge, wire in zip(input_edges, input_wires):
+            edge[3]["data"] = wire
 
         # topological_sort fixes any dependency issues so can iterate and assume
         # input wires all realised before a task is reached
@@ -398,10 +412,12 @@ class TaskGraph:
             for _, _, ports, o_data in out_edges:
                 o_data["data"] = outputs[ports[0]]
 
-        output_wire = [
-            edge[2]["data"]
-            for edge in list(self._task_graph.in_edges(self._o, data=True))
-        ]
+        # wires are read from the ports of the output vertex in order
+        output_edges = sorted(
+            self._task_graph.in_edges(self._o, data=True, keys=True),
+            key=lambda edge: edge[2][1],
+        )
+        output_wire = [edge[3]["data"] for edge in output_edges]
         return cast(Tuple[List[Wire]], tuple(output_wire))
 
     def get_cache(self) -> OrderedDict[str, Tuple[MitTask, List[Wire]]]:
-- 
2.43.0


From 4626c60a5ffee22f73167b024370d125d25ace42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:24 +0000
Subject: [PATCH 05/38] fix: keep observable trackers independent of each other
 and of the operator given

---
 qermit/taskgraph/utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/qermit/taskgraph/utils.py b/qermit/taskgraph/utils.py
index 8c88520..0da4d30 100644
--- a/qermit/taskgraph/utils.py
+++ b/qermit/taskgraph/utils.py
@@ -231,7 +231,8 @@ class ObservableTracker:
         :param qubit_pauli_operator: QubitPauliOperator for which given ObservableTracker is expected
             to retain measurement circuits all QubitPauliString keys for before any Backend execution.
         """
-        self._qubit_pauli_operator = qubit_pauli_operator
+        # the operator is copied as it is modified by methods of this class
+        self._qubit_pauli_operator = QubitPauliOperator(qubit_pauli_operator._dict)
         # indices being index in measurement circuits
         self._qps_to_indices: Dict[
             QubitPauliString, List[Tuple[int, List[Bit], bool]]
@@ -252,11 +253,13 @@ class ObservableTracker:
         # these variables could be mutated in the first ObservableTracker and effect
         # this one
         # To fix, copy everything
-        new_obj = ObservableTracker(copy(to_copy._qubit_pauli_operator))
+        new_obj = ObservableTracker(to_copy._qubit_pauli_operator)
 
-        new_obj._qps_to_indices = copy(to_copy._qps_to_indices)
+        new_obj._qps_to_indices = {
+            qps: copy(indices) for qps, indices in to_copy._qps_to_indices.items()
+        }
         new_obj._measurement_circuits = copy(to_copy._measurement_circuits)
-        new_obj._partitions = copy(to_copy._partitions)
+        new_obj._partitions = [copy(partition) for partition in to_copy._partitions]
         return new_obj
 
     def __str__(self):
-- 
2.43.0


From b2ca907018eee006e2f3c4dfd796b8519e70c4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 06/38] fix: track the strings added by
 ObservableTracker.extend_operator

---
 qermit/taskgraph/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qermit/taskgraph/utils.py b/qermit/taskgraph/utils.py
index 0da4d30..77aed5d 100644
--- a/qermit/taskgraph/utils.py
+++ b/qermit/taskgraph/utils.py
@@ -305,6 +305,9 @@ class ObservableTracker:
         :param new_operator: Each QubitPauliString and coefficient added to held operator.
         """
         self._qubit_pauli_operator += new_operator
+        for qps in new_operator._dict.keys():
+            if qps not in self._qps_to_indices:
+                self._qps_to_indices[qps] = list()
 
     def remove_strings(self, strings: List[QubitPauliString]):
         """
-- 
2.43.0


From daac4c0634dc288e7d5cf00cbed9686a3f76297c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 07/38] fix: match measured bits with correlation matrices held
 largest subset first

---
 qermit/spam/full_transition_tomography.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qermit/spam/full_transition_tomography.py b/qermit/spam/full_transition_tomography.py
index 0f14950..3ac934b 100644
--- a/qermit/spam/full_transition_tomography.py
+++ b/qermit/spam/full_transition_tomography.py
@@ -506,7 +506,8 @@ def correct_transition_noise(
     # if qubit in subset has no bit, skip it
     char_bits_order = []
     unused_final_qbs = []
-    for subset in noise_characterisation.CorrelatedNodes:
+    # matrices are held from largest to smallest subset
+    for subset in sorted(noise_characterisation.CorrelatedNodes, key=len, reverse=True):
         for q in subset:
             if q in final_measures_qb_map:
                 char_bits_order.append(final_measures_qb_map[q])
-- 
2.43.0


From 1e96daf61bd54f76617a6496c6d18fa4b2b9cbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:02 +0000
Subject: [PATCH 08/38] fix: keep implicit qubit permutations, bits and phase
 when folding gates

---
 qermit/zero_noise_extrapolation/zne.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/qermit/zero_noise_extrapolation/zne.py b/qermit/zero_noise_extrapolation/zne.py
index c075b35..3921960 100644
--- a/qermit/zero_noise_extrapolation/zne.py
+++ b/qermit/zero_noise_extrapolation/zne.py
@@ -187,10 +187,13 @@ class Folding(Enum):
                 "in the compiled circuit, and i is an integer."
             )
 
-        # Copy qubit register of original circuit.
+        # Copy registers and phase of original circuit.
         folded_circuit = Circuit()
         for qubit in circ.qubits:
             folded_circuit.add_qubit(qubit)
+        for bit in circ.bits:
+            folded_circuit.add_bit(bit)
+        folded_circuit.add_phase(circ.phase)
 
         for i, gate in enumerate(circ.get_commands()):
             # Barriers are not folded and added as given.
@@ -211,6 +214,11 @@ class Folding(Enum):
             else:
                 folded_circuit.add_gate(gate.op, gate.args)
 
+        # Qubits may be implicitly permuted at the end of the original circuit.
+        folded_dict = folded_circuit.to_dict()
+        folded_dict["implicit_permutation"] = circ.to_dict()["implicit_permutation"]
+        folded_circuit = Circuit.from_dict(folded_dict)
+
         return [folded_circuit]
 
     @staticmethod
@@ -270,9 +278,15 @@ class Folding(Enum):
         # Calculate how many times each individual command needs to be folded
         num_folds = {i: list(commands_to_fold).count(i) for i in range(num_commands)}
 
+        # The circuits used to invert single commands should not permute qubits.
         command_circ_dict = {
-            key: val for key, val in c_dict.items() if key != "commands"
+            key: val
+            for key, val in c_dict.items()
+            if key not in ("commands", "implicit_permutation")
         }
+        command_circ_dict["implicit_permutation"] = [
+            [qubit, qubit] for qubit in c_dict["qubits"]
+        ]
 
         folded_command_list = []
         # For each command, fold the appropriate number of times.
@@ -336,9 +350,15 @@ class Folding(Enum):
         fold = True
         folded_command_list = []
 
+        # The circuits used to invert single commands should not permute qubits.
         command_circ_dict = {
-            key: val for key, val in c_dict.items() if key != "commands"
+            key: val
+            for key, val in c_dict.items()
+            if key not in ("commands", "implicit_permutation")
         }
+        command_circ_dict["implicit_permutation"] = [
+            [qubit, qubit] for qubit in c_dict["qubits"]
+        ]
 
         for command in c_dict["commands"]:
             # Barriers are added to the circuit but otherwise effectively
-- 
2.43.0


From 5347e7e824e500b6c0a5e37c014892e1ea443f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:36 +0000
Subject: [PATCH 09/38] fix: fold exactly when the noise scaling can be reached
 exactly

---
 qermit/zero_noise_extrapolation/zne.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qermit/zero_noise_extrapolation/zne.py b/qermit/zero_noise_extrapolation/zne.py
index 3921960..ce7b02e 100644
--- a/qermit/zero_noise_extrapolation/zne.py
+++ b/qermit/zero_noise_extrapolation/zne.py
@@ -167,7 +167,8 @@ class Folding(Enum):
         fold_frac = ((noise_scaling - 1) % 2) / 2
         to_fold = np.random.choice(
             list(num_folds_dict.keys()),
-            size=int(len(num_folds_dict.keys()) * fold_frac),
+            # Allow for rounding errors in the calculation of fold_frac.
+            size=int(len(num_folds_dict.keys()) * fold_frac + 1e-6),
             replace=False,
         )
         for i in to_fold:
@@ -256,7 +257,8 @@ class Folding(Enum):
         # Calculate the number of gates that need to be folded. Note that only
         # non barrier commands should be folded so only these are counted.
         num_additional_commands = (noise_scaling - 1) * num_non_barrier_commands
-        num_folded_commands = int(num_additional_commands // 2)
+        # Allow for rounding errors in the calculation above.
+        num_folded_commands = int((num_additional_commands + 1e-6) // 2)
 
         true_noise_scaling = 1 + ((num_folded_commands * 2) / num_non_barrier_commands)
         # This check isolates the case where the noise folding that can be achieved is different
-- 
2.43.0


From fb2be471b0ce682826b37263b845a3bbe49de0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:17 +0000
Subject: [PATCH 10/38] fix: fold gates of circuits with classical bits

---
 qermit/zero_noise_extrapolation/zne.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/qermit/zero_noise_extrapolation/zne.py b/qermit/zero_noise_extrapolation/zne.py
index ce7b02e..a2deb8f 100644
--- a/qermit/zero_noise_extrapolation/zne.py
+++ b/qermit/zero_noise_extrapolation/zne.py
@@ -280,12 +280,14 @@ class Folding(Enum):
         # Calculate how many times each individual command needs to be folded
         num_folds = {i: list(commands_to_fold).count(i) for i in range(num_commands)}
 
-        # The circuits used to invert single commands should not permute qubits.
+        # The circuits used to invert single commands should not permute qubits
+        # or include bits, which cannot be inverted.
         command_circ_dict = {
             key: val
             for key, val in c_dict.items()
-            if key not in ("commands", "implicit_permutation")
+            if key not in ("bits", "commands", "implicit_permutation")
         }
+        command_circ_dict["bits"] = []
         command_circ_dict["implicit_permutation"] = [
             [qubit, qubit] for qubit in c_dict["qubits"]
         ]
@@ -352,12 +354,14 @@ class Folding(Enum):
         fold = True
         folded_command_list = []
 
-        # The circuits used to invert single commands should not permute qubits.
+        # The circuits used to invert single commands should not permute qubits
+        # or include bits, which cannot be inverted.
         command_circ_dict = {
             key: val
             for key, val in c_dict.items()
-            if key not in ("commands", "implicit_permutation")
+            if key not in ("bits", "commands", "implicit_permutation")
         }
+        command_circ_dict["bits"] = []
         command_circ_dict["implicit_permutation"] = [
             [qubit, qubit] for qubit in c_dict["qubits"]
         ]
-- 
2.43.0


From 6c16701370d9fbd892d081c75cdd7a8b95ec64f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:52 +0000
Subject: [PATCH 11/38] fix: keep qubits, bits, phase and implicit permutations
 when adding Pauli errors

---
 qermit/noise_model/pauli_error_transpile.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/qermit/noise_model/pauli_error_transpile.py b/qermit/noise_model/pauli_error_transpile.py
index 2c39844..6bc0f5a 100644
--- a/qermit/noise_model/pauli_error_transpile.py
+++ b/qermit/noise_model/pauli_error_transpile.py
@@ -23,12 +23,13 @@ def PauliErrorTranspile(noise_model: NoiseModel) -> BasePass:
         :return: Circuit with additional noise operations.
         """
 
-        # Initialise circuit with the same registers as input.
+        # Initialise circuit with the same qubits, bits and phase as input.
         noisy_circuit = Circuit()
-        for q_register in circuit.q_registers:
-            noisy_circuit.add_q_register(q_register)
-        for c_register in circuit.c_registers:
-            noisy_circuit.add_c_register(c_register)
+        for circuit_qubit in circuit.qubits:
+            noisy_circuit.add_qubit(circuit_qubit)
+        for bit in circuit.bits:
+            noisy_circuit.add_bit(bit)
+        noisy_circuit.add_phase(circuit.phase)
 
         # Add each command in the original circuit,
         # and a pauli error if appropriate.
@@ -57,6 +58,9 @@ def PauliErrorTranspile(noise_model: NoiseModel) -> BasePass:
                                 "Not a Pauli noise model." + f" Contains {pauli} error"
                             )
 
-        return noisy_circuit
+        # Qubits may be implicitly permuted at the end of the input circuit.
+        noisy_dict = noisy_circuit.to_dict()
+        noisy_dict["implicit_permutation"] = circuit.to_dict()["implicit_permutation"]
+        return Circuit.from_dict(noisy_dict)
 
     return CustomPass(add_gates)
-- 
2.43.0


From 8dbe4d196f9e0e65bab4c586a3c27653182632fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:53 +0000
Subject: [PATCH 12/38] fix: use the states_simulator_mitex given to
 gen_CDR_MitEx

---
 qermit/clifford_noise_characterisation/ccl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/clifford_noise_characterisation/ccl.py b/qermit/clifford_noise_characterisation/ccl.py
index e2a73f2..7e2d154 100644
--- a/qermit/clifford_noise_characterisation/ccl.py
+++ b/qermit/clifford_noise_characterisation/ccl.py
@@ -518,7 +518,7 @@ def gen_CDR_MitEx(
     """
     _states_sim_mitex = copy(
         kwargs.get(
-            "states_simluator_mitex",
+            "states_simulator_mitex",
             MitEx(
                 simulator_backend,
                 _label="StatesSimMitEx",
-- 
2.43.0


From 1f36f8aa8ad71f26ee7611a27a2079eb78a78fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:20 +0000
Subject: [PATCH 13/38] fix: keep implicit swaps in state circuits

---
 qermit/clifford_noise_characterisation/ccl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qermit/clifford_noise_characterisation/ccl.py b/qermit/clifford_noise_characterisation/ccl.py
index 7e2d154..d3c01a9 100644
--- a/qermit/clifford_noise_characterisation/ccl.py
+++ b/qermit/clifford_noise_characterisation/ccl.py
@@ -134,6 +134,8 @@ def gen_state_circuits(
 
     # Work in CX, H, Rz basis for ease
     DecomposeBoxes().apply(c)
+    # Circuits are rebuilt from their commands, which do not include implicit swaps
+    c.replace_implicit_wire_swaps()
     ufr_rebase.apply(c)
     c.flatten_registers()
     all_coms = c.get_commands()
-- 
2.43.0


From 1e3d84b6ae2592a46b637f7e887b75c1fc1d99bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:18 +0000
Subject: [PATCH 14/38] fix: correct by the magnitude of DFSC characterisations
 prepared in -1 eigenstates

---
 qermit/clifford_noise_characterisation/dfsc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qermit/clifford_noise_characterisation/dfsc.py b/qermit/clifford_noise_characterisation/dfsc.py
index 9a945ef..471954f 100644
--- a/qermit/clifford_noise_characterisation/dfsc.py
+++ b/qermit/clifford_noise_characterisation/dfsc.py
@@ -291,7 +291,9 @@ def DFSC_correction_task_gen(zero_threshold: float) -> MitTask:
         ):
             new_qpo = dict()
             for key in experiment_qpo._dict:
-                val = characterisation_qpo._dict[key]
+                # states prepared for characterisation may have eigenvalue -1, while
+                # noise changes the magnitude of the expectation
+                val = abs(characterisation_qpo._dict[key])
                 if val > zero_threshold:
                     new_qpo[key] = experiment_qpo._dict[key] / val
                 else:
-- 
2.43.0


From 1b477ea4d5166fca1596caac3869db966b504522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:26 +0000
Subject: [PATCH 15/38] fix: recognise measurements when generating state
 circuits

---
 qermit/clifford_noise_characterisation/ccl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qermit/clifford_noise_characterisation/ccl.py b/qermit/clifford_noise_characterisation/ccl.py
index d3c01a9..4aa39ac 100644
--- a/qermit/clifford_noise_characterisation/ccl.py
+++ b/qermit/clifford_noise_characterisation/ccl.py
@@ -180,7 +180,7 @@ def gen_state_circuits(
                     )
                     new_circuit.add_barrier(cast(List[UnitID], com.qubits))
                 # Measure gate has special case, but can assume 1 qubit to 1 bit
-                elif com.op.type is OpType.Measure:
+                elif com.op.type == OpType.Measure:
                     new_circuit.Measure(com.qubits[0], com.bits[0])
                 # A special case for Barrier metaop
                 elif com.op.type == OpType.Barrier:
@@ -262,7 +262,7 @@ def gen_state_circuits(
                     )
                     new_circuit.add_barrier(cast(List[UnitID], com.qubits))
             # Measure gate has special case, but can assume 1 qubit to 1 bit
-            elif com.op.type is OpType.Measure:
+            elif com.op.type == OpType.Measure:
                 new_circuit.Measure(com.qubits[0], com.bits[0])
             # A special case for Barrier metaop
             elif com.op.type == OpType.Barrier:
-- 
2.43.0


From c68b5607f49f0710134e062126adcc23bb623ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:55 +0000
Subject: [PATCH 16/38] fix: keep Clifford angles of state circuits with one
 non-Clifford gate

---
 qermit/clifford_noise_characterisation/ccl.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qermit/clifford_noise_characterisation/ccl.py b/qermit/clifford_noise_characterisation/ccl.py
index 4aa39ac..920f705 100644
--- a/qermit/clifford_noise_characterisation/ccl.py
+++ b/qermit/clifford_noise_characterisation/ccl.py
@@ -174,7 +174,12 @@ def gen_state_circuits(
                         raise Exception(
                             "Circuit cannot include parameters which are not floats."
                         )
-                    angle = sample_weighted_clifford_angle(original_angle)
+                    # as for other circuits, only non-Clifford gates are substituted
+                    angle = (
+                        sample_weighted_clifford_angle(original_angle)
+                        if i in rz_ops
+                        else original_angle
+                    )
                     new_circuit.add_gate(
                         com.op.type, [angle], cast(List[UnitID], com.qubits)
                     )
-- 
2.43.0


From 15f5ec052129d3edbda9830bc34889ce3dea0c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:01 +0000
Subject: [PATCH 17/38] fix: sample Clifford circuits uniformly at random

---
 .../cliff_circuit_gen.py                      | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py b/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
index 8b4e4ed..5198773 100644
--- a/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
+++ b/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
@@ -72,11 +72,10 @@ def clifford_canonical_F(
 
     :param pauli_layer: Description of which Pauli gate should act on each qubits. This is an element of {0,1,2,3}^n
     with 0 -> I, 1->X, 2->Y, 3->Z.
-    :param gamma: Describes on which qubits CX acts. In particular the circuit contains CX_{i,j} if
-    gamma[i][j]=1. The gates are ordered such the control qubit index increases with time.
-    :param delta: Describes on which qubits CZ acts. In particular the circuit contains CX_{i,j} if
-    delta[i][j]=1. The gates are ordered such the control qubit index increases with time. The circuit include S_i
-    if delta[i][i]=1.
+    :param gamma: Describes on which qubits CZ acts. In particular the circuit contains CZ_{i,j}, for i<j, if
+    gamma[i][j]=1. The circuit includes S_i if gamma[i][i]=1.
+    :param delta: Describes on which qubits CX acts. In particular the circuit contains CX_{i,j}, for i<j, if
+    delta[j][i]=1. The gates are ordered such the target qubit index increases with time.
     :return: A Hadamard free Clifford circuit.
     """
 
@@ -85,7 +84,7 @@ def clifford_canonical_F(
     # Add layer of CX gates
     for j in range(len(delta)):
         for i in range(j):
-            if delta[i][j]:
+            if delta[j][i]:
                 circ.CX(i, j, opgroup="Clifford 2")
 
     # Add layer of CZ gates
@@ -101,11 +100,11 @@ def clifford_canonical_F(
 
     # Add Pauli gate
     for i, gate in enumerate(pauli_layer):
-        if gate == 0:
+        if gate == 1:
             circ.X(i, opgroup="Clifford 1")
-        elif gate == 1:
-            circ.Y(i, opgroup="Clifford 1")
         elif gate == 2:
+            circ.Y(i, opgroup="Clifford 1")
+        elif gate == 3:
             circ.Z(i, opgroup="Clifford 1")
 
     return circ
@@ -213,7 +212,7 @@ def random_clifford_circ(n_qubits: int, **kwargs) -> Circuit:
 
     # Append Clifford gate. Here the Pauli gates are assigned at random.
     cliff_circ = clifford_canonical_F(
-        [np.random.randint(2) for _ in range(n_qubits)], Gamma2, Delta2
+        [np.random.randint(4) for _ in range(n_qubits)], Gamma2, Delta2
     )
     circ = circ.add_circuit(cliff_circ, [i for i in range(n_qubits)], [])
 
-- 
2.43.0


From c489d0f413e14822bb767252bde7170e77994ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:01 +0000
Subject: [PATCH 18/38] fix: keep the random state when sampling Clifford
 circuits without a seed

---
 qermit/probabilistic_error_cancellation/cliff_circuit_gen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py b/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
index 5198773..e1ab20d 100644
--- a/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
+++ b/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
@@ -201,7 +201,8 @@ def random_clifford_circ(n_qubits: int, **kwargs) -> Circuit:
     :return: A random Clifford circuit acting on n_qubits qubits
     """
 
-    np.random.seed(kwargs.get("seed", None))
+    if "seed" in kwargs:
+        np.random.seed(kwargs.get("seed"))
 
     circ = Circuit(n_qubits)
 
-- 
2.43.0


From b165319b8d831c208dbe1801fa0cd7a0dc7733ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:01 +0000
Subject: [PATCH 19/38] fix: label only TK1 and CX gates

---
 qermit/probabilistic_error_cancellation/pec_learning_based.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qermit/probabilistic_error_cancellation/pec_learning_based.py b/qermit/probabilistic_error_cancellation/pec_learning_based.py
index 845ed87..6ee2148 100644
--- a/qermit/probabilistic_error_cancellation/pec_learning_based.py
+++ b/qermit/probabilistic_error_cancellation/pec_learning_based.py
@@ -662,10 +662,10 @@ def label_gates(circ: Circuit) -> Circuit:
     frame_count = 0
     for command in command_list:
         labelled_command = command.copy()
-        if labelled_command["op"]["type"] in ("TK1"):
+        if labelled_command["op"]["type"] == "TK1":
             labelled_command["opgroup"] = "Computing %i" % comp_count
             comp_count += 1
-        elif labelled_command["op"]["type"] in ("CX"):
+        elif labelled_command["op"]["type"] == "CX":
             labelled_command["opgroup"] = "Frame %i" % frame_count
             frame_count += 1
         else:
-- 
2.43.0


From 316811419de154a07a083aa13ef50b825f832ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 20/38] fix: keep the qubits of PEC training circuits

---
 .../pec_learning_based.py                                | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qermit/probabilistic_error_cancellation/pec_learning_based.py b/qermit/probabilistic_error_cancellation/pec_learning_based.py
index 6ee2148..3cab805 100644
--- a/qermit/probabilistic_error_cancellation/pec_learning_based.py
+++ b/qermit/probabilistic_error_cancellation/pec_learning_based.py
@@ -136,16 +136,19 @@ def random_commuting_clifford(
 
         new_qps = QubitPauliString(cast(List[Qubit], new_qps_qbs), qps_paulis)
 
-        place_with_map(rand_cliff_circ, n_q_map)
+        # Only the circuit simulated here is placed, as qps names the qubits
+        # of the circuit returned
+        placed_circ = rand_cliff_circ.copy()
+        place_with_map(placed_circ, n_q_map)
 
         # Check if state is supported, otherwise use shots, otherwise raise error
         if simulator_backend.supports_state:
             expect_val = get_pauli_expectation_value(
-                rand_cliff_circ, new_qps, simulator_backend
+                placed_circ, new_qps, simulator_backend
             )
         elif simulator_backend.supports_shots or simulator_backend.supports_counts:
             expect_val = get_pauli_expectation_value(
-                rand_cliff_circ, new_qps, simulator_backend, n_shots=n_shots
+                placed_circ, new_qps, simulator_backend, n_shots=n_shots
             )
         else:
             raise RuntimeError(
-- 
2.43.0


From bbce8ae8a98d3af8cbdc6be2c7d0a9abb39e0c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 21/38] fix: do not share characterisation between copies of
 task graphs

---
 qermit/taskgraph/task_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/taskgraph/task_graph.py b/qermit/taskgraph/task_graph.py
index 4dd289c..797216e 100644
--- a/qermit/taskgraph/task_graph.py
+++ b/qermit/taskgraph/task_graph.py
@@ -67,7 +67,7 @@ class TaskGraph:
         """
         self._task_graph = deepcopy(task_graph._task_graph)
         self._label = task_graph._label
-        self.characterisation = task_graph.characterisation
+        self.characterisation = dict(task_graph.characterisation)
         return self
 
     @property
-- 
2.43.0


From 214a8fcdf3c120e0c15e0bd0c4092798b57c31db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:59 +0000
Subject: [PATCH 22/38] fix: leave the MitEx given to
 gen_MeasurementReduction_MitEx unchanged

---
 qermit/taskgraph/measurement_reduction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qermit/taskgraph/measurement_reduction.py b/qermit/taskgraph/measurement_reduction.py
index b9e3e11..f59a559 100644
--- a/qermit/taskgraph/measurement_reduction.py
+++ b/qermit/taskgraph/measurement_reduction.py
@@ -13,7 +13,7 @@
 # limitations under the License.
 
 
-from copy import copy
+from copy import deepcopy
 from typing import Dict, List, Tuple
 
 from pytket import Bit
@@ -117,7 +117,7 @@ def gen_MeasurementReduction_MitEx(backend: Backend, **kwargs) -> MitEx:
     :return: MitEx object performing Measurement reduction
     """
     # mitex object to built measurement reduction
-    _mitex = copy(
+    _mitex = deepcopy(
         kwargs.get("mitex", MitEx(backend, _label="MeasurementReductionMitEx"))
     )
     _mitex._label = "MeasurementReductionMitEx"
-- 
2.43.0


From af748596b5d2e398d3e0bc808af6960bf16b0087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:59 +0000
Subject: [PATCH 23/38] fix: leave the MitRes given to
 gen_Frame_Randomisation_MitRes unchanged

---
 qermit/frame_randomisation/frame_randomisation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qermit/frame_randomisation/frame_randomisation.py b/qermit/frame_randomisation/frame_randomisation.py
index 6a2f01e..354b597 100644
--- a/qermit/frame_randomisation/frame_randomisation.py
+++ b/qermit/frame_randomisation/frame_randomisation.py
@@ -14,7 +14,7 @@
 
 
 import operator
-from copy import copy
+from copy import copy, deepcopy
 from enum import Enum
 from functools import reduce
 from math import ceil
@@ -168,7 +168,7 @@ def gen_Frame_Randomisation_MitRes(backend: Backend, samples: int, **kwargs) ->
     :key frame_randomisation: FrameRandomisation Enum passed to specify method used.
         Default set to FrameRandomisation.UniversalFrameRandomisation.
     """
-    _mitres = copy(
+    _mitres = deepcopy(
         kwargs.get("mitres", MitRes(backend, _label="FrameRandomisationMitRes"))
     )
     _fr_type = copy(
-- 
2.43.0


From 3f5a62d08cf110fddb116b76701a1a4a415dc4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:08 +0000
Subject: [PATCH 24/38] fix: keep bit order when collating frame randomisation
 results

---
 qermit/frame_randomisation/frame_randomisation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qermit/frame_randomisation/frame_randomisation.py b/qermit/frame_randomisation/frame_randomisation.py
index 354b597..19e85fc 100644
--- a/qermit/frame_randomisation/frame_randomisation.py
+++ b/qermit/frame_randomisation/frame_randomisation.py
@@ -144,7 +144,8 @@ def frame_randomisation_result_task_gen(samples: int) -> MitTask:
             outcome_counts = Counter(outcome_array)
             results.append(
                 BackendResult(
-                    counts=outcome_counts, c_bits=cast(Sequence[Bit], chunk[0].c_bits)
+                    counts=outcome_counts,
+                    c_bits=sorted(cast(Sequence[Bit], chunk[0].c_bits)),
                 )
             )
         return (results,)
-- 
2.43.0


From 5f1b5399d65f8a83cd665238e6a90276aa1a8c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:10 +0000
Subject: [PATCH 25/38] fix: scale error distributions which are empty or
 include negligible or identity errors

---
 qermit/noise_model/noise_model.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/qermit/noise_model/noise_model.py b/qermit/noise_model/noise_model.py
index 943d14b..944e403 100644
--- a/qermit/noise_model/noise_model.py
+++ b/qermit/noise_model/noise_model.py
@@ -145,7 +145,18 @@ class ErrorDistribution:
                 + "Please report this as an issue."
             )
 
-        if not self == ErrorDistribution.from_ptm(ptm=ptm, pauli_index=pauli_index):
+        # Note that the distribution recovered from the PTM includes neither
+        # the identity nor errors with negligible probability.
+        recovered = ErrorDistribution.from_ptm(ptm=ptm, pauli_index=pauli_index)
+        if not all(
+            math.isclose(
+                self.distribution.get(error, 0),
+                recovered.distribution.get(error, 0),
+                abs_tol=0.01,
+            )
+            for error in pauli_index
+            if error != identity
+        ):
             raise Exception(
                 "From PTM does not match to PTM. "
                 + "This is a fault in Qermit. "
@@ -396,6 +407,10 @@ class ErrorDistribution:
         :return: A new error distribution with the noise scaled.
         """
 
+        # If there is no noise then there is nothing to be scaled.
+        if self.distribution == {}:
+            return ErrorDistribution(distribution={})
+
         ptm, pauli_index = self.to_ptm()
         scaled_ptm = fractional_matrix_power(ptm, scaling_factor)
         return ErrorDistribution.from_ptm(ptm=scaled_ptm, pauli_index=pauli_index)
-- 
2.43.0


From 005d7a1ae8612f926582bf843a689dad84eac121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:10 +0000
Subject: [PATCH 26/38] fix: include implicit qubit permutations when commuting
 Paulis through circuits

---
 qermit/noise_model/qermit_pauli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qermit/noise_model/qermit_pauli.py b/qermit/noise_model/qermit_pauli.py
index 2b16823..9884c8b 100644
--- a/qermit/noise_model/qermit_pauli.py
+++ b/qermit/noise_model/qermit_pauli.py
@@ -115,6 +115,10 @@ class QermitPauli:
         :param circuit: Circuit to be applied.
         """
 
+        # Include implicit qubit permutations.
+        circuit = circuit.copy()
+        circuit.replace_implicit_wire_swaps()
+
         for command in circuit.get_commands():
             if command.op.type == OpType.Barrier:
                 continue
-- 
2.43.0


From 0205a1df97d85f6556bcd8582080ca759167a098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 27/38] fix: keep the order of commands sharing bits when
 boxing Clifford subcircuits

---
 .../box_clifford_subcircuits.py               | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/qermit/coherent_pauli_checks/box_clifford_subcircuits.py b/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
index 093c90b..a327a5d 100644
--- a/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
+++ b/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
@@ -1,5 +1,5 @@
 import networkx as nx  # type: ignore
-from pytket._tket.unit_id import Qubit
+from pytket._tket.unit_id import Qubit, UnitID
 from pytket.circuit import CircBox, Circuit, Command, OpType
 from pytket.passes import BasePass, CustomPass
 
@@ -84,22 +84,22 @@ def _circuit_to_graph(circuit: Circuit) -> tuple[nx.DiGraph, list[Command]]:
     :return: Tuple of graph and list of commands. Nodes are indexes
         in the list of commands.
     """
-    # Lists the most recent node to act on a particular qubits. If a
-    # new gate is found to act on that qubit then an edge between the
+    # Lists the most recent node to act on a particular qubit or bit. If a
+    # new gate is found to act on that unit then an edge between the
     # node which corresponds to the new gate and the node which
-    # most recently acted on that qubit is added. This builds a DAG
+    # most recently acted on that unit is added. This builds a DAG
     # showing the temporal order of gates.
     node_command = circuit.get_commands()
-    current_node: dict[Qubit, int] = {}
+    current_node: dict[UnitID, int] = {}
     dag = nx.DiGraph()
     for node, command in enumerate(node_command):
         dag.add_node(node)
-        for qubit in command.qubits:
-            # This if statement is used in case the qubit has not been
+        for unit in command.args:
+            # This if statement is used in case the unit has not been
             # acted on yet.
-            if qubit in current_node.keys():
-                dag.add_edge(current_node[qubit], node)
-            current_node[qubit] = node
+            if unit in current_node.keys():
+                dag.add_edge(current_node[unit], node)
+            current_node[unit] = node
 
     return dag, node_command
 
-- 
2.43.0


From f05ab244c67775265d5cebec4ba06456b8bdba7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 28/38] fix: include implicit qubit permutations when boxing
 Clifford subcircuits

---
 qermit/coherent_pauli_checks/box_clifford_subcircuits.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qermit/coherent_pauli_checks/box_clifford_subcircuits.py b/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
index a327a5d..3f9f6b8 100644
--- a/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
+++ b/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
@@ -166,6 +166,10 @@ def _box_clifford_transform(circuit: Circuit) -> Circuit:
     :return: Equivalent circuit with subcircuits boxed.
     :rtype: Circuit
     """
+    # Include implicit qubit permutations.
+    circuit = circuit.copy()
+    circuit.replace_implicit_wire_swaps()
+
     dag, node_command = _circuit_to_graph(circuit=circuit)
     clifford_nodes = _get_clifford_commands(node_command)
 
-- 
2.43.0


From 49580b50302135ff2e43d3b4e5ef3a3a6f7111d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 29/38] fix: keep opgroups of gates which are not Clifford when
 boxing Clifford subcircuits

---
 qermit/coherent_pauli_checks/box_clifford_subcircuits.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/qermit/coherent_pauli_checks/box_clifford_subcircuits.py b/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
index 3f9f6b8..b6fbe87 100644
--- a/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
+++ b/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
@@ -298,6 +298,13 @@ def _box_clifford_transform(circuit: Circuit) -> Circuit:
                     data=node_command[node_to_implement_list[0]].op.data,  # type: ignore
                 )
 
+            elif node_command[node_to_implement_list[0]].opgroup is not None:
+                clifford_box_circuit.add_gate(
+                    Op=node_command[node_to_implement_list[0]].op,
+                    args=node_command[node_to_implement_list[0]].args,
+                    opgroup=node_command[node_to_implement_list[0]].opgroup,
+                )
+
             else:
                 clifford_box_circuit.add_gate(
                     node_command[node_to_implement_list[0]].op,
-- 
2.43.0


From 7ccb6f7c76215025048712867d259b12139f8468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:51 +0000
Subject: [PATCH 30/38] fix: check both sides of every Clifford subcircuit

---
 qermit/coherent_pauli_checks/pauli_sampler.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/qermit/coherent_pauli_checks/pauli_sampler.py b/qermit/coherent_pauli_checks/pauli_sampler.py
index b77d3ea..23aa084 100644
--- a/qermit/coherent_pauli_checks/pauli_sampler.py
+++ b/qermit/coherent_pauli_checks/pauli_sampler.py
@@ -53,7 +53,7 @@ class PauliSampler(ABC):
         # if the command is a circbox named 'Clifford Subcircuit'
         for command in circuit.get_commands():
             # Add barriers and check if appropriate
-            if (
+            is_clifford_subcircuit = (
                 (command.op.type == OpType.CircBox)
                 and (cast(CircBox, command.op).get_circuit().name is not None)
                 and (
@@ -61,7 +61,8 @@ class PauliSampler(ABC):
                         "Clifford Subcircuit"
                     )
                 )
-            ):
+            )
+            if is_clifford_subcircuit:
                 clifford_subcircuit = self._decompose_clifford_subcircuit_box(command)
 
                 # List of Paulis to be used as checks before the subcircuit.
@@ -108,9 +109,7 @@ class PauliSampler(ABC):
             pauli_check_circuit.add_gate(command.op, command.args)
 
             # Add barriers and checks if appropriate.
-            if (command.op.type == OpType.CircBox) and (
-                cast(CircBox, command.op).get_circuit().name == "Clifford Subcircuit"
-            ):
+            if is_clifford_subcircuit:
                 # For each check, commute the pauli through
                 # the clifford circuit.
                 for end_stabiliser, control_qubit in zip(
-- 
2.43.0


From c66de789c4d1baf95afbbfba3dd956e3d55ff975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:51 +0000
Subject: [PATCH 31/38] fix: include implicit qubit permutations and phase when
 adding Pauli checks

---
 qermit/coherent_pauli_checks/pauli_sampler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qermit/coherent_pauli_checks/pauli_sampler.py b/qermit/coherent_pauli_checks/pauli_sampler.py
index 23aa084..53457b3 100644
--- a/qermit/coherent_pauli_checks/pauli_sampler.py
+++ b/qermit/coherent_pauli_checks/pauli_sampler.py
@@ -38,12 +38,17 @@ class PauliSampler(ABC):
         :return: Circuit with checks added.
         """
 
+        # Include implicit qubit permutations.
+        circuit = circuit.copy()
+        circuit.replace_implicit_wire_swaps()
+
         # Initialise new circuit and add matching qubits.
         pauli_check_circuit = Circuit()
         for qubit in circuit.qubits:
             pauli_check_circuit.add_qubit(qubit)
         for bit in circuit.bits:
             pauli_check_circuit.add_bit(bit)
+        pauli_check_circuit.add_phase(circuit.phase)
 
         ancilla_count = 0
 
@@ -173,6 +178,7 @@ class PauliSampler(ABC):
             )
         }
         clifford_subcircuit.rename_units(qubit_map)
+        clifford_subcircuit.replace_implicit_wire_swaps()
 
         return clifford_subcircuit
 
-- 
2.43.0


From 2d3b7b7a3f670132a2c716e457ff6a33c9b034f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:51 +0000
Subject: [PATCH 32/38] fix: keep opgroups when adding Pauli checks

---
 qermit/coherent_pauli_checks/pauli_sampler.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/qermit/coherent_pauli_checks/pauli_sampler.py b/qermit/coherent_pauli_checks/pauli_sampler.py
index 53457b3..289dfcc 100644
--- a/qermit/coherent_pauli_checks/pauli_sampler.py
+++ b/qermit/coherent_pauli_checks/pauli_sampler.py
@@ -111,7 +111,14 @@ class PauliSampler(ABC):
                 ]
 
             # Add original command
-            pauli_check_circuit.add_gate(command.op, command.args)
+            if command.opgroup is not None:
+                pauli_check_circuit.add_gate(
+                    Op=command.op,
+                    args=command.args,
+                    opgroup=command.opgroup,
+                )
+            else:
+                pauli_check_circuit.add_gate(command.op, command.args)
 
             # Add barriers and checks if appropriate.
             if is_clifford_subcircuit:
-- 
2.43.0


From e7cfb1a8e7786797c6f003d67696279e7bb5fdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 33/38] fix: allow barriers when adding Pauli checks

---
 qermit/coherent_pauli_checks/pauli_sampler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qermit/coherent_pauli_checks/pauli_sampler.py b/qermit/coherent_pauli_checks/pauli_sampler.py
index 289dfcc..d6c40ad 100644
--- a/qermit/coherent_pauli_checks/pauli_sampler.py
+++ b/qermit/coherent_pauli_checks/pauli_sampler.py
@@ -111,7 +111,12 @@ class PauliSampler(ABC):
                 ]
 
             # Add original command
-            if command.opgroup is not None:
+            if command.op.type == OpType.Barrier:
+                pauli_check_circuit.add_barrier(
+                    units=command.args,
+                    data=command.op.data,  # type: ignore
+                )
+            elif command.opgroup is not None:
                 pauli_check_circuit.add_gate(
                     Op=command.op,
                     args=command.args,
-- 
2.43.0


From c5bdfd34421dad4bf04d89f47aee2c957090655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:02 +0000
Subject: [PATCH 34/38] fix: avoid cycles between Clifford subcircuits

---
 .../monochromatic_convex_subdag.py              | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/qermit/coherent_pauli_checks/monochromatic_convex_subdag.py b/qermit/coherent_pauli_checks/monochromatic_convex_subdag.py
index f93803f..cd9c4d7 100644
--- a/qermit/coherent_pauli_checks/monochromatic_convex_subdag.py
+++ b/qermit/coherent_pauli_checks/monochromatic_convex_subdag.py
@@ -88,7 +88,7 @@ def get_monochromatic_convex_subdag(
     ) -> bool:
         """Determine if two sub-DAGs can be merged. This will be the case if
         there are no paths between predecessors of one sub-DAG to successors of
-        the other.
+        the other, and there are no cycles between sub-DAGs once merged.
 
         :param dag: Directed Acyclic Graph.
         :param subdag_one: First sub-DAG.
@@ -121,7 +121,20 @@ def get_monochromatic_convex_subdag(
             ):
                 return False
 
-        return True
+        # Paths between the sub-DAGs may also go through other sub-DAGs.
+        node_merged = {node: ("node", node) for node in dag.nodes}
+        for node, subdag in node_subdag.items():
+            node_merged[node] = (
+                "subdag",
+                subdag_one if subdag == subdag_two else subdag,
+            )
+        return nx.is_directed_acyclic_graph(
+            nx.DiGraph(
+                (node_merged[node_one], node_merged[node_two])
+                for node_one, node_two in dag.edges
+                if node_merged[node_one] != node_merged[node_two]
+            )
+        )
 
     node_subdag = {node: i for i, node in enumerate(coloured_nodes)}
 
-- 
2.43.0


From 05e77464c930432fe8cd289f918043d79fec9d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:30 +0000
Subject: [PATCH 35/38] fix: pass keyword arguments on when retrieving results
 from MockQuantinuumBackend

---
 qermit/noise_model/mock_quantinuum_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/noise_model/mock_quantinuum_backend.py b/qermit/noise_model/mock_quantinuum_backend.py
index 344534e..ba0a5bd 100644
--- a/qermit/noise_model/mock_quantinuum_backend.py
+++ b/qermit/noise_model/mock_quantinuum_backend.py
@@ -119,4 +119,4 @@ class MockQuantinuumBackend(QuantinuumBackend):
         :param handle: handle to results
         :return: Results corresponding to handle.
         """
-        return self.noisy_backend.get_result(handle, *kwargs)
+        return self.noisy_backend.get_result(handle, **kwargs)
-- 
2.43.0


From 7c081c2f36e038b8dbe1aeaf7a0315ba75bb06c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:30 +0000
Subject: [PATCH 36/38] fix: do not share results between instances of
 TranspilerBackend

---
 qermit/noise_model/transpiler_backend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qermit/noise_model/transpiler_backend.py b/qermit/noise_model/transpiler_backend.py
index f7fa8cc..43a08d0 100644
--- a/qermit/noise_model/transpiler_backend.py
+++ b/qermit/noise_model/transpiler_backend.py
@@ -34,7 +34,7 @@ class TranspilerBackend:
     def __init__(
         self,
         transpiler: BasePass,
-        result_dict: Dict[ResultHandle, BackendResult] = {},
+        result_dict: Optional[Dict[ResultHandle, BackendResult]] = None,
         max_batch_size: int = 1000,
         n_cores: int = 1,
     ):
@@ -46,7 +46,7 @@ class TranspilerBackend:
             bathes of size 1000 plus a smaller batch for left over shot.
             These batches will be distributed to multiple cores.
         :param result_dict: Results dictionary, may be used to store existing
-            results within backend, defaults to {}
+            results within backend, defaults to a new empty dictionary
         :param n_cores: Shots will be taken in parallel. This parameter
             specifies the number of cores to use. The default is to use
             one core.
@@ -55,7 +55,7 @@ class TranspilerBackend:
         self.transpiler = transpiler
 
         self.max_batch_size = max_batch_size
-        self.result_dict = result_dict
+        self.result_dict = result_dict if result_dict is not None else {}
         self.n_cores = n_cores
 
     def default_compilation_pass(self, **kwargs) -> BasePass:
-- 
2.43.0


From a5567812cfe93bfbdd02d6f924affe1ee183c278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:17 +0000
Subject: [PATCH 37/38] fix: keep a labelled gate where a Computing gate is
 replaced by the identity

---
 .../pec_learning_based.py                                 | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qermit/probabilistic_error_cancellation/pec_learning_based.py b/qermit/probabilistic_error_cancellation/pec_learning_based.py
index 3cab805..4071f9d 100644
--- a/qermit/probabilistic_error_cancellation/pec_learning_based.py
+++ b/qermit/probabilistic_error_cancellation/pec_learning_based.py
@@ -112,7 +112,13 @@ def random_commuting_clifford(
         # the Computing gates in the original circuit. Note this is in the form of a
         # CircBox so that the opgroup labels persist after substitution
         # (they would not do so if circuits were used instead of CircBox)
-        rand_cliff_list = [CircBox(random_clifford_circ(1)) for _ in comp_opgroup_list]
+        rand_cliff_list = []
+        for _ in comp_opgroup_list:
+            cliff_circ = random_clifford_circ(1)
+            # Keep a labelled gate also if the Clifford is the identity
+            if cliff_circ.n_gates == 0:
+                cliff_circ.add_gate(OpType.noop, [0], opgroup="Clifford 1")
+            rand_cliff_list.append(CircBox(cliff_circ))
         # Replace Computing gates with Clifford gates.
         for opgroup, rand_cliff in zip(comp_opgroup_list, rand_cliff_list):
             rand_cliff_circ.substitute_named(rand_cliff, opgroup)
-- 
2.43.0


From 60681923445c5fc970b0e9eeb55527d5237e98b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:29 +0000
Subject: [PATCH 38/38] fix: give every point of the spectral filtering grid
 its own tracker

---
 qermit/spectral_filtering/spectral_filtering.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qermit/spectral_filtering/spectral_filtering.py b/qermit/spectral_filtering/spectral_filtering.py
index 2eaefe0..aca7cc1 100644
--- a/qermit/spectral_filtering/spectral_filtering.py
+++ b/qermit/spectral_filtering/spectral_filtering.py
@@ -411,8 +411,10 @@ def gen_obs_exp_grid_gen_task() -> MitTask:
                 circ = obs_exp.AnsatzCircuit.Circuit.copy()
                 anz_circ = AnsatzCircuit(circ, obs_exp.AnsatzCircuit.Shots, sym_dict)
 
+                # Each point has its own tracker, as trackers hold the
+                # circuits which are measured.
                 obs_exp_grid[grid_point] = ObservableExperiment(
-                    anz_circ, obs_exp.ObservableTracker
+                    anz_circ, deepcopy(obs_exp.ObservableTracker)
                 )
 
             obs_exp_grid_list.append(obs_exp_grid)
-- 
2.43.0

