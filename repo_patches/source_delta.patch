From 2515cf96525dbac913fd2a88fe008161855d4be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:33 +0000
Subject: [PATCH 01/10] fix: give every lattice its own params, so tqubits
 built from one dict do not share counters

TopologicalCircuit.cx builds its default ancilla from control.lattice.params; the
ancilla then reset the control's round counter, and the next stabilize() of the
control failed with 'register name already exists'.
---
 qtcodes/circuits/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtcodes/circuits/base.py b/qtcodes/circuits/base.py
index b6e8cec..5b8cff5 100644
--- a/qtcodes/circuits/base.py
+++ b/qtcodes/circuits/base.py
@@ -79,7 +79,8 @@ class _TopologicalLattice(Generic[TQubit], metaclass=ABCMeta):
 
         self.name = name
         self.circ = circ
-        self.params: Dict[str, Any] = params
+        # copy, as this lattice's own counters (e.g. T) are stored in here too
+        self.params: Dict[str, Any] = dict(params)
         self._params_validate_and_generate()
 
         self.qregisters: Dict[str, QuantumRegister] = {}  # quantum
-- 
2.43.0


From 70489065948769d3680025cac640136c381aa8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:33 +0000
Subject: [PATCH 02/10] fix: keep logical cx coherent by not leaving a copy of
 logical Z in the lattice ancilla

cx(target=...) read logical Z into the lattice ancilla and left it there entangled,
which dephases the control: TopologicalCircuit.cx on |+>|0> gave a mixture, not a
Bell pair.
---
 qtcodes/circuits/xxzz.py |  8 ++++----
 qtcodes/circuits/xzzx.py | 11 +++++++++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/qtcodes/circuits/xxzz.py b/qtcodes/circuits/xxzz.py
index 189921f..0b7c131 100644
--- a/qtcodes/circuits/xxzz.py
+++ b/qtcodes/circuits/xxzz.py
@@ -132,10 +132,10 @@ class _XXZZLattice(_RotatedLattice):
                 self.circ.cx(control, self.qregisters["data"][i])
             self.circ.barrier()
         elif target:
-            self._readout_z_into_ancilla()
-            # TODO: we may not want to read into the ancilla,
-            # let's try to eliminate this intermediate method,
-            self.circ.cx(self.qregisters["ancilla"], target)
+            # Taking top-most row, straight into target: an intermediate
+            # ancilla would stay entangled and so measure this tqubit
+            for i in range(self.params["d"][self.W]):
+                self.circ.cx(self.qregisters["data"][i], target)
 
     def _readout_x_into_ancilla(self) -> None:
         """
diff --git a/qtcodes/circuits/xzzx.py b/qtcodes/circuits/xzzx.py
index 64ce8d5..4f9f055 100644
--- a/qtcodes/circuits/xzzx.py
+++ b/qtcodes/circuits/xzzx.py
@@ -126,8 +126,15 @@ class _XZZXLattice(_RotatedLattice):
                     self.circ.cz(control, self.qregisters["data"][i])
             self.circ.barrier()
         elif target:
-            self._readout_z_into_ancilla()
-            self.circ.cx(self.qregisters["ancilla"], target)
+            # Taking top-most row, straight into target: an intermediate
+            # ancilla would stay entangled and so measure this tqubit
+            for i in range(self.params["d"][self.W]):
+                if i % 2 == 0:
+                    self.circ.h(target)
+                    self.circ.cx(target, self.qregisters["data"][i])
+                    self.circ.h(target)
+                else:
+                    self.circ.cx(self.qregisters["data"][i], target)
 
     def _readout_x_into_ancilla(self) -> None:
         """
-- 
2.43.0


From ccc2e015bda15c12a227638a8948436f52559c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:33 +0000
Subject: [PATCH 03/10] fix: count degenerate boundary paths for syndrome node
 index 0 too

`if source:` is false for graph index 0, so that node's paths to equally close
virtual nodes were left out of its degeneracy.
---
 qtcodes/fitters/lattice_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/fitters/lattice_decoder.py b/qtcodes/fitters/lattice_decoder.py
index 9838c3b..4a7dbe5 100644
--- a/qtcodes/fitters/lattice_decoder.py
+++ b/qtcodes/fitters/lattice_decoder.py
@@ -198,7 +198,7 @@ class LatticeDecoder(TopologicalDecoder[TQubit], metaclass=ABCMeta):
             target = b_indx  # virtual
             source = a_indx
 
-        if source:
+        if source is not None:
             shortest_distance = shortest_distance_mat[source][target]
             virtual_nodes = self.virtual[syndrome_graph_key]
             total_deg = 0
-- 
2.43.0


From d7b3b585855099c40f274861c4aa1bce3d20016a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:33 +0000
Subject: [PATCH 04/10] fix: do not append virtual nodes to the caller's
 syndrome list when decoding

---
 qtcodes/fitters/lattice_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/fitters/lattice_decoder.py b/qtcodes/fitters/lattice_decoder.py
index 4a7dbe5..d2e4870 100644
--- a/qtcodes/fitters/lattice_decoder.py
+++ b/qtcodes/fitters/lattice_decoder.py
@@ -104,7 +104,7 @@ class LatticeDecoder(TopologicalDecoder[TQubit], metaclass=ABCMeta):
 
         # need to ensure there are an even number of nodes
         make_even = len(nodes) % 2 != 0
-        nodes += self.virtual[syndrome_graph_key]
+        nodes = nodes + self.virtual[syndrome_graph_key]
 
         # add all nodes to error_graph
         for node in nodes:
-- 
2.43.0


From 4fd91a56db4922eb3b5d0ef992ec72bbe29bfb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:33 +0000
Subject: [PATCH 05/10] fix: entangle_x/entangle_z on lattices without X or
 without Z plaquettes

entangle_x/z raised KeyError without X plaquettes, and entangle_z entangled the X
plaquettes when there are no Z plaquettes.
---
 qtcodes/circuits/base.py            | 4 ++--
 qtcodes/circuits/rotated_surface.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/qtcodes/circuits/base.py b/qtcodes/circuits/base.py
index 5b8cff5..ebccf64 100644
--- a/qtcodes/circuits/base.py
+++ b/qtcodes/circuits/base.py
@@ -146,8 +146,8 @@ class _TopologicalLattice(Generic[TQubit], metaclass=ABCMeta):
                 List of stabilizers for each plaquette.
                 This is optional, and will be used instead of self.stabilizers if provided.
         """
-        qubit_indices = qubit_indices if qubit_indices else self.qubit_indices
-        stabilizers = stabilizers if stabilizers else self.stabilizers
+        qubit_indices = qubit_indices if qubit_indices is not None else self.qubit_indices
+        stabilizers = stabilizers if stabilizers is not None else self.stabilizers
 
         for i, stabilizer_cls in enumerate(stabilizers):
             stabilizer = stabilizer_cls(self.circ, qubit_indices[i])
diff --git a/qtcodes/circuits/rotated_surface.py b/qtcodes/circuits/rotated_surface.py
index d5af3f5..2899970 100644
--- a/qtcodes/circuits/rotated_surface.py
+++ b/qtcodes/circuits/rotated_surface.py
@@ -213,14 +213,14 @@ class _RotatedLattice(_TopologicalLattice[TQubit], metaclass=ABCMeta):
         """
         Build/entangle just the X Syndrome circuit.
         """
-        num_x = len(self.qregisters["mx"])
+        num_x = self.params["num_syn"][self.SYNX]
         self.entangle(self.qubit_indices[:num_x], self.stabilizers[:num_x])
 
     def entangle_z(self):
         """
         Build/entangle just the Z Syndrome circuit.
         """
-        num_x = len(self.qregisters["mx"])
+        num_x = self.params["num_syn"][self.SYNX]
         self.entangle(self.qubit_indices[num_x:], self.stabilizers[num_x:])
 
     def extract_final_stabilizer_and_logical_readout_x(
-- 
2.43.0


From 74542526fa5e6c2d3713f5247983744129d8293c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:33 +0000
Subject: [PATCH 06/10] fix: logical readout of XZZX lattices of height 1 or
 width 1

readout_x (height 1) and readout_z (width 1) broadcast a gate over an empty list of
data qubits, which qiskit rejects.
---
 qtcodes/circuits/xzzx.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/qtcodes/circuits/xzzx.py b/qtcodes/circuits/xzzx.py
index 4f9f055..3c7fe5e 100644
--- a/qtcodes/circuits/xzzx.py
+++ b/qtcodes/circuits/xzzx.py
@@ -153,16 +153,14 @@ class _XZZXLattice(_RotatedLattice):
         # X Readout
         x_readout_indxs = [i for i in data_qubit_indxs if i % 2 == 1]
         self.circ.h(self.qregisters["ancilla"])
-        self.circ.cx(
-            self.qregisters["ancilla"], self.qregisters["data"][x_readout_indxs]
-        )
+        for i in x_readout_indxs:
+            self.circ.cx(self.qregisters["ancilla"], self.qregisters["data"][i])
         self.circ.h(self.qregisters["ancilla"])
 
         # Z Readout
         z_readout_indxs = [i for i in data_qubit_indxs if i % 2 == 0]
-        self.circ.cx(
-            self.qregisters["data"][z_readout_indxs], self.qregisters["ancilla"]
-        )
+        for i in z_readout_indxs:
+            self.circ.cx(self.qregisters["data"][i], self.qregisters["ancilla"])
 
     def readout_x(self, readout_creg: Optional[ClassicalRegister] = None) -> None:
         if not readout_creg:
@@ -193,16 +191,14 @@ class _XZZXLattice(_RotatedLattice):
         # X Readout
         x_readout_indxs = [i for i in data_qubit_indxs if i % 2 == 0]
         self.circ.h(self.qregisters["ancilla"])
-        self.circ.cx(
-            self.qregisters["ancilla"], self.qregisters["data"][x_readout_indxs]
-        )
+        for i in x_readout_indxs:
+            self.circ.cx(self.qregisters["ancilla"], self.qregisters["data"][i])
         self.circ.h(self.qregisters["ancilla"])
 
         # Z Readout
         z_readout_indxs = [i for i in data_qubit_indxs if i % 2 == 1]
-        self.circ.cx(
-            self.qregisters["data"][z_readout_indxs], self.qregisters["ancilla"]
-        )
+        for i in z_readout_indxs:
+            self.circ.cx(self.qregisters["data"][i], self.qregisters["ancilla"])
 
     def readout_z(self, readout_creg: Optional[ClassicalRegister] = None) -> None:
         if not readout_creg:
-- 
2.43.0


From d0c82b170eededfe0b4b1842510ea1c38aba1e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:33 +0000
Subject: [PATCH 07/10] fix: reject negative code distances, which pass the odd
 check as -3 % 2 == 1

---
 qtcodes/circuits/rotated_surface.py | 2 ++
 qtcodes/fitters/rotated_surface.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/qtcodes/circuits/rotated_surface.py b/qtcodes/circuits/rotated_surface.py
index 2899970..bc8d979 100644
--- a/qtcodes/circuits/rotated_surface.py
+++ b/qtcodes/circuits/rotated_surface.py
@@ -76,6 +76,8 @@ class _RotatedLattice(_TopologicalLattice[TQubit], metaclass=ABCMeta):
         dw = self.params["d"][self.W]
         if dh % 2 != 1 or dw % 2 != 1:
             raise LatticeError("Surface code distance must be odd in all dimensions!")
+        if dh < 1 or dw < 1:
+            raise LatticeError("Surface code distance must be positive!")
 
         # calculated params
         self.params["T"] = -1  # -1 until a stabilizer round is added!
diff --git a/qtcodes/fitters/rotated_surface.py b/qtcodes/fitters/rotated_surface.py
index 1e40402..89deea1 100644
--- a/qtcodes/fitters/rotated_surface.py
+++ b/qtcodes/fitters/rotated_surface.py
@@ -46,6 +46,8 @@ class RotatedDecoder(LatticeDecoder):
             raise LatticeError("Surface code height must be odd!")
         if dw % 2 != 1:
             raise LatticeError("Surface code width must be odd!")
+        if dh < 1 or dw < 1:
+            raise LatticeError("Surface code height and width must be positive!")
 
     def _make_syndrome_graph(self) -> None:
         """
-- 
2.43.0


From a2b3424c8aaea023a3cfb1b0a0623c79ba09444a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:39 +0000
Subject: [PATCH 08/10] fix: lattice readout of X: use the width constant W,
 the lattice has no attribute DW

---
 qtcodes/circuits/rotated_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/circuits/rotated_surface.py b/qtcodes/circuits/rotated_surface.py
index bc8d979..7637b02 100644
--- a/qtcodes/circuits/rotated_surface.py
+++ b/qtcodes/circuits/rotated_surface.py
@@ -278,7 +278,7 @@ class _RotatedLattice(_TopologicalLattice[TQubit], metaclass=ABCMeta):
         # Z_{N}Z_{N-1}...Z_{0} is copied from previous syndrome measurement string
 
         logical_readout = 0
-        for idx in range(0, self.params["num_data"], self.params["d"][self.DW]):
+        for idx in range(0, self.params["num_data"], self.params["d"][self.W]):
             logical_readout = (logical_readout + readout_values[idx]) % 2
 
         return logical_readout, stabilizer_str
-- 
2.43.0


From 888c5bc8af3653185228c6e4602671754d3b5b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:28 +0000
Subject: [PATCH 09/10] fix: do not normalise the caller's params dict in place
 when building a RepetitionQubit

---
 qtcodes/circuits/repetition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtcodes/circuits/repetition.py b/qtcodes/circuits/repetition.py
index 0351952..f221dbe 100644
--- a/qtcodes/circuits/repetition.py
+++ b/qtcodes/circuits/repetition.py
@@ -24,7 +24,8 @@ class RepetitionQubit(XXZZQubit):
         name: str = "tq",
         circ: Optional[QuantumCircuit] = None,
     ) -> None:
-        params = self._validate_params(params)
+        # copy, as the caller may use the same params for other tqubits
+        params = self._validate_params(dict(params) if params else None)
         super().__init__(params, name, circ)
 
     @staticmethod
-- 
2.43.0


From 074b4df6b7a75d838308883794ff35bd1203de5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:08 +0000
Subject: [PATCH 10/10] fix: build the decoding graph without recursion, which
 exceeds python's recursion limit from 45 x 45 on

---
 qtcodes/fitters/rotated_surface.py | 37 +++++++++++++++---------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/qtcodes/fitters/rotated_surface.py b/qtcodes/fitters/rotated_surface.py
index 89deea1..44aba0d 100644
--- a/qtcodes/fitters/rotated_surface.py
+++ b/qtcodes/fitters/rotated_surface.py
@@ -66,9 +66,17 @@ class RotatedDecoder(LatticeDecoder):
                 self.node_map[syndrome_graph_key][node_label] = self.S[
                     syndrome_graph_key
                 ].add_node(node_label)
-                self._populate_syndrome_graph(
-                    (t,) + start_node, t, [], syndrome_graph_key, 1
-                )
+                # traverse with an explicit stack: a recursive traversal
+                # exceeds python's recursion limit on large lattices
+                visited_nodes: List[TQubit] = []
+                pending_nodes: List[TQubit] = [node_label]
+                while pending_nodes:
+                    node = pending_nodes.pop()
+                    if node not in visited_nodes:
+                        neighbors = self._populate_syndrome_graph(
+                            node, t, visited_nodes, syndrome_graph_key, 1
+                        )
+                        pending_nodes.extend(reversed(neighbors))
 
             # connect physical qubits in same location across subgraphs of adjacent times
             syndrome_nodes_t0 = [
@@ -90,8 +98,8 @@ class RotatedDecoder(LatticeDecoder):
         visited_nodes: List[TQubit],
         syndrome_graph_key: str,
         edge_weight: int = 1,
-    ) -> None:
-        """Recursive function to populate syndrome subgraph at time t with syndrome_graph_key X/Z.
+    ) -> List[TQubit]:
+        """Populate syndrome subgraph at time t with syndrome_graph_key X/Z around current_node.
         The current_node is connected to neighboring nodes without revisiting a node.
 
         Args:
@@ -103,7 +111,7 @@ class RotatedDecoder(LatticeDecoder):
                                            Defaults to 1.
 
         Returns:
-            None: function is to traverse the syndrome nodes and connect neighbors
+            ([(t, x, y),]): neighbors to be traversed next, first one first
         """
         visited_nodes.append(current_node)
         neighbors = []
@@ -129,7 +137,7 @@ class RotatedDecoder(LatticeDecoder):
 
         # no neighbors to add edges
         if not normal_neighbors and not virtual_neighbors:
-            return
+            return []
 
         # add normal/non-virtual neighbors
         for target in normal_neighbors:
@@ -166,17 +174,10 @@ class RotatedDecoder(LatticeDecoder):
                 edge_weight,
             )  # add edge between current_node and virtual target_node
 
-        # recursively traverse normal neighbors
-        for target in normal_neighbors:
-            self._populate_syndrome_graph(
-                (t,) + target, t, visited_nodes, syndrome_graph_key, 1
-            )
-
-        # recursively traverse virtual neighbors
-        for target in virtual_neighbors:
-            self._populate_syndrome_graph(
-                (-1,) + target, t, visited_nodes, syndrome_graph_key, 1
-            )
+        # traverse normal neighbors first, then virtual neighbors
+        return [(t,) + target for target in normal_neighbors] + [
+            (-1,) + target for target in virtual_neighbors
+        ]
 
     def _valid_syndrome(self, node: TQubitLoc, syndrome_graph_key: str) -> bool:
         """
-- 
2.43.0

