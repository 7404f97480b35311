From 398754d395a2ee89721d8fc1da690f6466c09fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:36 +0000
Subject: [PATCH 01/13] fix: legend_label crashed with an invalid format
 specifier for any noisy layout

---
 src/honeycomb_layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/honeycomb_layout.py b/src/honeycomb_layout.py
index ff6f120..4b2a5fd 100644
--- a/src/honeycomb_layout.py
+++ b/src/honeycomb_layout.py
@@ -420,7 +420,7 @@ class HoneycombLayout:
             f"{self.data_width}x{self.data_height} data",
         ]
         if self.noise:
-            terms.append(f"noise {self.noise:!r}")
+            terms.append(f"noise {self.noise!r}")
         return ", ".join(terms)
 
 
-- 
2.43.0


From e6647ce9d31046700da84f38a9c0073e7f414af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:36 +0000
Subject: [PATCH 02/13] fix: keep the first of two same-symptom errors with
 different frame changes

The last one overwrote the earlier edge (and its accumulated probability).
---
 src/decoding.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decoding.py b/src/decoding.py
index e80611f..c1e8311 100644
--- a/src/decoding.py
+++ b/src/decoding.py
@@ -244,9 +244,10 @@ def detector_error_model_to_nx_graph(model: stim.DetectorErrorModel) -> nx.Graph
             old_p = edge_data["error_probability"]
             old_frame_changes = edge_data["qubit_id"]
             # If frame changes differ, the code has distance 2; just keep whichever was first.
-            if set(old_frame_changes) == set(frame_changes):
-                p = p * (1 - old_p) + old_p * (1 - p)
-                g.remove_edge(*dets)
+            if set(old_frame_changes) != set(frame_changes):
+                return
+            p = p * (1 - old_p) + old_p * (1 - p)
+            g.remove_edge(*dets)
         g.add_edge(*dets, weight=math.log((1 - p) / p), qubit_id=frame_changes, error_probability=p)
 
     def handle_detector_coords(detector: int, coords: np.ndarray):
-- 
2.43.0


From 63b08357c2f8a2b956da559640add4f9b232059d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:36 +0000
Subject: [PATCH 03/13] fix: pymatching predictions must cover every observable

pymatching 2 drops the over-weight edge that was meant to mention all
observables, so decoding crashed or broadcast one prediction over all of them
when some observables had no matchable errors.
---
 src/decoding.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decoding.py b/src/decoding.py
index c1e8311..608c0fd 100644
--- a/src/decoding.py
+++ b/src/decoding.py
@@ -275,4 +275,8 @@ def detector_error_model_to_pymatching_graph(model: stim.DetectorErrorModel) ->
         g.add_edge(k, num_detectors + 1, weight=9999999999)
     g.add_edge(num_detectors, num_detectors + 1, weight=9999999999, qubit_id=list(range(num_observables)))
 
-    return pymatching.Matching(g)
+    matching = pymatching.Matching(g)
+    # Versions of pymatching with a maximum edge weight drop the spandrels, including the one
+    # mentioning every observable.
+    matching.ensure_num_fault_ids(num_observables)
+    return matching
-- 
2.43.0


From e9b15e250924523221f54427d09c9911d9dbdb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:36 +0000
Subject: [PATCH 04/13] fix: compute log_binomial in double precision

In single precision the log likelihood is off by whole nats at 10**8 shots.
---
 src/probability_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probability_util.py b/src/probability_util.py
index 74c25a2..5d4ebc0 100644
--- a/src/probability_util.py
+++ b/src/probability_util.py
@@ -31,7 +31,7 @@ def log_binomial(*, p: Union[float, np.ndarray], n: int, hits: int) -> Union[flo
     # Clamp probabilities into the valid [0, 1] range (in case float error put them outside it).
     p_clipped = np.clip(p, 0, 1)
 
-    result = np.zeros(shape=p_clipped.shape, dtype=np.float32)
+    result = np.zeros(shape=p_clipped.shape, dtype=np.float64)
     misses = n - hits
 
     # Handle p=0 and p=1 cases separately, to avoid arithmetic warnings.
-- 
2.43.0


From a0e41c7b4628334ffc9eeeb200cebe445f2394d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:36 +0000
Subject: [PATCH 05/13] fix: plot_data ran out of colors after 30 curves

---
 src/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plotting.py b/src/plotting.py
index 3805e67..d5a5d90 100644
--- a/src/plotting.py
+++ b/src/plotting.py
@@ -38,7 +38,7 @@ def plot_data(data: ProblemShotData,
         ax = fig.add_subplot()
 
     markers = "ov*sp^<>8PhH+xXDd|" * 100
-    colors = list(mcolors.TABLEAU_COLORS) * 3
+    colors = list(mcolors.TABLEAU_COLORS) * 100
     order = 0
     d: DecodingProblemDesc
     for key, vals in data.grouped_by(lambda e: e.with_changes(noise=0)).items():
-- 
2.43.0


From 261d0e5fabc933129f0872a209f894ce9560a09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:58 +0000
Subject: [PATCH 06/13] fix: correlated measurement noise must not use a qubit
 of the circuit as its ancilla

Inside a REPEAT block (or with qs larger than the circuit) the ancilla was
picked from the block's own qubits, and could collide with a real qubit.
---
 src/noise.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/noise.py b/src/noise.py
index 03eceac..79add3f 100644
--- a/src/noise.py
+++ b/src/noise.py
@@ -126,9 +126,12 @@ class NoiseModel:
         mid.append_operation(op.name, targets, args)
         return pre, mid, post
 
-    def noisy_circuit(self, circuit: stim.Circuit, *, qs: Optional[Set[int]] = None) -> stim.Circuit:
+    def noisy_circuit(self,
+                      circuit: stim.Circuit,
+                      *,
+                      qs: Optional[Set[int]] = None,
+                      ancilla: Optional[int] = None) -> stim.Circuit:
         result = stim.Circuit()
-        ancilla = circuit.num_qubits
 
         current_moment_pre = stim.Circuit()
         current_moment_mid = stim.Circuit()
@@ -137,6 +140,8 @@ class NoiseModel:
         measured_or_reset_qubits: Set[int] = set()
         if qs is None:
             qs = set(range(circuit.num_qubits))
+        if ancilla is None:
+            ancilla = max(circuit.num_qubits, max(qs, default=-1) + 1)
 
         def flush():
             nonlocal result
@@ -164,7 +169,7 @@ class NoiseModel:
         for op in circuit:
             if isinstance(op, stim.CircuitRepeatBlock):
                 flush()
-                result += self.noisy_circuit(op.body_copy(), qs=qs) * op.repeat_count
+                result += self.noisy_circuit(op.body_copy(), qs=qs, ancilla=ancilla) * op.repeat_count
             elif isinstance(op, stim.CircuitInstruction):
                 if op.name == "TICK":
                     flush()
-- 
2.43.0


From 56a007f2922e16d34d9c18907ed4187e2ba1295d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:58 +0000
Subject: [PATCH 07/13] fix: honor min_shots with small batches and max_shots
 below min_shots

With max_batch < min_shots collection could stop before min_shots, and with
min_shots > max_shots (and max_batch set) the first batch exceeded max_shots.
---
 src/collect_data.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/collect_data.py b/src/collect_data.py
index 8c411f1..cf6eddc 100644
--- a/src/collect_data.py
+++ b/src/collect_data.py
@@ -147,9 +147,7 @@ def collect_simulated_experiment_data(problems: List[DecodingProblem],
 
     for problem in problems:
         num_seen_errors = 0
-        num_next_shots = min_shots
-        if max_batch is not None and max_batch < min_shots:
-            num_next_shots = max_batch
+        num_next_shots = min(min_shots, max_batch, max_shots)
         total_shots = 0
         while True:
             t0 = time.monotonic()
@@ -185,10 +183,11 @@ def collect_simulated_experiment_data(problems: List[DecodingProblem],
             cur_sample_std_dev = math.sqrt(p * (1 - p) / total_shots)
             if total_shots >= max_shots:
                 break
-            if num_seen_errors >= min_seen_logical_errors and cur_sample_std_dev <= max_sample_std_dev:
-                break
-            if num_seen_errors >= total_shots * 0.48 and num_seen_errors >= 10:
-                break
+            if total_shots >= min_shots:
+                if num_seen_errors >= min_seen_logical_errors and cur_sample_std_dev <= max_sample_std_dev:
+                    break
+                if num_seen_errors >= total_shots * 0.48 and num_seen_errors >= 10:
+                    break
             num_next_shots = min(max_batch, min(2 * num_next_shots, max_shots - total_shots))
 
 
-- 
2.43.0


From fcd9908f65f42af07d31b453c0eae14c7efd7a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:58 +0000
Subject: [PATCH 08/13] fix: write the CSV header when appending to an existing
 empty file

---
 src/collect_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collect_data.py b/src/collect_data.py
index cf6eddc..921de07 100644
--- a/src/collect_data.py
+++ b/src/collect_data.py
@@ -138,7 +138,7 @@ def collect_simulated_experiment_data(problems: List[DecodingProblem],
     """
     print(CSV_HEADER, flush=True)
     if out_path is not None:
-        if discard_previous_data or not pathlib.Path(out_path).exists():
+        if discard_previous_data or not pathlib.Path(out_path).exists() or pathlib.Path(out_path).stat().st_size == 0:
             with open(out_path, "w") as f:
                 print(CSV_HEADER, file=f)
 
@@ -198,7 +198,7 @@ def collect_detection_fraction_data(problems: List[DecodingProblem],
                                     discard_previous_data: bool):
     print(CSV_HEADER, flush=True)
     if out_path is not None:
-        if discard_previous_data or not pathlib.Path(out_path).exists():
+        if discard_previous_data or not pathlib.Path(out_path).exists() or pathlib.Path(out_path).stat().st_size == 0:
             with open(out_path, "w") as f:
                 print(CSV_HEADER, file=f)
 
-- 
2.43.0


From e51676e755469c57f52be0c3695c5e987ede903d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:04 +0000
Subject: [PATCH 09/13] fix: the detection fraction figure ran out of markers
 after 16 noise strengths

---
 src/paper/main_render_detection_fraction_figure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/paper/main_render_detection_fraction_figure.py b/src/paper/main_render_detection_fraction_figure.py
index 949bcf3..7d89cae 100644
--- a/src/paper/main_render_detection_fraction_figure.py
+++ b/src/paper/main_render_detection_fraction_figure.py
@@ -50,8 +50,8 @@ def plot_detection_fraction(all_data: ProblemShotData) -> plt.Figure:
     nrows = 1
     gs = fig.add_gridspec(ncols=ncols + 1, nrows=nrows, hspace=0.05, wspace=0.1)
     axs = gs.subplots(sharex=True, sharey=True)
-    markers = "ov*sp^<>8P+xXDd|"
-    colors = list(mcolors.TABLEAU_COLORS) * 3
+    markers = "ov*sp^<>8P+xXDd|" * 100
+    colors = list(mcolors.TABLEAU_COLORS) * 100
     for col, style in enumerate(styles):
         ax: plt.Axes = axs[col]
         style_data = all_groups.get(style, ProblemShotData({})).grouped_by(lambda e: e.noise)
-- 
2.43.0


From d5fa673cc9c8633001ef7d78de3b9921c988a47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:04 +0000
Subject: [PATCH 10/13] fix: the line fit figure ran out of markers after 16
 noise strengths

---
 src/paper/main_render_lambda_figure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/paper/main_render_lambda_figure.py b/src/paper/main_render_lambda_figure.py
index f3849be..ec2044b 100644
--- a/src/paper/main_render_lambda_figure.py
+++ b/src/paper/main_render_lambda_figure.py
@@ -125,8 +125,8 @@ def plot_lambda_line_fits_combo(all_data: ProblemShotData, focus: bool) -> Tuple
             axs[row][col].set_title(name)
 
             groups = LambdaGroup.groups_from_data(style_data)
-            markers = "ov*sp^<>8P+xXDd|"
-            colors = list(mcolors.TABLEAU_COLORS) * 3
+            markers = "ov*sp^<>8P+xXDd|" * 100
+            colors = list(mcolors.TABLEAU_COLORS) * 100
             lambda_xs = []
             lambda_ys = []
             for noise in sorted(groups.keys()):
-- 
2.43.0


From b8f46f6402d512aa72400ea8c9f6ce2b99631b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:31 +0000
Subject: [PATCH 11/13] fix: noise before a measurement with an inverted result
 must target the plain qubit

`M !0` made noisy_circuit raise "Target !0 has invalid modifiers for gate type X_ERROR".
---
 src/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/noise.py b/src/noise.py
index 79add3f..eee0254 100644
--- a/src/noise.py
+++ b/src/noise.py
@@ -103,7 +103,7 @@ class NoiseModel:
                 if op.name in RESET_OPS:
                     post.append_operation("Z_ERROR" if op.name.endswith("X") else "X_ERROR", targets, p)
                 if op.name in MEASURE_OPS:
-                    pre.append_operation("Z_ERROR" if op.name.endswith("X") else "X_ERROR", targets, p)
+                    pre.append_operation("Z_ERROR" if op.name.endswith("X") else "X_ERROR", [t.value for t in targets], p)
             elif op.name == "MPP":
                 assert len(targets) % 3 == 0 and all(t.is_combiner for t in targets[1::3]), repr(op)
                 assert args == [] or args == [0]
-- 
2.43.0


From 1b143577d2b50aed5adbc11c3b7ca8e9d999103b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:31 +0000
Subject: [PATCH 12/13] fix: correlated parity measurement noise dropped the
 inversion of the measured product

`MPP !X0*X1` was expanded into a measurement of X0*X1, flipping the meaning of its record.
---
 src/noise.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/noise.py b/src/noise.py
index eee0254..a1f67cc 100644
--- a/src/noise.py
+++ b/src/noise.py
@@ -280,6 +280,8 @@ def parity_measurement_with_correlated_measurement_noise(
     for error in errors:
         circuit.append_operation("CORRELATED_ERROR", error, ind_p)
 
-    circuit.append_operation('M', [ancilla])
+    # An inverted result of the product is an inverted result of the ancilla measurement.
+    inverted = t1.is_inverted_result_target != t2.is_inverted_result_target
+    circuit.append_operation('M', [stim.target_inv(ancilla) if inverted else ancilla])
 
     return circuit
-- 
2.43.0


From e742638db0fd40b8e9e778cb84adef06167c1ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:08 +0000
Subject: [PATCH 13/13] fix: graph export script starts and runs with current
 networkx

The script imported an unused name from a package that is not importable when
the script is started as a program, and used networkx's gpickle helpers, which
networkx 3 removed. Write the same pickle directly.
---
 src/paper/write_honeycomb_networkx_graph.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/paper/write_honeycomb_networkx_graph.py b/src/paper/write_honeycomb_networkx_graph.py
index ec657a1..a7d2ab3 100644
--- a/src/paper/write_honeycomb_networkx_graph.py
+++ b/src/paper/write_honeycomb_networkx_graph.py
@@ -1,10 +1,7 @@
 import pathlib
+import pickle
 import sys
 
-import networkx as nx
-
-from paper.main_collect_all import surface_code_circuit
-
 sys.path.append(str(pathlib.Path(__file__).resolve().parents[1]))  # Non-package import directory hack.
 
 from decoding import detector_error_model_to_nx_graph
@@ -22,7 +19,8 @@ def main():
         obs="H",
     ))
     g = detector_error_model_to_nx_graph(c.detector_error_model(decompose_errors=True))
-    nx.readwrite.gpickle.write_gpickle(g, path="test.graph")
+    with open("test.graph", "wb") as f:
+        pickle.dump(g, f, pickle.HIGHEST_PROTOCOL)
 
 
 if __name__ == '__main__':
-- 
2.43.0

