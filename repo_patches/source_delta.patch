From 6715ff1c12c2cbd1b64e97d26c847c93bd04ee42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:29 +0000
Subject: [PATCH 01/96] fix: connect() must not trust the local accessibility
 flags on cyclic FSAs

---
 k2/python/k2/fsa_algo.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index 35d9ca0..1373d32 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -519,7 +519,11 @@ def connect(fsa: Fsa) -> Fsa:
     Returns:
       An FSA that is connected.
     '''
-    if fsa.properties & fsa_properties.ACCESSIBLE != 0 and \
+    # ACCESSIBLE and COACCESSIBLE only say that every state has an arc entering
+    # and leaving it; that proves connectedness only if there are no cycles
+    # (other than self-loops).
+    if fsa.properties & fsa_properties.TOPSORTED != 0 and \
+            fsa.properties & fsa_properties.ACCESSIBLE != 0 and \
             fsa.properties & fsa_properties.COACCESSIBLE != 0:
         return fsa
 
-- 
2.43.0


From 6ff77c4c6b8c4b448a41dcf63143182b4b729187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:39 +0000
Subject: [PATCH 02/96] fix: Determinize() on an FsaVec must offset each FSA's
 own arc derivs

It indexed the output pointer as if it were an array, which reads and writes
past it for every FSA but the first.
---
 k2/csrc/fsa_algo.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/csrc/fsa_algo.cu b/k2/csrc/fsa_algo.cu
index b644e23..9236004 100644
--- a/k2/csrc/fsa_algo.cu
+++ b/k2/csrc/fsa_algo.cu
@@ -329,7 +329,7 @@ void Determinize(FsaOrVec &src,
                  arc_derivs != nullptr ? &(derivs_vector[i]) : nullptr);
       if (arc_derivs != nullptr) {
         // convert arc indexes in arc_derivs from idx2 to idx012
-        Array1<int32_t> &values = arc_derivs[i].values;
+        Array1<int32_t> &values = derivs_vector[i].values;
         values = Plus(values, tot_num_arcs);
         tot_num_arcs += srcs[i].NumElements();
       }
-- 
2.43.0


From 850c03e4474324bf7816cfef0c22cd3224a94fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:59 +0000
Subject: [PATCH 03/96] fix: RemoveEpsilonHost() gave NaN scores to arcs of
 unreachable states

---
 k2/csrc/host/rmepsilon_pruned.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/k2/csrc/host/rmepsilon_pruned.cc b/k2/csrc/host/rmepsilon_pruned.cc
index e7db5e2..5c52f39 100644
--- a/k2/csrc/host/rmepsilon_pruned.cc
+++ b/k2/csrc/host/rmepsilon_pruned.cc
@@ -208,6 +208,10 @@ void EpsilonsRemoverPruned<TracebackState>::GetSizes(
   for (int32_t i = 0; i != num_states_in; ++i) {
     if (non_eps_in[i] != 1) continue;
     arc_indexes_.push_back(arc_num_out);
+    // A state that can't be reached from the start state has a forward weight
+    // of -infinity; its arcs are on no path, and subtracting that weight below
+    // would give them a weight of NaN.
+    if (forward_state_weights[i] == kDoubleNegativeInfinity) continue;
     int32_t curr_state_out = state_map[i];
 
     // as the input FSA is top-sorted, we use a set here so we can process
-- 
2.43.0


From 4e3a0cf5bc1420aa21baede63fc3c98620cc1393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:30 +0000
Subject: [PATCH 04/96] fix: Union() left the start arc of an FSA without arcs
 uninitialized

---
 k2/csrc/fsa_algo.cu | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/k2/csrc/fsa_algo.cu b/k2/csrc/fsa_algo.cu
index 9236004..eff4e29 100644
--- a/k2/csrc/fsa_algo.cu
+++ b/k2/csrc/fsa_algo.cu
@@ -1308,7 +1308,6 @@ Fsa Union(FsaVec &fsas, Array1<int32_t> *arc_map /*= nullptr*/) {
 
   ContextPtr &context = fsas.Context();
   const int32_t *fsas_row_splits1_data = fsas.RowSplits(1).Data();
-  const int32_t *fsas_row_splits2_data = fsas.RowSplits(2).Data();
   const int32_t *fsas_row_ids1_data = fsas.RowIds(1).Data();
   const int32_t *fsas_row_ids2_data = fsas.RowIds(2).Data();
   const Arc *arcs_data = fsas.values.Data();
@@ -1349,8 +1348,6 @@ Fsa Union(FsaVec &fsas, Array1<int32_t> *arc_map /*= nullptr*/) {
         int32_t this_fsa_final_state_idx1 =
             this_fsa_final_state_idx01 - fsas_state_idx0x;
 
-        int32_t fsas_arc_idx0xx = fsas_row_splits2_data[fsas_state_idx0x];
-
         // fsa0: +1 (a new start state)
         // fsa1: +0 (the final state of fsa0 is removed)
         // fsa2: -1 (the final state of fsa1 is removed)
@@ -1372,17 +1369,20 @@ Fsa Union(FsaVec &fsas, Array1<int32_t> *arc_map /*= nullptr*/) {
         arc.src_state = out_state_idx0;
         out_arcs_data[out_arc_idx01] = arc;
         tmp_arc_map_data[out_arc_idx01] = fsas_arc_idx012;
+      });
 
-        if (fsas_arc_idx0xx == fsas_arc_idx012) {
-          // add a new arc from the new start state to the start state
-          // of this fsa
-          //
-          // WARNING: we cannot use fsas_state_idx01 here
-          // since the start state may have no leaving arcs!
-          Arc arc(0, fsas_state_idx0x + state_offset, 0, 0);
-          out_arcs_data[fsas_idx0] = arc;
-          out_row_ids_data[fsas_idx0] = 0;
-        }
+  // Add a new arc from the new start state to the start state of each fsa.
+  // Note that an fsa may have no arcs.
+  K2_EVAL(
+      context, num_fsas, lambda_set_start, (int32_t fsas_idx0) {
+        int32_t fsas_state_idx0x = fsas_row_splits1_data[fsas_idx0],
+                num_states_this_fsa =
+                    fsas_row_splits1_data[fsas_idx0 + 1] - fsas_state_idx0x;
+        K2_CHECK_GE(num_states_this_fsa, 2)
+            << "We support only FSAs with at least two states at present";
+        Arc arc(0, fsas_state_idx0x + 1 - fsas_idx0, 0, 0);
+        out_arcs_data[fsas_idx0] = arc;
+        out_row_ids_data[fsas_idx0] = 0;
       });
 
   if (arc_map != nullptr) *arc_map = std::move(tmp_arc_map);
-- 
2.43.0


From 5143a3e0c9b77ca551ed1ac00720113ca8c2e5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:30 +0000
Subject: [PATCH 05/96] fix: index_select() from an empty tensor must return
 one element per index

---
 k2/python/csrc/torch/index_select.cu | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/k2/python/csrc/torch/index_select.cu b/k2/python/csrc/torch/index_select.cu
index 069148f..afd6de3 100644
--- a/k2/python/csrc/torch/index_select.cu
+++ b/k2/python/csrc/torch/index_select.cu
@@ -76,9 +76,10 @@ static torch::Tensor IndexSelect1D(torch::Tensor src, torch::Tensor index,
   // If index_array.Dim() equals to zero, the `Index` below would produce an
   // ans with `ans.Data()` be a nullptr, which will cause crash when calling
   // `torch::from_blob`. Just return an empty tensor here.
-  // If src is an empty tensor, we should return an empty torch.
-  if (index_array.Dim() == 0 || src.numel() == 0)
-    return torch::empty({0}, src.options());
+  if (index_array.Dim() == 0) return torch::empty({0}, src.options());
+  // If src is an empty tensor, the index can only contain -1.
+  if (src.numel() == 0)
+    return torch::full({index_array.Dim()}, default_value, src.options());
   if (src.is_contiguous()) {
     Array1<T> src_array = FromTorch<T>(src);
     Array1<T> ans_array =
@@ -123,9 +124,11 @@ static torch::Tensor IndexSelect2D(torch::Tensor src, torch::Tensor index) {
   // If index_array.Dim() equals to zero, the `IndexRows` below would produce
   // an ans with `ans.Data()` be a nullptr, which will cause crash when calling
   // `torch::from_blob`. Just return an empty tensor here.
-  // If src is an empty tensor, we should return an empty torch.
-  if (index_array.Dim() == 0 || src.sizes()[0] == 0)
+  if (index_array.Dim() == 0)
     return torch::empty({0, src.sizes()[1]}, src.options());
+  // If src is an empty tensor, the index can only contain -1.
+  if (src.sizes()[0] == 0)
+    return torch::zeros({index_array.Dim(), src.sizes()[1]}, src.options());
   bool allow_minus_one = true;
   Array2<T> ans_array = IndexRows(src_array, index_array, allow_minus_one);
 
-- 
2.43.0


From f2abf864d09b3d3fe6f2fe77328611a0d6ef0410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:05 +0000
Subject: [PATCH 06/96] fix: Closure() left the new arc of an FSA without arcs
 uninitialized

---
 k2/csrc/fsa_algo.cu | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/k2/csrc/fsa_algo.cu b/k2/csrc/fsa_algo.cu
index eff4e29..ce2500c 100644
--- a/k2/csrc/fsa_algo.cu
+++ b/k2/csrc/fsa_algo.cu
@@ -1407,7 +1407,6 @@ Fsa Closure(Fsa &fsa, Array1<int32_t> *arc_map /* = nullptr*/) {
   }
 
   const int32_t *fsa_row_splits_data = fsa.RowSplits(1).Data();
-  const int32_t *fsa_row_ids_data = fsa.RowIds(1).Data();
   const Arc *fsa_arcs_data = fsa.values.Data();
   int32_t fsa_final_state = num_states - 1;
 
@@ -1425,14 +1424,20 @@ Fsa Closure(Fsa &fsa, Array1<int32_t> *arc_map /* = nullptr*/) {
   Array1<int32_t> tmp_arc_map(c, num_out_arcs);
   int32_t *tmp_arc_map_data = tmp_arc_map.Data();
 
+  // Add a new arc from the start state to the final state, just after the last
+  // arc of the original start state. Note that the start state, or even the
+  // whole input fsa, may have no arcs.
   K2_EVAL(
-      c, fsa.values.Dim(), lambda_set_arcs, (int32_t fsa_arc_idx01) {
-        int32_t fsa_state_idx0 = fsa_row_ids_data[fsa_arc_idx01];
-        int32_t fsa_arc_idx0x = fsa_row_splits_data[fsa_state_idx0];
-        int32_t fsa_arc_idx1 = fsa_arc_idx01 - fsa_arc_idx0x;
-        int32_t this_state_num_arcs =
-            fsa_row_splits_data[fsa_state_idx0 + 1] - fsa_arc_idx0x;
+      c, 1, lambda_set_new_arc, (int32_t) {
+        int32_t new_arc_idx01 = fsa_row_splits_data[1];
+        Arc new_arc(0, fsa_final_state, -1, 0.0f);
+        out_arcs_data[new_arc_idx01] = new_arc;
+        out_row_ids_data[new_arc_idx01] = 0;
+        tmp_arc_map_data[new_arc_idx01] = -1;
+      });
 
+  K2_EVAL(
+      c, fsa.values.Dim(), lambda_set_arcs, (int32_t fsa_arc_idx01) {
         Arc arc = fsa_arcs_data[fsa_arc_idx01];
         if (arc.dest_state == fsa_final_state) {
           // modify arcs entering the final state such that:
@@ -1450,22 +1455,6 @@ Fsa Closure(Fsa &fsa, Array1<int32_t> *arc_map /* = nullptr*/) {
           out_arc_idx01 = fsa_arc_idx01 + 1;
         } else {
           out_arc_idx01 = fsa_arc_idx01;
-          if (fsa_arc_idx1 == this_state_num_arcs - 1) {
-            // This is the last arc of the original start state,
-            // so we add a new arc just after it.
-            Arc new_arc(0, fsa_final_state, -1, 0.0f);
-            out_arcs_data[out_arc_idx01 + 1] = new_arc;
-            out_row_ids_data[out_arc_idx01 + 1] = 0;
-            tmp_arc_map_data[out_arc_idx01 + 1] = -1;
-          }
-        }
-
-        // it may happen that the start state has no leaving arcs
-        if (fsa_row_splits_data[1] == 0) {
-          Arc new_arc(0, fsa_final_state, -1, 0.0f);
-          out_arcs_data[0] = new_arc;
-          out_row_ids_data[0] = 0;
-          tmp_arc_map_data[0] = -1;
         }
 
         tmp_arc_map_data[out_arc_idx01] = fsa_arc_idx01;
-- 
2.43.0


From 471d02b1fc03db031b9abef327e7f01c36d7956c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:05 +0000
Subject: [PATCH 07/96] fix: closure() kept the aux label -1 of a final arc
 leaving state 1

src_row_splits1[1] is the index of the first arc of state 1, which moves by one
in the output like the arcs after it.
---
 k2/python/k2/fsa_algo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index 1373d32..997792b 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -862,7 +862,7 @@ def closure(fsa: Fsa) -> Fsa:
         minus_one_index = torch.nonzero(src_aux_labels == -1, as_tuple=False)
         src_start_state_last_arc_index = src_row_splits1[1]
 
-        minus_one_index[minus_one_index > src_start_state_last_arc_index] += 1
+        minus_one_index[minus_one_index >= src_start_state_last_arc_index] += 1
 
         # now minus one index contains arc indexes into the output FSA
         ans_aux_labels = index_select(src_aux_labels, arc_map)
-- 
2.43.0


From 93601d5664d1c5802b2d4f5cb20b9a6bf3b651e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:04 +0000
Subject: [PATCH 08/96] fix: FromTorch() refused contiguous tensors of one
 element

The stride of a dimension of size 1 is arbitrary; e.g. closure() and
replace_fsa() raised for an FSA with one arc.
---
 k2/csrc/torch_util.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/k2/csrc/torch_util.h b/k2/csrc/torch_util.h
index 1e48f91..36d7cd4 100644
--- a/k2/csrc/torch_util.h
+++ b/k2/csrc/torch_util.h
@@ -121,7 +121,9 @@ Array1<T> FromTorch(torch::Tensor tensor) {
       << ". Given: " << tensor.scalar_type();
   // Some empty tensor may have stride not equal to 1, e.g., tensor returned by
   // clone() method, it is valid here, so we won't check its strieds.
-  if (tensor.numel())
+  // Likewise, the stride of a tensor with one element has no meaning, e.g., the
+  // scores of an FSA with one arc are contiguous and have a stride of 4.
+  if (tensor.numel() > 1)
     K2_CHECK_EQ(tensor.strides()[0], 1)
         << "Expected stride: 1. Given: " << tensor.strides()[0];
 
-- 
2.43.0


From 993d20eb0bb8b56d219a476d195a79b0b799383e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:37 +0000
Subject: [PATCH 09/96] fix: closure() failed on ragged attributes and ignored
 fillers

---
 k2/python/k2/fsa_algo.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index 997792b..a1bab8e 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -875,10 +875,15 @@ def closure(fsa: Fsa) -> Fsa:
 
     out_fsa = Fsa(ragged_arc)
     for name, value in fsa.named_tensor_attr():
-        if name == 'aux_labels':
+        if isinstance(value, k2.RaggedTensor):
+            new_value, _ = value.index(arc_map,
+                                       axis=0,
+                                       need_value_indexes=False)
+        elif name == 'aux_labels':
             new_value = fix_aux_labels(value, fsa.arcs.row_splits(1), arc_map)
         else:
-            new_value = index_select(value, arc_map)
+            filler = float(fsa.get_filler(name))
+            new_value = index_select(value, arc_map, default_value=filler)
         setattr(out_fsa, name, new_value)
 
     for name, value in fsa.named_non_tensor_attr():
-- 
2.43.0


From 85055d93edf413795cfa78f43038175aa7369fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:37 +0000
Subject: [PATCH 10/96] fix: shortest_path() failed on a single FSA, which it
 documents as valid

---
 k2/python/k2/fsa_algo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index a1bab8e..e566222 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -616,6 +616,8 @@ def shortest_path(fsa: Fsa, use_double_scores: bool) -> Fsa:
     Returns:
       FsaVec, it contains the best paths as linear FSAs
     '''
+    if len(fsa.shape) == 2:
+        fsa = k2.create_fsa_vec([fsa])
     entering_arcs = fsa._get_entering_arcs(use_double_scores)
     ragged_arc, ragged_int = _k2.shortest_path(fsa.arcs, entering_arcs)
     arc_map = ragged_int.values
-- 
2.43.0


From 99621de15be6743b20caf60e1ca04d3af1d72c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:12 +0000
Subject: [PATCH 11/96] fix: Arange() of an empty range gave an out-of-range
 value position

---
 k2/csrc/ragged_ops.cu | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/k2/csrc/ragged_ops.cu b/k2/csrc/ragged_ops.cu
index 490c423..79fffba 100644
--- a/k2/csrc/ragged_ops.cu
+++ b/k2/csrc/ragged_ops.cu
@@ -1862,8 +1862,12 @@ RaggedShape Arange(RaggedShape &src, int32_t axis, int32_t begin, int32_t end,
   if (begin == end) {
     RaggedShape ans = EmptyRaggedShape(src.Context(), num_axes - axis);
     // as begin == end, user always get empty values when doing
-    // `src.values.Arange(begin, end)`
-    if (value_range != nullptr) *value_range = std::make_pair(begin, end);
+    // `src.values.Arange(begin, end)`; note `begin` is an index on `axis`, so
+    // it may exceed the number of elements.
+    if (value_range != nullptr) {
+      int32_t value_pos = std::min(begin, src.NumElements());
+      *value_range = std::make_pair(value_pos, value_pos);
+    }
     return ans;
   }
 
-- 
2.43.0


From 60fb2a417f3c58fd84c259a50e2fd0e87310a121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:11 +0000
Subject: [PATCH 12/96] fix: RaggedTensor.to(dtype) took a positional dtype for
 a device

---
 k2/python/csrc/torch/v2/any.cu | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/k2/python/csrc/torch/v2/any.cu b/k2/python/csrc/torch/v2/any.cu
index 5367478..3b5902a 100644
--- a/k2/python/csrc/torch/v2/any.cu
+++ b/k2/python/csrc/torch/v2/any.cu
@@ -177,6 +177,12 @@ void PybindRaggedAny(py::module &m) {
       },
       py::arg("src"), py::arg("indexes"), kRaggedAnyIndexAndSumDoc);
 
+  // It must precede the overload taking a py::object, which accepts anything.
+  any.def("to",
+          static_cast<RaggedAny (RaggedAny::*)(torch::ScalarType) const>(
+              &RaggedAny::To),
+          py::arg("dtype"), kRaggedAnyToDtypeDoc);
+
   any.def(
       "to",
       [](RaggedAny &self, py::object device) -> RaggedAny {
@@ -190,11 +196,6 @@ void PybindRaggedAny(py::module &m) {
               &RaggedAny::To),
           py::arg("device"), kRaggedAnyToDeviceStrDoc);
 
-  any.def("to",
-          static_cast<RaggedAny (RaggedAny::*)(torch::ScalarType) const>(
-              &RaggedAny::To),
-          py::arg("dtype"), kRaggedAnyToDtypeDoc);
-
   any.def(
       "clone",
       [](const RaggedAny &self) -> RaggedAny {
-- 
2.43.0


From 0a34e4fd23cca285fd5a9c1bc9813c6d5e8d0128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:00 +0000
Subject: [PATCH 13/96] fix: RaggedTensor[tensor] took a one-element index
 tensor for an int

---
 k2/python/csrc/torch/v2/any.cu | 42 +++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/k2/python/csrc/torch/v2/any.cu b/k2/python/csrc/torch/v2/any.cu
index 3b5902a..2fa70c5 100644
--- a/k2/python/csrc/torch/v2/any.cu
+++ b/k2/python/csrc/torch/v2/any.cu
@@ -91,6 +91,29 @@ void PybindRaggedAny(py::module &m) {
       [](const RaggedAny &self) -> std::string { return self.ToString(); },
       kRaggedAnyStrDoc);
 
+  // It must precede the overload taking an int, which accepts every tensor of
+  // one element.
+  any.def(
+      "__getitem__",
+      [](RaggedAny &self, torch::Tensor key) -> py::object {
+        if (key.dim() == 0)
+          return py::cast(self).attr("__getitem__")(key.item<int32_t>());
+        // key is a 1-d torch tensor with dtype torch.int32
+        DeviceGuard guard(self.any.Context());
+        Array1<int32_t> indexes = FromTorch<int32_t>(key);
+        Dtype t = self.any.GetDtype();
+        FOR_REAL_AND_INT32_TYPES(t, T, {
+          Ragged<T> ans =
+              k2::Index<T>(self.any.Specialize<T>(), /*axis*/ 0, indexes,
+                           /*value_indexes*/ nullptr);
+
+          return py::cast(RaggedAny(ans.Generic()));
+        });
+        // Unreachable code
+        return py::none();
+      },
+      py::arg("key"), kRaggedAnyGetItem1DTensorDoc);
+
   any.def(
       "__getitem__",
       [](RaggedAny &self, int32_t i) -> py::object {
@@ -132,25 +155,6 @@ void PybindRaggedAny(py::module &m) {
       },
       py::arg("key"), kRaggedAnyGetItemSliceDoc);
 
-  any.def(
-      "__getitem__",
-      [](RaggedAny &self, torch::Tensor key) -> RaggedAny {
-        // key is a 1-d torch tensor with dtype torch.int32
-        DeviceGuard guard(self.any.Context());
-        Array1<int32_t> indexes = FromTorch<int32_t>(key);
-        Dtype t = self.any.GetDtype();
-        FOR_REAL_AND_INT32_TYPES(t, T, {
-          Ragged<T> ans =
-              k2::Index<T>(self.any.Specialize<T>(), /*axis*/ 0, indexes,
-                           /*value_indexes*/ nullptr);
-
-          return RaggedAny(ans.Generic());
-        });
-        // Unreachable code
-        return {};
-      },
-      py::arg("key"), kRaggedAnyGetItem1DTensorDoc);
-
   any.def("index",
           static_cast<RaggedAny (RaggedAny::*)(RaggedAny &)>(&RaggedAny::Index),
           py::arg("indexes"), kRaggedAnyRaggedIndexDoc);
-- 
2.43.0


From b2b1b0742d298e289763ff78105dee0ec230d5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:00 +0000
Subject: [PATCH 14/96] fix: lists like [[], [[1]]] were refused depending on
 their order

---
 k2/python/csrc/torch/v2/ragged_any.cu | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/k2/python/csrc/torch/v2/ragged_any.cu b/k2/python/csrc/torch/v2/ragged_any.cu
index df685e4..ddb073f 100644
--- a/k2/python/csrc/torch/v2/ragged_any.cu
+++ b/k2/python/csrc/torch/v2/ragged_any.cu
@@ -113,7 +113,8 @@ static void RaggedAnyFromListIter(py::list data, int32_t *cur_level,
     }
   } else {
     if (*deepest_level == -1) {
-      *deepest_level = *cur_level;
+      // An empty list may be on any level, so it says nothing about the deepest
+      if (data.size() > 0) *deepest_level = *cur_level;
     } else if (data.size() > 0 && *deepest_level != *cur_level) {
       // Handle the case for [ [2], [[1]] ]
       //
-- 
2.43.0


From c74c4e960a6740096e878728239c523f01e502e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:00 +0000
Subject: [PATCH 15/96] fix: RaggedTensor[i] with 2 axes read out of bounds for
 a bad index

---
 k2/python/csrc/torch/v2/any.cu | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/python/csrc/torch/v2/any.cu b/k2/python/csrc/torch/v2/any.cu
index 2fa70c5..dd845e9 100644
--- a/k2/python/csrc/torch/v2/any.cu
+++ b/k2/python/csrc/torch/v2/any.cu
@@ -117,6 +117,8 @@ void PybindRaggedAny(py::module &m) {
   any.def(
       "__getitem__",
       [](RaggedAny &self, int32_t i) -> py::object {
+        if (i < 0 || i >= self.any.Dim0())
+          throw py::index_error("index is out of range");
         if (self.any.NumAxes() > 2) {
           RaggedAny ragged = self.Index(/*axis*/ 0, i);
           return py::cast(ragged);
-- 
2.43.0


From d5677a655b9d64f48c88c4cdfe450f8cb9a58f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:35 +0000
Subject: [PATCH 16/96] fix: improperly nested lists gave a RaggedTensor with a
 corrupt shape

---
 k2/python/csrc/torch/v2/ragged_any.cu | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/k2/python/csrc/torch/v2/ragged_any.cu b/k2/python/csrc/torch/v2/ragged_any.cu
index ddb073f..335050c 100644
--- a/k2/python/csrc/torch/v2/ragged_any.cu
+++ b/k2/python/csrc/torch/v2/ragged_any.cu
@@ -97,6 +97,11 @@ static void RaggedAnyFromListIter(py::list data, int32_t *cur_level,
   *cur_level += 1;
 
   if (static_cast<size_t>(*cur_level) > row_splits->size()) {
+    // Handle the case for [ [2], [[]] ]: elements have been seen on a level
+    // that is not the deepest one
+    if (!elems->empty())
+      throw std::runtime_error("Make sure sublists are properly nested");
+
     // This is a deeper level that has not been seen, so
     // we need to allocate a row_split for this level
     row_splits->resize(*cur_level, std::vector<int32_t>(1, 0));
-- 
2.43.0


From e4c046add381bbbb8e56a248ae1287bff1498f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:36 +0000
Subject: [PATCH 17/96] fix: swoosh backward reads past a contiguous gradient
 whose last dimension has size 1

---
 k2/python/csrc/torch/v2/autograd/swoosh.cu | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/k2/python/csrc/torch/v2/autograd/swoosh.cu b/k2/python/csrc/torch/v2/autograd/swoosh.cu
index 02abcd9..06dbbfe 100644
--- a/k2/python/csrc/torch/v2/autograd/swoosh.cu
+++ b/k2/python/csrc/torch/v2/autograd/swoosh.cu
@@ -234,7 +234,6 @@ class SwooshFunction
     torch::Tensor out_grad = y_grad[0];
     out_grad = out_grad.contiguous();
 
-    int32_t stride = out_grad.stride(-1);
     const float *out_grad_data = out_grad.data_ptr<float>();
 
     auto context = GetContext(out_grad);
@@ -248,7 +247,7 @@ class SwooshFunction
     float coeff = kCoeff;
     K2_EVAL(
         context, g.numel(), lambda_compute_swoosh_backward, (int32_t i)->void {
-          float oi = out_grad_data[i * stride];
+          float oi = out_grad_data[i];
           float gi = g_data[i];  // cast uint8_t to float
           float ii = 1;
           float fi = 1;  // functional grad
-- 
2.43.0


From 737e1304a2bc3fa0446a27545f1b0c38542e1fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:36 +0000
Subject: [PATCH 18/96] fix: ragged normalize backward refuses gradients with a
 non-unit stride

---
 k2/python/csrc/torch/v2/autograd/normalize.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/csrc/torch/v2/autograd/normalize.h b/k2/python/csrc/torch/v2/autograd/normalize.h
index db890a1..bae3a83 100644
--- a/k2/python/csrc/torch/v2/autograd/normalize.h
+++ b/k2/python/csrc/torch/v2/autograd/normalize.h
@@ -89,7 +89,7 @@ class NormalizeFunction : public torch::autograd::Function<NormalizeFunction> {
 
     torch::Tensor out_data_tensor = saved[2];
 
-    torch::Tensor out_grad = grad_outputs[0];
+    torch::Tensor out_grad = grad_outputs[0].contiguous();
     ContextPtr context = GetContext(out_grad);
 
     RaggedShape shape = RaggedShape2(&row_splits, &row_ids, row_ids.Dim());
-- 
2.43.0


From 002231548dde10d898b38ebb79eaebde76af4884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:17 +0000
Subject: [PATCH 19/96] fix: editing the result of get_tot_scores() etc. in
 place corrupts the cache of the Fsa

---
 k2/python/k2/autograd.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/k2/python/k2/autograd.py b/k2/python/k2/autograd.py
index 5d62b47..a9b310e 100644
--- a/k2/python/k2/autograd.py
+++ b/k2/python/k2/autograd.py
@@ -60,6 +60,8 @@ class _GetTotScoresFunction(torch.autograd.Function):
         # to `fsas`.
         tot_scores = fsas._get_tot_scores(use_double_scores=use_double_scores,
                                           log_semiring=log_semiring).detach()
+        # The user may modify the returned tensor; don't share the cached one.
+        tot_scores = tot_scores.clone()
 
         # NOTE: since `fsas`, `log_semiring` and `use_double_scores` are
         # not tensors, they are saved as attributes of `ctx`.
@@ -151,6 +153,8 @@ class _GetForwardScoresFunction(torch.autograd.Function):
         forward_scores = fsas._get_forward_scores(
             use_double_scores=use_double_scores,
             log_semiring=log_semiring).detach()
+        # The user may modify the returned tensor; don't share the cached one.
+        forward_scores = forward_scores.clone()
 
         # NOTE: since `fsas`, `log_semiring` and `use_double_scores` are
         # not tensors, they are saved as attributes of `ctx`.
@@ -227,6 +231,8 @@ class _GetBackwardScoresFunction(torch.autograd.Function):
         backward_scores = fsas._get_backward_scores(
             use_double_scores=use_double_scores,
             log_semiring=log_semiring).detach()
+        # The user may modify the returned tensor; don't share the cached one.
+        backward_scores = backward_scores.clone()
 
         # NOTE: since `fsas`, `log_semiring` and `use_double_scores` are
         # not tensors, they are saved as attributes of `ctx`.
@@ -310,6 +316,8 @@ class _GetArcPostFunction(torch.autograd.Function):
         # this object, which also has a reference to `fsas`.
         arc_post = fsas._get_arc_post(use_double_scores=use_double_scores,
                                       log_semiring=log_semiring).detach()
+        # The user may modify the returned tensor; don't share the cached one.
+        arc_post = arc_post.clone()
 
         # NOTE: since `fsas`, `log_semiring` and `use_double_scores` are
         # not tensors, they are saved as attributes of `ctx`.
-- 
2.43.0


From 5efa6ed2cbe5c5afd76507bee037ee718add0f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:17 +0000
Subject: [PATCH 20/96] fix: assigning labels or scores of fsa_vec[i] changes
 fsa_vec

---
 k2/python/k2/fsa.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/k2/python/k2/fsa.py b/k2/python/k2/fsa.py
index 965ed5c..eeefa36 100644
--- a/k2/python/k2/fsa.py
+++ b/k2/python/k2/fsa.py
@@ -1028,7 +1028,10 @@ class Fsa(object):
         ragged_arc, start = self.arcs.index(0, i)
         end = start + ragged_arc.values().shape[0]
 
-        out_fsa = Fsa(ragged_arc)
+        # Note: `ragged_arc` shares its memory with `self.arcs`; we clone it so
+        # that assigning to out_fsa.labels or out_fsa.scores, which writes the
+        # arcs in-place, does not change `self`.
+        out_fsa = Fsa(ragged_arc.clone())
         for name, value in self.named_tensor_attr(include_scores=False):
             if isinstance(value, torch.Tensor):
                 setattr(out_fsa, name, value[start:end])
-- 
2.43.0


From 3201a62ca58d994eb958885a45d479b7ed904119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:17 +0000
Subject: [PATCH 21/96] fix: attribute renamed from scores changes when scores
 is assigned

---
 k2/python/k2/fsa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/k2/python/k2/fsa.py b/k2/python/k2/fsa.py
index eeefa36..6260e31 100644
--- a/k2/python/k2/fsa.py
+++ b/k2/python/k2/fsa.py
@@ -892,7 +892,8 @@ class Fsa(object):
         assert src_name in self._tensor_attr or src_name == 'labels'
         try:
             value = getattr(self, src_name)
-            if src_name == 'labels':
+            if src_name in ('labels', 'scores'):
+                # They stay attributes of `self`; don't share the memory.
                 value = value.clone()
             setattr(self, dest_name, value)
             if src_name != 'scores' and src_name != 'labels':
-- 
2.43.0


From ab7886e67defee3f11d06b06623d071df44822a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:17 +0000
Subject: [PATCH 22/96] fix: backward of get_forward_scores and
 get_backward_scores refuses an expanded gradient

---
 k2/python/k2/autograd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/python/k2/autograd.py b/k2/python/k2/autograd.py
index a9b310e..9987505 100644
--- a/k2/python/k2/autograd.py
+++ b/k2/python/k2/autograd.py
@@ -172,6 +172,7 @@ class _GetForwardScoresFunction(torch.autograd.Function):
         log_semiring = ctx.log_semiring
         use_double_scores = ctx.use_double_scores
         forward_scores, = ctx.saved_tensors
+        forward_scores_grad = forward_scores_grad.contiguous()
 
         if log_semiring:
             entering_arcs = None
@@ -250,6 +251,7 @@ class _GetBackwardScoresFunction(torch.autograd.Function):
         log_semiring = ctx.log_semiring
         use_double_scores = ctx.use_double_scores
         backward_scores, = ctx.saved_tensors
+        backward_scores_grad = backward_scores_grad.contiguous()
 
         state_batches = fsas._get_state_batches()
         entering_arc_batches = fsas._get_entering_arc_batches()
-- 
2.43.0


From 030322a5b08fd90f49174e2567aa8a8f71939b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:00 +0000
Subject: [PATCH 23/96] fix: gradients of scores computed before fsa.scores is
 re-assigned are wrong

---
 k2/python/k2/autograd.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/k2/python/k2/autograd.py b/k2/python/k2/autograd.py
index 9987505..a9b51f7 100644
--- a/k2/python/k2/autograd.py
+++ b/k2/python/k2/autograd.py
@@ -27,6 +27,18 @@ from .fsa import Fsa
 from .dense_fsa_vec import DenseFsaVec
 
 
+def _fsas_with_scores(fsas: Fsa, scores: torch.Tensor) -> Fsa:
+    '''For use in backward(): return `fsas` if its scores are still the
+    `scores` seen by forward(), else (they were re-assigned afterwards) a copy
+    of it with these scores.
+    '''
+    if fsas.scores is scores:
+        return fsas
+    ans = Fsa(fsas.arcs.clone(), properties=fsas.properties)
+    ans.scores = scores.detach()
+    return ans
+
+
 class _GetTotScoresFunction(torch.autograd.Function):
 
     @staticmethod
@@ -91,10 +103,10 @@ class _GetTotScoresFunction(torch.autograd.Function):
         more difficult objective functions, that depend on the individual
         arc posteriors).
         """
-        fsas = ctx.fsas
         log_semiring = ctx.log_semiring
         use_double_scores = ctx.use_double_scores
         scores, = ctx.saved_tensors
+        fsas = _fsas_with_scores(ctx.fsas, scores)
 
         if log_semiring is False:
             entering_arcs = fsas._get_entering_arcs(use_double_scores)
@@ -161,17 +173,17 @@ class _GetForwardScoresFunction(torch.autograd.Function):
         ctx.fsas = fsas
         ctx.log_semiring = log_semiring
         ctx.use_double_scores = use_double_scores
-        ctx.save_for_backward(forward_scores)
+        ctx.save_for_backward(forward_scores, unused_scores)
 
         return forward_scores
 
     @staticmethod
     def backward(ctx, forward_scores_grad: torch.Tensor
                 ) -> Tuple[None, None, None, torch.Tensor]:  # noqa
-        fsas = ctx.fsas
         log_semiring = ctx.log_semiring
         use_double_scores = ctx.use_double_scores
-        forward_scores, = ctx.saved_tensors
+        forward_scores, scores = ctx.saved_tensors
+        fsas = _fsas_with_scores(ctx.fsas, scores)
         forward_scores_grad = forward_scores_grad.contiguous()
 
         if log_semiring:
@@ -240,17 +252,17 @@ class _GetBackwardScoresFunction(torch.autograd.Function):
         ctx.fsas = fsas
         ctx.log_semiring = log_semiring
         ctx.use_double_scores = use_double_scores
-        ctx.save_for_backward(backward_scores)
+        ctx.save_for_backward(backward_scores, unused_scores)
 
         return backward_scores
 
     @staticmethod
     def backward(ctx, backward_scores_grad: torch.Tensor
                 ) -> Tuple[None, None, None, torch.Tensor]:  # noqa
-        fsas = ctx.fsas
         log_semiring = ctx.log_semiring
         use_double_scores = ctx.use_double_scores
-        backward_scores, = ctx.saved_tensors
+        backward_scores, scores = ctx.saved_tensors
+        fsas = _fsas_with_scores(ctx.fsas, scores)
         backward_scores_grad = backward_scores_grad.contiguous()
 
         state_batches = fsas._get_state_batches()
-- 
2.43.0


From 6d0072918f830baced0e47cd9cc36568831e2577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:42 +0000
Subject: [PATCH 24/96] fix: printing an Fsa with a 2-D or strided int32
 attribute fails

---
 k2/python/k2/fsa.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/k2/python/k2/fsa.py b/k2/python/k2/fsa.py
index 6260e31..a8876ba 100644
--- a/k2/python/k2/fsa.py
+++ b/k2/python/k2/fsa.py
@@ -276,8 +276,9 @@ class Fsa(object):
         extra_labels = []
         ragged_labels = []
         for name, value in sorted(self.named_tensor_attr(include_scores=False)):
-            if isinstance(value, torch.Tensor) and value.dtype == torch.int32:
-                extra_labels.append(value)
+            if isinstance(value, torch.Tensor):
+                if value.dtype == torch.int32 and value.ndim == 1:
+                    extra_labels.append(value.contiguous())
             elif isinstance(value, k2.RaggedTensor):
                 ragged_labels.append(value)
 
-- 
2.43.0


From e8123bf8f60eaea1765f0179383e6d570fadd0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:34 +0000
Subject: [PATCH 25/96] fix: intersect_dense kept arcs whose label is out of
 range, with scores read past their row

---
 k2/csrc/intersect_dense.cu | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/k2/csrc/intersect_dense.cu b/k2/csrc/intersect_dense.cu
index fbb53ca..ffb7fd3 100644
--- a/k2/csrc/intersect_dense.cu
+++ b/k2/csrc/intersect_dense.cu
@@ -401,7 +401,8 @@ class MultiGraphDenseIntersect {
                *ans_row_splits3_data = ans_row_splits3.Data(),
                 *states_old2new_data = renumber_states.Old2New().Data();
     CompressedArc *carcs_data = carcs_.Data();
-    int32_t scores_stride = b_fsas_.scores.ElemStride0();
+    int32_t scores_stride = b_fsas_.scores.ElemStride0(),
+            scores_num_cols = b_fsas_.scores.Dim1();
     const float *scores_data = b_fsas_.scores.Data();
 
     auto lambda_set_keep = [=] __host__ __device__(
@@ -422,6 +423,8 @@ class MultiGraphDenseIntersect {
               arc_idx3;  //  arc_idx3 is an idx2 w.r.t. a_fsas.
           CompressedArc carc = carcs_data[a_fsas_arc_idx012];
           K2_CHECK_EQ(a_fsas_state_idx1, (int32_t)carc.src_state);
+          // This label does not exist in the neural-net output; see DoStep().
+          if (carc.label_plus_one >= scores_num_cols) return false;
           int32_t a_fsas_dest_state_idx1 = carc.dest_state;
           int32_t scores_index = fsa_info.scores_offset +
                                  (scores_stride * t_idx1) + carc.label_plus_one;
@@ -819,7 +822,7 @@ class MultiGraphDenseIntersect {
           // graph (a_fsas) does not exist in the neural-net output (b_fsas).
           float b_score_forward;
           float b_score_backward;
-          if (carc.label_plus_one <= scores_num_cols) {
+          if (carc.label_plus_one < scores_num_cols) {
             b_score_forward = scores_data[fsa_info.scores_offset +
                                           (scores_stride * (t - 1)) +
                                           carc.label_plus_one];
-- 
2.43.0


From 81ab3d2d3b9e5b159603ccf2aff12f992ba5049a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:11 +0000
Subject: [PATCH 26/96] fix: intersect_dense looped forever when max_states or
 max_arcs cannot be met

---
 k2/csrc/intersect_dense.cu | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/k2/csrc/intersect_dense.cu b/k2/csrc/intersect_dense.cu
index ffb7fd3..85164d8 100644
--- a/k2/csrc/intersect_dense.cu
+++ b/k2/csrc/intersect_dense.cu
@@ -857,6 +857,10 @@ class MultiGraphDenseIntersect {
   void DecreaseBeam(int64_t limit, int64_t total) {
     float cur_beam = output_beam_,
         next_beam = cur_beam * sqrt(limit * 1.0 / total);
+    // Because of roundoff, some states may survive any beam.
+    K2_CHECK_GT(cur_beam, 1.0e-10)
+        << "Cannot reduce " << total << " states or arcs to the limit of "
+        << limit << " by decreasing the beam.";
     if (next_beam < cur_beam * 0.25)
       next_beam = cur_beam * 0.25;
     if (next_beam > cur_beam * 0.75)
-- 
2.43.0


From 4404cf4ec2b14a132c07120d043da610e551b5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:28 +0000
Subject: [PATCH 27/96] fix: intersect_dense gave wrong results for numbers
 that do not fit in uint16_t

---
 k2/csrc/intersect_dense.cu | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/k2/csrc/intersect_dense.cu b/k2/csrc/intersect_dense.cu
index 85164d8..4d64238 100644
--- a/k2/csrc/intersect_dense.cu
+++ b/k2/csrc/intersect_dense.cu
@@ -135,6 +135,7 @@ class MultiGraphDenseIntersect {
     num_fsas_ = a_fsas_.Dim0();
     K2_CHECK_GT(num_fsas_, 0);
     K2_CHECK_GT(output_beam, 0);
+    CheckSizes();
 
     {
       Array1<int32_t> dest_states = GetDestStates(a_fsas_, true);
@@ -610,8 +611,21 @@ class MultiGraphDenseIntersect {
 
   // private:
 
+  // CompressedArc and FsaInfo store these numbers as uint16_t.
+  void CheckSizes() {
+    const int32_t max_uint16 = std::numeric_limits<uint16_t>::max();
+    K2_CHECK_LE(num_fsas_ - 1, max_uint16) << "Too many FSAs";
+    K2_CHECK_LE(a_fsas_.shape.MaxSize(1), max_uint16)
+        << "Too many states in an FSA";
+    K2_CHECK_LE(b_fsas_.shape.MaxSize(1), max_uint16) << "Too many frames";
+    // labels of a_fsas_ that are not less than this are ignored, see
+    // InitCompressedArcs().
+    K2_CHECK_LE(b_fsas_.scores.Dim1(), max_uint16) << "Too many symbols";
+  }
+
   void InitCompressedArcs() {
     NVTX_RANGE(K2_FUNC);
+    const int32_t max_uint16 = std::numeric_limits<uint16_t>::max();
     int32_t tot_arcs = a_fsas_.NumElements();
     carcs_ = Array1<CompressedArc>(c_, tot_arcs);
     CompressedArc *carcs_data = carcs_.Data();
@@ -633,7 +647,8 @@ class MultiGraphDenseIntersect {
           CompressedArc carc;
           carc.src_state = uint16_t(arc.src_state);
           carc.dest_state = uint16_t(arc.dest_state);
-          carc.label_plus_one = uint16_t(arc.label + 1);
+          carc.label_plus_one =
+              uint16_t(arc.label < max_uint16 ? arc.label + 1 : max_uint16);
           carc.fsa_idx = a_fsas_row_ids1[a_fsas_row_ids2[i]];
           carc.score = arc.score;
           {  // set carc.incoming_arc_idx012
-- 
2.43.0


From cf0e639b2852267098866c181413fa71187853e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:36 +0000
Subject: [PATCH 28/96] fix: intersect_dense did not check a_to_b_map and the
 number of FSAs

---
 k2/csrc/intersect_dense.cu       | 5 +++++
 k2/python/csrc/torch/fsa_algo.cu | 8 ++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/k2/csrc/intersect_dense.cu b/k2/csrc/intersect_dense.cu
index 4d64238..dd7de7c 100644
--- a/k2/csrc/intersect_dense.cu
+++ b/k2/csrc/intersect_dense.cu
@@ -1082,6 +1082,11 @@ void IntersectDense(FsaVec &a_fsas, DenseFsaVec &b_fsas,
         << *a_to_b_map;
   }
   K2_CHECK_EQ(a_fsas.Dim0(), a_to_b_map->Dim());
+  if (a_to_b_map->Dim() != 0) {
+    // It is monotonic, so this checks all of its elements.
+    K2_CHECK_GE((*a_to_b_map)[0], 0);
+    K2_CHECK_LT(a_to_b_map->Back(), b_fsas.shape.Dim0());
+  }
 
   MultiGraphDenseIntersect intersector(a_fsas, b_fsas,
                                        *a_to_b_map,
diff --git a/k2/python/csrc/torch/fsa_algo.cu b/k2/python/csrc/torch/fsa_algo.cu
index f875b32..7509218 100644
--- a/k2/python/csrc/torch/fsa_algo.cu
+++ b/k2/python/csrc/torch/fsa_algo.cu
@@ -240,11 +240,11 @@ static void PybindIntersectDense(py::module &m) {
         Array1<int32_t> a_to_b_map_array;
         if (a_to_b_map.has_value()) {
           a_to_b_map_array = FromTorch<int32_t>(a_to_b_map.value());
-        } else {
-          a_to_b_map_array = Arange(a_fsa_vec.Context(), 0, a_fsa_vec.Dim0());
         }
-        IntersectDense(a_fsa_vec, b_fsas, &a_to_b_map_array, output_beam,
-                       max_states, max_arcs, &out, &arc_map_a, &arc_map_b);
+        IntersectDense(a_fsa_vec, b_fsas,
+                       a_to_b_map.has_value() ? &a_to_b_map_array : nullptr,
+                       output_beam, max_states, max_arcs, &out, &arc_map_a,
+                       &arc_map_b);
         return std::make_tuple(out, ToTorch(arc_map_a), ToTorch(arc_map_b));
       },
       py::arg("a_fsas"), py::arg("b_fsas"), py::arg("a_to_b_map"),
-- 
2.43.0


From c722d6a560e6770245aa0115cc3a9cc934f0600d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:54 +0000
Subject: [PATCH 29/96] fix: intersect_dense_pruned failed for very large
 max_active_states

The number of hash buckets overflowed int32_t, although the documentation
says a very large number can be used if no constraint is needed.
---
 k2/csrc/intersect_dense_pruned.cu | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/k2/csrc/intersect_dense_pruned.cu b/k2/csrc/intersect_dense_pruned.cu
index 9ace992..a0c7afe 100644
--- a/k2/csrc/intersect_dense_pruned.cu
+++ b/k2/csrc/intersect_dense_pruned.cu
@@ -104,10 +104,6 @@ class MultiGraphDenseIntersectPruned {
     K2_CHECK(a_fsas.shape.Dim0() == num_seqs || a_fsas.shape.Dim0() == 1);
     K2_CHECK_GE(num_seqs, 1);
 
-    int32_t num_buckets = RoundUpToNearestPowerOfTwo(num_seqs * 4 *
-                                                     max_active);
-    if (num_buckets < 128)
-      num_buckets = 128;
     int32_t num_a_copies;
     if (a_fsas.shape.Dim0() == 1) {
       a_fsas_stride_ = 0;
@@ -138,6 +134,15 @@ class MultiGraphDenseIntersectPruned {
             "with more options: num_keys=" << num_keys;
       }
     }
+    // max_active may be very large to mean "no limit"; there are never more
+    // active states than keys.  PropagateForward() resizes the hash if needed.
+    int64_t min_buckets = std::min<int64_t>(
+        std::min<int64_t>((int64_t)num_seqs * 4 * max_active, num_keys * 4),
+        1 << 28);
+    int32_t num_buckets =
+        RoundUpToNearestPowerOfTwo(static_cast<int32_t>(min_buckets));
+    if (num_buckets < 128)
+      num_buckets = 128;
     state_map_ = Hash(c_, num_buckets, num_key_bits);
   }
 
@@ -405,8 +410,9 @@ class MultiGraphDenseIntersectPruned {
 
 
   void BackwardPass() {
-    int32_t num_fsas = b_fsas_->shape.Dim0(),
-      num_work_items = max_active_ * num_fsas * T_;
+    int32_t num_fsas = b_fsas_->shape.Dim0();
+    std::size_t num_work_items =
+        static_cast<std::size_t>(max_active_) * num_fsas * T_;
     ParallelRunner pr(c_);
     // if num_work_items is big enough, it will actually create a new stream.
     cudaStream_t stream = pr.NewStream(num_work_items);
-- 
2.43.0


From 27154ee33275141dc94bd398b812c5c5d630c6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:09 +0000
Subject: [PATCH 30/96] fix: pruned intersection read scores past their row for
 labels that are out of range

---
 k2/csrc/intersect_dense_pruned.cu | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/k2/csrc/intersect_dense_pruned.cu b/k2/csrc/intersect_dense_pruned.cu
index a0c7afe..e75e22d 100644
--- a/k2/csrc/intersect_dense_pruned.cu
+++ b/k2/csrc/intersect_dense_pruned.cu
@@ -657,7 +657,9 @@ class MultiGraphDenseIntersectPruned {
               // the origial arc index in b_fsas when allow_partial == true.
               // Then arc_map_b storages the "correct" arc index instead of
               // the non-exist manually added arc pointing to super-final state.
-              b_fsas_idx2 = (arc_label + 1),
+              // A manually added arc may have a label not present in b_fsas.
+              b_fsas_idx2 =
+                  (arc_label + 1 < b_fsas_num_cols ? arc_label + 1 : 0),
               b_fsas_arc_idx012 = b_fsas_idx01 * b_fsas_num_cols + b_fsas_idx2;
               arc_map_b_data[oarc_idx0123] = b_fsas_arc_idx012;
           }
@@ -875,9 +877,12 @@ class MultiGraphDenseIntersectPruned {
                   scores_idx01 = scores_idx0x + t,  // t == idx1 into 'scores'
               scores_idx2 =
                   arc.label + 1;  // the +1 is so that -1 can be handled
-          K2_DCHECK_LT(static_cast<uint32_t>(scores_idx2),
-                       static_cast<uint32_t>(scores_num_cols));
-          float acoustic_score = scores_acc(scores_idx01, scores_idx2);
+          // Labels with no column in b_fsas can never be matched.
+          float acoustic_score =
+              static_cast<uint32_t>(scores_idx2) <
+                      static_cast<uint32_t>(scores_num_cols)
+                  ? scores_acc(scores_idx01, scores_idx2)
+                  : -std::numeric_limits<float>::infinity();
           auto dest_state = arc.dest_state;
           auto final_t = b_fsas_row_splits1[ai_fsa_idx0+1] - b_fsas_row_splits1[ai_fsa_idx0];
 
-- 
2.43.0


From 451b8d1f21316f53fe9360d94ec03665cf27367a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:15 +0000
Subject: [PATCH 31/96] fix: OnlineDenseIntersecter.decode refused None for new
 sequences

None is what its documentation says to pass for a sequence without history.
---
 k2/python/k2/online_dense_intersecter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/k2/python/k2/online_dense_intersecter.py b/k2/python/k2/online_dense_intersecter.py
index efb7510..4389961 100644
--- a/k2/python/k2/online_dense_intersecter.py
+++ b/k2/python/k2/online_dense_intersecter.py
@@ -132,6 +132,9 @@ class OnlineDenseIntersecter(object):
           lattices. See the example in the constructor to get more info about
           how to use the list of new decoding states.
         """
+        decode_states = [
+            DecodeStateInfo() if s is None else s for s in decode_states
+        ]
         ragged_arc, arc_map, new_decode_states = self.intersecter.decode(
             dense_fsas.dense_fsa_vec, decode_states
         )
-- 
2.43.0


From 19f27b30f75916abead5c21b29b472d6641524c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:43 +0000
Subject: [PATCH 32/96] fix: pruned intersection aborted the process on
 roundoff of large scores

The check ran in a thread of the pool, where its exception ends the process.
---
 k2/csrc/intersect_dense_pruned.cu | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/k2/csrc/intersect_dense_pruned.cu b/k2/csrc/intersect_dense_pruned.cu
index e75e22d..fa7242e 100644
--- a/k2/csrc/intersect_dense_pruned.cu
+++ b/k2/csrc/intersect_dense_pruned.cu
@@ -1311,8 +1311,8 @@ class MultiGraphDenseIntersectPruned {
         float src_state_forward_loglike = OrderedIntToFloat(
             cur_states_data[arcs_rowids2[arcs_idx012]].forward_loglike);
 
-        // should be <= 0.0, mathematically.
-        K2_CHECK_LE(backward_loglike, -src_state_forward_loglike + 2.0);
+        // The sum should be <= 0.0, mathematically, but with roundoff it may be
+        // positive, by a lot if the scores are large.
         if (backward_loglike + src_state_forward_loglike >= -output_beam) {
           keep_this_arc = 1;
         } else {
-- 
2.43.0


From f878dfddc410ed91df1067ab3d82f242c6b15fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:24 +0000
Subject: [PATCH 33/96] fix: OnlineDenseIntersecter restarted streams whose
 search had died

The frames without active states were dropped together with the padding, so
that the next chunk continued from an earlier frame, and the start state of a
stream with a shorter history than others could be pruned away, giving an FSA
with only one state.
---
 k2/csrc/intersect_dense_pruned.cu | 53 +++++++++++++++++++++++++++----
 1 file changed, 47 insertions(+), 6 deletions(-)

diff --git a/k2/csrc/intersect_dense_pruned.cu b/k2/csrc/intersect_dense_pruned.cu
index fa7242e..3524642 100644
--- a/k2/csrc/intersect_dense_pruned.cu
+++ b/k2/csrc/intersect_dense_pruned.cu
@@ -1450,9 +1450,27 @@ class MultiGraphDenseIntersectPruned {
         // it more complex to avoid invalid FSAs (e.g. with an end-state but no
         // start-state, or in which we incorrectly interpret a non-start state as
         // the start state).
-        if (i == 0)  // t == begin_t
+        if (i == 0) {  // t == begin_t
           this_states_keep = (char)1;  // set all elements of the array
-        // `states_keep` to 1.
+          // `states_keep` to 1.
+        } else {
+          // In online decoding, a sequence with a shorter history than others
+          // in the batch may have its start-state on a later frame; as for
+          // t == 0, don't remove it.
+          const int32_t *prev_row_splits1_data =
+                            frames_[t - 1]->states.RowSplits(1).Data(),
+                        *row_splits1_data = cur_frame->states.RowSplits(1).Data();
+          char *this_states_keep_data = this_states_keep.Data();
+          K2_EVAL(
+              c_, num_fsas, lambda_keep_start_states, (int32_t seq)->void {
+                int32_t begin = row_splits1_data[seq],
+                        end = row_splits1_data[seq + 1];
+                if (prev_row_splits1_data[seq] ==
+                        prev_row_splits1_data[seq + 1] &&
+                    end == begin + 1)
+                  this_states_keep_data[begin] = 1;
+              });
+        }
       }
     }
 
@@ -1773,6 +1791,28 @@ OnlineDenseIntersecter::~OnlineDenseIntersecter(){
   delete impl_;
 }
 
+/*
+  Removes, from each list on axis 1 of `shape`, the empty lists before the first
+  nonempty one.  Empty lists after it are kept: these are frames on which no
+  state was active.
+ */
+static RaggedShape RemoveLeadingEmptyLists(RaggedShape &shape) {
+  ContextPtr c = shape.Context();
+  int32_t num_lists = shape.TotSize(1);
+  const int32_t *row_splits1_data = shape.RowSplits(1).Data(),
+                *row_ids1_data = shape.RowIds(1).Data(),
+                *row_splits2_data = shape.RowSplits(2).Data();
+  Renumbering renumbering(c, num_lists);
+  char *keep_data = renumbering.Keep().Data();
+  K2_EVAL(
+      c, num_lists, lambda_set_keep, (int32_t idx01)->void {
+        int32_t idx0x = row_splits1_data[row_ids1_data[idx01]];
+        keep_data[idx01] =
+            (row_splits2_data[idx01 + 1] > row_splits2_data[idx0x]);
+      });
+  return RemoveSomeEmptyLists(shape, 1, renumbering);
+}
+
 void OnlineDenseIntersecter::Decode(DenseFsaVec &b_fsas,
     std::vector<DecodeStateInfo*> *decode_states,
     FsaVec *ofsa, Array1<int32_t> *arc_map_a) {
@@ -1811,11 +1851,12 @@ void OnlineDenseIntersecter::Decode(DenseFsaVec &b_fsas,
   auto stack_states = Stack(0, num_seqs, seq_states_ptr_vec.data());
   auto stack_arcs = Stack(0, num_seqs, seq_arcs_ptr_vec.data());
 
-  // Remove empty lists on frame axis, these empty lists come from the
+  // Remove leading empty lists on frame axis, these empty lists come from the
   // Unstack of the previous chunk
-  stack_states = Ragged<StateInfo>(RemoveEmptyLists(stack_states.shape, 1),
-                                   stack_states.values);
-  stack_arcs = Ragged<ArcInfo>(RemoveEmptyLists(stack_arcs.shape, 1),
+  stack_states =
+      Ragged<StateInfo>(RemoveLeadingEmptyLists(stack_states.shape),
+                        stack_states.values);
+  stack_arcs = Ragged<ArcInfo>(RemoveLeadingEmptyLists(stack_arcs.shape),
                                stack_arcs.values);
 
   std::vector<Ragged<StateInfo>> frame_states_vec;
-- 
2.43.0


From 8af1ebd3d57a96d23788657e44cc3317f6abe34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:36 +0000
Subject: [PATCH 34/96] fix: ctc_topo crashed when the number of arcs does not
 fit in int32_t

Also refuse a negative max_token, for which it made an invalid FSA.
---
 k2/csrc/fsa_algo.cu | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/k2/csrc/fsa_algo.cu b/k2/csrc/fsa_algo.cu
index ce2500c..4c9d7d8 100644
--- a/k2/csrc/fsa_algo.cu
+++ b/k2/csrc/fsa_algo.cu
@@ -733,6 +733,7 @@ Fsa CtcTopo(const ContextPtr &c, int32_t max_token, bool modified,
             Array1<int32_t> *aux_labels) {
   NVTX_RANGE(K2_FUNC);
   K2_CHECK(aux_labels);
+  K2_CHECK_GE(max_token, 0);
   if (modified) {
     // plusing 2 here to include 0(epsilon) and final state
     int32_t states = max_token + 2;
@@ -784,6 +785,8 @@ Fsa CtcTopo(const ContextPtr &c, int32_t max_token, bool modified,
     RowIdsToRowSplits(row_ids, &row_splits);
     return Ragged<Arc>(RaggedShape2(&row_splits, &row_ids, num_arcs), arcs);
   } else {
+    // There are (max_token + 1) * (max_token + 2) arcs.
+    K2_CHECK_LE(max_token, 46339) << "Too many arcs, they don't fit in int32_t";
     // plusing 2 here to include 0(epsilon) and final state
     int32_t states = max_token + 2,
             dim0 = states - 1,  // minusing 1 here because there is not
-- 
2.43.0


From fa21c566347ecd4897a9eee757d0bbc607f8ff7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:21 +0000
Subject: [PATCH 35/96] fix: linear_fst failed for an empty list and accepted
 aux_labels of other lengths

With a list of lists, aux_labels whose lengths differ from those of labels
were attached to the wrong FSTs.
---
 k2/python/k2/fsa_algo.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index e566222..c3ac9ca 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -118,9 +118,11 @@ def linear_fst(labels: Union[List[int], List[List[int]]],
       A vector of FSTs (FsaVec) if the input is a list of list of integers.
     '''
     ragged_arc = _k2.linear_fsa(labels)
-    if isinstance(labels[0], List):
-        assert isinstance(aux_labels[0],
-                          list), 'aux_labels and labels do not match.'
+    if len(labels) > 0 and isinstance(labels[0], List):
+        assert (len(labels) == len(aux_labels) and all(
+            isinstance(a, list) and len(a) == len(l)
+            for l, a in zip(labels, aux_labels)
+        )), 'aux_labels and labels do not match.'
         buf = []
         for aux in aux_labels:
             buf.extend(aux + [-1])
-- 
2.43.0


From b14c06923ebb82e9eedb41075433195293314ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:57 +0000
Subject: [PATCH 36/96] fix: Nbest.from_lattice scaled the caller's score
 tensor in place

It failed for a leaf tensor that requires grad and it left a tensor that
was assigned to lattice.scores scaled by nbest_scale.
---
 k2/python/k2/nbest.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index d2e7814..6cece02 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -127,14 +127,20 @@ class Nbest(object):
         Returns:
           Return an Nbest instance.
         """
-        saved_scores = lattice.scores.clone()
-        lattice.scores *= nbest_scale
-        # path is a ragged tensor with dtype torch.int32.
-        # It has three axes [utt][path][arc_pos]
-        path = k2.random_paths(
-            lattice, num_paths=num_paths, use_double_scores=use_double_scores
-        )
-        lattice.scores = saved_scores
+        # Note: We don't use `lattice.scores *= nbest_scale` here as it would
+        # change the tensor the caller has assigned to `lattice.scores`.
+        saved_scores = lattice.scores
+        lattice.scores = saved_scores * nbest_scale
+        try:
+            # path is a ragged tensor with dtype torch.int32.
+            # It has three axes [utt][path][arc_pos]
+            path = k2.random_paths(
+                lattice,
+                num_paths=num_paths,
+                use_double_scores=use_double_scores,
+            )
+        finally:
+            lattice.scores = saved_scores
 
         # word_seq is a k2.RaggedTensor sharing the same shape as `path`
         # but it contains word IDs. Note that it also contains 0s and -1s.
-- 
2.43.0


From 966fe85b50d19addff73019fa2090bee69ce8a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:39 +0000
Subject: [PATCH 37/96] fix: Nbest.top_k failed if every utterance has less
 than k paths

---
 k2/python/k2/nbest.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index 6cece02..14fc8d7 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -288,6 +288,13 @@ class Nbest(object):
                 'Some utterances contain empty ' \
                 f'n-best: {self.shape.row_splits(1)}'
 
+        num_paths = padded_indexes.shape[1]
+        if num_paths < k:
+            # No utterance has k paths, repeat the last path of each of them
+            padded_indexes = torch.cat(
+                [padded_indexes, padded_indexes[:, -1:].expand(
+                    -1, k - num_paths)], dim=1)
+
         # Select the idx01's of top-k paths of each utterance
         top_k_indexes = padded_indexes[:, :k].flatten().contiguous()
 
-- 
2.43.0


From 52251e07370e28c975726780cc6cb913a8116f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:18 +0000
Subject: [PATCH 38/96] fix: levenshtein_alignment renamed an attribute of its
 argument

A second call with the same hyps failed.
---
 k2/python/k2/fsa_algo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index c3ac9ca..0ac5eb5 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -1448,6 +1448,8 @@ def levenshtein_alignment(
     assert hasattr(refs, "aux_labels")
     assert hasattr(hyps, "aux_labels")
 
+    # Don't rename the attribute of the caller's object.
+    hyps = hyps.clone()
     hyps.rename_tensor_attribute_("aux_labels", "hyp_labels")
 
     lattice = k2.intersect_device(refs,
-- 
2.43.0


From d45be6caa1fd2566b8fe0423fcf2ffb85ab30157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:59 +0000
Subject: [PATCH 39/96] fix: whole_lattice_rescoring changed the lattice it was
 given

The scores of its argument lost the LM scores and lm_scores was deleted, so
the lattice could not be rescored a second time.
---
 k2/python/k2/nbest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index 14fc8d7..441e707 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -332,6 +332,7 @@ def whole_lattice_rescoring(lats: Fsa, G_with_epsilon_loops: Fsa) -> Fsa:
             f'{G_with_epsilon_loops.shape}'
 
     device = lats.device
+    lats = lats.clone()  # don't change the caller's lattice
     lats.scores = lats.scores - lats.lm_scores
     # Now lats contains only acoustic scores
 
-- 
2.43.0


From c10717d9a3153fc9d7ef6bf5cdcc0fd4e375d821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 40/96] fix: generate_nbest_list added an attribute to the
 lattice it was given

A second call with the same lattice failed.
---
 k2/python/k2/nbest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index 441e707..eb7cb82 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -400,7 +400,7 @@ def generate_nbest_list(lats: Fsa, num_paths: int) -> Nbest:
     assert hasattr(lats, 'phones')
 
     assert not hasattr(lats, 'tokens')
-    lats.tokens = lats.phones
+    tokens = lats.phones
     # we use tokens instead of phones in the following code
 
     # First, extract `num_paths` paths for each sequence.
@@ -411,7 +411,7 @@ def generate_nbest_list(lats: Fsa, num_paths: int) -> Nbest:
     # but it contains token IDs. Note that it also contains 0s and -1s.
     # The last entry in each sublist is -1.
     # Its axes are [seq][path][token_id]
-    token_seqs = k2.ragged.index(lats.tokens, paths)
+    token_seqs = k2.ragged.index(tokens, paths)
 
     # Remove epsilons (0s) and -1 from token_seqs
     token_seqs = token_seqs.remove_values_leq(0)
-- 
2.43.0


From ab5e7e9228d6eeabec83e889f88621784f015066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 41/96] fix: Nbest.from_lattice samples from a scaled copy of
 the lattice

Scaling the scores of the lattice and restoring them changed them for good
if they are a view of the arcs.
---
 k2/python/k2/nbest.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index eb7cb82..e0f3472 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -127,20 +127,18 @@ class Nbest(object):
         Returns:
           Return an Nbest instance.
         """
-        # Note: We don't use `lattice.scores *= nbest_scale` here as it would
-        # change the tensor the caller has assigned to `lattice.scores`.
-        saved_scores = lattice.scores
-        lattice.scores = saved_scores * nbest_scale
-        try:
-            # path is a ragged tensor with dtype torch.int32.
-            # It has three axes [utt][path][arc_pos]
-            path = k2.random_paths(
-                lattice,
-                num_paths=num_paths,
-                use_double_scores=use_double_scores,
-            )
-        finally:
-            lattice.scores = saved_scores
+        # Note: We scale a copy so that neither `lattice` nor the tensor the
+        # caller has assigned to `lattice.scores` is changed.
+        scaled_lattice = Fsa(lattice.arcs.clone(),
+                             properties=lattice.properties)
+        scaled_lattice.scores = lattice.scores.detach() * nbest_scale
+        # path is a ragged tensor with dtype torch.int32.
+        # It has three axes [utt][path][arc_pos]
+        path = k2.random_paths(
+            scaled_lattice,
+            num_paths=num_paths,
+            use_double_scores=use_double_scores,
+        )
 
         # word_seq is a k2.RaggedTensor sharing the same shape as `path`
         # but it contains word IDs. Note that it also contains 0s and -1s.
-- 
2.43.0


From d3ff6c4679a8800ad2f518c57ffd0428d55a6200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 42/96] fix: Nbest.intersect raised TypeError for any input

RaggedShape.dim0 is a property.
---
 k2/python/k2/nbest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index e0f3472..aa57d2a 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -221,8 +221,8 @@ class Nbest(object):
         assert self.fsa.device == lats.device, \
                 f'{self.fsa.device} vs {lats.device}'
         assert len(lats.shape) == 3, f'{lats.shape}'
-        assert lats.arcs.dim0() == self.shape.dim0(), \
-                f'{lats.arcs.dim0()} vs {self.shape.dim0()}'
+        assert lats.arcs.dim0() == self.shape.dim0, \
+                f'{lats.arcs.dim0()} vs {self.shape.dim0}'
 
         lats = k2.arc_sort(lats)  # no-op if lats is already arc sorted
 
-- 
2.43.0


From 4478f32b6411f5d08271e533561b9ffd9a51d8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:44 +0000
Subject: [PATCH 43/96] fix: Nbest.intersect failed if the intersection is not
 top-sorted

---
 k2/python/k2/nbest.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index aa57d2a..dfc19f8 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -235,6 +235,10 @@ class Nbest(object):
                                        b_to_a_map=path_to_seq_map,
                                        sorted_match_a=True)
 
+        # shortest_path requires a top-sorted FsaVec; the result of
+        # intersect_device may not be.
+        ans_lats = k2.top_sort(k2.connect(ans_lats))
+
         one_best = k2.shortest_path(ans_lats, use_double_scores=True)
 
         one_best = k2.remove_epsilon(one_best)
-- 
2.43.0


From 4a2215756c13adc67947714a0b73eaa18b6576cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:27 +0000
Subject: [PATCH 44/96] fix: smoothed RNN-T loss was NaN when the two scales
 sum to one

---
 k2/python/k2/rnnt_loss.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/k2/python/k2/rnnt_loss.py b/k2/python/k2/rnnt_loss.py
index 9a80c5f..5219569 100644
--- a/k2/python/k2/rnnt_loss.py
+++ b/k2/python/k2/rnnt_loss.py
@@ -1684,6 +1684,9 @@ def get_rnnt_logprobs_smoothed(
         lm_only_scale = 1.0e-20
     if am_only_scale == 0.0:
         am_only_scale = 1.0e-20
+    # it may be off zero, also below it, by roundoff
+    if abs(combined_scale) < 1.0e-12:
+        combined_scale = 1.0e-20
 
     px_interp = (
         px * combined_scale
-- 
2.43.0


From fcec751943a18dbefa9cfaff96a4a35c5a1eac54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:33 +0000
Subject: [PATCH 45/96] fix: pruned_ranges_to_lattice mapped arcs to memory
 offsets of strided logits

---
 k2/python/csrc/torch/pruned_ranges_to_lattice.cu | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/k2/python/csrc/torch/pruned_ranges_to_lattice.cu b/k2/python/csrc/torch/pruned_ranges_to_lattice.cu
index 415be11..2e24290 100644
--- a/k2/python/csrc/torch/pruned_ranges_to_lattice.cu
+++ b/k2/python/csrc/torch/pruned_ranges_to_lattice.cu
@@ -170,10 +170,12 @@ FsaVec PrunedRangesToLattice(
     Array1<int32_t> out_map(context, num_arcs);
     int32_t* out_map_data = out_map.Data();
     // Used to populate out_map.
-    const int32_t lg_stride_0 = logits.stride(0),
-                  lg_stride_1 = logits.stride(1),
-                  lg_stride_2 = logits.stride(2),
-                  lg_stride_3 = logits.stride(3);
+    // They index the elements of logits in order (as logits.reshape(-1) does),
+    // so they must not depend on the memory layout of logits.
+    const int32_t lg_stride_3 = 1,
+                  lg_stride_2 = logits.size(3),
+                  lg_stride_1 = logits.size(2) * lg_stride_2,
+                  lg_stride_0 = logits.size(1) * lg_stride_1;
 
     // Type of logits can be float32, float64, float16. Though float32 is mainly
     // used, float64 and float16 are also supported for future use.
-- 
2.43.0


From e3fc64bbbd5415957ee265e56ff8f04232c71669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 46/96] fix: a flush without frames left RnntDecodingStreams
 attached

---
 k2/csrc/rnnt_decode.cu | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/k2/csrc/rnnt_decode.cu b/k2/csrc/rnnt_decode.cu
index 7e44391..6c220a7 100644
--- a/k2/csrc/rnnt_decode.cu
+++ b/k2/csrc/rnnt_decode.cu
@@ -79,8 +79,13 @@ RnntDecodingStreams::RnntDecodingStreams(
 
 void RnntDecodingStreams::TerminateAndFlushToStreams() {
   NVTX_RANGE(K2_FUNC);
-  // return directly if already detached or no frames decoded.
-  if (!attached_ || prev_frames_.empty()) return;
+  // return directly if already detached.
+  if (!attached_) return;
+  // nothing to flush if no frames decoded.
+  if (prev_frames_.empty()) {
+    attached_ = false;
+    return;
+  }
   std::vector<Ragged<int64_t>> states;
   std::vector<Ragged<double>> scores;
   Unstack(states_, 0, &states);
-- 
2.43.0


From e58f3a357872b314a8df844b52bb04d7fb9be5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 47/96] fix: RNN-T format_output used the filler of another
 attribute

---
 k2/python/k2/rnnt_decode.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/k2/python/k2/rnnt_decode.py b/k2/python/k2/rnnt_decode.py
index 949d1db..c992c69 100644
--- a/k2/python/k2/rnnt_decode.py
+++ b/k2/python/k2/rnnt_decode.py
@@ -229,6 +229,7 @@ class RnntDecodingStreams(object):
                     }
         # combine the attributes propagating from different decoding graphs
         for name, info in tensor_attr_info.items():
+            filler = info["filler"]
             values = list()
             start = 0
             for i in range(self.num_streams):
-- 
2.43.0


From b1a5e5f4c14280be771bf3d5f8fed87f3a233782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 48/96] fix: RNN-T lattice scores were NaN with log_probs of
 -inf

---
 k2/python/k2/rnnt_decode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/python/k2/rnnt_decode.py b/k2/python/k2/rnnt_decode.py
index c992c69..b2a5696 100644
--- a/k2/python/k2/rnnt_decode.py
+++ b/k2/python/k2/rnnt_decode.py
@@ -292,6 +292,8 @@ class RnntDecodingStreams(object):
             # Decoding graph may contain non-zero scores on arcs.
             graph_scores = \
                 fsa.scores.detach() - scores_tracked_by_autograd.detach()
+            # -inf minus -inf
+            graph_scores[graph_scores.isnan()] = 0
             scores_tracked_by_autograd = \
                 scores_tracked_by_autograd + graph_scores
             fsa.scores = scores_tracked_by_autograd
-- 
2.43.0


From a02dc04bb3c0d485308091baf4ad93a9314be84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 49/96] fix: read the ragged labels that k2 text output writes

The k2-format reader stopped at the space before a closing bracket, so a
line written by to_str() such as '0 1 5 [ 3 4 ] 0.5' was refused.
---
 k2/csrc/fsa_utils.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/csrc/fsa_utils.cu b/k2/csrc/fsa_utils.cu
index 9eb6231..e8ed071 100644
--- a/k2/csrc/fsa_utils.cu
+++ b/k2/csrc/fsa_utils.cu
@@ -132,7 +132,7 @@ static Fsa K2FsaFromStream(std::istringstream &is,
       line_is >> c >> std::ws;  // eat the '['
       while (line_is.peek() != ']' && line_is.good()) {
         int32_t ragged_label;
-        line_is >> ragged_label;
+        line_is >> ragged_label >> std::ws;
         ragged_labels[i].push_back(ragged_label);
       }
       line_is >> c;  // eat the ']'
-- 
2.43.0


From c152a674caf7ae571ea21daa4661f736750b0f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 50/96] fix: read OpenFst acceptor arcs that have no cost

OpenFst omits a zero cost; the line 'src dest label' ends at the label,
which left the stream at eof and made the reader refuse the line.
---
 k2/csrc/fsa_utils.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/csrc/fsa_utils.cu b/k2/csrc/fsa_utils.cu
index e8ed071..375ab0f 100644
--- a/k2/csrc/fsa_utils.cu
+++ b/k2/csrc/fsa_utils.cu
@@ -266,7 +266,7 @@ class OpenFstStreamReader {
     std::istringstream line_is(line);
     int32_t src_state, dest_state, label;
     line_is >> src_state >> dest_state >> label;
-    if (!line_is.good()) {
+    if (line_is.fail()) {
       // Our only hope of parsing othis is that `line` was empty, or a
       // final-state; try that.
       if (!ProcessFinalProbOrEmpty(line)) {
-- 
2.43.0


From 710399009d0057801b7bd7bd591eb12ca2c55c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:41 +0000
Subject: [PATCH 51/96] fix: read infinite scores back from text

to_str() writes -inf as '-inf' (or 'inf' as an OpenFst cost), and OpenFst
writes 'Infinity', but operator>> cannot parse any of them, so such FSAs
could not be read back.
---
 k2/csrc/fsa_utils.cu | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/k2/csrc/fsa_utils.cu b/k2/csrc/fsa_utils.cu
index 375ab0f..5afbc5c 100644
--- a/k2/csrc/fsa_utils.cu
+++ b/k2/csrc/fsa_utils.cu
@@ -40,6 +40,27 @@ namespace k2 {
 
 
 
+/* Read a score or cost.  Unlike operator>> of std::istream, it accepts the
+   infinities that operator<< writes ("inf", "-inf") and those OpenFst writes
+   ("Infinity").  Sets failbit if there is no valid number.
+*/
+static void ReadScore(std::istream &is, float *score) {
+  std::string token;
+  is >> token;
+  if (is.fail()) return;
+  const float inf = std::numeric_limits<float>::infinity();
+  std::string magnitude = token;
+  bool negative = (token[0] == '-');
+  if (token[0] == '-' || token[0] == '+') magnitude.erase(0, 1);
+  if (magnitude == "inf" || magnitude == "Inf" || magnitude == "Infinity") {
+    *score = negative ? -inf : inf;
+    return;
+  }
+  std::istringstream token_is(token);
+  token_is >> *score;
+  if (token_is.fail() || !token_is.eof()) is.setstate(std::ios::failbit);
+}
+
 /* Create an Fsa from a stream, assuming the Fsa is in k2 format:
 
    src_state dest_state label [aux_label1 aux_label2 ... ] [ragged_labels1 ragged_label2 ] [score]    # noqa
@@ -141,7 +162,7 @@ static Fsa K2FsaFromStream(std::istringstream &is,
     float score = 0.0;
     line_is >> std::ws;
     if (!line_is.eof()) {  // Score is optional, defaults to 0.0.
-      line_is >> score;
+      ReadScore(line_is, &score);
       if (!line_is.eof()) line_is >> std::ws;
     }
     if (!line_is.eof() || line_is.fail()) {
@@ -292,7 +313,7 @@ class OpenFstStreamReader {
     if (!line_is.eof()) line_is >> std::ws;
     float cost = 0.0;
     if (!line_is.eof()) {
-      line_is >> cost;
+      ReadScore(line_is, &cost);
       if (!line_is.eof()) line_is >> std::ws;
     }
     if (!line_is.eof() || line_is.fail() || src_state < 0 || dest_state < 0) {
@@ -317,15 +338,8 @@ class OpenFstStreamReader {
     line_is >> final_state >> std::ws;
     if (line_is.eof()) {
       final_cost = 0.0;
-    } else if (line_is.peek() == 'I') {
-      std::string str;
-      line_is >> str;
-      if (str != "Inf" && str != "inf") {
-        return false;
-      }
-      final_cost = std::numeric_limits<float>::infinity();
     } else {
-      line_is >> final_cost;
+      ReadScore(line_is, &final_cost);
       if (!line_is.eof()) line_is >> std::ws;
       if (!line_is.eof() || line_is.fail()) {
         return false;
-- 
2.43.0


From 8d5ba79ec8b9285a580c8a0c9f5eb66f54a91040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 52/96] fix: read OpenFst text that has no final state

The reader documents that it always creates the super final state, but
created it only when some state is final; otherwise the highest-numbered
ordinary state became the final state and the text was refused.
---
 k2/csrc/fsa_utils.cu | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/csrc/fsa_utils.cu b/k2/csrc/fsa_utils.cu
index 5afbc5c..88c94f7 100644
--- a/k2/csrc/fsa_utils.cu
+++ b/k2/csrc/fsa_utils.cu
@@ -464,6 +464,8 @@ class OpenFstStreamReader {
     int32_t super_final_state = std::max<int32_t>(max_state_ + 1, 1);
     K2_CHECK_EQ(original_final_states_.size(),
                 original_final_weights_.size());
+    // The super final state exists even if no arc enters it.
+    SeenState(super_final_state);
     std::vector<int32_t> aux_labels(num_aux_labels_, -1);
     std::vector<std::vector<int32_t> > ragged_labels(num_ragged_labels_);
     for (std::size_t i = 0; i != original_final_states_.size(); ++i)
-- 
2.43.0


From ee94e273d6c500fdb9c6b3e07dbf5442dcf4e5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 53/96] fix: keep the start state in OpenFst text output

The first line determines the start state when the text is read back; if
no arc leaves state 0, that was another state, which changed the language.
---
 k2/csrc/fsa_utils.cu | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/k2/csrc/fsa_utils.cu b/k2/csrc/fsa_utils.cu
index 88c94f7..7292f11 100644
--- a/k2/csrc/fsa_utils.cu
+++ b/k2/csrc/fsa_utils.cu
@@ -634,6 +634,11 @@ std::string FsaToString(const Fsa &fsa, bool openfst, /*= false*/
   int32_t num_arcs = arcs.Dim();
   char sep = ' ';
   char line_sep = '\n';
+  if (openfst && num_arcs > 0 && arcs[0].src_state != 0) {
+    // In OpenFst format the first line determines the start state; no arc
+    // leaves state 0, so say that it is not final.
+    os << 0 << sep << "Infinity" << line_sep;
+  }
   for (int32_t a = 0; a != num_arcs; ++a) {
     const auto &arc = arcs[a];
     if (openfst && arc.label == -1) {
-- 
2.43.0


From 2599434a4dd773affe54253573bcecd05c120c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 54/96] fix: k2.to_str for strided and multi-dimensional
 attributes

Handle them like Fsa.to_str() does instead of failing.
---
 k2/python/k2/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/k2/python/k2/utils.py b/k2/python/k2/utils.py
index 6def312..9842845 100644
--- a/k2/python/k2/utils.py
+++ b/k2/python/k2/utils.py
@@ -50,8 +50,9 @@ def to_str(fsa: Fsa, openfst: bool = False) -> str:
     extra_labels = []
     ragged_labels = []
     for name, value in sorted(fsa.named_tensor_attr(include_scores=False)):
-        if isinstance(value, torch.Tensor) and value.dtype == torch.int32:
-            extra_labels.append(value)
+        if isinstance(value, torch.Tensor):
+            if value.dtype == torch.int32 and value.ndim == 1:
+                extra_labels.append(value.contiguous())
         elif isinstance(value, k2.RaggedTensor):
             ragged_labels.append(value)
 
-- 
2.43.0


From eed33f8de3b54517dd5f46ed155ad0ef01b93bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 55/96] fix: compare symbol tables with different symbols

Two tables of the same size with different symbols raised KeyError.
---
 k2/python/k2/symbol_table.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/k2/python/k2/symbol_table.py b/k2/python/k2/symbol_table.py
index 7a86010..38651e5 100644
--- a/k2/python/k2/symbol_table.py
+++ b/k2/python/k2/symbol_table.py
@@ -260,14 +260,7 @@ class SymbolTable(Generic[Symbol]):
         return len(self._id2sym)
 
     def __eq__(self, other: 'SymbolTable') -> bool:
-        if len(self) != len(other):
-            return False
-
-        for s in self.symbols:
-            if self[s] != other[s]:
-                return False
-
-        return True
+        return self._id2sym == other._id2sym
 
     @property
     def ids(self) -> List[int]:
-- 
2.43.0


From 05ca8674d6b3e829ef6d96328cc5def8717598c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 56/96] fix: write symbol tables as utf-8

from_file() reads utf-8, so to_file() must not depend on the locale.
---
 k2/python/k2/symbol_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/k2/symbol_table.py b/k2/python/k2/symbol_table.py
index 38651e5..c5aaf6a 100644
--- a/k2/python/k2/symbol_table.py
+++ b/k2/python/k2/symbol_table.py
@@ -158,7 +158,7 @@ class SymbolTable(Generic[Symbol]):
           filename:
             Name of the symbol table file. Its format is documented above.
         '''
-        with open(filename, 'w') as f:
+        with open(filename, 'w', encoding='utf-8') as f:
             for idx, symbol in sorted(self._id2sym.items()):
                 print(symbol, idx, file=f)
 
-- 
2.43.0


From 92f808923c2627138830988bb33fc96bcf3d4d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 57/96] fix: refuse a symbol table that gives epsilon a nonzero
 id

Adding epsilon with id 0 made the table map two ids to one symbol.
---
 k2/python/k2/symbol_table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/k2/python/k2/symbol_table.py b/k2/python/k2/symbol_table.py
index c5aaf6a..36f33e5 100644
--- a/k2/python/k2/symbol_table.py
+++ b/k2/python/k2/symbol_table.py
@@ -64,6 +64,9 @@ class SymbolTable(Generic[Symbol]):
             assert self._id2sym[idx] == sym
 
         if 0 not in self._id2sym:
+            assert self.eps not in self._sym2id, \
+                    f'{self.eps} must have id 0. ' \
+                    f'Given: {self._sym2id[self.eps]}'
             self._id2sym[0] = self.eps
             self._sym2id[self.eps] = 0
         else:
-- 
2.43.0


From aecb988d3c7c0fdb9e05c1ec3db79c5a8a13de6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 58/96] fix: split symbol table lines only at spaces and tabs

Symbols with other Unicode whitespace did not survive a text round trip.
---
 k2/python/k2/symbol_table.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/k2/python/k2/symbol_table.py b/k2/python/k2/symbol_table.py
index 36f33e5..bf5a98f 100644
--- a/k2/python/k2/symbol_table.py
+++ b/k2/python/k2/symbol_table.py
@@ -14,6 +14,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import re
 from dataclasses import dataclass
 from dataclasses import field
 from typing import Dict
@@ -93,9 +94,13 @@ class SymbolTable(Generic[Symbol]):
         sym2id: Dict[str, int] = dict()
 
         for line in s.split('\n'):
-            fields = line.split()
-            if len(fields) == 0:
+            # Note: str.split() without arguments would also split at the
+            # other whitespace characters of Unicode, which may be part of
+            # a symbol.
+            line = line.strip(' \t\r')
+            if not line:
                 continue  # skip empty lines
+            fields = re.split('[ \t]+', line)
             assert len(fields) == 2, \
                     f'Expect a line with 2 fields. Given: {len(fields)}'
             sym, idx = fields[0], int(fields[1])
@@ -131,7 +136,7 @@ class SymbolTable(Generic[Symbol]):
 
         '''
         with open(filename, 'r', encoding='utf-8') as f:
-            return SymbolTable.from_str(f.read().strip())
+            return SymbolTable.from_str(f.read())
 
     def to_str(self) -> str:
         '''
-- 
2.43.0


From a215f10b6f66547188bcfaafae396e8699871b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 59/96] fix: the score is optional in k2 text format

A line that ended right after the label, without trailing whitespace, was
refused because reading more whitespace at the end sets failbit.
---
 k2/csrc/fsa_utils.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/csrc/fsa_utils.cu b/k2/csrc/fsa_utils.cu
index 7292f11..5282ef6 100644
--- a/k2/csrc/fsa_utils.cu
+++ b/k2/csrc/fsa_utils.cu
@@ -160,7 +160,7 @@ static Fsa K2FsaFromStream(std::istringstream &is,
       ragged_row_splits[i].push_back(ragged_labels[i].size());
     }
     float score = 0.0;
-    line_is >> std::ws;
+    if (!line_is.eof()) line_is >> std::ws;
     if (!line_is.eof()) {  // Score is optional, defaults to 0.0.
       ReadScore(line_is, &score);
       if (!line_is.eof()) line_is >> std::ws;
-- 
2.43.0


From 9f4814bf768b6403fc265c16343a3edd9e748f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 60/96] fix: to_str_simple for strided aux_labels

---
 k2/python/k2/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/k2/utils.py b/k2/python/k2/utils.py
index 9842845..847d997 100644
--- a/k2/python/k2/utils.py
+++ b/k2/python/k2/utils.py
@@ -80,7 +80,7 @@ def to_str_simple(fsa: Fsa, openfst: bool = False) -> str:
     '''
     assert fsa.arcs.num_axes() == 2
     if hasattr(fsa, 'aux_labels') and isinstance(fsa.aux_labels, torch.Tensor):
-        aux_labels = [fsa.aux_labels.to(torch.int32)]
+        aux_labels = [fsa.aux_labels.to(torch.int32).contiguous()]
     else:
         aux_labels = []
     return _k2.fsa_to_str(fsa.arcs, openfst, aux_labels, [])
-- 
2.43.0


From bcee1ce661184be192c7ea88e41fbdd351b2b569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 61/96] fix: FSA from a tensor with arcs leaving a state beyond
 the final state

FsaFromArray1() trusted that no arc leaves a state after the final
state; it wrote outside of its row-splits otherwise.
---
 k2/csrc/fsa.cu | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/k2/csrc/fsa.cu b/k2/csrc/fsa.cu
index f55b908..3a4c5eb 100644
--- a/k2/csrc/fsa.cu
+++ b/k2/csrc/fsa.cu
@@ -318,6 +318,13 @@ Fsa FsaFromArray1(Array1<Arc> &arcs, bool *error, int32_t final_state) {
     *error = true;
     return Fsa();
   }
+  if (num_arcs > 0 && row_ids1.Back() > final_state) {
+    K2_LOG(WARNING) << "Could not convert tensor to FSA, there are arcs "
+                       "leaving state " << row_ids1.Back()
+                    << " but the final state is " << final_state;
+    *error = true;
+    return Fsa();
+  }
   Array1<int32_t> row_splits1(c, final_state + 2);
   RowIdsToRowSplits(c, num_arcs, row_ids1_data, false, final_state + 1,
                     row_splits1.Data());
-- 
2.43.0


From cb9a3cb08e202f5b8c19a5ad4f8dc837d5163058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 62/96] fix: text readers accepted numbers glued to other
 tokens

'0 1 5.5' was read as label 5 with score 0.5, '0 1 5-3 0.5' as label 5
with aux label -3, and a line '-' of an OpenFst text as a final state.
---
 k2/csrc/fsa_utils.cu | 45 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/k2/csrc/fsa_utils.cu b/k2/csrc/fsa_utils.cu
index 5282ef6..b6f54d2 100644
--- a/k2/csrc/fsa_utils.cu
+++ b/k2/csrc/fsa_utils.cu
@@ -23,6 +23,7 @@
 #endif
 
 #include <algorithm>
+#include <cctype>
 #include <cmath>
 #include <limits>
 #include <sstream>
@@ -61,6 +62,20 @@ static void ReadScore(std::istream &is, float *score) {
   if (token_is.fail() || !token_is.eof()) is.setstate(std::ios::failbit);
 }
 
+/* Read an integer (or, with T == double, a number).  Unlike operator>> of
+   std::istream, it sets failbit if the number is directly followed by something
+   else, e.g., it refuses "5.5" as an integer instead of reading it as "5"
+   followed by ".5".
+*/
+template <typename T>
+static void ReadNumber(std::istream &is, T *value) {
+  is >> *value;
+  if (!is.good()) return;  // failed, or nothing follows
+  int32_t c = is.peek();
+  if (!std::isspace(c) && c != '[' && c != ']')
+    is.setstate(std::ios::failbit);
+}
+
 /* Create an Fsa from a stream, assuming the Fsa is in k2 format:
 
    src_state dest_state label [aux_label1 aux_label2 ... ] [ragged_labels1 ragged_label2 ] [score]    # noqa
@@ -117,7 +132,7 @@ static Fsa K2FsaFromStream(std::istringstream &is,
           "been read, expected no more input.";
     }
     int32_t src_state;
-    line_is >> src_state;
+    ReadNumber(line_is, &src_state);
     if (!line_is.eof()) line_is >> std::ws;
     if (line_is.eof()) {
       if (line_is.fail() || src_state < 0) {
@@ -129,15 +144,17 @@ static Fsa K2FsaFromStream(std::istringstream &is,
       continue;
     }
     int32_t dest_state, label;
-    line_is >> dest_state >> label;
-    if (src_state < 0 || dest_state < 0) {
+    ReadNumber(line_is, &dest_state);
+    ReadNumber(line_is, &label);
+    if (line_is.fail() || src_state < 0 || dest_state < 0) {
       K2_LOG(FATAL) << "Invalid line " << line
-                    << ": src-state < 0 or dest-state < 0.";
+                    << ": expected integers src-state >= 0, dest-state >= 0 "
+                       "and label.";
     }
     for (int32_t i = 0; i < num_aux_labels; i++) {
       double aux;
-      line_is >> aux;
-      if ((int32_t)aux != aux) {
+      ReadNumber(line_is, &aux);
+      if (line_is.fail() || (int32_t)aux != aux) {
         K2_LOG(FATAL) << "Invalid line " << line
                       << ": Expected an integer for aux_labels";
       }
@@ -153,7 +170,8 @@ static Fsa K2FsaFromStream(std::istringstream &is,
       line_is >> c >> std::ws;  // eat the '['
       while (line_is.peek() != ']' && line_is.good()) {
         int32_t ragged_label;
-        line_is >> ragged_label >> std::ws;
+        ReadNumber(line_is, &ragged_label);
+        line_is >> std::ws;
         ragged_labels[i].push_back(ragged_label);
       }
       line_is >> c;  // eat the ']'
@@ -286,7 +304,9 @@ class OpenFstStreamReader {
   void ProcessLine(std::string &line) {
     std::istringstream line_is(line);
     int32_t src_state, dest_state, label;
-    line_is >> src_state >> dest_state >> label;
+    ReadNumber(line_is, &src_state);
+    ReadNumber(line_is, &dest_state);
+    ReadNumber(line_is, &label);
     if (line_is.fail()) {
       // Our only hope of parsing othis is that `line` was empty, or a
       // final-state; try that.
@@ -297,7 +317,7 @@ class OpenFstStreamReader {
     }
     std::vector<int32_t> aux_labels(num_aux_labels_);
     for (int32_t i = 0; i < num_aux_labels_; i++)
-      line_is >> aux_labels[i];
+      ReadNumber(line_is, &aux_labels[i]);
     std::vector<std::vector<int32_t> > ragged_labels(num_ragged_labels_);
     for (int32_t i = 0; i < num_ragged_labels_; i++) {
       line_is >> std::ws;
@@ -305,7 +325,8 @@ class OpenFstStreamReader {
       line_is >> std::ws;
       while (line_is.peek() != ']' && line_is.good()) {
         int32_t label;
-        line_is >> label >> std::ws;
+        ReadNumber(line_is, &label);
+        line_is >> std::ws;
         ragged_labels[i].push_back(label);
       }
       ExpectChar(line_is, ']');  // sets failbit if not..
@@ -335,7 +356,9 @@ class OpenFstStreamReader {
       return true;  // empty line.
     int32_t final_state;
     float final_cost;
-    line_is >> final_state >> std::ws;
+    ReadNumber(line_is, &final_state);
+    if (line_is.fail()) return false;
+    if (!line_is.eof()) line_is >> std::ws;
     if (line_is.eof()) {
       final_cost = 0.0;
     } else {
-- 
2.43.0


From 77138fa65f97e6503834be2baf31f45472630027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 63/96] fix: create_fsa_vec([]) read an element of an empty
 list

---
 k2/python/csrc/torch/fsa.cu | 1 +
 1 file changed, 1 insertion(+)

diff --git a/k2/python/csrc/torch/fsa.cu b/k2/python/csrc/torch/fsa.cu
index 1c8bf07..de9854f 100644
--- a/k2/python/csrc/torch/fsa.cu
+++ b/k2/python/csrc/torch/fsa.cu
@@ -182,6 +182,7 @@ static void PybindFsaUtil(py::module &m) {
   m.def(
       "create_fsa_vec",
       [](std::vector<Fsa *> &fsas) -> FsaVec {
+        K2_CHECK(!fsas.empty()) << "Expected at least one FSA";
         DeviceGuard guard(fsas[0]->Context());
         return CreateFsaVec(fsas.size(), fsas.data());
       },
-- 
2.43.0


From c053caea457381a9c1f9532b3da70047ac884f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:12 +0000
Subject: [PATCH 64/96] fix: out-of-range indexes were read outside of the
 indexed array

index_select(), index_add(), index_fsa(), RaggedTensor.index() and
simple_ragged_index_select() trusted the values of their index tensors.
Check them on CPU.
---
 k2/csrc/torch_util.cu                            | 11 +++++++++++
 k2/csrc/torch_util.h                             |  5 +++++
 k2/python/csrc/torch/index_add.cu                |  1 +
 k2/python/csrc/torch/index_select.cu             |  3 +++
 k2/python/csrc/torch/ragged.cu                   |  4 ++++
 k2/python/csrc/torch/ragged_ops.cu               |  2 ++
 k2/python/csrc/torch/v2/autograd/index_and_sum.h |  2 ++
 k2/python/csrc/torch/v2/ragged_any.cu            |  4 ++++
 8 files changed, 32 insertions(+)

diff --git a/k2/csrc/torch_util.cu b/k2/csrc/torch_util.cu
index 71d3ce4..36a2af9 100644
--- a/k2/csrc/torch_util.cu
+++ b/k2/csrc/torch_util.cu
@@ -154,6 +154,17 @@ torch::Tensor ToTorch(Tensor &tensor) {
       [saved_region = tensor.GetRegion()](void *) {}, options);
 }
 
+void CheckIndexes(const Array1<int32_t> &indexes, int32_t begin, int32_t end) {
+  if (indexes.Context()->GetDeviceType() != kCpu) return;
+  const int32_t *data = indexes.Data();
+  for (int32_t i = 0; i != indexes.Dim(); ++i) {
+    if (data[i] < begin || data[i] >= end) {
+      K2_LOG(FATAL) << "Index out of range: indexes[" << i << "] is " << data[i]
+                    << ", expected " << begin << " <= index < " << end;
+    }
+  }
+}
+
 ContextPtr GetContext(torch::Device device) {
   if (device.type() == torch::kCPU) return GetCpuContext();
 
diff --git a/k2/csrc/torch_util.h b/k2/csrc/torch_util.h
index 36d7cd4..a33962c 100644
--- a/k2/csrc/torch_util.h
+++ b/k2/csrc/torch_util.h
@@ -206,6 +206,11 @@ torch::Tensor ToTorch(Array2<T> &array) {
   return tensor;
 }
 
+/* Check that begin <= indexes[i] < end for every i; it throws otherwise.
+   It is done only on CPU as it would require a device-to-host transfer.
+ */
+void CheckIndexes(const Array1<int32_t> &indexes, int32_t begin, int32_t end);
+
 struct TensorTag {};
 
 Tensor FromTorch(torch::Tensor tensor, TensorTag);
diff --git a/k2/python/csrc/torch/index_add.cu b/k2/python/csrc/torch/index_add.cu
index a10a5b8..a461666 100644
--- a/k2/python/csrc/torch/index_add.cu
+++ b/k2/python/csrc/torch/index_add.cu
@@ -43,6 +43,7 @@ static void PybindIndexAdd(torch::Tensor index, torch::Tensor value,
   Array1<int32_t> indexes = FromTorch<int32_t>(index);
   Tensor src = FromTorch(value, TensorTag{});
   Tensor dest = FromTorch(*in_out, TensorTag{});
+  CheckIndexes(indexes, -1, dest.Dim(0));
   IndexAdd(src, indexes, true, &dest);
 }
 
diff --git a/k2/python/csrc/torch/index_select.cu b/k2/python/csrc/torch/index_select.cu
index afd6de3..1e4bb02 100644
--- a/k2/python/csrc/torch/index_select.cu
+++ b/k2/python/csrc/torch/index_select.cu
@@ -77,6 +77,7 @@ static torch::Tensor IndexSelect1D(torch::Tensor src, torch::Tensor index,
   // ans with `ans.Data()` be a nullptr, which will cause crash when calling
   // `torch::from_blob`. Just return an empty tensor here.
   if (index_array.Dim() == 0) return torch::empty({0}, src.options());
+  CheckIndexes(index_array, -1, src.numel());
   // If src is an empty tensor, the index can only contain -1.
   if (src.numel() == 0)
     return torch::full({index_array.Dim()}, default_value, src.options());
@@ -126,6 +127,7 @@ static torch::Tensor IndexSelect2D(torch::Tensor src, torch::Tensor index) {
   // `torch::from_blob`. Just return an empty tensor here.
   if (index_array.Dim() == 0)
     return torch::empty({0, src.sizes()[1]}, src.options());
+  CheckIndexes(index_array, -1, src.sizes()[0]);
   // If src is an empty tensor, the index can only contain -1.
   if (src.sizes()[0] == 0)
     return torch::zeros({index_array.Dim(), src.sizes()[1]}, src.options());
@@ -214,6 +216,7 @@ static torch::Tensor SimpleRaggedIndexSelect1D(torch::Tensor src,
   ContextPtr context = GetContext(src);
   K2_CHECK(context->IsCompatible(*indexes.Context()));
 
+  CheckIndexes(indexes.values, 0, src.numel());
   Tensor tensor = FromTorch(src, TensorTag{});
   Tensor ans = SimpleRaggedIndexSelect1D(tensor, indexes);
   return ToTorch(ans);
diff --git a/k2/python/csrc/torch/ragged.cu b/k2/python/csrc/torch/ragged.cu
index 31ea395..47770a9 100644
--- a/k2/python/csrc/torch/ragged.cu
+++ b/k2/python/csrc/torch/ragged.cu
@@ -218,6 +218,8 @@ static void PybindRaggedTpl(py::module &m, const char *name) {
              true) -> std::pair<PyClass, torch::optional<torch::Tensor>> {
         DeviceGuard guard(src.Context());
         Array1<int32_t> indexes_array = FromTorch<int32_t>(indexes);
+        // -1 refers to an empty list
+        CheckIndexes(indexes_array, axis == 0 ? -1 : 0, src.TotSize(axis));
         Array1<int32_t> value_indexes;
 
         Ragged<T> ans = Index(src, axis, indexes_array,
@@ -236,6 +238,7 @@ static void PybindRaggedTpl(py::module &m, const char *name) {
       [](Ragged<T> &src, Ragged<int32_t> &indexes) -> Ragged<T> {
         DeviceGuard guard(src.Context());
         bool remove_axis = true;
+        CheckIndexes(indexes.values, -1, src.Dim0());
         return Index(src, indexes, remove_axis);
       },
       py::arg("src"), py::arg("indexes"));
@@ -250,6 +253,7 @@ static void PybindRaggedImpl(py::module &m) {
         DeviceGuard guard(GetContext(src));
         K2_CHECK_EQ(src.dim(), 1) << "Expected dim: 1. Given: " << src.dim();
         Array1<int32_t> src_array = FromTorch<int32_t>(src);
+        CheckIndexes(indexes.values, 0, src_array.Dim());
         return Index(src_array, indexes);
       },
       py::arg("src"), py::arg("indexes"));
diff --git a/k2/python/csrc/torch/ragged_ops.cu b/k2/python/csrc/torch/ragged_ops.cu
index 171fcc2..5840051 100644
--- a/k2/python/csrc/torch/ragged_ops.cu
+++ b/k2/python/csrc/torch/ragged_ops.cu
@@ -309,6 +309,8 @@ static void PybindIndex(py::module &m) {
              true) -> std::pair<RaggedShape, torch::optional<torch::Tensor>> {
         DeviceGuard guard(src.Context());
         Array1<int32_t> indexes_array = FromTorch<int32_t>(indexes);
+        // -1 refers to an empty list
+        CheckIndexes(indexes_array, axis == 0 ? -1 : 0, src.TotSize(axis));
         Array1<int32_t> value_indexes;
         RaggedShape ans = Index(src, axis, indexes_array,
                                 need_value_indexes ? &value_indexes : nullptr);
diff --git a/k2/python/csrc/torch/v2/autograd/index_and_sum.h b/k2/python/csrc/torch/v2/autograd/index_and_sum.h
index fe97afd..0abe498 100644
--- a/k2/python/csrc/torch/v2/autograd/index_and_sum.h
+++ b/k2/python/csrc/torch/v2/autograd/index_and_sum.h
@@ -66,6 +66,8 @@ class IndexAndSumFunction
     Dtype dtype = ScalarTypeToDtype(src.scalar_type());
     FOR_REAL_AND_INT32_TYPES(dtype, T, {
       Array1<T> src_array = FromTorch<T>(src);
+      CheckIndexes(ragged.any.Specialize<int32_t>().values, -1,
+                   src_array.Dim());
       Ragged<T> s = k2::Index<T>(src_array, ragged.any.Specialize<int32_t>(),
                                  /*default_value*/ 0);
 
diff --git a/k2/python/csrc/torch/v2/ragged_any.cu b/k2/python/csrc/torch/v2/ragged_any.cu
index 335050c..b65f076 100644
--- a/k2/python/csrc/torch/v2/ragged_any.cu
+++ b/k2/python/csrc/torch/v2/ragged_any.cu
@@ -721,6 +721,7 @@ RaggedAny RaggedAny::Index(RaggedAny &indexes) /*const*/ {
   DeviceGuard guard(any.Context());
 
   bool remove_axis = false;
+  CheckIndexes(indexes.any.Specialize<int32_t>().values, -1, any.Dim0());
   Dtype t = any.GetDtype();
   FOR_REAL_AND_INT32_TYPES(t, T, {
     return RaggedAny(k2::Index<T>(any.Specialize<T>(),
@@ -739,6 +740,8 @@ std::pair<RaggedAny, torch::optional<torch::Tensor>> RaggedAny::Index(
   DeviceGuard guard(any.Context());
 
   Array1<int32_t> indexes_array = FromTorch<int32_t>(indexes);
+  // -1 refers to an empty list
+  CheckIndexes(indexes_array, axis == 0 ? -1 : 0, any.TotSize(axis));
 
   Array1<int32_t> value_indexes;
   torch::optional<torch::Tensor> value_indexes_tensor;
@@ -771,6 +774,7 @@ RaggedAny RaggedAny::Index(torch::Tensor src,
     T value_for_minus_one =
         default_value.is_none() ? T() : default_value.cast<T>();
     Array1<T> src_array = FromTorch<T>(src);
+    CheckIndexes(any.Specialize<int32_t>().values, -1, src_array.Dim());
     return RaggedAny(
         k2::Index(src_array, any.Specialize<int32_t>(), value_for_minus_one)
             .Generic());
-- 
2.43.0


From 96e68bd4bb472afa61aa1c22761bb89a9cfdf4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 65/96] fix: intersect_device() accepted negative entries in
 b_to_a_map

---
 k2/python/csrc/torch/fsa_algo.cu | 1 +
 1 file changed, 1 insertion(+)

diff --git a/k2/python/csrc/torch/fsa_algo.cu b/k2/python/csrc/torch/fsa_algo.cu
index 7509218..b695722 100644
--- a/k2/python/csrc/torch/fsa_algo.cu
+++ b/k2/python/csrc/torch/fsa_algo.cu
@@ -179,6 +179,7 @@ static void PybindIntersectDevice(py::module &m) {
         Array1<int32_t> a_arc_map;
         Array1<int32_t> b_arc_map;
         Array1<int32_t> b_to_a_map_array = FromTorch<int32_t>(b_to_a_map);
+        CheckIndexes(b_to_a_map_array, 0, a_fsas.Dim0());
 
         FsaVec ans = IntersectDevice(
             a_fsas, properties_a, b_fsas, properties_b, b_to_a_map_array,
-- 
2.43.0


From 005645d0a97bfdbf1489892573387e1e95bdf806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 66/96] fix: create_ragged_shape2() accepted inconsistent
 row_splits and row_ids

---
 k2/csrc/ragged.cu                       |  8 ++++++--
 k2/python/csrc/torch/v2/ragged_shape.cu | 13 ++++++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/k2/csrc/ragged.cu b/k2/csrc/ragged.cu
index f76220d..b056ad6 100644
--- a/k2/csrc/ragged.cu
+++ b/k2/csrc/ragged.cu
@@ -380,8 +380,12 @@ void RaggedShape::Check() const {
           K2_EVAL(
               c, num_elems, lambda_check_row_ids, (int32_t i)->void {
                 int32_t this_row = row_ids_data[i];
-                if (this_row < 0 || this_row >= num_rows ||
-                    i < row_splits_data[this_row] ||
+                if (this_row < 0 || this_row >= num_rows) {
+                  K2_LOG(FATAL) << "Failed checking row_ids: row_ids[" << i
+                                << "]=" << this_row << ", num_rows=" << num_rows
+                                << ", layer=" << layer;
+                }
+                if (i < row_splits_data[this_row] ||
                     i >= row_splits_data[this_row + 1]) {
                   K2_LOG(FATAL) << "Failed checking row_ids: row_ids[" << i
                                 << "]=" << this_row
diff --git a/k2/python/csrc/torch/v2/ragged_shape.cu b/k2/python/csrc/torch/v2/ragged_shape.cu
index a5cfc06..cbc45e6 100644
--- a/k2/python/csrc/torch/v2/ragged_shape.cu
+++ b/k2/python/csrc/torch/v2/ragged_shape.cu
@@ -253,9 +253,20 @@ void PybindRaggedShape(py::module &m) {
         Array1<int32_t> array_row_ids;
         if (row_ids.has_value())
           array_row_ids = FromTorch<int32_t>(row_ids.value());
-        return RaggedShape2(
+
+        if (row_splits.has_value())
+          K2_CHECK(ValidateRowSplits(array_row_splits))
+              << "Invalid row_splits: " << array_row_splits;
+        if (row_ids.has_value())
+          K2_CHECK(ValidateRowIds(array_row_ids))
+              << "Invalid row_ids: " << array_row_ids;
+
+        RaggedShape ans = RaggedShape2(
             row_splits.has_value() ? &array_row_splits : nullptr,
             row_ids.has_value() ? &array_row_ids : nullptr, cached_tot_size);
+        // check that row_splits, row_ids and cached_tot_size agree
+        ans.Check();
+        return ans;
       },
       py::arg("row_splits") = py::none(), py::arg("row_ids") = py::none(),
       py::arg("cached_tot_size") = -1, kCreateRaggedShape2Doc);
-- 
2.43.0


From c0cf8a279742fae5c632c97121e3249a87b02395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 67/96] fix: a refused assignment to Fsa.scores changed the FSA

---
 k2/python/k2/fsa.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/k2/python/k2/fsa.py b/k2/python/k2/fsa.py
index a8876ba..cb7ab5c 100644
--- a/k2/python/k2/fsa.py
+++ b/k2/python/k2/fsa.py
@@ -413,10 +413,14 @@ class Fsa(object):
                 self.properties
                 return
 
+            if name == 'scores':
+                # Check it before `self` is changed
+                assert value.dtype == torch.float32
+                assert value.ndim == 1
+
             self._tensor_attr[name] = value
 
             if name == 'scores':
-                assert value.dtype == torch.float32
                 # NOTE: we **reinterpret** the float patterns
                 # to integer patterns here.
                 self.arcs.values()[:, -1] = _k2.as_int(value.detach())
-- 
2.43.0


From 97918a45d5eb4592fd828bc3b42c9cd9dbfd6895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:28 +0000
Subject: [PATCH 68/96] fix: FsaVecFromTensor wrote out of bounds for arcs with
 invalid source states

---
 k2/csrc/fsa.cu | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/k2/csrc/fsa.cu b/k2/csrc/fsa.cu
index 3a4c5eb..32a2d39 100644
--- a/k2/csrc/fsa.cu
+++ b/k2/csrc/fsa.cu
@@ -404,9 +404,12 @@ FsaVec FsaVecFromTensor(Tensor &t, bool *error) {
   }
   int32_t num_ints = t.Dim(0);
   Array1<int32_t> int_array(num_ints, t.GetRegion(), t.ByteOffset());
-  num_fsas = int_array[0];
+  num_fsas = num_ints > 0 ? int_array[0] : -1;
 
-  int32_t arcs_start = 2 + (num_fsas + 1) * 2;
+  // num_fsas is compared with num_ints first so `arcs_start` can't overflow.
+  int32_t arcs_start = (num_fsas >= 0 && num_fsas < num_ints / 2)
+                           ? 2 + (num_fsas + 1) * 2
+                           : num_ints + 1;
   if (num_fsas < 0 || num_ints < arcs_start ||
       (num_ints - arcs_start) % 4 != 0) {
     K2_LOG(WARNING) << "Could not convert tensor to FSA, num_ints = "
@@ -452,19 +455,34 @@ FsaVec FsaVecFromTensor(Tensor &t, bool *error) {
                 *row_splits1_data = row_splits1.Data();
   int32_t *row_ids12_data = row_ids12.Data();
   Arc *arcs_data = arcs.Data();
+  Array1<int32_t> bad_src_state(c, 1, 0);
+  int32_t *bad_src_state_data = bad_src_state.Data();
 
   K2_EVAL(
       c, num_arcs, lambda_make_row_ids2, (int32_t arc_idx012)->void {
         int32_t fsa_idx0 = row_ids12_data[arc_idx012],
-                state_idx0x = row_splits1_data[fsa_idx0];
+                state_idx0x = row_splits1_data[fsa_idx0],
+                num_states_this_fsa =
+                    row_splits1_data[fsa_idx0 + 1] - state_idx0x;
         int32_t state_idx1 = arcs_data[arc_idx012].src_state,
                 state_idx01 = state_idx0x + state_idx1;
+        if (state_idx1 < 0 || state_idx1 >= num_states_this_fsa) {
+          bad_src_state_data[0] = 1;
+          state_idx01 = 0;
+        }
         row_ids12_data[arc_idx012] =
             state_idx01;  // we're turning this into the row_ids2.
       });
 
   Array1<int32_t> &row_ids2 =
       row_ids12;  // we overwrote the data in the lambda above.
+  // RowIdsToRowSplits() below requires valid row-ids.
+  if (bad_src_state[0] != 0 || !ValidateRowIds(row_ids2)) {
+    K2_LOG(WARNING) << "Could not convert tensor to FSA, source states of "
+                       "arcs were out of range or out of order";
+    *error = true;
+    return Fsa();
+  }
   RowIdsToRowSplits(row_ids2, &row_splits2);
 
   if (!ValidateRowSplitsAndIds(row_splits2, row_ids2,
-- 
2.43.0


From 0b20c84de7594ca099c3c41bb393117b823b6457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:59 +0000
Subject: [PATCH 69/96] fix: the ragged text reader split glued numbers such as
 5-3 into two elements

---
 k2/csrc/ragged_ops_inl.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/k2/csrc/ragged_ops_inl.h b/k2/csrc/ragged_ops_inl.h
index 685954d..1e94174 100644
--- a/k2/csrc/ragged_ops_inl.h
+++ b/k2/csrc/ragged_ops_inl.h
@@ -27,6 +27,7 @@
 #endif
 
 #include <algorithm>
+#include <cctype>
 #include <limits>
 #include <memory>
 #include <numeric>
@@ -505,6 +506,13 @@ std::istream &operator>>(std::istream &is, Ragged<T> &r) {
         is.setstate(std::ios::failbit);
         return is;
       }
+      // An element must be followed by a delimiter, so that e.g. "5-3" is not
+      // read as two elements.
+      int next = is.peek();
+      if (!isspace(next) && next != ']' && next != ',' && next != '[') {
+        is.setstate(std::ios::failbit);
+        return is;
+      }
       elems.push_back(t);
     }
     is >> std::ws;
-- 
2.43.0


From 625dbcb9589848256358c89dab1bbab6b2132b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:13 +0000
Subject: [PATCH 70/96] fix: g_stream_override was a different variable in
 every translation unit

---
 k2/csrc/context.cu | 2 ++
 k2/csrc/context.h  | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/k2/csrc/context.cu b/k2/csrc/context.cu
index 978b92d..0df773c 100644
--- a/k2/csrc/context.cu
+++ b/k2/csrc/context.cu
@@ -22,6 +22,8 @@
 
 namespace k2 {
 
+thread_local CudaStreamOverride g_stream_override;
+
 void CudaStreamOverride::Push(cudaStream_t stream) {
   if (stream == static_cast<cudaStream_t>(0x0)) return;
   stack_.push_back(stream);
diff --git a/k2/csrc/context.h b/k2/csrc/context.h
index 75a3448..5b846d2 100644
--- a/k2/csrc/context.h
+++ b/k2/csrc/context.h
@@ -418,7 +418,8 @@ class CudaStreamOverride {
   std::vector<cudaStream_t> stack_;
 };
 
-static thread_local CudaStreamOverride g_stream_override;
+// Defined in context.cu: all translation units share the one of the thread.
+extern thread_local CudaStreamOverride g_stream_override;
 
 class With {
  public:
-- 
2.43.0


From d329ff2c57d5f6885c5ec124f20b22af209fd241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:13 +0000
Subject: [PATCH 71/96] fix: ComputeHash relied on overflow of signed integers

---
 k2/csrc/ragged_ops.cu | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/k2/csrc/ragged_ops.cu b/k2/csrc/ragged_ops.cu
index 79fffba..5229fbc 100644
--- a/k2/csrc/ragged_ops.cu
+++ b/k2/csrc/ragged_ops.cu
@@ -21,6 +21,7 @@
 #include <algorithm>
 #include <cmath>
 #include <memory>
+#include <type_traits>
 #include <vector>
 
 #include "k2/csrc/array_ops.h"
@@ -2581,15 +2582,17 @@ Array1<T> ComputeHash(Ragged<int32_t> &src) {
   if (c->GetDeviceType() == kCpu) {
     int32_t j = row_splits[0];
     for (int32_t i = 0; i < num_rows; ++i) {
-      T hash1 = 13, hash2 = 787;
+      // Overflow is expected, so this is done with an unsigned type.
+      using U = typename std::make_unsigned<T>::type;
+      U hash1 = 13, hash2 = 787;
       int32_t row_end = row_splits[i + 1];
       for (; j < row_end; ++j) {
-        T elem = values_data[j];
+        U elem = static_cast<U>(values_data[j]);
         hash1 = 31 * hash1 + elem;
         hash2 = 167 * hash2 + elem;
       }
-      T hash = hash1 + 104729 * hash2;
-      output_data[i] = hash;
+      U hash = hash1 + 104729 * hash2;
+      output_data[i] = static_cast<T>(hash);
     }
   } else {
     K2_CHECK_EQ(c->GetDeviceType(), kCuda);
-- 
2.43.0


From de278313272a0a4bdf3ade8bb3fafc1d3e61af78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:13 +0000
Subject: [PATCH 72/96] fix: ReplaceFsa read out of the bounds of the source
 arcs

---
 k2/csrc/fsa_algo.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/csrc/fsa_algo.cu b/k2/csrc/fsa_algo.cu
index 4c9d7d8..0274fb4 100644
--- a/k2/csrc/fsa_algo.cu
+++ b/k2/csrc/fsa_algo.cu
@@ -2087,7 +2087,6 @@ FsaOrVec ReplaceFsa(FsaVec &src, FsaOrVec &index, int32_t symbol_range_begin,
                   src_arc_idx01x = src_row_splits2_data[src_state_idx01],
                   src_arc_idx2 = idx4,
                   src_arc_idx012 = src_arc_idx01x + src_arc_idx2;
-          src_arc = src_arcs_data[src_arc_idx012];
           // handle the arcs belongs to index
           if (idx2 == 0) {
             // if the fsa to be replaced in is empty, this arc would point to
@@ -2112,6 +2111,7 @@ FsaOrVec ReplaceFsa(FsaVec &src, FsaOrVec &index, int32_t symbol_range_begin,
             oarc.score = index_arc.score;
             arc_index_map_idx = index_arc_idx012;
           } else {   // handle the arcs belongs to src
+            src_arc = src_arcs_data[src_arc_idx012];
             // the arc point to the final state of the fsa in src would point to
             // the dest state of the arc we're replaceing
             if (src_arc.label == -1) {
-- 
2.43.0


From 06d38d833ca81c78ad300a6cdb5c06d6168ad4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:13 +0000
Subject: [PATCH 73/96] fix: online decoding crashed with an empty graph or
 when no sequence had active states

---
 k2/csrc/intersect_dense_pruned.cu | 44 ++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/k2/csrc/intersect_dense_pruned.cu b/k2/csrc/intersect_dense_pruned.cu
index 3524642..0e1df88 100644
--- a/k2/csrc/intersect_dense_pruned.cu
+++ b/k2/csrc/intersect_dense_pruned.cu
@@ -1662,6 +1662,8 @@ class MultiGraphDenseIntersectPruned {
     }
   }
 
+  int32_t NumGraphStates() const { return a_fsas_.TotSize(1); }
+
   const Array1<float>& GetBeams() {
     return dynamic_beams_;
   }
@@ -1830,16 +1832,28 @@ void OnlineDenseIntersecter::Decode(DenseFsaVec &b_fsas,
     K2_CHECK(decode_state_ptr);
     // initialization; NumAxes == 1 means this is an uninitialized Ragged
     if (decode_state_ptr->states.NumAxes() == 1) {
-      StateInfo sinfo;
-      // start state of decoding graph
-      sinfo.a_fsas_state_idx01 = 0;
-      sinfo.forward_loglike = FloatToOrderedInt(0.0);
-      decode_state_ptr->states = Ragged<StateInfo>(
-          RegularRaggedShape(c_, 1, 1),
-          Array1<StateInfo>(c_, std::vector<StateInfo>{sinfo}));
-
-      decode_state_ptr->arcs = Ragged<ArcInfo>(RaggedShape(c_, "[ [ [ x ] ] ]"),
-          Array1<ArcInfo>(c_, std::vector<ArcInfo>{ArcInfo()}));
+      if (impl_->NumGraphStates() > 0) {
+        StateInfo sinfo;
+        // start state of decoding graph
+        sinfo.a_fsas_state_idx01 = 0;
+        sinfo.forward_loglike = FloatToOrderedInt(0.0);
+        decode_state_ptr->states = Ragged<StateInfo>(
+            RegularRaggedShape(c_, 1, 1),
+            Array1<StateInfo>(c_, std::vector<StateInfo>{sinfo}));
+
+        decode_state_ptr->arcs =
+            Ragged<ArcInfo>(RaggedShape(c_, "[ [ [ x ] ] ]"),
+                            Array1<ArcInfo>(c_, std::vector<ArcInfo>{
+                                                    ArcInfo()}));
+      } else {
+        // an empty decoding graph has no start state
+        RaggedShape no_states = RegularRaggedShape(c_, 1, 0);
+        decode_state_ptr->states =
+            Ragged<StateInfo>(no_states, Array1<StateInfo>(c_, 0));
+        decode_state_ptr->arcs = Ragged<ArcInfo>(
+            ComposeRaggedShapes(no_states, RegularRaggedShape(c_, 0, 0)),
+            Array1<ArcInfo>(c_, 0));
+      }
 
       decode_state_ptr->beam = search_beam_;
     }
@@ -1873,6 +1887,16 @@ void OnlineDenseIntersecter::Decode(DenseFsaVec &b_fsas,
     info.arcs = frame_arcs_vec[i];
     frames[i] = std::make_unique<FrameInfo>(info);
   }
+  if (frames.empty()) {
+    // none of the sequences has any active state
+    FrameInfo info;
+    RaggedShape no_states = RegularRaggedShape(c_, num_seqs, 0);
+    info.states = Ragged<StateInfo>(no_states, Array1<StateInfo>(c_, 0));
+    info.arcs = Ragged<ArcInfo>(
+        ComposeRaggedShapes(no_states, RegularRaggedShape(c_, 0, 0)),
+        Array1<ArcInfo>(c_, 0));
+    frames.push_back(std::make_unique<FrameInfo>(info));
+  }
 
   const auto new_frames = impl_->OnlineIntersect(
       &b_fsas, frames, beams);
-- 
2.43.0


From 9d3fa1e0abe197b787e551815dceb4cfcc7fe2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:13 +0000
Subject: [PATCH 74/96] fix: ThreadPool woke up only one of the threads in
 WaitAllTasksFinished

---
 k2/csrc/thread_pool.cu | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/k2/csrc/thread_pool.cu b/k2/csrc/thread_pool.cu
index cb04ea1..a11ddb0 100644
--- a/k2/csrc/thread_pool.cu
+++ b/k2/csrc/thread_pool.cu
@@ -77,8 +77,8 @@ void ThreadPool::ProcessTasks() {
     --running_counter_;
     if (tasks_.empty() && running_counter_ == 0) {
       finished_ = true;
-      // if WaitAllTasksFinished() is waiting, wake it up
-      empty_cond_.notify_one();
+      // if threads are in WaitAllTasksFinished(), wake all of them up
+      empty_cond_.notify_all();
     }
 
     // the lock is still held here as we assume
-- 
2.43.0


From b9ed03f51c76542be913e864eb43a093901b2125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:09 +0000
Subject: [PATCH 75/96] fix: RaggedShape Index returned value indexes that
 share memory with its argument

---
 k2/csrc/ragged_ops.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/csrc/ragged_ops.cu b/k2/csrc/ragged_ops.cu
index 5229fbc..7b852db 100644
--- a/k2/csrc/ragged_ops.cu
+++ b/k2/csrc/ragged_ops.cu
@@ -587,7 +587,7 @@ RaggedShape Index(RaggedShape &src, int32_t axis,
     RowIdsToRowSplits(last_row_ids, &last_row_splits);
 
     if (elem_indexes)
-      *elem_indexes = indexes;
+      *elem_indexes = indexes.Clone();
 
     std::vector<RaggedShapeLayer> axes = src.Layers();
     axes.back().row_splits = last_row_splits;
-- 
2.43.0


From bc7ec955508d5103ecb0c594c714386bb00720da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 76/96] fix: get_best_matching_stats crashed when there were no
 tokens

---
 k2/python/csrc/torch/nbest.cu | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/k2/python/csrc/torch/nbest.cu b/k2/python/csrc/torch/nbest.cu
index a597b8f..8106008 100644
--- a/k2/python/csrc/torch/nbest.cu
+++ b/k2/python/csrc/torch/nbest.cu
@@ -45,8 +45,14 @@ static void PybindGetBestMatchingStats(py::module &m) {
         Ragged<int32_t> tokens = ragged.any.Specialize<int32_t>();
         Array1<float> scores_array = FromTorch<float>(scores);
         Array1<int32_t> counts_array = FromTorch<int32_t>(counts);
-        Array1<float> mean, var;
-        Array1<int32_t> counts_out, ngram_order;
+        // Allocated here since GetBestMatchingStats() does not allocate arrays
+        // that already have the right size, i.e. default-constructed ones if
+        // there are no tokens.
+        ContextPtr c = tokens.Context();
+        int32_t num_elements = tokens.NumElements();
+        Array1<float> mean(c, num_elements), var(c, num_elements);
+        Array1<int32_t> counts_out(c, num_elements),
+            ngram_order(c, num_elements);
         GetBestMatchingStats(tokens, scores_array, counts_array, eos, min_token,
                              max_token, max_order, &mean, &var, &counts_out,
                              &ngram_order);
-- 
2.43.0


From 30480d5396bf4970eda3276156b56fcc82b7060c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 77/96] fix: Hash PackedAccessor took an empty bucket for a key
 whose kept bits are all ones

---
 k2/csrc/hash.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/k2/csrc/hash.h b/k2/csrc/hash.h
index 5be08b5..4b5f61e 100644
--- a/k2/csrc/hash.h
+++ b/k2/csrc/hash.h
@@ -786,7 +786,9 @@ class Hash {
       uint64_t new_elem = (value << num_kept_key_bits_) | kept_key;
       while (1) {
         uint64_t cur_elem = data_[cur_bucket];
-        if ((cur_elem & kept_key_mask) == kept_key) {
+        // ~cur_elem == 0 means an empty bucket; its bits would match a key whose
+        // kept bits are all set.
+        if (~cur_elem != 0 && (cur_elem & kept_key_mask) == kept_key) {
           if (old_value) *old_value = cur_elem >> num_kept_key_bits_;
           if (key_value_location) *key_value_location = data_ + cur_bucket;
           return false;  // key exists in hash
@@ -926,7 +928,7 @@ class Hash {
       const uint64_t kept_key_mask = (uint64_t(1) << num_kept_key_bits_) - 1;
       while (1) {
         uint64_t old_elem = data_[cur_bucket];
-        if ((old_elem & kept_key_mask) == kept_key) {
+        if (~old_elem != 0 && (old_elem & kept_key_mask) == kept_key) {
           data_[cur_bucket] = ~((uint64_t)0);
           return;
         } else {
-- 
2.43.0


From ccee566261d28274cbffbc5abed125984aee37b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 78/96] fix: GetNew2OldAndRowIds read beyond the row splits
 with fewer row chunks than arrays

---
 k2/csrc/algorithms.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/k2/csrc/algorithms.h b/k2/csrc/algorithms.h
index 0877e70..b96a2c8 100644
--- a/k2/csrc/algorithms.h
+++ b/k2/csrc/algorithms.h
@@ -285,9 +285,8 @@ __forceinline__ void GetNew2OldAndRowIds(
             num_rows = row_splits.Dim() - 1,
        num_rows_part = (num_rows + num_arrays - 1) / num_arrays;
   // the following fixes a kind of edge case that can happen when
-  // num_rows_part is less than num_arrays.
-  if ((num_arrays - 1) * num_rows_part >= num_rows)
-    num_arrays--;
+  // num_rows_part is less than num_arrays: each piece must have a row.
+  num_arrays = (num_rows + num_rows_part - 1) / num_rows_part;
 
   Array1<int32_t> elem_starts;
   Array1<int32_t> elem_starts_cpu;
-- 
2.43.0


From 4232f96b09117c71211e68e781e12a0b56f4f43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 79/96] fix: PruneRagged kept empty sub-lists when all of them
 were empty

---
 k2/csrc/ragged_ops_inl.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/k2/csrc/ragged_ops_inl.h b/k2/csrc/ragged_ops_inl.h
index 1e94174..0f07602 100644
--- a/k2/csrc/ragged_ops_inl.h
+++ b/k2/csrc/ragged_ops_inl.h
@@ -911,7 +911,8 @@ Renumbering PruneRaggedAxis1(Ragged<T> &src, T beam,
           *best_scores_data = best_scores.Data(),
           *src_data = src.values.Data();
   const int32_t *row_ids1_data = src.RowIds(1).Data(),
-                *row_splits1_data = src.RowSplits(1).Data();
+                *row_splits1_data = src.RowSplits(1).Data(),
+                *row_splits2_data = src.RowSplits(2).Data();
   // prune_with_max_elems means we have sorted the sub-max ragged tensor
   if (prune_with_max_elems) {
     K2_EVAL(c, total_elements, lambda_set_keep_sorted, (int32_t idx01) {
@@ -924,14 +925,18 @@ Renumbering PruneRaggedAxis1(Ragged<T> &src, T beam,
                 idx1 = idx01 - idx0x;
         bool pruned_by_max_elems = idx1 >= max_elems,
              pruned_by_beam =
-                 sub_max_data[original_idx01] < best_scores_data[idx0] - beam;
+                 sub_max_data[original_idx01] < best_scores_data[idx0] - beam,
+             is_empty = row_splits2_data[original_idx01] ==
+                        row_splits2_data[original_idx01 + 1];
         keep_data[original_idx01] =
-            !(pruned_by_max_elems || pruned_by_beam);
+            !(pruned_by_max_elems || pruned_by_beam || is_empty);
     });
   } else {
     K2_EVAL(c, total_elements, lambda_set_keep, (int32_t idx01) {
         int32_t idx0 = row_ids1_data[idx01];
-        keep_data[idx01] = sub_max_data[idx01] >= best_scores_data[idx0] - beam;
+        // empty sub-lists are always pruned, even if all of them are empty.
+        keep_data[idx01] = row_splits2_data[idx01] != row_splits2_data[idx01 + 1] &&
+                           sub_max_data[idx01] >= best_scores_data[idx0] - beam;
     });
   }
   return renumbering;
-- 
2.43.0


From 17db6fb39b8a9e135f114b2450e15c8914fe2cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 80/96] fix: data race on Semaphore::device_type_ between
 Signal and Wait

---
 k2/csrc/context.cu | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/k2/csrc/context.cu b/k2/csrc/context.cu
index 0df773c..5b4012e 100644
--- a/k2/csrc/context.cu
+++ b/k2/csrc/context.cu
@@ -141,11 +141,15 @@ void GetBlockSizesForLambda2(int32_t m, int32_t n, dim3 *block_dim,
 
 void Semaphore::Signal(ContextPtr c) {
   DeviceType device_type = c->GetDeviceType();
-  if (device_type_ == kUnk)
-    device_type_ = device_type;
-  else
-    K2_CHECK_EQ(device_type, device_type_)
-        << "Semaphore must always be used with the same device type.";
+  {
+    // Signal() and Wait() are called from different threads.
+    std::lock_guard<std::mutex> lock(events_mutex_);
+    if (device_type_ == kUnk)
+      device_type_ = device_type;
+    else
+      K2_CHECK_EQ(device_type, device_type_)
+          << "Semaphore must always be used with the same device type.";
+  }
   if (device_type == kCuda) {
     cudaEvent_t event;
     cudaError_t e = cudaEventCreateWithFlags(&event, cudaEventDisableTiming);
@@ -163,11 +167,15 @@ void Semaphore::Signal(ContextPtr c) {
 
 void Semaphore::Wait(ContextPtr c) {
   DeviceType device_type = c->GetDeviceType();
-  if (device_type_ == kUnk)
-    device_type_ = device_type;
-  else
-    K2_CHECK_EQ(device_type, device_type_)
-        << "Semaphore must always be used with the same device type.";
+  {
+    // Signal() and Wait() are called from different threads.
+    std::lock_guard<std::mutex> lock(events_mutex_);
+    if (device_type_ == kUnk)
+      device_type_ = device_type;
+    else
+      K2_CHECK_EQ(device_type, device_type_)
+          << "Semaphore must always be used with the same device type.";
+  }
   semaphore_.acquire();
   if (device_type == kCuda) {
     cudaEvent_t event;
-- 
2.43.0


From 1e9e5c1e71cecee78690f6af517f56e07b66634a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:31 +0000
Subject: [PATCH 81/96] fix: FsaClass::CopyAttrs mixed up the values of several
 attributes of a list of FSAs

---
 k2/torch/csrc/fsa_class.cu | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/k2/torch/csrc/fsa_class.cu b/k2/torch/csrc/fsa_class.cu
index 90c3de3..ab4fca5 100644
--- a/k2/torch/csrc/fsa_class.cu
+++ b/k2/torch/csrc/fsa_class.cu
@@ -75,9 +75,9 @@ void FsaClass::CopyTensorAttrs(std::vector<FsaClass> &srcs,
       attrs_info.insert(std::make_pair(iter.first, dtype));
     }
   }
-  std::vector<torch::Tensor> values;
   auto row_splits = arc_map.RowSplits(1).To(GetCpuContext());
   for (const auto &iter : attrs_info) {
+    std::vector<torch::Tensor> values;
     for (int32_t i = 0; i < static_cast<int32_t>(srcs.size()); ++i) {
       auto this_arc_map_array =
           arc_map.values.Arange(row_splits[i], row_splits[i + 1]);
@@ -119,9 +119,9 @@ void FsaClass::CopyRaggedTensorAttrs(std::vector<FsaClass> &srcs,
       attrs_name.insert(iter.first);
     }
   }
-  std::vector<Ragged<int32_t>> values;
   auto row_splits = arc_map.RowSplits(1).To(GetCpuContext());
   for (const auto &name : attrs_name) {
+    std::vector<Ragged<int32_t>> values;
     for (int32_t i = 0; i < static_cast<int32_t>(srcs.size()); ++i) {
       auto this_arc_map =
           arc_map.values.Arange(row_splits[i], row_splits[i + 1]);
-- 
2.43.0


From b914e9759e046ce6bf245684ca1c6d4eea46a76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:31 +0000
Subject: [PATCH 82/96] fix: Invert(FsaClass*) changed the labels of copies
 sharing its arcs

---
 k2/torch/csrc/fsa_algo.cu | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/torch/csrc/fsa_algo.cu b/k2/torch/csrc/fsa_algo.cu
index adcb759..6b391fb 100644
--- a/k2/torch/csrc/fsa_algo.cu
+++ b/k2/torch/csrc/fsa_algo.cu
@@ -95,6 +95,8 @@ void Invert(FsaClass *lattice) {
     aux_labels = torch::where(labels == -1, minus_one, aux_labels);
 
     lattice->SetTensorAttr("aux_labels", labels);
+    // Copies of an FsaClass share its arcs, don't modify theirs.
+    lattice->fsa = lattice->fsa.Clone();
     lattice->SetLabels(aux_labels);
   } else {
     K2_CHECK(lattice->HasRaggedTensorAttr("aux_labels"));
-- 
2.43.0


From 03b28e4bd964f8a23178ae5b3f008e069c5aa4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 83/96] fix: SymbolTable ignored a last line whose ID is
 missing or out of range

---
 k2/torch/csrc/symbol_table.cu | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/k2/torch/csrc/symbol_table.cu b/k2/torch/csrc/symbol_table.cu
index 0154794..c46850c 100644
--- a/k2/torch/csrc/symbol_table.cu
+++ b/k2/torch/csrc/symbol_table.cu
@@ -28,7 +28,10 @@ SymbolTable::SymbolTable(const std::string &filename) {
   std::ifstream is(filename);
   std::string sym;
   int32_t id;
-  while (is >> sym >> id) {
+  while (is >> sym) {
+    is >> id;
+    K2_CHECK(!is.fail()) << "Failed to read the ID of symbol: " << sym;
+
     if (sym.size() >= 3) {
       // For BPE-based models, we replace ▁ with a space
       // Unicode 9601, hex 0x2581, utf8 0xe29681
-- 
2.43.0


From 87cfa20f8c5407253d33624db59bca9b2ec0b11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 84/96] fix: WaveReader missed the padding of chunks and
 overflowed for a data chunk of odd size

---
 k2/torch/csrc/wave_reader.cu | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/k2/torch/csrc/wave_reader.cu b/k2/torch/csrc/wave_reader.cu
index 814ca57..f2999be 100644
--- a/k2/torch/csrc/wave_reader.cu
+++ b/k2/torch/csrc/wave_reader.cu
@@ -58,8 +58,10 @@ struct WaveHeader {
   void SeekToDataChunk(std::istream &is) {
     //                              a t a d
     while (is && subchunk2_id != 0x61746164) {
-      const char *p = reinterpret_cast<const char *>(&subchunk2_id);
-      is.seekg(subchunk2_size, std::istream::cur);
+      K2_CHECK_GE(subchunk2_size, 0);
+      // Chunks are word aligned: one of odd size is followed by a padding byte
+      is.seekg(static_cast<int64_t>(subchunk2_size) + subchunk2_size % 2,
+               std::istream::cur);
       is.read(reinterpret_cast<char *>(&subchunk2_id), sizeof(int32_t));
       is.read(reinterpret_cast<char *>(&subchunk2_size), sizeof(int32_t));
     }
@@ -99,10 +101,11 @@ std::pair<torch::Tensor, float> ReadWaveImpl(std::istream &is) {
 
   // header.subchunk2_size contains the number of bytes in the data.
   // As we assume each sample contains two bytes, so it is divided by 2 here
+  K2_CHECK_GE(header.subchunk2_size, 0);
   torch::Tensor data = torch::empty({header.subchunk2_size / 2}, torch::kShort);
 
   is.read(reinterpret_cast<char *>(data.data_ptr<int16_t>()),
-          header.subchunk2_size);
+          data.numel() * sizeof(int16_t));
 
   K2_CHECK((bool)is) << "Failed to read wave samples";
   data = (data / 32768.).to(torch::kFloat32);
-- 
2.43.0


From b7d932627bce2ab69aa82041945f496bf858672a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 85/96] fix: CreateDenseFsaVec misread a supervision_segments
 that is not contiguous

---
 k2/torch/csrc/dense_fsa_vec.cu | 1 +
 1 file changed, 1 insertion(+)

diff --git a/k2/torch/csrc/dense_fsa_vec.cu b/k2/torch/csrc/dense_fsa_vec.cu
index 12140de..135df09 100644
--- a/k2/torch/csrc/dense_fsa_vec.cu
+++ b/k2/torch/csrc/dense_fsa_vec.cu
@@ -38,6 +38,7 @@ DenseFsaVec CreateDenseFsaVec(torch::Tensor log_probs,
   K2_CHECK_EQ(supervision_segments.size(1), 3);
   K2_CHECK_EQ(supervision_segments.device().type(), torch::kCPU);
   K2_CHECK_GE(allow_truncate, 0);
+  supervision_segments = supervision_segments.contiguous();
 
   int32_t N = log_probs.size(0);
   int32_t T = log_probs.size(1);
-- 
2.43.0


From d1890bca8d99d42261a7f245cc37c8ba4df36eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:08 +0000
Subject: [PATCH 86/96] fix: the C++ decoding library refused tensors with one
 element whose stride is not 1

---
 k2/torch/csrc/utils.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/k2/torch/csrc/utils.h b/k2/torch/csrc/utils.h
index 8c6125e..be0b371 100644
--- a/k2/torch/csrc/utils.h
+++ b/k2/torch/csrc/utils.h
@@ -86,7 +86,9 @@ Array1<T> Array1FromTorch(torch::Tensor tensor) {
       << ". Given: " << tensor.scalar_type();
   // Some empty tensor may have stride not equal to 1, e.g., tensor returned by
   // clone() method, it is valid here, so we won't check its strides.
-  if (tensor.numel() > 0)
+  // Likewise, the stride of a tensor with one element has no meaning, e.g., the
+  // labels of an FSA with one arc are contiguous and have a stride of 4.
+  if (tensor.numel() > 1)
     K2_CHECK_EQ(tensor.stride(0), 1)
         << "Expected stride: 1. Given: " << tensor.stride(0);
 
-- 
2.43.0


From 261d0bc082aa6bef0935390c5fd4ae4015bd5f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:08 +0000
Subject: [PATCH 87/96] fix: IndexSelect of the C++ decoding library dropped
 the default values for an empty src

---
 k2/torch/csrc/utils.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/k2/torch/csrc/utils.h b/k2/torch/csrc/utils.h
index be0b371..65a5344 100644
--- a/k2/torch/csrc/utils.h
+++ b/k2/torch/csrc/utils.h
@@ -214,9 +214,10 @@ torch::Tensor IndexSelect(torch::Tensor src, torch::Tensor index,
   // If index_array.Dim() equals to zero, the `Index` below would produce an
   // ans with `ans.Data()` be a nullptr, which will cause crash when calling
   // `torch::from_blob`. Just return an empty tensor here.
-  // If src is an empty tensor, we should return an empty torch.
-  if (index_array.Dim() == 0 || src.numel() == 0)
-    return torch::empty({0}, src.options());
+  if (index_array.Dim() == 0) return torch::empty({0}, src.options());
+  // If src is an empty tensor, the index can only contain -1.
+  if (src.numel() == 0)
+    return torch::full({index_array.Dim()}, default_value, src.options());
   if (src.is_contiguous()) {
     Array1<T> src_array = Array1FromTorch<T>(src);
     Array1<T> ans_array =
-- 
2.43.0


From c1eab2f84f17b08a10a7511504d1a7fe9e2022b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 88/96] fix: Arc::operator== of k2host ignored the source state
 and the score

---
 k2/csrc/host/fsa.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/k2/csrc/host/fsa.h b/k2/csrc/host/fsa.h
index 1b6a0c9..72d74fd 100644
--- a/k2/csrc/host/fsa.h
+++ b/k2/csrc/host/fsa.h
@@ -62,7 +62,8 @@ struct Arc {
 
   bool operator==(const Arc &other) const {
     return std::tie(src_state, dest_state, label, weight) ==
-           std::tie(src_state, other.dest_state, other.label, weight);
+           std::tie(other.src_state, other.dest_state, other.label,
+                    other.weight);
   }
 
   bool operator!=(const Arc &other) const { return !(*this == other); }
-- 
2.43.0


From 898ccfbe547f2e996ce00023518e945331d89c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 89/96] fix: FstInverter::GetSizes counted labels at the wrong
 arcs when the FSA does not start at arc 0

---
 k2/csrc/host/aux_labels.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/csrc/host/aux_labels.cc b/k2/csrc/host/aux_labels.cc
index 68b64bf..c1a26e9 100644
--- a/k2/csrc/host/aux_labels.cc
+++ b/k2/csrc/host/aux_labels.cc
@@ -166,7 +166,7 @@ void FstInverter::GetSizes(Array2Size<int32_t> *fsa_size,
   int32_t num_arcs = 0;
   int32_t num_non_eps_labels = 0;
   for (int32_t i = 0; i != fsa_in_.size2; ++i) {
-    const auto &arc = fsa_in_.data[i];
+    const auto &arc = fsa_in_.data[i + fsa_in_.indexes[0]];
     int32_t begin = labels_in_.indexes[i];
     int32_t end = labels_in_.indexes[i + 1];
     num_extra_states += std::max(0, end - begin - 1);
-- 
2.43.0


From 6b7066f4f2c1902f35e64490139237f1af8716c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 90/96] fix: log-semiring determinization derived from the
 wrong arcs when the FSA does not start at arc 0

---
 k2/csrc/host/determinize_impl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/k2/csrc/host/determinize_impl.h b/k2/csrc/host/determinize_impl.h
index 1c079e7..d7df1b7 100644
--- a/k2/csrc/host/determinize_impl.h
+++ b/k2/csrc/host/determinize_impl.h
@@ -777,7 +777,7 @@ void DetState<TracebackState>::Normalize(const WfsaWithFbWeights &wfsa_in,
 
   // the following will set removed_weight and deriv_info.
   // `arcs` is needed to look up the weight.
-  const Arc *arcs = wfsa_in.fsa.data;
+  const Arc *arcs = wfsa_in.fsa.data + wfsa_in.fsa.indexes[0];
   TraceBack(&cur_states, num_steps, arcs, removed_weight, deriv_info);
   this->SetNormalizer(weight_pushing_type);
   normalized = true;
@@ -807,7 +807,7 @@ void DetState<TracebackState>::Normalize(const Fsa &fsa_in,
 
   // the following will set removed_weight and deriv_info.
   // `arcs` is needed to look up the weight.
-  const Arc *arcs = fsa_in.data;
+  const Arc *arcs = fsa_in.data + fsa_in.indexes[0];
   TraceBack(&cur_states, num_steps, arcs, removed_weight, deriv_info);
   this->SetNormalizer(weight_pushing_type);
   normalized = true;
-- 
2.43.0


From 42a47104680c8f400b646683ceda037528c916cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 91/96] fix: k2host::IsRandEquivalent took FSAs whose total
 scores differ by less than 1 for equivalent

---
 k2/csrc/host/fsa_equivalent.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/k2/csrc/host/fsa_equivalent.cc b/k2/csrc/host/fsa_equivalent.cc
index 391cde4..2822a94 100644
--- a/k2/csrc/host/fsa_equivalent.cc
+++ b/k2/csrc/host/fsa_equivalent.cc
@@ -7,6 +7,7 @@
 #include "k2/csrc/host/fsa_equivalent.h"
 
 #include <algorithm>
+#include <cmath>
 #include <queue>
 #include <random>
 #include <unordered_map>
@@ -265,7 +266,7 @@ bool IsRandEquivalent(const Fsa &a, const Fsa &b,
   double dist_a = ShortestDistance<Type>(valid_a),
          dist_b = ShortestDistance<Type>(valid_b),
          loglike_cutoff_a = dist_a - beam, loglike_cutoff_b = dist_b - beam;
-  if (abs(dist_a - dist_b) > delta) return false;
+  if (std::abs(dist_a - dist_b) > delta) return false;
 
   std::random_device rd;
   std::mt19937 gen(rd());
-- 
2.43.0


From 07c1d996f5d354449f0edadf20c11941ded164f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 92/96] fix: the arc map of k2host::RandPath was off when the
 FSA does not start at arc 0

---
 k2/csrc/host/fsa_equivalent.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/csrc/host/fsa_equivalent.cc b/k2/csrc/host/fsa_equivalent.cc
index 2822a94..131072c 100644
--- a/k2/csrc/host/fsa_equivalent.cc
+++ b/k2/csrc/host/fsa_equivalent.cc
@@ -453,7 +453,7 @@ void RandPath::GetSizes(Array2Size<int32_t> *fsa_size) {
       arc.src_state = arcs_.size();
       arc.dest_state = arc.src_state + 1;
       arcs_.push_back(arc);
-      arc_map_.push_back(curr_arc - fsa_in_.data);
+      arc_map_.push_back(arc_index_in - fsa_in_.indexes[0]);
     }
   }
 
-- 
2.43.0


From a9aec903db0aa86bb7eb0234901f877ac1d23000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 93/96] fix: k2host::StringToFsa wrote out of bounds on
 negative states

---
 k2/csrc/host/fsa_util.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/csrc/host/fsa_util.cc b/k2/csrc/host/fsa_util.cc
index 943b82d..27347d6 100644
--- a/k2/csrc/host/fsa_util.cc
+++ b/k2/csrc/host/fsa_util.cc
@@ -275,6 +275,8 @@ void StringToFsa::GetSizes(Array2Size<int32_t> *fsa_size) {
       arc.src_state = fields[0];
       arc.dest_state = fields[1];
       arc.label = fields[2];
+      K2_CHECK_GE(arc.src_state, 0) << "invalid line: " << line;
+      K2_CHECK_GE(arc.dest_state, 0) << "invalid line: " << line;
 
       auto new_size = std::max(arc.src_state, arc.dest_state);
       if (new_size >= arcs_.size()) arcs_.resize(new_size + 1);
-- 
2.43.0


From 8a2d85b0cb06c7a74e69c8af22ce51ad18487b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 94/96] fix: k2host::CreateFsa read out of bounds without an
 arc to the final state

---
 k2/csrc/host/fsa_util.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/k2/csrc/host/fsa_util.cc b/k2/csrc/host/fsa_util.cc
index 27347d6..18d2718 100644
--- a/k2/csrc/host/fsa_util.cc
+++ b/k2/csrc/host/fsa_util.cc
@@ -544,6 +544,7 @@ void CreateFsa(const std::vector<Arc> &arcs, Fsa *fsa,
   int32_t num_states = static_cast<int32_t>(state_to_arcs.size());
   K2_CHECK_EQ(fsa->size1, num_states);
   K2_CHECK_EQ(fsa->size2, arcs.size());
+  K2_CHECK_NE(old_final_state, -1) << "No arc enters the final state";
   // there's no leaving arc from final state
   K2_CHECK_EQ(state_to_arcs[old_final_state].size(), 0);
 
-- 
2.43.0


From cd97b3bbe62f15ce1322b9e93d2eb80e1804fd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:46 +0000
Subject: [PATCH 95/96] fix: k2host::DeterminizerPruned ignored
 weight_pushing_type

---
 k2/csrc/host/determinize_impl.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/k2/csrc/host/determinize_impl.h b/k2/csrc/host/determinize_impl.h
index d7df1b7..8f3bb9b 100644
--- a/k2/csrc/host/determinize_impl.h
+++ b/k2/csrc/host/determinize_impl.h
@@ -666,12 +666,17 @@ int32_t DetState<TracebackState>::ProcessArcs(
        ++iter) {
     DetState<TracebackState> *det_state = iter->second;
 
-    float arc_weight;
+    float unpushed_arc_weight;
     std::vector<DerivType> deriv_info;
-    det_state->Normalize(wfsa_in, &arc_weight, &deriv_info,
+    det_state->Normalize(wfsa_in, &unpushed_arc_weight, &deriv_info,
                          weight_pushing_type);
     if (det_state->forward_backward_prob >= prune_cutoff) {
       bool is_new_state = state_map->GetOutputState(det_state, fsa);
+      float arc_weight;
+      if (weight_pushing_type == kNoWeight)
+        arc_weight = unpushed_arc_weight;
+      else
+        arc_weight = det_state->normalizer - this->normalizer;
       arcs_out->push_back({this->state_id, det_state->state_id,
                            static_cast<int32_t>(iter->first), arc_weight});
       derivs_per_arc->push_back(std::move(deriv_info));
-- 
2.43.0


From 18ab8a0630be5577da754f23b5a1392e20b5b637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:03 +0000
Subject: [PATCH 96/96] fix: is_rand_equivalent compared FsaVecs with different
 numbers of FSAs as if the shorter one were complete

---
 k2/csrc/host_shim.cu | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/csrc/host_shim.cu b/k2/csrc/host_shim.cu
index 3559146..76af805 100644
--- a/k2/csrc/host_shim.cu
+++ b/k2/csrc/host_shim.cu
@@ -213,6 +213,7 @@ bool IsRandEquivalentUnweighted(FsaOrVec &a, FsaOrVec &b,
                                       npath);
   }
   if (a.NumAxes() > 2) {
+    if (a.Dim0() != b.Dim0()) return false;
     for (int32_t i = 0; i < a.Dim0(); i++) {
       Fsa a_part = a.Index(0, i), b_part = b.Index(0, i);
       if (!IsRandEquivalentUnweighted(a_part, b_part, treat_epsilons_specially,
@@ -241,6 +242,7 @@ bool IsRandEquivalent(Fsa &a, Fsa &b, bool log_semiring,
                             treat_epsilons_specially, delta, npath);
   }
   if (a.NumAxes() > 2) {
+    if (a.Dim0() != b.Dim0()) return false;
     for (int32_t i = 0; i < a.Dim0(); i++) {
       Fsa a_part = a.Index(0, i), b_part = b.Index(0, i);
       if (!IsRandEquivalent(a_part, b_part, log_semiring, beam,
-- 
2.43.0

