From 1bcf1b022b415458e13ed662cca94e1ff6561e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 01/36] fix: use np.isin, np.in1d is gone from numpy 2

---
 graphicle/data.py   | 4 ++--
 graphicle/select.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index e35b554..d358d93 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2545,7 +2545,7 @@ class AdjacencyList(base.AdjacencyBase):
         """
         in_degree = self._sparse_unsigned.sum(axis=0)
         zero_idxs = np.flatnonzero(in_degree == 0)
-        root_mask = np.in1d(self._sparse_unsigned.row, zero_idxs)
+        root_mask = np.isin(self._sparse_unsigned.row, zero_idxs)
         return MaskArray(root_mask)
 
     @property
@@ -2556,7 +2556,7 @@ class AdjacencyList(base.AdjacencyBase):
         """
         out_degree = self._sparse_unsigned.sum(axis=1)
         zero_idxs = np.flatnonzero(out_degree == 0)
-        leaf_mask = np.in1d(self._sparse_unsigned.col, zero_idxs)
+        leaf_mask = np.isin(self._sparse_unsigned.col, zero_idxs)
         return MaskArray(leaf_mask)
 
     @property
diff --git a/graphicle/select.py b/graphicle/select.py
index fd03252..c2a8a3f 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -416,7 +416,7 @@ def _partition_vertex(
     hadron_pmu = pmu[final_from_vtx]
     dist = dist_strat(parton_pmu, hadron_pmu)
     alloc = np.argmin(dist, axis=0)
-    final_from_hard = np.in1d(alloc, np.flatnonzero(mask[pcls_in]))
+    final_from_hard = np.isin(alloc, np.flatnonzero(mask[pcls_in]))
     mask.data[final_from_vtx] = final_from_hard
     return mask
 
-- 
2.43.0


From 0b4bc0c113738f85aeea7d56d9dd0b4bf6ad0c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 02/36] fix: compare mask arrays with mask groups in both
 orders

---
 graphicle/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index d358d93..ca86ac9 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -618,7 +618,7 @@ def _mask_eq(mask1: base.MaskLike, mask2: base.MaskLike) -> MaskArray:
     shape1, shape2 = np.shape(mask1), np.shape(mask2)
     if shape1 != shape2:
         raise ValueError(f"Incompatible mask shapes {shape1} and {shape2}.")
-    return MaskArray(np.equal(mask1, mask2))
+    return MaskArray(np.equal(np.asarray(mask1), np.asarray(mask2)))
 
 
 def _mask_neq(mask1: base.MaskLike, mask2: base.MaskLike) -> MaskArray:
@@ -639,7 +639,7 @@ def _mask_neq(mask1: base.MaskLike, mask2: base.MaskLike) -> MaskArray:
     shape1, shape2 = np.shape(mask1), np.shape(mask2)
     if shape1 != shape2:
         raise ValueError(f"Incompatible mask shapes {shape1} and {shape2}.")
-    return MaskArray(np.not_equal(mask1, mask2))
+    return MaskArray(np.not_equal(np.asarray(mask1), np.asarray(mask2)))
 
 
 _IN_MASK_DICT = ty.Mapping[
-- 
2.43.0


From 8084316bc7027123c36bd03f2bcf6df25edb3939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 03/36] fix: keep one record of a multi-column array
 two-dimensional

---
 graphicle/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index ca86ac9..daad514 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -439,7 +439,7 @@ def _array_field(dtype: npt.DTypeLike, num_cols: int = 1):
         not_empty = array.shape[0] != 0
         if not_empty and (cols != num_cols):
             raise ValueError(f"Number of columns must be equal to {num_cols}")
-        return array
+        return array.reshape(-1, num_cols)
 
     return field(
         default=Factory(
-- 
2.43.0


From 763b0a16e9ba116debeeb1fe5c8fbb269178d250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 04/36] fix: store structured colours under their own names,
 whatever the field order

---
 graphicle/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index daad514..65ae1a0 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -428,6 +428,8 @@ def _array_field(dtype: npt.DTypeLike, num_cols: int = 1):
                 values = _reorder_pmu(values)
             elif (num_cols == 2) and (set(_EDGE_MAP.keys()) & set(names)):
                 values = _reorder_edges(values)
+            elif set(names) == {"color", "anticolor"}:
+                values = values[["color", "anticolor"]]
             values = rfn.structured_to_unstructured(values)
         array = np.asarray(values, dtype=dtype)
         shape = array.shape
-- 
2.43.0


From 288460dbfb9cebd5e70a98042a9d751521a29b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 05/36] fix: keep edge weights when copying and slicing
 adjacency lists

---
 graphicle/data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 65ae1a0..20a867e 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2479,11 +2479,12 @@ class AdjacencyList(base.AdjacencyBase):
     def __getitem__(self, key) -> "AdjacencyList":
         if isinstance(key, base.MaskBase):
             key = key.data
-        return self.__class__(self._data[key].reshape(-1, 2))
+        weights = self.weights[key] if self.weights.size > 0 else self.weights
+        return self.__class__(self._data[key].reshape(-1, 2), weights)
 
     def copy(self) -> "AdjacencyList":
         """Copies the underlying data into a new AdjacencyList instance."""
-        return self.__class__(self._data.copy())
+        return self.__class__(self._data.copy(), self.weights.copy())
 
     @fn.cached_property
     def _edge_relabel(self) -> base.IntVector:
-- 
2.43.0


From 3e6942c55e8487cebd58c1c7cf31c846d5457cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 06/36] fix: compare adjacency lists with each other

---
 graphicle/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 20a867e..735a3ca 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -242,7 +242,7 @@ def _array_eq_prep(
     """
     other_data = other
     dtype = instance.data.dtype
-    if isinstance(other, base.ArrayBase):
+    if isinstance(other, (base.ArrayBase, base.AdjacencyBase)):
         other_data = other.data
     elif (dtype.type == np.void) and not (
         isinstance(other, np.ndarray) and (other.dtype == np.void)
-- 
2.43.0


From 93210e077cd769d30d540e674f3c71edc95ea50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 07/36] fix: compare record arrays with structured numpy arrays

---
 graphicle/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 735a3ca..6b9c3c8 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -245,7 +245,7 @@ def _array_eq_prep(
     if isinstance(other, (base.ArrayBase, base.AdjacencyBase)):
         other_data = other.data
     elif (dtype.type == np.void) and not (
-        isinstance(other, np.ndarray) and (other.dtype == np.void)
+        isinstance(other, np.ndarray) and (other.dtype.type == np.void)
     ):
         dt_set = set(map(op.itemgetter(1), dtype.descr))
         assert len(dt_set) == 1
-- 
2.43.0


From 6133a43fa76482c83ea11bdf8cf361645065fed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 08/36] fix: compare composite records by the contents of every
 attribute

---
 graphicle/data.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index 6b9c3c8..70a83d4 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2193,6 +2193,23 @@ def _composite_copy(instance: CompositeGeneric) -> CompositeGeneric:
     return instance.__class__(**dict(zip(names, copies)))
 
 
+def _data_equal(first: ty.Any, second: ty.Any) -> bool:
+    """Whether two attributes of a composite object hold the same data."""
+    if isinstance(first, ParticleSet):
+        return first == second
+    if isinstance(first, AdjacencyList) and not np.array_equal(
+        first.weights, second.weights
+    ):
+        return False
+    return np.array_equal(first._data, second._data)
+
+
+def _composite_eq(instance: CompositeType, other: ty.Any) -> bool:
+    if other.__class__ is not instance.__class__:
+        return NotImplemented
+    return all(map(_data_equal, _dsets(instance)[1], _dsets(other)[1]))
+
+
 class ParticleSetSerialized(tyx.TypedDict, total=False):
     """Typed dictionary format of a serialized ParticleSet instance.
 
@@ -2258,6 +2275,9 @@ class ParticleSet(base.ParticleBase):
     def __getitem__(self, key) -> "ParticleSet":
         return _composite_getitem(self, key)
 
+    def __eq__(self, other: ty.Any) -> bool:
+        return _composite_eq(self, other)
+
     def __bool__(self) -> bool:
         return _composite_bool(self)
 
@@ -2713,6 +2733,9 @@ class Graphicle:
     def __getitem__(self, key) -> "Graphicle":
         return _composite_getitem(self, key)
 
+    def __eq__(self, other: ty.Any) -> bool:
+        return _composite_eq(self, other)
+
     def __bool__(self) -> bool:
         return _composite_bool(self)
 
-- 
2.43.0


From 4af01f57c703badddb2a2495d102f689c2af7d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 09/36] fix: any_overlap for groups of any number of masks

---
 graphicle/select.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index c2a8a3f..d6ece19 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -938,10 +938,9 @@ def any_overlap(masks: gcl.MaskGroup[MaskType]) -> bool:
         ``True`` if at least two ``MaskArrays`` in ``masks`` have at
         least one ``True`` element in the same location.
     """
-    combos = it.combinations(masks.dict.values(), 2)
-    pair_checks = map(np.bitwise_and, *zip(*combos))
-    overlaps: bool = np.bitwise_or.reduce(tuple(pair_checks), axis=None)
-    return overlaps
+    combos = it.combinations(map(op.attrgetter("data"), masks.values()), 2)
+    pair_checks = it.starmap(np.bitwise_and, combos)
+    return any(map(np.any, pair_checks))
 
 
 def centroid_prune(
-- 
2.43.0


From 2f9357dda8f4b20235088fd1d2dfb5708918c797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 10/36] fix: hard_descendants marks the partons that match the
 target

---
 graphicle/select.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index d6ece19..355b9c4 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -686,6 +686,7 @@ def hard_descendants(
     hard_mask = graph.hard_mask
     del hard_mask["incoming"]
     hard_graph = graph[hard_mask]
+    hard_idxs = np.flatnonzero(hard_mask)
     if target is not None:
         target_pdgs = set(target) if sign_sensitive else set(map(abs, target))
         target_mask = hard_graph.pdg.mask(
@@ -704,11 +705,12 @@ def hard_descendants(
             missing_str = ", ".join(map(str, missing_pdgs))
             raise ValueError(f"Missing PDGs in hard process: {missing_str}.")
         hard_graph = hard_graph[target_mask]
+        hard_idxs = hard_idxs[target_mask]
     pdg_keys = _pdgs_to_keys(hard_graph.pdg)
     pcl_out_vtxs = map(int, hard_graph.edges["dst"])
     descs = map(vertex_descendants, it.repeat(graph.adj), pcl_out_vtxs)
     group = gcl.MaskGroup(cl.OrderedDict(zip(pdg_keys, descs)), agg_op="or")
-    for key, idx in zip(pdg_keys, np.flatnonzero(hard_mask)):
+    for key, idx in zip(pdg_keys, hard_idxs):
         group[key][idx] = True
     return group
 
-- 
2.43.0


From ecc10a12f6e2a3f209fbbd46e12fe2bc7b94211c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 11/36] fix: leave out a latent mask at the top of the tree in
 leaf_masks

---
 graphicle/select.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphicle/select.py b/graphicle/select.py
index 355b9c4..024ebb2 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -917,6 +917,8 @@ def leaf_masks(mask_tree: gcl.MaskGroup) -> gcl.MaskGroup[gcl.MaskArray]:
     """
     mask_group = gcl.MaskGroup(agg_op=mask_tree.agg_op)
     for name, branch in mask_tree.items():
+        if name == "latent":
+            continue
         mask_group.update(dict(_leaf_mask_iter(name, branch)))  # type: ignore
     return mask_group
 
-- 
2.43.0


From 9879ddb09616c1fefdae15fe4496cf2812ce89ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 12/36] fix: ignore the sign of targets in sign-insensitive PDG
 masks

---
 graphicle/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index 70a83d4..5f2d924 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1227,6 +1227,7 @@ class PdgArray(base.ArrayBase):
         data = self.data
         if sign_sensitive is False:
             data = np.abs(data, dtype=_types.int)
+            target = np.abs(target)
         return MaskArray(
             np.isin(data, target, assume_unique=False, invert=blacklist)
         )
-- 
2.43.0


From 323f0e74f1bf6720aee92c68664118984cc73ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 13/36] fix: compare the magnitude of the lowest status code
 without wrapping

---
 graphicle/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 5f2d924..01ba8b3 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2118,7 +2118,7 @@ class StatusArray(base.ArrayBase):
         """
         array = self.data
         if sign_sensitive is False:
-            array = np.abs(array)
+            array = np.abs(array, dtype=_types.int)
         more_than = array >= min_status
         if max_status is None:
             return MaskArray(more_than)
-- 
2.43.0


From 9446bfdace8d0d67eb44653260cd400766197b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 14/36] fix: leave the status codes of the LHE event as they
 are

---
 graphicle/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index 01ba8b3..7f5f894 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2355,6 +2355,7 @@ class ParticleSet(base.ParticleBase):
         props = ("pdg", "pmu", "color", "helicity", "status")
         pcls = cls.from_numpy(**{name: getattr(event, name) for name in props})
         pcls.final = MaskArray(np.zeros(len(pcls), dtype=np.bool_))
+        pcls.status = pcls.status.copy()
         status_map = {-1: -21, 1: -23, -2: -22, 2: -22, 3: -22, -9: -12}
         for old_code, new_code in status_map.items():
             pcls.status.data[pcls.status.data == old_code] = new_code
-- 
2.43.0


From b2d6a263914cdf547c01e1a5c8f3052a84aa559c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 15/36] fix: order nodes by magnitude without wrapping the
 lowest id

---
 graphicle/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 7f5f894..78897d9 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2559,7 +2559,7 @@ class AdjacencyList(base.AdjacencyBase):
         Positive sign conventionally means final state particle.
         """
         unsort_nodes = np.unique(self._data)
-        sort_idxs = np.argsort(np.abs(unsort_nodes))
+        sort_idxs = np.argsort(np.abs(unsort_nodes.astype("<i8")))
         return unsort_nodes[sort_idxs]  # type: ignore
 
     @property
-- 
2.43.0


From c091ac74fa883a39b655a33dbe0419c919ab3dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 16/36] fix: empty adjacency lists have no roots, leaves or
 matrix entries

---
 graphicle/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 78897d9..9db4976 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2668,7 +2668,7 @@ class AdjacencyList(base.AdjacencyBase):
             are ``"dst"`` indices for ``AdjacencyList.edges``.
         """
         abs_edges = self._edge_relabel
-        size = np.max(abs_edges) + 1
+        size = np.max(abs_edges, initial=-1) + 1
         if data is None:
             data = np.sign(self.data["dst"]) == 1
         return coo_array(
-- 
2.43.0


From e8f3847fd33a9cfbf7d466cc5a976039cca3ac4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 17/36] fix: keep the diagonal of a matrix when adding
 self-loops

---
 graphicle/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 9db4976..fb99f1a 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2642,7 +2642,7 @@ class AdjacencyList(base.AdjacencyBase):
         """
         sps_adj = coo_array(adj_matrix)
         if self_loop is True:
-            sps_adj.setdiag(0.0)
+            sps_adj.setdiag(sps_adj.diagonal())
         kwargs = {"data": np.vstack((sps_adj.row, sps_adj.col)).T}
         if weighted is True:
             kwargs["weights"] = sps_adj.data
-- 
2.43.0


From 8043b829a6eff8d92da8e1b1a86e5ecf6bfa31b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:28 +0000
Subject: [PATCH 18/36] fix: keep parents out of the masks of their children in
 the hierarchy

---
 graphicle/select.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index 024ebb2..82bb537 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -867,12 +867,7 @@ def _make_tree(
                     branch[parton].data != desc[parton].data
                 )
             else:
-                mask = desc[parton]
-                in_edge = adj.edges["src"][mask][0]
-                initial_parton_mask = adj.edges["dst"] == in_edge
-                if np.sum(initial_parton_mask) == 1:
-                    mask.data[initial_parton_mask] = True
-                branch[parton] = mask
+                branch[parton] = desc[parton]
     return branch
 
 
-- 
2.43.0


From afe97b8c6ce9589fa3b2b599d5245d2cc754879c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:28 +0000
Subject: [PATCH 19/36] fix: include partons without hard relatives in the
 hierarchy

---
 graphicle/select.py | 42 ++++++++++++++----------------------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index 82bb537..917a5e8 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -812,37 +812,32 @@ def hierarchy(
         return desc
     hard_desc = desc[hard_mask][list(names)]
     hard = _flat_hierarchy(hard_desc)
-    keys = set(hard.keys())
     vals = set(it.chain.from_iterable(hard.values()))
-    roots = keys.difference(keys.intersection(vals))
+    roots = tuple(name for name in names if name not in vals)
     hard_final = hard_mask & graph.final
     if np.any(hard_final):
         hard_final_keys = it.compress(names, hard_final[hard_mask].data)
         hard_final_idxs = np.flatnonzero(hard_final)
         for key, idx in zip(hard_final_keys, hard_final_idxs):
             desc[key].data[idx] = True
-    masks = _make_tree(hard, roots, hard, desc, graph.adj)
+    masks = _make_tree(roots, hard, desc)
     return masks
 
 
 def _make_tree(
-    flat: ty.Union[ty.Dict[str, ty.Any], ty.Tuple[str, ...]],
-    roots: ty.Set[str],
+    partons: ty.Tuple[str, ...],
     hard: ty.Dict[str, ty.Tuple[str, ...]],
     desc: gcl.MaskGroup[gcl.MaskArray],
-    adj: gcl.AdjacencyList,
 ) -> gcl.MaskGroup[MaskType]:
     """Recursive function to convert a flat representation of the hard
     process tree into a nested ``MaskGroup`` of ``MaskGroup`` object.
 
     Parameters
     ----------
-    flat : dict[str, tuple[str, ...]]
-        Flat representation of a branch of the hard process tree. At the
-        first level before entering recursion, this is the same as the
-        value for ``hard``.
-    roots : set[str]
-        String valued keys at the root of the hard process tree.
+    partons : tuple[str, ...]
+        Names of the sibling partons to place in this branch. At the
+        first level before entering recursion, these are the partons
+        without hard parents.
     hard : dict[str, tuple[str, ...]]
         Flat representation of the hard process tree. May be obtained
         from ``_flat_hierarchy()``.
@@ -851,23 +846,14 @@ def _make_tree(
         ``hard_descendants()``.
     """
     branch = gcl.MaskGroup(agg_op="or")  # type: ignore
-    if isinstance(flat, dict):
-        for key, nest in filter(lambda item: item[0] in roots, flat.items()):
-            branch[key] = _make_tree(nest, roots, hard, desc, adj)
-            branch[key]["latent"] = (  # type: ignore
-                branch[key].data != desc[key].data
+    for parton in partons:
+        if parton in hard:
+            branch[parton] = _make_tree(hard[parton], hard, desc)
+            branch[parton]["latent"] = (  # type: ignore
+                branch[parton].data != desc[parton].data
             )
-    else:
-        for parton in flat:
-            if parton in hard:
-                branch[parton] = _make_tree(
-                    hard[parton], roots, hard, desc, adj
-                )
-                branch[parton]["latent"] = (  # type: ignore
-                    branch[parton].data != desc[parton].data
-                )
-            else:
-                branch[parton] = desc[parton]
+        else:
+            branch[parton] = desc[parton]
     return branch
 
 
-- 
2.43.0


From 01c0e37aac12a7f08592f2b2ffb00a85b63be38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:28 +0000
Subject: [PATCH 20/36] fix: build the hierarchy of events without final state
 masks

---
 graphicle/select.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index 917a5e8..5dce97c 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -814,7 +814,7 @@ def hierarchy(
     hard = _flat_hierarchy(hard_desc)
     vals = set(it.chain.from_iterable(hard.values()))
     roots = tuple(name for name in names if name not in vals)
-    hard_final = hard_mask & graph.final
+    hard_final = hard_mask & graph.final if graph.final else ()
     if np.any(hard_final):
         hard_final_keys = it.compress(names, hard_final[hard_mask].data)
         hard_final_idxs = np.flatnonzero(hard_final)
-- 
2.43.0


From 94e14d462963cd6f935772101fc99a2814ffd8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:22 +0000
Subject: [PATCH 21/36] fix: soft_hard_axis gives the inclination of the axis,
 not its elevation

---
 graphicle/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/transform.py b/graphicle/transform.py
index b812f31..a27bac9 100644
--- a/graphicle/transform.py
+++ b/graphicle/transform.py
@@ -49,7 +49,7 @@ def _angles_to_axis(angles: SphericalAngle) -> SphericalAxis:
 def _axis_to_angles(axis: SphericalAxis) -> SphericalAngle:
     phi_polar = complex(axis.x, axis.y)
     pt, phi = cmath.polar(phi_polar)
-    theta_polar = complex(pt, axis.z)
+    theta_polar = complex(axis.z, pt)
     theta = cmath.phase(theta_polar)
     return SphericalAngle(theta=theta, phi=phi)
 
-- 
2.43.0


From b4e8c7e212fc4527157803ff2cb32cfa830453d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:39 +0000
Subject: [PATCH 22/36] fix: shift_eta reaches its target for sets of particles
 with mass

---
 graphicle/data.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index fb99f1a..25f2c0d 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1702,8 +1702,12 @@ class MomentumArray(base.ArrayBase):
             if math.isclose(eta_mid, target, rel_tol=0.0, abs_tol=abs_tol):
                 converged = True
                 break
-            rap_mid, _ = calculate.resultant_coords(pmu, pseudo=False)
-            correction = target - rap_mid
+            pmu_sum: "MomentumArray" = np.sum(pmu, axis=0)
+            # rapidity of the combined momentum when its eta is on target
+            rap_target = np.arcsinh(
+                pmu_sum.pt * np.sinh(target) / pmu_sum.mass_t
+            )
+            correction = (rap_target - pmu_sum.rapidity).item()
             pmu = pmu.shift_rapidity(correction)
             eta_mid, _ = calculate.resultant_coords(pmu, pseudo=True)
         if converged is not True:
-- 
2.43.0


From 163642cc93cf0083aa3cb6a6e2ae979b0978c0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:39 +0000
Subject: [PATCH 23/36] fix: shift_eta accepts one shift per particle, as
 documented

---
 graphicle/data.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index 25f2c0d..ad7251a 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1695,6 +1695,14 @@ class MomentumArray(base.ArrayBase):
             pmu.z[...] = self.pt * np.sinh(eta)
             pmu.energy[...] = np.nan
             return pmu
+        if np.ndim(shift) > 0:
+            for idx, elem in enumerate(np.broadcast_to(shift, len(self))):
+                pmu._data[idx] = (
+                    self[idx]
+                    .shift_eta(elem.item(), False, max_corrections, abs_tol)
+                    ._data
+                )
+            return pmu
         eta_mid, _ = calculate.resultant_coords(pmu, pseudo=True)
         target = eta_mid + shift
         converged = False
-- 
2.43.0


From b5838d8311b87a82723e94c585902522c04dc61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:12 +0000
Subject: [PATCH 24/36] fix: knn_adj gives every node k outward edges along its
 row

---
 graphicle/matrix.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/graphicle/matrix.py b/graphicle/matrix.py
index 6f57f35..e1d8a5c 100644
--- a/graphicle/matrix.py
+++ b/graphicle/matrix.py
@@ -130,11 +130,12 @@ def knn_adj(
     If weighted is ``False``, the returned adjacency matrix will be
     boolean.
     """
-    axis = 0  # calculate everything row-wise
-    if self_loop is False:
-        k = k + 1  # for when we get rid of self-neighbours
-    knn_idxs = np.argpartition(matrix, kth=k, axis=axis)
-    near = knn_idxs[:k]
+    axis = 1  # calculate everything row-wise
+    # a node is its own nearest neighbour, or (NaN sorts last) none at all
+    dist = np.array(matrix, dtype=np.float64)
+    np.fill_diagonal(dist, -np.inf if self_loop else np.nan)
+    knn_idxs = np.argpartition(dist, kth=k - 1, axis=axis)
+    near = knn_idxs[:, :k]
     edge_weights = 1
     if weighted is True:
         if dtype is None:
-- 
2.43.0


From 5ee16065dea71cb8b17a1cf874e08202c92be4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:08 +0000
Subject: [PATCH 25/36] fix: arg_closest leaves the rapidity of its candidates
 intact

---
 graphicle/calculate.py | 4 +---
 graphicle/select.py    | 1 -
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index d13c1d1..9ba8891 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -924,9 +924,7 @@ def _assignment_cost(
     xy_pol_2: base.ComplexVector,
 ) -> base.DoubleVector:
     dist_matrix = _delta_R(rapidity_1, rapidity_2, xy_pol_1, xy_pol_2)
-    pt_2 = rapidity_2  # recycle memory buffer for transverse momenta
-    for pol_idx, pol_val in enumerate(xy_pol_2):
-        pt_2[pol_idx] = abs(pol_val)
+    pt_2 = np.abs(xy_pol_2)
     var_pt_recip = 1.0 / np.var(pt_2)
     num_partons = dist_matrix.shape[0]
     for parton_idx in nb.prange(num_partons):
diff --git a/graphicle/select.py b/graphicle/select.py
index 5dce97c..ec091e2 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -1213,7 +1213,6 @@ def arg_closest(
             focus._xy_pol,
             candidate._xy_pol,
         )
-    del candidate.rapidity  # inplace operation above invalidates cache
     _, idxs = opt.linear_sum_assignment(cost_matrix)
     return idxs.tolist()
 
-- 
2.43.0


From f818539df9072b2ba8307366f830bec4eae8c719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:08 +0000
Subject: [PATCH 26/36] fix: arg_closest works for candidates without variance

---
 graphicle/calculate.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index 9ba8891..d35786e 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -925,12 +925,15 @@ def _assignment_cost(
 ) -> base.DoubleVector:
     dist_matrix = _delta_R(rapidity_1, rapidity_2, xy_pol_1, xy_pol_2)
     pt_2 = np.abs(xy_pol_2)
-    var_pt_recip = 1.0 / np.var(pt_2)
+    # without variance, a term is the same for every jet
+    var_pt = np.var(pt_2)
+    var_pt_recip = 1.0 / var_pt if var_pt > 0.0 else 0.0
     num_partons = dist_matrix.shape[0]
     for parton_idx in nb.prange(num_partons):
         row = dist_matrix[parton_idx, :]
         pt_1_val = abs(xy_pol_1[parton_idx])
-        var_dR_recip = 1.0 / np.var(row)
+        var_dR = np.var(row)
+        var_dR_recip = 1.0 / var_dR if var_dR > 0.0 else 0.0
         for jet_idx, (dR_val, pt_2_val) in enumerate(zip(row, pt_2)):
             dpt = pt_1_val - pt_2_val
             dR_cost = math.expm1(-0.5 * var_dR_recip * dR_val * dR_val)
-- 
2.43.0


From 78ebf33cf36b3565ba9c63ae2d7d3a0a31a7be76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:08 +0000
Subject: [PATCH 27/36] fix: monte_carlo_tag accepts a blacklist with an empty
 whitelist

---
 graphicle/select.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index ec091e2..742ad08 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -1351,7 +1351,7 @@ def monte_carlo_tag(
         if not sign_sensitive:
             hard_pdg_ = np.abs(hard_pdg_)
             list_ = np.abs(list_)
-        hard_mask = np.isin(hard_pdg_, list_, invert=(whitelist is None))
+        hard_mask = np.isin(hard_pdg_, list_, invert=(not whitelist))
         if not np.any(hard_mask):
             raise IndexError("No partons matching filters found.")
         hard_pmu = hard_pmu[hard_mask]
-- 
2.43.0


From f904cf7bc9e40dc45cb783eb0bdaba2f7e3d26ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:08 +0000
Subject: [PATCH 28/36] fix: derived momentum coordinates follow newly assigned
 data

---
 graphicle/data.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index ad7251a..e58dee7 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -39,6 +39,7 @@ For more details, see individual docstrings.
 
 import collections as cl
 import collections.abc as cla
+import contextlib as ctx
 import functools as fn
 import io
 import itertools as it
@@ -1445,6 +1446,19 @@ class MomentumArray(base.ArrayBase):
     @data.setter
     def data(self, values: npt.ArrayLike) -> None:
         self._data = values  # type: ignore
+        # quantities derived from the previous data are out of date
+        for name in (
+            "_zt_pol",
+            "_spatial_mag",
+            "eta",
+            "rapidity",
+            "phi",
+            "theta",
+            "mass",
+            "mass_t",
+        ):
+            with ctx.suppress(AttributeError):
+                delattr(self, name)
 
     @classmethod
     def __array_wrap__(cls, array: base.AnyVector) -> "MomentumArray":
-- 
2.43.0


From 9d47108b33f83603a0437f39bdecbd6fab1d16c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:55 +0000
Subject: [PATCH 29/36] fix: color_singlets names the right leaves when one has
 no outgoing parton

---
 graphicle/select.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index 742ad08..2d925ea 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -1025,13 +1025,14 @@ def color_singlets(
     triplets. This functionality *may* be added in future.
     """
     hard_mask = status.hard_mask["outgoing"]
-    masks = map(op.and_, it.repeat(hard_mask), leaves.values())
-    colors_ = map(it.compress, it.repeat(color), masks)
-    colors = tuple(it.chain.from_iterable(colors_))
-    colored_mask = tuple(map(op.ne, it.repeat((0, 0)), colors))
-    colored_only = it.compress(colors, colored_mask)
-    keys = tuple(it.compress(leaves.keys(), colored_mask))
-    named_colors = tuple(zip(keys, colored_only))
+    # a leaf may hold no outgoing parton, or several
+    named_colors = tuple(
+        (key, element)
+        for key, leaf in leaves.items()
+        for element in it.compress(color, hard_mask & leaf)
+        if element != (0, 0)
+    )
+    keys = tuple(map(op.itemgetter(0), named_colors))
     combos = it.chain(
         it.combinations(named_colors, 2), it.combinations(named_colors, 3)
     )
-- 
2.43.0


From 77841677d14d365784b044350f1caf2335b57a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:07 +0000
Subject: [PATCH 30/36] fix: from_spherical_uniform covers the whole sphere
 evenly

---
 graphicle/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index e58dee7..63970de 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1412,7 +1412,7 @@ class MomentumArray(base.ArrayBase):
         theta_polar = p_mag * np.exp(
             1.0j * np.arccos(1.0 - 2.0 * rng.random(size, dtype=np.float64))
         )
-        phi_polar = theta_polar.real * np.exp(
+        phi_polar = theta_polar.imag * np.exp(
             1.0j * rng.uniform(-np.pi, np.pi, size)
         )
         return cls(
@@ -1420,7 +1420,7 @@ class MomentumArray(base.ArrayBase):
                 [
                     phi_polar.real.reshape(-1, 1),
                     phi_polar.imag.reshape(-1, 1),
-                    theta_polar.imag.reshape(-1, 1),
+                    theta_polar.real.reshape(-1, 1),
                     energy.reshape(-1, 1),
                 ]
             )
-- 
2.43.0


From 667840ba15e24fa31b08825f2c738fc72a812265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:39 +0000
Subject: [PATCH 31/36] fix: inclination gradient of the spherocity uses x * z

---
 graphicle/calculate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index d35786e..96228cb 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -683,7 +683,7 @@ def _spherocity_with_grad(
             - sin_2theta * ((y * z * cos_phi) - (x * z * sin_phi))
         )
         grad_theta_sum += cross_norm_recip * (
-            -2.0 * cos_2theta * ((x * y * cos_phi) + (y * z * sin_phi))
+            -2.0 * cos_2theta * ((x * z * cos_phi) + (y * z * sin_phi))
             - 0.5
             * sin_2theta
             * (
-- 
2.43.0


From 08388ac5f94b1396361a934c0573830bc8ddb622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:39 +0000
Subject: [PATCH 32/36] fix: thrust and spherocity accept particles at rest or
 along the axis

---
 graphicle/calculate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index 96228cb..2967665 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -432,6 +432,8 @@ def aggregate_momenta(
 @nb.njit("float64(float64, float64, float64)", cache=True)
 def _three_norm(x: float, y: float, z: float) -> float:
     max_component = max(abs(x), abs(y), abs(z))
+    if max_component == 0.0:
+        return 0.0
     max_recip = 1.0 / max_component
     x *= max_recip
     y *= max_recip
@@ -675,6 +677,8 @@ def _spherocity_with_grad(
         cross_norm_sum += cross_norm
         # accumulate gradient contributions
         x_sq, y_sq = x * x, y * y
+        if cross_norm == 0.0:  # along the axis, gradient undefined
+            continue
         cross_norm_recip = 1.0 / cross_norm
         grad_phi_sum += cross_norm_recip * (
             0.5
-- 
2.43.0


From 4741b58208ef712962c3e4d07ab96a5d3addb903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:39 +0000
Subject: [PATCH 33/36] fix: c_parameter accepts particles at rest

---
 graphicle/calculate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index 2967665..22fab20 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -810,6 +810,8 @@ def _c_parameter(momenta: base.VoidVector) -> float:
             x_j, y_j, z_j = pmu_j["x"], pmu_j["y"], pmu_j["z"]
             norm_j = _three_norm(x_j, y_j, z_j)
             norm_prod = norm_i * norm_j
+            if norm_prod == 0.0:
+                continue
             i_dot_j = (x_i * x_j) + (y_i * y_j) + (z_i * z_j)
             output += 2.0 * (norm_prod - (i_dot_j * i_dot_j / norm_prod))
     return 1.5 * output / (norm_sum * norm_sum)
-- 
2.43.0


From a3d767b77d51a43fe500c9e4b4d3bd0f61f0e39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:34 +0000
Subject: [PATCH 34/36] fix: reductions of data arrays over axis -1 return one
 number per row, as over axis 1

---
 graphicle/data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 63970de..50fe4d5 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -230,7 +230,10 @@ def _array_ufunc(
         return MaskArray(result)
     else:
         # one return value
-        if not result.shape or kwargs.get("axis", None) == 1:
+        axis = kwargs.get("axis", None)
+        if isinstance(axis, nm.Integral) and axis < 0:
+            axis += instance._data.ndim  # type: ignore
+        if not result.shape or axis == 1:
             return result
         return class_type(result)
 
-- 
2.43.0


From e8a4912d9b5a303bbae992de9b41153470b15bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:24 +0000
Subject: [PATCH 35/36] fix: printed graphs which have edges only show them

---
 graphicle/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index 50fe4d5..fa8e8dd 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2778,6 +2778,8 @@ class Graphicle:
         headers, rows = self.particles._table_list()
         if not self.adj:
             return _table_repr(headers, rows, num_rows, html)
+        if not headers:
+            rows = it.repeat((), num_rows)
         headers = headers + ("src", "dst")
         rows = map(lambda row, edge: row + edge, rows, self.adj)
         return _table_repr(headers, rows, num_rows, html)
-- 
2.43.0


From 06576c3d5c0db75cb7ebe84a87e7b1cfac3608b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:54 +0000
Subject: [PATCH 36/36] fix: printed mask groups show names with brackets

---
 graphicle/data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index fa8e8dd..61c9a7e 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -60,6 +60,7 @@ from deprecation import deprecated
 from mcpid.lookup import PdgRecords
 from numpy.lib import recfunctions as rfn
 from rich.console import Console
+from rich.text import Text
 from rich.tree import Tree
 from scipy.sparse import coo_array, csr_array
 from tabulate import tabulate
@@ -758,7 +759,8 @@ class MaskGroup(base.MaskBase, ty.MutableMapping[str, MaskGeneric]):
         def make_tree(mask: "MaskGroup", branch: Tree) -> Tree:
             branch_copy = deepcopy(branch)
             for key, val in mask.items():
-                sub_branch = Tree(f"{key}")
+                # as text: brackets and colons in names are no markup
+                sub_branch = Tree(Text(f"{key}"))
                 if isinstance(val, MaskGroup):
                     sub_branch = sub_branch.add(make_tree(val, sub_branch))
                 branch_copy.add(sub_branch)
-- 
2.43.0

