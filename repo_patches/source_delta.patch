From d89c5088d4e17f492964491412f91dccfc1ca649 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:00:56 +0000
Subject: [PATCH 01/15] fix: query trees whose root is a leaf (data.len() <=
 leafsize) instead of panicking

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index cfe4ef2..1799656 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -110,10 +110,12 @@ impl<T: Float, const D: usize> Node<T, D> {
         }
     }
 
+    /// The point used to seed a search: the point of a stem, or any point of a
+    /// leaf (the root is a leaf whenever the data fits in a single leaf).
     fn stem<'a>(&'a self) -> &'a Point<T, D> {
         match self {
             Node::Stem { point, .. } => point,
-            _ => unreachable!("only to be used on stems"),
+            Node::Leaf { points, .. } => &points[0],
         }
     }
 
-- 
2.43.0


From 054299febf099118091699b55b8008e2286f1dcb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:00:56 +0000
Subject: [PATCH 02/15] fix: size hint underflow (overflow panic or endless
 recursion) for leafsize 0

---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1799656..a5f59d6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -822,8 +822,9 @@ mod tests {
 
 fn size_of_tree(datalen: usize, leafsize: usize) -> usize {
     if likely(datalen > leafsize) {
-        let left = datalen / 2 - 1;
-        let right = datalen / 2 - datalen % 2;
+        // saturating: a single point is split when leafsize is zero
+        let left = (datalen / 2).saturating_sub(1);
+        let right = (datalen / 2).saturating_sub(datalen % 2);
         1 + size_of_tree(left, leafsize) + size_of_tree(right, leafsize)
     } else if datalen == 0 {
         0
-- 
2.43.0


From 95160b9562607c107b4dd1e37599393dd029f4e4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:00:56 +0000
Subject: [PATCH 03/15] fix: reject NaN data before the build compares it
 (undefined behaviour, abort in debug builds)

---
 src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a5f59d6..3a70839 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -171,6 +171,9 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
                 data_len, leafsize,
             ))));
 
+            // Ensure we've checked data before comparing any of it
+            unsafe { handle.join().unwrap_unchecked()? };
+
             // Run recursive build
             Tree::<'t, T, D>::build_nodes_parallel::<FIRST, true>(
                 vec_ref,
@@ -248,9 +251,6 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
             };
             let root_node = unsafe { nodes.pop().unwrap_unchecked() };
 
-            // Ensure we've checked data before returning
-            unsafe { handle.join().unwrap_unchecked()? };
-
             let start = input.as_ptr() as *const [NotNan<T>; D];
 
             Ok(Tree {
@@ -491,6 +491,9 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
             let initial_vec_ref = timer.elapsed().as_nanos();
             let mut nodes = Vec::with_capacity(size_of_tree(data_len, leafsize));
 
+            // ensure we've checked data before comparing any of it
+            handle.join().unwrap()?;
+
             // Run recursive build
             Tree::<'t, T, D>::build_nodes::<FIRST, true>(
                 vec_ref,
@@ -560,9 +563,6 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
 
             let root_node: Node<T, D> = nodes.pop().expect("root node should exist");
 
-            // ensure we've checked data before returning
-            handle.join().unwrap()?;
-
             let start = input.as_ptr() as *const [NotNan<T>; D];
 
             Ok(Tree {
-- 
2.43.0


From 4b6d63b28f758351b87ec49afe073ed66844447c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:00:56 +0000
Subject: [PATCH 04/15] fix: stack overflow building trees of >=100_000 points
 with heavily duplicated coordinates

---
 src/moms.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/moms.rs b/src/moms.rs
index 90295f0..f37e106 100644
--- a/src/moms.rs
+++ b/src/moms.rs
@@ -296,7 +296,10 @@ pub fn moms_seq<T: Float, const D: usize>(
         right_timer.elapsed().as_micros()
     );
 
-    let (left, remainder) = slice.split_at_mut(left);
+    // Any of the elements equal to the approximate median is a valid split. Use the one closest to
+    // the middle so that duplicated values do not all end up on one side (and overflow the stack).
+    let split = (slice.len() / 2).clamp(left, left + equal - 1);
+    let (left, remainder) = slice.split_at_mut(split);
     let (approx_median, right) = remainder.split_first_mut().unwrap();
 
     (left, approx_median, right)
-- 
2.43.0


From eec8eb1a0b3f67b8b8d140270aa5196ab985e88e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:00:56 +0000
Subject: [PATCH 05/15] fix: uninitialized results from the batch k-nearest
 queries when k exceeds the number of points

---
 src/query_k/parallel.rs      | 3 +++
 src/query_k/parallel_axis.rs | 3 +++
 src/query_k/parallel_with.rs | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/query_k/parallel.rs b/src/query_k/parallel.rs
index 25bb3e5..51c5f6f 100644
--- a/src/query_k/parallel.rs
+++ b/src/query_k/parallel.rs
@@ -19,6 +19,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
     ) -> FnntwResult<QueryKResult<'t, T, D>, T> {
         use rayon::prelude::{IndexedParallelIterator, IntoParallelIterator, ParallelIterator};
 
+        // There are at most data.len() neighbors per query, as in query_nearest_k
+        let k = k.min(self.data.len());
+
         #[cfg(feature = "timing")]
         let alloc_timer = std::time::Instant::now();
 
diff --git a/src/query_k/parallel_axis.rs b/src/query_k/parallel_axis.rs
index 781ff13..5df2c9a 100644
--- a/src/query_k/parallel_axis.rs
+++ b/src/query_k/parallel_axis.rs
@@ -22,6 +22,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
     ) -> FnntwResult<QueryKAxisResult<'t, T, D>, T> {
         use rayon::prelude::{IndexedParallelIterator, IntoParallelIterator, ParallelIterator};
 
+        // There are at most data.len() neighbors per query, as in query_nearest_k
+        let k = k.min(self.data.len());
+
         if axis >= D {
             return Err(FnntwError::InvalidAxis);
         }
diff --git a/src/query_k/parallel_with.rs b/src/query_k/parallel_with.rs
index 4822629..b6ec5e8 100644
--- a/src/query_k/parallel_with.rs
+++ b/src/query_k/parallel_with.rs
@@ -18,6 +18,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         k: usize,
     ) -> FnntwResult<QueryKResult<'t, T, D>, T> {
         use rayon::prelude::{IndexedParallelIterator, IntoParallelIterator, ParallelIterator};
+
+        // There are at most data.len() neighbors per query, as in query_nearest_k
+        let k = k.min(self.data.len());
         use sync_unsafe_cell::SyncUnsafeCell;
 
         #[cfg(feature = "timing")]
-- 
2.43.0


From d0ab598f70d93d110c9eb7454e1898c0b6e20911 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 06/15] fix: k-nearest queries with k = 0 dereference an empty
 heap

---
 src/query_k.rs               |  5 +++++
 src/query_k/parallel.rs      | 10 ++++++++++
 src/query_k/parallel_axis.rs | 10 ++++++++++
 src/query_k/parallel_with.rs | 10 ++++++++++
 4 files changed, 35 insertions(+)

diff --git a/src/query_k.rs b/src/query_k.rs
index ea50d65..d65542f 100644
--- a/src/query_k.rs
+++ b/src/query_k.rs
@@ -25,6 +25,11 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         // Check for valid query point
         let query: &[NotNan<T>; D] = check_point_return(query)?;
 
+        // No neighbors requested
+        if k == 0 {
+            return Ok(Default::default());
+        }
+
         if let Some(ref boxsize) = self.boxsize {
             // Periodic query
             Ok(self.query_nearest_k_periodic(query, k, boxsize))
diff --git a/src/query_k/parallel.rs b/src/query_k/parallel.rs
index 51c5f6f..7533944 100644
--- a/src/query_k/parallel.rs
+++ b/src/query_k/parallel.rs
@@ -42,6 +42,11 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
                     // Check for valid query point
                     let query: &[NotNan<T>; D] = check_point_return(query)?;
 
+                    // No neighbors requested
+                    if k == 0 {
+                        return Ok(());
+                    }
+
                     let (mut container, mut point_vec) = (
                         Container::new(k.min(self.data.len())),
                         Vec::with_capacity(2 * self.height_hint),
@@ -68,6 +73,11 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
                     // Check for valid query point
                     let query: &[NotNan<T>; D] = check_point_return(query)?;
 
+                    // No neighbors requested
+                    if k == 0 {
+                        return Ok(());
+                    }
+
                     let (mut container, mut point_vec) = (
                         Container::new(k.min(self.data.len())),
                         Vec::with_capacity(2 * self.height_hint),
diff --git a/src/query_k/parallel_axis.rs b/src/query_k/parallel_axis.rs
index 5df2c9a..4939f67 100644
--- a/src/query_k/parallel_axis.rs
+++ b/src/query_k/parallel_axis.rs
@@ -44,6 +44,11 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
                     // Check for valid query point
                     let query: &[NotNan<T>; D] = check_point_return(query)?;
 
+                    // No neighbors requested
+                    if k == 0 {
+                        return Ok(());
+                    }
+
                     let (mut container, mut point_vec) = (
                         ContainerAxis::new(k.min(self.data.len())),
                         Vec::with_capacity(2 * self.height_hint),
@@ -73,6 +78,11 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
                     // Check for valid query point
                     let query: &[NotNan<T>; D] = check_point_return(query)?;
 
+                    // No neighbors requested
+                    if k == 0 {
+                        return Ok(());
+                    }
+
                     let (mut container, mut point_vec) = (
                         ContainerAxis::new(k.min(self.data.len())),
                         Vec::with_capacity(2 * self.height_hint),
diff --git a/src/query_k/parallel_with.rs b/src/query_k/parallel_with.rs
index b6ec5e8..47db016 100644
--- a/src/query_k/parallel_with.rs
+++ b/src/query_k/parallel_with.rs
@@ -47,6 +47,11 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
                     // Check for valid query point
                     let query: &[NotNan<T>; D] = check_point_return(query)?;
 
+                    // No neighbors requested
+                    if k == 0 {
+                        return Ok(());
+                    }
+
                     // Get pre-allocated buffers if available
                     let (ref mut container, ref mut point_vec) =
                         unsafe { &mut *tx_rx_vec[rayon::current_thread_index().unwrap()].get() };
@@ -72,6 +77,11 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
                     // Check for valid query point
                     let query: &[NotNan<T>; D] = check_point_return(query)?;
 
+                    // No neighbors requested
+                    if k == 0 {
+                        return Ok(());
+                    }
+
                     // let (mut container, mut point_vec) =
                     //     (Container::new(k), Vec::with_capacity(self.height_hint));
 
-- 
2.43.0


From 4fa94002d15aae7ef9f0d6e1d6bfa8556bb88991 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:01:46 +0000
Subject: [PATCH 07/15] fix: pyfnntw.Treef64 raises ValueError for invalid
 data, as Treef32 does, instead of panicking

---
 pyfnntw/src/lib.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pyfnntw/src/lib.rs b/pyfnntw/src/lib.rs
index c7c9526..e8bdae2 100644
--- a/pyfnntw/src/lib.rs
+++ b/pyfnntw/src/lib.rs
@@ -226,10 +226,9 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                                 Box<dyn std::error::Error>,
                             > {
                                 let tree = if let Some(psl) = par_split_level {
-                                    FNNTWTree::<'_, f64, 2>::new_parallel(data, leafsize, psl)
-                                        .unwrap()
+                                    FNNTWTree::<'_, f64, 2>::new_parallel(data, leafsize, psl)?
                                 } else {
-                                    FNNTWTree::<'_, f64, 2>::new(data, leafsize).unwrap()
+                                    FNNTWTree::<'_, f64, 2>::new(data, leafsize)?
                                 };
                                 if let Some(boxsize) = boxsize {
                                     let boxsize: [f64; 2] = boxsize.as_slice()?.try_into()?;
@@ -262,10 +261,9 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                                 Box<dyn std::error::Error>,
                             > {
                                 let tree = if let Some(psl) = par_split_level {
-                                    FNNTWTree::<'_, f64, 3>::new_parallel(data, leafsize, psl)
-                                        .unwrap()
+                                    FNNTWTree::<'_, f64, 3>::new_parallel(data, leafsize, psl)?
                                 } else {
-                                    FNNTWTree::<'_, f64, 3>::new(data, leafsize).unwrap()
+                                    FNNTWTree::<'_, f64, 3>::new(data, leafsize)?
                                 };
                                 if let Some(boxsize) = boxsize {
                                     let boxsize: [f64; 3] = boxsize.as_slice()?.try_into()?;
-- 
2.43.0


From 08082a605e826bde16b27fe3e98196a2aff08754 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:01:46 +0000
Subject: [PATCH 08/15] fix: pyfnntw nearest query raises ValueError for
 nan/inf queries instead of panicking

---
 pyfnntw/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyfnntw/src/lib.rs b/pyfnntw/src/lib.rs
index e8bdae2..4abb705 100644
--- a/pyfnntw/src/lib.rs
+++ b/pyfnntw/src/lib.rs
@@ -484,6 +484,10 @@ macro_rules! tree_impl {
                     let query_size = query.len();
                     let mut distances = Vec::with_capacity(query_size);
                     let mut indices = Vec::with_capacity(query_size);
+                    // Invalid queries are rejected first, so that the query below cannot fail
+                    if query.iter().flatten().any(|x| !x.is_finite()) {
+                        return Err(PyValueError::new_err("query failed: query data contains nan or inf"));
+                    }
                     query
                         .into_par_iter()
                         .map_with(kdtree, |t, q| {
-- 
2.43.0


From d13164fa6a866668b5a359c04f974be11c4b2dd1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:01:56 +0000
Subject: [PATCH 09/15] fix: pyfnntw out-of-bounds reads when k exceeds the
 number of data points

---
 pyfnntw/src/lib.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyfnntw/src/lib.rs b/pyfnntw/src/lib.rs
index 4abb705..adbcbeb 100644
--- a/pyfnntw/src/lib.rs
+++ b/pyfnntw/src/lib.rs
@@ -137,7 +137,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
             axis: Option<usize>,
         ) -> PyResult<(PyObject, PyObject)> {
             if let Some(axis) = axis {
-                let k = k.unwrap_or(1);
+                let k = k.unwrap_or(1).min(slf.0.len());
                 let (axis, nonaxis) = slf.0.query_k_axis(query.as_array(), k, axis)?;
                 let distances =
                     unsafe { Array2::from_shape_vec_unchecked((query.shape()[0], k), axis) };
@@ -157,7 +157,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         indices.into_pyarray(slf.py()).into(),
                     ))
                 } else {
-                    let k = k.unwrap();
+                    let k = k.unwrap().min(slf.0.len());
                     let (distances, indices) = slf.0.query_k(query.as_array(), k)?;
                     // SAFETY: the shape has been checked aldready
                     let distances = unsafe {
@@ -323,7 +323,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
             // }
 
             if let Some(axis) = axis {
-                let k = k.unwrap_or(1);
+                let k = k.unwrap_or(1).min(slf.0.len());
                 let (axis, nonaxis) = slf.0.query_k_axis(query.as_array(), k, axis)?;
                 let distances =
                     unsafe { Array2::from_shape_vec_unchecked((query.shape()[0], k), axis) };
@@ -343,7 +343,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         indices.into_pyarray(slf.py()).into(),
                     ))
                 } else {
-                    let k = k.unwrap();
+                    let k = k.unwrap().min(slf.0.len());
                     let (distances, indices) = slf.0.query_k(query.as_array(), k)?;
                     // SAFETY: the shape has been checked aldready
                     let distances = unsafe {
@@ -450,6 +450,8 @@ struct Tree3<'a, T: Float> {
 // }
 
 trait FNTree<T: Float> {
+    /// The number of data points, and so of neighbors a query can have.
+    fn len(&self) -> usize;
     fn query(&self, query: ArrayView2<T>) -> PyResult<(Vec<T>, Vec<u64>)>;
     fn query_k(&self, query: ArrayView2<T>, k: usize) -> PyResult<(Vec<T>, Vec<u64>)>;
     fn query_k_axis(
@@ -464,6 +466,10 @@ macro_rules! tree_impl {
     ($float:ty, $dim:literal) => {
         concat_idents::concat_idents!(tree = Tree, $dim {
             impl<'a> FNTree<$float> for tree<'a, $float> {
+                fn len(&self) -> usize {
+                    self.borrow_tree().get_data().len()
+                }
+
                 fn query(&self, query: ArrayView2<$float>) -> PyResult<(Vec<$float>, Vec<u64>)> {
                     // Check dimensions of data
                     let dims: [usize; 2] = query
-- 
2.43.0


From ff621032fa28e94a2a30b82e9e2bff0d31a41c44 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:02:29 +0000
Subject: [PATCH 10/15] fix: pyfnntw trees used the data array after python
 freed it

---
 pyfnntw/src/lib.rs | 50 +++++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/pyfnntw/src/lib.rs b/pyfnntw/src/lib.rs
index adbcbeb..56f49e3 100644
--- a/pyfnntw/src/lib.rs
+++ b/pyfnntw/src/lib.rs
@@ -15,9 +15,17 @@ use rayon::prelude::*;
 #[pymodule]
 fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
     #[pyclass]
-    struct Treef32(Box<dyn FNTree<f32> + Send + Sync + 'static>);
+    struct Treef32(
+        Box<dyn FNTree<f32> + Send + Sync + 'static>,
+        // Keeps the array the tree refers to alive
+        Py<PyArray2<f32>>,
+    );
     #[pyclass]
-    struct Treef64(Box<dyn FNTree<f64> + Send + Sync + 'static>);
+    struct Treef64(
+        Box<dyn FNTree<f64> + Send + Sync + 'static>,
+        // Keeps the array the tree refers to alive
+        Py<PyArray2<f64>>,
+    );
 
     #[pymethods]
     impl Treef32 {
@@ -45,6 +53,9 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                 }
             }
 
+            // The tree refers to this array, so it must not be freed before the tree is
+            let owner = PyArray2::to_owned(&data);
+
             // Check dimensions of data
             let dims: [usize; 2] = data
                 .shape()
@@ -54,9 +65,9 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
             // Check dimensionality is as expected
             match dims[1] {
                 2 => {
-                    // SAFETY: this data is owned by python and so the reference will remain valid for longer than this scope.
-                    // Note that it is still very possible to use-after-free but there's not much we can do about it without making
-                    // a copy of the data
+                    // SAFETY: this data is owned by python and is kept alive by `owner` for as long as the tree lives.
+                    // Note that it is still possible to modify the data after the tree is built but there's not much we
+                    // can do about it without making a copy of the data
                     let data: &[[f32; 2]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f32, 2>(
                             data.as_array().as_slice().unwrap(),
@@ -86,12 +97,12 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         .try_build()
                         .map_err(|e| PyValueError::new_err(format!("failed to build tree: {e}")))?;
 
-                    Ok(Treef32(Box::new(tree)))
+                    Ok(Treef32(Box::new(tree), owner))
                 }
                 3 => {
-                    // SAFETY: this data is owned by python and so the reference will remain valid for longer than this scope.
-                    // Note that it is still very possible to use-after-free but there's not much we can do about it without making
-                    // a copy of the data
+                    // SAFETY: this data is owned by python and is kept alive by `owner` for as long as the tree lives.
+                    // Note that it is still possible to modify the data after the tree is built but there's not much we
+                    // can do about it without making a copy of the data
                     let data: &[[f32; 3]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f32, 3>(
                             data.as_array().as_slice().unwrap(),
@@ -120,7 +131,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         }
                         .try_build()
                         .map_err(|e| PyValueError::new_err(format!("failed to build tree: {e}")))?;
-                    Ok(Treef32(Box::new(tree)))
+                    Ok(Treef32(Box::new(tree), owner))
                 }
                 _ => {
                     return Err(PyErr::new::<exceptions::PyTypeError, _>(
@@ -200,6 +211,9 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                 }
             }
 
+            // The tree refers to this array, so it must not be freed before the tree is
+            let owner = PyArray2::to_owned(&data);
+
             // Check dimensions of data
             let dims: [usize; 2] = data
                 .shape()
@@ -209,9 +223,9 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
             // Check dimensionality is as expected
             match dims[1] {
                 2 => {
-                    // SAFETY: this data is owned by python and so the reference will remain valid for longer than this scope.
-                    // Note that it is still very possible to use-after-free but there's not much we can do about it without making
-                    // a copy of the data
+                    // SAFETY: this data is owned by python and is kept alive by `owner` for as long as the tree lives.
+                    // Note that it is still possible to modify the data after the tree is built but there's not much we
+                    // can do about it without making a copy of the data
                     let data: &[[f64; 2]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f64, 2>(
                             data.as_array().as_slice().unwrap(),
@@ -241,12 +255,12 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         .try_build()
                         .map_err(|e| PyValueError::new_err(format!("failed to build tree: {e}")))?;
 
-                    Ok(Treef64(Box::new(tree)))
+                    Ok(Treef64(Box::new(tree), owner))
                 }
                 3 => {
-                    // SAFETY: this data is owned by python and so the reference will remain valid for longer than this scope.
-                    // Note that it is still very possible to use-after-free but there's not much we can do about it without making
-                    // a copy of the data
+                    // SAFETY: this data is owned by python and is kept alive by `owner` for as long as the tree lives.
+                    // Note that it is still possible to modify the data after the tree is built but there's not much we
+                    // can do about it without making a copy of the data
                     let data: &[[f64; 3]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f64, 3>(
                             data.as_array().as_slice().unwrap(),
@@ -276,7 +290,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         .try_build()
                         .map_err(|e| PyValueError::new_err(format!("failed to build tree: {e}")))?;
 
-                    Ok(Treef64(Box::new(tree)))
+                    Ok(Treef64(Box::new(tree), owner))
                 }
                 _ => {
                     return Err(PyErr::new::<exceptions::PyTypeError, _>(
-- 
2.43.0


From f9f22c9e4d11347205c4924a2c9831eb7835923e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:02:31 +0000
Subject: [PATCH 11/15] fix: pyfnntw raises ValueError for non-contiguous
 arrays instead of panicking

---
 pyfnntw/src/lib.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pyfnntw/src/lib.rs b/pyfnntw/src/lib.rs
index 56f49e3..9e018b3 100644
--- a/pyfnntw/src/lib.rs
+++ b/pyfnntw/src/lib.rs
@@ -70,7 +70,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                     // can do about it without making a copy of the data
                     let data: &[[f32; 2]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f32, 2>(
-                            data.as_array().as_slice().unwrap(),
+                            data.as_array().as_slice().ok_or_else(not_contiguous)?,
                         ))
                     };
 
@@ -105,7 +105,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                     // can do about it without making a copy of the data
                     let data: &[[f32; 3]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f32, 3>(
-                            data.as_array().as_slice().unwrap(),
+                            data.as_array().as_slice().ok_or_else(not_contiguous)?,
                         ))
                     };
 
@@ -228,7 +228,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                     // can do about it without making a copy of the data
                     let data: &[[f64; 2]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f64, 2>(
-                            data.as_array().as_slice().unwrap(),
+                            data.as_array().as_slice().ok_or_else(not_contiguous)?,
                         ))
                     };
 
@@ -263,7 +263,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                     // can do about it without making a copy of the data
                     let data: &[[f64; 3]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f64, 3>(
-                            data.as_array().as_slice().unwrap(),
+                            data.as_array().as_slice().ok_or_else(not_contiguous)?,
                         ))
                     };
 
@@ -463,6 +463,10 @@ struct Tree3<'a, T: Float> {
 //     }
 // }
 
+fn not_contiguous() -> PyErr {
+    PyValueError::new_err("array must be C-contiguous")
+}
+
 trait FNTree<T: Float> {
     /// The number of data points, and so of neighbors a query can have.
     fn len(&self) -> usize;
@@ -498,7 +502,10 @@ macro_rules! tree_impl {
                         ));
                     }
 
-                    let query: &[[$float; $dim]] = slice_as_chunks::<$float, $dim>(query.as_slice().unwrap());
+                    let query: &[[$float; $dim]] = slice_as_chunks::<$float, $dim>(query
+                        .as_slice()
+                        .ok_or_else(not_contiguous)?
+                    );
 
                     let kdtree = self.borrow_tree();
                     let query_size = query.len();
@@ -538,7 +545,7 @@ macro_rules! tree_impl {
                     // Transform slice of floats into slice of arrays
                     let query: &[[$float; $dim]] = slice_as_chunks::<$float, $dim>(query
                         .as_slice()
-                        .unwrap()
+                        .ok_or_else(not_contiguous)?
                     );
 
                     {
@@ -619,7 +626,7 @@ macro_rules! tree_impl {
                     // Transform slice of floats into slice of arrays
                     let query: &[[$float; $dim]] = slice_as_chunks::<$float, $dim>(query
                         .as_slice()
-                        .unwrap()
+                        .ok_or_else(not_contiguous)?
                     );
 
                     self.borrow_tree().query_nearest_k_parallel_axis(query, k, axis).map_err(|e| {
-- 
2.43.0


From 5c07e70d8df344a3def99c9f3799f6e3b8e5f437 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:06:57 +0000
Subject: [PATCH 12/15] fix: stack overflow in queries that visit many subtrees

Each visited subtree nested one call deeper, so queries for which many subtrees
qualify (data equidistant from the query, large k) overflowed the stack.
---
 src/query.rs                 | 26 ++++++++++++++++++++++++--
 src/query_k.rs               | 19 +++++++++++++++++--
 src/query_k/parallel_axis.rs | 20 ++++++++++++++++++--
 3 files changed, 59 insertions(+), 6 deletions(-)

diff --git a/src/query.rs b/src/query.rs
index db1b8d2..e74ba1a 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -206,7 +206,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // Sibling is a parent (e.g. for unbalanced tree)
             Node::Stem { .. } => {
                 self.check_parent(query, stem, current_best_dist_sq, current_best_neighbor);
-                self.check_stem(
+                self.descend_stem(
                     query,
                     sibling,
                     current_best_dist_sq,
@@ -241,7 +241,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
     /// If sibling is a stem, then we need to recurse back down
 
-    fn check_stem<'i, 'o>(
+    fn descend_stem<'i, 'o>(
         &'i self,
         query: &[NotNan<T>; D],
         stem: &'i Node<T, D>,
@@ -310,6 +310,28 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             current_best_dist_sq,
             current_best_neighbor,
         );
+    }
+
+    /// Search everything below `stem`. The spaces left behind by each descent are
+    /// worked off here, so that the call depth does not grow with their number.
+    fn check_stem<'i, 'o>(
+        &'i self,
+        query: &[NotNan<T>; D],
+        stem: &'i Node<T, D>,
+        current_best_dist_sq: &'o mut T,
+        current_best_neighbor: &'o mut &'i Point<T, D>,
+        points_to_check: &'o mut Vec<(&'i usize, &'i Point<T, D>, T)>,
+    ) where
+        'i: 'o,
+        't: 'i,
+    {
+        self.descend_stem(
+            query,
+            stem,
+            current_best_dist_sq,
+            current_best_neighbor,
+            points_to_check,
+        );
 
         // Now we empty out the queue
         while let Some((sibling, parent, dist_sq_to_space)) = points_to_check.pop() {
diff --git a/src/query_k.rs b/src/query_k.rs
index d65542f..528beb9 100644
--- a/src/query_k.rs
+++ b/src/query_k.rs
@@ -220,7 +220,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // Sibling is a parent (e.g. for unbalanced tree)
             Node::Stem { .. } => {
                 self.check_parent_k(query, stem, container);
-                self.check_stem_k(query, sibling, container, points_to_check)
+                self.descend_stem_k(query, sibling, container, points_to_check)
             }
         }
     }
@@ -242,7 +242,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
     /// If sibling is a stem, then we need to recurse back down
 
-    fn check_stem_k<'i, 'o>(
+    fn descend_stem_k<'i, 'o>(
         &'i self,
         query: &'o [NotNan<T>; D],
         stem: &'i Node<T, D>,
@@ -305,6 +305,21 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
         // We are now at a leaf; check it
         self.check_leaf_k(query, current_node.iter(), container);
+    }
+
+    /// Search everything below `stem`. The spaces left behind by each descent are
+    /// worked off here, so that the call depth does not grow with their number.
+    fn check_stem_k<'i, 'o>(
+        &'i self,
+        query: &'o [NotNan<T>; D],
+        stem: &'i Node<T, D>,
+        container: &'o mut Container<'i, T, D>,
+        points_to_check: &'o mut Vec<(&'i usize, &'i Point<T, D>, T)>,
+    ) where
+        'i: 'o,
+        't: 'i,
+    {
+        self.descend_stem_k(query, stem, container, points_to_check);
 
         // Now we empty out the queue
         while let Some((sibling, parent, dist_sq_to_space)) = points_to_check.pop() {
diff --git a/src/query_k/parallel_axis.rs b/src/query_k/parallel_axis.rs
index 4939f67..bf51a32 100644
--- a/src/query_k/parallel_axis.rs
+++ b/src/query_k/parallel_axis.rs
@@ -322,7 +322,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // Sibling is a parent (e.g. for unbalanced tree)
             Node::Stem { .. } => {
                 self.check_parent_k_axis(query, stem, container, axis);
-                self.check_stem_k_axis(query, sibling, container, points_to_check, axis)
+                self.descend_stem_k_axis(query, sibling, container, points_to_check, axis)
             }
         }
     }
@@ -345,7 +345,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
     /// If sibling is a stem, then we need to recurse back down
 
-    fn check_stem_k_axis<'i, 'o>(
+    fn descend_stem_k_axis<'i, 'o>(
         &'i self,
         query: &'o [NotNan<T>; D],
         stem: &'i Node<T, D>,
@@ -405,6 +405,22 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
         // We are now at a leaf; check it
         self.check_leaf_k_axis(query, current_node.iter(), container, axis);
+    }
+
+    /// Search everything below `stem`. The spaces left behind by each descent are
+    /// worked off here, so that the call depth does not grow with their number.
+    fn check_stem_k_axis<'i, 'o>(
+        &'i self,
+        query: &'o [NotNan<T>; D],
+        stem: &'i Node<T, D>,
+        container: &'o mut ContainerAxis<'i, T, D>,
+        points_to_check: &'o mut Vec<(&'i usize, &'i Point<T, D>, T)>,
+        axis: usize,
+    ) where
+        'i: 'o,
+        't: 'i,
+    {
+        self.descend_stem_k_axis(query, stem, container, points_to_check, axis);
 
         // Now we empty out the queue
         while let Some((sibling, parent, dist_sq_to_space)) = points_to_check.pop() {
-- 
2.43.0


From 457ab288a7202f1bc2e84574d5a4baa3ad6d1674 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:59:44 +0000
Subject: [PATCH 13/15] fix: k-nearest results were left uninitialized when
 squared distances overflow

---
 src/query_k/container.rs      | 17 ++++++++++++++---
 src/query_k/container_axis.rs | 13 ++++++++++++-
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/query_k/container.rs b/src/query_k/container.rs
index 1e98e19..8fa856c 100644
--- a/src/query_k/container.rs
+++ b/src/query_k/container.rs
@@ -31,6 +31,17 @@ impl<'t, T: Float, const D: usize> Container<'t, T, D> {
         self.k_or_datalen == k_or_datalen
     }
 
+    /// Takes the candidates, closest first. When squared distances overflow fewer than
+    /// `k_or_datalen` may have been kept: the last one then stands in for the others, so
+    /// that every entry of the results is initialized.
+    fn take_sorted(&mut self) -> Vec<Candidate<'t, T, D>> {
+        let mut sorted = std::mem::take(&mut self.items).into_sorted_vec();
+        if let Some(last) = sorted.last().cloned() {
+            sorted.resize(self.k_or_datalen, last);
+        }
+        sorted
+    }
+
     // Euclidean needs access to this one
     // The caller of this function has already done a dist2 <= max_dist2 check
     pub(crate) fn push(&mut self, neighbor: (T, &'t Point<T, D>)) {
@@ -77,7 +88,7 @@ impl<'t, T: Float, const D: usize> Container<'t, T, D> {
         // let mut idx = self.items.len();
         // while let Some(Candidate((dist2, neighbor))) = self.items.pop() {
         let mut idx = 0;
-        for Candidate((mut dist2, neighbor)) in std::mem::take(&mut self.items).into_sorted_vec() {
+        for Candidate((mut dist2, neighbor)) in self.take_sorted() {
             unsafe {
                 *ptrs.0.add(idx) = process_dist2(dist2);
                 *ptrs.1.add(idx) = neighbor.index(start);
@@ -125,7 +136,7 @@ impl<'t, T: Float, const D: usize> Container<'t, T, D> {
         // let mut idx = self.items.len();
         // while let Some(Candidate((dist2, neighbor))) = self.items.pop() {
         let mut idx = 0;
-        for Candidate((mut dist2, neighbor)) in std::mem::take(&mut self.items).into_sorted_vec() {
+        for Candidate((mut dist2, neighbor)) in self.take_sorted() {
             unsafe {
                 *ptrs.0.add(idx) = process_dist2(dist2);
                 *ptrs.1.add(idx) = neighbor.index(start);
@@ -159,7 +170,7 @@ impl<'t, T: Float, const D: usize> Container<'t, T, D> {
         let iptr = indices_ptr as *mut u64;
 
         {
-            let neighbors: Vec<_> = std::mem::take(&mut self.items).into_sorted_vec();
+            let neighbors: Vec<_> = self.take_sorted();
             let mut idx = 0;
             for Candidate((dist2, _)) in &neighbors {
                 unsafe {
diff --git a/src/query_k/container_axis.rs b/src/query_k/container_axis.rs
index 2dc22ad..f78f354 100644
--- a/src/query_k/container_axis.rs
+++ b/src/query_k/container_axis.rs
@@ -31,6 +31,17 @@ impl<'t, T: Float, const D: usize> ContainerAxis<'t, T, D> {
         self.k_or_datalen == k_or_datalen
     }
 
+    /// Takes the candidates, closest first. When squared distances overflow fewer than
+    /// `k_or_datalen` may have been kept: the last one then stands in for the others, so
+    /// that every entry of the results is initialized.
+    fn take_sorted(&mut self) -> Vec<CandidateAxis<'t, T, D>> {
+        let mut sorted = std::mem::take(&mut self.items).into_sorted_vec();
+        if let Some(last) = sorted.last().cloned() {
+            sorted.resize(self.k_or_datalen, last);
+        }
+        sorted
+    }
+
     // Euclidean needs access to this one
     // The caller of this function has already done a dist2 <= max_dist2 check
     pub(crate) fn push(&mut self, neighbor: ((T, T, T), &'t Point<T, D>)) {
@@ -179,7 +190,7 @@ impl<'t, T: Float, const D: usize> ContainerAxis<'t, T, D> {
         let iptr = indices_ptr as *mut u64;
 
         {
-            let neighbors: Vec<_> = std::mem::take(&mut self.items).into_sorted_vec();
+            let neighbors: Vec<_> = self.take_sorted();
             let mut idx = 0;
             for CandidateAxis(((_d2, ax, _nonax), _p)) in &neighbors {
                 unsafe {
-- 
2.43.0


From d886e4cb1d968d52b9d7683ae9be7496d52ec2c2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 14/15] fix: -0.0 is not a negative coordinate (boxes were
 refused, periodic queries panicked in debug builds)

---
 src/lib.rs                   | 2 +-
 src/query.rs                 | 4 ++--
 src/query_k.rs               | 4 ++--
 src/query_k/parallel.rs      | 4 ++--
 src/query_k/parallel_axis.rs | 4 ++--
 src/query_k/parallel_with.rs | 4 ++--
 6 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3a70839..829e485 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -747,7 +747,7 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
 
         // Check that the data bounding box is in R_+^n
         for component in lower {
-            if component.is_sign_negative() {
+            if **component < T::zero() {
                 return Err(FnntwError::NegativeDataPeriodicQuery);
             } else if component.is_infinite() || component.is_nan() {
                 return Err(FnntwError::InvalidBoxsize);
diff --git a/src/query.rs b/src/query.rs
index e74ba1a..982ee6a 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -82,8 +82,8 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             let upper = unsafe { boxsize.get_unchecked(side) } - query_component;
 
             // !negative includes zero
-            debug_assert!(!upper.is_sign_negative());
-            debug_assert!(!query_component.is_sign_negative());
+            debug_assert!(*upper >= T::zero());
+            debug_assert!(**query_component >= T::zero());
 
             // Choose lesser of two and then square
             closest_side_dist2[side] = upper.min(*query_component).powi(2);
diff --git a/src/query_k.rs b/src/query_k.rs
index 528beb9..08393a7 100644
--- a/src/query_k.rs
+++ b/src/query_k.rs
@@ -109,8 +109,8 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             let upper = unsafe { boxsize.get_unchecked(side) } - query_component;
 
             // !negative includes zero
-            debug_assert!(!upper.is_sign_negative());
-            debug_assert!(!query_component.is_sign_negative());
+            debug_assert!(*upper >= T::zero());
+            debug_assert!(**query_component >= T::zero());
 
             // Choose lesser of two and then square
             closest_side_dist2[side] = upper.min(*query_component).powi(2);
diff --git a/src/query_k/parallel.rs b/src/query_k/parallel.rs
index 7533944..390ef46 100644
--- a/src/query_k/parallel.rs
+++ b/src/query_k/parallel.rs
@@ -166,8 +166,8 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             let upper = unsafe { boxsize.get_unchecked(side) } - query_component;
 
             // !negative includes zero
-            debug_assert!(!upper.is_sign_negative());
-            debug_assert!(!query_component.is_sign_negative());
+            debug_assert!(*upper >= T::zero());
+            debug_assert!(**query_component >= T::zero());
 
             // Choose lesser of two and then square
             closest_side_dist2[side] = upper.min(*query_component).powi(2);
diff --git a/src/query_k/parallel_axis.rs b/src/query_k/parallel_axis.rs
index bf51a32..bcf8bed 100644
--- a/src/query_k/parallel_axis.rs
+++ b/src/query_k/parallel_axis.rs
@@ -200,8 +200,8 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             let upper = unsafe { boxsize.get_unchecked(side) } - query_component;
 
             // !negative includes zero
-            debug_assert!(!upper.is_sign_negative());
-            debug_assert!(!query_component.is_sign_negative());
+            debug_assert!(*upper >= T::zero());
+            debug_assert!(**query_component >= T::zero());
 
             // Choose lesser of two and then square
             closest_side_dist2[side] = upper.min(*query_component).powi(2);
diff --git a/src/query_k/parallel_with.rs b/src/query_k/parallel_with.rs
index 47db016..22bac2e 100644
--- a/src/query_k/parallel_with.rs
+++ b/src/query_k/parallel_with.rs
@@ -181,8 +181,8 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             let upper = unsafe { boxsize.get_unchecked(side) } - query_component;
 
             // !negative includes zero
-            debug_assert!(!upper.is_sign_negative());
-            debug_assert!(!query_component.is_sign_negative());
+            debug_assert!(*upper >= T::zero());
+            debug_assert!(**query_component >= T::zero());
 
             // Choose lesser of two and then square
             closest_side_dist2[side] = upper.min(*query_component).powi(2);
-- 
2.43.0


From f6bce458821a3b713568c71882122f208a4a18df Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:09:48 +0000
Subject: [PATCH 15/15] fix: a single query from outside of a thread pool
 panicked in query_nearest_k_parallel_with

---
 src/query_k/parallel_with.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/query_k/parallel_with.rs b/src/query_k/parallel_with.rs
index 22bac2e..c064953 100644
--- a/src/query_k/parallel_with.rs
+++ b/src/query_k/parallel_with.rs
@@ -52,9 +52,11 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
                         return Ok(());
                     }
 
-                    // Get pre-allocated buffers if available
+                    // Get pre-allocated buffers. A caller outside of any thread pool answers
+                    // a single query itself, in which case no other thread is at work.
+                    let thread_index = rayon::current_thread_index().unwrap_or(0);
                     let (ref mut container, ref mut point_vec) =
-                        unsafe { &mut *tx_rx_vec[rayon::current_thread_index().unwrap()].get() };
+                        unsafe { &mut *tx_rx_vec[thread_index].get() };
 
                     // Periodic query
                     self.query_nearest_k_periodic_into_with(
@@ -85,10 +87,12 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
                     // let (mut container, mut point_vec) =
                     //     (Container::new(k), Vec::with_capacity(self.height_hint));
 
-                    // Get pre-allocated buffers if available
+                    // Get pre-allocated buffers. A caller outside of any thread pool answers
+                    // a single query itself, in which case no other thread is at work.
                     // let (ref tx, ref rx) = tx_rx_vec[rayon::current_thread_index().unwrap() / 4];
+                    let thread_index = rayon::current_thread_index().unwrap_or(0);
                     let (ref mut container, ref mut point_vec) =
-                        unsafe { &mut *tx_rx_vec[rayon::current_thread_index().unwrap()].get() };
+                        unsafe { &mut *tx_rx_vec[thread_index].get() };
                     // let (mut container, mut point_vec) = rx.try_recv().unwrap_or_else(|_| {
                     //     (Container::new(k), Vec::with_capacity(self.height_hint))
                     // });
-- 
2.43.0

