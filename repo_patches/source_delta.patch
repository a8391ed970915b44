From 29b36dfbd233a56e3e052b45f4a4709a3ea79f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:00 +0000
Subject: [PATCH 01/30] fix: append the right value when an array element is
 appended to its own full array

The slow path moved the old elements into the new buffer before it constructed
the new element. An argument that referred to one of the old elements was
already moved from. The new element is now constructed first.
---
 include/um2/stdlib/vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/um2/stdlib/vector.hpp b/include/um2/stdlib/vector.hpp
index 6560658..e9bc738 100644
--- a/include/um2/stdlib/vector.hpp
+++ b/include/um2/stdlib/vector.hpp
@@ -362,8 +362,9 @@ Vector<T>::emplaceBackSlowPath(Args &&... args) noexcept -> Ptr
 {
   Vector<T> temp;
   temp.allocate(recommend(size() + 1));
+  // Construct before moving the old elements, since args may refer to one of them
+  um2::construct_at(temp._begin + size(), um2::forward<Args>(args)...);
   swapBuffers(temp);
-  um2::construct_at(_end, um2::forward<Args>(args)...);
   ++_end;
   return _end;
 }
@@ -376,8 +377,9 @@ Vector<T>::pushBackSlowPath(U && value) noexcept -> Ptr
 {
   Vector<T> temp;
   temp.allocate(recommend(size() + 1));
+  // Construct before moving the old elements, since value may be one of them
+  um2::construct_at(temp._begin + size(), um2::forward<U>(value));
   swapBuffers(temp);
-  um2::construct_at(_end, um2::forward<U>(value));
   ++_end;
   return _end;
 }
-- 
2.43.0


From 88a7f737459f63f9cc5aa9af7fe2e6969b93bd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:00 +0000
Subject: [PATCH 02/30] fix: allow copying to the range just before the source

The overlap assertion looked one element past the destination, so a copy to
the storage directly in front of the source stopped the program.
---
 include/um2/stdlib/algorithm/copy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/um2/stdlib/algorithm/copy.hpp b/include/um2/stdlib/algorithm/copy.hpp
index c10ccd9..d6b4012 100644
--- a/include/um2/stdlib/algorithm/copy.hpp
+++ b/include/um2/stdlib/algorithm/copy.hpp
@@ -54,7 +54,7 @@ copy(InputIt first, InputIt last, OutputIt d_first) noexcept -> OutputIt
     // we can use memcpy.
     auto const n = static_cast<size_t>(last - first);
     ASSERT(!is_pointer_in_range(first, last, d_first));
-    ASSERT(!is_pointer_in_range(first, last, d_first + n));
+    ASSERT(n == 0 || !is_pointer_in_range(first, last, d_first + n - 1));
     return static_cast<OutputIt>(memcpy(d_first, first, n * sizeof(InT))) + n;
   } else {
     return copyLoop(first, last, d_first);
-- 
2.43.0


From 2d5d634678f1cf3f7d25803e0c5736e2baabb6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:15 +0000
Subject: [PATCH 03/30] fix: allow assigning, comparing and appending empty
 strings

Assigning or comparing an empty string goes through a view of length zero, and
appending an empty text passes length zero. Assertions rejected both.
---
 include/um2/stdlib/string.hpp      | 2 +-
 include/um2/stdlib/string_view.hpp | 1 -
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/um2/stdlib/string.hpp b/include/um2/stdlib/string.hpp
index fb91d59..8a3f089 100644
--- a/include/um2/stdlib/string.hpp
+++ b/include/um2/stdlib/string.hpp
@@ -853,7 +853,7 @@ HOSTDEV inline auto
 String::append(char const * s, Int n) -> String &
 {
   ASSERT(s != nullptr);
-  ASSERT(n > 0);
+  ASSERT(n >= 0);
   Int const cap = capacity(); // not including null terminator
   Int sz = size();
   Int const remaining = cap - sz;
diff --git a/include/um2/stdlib/string_view.hpp b/include/um2/stdlib/string_view.hpp
index 95bacd8..c8836f1 100644
--- a/include/um2/stdlib/string_view.hpp
+++ b/include/um2/stdlib/string_view.hpp
@@ -228,7 +228,6 @@ HOSTDEV constexpr StringView::StringView(char const * s, uint64_t size) noexcept
       _size(size)
 {
   ASSERT(s != nullptr);
-  ASSERT(size > 0);
 }
 
 HOSTDEV constexpr StringView::StringView(char const * s) noexcept
-- 
2.43.0


From d8a532d150df735dbcbd799b631025f067776172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:15 +0000
Subject: [PATCH 04/30] fix: hold the whole text when large floating-point
 numbers become strings

The decimal text of numbers of 1e25 and above does not fit in 32 characters, so
the string was filled from beyond the end of the buffer.
---
 include/um2/stdlib/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/um2/stdlib/string.hpp b/include/um2/stdlib/string.hpp
index 8a3f089..1e1d67c 100644
--- a/include/um2/stdlib/string.hpp
+++ b/include/um2/stdlib/string.hpp
@@ -673,7 +673,7 @@ inline String::String(int64_t t) noexcept
 template <>
 inline String::String(float t) noexcept
 {
-  char buf[32];
+  char buf[64]; // up to 39 integer digits, sign, point, 6 decimals, and null
   auto const d = static_cast<double>(t);
   int32_t const len = snprintf(nullptr, 0, "%f", d);
   int32_t const written = snprintf(buf, sizeof(buf), "%f", d);
@@ -684,7 +684,7 @@ inline String::String(float t) noexcept
 template <>
 inline String::String(double t) noexcept
 {
-  char buf[32];
+  char buf[320]; // up to 309 integer digits, sign, point, 6 decimals, and null
   int32_t const len = snprintf(nullptr, 0, "%f", t);
   int32_t const written = snprintf(buf, sizeof(buf), "%f", t);
   ASSERT(written == len);
-- 
2.43.0


From cd71d4d37e5b7f36f79dd675ade79d0ed43ccc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:40 +0000
Subject: [PATCH 05/30] fix: loop over the columns of the right factor in
 fixed-size matrix products

---
 include/um2/math/mat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/um2/math/mat.hpp b/include/um2/math/mat.hpp
index 7f00676..18693cf 100644
--- a/include/um2/math/mat.hpp
+++ b/include/um2/math/mat.hpp
@@ -238,7 +238,7 @@ operator*(Mat<M, N, T> const & a, Mat<N, P, T> const & b) noexcept -> Mat<M, P,
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wuninitialized"
   Mat<M, P, T> result;
-  for (Int i = 0; i < N; ++i) {
+  for (Int i = 0; i < P; ++i) {
     result.col(i) = a * b.col(i);
   }
   return result;
-- 
2.43.0


From bb49d784595c32f5388290e4bbcb41286664b9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:40 +0000
Subject: [PATCH 06/30] fix: portable matmul overwrites its result instead of
 accumulating into it

---
 include/um2/math/matrix.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/um2/math/matrix.hpp b/include/um2/math/matrix.hpp
index e8b7c35..1563f6e 100644
--- a/include/um2/math/matrix.hpp
+++ b/include/um2/math/matrix.hpp
@@ -477,6 +477,7 @@ matmul(Matrix<T> & c, Matrix<T> const & a, Matrix<T> const & b)
 
   for (Int i = 0; i < a.rows(); ++i) {
     for (Int j = 0; j < b.cols(); ++j) {
+      c(i, j) = 0;
       for (Int k = 0; k < a.cols(); ++k) {
         c(i, j) += a(i, k) * b(k, j);
       }
-- 
2.43.0


From 1f0d4c320c7e077ba69d11a06b3691895480b58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:13 +0000
Subject: [PATCH 07/30] fix: find the nearest parameter of straight segments
 with uneven middle nodes

---
 include/um2/geometry/quadratic_segment.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/um2/geometry/quadratic_segment.hpp b/include/um2/geometry/quadratic_segment.hpp
index 47b58ec..91e527f 100644
--- a/include/um2/geometry/quadratic_segment.hpp
+++ b/include/um2/geometry/quadratic_segment.hpp
@@ -412,7 +412,8 @@ PURE HOSTDEV constexpr auto
 QuadraticSegment<D, T>::pointClosestTo(Point<D, T> const & p) const noexcept -> T
 {
 
-  if (isStraight(*this)) {
+  // The parameter of the line is that of the segment only if v2 is the midpoint.
+  if (isStraight(*this) && _v[2].isApprox(midpoint(_v[0], _v[1]))) {
     return LineSegment<D, T>(_v[0], _v[1]).pointClosestTo(p);
   }
 
-- 
2.43.0


From 9b821a139d1cd11d6d86a59ff555bb321e398c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:30 +0000
Subject: [PATCH 08/30] fix: report ray hits of quadratic segments from closest
 to farthest

---
 include/um2/geometry/quadratic_segment.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/um2/geometry/quadratic_segment.hpp b/include/um2/geometry/quadratic_segment.hpp
index 91e527f..5942541 100644
--- a/include/um2/geometry/quadratic_segment.hpp
+++ b/include/um2/geometry/quadratic_segment.hpp
@@ -698,6 +698,10 @@ QuadraticSegment<D, T>::intersect(Ray2<T> const ray,
       }
     }
   }
+  // The roots are ordered along the segment, which may be opposite to the ray.
+  if (hits == 2 && buffer[1] < buffer[0]) {
+    um2::swap(buffer[0], buffer[1]);
+  }
   return hits;
 }
 
-- 
2.43.0


From c6d3db31e83c6a1e4890c25a38f66769b8e85e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:19:10 +0000
Subject: [PATCH 09/30] fix: swap the remaining edge nodes when flipping
 quadratic quadrilaterals

---
 include/um2/geometry/quadratic_quadrilateral.hpp | 1 +
 include/um2/mesh/face_vertex_mesh.hpp            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/um2/geometry/quadratic_quadrilateral.hpp b/include/um2/geometry/quadratic_quadrilateral.hpp
index e2d4bab..2640bf0 100644
--- a/include/um2/geometry/quadratic_quadrilateral.hpp
+++ b/include/um2/geometry/quadratic_quadrilateral.hpp
@@ -273,6 +273,7 @@ QuadraticQuadrilateral<D, T>::flip() noexcept
 {
   um2::swap(_v[1], _v[3]);
   um2::swap(_v[4], _v[7]);
+  um2::swap(_v[5], _v[6]);
 }
 
 //==============================================================================
diff --git a/include/um2/mesh/face_vertex_mesh.hpp b/include/um2/mesh/face_vertex_mesh.hpp
index 8a35846..b7944f0 100644
--- a/include/um2/mesh/face_vertex_mesh.hpp
+++ b/include/um2/mesh/face_vertex_mesh.hpp
@@ -422,6 +422,7 @@ FaceVertexMesh<P, N>::flipFace(Int i) noexcept
   } else if constexpr (P == 2 && N == 8) {
     um2::swap(_fv[i][1], _fv[i][3]);
     um2::swap(_fv[i][4], _fv[i][7]);
+    um2::swap(_fv[i][5], _fv[i][6]);
   }
 }
 
-- 
2.43.0


From 0f831f54a6deddc159267cca195b093de9a2258d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:29:10 +0000
Subject: [PATCH 10/30] fix: make the one-cell regular grid constructor compile

---
 include/um2/mesh/regular_grid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/um2/mesh/regular_grid.hpp b/include/um2/mesh/regular_grid.hpp
index 76f2a26..68d4095 100644
--- a/include/um2/mesh/regular_grid.hpp
+++ b/include/um2/mesh/regular_grid.hpp
@@ -165,8 +165,8 @@ HOSTDEV constexpr RegularGrid<D, T>::RegularGrid(Point<D, T> const & minima,
 template <Int D, class T>
 HOSTDEV constexpr RegularGrid<D, T>::RegularGrid(
     AxisAlignedBox<D, T> const & box) noexcept
-    : _minima(box.minima),
-      _spacing(box.maxima - box.minima)
+    : _minima(box.minima()),
+      _spacing(box.extents())
 {
   for (Int i = 0; i < D; ++i) {
     _num_cells[i] = 1;
-- 
2.43.0


From c57aa7ca7fe4fdbb905960fc1fbf5f5a543a7db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:18 +0000
Subject: [PATCH 11/30] fix: order faces along a ray by their two nearest
 crossings

The second crossing started out equal to the first one, so it was never
replaced when the first listed crossing was the nearest. The key was then
the nearest crossing alone and faces could be ordered wrongly.
---
 src/mesh/face_vertex_mesh.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mesh/face_vertex_mesh.cpp b/src/mesh/face_vertex_mesh.cpp
index 58e7d88..0fccac7 100644
--- a/src/mesh/face_vertex_mesh.cpp
+++ b/src/mesh/face_vertex_mesh.cpp
@@ -558,8 +558,11 @@ sortRayMeshIntersections(Float const * RESTRICT coords,  // size >= total_hits
     Int const offset = offsets[iface];
     Int const next_offset = offsets[iface + 1];
     Float r0 = coords[offset];
-    Float r1 = coords[offset];
-    for (Int i = offset + 1; i < next_offset; ++i) {
+    Float r1 = (offset + 1 < next_offset) ? coords[offset + 1] : r0;
+    if (r1 < r0) {
+      um2::swap(r0, r1);
+    }
+    for (Int i = offset + 2; i < next_offset; ++i) {
       Float const r = coords[i];
       if (r < r0) {
         r1 = r0;
-- 
2.43.0


From 9858fa08e3916f51fbd94cf9495ff44ca6368cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:38 +0000
Subject: [PATCH 12/30] fix: move meshes to the unit square before sorting
 along the Morton curve

Coordinates were scaled but not shifted, so any mesh that does not start at
the origin failed the range assertions of the encoder (or was sorted by
wrapped codes with assertions off).
---
 src/mesh/face_vertex_mesh.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/mesh/face_vertex_mesh.cpp b/src/mesh/face_vertex_mesh.cpp
index 0fccac7..a06153b 100644
--- a/src/mesh/face_vertex_mesh.cpp
+++ b/src/mesh/face_vertex_mesh.cpp
@@ -123,16 +123,16 @@ FaceVertexMesh<P, N>::mortonSortFaces() noexcept
   _has_vf = false;
 
   // Sort the centroid of each face using the morton encoding.
-  Int const num_faces = numFaces();
-  Vector<Point2F> centroids(num_faces);
-  for (Int i = 0; i < num_faces; ++i) {
-    centroids[i] = getFace(i).centroid();
-  }
-  // We need to scale the centroids to the unit cube before we can apply
+  // We need to move and scale the centroids to the unit cube before we can apply
   // the morton encoding. Therefore we need to find the bounding box of
   // all faces.
   auto const aabb = boundingBox();
   Vec2F const inv_scale = 1 / aabb.extents();
+  Int const num_faces = numFaces();
+  Vector<Point2F> centroids(num_faces);
+  for (Int i = 0; i < num_faces; ++i) {
+    centroids[i] = getFace(i).centroid() - aabb.minima();
+  }
 
   // Get the permutation vector which sorts the centroids according to the morton
   // encoding.
@@ -150,9 +150,9 @@ FaceVertexMesh<P, N>::mortonSortVertices() noexcept
   // Invalidate vertex-face connectivity
   _has_vf = false;
 
-  // We need to scale the vertices to the unit cube before we can apply
+  // We need to move and scale the vertices to the unit cube before we can apply
   // the morton encoding.
-  auto const aabb = boundingBox();
+  auto const aabb = um2::boundingBox(_v.cbegin(), _v.cend());
   Vec2F const inv_scale = 1 / aabb.extents();
 
   // Get the permutation vector which sorts the vertices according to the morton
@@ -161,7 +161,11 @@ FaceVertexMesh<P, N>::mortonSortVertices() noexcept
   Int const num_verts = numVertices();
   Vector<Int> perm(num_verts);
   Vector<Int> inv_perm(num_verts);
-  mortonSortPermutation(_v.cbegin(), _v.cend(), perm.begin(), inv_scale);
+  Vector<Point2F> shifted(num_verts);
+  for (Int i = 0; i < num_verts; ++i) {
+    shifted[i] = _v[i] - aabb.minima();
+  }
+  mortonSortPermutation(shifted.cbegin(), shifted.cend(), perm.begin(), inv_scale);
   invertPermutation(perm.cbegin(), perm.cend(), inv_perm.begin());
 
   // Sort the vertices according to the permutation vector.
-- 
2.43.0


From 527938286ef288ffd6c08c29859b76aea0abb4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:22 +0000
Subject: [PATCH 13/30] fix: report meshes that use an edge twice in the same
 direction

Two faces on the same side of an edge overlap, but only edges used three
times were reported. A mesh made of one face listed twice has no boundary
edges at all and ran past the end of the boundary list.
---
 src/mesh/face_vertex_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/face_vertex_mesh.cpp b/src/mesh/face_vertex_mesh.cpp
index a06153b..557f6eb 100644
--- a/src/mesh/face_vertex_mesh.cpp
+++ b/src/mesh/face_vertex_mesh.cpp
@@ -377,7 +377,7 @@ checkManifoldWatertight(FaceVertexMesh<P, N> const & mesh)
   for (Int i = 0; i < edge_counts.size(); ++i) {
     auto const & edge_count = edge_counts[i];
     Int const sum = edge_count[0] + edge_count[1];
-    if (sum > 2) {
+    if (edge_count[0] > 1 || edge_count[1] > 1) {
       LOG_ERROR("Mesh has overlapping faces");
       return;
     }
-- 
2.43.0


From 1b8dddd852ab00a20c750374e8735f62172f2239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:56 +0000
Subject: [PATCH 14/30] fix: return no data for an element set that has none

The caller's vector kept whatever it held before, so values of one set could
be taken for those of another.
---
 src/mesh/polytope_soup.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index f9af604..3f2948c 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -74,9 +74,7 @@ PolytopeSoup::getElset(Int const i, String & name, Vector<Int> & ids,
   auto const n = iend - istart;
   ids.resize(n);
   um2::copy(_elset_ids.cbegin() + istart, _elset_ids.cbegin() + iend, ids.begin());
-  if (!_elset_data[i].empty()) {
-    data = _elset_data[i];
-  }
+  data = _elset_data[i];
 }
 
 void
@@ -90,9 +88,7 @@ PolytopeSoup::getElset(String const & name, Vector<Int> & ids, Vector<Float> & d
       auto const n = iend - istart;
       ids.resize(n);
       um2::copy(_elset_ids.cbegin() + istart, _elset_ids.cbegin() + iend, ids.begin());
-      if (!_elset_data[i].empty()) {
-        data = _elset_data[i];
-      }
+      data = _elset_data[i];
       return;
     }
   }
-- 
2.43.0


From 5cf2559937d4191ed2faf26e4f307ae44c39cc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:18 +0000
Subject: [PATCH 15/30] fix: allow appending a soup that has no elements

The element offsets of the appended soup were read even if there are none,
which runs past the end of an empty list.
---
 src/mesh/polytope_soup.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index 3f2948c..8cccb2a 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -269,9 +269,11 @@ PolytopeSoup::operator+=(PolytopeSoup const & other) noexcept -> PolytopeSoup &
 
   // Element offsets
   Int const last_offset = _element_offsets.empty() ? 0 : _element_offsets.back();
-  _element_offsets.resize(this_num_elems + other_num_elems + 1);
-  for (Int i = 0; i < other_num_elems + 1; ++i) {
-    _element_offsets[this_num_elems + i] = other._element_offsets[i] + last_offset;
+  if (other_num_elems > 0) {
+    _element_offsets.resize(this_num_elems + other_num_elems + 1);
+    for (Int i = 0; i < other_num_elems + 1; ++i) {
+      _element_offsets[this_num_elems + i] = other._element_offsets[i] + last_offset;
+    }
   }
 
   // Element connectivity
-- 
2.43.0


From 31281e61cdc2b5178faa86c526d068f1de45d5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:25 +0000
Subject: [PATCH 16/30] fix: copy all vertices of a soup that is not planar

The loop that copies the vertices stopped at the first one off the plane,
leaving the rest of the mesh's vertices unset after the warning.
---
 src/mesh/face_vertex_mesh.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mesh/face_vertex_mesh.cpp b/src/mesh/face_vertex_mesh.cpp
index 557f6eb..2dbfa82 100644
--- a/src/mesh/face_vertex_mesh.cpp
+++ b/src/mesh/face_vertex_mesh.cpp
@@ -71,16 +71,18 @@ FaceVertexMesh<P, N>::FaceVertexMesh(PolytopeSoup const & soup, bool validate)
   // Ensure each of the vertices has approximately the same z
   _v.resize(num_vertices);
   Float const z = soup.getVertex(0)[2];
+  bool planar = true;
   for (Int i = 0; i < num_vertices; ++i) {
     auto const & p = soup.getVertex(i);
     _v[i][0] = p[0];
     _v[i][1] = p[1];
     if (um2::abs(p[2] - z) > epsDistance<Float>()) {
-      LOG_WARN(
-          "Constructing a FaceVertexMesh from a PolytopeSoup with non-planar vertices");
-      break;
+      planar = false;
     }
   }
+  if (!planar) {
+    LOG_WARN("Constructing a FaceVertexMesh from a PolytopeSoup with non-planar vertices");
+  }
 
   // -- Face/Vertex connectivity --
   _fv.resize(num_faces);
-- 
2.43.0


From 6967741c8c11f1ee5dce443666b8ae956298532d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:04 +0000
Subject: [PATCH 17/30] fix: clear the fissile flag of a nuclide with the rest
 of its data

---
 src/physics/nuclide.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/physics/nuclide.cpp b/src/physics/nuclide.cpp
index f6fcc11..1738706 100644
--- a/src/physics/nuclide.cpp
+++ b/src/physics/nuclide.cpp
@@ -22,6 +22,7 @@ namespace um2
 void
 Nuclide::clear() noexcept
 {
+  _is_fissile = false;
   _zaid = 0;
   _mass = 0;
   _temperatures.clear();
-- 
2.43.0


From 19f67d0b575f4ba3882529845f15e9221751aed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:17 +0000
Subject: [PATCH 18/30] fix: a pin cell whose mesh was refused is not added
 without a mesh

---
 src/mpact/model.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 9e4a9b8..8b28b6a 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -661,6 +661,9 @@ Model::addCylindricalPinCell(Float const pitch, Vector<Float> const & radii,
   // Make the mesh
   Int const mesh_id =
       addCylindricalPinMesh(pitch, radii, num_rings, num_azimuthal, mesh_order);
+  if (mesh_id == -1) {
+    return -1;
+  }
 
   // We need 1 more material than the number of rings
   if (materials.size() != num_rings.size() + 1) {
-- 
2.43.0


From 0c1664ed66ac2c0b2d49e0419d506ef133f87349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:17 +0000
Subject: [PATCH 19/30] fix: reject modules and cores whose cells in a row
 differ in height

---
 include/um2/mesh/rectilinear_grid.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/um2/mesh/rectilinear_grid.hpp b/include/um2/mesh/rectilinear_grid.hpp
index 16a7250..6a8e1f8 100644
--- a/include/um2/mesh/rectilinear_grid.hpp
+++ b/include/um2/mesh/rectilinear_grid.hpp
@@ -205,6 +205,8 @@ constexpr RectilinearGrid<D, T>::RectilinearGrid(Vector<Vec2<T>> const & dxdy,
     for (Int j = 0; j < ncols; ++j) {
       Int const id = row[j];
       Vec2<T> const & dxdy_ij = dxdy[id];
+      // Ensure that all cells in the row have the same height
+      ASSERT(um2::abs(dxdy_ij[1] - dxdy[row[0]][1]) < epsDistance<T>());
       Vec2<T> const hi = lo + dxdy_ij;
       boxes[i * ncols + j] = {lo, hi};
       lo[0] = hi[0];
-- 
2.43.0


From c7592480f90088538b85f8e4c623a95f3877c64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:15:03 +0000
Subject: [PATCH 20/30] fix: allow writing a model with a material that no face
 uses

The total volume of such a material summed an empty list.
---
 src/mpact/model.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 8b28b6a..f4b2408 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -2147,6 +2147,9 @@ writeMaterialVolumes(String const & filename, Model const & model)
   // Reduce the volumes to the total volume of each material
   Vector<Float> total_volumes(nmats, 0);
   for (Int imat = 0; imat < nmats; ++imat) {
+    if (volumes[imat].empty()) {
+      continue; // Unused material
+    }
     // Sort and use the sum function for minimal floating point error
     // (sum uses pairwise summation)
     std::sort(volumes[imat].begin(), volumes[imat].end());
-- 
2.43.0


From cdd1497ad79caf45acc7908338921a4fd43e403b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:15:03 +0000
Subject: [PATCH 21/30] fix: remember the lattices already read by their own id

The reader stored the id of the assembly, so models with several
lattices per assembly could not be read back.
---
 src/mpact/model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index f4b2408..73124b8 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -2602,7 +2602,7 @@ readXDMFFile(String const & filename, Model & model)
       }
 
       LOG_DEBUG("New lattice ID: ", lattice_id);
-      lattice_ids.emplace_back(assembly_id);
+      lattice_ids.emplace_back(lattice_id);
 
       // Get NX by NY size of the lattice
       Int lattice_nx = 0;
-- 
2.43.0


From 2fd739aa01c25e099adb7380aeaad8b91c9e1579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:27:31 +0000
Subject: [PATCH 22/30] fix: read polytope soups that hold only quadratic edges

The writer names the topology Edge_3, which the reader did not know.
---
 src/mesh/polytope_soup.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index 8cccb2a..2cd2d1a 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -1642,6 +1642,8 @@ addElementsToSoup(Int const num_elements, String const & topology_type,
       elem_type = VTKElemType::Triangle;
     } else if (topology_type == "Quadrilateral") {
       elem_type = VTKElemType::Quad;
+    } else if (topology_type == "Edge_3") {
+      elem_type = VTKElemType::QuadraticEdge;
     } else if (topology_type == "Triangle_6") {
       elem_type = VTKElemType::QuadraticTriangle;
     } else if (topology_type == "Quadrilateral_8") {
-- 
2.43.0


From 4c2e5e2b6f57376af09d852074153ed1c9392ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:27:31 +0000
Subject: [PATCH 23/30] fix: accept an empty C string as part of a log message

---
 src/common/logger.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/logger.cpp b/src/common/logger.cpp
index 29be0e0..2ecb340 100644
--- a/src/common/logger.cpp
+++ b/src/common/logger.cpp
@@ -80,6 +80,9 @@ template <>
 auto
 toBuffer(char * buffer_pos, char const * const & value) noexcept -> char *
 {
+  if (*value == '\0') {
+    return buffer_pos;
+  }
   char const * p = value;
   StringView const sv(p);
   return appendStringViewToBuffer(buffer_pos, sv);
-- 
2.43.0


From 5b1cad6b9084fc985b86a58c70429a0a236168c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:27:31 +0000
Subject: [PATCH 24/30] fix: detect an overlong log message before writing past
 the buffer

---
 src/common/logger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/logger.cpp b/src/common/logger.cpp
index 2ecb340..0278eb4 100644
--- a/src/common/logger.cpp
+++ b/src/common/logger.cpp
@@ -182,6 +182,7 @@ template <>
 auto
 toBuffer(char * buffer_pos, bool const & value) noexcept -> char *
 {
+  ASSERT(buffer_pos + (value ? 4 : 5) < buffer_end);
   if (value) {
     buffer_pos[0] = 't';
     buffer_pos[1] = 'r';
@@ -196,7 +197,6 @@ toBuffer(char * buffer_pos, bool const & value) noexcept -> char *
     buffer_pos[4] = 'e';
     buffer_pos += 5;
   }
-  ASSERT(buffer_pos < buffer_end);
   return buffer_pos;
 }
 
@@ -375,6 +375,7 @@ setPreamble(int32_t const msg_level) noexcept -> char *
 void
 setPostamble(char * buffer_pos) noexcept
 {
+  ASSERT(buffer_pos + (colorized ? 4 : 0) < buffer_end);
   // Reset color
   if (colorized) {
     buffer_pos[0] = '\033';
@@ -383,7 +384,6 @@ setPostamble(char * buffer_pos) noexcept
     buffer_pos[3] = 'm';
     buffer_pos += 4;
   }
-  ASSERT(buffer_pos < buffer_end);
 
   // Ensure null-terminated string
   buffer_pos[0] = '\0';
-- 
2.43.0


From 7b20bca2983dfec4e284487b0a231e09903534be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:48:47 +0000
Subject: [PATCH 25/30] fix: read wrapped cross-section library lines that end
 in blanks

A line of group bounds or of the fission spectrum may end in more than one blank.
The reader then kept a view into the line buffer and read the next line into it.
The number taken came from the middle of the next line.
Take the first number of the next line instead.
---
 src/physics/cross_section_library.cpp | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/src/physics/cross_section_library.cpp b/src/physics/cross_section_library.cpp
index 1be97eb..b5ea31b 100644
--- a/src/physics/cross_section_library.cpp
+++ b/src/physics/cross_section_library.cpp
@@ -118,17 +118,10 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
 
     // If the token is empty, we have reached the end of the line
     if (token.empty()) {
-      bool const one_more_token = !line_view.empty();
-      if (one_more_token) {
-        token = line_view;
-      }
-      // If this is the last group, we don't need to read another line
       file.getline(line, max_line_length);
       line_view = StringView(line);
       line_view.removeLeadingSpaces();
-      if (!one_more_token) {
-        token = line_view.getTokenAndShrink();
-      }
+      token = line_view.getTokenAndShrink();
     }
 
     group_bounds[ig] = strto<Float>(token.data(), &end);
@@ -158,17 +151,10 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
 
     // If the token is empty, we have reached the end of the line
     if (token.empty()) {
-      bool const one_more_token = !line_view.empty();
-      if (one_more_token) {
-        token = line_view;
-      }
-      // If this is the last group, we don't need to read another line
       file.getline(line, max_line_length);
       line_view = StringView(line);
       line_view.removeLeadingSpaces();
-      if (!one_more_token) {
-        token = line_view.getTokenAndShrink();
-      }
+      token = line_view.getTokenAndShrink();
     }
 
     chi[ig] = strto<Float>(token.data(), &end);
-- 
2.43.0


From 65f0531095cdd0a442bb24058cada5f947709f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:10:37 +0000
Subject: [PATCH 26/30] fix: colour the entities of a model without physical
 groups without reading an empty list

---
 src/gmsh/model.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gmsh/model.cpp b/src/gmsh/model.cpp
index 34b9e75..e194d11 100644
--- a/src/gmsh/model.cpp
+++ b/src/gmsh/model.cpp
@@ -130,6 +130,9 @@ colorMaterialPhysicalGroupEntities(std::vector<Material> const & materials)
   std::vector<int> ptags(num_materials, -1);
   gmsh::vectorpair dimtags;
   gmsh::model::getPhysicalGroups(dimtags);
+  if (dimtags.empty()) {
+    return;
+  }
   // We only care about the highest dimension physical groups.
   int const dim_max = dimtags.back().first;
   for (auto const & dimtag : dimtags) {
-- 
2.43.0


From ca77fe81d55d45a6af26c31b5cd61a98bdf6cb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:22:06 +0000
Subject: [PATCH 27/30] fix: generate triangles when quadrilaterals were
 generated before

---
 src/gmsh/mesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gmsh/mesh.cpp b/src/gmsh/mesh.cpp
index 8bbf62c..c4b8d20 100644
--- a/src/gmsh/mesh.cpp
+++ b/src/gmsh/mesh.cpp
@@ -43,6 +43,9 @@ generateMesh(MeshType const mesh_type, int const smooth_iters)
 {
   gmsh::option::setNumber("Mesh.SecondOrderIncomplete", 1);
   gmsh::option::setNumber("Mesh.Smoothing", smooth_iters);
+  // Options persist from a previous mesh.
+  gmsh::option::setNumber("Mesh.RecombineAll", 0);
+  gmsh::option::setNumber("Mesh.SubdivisionAlgorithm", 0);
   // Int constexpr mesh_from_curvature = 8;
   switch (mesh_type) {
   case MeshType::Tri:
-- 
2.43.0


From fa782da3fec46e5bfd66716f733eec26b943dbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:17:30 +0000
Subject: [PATCH 28/30] fix: end the input deck card of a material without
 isotopes

Without isotopes nothing ended the line, so the next comment, or the
geometry heading after the last material, was written on the same line.
---
 src/mpact/model.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 73124b8..1ed250f 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -2010,6 +2010,8 @@ writeInputFile(String const & filename, Model const & model)
         }
         file << zaids[i] << " " << densities[i] << '\n';
       }
+    } else {
+      file << '\n';
     }
   } // for (imat)
 
-- 
2.43.0


From c2819a3959528a054a450cf430facb41eb170fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:39:41 +0000
Subject: [PATCH 29/30] fix: report element sets whose indices have an
 unsupported width

Reading an XDMF file silently dropped element sets stored with 1- or
2-byte indices. They are now reported as an error, as the node and
topology readers already do.
---
 src/mesh/polytope_soup.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index 2cd2d1a..4cc3fc5 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -1971,6 +1971,8 @@ readXDMFElsets(pugi::xml_node const & xgrid, H5::H5File const & h5file,
       } else {
         logger::error("Unsupported attribute data type size");
       }
+    } else {
+      logger::error("Unsupported data type size");
     }
   }
 }
-- 
2.43.0


From 3f8523a9e45542e957b43ab1a7410d25dbb4aeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:07:20 +0000
Subject: [PATCH 30/30] fix: skip comment lines inside the sections of Abaqus
 files

A line starting with two asterisks ended the node, element or element set
list it stood in, so the rest of the list was dropped without notice.
Comment lines are now skipped.
---
 src/mesh/polytope_soup.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index 4cc3fc5..6ec265a 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -623,7 +623,10 @@ abaqusParseNodes(PolytopeSoup & soup, std::ifstream & file, char * const line,
 {
   // line starts with "*NODE"
   auto const smax_line_length = static_cast<int64_t>(max_line_length);
-  while (file.getline(line, smax_line_length) && line[0] != '*') {
+  while (file.getline(line, smax_line_length) && (line[0] != '*' || line[1] == '*')) {
+    if (line[0] == '*') {
+      continue; // Comment
+    }
     StringView line_view(line);
     // Format: node_id, x, y, z
     // Skip ID
@@ -700,7 +703,10 @@ abaqusParseElements(PolytopeSoup & soup, std::ifstream & file, char * const line
   Int const verts_per_elem = verticesPerElem(this_type);
   Vector<Int> conn(verticesPerElem(this_type));
   auto const smax_line_length = static_cast<int64_t>(max_line_length);
-  while (file.getline(line, smax_line_length) && line[0] != '*') {
+  while (file.getline(line, smax_line_length) && (line[0] != '*' || line[1] == '*')) {
+    if (line[0] == '*') {
+      continue; // Comment
+    }
     StringView line_view(line);
     // For each element, read the element ID and the node IDs
     // Format: id, n1, n2, n3, n4, n5 ...
@@ -736,7 +742,10 @@ abaqusParseElsets(PolytopeSoup & soup, std::ifstream & file, char * const line,
   String const elset_name(info_line_view.substr(13, info_line_view.size() - 13));
   Vector<Int> elset_ids;
   auto const smax_line_length = static_cast<int64_t>(max_line_length);
-  while (file.getline(line, smax_line_length) && line[0] != '*') {
+  while (file.getline(line, smax_line_length) && (line[0] != '*' || line[1] == '*')) {
+    if (line[0] == '*') {
+      continue; // Comment
+    }
     StringView line_view(line);
     // Add each element ID to the elset
     // Format: id, id, id, id, id,
-- 
2.43.0

