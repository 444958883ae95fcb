From 0318190448427ca70b3427946058bc4ccc524e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:01 +0000
Subject: [PATCH 01/97] fix: divide_each and ternary_each accept empty arrays

---
 src/Omega_h_array_ops.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_array_ops.cpp b/src/Omega_h_array_ops.cpp
index b11356b..b86fad7 100644
--- a/src/Omega_h_array_ops.cpp
+++ b/src/Omega_h_array_ops.cpp
@@ -127,8 +127,12 @@ Read<T> multiply_each_by(Read<T> a, T b) {
 
 template <typename T>
 Write<T> divide_each(Read<T> a, Read<T> b, std::string const& name) {
-  auto width = divide_no_remainder(a.size(), b.size());
   Write<T> c(a.size(), name);
+  if (b.size() == 0) {
+    OMEGA_H_CHECK(a.size() == 0);
+    return c;
+  }
+  auto width = divide_no_remainder(a.size(), b.size());
   auto f = OMEGA_H_LAMBDA(LO i) {
     for (Int j = 0; j < width; ++j) {
       c[i * width + j] = a[i * width + j] / b[i];
@@ -309,8 +313,12 @@ Read<T> max_each(Read<T> a, Read<T> b) {
 template <typename T>
 Read<T> ternary_each(Bytes cond, Read<T> a, Read<T> b) {
   OMEGA_H_CHECK(a.size() == b.size());
-  auto width = divide_no_remainder(a.size(), cond.size());
   Write<T> c(a.size());
+  if (cond.size() == 0) {
+    OMEGA_H_CHECK(a.size() == 0);
+    return c;
+  }
+  auto width = divide_no_remainder(a.size(), cond.size());
   auto f = OMEGA_H_LAMBDA(LO i) { c[i] = cond[i / width] ? a[i] : b[i]; };
   parallel_for(c.size(), f, "ternary_each");
   return c;
-- 
2.43.0


From 6579de2eac5d9f8e12b773d01f1fbc80e99c18af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 02/97] fix: coalesce computes offsets from the preceding
 array, not the next one

---
 src/Omega_h_array_ops.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_array_ops.cpp b/src/Omega_h_array_ops.cpp
index b86fad7..da51081 100644
--- a/src/Omega_h_array_ops.cpp
+++ b/src/Omega_h_array_ops.cpp
@@ -458,7 +458,7 @@ Read<T> coalesce(std::vector<Read<T>> arrays) {
   OMEGA_H_CHECK(offsets.data() != nullptr);
   offsets[0] = 0;
   for (std::size_t i = 1; i <= arrays.size(); ++i) {
-    offsets[i] = offsets[i - 1] + arrays[i].size();
+    offsets[i] = offsets[i - 1] + arrays[i - 1].size();
   }
   auto out_size = offsets[arrays.size()];
   auto out = Write<T>(out_size);
-- 
2.43.0


From f3dd5d740a799b28fa98af66d000003a9d817802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 03/97] fix: filter_graph_edges counts kept edges in 32 bits,
 not 8

---
 src/Omega_h_graph.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_graph.cpp b/src/Omega_h_graph.cpp
index 3f4261d..a9eb5c5 100644
--- a/src/Omega_h_graph.cpp
+++ b/src/Omega_h_graph.cpp
@@ -92,7 +92,8 @@ struct FilteredGraph {
 };
 
 Graph filter_graph_edges(Graph g, Read<I8> keep_edge) {
-  auto degrees = fan_reduce(g.a2ab, keep_edge, 1, OMEGA_H_SUM);
+  auto degrees =
+      fan_reduce(g.a2ab, array_cast<I32>(keep_edge), 1, OMEGA_H_SUM);
   auto offsets = offset_scan(degrees);
   auto kept2old = collect_marked(keep_edge);
   auto edges = unmap(kept2old, g.ab2b, 1);
-- 
2.43.0


From 7293d9cfb8abc7d3348be6fb5bc7182b5a9ed5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 04/97] fix: dual graph of quadrilateral and hexahedral meshes
 uses the family's side count

---
 src/Omega_h_adj.cpp      | 7 ++++---
 src/Omega_h_adj.hpp      | 5 +++--
 src/Omega_h_conserve.cpp | 3 ++-
 src/Omega_h_mesh.cpp     | 2 +-
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/Omega_h_adj.cpp b/src/Omega_h_adj.cpp
index 8b03448..079e0a2 100644
--- a/src/Omega_h_adj.cpp
+++ b/src/Omega_h_adj.cpp
@@ -619,13 +619,14 @@ class elements_across_sides_count_functor {
   };
 };
 
-Graph elements_across_sides(Int const dim, Adj const elems2sides,
-    Adj const sides2elems, Read<I8> const side_is_exposed) {
+Graph elements_across_sides(Omega_h_Family const family, Int const dim,
+    Adj const elems2sides, Adj const sides2elems,
+    Read<I8> const side_is_exposed) {
   OMEGA_H_TIME_FUNCTION;
   auto const elem_side2side = elems2sides.ab2b;
   auto const side2side_elems = sides2elems.a2ab;
   auto const side_elem2elem = sides2elems.ab2b;
-  Int const nsides_per_elem = dim + 1;
+  auto const nsides_per_elem = element_degree(family, dim, dim - 1);
   auto const nelems =
       divide_no_remainder(elem_side2side.size(), nsides_per_elem);
   Write<LO> degrees(nelems);
diff --git a/src/Omega_h_adj.hpp b/src/Omega_h_adj.hpp
index 61dbd0b..90dfd1b 100644
--- a/src/Omega_h_adj.hpp
+++ b/src/Omega_h_adj.hpp
@@ -95,8 +95,9 @@ Adj transit(Adj const h2m, Adj const m2l, Omega_h_Family const family,
 Graph verts_across_edges(Adj const e2v, Adj const v2e);
 Graph edges_across_tris(Adj const f2e, Adj const e2f);
 Graph edges_across_tets(Adj const r2e, Adj const e2r);
-Graph elements_across_sides(Int const dim, Adj const elems2sides,
-    Adj const sides2elems, Read<I8> const side_is_exposed);
+Graph elements_across_sides(Omega_h_Family const family, Int const dim,
+    Adj const elems2sides, Adj const sides2elems,
+    Read<I8> const side_is_exposed);
 
 template <Int nhhl>
 OMEGA_H_DEVICE Few<LO, nhhl> gather_down(LOs const& hl2l, Int h) {
diff --git a/src/Omega_h_conserve.cpp b/src/Omega_h_conserve.cpp
index e80d89a..c31a721 100644
--- a/src/Omega_h_conserve.cpp
+++ b/src/Omega_h_conserve.cpp
@@ -630,7 +630,8 @@ static Graph get_elem_diffusion_graph(Mesh* mesh) {
   }
   auto elems2sides = mesh->ask_down(dim, dim - 1);
   auto sides2elems = mesh->ask_up(dim - 1, dim);
-  return elements_across_sides(dim, elems2sides, sides2elems, sides_are_bdry);
+  return elements_across_sides(
+      mesh->family(), dim, elems2sides, sides2elems, sides_are_bdry);
 }
 
 Reals diffuse_densities_once(
diff --git a/src/Omega_h_mesh.cpp b/src/Omega_h_mesh.cpp
index 100971d..c702c2b 100644
--- a/src/Omega_h_mesh.cpp
+++ b/src/Omega_h_mesh.cpp
@@ -322,7 +322,7 @@ Adj Mesh::derive_adj(Int from, Int to) {
     return h2l;
   } else {
     if (from == dim() && to == dim()) {
-      return elements_across_sides(dim(), ask_adj(dim(), dim() - 1),
+      return elements_across_sides(family(), dim(), ask_adj(dim(), dim() - 1),
           ask_adj(dim() - 1, dim()), mark_exposed_sides(this));
     }
     if (from == VERT && to == VERT) {
-- 
2.43.0


From 7c5e2658facaf33e1701d2f62c674c19af706f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:18 +0000
Subject: [PATCH 05/97] fix: repro_sum does not divide by an underflowed unit
 for subnormal-range values

---
 src/Omega_h_array_ops.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_array_ops.cpp b/src/Omega_h_array_ops.cpp
index da51081..bc10df3 100644
--- a/src/Omega_h_array_ops.cpp
+++ b/src/Omega_h_array_ops.cpp
@@ -1,5 +1,8 @@
 #include "Omega_h_array_ops.hpp"
 
+#include <algorithm>
+#include <limits>
+
 #include "Omega_h_for.hpp"
 #include "Omega_h_functors.hpp"
 #include "Omega_h_int_iterator.hpp"
@@ -537,6 +540,13 @@ Int128 int128_sum(Reals const a, double const unit) {
   return transform_reduce(first, last, init, op, std::move(transform));
 }
 
+/* the unit may not underflow to zero: below the smallest subnormal number
+   there is nothing left to represent */
+static double fixed_point_unit(int expo) {
+  return std::max(exp2(double(expo - MANTISSA_BITS)),
+      std::numeric_limits<double>::denorm_min());
+}
+
 Real repro_sum(Reals a) {
   if (a.size() == 0) {
     return 0.0;
@@ -545,7 +555,7 @@ Real repro_sum(Reals a) {
   int expo = max_exponent(a);
   auto const init = ArithTraits<int>::min();
   if (expo == init) return 0.0;
-  double unit = exp2(double(expo - MANTISSA_BITS));
+  double unit = fixed_point_unit(expo);
   Int128 fixpt_sum = int128_sum(a, unit);
   double ret = fixpt_sum.to_double(unit);
   end_code();
@@ -558,7 +568,7 @@ Real repro_sum(CommPtr comm, Reals a) {
   auto expo0 = max_exponent(a);
   int expo = comm->allreduce(expo0, OMEGA_H_MAX);
   if (expo == init) return 0.0;
-  double unit = exp2(double(expo - MANTISSA_BITS));
+  double unit = fixed_point_unit(expo);
   Int128 fixpt_sum = int128_sum(a, unit);
   fixpt_sum = comm->add_int128(fixpt_sum);
   double ret = fixpt_sum.to_double(unit);
-- 
2.43.0


From 6bee66d6fa4b62be69c974614d515804a5c406b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 06/97] fix: Mesh::get_tag rejects an index equal to the number
 of tags

---
 src/Omega_h_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_mesh.cpp b/src/Omega_h_mesh.cpp
index c702c2b..d3142cd 100644
--- a/src/Omega_h_mesh.cpp
+++ b/src/Omega_h_mesh.cpp
@@ -216,7 +216,7 @@ Int Mesh::ntags(Int ent_dim) const {
 TagBase const* Mesh::get_tag(Int ent_dim, Int i) const {
   check_dim2(ent_dim);
   OMEGA_H_CHECK(0 <= i);
-  OMEGA_H_CHECK(i <= ntags(ent_dim));
+  OMEGA_H_CHECK(i < ntags(ent_dim));
   return tags_[ent_dim][static_cast<std::size_t>(i)].get();
 }
 
-- 
2.43.0


From c5548679073d60aa5407df4973b5bea46f5a0fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 07/97] fix: Dist::iexch does not keep a pointer to a Dist that
 may be gone when the future completes

---
 src/Omega_h_dist.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Omega_h_dist.cpp b/src/Omega_h_dist.cpp
index 771d228..f90d6ce 100644
--- a/src/Omega_h_dist.cpp
+++ b/src/Omega_h_dist.cpp
@@ -132,9 +132,11 @@ Future<T> Dist::iexch(Read<T> data, Int width) const {
     data = permute(data, items2content_[F], width);
   }
   auto future = comm_[F]->ialltoallv(data, msgs2content_[F], msgs2content_[R], width);
-  auto callback = [this,width](Read<T> buf) {
-    if (this->items2content_[R].exists()) {
-      buf = unmap(this->items2content_[R], buf, width);
+  // the Dist may be destroyed before the future completes
+  auto const ritems2rcontent = items2content_[R];
+  auto callback = [ritems2rcontent, width](Read<T> buf) {
+    if (ritems2rcontent.exists()) {
+      buf = unmap(ritems2rcontent, buf, width);
     }
     return buf;
   };
-- 
2.43.0


From 9ab974b8c5f6992a8e0e0fa51bd19a915a250a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 08/97] fix: Comm::bcast_string broadcasts the length from the
 given root

---
 src/Omega_h_comm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_comm.cpp b/src/Omega_h_comm.cpp
index bb45468..f2bcdbf 100644
--- a/src/Omega_h_comm.cpp
+++ b/src/Omega_h_comm.cpp
@@ -267,7 +267,7 @@ void Comm::bcast(T& x, int root_rank) const {
 void Comm::bcast_string(std::string& s, int root_rank) const {
 #ifdef OMEGA_H_USE_MPI
   I32 len = static_cast<I32>(s.length());
-  bcast(len);
+  bcast(len, root_rank);
   s.resize(static_cast<std::size_t>(len));
   CALL(MPI_Bcast(&s[0], len, MPI_CHAR, root_rank, impl_));
 #else
-- 
2.43.0


From 8c1955fa2f7a570c0d597d3960259b79535fcb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:28 +0000
Subject: [PATCH 09/97] fix: Mesh::set_comm also moves the cached
 copies-to-owners plans to the new communicator

---
 src/Omega_h_mesh.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Omega_h_mesh.cpp b/src/Omega_h_mesh.cpp
index d3142cd..302352f 100644
--- a/src/Omega_h_mesh.cpp
+++ b/src/Omega_h_mesh.cpp
@@ -68,6 +68,7 @@ void Mesh::set_comm(CommPtr const& new_comm) {
       auto dist = ask_dist(d);
       dist.change_comm(new_comm);
       owners_[d].ranks = dist.items2ranks();
+      dists_[d] = std::make_shared<Dist>(dist);
     }
   }
   comm_ = new_comm;
-- 
2.43.0


From 1483d5c1fa29c515624cbe28a98d7033d8c178d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 10/97] fix: ghosting several layers of a hypercube mesh uses
 the family's vertices per element

---
 src/Omega_h_ghost.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_ghost.cpp b/src/Omega_h_ghost.cpp
index 5f72da2..e190016 100644
--- a/src/Omega_h_ghost.cpp
+++ b/src/Omega_h_ghost.cpp
@@ -1,5 +1,6 @@
 #include "Omega_h_ghost.hpp"
 
+#include "Omega_h_element.hpp"
 #include "Omega_h_for.hpp"
 #include "Omega_h_map.hpp"
 #include "Omega_h_mesh.hpp"
@@ -89,7 +90,7 @@ static Dist close_up(
 }
 
 static Dist close_down(Mesh* mesh, Remotes old_use_owners, Dist elems2owners) {
-  auto nverts_per_elem = mesh->dim() + 1;
+  auto nverts_per_elem = element_degree(mesh->family(), mesh->dim(), VERT);
   auto owners2elems = elems2owners.invert();
   auto new_use_owners = owners2elems.exch(old_use_owners, nverts_per_elem);
   Dist uses2old_owners(mesh->comm(), new_use_owners, mesh->nents(VERT));
-- 
2.43.0


From e25f58392e4dde5606a65a3614ab6d5692f897ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 11/97] fix: bcast_mesh also sends the number of ghost layers
 to the new processes

---
 src/Omega_h_bcast.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_bcast.cpp b/src/Omega_h_bcast.cpp
index d74040a..9ee0ebc 100644
--- a/src/Omega_h_bcast.cpp
+++ b/src/Omega_h_bcast.cpp
@@ -19,7 +19,12 @@ void bcast_mesh(Mesh* mesh, CommPtr new_comm, bool is_source) {
   I32 parting;
   if (is_source) parting = mesh->parting();
   new_comm->bcast(parting);
-  if (!is_source) mesh->set_parting(Omega_h_Parting(parting));
+  I32 nghost_layers;
+  if (is_source) nghost_layers = mesh->nghost_layers();
+  new_comm->bcast(nghost_layers);
+  if (!is_source) {
+    mesh->set_parting(Omega_h_Parting(parting), nghost_layers, false);
+  }
   if (!is_source) mesh->set_verts(0);
   for (Int d = 0; d <= dim; ++d) {
     if (d > VERT && !is_source) {
-- 
2.43.0


From 409e3964466eb9b78a3ef6684474884a36618f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:40 +0000
Subject: [PATCH 12/97] fix: Mesh::set_tag works on a process without entities
 of that dimension

---
 src/Omega_h_mesh.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_mesh.cpp b/src/Omega_h_mesh.cpp
index 302352f..0e22aaf 100644
--- a/src/Omega_h_mesh.cpp
+++ b/src/Omega_h_mesh.cpp
@@ -162,7 +162,12 @@ void Mesh::add_tag(Int ent_dim, std::string const& name, Int ncomps,
 template <typename T>
 void Mesh::set_tag(
     Int ent_dim, std::string const& name, Read<T> array, bool internal) {
-  this->add_tag(ent_dim, name, divide_no_remainder(array.size(), nents(ent_dim)), array, internal);
+  // without entities (common in parallel) the array does not tell the width
+  auto const ncomps =
+      (nents(ent_dim) == 0 && has_tag(ent_dim, name))
+          ? get_tagbase(ent_dim, name)->ncomps()
+          : divide_no_remainder(array.size(), nents(ent_dim));
+  this->add_tag(ent_dim, name, ncomps, array, internal);
 }
 
 void Mesh::react_to_set_tag(Int ent_dim, std::string const& name) {
-- 
2.43.0


From 4525517ba4ce1d25d48424db623ca05567c569f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 13/97] fix: binary readers fail on truncated input instead of
 returning uninitialised values

---
 src/Omega_h_file.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Omega_h_file.cpp b/src/Omega_h_file.cpp
index 2febe4b..22e8fe5 100644
--- a/src/Omega_h_file.cpp
+++ b/src/Omega_h_file.cpp
@@ -112,6 +112,7 @@ void write_value(std::ostream& stream, T val, bool needs_swapping) {
 template <typename T>
 void read_value(std::istream& stream, T& val, bool needs_swapping) {
   stream.read(reinterpret_cast<char*>(&val), sizeof(T));
+  OMEGA_H_CHECK(bool(stream));
   if (needs_swapping) swap_bytes(val);
 }
 
@@ -163,6 +164,7 @@ void read_array(std::istream& stream, Read<T>& array, bool is_compressed,
     OMEGA_H_CHECK(compressed_bytes >= 0);
     auto compressed = new ::Bytef[compressed_bytes];
     stream.read(reinterpret_cast<char*>(compressed), compressed_bytes);
+    OMEGA_H_CHECK(bool(stream));
     uLong dest_bytes = static_cast<uLong>(uncompressed_bytes);
     uLong source_bytes = static_cast<uLong>(compressed_bytes);
     ::Bytef* uncompressed_ptr =
@@ -179,6 +181,7 @@ void read_array(std::istream& stream, Read<T>& array, bool is_compressed,
   {
     stream.read(reinterpret_cast<char*>(nonnull(uncompressed.data())),
         uncompressed_bytes);
+    OMEGA_H_CHECK(bool(stream));
   }
   array = swap_bytes(Read<T>(uncompressed.write()), needs_swapping);
 }
@@ -195,6 +198,7 @@ void read(std::istream& stream, std::string& val, bool needs_swapping) {
   OMEGA_H_CHECK(len >= 0);
   val.resize(static_cast<std::size_t>(len));
   stream.read(&val[0], len);
+  OMEGA_H_CHECK(bool(stream));
 }
 
 static void write_meta(
-- 
2.43.0


From 9242167a5febb1d4b777b10fe429562a9c845eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 14/97] fix: binary::read keeps classification sets that are
 empty

---
 src/Omega_h_file.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_file.cpp b/src/Omega_h_file.cpp
index 22e8fe5..c476427 100644
--- a/src/Omega_h_file.cpp
+++ b/src/Omega_h_file.cpp
@@ -355,11 +355,12 @@ static void read_sets(std::istream& stream, Mesh* mesh, bool needs_swapping) {
     read(stream, name, needs_swapping);
     I32 npairs;
     read_value(stream, npairs, needs_swapping);
+    auto& pairs = mesh->class_sets[name];
     for (I32 j = 0; j < npairs; ++j) {
       ClassPair pair;
       read_value(stream, pair.dim, needs_swapping);
       read_value(stream, pair.id, needs_swapping);
-      mesh->class_sets[name].push_back(pair);
+      pairs.push_back(pair);
     }
   }
 }
-- 
2.43.0


From 8fb29ea4baaf4507badf97c2d79c5af9a8902f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 15/97] fix: read_reals_txt fails on missing or malformed
 values instead of returning uninitialised ones

---
 src/Omega_h_file.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Omega_h_file.cpp b/src/Omega_h_file.cpp
index c476427..67c588f 100644
--- a/src/Omega_h_file.cpp
+++ b/src/Omega_h_file.cpp
@@ -641,6 +641,7 @@ Reals read_reals_txt(std::istream& stream, LO n, Int ncomps) {
   for (LO i = 0; i < n; ++i) {
     for (Int j = 0; j < ncomps; ++j) {
       stream >> h_a[i * ncomps + j];
+      OMEGA_H_CHECK(bool(stream));
     }
   }
   return h_a.write();
-- 
2.43.0


From 98ac13ca20f67220d1dc990eee91c671f494ae92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 16/97] fix: base64::decode checks the text's length and does
 not index its table with negative characters

---
 src/Omega_h_base64.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_base64.cpp b/src/Omega_h_base64.cpp
index 61d210d..fd08718 100644
--- a/src/Omega_h_base64.cpp
+++ b/src/Omega_h_base64.cpp
@@ -71,7 +71,7 @@ unsigned char UC(T val) {
 void decode_4(char const* in, unsigned char* out, std::size_t nout = 3) {
   unsigned char val[4];
   for (unsigned i = 0; i < 4; ++i) {
-    val[i] = char_to_value[U(in[i])];
+    val[i] = char_to_value[UC(in[i])];
     OMEGA_H_CHECK(val[i] < 64);
   }
   /* cast it all !
@@ -123,6 +123,7 @@ std::string encode(void const* data, std::size_t size) {
 void decode(std::string const& text, void* data, std::size_t size) {
   std::size_t quot = size / 3;
   std::size_t rem = size % 3;
+  OMEGA_H_CHECK(text.size() >= encoded_size(size));
   unsigned char* out = static_cast<unsigned char*>(data);
   for (std::size_t i = 0; i < quot; ++i) decode_4(&text[i * 4], &out[i * 3]);
   if (rem) decode_4(&text[quot * 4], &out[quot * 3], rem);
-- 
2.43.0


From fd66d73a1ae36d73942b23a5f89c704f269ee2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:08 +0000
Subject: [PATCH 17/97] fix: bcast_mesh keeps classification sets that are
 empty

---
 src/Omega_h_bcast.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Omega_h_bcast.cpp b/src/Omega_h_bcast.cpp
index 9ee0ebc..d677a16 100644
--- a/src/Omega_h_bcast.cpp
+++ b/src/Omega_h_bcast.cpp
@@ -77,6 +77,7 @@ void bcast_mesh(Mesh* mesh, CommPtr new_comm, bool is_source) {
     I32 npairs;
     if (is_source) npairs = I32(it->second.size());
     new_comm->bcast(npairs);
+    if (!is_source) mesh->class_sets[name];
     for (I32 j = 0; j < npairs; ++j) {
       ClassPair pair;
       if (is_source) pair = it->second[std::size_t(j)];
-- 
2.43.0


From 3fd7e4261cf5fc38f3b61fbb02cff3977809ff81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:34 +0000
Subject: [PATCH 18/97] fix: reading ghosted VTK pieces no longer leaves
 vtkGhostType behind as a mesh tag

---
 src/Omega_h_vtk.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Omega_h_vtk.cpp b/src/Omega_h_vtk.cpp
index 481084b..62ede9a 100644
--- a/src/Omega_h_vtk.cpp
+++ b/src/Omega_h_vtk.cpp
@@ -713,6 +713,7 @@ void read_vtu_ents(std::istream& stream, Mesh* mesh) {
     ;
   mesh->remove_tag(dim, "local");
   mesh->remove_tag(dim, "owner");
+  mesh->remove_tag(dim, "vtkGhostType");
   auto tag8 = xml_lite::read_tag(stream);
   OMEGA_H_CHECK(tag8.elem_name == "Piece");
   auto tag9 = xml_lite::read_tag(stream);
-- 
2.43.0


From a48971f7dcad6307f0bb648f5234ded1a00e244e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:33 +0000
Subject: [PATCH 19/97] fix: reading VTK pieces whose global numbers are
 unsorted no longer assigns cell data to the wrong elements

---
 src/Omega_h_vtk.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_vtk.cpp b/src/Omega_h_vtk.cpp
index 62ede9a..a3a65e1 100644
--- a/src/Omega_h_vtk.cpp
+++ b/src/Omega_h_vtk.cpp
@@ -16,7 +16,9 @@
 #include "Omega_h_build.hpp"
 #include "Omega_h_element.hpp"
 #include "Omega_h_file.hpp"
+#include "Omega_h_map.hpp"
 #include "Omega_h_mesh.hpp"
+#include "Omega_h_sort.hpp"
 #include "Omega_h_tag.hpp"
 #include "Omega_h_xml_lite.hpp"
 
@@ -278,7 +280,7 @@ void write_tag(
 }
 
 static bool read_tag(std::istream& stream, Mesh* mesh, Int ent_dim,
-    bool needs_swapping, bool is_compressed) {
+    bool needs_swapping, bool is_compressed, LOs mesh2file = LOs()) {
   Omega_h_Type type = OMEGA_H_I8;
   std::string name;
   Int ncomps = -1;
@@ -292,12 +294,15 @@ static bool read_tag(std::istream& stream, Mesh* mesh, Int ent_dim,
   auto size = mesh->nents(ent_dim) * ncomps;
   if (type == OMEGA_H_I8) {
     auto array = read_array<I8>(stream, size, needs_swapping, is_compressed);
+    if (mesh2file.exists()) array = unmap(mesh2file, array, ncomps);
     mesh->add_tag(ent_dim, name, ncomps, array, true);
   } else if (type == OMEGA_H_I32) {
     auto array = read_array<I32>(stream, size, needs_swapping, is_compressed);
+    if (mesh2file.exists()) array = unmap(mesh2file, array, ncomps);
     mesh->add_tag(ent_dim, name, ncomps, array, true);
   } else if (type == OMEGA_H_I64) {
     auto array = read_array<I64>(stream, size, needs_swapping, is_compressed);
+    if (mesh2file.exists()) array = unmap(mesh2file, array, ncomps);
     mesh->add_tag(ent_dim, name, ncomps, array, true);
   } else {
     auto array = read_array<Real>(stream, size, needs_swapping, is_compressed);
@@ -311,6 +316,7 @@ static bool read_tag(std::istream& stream, Mesh* mesh, Int ent_dim,
         ncomps = symm_ncomps(mesh->dim());
       }
     }
+    if (mesh2file.exists()) array = unmap(mesh2file, array, ncomps);
     mesh->add_tag(ent_dim, name, ncomps, array, true);
   }
   auto et = xml_lite::read_tag(stream);
@@ -709,7 +715,14 @@ void read_vtu_ents(std::istream& stream, Mesh* mesh) {
     elem_globals = Read<GO>(ncells, 0, 1);
   }
   build_ents_from_elems2verts(mesh, ev2v, vert_globals, elem_globals);
-  while (read_tag(stream, mesh, dim, needs_swapping, is_compressed))
+  /* the above reorders the mesh if the vertices are not sorted by global
+     number, while the cell data which follows is in the file's order */
+  LOs mesh2file;
+  if (!comm->reduce_and(is_sorted(vert_globals))) {
+    mesh2file = sort_by_keys(elem_globals);
+  }
+  while (
+      read_tag(stream, mesh, dim, needs_swapping, is_compressed, mesh2file))
     ;
   mesh->remove_tag(dim, "local");
   mesh->remove_tag(dim, "owner");
-- 
2.43.0


From addda624debd04b2c1938b39ae12e5f5d7cdb3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:18 +0000
Subject: [PATCH 20/97] fix: the Gmsh format 2 ASCII reader uses the family's
 vertices per element

---
 src/Omega_h_gmsh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_gmsh.cpp b/src/Omega_h_gmsh.cpp
index 74191c1..ef14fdd 100644
--- a/src/Omega_h_gmsh.cpp
+++ b/src/Omega_h_gmsh.cpp
@@ -451,7 +451,7 @@ void read_internal(std::istream& stream, Mesh* mesh) {
         for (Int j = 2; j < ntags; ++j) {
           stream >> tag;
         }
-        Int neev = dim + 1;
+        Int neev = element_degree(family, dim, 0);
         LO node_number;
         for (Int j = 0; j < neev; ++j) {
           stream >> node_number;
-- 
2.43.0


From 10be4b81defdb4c72240fa8923d5b89b0f8c0257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:18 +0000
Subject: [PATCH 21/97] fix: physical groups of Gmsh curves become class sets
 of dimension 1

---
 src/Omega_h_gmsh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_gmsh.cpp b/src/Omega_h_gmsh.cpp
index ef14fdd..d821f94 100644
--- a/src/Omega_h_gmsh.cpp
+++ b/src/Omega_h_gmsh.cpp
@@ -177,7 +177,7 @@ static void read_internal_entities_section(Mesh& mesh, Real format,
     }
   }
   const std::vector<std::pair<Int, Int>> params{
-      {num_curves, 2}, {num_surfaces, 2}, {num_volumes, 3}};
+      {num_curves, 1}, {num_surfaces, 2}, {num_volumes, 3}};
   for (auto param : params) {
     auto num_elements = param.first;
     const auto dim = param.second;
-- 
2.43.0


From 104c832b9e7a4f91d60a43273e05afb56dccb230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:18 +0000
Subject: [PATCH 22/97] fix: the Gmsh reader erases all trailing blanks after
 $Entities

---
 src/Omega_h_gmsh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_gmsh.cpp b/src/Omega_h_gmsh.cpp
index d821f94..351d811 100644
--- a/src/Omega_h_gmsh.cpp
+++ b/src/Omega_h_gmsh.cpp
@@ -256,7 +256,8 @@ void read_internal(std::istream& stream, Mesh* mesh) {
     // line matches "[ ]*"
     if (!line.empty()) {
       line.erase(std::remove_if(line.begin(), line.end(),
-          [](unsigned char c) { return std::isspace(c); }));
+                     [](unsigned char c) { return std::isspace(c); }),
+          line.end());
     }
     OMEGA_H_CHECK(line.empty());
     std::getline(stream, line);
-- 
2.43.0


From 199a6e76d9a1c21961cee897b156051edc25a91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:49 +0000
Subject: [PATCH 23/97] fix: the Gmsh reader does not index past the physical
 names for unnamed groups

---
 src/Omega_h_gmsh.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/Omega_h_gmsh.cpp b/src/Omega_h_gmsh.cpp
index 351d811..0d6d10d 100644
--- a/src/Omega_h_gmsh.cpp
+++ b/src/Omega_h_gmsh.cpp
@@ -143,8 +143,16 @@ static void read(
   }
 }
 
+static std::string get_physical_name(
+    std::vector<std::string> const& physical_names, Int physical) {
+  if (1 <= physical && physical <= static_cast<Int>(physical_names.size())) {
+    return physical_names[static_cast<std::size_t>(physical - 1)];
+  }
+  return std::to_string(physical);
+}
+
 static void read_internal_entities_section(Mesh& mesh, Real format,
-    std::vector<std::string>& physical_names, std::istream& stream,
+    std::vector<std::string> const& physical_names, std::istream& stream,
     bool is_binary, bool needs_swapping) {
   Int num_points, num_curves, num_surfaces, num_volumes;
   read(stream, num_points, is_binary, needs_swapping);
@@ -171,8 +179,8 @@ static void read_internal_entities_section(Mesh& mesh, Real format,
       read(stream, physical, is_binary, needs_swapping);
       OMEGA_H_CHECK(physical != 0);
       if (physical > 0) {
-        const auto& physicalname = physical_names[physical - 1];
-        mesh.class_sets[physicalname].emplace_back(0, tag);
+        const auto physical_name = get_physical_name(physical_names, physical);
+        mesh.class_sets[physical_name].emplace_back(0, tag);
       }
     }
   }
@@ -198,7 +206,8 @@ static void read_internal_entities_section(Mesh& mesh, Real format,
         read(stream, physical, is_binary, needs_swapping);
         OMEGA_H_CHECK(physical != 0);
         if (physical > 0) {
-          const auto& physical_name = physical_names[physical - 1];
+          const auto physical_name =
+              get_physical_name(physical_names, physical);
           mesh.class_sets[physical_name].emplace_back(dim, tag);
         }
       }
@@ -465,10 +474,7 @@ void read_internal(std::istream& stream, Mesh* mesh) {
       for (const auto& pair : entities) {
         const auto entity = pair.first;
         const auto physical = pair.second;
-        std::string physical_name(std::to_string(physical));
-        if (physical <= static_cast<Int>(physical_names.size())) {
-          physical_name = physical_names[physical - 1];
-        }
+        const auto physical_name = get_physical_name(physical_names, physical);
         mesh->class_sets[physical_name].emplace_back(dim, entity);
       }
     }
-- 
2.43.0


From 8c08c45e7846260994344024ef2aa3ce3b5e8a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:49 +0000
Subject: [PATCH 24/97] fix: the Gmsh reader reads physical names as text in
 binary files

---
 src/Omega_h_gmsh.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Omega_h_gmsh.cpp b/src/Omega_h_gmsh.cpp
index 0d6d10d..6b9f38e 100644
--- a/src/Omega_h_gmsh.cpp
+++ b/src/Omega_h_gmsh.cpp
@@ -243,14 +243,15 @@ void read_internal(std::istream& stream, Mesh* mesh) {
   OMEGA_H_CHECK(data_size == sizeof(Real));
   std::vector<std::string> physical_names;
   if (seek_optional_section(stream, "$PhysicalNames")) {
+    // this section is text in binary files too
     Int num_physicals;
-    read(stream, num_physicals, is_binary, needs_swapping);
+    stream >> num_physicals;
+    OMEGA_H_CHECK(stream && num_physicals >= 0);
     physical_names.reserve(static_cast<std::size_t>(num_physicals));
     eat_newlines(stream);
     for (auto i = 0; i < num_physicals; ++i) {
       Int dim, number;
-      read(stream, dim, is_binary, needs_swapping);
-      read(stream, number, is_binary, needs_swapping);
+      stream >> dim >> number;
       OMEGA_H_CHECK(number == i + 1);
       std::string name;
       stream >> name;
-- 
2.43.0


From 294655581738a348334cb523c84bdad942981fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:15 +0000
Subject: [PATCH 25/97] fix: the Gmsh reader reads the 8-byte counts and tags
 of binary format 4 files

---
 src/Omega_h_gmsh.cpp | 73 +++++++++++++++++++++++++++++---------------
 1 file changed, 49 insertions(+), 24 deletions(-)

diff --git a/src/Omega_h_gmsh.cpp b/src/Omega_h_gmsh.cpp
index 6b9f38e..ae8aab0 100644
--- a/src/Omega_h_gmsh.cpp
+++ b/src/Omega_h_gmsh.cpp
@@ -143,6 +143,31 @@ static void read(
   }
 }
 
+// counts are 8 bytes wide in binary files of format 4,
+// and from format 4.1 on so are node and element tags
+template <class T>
+static void read_wide(
+    std::istream& stream, T& value, bool is_binary, bool needs_swapping) {
+  if (is_binary) {
+    I64 wide;
+    binary::read_value(stream, wide, needs_swapping);
+    value = static_cast<T>(wide);
+    OMEGA_H_CHECK(static_cast<I64>(value) == wide);
+  } else {
+    stream >> value;
+  }
+}
+
+template <class T>
+static void read_tag(std::istream& stream, T& value, Real format,
+    bool is_binary, bool needs_swapping) {
+  if (format >= 4.1) {
+    read_wide(stream, value, is_binary, needs_swapping);
+  } else {
+    read(stream, value, is_binary, needs_swapping);
+  }
+}
+
 static std::string get_physical_name(
     std::vector<std::string> const& physical_names, Int physical) {
   if (1 <= physical && physical <= static_cast<Int>(physical_names.size())) {
@@ -155,10 +180,10 @@ static void read_internal_entities_section(Mesh& mesh, Real format,
     std::vector<std::string> const& physical_names, std::istream& stream,
     bool is_binary, bool needs_swapping) {
   Int num_points, num_curves, num_surfaces, num_volumes;
-  read(stream, num_points, is_binary, needs_swapping);
-  read(stream, num_curves, is_binary, needs_swapping);
-  read(stream, num_surfaces, is_binary, needs_swapping);
-  read(stream, num_volumes, is_binary, needs_swapping);
+  read_wide(stream, num_points, is_binary, needs_swapping);
+  read_wide(stream, num_curves, is_binary, needs_swapping);
+  read_wide(stream, num_surfaces, is_binary, needs_swapping);
+  read_wide(stream, num_volumes, is_binary, needs_swapping);
   while (num_points-- > 0) {
     Int tag;
     Vector<3> point;
@@ -173,7 +198,7 @@ static void read_internal_entities_section(Mesh& mesh, Real format,
       read(stream, point[1], is_binary, needs_swapping);
       read(stream, point[2], is_binary, needs_swapping);
     }
-    read(stream, num_physicals, is_binary, needs_swapping);
+    read_wide(stream, num_physicals, is_binary, needs_swapping);
     while (num_physicals-- > 0) {
       Int physical;
       read(stream, physical, is_binary, needs_swapping);
@@ -200,7 +225,7 @@ static void read_internal_entities_section(Mesh& mesh, Real format,
       read(stream, max_point[0], is_binary, needs_swapping);
       read(stream, max_point[1], is_binary, needs_swapping);
       read(stream, max_point[2], is_binary, needs_swapping);
-      read(stream, num_physicals, is_binary, needs_swapping);
+      read_wide(stream, num_physicals, is_binary, needs_swapping);
       while (num_physicals-- > 0) {
         Int physical;
         read(stream, physical, is_binary, needs_swapping);
@@ -212,7 +237,7 @@ static void read_internal_entities_section(Mesh& mesh, Real format,
         }
       }
       Int num_bounding_points;
-      read(stream, num_bounding_points, is_binary, needs_swapping);
+      read_wide(stream, num_bounding_points, is_binary, needs_swapping);
       while (num_bounding_points-- > 0) {
         Int points_tag;
         read(stream, points_tag, is_binary, needs_swapping);
@@ -278,15 +303,15 @@ void read_internal(std::istream& stream, Mesh* mesh) {
   std::map<int, int> node_number_map;
   int nnodes;
   if (format >= 4.0) {
-    eat_newlines(stream);
+    if (!is_binary) eat_newlines(stream);
     int num_entity_blocks;
-    read(stream, num_entity_blocks, is_binary, needs_swapping);
-    read(stream, nnodes, is_binary, needs_swapping);
+    read_wide(stream, num_entity_blocks, is_binary, needs_swapping);
+    read_wide(stream, nnodes, is_binary, needs_swapping);
     node_coords.reserve(std::size_t(nnodes));
     if (format >= 4.1) {
       int node_tag;
-      read(stream, node_tag, is_binary, needs_swapping);  // min
-      read(stream, node_tag, is_binary, needs_swapping);  // max
+      read_wide(stream, node_tag, is_binary, needs_swapping);  // min
+      read_wide(stream, node_tag, is_binary, needs_swapping);  // max
       for (int entity_block = 0; entity_block < num_entity_blocks;
            ++entity_block) {
         int class_id, class_dim;
@@ -294,10 +319,10 @@ void read_internal(std::istream& stream, Mesh* mesh) {
         read(stream, class_id, is_binary, needs_swapping);
         int node_type, num_block_nodes;
         read(stream, node_type, is_binary, needs_swapping);
-        read(stream, num_block_nodes, is_binary, needs_swapping);
+        read_wide(stream, num_block_nodes, is_binary, needs_swapping);
         for (int block_node = 0; block_node < num_block_nodes; ++block_node) {
           int node_number;
-          read(stream, node_number, is_binary, needs_swapping);
+          read_tag(stream, node_number, format, is_binary, needs_swapping);
           const auto position = int(node_coords.size() + block_node);
           node_number_map[node_number] = position;
         }
@@ -318,10 +343,10 @@ void read_internal(std::istream& stream, Mesh* mesh) {
         read(stream, class_dim, is_binary, needs_swapping);
         int node_type, num_block_nodes;
         read(stream, node_type, is_binary, needs_swapping);
-        read(stream, num_block_nodes, is_binary, needs_swapping);
+        read_wide(stream, num_block_nodes, is_binary, needs_swapping);
         for (int block_node = 0; block_node < num_block_nodes; ++block_node) {
           int node_number;
-          read(stream, node_number, is_binary, needs_swapping);
+          read_tag(stream, node_number, format, is_binary, needs_swapping);
           node_number_map[node_number] = int(node_coords.size());
           Vector<3> coords;
           read(stream, coords[0], is_binary, needs_swapping);
@@ -355,14 +380,14 @@ void read_internal(std::istream& stream, Mesh* mesh) {
   std::array<std::vector<int>, 4> ent_nodes;
   Omega_h_Family family = OMEGA_H_SIMPLEX;
   if (format >= 4.0) {
-    eat_newlines(stream);
+    if (!is_binary) eat_newlines(stream);
     int num_entity_blocks, total_num_ents;
-    read(stream, num_entity_blocks, is_binary, needs_swapping);
-    read(stream, total_num_ents, is_binary, needs_swapping);
+    read_wide(stream, num_entity_blocks, is_binary, needs_swapping);
+    read_wide(stream, total_num_ents, is_binary, needs_swapping);
     if (format >= 4.1) {
       int element_tag;
-      read(stream, element_tag, is_binary, needs_swapping);  // min
-      read(stream, element_tag, is_binary, needs_swapping);  // max
+      read_wide(stream, element_tag, is_binary, needs_swapping);  // min
+      read_wide(stream, element_tag, is_binary, needs_swapping);  // max
     }
     for (int entity_block = 0; entity_block < num_entity_blocks;
          ++entity_block) {
@@ -376,7 +401,7 @@ void read_internal(std::istream& stream, Mesh* mesh) {
       }
       int ent_type, num_block_ents;
       read(stream, ent_type, is_binary, needs_swapping);
-      read(stream, num_block_ents, is_binary, needs_swapping);
+      read_wide(stream, num_block_ents, is_binary, needs_swapping);
       Int dim = type_dim(ent_type);
       OMEGA_H_CHECK(dim == class_dim);
       if (type_family(ent_type) == OMEGA_H_HYPERCUBE) {
@@ -390,10 +415,10 @@ void read_internal(std::istream& stream, Mesh* mesh) {
       for (int block_ent = 0; block_ent < num_block_ents; ++block_ent) {
         ent_class_ids[dim].push_back(class_id);
         int ent_number;
-        read(stream, ent_number, is_binary, needs_swapping);
+        read_tag(stream, ent_number, format, is_binary, needs_swapping);
         for (int ent_node = 0; ent_node < nodes_per_ent; ++ent_node) {
           int node_number;
-          read(stream, node_number, is_binary, needs_swapping);
+          read_tag(stream, node_number, format, is_binary, needs_swapping);
           auto it = node_number_map.find(node_number);
           OMEGA_H_CHECK(it != node_number_map.end());
           ent_nodes[dim].push_back(it->second);
-- 
2.43.0


From f2ea480895192a691f0b2f1febd917f45d2a92be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:35 +0000
Subject: [PATCH 26/97] fix: classify_equal_order counts entities by the
 family's vertices per entity

---
 src/Omega_h_class.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_class.cpp b/src/Omega_h_class.cpp
index 969d7a8..a42a400 100644
--- a/src/Omega_h_class.cpp
+++ b/src/Omega_h_class.cpp
@@ -1,6 +1,7 @@
 #include "Omega_h_class.hpp"
 
 #include "Omega_h_array_ops.hpp"
+#include "Omega_h_element.hpp"
 #include "Omega_h_for.hpp"
 #include "Omega_h_map.hpp"
 #include "Omega_h_mark.hpp"
@@ -181,7 +182,7 @@ void classify_equal_order(
     find_matches(mesh->family(), ent_dim, eqv2v, ev2v, v2e, &eq2e_w, &codes);
     eq2e = eq2e_w;
   }
-  auto neq = eqv2v.size() / (ent_dim + 1);
+  auto neq = eqv2v.size() / element_degree(mesh->family(), ent_dim, VERT);
   auto eq_class_dim = Read<I8>(neq, I8(ent_dim));
   auto class_dim =
       map_onto(eq_class_dim, eq2e, mesh->nents(ent_dim), I8(mesh->dim()), 1);
-- 
2.43.0


From f16a7a4866373b975bd0cfc55bb7084a8b6a34af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 27/97] fix: gmsh::write writes each vertex of the model at its
 own node

---
 src/Omega_h_gmsh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_gmsh.cpp b/src/Omega_h_gmsh.cpp
index ae8aab0..032a556 100644
--- a/src/Omega_h_gmsh.cpp
+++ b/src/Omega_h_gmsh.cpp
@@ -776,7 +776,8 @@ void write(std::ostream& stream, Mesh* mesh) {
     auto nents = mesh->nents(ent_dim);
     auto d_class_ids = mesh->get_array<ClassId>(ent_dim, "class_id");
     auto d_class_dims = mesh->get_array<Byte>(ent_dim, "class_dim");
-    auto d_ents2verts = mesh->ask_verts_of(ent_dim);
+    auto d_ents2verts = (ent_dim == VERT) ? LOs(nents, 0, 1)
+                                          : mesh->ask_verts_of(ent_dim);
     auto h_class_ids = HostRead<ClassId>(d_class_ids);
     auto h_class_dims = HostRead<Byte>(d_class_dims);
     auto h_ents2verts = HostRead<LO>(d_ents2verts);
-- 
2.43.0


From 97d21a9208464d96ed41925a920f757a3595c220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:16 +0000
Subject: [PATCH 28/97] fix: VTK output of vertices as cells gives each its own
 point

---
 src/Omega_h_vtk.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_vtk.cpp b/src/Omega_h_vtk.cpp
index a3a65e1..7054a9c 100644
--- a/src/Omega_h_vtk.cpp
+++ b/src/Omega_h_vtk.cpp
@@ -402,7 +402,8 @@ static void write_connectivity(
     std::ostream& stream, Mesh* mesh, Int cell_dim, bool compress) {
   Read<I8> types(mesh->nents(cell_dim), vtk_type(mesh->family(), cell_dim));
   write_array(stream, "types", 1, types, compress);
-  LOs ev2v = mesh->ask_verts_of(cell_dim);
+  LOs ev2v = (cell_dim == VERT) ? LOs(mesh->nverts(), 0, 1)
+                                : mesh->ask_verts_of(cell_dim);
   auto deg = element_degree(mesh->family(), cell_dim, VERT);
   /* starts off already at the end of the first entity's adjacencies,
      increments by a constant value */
-- 
2.43.0


From 6bdba83ee35e1a32c8d1a8e6a932a50af32e6798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:51 +0000
Subject: [PATCH 29/97] fix: prevent_coarsen_flip computes normals only where
 all sides are known

Ghost copies of a vertex may have only some of the sides around it, and the
most normal normal of such a partial set need not exist (assertion).
---
 src/Omega_h_coarsen_flip.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_coarsen_flip.cpp b/src/Omega_h_coarsen_flip.cpp
index 9be0c9e..21e4af6 100644
--- a/src/Omega_h_coarsen_flip.cpp
+++ b/src/Omega_h_coarsen_flip.cpp
@@ -19,7 +19,10 @@ Reals compute_flip_normals_dim(Mesh* mesh, Bytes sides_are_exposed,
   constexpr auto side_dim = dim - 1;
   auto v2s = mesh->ask_up(VERT, side_dim);
   auto sv2v = mesh->ask_verts_of(side_dim);
-  auto verts_that_matter = collect_marked(verts_matter);
+  // only owners are sure to have all the sides around a vertex,
+  // the values of the other copies come from the sync below
+  auto verts_that_matter =
+      collect_marked(land_each(verts_matter, mesh->owned(VERT)));
   auto coords = mesh->coords();
   auto out = Write<Real>(mesh->nverts() * dim, 0.0);
   auto const threshold_copy = simple_algorithm_threshold;
-- 
2.43.0


From b6fe063da3cf06130e12bf0849356dd98cf8e4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:51 +0000
Subject: [PATCH 30/97] fix: coarsening and swapping work on processes without
 vertices

The metric dimension was derived from the number of values per vertex, which
divides by zero on a process that holds no part of the mesh.
---
 src/Omega_h_coarsen_qualities.cpp | 3 +--
 src/Omega_h_swap2d_qualities.cpp  | 3 +--
 src/Omega_h_swap3d_qualities.cpp  | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/Omega_h_coarsen_qualities.cpp b/src/Omega_h_coarsen_qualities.cpp
index 5a6bf6f..1603284 100644
--- a/src/Omega_h_coarsen_qualities.cpp
+++ b/src/Omega_h_coarsen_qualities.cpp
@@ -64,8 +64,7 @@ Reals coarsen_qualities_tmpl(
 
 Reals coarsen_qualities(Mesh* mesh, LOs cands2edges, Read<I8> cand_codes) {
   OMEGA_H_CHECK(mesh->parting() == OMEGA_H_GHOSTED);
-  auto metrics = mesh->get_array<Real>(VERT, "metric");
-  auto metric_dim = get_metrics_dim(mesh->nverts(), metrics);
+  auto metric_dim = get_metric_dim(mesh);
   auto cand_quals = Reals();
   if (mesh->dim() == 3 && metric_dim == 3) {
     return coarsen_qualities_tmpl<3, 3>(mesh, cands2edges, cand_codes);
diff --git a/src/Omega_h_swap2d_qualities.cpp b/src/Omega_h_swap2d_qualities.cpp
index 441b3fd..4272eb0 100644
--- a/src/Omega_h_swap2d_qualities.cpp
+++ b/src/Omega_h_swap2d_qualities.cpp
@@ -73,8 +73,7 @@ Reals swap2d_qualities_tmpl(
 
 Reals swap2d_qualities(Mesh* mesh, AdaptOpts const& opts, LOs cands2edges) {
   OMEGA_H_CHECK(mesh->parting() == OMEGA_H_GHOSTED);
-  auto metrics = mesh->get_array<Real>(VERT, "metric");
-  auto metric_dim = get_metrics_dim(mesh->nverts(), metrics);
+  auto metric_dim = get_metric_dim(mesh);
   if (metric_dim == 2) {
     return swap2d_qualities_tmpl<2>(mesh, opts, cands2edges);
   }
diff --git a/src/Omega_h_swap3d_qualities.cpp b/src/Omega_h_swap3d_qualities.cpp
index 0df5091..186edec 100644
--- a/src/Omega_h_swap3d_qualities.cpp
+++ b/src/Omega_h_swap3d_qualities.cpp
@@ -61,8 +61,7 @@ void swap3d_qualities(Mesh* mesh, AdaptOpts const& opts, LOs cands2edges,
     Reals* cand_quals, Read<I8>* cand_configs) {
   OMEGA_H_CHECK(mesh->parting() == OMEGA_H_GHOSTED);
   OMEGA_H_CHECK(mesh->dim() == 3);
-  auto metrics = mesh->get_array<Real>(VERT, "metric");
-  auto metric_dim = get_metrics_dim(mesh->nverts(), metrics);
+  auto metric_dim = get_metric_dim(mesh);
   if (metric_dim == 3) {
     swap3d_qualities_tmpl<3>(mesh, opts, cands2edges, cand_quals, cand_configs);
     return;
-- 
2.43.0


From 2109f750a162b3711c6bae8ebc4d91cc17342e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 31/97] fix: get_most_normal_normal returns zero when no
 hemisphere holds all vectors

Such vertices exist where parts of the surface touch at a point or an edge;
the abort took down any adaptation with should_prevent_coarsen_flip. Pairs of
opposite vectors made a NaN bisector that passed every comparison.
---
 src/Omega_h_most_normal.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_most_normal.hpp b/src/Omega_h_most_normal.hpp
index 0501340..4f19227 100644
--- a/src/Omega_h_most_normal.hpp
+++ b/src/Omega_h_most_normal.hpp
@@ -22,6 +22,8 @@ OMEGA_H_INLINE Vector<3> get_most_normal_normal(
     for (Int j = i + 1; j < n; ++j) {
       // Compute the bisector vector (center):
       auto N_b = N[i] + N[j];
+      // opposite vectors have no bisector
+      if (norm(N_b) < 1e-6) continue;
       N_b = normalize(N_b);
       // Compute the radius (angle):
       auto scal = N_b * N[i];
@@ -81,7 +83,8 @@ OMEGA_H_INLINE Vector<3> get_most_normal_normal(
       }
     }
   }
-  OMEGA_H_CHECK(scalmin > -1.0);
+  // if no hemisphere contains all the vectors, which happens where parts of
+  // the surface touch at a point, (c) is still zero
   return c;
 }
 
-- 
2.43.0


From 570d7729218ed3a433f37847a36a2dd01aac9945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 32/97] fix: prevent_coarsen_flip does not abort on vertices
 with many outside sides

---
 src/Omega_h_coarsen_flip.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_coarsen_flip.cpp b/src/Omega_h_coarsen_flip.cpp
index 21e4af6..822e7f1 100644
--- a/src/Omega_h_coarsen_flip.cpp
+++ b/src/Omega_h_coarsen_flip.cpp
@@ -37,7 +37,9 @@ Reals compute_flip_normals_dim(Mesh* mesh, Bytes sides_are_exposed,
     for (auto vs = v2s.a2ab[v]; vs < v2s.a2ab[v + 1]; ++vs) {
       auto s = v2s.ab2b[vs];
       if (!sides_are_exposed_copy[s]) continue;
-      OMEGA_H_CHECK(n < max_adj_sides);
+      // too many sides to find a normal for all of them: keep the zero vector,
+      // with which no collapse that changes sides at this vertex is allowed
+      if (n == max_adj_sides) return;
       constexpr auto side_dim2 = dim - 1;
       auto ssv2v = gather_verts<side_dim2 + 1>(sv2v, s);
       auto ssv2x = gather_vectors<side_dim2 + 1, dim>(coords, ssv2v);
-- 
2.43.0


From 944559139dd64ede6130594be71c9419cc71a6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 33/97] fix: conservative transfer works on processes without
 elements

---
 src/Omega_h_conserve.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/Omega_h_conserve.cpp b/src/Omega_h_conserve.cpp
index c31a721..fe53226 100644
--- a/src/Omega_h_conserve.cpp
+++ b/src/Omega_h_conserve.cpp
@@ -210,10 +210,8 @@ static void carry_class_bdry_integ_error(Mesh* old_mesh, Mesh* new_mesh,
    of error being introduced, compares the old and new integrals
    and adds the relevant error to the element error array */
 static void introduce_class_integ_error(Mesh* old_mesh, Mesh* new_mesh,
-    Cavs class_cavs, Reals old_elem_densities, Reals new_elem_densities,
-    Write<Real> new_elem_errors_w) {
-  auto ncomps =
-      divide_no_remainder(old_elem_densities.size(), old_mesh->nelems());
+    Cavs class_cavs, Int ncomps, Reals old_elem_densities,
+    Reals new_elem_densities, Write<Real> new_elem_errors_w) {
   auto keys2new_elems = class_cavs.keys2new_elems;
   auto keys2old_elems = class_cavs.keys2old_elems;
   auto old_elem_sizes = old_mesh->ask_sizes();
@@ -264,7 +262,7 @@ static void transfer_integ_error(Mesh* old_mesh, Mesh* new_mesh,
   for (std::size_t i = 0; i < 3; ++i) {
     if (!conserved_bools.this_time[i]) {
       for (auto class_cavs : cavs[i][CLASS_COLOR]) {
-        introduce_class_integ_error(old_mesh, new_mesh, class_cavs,
+        introduce_class_integ_error(old_mesh, new_mesh, class_cavs, ncomps,
             old_elem_densities, new_elem_densities, new_elem_errors_w);
       }
     }
@@ -685,11 +683,10 @@ static Reals diffuse_densities(Mesh* mesh, Graph g, Reals densities,
   return densities;
 }
 
-static Reals diffuse_integrals_weighted(Mesh* mesh, Graph g,
+static Reals diffuse_integrals_weighted(Mesh* mesh, Graph g, Int ncomps,
     Reals error_integrals, Reals quantity_integrals, VarCompareOpts opts,
     std::string const& name, bool verbose) {
   if (opts.type == VarCompareOpts::NONE) return error_integrals;
-  auto ncomps = divide_no_remainder(error_integrals.size(), g.nnodes());
   if (ncomps > 1) {
     Write<Real> out(error_integrals.size());
     for (Int c = 0; c < ncomps; ++c) {
@@ -697,7 +694,7 @@ static Reals diffuse_integrals_weighted(Mesh* mesh, Graph g,
       auto comp_quantity_integrals =
           get_component(quantity_integrals, ncomps, c);
       auto comp_name = name + "_" + std::to_string(c);
-      comp_integrals = diffuse_integrals_weighted(mesh, g, comp_integrals,
+      comp_integrals = diffuse_integrals_weighted(mesh, g, 1, comp_integrals,
           comp_quantity_integrals, opts, comp_name, verbose);
       set_component(out, comp_integrals, ncomps, c);
     }
@@ -726,7 +723,7 @@ static void correct_density_error(Mesh* mesh, TransferOpts const& xfer_opts,
   Reals old_integrals = multiply_each(old_densities, sizes);
   auto errors = mesh->get_array<Real>(dim, error_name);
   auto diffuse_tol = xfer_opts.integral_diffuse_map.find(integral_name)->second;
-  errors = diffuse_integrals_weighted(mesh, diffusion_graph, errors,
+  errors = diffuse_integrals_weighted(mesh, diffusion_graph, ncomps, errors,
       old_integrals, diffuse_tol, error_name, verbose);
   mesh->set_tag(dim, error_name, errors);
   auto new_integrals = subtract_each(old_integrals, errors);
@@ -765,8 +762,8 @@ void correct_momentum_error(Mesh* mesh, TransferOpts const& xfer_opts,
   auto elem_errors = mesh->get_array<Real>(dim, error_name);
   elem_errors = add_each(elem_errors, elem_errors_from_density);
   auto diffuse_tol = xfer_opts.integral_diffuse_map.find(momentum_name)->second;
-  elem_errors = diffuse_integrals_weighted(mesh, diffusion_graph, elem_errors,
-      new_elem_momenta, diffuse_tol, error_name, verbose);
+  elem_errors = diffuse_integrals_weighted(mesh, diffusion_graph, ncomps,
+      elem_errors, new_elem_momenta, diffuse_tol, error_name, verbose);
   mesh->set_tag(dim, error_name, elem_errors);
   auto out = deep_copy(vert_velocities);
   auto f = OMEGA_H_LAMBDA(LO v) {
-- 
2.43.0


From 6b7953fdad53ab14435214b60f0fd26bc6c79998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 34/97] fix: conservation errors of elements away from the
 boundary are carried along

The error a boundary operation introduces is spread over all elements of a
cavity, also over those that do not touch the boundary; later operations in
the interior dropped it, so integrals drifted in domains with curved sides.
---
 src/Omega_h_conserve.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_conserve.cpp b/src/Omega_h_conserve.cpp
index fe53226..be0fbf9 100644
--- a/src/Omega_h_conserve.cpp
+++ b/src/Omega_h_conserve.cpp
@@ -324,9 +324,11 @@ static void transfer_momentum_error(Mesh* old_mesh, TransferOpts const& opts,
       conserved_bools);
 }
 
+/* errors introduced at the boundary are spread over whole CLASS_COLOR cavities,
+   so elements away from the boundary hold errors to be carried along as well */
 struct OpConservation {
   OpConservation() {
-    density.always[NOT_BDRY] = true;
+    density.always[NOT_BDRY] = false;
     density.always[TOUCH_BDRY] = false;
     density.always[KEY_BDRY] = false;
     momentum.always[NOT_BDRY] = false;
-- 
2.43.0


From fe04920725a9a28bc72fb19217fc7a280a55239b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:38 +0000
Subject: [PATCH 35/97] fix: get_most_normal_normal skips triples that are too
 nearly dependent

---
 src/Omega_h_most_normal.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_most_normal.hpp b/src/Omega_h_most_normal.hpp
index 4f19227..3e8c695 100644
--- a/src/Omega_h_most_normal.hpp
+++ b/src/Omega_h_most_normal.hpp
@@ -66,8 +66,9 @@ OMEGA_H_INLINE Vector<3> get_most_normal_normal(
         N_c = normalize(N_c);
         // Compute the radius
         auto scal = N_c * N[i];
-        OMEGA_H_CHECK(are_close(scal, N_c * N[j]));
-        OMEGA_H_CHECK(are_close(scal, N_c * N[k]));
+        // nearly co-linear vectors can make this too inaccurate to use
+        if (!are_close(scal, N_c * N[j])) continue;
+        if (!are_close(scal, N_c * N[k])) continue;
         // Compare the current against smallest length
         if (scal < scalmin) continue;
         // Are all the points inside this circle?
-- 
2.43.0


From 107c8f30927e3513b70be5434ce9701da2af7ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 36/97] fix: transfer pointwise element fields in 1D when
 coarsening and swapping

---
 src/Omega_h_transfer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Omega_h_transfer.cpp b/src/Omega_h_transfer.cpp
index 9aa7595..5d89ed0 100644
--- a/src/Omega_h_transfer.cpp
+++ b/src/Omega_h_transfer.cpp
@@ -577,6 +577,10 @@ void transfer_pointwise(Mesh* old_mesh, TransferOpts const& opts,
         transfer_pointwise_tmpl<2>(old_mesh, new_mesh, key_dim, keys2kds,
             keys2prods, prods2new_ents, same_ents2old_ents, same_ents2new_ents,
             tagbase);
+      } else if (dim == 1) {
+        transfer_pointwise_tmpl<1>(old_mesh, new_mesh, key_dim, keys2kds,
+            keys2prods, prods2new_ents, same_ents2old_ents, same_ents2new_ents,
+            tagbase);
       }
     }
   }
-- 
2.43.0


From bf4f8f94d7b62e8b5efc7f65aa98471a3aeb0433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:35 +0000
Subject: [PATCH 37/97] fix: AMR inherited transfer of tags with several
 components

---
 src/Omega_h_amr_transfer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_amr_transfer.cpp b/src/Omega_h_amr_transfer.cpp
index c339943..732b582 100644
--- a/src/Omega_h_amr_transfer.cpp
+++ b/src/Omega_h_amr_transfer.cpp
@@ -139,7 +139,7 @@ void transfer_inherit(Mesh* old_mesh, Mesh* new_mesh,
   Few<Write<T>, 4> new_data;
   auto ncomps = old_mesh->get_tag<T>(0, name)->ncomps();
   for (Int prod_dim = 0; prod_dim <= old_mesh->dim(); ++prod_dim) {
-    new_data[prod_dim] = Write<T>(new_mesh->nents(prod_dim), -1);
+    new_data[prod_dim] = Write<T>(new_mesh->nents(prod_dim) * ncomps, -1);
     auto old_data = old_mesh->get_array<T>(prod_dim, name);
     auto same_data =
         read(unmap(same_ents2old_ents[prod_dim], old_data, ncomps));
@@ -153,7 +153,10 @@ void transfer_inherit(Mesh* old_mesh, Mesh* new_mesh,
       auto parent_ent = parents.parent_idx[prod_ent];
       auto code = parents.codes[prod_ent];
       auto parent_dim = code_parent_dim(code);
-      new_data[prod_dim][prod_ent] = new_data[parent_dim][parent_ent];
+      for (Int comp = 0; comp < ncomps; ++comp) {
+        new_data[prod_dim][prod_ent * ncomps + comp] =
+            new_data[parent_dim][parent_ent * ncomps + comp];
+      }
     };
     parallel_for(prods2new_ents[prod_dim].size(), f);
     new_mesh->add_tag(
-- 
2.43.0


From d8ca41957131b58dc1eeb5cf98c874a7fff7e9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:59 +0000
Subject: [PATCH 38/97] fix: vertices keep their parents when entities are
 removed from an AMR mesh

---
 src/Omega_h_unmap_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_unmap_mesh.cpp b/src/Omega_h_unmap_mesh.cpp
index 990ef61..0d9c098 100644
--- a/src/Omega_h_unmap_mesh.cpp
+++ b/src/Omega_h_unmap_mesh.cpp
@@ -67,7 +67,7 @@ void unmap_owners(Mesh* old_mesh, Mesh* new_mesh, Int ent_dim,
 
 void unmap_parents(Mesh* old_mesh, Mesh* new_mesh,
     LOs new_ents2old_ents_a[], Few<LOs, 4> old_ents2new_ents) {
-  for (Int ent_dim = 1; ent_dim <= new_mesh->dim(); ++ent_dim) {
+  for (Int ent_dim = 0; ent_dim <= new_mesh->dim(); ++ent_dim) {
     auto new_ents2old_ents = new_ents2old_ents_a[ent_dim];
     auto nnew_ents = new_ents2old_ents.size();
     Write<LO> new_parent_idx(nnew_ents, -1, "parent idx");
-- 
2.43.0


From e7ca1aa66b87e33b22f2d1d999fe131ea7920d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:48 +0000
Subject: [PATCH 39/97] fix: one-level AMR enforcement read uninitialised marks
 and did not propagate

---
 src/Omega_h_amr.cpp | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/Omega_h_amr.cpp b/src/Omega_h_amr.cpp
index bd31771..8f790c7 100644
--- a/src/Omega_h_amr.cpp
+++ b/src/Omega_h_amr.cpp
@@ -1,6 +1,7 @@
 #include <Omega_h_amr.hpp>
 #include <Omega_h_amr_topology.hpp>
 #include <Omega_h_amr_transfer.hpp>
+#include <Omega_h_array_ops.hpp>
 #include <Omega_h_for.hpp>
 #include <Omega_h_globals.hpp>
 #include <Omega_h_hypercube.hpp>
@@ -31,8 +32,7 @@ void remove_non_leaf_uses(Mesh* mesh) {
 
 static OMEGA_H_DEVICE Byte should_elem_be_refined(LO elem, Adj elems2bridges,
     Adj bridges2elems, Bytes is_interior, Bytes is_bridge_leaf,
-    Int nbridges_per_elem, Children children, Bytes elems_are_marked,
-    Write<Byte> one_level_mark) {
+    Int nbridges_per_elem, Children children, Bytes elems_are_marked) {
   Byte mark = 0;
   for (Int b = 0; b < nbridges_per_elem; ++b) {
     auto bridge = elems2bridges.ab2b[elem * nbridges_per_elem + b];
@@ -47,7 +47,6 @@ static OMEGA_H_DEVICE Byte should_elem_be_refined(LO elem, Adj elems2bridges,
       OMEGA_H_CHECK((child_adj_elem_end - child_adj_elem_begin) == 1);
       auto child_adj_elem = bridges2elems.ab2b[child_adj_elem_begin];
       if (elems_are_marked[child_adj_elem]) mark = 1;
-      if (one_level_mark[child_adj_elem]) mark = 1;
     }
   }
   return mark;
@@ -64,20 +63,29 @@ Bytes enforce_2to1_refine(Mesh* mesh, Int bridge_dim, Bytes elems_are_marked) {
   auto nbridges_per_elem = Omega_h::hypercube_degree(elem_dim, bridge_dim);
   auto is_interior = Omega_h::mark_by_class_dim(mesh, bridge_dim, elem_dim);
   auto children = mesh->ask_children(bridge_dim, bridge_dim);
-  Write<Byte> one_level_mark(mesh->nelems());
-  auto f = OMEGA_H_LAMBDA(LO elem) {
-    if (!is_elem_leaf[elem]) {
-      one_level_mark[elem] = 0;
-    } else if (elems_are_marked[elem]) {
-      one_level_mark[elem] = 1;
-    } else {
-      one_level_mark[elem] = should_elem_be_refined(elem, elems2bridges,
-          bridges2elems, is_interior, is_bridge_leaf, nbridges_per_elem,
-          children, elems_are_marked, one_level_mark);
-    }
-  };
-  Omega_h::parallel_for(mesh->nelems(), f, "enforce_one_level");
-  return one_level_mark;
+  auto marks = land_each(is_elem_leaf, elems_are_marked);
+  /* marking an element can require its own coarser neighbors to be marked,
+     so repeat until no more marks are added */
+  while (true) {
+    Write<Byte> one_level_mark(mesh->nelems());
+    auto f = OMEGA_H_LAMBDA(LO elem) {
+      if (!is_elem_leaf[elem]) {
+        one_level_mark[elem] = 0;
+      } else if (marks[elem]) {
+        one_level_mark[elem] = 1;
+      } else {
+        one_level_mark[elem] = should_elem_be_refined(elem, elems2bridges,
+            bridges2elems, is_interior, is_bridge_leaf, nbridges_per_elem,
+            children, marks);
+      }
+    };
+    Omega_h::parallel_for(mesh->nelems(), f, "enforce_one_level");
+    auto const new_marks = Bytes(one_level_mark);
+    auto const done = (new_marks == marks);
+    marks = new_marks;
+    if (done) break;
+  }
+  return marks;
 }
 
 static void refine_ghosted(Mesh* mesh) {
-- 
2.43.0


From d824058969f1c2e8337c3950659c2542451484f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:51 +0000
Subject: [PATCH 40/97] fix: positivize chooses one of each pair of opposite
 vectors also when components are zero

---
 src/Omega_h_vector.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_vector.hpp b/src/Omega_h_vector.hpp
index a86ca9c..dbb06f1 100644
--- a/src/Omega_h_vector.hpp
+++ b/src/Omega_h_vector.hpp
@@ -210,8 +210,12 @@ OMEGA_H_INLINE Vector<n> pseudo_invert(Vector<n> a) OMEGA_H_NOEXCEPT {
 template <Int n>
 OMEGA_H_INLINE Vector<n> positivize(Vector<n> v) OMEGA_H_NOEXCEPT {
   std::uint32_t bits = 0;
-  for (Int i = 0; i < n; ++i) bits |= (std::uint32_t(v[i] >= 0.0) << i);
-  std::uint32_t neg_bits = (~bits) & ((std::uint32_t(1) << n) - 1);
+  std::uint32_t neg_bits = 0;
+  for (Int i = 0; i < n; ++i) {
+    bits |= (std::uint32_t(v[i] >= 0.0) << i);
+    /* the bits of the opposite vector, zeros count for both of them */
+    neg_bits |= (std::uint32_t(v[i] <= 0.0) << i);
+  }
   if (neg_bits > bits) return v * -1.0;
   return v;
 }
-- 
2.43.0


From 4730b7084d1f5880762ae078a929e4a7e30d8045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:51 +0000
Subject: [PATCH 41/97] fix: get_max_eigenvalues normalises the tensor before
 finding roots with absolute tolerances

---
 src/Omega_h_eigen.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Omega_h_eigen.cpp b/src/Omega_h_eigen.cpp
index 616f85a..936c310 100644
--- a/src/Omega_h_eigen.cpp
+++ b/src/Omega_h_eigen.cpp
@@ -24,9 +24,15 @@ Reals get_max_eigenvalues_dim(Reals symms) {
   auto out = Write<Real>(n);
   auto f = OMEGA_H_LAMBDA(LO i) {
     auto a = get_symm<dim>(symms, i);
-    auto ews = get_eigenvalues(a);
-    auto max_ew = maximum_magnitude(ews.values, ews.n);
-    out[i] = max_ew;
+    /* as in decompose_eigen(), the tolerances of the root finder
+       assume a matrix of unit magnitude */
+    auto nm = max_norm(a);
+    if (nm == 0.0) {
+      out[i] = 0.0;
+    } else {
+      auto ews = get_eigenvalues(a / nm);
+      out[i] = maximum_magnitude(ews.values, ews.n) * nm;
+    }
   };
   parallel_for(n, f, "get_max_eigenvalues");
   return out;
-- 
2.43.0


From c8ad447cd6f3ba743fb4b624989b4fa3bdb2880a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 42/97] fix: signs of the 2x2 SVD when the off-diagonal entry
 dominates

---
 src/Omega_h_svd.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/Omega_h_svd.hpp b/src/Omega_h_svd.hpp
index dcbc3c2..975b169 100644
--- a/src/Omega_h_svd.hpp
+++ b/src/Omega_h_svd.hpp
@@ -67,12 +67,13 @@ SVD<2> svd_bidiagonal(Real f, Real const g, Real h) noexcept {
   }
   // diagonal matrix
   if (ga == 0.0) {
-    s1 = ha;
-    s0 = fa;
+    s1 = h;
+    s0 = f;
   } else if (ga > fa && fa / ga < DBL_EPSILON) {
     // case of very large ga
-    s0 = ga;
-    s1 = ha > 1.0 ? Real(fa / (ga / ha)) : Real((fa / ga) * ha);
+    // these signs are consistent with the vectors below
+    s0 = g;
+    s1 = ha > 1.0 ? Real(f / (g / h)) : Real((f / g) * h);
     cu = 1.0;
     su = h / g;
     cv = f / g;
@@ -106,10 +107,10 @@ SVD<2> svd_bidiagonal(Real f, Real const g, Real h) noexcept {
     sv = tau / lv;
     cu = (cv + sv * m) / a;
     su = (h / f) * sv / a;
+    // Fix signs of singular values in accordance to sign of singular vectors
+    s0 = std::copysign(s0, f);
+    s1 = std::copysign(s1, h);
   }
-  // Fix signs of singular values in accordance to sign of singular vectors
-  s0 = std::copysign(s0, f);
-  s1 = std::copysign(s1, h);
   if (swap_diag == true) {
     swap2(cu, sv);
     swap2(su, cv);
-- 
2.43.0


From 767534b97e4298a7caecb62875d0966fb39ea764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 43/97] fix: sort_by_magnitude selects the largest remaining
 eigenvalue

---
 src/Omega_h_eigen.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_eigen.hpp b/src/Omega_h_eigen.hpp
index f666d33..437df5a 100644
--- a/src/Omega_h_eigen.hpp
+++ b/src/Omega_h_eigen.hpp
@@ -459,7 +459,10 @@ OMEGA_H_INLINE DiagDecomp<dim> sort_by_magnitude(DiagDecomp<dim> const dd) {
     auto max_m = std::abs(dd.l[perm[max_j]]);
     for (Int j = i + 1; j < dim; ++j) {
       auto m = std::abs(dd.l[perm[j]]);
-      if (m > max_m) max_j = j;
+      if (m > max_m) {
+        max_j = j;
+        max_m = m;
+      }
     }
     swap2(perm[i], perm[max_j]);
   }
-- 
2.43.0


From 5ae24c6ef26070f87b89760e05fa75e7d71fa3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:04 +0000
Subject: [PATCH 44/97] fix: rotation_angle clamps the cosine into the domain
 of acos

---
 src/Omega_h_matrix.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_matrix.hpp b/src/Omega_h_matrix.hpp
index c21ee85..805a310 100644
--- a/src/Omega_h_matrix.hpp
+++ b/src/Omega_h_matrix.hpp
@@ -547,7 +547,8 @@ OMEGA_H_INLINE Real rotation_angle(Tensor<2> const r) {
 
 OMEGA_H_INLINE Real rotation_angle(Tensor<3> const r) {
   auto const cos_theta = 0.5 * (trace(r) - 1.0);
-  return std::acos(cos_theta);
+  /* roundoff can push the cosine outside the domain of acos */
+  return std::acos(clamp(cos_theta, -1.0, 1.0));
 }
 
 OMEGA_H_INLINE Tensor<1> form_ortho_basis(Vector<1> const v) {
-- 
2.43.0


From 83dc7687be07570ffa1e7d0010bc813145adc79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:54 +0000
Subject: [PATCH 45/97] fix: decompose_eigen gave far from orthogonal vectors
 for nearly isotropic 3x3 tensors

---
 src/Omega_h_eigen.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Omega_h_eigen.hpp b/src/Omega_h_eigen.hpp
index 437df5a..77b665b 100644
--- a/src/Omega_h_eigen.hpp
+++ b/src/Omega_h_eigen.hpp
@@ -247,9 +247,13 @@ OMEGA_H_INLINE DiagDecomp<3> decompose_eigen_dim(Tensor<3> const m) {
   } else if (nroots == 2 && mults[1] == 2) {
     q[0] = single_eigenvector(m, roots[0]);
     l[0] = roots[0];
-    auto dev = double_eigenvector(m, roots[1]);
-    q[1] = dev[0];
-    q[2] = dev[1];
+    /* roots[1] may be the average of two slightly different roots, so the
+       row space of (m - roots[1]*I) need not be 1D and a vector from it may be
+       far from accurate. instead, use the fact that right eigenvectors are
+       orthogonal to the left eigenvectors of all other roots. */
+    auto b = form_ortho_basis(single_eigenvector(transpose(m), roots[0]));
+    q[1] = b[1];
+    q[2] = b[2];
     l[1] = l[2] = roots[1];
   } else {
     OMEGA_H_CHECK(nroots == 1 && mults[0] == 3);
-- 
2.43.0


From 80a472eadb793a4739520b1e2fa2b6134cd68ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:33 +0000
Subject: [PATCH 46/97] fix: align_packed_axis_angles divided by zero for the
 identity rotation

---
 src/Omega_h_lie.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Omega_h_lie.hpp b/src/Omega_h_lie.hpp
index ae3bb7b..b5ecfe6 100644
--- a/src/Omega_h_lie.hpp
+++ b/src/Omega_h_lie.hpp
@@ -230,6 +230,7 @@ OMEGA_H_INLINE void align_packed_axis_angles(Matrix<dim, dim>* const a,
   if (s > (n * PI)) {  // renormalize so that ||s_i|| <= pi
     for (Int i = 0; i < n; ++i) {
       auto s_i = unpack_polar_axis_angle(a[i]);
+      if (norm(s_i) == 0.0) continue;  // no axis to turn around
       s_i = s_i - two_pi * normalize(s_i);
       a[i] = pack_polar(unpack_polar_spd(a[i]), s_i);
     }
-- 
2.43.0


From 75925ad660d194f76ea189c717a8335cd32f27bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:30 +0000
Subject: [PATCH 47/97] fix: intersection of degenerate 2D metrics tested for
 the wrong relation of their null directions

---
 src/Omega_h_metric_intersect.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_metric_intersect.hpp b/src/Omega_h_metric_intersect.hpp
index ec5c9af..d30f687 100644
--- a/src/Omega_h_metric_intersect.hpp
+++ b/src/Omega_h_metric_intersect.hpp
@@ -44,8 +44,8 @@ OMEGA_H_INLINE_BIG Tensor<2> intersect_degenerate_metrics(Tensor<2> const m1,
     else
       l2 = m2_dc.l[i];
   }
-  if (v1 * v2 < OMEGA_H_EPSILON) {
-    // case 5.a
+  if (square(cross(v1, v2)) < OMEGA_H_EPSILON) {
+    // case 5.a (v1 == v2)
     return outer_product(u1, u1) * max2(l1, l2);
   } else {
     // case 5.b
-- 
2.43.0


From 4899c3913ed7be99b62b399738ca263180d5196e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:43 +0000
Subject: [PATCH 48/97] fix: intersection of a metric with one null direction
 and one with two lost off-diagonal terms

---
 src/Omega_h_metric_intersect.hpp | 31 +++++++------------------------
 1 file changed, 7 insertions(+), 24 deletions(-)

diff --git a/src/Omega_h_metric_intersect.hpp b/src/Omega_h_metric_intersect.hpp
index d30f687..b9859be 100644
--- a/src/Omega_h_metric_intersect.hpp
+++ b/src/Omega_h_metric_intersect.hpp
@@ -111,10 +111,7 @@ OMEGA_H_INLINE_BIG Tensor<3> intersect_degenerate_metrics(Tensor<3> const m1,
     auto v1 = zero_vector<3>();
     auto w1 = zero_vector<3>();
     auto u2 = zero_vector<3>();
-    auto v2 = zero_vector<3>();
-    auto w2 = zero_vector<3>();
     bool found_u1 = false;
-    bool found_v2 = false;
     for (Int i = 0; i < 3; ++i) {
       if (m1_ew_is_degen[i])
         w1 = m1_dc.q[i];
@@ -126,18 +123,9 @@ OMEGA_H_INLINE_BIG Tensor<3> intersect_degenerate_metrics(Tensor<3> const m1,
           found_u1 = true;
         }
       }
-      if (!m2_ew_is_degen[i])
-        u2 = m2_dc.q[i];
-      else {
-        if (found_v2) {
-          w2 = m2_dc.q[i];
-        } else {
-          v2 = m2_dc.q[i];
-          found_v2 = true;
-        }
-      }
+      if (!m2_ew_is_degen[i]) u2 = m2_dc.q[i];
     }
-    if (u2 * w1 < EPSILON) {
+    if (square(u2 * w1) < EPSILON) {
       // case 3.a , u2 and w1 are orthogonal
       Matrix<3, 2> P;
       P[0] = u1;
@@ -151,16 +139,11 @@ OMEGA_H_INLINE_BIG Tensor<3> intersect_degenerate_metrics(Tensor<3> const m1,
       return P * (mint_bar * PT);
     } else {
       // case 3.b, u2 and w1 are not orthogonal
-      Tensor<3> P;
-      P[0] = v2;
-      P[1] = w2;
-      P[2] = w1;
-      auto Pinv = invert(P);
-      Vector<3> l;
-      l[0] = P[0] * (m1 * P[0]);
-      l[1] = P[1] * (m1 * P[1]);
-      l[2] = P[2] * (m2 * P[2]);
-      return transpose(Pinv) * diagonal(l) * Pinv;
+      // given two directions orthogonal to u2 in which M_1 is diagonal,
+      // those and w1 reduce both metrics simultaneously: M_1 acts only on the
+      // first two and M_2 only on w1.
+      // the maximum of each pair of eigenvalues is then also their sum.
+      return m1 + m2;
     }
   }
   if (nm1_degen_ews == 1 && nm2_degen_ews == 1) {
-- 
2.43.0


From 9a305167fe9c1be316cfa3087b99788f07f36673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:37 +0000
Subject: [PATCH 49/97] fix: intersection of two metrics with different single
 null directions lost off-diagonal terms

---
 src/Omega_h_metric_intersect.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_metric_intersect.hpp b/src/Omega_h_metric_intersect.hpp
index b9859be..fc1fb7f 100644
--- a/src/Omega_h_metric_intersect.hpp
+++ b/src/Omega_h_metric_intersect.hpp
@@ -179,7 +179,10 @@ OMEGA_H_INLINE_BIG Tensor<3> intersect_degenerate_metrics(Tensor<3> const m1,
       return P * (mint_bar * PT);
     } else {
       // case 4.b
-      w = normalize(w);
+      // the third direction has to be conjugate to the first one with respect
+      // to M_2 and to the second one with respect to M_1, otherwise the
+      // metrics are not both diagonal in this basis
+      w = normalize(cross(m2 * w1, m1 * w2));
       Tensor<3> P;
       P[0] = w1;
       P[1] = w2;
-- 
2.43.0


From 1001c88ce76264a28698acad841e037046b3122d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:49 +0000
Subject: [PATCH 50/97] fix: intersect_metrics missed null directions of
 metrics with large eigenvalues

---
 src/Omega_h_metric_intersect.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/Omega_h_metric_intersect.hpp b/src/Omega_h_metric_intersect.hpp
index fc1fb7f..2fbbd85 100644
--- a/src/Omega_h_metric_intersect.hpp
+++ b/src/Omega_h_metric_intersect.hpp
@@ -208,11 +208,14 @@ OMEGA_H_INLINE_BIG Tensor<dim> intersect_metrics(
   auto m2_dc = decompose_eigen(m2);
   Few<Int, dim> m1_ew_is_degen;
   Few<Int, dim> m2_ew_is_degen;
+  // if EPSILON is 1e-10, this corresponds roughly to edges
+  // of absolute length 1e5 or more being considered "infinite".
+  // null eigenvalues of large metrics are only null up to roundoff
+  auto const m1_tol = max2(OMEGA_H_EPSILON, 1e-12 * max_norm(m1));
+  auto const m2_tol = max2(OMEGA_H_EPSILON, 1e-12 * max_norm(m2));
   for (Int i = 0; i < dim; ++i) {
-    // if EPSILON is 1e-10, this corresponds roughly to edges
-    // of absolute length 1e5 or more being considered "infinite"
-    m1_ew_is_degen[i] = m1_dc.l[i] < OMEGA_H_EPSILON;
-    m2_ew_is_degen[i] = m2_dc.l[i] < OMEGA_H_EPSILON;
+    m1_ew_is_degen[i] = m1_dc.l[i] < m1_tol;
+    m2_ew_is_degen[i] = m2_dc.l[i] < m2_tol;
   }
   auto nm1_degen_ews = reduce(m1_ew_is_degen, plus<Int>());
   auto nm2_degen_ews = reduce(m2_ew_is_degen, plus<Int>());
-- 
2.43.0


From 82e1653293a709405916685b749576296aa2ccb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:41 +0000
Subject: [PATCH 51/97] fix: max_simplex_edge_length did not compile and looked
 at one edge only

---
 src/Omega_h_shape.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_shape.hpp b/src/Omega_h_shape.hpp
index b6e376f..f805fa2 100644
--- a/src/Omega_h_shape.hpp
+++ b/src/Omega_h_shape.hpp
@@ -421,7 +421,7 @@ Real max_simplex_edge_length(Few<Vector<dim>, dim + 1> p) {
   auto b = simplex_basis<dim, dim>(p);
   auto ev = element_edge_vectors(p, b);
   Real mel = norm(ev[0]);
-  for (Int i = 1; i < ev.size; ++i) mel = max2(mel, norm(ev[1]));
+  for (Int i = 1; i < ev.size(); ++i) mel = max2(mel, norm(ev[i]));
   return mel;
 }
 
-- 
2.43.0


From 84ff0f3bf19f3ff90a003ef7b4850ae20dfab68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:23 +0000
Subject: [PATCH 52/97] fix: project_by_fit and project_by_average divided by
 zero on processes without elements

---
 src/Omega_h_recover.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Omega_h_recover.cpp b/src/Omega_h_recover.cpp
index 8e72075..58a4b55 100644
--- a/src/Omega_h_recover.cpp
+++ b/src/Omega_h_recover.cpp
@@ -133,11 +133,20 @@ bool has_interior_verts(Mesh* mesh) {
   return comm->reduce_or(have_local_interior);
 }
 
+/* some processes may have no elements, and hence no way
+   of telling the number of components from their data alone */
+static Int get_elem_data_ncomps(Mesh* mesh, Reals e_data) {
+  Int ncomps = 0;
+  if (mesh->nelems()) {
+    ncomps = divide_no_remainder(e_data.size(), mesh->nelems());
+  }
+  return mesh->comm()->allreduce(ncomps, OMEGA_H_MAX);
+}
+
 Reals project_by_fit(Mesh* mesh, Reals e_data) {
   OMEGA_H_CHECK(mesh->owners_have_all_upward(VERT));
-  OMEGA_H_CHECK(e_data.size() % mesh->nelems() == 0);
   OMEGA_H_CHECK(has_interior_verts(mesh));
-  auto ncomps = e_data.size() / mesh->nelems();
+  auto ncomps = get_elem_data_ncomps(mesh, e_data);
   auto dim = mesh->dim();
   auto v_coeffs = get_interior_coeffs(mesh, e_data, ncomps);
   auto class_dim = mesh->get_array<I8>(VERT, "class_dim");
@@ -150,8 +159,7 @@ Reals project_by_fit(Mesh* mesh, Reals e_data) {
 
 Reals project_by_average(Mesh* mesh, Reals e_data) {
   OMEGA_H_CHECK(mesh->owners_have_all_upward(VERT));
-  OMEGA_H_CHECK(e_data.size() % mesh->nelems() == 0);
-  auto ncomps = e_data.size() / mesh->nelems();
+  auto ncomps = get_elem_data_ncomps(mesh, e_data);
   auto verts2elems = mesh->ask_up(VERT, mesh->dim());
   auto weights = Reals(verts2elems.ab2b.size(), 1.0);
   auto avgs = graph_weighted_average(verts2elems, weights, e_data, ncomps);
-- 
2.43.0


From 205f50b2fe92c3c19108e36e63dba81cba14996a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:23 +0000
Subject: [PATCH 53/97] fix: get_derivative_metrics looked for element tags
 among the vertices

---
 src/Omega_h_metric_input.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_metric_input.cpp b/src/Omega_h_metric_input.cpp
index 10a637a..c496a3f 100644
--- a/src/Omega_h_metric_input.cpp
+++ b/src/Omega_h_metric_input.cpp
@@ -105,7 +105,7 @@ Reals get_derivative_metrics(Mesh* mesh, std::string const& name, Real knob) {
       data = as<Real>(tagbase)->array();
     }
   } else if (mesh->has_tag(dim, name)) {
-    auto tagbase = mesh->get_tagbase(VERT, name);
+    auto tagbase = mesh->get_tagbase(dim, name);
     if (tagbase->type() == OMEGA_H_REAL) {
       if (tagbase->ncomps() == dim) {
         state = ELEM_GRADIENT;
-- 
2.43.0


From f4594f28973618cc896312b013852d1ddcd0fe04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:03 +0000
Subject: [PATCH 54/97] fix: generate_metrics checked the length limits where
 it should check the element count limits

---
 src/Omega_h_metric_input.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_metric_input.cpp b/src/Omega_h_metric_input.cpp
index c496a3f..92ae05d 100644
--- a/src/Omega_h_metric_input.cpp
+++ b/src/Omega_h_metric_input.cpp
@@ -144,7 +144,7 @@ Reals generate_metrics(Mesh* mesh, MetricInput const& input) {
     OMEGA_H_CHECK(input.min_length <= input.max_length);
   }
   if (input.should_limit_element_count) {
-    OMEGA_H_CHECK(input.min_length <= input.max_length);
+    OMEGA_H_CHECK(input.min_element_count <= input.max_element_count);
   }
   auto n = mesh->nverts();
   if (!input.sources.size()) {
-- 
2.43.0


From 97e35d9f8017a83cb5d9decf015055f46cb16c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:31 +0000
Subject: [PATCH 55/97] fix: get_curv_vert_curvatures was NaN next to short
 cuts between curve vertices

---
 src/Omega_h_surface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Omega_h_surface.cpp b/src/Omega_h_surface.cpp
index c087a36..fac3df9 100644
--- a/src/Omega_h_surface.cpp
+++ b/src/Omega_h_surface.cpp
@@ -540,6 +540,8 @@ Reals get_curv_vert_curvatures_dim(Mesh* mesh, LOs curv_edge2edge,
     for (auto ve = verts2edges.a2ab[vert]; ve < verts2edges.a2ab[vert + 1];
          ++ve) {
       auto edge = verts2edges.ab2b[ve];
+      auto curv_edge = edge2curv_edge[edge];
+      if (curv_edge < 0) continue;
       nadj_int_edges += !edges_touch_bdry[edge];
     }
     Real ws = 0.0;
-- 
2.43.0


From f90620cb29f60dc856054c895f0ca7f41126701e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:04 +0000
Subject: [PATCH 56/97] fix: get_curvature_metrics turned the principal
 directions the wrong way

---
 src/Omega_h_metric.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_metric.cpp b/src/Omega_h_metric.cpp
index 7c5573d..dc3961f 100644
--- a/src/Omega_h_metric.cpp
+++ b/src/Omega_h_metric.cpp
@@ -435,7 +435,7 @@ Reals get_curvature_metrics(Mesh* mesh, Real segment_angle) {
       surf_frame_t[0] = frame[1];
       surf_frame_t[1] = frame[2];
       auto const surf_frame = transpose(surf_frame_t);
-      auto const m_q_inv = II_decomp.q * surf_frame;
+      auto const m_q_inv = transpose(II_decomp.q) * surf_frame;
       auto const m_q = pseudo_invert(m_q_inv);
       auto const m = m_q * diagonal(m_ews) * m_q_inv;
       auto const vert = surface_info.surf_vert2vert[surf_vert];
-- 
2.43.0


From 8bc3dfbb20407909d8f3fa3f24a9a4e9b96e9857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:15 +0000
Subject: [PATCH 57/97] fix: limit_metric_gradation never ended for metrics of
 large magnitude

---
 src/Omega_h_metric.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_metric.cpp b/src/Omega_h_metric.cpp
index dc3961f..06b243a 100644
--- a/src/Omega_h_metric.cpp
+++ b/src/Omega_h_metric.cpp
@@ -202,6 +202,11 @@ Reals limit_metric_gradation(
   OMEGA_H_CHECK(mesh->owners_have_all_upward(VERT));
   OMEGA_H_CHECK(max_rate > 0.0);
   auto comm = mesh->comm();
+  /* the round-off errors of off-diagonal terms are proportional to the
+     magnitude of the metrics, they should not keep us from converging */
+  auto const max_magnitude = comm->allreduce(
+      max2(get_max(values), -get_min(values)), OMEGA_H_MAX);
+  auto const floor = EPSILON * max_magnitude;
   Reals values2 = values;
   Int i = 0;
   do {
@@ -211,7 +216,7 @@ Reals limit_metric_gradation(
     if (verbose && can_print(mesh) && i > 0 && i % 50 == 0) {
       std::cout << "warning: gradation limiting is up to step " << i << '\n';
     }
-  } while (!comm->reduce_and(are_close(values, values2, tol)));
+  } while (!comm->reduce_and(are_close(values, values2, tol, floor)));
   if (verbose && can_print(mesh)) {
     std::cout << "limited gradation in " << i << " steps\n";
   }
-- 
2.43.0


From 9af1fc21b33bc9d555810235c43d25f20be66d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:26 +0000
Subject: [PATCH 58/97] fix: compare_meshes reports tags of different type or
 width instead of aborting

---
 src/Omega_h_compare.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Omega_h_compare.cpp b/src/Omega_h_compare.cpp
index 01caaef..5ffe2bc 100644
--- a/src/Omega_h_compare.cpp
+++ b/src/Omega_h_compare.cpp
@@ -232,6 +232,15 @@ Omega_h_Comparison compare_meshes(
         continue;
       }
       auto ncomps = tag->ncomps();
+      auto b_tag = b->get_tagbase(dim, name);
+      if (b_tag->type() != tag->type() || b_tag->ncomps() != ncomps) {
+        if (should_print) {
+          std::cout << topological_singular_name(a->family(), dim) << " tag \""
+                    << name << "\" types or component counts differ\n";
+        }
+        result = OMEGA_H_DIFF;
+        continue;
+      }
       auto tag_opts = opts.tag_opts(dim, name);
       bool ok = false;
       switch (tag->type()) {
-- 
2.43.0


From fa8c91bf003ff01252001bc2c949ebd123bfd409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:05 +0000
Subject: [PATCH 59/97] fix: compare_arrays printed values outside the array
 when they only differ by NaNs

---
 src/Omega_h_compare.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_compare.cpp b/src/Omega_h_compare.cpp
index 5ffe2bc..7b5b81e 100644
--- a/src/Omega_h_compare.cpp
+++ b/src/Omega_h_compare.cpp
@@ -129,7 +129,8 @@ struct CompareArrays<Real> {
     auto global_start = comm->exscan(GO(ah.size()), OMEGA_H_SUM);
     auto global_max_diff = comm->allreduce(max_diff, OMEGA_H_MAX);
     I32 rank_cand = ArithTraits<I32>::max();
-    if (max_diff == global_max_diff) rank_cand = comm->rank();
+    // not-a-number values give no largest difference
+    if (max_i != -1 && max_diff == global_max_diff) rank_cand = comm->rank();
     auto best_rank = comm->allreduce(rank_cand, OMEGA_H_MIN);
     if (comm->rank() == best_rank) {
       auto global_max_i = global_start + max_i;
-- 
2.43.0


From 9cb1eae34742adef2bdf708cdf6c80d8b5edf4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:27 +0000
Subject: [PATCH 60/97] fix: sections of exodiff command files end where the
 next directive starts

---
 src/Omega_h_compare.cpp | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/Omega_h_compare.cpp b/src/Omega_h_compare.cpp
index 7b5b81e..04abec9 100644
--- a/src/Omega_h_compare.cpp
+++ b/src/Omega_h_compare.cpp
@@ -350,6 +350,18 @@ static void parse_exodiff_cmd_file(Mesh const* mesh, std::string const& path,
   Int linenum = 1;
   Int variables_dim = -1;
   VarCompareOpts variables_opts;
+  bool variables_listed = false;
+  // a section that names no variables is about all of them
+  auto end_variables = [&]() {
+    if (variables_dim != -1 && !variables_listed) {
+      for (Int i = 0; i < mesh->ntags(variables_dim); ++i) {
+        auto tagbase = mesh->get_tag(variables_dim, i);
+        p_opts->tags2opts[variables_dim].insert(
+            std::make_pair(tagbase->name(), variables_opts));
+      }
+    }
+    variables_dim = -1;
+  };
   for (std::string line; std::getline(file, line);) {
     std::stringstream line_stream(line);
     if (line.empty()) continue;
@@ -357,7 +369,9 @@ static void parse_exodiff_cmd_file(Mesh const* mesh, std::string const& path,
     for (std::string token; line_stream >> token;) tokens.push_back(token);
     if (tokens.empty()) continue;
     if (tokens[0][0] == '#') continue;
-    if (variables_dim != -1 && line[0] == '\t') {
+    if (line[0] != '\t') end_variables();
+    if (variables_dim != -1) {
+      variables_listed = true;
       auto name = tokens[0];
       if (name[0] == '!') {
         name = name.substr(1, std::string::npos);
@@ -382,13 +396,6 @@ static void parse_exodiff_cmd_file(Mesh const* mesh, std::string const& path,
             parse_compare_opts(tokens, 1, variables_opts, path, linenum);
         p_opts->tags2opts[variables_dim][name] = variable_opts;
       }
-    } else if (variables_dim != -1 && line[0] != '\t' &&
-               p_opts->tags2opts[variables_dim].empty()) {
-      for (Int i = 0; i < mesh->ntags(variables_dim); ++i) {
-        auto tagbase = mesh->get_tag(variables_dim, i);
-        p_opts->tags2opts[variables_dim][tagbase->name()] = variables_opts;
-      }
-      variables_dim = -1;
     } else if (tokens[0] == "COORDINATES") {
       auto opts = parse_compare_opts(tokens, 1, all_defaults, path, linenum);
       p_opts->tags2opts[VERT]["coordinates"] = opts;
@@ -397,21 +404,20 @@ static void parse_exodiff_cmd_file(Mesh const* mesh, std::string const& path,
       auto opts =
           parse_compare_opts(tokens, 2, p_opts->time_step_opts, path, linenum);
       p_opts->time_step_opts = opts;
-    } else if (variables_dim == -1 &&
-               parse_dim_token(tokens[0], mesh_dim) != -1) {
+    } else if (parse_dim_token(tokens[0], mesh_dim) != -1) {
       variables_dim = parse_dim_token(tokens[0], mesh_dim);
       if (!(tokens.size() > 1 && tokens[1] == "VARIABLES")) {
         Omega_h_fail("bad variables header at %s +%d\n", path.c_str(), linenum);
       }
       std::size_t start = 2;
-      bool do_all = false;
+      variables_listed = false;
       if (tokens.size() > 2 && tokens[2] == "(all)") {
-        do_all = true;
+        variables_listed = true;
         ++start;
       }
       variables_opts =
           parse_compare_opts(tokens, start, all_defaults, path, linenum);
-      if (do_all) {
+      if (variables_listed) {
         for (Int i = 0; i < mesh->ntags(variables_dim); ++i) {
           auto tagbase = mesh->get_tag(variables_dim, i);
           p_opts->tags2opts[variables_dim][tagbase->name()] = variables_opts;
@@ -420,12 +426,7 @@ static void parse_exodiff_cmd_file(Mesh const* mesh, std::string const& path,
     }
     ++linenum;
   }
-  if (variables_dim != -1 && p_opts->tags2opts[variables_dim].empty()) {
-    for (Int i = 0; i < mesh->ntags(variables_dim); ++i) {
-      auto tagbase = mesh->get_tag(variables_dim, i);
-      p_opts->tags2opts[variables_dim][tagbase->name()] = variables_opts;
-    }
-  }
+  end_variables();
 }
 
 void accept_diff_program_cmdline(CmdLine const& cmdline, Mesh const* mesh,
-- 
2.43.0


From d83c0aec60b08bdf8806842c9a03fe760e9b3308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:47 +0000
Subject: [PATCH 61/97] fix: mark_dual_layers keeps the marks it starts from

---
 src/Omega_h_mark.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_mark.cpp b/src/Omega_h_mark.cpp
index bfc840d..3593496 100644
--- a/src/Omega_h_mark.cpp
+++ b/src/Omega_h_mark.cpp
@@ -191,7 +191,8 @@ Read<I8> mark_dual_layers(Mesh* mesh, Read<I8> marks, Int nlayers) {
   OMEGA_H_CHECK(mesh->parting() == OMEGA_H_GHOSTED);
   auto dual = mesh->ask_dual();
   for (Int i = 0; i < nlayers; ++i) {
-    marks = graph_reduce(dual, marks, 1, OMEGA_H_MAX);
+    // an element without neighbors reduces to the lowest value
+    marks = max_each(marks, graph_reduce(dual, marks, 1, OMEGA_H_MAX));
     marks = mesh->sync_array(mesh->dim(), marks, 1);
   }
   return marks;
-- 
2.43.0


From f172ab887e24d09fba4492d5c2af1e558fc39d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:14 +0000
Subject: [PATCH 62/97] fix: get_hinge_angles was NaN where round-off leaves
 the domain of acos

---
 src/Omega_h_surface.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_surface.cpp b/src/Omega_h_surface.cpp
index fac3df9..b077e82 100644
--- a/src/Omega_h_surface.cpp
+++ b/src/Omega_h_surface.cpp
@@ -70,7 +70,8 @@ Reals get_hinge_angles_tmpl(Mesh* mesh, Reals surf_side_normals,
       if (-1 == ss) continue;
       n[i++] = get_vector<dim>(surf_side_normals, ss);
     }
-    angles[surf_hinge] = std::acos(n[0] * n[1]);
+    // round-off can leave the domain of acos
+    angles[surf_hinge] = std::acos(clamp(n[0] * n[1], -1.0, 1.0));
   };
   parallel_for(nsurf_hinges, f, "get_hingle_angles");
   return angles;
-- 
2.43.0


From d755e58560749a686982f9be57325ad45e098fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:00 +0000
Subject: [PATCH 63/97] fix: get_hinge_angles wrote past its two normals at the
 edge of ghost layers

---
 src/Omega_h_class.cpp   | 4 +++-
 src/Omega_h_surface.cpp | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_class.cpp b/src/Omega_h_class.cpp
index a42a400..d4883cc 100644
--- a/src/Omega_h_class.cpp
+++ b/src/Omega_h_class.cpp
@@ -44,7 +44,9 @@ void classify_by_angles(Mesh* mesh, Real sharp_angle) {
   OMEGA_H_CHECK(mesh->family() == OMEGA_H_SIMPLEX);
   auto dim = mesh->dim();
   classify_elements(mesh);
-  auto side_is_exposed = mark_exposed_sides(mesh);
+  // sides at the edge of the ghost layers are not exposed
+  auto side_is_exposed =
+      mesh->sync_array(dim - 1, mark_exposed_sides(mesh), 1);
   classify_sides_by_exposure(mesh, side_is_exposed);
   if (dim == 1) return;
   auto hinge_is_exposed = mark_down(mesh, dim - 1, dim - 2, side_is_exposed);
diff --git a/src/Omega_h_surface.cpp b/src/Omega_h_surface.cpp
index b077e82..b5f1bfe 100644
--- a/src/Omega_h_surface.cpp
+++ b/src/Omega_h_surface.cpp
@@ -68,6 +68,8 @@ Reals get_hinge_angles_tmpl(Mesh* mesh, Reals surf_side_normals,
       auto s = hinge_sides2sides[hs];
       auto ss = side2surf_side[s];
       if (-1 == ss) continue;
+      // where the surface touches itself more than two sides meet
+      if (i == 2) break;
       n[i++] = get_vector<dim>(surf_side_normals, ss);
     }
     // round-off can leave the domain of acos
-- 
2.43.0


From 8e0583a758b4a71034c935b24cecadd94294c66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:21 +0000
Subject: [PATCH 64/97] fix: rotating the vertices of a quad or hex before it
 is split lost vertices

---
 src/Omega_h_simplify.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_simplify.cpp b/src/Omega_h_simplify.cpp
index 3205133..7efa986 100644
--- a/src/Omega_h_simplify.cpp
+++ b/src/Omega_h_simplify.cpp
@@ -37,7 +37,7 @@ OMEGA_H_INLINE bool lt(Int v_i, Int v_j, Int v_k, Int v_l) {
 
 OMEGA_H_INLINE void rot(LO v[], Int n) {
   auto const tmp = v[n - 1];
-  for (Int i = 0; i < n - 1; ++i) v[i + 1] = v[i];
+  for (Int i = n - 1; i > 0; --i) v[i] = v[i - 1];
   v[0] = tmp;
 }
 
-- 
2.43.0


From f3f92c1352f1ccac3c667fde8e42cb1784231e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:37 +0000
Subject: [PATCH 65/97] fix: the ring of hex vertices rotated by
 tets_from_hexes was in the wrong order

---
 src/Omega_h_simplify.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_simplify.cpp b/src/Omega_h_simplify.cpp
index 7efa986..c362da0 100644
--- a/src/Omega_h_simplify.cpp
+++ b/src/Omega_h_simplify.cpp
@@ -95,7 +95,7 @@ OMEGA_H_CONSTANT_DATA Int const hex_bur_faces[3][4] = {
    when a hex is rotated around its centroidal
    XYZ axis (the line between the front-lower-left
    corner and the back-upper-right corner). */
-OMEGA_H_CONSTANT_DATA Int const hex_bur_ring[6] = {1, 2, 3, 7, 5, 4};
+OMEGA_H_CONSTANT_DATA Int const hex_bur_ring[6] = {1, 2, 3, 7, 4, 5};
 
 OMEGA_H_DEVICE void hex_bur_rot_ntimes(LO hhv2v[], Int ntimes) {
   LO tmp[6];
-- 
2.43.0


From f49059c9d01685902207892b69e53aba0a3fe5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:37 +0000
Subject: [PATCH 66/97] fix: get_pad_dists gave the last altitude of a triangle
 instead of the smallest

---
 src/Omega_h_confined.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_confined.cpp b/src/Omega_h_confined.cpp
index 0550d06..55e0776 100644
--- a/src/Omega_h_confined.cpp
+++ b/src/Omega_h_confined.cpp
@@ -71,7 +71,7 @@ Reals get_tri_pad_dists(Mesh* mesh, Read<I8> edges_are_bridges) {
       auto lambda = ((ab * d) - (ab * oa)) / nabsq;
       if (!((0 <= lambda) && (lambda <= 1.0))) continue;
       auto h = norm(d);
-      out[tri] = h;
+      if (out[tri] < 0.0 || h < out[tri]) out[tri] = h;
     }
   };
   parallel_for(mesh->nfaces(), f);
-- 
2.43.0


From 1bcd9337f20c67e435fd7a37681eeb4215373de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:01 +0000
Subject: [PATCH 67/97] fix: get_tet_pad_dists looked for the foot of the
 altitude relative to the wrong point

---
 src/Omega_h_confined.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_confined.cpp b/src/Omega_h_confined.cpp
index 55e0776..62ed171 100644
--- a/src/Omega_h_confined.cpp
+++ b/src/Omega_h_confined.cpp
@@ -148,7 +148,7 @@ Reals get_tet_pad_dists(Mesh* mesh, Read<I8> edges_are_bridges) {
       auto oa = a - o;
       auto od = n * (n * oa);
       // parametric coords for triangle in 3d space
-      auto xi = barycentric_from_global<3,2>(od, vve2x);
+      auto xi = barycentric_from_global<3,2>(o + od, vve2x);
       if (!is_barycentric_inside(xi)) continue;
       auto this_h = norm(od);
       h = min2(h, this_h);
-- 
2.43.0


From 331fdc2e2cfa98e442f9abe99f714fed7c4f54d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:22 +0000
Subject: [PATCH 68/97] fix: warp_to_limit left the mesh in an unacceptable
 position when it dropped the warp

---
 src/Omega_h_approach.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Omega_h_approach.cpp b/src/Omega_h_approach.cpp
index f57474a..355a149 100644
--- a/src/Omega_h_approach.cpp
+++ b/src/Omega_h_approach.cpp
@@ -58,6 +58,7 @@ bool warp_to_limit(
           std::cout << "warp_to_limit stalled, dropping warp field and "
                        "continuing anyway\n";
         }
+        mesh->set_coords(coords);
         mesh->remove_tag(VERT, "warp");
         return true;
       }
-- 
2.43.0


From d18c2435fe12d644b99c7ef207c781383bc885a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:21 +0000
Subject: [PATCH 69/97] fix: components of tensors in expressions ignored the
 second index

---
 src/Omega_h_expr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_expr.cpp b/src/Omega_h_expr.cpp
index 458a0df..8143c45 100644
--- a/src/Omega_h_expr.cpp
+++ b/src/Omega_h_expr.cpp
@@ -376,7 +376,7 @@ template <Int dim>
 any access(LO size, any& var, ExprReader::Args& args) {
   auto i = static_cast<Int>(any_cast<Real>(args.at(0)));
   auto j =
-      args.size() > 1 ? static_cast<Int>(any_cast<Real>(args.at(0))) : Int(-1);
+      args.size() > 1 ? static_cast<Int>(any_cast<Real>(args.at(1))) : Int(-1);
   if (var.type() == typeid(Vector<dim>)) {
     return (any_cast<Vector<dim>>(var))(i);
   } else if (var.type() == typeid(Tensor<dim>)) {
@@ -386,7 +386,7 @@ any access(LO size, any& var, ExprReader::Args& args) {
     if (array.size() == size * dim) {
       return Reals(get_component(array, dim, i));
     } else if (array.size() == size * matrix_ncomps(dim, dim)) {
-      return Reals(get_component(array, matrix_ncomps(dim, dim), j * dim + i));
+      return Reals(get_component(array, matrix_ncomps(dim, dim), i * dim + j));
     } else {
       std::stringstream ss;
       ss << "Unexpected array size " << array.size() << " in access operator\n";
-- 
2.43.0


From 4917368852710e6b61689abda249f0cae9b99f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:21 +0000
Subject: [PATCH 70/97] fix: indices into vectors and tensors in expressions
 were not checked

---
 src/Omega_h_expr.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Omega_h_expr.cpp b/src/Omega_h_expr.cpp
index 8143c45..7c4b554 100644
--- a/src/Omega_h_expr.cpp
+++ b/src/Omega_h_expr.cpp
@@ -377,15 +377,23 @@ any access(LO size, any& var, ExprReader::Args& args) {
   auto i = static_cast<Int>(any_cast<Real>(args.at(0)));
   auto j =
       args.size() > 1 ? static_cast<Int>(any_cast<Real>(args.at(1))) : Int(-1);
+  auto check_index = [](Int index) {
+    if (index < 0 || index >= dim) {
+      throw ParserFail("Index out of range in access operator\n");
+    }
+  };
+  check_index(i);
   if (var.type() == typeid(Vector<dim>)) {
     return (any_cast<Vector<dim>>(var))(i);
   } else if (var.type() == typeid(Tensor<dim>)) {
+    check_index(j);
     return (any_cast<Tensor<dim>>(var))(i, j);
   } else if (var.type() == typeid(Reals)) {
     auto array = any_cast<Reals>(var);
     if (array.size() == size * dim) {
       return Reals(get_component(array, dim, i));
     } else if (array.size() == size * matrix_ncomps(dim, dim)) {
+      check_index(j);
       return Reals(get_component(array, matrix_ncomps(dim, dim), i * dim + j));
     } else {
       std::stringstream ss;
-- 
2.43.0


From 23ae0a432fa88e5c9b05e81cfae9ad3fb672709d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:21 +0000
Subject: [PATCH 71/97] fix: vector() without arguments read before the start
 of a vector

---
 src/Omega_h_expr.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Omega_h_expr.cpp b/src/Omega_h_expr.cpp
index 7c4b554..3b33656 100644
--- a/src/Omega_h_expr.cpp
+++ b/src/Omega_h_expr.cpp
@@ -427,6 +427,9 @@ any make_vector(ExprReader::Args& args) {
 }
 
 any make_vector(LO size, Int dim, ExprReader::Args& args) {
+  if (args.empty()) {
+    throw ParserFail("Too few arguments to vector()\n");
+  }
   if (args.size() > std::size_t(dim)) {
     throw ParserFail("Too many arguments to vector()\n");
   }
-- 
2.43.0


From d71ad7b7d3a581549154789f407a202773e936c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:10 +0000
Subject: [PATCH 72/97] fix: input trees were not printed in a form that can be
 read back

---
 src/Omega_h_input.cpp | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/Omega_h_input.cpp b/src/Omega_h_input.cpp
index 94f1ca3..04a524d 100644
--- a/src/Omega_h_input.cpp
+++ b/src/Omega_h_input.cpp
@@ -949,24 +949,38 @@ void update_class_sets(ClassSets* p_sets, InputMap& pl) {
 static void echo_input_recursive(
     std::ostream& stream, Input& input, Int indent) {
   if (is_type<InputScalar>(input)) {
-    auto& scalar = as_type<InputScalar>(input);
-    if (std::find(scalar.str.begin(), scalar.str.end(), '\n') !=
-        scalar.str.end()) {
-      stream << " |\n";
-      for (auto c : scalar.str) {
-        if (c == '\n') {
+    auto& str = as_type<InputScalar>(input).str;
+    auto const last = str.find_last_not_of('\n');
+    if (last != std::string::npos && str.find('\n') != std::string::npos) {
+      // the content is indented by two more spaces than its parent
+      stream << " |";
+      if (str[str.find_first_not_of('\n')] == ' ') stream << '2';
+      auto const ntrailing = str.size() - last - 1;
+      if (ntrailing == 0) stream << '-';
+      if (ntrailing > 1) stream << '+';
+      stream << '\n';
+      bool at_line_start = true;
+      for (auto c : str) {
+        if (at_line_start && c != '\n') {
           for (Int i = 0; i < indent; ++i) {
             stream << "  ";
           }
         }
         stream << c;
+        at_line_start = (c == '\n');
       }
+      if (!at_line_start) stream << '\n';
     } else {
-      stream << " \'" << scalar.str << '\'';
+      stream << " \'";
+      for (auto c : str) {
+        if (c == '\'') stream << '\'';
+        stream << c;
+      }
+      stream << "\'\n";
     }
   } else if (is_type<InputMap>(input)) {
     auto& map = as_type<InputMap>(input);
-    stream << '\n';
+    stream << ((map.map.empty() && indent > 0) ? " {}\n" : "\n");
     for (auto& pair : map.map) {
       auto& name = pair.first;
       for (Int i = 0; i < indent; ++i) {
@@ -977,7 +991,7 @@ static void echo_input_recursive(
     }
   } else if (is_type<InputList>(input)) {
     auto& list = as_type<InputList>(input);
-    stream << '\n';
+    stream << ((list.entries.empty() && indent > 0) ? " []\n" : "\n");
     for (LO i = 0; i < list.size(); ++i) {
       for (Int j = 0; j < indent; ++j) {
         stream << "  ";
-- 
2.43.0


From 29ffe59584efb7159837dea78356b6e3b49a9bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:10 +0000
Subject: [PATCH 73/97] fix: input files starting with a directive or a
 document marker were refused

---
 src/Omega_h_input.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_input.cpp b/src/Omega_h_input.cpp
index 04a524d..29b749f 100644
--- a/src/Omega_h_input.cpp
+++ b/src/Omega_h_input.cpp
@@ -394,7 +394,7 @@ class InputYamlReader : public Reader {
           if (rhs.at(0).type() == typeid(InputMap)) {
             return map_next_item(rhs.at(0), rhs.at(1));
           } else {
-            return map_first_item(rhs.at(0));
+            return map_first_item(rhs.at(1));
           }
         } else {
           return any(std::move(rhs.at(0)));
-- 
2.43.0


From 28d656c30bdbb480208ca966b6e368c6ebc40c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:18 +0000
Subject: [PATCH 74/97] fix: a comment after the header of a block scalar
 spoiled its indentation

---
 src/Omega_h_input.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_input.cpp b/src/Omega_h_input.cpp
index 29b749f..08068d8 100644
--- a/src/Omega_h_input.cpp
+++ b/src/Omega_h_input.cpp
@@ -801,7 +801,7 @@ class InputYamlReader : public Reader {
     }
     // according to the YAML spec, a tab is content, not indentation
     std::size_t content_beg =
-        leading_empties_or_comments.find_first_not_of("\r\n ");
+        leading_empties_or_comments.find_first_not_of("\r\n ", first_newline);
     if (content_beg == std::string::npos)
       content_beg = leading_empties_or_comments.size();
     std::size_t newline_before_content =
-- 
2.43.0


From 61c33eeb48a694a86b94b3ede8fc772092dbfd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:18 +0000
Subject: [PATCH 75/97] fix: block scalars in files with CRLF line ends kept an
 extra line end

---
 src/Omega_h_input.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Omega_h_input.cpp b/src/Omega_h_input.cpp
index 08068d8..fa11da9 100644
--- a/src/Omega_h_input.cpp
+++ b/src/Omega_h_input.cpp
@@ -786,8 +786,7 @@ class InputYamlReader : public Reader {
     if (!(ss >> chomping_indicator)) chomping_indicator = '\0';
     /* get information about newlines, indentation level, and comment from
        the leading_empties_or_comments string */
-    std::size_t first_newline =
-        leading_empties_or_comments.find_first_of("\r\n");
+    std::size_t first_newline = leading_empties_or_comments.find_first_of("\n");
     std::string newline;
     if (first_newline > 0 &&
         leading_empties_or_comments[first_newline - 1] == '\r') {
-- 
2.43.0


From 5de0bdc1d614198123e17e9a062d3fcda26067b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:35 +0000
Subject: [PATCH 76/97] fix: block scalars told to keep trailing empty lines
 lost them

---
 src/Omega_h_input.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/Omega_h_input.cpp b/src/Omega_h_input.cpp
index fa11da9..ed65ed4 100644
--- a/src/Omega_h_input.cpp
+++ b/src/Omega_h_input.cpp
@@ -827,19 +827,28 @@ class InputYamlReader : public Reader {
        scalar which are less indented than it, but they will be included in the
        final NEWLINE token.
        this code removes all contiguous trailing lines which are less indented
-       than the content.
+       than the content, starting at the first one which isn't empty.
      */
-    while (true) {
-      auto last_newline = content.find_last_of("\n", content.size() - 2);
+    auto trailing_end = content.size();
+    auto erase_begin = content.size();
+    while (trailing_end > 0) {
+      auto last_newline = (trailing_end < 2)
+                              ? std::string::npos
+                              : content.find_last_of("\n", trailing_end - 2);
       if (last_newline == std::string::npos) break;
       std::size_t num_spaces = 0;
-      for (auto ispace = last_newline + 1;
-           ispace < content.size() && content[ispace] == ' '; ++ispace) {
+      auto ispace = last_newline + 1;
+      for (; ispace < trailing_end && content[ispace] == ' '; ++ispace) {
         ++num_spaces;
       }
       if (num_spaces >= num_indent_spaces) break;
-      content.erase(content.begin() + long(last_newline + 1), content.end());
+      bool const is_empty_line =
+          ispace < trailing_end &&
+          (content[ispace] == '\n' || content[ispace] == '\r');
+      if (!is_empty_line) erase_begin = last_newline + 1;
+      trailing_end = last_newline + 1;
     }
+    content.erase(content.begin() + long(erase_begin), content.end());
     /* remove both indentation and newlines as dictated by header information */
     std::size_t unindent_pos = 0;
     while (true) {
-- 
2.43.0


From dc34f767efd827679556484496818d7354d786b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:39 +0000
Subject: [PATCH 77/97] fix: reading an input file marked all its maps and
 lists as used

---
 src/Omega_h_input.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Omega_h_input.cpp b/src/Omega_h_input.cpp
index ed65ed4..9cde6a4 100644
--- a/src/Omega_h_input.cpp
+++ b/src/Omega_h_input.cpp
@@ -909,9 +909,11 @@ static bool handle_one_include(InputMap& map) {
       }
       return true;
     } else if (map.is_list(key)) {
-      if (handle_one_include(map.get_list(key))) return true;
+      auto& child = as_type<InputList>(map.find_named_input(key));
+      if (handle_one_include(child)) return true;
     } else if (map.is_map(key)) {
-      if (handle_one_include(map.get_map(key))) return true;
+      auto& child = as_type<InputMap>(map.find_named_input(key));
+      if (handle_one_include(child)) return true;
     }
   }
   return false;
@@ -920,9 +922,9 @@ static bool handle_one_include(InputMap& map) {
 static bool handle_one_include(InputList& list) {
   for (LO i = 0; i < list.size(); ++i) {
     if (list.is_list(i)) {
-      if (handle_one_include(list.get_list(i))) return true;
+      if (handle_one_include(as_type<InputList>(list.at(i)))) return true;
     } else if (list.is_map(i)) {
-      if (handle_one_include(list.get_map(i))) return true;
+      if (handle_one_include(as_type<InputMap>(list.at(i)))) return true;
     }
   }
   return false;
-- 
2.43.0


From 3db92fd1eb22d14e68a04c475700fc1d3b1b098d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:32 +0000
Subject: [PATCH 78/97] fix: FiniteAutomaton::maybe and star accepted too much
 when accepting states have transitions

---
 src/Omega_h_finite_automaton.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/Omega_h_finite_automaton.cpp b/src/Omega_h_finite_automaton.cpp
index 0e94d85..4c3a92d 100644
--- a/src/Omega_h_finite_automaton.cpp
+++ b/src/Omega_h_finite_automaton.cpp
@@ -201,17 +201,15 @@ FiniteAutomaton FiniteAutomaton::maybe(FiniteAutomaton const& a, int token) {
   auto epsilon0 = get_epsilon0(out);
   auto epsilon1 = get_epsilon1(out);
   add_transition(out, new_start_state, epsilon1, offset);
-  /* form an epsilon0 linked list of new start state,
-     all old accepting states, and new accepting state */
-  auto last = new_start_state;
+  /* the old accepting states may have transitions of their own, so the new
+     start state must not lead to them */
+  add_transition(out, new_start_state, epsilon0, new_accept_state);
   for (int i = 0; i < get_nstates(a); ++i) {
     if (accepts(a, i) != -1) {
-      add_transition(out, last, epsilon0, i + offset);
+      add_transition(out, i + offset, epsilon0, new_accept_state);
       remove_accept(out, i + offset);
-      last = i + offset;
     }
   }
-  add_transition(out, last, epsilon0, new_accept_state);
   add_accept(out, new_accept_state, token);
   return out;
 }
-- 
2.43.0


From 3784f481e820101fde633ec4129ecc2b6b9f9581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:56 +0000
Subject: [PATCH 79/97] fix: a text ending inside the beginning of a longer
 token was refused

---
 src/Omega_h_reader.cpp | 60 ++++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/src/Omega_h_reader.cpp b/src/Omega_h_reader.cpp
index d90d280..a200903 100644
--- a/src/Omega_h_reader.cpp
+++ b/src/Omega_h_reader.cpp
@@ -267,38 +267,42 @@ any Reader::read_stream(
     sensing_indent = false;
   }
   char c;
-  while (stream.get(c)) {
-    if (!is_symbol(c)) {
-      std::stringstream ss;
-      ss << "error: Unexpected character code " << int(c);
-      ss << " at line " << line << " column " << column;
-      ss << " of " << stream_name << '\n';
-      error_print_line(stream, ss);
-      throw ParserFail(ss.str());
-    }
-    line_text.push_back(c);
-    lexer_text.push_back(c);
-    auto lexer_symbol = get_symbol(c);
-    lexer_state = step(lexer, lexer_state, lexer_symbol);
-    if (lexer_state == -1) {
-      at_lexer_end(stream);
-    } else {
-      auto token = accepts(lexer, lexer_state);
-      update_position(c);
-      if (token != -1) {
-        lexer_token = token;
-        last_lexer_accept = lexer_text.size();
-        last_lexer_accept_line = line;
-        last_lexer_accept_column = column;
-        last_lexer_accept_line_text = line_text;
+  while (true) {
+    while (stream.get(c)) {
+      if (!is_symbol(c)) {
+        std::stringstream ss;
+        ss << "error: Unexpected character code " << int(c);
+        ss << " at line " << line << " column " << column;
+        ss << " of " << stream_name << '\n';
+        error_print_line(stream, ss);
+        throw ParserFail(ss.str());
+      }
+      line_text.push_back(c);
+      lexer_text.push_back(c);
+      auto lexer_symbol = get_symbol(c);
+      lexer_state = step(lexer, lexer_state, lexer_symbol);
+      if (lexer_state == -1) {
+        at_lexer_end(stream);
+      } else {
+        auto token = accepts(lexer, lexer_state);
+        update_position(c);
+        if (token != -1) {
+          lexer_token = token;
+          last_lexer_accept = lexer_text.size();
+          last_lexer_accept_line = line;
+          last_lexer_accept_column = column;
+          last_lexer_accept_line_text = line_text;
+        }
       }
     }
+    if (lexer_token == -1 || last_lexer_accept == lexer_text.size()) break;
+    // the text ends inside what might have become a longer token
+    stream.clear();
+    at_lexer_end(stream);
   }
-  if (last_lexer_accept < lexer_text.size()) {
+  if (lexer_token == -1 && !lexer_text.empty()) {
     std::stringstream ss;
-    std::string bad_str =
-        lexer_text.substr(last_lexer_accept, std::string::npos);
-    ss << "error: Could not tokenize \"" << bad_str;
+    ss << "error: Could not tokenize \"" << lexer_text;
     ss << "\" at end of " << stream_name << '\n';
     throw ParserFail(ss.str());
   }
-- 
2.43.0


From 15cb70ba13bc733fd0038fc60de727c675d8d247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:45 +0000
Subject: [PATCH 80/97] fix: LALR(1) grammars were refused because kernel items
 were taken for closure items

---
 src/Omega_h_build_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Omega_h_build_parser.cpp b/src/Omega_h_build_parser.cpp
index 2e509ef..293cae9 100644
--- a/src/Omega_h_build_parser.cpp
+++ b/src/Omega_h_build_parser.cpp
@@ -475,6 +475,7 @@ static ParserGraph make_immediate_predecessor_graph(StateConfigs const& scs,
       for (int cis_j = 0; cis_j < size(state.configs); ++cis_j) {
         auto config_j = at(state.configs, cis_j);
         auto& config2 = at(cs, config_j);
+        if (config2.dot != 0) continue;
         auto& prod2 = at(grammar->productions, config2.production);
         if (prod2.lhs == s) {
           auto sc_i = at(states2scs, s_i, cis_i);
-- 
2.43.0


From de0a1b85599fc2237b4f70daf8c927e25578fd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:43 +0000
Subject: [PATCH 81/97] fix: an assertion stopped the context computation of
 valid LALR(1) grammars

---
 src/Omega_h_build_parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_build_parser.cpp b/src/Omega_h_build_parser.cpp
index 293cae9..0c7fa26 100644
--- a/src/Omega_h_build_parser.cpp
+++ b/src/Omega_h_build_parser.cpp
@@ -709,7 +709,9 @@ static void deal_with_tests_failed(int& num_originators_failed,
     if (verbose)
       std::cerr << "    the first was " << zeta_double_prime_addr << '\n';
     OMEGA_H_CHECK(at(lane, size(lane) - 1) == zeta_double_prime_addr);
-    OMEGA_H_CHECK(at(lane, size(lane) - 2) == zeta_addr);
+    /* markers may have been moved in between by an originator in LANE */
+    OMEGA_H_CHECK(at(lane, size(lane) - 2) == zeta_addr ||
+                  at(lane, size(lane) - 2) == MARKER);
     if (verbose)
       std::cerr << "    pop LANE, push {marker, " << zeta_double_prime_addr
                 << "} onto it:\n    ";
-- 
2.43.0


From 658a047213b364a89bae9083de8a7d198c8b2fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:43 +0000
Subject: [PATCH 82/97] fix: a command line value equal to a flag's name was
 parsed as that flag too

---
 src/Omega_h_cmdline.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Omega_h_cmdline.cpp b/src/Omega_h_cmdline.cpp
index 6941e46..7dc8902 100644
--- a/src/Omega_h_cmdline.cpp
+++ b/src/Omega_h_cmdline.cpp
@@ -161,6 +161,7 @@ bool CmdLine::parse(int* p_argc, char** argv, bool should_print) {
           return false;
         }
         parsed_by_flag = true;
+        break;
       }
     }
     if (parsed_by_flag) {
-- 
2.43.0


From 97c203ee0335160444a0e2aed533cffa60d90461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:43 +0000
Subject: [PATCH 83/97] fix: malformed numbers on command lines were read as
 zero

---
 src/Omega_h_cmdline.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/Omega_h_cmdline.cpp b/src/Omega_h_cmdline.cpp
index 7dc8902..b768b8b 100644
--- a/src/Omega_h_cmdline.cpp
+++ b/src/Omega_h_cmdline.cpp
@@ -1,6 +1,9 @@
 #include "Omega_h_cmdline.hpp"
 
+#include <cerrno>
+#include <cstdlib>
 #include <iostream>
+#include <limits>
 
 namespace Omega_h {
 
@@ -33,13 +36,22 @@ static bool parse_arg(char const* arg, std::string* p_value) {
 }
 
 static bool parse_arg(char const* arg, int* p_value) {
-  *p_value = std::atoi(arg);
+  char* end;
+  errno = 0;
+  auto const value = std::strtol(arg, &end, 10);
+  if (end == arg || *end != '\0') return false;
+  if (errno == ERANGE || value < std::numeric_limits<int>::min() ||
+      value > std::numeric_limits<int>::max()) {
+    return false;
+  }
+  *p_value = static_cast<int>(value);
   return true;
 }
 
 static bool parse_arg(char const* arg, double* p_value) {
-  *p_value = std::atof(arg);
-  return true;
+  char* end;
+  *p_value = std::strtod(arg, &end);
+  return end != arg && *end == '\0';
 }
 
 CmdLineItem::~CmdLineItem() {}
@@ -172,6 +184,8 @@ bool CmdLine::parse(int* p_argc, char** argv, bool should_print) {
     } else if (args_.size() > nargs_parsed_) {
       if (args_[nargs_parsed_]->parse(p_argc, argv, i, should_print)) {
         ++nargs_parsed_;
+      } else {
+        return false;
       }
     } else {
       ++i;
-- 
2.43.0


From 863fffb2d3c1f826ab7f9d20001e66a38f459b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:43 +0000
Subject: [PATCH 84/97] fix: random streams started at an odd counter gave the
 value before it

---
 src/Omega_h_random_inline.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Omega_h_random_inline.hpp b/src/Omega_h_random_inline.hpp
index cda09d3..0a6206a 100644
--- a/src/Omega_h_random_inline.hpp
+++ b/src/Omega_h_random_inline.hpp
@@ -64,9 +64,9 @@ class UnitUniformDistribution {
 
  private:
   OMEGA_H_INLINE void even_step() {
-    counter[0] >>= 1;
-    state = run_philox_cbrng(counter, key);
-    counter[0] <<= 1;
+    auto half_counter = counter;
+    half_counter[0] >>= 1;
+    state = run_philox_cbrng(half_counter, key);
   }
   Few<std::uint64_t, 2> counter;
   std::uint64_t key;
-- 
2.43.0


From e3bfef6c559f2e20f6ae9ee6927a4a839111ad29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:43 +0000
Subject: [PATCH 85/97] fix: the cumulative Weibull distribution was not zero
 for negative values

---
 src/Omega_h_random_inline.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Omega_h_random_inline.hpp b/src/Omega_h_random_inline.hpp
index 0a6206a..127277a 100644
--- a/src/Omega_h_random_inline.hpp
+++ b/src/Omega_h_random_inline.hpp
@@ -180,6 +180,7 @@ OMEGA_H_INLINE Real cumulative_general_normal_density(
 }
 
 OMEGA_H_INLINE Real cumulative_weibull_density(Real shape, Real scale, Real x) {
+  if (x < 0.0) return 0.0;
   return 1.0 - std::exp(-std::pow(x / scale, shape));
 }
 
-- 
2.43.0


From 6a77ea4c2b7030b7ff20ab802d29b47d9621671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:56 +0000
Subject: [PATCH 86/97] fix: the chi-squared distribution was wrong beyond
 about a hundred

---
 src/Omega_h_random_inline.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_random_inline.hpp b/src/Omega_h_random_inline.hpp
index 127277a..76f7442 100644
--- a/src/Omega_h_random_inline.hpp
+++ b/src/Omega_h_random_inline.hpp
@@ -154,7 +154,7 @@ OMEGA_H_INLINE Real weibull_density(Real shape, Real scale, Real value) {
 OMEGA_H_INLINE Real regularized_lower_incomplete_gamma(Real s, Real z) {
   Real sum = 1.0;
   Real x = 1.0;
-  for (Int k = 1; k < 100; ++k) {
+  for (Int k = 1; k < 100000; ++k) {
     x *= z / (s + k);
     sum += x;
     if (sum > 1e100) return 1.0;
-- 
2.43.0


From abaf80a49e42421d7bb9e2252b9fcac4d6782453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:37 +0000
Subject: [PATCH 87/97] fix: the list of tracked allocations lost entries from
 the third on

---
 src/Omega_h_shared_alloc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_shared_alloc.cpp b/src/Omega_h_shared_alloc.cpp
index 6c3a0a9..e9e026c 100644
--- a/src/Omega_h_shared_alloc.cpp
+++ b/src/Omega_h_shared_alloc.cpp
@@ -98,8 +98,8 @@ void Alloc::init() {
       old_last->next = this;
     } else {
       ga->first = this;
-      ga->last = this;
     }
+    ga->last = this;
     ga->total_bytes += size;
     if (ga->total_bytes > ga->high_water_bytes) {
       Omega_h::ScopedTimer high_water_timer("high water update");
-- 
2.43.0


From 36c023092084ce7114b3a237c2f5fb814212a2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:37 +0000
Subject: [PATCH 88/97] fix: assigning an array to itself destroyed its storage

---
 src/Omega_h_shared_alloc.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Omega_h_shared_alloc.hpp b/src/Omega_h_shared_alloc.hpp
index 75d75e9..bc5f139 100644
--- a/src/Omega_h_shared_alloc.hpp
+++ b/src/Omega_h_shared_alloc.hpp
@@ -105,11 +105,13 @@ struct SharedAlloc {
   }
   OMEGA_H_INLINE SharedAlloc(SharedAlloc&& other) { move(std::move(other)); }
   OMEGA_H_INLINE SharedAlloc& operator=(SharedAlloc const& other) {
+    if (this == &other) return *this;
     clear();
     copy(other);
     return *this;
   }
   OMEGA_H_INLINE SharedAlloc& operator=(SharedAlloc&& other) {
+    if (this == &other) return *this;
     clear();
     move(std::move(other));
     return *this;
-- 
2.43.0


From 7f9f984d4228e0e51937e787ff26d6f576b079ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:37 +0000
Subject: [PATCH 89/97] fix: file types were confused by testing single bits

---
 src/Omega_h_filesystem.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Omega_h_filesystem.cpp b/src/Omega_h_filesystem.cpp
index b3bc84b..a73e9a1 100644
--- a/src/Omega_h_filesystem.cpp
+++ b/src/Omega_h_filesystem.cpp
@@ -221,17 +221,17 @@ file_status status(path const& p) {
     throw filesystem_error(errno, "status");
   }
   file_type type;
-  if (buf.st_mode & S_IFREG)
+  if (S_ISREG(buf.st_mode))
     type = file_type::regular;
-  else if (buf.st_mode & S_IFDIR)
+  else if (S_ISDIR(buf.st_mode))
     type = file_type::directory;
-  else if (buf.st_mode & S_IFLNK)
+  else if (S_ISLNK(buf.st_mode))
     type = file_type::symlink;
-  else if (buf.st_mode & S_IFBLK)
+  else if (S_ISBLK(buf.st_mode))
     type = file_type::block;
-  else if (buf.st_mode & S_IFCHR)
+  else if (S_ISCHR(buf.st_mode))
     type = file_type::character;
-  else if (buf.st_mode & S_IFIFO)
+  else if (S_ISFIFO(buf.st_mode))
     type = file_type::fifo;
   else
     throw filesystem_error(errno, "type_status");
-- 
2.43.0


From 3f0a2237197d0596c5b5d60fb673304f0e8f3539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:07 +0000
Subject: [PATCH 90/97] fix: directory iterators could not be moved or compared
 when exhausted

---
 src/Omega_h_filesystem.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Omega_h_filesystem.cpp b/src/Omega_h_filesystem.cpp
index a73e9a1..d7ab599 100644
--- a/src/Omega_h_filesystem.cpp
+++ b/src/Omega_h_filesystem.cpp
@@ -205,6 +205,7 @@ struct IteratorImpl {
   bool is_end() { return entry == nullptr; }
   bool equal(IteratorImpl const& other) const {
     if (entry == nullptr && other.entry == nullptr) return true;
+    if (entry == nullptr || other.entry == nullptr) return false;
     if (root.impl != other.root.impl) return false;
     return 0 == strcmp(entry->d_name, other.entry->d_name);
   }
@@ -385,9 +386,8 @@ bool directory_entry::is_symlink() const {
 
 directory_iterator::directory_iterator() : impl(new IteratorImpl()) {}
 
-directory_iterator::directory_iterator(directory_iterator&& other) {
-  delete impl;
-  impl = other.impl;
+directory_iterator::directory_iterator(directory_iterator&& other)
+    : impl(other.impl), entry(other.entry) {
   other.impl = new IteratorImpl();
 }
 
-- 
2.43.0


From 7c95f0d7593fbd3f035640f9e601ad3a2c01d95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:07 +0000
Subject: [PATCH 91/97] fix: removing a directory tree followed symbolic links
 out of it

---
 src/Omega_h_filesystem.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_filesystem.cpp b/src/Omega_h_filesystem.cpp
index d7ab599..835e63d 100644
--- a/src/Omega_h_filesystem.cpp
+++ b/src/Omega_h_filesystem.cpp
@@ -124,6 +124,8 @@ file_status status(path const& p) {
   return file_status(type);
 }
 
+static bool is_link(path const&) { return false; }
+
 #else
 
 bool create_directory(path const& p) {
@@ -239,6 +241,16 @@ file_status status(path const& p) {
   return file_status(type);
 }
 
+static bool is_link(path const& p) {
+  errno = 0;
+  struct ::stat buf;
+  int ret = ::lstat(p.c_str(), &buf);
+  if (ret != 0) {
+    throw filesystem_error(errno, "symlink_status");
+  }
+  return S_ISLNK(buf.st_mode);
+}
+
 #endif
 
 // end of OS-specific stuff
@@ -249,7 +261,7 @@ std::uintmax_t remove_all(path const& p) {
   while (true) {
     directory_iterator first(p);
     if (first == end) break;
-    if (first->is_directory()) {
+    if (!first->is_symlink() && first->is_directory()) {
       count += remove_all(first->path());
     } else {
       remove(first->path());
@@ -381,7 +393,7 @@ bool directory_entry::is_directory() const {
 }
 
 bool directory_entry::is_symlink() const {
-  return status(path_variable).type() == file_type::symlink;
+  return is_link(path_variable);
 }
 
 directory_iterator::directory_iterator() : impl(new IteratorImpl()) {}
-- 
2.43.0


From 3e3fdfce42b2ca06bfeeb25a782f126fc2ac40f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:07 +0000
Subject: [PATCH 92/97] fix: a path without a directory was its own parent

---
 src/Omega_h_filesystem.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/Omega_h_filesystem.cpp b/src/Omega_h_filesystem.cpp
index 835e63d..dd2ea3e 100644
--- a/src/Omega_h_filesystem.cpp
+++ b/src/Omega_h_filesystem.cpp
@@ -295,7 +295,8 @@ path path::filename() const {
 
 path path::parent_path() const {
   auto const last_sep_pos = impl.find_last_of(preferred_separator);
-  if (last_sep_pos == std::string::npos) return impl;
+  if (last_sep_pos == std::string::npos) return path();
+  if (last_sep_pos == 0) return impl.substr(0, 1);
   return impl.substr(0, last_sep_pos);
 }
 
@@ -327,19 +328,25 @@ path path::stem() const {
 }
 
 path& path::operator/=(path const& p) {
-  impl.push_back(preferred_separator);
+  if (!impl.empty() && impl.back() != preferred_separator) {
+    impl.push_back(preferred_separator);
+  }
   impl += p.impl;
   return *this;
 }
 
 path& path::operator/=(std::string const& s) {
-  impl.push_back(preferred_separator);
+  if (!impl.empty() && impl.back() != preferred_separator) {
+    impl.push_back(preferred_separator);
+  }
   impl += s;
   return *this;
 }
 
 path& path::operator/=(const char* s) {
-  impl.push_back(preferred_separator);
+  if (!impl.empty() && impl.back() != preferred_separator) {
+    impl.push_back(preferred_separator);
+  }
   impl += s;
   return *this;
 }
-- 
2.43.0


From e2c076527c04a6996e2d66c21da35cb281f37b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:06 +0000
Subject: [PATCH 93/97] fix: red-black trees could not erase values (did not
 compile)

---
 src/Omega_h_rbtree.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_rbtree.hpp b/src/Omega_h_rbtree.hpp
index 9fadc5b..3f613da 100644
--- a/src/Omega_h_rbtree.hpp
+++ b/src/Omega_h_rbtree.hpp
@@ -824,8 +824,9 @@ void Rb_tree<Key, Val, KeyOfValue, Cmp>::insert(II first, II last) {
 
 template <class Key, class Value, class KeyOfValue, class Compare>
 inline void Rb_tree<Key, Value, KeyOfValue, Compare>::erase(iterator position) {
-  Link_type y = Rb_tree_rebalance_for_erase(
-      position.M_node, M_header->M_parent, M_header->M_left, M_header->M_right);
+  Link_type y = static_cast<Link_type>(
+      Rb_tree_rebalance_for_erase(position.M_node, M_header->M_parent,
+          M_header->M_left, M_header->M_right));
   destroy_node(y);
   --M_node_count;
 }
-- 
2.43.0


From cd178f2f76ef3a2213666ba4cc6d2097890b87a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:50 +0000
Subject: [PATCH 94/97] fix: an empty one-dimensional polytope did not have
 measure zero

---
 src/r3d.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/r3d.hpp b/src/r3d.hpp
index 38b88c1..8d0aa97 100644
--- a/src/r3d.hpp
+++ b/src/r3d.hpp
@@ -866,6 +866,7 @@ R3D_INLINE Real integrate(
    integrate() for 1D edges, just hardcode the
    length measurement */
 R3D_INLINE Real measure(Polytope<1> const& polytope) {
+  if (polytope.nverts <= 0) return 0.0;
   return std::abs(polytope.verts[1].pos[0] - polytope.verts[0].pos[0]);
 }
 
-- 
2.43.0


From e847ce1532bf59fee9266abe8fd8a5ed4064e569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:27 +0000
Subject: [PATCH 95/97] fix: a tag without attributes that closes itself (<a/>)
 was read as a start tag

---
 src/Omega_h_xml_lite.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_xml_lite.cpp b/src/Omega_h_xml_lite.cpp
index 9ca67e1..470e6ad 100644
--- a/src/Omega_h_xml_lite.cpp
+++ b/src/Omega_h_xml_lite.cpp
@@ -46,9 +46,10 @@ bool parse_tag(std::string const& line, xml_lite::Tag* tag_out) {
       case 3:
         if (c == ' ')
           state = 4;
-        else if (c == '/')
+        else if (c == '/') {
+          tag.type = xml_lite::Tag::SELF_CLOSING;
           state = 8;
-        else if (c == '>')
+        } else if (c == '>')
           state = 9;
         else
           tag.elem_name.push_back(c);
-- 
2.43.0


From 3270560b6ee44c1f6d27d813003f1af5ea0ea370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:23 +0000
Subject: [PATCH 96/97] fix: the timing report wrote past an array when only
 other ranks called a function

---
 src/Omega_h_profile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Omega_h_profile.cpp b/src/Omega_h_profile.cpp
index e293e55..41f981f 100644
--- a/src/Omega_h_profile.cpp
+++ b/src/Omega_h_profile.cpp
@@ -247,6 +247,8 @@ void sendrecv(History const& h, std::map<std::string, std::vector<double> >& res
         split_char_vec(cvec, res);
         OMEGA_H_CHECK_OP(res.size(), ==, dvec.size());
         for (size_t i = 0; i < res.size(); ++i) {
+          // rank zero may not have called this function
+          result[res[i]].resize(TOP_NUM_ENTRIES, 0.0);
           result[res[i]][TOP_AVE] += dvec[i];
           result[res[i]][TOP_MIN] = std::min(result[res[i]][TOP_MIN], dvec[i]);
           result[res[i]][TOP_MAX] = std::max(result[res[i]][TOP_MAX], dvec[i]);
-- 
2.43.0


From ebaba8c08b9507fee7d8ee4d9d687bd4b25c8ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:16 +0000
Subject: [PATCH 97/97] fix: every rank printed the timing report, with the
 times of only its own functions

---
 src/Omega_h_profile.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Omega_h_profile.cpp b/src/Omega_h_profile.cpp
index 41f981f..a775098 100644
--- a/src/Omega_h_profile.cpp
+++ b/src/Omega_h_profile.cpp
@@ -268,12 +268,13 @@ void print_top_sorted(History const& h_in, double total_runtime) {
   double total_runtime_ave = h.comm->allreduce(total_runtime, OMEGA_H_SUM) / sz;
   double total_runtime_min = h.comm->allreduce(total_runtime, OMEGA_H_MIN);
   double total_runtime_max = h.comm->allreduce(total_runtime, OMEGA_H_MAX);
-  TASK_0_cout << "\n";
-  TASK_0_cout << "TOP FUNCTIONS (self time, average of all ranks):\n";
-  TASK_0_cout << "=============\n";
   std::map<std::string, std::vector<double>> result;
   gather(h, invalid, result);
   sendrecv(h, result);
+  if (h.comm->rank() != 0) return;  // only rank zero has all the times
+  TASK_0_cout << "\n";
+  TASK_0_cout << "TOP FUNCTIONS (self time, average of all ranks):\n";
+  TASK_0_cout << "=============\n";
   typedef std::pair<std::string, std::vector<double>> my_pair;
   std::vector<my_pair> sorted_result;
   double sum = 0.0;
-- 
2.43.0

