From 4159b819cd1b06c678b7e67cf22033a40e3d6397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:21 +0000
Subject: [PATCH 01/39] fix: size the vector output of Nest::interpolate_at
 from the vector data and report points which are not found

---
 src/nest.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nest.hpp b/src/nest.hpp
index cd18613..6aa682a 100644
--- a/src/nest.hpp
+++ b/src/nest.hpp
@@ -358,7 +358,7 @@ public:
   interpolate_at(const vert_t& x) const {
     this->check_before_interpolating(x);
     auto valsh = data_.values().shape();
-    auto vecsh = data_.values().shape();
+    auto vecsh = data_.vectors().shape();
     valsh[0] = x.size(0);
     vecsh[0] = x.size(0);
     brille::Array<DataValues> vals(valsh);
@@ -373,6 +373,9 @@ public:
     for (ind_t i=0; i<x.size(0); ++i){
       // auto iw = root_.indices_weights(vertices_, map_, x.extract(i));
       auto iw = root_.indices_weights(vertices_, x.extract(i), t, n);
+      if (iw.empty()){
+        throw std::runtime_error("Point not found in Nest");
+      }
       data_.interpolate_at(iw, vals2, vecs2, i);
     }
     return std::make_tuple(vals, vecs);
-- 
2.43.0


From 560f2d087de4a4c4be1bda5be8e4f27692e1336a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:38 +0000
Subject: [PATCH 02/39] fix: do not write elements of a std::vector<bool> from
 several threads in isinside_wedge

---
 src/bz.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bz.hpp b/src/bz.hpp
index 470f858..d333014 100644
--- a/src/bz.hpp
+++ b/src/bz.hpp
@@ -691,11 +691,15 @@ public:
       // so when identifying whether a point is inside of the irreducible
       // Brillouin zone we must allow for the ≤0 case as well.
       cmp c = pos || no_ir_mirroring ? cmp::ge : cmp::le_ge;
-#pragma omp parallel for default(none) shared(out, normals, p, c)              \
+      // std::vector<bool> packs its elements into shared words, so its elements
+      // can not be written by different threads at the same time
+      std::vector<char> in(p.size(0), 1);
+#pragma omp parallel for default(none) shared(in, normals, p, c)               \
     schedule(dynamic)
       for (long long i = 0; i < p.size(0); ++i) // separately changed to ind_t
         //TODO Add tolerance here?
-        out[i] = dot(normals, p.view(i)).all(c, 0.);
+        in[i] = dot(normals, p.view(i)).all(c, 0.) ? 1 : 0;
+      std::copy(in.begin(), in.end(), out.begin());
     }
     return out;
   }
-- 
2.43.0


From 3b3acbd7809e267a3ecd336e7154d52a1f9357fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:11 +0000
Subject: [PATCH 03/39] fix: keep ThreadException from letting exceptions
 escape a parallel region

Exceptions which are not std::exceptions, or running out of memory while
combining messages, ended the process.
---
 src/thread_exception.h | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/thread_exception.h b/src/thread_exception.h
index cc6d03d..ccfd202 100644
--- a/src/thread_exception.h
+++ b/src/thread_exception.h
@@ -3,40 +3,44 @@
 #include <exception>
 #include <mutex>
 #include <sstream>
+#include <stdexcept>
+#include <string>
 
 class ThreadException {
   size_t count_=0;
   std::exception_ptr ptr_=nullptr;
   std::mutex         lock_;
+  //! The message of any exception, including those not from the standard library
+  static std::string message(const std::exception_ptr & ptr){
+    try {
+      if (ptr) std::rethrow_exception(ptr);
+    } catch (const std::exception & e){
+      return e.what();
+    } catch (...) {
+      return "an exception which is not a std::exception";
+    }
+    return "";
+  }
 public:
   void rethrow(){
     if (count_>1) {
       std::ostringstream oss;
-      oss << count_ << " exceptions occurred:\n";
-      try {
-        if (ptr_) std::rethrow_exception(ptr_);
-      } catch (const std::exception & e){
-        oss << e.what();
-      }
+      oss << count_ << " exceptions occurred:\n" << message(ptr_);
       ptr_ = std::make_exception_ptr(std::runtime_error(oss.str()));
     }
     if (ptr_) std::rethrow_exception(ptr_);
   }
+  //! Store the current exception -- must not throw since that would end the process
   void capture() {
     std::unique_lock<std::mutex> guard(lock_);
     if (count_++) {
-      std::ostringstream oss;
       try {
-        if (ptr_) std::rethrow_exception(ptr_);
-      } catch (const std::exception & e){
-        oss << e.what();
+        std::ostringstream oss;
+        oss << message(ptr_) << "\n" << message(std::current_exception());
+        ptr_ = std::make_exception_ptr(std::runtime_error(oss.str()));
+      } catch (...) {
+        // there might not be enough memory to combine the messages, keep the first
       }
-      try {
-        std::rethrow_exception(std::current_exception());
-      } catch (const std::exception & e){
-        oss << "\n" << e.what();
-      }
-      ptr_ = std::make_exception_ptr(std::runtime_error(oss.str()));
     } else {
       ptr_ = std::current_exception();
     }
-- 
2.43.0


From caf76014ccc873cf7c4f2470fdb8f8499f933cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:11 +0000
Subject: [PATCH 04/39] fix: size the per-thread vertex maps of the trellis for
 the team which uses them

The team of the second parallel region can be larger than that of the first
when OpenMP adjusts team sizes. Every error in the loop is now also passed on
to the caller.
---
 src/trellis_poly_parallel.tpp | 46 ++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 25 deletions(-)

diff --git a/src/trellis_poly_parallel.tpp b/src/trellis_poly_parallel.tpp
index 1dbec3f..fa82d24 100644
--- a/src/trellis_poly_parallel.tpp
+++ b/src/trellis_poly_parallel.tpp
@@ -191,24 +191,6 @@ PolyTrellis<T,R,S,A>::part_one(const poly_t& poly, const A<S>& all_points, std::
   cube_indexes.reserve(nNodes);
   for (ind_t i=0; i < nNodes; ++i) if (NodeType::cube == node_type[i]) cube_indexes.push_back(i);
 
-//#pragma omp parallel master default(none) shared(all_points, s_tol, d_tol, thread_pairs)
-#pragma omp parallel default(none) shared(all_points, s_tol, d_tol, thread_pairs)
-  {
-    // Perform per-thread initialization *inside* a parallel region, because
-    // we don't know how many threads the pool will have outside.
-    // Annoyingly this can't be done in the following parallel region
-    // because the non-master threads pass by a master region as if it isn't
-    // there, so they may not wait for their storage to actually be initialized!
-#pragma omp master
-    {
-    int n_threads = omp_get_num_threads();
-    for (int i = 0; i < n_threads; ++i) {
-      thread_pairs.push_back(std::make_pair(VertexMapSet<S,A>(all_points, s_tol, d_tol),
-                              VertexIndexMap()));
-      }
-    }
-  }
-
   auto test0 = !always_triangulate;
   auto s_count = utils::u2s<long long>(cube_indexes.size());
   ThreadException thread_ex;
@@ -217,10 +199,26 @@ PolyTrellis<T,R,S,A>::part_one(const poly_t& poly, const A<S>& all_points, std::
                      s_count, cube_indexes, s_tol, d_tol,\
                      all_points, thread_pairs, Gamma, thread_ex)
   {
+    // Per-thread storage must be initialized *inside* of the parallel region in
+    // which it is used, because the number of threads in the team is only known
+    // here and can differ between two regions. All threads wait at the end of
+    // the single region for their storage to be initialized.
+#pragma omp single
+    {
+      thread_ex.run([&]{
+        int n_threads = omp_get_num_threads();
+        for (int i = 0; i < n_threads; ++i) {
+          thread_pairs.push_back(std::make_pair(VertexMapSet<S,A>(all_points, s_tol, d_tol),
+                                                VertexIndexMap()));
+        }
+      });
+    }
     // stash our thread number to access this thread's pair
-    int thread = omp_get_thread_num();
+    auto thread = static_cast<size_t>(omp_get_thread_num());
 #pragma omp for
     for (long long s_i = 0; s_i < s_count; ++s_i) {
+      thread_ex.run([&]{
+      if (thread >= thread_pairs.size()) return; // storage initialization failed
       auto i = cube_indexes[utils::s2u<ind_t>(s_i)];
       auto this_node_faces = trellis_node_faces(i);
       // this limits all_points to have the knots *first*
@@ -240,7 +238,7 @@ PolyTrellis<T,R,S,A>::part_one(const poly_t& poly, const A<S>& all_points, std::
       } else {
         if (intersection.face_count() < 4 || intersection.volume() <= 0.) {
           node_type[i] = NodeType::found_null;
-          continue; // we don't want to re-wrap the following code block
+          return; // we don't want to re-wrap the following code block
         }
         // find which of the vertices of the intersection are knots as well.
         const auto &iv{intersection.vertices()};
@@ -257,14 +255,12 @@ PolyTrellis<T,R,S,A>::part_one(const poly_t& poly, const A<S>& all_points, std::
         auto & node_map = thread_pairs[thread].second.get(i);
         node_map.resize(iv.size(0));
         for (ind_t iv_index = 0; iv_index < iv.size(0); ++iv_index) {
-          thread_ex.run([&]{
           if (auto search = i2p.find(iv_index); search != i2p.end()) {
             node_map[iv_index] = thread_pairs[thread].first.preserve(search->second);
           } else {
-					  // might-throw:
+            // might-throw:
             node_map[iv_index] = thread_pairs[thread].first.add(iv.view(iv_index), AddVertexType::Crafted);
           }
-					}); // end might-throw handler ThreadException runner
         }
       }
       // this was protected by a not-null check; but now if the node is null
@@ -279,9 +275,9 @@ PolyTrellis<T,R,S,A>::part_one(const poly_t& poly, const A<S>& all_points, std::
         if (no == 0) thread_pairs[thread].second.append(i, thread_pairs[thread].first.origin_index());
       }
       // Storing the intersection into the std::map is likely not thread safe
-      stash_mutex.lock();
+      std::lock_guard<std::mutex> guard(stash_mutex);
       poly_stash.emplace(i, intersection);
-      stash_mutex.unlock();
+      }); // end might-throw handler ThreadException runner
     } // end parallel for-loop
   } // end parallel region -- back to single-thread execution
   thread_ex.rethrow(); //Now handle any encountered errors if they exist
-- 
2.43.0


From bf8f9464b1e8ba6a0e9e8f3ed757856d292efe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:26 +0000
Subject: [PATCH 05/39] fix: rotate real lattice vectors and matrices by the
 operation which takes q to Q
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Q = Rᵀq + τ means that real space vectors transform by R⁻¹, as rip_axial,
rip_recip and rip_gamma already do; rip_real used R, which differs for every
operation of order 3, 4 or 6.
---
 src/interpolator_real.tpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/interpolator_real.tpp b/src/interpolator_real.tpp
index 3e31f0f..8a6e5b7 100644
--- a/src/interpolator_real.tpp
+++ b/src/interpolator_real.tpp
@@ -42,18 +42,18 @@ bool Interpolator<T>::rip_real(
       for (ind_t b=0; b<b_; ++b){
         // scalar elements do not need to be rotated, so skip them
         ind_t o = b*s_ + no[0];
-        // rotate real vectors: since Q = Rᵀq + τ → Rv
+        // rotate real vectors: since Q = Rᵀq + τ → R⁻¹*v
         for (ind_t v=0; v<no[1]; ++v){
-          brille::utils::mul_mat_vec(tmp_v, 3u, ptsym.get(r[i]).data(), xi+o);
+          brille::utils::mul_mat_vec(tmp_v, 3u, ptsym.get(invR[i]).data(), xi+o);
           for (int j=0; j<3; ++j) x.val(i,o+j) = tmp_v[j];
           o += 3u; // shift 3 for each vector
         }
         for (ind_t m=0; m<no[2]; ++m){
-          // Calculate R*M*R⁻¹ in two steps
-          // first calculate M*R⁻¹, storing in tmp_m
-          brille::utils::mul_mat_mat(tmp_m, 3u, xi+o, ptsym.get(invR[i]).data());
-          // next calculate R*tmp_m, storing back in the x array
-          brille::utils::mul_mat_mat(xi+o, 3u, ptsym.get(r[i]).data(), tmp_m);
+          // Calculate R⁻¹*M*R in two steps
+          // first calculate M*R, storing in tmp_m
+          brille::utils::mul_mat_mat(tmp_m, 3u, xi+o, ptsym.get(r[i]).data());
+          // next calculate R⁻¹*tmp_m, storing back in the x array
+          brille::utils::mul_mat_mat(xi+o, 3u, ptsym.get(invR[i]).data(), tmp_m);
           o += 9u; // shift 9 for each matrix
         }
       }
-- 
2.43.0


From f7cb6e918fb8a809bf6bd57bad50609ead453951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:26 +0000
Subject: [PATCH 06/39] fix: find points on the surface of the tetrahedral mesh

A point moved into the irreducible Brillouin zone is on its surface only to
within a few units in the last place. Locating it with weights exact to 5e-15
failed with 'Point not found in tetrahedral mesh'; use the tolerances which
decided that the point is in the zone.
---
 src/triangulation_layers.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/triangulation_layers.hpp b/src/triangulation_layers.hpp
index a9379ec..2e77b72 100644
--- a/src/triangulation_layers.hpp
+++ b/src/triangulation_layers.hpp
@@ -31,6 +31,7 @@ along with brille. If not, see <https://www.gnu.org/licenses/>.            */
 #include "array_.hpp" // defines bArray
 #include "tetgen.h"
 #include "polyhedron_flex.hpp"
+#include "approx_config.hpp"
 namespace brille {
 
 /*! \brief A single triangulated layer of the hierarchy for Mesh3
@@ -252,7 +253,8 @@ public:
   }
 protected:
   [[nodiscard]] bool unsafe_might_contain(const ind_t tet, const bArray<double>& x) const {
-    return norm(x-circum_centres.view(tet)).all(brille::cmp::le, circum_radii[tet]);
+    const auto & c{approx_float::config};
+    return norm(x-circum_centres.view(tet)).all(brille::cmp::le, circum_radii[tet], c.reciprocal<double>(), c.digit());
   }
   [[nodiscard]] bool unsafe_contains(const ind_t tet, const bArray<double>& x) const {
     std::array<double,4> w{0.,0.,0.,0.};
@@ -260,7 +262,10 @@ protected:
   }
   bool unsafe_contains(const ind_t tet, const bArray<double>& x, std::array<double,4>& w) const {
     this->weights(tet, x, w);
-    return std::all_of(w.begin(), w.end(), [](double z){ return (z>0.||brille::approx_float::scalar(z,0.)); });
+    // use the same tolerances as when moving points into the (irreducible) Brillouin zone
+    const auto t = approx_float::config.reciprocal<double>();
+    const auto n = approx_float::config.digit();
+    return std::all_of(w.begin(), w.end(), [t,n](double z){ return (z>0.||brille::approx_float::scalar(z,0.,t,t,n)); });
   }
   void weights(const ind_t tet, const bArray<double>& x, std::array<double,4>& w) const {
     const ind_t* i = vertices_per_tetrahedron.ptr(tet);
-- 
2.43.0


From 1aa5ae45e32342f35552762ba1efb31feae69036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:39 +0000
Subject: [PATCH 07/39] fix: report points outside of the mesh from the
 parallel interpolation

The serial overload throws for a point in no tetrahedron; the parallel one
interpolated with no weights, reading an empty vector, and a mesh of more than
one layer looked up the connections of a tetrahedron which does not exist.
---
 src/mesh.hpp                 | 15 +++++++++++----
 src/triangulation_layers.hpp |  2 ++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/mesh.hpp b/src/mesh.hpp
index dd33755..1aa023b 100644
--- a/src/mesh.hpp
+++ b/src/mesh.hpp
@@ -34,6 +34,7 @@ along with brille. If not, see <https://www.gnu.org/licenses/>.            */
 #include "triangulation_layers.hpp"
 #include "polyhedron_flex.hpp"
 #include "approx_config.hpp"
+#include "thread_exception.h"
 namespace brille {
 
 /*!
@@ -175,12 +176,18 @@ public:
     brille::Array2<DataVectors> vecs2(vecs);
     // OpenMP < v3.0 (VS uses v2.0) requires signed indexes for omp parallel
     long xsize = brille::utils::u2s<long, ind_t>(x.size(0));
-#pragma omp parallel for default(none) shared(x, vals2, vecs2, xsize) schedule(dynamic)
+    ThreadException thread_ex;
+#pragma omp parallel for default(none) shared(x, vals2, vecs2, xsize, thread_ex) schedule(dynamic)
     for (long si=0; si<xsize; ++si){
-      auto i = brille::utils::s2u<ind_t, long>(si);
-      auto verts_weights = this->mesh.locate(x.view(i));
-      data_.interpolate_at(verts_weights, vals2, vecs2, i);
+      thread_ex.run([&]{
+        auto i = brille::utils::s2u<ind_t, long>(si);
+        auto verts_weights = this->mesh.locate(x.view(i));
+        if (verts_weights.size()<1)
+          throw std::runtime_error("Point not found in tetrahedral mesh");
+        data_.interpolate_at(verts_weights, vals2, vecs2, i);
+      });
     }
+    thread_ex.rethrow(); // only throws if error(s) were caught
     return std::make_tuple(vals, vecs);
   }
   //! Return the neighbours for which a passed boolean array holds true
diff --git a/src/triangulation_layers.hpp b/src/triangulation_layers.hpp
index 2e77b72..f1c88b6 100644
--- a/src/triangulation_layers.hpp
+++ b/src/triangulation_layers.hpp
@@ -415,6 +415,8 @@ public:
     ind_t idx = layers[0].unsafe_locate(x,vw);
     // use the layer-connection map to restrict the search in the next layer's tetrahedra
     for (size_t i=1; i<layers.size(); ++i){
+      // there are no connections for a point outside of the previous layer
+      if (vw.empty()) break;
       const TetSet& tosearch = connections[i-1][idx];
       idx = layers[i].unsafe_locate(tosearch, x, vw);
     }
-- 
2.43.0


From 818be88916dfd7d70f577cb1ba9c2129f445276a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:20 +0000
Subject: [PATCH 08/39] fix: hand exceptions thrown in parallel regions to the
 calling thread

An exception which leaves an OpenMP region ends the process. Catch them in the
regions which can throw (e.g., connecting mesh layers, eigenvector rotation
without atom positions, or any allocation failure) and rethrow them after the
region.
---
 src/bz.hpp                    |  9 +++++++--
 src/bz_move.cpp               | 18 +++++++++++-------
 src/interpolator.hpp          |  1 +
 src/interpolator_gamma.tpp    |  8 ++++++--
 src/interpolatordual.hpp      | 10 +++++++---
 src/nest.hpp                  | 20 ++++++++++++--------
 src/phonon.hpp                |  4 ++--
 src/trellis_poly_parallel.tpp | 24 ++++++++++++++++++------
 src/triangulation_layers.hpp  | 24 +++++++++++++++++-------
 src/vertex_map_knit.h         | 11 ++++++++---
 10 files changed, 89 insertions(+), 40 deletions(-)

diff --git a/src/bz.hpp b/src/bz.hpp
index d333014..1cf736a 100644
--- a/src/bz.hpp
+++ b/src/bz.hpp
@@ -32,6 +32,7 @@ along with brille. If not, see <https://www.gnu.org/licenses/>.            */
 #include "bz_config.hpp"
 #include "approx_float.hpp"
 #include "approx_config.hpp"
+#include "thread_exception.h"
 
 namespace brille {
 /*! \brief An object to hold information about the first Brillouin zone of a
@@ -694,11 +695,15 @@ public:
       // std::vector<bool> packs its elements into shared words, so its elements
       // can not be written by different threads at the same time
       std::vector<char> in(p.size(0), 1);
-#pragma omp parallel for default(none) shared(in, normals, p, c)               \
+      ThreadException thread_ex;
+#pragma omp parallel for default(none) shared(in, normals, p, c, thread_ex)    \
     schedule(dynamic)
       for (long long i = 0; i < p.size(0); ++i) // separately changed to ind_t
         //TODO Add tolerance here?
-        in[i] = dot(normals, p.view(i)).all(c, 0.) ? 1 : 0;
+        thread_ex.run([&]{
+          in[i] = dot(normals, p.view(i)).all(c, 0.) ? 1 : 0;
+        });
+      thread_ex.rethrow(); // only throws if error(s) were caught
       std::copy(in.begin(), in.end(), out.begin());
     }
     return out;
diff --git a/src/bz_move.cpp b/src/bz_move.cpp
index efe713c..7210573 100644
--- a/src/bz_move.cpp
+++ b/src/bz_move.cpp
@@ -312,17 +312,19 @@ bool BrillouinZone::ir_moveinto_wedge(const LVec<double>& Q, LVec<double>& q, st
   // OpenMP 2 (VS) doesn't like unsigned loop counters
   size_t n_outside{0};
   auto snQ = brille::utils::u2s<long long, ind_t>(nQ);
-#pragma omp parallel default(none) shared(R, q, Q, lat, snQ) reduction(+:n_outside)
+  // get the PointSymmetry object, containing all operations
+  auto psym = this->_outer.pointgroup_symmetry();
+  if (time_reversal) psym = psym.add_space_inversion();
+  auto eidx = psym.find_identity_index();
+  std::vector<std::array<int, 9>> r_transpose;
+  for (const auto& r: psym.getall()) r_transpose.push_back(transpose(r));
+  ThreadException thread_ex;
+#pragma omp parallel default(none) shared(R, q, Q, lat, snQ, psym, eidx, r_transpose, thread_ex) reduction(+:n_outside)
   {
-    // get the PointSymmetry object, containing all operations
-    auto psym = this->_outer.pointgroup_symmetry();
-    if (time_reversal) psym = psym.add_space_inversion();
-    auto eidx = psym.find_identity_index();
     std::array<double, 3> q_j{0,0,0}; // temporary result storage
-    std::vector<std::array<int, 9>> r_transpose;
-    for (const auto& r: psym.getall()) r_transpose.push_back(transpose(r));
 #pragma omp for schedule(dynamic)
     for (long long si = 0; si < snQ; ++si) {
+      thread_ex.run([&]{
       auto i = brille::utils::s2u<ind_t, long long>(si);
       // any q already in the irreducible zone need no rotation → identity
       bool inside{_inside_wedge_outer(Q.view(i))};
@@ -343,8 +345,10 @@ bool BrillouinZone::ir_moveinto_wedge(const LVec<double>& Q, LVec<double>& q, st
           }
       }
       if (!inside) ++n_outside;
+      });
     }
   }
+  thread_ex.rethrow(); // only throws if error(s) were caught
   if (n_outside > 0) for (ind_t i=0; i<nQ; ++i) if (!_inside_wedge_outer(q.view(i))){
         std::string msg = "Q = " + Q.to_string(i);
         msg += " is outside of the irreducible reciprocal space wedge ";
diff --git a/src/interpolator.hpp b/src/interpolator.hpp
index 7fcba0b..caccf1e 100644
--- a/src/interpolator.hpp
+++ b/src/interpolator.hpp
@@ -30,6 +30,7 @@ along with brille. If not, see <https://www.gnu.org/licenses/>.            */
 #include "phonon.hpp"
 #include "permutation.hpp"
 #include "permutation_table.hpp"
+#include "thread_exception.h"
 #include "rotates.hpp"
 namespace brille {
 
diff --git a/src/interpolator_gamma.tpp b/src/interpolator_gamma.tpp
index c45db2e..fff7ad9 100644
--- a/src/interpolator_gamma.tpp
+++ b/src/interpolator_gamma.tpp
@@ -74,13 +74,15 @@ bool Interpolator<T>::rip_gamma_complex(
   long long xsize = brille::utils::u2s<long long, ind_t>(x.size(0));
   std::vector<T> tA;
   T t0[9], t1[9];
+  ThreadException thread_ex;
 
 #if defined(__GNUC__) && !defined(__llvm__) && __GNUC__ < 9
-#pragma omp parallel for default(none) shared(x,q,pgt,rot,ridx,invRidx,e_iqd_gt) private(t0,t1,tA) firstprivate(no,Nmat,xsize) schedule(static)
+#pragma omp parallel for default(none) shared(x,q,pgt,rot,ridx,invRidx,e_iqd_gt,thread_ex) private(t0,t1,tA) firstprivate(no,Nmat,xsize) schedule(static)
 #else
-#pragma omp parallel for default(none) shared(b_,s_,x,q,pgt,rot,ridx,invRidx,e_iqd_gt) private(t0,t1,tA) firstprivate(no,Nmat,xsize) schedule(static)
+#pragma omp parallel for default(none) shared(b_,s_,x,q,pgt,rot,ridx,invRidx,e_iqd_gt,thread_ex) private(t0,t1,tA) firstprivate(no,Nmat,xsize) schedule(static)
 #endif
   for (long long si=0; si<xsize; ++si){
+    thread_ex.run([&]{
     ind_t i = brille::utils::s2u<ind_t, long long>(si);
     T * xi = x.ptr(i);
     size_t Rii = ridx[i], iRii = invRidx[i];
@@ -133,7 +135,9 @@ bool Interpolator<T>::rip_gamma_complex(
         for (ind_t j=0; j<no[2]*9u; ++j) xi[o+j] = tA[j];
       }
     }
+    });
   }
+  thread_ex.rethrow(); // only throws if error(s) were caught
   profile_update("  End Interpolator::rip_gamma_complex method");
   return true;
 }
diff --git a/src/interpolatordual.hpp b/src/interpolatordual.hpp
index 50bdca0..31e9213 100644
--- a/src/interpolatordual.hpp
+++ b/src/interpolatordual.hpp
@@ -412,11 +412,15 @@ DualInterpolator<T,R>::sort(){
   // now find the permutations in parallel
   std::mutex m;
   auto nok = brille::utils::u2s<long long, size_t>(tri_ij.size());
-  #pragma omp parallel for default(none) shared(tri_ij, m, nok)
+  ThreadException thread_ex;
+  #pragma omp parallel for default(none) shared(tri_ij, m, nok, thread_ex)
   for (long long sk=0; sk<nok; ++sk){
-    auto k = brille::utils::s2u<size_t, long long>(sk);
-    this->determine_permutation_ij(tri_ij[k][0], tri_ij[k][1], m);
+    thread_ex.run([&]{
+      auto k = brille::utils::s2u<size_t, long long>(sk);
+      this->determine_permutation_ij(tri_ij[k][0], tri_ij[k][1], m);
+    });
   }
+  thread_ex.rethrow(); // only throws if error(s) were caught
   debug_update("Done");
 }
 
diff --git a/src/nest.hpp b/src/nest.hpp
index 6aa682a..2d3f02a 100644
--- a/src/nest.hpp
+++ b/src/nest.hpp
@@ -402,16 +402,20 @@ public:
     auto t = approx_.reciprocal<double>();
     auto n = approx_.digit();
     auto xsize = brille::utils::u2s<long long, ind_t>(x.size(0));
-  #pragma omp parallel for default(none) shared(x, vals2, vecs2) reduction(+:unfound) firstprivate(xsize, t, n) schedule(dynamic)
+    ThreadException thread_ex;
+  #pragma omp parallel for default(none) shared(x, vals2, vecs2, thread_ex) reduction(+:unfound) firstprivate(xsize, t, n) schedule(dynamic)
     for (long long si=0; si<xsize; ++si){
-      auto i = brille::utils::s2u<ind_t, long long>(si);
-      auto iw = root_.indices_weights(vertices_, x.extract(i), t, n);
-      if (iw.size()){
-        data_.interpolate_at(iw, vals2, vecs2, i);
-      } else {
-        ++unfound;
-      }
+      thread_ex.run([&]{
+        auto i = brille::utils::s2u<ind_t, long long>(si);
+        auto iw = root_.indices_weights(vertices_, x.extract(i), t, n);
+        if (iw.size()){
+          data_.interpolate_at(iw, vals2, vecs2, i);
+        } else {
+          ++unfound;
+        }
+      });
     }
+    thread_ex.rethrow(); // only throws if error(s) were caught
     if (unfound > 0){
       std::string msg = std::to_string(unfound) + " points not found in Nest";
       throw std::runtime_error(msg);
diff --git a/src/phonon.hpp b/src/phonon.hpp
index 64822d8..0f454ca 100644
--- a/src/phonon.hpp
+++ b/src/phonon.hpp
@@ -96,8 +96,8 @@ private:
   std::vector<ind_t> point2space_; //! maps Rᵣ to Sᵣ
   // use std::vectors instead of std::map for the mapping since we know the
   // total number of keys and how to calculate their positions in the vector
-  ind_t n_atoms;
-  ind_t n_sym_ops;
+  ind_t n_atoms{0};
+  ind_t n_sym_ops{0};
   std::vector<ind_t> l_mapping; //! maps (κ,r) to l=Nₒ(κ,Sᵣ)
   std::vector<ind_t> v_mapping; //! maps (κ,r) to v
   lattice_t lattice_;
diff --git a/src/trellis_poly_parallel.tpp b/src/trellis_poly_parallel.tpp
index fa82d24..69548d3 100644
--- a/src/trellis_poly_parallel.tpp
+++ b/src/trellis_poly_parallel.tpp
@@ -342,8 +342,10 @@ PolyTrellis<T,R,S,A>::part_two(
 
   // Handle all cubic nodes (this probably doesn't need a parallel loop)
   auto c_count = utils::u2s<long long>(cube_indexes.size());
-#pragma omp parallel for default(none) shared(n_kept, poly_stash, cube_indexes, c_count, node_index_map)
+  ThreadException thread_ex;
+#pragma omp parallel for default(none) shared(n_kept, poly_stash, cube_indexes, c_count, node_index_map, thread_ex)
   for (long long s_i=0; s_i<c_count; ++s_i) {
+    thread_ex.run([&]{
     auto i = static_cast<ind_t>(cube_indexes[utils::s2u<ind_t>(s_i)]);
     // we already ensured we don't need to worry about Γ if this is a cube
     std::array<ind_t,8> fvi;
@@ -358,15 +360,18 @@ PolyTrellis<T,R,S,A>::part_two(
     // [1,2,6,5,3,0,4,7] to put the vertices in the 'correct' order:
     std::array<ind_t,8> cube_vert_idx{{fvi[1], fvi[2], fvi[6], fvi[5], fvi[3], fvi[0], fvi[4], fvi[7]}};
     nodes_.set(i, CubeNode(cube_vert_idx));
+    });
   }
+  thread_ex.rethrow(); // only throws if error(s) were caught
 
   profile_update("Cube node vertices stored");
 
   // Handle all polyhedron nodes (this almost certainly needs to be parallel)
   ind_t fatal_tri{0}, fatal_miss{0}, fatal_match{0}, hiccups{0};
   auto p_count = utils::u2s<long long>(poly_indexes.size());
-#pragma omp parallel for default(none) shared(std::cout, n_kept, poly_stash, poly_indexes, p_count, node_index_map, s_tol, d_tol) reduction(+:fatal_tri, fatal_miss, fatal_match, hiccups)
+#pragma omp parallel for default(none) shared(std::cout, n_kept, poly_stash, poly_indexes, p_count, node_index_map, s_tol, d_tol, thread_ex) reduction(+:fatal_tri, fatal_miss, fatal_match, hiccups)
   for (long long s_i=0; s_i<p_count; ++s_i) {
+    thread_ex.run([&]{
     auto i = poly_indexes[utils::s2u<ind_t>(s_i)];
     //
     auto Gamma = 0 * vertices_.view(0);
@@ -447,7 +452,9 @@ PolyTrellis<T,R,S,A>::part_two(
       throw std::runtime_error("Triangulated node is actually Null!");
     }
     nodes_.set(i, PolyNode(idx_per_tet, cci_per_tet, vol_per_tet));
+    });
   }
+  thread_ex.rethrow(); // only throws if error(s) were caught
 
   profile_update("Poly node vertexes stored");
 
@@ -469,17 +476,22 @@ PolyTrellis<T,R,S,A>::collect_keys() {
   profile_update("Start of PolyTrellis permutation key collection");
   std::set<size_t> keys;
   long long nnodes = brille::utils::u2s<long long, size_t>(nodes_.size());
-  #pragma omp parallel for default(none) shared(keys, nnodes)
+  ThreadException thread_ex;
+  #pragma omp parallel for default(none) shared(keys, nnodes, thread_ex)
   for (long long sni=0; sni<nnodes; ++sni){
-    ind_t ni = brille::utils::s2u<ind_t, long long>(sni);
-    std::set<size_t> t = this->collect_keys_node(ni);
+    std::set<size_t> t;
+    thread_ex.run([&]{
+      ind_t ni = brille::utils::s2u<ind_t, long long>(sni);
+      t = this->collect_keys_node(ni);
+    });
     if (t.size()){
       #pragma omp critical
       {
-        keys.insert(t.begin(), t.end());
+        thread_ex.run([&]{ keys.insert(t.begin(), t.end()); });
       }
     }
   }
+  thread_ex.rethrow(); // only throws if error(s) were caught
   profile_update("  End of PolyTrellis permutation key collection");
   return keys;
 }
diff --git a/src/triangulation_layers.hpp b/src/triangulation_layers.hpp
index f1c88b6..61806f5 100644
--- a/src/triangulation_layers.hpp
+++ b/src/triangulation_layers.hpp
@@ -32,6 +32,7 @@ along with brille. If not, see <https://www.gnu.org/licenses/>.            */
 #include "tetgen.h"
 #include "polyhedron_flex.hpp"
 #include "approx_config.hpp"
+#include "thread_exception.h"
 namespace brille {
 
 /*! \brief A single triangulated layer of the hierarchy for Mesh3
@@ -239,16 +240,21 @@ public:
     auto ntets = brille::utils::u2s<long long, ind_t>(this->number_of_tetrahedra());
     ind_t nvert = this->number_of_vertices();
     std::set<size_t> keys;
-    #pragma omp parallel for default(none) shared(ntets, keys, nvert)
+    ThreadException thread_ex;
+    #pragma omp parallel for default(none) shared(ntets, keys, nvert, thread_ex)
     for (long long si=0; si<ntets; ++si){
-      auto i = brille::utils::s2u<ind_t, long long>(si);
-      auto v = vertices_per_tetrahedron.view(i).to_std();
-      std::set<size_t> t = permutation_table_keys_from_indicies(v.begin(), v.end(), nvert);
+      std::set<size_t> t;
+      thread_ex.run([&]{
+        auto i = brille::utils::s2u<ind_t, long long>(si);
+        auto v = vertices_per_tetrahedron.view(i).to_std();
+        t = permutation_table_keys_from_indicies(v.begin(), v.end(), nvert);
+      });
       #pragma omp critical
       {
-        keys.insert(t.begin(), t.end());
+        thread_ex.run([&]{ keys.insert(t.begin(), t.end()); });
       }
     }
+    thread_ex.rethrow(); // only throws if error(s) were caught
     return keys;
   }
 protected:
@@ -457,14 +463,16 @@ private:
     if (brille::printer.datetime()) stopwatch.tic(); // we only need to start the timer if we are printing timing information
     TetMap map(layers[high].number_of_tetrahedra());
     auto mapsize = brille::utils::u2s<long long, size_t>(map.size());
+    ThreadException thread_ex;
 #if defined(__GNUC__) && !defined(__llvm__) && __GNUC__ < 9
 // this version is necessary with g++ <= 8.3.0
-#pragma omp parallel for default(none) shared(map, mapsize) schedule(dynamic)
+#pragma omp parallel for default(none) shared(map, mapsize, thread_ex) schedule(dynamic)
 #else
 // this version is necessary with g++ == 9.2.0
-#pragma omp parallel for default(none) shared(map, mapsize, high, low) schedule(dynamic)
+#pragma omp parallel for default(none) shared(map, mapsize, high, low, thread_ex) schedule(dynamic)
 #endif
     for (long ui=0; ui<mapsize; ++ui){
+      thread_ex.run([&]{
       auto i = brille::utils::s2u<ind_t, long long>(ui);
       // initialize the map
       map[i] = TetSet();
@@ -491,7 +499,9 @@ private:
         // if (add || tethi.intersects(ll.get_tetrahedron(j))) map[i].push_back(j);
         if (add || layers[low].get_tetrahedron(j).intersects(tethi)) map[i].push_back(j);
       }
+      });
     }
+    thread_ex.rethrow(); // only throws if error(s) were caught
     if (brille::printer.datetime()) stopwatch.toc();
     info_update_if(brille::printer.datetime(), "Connect ",layers[high].number_of_tetrahedra()," to ",layers[low].number_of_tetrahedra()," completed in ",stopwatch.elapsed()," ms");
     // we now have a TetMap which contains, for every tetrahedral index of the
diff --git a/src/vertex_map_knit.h b/src/vertex_map_knit.h
index 1785d15..04d6ca5 100644
--- a/src/vertex_map_knit.h
+++ b/src/vertex_map_knit.h
@@ -7,6 +7,7 @@
 
 #include "vertex_map_set.h"
 #include "vertex_index_map.h"
+#include "thread_exception.h"
 
 namespace brille::vertex_maps {
 
@@ -173,11 +174,15 @@ parallel_reduce(const std::vector<std::pair<VertexMapSet<T, A>, VertexIndexMap>>
   auto isodd = static_cast<size_t>(2 * out_len + 1) == input.size();
   output.reserve((isodd ? out_len + 1 : out_len));
   output.resize(out_len);
-#pragma omp parallel for default(none) shared(input, output, out_len)
+  ThreadException thread_ex;
+#pragma omp parallel for default(none) shared(input, output, out_len, thread_ex)
   for (int64_t idx = 0; idx < out_len; ++idx) {
-    auto i = static_cast<size_t>(idx);
-    output[i] = combine(input[2 * i], input[2 * i + 1]);
+    thread_ex.run([&]{
+      auto i = static_cast<size_t>(idx);
+      output[i] = combine(input[2 * i], input[2 * i + 1]);
+    });
   }
+  thread_ex.rethrow(); // only throws if error(s) were caught
   if (isodd) output.push_back(input.back());
   return output;
 }
-- 
2.43.0


From badd6eedc1153aebb0459de346403430c03c9e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:44 +0000
Subject: [PATCH 09/39] fix: a failed allocation while describing a surface to
 tetgen freed uninitialised pointers

---
 src/triangulation_layers.hpp | 4 ++--
 src/triangulation_poly.hpp   | 4 ++--
 src/triangulation_simple.hpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/triangulation_layers.hpp b/src/triangulation_layers.hpp
index 61806f5..5c64e00 100644
--- a/src/triangulation_layers.hpp
+++ b/src/triangulation_layers.hpp
@@ -604,7 +604,7 @@ triangulate_one_layer(const bArray<T>& verts,
   }
   verbose_update("Initialize and fill the input object's facetlist parameter");
   tgi.numberoffacets = static_cast<int>(vpf.size());
-  tgi.facetlist = new tetgenio::facet[tgi.numberoffacets];
+  tgi.facetlist = new tetgenio::facet[tgi.numberoffacets]();
   tgi.facetmarkerlist = nullptr;
   tgi.facetmarkerlist = new int[tgi.numberoffacets];
   for (ind_t i=0; i<vpf.size(); ++i){
@@ -612,8 +612,8 @@ triangulate_one_layer(const bArray<T>& verts,
     // Use a reference to the facet list entry to shorten lines
     auto & fi{tgi.facetlist[i]};
     // Every facet is a single polygon, always.
+    fi.polygonlist = new tetgenio::polygon[1]();
     fi.numberofpolygons = 1;
-    fi.polygonlist = new tetgenio::polygon[1];
     // And no holes are allowed -- we're forced to be explicit about the nullptr to make MVSC happy
     fi.numberofholes = 0;
     fi.holelist = nullptr;
diff --git a/src/triangulation_poly.hpp b/src/triangulation_poly.hpp
index 1b30221..6134d39 100644
--- a/src/triangulation_poly.hpp
+++ b/src/triangulation_poly.hpp
@@ -68,12 +68,12 @@ triangulate(const T max_volume, const bool addGamma, const A<T>& points, const F
   }
   debug_update("Initialize and fill the input object's facetlist parameter");
   tgi.numberoffacets = static_cast<int>(f.size());
-  tgi.facetlist = new tetgenio::facet[tgi.numberoffacets];
+  tgi.facetlist = new tetgenio::facet[tgi.numberoffacets]();
   tgi.facetmarkerlist = new int[tgi.numberoffacets];
   for (size_t i=0; i<f.size(); ++i){
     tgi.facetmarkerlist[i] = static_cast<int>(i);
+    tgi.facetlist[i].polygonlist = new tetgenio::polygon[1]();
     tgi.facetlist[i].numberofpolygons = 1;
-    tgi.facetlist[i].polygonlist = new tetgenio::polygon[1];
     tgi.facetlist[i].numberofholes = 0;
     tgi.facetlist[i].holelist = nullptr;
     tgi.facetlist[i].polygonlist[0].numberofvertices = static_cast<int>(f[i].size());
diff --git a/src/triangulation_simple.hpp b/src/triangulation_simple.hpp
index 8253887..1d3ba4a 100644
--- a/src/triangulation_simple.hpp
+++ b/src/triangulation_simple.hpp
@@ -104,12 +104,12 @@ public:
     }
     debug_update("Initialize and fill the input object's facetlist parameter");
     tgi.numberoffacets = static_cast<int>(vpf.size());
-    tgi.facetlist = new tetgenio::facet[tgi.numberoffacets];
+    tgi.facetlist = new tetgenio::facet[tgi.numberoffacets]();
     tgi.facetmarkerlist = new int[tgi.numberoffacets];
     for (size_t i=0; i<vpf.size(); ++i){
       tgi.facetmarkerlist[i] = static_cast<int>(i);
+      tgi.facetlist[i].polygonlist = new tetgenio::polygon[1]();
       tgi.facetlist[i].numberofpolygons = 1;
-      tgi.facetlist[i].polygonlist = new tetgenio::polygon[1];
       tgi.facetlist[i].numberofholes = 0;
       tgi.facetlist[i].holelist = nullptr;
       tgi.facetlist[i].polygonlist[0].numberofvertices = static_cast<int>(vpf[i].size());
-- 
2.43.0


From ec105e8eb01a7bedcf5bcdea7f88380a7539de1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:44 +0000
Subject: [PATCH 10/39] fix: points beyond the trellis read nodes out of bounds
 instead of being reported as not found

---
 src/trellis_poly.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/trellis_poly.hpp b/src/trellis_poly.hpp
index 74a2dc6..5fa5785 100644
--- a/src/trellis_poly.hpp
+++ b/src/trellis_poly.hpp
@@ -247,10 +247,13 @@ public:
     std::vector<std::pair<ind_t,VertexComponents>> iw{};
     if (x.ndim()!=2 && x.size(0)!=1u && x.size(1)!=3u)
       throw std::runtime_error("The indices and weights can only be found for one point at a time.");
-    // if node_index does not throw an error then the indicated node *should*
-    // contain the interpolation point (but rounding might be a problem)
+    auto sub = this->node_subscript(x);
+    // a point beyond the last bin along any direction is in no node
+    if (!this->subscript_ok(sub)) return iw;
+    // otherwise the indicated node *should* contain the interpolation point
+    // (but rounding might be a problem)
     const bool should_contain = true;
-    nodes_.indices_weights(this->node_index(x), vertices_, x, iw, should_contain);
+    nodes_.indices_weights(this->sub2idx(sub), vertices_, x, iw, should_contain);
     return iw;
   }
   //! Check that the held data can be used for linear interpolation
@@ -424,7 +427,7 @@ public:
       }
       if (!bad) sub = newsub;
       else {
-        auto node_type = nodes_.node_type_string(sub2idx(sub));
+        std::string node_type = subscript_ok(sub) ? nodes_.node_type_string(sub2idx(sub)) : "missing";
         info_update("The node subscript ", sub, " for the point\n\t(hkl) ",
                     p.to_string(0u), "\n\t(xyz) [[", pos, "]]\n",
                     " is either invalid or a ", node_type, " node");
-- 
2.43.0


From f3c3cede67ed0e7de9c8adbb7fca42b7df963fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:12 +0000
Subject: [PATCH 11/39] fix: messages logged from several threads raced on the
 state of the single printer

---
 src/debug.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/debug.hpp b/src/debug.hpp
index a39f1bb..24311e8 100644
--- a/src/debug.hpp
+++ b/src/debug.hpp
@@ -30,6 +30,7 @@ along with brille. If not, see <https://www.gnu.org/licenses/>.            */
 #include <vector>
 #include <complex>
 #include <chrono>
+#include <mutex>
 //#define VERBOSE_DEBUG
 //#define DEBUG // comment-out for no debugging output
 //#define PROFILING
@@ -259,6 +260,7 @@ class DebugPrinter{
   bool _silenced;
   bool emit_datetime;
   size_t _before;
+  std::recursive_mutex _mutex; // messages come from within parallel regions too
 public:
   DebugPrinter(std::string s)
   : last_function(std::move(s)), _silenced(false), emit_datetime(false), _before(0)
@@ -274,6 +276,7 @@ public:
   [[nodiscard]] bool datetime() const {return emit_datetime;}
   bool datetime(bool edt) {emit_datetime = edt; return emit_datetime;}
   template<typename... L> void print(const std::string& fnc, L... l){
+    std::lock_guard<std::recursive_mutex> guard(_mutex);
     if (!_silenced){
       size_t torem{0};
       if (last_function.compare(fnc)){
@@ -296,6 +299,7 @@ public:
     }
   }
   template<typename... L> void println(const std::string& fnc, L... l){
+    std::lock_guard<std::recursive_mutex> guard(_mutex);
     if (!_silenced){
       this->print(fnc, l...);
       std::cout << std::endl;
-- 
2.43.0


From 576bd74009cbd3828bf161e638023863cdc2a485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:00 +0000
Subject: [PATCH 12/39] fix: sorting modes with real vectors compared
 uninitialised memory

---
 src/utilities.tpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utilities.tpp b/src/utilities.tpp
index 9a8dcb5..3b1a2d9 100644
--- a/src/utilities.tpp
+++ b/src/utilities.tpp
@@ -527,7 +527,10 @@ template<class T> T magnitude(const std::complex<T> a){
   // undocumented real-valued (default) functions:
   template<class T> T antiphase(const T){return T(1);}
   template<class I, class T> T antiphase(const I, const T*, const T*){return T(1);}
-  template<class I, class T> void inplace_antiphase(const I, const T*, const T*, T*) {}
+  template<class I, class T> void inplace_antiphase(const I n, const T*, const T* b, T* phased) {
+    // the phase of a real vector is always one, so the output is a copy of the input
+    for (I i=0; i<n; ++i) phased[i] = b[i];
+  }
   template<class T, template<class> class A> T unsafe_antiphase(const A<T>&, const A<T>&){return T(1);}
 #endif
 /*! \brief Find the reciprocal phase of a complex number
-- 
2.43.0


From 2215fb77bea58c650433dc93d21ded2ff8130522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:05 +0000
Subject: [PATCH 13/39] fix: permutations of replaced data were kept when the
 number of modes stayed the same

---
 src/permutation_table.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/permutation_table.hpp b/src/permutation_table.hpp
index cdc2bd3..d647503 100644
--- a/src/permutation_table.hpp
+++ b/src/permutation_table.hpp
@@ -108,9 +108,8 @@ public:
 	         double-index map has been invalidated
 	\note If the number of index pairs is changed by this method the double-index
 	      map is cleared and this object no longer holds a valid 	permutation
-				table. If the length of the permutation vectors changes the list of all
-				permutations is cleared and all double-index mappings are reset to the
-				identity permutation.
+				table. The list of all permutations is always cleared and all double-index
+				mappings are reset to the identity permutation.
 	*/
 	bool refresh(const size_t ni, const size_t br){
 		bool invalidated{false};
@@ -120,11 +119,10 @@ public:
 			this->IndexSize = ni;
 			invalidated = true;
 		}
-		if (br != permutations[0].size()){
-			for (auto& itr: ijmap) itr.second = 0u; // all mapped values reset to the invalid value
-			permutations.clear();
-			this->add_zeroth(br);
-		}
+		// permutations determined for replaced data are no longer valid, even if their length is
+		for (auto& itr: ijmap) itr.second = 0u; // all mapped values reset to the invalid value
+		permutations.clear();
+		this->add_zeroth(br);
 		return invalidated;
 	}
 	//! Access the find method of the double-index map
-- 
2.43.0


From 94eaf4a84365c1957321c15396af083c8eda2766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:39 +0000
Subject: [PATCH 14/39] fix: keep the vector cost function when loading
 interpolation data

Interpolator::set_cost_info records the vector cost function type in the first
element of _funtype but from_hdf passed that element as the scalar type and an
always-zero element as the vector type, so loading replaced the chosen cost
function by the default one.
---
 src/interpolator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/interpolator.hpp b/src/interpolator.hpp
index caccf1e..5ad3d46 100644
--- a/src/interpolator.hpp
+++ b/src/interpolator.hpp
@@ -661,7 +661,9 @@ private:
     group.getDataSet("costmult").read(c);
     group.getDataSet("funtype").read(f);
     //
-    return {d, s, e, r, l, static_cast<int>(f[0]), static_cast<int>(f[1]), c};
+    // set_cost_info records the vector cost function type as the first element;
+    // there is only one scalar cost function
+    return {d, s, e, r, l, 0, static_cast<int>(f[0]), c};
   }
   static Interpolator<T> from_hdf(const std::string& filename, const std::string& dataset){
     HighFive::File file(filename, HighFive::File::ReadOnly);
-- 
2.43.0


From b29f167f9394ae35b8a546b514ea365700ea4d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:20 +0000
Subject: [PATCH 15/39] fix: copy the tolerances of a Mesh3

The copy constructor and the copy assignment of Mesh3 dropped approx_, so the
tolerances of a mesh were replaced by the default ones on copying; loading a
mesh from a file copies it too.
---
 src/mesh.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mesh.hpp b/src/mesh.hpp
index 1aa023b..7a45b64 100644
--- a/src/mesh.hpp
+++ b/src/mesh.hpp
@@ -86,6 +86,7 @@ public:
   Mesh3(const class_t& other){
     this->mesh = other.mesh;
     this->data_ = other.data_;
+    this->approx_ = other.approx_;
   }
   //Mesh3(TetTri  m, const data_t& d): mesh(std::move(m)), data_(d) {}
   Mesh3(mesh_t m, data_t d, approx_t a): mesh(std::move(m)), data_(std::move(d)), approx_(a) {}
@@ -94,6 +95,7 @@ public:
   auto& operator=(const class_t& other){
     this->mesh = other.mesh;
     this->data_ = other.data_;
+    this->approx_ = other.approx_;
     return *this;
   }
   [[nodiscard]] approx_t approx_config() const {return approx_;}
-- 
2.43.0


From 653c84e18953095ccf75be2477eba3f485203cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:58 +0000
Subject: [PATCH 16/39] fix: do not leak when reading an Array2 or a Basis
 fails

The buffers were plain pointers which were lost when the read threw, e.g. for
a storage error or data of another type.
---
 src/array2.hpp | 6 +++---
 src/basis.hpp  | 6 ++----
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/array2.hpp b/src/array2.hpp
index 7e2abcf..496c755 100644
--- a/src/array2.hpp
+++ b/src/array2.hpp
@@ -543,12 +543,12 @@ public:
       if (data_shape.size() != 2u)
         throw std::runtime_error("Only 2D arrays can be Array2 objects");
       auto num = dataset.getElementCount();
-      T *data = new T[num]();
-      dataset.read(data);
+      auto data = std::make_unique<T[]>(num); // reading can throw
+      dataset.read(data.get());
       shape_t shape{{static_cast<ind_t>(data_shape[0]),
                      static_cast<ind_t>(data_shape[1])}};
       shape_t stride{{shape[1], 1}};
-      return Array2<T>(data, static_cast<ind_t>(num), true, shape, stride);
+      return Array2<T>(data.release(), static_cast<ind_t>(num), true, shape, stride);
     }
     if (type == HighFive::ObjectType::Group){
       ind_t no{0};
diff --git a/src/basis.hpp b/src/basis.hpp
index ad12958..3e04dd0 100644
--- a/src/basis.hpp
+++ b/src/basis.hpp
@@ -292,15 +292,13 @@ public:
           }
           // or can we only read a std::vector<std::vector>?
           auto tot = pos.getElementCount();
-          auto *pos_data = new double[tot]();
-          pos.read(pos_data);
+          std::vector<double> pos_data(tot); // reading can throw
+          pos.read(pos_data.data());
           for (size_t i = 0; i < tot; i += 3u) {
             std::array<double, 3> x{
                 {pos_data[i], pos_data[i + 1], pos_data[i + 2]}};
             p.push_back(x);
           }
-          delete[] pos_data;
-
           group.getDataSet("types").read(t);
         }
         return {p,t};
-- 
2.43.0


From 16625e5939977fa78e6a384b2801153d926f8479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:03 +0000
Subject: [PATCH 17/39] fix: make room for an appended vertex beside a single
 one

---
 src/vertex_map_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vertex_map_set.h b/src/vertex_map_set.h
index 05808c9..9388091 100644
--- a/src/vertex_map_set.h
+++ b/src/vertex_map_set.h
@@ -229,7 +229,7 @@ private:
   }
 
   rel_t insert(const A<T>& vertex){
-    if (appended_.size(0) < appended_count_ + 1u) appended_.resize(2 * appended_count_);
+    if (appended_.size(0) < appended_count_ + 1u) appended_.resize(2 * appended_count_ + 1u);
     appended_.set(appended_count_, vertex);
     //return pristine_count() + appended_count_++;
     return std::make_pair(MapVertexType::Appended, appended_count_++);
-- 
2.43.0


From c6b69f345355bb616217790948c02368888772dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:11 +0000
Subject: [PATCH 18/39] fix: time with a clock which is never set back

---
 src/debug.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debug.hpp b/src/debug.hpp
index 24311e8..a199f3f 100644
--- a/src/debug.hpp
+++ b/src/debug.hpp
@@ -413,7 +413,7 @@ computed average.
 */
 template<typename TimeT = std::chrono::milliseconds>
 class Stopwatch{
-  typedef std::chrono::high_resolution_clock ClockT;
+  typedef std::chrono::steady_clock ClockT; // never set back, unlike the clock of the system
 private:
     std::chrono::time_point<ClockT> _start, _end, _split;
     size_t presses;
-- 
2.43.0


From 71985800e6344d087ed420cf470f16ad7d834e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:13 +0000
Subject: [PATCH 19/39] fix: give every tetgen mesh a random sequence of its
 own

---
 lib/tetgen/tetgen.cxx | 26 +++++++++++++-------------
 lib/tetgen/tetgen.h   |  2 ++
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/lib/tetgen/tetgen.cxx b/lib/tetgen/tetgen.cxx
index 839e7c0..ffb266a 100644
--- a/lib/tetgen/tetgen.cxx
+++ b/lib/tetgen/tetgen.cxx
@@ -10740,7 +10740,7 @@ void tetgenmesh::transfernodes()
 //  exactinit(b->verbose);
 
   // Use the number of points as the random seed.
-  srand(in->numberofpoints);
+  randomengine.seed(in->numberofpoints);
 
   // 'longest' is the largest possible edge length formed by input vertices.
   longest = sqrt(x * x + y * y + z * z);
@@ -11220,7 +11220,7 @@ enum tetgenmesh::locateresult
     
     // We enter from one of serarchtet's faces, which face do we exit?
     // Randomly choose one of three faces (containig  toppo) of this tet.
-    s = rand() % 3; // s \in \{0,1,2\}
+    s = static_cast<int>(randomengine()) % 3; // s \in \{0,1,2\}
     for (i = 0; i < s; i++) enextself(*searchtet);
 
     oriorg = orient3d(dest(*searchtet), apex(*searchtet), toppo, searchpt, use_inexact, use_filter, o3d_filter);
@@ -11713,7 +11713,7 @@ int  tetgenmesh::insert_vertex_bw(point insertpt, triface *searchtet,
 
     // Set a handle for speeding point location.
     // Randomly pick a new tet.
-    i = rand() % f_out;
+    i = static_cast<int>(randomengine()) % f_out;
     recenttet = * (triface *) fastlookup(cavebdrylist, i);    
     setpoint2tet(insertpt, (tetrahedron) (recenttet.tet));
 
@@ -11797,7 +11797,7 @@ int  tetgenmesh::insert_vertex_bw(point insertpt, triface *searchtet,
     // Set a handle for speeding point location.
     //recenttet = newtet;
     //setpoint2tet(insertpt, (tetrahedron) (newtet.tet));
-    i = rand() % f_out;
+    i = static_cast<int>(randomengine()) % f_out;
     recenttet = * (triface *) fastlookup(cavebdrylist, i);
     // This is still an oldtet.
     fsymself(recenttet);
@@ -11974,9 +11974,9 @@ void tetgenmesh::incrementaldelaunay(clock_t& tv)
     if (b->verbose) {
       printf("  Permuting vertices.\n"); 
     }
-    srand(in->numberofpoints);
+    randomengine.seed(in->numberofpoints);
     for (i = 0; i < in->numberofpoints; i++) {
-      randindex = rand() % (i + 1); // randomnation(i + 1);
+      randindex = static_cast<int>(randomengine()) % (i + 1); // randomnation(i + 1);
       permutarray[i] = permutarray[randindex];
       permutarray[randindex] = (point) points->traverse();
     }
@@ -19264,7 +19264,7 @@ int tetgenmesh::add_steinerpt_in_schoenhardtpoly(triface *abtets, int n,
 
   if (splitsliverflag) {
     // randomly pick a tet.
-    int idx = rand() % n;
+    int idx = static_cast<int>(randomengine()) % n;
 
     // Calulcate the barycenter of this tet.
     point pa = org(abtets[idx]);
@@ -25358,9 +25358,9 @@ void tetgenmesh::insertconstrainedpoints(point *insertarray, int arylen,
     }
     point swappoint;
     int randindex;
-    srand(arylen);
+    randomengine.seed(arylen);
     for (i = 0; i < arylen; i++) {
-      randindex = rand() % (i + 1); 
+      randindex = static_cast<int>(randomengine()) % (i + 1); 
       swappoint = insertarray[i];
       insertarray[i] = insertarray[randindex];
       insertarray[randindex] = swappoint;
@@ -25674,9 +25674,9 @@ void tetgenmesh::collectremovepoints(arraypool *remptlist)
       // Sort the list of points randomly.
       point *parypt_i, swappt;
       int randindex, i;
-      srand(intptlist->objects);
+      randomengine.seed(intptlist->objects);
       for (i = 0; i < intptlist->objects; i++) {
-        randindex = rand() % (i + 1); // randomnation(i + 1);
+        randindex = static_cast<int>(randomengine()) % (i + 1); // randomnation(i + 1);
         parypt_i = (point *) fastlookup(intptlist, i); 
         parypt = (point *) fastlookup(intptlist, randindex);
         // Swap this two points.
@@ -27597,7 +27597,7 @@ tetgenmesh::locate_on_surface(point searchpt, face* searchsh)
         enextself(searchtet);
       } else if (ori2 < 0) {
         // Randomly choose one.
-        if (rand() % 2) { // flipping a coin.
+        if (static_cast<int>(randomengine()) % 2) { // flipping a coin.
           //E.ver = _enext_tbl[E.ver];
           enextself(searchtet);
         } else {
@@ -29022,7 +29022,7 @@ void tetgenmesh::repairbadtets(REAL queratio, int chkencflag)
 
 
     // Randomly select a tet to split.
-    i = rand() % check_tets_list->objects;
+    i = static_cast<int>(randomengine()) % check_tets_list->objects;
     quetet = (triface *) fastlookup(check_tets_list, i);
     checktet = *quetet;
     
diff --git a/lib/tetgen/tetgen.h b/lib/tetgen/tetgen.h
index 6dce051..63a7ec3 100644
--- a/lib/tetgen/tetgen.h
+++ b/lib/tetgen/tetgen.h
@@ -84,6 +84,7 @@
 //   They are defined in <stdint.h> by the C99 Standard.
 
 #include <stdint.h>
+#include <random>
 
 //============================================================================//
 //                                                                            //
@@ -1458,6 +1459,7 @@ public:
   int useinsertradius;       // Save the insertion radius for Steiner points.
   long samples;               // Number of random samples for point location.
   unsigned long randomseed;                    // Current random number seed.
+  std::minstd_rand randomengine;   // Used in place of rand(), which is shared.
   REAL cosmaxdihed, cosmindihed;    // The cosine values of max/min dihedral.
   REAL cossmtdihed;     // The cosine value of a bad dihedral to be smoothed.
   REAL cosslidihed;      // The cosine value of the max dihedral of a sliver.
-- 
2.43.0


From f95b6585735df65246a820586bd205ed9d2ce26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:46 +0000
Subject: [PATCH 20/39] fix: use the size of the terminal and print at least
 one element per line

---
 src/debug.cpp |  8 ++++----
 src/debug.hpp | 29 ++++++++++++++---------------
 2 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/debug.cpp b/src/debug.cpp
index 2afac5a..f23850e 100644
--- a/src/debug.cpp
+++ b/src/debug.cpp
@@ -43,13 +43,13 @@ using namespace brille;
   #include <unistd.h>
   int brille::terminal_width(){
     struct winsize w{};
-    auto val = ioctl(STDOUT_FILENO, TIOCGWINSZ, &w);
-    return val > 0 && w.ws_col > 0 ? w.ws_col : std::numeric_limits<int>::max();
+    auto val = ioctl(STDOUT_FILENO, TIOCGWINSZ, &w); // zero if successful
+    return val == 0 && w.ws_col > 0 ? w.ws_col : std::numeric_limits<int>::max();
   }
   int brille::terminal_height(){
     struct winsize w{};
-    auto val = ioctl(STDOUT_FILENO, TIOCGWINSZ, &w);
-    return val > 0 && w.ws_row > 0 ? w.ws_row : std::numeric_limits<int>::max();
+    auto val = ioctl(STDOUT_FILENO, TIOCGWINSZ, &w); // zero if successful
+    return val == 0 && w.ws_row > 0 ? w.ws_row : std::numeric_limits<int>::max();
   }
 #endif
 
diff --git a/src/debug.hpp b/src/debug.hpp
index a199f3f..e46e127 100644
--- a/src/debug.hpp
+++ b/src/debug.hpp
@@ -311,6 +311,13 @@ private:
     for (size_t i=0; i<_before; ++i) buffer << " ";
     return buffer.str();
   }
+  //! The number of elements with the given length which fit on one line, at least one
+  [[nodiscard]] size_t per_line(const size_t l) const {
+    auto w = static_cast<size_t>(terminal_width());
+    if (_before < w) w -= _before;
+    w /= l + 1;
+    return w ? w : 1u;
+  }
   template<typename... L>
   void inner_print(const std::string& x, L... l){
     std::cout << x;
@@ -330,10 +337,8 @@ private:
   enable_if_t<!is_container<T>::value, void> inner_print(const std::vector<T>& x, L... args){
     size_t l = max_element_length(x);
     // size_t n = std::sqrt(x.size());
-    int w = terminal_width();
-    if (static_cast<int>(_before) < w) w -= static_cast<int>(_before);
-    if (l) w /= static_cast<int>(l)+1;
-    int count = 0;
+    size_t w = this->per_line(l);
+    size_t count = 0;
     std::ostringstream s;
     bool o{false};
     for (const auto & y: x){
@@ -344,9 +349,7 @@ private:
   template<typename T, size_t N, typename... L>
   enable_if_t<!is_container<T>::value, void> inner_print(const std::array<T,N>& x, L... args){
     size_t l= max_element_length(x);
-    auto w = static_cast<size_t>(terminal_width());
-    if (_before < w) w -= _before;
-    if (l) w /= l+1;
+    size_t w = this->per_line(l);
     size_t count = 0;
     std::ostringstream s;
     bool o{false};
@@ -358,11 +361,9 @@ private:
   template<typename T, typename... L>
   void inner_print(const std::vector<std::vector<T>>& vv, L... args){
     size_t l = max_element_length(vv);
-    auto w = static_cast<size_t>(terminal_width());
-    if (_before < w) w -= _before;
-    size_t num;
+    size_t w = this->per_line(l);
+    size_t num{0};
     std::string s;
-    if (l) w /= l+1;
     s += "[";
     ++_before;
     for (size_t i=0; i < vv.size(); ++i){
@@ -384,11 +385,9 @@ private:
   template<typename T, size_t N, typename... L>
   enable_if_t<!is_container<T>::value, void> inner_print(const std::vector<std::array<T,N>>& x, L... args){
     size_t l = max_element_length(x);
-    auto w = static_cast<size_t>(terminal_width());
-    if (_before < w) w -= _before;
-    size_t num;
+    size_t w = this->per_line(l);
+    size_t num{0};
     std::string s;
-    if (l) w /= l+1;
     for (size_t i=0; i<x.size(); num=0, ++i){
       for (auto y: x[i]){
         s += my_to_string(y, l) + ",";
-- 
2.43.0


From 7178796458f29817a96edd1574c6a0ad66734043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:46 +0000
Subject: [PATCH 21/39] fix: keep the lead-in spacing of messages when printing
 one throws

---
 src/debug.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/debug.hpp b/src/debug.hpp
index e46e127..80f8410 100644
--- a/src/debug.hpp
+++ b/src/debug.hpp
@@ -278,7 +278,8 @@ public:
   template<typename... L> void print(const std::string& fnc, L... l){
     std::lock_guard<std::recursive_mutex> guard(_mutex);
     if (!_silenced){
-      size_t torem{0};
+      // the lead-in spacing is restored also if printing throws
+      struct Restore { size_t & now; size_t was; ~Restore() {now = was;} } restore{_before, _before};
       if (last_function.compare(fnc)){
         last_function = fnc;
         std::cout << std::endl << fnc << std::endl;
@@ -292,10 +293,9 @@ public:
         // std::string tstr = buffer.str();
         std::string tstr = time_to_string(std::chrono::system_clock::now());
         this->inner_print(tstr); // print without extra lead in spaces
-        _before += (torem = tstr.size()); // add to lead in spacing
+        _before += tstr.size(); // add to lead in spacing
       }
       this->inner_print(l...);
-      _before -= torem;
     }
   }
   template<typename... L> void println(const std::string& fnc, L... l){
-- 
2.43.0


From 1ade05911734a484dbaf4bd38e6be527ac0b5743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:09 +0000
Subject: [PATCH 22/39] fix: groups generated from any list of generators are
 complete

---
 src/pointsymmetry.cpp | 6 ++++++
 src/symmetry.cpp      | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/pointsymmetry.cpp b/src/pointsymmetry.cpp
index fb4c0f3..d68ae34 100644
--- a/src/pointsymmetry.cpp
+++ b/src/pointsymmetry.cpp
@@ -314,6 +314,12 @@ PointSymmetry PointSymmetry::generate() const {
       }
     }
   }
+  // one pass over the generators need not find every product of them
+  const size_t most{48}; // the largest finite group, generators which are not crystallographic have no end
+  for (size_t j=0; j<gen.size() && gen.size()<most; ++j) for (size_t i=0; i<this->size(); ++i){
+    brille::utils::multiply_matrix_matrix(y.data(), this->data(i), gen.data(j));
+    if (!gen.has(y)) gen.add(y);
+  }
   return gen;
 }
 PointSymmetry PointSymmetry::generators() const {
diff --git a/src/symmetry.cpp b/src/symmetry.cpp
index 8eb1aaf..255eaf9 100644
--- a/src/symmetry.cpp
+++ b/src/symmetry.cpp
@@ -142,6 +142,12 @@ Symmetry Symmetry::generate() const {
       }
     }
   }
+  // one pass over the generators need not find every product of them
+  const size_t most{3072}; // more than any finite group needs, generators which are not crystallographic have no end
+  for (size_t j=0; j<gen.size() && gen.size()<most; ++j) for (size_t i=0; i<this->size(); ++i){
+    auto y = getm(i) * gen.getm(j);
+    if (!gen.has(y)) gen.add(y);
+  }
   return gen;
 }
 Symmetry Symmetry::generators() const{
-- 
2.43.0


From 198224e09294a04fd405cbb2513506b66579a0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:09 +0000
Subject: [PATCH 23/39] fix: an International Table name with its choice is not
 mistaken for a Hall symbol

---
 src/spg_database.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spg_database.cpp b/src/spg_database.cpp
index a158e4f..17c1e29 100644
--- a/src/spg_database.cpp
+++ b/src/spg_database.cpp
@@ -644,7 +644,9 @@ int brille::hall_symbol_to_hall_number(const std::string& hsymbol){
 // When we don't know if we're searching for a Hall Symbol or
 // International Table Name/Symbol search for either, starting with Hall symbols
 int brille::string_to_hall_number(const std::string& str, const std::string& ch){
-  int tmp = brille::hall_symbol_to_hall_number(str);
+  // a choice belongs to an International Table name, and 'R 3' is the name of two settings and the Hall symbol of one
+  int tmp = ch.empty() ? 0 : brille::international_string_to_hall_number(str, ch);
+  if (!tmp) tmp = brille::hall_symbol_to_hall_number(str);
   if (!tmp) tmp = brille::international_string_to_hall_number(str, ch);
   return tmp;
 }
-- 
2.43.0


From 4871935a769caa49026aa7d1c3d4f620b69238a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:07 +0000
Subject: [PATCH 24/39] fix: spaces around the signs of 'x,y,z' operations do
 not change them

---
 src/motion.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/motion.hpp b/src/motion.hpp
index 8c47988..ebccbf8 100644
--- a/src/motion.hpp
+++ b/src/motion.hpp
@@ -226,7 +226,8 @@ operations.
                         hasdigit |= digits.find(char(stream.peek()))!=std::string::npos;
                         hasslash |= '/'==stream.peek();
                         haspoint |= '.'==stream.peek();
-                        tmp << char(stream.get()); // without char() the output of stream.get() is interpreted as an integer (under MSVC, at least)
+                        char next = char(stream.get());
+                        if (special || ' ' != next) tmp << next; // without char() the output of stream.get() is interpreted as an integer (under MSVC, at least)
                     }
                     // Make sure the end-of-motion character is next even if we're at the end of the string
                     if (!stream.good()) stream.putback(special ? ' ' : ';');
-- 
2.43.0


From 2769380cd5951b0c8de3b6239a521666d1d2085f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:07 +0000
Subject: [PATCH 25/39] fix: running out of memory while reading operations is
 reported, not read as other operations

---
 src/hall_symbol.cpp | 1 +
 src/motion.hpp      | 1 +
 src/symmetry.cpp    | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/hall_symbol.cpp b/src/hall_symbol.cpp
index 1dccc68..f64a1b9 100644
--- a/src/hall_symbol.cpp
+++ b/src/hall_symbol.cpp
@@ -30,6 +30,7 @@ bool HallSymbol::from_ascii(const std::string& s){
   bool isneg = false, issup = false, issub = false;
   SeitzSymbol ssym;
   std::istringstream stream(s);
+  stream.exceptions(std::ios::badbit); // failed allocations are not hidden
   while (stream.good()){
     c = char(stream.get());
     // if c is one of the Lattice symbols:
diff --git a/src/motion.hpp b/src/motion.hpp
index ebccbf8..e02d11f 100644
--- a/src/motion.hpp
+++ b/src/motion.hpp
@@ -220,6 +220,7 @@ operations.
                 default: // not ;,xyz
                     debug_update_if(special, "which is not one of ';,xyz ' so search until one of '",nosearch,"' is found next");
                     std::stringstream tmp;
+                    tmp.exceptions(std::ios::badbit); // failed allocations are not hidden
                     tmp << c; // if a number, tmp might be the sign.
                     bool haspoint{false}, hasslash{false}, hasdigit{digits.find(c)!=std::string::npos};
                     while (nosearch.find(char(stream.peek()))==std::string::npos && stream.good()){
diff --git a/src/symmetry.cpp b/src/symmetry.cpp
index 255eaf9..03924da 100644
--- a/src/symmetry.cpp
+++ b/src/symmetry.cpp
@@ -63,6 +63,7 @@ bool Symmetry::from_ascii(const std::string& s){
   // split the string on ';' character(s) which denote individual motions
   std::vector<std::string> motions;
   std::istringstream stream(s);
+  stream.exceptions(std::ios::badbit); // failed allocations are not hidden
   for (std::string m; std::getline(stream, m, ';'); ) motions.push_back(m);
   this->M.resize(motions.size());
   for (size_t i=0; i<motions.size(); ++i) this->M[i].from_ascii(motions[i]);
-- 
2.43.0


From eb88fc02fb389b9d93be5b588cbe307a21dac21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:19 +0000
Subject: [PATCH 26/39] fix: points are moved into the conventional zone of a
 centred lattice

---
 src/bz_move.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/bz_move.cpp b/src/bz_move.cpp
index 7210573..607b604 100644
--- a/src/bz_move.cpp
+++ b/src/bz_move.cpp
@@ -108,7 +108,7 @@ bool BrillouinZone::moveinto(const LVec<double>& Q, LVec<double>& q, LVec<int>&
   LVec<double> qprim(q.type(), _inner);
   LVec<int> tauprim(tau.type(), _inner);
   PrimitiveTransform PT(_outer.bravais());
-  bool transform_needed = PT.does_anything() && _outer.is_same(Q.lattice());
+  bool transform_needed = is_primitive && PT.does_anything() && _outer.is_same(Q.lattice());
   if (!(already_same || transform_needed)){
     std::string msg = "Q points provided to BrillouinZone::moveinto must be ";
     msg += "in the standard or primitive lattice used to define ";
@@ -121,9 +121,10 @@ bool BrillouinZone::moveinto(const LVec<double>& Q, LVec<double>& q, LVec<int>&
 //  auto & tausl = transform_needed? tauprim : tau;
 
   auto [a, b, c] = _first.planes();
-  auto pa = parallel_transform_to_primitive(_outer, a, threads);
-  auto pb = parallel_transform_to_primitive(_outer, b, threads);
-  auto pc = parallel_transform_to_primitive(_outer, c, threads);
+  // the zone of a centred lattice can be that of its conventional lattice
+  auto pa = is_primitive ? parallel_transform_to_primitive(_outer, a, threads) : a;
+  auto pb = is_primitive ? parallel_transform_to_primitive(_outer, b, threads) : b;
+  auto pc = is_primitive ? parallel_transform_to_primitive(_outer, c, threads) : c;
 
 //  // more than one thread == slow??
 //  this->_moveinto_prim(Qsl, qsl, tausl, pa, pb, pc, threads);
-- 
2.43.0


From 34df317e62745b987eeebb391911904b2d64354f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:03 +0000
Subject: [PATCH 27/39] fix: compare faces of different length without reading
 past the shorter one

---
 src/polyhedron_flex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polyhedron_flex.hpp b/src/polyhedron_flex.hpp
index c0dbfb5..ca2f424 100644
--- a/src/polyhedron_flex.hpp
+++ b/src/polyhedron_flex.hpp
@@ -121,7 +121,7 @@ namespace brille::polyhedron{
           //        // e.g., [0, 1, 2] == [0, 1, 2] || [1, 2, 3] || [2, 3, 0] || [3, 0, 1] for 4-point duplicate check
           //        // or    [0, 2, 1] == [0, 1, 2] || [1, 2, 3] || [2, 3, 0] || [3, 0, 1] for 4-point opposites check
           //      }
-          if (c > 2 && std::is_permutation(a.begin(), a.end(), b.begin())){
+          if (c > 2 && std::is_permutation(a.begin(), a.end(), b.begin(), b.end())){
             // either these faces point in opposite directions and should be removed
             // or in the same direction and only one should be removed(?);
             needed[i] = is_positive_permutation(a, b); // keep the first face *if* they point the same way
-- 
2.43.0


From 3801566d0c4db764639d2d80a2c294d3c48afcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:23 +0000
Subject: [PATCH 28/39] fix: faces of the irreducible zone on the first zone do
 not bound its wedge

---
 src/bz.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/bz.cpp b/src/bz.cpp
index 9895b38..65cc551 100644
--- a/src/bz.cpp
+++ b/src/bz.cpp
@@ -26,8 +26,7 @@ LVec<double> BrillouinZone::get_ir_polyhedron_wedge_normals() const {
   auto bz_p = this->get_points();
   for (ind_t i=0; i<bz_n.size(0); ++i){
     // check if the irBZ face point is on a first BZ zone face too
-    // FIXME Add tolerance here
-    auto not_bz = dot(bz_n.view(i), ir_p - bz_p.view(i)).is(brille::cmp::neq, 0.);
+    auto not_bz = dot(bz_n.view(i), ir_p - bz_p.view(i)).is(brille::cmp::neq, 0., float_tolerance, approx_tolerance);
     if (!not_bz.any())
       throw std::runtime_error("Why are all of the points on the first BZ surface?!");
     ir_n = ir_n.extract(not_bz);
@@ -42,8 +41,7 @@ LVec<double> BrillouinZone::get_ir_polyhedron_wedge_normals() const {
     std::vector<bool> no_inverse(ir_n.size(0), true), keep(ir_n.size(0), true);
     for (ind_t i=0; i<ir_n.size(0)-1; ++i) if (no_inverse[i])
     for (ind_t j=i+1; j<ir_n.size(0); ++j) if (no_inverse[j])
-    if ((ir_n.view(i)+ir_n.view(j)).all(brille::cmp::eq, 0.)) {
-      // FIXME Consider adding tolerance                             ^^^
+    if ((ir_n.view(i)+ir_n.view(j)).all(brille::cmp::eq, 0., float_tolerance, approx_tolerance)) {
       no_inverse[i] = no_inverse[j] = keep[j] = false;
       break;
     }
-- 
2.43.0


From 169a9c483e4608639296eb68984f3e266eae420f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:48 +0000
Subject: [PATCH 29/39] fix: repeated primes of a Hall symbol are the axes they
 stand for

---
 src/hall_symbol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hall_symbol.cpp b/src/hall_symbol.cpp
index f64a1b9..e74dacf 100644
--- a/src/hall_symbol.cpp
+++ b/src/hall_symbol.cpp
@@ -106,7 +106,7 @@ bool HallSymbol::from_ascii(const std::string& s){
 bool HallSymbol::validate(){
   // verify that everything went ok
   bool ok = brille::bravais_is_known(this->L);
-  for (auto ss: this->symbols) ok &= ss.validate();
+  for (auto & ss: this->symbols) ok &= ss.validate();
   // further validation could be possible by finding the full spacegroup
   return ok;
 }
-- 
2.43.0


From 9f77150aa3d96c47b1bbda229e9436aa6548ed12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:43 +0000
Subject: [PATCH 30/39] fix: rounding of a corner in the plane of a face does
 not lose the face

---
 src/geometry.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geometry.hpp b/src/geometry.hpp
index 812a614..46393bd 100644
--- a/src/geometry.hpp
+++ b/src/geometry.hpp
@@ -667,6 +667,8 @@ namespace brille {
         if (r == i || r == j || r == k) continue;
         auto d = pseudo_orient3d(points.view(i), points.view(j), points.view(k), points.view(r))[0];
 //        auto d = orient3d(points.ptr(i), points.ptr(j), points.ptr(k), points.ptr(r));
+        // a fourth corner of a face is only within rounding of the plane of three others, on either side of it
+        if (approx_float::scalar(d, T(0), Ttol, Ttol, tol)) continue;
         positive &= d >= 0;
         negative &= d <= 0;
       }
-- 
2.43.0


From aee86a50a0bd5098f7acb9a8fd79f0643c00fb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:40 +0000
Subject: [PATCH 31/39] fix: the orientation of given basis vectors is a
 rotation of the standard one

Angles from arctangents of ratios are only known modulo pi, so that snapping
rounded basis vectors to the symmetry turned two of them over for half of all
orientations.
---
 src/lattice_dual.hpp | 37 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/src/lattice_dual.hpp b/src/lattice_dual.hpp
index acceaf6..0a2e3cf 100644
--- a/src/lattice_dual.hpp
+++ b/src/lattice_dual.hpp
@@ -25,28 +25,21 @@ standard_orientation_matrix(const std::array<T, 9>& bv){
    *   Find the rotation matrix which takes us to the standard upper triangular
    *   form with flattened matrix {a, bx, cx, 0, by, cy, 0, 0, cz}
    * */
-	// Avoid (0, -1) -> pi in std::atan2:
-	auto arctan = [](T x, T y){return std::abs(x) ? std::atan2(x, y) : 0.;};
-  // tan(mu) = -ay / az
-  S mu = arctan(-bv[3], bv[6]);
-  auto [c_mu, s_mu] = math::cos_and_sin(mu);
-
-  // tan(nu) = -az / (ax * cos(mu))
-  S nu = arctan(-bv[6], bv[0] * c_mu);
-  auto [c_nu, s_nu] = math::cos_and_sin(nu);
-
-  // tan(xi) = (bx sin(nu) - by cos(nu) sin(mu) + bz cos(nu) cos(mu)) / (by cos(mu) + bz sin(mu))
-  S num = bv[1] * s_nu - bv[4] * c_nu * s_mu + bv[7] * c_nu * c_mu;
-  S den = bv[4] * c_mu + bv[7] * s_mu;
-  S xi = arctan(num, den);
-  auto [c_xi, s_xi] = math::cos_and_sin(xi);
-
-  // Rotation matrix, verified 'by hand' multiple times.
-  std::array<S,9> rotation_matrix{
-      {c_nu,                              s_nu * s_mu,                      -s_nu * c_mu,
-       s_xi * s_nu,  c_xi * c_mu - s_xi * c_nu * s_mu,  c_xi * s_mu + s_xi * c_nu * c_mu,
-       c_xi * s_nu, -s_xi * c_mu - c_xi * c_nu * s_mu, -s_xi * s_mu + c_xi * c_nu * c_mu}
-  };
+  // The rows are the directions of a, of the part of b perpendicular to a, and
+  // of the part of c perpendicular to both -- so that the matrix is a proper
+  // rotation if the basis vectors are right handed.
+  auto dot = [](const std::array<S,3>& x, const std::array<S,3>& y){return x[0]*y[0] + x[1]*y[1] + x[2]*y[2];};
+  std::array<S,9> rotation_matrix;
+  std::array<std::array<S,3>,3> e;
+  for (size_t i=0; i<3u; ++i){
+    e[i] = {bv[i], bv[i+3u], bv[i+6u]};
+    for (size_t j=0; j<i; ++j){
+      auto along = dot(e[i], e[j]);
+      for (size_t k=0; k<3u; ++k) e[i][k] -= along * e[j][k];
+    }
+    auto length = std::sqrt(dot(e[i], e[i]));
+    for (size_t k=0; k<3u; ++k) rotation_matrix[3u*i + k] = e[i][k] /= length;
+  }
   return rotation_matrix;
 }
 
-- 
2.43.0


From c9805165ffed86cfe95eedae094de7a32a50833c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:40 +0000
Subject: [PATCH 32/39] fix: basis vectors are snapped to the metric which all
 operations keep

An operation may take a basis vector to the opposite of another, and vectors
of equal length need not enclose equal angles, so averaging linked lengths and
cosines changed exact cells (primitive cells of I and F lattices), and other
cells of that kind were refused.
---
 src/lattice_dual.hpp | 103 ++++++++++++++++---------------------------
 1 file changed, 38 insertions(+), 65 deletions(-)

diff --git a/src/lattice_dual.hpp b/src/lattice_dual.hpp
index 0a2e3cf..2fd8d1e 100644
--- a/src/lattice_dual.hpp
+++ b/src/lattice_dual.hpp
@@ -301,78 +301,51 @@ private:
     }
   }
   bool snap_to_symmetry(bool is_real, std::array<T, 3>& v, std::array<T, 3>& c, std::array<T, 3>& s){
-    /* Averaging is likely to reduce precision, so only do so if necessary */
-    auto equal2 = [](const T x, const T y){ return (x == y) ? x : (x + y) / T(2); };
-    auto equal3 = [](const T x, const T y, const T z){ return (x == y && y == z) ? x : (x + y + z) / T(3); };
-    // check if centring can give us a hint:
-    /* If the Lattice has spacegroup operations with centering is it *not*
-     * primitive. If the centering indicates that it is Rhombohedral then
-     * it is actually the Hexagonal setting of a rhombohedral lattice, so
-     * two angles must be 90 degrees and the third 120 degrees.
-     * If it is A,B,C Face centred, I Body centred, F face centred, then
-     * the symmetry-constrained angles *must* be 90 degrees.
-     * */
-    // don't use the stored Bravais value in case of user error?
-    bool centring_hint{_space.getcentring() != Bravais::P};
-    bool second_hint{centring_hint && _space.getcentring() != Bravais::R};
     // determine if basis vectors are connected by symmetry operations
     std::vector<std::array<int,3>> eis {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
-    // (a-b, b-c, c-a), (a*-b*, b*-c*, c*-a*)
-    bool main[3]{false, false, false}, dual[3]{false, false, false};
+    // (a-b, b-c, c-a)
+    bool linked{false};
     for (size_t i=0; i<3u; ++i){
       const auto j{(i+1)%3u};
-      // Real lattice vectors rotate like v' = R v
-      main[i] = _point.mat_vec_links(eis[i], eis[j]);
-      // Reciprocal lattice vectors rotate like q' = tr(R) q = tr(tr(q) R)
-      dual[i] = _point.vec_mat_links(eis[i], eis[j]);
+      // Real lattice vectors rotate like v' = R v, reciprocal lattice vectors
+      // rotate like q' = tr(R) q = tr(tr(q) R)
+      if (is_real ? _point.mat_vec_links(eis[i], eis[j]) : _point.vec_mat_links(eis[i], eis[j])) linked = true;
     }
-    // if we're dealing with Reciprocal lattice parameters, then main and dual
-    // need to be swapped!
-    if (!is_real) std::swap(main, dual);
-    // stash the original lengths and cosines to check for changes
-    std::array<T,3> orig_v{v}, orig_cos{c};
-    if (main[0] && main[1]) {
-      /* All 'main' basis vectors are mapped to each other; so they must all  *
-       * have the same length:                                                */
-      v[0] = v[1] = v[2] = equal3(v[0], v[1], v[2]);
-      if (dual[0] && dual[1]) {
-        /* All 'dual' basis vectors are mapped, so the 'main' basis vector    *
-         * angles must be the same as well. If the lattice is centred then
-         * they all must be exactly 90 degrees, so the cos(angle)=0.0; !      */
-        c[0] = c[1] = c[2] = centring_hint ? T(0) : equal3(c[0], c[1], c[2]);
-        s[0] = s[1] = s[2] = centring_hint ? T(1) : std::sqrt(1 - c[0] * c[0]);
-      } else for (size_t i=0; i<3u; ++i) if (dual[i]) {
-        const auto j{(i + 1) % 3u};
-        c[i] = c[j] = second_hint ? T(0) : equal2(c[i], c[j]);
-        s[i] = s[j] = second_hint ? T(1) : std::sqrt(1 - c[i] * c[i]);
-      }
-    } else for (size_t i=0; i<3u; ++i) if (main[i]) {
-      const auto j{(i + 1) % 3u};
-      v[i] = v[j] = equal2(v[i], v[j]);
-      if (dual[0] && dual[1]){
-        throw std::runtime_error("How can more than two dual-vectors be mapped when only two real-vectors are mapped?");
-      }
-      for (size_t k=0; k<3u; ++k) if(k!=i && dual[k]){
-        throw std::runtime_error("How can a dual-vector be mapped if its real-vector is not mapped?");
-      }
-      if (dual[i]) {
-        if (centring_hint && _space.getcentring() == Bravais::R) {
-          const auto k{(i + 2) % 3u};
-          std::tie(c[k], s[k]) = math::cos_and_sin_d(is_real ? T(120) : T(60));
-        }
-        c[i] = c[j] = centring_hint ? T(0) : equal2(c[i], c[j]);
-        s[i] = s[j] = centring_hint ? T(1) : std::sqrt(1 - c[i] * c[i]);
-      }
+    if (!linked) return false;
+    /* The lengths and angles which obey the symmetry are those of the metric
+     * averaged over all operations of the pointgroup: an operation may map a
+     * basis vector onto the opposite of another, or onto a combination of
+     * them, so equal lengths do not imply equal cosines. */
+    std::array<T,9> metric{{
+        v[0] * v[0],        v[0] * v[1] * c[2], v[0] * v[2] * c[1],
+        v[1] * v[0] * c[2], v[1] * v[1],        v[1] * v[2] * c[0],
+        v[2] * v[0] * c[1], v[2] * v[1] * c[0], v[2] * v[2]
+    }};
+    std::array<T,9> sum{{0, 0, 0, 0, 0, 0, 0, 0, 0}};
+    const auto & operations = _point.getall();
+    for (const auto & R: operations){
+      const auto L = is_real ? transpose(R) : R;
+      const auto one = linear_algebra::mul_mat_mat(linear_algebra::mul_mat_mat(L, metric), transpose(L));
+      for (size_t i=0; i<9u; ++i) sum[i] += one[i];
     }
-
+    std::array<T,3> sym_v, sym_cos;
+    for (size_t i=0; i<3u; ++i) sym_v[i] = std::sqrt(sum[4u * i] / static_cast<T>(operations.size()));
+    for (size_t i=0; i<3u; ++i) {
+      const auto j{(i + 1) % 3u}, k{(i + 2) % 3u};
+      sym_cos[i] = sum[3u * j + k] / std::sqrt(sum[4u * j] * sum[4u * k]);
+    }
+    // angles which are not even close do not belong to these operations
+    for (size_t i=0; i<3u; ++i) if (std::abs(sym_cos[i] - c[i]) > T(0.1)) return false;
+    /* Averaging is likely to reduce precision, so only do so if necessary */
     bool changed{false};
-    if (main[0] || main[1] || main[2]){
-      for (size_t i=0; i<3u; ++i) {
-        if (!approx_float::scalar(orig_v[i] - v[i], 0.)) changed = true;
-      }
-      for(size_t i=0; i<3u; ++i){
-        if (!approx_float::scalar(orig_cos[i] - c[i], 0.)) changed = true;
-      }
+    for (size_t i=0; i<3u; ++i) {
+      if (!approx_float::scalar(sym_v[i] - v[i], 0.)) changed = true;
+      if (!approx_float::scalar(sym_cos[i] - c[i], 0.)) changed = true;
+    }
+    if (changed) for (size_t i=0; i<3u; ++i) {
+      v[i] = sym_v[i];
+      c[i] = approx_float::scalar(sym_cos[i], 0.) ? T(0) : sym_cos[i];
+      s[i] = std::sqrt(T(1) - c[i] * c[i]);
     }
     return changed; // signal if we did anything
   }
-- 
2.43.0


From b39aff985e2ae873ad123f84c787190b3ad98a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:04 +0000
Subject: [PATCH 33/39] fix: space group 230 is found by its number

---
 src/spg_database.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spg_database.cpp b/src/spg_database.cpp
index 17c1e29..006ef95 100644
--- a/src/spg_database.cpp
+++ b/src/spg_database.cpp
@@ -612,7 +612,7 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
 bool brille::hall_number_ok(const int h) {return h>0 && h<531;}
 
 int brille::international_number_to_hall_number(const int n, const std::string& c){
-	if (n>=0 && n<230) for (int i=1; i<531; i++){
+	if (n>0 && n<231) for (int i=1; i<531; i++){
 		Spacegroup spg(ALL_SPACEGROUPS[i]);
     if (n==spg.number && (0==c.size() || 0==c.compare(spg.choice))) return i;
 	}
-- 
2.43.0


From 61cceaa4c51915e678da3ba9d995fe8e51ec1a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:04 +0000
Subject: [PATCH 34/39] fix: the centring of B centred settings is not
 primitive in the table

---
 src/spg_database.cpp | 80 ++++++++++++++++++++++----------------------
 1 file changed, 40 insertions(+), 40 deletions(-)

diff --git a/src/spg_database.cpp b/src/spg_database.cpp
index 006ef95..34cf2a8 100644
--- a/src/spg_database.cpp
+++ b/src/spg_database.cpp
@@ -89,9 +89,9 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   {  5, "C2^3"  , "A 2y"            , "C 2 = A 1 2 1"                  , "A 1 2 1"            , "C2"        , "b2"   , Bravais::A,  3,  10},
   {  5, "C2^3"  , "I 2y"            , "C 2 = I 1 2 1"                  , "I 1 2 1"            , "C2"        , "b3"   , Bravais::I,  3,  11},
   {  5, "C2^3"  , "A 2"             , "C 2 = A 1 1 2"                  , "A 1 1 2"            , "C2"        , "c1"   , Bravais::A,  3,  12},
-  {  5, "C2^3"  , "B 2"             , "C 2 = B 1 1 2 = B 2"            , "B 1 1 2"            , "C2"        , "c2"   , Bravais::P,  3,  13},
+  {  5, "C2^3"  , "B 2"             , "C 2 = B 1 1 2 = B 2"            , "B 1 1 2"            , "C2"        , "c2"   , Bravais::B,  3,  13},
   {  5, "C2^3"  , "I 2"             , "C 2 = I 1 1 2"                  , "I 1 1 2"            , "C2"        , "c3"   , Bravais::I,  3,  14},
-  {  5, "C2^3"  , "B 2x"            , "C 2 = B 2 1 1"                  , "B 2 1 1"            , "C2"        , "a1"   , Bravais::P,  3,  15},
+  {  5, "C2^3"  , "B 2x"            , "C 2 = B 2 1 1"                  , "B 2 1 1"            , "C2"        , "a1"   , Bravais::B,  3,  15},
   {  5, "C2^3"  , "C 2x"            , "C 2 = C 2 1 1"                  , "C 2 1 1"            , "C2"        , "a2"   , Bravais::C,  3,  16},
   {  5, "C2^3"  , "I 2x"            , "C 2 = I 2 1 1"                  , "I 2 1 1"            , "C2"        , "a3"   , Bravais::I,  3,  17},
   {  6, "Cs^1"  , "P -2y"           , "P m = P 1 m 1"                  , "P 1 m 1"            , "Pm"        , "b"    , Bravais::P,  4,  18},
@@ -110,9 +110,9 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   {  8, "Cs^3"  , "A -2y"           , "C m = A 1 m 1"                  , "A 1 m 1"            , "Cm"        , "b2"   , Bravais::A,  4,  31},
   {  8, "Cs^3"  , "I -2y"           , "C m = I 1 m 1"                  , "I 1 m 1"            , "Cm"        , "b3"   , Bravais::I,  4,  32},
   {  8, "Cs^3"  , "A -2"            , "C m = A 1 1 m"                  , "A 1 1 m"            , "Cm"        , "c1"   , Bravais::A,  4,  33},
-  {  8, "Cs^3"  , "B -2"            , "C m = B 1 1 m = B m"            , "B 1 1 m"            , "Cm"        , "c2"   , Bravais::P,  4,  34},
+  {  8, "Cs^3"  , "B -2"            , "C m = B 1 1 m = B m"            , "B 1 1 m"            , "Cm"        , "c2"   , Bravais::B,  4,  34},
   {  8, "Cs^3"  , "I -2"            , "C m = I 1 1 m"                  , "I 1 1 m"            , "Cm"        , "c3"   , Bravais::I,  4,  35},
-  {  8, "Cs^3"  , "B -2x"           , "C m = B m 1 1"                  , "B m 1 1"            , "Cm"        , "a1"   , Bravais::P,  4,  36},
+  {  8, "Cs^3"  , "B -2x"           , "C m = B m 1 1"                  , "B m 1 1"            , "Cm"        , "a1"   , Bravais::B,  4,  36},
   {  8, "Cs^3"  , "C -2x"           , "C m = C m 1 1"                  , "C m 1 1"            , "Cm"        , "a2"   , Bravais::C,  4,  37},
   {  8, "Cs^3"  , "I -2x"           , "C m = I m 1 1"                  , "I m 1 1"            , "Cm"        , "a3"   , Bravais::I,  4,  38},
   {  9, "Cs^4"  , "C -2yc"          , "C c = C 1 c 1"                  , "C 1 c 1"            , "Cc"        , "b1"   , Bravais::C,  4,  39},
@@ -122,16 +122,16 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   {  9, "Cs^4"  , "C -2ybc"         , "C c = C 1 n 1"                  , "C 1 n 1"            , "Cc"        , "-b2"  , Bravais::C,  4,  43},
   {  9, "Cs^4"  , "I -2yc"          , "C c = I 1 c 1"                  , "I 1 c 1"            , "Cc"        , "-b3"  , Bravais::I,  4,  44},
   {  9, "Cs^4"  , "A -2a"           , "C c = A 1 1 a"                  , "A 1 1 a"            , "Cc"        , "c1"   , Bravais::A,  4,  45},
-  {  9, "Cs^4"  , "B -2bc"          , "C c = B 1 1 n"                  , "B 1 1 n"            , "Cc"        , "c2"   , Bravais::P,  4,  46},
+  {  9, "Cs^4"  , "B -2bc"          , "C c = B 1 1 n"                  , "B 1 1 n"            , "Cc"        , "c2"   , Bravais::B,  4,  46},
   {  9, "Cs^4"  , "I -2b"           , "C c = I 1 1 b"                  , "I 1 1 b"            , "Cc"        , "c3"   , Bravais::I,  4,  47},
-  {  9, "Cs^4"  , "B -2b"           , "C c = B 1 1 b = B b"            , "B 1 1 b"            , "Cc"        , "-c1"  , Bravais::P,  4,  48},
+  {  9, "Cs^4"  , "B -2b"           , "C c = B 1 1 b = B b"            , "B 1 1 b"            , "Cc"        , "-c1"  , Bravais::B,  4,  48},
   {  9, "Cs^4"  , "A -2ac"          , "C c = A 1 1 n"                  , "A 1 1 n"            , "Cc"        , "-c2"  , Bravais::A,  4,  49},
   {  9, "Cs^4"  , "I -2a"           , "C c = I 1 1 a"                  , "I 1 1 a"            , "Cc"        , "-c3"  , Bravais::I,  4,  50},
-  {  9, "Cs^4"  , "B -2xb"          , "C c = B b 1 1"                  , "B b 1 1"            , "Cc"        , "a1"   , Bravais::P,  4,  51},
+  {  9, "Cs^4"  , "B -2xb"          , "C c = B b 1 1"                  , "B b 1 1"            , "Cc"        , "a1"   , Bravais::B,  4,  51},
   {  9, "Cs^4"  , "C -2xbc"         , "C c = C n 1 1"                  , "C n 1 1"            , "Cc"        , "a2"   , Bravais::C,  4,  52},
   {  9, "Cs^4"  , "I -2xc"          , "C c = I c 1 1"                  , "I c 1 1"            , "Cc"        , "a3"   , Bravais::I,  4,  53},
   {  9, "Cs^4"  , "C -2xc"          , "C c = C c 1 1"                  , "C c 1 1"            , "Cc"        , "-a1"  , Bravais::C,  4,  54},
-  {  9, "Cs^4"  , "B -2xbc"         , "C c = B n 1 1"                  , "B n 1 1"            , "Cc"        , "-a2"  , Bravais::P,  4,  55},
+  {  9, "Cs^4"  , "B -2xbc"         , "C c = B n 1 1"                  , "B n 1 1"            , "Cc"        , "-a2"  , Bravais::B,  4,  55},
   {  9, "Cs^4"  , "I -2xb"          , "C c = I b 1 1"                  , "I b 1 1"            , "Cc"        , "-a3"  , Bravais::I,  4,  56},
   { 10, "C2h^1" , "-P 2y"           , "P 2/m = P 1 2/m 1"              , "P 1 2/m 1"          , "P2/m"      , "b"    , Bravais::P,  5,  57},
   { 10, "C2h^1" , "-P 2"            , "P 2/m = P 1 1 2/m"              , "P 1 1 2/m"          , "P2/m"      , "c"    , Bravais::P,  5,  58},
@@ -143,9 +143,9 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 12, "C2h^3" , "-A 2y"           , "C 2/m = A 1 2/m 1"              , "A 1 2/m 1"          , "C2/m"      , "b2"   , Bravais::A,  5,  64},
   { 12, "C2h^3" , "-I 2y"           , "C 2/m = I 1 2/m 1"              , "I 1 2/m 1"          , "C2/m"      , "b3"   , Bravais::I,  5,  65},
   { 12, "C2h^3" , "-A 2"            , "C 2/m = A 1 1 2/m"              , "A 1 1 2/m"          , "C2/m"      , "c1"   , Bravais::A,  5,  66},
-  { 12, "C2h^3" , "-B 2"            , "C 2/m = B 1 1 2/m = B 2/m"      , "B 1 1 2/m"          , "C2/m"      , "c2"   , Bravais::P,  5,  67},
+  { 12, "C2h^3" , "-B 2"            , "C 2/m = B 1 1 2/m = B 2/m"      , "B 1 1 2/m"          , "C2/m"      , "c2"   , Bravais::B,  5,  67},
   { 12, "C2h^3" , "-I 2"            , "C 2/m = I 1 1 2/m"              , "I 1 1 2/m"          , "C2/m"      , "c3"   , Bravais::I,  5,  68},
-  { 12, "C2h^3" , "-B 2x"           , "C 2/m = B 2/m 1 1"              , "B 2/m 1 1"          , "C2/m"      , "a1"   , Bravais::P,  5,  69},
+  { 12, "C2h^3" , "-B 2x"           , "C 2/m = B 2/m 1 1"              , "B 2/m 1 1"          , "C2/m"      , "a1"   , Bravais::B,  5,  69},
   { 12, "C2h^3" , "-C 2x"           , "C 2/m = C 2/m 1 1"              , "C 2/m 1 1"          , "C2/m"      , "a2"   , Bravais::C,  5,  70},
   { 12, "C2h^3" , "-I 2x"           , "C 2/m = I 2/m 1 1"              , "I 2/m 1 1"          , "C2/m"      , "a3"   , Bravais::I,  5,  71},
   { 13, "C2h^4" , "-P 2yc"          , "P 2/c = P 1 2/c 1"              , "P 1 2/c 1"          , "P2/c"      , "b1"   , Bravais::P,  5,  72},
@@ -173,16 +173,16 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 15, "C2h^6" , "-C 2ybc"         , "C 2/c = C 1 2/n 1"              , "C 1 2/n 1"          , "C2/c"      , "-b2"  , Bravais::C,  5,  94},
   { 15, "C2h^6" , "-I 2yc"          , "C 2/c = I 1 2/c 1"              , "I 1 2/c 1"          , "C2/c"      , "-b3"  , Bravais::I,  5,  95},
   { 15, "C2h^6" , "-A 2a"           , "C 2/c = A 1 1 2/a"              , "A 1 1 2/a"          , "C2/c"      , "c1"   , Bravais::A,  5,  96},
-  { 15, "C2h^6" , "-B 2bc"          , "C 2/c = B 1 1 2/n"              , "B 1 1 2/n"          , "C2/c"      , "c2"   , Bravais::P,  5,  97},
+  { 15, "C2h^6" , "-B 2bc"          , "C 2/c = B 1 1 2/n"              , "B 1 1 2/n"          , "C2/c"      , "c2"   , Bravais::B,  5,  97},
   { 15, "C2h^6" , "-I 2b"           , "C 2/c = I 1 1 2/b"              , "I 1 1 2/b"          , "C2/c"      , "c3"   , Bravais::I,  5,  98},
-  { 15, "C2h^6" , "-B 2b"           , "C 2/c = B 1 1 2/b = B 2/b"      , "B 1 1 2/b"          , "C2/c"      , "-c1"  , Bravais::P,  5,  99},
+  { 15, "C2h^6" , "-B 2b"           , "C 2/c = B 1 1 2/b = B 2/b"      , "B 1 1 2/b"          , "C2/c"      , "-c1"  , Bravais::B,  5,  99},
   { 15, "C2h^6" , "-A 2ac"          , "C 2/c = A 1 1 2/n"              , "A 1 1 2/n"          , "C2/c"      , "-c2"  , Bravais::A,  5, 100},
   { 15, "C2h^6" , "-I 2a"           , "C 2/c = I 1 1 2/a"              , "I 1 1 2/a"          , "C2/c"      , "-c3"  , Bravais::I,  5, 101},
-  { 15, "C2h^6" , "-B 2xb"          , "C 2/c = B 2/b 1 1"              , "B 2/b 1 1"          , "C2/c"      , "a1"   , Bravais::P,  5, 102},
+  { 15, "C2h^6" , "-B 2xb"          , "C 2/c = B 2/b 1 1"              , "B 2/b 1 1"          , "C2/c"      , "a1"   , Bravais::B,  5, 102},
   { 15, "C2h^6" , "-C 2xbc"         , "C 2/c = C 2/n 1 1"              , "C 2/n 1 1"          , "C2/c"      , "a2"   , Bravais::C,  5, 103},
   { 15, "C2h^6" , "-I 2xc"          , "C 2/c = I 2/c 1 1"              , "I 2/c 1 1"          , "C2/c"      , "a3"   , Bravais::I,  5, 104},
   { 15, "C2h^6" , "-C 2xc"          , "C 2/c = C 2/c 1 1"              , "C 2/c 1 1"          , "C2/c"      , "-a1"  , Bravais::C,  5, 105},
-  { 15, "C2h^6" , "-B 2xbc"         , "C 2/c = B 2/n 1 1"              , "B 2/n 1 1"          , "C2/c"      , "-a2"  , Bravais::P,  5, 106},
+  { 15, "C2h^6" , "-B 2xbc"         , "C 2/c = B 2/n 1 1"              , "B 2/n 1 1"          , "C2/c"      , "-a2"  , Bravais::B,  5, 106},
   { 15, "C2h^6" , "-I 2xb"          , "C 2/c = I 2/b 1 1"              , "I 2/b 1 1"          , "C2/c"      , "-a3"  , Bravais::I,  5, 107},
   { 16, "D2^1"  , "P 2 2"           , "P 2 2 2"                        , "P 2 2 2"            , "P222"      , ""     , Bravais::P,  6, 108},
   { 17, "D2^2"  , "P 2c 2"          , "P 2 2 2_1"                      , "P 2 2 2_1"          , "P222_1"    , ""     , Bravais::P,  6, 109},
@@ -194,10 +194,10 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 19, "D2^4"  , "P 2ac 2ab"       , "P 2_1 2_1 2_1"                  , "P 2_1 2_1 2_1"      , "P2_12_12_1", ""     , Bravais::P,  6, 115},
   { 20, "D2^5"  , "C 2c 2"          , "C 2 2 2_1"                      , "C 2 2 2_1"          , "C222_1"    , ""     , Bravais::C,  6, 116},
   { 20, "D2^5"  , "A 2a 2a"         , "A 2_1 2 2"                      , "A 2_1 2 2"          , "A2_122"    , "cab"  , Bravais::A,  6, 117},
-  { 20, "D2^5"  , "B 2 2b"          , "B 2 2_1 2"                      , "B 2 2_1 2"          , "B22_12"    , "bca"  , Bravais::P,  6, 118},
+  { 20, "D2^5"  , "B 2 2b"          , "B 2 2_1 2"                      , "B 2 2_1 2"          , "B22_12"    , "bca"  , Bravais::B,  6, 118},
   { 21, "D2^6"  , "C 2 2"           , "C 2 2 2"                        , "C 2 2 2"            , "C222"      , ""     , Bravais::C,  6, 119},
   { 21, "D2^6"  , "A 2 2"           , "A 2 2 2"                        , "A 2 2 2"            , "A222"      , "cab"  , Bravais::A,  6, 120},
-  { 21, "D2^6"  , "B 2 2"           , "B 2 2 2"                        , "B 2 2 2"            , "B222"      , "bca"  , Bravais::P,  6, 121},
+  { 21, "D2^6"  , "B 2 2"           , "B 2 2 2"                        , "B 2 2 2"            , "B222"      , "bca"  , Bravais::B,  6, 121},
   { 22, "D2^7"  , "F 2 2"           , "F 2 2 2"                        , "F 2 2 2"            , "F222"      , ""     , Bravais::F,  6, 122},
   { 23, "D2^8"  , "I 2 2"           , "I 2 2 2"                        , "I 2 2 2"            , "I222"      , ""     , Bravais::I,  6, 123},
   { 24, "D2^9"  , "I 2b 2c"         , "I 2_1 2_1 2_1"                  , "I 2_1 2_1 2_1"      , "I2_12_12_1", ""     , Bravais::I,  6, 124},
@@ -251,37 +251,37 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 34, "C2v^10", "P -2n -2n"       , "P n 2 n"                        , "P n 2 n"            , "Pn2n"      , "bca"  , Bravais::P,  7, 172},
   { 35, "C2v^11", "C 2 -2"          , "C m m 2"                        , "C m m 2"            , "Cmm2"      , ""     , Bravais::C,  7, 173},
   { 35, "C2v^11", "A -2 2"          , "A 2 m m"                        , "A 2 m m"            , "A2mm"      , "cab"  , Bravais::A,  7, 174},
-  { 35, "C2v^11", "B -2 -2"         , "B m 2 m"                        , "B m 2 m"            , "Bm2m"      , "bca"  , Bravais::P,  7, 175},
+  { 35, "C2v^11", "B -2 -2"         , "B m 2 m"                        , "B m 2 m"            , "Bm2m"      , "bca"  , Bravais::B,  7, 175},
   { 36, "C2v^12", "C 2c -2"         , "C m c 2_1"                      , "C m c 2_1"          , "Cmc2_1"    , ""     , Bravais::C,  7, 176},
   { 36, "C2v^12", "C 2c -2c"        , "C c m 2_1"                      , "C c m 2_1"          , "Ccm2_1"    , "ba-c" , Bravais::C,  7, 177},
   { 36, "C2v^12", "A -2a 2a"        , "A 2_1 m a"                      , "A 2_1 m a"          , "A2_1ma"    , "cab"  , Bravais::A,  7, 178},
   { 36, "C2v^12", "A -2 2a"         , "A 2_1 a m"                      , "A 2_1 a m"          , "A2_1am"    , "-cba" , Bravais::A,  7, 179},
-  { 36, "C2v^12", "B -2 -2b"        , "B b 2_1 m"                      , "B b 2_1 m"          , "Bb2_1m"    , "bca"  , Bravais::P,  7, 180},
-  { 36, "C2v^12", "B -2b -2"        , "B m 2_1 b"                      , "B m 2_1 b"          , "Bm2_1b"    , "a-cb" , Bravais::P,  7, 181},
+  { 36, "C2v^12", "B -2 -2b"        , "B b 2_1 m"                      , "B b 2_1 m"          , "Bb2_1m"    , "bca"  , Bravais::B,  7, 180},
+  { 36, "C2v^12", "B -2b -2"        , "B m 2_1 b"                      , "B m 2_1 b"          , "Bm2_1b"    , "a-cb" , Bravais::B,  7, 181},
   { 37, "C2v^13", "C 2 -2c"         , "C c c 2"                        , "C c c 2"            , "Ccc2"      , ""     , Bravais::C,  7, 182},
   { 37, "C2v^13", "A -2a 2"         , "A 2 a a"                        , "A 2 a a"            , "A2aa"      , "cab"  , Bravais::A,  7, 183},
-  { 37, "C2v^13", "B -2b -2b"       , "B b 2 b"                        , "B b 2 b"            , "Bb2b"      , "bca"  , Bravais::P,  7, 184},
+  { 37, "C2v^13", "B -2b -2b"       , "B b 2 b"                        , "B b 2 b"            , "Bb2b"      , "bca"  , Bravais::B,  7, 184},
   { 38, "C2v^14", "A 2 -2"          , "A m m 2"                        , "A m m 2"            , "Amm2"      , ""     , Bravais::A,  7, 185},
-  { 38, "C2v^14", "B 2 -2"          , "B m m 2"                        , "B m m 2"            , "Bmm2"      , "ba-c" , Bravais::P,  7, 186},
-  { 38, "C2v^14", "B -2 2"          , "B 2 m m"                        , "B 2 m m"            , "B2mm"      , "cab"  , Bravais::P,  7, 187},
+  { 38, "C2v^14", "B 2 -2"          , "B m m 2"                        , "B m m 2"            , "Bmm2"      , "ba-c" , Bravais::B,  7, 186},
+  { 38, "C2v^14", "B -2 2"          , "B 2 m m"                        , "B 2 m m"            , "B2mm"      , "cab"  , Bravais::B,  7, 187},
   { 38, "C2v^14", "C -2 2"          , "C 2 m m"                        , "C 2 m m"            , "C2mm"      , "-cba" , Bravais::C,  7, 188},
   { 38, "C2v^14", "C -2 -2"         , "C m 2 m"                        , "C m 2 m"            , "Cm2m"      , "bca"  , Bravais::C,  7, 189},
   { 38, "C2v^14", "A -2 -2"         , "A m 2 m"                        , "A m 2 m"            , "Am2m"      , "a-cb" , Bravais::A,  7, 190},
   { 39, "C2v^15", "A 2 -2c"         , "A e m 2"                        , "A e m 2"            , "Aem2"      , ""     , Bravais::A,  7, 191},
-  { 39, "C2v^15", "B 2 -2c"         , "B m e 2"                        , "B m e 2"            , "Bme2"      , "ba-c" , Bravais::P,  7, 192},
-  { 39, "C2v^15", "B -2c 2"         , "B 2 e m"                        , "B 2 e m"            , "B2em"      , "cab"  , Bravais::P,  7, 193},
+  { 39, "C2v^15", "B 2 -2c"         , "B m e 2"                        , "B m e 2"            , "Bme2"      , "ba-c" , Bravais::B,  7, 192},
+  { 39, "C2v^15", "B -2c 2"         , "B 2 e m"                        , "B 2 e m"            , "B2em"      , "cab"  , Bravais::B,  7, 193},
   { 39, "C2v^15", "C -2b 2"         , "C 2 m e"                        , "C 2 m e"            , "C2me"      , "-cba" , Bravais::C,  7, 194},
   { 39, "C2v^15", "C -2b -2b"       , "C m 2 e"                        , "C m 2 e"            , "Cm2e"      , "bca"  , Bravais::C,  7, 195},
   { 39, "C2v^15", "A -2c -2c"       , "A e 2 m"                        , "A e 2 m"            , "Ae2m"      , "a-cb" , Bravais::A,  7, 196},
   { 40, "C2v^16", "A 2 -2a"         , "A m a 2"                        , "A m a 2"            , "Ama2"      , ""     , Bravais::A,  7, 197},
-  { 40, "C2v^16", "B 2 -2b"         , "B b m 2"                        , "B b m 2"            , "Bbm2"      , "ba-c" , Bravais::P,  7, 198},
-  { 40, "C2v^16", "B -2b 2"         , "B 2 m b"                        , "B 2 m b"            , "B2mb"      , "cab"  , Bravais::P,  7, 199},
+  { 40, "C2v^16", "B 2 -2b"         , "B b m 2"                        , "B b m 2"            , "Bbm2"      , "ba-c" , Bravais::B,  7, 198},
+  { 40, "C2v^16", "B -2b 2"         , "B 2 m b"                        , "B 2 m b"            , "B2mb"      , "cab"  , Bravais::B,  7, 199},
   { 40, "C2v^16", "C -2c 2"         , "C 2 c m"                        , "C 2 c m"            , "C2cm"      , "-cba" , Bravais::C,  7, 200},
   { 40, "C2v^16", "C -2c -2c"       , "C c 2 m"                        , "C c 2 m"            , "Cc2m"      , "bca"  , Bravais::C,  7, 201},
   { 40, "C2v^16", "A -2a -2a"       , "A m 2 a"                        , "A m 2 a"            , "Am2a"      , "a-cb" , Bravais::A,  7, 202},
   { 41, "C2v^17", "A 2 -2ac"        , "A e a 2"                        , "A e a 2"            , "Aea2"      , ""     , Bravais::A,  7, 203},
-  { 41, "C2v^17", "B 2 -2bc"        , "B b e 2"                        , "B b e 2"            , "Bbe2"      , "ba-c" , Bravais::P,  7, 204},
-  { 41, "C2v^17", "B -2bc 2"        , "B 2 e b"                        , "B 2 e b"            , "B2eb"      , "cab"  , Bravais::P,  7, 205},
+  { 41, "C2v^17", "B 2 -2bc"        , "B b e 2"                        , "B b e 2"            , "Bbe2"      , "ba-c" , Bravais::B,  7, 204},
+  { 41, "C2v^17", "B -2bc 2"        , "B 2 e b"                        , "B 2 e b"            , "B2eb"      , "cab"  , Bravais::B,  7, 205},
   { 41, "C2v^17", "C -2bc 2"        , "C 2 c e"                        , "C 2 c e"            , "C2ce"      , "-cba" , Bravais::C,  7, 206},
   { 41, "C2v^17", "C -2bc -2bc"     , "C c 2 e"                        , "C c 2 e"            , "Cc2e"      , "bca"  , Bravais::C,  7, 207},
   { 41, "C2v^17", "A -2ac -2ac"     , "A e 2 a"                        , "A e 2 a"            , "Ae2a"      , "a-cb" , Bravais::A,  7, 208},
@@ -378,26 +378,26 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 63, "D2h^17", "-C 2c 2c"        , "C c m m"                        , "C 2/c 2/m 2_1/m"    , "Ccmm"      , "ba-c" , Bravais::C,  8, 299},
   { 63, "D2h^17", "-A 2a 2a"        , "A m m a"                        , "A 2_1/m 2/m 2/a"    , "Amma"      , "cab"  , Bravais::A,  8, 300},
   { 63, "D2h^17", "-A 2 2a"         , "A m a m"                        , "A 2_1/m 2/a 2/m"    , "Amam"      , "-cba" , Bravais::A,  8, 301},
-  { 63, "D2h^17", "-B 2 2b"         , "B b m m"                        , "B 2/b 2_1/m 2/m"    , "Bbmm"      , "bca"  , Bravais::P,  8, 302},
-  { 63, "D2h^17", "-B 2b 2"         , "B m m b"                        , "B 2/m 2_1/m 2/b"    , "Bmmb"      , "a-cb" , Bravais::P,  8, 303},
+  { 63, "D2h^17", "-B 2 2b"         , "B b m m"                        , "B 2/b 2_1/m 2/m"    , "Bbmm"      , "bca"  , Bravais::B,  8, 302},
+  { 63, "D2h^17", "-B 2b 2"         , "B m m b"                        , "B 2/m 2_1/m 2/b"    , "Bmmb"      , "a-cb" , Bravais::B,  8, 303},
   { 64, "D2h^18", "-C 2bc 2"        , "C m c e"                        , "C 2/m 2/c 2_1/e"    , "Cmce"      , ""     , Bravais::C,  8, 304},
   { 64, "D2h^18", "-C 2bc 2bc"      , "C c m e"                        , "C 2/c 2/m 2_1/e"    , "Ccme"      , "ba-c" , Bravais::C,  8, 305},
   { 64, "D2h^18", "-A 2ac 2ac"      , "A e m a"                        , "A 2_1/e 2/m 2/a"    , "Aema"      , "cab"  , Bravais::A,  8, 306},
   { 64, "D2h^18", "-A 2 2ac"        , "A e a m"                        , "A 2_1/e 2/a 2/m"    , "Aeam"      , "-cba" , Bravais::A,  8, 307},
-  { 64, "D2h^18", "-B 2 2bc"        , "B b e m"                        , "B 2/b 2_1/e 2/m"    , "Bbem"      , "bca"  , Bravais::P,  8, 308},
-  { 64, "D2h^18", "-B 2bc 2"        , "B m e b"                        , "B 2/m 2_1/e 2/b"    , "Bmeb"      , "a-cb" , Bravais::P,  8, 309},
+  { 64, "D2h^18", "-B 2 2bc"        , "B b e m"                        , "B 2/b 2_1/e 2/m"    , "Bbem"      , "bca"  , Bravais::B,  8, 308},
+  { 64, "D2h^18", "-B 2bc 2"        , "B m e b"                        , "B 2/m 2_1/e 2/b"    , "Bmeb"      , "a-cb" , Bravais::B,  8, 309},
   { 65, "D2h^19", "-C 2 2"          , "C m m m"                        , "C 2/m 2/m 2/m"      , "Cmmm"      , ""     , Bravais::C,  8, 310},
   { 65, "D2h^19", "-A 2 2"          , "A m m m"                        , "A 2/m 2/m 2/m"      , "Ammm"      , "cab"  , Bravais::A,  8, 311},
-  { 65, "D2h^19", "-B 2 2"          , "B m m m"                        , "B 2/m 2/m 2/m"      , "Bmmm"      , "bca"  , Bravais::P,  8, 312},
+  { 65, "D2h^19", "-B 2 2"          , "B m m m"                        , "B 2/m 2/m 2/m"      , "Bmmm"      , "bca"  , Bravais::B,  8, 312},
   { 66, "D2h^20", "-C 2 2c"         , "C c c m"                        , "C 2/c 2/c 2/m"      , "Cccm"      , ""     , Bravais::C,  8, 313},
   { 66, "D2h^20", "-A 2a 2"         , "A m a a"                        , "A 2/m 2/a 2/a"      , "Amaa"      , "cab"  , Bravais::A,  8, 314},
-  { 66, "D2h^20", "-B 2b 2b"        , "B b m b"                        , "B 2/b 2/m 2/b"      , "Bbmb"      , "bca"  , Bravais::P,  8, 315},
+  { 66, "D2h^20", "-B 2b 2b"        , "B b m b"                        , "B 2/b 2/m 2/b"      , "Bbmb"      , "bca"  , Bravais::B,  8, 315},
   { 67, "D2h^21", "-C 2b 2"         , "C m m e"                        , "C 2/m 2/m 2/e"      , "Cmme"      , ""     , Bravais::C,  8, 316},
   { 67, "D2h^21", "-C 2b 2b"        , "C m m e"                        , "C 2/m 2/m 2/e"      , "Cmme"      , "ba-c" , Bravais::C,  8, 317},
   { 67, "D2h^21", "-A 2c 2c"        , "A e m m"                        , "A 2/e 2/m 2/m"      , "Aemm"      , "cab"  , Bravais::A,  8, 318},
   { 67, "D2h^21", "-A 2 2c"         , "A e m m"                        , "A 2/e 2/m 2/m"      , "Aemm"      , "-cba" , Bravais::A,  8, 319},
-  { 67, "D2h^21", "-B 2 2c"         , "B m e m"                        , "B 2/m 2/e 2/m"      , "Bmem"      , "bca"  , Bravais::P,  8, 320},
-  { 67, "D2h^21", "-B 2c 2"         , "B m e m"                        , "B 2/m 2/e 2/m"      , "Bmem"      , "a-cb" , Bravais::P,  8, 321},
+  { 67, "D2h^21", "-B 2 2c"         , "B m e m"                        , "B 2/m 2/e 2/m"      , "Bmem"      , "bca"  , Bravais::B,  8, 320},
+  { 67, "D2h^21", "-B 2c 2"         , "B m e m"                        , "B 2/m 2/e 2/m"      , "Bmem"      , "a-cb" , Bravais::B,  8, 321},
   { 68, "D2h^22", "C 2 2 -1bc"      , "C c c e"                        , "C 2/c 2/c 2/e"      , "Ccce"      , "1"    , Bravais::C,  8, 322},
   { 68, "D2h^22", "-C 2b 2bc"       , "C c c e"                        , "C 2/c 2/c 2/e"      , "Ccce"      , "2"    , Bravais::C,  8, 323},
   { 68, "D2h^22", "C 2 2 -1bc"      , "C c c e"                        , "C 2/c 2/c 2/e"      , "Ccce"      , "1ba-c", Bravais::C,  8, 324},
@@ -406,10 +406,10 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 68, "D2h^22", "-A 2a 2c"        , "A e a a"                        , "A 2/e 2/a 2/a"      , "Aeaa"      , "2cab" , Bravais::A,  8, 327},
   { 68, "D2h^22", "A 2 2 -1ac"      , "A e a a"                        , "A 2/e 2/a 2/a"      , "Aeaa"      , "1-cba", Bravais::A,  8, 328},
   { 68, "D2h^22", "-A 2ac 2c"       , "A e a a"                        , "A 2/e 2/a 2/a"      , "Aeaa"      , "2-cba", Bravais::A,  8, 329},
-  { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1bca" , Bravais::P,  8, 330},
-  { 68, "D2h^22", "-B 2bc 2b"       , "B b c b"                        , "B 2/b 2/e 2/b"      , "Bbcb"      , "2bca" , Bravais::P,  8, 331},
-  { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1a-cb", Bravais::P,  8, 332},
-  { 68, "D2h^22", "-B 2b 2bc"       , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "2a-cb", Bravais::P,  8, 333},
+  { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1bca" , Bravais::B,  8, 330},
+  { 68, "D2h^22", "-B 2bc 2b"       , "B b c b"                        , "B 2/b 2/e 2/b"      , "Bbcb"      , "2bca" , Bravais::B,  8, 331},
+  { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1a-cb", Bravais::B,  8, 332},
+  { 68, "D2h^22", "-B 2b 2bc"       , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "2a-cb", Bravais::B,  8, 333},
   { 69, "D2h^23", "-F 2 2"          , "F m m m"                        , "F 2/m 2/m 2/m"      , "Fmmm"      , ""     , Bravais::F,  8, 334},
   { 70, "D2h^24", "F 2 2 -1d"       , "F d d d"                        , "F 2/d 2/d 2/d"      , "Fddd"      , "1"    , Bravais::F,  8, 335},
   { 70, "D2h^24", "-F 2uv 2vw"      , "F d d d"                        , "F 2/d 2/d 2/d"      , "Fddd"      , "2"    , Bravais::F,  8, 336},
-- 
2.43.0


From 8bc83bf58ccccb20a0e02455613723acfa4f468c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:23 +0000
Subject: [PATCH 35/39] =?UTF-8?q?fix:=20rotate=20all=20N=C3=97N=20tensors?=
 =?UTF-8?q?=20of=20Gamma=20data=20with=20the=20same=20phases=20and=20atom?=
 =?UTF-8?q?=20permutation=20as=20the=20vectors?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/interpolator_gamma.tpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/interpolator_gamma.tpp b/src/interpolator_gamma.tpp
index fff7ad9..f04e297 100644
--- a/src/interpolator_gamma.tpp
+++ b/src/interpolator_gamma.tpp
@@ -64,8 +64,8 @@ bool Interpolator<T>::rip_gamma_complex(
   if (!std::any_of(no.begin()+1, no.end(), [](ind_t n){return n>0;}))
     return false;
   // for Γ transformations of tensors, there *must* be N×N in total:
-  ind_t Nmat = static_cast<ind_t>(std::sqrt(no[2]))/3;
-  if (no[2] != 9*Nmat*Nmat){
+  ind_t Nmat = static_cast<ind_t>(std::round(std::sqrt(no[2])));
+  if (no[2] != Nmat*Nmat){
     std::cout << "Atomic displacement Gamma transformation requires NxN 3x3 tensors!" << std::endl;
     return false;
   }
@@ -117,19 +117,21 @@ bool Interpolator<T>::rip_gamma_complex(
       }
       if (no[2]>0){
         if (tA.size() < no[2]*9u) tA.resize(no[2]*9u);
+        // the tensors transform as M(Rq) = Γ(q;R) M(q) Γ⁻¹(q;R), with the same Γ
+        // as the vectors; Γ is unitary so its inverse has the conjugate phases
         for (ind_t n=0; n<Nmat; ++n){
-          T Rph = e_iqd_gt(i, n, Rii);
-          ind_t v = static_cast<ind_t>(pgt.F0(n, Rii));
+          T n_phase = e_iqd_gt(i, n, iRii);
+          ind_t v = static_cast<ind_t>(pgt.F0(n, iRii));
           for (ind_t m=0; m<Nmat; ++m){
-            T iRph = e_iqd_gt(i, m, iRii);
+            T m_phase = std::conj(e_iqd_gt(i, m, iRii));
             ind_t k = static_cast<ind_t>(pgt.F0(m, iRii));
             // Calculate R⁻¹*M*R in two steps
             // first calculate M*R, storing in t0
             brille::utils::mul_mat_mat(t0, 3u, xi+o+9u*(n*Nmat+m), rot[Rii].data());
             // next calculate R⁻¹*t0, storing in the temporary all matrix array
             brille::utils::mul_mat_mat(t1, 3u, rot[iRii].data(), t0);
-            // include the R R⁻¹ phase factor
-            for (int j=0; j<9; ++j) tA[(v*Nmat+k)*9u+j] = Rph*iRph*t1[j];
+            // include the phase factors of the two atoms
+            for (int j=0; j<9; ++j) tA[(v*Nmat+k)*9u+j] = n_phase*m_phase*t1[j];
           }
         }
         for (ind_t j=0; j<no[2]*9u; ++j) xi[o+j] = tA[j];
-- 
2.43.0


From 811021b402bff1f8ce26b0d58075cc31281882c8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:36:15 +0000
Subject: [PATCH 36/39] fix: use points whose memory is not contiguous and row
 ordered as what they are

---
 src/array2.tpp     | 8 ++++----
 src/array_lvec.hpp | 3 +++
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/array2.tpp b/src/array2.tpp
index 5b2bf32..91055e7 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -497,7 +497,7 @@ Array2<T>::last(const T val, const ind_t n) const{
 #define ARRAY_ELEMENTWISE_INT_TRANSFORM(X) template<class T>\
 Array2<int>\
 Array2<T>:: X () const {\
-  Array2<int> out(_shape, _stride);\
+  Array2<int> out(_shape, this->calculate_stride(_shape));\
   for (auto x: out.subItr())\
     out[x] = static_cast<int>(std:: X (_data[this->s2l_d(x)]));\
   return out;\
@@ -984,7 +984,7 @@ Array2<T>::unique(const T Ttol, const int tol) const {
   size_t u_count = std::count(isu.begin(), isu.end(), true);
   shape_t osize{_shape};
   osize[0] = static_cast<ind_t>(u_count);
-  Array2<T> out(osize, _stride);
+  Array2<T> out(osize, this->calculate_stride(osize));
   for (ind_t i=0,u=0; i<_shape[0]; ++i) if (isu[i]) out.set(u++, this->view(i));
   return out;
 }
@@ -1009,7 +1009,7 @@ T Array2<T>::norm(ind_t i) const {
 template<class T>
 Array2<T>
 Array2<T>::operator-() const{
-  Array2<T> neg(_shape, _stride);
+  Array2<T> neg(_shape, this->calculate_stride(_shape));
   for (auto s: this->subItr()) neg[s] = -_data[this->s2l_d(s)];
   return neg;
 }
@@ -1240,7 +1240,7 @@ Array2<T> Array2<T>::contiguous_copy() const {
 template<class T>
 Array2<T> Array2<T>::contiguous_row_ordered_copy() const {
   if (this->is_row_ordered() && this->is_contiguous()) return Array2<T>(*this);
-  Array2<T> out(_shape, this->calculate_stride(_shape));
+  Array2<T> out(_shape); // new arrays are row ordered
   for (auto x : this->subItr()) out[x] = (*this)[x];
   return out;
 }
diff --git a/src/array_lvec.hpp b/src/array_lvec.hpp
index 263f347..b089fd1 100644
--- a/src/array_lvec.hpp
+++ b/src/array_lvec.hpp
@@ -109,6 +109,9 @@ public:
   template<typename... Args> explicit LVec(type_t typ, lattice_t lat, Args... args)
   : bArray<T>(args...), _type(typ), _lattice(std::move(lat))
   {
+    // the three elements of each vector are used through a pointer to the first
+    if (!(this->is_row_ordered() && this->is_contiguous()))
+      this->bArray<T>::operator=(this->contiguous_row_ordered_copy());
   }
   template<class R>
   explicit LVec(const LVec<R>& other)
-- 
2.43.0


From 9d00a661324369f4cc17d0f25d911fe68cdb5d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:15 +0000
Subject: [PATCH 37/39] fix: never start locating a point from a deleted
 tetrahedron

---
 lib/tetgen/tetgen.cxx | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/lib/tetgen/tetgen.cxx b/lib/tetgen/tetgen.cxx
index ffb266a..9f0aa48 100644
--- a/lib/tetgen/tetgen.cxx
+++ b/lib/tetgen/tetgen.cxx
@@ -11152,6 +11152,20 @@ void tetgenmesh::randomsample(point searchpt,triface *searchtet)
     }
     sampleblock = (void **) *sampleblock;
   }
+
+  if (searchtet->tet == NULL) {
+    // Every sampled tet was dead. Use the first living tet, and leave any
+    //   traversal of the pool which is under way as it was.
+    void **pathblock = tetrahedrons->pathblock;
+    void *pathitem = tetrahedrons->pathitem;
+    int pathitemsleft = tetrahedrons->pathitemsleft;
+    tetrahedrons->traversalinit();
+    searchtet->tet = tetrahedrontraverse();
+    searchtet->ver = 11;
+    tetrahedrons->pathblock = pathblock;
+    tetrahedrons->pathitem = pathitem;
+    tetrahedrons->pathitemsleft = pathitemsleft;
+  }
 }
 
 //============================================================================//
@@ -25108,7 +25122,8 @@ int tetgenmesh::scout_point(point searchpt, triface *searchtet, int /*randflag*/
     }
   
     if (ishulltet(*searchtet)) {
-      if ((recenttet.tet != NULL) && !ishulltet(recenttet)) {
+      // 'recenttet' may have been deleted since it was recorded.
+      if (!isdeadtet(recenttet) && !ishulltet(recenttet)) {
         *searchtet = recenttet;
       }
     }
-- 
2.43.0


From e34e734ff2da9c9e365b766461db4a39a9df51e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:15 +0000
Subject: [PATCH 38/39] fix: drop a point in the middle of an edge from every
 face which shares the edge

---
 src/geometry.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/geometry.hpp b/src/geometry.hpp
index 46393bd..e500f31 100644
--- a/src/geometry.hpp
+++ b/src/geometry.hpp
@@ -823,7 +823,10 @@ namespace brille {
       auto prev = points.view(sorted[i]) - points.view(sorted[j]);
       j = static_cast<ind_t>((sorted.size() + i + 1) % sorted.size());
       auto next = points.view(sorted[j]) - points.view(sorted[i]);
-      if (dot(normal, cross(prev, next)).all(cmp::gt, 0.)){ // FIXME add tolerance?
+      // a point in the middle of an edge must not be kept for one of the faces sharing the edge but not for the other,
+      // only because of the rounding errors in its position
+      const T turn = dot(normal, cross(prev / norm(prev), next / norm(next))).val(0, 0);
+      if (turn > T(1e-10)){
         // left turn; we keep this point
         ++i;
       } else{
-- 
2.43.0


From cbd496d5bd49d7bc5089bac31214ce2316479215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:15 +0000
Subject: [PATCH 39/39] fix: keep tetgen from moving the added Gamma point

---
 src/triangulation_poly.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/triangulation_poly.hpp b/src/triangulation_poly.hpp
index 6134d39..0a3bde4 100644
--- a/src/triangulation_poly.hpp
+++ b/src/triangulation_poly.hpp
@@ -87,6 +87,7 @@ triangulate(const T max_volume, const bool addGamma, const A<T>& points, const F
   try {
     if (addGamma && !gammaPresent){
       tgb.insertaddpoints = 1;
+      tgb.smooth_maxiter = 0; // smoothing the mesh would move the added point away from Gamma
       tetgenio add_in;
       add_in.numberofpoints = 1;
       add_in.pointlist = new double[3];
-- 
2.43.0

