From 62513aa8e99b5f06d886a4706a7ef3d0fadbb644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:44 +0000
Subject: [PATCH 01/57] fix: setup_layout loops forever when the second attempt
 to divide the lattice succeeds

---
 libraries/plumbing/setup_layout_generic.cpp | 5 +++--
 libraries/plumbing/setup_layout_vector.cpp  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/libraries/plumbing/setup_layout_generic.cpp b/libraries/plumbing/setup_layout_generic.cpp
index d541906..8584649 100644
--- a/libraries/plumbing/setup_layout_generic.cpp
+++ b/libraries/plumbing/setup_layout_generic.cpp
@@ -72,6 +72,7 @@ void lattice_struct::setup_layout() {
 
     int mdir = 0;
     bool secondtime = false;
+    bool fail;
     do {
         // try the division a couple of times, if the 1st fails
 
@@ -129,7 +130,7 @@ void lattice_struct::setup_layout() {
             }
 
         // now check that the div makes sens
-        bool fail = false;
+        fail = false;
         foralldir(dir) if (nodesiz[dir] < 2) fail = true; // don't allow nodes of size 1
         if (fail && !secondtime) {
             secondtime = true;
@@ -141,7 +142,7 @@ void lattice_struct::setup_layout() {
             hila::finishrun();
         }
 
-    } while (secondtime);
+    } while (fail);
 
     // set up struct nodes variables
     nodes.number = hila::number_of_nodes();
diff --git a/libraries/plumbing/setup_layout_vector.cpp b/libraries/plumbing/setup_layout_vector.cpp
index 1cfcf87..b41ed28 100644
--- a/libraries/plumbing/setup_layout_vector.cpp
+++ b/libraries/plumbing/setup_layout_vector.cpp
@@ -98,6 +98,7 @@ void lattice_struct::setup_layout() {
 
     int gdir;
     bool secondtime = false;
+    bool fail;
     do {
         // try the division a couple of times, if the 1st fails
 
@@ -165,7 +166,7 @@ void lattice_struct::setup_layout() {
 
         // Division done, now check that the div makes sense
 
-        bool fail = false;
+        fail = false;
 
         foralldir (dir)
             if (nodesiz[dir] < 1)
@@ -241,7 +242,7 @@ void lattice_struct::setup_layout() {
             hila::finishrun();
         }
 
-    } while (secondtime);
+    } while (fail);
 
     // set up struct nodes variables
     nodes.number = hila::number_of_nodes();
-- 
2.43.0


From 5412f1baa90cb9c0d449a3e4f6f957f3fe8ec7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:51 +0000
Subject: [PATCH 02/57] fix: set_local_data did not compile: the source data is
 const

---
 libraries/plumbing/field_comm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/plumbing/field_comm.h b/libraries/plumbing/field_comm.h
index 50ca1d6..696eb21 100644
--- a/libraries/plumbing/field_comm.h
+++ b/libraries/plumbing/field_comm.h
@@ -1112,7 +1112,7 @@ void Field<T>::set_local_data(const std::vector<T> &buffer) {
     T *data = (T *)d_malloc(sizeof(T) * lattice->mynode.volume);
     gpuMemcpy(data, buffer.data(), sizeof(T) * lattice->mynode.volume, gpuMemcpyHostToDevice);
 #else
-    T *data = buffer.data();
+    const T *data = buffer.data();
 #endif
 
 #pragma hila novector direct_access(data)
-- 
2.43.0


From 7a039f246c301f599b6443ef9b65052705d4dd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:56 +0000
Subject: [PATCH 03/57] fix: antiperiodic boundary changes the sign only on the
 subnodes at the edge of the node (vectorized layout)

---
 .../plumbing/backend_vector/field_storage_backend.h  | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libraries/plumbing/backend_vector/field_storage_backend.h b/libraries/plumbing/backend_vector/field_storage_backend.h
index 9b015eb..52ed85a 100644
--- a/libraries/plumbing/backend_vector/field_storage_backend.h
+++ b/libraries/plumbing/backend_vector/field_storage_backend.h
@@ -209,6 +209,16 @@ void field_storage<T>::set_local_boundary_elements(Direction dir, Parity par, co
                 // hila::out0 << "its permutation\n";
                 const int *RESTRICT perm = vector_lattice->boundary_permutation[dir];
 
+                // sign changes only for the subnodes (elements of the vector) which are at the
+                // edge of the node, other subnodes have their neighbour inside the node
+                bool at_edge[vector_size];
+                for (unsigned i = 0; i < vector_size; i++) {
+                    int c = lattice->coordinates(i)[abs(dir)] - lattice->mynode.min[abs(dir)];
+                    int sublen = vector_lattice->subnode_size[abs(dir)];
+                    at_edge[i] =
+                        is_up_dir(dir) ? c + sublen >= lattice->mynode.size[abs(dir)] : c < sublen;
+                }
+
                 basetype *fp = static_cast<basetype *>(static_cast<void *>(fieldbuf));
                 for (unsigned idx = start; idx < end; idx++) {
                     /// get ptrs to target and source vec elements
@@ -224,7 +234,7 @@ void field_storage<T>::set_local_boundary_elements(Direction dir, Parity par, co
 #ifdef SPECIAL_BOUNDARY_CONDITIONS
                         for (unsigned e = 0; e < elements * vector_size; e += vector_size)
                             for (unsigned i = 0; i < vector_size; i++)
-                                t[e + i] = -s[e + perm[i]];
+                                t[e + i] = at_edge[i] ? -s[e + perm[i]] : s[e + perm[i]];
 #endif
                     }
                 }
-- 
2.43.0


From 045e200b8fc227eac28634643fabcbb97c4bc6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:46 +0000
Subject: [PATCH 04/57] fix: changing one parity leaves stale boundary values
 when the lattice size is odd

---
 libraries/plumbing/field.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libraries/plumbing/field.h b/libraries/plumbing/field.h
index 1aa9c51..367cd95 100644
--- a/libraries/plumbing/field.h
+++ b/libraries/plumbing/field.h
@@ -583,11 +583,15 @@ class Field {
     void mark_changed(const Parity p) const {
 
         for (Direction i = (Direction)0; i < NDIRS; ++i) {
+            // across a boundary of odd size lattice neighbours have the same parity, then
+            // both parities are invalid
+            const Parity par = (fs->mylattice.size(abs(i)) % 2 == 0) ? p : ALL;
+
             // check if there's ongoing comms, invalidate it!
-            drop_comms(i, opp_parity(p));
+            drop_comms(i, opp_parity(par));
 
-            set_gather_status(opp_parity(p), i, gather_status_t::NOT_DONE);
-            if (p != ALL) {
+            set_gather_status(opp_parity(par), i, gather_status_t::NOT_DONE);
+            if (par != ALL) {
                 set_gather_status(ALL, i, gather_status_t::NOT_DONE);
             } else {
                 set_gather_status(EVEN, i, gather_status_t::NOT_DONE);
-- 
2.43.0


From d809c69936fb50dc184516f4b4fc3c0d58b16860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:30 +0000
Subject: [PATCH 05/57] fix: adding shifts invalidates references to the
 earlier ones when there are more than 100

---
 libraries/plumbing/field.h      | 4 +++-
 libraries/plumbing/field_comm.h | 4 ----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/libraries/plumbing/field.h b/libraries/plumbing/field.h
index 367cd95..dbfca2a 100644
--- a/libraries/plumbing/field.h
+++ b/libraries/plumbing/field.h
@@ -11,6 +11,7 @@
 #include <iostream>
 #include <string>
 #include <cstring> //Memcpy is here...
+#include <list>
 #include <math.h>
 #include <type_traits>
 
@@ -117,7 +118,8 @@ class Field {
             Parity par;
         };
 
-        std::vector<shift_buffer_struct> shift_buffer;
+        // std::list: references to elements stay valid when new shifts are added
+        std::list<shift_buffer_struct> shift_buffer;
 #endif
 
 
diff --git a/libraries/plumbing/field_comm.h b/libraries/plumbing/field_comm.h
index 696eb21..b789fbd 100644
--- a/libraries/plumbing/field_comm.h
+++ b/libraries/plumbing/field_comm.h
@@ -284,10 +284,6 @@ void Field<T>::buffered_shift_offsets(const CoordinateVector &v, Parity par) con
     if (v.norm_L1() == 0)
         return;
 
-    // alloc enough storage, so that no new allocs are needed - cheap!
-    if (fs->shift_buffer.capacity() == 0)
-        fs->shift_buffer.reserve(100);
-
     // Do we have the shift?
     for (auto &r : fs->shift_buffer) {
         if (r.offset == v) {
-- 
2.43.0


From 3c74428dce6c4193cb7aa5c4ee58812ad1c26528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:07 +0000
Subject: [PATCH 06/57] fix: shift by more than one step to sites of one parity
 is wrong when the lattice size is odd

---
 libraries/plumbing/field_comm.h | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/libraries/plumbing/field_comm.h b/libraries/plumbing/field_comm.h
index b789fbd..5a00896 100644
--- a/libraries/plumbing/field_comm.h
+++ b/libraries/plumbing/field_comm.h
@@ -175,6 +175,17 @@ T *Field<T>::field_struct::get_receive_buffer(Direction d, Parity par,
 #define NAIVE_SHIFT
 #if defined(NAIVE_SHIFT)
 
+/// Does each step of the move v connect sites of opposite parity?  False if lattice size is odd
+/// to some direction of v
+
+inline bool shift_flips_parity(const CoordinateVector &v) {
+    foralldir (d) {
+        if (v[d] != 0 && lattice.size(d) % 2 != 0)
+            return false;
+    }
+    return true;
+}
+
 template <typename T>
 Field<T> &Field<T>::shift(const CoordinateVector &v, Field<T> &res, const Parity par) const {
 
@@ -194,6 +205,15 @@ Field<T> &Field<T>::shift(const CoordinateVector &v, Field<T> &res, const Parity
         return res;
     }
 
+    // If the size of the lattice is odd, neighbouring sites may have the same parity and
+    // the moves have to be done for all sites
+    if (par != ALL && !shift_flips_parity(v)) {
+        Field<T> tmp;
+        shift(v, tmp, ALL);
+        res[par] = tmp[X];
+        return res;
+    }
+
     // opp_parity(ALL) == ALL
     if (len % 2 == 0)
         par_s = opp_parity(par);
@@ -306,6 +326,9 @@ const Field<T> &Field<T>::do_buffered_shift(const CoordinateVector &v, Parity pa
     if (len == 0)
         return *this;
 
+    // parity of the sites needed for the previous step of the shift
+    const Parity par_prev = shift_flips_parity(v) ? opp_parity(par) : ALL;
+
     for (auto &r : fs->shift_buffer) {
         if (r.offset == v) {
             // If we have the data return
@@ -324,7 +347,7 @@ const Field<T> &Field<T>::do_buffered_shift(const CoordinateVector &v, Parity pa
                 // now len > 1, check if others are next to this and shorter
                 for (auto &n : fs->shift_buffer) {
                     if ((r.offset - n.offset).is_direction(shiftd) && n.offset.norm_L1() < len) {
-                        do_buffered_shift(n.offset, opp_parity(par));
+                        do_buffered_shift(n.offset, par_prev);
 
                         fptr = &n.f;
                         break;
@@ -348,8 +371,8 @@ const Field<T> &Field<T>::do_buffered_shift(const CoordinateVector &v, Parity pa
                     shiftd = -shiftd;
                 }
 
-                buffered_shift_offsets(nv, opp_parity(par));
-                auto &n = do_buffered_shift(nv, opp_parity(par));
+                buffered_shift_offsets(nv, par_prev);
+                auto &n = do_buffered_shift(nv, par_prev);
                 fptr = &n;
             }
 
-- 
2.43.0


From 381c9ef702d1b300caeba640925f4533ca8d56f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:46 +0000
Subject: [PATCH 07/57] fix: shift by more than one step ignored antiperiodic
 boundary conditions after the first step

---
 libraries/plumbing/field_comm.h | 35 ++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/libraries/plumbing/field_comm.h b/libraries/plumbing/field_comm.h
index 5a00896..172d05d 100644
--- a/libraries/plumbing/field_comm.h
+++ b/libraries/plumbing/field_comm.h
@@ -186,6 +186,17 @@ inline bool shift_flips_parity(const CoordinateVector &v) {
     return true;
 }
 
+/// Intermediate fields of a shift have the boundary conditions of the shifted field
+
+template <typename T>
+inline void copy_shift_boundary_condition(const Field<T> &from, Field<T> &to) {
+#ifdef SPECIAL_BOUNDARY_CONDITIONS
+    if constexpr (hila::has_unary_minus<T>::value) {
+        to.copy_boundary_condition(from);
+    }
+#endif
+}
+
 template <typename T>
 Field<T> &Field<T>::shift(const CoordinateVector &v, Field<T> &res, const Parity par) const {
 
@@ -255,18 +266,14 @@ Field<T> &Field<T>::shift(const CoordinateVector &v, Field<T> &res, const Parity
         return res;
     }
 
-    // now longer - need buffer
-    Field<T> r1;
-    Field<T> *from, *to;
+    // now longer - need buffers, with the boundary conditions of this field.
+    // The final move goes to res
+    Field<T> r1, r2;
+    Field<T> *from = &r1, *to = &r2;
+    copy_shift_boundary_condition(*this, r1);
+    if (len > 2)
+        copy_shift_boundary_condition(*this, r2);
 
-    // this ensures that the final move lands on res
-    if (len % 2 == 0) {
-        from = &r1;
-        to = &res;
-    } else {
-        from = &res;
-        to = &r1;
-    }
     // and copy initially to "from"
     (*from).shift_from(*this, mdir, par_s);
     // (*from)[par_s] = (*this)[X + mdir];
@@ -281,11 +288,14 @@ Field<T> &Field<T>::shift(const CoordinateVector &v, Field<T> &res, const Parity
 
             while (rem[d] != 0) {
 
+                rem = rem - mdir;
+                if (rem.norm_L1() == 0)
+                    to = &res;
+
                 (*to).shift_from(*from, mdir, par_s);
                 //(*to)[par_s] = (*from)[X + mdir];
 
                 par_s = opp_parity(par_s);
-                rem = rem - mdir;
                 std::swap(to, from);
             }
         }
@@ -378,6 +388,7 @@ const Field<T> &Field<T>::do_buffered_shift(const CoordinateVector &v, Parity pa
 
             // Finally copy field
 
+            copy_shift_boundary_condition(*this, r.f);
             r.f.shift_from(*fptr, shiftd, par);
             // onsites (par) {
             //     r.f[X] = (*fptr)[X + shiftd];
-- 
2.43.0


From c4e2e11928ecae72254ef8b654dcd9ad51e8d184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:14 +0000
Subject: [PATCH 08/57] fix: delayed product reduction of ReductionVector was
 done as a sum

---
 libraries/plumbing/reductionvector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libraries/plumbing/reductionvector.h b/libraries/plumbing/reductionvector.h
index cc24a66..43ebc70 100644
--- a/libraries/plumbing/reductionvector.h
+++ b/libraries/plumbing/reductionvector.h
@@ -243,6 +243,7 @@ class ReductionVector {
                 assert(0 && "Cannot mix sum and product reductions!");
             }
             delay_is_on = true;
+            is_delayed_sum = true;
         } else {
             reduce_operation(MPI_SUM);
         }
@@ -264,6 +265,7 @@ class ReductionVector {
                 assert(0 && "Cannot mix sum and product reductions!");
             }
             delay_is_on = true;
+            is_delayed_sum = false;
         } else {
             reduce_operation(MPI_PROD);
         }
-- 
2.43.0


From 227d506b3c1abd4310a5bc29a687f73d590002a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:14 +0000
Subject: [PATCH 09/57] fix: value assigned to ReductionVector is lost or
 counted many times if a reduction was under way

---
 libraries/plumbing/reductionvector.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libraries/plumbing/reductionvector.h b/libraries/plumbing/reductionvector.h
index 43ebc70..2483215 100644
--- a/libraries/plumbing/reductionvector.h
+++ b/libraries/plumbing/reductionvector.h
@@ -204,12 +204,16 @@ class ReductionVector {
     /// Make this return void, hard to imagine it is used for anything useful
     template <typename S, std::enable_if_t<std::is_assignable<T &, S>::value, int> = 0>
     void operator=(const S &rhs) {
+        wait();
+        delay_is_on = false;
         for (auto &vp : val)
             vp = rhs;
     }
 
     /// Assignment from 0
     void operator=(std::nullptr_t np) {
+        wait();
+        delay_is_on = false;
         for (auto &vp : val)
             vp = 0;
     }
-- 
2.43.0


From 37dcd4c91b361174c821f32df21cf2f76f94153e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:14 +0000
Subject: [PATCH 10/57] fix: delayed Reduction used again without assignment
 counts the old value once for each rank

---
 libraries/plumbing/reduction.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libraries/plumbing/reduction.h b/libraries/plumbing/reduction.h
index 777bbdc..4789163 100644
--- a/libraries/plumbing/reduction.h
+++ b/libraries/plumbing/reduction.h
@@ -207,7 +207,9 @@ class Reduction {
         wait(); // wait for possible ongoing
 
         // add the node values to reduction var
-        if (hila::myrank() == 0 || is_delayed_)
+        // A delayed reduction accumulates on every rank until it is reduced; after that the
+        // value is held by rank 0 only
+        if (hila::myrank() == 0 || (is_delayed_ && delay_is_on))
             val += v;
         else
             val = v;
-- 
2.43.0


From fa39be4b4a5bcd305ef24fc7d259459e007e0c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:14 +0000
Subject: [PATCH 11/57] fix: product reductions are always zero in OpenMP
 parallel loops

---
 hilapp/src/codegen_cpu.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hilapp/src/codegen_cpu.cpp b/hilapp/src/codegen_cpu.cpp
index 8af126a..25cec74 100644
--- a/hilapp/src/codegen_cpu.cpp
+++ b/hilapp/src/codegen_cpu.cpp
@@ -151,7 +151,7 @@ std::string TopLevelVisitor::generate_code_cpu(Stmt *S, bool semicolon_at_end, s
                         code << "_hila_reduction_sum" << sums;
                         sums++;
                     } else {
-                        code << '+';
+                        code << (r.reduction_type == reduction::PRODUCT ? '*' : '+');
                     }
                     code << ": " << r.reduction_name << ")";
                 }
-- 
2.43.0


From 28206f377c82e0d1ba7368ebe79d1af3b4804388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:14 +0000
Subject: [PATCH 12/57] fix: reduction to a variable of different size than the
 loop vectors is wrong in vectorized loops

---
 hilapp/src/codegen_avx_new.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/hilapp/src/codegen_avx_new.cpp b/hilapp/src/codegen_avx_new.cpp
index 8961680..257bb5b 100644
--- a/hilapp/src/codegen_avx_new.cpp
+++ b/hilapp/src/codegen_avx_new.cpp
@@ -308,21 +308,20 @@ bool TopLevelVisitor::check_loop_vectorizable(Stmt *S, int &vector_size_, std::s
             }
         }
 
-        // reduction expressions if any
+        // reductions if any - the reduction variable is accumulated in a vector, which must have
+        // as many elements as there are sites in the vectors of the loop
         for (reduction_expr &r : reduction_list) {
-            if (r.variable == nullptr) {
-                if (r.vecinfo.is_vectorizable) {
-                    if (!are_vectors_compatible(r.vecinfo, r.name, vinfo)) {
+            if (r.vecinfo.is_vectorizable) {
+                if (!are_vectors_compatible(r.vecinfo, r.name, vinfo)) {
 
-                        is_vectorizable = false;
-                        reason.push_back("type of expression '" + r.name + "' is " +
-                                         r.vecinfo.basetype_str + " and '" + vinfo.var_name +
-                                         "' is " + vinfo.var_type);
-                    }
-                } else {
                     is_vectorizable = false;
-                    reason.push_back("expression '" + r.name + "' is not vectorizable");
+                    reason.push_back("type of reduction '" + r.name + "' is " +
+                                     r.vecinfo.basetype_str + " and '" + vinfo.var_name + "' is " +
+                                     vinfo.var_type);
                 }
+            } else {
+                is_vectorizable = false;
+                reason.push_back("reduction '" + r.name + "' is not vectorizable");
             }
         }
 
-- 
2.43.0


From 0215dee4db7ef9a645e2fa76de2562ee8199ae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:14 +0000
Subject: [PATCH 13/57] fix: vectorized product reductions of float and integer
 types are always zero

---
 libraries/plumbing/backend_vector/defs.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/libraries/plumbing/backend_vector/defs.h b/libraries/plumbing/backend_vector/defs.h
index 315bc99..2ab8fbf 100644
--- a/libraries/plumbing/backend_vector/defs.h
+++ b/libraries/plumbing/backend_vector/defs.h
@@ -250,7 +250,7 @@ inline double reduce_prod(Vec4d v) {
 }
 
 inline double reduce_prod(Vec8f v) {
-    double sum = 0;
+    double sum = 1;
     float store[8];
     v.store(&(store[0]));
     for (int i = 0; i < 8; i++)
@@ -259,7 +259,7 @@ inline double reduce_prod(Vec8f v) {
 }
 
 inline double reduce_prod(Vec8i v) {
-    double sum = 0;
+    double sum = 1;
     int store[8];
     v.store(&(store[0]));
     for (int i = 0; i < 8; i++)
@@ -277,7 +277,7 @@ inline double reduce_prod(Vec8d v) {
 }
 
 inline double reduce_prod(Vec16f v) {
-    double sum = 0;
+    double sum = 1;
     float store[16];
     v.store(&(store[0]));
     for (int i = 0; i < 16; i++)
@@ -286,7 +286,7 @@ inline double reduce_prod(Vec16f v) {
 }
 
 inline double reduce_prod(Vec16i v) {
-    double sum = 0;
+    double sum = 1;
     int store[16];
     v.store(&(store[0]));
     for (int i = 0; i < 16; i++)
@@ -294,8 +294,8 @@ inline double reduce_prod(Vec16i v) {
     return sum;
 }
 
-inline double reduce_prod(Vec4q v) {
-    double sum = 0;
+inline int64_t reduce_prod(Vec4q v) {
+    int64_t sum = 1;
     int64_t store[4];
     v.store(&(store[0]));
     for (int i = 0; i < 4; i++)
@@ -303,8 +303,8 @@ inline double reduce_prod(Vec4q v) {
     return sum;
 }
 
-inline double reduce_prod(Vec8q v) {
-    double sum = 0;
+inline int64_t reduce_prod(Vec8q v) {
+    int64_t sum = 1;
     int64_t store[8];
     v.store(&(store[0]));
     for (int i = 0; i < 8; i++)
-- 
2.43.0


From 8515093fbeac5f8f97b78d8945969f157b79214c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:45 +0000
Subject: [PATCH 14/57] fix: Field::product did not compile

---
 libraries/plumbing/reduction.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libraries/plumbing/reduction.h b/libraries/plumbing/reduction.h
index 4789163..1bf0bb8 100644
--- a/libraries/plumbing/reduction.h
+++ b/libraries/plumbing/reduction.h
@@ -299,12 +299,11 @@ template <typename T>
 T Field<T>::product(Parity par, bool allreduce) const {
     static_assert(std::is_arithmetic<T>::value,
                   ".product() reduction only for integer or floating point types");
-    Reduction<T> result;
-    result = 1;
-    result.allreduce(allreduce);
+    // class Reduction does not have product reductions; this gives the result to all ranks
+    T result = 1;
     onsites (par)
         result *= (*this)[X];
-    return result.value();
+    return result;
 }
 
 
-- 
2.43.0


From 0e2b6682667889d67fa6f2886cb7c4ff06b4ba6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:45 +0000
Subject: [PATCH 15/57] fix: vectorized integer product reductions are rounded
 to double

---
 libraries/plumbing/backend_vector/defs.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libraries/plumbing/backend_vector/defs.h b/libraries/plumbing/backend_vector/defs.h
index 2ab8fbf..191a0e7 100644
--- a/libraries/plumbing/backend_vector/defs.h
+++ b/libraries/plumbing/backend_vector/defs.h
@@ -258,8 +258,8 @@ inline double reduce_prod(Vec8f v) {
     return sum;
 }
 
-inline double reduce_prod(Vec8i v) {
-    double sum = 1;
+inline int64_t reduce_prod(Vec8i v) {
+    int64_t sum = 1;
     int store[8];
     v.store(&(store[0]));
     for (int i = 0; i < 8; i++)
@@ -285,8 +285,8 @@ inline double reduce_prod(Vec16f v) {
     return sum;
 }
 
-inline double reduce_prod(Vec16i v) {
-    double sum = 1;
+inline int64_t reduce_prod(Vec16i v) {
+    int64_t sum = 1;
     int store[16];
     v.store(&(store[0]));
     for (int i = 0; i < 16; i++)
-- 
2.43.0


From b8807766af9bb869b8f0adf24aadc3bb3e078ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:35 +0000
Subject: [PATCH 16/57] fix: maximum of a field with only negative values, and
 location of an extremum that is the limit of the type

---
 libraries/plumbing/reduction.h | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/libraries/plumbing/reduction.h b/libraries/plumbing/reduction.h
index 1bf0bb8..9f1feac 100644
--- a/libraries/plumbing/reduction.h
+++ b/libraries/plumbing/reduction.h
@@ -331,28 +331,39 @@ T Field<T>::minmax(bool is_min, Parity par, CoordinateVector &loc) const {
     T val = gpu_minmax(is_min, par, loc);
 #else
     // get suitable initial value
-    T val = is_min ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
+    const T init_val = is_min ? (std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity()
+                                                                      : std::numeric_limits<T>::max())
+                              : (std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity()
+                                                                      : std::numeric_limits<T>::lowest());
+    T val = init_val;
+
+    // the initial value is not a value of the field: mark when one is found
+    bool found = false;
 
     // write the loop with explicit OpenMP parallel region.  It has negligible effect
     // on non-OpenMP code, and the pragmas are ignored.
-    #pragma omp parallel shared(val, loc, is_min)
+    #pragma omp parallel shared(val, loc, is_min, found)
     {
         CoordinateVector loc_th(0);
-        T val_th = is_min ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
+        T val_th = init_val;
+        bool found_th = false;
 
         // Pragma "hila omp_parallel_region" is necessary here, because this is within
         // omp parallel
-        #pragma hila novector omp_parallel_region direct_access(loc_th, val_th)
+        #pragma hila novector omp_parallel_region direct_access(loc_th, val_th, found_th)
         onsites (par) {
-            if ((is_min && (*this)[X] < val_th) || (!is_min && (*this)[X] > val_th)) {
+            if ((is_min && (*this)[X] < val_th) || (!is_min && (*this)[X] > val_th) ||
+                (!found_th && (*this)[X] == val_th)) {
                 val_th = (*this)[X];
                 loc_th = X.coordinates();
+                found_th = true;
             }
         }
         #pragma omp critical
-        if ((is_min && val_th < val) || (!is_min && val_th > val)) {
+        if (found_th && ((is_min && val_th < val) || (!is_min && val_th > val) || !found)) {
             val = val_th;
             loc = loc_th;
+            found = true;
         }
     }
     
-- 
2.43.0


From 0fb592b205c64a057c757b30ce7a4977d3783544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:56 +0000
Subject: [PATCH 17/57] fix: data race in loops within omp parallel regions

---
 hilapp/src/codegen.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hilapp/src/codegen.cpp b/hilapp/src/codegen.cpp
index 2ecc5bc..384872e 100644
--- a/hilapp/src/codegen.cpp
+++ b/hilapp/src/codegen.cpp
@@ -609,7 +609,9 @@ void TopLevelVisitor::handle_reduction_result(std::stringstream &code) {
         }
     }
 
-    code << "hila::set_allreduce(true);\n";
+    // within an omp parallel region all threads come here
+    if (!loop_info.has_pragma_omp_parallel_region)
+        code << "hila::set_allreduce(true);\n";
 
 
     // and vector reductions
-- 
2.43.0


From 7f5e72462408895fba54ee71935b1bae8af36992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 18/57] fix: read_fields did not compile: Field has no method
 read_from_stream

---
 libraries/plumbing/field_io.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/plumbing/field_io.h b/libraries/plumbing/field_io.h
index c364430..861ccd8 100644
--- a/libraries/plumbing/field_io.h
+++ b/libraries/plumbing/field_io.h
@@ -336,12 +336,12 @@ void Field<T>::read(const std::string &filename) {
 // Read a list of fields from an input stream
 template <typename T>
 static void read_fields(std::ifstream &inputfile, Field<T> &last) {
-    last.read_from_stream(inputfile);
+    last.read(inputfile);
 }
 
 template <typename T, typename... fieldtypes>
 static void read_fields(std::ifstream &inputfile, Field<T> &next, fieldtypes &...fields) {
-    next.read_from_stream(inputfile);
+    next.read(inputfile);
     read_fields(inputfile, fields...);
 }
 
-- 
2.43.0


From cae9a71478cff78231577ee5fb80cb3ad5216973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 19/57] fix: site loop without X in a template function was not
 transformed

---
 hilapp/src/function_contains_loop_visitor.cpp | 19 +++++++++++++++++--
 hilapp/src/toplevelvisitor.cpp                |  3 ---
 hilapp/src/toplevelvisitor.h                  |  3 +++
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/hilapp/src/function_contains_loop_visitor.cpp b/hilapp/src/function_contains_loop_visitor.cpp
index d39e23b..ae7e933 100644
--- a/hilapp/src/function_contains_loop_visitor.cpp
+++ b/hilapp/src/function_contains_loop_visitor.cpp
@@ -11,6 +11,8 @@
 ///   - Find if it contains X (X_index_type), which appears inside loops
 ///   - Find if it has Field[Parity] -stmt.  This can appear without X in
 ///      statemets like  f[EVEN] = 1;  etc.
+///   - Find if it has an onsites()-loop.  This can appear without X, e.g. if the loop body only
+///      accumulates a reduction variable
 ///
 //////////////////////////////////////////////////////////////////////////////
 
@@ -24,11 +26,12 @@ class containsSiteLoopChecker : public GeneralVisitor,
     bool found_field_parity;
     bool found_field;
     bool found_field_coordinate;
+    bool found_onsites;
     bool searching_for_field;
 
     template <typename visitortype>
     containsSiteLoopChecker(visitortype &v, bool fieldsearch) : GeneralVisitor(v) {
-        found_field = found_X = found_field_parity = found_field_coordinate = false;
+        found_field = found_X = found_field_parity = found_field_coordinate = found_onsites = false;
         searching_for_field = fieldsearch;
     }
 
@@ -62,6 +65,17 @@ class containsSiteLoopChecker : public GeneralVisitor,
         }
         return true;
     }
+
+    bool VisitForStmt(ForStmt *f) {
+        SourceLocation startloc = f->getSourceRange().getBegin();
+        if (startloc.isMacroID() &&
+            myCompilerInstance->getPreprocessor().getImmediateMacroName(startloc) ==
+                site_loop_name) {
+            found_onsites = true;
+            return false;
+        }
+        return true;
+    }
 };
 
 ///////////////////////////////////////////////////////////////////////////////////
@@ -73,7 +87,8 @@ bool TopLevelVisitor::does_function_contain_field_access(FunctionDecl *f) {
     if (f->hasBody()) {
         containsSiteLoopChecker flc(*this, false);
         flc.TraverseStmt(f->getBody());
-        return (flc.found_X || flc.found_field_parity || flc.found_field_coordinate);
+        return (flc.found_X || flc.found_field_parity || flc.found_field_coordinate ||
+                flc.found_onsites);
     }
     return false;
 }
diff --git a/hilapp/src/toplevelvisitor.cpp b/hilapp/src/toplevelvisitor.cpp
index b8d37d8..2a92e58 100644
--- a/hilapp/src/toplevelvisitor.cpp
+++ b/hilapp/src/toplevelvisitor.cpp
@@ -31,9 +31,6 @@ std::string print_TemplatedKind(const enum FunctionDecl::TemplatedKind kind) {
     }
 }
 
-/// string for the loop call name
-static const std::string site_loop_name("onsites");
-
 /// Check the validity a variable reference in a loop
 bool FieldRefChecker::VisitDeclRefExpr(DeclRefExpr *e) {
     // It must be declared already. Get the declaration and check
diff --git a/hilapp/src/toplevelvisitor.h b/hilapp/src/toplevelvisitor.h
index 2478a89..3c7af33 100644
--- a/hilapp/src/toplevelvisitor.h
+++ b/hilapp/src/toplevelvisitor.h
@@ -24,6 +24,9 @@
 ///
 //////////////////////////////////////////////
 
+/// string for the loop call name
+static const std::string site_loop_name("onsites");
+
 // a hack to allow for calling of top level functions through a global ptr.
 
 class TopLevelVisitor;
-- 
2.43.0


From b75cdf26336d4150ed7be6c3d72b68c53b58df37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 20/57] fix: field written in a conditional branch was not read
 before the loop

---
 hilapp/src/toplevelvisitor.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hilapp/src/toplevelvisitor.cpp b/hilapp/src/toplevelvisitor.cpp
index 2a92e58..2813ab0 100644
--- a/hilapp/src/toplevelvisitor.cpp
+++ b/hilapp/src/toplevelvisitor.cpp
@@ -1364,6 +1364,10 @@ bool TopLevelVisitor::handle_loop_body_stmt(Stmt *s) {
 
         TraverseStmt(s);
 
+        // Flag general conditional execution
+        if (!isa<CompoundStmt>(s))
+            loop_info.has_conditional = true;
+
         // check also the conditionals - are these site dependent?
         if (!loop_info.has_site_dependent_cond_or_index) {
             Expr *condexpr = nullptr;
@@ -1385,9 +1389,6 @@ bool TopLevelVisitor::handle_loop_body_stmt(Stmt *s) {
                     is_site_dependent(condexpr, &loop_info.conditional_vars);
                 if (loop_info.has_site_dependent_cond_or_index)
                     loop_info.condExpr = condexpr;
-
-                // Flag general cond expression
-                loop_info.has_conditional = true;
             }
         }
 
-- 
2.43.0


From c92b23d2c78b5fd021c80e38cde69d04786ce3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 21/57] fix: SiteValueSelect overwrote the value of the
 previous site before checking for a repeated selection

---
 libraries/plumbing/site_select.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libraries/plumbing/site_select.h b/libraries/plumbing/site_select.h
index 3de66df..a6b9fee 100644
--- a/libraries/plumbing/site_select.h
+++ b/libraries/plumbing/site_select.h
@@ -292,8 +292,9 @@ class SiteValueSelect : public SiteSelect {
     }
 
     void select_site_value(const SiteIndex s, const T &val) {
-        values[current_index] = val;
+        // select_site() finds out if this is a new selection for the same site
         SiteSelect::select_site(s);
+        values[current_index - 1] = val;
     }
 
 
-- 
2.43.0


From 10452c9fc446c48f634818890de4a53d01583327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 22/57] fix: config_read accepted zero, negative and truncated
 lattice sizes

---
 libraries/plumbing/gaugefield.h     | 2 +-
 libraries/plumbing/plaquettefield.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/plumbing/gaugefield.h b/libraries/plumbing/gaugefield.h
index 1484a6f..2312336 100644
--- a/libraries/plumbing/gaugefield.h
+++ b/libraries/plumbing/gaugefield.h
@@ -252,8 +252,8 @@ class GaugeField {
         if (ok && hila::myrank() == 0) {
             foralldir (d) {
                 inputfile.read(reinterpret_cast<char *>(&f), sizeof(int64_t));
+                ok = ok && f > 0 && lattice.size(d) % f == 0;
                 insize[d] = f;
-                ok = ok && (lattice.size(d) % insize[d] == 0);
                 if (!ok)
                     hila::out0 << conferr << "incorrect lattice dimension " << hila::prettyprint(d)
                                << " is " << f << " should be (or divide)" << lattice.size(d)
diff --git a/libraries/plumbing/plaquettefield.h b/libraries/plumbing/plaquettefield.h
index 371c544..b0aed81 100644
--- a/libraries/plumbing/plaquettefield.h
+++ b/libraries/plumbing/plaquettefield.h
@@ -191,8 +191,8 @@ class PlaquetteField {
 
             foralldir(d) {
                 inputfile.read(reinterpret_cast<char *>(&f), sizeof(int64_t));
+                ok = ok && f > 0 && lattice.size(d) % f == 0;
                 insize[d] = f;
-                ok = ok && (lattice.size(d) % insize[d] == 0);
                 if (!ok)
                     hila::out0 << conferr << "incorrect lattice dimension " << hila::prettyprint(d)
                                << " is " << f << " should be (or divide) " << lattice.size(d) << '\n';
-- 
2.43.0


From e3dd158ef553b5a75dfdc878e27f1a36d9c578dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 23/57] fix: block_by_factor reused lattices blocked from
 another parent

---
 libraries/plumbing/lattice.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/plumbing/lattice.cpp b/libraries/plumbing/lattice.cpp
index 0c79a1b..9d11132 100644
--- a/libraries/plumbing/lattice.cpp
+++ b/libraries/plumbing/lattice.cpp
@@ -1075,7 +1075,7 @@ lattice_struct *lattice_struct::block_by_factor(const CoordinateVector &blocking
     hila::synchronize();
 
     for (auto *l : hila::defined_lattices) {
-        if (l->l_size == blockvol) {
+        if (l->l_size == blockvol && (l == this || l->parent == this)) {
             lattice.switch_to(l);
             return l;
         }
-- 
2.43.0


From 09746db125b5d4f8c3602f361e57f0f34bc3cb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 24/57] fix: block_gauge failed when the blocking factor is 1

---
 libraries/plumbing/gaugefield.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libraries/plumbing/gaugefield.h b/libraries/plumbing/gaugefield.h
index 2312336..947a226 100644
--- a/libraries/plumbing/gaugefield.h
+++ b/libraries/plumbing/gaugefield.h
@@ -284,6 +284,15 @@ class GaugeField {
         lattice_struct *parentlat = parent[e_x].fs->mylattice.ptr();
         lattice_struct *currentlat = lattice.ptr();
 
+        if (blocklat == parentlat) {
+            // No blocking, just copy
+            lattice.switch_to(blocklat);
+            foralldir (d)
+                (*this)[d] = parent[d];
+            lattice.switch_to(currentlat);
+            return;
+        }
+
         assert(blocklat->parent == parentlat && "blocking must happen from parent lattice Field");
 
         // alloc temp array, size of the blocked lattice
-- 
2.43.0


From 2621f94e472205263b71c1232c3958f9a368bdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 25/57] fix: unblock_to failed when the blocking factor is 1
 and skipped nodes without blocked sites

---
 libraries/plumbing/field_comm.h | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/libraries/plumbing/field_comm.h b/libraries/plumbing/field_comm.h
index 172d05d..f00f100 100644
--- a/libraries/plumbing/field_comm.h
+++ b/libraries/plumbing/field_comm.h
@@ -1383,20 +1383,19 @@ void Field<T>::unblock_to(Field<T> &target) const {
     lattice_struct *currentlat = lattice.ptr();
     lattice_struct *parentlat = blocklat->parent;
 
-    assert((!target.is_allocated() || target.fs->mylattice.ptr() == parentlat) &&
-           "unblocking must happen to parent lattice Field");
-
-    if (blocklat == parentlat) {
-        // just a straight copy in this case
+    if (parentlat == nullptr ||
+        (target.is_allocated() && target.fs->mylattice.ptr() == blocklat)) {
+        // not blocked, just a straight copy in this case
         lattice.switch_to(blocklat);
         target = *this;
         lattice.switch_to(currentlat);
         return;
     }
 
-    // If no sites on this node there's nothing to do
-    if (blocklat->mynode.volume == 0)
-        return;
+    assert((!target.is_allocated() || target.fs->mylattice.ptr() == parentlat) &&
+           "unblocking must happen to parent lattice Field");
+
+    // NOTE: nodes without blocked sites must go through this too, target changes on all nodes
 
     // alloc temp array, size of the blocked lattice
     size_t bufsize = blocklat->mynode.volume;
@@ -1448,9 +1447,7 @@ void Field<T>::block_to_current_lattice() {
     assert(currentlat->parent == thislat &&
            "blocking must happen to the next lattice blocked from thislat");
 
-    // If no sites on this node there's nothing to do
-    if (currentlat->mynode.volume == 0)
-        return;
+    // NOTE: nodes without blocked sites must go through this too, the lattice of the field changes
 
     // alloc temp array, size of the blocked lattice
     size_t bufsize = currentlat->mynode.volume;
-- 
2.43.0


From 2ab7c7d737f2aecbf4f2a4b8492c69815400c2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 26/57] fix: Complex /= with a reference to its own real part

---
 libraries/datatypes/cmplx.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/datatypes/cmplx.h b/libraries/datatypes/cmplx.h
index aa6869a..b626ebd 100644
--- a/libraries/datatypes/cmplx.h
+++ b/libraries/datatypes/cmplx.h
@@ -503,7 +503,7 @@ class Complex {
      * @return Complex<T>&
      */
     template <typename A, std::enable_if_t<hila::is_assignable<Complex<T> &, A>::value, int> = 0>
-    inline Complex<T> &operator/=(const A &lhs) & {
+    inline Complex<T> &operator/=(const A lhs) & {
         if constexpr (hila::is_complex<A>::value) {
 
             T m = 1.0 / max(::abs(lhs.re), ::abs(lhs.im));
-- 
2.43.0


From 2d085fa628c960d63be4262d0b83bc425ae87d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:13 +0000
Subject: [PATCH 27/57] fix: Matrix += scalar with a reference to an element of
 the same matrix

---
 libraries/datatypes/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/datatypes/matrix.h b/libraries/datatypes/matrix.h
index a049a20..d3b5011 100644
--- a/libraries/datatypes/matrix.h
+++ b/libraries/datatypes/matrix.h
@@ -810,7 +810,7 @@ class Matrix_t {
      */
     template <typename S,
               std::enable_if_t<hila::is_assignable<T &, hila::type_plus<T, S>>::value, int> = 0>
-    auto &operator+=(const S &rhs) & {
+    auto &operator+=(const S rhs) & {
 
         static_assert(n == m, "rows != columns : scalar addition possible for square matrix only!");
 
-- 
2.43.0


From 9c3c1fcc0978e857a765da92565639e70f668a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:13 +0000
Subject: [PATCH 28/57] fix: DiagonalMatrix assignment operators with a
 reference to an own element; const transpose

---
 libraries/datatypes/diagonal_matrix.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libraries/datatypes/diagonal_matrix.h b/libraries/datatypes/diagonal_matrix.h
index ad3059a..0122cd1 100644
--- a/libraries/datatypes/diagonal_matrix.h
+++ b/libraries/datatypes/diagonal_matrix.h
@@ -154,7 +154,7 @@ class DiagonalMatrix {
     // Assign from "scalar"
 
     template <typename S, std::enable_if_t<hila::is_assignable<T &, S>::value, int> = 0>
-    inline DiagonalMatrix &operator=(const S &rhs) out_only & {
+    inline DiagonalMatrix &operator=(const S rhs) out_only & {
 
         for (int i = 0; i < n; i++) {
             c[i] = rhs;
@@ -187,7 +187,7 @@ class DiagonalMatrix {
 
 
     template <typename S, std::enable_if_t<hila::is_assignable<T &, S>::value, int> = 0>
-    DiagonalMatrix &operator+=(const S &rhs) & {
+    DiagonalMatrix &operator+=(const S rhs) & {
         for (int i = 0; i < n; i++) {
             c[i] += rhs;
         }
@@ -206,7 +206,7 @@ class DiagonalMatrix {
 
 
     template <typename S, std::enable_if_t<hila::is_assignable<T &, S>::value, int> = 0>
-    DiagonalMatrix &operator-=(const S &rhs) & {
+    DiagonalMatrix &operator-=(const S rhs) & {
         for (int i = 0; i < n; i++) {
             c[i] -= rhs;
         }
@@ -227,7 +227,7 @@ class DiagonalMatrix {
 
     template <typename S,
               std::enable_if_t<hila::is_assignable<T &, hila::type_mul<T, S>>::value, int> = 0>
-    DiagonalMatrix &operator*=(const S &rhs) & {
+    DiagonalMatrix &operator*=(const S rhs) & {
         for (int i = 0; i < n; i++) {
             c[i] *= rhs;
         }
@@ -248,7 +248,7 @@ class DiagonalMatrix {
 
     template <typename S,
               std::enable_if_t<hila::is_assignable<T &, hila::type_div<T, S>>::value, int> = 0>
-    DiagonalMatrix &operator/=(const S &rhs) & {
+    DiagonalMatrix &operator/=(const S rhs) & {
         for (int i = 0; i < n; i++) {
             c[i] /= rhs;
         }
@@ -269,7 +269,7 @@ class DiagonalMatrix {
     /**
      * @brief transpose - leaves diagonal matrix as is
      */
-    DiagonalMatrix &transpose() const {
+    const DiagonalMatrix &transpose() const {
         return *this;
     }
 
-- 
2.43.0


From 6251c6b44cd2eab4ee0757a7efdf27e516b1b411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:13 +0000
Subject: [PATCH 29/57] fix: result type of DiagonalMatrix times or divided by
 a non-square matrix

---
 libraries/datatypes/diagonal_matrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libraries/datatypes/diagonal_matrix.h b/libraries/datatypes/diagonal_matrix.h
index 0122cd1..60f0222 100644
--- a/libraries/datatypes/diagonal_matrix.h
+++ b/libraries/datatypes/diagonal_matrix.h
@@ -773,7 +773,7 @@ inline Rtype operator-(const Mtype &b, const DiagonalMatrix<n, T> &a) {
 // multiply by matrix
 
 template <int n, typename T, typename Mtype, std::enable_if_t<Mtype::is_matrix(), int> = 0,
-          typename Rtype = hila::mat_x_mat_type<Matrix<n, n, T>, Mtype>>
+          typename Rtype = hila::mat_x_mat_type<Matrix<Mtype::rows(), Mtype::columns(), T>, Mtype>>
 inline Rtype operator*(const DiagonalMatrix<n, T> &a, const Mtype &b) {
 
     constexpr int mr = Mtype::rows();
@@ -789,7 +789,7 @@ inline Rtype operator*(const DiagonalMatrix<n, T> &a, const Mtype &b) {
 }
 
 template <int n, typename T, typename Mtype, std::enable_if_t<Mtype::is_matrix(), int> = 0,
-          typename Rtype = hila::mat_x_mat_type<Matrix<n, n, T>, Mtype>>
+          typename Rtype = hila::mat_x_mat_type<Matrix<Mtype::rows(), Mtype::columns(), T>, Mtype>>
 inline Rtype operator*(const Mtype &b, const DiagonalMatrix<n, T> &a) {
 
     constexpr int mr = Mtype::rows();
@@ -806,7 +806,7 @@ inline Rtype operator*(const Mtype &b, const DiagonalMatrix<n, T> &a) {
 
 // division
 template <int n, typename T, typename Mtype, std::enable_if_t<Mtype::is_matrix(), int> = 0,
-          typename Rtype = hila::mat_x_mat_type<Matrix<n, n, T>, Mtype>>
+          typename Rtype = hila::mat_x_mat_type<Matrix<Mtype::rows(), Mtype::columns(), T>, Mtype>>
 inline Rtype operator/(const Mtype &b, const DiagonalMatrix<n, T> &a) {
 
     constexpr int mr = Mtype::rows();
-- 
2.43.0


From 704ab8ed3442ffe716e8d80ddf300323d95d8499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:13 +0000
Subject: [PATCH 30/57] fix: DiagonalMatrix of integers truncated its norm to
 an integer

---
 libraries/datatypes/diagonal_matrix.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libraries/datatypes/diagonal_matrix.h b/libraries/datatypes/diagonal_matrix.h
index 60f0222..228ce49 100644
--- a/libraries/datatypes/diagonal_matrix.h
+++ b/libraries/datatypes/diagonal_matrix.h
@@ -374,10 +374,18 @@ class DiagonalMatrix {
         return res;
     }
 
+    template <typename S = T,
+              std::enable_if_t<hila::is_floating_point<hila::arithmetic_type<S>>::value, int> = 0>
     hila::arithmetic_type<T> norm() const {
         return sqrt(squarenorm());
     }
 
+    template <typename S = T,
+              std::enable_if_t<!hila::is_floating_point<hila::arithmetic_type<S>>::value, int> = 0>
+    double norm() const {
+        return sqrt(static_cast<double>(squarenorm()));
+    }
+
     /**
      * @brief Fills Matrix with random elements
      * @details Works only for non-integer valued elements
-- 
2.43.0


From e1e3a98f78c2e8dc75b3aa2623760fecb4232cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:30 +0000
Subject: [PATCH 31/57] fix: determinant of integer matrices of size 5 and
 larger

---
 libraries/datatypes/matrix_linalg.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libraries/datatypes/matrix_linalg.h b/libraries/datatypes/matrix_linalg.h
index 37c2f95..08896fc 100644
--- a/libraries/datatypes/matrix_linalg.h
+++ b/libraries/datatypes/matrix_linalg.h
@@ -852,13 +852,14 @@ T Matrix_t<n, m, T, Mtype>::det_lu() const {
 
 /**
  * @brief determinant function - if matrix size is < 5, use Laplace, otherwise LU
+ * @details LU needs division: integer matrices use Laplace at all sizes
  */
 
 #pragma hila novector
 template <int n, int m, typename T, typename Mtype>
 T Matrix_t<n, m, T, Mtype>::det() const {
     static_assert(n == m, "Determinant only for square matrix");
-    if constexpr (n < 5)
+    if constexpr (n < 5 || !hila::is_floating_point<hila::arithmetic_type<T>>::value)
         return this->det_laplace();
     else
         return this->det_lu();
-- 
2.43.0


From 65134d2cacf8e60a2caa425ddc56837503cbc833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 32/57] fix: product of two U1 variables used an operator that
 does not exist

---
 libraries/datatypes/u1.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/datatypes/u1.h b/libraries/datatypes/u1.h
index 7980869..c9a1501 100644
--- a/libraries/datatypes/u1.h
+++ b/libraries/datatypes/u1.h
@@ -119,7 +119,7 @@ inline T imag(const U1<T> arg) {
 /// and U1*U1
 template <typename T>
 inline U1<T> operator*(U1<T> a, const U1<T> b) {
-    a += b;
+    a *= b;
     return a;
 }
 
-- 
2.43.0


From 3a1fbf9fbe0af0006beb78ed972a7ea878b55050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:24 +0000
Subject: [PATCH 33/57] fix: exponential of SU2 multiplied uninitialized
 components

---
 libraries/datatypes/su2.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libraries/datatypes/su2.h b/libraries/datatypes/su2.h
index f166fc6..1fe7d37 100644
--- a/libraries/datatypes/su2.h
+++ b/libraries/datatypes/su2.h
@@ -246,9 +246,9 @@ class SU2 {
         T ed = ::exp(d);
         T sr = ed * ::sin(r) / r;
         ret.d = ed * ::cos(r);
-        ret.a *= sr;
-        ret.b *= sr;
-        ret.c *= sr;
+        ret.a = sr * a;
+        ret.b = sr * b;
+        ret.c = sr * c;
         return ret;
     }
 
-- 
2.43.0


From e2650d735f70dfde1837a4c18f5b1c3b44734c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:24 +0000
Subject: [PATCH 34/57] fix: assignment of an initializer list to SU2 did not
 return a value

---
 libraries/datatypes/su2.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libraries/datatypes/su2.h b/libraries/datatypes/su2.h
index 1fe7d37..e1f9e9b 100644
--- a/libraries/datatypes/su2.h
+++ b/libraries/datatypes/su2.h
@@ -120,6 +120,7 @@ class SU2 {
         b = *(it++);
         c = *(it++);
         d = *(it);
+        return *this;
     }
 #pragma hila loop_function
     /// assign from 'scalar'
-- 
2.43.0


From b8b1c8c33b899aa95fd7b5c356b2e74d6ec4154d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:24 +0000
Subject: [PATCH 35/57] fix: project_to_algebra_bilinear of a matrix of
 matrices contracted transposed indices

---
 libraries/datatypes/sun_matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/datatypes/sun_matrix.h b/libraries/datatypes/sun_matrix.h
index 2f82160..b896589 100644
--- a/libraries/datatypes/sun_matrix.h
+++ b/libraries/datatypes/sun_matrix.h
@@ -716,7 +716,7 @@ void project_to_algebra_bilinear(const MT (&w)[N][N],
             for (auto el1 = gen1.c; el1 != gen1.c + gen1.size; ++el1) {
                 for (auto el2 = gen2.c; el2 != gen2.c + gen2.size; ++el2) {
                     temp +=
-                        real(el1->val * w[el2->ind1][el2->ind2].e(el1->ind2, el1->ind1) * el2->val);
+                        real(el1->val * w[el2->ind2][el2->ind1].e(el1->ind2, el1->ind1) * el2->val);
                 }
             }
             omat.e(i1, i2) = -2.0 * temp;
-- 
2.43.0


From 9bd5a72e4d13532bd697af239ffd87344e1eefe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:50 +0000
Subject: [PATCH 36/57] fix: subtracting an unsigned number from
 ExtendedPrecision wrapped around

Also the comparisons, which use the difference
---
 libraries/datatypes/extended.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libraries/datatypes/extended.h b/libraries/datatypes/extended.h
index 0a47936..cd4bee6 100644
--- a/libraries/datatypes/extended.h
+++ b/libraries/datatypes/extended.h
@@ -121,7 +121,8 @@ class ExtendedPrecision {
 
     template <typename T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0>
     inline const ExtendedPrecision &operator-=(const T &rhs) {
-        return *this += -rhs;
+        // convert before negating: -rhs wraps for unsigned types
+        return *this += -static_cast<double>(rhs);
     }
 
     template <typename T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0>
@@ -232,7 +233,8 @@ inline ExtendedPrecision operator+(ExtendedPrecision a, const ExtendedPrecision
 // -
 template <typename A, typename B, std::enable_if_t<hila::AorB_extended<A, B>::value, int> = 0>
 inline ExtendedPrecision operator-(const A &a, const B &b) {
-    return a + (-b);
+    // convert before negating: -b wraps for unsigned types
+    return a + (-ExtendedPrecision(b));
 }
 
 // *
-- 
2.43.0


From fab14c9a1cfc23668f21f05bf81a9c89dd899079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:50 +0000
Subject: [PATCH 37/57] fix: ExtendedPrecision times a large integer never
 finished

The search for the highest power of two overflowed in the type of the multiplier,
and the most negative value cannot be negated
---
 libraries/datatypes/extended.h | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/libraries/datatypes/extended.h b/libraries/datatypes/extended.h
index cd4bee6..3a3bc54 100644
--- a/libraries/datatypes/extended.h
+++ b/libraries/datatypes/extended.h
@@ -135,12 +135,14 @@ class ExtendedPrecision {
             *this = 0;
         } else {
             bool negative = (!std::is_unsigned<T>::value && (rhs < 0));
+            // use a wide unsigned type: negating or doubling may overflow in type T
+            uint64_t n = static_cast<uint64_t>(rhs);
             if (negative)
-                rhs = -rhs;
+                n = -n;
 
-            T mult = 1;
-            while (rhs % 2 == 0) {
-                rhs /= 2;
+            uint64_t mult = 1;
+            while (n % 2 == 0) {
+                n /= 2;
                 mult *= 2;
             }
 
@@ -151,11 +153,11 @@ class ExtendedPrecision {
 
             auto a = *this;
             // the rest is done by addition
-            // we add a rhs-1 times to *this, multiplying it by rhs
-            // in any case, factorize rhs as 2^n + 2^m + .. + 1  (rhs is odd)
-            while (rhs > 1) {
+            // we add a n-1 times to *this, multiplying it by n
+            // in any case, factorize n as 2^k + 2^m + .. + 1  (n is odd)
+            while (n > 1) {
                 mult = 1;
-                while (2 * mult < rhs) {
+                while (mult <= n / 2) {
                     mult *= 2;
                 }
                 ExtendedPrecision b;
@@ -165,7 +167,7 @@ class ExtendedPrecision {
                 b.compensation2 = a.compensation2 * mult;
 
                 *this += b;
-                rhs -= mult;
+                n -= mult;
             }
             if (negative) {
                 this->value = -this->value;
-- 
2.43.0


From 3c9b8f5a9c25ea34e25e54b0c1dea6a74ec9d480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:50 +0000
Subject: [PATCH 38/57] fix: reflection on an odd lattice size left the middle
 sites in place

---
 libraries/plumbing/fft_fftw_transform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/plumbing/fft_fftw_transform.h b/libraries/plumbing/fft_fftw_transform.h
index 3b80cb1..4f6b9b2 100644
--- a/libraries/plumbing/fft_fftw_transform.h
+++ b/libraries/plumbing/fft_fftw_transform.h
@@ -290,7 +290,7 @@ inline void hila_fft<cmplx_t>::reflect() {
         }
 
         // reflect
-        for (int j = 1; j < length / 2; j++) {
+        for (int j = 1; j < (length + 1) / 2; j++) {
             std::swap(buf[j], buf[length - j]);
         }
 
-- 
2.43.0


From e251af09b70cbaea7b49963da1db28a9c6fc4617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:50 +0000
Subject: [PATCH 39/57] fix: FFT and reflection with no active directions
 returned garbage

---
 libraries/plumbing/fft.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libraries/plumbing/fft.h b/libraries/plumbing/fft.h
index 84f6058..8e49540 100644
--- a/libraries/plumbing/fft.h
+++ b/libraries/plumbing/fft.h
@@ -337,7 +337,12 @@ class hila_fft {
             }
         }
 
-        save_result(result);
+        if (!first_dir) {
+            save_result(result);
+        } else if (&result != &input) {
+            // no active directions, there is nothing in the buffers
+            result = input;
+        }
 
         result.mark_changed(ALL);
     }
-- 
2.43.0


From 4d3582797ccac43a4cb7c73da85759aab488ae1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:37 +0000
Subject: [PATCH 40/57] fix: clusters of linked sites were joined without a
 link

Adjacent clusters of linked sites were merged even when no link connects them:
the links only selected the sites.
---
 libraries/plumbing/clusters.h | 52 +++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 9 deletions(-)

diff --git a/libraries/plumbing/clusters.h b/libraries/plumbing/clusters.h
index 60f5181..0d9446f 100644
--- a/libraries/plumbing/clusters.h
+++ b/libraries/plumbing/clusters.h
@@ -293,15 +293,8 @@ class Clusters {
     /// @param link[d][X] is non-zero if sites X and X + d are to be connected
     template <typename inttype, std::enable_if_t<std::is_integral<inttype>::value, int> = 0>
     void find(const VectorField<inttype> &link) {
-        assert_all_ranks_present();
-        Field<uint8_t> f{hila::Clusters::background};
-        foralldir (d) {
-            onsites (ALL) {
-                if (link[d][X] != 0 || link[d][X - d] != 0)
-                    f[X] = 1;
-            }
-        }
-        find(f);
+        make_labels(link);
+        classify();
     }
 
 
@@ -393,6 +386,47 @@ class Clusters {
         // hila::out0 << "cluster labels: " << i << " iterations\n";
     }
 
+    /// @brief make the Field of cluster labels from links, without counting the clusters
+    /// @param link - link[d][X] is non-zero if sites X and X + d are to be connected
+    /// @details sites without any links are background
+    template <typename inttype, std::enable_if_t<std::is_integral<inttype>::value, int> = 0>
+    void make_labels(const VectorField<inttype> &link) {
+
+        assert_all_ranks_present();
+
+        Field<uint8_t> f{hila::Clusters::background};
+        foralldir (d) {
+            onsites (ALL) {
+                if (link[d][X] != 0 || link[d][X - d] != 0)
+                    f[X] = 1;
+            }
+        }
+
+        labels[ALL] = set_cl_label(X.coordinates(), f[X]);
+
+        // sites take the smallest label of the sites they are linked to
+        int64_t changed;
+        do {
+            changed = 0;
+            foralldir (d) {
+                for (Parity par : {EVEN, ODD}) {
+                    // take away annoying warning with pragma
+                    #pragma hila safe_access(labels)
+                    onsites (par) {
+                        if (link[d][X] != 0 && labels[X] > labels[X + d]) {
+                            labels[X] = labels[X + d];
+                            changed += 1;
+                        }
+                        if (link[d][X - d] != 0 && labels[X] > labels[X - d]) {
+                            labels[X] = labels[X - d];
+                            changed += 1;
+                        }
+                    }
+                }
+            }
+        } while (changed > 0);
+    }
+
     /// @brief obtain const refence to cluster label Field var
     /// Clusters::find() must have been called before this
 
-- 
2.43.0


From c6a7330a85e8f8d07a34c0addb1bf2bee6fd55dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:59 +0000
Subject: [PATCH 41/57] fix: bin counts and mean wave numbers were kept when
 the binning was changed

With more bins than before k() and count() read past the end of the arrays
---
 libraries/plumbing/spectraldensity.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libraries/plumbing/spectraldensity.h b/libraries/plumbing/spectraldensity.h
index 1a9f5f9..d95ee42 100644
--- a/libraries/plumbing/spectraldensity.h
+++ b/libraries/plumbing/spectraldensity.h
@@ -98,9 +98,16 @@ class k_binning {
         par.binwidth = par.max / par.bins;
     }
 
+    /// Forget the bin info when the parameters change
+    void clear_bin_info() {
+        k_avg.clear();
+        bin_count.clear();
+    }
+
     /// Set number of bins in histogram
     k_binning &bins(int n) {
         assert(n > 0);
+        clear_bin_info();
         par.bins = n;
         par.bins_set = true;
         par.binwidth = par.max / par.bins;
@@ -114,6 +121,7 @@ class k_binning {
     /// Max value of k
     k_binning &k_max(double km) {
         assert(km > 0);
+        clear_bin_info();
         par.max = km;
         if (!par.bins_set) {
             par.bins = ceil(par.max / par.binwidth);
@@ -128,6 +136,7 @@ class k_binning {
 
     k_binning &binwidth(double w) {
         assert(w > 0);
+        clear_bin_info();
         par.binwidth = w;
         par.bins = ceil(par.max / w);
         par.max = par.binwidth * par.bins;
@@ -142,6 +151,7 @@ class k_binning {
     /// Bin quantity k^p
     k_binning &power(double p) {
         assert(p > 0);
+        clear_bin_info();
         par.power = p;
         return *this;
     }
-- 
2.43.0


From 6b1b5a759a8b03dcedeb22baf6ccfbd7b2607a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:59 +0000
Subject: [PATCH 42/57] fix: binwidth() was not updated when the maximum was
 changed with a fixed number of bins

---
 libraries/plumbing/spectraldensity.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libraries/plumbing/spectraldensity.h b/libraries/plumbing/spectraldensity.h
index d95ee42..2154f58 100644
--- a/libraries/plumbing/spectraldensity.h
+++ b/libraries/plumbing/spectraldensity.h
@@ -126,6 +126,8 @@ class k_binning {
         if (!par.bins_set) {
             par.bins = ceil(par.max / par.binwidth);
             par.max = par.binwidth * par.bins;
+        } else {
+            par.binwidth = par.max / par.bins;
         }
         return *this;
     }
-- 
2.43.0


From 14f7ee271dce7ac260a1e45c6c25498a46bab52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:47 +0000
Subject: [PATCH 43/57] fix: number of arguments was not checked for a flag at
 the end of the command line

---
 libraries/plumbing/cmdline.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/libraries/plumbing/cmdline.cpp b/libraries/plumbing/cmdline.cpp
index eed6ff2..a66c650 100644
--- a/libraries/plumbing/cmdline.cpp
+++ b/libraries/plumbing/cmdline.cpp
@@ -147,30 +147,21 @@ strvec cmdlinearguments::read_arg_vector(const char *flag) {
             // options
             *(p_ind++) = 1;
             i++;
-            if (i < myargc)
-                p = myargv[i];
-            else {
-                break;
-            }
             // Check if the string is a valid input
             // (Not of type ^-[a-zA-Z].*)
             // and push into vector uargs
-            while (!std::regex_match(p, forbidden_user_input)) {
+            while (i < myargc && !std::regex_match(myargv[i], forbidden_user_input)) {
                 *(p_ind++) = 1;
-                uargs.push_back(std::string(p));
+                uargs.push_back(std::string(myargv[i]));
                 i++;
                 n++;
-                if (i < myargc)
-                    p = myargv[i];
-                else
-                    break;
             }
 
             // If we stopped on another 'flag' for whatever
             // reason, set the current index to be removed
             // and compensate for the for loop increase in
             // i and p_ind
-            if (std::strcmp(p, flag) == 0) {
+            if (i < myargc && std::strcmp(myargv[i], flag) == 0) {
                 *(p_ind--) = 1;
                 i--;
             }
-- 
2.43.0


From 0d1c20db508896c7ff35ba78918f86eaabc7dbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:47 +0000
Subject: [PATCH 44/57] fix: values of an undeclared command line flag were not
 refused

---
 libraries/plumbing/cmdline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/plumbing/cmdline.cpp b/libraries/plumbing/cmdline.cpp
index a66c650..78d9a01 100644
--- a/libraries/plumbing/cmdline.cpp
+++ b/libraries/plumbing/cmdline.cpp
@@ -74,11 +74,11 @@ void cmdlinearguments::initialise_args(int argc0, char **argv0) {
 /// @return vector of arguments
 ////////////////////////////////////////////////////////////////////////////////
 strvec cmdlinearguments::values(const std::string &flag) {
-    strvec valvec = argmap[flag].val_strings;
     if (argmap.count(flag) == 0) {
         hila::out0 << "Flag '" << flag << "' is not recognized!\n";
         quit_with_help();
     }
+    strvec valvec = argmap[flag].val_strings;
 
     if (valvec.size() == 0) {
         hila::out0 << "\n\nFlag '" << flag << "' has no entries"
-- 
2.43.0


From 8d430382a0c64e9854d561da1049eb0a1836928c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:22 +0000
Subject: [PATCH 45/57] fix: purge of the memory pool called its own free() and
 terminated

---
 libraries/plumbing/memory_pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/plumbing/memory_pool.cpp b/libraries/plumbing/memory_pool.cpp
index 5538123..f848784 100644
--- a/libraries/plumbing/memory_pool.cpp
+++ b/libraries/plumbing/memory_pool.cpp
@@ -176,7 +176,7 @@ void hila::memory_pool::purge() {
 #endif // GPU_SHMEM
             }
 #else
-            free(it->ptr);
+            ::free(it->ptr);
 #endif // CUDA OR HIP
             p.total_size -= it->size;
 
-- 
2.43.0


From 6849c56b2d439a77f8822734b855563d2d782f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:53 +0000
Subject: [PATCH 46/57] fix: numbers in input files were accepted with garbage
 after them (1.5 or 1e3 as an int)

---
 libraries/plumbing/input.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libraries/plumbing/input.h b/libraries/plumbing/input.h
index b34af85..850109c 100644
--- a/libraries/plumbing/input.h
+++ b/libraries/plumbing/input.h
@@ -499,8 +499,9 @@ class input {
         ss >> val;
         if (ss.fail() || ss.bad())
             return false;
-        else
-            return true;
+        // the number must be the whole of the token
+        ss >> std::ws;
+        return ss.eof();
     }
 
     bool is_value(const std::string &s, std::string &val);
-- 
2.43.0


From a645d408d071c3ccef49f9a7f2d7b6f09ee795ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:53 +0000
Subject: [PATCH 47/57] fix: a missing string in an input file was read as the
 comma after it

---
 libraries/plumbing/input.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libraries/plumbing/input.cpp b/libraries/plumbing/input.cpp
index 173aa79..42bd3e8 100644
--- a/libraries/plumbing/input.cpp
+++ b/libraries/plumbing/input.cpp
@@ -341,7 +341,8 @@ void input::scan_cmdline(const std::string &key, int &end_of_key) {
 // a trivial function, useful for template
 bool input::is_value(const std::string &str, std::string &val) {
     val = remove_quotes(str);
-    return true;
+    // comma is a delimiter, not a string
+    return str != ",";
 }
 
 std::string input::remove_quotes(const std::string &val) {
-- 
2.43.0


From a9d07d471f9f47ecd73b708170498456a9c0e44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:09 +0000
Subject: [PATCH 48/57] fix: complex values in input files were not accepted as
 documented, (re,im) without spaces

---
 libraries/plumbing/input.cpp |  9 +++++++++
 libraries/plumbing/input.h   | 17 ++++++++++++-----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/libraries/plumbing/input.cpp b/libraries/plumbing/input.cpp
index 42bd3e8..4bd17d9 100644
--- a/libraries/plumbing/input.cpp
+++ b/libraries/plumbing/input.cpp
@@ -287,6 +287,15 @@ bool input::match_token(const std::string &tok) {
     return false;
 }
 
+// match_char returns true and consumes the next non-space character if it matches the argument
+
+bool input::match_char(char c) {
+    if (!remove_whitespace() || linebuffer[lb_start] != c)
+        return false;
+    lb_start++;
+    return true;
+}
+
 // require the (typically beginning of line) key for parameters
 
 bool input::handle_key(const std::string &key) {
diff --git a/libraries/plumbing/input.h b/libraries/plumbing/input.h
index 850109c..a5f3888 100644
--- a/libraries/plumbing/input.h
+++ b/libraries/plumbing/input.h
@@ -344,11 +344,17 @@ class input {
 
         if (hila::myrank() == 0 && no_error) {
             std::string tok;
-            T re, im;
-
-            no_error =
-                (match_token("(") && get_token(tok) && is_value(tok, re) && match_token(",") &&
-                 get_token(tok) && is_value(tok, im) && match_token(")"));
+            T re = 0, im = 0;
+
+            no_error = (match_char('(') && get_token(tok) && is_value(tok, re) &&
+                        match_token(",") && get_token(tok));
+            if (no_error) {
+                // ')' may follow the number without space in between
+                bool closed = tok.size() > 1 && tok.back() == ')';
+                if (closed)
+                    tok.pop_back();
+                no_error = is_value(tok, im) && (closed || match_token(")"));
+            }
             if (!no_error && speaking) {
                 hila::out << "Error: expecting complex value '(re,im)' after '" << label << "'\n";
             }
@@ -488,6 +494,7 @@ class input {
     bool peek_token(std::string &tok);
     bool get_token(std::string &tok);
     bool match_token(const std::string &tok);
+    bool match_char(char c);
 
     void scan_cmdline(const std::string &key, int &end_of_key);
 
-- 
2.43.0


From fe15f3224383cd69ff3771a2152196e58b435db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:09 +0000
Subject: [PATCH 49/57] fix: input opened again began with the rest of the
 previous file's line

---
 libraries/plumbing/input.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libraries/plumbing/input.cpp b/libraries/plumbing/input.cpp
index 4bd17d9..b91fb37 100644
--- a/libraries/plumbing/input.cpp
+++ b/libraries/plumbing/input.cpp
@@ -67,6 +67,9 @@ bool input::open(const std::string &file_name, bool use_cmdline, bool exit_on_er
 
                 if (inputfile.is_open()) {
                     is_initialized = true;
+                    // nothing is left from a file read earlier
+                    linebuffer.clear();
+                    lb_start = 0;
                     if (speaking)
                         hila::print_dashed_line("Reading file " + filename);
 
-- 
2.43.0


From 4461bbf8d4a635b8c0fdf572741e76fe61e3f0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:16 +0000
Subject: [PATCH 50/57] fix: single sample weight iteration returned an
 uninitialized value between checks

---
 libraries/tools/multicanonical.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/tools/multicanonical.cpp b/libraries/tools/multicanonical.cpp
index 575e902..6d7d2c4 100644
--- a/libraries/tools/multicanonical.cpp
+++ b/libraries/tools/multicanonical.cpp
@@ -623,7 +623,7 @@ bool iterate_weight_function_direct(Muca &muca, double OP) {
 /// @return boolean indicating whether the iteration is considered complete
 ////////////////////////////////////////////////////////////////////////////////
 bool iterate_weight_function_direct_single(Muca &muca, double OP) {
-    int continue_iteration;
+    bool continue_iteration = true;
     if_rank0() {
         int samples = muca.DI.sample_size;
         int N = muca.weights.size();
-- 
2.43.0


From 6ecf209d120c2642b45c61a022dadf554c53ba7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:16 +0000
Subject: [PATCH 51/57] fix: canonical weight iteration divided by zero if
 max_iters < 100

---
 libraries/tools/multicanonical.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/tools/multicanonical.cpp b/libraries/tools/multicanonical.cpp
index 6d7d2c4..2bd1a8d 100644
--- a/libraries/tools/multicanonical.cpp
+++ b/libraries/tools/multicanonical.cpp
@@ -825,7 +825,7 @@ bool iterate_weight_function_canonical(Muca &muca, double OP) {
             if (muca.CI.weight_update_count > muca.CI.max_iters)
                 continue_iteration = false;
             // print progress
-            if (muca.CI.weight_update_count % (muca.CI.max_iters / 100) == 0)
+            if (muca.CI.weight_update_count % std::max(muca.CI.max_iters / 100, 1) == 0)
                 printf("Muca: iteration %d / %d\n", muca.CI.weight_update_count, muca.CI.max_iters);
         }
     }
-- 
2.43.0


From 2ee66b899bd053026bdb6b25a80a35a83e172e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:26 +0000
Subject: [PATCH 52/57] fix: canonical weight iteration left the last bin
 unnormalized and without overcorrection

---
 libraries/tools/multicanonical.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/tools/multicanonical.cpp b/libraries/tools/multicanonical.cpp
index 2bd1a8d..e5ed152 100644
--- a/libraries/tools/multicanonical.cpp
+++ b/libraries/tools/multicanonical.cpp
@@ -764,7 +764,7 @@ bool iterate_weight_function_canonical(Muca &muca, double OP) {
             std::swap(muca.CI.noc_weights, muca.weights);
 
             // normalisation necesary if bins with different lengths
-            for (size_t i = 1; i < muca.CI.can_hist.size(); ++i) {
+            for (size_t i = 1; i <= muca.CI.can_hist.size(); ++i) {
                 double bin_width = muca.OP_bin_limits[i] - muca.OP_bin_limits[i - 1];
                 muca.CI.can_hist[i - 1] /= bin_width;
             }
@@ -812,7 +812,7 @@ bool iterate_weight_function_canonical(Muca &muca, double OP) {
                         muca.CI.noc_weights.size() * sizeof(muca.CI.noc_weights[0]));
             double C = muca.CI.OC_factor;
             double d0 = muca.OP_bin_limits[1] - muca.OP_bin_limits[0];
-            for (size_t i = 1; i < muca.weights.size(); ++i) {
+            for (size_t i = 1; i <= muca.weights.size(); ++i) {
                 double bin_width = muca.OP_bin_limits[i] - muca.OP_bin_limits[i - 1];
                 muca.weights[i - 1] +=
                     C * ::log((d0 / bin_width) * muca.CI.hits_nsum[i - 1] / muca.CI.hits_nsum[0]);
-- 
2.43.0


From a01605ab3c32b64487e2c56f665face77c5e3fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:48 +0000
Subject: [PATCH 53/57] fix: assignment from another reduction copied its
 communication in progress

---
 libraries/plumbing/reduction.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libraries/plumbing/reduction.h b/libraries/plumbing/reduction.h
index 9f1feac..8215609 100644
--- a/libraries/plumbing/reduction.h
+++ b/libraries/plumbing/reduction.h
@@ -176,6 +176,14 @@ class Reduction {
         return ret;
     }
 
+    /// Assignment from another reduction takes its value.  The status of the other reduction must not
+    /// be copied: its communication may be in progress
+    Reduction &operator=(Reduction &rhs) {
+        if (this != &rhs)
+            *this = rhs.value();
+        return *this;
+    }
+
     /// Compound operator += is used in reduction but can be used outside onsites too.
     /// returns void, unconventionally:
     /// these are used within site loops but their value is not well-defined.
-- 
2.43.0


From 42ff60a8d048b632e17040119c8dcf8b0dda07c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:48 +0000
Subject: [PATCH 54/57] fix: copies of an array reduction shared the
 communication in progress

---
 libraries/plumbing/reductionvector.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/libraries/plumbing/reductionvector.h b/libraries/plumbing/reductionvector.h
index 2483215..d36fc24 100644
--- a/libraries/plumbing/reductionvector.h
+++ b/libraries/plumbing/reductionvector.h
@@ -156,6 +156,24 @@ class ReductionVector {
     explicit ReductionVector(int size) : val(size, (T)0) {}
     explicit ReductionVector(int size, const T &v) : val(size, v) {}
 
+    /// Copies are taken only after the communication which is in progress has completed: copies must
+    /// not share a request
+    ReductionVector(const ReductionVector &rhs) {
+        *this = rhs;
+    }
+
+    ReductionVector &operator=(const ReductionVector &rhs) {
+        wait();
+        const_cast<ReductionVector &>(rhs).wait();
+        val = rhs.val;
+        is_allreduce_ = rhs.is_allreduce_;
+        is_nonblocking_ = rhs.is_nonblocking_;
+        is_delayed_ = rhs.is_delayed_;
+        delay_is_on = rhs.delay_is_on;
+        is_delayed_sum = rhs.is_delayed_sum;
+        return *this;
+    }
+
     /// Destructor cleans up communications if they are in progress
     ~ReductionVector() {
         wait();
-- 
2.43.0


From c2c1ad2048923c3b0b4f0e447cfb5083eeafe3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:12 +0000
Subject: [PATCH 55/57] fix: get_wloop_force and get_wloop_force_from_wl called
 functions that do not exist

---
 libraries/gauge/wilson_line_and_force.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/gauge/wilson_line_and_force.h b/libraries/gauge/wilson_line_and_force.h
index dc17d54..408e9b5 100644
--- a/libraries/gauge/wilson_line_and_force.h
+++ b/libraries/gauge/wilson_line_and_force.h
@@ -113,7 +113,7 @@ void get_wloop_force_from_wl(const GaugeField<group> &U, const std::vector<Direc
     foralldir(d1) {
         K[d1][ALL] = 0;
     }
-    get_wloop_froce_add(U, path, W, eps, K);
+    get_wloop_force_from_wl_add(U, path, W, eps, K);
 }
 
 template <typename group, typename atype = hila::arithmetic_type<group>>
@@ -161,7 +161,7 @@ void get_wloop_force(const GaugeField<group> &U, const std::vector<Direction> &p
     foralldir(d1) {
         K[d1][ALL] = 0;
     }
-    get_wloop_froce_add(U, path, eps, K);
+    get_wloop_force_add(U, path, eps, K);
 }
 
 
-- 
2.43.0


From 5f244999ff6339f683115eb03502cd7df83cac30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:22 +0000
Subject: [PATCH 56/57] fix: a sum of two actions referred to sliced temporary
 copies of them

---
 libraries/hmc/integrator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/hmc/integrator.h b/libraries/hmc/integrator.h
index 0184208..b000b12 100644
--- a/libraries/hmc/integrator.h
+++ b/libraries/hmc/integrator.h
@@ -72,7 +72,7 @@ class action_sum : public action_base {
 };
 
 /// Sum operator for creating an action_sum object
-action_sum operator+(action_base a1, action_base a2) {
+inline action_sum operator+(action_base &a1, action_base &a2) {
     action_sum sum(a1, a2);
     return sum;
 }
-- 
2.43.0


From 06af854e142f38f6cc1454ceb255763d14596148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:30 +0000
Subject: [PATCH 57/57] fix: continue in a site loop discarded what the site
 had written to fields

---
 hilapp/src/codegen_avx_new.cpp |  7 +++++++
 hilapp/src/codegen_cpu.cpp     | 20 ++++++++++++++++++++
 hilapp/src/toplevelvisitor.h   |  2 ++
 3 files changed, 29 insertions(+)

diff --git a/hilapp/src/codegen_avx_new.cpp b/hilapp/src/codegen_avx_new.cpp
index 257bb5b..9b0488e 100644
--- a/hilapp/src/codegen_avx_new.cpp
+++ b/hilapp/src/codegen_avx_new.cpp
@@ -707,6 +707,11 @@ std::string TopLevelVisitor::generate_code_avx(Stmt *S, bool semicolon_at_end, s
         loopBuf.remove(loopBuf.size() - 1, loopBuf.size() - 1);
     }
 
+    // 'continue' in the body jumps to the end of 'do {} while (false)', just before the setters
+    bool has_continue = contains_site_continue(S);
+    if (has_continue)
+        code << "do ";
+
     // Dump the main loop code here
     code << loopBuf.dump();
     if (semicolon_at_end)
@@ -717,6 +722,8 @@ std::string TopLevelVisitor::generate_code_avx(Stmt *S, bool semicolon_at_end, s
     if (!semicolon_at_end) {
         code << "}";
     }
+    if (has_continue)
+        code << " while (false);";
     code << "\n";
 
     // Add calls to setters
diff --git a/hilapp/src/codegen_cpu.cpp b/hilapp/src/codegen_cpu.cpp
index 25cec74..ac3cd09 100644
--- a/hilapp/src/codegen_cpu.cpp
+++ b/hilapp/src/codegen_cpu.cpp
@@ -11,6 +11,20 @@
 #include "toplevelvisitor.h"
 #include "stringops.h"
 
+/// Does the site loop body contain 'continue' which goes to the next site, i.e. is not in a loop
+/// inside the body?  The rest of the body is skipped but fields must still be written.
+bool TopLevelVisitor::contains_site_continue(Stmt *S) {
+    if (S == nullptr || isa<ForStmt>(S) || isa<WhileStmt>(S) || isa<DoStmt>(S) ||
+        isa<CXXForRangeStmt>(S) || isa<LambdaExpr>(S))
+        return false;
+    if (isa<ContinueStmt>(S))
+        return true;
+    for (Stmt *child : S->children())
+        if (contains_site_continue(child))
+            return true;
+    return false;
+}
+
 std::string TopLevelVisitor::generate_code_cpu(Stmt *S, bool semicolon_at_end, srcBuf &loopBuf,
                                                bool generate_wait_loops) {
     std::stringstream code;
@@ -318,10 +332,16 @@ std::string TopLevelVisitor::generate_code_cpu(Stmt *S, bool semicolon_at_end, s
     }
 
     // Dump the main loop code here
+    // 'continue' in the body jumps to the end of 'do {} while (false)', just before the setters
+    bool has_continue = contains_site_continue(S);
+    if (has_continue)
+        code << "do {\n";
     code << loopBuf.dump();
     if (semicolon_at_end)
         code << ";";
     code << "\n";
+    if (has_continue)
+        code << "} while (false);\n";
 
     // Add calls to setters
     for (field_info &l : field_info_list)
diff --git a/hilapp/src/toplevelvisitor.h b/hilapp/src/toplevelvisitor.h
index 3c7af33..8850aa9 100644
--- a/hilapp/src/toplevelvisitor.h
+++ b/hilapp/src/toplevelvisitor.h
@@ -241,6 +241,8 @@ class TopLevelVisitor : public GeneralVisitor, public RecursiveASTVisitor<TopLev
 
     /// Generate a header for starting communication and marking fields changed
     std::string generate_code_cpu(Stmt *S, bool semicolon_at_end, srcBuf &sb, bool generate_wait);
+    /// true if S contains 'continue' which goes to the next site
+    bool contains_site_continue(Stmt *S);
     std::string generate_code_gpu(Stmt *S, bool semicolon_at_end, srcBuf &sb, bool generate_wait);
     void generate_openacc_loop_header(std::stringstream &code);
     //   std::string generate_code_openacc(Stmt *S, bool semicolon_at_end, srcBuf &sb);
-- 
2.43.0

