From f8923a3f35a2bc3a6049a28b89c2a0d2dd0ce604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:35 +0000
Subject: [PATCH 01/52] fix: return *this from every assignment operator

Falling off the end of these functions is undefined; the compiled nblist extension crashed on every call at -O2.
---
 source/descriptor/mtp/include/mtpMRadial.h | 3 +++
 source/descriptor/mtp/src/mtpLevel.cc      | 2 ++
 source/descriptor/mtpr/include/basis.h     | 4 ++++
 source/descriptor/mtpr/src/mtpParam.cc     | 1 +
 source/nblist/include/binLinkedList.h      | 2 ++
 5 files changed, 12 insertions(+)

diff --git a/source/descriptor/mtp/include/mtpMRadial.h b/source/descriptor/mtp/include/mtpMRadial.h
index 86a3f2d..4970972 100644
--- a/source/descriptor/mtp/include/mtpMRadial.h
+++ b/source/descriptor/mtp/include/mtpMRadial.h
@@ -370,6 +370,7 @@ ChebyshevPoly<CoordType>& ChebyshevPoly<CoordType>::operator=(ChebyshevPoly&& rh
         rhs.deriv2xi = nullptr;
         rhs.deriv2r = nullptr;
     }    
+    return *this;
 }
 
 template <typename CoordType>
@@ -522,6 +523,7 @@ MtpQ<CoordType>& MtpQ<CoordType>::operator=(const MtpQ& rhs)
         this->result[ii] = rhs.result[ii];
         this->deriv2r[ii] = rhs.deriv2r[ii];
     }
+    return *this;
 }
 
 template <typename CoordType>
@@ -545,6 +547,7 @@ MtpQ<CoordType>& MtpQ<CoordType>::operator=(MtpQ&& rhs)
         rhs.result = nullptr;
         rhs.deriv2r = nullptr;
     }
+    return *this;
 }
 
 template <typename CoordType>
diff --git a/source/descriptor/mtp/src/mtpLevel.cc b/source/descriptor/mtp/src/mtpLevel.cc
index 7838d2f..13f60b0 100644
--- a/source/descriptor/mtp/src/mtpLevel.cc
+++ b/source/descriptor/mtp/src/mtpLevel.cc
@@ -45,6 +45,7 @@ MtpMCoeffPair& MtpMCoeffPair::operator=(const MtpMCoeffPair& rhs)
 {
     this->_coeff_pair = rhs._coeff_pair;
     this->_calc_level();
+    return *this;
 }
 
 void MtpMCoeffPair::_calc_level() 
@@ -97,6 +98,7 @@ MtpMCoeffPairCombs& MtpMCoeffPairCombs::operator=(const MtpMCoeffPairCombs& rhs)
 {
     this->_max_level = rhs._max_level;
     this->_coeff_pair_combs = rhs._coeff_pair_combs;
+    return *this;
 }
 
 /**
diff --git a/source/descriptor/mtpr/include/basis.h b/source/descriptor/mtpr/include/basis.h
index 15b33c3..d808c1e 100644
--- a/source/descriptor/mtpr/include/basis.h
+++ b/source/descriptor/mtpr/include/basis.h
@@ -250,6 +250,7 @@ RB_Chebyshev<CoordType>& RB_Chebyshev<CoordType>::operator=(const RB_Chebyshev&
 
         }
     }
+    return *this;
 }
 
 template <typename CoordType>
@@ -279,6 +280,7 @@ RB_Chebyshev<CoordType>& RB_Chebyshev<CoordType>::operator=(RB_Chebyshev&& rhs)
         rhs._ders2uu = nullptr;
         rhs._ders2r = nullptr;
     }
+    return *this;
 }
 
 template <typename CoordType>
@@ -468,6 +470,7 @@ RQ_Chebyshev<CoordType>& RQ_Chebyshev<CoordType>::operator=(const RQ_Chebyshev&
         this->_vals = nullptr;
         this->_ders2r = nullptr;
     }
+    return *this;
 }
 
 template <typename CoordType>
@@ -498,6 +501,7 @@ RQ_Chebyshev<CoordType>& RQ_Chebyshev<CoordType>::operator=(RQ_Chebyshev&& rhs)
         rhs._vals = nullptr;
         rhs._ders2r = nullptr;
     }
+    return *this;
 }
 
 template <typename CoordType>
diff --git a/source/descriptor/mtpr/src/mtpParam.cc b/source/descriptor/mtpr/src/mtpParam.cc
index 7e6ac14..a30a9f0 100644
--- a/source/descriptor/mtpr/src/mtpParam.cc
+++ b/source/descriptor/mtpr/src/mtpParam.cc
@@ -256,6 +256,7 @@ MtpParam& MtpParam::operator=(MtpParam&& rhs)
         rhs._alpha_moment_mapping = nullptr;
     }
 
+    return *this;
 }
 
 MtpParam::~MtpParam()
diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index 928507e..a93a9c6 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -257,6 +257,8 @@ BasicStructureInfo<CoordType>& BasicStructureInfo<CoordType>::operator=(const Ba
         this->interplanar_distances[1] = rhs.interplanar_distances[1];
         this->interplanar_distances[2] = rhs.interplanar_distances[2];
     }
+
+    return *this;
 }
 
 
-- 
2.43.0


From caca9ceadb828f61d17076f33a9b42e5b9f3f1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:35 +0000
Subject: [PATCH 02/52] fix: MtpParam move assignment takes over the times
 table, not the basic table twice

---
 source/descriptor/mtpr/src/mtpParam.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/descriptor/mtpr/src/mtpParam.cc b/source/descriptor/mtpr/src/mtpParam.cc
index a30a9f0..7ea5408 100644
--- a/source/descriptor/mtpr/src/mtpParam.cc
+++ b/source/descriptor/mtpr/src/mtpParam.cc
@@ -243,7 +243,7 @@ MtpParam& MtpParam::operator=(MtpParam&& rhs)
         this->_alpha_index_basic_count = rhs._alpha_index_basic_count;
         this->_alpha_index_basic = rhs._alpha_index_basic;
         this->_alpha_index_times_count = rhs._alpha_index_times_count;
-        this->_alpha_index_times = rhs._alpha_index_basic;
+        this->_alpha_index_times = rhs._alpha_index_times;
         this->_alpha_scalar_moments = rhs._alpha_scalar_moments;
         this->_alpha_moment_mapping = rhs._alpha_moment_mapping;
 
-- 
2.43.0


From 042dbd09d54f6098f4010b624fa3e7e82b2a2424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:35 +0000
Subject: [PATCH 03/52] fix: MtpParam copy assignment survives self-assignment
 and assignment from an empty object

---
 source/descriptor/mtpr/src/mtpParam.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/descriptor/mtpr/src/mtpParam.cc b/source/descriptor/mtpr/src/mtpParam.cc
index 7ea5408..1afbd47 100644
--- a/source/descriptor/mtpr/src/mtpParam.cc
+++ b/source/descriptor/mtpr/src/mtpParam.cc
@@ -177,17 +177,23 @@ MtpParam::MtpParam(MtpParam&& rhs)
 
 MtpParam& MtpParam::operator=(const MtpParam& rhs)
 {
+    if (this == &rhs)
+        return *this;
+
     this->_alpha_moments_count = 0;
     if (this->_alpha_index_basic_count != 0) {
         free(this->_alpha_index_basic);
+        this->_alpha_index_basic = nullptr;
         this->_alpha_index_basic_count = 0;
     }
     if (this->_alpha_index_times_count != 0) {
         free(this->_alpha_index_times);
+        this->_alpha_index_times = nullptr;
         this->_alpha_index_times_count = 0;
     }
     if (this->_alpha_scalar_moments != 0) {
         free(this->_alpha_moment_mapping);
+        this->_alpha_moment_mapping = nullptr;
         this->_alpha_scalar_moments = 0;
     }
 
-- 
2.43.0


From 590ca0fe163a375bb123b2e72c47fb321465e131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:35 +0000
Subject: [PATCH 04/52] fix: a default-constructed MtpQ owns no buffers

---
 source/descriptor/mtp/include/mtpMRadial.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/descriptor/mtp/include/mtpMRadial.h b/source/descriptor/mtp/include/mtpMRadial.h
index 4970972..ff4b511 100644
--- a/source/descriptor/mtp/include/mtpMRadial.h
+++ b/source/descriptor/mtp/include/mtpMRadial.h
@@ -122,8 +122,8 @@ private:
     int size_ = 0;
     MtpSwitchFunc2<CoordType> switch_func2;
     ChebyshevPoly<CoordType> chebyshev;
-    CoordType* result;
-    CoordType* deriv2r;
+    CoordType* result = nullptr;
+    CoordType* deriv2r = nullptr;
 };  // class : MtpQ
 
 
-- 
2.43.0


From 50e5b03ea4f78bb91a193a6b70d6e082e5ce009e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:35 +0000
Subject: [PATCH 05/52] fix: copy assignment leaves an object assigned to
 itself unchanged

---
 source/descriptor/deepmd/include/se.h      | 3 +++
 source/descriptor/mtp/include/mtpMRadial.h | 6 ++++++
 source/descriptor/mtpr/include/basis.h     | 6 ++++++
 source/nblist/include/binLinkedList.h      | 6 ++++++
 source/nblist/include/neighborList.h       | 3 +++
 source/nblist/include/structure.h          | 3 +++
 6 files changed, 27 insertions(+)

diff --git a/source/descriptor/deepmd/include/se.h b/source/descriptor/deepmd/include/se.h
index d7d7b9a..4db3cc7 100644
--- a/source/descriptor/deepmd/include/se.h
+++ b/source/descriptor/deepmd/include/se.h
@@ -1516,6 +1516,9 @@ TildeR<CoordType>::TildeR(const TildeR<CoordType>& rhs) {
  */
 template <typename CoordType>
 TildeR<CoordType>& TildeR<CoordType>::operator=(const TildeR<CoordType>& rhs) {
+    if (this == &rhs)
+        return *this;
+
     if (this->num_center_atomic_numbers != 0) {
         free(this->center_atomic_numbers_lst);
         free(this->num_center_atoms_lst);
diff --git a/source/descriptor/mtp/include/mtpMRadial.h b/source/descriptor/mtp/include/mtpMRadial.h
index ff4b511..662ed47 100644
--- a/source/descriptor/mtp/include/mtpMRadial.h
+++ b/source/descriptor/mtp/include/mtpMRadial.h
@@ -319,6 +319,9 @@ ChebyshevPoly<CoordType>::~ChebyshevPoly()
 template <typename CoordType>
 ChebyshevPoly<CoordType>& ChebyshevPoly<CoordType>::operator=(const ChebyshevPoly& rhs)
 {
+    if (this == &rhs)
+        return *this;
+
     if (this->size_ != 0) {
         this->size_ = 0;
         this->rcut = 0;
@@ -509,6 +512,9 @@ MtpQ<CoordType>::~MtpQ()
 template <typename CoordType>
 MtpQ<CoordType>& MtpQ<CoordType>::operator=(const MtpQ& rhs)
 {
+    if (this == &rhs)
+        return *this;
+
     if (this->size_ != 0) {
         this->size_ = 0;
         free(this->result);
diff --git a/source/descriptor/mtpr/include/basis.h b/source/descriptor/mtpr/include/basis.h
index d808c1e..8aa892a 100644
--- a/source/descriptor/mtpr/include/basis.h
+++ b/source/descriptor/mtpr/include/basis.h
@@ -226,6 +226,9 @@ RB_Chebyshev<CoordType>::RB_Chebyshev(RB_Chebyshev&& rhs)
 template <typename CoordType>
 RB_Chebyshev<CoordType>& RB_Chebyshev<CoordType>::operator=(const RB_Chebyshev& rhs)
 {
+    if (this == &rhs)
+        return *this;
+
     if (this->_size != 0) {
         free(this->_vals);
         free(this->_ders2uu);
@@ -444,6 +447,9 @@ RQ_Chebyshev<CoordType>::RQ_Chebyshev(RQ_Chebyshev&& rhs)
 template <typename CoordType>
 RQ_Chebyshev<CoordType>& RQ_Chebyshev<CoordType>::operator=(const RQ_Chebyshev& rhs)
 {
+    if (this == &rhs)
+        return *this;
+
     if (this->_size != 0) {
         delete this->_rb_ptr;
         free(this->_vals);
diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index a93a9c6..2f69c20 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -396,6 +396,9 @@ Supercell<CoordType>::Supercell(const Supercell &rhs) {
  */
 template <typename CoordType>
 Supercell<CoordType>& Supercell<CoordType>::operator=(const Supercell<CoordType> &rhs) {
+    if (this == &rhs)
+        return *this;
+
     if (this->num_atoms != 0) {
         free(this->owned_atom_idxs);
     }
@@ -744,6 +747,9 @@ BinLinkedList<CoordType>::BinLinkedList(const BinLinkedList<CoordType>& rhs) {
  */
 template <typename CoordType>
 BinLinkedList<CoordType>& BinLinkedList<CoordType>::operator=(const BinLinkedList<CoordType>& rhs) {
+    if (this == &rhs)
+        return *this;
+
     if (this->rcut != 0) {
         free(this->heads_lst);
         free(this->nexts_lst);
diff --git a/source/nblist/include/neighborList.h b/source/nblist/include/neighborList.h
index c87a24c..f3be963 100644
--- a/source/nblist/include/neighborList.h
+++ b/source/nblist/include/neighborList.h
@@ -208,6 +208,9 @@ NeighborList<CoordType>::NeighborList(const NeighborList<CoordType>& rhs) {
  */
 template <typename CoordType>
 NeighborList<CoordType>& NeighborList<CoordType>::operator=(const NeighborList<CoordType>& rhs) {
+    if (this == &rhs)
+        return *this;
+
     if (this->num_atoms != 0) {
         for (int ii=0; ii<num_atoms; ii++)
             this->neighbor_lists[ii].clear();
diff --git a/source/nblist/include/structure.h b/source/nblist/include/structure.h
index 8113817..6d0bb46 100644
--- a/source/nblist/include/structure.h
+++ b/source/nblist/include/structure.h
@@ -317,6 +317,9 @@ Structure<CoordType>::Structure(const Structure &rhs)
  */
 template <typename CoordType>
 Structure<CoordType>& Structure<CoordType>::operator=(const Structure &rhs) {
+    if (this == &rhs)
+        return *this;
+
     // Step 1. Free memory 
     if (this->num_atoms != 0) {
         // Step 1.1. `this->basis_vectors`
-- 
2.43.0


From 566db759356630b9a30419c243e5f3f0aa55a96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:47 +0000
Subject: [PATCH 06/52] fix: RB_Chebyshev and RQ_Chebyshev can be copied from
 an empty object

---
 source/descriptor/mtpr/include/basis.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/source/descriptor/mtpr/include/basis.h b/source/descriptor/mtpr/include/basis.h
index 8aa892a..bd9fb5f 100644
--- a/source/descriptor/mtpr/include/basis.h
+++ b/source/descriptor/mtpr/include/basis.h
@@ -231,8 +231,11 @@ RB_Chebyshev<CoordType>& RB_Chebyshev<CoordType>::operator=(const RB_Chebyshev&
 
     if (this->_size != 0) {
         free(this->_vals);
+        this->_vals = nullptr;
         free(this->_ders2uu);
+        this->_ders2uu = nullptr;
         free(this->_ders2r);
+        this->_ders2r = nullptr;
         this->_size = 0;
         this->_rmax = 0.0;
         this->_rmin = 0.0;
@@ -408,8 +411,9 @@ RQ_Chebyshev<CoordType>::RQ_Chebyshev(const RQ_Chebyshev& rhs)
     this->_rmax = rhs._rmax;
     this->_rmin = rhs._rmin;
     this->_switch_func = rhs._switch_func;
-    this->_rb_ptr = new RB_Chebyshev<CoordType>();
-    *(this->_rb_ptr) = *(rhs._rb_ptr);
+    this->_rb_ptr = nullptr;
+    if (rhs._rb_ptr != nullptr)
+        this->_rb_ptr = new RB_Chebyshev<CoordType>(*(rhs._rb_ptr));
     if (this->_size != 0) {
         this->_vals = (CoordType*)malloc(sizeof(CoordType) * this->_size);
         this->_ders2r = (CoordType*)malloc(sizeof(CoordType) * this->_size);
@@ -463,8 +467,9 @@ RQ_Chebyshev<CoordType>& RQ_Chebyshev<CoordType>::operator=(const RQ_Chebyshev&
     this->_rmax = rhs._rmax;
     this->_rmin = rhs._rmin;
     this->_switch_func = rhs._switch_func;
-    this->_rb_ptr = new RB_Chebyshev<CoordType>();
-    *(this->_rb_ptr) = *(rhs._rb_ptr);
+    this->_rb_ptr = nullptr;
+    if (rhs._rb_ptr != nullptr)
+        this->_rb_ptr = new RB_Chebyshev<CoordType>(*(rhs._rb_ptr));
     if (rhs._size != 0) {
         this->_vals = (CoordType*)malloc(sizeof(CoordType) * this->_size);
         this->_ders2r = (CoordType*)malloc(sizeof(CoordType) * this->_size);
-- 
2.43.0


From ea788a658c3a3227e2c4e1a44e7a693e46c56cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:35 +0000
Subject: [PATCH 07/52] fix: do not wrap neighbour bins around the supercell

The supercell already holds every image within the cutoff; wrapping a Cartesian bin axis by a lattice-direction
flag visited bins twice (duplicate neighbours, table overflow) when few bins lay along that axis.
---
 source/nblist/include/binLinkedList.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index 2f69c20..f83622c 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -941,13 +941,9 @@ int* BinLinkedList<CoordType>::get_neigh_bins(int prim_atom_idx) const {
                 
                 //printf("shift_index_%d = [%d, %d, %d]\n", neigh_bin_idx4loop, ii, jj, kk);
 
-                // Step 2.2. 处理 pbc (wrap around)
+                // Step 2.2. supercell 已包含 rcut 内的所有周期性镜像，无需 wrap around
                 for (int pp=0; pp<3; pp++) {
-                    if (this->pbc_xyz[pp] == false) {   // 无周期性
-                        neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp] = candidate_neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp];
-                    } else {
-                        neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp] = (candidate_neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp] + this->num_bin_xyz[pp] ) % this->num_bin_xyz[pp];                        
-                    }
+                    neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp] = candidate_neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp];
                 }
                 //printf("this->num_bins_xyz[%d][3] = [%d, %d, %d]\n", this->num_bin_xyz[0], this->num_bin_xyz[1], this->num_bin_xyz[2]);                
                 //printf("neigh_bin_idxs_xyz[%d][3] = [%d, %d, %d]\n", neigh_bin_idxs_xyz[neigh_bin_idx4loop][0], neigh_bin_idxs_xyz[neigh_bin_idx4loop][1], neigh_bin_idxs_xyz[neigh_bin_idx4loop][2]);
-- 
2.43.0


From 0700fd23c2d274fbfb43f495c905b4edeacc86dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:12 +0000
Subject: [PATCH 08/52] fix: a supercell's owned atoms are the original sites
 for even scaling factors too

make_supercell fills the cells z fastest; the owned-atom indices were counted x fastest.
---
 source/nblist/include/binLinkedList.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index f83622c..3ff61b8 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -492,8 +492,14 @@ void Supercell<CoordType>::calc_prim_cell_idx() {
  */
 template <typename CoordType>
 void Supercell<CoordType>::calc_owned_atom_idxs() {
+    // `make_supercell()` 中 z 方向变化最快
+    int filled_cell_idx = (
+                this->prim_cell_idx_xyz[2] + 
+                this->prim_cell_idx_xyz[1] * this->scaling_matrix[2] + 
+                this->prim_cell_idx_xyz[0] * this->scaling_matrix[2] * this->scaling_matrix[1]
+    );
     for (int ii=0; ii<this->prim_structure_info.num_atoms; ii++) {
-        this->owned_atom_idxs[ii] = this->prim_cell_idx * this->prim_structure_info.num_atoms + ii;
+        this->owned_atom_idxs[ii] = filled_cell_idx * this->prim_structure_info.num_atoms + ii;
     }
 }
 
-- 
2.43.0


From e8a56df4ce3d03d37ab116086839ab6c11512bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:34 +0000
Subject: [PATCH 09/52] fix: TildeR copy constructor allocates its
 atomic-number lists in full

---
 source/descriptor/deepmd/include/se.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/descriptor/deepmd/include/se.h b/source/descriptor/deepmd/include/se.h
index 4db3cc7..637bb4d 100644
--- a/source/descriptor/deepmd/include/se.h
+++ b/source/descriptor/deepmd/include/se.h
@@ -1485,12 +1485,12 @@ TildeR<CoordType>::TildeR(const TildeR<CoordType>& rhs) {
     this->neighbor_list = rhs.neighbor_list;
     
     this->num_center_atomic_numbers = rhs.num_center_atomic_numbers;
-    this->center_atomic_numbers_lst = (int*)malloc(sizeof(this->num_center_atomic_numbers));
+    this->center_atomic_numbers_lst = (int*)malloc(sizeof(int) * this->num_center_atomic_numbers);
     for (int ii=0; ii<this->num_center_atomic_numbers; ii++)
         this->center_atomic_numbers_lst[ii] = rhs.center_atomic_numbers_lst[ii];
     
     this->num_neigh_atomic_numbers = rhs.num_neigh_atomic_numbers;
-    this->neigh_atomic_numbers_lst = (int*)malloc(sizeof(this->num_neigh_atomic_numbers));
+    this->neigh_atomic_numbers_lst = (int*)malloc(sizeof(int) * this->num_neigh_atomic_numbers);
     for (int ii=0; ii<this->num_neigh_atomic_numbers; ii++)
         this->neigh_atomic_numbers_lst[ii] = rhs.neigh_atomic_numbers_lst[ii];
 
-- 
2.43.0


From abe3681840964f7ea04d8f01493c2c29e903d246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:20 +0000
Subject: [PATCH 10/52] fix: DStructure.from_str reads PWmat text

---
 matersdk/io/publicLayer/structure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index 4faaec4..45ca73b 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -89,9 +89,9 @@ class DStructure(Structure):
         if (str_format == "pwmat"):
             atom_config_str_extractor = ACstrExtractor(atom_config_str=str_content)
             structure = Structure(
-                            lattice=atom_config_str_extractor.basis_vectors_array,
-                            species=atom_config_str_extractor.species_array,
-                            coords=atom_config_str_extractor.coords_array,
+                            lattice=atom_config_str_extractor.get_basis_vectors().reshape(3, 3),
+                            species=atom_config_str_extractor.get_types(),
+                            coords=atom_config_str_extractor.get_coords().reshape(-1, 3),
                             coords_are_cartesian=coords_are_cartesian)
         else:
             raise ValueError("Note: Other format besides pwmat can't read now!!!")
-- 
2.43.0


From ece9693bd1e00be8a8b9b516fcec6836398ecd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:20 +0000
Subject: [PATCH 11/52] fix: reformat_elements keeps every atom at its own
 position

---
 matersdk/io/publicLayer/structure.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index 45ca73b..d006571 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -255,16 +255,16 @@ class DStructure(Structure):
         #print(new_species_lst)
         
         ### Step 2.3. `coords` and `coords_are_cartesian`
-        new_coords = self.frac_coords
+        new_coords = [tmp_site.frac_coords for tmp_site in new_sites_lst]
         new_coords_are_cartesian = False
         #print(new_coords)
         
         ### Step 2.4. `site_properties`
         new_site_properties = {}
         ### Step 2.4.1. `magmom`
-        new_magmom = [tmp_site.magmom for tmp_site in new_sites_lst]
-        
-        new_site_properties.update({"magmom": new_magmom})
+        if "magmom" in self.site_properties:
+            new_magmom = [tmp_site.magmom for tmp_site in new_sites_lst]
+            new_site_properties.update({"magmom": new_magmom})
         #print(new_site_properties)
         
         structure = DStructure(
-- 
2.43.0


From ffa3ea44ded3e74f55777a6e79a9a80c53afbb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:20 +0000
Subject: [PATCH 12/52] fix: remove_vacanies removes each vacancy once and
 nothing else

---
 matersdk/io/publicLayer/structure.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index d006571..7a39324 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -363,8 +363,7 @@ class DStructure(Structure):
             if str(site.specie) == "X0+":
                 remove_indexes_lst.append(tmp_idx)
     
-        for tmp_idx in remove_indexes_lst:
-            self.remove_sites(indices=remove_indexes_lst)
+        self.remove_sites(indices=remove_indexes_lst)
     
     
     def make_supercell_(self,
-- 
2.43.0


From 3782314202ea3b176e6df30592b6208503012d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:20 +0000
Subject: [PATCH 13/52] fix: get_natoms counts elements in ascending atomic
 number by default, as documented

---
 matersdk/io/publicLayer/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index 7a39324..11f9932 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -626,7 +626,7 @@ class DStructure(Structure):
             pass
         else:
             # list( dict_keys([3, 14]) )
-            atomic_numbers_order:List[int] = list( an_counter.keys() )
+            atomic_numbers_order:List[int] = sorted( an_counter.keys() )
             
         natoms:List[int] = [an_counter[tmp_an] for tmp_an in atomic_numbers_order]
         natoms.insert(0, self.num_sites)
-- 
2.43.0


From 84173bcede84d5963984c78868710bb1c4b86580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:20 +0000
Subject: [PATCH 14/52] fix: ACExtractor reads the file as it is now, not a
 cached older version

---
 matersdk/io/pwmat/utils/acextractor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/pwmat/utils/acextractor.py b/matersdk/io/pwmat/utils/acextractor.py
index fca462b..827c424 100644
--- a/matersdk/io/pwmat/utils/acextractor.py
+++ b/matersdk/io/pwmat/utils/acextractor.py
@@ -4,7 +4,6 @@
 2. ACEstrExtractor: Extract info from string of MOVEMENT
 '''
 import re
-import linecache
 import numpy as np
 from abc import ABC, abstractmethod
 from typing import List, Union, Optional
@@ -95,7 +94,8 @@ class ACExtractor(ACExtractorBase):
             1. 得到体系的总原子数目
         '''
         # atom.config 文件第一行综合描述这个体系
-        first_row = linecache.getline(self.atom_config_path, 1)
+        with open(self.atom_config_path, "r") as f:
+            first_row = f.readline()
         num_atoms = int( first_row.split()[0] )
         return num_atoms
 
@@ -122,8 +122,10 @@ class ACExtractor(ACExtractorBase):
                             content=content)[0]
 
         ### Step 2. 获取基矢向量
+        with open(self.atom_config_path, "r") as f:
+            atom_config_content = f.readlines()
         for row_idx in [idx_row+1, idx_row+2, idx_row+3]:
-            row_content:List[str] = linecache.getline(self.atom_config_path, row_idx).split()[:3]
+            row_content:List[str] = atom_config_content[row_idx-1].split()[:3]
             
             for value in row_content:
                 basis_vectors.append(float(value))
-- 
2.43.0


From 8ad158cbc89b460adba691d37e20a877f254ac41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:20 +0000
Subject: [PATCH 15/52] fix: ACstrExtractor.get_magmoms finds the magnetic
 section

---
 matersdk/io/pwmat/utils/acextractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/pwmat/utils/acextractor.py b/matersdk/io/pwmat/utils/acextractor.py
index 827c424..d7f23ff 100644
--- a/matersdk/io/pwmat/utils/acextractor.py
+++ b/matersdk/io/pwmat/utils/acextractor.py
@@ -330,7 +330,7 @@ class ACstrExtractor(ACExtractorBase):
         magnetic_moments_lst = []
         try:
             aim_content = "MAGNETIC"
-            aim_idx = ListLocator.locate_all_lines(strs_lst=self.strs_lst, content=aim_content)
+            aim_idx = ListLocator.locate_all_lines(strs_lst=self.strs_lst, content=aim_content)[0]
             
             magnetic_moments_content = self.strs_lst[aim_idx+1: aim_idx+self.num_atoms+1]
             magnetic_moments_lst = [float(tmp_magnetic_moment.split()[-1]) for tmp_magnetic_moment in magnetic_moments_content]
-- 
2.43.0


From 8b130e7255441d7922234af81d3898d8c080eff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:20 +0000
Subject: [PATCH 16/52] fix: padding entries of the PWmat neighbour index list
 name no atom

---
 matersdk/io/publicLayer/neigh.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/matersdk/io/publicLayer/neigh.py b/matersdk/io/publicLayer/neigh.py
index 9411a11..0cbf159 100644
--- a/matersdk/io/publicLayer/neigh.py
+++ b/matersdk/io/publicLayer/neigh.py
@@ -183,11 +183,13 @@ class StructureNeighborsUtils(object):
         )
         
         efficient_center_idx = 0    # 记录填写到第几个有效行
+        num_nbrs_lst = []           # 每个有效行的近邻原子数
         for tmp_center in range(key_nbr_coords.shape[0]):
             tmp_mask = mask_tot[tmp_center, :]
             if mask_efficient_rows[tmp_center]:
                 tmp_max_num_nbrs_real = np.count_nonzero(tmp_mask)
                 new_nbr_coords[efficient_center_idx, :tmp_max_num_nbrs_real, :] = key_nbr_coords[tmp_center][tmp_mask][:]
+                num_nbrs_lst.append(tmp_max_num_nbrs_real)
                 efficient_center_idx += 1
         assert (efficient_center_idx == num_efficient_rows)
        
@@ -196,7 +198,10 @@ class StructureNeighborsUtils(object):
         for tmp_center_idx, tmp_center_nbr_coord in enumerate(new_nbr_coords):
             tmp_neigh_list = []
             for tmp_nbr_idx, tmp_nbr_coord in enumerate(tmp_center_nbr_coord):
-                tmp_neigh_list.append(structure.get_site_index(site_coord=tmp_nbr_coord))
+                if tmp_nbr_idx < num_nbrs_lst[tmp_center_idx]:
+                    tmp_neigh_list.append(structure.get_site_index(site_coord=tmp_nbr_coord))
+                else:   # zero-padding: no atom
+                    tmp_neigh_list.append(0)
             neigh_list.append(tmp_neigh_list)
         neigh_list = np.array(neigh_list)
         
-- 
2.43.0


From b7704864bc47caa15093146e2ec2dea2d6ecb6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:20 +0000
Subject: [PATCH 17/52] fix: AdjacentMatrix refuses even scaling factors, as
 documented

---
 matersdk/feature/graph/edge.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/feature/graph/edge.py b/matersdk/feature/graph/edge.py
index 58563e2..84f2d81 100644
--- a/matersdk/feature/graph/edge.py
+++ b/matersdk/feature/graph/edge.py
@@ -31,9 +31,9 @@ class AdjacentMatrix(object):
         self.scaling_matrix = scaling_matrix
         
         # 确保扩包倍数为奇数
-        assert ( (self.scaling_matrix[0] > 0) and (self.scaling_matrix[0] / 2 != 0) )
-        assert ( (self.scaling_matrix[1] > 0) and (self.scaling_matrix[1] / 2 != 0) )
-        assert ( (self.scaling_matrix[2] > 0) and (self.scaling_matrix[2] / 2 != 0) )
+        assert ( (self.scaling_matrix[0] > 0) and (self.scaling_matrix[0] % 2 != 0) )
+        assert ( (self.scaling_matrix[1] > 0) and (self.scaling_matrix[1] % 2 != 0) )
+        assert ( (self.scaling_matrix[2] > 0) and (self.scaling_matrix[2] % 2 != 0) )
     
     
     def get_adjacent_matrix(self):
-- 
2.43.0


From d7bd8d2d15a68050b37ea7c94eddd39d2f98973e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:05 +0000
Subject: [PATCH 18/52] fix: OutFermi, Inkpt and Report read the file as it is
 now, not a cached older version

---
 matersdk/io/pwmat/input/inkpt.py     | 10 ++++++----
 matersdk/io/pwmat/output/outfermi.py |  5 ++---
 matersdk/io/pwmat/output/report.py   | 17 +++++++++++++----
 3 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/matersdk/io/pwmat/input/inkpt.py b/matersdk/io/pwmat/input/inkpt.py
index 475456c..c6512a1 100644
--- a/matersdk/io/pwmat/input/inkpt.py
+++ b/matersdk/io/pwmat/input/inkpt.py
@@ -1,4 +1,3 @@
-import linecache
 import numpy as np
 from typing import List
 
@@ -42,7 +41,8 @@ class Inkpt(object):
             1. a0: int
                 - 
         '''
-        line_2 = linecache.getline(self.in_kpt_path, 2)
+        with open(self.in_kpt_path, "r") as f:
+            line_2 = f.readlines()[1]
         iflag = int( line_2.split()[0] )
         return iflag
     
@@ -59,7 +59,8 @@ class Inkpt(object):
             1. a0: int
                 - 
         '''
-        line_2 = linecache.getline(self.in_kpt_path, 2)
+        with open(self.in_kpt_path, "r") as f:
+            line_2 = f.readlines()[1]
         a0 = int( line_2.split()[-1] )
         return a0
     
@@ -74,7 +75,8 @@ class Inkpt(object):
         ------
             1. num_kpts: int
         '''
-        line_1 = linecache.getline(self.in_kpt_path, 1)
+        with open(self.in_kpt_path, "r") as f:
+            line_1 = f.readline()
         num_kpts = int( line_1.split()[0] )
         return num_kpts
     
diff --git a/matersdk/io/pwmat/output/outfermi.py b/matersdk/io/pwmat/output/outfermi.py
index 7a824a7..1fe7dd8 100644
--- a/matersdk/io/pwmat/output/outfermi.py
+++ b/matersdk/io/pwmat/output/outfermi.py
@@ -1,5 +1,3 @@
-import linecache
-
 import numpy as np
 
 
@@ -15,7 +13,8 @@ class OutFermi(object):
         -----------
             1. 从 `self.out_fermi_path` 中读取费米能级(unit: eV)
         '''
-        first_row = linecache.getline(self.out_fermi_path, 1)
+        with open(self.out_fermi_path, "r") as f:
+            first_row = f.readline()
         first_row_lst = first_row.split()
         efermi_ev = np.round(float(first_row_lst[-2]), 3)
         return efermi_ev
\ No newline at end of file
diff --git a/matersdk/io/pwmat/output/report.py b/matersdk/io/pwmat/output/report.py
index a261676..0facb38 100644
--- a/matersdk/io/pwmat/output/report.py
+++ b/matersdk/io/pwmat/output/report.py
@@ -1,6 +1,5 @@
 import os
 import math
-import linecache
 import numpy as np
 from typing import Dict
 
@@ -40,6 +39,16 @@ class Report(object):
         return idxs_lst
     
     
+    def _get_line(self, idx_line:int):
+        '''
+        Description
+        -----------
+            1. 读取 REPORT 当前内容的第 `idx_line` 行 (从 1 开始)
+        '''
+        with open(self.report_path, "r") as f:
+            return f.readlines()[idx_line-1]
+    
+    
     def get_num_bands(self):
         '''
         Description
@@ -56,7 +65,7 @@ class Report(object):
         idx_num_bands = self._search_aim(aim_content=aim_content)[0]
         #print(idx_num_bands)
         ### Step 2. 提取能带的数目
-        specific_line = linecache.getline(self.report_path, idx_num_bands)
+        specific_line = self._get_line(idx_num_bands)
         num_bands = int( specific_line.split()[-1] )
         
         return num_bands
@@ -78,7 +87,7 @@ class Report(object):
         idx_num_kpts = self._search_aim(aim_content=aim_content)[0]
         
         ### Step 2. 提取kpoints的数目
-        specific_line = linecache.getline(self.report_path, idx_num_kpts)
+        specific_line = self._get_line(idx_num_kpts)
         num_kpts = int( specific_line.split()[-1] )
         
         return num_kpts
@@ -153,7 +162,7 @@ class Report(object):
         '''        
         aim_conetent_inatom = "IN.ATOM"
         idx_inatom = self._search_aim(aim_content=aim_conetent_inatom)[0]
-        in_atom_name = linecache.getline(self.report_path, idx_inatom).split()[-1]
+        in_atom_name = self._get_line(idx_inatom).split()[-1]
     
         return in_atom_name
     
-- 
2.43.0


From 9a24d1918f91dc8c45624d534a02fe3d0412ca19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:05 +0000
Subject: [PATCH 19/52] fix: band edges shared at the edge's own k-point are
 listed once, with 1-based band numbers

---
 matersdk/io/pwmat/output/report.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/pwmat/output/report.py b/matersdk/io/pwmat/output/report.py
index 0facb38..ddb554d 100644
--- a/matersdk/io/pwmat/output/report.py
+++ b/matersdk/io/pwmat/output/report.py
@@ -271,7 +271,9 @@ class Report(object):
         for tmp_spin in list( spin2eigen_energies.keys() ):
             for idx_band in range(spin2eigen_energies["up"].shape[1]):
                 try:
-                    if math.fabs( spin2eigen_energies[tmp_spin][cbm_kpt][idx_band] - cbm_energy) < 0.001:
+                    if (tmp_spin, idx_band + 1) == (cbm_spin, cbm_band):
+                        continue    # 已经记录
+                    if math.fabs( spin2eigen_energies[tmp_spin][cbm_kpt - 1][idx_band] - cbm_energy) < 0.001:
                         cbm_dict["energies"].append(cbm_energy)
                         cbm_dict["kpts"].append(cbm_kpt)
                         cbm_dict["bands"].append(idx_band + 1)
@@ -332,10 +334,12 @@ class Report(object):
         for tmp_spin in list( spin2eigen_energies.keys() ):
             for idx_band in range(spin2eigen_energies["up"].shape[1]):
                 try:
-                    if math.fabs( spin2eigen_energies[tmp_spin][vbm_kpt][idx_band] - vbm_energy) < 0.001:
+                    if (tmp_spin, idx_band + 1) == (vbm_spin, vbm_band):
+                        continue    # 已经记录
+                    if math.fabs( spin2eigen_energies[tmp_spin][vbm_kpt - 1][idx_band] - vbm_energy) < 0.001:
                         vbm_dict["energies"].append(vbm_energy)
                         vbm_dict["spins"].append(tmp_spin)
-                        vbm_dict["bands"].append(idx_band)
+                        vbm_dict["bands"].append(idx_band + 1)
                         vbm_dict["kpts"].append(vbm_kpt)
                 except: # spin2eigen_energies["down"] 为空时，会触发 `IndexError`
                     pass
-- 
2.43.0


From ce37a6bd1dc0360f5211df76b3d7d1b9e58f1dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:05 +0000
Subject: [PATCH 20/52] fix: MVExtractor.get_frame_info returns its fields in
 the order of get_info_labels

---
 matersdk/io/pwmat/utils/mvextractor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/matersdk/io/pwmat/utils/mvextractor.py b/matersdk/io/pwmat/utils/mvextractor.py
index 1ca0146..5d37bc4 100644
--- a/matersdk/io/pwmat/utils/mvextractor.py
+++ b/matersdk/io/pwmat/utils/mvextractor.py
@@ -97,12 +97,12 @@ class MVExtractor(object):
         if self.virial_mark:
             virial = ace_str_extractor.get_virial()
             infos.append( virial )
-        if self.magmoms_mark:
-            magmoms = ace_str_extractor.get_magmoms()
-            infos.append( magmoms )
         if self.eatoms_mark:
             eatoms = ace_str_extractor.get_eatoms()
             infos.append( eatoms )
+        if self.magmoms_mark:
+            magmoms = ace_str_extractor.get_magmoms()
+            infos.append( magmoms )
         
         return infos
     
@@ -164,7 +164,7 @@ class MVExtractor(object):
         if self.virial_mark:
             info_labels.append("virial")
         if self.eatoms_mark:
-            info_labels.append("etaoms")
+            info_labels.append("eatoms")
         if self.magmoms_mark:
             info_labels.append("magmoms")
         
-- 
2.43.0


From 5b25d55ca8d7b834b2a471f6c78e080ce6b5ca35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:49 +0000
Subject: [PATCH 21/52] fix: Movement.get_frame_energy reads the kinetic energy
 whole, in every header the class documents

---
 matersdk/io/pwmat/output/movement.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/pwmat/output/movement.py b/matersdk/io/pwmat/output/movement.py
index ae07ef6..5b94f5f 100644
--- a/matersdk/io/pwmat/output/movement.py
+++ b/matersdk/io/pwmat/output/movement.py
@@ -272,9 +272,11 @@ class Movement(Trajectory):
 
         ### 2. 获取Etot, Ep, Ek
         first_row_lst = frame_str.split('\n')[0].split()    # 某一帧 chunk 的第一行
-        energy_tot = float( first_row_lst[8].strip() )
-        energy_p = float( first_row_lst[9].strip() )
-        energy_k = float( first_row_lst[10][:-1].strip() )
+        # 第二个等号后面三个数分别是 Etot, Ep, Ek
+        equal_1_idx = ListLocator.locate_all_lines(strs_lst=first_row_lst, content="=")[1]
+        energy_tot = float( first_row_lst[equal_1_idx+1].strip() )
+        energy_p = float( first_row_lst[equal_1_idx+2].strip() )
+        energy_k = float( first_row_lst[equal_1_idx+3].strip().rstrip(',') )
 
         return energy_tot, energy_p, energy_k
     
-- 
2.43.0


From f11b4558358d9902ba7482933069056d79175b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:49 +0000
Subject: [PATCH 22/52] fix: Movement can be instantiated: it has
 get_frame_volume and get_max_num_nbrs_real

---
 matersdk/io/pwmat/output/movement.py | 39 ++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/matersdk/io/pwmat/output/movement.py b/matersdk/io/pwmat/output/movement.py
index 5b94f5f..4a184f8 100644
--- a/matersdk/io/pwmat/output/movement.py
+++ b/matersdk/io/pwmat/output/movement.py
@@ -319,5 +319,40 @@ class Movement(Trajectory):
             virial_tensor = np.vstack([virial_tensor_x, virial_tensor_y, virial_tensor_z])
         
         return virial_tensor
-            
-    
\ No newline at end of file
+    
+    
+    def get_frame_volume(self, idx_frame:int):
+        '''
+        Description
+        -----------
+            1. 获取某一帧的体积
+        
+        Parameters
+        ----------
+            1. idx_frame: int
+                - 第几帧 (从第 0 帧开始计数)
+        
+        Return
+        ------
+            1. volume: float
+        '''
+        return self.get_frame_structure(idx_frame=idx_frame).volume
+    
+    
+    def get_max_num_nbrs_real(
+                    self,
+                    rcut:float,
+                    scaling_matrix:List[int],
+                    coords_are_cartesian:bool=True):
+        '''
+        Description
+        -----------
+            1. 所有帧中，最大的近邻原子数 (不包括自身)
+        '''
+        return max(
+                StructureNeighborsUtils.get_max_num_nbrs_real(
+                            structure=tmp_structure,
+                            rcut=rcut,
+                            scaling_matrix=scaling_matrix,
+                            coords_are_cartesian=coords_are_cartesian)
+                for tmp_structure in self.get_all_frame_structures())
-- 
2.43.0


From c66299a2a8311a2dfe232974952a9bb006dd2cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:49 +0000
Subject: [PATCH 23/52] fix: a merged InfoSet reports the composition of its
 own formula

---
 matersdk/data/infosets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matersdk/data/infosets.py b/matersdk/data/infosets.py
index 38748b2..5c5311d 100644
--- a/matersdk/data/infosets.py
+++ b/matersdk/data/infosets.py
@@ -93,6 +93,7 @@ class InfoSets(object):
                         eatom_lst.append(tmp_infoset.eatom)
                         magmom_lst.append(tmp_infoset.magmom)
                         num_frames_lst.append(tmp_infoset.num_frames)
+                        formula_dict:Dict[str, int] = tmp_infoset.formula_dict
                 parameters:List[str, np.ndarray] = {}
                 parameters.update({"box": np.concatenate(box_lst, axis=0)})
                 parameters.update({"types": np.concatenate(types_lst, axis=0)})
@@ -100,7 +101,7 @@ class InfoSets(object):
                 parameters.update({"etot": np.concatenate(etot_lst, axis=0)})
                 parameters.update({"fatom": np.concatenate(fatom_lst, axis=0)})
                 parameters.update({"formula": tmp_formula})
-                parameters.update({"formula_dict": tmp_infoset.formula_dict})
+                parameters.update({"formula_dict": formula_dict})
                 parameters.update({"num_frames": sum(num_frames_lst)})
                 if not False in virial_mark_lst:
                     parameters.update({"virial": np.concatenate(virial_lst, axis=0)})
-- 
2.43.0


From 4806770f28024ff04497ede5cc06829f2cec5952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:39 +0000
Subject: [PATCH 24/52] fix: Dostotalspin objects no longer share, overwrite
 and delete a .bak file next to the DOS file

---
 matersdk/io/pwmat/output/dostotalspin.py | 31 ++++++------------------
 1 file changed, 8 insertions(+), 23 deletions(-)

diff --git a/matersdk/io/pwmat/output/dostotalspin.py b/matersdk/io/pwmat/output/dostotalspin.py
index 79acb47..554bfdd 100644
--- a/matersdk/io/pwmat/output/dostotalspin.py
+++ b/matersdk/io/pwmat/output/dostotalspin.py
@@ -1,5 +1,5 @@
-import os 
 import pandas as pd
+from io import StringIO
 
 
 class Dostotalspin(object):
@@ -7,24 +7,15 @@ class Dostotalspin(object):
                 self,
                 dos_totalspin_path:str):
         self.dos_totalspin_path = dos_totalspin_path
-        self.bak_dosfile_path = self._preprocess()  # 删除了原DOS.totalspin第一行的"#"
+        self.dos_text = self._preprocess()  # 删除了原DOS.totalspin第一行的"#"
     
     
-    def __del__(self):
-        '''
-        Description
-        -----------
-            1. `Dostotalspin` 对象销毁时，自动删除 `self.bak_dosfile_path` 文件
-        '''
-        os.remove(self.bak_dosfile_path)
-    
-        
     def _preprocess(self):
         '''
         Description
         -----------
             Step 1. 删除 DOS.totalspin, DOS.spinup, DOS.spindown 行首的 "#"
-            Step 2. 写入新的 DOS.totalspin 到 `DOS.totalspin.bak`
+            Step 2. 返回新的 DOS.totalspin 的内容
         '''
         ### Step 1. 删除 DOS.totalspin, DOS.spinup, DOS.spindown 行首的 "#"
         with open(self.dos_totalspin_path, "r") as f:
@@ -44,14 +35,8 @@ class Dostotalspin(object):
             lines_lst.insert(0, new_first_line)
         
         
-        ### Step 2. 写入新的 DOS.totalspin 到 `DOS.totalspin.bak`
-        folder_path = os.path.dirname(self.dos_totalspin_path)
-        filename = os.path.basename(self.dos_totalspin_path)
-        bak_dosfile_path = os.path.join(folder_path, "{0}.bak".format(filename))
-        with open(bak_dosfile_path, "w") as f:
-            f.writelines(lines_lst)
-        
-        return bak_dosfile_path
+        ### Step 2. 返回新的 DOS.totalspin 的内容
+        return "".join(lines_lst)
     
 
     def get_tdos(self):
@@ -66,7 +51,7 @@ class Dostotalspin(object):
             
         '''
         df_dos = pd.read_csv(
-                    self.bak_dosfile_path,
+                    StringIO(self.dos_text),
                     delimiter='\s+',
                     )
         try: 
@@ -98,7 +83,7 @@ class Dostotalspin(object):
         '''
         ### Step 1. 读取 DOS.totalspin 文件
         df_dos = pd.read_csv(
-                    self.bak_dosfile_path,
+                    StringIO(self.dos_text),
                     delimiter='\s+',
                     )
         
@@ -143,7 +128,7 @@ class Dostotalspin(object):
         '''
         ### Step 1. 读取 DOS.totalspin 文件
         df_dos = pd.read_csv(
-                    self.bak_dosfile_path,
+                    StringIO(self.dos_text),
                     delimiter='\s+',
                     )
         try:
-- 
2.43.0


From 360d87de4fc43851535b9045432ae08d45588365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:39 +0000
Subject: [PATCH 25/52] fix: the projection on an element leaves out elements
 whose symbol merely starts alike

---
 matersdk/io/pwmat/output/dostotalspin.py         | 2 +-
 matersdk/io/pwmat/output/fatabandstructureTxt.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/pwmat/output/dostotalspin.py b/matersdk/io/pwmat/output/dostotalspin.py
index 554bfdd..5467b1a 100644
--- a/matersdk/io/pwmat/output/dostotalspin.py
+++ b/matersdk/io/pwmat/output/dostotalspin.py
@@ -96,7 +96,7 @@ class Dostotalspin(object):
         df_elements_lst = []
         new_columns_lst = []
         for tmp_element in elements_lst:
-            tmp_mask = df_dos.columns.str.startswith(tmp_element)
+            tmp_mask = df_dos.columns.str.startswith(tmp_element + '-')
             df_tmp_element = df_dos.loc[:, tmp_mask].sum(axis=1)
             df_elements_lst.append(df_tmp_element)
             new_columns_lst.append(tmp_element)
diff --git a/matersdk/io/pwmat/output/fatabandstructureTxt.py b/matersdk/io/pwmat/output/fatabandstructureTxt.py
index 27d4c81..c70b5ed 100644
--- a/matersdk/io/pwmat/output/fatabandstructureTxt.py
+++ b/matersdk/io/pwmat/output/fatabandstructureTxt.py
@@ -161,8 +161,8 @@ class FatbandStructure(object):
         
         ### Step 2. 按照元素求权重的和
         for tmp_element in self.elements_lst:
-            tmp_df_element = df.filter(regex="^{0}|KPOINT|ENERGY|weight_tot".format(tmp_element))
-            tmp_serie_element = tmp_df_element.filter(regex="^{0}".format(tmp_element)).sum(axis=1)
+            tmp_df_element = df.filter(regex="^{0}-|KPOINT|ENERGY|weight_tot".format(tmp_element))
+            tmp_serie_element = tmp_df_element.filter(regex="^{0}-".format(tmp_element)).sum(axis=1)
             series_element_lst.append( tmp_serie_element )
         ### 将 `KPOINTS`, `ENERGY`, `weight_tot` 与各元素权重和拼成一个 pd.DataFrame
         series_element_lst.insert(0, df_head)
-- 
2.43.0


From 9066955dcee7d3868c597867762516ba2ced111c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:40 +0000
Subject: [PATCH 26/52] fix: get_orbital_dfs_lst takes the orbital name
 literally and from its start

---
 matersdk/io/pwmat/output/fatabandstructureTxt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/pwmat/output/fatabandstructureTxt.py b/matersdk/io/pwmat/output/fatabandstructureTxt.py
index c70b5ed..9053978 100644
--- a/matersdk/io/pwmat/output/fatabandstructureTxt.py
+++ b/matersdk/io/pwmat/output/fatabandstructureTxt.py
@@ -188,7 +188,7 @@ class FatbandStructure(object):
                 - e.g. Mo-4Dxy (大小写无所谓)
         '''
         df = self._preprocess()
-        re_pattern = re.compile("{0}|KPOINT|ENERGY|weight_tot".format(orbital_name), re.IGNORECASE)
+        re_pattern = re.compile("^{0}|KPOINT|ENERGY|weight_tot".format(re.escape(orbital_name)), re.IGNORECASE)
         df_return = df.filter(regex=re_pattern)
         
         ### Step 2. 将不同band，分成不同的 pd.DataFrame
-- 
2.43.0


From f1503c235c6e17650c5a6b99c18304bbfb193f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:33 +0000
Subject: [PATCH 27/52] fix: Report reads spin-polarised eigen energies

---
 matersdk/io/pwmat/output/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/pwmat/output/report.py b/matersdk/io/pwmat/output/report.py
index ddb554d..1de6b42 100644
--- a/matersdk/io/pwmat/output/report.py
+++ b/matersdk/io/pwmat/output/report.py
@@ -143,7 +143,7 @@ class Report(object):
         
         ### Step 5. 当 ispin 打开时，自旋向上和向下的(kpoints, eigen_states)应该相等
         if spin2eigen_energies["down"].size != 0:
-            assert (spin2eigen_energies["up"].shape != spin2eigen_energies["down"])
+            assert (spin2eigen_energies["up"].shape == spin2eigen_energies["down"].shape)
         
         return spin2eigen_energies
     
-- 
2.43.0


From 55463c7118930dcd2dca71201fcb0c168f48ebc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:23 +0000
Subject: [PATCH 28/52] fix: FatbandStructure returns one DataFrame per band,
 as documented, with every pandas version

---
 matersdk/io/pwmat/output/fatabandstructureTxt.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/pwmat/output/fatabandstructureTxt.py b/matersdk/io/pwmat/output/fatabandstructureTxt.py
index 9053978..448d979 100644
--- a/matersdk/io/pwmat/output/fatabandstructureTxt.py
+++ b/matersdk/io/pwmat/output/fatabandstructureTxt.py
@@ -122,6 +122,16 @@ class FatbandStructure(object):
         return df
     
     
+    def _split_bands(self, df:pd.DataFrame):
+        '''
+        Description
+        -----------
+            1. 将 pd.DataFrame 按照不同能带分为新的 DataFrames
+        '''
+        idxs_lst = np.array_split(np.arange(len(df)), self.num_bands)
+        return [df.iloc[tmp_idxs] for tmp_idxs in idxs_lst]
+    
+    
     def get_total_dfs_lst(self):
         '''
         Description
@@ -136,7 +146,7 @@ class FatbandStructure(object):
         '''
         df = self._preprocess()
         ### Step 1. 每条能带组成了新的 DataFrame
-        dfs_lst = np.array_split(df, self.num_bands)
+        dfs_lst = self._split_bands(df)
         
         return dfs_lst
     
@@ -172,7 +182,7 @@ class FatbandStructure(object):
         new_df.columns =  new_cols_lst
         
         ### Step 3. 将不同能带的能带分成不同的 pd.DataFrame
-        element_dfs_lst = np.array_split(new_df, self.num_bands)
+        element_dfs_lst = self._split_bands(new_df)
         return element_dfs_lst
         
         
@@ -192,6 +202,6 @@ class FatbandStructure(object):
         df_return = df.filter(regex=re_pattern)
         
         ### Step 2. 将不同band，分成不同的 pd.DataFrame
-        orbital_dfs_lst = np.array_split(df_return, self.num_bands)
+        orbital_dfs_lst = self._split_bands(df_return)
         
         return orbital_dfs_lst
\ No newline at end of file
-- 
2.43.0


From 296b89da896ad9c7d3bc22e317d15aaaf2e433c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:40 +0000
Subject: [PATCH 29/52] fix: KMesh no longer passes DStructure.from_file an
 argument it does not have

---
 matersdk/calculation/kpoints/kmesh.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/matersdk/calculation/kpoints/kmesh.py b/matersdk/calculation/kpoints/kmesh.py
index abf021b..75fb954 100644
--- a/matersdk/calculation/kpoints/kmesh.py
+++ b/matersdk/calculation/kpoints/kmesh.py
@@ -11,7 +11,6 @@ class KMesh(object):
         self.structure = DStructure.from_file(
                                         file_format=file_format,
                                         file_path=file_path,
-                                        coords_are_cartesian=False,
                                         )
     
     def get_lattice_info(self):
-- 
2.43.0


From f3279b2e2bc6a2df480ffc6f9438979517847360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:40 +0000
Subject: [PATCH 30/52] fix: the length of a k-path segment is that of the
 vector between its ends, also in non-orthogonal cells

---
 matersdk/calculation/kpath/kpathSampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matersdk/calculation/kpath/kpathSampler.py b/matersdk/calculation/kpath/kpathSampler.py
index 628ac6e..5ee2a04 100644
--- a/matersdk/calculation/kpath/kpathSampler.py
+++ b/matersdk/calculation/kpath/kpathSampler.py
@@ -143,8 +143,8 @@ class KpathSampler(KPathSetyawanCurtarolo):
                         position_start_array = np.array(position_start)
                         position_dest_array = np.array(position_dest)
                         path_length = np.linalg.norm(
-                                (position_dest_array - position_start_array).reshape(-1, 3) * \
-                                        reciprocal_lattice_crystalloggraphic
+                                np.dot(position_dest_array - position_start_array,
+                                        reciprocal_lattice_crystalloggraphic)
                                 )
                         num_bandpoint = np.ceil(path_length/density)
                     
-- 
2.43.0


From 5e0017bfc0d40f254fc58ae1978408287b3ca116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:53 +0000
Subject: [PATCH 31/52] fix: the environment matrix and its derivative vanish
 from the cutoff on

---
 matersdk/feature/deepmd/se_pair.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/matersdk/feature/deepmd/se_pair.py b/matersdk/feature/deepmd/se_pair.py
index cad30ba..c21c341 100644
--- a/matersdk/feature/deepmd/se_pair.py
+++ b/matersdk/feature/deepmd/se_pair.py
@@ -180,6 +180,8 @@ class DpseTildeRPairV1(DpseTildeRPairBase):
                                 (self.dp_feature_pair_d>rcut_smooth) & (self.dp_feature_pair_d<rcut),
                                 dp_feature_pair_d_scaled,
                                 dp_feature_pair_d_reciprocal)
+        # s(r) = 0, r >= rcut
+        dp_feature_pair_s = np.where(self.dp_feature_pair_d<rcut, dp_feature_pair_s, 0)
         #print(dp_feature_pair_s)
 
         return dp_feature_pair_s
@@ -335,6 +337,7 @@ class DpseTildeRPairV1(DpseTildeRPairBase):
                 vv_mask_1,
                 vv_mask_2
         )
+        vv = np.where(self.dp_feature_pair_d<self.rcut, vv, 0)
         
         ### Step 1.2.4. 根据 dvv_mask_1, dvv_mask_2 计算 dvv
         # shape = (num_centers, num_nbrs)
@@ -343,6 +346,7 @@ class DpseTildeRPairV1(DpseTildeRPairBase):
                 dvv_mask_1,
                 dvv_mask_2
         )        
+        dvv = np.where(self.dp_feature_pair_d<self.rcut, dvv, 0)
         
         
         ### Step 2. Calculate the derivative of (1/r * vv)
-- 
2.43.0


From 040a12c08343e38a2738577ba8340eb07350a9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:53 +0000
Subject: [PATCH 32/52] fix: import the structure collection the normalizers
 work on

---
 matersdk/feature/deepmd/preprocess.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/matersdk/feature/deepmd/preprocess.py b/matersdk/feature/deepmd/preprocess.py
index 3ea5e02..b210695 100644
--- a/matersdk/feature/deepmd/preprocess.py
+++ b/matersdk/feature/deepmd/preprocess.py
@@ -2,7 +2,7 @@ import numpy as np
 import h5py
 from typing import Union, List, Dict
 
-from ...data.deepmd.data_system import DpLabeledSystem
+from ...data.struct_collection import StructCollection
 from ...io.publicLayer.structure import DStructure
 from ...io.publicLayer.neigh import StructureNeighborsDescriptor
 from ...feature.deepmd.se_pair import DpseTildeRPairDescriptor
@@ -102,7 +102,7 @@ class TildeRNormalizer(object):
     
     @staticmethod
     def calc_stats(
-                dp_labeled_system:DpLabeledSystem,
+                dp_labeled_system:StructCollection,
                 structure_indices:List[int],
                 rcut:float,
                 rcut_smooth:float,
@@ -216,7 +216,7 @@ class TildeRNormalizer(object):
     @classmethod
     def from_dp_labeled_system(
                     cls,
-                    dp_labeled_system:DpLabeledSystem,
+                    dp_labeled_system:StructCollection,
                     structure_indices:List[int],
                     rcut:float, 
                     rcut_smooth:float,
@@ -612,7 +612,7 @@ class NormalizerPremise(object):
     '''
     @staticmethod
     def concat_tildeRs4calc_stats(
-                dp_labeled_system:DpLabeledSystem,
+                dp_labeled_system:StructCollection,
                 structure_indices:List[int],
                 rcut:float, 
                 rcut_smooth:float,
-- 
2.43.0


From 06de5631de9e6b46a1b269b9f669bd0b54b76577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:53 +0000
Subject: [PATCH 33/52] fix: normalized environment matrices hold all neighbour
 species asked for

---
 matersdk/feature/deepmd/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/feature/deepmd/preprocess.py b/matersdk/feature/deepmd/preprocess.py
index b210695..1437195 100644
--- a/matersdk/feature/deepmd/preprocess.py
+++ b/matersdk/feature/deepmd/preprocess.py
@@ -363,7 +363,7 @@ class TildeRNormalizer(object):
         for tmp_center_an in self.center_atomic_numbers:
             tmp_center_tildeRs_lst = []
             tmp_center_tildeR_derivatives_lst = []
-            for tmp_nbr_an in self.center_atomic_numbers:
+            for tmp_nbr_an in self.nbr_atomic_numbers:
                 tmp_key = "{0}_{1}".format(tmp_center_an, tmp_nbr_an)
                 tmp_center_tildeRs_lst.append(tildeRs_dict[tmp_key])
                 tmp_center_tildeR_derivatives_lst.append(tildeR_derivatives_dict[tmp_key])
-- 
2.43.0


From 77a468064ccd67867ebd83be24ee8705220bb9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:27 +0000
Subject: [PATCH 34/52] fix: no moment combination appears twice in an MTP
 basis

---
 source/descriptor/mtp/src/mtpLevel.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/descriptor/mtp/src/mtpLevel.cc b/source/descriptor/mtp/src/mtpLevel.cc
index 13f60b0..e04cbc5 100644
--- a/source/descriptor/mtp/src/mtpLevel.cc
+++ b/source/descriptor/mtp/src/mtpLevel.cc
@@ -192,11 +192,19 @@ std::vector<std::vector<MtpMCoeffPair>> MtpMCoeffPairCombs::get_contracted_combs
 void MtpMCoeffPairCombs::_build() 
 {
     this->_coeff_pair_combs.clear();
+    // Pairs of equal level, e.g. [1, 0] and [0, 4], let get_all_schemes4lev() find a combination more than once.
+    std::set<std::vector<std::pair<int, int>>> known_combs;
     for (int ii=0; ii<=this->_max_level; ii++) {
         std::vector<std::vector<MtpMCoeffPair>> tmp_combs = get_all_schemes4lev(ii, 0, 0);
         std::vector<std::vector<MtpMCoeffPair>> tmp_contracted_combs = get_contracted_combs(tmp_combs);
-        for (std::vector<MtpMCoeffPair> tmp_contracted_comb : tmp_contracted_combs)
-            this->_coeff_pair_combs.push_back(tmp_contracted_comb);
+        for (std::vector<MtpMCoeffPair> tmp_contracted_comb : tmp_contracted_combs) {
+            std::vector<std::pair<int, int>> tmp_pairs;
+            for (const MtpMCoeffPair& tmp_cp : tmp_contracted_comb)
+                tmp_pairs.push_back(tmp_cp.coeff_pair());
+            std::sort(tmp_pairs.begin(), tmp_pairs.end());
+            if (known_combs.insert(tmp_pairs).second)
+                this->_coeff_pair_combs.push_back(tmp_contracted_comb);
+        }
     }
 }
 
-- 
2.43.0


From e420b79493d7d286b58160c31792a06b6af336f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:29 +0000
Subject: [PATCH 35/52] fix: MtpBModule takes the atom types of each batch, as
 its header says

---
 source/descriptor/mtp/src/mtpBModule.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/descriptor/mtp/src/mtpBModule.cc b/source/descriptor/mtp/src/mtpBModule.cc
index ad55c7c..a8a100b 100644
--- a/source/descriptor/mtp/src/mtpBModule.cc
+++ b/source/descriptor/mtp/src/mtpBModule.cc
@@ -50,6 +50,8 @@ at::Tensor MtpBModuleImpl::forward(
     int64_t tmp_iidx;
 
     for (int ii=0; ii<nbatches; ii++) {
+        // .sizes() = [ncenters + nghost], also when every batch has types of its own
+        at::Tensor types_tensor_now = (types_tensor.dim() == 1) ? types_tensor : types_tensor[ii];
         for (int jj=0; jj<ncenters; jj++) {
             tmp_iidx = ilist_ptr[ii*ncenters + jj];
             for (int kk=0; kk<nbasis; kk++) {
@@ -63,7 +65,7 @@ at::Tensor MtpBModuleImpl::forward(
                         tmp_nu,
                         tmp_iidx,
                         firstneigh_tensor[ii][jj],
-                        types_tensor,
+                        types_tensor_now,
                         rcs_tensor[ii][jj]);
                     int64_t dim1 = partial_mtp_b_tensor.dim();
                     int64_t dim2 = tmp_mtp_m_tensor.dim();
-- 
2.43.0


From 1cd6a9d0389c176eaad4396112b85cd794bc7df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:18 +0000
Subject: [PATCH 36/52] fix: DStructure.from_str keeps the atomic forces and
 energies get_atomic_force/get_atomic_energy read

---
 matersdk/io/publicLayer/structure.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index 11f9932..097a9eb 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -88,11 +88,18 @@ class DStructure(Structure):
         '''
         if (str_format == "pwmat"):
             atom_config_str_extractor = ACstrExtractor(atom_config_str=str_content)
+            try:
+                eatoms = atom_config_str_extractor.get_eatoms()
+            except AttributeError:  # 没有原子能量的信息
+                eatoms = np.zeros(atom_config_str_extractor.num_atoms)
             structure = Structure(
                             lattice=atom_config_str_extractor.get_basis_vectors().reshape(3, 3),
                             species=atom_config_str_extractor.get_types(),
                             coords=atom_config_str_extractor.get_coords().reshape(-1, 3),
-                            coords_are_cartesian=coords_are_cartesian)
+                            coords_are_cartesian=coords_are_cartesian,
+                            site_properties={
+                                "atomic_force": atom_config_str_extractor.get_fatoms().reshape(-1, 3).tolist(),
+                                "atomic_energy": eatoms.reshape(-1, 1).tolist()})
         else:
             raise ValueError("Note: Other format besides pwmat can't read now!!!")
         
-- 
2.43.0


From e11356a65c78a125c06061c6cd6a4054d8935a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:18 +0000
Subject: [PATCH 37/52] fix: StructCollection[i] is a collection of the one
 frame i

---
 matersdk/data/struct_collection.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/matersdk/data/struct_collection.py b/matersdk/data/struct_collection.py
index 36f0607..cfc8d40 100644
--- a/matersdk/data/struct_collection.py
+++ b/matersdk/data/struct_collection.py
@@ -79,6 +79,11 @@ class StructCollection(object):
     
 
     def __getitem__(self, index:int):
+        if isinstance(index, (int, np.integer)):    # 单个 frame
+            if not (-self.num_structures <= index < self.num_structures):
+                raise IndexError("index is out of range of StructCollection!!!")
+            index = int(index) % self.num_structures
+            index = slice(index, index+1)
         return_structures_lst = self.structures_lst[index]
         return_total_energys_array = self.total_energys_array[index]
         return_potential_energys_array = self.potential_energys_array[index]
-- 
2.43.0


From 5b561df6ef4c86e2b192284bf39e0e5509017a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:18 +0000
Subject: [PATCH 38/52] fix: StructCollection.to writes element names to
 type_map.raw

---
 matersdk/data/struct_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/data/struct_collection.py b/matersdk/data/struct_collection.py
index cfc8d40..967957f 100644
--- a/matersdk/data/struct_collection.py
+++ b/matersdk/data/struct_collection.py
@@ -226,7 +226,7 @@ class StructCollection(object):
         for tmp_tm, tmp_an in enumerate(self.atomic_numbers_lst):
             an2tm.update({tmp_an: tmp_tm})
 
-        type_map_str = "\n".join([str(tmp_tm) for tmp_tm in an2tm.values()])
+        type_map_str = "\n".join([atomic_number2specie[tmp_an] for tmp_an in an2tm.keys()])
         type_map_str += "\n"
         with open(f"{dir_path}/type_map.raw", 'w') as f:
             f.write(type_map_str)
-- 
2.43.0


From 8b90596e344529f6dd7ed25a25cd6457ab5820f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:18 +0000
Subject: [PATCH 39/52] fix: StructCollection stores collections without
 virials and runs on one or two cpus

---
 matersdk/data/struct_collection.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/matersdk/data/struct_collection.py b/matersdk/data/struct_collection.py
index 967957f..009844d 100644
--- a/matersdk/data/struct_collection.py
+++ b/matersdk/data/struct_collection.py
@@ -308,7 +308,7 @@ class StructCollection(object):
         try:    # 不包含 Virial 信息
             virial_tensors_array = np.array([struct_collection.virial_tensors_array[tmp_index] for tmp_index in indices_lst])
         except IndexError as e:
-            virial_tensors_array = np.zeros(10);
+            virial_tensors_array = np.array([])
             
                 
         return StructCollection(
@@ -366,8 +366,8 @@ class StructCollection(object):
             
             ### Step 1.2. 保存相关信息
             self.structures_lst[tmp_idx].to(
-                                    output_file_format="pwmat",
-                                    output_file_path=os.path.join(tmp_image_dir_path, "atom.config"))
+                                    file_format="pwmat",
+                                    file_path=os.path.join(tmp_image_dir_path, "atom.config"))
             # 1. box.npy
             np.save(
                     file=os.path.join(tmp_image_dir_path, "box.npy"),
@@ -401,10 +401,11 @@ class StructCollection(object):
                     arr=self.structures_lst[tmp_idx].get_atomic_force()
             )
             # 8. virial
-            np.save(
-                    file=os.path.join(tmp_image_dir_path, "virial.npy"),
-                    arr=self.virial_tensors_array[tmp_idx]
-            )
+            if len(self.virial_tensors_array) > 0:  # 不包含 Virial 信息则不存储
+                np.save(
+                        file=os.path.join(tmp_image_dir_path, "virial.npy"),
+                        arr=self.virial_tensors_array[tmp_idx]
+                )
             # 9. atomic_number
             np.save(
                     file=os.path.join(tmp_image_dir_path, "atomic_number.npy"),
@@ -425,7 +426,7 @@ class StructCollection(object):
                         self.structures_lst[tmp_idx],
                         scaling_matrix) for tmp_idx in range(self.num_structures)]
         
-        with mp.Pool(os.cpu_count()-2) as pool:
+        with mp.Pool(max(1, os.cpu_count()-2)) as pool:
             pool.starmap(ParallelFunction.save_struct_nbr, parameters_lst)
 
 
@@ -443,7 +444,7 @@ class StructCollection(object):
                     tmp_structure,
                     rcut,
                     scaling_matrix) for tmp_structure in self.structures_lst]
-        with mp.Pool(os.cpu_count()-2) as pool:
+        with mp.Pool(max(1, os.cpu_count()-2)) as pool:
             max_nbrs_num_real_lst = pool.starmap(
                                         ParallelFunction.get_max_num_nbrs_real,
                                         parameters_lst)
@@ -475,7 +476,7 @@ class StructCollection(object):
                             scaling_matrix) for tmp_structure in self.structures_lst]
         
         ### Step 1. 初始化
-        with mp.Pool(os.cpu_count()-2) as pool:
+        with mp.Pool(max(1, os.cpu_count()-2)) as pool:
             max_nbrs_num_real_element:Dict[str, int] = pool.starmap(
                                     ParallelFunction.get_max_num_nbrs_real_element,
                                     parameters_lst)
-- 
2.43.0


From 66aceedf90f2fa2613bde1fc8fa35e0dc5a06d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:05 +0000
Subject: [PATCH 40/52] fix: bond angles are between two different neighbours,
 straight angles included

---
 matersdk/feature/avg/avgangle.py | 4 ++--
 matersdk/feature/avg/avgbond.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/matersdk/feature/avg/avgangle.py b/matersdk/feature/avg/avgangle.py
index 54db1df..522d856 100644
--- a/matersdk/feature/avg/avgangle.py
+++ b/matersdk/feature/avg/avgangle.py
@@ -76,7 +76,7 @@ class AvgAngle(object):
             dot_product = np.dot(array_1, array_2)
             mag_1 = np.linalg.norm(array_1)
             mag_2 = np.linalg.norm(array_2)
-            cos_value = dot_product / (mag_1 * mag_2)
+            cos_value = np.clip(dot_product / (mag_1 * mag_2), -1, 1)
             angle_radians = np.arccos(cos_value)
             angle_degree = np.degrees(angle_radians)    
             return angle_degree
@@ -87,7 +87,7 @@ class AvgAngle(object):
         if (atomic_number_2 == atomic_number_3):
             for center_idx in range(key_nbr2_rc.shape[0]):
                 for nbr2_idx in range(key_nbr2_rc.shape[1]):
-                    for nbr3_idx in range(nbr2_idx, key_nbr3_rc.shape[1]):
+                    for nbr3_idx in range(nbr2_idx+1, key_nbr3_rc.shape[1]):
                         tmp_nbr2_rc = key_nbr2_rc[center_idx, nbr2_idx, :]
                         tmp_nbr3_rc = key_nbr3_rc[center_idx, nbr3_idx, :]
                         # relative_coord 不能为 [0, 0, 0] ([0, 0, 0]代表无近邻原子)
diff --git a/matersdk/feature/avg/avgbond.py b/matersdk/feature/avg/avgbond.py
index 47b61d6..d2f610d 100644
--- a/matersdk/feature/avg/avgbond.py
+++ b/matersdk/feature/avg/avgbond.py
@@ -190,7 +190,7 @@ class AvgBond(object):
             dot_product = np.dot(array_1, array_2)
             mag_1 = np.linalg.norm(array_1)
             mag_2 = np.linalg.norm(array_2)
-            cos_value = dot_product / (mag_1 * mag_2)
+            cos_value = np.clip(dot_product / (mag_1 * mag_2), -1, 1)
             angle_radians = np.arccos(cos_value)
             angle_degree = np.degrees(angle_radians)
             return angle_degree
@@ -216,7 +216,7 @@ class AvgBond(object):
         if (atomic_number_2 == atomic_number_3):
             for center_idx in range(key_nbr2_rc.shape[0]):
                 for nbr2_idx in range(key_nbr2_rc.shape[1]):
-                    for nbr3_idx in range(nbr2_idx, key_nbr3_rc.shape[1]):  # Note: 预防重复计算键角
+                    for nbr3_idx in range(nbr2_idx+1, key_nbr3_rc.shape[1]):  # Note: 预防重复计算键角
                         tmp_nbr2_rc = key_nbr2_rc[center_idx, nbr2_idx, :]
                         tmp_nbr3_rc = key_nbr3_rc[center_idx, nbr3_idx, :]
                         # relative_coord 不能为 [0, 0, 0] ([0, 0, 0]代表无近邻原子)
-- 
2.43.0


From 7ea5efb803a92fead19e8dd67a8c1faf44b87d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:34 +0000
Subject: [PATCH 41/52] fix: bond lengths and displacements run on one or two
 cpus

---
 matersdk/feature/avg/avgbond.py | 2 +-
 matersdk/feature/avg/msd.py     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/feature/avg/avgbond.py b/matersdk/feature/avg/avgbond.py
index d2f610d..067ef77 100644
--- a/matersdk/feature/avg/avgbond.py
+++ b/matersdk/feature/avg/avgbond.py
@@ -69,7 +69,7 @@ class AvgBond(object):
                     self.atomic_number_1,
                     self.atomic_number_2) for tmp_structure in self.frames_lst]
         
-        with mp.Pool(os.cpu_count()-2) as pool:
+        with mp.Pool(max(1, os.cpu_count()-2)) as pool:
             avg_bond_lengths_lst = pool.starmap(
                                         ParallelFunction.get_avg_bond_length,
                                         parameters_lst
diff --git a/matersdk/feature/avg/msd.py b/matersdk/feature/avg/msd.py
index 331750d..d9c10dc 100644
--- a/matersdk/feature/avg/msd.py
+++ b/matersdk/feature/avg/msd.py
@@ -70,7 +70,7 @@ class Msd(object):
             )
         
         msd_values_lst:List[int] = []
-        with mp.Pool(processes=os.cpu_count()-2) as pool:
+        with mp.Pool(processes=max(1, os.cpu_count()-2)) as pool:
             msd_values_lst = pool.starmap(
                                 MsdParallelFunction.calc_msd_s,
                                 parameters_lst
@@ -95,7 +95,7 @@ class Msd(object):
             )
         
         msd_values_lst:List[int] = []
-        with mp.Pool(processes=os.cpu_count()-2) as pool:
+        with mp.Pool(processes=max(1, os.cpu_count()-2)) as pool:
             msd_values_lst = pool.starmap(
                                 MsdParallelFunction.calc_msd_sub_centroid_s,
                                 parameters_lst
-- 
2.43.0


From f13acc81dfbc36e40561654cd332ea45a94cffc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:03 +0000
Subject: [PATCH 42/52] fix: slurm job scripts put every #SBATCH option on its
 own line

---
 matersdk/hpc/slurm/job.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/hpc/slurm/job.py b/matersdk/hpc/slurm/job.py
index 9d8e55d..e753698 100644
--- a/matersdk/hpc/slurm/job.py
+++ b/matersdk/hpc/slurm/job.py
@@ -63,8 +63,8 @@ class Job(object):
             f.write("#SBATCH --job-name={0}\n".format(self.name))
             f.write("#SBATCH --nodes={0}\n".format(self.num_nodes))
             f.write("#SBATCH --ntasks-per-node={0}\n".format(self.num_tasks_per_node))
-            f.write("#SBATCH --threads-per-core={0}".format(self.num_threads_per_core))
-            f.write("#SBATCH --gres=gpu:{0}".format(self.num_gpus))
-            f.write("#SBATCH --gpus-per-task={0}".format(self.num_gpus_per_task))
+            f.write("#SBATCH --threads-per-core={0}\n".format(self.num_threads_per_core))
+            f.write("#SBATCH --gres=gpu:{0}\n".format(self.num_gpus))
+            f.write("#SBATCH --gpus-per-task={0}\n".format(self.num_gpus_per_task))
             f.write("\n\n\n")
             f.write("{0}".format(self.command))
\ No newline at end of file
-- 
2.43.0


From 0bb4426420bf8bb7e47e54f49637d5d7d0eeb800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:03 +0000
Subject: [PATCH 43/52] fix: BatchPerturbStructure writes the perturbed
 structures

---
 matersdk/adalearn/generator/perturbation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matersdk/adalearn/generator/perturbation.py b/matersdk/adalearn/generator/perturbation.py
index 769b88b..c3ee7ad 100644
--- a/matersdk/adalearn/generator/perturbation.py
+++ b/matersdk/adalearn/generator/perturbation.py
@@ -127,8 +127,8 @@ class BatchPerturbStructure(object):
                 os.mkdir( os.path.join(tmp_system, 'structures') )
             for tmp_perturbed_idx, tmp_pertubed_struct in enumerate(perturbed_structs):
                 tmp_pertubed_struct.to(
-                            output_file_path=os.path.join(tmp_system, "structures", "{0}.config".format(tmp_perturbed_idx)),
-                            output_file_format="pwmat")
+                            file_path=os.path.join(tmp_system, "structures", "{0}.config".format(tmp_perturbed_idx)),
+                            file_format="pwmat")
 
 
 '''
-- 
2.43.0


From 887d7d36e2a9cf83a4e248b48ed6c891b26681ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:23 +0000
Subject: [PATCH 44/52] fix: FFExtractor writes every layer of the embedding
 nets, whatever the fitting nets have

---
 matersdk/infer/pwmatmlff/deepmd/extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/infer/pwmatmlff/deepmd/extractor.py b/matersdk/infer/pwmatmlff/deepmd/extractor.py
index 84ee442..e64d33a 100644
--- a/matersdk/infer/pwmatmlff/deepmd/extractor.py
+++ b/matersdk/infer/pwmatmlff/deepmd/extractor.py
@@ -62,7 +62,7 @@ class FFExtractor(object):
         ### Step 2. Extract force field parameters
         ### Step 2.1. Embedding net (Note: Resnet block)
         for tmp_net_idx in range(self.num_embedding_nets):
-            for tmp_layer_idx in range(self.num_fitting_layers):
+            for tmp_layer_idx in range(self.num_embedding_layers):
                 hdf5_file.create_dataset(
                     "embedding_net.{0}.weights.weight{1}".format(tmp_net_idx, tmp_layer_idx),
                     data=self.model_state_dict["embedding_net.{0}.weights.weight{1}".format(tmp_net_idx, tmp_layer_idx)].numpy()
-- 
2.43.0


From 28f960dc13f57ebeef52d1f1425dd1c690780280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:23 +0000
Subject: [PATCH 45/52] fix: DpInfer loads the whole-module .pt files it is
 given

---
 matersdk/infer/pwmatmlff/deepmd/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/infer/pwmatmlff/deepmd/inference.py b/matersdk/infer/pwmatmlff/deepmd/inference.py
index f907232..883f07d 100644
--- a/matersdk/infer/pwmatmlff/deepmd/inference.py
+++ b/matersdk/infer/pwmatmlff/deepmd/inference.py
@@ -113,7 +113,7 @@ class DpInfer(object):
     
 
     def infer(self, structure:DStructure):
-        model = torch.load(f=self.pt_file_path)
+        model = torch.load(f=self.pt_file_path, weights_only=False)
         print("model.to : ", self.device)
         model.to(self.device)
         model.eval()
-- 
2.43.0


From 4362870c5e9f9bac1bae47c4a800c65a1e9500e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:23 +0000
Subject: [PATCH 46/52] fix: natoms_img counts the elements in the order of the
 rows

---
 matersdk/infer/pwmatmlff/deepmd/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/infer/pwmatmlff/deepmd/preprocess.py b/matersdk/infer/pwmatmlff/deepmd/preprocess.py
index 2af0afd..ed93803 100644
--- a/matersdk/infer/pwmatmlff/deepmd/preprocess.py
+++ b/matersdk/infer/pwmatmlff/deepmd/preprocess.py
@@ -112,6 +112,6 @@ class InferPreprocessor(object):
     
     
     def expand_natoms_img(self):
-        natoms = self.structure.get_natoms()
+        natoms = self.structure.get_natoms(atomic_numbers_order=self.center_atomic_numbers)
         natoms_img = natoms_img = np.repeat(natoms[np.newaxis, :], 1, axis=0)
         return natoms_img
\ No newline at end of file
-- 
2.43.0


From 791f59a9f192a27140548ffb1f92f1fddff8fddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:23 +0000
Subject: [PATCH 47/52] fix: copies of an AlignedArray own their elements

---
 source/core/include/AlignedArray.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/source/core/include/AlignedArray.h b/source/core/include/AlignedArray.h
index b30cb1e..8c04937 100644
--- a/source/core/include/AlignedArray.h
+++ b/source/core/include/AlignedArray.h
@@ -46,6 +46,25 @@ public:
         this->allocate(size);
     }
 
+    /**
+     * @brief Copy constructor: the copy owns its own elements
+     */
+    AlignedArray(const AlignedArray& rhs) : data_size(0), base_ptr(0), data(0) {
+        *this = rhs;
+    }
+
+    /**
+     * @brief Copy assignment: the copy owns its own elements
+     */
+    AlignedArray& operator=(const AlignedArray& rhs) {
+        if (this != &rhs) {
+            this->resize(rhs.data_size);
+            for (int ii=0; ii<rhs.data_size; ii++)
+                this->data[ii] = rhs.data[ii];
+        }
+        return *this;
+    }
+
     /**
      * @brief Destructor
      */
-- 
2.43.0


From 7c0878c219fe9cf6f602e2bd0416fa1387abeb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:41 +0000
Subject: [PATCH 48/52] fix: find_info4mlff reads transposed and sliced arrays
 as the arrays they are

---
 source/nblist/bind/nblist_bind.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/source/nblist/bind/nblist_bind.cc b/source/nblist/bind/nblist_bind.cc
index 66ba7d4..0a04c81 100644
--- a/source/nblist/bind/nblist_bind.cc
+++ b/source/nblist/bind/nblist_bind.cc
@@ -52,9 +52,17 @@ PyObject* find_info4mlff(
 
     // Step 1. Init matersdk::Structure<double>
     // Step 1.1. 
-    PyArrayObject* lattice_py_array = (PyArrayObject*)lattice_py;
-    PyArrayObject* atomic_numbers_py_array = (PyArrayObject*)atomic_numbers_py;
-    PyArrayObject* frac_coords_py_array = (PyArrayObject*)frac_coords_py;
+    //      C-ordered arrays of double and int, whatever the layout of the arguments (a transposed array or a slice, say)
+    PyArrayObject* lattice_py_array = (PyArrayObject*)PyArray_FROM_OTF(lattice_py, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
+    PyArrayObject* atomic_numbers_py_array = (PyArrayObject*)PyArray_FROM_OTF(
+            atomic_numbers_py, NPY_INT, NPY_ARRAY_IN_ARRAY | NPY_ARRAY_FORCECAST);
+    PyArrayObject* frac_coords_py_array = (PyArrayObject*)PyArray_FROM_OTF(frac_coords_py, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
+    if (lattice_py_array == NULL || atomic_numbers_py_array == NULL || frac_coords_py_array == NULL) {
+        Py_XDECREF(lattice_py_array);
+        Py_XDECREF(atomic_numbers_py_array);
+        Py_XDECREF(frac_coords_py_array);
+        return NULL;
+    }
     int num_atoms = (int)PyArray_SHAPE(atomic_numbers_py_array)[0];  // npy_intp 占8个字节
     int umax_num_neigh_atoms = (int)PyLong_AsLong(umax_num_neigh_atoms_py);
 
@@ -75,6 +83,9 @@ PyObject* find_info4mlff(
         frac_coords[ii][1] = frac_coords_ptr[ii*3 + 1];
         frac_coords[ii][2] = frac_coords_ptr[ii*3 + 2];
     }
+    Py_DECREF(lattice_py_array);
+    Py_DECREF(atomic_numbers_py_array);
+    Py_DECREF(frac_coords_py_array);
     
     // Step 1.3. You must init it with fractional/cartesian coordinates
     bool is_cart_coord = (PyObject_IsTrue(is_cart_coord_py));
-- 
2.43.0


From 36f494069a83ae8733d0c8bfe03d5baf04c5d536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:41 +0000
Subject: [PATCH 49/52] fix: the firstneigh array of find_info4mlff owns its
 memory

---
 source/nblist/bind/nblist_bind.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/nblist/bind/nblist_bind.cc b/source/nblist/bind/nblist_bind.cc
index 0a04c81..9fd6aab 100644
--- a/source/nblist/bind/nblist_bind.cc
+++ b/source/nblist/bind/nblist_bind.cc
@@ -147,7 +147,7 @@ PyObject* find_info4mlff(
     firstneigh_dims[0] = inum;
     firstneigh_dims[1] = umax_num_neigh_atoms;
     PyObject* firstneigh_py = PyArray_SimpleNewFromData(2, firstneigh_dims, NPY_INT, firstneigh);
-    PyArray_ENABLEFLAGS((PyArrayObject*)numneigh_py, NPY_OWNDATA);
+    PyArray_ENABLEFLAGS((PyArrayObject*)firstneigh_py, NPY_OWNDATA);
     // Step 4.5. relative_coords
     npy_intp* relative_coords_dims = (npy_intp*)malloc(sizeof(npy_intp) * 3);
     relative_coords_dims[0] = inum;
-- 
2.43.0


From d4c3108a9a87b49a65371ff841fb6aff705f7d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:41 +0000
Subject: [PATCH 50/52] fix: EnvMatrixOp and Se4pwOp read views of tensors as
 the tensors they are

---
 source/descriptor/deepmd/src/envMatrixOp.cc | 13 ++++----
 source/descriptor/deepmd/src/se4pw_op.cc    | 34 ++++++++++-----------
 2 files changed, 24 insertions(+), 23 deletions(-)

diff --git a/source/descriptor/deepmd/src/envMatrixOp.cc b/source/descriptor/deepmd/src/envMatrixOp.cc
index 0145ddc..524dadc 100644
--- a/source/descriptor/deepmd/src/envMatrixOp.cc
+++ b/source/descriptor/deepmd/src/envMatrixOp.cc
@@ -146,13 +146,14 @@ torch::autograd::variable_list EnvMatrixOp(
     double rcut,
     double rcut_smooth)
 {
+    // `forward()` reads the elements one after the other: views (slices, transposed tensors) have to be copied
     return EnvMatrixFunction::apply(
-        ilist_tensor,
-        numneigh_tensor,
-        firstneigh_tensor,
-        relative_coords_tensor,
-        types_tensor,
-        umax_num_neigh_atoms_lst_tensor,
+        ilist_tensor.contiguous(),
+        numneigh_tensor.contiguous(),
+        firstneigh_tensor.contiguous(),
+        relative_coords_tensor.contiguous(),
+        types_tensor.contiguous(),
+        umax_num_neigh_atoms_lst_tensor.contiguous(),
         rcut,
         rcut_smooth);
 }
diff --git a/source/descriptor/deepmd/src/se4pw_op.cc b/source/descriptor/deepmd/src/se4pw_op.cc
index 6caf014..168a370 100644
--- a/source/descriptor/deepmd/src/se4pw_op.cc
+++ b/source/descriptor/deepmd/src/se4pw_op.cc
@@ -67,13 +67,13 @@ torch::autograd::variable_list Se4pwOp::forward(
                     tilde_r_deriv_ptr,
                     relative_coords_ptr,
                     inum,
-                    ilist[ii].data_ptr<int>(),
-                    numneigh[ii].data_ptr<int>(),
-                    firstneigh[ii].data_ptr<int>(),
-                    x[ii].data_ptr<float>(),
-                    types[ii].data_ptr<int>(),
+                    ilist[ii].contiguous().data_ptr<int>(),
+                    numneigh[ii].contiguous().data_ptr<int>(),
+                    firstneigh[ii].contiguous().data_ptr<int>(),
+                    x[ii].contiguous().data_ptr<float>(),
+                    types[ii].contiguous().data_ptr<int>(),
                     ntypes,
-                    num_neigh_atoms_lst.data_ptr<int>(),
+                    num_neigh_atoms_lst.contiguous().data_ptr<int>(),
                     (float)rcut,
                     (float)rcut_smooth);
         }
@@ -88,13 +88,13 @@ torch::autograd::variable_list Se4pwOp::forward(
                     tilde_r_deriv_ptr,
                     relative_coords_ptr,
                     inum,
-                    ilist[ii].data_ptr<int>(),
-                    numneigh[ii].data_ptr<int>(),
-                    firstneigh[ii].data_ptr<int>(),
-                    x[ii].data_ptr<double>(),
-                    types[ii].data_ptr<int>(),
+                    ilist[ii].contiguous().data_ptr<int>(),
+                    numneigh[ii].contiguous().data_ptr<int>(),
+                    firstneigh[ii].contiguous().data_ptr<int>(),
+                    x[ii].contiguous().data_ptr<double>(),
+                    types[ii].contiguous().data_ptr<int>(),
                     ntypes,
-                    num_neigh_atoms_lst.data_ptr<int>(),
+                    num_neigh_atoms_lst.contiguous().data_ptr<int>(),
                     rcut,
                     rcut_smooth);
         }
@@ -133,12 +133,12 @@ at::Tensor Se4pwOp::get_prim_indices_from_matersdk(
         Se4pw<double>::get_prim_indices_from_matersdk(
             prim_indices_ptr,
             inum,
-            ilist[ii].data_ptr<int>(),
-            numneigh[ii].data_ptr<int>(),
-            firstneigh[ii].data_ptr<int>(),
-            types[ii].data_ptr<int>(),
+            ilist[ii].contiguous().data_ptr<int>(),
+            numneigh[ii].contiguous().data_ptr<int>(),
+            firstneigh[ii].contiguous().data_ptr<int>(),
+            types[ii].contiguous().data_ptr<int>(),
             ntypes,
-            num_neigh_atoms_lst.data_ptr<int>());
+            num_neigh_atoms_lst.contiguous().data_ptr<int>());
     }
 
     return prim_indices;
-- 
2.43.0


From c721088db692de099ce3d673e3fb8430ad977045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:41 +0000
Subject: [PATCH 51/52] fix: the MTP operators and modules read views of
 tensors as the tensors they are

---
 source/descriptor/mtp/src/mtpBModule.cc   | 3 ++-
 source/descriptor/mtp/src/mtpMModule.cc   | 3 ++-
 source/descriptor/mtp/src/mtpMRadialOp.cc | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/descriptor/mtp/src/mtpBModule.cc b/source/descriptor/mtp/src/mtpBModule.cc
index a8a100b..e09df64 100644
--- a/source/descriptor/mtp/src/mtpBModule.cc
+++ b/source/descriptor/mtp/src/mtpBModule.cc
@@ -39,7 +39,8 @@ at::Tensor MtpBModuleImpl::forward(
     c10::TensorOptions options = c10::TensorOptions()
         .dtype(rcs_tensor.scalar_type())
         .device(rcs_tensor.device());
-    int64_t* ilist_ptr = ilist_tensor.data_ptr<int64_t>();
+    at::Tensor ilist_contiguous = ilist_tensor.contiguous();
+    int64_t* ilist_ptr = ilist_contiguous.data_ptr<int64_t>();
     int64_t* firstneigh_ptr = firstneigh_tensor.data_ptr<int64_t>();
     int64_t nbatches = ilist_tensor.sizes()[0];
     int64_t ncenters = ilist_tensor.sizes()[1];
diff --git a/source/descriptor/mtp/src/mtpMModule.cc b/source/descriptor/mtp/src/mtpMModule.cc
index ba11e0a..bdbdf3b 100644
--- a/source/descriptor/mtp/src/mtpMModule.cc
+++ b/source/descriptor/mtp/src/mtpMModule.cc
@@ -55,7 +55,8 @@ at::Tensor MtpMModuleImpl::forward(
     at::Tensor imtp_m_tensor = at::zeros(imtp_m_tensor_shape, options)
         .requires_grad_(false);
     int64_t z_i = types[iidx].item<int64_t>();
-    int64_t* ifirstneigh = ifirstneigh_tensor.data_ptr<int64_t>();
+    at::Tensor ifirstneigh_contiguous = ifirstneigh_tensor.contiguous();
+    int64_t* ifirstneigh = ifirstneigh_contiguous.data_ptr<int64_t>();
     at::Tensor imtp_q_tensor = MtpQOp(   // .shape = [nneighs, size]
         this->size,
         this->rcuts_tensor,
diff --git a/source/descriptor/mtp/src/mtpMRadialOp.cc b/source/descriptor/mtp/src/mtpMRadialOp.cc
index 7d7f04d..1d60f2f 100644
--- a/source/descriptor/mtp/src/mtpMRadialOp.cc
+++ b/source/descriptor/mtp/src/mtpMRadialOp.cc
@@ -139,7 +139,7 @@ torch::autograd::variable_list MtpQOp(
     const at::Tensor& rcuts_tensor,
     const at::Tensor& rcs_tensor)
 {
-    return MtpQFunction::apply(size, rcuts_tensor, rcs_tensor);
+    return MtpQFunction::apply(size, rcuts_tensor, rcs_tensor.contiguous());
 }
 
 };  // class : mtp
-- 
2.43.0


From 7c07a5f4c2a21d62528f93c76b309757b5d2b840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:08 +0000
Subject: [PATCH 52/52] fix: neighbour lists of atoms outside the cell

Atoms outside the home cell (or on its upper border) were put into bins
that do not exist, which wrote past the heap, and images further away
than one cell were never built. The bins now hold every atom and the
supercell reaches as many cells further as the atoms lie apart; for
atoms inside the cell nothing changes.
---
 source/nblist/include/binLinkedList.h | 78 ++++++++++++++++++++++-----
 1 file changed, 65 insertions(+), 13 deletions(-)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index 3ff61b8..f7f32eb 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -131,6 +131,10 @@ public:
     const CoordType* get_min_limit_xyz() const;
 
 private:
+    static int calc_num_extra_cells(const Structure<CoordType>& structure, int direction);  // 原子分布沿 `direction` 跨越的完整晶胞数 (原子都在晶胞内时为 0)
+
+    void enclose_atoms();       // 扩展 `min_limit_xyz`, `num_bin_xyz`，使 bins 包含 supercell 中的所有原子
+
     Supercell<CoordType> supercell;             // 超胞 `matersdk::Supercell 对象`
     CoordType rcut = 0;                         // 截断半径
     CoordType bin_size_xyz[3] = {0, 0, 0};      // bin 在 x, y, z 方向上的尺寸
@@ -612,6 +616,7 @@ BinLinkedList<CoordType>::BinLinkedList(Structure<CoordType> structure, CoordTyp
     int* extending_matrix = (int*)malloc(sizeof(int) * 3);
     for (int ii=0; ii<3; ii++) {
         extending_matrix[ii] = std::ceil(rcut / prim_interplanar_distances[ii]);
+        extending_matrix[ii] += calc_num_extra_cells(structure, ii);
         scaling_matrix[ii] = extending_matrix[ii] * 2 + 1;
         if (this->pbc_xyz[ii] == false) {
             scaling_matrix[ii] = 1;
@@ -631,6 +636,7 @@ BinLinkedList<CoordType>::BinLinkedList(Structure<CoordType> structure, CoordTyp
     this->min_limit_xyz[0] = limit_xyz[0][0];
     this->min_limit_xyz[1] = limit_xyz[1][0];
     this->min_limit_xyz[2] = limit_xyz[2][0];
+    this->enclose_atoms();
 
     // Step 4. 构建 BinLinkedList -- 将 atoms 分配到不同的 bins 中
     this->_build();
@@ -670,6 +676,7 @@ BinLinkedList<CoordType>::BinLinkedList(Structure<CoordType> structure, CoordTyp
     int* extending_matrix = (int*)malloc(sizeof(int) * 3);
     for (int ii=0; ii<3; ii++) {
         extending_matrix[ii] = std::ceil( this->rcut / prim_interplanar_distances[ii] );
+        extending_matrix[ii] += calc_num_extra_cells(structure, ii);
         scaling_matrix[ii] = extending_matrix[ii] * 2 + 1;
         if (this->pbc_xyz[ii] == false) 
             scaling_matrix[ii] = 1;
@@ -688,6 +695,7 @@ BinLinkedList<CoordType>::BinLinkedList(Structure<CoordType> structure, CoordTyp
     this->min_limit_xyz[0] = limit_xyz[0][0];
     this->min_limit_xyz[1] = limit_xyz[1][0];
     this->min_limit_xyz[2] = limit_xyz[2][0];
+    this->enclose_atoms();
 
     // Step 4. 构建 BinLinkedList -- 将 atoms 分配到不同的 bins 中
     this->_build();
@@ -810,6 +818,61 @@ BinLinkedList<CoordType>::~BinLinkedList() {
 }
 
 
+/**
+ * @brief Number of whole cells by which the atoms lie apart along a lattice direction. 
+ *        It is 0 if all atoms are in the home cell.
+ * 
+ * @tparam CoordType 
+ * @param structure 
+ * @param direction 
+ * @return int 
+ */
+template <typename CoordType>
+int BinLinkedList<CoordType>::calc_num_extra_cells(const Structure<CoordType>& structure, int direction) {
+    const CoordType** basis_vectors = structure.get_basis_vectors();
+    const CoordType** cart_coords = structure.get_cart_coords();
+    const CoordType* a = basis_vectors[direction];
+    const CoordType* b = basis_vectors[(direction + 1) % 3];
+    const CoordType* c = basis_vectors[(direction + 2) % 3];
+    CoordType normal[3] = {b[1]*c[2] - b[2]*c[1], b[2]*c[0] - b[0]*c[2], b[0]*c[1] - b[1]*c[0]};
+    CoordType volume = a[0]*normal[0] + a[1]*normal[1] + a[2]*normal[2];
+
+    CoordType min_frac = 0;
+    CoordType max_frac = 0;
+    for (int ii=0; ii<structure.get_num_atoms(); ii++) {
+        CoordType frac = (cart_coords[ii][0]*normal[0] + cart_coords[ii][1]*normal[1] + cart_coords[ii][2]*normal[2]) / volume;
+        if (ii == 0 || frac < min_frac)
+            min_frac = frac;
+        if (ii == 0 || frac > max_frac)
+            max_frac = frac;
+    }
+    return std::floor(max_frac - min_frac);
+}
+
+
+/**
+ * @brief Extend `this->min_limit_xyz` and `this->num_bin_xyz` until the bins hold every atom of the supercell:
+ *        atoms may lie outside the cell, or on its upper border.
+ * 
+ * @tparam CoordType 
+ */
+template <typename CoordType>
+void BinLinkedList<CoordType>::enclose_atoms() {
+    const CoordType** cart_coords = this->supercell.get_structure().get_cart_coords();
+    for (int ii=0; ii<3; ii++) {
+        for (int jj=0; jj<this->supercell.get_num_atoms(); jj++) {
+            if (cart_coords[jj][ii] < this->min_limit_xyz[ii])
+                this->min_limit_xyz[ii] = cart_coords[jj][ii];
+        }
+        for (int jj=0; jj<this->supercell.get_num_atoms(); jj++) {
+            int bin_idx = std::floor( (cart_coords[jj][ii] - this->min_limit_xyz[ii]) / this->bin_size_xyz[ii] );
+            if (bin_idx >= this->num_bin_xyz[ii])
+                this->num_bin_xyz[ii] = bin_idx + 1;
+        }
+    }
+}
+
+
 /**
  * @brief Build the `BinLinkedList`, populate `this->heads_lst` and `this->nexts_lst`.
  * 
@@ -912,18 +975,13 @@ int* BinLinkedList<CoordType>::get_neigh_bins(int prim_atom_idx) const {
     // Step 1.1.
     assert(prim_atom_idx < this->supercell.get_prim_num_atoms());
     int atom_idx = prim_atom_idx + this->supercell.get_prim_cell_idx() * this->supercell.get_prim_num_atoms();
-    // Step 1.2. 得到 `atom_cart_coord`, `min_limit_xyz`
+    // Step 1.2. 得到 `atom_cart_coord`
     const CoordType* atom_cart_coord = this->supercell.get_structure().get_cart_coords()[atom_idx];
-    CoordType** limit_xyz = this->supercell.get_structure().get_limit_xyz();
-    CoordType min_limit_xyz[3];
-    min_limit_xyz[0] = limit_xyz[0][0];
-    min_limit_xyz[1] = limit_xyz[1][0];
-    min_limit_xyz[2] = limit_xyz[2][0];
 
     // Step 1.3. 计算 atom_idx 的 bin_idx_xyz[3]
     int bin_idx_xyz[3];
     for (int ii=0; ii<3; ii++)
-        bin_idx_xyz[ii] = std::floor( (atom_cart_coord[ii] - min_limit_xyz[ii]) / this->bin_size_xyz[ii] );
+        bin_idx_xyz[ii] = std::floor( (atom_cart_coord[ii] - this->min_limit_xyz[ii]) / this->bin_size_xyz[ii] );
 
     // Step 2. 由 `atom_idx` 的 `bin_idx_xyz[3]` 计算 `neigh_bin_idxs_xyz[num_neigh_bins][3]`
     int num_extened_neigh_bins[3];  // 沿 x,y,z 的正方向有多少个 neigh_bins
@@ -978,12 +1036,6 @@ int* BinLinkedList<CoordType>::get_neigh_bins(int prim_atom_idx) const {
         }
     }
 
-    // Step . Free memory
-    for (int ii=0; ii<3; ii++) {
-        free(limit_xyz[ii]);
-    }
-    free(limit_xyz);
-
     return neigh_bin_idxs;
 }
 
-- 
2.43.0

