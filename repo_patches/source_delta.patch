From 4bed5ce405de89728a81f73281d148055fced9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 01/66] fix: double excitations must not enter the one-body RDM
 when no two-body RDM is requested

---
 include/macis/util/rdms.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/macis/util/rdms.hpp b/include/macis/util/rdms.hpp
index 72b55bb..1f7505d 100644
--- a/include/macis/util/rdms.hpp
+++ b/include/macis/util/rdms.hpp
@@ -109,6 +109,10 @@ inline void rdm_contributions(wfn_t<N> bra_alpha, wfn_t<N> ket_alpha,
   if((ex_alpha_count + ex_beta_count) > 4) return;
 
   const auto trdm_ptr = trdm.data_handle();
+
+  // Double excitations only contribute to the two-body RDM
+  if((ex_alpha_count + ex_beta_count) == 4 and not trdm_ptr) return;
+
   if(ex_alpha_count == 4 and trdm_ptr)
     rdm_contributions_4(bra_alpha, ket_alpha, ex_alpha, val, trdm);
 
-- 
2.43.0


From 34b9921ae7a2bd5f372fe50b676553c92663d217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 02/66] fix: generate_constraint_singles must clear its output
 when no excitation exists

---
 include/macis/asci/mask_constraints.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/macis/asci/mask_constraints.hpp b/include/macis/asci/mask_constraints.hpp
index c9907e0..aa6291a 100644
--- a/include/macis/asci/mask_constraints.hpp
+++ b/include/macis/asci/mask_constraints.hpp
@@ -135,9 +135,9 @@ void generate_constraint_singles(wfn_t<N> det, wfn_t<N> T, wfn_t<N> O_mask,
   auto [o, v] = generate_constraint_single_excitations(det, T, O_mask, B);
   const auto oc = o.count();
   const auto vc = v.count();
+  t_singles.clear();
   if(!oc or !vc) return;
 
-  t_singles.clear();
   t_singles.reserve(oc * vc);
   const auto occ = bits_to_indices(o);
   const auto vir = bits_to_indices(v);
-- 
2.43.0


From 130de09beb45e76163fbcd43d0266ecaff2c9df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 03/66] fix: search-space partitioning must cover spaces with
 fewer electrons than a constraint fixes

---
 include/macis/asci/mask_constraints.hpp | 29 ++++++++++++++++++-------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/macis/asci/mask_constraints.hpp b/include/macis/asci/mask_constraints.hpp
index aa6291a..bd6e501 100644
--- a/include/macis/asci/mask_constraints.hpp
+++ b/include/macis/asci/mask_constraints.hpp
@@ -57,8 +57,8 @@ bool satisfies_constraint(wfn_t<N> det, wfn_t<N> C, unsigned C_min) {
 template <size_t N>
 auto generate_constraint_single_excitations(wfn_t<N> det, wfn_t<N> C,
                                             wfn_t<N> O_mask, wfn_t<N> B) {
-  if((det & C).count() <
-     (C.count() - 1))  // need to have at most one different from the constraint
+  if((det & C).count() + 1 <
+     C.count())  // need to have at most one different from the constraint
     return std::make_pair(wfn_t<N>(0), wfn_t<N>(0));
 
   auto o = det ^ C;
@@ -83,8 +83,6 @@ auto generate_constraint_double_excitations(wfn_t<N> det, wfn_t<N> C,
   // Occ/Vir pairs to generate excitations
   std::vector<wfn_t<N>> O, V;
 
-  if((det & C) == 0) return std::make_tuple(O, V);
-
   auto o = det ^ C;
   auto v = (~det) & O_mask & B;
 
@@ -178,8 +176,6 @@ void generate_constraint_doubles(wfn_t<N> det, wfn_t<N> T, wfn_t<N> O_mask,
 template <size_t N>
 unsigned count_constraint_doubles(wfn_t<N> det, wfn_t<N> C, wfn_t<N> O,
                                   wfn_t<N> B) {
-  if((det & C) == 0) return 0;
-
   auto o = det ^ C;
   auto v = (~det) & O & B;
 
@@ -514,15 +510,32 @@ auto dist_constraint_general(size_t nlevels, size_t norb, size_t ns_othr,
         total_work += nw;
       }
 
+  // Strings with fewer than three electrons satisfy no triplet, start from the
+  // unconstrained space instead
+  const size_t n_alpha = unique_alpha.size() ? unique_alpha[0].count() : 0;
+  if(n_alpha < 3) {
+    wfn_constraint<N> unconstrained{wfn_t<N>(0), O, unsigned(norb)};
+    size_t nw = 0;
+    for(const auto& alpha : unique_alpha) {
+      nw += constraint_histogram(alpha, ns_othr, nd_othr, unconstrained.C, O,
+                                 unconstrained.B);
+    }
+    if(nw) constraint_sizes.emplace_back(unconstrained, nw);
+    total_work += nw;
+  }
+
   size_t local_average = (0.6 * total_work) / world_size;
 
   for(size_t ilevel = 0; ilevel < nlevels; ++ilevel) {
-    // Select constraints larger than average to be broken apart
+    // Select constraints larger than average to be broken apart. Constraints
+    // which already fix every electron cannot be extended
     std::vector<std::pair<wfn_constraint<N>, size_t>> tps_to_next;
     {
       auto it = std::partition(
           constraint_sizes.begin(), constraint_sizes.end(),
-          [=](const auto& a) { return a.second <= local_average; });
+          [=](const auto& a) {
+            return a.second <= local_average or a.first.C.count() >= n_alpha;
+          });
 
       // Remove constraints from full list
       tps_to_next = decltype(tps_to_next)(it, constraint_sizes.end());
-- 
2.43.0


From 0dd6adcffb647e17371718552da23fd44d640eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 04/66] fix: parallel determinant search must not select the
 0th or a beyond-the-end score

---
 include/macis/asci/determinant_search.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/macis/asci/determinant_search.hpp b/include/macis/asci/determinant_search.hpp
index 7d66813..d904e99 100644
--- a/include/macis/asci/determinant_search.hpp
+++ b/include/macis/asci/determinant_search.hpp
@@ -13,6 +13,7 @@
 
 #include <chrono>
 #include <fstream>
+#include <limits>
 #include <macis/asci/determinant_contributions.hpp>
 #include <macis/asci/determinant_sort.hpp>
 #include <macis/sd_operations.hpp>
@@ -572,9 +573,15 @@ std::vector<wfn_t<N>> asci_search(
                      [](const auto& p) { return std::abs(p.rv); });
 
       // Determine kth-ranked scores
-      auto kth_score =
-          dist_quickselect(scores.begin(), scores.end(), top_k_elements, comm,
-                           std::greater<double>{}, std::equal_to<double>{});
+      // (none are kept for top-0, all are if there are no more than top-K)
+      const size_t n_scores = allreduce(scores.size(), MPI_SUM, comm);
+      double kth_score = 0.0;
+      if(top_k_elements == 0)
+        kth_score = std::numeric_limits<double>::infinity();
+      else if(n_scores > top_k_elements)
+        kth_score =
+            dist_quickselect(scores.begin(), scores.end(), top_k_elements, comm,
+                             std::greater<double>{}, std::equal_to<double>{});
 
       // Partition local pairs into less / eq batches
       auto [g_begin, e_begin, l_begin, _end] = leg_partition(
-- 
2.43.0


From d298b6dbde3aee54e2011fc91e0a8b01e92a7492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 05/66] fix: parallel determinant search must honour
 just_singles

---
 include/macis/asci/determinant_search.hpp | 64 ++++++++++++-----------
 1 file changed, 34 insertions(+), 30 deletions(-)

diff --git a/include/macis/asci/determinant_search.hpp b/include/macis/asci/determinant_search.hpp
index d904e99..e04af32 100644
--- a/include/macis/asci/determinant_search.hpp
+++ b/include/macis/asci/determinant_search.hpp
@@ -296,32 +296,34 @@ asci_contrib_container<wfn_t<N>> asci_contributions_constraint(
             h_el_tol, h_diag, E_ASCI, ham_gen, asci_pairs);
       }
 
-      // AAAA excitations
-      for(const auto& bcd : uad[i_alpha].bcd) {
-        const auto& beta = bcd.beta_string;
-        const auto& coeff = bcd.coeff;
-        const auto& h_diag = bcd.h_diag;
-        const auto& occ_beta = bcd.occ_beta;
-        const auto& orb_ens_alpha = bcd.orb_ens_alpha;
-        generate_constraint_doubles_contributions_ss(
-            coeff, det, C, O, B, beta, occ_alpha, occ_beta,
-            orb_ens_alpha.data(), G_pqrs, norb, h_el_tol, h_diag, E_ASCI,
-            ham_gen, asci_pairs);
-      }
+      if(not asci_settings.just_singles) {
+        // AAAA excitations
+        for(const auto& bcd : uad[i_alpha].bcd) {
+          const auto& beta = bcd.beta_string;
+          const auto& coeff = bcd.coeff;
+          const auto& h_diag = bcd.h_diag;
+          const auto& occ_beta = bcd.occ_beta;
+          const auto& orb_ens_alpha = bcd.orb_ens_alpha;
+          generate_constraint_doubles_contributions_ss(
+              coeff, det, C, O, B, beta, occ_alpha, occ_beta,
+              orb_ens_alpha.data(), G_pqrs, norb, h_el_tol, h_diag, E_ASCI,
+              ham_gen, asci_pairs);
+        }
 
-      // AABB excitations
-      for(const auto& bcd : uad[i_alpha].bcd) {
-        const auto& beta = bcd.beta_string;
-        const auto& coeff = bcd.coeff;
-        const auto& h_diag = bcd.h_diag;
-        const auto& occ_beta = bcd.occ_beta;
-        const auto& vir_beta = bcd.vir_beta;
-        const auto& orb_ens_alpha = bcd.orb_ens_alpha;
-        const auto& orb_ens_beta = bcd.orb_ens_beta;
-        generate_constraint_doubles_contributions_os(
-            coeff, det, C, O, B, beta, occ_alpha, occ_beta, vir_beta,
-            orb_ens_alpha.data(), orb_ens_beta.data(), V_pqrs, norb, h_el_tol,
-            h_diag, E_ASCI, ham_gen, asci_pairs);
+        // AABB excitations
+        for(const auto& bcd : uad[i_alpha].bcd) {
+          const auto& beta = bcd.beta_string;
+          const auto& coeff = bcd.coeff;
+          const auto& h_diag = bcd.h_diag;
+          const auto& occ_beta = bcd.occ_beta;
+          const auto& vir_beta = bcd.vir_beta;
+          const auto& orb_ens_alpha = bcd.orb_ens_alpha;
+          const auto& orb_ens_beta = bcd.orb_ens_beta;
+          generate_constraint_doubles_contributions_os(
+              coeff, det, C, O, B, beta, occ_alpha, occ_beta, vir_beta,
+              orb_ens_alpha.data(), orb_ens_beta.data(), V_pqrs, norb, h_el_tol,
+              h_diag, E_ASCI, ham_gen, asci_pairs);
+        }
       }
 
       // If the alpha determinant satisfies the constraint,
@@ -343,11 +345,13 @@ asci_contrib_container<wfn_t<N>> asci_contributions_constraint(
               eps_beta.data(), T_pq, norb, G_red, norb, V_red, norb, h_el_tol,
               h_diag, E_ASCI, ham_gen, asci_pairs);
 
-          // BBBB Excitations
-          append_ss_doubles_asci_contributions<N / 2, N / 2>(
-              coeff, state, state_beta, occ_beta, vir_beta, occ_alpha,
-              eps_beta.data(), G_pqrs, norb, h_el_tol, h_diag, E_ASCI, ham_gen,
-              asci_pairs);
+          if(not asci_settings.just_singles) {
+            // BBBB Excitations
+            append_ss_doubles_asci_contributions<N / 2, N / 2>(
+                coeff, state, state_beta, occ_beta, vir_beta, occ_alpha,
+                eps_beta.data(), G_pqrs, norb, h_el_tol, h_diag, E_ASCI, ham_gen,
+                asci_pairs);
+          }
 
         }  // Beta Loop
       }    // Triplet Check
-- 
2.43.0


From 671c4df962c067ab590faa91173705b1caeeadd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 06/66] fix: pruning in the parallel determinant search must
 not reorder finished constraints

---
 include/macis/asci/determinant_search.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/macis/asci/determinant_search.hpp b/include/macis/asci/determinant_search.hpp
index e04af32..3ae73df 100644
--- a/include/macis/asci/determinant_search.hpp
+++ b/include/macis/asci/determinant_search.hpp
@@ -360,7 +360,8 @@ asci_contrib_container<wfn_t<N>> asci_contributions_constraint(
       if(asci_pairs.size() > asci_settings.pair_size_max) {
         // Remove small contributions
         auto it = std::partition(
-            asci_pairs.begin(), asci_pairs.end(), [=](const auto& x) {
+            asci_pairs.begin() + size_before, asci_pairs.end(),
+            [=](const auto& x) {
               return std::abs(x.rv) > asci_settings.rv_prune_tol;
             });
         asci_pairs.erase(it, asci_pairs.end());
-- 
2.43.0


From 7aa18393f06bbe380e72a1b778b4c0038a6e6ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 07/66] fix: ties in the parallel determinant search must not
 displace higher scores

---
 include/macis/asci/determinant_search.hpp | 47 +++++++++++++----------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/include/macis/asci/determinant_search.hpp b/include/macis/asci/determinant_search.hpp
index 3ae73df..6d1b6f5 100644
--- a/include/macis/asci/determinant_search.hpp
+++ b/include/macis/asci/determinant_search.hpp
@@ -598,29 +598,34 @@ std::vector<wfn_t<N>> asci_search(
       size_t n_greater = std::distance(g_begin, e_begin);
       size_t n_equal = std::distance(e_begin, l_begin);
       size_t n_less = std::distance(l_begin, _end);
-      const int n_geq_local = n_greater + n_equal;
 
-      // Strip bitsrings
-      std::vector<wfn_t<N>> keep_strings_local(n_geq_local);
-      std::transform(g_begin, l_begin, keep_strings_local.begin(),
-                     [](const auto& p) { return p.state; });
-
-      // Gather global strings
-      std::vector<int> local_sizes, displ;
-      auto n_geq_global = total_gather_and_exclusive_scan(
-          n_geq_local, local_sizes, displ, comm);
-
-      std::vector<wfn_t<N>> keep_strings_global(n_geq_global);
+      // Gather global strings - all strictly greater elements precede those
+      // tied with the kth-ranked score, such that only the latter are erased
+      // in the edge case where NGEQ > TOPK
+      std::vector<wfn_t<N>> keep_strings_global;
       auto string_dtype = mpi_traits<wfn_t<N>>::datatype();
-      MPI_Allgatherv(keep_strings_local.data(), n_geq_local, string_dtype,
-                     keep_strings_global.data(), local_sizes.data(),
-                     displ.data(), string_dtype, comm);
-
-      // Edge case where NGEQ > TOPK - erase equivalent elements
-      if(n_geq_global > top_k_elements) {
-        n_geq_global = top_k_elements;
-        keep_strings_global.resize(n_geq_global);
-      }
+      auto gather_strings = [&](auto p_begin, auto p_end) {
+        // Strip bitsrings
+        const int n_local = std::distance(p_begin, p_end);
+        std::vector<wfn_t<N>> keep_strings_local(n_local);
+        std::transform(p_begin, p_end, keep_strings_local.begin(),
+                       [](const auto& p) { return p.state; });
+
+        std::vector<int> local_sizes, displ;
+        const auto n_global =
+            total_gather_and_exclusive_scan(n_local, local_sizes, displ, comm);
+        const auto n_old = keep_strings_global.size();
+        keep_strings_global.resize(n_old + n_global);
+        MPI_Allgatherv(keep_strings_local.data(), n_local, string_dtype,
+                       keep_strings_global.data() + n_old, local_sizes.data(),
+                       displ.data(), string_dtype, comm);
+      };
+      gather_strings(g_begin, e_begin);
+      gather_strings(e_begin, l_begin);
+
+      const size_t n_geq_global =
+          std::min(keep_strings_global.size(), top_k_elements);
+      keep_strings_global.resize(n_geq_global);
 
       // Make fake strings
       topk.resize(n_geq_global);
-- 
2.43.0


From d0d9f3f51c0599b0a34f20b8eef7335fb660c57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:06 +0000
Subject: [PATCH 08/66] fix: distributed CI guess must be placed and chosen
 correctly for every row distribution

---
 include/macis/solvers/davidson.hpp         |  9 +++++----
 include/macis/solvers/selected_ci_diag.hpp | 11 ++++++-----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/macis/solvers/davidson.hpp b/include/macis/solvers/davidson.hpp
index 6375677..18ee591 100644
--- a/include/macis/solvers/davidson.hpp
+++ b/include/macis/solvers/davidson.hpp
@@ -100,10 +100,11 @@ void p_diagonal_guess(size_t N_local, const SpMatType& A, double* X) {
   // Zero out guess
   for(size_t i = 0; i < N_local; ++i) X[i] = 0.;
 
-  // Get owner rank
-  int owner_rank = min_idx / remote_counts[0];
-  if(world_rank == owner_rank) {
-    X[min_idx - A.local_row_start()] = 1.;
+  // Set the element on the owning rank
+  const int64_t local_row_start = row_starts[world_rank];
+  const int64_t local_row_end = row_starts[world_rank + 1];
+  if(min_idx >= local_row_start and min_idx < local_row_end) {
+    X[min_idx - local_row_start] = 1.;
   }
 }
 #endif
diff --git a/include/macis/solvers/selected_ci_diag.hpp b/include/macis/solvers/selected_ci_diag.hpp
index 0a1e293..72d28e7 100644
--- a/include/macis/solvers/selected_ci_diag.hpp
+++ b/include/macis/solvers/selected_ci_diag.hpp
@@ -38,12 +38,13 @@ double parallel_selected_ci_diag(const SpMatType& H, size_t davidson_max_m,
   auto D_local = extract_diagonal_elements(H.diagonal_tile());
 
   // Setup guess
-  auto max_c = *std::max_element(
-      C_local.begin(), C_local.end(),
-      [](auto a, auto b) { return std::abs(a) < std::abs(b); });
-  max_c = std::abs(max_c);
+  double max_c = 0.;
+  for(auto c : C_local) max_c = std::max(max_c, std::abs(c));
+
+  // All ranks must make the same choice
+  max_c = allreduce(max_c, MPI_MAX, comm);
 
-  if(max_c > (1. / C_local.size())) {
+  if(max_c > (1. / H.m())) {
     logger->info("  * Will use passed vector as guess");
   } else {
     logger->info("  * Will generate identity guess");
-- 
2.43.0


From 0a1a89059dfb1545e143eeeb0019390e41cba42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 09/66] fix: Gram-Schmidt in Davidson must not return the
 direction of rounding noise along the old basis

---
 include/macis/solvers/davidson.hpp | 65 ++++++++++++++----------------
 1 file changed, 31 insertions(+), 34 deletions(-)

diff --git a/include/macis/solvers/davidson.hpp b/include/macis/solvers/davidson.hpp
index 18ee591..766b485 100644
--- a/include/macis/solvers/davidson.hpp
+++ b/include/macis/solvers/davidson.hpp
@@ -112,18 +112,18 @@ void p_diagonal_guess(size_t N_local, const SpMatType& A, double* X) {
 inline void gram_schmidt(int64_t N, int64_t K, const double* V_old, int64_t LDV,
                          double* V_new) {
   std::vector<double> inner(K);
-  blas::gemm(blas::Layout::ColMajor, blas::Op::ConjTrans, blas::Op::NoTrans, K,
-             1, N, 1., V_old, LDV, V_new, N, 0., inner.data(), K);
-  blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans, N, 1,
-             K, -1., V_old, LDV, inner.data(), K, 1., V_new, N);
-
-  blas::gemm(blas::Layout::ColMajor, blas::Op::ConjTrans, blas::Op::NoTrans, K,
-             1, N, 1., V_old, LDV, V_new, N, 0., inner.data(), K);
-  blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans, N, 1,
-             K, -1., V_old, LDV, inner.data(), K, 1., V_new, N);
+  // Project at least twice, and until the (normalized) vector survives the
+  // projection - what is left of a vector in the span of V_old is noise
+  for(int pass = 0; pass < 10; ++pass) {
+    blas::gemm(blas::Layout::ColMajor, blas::Op::ConjTrans, blas::Op::NoTrans,
+               K, 1, N, 1., V_old, LDV, V_new, N, 0., inner.data(), K);
+    blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans, N,
+               1, K, -1., V_old, LDV, inner.data(), K, 1., V_new, N);
 
-  auto nrm = blas::nrm2(N, V_new, 1);
-  blas::scal(N, 1. / nrm, V_new, 1);
+    auto nrm = blas::nrm2(N, V_new, 1);
+    blas::scal(N, 1. / nrm, V_new, 1);
+    if(pass and nrm > 0.5) break;
+  }
 }
 
 template <typename Functor>
@@ -229,31 +229,28 @@ auto davidson(int64_t N, int64_t max_m, const Functor& op, const double* D,
 inline void p_gram_schmidt(int64_t N_local, int64_t K, const double* V_old,
                            int64_t LDV, double* V_new, MPI_Comm comm) {
   std::vector<double> inner(K);
-  // Compute local V_old**H * V_new
-  blas::gemm(blas::Layout::ColMajor, blas::Op::ConjTrans, blas::Op::NoTrans, K,
-             1, N_local, 1., V_old, LDV, V_new, N_local, 0., inner.data(), K);
-
-  // Reduce inner product
-  allreduce(inner.data(), K, MPI_SUM, comm);
+  // See gram_schmidt
+  for(int pass = 0; pass < 10; ++pass) {
+    // Compute local V_old**H * V_new
+    blas::gemm(blas::Layout::ColMajor, blas::Op::ConjTrans, blas::Op::NoTrans,
+               K, 1, N_local, 1., V_old, LDV, V_new, N_local, 0., inner.data(),
+               K);
 
-  // Project locally
-  blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
-             N_local, 1, K, -1., V_old, LDV, inner.data(), K, 1., V_new,
-             N_local);
+    // Reduce inner product
+    allreduce(inner.data(), K, MPI_SUM, comm);
 
-  // Repeat
-  blas::gemm(blas::Layout::ColMajor, blas::Op::ConjTrans, blas::Op::NoTrans, K,
-             1, N_local, 1., V_old, LDV, V_new, N_local, 0., inner.data(), K);
-  allreduce(inner.data(), K, MPI_SUM, comm);
-  blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
-             N_local, 1, K, -1., V_old, LDV, inner.data(), K, 1., V_new,
-             N_local);
-
-  // Normalize
-  double dot = blas::dot(N_local, V_new, 1, V_new, 1);
-  dot = allreduce(dot, MPI_SUM, comm);
-  double nrm = std::sqrt(dot);
-  blas::scal(N_local, 1. / nrm, V_new, 1);
+    // Project locally
+    blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
+               N_local, 1, K, -1., V_old, LDV, inner.data(), K, 1., V_new,
+               N_local);
+
+    // Normalize
+    double dot = blas::dot(N_local, V_new, 1, V_new, 1);
+    dot = allreduce(dot, MPI_SUM, comm);
+    double nrm = std::sqrt(dot);
+    blas::scal(N_local, 1. / nrm, V_new, 1);
+    if(pass and nrm > 0.5) break;
+  }
 }
 
 inline void p_rayleigh_ritz(int64_t N_local, int64_t K, const double* X,
-- 
2.43.0


From 1d0bacfb3a8588d6e005ccb779c25e7c7d93efef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 10/66] fix: asci_grow must return the energy of the
 rediagonalised (rotated) Hamiltonian

---
 include/macis/asci/grow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/macis/asci/grow.hpp b/include/macis/asci/grow.hpp
index f3f4260..cc5e5d7 100644
--- a/include/macis/asci/grow.hpp
+++ b/include/macis/asci/grow.hpp
@@ -124,7 +124,7 @@ auto asci_grow(ASCISettings asci_settings, MCSCFSettings mcscf_settings,
       logger->trace("  * Rediagonalizing");
       auto rdg_st = hrt_t::now();
       std::vector<double> X_local;
-      selected_ci_diag(
+      E = selected_ci_diag(
           wfn.begin(), wfn.end(), ham_gen, mcscf_settings.ci_matel_tol,
           mcscf_settings.ci_max_subspace, mcscf_settings.ci_res_tol,
           X_local MACIS_MPI_CODE(, comm));
-- 
2.43.0


From 40ca090e3be02a66cd250a2528473125cb5b0143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 11/66] fix: write_fcidump must work more than once and leave a
 complete file

---
 src/macis/fcidump.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index bf1d776..851ce7e 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -183,7 +183,10 @@ void read_fcidump_2body(std::string fname, double* V, size_t LDV) {
 
 void write_fcidump(std::string fname, size_t norb, const double* T, size_t LDT,
                    const double* V, size_t LDV, double E_core) {
-  auto logger = spdlog::basic_logger_mt("fcidump", fname);
+  // Not registered: every call owns (and truncates, flushes, closes) its file
+  auto logger = std::make_shared<spdlog::logger>(
+      "fcidump",
+      std::make_shared<spdlog::sinks::basic_file_sink_st>(fname, true));
   logger->set_pattern("%v");
   const std::string fmt_string = "{:8} {:8} {:8} {:8} {:25.16e}";
 
-- 
2.43.0


From 1ddeb67d00499931411975d35cc618734003cb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 12/66] fix: read_fcidump must accept values below the normal
 floating-point range

---
 src/macis/fcidump.cxx | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index 851ce7e..b7f54d3 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -9,6 +9,7 @@
 #include <spdlog/sinks/basic_file_sink.h>
 #include <spdlog/spdlog.h>
 
+#include <cstdlib>
 #include <fstream>
 #include <iomanip>
 #include <iostream>
@@ -33,6 +34,14 @@ bool is_float(const std::string& str) {
                      [](auto c) { return std::isalpha(c) or c == '.'; });
 }
 
+// As std::stod, but values below the normal range are not an error
+double to_double(const std::string& str) {
+  char* end = nullptr;
+  const double val = std::strtod(str.c_str(), &end);
+  if(end == str.c_str()) throw std::invalid_argument("Invalid FCIDUMP Value");
+  return val;
+}
+
 auto fcidump_line(const std::vector<std::string>& tokens) {
   auto idx_first = is_float(tokens.back());
   auto int_first = is_float(tokens.front());
@@ -47,13 +56,13 @@ auto fcidump_line(const std::vector<std::string>& tokens) {
     q = std::stoi(tokens[1]);
     r = std::stoi(tokens[2]);
     s = std::stoi(tokens[3]);
-    integral = std::stod(tokens[4]);
+    integral = to_double(tokens[4]);
   } else {
     p = std::stoi(tokens[1]);
     q = std::stoi(tokens[2]);
     r = std::stoi(tokens[3]);
     s = std::stoi(tokens[4]);
-    integral = std::stod(tokens[0]);
+    integral = to_double(tokens[0]);
   }
 
   if(p < 0 or q < 0 or r < 0 or s < 0)
-- 
2.43.0


From 4a3a4aebba9a9480d7f856b6eaf07e2c609af614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:08 +0000
Subject: [PATCH 13/66] fix: orbital-energy lines of an FCIDUMP file are not
 one-electron integrals

---
 src/macis/fcidump.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index b7f54d3..9d34eb1 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -71,13 +71,15 @@ auto fcidump_line(const std::vector<std::string>& tokens) {
   return std::make_tuple(p, q, r, s, integral);
 }
 
-enum LineClassification { Core, OneBody, TwoBody };
+enum LineClassification { Core, OrbitalEnergy, OneBody, TwoBody };
 
 LineClassification line_classification(int p, int q, int r, int s) {
   if(!(p or q or r or s))
     return LineClassification::Core;
   else if(p and q and r and s)
     return LineClassification::TwoBody;
+  else if(p and not(q or r or s))
+    return LineClassification::OrbitalEnergy;
   else
     return LineClassification::OneBody;
 }
-- 
2.43.0


From 2a80400b42c79716da0d21183e103d435916918a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:08 +0000
Subject: [PATCH 14/66] fix: a header line of five tokens is not an FCIDUMP
 data line

---
 src/macis/fcidump.cxx | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index 9d34eb1..57720db 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -34,6 +34,14 @@ bool is_float(const std::string& str) {
                      [](auto c) { return std::isalpha(c) or c == '.'; });
 }
 
+// Five numbers, as opposed to a namelist header line of five tokens
+bool is_fcidump_line(const std::vector<std::string>& tokens) {
+  return tokens.size() == 5 and
+         std::all_of(tokens.begin(), tokens.end(), [](auto& t) {
+           return t.find_first_of("=,&/") == std::string::npos;
+         });
+}
+
 // As std::stod, but values below the normal range are not an error
 double to_double(const std::string& str) {
   char* end = nullptr;
@@ -92,7 +100,7 @@ uint32_t read_fcidump_norb(std::string fname) {
   int32_t max_idx = 0;
   while(std::getline(file, line)) {
     auto tokens = split(line, " ");
-    if(tokens.size() != 5) continue;  // not a valid FCIDUMP line
+    if(not is_fcidump_line(tokens)) continue;  // not a valid FCIDUMP line
 
     auto [p, q, r, s, integral] = fcidump_line(tokens);
 
@@ -107,7 +115,7 @@ double read_fcidump_core(std::string fname) {
   std::string line;
   while(std::getline(file, line)) {
     auto tokens = split(line, " ");
-    if(tokens.size() != 5) continue;  // not a valid FCIDUMP line
+    if(not is_fcidump_line(tokens)) continue;  // not a valid FCIDUMP line
 
     auto [p, q, r, s, integral] = fcidump_line(tokens);
     auto lc = line_classification(p, q, r, s);
@@ -129,7 +137,7 @@ void read_fcidump_1body(std::string fname, col_major_span<double, 2> T) {
   std::string line;
   while(std::getline(file, line)) {
     auto tokens = split(line, " ");
-    if(tokens.size() != 5) continue;  // not a valid FCIDUMP line
+    if(not is_fcidump_line(tokens)) continue;  // not a valid FCIDUMP line
 
     auto [p, q, r, s, integral] = fcidump_line(tokens);
     auto lc = line_classification(p, q, r, s);
@@ -162,7 +170,7 @@ void read_fcidump_2body(std::string fname, col_major_span<double, 4> V) {
   std::string line;
   while(std::getline(file, line)) {
     auto tokens = split(line, " ");
-    if(tokens.size() != 5) continue;  // not a valid FCIDUMP line
+    if(not is_fcidump_line(tokens)) continue;  // not a valid FCIDUMP line
 
     auto [p, q, r, s, integral] = fcidump_line(tokens);
     auto lc = line_classification(p, q, r, s);
-- 
2.43.0


From d87281640dcf9932fba1e3203fc9535cab1c58f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 15/66] fix: read_wavefunction must accept subnormal
 coefficients

---
 include/macis/wavefunction_io.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/macis/wavefunction_io.hpp b/include/macis/wavefunction_io.hpp
index bc38f7e..7308a31 100644
--- a/include/macis/wavefunction_io.hpp
+++ b/include/macis/wavefunction_io.hpp
@@ -8,6 +8,7 @@
 
 #pragma once
 #include <bitset>
+#include <cstdlib>
 #include <fstream>
 #include <iomanip>
 #include <iostream>
@@ -68,7 +69,8 @@ void read_wavefunction(std::string fname, std::vector<std::bitset<N>>& states,
     std::string c, d;
     ss >> c >> d;
     states.emplace_back(from_canonical_string<N>(d));
-    coeffs.emplace_back(std::stod(c));
+    // Unlike std::stod, strtod does not refuse subnormal coefficients
+    coeffs.emplace_back(std::strtod(c.c_str(), nullptr));
   }
 }
 
-- 
2.43.0


From d41c7e1a97e00dc2bee6955a61dfe30d72f4d523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 16/66] fix: four_index_transform must honour padded leading
 dimensions

---
 src/macis/transform.cxx | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/macis/transform.cxx b/src/macis/transform.cxx
index 0403307..e156938 100644
--- a/src/macis/transform.cxx
+++ b/src/macis/transform.cxx
@@ -62,10 +62,15 @@ void four_index_transform(size_t norb_old, size_t norb_new, const double* X,
 
   // 1st Quarter
   // TMP1(p,j,k,l) = C(i,p) * X(i,j,k,l)
-  // TMP1(p, jkl)  = C(i,p) * X(i,jkl)
-  blas::gemm(blas::Layout::ColMajor, blas::Op::Trans, blas::Op::NoTrans,
-             norb_new, norb_old3, norb_old, 1.0, C, LDC, X, LDX, 0.0,
-             tmp1.data(), norb_new);
+  // TMP1_kl(p,j)  = C(i,p) * X_kl(i,j)
+  for(size_t l = 0; l < norb_old; ++l)
+    for(size_t k = 0; k < norb_old; ++k) {
+      auto X_kl = X + (k + l * LDX) * LDX * LDX;
+      auto TMP1_kl = tmp1.data() + (k + l * norb_old) * norb_old * norb_new;
+      blas::gemm(blas::Layout::ColMajor, blas::Op::Trans, blas::Op::NoTrans,
+                 norb_new, norb_old, norb_old, 1.0, C, LDC, X_kl, LDX, 0.0,
+                 TMP1_kl, norb_new);
+    }
 
   // 2nd Quarter
   // TMP2(p,q,k,l) = C(j,q) * TMP1(p,j,k,l)
@@ -91,10 +96,15 @@ void four_index_transform(size_t norb_old, size_t norb_new, const double* X,
 
   // 4th Quarter
   // Y(p,q,r,s) = C(l,s) * TMP1(p,q,r,l)
-  // Y(pqr,s) = V(pqr,l) * C(l,s)
-  blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
-             norb_new3, norb_new, norb_old, 1.0, tmp1.data(), norb_new3, C, LDC,
-             0.0, Y, norb_new3);
+  // Y_qr(p,s)  = TMP1_qr(p,l) * C(l,s)
+  for(size_t r = 0; r < norb_new; ++r)
+    for(size_t q = 0; q < norb_new; ++q) {
+      auto TMP1_qr = tmp1.data() + (q + r * norb_new) * norb_new;
+      auto Y_qr = Y + (q + r * LDY) * LDY;
+      blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
+                 norb_new, norb_new, norb_old, 1.0, TMP1_qr, norb_new3, C, LDC,
+                 0.0, Y_qr, LDY * LDY * LDY);
+    }
 
 #else
 
-- 
2.43.0


From 6c71c65d3f81a053c87d341dd515c7dec007c7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 17/66] fix: generalized_fock_matrix must set the virtual rows
 to zero as documented

---
 src/macis/fock_matrices.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/macis/fock_matrices.cxx b/src/macis/fock_matrices.cxx
index a2708f1..24f6a6b 100644
--- a/src/macis/fock_matrices.cxx
+++ b/src/macis/fock_matrices.cxx
@@ -176,6 +176,13 @@ void generalized_fock_matrix(NumOrbital _norb, NumInactive _ninact,
       const size_t v_off = v + ninact;
       F[v_off + p * LDF] = X[p + v * norb] + Q[v + p * LDQ];
     }
+
+  // Virtual - General
+  // F(a,p) = 0
+  for(size_t a = ninact + nact; a < norb; ++a)
+    for(size_t p = 0; p < norb; ++p) {
+      F[a + p * LDF] = 0.;
+    }
 }
 
 void generalized_fock_matrix_comp_mat1(NumOrbital _norb, NumInactive _ninact,
-- 
2.43.0


From 19a692a1224a0457da2c7c6ab4ce334c8330f0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 18/66] fix: numerical_orbital_gradient must honour the leading
 dimension of its output

---
 src/macis/orbital_gradient.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macis/orbital_gradient.cxx b/src/macis/orbital_gradient.cxx
index 918bfba..2ba9a54 100644
--- a/src/macis/orbital_gradient.cxx
+++ b/src/macis/orbital_gradient.cxx
@@ -156,7 +156,7 @@ void numerical_orbital_gradient(NumOrbital _norb, NumInactive ninact,
       compute_orbital_rotation(_norb, -2.0, K.data(), norb, U.data(), norb);
       auto E_m2 = energy();
 
-      OG[a + i * norb] = (E_m2 - E_p2 + 8 * (E_p1 - E_m1)) / (12 * dk);
+      OG[a + i * LDOG] = (E_m2 - E_p2 + 8 * (E_p1 - E_m1)) / (12 * dk);
     }
 }
 
-- 
2.43.0


From bd129c952104f0077831feedae830103726d2960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 19/66] fix: numerical_orbital_hessian must compute every pair
 of rotations

---
 src/macis/orbital_gradient.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macis/orbital_gradient.cxx b/src/macis/orbital_gradient.cxx
index 2ba9a54..0fee681 100644
--- a/src/macis/orbital_gradient.cxx
+++ b/src/macis/orbital_gradient.cxx
@@ -182,7 +182,7 @@ void numerical_orbital_hessian(NumOrbital _norb, NumInactive ninact,
   for(size_t i = 0; i < norb; ++i)
     for(size_t a = i + 1; a < norb; ++a)
       for(size_t j = 0; j < norb; ++j)
-        for(size_t b = i + 1; b < norb; ++b) {
+        for(size_t b = j + 1; b < norb; ++b) {
           std::fill(Kx.begin(), Kx.end(), 0);
           std::fill(Ky.begin(), Ky.end(), 0);
           Kx[a + i * norb] = dk;
-- 
2.43.0


From 7605147c68dd1d8abb1dc1e5fc37797fecd84068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:38 +0000
Subject: [PATCH 20/66] fix: one_index_transformed_hamiltonian must use the
 leading dimension of T

---
 src/macis/orbital_hessian.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macis/orbital_hessian.cxx b/src/macis/orbital_hessian.cxx
index fcddd40..de2d6be 100644
--- a/src/macis/orbital_hessian.cxx
+++ b/src/macis/orbital_hessian.cxx
@@ -77,7 +77,7 @@ void one_index_transformed_hamiltonian(NumOrbital norb, const double* T,
       double tmp = 0.0;
       for(size_t o = 0; o < no; ++o) {
         tmp +=
-            X[p + o * LDX] * T[o + q * LDT] + X[q + o * LDX] * T[p + o * LDX];
+            X[p + o * LDX] * T[o + q * LDT] + X[q + o * LDX] * T[p + o * LDT];
       }
       Tx[p + q * LDTx] = tmp;
     }
-- 
2.43.0


From d7a2259caf345fa5c1448153d8d093b0f3d6f42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:14 +0000
Subject: [PATCH 21/66] fix: orb_orb_hessian_contract must weight the
 commutator term by one half

---
 src/macis/orbital_hessian.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macis/orbital_hessian.cxx b/src/macis/orbital_hessian.cxx
index de2d6be..d588e25 100644
--- a/src/macis/orbital_hessian.cxx
+++ b/src/macis/orbital_hessian.cxx
@@ -140,10 +140,10 @@ void orb_orb_hessian_contract(NumOrbital norb, NumInactive ninact,
   blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans, no,
              no, no, 1., Tk.data(), no, K_full.data(), no, 0., Fk.data(), no);
 
-  // Replace Tk with [G,K]
+  // Replace Tk with [G,K] / 2
   for(size_t p = 0; p < no; ++p)
     for(size_t q = 0; q < no; ++q) {
-      Tk[p + q * no] = Fk[p + q * no] - Fk[q + p * no];
+      Tk[p + q * no] = 0.5 * (Fk[p + q * no] - Fk[q + p * no]);
     }
 
   // Take out orbital rotation piece into a temporary buffer
-- 
2.43.0


From eba74b2b82c12a611a977d3b15fb9b77ec89039d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:59 +0000
Subject: [PATCH 22/66] fix: limit DIIS-extrapolated orbital steps, which could
 destroy the orthogonality of the orbitals

---
 include/macis/util/mcscf_impl.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/macis/util/mcscf_impl.hpp b/include/macis/util/mcscf_impl.hpp
index 48d1f85..c8673a3 100644
--- a/include/macis/util/mcscf_impl.hpp
+++ b/include/macis/util/mcscf_impl.hpp
@@ -231,6 +231,17 @@ double mcscf_impl(const Functor& rdm_op, MCSCFSettings settings,
       diis.add_vector(K_total, OG);
       if(iter >= (settings.diis_start_iter + 2)) {
         K_total = diis.extrapolate();
+
+        // (Nearly) linearly dependent gradients extrapolate arbitrarily far,
+        // apply the step limit to the extrapolated step as well
+        double diis_amax = 0.0;
+        for(size_t p = 0; p < no2; ++p)
+          diis_amax = std::max(diis_amax, std::abs(K_total[p] - K_total_sav[p]));
+        if(diis_amax > max_step) {
+          for(size_t p = 0; p < no2; ++p)
+            K_total[p] = K_total_sav[p] +
+                         (K_total[p] - K_total_sav[p]) * max_step / diis_amax;
+        }
       }
     }
 
-- 
2.43.0


From 4e2758dc4868f56f6239a20daecc69842ab0ca90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:34 +0000
Subject: [PATCH 23/66] fix: compute_casci_rdms must gather the distributed CI
 vector before forming RDMs

---
 include/macis/util/cas.hpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/include/macis/util/cas.hpp b/include/macis/util/cas.hpp
index 63c8f4a..860d81e 100644
--- a/include/macis/util/cas.hpp
+++ b/include/macis/util/cas.hpp
@@ -26,7 +26,7 @@ namespace macis {
  *  @param[in] V        The two-body Hamiltonian
  *  @param[out] ORDM    The CAS-CI 1-RDM
  *  @param[out] TRDM    The CAS-CI 2-RDM
- *  @param[out] C       The CAS-CI CI vector
+ *  @param[out] C       The CAS-CI CI vector (local part if distributed)
  *  @param[in]  comm    MPI Communicator on which to solve the EVP.
  */
 template <typename HamGen>
@@ -55,9 +55,27 @@ double compute_casci_rdms(
                        settings.ci_max_subspace, settings.ci_res_tol, C,
                        MACIS_MPI_CODE(comm, ) true);
 
+  double* C_rdm = C.data();
+#ifdef MACIS_ENABLE_MPI
+  // The CI vector is distributed, the RDMs need all of it
+  std::vector<double> C_full;
+  const auto world_size = comm_size(comm);
+  if(world_size > 1) {
+    std::vector<int> counts(world_size), displs(world_size, 0);
+    int local_count = C.size();
+    MPI_Allgather(&local_count, 1, MPI_INT, counts.data(), 1, MPI_INT, comm);
+    for(int i = 1; i < world_size; ++i)
+      displs[i] = displs[i - 1] + counts[i - 1];
+    C_full.resize(dets.size());
+    MPI_Allgatherv(C.data(), local_count, MPI_DOUBLE, C_full.data(),
+                   counts.data(), displs.data(), MPI_DOUBLE, comm);
+    C_rdm = C_full.data();
+  }
+#endif
+
   // Compute RDMs
-  ham_gen.form_rdms(dets.begin(), dets.end(), dets.begin(), dets.end(),
-                    C.data(), matrix_span<double>(ORDM, no, no),
+  ham_gen.form_rdms(dets.begin(), dets.end(), dets.begin(), dets.end(), C_rdm,
+                    matrix_span<double>(ORDM, no, no),
                     rank4_span<double>(TRDM, no, no, no, no));
 
   return E0;
-- 
2.43.0


From 70fcced8226c1a47944fad8cc70e3245e011789c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 24/66] fix: mcscf_impl must honour padded leading dimensions
 of the RDMs

---
 include/macis/util/mcscf_impl.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/macis/util/mcscf_impl.hpp b/include/macis/util/mcscf_impl.hpp
index c8673a3..7648700 100644
--- a/include/macis/util/mcscf_impl.hpp
+++ b/include/macis/util/mcscf_impl.hpp
@@ -76,6 +76,31 @@ double mcscf_impl(const Functor& rdm_op, MCSCFSettings settings,
   const double rms_factor = std::sqrt(orb_rot_sz);
   logger->info("  {:13} = {}", "ORB_ROT_SZ", orb_rot_sz);
 
+  // RDMs are kept contiguous, results are copied back if the caller's are not
+  if(LDD1 != na or LDD2 != na) {
+    std::vector<double> D1(na2), D2(na4);
+    for(size_t q = 0; q < na; ++q)
+      std::copy_n(A1RDM + q * LDD1, na, D1.data() + q * na);
+    for(size_t s = 0; s < na; ++s)
+      for(size_t r = 0; r < na; ++r)
+        for(size_t q = 0; q < na; ++q)
+          std::copy_n(A2RDM + (q + (r + s * LDD2) * LDD2) * LDD2, na,
+                      D2.data() + (q + (r + s * na) * na) * na);
+
+    auto E = mcscf_impl(rdm_op, settings, nalpha, nbeta, norb, ninact, nact,
+                        nvirt, E_core, T, LDT, V, LDV, D1.data(), na, D2.data(),
+                        na MACIS_MPI_CODE(, comm));
+
+    for(size_t q = 0; q < na; ++q)
+      std::copy_n(D1.data() + q * na, na, A1RDM + q * LDD1);
+    for(size_t s = 0; s < na; ++s)
+      for(size_t r = 0; r < na; ++r)
+        for(size_t q = 0; q < na; ++q)
+          std::copy_n(D2.data() + (q + (r + s * na) * na) * na, na,
+                      A2RDM + (q + (r + s * LDD2) * LDD2) * LDD2);
+    return E;
+  }
+
   /********************************************************
    *               Allocate persistant data               *
    ********************************************************/
-- 
2.43.0


From a78ee11f973bae563a084aae616b2bffd89c1875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:15 +0000
Subject: [PATCH 25/66] fix: mp2_1rdm must set the occupied-virtual blocks of
 its output

---
 src/macis/moller_plesset.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/macis/moller_plesset.cxx b/src/macis/moller_plesset.cxx
index 5e00d85..0120384 100644
--- a/src/macis/moller_plesset.cxx
+++ b/src/macis/moller_plesset.cxx
@@ -77,6 +77,13 @@ void mp2_1rdm(NumOrbital _norb, NumCanonicalOccupied _nocc,
 
   std::cout << "EMP2 = " << EMP2 << std::endl;
 
+  // P(MP2) OV and VO blocks are zero
+  for(auto i = 0ul; i < nocc; ++i)
+    for(auto a = 0ul; a < nvir; ++a) {
+      ORDM[i + (a + nocc) * LDD] = 0.0;
+      ORDM[a + nocc + i * LDD] = 0.0;
+    }
+
   // P(MP2) OO-block
   // D(i,j) -= T2(i,k,a,b) * (2*T2(j,k,a,b) - T2(j,k,b,a))
   for(auto i = 0ul; i < nocc; ++i)
-- 
2.43.0


From 55cc38990ca1f0066d35a18956b9f86f8726501d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:20 +0000
Subject: [PATCH 26/66] fix: the MP2 energy must honour the leading dimension
 of V

---
 src/macis/moller_plesset.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macis/moller_plesset.cxx b/src/macis/moller_plesset.cxx
index 0120384..0868562 100644
--- a/src/macis/moller_plesset.cxx
+++ b/src/macis/moller_plesset.cxx
@@ -68,8 +68,8 @@ void mp2_1rdm(NumOrbital _norb, NumCanonicalOccupied _nocc,
         for(auto b = 0ul; b < nvir; ++b) {
           const auto a_off = a + nocc;
           const auto b_off = b + nocc;
-          const double V_abij = V[a_off + i * norb + b_off * LDV2 + j * LDV3];
-          const double V_abji = V[a_off + j * norb + b_off * LDV2 + i * LDV3];
+          const double V_abij = V[a_off + i * LDV + b_off * LDV2 + j * LDV3];
+          const double V_abji = V[a_off + j * LDV + b_off * LDV2 + i * LDV3];
 
           const double t2_ijab = T2[i + j * nocc + a * nocc2 + b * nocc2v];
           EMP2 += t2_ijab * (2 * V_abij - V_abji);
-- 
2.43.0


From f2c2cab213a48fdbb38a5707460591b91733389e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:10 +0000
Subject: [PATCH 27/66] fix: COO -> CSR conversion must handle empty rows

---
 src/sparsexx/include/sparsexx/matrix_types/conversions.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp b/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp
index 563cdea..7899aa8 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp
@@ -76,13 +76,13 @@ csr_matrix<T, index_t, Alloc>::csr_matrix(
 
   // Compute rowptr
   rowptr_.at(0) = other.indexing();
-  auto cur_row = 0;
+  size_type cur_row = 0;
   for(size_type i = 0; i < nnz_; ++i)
-    if(rowind_coo[i] != (cur_row + indexing_)) {
+    while(rowind_coo[i] != (cur_row + indexing_)) {
       cur_row++;
       rowptr_.at(cur_row) = i + indexing_;
     }
-  rowptr_.at(m_) = nnz_ + indexing_;
+  while(cur_row < m_) rowptr_.at(++cur_row) = nnz_ + indexing_;
 
   std::copy(colind_coo.begin(), colind_coo.end(), colind_.begin());
   std::copy(nzval_coo.begin(), nzval_coo.end(), nzval_.begin());
-- 
2.43.0


From f319bb3792e7e13aee6f56bb28d29e5d77a3c030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:10 +0000
Subject: [PATCH 28/66] fix: COO -> CSC conversion must handle empty columns
 and non-square matrices

---
 .../include/sparsexx/matrix_types/conversions.hpp         | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp b/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp
index 7899aa8..e8e41c2 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp
@@ -103,13 +103,13 @@ csc_matrix<T, index_t, Alloc>::csc_matrix(
 
   // Compute colptr
   colptr_.at(0) = other.indexing();
-  auto cur_col = 0;
-  for(size_t i = 0; i < nnz_; ++i)
-    if(colind_coo[i] != (cur_col + indexing_)) {
+  size_type cur_col = 0;
+  for(size_type i = 0; i < nnz_; ++i)
+    while(colind_coo[i] != (cur_col + indexing_)) {
       cur_col++;
       colptr_.at(cur_col) = i + indexing_;
     }
-  colptr_.at(m_) = nnz_ + indexing_;
+  while(cur_col < n_) colptr_.at(++cur_col) = nnz_ + indexing_;
 
   std::copy(rowind_coo.begin(), rowind_coo.end(), rowind_.begin());
   std::copy(nzval_coo.begin(), nzval_coo.end(), nzval_.begin());
-- 
2.43.0


From 31d6ede301bb931636fbfe7399630255e1118101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:25 +0000
Subject: [PATCH 29/66] fix: COO -> dense conversion must honour the index base

---
 .../include/sparsexx/matrix_types/dense_conversions.hpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/dense_conversions.hpp b/src/sparsexx/include/sparsexx/matrix_types/dense_conversions.hpp
index 376bfa3..eb633cf 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/dense_conversions.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/dense_conversions.hpp
@@ -59,7 +59,7 @@ void convert_to_dense(const coo_matrix<Args...>& A,
 
 #pragma omp parallel for
   for(int64_t i = 0; i < nnz; ++i) {
-    A_dense[Ari[i] + Aci[i] * LDAD] = Anz[i];
+    A_dense[(Ari[i] - indexing) + (Aci[i] - indexing) * LDAD] = Anz[i];
   }
 }
 
-- 
2.43.0


From c639b162a30f4e400f1602a2b987d22a28da3517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:40 +0000
Subject: [PATCH 30/66] fix: expand_from_triangle must count the stored
 diagonal entries

---
 .../include/sparsexx/matrix_types/coo_matrix_ops.hpp         | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp b/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp
index c6a2c7f..2084e5c 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp
@@ -111,7 +111,10 @@ void coo_matrix<T, index_t, Alloc>::expand_from_triangle() {
   if(diagonal or full_matrix) return;
 
   std::cout << "Performing Expansion..." << std::endl;
-  size_t new_nnz = 2 * nnz_ - n_;
+  size_t ndiag = 0;
+  for(size_t i = 0; i < nnz_; ++i)
+    if(rowind_[i] == colind_[i]) ndiag++;
+  size_t new_nnz = 2 * nnz_ - ndiag;
   rowind_.reserve(new_nnz);
   colind_.reserve(new_nnz);
   nzval_.reserve(new_nnz);
-- 
2.43.0


From aded11478f1a3e5faa1c9a03e120a9eed333849d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:50 +0000
Subject: [PATCH 31/66] fix: COO gespmbv must honour the index base

---
 src/sparsexx/include/sparsexx/spblas/spmbv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/spblas/spmbv.hpp b/src/sparsexx/include/sparsexx/spblas/spmbv.hpp
index 419c42c..a77eb99 100644
--- a/src/sparsexx/include/sparsexx/spblas/spmbv.hpp
+++ b/src/sparsexx/include/sparsexx/spblas/spmbv.hpp
@@ -121,8 +121,8 @@ gespmbv(int64_t K, ALPHAT ALPHA, const SpMatType& A,
 
   for(index_type k = 0; k < K; ++k)
     for(index_type inz = 0; inz < nnz; ++inz) {
-      const auto i = Ari[inz];
-      const auto j = Aci[inz];
+      const auto i = Ari[inz] - indexing;
+      const auto j = Aci[inz] - indexing;
       AV[i + k * LDAV] += alpha * Anz[inz] * V[j + k * LDV];
     }
 }
-- 
2.43.0


From bbeece42610d7f5f7c522d9371f54bae529e531d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:39 +0000
Subject: [PATCH 32/66] fix: copying a dist_sparse_matrix must keep its row
 partition

---
 .../include/sparsexx/matrix_types/dist_sparse_matrix.hpp       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp b/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
index a2f8893..33d671c 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
@@ -84,7 +84,8 @@ class dist_sparse_matrix {
   }
 
   dist_sparse_matrix(const dist_sparse_matrix& other)
-      : dist_sparse_matrix(other.comm_, other.global_m_, other.global_n_) {
+      : dist_sparse_matrix(other.comm_, other.global_m_, other.global_n_,
+                           other.dist_row_extents_) {
     if(other.diagonal_tile_) set_diagonal_tile(other.diagonal_tile());
     if(other.off_diagonal_tile_)
       set_off_diagonal_tile(other.off_diagonal_tile());
-- 
2.43.0


From 9523c7cb7239ba875d615fb2ff080f9e7ab8406e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:47 +0000
Subject: [PATCH 33/66] fix: enable_if_*_matrix must be SFINAE friendly
 (write_binary_triplet did not compile for any matrix)

---
 .../include/sparsexx/matrix_types/type_traits.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/type_traits.hpp b/src/sparsexx/include/sparsexx/matrix_types/type_traits.hpp
index 14549d0..20ba626 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/type_traits.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/type_traits.hpp
@@ -53,17 +53,14 @@ template <typename SpMatType>
 inline constexpr bool is_coo_matrix_v = is_coo_matrix<SpMatType>::value;
 
 template <typename SpMatType, typename U = void>
-struct enable_if_csr_matrix {
-  using type = std::enable_if_t<is_csr_matrix_v<SpMatType>, U>;
-};
+struct enable_if_csr_matrix
+    : public std::enable_if<is_csr_matrix_v<SpMatType>, U> {};
 template <typename SpMatType, typename U = void>
-struct enable_if_csc_matrix {
-  using type = std::enable_if_t<is_csc_matrix_v<SpMatType>, U>;
-};
+struct enable_if_csc_matrix
+    : public std::enable_if<is_csc_matrix_v<SpMatType>, U> {};
 template <typename SpMatType, typename U = void>
-struct enable_if_coo_matrix {
-  using type = std::enable_if_t<is_coo_matrix_v<SpMatType>, U>;
-};
+struct enable_if_coo_matrix
+    : public std::enable_if<is_coo_matrix_v<SpMatType>, U> {};
 
 template <typename SpMatType, typename U = void>
 using enable_if_csr_matrix_t =
-- 
2.43.0


From 276dd6f125110f88f1efbb9f469dd98a87240bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 34/66] fix: sparse matrix readers must accept subnormal values

---
 src/sparsexx/include/sparsexx/io/read_mm.hpp  |  2 +-
 src/sparsexx/include/sparsexx/io/read_rb.hpp  |  2 +-
 src/sparsexx/include/sparsexx/util/string.hpp | 10 ++++++++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/io/read_mm.hpp b/src/sparsexx/include/sparsexx/io/read_mm.hpp
index 378411e..6ad8ed0 100644
--- a/src/sparsexx/include/sparsexx/io/read_mm.hpp
+++ b/src/sparsexx/include/sparsexx/io/read_mm.hpp
@@ -323,7 +323,7 @@ coo_matrix<T, index_t, Alloc> read_mm_as_coo(
     auto tokens = tokenize(line);
     int64_t i = std::stoll(tokens[0]);
     int64_t j = std::stoll(tokens[1]);
-    T v = (tokens.size() == 3) ? std::stod(tokens[2]) : 1.;
+    T v = (tokens.size() == 3) ? to_double(tokens[2]) : 1.;
 
     rowind.push_back(i);
     colind.push_back(j);
diff --git a/src/sparsexx/include/sparsexx/io/read_rb.hpp b/src/sparsexx/include/sparsexx/io/read_rb.hpp
index 2eac213..c6140cf 100644
--- a/src/sparsexx/include/sparsexx/io/read_rb.hpp
+++ b/src/sparsexx/include/sparsexx/io/read_rb.hpp
@@ -68,7 +68,7 @@ csc_matrix<T, index_t, Alloc> read_rb_as_csc(std::string fname) {
   curcount = 0;
   while(std::getline(f_in, line)) {
     auto tokens = tokenize(line);
-    for(const auto& t : tokens) A.nzval()[curcount++] = std::stod(t);
+    for(const auto& t : tokens) A.nzval()[curcount++] = to_double(t);
 
     if(curcount == nnz) break;
   }
diff --git a/src/sparsexx/include/sparsexx/util/string.hpp b/src/sparsexx/include/sparsexx/util/string.hpp
index c15fb5b..1c2d9cc 100644
--- a/src/sparsexx/include/sparsexx/util/string.hpp
+++ b/src/sparsexx/include/sparsexx/util/string.hpp
@@ -10,7 +10,9 @@
 
 #include <algorithm>
 #include <cctype>
+#include <cstdlib>
 #include <locale>
+#include <stdexcept>
 #include <string>
 
 namespace sparsexx {
@@ -52,4 +54,12 @@ static inline std::vector<std::string> tokenize(
 
 }  // tokenize
 
+// As std::stod, but accepts values below the normal floating-point range
+static inline double to_double(const std::string& str) {
+  char* end;
+  const double val = std::strtod(str.c_str(), &end);
+  if(end == str.c_str()) throw std::invalid_argument("to_double: " + str);
+  return val;
+}
+
 }  // namespace sparsexx
-- 
2.43.0


From 9e73a545600280114335ce6f4759ca836caa4c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 35/66] fix: write_mm must number the rows of a 1-based matrix
 from 1

---
 src/sparsexx/include/sparsexx/io/write_mm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparsexx/include/sparsexx/io/write_mm.hpp b/src/sparsexx/include/sparsexx/io/write_mm.hpp
index c29e7a2..e59931e 100644
--- a/src/sparsexx/include/sparsexx/io/write_mm.hpp
+++ b/src/sparsexx/include/sparsexx/io/write_mm.hpp
@@ -72,7 +72,7 @@ void write_mm(std::string fname, const csr_matrix<Args...>& A, bool symm,
   write_mm_header(file, m, n, nnz, symm);
 
   int col_offset = 0;
-  int row_offset = 0;
+  int row_offset = A.indexing();  // write_mm_csr_block counts rows from 0
   if(forced_index >= 0) {
     col_offset = forced_index - A.indexing();
     row_offset = forced_index;
-- 
2.43.0


From ee24246dfc4b76c31a6820cb7c56ecda1c1dd783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 36/66] fix: read_mm must skip blank lines

---
 src/sparsexx/include/sparsexx/io/read_mm.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sparsexx/include/sparsexx/io/read_mm.hpp b/src/sparsexx/include/sparsexx/io/read_mm.hpp
index 6ad8ed0..7b0c1de 100644
--- a/src/sparsexx/include/sparsexx/io/read_mm.hpp
+++ b/src/sparsexx/include/sparsexx/io/read_mm.hpp
@@ -264,7 +264,7 @@ coo_matrix<T, index_t, Alloc> read_mm_as_coo(
     is_sym = !tokens[4].compare("symmetric");
 
     while(std::getline(f_in, line)) {
-      if(line[0] != '%') break;
+      if(line[0] != '%' and not tokenize(line).empty()) break;
     }
 
     // std::getline( f_in, line );
@@ -321,6 +321,7 @@ coo_matrix<T, index_t, Alloc> read_mm_as_coo(
   size_t nnz_true = 0;
   while(std::getline(f_in, line)) {
     auto tokens = tokenize(line);
+    if(tokens.empty()) continue;  // blank line
     int64_t i = std::stoll(tokens[0]);
     int64_t j = std::stoll(tokens[1]);
     T v = (tokens.size() == 3) ? to_double(tokens[2]) : 1.;
-- 
2.43.0


From 40e4697eca3dd9664d5d7ea7a14f128543f06e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 37/66] fix: screen the cmz_ed excitations by their own matrix
 elements

The screened list of single and double excitations tested the integrals of
a permuted index order, and singles by the one-body element alone, so that
GetHpairs missed non-vanishing Hamiltonian matrix elements.
---
 attic/src/cmz_ed/slaterdet.c++ | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/attic/src/cmz_ed/slaterdet.c++ b/attic/src/cmz_ed/slaterdet.c++
index 7b35d4f..ae78e59 100644
--- a/attic/src/cmz_ed/slaterdet.c++
+++ b/attic/src/cmz_ed/slaterdet.c++
@@ -213,17 +213,34 @@ namespace cmz
   
       double thres = 1.E-9; //Threshold to keep excitation.
 
+      // A single excitation has a vanishing matrix element only if
+      // its one- and two-body terms all vanish.
+      auto keep_single = [&]( uint64_t v, uint64_t o,
+                              const std::vector<uint64_t> &same_spin,
+                              const std::vector<uint64_t> &other_spin )
+      {
+        if( std::abs(pint->get(v, o)) >= thres ) return true;
+        for( auto b : same_spin )
+          if( std::abs(pint->getChem(v, o, b, b)) >= thres
+           || std::abs(pint->getChem(v, b, b, o)) >= thres )
+            return true;
+        for( auto b : other_spin )
+          if( std::abs(pint->getChem(v, o, b, b)) >= thres )
+            return true;
+        return false;
+      };
+
       double sign = 1.; // For function calling purposes
       // Build single excitation.
       // Single - Up
       for( auto ou : occs_up )
         for( auto vu : virts_up )
-          if( std::abs(pint->get(vu, ou)) >= thres )
+          if( keep_single( vu, ou, occs_up, occs_do ) )
             excs.push_back( GetSingExUpSt( vu, ou, sign ) );
       // Single - Down
       for( auto od : occs_do )
         for( auto vd : virts_do )
-          if( std::abs(pint->get(vd , od)) >= thres )
+          if( keep_single( vd, od, occs_do, occs_up ) )
             excs.push_back( GetSingExDoSt( vd, od, sign ) );
  
       // Build double excitations.
@@ -234,8 +251,8 @@ namespace cmz
           slater_det tmp = GetSingExUpSt( virts_up[iv1], occs_up[io1], sign );
           for( size_t io2 = io1+1; io2 < occs_up.size(); io2++ )
             for( size_t iv2 = iv1+1; iv2 < virts_up.size(); iv2++ )
-              if( std::abs(pint->getChem(virts_up[iv1], virts_up[iv2], occs_up[io1], occs_up[io2])) >= thres 
-               || std::abs(pint->getChem(virts_up[iv1], virts_up[iv2], occs_up[io2], occs_up[io1])) >= thres )
+              if( std::abs(pint->getChem(virts_up[iv1], occs_up[io1], virts_up[iv2], occs_up[io2])) >= thres 
+               || std::abs(pint->getChem(virts_up[iv1], occs_up[io2], virts_up[iv2], occs_up[io1])) >= thres )
                 excs.push_back( tmp.GetSingExUpSt( virts_up[iv2], occs_up[io2], sign ) );
          }
       // Double - Do/Do
@@ -245,8 +262,8 @@ namespace cmz
           slater_det tmp = GetSingExDoSt( virts_do[iv1], occs_do[io1], sign );
           for( size_t io2 = io1+1; io2 < occs_do.size(); io2++ )
             for( size_t iv2 = iv1+1; iv2 < virts_do.size(); iv2++ )
-              if( std::abs(pint->getChem(virts_do[iv1], virts_do[iv2], occs_do[io1], occs_do[io2])) >= thres 
-               || std::abs(pint->getChem(virts_do[iv1], virts_do[iv2], occs_do[io2], occs_do[io1])) >= thres )
+              if( std::abs(pint->getChem(virts_do[iv1], occs_do[io1], virts_do[iv2], occs_do[io2])) >= thres 
+               || std::abs(pint->getChem(virts_do[iv1], occs_do[io2], virts_do[iv2], occs_do[io1])) >= thres )
                 excs.push_back( tmp.GetSingExDoSt( virts_do[iv2], occs_do[io2], sign ) );
          }
       // Double - Up/Do
@@ -256,7 +273,7 @@ namespace cmz
           slater_det tmp = GetSingExUpSt( virts_up[iv1], occs_up[io1], sign );
           for( size_t io2 = 0; io2 < occs_do.size(); io2++ )
             for( size_t iv2 = 0; iv2 < virts_do.size(); iv2++ )
-              if( std::abs(pint->getChem(virts_up[iv1], virts_do[iv2], occs_up[io1], occs_do[io2])) >= thres )
+              if( std::abs(pint->getChem(virts_up[iv1], occs_up[io1], virts_do[iv2], occs_do[io2])) >= thres )
                 excs.push_back( tmp.GetSingExDoSt( virts_do[iv2], occs_do[io2], sign ) );
          }
 
-- 
2.43.0


From a87b1839472ef10c220f7ec17b89d209e496be69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 38/66] fix: same-spin double excitations in the cmz_ed
 two-particle density matrix

Pairs that differ by two down electrons were never matched, and for two up
electrons the bra was changed before the second orbital pair was read.
---
 attic/src/cmz_ed/rdms.c++ | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/attic/src/cmz_ed/rdms.c++ b/attic/src/cmz_ed/rdms.c++
index e4e3149..594f6d6 100644
--- a/attic/src/cmz_ed/rdms.c++
+++ b/attic/src/cmz_ed/rdms.c++
@@ -35,8 +35,7 @@ namespace cmz
           {
             uint64_t o1 = ket.GetFlippedOccIndx( bra );
             uint64_t v1 = bra.GetFlippedOccIndx( ket );
-            double sign = bra.SingleExcUp( o1, v1 );
-            sign = ket.SingleExcUp( v1, o1 );
+            double sign = ket.SingleExcUp( v1, o1 );
             uint64_t o2 = ket.GetFlippedOccIndx( bra );
             uint64_t v2 = bra.GetFlippedOccIndx( ket );
             sign *= ket.SingleExcUp( v2, o2 );
@@ -46,12 +45,11 @@ namespace cmz
             rdm2[ indexer(v2,v1,o1,o2) ] -= sign * contrib * 0.5;
           }
           // Double Do-Do
-          else if( exc_do == 4 && exc_do == 0 )
+          else if( exc_up == 0 && exc_do == 4 )
           {
             uint64_t o1 = ket.GetFlippedOccIndx( bra );
             uint64_t v1 = bra.GetFlippedOccIndx( ket );
-            double sign = bra.SingleExcDo( o1, v1 );
-            sign = ket.SingleExcDo( v1, o1 );
+            double sign = ket.SingleExcDo( v1, o1 );
             uint64_t o2 = ket.GetFlippedOccIndx( bra );
             uint64_t v2 = bra.GetFlippedOccIndx( ket );
             sign *= ket.SingleExcDo( v2, o2 );
-- 
2.43.0


From c881c4d27e4f4dc91c26b7109ac417b4a4f11203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:37 +0000
Subject: [PATCH 39/66] fix: integrals read from FCIDUMP files have the full
 eightfold symmetry

Exchanging the two index pairs was not taken into account, so that files that
list each integral once, as is usual, lost part of them.
---
 attic/inc/cmz_ed/integrals.h++ | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/attic/inc/cmz_ed/integrals.h++ b/attic/inc/cmz_ed/integrals.h++
index 1cc0f9a..1657afe 100644
--- a/attic/inc/cmz_ed/integrals.h++
+++ b/attic/inc/cmz_ed/integrals.h++
@@ -64,8 +64,8 @@ namespace cmz
           }
       
           /**
-           * @brief Orders each pair of virt/occ orbital indices by magnitude.
-           *        Assumes real orbitals.
+           * @brief Orders each pair of virt/occ orbital indices by magnitude,
+           *        and then the two pairs. Assumes real orbitals.
            *
            * @author Stephen J. Cotton
            * @date 05/04/2021
@@ -74,6 +74,7 @@ namespace cmz
           {
             if(i < a) std::swap(i,a);
             if(j < b) std::swap(j,b);
+            if(i < j || (i == j && a < b)) { std::swap(i,j); std::swap(a,b); }
           }
       
           /**
-- 
2.43.0


From 048ec8699637717ee700c13eff6615df331abb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:23 +0000
Subject: [PATCH 40/66] fix: generate_singles_spin was defined twice in the
 attic determinant operations

---
 attic/inc/dbwy/sd_operations.hpp | 35 --------------------------------
 1 file changed, 35 deletions(-)

diff --git a/attic/inc/dbwy/sd_operations.hpp b/attic/inc/dbwy/sd_operations.hpp
index d4805eb..f63d1de 100644
--- a/attic/inc/dbwy/sd_operations.hpp
+++ b/attic/inc/dbwy/sd_operations.hpp
@@ -295,41 +295,6 @@ void generate_singles_doubles_spin_as( size_t norb, std::bitset<N> state,
 
 }
 
-template <size_t N>
-void generate_singles_spin( size_t norb, std::bitset<N> state, 
-  std::vector<std::bitset<N>>& singles ) {
-
-  auto state_alpha = truncate_bitset<N/2>(state);
-  auto state_beta  = truncate_bitset<N/2>(state >> (N/2));
-
-  std::vector<std::bitset<N/2>> singles_alpha, singles_beta;
-
-  // Generate Spin-Specific singles / doubles
-  generate_singles( norb, state_alpha, singles_alpha );
-  generate_singles( norb, state_beta,  singles_beta  );
-
-  auto state_alpha_expand = expand_bitset<N>(state_alpha);
-  auto state_beta_expand  = expand_bitset<N>(state_beta) << (N/2);
-
-  // Generate Singles in full space
-  singles.clear();
-
-  // Single Alpha + No Beta
-  for( auto s_alpha : singles_alpha ) {
-    auto s_state = expand_bitset<N>(s_alpha);
-    s_state = s_state | state_beta_expand;
-    singles.emplace_back(s_state);
-  }
-
-  // No Alpha + Single Beta
-  for( auto s_beta : singles_beta ) {
-    auto s_state = expand_bitset<N>(s_beta) << (N/2);
-    s_state = s_state | state_alpha_expand;
-    singles.emplace_back(s_state);
-  }
-
-}
-
 template <size_t N>
 void generate_singles_doubles_spin( size_t norb, std::bitset<N> state, 
   std::vector<std::bitset<N>>& singles, std::vector<std::bitset<N>>& doubles ) {
-- 
2.43.0


From c365ce3e8ba9de73ae47e1f55f52933657cfb2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:23 +0000
Subject: [PATCH 41/66] fix: a completely filled spin channel is a valid
 determinant

---
 attic/inc/dbwy/sd_operations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attic/inc/dbwy/sd_operations.hpp b/attic/inc/dbwy/sd_operations.hpp
index f63d1de..d3a38f2 100644
--- a/attic/inc/dbwy/sd_operations.hpp
+++ b/attic/inc/dbwy/sd_operations.hpp
@@ -38,7 +38,7 @@ void bitset_to_occ_vir( size_t norb, std::bitset<N> state,
 
   occ = bits_to_indices( state );
   const auto nocc = occ.size();
-  assert( nocc < norb );
+  assert( nocc <= norb );
 
   const auto nvir = norb - nocc;
   vir.resize(nvir);
-- 
2.43.0


From 437033f2c23432f3f29fedd9dfd4aa6ec9abfc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:23 +0000
Subject: [PATCH 42/66] fix: attic ffs is one-based at 128 bits as at the other
 widths

---
 attic/inc/dbwy/bitset_operations.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/attic/inc/dbwy/bitset_operations.hpp b/attic/inc/dbwy/bitset_operations.hpp
index bf04b59..2111828 100644
--- a/attic/inc/dbwy/bitset_operations.hpp
+++ b/attic/inc/dbwy/bitset_operations.hpp
@@ -37,7 +37,6 @@ uint32_t ffs( std::bitset<N> bits ) {
 
   if constexpr (N <= 32)      return ffsl( bits.to_ulong() );
   else if constexpr (N <= 64) return ffsll( bits.to_ullong() );
-  else if constexpr (N <= 128) return std::countr_zero( to_uint128(bits) );
   else {
     uint32_t ind = 0;
     for( ind = 0; ind < N; ++ind )
-- 
2.43.0


From 97d285f71f9d1a805be84ceb8fcda1dce9526af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:23 +0000
Subject: [PATCH 43/66] fix: strict ordering when removing repeated ASCI pairs

---
 attic/inc/dbwy/asci_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attic/inc/dbwy/asci_util.hpp b/attic/inc/dbwy/asci_util.hpp
index 731a708..b473df0 100644
--- a/attic/inc/dbwy/asci_util.hpp
+++ b/attic/inc/dbwy/asci_util.hpp
@@ -418,7 +418,7 @@ void keep_only_largest_copy_asci_pairs(
   });
   #else
   ips4o::parallel::sort( asci_pairs.begin(), asci_pairs.end(), 
-    []( auto x, auto y ) { return !bitset_less(x.state, y.state); });
+    []( auto x, auto y ) { return bitset_less(y.state, x.state); });
   #endif
   #endif
 
-- 
2.43.0


From 5095a9ceb628285cb780255c513c284b823d4035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:23 +0000
Subject: [PATCH 44/66] fix: attic ASCI search with fewer candidates than
 determinants asked for

---
 attic/inc/dbwy/asci_util.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/attic/inc/dbwy/asci_util.hpp b/attic/inc/dbwy/asci_util.hpp
index b473df0..c6f6e01 100644
--- a/attic/inc/dbwy/asci_util.hpp
+++ b/attic/inc/dbwy/asci_util.hpp
@@ -629,6 +629,7 @@ std::vector<std::bitset<N>> asci_search(
   // Sort pairs by ASCI score
   auto asci_sort_st = clock_type::now();
   #if 1
+  if( ndets_max < asci_pairs.size() )
   std::nth_element( asci_pairs.begin(), asci_pairs.begin() + ndets_max,
     asci_pairs.end(), 
   #else
-- 
2.43.0


From ded5ce9a5578b8d12c41025c4db45922b1363c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:23 +0000
Subject: [PATCH 45/66] fix: accumulating an empty list of ASCI pairs

---
 attic/inc/dbwy/asci_util.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/attic/inc/dbwy/asci_util.hpp b/attic/inc/dbwy/asci_util.hpp
index c6f6e01..e7b149d 100644
--- a/attic/inc/dbwy/asci_util.hpp
+++ b/attic/inc/dbwy/asci_util.hpp
@@ -365,6 +365,8 @@ void sort_and_accumulate_asci_pairs(
   std::vector< asci_contrib<N> >& asci_pairs
 ) {
 
+  if( asci_pairs.empty() ) return;
+
   // Sort by bitstring
   #if 0
   std::sort( asci_pairs.begin(), asci_pairs.end(), []( auto x, auto y ) {
-- 
2.43.0


From 23a78f5f0332a845411c23c9f20dae08fe4e28a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:23 +0000
Subject: [PATCH 46/66] fix: diagonal elements in off-diagonal blocks of the
 attic Hamiltonian

---
 attic/inc/dbwy/sd_build.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/attic/inc/dbwy/sd_build.hpp b/attic/inc/dbwy/sd_build.hpp
index 95e01dd..3d757ac 100644
--- a/attic/inc/dbwy/sd_build.hpp
+++ b/attic/inc/dbwy/sd_build.hpp
@@ -93,9 +93,11 @@ protected:
         // Compute Matrix Element
         const auto h_eld = this->matrix_element_diag( bra_occ_alpha, bra_occ_beta );
 
-        if( std::abs(h_eld) > H_thresh ) {
+        det_pos<N> pos_bra; pos_bra.det = bra; pos_bra.id = 0;
+        auto diag_it = kets.find( pos_bra );
+        if( diag_it != kets.end() and std::abs(h_eld) > H_thresh ) {
           nrow++;
-          colind.emplace_back(i);
+          colind.emplace_back(diag_it->id);
           nzval.emplace_back(h_eld);
         }
 
-- 
2.43.0


From 07d1e968ebb37a47a667871e4851566214c5877c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:23 +0000
Subject: [PATCH 47/66] fix: same-spin exchange part of the attic two-particle
 density

---
 attic/inc/dbwy/hamiltonian_generator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/attic/inc/dbwy/hamiltonian_generator.hpp b/attic/inc/dbwy/hamiltonian_generator.hpp
index 93aa073..f210969 100644
--- a/attic/inc/dbwy/hamiltonian_generator.hpp
+++ b/attic/inc/dbwy/hamiltonian_generator.hpp
@@ -565,12 +565,12 @@ void HamiltonianGenerator<N>::rdm_contributions_diag(
   for( auto q : occ_alpha )
   for( auto p : occ_alpha ) {
     trdm[p + p*norb_ + q*norb2_ + q*norb3_] += val;
-    trdm[p + q*norb_ + p*norb2_ + q*norb3_] -= val;
+    trdm[p + q*norb_ + q*norb2_ + p*norb3_] -= val;
   }
   for( auto q : occ_beta )
   for( auto p : occ_beta ) {
     trdm[p + p*norb_ + q*norb2_ + q*norb3_] += val;
-    trdm[p + q*norb_ + p*norb2_ + q*norb3_] -= val;
+    trdm[p + q*norb_ + q*norb2_ + p*norb3_] -= val;
   }
 
   // Opposite-spin two-body term
-- 
2.43.0


From ec7e4058c8f0c79ff668d4cd13aeb6c118c6e588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:23 +0000
Subject: [PATCH 48/66] fix: separate coefficient and determinant in the
 written wave function

---
 attic/inc/dbwy/asci_body.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/attic/inc/dbwy/asci_body.hpp b/attic/inc/dbwy/asci_body.hpp
index 1938091..bf69e92 100644
--- a/attic/inc/dbwy/asci_body.hpp
+++ b/attic/inc/dbwy/asci_body.hpp
@@ -338,7 +338,7 @@ auto run_asci_w_1rdm(
     auto w = std::setw(25);
 
     for( int idet = 0; idet < dets.size(); idet++ )
-       ofile << X_local[idet] << w << dbwy::to_canonical_string( dets[idet] ) << std::endl; 
+       ofile << X_local[idet] << " " << w << dbwy::to_canonical_string( dets[idet] ) << std::endl; 
 
     ofile.close();
   }
@@ -492,7 +492,7 @@ auto run_ed_w_1rdm(
     auto w = std::setw(25);
 
     for( int idet = 0; idet < dets.size(); idet++ )
-       ofile << pairs[idet].coeff << w << pairs[idet].s << std::endl; 
+       ofile << pairs[idet].coeff << " " << w << pairs[idet].s << std::endl; 
 
     ofile.close();
   }
-- 
2.43.0


From 9ee70f041f309bec14fbf103063bab42df977ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:23 +0000
Subject: [PATCH 49/66] fix: write a zero Green's function for an orbital whose
 vector vanishes

---
 attic/src/dbwy/gf.c++ | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/attic/src/dbwy/gf.c++ b/attic/src/dbwy/gf.c++
index 4d2ca85..72ff2b8 100644
--- a/attic/src/dbwy/gf.c++
+++ b/attic/src/dbwy/gf.c++
@@ -47,7 +47,11 @@ namespace cmz
          fname += std::to_string(GF_orbs[0]+1) + "_" + std::to_string(GF_orbs[0]+1) + ".dat";
          std::ofstream ofile( fname );
          ofile.precision(dbl::max_digits10);
-         for(int iii = 0; iii < nfreqs; iii++) ofile << scientific << real(ws[iii]) << " " << imag(ws[iii]) << " " << real(GF[iii][0][0]) << " " << imag(GF[iii][0][0]) << std::endl;
+         for(int iii = 0; iii < nfreqs; iii++){
+           //IF THE ORBITAL'S VECTOR VANISHES, SO DOES ITS GREEN'S FUNCTION
+           const std::complex<double> g = GF[iii].empty() ? std::complex<double>(0.,0.) : GF[iii][0][0];
+           ofile << scientific << real(ws[iii]) << " " << imag(ws[iii]) << " " << real(g) << " " << imag(g) << std::endl;
+         }
          ofile.close();
        }
     }
-- 
2.43.0


From 0207fa04476475bccd4842aff59dc53e76540cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:23 +0000
Subject: [PATCH 50/66] fix: exclusive scan of gathered counts was done in int,
 whatever the type

---
 include/macis/util/dist_quickselect.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/macis/util/dist_quickselect.hpp b/include/macis/util/dist_quickselect.hpp
index 466f060..94aa629 100644
--- a/include/macis/util/dist_quickselect.hpp
+++ b/include/macis/util/dist_quickselect.hpp
@@ -40,7 +40,7 @@ Integral total_gather_and_exclusive_scan(Integral val,
   auto dtype = mpi_traits<Integral>::datatype();
   MPI_Allgather(&val, 1, dtype, gather.data(), 1, dtype, comm);
   Integral total = std::accumulate(gather.begin(), gather.end(), Integral(0));
-  std::exclusive_scan(gather.begin(), gather.end(), scan.begin(), 0);
+  std::exclusive_scan(gather.begin(), gather.end(), scan.begin(), Integral(0));
 
   return total;
 }
-- 
2.43.0


From 967c359a059bd2fad65171a669909b38b71cde54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:20 +0000
Subject: [PATCH 51/66] fix: reading a missing FCIDUMP file reported zero
 orbitals and energy instead of failing

---
 src/macis/fcidump.cxx | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index 57720db..845c413 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -79,6 +79,12 @@ auto fcidump_line(const std::vector<std::string>& tokens) {
   return std::make_tuple(p, q, r, s, integral);
 }
 
+std::ifstream open_fcidump(const std::string& fname) {
+  std::ifstream file(fname);
+  if(!file) throw std::runtime_error(fname + " not available");
+  return file;
+}
+
 enum LineClassification { Core, OrbitalEnergy, OneBody, TwoBody };
 
 LineClassification line_classification(int p, int q, int r, int s) {
@@ -95,7 +101,7 @@ LineClassification line_classification(int p, int q, int r, int s) {
 namespace macis {
 
 uint32_t read_fcidump_norb(std::string fname) {
-  std::ifstream file(fname);
+  auto file = open_fcidump(fname);
   std::string line;
   int32_t max_idx = 0;
   while(std::getline(file, line)) {
@@ -111,7 +117,7 @@ uint32_t read_fcidump_norb(std::string fname) {
 }
 
 double read_fcidump_core(std::string fname) {
-  std::ifstream file(fname);
+  auto file = open_fcidump(fname);
   std::string line;
   while(std::getline(file, line)) {
     auto tokens = split(line, " ");
@@ -133,7 +139,7 @@ void read_fcidump_1body(std::string fname, col_major_span<double, 2> T) {
   if(T.extent(0) != norb)
     throw std::runtime_error("T is of improper dimension");
 
-  std::ifstream file(fname);
+  auto file = open_fcidump(fname);
   std::string line;
   while(std::getline(file, line)) {
     auto tokens = split(line, " ");
@@ -166,7 +172,7 @@ void read_fcidump_2body(std::string fname, col_major_span<double, 4> V) {
   if(V.extent(0) != norb)
     throw std::runtime_error("V is of improper dimension");
 
-  std::ifstream file(fname);
+  auto file = open_fcidump(fname);
   std::string line;
   while(std::getline(file, line)) {
     auto tokens = split(line, " ");
-- 
2.43.0


From 3522265d894d3b2432cc0dfe99fc76fbe9146752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:20 +0000
Subject: [PATCH 52/66] fix: write_fcidump did not report a failed write

---
 src/macis/fcidump.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index 845c413..25d661e 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -213,6 +213,9 @@ void write_fcidump(std::string fname, size_t norb, const double* T, size_t LDT,
       "fcidump",
       std::make_shared<spdlog::sinks::basic_file_sink_st>(fname, true));
   logger->set_pattern("%v");
+  // By default spdlog swallows I/O errors
+  logger->set_error_handler(
+      [](const std::string& msg) { throw std::runtime_error(msg); });
   const std::string fmt_string = "{:8} {:8} {:8} {:8} {:25.16e}";
 
   // Write two body
@@ -232,6 +235,8 @@ void write_fcidump(std::string fname, size_t norb, const double* T, size_t LDT,
 
   // Write core
   logger->info(fmt_string, 0, 0, 0, 0, E_core);
+
+  logger->flush();
 }
 
 void read_rdms_binary(std::string fname, size_t norb, double* ORDM, size_t LDD1,
-- 
2.43.0


From 2b84428e1ec7741f7ab91765484ee42a1c84fcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:20 +0000
Subject: [PATCH 53/66] fix: read_rdms_binary took a truncated file for
 complete density matrices

---
 src/macis/fcidump.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index 25d661e..08067cd 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -282,6 +282,8 @@ void read_rdms_binary(std::string fname, size_t norb, double* ORDM, size_t LDD1,
           TRDM[i + j * LDD2 + k * LDD2 * LDD2 + l * LDD2 * LDD2 * LDD2] =
               raw[i + j * norb + k * norb * norb + l * norb * norb * norb];
         }
+
+  if(!in_file) throw std::runtime_error(fname + " is incomplete");
 }
 
 void write_rdms_binary(std::string fname, size_t norb, const double* ORDM,
-- 
2.43.0


From 4784e0b0c3b83c245f094af55b28e2e7aba44404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:20 +0000
Subject: [PATCH 54/66] fix: write_rdms_binary did not report a failed write

---
 src/macis/fcidump.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index 08067cd..a2b17ed 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -312,6 +312,9 @@ void write_rdms_binary(std::string fname, size_t norb, const double* ORDM,
               TRDM[i + j * LDD2 + k * LDD2 * LDD2 + l * LDD2 * LDD2 * LDD2];
         }
   out_file.write((char*)raw.data(), norb * norb * norb * norb * sizeof(double));
+
+  out_file.close();
+  if(!out_file) throw std::runtime_error("Failed to write " + fname);
 }
 
 }  // namespace macis
-- 
2.43.0


From fdc22c3f25d4a99a9107611b316e3d191967f1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:21 +0000
Subject: [PATCH 55/66] fix: read_wavefunction took a truncated file for a
 smaller wave function

---
 include/macis/wavefunction_io.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/macis/wavefunction_io.hpp b/include/macis/wavefunction_io.hpp
index 7308a31..967a28b 100644
--- a/include/macis/wavefunction_io.hpp
+++ b/include/macis/wavefunction_io.hpp
@@ -57,8 +57,6 @@ void read_wavefunction(std::string fname, std::vector<std::bitset<N>>& states,
     nalpha = std::stoi(nalpha_);
     nbeta = std::stoi(nbeta_);
   }
-  (void)nstate;
-  (void)norb;
   (void)nalpha;
   (void)nbeta;
 
@@ -68,10 +66,14 @@ void read_wavefunction(std::string fname, std::vector<std::bitset<N>>& states,
     std::stringstream ss{line};
     std::string c, d;
     ss >> c >> d;
+    if(d.size() < norb) throw std::runtime_error(fname + " is incomplete");
     states.emplace_back(from_canonical_string<N>(d));
     // Unlike std::stod, strtod does not refuse subnormal coefficients
     coeffs.emplace_back(std::strtod(c.c_str(), nullptr));
   }
+  if(states.size() != nstate)
+    throw std::runtime_error(fname + " does not hold " +
+                             std::to_string(nstate) + " determinants");
 }
 
 /**
-- 
2.43.0


From 3e45eade967266c9d9845561ff7a11b8b062891b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:21 +0000
Subject: [PATCH 56/66] fix: write_wavefunction did not report a failed write

---
 include/macis/wavefunction_io.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/macis/wavefunction_io.hpp b/include/macis/wavefunction_io.hpp
index 967a28b..3f0c90f 100644
--- a/include/macis/wavefunction_io.hpp
+++ b/include/macis/wavefunction_io.hpp
@@ -109,12 +109,14 @@ void write_wavefunction(std::string fname, size_t norb,
   const auto nbeta = (states[0] >> N / 2).count();
 
   std::ofstream file(fname);
+  if(!file) throw std::runtime_error(fname + " not available");
   file << nstates << " " << norb << " " << nalpha << " " << nbeta << std::endl;
   file << std::scientific << std::setprecision(16);
   for(size_t i = 0; i < nstates; ++i) {
     file << std::setw(30) << coeffs[i] << " " << to_canonical_string(states[i])
          << " " << std::endl;
   }
+  if(!file) throw std::runtime_error("Failed to write " + fname);
 }
 
 }  // namespace macis
-- 
2.43.0


From 04f6e18ac2d92a44db78bab31456c4bd0f95366a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:21 +0000
Subject: [PATCH 57/66] fix: read_binary_triplet accepted missing and truncated
 files

---
 src/sparsexx/include/sparsexx/io/read_binary_triplets.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sparsexx/include/sparsexx/io/read_binary_triplets.hpp b/src/sparsexx/include/sparsexx/io/read_binary_triplets.hpp
index 298e1e0..e726358 100644
--- a/src/sparsexx/include/sparsexx/io/read_binary_triplets.hpp
+++ b/src/sparsexx/include/sparsexx/io/read_binary_triplets.hpp
@@ -30,12 +30,14 @@ detail::enable_if_coo_matrix_t<SpMatType, SpMatType> read_binary_triplet_as_coo(
   f_in.read((char*)&m, sizeof(index_t));
   f_in.read((char*)&n, sizeof(index_t));
   f_in.read((char*)&nnz, sizeof(size_t));
+  if(!f_in) throw std::runtime_error(fname + " has no triplet header");
 
   std::cout << "Reading bin data" << std::endl;
   SpMatType A(m, n, nnz);
   f_in.read((char*)A.rowind().data(), nnz * sizeof(index_t));
   f_in.read((char*)A.colind().data(), nnz * sizeof(index_t));
   f_in.read((char*)A.nzval().data(), nnz * sizeof(value_t));
+  if(!f_in) throw std::runtime_error(fname + " is incomplete");
 
   A.determine_indexing_from_adj();
   A.expand_from_triangle();
-- 
2.43.0


From 5cd02993a1b44da4e39a4a851e417661ac0b2ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:21 +0000
Subject: [PATCH 58/66] fix: write_binary_triplet did not report a failed write

---
 src/sparsexx/include/sparsexx/io/write_binary_triplets.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sparsexx/include/sparsexx/io/write_binary_triplets.hpp b/src/sparsexx/include/sparsexx/io/write_binary_triplets.hpp
index 037d3b6..06781b0 100644
--- a/src/sparsexx/include/sparsexx/io/write_binary_triplets.hpp
+++ b/src/sparsexx/include/sparsexx/io/write_binary_triplets.hpp
@@ -35,6 +35,9 @@ detail::enable_if_coo_matrix_t<SpMatType> write_binary_triplet(
   f_out.write((char*)A.rowind().data(), nnz * sizeof(index_t));
   f_out.write((char*)A.colind().data(), nnz * sizeof(index_t));
   f_out.write((char*)A.nzval().data(), nnz * sizeof(value_t));
+
+  f_out.close();
+  if(!f_out) throw std::runtime_error("Failed to write " + fname);
 }
 
 template <typename SpMatType>
@@ -63,6 +66,9 @@ detail::enable_if_csr_matrix_t<SpMatType> write_binary_triplet(
   f_out.write((char*)rowind.data(), nnz * sizeof(index_t));
   f_out.write((char*)A.colind().data(), nnz * sizeof(index_t));
   f_out.write((char*)A.nzval().data(), nnz * sizeof(value_t));
+
+  f_out.close();
+  if(!f_out) throw std::runtime_error("Failed to write " + fname);
 }
 
 }  // namespace sparsexx
-- 
2.43.0


From 7009d58900186865dc042c521cf9016dc3c0917e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:21 +0000
Subject: [PATCH 59/66] fix: write_mm did not report a failed write

---
 src/sparsexx/include/sparsexx/io/write_mm.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sparsexx/include/sparsexx/io/write_mm.hpp b/src/sparsexx/include/sparsexx/io/write_mm.hpp
index e59931e..dad2c8f 100644
--- a/src/sparsexx/include/sparsexx/io/write_mm.hpp
+++ b/src/sparsexx/include/sparsexx/io/write_mm.hpp
@@ -81,6 +81,7 @@ void write_mm(std::string fname, const csr_matrix<Args...>& A, bool symm,
   file << std::setprecision(17);
   write_mm_csr_block(file, A, row_offset, col_offset);
   file << std::flush;
+  if(!file) throw std::runtime_error("Failed to write " + fname);
 }
 
 }  // namespace sparsexx
-- 
2.43.0


From dc41e565784183b03e174f496d4b69442861d672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:57 +0000
Subject: [PATCH 60/66] fix: read_mm took a truncated file for a smaller matrix

---
 src/sparsexx/include/sparsexx/io/read_mm.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/io/read_mm.hpp b/src/sparsexx/include/sparsexx/io/read_mm.hpp
index 7b0c1de..b5e3e42 100644
--- a/src/sparsexx/include/sparsexx/io/read_mm.hpp
+++ b/src/sparsexx/include/sparsexx/io/read_mm.hpp
@@ -251,17 +251,18 @@ coo_matrix<T, index_t, Alloc> read_mm_as_coo(
   std::string line;
 
   int64_t m, n, nnz_min;
-  bool is_sym = false;
+  bool is_sym = false, is_pattern = false;
   {
     std::getline(f_in, line);
     auto tokens = tokenize(line);
 
     // Check if this is actually a MM file...
 
-    if(tokens[0].compare("%%MatrixMarket") or tokens.size() != 5)
+    if(tokens.size() != 5 or tokens[0].compare("%%MatrixMarket"))
       throw std::runtime_error(fname + " is not a MM file");
 
     is_sym = !tokens[4].compare("symmetric");
+    is_pattern = !tokens[3].compare("pattern");
 
     while(std::getline(f_in, line)) {
       if(line[0] != '%' and not tokenize(line).empty()) break;
@@ -314,6 +315,8 @@ coo_matrix<T, index_t, Alloc> read_mm_as_coo(
 
   std::vector<index_t> rowind, colind;
   std::vector<T> nzval;
+  const auto nnz_file = is_sym ? nnz_min / 2 : nnz_min;
+  int64_t nnz_read = 0;
   rowind.reserve(nnz_min);
   colind.reserve(nnz_min);
   nzval.reserve(nnz_min);
@@ -322,9 +325,12 @@ coo_matrix<T, index_t, Alloc> read_mm_as_coo(
   while(std::getline(f_in, line)) {
     auto tokens = tokenize(line);
     if(tokens.empty()) continue;  // blank line
+    if(tokens.size() < (is_pattern ? 2 : 3))
+      throw std::runtime_error(fname + " holds an incomplete entry");
     int64_t i = std::stoll(tokens[0]);
     int64_t j = std::stoll(tokens[1]);
     T v = (tokens.size() == 3) ? to_double(tokens[2]) : 1.;
+    nnz_read++;
 
     rowind.push_back(i);
     colind.push_back(j);
@@ -339,6 +345,10 @@ coo_matrix<T, index_t, Alloc> read_mm_as_coo(
     }
   }
 
+  if(nnz_read != nnz_file)
+    throw std::runtime_error(fname + " does not hold " +
+                             std::to_string(nnz_file) + " entries");
+
   coo_matrix<T, index_t, Alloc> A(m, n, std::move(colind), std::move(rowind),
                                   std::move(nzval));
 #endif
-- 
2.43.0


From 0b117f0fe267f6e55b9d6ea9beae982bd82420b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:57 +0000
Subject: [PATCH 61/66] fix: read_rb read past the end of truncated files

---
 src/sparsexx/include/sparsexx/io/read_rb.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/io/read_rb.hpp b/src/sparsexx/include/sparsexx/io/read_rb.hpp
index c6140cf..ab16e55 100644
--- a/src/sparsexx/include/sparsexx/io/read_rb.hpp
+++ b/src/sparsexx/include/sparsexx/io/read_rb.hpp
@@ -32,7 +32,8 @@ csc_matrix<T, index_t, Alloc> read_rb_as_csc(std::string fname) {
   {
     std::getline(f_in, line);
     auto tokens = tokenize(line);
-    assert(tokens.size() == 5);
+    if(tokens.size() < 4)
+      throw std::runtime_error(fname + " has no Rutherford-Boeing header");
 
     auto type = tokens[0];
     m = std::stoll(tokens[1]);
@@ -52,15 +53,16 @@ csc_matrix<T, index_t, Alloc> read_rb_as_csc(std::string fname) {
   int64_t curcount = 0;
   while(std::getline(f_in, line)) {
     auto tokens = tokenize(line);
-    for(const auto& t : tokens) A.colptr()[curcount++] = std::stoi(t);
+    for(const auto& t : tokens) A.colptr().at(curcount++) = std::stoi(t);
 
     if(curcount == (n + 1)) break;
   }
+  if(curcount != (n + 1)) throw std::runtime_error(fname + " is incomplete");
 
   curcount = 0;
   while(std::getline(f_in, line)) {
     auto tokens = tokenize(line);
-    for(const auto& t : tokens) A.rowind()[curcount++] = std::stoi(t);
+    for(const auto& t : tokens) A.rowind().at(curcount++) = std::stoi(t);
 
     if(curcount == nnz) break;
   }
@@ -68,12 +70,12 @@ csc_matrix<T, index_t, Alloc> read_rb_as_csc(std::string fname) {
   curcount = 0;
   while(std::getline(f_in, line)) {
     auto tokens = tokenize(line);
-    for(const auto& t : tokens) A.nzval()[curcount++] = to_double(t);
+    for(const auto& t : tokens) A.nzval().at(curcount++) = to_double(t);
 
     if(curcount == nnz) break;
   }
+  if(curcount != nnz) throw std::runtime_error(fname + " is incomplete");
 
-  assert(!std::getline(f_in, line));
   return A;
 }
 
-- 
2.43.0


From 1f32f3cf1dbaa58dd9c59f5bcd09dd3ace2a5b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:57 +0000
Subject: [PATCH 62/66] fix: write_dist_mm did not report a failed write

---
 src/sparsexx/include/sparsexx/io/write_dist_mm.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sparsexx/include/sparsexx/io/write_dist_mm.hpp b/src/sparsexx/include/sparsexx/io/write_dist_mm.hpp
index bde876a..5c673f8 100644
--- a/src/sparsexx/include/sparsexx/io/write_dist_mm.hpp
+++ b/src/sparsexx/include/sparsexx/io/write_dist_mm.hpp
@@ -33,9 +33,11 @@ void write_dist_mm(std::string fname, const dist_sparse_matrix<SpMatType>& A,
              A.comm());
 
   // Create the file
+  int written = true;
   if(!mpi_rank) {
     std::ofstream file(fname);
     write_mm_header(file, m, n, total_nnz_root, false);
+    written = bool(file);
   }
   MPI_Barrier(A.comm());
 
@@ -60,6 +62,8 @@ void write_dist_mm(std::string fname, const dist_sparse_matrix<SpMatType>& A,
     const auto A_loc = A.diagonal_tile();
     write_mm_csr_block(file, A_loc, A.local_row_start() + row_offset,
                        A.local_row_start() + col_offset);
+    file.close();
+    written = written and file;
   }
 
   // Write Off-diagonal block
@@ -69,13 +73,16 @@ void write_dist_mm(std::string fname, const dist_sparse_matrix<SpMatType>& A,
     const auto A_loc = A.off_diagonal_tile();
     write_mm_csr_block(file, A_loc, A.local_row_start() + row_offset,
                        col_offset);
+    file.close();
+    written = written and file;
   }
 
   if(mpi_rank != mpi_size - 1) {
     MPI_Send(&token, 1, MPI_INT, mpi_rank + 1, 0, A.comm());
   }
 
-  MPI_Barrier(A.comm());
+  MPI_Allreduce(MPI_IN_PLACE, &written, 1, MPI_INT, MPI_MIN, A.comm());
+  if(!written) throw std::runtime_error("Failed to write " + fname);
 }
 
 }  // namespace sparsexx
-- 
2.43.0


From 5f3aaa6274485bf2a82558cc8bc00ab233566e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:40 +0000
Subject: [PATCH 63/66] fix: serial CI starting guess must be a unit vector
 whatever the vector held before

---
 include/macis/solvers/davidson.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/macis/solvers/davidson.hpp b/include/macis/solvers/davidson.hpp
index 766b485..d375578 100644
--- a/include/macis/solvers/davidson.hpp
+++ b/include/macis/solvers/davidson.hpp
@@ -64,6 +64,10 @@ void diagonal_guess(size_t N, const SpMatType& A, double* X) {
   auto D = extract_diagonal_elements(A);
   auto D_min = std::min_element(D.begin(), D.end());
   auto min_idx = std::distance(D.begin(), D_min);
+
+  // Zero out guess
+  for(size_t i = 0; i < N; ++i) X[i] = 0.;
+
   X[min_idx] = 1.;
 }
 
-- 
2.43.0


From 7490aa5b4c4200cb184644988ea9bae10295b15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:40 +0000
Subject: [PATCH 64/66] fix: prototype ASCI search must keep the whole
 occupation in the denominators of impurity doubles

---
 attic/inc/dbwy/asci_util.hpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/attic/inc/dbwy/asci_util.hpp b/attic/inc/dbwy/asci_util.hpp
index e7b149d..0aa434d 100644
--- a/attic/inc/dbwy/asci_util.hpp
+++ b/attic/inc/dbwy/asci_util.hpp
@@ -216,6 +216,7 @@ void append_ss_doubles_asci_contributions(
   std::vector< asci_contrib<2*N> >& asci_contributions
 ) {
 
+  const size_t nimp = ham_gen.GetNimp();
   const size_t nocc = ss_occ.size();
   const size_t nvir = vir.size();
 
@@ -231,6 +232,7 @@ void append_ss_doubles_asci_contributions(
     for( auto bb = aa + 1; bb < nvir; ++bb ) {
       const auto j = ss_occ[jj];
       const auto b = vir[bb];
+      if( std::max({i,j,a,b}) >= nimp ) continue;
       const auto jb = b + j*norb;
       const auto G_aibj = G_ai[jb];
 
@@ -324,6 +326,7 @@ void append_os_doubles_asci_contributions(
   std::vector< asci_contrib<2*N> >& asci_contributions
 ) {
 
+  const size_t nimp = ham_gen.GetNimp();
   const std::bitset<2*N> one = 1;
   for( auto i : occ_alpha )
   for( auto a : vir_alpha ) {
@@ -332,6 +335,7 @@ void append_os_doubles_asci_contributions(
     double sign_alpha = single_excitation_sign( state_alpha, a, i );
     for( auto j : occ_beta )
     for( auto b : vir_beta ) {
+      if( std::max({i,j,a,b}) >= nimp ) continue;
       const auto jb = b + j*norb;
       const auto V_aibj = V_ai[jb*norb*norb];
 
@@ -530,16 +534,8 @@ std::vector<std::bitset<N>> asci_search(
 
     if( !ham_gen.GetJustSingles() )
     {
-      // In case they are defined, consider doubles only between impurity orbitals.
-      size_t nimp = ham_gen.GetNimp();
-      if( nimp < N/2 )
-      {
-        std::vector<uint32_t> imp_orbs( nimp, 0 );
-        for( int ii = 0; ii < nimp; ii++ )
-          imp_orbs[ii] = ii;
-        bitset_to_occ_vir_as( norb, state_alpha, occ_alpha, vir_alpha, imp_orbs ); 
-        bitset_to_occ_vir_as( norb, state_beta,  occ_beta,  vir_beta,  imp_orbs  ); 
-      }
+      // In case they are defined, doubles are only considered between impurity
+      // orbitals. The denominators need all of the occupied orbitals.
       // Doubles - AAAA
       append_ss_doubles_asci_contributions<N/2,0>( coeff, state, state_alpha, 
         occ_alpha, vir_alpha, occ_beta, G_pqrs, norb, h_el_tol, hdiag, E_ASCI, 
-- 
2.43.0


From 780c92967225ea60af399dc6d02af8bffe6f9a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:23 +0000
Subject: [PATCH 65/66] fix: Green's function on a single frequency

One frequency point divided zero by zero and every element was NaN.
---
 attic/inc/dbwy/asci_body.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attic/inc/dbwy/asci_body.hpp b/attic/inc/dbwy/asci_body.hpp
index bf69e92..56750d3 100644
--- a/attic/inc/dbwy/asci_body.hpp
+++ b/attic/inc/dbwy/asci_body.hpp
@@ -184,7 +184,7 @@ auto run_asci_w_GF(
     double eta  = cmz::ed::getParam<double>( input,  "broad" );
     std::vector<std::complex<double> > ws(nws);
     for( int iw = 0; iw < nws; iw++ )
-      ws[iw] = std::complex<double>( wmin + double(iw) * (wmax - wmin) / (double(nws - 1)) , eta );
+      ws[iw] = std::complex<double>( iw == 0 ? wmin : wmin + double(iw) * (wmax - wmin) / (double(nws - 1)) , eta );
 
     // Particle sector
     bool is_part = true;
-- 
2.43.0


From c2755c707259e94feae2344b88c7b11fb0060ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:57 +0000
Subject: [PATCH 66/66] fix: a failing METIS partition is reported

---
 src/sparsexx/src/metis_wrapper.cxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sparsexx/src/metis_wrapper.cxx b/src/sparsexx/src/metis_wrapper.cxx
index 60a7334..e6f17fe 100644
--- a/src/sparsexx/src/metis_wrapper.cxx
+++ b/src/sparsexx/src/metis_wrapper.cxx
@@ -45,8 +45,11 @@ void metis_kway_partitioning(int64_t _nvert, int64_t _npart, IndexType* _xadj,
     throw std::runtime_error("METIS + Index Mismatch NYI");
   }
 
-  METIS_PartGraphKway(&nvert, &nweights, xadj, adjncy, NULL, NULL, NULL,
-                      &nparts, NULL, NULL, options, &obj, part);
+  auto status =
+      METIS_PartGraphKway(&nvert, &nweights, xadj, adjncy, NULL, NULL, NULL,
+                          &nparts, NULL, NULL, options, &obj, part);
+  if(status != METIS_OK)
+    throw std::runtime_error("METIS_PartGraphKway failed");
 #else
   throw std::runtime_error("METIS Not Enabled");
 #endif
-- 
2.43.0

