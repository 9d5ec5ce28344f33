From 444e0e3d6bedb2b12c3f1d7773c433d4fa3fdcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 01/28] fix: correct sum-of-squares, max and min results of var
 reductions

get_sum_squares() returned the plain sum, the per-thread join added sums to
sums of squares, the maximum started from the smallest positive double, and
get_min() tested the mask bit of the sum reduction.
---
 src/kernel/lib/yk_var.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kernel/lib/yk_var.hpp b/src/kernel/lib/yk_var.hpp
index 156a92f..ef395ba 100644
--- a/src/kernel/lib/yk_var.hpp
+++ b/src/kernel/lib/yk_var.hpp
@@ -575,7 +575,7 @@ namespace yask {
             double _sum = 0.0;
             double _sum_sq = 0.0;
             double _prod = 1.0;
-            double _max = std::numeric_limits<double>::min();
+            double _max = std::numeric_limits<double>::lowest();
             double _min = std::numeric_limits<double>::max();
 
             virtual ~red_res() { }
@@ -598,7 +598,7 @@ namespace yask {
             }
             double get_sum_squares() const {
                 if (_mask & yk_var::yk_sum_squares_reduction)
-                    return _sum;
+                    return _sum_sq;
                 THROW_YASK_EXCEPTION("Sum-of-squares reduction result was not requested in reduction_mask");
             }
             double get_product() const {
@@ -612,7 +612,7 @@ namespace yask {
                 THROW_YASK_EXCEPTION("Max reduction result was not requested in reduction_mask");
             }
             double get_min() const {
-                if (_mask & yk_var::yk_sum_reduction)
+                if (_mask & yk_var::yk_min_reduction)
                     return _min;
                 THROW_YASK_EXCEPTION("Min reduction result was not requested in reduction_mask");
             }
@@ -1437,7 +1437,7 @@ namespace yask {
                 auto* p = resp.get();
                 auto* resp = &rrv.at(i);
                 p->_sum += resp->_sum;
-                p->_sum_sq += resp->_sum;
+                p->_sum_sq += resp->_sum_sq;
                 p->_prod *= resp->_prod;
                 p->_max = std::max(p->_max, resp->_max);
                 p->_min = std::min(p->_min, resp->_min);
-- 
2.43.0


From 46bf499c416cf3708424e64e9ed8116e9629645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:05 +0000
Subject: [PATCH 02/28] fix: allow set_num_ranks() before the rank-domain size
 is known

The setter APIs check the rank-domain size against the minimum when there is
more than one rank in a dimension, but that size is zero until it is given or
calculated in prepare_solution(), so set_num_ranks() with only the overall size
given (or before any size) always threw an exception.
---
 src/kernel/lib/setup.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kernel/lib/setup.cpp b/src/kernel/lib/setup.cpp
index 6b22fa6..751638c 100644
--- a/src/kernel/lib/setup.cpp
+++ b/src/kernel/lib/setup.cpp
@@ -762,9 +762,10 @@ namespace yask {
             assert(shifts >= 0);
 
             // Is domain size at least as large as halo + wf_ext in direction
-            // when there are multiple ranks?
+            // when there are multiple ranks?  Can't check this until the
+            // size is known; it may be calculated in prepare_solution().
             auto min_size = max_halos[dname] + shifts;
-            if (actl_opts->_num_ranks[dname] > 1 && rksize < min_size) {
+            if (actl_opts->_num_ranks[dname] > 1 && rksize > 0 && rksize < min_size) {
                 FORMAT_AND_THROW_YASK_EXCEPTION
                     ("local-domain size of " << rksize << " in '" <<
                      dname << "' dim is less than minimum size of " << min_size <<
-- 
2.43.0


From ed20b4220a29be06f9f23403f8ec22289a58301b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:19 +0000
Subject: [PATCH 03/28] fix: set_element() updates the valid step range as
 documented

The API documentation says that APIs setting values in a var such as
set_element() update the valid step indices, and set_element() accepts any
step index for this reason, but the range was left alone: the value could not
be read back and was attributed to another step.
---
 src/kernel/lib/yk_var_apis.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kernel/lib/yk_var_apis.cpp b/src/kernel/lib/yk_var_apis.cpp
index ec8f2ba..99ff283 100644
--- a/src/kernel/lib/yk_var_apis.cpp
+++ b/src/kernel/lib/yk_var_apis.cpp
@@ -412,6 +412,10 @@ namespace yask {
             gb().write_elem(real_t(val), indices, asi, __LINE__);
             nup++;
 
+            // Update valid step range to include the one just written.
+            if (!actl_opts->_step_wrap)
+                gb().update_valid_step(indices);
+
             // Set appropriate dirty flags.
             gb()._coh.mod_host();
             gb().set_dirty_using_alloc_index(YkVarBase::self, true, asi);
-- 
2.43.0


From 12c3419024e473ac92d5c4fa9ee4c1b765c4de24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 04/28] fix: non-strict slices outside of the local allocation
 touch nothing

set_elements_in_slice_same() and reduce_elements_in_slice() with
strict_indices=false clipped both ends of a slice that was completely outside of
the allocation to its boundary, so that elements outside of the requested slice
were written or reduced, and steps outside of the valid range that were not
written moved that range.
---
 src/kernel/lib/yk_var.cpp | 13 +++++++++++--
 src/kernel/lib/yk_var.hpp |  9 +++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/kernel/lib/yk_var.cpp b/src/kernel/lib/yk_var.cpp
index dc1c180..4f06778 100644
--- a/src/kernel/lib/yk_var.cpp
+++ b/src/kernel/lib/yk_var.cpp
@@ -578,9 +578,18 @@ namespace yask {
     // Set dirty flags between indices.
     void YkVarBase::set_dirty_in_slice(const Indices& first_indices,
                                         const Indices& last_indices) {
+        STATE_VARS(this);
         if (_has_step_dim) {
-            for (idx_t i = first_indices[+step_posn];
-                 i <= last_indices[+step_posn]; i++)
+            auto first_t = first_indices[+step_posn];
+            auto last_t = last_indices[+step_posn];
+
+            // Steps outside of the valid range were not written
+            // unless they are being wrapped.
+            if (!actl_opts->_step_wrap) {
+                first_t = max(first_t, get_first_local_index(+step_posn));
+                last_t = min(last_t, get_last_local_index(+step_posn));
+            }
+            for (idx_t i = first_t; i <= last_t; i++)
                 set_dirty(self, true, i);
         } else
             set_dirty_using_alloc_index(self, true, 0);
diff --git a/src/kernel/lib/yk_var.hpp b/src/kernel/lib/yk_var.hpp
index ef395ba..13f7a46 100644
--- a/src/kernel/lib/yk_var.hpp
+++ b/src/kernel/lib/yk_var.hpp
@@ -1113,6 +1113,15 @@ namespace yask {
                       make_index_string(first_indices) << " ... " <<
                       make_index_string(last_indices) << "]");
 
+            // Nothing to visit if slice is completely outside of the
+            // allowed range in any dim. (Clipping both ends would move it
+            // to the boundary.)
+            for (int i = 0; i < get_num_dims(); i++) {
+                if (in_first_indices[i] > last_indices[i] ||
+                    in_last_indices[i] < first_indices[i])
+                    return 0;
+            }
+
             // Find range.
             auto range = get_slice_range(first_indices, last_indices);
             auto ne = range.product();
-- 
2.43.0


From 482039ab38804180c6a8f40f29a1db44b6332bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 05/28] fix: nested yask_parallel_for() must not skip work when
 OMP provides fewer threads

---
 src/common/common_utils.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/common/common_utils.hpp b/src/common/common_utils.hpp
index d89100a..3f969e2 100644
--- a/src/common/common_utils.hpp
+++ b/src/common/common_utils.hpp
@@ -266,9 +266,14 @@ namespace yask {
                 {
                     idx_t n0 = omp_get_thread_num();
 
+                    // Use the actual number of threads in this team because
+                    // OMP may provide fewer than requested, e.g., due to
+                    // 'OMP_THREAD_LIMIT' or 'OMP_DYNAMIC'.
+                    idx_t nteam = omp_get_num_threads();
+
                     // Calculate begin and end points for this thread.
-                    idx_t tbegin = div_equally_cumu_size_n(niter, nthr0, n0 - 1) * stride;
-                    idx_t tend = div_equally_cumu_size_n(niter, nthr0, n0) * stride;
+                    idx_t tbegin = div_equally_cumu_size_n(niter, nteam, n0 - 1) * stride;
+                    idx_t tend = div_equally_cumu_size_n(niter, nteam, n0) * stride;
                     tend = std::min(tend, end);
 
                     #ifdef DEBUG_PAR_FOR
-- 
2.43.0


From 206a86302c95d0ea62a3c8b80691e763a1095bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:37 +0000
Subject: [PATCH 06/28] fix: clamp last temporal block of a mega-block so that
 a small one is computed correctly

---
 src/kernel/lib/context.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/kernel/lib/context.cpp b/src/kernel/lib/context.cpp
index fd8d592..4e4b1d0 100644
--- a/src/kernel/lib/context.cpp
+++ b/src/kernel/lib/context.cpp
@@ -1418,10 +1418,13 @@ namespace yask {
             if (is_first_blk)
                 blk_start = idxs.begin[i];
 
-            // Shift stop to left. If there will be no bridges, clamp
-            // last block to end of mega-block.
+            // Shift stop to left unless last.  Last block will be a
+            // parallelogram or trapezoid clamped to end of mega-block, so
+            // it does not need a bridge on its right side. (The last block
+            // may be smaller than the others, i.e., too small for a
+            // trapezoid *and* a separate bridge.)
             blk_stop -= tb_angle * mb_shift_num;
-            if ((nphases == 1 || is_one_blk) && is_last_blk)
+            if (is_last_blk)
                 blk_stop = idxs.end[i];
 
             // Shift start of next block. Last bridge will be
-- 
2.43.0


From 38f25714240ba5bcb82e851df97cc8b61e283ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 07/28] fix: size scratch vars for micro-block shifts under
 temporal blocking

---
 src/kernel/lib/alloc.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kernel/lib/alloc.cpp b/src/kernel/lib/alloc.cpp
index 87611df..967e82f 100644
--- a/src/kernel/lib/alloc.cpp
+++ b/src/kernel/lib/alloc.cpp
@@ -1118,7 +1118,10 @@ namespace yask {
                                 gp->_set_domain_size(dname, mblksize[dname]);
 
                                 // Conservative allowance for WF exts and/or temporal shifts.
-                                idx_t shift_pts = max(wf_shift_pts[dname], tb_angles[dname] * num_tb_shifts) * 2;
+                                // Micro-blocks may be shifted even when blocks are not.
+                                idx_t shift_pts = max(wf_shift_pts[dname],
+                                                      max(tb_angles[dname], mb_angles[dname]) *
+                                                      num_tb_shifts) * 2;
                                 gp->_set_left_wf_ext(dname, shift_pts);
                                 gp->_set_right_wf_ext(dname, shift_pts);
 
-- 
2.43.0


From 736721288d5e18cdd762a63afa7ae160eef64d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 08/28] fix: all ranks of a node take part in shared-memory
 allocation if any of them needs it

---
 src/kernel/lib/alloc.cpp     | 18 +++++++++++++++++-
 src/kernel/lib/context.hpp   |  5 +++++
 src/kernel/lib/soln_apis.cpp |  2 +-
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/kernel/lib/alloc.cpp b/src/kernel/lib/alloc.cpp
index 967e82f..6392639 100644
--- a/src/kernel/lib/alloc.cpp
+++ b/src/kernel/lib/alloc.cpp
@@ -1021,8 +1021,24 @@ namespace yask {
             } // vars.
 
             // Alloc for each mem type.
-            if (pass == 0)
+            if (pass == 0) {
+
+                // Allocating shm and sharing offsets are collective across
+                // the shm ranks, so all of them must participate if any of
+                // them has a neighbor that can use shm.
+                int my_shm = do_shm ? 1 : 0, any_shm = 0;
+                MPI_Allreduce(&my_shm, &any_shm, 1, MPI_INT, MPI_MAX, env->shm_comm);
+                do_shm = any_shm != 0;
+                AllocKey shm_key = make_pair(_shmem_key, 0);
+                if (do_shm) {
+                    auto& shm_req = alloc_reqs[shm_key];
+                    shm_req.nbytes = max(shm_req.nbytes, size_t(CACHELINE_BYTES));
+                }
+
                 _alloc_data(alloc_reqs, "MPI buffer");
+                if (do_shm)
+                    mpi_shm_data = alloc_reqs.at(shm_key).ptr;
+            }
 
             MPI_Barrier(env->shm_comm);
         } // MPI passes.
diff --git a/src/kernel/lib/context.hpp b/src/kernel/lib/context.hpp
index cb12985..aafd13c 100644
--- a/src/kernel/lib/context.hpp
+++ b/src/kernel/lib/context.hpp
@@ -350,6 +350,10 @@ namespace yask {
         // Map key: var name.
         std::map<std::string, MPIData> mpi_data;
 
+        // Shared memory used by the MPI buffers, if any. Kept here so that
+        // it's released collectively, even on ranks not using any of it.
+        std::shared_ptr<char> mpi_shm_data;
+
         // Constructor.
         StencilContext(KernelEnvPtr& kenv,
                        KernelSettingsPtr& actl_settings,
@@ -399,6 +403,7 @@ namespace yask {
         virtual void alloc_mpi_data();
         virtual void free_mpi_data() {
             mpi_data.clear();
+            mpi_shm_data.reset();
         }
 
         // Alloc scratch-var memory.
diff --git a/src/kernel/lib/soln_apis.cpp b/src/kernel/lib/soln_apis.cpp
index 7af6e26..de2e151 100644
--- a/src/kernel/lib/soln_apis.cpp
+++ b/src/kernel/lib/soln_apis.cpp
@@ -255,7 +255,7 @@ namespace yask {
 
         // Release any MPI data.
         env->global_barrier();
-        mpi_data.clear();
+        free_mpi_data();
 
         // Release var data.
         for (auto gp : all_var_ptrs) {
-- 
2.43.0


From f27f6173ed9084b83cf03a18f043bef702c31daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:23 +0000
Subject: [PATCH 09/28] fix: honor rank indices set via set_rank_index() or -ri

---
 src/kernel/lib/setup.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/kernel/lib/setup.cpp b/src/kernel/lib/setup.cpp
index 751638c..da87917 100644
--- a/src/kernel/lib/setup.cpp
+++ b/src/kernel/lib/setup.cpp
@@ -175,7 +175,6 @@ namespace yask {
         // All ranks should have the same settings for certain options.
         env->assert_equality_over_ranks(nr, "total number of MPI ranks");
         env->assert_equality_over_ranks(idx_t(actl_opts->use_shm), "use_shm setting");
-        env->assert_equality_over_ranks(idx_t(actl_opts->find_loc), "defined rank indices");
         DOMAIN_VAR_LOOP(i, j) {
             auto& dname = domain_dims.get_dim_name(j);
             env->assert_equality_over_ranks(actl_opts->_global_sizes[i],
@@ -237,10 +236,21 @@ namespace yask {
                                             actl_opts->_num_ranks.make_dim_val_str(" * ") + "), but " <<
                                             nr << " rank(s) are active");
 
+        // Were rank indices provided? If so, at least one rank has a
+        // non-zero index when there is more than one rank.
+        idx_t num_provided = 0;
+        DOMAIN_VAR_LOOP(i, j) {
+            if (req_opts->_rank_indices[j] != 0)
+                num_provided++;
+        }
+        actl_opts->find_loc = env->sum_over_ranks(num_provided) == 0;
+
         // Determine my coordinates if not provided already.
         // TODO: do this more intelligently based on proximity.
         if (actl_opts->find_loc)
             actl_opts->_rank_indices = actl_opts->_num_ranks.unlayout(me);
+        else
+            actl_opts->_rank_indices = req_opts->_rank_indices;
 
         // Check rank indices.
         DOMAIN_VAR_LOOP(i, j) {
-- 
2.43.0


From 950316fbfda4137fc01f907c9b57ae837e2bc3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 10/28] fix: use vector halo exchange only when rank domain
 starts at a vector multiple

---
 src/kernel/lib/alloc.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/kernel/lib/alloc.cpp b/src/kernel/lib/alloc.cpp
index 6392639..fc5a066 100644
--- a/src/kernel/lib/alloc.cpp
+++ b/src/kernel/lib/alloc.cpp
@@ -545,6 +545,13 @@ namespace yask {
                              idx_t lidx = gp->get_last_rank_domain_index(dname);
                              first_inner_idx.add_dim_back(dname, fidx);
                              last_inner_idx.add_dim_back(dname, lidx);
+
+                             // Vectors are aligned relative to the start of
+                             // the rank domain, so it must be at a vec-multiple.
+                             // When my size and the neighbor's are
+                             // vec-multiples, we'll both get the same answer.
+                             if (imod_flr(fidx, vlen) != 0)
+                                 var_vec_ok = false;
                              if (actl_opts->is_first_rank(dname))
                                  fidx -= lhalo; // extend into left halo.
                              if (actl_opts->is_last_rank(dname))
-- 
2.43.0


From cb5d505e86fd0a9322d31de27928c198eeffc862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:26 +0000
Subject: [PATCH 11/28] fix: reject a rank layout that does not match the
 number of active ranks

---
 src/kernel/lib/setup.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/kernel/lib/setup.cpp b/src/kernel/lib/setup.cpp
index da87917..6e2f5b2 100644
--- a/src/kernel/lib/setup.cpp
+++ b/src/kernel/lib/setup.cpp
@@ -226,15 +226,18 @@ namespace yask {
         #else
         // Set number of ranks in each dim if any is unset (zero).
         TRACE_MSG("rank layout " << actl_opts->_num_ranks.make_dim_val_str(" * ") << " requested");
-        actl_opts->_num_ranks = actl_opts->_num_ranks.get_compact_factors(nr);
+        IdxTuple spec_ranks = actl_opts->_num_ranks;
+        actl_opts->_num_ranks = spec_ranks.get_compact_factors(nr);
         TRACE_MSG("rank layout " << actl_opts->_num_ranks.make_dim_val_str(" * ") << " selected");
 
-        // Check ranks.
-        idx_t req_ranks = actl_opts->_num_ranks.product();
-        if (req_ranks != nr)
-            FORMAT_AND_THROW_YASK_EXCEPTION(req_ranks << " rank(s) requested (" +
-                                            actl_opts->_num_ranks.make_dim_val_str(" * ") + "), but " <<
-                                            nr << " rank(s) are active");
+        // Check that the specified (non-zero) values were kept. If not,
+        // there is no layout of the active ranks using those values.
+        DOMAIN_VAR_LOOP(i, j) {
+            if (spec_ranks[j] && spec_ranks[j] != actl_opts->_num_ranks[j])
+                FORMAT_AND_THROW_YASK_EXCEPTION("rank(s) requested (" +
+                                                spec_ranks.make_dim_val_str(" * ") + "), but " <<
+                                                nr << " rank(s) are active");
+        }
 
         // Were rank indices provided? If so, at least one rank has a
         // non-zero index when there is more than one rank.
-- 
2.43.0


From 2929e543b3a51313f225e27566f7c70c3ba48846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:03 +0000
Subject: [PATCH 12/28] fix: auto-tuner must not lose its search center when no
 elapsed time is positive

---
 src/kernel/lib/auto_tuner.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kernel/lib/auto_tuner.cpp b/src/kernel/lib/auto_tuner.cpp
index 25d2056..17d619a 100644
--- a/src/kernel/lib/auto_tuner.cpp
+++ b/src/kernel/lib/auto_tuner.cpp
@@ -132,6 +132,11 @@ namespace yask {
         // Get initial search center from current target.
         at_state.center_sizes = *targetp;
 
+        // It is also the best known until a better rate is measured.
+        // That might not happen if the elapsed times are not positive,
+        // e.g., because the clock was set back during the trials.
+        at_state.best_sizes = *targetp;
+
         // Prepare for next target.
         AT_TRACE_MSG("starting size: "  << at_state.center_sizes.make_dim_val_str(" * "));
         AT_TRACE_MSG("starting search radius: " << at_state.radius);
-- 
2.43.0


From 155a98802b7f47a90872673c1d3b6238642ead03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:50 +0000
Subject: [PATCH 13/28] fix: auto-tuner updates wave-front angles and rank area
 when it changes the mega-block size

---
 src/kernel/lib/auto_tuner.cpp |   6 +-
 src/kernel/lib/context.cpp    | 150 ++++++++++++++++++----------------
 2 files changed, 84 insertions(+), 72 deletions(-)

diff --git a/src/kernel/lib/auto_tuner.cpp b/src/kernel/lib/auto_tuner.cpp
index 17d619a..854eda1 100644
--- a/src/kernel/lib/auto_tuner.cpp
+++ b/src/kernel/lib/auto_tuner.cpp
@@ -499,9 +499,9 @@ namespace yask {
         // Make sure everything is adjusted based on new target size.
         _settings->adjust_settings(do_print ? this : 0);
         
-        // Update temporal blocking info.
-        // (Normally called from update_var_info().)
-        _context->update_tb_info();
+        // Update wave-front and temporal blocking info.
+        // (The wave-front angles depend on the mega-block size.)
+        _context->update_var_info(false);
 
         // Reallocate scratch vars based on new micro-block size.
         // TODO: only do this when needed.
diff --git a/src/kernel/lib/context.cpp b/src/kernel/lib/context.cpp
index 4e4b1d0..9a62ea0 100644
--- a/src/kernel/lib/context.cpp
+++ b/src/kernel/lib/context.cpp
@@ -245,23 +245,6 @@ namespace yask {
         assert(stride_t);
         idx_t end_t = last_step_index + step_dir; // end is beyond last.
 
-        // Begin, end, stride tuples.
-        // Based on overall bounding box, which includes
-        // any needed extensions for wave-fronts.
-        IdxTuple begin(stencil_dims);
-        begin.set_vals(ext_bb.bb_begin_tuple(domain_dims), false);
-        begin[step_posn] = begin_t;
-        IdxTuple end(stencil_dims);
-        end.set_vals(ext_bb.bb_end_tuple(domain_dims), false);
-        end[step_posn] = end_t;
-        IdxTuple stride(stencil_dims);
-        stride.set_vals(actl_opts->_mega_block_sizes, false); // stride by mega-block sizes.
-        stride[step_posn] = stride_t;
-
-        TRACE_MSG("running area [" <<
-                  begin.make_dim_val_str() << " ... " <<
-                  end.make_dim_val_str() << ") by " <<
-                  stride.make_dim_val_str());
         if (!is_prepared())
             THROW_YASK_EXCEPTION("run_solution() called without calling prepare_solution() first");
         if (ext_bb.bb_size < 1) {
@@ -283,61 +266,87 @@ namespace yask {
                 os << "Modeling cache...\n";
             #endif
 
-            // Adjust end points for overlapping mega-blocks due to wavefront angle.
-            // For each subsequent time step in a mega-block, the spatial location
-            // of each block evaluation is shifted by the angle for each
-            // stage. So, the total shift in a mega-block is the angle * num
-            // stages * num timesteps. This assumes all stages
-            // are inter-dependent to find maximum extension. Actual required
-            // size may be less, but this will just result in some calls to
-            // calc_mega_block() that do nothing.
-            //
-            // Conceptually (showing 2 ranks in t and x dims):
-            // -----------------------------  t = rt ------------------------------
-            //   \   | \     \     \|  \   |    .    |   / |  \     \     \|  \   |
-            //    \  |  \     \     |   \  |    .    |  / \|   \     \     |   \  |
-            //     \ |Mb0\ Mb1 \ Mb2|\Mb3\ |    .    | /Mb0| Mb1\ Mb2 \ Mb3|\Mb4\ |
-            //      \|    \     \   | \   \|         |/    |\    \     \   | \   \|
-            // ------------------------------ t = 0 -------------------------------
-            //       |   rank 0     |      |         |     |   rank 1      |      |
-            // x = begin[x]       end[x] end[x]  begin[x] begin[x]       end[x] end[x]
-            //     (rank)        (rank) (ext)     (ext)    (rank)       (rank) (adj)
-            //
-            //                      |XXXXXX|         |XXXXX|  <- redundant calculations.
-            // XXXXXX|  <- areas outside of outer ranks not calculated ->  |XXXXXXX
-            //
-            if (wf_steps > 0) {
-                DOMAIN_VAR_LOOP_FAST(i, j) {
-
-                    // The end should be adjusted only if an extension doesn't
-                    // exist.  Extentions exist between ranks, so additional
-                    // adjustments are only needed at the end of the right-most
-                    // rank in each dim.  See "(adj)" in diagram above.
-                    if (right_wf_exts[j] == 0)
-                        end[i] += wf_shift_pts[j];
+            // Indices needed for the 'rank' loops.
+            ScanIndices rank_idxs(true, &rank_domain_offsets);
+
+            // Set the area covered by the 'rank' loops. This must be redone
+            // if the mega-block size is changed, e.g., by the auto-tuner.
+            auto set_rank_area = [&]() {
+
+                // Begin, end, stride tuples.
+                // Based on overall bounding box, which includes
+                // any needed extensions for wave-fronts.
+                IdxTuple begin(stencil_dims);
+                begin.set_vals(ext_bb.bb_begin_tuple(domain_dims), false);
+                begin[step_posn] = begin_t;
+                IdxTuple end(stencil_dims);
+                end.set_vals(ext_bb.bb_end_tuple(domain_dims), false);
+                end[step_posn] = end_t;
+                IdxTuple stride(stencil_dims);
+                stride.set_vals(actl_opts->_mega_block_sizes, false); // stride by mega-block sizes.
+                stride[step_posn] = stride_t;
+
+                TRACE_MSG("running area [" <<
+                          begin.make_dim_val_str() << " ... " <<
+                          end.make_dim_val_str() << ") by " <<
+                          stride.make_dim_val_str());
+
+                // Adjust end points for overlapping mega-blocks due to wavefront angle.
+                // For each subsequent time step in a mega-block, the spatial location
+                // of each block evaluation is shifted by the angle for each
+                // stage. So, the total shift in a mega-block is the angle * num
+                // stages * num timesteps. This assumes all stages
+                // are inter-dependent to find maximum extension. Actual required
+                // size may be less, but this will just result in some calls to
+                // calc_mega_block() that do nothing.
+                //
+                // Conceptually (showing 2 ranks in t and x dims):
+                // -----------------------------  t = rt ------------------------------
+                //   \   | \     \     \|  \   |    .    |   / |  \     \     \|  \   |
+                //    \  |  \     \     |   \  |    .    |  / \|   \     \     |   \  |
+                //     \ |Mb0\ Mb1 \ Mb2|\Mb3\ |    .    | /Mb0| Mb1\ Mb2 \ Mb3|\Mb4\ |
+                //      \|    \     \   | \   \|         |/    |\    \     \   | \   \|
+                // ------------------------------ t = 0 -------------------------------
+                //       |   rank 0     |      |         |     |   rank 1      |      |
+                // x = begin[x]       end[x] end[x]  begin[x] begin[x]       end[x] end[x]
+                //     (rank)        (rank) (ext)     (ext)    (rank)       (rank) (adj)
+                //
+                //                      |XXXXXX|         |XXXXX|  <- redundant calculations.
+                // XXXXXX|  <- areas outside of outer ranks not calculated ->  |XXXXXXX
+                //
+                if (wf_steps > 0) {
+                    DOMAIN_VAR_LOOP_FAST(i, j) {
+
+                        // The end should be adjusted only if an extension doesn't
+                        // exist.  Extentions exist between ranks, so additional
+                        // adjustments are only needed at the end of the right-most
+                        // rank in each dim.  See "(adj)" in diagram above.
+                        if (right_wf_exts[j] == 0)
+                            end[i] += wf_shift_pts[j];
+                    }
                 }
-            }
 
-            // At this point, 'begin' and 'end' should describe the *max* range
-            // needed in the domain for this rank for the first time step.  At
-            // any subsequent time step, this max may be shifted for temporal
-            // wavefronts or blocking. Also, for each time step, the *actual*
-            // range will be adjusted as needed before any actual stencil
-            // calculations are made.
+                // At this point, 'begin' and 'end' should describe the *max* range
+                // needed in the domain for this rank for the first time step.  At
+                // any subsequent time step, this max may be shifted for temporal
+                // wavefronts or blocking. Also, for each time step, the *actual*
+                // range will be adjusted as needed before any actual stencil
+                // calculations are made.
+
+                // Set indices needed for the 'rank' loops.
+                rank_idxs.begin = begin;
+                rank_idxs.end = end;
+                rank_idxs.stride = stride;
+                rank_idxs.tile_size = actl_opts->_rank_tile_sizes;
+                rank_idxs.adjust_from_settings(actl_opts->_rank_sizes,
+                                               actl_opts->_rank_tile_sizes,
+                                               actl_opts->_mega_block_sizes);
+                TRACE_MSG("after adjustment for " << num_wf_shifts <<
+                          " wave-front shift(s): " <<
+                          rank_idxs.make_range_str(true));
+            };
+            set_rank_area();
 
-            // Indices needed for the 'rank' loops.
-            ScanIndices rank_idxs(true, &rank_domain_offsets);
-            rank_idxs.begin = begin;
-            rank_idxs.end = end;
-            rank_idxs.stride = stride;
-            rank_idxs.tile_size = actl_opts->_rank_tile_sizes;
-            rank_idxs.adjust_from_settings(actl_opts->_rank_sizes,
-                                           actl_opts->_rank_tile_sizes,
-                                           actl_opts->_mega_block_sizes);
-            TRACE_MSG("after adjustment for " << num_wf_shifts <<
-                      " wave-front shift(s): " <<
-                      rank_idxs.make_range_str(true));
-           
             // Make sure threads are set properly for a mega-block.
             set_num_outer_threads();
 
@@ -597,7 +606,10 @@ namespace yask {
                 // because not all sequences of N steps will do the same amount of work.
                 auto this_time = _at.timer.stop();
                 _at.steps_done += this_num_t;
+                bool was_tuning = is_auto_tuner_enabled();
                 eval_auto_tuner();
+                if (was_tuning)
+                    set_rank_area();
                 TRACE_MSG("did " << this_num_t << " step(s) in " << this_time << " secs.");
 
             } // step loop.
-- 
2.43.0


From 45d694aede6c0e6084ad78a2d4070e57eb6efdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:47 +0000
Subject: [PATCH 14/28] fix: fuse_vars() must reject an incompatible source for
 a solution var

---
 src/kernel/lib/yk_var_apis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/lib/yk_var_apis.cpp b/src/kernel/lib/yk_var_apis.cpp
index 99ff283..fb77729 100644
--- a/src/kernel/lib/yk_var_apis.cpp
+++ b/src/kernel/lib/yk_var_apis.cpp
@@ -342,7 +342,7 @@ namespace yask {
 
         // Check conditions for fusing into a non-user var.
         bool force_native = false;
-        if (gb().is_user_var()) {
+        if (!gb().is_user_var()) {
             force_native = true;
             if (!is_storage_layout_identical(sp, false))
                 THROW_YASK_EXCEPTION("fuse_vars(): attempt to replace meta-data"
-- 
2.43.0


From 7896ffcd8c28192b4a3cf50b132ae2a54ab8f256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 15/28] fix: exchange_halos() must exchange values set via the
 APIs after an earlier exchange

---
 src/kernel/lib/halo.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kernel/lib/halo.cpp b/src/kernel/lib/halo.cpp
index cb6fd6d..f868ede 100644
--- a/src/kernel/lib/halo.cpp
+++ b/src/kernel/lib/halo.cpp
@@ -67,7 +67,11 @@ namespace yask {
 
     // Exchange dirty halo data for all vars and all steps.
     void StencilContext::exchange_halos() {
-        
+
+        // Any rank may have changed its vars via the APIs since the last
+        // exchange, so make sure all neighbors participate.
+        set_all_neighbor_vars_dirty();
+
         // Do all parts.
         MpiSection mpisec(this);
         mpisec.init();
-- 
2.43.0


From 48ac6e7ee5226feb8fe75cd075299f77eab94d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 16/28] fix: scratch-var memory slots must fit the largest of
 the vars that share them

---
 src/kernel/lib/alloc.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/kernel/lib/alloc.cpp b/src/kernel/lib/alloc.cpp
index fc5a066..b695afe 100644
--- a/src/kernel/lib/alloc.cpp
+++ b/src/kernel/lib/alloc.cpp
@@ -1086,7 +1086,12 @@ namespace yask {
         // Remember alloc data for each thread and slot number.
         using ThreadAndSlot = pair<int, int>;
         map<ThreadAndSlot, AllocData> mem_slot_data;
-        
+
+        // Remember request and size for each thread and slot number. A slot
+        // must be big enough for the largest of the vars that share it.
+        map<ThreadAndSlot, AllocKey> mem_slot_keys;
+        map<ThreadAndSlot, size_t> mem_slot_bytes;
+
         // Pass 0: count required size, allocate chunk of memory at end.
         // Pass 1: distribute parts of already-allocated memory chunk.
         for (int pass = 0; pass < 2; pass++) {
@@ -1165,8 +1170,10 @@ namespace yask {
                     auto* req_data = &alloc_reqs[req_key];
 
                     // New or reusing?
-                    if (new_slot)
+                    if (new_slot) {
                         mem_slot_data[tns] = *req_data; // store current data.
+                        mem_slot_keys[tns] = req_key;
+                    }
                     else {
                         assert(mem_slot_data.count(tns));
                         req_data = &mem_slot_data.at(tns); // get stored data.
@@ -1182,9 +1189,20 @@ namespace yask {
 
                     // Determine size used (also offset to next location).
                     size_t nbytes = gp->get_num_storage_bytes();
+                    auto& slot_bytes = mem_slot_bytes[tns];
+                    if (pass == 0) {
+
+                        // Grow slot if this var needs more than any previous one.
+                        size_t rbytes = ROUND_UP(nbytes + _data_buf_pad,
+                                                 CACHELINE_BYTES);
+                        if (rbytes > slot_bytes) {
+                            alloc_reqs.at(mem_slot_keys.at(tns)).nbytes += rbytes - slot_bytes;
+                            slot_bytes = rbytes;
+                        }
+                    }
+                    else if (new_slot)
+                        req_data->nbytes += slot_bytes;
                     if (new_slot) {
-                        req_data->nbytes += ROUND_UP(nbytes + _data_buf_pad,
-                                                     CACHELINE_BYTES);
                         req_data->nvars++;
                         if (pass == 0)
                             TRACE_MSG("scratch var '" << gname << "' for thread " <<
-- 
2.43.0


From d773e4f7cb1bea4a6ae08b81c842dfd258d9afc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 17/28] fix: yask_parallel_for() must not change the number of
 threads inside a one-thread parallel region

---
 src/common/common_utils.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/common/common_utils.hpp b/src/common/common_utils.hpp
index 3f969e2..05bee2c 100644
--- a/src/common/common_utils.hpp
+++ b/src/common/common_utils.hpp
@@ -228,9 +228,11 @@ namespace yask {
             }
             #else
 
-            // If already in a parallel region, just
-            // execute sequential loop in current thread.
-            if (omp_get_num_threads() > 1) {
+            // If already in a parallel region, even if it has only one
+            // thread, just execute sequential loop in current thread.
+            // (Must not change the number of threads for the
+            // regions that the caller will start.)
+            if (omp_get_level() > 0) {
                 for (idx_t i = begin; i < end; i += stride) {
                     idx_t stop = std::min(i + stride, end);
                     visitor(i, stop, tn);
-- 
2.43.0


From be6c114b56f7e99a548a5a5e1d8973065eec855b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 18/28] fix: binding of inner threads must not skip slabs when
 OpenMP supplies fewer threads than requested

---
 src/kernel/lib/stencil_calc.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/kernel/lib/stencil_calc.cpp b/src/kernel/lib/stencil_calc.cpp
index aad3e76..fd48f38 100644
--- a/src/kernel/lib/stencil_calc.cpp
+++ b/src/kernel/lib/stencil_calc.cpp
@@ -207,9 +207,14 @@ namespace yask {
                     // is nested within an OMP outer thread.
                     _Pragma("omp parallel") {
                         assert(omp_get_level() == 2);
-                        assert(omp_get_num_threads() == nbt);
                         int inner_thread_idx = omp_get_thread_num();
 
+                        // Use the actual number of threads in this team
+                        // because OMP may provide fewer than requested,
+                        // e.g., due to 'OMP_THREAD_LIMIT' or 'OMP_DYNAMIC'.
+                        idx_t nteam = omp_get_num_threads();
+                        assert(nteam <= nbt);
+
                         // Run the micro-block loops on all inner threads and
                         // call calc_nano_block() only by the designated
                         // thread for the given slab index in the binding
@@ -230,7 +235,7 @@ namespace yask {
                         const idx_t idx_ofs = 0x1000; // to help keep pattern when idx is neg.
                         auto bind_elem_idx = nano_blk_range.start[bind_posn];
                         auto bind_slab_idx = idiv_flr(bind_elem_idx + idx_ofs, bind_slab_pts);
-                        auto bind_thr = imod_flr<idx_t>(bind_slab_idx, nbt);
+                        auto bind_thr = imod_flr<idx_t>(bind_slab_idx, nteam);
                         if (inner_thread_idx == bind_thr)
                             rp->calc_nano_block(outer_thread_idx, inner_thread_idx,
                                                 settings, nano_blk_range);
-- 
2.43.0


From d820e33664ca5352a0572498067771c767264264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:21 +0000
Subject: [PATCH 19/28] fix: keep old step values that are read by other
 equations after an in-place update

The compiler let a var be updated in place when its own halo was zero, even
if another equation, possibly evaluated later in the same stage or in a later
stage, reads the values being replaced.
---
 src/compiler/lib/Eqs.cpp | 19 +++++++++++++++++++
 src/compiler/lib/Var.cpp | 17 +++++++++++++++--
 src/compiler/lib/Var.hpp |  7 +++++++
 3 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/src/compiler/lib/Eqs.cpp b/src/compiler/lib/Eqs.cpp
index f03ef42..a068805 100644
--- a/src/compiler/lib/Eqs.cpp
+++ b/src/compiler/lib/Eqs.cpp
@@ -1647,6 +1647,9 @@ namespace yask {
            it is based on the data collected here.
         */
         
+        // Points written in earlier stages.
+        map<Var*, IntTuple> prev_writes;
+
         // Loop thru stages.
         for (auto& st : get_all()) {
 
@@ -1697,11 +1700,27 @@ namespace yask {
                             g->print_halos(cout, "***** c_h: ");
                         }
                         #endif
+
+                        // Track reads of values in other vars.
+                        if (g != out_pt1->_get_var())
+                            g->update_other_reads(stname, ap->get_arg_offsets());
+
+                        // If 'g' was already written in an earlier stage,
+                        // the written value must be kept in addition to
+                        // the one(s) accessed here.
+                        if (prev_writes.count(g))
+                            g->update_halo(stname, prev_writes.at(g));
                     }
                     auto* g = out_pt1->_get_var();
                     g->update_write_points(stname, out_pt1->get_arg_offsets());
                 } // eqs.
             } // reqd stages.
+
+            // Remember what was written in this stage.
+            for (auto& eq : st->get_eqs()) {
+                auto& out_pt1 = pv.get_output_pts().at(eq.get());
+                prev_writes.emplace(out_pt1->_get_var(), out_pt1->get_arg_offsets());
+            }
         } // stages.
 
         /* Phase 2:
diff --git a/src/compiler/lib/Var.cpp b/src/compiler/lib/Var.cpp
index 1ac3dc2..0b90fe4 100644
--- a/src/compiler/lib/Var.cpp
+++ b/src/compiler/lib/Var.cpp
@@ -332,6 +332,14 @@ namespace yask {
         if (sofs)
             _write_points[stage_name] = *sofs;
     }
+
+    // Update read offsets in eqs that do not write this var.
+    void Var::update_other_reads(const string& stage_name, const IntTuple& offsets) {
+        auto& sdims = get_soln_dims();
+        auto* sofs = offsets.lookup(sdims._step_dim);
+        if (sofs)
+            _other_reads[stage_name].insert(*sofs);
+    }
     
     // Update const indices based on 'indices'.
     void Var::update_const_indices(const IntTuple& indices) {
@@ -449,8 +457,13 @@ namespace yask {
 
                     // If first and last halos are zero, we can further optimize
                     // storage by immediately reusing memory location.
-                    if (sz > 1 && first_max_halo == 0 && last_max_halo == 0) {
-                        int write_ofs = _write_points.at(stage_name);
+                    // The values that would be replaced must not be needed
+                    // by other eqs because those may be evaluated later.
+                    int write_ofs = _write_points.at(stage_name);
+                    int replaced_ofs = (last_ofs == write_ofs) ? first_ofs : last_ofs;
+                    bool other_reads = _other_reads.count(stage_name) &&
+                        _other_reads.at(stage_name).count(replaced_ofs);
+                    if (sz > 1 && first_max_halo == 0 && last_max_halo == 0 && !other_reads) {
                         sz--;
                         if (last_ofs == write_ofs) // forward step.
                             sdi.writeback_ofs[stage_name] = first_ofs; // replace lowest read.
diff --git a/src/compiler/lib/Var.hpp b/src/compiler/lib/Var.hpp
index e2d4ebd..0baa103 100644
--- a/src/compiler/lib/Var.hpp
+++ b/src/compiler/lib/Var.hpp
@@ -83,6 +83,10 @@ namespace yask {
         // Val: step-index for write in stage.
         map<string, int> _write_points;
 
+        // Key: stage.
+        // Val: step-indices read in stage by eqs that do not write this var.
+        map<string, set<int>> _other_reads;
+
         // Greatest L1 dist of any halo point that accesses this var.
         int _l1_dist = 0;
 
@@ -285,6 +289,9 @@ namespace yask {
         }
         virtual void update_write_points(const string& stage_name, const IntTuple& offsets);
 
+        // Stage(s) with reads from eqs that do not write this var.
+        virtual void update_other_reads(const string& stage_name, const IntTuple& offsets);
+
         // Update L1 dist.
         virtual void update_l1_dist(int l1_dist) {
             _l1_dist = std::max(_l1_dist, l1_dist);
-- 
2.43.0


From 50c1893482fe188bfd4498a29c6a4e61c9c5587e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 20/28] fix: step-allocation overrides must replace the
 calculated size

yc_var::set_step_alloc_size() and the -step-alloc option had no effect because
the calculated size was stored after them.
---
 src/compiler/lib/Var.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/compiler/lib/Var.cpp b/src/compiler/lib/Var.cpp
index 0b90fe4..df0ffa2 100644
--- a/src/compiler/lib/Var.cpp
+++ b/src/compiler/lib/Var.cpp
@@ -374,6 +374,12 @@ namespace yask {
         if (!step_dim)
             return sdi;
 
+        // Override by API or specified on cmd line.
+        auto cmd_sz = _soln->get_settings()._step_alloc;
+        auto override_sz = cmd_sz > 0 ? idx_t(cmd_sz) : _step_alloc;
+        if (override_sz > 0)
+            sdi.step_dim_size = override_sz;
+
         // No info stored?
         if (_halos.size() == 0)
             return sdi;
@@ -486,15 +492,9 @@ namespace yask {
         cout << "* final sz = " << sz << endl;
         #endif
 
-        // Override by API.
-        if (_step_alloc > 0)
-            sdi.step_dim_size = _step_alloc;
-
-        // Specified on cmd line.
-        if (_soln->get_settings()._step_alloc > 0)
-            sdi.step_dim_size = _soln->get_settings()._step_alloc;
-
-        sdi.step_dim_size = max_sz;
+        // Use calculated size if not overridden.
+        if (override_sz <= 0)
+            sdi.step_dim_size = max_sz;
         return sdi;
     }
 
-- 
2.43.0


From a00693226d5e3f7d6a50cbbad1050abdf6383c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 21/28] fix: allocate enough steps for vars that are accessed
 in several stages

The number of steps to keep was found for each stage alone: a var written in
one stage and read at an older step in another, or a read-only var read at
different steps in different stages, got too few.
---
 src/compiler/lib/Var.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/compiler/lib/Var.cpp b/src/compiler/lib/Var.cpp
index df0ffa2..5e60260 100644
--- a/src/compiler/lib/Var.cpp
+++ b/src/compiler/lib/Var.cpp
@@ -387,6 +387,22 @@ namespace yask {
         // Need the max across all stages.
         int max_sz = 1;
 
+        // Steps accessed in different stages must be available at the same
+        // time: from the oldest one to the one before the write, if any.
+        set<int> all_ofs, write_ofs;
+        for (auto& hi : _halos)
+            for (auto& i : hi.second)
+                for (auto& j : i.second)
+                    all_ofs.insert(j.first);
+        for (auto& wi : _write_points)
+            write_ofs.insert(wi.second);
+        for (auto ofs : all_ofs) {
+            for (auto wofs : write_ofs)
+                max_sz = std::max(max_sz, std::abs(wofs - ofs));
+            if (write_ofs.empty())
+                max_sz = std::max(max_sz, ofs - *all_ofs.begin() + 1);
+        }
+
         // Loop thru each stage w/halos, including halos w/size zero.
         for (auto& hi : _halos) {
             auto& stage_name = hi.first;
-- 
2.43.0


From 4c87266c15d1807d5bd5f5fa47ce72d3bbb6a2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:09 +0000
Subject: [PATCH 22/28] fix: keep old step values that are read at other misc
 indices of a var

An in-place update at one misc index of a var replaced values that equations
updating other misc indices of that var still needed.
---
 src/compiler/lib/Eqs.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/compiler/lib/Eqs.cpp b/src/compiler/lib/Eqs.cpp
index a068805..84c1c40 100644
--- a/src/compiler/lib/Eqs.cpp
+++ b/src/compiler/lib/Eqs.cpp
@@ -1701,8 +1701,10 @@ namespace yask {
                         }
                         #endif
 
-                        // Track reads of values in other vars.
-                        if (g != out_pt1->_get_var())
+                        // Track reads of values in other vars or at
+                        // other misc indices of the written var.
+                        if (g != out_pt1->_get_var() ||
+                            ap->get_arg_consts() != out_pt1->get_arg_consts())
                             g->update_other_reads(stname, ap->get_arg_offsets());
 
                         // If 'g' was already written in an earlier stage,
-- 
2.43.0


From ca1a9dde80117919750231f87843f6004daab6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:09 +0000
Subject: [PATCH 23/28] fix: compiler must not treat '-b' as the same
 expression as 'a-b'

BinaryExpr is derived from UnaryExpr, so the equivalency check of a negation
matched any subtraction with the same right-hand side, and common-subexpression
elimination then replaced one by the other.
---
 src/compiler/lib/Expr.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compiler/lib/Expr.hpp b/src/compiler/lib/Expr.hpp
index e05828d..1dea9ff 100644
--- a/src/compiler/lib/Expr.hpp
+++ b/src/compiler/lib/Expr.hpp
@@ -401,9 +401,12 @@ namespace yask {
         virtual string accept(ExprVisitor* ev);
 
         // Check for equivalency.
+        // NB: a binary expr is derived from a unary one, so the types must
+        // be compared to avoid matching, e.g., '-b' to 'a-b'.
         virtual bool is_same(const Expr* other) const {
             auto p = dynamic_cast<const UnaryExpr*>(other);
-            return p && _op_str == p->_op_str &&
+            return p && typeid(*this) == typeid(*other) &&
+                _op_str == p->_op_str &&
                 _rhs && _rhs->is_same(p->_rhs.get());
         }
     };
-- 
2.43.0


From c42a485cf34ba6930bcfc18a8931b0499712f457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:57 +0000
Subject: [PATCH 24/28] fix: set_first_misc_index() also sets the offset used
 for vector accesses

A var made with new_var() and given a non-zero first misc index was accessed by
stencil code with the wrong misc offset after being fused into a solution var.
---
 src/kernel/lib/yk_var_apis.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kernel/lib/yk_var_apis.cpp b/src/kernel/lib/yk_var_apis.cpp
index fb77729..43f9ad8 100644
--- a/src/kernel/lib/yk_var_apis.cpp
+++ b/src/kernel/lib/yk_var_apis.cpp
@@ -257,7 +257,8 @@ namespace yask {
 
     // These are the safer ones used in the APIs.
     SET_VAR_API(set_first_misc_index,
-                cp->_local_offsets[posn] = n,
+                cp->_local_offsets[posn] = n;
+                cp->_vec_local_offsets[posn] = n, // misc dims are never folded.
                 false, false, gb()._is_user_var, false)
     SET_VAR_API(set_alloc_size,
                 cp->_domains[posn] = n,
-- 
2.43.0


From 8d8c62a496ddda96eb0d59c95dc6e4c4650eb1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:02 +0000
Subject: [PATCH 25/28] fix: prepare_solution() forgets neighbors found for
 earlier settings

When a solution was prepared again after turning use_shm off or changing the
layout of the ranks, entries of the neighbor tables that no longer applied were
kept. For example, an MPI receive used another rank's shared send buffer.
---
 src/kernel/lib/settings.hpp | 17 +++++++++++------
 src/kernel/lib/setup.cpp    |  3 +++
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/kernel/lib/settings.hpp b/src/kernel/lib/settings.hpp
index 1ef5d76..db86b6c 100644
--- a/src/kernel/lib/settings.hpp
+++ b/src/kernel/lib/settings.hpp
@@ -404,15 +404,20 @@ namespace yask {
             my_neighbor_index = get_neighbor_index(noffsets);
 
             // Init arrays.
-            my_neighbors.resize(neighborhood_size, MPI_PROC_NULL);
-            man_dists.resize(neighborhood_size, 0);
-            has_all_vlen_mults.resize(neighborhood_size, false);
-            shm_ranks.resize(neighborhood_size, MPI_PROC_NULL);
-            halo_buf_ptrs.resize(neighborhood_size, 0);
-            halo_buf_sizes.resize(neighborhood_size, 0);
+            clear_neighbors();
         }
         virtual ~MPIInfo() { }
 
+        // Set per-neighbor arrays to indicate no neighbors.
+        virtual void clear_neighbors() {
+            my_neighbors.assign(neighborhood_size, MPI_PROC_NULL);
+            man_dists.assign(neighborhood_size, 0);
+            has_all_vlen_mults.assign(neighborhood_size, false);
+            shm_ranks.assign(neighborhood_size, MPI_PROC_NULL);
+            halo_buf_ptrs.assign(neighborhood_size, 0);
+            halo_buf_sizes.assign(neighborhood_size, 0);
+        }
+
         // Get a 1D index for a neighbor.
         // Input 'offsets': tuple of NeighborOffset vals.
         virtual idx_t get_neighbor_index(const IdxTuple& offsets) const {
diff --git a/src/kernel/lib/setup.cpp b/src/kernel/lib/setup.cpp
index 6e2f5b2..4abcb9b 100644
--- a/src/kernel/lib/setup.cpp
+++ b/src/kernel/lib/setup.cpp
@@ -279,6 +279,9 @@ namespace yask {
             rsizes[rn].resize(nddims);
         }
 
+        // Forget neighbors found for any earlier settings.
+        mpi_info->clear_neighbors();
+
         // Two passes over ranks:
         // 0: sum all specified local sizes.
         // 1: set final sums and offsets.
-- 
2.43.0


From 335d7267931c572b99d4415e23fb0b3249031a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:48 +0000
Subject: [PATCH 26/28] fix: a solution created from another one has its own
 dimensions

---
 src/kernel/lib/factory.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kernel/lib/factory.cpp b/src/kernel/lib/factory.cpp
index 75121b3..c0f0b5c 100644
--- a/src/kernel/lib/factory.cpp
+++ b/src/kernel/lib/factory.cpp
@@ -94,6 +94,10 @@ namespace yask {
             sop = ssp->get_actl_opts();
             assert(sop);
             *actl_opts = *sop;
+
+            // Do not share the dims: creating a var may add one.
+            req_opts->_dims = dp;
+            actl_opts->_dims = dp;
         }
 
         // Create problem-specific object defined by stencil compiler.
-- 
2.43.0


From 98b9b4c2a9f92a17371e6d5866b497fb8ea86a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:22 +0000
Subject: [PATCH 27/28] fix: halo exchange must pair the same step storage on
 both sides when the ranges of valid steps differ

---
 src/kernel/lib/halo.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/kernel/lib/halo.cpp b/src/kernel/lib/halo.cpp
index f868ede..1f765e0 100644
--- a/src/kernel/lib/halo.cpp
+++ b/src/kernel/lib/halo.cpp
@@ -97,7 +97,7 @@ namespace yask {
         // Vars that need to be swapped and their step indices.
         struct SwapInfo {
             YkVarPtr gp;
-            set<idx_t> steps;
+            vector<idx_t> steps;
         };
         vector<SwapInfo> vars_to_swap;
 
@@ -119,7 +119,14 @@ namespace yask {
                 stop_t = gp->get_last_valid_step_index() + 1;
             }
             bool first = true;
-            for (idx_t t = start_t; t < stop_t; t++) {
+            const idx_t num_t = stop_t - start_t;
+            for (idx_t ti = 0; ti < num_t; ti++) {
+
+                // Visit steps in the order of their storage. The range of
+                // valid steps may differ between ranks, e.g., after
+                // independent auto-tuning, but both sides of each exchange
+                // must put the same storage in the same part of the buffer.
+                idx_t t = start_t + imod_flr(ti - start_t, num_t);
 
                 // If my var is dirty, the 'others' flag should always
                 // be set. Otherwise, the MPI exchanges will get
@@ -140,7 +147,7 @@ namespace yask {
                     vars_to_swap.push_back(si);
                     first = false;
                 }
-                vars_to_swap.back().steps.insert(t);
+                vars_to_swap.back().steps.push_back(t);
 
             } // steps.
         } // vars.
-- 
2.43.0


From 8252502335066d7ce9f5caad5a7ec1180f439dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:43 +0000
Subject: [PATCH 28/28] fix: keep solutions alive until an exception is
 reported by the kernel program; freeing shared memory is collective

---
 src/kernel/yask_main.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/kernel/yask_main.cpp b/src/kernel/yask_main.cpp
index c818d55..d3f57e1 100644
--- a/src/kernel/yask_main.cpp
+++ b/src/kernel/yask_main.cpp
@@ -261,6 +261,11 @@ int main(int argc, char** argv)
     div_line += "\n";
 
     yk_env_ptr kenv;
+
+    // These are declared here so that they still exist when an exception is
+    // reported below: freeing shared memory is a collective MPI operation, so
+    // it would hang if the other ranks have not failed.
+    yk_solution_ptr ksoln, ref_soln;
     try {
         // Bootstrap factory from kernel API.
         yk_factory kfac;
@@ -286,7 +291,7 @@ int main(int argc, char** argv)
         auto& os = kenv->get_debug_output()->get_ostream();
         
         // Make solution object containing data and parameters for stencil eval.
-        auto ksoln = kfac.new_solution(kenv);
+        ksoln = kfac.new_solution(kenv);
 
         // Parse custom and library-provided cmd-line options, exit on -help
         // or error, else show splash and current options.
@@ -568,7 +573,7 @@ int main(int argc, char** argv)
 
             // Make a reference context for comparisons w/new vars.
             // Reuse 'kenv' and copy library settings from 'ksoln'.
-            auto ref_soln = kfac.new_solution(kenv, ksoln);
+            ref_soln = kfac.new_solution(kenv, ksoln);
             auto _ref_context = dynamic_pointer_cast<StencilContext>(ref_soln);
             assert(_ref_context.get());
 
-- 
2.43.0

