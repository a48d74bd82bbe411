From 18a28ccf699afc4965ef23f26e203b1371d75bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 01/75] fix: do not call ma97_finalise if the HSL library could
 not be loaded

---
 src/Algorithm/LinearSolvers/IpMa97SolverInterface.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/LinearSolvers/IpMa97SolverInterface.cpp b/src/Algorithm/LinearSolvers/IpMa97SolverInterface.cpp
index 02f41ff..98c36f6 100644
--- a/src/Algorithm/LinearSolvers/IpMa97SolverInterface.cpp
+++ b/src/Algorithm/LinearSolvers/IpMa97SolverInterface.cpp
@@ -65,7 +65,11 @@ Ma97SolverInterface::~Ma97SolverInterface()
       delete[] scaling_;
    }
 
-   ma97_finalise(&akeep_, &fkeep_);
+   // without a loaded MA97 library, there is nothing to finalise
+   if( ma97_finalise != NULL )
+   {
+      ma97_finalise(&akeep_, &fkeep_);
+   }
 }
 
 void Ma97SolverInterface::RegisterOptions(
-- 
2.43.0


From 4f3a4f56d56e2cc41a115934c9e251cb302d73ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 02/75] fix: limited_memory_max_history=0 crashed with BFGS in
 restoration phase

---
 src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp b/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
index 662f52e..3c3d0ad 100644
--- a/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
+++ b/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
@@ -384,7 +384,7 @@ void LimMemQuasiNewtonUpdater::UpdateHessian()
 
             bool augment_memory = UpdateInternalData(*s_new, *y_new, ypart_new);
 
-            if( update_for_resto_ )
+            if( update_for_resto_ && limited_memory_max_history_ > 0 )
             {
                Number dmin = D_->Min();
                if( dmin <= 0. )
-- 
2.43.0


From 110e66b42aa349376c90de03b60cfa470e935e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 03/75] fix: failed constraint evaluation was taken as valid
 when requested again

---
 src/Interfaces/IpTNLPAdapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index a782341..0a5a782 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2845,7 +2845,7 @@ bool TNLPAdapter::internal_eval_g(
 
    if( !retval )
    {
-      x_tag_for_jac_g_ = 0;
+      x_tag_for_g_ = 0;
    }
 
    return retval;
-- 
2.43.0


From 6e067d6ee94dc270eb16c6e544b71705aa54c2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 04/75] fix: last column pointer of empty finite-difference
 Jacobian was not initialized

---
 src/Interfaces/IpTNLPAdapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 0a5a782..4efcfa2 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2965,7 +2965,7 @@ void TNLPAdapter::initialize_findiff_jac(
    }
    else
    {
-      memset(findiff_jac_ia_, 0, n_full_x_ * sizeof(Index));
+      memset(findiff_jac_ia_, 0, (n_full_x_ + 1) * sizeof(Index));
    }
    const Index* ja = findiff_jac_converter->JA();
    for( Index i = 0; i < findiff_jac_nnz_; i++ )
-- 
2.43.0


From 3ffa4c94821ab5d8d184c0efab6e4ff14b202fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 05/75] fix: multipliers of fixed variables were missing when a
 time limit was reached

---
 src/Interfaces/IpTNLPAdapter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 4efcfa2..7aee0c1 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2180,6 +2180,8 @@ void TNLPAdapter::FinalizeSolution(
    {
       case SUCCESS:
       case MAXITER_EXCEEDED:
+      case CPUTIME_EXCEEDED:
+      case WALLTIME_EXCEEDED:
       case STOP_AT_TINY_STEP:
       case STOP_AT_ACCEPTABLE_POINT:
       case LOCAL_INFEASIBILITY:
-- 
2.43.0


From d9d3083a8fd6f497f6242e034ea7017fbee1cf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 06/75] fix: final gradient evaluation for fixed variables
 passed new_x=false at a new point

---
 src/Interfaces/IpTNLPAdapter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 7aee0c1..11fbd3a 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2107,7 +2107,11 @@ void TNLPAdapter::FinalizeSolution(
 {
    DBG_START_METH("TNLPAdapter::FinalizeSolution", dbg_verbosity);
 
-   update_local_x(x);
+   if( update_local_x(x) )
+   {
+      // the TNLP has not seen this point yet, so the next evaluation must pass new_x=true
+      x_tag_for_iterates_ = 0;
+   }
    update_local_lambda(y_c, y_d);
 
    ResortX(x, full_x_);
-- 
2.43.0


From 4426e569fac2e444f5358cae1b6c0478f2085222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 07/75] fix: iterates of square problems were counted several
 times for acceptable_iter

---
 src/Algorithm/IpOptErrorConvCheck.cpp | 12 +++++++++++-
 src/Algorithm/IpOptErrorConvCheck.hpp |  6 ++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/IpOptErrorConvCheck.cpp b/src/Algorithm/IpOptErrorConvCheck.cpp
index 352757a..21f5f24 100644
--- a/src/Algorithm/IpOptErrorConvCheck.cpp
+++ b/src/Algorithm/IpOptErrorConvCheck.cpp
@@ -158,6 +158,8 @@ bool OptimalityErrorConvergenceCheck::InitializeImpl(
    options.GetNumericValue("diverging_iterates_tol", diverging_iterates_tol_, prefix);
    options.GetNumericValue("mu_target", mu_target_, prefix);
    acceptable_counter_ = 0;
+   acceptable_counter_prev_ = 0;
+   last_check_iter_ = -1;
    curr_obj_val_ = -1e50;
    last_obj_val_iter_ = -1;
 
@@ -238,10 +240,18 @@ ConvergenceCheck::ConvergenceStatus OptimalityErrorConvergenceCheck::CheckConver
       THROW_EXCEPTION(LOCALLY_INFEASIBLE, "All variables are fixed and constraint violation is above tolerance. The problem is infeasible.");
    }
 
+   // convergence may be checked several times in one iteration (e.g., for square problems),
+   // but each iteration counts only once as acceptable iteration
+   if( IpData().iter_count() != last_check_iter_ )
+   {
+      acceptable_counter_prev_ = acceptable_counter_;
+      last_check_iter_ = IpData().iter_count();
+   }
+
    if( acceptable_iter_ > 0 && CurrentIsAcceptable() )
    {
       IpData().Append_info_string("A");
-      acceptable_counter_++;
+      acceptable_counter_ = acceptable_counter_prev_ + 1;
       if( acceptable_counter_ >= acceptable_iter_ )
       {
          return ConvergenceCheck::CONVERGED_TO_ACCEPTABLE_POINT;
diff --git a/src/Algorithm/IpOptErrorConvCheck.hpp b/src/Algorithm/IpOptErrorConvCheck.hpp
index 07ff1eb..4fa4366 100644
--- a/src/Algorithm/IpOptErrorConvCheck.hpp
+++ b/src/Algorithm/IpOptErrorConvCheck.hpp
@@ -108,6 +108,12 @@ private:
     */
    Index acceptable_counter_;
 
+   /** Value of acceptable_counter_ before the current iteration */
+   Index acceptable_counter_prev_;
+
+   /** Iteration for which convergence was checked last */
+   Index last_check_iter_;
+
    /** Value of the objective function from last iteration.
     *
     * This is for accpetable_obj_change_tol.
-- 
2.43.0


From 2eb6385b55267ea0fbee7f45e1eb3db253a57b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 08/75] fix: slack-based scaling made KKT matrix singular for
 constraints without bounds

---
 .../LinearSolvers/IpSlackBasedTSymScalingMethod.cpp         | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Algorithm/LinearSolvers/IpSlackBasedTSymScalingMethod.cpp b/src/Algorithm/LinearSolvers/IpSlackBasedTSymScalingMethod.cpp
index b72fdc7..f83bd2e 100644
--- a/src/Algorithm/LinearSolvers/IpSlackBasedTSymScalingMethod.cpp
+++ b/src/Algorithm/LinearSolvers/IpSlackBasedTSymScalingMethod.cpp
@@ -67,6 +67,12 @@ bool SlackBasedTSymScalingMethod::ComputeSymTScalingFactors(
    tmp2->Set(slack_scale_max);
    tmp->ElementWiseMin(*tmp2);
 
+   // slacks without bounds have got a zero so far; use neutral scaling factor for them
+   tmp2->Copy(*tmp);
+   tmp2->ElementWiseSgn();
+   tmp2->AddScalar(-1.);
+   tmp->Axpy(-slack_scale_max, *tmp2);
+
    TripletHelper::FillValuesFromVector(ns, *tmp, scaling_factors);
    scaling_factors += ns;
 
-- 
2.43.0


From 40ad35128874caea61e619913b84935e88ea4bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 09/75] fix: no final report was given if the algorithm ended
 with an internal error

---
 src/Interfaces/IpIpoptApplication.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Interfaces/IpIpoptApplication.cpp b/src/Interfaces/IpIpoptApplication.cpp
index 44525ae..5ab3870 100644
--- a/src/Interfaces/IpIpoptApplication.cpp
+++ b/src/Interfaces/IpIpoptApplication.cpp
@@ -815,7 +815,6 @@ ApplicationReturnStatus IpoptApplication::call_optimize()
          retValue = Internal_Error;
          jnlst_->Printf(J_SUMMARY, J_MAIN,
                         "\nEXIT: INTERNAL ERROR: Unknown SolverReturn value - Notify IPOPT Authors.\n");
-         return retValue;
       }
 
       if( status != INVALID_NUMBER_DETECTED )
-- 
2.43.0


From b6c7575036f8b496781d02a62eaac3cc6403666e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 10/75] fix: slack-based scaling left factors of extended KKT
 system uninitialized

---
 .../LinearSolvers/IpSlackBasedTSymScalingMethod.cpp        | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Algorithm/LinearSolvers/IpSlackBasedTSymScalingMethod.cpp b/src/Algorithm/LinearSolvers/IpSlackBasedTSymScalingMethod.cpp
index f83bd2e..3f52cf1 100644
--- a/src/Algorithm/LinearSolvers/IpSlackBasedTSymScalingMethod.cpp
+++ b/src/Algorithm/LinearSolvers/IpSlackBasedTSymScalingMethod.cpp
@@ -24,7 +24,7 @@ bool SlackBasedTSymScalingMethod::InitializeImpl(
 }
 
 bool SlackBasedTSymScalingMethod::ComputeSymTScalingFactors(
-   Index         /*n*/,
+   Index         n,
    Index         /*nnz*/,
    const Index*  /*airn*/,
    const Index*  /*ajcn*/,
@@ -37,8 +37,6 @@ bool SlackBasedTSymScalingMethod::ComputeSymTScalingFactors(
 
    const Index nx = IpData().curr()->x()->Dim();
    const Index ns = IpData().curr()->s()->Dim();
-   const Index nc = IpData().curr()->y_c()->Dim();
-   const Index nd = IpData().curr()->y_d()->Dim();
 
    for( Index i = 0; i < nx; i++ )
    {
@@ -76,7 +74,8 @@ bool SlackBasedTSymScalingMethod::ComputeSymTScalingFactors(
    TripletHelper::FillValuesFromVector(ns, *tmp, scaling_factors);
    scaling_factors += ns;
 
-   for( Index i = 0; i < nc + nd; i++ )
+   // the system can be larger than the KKT system (extended system for limited-memory Hessian approximation)
+   for( Index i = 0; i < n - nx - ns; i++ )
    {
       scaling_factors[i] = 1.;
    }
-- 
2.43.0


From db6e93799c6d7be255d76f74c5331b06b8b6accc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:16 +0000
Subject: [PATCH 11/75] fix: refused constraint evaluation crashed if
 check_derivatives_for_naninf is set

---
 src/Algorithm/IpOrigIpoptNLP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/IpOrigIpoptNLP.cpp b/src/Algorithm/IpOrigIpoptNLP.cpp
index 0d73b65..09fb0de 100644
--- a/src/Algorithm/IpOrigIpoptNLP.cpp
+++ b/src/Algorithm/IpOrigIpoptNLP.cpp
@@ -580,7 +580,7 @@ SmartPtr<const Vector> OrigIpoptNLP::c(
          timing_statistics_.c_eval_time().End();
          if( !success || !IsFiniteNumber(unscaled_c->Nrm2()) )
          {
-            if( check_derivatives_for_naninf_ && !IsFiniteNumber(unscaled_c->Nrm2()) )
+            if( success && check_derivatives_for_naninf_ )
             {
                jnlst_->Printf(J_WARNING, J_NLP, "The equality constraints contain an invalid number\n");
                unscaled_c->Print(*jnlst_, J_MOREDETAILED, J_MAIN, "unscaled_c");
@@ -629,7 +629,7 @@ SmartPtr<const Vector> OrigIpoptNLP::d(
          DBG_PRINT_VECTOR(2, "unscaled_d", *unscaled_d);
          if( !success || !IsFiniteNumber(unscaled_d->Nrm2()) )
          {
-            if( check_derivatives_for_naninf_ && !IsFiniteNumber(unscaled_d->Nrm2()) )
+            if( success && check_derivatives_for_naninf_ )
             {
                jnlst_->Printf(J_WARNING, J_NLP, "The inequality constraints contain an invalid number\n");
                unscaled_d->Print(*jnlst_, J_MOREDETAILED, J_MAIN, "unscaled_d");
-- 
2.43.0


From 891df5afbd173159c93a687bc53adec78efe1720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:16 +0000
Subject: [PATCH 12/75] fix: SR1 update could be undone to a state from before
 the start or a reset

---
 src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp b/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
index 3c3d0ad..80d510a 100644
--- a/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
+++ b/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
@@ -269,6 +269,8 @@ void LimMemQuasiNewtonUpdater::UpdateHessian()
          // Set up W to be multiple of I
          sigma_ = limited_memory_init_val_;
       }
+      // SR1 may undo the most recent update before the first one has been made
+      StoreInternalDataBackup();
       SetW();
       return;
    }
-- 
2.43.0


From fdbf414601f6ed10a470345f85992cc8d1f59356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 13/75] fix: new_x=false could be passed for a point the user
 has not seen last

---
 src/Interfaces/IpTNLPAdapter.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 11fbd3a..c194778 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -1802,6 +1802,9 @@ bool TNLPAdapter::Eval_grad_f(
          }
 
          delete[] full_x_pert;
+
+         // the user has seen other points by now, so the next call has to pass new_x=true
+         x_tag_for_iterates_ = 0;
       }
    }
 
@@ -2842,6 +2845,11 @@ bool TNLPAdapter::internal_eval_g(
    if( x_tag_for_g_ == x_tag_for_iterates_ )
    {
       // already calculated!
+      if( new_x )
+      {
+         // the user has not been told about this x, so the next call has to pass new_x=true
+         x_tag_for_iterates_ = 0;
+      }
       return true;
    }
 
@@ -2864,6 +2872,11 @@ bool TNLPAdapter::internal_eval_jac_g(
    if( x_tag_for_jac_g_ == x_tag_for_iterates_ )
    {
       // already calculated!
+      if( new_x )
+      {
+         // the user has not been told about this x, so the next call has to pass new_x=true
+         x_tag_for_iterates_ = 0;
+      }
       return true;
    }
 
@@ -2913,6 +2926,9 @@ bool TNLPAdapter::internal_eval_jac_g(
          }
          delete[] full_g_pert;
          delete[] full_x_pert;
+
+         // the user has seen other points by now, so the next call has to pass new_x=true
+         x_tag_for_iterates_ = 0;
       }
    }
 
-- 
2.43.0


From 97bb8d7fe05bcf53467dffb68eec74b04dcb6e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 14/75] fix: perturbed evaluation point was outside the bounds
 if the starting point is far outside

---
 src/Interfaces/IpTNLPAdapter.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index c194778..0b473e6 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -3051,8 +3051,8 @@ bool TNLPAdapter::CheckDerivatives(
    IpResetRandom01();
    for( Index i = 0; i < nx; i++ )
    {
-      const Number lower = Max(x_l[i], xref[i] - point_perturbation_radius_);
-      const Number upper = Min(x_u[i], xref[i] + point_perturbation_radius_);
+      const Number lower = Max(x_l[i], Min(xref[i], x_u[i]) - point_perturbation_radius_);
+      const Number upper = Min(x_u[i], Max(xref[i], x_l[i]) + point_perturbation_radius_);
       const Number interval = upper - lower;
       const Number random_number = IpRandom01();
       xref[i] = lower + random_number * interval;
@@ -3533,8 +3533,8 @@ bool TNLPAdapter::DetermineDependentConstraints(
    IpResetRandom01();
    for( Index i = 0; i < n_full_x_; i++ )
    {
-      const Number lower = Max(x_l[i], full_x_[i] - point_perturbation_radius_);
-      const Number upper = Min(x_u[i], full_x_[i] + point_perturbation_radius_);
+      const Number lower = Max(x_l[i], Min(full_x_[i], x_u[i]) - point_perturbation_radius_);
+      const Number upper = Min(x_u[i], Max(full_x_[i], x_l[i]) + point_perturbation_radius_);
       const Number interval = upper - lower;
       const Number random_number = IpRandom01();
       full_x_[i] = lower + random_number * interval;
-- 
2.43.0


From 339d6722b19ed6a40386aecd045bd6afc7ce5b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:59 +0000
Subject: [PATCH 15/75] fix: finite-difference derivatives for fixed variables
 were not initialized

---
 src/Interfaces/IpTNLPAdapter.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 0b473e6..e658d66 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -1799,6 +1799,11 @@ bool TNLPAdapter::Eval_grad_f(
 
                full_x_pert[ivar] = xorig;
             }
+            else
+            {
+               // fixed variable that is not treated as parameter: cannot be perturbed
+               values[i] = 0.;
+            }
          }
 
          delete[] full_x_pert;
@@ -2923,6 +2928,14 @@ bool TNLPAdapter::internal_eval_jac_g(
                }
                full_x_pert[ivar] = xorig;
             }
+            else
+            {
+               // fixed variable: cannot be perturbed
+               for( Index i = findiff_jac_ia_[ivar]; i < findiff_jac_ia_[ivar + 1]; i++ )
+               {
+                  jac_g_[findiff_jac_postriplet_[i]] = 0.;
+               }
+            }
          }
          delete[] full_g_pert;
          delete[] full_x_pert;
-- 
2.43.0


From fa99c25bed94a4c1457ad5fe54e88336a2c9d2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:39 +0000
Subject: [PATCH 16/75] fix: crash if restoration phase fails at its start
 while no trial point exists

---
 src/Algorithm/IpRestoMinC_1Nrm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/IpRestoMinC_1Nrm.cpp b/src/Algorithm/IpRestoMinC_1Nrm.cpp
index 87c96da..020e8a1 100644
--- a/src/Algorithm/IpRestoMinC_1Nrm.cpp
+++ b/src/Algorithm/IpRestoMinC_1Nrm.cpp
@@ -201,7 +201,8 @@ bool MinC_1NrmRestorationPhase::PerformRestoration()
          // In case of a failure, we still copy the values of primal and
          // dual variables into the data fields of the regular NLP, so
          // that they will be returned to the user
-         SmartPtr<IteratesVector> trial = IpData().trial()->MakeNewContainer();
+         // (there is no trial point yet if it failed before the first convergence check)
+         SmartPtr<IteratesVector> trial = IpData().curr()->MakeNewContainer();
 
          SmartPtr<const Vector> resto_curr_x = resto_curr->x();
          SmartPtr<const CompoundVector> cx = static_cast<const CompoundVector*>(GetRawPtr(resto_curr_x));
-- 
2.43.0


From f5abf1ddf144f8f8fa016b3fed4d9b8ff7c6c1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:07 +0000
Subject: [PATCH 17/75] fix: no final report if functions cannot be evaluated
 again at the final point

---
 src/Interfaces/IpIpoptApplication.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Interfaces/IpIpoptApplication.cpp b/src/Interfaces/IpIpoptApplication.cpp
index 5ab3870..c0c7f8f 100644
--- a/src/Interfaces/IpIpoptApplication.cpp
+++ b/src/Interfaces/IpIpoptApplication.cpp
@@ -683,6 +683,11 @@ ApplicationReturnStatus IpoptApplication::call_optimize()
                            p2ip_cq->curr_complementarity(0., NORM_MAX), p2ip_cq->unscaled_curr_complementarity(0., NORM_MAX));
             jnlst_->Printf(J_SUMMARY, J_SOLUTION, "Overall NLP error.......: %24.16e  %24.16e\n\n",
                            p2ip_cq->curr_nlp_error(), p2ip_cq->unscaled_curr_nlp_error());
+
+            // make sure that the function values that are reported below are available
+            p2ip_cq->curr_f();
+            p2ip_cq->curr_c();
+            p2ip_cq->curr_d();
          }
          catch( IpoptNLP::Eval_Error& exc )
          {
-- 
2.43.0


From 2ddddf39afa3b88320b05b8fb5c05634fd6510e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:44 +0000
Subject: [PATCH 18/75] fix: crash if restoration phase fails while its
 iterates are initialized

---
 src/Algorithm/IpRestoMinC_1Nrm.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/IpRestoMinC_1Nrm.cpp b/src/Algorithm/IpRestoMinC_1Nrm.cpp
index 020e8a1..cbdbbd8 100644
--- a/src/Algorithm/IpRestoMinC_1Nrm.cpp
+++ b/src/Algorithm/IpRestoMinC_1Nrm.cpp
@@ -196,7 +196,9 @@ bool MinC_1NrmRestorationPhase::PerformRestoration()
    if( resto_status != SUCCESS )
    {
       SmartPtr<const IteratesVector> resto_curr = resto_ip_data->curr();
-      if( IsValid(resto_curr) )
+      // if there is a trial point, but no search direction, then the initialization
+      // of the iterates failed and the current point of the restoration phase is not set
+      if( IsValid(resto_curr) && (IsNull(resto_ip_data->trial()) || IsValid(resto_ip_data->delta())) )
       {
          // In case of a failure, we still copy the values of primal and
          // dual variables into the data fields of the regular NLP, so
-- 
2.43.0


From 6843603d9c1a5873cded5ab1d29b909cfe75c67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:52 +0000
Subject: [PATCH 19/75] fix: wrong grad_lag_x and constraint violations from
 get_curr_violations with fixed variables or scaled inequalities

---
 src/Interfaces/IpTNLP.cpp | 25 ++++---------------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/src/Interfaces/IpTNLP.cpp b/src/Interfaces/IpTNLP.cpp
index 66b6067..def8dca 100644
--- a/src/Interfaces/IpTNLP.cpp
+++ b/src/Interfaces/IpTNLP.cpp
@@ -894,25 +894,8 @@ bool TNLP::get_curr_violations(
       // such that the Gradient of the Lagrangian will be zero, so leaving them at 0 is correct here
       tnlp_adapter->ResortX(*curr_grad_lag_x(ip_data, ip_cq, orignlp, restonlp, scaled), grad_lag_x, false);
 
-      // if fixed_variable_treatment is make_constraint, then fixed variable contribute y_c*x to the Lagrangian
-      // however, we want to get -z_L + z_U
-      // using z_L = -y_c^-, z_U = y_c^+, this means to add -z_L + z_U - y_c x = y_c - y_c x = y_c (1-x)
-      if( n_x_fixed > 0 && fixed_variable_treatment == TNLPAdapter::MAKE_CONSTRAINT )
-      {
-         SmartPtr<const DenseVector> y_c = curr_y_c(ip_data, ip_cq, orignlp, restonlp, scaled);
-         const Number* c_rhs = tnlp_adapter->GetC_Rhs();
-         DBG_ASSERT(y_c->Dim() >= n_x_fixed);
-         if( y_c->IsHomogeneous() )
-            for( Index i = 0; i < n_x_fixed; ++i )
-            {
-               grad_lag_x[x_fixed_map[i]] += y_c->Scalar() * (1.0 - c_rhs[y_c->Dim() - n_x_fixed + i]);
-            }
-         else
-            for( Index i = 0; i < n_x_fixed; ++i )
-            {
-               grad_lag_x[x_fixed_map[i]] += y_c->Values()[y_c->Dim() - n_x_fixed + i] * (1.0 - c_rhs[y_c->Dim() - n_x_fixed + i]);
-            }
-      }
+      // if fixed_variable_treatment is make_constraint, then the constraint x = xfix contributes y_c to the gradient of the Lagrangian,
+      // which is already -z_L + z_U, since z_L = y_c^-, z_U = y_c^+
    }
 
    if( nlp_constraint_violation != NULL || compl_g != NULL )
@@ -931,7 +914,7 @@ bool TNLP::get_curr_violations(
          // orig_d_L is unscaled, but we need the scaled one below (because d is scaled)
          if( orignlp->NLP_scaling()->have_d_scaling() )
          {
-            d_L = orignlp->NLP_scaling()->apply_vector_scaling_d_NonConst(d_L);
+            d_L = orignlp->NLP_scaling()->apply_vector_scaling_d_LU(*orignlp->Pd_L(), d_L, *d->OwnerSpace());
          }
       }
       else // if no relaxation, then orig_d_L() returns NULL, use d_L instead
@@ -966,7 +949,7 @@ bool TNLP::get_curr_violations(
          // orig_d_U is unscaled, but we need the scaled one below (because d is scaled)
          if( orignlp->NLP_scaling()->have_d_scaling() )
          {
-            d_U = orignlp->NLP_scaling()->apply_vector_scaling_d_NonConst(d_U);
+            d_U = orignlp->NLP_scaling()->apply_vector_scaling_d_LU(*orignlp->Pd_U(), d_U, *d->OwnerSpace());
          }
       }
       else // if no relaxation, then orig_d_U() returns NULL, use d_U instead
-- 
2.43.0


From d63ec7d85b8e0ae570e507bfa4fddd79c7b36e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 20/75] fix: entries behind the end of the piecewise penalty
 list were read

---
 src/contrib/CGPenalty/IpPiecewisePenalty.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/contrib/CGPenalty/IpPiecewisePenalty.cpp b/src/contrib/CGPenalty/IpPiecewisePenalty.cpp
index 1686949..4c6b75d 100644
--- a/src/contrib/CGPenalty/IpPiecewisePenalty.cpp
+++ b/src/contrib/CGPenalty/IpPiecewisePenalty.cpp
@@ -56,7 +56,7 @@ bool PiecewisePenalty::Acceptable(
          }
       }
       // Then check the ending entry of the list.
-      iter = PiecewisePenalty_list_.end()--;
+      iter = PiecewisePenalty_list_.end() - 1;
       value = iter->barrier_obj + iter->pen_r * iter->infeasi - trial_barrier - iter->pen_r * trial_inf;
       if( value <= 0. && trial_inf <= iter->infeasi )
       {
@@ -73,7 +73,7 @@ bool PiecewisePenalty::Acceptable(
          }
       }
       // Finally, check the middle entries of the list.
-      for( iter = PiecewisePenalty_list_.begin() + 1; iter != PiecewisePenalty_list_.end(); ++iter )
+      for( iter = PiecewisePenalty_list_.begin() + 1; iter != PiecewisePenalty_list_.end() - 1; ++iter )
       {
          Number value_left, value_mid, value_right;
          value_mid = iter->barrier_obj + iter->pen_r * iter->infeasi - trial_barrier - iter->pen_r * trial_inf;
-- 
2.43.0


From b0b0fef152e57fed25f53ae0418a15e9d3960c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:11 +0000
Subject: [PATCH 21/75] fix: original bounds were not kept if
 bound_relax_factor=0 although slack corrections may move bounds

---
 src/Algorithm/IpOrigIpoptNLP.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/Algorithm/IpOrigIpoptNLP.cpp b/src/Algorithm/IpOrigIpoptNLP.cpp
index 09fb0de..d5b118f 100644
--- a/src/Algorithm/IpOrigIpoptNLP.cpp
+++ b/src/Algorithm/IpOrigIpoptNLP.cpp
@@ -341,18 +341,19 @@ bool OrigIpoptNLP::InitializeStructures(
    d_L->Print(*jnlst_, J_MOREVECTOR, J_INITIALIZATION, "original d_L unscaled");
    d_U->Print(*jnlst_, J_MOREVECTOR, J_INITIALIZATION, "original d_U unscaled");
 
+   // keep the original bounds, as bounds may be relaxed here and be moved slightly later (AdjustVariableBounds)
+   SmartPtr<Vector> tmp;
+   tmp = x_L->MakeNewCopy();
+   orig_x_L_ = ConstPtr(tmp);
+   tmp = x_U->MakeNewCopy();
+   orig_x_U_ = ConstPtr(tmp);
+   tmp = d_L->MakeNewCopy();
+   orig_d_L_ = ConstPtr(tmp);
+   tmp = d_U->MakeNewCopy();
+   orig_d_U_ = ConstPtr(tmp);
+
    if( bound_relax_factor_ > 0.0 )
    {
-      SmartPtr<Vector> tmp;
-      tmp = x_L->MakeNewCopy();
-      orig_x_L_ = ConstPtr(tmp);
-      tmp = x_U->MakeNewCopy();
-      orig_x_U_ = ConstPtr(tmp);
-      tmp = d_L->MakeNewCopy();
-      orig_d_L_ = ConstPtr(tmp);
-      tmp = d_U->MakeNewCopy();
-      orig_d_U_ = ConstPtr(tmp);
-
       relax_bounds(-bound_relax_factor_, *x_L);
       relax_bounds(bound_relax_factor_, *x_U);
       relax_bounds(-bound_relax_factor_, *d_L);
@@ -932,7 +933,7 @@ void OrigIpoptNLP::FinalizeSolution(
       unscaled_y_d = NLP_scaling()->apply_vector_scaling_d(&y_d);
    }
 
-   if( honor_original_bounds_ && bound_relax_factor_ > 0.0 && (Px_L_->NCols() > 0 || Px_U_->NCols() > 0) )
+   if( honor_original_bounds_ && (Px_L_->NCols() > 0 || Px_U_->NCols() > 0) )
    {
       // Make sure the user specified bounds are satisfied
       SmartPtr<Vector> tmp;
-- 
2.43.0


From 00e62ee9973ad35cc59391826bf0d2a972b17d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:27 +0000
Subject: [PATCH 22/75] fix: penalty line search used uninitialized values and
 entries of a previous solve

---
 src/contrib/CGPenalty/IpCGPenaltyData.cpp       | 2 ++
 src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/contrib/CGPenalty/IpCGPenaltyData.cpp b/src/contrib/CGPenalty/IpCGPenaltyData.cpp
index 9f93162..53bca07 100644
--- a/src/contrib/CGPenalty/IpCGPenaltyData.cpp
+++ b/src/contrib/CGPenalty/IpCGPenaltyData.cpp
@@ -29,6 +29,8 @@ bool CGPenaltyData::Initialize(
 
    penalty_initialized_ = false;
    kkt_penalty_initialized_ = false;
+   curr_penalty_ = 1.;
+   curr_kkt_penalty_ = 1.;
    curr_penalty_pert_ = 0.;
    max_alpha_x_ = 1.;
    never_try_pure_Newton_ = false;
diff --git a/src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp b/src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp
index 8975527..e9012d6 100644
--- a/src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp
+++ b/src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp
@@ -213,6 +213,9 @@ bool CGPenaltyLSAcceptor::InitializeImpl(
    CGPenData().SetPenaltyUninitialized();
    ls_counter_ = 0;
    best_KKT_error_ = -1.;
+   best_iterate_ = NULL;
+   PiecewisePenalty_.Clear();
+   reset_piecewise_penalty_ = true;
    accepted_by_Armijo_ = true;
    //never_do_restor_ = true;
    jump_for_tiny_step_ = 0;
-- 
2.43.0


From 927da243e5d86d6d763271b6618312bf17c9115f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:04 +0000
Subject: [PATCH 23/75] fix: numeric options set by SetNumericValue were
 truncated to 6 digits

---
 src/Common/IpOptionsList.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Common/IpOptionsList.cpp b/src/Common/IpOptionsList.cpp
index 7aafa04..930342a 100644
--- a/src/Common/IpOptionsList.cpp
+++ b/src/Common/IpOptionsList.cpp
@@ -117,6 +117,11 @@ bool OptionsList::SetNumericValue(
 {
    char buffer[256];
    Snprintf(buffer, 255, "%g", value);
+   if( (Number) strtod(buffer, NULL) != value )
+   {
+      // use as many digits as needed to get the same value when the option is read
+      Snprintf(buffer, 255, "%.17g", value);
+   }
 
    if( IsValid(reg_options_) )
    {
-- 
2.43.0


From d9e403dca9cb0a9d95dbc1613b60c5fb9a753a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:51 +0000
Subject: [PATCH 24/75] fix: mehrotra_algorithm crashed if no affine step had
 been computed in an iteration

---
 src/Algorithm/IpPDSearchDirCalc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithm/IpPDSearchDirCalc.cpp b/src/Algorithm/IpPDSearchDirCalc.cpp
index 7df9903..63841d6 100644
--- a/src/Algorithm/IpPDSearchDirCalc.cpp
+++ b/src/Algorithm/IpPDSearchDirCalc.cpp
@@ -78,7 +78,7 @@ bool PDSearchDirCalculator::ComputeSearchDirection()
       rhs->Set_y_c(*IpCq().curr_c());
       rhs->Set_y_d(*IpCq().curr_d_minus_s());
       Index nbounds = IpNLP().x_L()->Dim() + IpNLP().x_U()->Dim() + IpNLP().d_L()->Dim() + IpNLP().d_U()->Dim();
-      if( nbounds > 0 && mehrotra_algorithm_ )
+      if( nbounds > 0 && mehrotra_algorithm_ && IpData().HaveAffineDeltas() )
       {
          // set up the right hand side a la Mehrotra
          DBG_ASSERT(IpData().HaveAffineDeltas());
-- 
2.43.0


From c9a067871bf16c2f39db7d1d9e08fe100b0666aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:41 +0000
Subject: [PATCH 25/75] fix: last step of the soft restoration phase did not
 update the constraint multipliers and was reported as step of size 0

---
 src/Algorithm/IpBacktrackingLineSearch.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/IpBacktrackingLineSearch.cpp b/src/Algorithm/IpBacktrackingLineSearch.cpp
index 6782ac5..ae02a11 100644
--- a/src/Algorithm/IpBacktrackingLineSearch.cpp
+++ b/src/Algorithm/IpBacktrackingLineSearch.cpp
@@ -348,6 +348,8 @@ void BacktrackingLineSearch::FindAcceptableTrialPoint()
    bool accept = false;
    Index n_steps = 0;
    Number alpha_primal = 0.;
+   // whether the trial point is from an accepted step of the soft restoration phase (including its dual variables)
+   bool soft_resto_step = false;
 
    // Check if search direction becomes too small
    bool tiny_step = (!goto_resto && DetectTinyStep());
@@ -444,6 +446,7 @@ void BacktrackingLineSearch::FindAcceptableTrialPoint()
             accept = TrySoftRestoStep(actual_delta, satisfies_original_criterion);
             if( accept )
             {
+               soft_resto_step = true;
                IpData().Set_info_alpha_primal_char('s');
                if( satisfies_original_criterion )
                {
@@ -622,7 +625,7 @@ void BacktrackingLineSearch::FindAcceptableTrialPoint()
          }
       }
    }
-   else if( !in_soft_resto_phase_ || tiny_step )
+   else if( (!in_soft_resto_phase_ && !soft_resto_step) || tiny_step )
    {
       // we didn't do the restoration phase and are now updating the
       // dual variables of the trial point
-- 
2.43.0


From 85e2d6cef06adabedfe79fc541cdf4d9c7f4174f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:35 +0000
Subject: [PATCH 26/75] fix: bounds were not moved for corrected slacks if the
 slacks had been requested twice (soft restoration phase)

---
 src/Algorithm/IpIpoptCalculatedQuantities.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Algorithm/IpIpoptCalculatedQuantities.cpp b/src/Algorithm/IpIpoptCalculatedQuantities.cpp
index df366ea..fc79f2c 100644
--- a/src/Algorithm/IpIpoptCalculatedQuantities.cpp
+++ b/src/Algorithm/IpIpoptCalculatedQuantities.cpp
@@ -360,12 +360,13 @@ SmartPtr<const Vector> IpoptCalculatedQuantities::trial_slack_x_L()
    DBG_START_METH("IpoptCalculatedQuantities::trial_slack_x_L()",
                   dbg_verbosity);
 
-   num_adjusted_slack_x_L_ = 0;
    SmartPtr<Vector> result;
    SmartPtr<const Vector> x = ip_data_->trial()->x();
    SmartPtr<const Vector> x_bound = ip_nlp_->x_L();
    if( !trial_slack_x_L_cache_.GetCachedResult1Dep(result, *x) )
    {
+      // keep the count if the slack for this trial point has been computed (and possibly corrected) already
+      num_adjusted_slack_x_L_ = 0;
       if( !curr_slack_x_L_cache_.GetCachedResult1Dep(result, *x) )
       {
          SmartPtr<const Matrix> P = ip_nlp_->Px_L();
@@ -383,12 +384,13 @@ SmartPtr<const Vector> IpoptCalculatedQuantities::trial_slack_x_U()
    DBG_START_METH("IpoptCalculatedQuantities::trial_slack_x_U()",
                   dbg_verbosity);
 
-   num_adjusted_slack_x_U_ = 0;
    SmartPtr<Vector> result;
    SmartPtr<const Vector> x = ip_data_->trial()->x();
    SmartPtr<const Vector> x_bound = ip_nlp_->x_U();
    if( !trial_slack_x_U_cache_.GetCachedResult1Dep(result, *x) )
    {
+      // keep the count if the slack for this trial point has been computed (and possibly corrected) already
+      num_adjusted_slack_x_U_ = 0;
       if( !curr_slack_x_U_cache_.GetCachedResult1Dep(result, *x) )
       {
          SmartPtr<const Matrix> P = ip_nlp_->Px_U();
@@ -406,12 +408,13 @@ SmartPtr<const Vector> IpoptCalculatedQuantities::trial_slack_s_L()
    DBG_START_METH("IpoptCalculatedQuantities::trial_slack_s_L()",
                   dbg_verbosity);
 
-   num_adjusted_slack_s_L_ = 0;
    SmartPtr<Vector> result;
    SmartPtr<const Vector> s = ip_data_->trial()->s();
    SmartPtr<const Vector> s_bound = ip_nlp_->d_L();
    if( !trial_slack_s_L_cache_.GetCachedResult1Dep(result, *s) )
    {
+      // keep the count if the slack for this trial point has been computed (and possibly corrected) already
+      num_adjusted_slack_s_L_ = 0;
       if( !curr_slack_s_L_cache_.GetCachedResult1Dep(result, *s) )
       {
          SmartPtr<const Matrix> P = ip_nlp_->Pd_L();
@@ -429,12 +432,13 @@ SmartPtr<const Vector> IpoptCalculatedQuantities::trial_slack_s_U()
    DBG_START_METH("IpoptCalculatedQuantities::trial_slack_s_U()",
                   dbg_verbosity);
 
-   num_adjusted_slack_s_U_ = 0;
    SmartPtr<Vector> result;
    SmartPtr<const Vector> s = ip_data_->trial()->s();
    SmartPtr<const Vector> s_bound = ip_nlp_->d_U();
    if( !trial_slack_s_U_cache_.GetCachedResult1Dep(result, *s) )
    {
+      // keep the count if the slack for this trial point has been computed (and possibly corrected) already
+      num_adjusted_slack_s_U_ = 0;
       if( !curr_slack_s_U_cache_.GetCachedResult1Dep(result, *s) )
       {
          SmartPtr<const Matrix> P = ip_nlp_->Pd_U();
-- 
2.43.0


From ac72729fb8cb64bf9d3947cb92feb77c4b0065b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:53 +0000
Subject: [PATCH 27/75] fix: sums and norms of an empty DenseVector are zero
 also when its homogeneous value is not finite

---
 src/LinAlg/IpDenseVector.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/LinAlg/IpDenseVector.cpp b/src/LinAlg/IpDenseVector.cpp
index 5b90313..5d5e915 100644
--- a/src/LinAlg/IpDenseVector.cpp
+++ b/src/LinAlg/IpDenseVector.cpp
@@ -221,6 +221,11 @@ Number DenseVector::DotImpl(
 Number DenseVector::Nrm2Impl() const
 {
    DBG_ASSERT(initialized_);
+   if( Dim() == 0 )
+   {
+      return 0.;
+   }
+
    if( homogeneous_ )
    {
       return std::sqrt((Number) Dim()) * std::abs(scalar_);
@@ -234,6 +239,11 @@ Number DenseVector::Nrm2Impl() const
 Number DenseVector::AsumImpl() const
 {
    DBG_ASSERT(initialized_);
+   if( Dim() == 0 )
+   {
+      return 0.;
+   }
+
    if( homogeneous_ )
    {
       return Dim() * std::abs(scalar_);
@@ -681,6 +691,11 @@ Number DenseVector::MinImpl() const
 Number DenseVector::SumImpl() const
 {
    DBG_ASSERT(initialized_);
+   if( Dim() == 0 )
+   {
+      return 0.;
+   }
+
    Number sum;
    if( homogeneous_ )
    {
-- 
2.43.0


From 20cdaccaf610319b0009c763cf4de850763c8c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:53 +0000
Subject: [PATCH 28/75] fix: DenseVector::ElementWiseSelect uses the sign, not
 the value, of a homogeneous vector

---
 src/LinAlg/IpDenseVector.cpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/LinAlg/IpDenseVector.cpp b/src/LinAlg/IpDenseVector.cpp
index 5d5e915..9891689 100644
--- a/src/LinAlg/IpDenseVector.cpp
+++ b/src/LinAlg/IpDenseVector.cpp
@@ -415,9 +415,10 @@ void DenseVector::ElementWiseSelectImpl(
       {
          return;
       }
+      const Number sgn = scalar_ > 0.0 ? 1.0 : -1.0;
       if( dense_x->homogeneous_ )
       {
-         scalar_ *= dense_x->scalar_;
+         scalar_ = sgn * dense_x->scalar_;
       }
       else
       {
@@ -425,7 +426,7 @@ void DenseVector::ElementWiseSelectImpl(
          Number* vals = values_allocated();
          for( Index i = 0; i < Dim(); i++ )
          {
-            vals[i] = scalar_ * values_x[i];
+            vals[i] = sgn * values_x[i];
          }
       }
    }
@@ -433,20 +434,17 @@ void DenseVector::ElementWiseSelectImpl(
    {
       if( dense_x->homogeneous_ )
       {
-         if( dense_x->scalar_ != 1.0 )
+         for( Index i = 0; i < Dim(); i++ )
          {
-            for( Index i = 0; i < Dim(); i++ )
+            if( values_[i] > 0.0 )
             {
-               if( values_[i] > 0.0 )
-               {
-                  values_[i] = dense_x->scalar_;
-               }
-               else if( values_[i] < 0.0 )
-               {
-                  values_[i] = -dense_x->scalar_;
-               }
-               // else values_[i] remains at 0.0
+               values_[i] = dense_x->scalar_;
             }
+            else if( values_[i] < 0.0 )
+            {
+               values_[i] = -dense_x->scalar_;
+            }
+            // else values_[i] remains at 0.0
          }
       }
       else
-- 
2.43.0


From b2b51625abfd10c218c558ee27aec6d960d4b5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:53 +0000
Subject: [PATCH 29/75] fix: DenseVector::CopyToPos keeps homogeneous values
 and copies the scalar of the other vector

---
 src/LinAlg/IpDenseVector.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/LinAlg/IpDenseVector.cpp b/src/LinAlg/IpDenseVector.cpp
index 9891689..e10ce80 100644
--- a/src/LinAlg/IpDenseVector.cpp
+++ b/src/LinAlg/IpDenseVector.cpp
@@ -1560,12 +1560,17 @@ void DenseVector::CopyToPos(
    const DenseVector* dense_x = static_cast<const DenseVector*>(&x);
    DBG_ASSERT(dynamic_cast<const DenseVector*>(&x));
 
+   if( initialized_ && homogeneous_ )
+   {
+      // keep the values of the entries that are not overwritten
+      set_values_from_scalar();
+   }
    Number* vals = values_allocated();
    homogeneous_ = false;
 
    if( dense_x->homogeneous_ )
    {
-      IpBlasCopy(dim_x, &scalar_, 0, vals + Pos, 1);
+      IpBlasCopy(dim_x, &dense_x->scalar_, 0, vals + Pos, 1);
    }
    else
    {
-- 
2.43.0


From 32ee5d7093bf0fc410ad69f7dd2d4bd9a0af0c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:04 +0000
Subject: [PATCH 30/75] fix: DenseVector::AddTwoVectors adds the second vector
 once, not once per element, when a=0, b=1, c=1

---
 src/LinAlg/IpDenseVector.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/LinAlg/IpDenseVector.cpp b/src/LinAlg/IpDenseVector.cpp
index e10ce80..84cdc5b 100644
--- a/src/LinAlg/IpDenseVector.cpp
+++ b/src/LinAlg/IpDenseVector.cpp
@@ -923,10 +923,7 @@ void DenseVector::AddTwoVectorsImpl(
          }
          else if( b == 1. )
          {
-            for( Index i = 0; i < Dim(); i++ )
-            {
-               IpBlasCopy(Dim(), values_v2, 1, values_, 1);
-            }
+            IpBlasCopy(Dim(), values_v2, 1, values_, 1);
          }
          else if( b == -1. )
          {
@@ -1041,10 +1038,7 @@ void DenseVector::AddTwoVectorsImpl(
          }
          else if( b == 1. )
          {
-            for( Index i = 0; i < Dim(); i++ )
-            {
-               IpBlasAxpy(Dim(), 1., values_v2, 1, values_, 1);
-            }
+            IpBlasAxpy(Dim(), 1., values_v2, 1, values_, 1);
          }
          else if( b == -1. )
          {
-- 
2.43.0


From 31c00cee3363f286fec9831593150c58b1ed37e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:24 +0000
Subject: [PATCH 31/75] fix: Vector::Scal does not update the cached sum of
 logarithms for a non-positive factor

---
 src/LinAlg/IpVector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/IpVector.cpp b/src/LinAlg/IpVector.cpp
index 6bf334b..b972474 100644
--- a/src/LinAlg/IpVector.cpp
+++ b/src/LinAlg/IpVector.cpp
@@ -198,7 +198,7 @@ void Vector::Scal(
          sum_cache_tag_ = GetTag();
          cached_sum_ *= alpha;
       }
-      if( old_tag == sumlogs_cache_tag_ )
+      if( old_tag == sumlogs_cache_tag_ && alpha > 0. )
       {
          sumlogs_cache_tag_ = GetTag();
          if( Dim() > 0 )
-- 
2.43.0


From f3b5b68ff3f68ade0db6c059168a9570f2d0bcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:06 +0000
Subject: [PATCH 32/75] fix: products of dense matrices with homogeneous
 vectors no longer read a null pointer

---
 src/LinAlg/IpDenseGenMatrix.cpp | 4 ++--
 src/LinAlg/IpDenseSymMatrix.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LinAlg/IpDenseGenMatrix.cpp b/src/LinAlg/IpDenseGenMatrix.cpp
index 481f65b..7988db5 100644
--- a/src/LinAlg/IpDenseGenMatrix.cpp
+++ b/src/LinAlg/IpDenseGenMatrix.cpp
@@ -346,7 +346,7 @@ void DenseGenMatrix::MultVectorImpl(
    DBG_ASSERT(dynamic_cast<DenseVector*>(&y));
 
    bool trans = false;
-   IpBlasGemv(trans, NRows(), NCols(), alpha, values_, NRows(), dense_x->Values(), 1, beta, dense_y->Values(), 1);
+   IpBlasGemv(trans, NRows(), NCols(), alpha, values_, NRows(), dense_x->ExpandedValues(), 1, beta, dense_y->Values(), 1);
 }
 
 void DenseGenMatrix::TransMultVectorImpl(
@@ -368,7 +368,7 @@ void DenseGenMatrix::TransMultVectorImpl(
    DBG_ASSERT(dynamic_cast<DenseVector*>(&y));
 
    bool trans = true;
-   IpBlasGemv(trans, NRows(), NCols(), alpha, values_, NRows(), dense_x->Values(), 1, beta, dense_y->Values(), 1);
+   IpBlasGemv(trans, NRows(), NCols(), alpha, values_, NRows(), dense_x->ExpandedValues(), 1, beta, dense_y->Values(), 1);
 }
 
 void DenseGenMatrix::ComputeRowAMaxImpl(
diff --git a/src/LinAlg/IpDenseSymMatrix.cpp b/src/LinAlg/IpDenseSymMatrix.cpp
index 0761d78..4f59551 100644
--- a/src/LinAlg/IpDenseSymMatrix.cpp
+++ b/src/LinAlg/IpDenseSymMatrix.cpp
@@ -51,7 +51,7 @@ void DenseSymMatrix::MultVectorImpl(
    DenseVector* dense_y = static_cast<DenseVector*>(&y);
    DBG_ASSERT(dynamic_cast<DenseVector*>(&y));
 
-   IpBlasSymv(Dim(), alpha, values_, NRows(), dense_x->Values(), 1, beta, dense_y->Values(), 1);
+   IpBlasSymv(Dim(), alpha, values_, NRows(), dense_x->ExpandedValues(), 1, beta, dense_y->Values(), 1);
 }
 
 void DenseSymMatrix::FillIdentity(
-- 
2.43.0


From 78a1a6e461472167453eed1c565f7586fb77a892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:18 +0000
Subject: [PATCH 33/75] fix: DiagMatrix::SetDiag and IdentityMatrix::SetFactor
 mark the matrix as changed

---
 src/LinAlg/IpDiagMatrix.hpp     | 1 +
 src/LinAlg/IpIdentityMatrix.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/LinAlg/IpDiagMatrix.hpp b/src/LinAlg/IpDiagMatrix.hpp
index f12f84f..e484370 100644
--- a/src/LinAlg/IpDiagMatrix.hpp
+++ b/src/LinAlg/IpDiagMatrix.hpp
@@ -38,6 +38,7 @@ public:
    )
    {
       diag_ = &diag;
+      ObjectChanged();
    }
 
    /** Get the diagonal elements. */
diff --git a/src/LinAlg/IpIdentityMatrix.hpp b/src/LinAlg/IpIdentityMatrix.hpp
index 6f0e429..426aa26 100644
--- a/src/LinAlg/IpIdentityMatrix.hpp
+++ b/src/LinAlg/IpIdentityMatrix.hpp
@@ -36,6 +36,7 @@ public:
    )
    {
       factor_ = factor;
+      ObjectChanged();
    }
 
    /** Method for getting the factor for the identity matrix. */
-- 
2.43.0


From f4f4fd18f7263db7aa99ce4bc17287f6d7b18dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:26 +0000
Subject: [PATCH 34/75] fix: row norms of an IdentityMatrix are those of its
 factor

---
 src/LinAlg/IpIdentityMatrix.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/IpIdentityMatrix.cpp b/src/LinAlg/IpIdentityMatrix.cpp
index 10ff48e..410b524 100644
--- a/src/LinAlg/IpIdentityMatrix.cpp
+++ b/src/LinAlg/IpIdentityMatrix.cpp
@@ -6,6 +6,8 @@
 
 #include "IpIdentityMatrix.hpp"
 
+#include <cmath>
+
 namespace Ipopt
 {
 
@@ -52,12 +54,12 @@ void IdentityMatrix::ComputeRowAMaxImpl(
 {
    if( init )
    {
-      rows_norms.Set(1.);
+      rows_norms.Set(std::abs(factor_));
    }
    else
    {
       SmartPtr<Vector> v = rows_norms.MakeNew();
-      v->Set(1.);
+      v->Set(std::abs(factor_));
       rows_norms.ElementWiseMax(*v);
    }
 }
-- 
2.43.0


From ba7d3db729136c9589ee37d212c2b435bab386ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:29 +0000
Subject: [PATCH 35/75] fix: IdentityMatrix::AddMSinvZ applies the factor of
 the matrix

---
 src/LinAlg/IpIdentityMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/IpIdentityMatrix.cpp b/src/LinAlg/IpIdentityMatrix.cpp
index 410b524..d529b30 100644
--- a/src/LinAlg/IpIdentityMatrix.cpp
+++ b/src/LinAlg/IpIdentityMatrix.cpp
@@ -93,7 +93,7 @@ void IdentityMatrix::AddMSinvZImpl(
    DBG_ASSERT(NCols() == Z.Dim());
    DBG_ASSERT(NCols() == X.Dim());
 
-   X.AddVectorQuotient(alpha, Z, S, 1.);
+   X.AddVectorQuotient(alpha * factor_, Z, S, 1.);
 }
 
 } // namespace Ipopt
-- 
2.43.0


From e6c4027f5f2738b8e536206d1de05d3b55082a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:29 +0000
Subject: [PATCH 36/75] fix: DenseSymMatrix row norms read the entries of the
 lower triangle

---
 src/LinAlg/IpDenseSymMatrix.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/LinAlg/IpDenseSymMatrix.cpp b/src/LinAlg/IpDenseSymMatrix.cpp
index 4f59551..c6820be 100644
--- a/src/LinAlg/IpDenseSymMatrix.cpp
+++ b/src/LinAlg/IpDenseSymMatrix.cpp
@@ -241,15 +241,13 @@ void DenseSymMatrix::ComputeRowAMaxImpl(
    DBG_ASSERT(dynamic_cast<DenseVector*>(&rows_norms));
    Number* vec_vals = dense_vec->Values();
 
-   const Number* vals = values_;
    for( Index irow = 0; irow < NRows(); irow++ )
    {
       for( Index jcol = 0; jcol <= irow; jcol++ )
       {
-         const Number f = std::abs(*vals);
+         const Number f = std::abs(values_[irow + jcol * NRows()]);
          vec_vals[irow] = Max(vec_vals[irow], f);
          vec_vals[jcol] = Max(vec_vals[jcol], f);
-         vals++;
       }
    }
 }
-- 
2.43.0


From 252a29ac31429ec02687dd4f0573fa136c48b108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:24 +0000
Subject: [PATCH 37/75] fix: IpBlasGemv passes the numbers of rows and columns
 in the right order

---
 src/LinAlg/IpBlas.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/IpBlas.cpp b/src/LinAlg/IpBlas.cpp
index 735e5e2..82d0c2b 100644
--- a/src/LinAlg/IpBlas.cpp
+++ b/src/LinAlg/IpBlas.cpp
@@ -322,7 +322,7 @@ void IpBlasGemv(
    Index         incY
 )
 {
-   ipindex M = nCols, N = nRows, LDA = ldA, INCX = incX, INCY = incY;
+   ipindex M = nRows, N = nCols, LDA = ldA, INCX = incX, INCY = incY;
 
    char TRANS;
    if( trans )
-- 
2.43.0


From 4c578b6e25fcb113ac0dbb0e4526f59d1ad4171f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:44 +0000
Subject: [PATCH 38/75] fix: DenseGenMatrix row and column norms follow its
 column-major storage

---
 src/LinAlg/IpDenseGenMatrix.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/LinAlg/IpDenseGenMatrix.cpp b/src/LinAlg/IpDenseGenMatrix.cpp
index 7988db5..3e69c18 100644
--- a/src/LinAlg/IpDenseGenMatrix.cpp
+++ b/src/LinAlg/IpDenseGenMatrix.cpp
@@ -384,9 +384,9 @@ void DenseGenMatrix::ComputeRowAMaxImpl(
    Number* vec_vals = dense_vec->Values();
 
    const Number* vals = values_;
-   for( Index irow = 0; irow < NRows(); irow++ )
+   for( Index jcol = 0; jcol < NCols(); jcol++ )
    {
-      for( Index jcol = 0; jcol < NCols(); jcol++ )
+      for( Index irow = 0; irow < NRows(); irow++ )
       {
          vec_vals[irow] = Max(vec_vals[irow], std::abs(*vals));
          vals++;
@@ -409,9 +409,11 @@ void DenseGenMatrix::ComputeColAMaxImpl(
    const Number* vals = values_;
    for( Index jcol = 0; jcol < NCols(); jcol++ )
    {
-      Index i = IpBlasIamax(NRows(), vals, 1);
-      vec_vals[jcol] = Max(vec_vals[jcol], std::abs(vals[i]));
-      vals += NRows();
+      for( Index irow = 0; irow < NRows(); irow++ )
+      {
+         vec_vals[jcol] = Max(vec_vals[jcol], std::abs(*vals));
+         vals++;
+      }
    }
 }
 
-- 
2.43.0


From 0335c05d5c2a47d939862380eaa21094da940a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:49 +0000
Subject: [PATCH 39/75] fix: ExpandedMultiVectorMatrix::HasValidNumbers is true
 if all vectors are valid, not if all are invalid

---
 src/LinAlg/IpExpandedMultiVectorMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/IpExpandedMultiVectorMatrix.cpp b/src/LinAlg/IpExpandedMultiVectorMatrix.cpp
index 9b45e88..f0e7cf3 100644
--- a/src/LinAlg/IpExpandedMultiVectorMatrix.cpp
+++ b/src/LinAlg/IpExpandedMultiVectorMatrix.cpp
@@ -168,7 +168,7 @@ bool ExpandedMultiVectorMatrix::HasValidNumbersImpl() const
 {
    for( Index i = 0; i < NRows(); i++ )
    {
-      if( IsValid(vecs_[i]) && vecs_[i]->HasValidNumbers() )
+      if( IsValid(vecs_[i]) && !vecs_[i]->HasValidNumbers() )
       {
          return false;
       }
-- 
2.43.0


From 6f6e1d610d92556da4614a375b36b48dee25a83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:21 +0000
Subject: [PATCH 40/75] fix: CompoundMatrix column norms go to the block of the
 column

---
 src/LinAlg/IpCompoundMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/IpCompoundMatrix.cpp b/src/LinAlg/IpCompoundMatrix.cpp
index c994c78..8519ccf 100644
--- a/src/LinAlg/IpCompoundMatrix.cpp
+++ b/src/LinAlg/IpCompoundMatrix.cpp
@@ -702,7 +702,7 @@ void CompoundMatrix::ComputeColAMaxImpl(
             SmartPtr<Vector> vec_i;
             if( comp_vec )
             {
-               vec_i = comp_vec->GetCompNonConst(irow);
+               vec_i = comp_vec->GetCompNonConst(jcol);
             }
             else
             {
-- 
2.43.0


From e6c5edaba3b36915cd88d2e2e1171b8c8d2a273d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:21 +0000
Subject: [PATCH 41/75] fix: DenseSymMatrix::AddMatrix scales this matrix by
 beta also if alpha is zero

---
 src/LinAlg/IpDenseSymMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/IpDenseSymMatrix.cpp b/src/LinAlg/IpDenseSymMatrix.cpp
index c6820be..46007ec 100644
--- a/src/LinAlg/IpDenseSymMatrix.cpp
+++ b/src/LinAlg/IpDenseSymMatrix.cpp
@@ -80,7 +80,7 @@ void DenseSymMatrix::AddMatrix(
    DBG_ASSERT(beta == 0. || initialized_);
    DBG_ASSERT(Dim() == A.Dim());
 
-   if( alpha == 0. )
+   if( alpha == 0. && beta == 1. )
    {
       return;
    }
-- 
2.43.0


From b62cc77d2f0067fd8c138f036df1f816a8751f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:51 +0000
Subject: [PATCH 42/75] fix: a CompoundMatrix with more block columns than
 block rows is not diagonal

---
 src/LinAlg/IpCompoundMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/IpCompoundMatrix.cpp b/src/LinAlg/IpCompoundMatrix.cpp
index 8519ccf..79d7bae 100644
--- a/src/LinAlg/IpCompoundMatrix.cpp
+++ b/src/LinAlg/IpCompoundMatrix.cpp
@@ -859,7 +859,7 @@ void CompoundMatrixSpace::SetCompSpace(
    comp_spaces_[irow][jcol] = &mat_space;
    allocate_block_[irow][jcol] = auto_allocate;
 
-   diagonal_ = true;
+   diagonal_ = (NComps_Rows() == NComps_Cols());
    for( Index i = 0; i < NComps_Rows(); i++ )
    {
       for( Index j = 0; j < NComps_Cols(); j++ )
-- 
2.43.0


From 7de61a69d060cee75d4b7ce264a38cb37eec5a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:35 +0000
Subject: [PATCH 43/75] fix: SymTMatrix row norms keep the values already in
 the vector unless asked to initialize

---
 src/LinAlg/TMatrices/IpSymTMatrix.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/LinAlg/TMatrices/IpSymTMatrix.cpp b/src/LinAlg/TMatrices/IpSymTMatrix.cpp
index e85681f..118f180 100644
--- a/src/LinAlg/TMatrices/IpSymTMatrix.cpp
+++ b/src/LinAlg/TMatrices/IpSymTMatrix.cpp
@@ -182,9 +182,6 @@ void SymTMatrix::ComputeRowAMaxImpl(
    Number* vec_vals = dense_vec->Values();
    DBG_ASSERT(vec_vals != NULL);
 
-   const Number zero = 0.;
-   IpBlasCopy(NRows(), &zero, 0, vec_vals, 1);
-
    vec_vals--; // to deal with 1-based indexing in irn and jcn (I believe)
    for( Index i = 0; i < Nonzeros(); i++ )
    {
-- 
2.43.0


From 43fa4675a2a8cd341077be23e2c7c99dc0accad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:35 +0000
Subject: [PATCH 44/75] fix: the product of a DenseGenMatrix without rows or
 columns sets the result vector

---
 src/LinAlg/IpDenseGenMatrix.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/LinAlg/IpDenseGenMatrix.cpp b/src/LinAlg/IpDenseGenMatrix.cpp
index 3e69c18..d525f81 100644
--- a/src/LinAlg/IpDenseGenMatrix.cpp
+++ b/src/LinAlg/IpDenseGenMatrix.cpp
@@ -345,6 +345,20 @@ void DenseGenMatrix::MultVectorImpl(
    DenseVector* dense_y = static_cast<DenseVector*>(&y);
    DBG_ASSERT(dynamic_cast<DenseVector*>(&y));
 
+   if( NRows() == 0 || NCols() == 0 )
+   {
+      // BLAS does not touch y in this case
+      if( beta == 0. )
+      {
+         y.Set(0.);
+      }
+      else
+      {
+         y.Scal(beta);
+      }
+      return;
+   }
+
    bool trans = false;
    IpBlasGemv(trans, NRows(), NCols(), alpha, values_, NRows(), dense_x->ExpandedValues(), 1, beta, dense_y->Values(), 1);
 }
@@ -367,6 +381,20 @@ void DenseGenMatrix::TransMultVectorImpl(
    DenseVector* dense_y = static_cast<DenseVector*>(&y);
    DBG_ASSERT(dynamic_cast<DenseVector*>(&y));
 
+   if( NRows() == 0 || NCols() == 0 )
+   {
+      // BLAS does not touch y in this case
+      if( beta == 0. )
+      {
+         y.Set(0.);
+      }
+      else
+      {
+         y.Scal(beta);
+      }
+      return;
+   }
+
    bool trans = true;
    IpBlasGemv(trans, NRows(), NCols(), alpha, values_, NRows(), dense_x->ExpandedValues(), 1, beta, dense_y->Values(), 1);
 }
-- 
2.43.0


From fa6738ba12539e6e560901085cb8a371641f372d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:57 +0000
Subject: [PATCH 45/75] fix: CompoundSymMatrix row norms take the column norms
 of the transposed blocks

---
 src/LinAlg/IpCompoundSymMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/IpCompoundSymMatrix.cpp b/src/LinAlg/IpCompoundSymMatrix.cpp
index 0c190a4..f653f1b 100644
--- a/src/LinAlg/IpCompoundSymMatrix.cpp
+++ b/src/LinAlg/IpCompoundSymMatrix.cpp
@@ -231,7 +231,7 @@ void CompoundSymMatrix::ComputeRowAMaxImpl(
          }
          else if( jcol > irow && ConstComp(jcol, irow) )
          {
-            ConstComp(jcol, irow)->ComputeRowAMax(*vec_i, false);
+            ConstComp(jcol, irow)->ComputeColAMax(*vec_i, false);
          }
       }
    }
-- 
2.43.0


From 16db48b1a7b39d68c0907a7e014c6885c07a8217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:57 +0000
Subject: [PATCH 46/75] fix: the product of an empty DenseSymMatrix does not
 call BLAS with illegal arguments

---
 src/LinAlg/IpDenseSymMatrix.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/LinAlg/IpDenseSymMatrix.cpp b/src/LinAlg/IpDenseSymMatrix.cpp
index 46007ec..67c9a53 100644
--- a/src/LinAlg/IpDenseSymMatrix.cpp
+++ b/src/LinAlg/IpDenseSymMatrix.cpp
@@ -51,6 +51,11 @@ void DenseSymMatrix::MultVectorImpl(
    DenseVector* dense_y = static_cast<DenseVector*>(&y);
    DBG_ASSERT(dynamic_cast<DenseVector*>(&y));
 
+   if( Dim() == 0 )
+   {
+      return;
+   }
+
    IpBlasSymv(Dim(), alpha, values_, NRows(), dense_x->ExpandedValues(), 1, beta, dense_y->Values(), 1);
 }
 
-- 
2.43.0


From 1d3a0bdb270defb8bdff58b85813acaa06fb7d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:32 +0000
Subject: [PATCH 47/75] fix: initialize the tag of the cached validity of a
 Vector

---
 src/LinAlg/IpVector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LinAlg/IpVector.hpp b/src/LinAlg/IpVector.hpp
index 67aab42..0c74120 100644
--- a/src/LinAlg/IpVector.hpp
+++ b/src/LinAlg/IpVector.hpp
@@ -542,6 +542,7 @@ inline Vector::Vector(
      min_cache_tag_(0),
      sum_cache_tag_(0),
      sumlogs_cache_tag_(0),
+     valid_cache_tag_(0),
      cached_valid_(0)
 {
    DBG_ASSERT(IsValid(owner_space_));
-- 
2.43.0


From 25e928e2784f21e3efdf424f310913bc65b5d9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:32 +0000
Subject: [PATCH 48/75] fix: do not leak work arrays when a user callback
 throws an exception or refuses

---
 src/Common/IpUtils.hpp           |  55 +++++
 src/Interfaces/IpTNLPAdapter.cpp | 334 ++++++++-----------------------
 src/Interfaces/IpTNLPReducer.cpp |  52 ++---
 3 files changed, 160 insertions(+), 281 deletions(-)

diff --git a/src/Common/IpUtils.hpp b/src/Common/IpUtils.hpp
index 3043c8a..416770d 100644
--- a/src/Common/IpUtils.hpp
+++ b/src/Common/IpUtils.hpp
@@ -19,6 +19,61 @@
 namespace Ipopt
 {
 
+/** Array that is freed when it goes out of scope, also if a user callback throws an exception. */
+template<typename T>
+class ScopedArray
+{
+public:
+   ScopedArray()
+      : data_(NULL)
+   { }
+
+   explicit ScopedArray(
+      Index size
+   )
+      : data_(new T[size])
+   { }
+
+   ~ScopedArray()
+   {
+      delete[] data_;
+   }
+
+   /** Allocate the array. */
+   void alloc(
+      Index size
+   )
+   {
+      delete[] data_;
+      data_ = NULL;
+      data_ = new T[size];
+   }
+
+   /** Pass ownership to the caller. */
+   T* release()
+   {
+      T* data = data_;
+      data_ = NULL;
+      return data;
+   }
+
+   operator T* () const
+   {
+      return data_;
+   }
+
+private:
+   ScopedArray(
+      const ScopedArray&
+   );
+
+   void operator=(
+      const ScopedArray&
+   );
+
+   T* data_;
+};
+
 template<typename T>
 inline T Max(
    T a,
diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index e658d66..5312e53 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -430,10 +430,10 @@ bool TNLPAdapter::GetSpaces(
 
       /* Spaces for bounds. We need to remove the fixed variables
        * and find out which bounds do not exist. */
-      Number* x_l = new Number[n_full_x_];
-      Number* x_u = new Number[n_full_x_];
-      Number* g_l = new Number[n_full_g_];
-      Number* g_u = new Number[n_full_g_];
+      ScopedArray<Number> x_l(n_full_x_);
+      ScopedArray<Number> x_u(n_full_x_);
+      ScopedArray<Number> g_l(n_full_g_);
+      ScopedArray<Number> g_u(n_full_g_);
       retval = tnlp_->get_bounds_info(n_full_x_, x_l, x_u, n_full_g_, g_l, g_u);
       ASSERT_EXCEPTION(retval, INVALID_TNLP, "get_bounds_info returned false in GetSpaces");
 
@@ -444,18 +444,18 @@ bool TNLPAdapter::GetSpaces(
       Index n_x_var;
       Index n_x_l;
       Index n_x_u;
-      Index* x_not_fixed_map = new Index[n_full_x_];
-      Index* x_l_map = new Index[n_full_x_];
-      Index* x_u_map = new Index[n_full_x_];
+      ScopedArray<Index> x_not_fixed_map(n_full_x_);
+      ScopedArray<Index> x_l_map(n_full_x_);
+      ScopedArray<Index> x_u_map(n_full_x_);
 
       Index n_c;
       Index n_d;
       Index n_d_l;
       Index n_d_u;
-      Index* c_map = new Index[n_full_g_]; // we do not know n_c yet!
-      Index* d_map = new Index[n_full_g_]; // we do not know n_d yet!
-      Index* d_l_map = new Index[n_full_g_]; // "
-      Index* d_u_map = new Index[n_full_g_]; // "
+      ScopedArray<Index> c_map(n_full_g_); // we do not know n_c yet!
+      ScopedArray<Index> d_map(n_full_g_); // we do not know n_d yet!
+      ScopedArray<Index> d_l_map(n_full_g_); // "
+      ScopedArray<Index> d_u_map(n_full_g_); // "
 
       bool done = false;
       // We might have to do the following twice: If we detect that we
@@ -467,7 +467,7 @@ bool TNLPAdapter::GetSpaces(
          n_x_l = 0;
          n_x_u = 0;
          n_x_fixed_ = 0;
-         Index* x_fixed_map_tmp = new Index[n_full_x_];
+         ScopedArray<Index> x_fixed_map_tmp(n_full_x_);
 
          for( Index i = 0; i < n_full_x_; i++ )
          {
@@ -508,18 +508,6 @@ bool TNLPAdapter::GetSpaces(
                Snprintf(string, 127,
                         "There are inconsistent bounds on variable %" IPOPT_INDEX_FORMAT ": lower = %25.16e and upper = %25.16e.", i, lower_bound,
                         upper_bound);
-               delete[] x_l;
-               delete[] x_u;
-               delete[] g_l;
-               delete[] g_u;
-               delete[] x_not_fixed_map;
-               delete[] x_fixed_map_tmp;
-               delete[] x_l_map;
-               delete[] x_u_map;
-               delete[] c_map;
-               delete[] d_map;
-               delete[] d_l_map;
-               delete[] d_u_map;
                THROW_EXCEPTION(INCONSISTENT_BOUNDS, string);
             }
             else
@@ -558,7 +546,6 @@ bool TNLPAdapter::GetSpaces(
             delete[] x_fixed_map_;
             x_fixed_map_ = NULL;
          }
-         delete[] x_fixed_map_tmp;
 
          // Create the spaces for c and d
          // - includes the internal permutation matrices for
@@ -585,17 +572,6 @@ bool TNLPAdapter::GetSpaces(
             }
             else if( lower_bound > upper_bound )
             {
-               delete[] x_l;
-               delete[] x_u;
-               delete[] g_l;
-               delete[] g_u;
-               delete[] x_not_fixed_map;
-               delete[] x_l_map;
-               delete[] x_u_map;
-               delete[] c_map;
-               delete[] d_map;
-               delete[] d_l_map;
-               delete[] d_u_map;
                char string[128];
                Snprintf(string, 127,
                         "There are inconsistent bounds on constraint function %" IPOPT_INDEX_FORMAT ": lower = %25.16e and upper = %25.16e.", i,
@@ -698,10 +674,6 @@ bool TNLPAdapter::GetSpaces(
             IpBlasCopy(n_full_g_, &zero, 0, full_lambda_, 1);
          }
       }
-      delete[] x_l;
-      x_l = NULL;
-      delete[] x_u;
-      x_u = NULL;
 
       // create x spaces
       SmartPtr<DenseVectorSpace> dv_x_space = new DenseVectorSpace(n_x_var);
@@ -901,12 +873,6 @@ bool TNLPAdapter::GetSpaces(
          }
       }
 
-      delete[] x_not_fixed_map;
-      x_not_fixed_map = NULL;
-      delete[] x_l_map;
-      x_l_map = NULL;
-      delete[] x_u_map;
-      x_u_map = NULL;
 
       // create the required c_space
 
@@ -925,8 +891,6 @@ bool TNLPAdapter::GetSpaces(
       // create the internal expansion matrix for c to g
       P_c_g_space_ = new ExpansionMatrixSpace(n_full_g_, n_c, c_map);
       P_c_g_ = P_c_g_space_->MakeNewExpansionMatrix();
-      delete[] c_map;
-      c_map = NULL;
 
       // create the required d_space
       SmartPtr<DenseVectorSpace> dv_d_space = new DenseVectorSpace(n_d);
@@ -934,8 +898,6 @@ bool TNLPAdapter::GetSpaces(
       // create the internal expansion matrix for d to g
       P_d_g_space_ = new ExpansionMatrixSpace(n_full_g_, n_d, d_map);
       P_d_g_ = P_d_g_space_->MakeNewExpansionMatrix();
-      delete[] d_map;
-      d_map = NULL;
 
       // create the required d_l space
       SmartPtr<DenseVectorSpace> dv_d_l_space = new DenseVectorSpace(n_d_l);
@@ -943,8 +905,6 @@ bool TNLPAdapter::GetSpaces(
       // create the required expansion matrix for d_L to d_L_exp
       SmartPtr<ExpansionMatrixSpace> P_d_l_space = new ExpansionMatrixSpace(n_d, n_d_l, d_l_map);
       pd_l_space_ = GetRawPtr(P_d_l_space);
-      delete[] d_l_map;
-      d_l_map = NULL;
 
       // create the required d_u space
       SmartPtr<DenseVectorSpace> dv_d_u_space = new DenseVectorSpace(n_d_u);
@@ -952,13 +912,7 @@ bool TNLPAdapter::GetSpaces(
       // create the required expansion matrix for d_U to d_U_exp
       SmartPtr<ExpansionMatrixSpace> P_d_u_space = new ExpansionMatrixSpace(n_d, n_d_u, d_u_map);
       pd_u_space_ = GetRawPtr(P_d_u_space);
-      delete[] d_u_map;
-      d_u_map = NULL;
 
-      delete[] g_l;
-      g_l = NULL;
-      delete[] g_u;
-      g_u = NULL;
 
       // set the constraint meta data if present
       if( con_string_md.size() > 0 )
@@ -1087,15 +1041,13 @@ bool TNLPAdapter::GetSpaces(
       /** Create the matrix space for the jacobians
        */
       // Get the non zero structure
-      Index* g_iRow = new Index[nz_full_jac_g_];
-      Index* g_jCol = new Index[nz_full_jac_g_];
+      ScopedArray<Index> g_iRow(nz_full_jac_g_);
+      ScopedArray<Index> g_jCol(nz_full_jac_g_);
 
       bool retval = tnlp_->eval_jac_g(n_full_x_, NULL, false, n_full_g_, nz_full_jac_g_, g_iRow, g_jCol, NULL);
 
       if( !retval )
       {
-         delete[] g_iRow;
-         delete[] g_jCol;
 
          THROW_EXCEPTION(INVALID_TNLP, "eval_jac_g returned false in GetSpaces");
       }
@@ -1143,8 +1095,8 @@ bool TNLPAdapter::GetSpaces(
          nz_jac_all = nz_full_jac_g_ + n_x_fixed_;
       }
       jac_idx_map_ = new Index[nz_jac_all];
-      Index* jac_c_iRow = new Index[nz_jac_all];
-      Index* jac_c_jCol = new Index[nz_jac_all];
+      ScopedArray<Index> jac_c_iRow(nz_jac_all);
+      ScopedArray<Index> jac_c_jCol(nz_jac_all);
       Index current_nz = 0;
 
       const Index* c_row_pos = P_c_g_->CompressedPosIndices();
@@ -1208,16 +1160,12 @@ bool TNLPAdapter::GetSpaces(
       }
 
       Jac_c_space_ = new GenTMatrixSpace(n_c + n_added_constr, n_x_var, nz_jac_c_, jac_c_iRow, jac_c_jCol);
-      delete[] jac_c_iRow;
-      jac_c_iRow = NULL;
-      delete[] jac_c_jCol;
-      jac_c_jCol = NULL;
 
       // ... build the nonzero structure for jac_d
       // ... (the permutation from rows in jac_g to jac_c is the
       // ...  the same as P_d_g_)
-      Index* jac_d_iRow = new Index[nz_full_jac_g_];
-      Index* jac_d_jCol = new Index[nz_full_jac_g_];
+      ScopedArray<Index> jac_d_iRow(nz_full_jac_g_);
+      ScopedArray<Index> jac_d_jCol(nz_full_jac_g_);
       current_nz = 0;
       const Index* d_row_pos = P_d_g_->CompressedPosIndices();
       if( IsValid(P_x_full_x_) )
@@ -1253,31 +1201,19 @@ bool TNLPAdapter::GetSpaces(
       }
       nz_jac_d_ = current_nz;
       Jac_d_space_ = new GenTMatrixSpace(n_d, n_x_var, nz_jac_d_, jac_d_iRow, jac_d_jCol);
-      delete[] jac_d_iRow;
-      jac_d_iRow = NULL;
-      delete[] jac_d_jCol;
-      jac_d_jCol = NULL;
 
-      delete[] g_iRow;
-      g_iRow = NULL;
-      delete[] g_jCol;
-      g_jCol = NULL;
 
       if( hessian_approximation_ == EXACT )
       {
          /** Create the matrix space for the hessian of the lagrangian */
-         Index* full_h_iRow = new Index[nz_full_h_];
-         Index* full_h_jCol = new Index[nz_full_h_];
-         Index* h_iRow = new Index[nz_full_h_];
-         Index* h_jCol = new Index[nz_full_h_];
+         ScopedArray<Index> full_h_iRow(nz_full_h_);
+         ScopedArray<Index> full_h_jCol(nz_full_h_);
+         ScopedArray<Index> h_iRow(nz_full_h_);
+         ScopedArray<Index> h_jCol(nz_full_h_);
          retval = tnlp_->eval_h(n_full_x_, NULL, false, 0, n_full_g_,
                                 NULL, false, nz_full_h_, full_h_iRow, full_h_jCol, NULL);
          if( !retval )
          {
-            delete[] full_h_iRow;
-            delete[] full_h_jCol;
-            delete[] h_iRow;
-            delete[] h_jCol;
             jnlst_->Printf(J_ERROR, J_INITIALIZATION,
                            "Option \"hessian_approximation\" is not chosen as \"limited-memory\", but eval_h returns false.\n");
             THROW_EXCEPTION(OPTION_INVALID, "eval_h is called but has not been implemented");
@@ -1341,14 +1277,6 @@ bool TNLPAdapter::GetSpaces(
          }
          nz_h_ = current_nz;
          Hess_lagrangian_space_ = new SymTMatrixSpace(n_x_var, nz_h_, h_iRow, h_jCol);
-         delete[] full_h_iRow;
-         full_h_iRow = NULL;
-         delete[] full_h_jCol;
-         full_h_jCol = NULL;
-         delete[] h_iRow;
-         h_iRow = NULL;
-         delete[] h_jCol;
-         h_jCol = NULL;
       }
       else
       {
@@ -1401,10 +1329,10 @@ bool TNLPAdapter::GetBoundsInformation(
    // once to setup the structure for the problem, I could store the values
    // and use them here ?
    // Actually, this is better for a warm start
-   Number* x_l = new Number[n_full_x_];
-   Number* x_u = new Number[n_full_x_];
-   Number* g_l = new Number[n_full_g_];
-   Number* g_u = new Number[n_full_g_];
+   ScopedArray<Number> x_l(n_full_x_);
+   ScopedArray<Number> x_u(n_full_x_);
+   ScopedArray<Number> g_l(n_full_g_);
+   ScopedArray<Number> g_u(n_full_g_);
    bool retval = tnlp_->get_bounds_info(n_full_x_, x_l, x_u, n_full_g_, g_l, g_u);
    ASSERT_EXCEPTION(retval, INVALID_TNLP, "get_bounds_info returned false in GetBoundsInformation");
 
@@ -1534,20 +1462,10 @@ bool TNLPAdapter::GetBoundsInformation(
    {
       delete[] findiff_x_l_;
       delete[] findiff_x_u_;
-      findiff_x_l_ = x_l;
-      findiff_x_u_ = x_u;
-      x_l = NULL;
-      x_u = NULL;
+      findiff_x_l_ = x_l.release();
+      findiff_x_u_ = x_u.release();
    }
 
-   delete[] x_l;
-   x_l = NULL;
-   delete[] x_u;
-   x_u = NULL;
-   delete[] g_l;
-   g_l = NULL;
-   delete[] g_u;
-   g_u = NULL;
 
    return true;
 }
@@ -1565,10 +1483,10 @@ bool TNLPAdapter::GetStartingPoint(
    bool             need_z_U
 )
 {
-   Number* full_x = new Number[n_full_x_];
-   Number* full_z_l = new Number[n_full_x_];
-   Number* full_z_u = new Number[n_full_x_];
-   Number* full_lambda = new Number[n_full_g_];
+   ScopedArray<Number> full_x(n_full_x_);
+   ScopedArray<Number> full_z_l(n_full_x_);
+   ScopedArray<Number> full_z_u(n_full_x_);
+   ScopedArray<Number> full_lambda(n_full_g_);
    bool init_x = need_x;
    bool init_z = need_z_L || need_z_U || (fixed_variable_treatment_ == MAKE_CONSTRAINT && n_x_fixed_ > 0 && need_y_c);
    bool init_lambda = need_y_c || need_y_d;
@@ -1578,10 +1496,6 @@ bool TNLPAdapter::GetStartingPoint(
 
    if( !retvalue )
    {
-      delete[] full_x;
-      delete[] full_z_l;
-      delete[] full_z_u;
-      delete[] full_lambda;
       return false;
    }
 
@@ -1689,14 +1603,6 @@ bool TNLPAdapter::GetStartingPoint(
       }
    }
 
-   delete[] full_x;
-   full_x = NULL;
-   delete[] full_z_l;
-   full_z_l = NULL;
-   delete[] full_z_u;
-   full_z_u = NULL;
-   delete[] full_lambda;
-   full_lambda = NULL;
 
    return true;
 }
@@ -1741,7 +1647,7 @@ bool TNLPAdapter::Eval_grad_f(
    {
       if( IsValid(P_x_full_x_) )
       {
-         Number* full_grad_f = new Number[n_full_x_];
+         ScopedArray<Number> full_grad_f(n_full_x_);
          if( tnlp_->eval_grad_f(n_full_x_, full_x_, new_x, full_grad_f) )
          {
             const Index* x_pos = P_x_full_x_->ExpandedPosIndices();
@@ -1751,7 +1657,6 @@ bool TNLPAdapter::Eval_grad_f(
             }
             retvalue = true;
          }
-         delete[] full_grad_f;
       }
       else
       {
@@ -1765,7 +1670,7 @@ bool TNLPAdapter::Eval_grad_f(
       retvalue = tnlp_->eval_f(n_full_x_, full_x_, new_x, f);
       if( retvalue )
       {
-         Number* full_x_pert = new Number[n_full_x_];
+         ScopedArray<Number> full_x_pert(n_full_x_);
          IpBlasCopy(n_full_x_, full_x_, 1, full_x_pert, 1);
          const Index* x_pos = NULL;
          if( IsValid(P_x_full_x_) )
@@ -1806,7 +1711,6 @@ bool TNLPAdapter::Eval_grad_f(
             }
          }
 
-         delete[] full_x_pert;
 
          // the user has seen other points by now, so the next call has to pass new_x=true
          x_tag_for_iterates_ = 0;
@@ -1980,7 +1884,7 @@ bool TNLPAdapter::Eval_h(
 
    if( h_idx_map_ )
    {
-      Number* full_h = new Number[nz_full_h_];
+      ScopedArray<Number> full_h(nz_full_h_);
 
       if( tnlp_->eval_h(n_full_x_, full_x_, new_x, obj_factor, n_full_g_, full_lambda_, new_y, nz_full_h_, NULL, NULL,
                         full_h) )
@@ -1991,7 +1895,6 @@ bool TNLPAdapter::Eval_h(
          }
          retval = true;
       }
-      delete[] full_h;
    }
    else
    {
@@ -2027,18 +1930,17 @@ void TNLPAdapter::GetScalingParameters(
    Number* dc_values = dc->Values();
    Number* dd_values = dd->Values();
 
-   Number* full_g_scaling = new Number[n_full_g_];
+   ScopedArray<Number> full_g_scaling(n_full_g_);
    bool use_x_scaling = true;
    bool use_g_scaling = true;
 
    if( IsValid(P_x_full_x_) )
    {
-      Number* full_x_scaling = new Number[n_full_x_];
+      ScopedArray<Number> full_x_scaling(n_full_x_);
       bool retval = tnlp_->get_scaling_parameters(obj_scaling, use_x_scaling, n_full_x_, full_x_scaling, use_g_scaling,
                     n_full_g_, full_g_scaling);
       if( !retval )
       {
-         delete[] full_x_scaling;
          jnlst_->Printf(J_ERROR, J_INITIALIZATION,
                         "Option nlp_scaling_method selected as user-scaling, but no user-scaling available, or it cannot be computed.\n");
          THROW_EXCEPTION(OPTION_INVALID, "User scaling chosen, but get_scaling_parameters returned false.");
@@ -2052,7 +1954,6 @@ void TNLPAdapter::GetScalingParameters(
             dx_values[i] = full_x_scaling[x_pos[i]];
          }
       }
-      delete[] full_x_scaling;
    }
    else
    {
@@ -2096,7 +1997,6 @@ void TNLPAdapter::GetScalingParameters(
       d_scaling = NULL;
    }
 
-   delete[] full_g_scaling;
 }
 
 void TNLPAdapter::FinalizeSolution(
@@ -2177,7 +2077,7 @@ void TNLPAdapter::FinalizeSolution(
       }
    }
 
-   Number* full_g = new Number[n_full_g_];
+   ScopedArray<Number> full_g(n_full_g_);
    // TODO:
    if( c.Dim() + d.Dim() < n_full_g_ )
    {
@@ -2186,8 +2086,8 @@ void TNLPAdapter::FinalizeSolution(
    }
    ResortG(c, d, full_g, true);
 
-   Number* full_z_L = new Number[n_full_x_];
-   Number* full_z_U = new Number[n_full_x_];
+   ScopedArray<Number> full_z_L(n_full_x_);
+   ScopedArray<Number> full_z_U(n_full_x_);
    switch( status )
    {
       case SUCCESS:
@@ -2253,21 +2153,15 @@ void TNLPAdapter::FinalizeSolution(
    tnlp_->finalize_solution(status, n_full_x_, full_x_, full_z_L, full_z_U, n_full_g_, full_g, full_lambda_, obj_value,
                             ip_data, ip_cq);
 
-   delete[] full_z_L;
-   full_z_L = NULL;
-   delete[] full_z_U;
-   full_z_U = NULL;
-   delete[] full_g;
-   full_g = NULL;
 
    if( c.Dim() + d.Dim() < n_full_g_ )
    {
       // Temporary: Check if we really have a feasible point:
       Number max_viol = 0.;
-      Number* x_l = new Number[n_full_x_];
-      Number* x_u = new Number[n_full_x_];
-      Number* g_l = new Number[n_full_g_];
-      Number* g_u = new Number[n_full_g_];
+      ScopedArray<Number> x_l(n_full_x_);
+      ScopedArray<Number> x_u(n_full_x_);
+      ScopedArray<Number> g_l(n_full_g_);
+      ScopedArray<Number> g_u(n_full_g_);
       bool retval = tnlp_->get_bounds_info(n_full_x_, x_l, x_u, n_full_g_, g_l, g_u);
       ASSERT_EXCEPTION(retval, INVALID_TNLP, "get_bounds_info returned false in FinalizeSolution");
       for( Index i = 0; i < n_full_g_; i++ )
@@ -2275,10 +2169,6 @@ void TNLPAdapter::FinalizeSolution(
          max_viol = Max(max_viol, full_g_[i] - g_u[i], g_l[i] - full_g_[i]);
       }
       jnlst_->Printf(J_ITERSUMMARY, J_INITIALIZATION, "Constraint violation for ALL constraints is %e.\n", max_viol);
-      delete[] x_l;
-      delete[] x_u;
-      delete[] g_l;
-      delete[] g_u;
    }
 }
 
@@ -2316,11 +2206,11 @@ void TNLPAdapter::GetQuasiNewtonApproximationSpaces(
       return;
    }
 
-   Index* pos_nonlin_vars = NULL;
+   ScopedArray<Index> pos_nonlin_vars;
    if( num_nonlin_vars < 0 )
    {
       num_nonlin_vars = n_full_x_ - num_linear_variables_;
-      pos_nonlin_vars = new Index[num_nonlin_vars];
+      pos_nonlin_vars.alloc(num_nonlin_vars);
       Index ii = 0;
       for( Index i = num_linear_variables_; i < n_full_x_; i++ )
       {
@@ -2329,11 +2219,10 @@ void TNLPAdapter::GetQuasiNewtonApproximationSpaces(
    }
    else if( num_nonlin_vars > 0 )
    {
-      pos_nonlin_vars = new Index[num_nonlin_vars];
+      pos_nonlin_vars.alloc(num_nonlin_vars);
       bool retval = tnlp_->get_list_of_nonlinear_variables(num_nonlin_vars, pos_nonlin_vars);
       if( !retval )
       {
-         delete[] pos_nonlin_vars;
          jnlst_->Printf(J_ERROR, J_INITIALIZATION,
                         "TNLP's get_number_of_nonlinear_variables returns non-negative number, but get_list_of_nonlinear_variables returns false.\n");
          THROW_EXCEPTION(INVALID_TNLP, "get_list_of_nonlinear_variables has not been overwritten");
@@ -2378,7 +2267,7 @@ void TNLPAdapter::GetQuasiNewtonApproximationSpaces(
    else
    {
       const Index* compr_pos = P_x_full_x_->CompressedPosIndices();
-      Index* nonfixed_pos_nonlin_vars = new Index[num_nonlin_vars];
+      ScopedArray<Index> nonfixed_pos_nonlin_vars(num_nonlin_vars);
 
       Index nonfixed_nonlin_vars = 0;
       for( Index i = 0; i < num_nonlin_vars; i++ )
@@ -2406,9 +2295,7 @@ void TNLPAdapter::GetQuasiNewtonApproximationSpaces(
          approx_space = new DenseVectorSpace(nonfixed_nonlin_vars);
       }
 
-      delete[] nonfixed_pos_nonlin_vars;
    }
-   delete[] pos_nonlin_vars;
 }
 
 void TNLPAdapter::ResortX(
@@ -2723,13 +2610,12 @@ bool TNLPAdapter::ResortBoundMultipliers(
    {
       // Lagrangian should be grad_f + lambda jac - z_L + z_U  == 0
       // so fixed variables get z_L - z_U = grad_f + lambda_jac
-      Number* mult = new Number[n_full_x_];
+      ScopedArray<Number> mult(n_full_x_);
       memset(mult, 0, sizeof(Number) * n_full_x_);
 
       bool new_x = update_local_x(x);
       if( !tnlp_->eval_grad_f(n_full_x_, full_x_, new_x, mult) )
       {
-         delete[] mult;
          return false;
       }
 
@@ -2737,7 +2623,6 @@ bool TNLPAdapter::ResortBoundMultipliers(
       {
          if( !internal_eval_jac_g(false) )
          {
-            delete[] mult;
             return false;
          }
          DBG_ASSERT(dynamic_cast<const DenseVector*>(&y_c));
@@ -2803,7 +2688,6 @@ bool TNLPAdapter::ResortBoundMultipliers(
          }
       }
 
-      delete[] mult;
    }
 
    return true;
@@ -2898,8 +2782,8 @@ bool TNLPAdapter::internal_eval_jac_g(
       retval = internal_eval_g(new_x);
       if( retval )
       {
-         Number* full_g_pert = new Number[n_full_g_];
-         Number* full_x_pert = new Number[n_full_x_];
+         ScopedArray<Number> full_g_pert(n_full_g_);
+         ScopedArray<Number> full_x_pert(n_full_x_);
          IpBlasCopy(n_full_x_, full_x_, 1, full_x_pert, 1);
          // Compute the finite difference Jacobian
          for( Index ivar = 0; ivar < n_full_x_; ivar++ )
@@ -2937,8 +2821,6 @@ bool TNLPAdapter::internal_eval_jac_g(
                }
             }
          }
-         delete[] full_g_pert;
-         delete[] full_x_pert;
 
          // the user has seen other points by now, so the next call has to pass new_x=true
          x_tag_for_iterates_ = 0;
@@ -2963,8 +2845,8 @@ void TNLPAdapter::initialize_findiff_jac(
    // construct structure of a sparse matrix with only Jacobian in it
    // TODO: This could be done more efficiently without detour via
    // symmetric matrix
-   Index* airn = new Index[nz_full_jac_g_];
-   Index* ajcn = new Index[nz_full_jac_g_];
+   ScopedArray<Index> airn(nz_full_jac_g_);
+   ScopedArray<Index> ajcn(nz_full_jac_g_);
    for( Index i = 0; i < nz_full_jac_g_; i++ )
    {
       airn[i] = jCol[i];
@@ -2972,8 +2854,6 @@ void TNLPAdapter::initialize_findiff_jac(
    }
    // Get the column ordered sparse representation
    findiff_jac_nnz_ = findiff_jac_converter->InitializeConverter(n_full_g_ + n_full_x_, nz_full_jac_g_, airn, ajcn);
-   delete[] airn;
-   delete[] ajcn;
    if( findiff_jac_nnz_ != nz_full_jac_g_ )
    {
       THROW_EXCEPTION(INVALID_TNLP,
@@ -3050,15 +2930,15 @@ bool TNLPAdapter::CheckDerivatives(
 
    // Obtain starting point as reference point at which derivative
    // test should be performed
-   Number* xref = new Number[nx];
+   ScopedArray<Number> xref(nx);
    tnlp_->get_starting_point(nx, true, xref, false, NULL, NULL, ng, false, NULL);
 
    // Perform a random perturbation.  We need the bounds to make sure
    // they are not violated
-   Number* x_l = new Number[nx];
-   Number* x_u = new Number[nx];
-   Number* g_l = new Number[ng];
-   Number* g_u = new Number[ng];
+   ScopedArray<Number> x_l(nx);
+   ScopedArray<Number> x_u(nx);
+   ScopedArray<Number> g_l(ng);
+   ScopedArray<Number> g_u(ng);
    retval = tnlp_->get_bounds_info(nx, x_l, x_u, ng, g_l, g_u);
    ASSERT_EXCEPTION(retval, INVALID_TNLP, "get_bounds_info returned false in derivative checker");
    IpResetRandom01();
@@ -3070,18 +2950,14 @@ bool TNLPAdapter::CheckDerivatives(
       const Number random_number = IpRandom01();
       xref[i] = lower + random_number * interval;
    }
-   delete[] x_l;
-   delete[] x_u;
-   delete[] g_l;
-   delete[] g_u;
 
    // Obtain value of objective and constraints at reference point
    bool new_x = true;
    Number fref;
-   Number* gref = NULL;
+   ScopedArray<Number> gref;
    if( ng > 0 )
    {
-      gref = new Number[ng];
+      gref.alloc(ng);
    }
    retval = tnlp_->eval_f(nx, xref, new_x, fref);
    ASSERT_EXCEPTION(retval, ERROR_IN_TNLP_DERIVATIVE_TEST,
@@ -3095,19 +2971,19 @@ bool TNLPAdapter::CheckDerivatives(
    }
 
    // Obtain gradient of objective function at reference point
-   Number* grad_f = new Number[nx];
+   ScopedArray<Number> grad_f(nx);
    retval = tnlp_->eval_grad_f(nx, xref, true, grad_f);
    ASSERT_EXCEPTION(retval, ERROR_IN_TNLP_DERIVATIVE_TEST,
                     "In TNLP derivative test: grad_f could not be evaluated at reference point.");
 
-   Index* g_iRow = NULL;
-   Index* g_jCol = NULL;
-   Number* jac_g = NULL;
+   ScopedArray<Index> g_iRow;
+   ScopedArray<Index> g_jCol;
+   ScopedArray<Number> jac_g;
    if( ng > 0 )
    {
       // Obtain constraint Jacobian at reference point (including structure)
-      g_iRow = new Index[nz_jac_g];
-      g_jCol = new Index[nz_jac_g];
+      g_iRow.alloc(nz_jac_g);
+      g_jCol.alloc(nz_jac_g);
       retval = tnlp_->eval_jac_g(nx, NULL, false, ng, nz_jac_g, g_iRow, g_jCol, NULL);
       ASSERT_EXCEPTION(retval, ERROR_IN_TNLP_DERIVATIVE_TEST,
                        "In TNLP derivative test: Jacobian structure could not be evaluated.");
@@ -3137,21 +3013,21 @@ bool TNLPAdapter::CheckDerivatives(
       }
 #endif
       // Obtain values at reference point
-      jac_g = new Number[nz_jac_g];
+      jac_g.alloc(nz_jac_g);
       retval = tnlp_->eval_jac_g(nx, xref, new_x, ng, nz_jac_g, NULL, NULL, jac_g);
       ASSERT_EXCEPTION(retval, ERROR_IN_TNLP_DERIVATIVE_TEST,
                        "In TNLP derivative test: Jacobian values could not be evaluated at reference point.");
    }
 
    // Space for the perturbed point
-   Number* xpert = new Number[nx];
+   ScopedArray<Number> xpert(nx);
    IpBlasCopy(nx, xref, 1, xpert, 1);
 
    // Space for constraints at perturbed point
-   Number* gpert = NULL;
+   ScopedArray<Number> gpert;
    if( ng > 0 )
    {
-      gpert = new Number[ng];
+      gpert.alloc(ng);
    }
 
    Index index_correction = 0;
@@ -3241,8 +3117,8 @@ bool TNLPAdapter::CheckDerivatives(
       jnlst_->Printf(J_SUMMARY, J_NLP, "Starting derivative checker for second derivatives with obj_factor or lambda[i] set to 1.5.\n\n");
 
       // Get sparsity structure of Hessian
-      Index* h_iRow = new Index[nz_hess_lag];
-      Index* h_jCol = new Index[nz_hess_lag];
+      ScopedArray<Index> h_iRow(nz_hess_lag);
+      ScopedArray<Index> h_jCol(nz_hess_lag);
       retval = tnlp_->eval_h(nx, NULL, false, 0., ng, NULL, false, nz_hess_lag, h_iRow, h_jCol, NULL);
       ASSERT_EXCEPTION(retval, ERROR_IN_TNLP_DERIVATIVE_TEST,
                        "In TNLP derivative test: Hessian structure could not be evaluated.");
@@ -3271,17 +3147,17 @@ bool TNLPAdapter::CheckDerivatives(
          }
       }
 #endif
-      Number* h_values = new Number[nz_hess_lag];
+      ScopedArray<Number> h_values(nz_hess_lag);
 
-      Number* lambda = NULL;
+      ScopedArray<Number> lambda;
       if( ng > 0 )
       {
-         lambda = new Number[ng];
+         lambda.alloc(ng);
          IpBlasCopy(ng, &zero, 0, lambda, 1);
       }
-      Number* gradref = new Number[nx]; // gradient of objective or constraint at reference point
-      Number* gradpert = new Number[nx]; // gradient of objective or constraint at perturbed point
-      Number* jacpert = new Number[nz_jac_g];
+      ScopedArray<Number> gradref(nx); // gradient of objective or constraint at reference point
+      ScopedArray<Number> gradpert(nx); // gradient of objective or constraint at perturbed point
+      ScopedArray<Number> jacpert(nz_jac_g);
 
       // Check all Hessians
       const Index icon_first = Max(Index(-1), deriv_test_start_index);
@@ -3398,23 +3274,8 @@ bool TNLPAdapter::CheckDerivatives(
          }
       }
 
-      delete[] h_iRow;
-      delete[] h_jCol;
-      delete[] h_values;
-      delete[] lambda;
-      delete[] gradref;
-      delete[] gradpert;
-      delete[] jacpert;
    }
 
-   delete[] xref;
-   delete[] gref;
-   delete[] grad_f;
-   delete[] xpert;
-   delete[] g_iRow;
-   delete[] g_jCol;
-   delete[] jac_g;
-   delete[] gpert;
 
    if( nerrors == 0 )
    {
@@ -3447,12 +3308,10 @@ bool TNLPAdapter::DetermineDependentConstraints(
 
    // Get the structure of the big Jacobian of g and get the map for
    // the equality constraints entries
-   Index* g_iRow = new Index[nz_full_jac_g_];
-   Index* g_jCol = new Index[nz_full_jac_g_];
+   ScopedArray<Index> g_iRow(nz_full_jac_g_);
+   ScopedArray<Index> g_jCol(nz_full_jac_g_);
    if( !tnlp_->eval_jac_g(n_full_x_, NULL, false, n_full_g_, nz_full_jac_g_, g_iRow, g_jCol, NULL) )
    {
-      delete[] g_iRow;
-      delete[] g_jCol;
       return false;
    }
    if( index_style_ == TNLP::FORTRAN_STYLE )
@@ -3482,16 +3341,16 @@ bool TNLPAdapter::DetermineDependentConstraints(
    // TODO: Here we don't handle
    // fixed_variable_treatment_==MAKE_PARAMETER correctly (yet?)
    // Include space for the RHS
-   Index* jac_c_map = new Index[nz_full_jac_g_];
-   Index* jac_c_iRow = new Index[nz_full_jac_g_ + n_c];
-   Index* jac_c_jCol = new Index[nz_full_jac_g_ + n_c];
+   ScopedArray<Index> jac_c_map(nz_full_jac_g_);
+   ScopedArray<Index> jac_c_iRow(nz_full_jac_g_ + n_c);
+   ScopedArray<Index> jac_c_jCol(nz_full_jac_g_ + n_c);
    Index nz_jac_c = 0;
    const Index* c_row_pos = P_c_g->CompressedPosIndices();
    Index n_fixed = n_full_x_ - n_x_var;
    if( n_fixed > 0 )
    {
       // Get the reverse map for the fixed variables
-      Index* c_col_pos = new Index[n_full_x_];
+      ScopedArray<Index> c_col_pos(n_full_x_);
       for( Index i = 0; i < n_full_x_; i++ )
       {
          c_col_pos[i] = -1;
@@ -3512,7 +3371,6 @@ bool TNLPAdapter::DetermineDependentConstraints(
             nz_jac_c++;
          }
       }
-      delete[] c_col_pos;
    }
    else
    {
@@ -3529,17 +3387,12 @@ bool TNLPAdapter::DetermineDependentConstraints(
          }
       }
    }
-   delete[] g_iRow;
-   delete[] g_jCol;
 
    // First we evaluate the equality constraint Jacobian at the
    // starting point with some random perturbation (projected into bounds)
    if( !tnlp_->get_starting_point(n_full_x_, true, full_x_, false, NULL,
                                   NULL, n_full_g_, false, NULL) )
    {
-      delete[] jac_c_iRow;
-      delete[] jac_c_jCol;
-      delete[] jac_c_map;
       return false;
    }
    // Here we reset the random number generator
@@ -3552,31 +3405,23 @@ bool TNLPAdapter::DetermineDependentConstraints(
       const Number random_number = IpRandom01();
       full_x_[i] = lower + random_number * interval;
    }
-   Number* g_vals = NULL;
+   ScopedArray<Number> g_vals;
    if( dependency_detection_with_rhs_ )
    {
-      g_vals = new Number[n_full_g_];
+      g_vals.alloc(n_full_g_);
       if( !tnlp_->eval_g(n_full_x_, full_x_, true, n_full_g_, g_vals) )
       {
-         delete[] jac_c_iRow;
-         delete[] jac_c_jCol;
-         delete[] jac_c_map;
-         delete[] g_vals;
          return false;
       }
    }
    if( !tnlp_->eval_jac_g(n_full_x_, full_x_, !dependency_detection_with_rhs_, n_full_g_, nz_full_jac_g_, NULL, NULL,
                           jac_g_) )
    {
-      delete[] jac_c_iRow;
-      delete[] jac_c_jCol;
-      delete[] jac_c_map;
-      delete[] g_vals;
       return false;
    }
 
    // Get the equality constraint Jacobian out
-   Number* jac_c_vals = new Number[nz_jac_c + n_c];
+   ScopedArray<Number> jac_c_vals(nz_jac_c + n_c);
    for( Index i = 0; i < nz_jac_c; i++ )
    {
       jac_c_vals[i] = jac_g_[jac_c_map[i]];
@@ -3607,11 +3452,6 @@ bool TNLPAdapter::DetermineDependentConstraints(
    // once...
    dependency_detector_ = NULL;
 
-   delete[] jac_c_iRow;
-   delete[] jac_c_jCol;
-   delete[] jac_c_map;
-   delete[] jac_c_vals;
-   delete[] g_vals;
 
    return retval;
 }
diff --git a/src/Interfaces/IpTNLPReducer.cpp b/src/Interfaces/IpTNLPReducer.cpp
index b6a603b..d0a0928 100644
--- a/src/Interfaces/IpTNLPReducer.cpp
+++ b/src/Interfaces/IpTNLPReducer.cpp
@@ -5,6 +5,7 @@
 // Authors:  Andreas Waechter                  IBM    2008-08-10
 
 #include "IpTNLPReducer.hpp"
+#include "IpUtils.hpp"
 
 #include <algorithm>
 #include <limits>
@@ -131,12 +132,10 @@ bool TNLPReducer::get_nlp_info(
          }
 
       // We also need to count the number of nonzeros
-      Index* iRow = new Index[nnz_jac_g_orig_];
-      Index* jCol = new Index[nnz_jac_g_orig_];
+      ScopedArray<Index> iRow(nnz_jac_g_orig_);
+      ScopedArray<Index> jCol(nnz_jac_g_orig_);
       if( !tnlp_->eval_jac_g(n, NULL, false, m_orig_, nnz_jac_g_orig_, iRow, jCol, NULL) )
       {
-         delete[] iRow;
-         delete[] jCol;
          return false;
       }
       nnz_jac_g_reduced_ = 0;
@@ -153,8 +152,6 @@ bool TNLPReducer::get_nlp_info(
 
       DBG_ASSERT(nnz_jac_g_reduced_ + nnz_jac_g_skipped_ == nnz_jac_g_orig_);
 
-      delete[] iRow;
-      delete[] jCol;
    }
 
    m = m_reduced_;
@@ -173,8 +170,8 @@ bool TNLPReducer::get_bounds_info(
    Number* g_u
 )
 {
-   Number* g_l_orig = new Number[m_orig_];
-   Number* g_u_orig = new Number[m_orig_];
+   ScopedArray<Number> g_l_orig(m_orig_);
+   ScopedArray<Number> g_u_orig(m_orig_);
 
    bool retval = tnlp_->get_bounds_info(n, x_l, x_u, m_orig_, g_l_orig, g_u_orig);
 
@@ -186,10 +183,10 @@ bool TNLPReducer::get_bounds_info(
 
          // If there are fixed variables, we need to compute the starting
          // point to know what to fix the variable to
-         Number* x_start = NULL;
+         ScopedArray<Number> x_start;
          if( n_x_fix_ > 0 )
          {
-            x_start = new Number[n];
+            x_start.alloc(n);
             if( !tnlp_->get_starting_point(n, true, x_start, false, NULL, NULL, m_orig_, false, NULL) )
             {
                return false;
@@ -219,7 +216,6 @@ bool TNLPReducer::get_bounds_info(
                count_x++;
             }
          }
-         delete[] x_start;
       }
 
       for( Index i = 0; i < m_orig_; i++ )
@@ -233,8 +229,6 @@ bool TNLPReducer::get_bounds_info(
       }
    }
 
-   delete[] g_l_orig;
-   delete[] g_u_orig;
 
    return retval;
 }
@@ -249,7 +243,7 @@ bool TNLPReducer::get_scaling_parameters(
    Number* g_scaling
 )
 {
-   Number* g_scaling_orig = new Number[m_orig_];
+   ScopedArray<Number> g_scaling_orig(m_orig_);
    bool retval = tnlp_->get_scaling_parameters(obj_scaling, use_x_scaling, n, x_scaling, use_g_scaling, m_orig_, g_scaling_orig);
 
    if( retval && use_g_scaling )
@@ -264,7 +258,6 @@ bool TNLPReducer::get_scaling_parameters(
       }
    }
 
-   delete[] g_scaling_orig;
 
    return retval;
 }
@@ -282,7 +275,7 @@ bool TNLPReducer::get_constraints_linearity(
    LinearityType* const_types
 )
 {
-   LinearityType* const_types_orig = new LinearityType[m_orig_];
+   ScopedArray<LinearityType> const_types_orig(m_orig_);
 
    bool retval = tnlp_->get_constraints_linearity(m_orig_, const_types_orig);
    if( retval )
@@ -297,7 +290,6 @@ bool TNLPReducer::get_constraints_linearity(
       }
    }
 
-   delete[] const_types_orig;
 
    return retval;
 }
@@ -314,10 +306,10 @@ bool TNLPReducer::get_starting_point(
    Number* lambda
 )
 {
-   Number* lambda_orig = NULL;
+   ScopedArray<Number> lambda_orig;
    if( init_lambda )
    {
-      lambda_orig = new Number[m_orig_];
+      lambda_orig.alloc(m_orig_);
    }
 
    bool retval = tnlp_->get_starting_point(n, init_x, x, init_z, z_L, z_U, m_orig_, init_lambda, lambda_orig);
@@ -334,7 +326,6 @@ bool TNLPReducer::get_starting_point(
       }
    }
 
-   delete[] lambda_orig;
 
    return retval;
 }
@@ -374,7 +365,7 @@ bool TNLPReducer::eval_g(
    Number*       g
 )
 {
-   Number* g_orig = new Number[m_orig_];
+   ScopedArray<Number> g_orig(m_orig_);
 
    bool retval = tnlp_->eval_g(n, x, new_x, m_orig_, g_orig);
    if( retval )
@@ -389,7 +380,6 @@ bool TNLPReducer::eval_g(
       }
    }
 
-   delete[] g_orig;
 
    return retval;
 }
@@ -412,8 +402,8 @@ bool TNLPReducer::eval_jac_g(
       delete[] jac_g_skipped_;
       jac_g_skipped_ = NULL;
 
-      Index* iRow_orig = new Index[nnz_jac_g_orig_];
-      Index* jCol_orig = new Index[nnz_jac_g_orig_];
+      ScopedArray<Index> iRow_orig(nnz_jac_g_orig_);
+      ScopedArray<Index> jCol_orig(nnz_jac_g_orig_);
       retval = tnlp_->eval_jac_g(n, x, new_x, m_orig_, nnz_jac_g_orig_, iRow_orig, jCol_orig, values);
 
       Index offset = (index_style_orig_ == FORTRAN_STYLE ? 1 : 0);
@@ -442,12 +432,10 @@ bool TNLPReducer::eval_jac_g(
          jac_g_skipped_[nnz_jac_g_skipped_] = -1;
       }
 
-      delete[] iRow_orig;
-      delete[] jCol_orig;
    }
    else
    {
-      Number* values_orig = new Number[nnz_jac_g_orig_];
+      ScopedArray<Number> values_orig(nnz_jac_g_orig_);
       retval = tnlp_->eval_jac_g(n, x, new_x, m_orig_, nnz_jac_g_orig_, iRow, jCol, values_orig);
       if( retval )
       {
@@ -469,7 +457,6 @@ bool TNLPReducer::eval_jac_g(
          DBG_ASSERT(count2 == nnz_jac_g_reduced_);
       }
 
-      delete[] values_orig;
    }
 
    return retval;
@@ -494,7 +481,7 @@ bool TNLPReducer::eval_h(
       return tnlp_->eval_h(n, x, new_x, obj_factor, m_orig_, lambda, new_lambda, nele_hess, iRow, jCol, values);
    }
 
-   Number* lambda_orig = new Number[m_orig_];
+   ScopedArray<Number> lambda_orig(m_orig_);
    for( Index i = 0; i < m_orig_; i++ )
    {
       Index& new_index = g_keep_map_[i];
@@ -510,7 +497,6 @@ bool TNLPReducer::eval_h(
 
    bool retval = tnlp_->eval_h(n, x, new_x, obj_factor, m_orig_, lambda_orig, new_lambda, nele_hess, iRow, jCol, values);
 
-   delete[] lambda_orig;
 
    return retval;
 }
@@ -529,8 +515,8 @@ void TNLPReducer::finalize_solution(
    IpoptCalculatedQuantities* ip_cq
 )
 {
-   Number* g_orig = new Number[m_orig_];
-   Number* lambda_orig = new Number[m_orig_];
+   ScopedArray<Number> g_orig(m_orig_);
+   ScopedArray<Number> lambda_orig(m_orig_);
 
    // call evaluation method to get correct constraint values
    tnlp_->eval_g(n, x, true, m_orig_, g_orig);
@@ -551,8 +537,6 @@ void TNLPReducer::finalize_solution(
 
    tnlp_->finalize_solution(status, n, x, z_L, z_U, m_orig_, g_orig, lambda_orig, obj_value, ip_data, ip_cq);
 
-   delete[] lambda_orig;
-   delete[] g_orig;
 }
 
 bool TNLPReducer::intermediate_callback(
-- 
2.43.0


From 07b7a0300403a3569777692585da31c4f7db46e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:47 +0000
Subject: [PATCH 49/75] fix: do not print a Hessian that was not computed yet
 in the restoration phase

---
 src/Algorithm/IpRestoIterationOutput.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/IpRestoIterationOutput.cpp b/src/Algorithm/IpRestoIterationOutput.cpp
index d9d662f..9725374 100644
--- a/src/Algorithm/IpRestoIterationOutput.cpp
+++ b/src/Algorithm/IpRestoIterationOutput.cpp
@@ -290,7 +290,10 @@ void RestoIterationOutput::WriteOutput()
    {
       IpCq().curr_jac_c()->Print(Jnlst(), J_MATRIX, J_MAIN, "jac_c");
       IpCq().curr_jac_d()->Print(Jnlst(), J_MATRIX, J_MAIN, "jac_d");
-      IpData().W()->Print(Jnlst(), J_MATRIX, J_MAIN, "W");
+      if( IsValid(IpData().W()) )
+      {
+         IpData().W()->Print(Jnlst(), J_MATRIX, J_MAIN, "W");
+      }
    }
 
    Jnlst().Printf(J_DETAILED, J_MAIN,
-- 
2.43.0


From 5b6bc441b62bce1ca237fc1e671e111a0ae138d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:36 +0000
Subject: [PATCH 50/75] fix: do not use a null iterate with
 warm_start_target_mu

---
 src/Algorithm/IpWarmStartIterateInitializer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Algorithm/IpWarmStartIterateInitializer.cpp b/src/Algorithm/IpWarmStartIterateInitializer.cpp
index 0b0491b..4a9c4f9 100644
--- a/src/Algorithm/IpWarmStartIterateInitializer.cpp
+++ b/src/Algorithm/IpWarmStartIterateInitializer.cpp
@@ -274,6 +274,8 @@ bool WarmStartIterateInitializer::SetInitialIterates()
       // Set the trial pointers to new_x and new_s. The process_target_mu
       // methods below create new vectors in new_x and new_s and do not alter
       // the existing ones.
+      // (set_trial took over the previous init_vec)
+      init_vec = curr->MakeNewContainer();
       init_vec->Set_x(*new_x);
       init_vec->Set_s(*new_s);
       IpData().set_trial(init_vec);
@@ -286,6 +288,7 @@ bool WarmStartIterateInitializer::SetInitialIterates()
                         *IpNLP().Pd_U(), new_s, new_v_U);
 
       // Now submit the full modified point
+      init_vec = curr->MakeNewContainer();
       init_vec->Set_x(*new_x);
       init_vec->Set_s(*new_s);
       // y_c and y_d currently contain a copy of curr()->y_c...
-- 
2.43.0


From ca6cbf2e3caa898952faa1ff68c9ac1771d39232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:11 +0000
Subject: [PATCH 51/75] fix: initialize the bound multipliers before slacks are
 computed from them with bound_mult_init_method=mu-based

---
 src/Algorithm/IpDefaultIterateInitializer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Algorithm/IpDefaultIterateInitializer.cpp b/src/Algorithm/IpDefaultIterateInitializer.cpp
index 226e2cf..8e36b4f 100644
--- a/src/Algorithm/IpDefaultIterateInitializer.cpp
+++ b/src/Algorithm/IpDefaultIterateInitializer.cpp
@@ -275,6 +275,14 @@ bool DefaultIterateInitializer::SetInitialIterates()
          iterates->z_U_NonConst()->Set(mu_init_);
          iterates->v_L_NonConst()->Set(mu_init_);
          iterates->v_U_NonConst()->Set(mu_init_);
+         // the computation of the trial slacks uses the current multipliers if a slack is very small
+         IpData().set_trial(iterates);
+         IpData().CopyTrialToCurrent();
+         iterates = IpData().trial()->MakeNewContainer();
+         iterates->create_new_z_L_copy();
+         iterates->create_new_z_U_copy();
+         iterates->create_new_v_L_copy();
+         iterates->create_new_v_U_copy();
          iterates->z_L_NonConst()->ElementWiseDivide(*IpCq().trial_slack_x_L());
          iterates->z_U_NonConst()->ElementWiseDivide(*IpCq().trial_slack_x_U());
          iterates->v_L_NonConst()->ElementWiseDivide(*IpCq().trial_slack_s_L());
-- 
2.43.0


From 54b667b720ef40d3eb3b34c4584f443504953d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:07 +0000
Subject: [PATCH 52/75] fix: no data races on process-wide state between
 applications used in different threads

The flag for the copyright message and the time base of WallclockTime() were
written without synchronisation, and the random numbers for the perturbation
of the starting point came from the global state of drand48(), so that one
thread changed the points used in another one (and the user's drand48 sequence).
---
 src/Algorithm/IpIpoptAlg.cpp |  5 ++++-
 src/Common/IpUtils.cpp       | 39 +++++++++++++++++++++++++++---------
 2 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/Algorithm/IpIpoptAlg.cpp b/src/Algorithm/IpIpoptAlg.cpp
index d9092e5..5de0dc4 100644
--- a/src/Algorithm/IpIpoptAlg.cpp
+++ b/src/Algorithm/IpIpoptAlg.cpp
@@ -11,6 +11,8 @@
 #include "IpOrigIpoptNLP.hpp"
 #include "IpBacktrackingLineSearch.hpp"
 
+#include <atomic>
+
 #ifdef IPOPT_HAS_HSL
 #include "CoinHslConfig.h"
 #endif
@@ -116,7 +118,8 @@ void IpoptAlgorithm::RegisterOptions(
       "The overall algorithm time is unaffected by this option.");
 }
 
-static bool copyright_message_printed = false;
+/// whether the copyright message has been printed already (several algorithms may run in different threads)
+static std::atomic<bool> copyright_message_printed(false);
 
 bool IpoptAlgorithm::InitializeImpl(
    const OptionsList& options,
diff --git a/src/Common/IpUtils.cpp b/src/Common/IpUtils.cpp
index 644e67b..178de82 100644
--- a/src/Common/IpUtils.cpp
+++ b/src/Common/IpUtils.cpp
@@ -108,10 +108,31 @@ bool IsFiniteNumber(
 
 }
 
+#ifdef IPOPT_HAS_DRAND48
+// keyword to declare a thread-local variable, see also IpTaggedObject.cpp
+#ifndef IPOPT_THREAD_LOCAL
+#if __cplusplus >= 201103L
+#define IPOPT_THREAD_LOCAL thread_local
+#elif defined(_MSC_VER)
+#define IPOPT_THREAD_LOCAL __declspec(thread)
+#elif defined(__APPLE__) && ((defined(__GNUC__) && (__GNUC__ * 100 + __GNUC_MINOR__ < 405)) || defined(__INTEL_COMPILER))
+#define IPOPT_THREAD_LOCAL
+#else
+#define IPOPT_THREAD_LOCAL __thread
+#endif
+#endif
+
+/// state of the random number generator
+///
+/// kept per thread and apart from the one used by drand48(), so that Ipopt running in one thread
+/// does not change the random numbers that Ipopt gets in another thread or the user gets anywhere
+static IPOPT_THREAD_LOCAL unsigned short random_state[3] = { 0, 0, 0 };
+#endif
+
 Number IpRandom01()
 {
 #ifdef IPOPT_HAS_DRAND48
-   return Number(drand48());
+   return Number(erand48(random_state));
 #else
 # ifdef IPOPT_HAS_RAND
    return Number(rand()) / Number(RAND_MAX);
@@ -128,7 +149,10 @@ Number IpRandom01()
 void IpResetRandom01()
 {
 #ifdef IPOPT_HAS_DRAND48
-   srand48(1);
+   // as srand48(1)
+   random_state[0] = 0x330E;
+   random_state[1] = 1;
+   random_state[2] = 0;
 #else
 # ifdef IPOPT_HAS_RAND
    srand(1);
@@ -142,8 +166,6 @@ void IpResetRandom01()
 #endif
 }
 
-static double Wallclock_firstCall_ = -1.;
-
 // The following function were taken from CoinTime.hpp in COIN/Coin
 Number CpuTime()
 {
@@ -184,12 +206,9 @@ Number SysTime()
 
 Number WallclockTime()
 {
-   double callTime = IpCoinGetTimeOfDay();
-   if( Wallclock_firstCall_ == -1. )
-   {
-      Wallclock_firstCall_ = callTime;
-   }
-   return callTime - Wallclock_firstCall_;
+   // initialization of a local static is done once only, also if called from several threads
+   static const double firstCall = IpCoinGetTimeOfDay();
+   return IpCoinGetTimeOfDay() - firstCall;
 }
 
 bool Compare_le(
-- 
2.43.0


From b4d1693c60dcbd2d13c26740aa54e4d00b181d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:34 +0000
Subject: [PATCH 53/75] fix: refuse option values that are not (completely) a
 number or do not fit the type

In an options file, an empty value, a number followed by further text, and
integers that do not fit into Index were silently read as something else.
---
 src/Common/IpOptionsList.cpp | 117 +++++++++++++++++++++++------------
 1 file changed, 77 insertions(+), 40 deletions(-)

diff --git a/src/Common/IpOptionsList.cpp b/src/Common/IpOptionsList.cpp
index 930342a..3eb0fd6 100644
--- a/src/Common/IpOptionsList.cpp
+++ b/src/Common/IpOptionsList.cpp
@@ -8,13 +8,80 @@
 #include "IpOptionsList.hpp"
 
 #include <cctype>
+#include <cerrno>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <limits>
 
 namespace Ipopt
 {
 
+/// whether only whitespace is left in str from position p on
+static bool only_space_left(
+   const std::string& str,
+   const char*        p
+)
+{
+   for( ; p != str.c_str() + str.length(); ++p )
+   {
+      if( !isspace((unsigned char) *p) )
+      {
+         return false;
+      }
+   }
+   return true;
+}
+
+/// converts a string into a number
+/// @return whether the string consists of a number (possibly surrounded by whitespace)
+static bool string_to_number(
+   const std::string& str,
+   Number&            value
+)
+{
+   // Some people like to use 'd' instead of 'e' in floating point
+   // numbers.  Therefore, we change a 'd' to an 'e'
+   std::string buffer(str);
+   for( std::string::size_type i = 0; i < buffer.length(); ++i )
+   {
+      if( buffer[i] == 'd' || buffer[i] == 'D' )
+      {
+         buffer[i] = 'e';
+      }
+   }
+   char* p_end;
+   Number retval = (Number) strtod(buffer.c_str(), &p_end);
+   if( p_end == buffer.c_str() || !only_space_left(buffer, p_end) )
+   {
+      return false;
+   }
+   value = retval;
+   return true;
+}
+
+/// converts a string into an integer
+/// @return whether the string consists of an integer (possibly surrounded by whitespace) that can be represented by Index
+static bool string_to_integer(
+   const std::string& str,
+   Index&             value
+)
+{
+   char* p_end;
+   errno = 0;
+   long retval = strtol(str.c_str(), &p_end, 10);
+   if( p_end == str.c_str() || !only_space_left(str, p_end) )
+   {
+      return false;
+   }
+   if( errno == ERANGE || retval < std::numeric_limits<Index>::min() || retval > std::numeric_limits<Index>::max() )
+   {
+      return false;
+   }
+   value = static_cast<Index>(retval);
+   return true;
+}
+
 bool OptionsList::SetStringValue(
    const std::string& tag,
    const std::string& value,
@@ -542,27 +609,13 @@ bool OptionsList::GetNumericValue(
    std::string strvalue;
    if( find_tag(tag, prefix, strvalue) )
    {
-      // Some people like to use 'd' instead of 'e' in floating point
-      // numbers.  Therefore, we change a 'd' to an 'e'
-      char* buffer = new char[strvalue.length() + 1];
-      strcpy(buffer, strvalue.c_str());
-      for( size_t i = 0; i < strvalue.length(); ++i )
-      {
-         if( buffer[i] == 'd' || buffer[i] == 'D' )
-         {
-            buffer[i] = 'e';
-         }
-      }
-      char* p_end;
-      Number retval = strtod(buffer, &p_end);
-      if( *p_end != '\0' && !isspace(*p_end) )
+      Number retval;
+      if( !string_to_number(strvalue, retval) )
       {
-         delete[] buffer;
          std::string msg = "Option \"" + tag + "\": Double value expected, but non-numeric value \"" + strvalue
                            + "\" found.\n";
          THROW_EXCEPTION(OPTION_INVALID, msg);
       }
-      delete[] buffer;
       value = retval;
       return true;
    }
@@ -620,15 +673,14 @@ bool OptionsList::GetIntegerValue(
    std::string strvalue;
    if( find_tag(tag, prefix, strvalue) )
    {
-      char* p_end;
-      size_t retval = strtol(strvalue.c_str(), &p_end, 10);
-      if( *p_end != '\0' && !isspace(*p_end) )
+      Index retval;
+      if( !string_to_integer(strvalue, retval) )
       {
          std::string msg = "Option \"" + tag + "\": Integer value expected, but non-integer value \"" + strvalue
                            + "\" found.\n";
          THROW_EXCEPTION(OPTION_INVALID, msg);
       }
-      value = static_cast<Index>(retval);
+      value = retval;
       return true;
    }
    else if( IsValid(option) )
@@ -749,36 +801,21 @@ bool OptionsList::ReadFromStream(
          }
          else if( option->Type() == OT_Number )
          {
-            // Some people like to use 'd' instead of 'e' in floating
-            // point numbers.  Therefore, we change a 'd' to an 'e'
-            char* buffer = new char[value.length() + 1];
-            strcpy(buffer, value.c_str());
-            for( size_t i = 0; i < value.length(); ++i )
-            {
-               if( buffer[i] == 'd' || buffer[i] == 'D' )
-               {
-                  buffer[i] = 'e';
-               }
-            }
-            char* p_end;
-            Number retval = strtod(buffer, &p_end);
-            if( *p_end != '\0' && !isspace(*p_end) )
+            Number retval;
+            if( !string_to_number(value, retval) )
             {
-               delete[] buffer;
                std::string msg = "Option \"" + tag + "\": Double value expected, but non-numeric option value \""
                                  + value + "\" found.\n";
                THROW_EXCEPTION(OPTION_INVALID, msg);
             }
-            delete [] buffer;
             bool result = SetNumericValue(tag, retval, allow_clobber);
             ASSERT_EXCEPTION(result, OPTION_INVALID,
                              "Error setting numeric value read from file.");
          }
          else if( option->Type() == OT_Integer )
          {
-            char* p_end;
-            size_t retval = strtol(value.c_str(), &p_end, 10);
-            if( *p_end != '\0' && !isspace(*p_end) )
+            Index retval;
+            if( !string_to_integer(value, retval) )
             {
                std::string msg = "Option \"" + tag + "\": Integer value expected, but non-integer option value \""
                                  + value + "\" found.\n";
@@ -788,7 +825,7 @@ bool OptionsList::ReadFromStream(
                }
                THROW_EXCEPTION(OPTION_INVALID, msg);
             }
-            bool result = SetIntegerValue(tag, static_cast<Index>(retval), allow_clobber);
+            bool result = SetIntegerValue(tag, retval, allow_clobber);
             ASSERT_EXCEPTION(result, OPTION_INVALID,
                              "Error setting integer value read from option file.");
          }
-- 
2.43.0


From 6b61a2c9870d70acf3b0b89acfe253404f061187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:52 +0000
Subject: [PATCH 54/75] fix: read empty quoted strings in options files, and
 report unterminated ones and read errors

An empty quoted string was taken as the start of a longer one, an unterminated
string at the end was ignored or only reported but not regarded as error, a
read error (e.g., on a directory) lead to an endless loop, and comments
were cut after 10 million characters.
---
 src/Common/IpOptionsList.cpp          | 46 +++++++++++++++++----------
 src/Interfaces/IpIpoptApplication.cpp |  5 ++-
 2 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/src/Common/IpOptionsList.cpp b/src/Common/IpOptionsList.cpp
index 3eb0fd6..255b20d 100644
--- a/src/Common/IpOptionsList.cpp
+++ b/src/Common/IpOptionsList.cpp
@@ -764,6 +764,12 @@ bool OptionsList::ReadFromStream(
 
       if( !readnexttoken(is, tag) )
       {
+         if( is.bad() )
+         {
+            jnlst.Printf(J_ERROR, J_MAIN,
+                         "Error reading options from file: read error or quoted string without end.\n");
+            return false;
+         }
          // That's it - end of file reached.
          jnlst.Printf(J_DETAILED, J_MAIN,
                       "Finished reading options from file.\n");
@@ -903,46 +909,52 @@ bool OptionsList::readnexttoken(
    char c = is.get();
 
    // First get rid of all comments and white spaces
-   while( !is.eof() && (isspace(c) || c == '#') )
+   while( is.good() && (isspace((unsigned char) c) || c == '#') )
    {
       if( c == '#' )
       {
-         is.ignore(10000000, '\n');
+         is.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
       }
       c = is.get();
    }
 
+   if( !is.good() )
+   {
+      return false;
+   }
+
    bool inside_quotes = (c == '"');
    if( inside_quotes )
    {
-      if( is.eof() )
+      c = is.get();
+      if( is.good() && c == '"' )
       {
-         return false;   // eof after quotation symbol
+         // empty quoted string
+         inside_quotes = false;
+         c = is.get();
       }
-      c = is.get();
-   }
-
-   if( is.eof() )
-   {
-      return false;
    }
 
    // Now read the token
-   while( !is.eof() && (inside_quotes || !isspace(c)) )
+   while( is.good() && (inside_quotes || !isspace((unsigned char) c)) )
    {
       token += (char) c;
       c = is.get();
-      if( inside_quotes && (c == '"') )
+      if( inside_quotes && is.good() && (c == '"') )
       {
          inside_quotes = false;
-         if( !is.eof() )
-         {
-            c = is.get();
-         }
+         c = is.get();
       }
    }
 
-   return !inside_quotes;
+   if( inside_quotes || is.bad() )
+   {
+      // quoted string without end, or error on reading
+      is.setstate(std::ios_base::badbit);
+      return false;
+   }
+
+   return true;
 }
 
 } // namespace Ipopt
diff --git a/src/Interfaces/IpIpoptApplication.cpp b/src/Interfaces/IpIpoptApplication.cpp
index c0c7f8f..74b5f82 100644
--- a/src/Interfaces/IpIpoptApplication.cpp
+++ b/src/Interfaces/IpIpoptApplication.cpp
@@ -168,7 +168,10 @@ ApplicationReturnStatus IpoptApplication::Initialize(
       if( is.good() )
       {
          // stream exists, read the content
-         options_->ReadFromStream(*jnlst_, is, allow_clobber);
+         if( !options_->ReadFromStream(*jnlst_, is, allow_clobber) )
+         {
+            return Invalid_Option;
+         }
       }
 
       bool no_output;
-- 
2.43.0


From 893b2cec22f644fbc2a457050d43e60937038618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:53 +0000
Subject: [PATCH 55/75] fix: do not accept NaN as value of a number option

---
 src/Common/IpRegOptions.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Common/IpRegOptions.hpp b/src/Common/IpRegOptions.hpp
index 38ad026..c081c44 100644
--- a/src/Common/IpRegOptions.hpp
+++ b/src/Common/IpRegOptions.hpp
@@ -557,6 +557,11 @@ public:
    ) const
    {
       DBG_ASSERT(type_ == OT_Number);
+      if( value != value )
+      {
+         // NaN is never in the range
+         return false;
+      }
       if( has_lower_ && ((lower_strict_ == true && value <= lower_) || (lower_strict_ == false && value < lower_)) )
       {
          return false;
-- 
2.43.0


From dfc1b4b07ea3259ff5159b031ee837bf8adb919e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:53 +0000
Subject: [PATCH 56/75] fix: do not cut long option values when printing the
 list of user options

---
 src/Common/IpOptionsList.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/Common/IpOptionsList.cpp b/src/Common/IpOptionsList.cpp
index 255b20d..a6bd087 100644
--- a/src/Common/IpOptionsList.cpp
+++ b/src/Common/IpOptionsList.cpp
@@ -714,7 +714,15 @@ void OptionsList::PrintList(
    list += buffer;
    for( std::map<std::string, OptionValue>::const_iterator p = options_.begin(); p != options_.end(); ++p )
    {
-      Snprintf(buffer, 255, "%40s = %-20s %6" IPOPT_INDEX_FORMAT "\n", p->first.c_str(), p->second.Value().c_str(), p->second.Counter());
+      // the value can be longer than the buffer
+      Snprintf(buffer, 255, "%40s = ", p->first.c_str());
+      list += buffer;
+      list += p->second.Value();
+      if( p->second.Value().length() < 20 )
+      {
+         list.append(20 - p->second.Value().length(), ' ');
+      }
+      Snprintf(buffer, 255, " %6" IPOPT_INDEX_FORMAT "\n", p->second.Counter());
       list += buffer;
    }
 }
@@ -742,7 +750,15 @@ void OptionsList::PrintUserOptions(
          {
             used = no;
          }
-         Snprintf(buffer, 255, "%40s = %-20s %4s\n", p->first.c_str(), p->second.Value().c_str(), used);
+         // the value can be longer than the buffer
+         Snprintf(buffer, 255, "%40s = ", p->first.c_str());
+         list += buffer;
+         list += p->second.Value();
+         if( p->second.Value().length() < 20 )
+         {
+            list.append(20 - p->second.Value().length(), ' ');
+         }
+         Snprintf(buffer, 255, " %4s\n", used);
          list += buffer;
       }
    }
-- 
2.43.0


From 3b7e7c8994140b030e9228453e42c1b5a6de6d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:06 +0000
Subject: [PATCH 57/75] fix: do not read the uninitialized strictness of a
 missing lower bound of an option

---
 src/Common/IpRegOptions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Common/IpRegOptions.cpp b/src/Common/IpRegOptions.cpp
index 9e9cd4d..1629592 100644
--- a/src/Common/IpRegOptions.cpp
+++ b/src/Common/IpRegOptions.cpp
@@ -50,7 +50,7 @@ void RegisteredOption::OutputDescription(
                       "-inf");
       }
 
-      if( lower_strict_ )
+      if( has_lower_ && lower_strict_ )
       {
          jnlst.Printf(J_SUMMARY, J_DOCUMENTATION,
                       " < ");
-- 
2.43.0


From c818d1616ac42dbe13483ad72f54568cb6acd5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:38 +0000
Subject: [PATCH 58/75] fix: C interface: do not refuse missing multipliers of
 zero constraints at a warm start

---
 src/Interfaces/IpStdInterfaceTNLP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/IpStdInterfaceTNLP.cpp b/src/Interfaces/IpStdInterfaceTNLP.cpp
index c503246..83465db 100644
--- a/src/Interfaces/IpStdInterfaceTNLP.cpp
+++ b/src/Interfaces/IpStdInterfaceTNLP.cpp
@@ -235,7 +235,7 @@ bool StdInterfaceTNLP::get_starting_point(
 
    if( init_lambda )
    {
-      if( start_lam_ == NULL )
+      if( start_lam_ == NULL && m > 0 )
       {
          retval = false;
       }
-- 
2.43.0


From 094cbf340da560054278dd8db0a34120243ef8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:38 +0000
Subject: [PATCH 59/75] fix: Java interface: hand the final objective value to
 the user

---
 src/Interfaces/IpStdJInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/IpStdJInterface.cpp b/src/Interfaces/IpStdJInterface.cpp
index acb93e6..a1e6322 100644
--- a/src/Interfaces/IpStdJInterface.cpp
+++ b/src/Interfaces/IpStdJInterface.cpp
@@ -665,7 +665,7 @@ void Jipopt::finalize_solution(
       env->SetNumberArrayRegion(mult_gj, 0, m, const_cast<Number*>(lambda));
    }
 
-   env->GetNumberArrayRegion(fj, 0, 1, &obj_value);
+   env->SetNumberArrayRegion(fj, 0, 1, &obj_value);
 }
 
 /* Intermediate Callback method for the user. */
-- 
2.43.0


From 7e21ee8f93b1156b5f0c6599b1cdbf2aa75c24b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:38 +0000
Subject: [PATCH 60/75] fix: Java interface: read as many constraint scaling
 factors as there are constraints

---
 src/Interfaces/IpStdJInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/IpStdJInterface.cpp b/src/Interfaces/IpStdJInterface.cpp
index a1e6322..584dfb4 100644
--- a/src/Interfaces/IpStdJInterface.cpp
+++ b/src/Interfaces/IpStdJInterface.cpp
@@ -729,7 +729,7 @@ bool Jipopt::get_scaling_parameters(
    /* Copy from Java to native value */
    if( use_x_g_scaling[1] )
    {
-      env->GetNumberArrayRegion(g_scaling_j, 0, n, g_scaling);
+      env->GetNumberArrayRegion(g_scaling_j, 0, m, g_scaling);
       use_g_scaling = true;
    }
    else
-- 
2.43.0


From 67147f6535f319698265d05a8a201d99b463206f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:38 +0000
Subject: [PATCH 61/75] fix: C and Java interface: do not let exceptions escape
 from queries of the current iterate

---
 src/Interfaces/IpStdCInterface.cpp | 22 ++++++++++++++++++++--
 src/Interfaces/IpStdJInterface.cpp | 22 ++++++++++++++++++++--
 2 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/Interfaces/IpStdCInterface.cpp b/src/Interfaces/IpStdCInterface.cpp
index e9a7ca9..ebcb8a3 100644
--- a/src/Interfaces/IpStdCInterface.cpp
+++ b/src/Interfaces/IpStdCInterface.cpp
@@ -307,7 +307,16 @@ bool GetIpoptCurrentIterate(
       return false;
    }
 
-   return ipopt_problem->tnlp->get_curr_iterate(scaled, n, x, z_L, z_U, m, g, lambda);
+   try
+   {
+      return ipopt_problem->tnlp->get_curr_iterate(scaled, n, x, z_L, z_U, m, g, lambda);
+   }
+   catch( const Ipopt::IpoptException& exc )
+   {
+      // C code cannot handle exceptions
+      exc.ReportException(*ipopt_problem->app->Jnlst(), Ipopt::J_ERROR);
+      return false;
+   }
 }
 
 bool GetIpoptCurrentViolations(
@@ -329,5 +338,14 @@ bool GetIpoptCurrentViolations(
       return false;
    }
 
-   return ipopt_problem->tnlp->get_curr_violations(scaled != 0, n, x_L_violation, x_U_violation, compl_x_L, compl_x_U, grad_lag_x, m, nlp_constraint_violation, compl_g);
+   try
+   {
+      return ipopt_problem->tnlp->get_curr_violations(scaled != 0, n, x_L_violation, x_U_violation, compl_x_L, compl_x_U, grad_lag_x, m, nlp_constraint_violation, compl_g);
+   }
+   catch( const Ipopt::IpoptException& exc )
+   {
+      // C code cannot handle exceptions
+      exc.ReportException(*ipopt_problem->app->Jnlst(), Ipopt::J_ERROR);
+      return false;
+   }
 }
diff --git a/src/Interfaces/IpStdJInterface.cpp b/src/Interfaces/IpStdJInterface.cpp
index 584dfb4..7d982d0 100644
--- a/src/Interfaces/IpStdJInterface.cpp
+++ b/src/Interfaces/IpStdJInterface.cpp
@@ -908,7 +908,16 @@ extern "C"
          lambda = new Number[m];
       }
 
-      bool ok = problem->get_curr_iterate(ip_data, ip_cq, jscaled, n, x, z_L, z_U, m, g, lambda);
+      bool ok = false;
+      try
+      {
+         ok = problem->get_curr_iterate(ip_data, ip_cq, jscaled, n, x, z_L, z_U, m, g, lambda);
+      }
+      catch( const IpoptException& exc )
+      {
+         // Java code cannot handle C++ exceptions
+         exc.ReportException(*problem->application->Jnlst(), J_ERROR);
+      }
       if( ok )
       {
          if( jx != NULL )
@@ -1003,7 +1012,16 @@ extern "C"
          compl_g = new Number[m];
       }
 
-      bool ok = problem->get_curr_violations(ip_data, ip_cq, jscaled, n, x_L_violation, x_U_violation, compl_x_L, compl_x_U, grad_lag_x, m, nlp_constraint_violation, compl_g);
+      bool ok = false;
+      try
+      {
+         ok = problem->get_curr_violations(ip_data, ip_cq, jscaled, n, x_L_violation, x_U_violation, compl_x_L, compl_x_U, grad_lag_x, m, nlp_constraint_violation, compl_g);
+      }
+      catch( const IpoptException& exc )
+      {
+         // Java code cannot handle C++ exceptions
+         exc.ReportException(*problem->application->Jnlst(), J_ERROR);
+      }
       if( ok )
       {
          if( jx_L_violation != NULL )
-- 
2.43.0


From a0c86c717dbd11c651a00e00d8f2b3f244a42c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:30 +0000
Subject: [PATCH 62/75] fix: derivative checker: do not test at an undefined
 point when the starting point is refused

---
 src/Interfaces/IpTNLPAdapter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 5312e53..89663f3 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2931,7 +2931,8 @@ bool TNLPAdapter::CheckDerivatives(
    // Obtain starting point as reference point at which derivative
    // test should be performed
    ScopedArray<Number> xref(nx);
-   tnlp_->get_starting_point(nx, true, xref, false, NULL, NULL, ng, false, NULL);
+   retval = tnlp_->get_starting_point(nx, true, xref, false, NULL, NULL, ng, false, NULL);
+   ASSERT_EXCEPTION(retval, INVALID_TNLP, "get_starting_point returned false in derivative checker");
 
    // Perform a random perturbation.  We need the bounds to make sure
    // they are not violated
-- 
2.43.0


From f0c520bd2a63f6d7e8abc4b14e7df0eda197406a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:30 +0000
Subject: [PATCH 63/75] fix: derivative checker: flag derivatives that are not
 a number

---
 src/Interfaces/IpTNLPAdapter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 89663f3..939560c 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -3059,7 +3059,7 @@ bool TNLPAdapter::CheckDerivatives(
          Number deriv_exact = grad_f[ivar];
          Number rel_error = std::abs(deriv_approx - deriv_exact) / Max(std::abs(deriv_approx), derivative_test_tol_);
          char cflag = ' ';
-         if( rel_error >= derivative_test_tol_ )
+         if( !(rel_error < derivative_test_tol_) )
          {
             cflag = '*';
             nerrors++;
@@ -3090,7 +3090,7 @@ bool TNLPAdapter::CheckDerivatives(
                }
                rel_error = std::abs(deriv_approx - deriv_exact) / Max(std::abs(deriv_approx), derivative_test_tol_);
                cflag = ' ';
-               if( rel_error >= derivative_test_tol_ )
+               if( !(rel_error < derivative_test_tol_) )
                {
                   cflag = '*';
                   nerrors++;
@@ -3237,7 +3237,7 @@ bool TNLPAdapter::CheckDerivatives(
                }
                Number rel_error = std::abs(deriv_approx - deriv_exact) / Max(std::abs(deriv_approx), derivative_test_tol_);
                char cflag = ' ';
-               if( rel_error >= derivative_test_tol_ )
+               if( !(rel_error < derivative_test_tol_) )
                {
                   cflag = '*';
                   nerrors++;
-- 
2.43.0


From f917d4c74cc775a153588305806245df2f6009b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:21 +0000
Subject: [PATCH 64/75] fix: quasi-Newton update in restoration phase: scale
 the proximal term of all pairs

---
 src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp b/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
index 80d510a..e9f28a4 100644
--- a/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
+++ b/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
@@ -1383,15 +1383,16 @@ void LimMemQuasiNewtonUpdater::SetW()
 
 void LimMemQuasiNewtonUpdater::RecalcY(
    Number                       eta,
-   const Vector&                /*DR_x*/,
-   MultiVectorMatrix&           DRS,
+   const Vector&                DR_x,
+   MultiVectorMatrix&           S,
    MultiVectorMatrix&           Ypart,
    SmartPtr<MultiVectorMatrix>& Y
 )
 {
    SmartPtr<const MultiVectorMatrixSpace> mvspace = Ypart.MultiVectorMatrixOwnerSpace();
    Y = mvspace->MakeNewMultiVectorMatrix();
-   Y->AddOneMultiVectorMatrix(eta, DRS, 0.);
+   Y->AddOneMultiVectorMatrix(eta, S, 0.);
+   Y->ScaleRows(DR_x);
    Y->AddOneMultiVectorMatrix(1., Ypart, 1.);
 }
 
-- 
2.43.0


From 97558e7625903d6f09ad3a6ea444609e0a5801c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:21 +0000
Subject: [PATCH 65/75] fix: quasi-Newton update in restoration phase:
 recompute V when eta changes

---
 src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp | 26 +++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp b/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
index e9f28a4..bf68c7d 100644
--- a/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
+++ b/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
@@ -439,17 +439,31 @@ void LimMemQuasiNewtonUpdater::UpdateHessian()
                break;
             }
 
-            // First update V - here only the last column is updated
             DBG_ASSERT(sTy_new > 0.);
-            SmartPtr<Vector> v_new = y_new->MakeNewCopy();
-            v_new->Scal(1. / std::sqrt(sTy_new));
-            if( augment_memory )
+            if( update_for_resto_ )
             {
-               AugmentMultiVector(V_, *v_new);
+               // All columns of Y depend on the current value of eta, so V has to be recomputed
+               SmartPtr<DenseVector> Dinvsqrt = D_->MakeNewDenseVector();
+               Dinvsqrt->Copy(*D_);
+               Dinvsqrt->ElementWiseSqrt();
+               Dinvsqrt->ElementWiseReciprocal();
+               V_ = Y_->MakeNewMultiVectorMatrix();
+               V_->AddOneMultiVectorMatrix(1., *Y_, 0.);
+               V_->ScaleColumns(*Dinvsqrt);
             }
             else
             {
-               ShiftMultiVector(V_, *v_new);
+               // First update V - here only the last column is updated
+               SmartPtr<Vector> v_new = y_new->MakeNewCopy();
+               v_new->Scal(1. / std::sqrt(sTy_new));
+               if( augment_memory )
+               {
+                  AugmentMultiVector(V_, *v_new);
+               }
+               else
+               {
+                  ShiftMultiVector(V_, *v_new);
+               }
             }
 
             // Compute Ltilde = L * diag(D^{-1/2});
-- 
2.43.0


From 34467272e7bc48c0cb0e9f27ee7875eb10edddff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:21 +0000
Subject: [PATCH 66/75] fix: TripletToCSRConverter: handle empty rows between
 nonempty ones

---
 src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp b/src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp
index 4ab2bc5..9cfa1f3 100644
--- a/src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp
+++ b/src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp
@@ -184,9 +184,9 @@ Index TripletToCSRConverter::InitializeConverter(
          nonzeros_compressed_++;
          ja_tmp[nonzeros_compressed_] = jcol;
          ipos_first_tmp[nonzeros_compressed_] = list_iterator->PosTriplet();
-         if( cur_row != irow )
+         while( cur_row != irow )
          {
-            // this is in a new row
+            // this is in a new row (rows in between are empty)
 
             ia_[cur_row] = nonzeros_compressed_;
             cur_row++;
-- 
2.43.0


From 4b46228b3ca78a11c57b8d5544d8284a14d67575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:21 +0000
Subject: [PATCH 67/75] fix: finite differences: do not perturb beyond the
 bounds of narrow variables

---
 src/Interfaces/IpTNLPAdapter.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 939560c..19c962b 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -1692,6 +1692,12 @@ bool TNLPAdapter::Eval_grad_f(
                   // if at upper bound, then change direction towards lower bound
                   this_perturbation = -this_perturbation;
                   full_x_pert[ivar] = xorig + this_perturbation;
+                  if( full_x_pert[ivar] < findiff_x_l_[ivar] )
+                  {
+                     // no room for the full perturbation on either side, so go to the bound that is farther away
+                     full_x_pert[ivar] = findiff_x_u_[ivar] - xorig > xorig - findiff_x_l_[ivar] ? findiff_x_u_[ivar] : findiff_x_l_[ivar];
+                     this_perturbation = full_x_pert[ivar] - xorig;
+                  }
                }
                Number f_pert;
                retvalue = tnlp_->eval_f(n_full_x_, full_x_pert, true, f_pert);
@@ -2798,6 +2804,12 @@ bool TNLPAdapter::internal_eval_jac_g(
                   // if at upper bound, then change direction towards lower bound
                   this_perturbation = -this_perturbation;
                   full_x_pert[ivar] = xorig + this_perturbation;
+                  if( full_x_pert[ivar] < findiff_x_l_[ivar] )
+                  {
+                     // no room for the full perturbation on either side, so go to the bound that is farther away
+                     full_x_pert[ivar] = findiff_x_u_[ivar] - xorig > xorig - findiff_x_l_[ivar] ? findiff_x_u_[ivar] : findiff_x_l_[ivar];
+                     this_perturbation = full_x_pert[ivar] - xorig;
+                  }
                }
                retval = tnlp_->eval_g(n_full_x_, full_x_pert, true, n_full_g_, full_g_pert);
                if( !retval )
-- 
2.43.0


From ba31a6c51aea2a3efd26dfe15b3955c1509b507f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:20 +0000
Subject: [PATCH 68/75] fix: scale initial bound multipliers inversely to the
 variables

---
 src/Algorithm/IpOrigIpoptNLP.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/IpOrigIpoptNLP.cpp b/src/Algorithm/IpOrigIpoptNLP.cpp
index d5b118f..0c59a87 100644
--- a/src/Algorithm/IpOrigIpoptNLP.cpp
+++ b/src/Algorithm/IpOrigIpoptNLP.cpp
@@ -435,7 +435,11 @@ bool OrigIpoptNLP::InitializeStructures(
       z_L->Print(*jnlst_, J_VECTOR, J_INITIALIZATION, "initial z_L unscaled");
       if( NLP_scaling()->have_x_scaling() )
       {
-         z_L = NLP_scaling()->apply_vector_scaling_x_LU_NonConst(*Px_L_, ConstPtr(z_L), *x_space_);
+         // multipliers for the bounds scale inversely to the variables
+         SmartPtr<Vector> tmp_x = x_space_->MakeNew();
+         Px_L_->MultVector(1., *z_L, 0., *tmp_x);
+         tmp_x = NLP_scaling()->unapply_vector_scaling_x_NonConst(ConstPtr(tmp_x));
+         Px_L_->TransMultVector(1., *tmp_x, 0., *z_L);
       }
       if( obj_scal != 1. )
       {
@@ -447,7 +451,11 @@ bool OrigIpoptNLP::InitializeStructures(
       z_U->Print(*jnlst_, J_VECTOR, J_INITIALIZATION, "initial z_U unscaled");
       if( NLP_scaling()->have_x_scaling() )
       {
-         z_U = NLP_scaling()->apply_vector_scaling_x_LU_NonConst(*Px_U_, ConstPtr(z_U), *x_space_);
+         // multipliers for the bounds scale inversely to the variables
+         SmartPtr<Vector> tmp_x = x_space_->MakeNew();
+         Px_U_->MultVector(1., *z_U, 0., *tmp_x);
+         tmp_x = NLP_scaling()->unapply_vector_scaling_x_NonConst(ConstPtr(tmp_x));
+         Px_U_->TransMultVector(1., *tmp_x, 0., *z_U);
       }
       if( obj_scal != 1. )
       {
-- 
2.43.0


From 1c03186c4ade0fe5d13bcc083bb1dff5a2bef0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:20 +0000
Subject: [PATCH 69/75] fix: equilibration-based scaling used the reciprocal of
 the column factors

---
 src/Algorithm/IpEquilibrationScaling.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/IpEquilibrationScaling.cpp b/src/Algorithm/IpEquilibrationScaling.cpp
index 29ac85b..8e0bbb0 100644
--- a/src/Algorithm/IpEquilibrationScaling.cpp
+++ b/src/Algorithm/IpEquilibrationScaling.cpp
@@ -242,7 +242,8 @@ void EquilibrationScaling::DetermineScalingParametersImpl(
    }
    for( Index i = 0; i < nx; i++ )
    {
-      col_scale[i] = std::exp(Number(C[i]));
+      // variables are divided by dx in the scaled problem, so dx is the reciprocal of the column factor
+      col_scale[i] = std::exp(-Number(C[i]));
    }
    delete[] R;
    delete[] C;
-- 
2.43.0


From 9d0015dcc440212a22df035dd088343c2ddc5526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:20 +0000
Subject: [PATCH 70/75] fix: constraint target gradient with an all-zero
 Jacobian gave infinite scaling factors

---
 src/Algorithm/IpGradientScaling.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Algorithm/IpGradientScaling.cpp b/src/Algorithm/IpGradientScaling.cpp
index f4e8252..c07fe19 100644
--- a/src/Algorithm/IpGradientScaling.cpp
+++ b/src/Algorithm/IpGradientScaling.cpp
@@ -166,6 +166,12 @@ void GradientScaling::DetermineScalingParametersImpl(
                dc = NULL;
             }
          }
+         else if( arow_max <= dbl_min )
+         {
+            Jnlst().Printf(J_WARNING, J_INITIALIZATION,
+                           "Gradients of all equality constraints are zero at starting point.  Cannot determine scaling factor based on scaling_constr_target_gradient option.\n");
+            dc = NULL;
+         }
          else
          {
             dc->Set(scaling_constr_target_gradient_ / arow_max);
@@ -213,6 +219,12 @@ void GradientScaling::DetermineScalingParametersImpl(
                dd = NULL;
             }
          }
+         else if( arow_max <= dbl_min )
+         {
+            Jnlst().Printf(J_WARNING, J_INITIALIZATION,
+                           "Gradients of all inequality constraints are zero at starting point.  Cannot determine scaling factor based on scaling_constr_target_gradient option.\n");
+            dd = NULL;
+         }
          else
          {
             dd->Set(scaling_constr_target_gradient_ / arow_max);
-- 
2.43.0


From aee23c7ebc3eed6972aa55ffa8bb87295b496e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:20 +0000
Subject: [PATCH 71/75] fix: TNLPReducer ignored the index style when counting
 kept Jacobian entries

---
 src/Interfaces/IpTNLPReducer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/IpTNLPReducer.cpp b/src/Interfaces/IpTNLPReducer.cpp
index d0a0928..7a28ff6 100644
--- a/src/Interfaces/IpTNLPReducer.cpp
+++ b/src/Interfaces/IpTNLPReducer.cpp
@@ -138,10 +138,11 @@ bool TNLPReducer::get_nlp_info(
       {
          return false;
       }
+      const Index offset = (index_style_orig_ == FORTRAN_STYLE ? 1 : 0);
       nnz_jac_g_reduced_ = 0;
       nnz_jac_g_skipped_ = 0;
       for( Index i = 0; i < nnz_jac_g_orig_; i++ )
-         if( g_keep_map_[iRow[i]] != -1 )
+         if( g_keep_map_[iRow[i] - offset] != -1 )
          {
             nnz_jac_g_reduced_++;
          }
-- 
2.43.0


From 0b51dd2f76f6b0be7b2f416d3052dfdcc487b617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:20 +0000
Subject: [PATCH 72/75] fix: report values of constraints that dependency
 detection removed

---
 src/Interfaces/IpTNLPAdapter.cpp | 35 ++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 19c962b..adf4e4a 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2084,8 +2084,9 @@ void TNLPAdapter::FinalizeSolution(
    }
 
    ScopedArray<Number> full_g(n_full_g_);
-   // TODO:
-   if( c.Dim() + d.Dim() < n_full_g_ )
+   // constraints that have been found to be dependent are in neither c nor d
+   const bool have_all_g = P_c_g_->NCols() + P_d_g_->NCols() == n_full_g_;
+   if( !have_all_g )
    {
       const Number zero = 0.;
       IpBlasCopy(n_full_g_, &zero, 0, full_g, 1);
@@ -2113,6 +2114,19 @@ void TNLPAdapter::FinalizeSolution(
          {
             jnlst_->Printf(J_WARNING, J_INITIALIZATION, "Failed to evaluate gradient of objective or constraints when computing bound multipliers for fixed variables.\n");
          }
+         if( !have_all_g )
+         {
+            // evaluate the constraints to get the values of those that have been taken out
+            if( tnlp_->eval_g(n_full_x_, full_x_, true, n_full_g_, full_g_) )
+            {
+               IpBlasCopy(n_full_g_, full_g_, 1, full_g, 1);
+               ResortG(c, d, full_g, true);
+            }
+            else
+            {
+               jnlst_->Printf(J_WARNING, J_INITIALIZATION, "Failed to evaluate dependent constraints that have been taken out.\n");
+            }
+         }
          break;
       default:
          // if IpoptApplication doesn't provide an actual solution, do not bother to setup good multipliers for fixed variables
@@ -2153,14 +2167,7 @@ void TNLPAdapter::FinalizeSolution(
       }
    }
 
-   tnlp_->finalize_metadata(n_full_x_, var_string_md, var_integer_md, var_numeric_md, n_full_g_, con_string_md,
-                            con_integer_md, con_numeric_md);
-
-   tnlp_->finalize_solution(status, n_full_x_, full_x_, full_z_L, full_z_U, n_full_g_, full_g, full_lambda_, obj_value,
-                            ip_data, ip_cq);
-
-
-   if( c.Dim() + d.Dim() < n_full_g_ )
+   if( !have_all_g )
    {
       // Temporary: Check if we really have a feasible point:
       Number max_viol = 0.;
@@ -2172,10 +2179,16 @@ void TNLPAdapter::FinalizeSolution(
       ASSERT_EXCEPTION(retval, INVALID_TNLP, "get_bounds_info returned false in FinalizeSolution");
       for( Index i = 0; i < n_full_g_; i++ )
       {
-         max_viol = Max(max_viol, full_g_[i] - g_u[i], g_l[i] - full_g_[i]);
+         max_viol = Max(max_viol, full_g[i] - g_u[i], g_l[i] - full_g[i]);
       }
       jnlst_->Printf(J_ITERSUMMARY, J_INITIALIZATION, "Constraint violation for ALL constraints is %e.\n", max_viol);
    }
+
+   tnlp_->finalize_metadata(n_full_x_, var_string_md, var_integer_md, var_numeric_md, n_full_g_, con_string_md,
+                            con_integer_md, con_numeric_md);
+
+   tnlp_->finalize_solution(status, n_full_x_, full_x_, full_z_L, full_z_U, n_full_g_, full_g, full_lambda_, obj_value,
+                            ip_data, ip_cq);
 }
 
 bool TNLPAdapter::IntermediateCallBack(
-- 
2.43.0


From 9bdffda867d9e774a2dd3686f2790602d156496f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:20 +0000
Subject: [PATCH 73/75] fix: replace_bounds passed unsigned initial lower bound
 multipliers

---
 src/Algorithm/IpNLPBoundsRemover.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Algorithm/IpNLPBoundsRemover.cpp b/src/Algorithm/IpNLPBoundsRemover.cpp
index d2babf3..da567ee 100644
--- a/src/Algorithm/IpNLPBoundsRemover.cpp
+++ b/src/Algorithm/IpNLPBoundsRemover.cpp
@@ -220,6 +220,11 @@ bool NLPBoundsRemover::GetStartingPoint(
    }
    bool retval = nlp_->GetStartingPoint(x, need_x, y_c, need_y_c, y_d_orig, need_y_d, z_L_orig, need_y_d, z_U_orig,
                                         need_y_d);
+   if( retval && need_y_d )
+   {
+      // the multipliers of the constraints x >= x_L have the opposite sign of those for the lower bounds
+      z_L_orig->Scal(-1.);
+   }
    return retval;
 }
 
-- 
2.43.0


From d9e440991b52e930aa3a15b78678d98dcc7ea3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:20 +0000
Subject: [PATCH 74/75] fix: ReOptimizeNLP rejected problems solved with
 replace_bounds

---
 src/Interfaces/IpIpoptApplication.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/IpIpoptApplication.cpp b/src/Interfaces/IpIpoptApplication.cpp
index 74b5f82..1457423 100644
--- a/src/Interfaces/IpIpoptApplication.cpp
+++ b/src/Interfaces/IpIpoptApplication.cpp
@@ -587,7 +587,14 @@ ApplicationReturnStatus IpoptApplication::ReOptimizeNLP(
    ASSERT_EXCEPTION(IsValid(alg_), INVALID_WARMSTART, "ReOptimizeNLP called before OptimizeNLP.");
    OrigIpoptNLP* orig_nlp = static_cast<OrigIpoptNLP*>(GetRawPtr(ip_nlp_));
    DBG_ASSERT(dynamic_cast<OrigIpoptNLP*> (GetRawPtr(ip_nlp_)));
-   ASSERT_EXCEPTION(orig_nlp->nlp() == nlp, INVALID_WARMSTART, "ReOptimizeTNLP called for different NLP.")
+   SmartPtr<NLP> curr_nlp = orig_nlp->nlp();
+   // with replace_bounds, the algorithm works on a wrapper of the given NLP
+   NLPBoundsRemover* bounds_remover = dynamic_cast<NLPBoundsRemover*>(GetRawPtr(curr_nlp));
+   if( bounds_remover != NULL )
+   {
+      curr_nlp = bounds_remover->nlp();
+   }
+   ASSERT_EXCEPTION(curr_nlp == nlp, INVALID_WARMSTART, "ReOptimizeTNLP called for different NLP.")
 
    return call_optimize();
 }
-- 
2.43.0


From de35e8b1c2827472811d4f0954d133de4b27c908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:20 +0000
Subject: [PATCH 75/75] fix: least-squares duals used the Jacobian at the point
 before it was pushed into the bounds

---
 src/Algorithm/IpDefaultIterateInitializer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/IpDefaultIterateInitializer.cpp b/src/Algorithm/IpDefaultIterateInitializer.cpp
index 8e36b4f..cc3cb45 100644
--- a/src/Algorithm/IpDefaultIterateInitializer.cpp
+++ b/src/Algorithm/IpDefaultIterateInitializer.cpp
@@ -416,8 +416,8 @@ bool DefaultIterateInitializer::CalculateLeastSquareDuals(
 
    SmartPtr<const SymMatrix> zeroW = IpNLP().uninitialized_h();
    DBG_PRINT_MATRIX(2, "zeroW", *zeroW);
-   SmartPtr<const Matrix> J_c = IpCq().curr_jac_c();
-   SmartPtr<const Matrix> J_d = IpCq().curr_jac_d();
+   SmartPtr<const Matrix> J_c = IpCq().trial_jac_c();
+   SmartPtr<const Matrix> J_d = IpCq().trial_jac_d();
 
    // Compute the entries in Hessian diagonals
    SmartPtr<Vector> Dx = IpData().trial()->x()->MakeNew();
-- 
2.43.0

