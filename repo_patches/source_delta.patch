From 8862f928350400f70679b244df62a065f3f9459d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 01/61] fix: store numeric option values without loss of
 precision

---
 src/Common/IpOptionsList.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Common/IpOptionsList.cpp b/src/Common/IpOptionsList.cpp
index 7aafa04..1882494 100644
--- a/src/Common/IpOptionsList.cpp
+++ b/src/Common/IpOptionsList.cpp
@@ -117,6 +117,11 @@ bool OptionsList::SetNumericValue(
 {
    char buffer[256];
    Snprintf(buffer, 255, "%g", value);
+   if( strtod(buffer, NULL) != value )
+   {
+      // the short representation would change the value
+      Snprintf(buffer, 255, "%.17g", value);
+   }
 
    if( IsValid(reg_options_) )
    {
-- 
2.43.0


From d61857d58eb4485062025ffdaa9a9f7b5cb2c085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 02/61] fix: do not accept NaN for options with bounds

---
 src/Common/IpRegOptions.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Common/IpRegOptions.hpp b/src/Common/IpRegOptions.hpp
index 38ad026..6969ba8 100644
--- a/src/Common/IpRegOptions.hpp
+++ b/src/Common/IpRegOptions.hpp
@@ -557,6 +557,10 @@ public:
    ) const
    {
       DBG_ASSERT(type_ == OT_Number);
+      if( (has_lower_ || has_upper_) && value != value )
+      {
+         return false;  // NaN is not within any bounds
+      }
       if( has_lower_ && ((lower_strict_ == true && value <= lower_) || (lower_strict_ == false && value < lower_)) )
       {
          return false;
-- 
2.43.0


From 64e08255aef15ba0070c353cbdaae178b54b5ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 03/61] fix: refuse empty and out-of-range numbers in options
 files

---
 src/Common/IpOptionsList.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Common/IpOptionsList.cpp b/src/Common/IpOptionsList.cpp
index 1882494..6acc782 100644
--- a/src/Common/IpOptionsList.cpp
+++ b/src/Common/IpOptionsList.cpp
@@ -8,6 +8,7 @@
 #include "IpOptionsList.hpp"
 
 #include <cctype>
+#include <cerrno>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
@@ -762,7 +763,7 @@ bool OptionsList::ReadFromStream(
             }
             char* p_end;
             Number retval = strtod(buffer, &p_end);
-            if( *p_end != '\0' && !isspace(*p_end) )
+            if( p_end == buffer || (*p_end != '\0' && !isspace(*p_end)) )
             {
                delete[] buffer;
                std::string msg = "Option \"" + tag + "\": Double value expected, but non-numeric option value \""
@@ -777,8 +778,10 @@ bool OptionsList::ReadFromStream(
          else if( option->Type() == OT_Integer )
          {
             char* p_end;
-            size_t retval = strtol(value.c_str(), &p_end, 10);
-            if( *p_end != '\0' && !isspace(*p_end) )
+            errno = 0;
+            long retval = strtol(value.c_str(), &p_end, 10);
+            if( p_end == value.c_str() || (*p_end != '\0' && !isspace(*p_end))
+                || errno == ERANGE || static_cast<long>(static_cast<Index>(retval)) != retval )
             {
                std::string msg = "Option \"" + tag + "\": Integer value expected, but non-integer option value \""
                                  + value + "\" found.\n";
-- 
2.43.0


From 8c4cb97d871d6f8fcd3b548e3b4b69a3b17fbc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 04/61] fix: read empty quoted string in options file as empty
 value

---
 src/Common/IpOptionsList.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Common/IpOptionsList.cpp b/src/Common/IpOptionsList.cpp
index 6acc782..f4e096e 100644
--- a/src/Common/IpOptionsList.cpp
+++ b/src/Common/IpOptionsList.cpp
@@ -893,6 +893,12 @@ bool OptionsList::readnexttoken(
       return false;
    }
 
+   // an empty quoted string is an empty token
+   if( inside_quotes && c == '"' )
+   {
+      return true;
+   }
+
    // Now read the token
    while( !is.eof() && (inside_quotes || !isspace(c)) )
    {
-- 
2.43.0


From 92745124f9633ba5f57cc82dccfb28b2ed355758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 05/61] fix: report truncated options files as invalid instead
 of ignoring the error

---
 src/Common/IpOptionsList.cpp          | 12 ++++++++++++
 src/Interfaces/IpIpoptApplication.cpp |  5 ++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/Common/IpOptionsList.cpp b/src/Common/IpOptionsList.cpp
index f4e096e..aea7802 100644
--- a/src/Common/IpOptionsList.cpp
+++ b/src/Common/IpOptionsList.cpp
@@ -713,6 +713,14 @@ bool OptionsList::ReadFromStream(
 
       if( !readnexttoken(is, tag) )
       {
+         if( !tag.empty() )
+         {
+            // the tag starts with a quote that is never closed
+            jnlst.Printf(J_ERROR, J_MAIN,
+                         "Error reading tag \"%s\" from file: missing closing quote.\n", tag.c_str());
+            return false;
+         }
+
          // That's it - end of file reached.
          jnlst.Printf(J_DETAILED, J_MAIN,
                       "Finished reading options from file.\n");
@@ -890,6 +898,10 @@ bool OptionsList::readnexttoken(
 
    if( is.eof() )
    {
+      if( inside_quotes )
+      {
+         token = "\"";   // distinguish unterminated quote from regular end of file
+      }
       return false;
    }
 
diff --git a/src/Interfaces/IpIpoptApplication.cpp b/src/Interfaces/IpIpoptApplication.cpp
index 44525ae..866bf4c 100644
--- a/src/Interfaces/IpIpoptApplication.cpp
+++ b/src/Interfaces/IpIpoptApplication.cpp
@@ -168,7 +168,10 @@ ApplicationReturnStatus IpoptApplication::Initialize(
       if( is.good() )
       {
          // stream exists, read the content
-         options_->ReadFromStream(*jnlst_, is, allow_clobber);
+         if( !options_->ReadFromStream(*jnlst_, is, allow_clobber) )
+         {
+            return Invalid_Option;
+         }
       }
 
       bool no_output;
-- 
2.43.0


From 2abc362b73e976f200a4236180b0dbe67d98b3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 06/61] fix: do not reuse constraint values of a failed
 evaluation

---
 src/Interfaces/IpTNLPAdapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index a782341..0a5a782 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2845,7 +2845,7 @@ bool TNLPAdapter::internal_eval_g(
 
    if( !retval )
    {
-      x_tag_for_jac_g_ = 0;
+      x_tag_for_g_ = 0;
    }
 
    return retval;
-- 
2.43.0


From ecad908aa73a1aec4b6bd7922b145ee86bfd753f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 07/61] fix: announce x as new after finite differences
 evaluated perturbed points

---
 src/Interfaces/IpTNLPAdapter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 0a5a782..a28dda0 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -1802,6 +1802,9 @@ bool TNLPAdapter::Eval_grad_f(
          }
 
          delete[] full_x_pert;
+
+         // the last point passed to the TNLP is a perturbed one, so x is new again in the next call
+         x_tag_for_iterates_ = 0;
       }
    }
 
@@ -2907,6 +2910,9 @@ bool TNLPAdapter::internal_eval_jac_g(
          }
          delete[] full_g_pert;
          delete[] full_x_pert;
+
+         // the last point passed to the TNLP is a perturbed one, so x is new again in the next call
+         x_tag_for_iterates_ = 0;
       }
    }
 
-- 
2.43.0


From fff3339596456b0aa945c534f9dfcf5e6ab14c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 08/61] fix: do not use uninitialized memory in finite
 difference derivatives

---
 src/Interfaces/IpTNLPAdapter.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index a28dda0..64ae091 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -1799,6 +1799,11 @@ bool TNLPAdapter::Eval_grad_f(
 
                full_x_pert[ivar] = xorig;
             }
+            else
+            {
+               // variable cannot be perturbed, so do not leave the entry uninitialized
+               values[i] = 0.;
+            }
          }
 
          delete[] full_x_pert;
@@ -2907,6 +2912,14 @@ bool TNLPAdapter::internal_eval_jac_g(
                }
                full_x_pert[ivar] = xorig;
             }
+            else
+            {
+               // variable cannot be perturbed, so do not leave the entries uninitialized
+               for( Index i = findiff_jac_ia_[ivar]; i < findiff_jac_ia_[ivar + 1]; i++ )
+               {
+                  jac_g_[findiff_jac_postriplet_[i]] = 0.;
+               }
+            }
          }
          delete[] full_g_pert;
          delete[] full_x_pert;
@@ -2971,7 +2984,7 @@ void TNLPAdapter::initialize_findiff_jac(
    }
    else
    {
-      memset(findiff_jac_ia_, 0, n_full_x_ * sizeof(Index));
+      memset(findiff_jac_ia_, 0, (n_full_x_ + 1) * sizeof(Index));
    }
    const Index* ja = findiff_jac_converter->JA();
    for( Index i = 0; i < findiff_jac_nnz_; i++ )
-- 
2.43.0


From e78554415ebd0180245f689788a9d9544b0f0720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 09/61] fix: keep x announced as new if an evaluation was
 answered without calling the TNLP

---
 src/Interfaces/IpTNLPAdapter.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 64ae091..2d83936 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2844,6 +2844,11 @@ bool TNLPAdapter::internal_eval_g(
    if( x_tag_for_g_ == x_tag_for_iterates_ )
    {
       // already calculated!
+      if( new_x )
+      {
+         // x was not passed to the TNLP, so it is still new in the next call
+         x_tag_for_iterates_ = 0;
+      }
       return true;
    }
 
@@ -2866,6 +2871,11 @@ bool TNLPAdapter::internal_eval_jac_g(
    if( x_tag_for_jac_g_ == x_tag_for_iterates_ )
    {
       // already calculated!
+      if( new_x )
+      {
+         // x was not passed to the TNLP, so it is still new in the next call
+         x_tag_for_iterates_ = 0;
+      }
       return true;
    }
 
-- 
2.43.0


From 3212455a2ef5f11630a128f2966486632dae9925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 10/61] fix: report bound multipliers of fixed variables also
 when a time limit was hit

---
 src/Interfaces/IpTNLPAdapter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 2d83936..043f72a 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2188,6 +2188,8 @@ void TNLPAdapter::FinalizeSolution(
    {
       case SUCCESS:
       case MAXITER_EXCEEDED:
+      case CPUTIME_EXCEEDED:
+      case WALLTIME_EXCEEDED:
       case STOP_AT_TINY_STEP:
       case STOP_AT_ACCEPTABLE_POINT:
       case LOCAL_INFEASIBILITY:
-- 
2.43.0


From ada179675fa12896b2a073b6fe2f469031ed981b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 11/61] fix: announce final point as new if it is not the last
 evaluated one

---
 src/Interfaces/IpTNLPAdapter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 043f72a..73a920d 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2115,7 +2115,11 @@ void TNLPAdapter::FinalizeSolution(
 {
    DBG_START_METH("TNLPAdapter::FinalizeSolution", dbg_verbosity);
 
-   update_local_x(x);
+   if( update_local_x(x) )
+   {
+      // x has not been passed to the TNLP yet, so it is still new in the next call
+      x_tag_for_iterates_ = 0;
+   }
    update_local_lambda(y_c, y_d);
 
    ResortX(x, full_x_);
-- 
2.43.0


From dd1038fc7752b77e6da55c045d0438f1c727156e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 12/61] fix: report values of dependent constraints and do not
 call TNLP after finalize_solution

---
 src/Interfaces/IpTNLPAdapter.cpp | 56 ++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 73a920d..946de26 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2178,11 +2178,38 @@ void TNLPAdapter::FinalizeSolution(
    }
 
    Number* full_g = new Number[n_full_g_];
-   // TODO:
-   if( c.Dim() + d.Dim() < n_full_g_ )
+   if( P_c_g_->NCols() + P_d_g_->NCols() < n_full_g_ )
    {
-      const Number zero = 0.;
-      IpBlasCopy(n_full_g_, &zero, 0, full_g, 1);
+      // dependent constraints that were taken out are neither in c nor d, so get their values from the TNLP
+      bool new_x = update_local_x(x);
+      if( internal_eval_g(new_x) )
+      {
+         IpBlasCopy(n_full_g_, full_g_, 1, full_g, 1);
+
+         // Temporary: Check if we really have a feasible point:
+         Number max_viol = 0.;
+         Number* x_l = new Number[n_full_x_];
+         Number* x_u = new Number[n_full_x_];
+         Number* g_l = new Number[n_full_g_];
+         Number* g_u = new Number[n_full_g_];
+         if( tnlp_->get_bounds_info(n_full_x_, x_l, x_u, n_full_g_, g_l, g_u) )
+         {
+            for( Index i = 0; i < n_full_g_; i++ )
+            {
+               max_viol = Max(max_viol, full_g_[i] - g_u[i], g_l[i] - full_g_[i]);
+            }
+            jnlst_->Printf(J_ITERSUMMARY, J_INITIALIZATION, "Constraint violation for ALL constraints is %e.\n", max_viol);
+         }
+         delete[] x_l;
+         delete[] x_u;
+         delete[] g_l;
+         delete[] g_u;
+      }
+      else
+      {
+         const Number zero = 0.;
+         IpBlasCopy(n_full_g_, &zero, 0, full_g, 1);
+      }
    }
    ResortG(c, d, full_g, true);
 
@@ -2259,27 +2286,6 @@ void TNLPAdapter::FinalizeSolution(
    full_z_U = NULL;
    delete[] full_g;
    full_g = NULL;
-
-   if( c.Dim() + d.Dim() < n_full_g_ )
-   {
-      // Temporary: Check if we really have a feasible point:
-      Number max_viol = 0.;
-      Number* x_l = new Number[n_full_x_];
-      Number* x_u = new Number[n_full_x_];
-      Number* g_l = new Number[n_full_g_];
-      Number* g_u = new Number[n_full_g_];
-      bool retval = tnlp_->get_bounds_info(n_full_x_, x_l, x_u, n_full_g_, g_l, g_u);
-      ASSERT_EXCEPTION(retval, INVALID_TNLP, "get_bounds_info returned false in FinalizeSolution");
-      for( Index i = 0; i < n_full_g_; i++ )
-      {
-         max_viol = Max(max_viol, full_g_[i] - g_u[i], g_l[i] - full_g_[i]);
-      }
-      jnlst_->Printf(J_ITERSUMMARY, J_INITIALIZATION, "Constraint violation for ALL constraints is %e.\n", max_viol);
-      delete[] x_l;
-      delete[] x_u;
-      delete[] g_l;
-      delete[] g_u;
-   }
 }
 
 bool TNLPAdapter::IntermediateCallBack(
-- 
2.43.0


From 606cf2baf5475c6d7aa84af508ab7303c2228e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 13/61] fix: do not dereference missing affine step in Mehrotra
 algorithm

---
 src/Algorithm/IpPDSearchDirCalc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/IpPDSearchDirCalc.cpp b/src/Algorithm/IpPDSearchDirCalc.cpp
index 7df9903..c228c1b 100644
--- a/src/Algorithm/IpPDSearchDirCalc.cpp
+++ b/src/Algorithm/IpPDSearchDirCalc.cpp
@@ -78,10 +78,10 @@ bool PDSearchDirCalculator::ComputeSearchDirection()
       rhs->Set_y_c(*IpCq().curr_c());
       rhs->Set_y_d(*IpCq().curr_d_minus_s());
       Index nbounds = IpNLP().x_L()->Dim() + IpNLP().x_U()->Dim() + IpNLP().d_L()->Dim() + IpNLP().d_U()->Dim();
-      if( nbounds > 0 && mehrotra_algorithm_ )
+      if( nbounds > 0 && mehrotra_algorithm_ && IpData().HaveAffineDeltas() )
       {
          // set up the right hand side a la Mehrotra
-         DBG_ASSERT(IpData().HaveAffineDeltas());
+         // (there is no affine step if the mu update did not call the probing oracle, e.g., in fixed mu mode)
          DBG_ASSERT(!IpData().HaveDeltas());
          const SmartPtr<const IteratesVector> delta_aff = IpData().delta_aff();
 
-- 
2.43.0


From 31b45ddf92bd7bd3fbe36eff77ed915aef4e0b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:23 +0000
Subject: [PATCH 14/61] fix: gradient of Lagrangian w.r.t. fixed variables
 treated as constraints in get_curr_violations

---
 src/Interfaces/IpTNLP.cpp | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/src/Interfaces/IpTNLP.cpp b/src/Interfaces/IpTNLP.cpp
index 66b6067..80fc46d 100644
--- a/src/Interfaces/IpTNLP.cpp
+++ b/src/Interfaces/IpTNLP.cpp
@@ -894,25 +894,8 @@ bool TNLP::get_curr_violations(
       // such that the Gradient of the Lagrangian will be zero, so leaving them at 0 is correct here
       tnlp_adapter->ResortX(*curr_grad_lag_x(ip_data, ip_cq, orignlp, restonlp, scaled), grad_lag_x, false);
 
-      // if fixed_variable_treatment is make_constraint, then fixed variable contribute y_c*x to the Lagrangian
-      // however, we want to get -z_L + z_U
-      // using z_L = -y_c^-, z_U = y_c^+, this means to add -z_L + z_U - y_c x = y_c - y_c x = y_c (1-x)
-      if( n_x_fixed > 0 && fixed_variable_treatment == TNLPAdapter::MAKE_CONSTRAINT )
-      {
-         SmartPtr<const DenseVector> y_c = curr_y_c(ip_data, ip_cq, orignlp, restonlp, scaled);
-         const Number* c_rhs = tnlp_adapter->GetC_Rhs();
-         DBG_ASSERT(y_c->Dim() >= n_x_fixed);
-         if( y_c->IsHomogeneous() )
-            for( Index i = 0; i < n_x_fixed; ++i )
-            {
-               grad_lag_x[x_fixed_map[i]] += y_c->Scalar() * (1.0 - c_rhs[y_c->Dim() - n_x_fixed + i]);
-            }
-         else
-            for( Index i = 0; i < n_x_fixed; ++i )
-            {
-               grad_lag_x[x_fixed_map[i]] += y_c->Values()[y_c->Dim() - n_x_fixed + i] * (1.0 - c_rhs[y_c->Dim() - n_x_fixed + i]);
-            }
-      }
+      // if fixed_variable_treatment is make_constraint, then fixed variables contribute y_c to the gradient of the Lagrangian
+      // since z_L = y_c^- and z_U = y_c^+, this is already the -z_L + z_U that we want to have here
    }
 
    if( nlp_constraint_violation != NULL || compl_g != NULL )
-- 
2.43.0


From 2d3e591e2df2a3f3281175486a404fbfc07f8f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:09 +0000
Subject: [PATCH 15/61] fix: scale constraint sides component-wise right in
 get_curr_violations

---
 src/Interfaces/IpTNLP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/IpTNLP.cpp b/src/Interfaces/IpTNLP.cpp
index 80fc46d..380997e 100644
--- a/src/Interfaces/IpTNLP.cpp
+++ b/src/Interfaces/IpTNLP.cpp
@@ -914,7 +914,7 @@ bool TNLP::get_curr_violations(
          // orig_d_L is unscaled, but we need the scaled one below (because d is scaled)
          if( orignlp->NLP_scaling()->have_d_scaling() )
          {
-            d_L = orignlp->NLP_scaling()->apply_vector_scaling_d_NonConst(d_L);
+            d_L = orignlp->NLP_scaling()->apply_vector_scaling_d_LU(*orignlp->Pd_L(), d_L, *d->OwnerSpace());
          }
       }
       else // if no relaxation, then orig_d_L() returns NULL, use d_L instead
@@ -949,7 +949,7 @@ bool TNLP::get_curr_violations(
          // orig_d_U is unscaled, but we need the scaled one below (because d is scaled)
          if( orignlp->NLP_scaling()->have_d_scaling() )
          {
-            d_U = orignlp->NLP_scaling()->apply_vector_scaling_d_NonConst(d_U);
+            d_U = orignlp->NLP_scaling()->apply_vector_scaling_d_LU(*orignlp->Pd_U(), d_U, *d->OwnerSpace());
          }
       }
       else // if no relaxation, then orig_d_U() returns NULL, use d_U instead
-- 
2.43.0


From cfcb8b18af9f6f6a8c1bfa9f31c93f1dab7b47a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:39 +0000
Subject: [PATCH 16/61] fix: call finalize_solution also if solve ended with an
 internal error

---
 src/Interfaces/IpIpoptApplication.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Interfaces/IpIpoptApplication.cpp b/src/Interfaces/IpIpoptApplication.cpp
index 866bf4c..c89b530 100644
--- a/src/Interfaces/IpIpoptApplication.cpp
+++ b/src/Interfaces/IpIpoptApplication.cpp
@@ -818,7 +818,6 @@ ApplicationReturnStatus IpoptApplication::call_optimize()
          retValue = Internal_Error;
          jnlst_->Printf(J_SUMMARY, J_MAIN,
                         "\nEXIT: INTERNAL ERROR: Unknown SolverReturn value - Notify IPOPT Authors.\n");
-         return retValue;
       }
 
       if( status != INVALID_NUMBER_DETECTED )
-- 
2.43.0


From 71f7fa0b14990c7decae89a6e2d4b24ed236ca91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 17/61] fix: set reference values for filter when restoration
 is called as fallback

---
 src/Algorithm/IpFilterLSAcceptor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Algorithm/IpFilterLSAcceptor.cpp b/src/Algorithm/IpFilterLSAcceptor.cpp
index bd381a2..6ba41b5 100644
--- a/src/Algorithm/IpFilterLSAcceptor.cpp
+++ b/src/Algorithm/IpFilterLSAcceptor.cpp
@@ -893,6 +893,11 @@ char FilterLSAcceptor::UpdateForNextIteration(Number alpha_primal_test)
 
 void FilterLSAcceptor::PrepareRestoPhaseStart()
 {
+   // If the restoration phase is called as fallback, then no line search
+   // has been initialized for the current iterate
+   reference_theta_ = IpCq().curr_constraint_violation();
+   reference_barr_ = IpCq().curr_barrier_obj();
+
    AugmentFilter();
 }
 
-- 
2.43.0


From 2d6d7629d5d97aea030668771ab33f78343ea48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 18/61] fix: do not look at constraint values of a failed
 evaluation

---
 src/Algorithm/IpOrigIpoptNLP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/IpOrigIpoptNLP.cpp b/src/Algorithm/IpOrigIpoptNLP.cpp
index 0d73b65..09fb0de 100644
--- a/src/Algorithm/IpOrigIpoptNLP.cpp
+++ b/src/Algorithm/IpOrigIpoptNLP.cpp
@@ -580,7 +580,7 @@ SmartPtr<const Vector> OrigIpoptNLP::c(
          timing_statistics_.c_eval_time().End();
          if( !success || !IsFiniteNumber(unscaled_c->Nrm2()) )
          {
-            if( check_derivatives_for_naninf_ && !IsFiniteNumber(unscaled_c->Nrm2()) )
+            if( success && check_derivatives_for_naninf_ )
             {
                jnlst_->Printf(J_WARNING, J_NLP, "The equality constraints contain an invalid number\n");
                unscaled_c->Print(*jnlst_, J_MOREDETAILED, J_MAIN, "unscaled_c");
@@ -629,7 +629,7 @@ SmartPtr<const Vector> OrigIpoptNLP::d(
          DBG_PRINT_VECTOR(2, "unscaled_d", *unscaled_d);
          if( !success || !IsFiniteNumber(unscaled_d->Nrm2()) )
          {
-            if( check_derivatives_for_naninf_ && !IsFiniteNumber(unscaled_d->Nrm2()) )
+            if( success && check_derivatives_for_naninf_ )
             {
                jnlst_->Printf(J_WARNING, J_NLP, "The inequality constraints contain an invalid number\n");
                unscaled_d->Print(*jnlst_, J_MOREDETAILED, J_MAIN, "unscaled_d");
-- 
2.43.0


From 3c13375c851ab415dbd98579390822bfe26d3cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 19/61] fix: do not report success to finalize_solution if an
 exception ended the solve

---
 src/Interfaces/IpIpoptApplication.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Interfaces/IpIpoptApplication.cpp b/src/Interfaces/IpIpoptApplication.cpp
index c89b530..1cc520d 100644
--- a/src/Interfaces/IpIpoptApplication.cpp
+++ b/src/Interfaces/IpIpoptApplication.cpp
@@ -845,6 +845,7 @@ ApplicationReturnStatus IpoptApplication::call_optimize()
       exc.ReportException(*jnlst_, J_ERROR);
       jnlst_->Printf(J_SUMMARY, J_MAIN, "\nEXIT: Library loading failure.\n");
       retValue = Invalid_Option;
+      status = INVALID_OPTION;
    }
    catch( INCONSISTENT_BOUNDS& exc )
    {
@@ -858,6 +859,7 @@ ApplicationReturnStatus IpoptApplication::call_optimize()
       exc.ReportException(*jnlst_, J_ERROR);
       jnlst_->Printf(J_SUMMARY, J_MAIN, "\nEXIT: Some uncaught Ipopt exception encountered.\n");
       retValue = Unrecoverable_Exception;
+      status = INTERNAL_ERROR;
    }
    catch( std::bad_alloc& )
    {
@@ -878,6 +880,7 @@ ApplicationReturnStatus IpoptApplication::call_optimize()
          IpoptException exc("Unknown Exception caught in Ipopt", "Unknown File", -1);
          exc.ReportException(*jnlst_, J_ERROR);
          retValue = NonIpopt_Exception_Thrown;
+         status = INTERNAL_ERROR;
       }
       else
       {
-- 
2.43.0


From 5ff9c75b0b078c4a222b9e248a15bb926468e69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:41 +0000
Subject: [PATCH 20/61] fix: set reference values for penalty line search when
 restoration is called as fallback

---
 src/Algorithm/IpPenaltyLSAcceptor.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/IpPenaltyLSAcceptor.cpp b/src/Algorithm/IpPenaltyLSAcceptor.cpp
index 814dd41..96b63a2 100644
--- a/src/Algorithm/IpPenaltyLSAcceptor.cpp
+++ b/src/Algorithm/IpPenaltyLSAcceptor.cpp
@@ -68,6 +68,7 @@ bool PenaltyLSAcceptor::InitializeImpl(
    options.GetNumericValue("nu_inc", nu_inc_, prefix);
    options.GetNumericValue("eta_phi", eta_, prefix);
    options.GetNumericValue("rho", rho_, prefix);
+   resto_pred_ = -1.;
 
    // The following options have been declared in FilterLSAcceptor
    options.GetIntegerValue("max_soc", max_soc_, prefix);
@@ -429,7 +430,18 @@ char PenaltyLSAcceptor::UpdateForNextIteration(
 }
 
 void PenaltyLSAcceptor::PrepareRestoPhaseStart()
-{ }
+{
+   // If the restoration phase is called as fallback, then no line search
+   // has been initialized for the current iterate
+   reference_theta_ = IpCq().curr_constraint_violation();
+   reference_barr_ = IpCq().curr_barrier_obj();
+
+   // no trial point has been checked so far, so just ask for any decrease
+   if( resto_pred_ < 0. )
+   {
+      resto_pred_ = 0.;
+   }
+}
 
 bool PenaltyLSAcceptor::IsAcceptableToCurrentIterate(
    Number trial_barr,
-- 
2.43.0


From 7bcf0f3ee77c2dc9be8f20dc2d48850ad6979807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:41 +0000
Subject: [PATCH 21/61] fix: initialize penalty parameters of Chen-Goldfarb
 method

---
 src/contrib/CGPenalty/IpCGPenaltyData.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/contrib/CGPenalty/IpCGPenaltyData.cpp b/src/contrib/CGPenalty/IpCGPenaltyData.cpp
index 9f93162..5cd9dff 100644
--- a/src/contrib/CGPenalty/IpCGPenaltyData.cpp
+++ b/src/contrib/CGPenalty/IpCGPenaltyData.cpp
@@ -28,7 +28,9 @@ bool CGPenaltyData::Initialize(
    initialize_called_ = true;
 
    penalty_initialized_ = false;
+   curr_penalty_ = 1.;
    kkt_penalty_initialized_ = false;
+   curr_kkt_penalty_ = 1.;   // may be used by an initial perturbation before the search direction calculator sets it
    curr_penalty_pert_ = 0.;
    max_alpha_x_ = 1.;
    never_try_pure_Newton_ = false;
-- 
2.43.0


From 536b3a40a28a74c60501465f9f24865ea652198c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:38 +0000
Subject: [PATCH 22/61] fix: scale initial bound multipliers inversely to the
 variable scaling factors

A warm start under variable scaling (user-scaling or equilibration-based)
multiplied the user's bound multipliers by the variable scaling factors
instead of dividing by them, so that the first iterate did not have the
multipliers that the user supplied.
---
 src/Algorithm/IpOrigIpoptNLP.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/IpOrigIpoptNLP.cpp b/src/Algorithm/IpOrigIpoptNLP.cpp
index 09fb0de..95b5e30 100644
--- a/src/Algorithm/IpOrigIpoptNLP.cpp
+++ b/src/Algorithm/IpOrigIpoptNLP.cpp
@@ -434,7 +434,11 @@ bool OrigIpoptNLP::InitializeStructures(
       z_L->Print(*jnlst_, J_VECTOR, J_INITIALIZATION, "initial z_L unscaled");
       if( NLP_scaling()->have_x_scaling() )
       {
-         z_L = NLP_scaling()->apply_vector_scaling_x_LU_NonConst(*Px_L_, ConstPtr(z_L), *x_space_);
+         // multipliers of variable bounds scale inversely to the variables
+         SmartPtr<Vector> tmp_x = x_space_->MakeNew();
+         Px_L_->MultVector(1., *z_L, 0., *tmp_x);
+         tmp_x = NLP_scaling()->unapply_vector_scaling_x_NonConst(ConstPtr(tmp_x));
+         Px_L_->TransMultVector(1., *tmp_x, 0., *z_L);
       }
       if( obj_scal != 1. )
       {
@@ -446,7 +450,11 @@ bool OrigIpoptNLP::InitializeStructures(
       z_U->Print(*jnlst_, J_VECTOR, J_INITIALIZATION, "initial z_U unscaled");
       if( NLP_scaling()->have_x_scaling() )
       {
-         z_U = NLP_scaling()->apply_vector_scaling_x_LU_NonConst(*Px_U_, ConstPtr(z_U), *x_space_);
+         // multipliers of variable bounds scale inversely to the variables
+         SmartPtr<Vector> tmp_x = x_space_->MakeNew();
+         Px_U_->MultVector(1., *z_U, 0., *tmp_x);
+         tmp_x = NLP_scaling()->unapply_vector_scaling_x_NonConst(ConstPtr(tmp_x));
+         Px_U_->TransMultVector(1., *tmp_x, 0., *z_U);
       }
       if( obj_scal != 1. )
       {
-- 
2.43.0


From b083dc10180aaef6859e8051634586cdeedc182f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:38 +0000
Subject: [PATCH 23/61] fix: do not compute infinite scaling factors for
 constraints with zero gradients

With nlp_scaling_constr_target_gradient, a zero (or empty, if all variables
are fixed) Jacobian led to an infinite scaling factor and then to NaN
constraint values in a solution reported as optimal.
---
 src/Algorithm/IpGradientScaling.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/IpGradientScaling.cpp b/src/Algorithm/IpGradientScaling.cpp
index f4e8252..4375139 100644
--- a/src/Algorithm/IpGradientScaling.cpp
+++ b/src/Algorithm/IpGradientScaling.cpp
@@ -166,10 +166,15 @@ void GradientScaling::DetermineScalingParametersImpl(
                dc = NULL;
             }
          }
-         else
+         else if( arow_max > dbl_min )
          {
             dc->Set(scaling_constr_target_gradient_ / arow_max);
          }
+         else
+         {
+            // all gradients are zero, so no scaling factor can give them the target size
+            dc = NULL;
+         }
          if( IsValid(dc) && scaling_min_value_ > 0. )
          {
             SmartPtr<Vector> tmp = dc->MakeNew();
@@ -213,10 +218,15 @@ void GradientScaling::DetermineScalingParametersImpl(
                dd = NULL;
             }
          }
-         else
+         else if( arow_max > dbl_min )
          {
             dd->Set(scaling_constr_target_gradient_ / arow_max);
          }
+         else
+         {
+            // all gradients are zero, so no scaling factor can give them the target size
+            dd = NULL;
+         }
          if( IsValid(dd) && scaling_min_value_ > 0. )
          {
             SmartPtr<Vector> tmp = dd->MakeNew();
-- 
2.43.0


From 3e2d75d0b784ae9e8a389599424ded8f90433fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:54 +0000
Subject: [PATCH 24/61] fix: clear the piecewise penalty list and best iterate
 when CGPenaltyLSAcceptor is initialized

A re-optimization with line_search_method=cg-penalty inherited both from
the previous solve, so its result depended on what was solved before.
---
 src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp b/src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp
index 8975527..5e4ac0a 100644
--- a/src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp
+++ b/src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp
@@ -213,6 +213,8 @@ bool CGPenaltyLSAcceptor::InitializeImpl(
    CGPenData().SetPenaltyUninitialized();
    ls_counter_ = 0;
    best_KKT_error_ = -1.;
+   best_iterate_ = NULL;
+   PiecewisePenalty_.Clear();
    accepted_by_Armijo_ = true;
    //never_do_restor_ = true;
    jump_for_tiny_step_ = 0;
-- 
2.43.0


From 90be9328575794bb82950d1e2c7fb55d3535a53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:01 +0000
Subject: [PATCH 25/61] fix: forget algorithm and statistics of the previous
 solve if OptimizeNLP fails to set up

Statistics() reported the previous solve and ReOptimizeNLP combined the
old algorithm with the new data.
---
 src/Interfaces/IpIpoptApplication.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Interfaces/IpIpoptApplication.cpp b/src/Interfaces/IpIpoptApplication.cpp
index 1cc520d..8a26714 100644
--- a/src/Interfaces/IpIpoptApplication.cpp
+++ b/src/Interfaces/IpIpoptApplication.cpp
@@ -503,6 +503,10 @@ ApplicationReturnStatus IpoptApplication::OptimizeNLP(
 {
    ApplicationReturnStatus retValue = Internal_Error;
 
+   // if the setup fails, then there is no algorithm to re-optimize with and there are no statistics
+   alg_ = NULL;
+   statistics_ = NULL;
+
    // Prepare internal data structures of the algorithm
    try
    {
-- 
2.43.0


From a72d982ba12f16cd95f05a662343199a15148cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:01 +0000
Subject: [PATCH 26/61] fix: allow re-optimization with option replace_bounds

ReOptimizeNLP compared the given NLP with the wrapper that OptimizeNLP
put around it and threw INVALID_WARMSTART.
---
 src/Interfaces/IpIpoptApplication.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/IpIpoptApplication.cpp b/src/Interfaces/IpIpoptApplication.cpp
index 8a26714..2f16cdf 100644
--- a/src/Interfaces/IpIpoptApplication.cpp
+++ b/src/Interfaces/IpIpoptApplication.cpp
@@ -591,7 +591,14 @@ ApplicationReturnStatus IpoptApplication::ReOptimizeNLP(
    ASSERT_EXCEPTION(IsValid(alg_), INVALID_WARMSTART, "ReOptimizeNLP called before OptimizeNLP.");
    OrigIpoptNLP* orig_nlp = static_cast<OrigIpoptNLP*>(GetRawPtr(ip_nlp_));
    DBG_ASSERT(dynamic_cast<OrigIpoptNLP*> (GetRawPtr(ip_nlp_)));
-   ASSERT_EXCEPTION(orig_nlp->nlp() == nlp, INVALID_WARMSTART, "ReOptimizeTNLP called for different NLP.")
+   SmartPtr<NLP> optimized_nlp = orig_nlp->nlp();
+   // with option replace_bounds, OptimizeNLP wrapped the given NLP
+   NLPBoundsRemover* bounds_remover = dynamic_cast<NLPBoundsRemover*>(GetRawPtr(optimized_nlp));
+   if( bounds_remover != NULL && nlp != optimized_nlp )
+   {
+      optimized_nlp = bounds_remover->nlp();
+   }
+   ASSERT_EXCEPTION(optimized_nlp == nlp, INVALID_WARMSTART, "ReOptimizeTNLP called for different NLP.")
 
    return call_optimize();
 }
-- 
2.43.0


From 43deaa328b6729da1eedddaedf98db1e40f5015d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:19 +0000
Subject: [PATCH 27/61] fix: warm_start_target_mu dereferences the iterate
 container that set_trial() took over

---
 src/Algorithm/IpWarmStartIterateInitializer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Algorithm/IpWarmStartIterateInitializer.cpp b/src/Algorithm/IpWarmStartIterateInitializer.cpp
index 0b0491b..feef47f 100644
--- a/src/Algorithm/IpWarmStartIterateInitializer.cpp
+++ b/src/Algorithm/IpWarmStartIterateInitializer.cpp
@@ -274,6 +274,8 @@ bool WarmStartIterateInitializer::SetInitialIterates()
       // Set the trial pointers to new_x and new_s. The process_target_mu
       // methods below create new vectors in new_x and new_s and do not alter
       // the existing ones.
+      // (set_trial() takes over init_vec, so a new container is needed each time)
+      init_vec = curr->MakeNewContainer();
       init_vec->Set_x(*new_x);
       init_vec->Set_s(*new_s);
       IpData().set_trial(init_vec);
@@ -286,6 +288,7 @@ bool WarmStartIterateInitializer::SetInitialIterates()
                         *IpNLP().Pd_U(), new_s, new_v_U);
 
       // Now submit the full modified point
+      init_vec = IpData().trial()->MakeNewContainer();
       init_vec->Set_x(*new_x);
       init_vec->Set_s(*new_s);
       // y_c and y_d currently contain a copy of curr()->y_c...
-- 
2.43.0


From a39ce80b3037368ea00585a593f6d09b0f4811c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:19 +0000
Subject: [PATCH 28/61] fix: unset warm_start_(slack_)bound_push/frac use their
 documented defaults instead of those of bound_push/frac

---
 .../IpWarmStartIterateInitializer.cpp         | 35 ++++++++-----------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/Algorithm/IpWarmStartIterateInitializer.cpp b/src/Algorithm/IpWarmStartIterateInitializer.cpp
index feef47f..d86bc76 100644
--- a/src/Algorithm/IpWarmStartIterateInitializer.cpp
+++ b/src/Algorithm/IpWarmStartIterateInitializer.cpp
@@ -79,33 +79,28 @@ bool WarmStartIterateInitializer::InitializeImpl(
    const std::string& prefix
 )
 {
-   if( !options.GetNumericValue("warm_start_bound_push", warm_start_bound_push_, prefix) )
+   // if a warm_start option has not been set, then use the corresponding option for the
+   // regular initializer, if that one has been set, and the default of the warm_start option otherwise
+   Number value;
+   if( !options.GetNumericValue("warm_start_bound_push", warm_start_bound_push_, prefix)
+       && options.GetNumericValue("bound_push", value, prefix) )
    {
-      options.GetNumericValue("bound_push", warm_start_bound_push_, prefix);
+      warm_start_bound_push_ = value;
    }
-   if( !options.GetNumericValue("warm_start_bound_frac", warm_start_bound_frac_, prefix) )
+   if( !options.GetNumericValue("warm_start_bound_frac", warm_start_bound_frac_, prefix)
+       && options.GetNumericValue("bound_frac", value, prefix) )
    {
-      options.GetNumericValue("bound_frac", warm_start_bound_frac_, prefix);
+      warm_start_bound_frac_ = value;
    }
-   if( !options.GetNumericValue("warm_start_slack_bound_push", warm_start_slack_bound_push_, prefix) )
+   if( !options.GetNumericValue("warm_start_slack_bound_push", warm_start_slack_bound_push_, prefix)
+       && options.GetNumericValue("bound_push", value, prefix) )
    {
-      if( !options.GetNumericValue("bound_push", warm_start_slack_bound_push_, prefix) )
-      {
-         if( !options.GetNumericValue("warm_start_slack_bound_push", warm_start_slack_bound_push_, prefix) )
-         {
-            options.GetNumericValue("bound_push", warm_start_slack_bound_push_, prefix);
-         }
-      }
+      warm_start_slack_bound_push_ = value;
    }
-   if( !options.GetNumericValue("warm_start_slack_bound_frac", warm_start_slack_bound_frac_, prefix) )
+   if( !options.GetNumericValue("warm_start_slack_bound_frac", warm_start_slack_bound_frac_, prefix)
+       && options.GetNumericValue("bound_frac", value, prefix) )
    {
-      if( !options.GetNumericValue("bound_frac", warm_start_slack_bound_frac_, prefix) )
-      {
-         if( !options.GetNumericValue("warm_start_slack_bound_frac", warm_start_slack_bound_frac_, prefix) )
-         {
-            options.GetNumericValue("bound_frac", warm_start_slack_bound_frac_, prefix);
-         }
-      }
+      warm_start_slack_bound_frac_ = value;
    }
    options.GetNumericValue("warm_start_mult_bound_push", warm_start_mult_bound_push_, prefix);
    options.GetNumericValue("warm_start_mult_init_max", warm_start_mult_init_max_, prefix);
-- 
2.43.0


From aee0c8b263b82dec8d8ba7d67134b74e89058bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:19 +0000
Subject: [PATCH 29/61] fix: least_square_init_primal computes a point that
 satisfies the linearized constraints, not a step

---
 src/Algorithm/IpDefaultIterateInitializer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/IpDefaultIterateInitializer.cpp b/src/Algorithm/IpDefaultIterateInitializer.cpp
index 226e2cf..4396e12 100644
--- a/src/Algorithm/IpDefaultIterateInitializer.cpp
+++ b/src/Algorithm/IpDefaultIterateInitializer.cpp
@@ -364,8 +364,11 @@ bool DefaultIterateInitializer::CalculateLeastSquarePrimals(
    SmartPtr<Vector> rhs_s = s_ls.MakeNew();
    rhs_s->Set(0.);
 
-   SmartPtr<const Vector> rhs_c = IpCq().curr_c();
-   SmartPtr<const Vector> rhs_d = IpCq().curr_d();
+   // x_ls and s_ls are points, not steps, i.e., we want J_c*x_ls = J_c*x - c(x) and J_d*x_ls - s_ls = J_d*x - d(x)
+   SmartPtr<Vector> rhs_c = IpCq().curr_c()->MakeNewCopy();
+   J_c->MultVector(-1., *IpData().curr()->x(), 1., *rhs_c);
+   SmartPtr<Vector> rhs_d = IpCq().curr_d()->MakeNewCopy();
+   J_d->MultVector(-1., *IpData().curr()->x(), 1., *rhs_d);
 
    SmartPtr<Vector> sol_c = rhs_c->MakeNew();
    SmartPtr<Vector> sol_d = rhs_d->MakeNew();
-- 
2.43.0


From 913b68b17f04ebaffe6992c9e41ef3eba0bf0622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:17 +0000
Subject: [PATCH 30/61] fix: DenseVector::ElementWiseSelect used the size of a
 homogeneous vector instead of its sign only, and skipped selecting from a
 vector of ones

---
 src/LinAlg/IpDenseVector.cpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/LinAlg/IpDenseVector.cpp b/src/LinAlg/IpDenseVector.cpp
index 5b90313..f200a30 100644
--- a/src/LinAlg/IpDenseVector.cpp
+++ b/src/LinAlg/IpDenseVector.cpp
@@ -407,7 +407,7 @@ void DenseVector::ElementWiseSelectImpl(
       }
       if( dense_x->homogeneous_ )
       {
-         scalar_ *= dense_x->scalar_;
+         scalar_ = scalar_ > 0.0 ? dense_x->scalar_ : -dense_x->scalar_;
       }
       else
       {
@@ -415,7 +415,7 @@ void DenseVector::ElementWiseSelectImpl(
          Number* vals = values_allocated();
          for( Index i = 0; i < Dim(); i++ )
          {
-            vals[i] = scalar_ * values_x[i];
+            vals[i] = scalar_ > 0.0 ? values_x[i] : -values_x[i];
          }
       }
    }
@@ -423,20 +423,17 @@ void DenseVector::ElementWiseSelectImpl(
    {
       if( dense_x->homogeneous_ )
       {
-         if( dense_x->scalar_ != 1.0 )
+         for( Index i = 0; i < Dim(); i++ )
          {
-            for( Index i = 0; i < Dim(); i++ )
+            if( values_[i] > 0.0 )
             {
-               if( values_[i] > 0.0 )
-               {
-                  values_[i] = dense_x->scalar_;
-               }
-               else if( values_[i] < 0.0 )
-               {
-                  values_[i] = -dense_x->scalar_;
-               }
-               // else values_[i] remains at 0.0
+               values_[i] = dense_x->scalar_;
             }
+            else if( values_[i] < 0.0 )
+            {
+               values_[i] = -dense_x->scalar_;
+            }
+            // else values_[i] remains at 0.0
          }
       }
       else
-- 
2.43.0


From d553cfe52e552a7eb12563d2361c9fc37c91fc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 31/61] fix: DenseVector::CopyToPos lost the rest of a
 homogeneous vector and copied the own scalar instead of that of a homogeneous
 operand

---
 src/LinAlg/IpDenseVector.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/LinAlg/IpDenseVector.cpp b/src/LinAlg/IpDenseVector.cpp
index f200a30..2cb27d3 100644
--- a/src/LinAlg/IpDenseVector.cpp
+++ b/src/LinAlg/IpDenseVector.cpp
@@ -1544,12 +1544,17 @@ void DenseVector::CopyToPos(
    const DenseVector* dense_x = static_cast<const DenseVector*>(&x);
    DBG_ASSERT(dynamic_cast<const DenseVector*>(&x));
 
+   if( homogeneous_ && initialized_ )
+   {
+      // the entries outside of the subrange keep their value
+      set_values_from_scalar();
+   }
    Number* vals = values_allocated();
    homogeneous_ = false;
 
    if( dense_x->homogeneous_ )
    {
-      IpBlasCopy(dim_x, &scalar_, 0, vals + Pos, 1);
+      IpBlasCopy(dim_x, &dense_x->scalar_, 0, vals + Pos, 1);
    }
    else
    {
-- 
2.43.0


From bcf552567c69b99e2b7c0c3eb75a5f104644e174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 32/61] fix: DenseVector::AddTwoVectors added the second vector
 Dim() times for a=0, b=c=1

---
 src/LinAlg/IpDenseVector.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/LinAlg/IpDenseVector.cpp b/src/LinAlg/IpDenseVector.cpp
index 2cb27d3..1c907ea 100644
--- a/src/LinAlg/IpDenseVector.cpp
+++ b/src/LinAlg/IpDenseVector.cpp
@@ -907,10 +907,7 @@ void DenseVector::AddTwoVectorsImpl(
          }
          else if( b == 1. )
          {
-            for( Index i = 0; i < Dim(); i++ )
-            {
-               IpBlasCopy(Dim(), values_v2, 1, values_, 1);
-            }
+            IpBlasCopy(Dim(), values_v2, 1, values_, 1);
          }
          else if( b == -1. )
          {
@@ -1025,10 +1022,7 @@ void DenseVector::AddTwoVectorsImpl(
          }
          else if( b == 1. )
          {
-            for( Index i = 0; i < Dim(); i++ )
-            {
-               IpBlasAxpy(Dim(), 1., values_v2, 1, values_, 1);
-            }
+            IpBlasAxpy(Dim(), 1., values_v2, 1, values_, 1);
          }
          else if( b == -1. )
          {
-- 
2.43.0


From 1ad6459103f2393d42ffa872e28cf18c0f6202e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:49 +0000
Subject: [PATCH 33/61] fix: IdentityMatrix ignored its factor in AddMSinvZ and
 in the row and column norms

---
 src/LinAlg/IpIdentityMatrix.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/LinAlg/IpIdentityMatrix.cpp b/src/LinAlg/IpIdentityMatrix.cpp
index 10ff48e..d529b30 100644
--- a/src/LinAlg/IpIdentityMatrix.cpp
+++ b/src/LinAlg/IpIdentityMatrix.cpp
@@ -6,6 +6,8 @@
 
 #include "IpIdentityMatrix.hpp"
 
+#include <cmath>
+
 namespace Ipopt
 {
 
@@ -52,12 +54,12 @@ void IdentityMatrix::ComputeRowAMaxImpl(
 {
    if( init )
    {
-      rows_norms.Set(1.);
+      rows_norms.Set(std::abs(factor_));
    }
    else
    {
       SmartPtr<Vector> v = rows_norms.MakeNew();
-      v->Set(1.);
+      v->Set(std::abs(factor_));
       rows_norms.ElementWiseMax(*v);
    }
 }
@@ -91,7 +93,7 @@ void IdentityMatrix::AddMSinvZImpl(
    DBG_ASSERT(NCols() == Z.Dim());
    DBG_ASSERT(NCols() == X.Dim());
 
-   X.AddVectorQuotient(alpha, Z, S, 1.);
+   X.AddVectorQuotient(alpha * factor_, Z, S, 1.);
 }
 
 } // namespace Ipopt
-- 
2.43.0


From 75ba7c3a830624bb93484203a8199695a9a148a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:49 +0000
Subject: [PATCH 34/61] fix: ExpandedMultiVectorMatrix reported invalid numbers
 exactly if it had valid ones

---
 src/LinAlg/IpExpandedMultiVectorMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/IpExpandedMultiVectorMatrix.cpp b/src/LinAlg/IpExpandedMultiVectorMatrix.cpp
index 9b45e88..f0e7cf3 100644
--- a/src/LinAlg/IpExpandedMultiVectorMatrix.cpp
+++ b/src/LinAlg/IpExpandedMultiVectorMatrix.cpp
@@ -168,7 +168,7 @@ bool ExpandedMultiVectorMatrix::HasValidNumbersImpl() const
 {
    for( Index i = 0; i < NRows(); i++ )
    {
-      if( IsValid(vecs_[i]) && vecs_[i]->HasValidNumbers() )
+      if( IsValid(vecs_[i]) && !vecs_[i]->HasValidNumbers() )
       {
          return false;
       }
-- 
2.43.0


From 42b7ac846e301a2459a3a58c1f944373a155b133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:49 +0000
Subject: [PATCH 35/61] fix: SymTMatrix row norms forgot the given values when
 asked not to initialize

---
 src/LinAlg/TMatrices/IpSymTMatrix.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/LinAlg/TMatrices/IpSymTMatrix.cpp b/src/LinAlg/TMatrices/IpSymTMatrix.cpp
index e85681f..118f180 100644
--- a/src/LinAlg/TMatrices/IpSymTMatrix.cpp
+++ b/src/LinAlg/TMatrices/IpSymTMatrix.cpp
@@ -182,9 +182,6 @@ void SymTMatrix::ComputeRowAMaxImpl(
    Number* vec_vals = dense_vec->Values();
    DBG_ASSERT(vec_vals != NULL);
 
-   const Number zero = 0.;
-   IpBlasCopy(NRows(), &zero, 0, vec_vals, 1);
-
    vec_vals--; // to deal with 1-based indexing in irn and jcn (I believe)
    for( Index i = 0; i < Nonzeros(); i++ )
    {
-- 
2.43.0


From 8d34472f3468d51fbf568690356c91b26389a758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:49 +0000
Subject: [PATCH 36/61] fix: row norms of dense matrices used the wrong storage
 order

---
 src/LinAlg/IpDenseGenMatrix.cpp | 4 ++--
 src/LinAlg/IpDenseSymMatrix.cpp | 9 ++++-----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/LinAlg/IpDenseGenMatrix.cpp b/src/LinAlg/IpDenseGenMatrix.cpp
index 481f65b..82378ae 100644
--- a/src/LinAlg/IpDenseGenMatrix.cpp
+++ b/src/LinAlg/IpDenseGenMatrix.cpp
@@ -384,9 +384,9 @@ void DenseGenMatrix::ComputeRowAMaxImpl(
    Number* vec_vals = dense_vec->Values();
 
    const Number* vals = values_;
-   for( Index irow = 0; irow < NRows(); irow++ )
+   for( Index jcol = 0; jcol < NCols(); jcol++ )
    {
-      for( Index jcol = 0; jcol < NCols(); jcol++ )
+      for( Index irow = 0; irow < NRows(); irow++ )
       {
          vec_vals[irow] = Max(vec_vals[irow], std::abs(*vals));
          vals++;
diff --git a/src/LinAlg/IpDenseSymMatrix.cpp b/src/LinAlg/IpDenseSymMatrix.cpp
index 0761d78..9ca3772 100644
--- a/src/LinAlg/IpDenseSymMatrix.cpp
+++ b/src/LinAlg/IpDenseSymMatrix.cpp
@@ -241,15 +241,14 @@ void DenseSymMatrix::ComputeRowAMaxImpl(
    DBG_ASSERT(dynamic_cast<DenseVector*>(&rows_norms));
    Number* vec_vals = dense_vec->Values();
 
-   const Number* vals = values_;
-   for( Index irow = 0; irow < NRows(); irow++ )
+   const Index dim = Dim();
+   for( Index jcol = 0; jcol < dim; jcol++ )
    {
-      for( Index jcol = 0; jcol <= irow; jcol++ )
+      for( Index irow = jcol; irow < dim; irow++ )
       {
-         const Number f = std::abs(*vals);
+         const Number f = std::abs(values_[irow + jcol * dim]);
          vec_vals[irow] = Max(vec_vals[irow], f);
          vec_vals[jcol] = Max(vec_vals[jcol], f);
-         vals++;
       }
    }
 }
-- 
2.43.0


From 5f1c237f8bd8b8436dbfac32f7ffa68355a5108d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:49 +0000
Subject: [PATCH 37/61] fix: dense matrices crashed on homogeneous vectors

---
 src/LinAlg/IpDenseGenMatrix.cpp | 6 +++---
 src/LinAlg/IpDenseSymMatrix.cpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/LinAlg/IpDenseGenMatrix.cpp b/src/LinAlg/IpDenseGenMatrix.cpp
index 82378ae..9b4acaa 100644
--- a/src/LinAlg/IpDenseGenMatrix.cpp
+++ b/src/LinAlg/IpDenseGenMatrix.cpp
@@ -43,7 +43,7 @@ void DenseGenMatrix::ScaleColumns(
    DBG_ASSERT(scal_vec.Dim() == NCols());
    DBG_ASSERT(initialized_);
 
-   const Number* scal_values = scal_vec.Values();
+   const Number* scal_values = scal_vec.ExpandedValues();
 
    for( Index j = 0; j < NCols(); j++ )
    {
@@ -346,7 +346,7 @@ void DenseGenMatrix::MultVectorImpl(
    DBG_ASSERT(dynamic_cast<DenseVector*>(&y));
 
    bool trans = false;
-   IpBlasGemv(trans, NRows(), NCols(), alpha, values_, NRows(), dense_x->Values(), 1, beta, dense_y->Values(), 1);
+   IpBlasGemv(trans, NRows(), NCols(), alpha, values_, NRows(), dense_x->ExpandedValues(), 1, beta, dense_y->Values(), 1);
 }
 
 void DenseGenMatrix::TransMultVectorImpl(
@@ -368,7 +368,7 @@ void DenseGenMatrix::TransMultVectorImpl(
    DBG_ASSERT(dynamic_cast<DenseVector*>(&y));
 
    bool trans = true;
-   IpBlasGemv(trans, NRows(), NCols(), alpha, values_, NRows(), dense_x->Values(), 1, beta, dense_y->Values(), 1);
+   IpBlasGemv(trans, NRows(), NCols(), alpha, values_, NRows(), dense_x->ExpandedValues(), 1, beta, dense_y->Values(), 1);
 }
 
 void DenseGenMatrix::ComputeRowAMaxImpl(
diff --git a/src/LinAlg/IpDenseSymMatrix.cpp b/src/LinAlg/IpDenseSymMatrix.cpp
index 9ca3772..7000043 100644
--- a/src/LinAlg/IpDenseSymMatrix.cpp
+++ b/src/LinAlg/IpDenseSymMatrix.cpp
@@ -51,7 +51,7 @@ void DenseSymMatrix::MultVectorImpl(
    DenseVector* dense_y = static_cast<DenseVector*>(&y);
    DBG_ASSERT(dynamic_cast<DenseVector*>(&y));
 
-   IpBlasSymv(Dim(), alpha, values_, NRows(), dense_x->Values(), 1, beta, dense_y->Values(), 1);
+   IpBlasSymv(Dim(), alpha, values_, NRows(), dense_x->ExpandedValues(), 1, beta, dense_y->Values(), 1);
 }
 
 void DenseSymMatrix::FillIdentity(
@@ -195,7 +195,7 @@ void DenseSymMatrix::SpecialAddForLMSR1(
    DBG_ASSERT(dim == L.NCols());
 
    // First add the diagonal matrix
-   const Number* Dvalues = D.Values();
+   const Number* Dvalues = D.ExpandedValues();
    for( Index i = 0; i < dim; i++ )
    {
       values_[i + i * dim] += Dvalues[i];
-- 
2.43.0


From b43f82a39357b875f958065fded46b8d1421e934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:49 +0000
Subject: [PATCH 38/61] fix: DenseSymMatrix::AddMatrix ignored beta if alpha is
 zero

---
 src/LinAlg/IpDenseSymMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/IpDenseSymMatrix.cpp b/src/LinAlg/IpDenseSymMatrix.cpp
index 7000043..4852eb5 100644
--- a/src/LinAlg/IpDenseSymMatrix.cpp
+++ b/src/LinAlg/IpDenseSymMatrix.cpp
@@ -80,7 +80,7 @@ void DenseSymMatrix::AddMatrix(
    DBG_ASSERT(beta == 0. || initialized_);
    DBG_ASSERT(Dim() == A.Dim());
 
-   if( alpha == 0. )
+   if( alpha == 0. && beta == 1. )
    {
       return;
    }
-- 
2.43.0


From 2fd3b7804efe4d5a2cfde6a176aee1e043ef7998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:49 +0000
Subject: [PATCH 39/61] fix: DiagMatrix::SetDiag and IdentityMatrix::SetFactor
 did not mark the matrix as changed

---
 src/LinAlg/IpDiagMatrix.hpp     | 1 +
 src/LinAlg/IpIdentityMatrix.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/LinAlg/IpDiagMatrix.hpp b/src/LinAlg/IpDiagMatrix.hpp
index f12f84f..e484370 100644
--- a/src/LinAlg/IpDiagMatrix.hpp
+++ b/src/LinAlg/IpDiagMatrix.hpp
@@ -38,6 +38,7 @@ public:
    )
    {
       diag_ = &diag;
+      ObjectChanged();
    }
 
    /** Get the diagonal elements. */
diff --git a/src/LinAlg/IpIdentityMatrix.hpp b/src/LinAlg/IpIdentityMatrix.hpp
index 6f0e429..426aa26 100644
--- a/src/LinAlg/IpIdentityMatrix.hpp
+++ b/src/LinAlg/IpIdentityMatrix.hpp
@@ -36,6 +36,7 @@ public:
    )
    {
       factor_ = factor;
+      ObjectChanged();
    }
 
    /** Method for getting the factor for the identity matrix. */
-- 
2.43.0


From b942a429d3055af6eb5321db774c3b34c6308677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:22 +0000
Subject: [PATCH 40/61] fix: IpBlasGemv swapped the dimensions of the matrix,
 products with a non-square DenseGenMatrix were wrong

---
 src/LinAlg/IpBlas.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/IpBlas.cpp b/src/LinAlg/IpBlas.cpp
index 735e5e2..82d0c2b 100644
--- a/src/LinAlg/IpBlas.cpp
+++ b/src/LinAlg/IpBlas.cpp
@@ -322,7 +322,7 @@ void IpBlasGemv(
    Index         incY
 )
 {
-   ipindex M = nCols, N = nRows, LDA = ldA, INCX = incX, INCY = incY;
+   ipindex M = nRows, N = nCols, LDA = ldA, INCX = incX, INCY = incY;
 
    char TRANS;
    if( trans )
-- 
2.43.0


From 5c56663b707c5343956858ae6c13efea5cb03349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:22 +0000
Subject: [PATCH 41/61] fix: column norms of DenseGenMatrix read the element
 behind the largest one

---
 src/LinAlg/IpDenseGenMatrix.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/IpDenseGenMatrix.cpp b/src/LinAlg/IpDenseGenMatrix.cpp
index 9b4acaa..34a535f 100644
--- a/src/LinAlg/IpDenseGenMatrix.cpp
+++ b/src/LinAlg/IpDenseGenMatrix.cpp
@@ -409,8 +409,11 @@ void DenseGenMatrix::ComputeColAMaxImpl(
    const Number* vals = values_;
    for( Index jcol = 0; jcol < NCols(); jcol++ )
    {
-      Index i = IpBlasIamax(NRows(), vals, 1);
-      vec_vals[jcol] = Max(vec_vals[jcol], std::abs(vals[i]));
+      if( NRows() > 0 )
+      {
+         Index i = IpBlasIamax(NRows(), vals, 1) - 1;
+         vec_vals[jcol] = Max(vec_vals[jcol], std::abs(vals[i]));
+      }
       vals += NRows();
    }
 }
-- 
2.43.0


From 927d772a3cbbcaa5765bf6d93a5bab7864d493de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:28 +0000
Subject: [PATCH 42/61] fix: CompoundSymMatrix row norms used the rows instead
 of the columns of blocks in the upper triangle

---
 src/LinAlg/IpCompoundSymMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/IpCompoundSymMatrix.cpp b/src/LinAlg/IpCompoundSymMatrix.cpp
index 0c190a4..f653f1b 100644
--- a/src/LinAlg/IpCompoundSymMatrix.cpp
+++ b/src/LinAlg/IpCompoundSymMatrix.cpp
@@ -231,7 +231,7 @@ void CompoundSymMatrix::ComputeRowAMaxImpl(
          }
          else if( jcol > irow && ConstComp(jcol, irow) )
          {
-            ConstComp(jcol, irow)->ComputeRowAMax(*vec_i, false);
+            ConstComp(jcol, irow)->ComputeColAMax(*vec_i, false);
          }
       }
    }
-- 
2.43.0


From 59c9439293b1cd9399f63b6b33814ed8d3722df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:23 +0000
Subject: [PATCH 43/61] fix: CompoundMatrix column norms used the components of
 the rows

---
 src/LinAlg/IpCompoundMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/IpCompoundMatrix.cpp b/src/LinAlg/IpCompoundMatrix.cpp
index c994c78..8519ccf 100644
--- a/src/LinAlg/IpCompoundMatrix.cpp
+++ b/src/LinAlg/IpCompoundMatrix.cpp
@@ -702,7 +702,7 @@ void CompoundMatrix::ComputeColAMaxImpl(
             SmartPtr<Vector> vec_i;
             if( comp_vec )
             {
-               vec_i = comp_vec->GetCompNonConst(irow);
+               vec_i = comp_vec->GetCompNonConst(jcol);
             }
             else
             {
-- 
2.43.0


From 85ca81f62d33fdd26aadfa2fe01d03f5444f13c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:29 +0000
Subject: [PATCH 44/61] fix: CompoundMatrix with a non-square block structure
 was taken as block diagonal, accessing a block that does not exist

---
 src/LinAlg/IpCompoundMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/IpCompoundMatrix.cpp b/src/LinAlg/IpCompoundMatrix.cpp
index 8519ccf..9f8f386 100644
--- a/src/LinAlg/IpCompoundMatrix.cpp
+++ b/src/LinAlg/IpCompoundMatrix.cpp
@@ -859,7 +859,7 @@ void CompoundMatrixSpace::SetCompSpace(
    comp_spaces_[irow][jcol] = &mat_space;
    allocate_block_[irow][jcol] = auto_allocate;
 
-   diagonal_ = true;
+   diagonal_ = NComps_Rows() == NComps_Cols();
    for( Index i = 0; i < NComps_Rows(); i++ )
    {
       for( Index j = 0; j < NComps_Cols(); j++ )
-- 
2.43.0


From 33baebae200b740fab6fb595b805a3dd9693fcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:10 +0000
Subject: [PATCH 45/61] fix: free temporary arrays of TNLPAdapter also when a
 callback fails or throws

Arrays allocated by new[] leaked if get_bounds_info, get_starting_point, get_scaling_parameters,
finalize_solution, the structure calls of eval_jac_g/eval_h or the evaluations of the derivative checker
threw an exception or returned false.
---
 src/Interfaces/IpTNLPAdapter.cpp | 385 ++++++++++---------------------
 1 file changed, 128 insertions(+), 257 deletions(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 946de26..4ecbc08 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -39,6 +39,56 @@ namespace Ipopt
 static const Index dbg_verbosity = 0;
 #endif
 
+/** Temporary array that is also freed if an exception is thrown. */
+template<class T>
+class TempArray
+{
+public:
+   TempArray()
+      : array_(NULL)
+   { }
+
+   explicit TempArray(
+      Index size
+   )
+      : array_(new T[size])
+   { }
+
+   ~TempArray()
+   {
+      delete[] array_;
+   }
+
+   /** takes ownership of array */
+   TempArray& operator=(
+      T* array
+   )
+   {
+      delete[] array_;
+      array_ = array;
+      return *this;
+   }
+
+   operator T*() const
+   {
+      return array_;
+   }
+
+   /** gives up ownership of the array */
+   T* Release()
+   {
+      T* array = array_;
+      array_ = NULL;
+      return array;
+   }
+
+private:
+   TempArray(const TempArray&);
+   void operator=(const TempArray&);
+
+   T* array_;
+};
+
 TNLPAdapter::TNLPAdapter(
    const SmartPtr<TNLP>             tnlp,
    const SmartPtr<const Journalist> jnlst /* = NULL */
@@ -430,10 +480,10 @@ bool TNLPAdapter::GetSpaces(
 
       /* Spaces for bounds. We need to remove the fixed variables
        * and find out which bounds do not exist. */
-      Number* x_l = new Number[n_full_x_];
-      Number* x_u = new Number[n_full_x_];
-      Number* g_l = new Number[n_full_g_];
-      Number* g_u = new Number[n_full_g_];
+      TempArray<Number> x_l(n_full_x_);
+      TempArray<Number> x_u(n_full_x_);
+      TempArray<Number> g_l(n_full_g_);
+      TempArray<Number> g_u(n_full_g_);
       retval = tnlp_->get_bounds_info(n_full_x_, x_l, x_u, n_full_g_, g_l, g_u);
       ASSERT_EXCEPTION(retval, INVALID_TNLP, "get_bounds_info returned false in GetSpaces");
 
@@ -444,18 +494,18 @@ bool TNLPAdapter::GetSpaces(
       Index n_x_var;
       Index n_x_l;
       Index n_x_u;
-      Index* x_not_fixed_map = new Index[n_full_x_];
-      Index* x_l_map = new Index[n_full_x_];
-      Index* x_u_map = new Index[n_full_x_];
+      TempArray<Index> x_not_fixed_map(n_full_x_);
+      TempArray<Index> x_l_map(n_full_x_);
+      TempArray<Index> x_u_map(n_full_x_);
 
       Index n_c;
       Index n_d;
       Index n_d_l;
       Index n_d_u;
-      Index* c_map = new Index[n_full_g_]; // we do not know n_c yet!
-      Index* d_map = new Index[n_full_g_]; // we do not know n_d yet!
-      Index* d_l_map = new Index[n_full_g_]; // "
-      Index* d_u_map = new Index[n_full_g_]; // "
+      TempArray<Index> c_map(n_full_g_); // we do not know n_c yet!
+      TempArray<Index> d_map(n_full_g_); // we do not know n_d yet!
+      TempArray<Index> d_l_map(n_full_g_); // "
+      TempArray<Index> d_u_map(n_full_g_); // "
 
       bool done = false;
       // We might have to do the following twice: If we detect that we
@@ -467,7 +517,7 @@ bool TNLPAdapter::GetSpaces(
          n_x_l = 0;
          n_x_u = 0;
          n_x_fixed_ = 0;
-         Index* x_fixed_map_tmp = new Index[n_full_x_];
+         TempArray<Index> x_fixed_map_tmp(n_full_x_);
 
          for( Index i = 0; i < n_full_x_; i++ )
          {
@@ -508,18 +558,6 @@ bool TNLPAdapter::GetSpaces(
                Snprintf(string, 127,
                         "There are inconsistent bounds on variable %" IPOPT_INDEX_FORMAT ": lower = %25.16e and upper = %25.16e.", i, lower_bound,
                         upper_bound);
-               delete[] x_l;
-               delete[] x_u;
-               delete[] g_l;
-               delete[] g_u;
-               delete[] x_not_fixed_map;
-               delete[] x_fixed_map_tmp;
-               delete[] x_l_map;
-               delete[] x_u_map;
-               delete[] c_map;
-               delete[] d_map;
-               delete[] d_l_map;
-               delete[] d_u_map;
                THROW_EXCEPTION(INCONSISTENT_BOUNDS, string);
             }
             else
@@ -558,7 +596,6 @@ bool TNLPAdapter::GetSpaces(
             delete[] x_fixed_map_;
             x_fixed_map_ = NULL;
          }
-         delete[] x_fixed_map_tmp;
 
          // Create the spaces for c and d
          // - includes the internal permutation matrices for
@@ -585,17 +622,6 @@ bool TNLPAdapter::GetSpaces(
             }
             else if( lower_bound > upper_bound )
             {
-               delete[] x_l;
-               delete[] x_u;
-               delete[] g_l;
-               delete[] g_u;
-               delete[] x_not_fixed_map;
-               delete[] x_l_map;
-               delete[] x_u_map;
-               delete[] c_map;
-               delete[] d_map;
-               delete[] d_l_map;
-               delete[] d_u_map;
                char string[128];
                Snprintf(string, 127,
                         "There are inconsistent bounds on constraint function %" IPOPT_INDEX_FORMAT ": lower = %25.16e and upper = %25.16e.", i,
@@ -698,10 +724,6 @@ bool TNLPAdapter::GetSpaces(
             IpBlasCopy(n_full_g_, &zero, 0, full_lambda_, 1);
          }
       }
-      delete[] x_l;
-      x_l = NULL;
-      delete[] x_u;
-      x_u = NULL;
 
       // create x spaces
       SmartPtr<DenseVectorSpace> dv_x_space = new DenseVectorSpace(n_x_var);
@@ -901,13 +923,6 @@ bool TNLPAdapter::GetSpaces(
          }
       }
 
-      delete[] x_not_fixed_map;
-      x_not_fixed_map = NULL;
-      delete[] x_l_map;
-      x_l_map = NULL;
-      delete[] x_u_map;
-      x_u_map = NULL;
-
       // create the required c_space
 
       SmartPtr<DenseVectorSpace> dc_space;
@@ -925,8 +940,6 @@ bool TNLPAdapter::GetSpaces(
       // create the internal expansion matrix for c to g
       P_c_g_space_ = new ExpansionMatrixSpace(n_full_g_, n_c, c_map);
       P_c_g_ = P_c_g_space_->MakeNewExpansionMatrix();
-      delete[] c_map;
-      c_map = NULL;
 
       // create the required d_space
       SmartPtr<DenseVectorSpace> dv_d_space = new DenseVectorSpace(n_d);
@@ -934,8 +947,6 @@ bool TNLPAdapter::GetSpaces(
       // create the internal expansion matrix for d to g
       P_d_g_space_ = new ExpansionMatrixSpace(n_full_g_, n_d, d_map);
       P_d_g_ = P_d_g_space_->MakeNewExpansionMatrix();
-      delete[] d_map;
-      d_map = NULL;
 
       // create the required d_l space
       SmartPtr<DenseVectorSpace> dv_d_l_space = new DenseVectorSpace(n_d_l);
@@ -943,8 +954,6 @@ bool TNLPAdapter::GetSpaces(
       // create the required expansion matrix for d_L to d_L_exp
       SmartPtr<ExpansionMatrixSpace> P_d_l_space = new ExpansionMatrixSpace(n_d, n_d_l, d_l_map);
       pd_l_space_ = GetRawPtr(P_d_l_space);
-      delete[] d_l_map;
-      d_l_map = NULL;
 
       // create the required d_u space
       SmartPtr<DenseVectorSpace> dv_d_u_space = new DenseVectorSpace(n_d_u);
@@ -952,13 +961,6 @@ bool TNLPAdapter::GetSpaces(
       // create the required expansion matrix for d_U to d_U_exp
       SmartPtr<ExpansionMatrixSpace> P_d_u_space = new ExpansionMatrixSpace(n_d, n_d_u, d_u_map);
       pd_u_space_ = GetRawPtr(P_d_u_space);
-      delete[] d_u_map;
-      d_u_map = NULL;
-
-      delete[] g_l;
-      g_l = NULL;
-      delete[] g_u;
-      g_u = NULL;
 
       // set the constraint meta data if present
       if( con_string_md.size() > 0 )
@@ -1087,16 +1089,13 @@ bool TNLPAdapter::GetSpaces(
       /** Create the matrix space for the jacobians
        */
       // Get the non zero structure
-      Index* g_iRow = new Index[nz_full_jac_g_];
-      Index* g_jCol = new Index[nz_full_jac_g_];
+      TempArray<Index> g_iRow(nz_full_jac_g_);
+      TempArray<Index> g_jCol(nz_full_jac_g_);
 
       bool retval = tnlp_->eval_jac_g(n_full_x_, NULL, false, n_full_g_, nz_full_jac_g_, g_iRow, g_jCol, NULL);
 
       if( !retval )
       {
-         delete[] g_iRow;
-         delete[] g_jCol;
-
          THROW_EXCEPTION(INVALID_TNLP, "eval_jac_g returned false in GetSpaces");
       }
 
@@ -1143,8 +1142,8 @@ bool TNLPAdapter::GetSpaces(
          nz_jac_all = nz_full_jac_g_ + n_x_fixed_;
       }
       jac_idx_map_ = new Index[nz_jac_all];
-      Index* jac_c_iRow = new Index[nz_jac_all];
-      Index* jac_c_jCol = new Index[nz_jac_all];
+      TempArray<Index> jac_c_iRow(nz_jac_all);
+      TempArray<Index> jac_c_jCol(nz_jac_all);
       Index current_nz = 0;
 
       const Index* c_row_pos = P_c_g_->CompressedPosIndices();
@@ -1208,16 +1207,12 @@ bool TNLPAdapter::GetSpaces(
       }
 
       Jac_c_space_ = new GenTMatrixSpace(n_c + n_added_constr, n_x_var, nz_jac_c_, jac_c_iRow, jac_c_jCol);
-      delete[] jac_c_iRow;
-      jac_c_iRow = NULL;
-      delete[] jac_c_jCol;
-      jac_c_jCol = NULL;
 
       // ... build the nonzero structure for jac_d
       // ... (the permutation from rows in jac_g to jac_c is the
       // ...  the same as P_d_g_)
-      Index* jac_d_iRow = new Index[nz_full_jac_g_];
-      Index* jac_d_jCol = new Index[nz_full_jac_g_];
+      TempArray<Index> jac_d_iRow(nz_full_jac_g_);
+      TempArray<Index> jac_d_jCol(nz_full_jac_g_);
       current_nz = 0;
       const Index* d_row_pos = P_d_g_->CompressedPosIndices();
       if( IsValid(P_x_full_x_) )
@@ -1253,31 +1248,18 @@ bool TNLPAdapter::GetSpaces(
       }
       nz_jac_d_ = current_nz;
       Jac_d_space_ = new GenTMatrixSpace(n_d, n_x_var, nz_jac_d_, jac_d_iRow, jac_d_jCol);
-      delete[] jac_d_iRow;
-      jac_d_iRow = NULL;
-      delete[] jac_d_jCol;
-      jac_d_jCol = NULL;
-
-      delete[] g_iRow;
-      g_iRow = NULL;
-      delete[] g_jCol;
-      g_jCol = NULL;
 
       if( hessian_approximation_ == EXACT )
       {
          /** Create the matrix space for the hessian of the lagrangian */
-         Index* full_h_iRow = new Index[nz_full_h_];
-         Index* full_h_jCol = new Index[nz_full_h_];
-         Index* h_iRow = new Index[nz_full_h_];
-         Index* h_jCol = new Index[nz_full_h_];
+         TempArray<Index> full_h_iRow(nz_full_h_);
+         TempArray<Index> full_h_jCol(nz_full_h_);
+         TempArray<Index> h_iRow(nz_full_h_);
+         TempArray<Index> h_jCol(nz_full_h_);
          retval = tnlp_->eval_h(n_full_x_, NULL, false, 0, n_full_g_,
                                 NULL, false, nz_full_h_, full_h_iRow, full_h_jCol, NULL);
          if( !retval )
          {
-            delete[] full_h_iRow;
-            delete[] full_h_jCol;
-            delete[] h_iRow;
-            delete[] h_jCol;
             jnlst_->Printf(J_ERROR, J_INITIALIZATION,
                            "Option \"hessian_approximation\" is not chosen as \"limited-memory\", but eval_h returns false.\n");
             THROW_EXCEPTION(OPTION_INVALID, "eval_h is called but has not been implemented");
@@ -1341,14 +1323,6 @@ bool TNLPAdapter::GetSpaces(
          }
          nz_h_ = current_nz;
          Hess_lagrangian_space_ = new SymTMatrixSpace(n_x_var, nz_h_, h_iRow, h_jCol);
-         delete[] full_h_iRow;
-         full_h_iRow = NULL;
-         delete[] full_h_jCol;
-         full_h_jCol = NULL;
-         delete[] h_iRow;
-         h_iRow = NULL;
-         delete[] h_jCol;
-         h_jCol = NULL;
       }
       else
       {
@@ -1401,10 +1375,10 @@ bool TNLPAdapter::GetBoundsInformation(
    // once to setup the structure for the problem, I could store the values
    // and use them here ?
    // Actually, this is better for a warm start
-   Number* x_l = new Number[n_full_x_];
-   Number* x_u = new Number[n_full_x_];
-   Number* g_l = new Number[n_full_g_];
-   Number* g_u = new Number[n_full_g_];
+   TempArray<Number> x_l(n_full_x_);
+   TempArray<Number> x_u(n_full_x_);
+   TempArray<Number> g_l(n_full_g_);
+   TempArray<Number> g_u(n_full_g_);
    bool retval = tnlp_->get_bounds_info(n_full_x_, x_l, x_u, n_full_g_, g_l, g_u);
    ASSERT_EXCEPTION(retval, INVALID_TNLP, "get_bounds_info returned false in GetBoundsInformation");
 
@@ -1534,21 +1508,10 @@ bool TNLPAdapter::GetBoundsInformation(
    {
       delete[] findiff_x_l_;
       delete[] findiff_x_u_;
-      findiff_x_l_ = x_l;
-      findiff_x_u_ = x_u;
-      x_l = NULL;
-      x_u = NULL;
+      findiff_x_l_ = x_l.Release();
+      findiff_x_u_ = x_u.Release();
    }
 
-   delete[] x_l;
-   x_l = NULL;
-   delete[] x_u;
-   x_u = NULL;
-   delete[] g_l;
-   g_l = NULL;
-   delete[] g_u;
-   g_u = NULL;
-
    return true;
 }
 
@@ -1565,10 +1528,10 @@ bool TNLPAdapter::GetStartingPoint(
    bool             need_z_U
 )
 {
-   Number* full_x = new Number[n_full_x_];
-   Number* full_z_l = new Number[n_full_x_];
-   Number* full_z_u = new Number[n_full_x_];
-   Number* full_lambda = new Number[n_full_g_];
+   TempArray<Number> full_x(n_full_x_);
+   TempArray<Number> full_z_l(n_full_x_);
+   TempArray<Number> full_z_u(n_full_x_);
+   TempArray<Number> full_lambda(n_full_g_);
    bool init_x = need_x;
    bool init_z = need_z_L || need_z_U || (fixed_variable_treatment_ == MAKE_CONSTRAINT && n_x_fixed_ > 0 && need_y_c);
    bool init_lambda = need_y_c || need_y_d;
@@ -1578,10 +1541,6 @@ bool TNLPAdapter::GetStartingPoint(
 
    if( !retvalue )
    {
-      delete[] full_x;
-      delete[] full_z_l;
-      delete[] full_z_u;
-      delete[] full_lambda;
       return false;
    }
 
@@ -1689,15 +1648,6 @@ bool TNLPAdapter::GetStartingPoint(
       }
    }
 
-   delete[] full_x;
-   full_x = NULL;
-   delete[] full_z_l;
-   full_z_l = NULL;
-   delete[] full_z_u;
-   full_z_u = NULL;
-   delete[] full_lambda;
-   full_lambda = NULL;
-
    return true;
 }
 
@@ -1741,7 +1691,7 @@ bool TNLPAdapter::Eval_grad_f(
    {
       if( IsValid(P_x_full_x_) )
       {
-         Number* full_grad_f = new Number[n_full_x_];
+         TempArray<Number> full_grad_f(n_full_x_);
          if( tnlp_->eval_grad_f(n_full_x_, full_x_, new_x, full_grad_f) )
          {
             const Index* x_pos = P_x_full_x_->ExpandedPosIndices();
@@ -1751,7 +1701,6 @@ bool TNLPAdapter::Eval_grad_f(
             }
             retvalue = true;
          }
-         delete[] full_grad_f;
       }
       else
       {
@@ -1765,7 +1714,7 @@ bool TNLPAdapter::Eval_grad_f(
       retvalue = tnlp_->eval_f(n_full_x_, full_x_, new_x, f);
       if( retvalue )
       {
-         Number* full_x_pert = new Number[n_full_x_];
+         TempArray<Number> full_x_pert(n_full_x_);
          IpBlasCopy(n_full_x_, full_x_, 1, full_x_pert, 1);
          const Index* x_pos = NULL;
          if( IsValid(P_x_full_x_) )
@@ -1806,8 +1755,6 @@ bool TNLPAdapter::Eval_grad_f(
             }
          }
 
-         delete[] full_x_pert;
-
          // the last point passed to the TNLP is a perturbed one, so x is new again in the next call
          x_tag_for_iterates_ = 0;
       }
@@ -1980,7 +1927,7 @@ bool TNLPAdapter::Eval_h(
 
    if( h_idx_map_ )
    {
-      Number* full_h = new Number[nz_full_h_];
+      TempArray<Number> full_h(nz_full_h_);
 
       if( tnlp_->eval_h(n_full_x_, full_x_, new_x, obj_factor, n_full_g_, full_lambda_, new_y, nz_full_h_, NULL, NULL,
                         full_h) )
@@ -1991,7 +1938,6 @@ bool TNLPAdapter::Eval_h(
          }
          retval = true;
       }
-      delete[] full_h;
    }
    else
    {
@@ -2027,18 +1973,17 @@ void TNLPAdapter::GetScalingParameters(
    Number* dc_values = dc->Values();
    Number* dd_values = dd->Values();
 
-   Number* full_g_scaling = new Number[n_full_g_];
+   TempArray<Number> full_g_scaling(n_full_g_);
    bool use_x_scaling = true;
    bool use_g_scaling = true;
 
    if( IsValid(P_x_full_x_) )
    {
-      Number* full_x_scaling = new Number[n_full_x_];
+      TempArray<Number> full_x_scaling(n_full_x_);
       bool retval = tnlp_->get_scaling_parameters(obj_scaling, use_x_scaling, n_full_x_, full_x_scaling, use_g_scaling,
                     n_full_g_, full_g_scaling);
       if( !retval )
       {
-         delete[] full_x_scaling;
          jnlst_->Printf(J_ERROR, J_INITIALIZATION,
                         "Option nlp_scaling_method selected as user-scaling, but no user-scaling available, or it cannot be computed.\n");
          THROW_EXCEPTION(OPTION_INVALID, "User scaling chosen, but get_scaling_parameters returned false.");
@@ -2052,7 +1997,6 @@ void TNLPAdapter::GetScalingParameters(
             dx_values[i] = full_x_scaling[x_pos[i]];
          }
       }
-      delete[] full_x_scaling;
    }
    else
    {
@@ -2095,8 +2039,6 @@ void TNLPAdapter::GetScalingParameters(
       c_scaling = NULL;
       d_scaling = NULL;
    }
-
-   delete[] full_g_scaling;
 }
 
 void TNLPAdapter::FinalizeSolution(
@@ -2177,7 +2119,7 @@ void TNLPAdapter::FinalizeSolution(
       }
    }
 
-   Number* full_g = new Number[n_full_g_];
+   TempArray<Number> full_g(n_full_g_);
    if( P_c_g_->NCols() + P_d_g_->NCols() < n_full_g_ )
    {
       // dependent constraints that were taken out are neither in c nor d, so get their values from the TNLP
@@ -2188,10 +2130,10 @@ void TNLPAdapter::FinalizeSolution(
 
          // Temporary: Check if we really have a feasible point:
          Number max_viol = 0.;
-         Number* x_l = new Number[n_full_x_];
-         Number* x_u = new Number[n_full_x_];
-         Number* g_l = new Number[n_full_g_];
-         Number* g_u = new Number[n_full_g_];
+         TempArray<Number> x_l(n_full_x_);
+         TempArray<Number> x_u(n_full_x_);
+         TempArray<Number> g_l(n_full_g_);
+         TempArray<Number> g_u(n_full_g_);
          if( tnlp_->get_bounds_info(n_full_x_, x_l, x_u, n_full_g_, g_l, g_u) )
          {
             for( Index i = 0; i < n_full_g_; i++ )
@@ -2200,10 +2142,6 @@ void TNLPAdapter::FinalizeSolution(
             }
             jnlst_->Printf(J_ITERSUMMARY, J_INITIALIZATION, "Constraint violation for ALL constraints is %e.\n", max_viol);
          }
-         delete[] x_l;
-         delete[] x_u;
-         delete[] g_l;
-         delete[] g_u;
       }
       else
       {
@@ -2213,8 +2151,8 @@ void TNLPAdapter::FinalizeSolution(
    }
    ResortG(c, d, full_g, true);
 
-   Number* full_z_L = new Number[n_full_x_];
-   Number* full_z_U = new Number[n_full_x_];
+   TempArray<Number> full_z_L(n_full_x_);
+   TempArray<Number> full_z_U(n_full_x_);
    switch( status )
    {
       case SUCCESS:
@@ -2279,13 +2217,6 @@ void TNLPAdapter::FinalizeSolution(
 
    tnlp_->finalize_solution(status, n_full_x_, full_x_, full_z_L, full_z_U, n_full_g_, full_g, full_lambda_, obj_value,
                             ip_data, ip_cq);
-
-   delete[] full_z_L;
-   full_z_L = NULL;
-   delete[] full_z_U;
-   full_z_U = NULL;
-   delete[] full_g;
-   full_g = NULL;
 }
 
 bool TNLPAdapter::IntermediateCallBack(
@@ -2322,7 +2253,7 @@ void TNLPAdapter::GetQuasiNewtonApproximationSpaces(
       return;
    }
 
-   Index* pos_nonlin_vars = NULL;
+   TempArray<Index> pos_nonlin_vars;
    if( num_nonlin_vars < 0 )
    {
       num_nonlin_vars = n_full_x_ - num_linear_variables_;
@@ -2339,7 +2270,6 @@ void TNLPAdapter::GetQuasiNewtonApproximationSpaces(
       bool retval = tnlp_->get_list_of_nonlinear_variables(num_nonlin_vars, pos_nonlin_vars);
       if( !retval )
       {
-         delete[] pos_nonlin_vars;
          jnlst_->Printf(J_ERROR, J_INITIALIZATION,
                         "TNLP's get_number_of_nonlinear_variables returns non-negative number, but get_list_of_nonlinear_variables returns false.\n");
          THROW_EXCEPTION(INVALID_TNLP, "get_list_of_nonlinear_variables has not been overwritten");
@@ -2384,7 +2314,7 @@ void TNLPAdapter::GetQuasiNewtonApproximationSpaces(
    else
    {
       const Index* compr_pos = P_x_full_x_->CompressedPosIndices();
-      Index* nonfixed_pos_nonlin_vars = new Index[num_nonlin_vars];
+      TempArray<Index> nonfixed_pos_nonlin_vars(num_nonlin_vars);
 
       Index nonfixed_nonlin_vars = 0;
       for( Index i = 0; i < num_nonlin_vars; i++ )
@@ -2411,10 +2341,7 @@ void TNLPAdapter::GetQuasiNewtonApproximationSpaces(
          P_approx = ex_sp->MakeNew();
          approx_space = new DenseVectorSpace(nonfixed_nonlin_vars);
       }
-
-      delete[] nonfixed_pos_nonlin_vars;
    }
-   delete[] pos_nonlin_vars;
 }
 
 void TNLPAdapter::ResortX(
@@ -2729,13 +2656,12 @@ bool TNLPAdapter::ResortBoundMultipliers(
    {
       // Lagrangian should be grad_f + lambda jac - z_L + z_U  == 0
       // so fixed variables get z_L - z_U = grad_f + lambda_jac
-      Number* mult = new Number[n_full_x_];
+      TempArray<Number> mult(n_full_x_);
       memset(mult, 0, sizeof(Number) * n_full_x_);
 
       bool new_x = update_local_x(x);
       if( !tnlp_->eval_grad_f(n_full_x_, full_x_, new_x, mult) )
       {
-         delete[] mult;
          return false;
       }
 
@@ -2743,7 +2669,6 @@ bool TNLPAdapter::ResortBoundMultipliers(
       {
          if( !internal_eval_jac_g(false) )
          {
-            delete[] mult;
             return false;
          }
          DBG_ASSERT(dynamic_cast<const DenseVector*>(&y_c));
@@ -2808,8 +2733,6 @@ bool TNLPAdapter::ResortBoundMultipliers(
             z_U_orig[xidx] = Max(Number(0.0), -mult[xidx]);
          }
       }
-
-      delete[] mult;
    }
 
    return true;
@@ -2904,8 +2827,8 @@ bool TNLPAdapter::internal_eval_jac_g(
       retval = internal_eval_g(new_x);
       if( retval )
       {
-         Number* full_g_pert = new Number[n_full_g_];
-         Number* full_x_pert = new Number[n_full_x_];
+         TempArray<Number> full_g_pert(n_full_g_);
+         TempArray<Number> full_x_pert(n_full_x_);
          IpBlasCopy(n_full_x_, full_x_, 1, full_x_pert, 1);
          // Compute the finite difference Jacobian
          for( Index ivar = 0; ivar < n_full_x_; ivar++ )
@@ -2943,8 +2866,6 @@ bool TNLPAdapter::internal_eval_jac_g(
                }
             }
          }
-         delete[] full_g_pert;
-         delete[] full_x_pert;
 
          // the last point passed to the TNLP is a perturbed one, so x is new again in the next call
          x_tag_for_iterates_ = 0;
@@ -2964,13 +2885,12 @@ void TNLPAdapter::initialize_findiff_jac(
    const Index* jCol
 )
 {
-
    SmartPtr<TripletToCSRConverter> findiff_jac_converter = new TripletToCSRConverter(0);
    // construct structure of a sparse matrix with only Jacobian in it
    // TODO: This could be done more efficiently without detour via
    // symmetric matrix
-   Index* airn = new Index[nz_full_jac_g_];
-   Index* ajcn = new Index[nz_full_jac_g_];
+   TempArray<Index> airn(nz_full_jac_g_);
+   TempArray<Index> ajcn(nz_full_jac_g_);
    for( Index i = 0; i < nz_full_jac_g_; i++ )
    {
       airn[i] = jCol[i];
@@ -2978,8 +2898,6 @@ void TNLPAdapter::initialize_findiff_jac(
    }
    // Get the column ordered sparse representation
    findiff_jac_nnz_ = findiff_jac_converter->InitializeConverter(n_full_g_ + n_full_x_, nz_full_jac_g_, airn, ajcn);
-   delete[] airn;
-   delete[] ajcn;
    if( findiff_jac_nnz_ != nz_full_jac_g_ )
    {
       THROW_EXCEPTION(INVALID_TNLP,
@@ -3018,7 +2936,6 @@ void TNLPAdapter::initialize_findiff_jac(
    {
       findiff_jac_postriplet_[i] = postrip[i];
    }
-
 }
 
 bool TNLPAdapter::CheckDerivatives(
@@ -3056,15 +2973,15 @@ bool TNLPAdapter::CheckDerivatives(
 
    // Obtain starting point as reference point at which derivative
    // test should be performed
-   Number* xref = new Number[nx];
+   TempArray<Number> xref(nx);
    tnlp_->get_starting_point(nx, true, xref, false, NULL, NULL, ng, false, NULL);
 
    // Perform a random perturbation.  We need the bounds to make sure
    // they are not violated
-   Number* x_l = new Number[nx];
-   Number* x_u = new Number[nx];
-   Number* g_l = new Number[ng];
-   Number* g_u = new Number[ng];
+   TempArray<Number> x_l(nx);
+   TempArray<Number> x_u(nx);
+   TempArray<Number> g_l(ng);
+   TempArray<Number> g_u(ng);
    retval = tnlp_->get_bounds_info(nx, x_l, x_u, ng, g_l, g_u);
    ASSERT_EXCEPTION(retval, INVALID_TNLP, "get_bounds_info returned false in derivative checker");
    IpResetRandom01();
@@ -3076,15 +2993,11 @@ bool TNLPAdapter::CheckDerivatives(
       const Number random_number = IpRandom01();
       xref[i] = lower + random_number * interval;
    }
-   delete[] x_l;
-   delete[] x_u;
-   delete[] g_l;
-   delete[] g_u;
 
    // Obtain value of objective and constraints at reference point
    bool new_x = true;
    Number fref;
-   Number* gref = NULL;
+   TempArray<Number> gref;
    if( ng > 0 )
    {
       gref = new Number[ng];
@@ -3101,14 +3014,14 @@ bool TNLPAdapter::CheckDerivatives(
    }
 
    // Obtain gradient of objective function at reference point
-   Number* grad_f = new Number[nx];
+   TempArray<Number> grad_f(nx);
    retval = tnlp_->eval_grad_f(nx, xref, true, grad_f);
    ASSERT_EXCEPTION(retval, ERROR_IN_TNLP_DERIVATIVE_TEST,
                     "In TNLP derivative test: grad_f could not be evaluated at reference point.");
 
-   Index* g_iRow = NULL;
-   Index* g_jCol = NULL;
-   Number* jac_g = NULL;
+   TempArray<Index> g_iRow;
+   TempArray<Index> g_jCol;
+   TempArray<Number> jac_g;
    if( ng > 0 )
    {
       // Obtain constraint Jacobian at reference point (including structure)
@@ -3150,11 +3063,11 @@ bool TNLPAdapter::CheckDerivatives(
    }
 
    // Space for the perturbed point
-   Number* xpert = new Number[nx];
+   TempArray<Number> xpert(nx);
    IpBlasCopy(nx, xref, 1, xpert, 1);
 
    // Space for constraints at perturbed point
-   Number* gpert = NULL;
+   TempArray<Number> gpert;
    if( ng > 0 )
    {
       gpert = new Number[ng];
@@ -3239,7 +3152,6 @@ bool TNLPAdapter::CheckDerivatives(
 
          xpert[ivar] = xref[ivar];
       }
-
    }
    const Number zero = 0.;
    if( deriv_test == SECOND_ORDER_TEST || deriv_test == ONLY_SECOND_ORDER_TEST )
@@ -3247,8 +3159,8 @@ bool TNLPAdapter::CheckDerivatives(
       jnlst_->Printf(J_SUMMARY, J_NLP, "Starting derivative checker for second derivatives with obj_factor or lambda[i] set to 1.5.\n\n");
 
       // Get sparsity structure of Hessian
-      Index* h_iRow = new Index[nz_hess_lag];
-      Index* h_jCol = new Index[nz_hess_lag];
+      TempArray<Index> h_iRow(nz_hess_lag);
+      TempArray<Index> h_jCol(nz_hess_lag);
       retval = tnlp_->eval_h(nx, NULL, false, 0., ng, NULL, false, nz_hess_lag, h_iRow, h_jCol, NULL);
       ASSERT_EXCEPTION(retval, ERROR_IN_TNLP_DERIVATIVE_TEST,
                        "In TNLP derivative test: Hessian structure could not be evaluated.");
@@ -3277,17 +3189,17 @@ bool TNLPAdapter::CheckDerivatives(
          }
       }
 #endif
-      Number* h_values = new Number[nz_hess_lag];
+      TempArray<Number> h_values(nz_hess_lag);
 
-      Number* lambda = NULL;
+      TempArray<Number> lambda;
       if( ng > 0 )
       {
          lambda = new Number[ng];
          IpBlasCopy(ng, &zero, 0, lambda, 1);
       }
-      Number* gradref = new Number[nx]; // gradient of objective or constraint at reference point
-      Number* gradpert = new Number[nx]; // gradient of objective or constraint at perturbed point
-      Number* jacpert = new Number[nz_jac_g];
+      TempArray<Number> gradref(nx); // gradient of objective or constraint at reference point
+      TempArray<Number> gradpert(nx); // gradient of objective or constraint at perturbed point
+      TempArray<Number> jacpert(nz_jac_g);
 
       // Check all Hessians
       const Index icon_first = Max(Index(-1), deriv_test_start_index);
@@ -3392,7 +3304,6 @@ bool TNLPAdapter::CheckDerivatives(
                                     deriv_approx, rel_error);
                   }
                }
-
             }
 
             xpert[ivar] = xref[ivar];
@@ -3403,25 +3314,8 @@ bool TNLPAdapter::CheckDerivatives(
             lambda[icon] = 0.;
          }
       }
-
-      delete[] h_iRow;
-      delete[] h_jCol;
-      delete[] h_values;
-      delete[] lambda;
-      delete[] gradref;
-      delete[] gradpert;
-      delete[] jacpert;
    }
 
-   delete[] xref;
-   delete[] gref;
-   delete[] grad_f;
-   delete[] xpert;
-   delete[] g_iRow;
-   delete[] g_jCol;
-   delete[] jac_g;
-   delete[] gpert;
-
    if( nerrors == 0 )
    {
       jnlst_->Printf(J_SUMMARY, J_NLP, "\nNo errors detected by derivative checker.\n\n");
@@ -3453,12 +3347,10 @@ bool TNLPAdapter::DetermineDependentConstraints(
 
    // Get the structure of the big Jacobian of g and get the map for
    // the equality constraints entries
-   Index* g_iRow = new Index[nz_full_jac_g_];
-   Index* g_jCol = new Index[nz_full_jac_g_];
+   TempArray<Index> g_iRow(nz_full_jac_g_);
+   TempArray<Index> g_jCol(nz_full_jac_g_);
    if( !tnlp_->eval_jac_g(n_full_x_, NULL, false, n_full_g_, nz_full_jac_g_, g_iRow, g_jCol, NULL) )
    {
-      delete[] g_iRow;
-      delete[] g_jCol;
       return false;
    }
    if( index_style_ == TNLP::FORTRAN_STYLE )
@@ -3488,16 +3380,16 @@ bool TNLPAdapter::DetermineDependentConstraints(
    // TODO: Here we don't handle
    // fixed_variable_treatment_==MAKE_PARAMETER correctly (yet?)
    // Include space for the RHS
-   Index* jac_c_map = new Index[nz_full_jac_g_];
-   Index* jac_c_iRow = new Index[nz_full_jac_g_ + n_c];
-   Index* jac_c_jCol = new Index[nz_full_jac_g_ + n_c];
+   TempArray<Index> jac_c_map(nz_full_jac_g_);
+   TempArray<Index> jac_c_iRow(nz_full_jac_g_ + n_c);
+   TempArray<Index> jac_c_jCol(nz_full_jac_g_ + n_c);
    Index nz_jac_c = 0;
    const Index* c_row_pos = P_c_g->CompressedPosIndices();
    Index n_fixed = n_full_x_ - n_x_var;
    if( n_fixed > 0 )
    {
       // Get the reverse map for the fixed variables
-      Index* c_col_pos = new Index[n_full_x_];
+      TempArray<Index> c_col_pos(n_full_x_);
       for( Index i = 0; i < n_full_x_; i++ )
       {
          c_col_pos[i] = -1;
@@ -3518,7 +3410,6 @@ bool TNLPAdapter::DetermineDependentConstraints(
             nz_jac_c++;
          }
       }
-      delete[] c_col_pos;
    }
    else
    {
@@ -3535,17 +3426,12 @@ bool TNLPAdapter::DetermineDependentConstraints(
          }
       }
    }
-   delete[] g_iRow;
-   delete[] g_jCol;
 
    // First we evaluate the equality constraint Jacobian at the
    // starting point with some random perturbation (projected into bounds)
    if( !tnlp_->get_starting_point(n_full_x_, true, full_x_, false, NULL,
                                   NULL, n_full_g_, false, NULL) )
    {
-      delete[] jac_c_iRow;
-      delete[] jac_c_jCol;
-      delete[] jac_c_map;
       return false;
    }
    // Here we reset the random number generator
@@ -3558,31 +3444,23 @@ bool TNLPAdapter::DetermineDependentConstraints(
       const Number random_number = IpRandom01();
       full_x_[i] = lower + random_number * interval;
    }
-   Number* g_vals = NULL;
+   TempArray<Number> g_vals;
    if( dependency_detection_with_rhs_ )
    {
       g_vals = new Number[n_full_g_];
       if( !tnlp_->eval_g(n_full_x_, full_x_, true, n_full_g_, g_vals) )
       {
-         delete[] jac_c_iRow;
-         delete[] jac_c_jCol;
-         delete[] jac_c_map;
-         delete[] g_vals;
          return false;
       }
    }
    if( !tnlp_->eval_jac_g(n_full_x_, full_x_, !dependency_detection_with_rhs_, n_full_g_, nz_full_jac_g_, NULL, NULL,
                           jac_g_) )
    {
-      delete[] jac_c_iRow;
-      delete[] jac_c_jCol;
-      delete[] jac_c_map;
-      delete[] g_vals;
       return false;
    }
 
    // Get the equality constraint Jacobian out
-   Number* jac_c_vals = new Number[nz_jac_c + n_c];
+   TempArray<Number> jac_c_vals(nz_jac_c + n_c);
    for( Index i = 0; i < nz_jac_c; i++ )
    {
       jac_c_vals[i] = jac_g_[jac_c_map[i]];
@@ -3613,13 +3491,6 @@ bool TNLPAdapter::DetermineDependentConstraints(
    // once...
    dependency_detector_ = NULL;
 
-   delete[] jac_c_iRow;
-   delete[] jac_c_jCol;
-   delete[] jac_c_map;
-   delete[] jac_c_vals;
-   delete[] g_vals;
-
    return retval;
 }
-
 } // namespace Ipopt
-- 
2.43.0


From 062e851d3918b90a87e2b7e10ee1830b96f78082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:08 +0000
Subject: [PATCH 46/61] fix: increase the perturbation also if the system is
 singular after the degeneracy test was given up

PerturbForSingularity left the perturbations unchanged, so that the same
singular matrix was factorized again and again.
---
 src/Algorithm/IpPDPerturbationHandler.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/IpPDPerturbationHandler.cpp b/src/Algorithm/IpPDPerturbationHandler.cpp
index 443c362..10f0944 100644
--- a/src/Algorithm/IpPDPerturbationHandler.cpp
+++ b/src/Algorithm/IpPDPerturbationHandler.cpp
@@ -327,7 +327,15 @@ bool PDPerturbationHandler::PerturbForSingularity(
             }
             break;
          case NO_TEST:
-            DBG_ASSERT(false && "we should not get here.");
+            // PerturbForWrongInertia gave up the test and started over with perturbed constraints,
+            // so do the same thing as if we were encountering negative curvature
+            DBG_ASSERT(delta_c_curr_ > 0.);
+            retval = get_deltas_for_wrong_inertia(delta_x, delta_s, delta_c, delta_d);
+            if( !retval )
+            {
+               return false;
+            }
+            break;
       }
    }
    else
-- 
2.43.0


From d2736e06816ee0ba66e2e829b075bf83e848a680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:08 +0000
Subject: [PATCH 47/61] fix: do not factorize with undefined perturbations if
 ConsiderNewSystem fails

---
 src/Algorithm/IpPDFullSpaceSolver.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/IpPDFullSpaceSolver.cpp b/src/Algorithm/IpPDFullSpaceSolver.cpp
index 195ab4d..745a73c 100644
--- a/src/Algorithm/IpPDFullSpaceSolver.cpp
+++ b/src/Algorithm/IpPDFullSpaceSolver.cpp
@@ -494,7 +494,13 @@ bool PDFullSpaceSolver::SolveOnce(
       Number delta_s;
       Number delta_c;
       Number delta_d;
-      perturbHandler_->ConsiderNewSystem(delta_x, delta_s, delta_c, delta_d);
+      if( !perturbHandler_->ConsiderNewSystem(delta_x, delta_s, delta_c, delta_d) )
+      {
+         Jnlst().Printf(J_DETAILED, J_LINEAR_ALGEBRA,
+                        "ConsiderNewSystem can't find perturbation\n");
+         IpData().TimingStats().PDSystemSolverSolveOnce().End();
+         return false;
+      }
 
       retval = SYMSOLVER_SINGULAR;
       while( retval != SYMSOLVER_SUCCESS )
-- 
2.43.0


From df9f56441295721dfa9da382035759703ec63bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:21 +0000
Subject: [PATCH 48/61] fix: do not use solutions of the linear system that are
 not finite

They led to a barrier parameter that is not a number and then
to an endless loop in the search for a perturbation.
---
 src/Algorithm/IpPDFullSpaceSolver.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Algorithm/IpPDFullSpaceSolver.cpp b/src/Algorithm/IpPDFullSpaceSolver.cpp
index 745a73c..2077106 100644
--- a/src/Algorithm/IpPDFullSpaceSolver.cpp
+++ b/src/Algorithm/IpPDFullSpaceSolver.cpp
@@ -349,6 +349,15 @@ bool PDFullSpaceSolver::Solve(
 
    } // End of loop for solving the linear system (incl. modifications)
 
+   if( !IsFiniteNumber(res.Asum()) )
+   {
+      // The linear solver returned something that is not a solution.
+      Jnlst().Printf(J_DETAILED, J_LINEAR_ALGEBRA,
+                     "Solution of linear system contains values that are not finite.\n");
+      IpData().TimingStats().PDSystemSolverTotal().End();
+      return false;
+   }
+
    // Finally let's assemble the res result vectors
    if( alpha != 0. )
    {
-- 
2.43.0


From 96479078db9489507fa6377028cf98d12128466f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:21 +0000
Subject: [PATCH 49/61] fix: do not solve with perturbations that were given up
 for this system

If no perturbation could be found for a system and another solve with the same
system was requested, it was done with the last perturbations, which
are larger than max_hessian_perturbation, and without inertia check.
---
 src/Algorithm/IpPDFullSpaceSolver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Algorithm/IpPDFullSpaceSolver.cpp b/src/Algorithm/IpPDFullSpaceSolver.cpp
index 2077106..c66e33d 100644
--- a/src/Algorithm/IpPDFullSpaceSolver.cpp
+++ b/src/Algorithm/IpPDFullSpaceSolver.cpp
@@ -222,6 +222,9 @@ bool PDFullSpaceSolver::Solve(
       {
          // If system seems not to be solvable, we return with false
          // and let the calling routine deal with it.
+         // The current perturbations are not good for this system, so do not
+         // use them if we are called again for the same system.
+         dummy_cache_.Clear();
          IpData().TimingStats().PDSystemSolverTotal().End();
          return false;
       }
-- 
2.43.0


From fb90ec9d26e1fbb718ce2a7723be2cc20df0fcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:51 +0000
Subject: [PATCH 50/61] fix: do not use corrector steps for which the linear
 system could not be solved

The second-order correction of the CG penalty acceptor and the corrector of the
filter acceptor used a vector that has not been computed then.
---
 src/Algorithm/IpFilterLSAcceptor.cpp          | 24 ++++++++++++++++---
 .../CGPenalty/IpCGPenaltyLSAcceptor.cpp       |  8 ++++++-
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/Algorithm/IpFilterLSAcceptor.cpp b/src/Algorithm/IpFilterLSAcceptor.cpp
index 6ba41b5..e1c1fc2 100644
--- a/src/Algorithm/IpFilterLSAcceptor.cpp
+++ b/src/Algorithm/IpFilterLSAcceptor.cpp
@@ -711,7 +711,13 @@ FilterLSAcceptor::TryCorrector(
             SmartPtr<IteratesVector> step_aff = delta_corr->MakeNewIteratesVector(true);
 
             // Now solve the primal-dual system to get the step
-            pd_solver_->Solve(-1.0, 0.0, *rhs_aff, *step_aff, false);
+            if( !pd_solver_->Solve(-1.0, 0.0, *rhs_aff, *step_aff, false) )
+            {
+               Jnlst().Printf(J_DETAILED, J_LINE_SEARCH,
+                              "The linear system could not be solved for the corrector step.\n");
+               IpData().TimingStats().TryCorrector().End();
+               return false;
+            }
 
             DBG_PRINT_VECTOR(2, "step_aff", *step_aff);
 
@@ -741,7 +747,13 @@ FilterLSAcceptor::TryCorrector(
          IpNLP().Pd_U()->TransMultVector(1., *delta_aff->s(), 0., *rhs->v_U_NonConst());
          rhs->v_U_NonConst()->ElementWiseMultiply(*delta_aff->v_U());
 
-         pd_solver_->Solve(1.0, 1.0, *rhs, *delta_corr, true);
+         if( !pd_solver_->Solve(1.0, 1.0, *rhs, *delta_corr, true) )
+         {
+            Jnlst().Printf(J_DETAILED, J_LINE_SEARCH,
+                           "The linear system could not be solved for the corrector step.\n");
+            IpData().TimingStats().TryCorrector().End();
+            return false;
+         }
 
          DBG_PRINT_VECTOR(2, "delta_corr", *delta_corr);
       }
@@ -798,7 +810,13 @@ FilterLSAcceptor::TryCorrector(
 
          DBG_PRINT_VECTOR(2, "rhs", *rhs);
 
-         pd_solver_->Solve(1.0, 1.0, *rhs, *delta_corr, true);
+         if( !pd_solver_->Solve(1.0, 1.0, *rhs, *delta_corr, true) )
+         {
+            Jnlst().Printf(J_DETAILED, J_LINE_SEARCH,
+                           "The linear system could not be solved for the corrector step.\n");
+            IpData().TimingStats().TryCorrector().End();
+            return false;
+         }
 
          DBG_PRINT_VECTOR(2, "delta_corr", *delta_corr);
       }
diff --git a/src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp b/src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp
index 5e4ac0a..6f92a04 100644
--- a/src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp
+++ b/src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp
@@ -507,7 +507,13 @@ bool CGPenaltyLSAcceptor::TrySecondOrderCorrection(
       rhs->Set_z_U(*IpCq().curr_relaxed_compl_x_U());
       rhs->Set_v_L(*IpCq().curr_relaxed_compl_s_L());
       rhs->Set_v_U(*IpCq().curr_relaxed_compl_s_U());
-      pd_solver_->Solve(-1.0, 0.0, *rhs, *delta_soc, true);
+      bool retval = pd_solver_->Solve(-1.0, 0.0, *rhs, *delta_soc, true);
+      if( !retval )
+      {
+         Jnlst().Printf(J_DETAILED, J_LINE_SEARCH,
+                        "The linear system could not be solved for the corrector step.\n");
+         return false;
+      }
       // Update the delta_y_c and delta_y_d vectors in case we do
       // additional SOC steps
       delta_y_c = ConstPtr(delta_soc->y_c());
-- 
2.43.0


From 127327034cedca6e4512683996f9e8b75fb0d597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:48 +0000
Subject: [PATCH 51/61] fix: empty rows in the triplet to CSR converter

---
 src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp b/src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp
index 4ab2bc5..be3c459 100644
--- a/src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp
+++ b/src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp
@@ -184,9 +184,9 @@ Index TripletToCSRConverter::InitializeConverter(
          nonzeros_compressed_++;
          ja_tmp[nonzeros_compressed_] = jcol;
          ipos_first_tmp[nonzeros_compressed_] = list_iterator->PosTriplet();
-         if( cur_row != irow )
+         while( cur_row < irow )
          {
-            // this is in a new row
+            // this is in a new row (there may be empty rows in between)
 
             ia_[cur_row] = nonzeros_compressed_;
             cur_row++;
-- 
2.43.0


From 8104091dfc2ebc875d977509e47ba397f03149af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:47 +0000
Subject: [PATCH 52/61] fix: do not repeat singular factorizations forever if
 there is no constraint perturbation

---
 src/Algorithm/IpPDPerturbationHandler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/IpPDPerturbationHandler.cpp b/src/Algorithm/IpPDPerturbationHandler.cpp
index 10f0944..62f1d7b 100644
--- a/src/Algorithm/IpPDPerturbationHandler.cpp
+++ b/src/Algorithm/IpPDPerturbationHandler.cpp
@@ -340,9 +340,9 @@ bool PDPerturbationHandler::PerturbForSingularity(
    }
    else
    {
-      if( delta_c_curr_ > 0. )   // || get_deltas_for_wrong_inertia_called_) {
+      if( delta_c_curr_ > 0. || delta_cd() == 0. )   // || get_deltas_for_wrong_inertia_called_) {
       {
-         // If we already used a perturbation for the constraints, we do
+         // If we already used a perturbation for the constraints (or have none), we do
          // the same thing as if we were encountering negative curvature
          retval = get_deltas_for_wrong_inertia(delta_x, delta_s, delta_c, delta_d);
          if( !retval )
-- 
2.43.0


From d01a45d2049a3a3d185369889cd931dd92953f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:27 +0000
Subject: [PATCH 53/61] fix: ignore null pivots in the identity block when
 looking for dependent constraints

---
 src/Algorithm/LinearSolvers/IpTSymLinearSolver.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/LinearSolvers/IpTSymLinearSolver.cpp b/src/Algorithm/LinearSolvers/IpTSymLinearSolver.cpp
index c284bef..0a48f05 100644
--- a/src/Algorithm/LinearSolvers/IpTSymLinearSolver.cpp
+++ b/src/Algorithm/LinearSolvers/IpTSymLinearSolver.cpp
@@ -706,9 +706,18 @@ ESymSolverStatus TSymLinearSolver::DetermineDependentRows(
    // We need to correct the indices
    if( retval == SYMSOLVER_SUCCESS )
    {
-      for( std::list<Index>::iterator i = c_deps.begin(); i != c_deps.end(); ++i )
+      for( std::list<Index>::iterator i = c_deps.begin(); i != c_deps.end(); )
       {
          *i -= n_cols;
+         if( *i < 0 )
+         {
+            // the solver complained about the identity block, which does not correspond to a row of the Jacobian
+            i = c_deps.erase(i);
+         }
+         else
+         {
+            ++i;
+         }
       }
    }
 
-- 
2.43.0


From 226c88ccde76cc6079a0e834b337997d4d694ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:27 +0000
Subject: [PATCH 54/61] fix: refuse num_linear_variables beyond the number of
 variables

---
 src/Interfaces/IpTNLPAdapter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 4ecbc08..4e89f9f 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2256,6 +2256,8 @@ void TNLPAdapter::GetQuasiNewtonApproximationSpaces(
    TempArray<Index> pos_nonlin_vars;
    if( num_nonlin_vars < 0 )
    {
+      ASSERT_EXCEPTION(num_linear_variables_ <= n_full_x_, OPTION_INVALID,
+                       "Option \"num_linear_variables\" is larger than the number of variables.");
       num_nonlin_vars = n_full_x_ - num_linear_variables_;
       pos_nonlin_vars = new Index[num_nonlin_vars];
       Index ii = 0;
-- 
2.43.0


From ea7a8d24730ec00ff468d22d5732c1e47fe203f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:35 +0000
Subject: [PATCH 55/61] fix: no slack-based scaling while there is no iterate
 yet

---
 src/Algorithm/IpIpoptData.cpp                          |  2 ++
 src/Algorithm/IpIpoptData.hpp                          | 10 ++++++++++
 .../LinearSolvers/IpSlackBasedTSymScalingMethod.cpp    | 10 ++++++++++
 3 files changed, 22 insertions(+)

diff --git a/src/Algorithm/IpIpoptData.cpp b/src/Algorithm/IpIpoptData.cpp
index 68596e8..7e8e8e9 100644
--- a/src/Algorithm/IpIpoptData.cpp
+++ b/src/Algorithm/IpIpoptData.cpp
@@ -77,6 +77,7 @@ bool IpoptData::Initialize(
    curr_tau_ = -1.;
    tau_initialized_ = false;
    have_prototypes_ = false;
+   have_curr_ = false;
    have_deltas_ = false;
    have_affine_deltas_ = false;
 
@@ -127,6 +128,7 @@ bool IpoptData::InitializeDataStructures(
    // clear curr_ from previous optimize, if any, in case ip_nlp.InitializeStructures() fails,
    // e.g., because OrigIpoptNLP throws a too-few-degrees-of-freedom exception
    curr_ = NULL;
+   have_curr_ = false;
    iterates_space_ = NULL;
 
    // Get the required linear algebra structures from the model
diff --git a/src/Algorithm/IpIpoptData.hpp b/src/Algorithm/IpIpoptData.hpp
index 067ef8f..39aaf9b 100644
--- a/src/Algorithm/IpIpoptData.hpp
+++ b/src/Algorithm/IpIpoptData.hpp
@@ -331,6 +331,12 @@ public:
 
    /** @name Public Methods for updating iterates */
    ///@{
+   /** Whether curr() is an iterate, and not only the prototype for the first one */
+   bool HaveCurr() const
+   {
+      return have_curr_;
+   }
+
    /** Copy the trial values to the current values */
    inline
    void CopyTrialToCurrent();
@@ -715,6 +721,9 @@ private:
     */
    bool have_prototypes_;
 
+   /** Flag indicating if a current iterate has been set (curr_ is only a prototype before) */
+   bool have_curr_;
+
    /** @name Global algorithm parameters.
     *
     *  Those are options that can
@@ -851,6 +860,7 @@ inline
 void IpoptData::CopyTrialToCurrent()
 {
    curr_ = trial_;
+   have_curr_ = true;
 #if IPOPT_CHECKLEVEL > 0
 
    if (IsValid(curr_))
diff --git a/src/Algorithm/LinearSolvers/IpSlackBasedTSymScalingMethod.cpp b/src/Algorithm/LinearSolvers/IpSlackBasedTSymScalingMethod.cpp
index b72fdc7..156575b 100644
--- a/src/Algorithm/LinearSolvers/IpSlackBasedTSymScalingMethod.cpp
+++ b/src/Algorithm/LinearSolvers/IpSlackBasedTSymScalingMethod.cpp
@@ -46,6 +46,16 @@ bool SlackBasedTSymScalingMethod::ComputeSymTScalingFactors(
    }
    scaling_factors += nx;
 
+   if( !IpData().HaveCurr() )
+   {
+      // the initial iterate is being computed, so there are no slacks yet
+      for( Index i = 0; i < ns + nc + nd; i++ )
+      {
+         scaling_factors[i] = 1.;
+      }
+      return true;
+   }
+
    SmartPtr<Vector> tmp = IpData().curr()->s()->MakeNew();
 
    // Lower bounds
-- 
2.43.0


From ca17b26fbe0bac4bf885dcea55fc9c53c33272bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:51 +0000
Subject: [PATCH 56/61] fix: derivative checker must not use a starting point
 that the user refused to provide

---
 src/Interfaces/IpTNLPAdapter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 4e89f9f..7bd3063 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2976,7 +2976,8 @@ bool TNLPAdapter::CheckDerivatives(
    // Obtain starting point as reference point at which derivative
    // test should be performed
    TempArray<Number> xref(nx);
-   tnlp_->get_starting_point(nx, true, xref, false, NULL, NULL, ng, false, NULL);
+   retval = tnlp_->get_starting_point(nx, true, xref, false, NULL, NULL, ng, false, NULL);
+   ASSERT_EXCEPTION(retval, INVALID_TNLP, "get_starting_point returned false in derivative checker");
 
    // Perform a random perturbation.  We need the bounds to make sure
    // they are not violated
-- 
2.43.0


From 4d3278803eae0f438d6ff56153f16c4cb82b158a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:51 +0000
Subject: [PATCH 57/61] fix: derivative checker compares derivatives at a point
 within the variable bounds

---
 src/Interfaces/IpTNLPAdapter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 7bd3063..bf847f4 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2990,8 +2990,9 @@ bool TNLPAdapter::CheckDerivatives(
    IpResetRandom01();
    for( Index i = 0; i < nx; i++ )
    {
-      const Number lower = Max(x_l[i], xref[i] - point_perturbation_radius_);
-      const Number upper = Min(x_u[i], xref[i] + point_perturbation_radius_);
+      // if the starting point violates a bound by more than the radius, then use the bound
+      const Number lower = Max(x_l[i], Min(x_u[i], xref[i] - point_perturbation_radius_));
+      const Number upper = Min(x_u[i], Max(x_l[i], xref[i] + point_perturbation_radius_));
       const Number interval = upper - lower;
       const Number random_number = IpRandom01();
       xref[i] = lower + random_number * interval;
-- 
2.43.0


From 0fde07211b56073dca7a5da27613223cf53ce1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:51 +0000
Subject: [PATCH 58/61] fix: derivative checker has to report derivatives that
 are NaN

---
 src/Interfaces/IpTNLPAdapter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index bf847f4..3018aca 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -3105,7 +3105,7 @@ bool TNLPAdapter::CheckDerivatives(
          Number deriv_exact = grad_f[ivar];
          Number rel_error = std::abs(deriv_approx - deriv_exact) / Max(std::abs(deriv_approx), derivative_test_tol_);
          char cflag = ' ';
-         if( rel_error >= derivative_test_tol_ )
+         if( !(rel_error < derivative_test_tol_) )
          {
             cflag = '*';
             nerrors++;
@@ -3136,7 +3136,7 @@ bool TNLPAdapter::CheckDerivatives(
                }
                rel_error = std::abs(deriv_approx - deriv_exact) / Max(std::abs(deriv_approx), derivative_test_tol_);
                cflag = ' ';
-               if( rel_error >= derivative_test_tol_ )
+               if( !(rel_error < derivative_test_tol_) )
                {
                   cflag = '*';
                   nerrors++;
@@ -3282,7 +3282,7 @@ bool TNLPAdapter::CheckDerivatives(
                }
                Number rel_error = std::abs(deriv_approx - deriv_exact) / Max(std::abs(deriv_approx), derivative_test_tol_);
                char cflag = ' ';
-               if( rel_error >= derivative_test_tol_ )
+               if( !(rel_error < derivative_test_tol_) )
                {
                   cflag = '*';
                   nerrors++;
-- 
2.43.0


From 94d04835f4f2efef061added47a068fe5fd3212c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:06 +0000
Subject: [PATCH 59/61] fix: finite differences must not leave the bounds of a
 variable in a narrow box

---
 src/Interfaces/IpTNLPAdapter.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 3018aca..3372317 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -1736,6 +1736,12 @@ bool TNLPAdapter::Eval_grad_f(
                   // if at upper bound, then change direction towards lower bound
                   this_perturbation = -this_perturbation;
                   full_x_pert[ivar] = xorig + this_perturbation;
+                  if( full_x_pert[ivar] < findiff_x_l_[ivar] )
+                  {
+                     // if there is not enough space in either direction, then go to the farther bound
+                     full_x_pert[ivar] = findiff_x_u_[ivar] - xorig > xorig - findiff_x_l_[ivar] ? findiff_x_u_[ivar] : findiff_x_l_[ivar];
+                     this_perturbation = full_x_pert[ivar] - xorig;
+                  }
                }
                Number f_pert;
                retvalue = tnlp_->eval_f(n_full_x_, full_x_pert, true, f_pert);
@@ -2845,6 +2851,12 @@ bool TNLPAdapter::internal_eval_jac_g(
                   // if at upper bound, then change direction towards lower bound
                   this_perturbation = -this_perturbation;
                   full_x_pert[ivar] = xorig + this_perturbation;
+                  if( full_x_pert[ivar] < findiff_x_l_[ivar] )
+                  {
+                     // if there is not enough space in either direction, then go to the farther bound
+                     full_x_pert[ivar] = findiff_x_u_[ivar] - xorig > xorig - findiff_x_l_[ivar] ? findiff_x_u_[ivar] : findiff_x_l_[ivar];
+                     this_perturbation = full_x_pert[ivar] - xorig;
+                  }
                }
                retval = tnlp_->eval_g(n_full_x_, full_x_pert, true, n_full_g_, full_g_pert);
                if( !retval )
-- 
2.43.0


From 41d4e0acc74bd0ad03ed7db3424f3a49f69e3266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:19 +0000
Subject: [PATCH 60/61] fix: limited-memory BFGS without history must not
 access missing data in restoration phase

---
 src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp b/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
index 662f52e..3c3d0ad 100644
--- a/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
+++ b/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
@@ -384,7 +384,7 @@ void LimMemQuasiNewtonUpdater::UpdateHessian()
 
             bool augment_memory = UpdateInternalData(*s_new, *y_new, ypart_new);
 
-            if( update_for_resto_ )
+            if( update_for_resto_ && limited_memory_max_history_ > 0 )
             {
                Number dmin = D_->Min();
                if( dmin <= 0. )
-- 
2.43.0


From 0b93e38748ac72ed6ef4999bae4fcfc2a3390133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:19 +0000
Subject: [PATCH 61/61] fix: undoing the first SR1 update must not restore data
 of an earlier approximation

---
 src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp b/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
index 3c3d0ad..990dda8 100644
--- a/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
+++ b/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
@@ -269,6 +269,10 @@ void LimMemQuasiNewtonUpdater::UpdateHessian()
          // Set up W to be multiple of I
          sigma_ = limited_memory_init_val_;
       }
+
+      // an SR1 update may be undone before a backup has been taken since this start
+      StoreInternalDataBackup();
+
       SetW();
       return;
    }
-- 
2.43.0

