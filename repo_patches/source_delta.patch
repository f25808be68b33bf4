From cd16b12a6c28e7649858b917de454880a12977dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 01/78] fix: CondExp with identically constant comparison
 returned only the value of the selected operand

When left and right were both constants, the result was the constant value of
if_true or if_false, and hence a dependence of that operand on variables
or dynamic parameters was lost; e.g., atan2(constant, variable).
---
 include/cppad/core/cond_exp.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/cppad/core/cond_exp.hpp b/include/cppad/core/cond_exp.hpp
index 2e354f9..39defa2 100644
--- a/include/cppad/core/cond_exp.hpp
+++ b/include/cppad/core/cond_exp.hpp
@@ -173,9 +173,15 @@ AD<Base> CondExpOp(
 
     // check first case where do not need to tape
     if( IdenticalCon(left) && IdenticalCon(right) )
-    {   result = CondExpOp(
-            cop, left.value_, right.value_, if_true.value_, if_false.value_
+    {   // The comparison is known, but the selected operand may be a variable
+        // or dynamic parameter (so return it and not just its value).
+        Base flag = CondExpOp(
+            cop, left.value_, right.value_, Base(1), Base(0)
         );
+        if( IdenticalOne(flag) )
+            result = if_true;
+        else
+            result = if_false;
         return result;
     }
 
-- 
2.43.0


From 91e5d7acd8365ccb0ae522ad1bb35748bec79dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 02/78] fix: optimize removed stores of parameters in VecAD
 objects

The StppOp and StvpOp operators were not handled when determining operator
usage, so an optimized function lost the corresponding store operations.
---
 include/cppad/local/optimize/get_op_usage.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/cppad/local/optimize/get_op_usage.hpp b/include/cppad/local/optimize/get_op_usage.hpp
index 99806a9..ea3bfcc 100644
--- a/include/cppad/local/optimize/get_op_usage.hpp
+++ b/include/cppad/local/optimize/get_op_usage.hpp
@@ -654,6 +654,24 @@ void get_op_usage(
             }
             break; // --------------------------------------------
 
+            // Store a parameter using a parameter index
+            case StppOp:
+            CPPAD_ASSERT_UNKNOWN( NumRes(op) == 0 );
+            if( vecad_used[ arg2vecad[ arg[0] ] ] )
+                op_usage[i_op] = usage_t(yes_usage);
+            break; // --------------------------------------------
+
+            // Store a parameter using a variable index
+            case StvpOp:
+            CPPAD_ASSERT_UNKNOWN( NumRes(op) == 0 );
+            if( vecad_used[ arg2vecad[ arg[0] ] ] )
+            {   op_usage[i_op] = usage_t(yes_usage);
+                //
+                size_t j_op = random_itr.var2op(size_t(arg[1]));
+                op_usage[j_op] = usage_t(yes_usage);
+            }
+            break; // --------------------------------------------
+
             // Store a variable using a parameter index
             case StpvOp:
             CPPAD_ASSERT_UNKNOWN( NumRes(op) == 0 );
-- 
2.43.0


From d95415270171bd64b36f4cb7af6fe7725cc01696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 03/78] fix: optimize could skip the computation of a VecAD
 index or stored value that is used

Usage of an index or value by a VecAD load or store did not clear the
conditional expressions set for its operator, so a conditional skip could
remove an operator whose result was needed.
---
 include/cppad/local/optimize/get_op_usage.hpp | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/cppad/local/optimize/get_op_usage.hpp b/include/cppad/local/optimize/get_op_usage.hpp
index ea3bfcc..656b410 100644
--- a/include/cppad/local/optimize/get_op_usage.hpp
+++ b/include/cppad/local/optimize/get_op_usage.hpp
@@ -650,7 +650,9 @@ void get_op_usage(
                 vecad_used[i_vec] = true;
                 //
                 size_t j_op = random_itr.var2op(size_t(arg[1]));
-                op_usage[j_op] = usage_t(yes_usage);
+                op_inc_arg_usage(
+                    play, check_csum, i_op, j_op, op_usage, cexp_set
+                );
             }
             break; // --------------------------------------------
 
@@ -668,7 +670,9 @@ void get_op_usage(
             {   op_usage[i_op] = usage_t(yes_usage);
                 //
                 size_t j_op = random_itr.var2op(size_t(arg[1]));
-                op_usage[j_op] = usage_t(yes_usage);
+                op_inc_arg_usage(
+                    play, check_csum, i_op, j_op, op_usage, cexp_set
+                );
             }
             break; // --------------------------------------------
 
@@ -679,7 +683,9 @@ void get_op_usage(
             {   op_usage[i_op] = usage_t(yes_usage);
                 //
                 size_t j_op = random_itr.var2op(size_t(arg[2]));
-                op_usage[j_op] = usage_t(yes_usage);
+                op_inc_arg_usage(
+                    play, check_csum, i_op, j_op, op_usage, cexp_set
+                );
             }
             break; // --------------------------------------------
 
@@ -690,9 +696,13 @@ void get_op_usage(
             {   op_usage[i_op] = usage_t(yes_usage);
                 //
                 size_t j_op = random_itr.var2op(size_t(arg[1]));
-                op_usage[j_op] = usage_t(yes_usage);
+                op_inc_arg_usage(
+                    play, check_csum, i_op, j_op, op_usage, cexp_set
+                );
                 size_t k_op = random_itr.var2op(size_t(arg[2]));
-                op_usage[k_op] = usage_t(yes_usage);
+                op_inc_arg_usage(
+                    play, check_csum, i_op, k_op, op_usage, cexp_set
+                );
             }
             break; // -----------------------------------------------------
 
-- 
2.43.0


From bf9b8c6e11be3a70641e200aa3a348f8c5105b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 04/78] fix: optimize did not update the size of the VecAD load
 to variable mapping

---
 include/cppad/core/optimize.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cppad/core/optimize.hpp b/include/cppad/core/optimize.hpp
index 011a97a..6f3bfde 100644
--- a/include/cppad/core/optimize.hpp
+++ b/include/cppad/core/optimize.hpp
@@ -383,6 +383,9 @@ void ADFun<Base,RecBase>::optimize(const std::string& options)
     // (must use player size because it now has the recoreder information)
     cskip_op_.resize( play_.num_var_op() );
 
+    // resize mapping from VecAD load operators to variables
+    load_op2var_.resize( play_.num_var_load() );
+
     // resize subgraph_info_
     subgraph_info_.resize(
         ind_taddr_.size(),    // n_ind
-- 
2.43.0


From b9d31dd8cbcea54369098df09a75110ba9849cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 05/78] fix: optimizing twice lost dynamic parameters in
 cumulative sums

---
 include/cppad/local/optimize/get_par_usage.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/cppad/local/optimize/get_par_usage.hpp b/include/cppad/local/optimize/get_par_usage.hpp
index 4360fc1..2ebebf9 100644
--- a/include/cppad/local/optimize/get_par_usage.hpp
+++ b/include/cppad/local/optimize/get_par_usage.hpp
@@ -250,8 +250,16 @@ void get_par_usage(
             break;
 
 
-            // cases where only first argument is a parameter
+            // cumulative summation operator
             case CSumOp:
+            CPPAD_ASSERT_UNKNOWN( ! par_is_dyn[ arg[0] ] );
+            par_usage[arg[0]] = true;
+            // dynamic parameters that are added or subtracted
+            for(addr_t i = arg[2]; i < arg[4]; ++i)
+                par_usage[ arg[i] ] = true;
+            break;
+
+            // cases where only first argument is a parameter
             case EqpvOp:
             case DivpvOp:
             case LepvOp:
@@ -261,7 +269,7 @@ void get_par_usage(
             case ParOp:
             case PowpvOp:
             case ZmulpvOp:
-            CPPAD_ASSERT_UNKNOWN( 1 <= NumArg(op) || op == CSumOp )
+            CPPAD_ASSERT_UNKNOWN( 1 <= NumArg(op) )
             par_usage[arg[0]] = true;
             break;
 
-- 
2.43.0


From 95a280c1a0055eef09a72f8be0836106ecc85827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 06/78] fix: checkpoint reverse mode assertion failed when
 optimization removed unused results

---
 include/cppad/core/chkpoint_one/reverse.hpp |  5 ++++-
 include/cppad/core/chkpoint_two/reverse.hpp | 12 ++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/cppad/core/chkpoint_one/reverse.hpp b/include/cppad/core/chkpoint_one/reverse.hpp
index 49fb91e..5f8257a 100644
--- a/include/cppad/core/chkpoint_one/reverse.hpp
+++ b/include/cppad/core/chkpoint_one/reverse.hpp
@@ -45,7 +45,10 @@ bool checkpoint<Base>::reverse(
     for(i = 0; i < m; i++)
     {   for(k = 0; k <= q; k++)
         {   j = i * (q+1) + k;
-            CPPAD_ASSERT_UNKNOWN( check_ty[j] == ty[j] );
+            // optimize replaces results that are not used by zero or nan
+            CPPAD_ASSERT_UNKNOWN( check_ty[j] == ty[j] ||
+                ty[j] == Base(0.0) || CppAD::isnan( ty[j] )
+            );
         }
     }
 # endif
diff --git a/include/cppad/core/chkpoint_two/reverse.hpp b/include/cppad/core/chkpoint_two/reverse.hpp
index b2dcf95..e11a5b8 100644
--- a/include/cppad/core/chkpoint_two/reverse.hpp
+++ b/include/cppad/core/chkpoint_two/reverse.hpp
@@ -65,7 +65,11 @@ bool chkpoint_two<Base>::reverse(
     vector<Base> check = g_ptr->Forward(order_up, taylor_x);
     CPPAD_ASSERT_UNKNOWN( taylor_y.size() == check.size() )
     for(size_t i = 0; i < taylor_y.size(); ++i)
-        CPPAD_ASSERT_UNKNOWN( taylor_y[i] == check[i] );
+    {   // optimize replaces results that are not used by zero or nan
+        CPPAD_ASSERT_UNKNOWN( taylor_y[i] == check[i] ||
+            taylor_y[i] == Base(0.0) || CppAD::isnan( taylor_y[i] )
+        );
+    }
 # endif
     // now can run reverse mode
     partial_x = g_ptr->Reverse(order_up+1, partial_y);
@@ -120,7 +124,11 @@ bool chkpoint_two<Base>::reverse(
     vector< AD<Base> > acheck = ag_ptr->Forward(order_up, ataylor_x);
     CPPAD_ASSERT_UNKNOWN( ataylor_y.size() == acheck.size() )
     for(size_t i = 0; i < ataylor_y.size(); ++i)
-        CPPAD_ASSERT_UNKNOWN( ataylor_y[i] == acheck[i] );
+    {   // optimize replaces results that are not used by zero
+        CPPAD_ASSERT_UNKNOWN(
+            IdenticalZero( ataylor_y[i] ) || ataylor_y[i] == acheck[i]
+        );
+    }
 # endif
     // now can run reverse mode
     apartial_x = ag_ptr->Reverse(order_up+1, apartial_y);
-- 
2.43.0


From 75b3967b355f2f2c498f1dfa72d8cd5264998cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 07/78] fix: val_graph optimization merged VecAD loads and kept
 old value indices for VecAD initial values

---
 include/cppad/local/val_graph/op_hash_table.hpp | 6 ++++++
 include/cppad/local/val_graph/record_new.hpp    | 8 +++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/cppad/local/val_graph/op_hash_table.hpp b/include/cppad/local/val_graph/op_hash_table.hpp
index 72832fa..e9f264f 100644
--- a/include/cppad/local/val_graph/op_hash_table.hpp
+++ b/include/cppad/local/val_graph/op_hash_table.hpp
@@ -223,6 +223,12 @@ public:
         addr_t arg_index = op2arg_index_[i_op];
         addr_t n_arg     = op_ptr->n_arg(arg_index, arg_vec);
         //
+        // load, store
+        // The result depends on the state of a dynamic vector so the same
+        // arguments does not imply the same result.
+        if( op_enum == load_op_enum || op_enum == store_op_enum )
+            return i_op;
+        //
         // nan
         if( op_enum == con_op_enum )
         {   if( CppAD::isnan( con_vec[ arg_vec[arg_index] ] ) )
diff --git a/include/cppad/local/val_graph/record_new.hpp b/include/cppad/local/val_graph/record_new.hpp
index 1df0d97..28e883e 100644
--- a/include/cppad/local/val_graph/record_new.hpp
+++ b/include/cppad/local/val_graph/record_new.hpp
@@ -180,9 +180,11 @@ addr_t tape_t<Value>::record_new(
         // vec_op_enum
         case vec_op_enum:
         CPPAD_ASSERT_UNKNOWN( n_res == 0 );
-        {   addr_t old_which_vector       = var_arg_[arg_index + 0];
-            const Vector<addr_t>& initial = vec_initial_[old_which_vector];
-            addr_t which_vector           = new_tape.record_vec_op(initial);
+        {   addr_t old_which_vector  = var_arg_[arg_index + 0];
+            Vector<addr_t> initial   = vec_initial_[old_which_vector];
+            for(size_t i = 0; i < initial.size(); ++i)
+                initial[i] = new_val_index[ initial[i] ];
+            addr_t which_vector      = new_tape.record_vec_op(initial);
             //
             // new_which_vec
             new_which_vec[old_which_vector] = which_vector;
-- 
2.43.0


From a702d8c6e9146a4cf87020675478975fb0ffed75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 08/78] fix: val_graph optimization removed operands of
 comparisons, stores and prints that it keeps

---
 include/cppad/local/val_graph/rev_depend.hpp | 40 ++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/include/cppad/local/val_graph/rev_depend.hpp b/include/cppad/local/val_graph/rev_depend.hpp
index e7c34ae..2b3a958 100644
--- a/include/cppad/local/val_graph/rev_depend.hpp
+++ b/include/cppad/local/val_graph/rev_depend.hpp
@@ -93,6 +93,10 @@ void tape_t<Value>::rev_depend(
     size_t thread        = thread_alloc::thread_num();
     size_t initial_inuse = thread_alloc::inuse(thread);
 # endif
+    //
+    // keep_compare, keep_print
+    bool keep_compare = option_map_["keep_compare"] == "true";
+    bool keep_print   = option_map_["keep_print"] == "true";
     //
     // con_x, type_x, depend_x, depend_y
     // use CppAD::vector because call_atomic_rev_depend expect it
@@ -232,6 +236,42 @@ void tape_t<Value>::rev_depend(
                     inc_val_use_case(val_index, i_op);
             }
         }
+        else
+        {   //
+            // val_use_case
+            // operators with no results that dead_code will keep
+            if( op_enum == store_op_enum )
+            {   addr_t which_vector = var_arg_[arg_index + 0];
+                if( i_op < vec_last_load[which_vector] )
+                {   inc_val_use_case( var_arg_[arg_index + 1], i_op);
+                    inc_val_use_case( var_arg_[arg_index + 2], i_op);
+                }
+            }
+            else if( op_enum == vec_op_enum )
+            {   addr_t which_vector = var_arg_[arg_index + 0];
+                if( i_op < vec_last_load[which_vector] )
+                {   const Vector<addr_t>& initial = vec_initial_[which_vector];
+                    for(size_t i = 0; i < initial.size(); ++i)
+                        inc_val_use_case( initial[i], i_op);
+                }
+            }
+            else if( op_enum == comp_op_enum )
+            {   bool need_op = keep_compare;
+                need_op &= var_arg_[arg_index + 0] != addr_t(compare_no_enum);
+                if( need_op )
+                {   inc_val_use_case( var_arg_[arg_index + 1], i_op);
+                    inc_val_use_case( var_arg_[arg_index + 2], i_op);
+                }
+            }
+            else if( op_enum == pri_op_enum )
+            {   bool need_op = keep_print;
+                need_op &= var_arg_[arg_index + 2] != this->n_ind();
+                if( need_op )
+                {   inc_val_use_case( var_arg_[arg_index + 2], i_op);
+                    inc_val_use_case( var_arg_[arg_index + 3], i_op);
+                }
+            }
+        }
     }
 # if CPPAD_VAL_GRAPH_TAPE_TRACE
     // inuse
-- 
2.43.0


From f3fc74f93bd2e7f79c4285c5eb8453f6c81ac941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 09/78] fix: fun2val did not handle parameter operands of
 comparisons and print operators

---
 include/cppad/local/val_graph/fun2val.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/cppad/local/val_graph/fun2val.hpp b/include/cppad/local/val_graph/fun2val.hpp
index 30c3475..8b63481 100644
--- a/include/cppad/local/val_graph/fun2val.hpp
+++ b/include/cppad/local/val_graph/fun2val.hpp
@@ -543,8 +543,8 @@ void ADFun<Base, RecBase>::fun2val(
                 case local::NeppOp:
                 case local::LtppOp:
                 case local::LeppOp:
-                left_index  = par2val_index[ var_op_arg[0] ];
-                right_index = par2val_index[ var_op_arg[1] ];
+                left_index  = ensure_par2val_index( var_op_arg[0] );
+                right_index = ensure_par2val_index( var_op_arg[1] );
                 break;
 
                 // first node parameter, second variable
@@ -552,7 +552,7 @@ void ADFun<Base, RecBase>::fun2val(
                 case local::NepvOp:
                 case local::LtpvOp:
                 case local::LepvOp:
-                left_index  = par2val_index[ var_op_arg[0] ];
+                left_index  = ensure_par2val_index( var_op_arg[0] );
                 right_index = var2val_index[ var_op_arg[1] ];
                 break;
 
@@ -560,7 +560,7 @@ void ADFun<Base, RecBase>::fun2val(
                 case local::LtvpOp:
                 case local::LevpOp:
                 left_index  = var2val_index[ var_op_arg[0] ];
-                right_index = par2val_index[ var_op_arg[1] ];
+                right_index = ensure_par2val_index( var_op_arg[1] );
                 break;
 
                 // both nodes variables
@@ -737,7 +737,7 @@ void ADFun<Base, RecBase>::fun2val(
                 //
                 // value_index
                 addr_t value_index;
-                if( var_op_arg[0] & 1 )
+                if( var_op_arg[0] & 2 )
                     value_index = var2val_index[ var_op_arg[3] ];
                 else
                     value_index = ensure_par2val_index( var_op_arg[3] );
-- 
2.43.0


From a21a30e052703bae1d113c534f637c3ffd1f0546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 10/78] fix: val2fun did not handle operators and atomic calls
 with constant results

---
 include/cppad/local/val_graph/val2fun.hpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/cppad/local/val_graph/val2fun.hpp b/include/cppad/local/val_graph/val2fun.hpp
index 6191462..54346f3 100644
--- a/include/cppad/local/val_graph/val2fun.hpp
+++ b/include/cppad/local/val_graph/val2fun.hpp
@@ -374,7 +374,18 @@ void ADFun<Base, RecBase>::val2fun(
         */
         //
         // rec, fun_ad_type, val2fun_index
-        if( is_unary )
+        if( max_ad_type <= constant_enum && (
+            is_unary || is_binary ||
+            op_enum == local::val_graph::csum_op_enum ||
+            op_enum == local::val_graph::dis_op_enum ||
+            op_enum == local::val_graph::cexp_op_enum ) )
+        {   //
+            // the result of this operator is a constant
+            fun_ad_type[res_index]   = constant_enum;
+            val2fun_index[res_index] =
+                rec.put_con_par( val_index2con[res_index] );
+        }
+        else if( is_unary )
         {   //
             fun_ad_type[res_index] = max_ad_type;
             CPPAD_ASSERT_UNKNOWN( n_arg == 1 );
@@ -604,9 +615,9 @@ void ADFun<Base, RecBase>::val2fun(
                 // is_var
                 // base 2 representation of [ is_var(flag), is_var(value) ]
                 addr_t is_var = 0;
-                if( fun_ad_type[flag] == variable_enum )
+                if( ad_type_x[0] == variable_enum )
                     is_var += 1;
-                if( fun_ad_type[value] == variable_enum )
+                if( ad_type_x[1] == variable_enum )
                     is_var += 2;
                 //
                 // rec
@@ -920,7 +931,11 @@ void ADFun<Base, RecBase>::val2fun(
                 //
                 // val2fun_index, fun_ad_type
                 for(addr_t i = 0; i < n_res; ++i)
-                {   val2fun_index[res_index + i] = ay[i].taddr_;
+                {   if( ad_type_y[i] <= constant_enum )
+                        val2fun_index[res_index + i] =
+                            rec.put_con_par( val_index2con[res_index + i] );
+                    else
+                        val2fun_index[res_index + i] = ay[i].taddr_;
                     fun_ad_type[res_index + i]   = ad_type_y[i];
                 }
             }
-- 
2.43.0


From beabb4f9c0d5cda9dd7deecac7f5a6b6d1fd3d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 11/78] fix: forward Hessian sparsity ignored conditional
 expressions and azmul with parameter left operand

---
 include/cppad/local/sweep/for_hes.hpp  |  9 ++++-
 include/cppad/local/var_op/cexp_op.hpp | 51 ++++++++++++++++++++++++++
 2 files changed, 59 insertions(+), 1 deletion(-)

diff --git a/include/cppad/local/sweep/for_hes.hpp b/include/cppad/local/sweep/for_hes.hpp
index 60d0f95..64fb33f 100644
--- a/include/cppad/local/sweep/for_hes.hpp
+++ b/include/cppad/local/sweep/for_hes.hpp
@@ -280,7 +280,6 @@ void for_hes(
 
             // operators that do not affect Jacobian or Hessian
             // and where with a fixed number of arguments and results
-            case CExpOp:
             case DisOp:
             case ParOp:
             case PriOp:
@@ -316,6 +315,7 @@ void for_hes(
             case AddpvOp:
             case MulpvOp:
             case SubpvOp:
+            case ZmulpvOp:
             linear[0] = true;
             var_op::one_var_for_hes(
                 np1, num_var, i_var, size_t(arg[1]), linear, for_hes_sparse
@@ -390,6 +390,13 @@ void for_hes(
             break;
             // -------------------------------------------------
 
+            case CExpOp:
+            var_op::cexp_for_hes(
+                np1, i_var, arg, play->num_par_all(), for_hes_sparse
+            );
+            break;
+            // -------------------------------------------------
+
             case CSumOp:
             var_op::csum_for_hes(arg, i_var, n, for_hes_sparse);
             itr.correct_before_increment();
diff --git a/include/cppad/local/var_op/cexp_op.hpp b/include/cppad/local/var_op/cexp_op.hpp
index b9326bd..7452b64 100644
--- a/include/cppad/local/var_op/cexp_op.hpp
+++ b/include/cppad/local/var_op/cexp_op.hpp
@@ -880,6 +880,57 @@ inline void cexp_for_jac(
     return;
 }
 
+/*!
+Compute forward Hessian sparsity patterns for op = CExpOp.
+
+The second derivative of z = CondExpRel(y_0, y_1, y_2, y_3) with respect to
+(y_0, y_1, y_2, y_3) is zero, so only the Jacobian pattern for z is computed.
+See cexp_for_jac for the meaning of Vector_set, i_z, arg, and num_par.
+
+\param n_independent_p1
+is the number of independent variables plus one.
+
+\param for_sparsity
+the set with index n_independent_p1 + i is the Jacobian sparsity for
+the variable with index i. On output, the set corresponding to z
+is the union of the sets for y_2 and y_3 that are variables.
+*/
+template <class Vector_set>
+inline void cexp_for_hes(
+    size_t             n_independent_p1 ,
+    size_t             i_z              ,
+    const addr_t*      arg              ,
+    size_t             num_par          ,
+    Vector_set&        for_sparsity     )
+{   //
+    CPPAD_ASSERT_UNKNOWN( size_t(arg[0]) < static_cast<size_t> (CompareNe) );
+    CPPAD_ASSERT_UNKNOWN( NumArg(CExpOp) == 6 );
+    CPPAD_ASSERT_UNKNOWN( NumRes(CExpOp) == 1 );
+    CPPAD_ASSERT_UNKNOWN( arg[1] != 0 );
+# ifndef NDEBUG
+    addr_t bit = 1;
+    for(size_t j = 0; j < 4; j++)
+    {   if( ! ( arg[1] & bit ) )
+            CPPAD_ASSERT_UNKNOWN( size_t(arg[2+j]) < num_par );
+        bit *= 2;
+    }
+# endif
+    // np1, i_jac
+    size_t np1   = n_independent_p1;
+    size_t i_jac = np1 + i_z;
+    //
+    for_sparsity.clear(i_jac);
+    if( arg[1] & 4 )
+        for_sparsity.binary_union(
+            i_jac, i_jac, np1 + size_t(arg[4]), for_sparsity
+        );
+    if( arg[1] & 8 )
+        for_sparsity.binary_union(
+            i_jac, i_jac, np1 + size_t(arg[5]), for_sparsity
+        );
+    return;
+}
+
 /*!
 Compute reverse Jacobian sparsity patterns for op = CExpOp.
 
-- 
2.43.0


From 145dabd4545357b31db73260d6782e5d66ff5b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 12/78] fix: pack_setvec number_elements was wrong for sets
 with more than one packing unit

---
 include/cppad/local/sparse/pack_setvec.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cppad/local/sparse/pack_setvec.hpp b/include/cppad/local/sparse/pack_setvec.hpp
index 7e0f08d..448c08c 100644
--- a/include/cppad/local/sparse/pack_setvec.hpp
+++ b/include/cppad/local/sparse/pack_setvec.hpp
@@ -418,10 +418,10 @@ public:
             return count;
         //
         // count bits in other units
+        mask = one_;
         for(size_t bit = 0; bit < n_bit_; ++bit)
         {  CPPAD_ASSERT_UNKNOWN( mask >= one_ );
-            size_t k = n_pack_;
-            while(--k)
+            for(size_t k = 0; k + 1 < n_pack_; ++k)
             {  if( data_[i * n_pack_ + k] & mask )
                     ++count;
             }
-- 
2.43.0


From 1ca1a83ee0b92b8937146d07f075c6a0427d6b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 13/78] fix: Hessian sparsity missed terms when two dependent
 variables are the same variable

---
 include/cppad/core/for_sparse_hes.hpp   | 4 +++-
 include/cppad/core/rev_hes_sparsity.hpp | 5 ++++-
 include/cppad/core/rev_sparse_hes.hpp   | 8 ++++++--
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/cppad/core/for_sparse_hes.hpp b/include/cppad/core/for_sparse_hes.hpp
index 0d0b19b..d220614 100644
--- a/include/cppad/core/for_sparse_hes.hpp
+++ b/include/cppad/core/for_sparse_hes.hpp
@@ -504,7 +504,9 @@ void ADFun<Base,RecBase>::ForSparseHesCheckpoint(
         RevJac[i] = false;
     for(size_t i = 0; i < m; i++)
     {   CPPAD_ASSERT_UNKNOWN( dep_taddr_[i] < num_var_tape_ )
-        RevJac[ dep_taddr_[i] ] = s[i];
+        // more than one dependent variable may have the same tape address
+        if( s[i] )
+            RevJac[ dep_taddr_[i] ] = true;
     }
 
     // holds forward Hessian sparsity pattern for all variables
diff --git a/include/cppad/core/rev_hes_sparsity.hpp b/include/cppad/core/rev_hes_sparsity.hpp
index bea0f94..a43663a 100644
--- a/include/cppad/core/rev_hes_sparsity.hpp
+++ b/include/cppad/core/rev_hes_sparsity.hpp
@@ -186,7 +186,10 @@ void ADFun<Base,RecBase>::rev_hes_sparsity(
     //
     // initialize rev_jac_pattern for dependent variables
     for(size_t i = 0; i < m; i++)
-        rev_jac_pattern[ dep_taddr_[i] ] = select_range[i];
+    {   // more than one dependent variable may have the same tape address
+        if( select_range[i] )
+            rev_jac_pattern[ dep_taddr_[i] ] = true;
+    }
     //
     //
     if( internal_bool )
diff --git a/include/cppad/core/rev_sparse_hes.hpp b/include/cppad/core/rev_sparse_hes.hpp
index 6d857d6..bc13708 100644
--- a/include/cppad/core/rev_sparse_hes.hpp
+++ b/include/cppad/core/rev_sparse_hes.hpp
@@ -266,7 +266,9 @@ void ADFun<Base,RecBase>::RevSparseHesCase(
         RevJac[i] = false;
     for(i = 0; i < m; i++)
     {   CPPAD_ASSERT_UNKNOWN( dep_taddr_[i] < num_var_tape_ );
-        RevJac[ dep_taddr_[i] ] = s[i];
+        // more than one dependent variable may have the same tape address
+        if( s[i] )
+            RevJac[ dep_taddr_[i] ] = true;
     }
 
     // vector of sets that will hold reverse Hessain values
@@ -584,7 +586,9 @@ void ADFun<Base,RecBase>::RevSparseHesCheckpoint(
         RevJac[i] = false;
     for(size_t i = 0; i < m; i++)
     {   CPPAD_ASSERT_UNKNOWN( dep_taddr_[i] < num_var_tape_ )
-        RevJac[ dep_taddr_[i] ] = s[i];
+        // more than one dependent variable may have the same tape address
+        if( s[i] )
+            RevJac[ dep_taddr_[i] ] = true;
     }
 
     // holds reverse Hessian sparsity pattern for all variables
-- 
2.43.0


From a61089111096a65da4c21642fa3b744f1454522b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 14/78] fix: atomic_two forward Hessian sparsity did not
 propagate the Jacobian pattern

---
 .../cppad/core/atomic/two/for_sparse_hes.hpp  | 32 +++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/include/cppad/core/atomic/two/for_sparse_hes.hpp b/include/cppad/core/atomic/two/for_sparse_hes.hpp
index 88427dc..2f89f24 100644
--- a/include/cppad/core/atomic/two/for_sparse_hes.hpp
+++ b/include/cppad/core/atomic/two/for_sparse_hes.hpp
@@ -237,6 +237,38 @@ bool atomic_base<Base>::for_sparse_hes(
     size_t thread = thread_alloc::thread_num();
     allocate_work(thread);
     //
+    // for_sparsity
+    // forward Jacobian sparsity for the results of this atomic function
+    {   // jac_sparsity has index zero for parameters, then arguments, results
+        InternalSparsity jac_sparsity;
+        jac_sparsity.resize(1 + n + m, np1);
+        vector<size_t> x_jac(n), y_jac(m);
+        for(size_t j = 0; j < n; j++)
+        {   x_jac[j] = 0;
+            if( x_index[j] > 0 )
+            {   x_jac[j] = 1 + j;
+                jac_sparsity.assignment(
+                    x_jac[j], np1 + x_index[j], for_sparsity
+                );
+            }
+        }
+        for(size_t i = 0; i < m; i++)
+        {   y_jac[i] = 0;
+            if( y_index[i] > 0 )
+                y_jac[i] = 1 + n + i;
+        }
+        ok = for_sparse_jac(x, x_jac, y_jac, jac_sparsity);
+        if( ! ok )
+            return ok;
+        for(size_t i = 0; i < m; i++)
+        {   if( y_index[i] > 0 )
+                for_sparsity.assignment(
+                    np1 + y_index[i], y_jac[i], jac_sparsity
+                );
+        }
+        ok = false;
+    }
+    //
     // vx
     vector<bool> vx(n);
     for(size_t j = 0; j < n; j++)
-- 
2.43.0


From 700996699d1cb2147aeecfe7aeb8e8748ea72c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 15/78] fix: atomic reverse Hessian sparsity missed terms for
 arguments with empty forward Jacobian pattern

---
 .../cppad/core/atomic/four/devel/hes_sparsity.hpp    |  5 +++--
 include/cppad/core/atomic/three/hes_sparsity.hpp     | 12 ++++--------
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/include/cppad/core/atomic/four/devel/hes_sparsity.hpp b/include/cppad/core/atomic/four/devel/hes_sparsity.hpp
index e0e475a..e79c56e 100644
--- a/include/cppad/core/atomic/four/devel/hes_sparsity.hpp
+++ b/include/cppad/core/atomic/four/devel/hes_sparsity.hpp
@@ -294,9 +294,11 @@ bool atomic_four<Base>::rev_hes_sparsity(
     size_t m      = y_index.size();
     //
     // select_x
+    // An argument with an empty forward Jacobian pattern must be included
+    // because its second partial w.r.t some other variable may be non-zero.
     vector<bool> select_x(n);
     for(size_t j = 0; j < n; j++)
-        select_x[j] = for_jac_pattern.number_elements( x_index[j] ) > 0;
+        select_x[j] = x_index[j] > 0;
     //
     // select_y
     vector<bool> select_y(m);
@@ -350,7 +352,6 @@ bool atomic_four<Base>::rev_hes_sparsity(
     }
     //
     // propagate rev_jac_flag through the Jacobian
-    // (seems OK to exclude variables with zero forward jacobian)
     for(size_t k = 0; k < nnz_jac; ++k)
     {   size_t j = col_jac[k];
         rev_jac_flag[ x_index[j] ] = true;
diff --git a/include/cppad/core/atomic/three/hes_sparsity.hpp b/include/cppad/core/atomic/three/hes_sparsity.hpp
index 9c3c249..0284f81 100644
--- a/include/cppad/core/atomic/three/hes_sparsity.hpp
+++ b/include/cppad/core/atomic/three/hes_sparsity.hpp
@@ -329,18 +329,15 @@ bool atomic_three<Base>::rev_hes_sparsity(
     const InternalSparsity&          for_jac_pattern  ,
     bool*                            rev_jac_flag     ,
     InternalSparsity&                hes_sparsity_rev )
-{   typedef typename InternalSparsity::const_iterator const_iterator;
-    size_t n      = x_index.size();
+{   size_t n      = x_index.size();
     size_t m      = y_index.size();
     //
     // select_x
     vector<bool> select_x(n);
     for(size_t j = 0; j < n; j++)
-    {   // check if should compute pattern w.r.t x[j]
-        const_iterator itr(for_jac_pattern, x_index[j]);
-        size_t i = *itr;
-        select_x[j] = i < for_jac_pattern.end();
-        CPPAD_ASSERT_UNKNOWN( x_index[j] > 0 || ! select_x[j] );
+    {   // An argument with an empty forward Jacobian pattern must be included
+        // because its second partial w.r.t some other variable may be non-zero.
+        select_x[j] = x_index[j] > 0;
     }
     //
     // bool select_y
@@ -388,7 +385,6 @@ bool atomic_three<Base>::rev_hes_sparsity(
     }
     //
     // propagate rev_jac_flag through the Jacobian
-    // (seems OK to exclude variables with zero forward jacobian)
     for(size_t k = 0; k < nnz_jac; ++k)
     {   size_t j = col_jac[k];
         rev_jac_flag[ x_index[j] ] = true;
-- 
2.43.0


From d42f1b0cfb206941afceafdfb4e21cc30380f034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 16/78] fix: atomic_three reverse Jacobian sparsity modified
 the set reserved for parameters

---
 .../cppad/core/atomic/three/jac_sparsity.hpp   | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/cppad/core/atomic/three/jac_sparsity.hpp b/include/cppad/core/atomic/three/jac_sparsity.hpp
index eb10e66..2cb05ce 100644
--- a/include/cppad/core/atomic/three/jac_sparsity.hpp
+++ b/include/cppad/core/atomic/three/jac_sparsity.hpp
@@ -311,17 +311,21 @@ bool atomic_three<Base>::rev_jac_sparsity(
     // selection vectors
     vector<bool> select_x(n), select_y(m);
 
-    // 2DO: perhaps we could use for_type(type_x, type_y)
-    // to reduce the true components in select_x
+    // select_x
+    // parameters (which have index zero) are not included
     for(size_t j = 0; j < n; ++j)
-        select_x[j] = true;
+        select_x[j] = x_index[j] != 0;
 
     // determine select_y
     for(size_t i = 0; i < m; ++i)
-    {   // check if y_i has sparsity is non-empty
-        iterator itr(var_sparsity, y_index[i]);
-        size_t ell = *itr;
-        select_y[i] = ell < var_sparsity.end();
+    {   if( y_index[i] == 0 )
+            select_y[i] = false;
+        else
+        {   // check if y_i has sparsity is non-empty
+            iterator itr(var_sparsity, y_index[i]);
+            size_t ell = *itr;
+            select_y[i] = ell < var_sparsity.end();
+        }
     }
     sparse_rc< vector<size_t> > pattern_out;
     bool ok = jac_sparsity(
-- 
2.43.0


From bfd7b94e1e58e8073d2fe1227e74948d1b31d312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 17/78] fix: subgraph calculations missed dependencies through
 VecAD vectors and atomic calls without variables

---
 include/cppad/local/subgraph/arg_variable.hpp | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/cppad/local/subgraph/arg_variable.hpp b/include/cppad/local/subgraph/arg_variable.hpp
index cdfb105..aeb471c 100644
--- a/include/cppad/local/subgraph/arg_variable.hpp
+++ b/include/cppad/local/subgraph/arg_variable.hpp
@@ -84,7 +84,7 @@ void get_argument_variable(
             }
             random_itr.op_info(++i_op, op, op_arg, i_var);
         }
-        CPPAD_ASSERT_UNKNOWN( variable.size() > 0 );
+        // variable.size() is zero if all the arguments are parameters
         return;
     }
     // is_variable is a reference to work with a better name
@@ -97,6 +97,27 @@ void get_argument_variable(
             variable.push_back(j_var);
         }
     }
+    //
+    // The result of a VecAD load operator may be any of the values that was
+    // stored in the VecAD vector before the load operation.
+    if( op == LdpOp || op == LdvOp )
+    {   op_code_var   store_op;
+        const addr_t* store_arg;
+        for(size_t k = 0; k < i_op; ++k)
+        {   store_op = random_itr.get_op(k);
+            if( store_op == StpvOp || store_op == StvpOp || store_op == StvvOp )
+            {   random_itr.op_info(k, store_op, store_arg, i_var);
+                if( store_arg[0] == op_arg[0] )
+                {   // index in the vector
+                    if( store_op != StpvOp )
+                        variable.push_back( size_t( store_arg[1] ) );
+                    // value that is stored
+                    if( store_op != StvpOp )
+                        variable.push_back( size_t( store_arg[2] ) );
+                }
+            }
+        }
+    }
     return;
 }
 
-- 
2.43.0


From 883c9c3f9019ef20d911673c908fc2e70704ea91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 18/78] fix: chkpoint sparsity assertions that fail for valid
 use

---
 include/cppad/core/chkpoint_one/rev_sparse_hes.hpp | 8 --------
 include/cppad/core/chkpoint_two/hes_sparsity.hpp   | 6 +++---
 2 files changed, 3 insertions(+), 11 deletions(-)

diff --git a/include/cppad/core/chkpoint_one/rev_sparse_hes.hpp b/include/cppad/core/chkpoint_one/rev_sparse_hes.hpp
index 11bd8f0..124485c 100644
--- a/include/cppad/core/chkpoint_one/rev_sparse_hes.hpp
+++ b/include/cppad/core/chkpoint_one/rev_sparse_hes.hpp
@@ -46,10 +46,6 @@ bool checkpoint<Base>::rev_sparse_hes_sparsity_type(
 
     // compute sparsity pattern for T(x) = S(x) * f'(x)
     t = member_[thread]->f_.RevSparseJac(1, s);
-# ifndef NDEBUG
-    for(size_t j = 0; j < n; j++)
-        CPPAD_ASSERT_UNKNOWN( vx[j] || ! t[j] )
-# endif
 
     // V(x) = f'(x)^T * g''(y) * f'(x) * R  +  g'(y) * f''(x) * R
     // U(x) = g''(y) * f'(x) * R
@@ -156,10 +152,6 @@ bool checkpoint<Base>::rev_sparse_hes(
 
     // compute sparsity pattern for T(x) = S(x) * f'(x)
     t = member_[thread]->f_.RevSparseJac(1, s);
-# ifndef NDEBUG
-    for(size_t j = 0; j < n; j++)
-        CPPAD_ASSERT_UNKNOWN( vx[j] || ! t[j] )
-# endif
 
     // V(x) = f'(x)^T * g''(y) * f'(x) * R  +  g'(y) * f''(x) * R
     // U(x) = g''(y) * f'(x) * R
diff --git a/include/cppad/core/chkpoint_two/hes_sparsity.hpp b/include/cppad/core/chkpoint_two/hes_sparsity.hpp
index f7f21c7..656414c 100644
--- a/include/cppad/core/chkpoint_two/hes_sparsity.hpp
+++ b/include/cppad/core/chkpoint_two/hes_sparsity.hpp
@@ -42,10 +42,10 @@ bool chkpoint_two<Base>::hes_sparsity(
     const vector<bool>&                     select_y     ,
     sparse_rc< vector<size_t> >&            pattern_out  )
 // END_PROTOTYPE
-{   CPPAD_ASSERT_UNKNOWN( hes_sparsity_.nr() == select_x.size() );
-    CPPAD_ASSERT_UNKNOWN( hes_sparsity_.nc() == select_x.size() );
-    if( ! use_hes_sparsity_ )
+{   if( ! use_hes_sparsity_ )
         return false;
+    CPPAD_ASSERT_UNKNOWN( hes_sparsity_.nr() == select_x.size() );
+    CPPAD_ASSERT_UNKNOWN( hes_sparsity_.nc() == select_x.size() );
 
     // count number of non-zeros
     size_t nnz = hes_sparsity_.nnz();
-- 
2.43.0


From 69365baca6a2a9540f9c75894de1d936e8945f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:17 +0000
Subject: [PATCH 19/78] fix: subgraph_jac_rev read past the end of the column
 vector

---
 include/cppad/core/subgraph_jac_rev.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/core/subgraph_jac_rev.hpp b/include/cppad/core/subgraph_jac_rev.hpp
index 7e468cc..da242c9 100644
--- a/include/cppad/core/subgraph_jac_rev.hpp
+++ b/include/cppad/core/subgraph_jac_rev.hpp
@@ -258,7 +258,7 @@ void ADFun<Base,RecBase>::subgraph_jac_rev(
                 ++c;
             //
             // check for match with i_ind
-            if( i_ind == dw_col[c] )
+            if( c < size_t( dw_col.size() ) && i_ind == dw_col[c] )
                 subset.set( row_major[k], dw[i_ind] );
             else
                 subset.set( row_major[k], zero);
-- 
2.43.0


From 0b1edb2ea420dfe01736d481682996360e391ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:17 +0000
Subject: [PATCH 20/78] fix: capacity_order(1) after multiple direction forward
 fails an assertion

---
 include/cppad/core/capacity_order.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cppad/core/capacity_order.hpp b/include/cppad/core/capacity_order.hpp
index f447c22..c727d8f 100644
--- a/include/cppad/core/capacity_order.hpp
+++ b/include/cppad/core/capacity_order.hpp
@@ -164,7 +164,9 @@ void ADFun<Base,RecBase>::capacity_order(size_t c, size_t r)
         num_direction_taylor_ = r;
         return;
     }
-    CPPAD_ASSERT_UNKNOWN(r==num_direction_taylor_ || num_order_taylor_<=1);
+    CPPAD_ASSERT_UNKNOWN(
+        r==num_direction_taylor_ || num_order_taylor_<=1 || c==1
+    );
 
     // Allocate new taylor with requested number of orders and directions
     size_t new_len   = ( (c-1)*r + 1 ) * num_var_tape_;
-- 
2.43.0


From 40adac81d0374c400b2504128f5eeef838f76077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:17 +0000
Subject: [PATCH 21/78] fix: sparse Jacobian and Hessian of an empty subset did
 not set the zero order coefficients

---
 include/cppad/core/sparse_hessian.hpp  | 2 ++
 include/cppad/core/sparse_jacobian.hpp | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/include/cppad/core/sparse_hessian.hpp b/include/cppad/core/sparse_hessian.hpp
index fd1f6cd..82c376f 100644
--- a/include/cppad/core/sparse_hessian.hpp
+++ b/include/cppad/core/sparse_hessian.hpp
@@ -695,7 +695,9 @@ size_t ADFun<Base,RecBase>::SparseHessian(
     // check for case where there is nothing to compute
     size_t n_sweep = 0;
     if( K == 0 )
+    {   Forward(0, x);
         return n_sweep;
+    }
 
     typedef typename SetVector::value_type Set_type;
     typedef typename local::sparse::internal_pattern<Set_type>::pattern_type Pattern_type;
diff --git a/include/cppad/core/sparse_jacobian.hpp b/include/cppad/core/sparse_jacobian.hpp
index 3d1c4cf..b809905 100644
--- a/include/cppad/core/sparse_jacobian.hpp
+++ b/include/cppad/core/sparse_jacobian.hpp
@@ -766,7 +766,9 @@ size_t ADFun<Base,RecBase>::SparseJacobianForward(
     // check for case where there is nothing to compute
     size_t n_sweep = 0;
     if( K == 0 )
+    {   Forward(0, x);
         return n_sweep;
+    }
 
     typedef typename SetVector::value_type Set_type;
     typedef typename local::sparse::internal_pattern<Set_type>::pattern_type Pattern_type;
@@ -881,7 +883,9 @@ size_t ADFun<Base,RecBase>::SparseJacobianReverse(
     // check for case where there is nothing to compute
     size_t n_sweep = 0;
     if( K == 0 )
+    {   Forward(0, x);
         return n_sweep;
+    }
 
     typedef typename SetVector::value_type Set_type;
     typedef typename local::sparse::internal_pattern<Set_type>::pattern_type Pattern_type;
-- 
2.43.0


From a881a56b923c1e6e0abe3f3350a888901115a7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:17 +0000
Subject: [PATCH 22/78] fix: colpack colorings used the pattern of rows that
 are not in the subset

---
 include/cppad/local/color_general.hpp   | 12 ++++++++++++
 include/cppad/local/color_symmetric.hpp | 16 ++++++++++++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/cppad/local/color_general.hpp b/include/cppad/local/color_general.hpp
index 0b0fa77..fd0211e 100644
--- a/include/cppad/local/color_general.hpp
+++ b/include/cppad/local/color_general.hpp
@@ -260,6 +260,18 @@ void color_general_colpack(
     // ColPack/ColPackHeaders.h has as 'using namespace std' at global level.
     cppad_colpack_general(color, m, n, adolc_pattern);
 
+    // rows that do not appear must not be included in any of the colors
+    // (their sparsity pattern may be incorrect)
+    CppAD::vector<bool> appear(m);
+    for(size_t i = 0; i < m; i++)
+        appear[i] = false;
+    for(size_t k = 0; k < size_t( row.size() ); k++)
+        appear[ row[k] ] = true;
+    for(size_t i = 0; i < m; i++)
+    {   if( ! appear[i] )
+            color[i] = m;
+    }
+
     return;
 }
 # endif // CPPAD_HAS_COLPACK
diff --git a/include/cppad/local/color_symmetric.hpp b/include/cppad/local/color_symmetric.hpp
index b4e600d..bba6d81 100644
--- a/include/cppad/local/color_symmetric.hpp
+++ b/include/cppad/local/color_symmetric.hpp
@@ -230,6 +230,16 @@ void color_symmetric_colpack(
     CPPAD_ASSERT_UNKNOWN( m == pattern.end() );
     CPPAD_ASSERT_UNKNOWN( row.size() == col.size() );
 
+    // rows and columns that do not appear are not included in the coloring
+    // (their sparsity pattern may be incorrect)
+    CppAD::vector<bool> appear(m);
+    for(i = 0; i < m; i++)
+        appear[i] = false;
+    for(k = 0; k < row.size(); k++)
+    {   appear[ row[k] ] = true;
+        appear[ col[k] ] = true;
+    }
+
     // Determine number of non-zero entries in each row
     CppAD::vector<size_t> n_nonzero(m);
     size_t n_nonzero_total = 0;
@@ -238,7 +248,8 @@ void color_symmetric_colpack(
         typename SetVector::const_iterator pattern_itr(pattern, i);
         j = *pattern_itr;
         while( j != pattern.end() )
-        {   n_nonzero[i]++;
+        {   if( appear[i] && appear[j] )
+                n_nonzero[i]++;
             j = *(++pattern_itr);
         }
         n_nonzero_total += n_nonzero[i];
@@ -264,7 +275,8 @@ void color_symmetric_colpack(
                 std::numeric_limits<unsigned int>::max() >= j,
                 "Matrix is too large for colpack"
             );
-            adolc_pattern[i][k++] = static_cast<unsigned int>( j );
+            if( appear[i] && appear[j] )
+                adolc_pattern[i][k++] = static_cast<unsigned int>( j );
             j = *(++pattern_itr);
         }
         CPPAD_ASSERT_UNKNOWN( k == 1 + n_nonzero[i] );
-- 
2.43.0


From 67513c910eaf72c810ac582733bfbeb3731f62d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:17 +0000
Subject: [PATCH 23/78] fix: atomic_two rev_depend used stale sets and an
 inconsistent number of columns

---
 include/cppad/core/atomic/two/rev_depend.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/cppad/core/atomic/two/rev_depend.hpp b/include/cppad/core/atomic/two/rev_depend.hpp
index bd9f53e..baa3ae4 100644
--- a/include/cppad/core/atomic/two/rev_depend.hpp
+++ b/include/cppad/core/atomic/two/rev_depend.hpp
@@ -62,7 +62,7 @@ bool atomic_base<Base>::rev_depend(
     {
         ok = rev_sparse_jac(1, depend_y, depend_x, parameter_x);
         if( ! ok )
-            ok = rev_sparse_jac(m, depend_y, depend_x);
+            ok = rev_sparse_jac(1, depend_y, depend_x);
         if( ! ok )
             return false;
     }
@@ -73,12 +73,13 @@ bool atomic_base<Base>::rev_depend(
         rt.resize(m);
         st.resize(n);
         for(size_t i = 0; i < m; ++i)
-        {   if( depend_y[i] )
+        {   rt[i].clear();
+            if( depend_y[i] )
                 rt[i].insert(0);
         }
-        ok = rev_sparse_jac(m, rt, st, parameter_x);
+        ok = rev_sparse_jac(1, rt, st, parameter_x);
         if( ! ok )
-            ok = rev_sparse_jac(m, rt, st);
+            ok = rev_sparse_jac(1, rt, st);
         if( ! ok )
             return false;
         for(size_t j = 0; j < n; ++j)
-- 
2.43.0


From f8f7a0d57ed2d2150093896e6785d2145904711a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:17 +0000
Subject: [PATCH 24/78] fix: optimize check used the wrong stride after
 multiple direction forward

---
 include/cppad/core/optimize.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/cppad/core/optimize.hpp b/include/cppad/core/optimize.hpp
index 6f3bfde..44f1b66 100644
--- a/include/cppad/core/optimize.hpp
+++ b/include/cppad/core/optimize.hpp
@@ -290,6 +290,10 @@ void ADFun<Base,RecBase>::optimize(const std::string& options)
     bool check_zero_order = num_order_taylor_ > 0;
     if( check_zero_order )
     {   //
+        // pervar
+        // number of Taylor coefficients for each variable
+        size_t pervar = (cap_order_taylor_ - 1) * num_direction_taylor_ + 1;
+        //
         // ind_dynamic
         for(size_t j = 0; j < n_ind_dyn; ++j)
         {   const addr_t par_ind = play_.dyn2par_index()[j];
@@ -301,20 +305,20 @@ void ADFun<Base,RecBase>::optimize(const std::string& options)
         for(size_t j = 0; j < n_ind_var; j++)
         {   CPPAD_ASSERT_UNKNOWN( play_.GetOp(j+1) == local::InvOp );
             CPPAD_ASSERT_UNKNOWN( ind_taddr_[j]    == j+1   );
-            x[j] = taylor_[ ind_taddr_[j] * cap_order_taylor_ + 0];
+            x[j] = taylor_[ ind_taddr_[j] * pervar + 0];
         }
         // y
         // zero order coefficients for dependent vars
         for(size_t i = 0; i < n_dep_var; i++)
         {   CPPAD_ASSERT_UNKNOWN( dep_taddr_[i] < num_var_tape_  );
-            y[i] = taylor_[ dep_taddr_[i] * cap_order_taylor_ + 0];
+            y[i] = taylor_[ dep_taddr_[i] * pervar + 0];
         }
         // max_taylor
         // maximum zero order coefficient not counting BeginOp at beginning
         // (which is corresponds to uninitialized memory).
         for(size_t i = 1; i < num_var_tape_; i++)
-        {   if(  abs_geq(taylor_[i*cap_order_taylor_+0] , max_taylor) )
-                max_taylor = taylor_[i*cap_order_taylor_+0];
+        {   if(  abs_geq(taylor_[i*pervar+0] , max_taylor) )
+                max_taylor = taylor_[i*pervar+0];
         }
     }
 # endif
-- 
2.43.0


From b10cf4b2cbec0e003e0228c126bdf42735a16612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:42 +0000
Subject: [PATCH 25/78] fix: compare_change_number was changed by higher order
 forward

---
 include/cppad/local/sweep/forward_any.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cppad/local/sweep/forward_any.hpp b/include/cppad/local/sweep/forward_any.hpp
index 0a8eea5..811cd14 100644
--- a/include/cppad/local/sweep/forward_any.hpp
+++ b/include/cppad/local/sweep/forward_any.hpp
@@ -200,7 +200,8 @@ void forward_any(
             case NeppOp:
             case NepvOp:
             case NevvOp:
-            var_op::compare_forward_any(op,
+            // comparison changes correspond to zero order forward
+            if( order_low == 0 ) var_op::compare_forward_any(op,
                 arg, parameter, cap_order, taylor, itr.op_index(),
                 change_count, change_number, change_op_index
             );
-- 
2.43.0


From 321eb7a300ce764b39482f18270d3932127219ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:25 +0000
Subject: [PATCH 26/78] fix: checkpoint reverse mode assertion failed when
 optimization replaced unused arguments

---
 include/cppad/core/chkpoint_one/reverse.hpp | 20 +++-----------------
 include/cppad/core/chkpoint_two/reverse.hpp | 15 +++------------
 2 files changed, 6 insertions(+), 29 deletions(-)

diff --git a/include/cppad/core/chkpoint_one/reverse.hpp b/include/cppad/core/chkpoint_one/reverse.hpp
index 5f8257a..b601727 100644
--- a/include/cppad/core/chkpoint_one/reverse.hpp
+++ b/include/cppad/core/chkpoint_one/reverse.hpp
@@ -34,24 +34,10 @@ bool checkpoint<Base>::reverse(
     bool ok  = true;
 
     // put proper forward mode coefficients in f_
-# ifdef NDEBUG
-    // compute forward results for orders zero through q
+    // compute forward results for orders zero through q. These may differ
+    // from ty because optimize replaces arguments and results that
+    // are not used by parameters.
     member_[thread]->f_.Forward(q, tx);
-# else
-    size_t i, j, k;
-    //
-    // compute forward results for orders zero through q
-    vector<Base> check_ty = member_[thread]->f_.Forward(q, tx);
-    for(i = 0; i < m; i++)
-    {   for(k = 0; k <= q; k++)
-        {   j = i * (q+1) + k;
-            // optimize replaces results that are not used by zero or nan
-            CPPAD_ASSERT_UNKNOWN( check_ty[j] == ty[j] ||
-                ty[j] == Base(0.0) || CppAD::isnan( ty[j] )
-            );
-        }
-    }
-# endif
     // now can run reverse mode
     px = member_[thread]->f_.Reverse(q+1, py);
 
diff --git a/include/cppad/core/chkpoint_two/reverse.hpp b/include/cppad/core/chkpoint_two/reverse.hpp
index e11a5b8..807d4be 100644
--- a/include/cppad/core/chkpoint_two/reverse.hpp
+++ b/include/cppad/core/chkpoint_two/reverse.hpp
@@ -58,19 +58,10 @@ bool chkpoint_two<Base>::reverse(
         CPPAD_ASSERT_KNOWN(false, msg.c_str() );
     }
 # endif
-    // compute forward mode Taylor coefficient orders 0 through order_up
-# ifdef NDEBUG
+    // compute forward mode Taylor coefficient orders 0 through order_up.
+    // These may differ from taylor_y because optimize replaces arguments and
+    // results that are not used by parameters.
     g_ptr->Forward(order_up, taylor_x);
-# else
-    vector<Base> check = g_ptr->Forward(order_up, taylor_x);
-    CPPAD_ASSERT_UNKNOWN( taylor_y.size() == check.size() )
-    for(size_t i = 0; i < taylor_y.size(); ++i)
-    {   // optimize replaces results that are not used by zero or nan
-        CPPAD_ASSERT_UNKNOWN( taylor_y[i] == check[i] ||
-            taylor_y[i] == Base(0.0) || CppAD::isnan( taylor_y[i] )
-        );
-    }
-# endif
     // now can run reverse mode
     partial_x = g_ptr->Reverse(order_up+1, partial_y);
     //
-- 
2.43.0


From c576339853c2b50ac8ed739221428ee1de7069f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:46 +0000
Subject: [PATCH 27/78] fix: CppAD::vector self assignment lost all the
 elements

---
 include/cppad/utility/vector.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cppad/utility/vector.hpp b/include/cppad/utility/vector.hpp
index e49ceac..40163cb 100644
--- a/include/cppad/utility/vector.hpp
+++ b/include/cppad/utility/vector.hpp
@@ -382,7 +382,11 @@ public:
 // BEGIN_ASSIGN
     vector& operator=(const vector& other)
 // END_ASSIGN
-    {  // avoid copying old elements
+    {  // special case where vec and other are the same vector
+        if( this == &other )
+            return *this;
+        //
+        // avoid copying old elements
         resize(0);
         // new size for this vector
         resize( other.length_ );
-- 
2.43.0


From 05114cd5f69c16add38f15b279a3cc5603bb85da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 28/78] fix: sparse_rcv set did not check its index

---
 include/cppad/utility/sparse_rcv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/utility/sparse_rcv.hpp b/include/cppad/utility/sparse_rcv.hpp
index 4eb672e..1a71fcf 100644
--- a/include/cppad/utility/sparse_rcv.hpp
+++ b/include/cppad/utility/sparse_rcv.hpp
@@ -278,7 +278,7 @@ public:
     // ------------------------------------------------------------------------
     void set(size_t k, const value_type& v)
     {   CPPAD_ASSERT_KNOWN(
-            pattern_.nnz(),
+            k < pattern_.nnz(),
             "The index k is not less than nnz in sparse_rcv::set"
         );
         val_[k] = v;
-- 
2.43.0


From 848e686bd597d3f37637667027067a8506722f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:06 +0000
Subject: [PATCH 29/78] fix: sparse_rc equality used the order of the wrong
 pattern

---
 include/cppad/utility/sparse_rc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cppad/utility/sparse_rc.hpp b/include/cppad/utility/sparse_rc.hpp
index 85d322e..cc0173c 100644
--- a/include/cppad/utility/sparse_rc.hpp
+++ b/include/cppad/utility/sparse_rc.hpp
@@ -448,11 +448,11 @@ public:
         bool this_col_ok  = col_major_.size() > 0;
         bool other_row_ok = other.row_major_.size() > 0;
         bool other_col_ok = other.col_major_.size() > 0;
-        if( this_row_ok && this_row_ok )
+        if( this_row_ok && other_row_ok )
         {   this_order_ptr  = &row_major_;
             other_order_ptr = &(other.row_major_);
         }
-        else if( this_col_ok && this_col_ok )
+        else if( this_col_ok && other_col_ok )
         {   this_order_ptr  = &col_major_;
             other_order_ptr = &(other.col_major_);
         }
-- 
2.43.0


From 1ffe5252b8ced298655db9cb82ddab207b48467c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:06 +0000
Subject: [PATCH 30/78] fix: sparse_rc self assignment lost all the entries

---
 include/cppad/utility/sparse_rc.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cppad/utility/sparse_rc.hpp b/include/cppad/utility/sparse_rc.hpp
index cc0173c..a2517ec 100644
--- a/include/cppad/utility/sparse_rc.hpp
+++ b/include/cppad/utility/sparse_rc.hpp
@@ -403,7 +403,9 @@ public:
     //
     // assignment
     void operator=(const sparse_rc& other)
-    {   nr_  = other.nr_;
+    {   if( this == &other )
+            return;
+        nr_  = other.nr_;
         nc_  = other.nc_;
         nnz_ = other.nnz_;
         //
-- 
2.43.0


From a1d5ae0d49fb111e43d4314bb918b238c3453ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:00 +0000
Subject: [PATCH 31/78] fix: pow(x, p) reverse mode erased the partials of x
 from other operators when x is zero

---
 include/cppad/local/var_op/pow_op.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/local/var_op/pow_op.hpp b/include/cppad/local/var_op/pow_op.hpp
index 67e4756..b970285 100644
--- a/include/cppad/local/var_op/pow_op.hpp
+++ b/include/cppad/local/var_op/pow_op.hpp
@@ -729,7 +729,7 @@ inline void powvp_reverse(
     work[0] += azmul(pz[0], y * z[0] / x[0]);
     //
     for(j = 0; j < n_order; ++j)
-        px[j] = CondExpEq(x[0], b0, b0, work[j]);
+        px[j] = CondExpEq(x[0], b0, px[j], work[j]);
 }
 
 } } } // END namespace
-- 
2.43.0


From 9d47825ecb89cafea1ab0e03b5fb1ac217b6092c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:12 +0000
Subject: [PATCH 32/78] fix: chkpoint_one without optimization reported nan
 arguments as an error

---
 include/cppad/core/chkpoint_one/ctor.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/cppad/core/chkpoint_one/ctor.hpp b/include/cppad/core/chkpoint_one/ctor.hpp
index dbaaab8..e1b6e75 100644
--- a/include/cppad/core/chkpoint_one/ctor.hpp
+++ b/include/cppad/core/chkpoint_one/ctor.hpp
@@ -38,14 +38,11 @@ checkpoint<Base>::checkpoint(
     algo(x_tmp, ay);
     // create function f_ : x -> y
     const_member_.f_.Dependent(ay);
+    // suppress checking for nan in f_ results
+    // (see optimize documentation for atomic functions)
+    const_member_.f_.check_for_nan(false);
     if( optimize )
-    {   // suppress checking for nan in f_ results
-        // (see optimize documentation for atomic functions)
-        const_member_.f_.check_for_nan(false);
-        //
-        // now optimize
         const_member_.f_.optimize();
-    }
     // now disable checking of comparison operations
     // 2DO: add a debugging mode that checks for changes and aborts
     const_member_.f_.compare_change_count(0);
-- 
2.43.0


From 573b3d0f5c59e2c51a8cbeae9bcadd3b7655cfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:12 +0000
Subject: [PATCH 33/78] fix: val_graph optimize replaced a shared constant by
 the result of an unused atomic result

---
 include/cppad/local/val_graph/fun2val.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cppad/local/val_graph/fun2val.hpp b/include/cppad/local/val_graph/fun2val.hpp
index 8b63481..58f206d 100644
--- a/include/cppad/local/val_graph/fun2val.hpp
+++ b/include/cppad/local/val_graph/fun2val.hpp
@@ -887,7 +887,11 @@ void ADFun<Base, RecBase>::fun2val(
                 );
                 for(addr_t i = 0; i < n_res; ++i)
                 {   if( res_is_par[i] )
-                        par2val_index[ var_op_res[i] ] = res_index + i;
+                    {   // constant parameters may also be used by other
+                        // operators, so do not change their value index
+                        if( play_.par_is_dyn()[ size_t( var_op_res[i] ) ] )
+                            par2val_index[ var_op_res[i] ] = res_index + i;
+                    }
                     else
                         var2val_index[ var_op_res[i] ] = res_index + i;
                 }
-- 
2.43.0


From 5e3383e625e9f8ebe9465bde16b8e430ef9782a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:04 +0000
Subject: [PATCH 34/78] fix: RombergMul aborted debug builds for more than two
 dimensions, returned negative errors and lost non double values

---
 include/cppad/utility/romberg_mul.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/cppad/utility/romberg_mul.hpp b/include/cppad/utility/romberg_mul.hpp
index 4ea5424..5b7bf4e 100644
--- a/include/cppad/utility/romberg_mul.hpp
+++ b/include/cppad/utility/romberg_mul.hpp
@@ -179,7 +179,7 @@ public:
         for(i = 0; i < last; i++)
             x[i] = x_[i];
     }
-    double operator()(const Float &xlast)
+    Float operator()(const Float &xlast)
     {   x[last] = xlast;
         return (*F)(x);
     }
@@ -264,13 +264,19 @@ public:
         Float prod = 1;
         for(size_t i = 0; i < m-1; i++)
             prod *= (b[i] - a[i]);
+        if( prod < Float(0) )
+            prod = - prod;
 
 # ifndef NDEBUG
-        size_t pow2 = 1;
+        // number of evaluations is product of 2^(n[i]-1) + 1
+        size_t n_eval = 1;
         for(size_t i = 0; i < m-1; i++)
+        {   size_t pow2 = 1;
             for(size_t j = 0; j < (n[i] - 1); j++)
                 pow2 *= 2;
-        assert( Fm1.GetEcount() == (pow2+1) );
+            n_eval *= pow2 + 1;
+        }
+        assert( Fm1.GetEcount() == n_eval );
 # endif
 
         e = e + Fm1.GetEsum() * prod / Float( double(Fm1.GetEcount()) );
-- 
2.43.0


From 57b61ace65046f5ab9f12f9e8b1a705c250b94c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:04 +0000
Subject: [PATCH 35/78] fix: RombergOne extrapolation factor overflowed int for
 p greater than 15

---
 include/cppad/utility/romberg_one.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/utility/romberg_one.hpp b/include/cppad/utility/romberg_one.hpp
index a18f8e4..df1ae86 100644
--- a/include/cppad/utility/romberg_one.hpp
+++ b/include/cppad/utility/romberg_one.hpp
@@ -193,7 +193,7 @@ Float RombergOne(
     {   // compute estimate accurate to O[ step^(2*(i+1)) ]
         // put results in r[n-1], r[n-2], ... , r[n-i+1]
         ipow4    *= 4;
-        pow4      = Float(int(ipow4));
+        pow4      = Float(double(ipow4));
         pow4minus = Float(ipow4-1);
         for(k = n-1; k > i; k--)
             r[k] = ( pow4 * r[k] - r[k-1] ) / pow4minus;
-- 
2.43.0


From d492c4f9d55494ee3670ef53e685a2d5049d7972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:04 +0000
Subject: [PATCH 36/78] fix: Poly derivative factors overflowed size_t for high
 orders

---
 include/cppad/utility/poly.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/cppad/utility/poly.hpp b/include/cppad/utility/poly.hpp
index ca62579..868c4d7 100644
--- a/include/cppad/utility/poly.hpp
+++ b/include/cppad/utility/poly.hpp
@@ -160,17 +160,18 @@ Type Poly(size_t k, const Vector &a, const Type &z)
     // case where we are evaluating a derivative
     if( k > 0 )
     {   // initialize factor as (k-1) !
-        size_t factor = 1;
+        // (use double because factorials overflow size_t)
+        double factor = 1.0;
         for(i = 2; i < k; i++)
-            factor *= i;
+            factor *= double(i);
 
         // set b to coefficient vector corresponding to derivative
         Vector b(d - k + 1);
         for(i = k; i <= d; i++)
-        {   factor   *= i;
-            tmp       = double( factor );
+        {   factor   *= double(i);
+            tmp       = factor;
             b[i - k]  = a[i] * tmp;
-            factor   /= (i - k + 1);
+            factor   /= double(i - k + 1);
         }
         // value of derivative polynomial
         return Poly(0, b, z);
-- 
2.43.0


From 94c8045dc3feafc13f33f27c5bbeb0908b770ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:04 +0000
Subject: [PATCH 37/78] fix: OdeErrControl and OdeGearControl took a last step
 larger than smax

---
 include/cppad/utility/ode_err_control.hpp  | 6 +++++-
 include/cppad/utility/ode_gear_control.hpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/cppad/utility/ode_err_control.hpp b/include/cppad/utility/ode_err_control.hpp
index a40e6e6..ca276e8 100644
--- a/include/cppad/utility/ode_err_control.hpp
+++ b/include/cppad/utility/ode_err_control.hpp
@@ -508,7 +508,11 @@ Vector OdeErrControl(
 
         // check if near the end
         if( tf <= ta + step * three / two )
-            tb = tf;
+        {   tb = tf;
+            // use two steps if one step would be larger than smax
+            if( smax < tf - ta )
+                tb = ta + (tf - ta) / two;
+        }
         else
             tb = ta + step;
 
diff --git a/include/cppad/utility/ode_gear_control.hpp b/include/cppad/utility/ode_gear_control.hpp
index bebcf16..3ea0631 100644
--- a/include/cppad/utility/ode_gear_control.hpp
+++ b/include/cppad/utility/ode_gear_control.hpp
@@ -492,7 +492,11 @@ Vector OdeGearControl(
 
         // check if near the end
         if( tf <= T[m-1] + one_plus * step )
-            T[m] = tf;
+        {   T[m] = tf;
+            // use two steps if one step would be larger than smax
+            if( smax < tf - T[m-1] )
+                T[m] = T[m-1] + (tf - T[m-1]) / two;
+        }
         else
             T[m] = T[m-1] + step;
 
-- 
2.43.0


From 156e994879c274b0a41456620dcae52b91b0d370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:04 +0000
Subject: [PATCH 38/78] fix: Runge45 and Rosen34 without e did not compile for
 vectors not in the CppAD namespace

---
 include/cppad/utility/rosen_34.hpp | 10 ++++++++++
 include/cppad/utility/runge_45.hpp | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/include/cppad/utility/rosen_34.hpp b/include/cppad/utility/rosen_34.hpp
index 687db50..0850feb 100644
--- a/include/cppad/utility/rosen_34.hpp
+++ b/include/cppad/utility/rosen_34.hpp
@@ -299,6 +299,16 @@ The source code for this routine is in the file
 
 namespace CppAD { // BEGIN CppAD namespace
 
+// declare version with e, it is used by version without e
+template <class Scalar, class Vector, class Fun>
+Vector Rosen34(
+    Fun           &F ,
+    size_t         M ,
+    const Scalar &ti ,
+    const Scalar &tf ,
+    const Vector &xi ,
+    Vector       &e  );
+
 template <class Scalar, class Vector, class Fun>
 Vector Rosen34(
     Fun           &F ,
diff --git a/include/cppad/utility/runge_45.hpp b/include/cppad/utility/runge_45.hpp
index 0d8df71..6f329f2 100644
--- a/include/cppad/utility/runge_45.hpp
+++ b/include/cppad/utility/runge_45.hpp
@@ -270,6 +270,16 @@ The source code for this routine is in the file
 
 namespace CppAD { // BEGIN CppAD namespace
 
+// declare version with e, it is used by version without e
+template <class Scalar, class Vector, class Fun>
+Vector Runge45(
+    Fun           &F ,
+    size_t         M ,
+    const Scalar &ti ,
+    const Scalar &tf ,
+    const Vector &xi ,
+    Vector       &e  );
+
 template <class Scalar, class Vector, class Fun>
 Vector Runge45(
     Fun           &F ,
-- 
2.43.0


From fceda89344f63d3f0bb4b872f3d39244542fea7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:40 +0000
Subject: [PATCH 39/78] fix: NearEqual could return true when y is infinite

---
 include/cppad/utility/near_equal.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/utility/near_equal.hpp b/include/cppad/utility/near_equal.hpp
index fac475d..3fc0c09 100644
--- a/include/cppad/utility/near_equal.hpp
+++ b/include/cppad/utility/near_equal.hpp
@@ -155,7 +155,7 @@ bool near_equal_isfinite(const Type &x , const Type &y)
 
     // infinite cases
     bool xInf = (x == infinity   || x == - infinity);
-    bool yInf = (x == infinity   || x == - infinity);
+    bool yInf = (y == infinity   || y == - infinity);
 
     return ! (xNan | yNan | xInf | yInf);
 }
-- 
2.43.0


From 344d6b774d0e68f306263e8fb8dbaaf12d8810ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:40 +0000
Subject: [PATCH 40/78] fix: pow with the smallest int as exponent overflowed

---
 include/cppad/utility/pow_int.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/cppad/utility/pow_int.hpp b/include/cppad/utility/pow_int.hpp
index 57457ef..da5772f 100644
--- a/include/cppad/utility/pow_int.hpp
+++ b/include/cppad/utility/pow_int.hpp
@@ -94,6 +94,8 @@ is an example and test of this function.
 -------------------------------------------------------------------------------
 */
 
+# include <limits>
+
 namespace CppAD {
 
     template <class Type>
@@ -104,6 +106,9 @@ namespace CppAD {
 
         if( n == 0 )
             return p;
+        // - n would overflow in this case
+        if( n == std::numeric_limits<int>::min() )
+            return pow(x, n + 1) / x;
         if( n < 0 )
             return p / pow(x, -n);
         if( n == 1 )
-- 
2.43.0


From bba186631cb765c1bc3993029eef96c7c2c4ac78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:40 +0000
Subject: [PATCH 41/78] fix: to_string for floating point types had a relative
 error above machine epsilon

---
 include/cppad/core/base_to_string.hpp | 2 +-
 include/cppad/utility/to_string.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cppad/core/base_to_string.hpp b/include/cppad/core/base_to_string.hpp
index 28154b1..5fa7046 100644
--- a/include/cppad/core/base_to_string.hpp
+++ b/include/cppad/core/base_to_string.hpp
@@ -39,7 +39,7 @@ This macro is defined as follows:
 template <> struct to_string_struct<Base>\
 {  std::string operator()(const Base& value) \
     {  std::stringstream os;\
-        int n_digits = 1 + CppAD::numeric_limits<Base>::digits10; \
+        int n_digits = CppAD::numeric_limits<Base>::max_digits10; \
         os << std::setprecision(n_digits);\
         os << value;\
         return os.str();\
diff --git a/include/cppad/utility/to_string.hpp b/include/cppad/utility/to_string.hpp
index 13a2fdc..39d86af 100644
--- a/include/cppad/utility/to_string.hpp
+++ b/include/cppad/utility/to_string.hpp
@@ -112,7 +112,7 @@ template <> struct to_string_struct<Type>\
 template <> struct to_string_struct<Float>\
 {   std::string operator()(const Float& value) \
     {   std::stringstream os;\
-        int n_digits = 1 + std::numeric_limits<Float>::digits10;\
+        int n_digits = std::numeric_limits<Float>::max_digits10;\
         os << std::setprecision(n_digits);\
         os << value;\
         return os.str();\
-- 
2.43.0


From 79d3a7c877e46c53700563c1331b9f74ee56704e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:42 +0000
Subject: [PATCH 42/78] fix: cpp_graph iterator read past the operator usage
 vector when incremented past the last operator

---
 include/cppad/local/graph/cpp_graph_itr.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cppad/local/graph/cpp_graph_itr.hpp b/include/cppad/local/graph/cpp_graph_itr.hpp
index 02b7c1f..3ef4037 100644
--- a/include/cppad/local/graph/cpp_graph_itr.hpp
+++ b/include/cppad/local/graph/cpp_graph_itr.hpp
@@ -387,7 +387,8 @@ C++ AD Graph Iterator Input Operations
     cpp_graph_itr& operator++(void)
     {  ++op_index_;
         first_arg_ = first_node_ + arg_node_.size();
-        set_value();
+        if( op_index_ < operator_vec_->size() )
+            set_value();
         return *this;
     }
     // itr++
@@ -395,7 +396,8 @@ C++ AD Graph Iterator Input Operations
     {  cpp_graph_itr ret(*this);
         ++op_index_;
         first_arg_ = first_node_ + arg_node_.size();
-        set_value();
+        if( op_index_ < operator_vec_->size() )
+            set_value();
         return ret;
     }
 /* {xrst_code}
-- 
2.43.0


From 446975ca3b3613fbbad99134da89da59826f6027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:42 +0000
Subject: [PATCH 43/78] fix: to_graph used the wrong mask for the value
 argument of a print operator

---
 include/cppad/core/graph/to_graph.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/core/graph/to_graph.hpp b/include/cppad/core/graph/to_graph.hpp
index f69a126..f3c28b2 100644
--- a/include/cppad/core/graph/to_graph.hpp
+++ b/include/cppad/core/graph/to_graph.hpp
@@ -1053,7 +1053,7 @@ void CppAD::ADFun<Base,RecBase>::to_graph(
                     notpos_node = par2node[ arg[1] ];
                 // value
                 size_t value_node;
-                if( arg[0] & 1 )
+                if( arg[0] & 2 )
                     value_node = var2node[ arg[3] ];
                 else
                     value_node = par2node[ arg[3] ];
-- 
2.43.0


From 557cbd9a7f9b65843f78926c1afc5a7263cbc04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:42 +0000
Subject: [PATCH 44/78] fix: to_graph did not handle a conditional skip
 operator

---
 include/cppad/core/graph/to_graph.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cppad/core/graph/to_graph.hpp b/include/cppad/core/graph/to_graph.hpp
index f3c28b2..43466a3 100644
--- a/include/cppad/core/graph/to_graph.hpp
+++ b/include/cppad/core/graph/to_graph.hpp
@@ -1198,6 +1198,12 @@ void CppAD::ADFun<Base,RecBase>::to_graph(
             }
             break;
 
+            // --------------------------------------------------------------
+            // CSkipOp: skipping operations is not part of the function
+            case local::CSkipOp:
+            itr.correct_before_increment();
+            break;
+
             // --------------------------------------------------------------
             // EndOp:
             case local::EndOp:
-- 
2.43.0


From 04f4fe001d95acb0d74e971cdccc038577b837c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:42 +0000
Subject: [PATCH 45/78] fix: to_graph node indices for atomic calls with
 dynamic parameter or constant results

---
 include/cppad/core/graph/to_graph.hpp | 62 +++++++++++++++++++++++----
 1 file changed, 53 insertions(+), 9 deletions(-)

diff --git a/include/cppad/core/graph/to_graph.hpp b/include/cppad/core/graph/to_graph.hpp
index 43466a3..ef5e345 100644
--- a/include/cppad/core/graph/to_graph.hpp
+++ b/include/cppad/core/graph/to_graph.hpp
@@ -144,6 +144,28 @@ void CppAD::ADFun<Base,RecBase>::to_graph(
         }
     }
     CPPAD_ASSERT_UNKNOWN( n_constant == graph_obj.constant_vec_size() );
+    //
+    // par2node[0]
+    // Variable arguments to an atomic function call, that has dynamic parameter
+    // results, have parameter index zero. The dynamic parameter results do not
+    // depend on these arguments and a zero constant is used in their place.
+    size_t i_arg = 0;
+    for(size_t i_dyn = 0; i_dyn < n_dynamic; ++i_dyn)
+    {   local::op_code_dyn dyn_op = local::op_code_dyn( dyn_par_op[i_dyn] );
+        if( dyn_op == local::atom_dyn )
+        {   size_t n = size_t( dyn_par_arg[i_arg + 2] );
+            size_t m = size_t( dyn_par_arg[i_arg + 3] );
+            for(size_t j = 0; j < n; ++j)
+            {   if( dyn_par_arg[i_arg + 5 + j] == 0 && par2node[0] == 0 )
+                {   graph_obj.constant_vec_push_back( Base(0.0) );
+                    par2node[0] = ++previous_node;
+                }
+            }
+            i_arg += 6 + n + m;
+        }
+        else
+            i_arg += num_arg_dyn(dyn_op);
+    }
     // ----------------------------------------------------------------------
     //  output: initialize atomic_name_vec, operator_vec, operator_arg
     // temporary used for elements of operator_vec
@@ -155,7 +177,7 @@ void CppAD::ADFun<Base,RecBase>::to_graph(
     // for dynamic parameters that are not constants or independent
     CPPAD_ASSERT_UNKNOWN( num_arg_dyn(local::ind_dyn) == 0 );
     CPPAD_ASSERT_UNKNOWN( num_arg_dyn(local::atom_dyn) == 0 );
-    size_t i_arg = 0;
+    i_arg = 0;
     pod_vector<size_t> node_arg;
 
     for(size_t i_dyn = n_dynamic_ind; i_dyn < n_dynamic; ++i_dyn)
@@ -164,8 +186,24 @@ void CppAD::ADFun<Base,RecBase>::to_graph(
         //
         // parameter index for this dynamic parameter
         size_t i_par = size_t( dyn2par_index[i_dyn] );
-        CPPAD_ASSERT_UNKNOWN( par2node[i_par] == 0 );
-        par2node[i_par] = ++previous_node;
+        if( dyn_op == local::atom_dyn )
+        {   // all the results of this call, including results that are not
+            // dynamic parameters, are nodes in the graph
+            size_t n = size_t( dyn_par_arg[i_arg + 2] );
+            size_t m = size_t( dyn_par_arg[i_arg + 3] );
+            for(size_t i = 0; i < m; ++i)
+            {   ++previous_node;
+                size_t j_par = size_t( dyn_par_arg[i_arg + 5 + n + i] );
+                if( par_is_dyn[j_par] )
+                {   CPPAD_ASSERT_UNKNOWN( par2node[j_par] == 0 );
+                    par2node[j_par] = previous_node;
+                }
+            }
+        }
+        else if( dyn_op != local::result_dyn )
+        {   CPPAD_ASSERT_UNKNOWN( par2node[i_par] == 0 );
+            par2node[i_par] = ++previous_node;
+        }
         //
         // number of arguments for operators with exception of atom_dyn
         size_t n_arg = num_arg_dyn(dyn_op);
@@ -321,7 +359,8 @@ void CppAD::ADFun<Base,RecBase>::to_graph(
         switch( dyn_op )
         {   // --------------------------------------------------------------
             case local::result_dyn:
-            // setting par2node[i_dyn] above is all that is necessary
+            // par2node[i_par] was set by the corresponding atom_dyn operator
+            CPPAD_ASSERT_UNKNOWN( par2node[i_par] != 0 );
             CPPAD_ASSERT_UNKNOWN( n_arg == 0 );
             break;
 
@@ -355,7 +394,7 @@ void CppAD::ADFun<Base,RecBase>::to_graph(
                 size_t call_id = size_t( dyn_par_arg[i_arg + 1] );
                 //
                 // arg[2]: number of arguments to function
-                n_arg              = size_t( dyn_par_arg[i_arg + 2] );
+                size_t n_call_arg  = size_t( dyn_par_arg[i_arg + 2] );
                 // arg[3]: number of results from function
                 size_t n_result    = size_t( dyn_par_arg[i_arg + 3] );
                 //
@@ -382,7 +421,7 @@ void CppAD::ADFun<Base,RecBase>::to_graph(
                 if( type == 4 )
                     graph_obj.operator_arg_push_back(call_id);
                 graph_obj.operator_arg_push_back(n_result);
-                graph_obj.operator_arg_push_back(n_arg);
+                graph_obj.operator_arg_push_back(n_call_arg);
                 //
                 if( type == 3 )
                     graph_op = atom_graph_op;
@@ -393,12 +432,15 @@ void CppAD::ADFun<Base,RecBase>::to_graph(
                 //
                 graph_obj.operator_vec_push_back( graph_op );
                 //
-                for(size_t j  = 0; j < n_arg; ++j)
+                for(size_t j  = 0; j < n_call_arg; ++j)
                 {   // arg[5 + j] is j-th argument to the function
                     size_t node_j = par2node[ dyn_par_arg[i_arg + 5 + j] ];
-                    CPPAD_ASSERT_UNKNOWN( node_j < i_par );
+                    CPPAD_ASSERT_UNKNOWN( 0 < node_j );
                     graph_obj.operator_arg_push_back( node_j );
                 }
+                //
+                // number of elements of dyn_par_arg used by this operator
+                n_arg = 6 + n_call_arg + n_result;
             }
             break;
 
@@ -1078,7 +1120,9 @@ void CppAD::ADFun<Base,RecBase>::to_graph(
             break;
 
             case local::FunrpOp:
-            par2node[arg[0]] = ++previous_node;
+            // The node for this parameter has already been determined.
+            // It may be a constant that is also used for other purposes.
+            ++previous_node;
             break;
 
             case local::FunrvOp:
-- 
2.43.0


From 77a0ff3304ecda8a026825405e77a1b462c734da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:42 +0000
Subject: [PATCH 46/78] fix: from_graph did not use the value of a constant
 operand in a comparison

---
 include/cppad/core/graph/from_graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cppad/core/graph/from_graph.hpp b/include/cppad/core/graph/from_graph.hpp
index 853477a..260302e 100644
--- a/include/cppad/core/graph/from_graph.hpp
+++ b/include/cppad/core/graph/from_graph.hpp
@@ -455,12 +455,12 @@ void CppAD::ADFun<Base,RecBase>::from_graph(
             if( var_left | dyn_left )
                 ax[0].taddr_ = arg[0];
             else
-                ax[0].value_ = parameter_x[0];
+                ax[0].value_ = parameter[ arg[0] ];
             // ax[1]
             if( var_right | dyn_right )
                 ax[1].taddr_ = arg[1];
             else
-                ax[1].value_ = parameter_x[1];
+                ax[1].value_ = parameter[ arg[1] ];
             //
             bool result;
             switch( op_enum )
-- 
2.43.0


From 3105d2a9ec2e3e25d1c5fb9c3f0359bf8c71899a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:43 +0000
Subject: [PATCH 47/78] fix: from_graph used the pointer of an atomic function
 that was destroyed

---
 include/cppad/core/graph/from_graph.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cppad/core/graph/from_graph.hpp b/include/cppad/core/graph/from_graph.hpp
index 260302e..1fc03a7 100644
--- a/include/cppad/core/graph/from_graph.hpp
+++ b/include/cppad/core/graph/from_graph.hpp
@@ -217,6 +217,9 @@ void CppAD::ADFun<Base,RecBase>::from_graph(
         {   CppAD::local::atomic_index<RecBase>(
                 set_null, index_in, type, &name, ptr
             );
+            // skip atomic functions that have been destroyed
+            if( ptr == nullptr )
+                continue;
             size_t graph_index = graph_obj.atomic_name_vec_find(name);
             if( graph_index != n_graph_atomic )
             {   if( atomic_name2index[graph_index] != 0 )
-- 
2.43.0


From 20714c461653f371841e2b5abe7760e01ef94925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:43 +0000
Subject: [PATCH 48/78] fix: from_graph recorded nan for constant results of an
 atomic function

---
 include/cppad/core/graph/from_graph.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cppad/core/graph/from_graph.hpp b/include/cppad/core/graph/from_graph.hpp
index 1fc03a7..44e11ca 100644
--- a/include/cppad/core/graph/from_graph.hpp
+++ b/include/cppad/core/graph/from_graph.hpp
@@ -774,7 +774,10 @@ void CppAD::ADFun<Base,RecBase>::from_graph(
                 // ay
                 ay.resize(n_result);
                 for(size_t i = 0; i < n_result; ++i)
-                {   ay[i].value_ = nan; // not_used
+                {   // value is only used for results that are constants
+                    ay[i].value_ = nan;
+                    if( type_y[i] == constant_enum )
+                        ay[i].value_ = taylor_y[i];
                     ay[i].taddr_ = 0;   // not used
                 }
             }
-- 
2.43.0


From 8efd0b16aebee83fe5a95f5715b85b80563b586c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:43 +0000
Subject: [PATCH 49/78] fix: json_parser atomic four operator argument order

---
 cppad_lib/json_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cppad_lib/json_parser.cpp b/cppad_lib/json_parser.cpp
index 3092eb2..59399d1 100644
--- a/cppad_lib/json_parser.cpp
+++ b/cppad_lib/json_parser.cpp
@@ -254,9 +254,9 @@ void CppAD::local::graph::json_parser(
             CPPAD_ASSERT_UNKNOWN(
                 name_index < graph_obj.atomic_name_vec_size()
             );
+            graph_obj.operator_arg_push_back( name_index );
             if( op_enum == atom4_graph_op )
                 graph_obj.operator_arg_push_back( call_id );
-            graph_obj.operator_arg_push_back( name_index );
             graph_obj.operator_arg_push_back( n_result );
             graph_obj.operator_arg_push_back( n_arg );
         }
-- 
2.43.0


From 1f91dad48b0ca93f51ba0b9996abb088e95402e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:43 +0000
Subject: [PATCH 50/78] fix: json_writer changed single quotes in names and
 text to double quotes

---
 cppad_lib/json_writer.cpp | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/cppad_lib/json_writer.cpp b/cppad_lib/json_writer.cpp
index 973313f..448a22f 100644
--- a/cppad_lib/json_writer.cpp
+++ b/cppad_lib/json_writer.cpp
@@ -45,10 +45,10 @@ void CppAD::local::graph::json_writer(
     json = "{\n";
     //
     // output: function_name
-    json += "'function_name' : '" + function_name + "',\n";
+    json += "\"function_name\" : \"" + function_name + "\",\n";
     //
     // output: op_define_vec
-    json += "'op_define_vec' : [ " + to_string(n_define) + ", [\n";
+    json += "\"op_define_vec\" : [ " + to_string(n_define) + ", [\n";
     size_t count_define = 0;
     for(size_t i = 0; i < n_graph_op; ++i)
     {   if( is_graph_op_used[i] )
@@ -56,10 +56,10 @@ void CppAD::local::graph::json_writer(
             const string name = op_enum2name[i];
             size_t op_code    = graph_code[i];
             size_t n_arg      = op_enum2fixed_n_arg[i];
-            json += "{ 'op_code':" + to_string(op_code);
-            json += ", 'name':'" + name + "'";
+            json += "{ \"op_code\":" + to_string(op_code);
+            json += ", \"name\":\"" + name + "\"";
             if( n_arg != 0 )
-                json += ", 'n_arg':" + to_string(n_arg);
+                json += ", \"n_arg\":" + to_string(n_arg);
             json += " }";
             if( count_define < n_define )
                 json += ",\n";
@@ -68,14 +68,14 @@ void CppAD::local::graph::json_writer(
     json += " ]\n] ,\n";
     //
     // output: n_dynamic_ind
-    json += "'n_dynamic_ind' : " + to_string( n_dynamic_ind ) + ",\n";
+    json += "\"n_dynamic_ind\" : " + to_string( n_dynamic_ind ) + ",\n";
     //
     // output: n_variable_ind
-    json += "'n_variable_ind' : " + to_string( n_variable_ind ) + ",\n";
+    json += "\"n_variable_ind\" : " + to_string( n_variable_ind ) + ",\n";
     //
     // output: constant_vec
     size_t n_constant = graph_obj.constant_vec_size();
-    json += "'constant_vec' : [ " + to_string(n_constant) + ", [\n";
+    json += "\"constant_vec\" : [ " + to_string(n_constant) + ", [\n";
     for(size_t i = 0; i < n_constant; ++i)
     {   json += to_string( graph_obj.constant_vec_get(i) );
         if( i + 1 < n_constant )
@@ -91,7 +91,7 @@ void CppAD::local::graph::json_writer(
     cpp_graph::const_iterator graph_itr;
     //
     // output: op_usage_vec
-    json += "'op_usage_vec' : [ " + to_string(n_usage) + ", [\n";
+    json += "\"op_usage_vec\" : [ " + to_string(n_usage) + ", [\n";
     for(size_t op_index = 0; op_index < n_usage; ++op_index)
     {   // op_enum, str_index, n_result, arg_node
         if( op_index == 0 )
@@ -134,7 +134,7 @@ void CppAD::local::graph::json_writer(
             {   size_t name_index = str_index[0];
                 string name = graph_obj.atomic_name_vec_get(name_index);
                 json += "[ " + to_string(op_code) + ", ";
-                json += "'" + name + "', ";
+                json += "\"" + name + "\", ";
             }
             if( op_enum == atom4_graph_op )
                 json += to_string(call_id) + ", ";
@@ -171,7 +171,7 @@ void CppAD::local::graph::json_writer(
             {   size_t name_index = str_index[0];
                 string name = graph_obj.discrete_name_vec_get(name_index);
                 json += "[ " + to_string(op_code) + ", ";
-                json += "'" + name + "', ";
+                json += "\"" + name + "\", ";
             }
             json += to_string(n_result) + ", ";
             json += to_string(n_arg) + ", [ ";
@@ -187,8 +187,8 @@ void CppAD::local::graph::json_writer(
                 string before  = graph_obj.print_text_vec_get(before_index);
                 string after   = graph_obj.print_text_vec_get(after_index);
                 json += "[ " + to_string(op_code) + ", ";
-                json += "'" + before + "', ";
-                json += "'" + after + "', 0, 2, [ ";
+                json += "\"" + before + "\", ";
+                json += "\"" + after + "\", 0, 2, [ ";
                 json += to_string( arg[0] ) + ", ";
                 json += to_string( arg[1] ) + " ] ]";
             }
@@ -216,7 +216,7 @@ void CppAD::local::graph::json_writer(
     // ----------------------------------------------------------------------
     // output: dependent_vec
     size_t n_dependent = graph_obj.dependent_vec_size();
-    json += "'dependent_vec' : [ " + to_string(n_dependent) + ", [ ";
+    json += "\"dependent_vec\" : [ " + to_string(n_dependent) + ", [ ";
     for(size_t i = 0; i < n_dependent; ++i)
     {   json += to_string( graph_obj.dependent_vec_get(i) );
         if( i + 1 < n_dependent )
@@ -226,10 +226,6 @@ void CppAD::local::graph::json_writer(
     //
     // output: ending '}' for this graph
     json += "}\n";
-    // ----------------------------------------------------------------------
-    // Convert the single quote to double quote
-    for(size_t i = 0; i < json.size(); ++i)
-        if( json[i] == '\'' ) json[i] = '"';
     //
     return;
 }
-- 
2.43.0


From 8e063ec56a1b6fa8c3d2cc8f5215aa3da0d8a75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:36 +0000
Subject: [PATCH 51/78] Revert "fix: NearEqual could return true when y is
 infinite"

This reverts commit fceda89344f63d3f0bb4b872f3d39244542fea7e.
---
 include/cppad/utility/near_equal.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/utility/near_equal.hpp b/include/cppad/utility/near_equal.hpp
index 3fc0c09..fac475d 100644
--- a/include/cppad/utility/near_equal.hpp
+++ b/include/cppad/utility/near_equal.hpp
@@ -155,7 +155,7 @@ bool near_equal_isfinite(const Type &x , const Type &y)
 
     // infinite cases
     bool xInf = (x == infinity   || x == - infinity);
-    bool yInf = (y == infinity   || y == - infinity);
+    bool yInf = (x == infinity   || x == - infinity);
 
     return ! (xNan | yNan | xInf | yInf);
 }
-- 
2.43.0


From d1fe41a9d56730b23040dd0fcc2702ca65df610e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:36 +0000
Subject: [PATCH 52/78] fix: restore the number of digits in CPPAD_TO_STRING
 (test_more/general/base_alloc.cpp pins it)

---
 include/cppad/core/base_to_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/core/base_to_string.hpp b/include/cppad/core/base_to_string.hpp
index 5fa7046..28154b1 100644
--- a/include/cppad/core/base_to_string.hpp
+++ b/include/cppad/core/base_to_string.hpp
@@ -39,7 +39,7 @@ This macro is defined as follows:
 template <> struct to_string_struct<Base>\
 {  std::string operator()(const Base& value) \
     {  std::stringstream os;\
-        int n_digits = CppAD::numeric_limits<Base>::max_digits10; \
+        int n_digits = 1 + CppAD::numeric_limits<Base>::digits10; \
         os << std::setprecision(n_digits);\
         os << value;\
         return os.str();\
-- 
2.43.0


From 646bca1121865cdd32a9e5a9dc96ef3d366784c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:31 +0000
Subject: [PATCH 53/78] fix: json_parser accepted unknown operator names

---
 cppad_lib/json_parser.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cppad_lib/json_parser.cpp b/cppad_lib/json_parser.cpp
index 59399d1..0e78a17 100644
--- a/cppad_lib/json_parser.cpp
+++ b/cppad_lib/json_parser.cpp
@@ -4,6 +4,7 @@
 // ----------------------------------------------------------------------------
 
 
+# include <map>
 # include <cppad/core/graph/cpp_graph.hpp>
 # include <cppad/local/graph/json_lexer.hpp>
 # include <cppad/local/define.hpp>
@@ -72,7 +73,13 @@ void CppAD::local::graph::json_parser(
         json_lexer.check_next_char(':');
         json_lexer.check_next_string(match_any_string);
         string name = json_lexer.token();
-        graph_op_enum op_enum = op_name2enum[name];
+        std::map<string, graph_op_enum>::const_iterator itr =
+            op_name2enum.find(name);
+        if( itr == op_name2enum.end() )
+        {   json_lexer.report_error("operator name", '"' + name + '"');
+            return;
+        }
+        graph_op_enum op_enum = itr->second;
         //
         // op_code2enum for this op_code
         op_code2enum.push_back(op_enum);
-- 
2.43.0


From dc94793f8cccf6d75c21753617a9b76f73a2d90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:31 +0000
Subject: [PATCH 54/78] fix: json_parser did not check operator codes

---
 cppad_lib/json_parser.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/cppad_lib/json_parser.cpp b/cppad_lib/json_parser.cpp
index 0e78a17..a9e4d4f 100644
--- a/cppad_lib/json_parser.cpp
+++ b/cppad_lib/json_parser.cpp
@@ -62,10 +62,11 @@ void CppAD::local::graph::json_parser(
         json_lexer.check_next_string("op_code");
         json_lexer.check_next_char(':');
         json_lexer.next_non_neg_int();
-# ifndef NDEBUG
-        size_t op_code = json_lexer.token2size_t();
-        CPPAD_ASSERT_UNKNOWN( op_code == op_code2enum.size() );
-# endif
+        if( json_lexer.token2size_t() != op_code2enum.size() )
+        {   string expected = CppAD::to_string( op_code2enum.size() );
+            string found    = json_lexer.token();
+            json_lexer.report_error(expected, found);
+        }
         json_lexer.check_next_char(',');
         //
         // "name" : name
@@ -173,7 +174,13 @@ void CppAD::local::graph::json_parser(
         //
         // op_enum
         json_lexer.next_non_neg_int();
-        graph_op_enum op_enum    = op_code2enum[ json_lexer.token2size_t() ];
+        size_t op_code = json_lexer.token2size_t();
+        if( op_code == 0 || op_code2enum.size() <= op_code )
+        {   string found = json_lexer.token();
+            json_lexer.report_error("op_code in op_define_vec", found);
+            return;
+        }
+        graph_op_enum op_enum    = op_code2enum[op_code];
         json_lexer.check_next_char(',');
         //
         size_t call_id  = std::numeric_limits<size_t>::max();
-- 
2.43.0


From 141ed2722b83b15b2391a1cdcbadd4ef41e33dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:31 +0000
Subject: [PATCH 55/78] fix: json_parser did not check the number of arguments
 and results of operators

---
 cppad_lib/json_parser.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/cppad_lib/json_parser.cpp b/cppad_lib/json_parser.cpp
index a9e4d4f..184f479 100644
--- a/cppad_lib/json_parser.cpp
+++ b/cppad_lib/json_parser.cpp
@@ -248,11 +248,30 @@ void CppAD::local::graph::json_parser(
             // n_result,
             json_lexer.next_non_neg_int();
             n_result = json_lexer.token2size_t();
+            if( op_enum != atom_graph_op && op_enum != atom4_graph_op )
+            {   size_t expected = 0; // comparison and print operators
+                if( op_enum == sum_graph_op || op_enum == discrete_graph_op )
+                    expected = 1;
+                if( n_result != expected )
+                {   string found = json_lexer.token();
+                    json_lexer.report_error(CppAD::to_string(expected), found);
+                }
+            }
             json_lexer.check_next_char(',');
             //
             // n_arg, [
             json_lexer.next_non_neg_int();
             n_arg = json_lexer.token2size_t();
+            if( op_enum != atom_graph_op && op_enum != atom4_graph_op &&
+                op_enum != sum_graph_op )
+            {   size_t expected = 2; // comparison and print operators
+                if( op_enum == discrete_graph_op )
+                    expected = 1;
+                if( n_arg != expected )
+                {   string found = json_lexer.token();
+                    json_lexer.report_error(CppAD::to_string(expected), found);
+                }
+            }
             json_lexer.check_next_char(',');
             json_lexer.check_next_char('[');
         }
-- 
2.43.0


From 6336b9aa30bc664951a2872107c19e8504a99ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:31 +0000
Subject: [PATCH 56/78] fix: json_parser did not check node indices

---
 cppad_lib/json_parser.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/cppad_lib/json_parser.cpp b/cppad_lib/json_parser.cpp
index 184f479..57cc904 100644
--- a/cppad_lib/json_parser.cpp
+++ b/cppad_lib/json_parser.cpp
@@ -164,6 +164,9 @@ void CppAD::local::graph::json_parser(
     json_lexer.check_next_char(',');
     json_lexer.check_next_char('[');
     //
+    // index of the first result for the current operator
+    size_t next_node = 1 + n_dynamic_ind + n_variable_ind + n_constant;
+    //
     // index for strings in current operator
     CppAD::vector<size_t> str_index;
     for(size_t i = 0; i < n_usage; ++i)
@@ -318,12 +321,17 @@ void CppAD::local::graph::json_parser(
         {   // next_arg
             json_lexer.next_non_neg_int();
             size_t argument_node = json_lexer.token2size_t();
+            if( argument_node == 0 || next_node <= argument_node )
+            {   string found = json_lexer.token();
+                json_lexer.report_error("previous node index", found);
+            }
             graph_obj.operator_arg_push_back( argument_node );
             //
             // , (if not last entry)
             if( j + 1 < n_arg )
                 json_lexer.check_next_char(',');
         }
+        next_node += n_result;
         json_lexer.check_next_char(']');
         if( ! fixed )
             json_lexer.check_next_char(']');
@@ -347,8 +355,13 @@ void CppAD::local::graph::json_parser(
     //
     json_lexer.check_next_char('[');
     for(size_t i = 0; i < n_dependent; ++i)
-    {   json_lexer.next_float();
-        graph_obj.dependent_vec_push_back( json_lexer.token2size_t() );
+    {   json_lexer.next_non_neg_int();
+        size_t dependent_node = json_lexer.token2size_t();
+        if( dependent_node == 0 || next_node <= dependent_node )
+        {   string found = json_lexer.token();
+            json_lexer.report_error("node index", found);
+        }
+        graph_obj.dependent_vec_push_back( dependent_node );
         //
         if( i + 1 < n_dependent )
             json_lexer.check_next_char(',');
-- 
2.43.0


From c93107f0a98ff38302e94c26d09e21b95e5692ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:31 +0000
Subject: [PATCH 57/78] fix: json_lexer integer overflow

---
 cppad_lib/json_lexer.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/cppad_lib/json_lexer.cpp b/cppad_lib/json_lexer.cpp
index f96cd60..b4b7995 100644
--- a/cppad_lib/json_lexer.cpp
+++ b/cppad_lib/json_lexer.cpp
@@ -3,6 +3,7 @@
 // SPDX-FileContributor: 2003-24 Bradley M. Bell
 // ----------------------------------------------------------------------------
 # include <cctype>
+# include <limits>
 # include <cppad/local/graph/json_lexer.hpp>
 # include <cppad/local/graph/cpp_graph_op.hpp>
 # include <cppad/utility/error_handler.hpp>
@@ -106,7 +107,12 @@ void json_lexer::set_function_name(const std::string& function_name)
 
 // token2size_t
 size_t json_lexer::token2size_t(void) const
-{   return size_t( std::atoi( token_.c_str() ) ); }
+{   // next_non_neg_int checked that the value fits in a size_t
+    size_t result = 0;
+    for(size_t i = 0; i < token_.size(); ++i)
+        result = 10 * result + size_t( token_[i] - '0' );
+    return result;
+}
 
 // token2double
 double json_lexer::token2double(void) const
@@ -227,6 +233,18 @@ void json_lexer::next_non_neg_int(void)
         if( ok )
             next_index();
     }
+    //
+    // check that token2size_t can represent this integer
+    size_t max_value = std::numeric_limits<size_t>::max();
+    size_t value     = 0;
+    for(size_t i = 0; i < token_.size(); ++i)
+    {   size_t digit = size_t( token_[i] - '0' );
+        if( (max_value - digit) / 10 < value )
+        {   report_error("non-negative integer that fits in size_t", token_);
+            break;
+        }
+        value = 10 * value + digit;
+    }
 }
 
 // next_float
-- 
2.43.0


From ccbbaa0daed594af13b875a7cc9368f0089203bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:31 +0000
Subject: [PATCH 58/78] fix: from_graph asserted that nan constants are equal
 to themselves

---
 include/cppad/core/graph/from_graph.hpp | 126 ++++++++++++++++++------
 1 file changed, 94 insertions(+), 32 deletions(-)

diff --git a/include/cppad/core/graph/from_graph.hpp b/include/cppad/core/graph/from_graph.hpp
index 44e11ca..855ba3a 100644
--- a/include/cppad/core/graph/from_graph.hpp
+++ b/include/cppad/core/graph/from_graph.hpp
@@ -316,7 +316,7 @@ void CppAD::ADFun<Base,RecBase>::from_graph(
     for(size_t i = 0; i < n_constant; ++i)
     {   Base par = Base( graph_obj.constant_vec_get(i) );
         i_par = rec.put_con_par(par);
-        CPPAD_ASSERT_UNKNOWN( parameter[i_par] == par );
+        CPPAD_ASSERT_UNKNOWN( parameter[i_par] == par || CppAD::isnan(par) );
         //
         node_type.push_back(constant_enum);;
         node2fun.push_back(i_par);
@@ -525,7 +525,9 @@ void CppAD::ADFun<Base,RecBase>::from_graph(
                 //
                 // start with constant parameter
                 i_result = rec.put_con_par(sum_constant);
-                CPPAD_ASSERT_UNKNOWN( parameter[i_result] == sum_constant );
+                CPPAD_ASSERT_UNKNOWN( parameter[i_result] == sum_constant
+                    || CppAD::isnan(sum_constant)
+                );
                 //
                 // sum the dynamic parameters
                 for(addr_t j = 0; j < n_dyn_arg; ++j)
@@ -555,7 +557,9 @@ void CppAD::ADFun<Base,RecBase>::from_graph(
                 temporary[j_dynamic] = j_dynamic + 1;
                 //
                 temporary[0] = rec.put_con_par(sum_constant);
-                CPPAD_ASSERT_UNKNOWN(parameter[temporary[0]] == sum_constant);
+                CPPAD_ASSERT_UNKNOWN( parameter[temporary[0]] == sum_constant
+                    || CppAD::isnan(sum_constant)
+                );
                 //
                 temporary[1] = 5 + n_var_arg;
                 temporary[2] = 5 + n_var_arg;
@@ -634,7 +638,9 @@ void CppAD::ADFun<Base,RecBase>::from_graph(
                     function_index, parameter[ arg[0] ]
                 );
                 i_result = rec.put_con_par(result);
-                CPPAD_ASSERT_UNKNOWN( parameter[i_result] == result );
+                CPPAD_ASSERT_UNKNOWN(
+                    parameter[i_result] == result || CppAD::isnan(result)
+                );
             }
         }
         // -------------------------------------------------------------------
@@ -1098,133 +1104,177 @@ void CppAD::ADFun<Base,RecBase>::from_graph(
                 case abs_graph_op:
                 result    = CppAD::abs( parameter[ arg[0] ] );
                 i_result  = rec.put_con_par(result);
-                CPPAD_ASSERT_UNKNOWN( parameter[i_result] == result );
+                CPPAD_ASSERT_UNKNOWN(
+                    parameter[i_result] == result || CppAD::isnan(result)
+                );
                 break;
 
                 case acosh_graph_op:
                 result    = CppAD::acosh( parameter[ arg[0] ] );
                 i_result  = rec.put_con_par(result);
-                CPPAD_ASSERT_UNKNOWN( parameter[i_result] == result );
+                CPPAD_ASSERT_UNKNOWN(
+                    parameter[i_result] == result || CppAD::isnan(result)
+                );
                 break;
 
                 case asinh_graph_op:
                 result    = CppAD::asinh( parameter[ arg[0] ] );
                 i_result  = rec.put_con_par(result);
-                CPPAD_ASSERT_UNKNOWN( parameter[i_result] == result );
+                CPPAD_ASSERT_UNKNOWN(
+                    parameter[i_result] == result || CppAD::isnan(result)
+                );
                 break;
 
                 case atanh_graph_op:
                 result    = CppAD::atanh( parameter[ arg[0] ] );
                 i_result  = rec.put_con_par(result);
-                CPPAD_ASSERT_UNKNOWN( parameter[i_result] == result );
+                CPPAD_ASSERT_UNKNOWN(
+                    parameter[i_result] == result || CppAD::isnan(result)
+                );
                 break;
 
                 case erf_graph_op:
                 result    = CppAD::erf( parameter[ arg[0] ] );
                 i_result  = rec.put_con_par(result);
-                CPPAD_ASSERT_UNKNOWN( parameter[i_result] == result );
+                CPPAD_ASSERT_UNKNOWN(
+                    parameter[i_result] == result || CppAD::isnan(result)
+                );
                 break;
 
                 case erfc_graph_op:
                 result    = CppAD::erfc( parameter[ arg[0] ] );
                 i_result  = rec.put_con_par(result);
-                CPPAD_ASSERT_UNKNOWN( parameter[i_result] == result );
+                CPPAD_ASSERT_UNKNOWN(
+                    parameter[i_result] == result || CppAD::isnan(result)
+                );
                 break;
 
                 case expm1_graph_op:
                 result    = CppAD::expm1( parameter[ arg[0] ] );
                 i_result  = rec.put_con_par(result);
-                CPPAD_ASSERT_UNKNOWN( parameter[i_result] == result );
+                CPPAD_ASSERT_UNKNOWN(
+                    parameter[i_result] == result || CppAD::isnan(result)
+                );
                 break;
 
                 case log1p_graph_op:
                 result    = CppAD::log1p( parameter[ arg[0] ] );
                 i_result  = rec.put_con_par(result);
-                CPPAD_ASSERT_UNKNOWN( parameter[i_result] == result );
+                CPPAD_ASSERT_UNKNOWN(
+                    parameter[i_result] == result || CppAD::isnan(result)
+                );
                 break;
 
                 case acos_graph_op:
                 result    = CppAD::acos( parameter[ arg[0] ] );
                 i_result  = rec.put_con_par(result);
-                CPPAD_ASSERT_UNKNOWN( parameter[i_result] == result );
+                CPPAD_ASSERT_UNKNOWN(
+                    parameter[i_result] == result || CppAD::isnan(result)
+                );
                 break;
 
                 case asin_graph_op:
                 result    = CppAD::asin( parameter[ arg[0] ] );
                 i_result  = rec.put_con_par(result);
-                CPPAD_ASSERT_UNKNOWN( parameter[i_result] == result );
+                CPPAD_ASSERT_UNKNOWN(
+                    parameter[i_result] == result || CppAD::isnan(result)
+                );
                 break;
 
                 case atan_graph_op:
                 result    = CppAD::atan( parameter[ arg[0] ] );
                 i_result  = rec.put_con_par(result);
-                CPPAD_ASSERT_UNKNOWN( parameter[i_result] == result );
+                CPPAD_ASSERT_UNKNOWN(
+                    parameter[i_result] == result || CppAD::isnan(result)
+                );
                 break;
 
                 case cosh_graph_op:
                 result    = CppAD::cosh( parameter[ arg[0] ] );
                 i_result  = rec.put_con_par(result);
-                CPPAD_ASSERT_UNKNOWN( parameter[i_result] == result );
+                CPPAD_ASSERT_UNKNOWN(
+                    parameter[i_result] == result || CppAD::isnan(result)
+                );
                 break;
 
                 case cos_graph_op:
                 result    = CppAD::cos( parameter[ arg[0] ] );
                 i_result  = rec.put_con_par(result);
-                CPPAD_ASSERT_UNKNOWN( parameter[i_result] == result );
+                CPPAD_ASSERT_UNKNOWN(
+                    parameter[i_result] == result || CppAD::isnan(result)
+                );
                 break;
 
                 case exp_graph_op:
                 result    = CppAD::exp( parameter[ arg[0] ] );
                 i_result  = rec.put_con_par(result);
-                CPPAD_ASSERT_UNKNOWN( parameter[i_result] == result );
+                CPPAD_ASSERT_UNKNOWN(
+                    parameter[i_result] == result || CppAD::isnan(result)
+                );
                 break;
 
                 case log_graph_op:
                 result    = CppAD::log( parameter[ arg[0] ] );
                 i_result  = rec.put_con_par(result);
-                CPPAD_ASSERT_UNKNOWN( parameter[i_result] == result );
+                CPPAD_ASSERT_UNKNOWN(
+                    parameter[i_result] == result || CppAD::isnan(result)
+                );
                 break;
 
                 case neg_graph_op:
                 result    = - parameter[ arg[0] ];
                 i_result  = rec.put_con_par(result);
-                CPPAD_ASSERT_UNKNOWN( parameter[i_result] == result );
+                CPPAD_ASSERT_UNKNOWN(
+                    parameter[i_result] == result || CppAD::isnan(result)
+                );
                 break;
 
                 case sign_graph_op:
                 result    = CppAD::sign( parameter[ arg[0] ] );
                 i_result  = rec.put_con_par(result);
-                CPPAD_ASSERT_UNKNOWN( parameter[i_result] == result );
+                CPPAD_ASSERT_UNKNOWN(
+                    parameter[i_result] == result || CppAD::isnan(result)
+                );
                 break;
 
                 case sinh_graph_op:
                 result    = CppAD::sinh( parameter[ arg[0] ] );
                 i_result  = rec.put_con_par(result);
-                CPPAD_ASSERT_UNKNOWN( parameter[i_result] == result );
+                CPPAD_ASSERT_UNKNOWN(
+                    parameter[i_result] == result || CppAD::isnan(result)
+                );
                 break;
 
                 case sin_graph_op:
                 result    = CppAD::sin( parameter[ arg[0] ] );
                 i_result  = rec.put_con_par(result);
-                CPPAD_ASSERT_UNKNOWN( parameter[i_result] == result );
+                CPPAD_ASSERT_UNKNOWN(
+                    parameter[i_result] == result || CppAD::isnan(result)
+                );
                 break;
 
                 case sqrt_graph_op:
                 result    = CppAD::sqrt( parameter[ arg[0] ] );
                 i_result  = rec.put_con_par(result);
-                CPPAD_ASSERT_UNKNOWN( parameter[i_result] == result );
+                CPPAD_ASSERT_UNKNOWN(
+                    parameter[i_result] == result || CppAD::isnan(result)
+                );
                 break;
 
                 case tanh_graph_op:
                 result    = CppAD::tanh( parameter[ arg[0] ] );
                 i_result  = rec.put_con_par(result);
-                CPPAD_ASSERT_UNKNOWN( parameter[i_result] == result );
+                CPPAD_ASSERT_UNKNOWN(
+                    parameter[i_result] == result || CppAD::isnan(result)
+                );
                 break;
 
                 case tan_graph_op:
                 result    = CppAD::tan( parameter[ arg[0] ] );
                 i_result  = rec.put_con_par(result);
-                CPPAD_ASSERT_UNKNOWN( parameter[i_result] == result );
+                CPPAD_ASSERT_UNKNOWN(
+                    parameter[i_result] == result || CppAD::isnan(result)
+                );
                 break;
 
                 default:
@@ -1414,37 +1464,49 @@ void CppAD::ADFun<Base,RecBase>::from_graph(
                 case add_graph_op:
                 result = parameter[ arg[0] ] + parameter[ arg[1] ];
                 i_result = rec.put_con_par(result);
-                CPPAD_ASSERT_UNKNOWN( parameter[i_result] == result );
+                CPPAD_ASSERT_UNKNOWN(
+                    parameter[i_result] == result || CppAD::isnan(result)
+                );
                 break;
 
                 case azmul_graph_op:
                 result = azmul( parameter[ arg[0] ] , parameter[ arg[1] ] );
                 i_result = rec.put_con_par(result);
-                CPPAD_ASSERT_UNKNOWN( parameter[i_result] == result );
+                CPPAD_ASSERT_UNKNOWN(
+                    parameter[i_result] == result || CppAD::isnan(result)
+                );
                 break;
 
                 case div_graph_op:
                 result = parameter[ arg[0] ] / parameter[ arg[1] ];
                 i_result = rec.put_con_par(result);
-                CPPAD_ASSERT_UNKNOWN( parameter[i_result] == result );
+                CPPAD_ASSERT_UNKNOWN(
+                    parameter[i_result] == result || CppAD::isnan(result)
+                );
                 break;
 
                 case mul_graph_op:
                 result = parameter[ arg[0] ] * parameter[ arg[1] ];
                 i_result = rec.put_con_par(result);
-                CPPAD_ASSERT_UNKNOWN( parameter[i_result] == result );
+                CPPAD_ASSERT_UNKNOWN(
+                    parameter[i_result] == result || CppAD::isnan(result)
+                );
                 break;
 
                 case pow_graph_op:
                 result = pow( parameter[ arg[0] ],  parameter[ arg[1] ] );
                 i_result = rec.put_con_par(result);
-                CPPAD_ASSERT_UNKNOWN( parameter[i_result] == result );
+                CPPAD_ASSERT_UNKNOWN(
+                    parameter[i_result] == result || CppAD::isnan(result)
+                );
                 break;
 
                 case sub_graph_op:
                 result = parameter[ arg[0] ] - parameter[ arg[1] ];
                 i_result = rec.put_con_par(result);
-                CPPAD_ASSERT_UNKNOWN( parameter[i_result] == result );
+                CPPAD_ASSERT_UNKNOWN(
+                    parameter[i_result] == result || CppAD::isnan(result)
+                );
                 break;
 
                 default:
-- 
2.43.0


From 1edde9fd4d1b99578a5a12c817488c99c1765b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:54 +0000
Subject: [PATCH 59/78] fix: to_csrc replaced a sum of one term by zero

---
 cppad_lib/csrc_writer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cppad_lib/csrc_writer.cpp b/cppad_lib/csrc_writer.cpp
index db7bd05..a6e2606 100644
--- a/cppad_lib/csrc_writer.cpp
+++ b/cppad_lib/csrc_writer.cpp
@@ -110,8 +110,8 @@ namespace {
         const CppAD::vector<size_t>& arg_node            )
     {   std::string rhs = "\t" + element("v", result_node) + " = ";
         os << rhs;
-        if( arg_node.size() == 1 )
-        {   // can have subtraction terms with no addition terms
+        if( arg_node.size() == 0 )
+        {   // sum of no terms
             os << "(float_point_t) 0;\n";
             return;
         }
-- 
2.43.0


From 6ad23f774c35cac76c221c514526e8ccb7035fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:54 +0000
Subject: [PATCH 60/78] fix: to_csrc wrote nan, infinity and minus zero
 constants as invalid or different C constants

---
 cppad_lib/csrc_writer.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cppad_lib/csrc_writer.cpp b/cppad_lib/csrc_writer.cpp
index a6e2606..cfbcc6b 100644
--- a/cppad_lib/csrc_writer.cpp
+++ b/cppad_lib/csrc_writer.cpp
@@ -36,6 +36,7 @@ be one of the following:
 {xrst_end cpp_csrc_writer}
 */
 
+# include <limits>
 # include <cppad/local/pod_vector.hpp>
 # include <cppad/core/cppad_assert.hpp>
 # include <cppad/core/graph/cpp_graph.hpp>
@@ -347,8 +348,17 @@ void CppAD::local::graph::csrc_writer(
     ;
     for(size_t i = 0; i < nc; ++i)
     {   double c_i = graph_obj.constant_vec_get(i);
+        string value = to_string(c_i);
+        if( c_i != c_i )
+            value = "NAN";
+        else if( c_i == std::numeric_limits<double>::infinity() )
+            value = "INFINITY";
+        else if( c_i == - std::numeric_limits<double>::infinity() )
+            value = "-INFINITY";
+        else if( value.find_first_of(".eE") == string::npos )
+            value += ".0"; // not an integer constant; e.g., -0
         os <<
-            "\tv[1+nu+" + to_string(i) + "] = " + to_string(c_i) + ";\n"
+            "\tv[1+nu+" + to_string(i) + "] = " + value + ";\n"
         ;
     }
     //
-- 
2.43.0


From e8ad2e99c218d185af26b459656ceee41ef1518c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:54 +0000
Subject: [PATCH 61/78] fix: to_csrc did not implement negation, conditional
 expressions and atomic_three calls

---
 cppad_lib/csrc_writer.cpp | 44 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/cppad_lib/csrc_writer.cpp b/cppad_lib/csrc_writer.cpp
index cfbcc6b..c9715d7 100644
--- a/cppad_lib/csrc_writer.cpp
+++ b/cppad_lib/csrc_writer.cpp
@@ -104,6 +104,19 @@ namespace {
         os << "( " + element("v", arg_node) + " );\n";
     }
     //
+    // conditional_exp
+    void conditional_exp(
+        std::ostream&                os                  ,
+        const char*                  op_csrc             ,
+        size_t                       result_node         ,
+        const CppAD::vector<size_t>& arg_node            )
+    {   os << "\t" + element("v", result_node) + " = ";
+        os << element("v", arg_node[0]) + " " + op_csrc + " ";
+        os << element("v", arg_node[1]) + " ? ";
+        os << element("v", arg_node[2]) + " : ";
+        os << element("v", arg_node[3]) + ";\n";
+    }
+    //
     // sum_operator
     void sum_operator(
         std::ostream&                os                  ,
@@ -391,7 +404,6 @@ void CppAD::local::graph::csrc_writer(
         graph_op_enum op_enum    = itr_value.op_enum;
         size_t        call_id    = itr_value.call_id;
         size_t        n_result   = itr_value.n_result;
-        CPPAD_ASSERT_UNKNOWN( arg_node.size() > 0 );
         //
         // op_csrc
         const char* op_csrc = nullptr;
@@ -435,8 +447,24 @@ void CppAD::local::graph::csrc_writer(
             op_csrc = "=="; // not ne
             break;
             // -------------------------------------------------------------
+            // conditional expressions
+            // -------------------------------------------------------------
+            case cexp_eq_graph_op:
+            op_csrc = "==";
+            break;
+            case cexp_le_graph_op:
+            op_csrc = "<=";
+            break;
+            case cexp_lt_graph_op:
+            op_csrc = "<";
+            break;
+            // -------------------------------------------------------------
             // unary functions
             // -------------------------------------------------------------
+            case neg_graph_op:
+            op_csrc = "-";
+            break;
+            //
             case abs_graph_op:
             op_csrc = "fabs";
             break;
@@ -467,6 +495,7 @@ void CppAD::local::graph::csrc_writer(
             // ---------------------------------------------------------------
             // operators that do not use op_csrc
             // ---------------------------------------------------------------
+            case atom_graph_op:
             case atom4_graph_op:
             case discrete_graph_op:
             case sum_graph_op:
@@ -518,7 +547,17 @@ void CppAD::local::graph::csrc_writer(
             ;
             break;
             //
+            // conditional expressions
+            case cexp_eq_graph_op:
+            case cexp_le_graph_op:
+            case cexp_lt_graph_op:
+            CPPAD_ASSERT_UNKNOWN( arg_node.size() == 4 );
+            CPPAD_ASSERT_UNKNOWN( n_result == 1 );
+            conditional_exp(os, op_csrc, result_node, arg_node);
+            break;
+            //
             // unary functions
+            case neg_graph_op:
             case abs_graph_op:
             case acos_graph_op:
             case acosh_graph_op:
@@ -547,7 +586,8 @@ void CppAD::local::graph::csrc_writer(
             );
             break;
             //
-            // atom4
+            // atom, atom4
+            case atom_graph_op:
             case atom4_graph_op:
             {   size_t index       = str_index[0];
                 string atomic_name = graph_obj.atomic_name_vec_get(index);
-- 
2.43.0


From 8e9db93f1253fe947c0d2caefb6acb6df0f6cd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:54 +0000
Subject: [PATCH 62/78] fix: create_dll_lib accepted library names shorter than
 their extension

---
 include/cppad/utility/create_dll_lib.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/utility/create_dll_lib.hpp b/include/cppad/utility/create_dll_lib.hpp
index a817416..e99fc03 100644
--- a/include/cppad/utility/create_dll_lib.hpp
+++ b/include/cppad/utility/create_dll_lib.hpp
@@ -165,7 +165,7 @@ std::string create_dll_lib(
 # endif
     size_t last_match = dll_file.rfind(dll_ext);
     size_t expected   = dll_file.size() - dll_ext.size();
-    if( last_match != expected )
+    if( last_match == string::npos || last_match != expected )
     {   err_msg += "dll_file = " + dll_file + "\ndoes not end with " + dll_ext;
         return err_msg;
     }
-- 
2.43.0


From 16a11e8c8a7e3bec037bf7e66ad68c942a450e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:54 +0000
Subject: [PATCH 63/78] fix: to_graph did not report an operator that it does
 not implement as a known error

---
 include/cppad/core/graph/to_graph.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cppad/core/graph/to_graph.hpp b/include/cppad/core/graph/to_graph.hpp
index ef5e345..469ee68 100644
--- a/include/cppad/core/graph/to_graph.hpp
+++ b/include/cppad/core/graph/to_graph.hpp
@@ -1269,8 +1269,10 @@ void CppAD::ADFun<Base,RecBase>::to_graph(
 
             // --------------------------------------------------------------
             default:
-            // This error should have been reported above
-            CPPAD_ASSERT_UNKNOWN(false);
+            {   std::string msg = std::string( local::OpName(var_op) );
+                msg = "f.to_graph: The " + msg + " operator is not yet implemented.";
+                CPPAD_ASSERT_KNOWN(false, msg.c_str() );
+            }
             break;
         }
     }
-- 
2.43.0


From b3ef91f6f56d65323ffe395e8fb11d6fd8690ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:36 +0000
Subject: [PATCH 64/78] fix: the number of atomic functions could not be asked
 for in parallel mode (from_graph failed)

---
 include/cppad/local/atomic_index.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cppad/local/atomic_index.hpp b/include/cppad/local/atomic_index.hpp
index 65e08e6..8ea9dc2 100644
--- a/include/cppad/local/atomic_index.hpp
+++ b/include/cppad/local/atomic_index.hpp
@@ -131,6 +131,9 @@ size_t atomic_index(
 {   //
     // information for each index
     static std::vector<atomic_index_info> vec;
+    // get number case (nothing is changed so it can be used in parallel mode)
+    if( set_null & (index_in == 0) )
+        return vec.size();
 # ifndef NDEBUG
     if( index_in == 0 || set_null )
     {   CPPAD_ASSERT_KNOWN( ! thread_alloc::in_parallel(),
@@ -138,8 +141,6 @@ size_t atomic_index(
         );
     }
 # endif
-    if( set_null & (index_in == 0) )
-        return vec.size();
     //
     // case were we are retrieving information for an atomic function
     if( 0 < index_in )
-- 
2.43.0


From f8c880fbdf9ab9069c86f3127f7ba16087f82d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:42 +0000
Subject: [PATCH 65/78] fix: ADFun move constructor left the moved from object
 with uninitialized members

---
 include/cppad/core/fun_construct.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cppad/core/fun_construct.hpp b/include/cppad/core/fun_construct.hpp
index 62f813f..5b9956b 100644
--- a/include/cppad/core/fun_construct.hpp
+++ b/include/cppad/core/fun_construct.hpp
@@ -256,9 +256,9 @@ num_var_tape_(0)
 { }
 //
 // move semantics version of constructor
-// (none of the default constructor values matter to the destructor)
+// (the object f is empty after this operation)
 template <class Base, class RecBase>
-ADFun<Base,RecBase>::ADFun(ADFun&& f)
+ADFun<Base,RecBase>::ADFun(ADFun&& f) : ADFun()
 {   swap(f); }
 //
 // destructor
-- 
2.43.0


From 39b25118322188a3ade5f4ceb475e8bf93e14efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:42 +0000
Subject: [PATCH 66/78] fix: ADFun assignment kept sparsity memory of the
 object assigned to (size_forward_bool, size_forward_set)

---
 include/cppad/core/fun_construct.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cppad/core/fun_construct.hpp b/include/cppad/core/fun_construct.hpp
index 5b9956b..4114573 100644
--- a/include/cppad/core/fun_construct.hpp
+++ b/include/cppad/core/fun_construct.hpp
@@ -324,9 +324,13 @@ void ADFun<Base,RecBase>::operator=(const ADFun& f)
     subgraph_info_             = f.subgraph_info_;
     //
     // sparse_pack
+    if( f.for_jac_sparse_pack_.n_set() == 0 )
+        for_jac_sparse_pack_.resize(0, 0); // does not keep this object's memory
     for_jac_sparse_pack_       = f.for_jac_sparse_pack_;
     //
     // sparse_list
+    if( f.for_jac_sparse_set_.n_set() == 0 )
+        for_jac_sparse_set_.resize(0, 0); // does not keep this object's memory
     for_jac_sparse_set_        = f.for_jac_sparse_set_;
 }
 /// swap
-- 
2.43.0


From f87656509d9a0e8523ffddfaee7e7973c47dfc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:35 +0000
Subject: [PATCH 67/78] fix: abs_normal_fun used the wrong number of
 independent dynamic parameters

---
 include/cppad/core/abs_normal_fun.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/core/abs_normal_fun.hpp b/include/cppad/core/abs_normal_fun.hpp
index 5feb7a5..b81b1cf 100644
--- a/include/cppad/core/abs_normal_fun.hpp
+++ b/include/cppad/core/abs_normal_fun.hpp
@@ -387,7 +387,7 @@ void ADFun<Base,RecBase>::abs_normal_fun(ADFun& g, ADFun& a) const
     size_t num_par = play_.num_par_all();
     //
     // number of independent dynamic parameters
-    size_t n_dyn_independent = play_.num_dynamic_par();
+    size_t n_dyn_independent = play_.n_dyn_independent();
     rec.set_n_dyn_independent(n_dyn_independent);
     //
     // set all parameter to be exactly the same in rec as in play
-- 
2.43.0


From 431553ef5879415c5f75a8fe204d43739ddca37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:35 +0000
Subject: [PATCH 68/78] fix: abs_normal_fun did not support VecAD operations

---
 include/cppad/core/abs_normal_fun.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/cppad/core/abs_normal_fun.hpp b/include/cppad/core/abs_normal_fun.hpp
index b81b1cf..08b78c7 100644
--- a/include/cppad/core/abs_normal_fun.hpp
+++ b/include/cppad/core/abs_normal_fun.hpp
@@ -451,6 +451,10 @@ void ADFun<Base,RecBase>::abs_normal_fun(ADFun& g, ADFun& a) const
         CPPAD_ASSERT_UNKNOWN( j_par == i_par );
     }
     //
+    // set all VecAD vectors to be exactly the same in rec as in play
+    for(size_t i = 0; i < play_.num_var_vec_ind(); ++i)
+        rec.put_var_vecad_ind( addr_t( play_.GetVecInd(i) ) );
+    //
     // number of variables in both operation sequences
     // (the AbsOp operators are replace by InvOp operators)
     const size_t num_var = play_.num_var();
@@ -843,6 +847,7 @@ void ADFun<Base,RecBase>::abs_normal_fun(ADFun& g, ADFun& a) const
                 new_arg[1],
                 new_arg[2]
             );
+            rec.PutOp(op);
             break;
 
             // -----------------------------------------------------------
@@ -905,6 +910,9 @@ void ADFun<Base,RecBase>::abs_normal_fun(ADFun& g, ADFun& a) const
     // dimension cskip_op vector to number of operators
     g.cskip_op_.resize( rec.num_var_op() );
 
+    // resize mapping from VecAD load operators to variables
+    g.load_op2var_.resize( rec.num_var_load() );
+
     // independent variables in g: (x, u)
     size_t s = f_abs_res.size();
     size_t n = Domain();
-- 
2.43.0


From 058e5f46990eac90c196e334555388c34a19aabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:46 +0000
Subject: [PATCH 69/78] fix: abs_normal_fun did not record the argument of erf
 and erfc

---
 include/cppad/core/abs_normal_fun.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cppad/core/abs_normal_fun.hpp b/include/cppad/core/abs_normal_fun.hpp
index 08b78c7..c49c82c 100644
--- a/include/cppad/core/abs_normal_fun.hpp
+++ b/include/cppad/core/abs_normal_fun.hpp
@@ -577,6 +577,8 @@ void ADFun<Base,RecBase>::abs_normal_fun(ADFun& g, ADFun& a) const
             // Error function is a special case
             // second argument is always the parameter 0
             // third argument is always the parameter 2 / sqrt(pi)
+            new_arg[0] = f2g_var[ arg[0] ];
+            rec.PutArg( new_arg[0] );
             rec.PutArg( arg[1] ); // parameter
             rec.PutArg( arg[2] ); // parameter
             f2g_var[i_var] = rec.PutOp(op);
-- 
2.43.0


From a730c7b9cc9c155def6f625340506cdbf012b47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:46 +0000
Subject: [PATCH 70/78] fix: abs_normal_fun did not support comparisons of
 dynamic parameters

---
 include/cppad/core/abs_normal_fun.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/cppad/core/abs_normal_fun.hpp b/include/cppad/core/abs_normal_fun.hpp
index c49c82c..7122e91 100644
--- a/include/cppad/core/abs_normal_fun.hpp
+++ b/include/cppad/core/abs_normal_fun.hpp
@@ -699,6 +699,17 @@ void ADFun<Base,RecBase>::abs_normal_fun(ADFun& g, ADFun& a) const
             rec.PutOp(op);
             break;
             //
+            case EqppOp:
+            case LeppOp:
+            case LtppOp:
+            case NeppOp:
+            CPPAD_ASSERT_NARG_NRES(op, 2, 0);
+            new_arg[0] = arg[0]; // parameter
+            new_arg[1] = arg[1]; // parameter
+            rec.PutArg(new_arg[0], new_arg[1]);
+            rec.PutOp(op);
+            break;
+            //
             case LevpOp:
             case LtvpOp:
             CPPAD_ASSERT_NARG_NRES(op, 2, 0);
-- 
2.43.0


From 02c02fdc50b55087047921fb4c4563b0207226e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:47 +0000
Subject: [PATCH 71/78] fix: abs_normal_fun did not support functions that have
 been optimized

---
 include/cppad/core/abs_normal_fun.hpp | 41 ++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/include/cppad/core/abs_normal_fun.hpp b/include/cppad/core/abs_normal_fun.hpp
index 7122e91..6e418b6 100644
--- a/include/cppad/core/abs_normal_fun.hpp
+++ b/include/cppad/core/abs_normal_fun.hpp
@@ -348,6 +348,9 @@ void ADFun<Base,RecBase>::abs_normal_fun(ADFun& g, ADFun& a) const
     CppAD::vector<addr_t> f_abs_arg;
     CppAD::vector<size_t> f_abs_res;
     //
+    // number of conditional skip operators in f
+    size_t num_cskip = 0;
+    //
     op_code_var   op;                 // this operator
     const addr_t* arg = nullptr;   // arguments for this operator
     size_t        i_var;              // variable index for this operator
@@ -368,6 +371,16 @@ void ADFun<Base,RecBase>::abs_normal_fun(ADFun& g, ADFun& a) const
             f_abs_res.push_back( i_var );
             break;
 
+            // operators with a variable number of arguments
+            case CSumOp:
+            itr.correct_before_increment();
+            break;
+
+            case CSkipOp:
+            itr.correct_before_increment();
+            ++num_cskip;
+            break;
+
             default:
             break;
         }
@@ -901,6 +914,30 @@ void ADFun<Base,RecBase>::abs_normal_fun(ADFun& g, ADFun& a) const
             break;
             // ---------------------------------------------------
 
+            // conditional skip: this is only an optimization so drop it
+            case CSkipOp:
+            itr.correct_before_increment();
+            break;
+
+            // cumulative summation
+            case CSumOp:
+            itr.correct_before_increment();
+            // arg[0]: parameter; arg[1], ... , arg[4]: end of index ranges
+            for(addr_t k = 0; k < 5; ++k)
+                rec.PutArg( arg[k] );
+            // variables that are added and then the ones that are subtracted
+            for(addr_t k = 5; k < arg[2]; ++k)
+            {   CPPAD_ASSERT_UNKNOWN( size_t( f2g_var[ arg[k] ] ) < num_var );
+                rec.PutArg( f2g_var[ arg[k] ] );
+            }
+            // dynamic parameters and then the last argument
+            for(addr_t k = arg[2]; k <= arg[4]; ++k)
+                rec.PutArg( arg[k] );
+            f2g_var[i_var] = rec.PutOp(op);
+            break;
+
+            // ---------------------------------------------------
+
             // all cases should be handled above
             default:
             CPPAD_ASSERT_UNKNOWN(false);
@@ -909,7 +946,9 @@ void ADFun<Base,RecBase>::abs_normal_fun(ADFun& g, ADFun& a) const
             (++itr).op_info(op, arg, i_var);
     }
     // Check a few expected results
-    CPPAD_ASSERT_UNKNOWN( rec.num_var_op() == play_.num_var_op() );
+    CPPAD_ASSERT_UNKNOWN(
+        rec.num_var_op() + num_cskip == play_.num_var_op()
+    );
     CPPAD_ASSERT_UNKNOWN( rec.num_var() == play_.num_var() );
     CPPAD_ASSERT_UNKNOWN( rec.num_var_load() == play_.num_var_load() );
 
-- 
2.43.0


From 8e5d082588c2bde398b94b20bc900a5edfd53e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:47 +0000
Subject: [PATCH 72/78] fix: abs_normal_fun used an undefined variable index in
 an assert

---
 include/cppad/core/abs_normal_fun.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cppad/core/abs_normal_fun.hpp b/include/cppad/core/abs_normal_fun.hpp
index 6e418b6..9015cef 100644
--- a/include/cppad/core/abs_normal_fun.hpp
+++ b/include/cppad/core/abs_normal_fun.hpp
@@ -510,8 +510,8 @@ void ADFun<Base,RecBase>::abs_normal_fun(ADFun& g, ADFun& a) const
         if( more_operators )
             (++itr).op_info(op, arg, i_var);
     }
-    // add one for the phantom variable
-    CPPAD_ASSERT_UNKNOWN( 1 + Domain() == i_var );
+    // i_var is not defined here if this operator has no results
+    CPPAD_ASSERT_UNKNOWN( NumRes(op) == 0 || Domain() < i_var );
     //
     // record the independent variables corresponding AbsOp results
     size_t index_abs;
-- 
2.43.0


From b869ae61180a42ea532e1dc391df9a95ac547a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:47 +0000
Subject: [PATCH 73/78] fix: abs_normal_fun did not resize members of a that
 depend on the number of results

---
 include/cppad/core/abs_normal_fun.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/cppad/core/abs_normal_fun.hpp b/include/cppad/core/abs_normal_fun.hpp
index 9015cef..5ea7803 100644
--- a/include/cppad/core/abs_normal_fun.hpp
+++ b/include/cppad/core/abs_normal_fun.hpp
@@ -1036,6 +1036,19 @@ void ADFun<Base,RecBase>::abs_normal_fun(ADFun& g, ADFun& a) const
         CPPAD_ASSERT_UNKNOWN( a.dep_taddr_[i] < num_var );
     }
 
+    // none of the dependent variables in a(x) are parameters
+    a.dep_parameter_.resize(s);
+    for(size_t i = 0; i < s; i++)
+        a.dep_parameter_[i] = false;
+
+    // resize subgraph_info_
+    a.subgraph_info_.resize(
+        a.ind_taddr_.size(),   // n_ind
+        a.dep_taddr_.size(),   // n_dep
+        a.play_.num_var_op(),  // n_op
+        a.play_.num_var()      // n_var
+    );
+
     // free memory allocated for sparse Jacobian calculation
     // (the results are no longer valid)
     a.for_jac_sparse_pack_.resize(0, 0);
-- 
2.43.0


From 9fa511986a91429790f48a0953349b6ae288d804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:47 +0000
Subject: [PATCH 74/78] fix: abs_normal_fun kept members of g that do not
 correspond to the new function

---
 include/cppad/core/abs_normal_fun.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/cppad/core/abs_normal_fun.hpp b/include/cppad/core/abs_normal_fun.hpp
index 5ea7803..0010567 100644
--- a/include/cppad/core/abs_normal_fun.hpp
+++ b/include/cppad/core/abs_normal_fun.hpp
@@ -956,6 +956,16 @@ void ADFun<Base,RecBase>::abs_normal_fun(ADFun& g, ADFun& a) const
     // Use rec to create the function g
     // -----------------------------------------------------------------------
 
+    // same settings as f
+    g.check_for_nan_           = check_for_nan_;
+    g.compare_change_count_    = compare_change_count_;
+
+    // values that correspond to a function that has not yet been used
+    g.has_been_optimized_      = false;
+    g.exceed_collision_limit_  = false;
+    g.compare_change_number_   = 0;
+    g.compare_change_op_index_ = 0;
+
     // number of variables in the recording
     g.num_var_tape_ = rec.num_var();
 
@@ -1008,6 +1018,7 @@ void ADFun<Base,RecBase>::abs_normal_fun(ADFun& g, ADFun& a) const
     g.taylor_.clear();
     g.num_order_taylor_ = 0;
     g.cap_order_taylor_ = 0;
+    g.num_direction_taylor_ = 0;
 
     // Transferring the recording swaps its vectors so do this last
     // replace the recording in g (this ADFun object)
@@ -1058,6 +1069,7 @@ void ADFun<Base,RecBase>::abs_normal_fun(ADFun& g, ADFun& a) const
     a.taylor_.clear();
     a.num_order_taylor_ = 0;
     a.cap_order_taylor_ = 0;
+    a.num_direction_taylor_ = 0;
 }
 
 // preprocessor symbols that are local to this file
-- 
2.43.0


From 95f93ad7b49145209ae153f0ff3c7471014a4029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:47 +0000
Subject: [PATCH 75/78] fix: forward_dir for acos, acosh, asin, asinh
 multiplied a double and a Base object

---
 include/cppad/local/var_op/acos_op.hpp  | 2 +-
 include/cppad/local/var_op/acosh_op.hpp | 2 +-
 include/cppad/local/var_op/asin_op.hpp  | 2 +-
 include/cppad/local/var_op/asinh_op.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cppad/local/var_op/acos_op.hpp b/include/cppad/local/var_op/acos_op.hpp
index 40a59b6..fa419b6 100644
--- a/include/cppad/local/var_op/acos_op.hpp
+++ b/include/cppad/local/var_op/acos_op.hpp
@@ -95,7 +95,7 @@ inline void acos_forward_dir(
     size_t k, ell;
     size_t m = (q-1) * r + 1;
     for(ell = 0; ell < r; ell ++)
-    {   Base uq = - 2.0 * x[m + ell] * x[0];
+    {   Base uq = - Base(2.0) * x[m + ell] * x[0];
         for(k = 1; k < q; k++)
             uq -= x[(k-1)*r+1+ell] * x[(q-k-1)*r+1+ell];
         b[m+ell] = Base(0.0);
diff --git a/include/cppad/local/var_op/acosh_op.hpp b/include/cppad/local/var_op/acosh_op.hpp
index e0a2214..c750cd6 100644
--- a/include/cppad/local/var_op/acosh_op.hpp
+++ b/include/cppad/local/var_op/acosh_op.hpp
@@ -96,7 +96,7 @@ inline void acosh_forward_dir(
     size_t k, ell;
     size_t m = (q-1) * r + 1;
     for(ell = 0; ell < r; ell ++)
-    {   Base uq = 2.0 * x[m + ell] * x[0];
+    {   Base uq = Base(2.0) * x[m + ell] * x[0];
         for(k = 1; k < q; k++)
             uq += x[(k-1)*r+1+ell] * x[(q-k-1)*r+1+ell];
         b[m+ell] = Base(0.0);
diff --git a/include/cppad/local/var_op/asin_op.hpp b/include/cppad/local/var_op/asin_op.hpp
index 4b76e71..b07d828 100644
--- a/include/cppad/local/var_op/asin_op.hpp
+++ b/include/cppad/local/var_op/asin_op.hpp
@@ -95,7 +95,7 @@ inline void asin_forward_dir(
     size_t k, ell;
     size_t m = (q-1) * r + 1;
     for(ell = 0; ell < r; ell ++)
-    {   Base uq = - 2.0 * x[m + ell] * x[0];
+    {   Base uq = - Base(2.0) * x[m + ell] * x[0];
         for(k = 1; k < q; k++)
             uq -= x[(k-1)*r+1+ell] * x[(q-k-1)*r+1+ell];
         b[m+ell] = Base(0.0);
diff --git a/include/cppad/local/var_op/asinh_op.hpp b/include/cppad/local/var_op/asinh_op.hpp
index 189d170..c28adca 100644
--- a/include/cppad/local/var_op/asinh_op.hpp
+++ b/include/cppad/local/var_op/asinh_op.hpp
@@ -96,7 +96,7 @@ inline void asinh_forward_dir(
     size_t k, ell;
     size_t m = (q-1) * r + 1;
     for(ell = 0; ell < r; ell ++)
-    {   Base uq = 2.0 * x[m + ell] * x[0];
+    {   Base uq = Base(2.0) * x[m + ell] * x[0];
         for(k = 1; k < q; k++)
             uq += x[(k-1)*r+1+ell] * x[(q-k-1)*r+1+ell];
         b[m+ell] = Base(0.0);
-- 
2.43.0


From e17de60c609de40952a44c0a9605886152ec4e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:47 +0000
Subject: [PATCH 76/78] fix: subgraph_reverse checked elements of dw that it
 does not set for nan

---
 include/cppad/core/subgraph_reverse.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/cppad/core/subgraph_reverse.hpp b/include/cppad/core/subgraph_reverse.hpp
index ee47f64..cf11dd5 100644
--- a/include/cppad/core/subgraph_reverse.hpp
+++ b/include/cppad/core/subgraph_reverse.hpp
@@ -446,14 +446,15 @@ void ADFun<Base,RecBase>::subgraph_reverse_helper(
         // return partial for this independent variable
         col[c] = j;
         for(size_t k = 0; k < q; k++)
-            dw[j * q + k ] = subgraph_partial_[ind_taddr_[j] * q + k];
+        {   dw[j * q + k ] = subgraph_partial_[ind_taddr_[j] * q + k];
+            CPPAD_ASSERT_KNOWN(
+                ! ( CppAD::isnan( dw[j * q + k] ) && check_for_nan_ ) ,
+                "f.subgraph_reverse(dw, q, ell): dw has a nan,\n"
+                "but none of f's Taylor coefficients are nan."
+            );
+        }
     }
     //
-    CPPAD_ASSERT_KNOWN( ! ( hasnan(dw) && check_for_nan_ ) ,
-        "f.subgraph_reverse(dw, q, ell): dw has a nan,\n"
-        "but none of f's Taylor coefficients are nan."
-    );
-    //
     return;
 }
 /*!
-- 
2.43.0


From 4bc5bdc5a220abe2fcd43aa1701f10fdba8c1c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:47 +0000
Subject: [PATCH 77/78] fix: pow of a complex variable and a parameter was an
 error for orders greater than zero

---
 include/cppad/core/base_complex.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/cppad/core/base_complex.hpp b/include/cppad/core/base_complex.hpp
index 743a08f..8564671 100644
--- a/include/cppad/core/base_complex.hpp
+++ b/include/cppad/core/base_complex.hpp
@@ -46,7 +46,8 @@ CondExpOp
 The type ``std::complex<double>`` does not support the
 ``<`` , ``<=`` , ``>=`` , and ``>`` operators; see
 :ref:`base_cond_exp@CondExpTemplate@Not Ordered` .
-Hence these operators and ``CondExpOp`` function are defined by
+Hence these operators, and the ``CondExpOp`` function
+(except for the case where *cop* is ``CompareEq`` ), are an error when used:
 {xrst_spell_off}
 {xrst_code cpp} */
 # define CPPAD_TEMP(op)                                          \
@@ -71,7 +72,10 @@ namespace CppAD {
         const std::complex<double> &right     ,
         const std::complex<double> &trueCase  ,
         const std::complex<double> &falseCase )
-    {  CppAD::ErrorHandler::Call(
+    {  // this case is used by the pow function
+        if( cop == CppAD::CompareEq )
+            return left == right ? trueCase : falseCase;
+        CppAD::ErrorHandler::Call(
             true     , __LINE__ , __FILE__ ,
             "std::complex<float> CondExpOp(...)",
             "Error: cannot use CondExp with a complex type"
@@ -331,7 +335,10 @@ namespace CppAD {
         const std::complex<float> &right     ,
         const std::complex<float> &trueCase  ,
         const std::complex<float> &falseCase )
-    {   CppAD::ErrorHandler::Call(
+    {  // this case is used by the pow function
+        if( cop == CppAD::CompareEq )
+            return left == right ? trueCase : falseCase;
+        CppAD::ErrorHandler::Call(
             true     , __LINE__ , __FILE__ ,
             "std::complex<float> CondExpOp(...)",
             "Error: cannot use CondExp with a complex type"
-- 
2.43.0


From 805cda0afbda7de70c657f4989dc9e4cfbc8e561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:47 +0000
Subject: [PATCH 78/78] fix: base type functions that were missing for complex
 types

---
 include/cppad/core/base_complex.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/cppad/core/base_complex.hpp b/include/cppad/core/base_complex.hpp
index 8564671..9334aa2 100644
--- a/include/cppad/core/base_complex.hpp
+++ b/include/cppad/core/base_complex.hpp
@@ -227,6 +227,8 @@ namespace CppAD {
     CPPAD_STANDARD_MATH_UNARY(std::complex<double>, sin)
     CPPAD_STANDARD_MATH_UNARY(std::complex<double>, sinh)
     CPPAD_STANDARD_MATH_UNARY(std::complex<double>, sqrt)
+    CPPAD_STANDARD_MATH_UNARY(std::complex<double>, tan)
+    CPPAD_STANDARD_MATH_UNARY(std::complex<double>, tanh)
 }
 /* {xrst_code}
 {xrst_spell_on}
@@ -375,6 +377,8 @@ namespace CppAD {
     // Integer ------------------------------------------------------
     inline int Integer(const std::complex<float> &x)
     {   return static_cast<int>( x.real() ); }
+    // azmul ----------------------------------------------------------
+    CPPAD_AZMUL( std::complex<float> )
     // isnan -------------------------------------------------------------
     inline bool isnan(const std::complex<float>& z)
     {   return (z != z);
@@ -387,12 +391,22 @@ namespace CppAD {
     CPPAD_STANDARD_MATH_UNARY(std::complex<float>, sin)
     CPPAD_STANDARD_MATH_UNARY(std::complex<float>, sinh)
     CPPAD_STANDARD_MATH_UNARY(std::complex<float>, sqrt)
+    CPPAD_STANDARD_MATH_UNARY(std::complex<float>, tan)
+    CPPAD_STANDARD_MATH_UNARY(std::complex<float>, tanh)
     // Invalid standard math functions -------------------------------
     CPPAD_USER_MACRO_TWO(abs)
     CPPAD_USER_MACRO_TWO(acos)
     CPPAD_USER_MACRO_TWO(asin)
     CPPAD_USER_MACRO_TWO(atan)
     CPPAD_USER_MACRO_TWO(sign)
+    CPPAD_USER_MACRO_TWO(fabs)
+    CPPAD_USER_MACRO_TWO(asinh)
+    CPPAD_USER_MACRO_TWO(acosh)
+    CPPAD_USER_MACRO_TWO(atanh)
+    CPPAD_USER_MACRO_TWO(erf)
+    CPPAD_USER_MACRO_TWO(erfc)
+    CPPAD_USER_MACRO_TWO(expm1)
+    CPPAD_USER_MACRO_TWO(log1p)
     // The pow function
     inline std::complex<float> pow(
         const std::complex<float> &x ,
-- 
2.43.0

