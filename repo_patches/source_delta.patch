From 5b71122b8ddb6a44f38db459fd21e80fe2944869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:05 +0000
Subject: [PATCH 01/45] fix: extrapolation_stepper overwrote its input when
 stepping in place

---
 .../odeint/stepper/extrapolation_stepper.hpp   | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp b/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
index 3b688e9..009a1ae 100644
--- a/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
+++ b/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
@@ -175,28 +175,27 @@ class extrapolation_stepper : public explicit_error_stepper_base
         m_resizer.adjust_size(
             in, detail::bind( &stepper_type::template resize_impl< StateIn >,
                               detail::ref( *this ), detail::_1 ) );
+        // in and out may be the same object, hence out is only written at the end
+        m_xout_resizer.adjust_size(
+            in, detail::bind( &stepper_type::template resize_m_xout< StateIn >,
+                              detail::ref( *this ), detail::_1 ) );
         size_t k = 0;
         m_midpoint.set_steps( m_interval_sequence[k] );
-        m_midpoint.do_step( system, in, dxdt, t, out, dt );
+        m_midpoint.do_step( system, in, dxdt, t, m_xout.m_v, dt );
         for ( k = 1; k <= m_k_max; ++k )
         {
             m_midpoint.set_steps( m_interval_sequence[k] );
             m_midpoint.do_step( system, in, dxdt, t, m_table[k - 1].m_v, dt );
-            extrapolate( k, m_table, m_coeff, out );
+            extrapolate( k, m_table, m_coeff, m_xout.m_v );
         }
+        boost::numeric::odeint::copy( m_xout.m_v, out );
     }
 
     template < class System, class StateInOut, class DerivIn >
     void do_step_impl_io( System system, StateInOut &inout, const DerivIn &dxdt,
                           time_type t, time_type dt )
     {
-        // special care for inout
-        m_xout_resizer.adjust_size(
-            inout,
-            detail::bind( &stepper_type::template resize_m_xout< StateInOut >,
-                          detail::ref( *this ), detail::_1 ) );
-        do_step_impl( system, inout, dxdt, t, m_xout.m_v, dt );
-        boost::numeric::odeint::copy( m_xout.m_v, inout );
+        do_step_impl( system, inout, dxdt, t, inout, dt );
     }
 
     template < class System, class StateInOut, class DerivIn >
@@ -218,6 +217,7 @@ class extrapolation_stepper : public explicit_error_stepper_base
     template < class StateIn > void adjust_size( const StateIn &x )
     {
         resize_impl( x );
+        resize_m_xout( x );
         m_midpoint.adjust_size( x );
     }
 
-- 
2.43.0


From 177fb33e03491840ef79ae80536fe24b5b59c4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:14 +0000
Subject: [PATCH 02/45] fix: FSAL steppers wrote the initial derivative to an
 unsized buffer

---
 .../odeint/stepper/base/explicit_error_stepper_fsal_base.hpp    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp b/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
index b1d751a..7ceb5d4 100644
--- a/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
+++ b/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
@@ -286,6 +286,7 @@ public:
     template< class DerivIn >
     void initialize( const DerivIn &deriv )
     {
+        m_resizer.adjust_size( deriv , detail::bind( &internal_stepper_base_type::template resize_impl< DerivIn > , detail::ref( *this ) , detail::_1 ) );
         boost::numeric::odeint::copy( deriv , m_dxdt.m_v );
         m_first_call = false;
     }
@@ -294,6 +295,7 @@ public:
     void initialize( System system , const StateIn &x , time_type t )
     {
         typename odeint::unwrap_reference< System >::type &sys = system;
+        m_resizer.adjust_size( x , detail::bind( &internal_stepper_base_type::template resize_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
         sys( x , m_dxdt.m_v , t );
         m_first_call = false;
     }
-- 
2.43.0


From 07f0ef17c1a3649c19c43684e08645631e59f06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:14 +0000
Subject: [PATCH 03/45] fix: FSAL steppers kept a stale derivative when resized
 by adjust_size

---
 .../odeint/stepper/base/explicit_error_stepper_fsal_base.hpp   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp b/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
index 7ceb5d4..f72d78a 100644
--- a/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
+++ b/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
@@ -275,7 +275,8 @@ public:
     template< class StateIn >
     void adjust_size( const StateIn &x )
     {
-        resize_impl( x );
+        if( resize_impl( x ) )
+            m_first_call = true;
     }
 
     void reset( void )
-- 
2.43.0


From c3ebf8812ecc1f004cc23b4756c93dc05142e047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:58 +0000
Subject: [PATCH 04/45] fix: adams_bashforth::initialize lost its history with
 FSAL steppers

---
 include/boost/numeric/odeint/stepper/adams_bashforth.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/adams_bashforth.hpp b/include/boost/numeric/odeint/stepper/adams_bashforth.hpp
index 5ff1e83..e9dc274 100644
--- a/include/boost/numeric/odeint/stepper/adams_bashforth.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_bashforth.hpp
@@ -24,6 +24,7 @@
 #include <boost/static_assert.hpp>
 
 #include <boost/numeric/odeint/util/bind.hpp>
+#include <boost/numeric/odeint/util/copy.hpp>
 #include <boost/numeric/odeint/util/unwrap_reference.hpp>
 
 #include <boost/numeric/odeint/algebra/range_algebra.hpp>
@@ -201,7 +202,9 @@ public :
         {
             if( i != 0 ) m_step_storage.rotate();
             sys( x , m_step_storage[0].m_v , t );
-            stepper.do_step_dxdt_impl( system, x, m_step_storage[0].m_v, t,
+            // FSAL steppers overwrite the derivative, so they get a copy in the slot not yet used
+            boost::numeric::odeint::copy( m_step_storage[0].m_v , m_step_storage[steps-1].m_v );
+            stepper.do_step_dxdt_impl( system, x, m_step_storage[steps-1].m_v, t,
                                        dt );
             t += dt;
         }
-- 
2.43.0


From 0aff7cabb7dc1d82ea299192f97bacfbd2e68b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:56 +0000
Subject: [PATCH 05/45] fix: rosenbrock4 had the wrong sign of the coefficient
 d4

---
 include/boost/numeric/odeint/stepper/rosenbrock4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/rosenbrock4.hpp b/include/boost/numeric/odeint/stepper/rosenbrock4.hpp
index 8613698..7f475d0 100644
--- a/include/boost/numeric/odeint/stepper/rosenbrock4.hpp
+++ b/include/boost/numeric/odeint/stepper/rosenbrock4.hpp
@@ -63,7 +63,7 @@ struct default_rosenbrock_coefficients
       d1 ( static_cast< value_type >( 0.25 ) ) ,
       d2 ( static_cast< value_type >( -0.1043 ) ) ,
       d3 ( static_cast< value_type >( 0.1035 ) ) ,
-      d4 ( static_cast< value_type >( 0.3620000000000023e-01 ) ) ,
+      d4 ( static_cast< value_type >( -0.3620000000000023e-01 ) ) ,
       c2 ( static_cast< value_type >( 0.386 ) ) ,
       c3 ( static_cast< value_type >( 0.21 ) ) ,
       c4 ( static_cast< value_type >( 0.63 ) ) ,
-- 
2.43.0


From 2efae093cd754f1acdc0b8c4b2a6af011f04fef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:56 +0000
Subject: [PATCH 06/45] fix: implicit_euler factorized the factorized Jacobian
 again in later Newton steps

---
 include/boost/numeric/odeint/stepper/implicit_euler.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/implicit_euler.hpp b/include/boost/numeric/odeint/stepper/implicit_euler.hpp
index f301988..408019c 100644
--- a/include/boost/numeric/odeint/stepper/implicit_euler.hpp
+++ b/include/boost/numeric/odeint/stepper/implicit_euler.hpp
@@ -112,7 +112,8 @@ public:
             //            m_jacobi *= dt;
             //            m_jacobi -= boost::numeric::ublas::identity_matrix< value_type >( x.size() );
 
-            solve( m_b.m_v , m_jacobi.m_v );
+            // m_jacobi already holds its LU factorization
+            boost::numeric::ublas::lu_substitute( m_jacobi.m_v , m_pm.m_v , m_b.m_v );
 
             m_x.m_v -= m_b.m_v;
         }
-- 
2.43.0


From ba48008aabdca6203b88f107c72c45b459155a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:38 +0000
Subject: [PATCH 07/45] fix: the FSAL controlled_runge_kutta wrote the initial
 derivative to an unsized buffer

---
 include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
index be00827..7b8e466 100644
--- a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
@@ -799,6 +799,7 @@ public:
     template< class DerivIn >
     void initialize( const DerivIn &deriv )
     {
+        m_dxdt_resizer.adjust_size( deriv , detail::bind( &controlled_runge_kutta::template resize_m_dxdt_impl< DerivIn > , detail::ref( *this ) , detail::_1 ) );
         boost::numeric::odeint::copy( deriv , m_dxdt.m_v );
         m_first_call = false;
     }
@@ -815,6 +816,7 @@ public:
     void initialize( System system , const StateIn &x , time_type t )
     {
         typename odeint::unwrap_reference< System >::type &sys = system;
+        m_dxdt_resizer.adjust_size( x , detail::bind( &controlled_runge_kutta::template resize_m_dxdt_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
         sys( x , m_dxdt.m_v , t );
         m_first_call = false;
     }
-- 
2.43.0


From 0bb47683ef899e1fdb7dbef357752c5636c773a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:38 +0000
Subject: [PATCH 08/45] fix: the out-of-place try_step of the FSAL
 controlled_runge_kutta did not compile

---
 .../numeric/odeint/stepper/controlled_runge_kutta.hpp     | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
index 7b8e466..c77bc3a 100644
--- a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
@@ -682,7 +682,13 @@ public:
         {
             initialize( system , in , t );
         }
-        return try_step( system , in , m_dxdt.m_v , t , out , dt );
+        m_dxdt_new_resizer.adjust_size( in , detail::bind( &controlled_runge_kutta::template resize_m_dxdt_new_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
+        controlled_step_result res = try_step( system , in , m_dxdt.m_v , t , out , m_dxdtnew.m_v , dt );
+        if( res == success )
+        {
+            boost::numeric::odeint::copy( m_dxdtnew.m_v , m_dxdt.m_v );
+        }
+        return res;
     }
 
 
-- 
2.43.0


From 555ae2c2189ba9816a3c7fd46126a862229527f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:38 +0000
Subject: [PATCH 09/45] fix: the FSAL controlled_runge_kutta::adjust_size left
 its stepper and stored derivative behind

---
 .../boost/numeric/odeint/stepper/controlled_runge_kutta.hpp   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
index c77bc3a..0ff6718 100644
--- a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
@@ -846,9 +846,11 @@ public:
     void adjust_size( const StateType &x )
     {
         resize_m_xerr_impl( x );
-        resize_m_dxdt_impl( x );
+        if( resize_m_dxdt_impl( x ) )
+            reset();    // the stored derivative belongs to a state of another size
         resize_m_dxdt_new_impl( x );
         resize_m_xnew_impl( x );
+        m_stepper.adjust_size( x );
     }
 
 
-- 
2.43.0


From 5324387aeeba7a57740d8611a728599f79662b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:43 +0000
Subject: [PATCH 10/45] fix: pid_step_adjuster did not limit negative steps

---
 .../boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp b/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
index 7c0f258..1451f8e 100644
--- a/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
+++ b/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
@@ -157,9 +157,9 @@ public:
         value_type kappa = 1.0;
         ratio = 1.0 + kappa*atan((ratio - 1) / kappa);
 
-        if(ratio*dt >= m_dtmax)
+        if(abs(ratio*dt) >= abs(m_dtmax))
         {
-            ratio = m_dtmax / dt;
+            ratio = abs(m_dtmax / dt);
         }
 
         if(ratio >= threshold())
-- 
2.43.0


From 07ddc7b0b9fc30a3a4bafa66c5138c0426daba0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:02 +0000
Subject: [PATCH 11/45] fix: default_error_checker::error without an algebra
 did not compile

---
 .../boost/numeric/odeint/stepper/controlled_runge_kutta.hpp    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
index 0ff6718..a5090c7 100644
--- a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
@@ -73,7 +73,8 @@ public:
     template< class State , class Deriv , class Err, class Time >
     value_type error( const State &x_old , const Deriv &dxdt_old , Err &x_err , Time dt ) const
     {
-        return error( algebra_type() , x_old , dxdt_old , x_err , dt );
+        algebra_type algebra;
+        return error( algebra , x_old , dxdt_old , x_err , dt );
     }
 
     template< class State , class Deriv , class Err, class Time >
-- 
2.43.0


From b26aa63400c2bc7958f3596ef2036d29a891b4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:06 +0000
Subject: [PATCH 12/45] fix: integrate_const with dense output observed times
 beyond the end time

---
 .../boost/numeric/odeint/integrate/detail/integrate_const.hpp  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
index 7a86b32..9484a93 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
@@ -122,7 +122,8 @@ size_t integrate_const(
     
     while( less_eq_with_sign( static_cast<Time>(time+dt) , end_time , dt ) )
     {
-        while( less_eq_with_sign( time , st.current_time() , dt ) )
+        while( less_eq_with_sign( time , st.current_time() , dt ) &&
+               less_eq_with_sign( time , end_time , dt ) )
         {
             st.calc_state( time , start_state );
             obs( start_state , time );
-- 
2.43.0


From db1a2b1a016e8ee3ae08df0baf2068c86759af00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:06 +0000
Subject: [PATCH 13/45] fix: integrate_const with dense output interpolated
 before reaching the last observation point

---
 .../odeint/integrate/detail/integrate_const.hpp        | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
index 9484a93..90b2ddb 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
@@ -155,6 +155,16 @@ size_t integrate_const(
     // might happen due to finite precision problems when computing the the time
     if( less_eq_with_sign( time , end_time , dt ) )
     {
+        // the stepper might not have reached this point yet
+        while( less_with_sign( st.current_time() , time , dt ) )
+        {
+            if( less_with_sign( end_time ,
+                                static_cast<Time>(st.current_time()+st.current_time_step()) ,
+                                st.current_time_step() ) )
+                st.initialize( st.current_state() , st.current_time() , static_cast<Time>(end_time - st.current_time()) );
+            st.do_step( system );
+            ++real_step;
+        }
         st.calc_state( time , start_state );
         obs( start_state , time );
     }
-- 
2.43.0


From eb7e68f8096e973a1a8488b543204fe72dd2bb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:33 +0000
Subject: [PATCH 14/45] fix: integrate_n_steps with dense output stopped short
 of the end time for negative steps

---
 .../boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
index 2ef490d..824ce6a 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
@@ -137,7 +137,7 @@ Time integrate_n_steps(
     }
 
     // make sure we really end exactly where we should end
-    while( st.current_time() < end_time )
+    while( less_with_sign( st.current_time() , end_time , dt ) )
     {
         if( less_with_sign( end_time ,
                             static_cast<Time>(st.current_time()+st.current_time_step()) ,
-- 
2.43.0


From 1e87ab7bdda4ddf9c96612e16d6027f0e28641bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:02 +0000
Subject: [PATCH 15/45] fix: integrate_n_steps with dense output left the last
 but one state in its argument

---
 .../boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
index 824ce6a..f99ff62 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
@@ -22,6 +22,7 @@
 #include <boost/numeric/odeint/stepper/stepper_categories.hpp>
 #include <boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp>
 #include <boost/numeric/odeint/util/unit_helper.hpp>
+#include <boost/numeric/odeint/util/copy.hpp>
 
 #include <boost/numeric/odeint/util/detail/less_with_sign.hpp>
 
@@ -148,6 +149,7 @@ Time integrate_n_steps(
 
     // observation at final point
     obs( st.current_state() , end_time );
+    boost::numeric::odeint::copy( st.current_state() , start_state );
 
     return time;
 }
-- 
2.43.0


From d0a5fc875500c1d26d3ec108e1aa17977af80eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:02 +0000
Subject: [PATCH 16/45] fix: integrate_times dereferenced the end of an empty
 list of times

---
 .../boost/numeric/odeint/integrate/detail/integrate_times.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
index 2e27990..ccab5bf 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
@@ -54,6 +54,8 @@ size_t integrate_times(
     typedef typename unit_value_type<Time>::type time_type;
 
     size_t steps = 0;
+    if( start_time == end_time )
+        return steps;
     Time current_dt = dt;
     while( true )
     {
@@ -88,6 +90,8 @@ size_t integrate_times(
 
     failed_step_checker fail_checker;  // to throw a runtime_error if step size adjustment fails
     size_t steps = 0;
+    if( start_time == end_time )
+        return steps;
     while( true )
     {
         Time current_time = *start_time++;
-- 
2.43.0


From ec6558a51e1a04fdfbd687aaff7b5869980ae578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:02 +0000
Subject: [PATCH 17/45] fix: integrate_times with dense output interpolated
 before the first step for repeated first times

---
 .../numeric/odeint/integrate/detail/integrate_times.hpp     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
index ccab5bf..ddd7916 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
@@ -145,6 +145,12 @@ size_t integrate_times(
     st.initialize( start_state , *start_time , dt );
     obs( start_state , *start_time++ );
 
+    // the first time point might be repeated, there is nothing to interpolate yet
+    while( ( start_time != end_time ) && less_eq_with_sign( static_cast<time_type>(*start_time) , st.current_time() , st.current_time_step() ) )
+    {
+        obs( start_state , *start_time++ );
+    }
+
     size_t count = 0;
     while( start_time != end_time )
     {
-- 
2.43.0


From 216c71e1ff9ce374c990c1992e164d08328e0ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:37 +0000
Subject: [PATCH 18/45] fix: times iterators dereferenced an empty range of
 times

---
 .../numeric/odeint/iterator/impl/times_iterator_impl.hpp  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp b/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
index 7a2b48d..f42807e 100644
--- a/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
+++ b/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
@@ -83,7 +83,7 @@ namespace odeint {
          */
         times_iterator_impl( stepper_type stepper , system_type sys , state_type &s ,
                              time_iterator_type t_start , time_iterator_type t_end , time_type dt )
-            : base_type( stepper , sys , *t_start , dt ) ,
+            : base_type( stepper , sys , ( t_start != t_end ) ? static_cast< time_type >( *t_start ) : time_type() , dt ) ,
               m_t_start( t_start ) , m_t_end( t_end ) , m_state( &s )
         {
             if( t_start == t_end )
@@ -181,7 +181,7 @@ namespace odeint {
          */
         times_iterator_impl( stepper_type stepper , system_type sys , state_type &s ,
                              time_iterator_type t_start , time_iterator_type t_end , time_type dt )
-            : base_type( stepper , sys , *t_start , dt ) ,
+            : base_type( stepper , sys , ( t_start != t_end ) ? static_cast< time_type >( *t_start ) : time_type() , dt ) ,
               m_t_start( t_start ) , m_t_end( t_end ) , m_state( &s )
         {
             if( t_start == t_end )
@@ -301,8 +301,8 @@ namespace odeint {
          */
         times_iterator_impl( stepper_type stepper , system_type sys , state_type &s ,
                              time_iterator_type t_start , time_iterator_type t_end , time_type dt )
-            : base_type( stepper , sys , *t_start , dt ) ,
-              m_t_start( t_start ) , m_t_end( t_end ) , m_final_time( *(t_end-1) ) ,
+            : base_type( stepper , sys , ( t_start != t_end ) ? static_cast< time_type >( *t_start ) : time_type() , dt ) ,
+              m_t_start( t_start ) , m_t_end( t_end ) , m_final_time( ( t_start != t_end ) ? static_cast< time_type >( *(t_end-1) ) : time_type() ) ,
               m_state( &s )
         {
             if( t_start != t_end )
-- 
2.43.0


From 72e29abb2301e2a2a37e95e7075fc9e4e9f5d871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:47 +0000
Subject: [PATCH 19/45] fix: dense output times iterator interpolated before
 the first step when the first time is repeated

---
 .../numeric/odeint/iterator/impl/times_iterator_impl.hpp    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp b/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
index f42807e..e43f0de 100644
--- a/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
+++ b/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
@@ -343,7 +343,11 @@ namespace odeint {
                     }
                     st.do_step( this->m_system );
                 }
-                st.calc_state( this->m_t , *( this->m_state ) );
+                // the stepper is exactly at this time, possibly before its first step: nothing to interpolate
+                if( detail::less_with_sign( this->m_t , static_cast<time_type>(st.current_time()) , this->m_dt ) )
+                    st.calc_state( this->m_t , *( this->m_state ) );
+                else
+                    boost::numeric::odeint::copy( st.current_state() , *( this->m_state ) );
             } else {
                 this->m_at_end = true;
             }
-- 
2.43.0


From c342e5e19d8f069f5ff776c0b1a4c42cf1ca3fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:25 +0000
Subject: [PATCH 20/45] fix: bulirsch_stoer_dense_out kept its order across
 initialize and read past the cost table

---
 .../boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
index 22eb373..596affa 100644
--- a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
+++ b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
@@ -381,6 +381,8 @@ public:
     {
         m_first = true;
         m_last_step_rejected = false;
+        // as in bulirsch_stoer: the first step may try columns up to m_current_k_opt+1 only
+        m_current_k_opt = 4;
     }
 
     template< class StateIn >
-- 
2.43.0


From 1199173187e3d3783db3504830d7a8a780538782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:25 +0000
Subject: [PATCH 21/45] fix: bulirsch_stoer_dense_out did not shrink repeatedly
 rejected negative steps

---
 .../boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
index 596affa..7c38c6b 100644
--- a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
+++ b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
@@ -291,7 +291,7 @@ public:
             }
         }
         //set next stepsize
-        if( !m_last_step_rejected || (new_h < dt) )
+        if( !m_last_step_rejected || detail::less_with_sign( new_h , dt , dt ) )
         {
             // limit step size
             if( m_max_dt != static_cast<time_type>(0) )
-- 
2.43.0


From 90fd8be89a3098f8c436ac221ed6e167e9d07241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:12 +0000
Subject: [PATCH 22/45] fix: dense_output_runge_kutta::adjust_size called a
 member that does not exist

---
 .../boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp
index 83982dc..9254fd4 100644
--- a/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp
@@ -169,7 +169,7 @@ public:
     void adjust_size( const StateType &x )
     {
         resize_impl( x );
-        m_stepper.stepper().resize( x );
+        m_stepper.adjust_size( x );
     }
 
     /**
@@ -379,7 +379,7 @@ public:
     void adjust_size( const StateType &x )
     {
         resize( x );
-        m_stepper.stepper().resize( x );
+        m_stepper.adjust_size( x );
     }
 
     const state_type& current_state( void ) const
-- 
2.43.0


From 2aafdb2c51021f9d6e1254f6f262b0a3dcb96be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:34 +0000
Subject: [PATCH 23/45] fix: rosenbrock4_controller::adjust_size did not size
 its stepper

---
 include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp b/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp
index 5ad1600..b8a1256 100644
--- a/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp
+++ b/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp
@@ -183,6 +183,7 @@ public:
     {
         resize_m_xerr( x );
         resize_m_xnew( x );
+        m_stepper.adjust_size( x );
     }
 
 
-- 
2.43.0


From 7bf0482691d3abc0fb7e114c4cf93c37dcea744b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:34 +0000
Subject: [PATCH 24/45] fix: extrapolation_stepper::adjust_size did not size
 the buffers of its base

---
 include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp b/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
index 009a1ae..3d7ad8e 100644
--- a/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
+++ b/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
@@ -219,6 +219,7 @@ class extrapolation_stepper : public explicit_error_stepper_base
         resize_impl( x );
         resize_m_xout( x );
         m_midpoint.adjust_size( x );
+        stepper_base_type::adjust_size( x );
     }
 
   private:
-- 
2.43.0


From 96162d5fc756631bc7b83264cf5b1f5f6f60c4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:34 +0000
Subject: [PATCH 25/45] fix: adams_bashforth::adjust_size neither sized the
 initializing stepper nor restarted it

---
 include/boost/numeric/odeint/stepper/adams_bashforth.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/adams_bashforth.hpp b/include/boost/numeric/odeint/stepper/adams_bashforth.hpp
index e9dc274..3704068 100644
--- a/include/boost/numeric/odeint/stepper/adams_bashforth.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_bashforth.hpp
@@ -177,7 +177,9 @@ public :
     template< class StateType >
     void adjust_size( const StateType &x )
     {
-        resize_impl( x );
+        if( resize_impl( x ) )
+            m_steps_initialized = 0;    // the stored derivatives belong to states of another size
+        m_initializing_stepper.adjust_size( x );
     }
 
     const step_storage_type& step_storage( void ) const
-- 
2.43.0


From dec3e95cb26f9051dadb980be95d783ea843e071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:34 +0000
Subject: [PATCH 26/45] fix: adams_bashforth_moulton corrected with stale
 derivatives after the state size changed

---
 .../numeric/odeint/stepper/adams_bashforth_moulton.hpp    | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
index f3edce1..5f3c0a2 100644
--- a/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
@@ -139,6 +139,7 @@ public :
     template< class ExplicitStepper , class System , class StateIn >
     void initialize( ExplicitStepper explicit_stepper , System system , StateIn &x , time_type &t , time_type dt )
     {
+        m_resizer.adjust_size( x , detail::bind( &stepper_type::template resize_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
         m_adams_bashforth.initialize( explicit_stepper , system , x , t , dt );
     }
 
@@ -146,6 +147,7 @@ public :
     template< class System , class StateIn >
     void initialize( System system , StateIn &x , time_type &t , time_type dt )
     {
+        m_resizer.adjust_size( x , detail::bind( &stepper_type::template resize_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
         m_adams_bashforth.initialize( system , x , t , dt );
     }
 
@@ -162,9 +164,10 @@ private:
     template< typename System , typename StateInOut >
     void do_step_impl1( System system , StateInOut &x , time_type t , time_type dt )
     {
+        if( m_resizer.adjust_size( x , detail::bind( &stepper_type::template resize_impl< StateInOut > , detail::ref( *this ) , detail::_1 ) ) )
+            reset();    // the stored derivatives belong to states of another size
         if( m_adams_bashforth.is_initialized() )
         {
-            m_resizer.adjust_size( x , detail::bind( &stepper_type::template resize_impl< StateInOut > , detail::ref( *this ) , detail::_1 ) );
             m_adams_bashforth.do_step( system , x , t , m_x.m_v , dt );
             m_adams_moulton.do_step( system , x , m_x.m_v , t+dt , x , dt , m_adams_bashforth.step_storage() );
         }
@@ -177,9 +180,10 @@ private:
     template< typename System , typename StateIn , typename StateInOut >
     void do_step_impl2( System system , StateIn const &in , time_type t , StateInOut & out , time_type dt )
     {
+        if( m_resizer.adjust_size( in , detail::bind( &stepper_type::template resize_impl< StateIn > , detail::ref( *this ) , detail::_1 ) ) )
+            reset();    // the stored derivatives belong to states of another size
         if( m_adams_bashforth.is_initialized() )
         {
-            m_resizer.adjust_size( in , detail::bind( &stepper_type::template resize_impl< StateInOut > , detail::ref( *this ) , detail::_1 ) );        
             m_adams_bashforth.do_step( system , in , t , m_x.m_v , dt );
             m_adams_moulton.do_step( system , in , m_x.m_v , t+dt , out , dt , m_adams_bashforth.step_storage() );
         }
-- 
2.43.0


From da6a7610d3ccbb8c761448f35791540f82e3ff4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:26 +0000
Subject: [PATCH 27/45] fix: adaptive Adams steppers read stale and undersized
 differences after the state size changed

---
 .../odeint/stepper/adaptive_adams_bashforth_moulton.hpp   | 1 +
 .../odeint/stepper/detail/adaptive_adams_coefficients.hpp | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
index 0d3d0c1..3ddf2df 100644
--- a/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
@@ -166,6 +166,7 @@ public:
     template< class System >
     void do_step_impl(System system, const state_type & in, time_type t, state_type & out, time_type &dt, state_type &xerr)
     {
+        m_coeff.adjust_size( in );
         size_t eO = m_coeff.m_eo;
 
         m_xerr_resizer.adjust_size( in , detail::bind( &stepper_type::template resize_xerr_impl< state_type > , detail::ref( *this ) , detail::_1 ) );
diff --git a/include/boost/numeric/odeint/stepper/detail/adaptive_adams_coefficients.hpp b/include/boost/numeric/odeint/stepper/detail/adaptive_adams_coefficients.hpp
index c1029a1..38f069f 100644
--- a/include/boost/numeric/odeint/stepper/detail/adaptive_adams_coefficients.hpp
+++ b/include/boost/numeric/odeint/stepper/detail/adaptive_adams_coefficients.hpp
@@ -165,6 +165,14 @@ public:
 
     void reset() { m_eo = 1; m_steps_init = 1; };
 
+    // sizes the stored differences; those of states of another size are dropped
+    template< class StateType >
+    void adjust_size( const StateType &x )
+    {
+        if( m_phi_resizer.adjust_size( x , detail::bind( &aac_type::template resize_phi_impl< StateType > , detail::ref( *this ) , detail::_1 ) ) )
+            reset();
+    }
+
     size_t m_eo;
     size_t m_steps_init;
 
-- 
2.43.0


From ea5148f0b238dfd2757eaa9716837fa795756126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:06 +0000
Subject: [PATCH 28/45] fix: initialize_controlled recorded the proposed step
 sizes instead of the ones taken

---
 .../odeint/stepper/controlled_adams_bashforth_moulton.hpp     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index 85ee4d0..ea61811 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -184,6 +184,7 @@ public:
 
         for( size_t i=0 ; i<order_value; ++i )
         {
+            const time_type t_old = t;
             do
             {
                 res = stepper.try_step( system, inOut, t, dt );
@@ -192,7 +193,8 @@ public:
 
             system( inOut , m_dxdt.m_v , t );
             
-            coeff.predict(t-dt, dt);
+            // dt is already the proposal for the next step
+            coeff.predict(t_old, t-t_old);
             coeff.do_step(m_dxdt.m_v);
             coeff.confirm();
 
-- 
2.43.0


From 823af9d269a7f98a3dd43888c821de150e93f2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:40 +0000
Subject: [PATCH 29/45] fix: default_order_adjuster judged by an error estimate
 that had not been computed

---
 .../odeint/stepper/controlled_adams_bashforth_moulton.hpp  | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index ea61811..ac48491 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -92,7 +92,12 @@ public:
         }
         else if(order <= MaxOrder)
         {
-            value_type errp = abs(m_algebra.norm_inf(xerr[3].m_v));
+            // the error of the next order is only available for enough stored steps
+            value_type errp = 0;
+            if(order < MaxOrder && order < init)
+            {
+                errp = abs(m_algebra.norm_inf(xerr[3].m_v));
+            }
 
             if(order > 1 && errm1 < errc && errp)
             {
-- 
2.43.0


From 519f13ea65b7b307d3c75f53c8ea2cc09967e498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 30/45] fix: copies of adams_bashforth_moulton used the algebra
 of the original

---
 .../odeint/stepper/adams_bashforth_moulton.hpp  | 17 +++++++++++++++++
 .../numeric/odeint/stepper/adams_moulton.hpp    |  6 ++++++
 2 files changed, 23 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
index 5f3c0a2..1fe5ad7 100644
--- a/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
@@ -94,6 +94,23 @@ public :
     , m_x() , m_resizer()    
     { }
 
+    adams_bashforth_moulton( const adams_bashforth_moulton &stepper )
+    : m_adams_bashforth( stepper.m_adams_bashforth ) , m_adams_moulton( m_adams_bashforth.algebra() )
+    , m_x( stepper.m_x ) , m_resizer( stepper.m_resizer )
+    {
+        // the corrector uses the algebra of this predictor, not the one of the other stepper
+        m_adams_moulton = stepper.m_adams_moulton;
+    }
+
+    adams_bashforth_moulton& operator=( const adams_bashforth_moulton &stepper )
+    {
+        m_adams_bashforth = stepper.m_adams_bashforth;
+        m_adams_moulton = stepper.m_adams_moulton;
+        m_x = stepper.m_x;
+        m_resizer = stepper.m_resizer;
+        return *this;
+    }
+
     order_type order( void ) const { return order_value; }
 
     template< class System , class StateInOut >
diff --git a/include/boost/numeric/odeint/stepper/adams_moulton.hpp b/include/boost/numeric/odeint/stepper/adams_moulton.hpp
index 05b4277..5effef9 100644
--- a/include/boost/numeric/odeint/stepper/adams_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_moulton.hpp
@@ -97,6 +97,12 @@ public :
       m_algebra_instance() , m_algebra( algebra )
     { }
 
+    adams_moulton( const adams_moulton &stepper )
+    : m_coefficients() , m_dxdt( stepper.m_dxdt ) , m_resizer( stepper.m_resizer ) ,
+      m_algebra_instance( stepper.m_algebra_instance ) ,
+      m_algebra( &stepper.m_algebra == &stepper.m_algebra_instance ? m_algebra_instance : stepper.m_algebra )
+    { }
+
     adams_moulton& operator=( const adams_moulton &stepper )
     {
         m_dxdt = stepper.m_dxdt;
-- 
2.43.0


From 230a51b18ab21ce3895eb35d07061e006d86962c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:37 +0000
Subject: [PATCH 31/45] fix: copies of gsl_vector state wrappers freed
 uninitialised pointers

---
 .../boost/numeric/odeint/external/gsl/gsl_wrapper.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp b/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
index a856f6e..f6005e4 100644
--- a/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
+++ b/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
@@ -207,10 +207,19 @@ struct state_wrapper< gsl_vector* >
 
     state_wrapper( const state_wrapper_type &x )
     {
-        resize( m_v , x.m_v );
+        m_v = gsl_vector_alloc( x.m_v->size );
         gsl_vector_memcpy( m_v , x.m_v );
     }
 
+    state_wrapper_type& operator=( const state_wrapper_type &x )
+    {
+        if( this != &x )
+        {
+            resize( m_v , x.m_v );
+            gsl_vector_memcpy( m_v , x.m_v );
+        }
+        return *this;
+    }
 
     ~state_wrapper()
     {
-- 
2.43.0


From 869fde124cc87a02aab5b28271a5df1790fda550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:37 +0000
Subject: [PATCH 32/45] fix: gsl_vector states were copied as pointers

---
 .../boost/numeric/odeint/external/gsl/gsl_wrapper.hpp    | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp b/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
index f6005e4..50da9f3 100644
--- a/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
+++ b/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
@@ -191,6 +191,15 @@ struct resize_impl< gsl_vector* , gsl_vector* >
     }
 };
 
+template <>
+struct copy_impl< gsl_vector* , gsl_vector* >
+{
+    static void copy( const gsl_vector* from , gsl_vector* to )
+    {
+        gsl_vector_memcpy( to , from );
+    }
+};
+
 template<>
 struct state_wrapper< gsl_vector* >
 {
-- 
2.43.0


From 496bd653d2eff09a4a59b082a611dbe137643da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:37 +0000
Subject: [PATCH 33/45] fix: norm_inf of ublas matrices was the row sum norm

---
 include/boost/numeric/odeint/util/ublas_wrapper.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/util/ublas_wrapper.hpp b/include/boost/numeric/odeint/util/ublas_wrapper.hpp
index c8facfc..080ee9d 100644
--- a/include/boost/numeric/odeint/util/ublas_wrapper.hpp
+++ b/include/boost/numeric/odeint/util/ublas_wrapper.hpp
@@ -57,7 +57,14 @@ namespace boost { namespace numeric { namespace odeint {
 
         result_type operator()( const boost::numeric::ublas::matrix<T,L,A> &x ) const
         {
-            return boost::numeric::ublas::norm_inf( x );
+            // ublas::norm_inf of a matrix is its row sum norm
+            using std::abs;
+            result_type init = static_cast< result_type >( 0 );
+            for( size_t i=0 ; i<x.size1() ; ++i )
+                for( size_t j=0 ; j<x.size2() ; ++j )
+                    if( init < abs( x( i , j ) ) )
+                        init = abs( x( i , j ) );
+            return init;
         }
     };
 } } }
-- 
2.43.0


From e04589fa4963422124bcdd1e51bb1151eb0c150b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:37 +0000
Subject: [PATCH 34/45] fix: Eigen matrix states could not be copied with newer
 Eigen

---
 .../numeric/odeint/external/eigen/eigen_resize.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/boost/numeric/odeint/external/eigen/eigen_resize.hpp b/include/boost/numeric/odeint/external/eigen/eigen_resize.hpp
index 1989cc3..eb01f03 100644
--- a/include/boost/numeric/odeint/external/eigen/eigen_resize.hpp
+++ b/include/boost/numeric/odeint/external/eigen/eigen_resize.hpp
@@ -22,6 +22,7 @@
 #include <boost/numeric/odeint/util/is_resizeable.hpp>
 #include <boost/numeric/odeint/util/resize.hpp>
 #include <boost/numeric/odeint/util/same_size.hpp>
+#include <boost/numeric/odeint/util/copy.hpp>
 
 #include <boost/utility/enable_if.hpp>
 #include <boost/type_traits/is_base_of.hpp>
@@ -99,6 +100,19 @@ struct resize_impl_sfinae< Derived , Derived ,
 
 
 
+// newer versions of Eigen provide iterators for all dense types, but begin and end for vectors only
+template< class Derived >
+struct copy_impl_sfinae< Derived , Derived ,
+                    typename boost::enable_if< typename boost::is_base_of< Eigen::DenseBase< Derived > , Derived >::type >::type >
+{
+    static void copy( const Derived &from , Derived &to )
+    {
+        to = from;
+    }
+};
+
+
+
 } // namespace odeint
 } // namespace numeric
 } // namespace boost
-- 
2.43.0


From 42916cad6acfdd9d25c8efea49989c3c91ace603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:37 +0000
Subject: [PATCH 35/45] fix: copying an openmp_state wrote to the blocks
 instead of into them

---
 include/boost/numeric/odeint/external/openmp/openmp_state.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/external/openmp/openmp_state.hpp b/include/boost/numeric/odeint/external/openmp/openmp_state.hpp
index 83bbc19..b8d697e 100644
--- a/include/boost/numeric/odeint/external/openmp/openmp_state.hpp
+++ b/include/boost/numeric/odeint/external/openmp/openmp_state.hpp
@@ -93,7 +93,7 @@ struct copy_impl< openmp_state< T >, openmp_state< T > >
     {
 #       pragma omp parallel for schedule(dynamic)
         for(size_t i = 0 ; i < from.size() ; i++)
-            std::copy( from[i].begin() , from[i].end() , to.begin() );
+            std::copy( from[i].begin() , from[i].end() , to[i].begin() );
     }
 };
 
-- 
2.43.0


From e22734d7e5c661a90da36fad9fb856bd0cfccef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:37 +0000
Subject: [PATCH 36/45] fix: mpi_state in a communicator other than the world
 hung

---
 include/boost/numeric/odeint/external/mpi/mpi_state.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/external/mpi/mpi_state.hpp b/include/boost/numeric/odeint/external/mpi/mpi_state.hpp
index aba179c..8494eb1 100644
--- a/include/boost/numeric/odeint/external/mpi/mpi_state.hpp
+++ b/include/boost/numeric/odeint/external/mpi/mpi_state.hpp
@@ -65,6 +65,8 @@ struct same_size_impl< mpi_state< InnerState1 > , mpi_state< InnerState2 > >
 {
     static bool same_size( const mpi_state< InnerState1 > &x , const mpi_state< InnerState2 > &y )
     {
+        // states of different sets of nodes are not of the same size
+        if( x.world != y.world ) return false;
         const bool local = boost::numeric::odeint::same_size(x(), y());
         return boost::mpi::all_reduce(x.world, local, mpi::bitwise_and<bool>());
     }
@@ -76,7 +78,8 @@ struct resize_impl< mpi_state< InnerState1 > , mpi_state< InnerState2 > >
 {
     static void resize( mpi_state< InnerState1 > &x , const mpi_state< InnerState2 > &y )
     {
-        // resize local parts on each node.
+        // use the same nodes and resize local parts on each of them.
+        x.world = y.world;
         boost::numeric::odeint::resize(x(), y());
     }
 };
-- 
2.43.0


From 405d41c37f33d7e37c2f409a57e8066d9c9799d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:37 +0000
Subject: [PATCH 37/45] fix: times with units were compared without tolerance

---
 .../boost/numeric/odeint/util/detail/less_with_sign.hpp   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/numeric/odeint/util/detail/less_with_sign.hpp b/include/boost/numeric/odeint/util/detail/less_with_sign.hpp
index 3ffa7ca..9762a88 100644
--- a/include/boost/numeric/odeint/util/detail/less_with_sign.hpp
+++ b/include/boost/numeric/odeint/util/detail/less_with_sign.hpp
@@ -34,10 +34,10 @@ bool less_with_sign( T t1 , T t2 , T dt )
 {
     if( get_unit_value(dt) > 0 )
         //return t1 < t2;
-        return t2-t1 > std::numeric_limits<T>::epsilon();
+        return get_unit_value(t2-t1) > std::numeric_limits<typename unit_value_type<T>::type>::epsilon();
     else
         //return t1 > t2;
-        return t1-t2 > std::numeric_limits<T>::epsilon();
+        return get_unit_value(t1-t2) > std::numeric_limits<typename unit_value_type<T>::type>::epsilon();
 }
 
 /**
@@ -47,9 +47,9 @@ template< typename T >
 bool less_eq_with_sign( T t1 , T t2 , T dt )
 {
     if( get_unit_value(dt) > 0 )
-        return t1-t2 <= std::numeric_limits<T>::epsilon();
+        return get_unit_value(t1-t2) <= std::numeric_limits<typename unit_value_type<T>::type>::epsilon();
     else
-        return t2-t1 <= std::numeric_limits<T>::epsilon();
+        return get_unit_value(t2-t1) <= std::numeric_limits<typename unit_value_type<T>::type>::epsilon();
 }
 
 template< typename T >
-- 
2.43.0


From f48f308b6e2f08e586cb6a88a32ecb58e6aca6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:37 +0000
Subject: [PATCH 38/45] fix: integrate_adaptive and integrate_times did not
 compile for times with units

---
 .../odeint/integrate/detail/integrate_adaptive.hpp |  2 +-
 .../odeint/integrate/detail/integrate_times.hpp    | 14 +++++---------
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp
index 7516d44..32806b0 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp
@@ -63,7 +63,7 @@ size_t integrate_adaptive(
     typename odeint::unwrap_reference< Observer >::type &obs = observer;
     typename odeint::unwrap_reference< Stepper >::type &st = stepper;
 
-    Time end = start_time + dt*steps;
+    Time end = start_time + static_cast< typename unit_value_type<Time>::type >(steps) * dt;
     if( less_with_sign( end , end_time , dt ) )
     {   //make a last step to end exactly at end_time
         st.do_step( system , start_state , end , end_time - end );
diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
index ddd7916..34e9cd5 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
@@ -51,7 +51,6 @@ size_t integrate_times(
 
     stepper_type &st = stepper;
     observer_type &obs = observer;
-    typedef typename unit_value_type<Time>::type time_type;
 
     size_t steps = 0;
     if( start_time == end_time )
@@ -63,7 +62,7 @@ size_t integrate_times(
         obs( start_state , current_time );
         if( start_time == end_time )
             break;
-        while( less_with_sign( current_time , static_cast<time_type>(*start_time) , current_dt ) )
+        while( less_with_sign( current_time , static_cast<Time>(*start_time) , current_dt ) )
         {
             current_dt = min_abs( dt , *start_time - current_time );
             st.do_step( system , start_state , current_time , current_dt );
@@ -86,7 +85,6 @@ size_t integrate_times(
 {
     typename odeint::unwrap_reference< Observer >::type &obs = observer;
     typename odeint::unwrap_reference< Stepper >::type &st = stepper;
-    typedef typename unit_value_type<Time>::type time_type;
 
     failed_step_checker fail_checker;  // to throw a runtime_error if step size adjustment fails
     size_t steps = 0;
@@ -98,7 +96,7 @@ size_t integrate_times(
         obs( start_state , current_time );
         if( start_time == end_time )
             break;
-        while( less_with_sign( current_time , static_cast<time_type>(*start_time) , dt ) )
+        while( less_with_sign( current_time , static_cast<Time>(*start_time) , dt ) )
         {
             // adjust stepsize to end up exactly at the observation point
             Time current_dt = min_abs( dt , *start_time - current_time );
@@ -133,20 +131,18 @@ size_t integrate_times(
     typename odeint::unwrap_reference< Observer >::type &obs = observer;
     typename odeint::unwrap_reference< Stepper >::type &st = stepper;
 
-    typedef typename unit_value_type<Time>::type time_type;
-
     if( start_time == end_time )
         return 0;
 
     TimeIterator last_time_iterator = end_time;
     --last_time_iterator;
-    Time last_time_point = static_cast<time_type>(*last_time_iterator);
+    Time last_time_point = static_cast<Time>(*last_time_iterator);
 
     st.initialize( start_state , *start_time , dt );
     obs( start_state , *start_time++ );
 
     // the first time point might be repeated, there is nothing to interpolate yet
-    while( ( start_time != end_time ) && less_eq_with_sign( static_cast<time_type>(*start_time) , st.current_time() , st.current_time_step() ) )
+    while( ( start_time != end_time ) && less_eq_with_sign( static_cast<Time>(*start_time) , st.current_time() , st.current_time_step() ) )
     {
         obs( start_state , *start_time++ );
     }
@@ -154,7 +150,7 @@ size_t integrate_times(
     size_t count = 0;
     while( start_time != end_time )
     {
-        while( ( start_time != end_time ) && less_eq_with_sign( static_cast<time_type>(*start_time) , st.current_time() , st.current_time_step() ) )
+        while( ( start_time != end_time ) && less_eq_with_sign( static_cast<Time>(*start_time) , st.current_time() , st.current_time_step() ) )
         {
             st.calc_state( *start_time , start_state );
             obs( start_state , *start_time );
-- 
2.43.0


From 72a37850fd34b72a37f976d496a88368940a4766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:37 +0000
Subject: [PATCH 39/45] fix: a first resize that threw was taken as done

---
 include/boost/numeric/odeint/util/resizer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/util/resizer.hpp b/include/boost/numeric/odeint/util/resizer.hpp
index fd969ec..ab92ffb 100644
--- a/include/boost/numeric/odeint/util/resizer.hpp
+++ b/include/boost/numeric/odeint/util/resizer.hpp
@@ -68,8 +68,9 @@ struct initially_resizer
     {
         if( !m_initialized )
         {
-            m_initialized = true;
-            return f( x );
+            const bool resized = f( x );
+            m_initialized = true; // not if the resizing has failed
+            return resized;
         } else
             return false;
     }
-- 
2.43.0


From 5574371d8f9af4feb14a718e42737ac520cec376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:37 +0000
Subject: [PATCH 40/45] fix: a derivative whose evaluation threw was taken as
 computed after a change of size

---
 include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
index a5090c7..7c354d5 100644
--- a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
@@ -824,6 +824,7 @@ public:
     {
         typename odeint::unwrap_reference< System >::type &sys = system;
         m_dxdt_resizer.adjust_size( x , detail::bind( &controlled_runge_kutta::template resize_m_dxdt_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
+        m_first_call = true; // until the derivative has been evaluated
         sys( x , m_dxdt.m_v , t );
         m_first_call = false;
     }
-- 
2.43.0


From f985836a80acec7906093a757e000921d731ac7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:22 +0000
Subject: [PATCH 41/45] fix: a derivative whose evaluation threw in initialize
 is not taken as the current one

---
 .../odeint/stepper/base/explicit_error_stepper_fsal_base.hpp     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp b/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
index f72d78a..86f8bd4 100644
--- a/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
+++ b/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
@@ -297,6 +297,7 @@ public:
     {
         typename odeint::unwrap_reference< System >::type &sys = system;
         m_resizer.adjust_size( x , detail::bind( &internal_stepper_base_type::template resize_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
+        m_first_call = true;   // until the derivative has been evaluated
         sys( x , m_dxdt.m_v , t );
         m_first_call = false;
     }
-- 
2.43.0


From 9a2f3ab8927d3760eb7201d8463070b8395330e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:22 +0000
Subject: [PATCH 42/45] fix: an acceleration whose evaluation threw is not
 taken as the current one

---
 include/boost/numeric/odeint/stepper/velocity_verlet.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/numeric/odeint/stepper/velocity_verlet.hpp b/include/boost/numeric/odeint/stepper/velocity_verlet.hpp
index 3a20fc2..2593f5a 100644
--- a/include/boost/numeric/odeint/stepper/velocity_verlet.hpp
+++ b/include/boost/numeric/odeint/stepper/velocity_verlet.hpp
@@ -178,6 +178,7 @@ private:
     void initialize_acc( System system , const CoorIn & qin , const VelocityIn & pin , time_type t )
     {
         typename odeint::unwrap_reference< System >::type & sys = system;
+        m_first_call = true;   // until the acceleration has been evaluated
         sys( qin , pin , get_current_acc() , t );
         m_first_call = false;
     }
-- 
2.43.0


From 4a20d8d79e9fec36fac7f70483789dd6b306bd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:26 +0000
Subject: [PATCH 43/45] fix: bulirsch_stoer compares the work per unit of time
 by absolute step sizes, also backwards in time

---
 include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp        | 3 ++-
 .../boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp b/include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp
index 02c3749..ce18b12 100644
--- a/include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp
+++ b/include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp
@@ -234,7 +234,8 @@ public:
                                      typename operations_type::template scale_sum2< value_type , value_type >( val1 , -val1 ) );
                 const value_type error = m_error_checker.error( m_algebra , in , dxdt , m_err.m_v , dt );
                 h_opt[k] = calc_h_opt( dt , error , k );
-                work[k] = static_cast<value_type>( m_cost[k] ) / h_opt[k];
+                // work per unit of time, also for steps backwards in time
+                work[k] = static_cast<value_type>( m_cost[k] ) / ( get_unit_value( h_opt[k] ) < 0 ? -h_opt[k] : h_opt[k] );
 
                 if( (k == m_current_k_opt-1) || m_first )
                 { // convergence before k_opt ?
diff --git a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
index 7c38c6b..d2e79a4 100644
--- a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
+++ b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
@@ -198,7 +198,8 @@ public:
                                      typename operations_type::template scale_sum2< value_type , value_type >( val1 , -val1 ) );
                 const value_type error = m_error_checker.error( m_algebra , in , dxdt , m_err.m_v , dt );
                 h_opt[k] = calc_h_opt( dt , error , k );
-                work[k] = static_cast<value_type>( m_cost[k] ) / h_opt[k];
+                // work per unit of time, also for steps backwards in time
+                work[k] = static_cast<value_type>( m_cost[k] ) / ( get_unit_value( h_opt[k] ) < 0 ? -h_opt[k] : h_opt[k] );
 
                 m_k_final = k;
 
-- 
2.43.0


From 9a5632ad2662d5e1e33ebc0fa10e42c85bdb580a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:26 +0000
Subject: [PATCH 44/45] fix: iterator-made integrate_adaptive stores the result
 of dense-output steppers in the state

---
 .../iterator/integrate/detail/integrate_adaptive.hpp   | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/iterator/integrate/detail/integrate_adaptive.hpp b/include/boost/numeric/odeint/iterator/integrate/detail/integrate_adaptive.hpp
index ccbbf49..abee393 100644
--- a/include/boost/numeric/odeint/iterator/integrate/detail/integrate_adaptive.hpp
+++ b/include/boost/numeric/odeint/iterator/integrate/detail/integrate_adaptive.hpp
@@ -20,6 +20,8 @@
 
 #include <stdexcept>
 
+#include <boost/ref.hpp>
+
 #include <boost/numeric/odeint/stepper/stepper_categories.hpp>
 #include <boost/numeric/odeint/stepper/controlled_step_result.hpp>
 #include <boost/numeric/odeint/iterator/integrate/detail/integrate_const.hpp>
@@ -100,12 +102,18 @@ size_t integrate_adaptive(
         Time start_time , Time end_time , Time dt ,
         Observer observer , dense_output_stepper_tag )
 {
+    typename odeint::unwrap_reference< Stepper >::type &st = stepper;
+
     size_t obs_calls = 0;
 
-    boost::for_each( make_adaptive_time_range( stepper , system , start_state ,
+    boost::for_each( make_adaptive_time_range( boost::ref( st ) , system , start_state ,
                                                start_time , end_time , dt ) ,
                      obs_caller< Observer >( obs_calls , observer ) );
 
+    // the iterators work on the state of the stepper, the result is stored in start_state
+    if( obs_calls > 0 )
+        boost::numeric::odeint::copy( st.current_state() , start_state );
+
     return obs_calls-1;
 }
 
-- 
2.43.0


From 04225cf65ffd9f44d5bcd03fa4f53a62f979738f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:26 +0000
Subject: [PATCH 45/45] fix: iterator-made integrate functions return zero when
 nothing is observed

---
 .../odeint/iterator/integrate/detail/integrate_adaptive.hpp   | 4 ++--
 .../odeint/iterator/integrate/detail/integrate_const.hpp      | 4 ++--
 .../odeint/iterator/integrate/detail/integrate_times.hpp      | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/numeric/odeint/iterator/integrate/detail/integrate_adaptive.hpp b/include/boost/numeric/odeint/iterator/integrate/detail/integrate_adaptive.hpp
index abee393..21256e2 100644
--- a/include/boost/numeric/odeint/iterator/integrate/detail/integrate_adaptive.hpp
+++ b/include/boost/numeric/odeint/iterator/integrate/detail/integrate_adaptive.hpp
@@ -87,7 +87,7 @@ size_t integrate_adaptive(
                                                start_time , end_time , dt ) ,
                      obs_caller< Observer >( obs_calls , observer ) );
 
-    return obs_calls-1;
+    return ( obs_calls > 0 ) ? obs_calls-1 : 0;
 }
 
 
@@ -114,7 +114,7 @@ size_t integrate_adaptive(
     if( obs_calls > 0 )
         boost::numeric::odeint::copy( st.current_state() , start_state );
 
-    return obs_calls-1;
+    return ( obs_calls > 0 ) ? obs_calls-1 : 0;
 }
 
 
diff --git a/include/boost/numeric/odeint/iterator/integrate/detail/integrate_const.hpp b/include/boost/numeric/odeint/iterator/integrate/detail/integrate_const.hpp
index 1065036..ec9ca89 100644
--- a/include/boost/numeric/odeint/iterator/integrate/detail/integrate_const.hpp
+++ b/include/boost/numeric/odeint/iterator/integrate/detail/integrate_const.hpp
@@ -56,7 +56,7 @@ size_t integrate_const(
                      obs_caller< Observer >( obs_calls , observer ) );
 
     // step integration steps gives step+1 observer calls
-    return obs_calls-1;
+    return ( obs_calls > 0 ) ? obs_calls-1 : 0;
 }
 
 
@@ -102,7 +102,7 @@ size_t integrate_const(
     boost::for_each( make_const_step_time_range( stepper , system , start_state ,
                                                  start_time , end_time , dt ) ,
                      obs_caller< Observer >( obs_calls , observer ) );
-    return obs_calls-1;
+    return ( obs_calls > 0 ) ? obs_calls-1 : 0;
 }
 
 
diff --git a/include/boost/numeric/odeint/iterator/integrate/detail/integrate_times.hpp b/include/boost/numeric/odeint/iterator/integrate/detail/integrate_times.hpp
index bccc7c6..0297480 100644
--- a/include/boost/numeric/odeint/iterator/integrate/detail/integrate_times.hpp
+++ b/include/boost/numeric/odeint/iterator/integrate/detail/integrate_times.hpp
@@ -53,8 +53,8 @@ size_t integrate_times(
                          // should we use traits<Stepper>::state_type here instead of State? NO!
                      obs_caller< Observer >( obs_calls , observer ) );
 
-        // step integration steps gives step+1 observer calls
-    return obs_calls-1;
+        // step integration steps gives step+1 observer calls, no times give none
+    return ( obs_calls > 0 ) ? obs_calls-1 : 0;
 }
 
 
-- 
2.43.0

