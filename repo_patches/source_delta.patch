From d3e5921fbb561f0fe4b968b2a8b71d0e5a4ffd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:46 +0000
Subject: [PATCH 01/25] fix: rot2quaternion returned NaN for rotations with a
 zero quaternion component

---
 src/math/quaternion.cpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/math/quaternion.cpp b/src/math/quaternion.cpp
index 22d50db..8447607 100644
--- a/src/math/quaternion.cpp
+++ b/src/math/quaternion.cpp
@@ -49,6 +49,13 @@ opengv::math::quaternion2rot( const quaternion_t & q)
   return R;
 }
 
+// sign of a value, where zero counts as positive (dividing a value by its
+// absolute value would return NaN in that case)
+static inline double signOf( double value )
+{
+  return (value < 0.0) ? -1.0 : 1.0;
+}
+
 opengv::quaternion_t
 opengv::math::rot2quaternion( const rotation_t & R )
 {
@@ -69,29 +76,29 @@ opengv::math::rot2quaternion( const rotation_t & R )
   if(q[0] >= q[1] && q[0] >= q[2] && q[0] >= q[3])
   {
     q[0] *= +1.0;
-    q[1] *= ((R(2,1)-R(1,2))/fabs(R(2,1)-R(1,2)));
-    q[2] *= ((R(0,2)-R(2,0))/fabs(R(0,2)-R(2,0)));
-    q[3] *= ((R(1,0)-R(0,1))/fabs(R(1,0)-R(0,1)));
+    q[1] *= signOf(R(2,1)-R(1,2));
+    q[2] *= signOf(R(0,2)-R(2,0));
+    q[3] *= signOf(R(1,0)-R(0,1));
   }
   else if(q[1] >= q[0] && q[1] >= q[2] && q[1] >= q[3])
   {
-    q[0] *= ((R(2,1)-R(1,2))/fabs(R(2,1)-R(1,2)));
+    q[0] *= signOf(R(2,1)-R(1,2));
     q[1] *= +1.0;
-    q[2] *= ((R(1,0)+R(0,1))/fabs(R(1,0)+R(0,1)));
-    q[3] *= ((R(0,2)+R(2,0))/fabs(R(0,2)+R(2,0)));
+    q[2] *= signOf(R(1,0)+R(0,1));
+    q[3] *= signOf(R(0,2)+R(2,0));
   }
   else if(q[2] >= q[0] && q[2] >= q[1] && q[2] >= q[3])
   {
-    q[0] *= ((R(0,2)-R(2,0))/fabs(R(0,2)-R(2,0)));
-    q[1] *= ((R(1,0)+R(0,1))/fabs(R(1,0)+R(0,1)));
+    q[0] *= signOf(R(0,2)-R(2,0));
+    q[1] *= signOf(R(1,0)+R(0,1));
     q[2] *= +1.0;
-    q[3] *= ((R(2,1)+R(1,2))/fabs(R(2,1)+R(1,2)));
+    q[3] *= signOf(R(2,1)+R(1,2));
   }
   else if(q[3] >= q[0] && q[3] >= q[1] && q[3] >= q[2])
   {
-    q[0] *= ((R(1,0)-R(0,1))/fabs(R(1,0)-R(0,1)));
-    q[1] *= ((R(2,0)+R(0,2))/fabs(R(2,0)+R(0,2)));
-    q[2] *= ((R(2,1)+R(1,2))/fabs(R(2,1)+R(1,2)));  
+    q[0] *= signOf(R(1,0)-R(0,1));
+    q[1] *= signOf(R(2,0)+R(0,2));
+    q[2] *= signOf(R(2,1)+R(1,2));  
     q[3] *= +1.0;
   }
   else
-- 
2.43.0


From ac5cd7c82f2bdce8408f5dda099479dbc71f1564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:09 +0000
Subject: [PATCH 02/25] fix: p2p returned zero when the two largest components
 of the point difference tie

---
 src/absolute_pose/methods.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/absolute_pose/methods.cpp b/src/absolute_pose/methods.cpp
index b1f0889..6ceb95b 100644
--- a/src/absolute_pose/methods.cpp
+++ b/src/absolute_pose/methods.cpp
@@ -73,7 +73,7 @@ opengv::absolute_pose::p2p(
   Eigen::Vector3d n1 = adapter.getPoint(index1) - adapter.getPoint(index0);
   n1 = n1/n1.norm();
   Eigen::Vector3d n3;
-  if( (fabs(n1[0]) > fabs(n1[1])) && (fabs(n1[0]) > fabs(n1[2])) )
+  if( (fabs(n1[0]) >= fabs(n1[1])) && (fabs(n1[0]) >= fabs(n1[2])) )
   {
     n3[1] = 1.0;
     n3[2] = 0.0;
@@ -81,7 +81,7 @@ opengv::absolute_pose::p2p(
   }
   else
   {
-    if( (fabs(n1[1]) > fabs(n1[0])) && (fabs(n1[1]) > fabs(n1[2])) )
+    if( (fabs(n1[1]) >= fabs(n1[0])) && (fabs(n1[1]) >= fabs(n1[2])) )
     {
       n3[2] = 1.0;
       n3[0] = 0.0;
-- 
2.43.0


From d02d3e298dc12e45110342ff909fa4d20e018d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 03/25] fix: Sturm::findRoots lost and duplicated roots because
 Newton iterations started from coarse brackets

---
 src/math/Sturm.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/math/Sturm.cpp b/src/math/Sturm.cpp
index 0cebf13..2c35a3f 100644
--- a/src/math/Sturm.cpp
+++ b/src/math/Sturm.cpp
@@ -278,9 +278,10 @@ opengv::math::Sturm::findRoots2( std::vector<double> & roots, double eps_x, doub
 std::vector<double>
 opengv::math::Sturm::findRoots()
 {
-  //bracket the roots
+  //bracket the roots tightly, the unguarded iterations below leave a coarse
+  //bracket and then end at a neighbouring root (duplicated and lost roots)
   std::vector<double> roots;
-  bracketRoots(roots);
+  bracketRoots(roots, 1.0e-8 * computeLagrangianBound());
 
   //pollish
   Eigen::MatrixXd monomials(_dimension,1);
-- 
2.43.0


From 82dfa814f1ff7bb083e76623bbf810389407b76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:56 +0000
Subject: [PATCH 04/25] fix: gauss_jordan swapped row -1 when no pivot
 comparison succeeded

---
 src/math/gauss_jordan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/gauss_jordan.cpp b/src/math/gauss_jordan.cpp
index e3e477a..b8a73e7 100644
--- a/src/math/gauss_jordan.cpp
+++ b/src/math/gauss_jordan.cpp
@@ -50,7 +50,7 @@ opengv::math::gauss_jordan(
     // first iterate through the rows and find the row that has the biggest
     // leading coefficient
     double maxValue = -1.0;
-    int row = -1;
+    int row = frontRow; //also valid if no comparison succeeds (NaN)
     for( int tempRow = frontRow; tempRow < rows; tempRow++ )
     {
       double value = fabs((*(matrix[tempRow]))[frontRow]);
-- 
2.43.0


From 0462b0f496472a206000d554e3943ee020222210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:12 +0000
Subject: [PATCH 05/25] fix: gp3p and upnp read eigenvectors of failed eigen
 decompositions (singular elimination templates)

---
 src/absolute_pose/modules/main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/absolute_pose/modules/main.cpp b/src/absolute_pose/modules/main.cpp
index ed0c271..28ff959 100644
--- a/src/absolute_pose/modules/main.cpp
+++ b/src/absolute_pose/modules/main.cpp
@@ -391,6 +391,8 @@ opengv::absolute_pose::modules::gp3p_main(
 
   Eigen::EigenSolver< Eigen::Matrix<double,8,8> > Eig(M,true);
   Eigen::Matrix<std::complex<double>,8,1> D = Eig.eigenvalues();
+  if( Eig.info() != Eigen::Success )
+    return; //singular elimination template, there are no solutions
   Eigen::Matrix<std::complex<double>,8,8> V = Eig.eigenvectors();
 
   for( int c = 0; c < V.cols(); c++ )
@@ -731,6 +733,8 @@ opengv::absolute_pose::modules::upnp_main(
   Eigen::Matrix<double,16,16> Action;
   upnp::setupAction_gj( M, C, gamma, Action );
   Eigen::EigenSolver< Eigen::Matrix<double,16,16> > Eig( Action, true );
+  if( Eig.info() != Eigen::Success )
+    return; //singular elimination template, there are no solutions
   Eigen::Matrix<std::complex<double>,16,16> V = Eig.eigenvectors();
   
   //cut the double solutions
@@ -794,6 +798,8 @@ opengv::absolute_pose::modules::upnp_main_sym(
   Eigen::Matrix<double,8,8> Action;
   upnp::setupAction_sym_gj( M, C, gamma, Action );
   Eigen::EigenSolver< Eigen::Matrix<double,8,8> > Eig( Action, true );
+  if( Eig.info() != Eigen::Success )
+    return; //singular elimination template, there are no solutions
   Eigen::Matrix<std::complex<double>,8,8> V = Eig.eigenvectors();
   
   //ok, let's cut the imaginary solutions (with a reasonable threshold!)
-- 
2.43.0


From 853252150a3df631c5a568b8f23e5d279069f35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:50 +0000
Subject: [PATCH 06/25] fix: Sturm::findRoots2 looped forever when eps_val is
 below the numerical accuracy

---
 src/math/Sturm.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/math/Sturm.cpp b/src/math/Sturm.cpp
index 2c35a3f..c81a3ab 100644
--- a/src/math/Sturm.cpp
+++ b/src/math/Sturm.cpp
@@ -237,8 +237,9 @@ opengv::math::Sturm::findRoots2( std::vector<double> & roots, double eps_x, doub
           
           double newValue = matValue(0,0);
           
-          if( fabs(newValue) > fabs(value) )
+          if( !(fabs(newValue) <= fabs(value)) )
             break;
+          bool progress = fabs(newValue) < fabs(value);
           
           //do update
           value = newValue;
@@ -247,6 +248,8 @@ opengv::math::Sturm::findRoots2( std::vector<double> & roots, double eps_x, doub
           //check if converged
           if( fabs(value) < eps_val )
             converged = true;
+          else if( !progress )
+            break; //eps_val is below the numerical accuracy
         }
         
         if( converged )
-- 
2.43.0


From f29a295a637e7a45c0a5c008992b085cca808fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:09 +0000
Subject: [PATCH 07/25] fix: o3_roots and o4_roots returned garbage for x^3+c
 like and biquadratic polynomials

---
 src/math/roots.cpp | 65 +++++++++++++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 21 deletions(-)

diff --git a/src/math/roots.cpp b/src/math/roots.cpp
index c31b27c..8b08024 100644
--- a/src/math/roots.cpp
+++ b/src/math/roots.cpp
@@ -52,7 +52,8 @@ opengv::math::o3_roots( const std::vector<double> & p )
   
   if( term >= 0.0 )
   {
-    double C3 = 0.5 * (theta_1 + sqrt(term));
+    //the sign avoids cancellation (and C = 0 for theta_0 = 0, theta_1 < 0)
+    double C3 = 0.5 * (theta_1 + (theta_1 < 0.0 ? -sqrt(term) : sqrt(term)));
     
     if( C3 < 0.0 )
       C = std::complex<double>(-pow(-C3,(1.0/3.0)),0.0);
@@ -84,6 +85,44 @@ opengv::math::o3_roots( const std::vector<double> & p )
   return roots;
 }
 
+namespace
+{
+
+//Ferrari's method divides by w = sqrt(alpha+2y), so take the root y of the
+//resolvent cubic with the largest w (w vanishes for another root if the
+//depressed quartic is biquadratic)
+void solveResolvent(
+    double alpha,
+    const std::complex<double> & P,
+    const std::complex<double> & Q,
+    std::complex<double> & y,
+    std::complex<double> & w )
+{
+  std::complex<double> S = sqrt(pow(Q,2.0)/4.0+pow(P,3.0)/27.0);
+  std::complex<double> R = -Q/2.0+S;
+  if( std::abs(-Q/2.0-S) > std::abs(R) )
+    R = -Q/2.0-S; //avoid cancellation
+
+  std::complex<double> U = pow(R,(1.0/3.0));
+  std::complex<double> unity(-0.5,0.5*sqrt(3.0));
+
+  for( int i = 0; i < 3; i++ )
+  {
+    std::complex<double> y_i = -5.0*alpha/6.0;
+    if( std::abs(U) > 0.0 )
+      y_i += U-P/(3.0*U);
+    std::complex<double> w_i = sqrt(alpha+2.0*y_i);
+    if( i == 0 || std::abs(w_i) > std::abs(w) )
+    {
+      y = y_i;
+      w = w_i;
+    }
+    U *= unity;
+  }
+}
+
+}
+
 std::vector<double>
 opengv::math::o4_roots( const Eigen::MatrixXd & p )
 {
@@ -109,17 +148,9 @@ opengv::math::o4_roots( const Eigen::MatrixXd & p )
 
   std::complex<double> P (-alpha_pw2/12-gamma,0);
   std::complex<double> Q (-alpha_pw3/108+alpha*gamma/3-pow(beta,2)/8,0);
-  std::complex<double> R = -Q/2.0+sqrt(pow(Q,2.0)/4.0+pow(P,3.0)/27.0);
-
-  std::complex<double> U = pow(R,(1.0/3.0));
   std::complex<double> y;
-
-  if (U.real() == 0)
-    y = -5.0*alpha/6.0-pow(Q,(1.0/3.0));
-  else
-    y = -5.0*alpha/6.0-P/(3.0*U)+U;
-
-  std::complex<double> w = sqrt(alpha+2.0*y);
+  std::complex<double> w;
+  solveResolvent(alpha,P,Q,y,w);
 
   std::vector<double> realRoots;
   std::complex<double> temp;
@@ -160,17 +191,9 @@ opengv::math::o4_roots( const std::vector<double> & p )
 
   std::complex<double> P (-alpha_pw2/12-gamma,0);
   std::complex<double> Q (-alpha_pw3/108+alpha*gamma/3-pow(beta,2)/8,0);
-  std::complex<double> R = -Q/2.0+sqrt(pow(Q,2.0)/4.0+pow(P,3.0)/27.0);
-
-  std::complex<double> U = pow(R,(1.0/3.0));
   std::complex<double> y;
-
-  if (U.real() == 0)
-    y = -5.0*alpha/6.0-pow(Q,(1.0/3.0));
-  else
-    y = -5.0*alpha/6.0-P/(3.0*U)+U;
-
-  std::complex<double> w = sqrt(alpha+2.0*y);
+  std::complex<double> w;
+  solveResolvent(alpha,P,Q,y,w);
 
   std::vector<double> realRoots;
   std::complex<double> temp;
-- 
2.43.0


From 4a538e38df53e31342399d3ef22a02a8ab0efb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:08 +0000
Subject: [PATCH 08/25] fix: linear triangulation was rank deficient for
 bearing vectors with zero third component

---
 src/triangulation/methods.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/triangulation/methods.cpp b/src/triangulation/methods.cpp
index 0a88906..5e5f8d2 100644
--- a/src/triangulation/methods.cpp
+++ b/src/triangulation/methods.cpp
@@ -47,11 +47,15 @@ opengv::triangulation::triangulate(
   bearingVector_t f1 = adapter.getBearingVector1(index);
   bearingVector_t f2 = adapter.getBearingVector2(index);
 
-  Eigen::MatrixXd A(4,4);
+  //all three rows of each cross-product f x (P*X) = 0, two of them are not
+  //enough for bearing-vectors with zero third component
+  Eigen::MatrixXd A(6,4);
   A.row(0) = f1[0] * P1.row(2) - f1[2] * P1.row(0);
   A.row(1) = f1[1] * P1.row(2) - f1[2] * P1.row(1);
-  A.row(2) = f2[0] * P2.row(2) - f2[2] * P2.row(0);
-  A.row(3) = f2[1] * P2.row(2) - f2[2] * P2.row(1);
+  A.row(2) = f1[0] * P1.row(1) - f1[1] * P1.row(0);
+  A.row(3) = f2[0] * P2.row(2) - f2[2] * P2.row(0);
+  A.row(4) = f2[1] * P2.row(2) - f2[2] * P2.row(1);
+  A.row(5) = f2[0] * P2.row(1) - f2[1] * P2.row(0);
 
   Eigen::JacobiSVD< Eigen::MatrixXd > mySVD(A, Eigen::ComputeFullV );
   point_t worldPoint;
-- 
2.43.0


From 5004f7a12c3faf3ec3b94eff36f5ef4adf55f672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:09 +0000
Subject: [PATCH 09/25] fix: Ransac and MultiRansac tried one hypothesis more
 than max_iterations

---
 include/opengv/sac/implementation/MultiRansac.hpp | 2 +-
 include/opengv/sac/implementation/Ransac.hpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengv/sac/implementation/MultiRansac.hpp b/include/opengv/sac/implementation/MultiRansac.hpp
index e723c96..3c85e49 100644
--- a/include/opengv/sac/implementation/MultiRansac.hpp
+++ b/include/opengv/sac/implementation/MultiRansac.hpp
@@ -127,7 +127,7 @@ opengv::sac::MultiRansac<PROBLEM_T>::computeModel(
       fprintf(stdout,
           "[sm::RandomSampleConsensus::computeModel] Trial %d out of %f: %d inliers (best is: %d so far).\n",
           iterations_, k, n_inliers_count, n_best_inliers_count );
-    if(iterations_ > max_iterations_)
+    if(iterations_ >= max_iterations_)
     {
       if(debug_verbosity_level > 0)
         fprintf(stdout,
diff --git a/include/opengv/sac/implementation/Ransac.hpp b/include/opengv/sac/implementation/Ransac.hpp
index a01adc8..e37ea10 100644
--- a/include/opengv/sac/implementation/Ransac.hpp
+++ b/include/opengv/sac/implementation/Ransac.hpp
@@ -117,7 +117,7 @@ opengv::sac::Ransac<PROBLEM_T>::computeModel(
       fprintf(stdout,
           "[sm::RandomSampleConsensus::computeModel] Trial %d out of %f: %d inliers (best is: %d so far).\n",
           iterations_, k, n_inliers_count, n_best_inliers_count );
-    if(iterations_ > max_iterations_)
+    if(iterations_ >= max_iterations_)
     {
       if(debug_verbosity_level > 0)
         fprintf(stdout,
-- 
2.43.0


From 137f9f3ddfb0a2b4b08a7e14ab441951aa156eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:09 +0000
Subject: [PATCH 10/25] fix: a failing run of an estimator reported the result
 of the previous run as success

---
 include/opengv/sac/implementation/Lmeds.hpp       | 4 ++++
 include/opengv/sac/implementation/MultiRansac.hpp | 2 ++
 include/opengv/sac/implementation/Ransac.hpp      | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/include/opengv/sac/implementation/Lmeds.hpp b/include/opengv/sac/implementation/Lmeds.hpp
index 637b4b0..38e4db9 100644
--- a/include/opengv/sac/implementation/Lmeds.hpp
+++ b/include/opengv/sac/implementation/Lmeds.hpp
@@ -45,6 +45,10 @@ opengv::sac::Lmeds<PROBLEM_T>::computeModel(int debug_verbosity_level)
   typedef PROBLEM_T problem_t;
   typedef typename problem_t::model_t model_t;
 
+  // forget the result of a previous run
+  model_.clear();
+  inliers_.clear();
+
   // Warn and exit if no threshold was set
   if (threshold_ == std::numeric_limits<double>::max())
   {
diff --git a/include/opengv/sac/implementation/MultiRansac.hpp b/include/opengv/sac/implementation/MultiRansac.hpp
index 3c85e49..5d2e9af 100644
--- a/include/opengv/sac/implementation/MultiRansac.hpp
+++ b/include/opengv/sac/implementation/MultiRansac.hpp
@@ -49,6 +49,8 @@ opengv::sac::MultiRansac<PROBLEM_T>::computeModel(
   typedef typename problem_t::model_t model_t;
 
   iterations_ = 0;
+  // forget the result of a previous run
+  model_.clear();
   int n_best_inliers_count = -INT_MAX;
   double k = 1.0;
 
diff --git a/include/opengv/sac/implementation/Ransac.hpp b/include/opengv/sac/implementation/Ransac.hpp
index e37ea10..ce701d2 100644
--- a/include/opengv/sac/implementation/Ransac.hpp
+++ b/include/opengv/sac/implementation/Ransac.hpp
@@ -49,6 +49,8 @@ opengv::sac::Ransac<PROBLEM_T>::computeModel(
   typedef typename problem_t::model_t model_t;
 
   iterations_ = 0;
+  // forget the result of a previous run
+  model_.clear();
   int n_best_inliers_count = -INT_MAX;
   double k = 1.0;
 
-- 
2.43.0


From 89515693f5f0883e60eebdb970e86b0890b66308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:32 +0000
Subject: [PATCH 11/25] fix: multi-camera relative-pose problems scored the
 wrong bearing vectors for index subsets

---
 .../relative_pose/MultiCentralRelativePoseSacProblem.cpp    | 6 ++++--
 .../relative_pose/MultiNoncentralRelativePoseSacProblem.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp
index 25f446a..078ba2f 100644
--- a/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp
@@ -151,8 +151,10 @@ opengv::sac_problems::
       bearingVector_t reprojection2 = inverseSolution * p_hom;
       reprojection1 = reprojection1 / reprojection1.norm();
       reprojection2 = reprojection2 / reprojection2.norm();
-      bearingVector_t f1 = _adapter.getBearingVector1(pairIndex,correspondenceIndex);
-      bearingVector_t f2 = _adapter.getBearingVector2(pairIndex,correspondenceIndex);
+      bearingVector_t f1 = _adapter.getBearingVector1(
+          pairIndex,indices[pairIndex][correspondenceIndex]);
+      bearingVector_t f2 = _adapter.getBearingVector2(
+          pairIndex,indices[pairIndex][correspondenceIndex]);
 
       //bearing-vector based outlier criterium (select threshold accordingly):
       //1-(f1'*f2) = 1-cos(alpha) \in [0:2]
diff --git a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
index cd9596e..12b5cdd 100644
--- a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
@@ -316,9 +316,11 @@ opengv::sac_problems::relative_pose::
       reprojection1 = reprojection1 / reprojection1.norm();
       reprojection2 = reprojection2 / reprojection2.norm();
       bearingVector_t f1 =
-          _adapter.getBearingVector1(camIndex,correspondenceIndex);
+          _adapter.getBearingVector1(
+          camIndex,indices[camIndex][correspondenceIndex]);
       bearingVector_t f2 =
-          _adapter.getBearingVector2(camIndex,correspondenceIndex);
+          _adapter.getBearingVector2(
+          camIndex,indices[camIndex][correspondenceIndex]);
 
       //bearing-vector based outlier criterium (select threshold accordingly):
       //1-(f1'*f2) = 1-cos(alpha) \in [0:2]
-- 
2.43.0


From aed19b0a4c68a5a825ed5ac1487ab47dc6ac51e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:32 +0000
Subject: [PATCH 12/25] fix: random start camera could be one past the last
 camera

---
 .../absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp   | 2 +-
 .../relative_pose/MultiNoncentralRelativePoseSacProblem.cpp   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp b/src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp
index 6f20e48..112eb0d 100644
--- a/src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp
+++ b/src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp
@@ -175,7 +175,7 @@ opengv::sac_problems::
 
   //set it to a random cam index where to start
   size_t binIndex = floor(((double) _adapter.getNumberFrames()) *
-      ((double) rand()) / ((double) RAND_MAX));
+      ((double) rand()) / ((double) RAND_MAX + 1.0));
   for( int i = 0; i < sampleSize; i++ )
   {
     sampleSizes[binIndex]++;
diff --git a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
index 12b5cdd..12e2a55 100644
--- a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
@@ -71,7 +71,7 @@ opengv::sac_problems::relative_pose::MultiNoncentralRelativePoseSacProblem::
         std::vector<int> sindices;
         //set it to a random cam index where to start
         size_t binIndex = floor(((double) _adapter.getNumberPairs()) *
-            ((double) rand()) / ((double) RAND_MAX));
+            ((double) rand()) / ((double) RAND_MAX + 1.0));
         std::vector<int> tempIndices;
         for( int i = 0; i < (int) indices.size(); i++ )
           tempIndices.push_back(0);
@@ -381,7 +381,7 @@ opengv::sac_problems::
 
   //set it to a random cam index where to start
   size_t binIndex = floor(((double) _adapter.getNumberPairs()) *
-      ((double) rand()) / ((double) RAND_MAX));
+      ((double) rand()) / ((double) RAND_MAX + 1.0));
   for( int i = 0; i < sampleSize; i++ )
   {
     sampleSizes[binIndex]++;
-- 
2.43.0


From 51ece4e627d42cb47200de944a90467151a1a150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:31 +0000
Subject: [PATCH 13/25] fix: six-point hypotheses took the translation from an
 arbitrary eigenvector instead of the weakest one

---
 .../MultiNoncentralRelativePoseSacProblem.cpp            | 9 +++++----
 .../relative_pose/NoncentralRelativePoseSacProblem.cpp   | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
index 12e2a55..ee3ca26 100644
--- a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
@@ -165,14 +165,15 @@ opengv::sac_problems::relative_pose::MultiNoncentralRelativePoseSacProblem::
           }
           
           //decompose G to find the rotation
-          Eigen::EigenSolver< Eigen::Matrix4d > Eig(G,true);
-          Eigen::Matrix<std::complex<double>,4,4> V = Eig.eigenvectors();
+          //(the eigenvalues of the self-adjoint solver are in ascending order)
+          Eigen::SelfAdjointEigenSolver< Eigen::Matrix4d > Eig(G);
+          Eigen::Matrix4d V = Eig.eigenvectors();
 
-          double factor = V(3,0).real();
+          double factor = V(3,0);
           transformation_t transformation;
           transformation.block<3,3>(0,0) = rotations[r];
           for( int k = 0; k < 3; k++ )
-            transformation(k,3) = (1.0/factor) * V(k,0).real();
+            transformation(k,3) = (1.0/factor) * V(k,0);
           transformations.push_back(transformation);
         }
         
diff --git a/src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp
index df58181..822be58 100644
--- a/src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp
@@ -113,14 +113,15 @@ opengv::sac_problems::
           }
           
           //decompose G to find the rotation
-          Eigen::EigenSolver< Eigen::Matrix4d > Eig(G,true);
-          Eigen::Matrix<std::complex<double>,4,4> V = Eig.eigenvectors();
+          //(the eigenvalues of the self-adjoint solver are in ascending order)
+          Eigen::SelfAdjointEigenSolver< Eigen::Matrix4d > Eig(G);
+          Eigen::Matrix4d V = Eig.eigenvectors();
 
-          double factor = V(3,0).real();
+          double factor = V(3,0);
           transformation_t transformation;
           transformation.block<3,3>(0,0) = rotations[r];
           for( int k = 0; k < 3; k++ )
-            transformation(k,3) = (1.0/factor) * V(k,0).real();
+            transformation(k,3) = (1.0/factor) * V(k,0);
           transformations.push_back(transformation);
         }
         
-- 
2.43.0


From 5d14d590645d87ec0da69680eab465989e336d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 14/25] fix: gpnp passed the first control point four times to
 its null-space equations

---
 src/absolute_pose/modules/main.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/absolute_pose/modules/main.cpp b/src/absolute_pose/modules/main.cpp
index 28ff959..20a178f 100644
--- a/src/absolute_pose/modules/main.cpp
+++ b/src/absolute_pose/modules/main.cpp
@@ -452,9 +452,9 @@ opengv::absolute_pose::modules::gpnp_main(
   Eigen::Matrix<double,12,1> vec_1 = V.col(11);
 
   point_t c0 = c[0];
-  point_t c1 = c[0];
-  point_t c2 = c[0];
-  point_t c3 = c[0];
+  point_t c1 = c[1];
+  point_t c2 = c[2];
+  point_t c3 = c[3];
 
   Eigen::Matrix<double,12,1> solution;
   std::vector<double> errors;
-- 
2.43.0


From 5d2e826a01f38d06e76726f7c0ca3a6d6d1e22d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:32 +0000
Subject: [PATCH 15/25] fix: scoring and hypotheses no longer overwrite the
 adapter's prior

The const methods that score a relative-pose model, or rank candidate
models, stored that model in the adapter's t12/R12 for triangulate2 and
left it there. TranslationOnlySacProblem hypotheses, the eigensolver and
ge read that prior, so their result depended on which models had been
scored before. Restore it, as EigensolverSacProblem already does.
---
 .../relative_pose/CentralRelativePoseSacProblem.cpp  | 12 ++++++++++++
 .../MultiCentralRelativePoseSacProblem.cpp           |  6 ++++++
 .../MultiNoncentralRelativePoseSacProblem.cpp        | 12 ++++++++++++
 .../NoncentralRelativePoseSacProblem.cpp             | 12 ++++++++++++
 .../relative_pose/TranslationOnlySacProblem.cpp      |  6 ++++++
 5 files changed, 48 insertions(+)

diff --git a/src/sac_problems/relative_pose/CentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/CentralRelativePoseSacProblem.cpp
index cc48dfb..40f3f68 100644
--- a/src/sac_problems/relative_pose/CentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/CentralRelativePoseSacProblem.cpp
@@ -102,6 +102,9 @@ opengv::sac_problems::
   int bestQualityIndex = -1;
   int bestQualitySubindex = -1;
 
+  translation_t tempTranslation = _adapter.gett12();
+  rotation_t tempRotation = _adapter.getR12();
+
   for(size_t i = 0; i < essentialMatrices.size(); i++)
   {
     // decompose
@@ -199,6 +202,9 @@ opengv::sac_problems::
     }
   }
 
+  _adapter.sett12(tempTranslation);
+  _adapter.setR12(tempRotation);
+
   if( bestQualityIndex == -1 )
     return false; // no solution found
   else
@@ -258,6 +264,9 @@ opengv::sac_problems::
     const std::vector<int> & indices,
     std::vector<double> & scores) const
 {
+  translation_t tempTranslation = _adapter.gett12();
+  rotation_t tempRotation = _adapter.getR12();
+
   translation_t translation = model.col(3);
   rotation_t rotation = model.block<3,3>(0,0);
   _adapter.sett12(translation);
@@ -287,6 +296,9 @@ opengv::sac_problems::
     double reprojError2 = 1.0 - (f2.transpose() * reprojection2);
     scores.push_back(reprojError1 + reprojError2);
   }
+
+  _adapter.sett12(tempTranslation);
+  _adapter.setR12(tempRotation);
 }
 
 void
diff --git a/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp
index 078ba2f..5a52a0f 100644
--- a/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp
@@ -120,6 +120,9 @@ opengv::sac_problems::
     const std::vector<std::vector<int> > & indices,
     std::vector<std::vector<double> > & scores) const
 {
+  translation_t tempTranslation = _adapter.gett12();
+  rotation_t tempRotation = _adapter.getR12();
+
   Eigen::Matrix<double,4,1> p_hom;
   p_hom[3] = 1.0;
 
@@ -163,6 +166,9 @@ opengv::sac_problems::
       scores[pairIndex].push_back(reprojError1 + reprojError2);
     }
   }
+
+  _adapter.sett12(tempTranslation);
+  _adapter.setR12(tempRotation);
 }
 
 void
diff --git a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
index ee3ca26..0f2dd6e 100644
--- a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
@@ -184,6 +184,9 @@ opengv::sac_problems::relative_pose::MultiNoncentralRelativePoseSacProblem::
         double bestQuality = 1000000.0;
         int bestQualityIndex = -1;
 
+        translation_t tempTranslation = _adapter.gett12();
+        rotation_t tempRotation = _adapter.getR12();
+
         for(size_t i = 0; i < transformations.size(); i++)
         {
           // go through all features and compute quality of reprojection
@@ -235,6 +238,9 @@ opengv::sac_problems::relative_pose::MultiNoncentralRelativePoseSacProblem::
           }
         }
         
+        _adapter.sett12(tempTranslation);
+        _adapter.setR12(tempRotation);
+
         if( bestQualityIndex == -1 )
           returnValue = false; // no solution found
         else
@@ -274,6 +280,9 @@ opengv::sac_problems::relative_pose::
     const std::vector<std::vector<int> > & indices,
     std::vector<std::vector<double> > & scores) const
 {
+  translation_t tempTranslation = _adapter.gett12();
+  rotation_t tempRotation = _adapter.getR12();
+
   translation_t translation = model.col(3);
   rotation_t rotation = model.block<3,3>(0,0);
 
@@ -330,6 +339,9 @@ opengv::sac_problems::relative_pose::
       scores[camIndex].push_back(reprojError1 + reprojError2);
     }
   }
+
+  _adapter.sett12(tempTranslation);
+  _adapter.setR12(tempRotation);
 }
 
 void
diff --git a/src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp
index 822be58..0ff4e45 100644
--- a/src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp
@@ -132,6 +132,9 @@ opengv::sac_problems::
         double bestQuality = 1000000.0;
         int bestQualityIndex = -1;
 
+        translation_t tempTranslation = _adapter.gett12();
+        rotation_t tempRotation = _adapter.getR12();
+
         for(size_t i = 0; i < transformations.size(); i++)
         {
           // go through all features and compute quality of reprojection
@@ -183,6 +186,9 @@ opengv::sac_problems::
           }
         }
         
+        _adapter.sett12(tempTranslation);
+        _adapter.setR12(tempRotation);
+
         if( bestQualityIndex == -1 )
           returnValue = false; // no solution found
         else
@@ -222,6 +228,9 @@ opengv::sac_problems::
     const std::vector<int> & indices,
     std::vector<double> & scores) const
 {
+  translation_t tempTranslation = _adapter.gett12();
+  rotation_t tempRotation = _adapter.getR12();
+
   translation_t translation = model.col(3);
   rotation_t rotation = model.block<3,3>(0,0);
 
@@ -264,6 +273,9 @@ opengv::sac_problems::
     double reprojError2 = 1.0 - (f2.transpose() * reprojection2);
     scores.push_back(reprojError1 + reprojError2);
   }
+
+  _adapter.sett12(tempTranslation);
+  _adapter.setR12(tempRotation);
 }
 
 void
diff --git a/src/sac_problems/relative_pose/TranslationOnlySacProblem.cpp b/src/sac_problems/relative_pose/TranslationOnlySacProblem.cpp
index 1b49264..cb28f66 100644
--- a/src/sac_problems/relative_pose/TranslationOnlySacProblem.cpp
+++ b/src/sac_problems/relative_pose/TranslationOnlySacProblem.cpp
@@ -53,6 +53,9 @@ opengv::sac_problems::
     const std::vector<int> & indices,
     std::vector<double> & scores) const
 {
+  translation_t tempTranslation = _adapter.gett12();
+  rotation_t tempRotation = _adapter.getR12();
+
   translation_t translation = model.col(3);
   rotation_t rotation = model.block<3,3>(0,0);
   _adapter.sett12(translation);
@@ -82,6 +85,9 @@ opengv::sac_problems::
     double reprojError2 = 1.0 - (f2.transpose() * reprojection2);
     scores.push_back(reprojError1 + reprojError2);
   }
+
+  _adapter.sett12(tempTranslation);
+  _adapter.setR12(tempRotation);
 }
 
 void
-- 
2.43.0


From bb8c9256ae6226aca9ec05a397c4a20191e227db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:11 +0000
Subject: [PATCH 16/25] fix: epnp shares a static workspace between calls
 (concurrent calls return wrong poses)

---
 src/absolute_pose/modules/Epnp.cpp | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/absolute_pose/modules/Epnp.cpp b/src/absolute_pose/modules/Epnp.cpp
index d52e1ec..6e05d45 100644
--- a/src/absolute_pose/modules/Epnp.cpp
+++ b/src/absolute_pose/modules/Epnp.cpp
@@ -719,23 +719,11 @@ opengv::absolute_pose::modules::Epnp::qr_solve(
 {
   Eigen::Matrix<double,4,6> A = A_orig.transpose();
 
-  static int max_nr = 0;
-  static double * A1, * A2;
-
   const int nr = A_orig.rows();
   const int nc = A_orig.cols();
 
-  if (max_nr != 0 && max_nr < nr)
-  {
-    delete [] A1;
-    delete [] A2;
-  }
-  if (max_nr < nr)
-  {
-    max_nr = nr;
-    A1 = new double[nr];
-    A2 = new double[nr];
-  }
+  // workspace of this call (not shared: poses may be computed concurrently)
+  double A1[6], A2[6];
 
   double * pA = A.data(), * ppAkk = pA;
   for(int k = 0; k < nc; k++)
-- 
2.43.0


From 964059bb4deb466803ae8502b70f0e73c246f451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 17/25] fix: relative pose solvers read eigenvectors of failed
 eigen decompositions

---
 src/relative_pose/methods.cpp      | 2 ++
 src/relative_pose/modules/main.cpp | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/src/relative_pose/methods.cpp b/src/relative_pose/methods.cpp
index 0027dae..b520516 100644
--- a/src/relative_pose/methods.cpp
+++ b/src/relative_pose/methods.cpp
@@ -366,6 +366,8 @@ essentials_t sevenpt(
   {
     essential_t M = F2.inverse() * F1;
     Eigen::EigenSolver< essential_t > Eig(M,true);
+    if( Eig.info() != Eigen::Success )
+      return essentials; //degenerate correspondences, there are no solutions
     Eigen::Matrix< std::complex<double>,3,1 > D = Eig.eigenvalues();
 
     double val1 = fabs(D(0,0).imag());
diff --git a/src/relative_pose/modules/main.cpp b/src/relative_pose/modules/main.cpp
index 674c36b..e7a9e52 100644
--- a/src/relative_pose/modules/main.cpp
+++ b/src/relative_pose/modules/main.cpp
@@ -74,6 +74,8 @@ opengv::relative_pose::modules::fivept_stewenius_main(
   M(9,6) = 1.0;
 
   Eigen::EigenSolver< Eigen::Matrix<double,10,10> > Eig(M,true);
+  if( Eig.info() != Eigen::Success )
+    return; //singular elimination template, there are no solutions
 
   //Eigen::Matrix<std::complex<double>,10,1> D = Eig.eigenvalues();
   Eigen::Matrix<std::complex<double>,10,10> V = Eig.eigenvectors();
@@ -335,6 +337,8 @@ opengv::relative_pose::modules::fivept_kneip_main(
   M(19,18) = 1.0;
 
   Eigen::EigenSolver< Eigen::Matrix<double,20,20> > Eig(M,true);
+  if( Eig.info() != Eigen::Success )
+    return; //singular elimination template, there are no solutions
   Eigen::Matrix<std::complex<double>,20,1> D = Eig.eigenvalues();
   Eigen::Matrix<std::complex<double>,20,20> V = Eig.eigenvectors();
 
@@ -708,6 +712,8 @@ opengv::relative_pose::modules::sixpt_main(
   
   //finally eigen-decompose the action-matrix and obtain the solutions
   Eigen::EigenSolver< Eigen::Matrix<double,64,64> > Eig(Action,true);
+  if( Eig.info() != Eigen::Success )
+    return; //singular action matrix, there are no solutions
   Eigen::Matrix<std::complex<double>,64,64> EV = Eig.eigenvectors();
   
   solutions.reserve(64);  
-- 
2.43.0


From 37cebe5cbeaf1faf8ff2df7e28c8daf72e662ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:10 +0000
Subject: [PATCH 18/25] fix: degenerate data made solvers return uninitialised
 memory (decompositions of matrices that are not finite)

---
 src/absolute_pose/modules/Epnp.cpp | 27 ++++++++++++++++++++++++++
 src/math/arun.cpp                  |  5 +++++
 src/relative_pose/modules/main.cpp | 31 +++++++++++++++++++++++++++---
 3 files changed, 60 insertions(+), 3 deletions(-)

diff --git a/src/absolute_pose/modules/Epnp.cpp b/src/absolute_pose/modules/Epnp.cpp
index 6e05d45..849b206 100644
--- a/src/absolute_pose/modules/Epnp.cpp
+++ b/src/absolute_pose/modules/Epnp.cpp
@@ -34,10 +34,27 @@
 
 
 #include <iostream>
+#include <limits>
 using namespace std;
 
 #include <opengv/absolute_pose/modules/Epnp.hpp>
 
+//degenerate points or directions, there is no pose
+static double
+set_undefined(
+    double R[3][3],
+    double t[3])
+{
+  const double undefined = std::numeric_limits<double>::quiet_NaN();
+  for(int i = 0; i < 3; i++)
+  {
+    for(int j = 0; j < 3; j++)
+      R[i][j] = undefined;
+    t[i] = undefined;
+  }
+  return undefined;
+}
+
 
 opengv::absolute_pose::modules::Epnp::Epnp(void)
 {
@@ -245,6 +262,9 @@ opengv::absolute_pose::modules::Epnp::compute_pose(
     fill_M(M, 2 * i, alphas + 4 * i, us[2 * i], us[2 * i + 1]);
 
   Eigen::MatrixXd MtM = M.transpose() * M;
+  if( !MtM.allFinite() )
+    return set_undefined(R,t);
+
   Eigen::JacobiSVD< Eigen::MatrixXd > SVD(
       MtM,
       Eigen::ComputeFullV | Eigen::ComputeFullU );
@@ -385,6 +405,12 @@ opengv::absolute_pose::modules::Epnp::estimate_R_and_t(
     }
   }
 
+  if( !Abt.allFinite() )
+  {
+    set_undefined(R,t);
+    return;
+  }
+
   Eigen::JacobiSVD< Eigen::MatrixXd > SVD(
       Abt,
       Eigen::ComputeFullV | Eigen::ComputeFullU );
@@ -740,6 +766,7 @@ opengv::absolute_pose::modules::Epnp::qr_solve(
     {
       A1[k] = A2[k] = 0.0;
       cerr << "God damnit, A is singular, this shouldn't happen." << endl;
+      X.setZero();
       return;
     }
     else
diff --git a/src/math/arun.cpp b/src/math/arun.cpp
index a0d6296..9daf44b 100644
--- a/src/math/arun.cpp
+++ b/src/math/arun.cpp
@@ -30,10 +30,15 @@
 
 
 #include <opengv/math/arun.hpp>
+#include <limits>
 
 opengv::rotation_t
 opengv::math::arun( const Eigen::MatrixXd & Hcross )
 {
+  //the decomposition of a matrix that is not finite is undefined
+  if( !Hcross.allFinite() )
+    return rotation_t::Constant(std::numeric_limits<double>::quiet_NaN());
+
   //decompose matrix H to obtain rotation
   Eigen::JacobiSVD< Eigen::MatrixXd > SVDcross(
       Hcross,
diff --git a/src/relative_pose/modules/main.cpp b/src/relative_pose/modules/main.cpp
index e7a9e52..731e7c1 100644
--- a/src/relative_pose/modules/main.cpp
+++ b/src/relative_pose/modules/main.cpp
@@ -47,6 +47,7 @@
 #include <opengv/math/Sturm.hpp>
 
 #include <stdio.h>
+#include <limits>
 #include <iostream>
 
 void
@@ -662,7 +663,15 @@ opengv::relative_pose::modules::eigensolver_main(
   Eigen::Matrix3d M = eigensolver::composeM(xxF,yyF,zzF,xyF,yzF,zxF,cayley);
   Eigen::EigenSolver< Eigen::Matrix3d > Eig(M,true);
   Eigen::Matrix<std::complex<double>,3,1> D_complex = Eig.eigenvalues();
-  Eigen::Matrix<std::complex<double>,3,3> V_complex = Eig.eigenvectors();
+  Eigen::Matrix<std::complex<double>,3,3> V_complex;
+  if( Eig.info() == Eigen::Success )
+    V_complex = Eig.eigenvectors();
+  else
+  {
+    //there is no decomposition, and hence no result
+    D_complex.setConstant(std::numeric_limits<double>::quiet_NaN());
+    V_complex.setConstant(std::numeric_limits<double>::quiet_NaN());
+  }
   eigenvalues_t D;
   eigenvectors_t V;
   
@@ -854,7 +863,15 @@ opengv::relative_pose::modules::ge_main(
   
   Eigen::EigenSolver< Eigen::Matrix4d > Eig(G,true);
   Eigen::Matrix<std::complex<double>,4,1> D_complex = Eig.eigenvalues();
-  Eigen::Matrix<std::complex<double>,4,4> V_complex = Eig.eigenvectors();
+  Eigen::Matrix<std::complex<double>,4,4> V_complex;
+  if( Eig.info() == Eigen::Success )
+    V_complex = Eig.eigenvectors();
+  else
+  {
+    //there is no decomposition, and hence no result
+    D_complex.setConstant(std::numeric_limits<double>::quiet_NaN());
+    V_complex.setConstant(std::numeric_limits<double>::quiet_NaN());
+  }
   Eigen::Vector4d D;
   Eigen::Matrix4d V;
   
@@ -1026,7 +1043,15 @@ opengv::relative_pose::modules::ge_main2(
   
   Eigen::EigenSolver< Eigen::Matrix4d > Eig(G,true);
   Eigen::Matrix<std::complex<double>,4,1> D_complex = Eig.eigenvalues();
-  Eigen::Matrix<std::complex<double>,4,4> V_complex = Eig.eigenvectors();
+  Eigen::Matrix<std::complex<double>,4,4> V_complex;
+  if( Eig.info() == Eigen::Success )
+    V_complex = Eig.eigenvectors();
+  else
+  {
+    //there is no decomposition, and hence no result
+    D_complex.setConstant(std::numeric_limits<double>::quiet_NaN());
+    V_complex.setConstant(std::numeric_limits<double>::quiet_NaN());
+  }
   Eigen::Vector4d D;
   Eigen::Matrix4d V;
   
-- 
2.43.0


From 85b80e0e88b4c5af4e8b9a3b435e65601df659c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:38 +0000
Subject: [PATCH 19/25] fix: Sturm reserved a wrapped around number of roots
 for ill-conditioned polynomials

---
 src/math/Sturm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/math/Sturm.cpp b/src/math/Sturm.cpp
index c81a3ab..fb1f573 100644
--- a/src/math/Sturm.cpp
+++ b/src/math/Sturm.cpp
@@ -136,6 +136,9 @@ opengv::math::Bracket::numberRoots() const
     std::cout << "Error: cannot evaluate number of roots" <<std::endl;
     return 0;
   }
+  //the chain of an ill-conditioned polynomial may even gain sign changes
+  if( _lowerBoundChanges < _upperBoundChanges )
+    return 0;
   return _lowerBoundChanges - _upperBoundChanges;
 }
 
-- 
2.43.0


From 9560a6c12e5e0478c11b39fb1b1430d5d661a290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:05 +0000
Subject: [PATCH 20/25] fix: the multi-camera MATLAB entry point returned the
 number of cameras as number of inliers

---
 matlab/opengv_experimental1.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/matlab/opengv_experimental1.cpp b/matlab/opengv_experimental1.cpp
index 8a02d3d..42d31d5 100644
--- a/matlab/opengv_experimental1.cpp
+++ b/matlab/opengv_experimental1.cpp
@@ -121,7 +121,10 @@ void mexFunction( int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[] )
   Eigen::Matrix<double,3,5> result;
   result.block<3,4>(0,0) = ransac.model_coefficients_;
   result(0,4) = ransac.iterations_;
-  result(1,4) = ransac.inliers_.size();
+  size_t numberInliers = 0;
+  for( size_t cam = 0; cam < ransac.inliers_.size(); cam++ )
+    numberInliers += ransac.inliers_[cam].size();
+  result(1,4) = numberInliers;
 
   int dims[2];
   dims[0] = 3;
-- 
2.43.0


From fa2357835f1146c33c2fe3863ae156218fac9eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:47 +0000
Subject: [PATCH 21/25] fix: gpnp amplified noise in scenes smaller than its
 fixed control-point distance of 15 units

---
 src/absolute_pose/methods.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/absolute_pose/methods.cpp b/src/absolute_pose/methods.cpp
index 6ceb95b..c7ca3a2 100644
--- a/src/absolute_pose/methods.cpp
+++ b/src/absolute_pose/methods.cpp
@@ -326,15 +326,20 @@ transformation_t gpnp(
       p,
       Eigen::ComputeThinU | Eigen::ComputeThinV );
 
-  //define the control points
+  //define the control points, at a distance that depends on the extent of the
+  //cloud (and that cannot vanish if the points coincide)
+  double controlDistance = std::max(
+      5.0 * p.norm() / sqrt((double) indices.size()), 1.e-8 * c0.norm() );
+  if( !(controlDistance > 0.0) )
+    controlDistance = 1.0;
   points_t c;
   c.push_back(c0);
   //c.push_back(c0 + SVD.singularValues()[0] * SVD.matrixU().col(0));
   //c.push_back(c0 + SVD.singularValues()[1] * SVD.matrixU().col(1));
   //c.push_back(c0 + SVD.singularValues()[2] * SVD.matrixU().col(2));
-  c.push_back(c0 + 15.0 * SVD.matrixU().col(0));
-  c.push_back(c0 + 15.0 * SVD.matrixU().col(1));
-  c.push_back(c0 + 15.0 * SVD.matrixU().col(2));
+  c.push_back(c0 + controlDistance * SVD.matrixU().col(0));
+  c.push_back(c0 + controlDistance * SVD.matrixU().col(1));
+  c.push_back(c0 + controlDistance * SVD.matrixU().col(2));
 
   //derive the barycentric frame
   Eigen::Vector3d e1 = c[1]-c0;
-- 
2.43.0


From 1e2bdd263b5104045bbba2fcaee5b59c05395d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:47 +0000
Subject: [PATCH 22/25] fix: ge depended on the unit of length and returned NaN
 rotations for large camera offsets

---
 src/relative_pose/modules/main.cpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/relative_pose/modules/main.cpp b/src/relative_pose/modules/main.cpp
index 731e7c1..e0316a2 100644
--- a/src/relative_pose/modules/main.cpp
+++ b/src/relative_pose/modules/main.cpp
@@ -923,6 +923,23 @@ opengv::relative_pose::modules::ge_main2(
   // too much, we have to stop
   //-another idea consists of having linear change of lambda, instead of exponential (safer, but slower)
   
+  //express the camera offsets in their own unit of length during the descent. The
+  //entries of G are of different degrees in the offsets, and the closed-form
+  //eigenvalues lose all their digits if the offsets are large numbers
+  double offsetScale = sqrt( -(m11P.trace() + m22P.trace()) /
+      (xxF.trace() + yyF.trace() + zzF.trace()) ) / 1.0;
+  if( !(offsetScale > 0.0) )
+    offsetScale = 1.0;
+  const Eigen::Matrix<double,3,9> x1S = x1P / offsetScale;
+  const Eigen::Matrix<double,3,9> y1S = y1P / offsetScale;
+  const Eigen::Matrix<double,3,9> z1S = z1P / offsetScale;
+  const Eigen::Matrix<double,3,9> x2S = x2P / offsetScale;
+  const Eigen::Matrix<double,3,9> y2S = y2P / offsetScale;
+  const Eigen::Matrix<double,3,9> z2S = z2P / offsetScale;
+  const Eigen::Matrix<double,9,9> m11S = m11P / (offsetScale*offsetScale);
+  const Eigen::Matrix<double,9,9> m12S = m12P / (offsetScale*offsetScale);
+  const Eigen::Matrix<double,9,9> m22S = m22P / (offsetScale*offsetScale);
+
   double lambda = 0.01;
   double maxLambda = 0.08;
   double modifier = 2.0;
@@ -957,20 +974,20 @@ opengv::relative_pose::modules::ge_main2(
     lambda = 0.01;
     int iterations = 0;
     double smallestEV = ge::getCost(xxF,yyF,zzF,xyF,yzF,zxF,
-        x1P,y1P,z1P,x2P,y2P,z2P,m11P,m12P,m22P,cayley,1);
+        x1S,y1S,z1S,x2S,y2S,z2S,m11S,m12S,m22S,cayley,1);
     
     while( iterations < maxIterations )
     {
       Eigen::Matrix<double,1,3> jacobian;
       ge::getQuickJacobian(xxF,yyF,zzF,xyF,yzF,zxF,
-          x1P,y1P,z1P,x2P,y2P,z2P,m11P,m12P,m22P,cayley,smallestEV,jacobian,1);
+          x1S,y1S,z1S,x2S,y2S,z2S,m11S,m12S,m22S,cayley,smallestEV,jacobian,1);
       
       double norm = sqrt(pow(jacobian[0],2.0) + pow(jacobian[1],2.0) + pow(jacobian[2],2.0));
       cayley_t normalizedJacobian = (1/norm) * jacobian.transpose();
       
       cayley_t samplingPoint = cayley - lambda * normalizedJacobian;
       double samplingEV = ge::getCost(xxF,yyF,zzF,xyF,yzF,zxF,
-          x1P,y1P,z1P,x2P,y2P,z2P,m11P,m12P,m22P,samplingPoint,1);
+          x1S,y1S,z1S,x2S,y2S,z2S,m11S,m12S,m22S,samplingPoint,1);
       
       if(print)
       {
@@ -988,7 +1005,7 @@ opengv::relative_pose::modules::ge_main2(
           lambda *= modifier;
           samplingPoint = cayley - lambda * normalizedJacobian;
           samplingEV = ge::getCost(xxF,yyF,zzF,xyF,yzF,zxF,
-              x1P,y1P,z1P,x2P,y2P,z2P,m11P,m12P,m22P,samplingPoint,1);
+              x1S,y1S,z1S,x2S,y2S,z2S,m11S,m12S,m22S,samplingPoint,1);
           
           if(print)
           {
@@ -1003,7 +1020,7 @@ opengv::relative_pose::modules::ge_main2(
         lambda /= modifier;
         samplingPoint = cayley - lambda * normalizedJacobian;
         samplingEV = ge::getCost(xxF,yyF,zzF,xyF,yzF,zxF,
-            x1P,y1P,z1P,x2P,y2P,z2P,m11P,m12P,m22P,samplingPoint,1);
+            x1S,y1S,z1S,x2S,y2S,z2S,m11S,m12S,m22S,samplingPoint,1);
         
         if(print)
         {
@@ -1028,7 +1045,7 @@ opengv::relative_pose::modules::ge_main2(
     {
       //we are close to the origin, test the EV 2
       double ev2 = ge::getCost(xxF,yyF,zzF,xyF,yzF,zxF,
-            x1P,y1P,z1P,x2P,y2P,z2P,m11P,m12P,m22P,cayley,0);
+            x1S,y1S,z1S,x2S,y2S,z2S,m11S,m12S,m22S,cayley,0);
       if( ev2 > 0.001 )
         randomTrialCount++;
       else
-- 
2.43.0


From 6de57b15882bb241bfa08e08705bfe5809c167d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:47 +0000
Subject: [PATCH 23/25] fix: sixpt spent seconds decomposing a non-finite
 action matrix

---
 src/relative_pose/modules/main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/relative_pose/modules/main.cpp b/src/relative_pose/modules/main.cpp
index e0316a2..919190a 100644
--- a/src/relative_pose/modules/main.cpp
+++ b/src/relative_pose/modules/main.cpp
@@ -718,6 +718,8 @@ opengv::relative_pose::modules::sixpt_main(
   //setup the action matrix
   Eigen::Matrix<double,64,64> Action = Eigen::Matrix<double,64,64>::Zero();
   sixpt::setupAction( L1vec, L2vec, Action );
+  if( !Action.allFinite() )
+    return; //singular elimination template, there are no solutions
   
   //finally eigen-decompose the action-matrix and obtain the solutions
   Eigen::EigenSolver< Eigen::Matrix<double,64,64> > Eig(Action,true);
-- 
2.43.0


From 0d59db2917784345ce8a03e27ef8a5ee9386672e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:46 +0000
Subject: [PATCH 24/25] fix: hypotheses of MultiCentralRelativePoseSacProblem
 contained no pose

---
 .../MultiCentralRelativePoseSacProblem.cpp    | 42 +++++++++++++++++--
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp
index 5a52a0f..f9e51d1 100644
--- a/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp
@@ -33,6 +33,8 @@
 
 #include <opengv/relative_pose/methods.hpp>
 #include <opengv/triangulation/methods.hpp>
+#include <limits>
+
 #include <Eigen/NonLinearOptimization>
 #include <Eigen/NumericalDiff>
 
@@ -101,13 +103,45 @@ opengv::sac_problems::
   }
 
 
+  outModel.clear();
+
   for(size_t pairIndex = 0; pairIndex < _adapter.getNumberPairs(); pairIndex++)
   {
     //For each pair, find the right rotation and translation by our critera
-    //
-    //
-    //fill outModel with that (it is a vector of transformations. A
-    //transformation is 3x4 with R from frame 2 to 1, and position of 2 in 1)
+    //(the distances of the sample) and fill outModel with that (it is a vector
+    //of transformations. A transformation is 3x4 with R from frame 2 to 1, and
+    //position of 2 in 1)
+    std::vector<std::vector<int> > pairIndices(indices.size());
+    pairIndices[pairIndex] = indices[pairIndex];
+
+    double bestQuality = std::numeric_limits<double>::infinity();
+    transformation_t bestTransformation;
+
+    for(size_t i = 0; i < 4; i++)
+    {
+      transformation_t transformation;
+      transformation.col(3) = (*multiTranslations[pairIndex])[i/2];
+      transformation.block<3,3>(0,0) = (*multiRotations[pairIndex])[i%2];
+
+      std::vector<std::vector<double> > scores(indices.size());
+      getSelectedDistancesToModel(
+          model_t(indices.size(),transformation), pairIndices, scores );
+
+      double quality = 0.0;
+      for(size_t k = 0; k < scores[pairIndex].size(); k++)
+        quality += scores[pairIndex][k];
+
+      if( quality < bestQuality )
+      {
+        bestQuality = quality;
+        bestTransformation = transformation;
+      }
+    }
+
+    if( bestQuality == std::numeric_limits<double>::infinity() )
+      return false; // no solution found
+
+    outModel.push_back(bestTransformation);
   }
 
   return true;
-- 
2.43.0


From f608115aa2c47dc717628302e90921c7493f613e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:53 +0000
Subject: [PATCH 25/25] fix: optimize_nonlinear failed for rotations close to a
 half turn

---
 include/opengv/math/cayley.hpp | 10 ++++++++++
 src/absolute_pose/methods.cpp  | 14 +++++++++-----
 src/math/cayley.cpp            | 15 +++++++++++++++
 src/point_cloud/methods.cpp    | 14 +++++++++-----
 src/relative_pose/methods.cpp  | 14 +++++++++-----
 5 files changed, 52 insertions(+), 15 deletions(-)

diff --git a/include/opengv/math/cayley.hpp b/include/opengv/math/cayley.hpp
index 42236b3..fac11a6 100644
--- a/include/opengv/math/cayley.hpp
+++ b/include/opengv/math/cayley.hpp
@@ -78,6 +78,16 @@ rotation_t cayley2rot_reduced( const cayley_t & cayley);
  */
 cayley_t rot2cayley( const rotation_t & R );
 
+/**
+ * \brief Compute an origin for local Cayley-parameters. The Cayley-parameters
+ *        of a rotation become infinite for half turns. Those of
+ *        origin.transpose()*R remain in [-1;1].
+ *
+ * \param[in] R The 3x3 rotation matrix.
+ * \return The identity, or the half turn about a coordinate axis closest to R.
+ */
+rotation_t cayleyOrigin( const rotation_t & R );
+
 }
 }
 
diff --git a/src/absolute_pose/methods.cpp b/src/absolute_pose/methods.cpp
index c7ca3a2..939c206 100644
--- a/src/absolute_pose/methods.cpp
+++ b/src/absolute_pose/methods.cpp
@@ -720,13 +720,15 @@ struct OptimizeNonlinearFunctor1 : OptimizationFunctor<double>
 {
   const AbsoluteAdapterBase & _adapter;
   const Indices & _indices;
+  const rotation_t _origin;
 
   OptimizeNonlinearFunctor1(
       const AbsoluteAdapterBase & adapter,
       const Indices & indices ) :
       OptimizationFunctor<double>(6,indices.size()),
       _adapter(adapter),
-      _indices(indices) {}
+      _indices(indices),
+      _origin(math::cayleyOrigin(adapter.getR())) {}
 
   int operator()(const VectorXd &x, VectorXd &fvec) const
   {
@@ -736,7 +738,7 @@ struct OptimizeNonlinearFunctor1 : OptimizationFunctor<double>
     //compute the current position
     translation_t translation = x.block<3,1>(0,0);
     cayley_t cayley = x.block<3,1>(3,0);
-    rotation_t rotation = math::cayley2rot(cayley);
+    rotation_t rotation = _origin * math::cayley2rot(cayley);
 
     //compute inverse transformation
     transformation_t inverseSolution;
@@ -776,10 +778,11 @@ transformation_t optimize_nonlinear(
   const int n=6;
   VectorXd x(n);
 
+  OptimizeNonlinearFunctor1 functor( adapter, indices );
   x.block<3,1>(0,0) = adapter.gett();
-  x.block<3,1>(3,0) = math::rot2cayley(adapter.getR());
+  x.block<3,1>(3,0) = math::rot2cayley(
+      functor._origin.transpose() * adapter.getR() );
 
-  OptimizeNonlinearFunctor1 functor( adapter, indices );
   NumericalDiff<OptimizeNonlinearFunctor1> numDiff(functor);
   LevenbergMarquardt< NumericalDiff<OptimizeNonlinearFunctor1> > lm(numDiff);
 
@@ -791,7 +794,8 @@ transformation_t optimize_nonlinear(
 
   transformation_t transformation;
   transformation.col(3) = x.block<3,1>(0,0);
-  transformation.block<3,3>(0,0) = math::cayley2rot(x.block<3,1>(3,0));
+  transformation.block<3,3>(0,0) =
+      functor._origin * math::cayley2rot(x.block<3,1>(3,0));
   return transformation;
 }
 
diff --git a/src/math/cayley.cpp b/src/math/cayley.cpp
index 6e3e5db..72bc095 100644
--- a/src/math/cayley.cpp
+++ b/src/math/cayley.cpp
@@ -86,3 +86,18 @@ opengv::math::rot2cayley( const rotation_t & R )
 
   return cayley;
 }
+
+opengv::rotation_t
+opengv::math::cayleyOrigin( const rotation_t & R )
+{
+  //the candidates are diagonal, the closest one has the highest correlation
+  Eigen::Vector3d best(1.0,1.0,1.0);
+  for( int axis = 0; axis < 3; axis++ )
+  {
+    Eigen::Vector3d halfTurn(-1.0,-1.0,-1.0);
+    halfTurn[axis] = 1.0;
+    if( halfTurn.dot(R.diagonal()) > best.dot(R.diagonal()) )
+      best = halfTurn;
+  }
+  return best.asDiagonal();
+}
diff --git a/src/point_cloud/methods.cpp b/src/point_cloud/methods.cpp
index 5409eeb..382b959 100644
--- a/src/point_cloud/methods.cpp
+++ b/src/point_cloud/methods.cpp
@@ -113,13 +113,15 @@ struct OptimizeNonlinearFunctor1 : OptimizationFunctor<double>
 {
   PointCloudAdapterBase & _adapter;
   const Indices & _indices;
+  const rotation_t _origin;
 
   OptimizeNonlinearFunctor1(
       PointCloudAdapterBase & adapter,
       const Indices & indices ) :
       OptimizationFunctor<double>(6,indices.size()),
       _adapter(adapter),
-      _indices(indices) {}
+      _indices(indices),
+      _origin(math::cayleyOrigin(adapter.getR12())) {}
 
   int operator()(const VectorXd &x, VectorXd &fvec) const
   {
@@ -130,7 +132,7 @@ struct OptimizeNonlinearFunctor1 : OptimizationFunctor<double>
     transformation_t transformation;
     transformation.col(3) = x.block<3,1>(0,0);
     cayley_t cayley = x.block<3,1>(3,0);
-    transformation.block<3,3>(0,0) = math::cayley2rot(cayley);
+    transformation.block<3,3>(0,0) = _origin * math::cayley2rot(cayley);
 
     Eigen::Matrix<double,4,1> p_hom;
     p_hom[3] = 1.0;
@@ -154,10 +156,11 @@ transformation_t optimize_nonlinear(
   const int n=6;
   VectorXd x(n);
 
+  OptimizeNonlinearFunctor1 functor( adapter, indices );
   x.block<3,1>(0,0) = adapter.gett12();
-  x.block<3,1>(3,0) = math::rot2cayley(adapter.getR12());
+  x.block<3,1>(3,0) = math::rot2cayley(
+      functor._origin.transpose() * adapter.getR12() );
 
-  OptimizeNonlinearFunctor1 functor( adapter, indices );
   NumericalDiff<OptimizeNonlinearFunctor1 > numDiff(functor);
   LevenbergMarquardt< NumericalDiff<OptimizeNonlinearFunctor1 > > lm(numDiff);
 
@@ -169,7 +172,8 @@ transformation_t optimize_nonlinear(
 
   transformation_t transformation;
   transformation.col(3) = x.block<3,1>(0,0);
-  transformation.block<3,3>(0,0) = math::cayley2rot(x.block<3,1>(3,0));
+  transformation.block<3,3>(0,0) =
+      functor._origin * math::cayley2rot(x.block<3,1>(3,0));
   return transformation;
 }
 
diff --git a/src/relative_pose/methods.cpp b/src/relative_pose/methods.cpp
index b520516..31b0882 100644
--- a/src/relative_pose/methods.cpp
+++ b/src/relative_pose/methods.cpp
@@ -1088,13 +1088,15 @@ struct OptimizeNonlinearFunctor1 : OptimizationFunctor<double>
 {
   RelativeAdapterBase & _adapter;
   const Indices & _indices;
+  const rotation_t _origin;
 
   OptimizeNonlinearFunctor1(
       RelativeAdapterBase & adapter,
       const Indices & indices ) :
       OptimizationFunctor<double>(6,indices.size()),
       _adapter(adapter),
-      _indices(indices) {}
+      _indices(indices),
+      _origin(math::cayleyOrigin(adapter.getR12())) {}
 
   int operator()(const VectorXd &x, VectorXd &fvec) const
   {
@@ -1104,7 +1106,7 @@ struct OptimizeNonlinearFunctor1 : OptimizationFunctor<double>
     //compute the current position
     translation_t translation = x.block<3,1>(0,0);
     cayley_t cayley = x.block<3,1>(3,0);
-    rotation_t rotation = math::cayley2rot(cayley);
+    rotation_t rotation = _origin * math::cayley2rot(cayley);
 
     Eigen::Matrix<double,4,1> p_hom;
     p_hom[3] = 1.0;
@@ -1158,10 +1160,11 @@ transformation_t optimize_nonlinear(
   const int n=6;
   VectorXd x(n);
 
+  OptimizeNonlinearFunctor1 functor( adapter, indices );
   x.block<3,1>(0,0) = adapter.gett12();
-  x.block<3,1>(3,0) = math::rot2cayley(adapter.getR12());
+  x.block<3,1>(3,0) = math::rot2cayley(
+      functor._origin.transpose() * adapter.getR12() );
 
-  OptimizeNonlinearFunctor1 functor( adapter, indices );
   NumericalDiff<OptimizeNonlinearFunctor1> numDiff(functor);
   LevenbergMarquardt< NumericalDiff<OptimizeNonlinearFunctor1> >
       lm(numDiff);
@@ -1174,7 +1177,8 @@ transformation_t optimize_nonlinear(
 
   transformation_t transformation;
   transformation.col(3) = x.block<3,1>(0,0);
-  transformation.block<3,3>(0,0) = math::cayley2rot(x.block<3,1>(3,0));
+  transformation.block<3,3>(0,0) =
+      functor._origin * math::cayley2rot(x.block<3,1>(3,0));
   return transformation;
 }
 
-- 
2.43.0

