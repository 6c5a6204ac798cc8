From 48588cfddee78aa0be88f5bf8d55d73a2f347119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:40 +0000
Subject: [PATCH 01/86] fix: Jacobian derivative wrote past its output when
 joints are locked

Only unlocked joints have a column in the output, but a column was written
for every joint of the chain.
---
 orocos_kdl/src/chainjnttojacdotsolver.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/orocos_kdl/src/chainjnttojacdotsolver.cpp b/orocos_kdl/src/chainjnttojacdotsolver.cpp
index 9bb7e11..e6ee4c1 100644
--- a/orocos_kdl/src/chainjnttojacdotsolver.cpp
+++ b/orocos_kdl/src/chainjnttojacdotsolver.cpp
@@ -102,20 +102,24 @@ int ChainJntToJacDotSolver::JntToJacDot(const JntArrayVel& q_in, Jacobian& jdot,
     }
 
     // Let's compute Jdot in the corresponding representation
-    int k=0;
+    int k=0; // column of jdot
+    int joint=0; // joint (and column of jac_) of this segment
     for(unsigned int i=0;i<segmentNr;++i)
     {
         //Only increase joint nr if the segment has a joint
         if(chain.getSegment(i).getJoint().getType()!=Joint::Fixed) {
-
-            for(unsigned int j=0;j<chain.getNrOfJoints();++j)
-            {
-                // Column J is the sum of all partial derivatives  ref (41)
-                if(!locked_joints_[j])
-                    jac_dot_k_ += getPartialDerivative(jac_,j,k,representation_) * q_in.qdot(j);
+            //Only the unlocked joints have a column in jdot
+            if(!locked_joints_[joint]) {
+                for(unsigned int j=0;j<chain.getNrOfJoints();++j)
+                {
+                    // Column J is the sum of all partial derivatives  ref (41)
+                    if(!locked_joints_[j])
+                        jac_dot_k_ += getPartialDerivative(jac_,j,joint,representation_) * q_in.qdot(j);
+                }
+                jdot.setColumn(k++,jac_dot_k_);
+                SetToZero(jac_dot_k_);
             }
-            jdot.setColumn(k++,jac_dot_k_);
-            SetToZero(jac_dot_k_);
+            joint++;
         }
     }
 
-- 
2.43.0


From 2e99f307eeea1701a77fddb558ea789602529911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:40 +0000
Subject: [PATCH 02/86] fix: Jacobian derivative read past a joint velocity
 array of the wrong size

---
 orocos_kdl/src/chainjnttojacdotsolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainjnttojacdotsolver.cpp b/orocos_kdl/src/chainjnttojacdotsolver.cpp
index e6ee4c1..ad62dfd 100644
--- a/orocos_kdl/src/chainjnttojacdotsolver.cpp
+++ b/orocos_kdl/src/chainjnttojacdotsolver.cpp
@@ -76,7 +76,7 @@ int ChainJntToJacDotSolver::JntToJacDot(const JntArrayVel& q_in, Jacobian& jdot,
     //Initialize Jacobian to zero since only segmentNr columns are computed
     SetToZero(jdot) ;
 
-    if(q_in.q.rows()!=chain.getNrOfJoints() || nr_of_unlocked_joints_!=jdot.columns())
+    if(q_in.q.rows()!=chain.getNrOfJoints() || q_in.qdot.rows()!=chain.getNrOfJoints() || nr_of_unlocked_joints_!=jdot.columns())
         return (error = E_SIZE_MISMATCH);
     else if(segmentNr>chain.getNrOfSegments())
         return (error = E_OUT_OF_RANGE);
-- 
2.43.0


From cada2dcec056158cbc1a712735c9ec93dbebabb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:11 +0000
Subject: [PATCH 03/86] fix: hybrid dynamics solver indexed joint arrays out of
 range for chains with fixed joints

---
 orocos_kdl/src/chainhdsolver_vereshchagin.cpp | 33 +++++++++++++------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
index 75f58e9..1ff4bef 100644
--- a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
+++ b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
@@ -89,18 +89,22 @@ void ChainHdSolver_Vereshchagin::initial_upwards_sweep(const JntArray &q, const
         //Calculate segment properties: X,S,vj,cj
         const Segment& segment = chain.getSegment(i);
         segment_info& s = results[i + 1];
+        //A fixed joint has no entry in the joint arrays
+        const bool fixed = segment.getJoint().getType() == Joint::Fixed;
+        const double q_ = fixed ? 0.0 : q(j);
+        const double qdot_ = fixed ? 0.0 : qdot(j);
         //The pose between the joint root and the segment tip (tip expressed in joint root coordinates)
-        s.F = segment.pose(q(j)); //X pose of each link in link coord system
+        s.F = segment.pose(q_); //X pose of each link in link coord system
 
         F_total = F_total * s.F; //X pose of the each link in root coord system
         s.F_base = F_total; //X pose of the each link in root coord system for getter functions
 
         //The velocity due to the joint motion of the segment expressed in the segments reference frame (tip)
-        Twist vj = s.F.M.Inverse(segment.twist(q(j), qdot(j))); //XDot of each link
+        Twist vj = s.F.M.Inverse(segment.twist(q_, qdot_)); //XDot of each link
         //Twist aj = s.F.M.Inverse(segment.twist(q(j), qdotdot(j))); //XDotDot of each link
 
         //The unit velocity due to the joint motion of the segment expressed in the segments reference frame (tip)
-        s.Z = s.F.M.Inverse(segment.twist(q(j), 1.0));
+        s.Z = s.F.M.Inverse(segment.twist(q_, 1.0));
         //Put Z in the joint root reference frame:
         s.Z = s.F * s.Z;
 
@@ -129,7 +133,7 @@ void ChainHdSolver_Vereshchagin::initial_upwards_sweep(const JntArray &q, const
         //external forces are taken into account through s.U.
         Wrench FextLocal = F_total.M.Inverse() * f_ext[i];
         s.U = s.v * (s.H * s.v) - FextLocal; //f_ext[i];
-        if (segment.getJoint().getType() != Joint::Fixed)
+        if (!fixed)
             j++;
     }
 
@@ -235,10 +239,11 @@ void ChainHdSolver_Vereshchagin::downwards_sweep(const Jacobian& alfa, const Jnt
              * - equation a) in Vereshchagin89
              * - equation 9.28, page 188, Featherstone book 2008
              */
-            if (chain.getSegment(i - 1).getJoint().getType() != Joint::Fixed)
+            const bool fixed = chain.getSegment(i - 1).getJoint().getType() == Joint::Fixed;
+            if (!fixed)
                 s.D = chain.getSegment(i - 1).getJoint().getInertia() + dot(s.Z, s.PZ);
             else
-                s.D = dot(s.Z, s.PZ);
+                s.D = 1.0; //Z is zero: all the terms divided by D vanish
 
             s.PC = s.P * s.C;
 
@@ -248,14 +253,14 @@ void ChainHdSolver_Vereshchagin::downwards_sweep(const Jacobian& alfa, const Jnt
 
             //projection of coriolis and centrepital forces into joint subspace (0 0 Z)
             s.totalBias = -dot(s.Z, s.R + s.PC);
-            s.u = ff_torques(j) + s.totalBias;
+            s.u = fixed ? 0.0 : ff_torques(j) + s.totalBias;
 
             //Matrix form of Z, put rotations above translations
             Vector6d vZ;
             vZ << Eigen::Vector3d::Map(s.Z.rot.data), Eigen::Vector3d::Map(s.Z.vel.data);
             s.EZ.noalias() = s.E.transpose() * vZ;
 
-            if (chain.getSegment(i - 1).getJoint().getType() != Joint::Fixed)
+            if (!fixed)
                 j--;
         }
     }
@@ -317,6 +322,15 @@ void ChainHdSolver_Vereshchagin::final_upwards_sweep(JntArray &q_dotdot, JntArra
             a_p = results[i - 1].acc;
         }
 
+        //A fixed joint has no torque and no acceleration of its own
+        if (chain.getSegment(i - 1).getJoint().getType() == Joint::Fixed)
+        {
+            s.constAccComp = 0.0;
+            s.nullspaceAccComp = 0.0;
+            s.acc = s.F.Inverse(a_p + s.C);
+            continue;
+        }
+
         //The contribution of the constraint forces at segment i
         Vector6d tmp = s.E*nu;
         Wrench constraint_force = Wrench(Vector(tmp(3), tmp(4), tmp(5)),
@@ -343,8 +357,7 @@ void ChainHdSolver_Vereshchagin::final_upwards_sweep(JntArray &q_dotdot, JntArra
         q_dotdot(j) = (s.nullspaceAccComp + parentAccComp + s.constAccComp);
         // Returns segment's spatial acceleration in link distal-tip coordinates. For use needs to be transformed
         s.acc = s.F.Inverse(a_p + s.Z * q_dotdot(j) + s.C);
-        if (chain.getSegment(i - 1).getJoint().getType() != Joint::Fixed)
-            j++;
+        j++;
     }
 }
 
-- 
2.43.0


From 3fdfad3f03ca38f819b65a8368b411af0ce58b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:18 +0000
Subject: [PATCH 04/86] fix: hybrid dynamics solver accepted a chain whose
 number of joints had changed

---
 orocos_kdl/src/chainhdsolver_vereshchagin.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
index 1ff4bef..184b859 100644
--- a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
+++ b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
@@ -56,8 +56,7 @@ void ChainHdSolver_Vereshchagin::updateInternalDataStructures() {
 int ChainHdSolver_Vereshchagin::CartToJnt(const JntArray &q, const JntArray &q_dot, JntArray &q_dotdot, const Jacobian& alfa, const JntArray& beta, const Wrenches& f_ext, const JntArray &ff_torques, JntArray &constraint_torques)
 {
     //Check sizes always
-    nj = chain.getNrOfJoints();
-    if(ns != chain.getNrOfSegments())
+    if(nj != chain.getNrOfJoints() || ns != chain.getNrOfSegments())
         return (error = E_NOT_UP_TO_DATE);
     if (q.rows() != nj || q_dot.rows() != nj || q_dotdot.rows() != nj || ff_torques.rows() != nj || constraint_torques.rows() != nj || f_ext.size() != ns)
         return (error = E_SIZE_MISMATCH);
-- 
2.43.0


From d2981176bdcfb1222a50e611b6444d1cb322c325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:22 +0000
Subject: [PATCH 05/86] fix: forward dynamics solver stayed out of date after
 its update

---
 .../src/chainfdsolver_recursive_newton_euler.cpp       | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp b/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
index 6e01c49..cb611c2 100644
--- a/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
+++ b/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
@@ -46,6 +46,16 @@ namespace KDL{
     void ChainFdSolver_RNE::updateInternalDataStructures() {
         nj = chain.getNrOfJoints();
         ns = chain.getNrOfSegments();
+        DynSolver.updateInternalDataStructures();
+        IdSolver.updateInternalDataStructures();
+        H.resize(nj);
+        Tzeroacc.resize(nj);
+        H_eig.resize(nj,nj);
+        Tzeroacc_eig.resize(nj);
+        L_eig.resize(nj,nj);
+        D_eig.resize(nj);
+        r_eig.resize(nj);
+        acc_eig.resize(nj);
     }
 
     int ChainFdSolver_RNE::CartToJnt(const JntArray &q, const JntArray &q_dot, const JntArray &torques, const Wrenches& f_ext, JntArray &q_dotdot)
-- 
2.43.0


From 51453be9cdbba12b55daa58bb1d244c3ee809eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:18 +0000
Subject: [PATCH 06/86] fix: default lower joint limits of the limited position
 solver were the smallest positive number

---
 orocos_kdl/src/chainiksolverpos_nr_jl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolverpos_nr_jl.cpp b/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
index bb30c45..95166ce 100644
--- a/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
+++ b/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
@@ -46,13 +46,13 @@ namespace KDL
          delta_q(nj),
          maxiter(_maxiter),eps(_eps)
     {
-        q_min.data.setConstant(std::numeric_limits<double>::min());
+        q_min.data.setConstant(-std::numeric_limits<double>::max());
         q_max.data.setConstant(std::numeric_limits<double>::max());
     }
 
     void ChainIkSolverPos_NR_JL::updateInternalDataStructures() {
        nj = chain.getNrOfJoints();
-       q_min.data.conservativeResizeLike(Eigen::VectorXd::Constant(nj,std::numeric_limits<double>::min()));
+       q_min.data.conservativeResizeLike(Eigen::VectorXd::Constant(nj,-std::numeric_limits<double>::max()));
        q_max.data.conservativeResizeLike(Eigen::VectorXd::Constant(nj,std::numeric_limits<double>::max()));
        iksolver.updateInternalDataStructures();
        fksolver.updateInternalDataStructures();
-- 
2.43.0


From beef68a507c14cceef19015f0b3c66c50d75326e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:10 +0000
Subject: [PATCH 07/86] fix: Givens velocity solver dropped part of the
 Jacobian and kept stale or undefined decompositions

---
 .../src/chainiksolvervel_pinv_givens.cpp      | 10 +++---
 orocos_kdl/src/utilities/svd_eigen_Macie.cpp  | 31 +++++++++----------
 2 files changed, 20 insertions(+), 21 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_pinv_givens.cpp b/orocos_kdl/src/chainiksolvervel_pinv_givens.cpp
index fbf102b..ce81339 100644
--- a/orocos_kdl/src/chainiksolvervel_pinv_givens.cpp
+++ b/orocos_kdl/src/chainiksolvervel_pinv_givens.cpp
@@ -53,12 +53,12 @@ namespace KDL
         m = static_cast<unsigned int>(max(6,nj));
         n = static_cast<unsigned int>(min(6,nj));
         jac_eigen.conservativeResize(m,n);
-        U.conservativeResizeLike(Eigen::MatrixXd::Identity(m,m));
-        V.conservativeResizeLike(Eigen::MatrixXd::Identity(n,n));
+        U = Eigen::MatrixXd::Identity(m,m);
+        V = Eigen::MatrixXd::Identity(n,n);
         B.conservativeResize(m,n);
         S.conservativeResize(n);
         tempi.conservativeResize(m);
-        SUY.conservativeResizeLike(Eigen::VectorXd::Zero(nj));
+        SUY = Eigen::VectorXd::Zero(nj);
         qdot_eigen.conservativeResize(nj);
     }
 
@@ -75,8 +75,8 @@ namespace KDL
         if (nj != q_in.rows() || nj != qdot_out.rows())
             return (error = E_SIZE_MISMATCH);
 
-        toggle=!toggle;
-
+        //Always rotate the columns: rotating the rows needs the full orthonormal
+        //U, which is not available when jac_eigen is not square or loses rank
         error = jnt2jac.JntToJac(q_in,jac);
         if (E_NOERROR > error )
             return error;
diff --git a/orocos_kdl/src/utilities/svd_eigen_Macie.cpp b/orocos_kdl/src/utilities/svd_eigen_Macie.cpp
index c0fce47..5fa1830 100644
--- a/orocos_kdl/src/utilities/svd_eigen_Macie.cpp
+++ b/orocos_kdl/src/utilities/svd_eigen_Macie.cpp
@@ -46,7 +46,7 @@ namespace KDL{
                         double alpha = pow(p,2.0)/(qi*qj);
                         //if columns are orthogonal with precision
                         //threshold, don't perform rotation and continue
-                        if(alpha<threshold)
+                        if(!(alpha>=threshold))
                             continue;
                         rotations++;
                         double c = sqrt(4*pow(p,2.0)+pow(q,2.0));
@@ -75,22 +75,21 @@ namespace KDL{
                         rotate=true;
                     }
                 }
-                //Only calculate new U and S if there were any rotations
-                if(rotations!=0){
-                    for(unsigned int i=0;i<U.rows();i++) {
-                        if(i<B.cols()){
-                            double si=sqrt(B.col(i).dot(B.col(i)));
-                            if(si==0)
-                                U.col(i) = B.col(i);
-                            else
-                                U.col(i) = B.col(i)/si;
-                            S(i)=si;
-                        }
-                        else
-                            U.col(i) = 0*tempi;
-                    }
+                if(rotations!=0)
                     sweeps++;
+            }
+            //A may have changed without needing any rotation: always calculate U and S
+            for(unsigned int i=0;i<U.rows();i++) {
+                if(i<B.cols()){
+                    double si=sqrt(B.col(i).dot(B.col(i)));
+                    if(si==0)
+                        U.col(i) = B.col(i);
+                    else
+                        U.col(i) = B.col(i)/si;
+                    S(i)=si;
                 }
+                else
+                    U.col(i).setZero();
             }
             return sweeps;
         }else{
@@ -112,7 +111,7 @@ namespace KDL{
                         //if columns are orthogonal with precision
                         //threshold, don't perform rotation and
                         //continue
-                        if(alpha<threshold)
+                        if(!(alpha>=threshold))
                             continue;
                         rotations++;
                         double c = sqrt(4*pow(p,2.0)+pow(q,2.0));
-- 
2.43.0


From 046f3946959238cc4006750e120bad25f948fb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:20 +0000
Subject: [PATCH 08/86] fix: null-space velocity solver wrote past its scratch
 vector with fewer than six joints

---
 orocos_kdl/src/chainiksolvervel_pinv_nso.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp b/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
index 1b04795..7d0b43d 100644
--- a/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
+++ b/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
@@ -113,11 +113,12 @@ namespace KDL
         for (i = 0; i < nj; ++i) {
             Sinv(i) = fabs(S(i))<eps ? 0.0 : 1.0/S(i);
         }
+        Eigen::Matrix<double,6,1> v;
         for (i = 0; i < 6; ++i) {
-            tmp(i) = v_in(i);
+            v(i) = v_in(i);
         }
 
-        qdot_out.data = V * Sinv.asDiagonal() * U.transpose() * tmp.head(6);
+        qdot_out.data = V * Sinv.asDiagonal() * U.transpose() * v;
 
         // Now onto NULL space
         // Given the cost function g, and the current joints q, desired joints qd, and weights w:
-- 
2.43.0


From c247ab1fcf5ae008501c2ffd84aae33f37393d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:25 +0000
Subject: [PATCH 09/86] fix: damped velocity solver read past its decomposition
 with fewer than six joints

---
 orocos_kdl/src/chainiksolvervel_wdls.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainiksolvervel_wdls.cpp b/orocos_kdl/src/chainiksolvervel_wdls.cpp
index a2f37ae..7573af4 100644
--- a/orocos_kdl/src/chainiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/chainiksolvervel_wdls.cpp
@@ -151,7 +151,9 @@ namespace KDL
         }
 
         //Pre-multiply U and V by the task space and joint space weighting matrix respectively
-        tmp_ts = weight_ts.lazyProduct(U.topLeftCorner(6,6));
+        // U has one column per joint, of which only the first six can be non-zero
+        const unsigned int nc = nj < 6 ? nj : 6;
+        tmp_ts.leftCols(nc) = weight_ts.lazyProduct(U.leftCols(nc));
         tmp_js = weight_js.lazyProduct(V);
 
         // Minimum of six largest singular values of J is S(5) if number of joints >=6 and 0 for <6
-- 
2.43.0


From 8d45fbc26f40c4cbe49dbc3e756a406bb3d9088c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:52 +0000
Subject: [PATCH 10/86] fix: singular poses were never reported for robots with
 fewer than six joints

---
 orocos_kdl/src/chainiksolvervel_pinv.cpp | 2 +-
 orocos_kdl/src/chainiksolvervel_wdls.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_pinv.cpp b/orocos_kdl/src/chainiksolvervel_pinv.cpp
index 4ecc0cc..fb54dd7 100644
--- a/orocos_kdl/src/chainiksolvervel_pinv.cpp
+++ b/orocos_kdl/src/chainiksolvervel_pinv.cpp
@@ -122,7 +122,7 @@ namespace KDL
 
         // Note if the solution is singular, i.e. if number of near zero
         // singular values is greater than the full rank of jac
-        if ( nrZeroSigmas > (jac.columns()-jac.rows()) ) {
+        if ( nrZeroSigmas > (jac.columns()>jac.rows() ? jac.columns()-jac.rows() : 0) ) {
             return (error = E_CONVERGE_PINV_SINGULAR);   // converged but pinv singular
         } else {
             return (error = E_NOERROR);                 // have converged
diff --git a/orocos_kdl/src/chainiksolvervel_wdls.cpp b/orocos_kdl/src/chainiksolvervel_wdls.cpp
index 7573af4..ae399ed 100644
--- a/orocos_kdl/src/chainiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/chainiksolvervel_wdls.cpp
@@ -210,7 +210,7 @@ namespace KDL
 
         // If number of near zero singular values is greater than the full rank
         // of jac, then wdls is active
-        if ( nrZeroSigmas > (jac.columns()-jac.rows()) ) {
+        if ( nrZeroSigmas > (jac.columns()>jac.rows() ? jac.columns()-jac.rows() : 0) ) {
             return (error = E_CONVERGE_PINV_SINGULAR);  // converged but pinv singular
         } else {
             return (error = E_NOERROR);                 // have converged
-- 
2.43.0


From ad750a33d5959db5f3ad14c2c3793a738b3f4aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:57 +0000
Subject: [PATCH 11/86] fix: damped velocity solver accepted weight matrices of
 the wrong shape

---
 orocos_kdl/src/chainiksolvervel_wdls.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_wdls.cpp b/orocos_kdl/src/chainiksolvervel_wdls.cpp
index ae399ed..ef2fab2 100644
--- a/orocos_kdl/src/chainiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/chainiksolvervel_wdls.cpp
@@ -77,14 +77,14 @@ namespace KDL
         if(nj != chain.getNrOfJoints())
             return (error = E_NOT_UP_TO_DATE);
 
-        if (Mq.size() != weight_js.size())
+        if (Mq.rows() != weight_js.rows() || Mq.cols() != weight_js.cols())
             return (error = E_SIZE_MISMATCH);
         weight_js = Mq;
         return (error = E_NOERROR);
     }
     
     int ChainIkSolverVel_wdls::setWeightTS(const Eigen::MatrixXd& Mx){
-        if (Mx.size() != weight_ts.size())
+        if (Mx.rows() != weight_ts.rows() || Mx.cols() != weight_ts.cols())
             return (error = E_SIZE_MISMATCH);
         weight_ts = Mx;
         return (error = E_NOERROR);
-- 
2.43.0


From d0b67e30c8512dcc7b25ffb4758ea4f7c4da860f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:54 +0000
Subject: [PATCH 12/86] fix: several calls returned a code without recording it
 as the last error

---
 orocos_kdl/src/chaindynparam.cpp              |  4 ++--
 orocos_kdl/src/chainfksolverpos_recursive.cpp | 10 +++++-----
 orocos_kdl/src/chainfksolvervel_recursive.cpp | 10 +++++-----
 orocos_kdl/src/chainiksolverpos_nr.cpp        |  2 +-
 orocos_kdl/src/chainiksolvervel_pinv_nso.cpp  |  2 +-
 orocos_kdl/src/chainiksolvervel_wdls.hpp      |  2 +-
 orocos_kdl/src/chainjnttojacdotsolver.cpp     |  2 +-
 7 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/orocos_kdl/src/chaindynparam.cpp b/orocos_kdl/src/chaindynparam.cpp
index f9f9fb9..4a3b63e 100644
--- a/orocos_kdl/src/chaindynparam.cpp
+++ b/orocos_kdl/src/chaindynparam.cpp
@@ -131,7 +131,7 @@ namespace KDL {
 
 
 	//the calculation of coriolis matrix C
-	return chainidsolver_coriolis.CartToJnt(q, q_dot, jntarraynull, wrenchnull, coriolis);
+	return (error = chainidsolver_coriolis.CartToJnt(q, q_dot, jntarraynull, wrenchnull, coriolis));
 
     }
 
@@ -143,7 +143,7 @@ namespace KDL {
 
 	SetToZero(jntarraynull);
 	//the calculation of coriolis matrix C
-	return chainidsolver_gravity.CartToJnt(q, jntarraynull, jntarraynull, wrenchnull, gravity);
+	return (error = chainidsolver_gravity.CartToJnt(q, jntarraynull, jntarraynull, wrenchnull, gravity));
     }
 
     ChainDynParam::~ChainDynParam()
diff --git a/orocos_kdl/src/chainfksolverpos_recursive.cpp b/orocos_kdl/src/chainfksolverpos_recursive.cpp
index 487569c..c0e016d 100644
--- a/orocos_kdl/src/chainfksolverpos_recursive.cpp
+++ b/orocos_kdl/src/chainfksolverpos_recursive.cpp
@@ -65,13 +65,13 @@ namespace KDL {
             segmentNr = seg_nr;
 
         if(q_in.rows()!=chain.getNrOfJoints())
-            return -1;
+            return (error = E_SIZE_MISMATCH);
         else if(segmentNr>chain.getNrOfSegments())
-            return -1;
+            return (error = E_OUT_OF_RANGE);
         else if(p_out.size() != segmentNr)
-            return -1;
+            return (error = E_SIZE_MISMATCH);
         else if(segmentNr == 0)
-            return -1;
+            return (error = E_OUT_OF_RANGE);
         else{
             int j=0;
             // Initialization
@@ -89,7 +89,7 @@ namespace KDL {
                     p_out[i] = p_out[i-1]*chain.getSegment(i).pose(0.0);
                 }
             }
-            return 0;
+            return (error = E_NOERROR);
         }
     }
 
diff --git a/orocos_kdl/src/chainfksolvervel_recursive.cpp b/orocos_kdl/src/chainfksolvervel_recursive.cpp
index 8957db0..ec485f1 100644
--- a/orocos_kdl/src/chainfksolvervel_recursive.cpp
+++ b/orocos_kdl/src/chainfksolvervel_recursive.cpp
@@ -76,13 +76,13 @@ namespace KDL
 
 
         if(!(in.q.rows()==chain.getNrOfJoints()&&in.qdot.rows()==chain.getNrOfJoints()))
-            return -1;
+            return (error = E_SIZE_MISMATCH);
         else if(segmentNr>chain.getNrOfSegments())
-            return -1;
+            return (error = E_OUT_OF_RANGE);
         else if(out.size()!=segmentNr)
-            return -1;
+            return (error = E_SIZE_MISMATCH);
         else if(segmentNr == 0)
-            return -1;
+            return (error = E_OUT_OF_RANGE);
         else{
             int j=0;
             // Initialization
@@ -105,7 +105,7 @@ namespace KDL
                                      chain.getSegment(i).twist(0.0,0.0));
                 }
             }
-            return 0;
+            return (error = E_NOERROR);
         }
     }
 }
diff --git a/orocos_kdl/src/chainiksolverpos_nr.cpp b/orocos_kdl/src/chainiksolverpos_nr.cpp
index 79747bf..8d7f12d 100644
--- a/orocos_kdl/src/chainiksolverpos_nr.cpp
+++ b/orocos_kdl/src/chainiksolverpos_nr.cpp
@@ -62,7 +62,7 @@ namespace KDL
             Add(q_out,delta_q,q_out);
             if(Equal(delta_twist,Twist::Zero(),eps))
                 // converged, but possibly with a degraded solution
-                return (rc > E_NOERROR ? E_DEGRADED : E_NOERROR);
+                return (error = (rc > E_NOERROR ? E_DEGRADED : E_NOERROR));
         }
         return (error = E_MAX_ITERATIONS_EXCEEDED);        // failed to converge
     }
diff --git a/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp b/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
index 7d0b43d..56c7413 100644
--- a/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
+++ b/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
@@ -183,7 +183,7 @@ namespace KDL
     int ChainIkSolverVel_pinv_nso::setAlpha(const double _alpha)
     {
       alpha = _alpha;
-      return 0;
+      return (error = E_NOERROR);
     }
 
 
diff --git a/orocos_kdl/src/chainiksolvervel_wdls.hpp b/orocos_kdl/src/chainiksolvervel_wdls.hpp
index dbba19b..006f004 100644
--- a/orocos_kdl/src/chainiksolvervel_wdls.hpp
+++ b/orocos_kdl/src/chainiksolvervel_wdls.hpp
@@ -102,7 +102,7 @@ namespace KDL
          * not (yet) implemented.
          *
          */
-        virtual int CartToJnt(const JntArray& /*q_init*/, const FrameVel& /*v_in*/, JntArrayVel& /*q_out*/){return -1;};
+        virtual int CartToJnt(const JntArray& /*q_init*/, const FrameVel& /*v_in*/, JntArrayVel& /*q_out*/){return (error = E_NOT_IMPLEMENTED);};
 
         /**
          * Set the joint space weighting matrix
diff --git a/orocos_kdl/src/chainjnttojacdotsolver.cpp b/orocos_kdl/src/chainjnttojacdotsolver.cpp
index ad62dfd..a360e0a 100644
--- a/orocos_kdl/src/chainjnttojacdotsolver.cpp
+++ b/orocos_kdl/src/chainjnttojacdotsolver.cpp
@@ -231,7 +231,7 @@ void ChainJntToJacDotSolver::setRepresentation(const int& representation)
 int ChainJntToJacDotSolver::setLockedJoints(const std::vector<bool>& locked_joints)
 {
     if(locked_joints.size()!=locked_joints_.size())
-        return E_SIZE_MISMATCH;
+        return (error = E_SIZE_MISMATCH);
     locked_joints_=locked_joints;
     nr_of_unlocked_joints_=0;
     for(unsigned int i=0;i<locked_joints_.size();i++){
-- 
2.43.0


From 377ba40cae3eb51d409537ae8f909d45773e6916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:29 +0000
Subject: [PATCH 13/86] fix: wrench estimator mixed the momentum of an earlier
 start or robot into its estimate

---
 orocos_kdl/src/chainexternalwrenchestimator.cpp | 14 ++++++++++++--
 orocos_kdl/src/chainexternalwrenchestimator.hpp |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/chainexternalwrenchestimator.cpp b/orocos_kdl/src/chainexternalwrenchestimator.cpp
index 8c9d752..1a322b8 100644
--- a/orocos_kdl/src/chainexternalwrenchestimator.cpp
+++ b/orocos_kdl/src/chainexternalwrenchestimator.cpp
@@ -24,7 +24,7 @@ namespace KDL {
 
 ChainExternalWrenchEstimator::ChainExternalWrenchEstimator(const Chain &chain, const Vector &gravity, const double sample_frequency, const double estimation_gain, const double filter_constant, const double eps, const int maxiter) :
     CHAIN(chain),
-    DT_SEC(1.0 / sample_frequency), FILTER_CONST(filter_constant),
+    DT_SEC(1.0 / sample_frequency), FILTER_CONST(filter_constant), GAIN(estimation_gain),
     svd_eps(eps),
     svd_maxiter(maxiter),
     nj(CHAIN.getNrOfJoints()), ns(CHAIN.getNrOfSegments()),
@@ -64,7 +64,12 @@ void ChainExternalWrenchEstimator::updateInternalDataStructures()
     S.conservativeResizeLike(Eigen::VectorXd::Zero(6));
     S_inv.conservativeResizeLike(Eigen::VectorXd::Zero(6));
     tmp.conservativeResizeLike(Eigen::VectorXd::Zero(6));
-    ESTIMATION_GAIN.conservativeResizeLike(Eigen::VectorXd::Constant(nj, ESTIMATION_GAIN(0)));
+    // The momentum observed so far belongs to another robot: start again from zero
+    SetToZero(previous_jnt_mass_matrix);
+    SetToZero(initial_jnt_momentum);
+    SetToZero(estimated_momentum_integral);
+    SetToZero(filtered_estimated_ext_torque);
+    ESTIMATION_GAIN.conservativeResizeLike(Eigen::VectorXd::Constant(nj, GAIN));
     dynparam_solver.updateInternalDataStructures();
     jacobian_solver.updateInternalDataStructures();
     fk_pos_solver.updateInternalDataStructures();
@@ -74,6 +79,8 @@ void ChainExternalWrenchEstimator::updateInternalDataStructures()
 int ChainExternalWrenchEstimator::setInitialMomentum(const JntArray &joint_position, const JntArray &joint_velocity)
 {
     // Check sizes first
+    if (nj != CHAIN.getNrOfJoints() || ns != CHAIN.getNrOfSegments())
+        return (error = E_NOT_UP_TO_DATE);
     if (joint_position.rows() != nj || joint_velocity.rows() != nj)
         return (error = E_SIZE_MISMATCH);
 
@@ -83,6 +90,9 @@ int ChainExternalWrenchEstimator::setInitialMomentum(const JntArray &joint_posit
 
     initial_jnt_momentum.data = jnt_mass_matrix.data * joint_velocity.data;
 
+    // The change of inertia is counted from here on
+    previous_jnt_mass_matrix.data = jnt_mass_matrix.data;
+
     // Reset data because of the new momentum offset
     SetToZero(estimated_momentum_integral);
     SetToZero(filtered_estimated_ext_torque);
diff --git a/orocos_kdl/src/chainexternalwrenchestimator.hpp b/orocos_kdl/src/chainexternalwrenchestimator.hpp
index 3147a5d..f1a9c64 100644
--- a/orocos_kdl/src/chainexternalwrenchestimator.hpp
+++ b/orocos_kdl/src/chainexternalwrenchestimator.hpp
@@ -109,7 +109,7 @@ namespace KDL {
 
     private:
         const Chain &CHAIN;
-        const double DT_SEC, FILTER_CONST;
+        const double DT_SEC, FILTER_CONST, GAIN;
         double svd_eps;
         int svd_maxiter;
         unsigned int nj, ns;
-- 
2.43.0


From e36465cc3a34f0a2fc6cfe781cc2c6257bbb6537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:08 +0000
Subject: [PATCH 14/86] fix: singular value decompositions reported success
 when they had not converged or were given NaN

---
 orocos_kdl/src/utilities/svd_HH.cpp       | 12 ++++++++----
 orocos_kdl/src/utilities/svd_eigen_HH.cpp | 12 ++++++++----
 orocos_kdl/src/utilities/svd_eigen_HH.hpp |  3 ++-
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/orocos_kdl/src/utilities/svd_HH.cpp b/orocos_kdl/src/utilities/svd_HH.cpp
index b82467c..20dd793 100644
--- a/orocos_kdl/src/utilities/svd_HH.cpp
+++ b/orocos_kdl/src/utilities/svd_HH.cpp
@@ -23,6 +23,7 @@
 //Based on the svd of the KDL-0.2 library by Erwin Aertbelien
 
 #include "svd_HH.hpp"
+#include <limits>
 
 namespace KDL
 {
@@ -69,6 +70,11 @@ namespace KDL
         bool flag,maxarg1,maxarg2;
         double anorm(0),c(0),f(0),h(0),s(0),scale(0),x(0),y(0),z(0),g(0);
 
+        // infinities and NaN cannot be decomposed
+        for(i=0;i<rows;i++)
+            for(j=0;j<cols;j++)
+                if (!(fabs(jac(i,j))<=std::numeric_limits<double>::max())) return -1;
+
         for(i=0;i<rows;i++)
             for(j=0;j<cols;j++)
                 U[i](j)=jac(i,j);
@@ -261,11 +267,9 @@ namespace KDL
                 tmp(k)=f;
                 w(k)=x;
             }
+            if (its > maxiter) return (-2);
         }
-        if (its == maxiter)
-            return (-2);
-        else
-            return (0);
+        return (0);
     }
 
 }
diff --git a/orocos_kdl/src/utilities/svd_eigen_HH.cpp b/orocos_kdl/src/utilities/svd_eigen_HH.cpp
index 7c7bd37..038ff1d 100644
--- a/orocos_kdl/src/utilities/svd_eigen_HH.cpp
+++ b/orocos_kdl/src/utilities/svd_eigen_HH.cpp
@@ -20,6 +20,7 @@
 // Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 
 #include "svd_eigen_HH.hpp"
+#include <limits>
 
 namespace KDL{
     
@@ -28,6 +29,11 @@ namespace KDL{
         //get the rows/columns of the matrix
         const int rows = static_cast<int>(A.rows());
         const int cols = static_cast<int>(A.cols());
+
+        // infinities and NaN cannot be decomposed
+        for (int r=0;r<rows;r++)
+            for (int c=0;c<cols;c++)
+                if (!(fabs(A(r,c))<=std::numeric_limits<double>::max())) return -1;
     
         U.setZero();
         U.topLeftCorner(rows,cols)=A;
@@ -234,6 +240,7 @@ namespace KDL{
                 tmp(k)=f;
                 S(k)=x;
             }
+            if (its > maxiter) return -2;
         }
 
         //Sort eigen values:
@@ -260,9 +267,6 @@ namespace KDL{
             }
         }
         
-        if (its == maxiter) 
-            return (-2);
-        else 
-            return (0);
+        return (0);
     }
 }
diff --git a/orocos_kdl/src/utilities/svd_eigen_HH.hpp b/orocos_kdl/src/utilities/svd_eigen_HH.hpp
index ec6a9ea..3559048 100644
--- a/orocos_kdl/src/utilities/svd_eigen_HH.hpp
+++ b/orocos_kdl/src/utilities/svd_eigen_HH.hpp
@@ -62,7 +62,8 @@ namespace KDL
      * @param tmp vector<double> n
      * @param maxiter defaults to 150
      *
-     * @return -2 if maxiter exceeded, 0 otherwise
+     * @return -2 if maxiter exceeded, -1 if A has elements that are not finite,
+     * below -2 if the decomposition failed, 0 otherwise
      */
     int svd_eigen_HH(const Eigen::MatrixXd& A,Eigen::MatrixXd& U,Eigen::VectorXd& S,Eigen::MatrixXd& V,Eigen::VectorXd& tmp,int maxiter=150,double epsilon=1e-300);
 }
-- 
2.43.0


From 5683fc681618e65c40484d97d60e29b8442d2b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:58 +0000
Subject: [PATCH 15/86] fix: damped velocity solver without damping divided by
 zero singular values

---
 orocos_kdl/src/chainiksolvervel_wdls.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_wdls.cpp b/orocos_kdl/src/chainiksolvervel_wdls.cpp
index ef2fab2..36de429 100644
--- a/orocos_kdl/src/chainiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/chainiksolvervel_wdls.cpp
@@ -181,12 +181,13 @@ namespace KDL
                 lambda_scaled = sqrt(1.0-(sigmaMin/eps)*(sigmaMin/eps))*lambda ;
             }
             if(fabs(S(i))<eps) {
-                if (i<6) {
+                // Without damping the inverse of a near zero singular value is set to zero
+                if (i<6 && lambda!=0) {
                     // Scale lambda to size of singular value sigmaMin
                     tmp(i) = sum*((S(i)/(S(i)*S(i)+lambda_scaled*lambda_scaled)));
                 }
                 else {
-                    tmp(i)=0.0;  // S(i)=0 for i>=6 due to cols>rows
+                    tmp(i)=0.0;  // also S(i)=0 for i>=6 due to cols>rows
                 }
                 //  Count number of singular values near zero
                 ++nrZeroSigmas ;
-- 
2.43.0


From 53dc57b5c97a869112eb349b9ad88699274cb7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:27 +0000
Subject: [PATCH 16/86] fix: singular value decompositions compared against a
 norm of 0 or 1

---
 orocos_kdl/src/utilities/svd_HH.cpp       | 5 +++--
 orocos_kdl/src/utilities/svd_eigen_HH.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/orocos_kdl/src/utilities/svd_HH.cpp b/orocos_kdl/src/utilities/svd_HH.cpp
index 20dd793..d5078b7 100644
--- a/orocos_kdl/src/utilities/svd_HH.cpp
+++ b/orocos_kdl/src/utilities/svd_HH.cpp
@@ -67,7 +67,8 @@ namespace KDL
 
         int i(-1),its(-1),j(-1),jj(-1),k(-1),nm=0;
         int ppi(0);
-        bool flag,maxarg1,maxarg2;
+        bool flag;
+        double maxarg1,maxarg2;
         double anorm(0),c(0),f(0),h(0),s(0),scale(0),x(0),y(0),z(0),g(0);
 
         // infinities and NaN cannot be decomposed
@@ -183,7 +184,7 @@ namespace KDL
                         flag=false;
                         break;
                     }
-                    if ((fabs(w(nm)+anorm) == anorm)) break;
+                    if ((fabs(w(nm))+anorm) == anorm) break;
                 }
                 if (flag) {
                     c=0.0;           /* Cancellation of tmp[l], if l>1: */
diff --git a/orocos_kdl/src/utilities/svd_eigen_HH.cpp b/orocos_kdl/src/utilities/svd_eigen_HH.cpp
index 038ff1d..20efd05 100644
--- a/orocos_kdl/src/utilities/svd_eigen_HH.cpp
+++ b/orocos_kdl/src/utilities/svd_eigen_HH.cpp
@@ -40,7 +40,8 @@ namespace KDL{
 
         int i(-1),its(-1),j(-1),jj(-1),k(-1),nm=0;
         int ppi(0);
-        bool flag,maxarg1,maxarg2;
+        bool flag;
+        double maxarg1,maxarg2;
         double anorm(0),c(0),f(0),h(0),s(0),scale(0),x(0),y(0),z(0),g(0);
 
         /* Householder reduction to bidiagonal form. */
@@ -150,7 +151,7 @@ namespace KDL{
                         flag=false;
                         break;
                     }
-                    if ((fabs(S(nm)+anorm) == anorm)) break;
+                    if ((fabs(S(nm))+anorm) == anorm) break;
                 }
                 if (flag) {
                     c=0.0;           /* Cancellation of tmp[l], if l>1: */
-- 
2.43.0


From 00b86641d215991b1461e7893910989c9767a573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:05 +0000
Subject: [PATCH 17/86] fix: test convergence of ChainIkSolverPos_NR on the
 joint positions it returns

---
 orocos_kdl/src/chainiksolverpos_nr.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/orocos_kdl/src/chainiksolverpos_nr.cpp b/orocos_kdl/src/chainiksolverpos_nr.cpp
index 8d7f12d..d310520 100644
--- a/orocos_kdl/src/chainiksolverpos_nr.cpp
+++ b/orocos_kdl/src/chainiksolverpos_nr.cpp
@@ -49,20 +49,21 @@ namespace KDL
 
         q_out = q_init;
 
+        int rc = E_NOERROR;
         unsigned int i;
         for(i=0;i<maxiter;i++){
             if (E_NOERROR > fksolver.JntToCart(q_out,f) )
                 return (error = E_FKSOLVERPOS_FAILED);
             delta_twist = diff(f,p_in);
-            const int rc = iksolver.CartToJnt(q_out,delta_twist,delta_q);
+            if(Equal(delta_twist,Twist::Zero(),eps))
+                // converged, but possibly with a degraded solution
+                return (error = (rc > E_NOERROR ? E_DEGRADED : E_NOERROR));
+            rc = iksolver.CartToJnt(q_out,delta_twist,delta_q);
             if (E_NOERROR > rc)
                 return (error = E_IKSOLVER_FAILED);
             // we chose to continue if the child solver returned a positive
             // "error", which may simply indicate a degraded solution
             Add(q_out,delta_q,q_out);
-            if(Equal(delta_twist,Twist::Zero(),eps))
-                // converged, but possibly with a degraded solution
-                return (error = (rc > E_NOERROR ? E_DEGRADED : E_NOERROR));
         }
         return (error = E_MAX_ITERATIONS_EXCEEDED);        // failed to converge
     }
-- 
2.43.0


From 6a2fbefdcd1929f0febbebb8ef72fff6da95721f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:28 +0000
Subject: [PATCH 18/86] fix: keep the start of ChainIkSolverPos_NR_JL within
 the joint limits

---
 orocos_kdl/src/chainiksolverpos_nr_jl.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/orocos_kdl/src/chainiksolverpos_nr_jl.cpp b/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
index 95166ce..ee71e4e 100644
--- a/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
+++ b/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
@@ -68,6 +68,13 @@ namespace KDL
             return (error = E_SIZE_MISMATCH);
 
         q_out = q_init;
+        // the start may lie outside the limits, the answer may not
+        for(unsigned int j=0; j<nj; j++) {
+            if(q_out(j) < q_min(j))
+                q_out(j) = q_min(j);
+            if(q_out(j) > q_max(j))
+                q_out(j) = q_max(j);
+        }
 
         unsigned int i;
         for(i=0;i<maxiter;i++){
-- 
2.43.0


From 731ff67e7e003ea71d3ed4faeb45d75dad2568c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 19/86] fix: ChainIkSolverPos_LMA started at the goal reports
 the singular values and weighted error there

---
 orocos_kdl/src/chainiksolverpos_lma.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainiksolverpos_lma.cpp b/orocos_kdl/src/chainiksolverpos_lma.cpp
index 71d2ab5..ab6abf5 100644
--- a/orocos_kdl/src/chainiksolverpos_lma.cpp
+++ b/orocos_kdl/src/chainiksolverpos_lma.cpp
@@ -210,9 +210,11 @@ int ChainIkSolverPos_LMA::CartToJnt(const KDL::JntArray& q_init, const KDL::Fram
 	if (delta_pos_norm<eps) {
 		lastNrOfIter    =0 ;
 		Twist_to_Eigen( diff( T_base_head, T_base_goal), delta_pos );
-		lastDifference  = delta_pos.norm();
+		lastDifference  = delta_pos_norm;
 		lastTransDiff   = delta_pos.topRows(3).norm();
 		lastRotDiff     = delta_pos.bottomRows(3).norm();
+		compute_jacobian(q);
+		jac = L.asDiagonal()*jac;
 		svd.compute(jac);
 		original_Aii    = svd.singularValues();
 		lastSV          = svd.singularValues();
-- 
2.43.0


From a86d3367c1e3d48cb3125eb8425caa3417f3568a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:14 +0000
Subject: [PATCH 20/86] fix: ChainIkSolverPos_LMA out of iterations reports the
 residuals of its answer

---
 orocos_kdl/src/chainiksolverpos_lma.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/orocos_kdl/src/chainiksolverpos_lma.cpp b/orocos_kdl/src/chainiksolverpos_lma.cpp
index ab6abf5..e5ab724 100644
--- a/orocos_kdl/src/chainiksolverpos_lma.cpp
+++ b/orocos_kdl/src/chainiksolverpos_lma.cpp
@@ -306,9 +306,13 @@ int ChainIkSolverPos_LMA::CartToJnt(const KDL::JntArray& q_init, const KDL::Fram
 			v      = 2*v;
 		}
 	}
+	// the last step tried may not have been accepted, and delta_pos is weighted
+	compute_fwdpos(q);
+	Twist_to_Eigen( diff( T_base_head, T_base_goal), delta_pos );
 	lastDifference = delta_pos_norm;
 	lastTransDiff  = delta_pos.topRows(3).norm();
 	lastRotDiff    = delta_pos.bottomRows(3).norm();
+	svd.compute(jac);
 	lastSV         = svd.singularValues();
 	lastNrOfIter   = maxiter;
 	q_out.data     = q.cast<double>();
-- 
2.43.0


From cbdaefda5898155a39363800e60319dbabe0af94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:41 +0000
Subject: [PATCH 21/86] fix: do not drop rotations below 1e-6 rad in
 Rotation::GetRot and diff

---
 orocos_kdl/src/frames.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orocos_kdl/src/frames.cpp b/orocos_kdl/src/frames.cpp
index 4d478de..1fa9166 100644
--- a/orocos_kdl/src/frames.cpp
+++ b/orocos_kdl/src/frames.cpp
@@ -340,6 +340,9 @@ Vector Rotation::GetRot() const
        Vector axis;
        double angle;
        angle = Rotation::GetRotAngle(axis,epsilon);
+       if (angle == 0.0)
+           // too small for GetRotAngle to determine an axis, but not zero
+           return Vector((data[7]-data[5])/2,(data[2]-data[6])/2,(data[3]-data[1])/2);
        return axis * angle;
      }
 
-- 
2.43.0


From 28d3f025bb9034ed48903d9748b2efe84e36fd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:10 +0000
Subject: [PATCH 22/86] fix: Givens decomposition survives Jacobians whose
 squares overflow

---
 orocos_kdl/src/utilities/svd_eigen_Macie.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/orocos_kdl/src/utilities/svd_eigen_Macie.cpp b/orocos_kdl/src/utilities/svd_eigen_Macie.cpp
index 5fa1830..0aa92d3 100644
--- a/orocos_kdl/src/utilities/svd_eigen_Macie.cpp
+++ b/orocos_kdl/src/utilities/svd_eigen_Macie.cpp
@@ -49,16 +49,17 @@ namespace KDL{
                         if(!(alpha>=threshold))
                             continue;
                         rotations++;
-                        double c = sqrt(4*pow(p,2.0)+pow(q,2.0));
+                        //hypot does not overflow, which would leave V or U undefined for good
+                        double c = hypot(2*p,q);
                         double cos,sin;
                         if(q>=0){
-                            cos=sqrt((c+q)/(2*c));
+                            cos=sqrt((1+q/c)/2);
                             sin=p/(c*cos);
                         }else{
                             if(p<0)
-                                sin=-sqrt((c-q)/(2*c));
+                                sin=-sqrt((1-q/c)/2);
                             else
-                                sin=sqrt((c-q)/(2*c));
+                                sin=sqrt((1-q/c)/2);
                             cos=p/(c*sin);
                         }
 
@@ -114,16 +115,17 @@ namespace KDL{
                         if(!(alpha>=threshold))
                             continue;
                         rotations++;
-                        double c = sqrt(4*pow(p,2.0)+pow(q,2.0));
+                        //hypot does not overflow, which would leave V or U undefined for good
+                        double c = hypot(2*p,q);
                         double cos,sin;
                         if(q>=0){
-                            cos=sqrt((c+q)/(2*c));
+                            cos=sqrt((1+q/c)/2);
                             sin=p/(c*cos);
                         }else{
                             if(p<0)
-                                sin=-sqrt((c-q)/(2*c));
+                                sin=-sqrt((1-q/c)/2);
                             else
-                                sin=sqrt((c-q)/(2*c));
+                                sin=sqrt((1-q/c)/2);
                             cos=p/(c*sin);
                         }
 
-- 
2.43.0


From af2806469d7dfdf28942e644129eab70f85c2263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:38 +0000
Subject: [PATCH 23/86] fix: singular value decompositions indexed out of range
 for finite Jacobians that overflow

---
 orocos_kdl/src/utilities/svd_HH.cpp       | 2 ++
 orocos_kdl/src/utilities/svd_eigen_HH.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/orocos_kdl/src/utilities/svd_HH.cpp b/orocos_kdl/src/utilities/svd_HH.cpp
index d5078b7..f7d6905 100644
--- a/orocos_kdl/src/utilities/svd_HH.cpp
+++ b/orocos_kdl/src/utilities/svd_HH.cpp
@@ -137,6 +137,8 @@ namespace KDL
             }
             maxarg1=anorm;
             maxarg2=(fabs(w(i))+fabs(tmp(i)));
+            // the matrix is finite, but its squares may not be
+            if (!(maxarg2<=std::numeric_limits<double>::max())) return -1;
             anorm = maxarg1 > maxarg2 ? maxarg1 : maxarg2;
         }
         /* Accumulation of right-hand transformations. */
diff --git a/orocos_kdl/src/utilities/svd_eigen_HH.cpp b/orocos_kdl/src/utilities/svd_eigen_HH.cpp
index 20efd05..e50a593 100644
--- a/orocos_kdl/src/utilities/svd_eigen_HH.cpp
+++ b/orocos_kdl/src/utilities/svd_eigen_HH.cpp
@@ -102,6 +102,8 @@ namespace KDL{
             }
             maxarg1=anorm;
             maxarg2=(fabs(S(i))+fabs(tmp(i)));
+            // the matrix is finite, but its squares may not be
+            if (!(maxarg2<=std::numeric_limits<double>::max())) return -1;
             anorm = maxarg1 > maxarg2 ? maxarg1 : maxarg2;
         }
         /* Accumulation of right-hand transformations. */
-- 
2.43.0


From 4696bf13884ae7c8c90400b61e44cfeb3ca775a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:32 +0000
Subject: [PATCH 24/86] fix: bound the sweeps of the Givens decomposition

---
 orocos_kdl/src/chainiksolvervel_pinv_givens.cpp | 3 ++-
 orocos_kdl/src/utilities/svd_eigen_Macie.cpp    | 7 +++++++
 orocos_kdl/src/utilities/svd_eigen_Macie.hpp    | 2 +-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_pinv_givens.cpp b/orocos_kdl/src/chainiksolvervel_pinv_givens.cpp
index ce81339..334ce44 100644
--- a/orocos_kdl/src/chainiksolvervel_pinv_givens.cpp
+++ b/orocos_kdl/src/chainiksolvervel_pinv_givens.cpp
@@ -91,7 +91,8 @@ namespace KDL
                 else
                     jac_eigen(i,j)=jac(i,j);
         }
-        svd_eigen_Macie(jac_eigen,U,S,V,B,tempi,1e-15,toggle);
+        if (svd_eigen_Macie(jac_eigen,U,S,V,B,tempi,1e-15,toggle) < 0)
+            return (error = E_SVD_FAILED);
 
         if(transpose)
             UY.noalias() = V.transpose() * v_in_eigen;
diff --git a/orocos_kdl/src/utilities/svd_eigen_Macie.cpp b/orocos_kdl/src/utilities/svd_eigen_Macie.cpp
index 0aa92d3..2b64acf 100644
--- a/orocos_kdl/src/utilities/svd_eigen_Macie.cpp
+++ b/orocos_kdl/src/utilities/svd_eigen_Macie.cpp
@@ -22,6 +22,9 @@
 #include "svd_eigen_Macie.hpp"
 
 namespace KDL{
+    // a handful of sweeps suffices, but on badly scaled matrices rounding can keep them going forever
+    static const unsigned int max_sweeps = 100;
+
     int svd_eigen_Macie(const Eigen::MatrixXd& A,Eigen::MatrixXd& U,Eigen::VectorXd& S, Eigen::MatrixXd& V,
                         Eigen::MatrixXd& B, Eigen::VectorXd& tempi,
                         double threshold,bool toggle)
@@ -33,6 +36,8 @@ namespace KDL{
             //Calculate B from new A and previous V
             B=A.lazyProduct(V);
             while(rotate){
+                if(sweeps>=max_sweeps)
+                    return -1;
                 rotate=false;
                 rotations=0;
                 //Perform rotations between columns of B
@@ -97,6 +102,8 @@ namespace KDL{
             //Calculate B from new A and previous U'
             B = U.transpose().lazyProduct(A);
             while(rotate){
+                if(sweeps>=max_sweeps)
+                    return -1;
                 rotate=false;
                 rotations=0;
                 //Perform rotations between rows of B
diff --git a/orocos_kdl/src/utilities/svd_eigen_Macie.hpp b/orocos_kdl/src/utilities/svd_eigen_Macie.hpp
index 2f6263d..805a501 100644
--- a/orocos_kdl/src/utilities/svd_eigen_Macie.hpp
+++ b/orocos_kdl/src/utilities/svd_eigen_Macie.hpp
@@ -53,7 +53,7 @@ namespace KDL
 	 * \param tempi [TEMPORARY] is an \f$m\f$ vector used for temporary storage.
 	 * \param threshold [INPUT] Threshold to determine orthogonality.
 	 * \param toggle [INPUT] toggle this boolean variable on each call of this routine.
-	 * \return number of sweeps.
+	 * \return number of sweeps, or -1 when the columns do not become orthogonal.
 	 */
     int svd_eigen_Macie(const Eigen::MatrixXd& A,Eigen::MatrixXd& U,Eigen::VectorXd& S, Eigen::MatrixXd& V,
                         Eigen::MatrixXd& B, Eigen::VectorXd& tempi,
-- 
2.43.0


From c3bb4d5acdb2462419be775f295d3346fb62d33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:13 +0000
Subject: [PATCH 25/86] fix: RK4Integrator: weigh the stage velocities of the
 step correctly

---
 orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp b/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
index cb611c2..8595361 100644
--- a/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
+++ b/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
@@ -118,17 +118,17 @@ namespace KDL{
         fdsolver.CartToJnt(q_temp, q_dot_temp, torques, f_ext, q_dotdot);
         for (unsigned int i=0; i<nj; ++i)
         {
+            dq(i) += 2.0*q_dot_temp(i);
             q_temp(i) = q(i) + q_dot_temp(i)*dt/2.0;
             q_dot_temp(i) = q_dot(i) + q_dotdot(i)*dt/2.0;
-            dq(i) += 2.0*q_dot_temp(i);
             dq_dot(i) += 2.0*q_dotdot(i);
         }
         fdsolver.CartToJnt(q_temp, q_dot_temp, torques, f_ext, q_dotdot);
         for (unsigned int i=0; i<nj; ++i)
         {
+            dq(i) += 2.0*q_dot_temp(i);
             q_temp(i) = q(i) + q_dot_temp(i)*dt;
             q_dot_temp(i) = q_dot(i) + q_dotdot(i)*dt;
-            dq(i) += 2.0*q_dot_temp(i);
             dq_dot(i) += 2.0*q_dotdot(i);
         }
         fdsolver.CartToJnt(q_temp, q_dot_temp, torques, f_ext, q_dotdot);
-- 
2.43.0


From 65405f1b981273022e133618d16df7d860b78582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:27 +0000
Subject: [PATCH 26/86] fix: hybrid dynamics: report the torques the constraint
 forces cause

---
 orocos_kdl/src/chainhdsolver_vereshchagin.cpp | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
index 184b859..e856037 100644
--- a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
+++ b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
@@ -330,7 +330,7 @@ void ChainHdSolver_Vereshchagin::final_upwards_sweep(JntArray &q_dotdot, JntArra
             continue;
         }
 
-        //The contribution of the constraint forces at segment i
+        //The contribution of the constraint forces at segment i (as seen by the articulated body)
         Vector6d tmp = s.E*nu;
         Wrench constraint_force = Wrench(Vector(tmp(3), tmp(4), tmp(5)),
                                          Vector(tmp(0), tmp(1), tmp(2)));
@@ -342,14 +342,13 @@ void ChainHdSolver_Vereshchagin::final_upwards_sweep(JntArray &q_dotdot, JntArra
         double parentAccComp = parent_forceProjection / s.D;
 
         //The constraint force and acceleration force projected on the joint axes -> axis torque/force
-        constraint_torques(j) = -dot(s.Z, constraint_force);
-        //The result should be the torque originating from the end-effector constraints
+        double constraint_forceProjection = -dot(s.Z, constraint_force);
 
         // Total torque on the joint resulting from the parent forces, constraint forces and nullspace forces.
-        total_torques(j) = s.u + parent_forceProjection + constraint_torques(j);
+        total_torques(j) = s.u + parent_forceProjection + constraint_forceProjection;
         // q_dotdot(j) is also equal to: total_torques(j) / s.D
 
-        s.constAccComp = constraint_torques(j) / s.D;
+        s.constAccComp = constraint_forceProjection / s.D;
         s.nullspaceAccComp = s.u / s.D;
 
         // Total joint space acceleration resulting from accelerations of parent joints, constraint forces and nullspace forces.
@@ -358,6 +357,19 @@ void ChainHdSolver_Vereshchagin::final_upwards_sweep(JntArray &q_dotdot, JntArra
         s.acc = s.F.Inverse(a_p + s.Z * q_dotdot(j) + s.C);
         j++;
     }
+
+    // The torque each joint feels from the constraint forces on the end-effector: these forces themselves,
+    // and not their articulated body equivalents, projected on the joint axes
+    Vector6d end_force = results[ns].E_tilde * nu;
+    Wrench constraint_force(Vector(end_force(3), end_force(4), end_force(5)),
+                            Vector(end_force(0), end_force(1), end_force(2)));
+    for (unsigned int i = ns; i > 0; i--)
+    {
+        segment_info& s = results[i];
+        constraint_force = s.F * constraint_force;
+        if (chain.getSegment(i - 1).getJoint().getType() != Joint::Fixed)
+            constraint_torques(--j) = -dot(s.Z, constraint_force);
+    }
 }
 
 // Returns Cartesian acceleration of links in robot base coordinates
-- 
2.43.0


From 11d249fdc66d6da35ce5e005cd0bbe77a952dacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:23 +0000
Subject: [PATCH 27/86] fix: hybrid dynamics: tell lost constraints by a
 threshold relative to the scale of the robot

---
 orocos_kdl/src/chainhdsolver_vereshchagin.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
index e856037..990b190 100644
--- a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
+++ b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
@@ -279,8 +279,10 @@ void ChainHdSolver_Vereshchagin::constraint_calculation(const JntArray& beta)
     //M_0_inverse=results[0].M.inverse();
     svd_eigen_HH(results[0].M, Um, Sm, Vm, tmpm);
     //truncated svd, what would sdls, dls physically mean?
+    //the singular values of lost constraints are zero up to the rounding of the largest one
+    const double sv_min = nc > 0 ? std::max(1e-14, 1e-12 * Sm.maxCoeff()) : 0.0;
     for (unsigned int i = 0; i < nc; i++)
-        if (Sm(i) < 1e-14)
+        if (Sm(i) < sv_min)
             Sm(i) = 0.0;
         else
             Sm(i) = 1 / Sm(i);
-- 
2.43.0


From cccadee80bd105c051b66830d3e580f9df800308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:39 +0000
Subject: [PATCH 28/86] fix: copying or assigning a tree keeps its joint
 numbers

---
 orocos_kdl/src/tree.cpp | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/orocos_kdl/src/tree.cpp b/orocos_kdl/src/tree.cpp
index 70151e6..76523a9 100644
--- a/orocos_kdl/src/tree.cpp
+++ b/orocos_kdl/src/tree.cpp
@@ -30,24 +30,25 @@ Tree::Tree(const std::string& _root_name) :
     segments.insert(make_pair(root_name, TreeElement::Root(root_name)));
 }
 
-Tree::Tree(const Tree& in) {
-    segments.clear();
-    nrOfSegments = 0;
-    nrOfJoints = 0;
-    root_name = in.root_name;
-
+Tree::Tree(const Tree& in) :
+        nrOfJoints(0), nrOfSegments(0), root_name(in.root_name)
+{
     segments.insert(make_pair(root_name, TreeElement::Root(root_name)));
     addTree(in, root_name);
+    //a copy keeps the joint numbers of the original, in whatever order its segments were added
+    for (SegmentMap::iterator it = segments.begin(); it != segments.end(); ++it)
+        GetTreeElementQNr(it->second) = GetTreeElementQNr(in.getSegment(it->first)->second);
 }
 
 Tree& Tree::operator=(const Tree& in) {
-    segments.clear();
-    nrOfSegments = 0;
-    nrOfJoints = 0;
-    root_name = in.root_name;
-
-    segments.insert(make_pair(in.root_name, TreeElement::Root(root_name)));
-    this->addTree(in, root_name);
+    if (this == &in)
+        return *this;
+    //the iterators to the elements stay valid when the maps are swapped
+    Tree copy(in);
+    segments.swap(copy.segments);
+    root_name.swap(copy.root_name);
+    nrOfSegments = copy.nrOfSegments;
+    nrOfJoints = copy.nrOfJoints;
     return *this;
 }
 
-- 
2.43.0


From e2d04cb8e06b065113147cb048185ab529f799e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:43 +0000
Subject: [PATCH 29/86] fix: Tree::getChain keeps the parameters of joints
 passed in reverse

---
 orocos_kdl/src/tree.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/tree.cpp b/orocos_kdl/src/tree.cpp
index 76523a9..526ce99 100644
--- a/orocos_kdl/src/tree.cpp
+++ b/orocos_kdl/src/tree.cpp
@@ -149,9 +149,11 @@ bool Tree::getChain(const std::string& chain_root, const std::string& chain_tip,
         Frame f_tip = seg.pose(0.0).Inverse();
         Joint jnt = seg.getJoint();
         if (jnt.getType() == Joint::RotX || jnt.getType() == Joint::RotY || jnt.getType() == Joint::RotZ || jnt.getType() == Joint::RotAxis)
-            jnt = Joint(jnt.getName(), f_tip*jnt.JointOrigin(), f_tip.M*(-jnt.JointAxis()), Joint::RotAxis);
+            jnt = Joint(jnt.getName(), f_tip*jnt.JointOrigin(), f_tip.M*(-jnt.JointAxis()), Joint::RotAxis,
+                        jnt.getScale(), jnt.getOffset(), jnt.getInertia(), jnt.getDamping(), jnt.getStiffness());
         else if (jnt.getType() == Joint::TransX || jnt.getType() == Joint::TransY || jnt.getType() == Joint::TransZ || jnt.getType() == Joint::TransAxis)
-            jnt = Joint(jnt.getName(),f_tip*jnt.JointOrigin(), f_tip.M*(-jnt.JointAxis()), Joint::TransAxis);
+            jnt = Joint(jnt.getName(),f_tip*jnt.JointOrigin(), f_tip.M*(-jnt.JointAxis()), Joint::TransAxis,
+                        jnt.getScale(), jnt.getOffset(), jnt.getInertia(), jnt.getDamping(), jnt.getStiffness());
         chain.addSegment(Segment(GetTreeElementSegment(getSegment(parents_chain_root[s+1])->second).getName(),
                                  jnt, f_tip, GetTreeElementSegment(getSegment(parents_chain_root[s+1])->second).getInertia()));
     }
-- 
2.43.0


From 330cc6755b40dbf38a3d1ebcc4c58056dd8f149a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:59 +0000
Subject: [PATCH 30/86] fix: Tree::getSubTree may replace the tree it is taken
 from

---
 orocos_kdl/src/tree.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/tree.cpp b/orocos_kdl/src/tree.cpp
index 526ce99..53d699f 100644
--- a/orocos_kdl/src/tree.cpp
+++ b/orocos_kdl/src/tree.cpp
@@ -172,8 +172,11 @@ bool Tree::getSubTree(const std::string& segment_name, Tree& tree) const
   if (root == segments.end())
     return false;
   //init the tree, segment_name is the new root.
-  tree = Tree(root->first);
-  return tree.addTreeRecursive(root, segment_name);
+  //(the result may replace the very tree it is taken from)
+  Tree subtree(root->first);
+  const bool complete = subtree.addTreeRecursive(root, segment_name);
+  tree = subtree;
+  return complete;
 }
 
 }//end of namespace
-- 
2.43.0


From 86ac3f4c7c4fceb91cbbd65c07f233ab5e01a251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:02 +0000
Subject: [PATCH 31/86] fix: chains may be assigned and added to themselves

---
 orocos_kdl/src/chain.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chain.cpp b/orocos_kdl/src/chain.cpp
index 43eb4f1..104e27e 100644
--- a/orocos_kdl/src/chain.cpp
+++ b/orocos_kdl/src/chain.cpp
@@ -41,6 +41,8 @@ namespace KDL {
 
     Chain& Chain::operator=(const Chain& arg)
     {
+        if(this==&arg)
+            return *this;
         nrOfJoints=0;
         nrOfSegments=0;
         segments.resize(0);
@@ -60,7 +62,9 @@ namespace KDL {
 
     void Chain::addChain(const Chain& chain)
     {
-        for(unsigned int i=0;i<chain.getNrOfSegments();i++)
+        //the chain may be added to itself, do not count the segments added here
+        const unsigned int nr=chain.getNrOfSegments();
+        for(unsigned int i=0;i<nr;i++)
             this->addSegment(chain.getSegment(i));
     }
 
-- 
2.43.0


From 1226743d6e8416015bf6f207027c37272e172915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:27 +0000
Subject: [PATCH 32/86] fix: tree solvers do not read joint values of fixed
 joints

---
 orocos_kdl/src/treefksolverpos_recursive.cpp | 4 +++-
 orocos_kdl/src/treejnttojacsolver.cpp        | 7 ++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/orocos_kdl/src/treefksolverpos_recursive.cpp b/orocos_kdl/src/treefksolverpos_recursive.cpp
index b919b95..8753400 100644
--- a/orocos_kdl/src/treefksolverpos_recursive.cpp
+++ b/orocos_kdl/src/treefksolverpos_recursive.cpp
@@ -49,7 +49,9 @@ namespace KDL {
 	{
 		//gets the frame for the current element (segment)
         const TreeElementType& currentElement = it->second;
-        Frame currentFrame = GetTreeElementSegment(currentElement).pose(q_in(GetTreeElementQNr(currentElement)));
+        //a fixed joint has no entry in the joint array (which may be empty)
+        const bool fixed = GetTreeElementSegment(currentElement).getJoint().getType() == Joint::Fixed;
+        Frame currentFrame = GetTreeElementSegment(currentElement).pose(fixed ? 0.0 : q_in(GetTreeElementQNr(currentElement)));
 
 		SegmentMap::const_iterator rootIterator = tree.getRootSegment();
 		if(it == rootIterator){
diff --git a/orocos_kdl/src/treejnttojacsolver.cpp b/orocos_kdl/src/treejnttojacsolver.cpp
index 0afb4d1..518e82e 100644
--- a/orocos_kdl/src/treejnttojacsolver.cpp
+++ b/orocos_kdl/src/treejnttojacsolver.cpp
@@ -41,13 +41,14 @@ int TreeJntToJacSolver::JntToJac(const JntArray& q_in, Jacobian& jac, const std:
         //get the corresponding q_nr for this TreeElement:
         unsigned int q_nr = GetTreeElementQNr(it->second);
         
-        //get the pose of the segment:
-        Frame T_local = GetTreeElementSegment(it->second).pose(q_in(q_nr));
+        //get the pose of the segment (a fixed joint has no entry in the joint array, which may be empty):
+        const bool fixed = GetTreeElementSegment(it->second).getJoint().getType() == Joint::Fixed;
+        Frame T_local = GetTreeElementSegment(it->second).pose(fixed ? 0.0 : q_in(q_nr));
         //calculate new T_end:
         T_total = T_local * T_total;
         
         //get the twist of the segment:
-        if (GetTreeElementSegment(it->second).getJoint().getType() != Joint::Fixed) {
+        if (!fixed) {
             Twist t_local = GetTreeElementSegment(it->second).twist(q_in(q_nr), 1.0);
             //transform the endpoint of the local twist to the global endpoint:
             t_local = t_local.RefPoint(T_total.p - T_local.p);
-- 
2.43.0


From b805f7435a71081fecbbff954b7ce1f954cca75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:31 +0000
Subject: [PATCH 33/86] fix: inverse dynamics of trees does not follow the
 parent of the root

---
 orocos_kdl/src/treeidsolver_recursive_newton_euler.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/treeidsolver_recursive_newton_euler.cpp b/orocos_kdl/src/treeidsolver_recursive_newton_euler.cpp
index b26fb32..4320c3d 100644
--- a/orocos_kdl/src/treeidsolver_recursive_newton_euler.cpp
+++ b/orocos_kdl/src/treeidsolver_recursive_newton_euler.cpp
@@ -78,7 +78,9 @@ namespace KDL{
     void TreeIdSolver_RNE::rne_step(SegmentMap::const_iterator segment, const JntArray &q, const JntArray &q_dot, const JntArray &q_dotdot, const WrenchMap& f_ext, JntArray& torques) {
       const Segment& seg = GetTreeElementSegment(segment->second);
       const std::string& segname = segment->first;
-      const std::string& parname = GetTreeElementParent(segment->second)->first;
+      //the root segment has no parent
+      const bool is_root = segment == tree.getRootSegment();
+      const std::string& parname = is_root ? segname : GetTreeElementParent(segment->second)->first;
 
       //Do forward calculations involving velocity & acceleration of this segment
       double q_, qdot_, qdotdot_;
@@ -101,7 +103,7 @@ namespace KDL{
       S.at(segname) = X.at(segname).M.Inverse( seg.twist(q_,1.0) );
 
       //calculate velocity and acceleration of the segment (in segment coordinates)
-      if(segment == tree.getRootSegment()) {
+      if(is_root) {
         v.at(segname) = vj;
         a.at(segname) = X.at(segname).Inverse(ag) + S.at(segname)*qdotdot_+ v.at(segname)*vj;
       }
@@ -133,7 +135,7 @@ namespace KDL{
       }
 
       //add reaction forces to parent segment
-      if(segment != tree.getRootSegment())
+      if(!is_root)
         f.at(parname) = f.at(parname) + X.at(segname)*f.at(segname);
     }
 }//namespace
-- 
2.43.0


From 09e97aab6510e9c3e5b06c1a8f944abbe89b16ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:39 +0000
Subject: [PATCH 34/86] fix: chains may get a copy of one of their own segments

---
 orocos_kdl/src/chain.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chain.cpp b/orocos_kdl/src/chain.cpp
index 104e27e..d9141c6 100644
--- a/orocos_kdl/src/chain.cpp
+++ b/orocos_kdl/src/chain.cpp
@@ -56,7 +56,8 @@ namespace KDL {
     {
         segments.push_back(segment);
         nrOfSegments++;
-        if(segment.getJoint().getType()!=Joint::Fixed)
+        //the segment given may be one of this chain, which has moved now
+        if(segments.back().getJoint().getType()!=Joint::Fixed)
             nrOfJoints++;
     }
 
-- 
2.43.0


From 99c5aaa1fbc31f34a34d967df3fa979ad3b7be72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:42 +0000
Subject: [PATCH 35/86] fix: tree velocity solver divides by no zero singular
 values

---
 orocos_kdl/src/treeiksolvervel_wdls.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/treeiksolvervel_wdls.cpp b/orocos_kdl/src/treeiksolvervel_wdls.cpp
index 87665db..bb3c17a 100644
--- a/orocos_kdl/src/treeiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/treeiksolvervel_wdls.cpp
@@ -7,6 +7,8 @@
 
 #include "treeiksolvervel_wdls.hpp"
 #include "utilities/svd_eigen_HH.hpp"
+#include <algorithm>
+#include <limits>
 
 namespace KDL {    
     TreeIkSolverVel_wdls::TreeIkSolverVel_wdls(const Tree& tree_in, const std::vector<std::string>& endpoints) :
@@ -86,6 +88,12 @@ namespace KDL {
         Wy_t.noalias() = Wy * t;
         Wq_V.noalias() = Wq * V;
         
+        // Singular values below the accuracy of the decomposition are zero, nothing moves along them
+        double S_max = 0.0;
+        for (unsigned int i = 0; i < J.cols(); i++)
+            S_max = std::max(S_max, S(i));
+        const double S_zero = S_max * std::max(J.rows(), J.cols()) * std::numeric_limits<double>::epsilon();
+
         // tmp = (Si*Wy*U'*y),
         for (unsigned int i = 0; i < J.cols(); i++) {
             double sum = 0.0;
@@ -95,7 +103,10 @@ namespace KDL {
                 else
                     sum += 0.0;
             }
-            tmp( i) = sum * ((S(i) / (S(i) * S(i) + lambda * lambda)));
+            if (S(i) <= S_zero)
+                tmp( i) = 0.0;
+            else
+                tmp( i) = sum * ((S(i) / (S(i) * S(i) + lambda * lambda)));
         }
         
         // x = Lx^-1*V*tmp + x
-- 
2.43.0


From 0e8f1d26504c1fc781ad724b708bbada44835587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:49 +0000
Subject: [PATCH 36/86] fix: tree velocity solver refuses twists that leave out
 an endpoint

---
 orocos_kdl/src/treeiksolvervel_wdls.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/orocos_kdl/src/treeiksolvervel_wdls.cpp b/orocos_kdl/src/treeiksolvervel_wdls.cpp
index bb3c17a..f2b1ef9 100644
--- a/orocos_kdl/src/treeiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/treeiksolvervel_wdls.cpp
@@ -54,6 +54,11 @@ namespace KDL {
             if (jacobians.find(v_it->first) == jacobians.end())
                 return -2;
         }
+        //And that all the Twists we are configured for are there:
+        for (Jacobians::const_iterator jac_it = jacobians.begin(); jac_it != jacobians.end(); ++jac_it) {
+            if (v_in.find(jac_it->first) == v_in.end())
+                return -2;
+        }
         //Check if q_in has the right size
         if (q_in.rows() != tree.getNrOfJoints())
             return -1;
-- 
2.43.0


From 63997b32d1b091890467a9bc2b0c343f11f0ad47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:55 +0000
Subject: [PATCH 37/86] fix: tree velocity solver refuses weights of the wrong
 size

---
 orocos_kdl/src/treeiksolvervel_wdls.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orocos_kdl/src/treeiksolvervel_wdls.cpp b/orocos_kdl/src/treeiksolvervel_wdls.cpp
index f2b1ef9..ef9a4e0 100644
--- a/orocos_kdl/src/treeiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/treeiksolvervel_wdls.cpp
@@ -62,6 +62,9 @@ namespace KDL {
         //Check if q_in has the right size
         if (q_in.rows() != tree.getNrOfJoints())
             return -1;
+        //The weights are set without a check
+        if (Wq.rows() != J.cols() || Wq.cols() != J.cols() || Wy.rows() != J.rows() || Wy.cols() != J.rows())
+            return -1;
         
         //Lets get all the jacobians we need:
         unsigned int k = 0;
-- 
2.43.0


From d07a906a003514fa44cb3905861b0840c34f41a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:18 +0000
Subject: [PATCH 38/86] fix: tree position solver forgets the goals of earlier
 calls

---
 orocos_kdl/src/treeiksolverpos_nr_jl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/orocos_kdl/src/treeiksolverpos_nr_jl.cpp b/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
index 2b0b1a3..28f2bc9 100644
--- a/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
+++ b/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
@@ -47,6 +47,10 @@ namespace KDL {
             if(frames.find(f_des_it->first)==frames.end())
                 return -2;
         
+        //Endpoints left out of p_in are asked not to move, whatever was asked of them before
+        for (Twists::iterator delta_twist=delta_twists.begin();delta_twist!=delta_twists.end();++delta_twist)
+            delta_twist->second = Twist::Zero();
+
         unsigned int k=0;
         while(++k <= maxiter) {
             for (Frames::const_iterator f_des_it=p_in.begin();f_des_it!=p_in.end();++f_des_it){
-- 
2.43.0


From b25c53a250ee5451f7e4e823aae18c3fa05ab5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:22 +0000
Subject: [PATCH 39/86] fix: tree position solver starts inside its limits and
 checks sizes

---
 orocos_kdl/src/treeiksolverpos_nr_jl.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/treeiksolverpos_nr_jl.cpp b/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
index 28f2bc9..f31541e 100644
--- a/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
+++ b/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
@@ -40,8 +40,19 @@ namespace KDL {
     }
     
     double TreeIkSolverPos_NR_JL::CartToJnt(const JntArray& q_init, const Frames& p_in, JntArray& q_out) {
+        //Check if q_init and the limits have the right size
+        if (q_init.rows() != tree.getNrOfJoints() || q_min.rows() != tree.getNrOfJoints() || q_max.rows() != tree.getNrOfJoints())
+            return -1;
+
         q_out = q_init;
-        
+        //The start may lie outside the limits, the answer may not
+        for (unsigned int j = 0; j < q_min.rows(); j++) {
+            if (q_out(j) < q_min(j))
+                q_out( j) = q_min(j);
+            else if (q_out(j) > q_max(j))
+                q_out( j) = q_max(j);
+        }
+
         //First check if all elements in p_in are available:
         for(Frames::const_iterator f_des_it=p_in.begin();f_des_it!=p_in.end();++f_des_it)
             if(frames.find(f_des_it->first)==frames.end())
-- 
2.43.0


From f39e36a7d000d0d27900a04a166ae0f06e8457b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:26 +0000
Subject: [PATCH 40/86] fix: tree position solver reports failures of its
 position solver

---
 orocos_kdl/src/treeiksolverpos_nr_jl.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/treeiksolverpos_nr_jl.cpp b/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
index f31541e..3129c60 100644
--- a/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
+++ b/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
@@ -22,6 +22,7 @@
 // Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 
 #include "treeiksolverpos_nr_jl.hpp"
+#include <cmath>
 
 namespace KDL {
     TreeIkSolverPos_NR_JL::TreeIkSolverPos_NR_JL(const Tree& _tree,
@@ -69,10 +70,13 @@ namespace KDL {
                 Frames::iterator f_it = frames.find(f_des_it->first);
                 Twists::iterator delta_twist = delta_twists.find(f_des_it->first);
                 
-                fksolver.JntToCart(q_out, f_it->second, f_it->first);
+                int ret = fksolver.JntToCart(q_out, f_it->second, f_it->first);
+                if (ret < 0) return ret;
                 delta_twist->second = diff(f_it->second, f_des_it->second);
             }
             double res = iksolver.CartToJnt(q_out, delta_twists, delta_q);
+            //There is no way to a goal that is not finite
+            if (!std::isfinite(res)) return -3;
             if (res < eps) return res;
             
             Add(q_out, delta_q, q_out);
-- 
2.43.0


From 3ed0b40a568000ef74216f59b9c9f8fe302288a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:03 +0000
Subject: [PATCH 41/86] fix: online tree solver scales task velocities by the
 bigger overshoot

---
 orocos_kdl/src/treeiksolverpos_online.cpp | 25 +++++++++++++----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/orocos_kdl/src/treeiksolverpos_online.cpp b/orocos_kdl/src/treeiksolverpos_online.cpp
index 594c3a0..58f2448 100644
--- a/orocos_kdl/src/treeiksolverpos_online.cpp
+++ b/orocos_kdl/src/treeiksolverpos_online.cpp
@@ -153,18 +153,21 @@ void TreeIkSolverPos_Online::enforceCartVelLimits()
   x_dot_trans = sqrt( pow(twist_.vel.x(), 2) + pow(twist_.vel.y(), 2) + pow(twist_.vel.z(), 2));
   x_dot_rot = sqrt( pow(twist_.rot.x(), 2) + pow(twist_.rot.y(), 2) + pow(twist_.rot.z(), 2));
 
-  if ( x_dot_trans > x_dot_trans_max_ || x_dot_rot > x_dot_rot_max_ )
+  // the biggest overshoot among both velocities determines the scaling
+  double scale = 1.0;
+  if ( x_dot_trans > x_dot_trans_max_ )
   {
-    if ( x_dot_trans > x_dot_rot )
-    {
-      twist_.vel = twist_.vel * ( x_dot_trans_max_ / x_dot_trans );
-      twist_.rot = twist_.rot * ( x_dot_trans_max_ / x_dot_trans );
-    }
-    else if ( x_dot_rot > x_dot_trans )
-    {
-      twist_.vel = twist_.vel * ( x_dot_rot_max_ / x_dot_rot );
-      twist_.rot = twist_.rot * ( x_dot_rot_max_ / x_dot_rot );
-    }
+    scale = x_dot_trans_max_ / x_dot_trans;
+  }
+  if ( x_dot_rot > x_dot_rot_max_ && x_dot_rot_max_ / x_dot_rot < scale )
+  {
+    scale = x_dot_rot_max_ / x_dot_rot;
+  }
+
+  if ( scale < 1.0 )
+  {
+    twist_.vel = twist_.vel * scale;
+    twist_.rot = twist_.rot * scale;
   }
 }
 
-- 
2.43.0


From 6ef6041c645fdd89c70ac9cd533558bad474271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:06 +0000
Subject: [PATCH 42/86] fix: online tree solver forgets the goals of earlier
 cycles

---
 orocos_kdl/src/treeiksolverpos_online.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/orocos_kdl/src/treeiksolverpos_online.cpp b/orocos_kdl/src/treeiksolverpos_online.cpp
index 58f2448..8ce35f1 100644
--- a/orocos_kdl/src/treeiksolverpos_online.cpp
+++ b/orocos_kdl/src/treeiksolverpos_online.cpp
@@ -66,6 +66,10 @@ double TreeIkSolverPos_Online::CartToJnt(const JntArray& q_in, const Frames& p_i
     if(frames_.find(f_des_it->first)==frames_.end())
       return -2;
 
+  // Endpoints left out of p_in are asked not to move, whatever was asked of them before
+  for (Twists::iterator delta_twists_it=delta_twists_.begin();delta_twists_it!=delta_twists_.end();++delta_twists_it)
+    delta_twists_it->second = Twist::Zero();
+
   for (Frames::const_iterator f_des_it=p_in.begin();f_des_it!=p_in.end();++f_des_it)
   {
     // Get all iterators for this endpoint
-- 
2.43.0


From 80d25e999d021caee444934c2c90c40c5dd0dc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:10 +0000
Subject: [PATCH 43/86] fix: online tree solver reports failed position solvers
 and goals that are not finite

---
 orocos_kdl/src/treeiksolverpos_online.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/treeiksolverpos_online.cpp b/orocos_kdl/src/treeiksolverpos_online.cpp
index 8ce35f1..55ddbeb 100644
--- a/orocos_kdl/src/treeiksolverpos_online.cpp
+++ b/orocos_kdl/src/treeiksolverpos_online.cpp
@@ -23,6 +23,7 @@
 // Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 
 #include "treeiksolverpos_online.hpp"
+#include <cmath>
 
 namespace KDL {
 
@@ -76,7 +77,9 @@ double TreeIkSolverPos_Online::CartToJnt(const JntArray& q_in, const Frames& p_i
     Frames::iterator f_it = frames_.find(f_des_it->first);
     Twists::iterator delta_twists_it = delta_twists_.find(f_des_it->first);
 
-    fksolver_.JntToCart(q_out, f_it->second, f_it->first);
+    int ret = fksolver_.JntToCart(q_out, f_it->second, f_it->first);
+    if(ret<0)
+        return ret;
     twist_ = diff(f_it->second, f_des_it->second);
 
     // Checks, if the twist (twist_) exceeds the maximum translational and/or rotational velocity
@@ -90,6 +93,9 @@ double TreeIkSolverPos_Online::CartToJnt(const JntArray& q_in, const Frames& p_i
 
   if(res<0)
       return res;
+  // There is no way to a goal that is not finite
+  if(!std::isfinite(res))
+      return -3;
   //If we got here q_out is definitely of the right size
   if(q_out.rows()!=q_min_.rows() || q_out.rows()!=q_max_.rows() || q_out.rows()!= q_dot_max_.rows())
       return -1;
-- 
2.43.0


From 8b921ecb9fc98065e43dc7a3cc2353fb9ef2ee15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:52 +0000
Subject: [PATCH 44/86] fix: VelocityProfile_Rectangular respects its limit
 backwards and starts and copies initialised

---
 orocos_kdl/src/velocityprofile_rect.cpp | 7 ++++---
 orocos_kdl/src/velocityprofile_rect.hpp | 6 ++----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/orocos_kdl/src/velocityprofile_rect.cpp b/orocos_kdl/src/velocityprofile_rect.cpp
index 7992c1e..c99c7ff 100644
--- a/orocos_kdl/src/velocityprofile_rect.cpp
+++ b/orocos_kdl/src/velocityprofile_rect.cpp
@@ -42,6 +42,7 @@
 
 #include "utilities/error.h"
 #include "velocityprofile_rect.hpp"
+#include <cmath>
 
 namespace KDL {
 
@@ -81,8 +82,8 @@ void VelocityProfile_Rectangular::
     if ( diff != 0 )
         {
             v    = diff/duration;
-            if (v > maxvel || duration==0 ) // safety.
-                v=maxvel;
+            if (fabs(v) > maxvel || duration <= 0 ) // safety.
+                v = (diff>0)?maxvel:-maxvel;
             p    = pos1;               // start pos
             d    = diff/v;
         }
@@ -90,7 +91,7 @@ void VelocityProfile_Rectangular::
         {
             v    = 0;
             p    = pos1;
-            d    = duration;
+            d    = (duration>0)?duration:0;
         }
 }
 
diff --git a/orocos_kdl/src/velocityprofile_rect.hpp b/orocos_kdl/src/velocityprofile_rect.hpp
index 4482779..e70206c 100644
--- a/orocos_kdl/src/velocityprofile_rect.hpp
+++ b/orocos_kdl/src/velocityprofile_rect.hpp
@@ -62,7 +62,7 @@ namespace KDL {
 		double maxvel;
 
 		VelocityProfile_Rectangular(double _maxvel=0):
-		  maxvel(_maxvel) {}
+		  d(0),p(0),v(0),maxvel(_maxvel) {}
 		// constructs motion profile class with <maxvel> as parameter of the
 		// trajectory.
 
@@ -76,9 +76,7 @@ namespace KDL {
 		virtual double Acc(double time) const;
 		virtual void Write(std::ostream& os) const;
 		virtual VelocityProfile* Clone() const{
-			VelocityProfile_Rectangular* res =  new VelocityProfile_Rectangular(maxvel);
-			res->SetProfileDuration( p, p+v*d, d );
-			return res;
+			return new VelocityProfile_Rectangular(*this);
 		}
 		// returns copy of current VelocityProfile object. (virtual constructor)
 		virtual ~VelocityProfile_Rectangular() {}
-- 
2.43.0


From 2eab2be3bd36ebff177cae17e0a29e28ce243aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:55 +0000
Subject: [PATCH 45/86] fix: VelocityProfile_Trap keeps its plan when copied
 and when stretched to no duration

---
 orocos_kdl/src/velocityprofile_trap.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/orocos_kdl/src/velocityprofile_trap.cpp b/orocos_kdl/src/velocityprofile_trap.cpp
index 1bee674..76534c8 100644
--- a/orocos_kdl/src/velocityprofile_trap.cpp
+++ b/orocos_kdl/src/velocityprofile_trap.cpp
@@ -94,9 +94,9 @@ void VelocityProfile_Trap::SetProfileDuration(
 	// Fastest :
 	SetProfile(pos1,pos2);
 	// Must be Slower  :
-	double factor = duration/newduration;
-	if (factor > 1)
+	if (newduration <= duration)
 		return; // do not exceed max
+	double factor = duration/newduration;
 	a2*=factor;
 	a3*=factor*factor;
 	b2*=factor;
@@ -104,8 +104,10 @@ void VelocityProfile_Trap::SetProfileDuration(
 	c2*=factor;
 	c3*=factor*factor;
 	duration = newduration;
-	t1 /= factor;
-	t2 /= factor;
+	if (factor > 0) {
+		t1 /= factor;
+		t2 /= factor;
+	}
 }
 
 void VelocityProfile_Trap::SetProfileVelocity(
@@ -178,9 +180,7 @@ double VelocityProfile_Trap::Acc(double time) const {
 }
 
 VelocityProfile* VelocityProfile_Trap::Clone() const {
-	VelocityProfile_Trap* res =  new VelocityProfile_Trap(maxvel,maxacc);
-	res->SetProfileDuration( this->startpos, this->endpos, this->duration );
-	return res;
+	return new VelocityProfile_Trap(*this);
 }
 
 VelocityProfile_Trap::~VelocityProfile_Trap() {}
-- 
2.43.0


From 8f5f9e9529231f06f6cbb7c3e7d4ec5e1ef1193f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:59 +0000
Subject: [PATCH 46/86] fix: VelocityProfile_TrapHalf stays within its
 acceleration limit, handles no distance, and keeps its plan when copied

---
 orocos_kdl/src/velocityprofile_traphalf.cpp | 26 +++++++++++++++------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/orocos_kdl/src/velocityprofile_traphalf.cpp b/orocos_kdl/src/velocityprofile_traphalf.cpp
index 05ff180..2797cc3 100644
--- a/orocos_kdl/src/velocityprofile_traphalf.cpp
+++ b/orocos_kdl/src/velocityprofile_traphalf.cpp
@@ -48,6 +48,11 @@ namespace KDL {
 
 
 VelocityProfile_TrapHalf::VelocityProfile_TrapHalf(double _maxvel,double _maxacc,bool _starting):
+		  a1(0), a2(0), a3(0),
+		  b1(0), b2(0), b3(0),
+		  c1(0), c2(0), c3(0),
+		  duration(0), t1(0), t2(0),
+		  startpos(0), endpos(0),
 		  maxvel(_maxvel),maxacc(_maxacc),starting(_starting) {}
 
 void VelocityProfile_TrapHalf::SetMax(double _maxvel,double _maxacc, bool _starting)
@@ -85,6 +90,12 @@ void VelocityProfile_TrapHalf::SetProfile(double pos1,double pos2) {
 	double s        = sign(endpos-startpos);
 	// check that the maxvel is obtainable
 	double vel = std::min(maxvel, sqrt(2.0*s*(endpos-startpos)*maxacc));
+	if (vel == 0) {
+		// no distance to cover
+		duration = t1 = t2 = 0;
+		PlanProfile1(0,0);
+		return;
+	}
 	duration		= s*(endpos-startpos)/vel+vel/maxacc/2.0;
 	if (starting) {
 		t1 = 0;
@@ -101,15 +112,18 @@ void VelocityProfile_TrapHalf::SetProfileDuration(
 	double pos1,double pos2,double newduration)
 {
 	SetProfile(pos1,pos2);
-	double factor = duration/newduration;
 
-	if ( factor > 1 )
+	if ( newduration <= duration )
 		return;
 
 	double s        = sign(endpos-startpos);
-	double tmp      = 2.0*s*(endpos-startpos)/maxvel;
-	double v        = s*maxvel;
+	// the velocity that is obtainable
+	double vel      = std::min(maxvel, sqrt(2.0*s*(endpos-startpos)*maxacc));
 	duration        = newduration;
+	if (vel == 0)
+		return;
+	double tmp      = 2.0*s*(endpos-startpos)/vel;
+	double v        = s*vel;
 	if (starting) {
 		if (tmp > duration) {
 			t1 = 0;
@@ -183,9 +197,7 @@ double VelocityProfile_TrapHalf::Acc(double time) const {
 }
 
 VelocityProfile* VelocityProfile_TrapHalf::Clone() const {
-	VelocityProfile_TrapHalf* res =  new VelocityProfile_TrapHalf(maxvel,maxacc, starting);
-	res->SetProfileDuration( this->startpos, this->endpos, this->duration );
-	return res;
+	return new VelocityProfile_TrapHalf(*this);
 }
 
 VelocityProfile_TrapHalf::~VelocityProfile_TrapHalf() {}
-- 
2.43.0


From 8b34219a50d0e5245dbe4f8bf7a6acc96b8bc5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:03 +0000
Subject: [PATCH 47/86] fix: jump profiles start initialised; a linear spline
 of no duration is at its end

---
 orocos_kdl/src/velocityprofile_dirac.cpp  | 2 +-
 orocos_kdl/src/velocityprofile_dirac.hpp  | 1 +
 orocos_kdl/src/velocityprofile_spline.cpp | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/velocityprofile_dirac.cpp b/orocos_kdl/src/velocityprofile_dirac.cpp
index 23c915b..87e6f9f 100644
--- a/orocos_kdl/src/velocityprofile_dirac.cpp
+++ b/orocos_kdl/src/velocityprofile_dirac.cpp
@@ -45,7 +45,7 @@ namespace KDL {
     SetProfileDuration(double pos1,double pos2,double duration)
     {
         SetProfile(pos1,pos2);
-        t = duration;
+        t = (duration > 0) ? duration : 0;
     }
 
     double VelocityProfile_Dirac::Duration() const {
diff --git a/orocos_kdl/src/velocityprofile_dirac.hpp b/orocos_kdl/src/velocityprofile_dirac.hpp
index 07aa62b..32baa29 100644
--- a/orocos_kdl/src/velocityprofile_dirac.hpp
+++ b/orocos_kdl/src/velocityprofile_dirac.hpp
@@ -49,6 +49,7 @@ namespace KDL {
     {
         double p1,p2,t;
     public:
+        VelocityProfile_Dirac():p1(0),p2(0),t(0) {}
         void SetProfile(double pos1,double pos2);
         virtual void SetProfileDuration(double pos1,double pos2,double duration);
         virtual double Duration() const;
diff --git a/orocos_kdl/src/velocityprofile_spline.cpp b/orocos_kdl/src/velocityprofile_spline.cpp
index ec651ed..b6f44cb 100644
--- a/orocos_kdl/src/velocityprofile_spline.cpp
+++ b/orocos_kdl/src/velocityprofile_spline.cpp
@@ -58,7 +58,7 @@ void VelocityProfile_Spline::SetProfileDuration(double pos1, double pos2, double
   duration_ = duration;
   if (duration <= std::numeric_limits<double>::epsilon() )
   {
-	coeff_[0] = pos1;
+	coeff_[0] = pos2;
 	coeff_[1] = 0.0;
 	coeff_[2] = 0.0;
 	coeff_[3] = 0.0;
-- 
2.43.0


From 9953957d7426ab1b9f482c0829913320ecd1b737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:22 +0000
Subject: [PATCH 48/86] fix: Path_Circle::Clone and Write describe the same
 circle; a circle of no length is well defined

---
 orocos_kdl/src/path_circle.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/orocos_kdl/src/path_circle.cpp b/orocos_kdl/src/path_circle.cpp
index 53261e8..0e7f598 100644
--- a/orocos_kdl/src/path_circle.cpp
+++ b/orocos_kdl/src/path_circle.cpp
@@ -88,11 +88,16 @@ Path_Circle::Path_Circle(const Frame& F_base_start,
         pathlength = oalpha*eqradius;
         scalerot = 1/eqradius;
         scalelin = dist/pathlength;
-    } else {
+    } else if (dist != 0) {
         // translation is the limitation
         pathlength = dist;
         scalerot = oalpha/pathlength;
         scalelin = 1;
+    } else {
+        // both were zero
+        pathlength = 0;
+        scalerot = 1;
+        scalelin = 1;
     }
 }
 
@@ -141,12 +146,12 @@ Path* Path_Circle::Clone() {
 	return new Path_Circle(
 		Pos(0),
 		F_base_center.p,
-		F_base_center.M.UnitY(),
+		F_base_center*Vector(0,radius,0),
 		orient->Pos(pathlength*scalerot),
-		pathlength*scalelin/radius/deg2rad,
+		pathlength*scalelin/radius,
 		orient->Clone(),
 		eqradius,
-        aggregate
+		true
 	);
 }
 
@@ -159,7 +164,7 @@ void Path_Circle::Write(std::ostream& os) {
 	os << "CIRCLE[ ";
 	os << "  " << Pos(0) << std::endl;
 	os << "  " << F_base_center.p << std::endl;
-	os << "  " << F_base_center.M.UnitY() << std::endl;
+	os << "  " << F_base_center*Vector(0,radius,0) << std::endl;
 	os << "  " << orient->Pos(pathlength*scalerot) << std::endl;
 	os << "  " << pathlength*scalelin/radius/deg2rad << std::endl;
 	os << "  ";orient->Write(os);
-- 
2.43.0


From 0360c8df631c200f8cd2d47f9275d1daa2bdeca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:26 +0000
Subject: [PATCH 49/86] fix: Path_Line::Clone is a deep copy when the
 interpolation is not owned

---
 orocos_kdl/src/path_line.cpp | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/orocos_kdl/src/path_line.cpp b/orocos_kdl/src/path_line.cpp
index 789f542..f5b8f64 100644
--- a/orocos_kdl/src/path_line.cpp
+++ b/orocos_kdl/src/path_line.cpp
@@ -151,21 +151,13 @@ Path_Line::~Path_Line() {
 }
 
 Path* Path_Line::Clone() {
-    if (aggregate )
-        return new Path_Line(
-                             Frame(orient->Pos(0),V_base_start),
-                             Frame(orient->Pos(pathlength*scalerot),V_base_end),
-                             orient->Clone(),
-                             eqradius,
-                             true
-                             );
-    // else :
+    // a deep copy : the copy always owns its own interpolation
     return new Path_Line(
                          Frame(orient->Pos(0),V_base_start),
                          Frame(orient->Pos(pathlength*scalerot),V_base_end),
-                         orient,
+                         orient->Clone(),
                          eqradius,
-                         false
+                         true
                          );
 
 }
-- 
2.43.0


From 0947eaa4d87e88fb6bef2737b4744b7fda464282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:29 +0000
Subject: [PATCH 50/86] fix: Path_Line of zero length does not move

---
 orocos_kdl/src/path_line.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/orocos_kdl/src/path_line.cpp b/orocos_kdl/src/path_line.cpp
index f5b8f64..8c1338d 100644
--- a/orocos_kdl/src/path_line.cpp
+++ b/orocos_kdl/src/path_line.cpp
@@ -76,10 +76,11 @@ Path_Line::Path_Line(const Frame& startpos,
 			scalerot   = alpha/pathlength;
 			scalelin   = 1;
 		} else {
-            // both were zero
+            // both were zero : no motion
             pathlength = 0;
-            scalerot   = 1;
+            scalerot   = 0;
             scalelin   = 1;
+            V_start_end = Vector::Zero();
         }
    }
 
@@ -119,10 +120,11 @@ Path_Line::Path_Line(const Frame& startpos,
 			scalerot   = alpha/pathlength;
 			scalelin   = 1;
 		} else {
-            // both were zero
+            // both were zero : no motion
             pathlength = 0;
-            scalerot   = 1;
+            scalerot   = 0;
             scalelin   = 1;
+            V_start_end = Vector::Zero();
         }
    }
 
-- 
2.43.0


From d4084410baf0a39b42563e8b1d08393e4b9b376b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:33 +0000
Subject: [PATCH 51/86] fix: Path_Line by a twist in the base rotates about the
 axis of the twist in the base

---
 orocos_kdl/src/path_line.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/path_line.cpp b/orocos_kdl/src/path_line.cpp
index 8c1338d..1347d5c 100644
--- a/orocos_kdl/src/path_line.cpp
+++ b/orocos_kdl/src/path_line.cpp
@@ -99,10 +99,10 @@ Path_Line::Path_Line(const Frame& startpos,
        // after 1 time unit, startframe has translated over starttwist.vel
        // and rotated over starttwist.rot.Norm() (both vectors can be zero)
        // Thus the frame on the path after 1 time unit is defined by
-       // startframe.Integrate(starttwist, 1);
+       // startframe.Integrate(startframe.M.Inverse(starttwist), 1);
 	   	V_start_end = V_base_end - V_base_start;
 	   	double dist = V_start_end.Normalize(); // distance traveled during 1 time unit
-		orient->SetStartEnd(startpos.M, (startpos*Frame( Rotation::Rot(starttwist.rot, starttwist.rot.Norm() ), starttwist.vel )).M);
+		orient->SetStartEnd(startpos.M, Rotation::Rot(starttwist.rot, starttwist.rot.Norm() )*startpos.M);
 		double alpha = orient->Angle();        // rotation during 1 time unit
 
 		// See what has the slowest eq. motion, and adapt
-- 
2.43.0


From 43e7f980cdf7409f0e036b599587071b105d1f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:11 +0000
Subject: [PATCH 52/86] fix: Path_Composite look-ups depend on nothing but
 their argument

---
 orocos_kdl/src/path_composite.cpp | 50 +++++++++++++------------------
 orocos_kdl/src/path_composite.hpp | 11 ++-----
 2 files changed, 23 insertions(+), 38 deletions(-)

diff --git a/orocos_kdl/src/path_composite.cpp b/orocos_kdl/src/path_composite.cpp
index c93f5a2..492ec02 100644
--- a/orocos_kdl/src/path_composite.cpp
+++ b/orocos_kdl/src/path_composite.cpp
@@ -44,39 +44,27 @@
 #include "utilities/error.h"
 #include "utilities/scoped_ptr.hpp"
 #include <memory>
+#include <algorithm>
+#include <cassert>
 
 namespace KDL {
 
 // s should be in allowable limits, this is not checked
-// simple linear search : TODO : make it binary search
-// uses cached_... variables
-// returns the relative path length within the segment
-// you probably want to use the cached_index variable
-double Path_Composite::Lookup(double s) const
+// binary search for the first segment that does not end before s
+// returns the relative path length within the segment, and the index of this segment
+double Path_Composite::Lookup(double s, int& index) const
 {
 	assert(s>=-1e-12);
 	assert(s<=pathlength+1e-12);
-	if ( (cached_starts <=s) && ( s <= cached_ends) ) {
-		return s - cached_starts;
-	}
-	double previous_s=0;
-	for (unsigned int i=0;i<dv.size();++i) {
-		if ((s <= dv[i])||(i == (dv.size()-1) )) {
-			cached_index = i;
-			cached_starts = previous_s;
-			cached_ends   = dv[i];
-			return s - previous_s;
-		}
-		previous_s = dv[i];
-	}
-	return 0;
+	DoubleVector::const_iterator it = std::lower_bound(dv.begin(),dv.end(),s);
+	if (it == dv.end() && it != dv.begin())
+		--it;
+	index = static_cast<int>(it - dv.begin());
+	return (it == dv.begin()) ? s : s - *(it-1);
 }
 
 Path_Composite::Path_Composite() {
 	pathlength    = 0;
-	cached_starts = 0;
-	cached_ends   = 0;
-	cached_index  = 0;
 }
 
 void Path_Composite::Add(Path* geom, bool aggregate ) {
@@ -96,18 +84,21 @@ double Path_Composite::PathLength() {
 
 
 Frame Path_Composite::Pos(double s) const {
-	s = Lookup(s);
-	return gv[cached_index].first->Pos(s);
+	int index;
+	s = Lookup(s,index);
+	return gv[index].first->Pos(s);
 }
 
 Twist Path_Composite::Vel(double s,double sd) const {
-	s = Lookup(s);
-	return gv[cached_index].first->Vel(s,sd);
+	int index;
+	s = Lookup(s,index);
+	return gv[index].first->Vel(s,sd);
 }
 
 Twist Path_Composite::Acc(double s,double sd,double sdd) const {
-	s = Lookup(s);
-	return gv[cached_index].first->Acc(s,sd,sdd);
+	int index;
+	s = Lookup(s,index);
+	return gv[index].first->Acc(s,sd,sdd);
 }
 
 Path* Path_Composite::Clone()  {
@@ -146,8 +137,7 @@ double Path_Composite::GetLengthToEndOfSegment(int i) {
 void Path_Composite::GetCurrentSegmentLocation(double s, int& segment_number,
 		double& inner_s)
 {
-	inner_s = Lookup(s);
-	segment_number= cached_index;
+	inner_s = Lookup(s,segment_number);
 }
 
 Path_Composite::~Path_Composite() {
diff --git a/orocos_kdl/src/path_composite.hpp b/orocos_kdl/src/path_composite.hpp
index 25466eb..7c3a0b8 100644
--- a/orocos_kdl/src/path_composite.hpp
+++ b/orocos_kdl/src/path_composite.hpp
@@ -55,10 +55,8 @@ namespace KDL {
 	  * A Path being the composition of other Path objects.
 	  *
 	  * For several of its methods, this class needs to lookup the segment corresponding to a value
-	  * of the path variable s.  To increase efficiency, this value is cached.
-	  *
-	  * \TODO Currently a linear search is used to look up the segment. A binary search is more efficient.  Can STL be used for this ?
-	  * \TODO Increase the efficiency for caching for the common case of a fine grained monotonously increasing path variable s.
+	  * of the path variable s.  The result of the lookup depends on s only, and a composite that is not
+	  * modified can be used by several threads at the same time.
 	  *
 	  * \TODO For all Path.., VelocityProfile.., Trajectory... check the bounds on the inputs with asserts.
 	  *
@@ -76,10 +74,7 @@ namespace KDL {
 		double pathlength;
 
 		// lookup mechanism :
-		mutable double cached_starts;
-		mutable double cached_ends;
-		mutable int    cached_index;
-		double Lookup(double s) const;
+		double Lookup(double s, int& index) const;
 	public:
 
 
-- 
2.43.0


From c5b404f46ee98003da2da4bb0d9ab3dfdef59355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:15 +0000
Subject: [PATCH 53/86] fix: copies of composite and cyclic paths own the parts
 they copied

---
 orocos_kdl/src/path_composite.cpp     | 2 +-
 orocos_kdl/src/path_cyclic_closed.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/path_composite.cpp b/orocos_kdl/src/path_composite.cpp
index 492ec02..40423d1 100644
--- a/orocos_kdl/src/path_composite.cpp
+++ b/orocos_kdl/src/path_composite.cpp
@@ -104,7 +104,7 @@ Twist Path_Composite::Acc(double s,double sd,double sdd) const {
 Path* Path_Composite::Clone()  {
 	scoped_ptr<Path_Composite> comp( new Path_Composite() );
 	for (unsigned int i = 0; i < dv.size(); ++i) {
-		comp->Add(gv[i].first->Clone(), gv[i].second);
+		comp->Add(gv[i].first->Clone(), true);
 	}
 	return comp.release();
 }
diff --git a/orocos_kdl/src/path_cyclic_closed.cpp b/orocos_kdl/src/path_cyclic_closed.cpp
index fa5c65f..2f2190e 100644
--- a/orocos_kdl/src/path_cyclic_closed.cpp
+++ b/orocos_kdl/src/path_cyclic_closed.cpp
@@ -76,7 +76,7 @@ Path_Cyclic_Closed::~Path_Cyclic_Closed() {
 }
 
 Path* Path_Cyclic_Closed::Clone() {
-	return new Path_Cyclic_Closed(geom->Clone(),times, aggregate);
+	return new Path_Cyclic_Closed(geom->Clone(),times, true);
 }
 
 void Path_Cyclic_Closed::Write(std::ostream& os)  {
-- 
2.43.0


From dd2fecd83b2383477f7011ac8194259f189a215a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:19 +0000
Subject: [PATCH 54/86] fix: Path_RoundedComposite can be copied half-built,
 keeps its shape when a point is rejected, and accepts a single point

---
 orocos_kdl/src/path_roundedcomposite.cpp | 29 ++++++++++++++++--------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/orocos_kdl/src/path_roundedcomposite.cpp b/orocos_kdl/src/path_roundedcomposite.cpp
index 2916505..8d9235c 100644
--- a/orocos_kdl/src/path_roundedcomposite.cpp
+++ b/orocos_kdl/src/path_roundedcomposite.cpp
@@ -71,6 +71,7 @@ void Path_RoundedComposite::Add(const Frame& F_base_point) {
 	double eps = 1E-7;
 	if (nrofpoints == 0) {
 		F_base_start = F_base_point;
+		F_base_via   = F_base_point;
 	} else if (nrofpoints == 1) {
 		F_base_via = F_base_point;
 	} else {
@@ -119,14 +120,21 @@ void Path_RoundedComposite::Add(const Frame& F_base_point) {
 			// end of circle segment, beginning of next line
 			Vector V_base_t = ab * (ab * bc);
 			V_base_t.Normalize();
-			comp->Add(
-					new Path_Line(F_base_start, F_base_circlestart,
-							orient->Clone(), eqradius));
-			comp->Add(
-					new Path_Circle(F_base_circlestart,
-							F_base_circlestart.p - V_base_t * radius,
-							F_base_circleend.p, F_base_circleend.M, alpha,
-							orient->Clone(), eqradius));
+			// create both parts before adding them, the circle can be rejected
+			scoped_ptr < Path
+					> line(
+							new Path_Line(F_base_start, F_base_circlestart,
+									orient->Clone(), eqradius));
+			scoped_ptr < Path
+					> circle(
+							new Path_Circle(F_base_circlestart,
+									F_base_circlestart.p - V_base_t * radius,
+									F_base_circleend.p, F_base_circleend.M, alpha,
+									orient->Clone(), eqradius));
+			comp->Add(line.get());
+			line.release();
+			comp->Add(circle.get());
+			circle.release();
 			// shift for next line
 			F_base_start = F_base_circleend; // end of the circle segment
 			F_base_via = F_base_point;
@@ -196,7 +204,10 @@ Path_RoundedComposite::~Path_RoundedComposite() {
 
 
 Path* Path_RoundedComposite::Clone() {
-	return new Path_RoundedComposite(static_cast<Path_Composite*>(comp->Clone()),radius,eqradius,orient->Clone(), true, nrofpoints);
+	Path_RoundedComposite* res = new Path_RoundedComposite(static_cast<Path_Composite*>(comp->Clone()),radius,eqradius,orient->Clone(), true, nrofpoints);
+	res->F_base_start = F_base_start;
+	res->F_base_via   = F_base_via;
+	return res;
 }
 
 }
-- 
2.43.0


From 2cbfea1751c08098735aef2034082b6e5159ab01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:22 +0000
Subject: [PATCH 55/86] fix: a rejected Path_RoundedComposite releases what it
 owns

---
 orocos_kdl/src/path_roundedcomposite.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orocos_kdl/src/path_roundedcomposite.cpp b/orocos_kdl/src/path_roundedcomposite.cpp
index 8d9235c..8660c44 100644
--- a/orocos_kdl/src/path_roundedcomposite.cpp
+++ b/orocos_kdl/src/path_roundedcomposite.cpp
@@ -63,6 +63,9 @@ Path_RoundedComposite::Path_RoundedComposite(double _radius,double _eqradius,Rot
 {
 		nrofpoints = 0;
 		if (eqradius<=0) {
+			delete comp;
+			if (aggregate)
+				delete orient;
 			throw Error_MotionPlanning_Not_Feasible(1);
 		}
 }
-- 
2.43.0


From e45a883ecabec4623aba4f8c18ea52dd279880c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:11 +0000
Subject: [PATCH 56/86] fix: Path_Circle of zero length does not move

---
 orocos_kdl/src/path_circle.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/path_circle.cpp b/orocos_kdl/src/path_circle.cpp
index 0e7f598..88488ec 100644
--- a/orocos_kdl/src/path_circle.cpp
+++ b/orocos_kdl/src/path_circle.cpp
@@ -94,10 +94,10 @@ Path_Circle::Path_Circle(const Frame& F_base_start,
         scalerot = oalpha/pathlength;
         scalelin = 1;
     } else {
-        // both were zero
+        // both were zero : no motion
         pathlength = 0;
-        scalerot = 1;
-        scalelin = 1;
+        scalerot = 0;
+        scalelin = 0;
     }
 }
 
-- 
2.43.0


From d4ef177267652aed9ec0258d252cb6e7e81340a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:54 +0000
Subject: [PATCH 57/86] fix: Trajectory_Composite::Destroy resets the duration

---
 orocos_kdl/src/trajectory_composite.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/orocos_kdl/src/trajectory_composite.cpp b/orocos_kdl/src/trajectory_composite.cpp
index 1583608..c3758ab 100644
--- a/orocos_kdl/src/trajectory_composite.cpp
+++ b/orocos_kdl/src/trajectory_composite.cpp
@@ -98,6 +98,7 @@ namespace KDL {
         }
         vt.erase(vt.begin(),vt.end());
         vd.erase(vd.begin(),vd.end());
+        duration = 0;
     }
 
     Trajectory_Composite::~Trajectory_Composite() {
-- 
2.43.0


From 5c018db3f9a7acab2155df3737cda06a317729c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:58 +0000
Subject: [PATCH 58/86] fix: Trajectory_Composite rests before its start and
 after its end

---
 orocos_kdl/src/trajectory_composite.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/orocos_kdl/src/trajectory_composite.cpp b/orocos_kdl/src/trajectory_composite.cpp
index c3758ab..45ddaac 100644
--- a/orocos_kdl/src/trajectory_composite.cpp
+++ b/orocos_kdl/src/trajectory_composite.cpp
@@ -52,8 +52,8 @@ namespace KDL {
         unsigned int i;
         Trajectory* traj;
         double previoustime;
-        if (time < 0) {
-            return vt[0]->Vel(0);
+        if (time < 0 || time > duration) {
+            return Twist::Zero(); // at rest before the start and after the end
         }
         previoustime = 0;
         for (i=0;i<vt.size();i++) {
@@ -71,8 +71,8 @@ namespace KDL {
     	unsigned int i;
         Trajectory* traj;
         double previoustime;
-        if (time < 0) {
-            return vt[0]->Acc(0);
+        if (time < 0 || time > duration) {
+            return Twist::Zero(); // at rest before the start and after the end
         }
         previoustime = 0;
         for (i=0;i<vt.size();i++) {
-- 
2.43.0


From 9e597687efb890151eb28dddcd6d7617ed366ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:21 +0000
Subject: [PATCH 59/86] fix: copies of trajectories and rounded paths release
 what they hold when a part refuses to be copied

---
 orocos_kdl/src/path_roundedcomposite.cpp |  7 ++++++-
 orocos_kdl/src/trajectory_composite.cpp  |  5 +++--
 orocos_kdl/src/trajectory_segment.cpp    | 14 ++++++++++++++
 orocos_kdl/src/trajectory_segment.hpp    |  7 +------
 4 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/orocos_kdl/src/path_roundedcomposite.cpp b/orocos_kdl/src/path_roundedcomposite.cpp
index 8660c44..391e0ac 100644
--- a/orocos_kdl/src/path_roundedcomposite.cpp
+++ b/orocos_kdl/src/path_roundedcomposite.cpp
@@ -207,7 +207,12 @@ Path_RoundedComposite::~Path_RoundedComposite() {
 
 
 Path* Path_RoundedComposite::Clone() {
-	Path_RoundedComposite* res = new Path_RoundedComposite(static_cast<Path_Composite*>(comp->Clone()),radius,eqradius,orient->Clone(), true, nrofpoints);
+	// hold the copies until their new owner exists
+	scoped_ptr<Path_Composite> new_comp( static_cast<Path_Composite*>(comp->Clone()) );
+	scoped_ptr<RotationalInterpolation> new_orient( orient->Clone() );
+	Path_RoundedComposite* res = new Path_RoundedComposite(new_comp.get(),radius,eqradius,new_orient.get(), true, nrofpoints);
+	new_comp.release();
+	new_orient.release();
 	res->F_base_start = F_base_start;
 	res->F_base_via   = F_base_via;
 	return res;
diff --git a/orocos_kdl/src/trajectory_composite.cpp b/orocos_kdl/src/trajectory_composite.cpp
index 45ddaac..95c7cd9 100644
--- a/orocos_kdl/src/trajectory_composite.cpp
+++ b/orocos_kdl/src/trajectory_composite.cpp
@@ -14,6 +14,7 @@
  ****************************************************************************/
 
 #include "trajectory_composite.hpp"
+#include "utilities/scoped_ptr.hpp"
 #include "path_composite.hpp"
 
 namespace KDL {
@@ -115,11 +116,11 @@ namespace KDL {
     }
 
     Trajectory* Trajectory_Composite::Clone() const{
-        Trajectory_Composite* comp = new Trajectory_Composite();
+        scoped_ptr<Trajectory_Composite> comp( new Trajectory_Composite() );
         for (unsigned int i = 0; i < vt.size(); ++i) {
             comp->Add(vt[i]->Clone());
         }
-        return comp;
+        return comp.release();
     }
 
 }
diff --git a/orocos_kdl/src/trajectory_segment.cpp b/orocos_kdl/src/trajectory_segment.cpp
index f0090e8..cc61775 100644
--- a/orocos_kdl/src/trajectory_segment.cpp
+++ b/orocos_kdl/src/trajectory_segment.cpp
@@ -41,6 +41,7 @@
 
 
 #include "trajectory_segment.hpp"
+#include "utilities/scoped_ptr.hpp"
 
 
 namespace KDL {
@@ -81,6 +82,19 @@ Twist Trajectory_Segment::Acc(double time) const
 }
 
 
+Trajectory* Trajectory_Segment::Clone() const
+{
+	if ( !aggregate )
+		return new Trajectory_Segment( geom, motprof, false );
+	// hold the copies until their new owner exists
+	scoped_ptr<Path> new_geom( geom->Clone() );
+	scoped_ptr<VelocityProfile> new_motprof( motprof->Clone() );
+	Trajectory* copy = new Trajectory_Segment( new_geom.get(), new_motprof.get(), true );
+	new_geom.release();
+	new_motprof.release();
+	return copy;
+}
+
 void Trajectory_Segment::Write(std::ostream& os) const
 {
 	os << "SEGMENT[ " << std::endl;
diff --git a/orocos_kdl/src/trajectory_segment.hpp b/orocos_kdl/src/trajectory_segment.hpp
index 8d72503..fef4efa 100644
--- a/orocos_kdl/src/trajectory_segment.hpp
+++ b/orocos_kdl/src/trajectory_segment.hpp
@@ -87,12 +87,7 @@ namespace KDL {
 		virtual Twist Acc(double time) const;
 		// The acceleration of the trajectory at <time>.
 
- 		virtual Trajectory* Clone() const
-			{
-				if ( aggregate )
-					return new Trajectory_Segment( geom->Clone(), motprof->Clone(), true );
-				return new Trajectory_Segment( geom, motprof, false );
-			}
+ 		virtual Trajectory* Clone() const;
 
 		virtual void Write(std::ostream& os) const;
 
-- 
2.43.0


From 1f8867c43e5941403f41cb886bd2954195bd418f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:00 +0000
Subject: [PATCH 60/86] fix: reading a Rotation2 stores the angle that was read

---
 orocos_kdl/src/frames_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/frames_io.cpp b/orocos_kdl/src/frames_io.cpp
index 0af50bb..aa5d558 100644
--- a/orocos_kdl/src/frames_io.cpp
+++ b/orocos_kdl/src/frames_io.cpp
@@ -294,7 +294,7 @@ std::istream& operator >> (std::istream& is,Rotation2& r)
     Eat(is,'[');
     double val;
     is >> val;
-    r.Rot(val*deg2rad);
+    r = Rotation2(val*deg2rad);
     EatEnd(is,']');
     IOTracePop();
     return is;
-- 
2.43.0


From 4d6a7c40c98aa8284004d71ec6c21450f436bfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:03 +0000
Subject: [PATCH 61/86] fix: EatWord never writes past the storage it was given

---
 orocos_kdl/src/utilities/utility_io.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/utilities/utility_io.cxx b/orocos_kdl/src/utilities/utility_io.cxx
index eacf6cb..c7a831b 100644
--- a/orocos_kdl/src/utilities/utility_io.cxx
+++ b/orocos_kdl/src/utilities/utility_io.cxx
@@ -190,11 +190,11 @@ void EatWord(std::istream& is,const char* delim,char* storage,int maxsize)
     size=0;
     int count = 0;
     while ((count==0)&&(strchr(delim,ch)==NULL)) {
-        *p = (char) toupper(ch);
-        ++p;
-        if (size==maxsize) {
+        if (size>=maxsize-1) { // keep room for the terminating zero
            throw Error_BasicIO_ToBig();
         }
+        *p = (char) toupper(ch);
+        ++p;
         _check_istream(is);
         ++size;
         //ch = is.get();
-- 
2.43.0


From 00c5b2f3fe0de8645a3747531b2ebeb3af498e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:07 +0000
Subject: [PATCH 62/86] fix: a stream with a read error is reported instead of
 read for ever

---
 orocos_kdl/src/utilities/utility_io.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/utilities/utility_io.cxx b/orocos_kdl/src/utilities/utility_io.cxx
index c7a831b..19c96ec 100644
--- a/orocos_kdl/src/utilities/utility_io.cxx
+++ b/orocos_kdl/src/utilities/utility_io.cxx
@@ -31,7 +31,7 @@ namespace KDL {
 
     void _check_istream(std::istream& is)
     {
-        if ((!is.good())&&(is.eof()) )
+        if ((!is.good())&&(is.eof()||is.bad()) )
             {
             throw Error_BasicIO_File();
             }
-- 
2.43.0


From 2e7e997993559bb1bce4d342bca01f9ddd21148b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:10 +0000
Subject: [PATCH 63/86] fix: input that nests paths without limit is refused

---
 orocos_kdl/src/path.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/path.cpp b/orocos_kdl/src/path.cpp
index b51a490..29c1933 100644
--- a/orocos_kdl/src/path.cpp
+++ b/orocos_kdl/src/path.cpp
@@ -57,7 +57,13 @@
 namespace KDL {
 
 
-Path* Path::Read(std::istream& is) {
+// The paths within a path are read recursively: input nested deeper than this is refused.
+static const int max_nesting = 256;
+
+static Path* ReadPath(std::istream& is,int nesting) {
+	if (nesting>max_nesting) {
+		throw Error_MotionIO_Unexpected_Traj();
+	}
 	// auto_ptr because exception can be thrown !
 	IOTrace("Path::Read");
 	char storage[64];
@@ -142,7 +148,7 @@ Path* Path::Read(std::istream& is) {
 		is >> size;
 		int i;
 		for (i=0;i<size;i++) {
-			tr->Add(Path::Read(is));
+			tr->Add(ReadPath(is,nesting+1));
 		}
 		EatEnd(is,']');
 		IOTracePop();
@@ -151,7 +157,7 @@ Path* Path::Read(std::istream& is) {
 	} else if (strcmp(storage,"CYCLIC_CLOSED")==0) {
 		IOTrace("CYCLIC_CLOSED");
 		int times;
-		scoped_ptr<Path> tr( Path::Read(is) );
+		scoped_ptr<Path> tr( ReadPath(is,nesting+1) );
 		is >> times;
 		EatEnd(is,']');
 		IOTracePop();
@@ -163,5 +169,9 @@ Path* Path::Read(std::istream& is) {
 	return NULL; // just to avoid the warning;
 }
 
+Path* Path::Read(std::istream& is) {
+	return ReadPath(is,0);
+}
+
 }
 
-- 
2.43.0


From bad042bc02cc5fc57471ebec209766335f95015f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:23 +0000
Subject: [PATCH 64/86] fix: a segment that cannot be listed at its parent is
 not left in the tree

---
 orocos_kdl/src/tree.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/tree.cpp b/orocos_kdl/src/tree.cpp
index 53d699f..869b8a6 100644
--- a/orocos_kdl/src/tree.cpp
+++ b/orocos_kdl/src/tree.cpp
@@ -71,7 +71,13 @@ bool Tree::addSegment(const Segment& segment, const std::string& hook_name) {
     if (!retval.second)
         return false;
     //add iterator to new element in parents children list
-    GetTreeElementChildren(parent->second).push_back(retval.first);
+    try {
+        GetTreeElementChildren(parent->second).push_back(retval.first);
+    } catch (...) {
+        //out of memory: leave the tree as it was
+        segments.erase(retval.first);
+        throw;
+    }
     //increase number of segments
     nrOfSegments++;
     //increase number of joints
-- 
2.43.0


From bbba5842bb7a6ad84d2fc23a4780eae4d33a59f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:26 +0000
Subject: [PATCH 65/86] fix: Path_Composite::Add adds a path completely or not
 at all, copies release their parts

---
 orocos_kdl/src/path_composite.cpp | 20 ++++++++++++++++----
 orocos_kdl/src/path_composite.hpp |  4 ++++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/orocos_kdl/src/path_composite.cpp b/orocos_kdl/src/path_composite.cpp
index 40423d1..bae05a0 100644
--- a/orocos_kdl/src/path_composite.cpp
+++ b/orocos_kdl/src/path_composite.cpp
@@ -67,10 +67,20 @@ Path_Composite::Path_Composite() {
 	pathlength    = 0;
 }
 
+void Path_Composite::Reserve(unsigned int n) {
+	const std::size_t needed = dv.size() + n;
+	if (dv.capacity() < needed)
+		dv.reserve(std::max(needed,2*dv.size()));
+	if (gv.capacity() < needed)
+		gv.reserve(std::max(needed,2*gv.size()));
+}
+
 void Path_Composite::Add(Path* geom, bool aggregate ) {
-	pathlength += geom->PathLength();
-	dv.insert(dv.end(),pathlength);
-	gv.insert( gv.end(),std::make_pair(geom,aggregate) );
+	const double length = pathlength + geom->PathLength();
+	Reserve(1); // from here on nothing can fail, geom is added or it stays with the caller
+	dv.push_back(length);
+	gv.push_back(std::make_pair(geom,aggregate));
+	pathlength = length;
 }
 
 double Path_Composite::LengthToS(double length) {
@@ -104,7 +114,9 @@ Twist Path_Composite::Acc(double s,double sd,double sdd) const {
 Path* Path_Composite::Clone()  {
 	scoped_ptr<Path_Composite> comp( new Path_Composite() );
 	for (unsigned int i = 0; i < dv.size(); ++i) {
-		comp->Add(gv[i].first->Clone(), true);
+		scoped_ptr<Path> part( gv[i].first->Clone() );
+		comp->Add(part.get(), true);
+		part.release();
 	}
 	return comp.release();
 }
diff --git a/orocos_kdl/src/path_composite.hpp b/orocos_kdl/src/path_composite.hpp
index 7c3a0b8..fbe626f 100644
--- a/orocos_kdl/src/path_composite.hpp
+++ b/orocos_kdl/src/path_composite.hpp
@@ -75,6 +75,10 @@ namespace KDL {
 
 		// lookup mechanism :
 		double Lookup(double s, int& index) const;
+
+		// makes room for n more paths, such that adding them cannot fail
+		void Reserve(unsigned int n);
+		friend class Path_RoundedComposite;
 	public:
 
 
-- 
2.43.0


From 110b274a79001e4a5aa747f10005891048673d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:30 +0000
Subject: [PATCH 66/86] fix: Path_RoundedComposite adds both parts of a corner
 or none

---
 orocos_kdl/src/path_roundedcomposite.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/orocos_kdl/src/path_roundedcomposite.cpp b/orocos_kdl/src/path_roundedcomposite.cpp
index 391e0ac..b0368df 100644
--- a/orocos_kdl/src/path_roundedcomposite.cpp
+++ b/orocos_kdl/src/path_roundedcomposite.cpp
@@ -97,9 +97,12 @@ void Path_RoundedComposite::Add(const Frame& F_base_point) {
 		}
 		if (alpha < eps) {
 			// no rounding is done in the case of parallel line segments
-			comp->Add(
-					new Path_Line(F_base_start, F_base_via, orient->Clone(),
-							eqradius));
+			scoped_ptr < Path
+					> line(
+							new Path_Line(F_base_start, F_base_via,
+									orient->Clone(), eqradius));
+			comp->Add(line.get());
+			line.release();
 			F_base_start = F_base_via;
 			F_base_via = F_base_point;
 		} else {
@@ -134,6 +137,7 @@ void Path_RoundedComposite::Add(const Frame& F_base_point) {
 									F_base_circlestart.p - V_base_t * radius,
 									F_base_circleend.p, F_base_circleend.M, alpha,
 									orient->Clone(), eqradius));
+			comp->Reserve(2); // add both or none
 			comp->Add(line.get());
 			line.release();
 			comp->Add(circle.get());
@@ -149,9 +153,12 @@ void Path_RoundedComposite::Add(const Frame& F_base_point) {
 
 void Path_RoundedComposite::Finish() {
 	if (nrofpoints >= 1) {
-		comp->Add(
-				new Path_Line(F_base_start, F_base_via, orient->Clone(),
-						eqradius));
+		scoped_ptr < Path
+				> line(
+						new Path_Line(F_base_start, F_base_via,
+								orient->Clone(), eqradius));
+		comp->Add(line.get());
+		line.release();
 	}
 }
 
-- 
2.43.0


From 6315403346ad26e1039c681e3684146b76649d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:33 +0000
Subject: [PATCH 67/86] fix: Trajectory_Composite::Add adds a part completely
 or not at all, copies release their parts

---
 orocos_kdl/src/trajectory_composite.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/orocos_kdl/src/trajectory_composite.cpp b/orocos_kdl/src/trajectory_composite.cpp
index 95c7cd9..75e3866 100644
--- a/orocos_kdl/src/trajectory_composite.cpp
+++ b/orocos_kdl/src/trajectory_composite.cpp
@@ -87,9 +87,15 @@ namespace KDL {
     }
 
     void Trajectory_Composite::Add(Trajectory* elem) {
-        vt.insert(vt.end(),elem);
-        duration += elem->Duration();
-        vd.insert(vd.end(),duration);
+        const double end = duration + elem->Duration();
+        vd.push_back(end);
+        try {
+            vt.push_back(elem);
+        } catch (...) {
+            vd.pop_back(); // out of memory: elem stays with the caller
+            throw;
+        }
+        duration = end;
     }
 
     void Trajectory_Composite::Destroy() {
@@ -118,7 +124,9 @@ namespace KDL {
     Trajectory* Trajectory_Composite::Clone() const{
         scoped_ptr<Trajectory_Composite> comp( new Trajectory_Composite() );
         for (unsigned int i = 0; i < vt.size(); ++i) {
-            comp->Add(vt[i]->Clone());
+            scoped_ptr<Trajectory> part( vt[i]->Clone() );
+            comp->Add(part.get());
+            part.release();
         }
         return comp.release();
     }
-- 
2.43.0


From c7529dd6691dcc89b01a5c5a4de329e4b472d681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:37 +0000
Subject: [PATCH 68/86] fix: a path read from a stream is released when it
 cannot be added

---
 orocos_kdl/src/path.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/path.cpp b/orocos_kdl/src/path.cpp
index 29c1933..c45ebfd 100644
--- a/orocos_kdl/src/path.cpp
+++ b/orocos_kdl/src/path.cpp
@@ -148,7 +148,9 @@ static Path* ReadPath(std::istream& is,int nesting) {
 		is >> size;
 		int i;
 		for (i=0;i<size;i++) {
-			tr->Add(ReadPath(is,nesting+1));
+			scoped_ptr<Path> part( ReadPath(is,nesting+1) );
+			tr->Add(part.get());
+			part.release();
 		}
 		EatEnd(is,']');
 		IOTracePop();
-- 
2.43.0


From 652ed66ae81f6dff3975f4346723618226e456b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:37 +0000
Subject: [PATCH 69/86] fix: every thread keeps its own motion-planning error
 stack

---
 orocos_kdl/src/utilities/error_stack.cxx | 6 +++++-
 orocos_kdl/src/utilities/error_stack.h   | 3 +--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/utilities/error_stack.cxx b/orocos_kdl/src/utilities/error_stack.cxx
index c4837e6..912d193 100644
--- a/orocos_kdl/src/utilities/error_stack.cxx
+++ b/orocos_kdl/src/utilities/error_stack.cxx
@@ -26,8 +26,12 @@ namespace KDL {
 // interpret error messages from I/O
 typedef std::stack<std::string>  ErrorStack;
 
-// should be in Thread Local Storage if this gets multithreaded one day...
+// each thread has its own trace, such that threads can use the I/O routines at the same time.
+#if __cplusplus >= 201103L || (defined(_MSC_VER) && _MSC_VER >= 1900)
+static thread_local ErrorStack errorstack;
+#else
 static ErrorStack errorstack;
+#endif
 
 
 void IOTrace(const std::string& description) {
diff --git a/orocos_kdl/src/utilities/error_stack.h b/orocos_kdl/src/utilities/error_stack.h
index 3603fff..517407c 100644
--- a/orocos_kdl/src/utilities/error_stack.h
+++ b/orocos_kdl/src/utilities/error_stack.h
@@ -46,8 +46,7 @@
 namespace KDL {
 
 /*
- * \todo
- *    IOTrace-routines store in static memory, should be in thread-local memory.
+ * The IOTrace-routines store in thread-local memory: each thread has its own trace.
  * pushes a description of the current routine on the IO-stack trace
  */
 void IOTrace(const std::string& description);
-- 
2.43.0


From 692b1e4d6cb60ee0b0c9510c1fbfec6d3c7d8ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:08 +0000
Subject: [PATCH 70/86] fix: Python solvers keep the chain and the solvers they
 refer to alive

---
 python_orocos_kdl/PyKDL/dynamics.cpp |  2 +-
 python_orocos_kdl/PyKDL/kinfam.cpp   | 33 +++++++++++++++++-----------
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/python_orocos_kdl/PyKDL/dynamics.cpp b/python_orocos_kdl/PyKDL/dynamics.cpp
index 46d0f50..6e81a3b 100644
--- a/python_orocos_kdl/PyKDL/dynamics.cpp
+++ b/python_orocos_kdl/PyKDL/dynamics.cpp
@@ -86,7 +86,7 @@ void init_dynamics(pybind11::module &m)
     // ChainDynParam
     // --------------------
     py::class_<ChainDynParam> chain_dyn_param(m, "ChainDynParam");
-    chain_dyn_param.def(py::init<const Chain&, Vector>());
+    chain_dyn_param.def(py::init<const Chain&, Vector>(), py::keep_alive<1, 2>());
     chain_dyn_param.def("JntToCoriolis", &ChainDynParam::JntToCoriolis, py::arg("q"), py::arg("q_dot"), py::arg("coriolis"));
     chain_dyn_param.def("JntToMass", &ChainDynParam::JntToMass, py::arg("q"), py::arg("H"));
     chain_dyn_param.def("JntToGravity", &ChainDynParam::JntToGravity, py::arg("q"), py::arg("gravity"));
diff --git a/python_orocos_kdl/PyKDL/kinfam.cpp b/python_orocos_kdl/PyKDL/kinfam.cpp
index fec7eda..4f60695 100644
--- a/python_orocos_kdl/PyKDL/kinfam.cpp
+++ b/python_orocos_kdl/PyKDL/kinfam.cpp
@@ -323,6 +323,8 @@ void init_kinfam(pybind11::module &m)
     // --------------------
     // SolverI
     // --------------------
+    // The solvers refer to the chain and to the other solvers they were made with, hence the
+    // keep_alive of those arguments.
     py::class_<SolverI> solver_i(m, "SolverI");
     solver_i.def("getError", &SolverI::getError);
     solver_i.def("strError", &SolverI::strError, py::arg("error"));
@@ -355,14 +357,14 @@ void init_kinfam(pybind11::module &m)
     // ChainFkSolverPos_recursive
     // ------------------------------
     py::class_<ChainFkSolverPos_recursive, ChainFkSolverPos> chain_fk_solver_pos_recursive(m, "ChainFkSolverPos_recursive");
-    chain_fk_solver_pos_recursive.def(py::init<const Chain&>(), py::arg("chain"));
+    chain_fk_solver_pos_recursive.def(py::init<const Chain&>(), py::arg("chain"), py::keep_alive<1, 2>());
 
 
     // ------------------------------
     // ChainFkSolverVel_recursive
     // ------------------------------
     py::class_<ChainFkSolverVel_recursive, ChainFkSolverVel> chain_fk_solver_vel_recursive(m, "ChainFkSolverVel_recursive");
-    chain_fk_solver_vel_recursive.def(py::init<const Chain&>(), py::arg("chain"));
+    chain_fk_solver_vel_recursive.def(py::init<const Chain&>(), py::arg("chain"), py::keep_alive<1, 2>());
 
 
     // --------------------
@@ -390,7 +392,8 @@ void init_kinfam(pybind11::module &m)
     py::class_<ChainIkSolverPos_NR, ChainIkSolverPos> chain_ik_solver_pos_NR(m, "ChainIkSolverPos_NR");
     chain_ik_solver_pos_NR.def(py::init<const Chain&, ChainFkSolverPos&, ChainIkSolverVel&, unsigned int, double>(),
                                py::arg("chain"), py::arg("fksolver"), py::arg("iksolver"),
-                               py::arg("maxiter")=100, py::arg("eps")=epsilon);
+                               py::arg("maxiter")=100, py::arg("eps")=epsilon,
+                               py::keep_alive<1, 2>(), py::keep_alive<1, 3>(), py::keep_alive<1, 4>());
 
 
     // ---------------------------
@@ -400,7 +403,8 @@ void init_kinfam(pybind11::module &m)
     chain_ik_solver_pos_NR_JL.def(py::init<const Chain&, const JntArray&, const JntArray&, ChainFkSolverPos&,
                                   ChainIkSolverVel&, unsigned int, double>(),
                                   py::arg("chain"), py::arg("q_min"), py::arg("q_max"), py::arg("fksolver"),
-                                  py::arg("iksolver"), py::arg("maxiter")=100, py::arg("eps")=epsilon);
+                                  py::arg("iksolver"), py::arg("maxiter")=100, py::arg("eps")=epsilon,
+                                  py::keep_alive<1, 2>(), py::keep_alive<1, 5>(), py::keep_alive<1, 6>());
 
 
     // -------------------------
@@ -408,7 +412,8 @@ void init_kinfam(pybind11::module &m)
     // -------------------------
     py::class_<ChainIkSolverVel_pinv, ChainIkSolverVel> chain_ik_solver_vel_pinv(m, "ChainIkSolverVel_pinv");
     chain_ik_solver_vel_pinv.def(py::init<const Chain&, double, int>(),
-                                 py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150);
+                                 py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150,
+                                 py::keep_alive<1, 2>());
 
 
     // -------------------------
@@ -416,7 +421,8 @@ void init_kinfam(pybind11::module &m)
     // -------------------------
     py::class_<ChainIkSolverVel_wdls, ChainIkSolverVel> chain_ik_solver_vel_wdls(m, "ChainIkSolverVel_wdls");
     chain_ik_solver_vel_wdls.def(py::init<const Chain&, double, int>(),
-                                 py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150);
+                                 py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150,
+                                 py::keep_alive<1, 2>());
     chain_ik_solver_vel_wdls.def("setWeightTS", &ChainIkSolverVel_wdls::setWeightTS, py::arg("matrix"));
     chain_ik_solver_vel_wdls.def("setWeightJS", &ChainIkSolverVel_wdls::setWeightJS, py::arg("matrix"));
     chain_ik_solver_vel_wdls.def("setLambda", &ChainIkSolverVel_wdls::setLambda, py::arg("lambda"));
@@ -437,10 +443,10 @@ void init_kinfam(pybind11::module &m)
     py::class_<ChainIkSolverPos_LMA, ChainIkSolverPos> chain_ik_solver_pos_LMA(m, "ChainIkSolverPos_LMA");
     chain_ik_solver_pos_LMA.def(py::init<const Chain&, const Eigen::Matrix<double,6,1>&, double, int, double>(),
                                 py::arg("chain"), py::arg("L"), py::arg("eps")=1e-5, py::arg("maxiter")=500,
-                                py::arg("eps_joints")=1e-15);
+                                py::arg("eps_joints")=1e-15, py::keep_alive<1, 2>());
     chain_ik_solver_pos_LMA.def(py::init<const Chain&, double, int, double>(),
                                 py::arg("chain"), py::arg("eps")=1e-5, py::arg("maxiter")=500,
-                                py::arg("eps_joints")=1e-15);
+                                py::arg("eps_joints")=1e-15, py::keep_alive<1, 2>());
 
 
     // ----------------------------
@@ -448,7 +454,8 @@ void init_kinfam(pybind11::module &m)
     // ----------------------------
     py::class_<ChainIkSolverVel_pinv_nso, ChainIkSolverVel> chain_ik_solver_vel_pinv_nso(m, "ChainIkSolverVel_pinv_nso");
     chain_ik_solver_vel_pinv_nso.def(py::init<const Chain&, double, int, double>(),
-                                     py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150, py::arg("alpha")=0.25);
+                                     py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150, py::arg("alpha")=0.25,
+                                     py::keep_alive<1, 2>());
     chain_ik_solver_vel_pinv_nso.def("setWeights", &ChainIkSolverVel_pinv_nso::setWeights, py::arg("weights"));
     chain_ik_solver_vel_pinv_nso.def("setOptPos", &ChainIkSolverVel_pinv_nso::setOptPos, py::arg("opt_pos"));
     chain_ik_solver_vel_pinv_nso.def("setAlpha", &ChainIkSolverVel_pinv_nso::setAlpha, py::arg("alpha"));
@@ -461,14 +468,14 @@ void init_kinfam(pybind11::module &m)
     // ChainIkSolverVel_pinv_givens
     // -------------------------------
     py::class_<ChainIkSolverVel_pinv_givens, ChainIkSolverVel> chain_ik_solver_vel_pinv_givens(m, "ChainIkSolverVel_pinv_givens");
-    chain_ik_solver_vel_pinv_givens.def(py::init<const Chain&>(), py::arg("chain"));
+    chain_ik_solver_vel_pinv_givens.def(py::init<const Chain&>(), py::arg("chain"), py::keep_alive<1, 2>());
 
 
     // ------------------------------
     // ChainJntToJacSolver
     // ------------------------------
     py::class_<ChainJntToJacSolver, SolverI> chain_jnt_to_jac_solver(m, "ChainJntToJacSolver");
-    chain_jnt_to_jac_solver.def(py::init<const Chain&>(), py::arg("chain"));
+    chain_jnt_to_jac_solver.def(py::init<const Chain&>(), py::arg("chain"), py::keep_alive<1, 2>());
     chain_jnt_to_jac_solver.def("JntToJac", &ChainJntToJacSolver::JntToJac,
                                 py::arg("q_in"), py::arg("jac"), py::arg("seg_nr")=-1);
     chain_jnt_to_jac_solver.def("setLockedJoints", &ChainJntToJacSolver::setLockedJoints, py::arg("locked_joints"));
@@ -478,7 +485,7 @@ void init_kinfam(pybind11::module &m)
     // ChainJntToJacDotSolver
     // ------------------------------
     py::class_<ChainJntToJacDotSolver, SolverI> chain_jnt_to_jac_dot_solver(m, "ChainJntToJacDotSolver");
-    chain_jnt_to_jac_dot_solver.def(py::init<const Chain&>(), py::arg("chain"));
+    chain_jnt_to_jac_dot_solver.def(py::init<const Chain&>(), py::arg("chain"), py::keep_alive<1, 2>());
     chain_jnt_to_jac_dot_solver.def("JntToJacDot", (int (ChainJntToJacDotSolver::*)(const JntArrayVel&, Jacobian&, int)) &ChainJntToJacDotSolver::JntToJacDot,
                                     py::arg("q_in"), py::arg("jdot"), py::arg("seg_nr")=-1);
     chain_jnt_to_jac_dot_solver.def("JntToJacDot", (int (ChainJntToJacDotSolver::*)(const JntArrayVel&, Twist&, int)) &ChainJntToJacDotSolver::JntToJacDot,
@@ -512,5 +519,5 @@ void init_kinfam(pybind11::module &m)
     // ChainIdSolver_RNE
     // ------------------------------
     py::class_<ChainIdSolver_RNE, ChainIdSolver> chain_id_solver_RNE(m, "ChainIdSolver_RNE");
-    chain_id_solver_RNE.def(py::init<const Chain&, Vector>(), py::arg("chain"), py::arg("grav"));
+    chain_id_solver_RNE.def(py::init<const Chain&, Vector>(), py::arg("chain"), py::arg("grav"), py::keep_alive<1, 2>());
 }
-- 
2.43.0


From d7d23921107c78a331fa046009f0b51a00825b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:36 +0000
Subject: [PATCH 71/86] fix: PyKDL rejects segment and Jacobian column indices
 out of range

---
 python_orocos_kdl/PyKDL/kinfam.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/python_orocos_kdl/PyKDL/kinfam.cpp b/python_orocos_kdl/PyKDL/kinfam.cpp
index 4f60695..32e3b27 100644
--- a/python_orocos_kdl/PyKDL/kinfam.cpp
+++ b/python_orocos_kdl/PyKDL/kinfam.cpp
@@ -173,8 +173,13 @@ void init_kinfam(pybind11::module &m)
     chain.def("addChain", &Chain::addChain, py::arg("chain"));
     chain.def("getNrOfJoints", &Chain::getNrOfJoints);
     chain.def("getNrOfSegments", &Chain::getNrOfSegments);
-    chain.def("getSegment", (Segment& (Chain::*)(unsigned int)) &Chain::getSegment, py::arg("index"));
-    chain.def("getSegment", (const Segment& (Chain::*)(unsigned int) const) &Chain::getSegment, py::arg("index"));
+    chain.def("getSegment", [](const Chain &c, unsigned int i)
+    {
+        if (i >= c.getNrOfSegments())
+            throw py::index_error("Chain segment index out of range");
+
+        return Segment(c.getSegment(i));
+    }, py::arg("index"));
     chain.def("__repr__", [](const Chain &c)
     {
         std::ostringstream oss;
@@ -217,8 +222,20 @@ void init_kinfam(pybind11::module &m)
     jacobian.def("rows", &Jacobian::rows);
     jacobian.def("columns", &Jacobian::columns);
     jacobian.def("resize", &Jacobian::resize, py::arg("nr_columns"));
-    jacobian.def("getColumn", &Jacobian::getColumn, py::arg("index"));
-    jacobian.def("setColumn", &Jacobian::setColumn, py::arg("index"), py::arg("t"));
+    jacobian.def("getColumn", [](const Jacobian &jac, unsigned int i)
+    {
+        if (i >= jac.columns())
+            throw py::index_error("Jacobian column index out of range");
+
+        return jac.getColumn(i);
+    }, py::arg("index"));
+    jacobian.def("setColumn", [](Jacobian &jac, unsigned int i, const Twist &t)
+    {
+        if (i >= jac.columns())
+            throw py::index_error("Jacobian column index out of range");
+
+        jac.setColumn(i, t);
+    }, py::arg("index"), py::arg("t"));
     jacobian.def("changeRefPoint", &Jacobian::changeRefPoint, py::arg("base"));
     jacobian.def("changeBase", &Jacobian::changeBase, py::arg("rot"));
     jacobian.def("changeRefFrame", &Jacobian::changeRefFrame, py::arg("frame"));
-- 
2.43.0


From a6e7e8c4e77604a07af4ed07afc6d1724528c8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:51 +0000
Subject: [PATCH 72/86] fix: PyKDL rejects a negative size of
 JntSpaceInertiaMatrix

---
 python_orocos_kdl/PyKDL/dynamics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python_orocos_kdl/PyKDL/dynamics.cpp b/python_orocos_kdl/PyKDL/dynamics.cpp
index 6e81a3b..0d64388 100644
--- a/python_orocos_kdl/PyKDL/dynamics.cpp
+++ b/python_orocos_kdl/PyKDL/dynamics.cpp
@@ -41,7 +41,7 @@ void init_dynamics(pybind11::module &m)
     // --------------------
     py::class_<JntSpaceInertiaMatrix> jnt_space_inertia_matrix(m, "JntSpaceInertiaMatrix");
     jnt_space_inertia_matrix.def(py::init<>());
-    jnt_space_inertia_matrix.def(py::init<int>());
+    jnt_space_inertia_matrix.def(py::init<unsigned int>());
     jnt_space_inertia_matrix.def(py::init<const JntSpaceInertiaMatrix&>());
     jnt_space_inertia_matrix.def("resize", &JntSpaceInertiaMatrix::resize, py::arg("new_size"));
     jnt_space_inertia_matrix.def("rows", &JntSpaceInertiaMatrix::rows);
-- 
2.43.0


From 248c21b4375782acf1cade372317ced2d2fcd639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:47 +0000
Subject: [PATCH 73/86] fix: give ArticulatedBodyInertia +/- RigidBodyInertia
 the definitions the header promises

---
 orocos_kdl/src/articulatedbodyinertia.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/orocos_kdl/src/articulatedbodyinertia.cpp b/orocos_kdl/src/articulatedbodyinertia.cpp
index 709096d..151d7aa 100644
--- a/orocos_kdl/src/articulatedbodyinertia.cpp
+++ b/orocos_kdl/src/articulatedbodyinertia.cpp
@@ -57,6 +57,11 @@ namespace KDL{
     ArticulatedBodyInertia operator+(const RigidBodyInertia& Ia, const ArticulatedBodyInertia& Ib){
         return ArticulatedBodyInertia(Ia)+Ib;
     }
+
+    ArticulatedBodyInertia operator+(const ArticulatedBodyInertia& Ia, const RigidBodyInertia& Ib){
+        return Ia+ArticulatedBodyInertia(Ib);
+    }
+
     ArticulatedBodyInertia operator-(const ArticulatedBodyInertia& Ia, const ArticulatedBodyInertia& Ib){
         return ArticulatedBodyInertia(Ia.M-Ib.M,Ia.H-Ib.H,Ia.I-Ib.I);
     }
@@ -64,6 +69,10 @@ namespace KDL{
     ArticulatedBodyInertia operator-(const RigidBodyInertia& Ia, const ArticulatedBodyInertia& Ib){
         return ArticulatedBodyInertia(Ia)-Ib;
     }
+
+    ArticulatedBodyInertia operator-(const ArticulatedBodyInertia& Ia, const RigidBodyInertia& Ib){
+        return Ia-ArticulatedBodyInertia(Ib);
+    }
     
     Wrench operator*(const ArticulatedBodyInertia& I,const Twist& t){
         Wrench result;
-- 
2.43.0


From 61d53cb76a7631e861ebf736ca1a61945a39828b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:30 +0000
Subject: [PATCH 74/86] fix: define SetToZero(TwistAcc&)

---
 orocos_kdl/src/frameacc.inl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/orocos_kdl/src/frameacc.inl b/orocos_kdl/src/frameacc.inl
index fa9c23c..5041917 100644
--- a/orocos_kdl/src/frameacc.inl
+++ b/orocos_kdl/src/frameacc.inl
@@ -575,6 +575,11 @@ TwistAcc FrameAcc::Inverse(const Twist& arg) const
     return tmp;
 }
 
+void SetToZero(TwistAcc& v)
+{
+    v = TwistAcc::Zero();
+}
+
 Twist TwistAcc::GetTwist() const {
     return Twist(vel.p,rot.p);
 }
-- 
2.43.0


From bbb44e47ae85542690568f22c690e62c0cc3717a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:21 +0000
Subject: [PATCH 75/86] fix: compute the derivatives before the value in
 Rall2d::operator*=

---
 orocos_kdl/src/utilities/rall2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/utilities/rall2d.h b/orocos_kdl/src/utilities/rall2d.h
index fd6f6f9..fdd9c87 100644
--- a/orocos_kdl/src/utilities/rall2d.h
+++ b/orocos_kdl/src/utilities/rall2d.h
@@ -114,9 +114,9 @@ class Rall2d
 
         INLINE Rall2d<T,V,S>& operator *=(const Rall2d<T,V,S>& rhs)
             {
-            t *= rhs.t;
-            d  = (d*rhs.t+t*rhs.d);
             dd = (dd*rhs.t+S(2)*d*rhs.d+t*rhs.dd);
+            d  = (d*rhs.t+t*rhs.d);
+            t *= rhs.t;
             return *this;
             }
 
-- 
2.43.0


From 25e0c0e3bb93303e3d08a3bc91b214f10894a938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:12 +0000
Subject: [PATCH 76/86] fix: turn about Y in RotationVel::RotY

---
 orocos_kdl/src/framevel.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/framevel.inl b/orocos_kdl/src/framevel.inl
index 05aceb0..f43195b 100644
--- a/orocos_kdl/src/framevel.inl
+++ b/orocos_kdl/src/framevel.inl
@@ -214,7 +214,7 @@ void RotationVel::DoRotY(const doubleVel& angle) {
     R.DoRotY(angle.t);
 }
 RotationVel RotationVel::RotY(const doubleVel& angle) {
-    return RotationVel(Rotation::RotX(angle.t),Vector(0,angle.grad,0));
+    return RotationVel(Rotation::RotY(angle.t),Vector(0,angle.grad,0));
 }
 
 void RotationVel::DoRotZ(const doubleVel& angle) {
-- 
2.43.0


From 7a5b28544cc621089a87676ec2e5e0f74e3a8243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:00 +0000
Subject: [PATCH 77/86] fix: put the translation first in
 diff(FrameVel,FrameVel)

---
 orocos_kdl/src/framevel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/framevel.hpp b/orocos_kdl/src/framevel.hpp
index b84e69c..92ec580 100644
--- a/orocos_kdl/src/framevel.hpp
+++ b/orocos_kdl/src/framevel.hpp
@@ -359,7 +359,7 @@ IMETHOD RotationVel addDelta(const RotationVel& a,const VectorVel&da,double dt=1
 }
 
 IMETHOD TwistVel diff(const FrameVel& a,const FrameVel& b,double dt=1.0) {
-	return TwistVel(diff(a.M,b.M,dt),diff(a.p,b.p,dt));
+	return TwistVel(diff(a.p,b.p,dt),diff(a.M,b.M,dt));
 }
 
 IMETHOD FrameVel addDelta(const FrameVel& a,const TwistVel& da,double dt=1.0) {
-- 
2.43.0


From 93cecf76eaa5a0f86321531c8ab6a46c260383fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:03 +0000
Subject: [PATCH 78/86] fix: respect eps in Normalize

---
 orocos_kdl/src/frames.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/frames.cpp b/orocos_kdl/src/frames.cpp
index 1fa9166..838eecd 100644
--- a/orocos_kdl/src/frames.cpp
+++ b/orocos_kdl/src/frames.cpp
@@ -102,7 +102,7 @@ namespace KDL {
     // if v is smaller than eps, Vector(1,0) is returned with norm 0.
     // if this is not good, check the return value of this method.
     double Vector2::Normalize(double eps) {
-        double v = this->Norm();
+        double v = this->Norm(eps);
         if (v < eps) {
             *this = Vector2(1,0);
             return 0;
@@ -145,7 +145,7 @@ namespace KDL {
     // if v is smaller than eps, Vector(1,0,0) is returned with norm 0.
     // if this is not good, check the return value of this method.
     double Vector::Normalize(double eps) {
-        double v = this->Norm();
+        double v = this->Norm(eps);
         if (v < eps) {
             *this = Vector(1,0,0);
             return 0;
-- 
2.43.0


From c7a2df09a9102c81f1d8dcb2fb2fb3e1dddf8bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:02 +0000
Subject: [PATCH 79/86] fix: let Vector::Set2DPlane set the vector

---
 orocos_kdl/src/frames.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/frames.inl b/orocos_kdl/src/frames.inl
index 8349ff1..815942a 100644
--- a/orocos_kdl/src/frames.inl
+++ b/orocos_kdl/src/frames.inl
@@ -710,7 +710,7 @@ void Vector::Set2DPlane(const Frame& F_someframe_XY,const Vector2& v_XY)
 {
 Vector tmp_XY;
 tmp_XY.Set2DXY(v_XY);
-tmp_XY = F_someframe_XY*(tmp_XY);
+*this = F_someframe_XY*(tmp_XY);
 }
 
 
-- 
2.43.0


From 96cd7ce89b7239b2f2009c1a8799eb66a80adae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:55 +0000
Subject: [PATCH 80/86] fix: return the elements of Rotation2 untransposed

---
 orocos_kdl/src/frames.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/frames.inl b/orocos_kdl/src/frames.inl
index 815942a..d2d15e9 100644
--- a/orocos_kdl/src/frames.inl
+++ b/orocos_kdl/src/frames.inl
@@ -861,9 +861,9 @@ IMETHOD double Rotation2::operator()(int i,int j) const {
     FRAMES_CHECKI((0<=i)&&(i<=1)&&(0<=j)&&(j<=1));
     if (i==j) return c;
     if (i==0) 
-        return s;
-    else
         return -s;
+    else
+        return s;
 }
 
 
-- 
2.43.0


From a4d129f189e122f709d90b9d05b3272a5b006ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:58 +0000
Subject: [PATCH 81/86] fix: return the identity from Rotation::Rot when the
 axis has no direction

---
 orocos_kdl/src/frames.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/frames.cpp b/orocos_kdl/src/frames.cpp
index 838eecd..4279262 100644
--- a/orocos_kdl/src/frames.cpp
+++ b/orocos_kdl/src/frames.cpp
@@ -296,7 +296,8 @@ Rotation Rotation::Rot(const Vector& rotaxis,double angle) {
     // can be found by multiplying it with an arbitrary vector p
     // and noting that this vector is rotated.
     Vector rotvec = rotaxis;
-	rotvec.Normalize();
+	if (rotvec.Normalize() == 0.0)
+		return Rotation::Identity();
 	return Rotation::Rot2(rotvec,angle);
 }
 
-- 
2.43.0


From aca9a579f3e8814fff4b6f24744969286b4321c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:53 +0000
Subject: [PATCH 82/86] fix: keep slow rotations in Frame::Integrate

---
 orocos_kdl/src/frames.inl | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/orocos_kdl/src/frames.inl b/orocos_kdl/src/frames.inl
index d2d15e9..6fdc5a0 100644
--- a/orocos_kdl/src/frames.inl
+++ b/orocos_kdl/src/frames.inl
@@ -623,15 +623,12 @@ Rotation Rotation::RotZ(double angle) {
 
 void Frame::Integrate(const Twist& t_this,double samplefrequency)
 {
-    double n = t_this.rot.Norm()/samplefrequency;
-    if (n<epsilon) {
-        p += M*(t_this.vel/samplefrequency);
-    } else {
-        (*this) = (*this) * 
-            Frame ( Rotation::Rot( t_this.rot, n ),
-                    t_this.vel/samplefrequency
-                );
-    }
+    Vector axis = t_this.rot/samplefrequency;
+    double n = axis.Normalize(1E-10);
+    (*this) = (*this) *
+        Frame ( Rotation::Rot2( axis, n ),
+                t_this.vel/samplefrequency
+            );
 }
 
 Rotation Rotation::Inverse() const
-- 
2.43.0


From b96fd56f39da25a2c2014ce27e55de1937a3f772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:57 +0000
Subject: [PATCH 83/86] fix: let the result of scaling joint arrays with
 derivatives be an operand

---
 orocos_kdl/src/jntarrayacc.cpp | 44 +++++++++++-----------------------
 orocos_kdl/src/jntarrayvel.cpp | 10 ++++----
 2 files changed, 18 insertions(+), 36 deletions(-)

diff --git a/orocos_kdl/src/jntarrayacc.cpp b/orocos_kdl/src/jntarrayacc.cpp
index 2d0949a..1991807 100644
--- a/orocos_kdl/src/jntarrayacc.cpp
+++ b/orocos_kdl/src/jntarrayacc.cpp
@@ -109,24 +109,16 @@ namespace KDL
     }
     void Multiply(const JntArrayAcc& src,const doubleVel& factor,JntArrayAcc& dest)
     {
-        Multiply(src.qdot,factor.grad*2,dest.qdot);
-        Multiply(src.qdotdot,factor.t,dest.qdotdot);
-        Add(dest.qdot,dest.qdotdot,dest.qdotdot);
-        Multiply(src.q,factor.grad,dest.q);
-        Multiply(src.qdot,factor.t,dest.qdot);
-        Add(dest.qdot,dest.q,dest.qdot);
+        // dest can be src: highest derivative first
+        dest.qdotdot.data = src.qdotdot.data*factor.t + src.qdot.data*(factor.grad*2);
+        dest.qdot.data = src.qdot.data*factor.t + src.q.data*factor.grad;
         Multiply(src.q,factor.t,dest.q);
     }
     void Multiply(const JntArrayAcc& src,const doubleAcc& factor,JntArrayAcc& dest)
     {
-        Multiply(src.q,factor.dd,dest.q);
-        Multiply(src.qdot,factor.d*2,dest.qdot);
-        Multiply(src.qdotdot,factor.t,dest.qdotdot);
-        Add(dest.qdotdot,dest.qdot,dest.qdotdot);
-        Add(dest.qdotdot,dest.q,dest.qdotdot);
-        Multiply(src.q,factor.d,dest.q);
-        Multiply(src.qdot,factor.t,dest.qdot);
-        Add(dest.qdot,dest.q,dest.qdot);
+        // dest can be src: highest derivative first
+        dest.qdotdot.data = src.qdotdot.data*factor.t + src.qdot.data*(factor.d*2) + src.q.data*factor.dd;
+        dest.qdot.data = src.qdot.data*factor.t + src.q.data*factor.d;
         Multiply(src.q,factor.t,dest.q);
     }
 
@@ -138,26 +130,18 @@ namespace KDL
     }
     void Divide(const JntArrayAcc& src,const doubleVel& factor,JntArrayAcc& dest)
     {
-        Multiply(src.q,(2*factor.grad*factor.grad)/(factor.t*factor.t*factor.t),dest.q);
-        Multiply(src.qdot,(2*factor.grad)/(factor.t*factor.t),dest.qdot);
-        Divide(src.qdotdot,factor.t,dest.qdotdot);
-        Subtract(dest.qdotdot,dest.qdot,dest.qdotdot);
-        Add(dest.qdotdot,dest.q,dest.qdotdot);
-        Multiply(src.q,factor.grad/(factor.t*factor.t),dest.q);
-        Divide(src.qdot,factor.t,dest.qdot);
-        Subtract(dest.qdot,dest.q,dest.qdot);
+        // dest can be src: highest derivative first
+        dest.qdotdot.data = src.qdotdot.data/factor.t - src.qdot.data*((2*factor.grad)/(factor.t*factor.t))
+            + src.q.data*((2*factor.grad*factor.grad)/(factor.t*factor.t*factor.t));
+        dest.qdot.data = src.qdot.data/factor.t - src.q.data*(factor.grad/(factor.t*factor.t));
         Divide(src.q,factor.t,dest.q);
     }
     void Divide(const JntArrayAcc& src,const doubleAcc& factor,JntArrayAcc& dest)
     {
-        Multiply(src.q,(2*factor.d*factor.d)/(factor.t*factor.t*factor.t)-factor.dd/(factor.t*factor.t),dest.q);
-        Multiply(src.qdot,(2*factor.d)/(factor.t*factor.t),dest.qdot);
-        Divide(src.qdotdot,factor.t,dest.qdotdot);
-        Subtract(dest.qdotdot,dest.qdot,dest.qdotdot);
-        Add(dest.qdotdot,dest.q,dest.qdotdot);
-        Multiply(src.q,factor.d/(factor.t*factor.t),dest.q);
-        Divide(src.qdot,factor.t,dest.qdot);
-        Subtract(dest.qdot,dest.q,dest.qdot);
+        // dest can be src: highest derivative first
+        dest.qdotdot.data = src.qdotdot.data/factor.t - src.qdot.data*((2*factor.d)/(factor.t*factor.t))
+            + src.q.data*((2*factor.d*factor.d)/(factor.t*factor.t*factor.t)-factor.dd/(factor.t*factor.t));
+        dest.qdot.data = src.qdot.data/factor.t - src.q.data*(factor.d/(factor.t*factor.t));
         Divide(src.q,factor.t,dest.q);
     }
 
diff --git a/orocos_kdl/src/jntarrayvel.cpp b/orocos_kdl/src/jntarrayvel.cpp
index 2a14250..a4d7c5d 100644
--- a/orocos_kdl/src/jntarrayvel.cpp
+++ b/orocos_kdl/src/jntarrayvel.cpp
@@ -83,9 +83,8 @@ namespace KDL
     }
     void Multiply(const JntArrayVel& src,const doubleVel& factor,JntArrayVel& dest)
     {
-        Multiply(src.q,factor.grad,dest.q);
-        Multiply(src.qdot,factor.t,dest.qdot);
-        Add(dest.qdot,dest.q,dest.qdot);
+        // dest can be src: highest derivative first
+        dest.qdot.data = src.qdot.data*factor.t + src.q.data*factor.grad;
         Multiply(src.q,factor.t,dest.q);
     }
 
@@ -96,9 +95,8 @@ namespace KDL
     }
     void Divide(const JntArrayVel& src,const doubleVel& factor,JntArrayVel& dest)
     {
-        Multiply(src.q,(factor.grad/factor.t/factor.t),dest.q);
-        Divide(src.qdot,factor.t,dest.qdot);
-        Subtract(dest.qdot,dest.q,dest.qdot);
+        // dest can be src: highest derivative first
+        dest.qdot.data = src.qdot.data/factor.t - src.q.data*(factor.grad/factor.t/factor.t);
         Divide(src.q,factor.t,dest.q);
     }
 
-- 
2.43.0


From 8e3e8508536737d53fa265cdef38db402a5372dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:01 +0000
Subject: [PATCH 84/86] fix: let the product of an inertia matrix and an array
 be stored over the array

---
 orocos_kdl/src/jntspaceinertiamatrix.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/jntspaceinertiamatrix.cpp b/orocos_kdl/src/jntspaceinertiamatrix.cpp
index fb8a4fe..12cfdff 100644
--- a/orocos_kdl/src/jntspaceinertiamatrix.cpp
+++ b/orocos_kdl/src/jntspaceinertiamatrix.cpp
@@ -98,7 +98,11 @@ namespace KDL
 
     void Multiply(const JntSpaceInertiaMatrix& src, const JntArray& vec, JntArray& dest)
     {
-        dest.data=src.data.lazyProduct(vec.data);
+        if(&vec==&dest){
+            const Eigen::VectorXd arg(vec.data);
+            dest.data=src.data.lazyProduct(arg);
+        } else
+            dest.data=src.data.lazyProduct(vec.data);
     }
     
     void SetToZero(JntSpaceInertiaMatrix& mat)
-- 
2.43.0


From 9c9274042161e9538f30dbbe0aaee7d37941f843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:55 +0000
Subject: [PATCH 85/86] fix: always calculate V and S in svd_eigen_Macie

---
 orocos_kdl/src/utilities/svd_eigen_Macie.cpp | 21 ++++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/orocos_kdl/src/utilities/svd_eigen_Macie.cpp b/orocos_kdl/src/utilities/svd_eigen_Macie.cpp
index 2b64acf..ab24817 100644
--- a/orocos_kdl/src/utilities/svd_eigen_Macie.cpp
+++ b/orocos_kdl/src/utilities/svd_eigen_Macie.cpp
@@ -151,18 +151,17 @@ namespace KDL{
                     }
                 }
 
-                //Only calculate new U and S if there were any rotations
-                if(rotations!=0){
-                    for(unsigned int i=0;i<V.rows();i++) {
-                        double si=sqrt(B.row(i).dot(B.row(i)));
-                        if(si==0)
-                            V.col(i) = B.row(i);
-                        else
-                            V.col(i) = B.row(i)/si;
-                        S(i)=si;
-                    }
+                if(rotations!=0)
                     sweeps++;
-                }
+            }
+            //A may have changed without needing any rotation: always calculate V and S
+            for(unsigned int i=0;i<V.rows();i++) {
+                double si=sqrt(B.row(i).dot(B.row(i)));
+                if(si==0)
+                    V.col(i) = B.row(i);
+                else
+                    V.col(i) = B.row(i)/si;
+                S(i)=si;
             }
             return sweeps;
         }
-- 
2.43.0


From f8e16d01262b0d5eb4986e5292904d4760f870af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:47 +0000
Subject: [PATCH 86/86] fix: draw positive numbers in posrandom(Frame)

---
 orocos_kdl/src/frames.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/frames.inl b/orocos_kdl/src/frames.inl
index 6fdc5a0..1a10b45 100644
--- a/orocos_kdl/src/frames.inl
+++ b/orocos_kdl/src/frames.inl
@@ -1262,8 +1262,8 @@ IMETHOD void posrandom(Rotation& R) {
 }
 
 IMETHOD void posrandom(Frame& F) {
-	random(F.M);
-	random(F.p);
+	posrandom(F.M);
+	posrandom(F.p);
 }
 
 
-- 
2.43.0

