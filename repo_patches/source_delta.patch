From 2d06f2e1f124e304c98545ae937fc306c6ed1b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:01 +0000
Subject: [PATCH 01/38] Verification hook: let a harness observe and steer LLG
 solver outcomes (guard FEELLGOOD_VERIF)

---
 src/solver.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/solver.cpp b/src/solver.cpp
index b0968dc..bf6c276 100644
--- a/src/solver.cpp
+++ b/src/solver.cpp
@@ -3,6 +3,10 @@
 
 #include "algebra/bicg.h"
 
+#ifdef FEELLGOOD_VERIF
+#include "feellgood_verif.h"  // supplied by the verification harness
+#endif
+
 bool LinAlgebra::solve(const timing &t_prm)
     {
     chronometer counter(2);
@@ -58,6 +62,10 @@ bool LinAlgebra::solve(const timing &t_prm)
      * */
     buildInitGuess(Xw);// gamma0 division handled by function buildInitGuess
     algebra::bicg_dir<double>(iter, K, Xw, L_rhs, lvd);
+#ifdef FEELLGOOD_VERIF
+    // Let the verification harness record this attempt and decide on its outcome.
+    feellgood_verif::solved(iter, Xw, t_prm.get_t(), t_prm.get_dt());
+#endif
 
     if ((iter.status == algebra::ITER_OVERFLOW)
             || (iter.status == algebra::CANNOT_CONVERGE)
-- 
2.43.0


From 1f94a884ee08e666cc6328822c00099f03a2e57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:19 +0000
Subject: [PATCH 02/38] fix: do not abort with dt < DTMIN when an allowed time
 step exists

When the remaining stride is between one and three times min(dt), the time
stepper returned stride - 2 * min(dt), i.e. a step below min(dt), and the
simulation was aborted even though the solver never failed.
---
 src/time_integration.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/time_integration.cpp b/src/time_integration.cpp
index 9ba87dd..3405e7c 100644
--- a/src/time_integration.cpp
+++ b/src/time_integration.cpp
@@ -31,6 +31,8 @@ public:
         if (step > stride - 2 * hard_min && step < stride)
             {
             step = stride - 2 * hard_min;
+            // If this is not a legal step, then split the remaining stride evenly.
+            if (step < hard_min) step = stride / std::ceil(stride / soft_max);
             }
         soft_max = std::max(soft_max, std::min(step * 1.1, hard_max));
         return step;
-- 
2.43.0


From eada3b835af9e5a5c4ba008484535cd285267189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:59 +0000
Subject: [PATCH 03/38] fix: do not save a rejected magnetization upon
 receiving a signal

If the signal arrived while the last integration step was being rejected for
exceeding max(du), the _at_exit.sol file contained the rejected magnetization
instead of the current one.
---
 src/mesh.h               | 7 +++++++
 src/time_integration.cpp | 1 +
 2 files changed, 8 insertions(+)

diff --git a/src/mesh.h b/src/mesh.h
index 3f6eaad..08a56df 100644
--- a/src/mesh.h
+++ b/src/mesh.h
@@ -192,6 +192,13 @@ public:
                       [](Nodes::Node &nod) { nod.evolution(); });
         }
 
+    /** go back to the state at the start of the time step, for all the nodes */
+    inline void discardStep(void)
+        {
+        std::for_each(EXEC_POL, node.begin(), node.end(),
+                      [](Nodes::Node &nod) { nod.d[Nodes::NEXT] = nod.d[Nodes::CURRENT]; });
+        }
+
     /** isobarycenter */
     Eigen::Vector3d c;
 
diff --git a/src/time_integration.cpp b/src/time_integration.cpp
index 3405e7c..ec087fc 100644
--- a/src/time_integration.cpp
+++ b/src/time_integration.cpp
@@ -227,6 +227,7 @@ int Fem::time_integration(Settings &settings /**< [in] */, LinAlgebra &linAlg /*
             if (dumax > settings.DUMAX)
                 {
                 flag++;
+                msh.discardStep();  // the rejected state should never be saved
                 continue;
                 }
 
-- 
2.43.0


From 823cf376589b1db26c30b80f994f994387271a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:57 +0000
Subject: [PATCH 04/38] fix: report the Zeeman energy at the time of the row,
 not one step earlier

The energies were computed from the magnetization at the end of the time
step, but with the applied field at its start. Advance the time first.
---
 src/time_integration.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/time_integration.cpp b/src/time_integration.cpp
index ec087fc..e837cf5 100644
--- a/src/time_integration.cpp
+++ b/src/time_integration.cpp
@@ -231,16 +231,16 @@ int Fem::time_integration(Settings &settings /**< [in] */, LinAlgebra &linAlg /*
                 continue;
                 }
 
-            compute_all(settings, spinAcc_solver, myFMM, t_prm.get_t());
-            nt++;
-            flag = 0;
-
             // Prevent rounding errors from making us miss the target.
             if (last_step)
                 t_prm.set_t(t_target);
             else
                 t_prm.inc_t();
 
+            compute_all(settings, spinAcc_solver, myFMM, t_prm.get_t());
+            nt++;
+            flag = 0;
+
             if (settings.recenter) recenter(settings.threshold, settings.recentering_direction);
             if (!settings.verbose) show_progress(t_prm.get_t() / t_prm.tf);
 
-- 
2.43.0


From 052bf6f53c35c7c12d1f567ccc09f44e3af6161f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:03 +0000
Subject: [PATCH 05/38] fix: surface anisotropy field was missing 1/mu0 and
 depended on the triangle orientation

---
 src/triangle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/triangle.cpp b/src/triangle.cpp
index 800560b..f115d22 100644
--- a/src/triangle.cpp
+++ b/src/triangle.cpp
@@ -5,7 +5,8 @@ using namespace Nodes;
 
 void Tri::integrales(Triangle::prm const &params)
     {
-    double Kbis = 2.0*params.Ks / dMs;
+    // The sign of dMs depends on the orientation of the triangle, the anisotropy field does not.
+    double Kbis = 2.0*params.Ks / (mu0*std::abs(dMs));
     
     Eigen::Matrix<double,DIM,NPI> u;
     interpolation(Nodes::get_u<CURRENT>, u);
-- 
2.43.0


From 9820ff56ab053e607180353d45fa701e4e208c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:22 +0000
Subject: [PATCH 06/38] fix: bounding box was wrong for meshes with only
 negative coordinates

__DBL_MIN__ is the smallest positive double, not the most negative one.
---
 src/mesh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.h b/src/mesh.h
index 08a56df..473d909 100644
--- a/src/mesh.h
+++ b/src/mesh.h
@@ -425,7 +425,7 @@ private:
     /** return the maximum of all nodes coordinate along coord axis */
     inline double maxNodes(const Nodes::index coord /**< [in] */) const
         {
-        return doOnNodes(__DBL_MIN__, coord, [](const double a, const double b)
+        return doOnNodes(-__DBL_MAX__, coord, [](const double a, const double b)
                         { return a > b; });
         }
 
-- 
2.43.0


From 66bfb4bf61d596137adddd81be29c758289784a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:22 +0000
Subject: [PATCH 07/38] fix: max_angle ignores the edges touching non-magnetic
 nodes

Their magnetization is NAN, which could hide the angle of other edges.
---
 src/mesh.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh.h b/src/mesh.h
index 473d909..2963bcc 100644
--- a/src/mesh.h
+++ b/src/mesh.h
@@ -305,6 +305,9 @@ public:
                 [](const double a, const double b){ return std::min(a, b); },
                 [this](const Edge &edge)
                     {
+                    // The magnetization is undefined (NAN) on the non-magnetic nodes.
+                    if (!magNode[edge.first] || !magNode[edge.second])
+                        { return 1.0; }
                     Eigen::Vector3d m1 = getNode_u(edge.first);
                     Eigen::Vector3d m2 = getNode_u(edge.second);
                     return m1.dot(m2);
-- 
2.43.0


From 8159c4b01ae46485628fb9aeff5e10e4f932b307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:17 +0000
Subject: [PATCH 08/38] fix: space-dependent field was applied to the wrong
 elements with non-magnetic regions

extSpaceField was filled by rank among the magnetic tetrahedrons, but is
read by tetrahedron index (out of bounds when magnetic ones come last).
---
 src/mesh.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index 6afad41..71de191 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -376,14 +376,14 @@ double mesh::surface(std::vector<int> &triIndices) const
 
 void mesh::setExtSpaceField()
     {
-    extSpaceField.resize(magTet.size());
-    int k(0);
-    std::for_each(magTet.begin(), magTet.end(), [this,&k](const int idx)
+    // Like tet, extSpaceField is indexed by the tetrahedron index. The elements that correspond to
+    // non-magnetic tetrahedrons are not used.
+    extSpaceField.resize(tet.size());
+    std::for_each(magTet.begin(), magTet.end(), [this](const int idx)
         {
         const Tetra::Tet &t = tet[idx];
         Eigen::Matrix<double,Nodes::DIM,Tetra::NPI> pg = t.getPtGauss();
         for(int i=0;i<Tetra::NPI;i++)
-            { extSpaceField[k].col(i) = settings.getFieldSpace(pg.col(i)); }
-        k++;
+            { extSpaceField[idx].col(i) = settings.getFieldSpace(pg.col(i)); }
         });
     }
-- 
2.43.0


From 9d1064a465f93eaee6d59a609e871b1367aabf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:10 +0000
Subject: [PATCH 09/38] fix: refuse an initial magnetization that cannot be
 normalized

---
 src/mesh.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/mesh.h b/src/mesh.h
index 2963bcc..8513e50 100644
--- a/src/mesh.h
+++ b/src/mesh.h
@@ -246,6 +246,7 @@ public:
             if (settings.getMagType() == POSITION_ONLY)
                 {
                 n.d[Nodes::CURRENT].u = settings.getMagnetization(n.p);
+                checkUnit(n);
                 n.d[Nodes::NEXT].u = n.d[Nodes::CURRENT].u;
                 continue;
                 }
@@ -279,6 +280,7 @@ public:
                 [this](const int regIdx){ return settings.paramTetra[regIdx].regName; });
 
             n.d[Nodes::CURRENT].u = settings.getMagnetization(n.p, region_names);
+            checkUnit(n);
             n.d[Nodes::NEXT].u = n.d[Nodes::CURRENT].u;
             }
         }
@@ -380,6 +382,18 @@ public:
     std::vector< Eigen::Matrix<double,Nodes::DIM,Tetra::NPI> > extSpaceField;
 
 private:
+    /** exit with an error message if the current magnetization of n is not a unit vector, i.e. if
+     * it could not be normalized */
+    static inline void checkUnit(const Nodes::Node &n)
+        {
+        if (!(std::abs(n.d[Nodes::CURRENT].u.norm() - 1.0) < 1e-6))
+            {
+            std::cerr << "Error: the initial magnetization cannot be normalized at node position ("
+                      << n.p.transpose() << ").\n";
+            exit(1);
+            }
+        }
+
     /** Reference to the Settings object. */
     Settings &settings;
 
-- 
2.43.0


From d78db135c166dc0db348b593d27080ab1362f625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:21 +0000
Subject: [PATCH 10/38] fix: solvers claimed convergence from a drifted
 recursive residual

bicg on A=[[1,0,0],[-1,1,0],[0,-1,1]], b=(1,1,1) claimed convergence
(tol 1e-8) while |b-Ax|/|b| was 0.07: the residual of the recurrences is
meaningless after a near breakdown. Confirm with the true residual.
---
 src/algebra/bicg.h | 14 ++++++++++++++
 src/algebra/cg.h   | 11 +++++++++++
 src/algebra/iter.h | 14 ++++++++++++++
 3 files changed, 39 insertions(+)

diff --git a/src/algebra/bicg.h b/src/algebra/bicg.h
index 48dbfe3..0e2ad4f 100644
--- a/src/algebra/bicg.h
+++ b/src/algebra/bicg.h
@@ -70,6 +70,10 @@ void bicg(iteration<T> &iter, SparseMatrix& A, std::vector<T> & x, const std::ve
         rho_2 = rho_1;
         ++iter;
         }
+    r.assign(b.begin(),b.end());
+    mult(A, x, v);
+    sub(v, r);             // r = b - A x;
+    iter.confirm(norm(r), norm(rt));
     }
 
 /** directional stabilized biconjugate gradient (mask) with diagonal preconditioner with Dirichlet
@@ -150,6 +154,11 @@ void bicg_dir(iteration<T> &iter, SparseMatrix& A, std::vector<T> & x, const std
         rho_2 = rho_1;
         ++iter;
         }
+    r.assign(b.begin(),b.end());
+    mult(A, x, v);
+    sub(v, r);             // r = b - A x;
+    applyMask(ld,r);
+    iter.confirm(norm(r), norm(rt));
     add(xd, x);                // x += xd
     }
 
@@ -230,6 +239,11 @@ T bicg_dir(iteration<T> &iter, SparseMatrix& A, std::vector<T> & x,
         rho_2 = rho_1;
         ++iter;
         }
+    r.assign(b.begin(),b.end());
+    mult(A, x, v);
+    sub(v, r);             // r = b - A x;
+    applyMask(ld,r);
+    iter.confirm(norm(r), norm(rt));
     return iter.get_res()/iter.get_rhsnorm();
     }
 } // end namespace alg
diff --git a/src/algebra/cg.h b/src/algebra/cg.h
index 228fea7..96c191b 100644
--- a/src/algebra/cg.h
+++ b/src/algebra/cg.h
@@ -25,6 +25,7 @@ void cg(iteration<T> &iter, SparseMatrix& A, std::vector<T> & x, const std::vect
     mult(A,x,v_temp);                     // v_temp = A x;
     sub(v_temp,r);                        // r -= v_temp; so r = b - A x;
 
+    const T r0 = norm(r);
     p_direct(diag_precond,r,z);           //mult(P, r, z);
     rho = dot(z,r);                       //rho = vect_sp(z, r);
     p.assign(z.begin(),z.end());          //copy(z, p);
@@ -53,6 +54,10 @@ void cg(iteration<T> &iter, SparseMatrix& A, std::vector<T> & x, const std::vect
         rho_1 = rho;
         ++iter;
         }
+    r.assign(b.begin(),b.end());
+    mult(A, x, v_temp);
+    sub(v_temp, r);                       // r = b - A x;
+    iter.confirm(norm(r), r0);
     //return norm(r)/norm(b);
     }
 
@@ -86,6 +91,7 @@ void cg_dir(iteration<T> &iter, SparseMatrix& A, std::vector<T> & x, const std::
 
     applyMask(ld,r);
 
+    const T r0 = norm(r);
     p_direct(diag_precond,r,z);           // z = direct_product(diag_precond, r);
     rho = dot(z,r);                       //rho = z . r;
     p.assign(z.begin(),z.end());          //copy(z, p);
@@ -116,6 +122,11 @@ void cg_dir(iteration<T> &iter, SparseMatrix& A, std::vector<T> & x, const std::
         rho_1 = rho;
         ++iter;
         }
+    r.assign(b.begin(),b.end());
+    mult(A, x, v_temp);
+    sub(v_temp, r);                       // r = b - A x;
+    applyMask(ld,r);
+    iter.confirm(norm(r), r0);
     add(xd, x);                   // x += xd
     //return norm(r)/norm(b);
     }
diff --git a/src/algebra/iter.h b/src/algebra/iter.h
index f4095de..6552689 100644
--- a/src/algebra/iter.h
+++ b/src/algebra/iter.h
@@ -162,6 +162,20 @@ class iteration
         return converged();
         }
 
+    /** confirm the convergence with the norm nr of the true residual b - A x. The residual updated by
+     * the recurrences of the algorithm may be meaningless if some intermediate scalar almost vanished.
+     * The margin is meant to tolerate ordinary rounding errors. If the right hand side is null, nr is
+     * compared to the norm r0 of the initial residual. */
+    void confirm(T nr, T r0)
+        {
+        T scale = (rhsn == 0) ? r0 : rhsn;
+        if (status == CONVERGED && !(std::fabs(nr) <= scale * std::max(T(10)*resmax, T(1e-10))))
+            {
+            res = std::fabs(nr);
+            status = CANNOT_CONVERGE;
+            }
+        }
+
     /** returns true if the algo has converged according the convergence criterias through a norm
      * value nr */
     bool finished(T nr)
-- 
2.43.0


From a7ba1d71ee6956550db8270e8377974c75e108c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:22 +0000
Subject: [PATCH 11/38] fix: regions given in several settings layers were
 duplicated, the first one winning

A region (or __default__) of the user's default.yml that was redefined in the
settings file got a second entry that was never used. Update it in place.
---
 src/settings.cpp | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index 0ffd9a1..10b0b71 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -388,10 +388,16 @@ void Settings::read(YAML::Node yaml)
                 bool has_Ms = false, has_Js = false;  // whether Ms and/or Js are defined
                 std::string name = it->first.as<std::string>();
                 YAML::Node volume = it->second;
-                Tetra::prm &p = paramTetra.emplace_back();
-                if (default_idx >= 0)
-                    { p = paramTetra[default_idx]; }
-                p.regName = name;
+                int idx = findRegionIdx<Tetra::prm>(name);
+                if (idx < 0)  // new region: start from the defaults
+                    {
+                    idx = paramTetra.size();
+                    paramTetra.emplace_back();
+                    if (default_idx >= 0)
+                        { paramTetra[idx] = paramTetra[default_idx]; }
+                    paramTetra[idx].regName = name;
+                    }
+                Tetra::prm &p = paramTetra[idx];
 
                 assign(p.A, volume["Ae"]);
                 if (assign(p.Ms, volume["Ms"]))
@@ -428,24 +434,32 @@ void Settings::read(YAML::Node yaml)
                 {
                 std::string name = it->first.as<std::string>();
                 YAML::Node surface = it->second;
-                Triangle::prm &p = paramTriangle.emplace_back();
-                if (default_idx >= 0)
-                    { p = paramTriangle[default_idx]; }
-                p.regName = name;
+                int idx = findRegionIdx<Triangle::prm>(name);
+                const bool is_new = (idx < 0);
+                if (is_new)  // start from the defaults
+                    {
+                    idx = paramTriangle.size();
+                    paramTriangle.emplace_back();
+                    if (default_idx >= 0)
+                        { paramTriangle[idx] = paramTriangle[default_idx]; }
+                    paramTriangle[idx].regName = name;
+                    }
+                Triangle::prm &p = paramTriangle[idx];
                 assign(p.suppress_charges, surface["suppress_charges"]);
                 assign(p.Ks, surface["Ks"]);
                 assign(NORMALIZE, p.uk, surface["uk"]);
 
-                // J and V may be null, which we map to NAN.
-                if (!assign(p.jn, surface["jn"]))
+                // J and V may be null, which we map to NAN. A region already defined in a previous
+                // layer keeps the values that are not redefined.
+                if (!assign(p.jn, surface["jn"]) && (is_new || surface["jn"]))
                     { p.jn = NAN; }
-                if (!assign(p.V, surface["V"]))
+                if (!assign(p.V, surface["V"]) && (is_new || surface["V"]))
                     { p.V = NAN; }
                 if (!isnan(p.jn) && !isnan(p.V))
                     { error("A surface region cannot have both no-null J and V."); }
-                if (!assign(NORMALIZE, p.uP, surface["uP"]))
+                if (!assign(NORMALIZE, p.uP, surface["uP"]) && (is_new || surface["uP"]))
                     { p.uP = Eigen::Vector3d(NAN,NAN,NAN); }
-                if (!assign(!NORMALIZE, p.s, surface["s"]))
+                if (!assign(!NORMALIZE, p.s, surface["s"]) && (is_new || surface["s"]))
                     { p.s = Eigen::Vector3d(NAN,NAN,NAN); }
                 }
             }  // mesh.surface_regions
-- 
2.43.0


From 055d7eca58a2c6e082842d988db798e786bfba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:22 +0000
Subject: [PATCH 12/38] fix: values of an earlier settings layer survived their
 redefinition

- an initial magnetization file or function of the user's default.yml was used
  although the settings file gave another form of initial magnetization
- recentering.direction was reset to Z by any later 'recentering' section
- file_basename stuck to the mesh file name of an earlier layer
- --verify printed the field function of an earlier layer
---
 src/settings.cpp | 32 ++++++++++++++++++++++----------
 src/settings.h   |  1 +
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index 10b0b71..d27639b 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -327,7 +327,8 @@ void Settings::read(YAML::Node yaml)
             if (r_path_output_dir.length() > 1 && r_path_output_dir.back() == '/')
                 { r_path_output_dir.pop_back(); }
             }
-        assign(simName, outputs["file_basename"]);
+        if (assign(simName, outputs["file_basename"]))
+            { simNameFromMesh = false; }
         assign(time_step, outputs["evol_time_step"]);
         assign(tf, outputs["final_time"]);
 
@@ -472,9 +473,13 @@ void Settings::read(YAML::Node yaml)
             {
             std::string s_mag = magnetization.as<std::string>();
             if (s_mag.find("function") == std::string::npos || s_mag.find('{') == std::string::npos)
-                { restoreFileName = s_mag; }
+                {
+                restoreFileName = s_mag;
+                sM.clear();
+                }
             else
                 {
+                restoreFileName.clear();
                 sM = s_mag;
                 mag_parser.set_function(sM);
                 }
@@ -487,6 +492,8 @@ void Settings::read(YAML::Node yaml)
             sMy = magnetization[1].as<std::string>();
             sMz = magnetization[2].as<std::string>();
             mag_parser.set_expressions("x,y,z", sMx, sMy, sMz);
+            restoreFileName.clear();
+            sM.clear();
             }
         else
             { error("initial_magnetization should be a file name or a vector of expressions."); }
@@ -498,14 +505,17 @@ void Settings::read(YAML::Node yaml)
     if (recentering && !recentering.IsNull())
         {
         assign(recenter, recentering["enable"]);
-        std::string direction = recentering["direction"].as<std::string>("Z");
-        if (direction.length() != 1 || direction[0] < 'X' || direction[0] > 'Z')
-            { error("recentering.direction should be X, Y or Z."); }
-        switch (direction[0])
+        std::string direction;
+        if (assign(direction, recentering["direction"]))
             {
-            case 'X': recentering_direction = IDX_X; break;
-            case 'Y': recentering_direction = IDX_Y; break;
-            case 'Z': recentering_direction = IDX_Z; break;
+            if (direction.length() != 1 || direction[0] < 'X' || direction[0] > 'Z')
+                { error("recentering.direction should be X, Y or Z."); }
+            switch (direction[0])
+                {
+                case 'X': recentering_direction = IDX_X; break;
+                case 'Y': recentering_direction = IDX_Y; break;
+                case 'Z': recentering_direction = IDX_Z; break;
+                }
             }
         assign(threshold, recentering["threshold"]);
         }  // recentering
@@ -527,6 +537,7 @@ void Settings::read(YAML::Node yaml)
             sBy = field[1].as<std::string>();
             sBz = field[2].as<std::string>();
             field_parser.set_expressions("t", sBx, sBy, sBz);
+            sB.clear();
             field_type = RtoR3;
             }
         else
@@ -591,8 +602,9 @@ void Settings::read(YAML::Node yaml)
         }  // time_integration
 
     // outputs.file_basename defaults to base name of mesh.filename.
-    if (simName.empty() && !pbName.empty())
+    if ((simName.empty() || simNameFromMesh) && !pbName.empty())
         {
+        simNameFromMesh = true;
         simName = pbName;
 
         // Remove directory part.
diff --git a/src/settings.h b/src/settings.h
index 49dc1c9..aa597eb 100644
--- a/src/settings.h
+++ b/src/settings.h
@@ -324,6 +324,7 @@ private:
     std::string fileDisplayName; /**< parameters file name : either a yaml file or standard input */
     double _scale;               /**< scaling factor from gmsh files to feellgood */
     std::string simName;         /**< simulation name */
+    bool simNameFromMesh = false; /**< whether simName was deduced from the mesh file name */
     std::string pbName;          /**< mesh file, gmsh file format */
     ExpressionParser mag_parser;     /**< parser for the magnetization expressions R³->R³ */
 
-- 
2.43.0


From d9516bdf1e62769592cad8867ce09fe97bbd331f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:16 +0000
Subject: [PATCH 13/38] fix: --verify printed settings that could not be read
 back as the same settings

The normal current density was printed as 'J' instead of 'jn', numbers were
truncated to 6 digits, undefined vectors were printed as [nan, nan, nan], and
strings were printed unquoted or with unescaped backslashes.
---
 src/settings.cpp | 141 +++++++++++++++++++++++++++++------------------
 1 file changed, 87 insertions(+), 54 deletions(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index d27639b..5fa7ee1 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -1,6 +1,7 @@
 #include <iostream>
 #include <string>
 #include <algorithm>
+#include <charconv>  // for to_chars()
 #include <regex>
 #include <cmath>
 #include <unistd.h>  // for sysconf(), gethostname()
@@ -79,38 +80,68 @@ static void replace(std::string &s, const std::string &search, const std::string
 // Stringify a boolean
 static const char *str(const bool x) { return x ? "true" : "false"; }
 
-// Stringify a vector
+// Stringify a number, with as many digits as needed to read the same number back
 // do NOT use std::to_string here, because cout << to_string(1e-7); does print 0.000000
-// with C++20 we should use std::format
-static const std::string str(Eigen::Vector3d v)
+static const std::string str(const double x)
     {
-    char buffer[100];
-    std::sprintf(buffer,"[%g, %g, %g]",v.x(),v.y(),v.z());
-    return std::string(buffer);
+    if (std::isnan(x))
+        { return ".nan"; }
+    if (std::isinf(x))
+        { return x < 0 ? "-.inf" : ".inf"; }
+    char buffer[40];
+    return std::string(buffer, std::to_chars(buffer, buffer + sizeof buffer, x).ptr);
+    }
+
+// Stringify a vector
+static const std::string str(const Eigen::Vector3d &v)
+    { return "[" + str(v.x()) + ", " + str(v.y()) + ", " + str(v.z()) + "]"; }
+
+// Whether a character has to be escaped within a quoted string.
+static bool is_control(const char c) { return (c >= 0 && c < ' ') || c == 0x7f; }
+
+// Enclose a string in quotes, and escape embedded special characters.
+static const std::string quote(const std::string &s)
+    {
+    std::string result = "\"";
+    for (const char c : s)
+        {
+        if (c == '\n')
+            { result += "\\n"; }
+        else if (is_control(c))
+            {
+            char buffer[8];
+            std::snprintf(buffer, sizeof buffer, "\\x%02x", c);
+            result += buffer;
+            }
+        else
+            {
+            if (c == '"' || c == '\\')
+                { result += '\\'; }
+            result += c;
+            }
+        }
+    return result + '"';
     }
 
 // Stringify a string: if it contains a newline, convert it to a multiline string in "literal style"
-// (introduced by '|'). Otherwise enclose it in quotes, and escape embedded quotes.
+// (introduced by '|'), provided this style can represent it. Otherwise enclose it in quotes.
 // `level` is the indentation level of the property whose value is being stringified.
 static const std::string str(std::string s, const int level = 0)
     {
-    // If it doesn't have a newline, quote it.
-    if (s.find('\n') == s.npos)
-        {
-        replace(s, "\"", "\\\"");  // escape embedded quotes
-        return '"' + s + '"';
-        }
+    // The literal style is for printable lines, not starting by blanks, with at most one final eol.
+    const size_t end = s.find_last_not_of('\n');
+    if (end == s.npos || s.size() > end + 2 || s.find('\n') >= end || s[0] == ' ' || s[0] == '\n'
+        || std::any_of(s.begin(), s.end(), [](char c) { return is_control(c) && c != '\n'; }))
+        { return quote(s); }
 
     // Indentation to be added to each line.
     int indent_size = (level + 1) * 2;  // the value is indented one level more than the property
     std::string indent(indent_size, ' ');
 
-    // Prepend "|\n".
-    s.insert(0, "|\n");
-
-    // Remove trailing eol.
-    if (s.back() == '\n')
-        { s.resize(s.size() - 1); }
+    // Remove the trailing eol, if any. Prepend "|\n" if there was one, otherwise "|-\n".
+    const bool has_eol = s.back() == '\n';
+    s.resize(end + 1);
+    s.insert(0, has_eol ? "|\n" : "|-\n");
 
     // Add indentation.
     replace(s, "\n", "\n" + indent);
@@ -155,85 +186,87 @@ void Settings::dumpTemplate()
 void Settings::toYaml()
     {
     std::cout << "outputs:\n";
-    std::cout << "  directory: " << r_path_output_dir << "\n";
-    std::cout << "  file_basename: " << simName << "\n";
-    std::cout << "  evol_time_step: " << time_step << "\n";
-    std::cout << "  final_time: " << tf << "\n";
+    std::cout << "  directory: " << quote(r_path_output_dir) << "\n";
+    std::cout << "  file_basename: " << quote(simName) << "\n";
+    std::cout << "  evol_time_step: " << str(time_step) << "\n";
+    std::cout << "  final_time: " << str(tf) << "\n";
     std::cout << "  evol_columns:\n";
     for (auto it = evol_columns.begin(); it != evol_columns.end(); ++it)
-        { std::cout << "    - " << *it << "\n"; }
+        { std::cout << "    - " << quote(*it) << "\n"; }
 
     std::cout << "  mag_config_every: " << save_period << "\n";
     std::cout << "  metadata:\n";
     for (auto it = userMetadata.begin(); it != userMetadata.end(); ++it)
-        { std::cout << "    " << it->first << ": " << str(it->second, 2) << '\n'; }
+        { std::cout << "    " << quote(it->first) << ": " << str(it->second, 2) << '\n'; }
 
     std::cout << "mesh:\n";
-    std::cout << "  filename: " << pbName << "\n";
-    std::cout << "  length_unit: " << _scale << "\n";
+    std::cout << "  filename: " << quote(pbName) << "\n";
+    std::cout << "  length_unit: " << str(_scale) << "\n";
     std::cout << "  volume_regions:\n";
     for (auto it = paramTetra.begin(); it != paramTetra.end(); ++it)
         {
         if (it->regName == "__default__")  // skip
             { continue; }
-        std::cout << "    " << it->regName << ":\n";
-        std::cout << "      Ae: " << it->A << "\n";
-        std::cout << "      Ms: " << it->Ms << "\n";
-        std::cout << "      K: " << it->K << "\n";
+        std::cout << "    " << quote(it->regName) << ":\n";
+        std::cout << "      Ae: " << str(it->A) << "\n";
+        std::cout << "      Ms: " << str(it->Ms) << "\n";
+        std::cout << "      K: " << str(it->K) << "\n";
         if (it->K != 0)
             { std::cout << "      uk: " << str(it->uk) << "\n"; }
-        std::cout << "      K3: " << it->K3 << "\n";
+        std::cout << "      K3: " << str(it->K3) << "\n";
         if (it->K3 != 0)
             {
             std::cout << "      ex: " << str(it->ex) << "\n";
             std::cout << "      ey: " << str(it->ey) << "\n";
             std::cout << "      ez: " << str(it->ez) << "\n";
             }
-        std::cout << "      alpha_LLG: " << it->alpha_LLG << "\n";
-        std::cout << "      sigma: " << it->sigma << "\n";
-        std::cout << "      dens_state: " << it->N0 << "\n";
-        std::cout << "      P: " << it->P << "\n";
-        std::cout << "      l_sd: " << it->lsd << "\n";
-        std::cout << "      l_sf: " << it->lsf << "\n";
+        std::cout << "      alpha_LLG: " << str(it->alpha_LLG) << "\n";
+        std::cout << "      sigma: " << str(it->sigma) << "\n";
+        std::cout << "      dens_state: " << str(it->N0) << "\n";
+        std::cout << "      P: " << str(it->P) << "\n";
+        std::cout << "      l_sd: " << str(it->lsd) << "\n";
+        std::cout << "      l_sf: " << str(it->lsf) << "\n";
         }
     std::cout << "  surface_regions:\n";
     for (auto it = paramTriangle.begin(); it != paramTriangle.end(); ++it)
         {
         if (it->regName == "__default__")  // skip
             { continue; }
-        std::cout << "    " << it->regName << ":\n";
+        std::cout << "    " << quote(it->regName) << ":\n";
         std::cout << "      suppress_charges: " << str(it->suppress_charges) << "\n";
-        std::cout << "      Ks: " << it->Ks << "\n";
+        std::cout << "      Ks: " << str(it->Ks) << "\n";
         if (it->Ks != 0)
             { std::cout << "      uk: " << str(it->uk) << "\n"; }
-        std::cout <<  "      J:";
+        std::cout <<  "      jn:";
         if (isnan(it->jn))
             { std::cout << "\n"; }
         else
-            { std::cout << ' ' << it->jn << '\n'; }
+            { std::cout << ' ' << str(it->jn) << '\n'; }
         std::cout <<  "      V:";
         if (isnan(it->V))
             { std::cout << "\n"; }
         else
-            { std::cout << ' ' << it->V << '\n'; }
+            { std::cout << ' ' << str(it->V) << '\n'; }
         if (spin_acc)
             {
-            std::cout << "      uP: " << str(it->uP) << "\n";
-            std::cout << "      s: " << str(it->s) << "\n";
+            if (it->uP.allFinite())
+                { std::cout << "      uP: " << str(it->uP) << "\n"; }
+            if (it->s.allFinite())
+                { std::cout << "      s: " << str(it->s) << "\n"; }
             }
         }
     std::cout << "initial_magnetization: ";
     if (!sM.empty())
         { std::cout << str(sM) << "\n"; }
     else if (restoreFileName.empty())
-        { std::cout << "[\"" << sMx << "\", \"" << sMy << "\", \"" << sMz << "\"]\n"; }
+        { std::cout << '[' << quote(sMx) << ", " << quote(sMy) << ", " << quote(sMz) << "]\n"; }
     else
-        { std::cout << restoreFileName << "\n"; }
+        { std::cout << str(restoreFileName) << "\n"; }
     std::cout << "initial_time:";
     if (isnan(initial_time))
         { std::cout << '\n'; }
     else
-        { std::cout << ' ' << initial_time << '\n'; }
+        { std::cout << ' ' << str(initial_time) << '\n'; }
     std::cout << "recentering:\n";
     std::cout << "  enable: " << str(recenter) << "\n";
     if (recenter)
@@ -246,7 +279,7 @@ void Settings::toYaml()
             case IDX_Y: std::cout << "Y\n"; break;
             case IDX_Z: std::cout << "Z\n"; break;
             }
-        std::cout << "  threshold: " << threshold << "\n";
+        std::cout << "  threshold: " << str(threshold) << "\n";
         }
     std::cout << "Bext: ";
     if (field_type == R4toR3)
@@ -254,7 +287,7 @@ void Settings::toYaml()
     else if (!sB.empty())
         { std::cout << str(sB) << "\n"; }
     else
-        { std::cout << "[\"" << sBx << "\", \"" << sBy << "\", \"" << sBz << "\"]\n"; }
+        { std::cout << '[' << quote(sBx) << ", " << quote(sBy) << ", " << quote(sBz) << "]\n"; }
     std::cout << "spin_accumulation:\n";
     std::cout << "  enable: " << str(spin_acc) << "\n";
     if (spin_acc)
@@ -263,11 +296,11 @@ void Settings::toYaml()
     std::cout << "  nb_threads: " << scalfmmNbTh << "\n";
     std::cout << "finite_element_solver:\n";
     std::cout << "  max(iter): " << MAXITER << "\n";
-    std::cout << "  tolerance: " << TOL << "\n";
+    std::cout << "  tolerance: " << str(TOL) << "\n";
     std::cout << "time_integration:\n";
-    std::cout << "  max(du): " << DUMAX << "\n";
-    std::cout << "  min(dt): " << dt_min << "\n";
-    std::cout << "  max(dt): " << dt_max << "\n";
+    std::cout << "  max(du): " << str(DUMAX) << "\n";
+    std::cout << "  min(dt): " << str(dt_min) << "\n";
+    std::cout << "  max(dt): " << str(dt_max) << "\n";
     }
 
 std::ostringstream Settings::commonMetadata() const
-- 
2.43.0


From b063a885ea64550bd1f55ddbaa714283dcd88d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:57 +0000
Subject: [PATCH 14/38] fix: some invalid settings were silently ignored or
 crashed the run

Sequences or maps given for a scalar were ignored, null unit vectors were
accepted, evol_time_step <= 0 ended at once with no output and status 0,
min(dt) = 0 looped forever and an empty evol_columns list crashed.
---
 src/settings.cpp | 53 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index 5fa7ee1..db33677 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -41,7 +41,7 @@ static void error(const char *message)
     exit(1);
     }
 
-// Conditionally assign a variable if the node is defined and scalar.
+// Conditionally assign a variable if the node is defined and not null. It should then be scalar.
 template<typename T>
 static bool assign(T &var, const YAML::Node &node)
     {
@@ -50,6 +50,7 @@ static bool assign(T &var, const YAML::Node &node)
         var = node.as<T>();
         return true;
         }
+    if (node && !node.IsNull()) error("a sequence or a map was given where a single value is expected.");
     return false;
     }
 
@@ -61,7 +62,11 @@ static bool assign(const bool _NORMALIZE, Eigen::Vector3d &var, const YAML::Node
         if (!node.IsSequence()) error("vectors should be YAML sequences.");
         if (node.size() != 3) error("vectors should have three components.");
         var = { node[0].as<double>(), node[1].as<double>(), node[2].as<double>() };
-        if(_NORMALIZE) var.normalize();
+        if(_NORMALIZE)
+            {
+            var.normalize();
+            if (!(std::fabs(var.norm() - 1) < USER_TOL)) error("unit vectors cannot be null.");
+            }
         return true;
         }
     return false;
@@ -346,6 +351,19 @@ std::string Settings::solMetadata(const double t) const
 
 void Settings::read(YAML::Node yaml)
     {
+    if (!yaml.IsMap())
+        { error("settings should be a map."); }
+    for (const char *section : {"recentering", "spin_accumulation", "demagnetizing_field_solver",
+            "finite_element_solver", "time_integration"})
+        {
+        YAML::Node node = yaml[section];
+        if (node && !node.IsNull() && !node.IsMap())
+            {
+            std::string message = std::string(section) + " should be a map.";
+            error(message.c_str());
+            }
+        }
+
     YAML::Node outputs = yaml["outputs"];
     if (outputs && !outputs.IsNull())
         {
@@ -362,7 +380,8 @@ void Settings::read(YAML::Node yaml)
             }
         if (assign(simName, outputs["file_basename"]))
             { simNameFromMesh = false; }
-        assign(time_step, outputs["evol_time_step"]);
+        if (assign(time_step, outputs["evol_time_step"]) && !(time_step > 0))
+            { error("outputs.evol_time_step should be positive."); }
         assign(tf, outputs["final_time"]);
 
         YAML::Node mag_config_every = outputs["mag_config_every"];
@@ -378,6 +397,8 @@ void Settings::read(YAML::Node yaml)
             {
             if (!columns.IsSequence())
                 { error("outputs.evol_columns should be a sequence."); }
+            if (columns.size() == 0)
+                { error("outputs.evol_columns should not be empty."); }
             evol_columns.clear();
             for (auto it = columns.begin(); it != columns.end(); ++it)
                 { evol_columns.push_back(it->as<std::string>()); }
@@ -422,6 +443,8 @@ void Settings::read(YAML::Node yaml)
                 bool has_Ms = false, has_Js = false;  // whether Ms and/or Js are defined
                 std::string name = it->first.as<std::string>();
                 YAML::Node volume = it->second;
+                if (!volume.IsNull() && !volume.IsMap())
+                    { error("every volume region should be a map."); }
                 int idx = findRegionIdx<Tetra::prm>(name);
                 if (idx < 0)  // new region: start from the defaults
                     {
@@ -468,6 +491,8 @@ void Settings::read(YAML::Node yaml)
                 {
                 std::string name = it->first.as<std::string>();
                 YAML::Node surface = it->second;
+                if (!surface.IsNull() && !surface.IsMap())
+                    { error("every surface region should be a map."); }
                 int idx = findRegionIdx<Triangle::prm>(name);
                 const bool is_new = (idx < 0);
                 if (is_new)  // start from the defaults
@@ -579,16 +604,12 @@ void Settings::read(YAML::Node yaml)
             YAML::Node field_time = field["time"];
             if (field_space && field_time)
                 {
-                if (field_space.IsScalar())
-                    {
-                    sB_space = field_space.as<std::string>();
-                    field_space_parser.set_function(sB_space);
-                    }
-                if (field_time.IsScalar())
-                    {
-                    sB_time = field_time.as<std::string>();
-                    field_time_parser.set_function(sB_time);
-                    }
+                if (!field_space.IsScalar() || !field_time.IsScalar())
+                    { error("Bext.space and Bext.time should be functions."); }
+                sB_space = field_space.as<std::string>();
+                field_space_parser.set_function(sB_space);
+                sB_time = field_time.as<std::string>();
+                field_time_parser.set_function(sB_time);
                 field_type = R4toR3;
                 }
             else
@@ -630,8 +651,10 @@ void Settings::read(YAML::Node yaml)
     if (time_integration && !time_integration.IsNull())
         {
         assign(DUMAX, time_integration["max(du)"]);
-        assign(dt_min, time_integration["min(dt)"]);
-        assign(dt_max, time_integration["max(dt)"]);
+        if (assign(dt_min, time_integration["min(dt)"]) && !(dt_min > 0))
+            { error("time_integration.min(dt) should be positive."); }
+        if (assign(dt_max, time_integration["max(dt)"]) && !(dt_max > 0))
+            { error("time_integration.max(dt) should be positive."); }
         }  // time_integration
 
     // outputs.file_basename defaults to base name of mesh.filename.
-- 
2.43.0


From 03f665d36b5c1a7a96ab9f6591e9ac49b8611649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:57 +0000
Subject: [PATCH 15/38] fix: --verify accepted a missing settings file, an
 empty argument was taken for --print-defaults

---
 src/main.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index e17436b..82f791b 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -132,7 +132,7 @@ std::string parseOptions(Settings &settings, int argc, char *argv[], unsigned in
         Option *o;
         for (o = options; o->setting; o++)
             {
-            if (opt == o->short_opt || opt == o->long_opt)
+            if (*opt && (opt == o->short_opt || opt == o->long_opt))
                 {
                 (*o->setting)++;
                 if (o->long_opt == "--seed" && optind < argc - 1)
@@ -188,7 +188,11 @@ std::string parseOptions(Settings &settings, int argc, char *argv[], unsigned in
     if (verify)
         {
         settings.read(get_user_defaults_filename());
-        settings.read(filename);
+        if (!settings.read(filename))
+            {
+            std::cerr << "Error: no settings found.\n";
+            exit(1);
+            }
         settings.toYaml();
         exit(0);
         }
-- 
2.43.0


From a278eaa23b59b7a97c8e9dc7137583b8907c87ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:57 +0000
Subject: [PATCH 16/38] fix: script results that are not numbers were turned
 into nan

---
 src/expression_parser.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/expression_parser.cpp b/src/expression_parser.cpp
index 39a6bda..d19b359 100644
--- a/src/expression_parser.cpp
+++ b/src/expression_parser.cpp
@@ -84,6 +84,11 @@ double ExpressionParser::get_scalar(const double arg) const
     duk_push_number(ctx, arg);          // -> [ f f arg ]
     duk_int_t err = duk_pcall(ctx, 1);  // -> [ f result ]
     die_if_error(err);
+    if (!duk_is_number(ctx, -1))
+        {
+        std::cerr << "JavaScript function did not return a number.\n";
+        exit(EXIT_FAILURE);
+        }
     double result = duk_get_number(ctx, -1);
     duk_pop(ctx);  // -> [ f ]
     return result;
@@ -91,8 +96,13 @@ double ExpressionParser::get_scalar(const double arg) const
 
 double ExpressionParser::get_vector_component(const int idx) const
     {
-    duk_push_int(ctx, idx);                      // [ ... v ] -> [ ... v idx ]
-    duk_bool_t success = duk_get_prop(ctx, -2);  //           -> [ ... v v[idx] ]
+    bool success = duk_is_object(ctx, -1);
+    if (success)
+        {
+        duk_push_int(ctx, idx);          // [ ... v ] -> [ ... v idx ]
+        duk_get_prop(ctx, -2);           //           -> [ ... v v[idx] ]
+        success = duk_is_number(ctx, -1);
+        }
     if (!success)
         {
         std::cerr << "JavaScript function did not return a 3-vector.\n";
-- 
2.43.0


From 4500b422aeeb5e4a157111b7c669aa2457f5581a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:27 +0000
Subject: [PATCH 17/38] fix: .sol files with non-magnetic nodes or spin columns
 could not be restarted from, some malformed ones were accepted

---
 src/read.cpp | 49 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/read.cpp b/src/read.cpp
index 036f451..8ecbb09 100644
--- a/src/read.cpp
+++ b/src/read.cpp
@@ -205,16 +205,16 @@ double mesh::readSol(bool VERBOSE, const std::string& fileName)
 
     std::string str;
     bool flag_t = false;
-    unsigned long idx;
 
     while (fin.peek() == '#' || fin.peek() == '\n')
         {
         getline(fin, str);
-        idx = str.find(tags::sol::time);
-        if (idx != std::string::npos)
-            {  // found tag "## time:"
-            t = stod(str.substr(idx + tags::sol::time.length() ));
-            flag_t = true;
+        if (str.rfind(tags::sol::time, 0) == 0)
+            {  // found tag "## time:", the last one supersedes any user metadata with the same key
+            const char *value = str.c_str() + tags::sol::time.length();
+            char *end;
+            t = strtod(value, &end);
+            flag_t = (end != value) && std::isfinite(t);
             }
         }
 
@@ -229,19 +229,44 @@ double mesh::readSol(bool VERBOSE, const std::string& fileName)
         std::cout << ".sol file: " << fileName << " @ time t = " << t << "\n";
         }
 
+    // Parse the numbers with strtod(): unlike operator>>, it understands the NANs which savesol()
+    // writes for the non-magnetic nodes. Any column past the potential is ignored.
     for (unsigned int i = 0; i < node.size(); i++)
         {
-        double mx,my,mz;
-        unsigned int i_;
-        int node_idx = node_index[i];
-        fin >> i_ >> mx >> my >> mz >> node[node_idx].d[Nodes::NEXT].phi;
-        node[node_idx].d[Nodes::NEXT].u = Eigen::Vector3d(mx,my,mz);
-        if (i != i_)
+        constexpr int NB_COLS = 5; // idx mx my mz phi
+        double val[NB_COLS];
+        getline(fin, str);
+        const char *pos = str.c_str();
+        bool row_ok = !fin.fail();
+        for (int j = 0; row_ok && j < NB_COLS; j++)
+            {
+            char *end;
+            val[j] = strtod(pos, &end);
+            row_ok = (end != pos);
+            pos = end;
+            }
+        if (!row_ok || val[0] != i)
             {
             std::cerr << "error: mesh node index mismatch between mesh and input .sol file\n";
             fin.close();
             SYSTEM_ERROR;
             }
+        Nodes::Node &n = node[node_index[i]];
+        n.d[Nodes::NEXT].phi = val[4];
+        n.d[Nodes::CURRENT].u = Eigen::Vector3d(NAN, NAN, NAN);
+        if (magNode[node_index[i]])
+            {
+            n.d[Nodes::CURRENT].u = Eigen::Vector3d(val[1], val[2], val[3]).normalized();
+            checkUnit(n);
+            }
+        n.d[Nodes::NEXT].u = n.d[Nodes::CURRENT].u;
+        }
+
+    if (!(fin >> std::ws).eof())
+        {
+        std::cerr << "error: input .sol file has more rows than the mesh has nodes\n";
+        fin.close();
+        SYSTEM_ERROR;
         }
     fin.close();
 
-- 
2.43.0


From 1e3993ded97ae7c211e23c2059176ca1e9d8ff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:24 +0000
Subject: [PATCH 18/38] fix: the spin accumulation depended on the previous
 states (matrix never cleared, stale magnetization)

---
 src/spinAccumulationSolver.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/spinAccumulationSolver.cpp b/src/spinAccumulationSolver.cpp
index 965e84f..45fe5d9 100644
--- a/src/spinAccumulationSolver.cpp
+++ b/src/spinAccumulationSolver.cpp
@@ -166,6 +166,8 @@ bool spinAcc::compute(void)
 bool spinAcc::solve(void)
     {
     iter.reset();
+    K.clear();
+    std::fill(L_rhs.begin(), L_rhs.end(), 0);
 
     for (Tetra::Tet &elem : msh->tet)
         {
@@ -243,14 +245,17 @@ void spinAcc::integrales(const Tetra::Tet &tet,
     if(msh->isMagnetic(tet))
         {
         const double invTau_sd = D0 / sq(getLsd(tet)); //units: [D0/sq(lsd)] = s^-1 : it is 1/tau_sd
+        Eigen::Matrix<double,N,DIM> m; // magnetization for which s is computed
+        for (int i = 0; i < N; i++)
+            { m.row(i) = msh->getNode_u(tet.ind[i]); }
 
-        diag = invTau_sd * a_w.cwiseProduct(tet.calcOffDiagBlock(IDX_X));
+        diag = invTau_sd * a_w.cwiseProduct(m.col(IDX_X));
         AE.block<N,N>(    N, 2 * N).diagonal() += diag;
         AE.block<N,N>(2 * N,     N).diagonal() -= diag;
-        diag = invTau_sd * a_w.cwiseProduct(tet.calcOffDiagBlock(IDX_Y));
+        diag = invTau_sd * a_w.cwiseProduct(m.col(IDX_Y));
         AE.block<N,N>(    0, 2 * N).diagonal() -= diag;
         AE.block<N,N>(2 * N,     0).diagonal() += diag;
-        diag = invTau_sd * a_w.cwiseProduct(tet.calcOffDiagBlock(IDX_Z));
+        diag = invTau_sd * a_w.cwiseProduct(m.col(IDX_Z));
         AE.block<N,N>(    0,     N).diagonal() += diag;
         AE.block<N,N>(    N,     0).diagonal() -= diag;
         }
-- 
2.43.0


From a779fb283e8e18e5fa171d766351bd795492fa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:49 +0000
Subject: [PATCH 19/38] fix: failures to write the output files went unnoticed

---
 src/electrostatSolver.cpp | 11 ++++++++---
 src/save.cpp              | 10 ++++++++++
 src/time_integration.cpp  |  5 +++++
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/electrostatSolver.cpp b/src/electrostatSolver.cpp
index e40a2b4..9e6afb0 100644
--- a/src/electrostatSolver.cpp
+++ b/src/electrostatSolver.cpp
@@ -84,8 +84,8 @@ void electrostatSolver::compute(const bool verbose, const std::string& V_fileNam
         {
         if (!V_fileName.empty())
             {
-            bool iznogood = save(V_fileName, "## columns: index\tV\n");
-            if (verbose && iznogood)
+            bool written = save(V_fileName, "## columns: index\tV\n");
+            if (verbose && written)
                 { std::cout << "file " << V_fileName << " written.\n"; }
             }
         }
@@ -153,7 +153,12 @@ bool electrostatSolver::save(const std::string &V_fileName, const std::string &m
         fout << i << '\t' << V[_i] << "\n";
         }
     fout.close();
-    return !(fout.good());
+    if (fout.fail())
+        {
+        std::cerr << "error while writing file " << V_fileName << "\n";
+        SYSTEM_ERROR;
+        }
+    return true;
     }
 
 double electrostatSolver::getSigma(const Tetra::Tet &tet) const
diff --git a/src/save.cpp b/src/save.cpp
index fc3a06a..c4ab421 100644
--- a/src/save.cpp
+++ b/src/save.cpp
@@ -142,6 +142,11 @@ void Fem::saver(Settings &settings, const timing &t_prm, std::ofstream &fout, co
     fout << std::flush;
 
     std::string baseName = settings.r_path_output_dir + '/' + settings.getSimName();
+    if (fout.fail())
+        {
+        std::cerr << "error while writing file " << baseName << ".evol\n";
+        SYSTEM_ERROR;
+        }
 
     if (save_period && (nt % save_period) == 0)
         {
@@ -183,4 +188,9 @@ void Mesh::mesh::savesol(const int precision, const std::string& fileName,
         fout << "\n";
         }
     fout.close();
+    if (fout.fail())
+        {
+        std::cerr << "error while writing file " << fileName << "\n";
+        SYSTEM_ERROR;
+        }
     }
diff --git a/src/time_integration.cpp b/src/time_integration.cpp
index e837cf5..d3d3724 100644
--- a/src/time_integration.cpp
+++ b/src/time_integration.cpp
@@ -252,6 +252,11 @@ int Fem::time_integration(Settings &settings /**< [in] */, LinAlgebra &linAlg /*
 
 bailout:
     fout.close();
+    if (fout.fail())
+        {
+        std::cerr << "error while writing file " << str << "\n";
+        status = 1;
+        }
     print_stats(stats);
     return status;
     }
-- 
2.43.0


From ffab9fc84541d04c475604ae211c4ab24bf6a73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:49 +0000
Subject: [PATCH 20/38] fix: a failure of the electrostatic solver ended the
 run without any message

---
 src/electrostatSolver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/electrostatSolver.cpp b/src/electrostatSolver.cpp
index 9e6afb0..977b56c 100644
--- a/src/electrostatSolver.cpp
+++ b/src/electrostatSolver.cpp
@@ -90,7 +90,10 @@ void electrostatSolver::compute(const bool verbose, const std::string& V_fileNam
             }
         }
     else
-        { exit(1); }
+        {
+        std::cerr << "Error: electrostatic solver failed.\n";
+        exit(1);
+        }
     }
 
 bool electrostatSolver::solve(void)
-- 
2.43.0


From a0b944017775d5a55d5170e04c8b9afe5b55f6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:49 +0000
Subject: [PATCH 21/38] fix: the potential was not saved in the output
 directory, metadata could break the file headers

---
 src/settings.cpp               | 9 ++++++---
 src/spinAccumulationSolver.cpp | 5 ++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index db33677..f022b4f 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -320,10 +320,13 @@ std::ostringstream Settings::commonMetadata() const
 
     for (auto it = userMetadata.begin(); it != userMetadata.end(); ++it)
         {
+        std::string key = it->first;
         std::string value = it->second;
-        if (value.back() == '\n') value.resize(value.size() - 1);  // remove trailing newline
-        replace(value, "\n", "\n##  ");  // escape and indent continuation lines
-        ss << "## " << it->first << ": " << value << '\n';
+        if (!value.empty() && value.back() == '\n')
+            { value.resize(value.size() - 1); }  // remove trailing newline
+        replace(key, "\n", "\n##  ");    // escape and indent continuation lines
+        replace(value, "\n", "\n##  ");
+        ss << "## " << key << ": " << value << '\n';
         }
     return ss;
     }
diff --git a/src/spinAccumulationSolver.cpp b/src/spinAccumulationSolver.cpp
index 45fe5d9..d954797 100644
--- a/src/spinAccumulationSolver.cpp
+++ b/src/spinAccumulationSolver.cpp
@@ -24,7 +24,10 @@ using namespace Nodes;
             pot_solver.V.resize(_msh.getNbNodes());
             std::string V_fileName("");
             if(mySettings.V_file)
-                { V_fileName = mySettings.getSimName() + "_V.sol"; }
+                {
+                V_fileName = mySettings.r_path_output_dir + '/' + mySettings.getSimName()
+                             + "_V.sol";
+                }
             pot_solver.compute(mySettings.verbose, V_fileName);
 
             V = pot_solver.V;
-- 
2.43.0


From d8e52b7a6d633e9f088e465dd3b92d534f8a300a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:55 +0000
Subject: [PATCH 22/38] fix: the second order term of the spin torque lacked a
 division by gamma0

---
 src/tetra.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tetra.cpp b/src/tetra.cpp
index 72bd24e..02f98fd 100644
--- a/src/tetra.cpp
+++ b/src/tetra.cpp
@@ -298,7 +298,7 @@ void Tet::integrales(Tetra::prm const &param, timing const &prm_t,
             BE.col(i) -= w*Abis*(da(i,0)*dUdx.col(npi) + da(i,1)*dUdy.col(npi)
                     + da(i,2)*dUdz.col(npi));// exchange
             BE.col(i) += ai_w*(H.col(npi) + Hst.col(npi) ); // Hst contribution to BE
-            BE.col(i) -= ai_w*scal_Hst_u*s_dt*V.col(npi); // spin acc second order contrib
+            BE.col(i) -= ai_w*scal_Hst_u*(s_dt/gamma0)*V.col(npi); // spin acc second order contrib
             }
         }
 
-- 
2.43.0


From 317c6e2da489216dd8eaec1a0f93ce0c2d2675ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:10 +0000
Subject: [PATCH 23/38] fix: the drift velocity of the wall was used
 uninitialized when recentering

---
 src/linear_algebra.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linear_algebra.h b/src/linear_algebra.h
index fa15855..90fa756 100644
--- a/src/linear_algebra.h
+++ b/src/linear_algebra.h
@@ -115,7 +115,7 @@ private:
     const int verbose;
 
     /** speed of the domain wall */
-    double DW_vz;
+    double DW_vz = 0;
 
     /** maximum speed of the magnetization in the whole physical object */
     double v_max;
-- 
2.43.0


From 899d150ee89a6ace2daccaa83b80a1378f3ee87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:10 +0000
Subject: [PATCH 24/38] fix: recentering translated a discarded state, along
 the wrong nodes, and ignored the configured direction

---
 src/fem.h                | 22 ++++++++++++++--------
 src/mesh.h               |  6 +++---
 src/recentering.cpp      | 37 +++++++++++++++----------------------
 src/time_integration.cpp |  3 ++-
 4 files changed, 34 insertions(+), 34 deletions(-)

diff --git a/src/fem.h b/src/fem.h
index 3d016e9..b28eb9f 100644
--- a/src/fem.h
+++ b/src/fem.h
@@ -58,7 +58,12 @@ public:
                 std::cout << "Approximate nearest neighbors:\n";
                 }
 
-            pts = annAllocPts(msh.getNbNodes(), Nodes::DIM);
+            for (int i = 0; i < msh.getNbNodes(); i++)
+                {
+                if (msh.magNode[i]) kdtree_nodes.push_back(i);
+                }
+
+            pts = annAllocPts(kdtree_nodes.size(), Nodes::DIM);
             if (!pts)
                 {
                 std::cerr << "ANN memory error while allocating points\n";
@@ -69,11 +74,11 @@ public:
                 std::cout << "  points allocated\n";
                 }
 
-            for (int i = 0; i < msh.getNbNodes(); i++)
+            for (size_t k = 0; k < kdtree_nodes.size(); k++)
                 {
-                this->pts[i][0] = msh.getNode_p(i).x();
-                this->pts[i][1] = msh.getNode_p(i).y();
-                this->pts[i][2] = msh.getNode_p(i).z();
+                this->pts[k][0] = msh.getNode_p(kdtree_nodes[k]).x();
+                this->pts[k][1] = msh.getNode_p(kdtree_nodes[k]).y();
+                this->pts[k][2] = msh.getNode_p(kdtree_nodes[k]).z();
                 }
 
             if (mySets.verbose)
@@ -81,7 +86,7 @@ public:
                 std::cout << "  building kd_tree\n";
                 }
 
-            kdtree = new ANNkd_tree(pts, msh.getNbNodes(), Nodes::DIM);
+            kdtree = new ANNkd_tree(pts, kdtree_nodes.size(), Nodes::DIM);
             if (!kdtree)
                 {
                 std::cerr << "ANN memory error while allocating kd_tree\n";
@@ -116,7 +121,7 @@ public:
 
         if (mySets.recenter)
             {
-            direction(Nodes::IDX_Z);
+            direction(mySets.recentering_direction);
             } /* DW propagation direction for recentering */
         }
 
@@ -179,7 +184,7 @@ public:
     */
 
     bool recenter(double thres /**< [in] threshold parameter */,
-                  char recentering_direction /**< [in] X|Y|Z */);
+                  enum Nodes::index idx_dir /**< [in] direction of the translation */);
 
     /** performs the time integration of the LLG problem, with spin accumulation if any */
     int time_integration(Settings &settings /**< [in] */,
@@ -194,6 +199,7 @@ private:
     ANNkd_tree *kdtree; /**< ANN kdtree to find efficiently the closest set of nodes to a physical
                            point in the mesh  */
     ANNpointArray pts;  /**< container for the building of the kdtree (handled by ANN library) */
+    std::vector<int> kdtree_nodes; /**< indices of the (magnetic) nodes of the kdtree */
 
     /** find direction of motion of DW */
     void direction(enum Nodes::index idx_dir /**< [in] */);
diff --git a/src/mesh.h b/src/mesh.h
index 8513e50..1ccfd38 100644
--- a/src/mesh.h
+++ b/src/mesh.h
@@ -164,9 +164,9 @@ public:
     /** return projection of speed at node i along eq */
     inline double getProj_eq(const int i) const {return node[i].proj_eq();}
 
-    /** setter for u0 */
-    inline void set_node_u0(const int i, const Eigen::Vector3d &val)
-        { node[i].d[Nodes::CURRENT].u = val; }
+    /** setter for the up to date magnetization of node i */
+    inline void set_node_u(const int i, const Eigen::Vector3d &val)
+        { node[i].d[Nodes::NEXT].u = val; }
 
     /** fix to zero node[i].v */
     inline void set_node_zero_v(const int i) { node[i].d[Nodes::NEXT].v.setZero(); }
diff --git a/src/recentering.cpp b/src/recentering.cpp
index 76dbb10..4b17620 100644
--- a/src/recentering.cpp
+++ b/src/recentering.cpp
@@ -22,7 +22,7 @@ void Fem::direction(const enum index idx_dir)
     queryPt[2] = qPt.z();
 
     kdtree->annkSearch(queryPt, NPS, nnIdx, dists, 0.);
-    int ns = nnIdx[0];
+    int ns = kdtree_nodes[nnIdx[0]];
     double u2L = msh.getNode_u(ns)(idx_dir);
 
     /* right */
@@ -32,7 +32,7 @@ void Fem::direction(const enum index idx_dir)
     queryPt[2] = qPt.z();
 
     kdtree->annkSearch(queryPt, NPS, nnIdx, dists, 0.);
-    ns = nnIdx[0];
+    ns = kdtree_nodes[nnIdx[0]];
 
     double u2R = msh.getNode_u(ns)(idx_dir);
     if (u2L * u2R > 0.)
@@ -44,18 +44,8 @@ void Fem::direction(const enum index idx_dir)
     annDeallocPt(queryPt);
     }
 
-bool Fem::recenter(double thres, const char recentering_direction)
+bool Fem::recenter(double thres, const enum index idx_dir)
     {
-    enum index idx_dir;
-
-    switch (recentering_direction)
-        {
-        case 'X': idx_dir = IDX_X; break;
-        case 'Y': idx_dir = IDX_Y; break;
-        case 'Z': idx_dir = IDX_Z; break;
-        default: idx_dir = IDX_Z; break;
-        }
-
     thres = abs(thres);
     double m_i = msh.avg(Nodes::get_u_comp, idx_dir);
     if (fabs(m_i) < thres) return false;
@@ -78,7 +68,7 @@ bool Fem::recenter(double thres, const char recentering_direction)
     queryPt[2] = qPt.z();
 
     kdtree->annkSearch(queryPt, NPS, nnIdx, dists, 0.);
-    ns = nnIdx[0];
+    ns = kdtree_nodes[nnIdx[0]];
     double u2L = msh.getNode_u(ns)(idx_dir);
 
     // right frontier
@@ -88,29 +78,33 @@ bool Fem::recenter(double thres, const char recentering_direction)
     queryPt[2] = qPt.z();
 
     kdtree->annkSearch(queryPt, NPS, nnIdx, dists, 0.);
-    ns = nnIdx[0];
+    ns = kdtree_nodes[nnIdx[0]];
 
     double u2R = msh.getNode_u(ns)(idx_dir);
-    if (u2L * u2R > 0)
+    if (u2L * u2R >= 0)
         {
         std::cerr << "Error No Domain Wall\n";
         SYSTEM_ERROR;
         }
 
-    assert(u2L * u2R < 0);
     double D_i = m_i * 0.5 * msh.l(idx_dir) * u2L;  // shift with correct sign
 
-    for (int i = 0; i < msh.getNbNodes(); i++)
+    // the whole pattern is read before being overwritten
+    std::vector<Eigen::Vector3d> u(kdtree_nodes.size());
+    for (size_t k = 0; k < kdtree_nodes.size(); k++)
+        { u[k] = msh.getNode_u(kdtree_nodes[k]); }
+
+    for (int i : kdtree_nodes)
         {
         Eigen::Vector3d p = msh.getNode_p(i) + D_i * p_dir;
 
         if (p(idx_dir) - msh.c(idx_dir) > +0.5 * msh.l(idx_dir))
             {
-            p = msh.c + 0.5 * msh.l(idx_dir) * p_dir;
+            p(idx_dir) = msh.c(idx_dir) + 0.5 * msh.l(idx_dir);
             }
         if (p(idx_dir) - msh.c(idx_dir) < -0.5 * msh.l(idx_dir))
             {
-            p = msh.c - 0.5 * msh.l(idx_dir) * p_dir;
+            p(idx_dir) = msh.c(idx_dir) - 0.5 * msh.l(idx_dir);
             }
 
         queryPt[0] = p.x();
@@ -118,8 +112,7 @@ bool Fem::recenter(double thres, const char recentering_direction)
         queryPt[2] = p.z();
         kdtree->annkSearch(queryPt, NPS, nnIdx, dists, 0.);
 
-        int ns = nnIdx[0];
-        msh.set_node_u0(i, msh.getNode_u(ns));
+        msh.set_node_u(i, u[nnIdx[0]]);
         msh.set_node_zero_v(i);
         }
 
diff --git a/src/time_integration.cpp b/src/time_integration.cpp
index d3d3724..71b4ad5 100644
--- a/src/time_integration.cpp
+++ b/src/time_integration.cpp
@@ -237,11 +237,12 @@ int Fem::time_integration(Settings &settings /**< [in] */, LinAlgebra &linAlg /*
             else
                 t_prm.inc_t();
 
+            // Recenter first, so that everything computed below describes the recentered state.
+            if (settings.recenter) recenter(settings.threshold, settings.recentering_direction);
             compute_all(settings, spinAcc_solver, myFMM, t_prm.get_t());
             nt++;
             flag = 0;
 
-            if (settings.recenter) recenter(settings.threshold, settings.recentering_direction);
             if (!settings.verbose) show_progress(t_prm.get_t() / t_prm.tf);
 
             stats.max_angle = std::max(stats.max_angle, msh.max_angle());
-- 
2.43.0


From 04fcc8ac089312d9548ab4ee45e856f2083a1a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:46 +0000
Subject: [PATCH 25/38] fix: meshMaker: a sub-surface's triangles leave the
 outer surface, with numeric tags

---
 python-modules/meshMaker.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/python-modules/meshMaker.py b/python-modules/meshMaker.py
index c3c4897..2e1a4cf 100644
--- a/python-modules/meshMaker.py
+++ b/python-modules/meshMaker.py
@@ -550,7 +550,12 @@ class Cuboid(object):
         return(nbElem)
         
     def add_sub_surface(self,subSurfRegName,func):
+        """
+        move the triangles whose three nodes verify func(x,y,z) from the outer surface to a new
+        surface region: the solver does not accept a triangle belonging to several surfaces
+        """
         tempo_subSurf = []
+        tempo_Tri = []
         for i in range(0,len(self.Tri)):
             f = self.Tri[i]
             idxA = f[0]
@@ -562,6 +567,9 @@ class Cuboid(object):
             
             if(func(A[1],A[2],A[3]) and func(B[1],B[2],B[3]) and func(C[1],C[2],C[3]) ):
                 tempo_subSurf.append( [idxA,idxB,idxC] )
+            else:
+                tempo_Tri.append(f)
+        self.Tri = tempo_Tri
         self.subSurf.append( tempo_subSurf )
         self.subSurfRegName.append(subSurfRegName)
 
@@ -603,7 +611,8 @@ class Cuboid(object):
         for i in range(0,len(self.subSurf)):
             for j in range(0,len(self.subSurf[i])):
                 s = self.stringTri(self.subSurf[i],j)
-                meshFile.write( str(idx)+"\t2\t2\t" + self.subSurfRegName[i] + "\t1\t"+ s + "\n" )
+                meshFile.write( str(idx)+"\t2\t2\t" + str(surfRegionTag + 1 + i) + "\t" + str(2 + i)
+                        + "\t" + s + "\n" )
                 idx += 1
         meshFile.write("$EndElements\n")
         meshFile.close()
-- 
2.43.0


From 22f99a76da42cbdac7cc77408e8d57b828de140c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:46 +0000
Subject: [PATCH 26/38] fix: fg-sol2hdf5/fg-h5extract: extract valid .sol and
 .evol files, keep all columns

---
 tools/fg-h5extract | 17 ++++++++++++-----
 tools/fg-sol2hdf5  | 10 +++++-----
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/tools/fg-h5extract b/tools/fg-h5extract
index 41f523b..ebd104a 100755
--- a/tools/fg-h5extract
+++ b/tools/fg-h5extract
@@ -15,15 +15,22 @@ def buildSolMetadata(solDataset):
 
 def writeFile(fileName,whatToWrite,metadata):
     if type(whatToWrite)==str:
-        with open(fileName,'w') as f:
+        with open(fileName,'w',encoding='utf-8') as f:
             f.write(metadata)
             f.write(whatToWrite)
             f.close()
     else:
-        np.savetxt(fileName,whatToWrite,delimiter='\t',newline='\n',header=metadata,comments='')
+        # np.savetxt() adds its own newline to the header
+        np.savetxt(fileName,whatToWrite,delimiter='\t',newline='\n',header=metadata.rstrip('\n'),
+                comments='',encoding='utf-8')
 
 def writeSolFile(fileName,dataSolFile):
-    writeFile( fileName, dataSolFile, buildSolMetadata(dataSolFile))
+    data = np.array(dataSolFile)
+    # the first column of a .sol file is the node index
+    data = np.column_stack((np.arange(len(data)), data))
+    fmt = ['%d'] + ['%.18e']*(data.shape[1] - 1)
+    np.savetxt(fileName,data,fmt=fmt,delimiter='\t',newline='\n',
+            header=buildSolMetadata(dataSolFile).rstrip('\n'),comments='',encoding='utf-8')
 
 def viewGroup(h5file,groupName):
     print(groupName)
@@ -87,8 +94,8 @@ def main():
         fileName = inputs['h5FileName']
         f = h5py.File(fileName,'r')
 
-        if ((inputs['groupname'] == 'emptyGroupName')or(inputs['groupname'] in f.keys()))
-                and inputs['view']:
+        if (((inputs['groupname'] == 'emptyGroupName')or(inputs['groupname'] in f.keys()))
+                and inputs['view']):
             view(f,inputs['groupname'])
         elif not(inputs['groupname'] in f.keys()):
             print("error: group " + inputs['groupname'] + " does not exist in file "
diff --git a/tools/fg-sol2hdf5 b/tools/fg-sol2hdf5
index 986e910..51ed086 100755
--- a/tools/fg-sol2hdf5
+++ b/tools/fg-sol2hdf5
@@ -113,9 +113,9 @@ def main():
         sub_s = sol_f[nb_iter_begin:nb_iter_end]
         metadata = readMetadataSolFile(sol_f)
         
-        with open(sol_f,'r') as f:
-            my_data = np.genfromtxt(f,delimiter='\t',comments='#',dtype=np.float64,
-                    usecols=(1,2,3,4))
+        with open(sol_f,'r',encoding='utf-8') as f:
+            my_data = np.loadtxt(f,delimiter='\t',comments='#',dtype=np.float64,
+                    ndmin=2)[:,1:] # all columns but the node index
             dset = g.create_dataset("solFile"+sub_s, data = my_data)
 
         for k in metadata.items():
@@ -130,8 +130,8 @@ def main():
                 evolMetadata += l
         evolFile.close()
     
-    with open(evolFileName,'r') as f:
-        my_evol_data = np.genfromtxt(f,delimiter='\t',comments='#',dtype=np.float64) 
+    with open(evolFileName,'r',encoding='utf-8') as f:
+        my_evol_data = np.loadtxt(f,delimiter='\t',comments='#',dtype=np.float64,ndmin=2)
     
     evol_dset = g.create_dataset("evolFile",data = my_evol_data)
     evol_dset.attrs['metadata'] = evolMetadata
-- 
2.43.0


From d7b3a7ea92d6d574e024320a13b4e9b78a8623fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:46 +0000
Subject: [PATCH 27/38] fix: fg-configurator: quote the answers, honour an
 empty XDG_CONFIG_HOME, create ~/.config

---
 tools/fg-configurator | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/tools/fg-configurator b/tools/fg-configurator
index d0ccdab..27613cd 100755
--- a/tools/fg-configurator
+++ b/tools/fg-configurator
@@ -18,6 +18,7 @@
 
 import sys
 import os
+import json
 
 from multiprocessing import cpu_count
 maxNbThreads = cpu_count()
@@ -25,19 +26,22 @@ licences = ['None','CC BY','CC BY-SA'] # check
 fileName = "default.yml" # output file name
 
 def writeYaml(fileName,metadata):
-    config_dir = os.environ.get('XDG_CONFIG_HOME', os.path.join(os.path.expanduser("~"), '.config'))
+    # like the solver, treat an empty XDG_CONFIG_HOME as if it were unset
+    config_dir = os.environ.get('XDG_CONFIG_HOME') or os.path.join(os.path.expanduser("~"), '.config')
     configFilePath = config_dir + '/' + "feellgood"
     
     found = os.path.exists(configFilePath)
     if not found:
         try:
-            os.mkdir(configFilePath)
+            os.makedirs(configFilePath)
         except PermissionError:
             print("not authorized to create", configFilePath)
             sys.exit()
 
     outputFile = configFilePath + '/' + fileName
-    with open(outputFile,'w') as file:
+    # a JSON string is a valid YAML double-quoted scalar
+    quote = lambda s: json.dumps(s, ensure_ascii=False)
+    with open(outputFile,'w',encoding='utf-8') as file:
         file.write(
             "# feeLLGood default parameters\n"
             "# This file was generated by feellgood configurator\n"
@@ -45,11 +49,11 @@ def writeYaml(fileName,metadata):
             "outputs:\n"
             "  metadata:\n")
         if metadata['Author']:
-            file.write(f"    Author: {metadata['Author']}\n")
+            file.write(f"    Author: {quote(metadata['Author'])}\n")
         if metadata['Affiliation']:
-            file.write(f"    Affiliation: {metadata['Affiliation']}\n")
+            file.write(f"    Affiliation: {quote(metadata['Affiliation'])}\n")
         if metadata['Licence'] != "None":
-            file.write(f"    Licence: {metadata['Licence']}\n")
+            file.write(f"    Licence: {quote(metadata['Licence'])}\n")
     message = outputFile + " written."
 
     return message
-- 
2.43.0


From b2a263955f3634bd4e9b14f21a127b7da38c45bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:46 +0000
Subject: [PATCH 28/38] fix: settingsMaker: do not write surrogate escapes,
 which yaml-cpp refuses

---
 python-modules/settingsMaker.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python-modules/settingsMaker.py b/python-modules/settingsMaker.py
index a9ae65b..cc6c3ff 100644
--- a/python-modules/settingsMaker.py
+++ b/python-modules/settingsMaker.py
@@ -97,6 +97,7 @@ class Settings(object):
     # this method write a json file from the dictionary built by the creator
     def write(self,fileName):
         self.check()
-        with open(fileName,'w') as outfile:
-            json.dump(self.mySets,outfile,indent = 4)
+        # yaml-cpp does not accept the surrogate pairs json uses to escape non-BMP characters
+        with open(fileName,'w',encoding='utf-8') as outfile:
+            json.dump(self.mySets,outfile,indent = 4,ensure_ascii = False)
         print("json file " + fileName + " generated.")
-- 
2.43.0


From 11e9e950c621297bdc8a938e2e36d05f08cda195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:03 +0000
Subject: [PATCH 29/38] fix: max_angle was nan when neighbouring magnetizations
 are opposite

---
 src/mesh.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mesh.h b/src/mesh.h
index 1ccfd38..fcaeeda 100644
--- a/src/mesh.h
+++ b/src/mesh.h
@@ -314,7 +314,8 @@ public:
                     Eigen::Vector3d m2 = getNode_u(edge.second);
                     return m1.dot(m2);
                     });
-        return std::acos(min_dot_product);
+        // the dot product of opposite vectors may be slightly less than -1
+        return std::acos(std::max(min_dot_product, -1.0));
         }
 
     /** text file (tsv) writing function for a solution, node indices are zero based
-- 
2.43.0


From c71aee2f228303877838f01b7b9bdf21dd4c6f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:19 +0000
Subject: [PATCH 30/38] fix: apply the surface anisotropy on surfaces without
 charges

---
 src/energy.cpp | 19 +++++++++++++------
 src/solver.cpp |  6 ++++--
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/energy.cpp b/src/energy.cpp
index 49f2fb0..9eef2dc 100644
--- a/src/energy.cpp
+++ b/src/energy.cpp
@@ -46,20 +46,27 @@ void Fem::energy(const double t, Settings &settings)
                           }
                       });
 
+    // Surface anisotropy: it acts whether or not the charges are suppressed.
+    for (const Triangle::Tri &fa : msh.tri)
+        {
+        const Triangle::prm &param = settings.paramTriangle[fa.idxPrm];
+        if (param.Ks != 0.0 && msh.isMagnetic(fa))
+            {
+            Eigen::Matrix<double,Nodes::DIM,Triangle::NPI> u;
+            fa.interpolation(Nodes::get_u<NEXT>, u);
+            E[ANISOTROPY] += fa.anisotropyEnergy(param, u);
+            }
+        }
+
     std::for_each(msh.magTri.begin(), msh.magTri.end(),
-                  [this, &settings](const int idxElem)
+                  [this](const int idxElem)
                       {
                       const Triangle::Tri &fa =msh.tri[idxElem];
-                      const Triangle::prm &param = settings.paramTriangle[fa.idxPrm];
                       Eigen::Matrix<double,Triangle::NPI,1> phi;
                       Eigen::Matrix<double,Nodes::DIM,Triangle::NPI> u;
 
                       fa.interpolation(Nodes::get_u<NEXT>, u);
                       fa.interpolation(Nodes::get_phi<NEXT>, phi);
-
-                      if (param.Ks != 0.0)
-                          { E[ANISOTROPY] += fa.anisotropyEnergy(param, u); }
-                      
                       E[DEMAG] += fa.demagEnergy(u, phi);
                       });
     Etot = std::reduce(E.begin(),E.end());//sum of all terms
diff --git a/src/solver.cpp b/src/solver.cpp
index bf6c276..b71d2d5 100644
--- a/src/solver.cpp
+++ b/src/solver.cpp
@@ -36,9 +36,11 @@ bool LinAlgebra::solve(const timing &t_prm)
         buildVect<Tetra::N>(my_elem.ind, Le);
         }
 
-    for (const int idx : msh->magTri)
+    // Surface anisotropy: it acts whether or not the charges are suppressed.
+    for (Triangle::Tri &my_elem : msh->tri)
         {
-        Triangle::Tri &my_elem = msh->tri[idx];
+        if (!msh->isMagnetic(my_elem) || paramTri[my_elem.idxPrm].Ks == 0)
+            { continue; }
         double *data_start = my_elem.Lp.data();
         double *data_end = data_start + 2 * Triangle::N;
         std::vector<double> Le(data_start, data_end);
-- 
2.43.0


From d6826ba0133a84e520aea2a4be3ced628d6a1399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:19 +0000
Subject: [PATCH 31/38] fix: stop when the spin diffusion solver fails during a
 run

---
 src/fem.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/fem.h b/src/fem.h
index b28eb9f..3b42c8c 100644
--- a/src/fem.h
+++ b/src/fem.h
@@ -209,21 +209,18 @@ private:
     void compute_all(Settings &settings /**< [in] */, spinAcc &spinAcc_solver /**< [in|out] */,
                      scal_fmm::fmm &myFMM /**< [in|out] */, const double t /**< [in]*/)
         {
-        bool success(false);
         chronometer fmm_counter(2);
         myFMM.calc_demag(msh);
-        if (settings.spin_acc && spinAcc_solver.compute())
-            { success = true; }
+        if (settings.spin_acc && !spinAcc_solver.compute())
+            {
+            std::cerr << "Error: spin diffusion solver failed.\n";
+            exit(1);
+            }
         if (settings.verbose)
             {
             std::cout << "magnetostatics done in " << fmm_counter.millis() << "\n";
             if (settings.spin_acc)
-                {
-                if (success)
-                    { std::cout << "spin diffusion solved.\n"; }
-                else
-                    { std::cerr << "spin diffusion solver failed.\n"; }
-                }
+                { std::cout << "spin diffusion solved.\n"; }
             }
         energy(t, settings);
         evolution();
-- 
2.43.0


From 66b585843871fd2a06e6bff3d753c61b3478d481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:19 +0000
Subject: [PATCH 32/38] fix: refuse a length unit which is not a number

---
 src/settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index f022b4f..7c47406 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -433,7 +433,7 @@ void Settings::read(YAML::Node yaml)
         if (!mesh.IsMap())
             { error("mesh should be a map."); }
         assign(pbName, mesh["filename"]);
-        if (assign(_scale, mesh["length_unit"]) && _scale <= 0)
+        if (assign(_scale, mesh["length_unit"]) && !(_scale > 0))
             { error("mesh.length_unit should be positive."); }
         YAML::Node volumes = mesh["volume_regions"];
         if (volumes && !volumes.IsNull())
-- 
2.43.0


From 77c7bc0fd74842f0f4665cf36996b2df5cf6e51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:19 +0000
Subject: [PATCH 33/38] fix: allow a null damping constant

---
 src/tetra.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tetra.cpp b/src/tetra.cpp
index 02f98fd..024d36d 100644
--- a/src/tetra.cpp
+++ b/src/tetra.cpp
@@ -56,7 +56,7 @@ Eigen::Matrix<double,NPI,1> Tetra::calc_alpha_eff(const double dt, const double
     for(int npi=0;npi<NPI;npi++)
         {
         double h = uHeff(npi);
-        if (h > 0.)
+        if (h >= 0.)
             {
             if (h > M)
                 a_eff(npi) = alpha + reduced_dt / 2. * M;
@@ -66,7 +66,7 @@ Eigen::Matrix<double,NPI,1> Tetra::calc_alpha_eff(const double dt, const double
         else
             {
             if (h < -M)
-                a_eff(npi) = alpha / (1. + reduced_dt / (2. * alpha) * M);
+                a_eff(npi) = alpha / (1. + r);  // reduced_dt / (2. * alpha) * M = r
             else
                 a_eff(npi) = alpha / (1. - reduced_dt / (2. * alpha) * h);
             }
-- 
2.43.0


From fe9a7d1c5c4f020b54fb3c752ae582c50d42751c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:18 +0000
Subject: [PATCH 34/38] fix: fg-plot --filter draws the selected nodes

With a predicate, the array of positions and vectors was built transposed:
the arrows drawn were not those of the nodes selected, or the plot failed.
---
 tools/fg-plot | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tools/fg-plot b/tools/fg-plot
index f23ce07..f0ffda6 100755
--- a/tools/fg-plot
+++ b/tools/fg-plot
@@ -42,11 +42,11 @@ def filtering(_pos,_vec,str_pred,perc):
             mx,my,mz = _vec[i,0],_vec[i,1],_vec[i,2]
             if eval(_pred)(x,y,z,mx,my,mz):
                 f_pos.append(i)
-            _X = np.empty([len(f_pos),6],dtype=float)
-            for i in range(len(f_pos)):
-                for j in range(3):
-                    _X[i,j] = _pos[f_pos[i],j]
-                    _X[i,3+j] = _vec[f_pos[i],j]
+        _X = np.empty([6,len(f_pos)],dtype=float)
+        for i in range(len(f_pos)):
+            for j in range(3):
+                _X[j,i] = _pos[f_pos[i],j]
+                _X[3+j,i] = _vec[f_pos[i],j]
     else:
         _X = np.vstack((_pos[:,0],_pos[:,1],_pos[:,2],_vec[:,0],_vec[:,1],_vec[:,2]))
     nb_pts = _X.shape[1]
-- 
2.43.0


From 747a171f32f295e2a6edd9b34124e8a8e7aed57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:18 +0000
Subject: [PATCH 35/38] fix: fg-mesh-stat gives the surfaces and volumes of the
 regions

It printed 0 for every region, and did not read the last node.
---
 tools/fg-mesh-stat | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/tools/fg-mesh-stat b/tools/fg-mesh-stat
index be39cf9..ac700c1 100755
--- a/tools/fg-mesh-stat
+++ b/tools/fg-mesh-stat
@@ -61,7 +61,7 @@ def readAllNodes():
     # Get all the mesh nodes
     nodeTags, nodeCoords, nodeParams = gmsh.model.mesh.getNodes()
     node = np.ndarray( shape=(len(nodeTags),3) )
-    for i in range(len(nodeTags)-1):
+    for i in range(len(nodeTags)):
         j = int(nodeTags[i]) - 1
         node[j] = np.array([ nodeCoords[3*i], nodeCoords[3*i+1], nodeCoords[3*i+2] ])
     return node
@@ -74,14 +74,13 @@ def Nform(node,dim,tag):
     if dim == 2:
         name = "surface"
         triangles = np.array(elemNodeTags).reshape(-1,3)
-        #for t in triangles:
-        #    val += surf_triangle(node,int(t[0]-1),int(t[1]-1),int(t[2]-1)) # wrong indices here
+        for t in triangles:
+            val += surf_triangle(node.flatten(),int(t[0])-1,int(t[1])-1,int(t[2])-1)
     elif dim == 3:
         name = "volume"
         tetras = np.array(elemNodeTags).reshape(-1,4)
-        #for t in tetras:
-        #    val += vol_tetrahedron(node,int(t[0]-1),int(t[1]-1),int(t[2]-1),int(t[3]-1))
-        #     wrong indices here
+        for t in tetras:
+            val += vol_tetrahedron(node.flatten(),int(t[0])-1,int(t[1])-1,int(t[2])-1,int(t[3])-1)
     return [name,val]
 
 def entity_str_info(node,dim,tag,verbose):
-- 
2.43.0


From 8b0b544bdb74c750b7667114d89fca5a5b94b524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:44 +0000
Subject: [PATCH 36/38] fix: fg-3D export without a mesh and a .sol file

The action raised an exception, which ends the program.
---
 tools/fg-3D | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/fg-3D b/tools/fg-3D
index ba0b3b8..05190e8 100755
--- a/tools/fg-3D
+++ b/tools/fg-3D
@@ -365,7 +365,7 @@ try:
             only surface and related magnetization in the output file
             TODO: add all volume data: tetrahedrons, nodes, magnetizations
             """
-            if self.solFileName:
+            if self.solFileName and self.mesh is not None and self.magnetization_data is not None:
                 base = self.solFileName.stem
                 ext = ".vtu"
                 outputFileName = f"{base}{ext}"
@@ -377,7 +377,9 @@ try:
                     mesh.write(outputFileName)
                     self.strLog += outputFileName
                     self.strLog += " written\n"
-            self.statusBar().showMessage(outputFileName + " written")
+                    self.statusBar().showMessage(outputFileName + " written")
+            else:
+                self.statusBar().showMessage("✗ Nothing to export: open a mesh and a .sol file first.")
 
         def on_surface_charges_changed(self):
             if self.surface_charges_checkbox.isChecked():
-- 
2.43.0


From 6f620fb7b75db9dea925b8818a6ff4f1c4fd6382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:44 +0000
Subject: [PATCH 37/38] fix: fg-3D forgets the .sol file when another mesh is
 opened

The file name was kept, with no magnetization: exporting raised an
exception, and the label named a file which is no longer displayed.
---
 tools/fg-3D | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/fg-3D b/tools/fg-3D
index 05190e8..9ff9851 100755
--- a/tools/fg-3D
+++ b/tools/fg-3D
@@ -344,6 +344,8 @@ try:
                     msg, self.surface_nodes, self.original_points, self.triangles, self.tetra_nodes, self.tetrahedrons  = load_mesh(meshInputFile)
                     self.mesh = create_pyvista_mesh(self.original_points, self.triangles)
                     self.magnetization_data = None
+                    self.solFileName = None
+                    self.sol_label.setText("✗ no .sol file selected.")
                     self.surf_charges = None
                     self.show_vectors_checkbox.setChecked(False)
                     self.surface_charges_checkbox.setChecked(False)
-- 
2.43.0


From 1604c74a1ed40eacfeb6bc70135c6913588bc60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:44 +0000
Subject: [PATCH 38/38] fix: fg-3D surface charges follow the box and the .sol
 file

The charges of the previous .sol file stayed when another one was opened,
unchecking the box did not redraw, and checking it without magnetization
emptied the display at the next redraw.
---
 tools/fg-3D | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tools/fg-3D b/tools/fg-3D
index 9ff9851..c70c05c 100755
--- a/tools/fg-3D
+++ b/tools/fg-3D
@@ -323,7 +323,11 @@ try:
                 self.statusBar().showMessage(msg)
                 try:
                     self.magnetization_data = load_sol_file(path)
-                    self.update_mesh()
+                    self.surf_charges = None
+                    if self.surface_charges_checkbox.isChecked():
+                        self.on_surface_charges_changed()
+                    else:
+                        self.update_mesh()
                 except Exception as e:
                     msg = f"Error loading .sol file: {e}"
                     QMessageBox.critical(self, "Error", msg)
@@ -393,6 +397,8 @@ try:
                     self.update_mesh()
                 else:
                     self.strLog += "no mesh and/or magnetization data to compute surface charges\n"
+            else:
+                self.update_mesh()
             self.update_infos()
 
         def on_smooth_shading_changed(self):
@@ -415,7 +421,7 @@ try:
                 try:
                     self.plotter.clear_actors()
                     s = self.smooth_shading
-                    if self.surface_charges_checkbox.isChecked():
+                    if self.surface_charges_checkbox.isChecked() and self.surf_charges is not None:
                         self.mesh.cell_data['surface charges'] = self.surf_charges
                         self.plotter.add_mesh(self.mesh,smooth_shading=s,split_sharp_edges=True,cmap='coolwarm')
                     else:
-- 
2.43.0

