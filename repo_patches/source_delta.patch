From 476bc5d2cb698d70b8da39d3a6c6221b79c1c859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:42 +0000
Subject: [PATCH 01/45] fix: compare strings and lengths by value, not
 identity, when building operators

---
 angler/derivatives.py | 10 +++++-----
 angler/pml.py         |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/angler/derivatives.py b/angler/derivatives.py
index 8bbba51..b511514 100644
--- a/angler/derivatives.py
+++ b/angler/derivatives.py
@@ -11,15 +11,15 @@ def createDws(w, s, dL, N, matrix_format=DEFAULT_MATRIX_FORMAT):
 
     Nx = N[0]
     dx = dL[0]
-    if len(N) is not 1:
+    if len(N) != 1:
         Ny = N[1]
         dy = dL[1]
     else:
         Ny = 1
         dy = 1
-    if w is 'x':
+    if w == 'x':
         if Nx > 1:
-            if s is 'f':
+            if s == 'f':
                 dxf = sp.diags([-1, 1, 1], [0, 1, -Nx+1], shape=(Nx, Nx))
                 Dws = 1/dx*sp.kron(dxf, sp.eye(Ny), format=matrix_format)
             else:
@@ -27,9 +27,9 @@ def createDws(w, s, dL, N, matrix_format=DEFAULT_MATRIX_FORMAT):
                 Dws = 1/dx*sp.kron(dxb, sp.eye(Ny), format=matrix_format)
         else:
             Dws = sp.eye(Ny)            
-    if w is 'y':
+    if w == 'y':
         if Ny > 1:
-            if s is 'f':
+            if s == 'f':
                 dyf = sp.diags([-1, 1, 1], [0, 1, -Ny+1], shape=(Ny, Ny))
                 Dws = 1/dy*sp.kron(sp.eye(Nx), dyf, format=matrix_format)
             else:
diff --git a/angler/pml.py b/angler/pml.py
index 412f3be..45299b6 100644
--- a/angler/pml.py
+++ b/angler/pml.py
@@ -26,12 +26,12 @@ def create_sfactor(wrange, L0, s, omega, Nw, Nw_pml):
     hw = np.diff(wrange)[0]/Nw
     dw = Nw_pml*hw
     for i in range(0, Nw):
-        if s is 'f':
+        if s == 'f':
             if i <= Nw_pml:
                 sfactor_array[i] = S(hw * (Nw_pml - i + 0.5), dw, omega, L0)
             elif i > Nw - Nw_pml:
                 sfactor_array[i] = S(hw * (i - (Nw - Nw_pml) - 0.5), dw, omega, L0)
-        if s is 'b':
+        if s == 'b':
             if i <= Nw_pml:
                 sfactor_array[i] = S(hw * (Nw_pml - i + 1), dw, omega, L0)
             elif i > Nw - Nw_pml:
-- 
2.43.0


From e6a9b268f089a729d2c287cfa2a2f141f7dc5639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:42 +0000
Subject: [PATCH 02/45] fix: PML profile is off by one cell (1-based formula
 applied to 0-based index)

---
 angler/pml.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/angler/pml.py b/angler/pml.py
index 45299b6..9497faf 100644
--- a/angler/pml.py
+++ b/angler/pml.py
@@ -27,15 +27,15 @@ def create_sfactor(wrange, L0, s, omega, Nw, Nw_pml):
     dw = Nw_pml*hw
     for i in range(0, Nw):
         if s == 'f':
-            if i <= Nw_pml:
-                sfactor_array[i] = S(hw * (Nw_pml - i + 0.5), dw, omega, L0)
-            elif i > Nw - Nw_pml:
-                sfactor_array[i] = S(hw * (i - (Nw - Nw_pml) - 0.5), dw, omega, L0)
+            if i < Nw_pml:
+                sfactor_array[i] = S(hw * (Nw_pml - i - 0.5), dw, omega, L0)
+            elif i >= Nw - Nw_pml:
+                sfactor_array[i] = S(hw * (i - (Nw - Nw_pml) + 0.5), dw, omega, L0)
         if s == 'b':
-            if i <= Nw_pml:
-                sfactor_array[i] = S(hw * (Nw_pml - i + 1), dw, omega, L0)
-            elif i > Nw - Nw_pml:
-                sfactor_array[i] = S(hw * (i - (Nw - Nw_pml) - 1), dw, omega, L0)
+            if i < Nw_pml:
+                sfactor_array[i] = S(hw * (Nw_pml - i), dw, omega, L0)
+            elif i >= Nw - Nw_pml:
+                sfactor_array[i] = S(hw * (i - (Nw - Nw_pml)), dw, omega, L0)
     return sfactor_array
 
 
-- 
2.43.0


From 330dad10b965faa055cd67d0d338ce249ef8fe85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:42 +0000
Subject: [PATCH 03/45] fix: the derivative along a single-cell axis is zero,
 not the identity

---
 angler/derivatives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/derivatives.py b/angler/derivatives.py
index b511514..6e4dea9 100644
--- a/angler/derivatives.py
+++ b/angler/derivatives.py
@@ -26,7 +26,7 @@ def createDws(w, s, dL, N, matrix_format=DEFAULT_MATRIX_FORMAT):
                 dxb = sp.diags([1, -1, -1], [0, -1, Nx-1], shape=(Nx, Nx))
                 Dws = 1/dx*sp.kron(dxb, sp.eye(Ny), format=matrix_format)
         else:
-            Dws = sp.eye(Ny)            
+            Dws = sp.csr_matrix((Ny, Ny))
     if w == 'y':
         if Ny > 1:
             if s == 'f':
@@ -36,7 +36,7 @@ def createDws(w, s, dL, N, matrix_format=DEFAULT_MATRIX_FORMAT):
                 dyb = sp.diags([1, -1, -1], [0, -1, Ny-1], shape=(Ny, Ny))
                 Dws = 1/dy*sp.kron(sp.eye(Nx), dyb, format=matrix_format)
         else:
-            Dws = sp.eye(Nx)
+            Dws = sp.csr_matrix((Nx, Nx))
     return Dws
 
 
-- 
2.43.0


From 01efdb1367f5948a12c7176e8b9cf289b26bd819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:42 +0000
Subject: [PATCH 04/45] fix: scipy branch of solver_complex2real calls an
 undefined name

---
 angler/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/linalg.py b/angler/linalg.py
index 6a62179..28b72f3 100644
--- a/angler/linalg.py
+++ b/angler/linalg.py
@@ -176,7 +176,7 @@ def solver_complex2real(A11, A12, b, timing=False, solver=SOLVER):
         pSolve.clear()
 
     elif solver.lower() == 'scipy':
-        x = spsolve(Areal, np.hstack((b_re, b_im)))
+        x = spl.spsolve(Areal, np.hstack((b_re, b_im)))
 
     else:
         raise ValueError('Invalid solver choice: {}, options are pardiso or scipy'.format(str(solver)))
-- 
2.43.0


From 93b0e7c7269cc04a7373e956967fd6847321901d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:12 +0000
Subject: [PATCH 05/45] fix: init_design_region('halfway') overwrites the
 caller's permittivity array

---
 angler/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index 244f1ae..c1625e9 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -314,7 +314,7 @@ class Simulation:
 
         elif style == 'halfway':
             # halfway between 1 and eps_m in design region
-            eps_halfway = self.eps_r
+            eps_halfway = self.eps_r.copy()
             eps_halfway[design_region == 1] = eps_m/2 + 1/2
             self.eps_r = eps_halfway
 
-- 
2.43.0


From fb607e324050a4b0ca992af82bd2ba87d112eeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:12 +0000
Subject: [PATCH 06/45] fix: assigning a 1D permittivity drops the reshape to
 the grid

---
 angler/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index c1625e9..5b7fafc 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -94,7 +94,7 @@ class Simulation:
         grid_shape = new_eps.shape
         if len(grid_shape) == 1:
             grid_shape = (grid_shape[0], 1)
-            new_eps.reshape(grid_shape)
+            new_eps = new_eps.reshape(grid_shape)
 
         (Nx, Ny) = grid_shape
         self.Nx = Nx
-- 
2.43.0


From fa638ca9376690cd1fd58efe546a1376cdcd7f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:12 +0000
Subject: [PATCH 07/45] fix: Hz system matrix samples the permittivity
 differently from the fields and gradients

---
 angler/simulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/angler/simulation.py b/angler/simulation.py
index 5b7fafc..cc3556e 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -103,6 +103,7 @@ class Simulation:
         self.__eps_r = new_eps
         (A, derivs) = construct_A(self.omega, self.xrange, self.yrange,
                                   self.eps_r, self.NPML, self.pol, self.L0,
+                                  averaging=False,
                                   matrix_format=DEFAULT_MATRIX_FORMAT,
                                   timing=False)
         self.A = A
-- 
2.43.0


From d3a785370078127f794acae1708fceca70694141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:12 +0000
Subject: [PATCH 08/45] fix: flux_probe averages onto the wrong cell edge, so
 flux is not conserved

---
 angler/simulation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index cc3556e..d95bc45 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -271,9 +271,9 @@ class Simulation:
                 field_val_Hy = self.fields['Hy']
                 field_val_Hx = self.fields['Hx']
 
-            Ez_x = grid_average(field_val_Ez[inds_x[0]:inds_x[1]+1, inds_y[0]:inds_y[1]+1], 'x')[:-1,:-1]
-            Ez_y = grid_average(field_val_Ez[inds_x[0]:inds_x[1]+1, inds_y[0]:inds_y[1]+1], 'y')[:-1,:-1]
-            # NOTE: Last part drops the extra rows/cols used for grid_average
+            Ez_x = grid_average(field_val_Ez, 'x')[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]
+            Ez_y = grid_average(field_val_Ez, 'y')[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]
+            # NOTE: average over the whole grid first, so that cell i pairs with cell i-1
 
             if direction_normal == "x":
                 Sx = -1/2*np.real(Ez_x*np.conj(field_val_Hy[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]))
@@ -293,9 +293,9 @@ class Simulation:
                 field_val_Ey = self.fields['Ey']
                 field_val_Ex = self.fields['Ex']
 
-            Hz_x = grid_average(field_val_Hz[inds_x[0]:inds_x[1]+1, inds_y[0]:inds_y[1]+1], 'x')[:-1, :-1]
-            Hz_y = grid_average(field_val_Hz[inds_x[0]:inds_x[1]+1, inds_y[0]:inds_y[1]+1], 'y')[:-1, :-1]
-            # NOTE: Last part drops the extra rows/cols used for grid_average
+            Hz_x = grid_average(field_val_Hz, 'x')[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]
+            Hz_y = grid_average(field_val_Hz, 'y')[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]
+            # NOTE: average over the whole grid first, so that cell i pairs with cell i-1
 
             if direction_normal == "x":
                 Sx = 1/2*np.real(field_val_Ey[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]*np.conj(Hz_x))
-- 
2.43.0


From 2aa6717519143f9def992471c766a81e06d97d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:12 +0000
Subject: [PATCH 09/45] fix: solver_nl='LM' calls a solver that does not exist

---
 angler/simulation.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index d95bc45..2813dd7 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -195,11 +195,6 @@ class Simulation:
                                                     conv_threshold,
                                                     max_num_iter,
                                                     averaging=averaging)
-        elif solver_nl == 'LM':
-            (Fx, Fy, Fz, conv_array) = LM_solve(self, Estart,
-                                                conv_threshold,
-                                                max_num_iter,
-                                                averaging=averaging)
         elif solver_nl == 'krylov':
             (Fx, Fy, Fz, conv_array) = newton_krylov_solve(self, Estart,
                                                 conv_threshold,
@@ -215,7 +210,7 @@ class Simulation:
                                                     averaging=averaging)                                       
         else:
             raise AssertionError("solver must be one of "
-                                 "{'born', 'newton', 'LM'}")
+                                 "{'born', 'newton', 'krylov', 'hybrid'}")
 
             # return final nonlinear fields and an array of the convergences
 
-- 
2.43.0


From 3eac7f943dc5ab7a86a1e4b6e1a310e43ba17332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:23 +0000
Subject: [PATCH 10/45] fix: hybrid solver ignores the requested convergence
 threshold

---
 angler/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index 2813dd7..f217903 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -204,7 +204,7 @@ class Simulation:
             (Fx, Fy, Fz, conv_array) = born_solve(self, Estart,
                                               conv_threshold, 20,
                                               averaging=averaging) 
-            if conv_array[-1] > 1e-10:
+            if conv_array[-1] > conv_threshold:
                 (Fx, Fy, Fz, conv_array) = newton_solve(self, Fz,
                                                     conv_threshold, 20,
                                                     averaging=averaging)                                       
-- 
2.43.0


From 839b60a5654e0a8c879ce144f1f62ec6c30926ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:23 +0000
Subject: [PATCH 11/45] fix: Hz mode source depends on the orientation of the
 source line

---
 angler/source/mode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/source/mode.py b/angler/source/mode.py
index 2fe8ae8..e470751 100644
--- a/angler/source/mode.py
+++ b/angler/source/mode.py
@@ -78,7 +78,7 @@ class mode:
         Dxf = createDws('x', 'f', [simulation.dl], [N], matrix_format=matrix_format)
 
         vector_eps = EPSILON_0_*eps_r.reshape((-1,))
-        vector_eps_x = EPSILON_0_*grid_average(eps_r, 'x').reshape((-1,))
+        vector_eps_x = grid_average(vector_eps, 'x')
         T_eps = sp.spdiags(vector_eps, 0, N, N, format=matrix_format)
         T_epsxinv = sp.spdiags(vector_eps_x**(-1), 0, N, N, format=matrix_format)
 
-- 
2.43.0


From 94ff481d59012e851d81fc1c35b5a77a06051e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:23 +0000
Subject: [PATCH 12/45] fix: input power normalisation includes sources other
 than the mode's own

---
 angler/source/mode.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/angler/source/mode.py b/angler/source/mode.py
index e470751..d61276b 100644
--- a/angler/source/mode.py
+++ b/angler/source/mode.py
@@ -50,6 +50,7 @@ class mode:
 
         # reset the permittivity to be a straight waveguide, solve fields, compute power
         simulation_norm.eps_r = norm_eps
+        simulation_norm.src = np.zeros((Nx, Ny), dtype=np.complex64)
         self.insert_mode(simulation_norm, simulation_norm.src, matrix_format=matrix_format)
         simulation_norm.solve_fields()
         W_in = simulation_norm.flux_probe(self.direction_normal, new_center, self.width)
-- 
2.43.0


From f0968cf3ce797c5692649cfc0f0b05b9d1743d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:23 +0000
Subject: [PATCH 13/45] fix: nonlinear solvers raise NameError instead of the
 invalid-polarization error

---
 angler/nonlinear_solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/nonlinear_solvers.py b/angler/nonlinear_solvers.py
index 0b4df9a..b5678a4 100644
--- a/angler/nonlinear_solvers.py
+++ b/angler/nonlinear_solvers.py
@@ -113,7 +113,7 @@ def newton_solve(simulation,
 		return (Hx, Hy, Ez, conv_array)
 
 	else:
-		raise ValueError('Invalid polarization: {}'.format(str(self.pol)))
+		raise ValueError('Invalid polarization: {}'.format(str(simulation.pol)))
 
 def nl_eq_and_jac(simulation,
 				  averaging=True, Ex=None, Ey=None, Ez=None, compute_jac=True,
@@ -145,7 +145,7 @@ def nl_eq_and_jac(simulation,
 		raise ValueError('angler doesnt support newton method for Hz polarization yet')		
 
 	else:
-		raise ValueError('Invalid polarization: {}'.format(str(self.pol)))
+		raise ValueError('Invalid polarization: {}'.format(str(simulation.pol)))
 
 	if compute_jac:
 		return (fE, Jac11, Jac12)
-- 
2.43.0


From 23e99064f50a42cf029a638e1ef2f1bbc809b2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:50 +0000
Subject: [PATCH 14/45] fix: n2_from_chi3 uses undefined names

---
 angler/constants.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/angler/constants.py b/angler/constants.py
index d135057..3423339 100644
--- a/angler/constants.py
+++ b/angler/constants.py
@@ -15,8 +15,8 @@ except:
 
 DEFAULT_LENGTH_SCALE = 1e-6  # microns
 
-def n2_from_chi3(chi3):
-    # takes chi3 in units of m^2 / V^2 and gives n2
-    return 3*chi3/(C_0)/np.sqrt(eps_m)/(EPSILON_0)
+def n2_from_chi3(chi3, eps_m):
+    # takes chi3 in units of m^2 / V^2 (and the relative permittivity) and gives n2
+    return 3*chi3/(C_0)/sqrt(eps_m)/(EPSILON_0)
 
     
\ No newline at end of file
-- 
2.43.0


From 98da8fbaaa648de8cb2dfc50b3c8a68637ae3d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:50 +0000
Subject: [PATCH 15/45] fix: running an optimization without init_design_region
 crashes

---
 angler/optimization.py | 2 +-
 angler/simulation.py   | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 57d3f63..fb61c9b 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -194,7 +194,7 @@ class Optimization():
         # get the material density from the simulation if only the first time being run
         if self.simulation.rho is None:
             eps = copy.deepcopy(self.simulation.eps_r)
-            self.simulation.rho = eps2rho(eps)
+            self.simulation.rho = eps2rho(eps, self.eps_m)
         
         self.fields_current = False
         
diff --git a/angler/simulation.py b/angler/simulation.py
index f217903..a151809 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -49,6 +49,7 @@ class Simulation:
         self.eps_r = eps_r
 
         self.modes = []
+        self.rho = None
         self.nonlinearity = []
         self.eps_nl = np.zeros(eps_r.shape)
         self.dnl_de = np.zeros(eps_r.shape)
-- 
2.43.0


From 1cdbcaf254e37d0dfd382b77be76fa631446a4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:50 +0000
Subject: [PATCH 16/45] fix: plot_it uses np.int, which numpy removed

---
 angler/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index fb61c9b..345ce56 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -352,7 +352,7 @@ class Optimization():
                 ax = axs[n]
                 self.simulation.plt_eps(outline=False, cbar=False, ax=ax)
                 ax.set_title('Permittivity')
-                ax.annotate('Iteration:%4d' % np.int(iteration), (0.2, 0.92),
+                ax.annotate('Iteration:%4d' % int(iteration), (0.2, 0.92),
                     xycoords='axes fraction',
                     size='medium',
                     color='k',
@@ -371,7 +371,7 @@ class Optimization():
                 self.simulation.plt_abs(outline=True, cbar=False, ax=ax, nl=True, logscale=True, vmin=vmin, vmax=vmax)
                 ax.set_title('Nonlinear field')
         
-        fname = self.temp_plt.folder + ('it%06d.png' % np.int(iteration))
+        fname = self.temp_plt.folder + ('it%06d.png' % int(iteration))
         plt.savefig(fname, dpi=self.temp_plt.dpi)
 
     def _set_design_region(self, x):
-- 
2.43.0


From 932499f0529e997d2fc710a57a106b9e005937fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:50 +0000
Subject: [PATCH 17/45] fix: derivative check and frequency scan leave another
 simulation's fields marked current

---
 angler/optimization.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/angler/optimization.py b/angler/optimization.py
index 345ce56..8364a86 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -147,6 +147,9 @@ class Optimization():
             avm_grads.append(grad_avm[pt[0], pt[1]])
             num_grads.append(grad_num)
 
+        # the stored fields belong to the perturbed copy
+        self.fields_current = False
+
         return avm_grads, num_grads
 
     def _make_progressbar(self, N):
@@ -497,6 +500,9 @@ class Optimization():
             obj_fn = self.compute_J(sim_new)
             objs.append(obj_fn)
 
+        # the stored fields belong to the last scanned frequency
+        self.fields_current = False
+
         # compute HM
         objs_array = np.array(objs)
         HM = np.max(objs_array)/2
-- 
2.43.0


From a2170c71be0ea22b47864df1276fb6489ca2e538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:50 +0000
Subject: [PATCH 18/45] fix: power scan probes see linear fields of the
 original source amplitude

---
 angler/optimization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/angler/optimization.py b/angler/optimization.py
index 8364a86..1a885c5 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -554,6 +554,9 @@ class Optimization():
             sim_new.modes[0].setup_src(sim_new)
             W_in = sim_new.W_in
 
+            # the linear fields of the copy were for the old source amplitude
+            sim_new.solve_fields()
+
             powers.append(W_in)
 
             if solver == 'hybrid':
-- 
2.43.0


From 0db8baebacdf42d42ccab598a3fcbe95a8907136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:50 +0000
Subject: [PATCH 19/45] fix: plt_objs crashes without an axis

---
 angler/optimization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/angler/optimization.py b/angler/optimization.py
index 1a885c5..fba5c9d 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -452,6 +452,9 @@ class Optimization():
     def plt_objs(self, norm=None, ax=None):
         """ Plots objective function vs. iteration"""
 
+        if ax is None:
+            _, ax = plt.subplots(1)
+
         iter_range = range(1, len(self.objfn_list) + 1)
         if norm == 'field':
             obj_scaled = [o/a for o, a in zip(self.objfn_list, self.src_amplitudes)]
-- 
2.43.0


From f1092d88a4ba01b39117c697495d49668e9c97d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:07 +0000
Subject: [PATCH 20/45] fix: LBFGS passes keyword arguments the installed scipy
 does not accept

---
 angler/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index fba5c9d..c71ac88 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -317,8 +317,8 @@ class Optimization():
         # minimize
         (rho_final, _, _) = fmin_l_bfgs_b(_objfn, rho0, fprime=_grad, args=(), approx_grad=0,
                             bounds=rho_bounds, m=10, factr=10,
-                            pgtol=1e-15, epsilon=1e-08, iprint=-1,
-                            maxfun=15000, maxiter=self.Nsteps, disp=self.verbose,
+                            pgtol=1e-15, epsilon=1e-08,
+                            maxfun=15000, maxiter=self.Nsteps,
                             callback=_update_iter_count, maxls=20)
 
         # finally, set the simulation permittivity to that found via optimization
-- 
2.43.0


From 981208cad7f812dbbd595f6209bcceb7ea8fb98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:07 +0000
Subject: [PATCH 21/45] fix: log-scale field plot and field animation raise

---
 angler/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/angler/plot.py b/angler/plot.py
index 25ce832..d60beec 100644
--- a/angler/plot.py
+++ b/angler/plot.py
@@ -1,6 +1,7 @@
 import numpy as np
 import matplotlib.pyplot as plt
 import matplotlib as mpl
+import matplotlib.animation
 from matplotlib.colors import LogNorm
 
 
@@ -17,7 +18,7 @@ def plt_base(field_val, outline_val, cmap, vmin, vmax, label,
     if not logscale:
         h = ax.imshow(field_val, cmap=cmap, vmin=vmin, vmax=vmax, origin='lower')
     else:
-        h = ax.imshow(field_val, cmap=cmap, vmin=vmin, vmax=vmax, origin='lower', norm=LogNorm(vmin=vmin, vmax=vmax))
+        h = ax.imshow(field_val, cmap=cmap, origin='lower', norm=LogNorm(vmin=vmin, vmax=vmax))
 
     if cbar:
         plt.colorbar(h, label=label, ax=ax)
-- 
2.43.0


From ba32a683849d1de2b7ac8ae58c03d520f4a16d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:07 +0000
Subject: [PATCH 22/45] fix: drho_bar_drho uses undefined names

---
 angler/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/angler/utils.py b/angler/utils.py
index e470064..65db2e2 100644
--- a/angler/utils.py
+++ b/angler/utils.py
@@ -1,7 +1,8 @@
 import numpy as np
 import autograd.numpy as npa
 import matplotlib.pylab as plt
-from functools import wraps
+from functools import partial, wraps
+from autograd import grad
 from autograd.scipy.signal import convolve
 
 """ This is meant to be a place to write convenience functions and objects to
@@ -23,8 +24,7 @@ def rho_bar(rho, eta=0.5, beta=100):
     return num / den
 
 def drho_bar_drho(rho, eta=0.5, beta=100):
-    rho_bar = partial(rho_bar, eta=eta, beta=beta)
-    grad_rho_bar = grad(rho_bar)
+    grad_rho_bar = grad(partial(rho_bar, eta=eta, beta=beta))
     grad_rho_bar = np.vectorize(grad_rho_bar)
     return grad_rho_bar(rho)
 
-- 
2.43.0


From a8ed591301721493a7618c93bfbef02ec09b87eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:07 +0000
Subject: [PATCH 23/45] fix: spatial filter does not wrap around periodic
 boundaries

---
 angler/filter.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/angler/filter.py b/angler/filter.py
index 27b18d3..c7215fd 100644
--- a/angler/filter.py
+++ b/angler/filter.py
@@ -8,7 +8,7 @@ from autograd import grad
 from functools import partial
 
 def wrap(i, N):
-    return i + (i >= N)*(i - N) + (i < 0)*(i + N)
+    return i % N
 
 def dist(r1, r2):
     return np.sqrt(np.sum(np.square(r1 - r2)))
@@ -56,10 +56,7 @@ def get_W(Nx, Ny, design_region, NPML, R=10):
                     r2 = np.array([i2, j2])
 
                     # wrap around for periodic BC
-                    i2 = wrap(i2, Nx)
-                    j2 = wrap(j2, Ny)
-
-                    col_index = sub2ind((Nx, Ny), i2, j2)
+                    col_index = sub2ind((Nx, Ny), wrap(i2, Nx), wrap(j2, Ny))
 
                     val = R - dist(r1, r2)
 
-- 
2.43.0


From 2df13001087a82bea6c0bd140ec750342f24a7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:07 +0000
Subject: [PATCH 24/45] fix: spatial filter normalises columns instead of rows

---
 angler/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/filter.py b/angler/filter.py
index c7215fd..993889d 100644
--- a/angler/filter.py
+++ b/angler/filter.py
@@ -78,7 +78,7 @@ def get_W(Nx, Ny, design_region, NPML, R=10):
     norm_vec[norm_vec == 0] = 1
     norm_mat = sp.diags(1/norm_vec, shape=(N, N))
 
-    W = W.dot(norm_mat)
+    W = norm_mat.dot(W)
 
     return des_mat.dot(W) + no_des_mat
 
-- 
2.43.0


From 94d90e90d5ba2bfa67c22ae11748a72d2494c566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:07 +0000
Subject: [PATCH 25/45] fix: gradients apply the filter instead of its
 transpose

---
 angler/gradients.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/angler/gradients.py b/angler/gradients.py
index 1f34835..552e8a2 100644
--- a/angler/gradients.py
+++ b/angler/gradients.py
@@ -28,7 +28,7 @@ def grad_linear_Ez(optimization, dJ, Ez, args):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     Ez_vec = np.reshape(Ez, (-1,))
@@ -66,7 +66,7 @@ def grad_linear_Hx(optimization, dJ, Ez, args):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     Ez_vec = np.reshape(Ez, (-1,))
@@ -104,7 +104,7 @@ def grad_linear_Hy(optimization, dJ, Ez, args):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     Ez_vec = np.reshape(Ez, (-1,))
@@ -133,7 +133,7 @@ def grad_kerr_Ez(optimization, dJ, Ez_nl, args):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     Ez_vec = np.reshape(Ez_nl, (-1,))
@@ -169,7 +169,7 @@ def grad_kerr_Hx(optimization, dJ, Ez_nl, args):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     Ez_vec = np.reshape(Ez_nl, (-1,))
@@ -207,7 +207,7 @@ def grad_kerr_Hy(optimization, dJ, Ez_nl, args):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     Ez_vec = np.reshape(Ez_nl, (-1,))
@@ -270,7 +270,7 @@ def grad_linear_Hz(optimization, dJ, Hz, args, averaging=False):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     if averaging:
@@ -341,7 +341,7 @@ def grad_linear_Ex(optimization, dJ, Hz, args, averaging=False):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     if averaging:
@@ -412,7 +412,7 @@ def grad_linear_Ey(optimization, dJ, Hz, args, averaging=False):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     if averaging:
-- 
2.43.0


From c85fb95dabdde19c1b2b47aaf349d4f50e19e46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:05 +0000
Subject: [PATCH 26/45] fix: nonlinear Hx and Hy gradients use an undefined
 name

---
 angler/gradients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/gradients.py b/angler/gradients.py
index 552e8a2..881e803 100644
--- a/angler/gradients.py
+++ b/angler/gradients.py
@@ -153,7 +153,7 @@ def grad_kerr_Hx(optimization, dJ, Ez_nl, args):
     omega = optimization.simulation.omega
 
     b_aj_vec = -1/1j/omega/MU_0_ * Dyb.T.dot(partial_vec)
-    b_aj = b_aj_vec.reshape(Ez.shape)
+    b_aj = b_aj_vec.reshape(Ez_nl.shape)
 
     # everything else is the same
     Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
@@ -191,7 +191,7 @@ def grad_kerr_Hy(optimization, dJ, Ez_nl, args):
     omega = optimization.simulation.omega
 
     b_aj_vec = 1/1j/omega/MU_0_ * Dxb.T.dot(partial_vec)
-    b_aj = b_aj_vec.reshape(Ez.shape)
+    b_aj = b_aj_vec.reshape(Ez_nl.shape)
 
     # everything else is the same
     Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
-- 
2.43.0


From cf22ff634c24d8052eb2253554f21aa1f3565cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:05 +0000
Subject: [PATCH 27/45] fix: nonlinear adjoint uses whatever nonlinear terms
 were last evaluated

---
 angler/gradients.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/angler/gradients.py b/angler/gradients.py
index 881e803..133d831 100644
--- a/angler/gradients.py
+++ b/angler/gradients.py
@@ -120,8 +120,8 @@ def grad_kerr_Ez(optimization, dJ, Ez_nl, args):
     """gives the linear field gradient: partial J/ partial * E_lin dE_lin / deps"""
 
     b_aj = -dJ(*args)
-    Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
     optimization.simulation.compute_nl(Ez_nl)
+    Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
 
     EPSILON_0_ = EPSILON_0*optimization.simulation.L0
     omega = optimization.simulation.omega
@@ -156,8 +156,8 @@ def grad_kerr_Hx(optimization, dJ, Ez_nl, args):
     b_aj = b_aj_vec.reshape(Ez_nl.shape)
 
     # everything else is the same
-    Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
     optimization.simulation.compute_nl(Ez_nl)
+    Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
 
     EPSILON_0_ = EPSILON_0*optimization.simulation.L0
     omega = optimization.simulation.omega
@@ -194,8 +194,8 @@ def grad_kerr_Hy(optimization, dJ, Ez_nl, args):
     b_aj = b_aj_vec.reshape(Ez_nl.shape)
 
     # everything else is the same
-    Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
     optimization.simulation.compute_nl(Ez_nl)
+    Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
 
     EPSILON_0_ = EPSILON_0*optimization.simulation.L0
     omega = optimization.simulation.omega
-- 
2.43.0


From c11dff8404dccc591320f01c945f1434e40a5ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:05 +0000
Subject: [PATCH 28/45] fix: Hz, Ex and Ey gradients rebuild the fields with
 the wrong derivative

---
 angler/gradients.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/angler/gradients.py b/angler/gradients.py
index 133d831..fe97983 100644
--- a/angler/gradients.py
+++ b/angler/gradients.py
@@ -230,8 +230,8 @@ def grad_linear_Hz(optimization, dJ, Hz, args, averaging=False):
     EPSILON_0_ = EPSILON_0 * optimization.simulation.L0
     MU_0_ = MU_0*optimization.simulation.L0
     omega = optimization.simulation.omega
-    Dxb = optimization.simulation.derivs['Dxf']
-    Dyb = optimization.simulation.derivs['Dyf']
+    Dxb = optimization.simulation.derivs['Dxb']
+    Dyb = optimization.simulation.derivs['Dyb']
 
     eps_tot = optimization.simulation.eps_r
     M = eps_tot.size
@@ -300,8 +300,8 @@ def grad_linear_Ex(optimization, dJ, Hz, args, averaging=False):
     EPSILON_0_ = EPSILON_0 * optimization.simulation.L0
     MU_0_ = MU_0*optimization.simulation.L0
     omega = optimization.simulation.omega
-    Dxb = optimization.simulation.derivs['Dxf']
-    Dyb = optimization.simulation.derivs['Dyf']
+    Dxb = optimization.simulation.derivs['Dxb']
+    Dyb = optimization.simulation.derivs['Dyb']
 
     eps_tot = optimization.simulation.eps_r
     M = eps_tot.size
@@ -371,8 +371,8 @@ def grad_linear_Ey(optimization, dJ, Hz, args, averaging=False):
     EPSILON_0_ = EPSILON_0 * optimization.simulation.L0
     MU_0_ = MU_0*optimization.simulation.L0
     omega = optimization.simulation.omega
-    Dxb = optimization.simulation.derivs['Dxf']
-    Dyb = optimization.simulation.derivs['Dyf']
+    Dxb = optimization.simulation.derivs['Dxb']
+    Dyb = optimization.simulation.derivs['Dyb']
 
     eps_tot = optimization.simulation.eps_r
     M = eps_tot.size
-- 
2.43.0


From ae9ec997ee367a41c2aea7d7d800717b48fea7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:05 +0000
Subject: [PATCH 29/45] fix: adjoint sources of Ex and Ey apply the transposed
 operators in the wrong order

---
 angler/gradients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/gradients.py b/angler/gradients.py
index fe97983..ec48bce 100644
--- a/angler/gradients.py
+++ b/angler/gradients.py
@@ -328,7 +328,7 @@ def grad_linear_Ex(optimization, dJ, Hz, args, averaging=False):
     partial = -dJ(*args)
     partial_vec = partial.reshape((-1,))
 
-    b_aj_vec =  1/1j/omega * T_eps_y_inv.dot(Dyb.T).dot(partial_vec)
+    b_aj_vec =  1/1j/omega * Dyb.T.dot(T_eps_y_inv).dot(partial_vec)
     b_aj = b_aj_vec.reshape(Hz.shape)
 
     (Ex_aj, Ey_aj) = adjoint_linear_Hz(optimization.simulation, b_aj, averaging=averaging)   
@@ -399,7 +399,7 @@ def grad_linear_Ey(optimization, dJ, Hz, args, averaging=False):
     partial = -dJ(*args)
     partial_vec = partial.reshape((-1,))
 
-    b_aj_vec = -1/1j/omega * T_eps_x_inv.dot(Dxb.T).dot(partial_vec)
+    b_aj_vec = -1/1j/omega * Dxb.T.dot(T_eps_x_inv).dot(partial_vec)
     b_aj = b_aj_vec.reshape(Hz.shape)
 
     (Ex_aj, Ey_aj) = adjoint_linear_Hz(optimization.simulation, b_aj, averaging=averaging)   
-- 
2.43.0


From 259398e3e500dc96024b70f9510b5b20d9e03696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:05 +0000
Subject: [PATCH 30/45] fix: gradients of Ex and Ey miss their direct
 dependence on the permittivity

---
 angler/gradients.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/angler/gradients.py b/angler/gradients.py
index ec48bce..a6088f4 100644
--- a/angler/gradients.py
+++ b/angler/gradients.py
@@ -364,6 +364,11 @@ def grad_linear_Ex(optimization, dJ, Hz, args, averaging=False):
         dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec)
         sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
 
+    # Ex also depends on the permittivity directly, not only through Hz
+    design_vec = np.reshape(optimization.design_region, (-1,))
+    dEx_vec = EPSILON_0_*T_eps_y_inv.dot(Ex_vec*proj_mat*design_vec)
+    sensitivity_vec = sensitivity_vec + eps_mat*filt_mat.multiply(dEx_vec).dot(partial_vec)
+
     return 1*np.real(np.reshape(sensitivity_vec, rho.shape)) 
 
 def grad_linear_Ey(optimization, dJ, Hz, args, averaging=False):
@@ -435,6 +440,11 @@ def grad_linear_Ey(optimization, dJ, Hz, args, averaging=False):
         dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec)
         sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
 
+    # Ey also depends on the permittivity directly, not only through Hz
+    design_vec = np.reshape(optimization.design_region, (-1,))
+    dEy_vec = EPSILON_0_*T_eps_x_inv.dot(Ey_vec*proj_mat*design_vec)
+    sensitivity_vec = sensitivity_vec + eps_mat*filt_mat.multiply(dEy_vec).dot(partial_vec)
+
     return 1*np.real(np.reshape(sensitivity_vec, rho.shape))
 
 def grad_kerr_Hz(optimization, dJ, Ez_nl, args):
-- 
2.43.0


From 108a46715dea51a76068534704f5d7c29d971cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:51 +0000
Subject: [PATCH 31/45] fix: ortho_port spectrum uses two probes that are never
 defined

---
 data/spectrum_plotter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/spectrum_plotter.py b/data/spectrum_plotter.py
index f0068c6..6446cf3 100644
--- a/data/spectrum_plotter.py
+++ b/data/spectrum_plotter.py
@@ -75,8 +75,8 @@ def get_spectrum(D):
         probes = [probe_out_low, probe_out_high]            
 
     elif D.structure_type == 'ortho_port':
-        # probe_right_low = lambda simulation: simulation.flux_probe('x', [-D.NPML[0]-int(D.l/2/D.dl), D.ny], int(D.H/2/D.dl), nl=False)
-        # probe_top_low = lambda simulation: simulation.flux_probe('y', [D.nx, -D.NPML[1]-int(D.l/2/D.dl)], int(D.H/2/D.dl), nl=False)        
+        probe_right_low = lambda simulation: simulation.flux_probe('x', [-D.NPML[0]-int(D.l/2/D.dl), D.ny], int(D.H/2/D.dl), nl=False)
+        probe_top_low = lambda simulation: simulation.flux_probe('y', [D.nx, -D.NPML[1]-int(D.l/2/D.dl)], int(D.H/2/D.dl), nl=False)        
         probe_right_high = lambda simulation: simulation.flux_probe('x', [-D.NPML[0]-int(D.l/2/D.dl), D.ny], int(D.H/2/D.dl), nl=True)
         probe_top_high = lambda simulation: simulation.flux_probe('y', [D.nx, -D.NPML[1]-int(D.l/2/D.dl)], int(D.H/2/D.dl), nl=True)
         probes = [probe_right_low, probe_top_low, probe_right_high, probe_top_high]
-- 
2.43.0


From 8f9201156146ec6eefdb981d90459274afa2745f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:54 +0000
Subject: [PATCH 32/45] fix: reuse cached objective fields only for the
 simulation, design and source they were solved for

---
 angler/optimization.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index c71ac88..b1fa9fc 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -50,7 +50,7 @@ class Optimization():
         """
 
         # do something only if the fields are not current, or there are no stored fields
-        if not self.fields_current or not self.field_arg_list:
+        if not self._fields_are_current(simulation):
 
             _ = simulation.solve_fields()
             if not self.objective.is_linear():
@@ -69,10 +69,24 @@ class Optimization():
 
             # store these arguments (so that they dont have to be recomputed)
             self.field_arg_list = field_arg_list
+            self.src_solved = copy.deepcopy(simulation.src)
 
             # lets other functions know the field_arg_list is up to date
             self.fields_current = True
 
+    def _fields_are_current(self, simulation):
+        """ Are the stored arguments the solved fields of this simulation, for its present source?"""
+
+        if not self.fields_current or not self.field_arg_list:
+            return False
+
+        # setting the permittivity of the simulation erases its solved fields
+        for arg, field in zip(self.objective.arg_list, self.field_arg_list):
+            solved = simulation.fields_nl if arg.nl else simulation.fields
+            if solved[arg.component] is not field:
+                return False
+
+        return np.array_equal(self.src_solved, simulation.src)
 
     def compute_J(self, simulation):
         """ Returns the current objective function of a simulation"""
-- 
2.43.0


From 1edd667ed51c10625b1b80a936e2fcab69bd5f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:21 +0000
Subject: [PATCH 33/45] fix: start every optimization from the permittivity of
 its density, reject unknown methods first

---
 angler/optimization.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index b1fa9fc..afa7e0f 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -202,6 +202,10 @@ class Optimization():
             beta1=0.9, beta2=0.999, verbose=True, temp_plt=None):
         """ Runs an optimization."""
 
+        allowed = ['LBFGS', 'GD', 'ADAM']
+        if method.upper() not in allowed:
+            raise ValueError("'method' must be in {}".format(allowed))
+
         self.Nsteps = Nsteps
         self.verbose = verbose
         self.temp_plt = temp_plt
@@ -213,9 +217,11 @@ class Optimization():
             eps = copy.deepcopy(self.simulation.eps_r)
             self.simulation.rho = eps2rho(eps, self.eps_m)
         
+        # the density determines the permittivity (through the filter and projection)
+        self.simulation.eps_r = rho2eps(rho=self.simulation.rho, eps_m=self.eps_m, W=self.W,
+                                        eta=self.eta, beta=self.beta)
+
         self.fields_current = False
-        
-        allowed = ['LBFGS', 'GD', 'ADAM']
 
         if method.lower() in ['lbfgs']:
             self._run_LBFGS()
@@ -226,9 +232,6 @@ class Optimization():
         elif method.lower() == 'adam':
             self._run_ADAM(step_size=step_size, beta1=beta1, beta2=beta2)
 
-        else:
-            raise ValueError("'method' must be in {}".format(allowed))
-
     def _run_GD(self, step_size):
         """ Performs simple grad descent optimization"""
 
-- 
2.43.0


From 56bf67ab07e96b308eb57f245aba73ce39d21d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:30 +0000
Subject: [PATCH 34/45] fix: derivative of the permittivity in the density is
 eps_m - 1

---
 angler/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/utils.py b/angler/utils.py
index 65db2e2..e116f9d 100644
--- a/angler/utils.py
+++ b/angler/utils.py
@@ -16,7 +16,7 @@ def rho_bar2eps(rho_bar, eps_m):
     return rho_bar * (eps_m - 1) + 1
 
 def deps_drho_bar(eps, eps_m):
-    return 1 / (eps_m - 1)
+    return eps_m - 1
 
 def rho_bar(rho, eta=0.5, beta=100):
     num = npa.tanh(beta*eta) + npa.tanh(beta*(rho - eta))
-- 
2.43.0


From b3d7fa836854d4d5fbeea3de3fad0a2239d6f5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:32 +0000
Subject: [PATCH 35/45] fix: binarized objectives drop the keyword arguments of
 the objective they wrap

---
 angler/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/angler/utils.py b/angler/utils.py
index e116f9d..d9b2e01 100644
--- a/angler/utils.py
+++ b/angler/utils.py
@@ -86,7 +86,7 @@ class Binarizer():
         def J_new(*args, **kwargs):
 
             eps = args[2]
-            return J(*args) * J_bin(eps)
+            return J(*args, **kwargs) * J_bin(eps)
 
         return J_new
 
@@ -120,7 +120,7 @@ class Binarizer():
         def J_new(*args, **kwargs):
 
             eps = args[2]
-            return J(*args) * J_bin(eps)
+            return J(*args, **kwargs) * J_bin(eps)
 
         return J_new
 
@@ -175,7 +175,7 @@ class Binarizer():
             eps = args[2]
             # print(J_bin(eps))
 
-            return J(*args) * J_bin(eps)
+            return J(*args, **kwargs) * J_bin(eps)
 
         return J_new
 
-- 
2.43.0


From 6ab0bfa0bf42e3798fdfec42ddcefb84dfccea6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:14 +0000
Subject: [PATCH 36/45] fix: log-scale field plot passes a zero lower limit

---
 angler/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index a151809..fc690c5 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -366,7 +366,7 @@ class Simulation:
         
         if vmax is None:
             vmax = field_val.max()
-        if vmin is None:
+        if vmin is None and not logscale:
             vmin = 0.0
 
         cmap = "magma"
-- 
2.43.0


From 507d312805ed2b8083860379dd4e7715493b5d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:14 +0000
Subject: [PATCH 37/45] fix: progress plots fail for the Hz polarization

---
 angler/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index afa7e0f..dc3c2b6 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -345,11 +345,11 @@ class Optimization():
         Nplots = len(self.temp_plt.plot_what)
         plt.close('all')
 
-        Ez_lin = self.simulation.fields['Ez']
+        field_lin = self.simulation.fields[self.simulation.pol]
 
         # This is what was used for the T-port in the paper    
         vmin = 4 * np.sqrt(self.simulation.W_in)
-        vmax = np.abs(Ez_lin).max()/1.5
+        vmax = np.abs(field_lin).max()/1.5
 
         # # This is more general but less flexible
         # if self.temp_plt.vlims[0] == None:
-- 
2.43.0


From 56547d6fb494747d0025029e6f2102f0d0f62fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:14 +0000
Subject: [PATCH 38/45] fix: progress plot of a single quantity, and of the
 default one

---
 angler/optimization.py | 3 ++-
 angler/plot.py         | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index dc3c2b6..c4f9471 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -365,7 +365,8 @@ class Optimization():
             f, faxs = plt.subplots(2, 2, figsize=self.temp_plt.figsize)
             axs = faxs.ravel()
         else:
-            f, axs = plt.subplots(1, Nplots, figsize=self.temp_plt.figsize)
+            f, faxs = plt.subplots(1, Nplots, squeeze=False, figsize=self.temp_plt.figsize)
+            axs = faxs.ravel()
 
         for n, plots in enumerate(self.temp_plt.plot_what):
             if plots == 'eps':
diff --git a/angler/plot.py b/angler/plot.py
index d60beec..99ac103 100644
--- a/angler/plot.py
+++ b/angler/plot.py
@@ -90,7 +90,7 @@ def plt_base_ani(field_val, cbar=True, Nframes=40, interval=80):
 
 class Temp_plt():
 
-    def __init__(self, it_plot=1, plot_what=('eps'), folder='figs/data/temp_im/', 
+    def __init__(self, it_plot=1, plot_what=('eps',), folder='figs/data/temp_im/', 
                     dpi=100, figsize=(4, 4), vlims=(None,None)):
         self.it_plot = it_plot
         self.plot_what = plot_what 
-- 
2.43.0


From e7519ca1f6ef446e854f80dd6e729ce95d64bad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:29 +0000
Subject: [PATCH 39/45] fix: plot_generator imports the angler package (fdfdpy
 and the unused imports no longer exist)

---
 data/plot_generator.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/data/plot_generator.py b/data/plot_generator.py
index 4ff2838..943014d 100644
--- a/data/plot_generator.py
+++ b/data/plot_generator.py
@@ -4,11 +4,9 @@ from matplotlib.colors import LogNorm
 import matplotlib.patches as mpatches
 from mpl_toolkits.axes_grid1.anchored_artists import AnchoredSizeBar
 import matplotlib.font_manager as fm
-from mpl_toolkits.axes_grid.inset_locator import inset_axes
 from mpl_toolkits.axes_grid1 import make_axes_locatable
 
 import numpy as np
-from numpy import in1d
 
 from string import ascii_lowercase
 import copy
@@ -18,8 +16,8 @@ import dill as pickle
 import sys
 sys.path.append('../')
 
-from fdfdpy import Simulation
-from structures import two_port, three_port, ortho_port
+from angler import Simulation
+from angler.structures import two_port, three_port, ortho_port
 from device_saver import Device, load_device
 
 scale_bar_pad = 0.75
-- 
2.43.0


From 57d75e9a4d7778fe1c86dd5862758ecb1576399f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:29 +0000
Subject: [PATCH 40/45] fix: TOC_generator defines the names its plots use

---
 data/TOC_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/TOC_generator.py b/data/TOC_generator.py
index 852c643..29dbec4 100644
--- a/data/TOC_generator.py
+++ b/data/TOC_generator.py
@@ -4,11 +4,9 @@ from matplotlib.colors import LogNorm
 import matplotlib.patches as mpatches
 from mpl_toolkits.axes_grid1.anchored_artists import AnchoredSizeBar
 import matplotlib.font_manager as fm
-from mpl_toolkits.axes_grid.inset_locator import inset_axes
 from mpl_toolkits.axes_grid1 import make_axes_locatable
 
 import numpy as np
-from numpy import in1d
 
 from string import ascii_lowercase
 import copy
@@ -21,6 +19,7 @@ sys.path.append('../')
 from angler import Simulation
 from angler.structures import two_port, three_port, ortho_port
 from device_saver import Device, load_device
+from plot_generator import colorbar, plot_two_port, plot_three_port
 
 scale_bar_pad = 0.75
 scale_bar_font_size = 10
@@ -67,6 +66,7 @@ def plot_ortho_port(D):
     ax_nl = plt.subplot(gs[0, 1])
 
     eps_disp = np.flipud(eps_disp.T)
+    eps_final = np.flipud(D.simulation.eps_r.T)
 
     # linear fields
     E_lin = np.flipud(np.abs(D.Ez.T))
-- 
2.43.0


From fac709b08e7ec68e90f37aae1f38115ca8c7a13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:29 +0000
Subject: [PATCH 41/45] fix: spectrum scan solves the linear fields its low
 power probes measure

---
 data/spectrum_plotter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/spectrum_plotter.py b/data/spectrum_plotter.py
index 6446cf3..0c4e489 100644
--- a/data/spectrum_plotter.py
+++ b/data/spectrum_plotter.py
@@ -56,8 +56,8 @@ def scan_frequency(D, probe, Nf=300, df=1/200, pbar=True):
         sim_new.omega = 2*np.pi*f
         sim_new.eps_r = D.simulation.eps_r
 
-        # # solve fields
-        # _ = sim_new.solve_fields()
+        # solve fields
+        _ = sim_new.solve_fields()
         _ = sim_new.solve_fields_nl(Estart=E_prev)
 
         # compute objective function and append to list
-- 
2.43.0


From f2f500804417ed00315c5fa2e3b501e0caf00f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:54 +0000
Subject: [PATCH 42/45] fix: spectrum plots know the three port device

---
 data/spectrum_plotter.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/data/spectrum_plotter.py b/data/spectrum_plotter.py
index 0c4e489..2afb9bf 100644
--- a/data/spectrum_plotter.py
+++ b/data/spectrum_plotter.py
@@ -74,6 +74,13 @@ def get_spectrum(D):
         probe_out_high = lambda simulation: simulation.flux_probe('x', [-D.NPML[0]-int(D.l/2/D.dl), D.ny], int(D.Ny/2), nl=True)
         probes = [probe_out_low, probe_out_high]            
 
+    elif D.structure_type == 'three_port':
+        probe_top_low = lambda simulation: simulation.flux_probe('x', [-D.NPML[0]-int(D.l/2/D.dl), D.ny+int(D.d/2/D.dl)], int(D.H/2/D.dl), nl=False)
+        probe_bot_low = lambda simulation: simulation.flux_probe('x', [-D.NPML[0]-int(D.l/2/D.dl), D.ny-int(D.d/2/D.dl)], int(D.H/2/D.dl), nl=False)
+        probe_top_high = lambda simulation: simulation.flux_probe('x', [-D.NPML[0]-int(D.l/2/D.dl), D.ny+int(D.d/2/D.dl)], int(D.H/2/D.dl), nl=True)
+        probe_bot_high = lambda simulation: simulation.flux_probe('x', [-D.NPML[0]-int(D.l/2/D.dl), D.ny-int(D.d/2/D.dl)], int(D.H/2/D.dl), nl=True)
+        probes = [probe_top_low, probe_bot_low, probe_top_high, probe_bot_high]
+
     elif D.structure_type == 'ortho_port':
         probe_right_low = lambda simulation: simulation.flux_probe('x', [-D.NPML[0]-int(D.l/2/D.dl), D.ny], int(D.H/2/D.dl), nl=False)
         probe_top_low = lambda simulation: simulation.flux_probe('y', [D.nx, -D.NPML[1]-int(D.l/2/D.dl)], int(D.H/2/D.dl), nl=False)        
@@ -92,6 +99,8 @@ def plot_spectra(D, freqs, spectra):
 
     if D.structure_type == 'two_port':
         leg = ('low power', 'high power')
+    elif D.structure_type == 'three_port':
+        leg = ('low power (top)', 'low power (bottom)', 'high power (top)', 'high power (bottom)')
     elif D.structure_type == 'ortho_port':
         leg = ('low power (right)', 'low power (bottom)', 'high power (right)', 'high power (bottom)')
 
-- 
2.43.0


From f52a2b3213fdba615634fb9f52052855c3419eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:59 +0000
Subject: [PATCH 43/45] fix: plot_three_port builds the three port structure
 with its port distance

---
 data/plot_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/plot_generator.py b/data/plot_generator.py
index 943014d..da2a8c6 100644
--- a/data/plot_generator.py
+++ b/data/plot_generator.py
@@ -321,7 +321,7 @@ def plot_three_port(D):
     ax_obj = plt.subplot(gs[2, 0])
     ax_power = plt.subplot(gs[2, 1])
 
-    eps_disp, design_region = three_port(D.L, D.H, D.w, D.l, D.spc, D.dl, D.NPML, D.eps_m)
+    eps_disp, design_region = three_port(D.L, D.H, D.w, D.d, D.l, D.spc, D.dl, D.NPML, D.eps_m)
 
     # draw structure
     im = ax_drawing.pcolormesh(D.x_range, D.y_range, eps_disp.T, cmap='Greys')
-- 
2.43.0


From 48055d9a7e344beff0407a4a121b0385354ae8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:14 +0000
Subject: [PATCH 44/45] fix: gif generators build their optimization from an
 Objective

---
 data/gif_generator_Tport.py    | 4 +++-
 data/gif_generator_splitter.py | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/data/gif_generator_Tport.py b/data/gif_generator_Tport.py
index bce1a52..0daee5b 100644
--- a/data/gif_generator_Tport.py
+++ b/data/gif_generator_Tport.py
@@ -8,6 +8,7 @@ sys.path.append("..")
 
 # import the main simulation and optimization classes
 from angler import Simulation, Optimization
+from angler.objective import Objective, obj_arg
 from angler.plot import Temp_plt
 
 # import some structure generators
@@ -108,7 +109,8 @@ eta= 0.50      # projection halfway
 
 temp_plt = Temp_plt(it_plot=1, plot_what=('eps', 'elin', 'enl'), folder='figs/data/temp_im/', 
 						figsize=(14,4), dpi=100)
-optimization = Optimization(J=J, simulation=simulation, design_region=design_region, eps_m=eps_m, R=R, beta=beta, eta=eta)
+objective = Objective(J, arg_list=[obj_arg('e', component='Ez', nl=False), obj_arg('e_nl', component='Ez', nl=True)])
+optimization = Optimization(objective=objective, simulation=simulation, design_region=design_region, eps_m=eps_m, R=R, beta=beta, eta=eta)
 (grad_avm, grad_num) = optimization.check_deriv(Npts=5, d_rho=5e-4)
 # print('adjoint gradient   = {}\nnumerical gradient = {}'.format(grad_avm, grad_num))
 optimization.run(method='lbfgs', Nsteps=400, temp_plt=temp_plt)
\ No newline at end of file
diff --git a/data/gif_generator_splitter.py b/data/gif_generator_splitter.py
index 7ff485d..502ad36 100644
--- a/data/gif_generator_splitter.py
+++ b/data/gif_generator_splitter.py
@@ -8,6 +8,7 @@ sys.path.append("..")
 
 # import the main simulation and optimization classes
 from angler import Simulation, Optimization
+from angler.objective import Objective, obj_arg
 from angler.plot import Temp_plt
 
 # import some structure generators
@@ -86,7 +87,7 @@ simulation.init_design_region(design_region, eps_m, style='random')
 
 # define objective function  (equal power transmission to bottom and top)
 import autograd.numpy as npa
-def J(e, e_nl):
+def J(e):
     linear_top =     1*npa.sum(npa.square(npa.abs(e*J_top)))
     linear_bot =     1*npa.sum(npa.square(npa.abs(e*J_bot)))
     objfn = linear_top * linear_bot * 4
@@ -98,7 +99,8 @@ beta = 100     # projection strength
 eta= 0.50      # projection halfway
 
 temp_plt = Temp_plt(it_plot=1, plot_what=('eps', 'elin'), folder='../data/figs/data/temp_im/')
-optimization = Optimization(J=J, simulation=simulation, design_region=design_region, eps_m=eps_m, R=R, beta=beta, eta=eta)
+objective = Objective(J, arg_list=[obj_arg('e', component='Ez', nl=False)])
+optimization = Optimization(objective=objective, simulation=simulation, design_region=design_region, eps_m=eps_m, R=R, beta=beta, eta=eta)
 (grad_avm, grad_num) = optimization.check_deriv(Npts=5, d_rho=5e-4)
 # print('adjoint gradient   = {}\nnumerical gradient = {}'.format(grad_avm, grad_num))
 optimization.run(method='adam', step_size=0.0001, Nsteps=200, temp_plt=temp_plt)
\ No newline at end of file
-- 
2.43.0


From ecc3a7b91c284515c0a99df0608f21ec872f42b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:53 +0000
Subject: [PATCH 45/45] fix: random design regions keep a lossy permittivity
 outside the region

---
 angler/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index fc690c5..cd43462 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -324,7 +324,7 @@ class Simulation:
         elif style == 'random':
             # random pixels in design region
             eps_random = (eps_m-1)*np.random.random(self.eps_r.shape)+1
-            eps_random[design_region == 0] = self.eps_r[design_region == 0]
+            eps_random = np.where(design_region == 0, self.eps_r, eps_random)
             self.eps_r = eps_random
 
         elif style == 'random_sym':
@@ -332,7 +332,7 @@ class Simulation:
             R = np.random.random(self.eps_r.shape)
             R_sym = 1/2*(np.fliplr(R) + R)
             eps_random = (eps_m-1)*R_sym+1
-            eps_random[design_region == 0] = self.eps_r[design_region == 0]
+            eps_random = np.where(design_region == 0, self.eps_r, eps_random)
             self.eps_r = eps_random
 
         self.rho = eps2rho(self.eps_r, eps_m)
-- 
2.43.0

