From fd127dfeb80c4cddb00c98b47e3c6708fb693ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:05 +0000
Subject: [PATCH 01/36] fix: keep fully contracted terms when normal ordering
 fermionic operators

a_p a^dagger_p = 1 - a^dagger_p a_p lost the identity, and operator strings of
length one raised IndexError.
---
 slowquant/unitary_coupled_cluster/fermionic_operator.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/slowquant/unitary_coupled_cluster/fermionic_operator.py b/slowquant/unitary_coupled_cluster/fermionic_operator.py
index c592bbc..fd9c5e4 100644
--- a/slowquant/unitary_coupled_cluster/fermionic_operator.py
+++ b/slowquant/unitary_coupled_cluster/fermionic_operator.py
@@ -52,7 +52,7 @@ def do_extended_normal_ordering(
             changed = False
             is_zero = False
             while True:
-                if len(next_operator) == 0:
+                if len(next_operator) < 2:
                     break
                 a = next_operator[current_idx]
                 b = next_operator[current_idx + 1]
@@ -70,9 +70,8 @@ def do_extended_normal_ordering(
                         new_op = copy.copy(next_operator)
                         new_op.pop(j)
                         new_op.pop(i)
-                        if len(new_op) > 0:
-                            operator_queue.append(new_op)
-                            factor_queue.append(factor)
+                        operator_queue.append(new_op)
+                        factor_queue.append(factor)
                         next_operator[i], next_operator[j] = next_operator[j], next_operator[i]
                         factor *= -1
                         changed = True
-- 
2.43.0


From 5d6fb58cba114f2d0b1102b1111c6b6216ccf1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:28 +0000
Subject: [PATCH 02/36] fix: make the accepted ansatz names fUCCpD and SAfUCCSD
 select their excitations

---
 slowquant/unitary_coupled_cluster/ups_wavefunction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slowquant/unitary_coupled_cluster/ups_wavefunction.py b/slowquant/unitary_coupled_cluster/ups_wavefunction.py
index aef12c7..5816879 100644
--- a/slowquant/unitary_coupled_cluster/ups_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/ups_wavefunction.py
@@ -277,9 +277,9 @@ class WaveFunctionUPS:
             elif ansatz.lower() == "ksafupccgsd":
                 self.ansatz_options["SAGS"] = True
                 self.ansatz_options["GpD"] = True
-            elif ansatz.lower() == "fuccspd":
+            elif ansatz.lower() == "fuccpd":
                 self.ansatz_options["pD"] = True
-            elif ansatz.lower() == "safuccspd":
+            elif ansatz.lower() == "safuccsd":
                 self.ansatz_options["SAS"] = True
                 self.ansatz_options["SAD"] = True
             if "n_layers" not in self.ansatz_options.keys():
-- 
2.43.0


From c0848ee5690906ded51d7c6f0082990fb50949c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:28 +0000
Subject: [PATCH 03/36] fix: first operator of an SDS pair-double block is a
 single excitation

---
 slowquant/unitary_coupled_cluster/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slowquant/unitary_coupled_cluster/util.py b/slowquant/unitary_coupled_cluster/util.py
index fc84fb4..4d0aa74 100644
--- a/slowquant/unitary_coupled_cluster/util.py
+++ b/slowquant/unitary_coupled_cluster/util.py
@@ -1039,7 +1039,7 @@ class UpsStructure:
                     self.n_params += 1
             if do_pD:
                 for a, i, b, j in iterate_pair_t2(occ_idx, unocc_idx):
-                    self.excitation_operator_type.append("double")
+                    self.excitation_operator_type.append("sa_single")
                     self.excitation_indices.append((i // 2, a // 2))
                     self.grad_param_R[f"p{self.n_params:09d}"] = 4
                     self.param_names.append(f"p{self.n_params:09d}")
-- 
2.43.0


From 67e43b77591c3d98ce830d6d0a27bd71333e2f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:28 +0000
Subject: [PATCH 04/36] fix: do not write ansatz defaults into the caller's
 options dictionary

---
 slowquant/qiskit_interface/interface.py                  | 2 +-
 slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py | 2 +-
 slowquant/unitary_coupled_cluster/ups_wavefunction.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/slowquant/qiskit_interface/interface.py b/slowquant/qiskit_interface/interface.py
index 0df6239..0217540 100644
--- a/slowquant/qiskit_interface/interface.py
+++ b/slowquant/qiskit_interface/interface.py
@@ -124,7 +124,7 @@ class QuantumInterface:
         self.total_shots_used = 0
         self.total_device_calls = 0
         self.total_paulis_evaluated = 0
-        self.ansatz_options = ansatz_options
+        self.ansatz_options = ansatz_options.copy()
         self._pass_manager: PassManager = None
         self.saver: dict[int, Clique] = {}
         self._save_paulis = True  # hard switch to stop using Pauli saving (debugging tool).
diff --git a/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py b/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
index f813fa2..7f30c22 100644
--- a/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
@@ -91,7 +91,7 @@ class WaveFunctionSAUPS:
         self._g_mo = None
         self._sa_energy: float | None = None
         self._state_energies = None
-        self.ansatz_options = ansatz_options
+        self.ansatz_options = ansatz_options.copy()
         self.num_energy_evals = 0
         # Used when converting to circuit wavefunction.
         self._include_active_kappa = include_active_kappa
diff --git a/slowquant/unitary_coupled_cluster/ups_wavefunction.py b/slowquant/unitary_coupled_cluster/ups_wavefunction.py
index 5816879..fb1bce2 100644
--- a/slowquant/unitary_coupled_cluster/ups_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/ups_wavefunction.py
@@ -84,7 +84,7 @@ class WaveFunctionUPS:
         self._h_mo = None
         self._g_mo = None
         self._energy_elec: float | None = None
-        self.ansatz_options = ansatz_options
+        self.ansatz_options = ansatz_options.copy()
         self.num_energy_evals = 0
         # Used when converting to circuit wavefunction.
         self._include_active_kappa = include_active_kappa
-- 
2.43.0


From 08a086e09d5b72cc4fd91d5e9e180788602d92fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:28 +0000
Subject: [PATCH 05/36] fix: do not generate identically vanishing generalized
 double excitations

---
 slowquant/unitary_coupled_cluster/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slowquant/unitary_coupled_cluster/util.py b/slowquant/unitary_coupled_cluster/util.py
index 4d0aa74..4bb8201 100644
--- a/slowquant/unitary_coupled_cluster/util.py
+++ b/slowquant/unitary_coupled_cluster/util.py
@@ -220,9 +220,9 @@ def iterate_t2_generalized(
         T2 operator iteration.
     """
     for i in range(num_spin_orbs):
-        for j in range(i, num_spin_orbs):
+        for j in range(i + 1, num_spin_orbs):
             for a in range(max(i, j) + 1, num_spin_orbs):
-                for b in range(a, num_spin_orbs):
+                for b in range(a + 1, num_spin_orbs):
                     num_alpha = 0
                     num_beta = 0
                     if a % 2 == 0:
-- 
2.43.0


From 73270276ebbff681cb18bed9232d489c8064bc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:48 +0000
Subject: [PATCH 06/36] fix: allow reading 3- and 4-electron RDMs before
 parameters have been set

---
 slowquant/unitary_coupled_cluster/ups_wavefunction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/slowquant/unitary_coupled_cluster/ups_wavefunction.py b/slowquant/unitary_coupled_cluster/ups_wavefunction.py
index fb1bce2..4a5baeb 100644
--- a/slowquant/unitary_coupled_cluster/ups_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/ups_wavefunction.py
@@ -81,6 +81,8 @@ class WaveFunctionUPS:
         self.num_virtual_spin_orbs = 0
         self._rdm1 = None
         self._rdm2 = None
+        self._rdm3 = None
+        self._rdm4 = None
         self._h_mo = None
         self._g_mo = None
         self._energy_elec: float | None = None
-- 
2.43.0


From 6761068e91b00977f6f90044e38344e35dbf1b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:11 +0000
Subject: [PATCH 07/36] fix: reject orbital rotation vectors of wrong length

---
 slowquant/qiskit_interface/circuit_wavefunction.py       | 2 ++
 slowquant/qiskit_interface/sa_circuit_wavefunction.py    | 2 ++
 slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py | 2 ++
 slowquant/unitary_coupled_cluster/ucc_wavefunction.py    | 2 ++
 slowquant/unitary_coupled_cluster/ups_wavefunction.py    | 2 ++
 5 files changed, 10 insertions(+)

diff --git a/slowquant/qiskit_interface/circuit_wavefunction.py b/slowquant/qiskit_interface/circuit_wavefunction.py
index 90922cc..067dbf5 100644
--- a/slowquant/qiskit_interface/circuit_wavefunction.py
+++ b/slowquant/qiskit_interface/circuit_wavefunction.py
@@ -258,6 +258,8 @@ class WaveFunctionCircuit:
         Args:
             k: orbital rotation parameters.
         """
+        if len(k) != len(self._kappa):
+            raise ValueError(f"Expected {len(self._kappa)} kappa values got {len(k)}")
         self._h_mo = None
         self._g_mo = None
         self._energy_elec = None
diff --git a/slowquant/qiskit_interface/sa_circuit_wavefunction.py b/slowquant/qiskit_interface/sa_circuit_wavefunction.py
index 91739fb..ada5a47 100644
--- a/slowquant/qiskit_interface/sa_circuit_wavefunction.py
+++ b/slowquant/qiskit_interface/sa_circuit_wavefunction.py
@@ -224,6 +224,8 @@ class WaveFunctionSACircuit:
         Args:
             k: orbital rotation parameters.
         """
+        if len(k) != len(self._kappa):
+            raise ValueError(f"Expected {len(self._kappa)} kappa values got {len(k)}")
         self._h_mo = None
         self._g_mo = None
         self._sa_energy = None
diff --git a/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py b/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
index 7f30c22..40b6c9a 100644
--- a/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
@@ -300,6 +300,8 @@ class WaveFunctionSAUPS:
         Args:
             k: orbital rotation parameters.
         """
+        if len(k) != len(self._kappa):
+            raise ValueError(f"Expected {len(self._kappa)} kappa values got {len(k)}")
         self._h_mo = None
         self._g_mo = None
         self._sa_energy = None
diff --git a/slowquant/unitary_coupled_cluster/ucc_wavefunction.py b/slowquant/unitary_coupled_cluster/ucc_wavefunction.py
index 25c12bc..c5a8a3f 100644
--- a/slowquant/unitary_coupled_cluster/ucc_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/ucc_wavefunction.py
@@ -242,6 +242,8 @@ class WaveFunctionUCC:
         Args:
             k: orbital rotation parameters.
         """
+        if len(k) != len(self._kappa):
+            raise ValueError(f"Expected {len(self._kappa)} kappa values got {len(k)}")
         self._h_mo = None
         self._g_mo = None
         self._energy_elec = None
diff --git a/slowquant/unitary_coupled_cluster/ups_wavefunction.py b/slowquant/unitary_coupled_cluster/ups_wavefunction.py
index 4a5baeb..c40793d 100644
--- a/slowquant/unitary_coupled_cluster/ups_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/ups_wavefunction.py
@@ -327,6 +327,8 @@ class WaveFunctionUPS:
         Args:
             k: orbital rotation parameters.
         """
+        if len(k) != len(self._kappa):
+            raise ValueError(f"Expected {len(self._kappa)} kappa values got {len(k)}")
         self._h_mo = None
         self._g_mo = None
         self._energy_elec = None
-- 
2.43.0


From 8355fc0013e3e91b9b865be787acad9dfe1331b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:09 +0000
Subject: [PATCH 08/36] fix: leave orbitals and energy at the optimum found,
 and continue from the current orbital rotation

---
 slowquant/qiskit_interface/circuit_wavefunction.py     |  8 +++++---
 slowquant/qiskit_interface/sa_circuit_wavefunction.py  |  9 ++++++---
 .../unitary_coupled_cluster/sa_ups_wavefunction.py     |  8 ++++----
 slowquant/unitary_coupled_cluster/ucc_wavefunction.py  | 10 +++++-----
 slowquant/unitary_coupled_cluster/ups_wavefunction.py  |  8 ++++----
 5 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/slowquant/qiskit_interface/circuit_wavefunction.py b/slowquant/qiskit_interface/circuit_wavefunction.py
index 067dbf5..6ce62a8 100644
--- a/slowquant/qiskit_interface/circuit_wavefunction.py
+++ b/slowquant/qiskit_interface/circuit_wavefunction.py
@@ -1001,7 +1001,8 @@ class WaveFunctionCircuit:
                         else None
                     ),
                 )
-                res = optimizer.minimize([0.0] * len(self.kappa_idx))
+                res = optimizer.minimize(list(self.kappa))
+                self.kappa = res.x.tolist()
                 for i in range(len(self.kappa)):
                     self._kappa[i] = 0.0
                     self._kappa_old[i] = 0.0
@@ -1096,7 +1097,7 @@ class WaveFunctionCircuit:
             )
         if orbital_optimization:
             if len(self.thetas) > 0:
-                parameters = self.kappa + self.thetas
+                parameters = list(self.kappa) + list(self.thetas)
             else:
                 parameters = self.kappa
         else:
@@ -1127,12 +1128,13 @@ class WaveFunctionCircuit:
         )
         if orbital_optimization:
             self.thetas = res.x[len(self.kappa) :].tolist()
+            self.kappa = res.x[: len(self.kappa)].tolist()
             for i in range(len(self.kappa)):
                 self._kappa[i] = 0.0
                 self._kappa_old[i] = 0.0
         else:
             self.thetas = res.x.tolist()
-        self._energy_elec = res.fun
+            self._energy_elec = res.fun
 
     def _calc_energy_optimization(
         self, parameters: list[float], theta_optimization: bool, kappa_optimization: bool
diff --git a/slowquant/qiskit_interface/sa_circuit_wavefunction.py b/slowquant/qiskit_interface/sa_circuit_wavefunction.py
index ada5a47..7417001 100644
--- a/slowquant/qiskit_interface/sa_circuit_wavefunction.py
+++ b/slowquant/qiskit_interface/sa_circuit_wavefunction.py
@@ -587,7 +587,8 @@ class WaveFunctionSACircuit:
                 )
                 self._old_opt_parameters = np.zeros(len(self.kappa_idx)) + 10**20
                 self._E_opt_old = 0.0
-                res = optimizer.minimize([0.0] * len(self.kappa_idx))
+                res = optimizer.minimize(list(self.kappa))
+                self.kappa = res.x.tolist()
                 for i in range(len(self.kappa)):
                     self._kappa[i] = 0.0
                     self._kappa_old[i] = 0.0
@@ -677,7 +678,7 @@ class WaveFunctionSACircuit:
             )
         if orbital_optimization:
             if len(self.thetas) > 0:
-                parameters = self.kappa + self.thetas
+                parameters = list(self.kappa) + list(self.thetas)
             else:
                 parameters = self.kappa
         else:
@@ -707,6 +708,7 @@ class WaveFunctionSACircuit:
         )
         if orbital_optimization:
             self.thetas = res.x[len(self.kappa) :].tolist()
+            self.kappa = res.x[: len(self.kappa)].tolist()
             for i in range(len(self.kappa)):
                 self._kappa[i] = 0.0
                 self._kappa_old[i] = 0.0
@@ -714,7 +716,8 @@ class WaveFunctionSACircuit:
             self.thetas = res.x.tolist()
         # Subspace diagonalization
         self._do_state_ci()
-        self._sa_energy = res.fun
+        if not orbital_optimization:
+            self._sa_energy = res.fun
 
     def _do_state_ci(self) -> None:
         r"""Do subspace diagonalisation.
diff --git a/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py b/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
index 40b6c9a..63cf6f5 100644
--- a/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
@@ -613,7 +613,8 @@ class WaveFunctionSAUPS:
                 )
                 self._old_opt_parameters = np.zeros(len(self.kappa_idx)) + 10**20
                 self._E_opt_old = 0.0
-                res = optimizer.minimize([0.0] * len(self.kappa_idx))
+                res = optimizer.minimize(list(self.kappa))
+                self.kappa = res.x.tolist()
                 for i in range(len(self.kappa)):
                     self._kappa[i] = 0.0
                     self._kappa_old[i] = 0.0
@@ -637,7 +638,6 @@ class WaveFunctionSAUPS:
             e_old = e_new
         # Subspace diagonalization
         self._do_state_ci()
-        self._sa_energy = res.fun
 
     def run_wf_optimization_1step(
         self,
@@ -701,7 +701,7 @@ class WaveFunctionSAUPS:
             )
         if orbital_optimization:
             if len(self.thetas) > 0:
-                parameters = self.kappa + self.thetas
+                parameters = list(self.kappa) + list(self.thetas)
             else:
                 parameters = self.kappa
         else:
@@ -731,6 +731,7 @@ class WaveFunctionSAUPS:
             )
         if orbital_optimization:
             self.thetas = res.x[len(self.kappa) :].tolist()
+            self.kappa = res.x[: len(self.kappa)].tolist()
             for i in range(len(self.kappa)):
                 self._kappa[i] = 0.0
                 self._kappa_old[i] = 0.0
@@ -738,7 +739,6 @@ class WaveFunctionSAUPS:
             self.thetas = res.x.tolist()
         # Subspace diagonalization
         self._do_state_ci()
-        self._sa_energy = res.fun
 
     def _do_state_ci(self) -> None:
         r"""Do subspace diagonalisation.
diff --git a/slowquant/unitary_coupled_cluster/ucc_wavefunction.py b/slowquant/unitary_coupled_cluster/ucc_wavefunction.py
index c5a8a3f..bcca322 100644
--- a/slowquant/unitary_coupled_cluster/ucc_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/ucc_wavefunction.py
@@ -834,9 +834,10 @@ class WaveFunctionUCC:
                 )
                 self._old_opt_parameters = np.zeros(len(self.kappa_idx)) + 10**20
                 self._E_opt_old = 0.0
-                res = optimizer.minimize([0.0] * len(self.kappa_idx))
+                res = optimizer.minimize(list(self.kappa))
+                self.kappa = res.x.tolist()
                 for i in range(len(self.kappa)):
-                    self.kappa[i] = 0.0
+                    self._kappa[i] = 0.0
                     self._kappa_old[i] = 0.0
             else:
                 # If theres is no orbital optimization, then the algorithm is already converged.
@@ -854,7 +855,6 @@ class WaveFunctionUCC:
             if abs(e_new - e_old) < tol:
                 break
             e_old = e_new
-        self._energy_elec = e_new
 
     def run_wf_optimization_1step(
         self,
@@ -945,7 +945,7 @@ class WaveFunctionUCC:
             )
         if orbital_optimization:
             if len(self.thetas) > 0:
-                parameters = self.kappa + self.thetas
+                parameters = list(self.kappa) + list(self.thetas)
             else:
                 parameters = self.kappa
         else:
@@ -958,12 +958,12 @@ class WaveFunctionUCC:
         )
         if orbital_optimization:
             self.thetas = res.x[len(self.kappa) :].tolist()
+            self.kappa = res.x[: len(self.kappa)].tolist()
             for i in range(len(self.kappa)):
                 self._kappa[i] = 0.0
                 self._kappa_old[i] = 0.0
         else:
             self.thetas = res.x.tolist()
-        self._energy_elec = res.fun
 
     def _calc_energy_optimization(
         self,
diff --git a/slowquant/unitary_coupled_cluster/ups_wavefunction.py b/slowquant/unitary_coupled_cluster/ups_wavefunction.py
index c40793d..95d0761 100644
--- a/slowquant/unitary_coupled_cluster/ups_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/ups_wavefunction.py
@@ -897,7 +897,8 @@ class WaveFunctionUPS:
                 )
                 self._old_opt_parameters = np.zeros(len(self.kappa_idx)) + 10**20
                 self._E_opt_old = 0.0
-                res = optimizer.minimize([0.0] * len(self.kappa_idx))
+                res = optimizer.minimize(list(self.kappa))
+                self.kappa = res.x.tolist()
                 for i in range(len(self.kappa)):
                     self._kappa[i] = 0.0
                     self._kappa_old[i] = 0.0
@@ -919,7 +920,6 @@ class WaveFunctionUPS:
             if abs(e_new - e_old) < tol:
                 break
             e_old = e_new
-        self._energy_elec = e_new
 
     def run_wf_optimization_1step(
         self,
@@ -983,7 +983,7 @@ class WaveFunctionUPS:
             )
         if orbital_optimization:
             if len(self.thetas) > 0:
-                parameters = self.kappa + self.thetas
+                parameters = list(self.kappa) + list(self.thetas)
             else:
                 parameters = self.kappa
         else:
@@ -1013,12 +1013,12 @@ class WaveFunctionUPS:
             )
         if orbital_optimization:
             self.thetas = res.x[len(self.kappa) :].tolist()
+            self.kappa = res.x[: len(self.kappa)].tolist()
             for i in range(len(self.kappa)):
                 self._kappa[i] = 0.0
                 self._kappa_old[i] = 0.0
         else:
             self.thetas = res.x.tolist()
-        self._energy_elec = res.fun
 
     def _calc_energy_optimization(
         self, parameters: list[float], theta_optimization: bool, kappa_optimization: bool
-- 
2.43.0


From 653561a832a6ee3b62db88502306d686194b6241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:09 +0000
Subject: [PATCH 09/36] fix: orthonormal state coefficients for degenerate
 state-averaged states

---
 slowquant/qiskit_interface/sa_circuit_wavefunction.py    | 2 +-
 slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/slowquant/qiskit_interface/sa_circuit_wavefunction.py b/slowquant/qiskit_interface/sa_circuit_wavefunction.py
index 7417001..6faf332 100644
--- a/slowquant/qiskit_interface/sa_circuit_wavefunction.py
+++ b/slowquant/qiskit_interface/sa_circuit_wavefunction.py
@@ -738,7 +738,7 @@ class WaveFunctionSACircuit:
                 state_H[i, j] = state_H[j, i] = self.QI.quantum_expectation_value_csfs(
                     (coeffs_i, csf_i), H, (coeffs_j, csf_j)
                 )
-        eigval, eigvec = scipy.linalg.eig(state_H)
+        eigval, eigvec = scipy.linalg.eigh(state_H)
         sorting = np.argsort(eigval)
         self._state_energies = np.real(eigval[sorting])
         self._state_ci_coeffs = np.real(eigvec[:, sorting])
diff --git a/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py b/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
index 63cf6f5..95362fb 100644
--- a/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
@@ -765,7 +765,7 @@ class WaveFunctionSAUPS:
                     do_folding=False,
                 )
         # Diagonalize
-        eigval, eigvec = scipy.linalg.eig(state_H)
+        eigval, eigvec = scipy.linalg.eigh(state_H)
         sorting = np.argsort(eigval)
         self._state_energies = np.real(eigval[sorting])
         self._state_ci_coeffs = np.real(eigvec[:, sorting])
-- 
2.43.0


From 0d622b2b9a6b027b73920ff2a37000b7cdad8c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:09 +0000
Subject: [PATCH 10/36] fix: average the reconstructed state-averaged energy
 over the states

---
 slowquant/unitary_coupled_cluster/optimizers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slowquant/unitary_coupled_cluster/optimizers.py b/slowquant/unitary_coupled_cluster/optimizers.py
index 54561ba..4707bfd 100644
--- a/slowquant/unitary_coupled_cluster/optimizers.py
+++ b/slowquant/unitary_coupled_cluster/optimizers.py
@@ -363,7 +363,7 @@ def reconstructed_f(x_vals: np.ndarray, energy_vals: list[float] | list[np.ndarr
                         * np.sinc((2 * R + 1) / 2 * (x - x_mu) / np.pi)
                         / (np.sinc(1 / 2 * (x - x_mu) / np.pi))
                     )
-        e = e / len(energy_vals)
+        e = e / len(energy_vals[0])
     return e
 
 
@@ -488,5 +488,5 @@ def reconstructed_f_derivative(
 
                 # quotient rule: (N/D)' = (N' D - N D') / D^2
                 de += energy_vals[i][k] * (s1_prime * s2 - s1 * s2_prime) / (s2**2)  # type: ignore
-        de = de / len(energy_vals)
+        de = de / len(energy_vals[0])
     return de
-- 
2.43.0


From 0ccfdd63c1a032266cb3d541aceddb056c977aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:27 +0000
Subject: [PATCH 11/36] fix: do not use missing or outdated state coefficients
 in state-averaged transition properties

---
 slowquant/qiskit_interface/sa_circuit_wavefunction.py    | 3 +++
 slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/slowquant/qiskit_interface/sa_circuit_wavefunction.py b/slowquant/qiskit_interface/sa_circuit_wavefunction.py
index 6faf332..c13ff19 100644
--- a/slowquant/qiskit_interface/sa_circuit_wavefunction.py
+++ b/slowquant/qiskit_interface/sa_circuit_wavefunction.py
@@ -89,6 +89,7 @@ class WaveFunctionSACircuit:
         self._g_mo = None
         self._sa_energy: float | None = None
         self._state_energies = None
+        self._state_ci_coeffs = None
         self.num_energy_evals = 0  # number of energy measurements on quanutm
         active_space = []
         orbital_counter = 0
@@ -230,6 +231,7 @@ class WaveFunctionSACircuit:
         self._g_mo = None
         self._sa_energy = None
         self._state_energies = None
+        self._state_ci_coeffs = None
         self._kappa = k.copy()
         # Move current expansion point.
         self._c_mo = self.c_mo
@@ -326,6 +328,7 @@ class WaveFunctionSACircuit:
         self._rdm2 = None
         self._sa_energy = None
         self._state_energies = None
+        self._state_ci_coeffs = None
         self.QI.total_device_calls = 0
         self.QI.total_shots_used = 0
         self.QI.total_paulis_evaluated = 0
diff --git a/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py b/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
index 95362fb..5974ddc 100644
--- a/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
@@ -91,6 +91,7 @@ class WaveFunctionSAUPS:
         self._g_mo = None
         self._sa_energy: float | None = None
         self._state_energies = None
+        self._state_ci_coeffs = None
         self.ansatz_options = ansatz_options.copy()
         self.num_energy_evals = 0
         # Used when converting to circuit wavefunction.
-- 
2.43.0


From e6ecb93cfe730c4acbaac017583f564da5149c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:37 +0000
Subject: [PATCH 12/36] fix: one-step optimization of wave functions without
 orbital rotations

---
 slowquant/qiskit_interface/circuit_wavefunction.py       | 5 +++++
 slowquant/qiskit_interface/sa_circuit_wavefunction.py    | 5 +++++
 slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py | 5 +++++
 slowquant/unitary_coupled_cluster/ucc_wavefunction.py    | 5 +++++
 slowquant/unitary_coupled_cluster/ups_wavefunction.py    | 5 +++++
 5 files changed, 25 insertions(+)

diff --git a/slowquant/qiskit_interface/circuit_wavefunction.py b/slowquant/qiskit_interface/circuit_wavefunction.py
index 6ce62a8..df8d36e 100644
--- a/slowquant/qiskit_interface/circuit_wavefunction.py
+++ b/slowquant/qiskit_interface/circuit_wavefunction.py
@@ -1043,6 +1043,11 @@ class WaveFunctionCircuit:
             maxiter: Maximum number of iterations.
             print_std: Print standard deviation in sub-iteration headers.
         """
+        if orbital_optimization and len(self.kappa) == 0:
+            print(
+                "WARNING: No orbital optimization performed, because there is no non-redundant orbital parameters"
+            )
+            orbital_optimization = False
         if isinstance(self.QI.ansatz, QuantumCircuit) and optimizer_name.lower() not in ("cobyla", "cobyqa"):
             raise ValueError("Custom Ansatz in QI only works with COBYLA and COBYQA as optimizer.")
         print("### Parameters information:")
diff --git a/slowquant/qiskit_interface/sa_circuit_wavefunction.py b/slowquant/qiskit_interface/sa_circuit_wavefunction.py
index c13ff19..8897ce5 100644
--- a/slowquant/qiskit_interface/sa_circuit_wavefunction.py
+++ b/slowquant/qiskit_interface/sa_circuit_wavefunction.py
@@ -632,6 +632,11 @@ class WaveFunctionSACircuit:
             tol: Convergence tolerance.
             maxiter: Maximum number of iterations.
         """
+        if orbital_optimization and len(self.kappa) == 0:
+            print(
+                "WARNING: No orbital optimization performed, because there is no non-redundant orbital parameters"
+            )
+            orbital_optimization = False
         if isinstance(self.QI.ansatz, QuantumCircuit) and optimizer_name.lower() not in ("cobyla", "cobyqa"):
             raise ValueError("Custom Ansatz in QI only works with COBYLA and COBYQA as optimizer.")
         print("### Parameters information:")
diff --git a/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py b/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
index 5974ddc..db112d4 100644
--- a/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
@@ -655,6 +655,11 @@ class WaveFunctionSAUPS:
             tol: Convergence tolerance.
             maxiter: Maximum number of iterations.
         """
+        if orbital_optimization and len(self.kappa) == 0:
+            print(
+                "WARNING: No orbital optimization performed, because there is no non-redundant orbital parameters"
+            )
+            orbital_optimization = False
         print("### Parameters information:")
         if orbital_optimization:
             print(f"### Number kappa: {len(self.kappa)}")
diff --git a/slowquant/unitary_coupled_cluster/ucc_wavefunction.py b/slowquant/unitary_coupled_cluster/ucc_wavefunction.py
index bcca322..a51b13f 100644
--- a/slowquant/unitary_coupled_cluster/ucc_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/ucc_wavefunction.py
@@ -871,6 +871,11 @@ class WaveFunctionUCC:
             tol: Convergence tolerance.
             maxiter: Maximum number of iterations.
         """
+        if orbital_optimization and len(self.kappa) == 0:
+            print(
+                "WARNING: No orbital optimization performed, because there is no non-redundant orbital parameters"
+            )
+            orbital_optimization = False
         # Init parameters
         num_kappa = 0
         if orbital_optimization:
diff --git a/slowquant/unitary_coupled_cluster/ups_wavefunction.py b/slowquant/unitary_coupled_cluster/ups_wavefunction.py
index 95d0761..405f63e 100644
--- a/slowquant/unitary_coupled_cluster/ups_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/ups_wavefunction.py
@@ -936,6 +936,11 @@ class WaveFunctionUPS:
             tol: Convergence tolerance.
             maxiter: Maximum number of iterations.
         """
+        if orbital_optimization and len(self.kappa) == 0:
+            print(
+                "WARNING: No orbital optimization performed, because there is no non-redundant orbital parameters"
+            )
+            orbital_optimization = False
         print("### Parameters information:")
         if orbital_optimization:
             print(f"### Number kappa: {len(self.kappa)}")
-- 
2.43.0


From 63bdb2e85b3c09ecf3070f54574235a6f0f5bbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:13 +0000
Subject: [PATCH 13/36] fix: converge the Boys function for high angular
 momentum and large arguments

---
 slowquant/molecularintegrals/integralfunctions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/slowquant/molecularintegrals/integralfunctions.py b/slowquant/molecularintegrals/integralfunctions.py
index 074f09d..e8fca74 100644
--- a/slowquant/molecularintegrals/integralfunctions.py
+++ b/slowquant/molecularintegrals/integralfunctions.py
@@ -79,19 +79,22 @@ def boys_function(n: int, z: float) -> float:
     elif n == 0:
         F = (np.pi / (4.0 * z)) ** 0.5 * math.erf(z**0.5)
     elif z > 25:
-        # Long range approximation
-        F = factorial2(2 * n - 1) / (2.0 ** (n + 1.0)) * (np.pi / (z ** (2.0 * n + 1.0))) ** 0.5
+        # Upward recursion from n=0, which is stable for large z
+        F = (np.pi / (4.0 * z)) ** 0.5 * math.erf(z**0.5)
+        for i in range(0, n):
+            F = ((2.0 * i + 1.0) * F - np.exp(-z)) / (2.0 * z)
     elif z < 10**-10:
         # special case of z = 0
         F = 1.0 / (2.0 * n + 1.0)
     else:
         F = 0.0
-        threshold = 10**-12
+        threshold = 10**-16
         for i in range(0, 1000):
             Fcheck = F
             F += (2.0 * z) ** i / (factorial2(2 * n + 2 * i + 1))
             Fcheck -= F
-            if abs(Fcheck) < threshold:
+            # All terms are positive, and the first terms are tiny for large n
+            if abs(Fcheck) < threshold * F:
                 break
         F *= np.exp(-z) * factorial2(2 * n - 1)
     return F
-- 
2.43.0


From 9a6440cc5f358f5714b7e0849afd045369a76874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:18 +0000
Subject: [PATCH 14/36] fix: do not drop g functions when reading basis sets

---
 slowquant/molecule/basis_reader.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/slowquant/molecule/basis_reader.py b/slowquant/molecule/basis_reader.py
index 370f059..8ede91c 100644
--- a/slowquant/molecule/basis_reader.py
+++ b/slowquant/molecule/basis_reader.py
@@ -36,7 +36,7 @@ def read_basis(atom_name: str, basis_set: str) -> tuple[np.ndarray, np.ndarray,
             if line[0] != " ":
                 # Found new atom in file.
                 break
-            if "s" in line or "p" in line or "d" in line or "f" in line:
+            if line.split()[1].isalpha():
                 angular = line.split()[1]
                 number_primitives = int(line.split()[0])
                 exponents_primitive: list[float] = []
@@ -66,6 +66,24 @@ def read_basis(atom_name: str, basis_set: str) -> tuple[np.ndarray, np.ndarray,
                         [0, 1, 2],
                         [0, 0, 3],
                     ]
+                elif angular == "g":
+                    angulars = [
+                        [4, 0, 0],
+                        [3, 1, 0],
+                        [3, 0, 1],
+                        [2, 2, 0],
+                        [2, 1, 1],
+                        [2, 0, 2],
+                        [1, 3, 0],
+                        [1, 2, 1],
+                        [1, 1, 2],
+                        [1, 0, 3],
+                        [0, 4, 0],
+                        [0, 3, 1],
+                        [0, 2, 2],
+                        [0, 1, 3],
+                        [0, 0, 4],
+                    ]
                 else:
                     raise ValueError(f"None implemented angular moment: {angular}")
                 exponents.append(np.array(exponents_primitive))
-- 
2.43.0


From ca5f1365694d2404dcc109de52c58187efb896c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:18 +0000
Subject: [PATCH 15/36] fix: allow blank lines at the end of coordinate files

---
 slowquant/molecule/moleculeclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slowquant/molecule/moleculeclass.py b/slowquant/molecule/moleculeclass.py
index 2bb3d51..3093d9d 100644
--- a/slowquant/molecule/moleculeclass.py
+++ b/slowquant/molecule/moleculeclass.py
@@ -36,7 +36,7 @@ class _Molecule:
             with open(molecule_file, "r", encoding="UTF-8") as file:
                 self.atoms = []
                 for i, line in enumerate(file):
-                    if i < 2:
+                    if i < 2 or len(line.strip()) == 0:
                         continue
                     self.atoms.append(
                         Atom(
-- 
2.43.0


From f93112bce043cf9453b545f3d71268b6a5530dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:33 +0000
Subject: [PATCH 16/36] fix: do not extrapolate in a basis of a single function

---
 slowquant/hartreefock/diis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slowquant/hartreefock/diis.py b/slowquant/hartreefock/diis.py
index ef41dad..53922fa 100644
--- a/slowquant/hartreefock/diis.py
+++ b/slowquant/hartreefock/diis.py
@@ -29,7 +29,7 @@ class DIIS:
         Returns:
             Extrapolated Fock matrix.
         """
-        if len(fock_matrix) == 2:
+        if len(fock_matrix) <= 2:
             return fock_matrix
         self.fock_matrices.append(fock_matrix)
         self.density_matrices.append(density_matrix)
-- 
2.43.0


From 121897091df34545d859de767d2e9edf9b6a4202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:33 +0000
Subject: [PATCH 17/36] fix: unrestricted Hartree-Fock without unoccupied
 orbitals

---
 slowquant/hartreefock/unrestricted_hartreefock_in_memory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slowquant/hartreefock/unrestricted_hartreefock_in_memory.py b/slowquant/hartreefock/unrestricted_hartreefock_in_memory.py
index 7d8225b..24ec97c 100644
--- a/slowquant/hartreefock/unrestricted_hartreefock_in_memory.py
+++ b/slowquant/hartreefock/unrestricted_hartreefock_in_memory.py
@@ -38,8 +38,8 @@ def run_unrestricted_hartree_fock(
 
     C0_alpha = np.transpose(np.dot(S_sqrt, C0prime))
     C0_beta = np.transpose(np.dot(S_sqrt, C0prime))
-    # Break spatial symmetry if system is closed shell
-    if number_electrons_alpha == number_electrons_beta:
+    # Break spatial symmetry if system is closed shell, and there is a HOMO and a LUMO
+    if number_electrons_alpha == number_electrons_beta and 0 < number_electrons_alpha < len(S):
         C_HOMO = C0_alpha[number_electrons_alpha - 1]
         C_LUMO = C0_alpha[number_electrons_alpha]
         C0_alpha[number_electrons_alpha - 1] = (
-- 
2.43.0


From 86f41ca11c286a9e14bb025dac1a6952d4687733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:33 +0000
Subject: [PATCH 18/36] fix: store what is added to the log

---
 slowquant/logger.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/slowquant/logger.py b/slowquant/logger.py
index 0a8eddb..e74a37b 100644
--- a/slowquant/logger.py
+++ b/slowquant/logger.py
@@ -17,8 +17,6 @@ class _Logger:
             content = f"WARNING: {content}"
         if self.print_output:
             print(content, end="")
-            self.log.join(content)
         elif is_warning and self.print_warnings:
             print(content, end="")
-            self.log.join(content)
-        self.log.join(content)
+        self.log += content
-- 
2.43.0


From aa05eefcdd63735faa097224227d193ffa2a24b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:05 +0000
Subject: [PATCH 19/36] fix: well-defined extrapolation coefficients for
 linearly dependent error vectors

---
 slowquant/hartreefock/diis.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/slowquant/hartreefock/diis.py b/slowquant/hartreefock/diis.py
index 53922fa..d5aec1a 100644
--- a/slowquant/hartreefock/diis.py
+++ b/slowquant/hartreefock/diis.py
@@ -47,20 +47,26 @@ class DIIS:
         for i, (F, D) in enumerate(zip(self.fock_matrices, self.density_matrices)):
             error_matrices[i, :, :] = np.dot(np.dot(F, D), S) - np.dot(np.dot(S, D), F)
 
-        # Build B matrix, and b0 vector
-        B = np.zeros((len(self.fock_matrices) + 1, len(self.fock_matrices) + 1))
-        B[-1, :] = B[:, -1] = -1
-        B[-1, -1] = 0
-        b0 = np.zeros(len(self.fock_matrices) + 1)
-        b0[-1] = -1
+        # Already self-consistent
+        error_norms = np.linalg.norm(error_matrices, axis=(1, 2))
+        if np.min(error_norms) < 10**-12:
+            return fock_matrix
+
+        # Build overlap matrix of the normalized errors
+        B = np.zeros((len(self.fock_matrices), len(self.fock_matrices)))
         for i, error_matrix_i in enumerate(error_matrices):
             for j, error_matrix_j in enumerate(error_matrices):
-                B[i, j] = np.trace(np.dot(error_matrix_i, error_matrix_j))
+                B[i, j] = np.sum(error_matrix_i * error_matrix_j) / (error_norms[i] * error_norms[j])
+        # The coefficients are ill-defined for linearly dependent errors, use only the newest errors
+        start = 0
+        while np.linalg.cond(B[start:, start:]) > 10**8:
+            start += 1
 
-        # Solve B, b0 linear equation, and construct Fprime
-        coefficients = np.linalg.solve(B, b0)
+        # Minimize the norm of the extrapolated error with coefficients adding up to one, and construct Fprime
+        coefficients = np.linalg.solve(B[start:, start:], 1 / error_norms[start:]) / error_norms[start:]
+        coefficients /= np.sum(coefficients)
         F_extrapolated = np.zeros((self.num_bf, self.num_bf))
-        for c, F in zip(coefficients[:-1], self.fock_matrices):
+        for c, F in zip(coefficients, self.fock_matrices[start:]):
             F_extrapolated += c * F
 
         return F_extrapolated
-- 
2.43.0


From 2f785667253725067c79346de81024686a70b8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:13 +0000
Subject: [PATCH 20/36] fix: in-place subtraction of an operator from itself

---
 slowquant/unitary_coupled_cluster/fermionic_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slowquant/unitary_coupled_cluster/fermionic_operator.py b/slowquant/unitary_coupled_cluster/fermionic_operator.py
index fd9c5e4..35407c5 100644
--- a/slowquant/unitary_coupled_cluster/fermionic_operator.py
+++ b/slowquant/unitary_coupled_cluster/fermionic_operator.py
@@ -192,7 +192,7 @@ class FermionicOperator:
             Update fermionic operator.
         """
         # Combine annihilation string entries of two FermionicOperators with relevant sign flip.
-        for op_key in fermistring.operators.keys():
+        for op_key in list(fermistring.operators.keys()):
             if op_key in self.operators.keys():
                 self.operators[op_key] -= fermistring.operators[op_key]
                 if abs(self.operators[op_key]) < 10**-14:
-- 
2.43.0


From 3221a520137d83f72c65094c8270a8932e307a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:03 +0000
Subject: [PATCH 21/36] fix: in-place addition of an operator with vanishing
 terms to itself

---
 slowquant/unitary_coupled_cluster/fermionic_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slowquant/unitary_coupled_cluster/fermionic_operator.py b/slowquant/unitary_coupled_cluster/fermionic_operator.py
index 35407c5..ccbe5ad 100644
--- a/slowquant/unitary_coupled_cluster/fermionic_operator.py
+++ b/slowquant/unitary_coupled_cluster/fermionic_operator.py
@@ -153,7 +153,7 @@ class FermionicOperator:
         Returns:
             Updated fermionic operator.
         """
-        for op_key in fermistring.operators.keys():
+        for op_key in list(fermistring.operators.keys()):
             if op_key in self.operators.keys():
                 self.operators[op_key] += fermistring.operators[op_key]
                 if abs(self.operators[op_key]) < 10**-14:
-- 
2.43.0


From e4cd0f18d1c93c4a864b9ed1a0e426a569b24fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:45 +0000
Subject: [PATCH 22/36] fix: transpilation with optimization_level=0

---
 slowquant/qiskit_interface/interface.py |  9 +++++----
 slowquant/qiskit_interface/util.py      | 23 +++++++++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/slowquant/qiskit_interface/interface.py b/slowquant/qiskit_interface/interface.py
index 0217540..7857e5e 100644
--- a/slowquant/qiskit_interface/interface.py
+++ b/slowquant/qiskit_interface/interface.py
@@ -34,6 +34,7 @@ from slowquant.qiskit_interface.util import (
     layout_conserving_compose,
     pauliop_to_dict,
     postselection,
+    run_optimization,
     to_CBS_measurement,
 )
 from slowquant.unitary_coupled_cluster.fermionic_operator import FermionicOperator
@@ -535,8 +536,8 @@ class QuantumInterface:
 
         # Transpile X and Y measurement gates: only translation to basis gates and optimization.
         self._transp_xy = [
-            self._pass_manager.optimization.run(self._pass_manager.translation.run(to_CBS_measurement("X"))),
-            self._pass_manager.optimization.run(self._pass_manager.translation.run(to_CBS_measurement("Y"))),
+            run_optimization(self._pass_manager, self._pass_manager.translation.run(to_CBS_measurement("X"))),
+            run_optimization(self._pass_manager, self._pass_manager.translation.run(to_CBS_measurement("Y"))),
         ]
 
         return circuit_return
@@ -888,8 +889,8 @@ class QuantumInterface:
                             del state_corr.data[idx]
                     if self.ISA:
                         # Translate and optimize
-                        state_corr = self._pass_manager.optimization.run(
-                            self._pass_manager.translation.run(state_corr)
+                        state_corr = run_optimization(
+                            self._pass_manager, self._pass_manager.translation.run(state_corr)
                         )  # type: ignore
                     # Negate
                     if circuit.layout is not None:
diff --git a/slowquant/qiskit_interface/util.py b/slowquant/qiskit_interface/util.py
index 390fe4b..c55d7cf 100644
--- a/slowquant/qiskit_interface/util.py
+++ b/slowquant/qiskit_interface/util.py
@@ -783,6 +783,21 @@ def add_permutation_gate(circuit: QuantumCircuit, permutation: list[int], coupli
                     )
 
 
+def run_optimization(pm: PassManager, circuit: QuantumCircuit) -> QuantumCircuit:
+    """Run the optimization stage of a pass manager.
+
+    Args:
+        pm: Staged pass manager.
+        circuit: Circuit to be optimized.
+
+    Returns:
+        Optimized circuit. The circuit itself, if there is no optimization stage (optimization_level=0).
+    """
+    if pm.optimization is None:
+        return circuit
+    return pm.optimization.run(circuit)
+
+
 def layout_conserving_compose(
     ansatz: QuantumCircuit,
     state: QuantumCircuit,
@@ -830,7 +845,7 @@ def layout_conserving_compose(
                 state_tmp.num_nonlocal_gates() - nlg_state,
                 " non-local gates (without swap optimization)",
             )
-            state_tmp = pm.optimization.run(state_tmp)
+            state_tmp = run_optimization(pm, state_tmp)
             print(
                 "Layout correction added ",
                 state_tmp.num_nonlocal_gates() - nlg_state,
@@ -841,7 +856,7 @@ def layout_conserving_compose(
 
         if optimization:
             nlg_composed = composed.num_nonlocal_gates()
-            composed = pm.optimization.run(composed)
+            composed = run_optimization(pm, composed)
             composed._layout = ansatz.layout
             print(
                 "Composed circuit optimization eliminated ",
@@ -855,7 +870,7 @@ def layout_conserving_compose(
         composed = ansatz.compose(state_tmp, front=True)
         if optimization:
             nlg_composed = composed.num_nonlocal_gates()
-            composed = pm.optimization.run(composed)
+            composed = run_optimization(pm, composed)
             print(
                 "Optimization eliminated ",
                 nlg_composed - composed.num_nonlocal_gates(),
@@ -869,7 +884,7 @@ def layout_conserving_compose(
             if instruction.is_controlled_gate():
                 del state_corr.data[idx]
         # Translate and optimize
-        state_corr = pm.optimization.run(pm.translation.run(state_corr))
+        state_corr = run_optimization(pm, pm.translation.run(state_corr))
         # Negate
         if ansatz.layout is not None:
             composed_M = composed.compose(
-- 
2.43.0


From 0e96e5289e2112e21579db184682e5efa95b61d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:45 +0000
Subject: [PATCH 23/36] fix: switching ISA off restores the untranspiled
 circuit

---
 slowquant/qiskit_interface/interface.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/slowquant/qiskit_interface/interface.py b/slowquant/qiskit_interface/interface.py
index 7857e5e..133a99c 100644
--- a/slowquant/qiskit_interface/interface.py
+++ b/slowquant/qiskit_interface/interface.py
@@ -350,6 +350,17 @@ class QuantumInterface:
             # In case of switching to ISA in later workflow
             if hasattr(self, "circuit"):
                 self.update_pass_manager(self.pass_manager_options)
+        elif self._transpiled:
+            # Switching ISA off in later workflow. The circuit must not stay in the device layout.
+            self._transpiled = False
+            self.construct_circuit(
+                self.occ_idx,
+                self.unocc_idx,
+                self.occ_spin_idx,
+                self.unocc_spin_idx,
+                self.num_orbs,
+                self.num_elec,
+            )
 
     def update_pass_manager(self, pass_manager_options: dict[str, Any] | None = None) -> None:
         """Pass new pass manager options and set pass manager.
-- 
2.43.0


From 093920816c9e21f859b30b413d48836be308f414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:31 +0000
Subject: [PATCH 24/36] fix: initial layout of circuits on devices with spare
 qubits

---
 slowquant/qiskit_interface/interface.py | 8 ++++----
 slowquant/qiskit_interface/util.py      | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/slowquant/qiskit_interface/interface.py b/slowquant/qiskit_interface/interface.py
index 133a99c..604316e 100644
--- a/slowquant/qiskit_interface/interface.py
+++ b/slowquant/qiskit_interface/interface.py
@@ -518,9 +518,9 @@ class QuantumInterface:
 
         else:
             self._final_ansatz_indices = circuit_return.layout.final_index_layout()  # with swaps from routing
-            self._initial_ansatz_indices = circuit_return.layout.initial_index_layout(
-                filter_ancillas=True
-            )  # no swaps from routing
+            self._initial_ansatz_indices = circuit_return.layout.initial_index_layout()[
+                : circuit.num_qubits
+            ]  # no swaps from routing, without the ancillas
 
             # Create a pass manager that maps on the Ansatz Circuit qubits in the final layout (with swaps)
             self._finalfixedlayout_pm = generate_preset_pass_manager(
@@ -908,7 +908,7 @@ class QuantumInterface:
                         circuit_M = circuit.compose(
                             state_corr,
                             front=True,
-                            qubits=circuit.layout.initial_index_layout(filter_ancillas=True),
+                            qubits=circuit.layout.initial_index_layout()[: state.num_qubits],
                         )
                     else:
                         circuit_M = circuit.compose(state_corr, front=True)
diff --git a/slowquant/qiskit_interface/util.py b/slowquant/qiskit_interface/util.py
index c55d7cf..0fcf378 100644
--- a/slowquant/qiskit_interface/util.py
+++ b/slowquant/qiskit_interface/util.py
@@ -829,7 +829,7 @@ def layout_conserving_compose(
         print("Transpiled superposition state contains ", nlg_state, "non-local gates")
 
         if (
-            state_tmp.layout.initial_index_layout(filter_ancillas=True)
+            state_tmp.layout.initial_index_layout()[: state.num_qubits]
             != state_tmp.layout.final_index_layout()
         ):
             # Qiskit wants to change the layout? Not with me. Change it back!
@@ -888,7 +888,7 @@ def layout_conserving_compose(
         # Negate
         if ansatz.layout is not None:
             composed_M = composed.compose(
-                state_corr, front=True, qubits=composed.layout.initial_index_layout(filter_ancillas=True)
+                state_corr, front=True, qubits=composed.layout.initial_index_layout()[: state.num_qubits]
             )
         else:
             composed_M = composed.compose(state_corr, front=True)
-- 
2.43.0


From dfa835c630cbfdc3b5949abe48bf1a62e65bae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:52 +0000
Subject: [PATCH 25/36] fix: changing the list returned by the parameter getter
 left stale stored measurements

---
 slowquant/qiskit_interface/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slowquant/qiskit_interface/interface.py b/slowquant/qiskit_interface/interface.py
index 604316e..64705a7 100644
--- a/slowquant/qiskit_interface/interface.py
+++ b/slowquant/qiskit_interface/interface.py
@@ -437,7 +437,7 @@ class QuantumInterface:
         Returns:
             Ansatz parameters.
         """
-        return self._parameters
+        return self._parameters.copy()
 
     @parameters.setter
     def parameters(
-- 
2.43.0


From 0bd35086d727126649a04e9326962b0b54a0a4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:52 +0000
Subject: [PATCH 26/36] fix: stored measurements and read-out matrix survived a
 change of the circuit or its layout

---
 slowquant/qiskit_interface/interface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/slowquant/qiskit_interface/interface.py b/slowquant/qiskit_interface/interface.py
index 64705a7..2a19551 100644
--- a/slowquant/qiskit_interface/interface.py
+++ b/slowquant/qiskit_interface/interface.py
@@ -478,6 +478,9 @@ class QuantumInterface:
         Args:
             ansatz_circuit: Ansatz circuit
         """
+        # Results measured with the previous circuit (or its layout) are not valid for the new one.
+        self._reset_cliques(verbose=False)
+        self._reset_M(verbose=False)
         # Check if ISA is selected. If yes, pre-transpile circuit for later use.
         if self.ISA:
             self._ansatz_circuit_raw = ansatz_circuit  # needed for csfs functionality
-- 
2.43.0


From 0cb2dcb1dd704bfbf87a2d5410728e2e01bce36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:52 +0000
Subject: [PATCH 27/36] fix: read-out matrix measured without the ansatz was
 used for M_ansatz0 and vice versa

---
 slowquant/qiskit_interface/interface.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slowquant/qiskit_interface/interface.py b/slowquant/qiskit_interface/interface.py
index 2a19551..1c35c53 100644
--- a/slowquant/qiskit_interface/interface.py
+++ b/slowquant/qiskit_interface/interface.py
@@ -290,7 +290,11 @@ class QuantumInterface:
         Args:
             **kwargs: Keyword arguments to update mitigation flags.
         """
+        do_M_ansatz0_old = self.mitigation_flags.do_M_ansatz0
         self.mitigation_flags.update_flags(**kwargs)
+        if self.mitigation_flags.do_M_ansatz0 != do_M_ansatz0_old:
+            # The read-out matrix has been measured with the other choice of Ansatz.
+            self._reset_M(verbose=False)
 
     @property
     def ISA(self) -> bool:
-- 
2.43.0


From a2d7c1ba92ae5e6f8e3c85a90cc022d06c0a7bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:52 +0000
Subject: [PATCH 28/36] fix: redo_M_mitigation had no effect on results already
 stored

---
 slowquant/qiskit_interface/interface.py | 3 +++
 slowquant/qiskit_interface/util.py      | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/slowquant/qiskit_interface/interface.py b/slowquant/qiskit_interface/interface.py
index 1c35c53..4ab07c5 100644
--- a/slowquant/qiskit_interface/interface.py
+++ b/slowquant/qiskit_interface/interface.py
@@ -433,6 +433,9 @@ class QuantumInterface:
             shots: Overwrites QI internal shot number if int is defined.
         """
         self._Minv = self._make_Minv(shots=shots)
+        # Saved mitigated results stem from the previous M. The raw results are kept.
+        for clique in self.saver.values():
+            clique.reset_mitigated()
 
     @property
     def parameters(self) -> list[float]:
diff --git a/slowquant/qiskit_interface/util.py b/slowquant/qiskit_interface/util.py
index 0fcf378..b38336a 100644
--- a/slowquant/qiskit_interface/util.py
+++ b/slowquant/qiskit_interface/util.py
@@ -547,6 +547,11 @@ class Clique:
         for clique_head in self.cliques:
             print(f"Head: {clique_head.head}, Distribution: {clique_head.distr.data}")
 
+    def reset_mitigated(self) -> None:
+        """Remove all mitigated distributions, only keeping the raw ones."""
+        for clique_head in self.cliques:
+            clique_head.distr.data = {0: clique_head.distr.data[0]}
+
     def get_clique_heads(self) -> list[str]:
         """Return all clique heads.
 
-- 
2.43.0


From 51afa4858e0d5d5cb5b85fe7160336d5531813ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:30 +0000
Subject: [PATCH 29/36] fix: post-selection with the untapered parity mapper
 kept states with wrong particle numbers

---
 slowquant/qiskit_interface/util.py | 44 +++++++++---------------------
 1 file changed, 13 insertions(+), 31 deletions(-)

diff --git a/slowquant/qiskit_interface/util.py b/slowquant/qiskit_interface/util.py
index b38336a..001af39 100644
--- a/slowquant/qiskit_interface/util.py
+++ b/slowquant/qiskit_interface/util.py
@@ -922,13 +922,8 @@ def postselection(
         \text{sum}\left(\left|\beta\right>\right) = N_\beta
 
     For the Parity mapper it is counted how many times bitstring changes between 0 and 1.
-    For the bitstring :math:`\left|01\right>` the counting is done by padding the string before counting.
-    I.e.
-
-    .. math::
-        \left|01\right> \rightarrow 0\left|01\right>p
-
-    Where :math:`p` is zero for even number of electrons and one for odd number of electrons.
+    The counting is done after padding the string with zero, and if the total parities have been tapered off
+    also with the parities of the number of electrons.
     This counting is done independently for the :math:`\alpha` part and :math:`\beta` part.
 
     Args:
@@ -958,30 +953,17 @@ def postselection(
             num_a = len(bitstr) // 2
             bitstr_a = bitstr[num_a:]
             bitstr_b = bitstr[:num_a]
-            current_parity = "0"
-            change_counter = 0
-            for bit in bitstr_b:
-                if bit != current_parity:
-                    current_parity = bit
-                    change_counter += 1
-            if current_parity == "1" and num_elec[1] % 2 == 0:
-                change_counter += 1
-                current_parity = "0"
-            elif current_parity == "0" and num_elec[1] % 2 == 1:
-                change_counter += 1
-                current_parity = "1"
-            if change_counter != num_elec[0]:
-                continue
-            change_counter = 0
-            for bit in bitstr_a:
-                if bit != current_parity:
-                    current_parity = bit
-                    change_counter += 1
-            if current_parity == "1" and (num_elec[0] + num_elec[1]) % 2 == 0:
-                change_counter += 1
-            elif current_parity == "0" and (num_elec[0] + num_elec[1]) % 2 == 1:
-                change_counter += 1
-            if change_counter != num_elec[1]:
+            # Order of increasing qubit index.
+            parities_a = bitstr_a[::-1]
+            parities_b = bitstr_b[::-1]
+            if mapper.num_particles is not None:
+                # The total parities are tapered off and have to be padded.
+                parities_a += str(num_elec[0] % 2)
+                parities_b += str((num_elec[0] + num_elec[1]) % 2)
+            # Every change of parity is an electron. The beta part continues from the parity of the alpha part.
+            elec_a = sum(p != q for p, q in zip("0" + parities_a, parities_a))
+            elec_b = sum(p != q for p, q in zip(parities_a[-1] + parities_b, parities_b))
+            if elec_a != num_elec[0] or elec_b != num_elec[1]:
                 continue
             new_dist[int(bitstr, 2)] = val
             prob_sum += val
-- 
2.43.0


From e0c0f4738906b1bf71ac8a64a05fdd9e240f1805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:12 +0000
Subject: [PATCH 30/36] fix: read-out correction dropped the weight of
 unobserved bitstrings

---
 slowquant/qiskit_interface/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slowquant/qiskit_interface/util.py b/slowquant/qiskit_interface/util.py
index 001af39..a246f27 100644
--- a/slowquant/qiskit_interface/util.py
+++ b/slowquant/qiskit_interface/util.py
@@ -614,8 +614,8 @@ def correct_distribution(dist: dict[int, float], M: np.ndarray) -> dict[int, flo
     # Apply M error mitigation matrix
     C_new = M @ C
     # Convert columnvector of probabilities to bitstring distribution
-    for bitint, prob in dist.items():
-        dist[bitint] = C_new[bitint]
+    for bitint, prob in enumerate(C_new):
+        dist[bitint] = prob
     return dist
 
 
-- 
2.43.0


From 34ed4652662b07e53c8d080e828ede02416a5bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:12 +0000
Subject: [PATCH 31/36] fix: shots of a read-out matrix measured with its own
 shot number were not counted

---
 slowquant/qiskit_interface/interface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slowquant/qiskit_interface/interface.py b/slowquant/qiskit_interface/interface.py
index 4ab07c5..0ccf8d0 100644
--- a/slowquant/qiskit_interface/interface.py
+++ b/slowquant/qiskit_interface/interface.py
@@ -1449,8 +1449,8 @@ class QuantumInterface:
             # Run sampler
             job = self._primitive.run(circuits, parameter_values=parameter_values, shots=shots)
 
-        if self.shots is not None:  # check if ideal simulator
-            self.total_shots_used += self.shots * num_paulis * num_circuits
+        if shots is not None:  # check if ideal simulator
+            self.total_shots_used += shots * self._circuit_multipl * num_paulis * num_circuits
         self.total_device_calls += 1
         self.total_paulis_evaluated += num_paulis * num_circuits
 
-- 
2.43.0


From c6bb5ab1e7f2154edfcee0ead1ed40d6aa5e64ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:12 +0000
Subject: [PATCH 32/36] fix: no_coeffs was ignored in the variance of grouped
 Pauli strings

---
 slowquant/qiskit_interface/interface.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/slowquant/qiskit_interface/interface.py b/slowquant/qiskit_interface/interface.py
index 0ccf8d0..59d8e3f 100644
--- a/slowquant/qiskit_interface/interface.py
+++ b/slowquant/qiskit_interface/interface.py
@@ -1264,9 +1264,8 @@ class QuantumInterface:
                     # loop over paulis in group (second sum over l): group random variable
                     group_var = 0.0
                     for pauli in group_paulis:
-                        group_var += coeff_dict[pauli] * get_bitstring_sign(
-                            pauli, key
-                        )  # \sum_l c_l <b|P_l|b>
+                        coeff = 1 if no_coeffs else coeff_dict[pauli]
+                        group_var += coeff * get_bitstring_sign(pauli, key)  # \sum_l c_l <b|P_l|b>
 
                     sample_mean += value * group_var  # \sum_b p(b) \sum_l c_l <b|P_l|b>
                     sample_mean_sq += value * group_var**2  # \sum_b p(b) (\sum_l c_l <b|P_l|b>)^2
-- 
2.43.0


From 445afe50059e49cc0b413ecad3f56ae46a2377d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:29 +0000
Subject: [PATCH 33/36] fix: quantum LR without orbital rotations mislabelled
 the active-space part of the response vectors

---
 .../linear_response/lr_baseclass.py           | 32 +++++++++++--------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/slowquant/qiskit_interface/linear_response/lr_baseclass.py b/slowquant/qiskit_interface/linear_response/lr_baseclass.py
index db31a60..180e0ed 100644
--- a/slowquant/qiskit_interface/linear_response/lr_baseclass.py
+++ b/slowquant/qiskit_interface/linear_response/lr_baseclass.py
@@ -338,11 +338,13 @@ class quantumLRBaseClass:
 
     def get_normed_excitation_vectors(self) -> None:
         """Get normed excitation vectors via excited state norm."""
+        # Zero if the orbital rotations were skipped.
+        num_q = len(self.A) - self.num_G
         self.normed_excitation_vectors = np.zeros_like(self.excitation_vectors)
-        self._Z_q = self.excitation_vectors[: self.num_q, :]
-        self._Z_G = self.excitation_vectors[self.num_q : self.num_q + self.num_G, :]
-        self._Y_q = self.excitation_vectors[self.num_q + self.num_G : 2 * self.num_q + self.num_G]
-        self._Y_G = self.excitation_vectors[2 * self.num_q + self.num_G :]
+        self._Z_q = self.excitation_vectors[:num_q, :]
+        self._Z_G = self.excitation_vectors[num_q : num_q + self.num_G, :]
+        self._Y_q = self.excitation_vectors[num_q + self.num_G : 2 * num_q + self.num_G]
+        self._Y_G = self.excitation_vectors[2 * num_q + self.num_G :]
         self._Z_q_normed = np.zeros_like(self._Z_q)
         self._Z_G_normed = np.zeros_like(self._Z_G)
         self._Y_q_normed = np.zeros_like(self._Y_q)
@@ -367,6 +369,7 @@ class quantumLRBaseClass:
         Returns:
             Norm of excited states.
         """
+        num_q = len(self.A) - self.num_G
         norms = np.zeros(len(self._Z_G[0]))
         for state_number in range(len(self._Z_G[0])):
             # Get Z_q Z_G Y_q and Y_G matrices
@@ -375,8 +378,8 @@ class quantumLRBaseClass:
             ZZG = np.outer(self._Z_G[:, state_number], self._Z_G[:, state_number].transpose())
             YYG = np.outer(self._Y_G[:, state_number], self._Y_G[:, state_number].transpose())
 
-            norms[state_number] = np.sum(self.metric[: self.num_q, : self.num_q] * (ZZq - YYq)) + np.sum(
-                self.metric[self.num_q : self.num_q + self.num_G, self.num_q : self.num_q + self.num_G]
+            norms[state_number] = np.sum(self.metric[:num_q, :num_q] * (ZZq - YYq)) + np.sum(
+                self.metric[num_q : num_q + self.num_G, num_q : num_q + self.num_G]
                 * (ZZG - YYG)
             )
 
@@ -446,10 +449,13 @@ class quantumLRBaseClass:
         if not hasattr(self, "excitation_vectors"):
             raise ValueError("Excitation vectors have not been calculated.")
 
+        # Zero if the orbital rotations were skipped.
+        num_q = len(self.A) - self.num_G
+        num_params = len(self.A)
         do_osc = hasattr(self, "oscillator_strengths")
 
         if num_contr is None:
-            num_contr = self.num_params * 2
+            num_contr = num_params * 2
 
         print(f"{'Value'.center(12)} | {'Position'.center(12)} | {'Operator'.center(12)}\n")
 
@@ -467,15 +473,15 @@ class quantumLRBaseClass:
                 if sorted_vec[i] < cutoff:
                     continue
                 element = f"{sorted_vec[i]:.3f}"
-                if sorted_indices[i] < self.num_params:
-                    if sorted_indices[i] < self.num_q:
+                if sorted_indices[i] < num_params:
+                    if sorted_indices[i] < num_q:
                         operator_index = "q" + str(sorted_indices[i])
                     else:
-                        operator_index = "G" + str(sorted_indices[i] - self.num_q)
-                elif sorted_indices[i] - self.num_params < self.num_q:
-                    operator_index = "q" + str(sorted_indices[i] - self.num_params) + "^d"
+                        operator_index = "G" + str(sorted_indices[i] - num_q)
+                elif sorted_indices[i] - num_params < num_q:
+                    operator_index = "q" + str(sorted_indices[i] - num_params) + "^d"
                 else:
-                    operator_index = "G" + str(sorted_indices[i] - self.num_params - self.num_q) + "^d"
+                    operator_index = "G" + str(sorted_indices[i] - num_params - num_q) + "^d"
 
                 print(
                     f"{element.center(12)} | {str(sorted_indices[i]).center(12)} | {operator_index.center(12)}"
-- 
2.43.0


From 535f6dddacf1ef79789290056214b4a0dabee307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:55 +0000
Subject: [PATCH 34/36] fix: keep the state-averaged energy cached after an
 optimization

---
 slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py b/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
index db112d4..98d86ab 100644
--- a/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
@@ -639,6 +639,7 @@ class WaveFunctionSAUPS:
             e_old = e_new
         # Subspace diagonalization
         self._do_state_ci()
+        self._sa_energy = self.sa_energy
 
     def run_wf_optimization_1step(
         self,
@@ -745,6 +746,7 @@ class WaveFunctionSAUPS:
             self.thetas = res.x.tolist()
         # Subspace diagonalization
         self._do_state_ci()
+        self._sa_energy = self.sa_energy
 
     def _do_state_ci(self) -> None:
         r"""Do subspace diagonalisation.
-- 
2.43.0


From 44e4f4c943c29837e72d3e973efafcbb99a6f99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:11 +0000
Subject: [PATCH 35/36] fix: sign of folded operators that change the number of
 active electrons by an odd number

---
 slowquant/unitary_coupled_cluster/fermionic_operator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slowquant/unitary_coupled_cluster/fermionic_operator.py b/slowquant/unitary_coupled_cluster/fermionic_operator.py
index ccbe5ad..ee9a136 100644
--- a/slowquant/unitary_coupled_cluster/fermionic_operator.py
+++ b/slowquant/unitary_coupled_cluster/fermionic_operator.py
@@ -453,7 +453,8 @@ class FermionicOperator:
             # The inactive bra and ket side must end up giving identical state vectors.
             if bra_side != ket_side:
                 continue
-            if len(inactive_dagger) % 2 == 1 and len(active_dagger) % 2 == 1:
+            # Sign from moving the inactive creation operators past the active annihilation operators.
+            if len(inactive_dagger) % 2 == 1 and len(active) % 2 == 1:
                 fac *= -1
             # Calculate sign coming from flipping the order of the ket side.
             # It has to be "flipped" to match the order on the bra side.
-- 
2.43.0


From 1891607945d1f0fa994a903fefcc1f2fc4c305cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:51 +0000
Subject: [PATCH 36/36] fix: correct_distribution_with_layout for layouts that
 differ by more than disjoint swaps

---
 slowquant/qiskit_interface/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slowquant/qiskit_interface/util.py b/slowquant/qiskit_interface/util.py
index a246f27..6c6fa20 100644
--- a/slowquant/qiskit_interface/util.py
+++ b/slowquant/qiskit_interface/util.py
@@ -681,7 +681,8 @@ def correct_distribution_with_layout(
 
     # Create new M
     M = M_in.copy()
-    for swap in swaps:
+    # The swaps turn the new into the reference layout, hence they act in reverse order on M.
+    for swap in swaps[::-1]:
         idx = np.array(swap_indices(num_qubits, swap))
         print(idx)
         M = M[idx, :][:, idx]
-- 
2.43.0

