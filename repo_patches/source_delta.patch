From 23f6d17b753e500fb03c2dcd92c48d016a93ee47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:15 +0000
Subject: [PATCH 01/22] fix: square the lateral component in the net
 acceleration load

---
 AMAT/vehicle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 3aab595..ba94969 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2092,7 +2092,7 @@ class Vehicle:
 		acc_w = self.a_wvectorized(rc, thetac, phic, vc, delta)
 
 		acc_net = np.zeros(index)
-		acc_net[:] = np.sqrt(acc_s[:]**2.0 + acc_n[:]**2.0 + acc_w[:]*2.0)
+		acc_net[:] = np.sqrt(acc_s[:]**2.0 + acc_n[:]**2.0 + acc_w[:]**2.0)
 		acc_net_g = acc_net / self.planetObj.EARTHG
 
 		return acc_net_g
-- 
2.43.0


From 5b5ff2da5897c35166f45d0e7d56632e4994e2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:16 +0000
Subject: [PATCH 02/22] fix: computeMachScalar no longer uses the removed
 np.float alias

---
 AMAT/vehicle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index ba94969..a95d039 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2233,9 +2233,9 @@ class Vehicle:
 			Mach no.
 		
 		"""
-		stat_pres = np.float(self.planetObj.pressure_int(r - self.planetObj.RP))
-		stat_temp = np.float(self.planetObj.temp_int(r - self.planetObj.RP))
-		sonic_spd = np.float(self.planetObj.sonic_int(r - self.planetObj.RP))
+		stat_pres = float(self.planetObj.pressure_int(r - self.planetObj.RP))
+		stat_temp = float(self.planetObj.temp_int(r - self.planetObj.RP))
+		sonic_spd = float(self.planetObj.sonic_int(r - self.planetObj.RP))
 		mach = v/sonic_spd
 
 		return mach
-- 
2.43.0


From fce64bff5c9e3e7ceb5cca6aae360db31bb2a391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:16 +0000
Subject: [PATCH 03/22] fix: computeStagTemp takes the specific heat ratio from
 the planet

---
 AMAT/vehicle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index a95d039..6ab76f5 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2263,7 +2263,7 @@ class Vehicle:
 		sonic_spd = self.planetObj.sonicvectorized(rc)
 		mach[:] = vc[:]/sonic_spd[:]
 		stag_temp = np.zeros(len(rc))
-		stag_temp[:] = stat_temp[:]*(1+0.5*(self.CPCV-1)*mach[:]**2.0)
+		stag_temp[:] = stat_temp[:]*(1+0.5*(self.planetObj.CPCV-1)*mach[:]**2.0)
 
 		return stag_temp
 
-- 
2.43.0


From 9a4bc0a818714532bbf7ea814682e1aa7d9a1a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:29 +0000
Subject: [PATCH 04/22] fix: add the initial heat load to the integrated heat
 load

scipy rejects a nonzero 'initial' (and older releases only prepended it), so a
propagation that starts with an accumulated heat load failed or lost it.
---
 AMAT/vehicle.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 6ab76f5..93669ac 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2512,7 +2512,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		self.q_stag_total = self.q_stag_con + self.q_stag_rad
 		# compute stagnation point heating load
-		self.heatload = cumulative_trapezoid(self.q_stag_total, self.tc, initial=0)
+		self.heatload = self.heatLoad0 + cumulative_trapezoid(self.q_stag_total, self.tc, initial=0)
 
 	def propogateEntry2(self, t_sec, dt, delta_deg):
 		"""
@@ -2599,7 +2599,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		self.q_stag_total = self.q_stag_con + self.q_stag_rad
 		# compute stagnation point heating load
-		self.heatload = cumulative_trapezoid(self.q_stag_total, self.tc, initial=self.heatLoad0)
+		self.heatload = self.heatLoad0 + cumulative_trapezoid(self.q_stag_total, self.tc, initial=0)
 
 	def dummyVehicle(self, density_mes_int):
 		"""
@@ -2779,7 +2779,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		q_stag_total = q_stag_con + q_stag_rad
 		# compute stagnation point heating load
-		heatload = cumulative_trapezoid(q_stag_total , tc, initial=heatLoad0)
+		heatload = heatLoad0 + cumulative_trapezoid(q_stag_total , tc, initial=0)
 
 		return t_minc, h_kmc, v_kmsc, phi_degc, psi_degc, theta_degc, \
 				gamma_degc, drange_kmc, exitflag, acc_net_g, dyn_pres_atm, \
@@ -2936,7 +2936,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		q_stag_total = q_stag_con + q_stag_rad
 		# compute stagnation point heating load
-		heatload = cumulative_trapezoid(q_stag_total, tc, initial=heatLoad0)
+		heatload = heatLoad0 + cumulative_trapezoid(q_stag_total, tc, initial=0)
 
 		return t_minc, h_kmc, v_kmsc, phi_degc, psi_degc, theta_degc, \
 				gamma_degc, drange_kmc, exitflag, acc_net_g, dyn_pres_atm, \
@@ -6685,7 +6685,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		q_stag_total    = q_stag_con + q_stag_rad
 		# compute stagnation point heating load
-		heatload        = cumulative_trapezoid(q_stag_total , tc, \
+		heatload        = heatLoad0 + cumulative_trapezoid(q_stag_total , tc, \
 			initial=0)
 
 		return t_minc, h_kmc, v_kmsc, phi_degc, psi_degc, theta_degc, \
@@ -6857,8 +6857,8 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		q_stag_total = q_stag_con + q_stag_rad
 		# compute stagnation point heating load
-		heatload = cumulative_trapezoid(q_stag_total, tc, \
-							initial=heatLoad0)
+		heatload = heatLoad0 + cumulative_trapezoid(q_stag_total, tc, \
+							initial=0)
 
 		return t_minc, h_kmc, v_kmsc, phi_degc, psi_degc, theta_degc, \
 			   gamma_degc, drange_kmc, exitflag, acc_net_g, dyn_pres_atm, \
-- 
2.43.0


From e0c987ee6dc0875e7c82c3932178708f78b84557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:02 +0000
Subject: [PATCH 05/22] fix: pseudo-controller stops at the commanded bank
 angle when it is within reach

---
 AMAT/vehicle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 93669ac..2c2ab01 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -4568,7 +4568,7 @@ class Vehicle:
 			# so as to achieve the desired bank angle at the 
 			# end of the guidance cycle.
 			bankRate = np.abs(DeltaCMD_deg_command - Delta_deg_ini) / timestep
-			DeltaCMD_deg = Delta_deg_ini + np.sign(DeltaCMD_deg_command - Delta_deg_ini)*self.maxRollRate*timestep
+			DeltaCMD_deg = Delta_deg_ini + np.sign(DeltaCMD_deg_command - Delta_deg_ini)*bankRate*timestep
 			Delta_deg_ini = DeltaCMD_deg
 
 		return DeltaCMD_deg, Delta_deg_ini
-- 
2.43.0


From e3f2c3955c99d2dc08ae9a539dea9c6021fcd692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:27 +0000
Subject: [PATCH 06/22] fix: corridor searches return a result when the initial
 bracket is already within tolerance

---
 AMAT/vehicle.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 2c2ab01..abc7961 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -3313,8 +3313,8 @@ class Vehicle:
 				# print("")
 				# set overShootLimit to upper bound
 				# set exitflag to 1.0
-				overShootLimit = gamma0_deg_guess_high
-				exitflag_os = 1.0
+			overShootLimit = gamma0_deg_guess_high
+			exitflag_os = 1.0
 		
 		# if product of flags is positive, overshootlimit is outside user specified bounds, 
 		# print warning message.
@@ -3415,8 +3415,8 @@ class Vehicle:
 				# print("")
 				# set overShootLimit to upper bound
 				# set exitflag to 1.0
-				overShootLimit = gamma0_deg_guess_high
-				exitflag_os = 1.0
+			overShootLimit = gamma0_deg_guess_high
+			exitflag_os = 1.0
 		
 		# if product of flags is positive, overshootlimit is outside user specified bounds, 
 		# print warning message.
@@ -3518,8 +3518,8 @@ class Vehicle:
 				#print("")
 				# set overShootLimit to upper bound
 				# set exitflag to 1.0
-				underShootLimit = gamma0_deg_guess_high
-				exitflag_us = 1.0
+			underShootLimit = gamma0_deg_guess_high
+			exitflag_us = 1.0
 		
 		# if product of flags is positive, overshootlimit is outside user specified bounds, 
 		# print warning message.
@@ -3621,8 +3621,8 @@ class Vehicle:
 				# print("")
 				# set overShootLimit to upper bound
 				# set exitflag to 1.0
-				underShootLimit = gamma0_deg_guess_high
-				exitflag_us = 1.0
+			underShootLimit = gamma0_deg_guess_high
+			exitflag_us = 1.0
 		
 		# if product of flags is positive, overshootlimit is outside user specified bounds, 
 		# print warning message.
@@ -3841,8 +3841,8 @@ class Vehicle:
 
 				# set overShootLimit to lower bound
 				# set exitflag to 1.0
-				EFPALimit = gamma0_deg_guess_high
-				exitflag = 1.0
+			EFPALimit = gamma0_deg_guess_high
+			exitflag = 1.0
 
 		# if product of flags is positive, overshootlimit is outside user \
 		# specified bounds, print warning message.
@@ -3941,8 +3941,8 @@ class Vehicle:
 
 				# set overShootLimit to lower bound
 				# set exitflag to 1.0
-				EFPALimit = gamma0_deg_guess_high
-				exitflag = 1.0
+			EFPALimit = gamma0_deg_guess_high
+			exitflag = 1.0
 
 		# if product of flags is positive, overshootlimit is outside user \
 		# specified bounds, print warning message.
-- 
2.43.0


From 0b880da9faab81f0799d145aaca4503c65c99bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:36 +0000
Subject: [PATCH 07/22] fix: drag-modulation corridor limits fly without lift

The lift force uses CL, so clearing only LD left a lifting vehicle's lift in.
---
 AMAT/vehicle.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index abc7961..59d5ac1 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -3794,10 +3794,12 @@ class Vehicle:
 		"""
 		temp_var_1 = self.gamma0_deg
 		temp_var_2 = self.LD
+		temp_var_3 = self.CL
 
 		delta_deg = 0.0
 
 		self.LD = 0.0
+		self.CL = 0.0
 
 		self.gamma0_deg = gamma0_deg_guess_low
 		ans1 = self.hitsTargetApoapsis(t_sec, dt, delta_deg, targetApopasisAltitude_km)
@@ -3853,6 +3855,7 @@ class Vehicle:
 
 		self.gamma0_deg = temp_var_1
 		self.LD = temp_var_2
+		self.CL = temp_var_3
 
 		return EFPALimit, exitflag
 
@@ -3894,10 +3897,12 @@ class Vehicle:
 		"""
 		temp_var_1 = self.gamma0_deg
 		temp_var_2 = self.LD
+		temp_var_3 = self.CL
 
 		delta_deg = 0.0
 
 		self.LD = 0.0
+		self.CL = 0.0
 
 		self.gamma0_deg = gamma0_deg_guess_low
 		ans1 = self.hitsTargetApoapsis2(t_sec, dt, delta_deg, targetApopasisAltitude_km)
@@ -3953,6 +3958,7 @@ class Vehicle:
 
 		self.gamma0_deg = temp_var_1
 		self.LD = temp_var_2
+		self.CL = temp_var_3
 
 		return EFPALimit, exitflag
 
-- 
2.43.0


From 329d99cd16dd59f804bf3dee11f06df2c81146cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:37 +0000
Subject: [PATCH 08/22] fix: terminate the guided entry phases at the switch
 speed

The loop condition read an attribute that the loop never updated.
---
 AMAT/vehicle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 59d5ac1..deb68a9 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -4998,7 +4998,7 @@ class Vehicle:
 			counter+=1
 			# update current speed
 			h_current_km  = h_km[-1]
-			v_current_kms = v_kms[-1]
+			self.v_current_kms = v_kms[-1]
 
 			if terminal_apoapsis_km> 0 and terminal_apoapsis_km < self.target_apo_km:
 				break
@@ -5232,7 +5232,7 @@ class Vehicle:
 
 			# update current speed
 			h_current_km = h_km[-1]
-			v_current_kms = v_kms[-1]
+			self.v_current_kms = v_kms[-1]
 
 			if terminal_apoapsis_km > 0 and terminal_apoapsis_km < self.target_apo_km:
 				break
@@ -6168,7 +6168,7 @@ class Vehicle:
 
 			# update current speed
 			h_current_km  = h_km[-1]
-			v_current_kms = v_kms[-1]
+			self.v_current_kms = v_kms[-1]
 
 			if terminal_apoapsis_km> 0 and terminal_apoapsis_km < self.target_apo_km:
 				break
@@ -6380,7 +6380,7 @@ class Vehicle:
 
 			# update current speed
 			h_current_km = h_km[-1]
-			v_current_kms = v_kms[-1]
+			self.v_current_kms = v_kms[-1]
 
 			if terminal_apoapsis_km > 0 and terminal_apoapsis_km < self.target_apo_km:
 				break
-- 
2.43.0


From 0b52ed995393eb9dcf15775f623811a18cc3c90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:39 +0000
Subject: [PATCH 09/22] fix: carry the heat load from step to step in the exit
 phases

---
 AMAT/vehicle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index deb68a9..7ef3d93 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -5351,6 +5351,7 @@ class Vehicle:
 
 			# propogate the vehicle state to advance from the current 
 			# state using the commanded bank angle deltaCMD
+			Ji = heatload[-1]
 			self.setInitialState(h0_km, theta0_deg, phi0_deg, v0_kms, psi0_deg, gamma0_deg, drange0_km, Ji)
 			self.propogateEntry(timeStep, dt, DeltaCMD_deg)
 
@@ -5541,6 +5542,7 @@ class Vehicle:
 
 			# propogate the vehicle state to advance from the current
 			# state using the commanded bank angle deltaCMD
+			Ji = heatload[-1]
 			self.setInitialState(h0_km, theta0_deg, phi0_deg, v0_kms, psi0_deg, gamma0_deg, drange0_km, Ji)
 			self.propogateEntry2(timeStep, dt, DeltaCMD_deg)
 
@@ -6964,6 +6966,7 @@ class Vehicle:
 
 			# propogate the vehicle state to advance from the current 
 			# state using the commanded bank angle deltaCMD
+			Ji = heatload[-1]
 			self.setInitialState(h0_km,theta0_deg,phi0_deg,v0_kms,psi0_deg,gamma0_deg,\
 								 drange0_km,Ji)
 			self.propogateEntry(timeStep, dt, DeltaCMD_deg)
@@ -7156,6 +7159,7 @@ class Vehicle:
 
 			# propogate the vehicle state to advance from the current
 			# state using the commanded bank angle deltaCMD
+			Ji = heatload[-1]
 			self.setInitialState(h0_km, theta0_deg, phi0_deg, v0_kms, psi0_deg, gamma0_deg, \
 								 drange0_km, Ji)
 			self.propogateEntry2(timeStep, dt, DeltaCMD_deg)
-- 
2.43.0


From 6e8c78133fe32785b65617f480a4858cec651c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:16 +0000
Subject: [PATCH 10/22] fix: fly the dispersed lift-to-drag ratio in the Monte
 Carlo runs

---
 AMAT/vehicle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 7ef3d93..481641a 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -5784,6 +5784,8 @@ class Vehicle:
 			selected_efpa = np.random.normal(self.nominalEFPA, self.EFPA_1sigma_value)
 			selected_atmSigma = np.random.normal(0, self.atmSigmaFactor)
 			selected_LD = np.random.normal(self.nominalLD, self.LD_1sigma_value)
+			self.LD = selected_LD
+			self.CL = self.LD*self.CD
 
 			ATM_height, ATM_density_low, ATM_density_avg, ATM_density_high, \
 			ATM_density_pert = self.planetObj.loadMonteCarloDensityFile2(selected_atmfile, self.heightCol,
@@ -5888,6 +5890,8 @@ class Vehicle:
 			# selected_atmSigma = +0.0
 			selected_atmSigma = np.random.normal(0, self.atmSigmaFactor)
 			selected_LD = np.random.normal(self.nominalLD, self.LD_1sigma_value)
+			self.LD = selected_LD
+			self.CL = self.LD*self.CD
 
 			ATM_height, ATM_density_low, ATM_density_avg, ATM_density_high, \
 			ATM_density_pert = self.planetObj.loadMonteCarloDensityFile2( \
-- 
2.43.0


From e75b665ccdfe8af679469c143bc2d197de76ea27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:28 +0000
Subject: [PATCH 11/22] fix: fly the dispersed ballistic coefficient in the
 drag modulation Monte Carlo runs

---
 AMAT/vehicle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 481641a..c6e0bc1 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -7503,6 +7503,7 @@ class Vehicle:
 			selected_atmSigma = np.random.normal(0,1)
 
 			selected_LD       = 0.0
+			self.beta1 = np.random.normal(self.nominalbeta1, self.beta1_1sigma_value)
 
 			ATM_height, ATM_density_low, ATM_density_avg, ATM_density_high, \
 			ATM_density_pert = self.planetObj.loadMonteCarloDensityFile2(\
@@ -7609,6 +7610,7 @@ class Vehicle:
 			selected_atmSigma = np.random.normal(0, 1)
 
 			selected_LD = 0.0
+			self.beta1 = np.random.normal(self.nominalbeta1, self.beta1_1sigma_value)
 
 			ATM_height, ATM_density_low, ATM_density_avg, ATM_density_high, \
 			ATM_density_pert = self.planetObj.loadMonteCarloDensityFile2( \
@@ -7724,6 +7726,7 @@ class Vehicle:
 			selected_atmSigma = np.random.normal(0,1)
 
 			selected_LD       = 0.0
+			self.beta1 = np.random.normal(self.nominalbeta1, self.beta1_1sigma_value)
 
 			ATM_height, ATM_density_low, ATM_density_avg, ATM_density_high, \
 			ATM_density_pert = self.planetObj.loadMonteCarloDensityFile3(\
-- 
2.43.0


From 80d6b720955ded6c8efb8202809ef0bfbf730bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:42 +0000
Subject: [PATCH 12/22] fix: approach speed points outward after periapsis

---
 AMAT/approach.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/approach.py b/AMAT/approach.py
index 0d897fd..94959fe 100644
--- a/AMAT/approach.py
+++ b/AMAT/approach.py
@@ -477,7 +477,7 @@ class Approach:
 
 		r_mag_bi = self.r_mag_bi(theta_star)
 		v_mag_bi = np.sqrt((self.v_inf_mag)**2 + 2*self.planetObj.GM/r_mag_bi)
-		gamma = -1*np.arccos(self.h/(r_mag_bi*v_mag_bi))
+		gamma = np.arctan2(self.e*np.sin(theta_star), 1 + self.e*np.cos(theta_star))
 
 		vr = v_mag_bi*np.sin(gamma)
 		vt = v_mag_bi*np.cos(gamma)
-- 
2.43.0


From 011274de7e5d8244907e156ea952526baac34fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:55 +0000
Subject: [PATCH 13/22] fix: entry longitude of an approach trajectory in the
 right quadrant

---
 AMAT/approach.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/AMAT/approach.py b/AMAT/approach.py
index 94959fe..9a73e5f 100644
--- a/AMAT/approach.py
+++ b/AMAT/approach.py
@@ -266,9 +266,9 @@ class Approach:
 											  np.arccos(np.dot(self.r_vec_entry_bi_unit, self.v_vec_entry_bi_unit))
 
 			self.latitude_entry_bi = np.arcsin(self.r_vec_entry_bi_unit[2])
-			self.longitude_entry_bi = np.arctan(self.r_vec_entry_bi_unit[1] / self.r_vec_entry_bi_unit[0])
+			self.longitude_entry_bi = np.arctan2(self.r_vec_entry_bi_unit[1], self.r_vec_entry_bi_unit[0])
 
-			self.xi_1 = np.arctan(self.r_vec_entry_bi_unit[1]/self.r_vec_entry_bi_unit[0])
+			self.xi_1 = np.arctan2(self.r_vec_entry_bi_unit[1], self.r_vec_entry_bi_unit[0])
 			self.latitude_entry_bi_analytic = np.arctan(self.r_vec_entry_bi_unit[2]/
 														(self.r_vec_entry_bi_unit[0]*np.cos(self.xi_1) + self.r_vec_entry_bi_unit[1]*np.sin(self.xi_1)))
 
-- 
2.43.0


From dedab2a8f089a3116778bbc09ed009b9ab49ae03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:23 +0000
Subject: [PATCH 14/22] fix: orbital radial speed changes sign past periapsis
 and apoapsis

---
 AMAT/orbiter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/AMAT/orbiter.py b/AMAT/orbiter.py
index 5d9d944..2b49b1b 100644
--- a/AMAT/orbiter.py
+++ b/AMAT/orbiter.py
@@ -493,7 +493,7 @@ class Orbiter:
 		r_mag_bi = self.r_mag_bi(theta_star)
 		v_mag_bi = np.sqrt(self.vehicle.planetObj.GM*(2/r_mag_bi - 1/self.a))
 
-		gamma = 1*np.arccos(self.h/(r_mag_bi*v_mag_bi*1.0000001))
+		gamma = np.where(np.sin(theta_star) >= 0, 1, -1)*np.arccos(self.h/(r_mag_bi*v_mag_bi*1.0000001))
 
 		vr = v_mag_bi*np.sin(gamma)
 		vt = v_mag_bi*np.cos(gamma)
@@ -531,7 +531,7 @@ class Orbiter:
 		r_mag_bi = np.linalg.norm(self.pos_vec_bi_probe(theta_star))
 		v_mag_bi = np.sqrt(self.vehicle.planetObj.GM*(2/r_mag_bi - 1/self.a_probe_orbit))
 
-		gamma = -1*np.arccos(self.h_probe_orbit/(r_mag_bi*v_mag_bi*1.0000001))
+		gamma = np.where(np.sin(theta_star) >= 0, 1, -1)*np.arccos(self.h_probe_orbit/(r_mag_bi*v_mag_bi*1.0000001))
 
 		vr = v_mag_bi*np.sin(gamma)
 		vt = v_mag_bi*np.cos(gamma)
@@ -963,7 +963,7 @@ class PropulsiveOrbiter:
 		r_mag_bi = self.r_mag_bi(theta_star)
 		v_mag_bi = np.sqrt(self.approach.planetObj.GM*(2/r_mag_bi - 1/self.a))
 
-		gamma = 1*np.arccos(self.h/(r_mag_bi*v_mag_bi*1.0000001))
+		gamma = np.where(np.sin(theta_star) >= 0, 1, -1)*np.arccos(self.h/(r_mag_bi*v_mag_bi*1.0000001))
 
 		vr = v_mag_bi*np.sin(gamma)
 		vt = v_mag_bi*np.cos(gamma)
-- 
2.43.0


From 8a3603ac450f91de805b6e7dbe11d43bfb351893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:38 +0000
Subject: [PATCH 15/22] fix: entry longitude of a targeted probe in the right
 quadrant

---
 AMAT/orbiter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/orbiter.py b/AMAT/orbiter.py
index 2b49b1b..c5ccdea 100644
--- a/AMAT/orbiter.py
+++ b/AMAT/orbiter.py
@@ -737,7 +737,7 @@ class Orbiter:
 			self.gamma_inertial_probe_entry = -1 * np.arccos(self.h_probe_orbit / (self.r_EI * self.v_bi_mag_probe_entry))
 
 			self.latitude_probe_entry_bi = np.arcsin(self.r_vec_bi_probe_entry_unit[2])
-			self.longitude_probe_entry_bi = np.arctan(self.r_vec_bi_probe_entry_unit[1] / self.r_vec_bi_probe_entry_unit[0])
+			self.longitude_probe_entry_bi = np.arctan2(self.r_vec_bi_probe_entry_unit[1], self.r_vec_bi_probe_entry_unit[0])
 
 			self.v_vec_probe_entry_atm = self.vel_vec_probe_entry_atm()
 			self.v_mag_probe_entry_atm = np.linalg.norm(self.v_vec_probe_entry_atm)
-- 
2.43.0


From 399bc736d242c3ef898b936e4daf0dc15fa886ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:06 +0000
Subject: [PATCH 16/22] fix: trace a probe orbit that stays above the
 atmosphere

---
 AMAT/orbiter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/AMAT/orbiter.py b/AMAT/orbiter.py
index c5ccdea..11ff19a 100644
--- a/AMAT/orbiter.py
+++ b/AMAT/orbiter.py
@@ -758,8 +758,10 @@ class Orbiter:
 
 		else:
 			print("Probe orbit periapsis outside atmospheric skip altitude.")
+			self.theta_star_probe_entry = None
 
-		theta_star_arr = np.linspace(theta_star, self.theta_star_probe_entry, num_points)
+		theta_star_end = 2*np.pi if self.theta_star_probe_entry is None else self.theta_star_probe_entry
+		theta_star_arr = np.linspace(theta_star, theta_star_end, num_points)
 		pos_vec_bi_arr = self.pos_vec_bi_probe(theta_star_arr) / self.vehicle.planetObj.RP
 
 		self.x_probe_orbit_arr = pos_vec_bi_arr[0][:]
-- 
2.43.0


From 01f47c85da62b39986793117d3e04336c952ba89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:43 +0000
Subject: [PATCH 17/22] fix: draw the deflected orbit along its own line of
 apsides

---
 AMAT/orbiter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/orbiter.py b/AMAT/orbiter.py
index 11ff19a..21200b4 100644
--- a/AMAT/orbiter.py
+++ b/AMAT/orbiter.py
@@ -465,7 +465,7 @@ class Orbiter:
 		"""
 
 		r = (self.h_orbiter_defl**2 / self.vehicle.planetObj.GM) / (1 + self.e_orbiter_defl*np.cos(theta_star))
-		theta = theta_star + self.omega
+		theta = theta_star + self.omega_orbiter_defl
 
 		rx_unit = np.cos(self.OMEGA_orbiter_defl)*np.cos(theta) - np.sin(self.OMEGA_orbiter_defl)*np.cos(self.i_orbiter_defl)*np.sin(theta)
 		ry_unit = np.sin(self.OMEGA_orbiter_defl)*np.cos(theta) + np.cos(self.OMEGA_orbiter_defl)*np.cos(self.i_orbiter_defl)*np.sin(theta)
-- 
2.43.0


From 7935b06ef009411973108b98fef4c0a7a52e57bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:46 +0000
Subject: [PATCH 18/22] fix: save the launch mass against time of flight figure

---
 AMAT/interplanetary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/interplanetary.py b/AMAT/interplanetary.py
index 0a71a41..b334ff4 100644
--- a/AMAT/interplanetary.py
+++ b/AMAT/interplanetary.py
@@ -337,7 +337,7 @@ class Interplanetary:
 		for axis in ['top', 'bottom', 'left', 'right']:
 			ax.spines[axis].set_linewidth(2)
 
-		plt.savefig('../plots/' + self.ID + "_" + launcherObj.ID + "_" + "launch_mass_vs_TOF" + '.png', dpi=300, box_inches='tight')
+		plt.savefig('../plots/' + self.ID + "_" + launcherObj.ID + "_" + "launch_mass_vs_TOF" + '.png', dpi=300, bbox_inches='tight')
 		plt.savefig('../plots/' + self.ID + "_" + launcherObj.ID + "_" + "launch_mass_vs_TOF" + '.pdf', dpi=300, bbox_inches='tight')
 		plt.savefig('../plots/' + self.ID + "_" + launcherObj.ID + "_" + "launch_mass_vs_TOF" + '.eps', dpi=300, bbox_inches='tight')
 
-- 
2.43.0


From 0169087c1fa34de1d4d7d2e07dd1db7e8d86ec7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:46 +0000
Subject: [PATCH 19/22] fix: receiver gain from the receiver's own diameter

---
 AMAT/telecom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/telecom.py b/AMAT/telecom.py
index 9e3ccaa..c10ed4e 100644
--- a/AMAT/telecom.py
+++ b/AMAT/telecom.py
@@ -142,7 +142,7 @@ class Link:
 		# if Dr and eta_r are provided, compute receiver gain using these values,
 		# else if Gr_dBi is provided, use this value directly for receiver gain
 		if Dr and eta_r:
-			self.Dr = Dt
+			self.Dr = Dr
 			self.Ar = 0.25 * np.pi * self.Dr * self.Dr
 			self.eta_r = eta_r
 			self.Gr = self.compute_antenna_gain(self.eta_r, self.Dr, self.wavelength)
-- 
2.43.0


From 55eb7f5ae7f1ddc962258d3c896d86a8a7b1a695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:46 +0000
Subject: [PATCH 20/22] fix: accept a 0 dBi antenna gain in a link budget

---
 AMAT/telecom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/AMAT/telecom.py b/AMAT/telecom.py
index c10ed4e..afe07f4 100644
--- a/AMAT/telecom.py
+++ b/AMAT/telecom.py
@@ -133,7 +133,7 @@ class Link:
 			self.eta_t = eta_t
 			self.Gt = self.compute_antenna_gain(self.eta_t, self.Dt, self.wavelength)
 			self.Gt_dBi = self.compute_dB(self.Gt)
-		elif Gt_dBi:
+		elif Gt_dBi is not None:
 			self.Dt = None
 			self.At = None
 			self.eta_t = None
@@ -147,7 +147,7 @@ class Link:
 			self.eta_r = eta_r
 			self.Gr = self.compute_antenna_gain(self.eta_r, self.Dr, self.wavelength)
 			self.Gr_dBi = self.compute_dB(self.Gr)
-		elif Gr_dBi:
+		elif Gr_dBi is not None:
 			self.Dr = None
 			self.Ar = None
 			self.eta_r = None
-- 
2.43.0


From 91f657ec6880d97b1df0ea264f3374c6853306b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:55 +0000
Subject: [PATCH 21/22] fix: time runs forward over a day of a retrograde
 planet

---
 AMAT/visibility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/AMAT/visibility.py b/AMAT/visibility.py
index 97fae40..ee2e3cf 100644
--- a/AMAT/visibility.py
+++ b/AMAT/visibility.py
@@ -191,8 +191,8 @@ class LanderToPlanet(Visibility):
 		# Convert observer to target unit vector in ICRF to observer planet BI frame
 		self.obs_tar_pos_vec_bi_unit = self.ICRF_to_BI(self.obs_tar_pos_vec_icrf_unit)
 
-		self.longitude_array = np.linspace(0, 360, num_points)  # body inertial longitude array
-		self.t_array = np.linspace(0, 2*np.pi/(self.planetObj.OMEGA), num_points)  # time array
+		self.longitude_array = np.linspace(0, 360*np.sign(self.planetObj.OMEGA), num_points)  # body inertial longitude array
+		self.t_array = np.linspace(0, 2*np.pi/abs(self.planetObj.OMEGA), num_points)  # time array
 		self.beta_array = np.array([])  # beta angle array
 		self.elevation_array = np.array([])  # elevation angle array
 		self.visible_array = np.array([], dtype=bool)
-- 
2.43.0


From def6622d12f50465edeb0df750db972b6fa09030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:36 +0000
Subject: [PATCH 22/22] fix: one acceleration sample per guidance step (each
 was recorded twice)

---
 AMAT/vehicle.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index c6e0bc1..49b2ed0 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -4972,7 +4972,6 @@ class Vehicle:
 			q_stag_total = np.concatenate((q_stag_total, q_stag_total_c), axis=0)
 			heatload = np.concatenate((heatload, heatload_c), axis=0)
 
-			self.acc_step_array = np.append(self.acc_step_array, acc_net_g[-1])
 			density_mes = 2*self.mass*acc_drag_g[-1]*self.planetObj.EARTHG / (self.CD*self.A*(0.5*(vi+v_kms[-1]*1E3))**2.0)
 			self.density_mes_array = np.append(self.density_mes_array, density_mes)
 
@@ -5202,7 +5201,6 @@ class Vehicle:
 			q_stag_total = np.concatenate((q_stag_total, q_stag_total_c), axis=0)
 			heatload = np.concatenate((heatload, heatload_c), axis=0)
 
-			self.acc_step_array = np.append(self.acc_step_array, acc_net_g[-1])
 			density_mes = 2 * self.mass * acc_drag_g[-1] * self.planetObj.EARTHG / (self.CD * self.A * (0.5 * (vi + v_kms[-1] * 1E3)) ** 2.0)
 			self.density_mes_array = np.append(self.density_mes_array, density_mes)
 
@@ -6148,7 +6146,6 @@ class Vehicle:
 			q_stag_total = np.concatenate((q_stag_total, q_stag_total_c), axis=0)
 			heatload     = np.concatenate((heatload, heatload_c), axis=0)
 
-			self.acc_step_array           = np.append(self.acc_step_array, acc_net_g[-1])
 			density_mes                   = 2*self.mass*acc_drag_g[-1]*\
 											self.planetObj.EARTHG / \
 											(self.CD*self.A*(0.5*(vi+v_kms[-1]*1E3))**2.0)
@@ -6359,7 +6356,6 @@ class Vehicle:
 			q_stag_total = np.concatenate((q_stag_total, q_stag_total_c), axis=0)
 			heatload = np.concatenate((heatload, heatload_c), axis=0)
 
-			self.acc_step_array = np.append(self.acc_step_array, acc_net_g[-1])
 			density_mes = 2 * self.mass * acc_drag_g[-1] * \
 						  self.planetObj.EARTHG / \
 						  (self.CD * self.A * (0.5 * (vi + v_kms[-1] * 1E3)) ** 2.0)
-- 
2.43.0

