From a9f18528f408a285fae7737daacb5697243617de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 01/74] fix: report synchronous machine phase currents at the
 rotor angle of the reported state

simulate() transformed the currents of the end of the step with the rotor angle
of the last switching instant, so i_abc did not match i_dq and epsilon.
---
 src/gym_electric_motor/physical_systems/physical_systems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 5e8640e..8173ae8 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -516,10 +516,10 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
         torque = self._electrical_motor.torque(ode_state[self._motor_ode_idx])
         mechanical_state = ode_state[self._load_ode_idx]
         i_dq = ode_state[self._ode_currents_idx]
-        i_abc = list(self.dq_to_abc_space(i_dq, eps))
         eps = ode_state[self._ode_epsilon_idx] % (2 * np.pi)
         if eps > np.pi:
             eps -= 2 * np.pi
+        i_abc = list(self.dq_to_abc_space(i_dq, eps))
 
         system_state = np.concatenate((mechanical_state, [torque], i_abc, i_dq, u_in, u_dq, [eps], u_sup))
         return system_state / self._limits
@@ -648,10 +648,10 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
         torque = self._electrical_motor.torque(ode_state[self._motor_ode_idx])
         mechanical_state = ode_state[self._load_ode_idx]
         i_dq_e = ode_state[self._ode_currents_idx]
-        i_abc = list(self.dq_to_abc_space(i_dq_e[:2], eps))
         eps = ode_state[self._ode_epsilon_idx] % (2 * np.pi)
         if eps > np.pi:
             eps -= 2 * np.pi
+        i_abc = list(self.dq_to_abc_space(i_dq_e[:2], eps))
 
         system_state = np.concatenate((mechanical_state, [torque], i_abc, i_dq_e, u_in[:3], u_dq_e, [eps], u_sup))
         return system_state / self._limits
-- 
2.43.0


From 138f4bc7109f6eb1d33ba0403d010080724027d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 02/74] fix: report induction machine dq currents at the
 rotor-flux angle of the reported state

simulate() transformed the currents of the end of the step with the flux angle of
the last switching instant.
---
 src/gym_electric_motor/physical_systems/physical_systems.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 8173ae8..b7eeec0 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -803,6 +803,7 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
         self._k += 1
         torque = self._electrical_motor.torque(ode_state[self._motor_ode_idx])
         mechanical_state = ode_state[self._load_ode_idx]
+        eps_fs = self.calculate_field_angle(ode_state)
         i_dq = self.alphabeta_to_dq_space(ode_state[self._ode_currents_idx], eps_fs)
         i_abc = list(self.dq_to_abc_space(i_dq, eps_fs))
 
@@ -1025,6 +1026,8 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         torque = self._electrical_motor.torque(ode_state[self._motor_ode_idx])
         mechanical_state = ode_state[self._load_ode_idx]
 
+        eps_field = self.calculate_field_angle(ode_state)
+        eps_el = ode_state[self._ode_epsilon_idx]
         i_sdq = self.alphabeta_to_dq_space(ode_state[self._ode_currents_idx], eps_field)
         i_sabc = list(self.dq_to_abc_space(i_sdq, eps_field))
 
-- 
2.43.0


From e833c200992e44c22fa9ade3c641964226fb9fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 03/74] fix: transform DFIM rotor currents after reset as after
 a step

The rotor current vector is given in stator coordinates; simulate() rotates it by
the field angle, reset() rotated it by the slip angle and returned other currents
for the same state.
---
 src/gym_electric_motor/physical_systems/physical_systems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index b7eeec0..ef679fb 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -1090,7 +1090,7 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         i_sdq = self.alphabeta_to_dq_space(ode_state[self._ode_currents_idx], eps_field)
         i_sabc = self.dq_to_abc_space(i_sdq, eps_field)
 
-        i_rdq = self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_field - eps_el)
+        i_rdq = self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_field)
         i_rdef = self.dq_to_abc_space(i_rdq, eps_field - eps_el)
 
         torque = self.electrical_motor.torque(motor_state)
-- 
2.43.0


From 68e4abcc29647fb529b8a0b773361b3a0222fd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:44 +0000
Subject: [PATCH 04/74] fix: hand the DFIM rotor phase currents to the rotor
 converter in rotor coordinates

The rotor converter outputs are interpreted in the rotor-fixed frame (u_def), but it
received the rotor currents as three-phase quantities of the stator-fixed frame.
---
 src/gym_electric_motor/physical_systems/physical_systems.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index ef679fb..0319b11 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -984,7 +984,8 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         eps_el = ode_state[self._ode_epsilon_idx]
 
         i_sabc = self.alphabeta_to_abc_space(self._electrical_motor.i_in(ode_state[self._ode_currents_idx]))
-        i_rdef = self.alphabeta_to_abc_space(self.calculate_rotor_current(ode_state))
+        i_rdq = self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_field)
+        i_rdef = self.dq_to_abc_space(i_rdq, eps_field - eps_el)
         switching_times = self._converter.set_action(action, self._t)
 
         for t in switching_times[:-1]:
@@ -1005,7 +1006,8 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
             eps_field = self.calculate_field_angle(ode_state)
             eps_el = ode_state[self._ode_epsilon_idx]
             i_sabc = self.alphabeta_to_abc_space(self._electrical_motor.i_in(ode_state[self._ode_currents_idx]))
-            i_rdef = self.alphabeta_to_abc_space(self.calculate_rotor_current(ode_state))
+            i_rdq = self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_field)
+            i_rdef = self.dq_to_abc_space(i_rdq, eps_field - eps_el)
 
         i_sup = self._converter.i_sup(np.concatenate((i_sabc, i_rdef)))
         u_sup = self._supply.get_voltage(self._t, i_sup)
-- 
2.43.0


From 054ff9d091ebd9e59af1ce74b6da52343f5955c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:44 +0000
Subject: [PATCH 05/74] fix: EESM simulation over switching intervals inside a
 step

Within the loop over the switching instants only two phase voltages were
transformed and the excitation current was added to the phase currents.
---
 src/gym_electric_motor/physical_systems/physical_systems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 0319b11..1342621 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -629,12 +629,12 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
             u_sup = self._supply.get_voltage(self._t, i_sup)
             u_in = self._converter.convert(i_in_abc_e, self._ode_solver.t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
-            u_dq_e = list(self.abc_to_dq_space(u_in[:2], eps)) + u_in[2:]
+            u_dq_e = np.concatenate((self.abc_to_dq_space(u_in[:3], eps), u_in[3:]))
             self._ode_solver.set_f_params(u_dq_e)
             ode_state = self._ode_solver.integrate(t)
             eps = ode_state[self._ode_epsilon_idx]
             i_in_dq_e = self._electrical_motor.i_in(ode_state[self._ode_currents_idx])
-            i_in_abc_e = list(self.dq_to_abc_space(i_in_dq_e[:2], eps)) + i_in_dq_e[2:]
+            i_in_abc_e = list(self.dq_to_abc_space(i_in_dq_e[:2], eps)) + list(i_in_dq_e[2:])
 
         i_sup = self._converter.i_sup(i_in_abc_e)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-- 
2.43.0


From ad4cae8cd3d764bc9299a3469a8029694dd9dd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:44 +0000
Subject: [PATCH 06/74] fix: order of the voltages in the state returned by the
 EESM reset

The excitation voltage was placed before u_sd and u_sq instead of after them.
---
 src/gym_electric_motor/physical_systems/physical_systems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 1342621..dba3181 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -684,8 +684,9 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
                 [torque],
                 i_abc,
                 i_dq,
-                u_abc,
+                u_abc[:3],
                 u_dq,
+                u_abc[3:],
                 [eps],
                 u_sup,
             )
-- 
2.43.0


From 8189c49523bdc9923f3c368fab307602551e0f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 07/74] fix: wrap the rotor angle reported after a reset into
 (-pi, pi]

reset() subtracted at most one turn, and nothing below -pi.
---
 .../physical_systems/physical_systems.py                  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index dba3181..aa6f6be 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -534,7 +534,7 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
         )
         ode_state = np.concatenate((mechanical_state, motor_state))
         u_sup = self.supply.reset()
-        eps = ode_state[self._ode_epsilon_idx]
+        eps = ode_state[self._ode_epsilon_idx] % (2 * np.pi)
         if eps > np.pi:
             eps -= 2 * np.pi
         u_abc = self.converter.reset()
@@ -666,7 +666,7 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
         )
         ode_state = np.concatenate((mechanical_state, motor_state))
         u_sup = self.supply.reset()
-        eps = ode_state[self._ode_epsilon_idx]
+        eps = ode_state[self._ode_epsilon_idx] % (2 * np.pi)
         if eps > np.pi:
             eps -= 2 * np.pi
         u_abc = self.converter.reset()
@@ -830,7 +830,7 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
         ode_state = np.concatenate((mechanical_state, motor_state))
         u_sup = self.supply.reset()
 
-        eps = ode_state[self._ode_epsilon_idx]
+        eps = ode_state[self._ode_epsilon_idx] % (2 * np.pi)
         eps_fs = self.calculate_field_angle(ode_state)
 
         if eps > np.pi:
@@ -1074,7 +1074,7 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         ode_state = np.concatenate((mechanical_state, motor_state))
         u_sup = self.supply.reset()
 
-        eps_el = ode_state[self._ode_epsilon_idx]
+        eps_el = ode_state[self._ode_epsilon_idx] % (2 * np.pi)
         eps_field = self.calculate_field_angle(ode_state)
 
         if eps_el > np.pi:
-- 
2.43.0


From bc1d9c06eac1e376c1e9555ad4cbf1d90863ede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 08/74] fix: leave the dead interval of the transistors after
 the interlocking time

The finite converters expect the end of the switching interval in convert(); the
simulation passed its start, so that a half bridge stayed switched off for the
whole step instead of the interlocking time.
---
 .../physical_systems/physical_systems.py      | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index aa6f6be..477062f 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -177,7 +177,7 @@ class SCMLSystem(PhysicalSystem, RandomComponent):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in, self._ode_solver.t)
+            u_in = self._converter.convert(i_in, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             self._ode_solver.set_f_params(u_in)
             ode_state = self._ode_solver.integrate(t)
@@ -185,7 +185,7 @@ class SCMLSystem(PhysicalSystem, RandomComponent):
 
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in, self._ode_solver.t)
+        u_in = self._converter.convert(i_in, self._t + self.tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         self._ode_solver.set_f_params(u_in)
         ode_state = self._ode_solver.integrate(self._t + self.tau)
@@ -496,7 +496,7 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in, self._ode_solver.t)
+            u_in = self._converter.convert(i_in, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_dq = self.abc_to_dq_space(u_in, eps)
             self._ode_solver.set_f_params(u_dq)
@@ -506,7 +506,7 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
 
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in, self._ode_solver.t)
+        u_in = self._converter.convert(i_in, self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq = self.abc_to_dq_space(u_in, eps)
         self._ode_solver.set_f_params(u_dq)
@@ -627,7 +627,7 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(i_in_abc_e)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in_abc_e, self._ode_solver.t)
+            u_in = self._converter.convert(i_in_abc_e, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_dq_e = np.concatenate((self.abc_to_dq_space(u_in[:3], eps), u_in[3:]))
             self._ode_solver.set_f_params(u_dq_e)
@@ -638,7 +638,7 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
 
         i_sup = self._converter.i_sup(i_in_abc_e)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in_abc_e, self._ode_solver.t)
+        u_in = self._converter.convert(i_in_abc_e, self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq_e = np.concatenate((self.abc_to_dq_space(u_in[:3], eps), u_in[3:]))
         self._ode_solver.set_f_params(u_dq_e)
@@ -784,7 +784,7 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in, self._ode_solver.t)
+            u_in = self._converter.convert(i_in, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_alphabeta = self.abc_to_alphabeta_space(u_in)
             self._ode_solver.set_f_params(u_alphabeta)
@@ -794,7 +794,7 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
 
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in, self._ode_solver.t)
+        u_in = self._converter.convert(i_in, self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq = self.abc_to_dq_space(u_in, eps_fs)
         u_alphabeta = self.abc_to_alphabeta_space(u_in)
@@ -992,7 +992,7 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(np.concatenate((i_sabc, i_rdef)))
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._ode_solver.t)
+            u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_sabc = u_in[self.stator_voltage_low_idx : self.stator_voltage_high_idx]
             u_rdef = u_in[self.rotor_voltage_low_idx : self.rotor_voltage_high_idx]
@@ -1012,7 +1012,7 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
 
         i_sup = self._converter.i_sup(np.concatenate((i_sabc, i_rdef)))
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._ode_solver.t)
+        u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_sabc = u_in[self.stator_voltage_low_idx : self.stator_voltage_high_idx]
         u_rdef = u_in[self.rotor_voltage_low_idx : self.rotor_voltage_high_idx]
-- 
2.43.0


From 6bb6b5e1c28f28231873f2a715d32c88ba31844f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 09/74] fix: draw the supply current of the present switching
 interval

i_sup() was evaluated before convert() selected the switching state, so that the
supply was loaded with the current of the previous interval.
---
 .../physical_systems/physical_systems.py      | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 477062f..d946a01 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -175,17 +175,17 @@ class SCMLSystem(PhysicalSystem, RandomComponent):
         switching_times = self._converter.set_action(action, self._t)
 
         for t in switching_times[:-1]:
+            u_in = self._converter.convert(i_in, t)
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             self._ode_solver.set_f_params(u_in)
             ode_state = self._ode_solver.integrate(t)
             i_in = self._electrical_motor.i_in(ode_state[self._ode_currents_idx])
 
+        u_in = self._converter.convert(i_in, self._t + self.tau)
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in, self._t + self.tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         self._ode_solver.set_f_params(u_in)
         ode_state = self._ode_solver.integrate(self._t + self.tau)
@@ -494,9 +494,9 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
         switching_times = self._converter.set_action(action, self._t)
 
         for t in switching_times[:-1]:
+            u_in = self._converter.convert(i_in, t)
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_dq = self.abc_to_dq_space(u_in, eps)
             self._ode_solver.set_f_params(u_dq)
@@ -504,9 +504,9 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
             eps = ode_state[self._ode_epsilon_idx]
             i_in = self.dq_to_abc_space(self._electrical_motor.i_in(ode_state[self._ode_currents_idx]), eps)
 
+        u_in = self._converter.convert(i_in, self._t + self._tau)
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in, self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq = self.abc_to_dq_space(u_in, eps)
         self._ode_solver.set_f_params(u_dq)
@@ -625,9 +625,9 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
         switching_times = self._converter.set_action(action, self._t)
 
         for t in switching_times[:-1]:
+            u_in = self._converter.convert(i_in_abc_e, t)
             i_sup = self._converter.i_sup(i_in_abc_e)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in_abc_e, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_dq_e = np.concatenate((self.abc_to_dq_space(u_in[:3], eps), u_in[3:]))
             self._ode_solver.set_f_params(u_dq_e)
@@ -636,9 +636,9 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
             i_in_dq_e = self._electrical_motor.i_in(ode_state[self._ode_currents_idx])
             i_in_abc_e = list(self.dq_to_abc_space(i_in_dq_e[:2], eps)) + list(i_in_dq_e[2:])
 
+        u_in = self._converter.convert(i_in_abc_e, self._t + self._tau)
         i_sup = self._converter.i_sup(i_in_abc_e)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in_abc_e, self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq_e = np.concatenate((self.abc_to_dq_space(u_in[:3], eps), u_in[3:]))
         self._ode_solver.set_f_params(u_dq_e)
@@ -782,9 +782,9 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
         switching_times = self._converter.set_action(action, self._t)
 
         for t in switching_times[:-1]:
+            u_in = self._converter.convert(i_in, t)
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_alphabeta = self.abc_to_alphabeta_space(u_in)
             self._ode_solver.set_f_params(u_alphabeta)
@@ -792,9 +792,9 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
             eps_fs = self.calculate_field_angle(ode_state)
             i_in = self.alphabeta_to_abc_space(self._electrical_motor.i_in(ode_state[self._ode_currents_idx]))
 
+        u_in = self._converter.convert(i_in, self._t + self._tau)
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in, self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq = self.abc_to_dq_space(u_in, eps_fs)
         u_alphabeta = self.abc_to_alphabeta_space(u_in)
@@ -990,9 +990,9 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         switching_times = self._converter.set_action(action, self._t)
 
         for t in switching_times[:-1]:
+            u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), t)
             i_sup = self._converter.i_sup(np.concatenate((i_sabc, i_rdef)))
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_sabc = u_in[self.stator_voltage_low_idx : self.stator_voltage_high_idx]
             u_rdef = u_in[self.rotor_voltage_low_idx : self.rotor_voltage_high_idx]
@@ -1010,9 +1010,9 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
             i_rdq = self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_field)
             i_rdef = self.dq_to_abc_space(i_rdq, eps_field - eps_el)
 
+        u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._t + self._tau)
         i_sup = self._converter.i_sup(np.concatenate((i_sabc, i_rdef)))
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_sabc = u_in[self.stator_voltage_low_idx : self.stator_voltage_high_idx]
         u_rdef = u_in[self.rotor_voltage_low_idx : self.rotor_voltage_high_idx]
-- 
2.43.0


From 9fb37d1ef5d163e262f0b50d6cea041216884e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 10/74] fix: use the step size set on a converter in its half
 bridges

The four quadrant and B6 bridge converters kept the step size of their
construction in the subconverters when the physical system set its own.
---
 .../physical_systems/converters.py            | 40 +++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/converters.py b/src/gym_electric_motor/physical_systems/converters.py
index 2327ec4..330bd24 100644
--- a/src/gym_electric_motor/physical_systems/converters.py
+++ b/src/gym_electric_motor/physical_systems/converters.py
@@ -333,6 +333,16 @@ class FiniteFourQuadrantConverter(FiniteConverter):
     currents = Box(-1, 1, shape=(1,), dtype=np.float64)
     action_space = Discrete(4)
 
+    @property
+    def tau(self):
+        return self._tau
+
+    @tau.setter
+    def tau(self, value):
+        self._tau = float(value)
+        for sub_converter in self._subconverters:
+            sub_converter.tau = value
+
     def __init__(self, **kwargs):
         # Docstring in base class
         super().__init__(**kwargs)
@@ -460,6 +470,16 @@ class ContFourQuadrantConverter(ContDynamicallyAveragedConverter):
     currents = Box(-1, 1, shape=(1,), dtype=np.float64)
     action_space = Box(-1, 1, shape=(1,), dtype=np.float64)
 
+    @property
+    def tau(self):
+        return self._tau
+
+    @tau.setter
+    def tau(self, value):
+        self._tau = float(value)
+        for sub_converter in self._subconverters:
+            sub_converter.tau = value
+
     def __init__(self, **kwargs):
         # Docstring in base class
         super().__init__(**kwargs)
@@ -796,6 +816,16 @@ class FiniteB6BridgeConverter(FiniteConverter):
         [1, 1, 1],
     ]
 
+    @property
+    def tau(self):
+        return self._tau
+
+    @tau.setter
+    def tau(self, value):
+        self._tau = float(value)
+        for sub_converter in self._sub_converters:
+            sub_converter.tau = value
+
     def __init__(self, tau=1e-5, **kwargs):
         # Docstring in base class
         super().__init__(tau=tau, **kwargs)
@@ -868,6 +898,16 @@ class ContB6BridgeConverter(ContDynamicallyAveragedConverter):
 
     _reset_action = [0, 0, 0]
 
+    @property
+    def tau(self):
+        return self._tau
+
+    @tau.setter
+    def tau(self, value):
+        self._tau = float(value)
+        for sub_converter in self._subconverters:
+            sub_converter.tau = value
+
     def __init__(self, tau=1e-4, **kwargs):
         # Docstring in base class
         super().__init__(tau=tau, **kwargs)
-- 
2.43.0


From 94279bcbb90218b5affb42cba387344686860d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 11/74] fix: forget the switching state of a finite converter
 at a reset

The first step after a reset depended on the last action before it (a dead
interval was or was not inserted).
---
 src/gym_electric_motor/physical_systems/converters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/converters.py b/src/gym_electric_motor/physical_systems/converters.py
index 330bd24..8f5c87c 100644
--- a/src/gym_electric_motor/physical_systems/converters.py
+++ b/src/gym_electric_motor/physical_systems/converters.py
@@ -200,6 +200,11 @@ class FiniteConverter(PowerElectronicConverter):
         # Docstring in base class
         super().__init__(tau=tau, **kwargs)
 
+    def reset(self):
+        # Docstring in base class
+        self._switching_state = self._reset_action
+        return super().reset()
+
     def set_action(self, action, t):
         assert self.action_space.contains(
             action
-- 
2.43.0


From 1ed432e6214323a4bb0e0beada8c8533c8ce7a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:28 +0000
Subject: [PATCH 12/74] fix: return independent derivative arrays from the
 system equation

All evaluations shared one array. Solvers that keep a derivative while evaluating
the next one (scipy.integrate.solve_ivp) integrated with overwritten values.
---
 src/gym_electric_motor/physical_systems/physical_systems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index d946a01..8257ebd 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -233,7 +233,7 @@ class SCMLSystem(PhysicalSystem, RandomComponent):
                 motor_state, u_in, state[self._omega_ode_idx]
             ).ravel()
 
-        return self._system_eq_placeholder
+        return self._system_eq_placeholder.copy()
 
     def _system_jacobian(self, t, state, u_in, **__):
         motor_state = state[self._motor_ode_idx]
-- 
2.43.0


From ebcdcdc7e16d4dc44a8c878022bbaff26fd1412d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 13/74] fix: evaluate the Euler sub-steps at their start times

With nsteps > 1 the system equation was evaluated one full step too late.
---
 src/gym_electric_motor/physical_systems/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/solvers.py b/src/gym_electric_motor/physical_systems/solvers.py
index 31748df..88a863a 100644
--- a/src/gym_electric_motor/physical_systems/solvers.py
+++ b/src/gym_electric_motor/physical_systems/solvers.py
@@ -112,9 +112,9 @@ class EulerSolver(OdeSolver):
         """
         tau = (t - self._t) / self._nsteps
         state = self._y
-        current_t = t
+        current_t = self._t
         for _ in range(self._nsteps):
-            delta = self._system_equation(current_t + tau, state, *self._f_params) * tau
+            delta = self._system_equation(current_t, state, *self._f_params) * tau
             state = state + delta
             current_t += tau
         self._y = state
-- 
2.43.0


From e2f1db208ce668d4c7cad639533a9d24b5e99db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:33 +0000
Subject: [PATCH 14/74] fix: draw the AC supplies' random phase from a seeded
 generator

The phase came from the global random state, so seeding an environment did not
make it reproducible, and the drawn phase was written into the user's parameter
dictionary (fixing the phase of the next supply built with it).
---
 .../physical_systems/voltage_supplies.py      | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/voltage_supplies.py b/src/gym_electric_motor/physical_systems/voltage_supplies.py
index 9dcba41..0f0bf03 100644
--- a/src/gym_electric_motor/physical_systems/voltage_supplies.py
+++ b/src/gym_electric_motor/physical_systems/voltage_supplies.py
@@ -3,6 +3,7 @@ import warnings
 import numpy as np
 
 from gym_electric_motor.physical_systems.solvers import EulerSolver
+from gym_electric_motor.random_component import RandomComponent
 
 
 class VoltageSupply:
@@ -123,7 +124,7 @@ class RCVoltageSupply(VoltageSupply):
         return self._u_sup
 
 
-class AC1PhaseSupply(VoltageSupply):
+class AC1PhaseSupply(VoltageSupply, RandomComponent):
     """AC one phase voltage supply"""
 
     def __init__(self, u_nominal=230, supply_parameter=None):
@@ -133,7 +134,8 @@ class AC1PhaseSupply(VoltageSupply):
             supply_parameter(dict): Consists of frequency f in Hz and phase phi in range of [0,2*pi) in case you wish for a fixed phase
         """
 
-        super().__init__(u_nominal)
+        VoltageSupply.__init__(self, u_nominal)
+        RandomComponent.__init__(self)
 
         self._fixed_phi = False
         if supply_parameter is not None:
@@ -146,9 +148,9 @@ class AC1PhaseSupply(VoltageSupply):
                 self._fixed_phi = True
                 supply_parameter = supply_parameter
             else:
-                supply_parameter["phase"] = np.random.rand() * 2 * np.pi
+                supply_parameter = dict(supply_parameter, phase=self.random_generator.random() * 2 * np.pi)
         else:
-            supply_parameter = {"frequency": 50, "phase": np.random.rand() * 2 * np.pi}
+            supply_parameter = {"frequency": 50, "phase": self.random_generator.random() * 2 * np.pi}
 
         self._f = supply_parameter["frequency"]
         self._phi = supply_parameter["phase"]
@@ -156,8 +158,9 @@ class AC1PhaseSupply(VoltageSupply):
         self.supply_range = [-1 * self._max_amp, self._max_amp]
 
     def reset(self):
+        self.next_generator()
         if not self._fixed_phi:
-            self._phi = np.random.rand() * 2 * np.pi
+            self._phi = self.random_generator.random() * 2 * np.pi
         return self.get_voltage(0)
 
     def get_voltage(self, t, *_, **__):
@@ -166,7 +169,7 @@ class AC1PhaseSupply(VoltageSupply):
         return self._u_sup
 
 
-class AC3PhaseSupply(VoltageSupply):
+class AC3PhaseSupply(VoltageSupply, RandomComponent):
     """AC three phase voltage supply"""
 
     voltage_len = 3
@@ -178,7 +181,8 @@ class AC3PhaseSupply(VoltageSupply):
             supply_parameter(dict): Consists of frequency f in Hz and phase phi in range of [0,2*pi) in case you wish for a fixed phase
         """
 
-        super().__init__(u_nominal)
+        VoltageSupply.__init__(self, u_nominal)
+        RandomComponent.__init__(self)
         self._fixed_phi = False
         if supply_parameter is not None:
             assert isinstance(supply_parameter, dict), "supply_parameter should be a dict"
@@ -190,9 +194,9 @@ class AC3PhaseSupply(VoltageSupply):
                 self._fixed_phi = True
                 supply_parameter = supply_parameter
             else:
-                supply_parameter["phase"] = np.random.rand() * 2 * np.pi
+                supply_parameter = dict(supply_parameter, phase=self.random_generator.random() * 2 * np.pi)
         else:
-            supply_parameter = {"frequency": 50, "phase": np.random.rand() * 2 * np.pi}
+            supply_parameter = {"frequency": 50, "phase": self.random_generator.random() * 2 * np.pi}
 
         self._f = supply_parameter["frequency"]
         self._phi = supply_parameter["phase"]
@@ -201,8 +205,9 @@ class AC3PhaseSupply(VoltageSupply):
 
     def reset(self):
         # Docstring of superclass
+        self.next_generator()
         if not self._fixed_phi:
-            self._phi = np.random.rand() * 2 * np.pi
+            self._phi = self.random_generator.random() * 2 * np.pi
         return self.get_voltage(0)
 
     def get_voltage(self, t, *_, **__):
-- 
2.43.0


From 02ef3fab0d8918de657affaa869ccc76083eeefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:30 +0000
Subject: [PATCH 15/74] fix: keep the default and the user's load initializers
 untouched

The initial states of a load aliased the nested dictionary of its class's
default initializer (or of the one passed by the user), so a random
initialization or ConstantSpeedLoad(omega_fixed=...) changed the initial
states of all other loads.
---
 .../physical_systems/mechanical_loads/mechanical_load.py    | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
index d158070..09f7938 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
@@ -1,3 +1,4 @@
+import copy
 import warnings
 
 import numpy as np
@@ -93,8 +94,9 @@ class MechanicalLoad(RandomComponent):
         self._limits = {}
         self._nominal_values = {}
         load_initializer = load_initializer or {}
-        self._initializer = self._default_initializer.copy()
-        self._initializer.update(load_initializer)
+        # deep copies, because the initial states are written at every initialization
+        self._initializer = copy.deepcopy(self._default_initializer)
+        self._initializer.update(copy.deepcopy(load_initializer))
         self._initial_states = self._initializer.get("states", {state: 0.0 for state in self._state_names})
 
     def initialize(self, state_space, state_positions, nominal_state, **__):
-- 
2.43.0


From 0836c72518f1b42a8d46038acc60dc9863aa7b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 16/74] fix: do not accumulate the rotor inertia of a load used
 in several systems

---
 .../physical_systems/mechanical_loads/mechanical_load.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
index 09f7938..828c0db 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
@@ -192,7 +192,7 @@ class MechanicalLoad(RandomComponent):
         Args:
             j_rotor(float): The moment of inertia of the rotor shaft of the motor.
         """
-        self._j_total += j_rotor
+        self._j_total = self._j_load + j_rotor
 
     def mechanical_ode(self, t, mechanical_state, torque):
         """
-- 
2.43.0


From 8e29581784289afe9a9294fc80ae1c0235148c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:56 +0000
Subject: [PATCH 17/74] fix: OrnsteinUhlenbeckLoad construction and use of its
 seeded generator

---
 .../mechanical_loads/ornstein_uhlenbeck_load.py           | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
index 18d0dca..61568a9 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
@@ -19,22 +19,22 @@ class OrnsteinUhlenbeckLoad(MechanicalLoad):
             kwargs(dict): further arguments passed to the superclass :py:class:`.MechanicalLoad`
         """
         super().__init__(**kwargs)
-        self._omega = np.random.uniform(self._omega_range[0], self._omega_range[1], 1)
+        self._omega_range = omega_range
+        self._omega = self.random_generator.uniform(self._omega_range[0], self._omega_range[1], 1)
         self.theta = theta
         self.mu = mu
         self.tau = tau
         self.sigma = sigma
-        self._omega_range = omega_range
 
     def mechanical_ode(self, t, mechanical_state, torque):
         omega = mechanical_state
         max_diff = (self._omega_range[1] - omega) / self.tau
         min_diff = (self._omega_range[0] - omega) / self.tau
-        diff = self.theta * (self.mu - omega) * self.tau + self.sigma * np.sqrt(self.tau) * np.random.normal(size=1)
+        diff = self.theta * (self.mu - omega) * self.tau + self.sigma * np.sqrt(self.tau) * self.random_generator.normal(size=1)
         np.clip(diff, min_diff, max_diff, out=diff)
         return diff
 
     def reset(self, **kwargs):
         super().reset(**kwargs)
-        self._omega = np.random.uniform(self._omega_range[0], self._omega_range[1], 1)
+        self._omega = self.random_generator.uniform(self._omega_range[0], self._omega_range[1], 1)
         return self._omega
-- 
2.43.0


From 378f6de4ebb7b04c02a93e2db7bf8492034ac75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:12 +0000
Subject: [PATCH 18/74] fix: draw all initial states from the components'
 seeded generators

Induction motors drew the flux angle from numpy's global random state, their
flux limits depended on the random currents of the previous episode, truncated
normal initializations repeated the same value in every episode, and
synchronous and induction motors did not switch to the episode's generator.
---
 .../electric_motors/doubly_fed_induction_motor.py             | 2 +-
 .../physical_systems/electric_motors/electric_motor.py        | 2 +-
 .../physical_systems/electric_motors/induction_motor.py       | 4 ++++
 .../electric_motors/squirrel_cage_induction_motor.py          | 2 +-
 .../physical_systems/electric_motors/synchronous_motor.py     | 1 +
 .../physical_systems/mechanical_loads/mechanical_load.py      | 2 +-
 6 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
index 1eebccc..bc83a0b 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
@@ -154,7 +154,7 @@ class DoublyFedInductionMotor(InductionMotor):
     def _update_initial_limits(self, nominal_new={}, omega=None):
         # Docstring of superclass
         # draw a sample magnetic field angle from [-pi,pi]
-        eps_mag = 2 * np.pi * np.random.random_sample() - np.pi
+        eps_mag = 2 * np.pi * self.random_generator.random() - np.pi
         flux_alphabeta_limits = self._flux_limit(
             omega=omega,
             eps_mag=eps_mag,
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index e3ad6d8..62aa0fe 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -247,7 +247,7 @@ class ElectricMotor(RandomComponent):
                     loc=mue,
                     scale=sigma,
                     size=(len(self._initial_states.keys())),
-                    random_state=self.seed_sequence.pool[0],
+                    random_state=self.random_generator,
                 )
                 # writing initial values in initial_states dict
                 random_states = {state: initial_value[idx] for idx, state in enumerate(self._initial_states.keys())}
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
index 843cce8..7dd20ba 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
@@ -177,7 +177,11 @@ class InductionMotor(ThreePhaseMotor):
 
     def reset(self, state_space, state_positions, omega=None):
         # Docstring of superclass
+        self.next_generator()
         if self._initializer and self._initializer["states"]:
+            # the flux limits depend on the configured currents and not on those of the last episode
+            self._initial_states.update(self._default_initializer["states"])
+            self._initial_states.update(self._initializer["states"])
             self._update_initial_limits(omega=omega)
             self.initialize(state_space, state_positions)
             return np.asarray(list(self._initial_states.values()))
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
index 7730357..a120898 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
@@ -146,7 +146,7 @@ class SquirrelCageInductionMotor(InductionMotor):
     def _update_initial_limits(self, nominal_new={}, omega=None):
         # Docstring of superclass
         # draw a sample magnetic field angle from [-pi,pi]
-        eps_mag = 2 * np.pi * np.random.random_sample() - np.pi
+        eps_mag = 2 * np.pi * self.random_generator.random() - np.pi
         flux_alphabeta_limits = self._flux_limit(omega=omega, eps_mag=eps_mag, u_q_max=self._nominal_values["u_sq"])
         # using absolute value, because limits should describe upper limit
         # after abs-operator, norm of alphabeta flux still equal to
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
index f6b25d1..cfb03a4 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
@@ -124,6 +124,7 @@ class SynchronousMotor(ThreePhaseMotor):
 
     def reset(self, state_space, state_positions, **__):
         # Docstring of superclass
+        self.next_generator()
         if self._initializer and self._initializer["states"]:
             self.initialize(state_space, state_positions)
             return np.asarray(list(self._initial_states.values()))
diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
index 828c0db..10e28bc 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
@@ -150,7 +150,7 @@ class MechanicalLoad(RandomComponent):
                     loc=mue,
                     scale=sigma,
                     size=(len(self._initial_states.keys())),
-                    random_state=self.seed_sequence.pool[0],
+                    random_state=self.random_generator,
                 )
                 random_states = {state: initial_value[idx] for idx, state in enumerate(self._initial_states.keys())}
                 self._initial_states.update(random_states)
-- 
2.43.0


From 60b55588679486843fc222a123310d7fe01f39ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 19/74] fix: return initial motor states in the order of the
 ODE states

The PMSM, SynRM and EESM default initializers list i_sq before i_sd, so that
e.g. {'states': {'i_sd': -10, 'i_sq': 20}} depended on the order of the
dictionary and a partial dictionary exchanged the components.
---
 .../electric_motors/electric_motor.py                 | 11 ++++++++++-
 .../externally_excited_synchronous_motor.py           |  2 +-
 .../electric_motors/induction_motor.py                |  2 +-
 .../permanent_magnet_synchronous_motor.py             |  2 +-
 .../electric_motors/synchronous_motor.py              |  2 +-
 .../electric_motors/synchronous_reluctance_motor.py   |  2 +-
 6 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index 62aa0fe..5ce2978 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -280,10 +280,19 @@ class ElectricMotor(RandomComponent):
         self.next_generator()
         if self._initializer and self._initializer["states"]:
             self.initialize(state_space, state_positions)
-            return np.asarray(list(self._initial_states.values()))
+            return self._initial_ode_state()
         else:
             return np.zeros(len(self.CURRENTS))
 
+    def _initial_ode_state(self):
+        """
+        Returns:
+            numpy.ndarray(float): The initial states in the order of the motors ODE states, whatever their order in the
+                initializer is.
+        """
+        ode_states = list(self.CURRENTS) + list(getattr(self, "FLUXES", [])) + ["epsilon"]
+        return np.asarray([self._initial_states[state] for state in ode_states if state in self._initial_states])
+
     def i_in(self, state):
         """
         Args:
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/externally_excited_synchronous_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/externally_excited_synchronous_motor.py
index 2095779..6866aaa 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/externally_excited_synchronous_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/externally_excited_synchronous_motor.py
@@ -113,7 +113,7 @@ class ExternallyExcitedSynchronousMotor(SynchronousMotor):
     _default_limits = dict(omega=12e3 * np.pi / 30, torque=0.0, i=150, i_e=150, epsilon=math.pi, u=320)
     _default_nominal_values = dict(omega=4.3e3 * np.pi / 30, torque=0.0, i=120, i_e=150, epsilon=math.pi, u=320)
     _default_initializer = {
-        "states": {"i_sq": 0.0, "i_sd": 0.0, "i_e": 0.0, "epsilon": 0.0},
+        "states": {"i_sd": 0.0, "i_sq": 0.0, "i_e": 0.0, "epsilon": 0.0},
         "interval": None,
         "random_init": None,
         "random_params": (None, None),
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
index 7dd20ba..efe14ff 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
@@ -184,7 +184,7 @@ class InductionMotor(ThreePhaseMotor):
             self._initial_states.update(self._initializer["states"])
             self._update_initial_limits(omega=omega)
             self.initialize(state_space, state_positions)
-            return np.asarray(list(self._initial_states.values()))
+            return self._initial_ode_state()
         else:
             return np.zeros(len(self.CURRENTS) + len(self.FLUXES) + 1)
 
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py
index c2e098f..e1c5004 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py
@@ -95,7 +95,7 @@ class PermanentMagnetSynchronousMotor(SynchronousMotor):
     _default_limits = dict(omega=4e3 * np.pi / 30, torque=0.0, i=400, epsilon=math.pi, u=300)
     _default_nominal_values = dict(omega=3e3 * np.pi / 30, torque=0.0, i=240, epsilon=math.pi, u=300)
     _default_initializer = {
-        "states": {"i_sq": 0.0, "i_sd": 0.0, "epsilon": 0.0},
+        "states": {"i_sd": 0.0, "i_sq": 0.0, "epsilon": 0.0},
         "interval": None,
         "random_init": None,
         "random_params": (None, None),
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
index cfb03a4..dad2b3b 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
@@ -127,7 +127,7 @@ class SynchronousMotor(ThreePhaseMotor):
         self.next_generator()
         if self._initializer and self._initializer["states"]:
             self.initialize(state_space, state_positions)
-            return np.asarray(list(self._initial_states.values()))
+            return self._initial_ode_state()
         else:
             return np.zeros(len(self.CURRENTS) + 1)
 
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_reluctance_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_reluctance_motor.py
index 603b953..9e1a1aa 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_reluctance_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_reluctance_motor.py
@@ -105,7 +105,7 @@ class SynchronousReluctanceMotor(SynchronousMotor):
         "u": 80,
     }
     _default_initializer = {
-        "states": {"i_sq": 0.0, "i_sd": 0.0, "epsilon": 0.0},
+        "states": {"i_sd": 0.0, "i_sq": 0.0, "epsilon": 0.0},
         "interval": None,
         "random_init": None,
         "random_params": (None, None),
-- 
2.43.0


From 42e1691867e4b01959dc352058f989839789668a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:10 +0000
Subject: [PATCH 20/74] fix: a DFIM instance must not extend the IO lists of
 all induction motors

---
 .../electric_motors/doubly_fed_induction_motor.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
index bc83a0b..7bd06d8 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
@@ -128,8 +128,8 @@ class DoublyFedInductionMotor(InductionMotor):
     }
 
     def __init__(self, **kwargs):
-        self.IO_VOLTAGES += self.IO_ROTOR_VOLTAGES
-        self.IO_CURRENTS += self.IO_ROTOR_CURRENTS
+        self.IO_VOLTAGES = self.IO_VOLTAGES + self.IO_ROTOR_VOLTAGES
+        self.IO_CURRENTS = self.IO_CURRENTS + self.IO_ROTOR_CURRENTS
         super().__init__(**kwargs)
 
     def _update_limits(self, limit_values={}, nominal_values={}):
-- 
2.43.0


From 9b01d354d52d5d623617e267b23c6a068a91517d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:03 +0000
Subject: [PATCH 21/74] fix: torque limit of PMSM with l_d > l_q and SynRM with
 l_d < l_q

The PMSM took the wrong root of the maximum-torque condition and the SynRM the
wrong sign of i_d, both giving negative torque limits.
---
 .../electric_motors/permanent_magnet_synchronous_motor.py    | 5 ++++-
 .../electric_motors/synchronous_reluctance_motor.py          | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py
index e1c5004..fb6f991 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py
@@ -127,7 +127,10 @@ class PermanentMagnetSynchronousMotor(SynchronousMotor):
             i_n = self.nominal_values["i"]
             _p = mp["psi_p"] / (2 * (mp["l_d"] - mp["l_q"]))
             _q = -(i_n**2) / 2
-            i_d_opt = -_p / 2 - np.sqrt((_p / 2) ** 2 - _q)
+            if mp["l_d"] < mp["l_q"]:
+                i_d_opt = -_p / 2 - np.sqrt((_p / 2) ** 2 - _q)
+            else:
+                i_d_opt = -_p / 2 + np.sqrt((_p / 2) ** 2 - _q)
             i_q_opt = np.sqrt(i_n**2 - i_d_opt**2)
             return self.torque([i_d_opt, i_q_opt, 0])
 
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_reluctance_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_reluctance_motor.py
index 9e1a1aa..d019794 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_reluctance_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_reluctance_motor.py
@@ -131,7 +131,7 @@ class SynchronousReluctanceMotor(SynchronousMotor):
 
     def _torque_limit(self):
         # Docstring of superclass
-        return self.torque([self._limits["i_sd"] / np.sqrt(2), self._limits["i_sq"] / np.sqrt(2), 0])
+        return abs(self.torque([self._limits["i_sd"] / np.sqrt(2), self._limits["i_sq"] / np.sqrt(2), 0]))
 
     def torque(self, currents):
         # Docstring of superclass
-- 
2.43.0


From d86f67edfd3b59da903bcf558d59da2bd39a35f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:41 +0000
Subject: [PATCH 22/74] fix: product merge of the constraint violations

---
 src/gym_electric_motor/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 47b5f2a..135b719 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -814,7 +814,7 @@ class ConstraintMonitor:
             self._merge_violations = max
         elif merge_violations == "product":
 
-            def product_merge(*violation_degrees):
+            def product_merge(violation_degrees):
                 return 1 - np.prod([(1 - violation) for violation in violation_degrees])
 
             self._merge_violations = product_merge
-- 
2.43.0


From a0448ab5b8f9cc2e95834a7fefa1f4acb4e11884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:41 +0000
Subject: [PATCH 23/74] fix: monitor plain functions in the environment's list
 of constraints

---
 src/gym_electric_motor/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 135b719..51a1935 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -258,7 +258,7 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
             cm = constraints
         else:
             limit_constraints = [constraint for constraint in constraints if isinstance(constraint, str)]
-            additional_constraints = [constraint for constraint in constraints if isinstance(constraint, Constraint)]
+            additional_constraints = [constraint for constraint in constraints if not isinstance(constraint, str)]
             cm = ConstraintMonitor(limit_constraints, additional_constraints)
         self._constraint_monitor = cm
 
-- 
2.43.0


From eee139f7998c30e66d0f4f8df9b5230124dbf032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:00 +0000
Subject: [PATCH 24/74] fix: reference names of the constant reference
 generator are a list

---
 .../reference_generators/const_reference_generator.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/reference_generators/const_reference_generator.py b/src/gym_electric_motor/reference_generators/const_reference_generator.py
index 82cd42a..c2f8f84 100644
--- a/src/gym_electric_motor/reference_generators/const_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/const_reference_generator.py
@@ -21,7 +21,7 @@ class ConstReferenceGenerator(ReferenceGenerator):
         self._reference_value = reference_value
         self._reference_state = reference_state.lower()
         self.reference_space = Box(np.array([reference_value]), np.array([reference_value]), dtype=np.float64)
-        self._reference_names = self._reference_state
+        self._reference_names = [self._reference_state]
 
     def set_modules(self, physical_system):
         # docstring from superclass
-- 
2.43.0


From af0e227c8e7726e9427fa085dba7a767877e9577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:00 +0000
Subject: [PATCH 25/74] fix: initial reference of the Wiener process stays in
 the limit margin

---
 .../reference_generators/wiener_process_reference_generator.py   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py b/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
index 1e5aa1e..a35aefb 100644
--- a/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
@@ -26,6 +26,7 @@ class WienerProcessReferenceGenerator(SubepisodedReferenceGenerator):
         super().set_modules(physical_system)
         if self._initial_range is None:
             self._initial_range = self._limit_margin
+        self._initial_range = np.clip(self._initial_range, self._limit_margin[0], self._limit_margin[1])
 
     def _reset_reference(self):
         self._current_sigma = 10 ** self._get_current_value(np.log10(self._sigma_range))
-- 
2.43.0


From 4c9622412937fc6cb2caa107aee56514f188bb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 26/74] fix: offset range of the periodic references uses the
 lower limit margin

---
 .../reference_generators/sawtooth_reference_generator.py        | 2 +-
 .../reference_generators/sinusoidal_reference_generator.py      | 2 +-
 .../reference_generators/triangle_reference_generator.py        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py b/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py
index 0a6856a..a7740d1 100644
--- a/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py
@@ -44,7 +44,7 @@ class SawtoothReferenceGenerator(SubepisodedReferenceGenerator):
         self._frequency = self._get_current_value(self._frequency_range)
         offset_range = np.clip(
             self._offset_range,
-            -self._limit_margin[1] + self._amplitude,
+            self._limit_margin[0] + self._amplitude,
             self._limit_margin[1] - self._amplitude,
         )
         self._offset = self._get_current_value(offset_range)
diff --git a/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py b/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py
index 10afba4..ce309ca 100644
--- a/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py
@@ -47,7 +47,7 @@ class SinusoidalReferenceGenerator(SubepisodedReferenceGenerator):
         self._frequency = self._get_current_value(self._frequency_range)
         offset_range = np.clip(
             self._offset_range,
-            -self._limit_margin[1] + self._amplitude,
+            self._limit_margin[0] + self._amplitude,
             self._limit_margin[1] - self._amplitude,
         )
         self._offset = self._get_current_value(offset_range)
diff --git a/src/gym_electric_motor/reference_generators/triangle_reference_generator.py b/src/gym_electric_motor/reference_generators/triangle_reference_generator.py
index 32fb3b3..98181d4 100644
--- a/src/gym_electric_motor/reference_generators/triangle_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/triangle_reference_generator.py
@@ -50,7 +50,7 @@ class TriangularReferenceGenerator(SubepisodedReferenceGenerator):
         self._frequency = self._get_current_value(self._frequency_range)
         offset_range = np.clip(
             self._offset_range,
-            -self._limit_margin[1] + self._amplitude,
+            self._limit_margin[0] + self._amplitude,
             self._limit_margin[1] - self._amplitude,
         )
         self._offset = self._get_current_value(offset_range)
-- 
2.43.0


From 01f8cc22f6ffe059b74c0cd2d371acd41de76d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 27/74] fix: count the reset reference in the first super
 episode of the switched generator

---
 .../reference_generators/switched_reference_generator.py         | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gym_electric_motor/reference_generators/switched_reference_generator.py b/src/gym_electric_motor/reference_generators/switched_reference_generator.py
index bb6d585..6a0671b 100644
--- a/src/gym_electric_motor/reference_generators/switched_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/switched_reference_generator.py
@@ -65,6 +65,7 @@ class SwitchedReferenceGenerator(ReferenceGenerator, RandomComponent):
     def reset(self, initial_state=None, initial_reference=None):
         self.next_generator()
         self._reset_reference()
+        self._k = 1
         return self._current_ref_generator.reset(initial_state, initial_reference)
 
     def get_reference(self, state, **kwargs):
-- 
2.43.0


From 0df34fa7da2be8bac0858dec021ad534c41655f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 28/74] fix: pass the keyword arguments of the multiple
 reference generator to its sub generators only

---
 .../reference_generators/multiple_reference_generator.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/reference_generators/multiple_reference_generator.py b/src/gym_electric_motor/reference_generators/multiple_reference_generator.py
index b0d9d01..e55c3dd 100644
--- a/src/gym_electric_motor/reference_generators/multiple_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/multiple_reference_generator.py
@@ -18,7 +18,7 @@ class MultipleReferenceGenerator(ReferenceGenerator, RandomComponent):
                 will be passed to each sub_generator.
             kwargs: All kwargs of the environment. Passed to the sub_generators, if no sub_args are passed.
         """
-        ReferenceGenerator.__init__(self, **kwargs)
+        ReferenceGenerator.__init__(self)
         RandomComponent.__init__(self)
         self.reference_space = Box(-1, 1, shape=(1,), dtype=np.float64)
         if isinstance(sub_args, dict):
-- 
2.43.0


From f995afaab524207131c9fc35cf21cc09f4ce32fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:49 +0000
Subject: [PATCH 29/74] fix: keep the seeded random generators when the
 environment is reset without a seed

---
 src/gym_electric_motor/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 51a1935..818aefa 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -306,7 +306,8 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
              info(dict): Auxiliary information (optional)
         """
 
-        self._seed(seed)
+        if seed is not None:
+            self._seed(seed)
         self._call_callbacks("on_reset_begin")
         self._terminated = False
         state = self._physical_system.reset()
-- 
2.43.0


From cdd5d396b85d54e304286fc53325b65d13b6a3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:57 +0000
Subject: [PATCH 30/74] fix: draw the initial Wiener reference from the
 generator of the new episode

---
 .../reference_generators/wiener_process_reference_generator.py   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py b/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
index a35aefb..fea1f60 100644
--- a/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
@@ -42,6 +42,7 @@ class WienerProcessReferenceGenerator(SubepisodedReferenceGenerator):
             self._reference[i] = reference_value
 
     def reset(self, initial_state=None, initial_reference=None):
+        self.next_generator()
         if initial_reference is None:
             initial_reference = np.zeros_like(self._referenced_states, dtype=float)
             initial_reference[self._referenced_states] = self.random_generator.uniform(
-- 
2.43.0


From 70c6289d1a6bc0de08d7508d686359a65ade4613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:05 +0000
Subject: [PATCH 31/74] fix: seed the physical system wrappers themselves

---
 .../physical_system_wrappers/physical_system_wrapper.py        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py b/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
index bb4332c..8cdab5b 100644
--- a/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
+++ b/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
@@ -107,8 +107,9 @@ class PhysicalSystemWrapper(gem.core.PhysicalSystem, RandomComponent):
 
     def seed(self, seed=None):
         # docstring of super class RandomComponent
+        RandomComponent.seed(self, seed)
         if isinstance(self._physical_system, RandomComponent):
-            self._physical_system.seed(seed)
+            self._physical_system.seed(self._seed_sequence.spawn(1)[0])
 
     def __getattr__(self, name):
         return getattr(self._physical_system, name)
-- 
2.43.0


From 46b2290aa4aa405e3ac71f013097bb4ff6c48378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:53 +0000
Subject: [PATCH 32/74] fix: remove the angle from the state of the
 CosSinProcessor also at a reset

---
 .../physical_system_wrappers/cos_sin_processor.py             | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/cos_sin_processor.py b/src/gym_electric_motor/physical_system_wrappers/cos_sin_processor.py
index ec875f3..03474ab 100644
--- a/src/gym_electric_motor/physical_system_wrappers/cos_sin_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/cos_sin_processor.py
@@ -51,7 +51,9 @@ class CosSinProcessor(PhysicalSystemWrapper):
 
     def reset(self):
         # Docstring of super class
-        state = self._physical_system.reset()
+        state = super().reset()
+        if self._remove_angle:
+            return self._delete_angle(self._get_cos_sin(state))
         return self._get_cos_sin(state)
 
     def simulate(self, action):
-- 
2.43.0


From e5c7e49d7ba0d780bcb3b58fe9c99019faf90753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:06 +0000
Subject: [PATCH 33/74] fix: the StateNoiseProcessor accepts the documented
 shortcut 'all'

---
 .../physical_system_wrappers/state_noise_processor.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py b/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py
index 76d8663..1090057 100644
--- a/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py
@@ -65,7 +65,8 @@ class StateNoiseProcessor(PhysicalSystemWrapper):
     def set_physical_system(self, physical_system):
         # Docstring from super class
         super().set_physical_system(physical_system)
-        self._state_indices = [physical_system.state_positions[state_name] for state_name in self._states]
+        states = physical_system.state_names if isinstance(self._states, str) and self._states == "all" else self._states
+        self._state_indices = [physical_system.state_positions[state_name] for state_name in states]
         return self
 
     def reset(self):
-- 
2.43.0


From 40551c41d5ef129f20364a633e4ea320e16b1376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:15 +0000
Subject: [PATCH 34/74] fix: valid default reset action of the
 DeadTimeProcessor for MultiDiscrete action spaces

---
 .../physical_system_wrappers/dead_time_processor.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
index 44c7090..302a37f 100644
--- a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
@@ -49,7 +49,7 @@ class DeadTimeProcessor(PhysicalSystemWrapper):
             if isinstance(action_space, gymnasium.spaces.Discrete):
                 reset_action = 0
             elif isinstance(action_space, gymnasium.spaces.MultiDiscrete):
-                reset_action = [np.zeros_like(action_space.nvec)]
+                reset_action = np.zeros_like(action_space.nvec)
             elif isinstance(action_space, gymnasium.spaces.Box):
                 reset_action = np.zeros(action_space.shape, dtype=np.float64)
             else:
-- 
2.43.0


From 60a000240c29238b251cc3e8aba7156e3497e31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:22 +0000
Subject: [PATCH 35/74] fix: a delayed action does not change when the caller
 reuses its action array

---
 .../physical_system_wrappers/dead_time_processor.py            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
index 302a37f..1f4f1df 100644
--- a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
@@ -81,5 +81,6 @@ class DeadTimeProcessor(PhysicalSystemWrapper):
             numpy.ndarray[float]: The next state of the system.
         """
         active_action = self._action_deque.pop()
-        self._action_deque.appendleft(action)
+        # Save a copy because the caller might reuse its array before the action becomes active
+        self._action_deque.appendleft(np.copy(action) if isinstance(action, np.ndarray) else action)
         return self._physical_system.simulate(active_action)
-- 
2.43.0


From 62ce3eb33cf9625dfc63fab68cc0217d9e954ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:11 +0000
Subject: [PATCH 36/74] fix: default reset action of the DeadTimeProcessor fits
 the action space of its present system

---
 .../physical_system_wrappers/dead_time_processor.py          | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
index 1f4f1df..256b7cc 100644
--- a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
@@ -32,6 +32,7 @@ class DeadTimeProcessor(PhysicalSystemWrapper):
         physical_system(PhysicalSystem (optional)): The inner physical system of this PhysicalSystemWrapper.
         """
         self._reset_actions = reset_action
+        self._use_default_reset_actions = reset_action is None
         self._steps = int(steps)
         assert self._steps > 0, f'The number of steps has to be greater than 0. A "{steps}" has been passed.'
         self._action_deque = deque(maxlen=steps)
@@ -44,14 +45,14 @@ class DeadTimeProcessor(PhysicalSystemWrapper):
             physical_system(PhysicalSystem): The physical system to be set.
         """
         super().set_physical_system(physical_system)
-        if self._reset_actions is None:
+        if self._use_default_reset_actions:
             action_space = physical_system.action_space
             if isinstance(action_space, gymnasium.spaces.Discrete):
                 reset_action = 0
             elif isinstance(action_space, gymnasium.spaces.MultiDiscrete):
                 reset_action = np.zeros_like(action_space.nvec)
             elif isinstance(action_space, gymnasium.spaces.Box):
-                reset_action = np.zeros(action_space.shape, dtype=np.float64)
+                reset_action = np.zeros(action_space.shape, dtype=action_space.dtype)
             else:
                 raise AssertionError(
                     f"Action Space {action_space} of type {type(action_space)} unsupported."
-- 
2.43.0


From 5e6592274bcf2f2146673181a6d67e8291d623c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:04 +0000
Subject: [PATCH 37/74] fix: sum the currents of the CurrentSumProcessor in
 physical units before normalizing

---
 .../physical_system_wrappers/current_sum_processor.py      | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/current_sum_processor.py b/src/gym_electric_motor/physical_system_wrappers/current_sum_processor.py
index 7efc20d..119f088 100644
--- a/src/gym_electric_motor/physical_system_wrappers/current_sum_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/current_sum_processor.py
@@ -54,12 +54,13 @@ class CurrentSumProcessor(PhysicalSystemWrapper):
         return np.concatenate((state, [self._get_current_sum(state)]))
 
     def _get_current_sum(self, state):
-        """Calculates the sum of the currents from the state
+        """Calculates the sum of the currents from the state and normalizes it to the limit of ``i_sum``.
 
         Args:
             state(numpy.ndarray[float]): The state of the inner system.
 
         Returns:
-            float: The summation of the currents of the state.
+            float: The normalized summation of the currents of the state.
         """
-        return np.sum(state[self._current_indices])
+        current_limits = self._physical_system.limits[self._current_indices]
+        return np.sum(state[self._current_indices] * current_limits) / self._limits[-1]
-- 
2.43.0


From e6a09e9ec895eafb9d39d6c0346319d0d92b3974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:48 +0000
Subject: [PATCH 38/74] fix: keep the flux angle position of a DFIM dq
 processor that is constructed with its system

---
 .../physical_system_wrappers/dq_to_abc_action_processor.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/dq_to_abc_action_processor.py b/src/gym_electric_motor/physical_system_wrappers/dq_to_abc_action_processor.py
index f6ef88a..b26495a 100644
--- a/src/gym_electric_motor/physical_system_wrappers/dq_to_abc_action_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/dq_to_abc_action_processor.py
@@ -120,9 +120,9 @@ class _DFIMDqToAbcActionProcessor(DqToAbcActionProcessor):
         return gymnasium.spaces.Box(-1, 1, shape=(4,))
 
     def __init__(self, physical_system=None):
-        super().__init__('epsilon', physical_system=physical_system)
         self._flux_angle_name = 'psi_abs'
         self._flux_angle_index = None
+        super().__init__('epsilon', physical_system=physical_system)
 
     def simulate(self, action):
         """Dq to abc space transformation function for doubly fed induction motor environments.
-- 
2.43.0


From 8bbfc1d6453d4dac5a0a844cecb3c4b80300fc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:54 +0000
Subject: [PATCH 39/74] fix: simulation data and workspace belong to one
 environment instance

---
 src/gym_electric_motor/core.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 818aefa..977c960 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -20,7 +20,7 @@ Each ElectricMotorEnvironment contains the five following modules:
 
 import datetime
 import os
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 
 import gymnasium
 import matplotlib
@@ -36,7 +36,7 @@ from .constraints import Constraint, LimitConstraint
 
 @dataclass
 class Workspace:
-    test = []
+    test: list = field(default_factory=list)
 
 
 @dataclass
@@ -107,8 +107,6 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
         The reward function can terminate an episode, if a physical limit of the motor has been violated.
     """
 
-    sim = SimulationEnvironment()
-    workspace = Workspace()
     env_id = None
     current_state = None
     current_reference = None
@@ -231,7 +229,8 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
             **kwargs: Arguments to be passed to the modules.
         """
 
-        self.sim.tau = physical_system.tau
+        self.sim = SimulationEnvironment(tau=physical_system.tau)
+        self.workspace = Workspace()
 
         # TODO physical_system etc should be initialized by the caller
         self._physical_system = physical_system(**kwargs) if isinstance(physical_system, type) else physical_system
-- 
2.43.0


From 44e09dc408e18bb522371840f06233cb69969a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:02 +0000
Subject: [PATCH 40/74] fix: initialize does not modify the passed default
 arguments

---
 src/gym_electric_motor/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/utils.py b/src/gym_electric_motor/utils.py
index c8457f8..14498a3 100644
--- a/src/gym_electric_motor/utils.py
+++ b/src/gym_electric_motor/utils.py
@@ -12,8 +12,7 @@ def initialize(base_class, arg, default_class, default_args):
     elif type(arg) is str:
         raise Exception("Deprecated in version 3.0.0")
     elif type(arg) is dict:
-        default_args.update(arg)
-        return default_class(**default_args)
+        return default_class(**{**default_args, **arg})
 
 
 def state_dict_to_state_array(state_dict, state_array, state_names):
-- 
2.43.0


From 21dac02b0c2bbd7a17174a02c26a1d092888353d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:41 +0000
Subject: [PATCH 41/74] fix: every converter has its own action space

---
 src/gym_electric_motor/physical_systems/converters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/converters.py b/src/gym_electric_motor/physical_systems/converters.py
index 8f5c87c..fbce476 100644
--- a/src/gym_electric_motor/physical_systems/converters.py
+++ b/src/gym_electric_motor/physical_systems/converters.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 from gymnasium.spaces import Box, Discrete, MultiDiscrete
 
@@ -37,6 +39,8 @@ class PowerElectronicConverter:
         :param tau: Discrete time step of the system in seconds
         :param interlocking_time: Interlocking time of the transistors in seconds
         """
+        # The class-level action space is not shared, because its random generator belongs to the environment.
+        self.action_space = copy.deepcopy(self.action_space)
         self._tau = tau
         self._interlocking_time = interlocking_time
         self._action_start_time = 0.0
-- 
2.43.0


From 5c7f73a4b6069b8860a70d59a4fe59d70f61baaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:07 +0000
Subject: [PATCH 42/74] fix: clip vector references by their length, not by its
 square

---
 .../stages/clipping_stages/combined_clipping_stage.py       | 6 ++++--
 .../stages/clipping_stages/squared_clipping_stage.py        | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py b/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
index 8396bc3..7f5ce6c 100644
--- a/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
+++ b/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
@@ -35,11 +35,13 @@ class CombinedClippingStage(ClippingStage):
 
     def __call__(self, state, reference):
         clipped = np.zeros(np.size(self._squared_clipped_states) + np.size(self._absolute_clipped_states))
-        relative_reference_length = np.sum((reference[self._squared_clipped_states] / self._limit_squred_clipping) ** 2)
+        relative_reference_length = np.sqrt(
+            np.sum((reference[self._squared_clipped_states] / self._limit_squred_clipping) ** 2)
+        )
         relative_maximum = 1 - self._margin
         clipped[self._squared_clipped_states] = (
             reference[self._squared_clipped_states]
-            if relative_reference_length < relative_maximum**2
+            if relative_reference_length <= relative_maximum
             else reference[self._squared_clipped_states] / relative_reference_length * relative_maximum
         )
 
diff --git a/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py b/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
index d7fede1..b4bab89 100644
--- a/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
+++ b/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
@@ -51,11 +51,11 @@ class SquaredClippingStage(ClippingStage):
             clipped_reference(np.ndarray): The reference of a controller stage clipped to the limit.
         """
 
-        relative_reference_length = np.sum((reference / self._limits) ** 2)
+        relative_reference_length = np.sqrt(np.sum((reference / self._limits) ** 2))
         relative_maximum = 1 - self._margin
         clipped = (
             reference
-            if relative_reference_length < relative_maximum**2
+            if relative_reference_length <= relative_maximum
             else reference / relative_reference_length * relative_maximum
         )
         self._clipping_difference = reference - clipped
-- 
2.43.0


From 3fe8d542f6804cd76d2a3445fc833993eb80cbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:30 +0000
Subject: [PATCH 43/74] fix: vector clipping stages apply the configured margin
 exactly once

---
 .../stages/clipping_stages/combined_clipping_stage.py           | 2 +-
 .../stages/clipping_stages/squared_clipping_stage.py            | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py b/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
index 7f5ce6c..827e336 100644
--- a/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
+++ b/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
@@ -84,7 +84,7 @@ class CombinedClippingStage(ClippingStage):
         state_space = env.observation_space[0]
         lower_action_limit = state_space.low[action_indices] * limits
         upper_action_limit = state_space.high[action_indices] * limits
-        self._limit_squred_clipping = limits[squared_clipped_state]
+        self._limit_squred_clipping = env.limits[action_indices][squared_clipped_state]
         self._action_range_absolute = (
             lower_action_limit[absoulte_clipped_states],
             upper_action_limit[absoulte_clipped_states],
diff --git a/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py b/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
index b4bab89..7ea52fb 100644
--- a/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
+++ b/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
@@ -81,6 +81,7 @@ class SquaredClippingStage(ClippingStage):
             state_names = ["torque"]
         state_indices = [env.state_names.index(state_name) for state_name in state_names]
         self._limits = env.limits[state_indices]
+        self._margin = margin
 
     def reset(self):
         """Reset the squared clipping stage"""
-- 
2.43.0


From 7c587f0f6c0eab98e41b17564c7c06ac97a873f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:39 +0000
Subject: [PATCH 44/74] fix: the torque controller can be tuned for vector
 clipped currents

---
 .../stages/clipping_stages/squared_clipping_stage.py            | 2 +-
 src/gem_controllers/torque_controller.py                        | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py b/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
index 7ea52fb..2c71407 100644
--- a/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
+++ b/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
@@ -26,7 +26,7 @@ class SquaredClippingStage(ClippingStage):
     @property
     def action_range(self):
         """Action range of the controller stage"""
-        return []
+        return -self._limits * (1 - self._margin), self._limits * (1 - self._margin)
 
     def __init__(self, control_task="CC"):
         """
diff --git a/src/gem_controllers/torque_controller.py b/src/gem_controllers/torque_controller.py
index c063cc8..c8aeea2 100644
--- a/src/gem_controllers/torque_controller.py
+++ b/src/gem_controllers/torque_controller.py
@@ -83,6 +83,7 @@ class TorqueController(gc.GemController):
         self._operation_point_selection = torque_to_current_stage
         if env_id is not None and torque_to_current_stage is None:
             self._operation_point_selection = gc.stages.torque_to_current_function[gc.utils.get_motor_type(env_id)]()
+        self._clipping_stage = clipping_stage
         self._current_controller = current_controller
         if env_id is not None and current_controller is None:
             self._current_controller = gc.PICurrentController(env, env_id)
-- 
2.43.0


From 4ac19d4c85d15f3dff9541538a9727907d2061a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:47 +0000
Subject: [PATCH 45/74] fix: the current controller returns the clipped voltage
 reference

---
 src/gem_controllers/pi_current_controller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gem_controllers/pi_current_controller.py b/src/gem_controllers/pi_current_controller.py
index b43e710..f9f8f8a 100644
--- a/src/gem_controllers/pi_current_controller.py
+++ b/src/gem_controllers/pi_current_controller.py
@@ -163,7 +163,8 @@ class PICurrentController(gc.CurrentController):
             voltage_reference = self._emf_feedforward(state, voltage_reference)
 
         # Clip the voltage inputs to the action space
-        self._voltage_reference = self._clipping_stage(state, voltage_reference)
+        voltage_reference = self._clipping_stage(state, voltage_reference)
+        self._voltage_reference = voltage_reference
 
         # Transform the voltages in the correct coordinate system
         if self._coordinate_transformation_required:
-- 
2.43.0


From ae47efeaa7155d88e52536d4a13b276211e66909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:22 +0000
Subject: [PATCH 46/74] fix: reset the last control error of the PID controller

---
 .../stages/base_controllers/pid_controller.py                | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gem_controllers/stages/base_controllers/pid_controller.py b/src/gem_controllers/stages/base_controllers/pid_controller.py
index f91f609..72d9f8d 100644
--- a/src/gem_controllers/stages/base_controllers/pid_controller.py
+++ b/src/gem_controllers/stages/base_controllers/pid_controller.py
@@ -42,6 +42,11 @@ class PIDController(PIController):
         self._last_error = current_error
         return pi_action + d_action
 
+    def reset(self):
+        """Reset the integrated values and the last error"""
+        super().reset()
+        self._last_error = np.zeros_like(self._d_gain, dtype=float)
+
     def _tune_current_controller(self, env, env_id, a=4):
         """Set the gains of the P-, I- and D-component for the current control.
 
-- 
2.43.0


From f219c702c9c7e978876c86f891c80b89ab7e5f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:31 +0000
Subject: [PATCH 47/74] fix: P, PID and three-point controllers can be tuned
 for every control task

---
 src/gem_controllers/parameter_reader.py                     | 6 ++++--
 src/gem_controllers/stages/base_controllers/p_controller.py | 5 +++--
 .../stages/base_controllers/pid_controller.py               | 2 +-
 .../stages/base_controllers/three_point_controller.py       | 6 +++---
 4 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/gem_controllers/parameter_reader.py b/src/gem_controllers/parameter_reader.py
index 7f4f626..9bfca39 100644
--- a/src/gem_controllers/parameter_reader.py
+++ b/src/gem_controllers/parameter_reader.py
@@ -180,8 +180,10 @@ tau_current_loop_reader = {
         ]
     ),
     "PermExDc": lambda env: np.array(
-        env.physical_system.electrical_motor.motor_parameter["l_a"]
-        / env.physical_system.electrical_motor.motor_parameter["r_a"]
+        [
+            env.physical_system.electrical_motor.motor_parameter["l_a"]
+            / env.physical_system.electrical_motor.motor_parameter["r_a"]
+        ]
     ),
     "PMSM": lambda env: np.array(
         [
diff --git a/src/gem_controllers/stages/base_controllers/p_controller.py b/src/gem_controllers/stages/base_controllers/p_controller.py
index 57d1f2b..b76b334 100644
--- a/src/gem_controllers/stages/base_controllers/p_controller.py
+++ b/src/gem_controllers/stages/base_controllers/p_controller.py
@@ -80,7 +80,7 @@ class PController(BaseController):
         """
         return self._control(state[self._state_indices], reference)
 
-    def tune(self, env, env_id, a=4):
+    def tune(self, env, env_id, a=4, t_n=None):
         """
         Tune the controller for the desired control task.
 
@@ -88,12 +88,13 @@ class PController(BaseController):
             env(ElectricMotorEnvironment): The GEM-Environment that the controller shall be created for.
             env_id(str): The corresponding environment-id to specify the concrete environment.
             a(float): Design parameter of the symmetrical optimum.
+            t_n(float): Time constant of the underlying controller stage.
         """
 
         if self._control_task == EBaseControllerTask.CurrentControl:
             self._tune_current_controller(env, env_id, a)
         elif self._control_task == EBaseControllerTask.SpeedControl:
-            self._tune_speed_controller(env, env_id, a)
+            self._tune_speed_controller(env, env_id, a, t_n)
         else:
             raise Exception(f"No Tuner available for control task{self._control_task}.")
 
diff --git a/src/gem_controllers/stages/base_controllers/pid_controller.py b/src/gem_controllers/stages/base_controllers/pid_controller.py
index 72d9f8d..4cabde3 100644
--- a/src/gem_controllers/stages/base_controllers/pid_controller.py
+++ b/src/gem_controllers/stages/base_controllers/pid_controller.py
@@ -69,5 +69,5 @@ class PIDController(PIController):
             t_n(float): Time constant of the underlying torque controller.
         """
 
-        super()._tune_speed_controller(env, env_id, a)
+        super()._tune_speed_controller(env, env_id, a, t_n)
         self.d_gain = self.p_gain * self.tau
diff --git a/src/gem_controllers/stages/base_controllers/three_point_controller.py b/src/gem_controllers/stages/base_controllers/three_point_controller.py
index e20f77d..0742a1f 100644
--- a/src/gem_controllers/stages/base_controllers/three_point_controller.py
+++ b/src/gem_controllers/stages/base_controllers/three_point_controller.py
@@ -93,7 +93,7 @@ class ThreePointController(BaseController):
         low_actions = referenced_states - self._hysteresis > reference
         return np.select([low_actions, high_actions], [self._low_action, self._high_action], default=self._idle_action)
 
-    def tune(self, env, env_id, **base_controller_kwargs):
+    def tune(self, env, env_id, *_, **base_controller_kwargs):
         """
         Tune a three point controller stage.
 
@@ -146,9 +146,9 @@ class ThreePointController(BaseController):
             _env_id(str): The corresponding environment-id to specify the concrete environment.
         """
 
-        torque_index = [env.state_names.index("reference")]
+        torque_index = [env.state_names.index("torque")]
         torque_limit = env.limits[torque_index]
-        self.referenced_state_indices = torque_index
+        self.referenced_state_indices = [env.state_names.index("omega")]
         action_range = (
             env.observation_space[0].low[torque_index] * torque_limit,
             env.observation_space[0].high[torque_index] * torque_limit,
-- 
2.43.0


From 584435c121aed73d67c969fc8026ed0d75fd3449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:39 +0000
Subject: [PATCH 48/74] fix: feed forward the induced voltage of PermEx and
 ExtEx DC motors

---
 src/gem_controllers/parameter_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/parameter_reader.py b/src/gem_controllers/parameter_reader.py
index 9bfca39..3b9f5dd 100644
--- a/src/gem_controllers/parameter_reader.py
+++ b/src/gem_controllers/parameter_reader.py
@@ -26,8 +26,8 @@ psi_reader = {
 p_reader = {
     "SeriesDc": lambda env: 1,
     "ShuntDc": lambda env: 1,
-    "ExtExDc": lambda env: 0,
-    "PermExDc": lambda env: 0,
+    "ExtExDc": lambda env: 1,
+    "PermExDc": lambda env: 1,
     "PMSM": lambda env: env.physical_system.electrical_motor.motor_parameter["p"],
     "SynRM": lambda env: env.physical_system.electrical_motor.motor_parameter["p"],
     "SCIM": lambda env: env.physical_system.electrical_motor.motor_parameter["p"],
-- 
2.43.0


From f1ba67fb2345df086f53bd6ee377192385896a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:48 +0000
Subject: [PATCH 49/74] fix: decouple induction machines with the electrical
 speed

---
 src/gem_controllers/stages/emf_feedforward_ind.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/emf_feedforward_ind.py b/src/gem_controllers/stages/emf_feedforward_ind.py
index 6b2c64b..f822b51 100644
--- a/src/gem_controllers/stages/emf_feedforward_ind.py
+++ b/src/gem_controllers/stages/emf_feedforward_ind.py
@@ -30,7 +30,7 @@ class EMFFeedforwardInd(EMFFeedforward):
         """
 
         # Calculate the stator angular velocity
-        omega_s = state[self.omega_idx] + self.r_r * self.l_m / self.l_r * state[self.i_sq_idx] / max(
+        omega_s = self.omega_el(state) + self.r_r * self.l_m / self.l_r * state[self.i_sq_idx] / max(
             np.abs(state[self.psi_abs_idx]), 1e-4
         ) * np.sign(state[self.psi_abs_idx])
 
@@ -38,7 +38,7 @@ class EMFFeedforwardInd(EMFFeedforward):
         action = (
             reference
             + omega_s * self.inductance * state[self.current_indices]
-            + np.array([-self.l_m * self.r_r / (self.l_r**2), state[self.omega_idx] * self.l_m / self.l_r])
+            + np.array([-self.l_m * self.r_r / (self.l_r**2), self.omega_el(state) * self.l_m / self.l_r])
             * state[self.psi_abs_idx]
         )
 
-- 
2.43.0


From 43cccfea93a99c51ca65c17120ac66d12d8954ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 50/74] fix: advance the electrical angle by the step size of
 the environment

---
 src/gem_controllers/stages/abc_transformation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gem_controllers/stages/abc_transformation.py b/src/gem_controllers/stages/abc_transformation.py
index 59d51ec..c942158 100644
--- a/src/gem_controllers/stages/abc_transformation.py
+++ b/src/gem_controllers/stages/abc_transformation.py
@@ -35,6 +35,7 @@ class AbcTransformation(Stage):
         super().__init__()
         self._tau = 1e-4
         self._advance_factor = 0.5
+        self._p = 1
         self.omega_idx = None
         self.angle_idx = None
         self._output_len = None
@@ -58,7 +59,7 @@ class AbcTransformation(Stage):
 
     def _angle_advance(self, state):
         """Multiply the advance factor with the speed and the sampling time to calculate the advance angle"""
-        return state[self.angle_idx] + self._advance_factor * self.tau * state[self.omega_idx]
+        return state[self.angle_idx] + self._advance_factor * self.tau * state[self.omega_idx] * self._p
 
     def tune(self, env, env_id, **_):
         """
@@ -73,9 +74,8 @@ class AbcTransformation(Stage):
         else:
             self.angle_idx = env.state_names.index("epsilon")
         self.omega_idx = env.state_names.index("omega")
-        if hasattr(env.physical_system.converter, "dead_time"):
-            self._advance_factor = 1.5 if env.physical_system.converter.dead_time else 0.5
-        else:
-            self._advance_factor = 0.5
+        self._p = env.physical_system.electrical_motor.motor_parameter["p"]
+        self.tau = env.physical_system.tau
+        self._advance_factor = 0.5 + getattr(env.physical_system, "dead_time", 0)
         action_type, _, motor_type = gc.utils.split_env_id(env_id)
         self._output_len = len(reader.get_output_voltages(motor_type, action_type))
-- 
2.43.0


From 5d9364a8299bb49efe94cbf168b8105c8d2ba8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:56 +0000
Subject: [PATCH 51/74] fix: limit the PermExDc current by the voltage left by
 the induced voltage

---
 .../stages/operation_point_selection/permex_dc_ops.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py b/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
index aaafc52..1bc9f3f 100644
--- a/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
@@ -71,7 +71,7 @@ class PermExDcOperationPointSelection(OperationPointSelection):
 
     def _max_current_per_speed(self, state):
         """Calculate the maximum current for a given speed."""
-        return self._voltage_limit / (self._resistance + self._magnetic_flux * abs(state[self._omega_index]))
+        return (self._voltage_limit - self._magnetic_flux * abs(state[self._omega_index])) / self._resistance
 
     def tune(self, env, env_id, current_safety_margin=0.2):
         """
@@ -85,6 +85,7 @@ class PermExDcOperationPointSelection(OperationPointSelection):
         super().tune(env, env_id, current_safety_margin=current_safety_margin)
         motor = gc.utils.get_motor_type(env_id)
         self._magnetic_flux = reader.psi_reader[motor](env)
+        self._resistance = reader.r_reader[motor](env)
         voltages = reader.voltages[motor]
         voltage_indices = [env.state_names.index(voltage) for voltage in voltages]
         self._voltage_limit = env.limits[voltage_indices]
-- 
2.43.0


From ce015221ede4ff9d8ee97bc6d32a96fd45241867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:08 +0000
Subject: [PATCH 52/74] fix: request no current for torques a series DC motor
 cannot produce

---
 .../stages/operation_point_selection/series_dc_ops.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/series_dc_ops.py b/src/gem_controllers/stages/operation_point_selection/series_dc_ops.py
index bb5e06e..b3280a6 100644
--- a/src/gem_controllers/stages/operation_point_selection/series_dc_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/series_dc_ops.py
@@ -33,7 +33,7 @@ class SeriesDcOperationPointSelection(OperationPointSelection):
         Returns:
             np.array: current reference values
         """
-        return np.sqrt(reference / self._cross_inductance)
+        return np.sqrt(np.maximum(reference, 0.0) / self._cross_inductance)
 
     def tune(self, env, env_id, current_safety_margin=0.2):
         """
-- 
2.43.0


From ae2963ccdd587d97b58631bca865d473ea05418b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:18 +0000
Subject: [PATCH 53/74] fix: every SCIM operation point selection has its own
 flux controller

---
 .../stages/operation_point_selection/scim_ops.py              | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/scim_ops.py b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
index 16d2707..bf2e9b4 100644
--- a/src/gem_controllers/stages/operation_point_selection/scim_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
@@ -19,7 +19,7 @@ class SCIMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         self,
         max_modulation_level: float = 2 / np.sqrt(3),
         modulation_damping: float = 1.2,
-        psi_controller=PIController(control_task="FC"),
+        psi_controller=None,
     ):
         """
         Args:
@@ -40,7 +40,7 @@ class SCIMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         self.i_sd_count = None
         self.i_sq_count = None
 
-        self.psi_controller = psi_controller
+        self.psi_controller = psi_controller or PIController(control_task="FC")
 
     def _psi_opt(self):
         """Calculate the optimal flux for a given torque"""
-- 
2.43.0


From bd6d3b8f2680626cfb8b30ff985194c32faf2bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:27 +0000
Subject: [PATCH 54/74] fix: do not use the removed numpy alias complex

---
 .../stages/operation_point_selection/eesm_ops.py              | 2 +-
 .../stages/operation_point_selection/pmsm_ops.py              | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
index 3e84c95..5217547 100644
--- a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
@@ -181,7 +181,7 @@ class EESMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         self.i_e_opt = sp_interpolate.interp1d(best_params[:, 0], best_params[:, 4], kind="cubic")
 
         self.t_grid, self.psi_grid = np.mgrid[
-            0 : self.t_max : np.complex(0, self.t_grid_count), 0 : self.psi_max : np.complex(self.psi_grid_count)
+            0 : self.t_max : complex(0, self.t_grid_count), 0 : self.psi_max : complex(self.psi_grid_count)
         ]
 
         self.i_d_inter = sp_interpolate.griddata(
diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 6a828b1..ac7970a 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -236,8 +236,8 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
             # Define the grid for the torque and fluxes
             self.t_grid, self.psi_grid = np.mgrid[
-                np.amin(t) : np.amax(t) : np.complex(0, self.t_count),
-                self.psi_min : self.psi_max : np.complex(self.psi_count),
+                np.amin(t) : np.amax(t) : complex(0, self.t_count),
+                self.psi_min : self.psi_max : complex(self.psi_count),
             ]
 
             # Interpolate the functions
-- 
2.43.0


From 31daa0ce9d731aa69da518378bb94bb69f7c3092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:14 +0000
Subject: [PATCH 55/74] fix: address the rows of the MTPF and MTPC tables that
 exist

---
 .../stages/operation_point_selection/pmsm_ops.py          | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index ac7970a..830b0c1 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -302,14 +302,14 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
     def _get_psi_idx_mtpf(self, psi):
         """Get the index of the flux of the MTPF lookup table."""
-        return np.clip(
-            int((self.psi_count - 1) - round(psi / self.psi_max_mtpf * (self.psi_count - 1))), 0, self.psi_count
-        )
+        # The table holds its flux values once per sign of the torque. Not reachable flux values have been dropped.
+        psi_count = len(self.mtpf) // 2
+        return np.clip(int((psi_count - 1) - round(psi / self.psi_max_mtpf * (psi_count - 1))), 0, psi_count - 1)
 
     def _get_t_idx_mtpc(self, torque):
         """Get the index of the torque of the mtpc lookup table."""
         return np.clip(
-            int(round((torque[0] + self.max_torque) / (2 * self.max_torque) * (self.t_count - 1))), 0, self.t_count
+            int(round((torque[0] + self.max_torque) / (2 * self.max_torque) * (self.t_count - 1))), 0, self.t_count - 1
         )
 
     def _select_operating_point(self, state, reference):
-- 
2.43.0


From 042f22d1303c78db5e175fb79eb1716f5b4926c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:33 +0000
Subject: [PATCH 56/74] fix: invert the q current of a SynRM only where it is
 built from a magnitude

---
 .../stages/operation_point_selection/pmsm_ops.py      | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 830b0c1..80ea6ef 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -78,7 +78,7 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
                 i_q_ret = i_q
                 i_d_ret = i_d
             else:
-                i_q_ret = np.sign((self.l_q - self.l_d) * t) * np.abs(i_q[min_idx])
+                i_q_ret = self.invert * np.sign(t) * np.abs(i_q[min_idx])
                 i_d_ret = i_d[min_idx]
 
             # The flow is finally calculated from the currents
@@ -348,22 +348,19 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
             if self.i_d_inter[t_idx, psi_idx] <= self.mtpf[psi_max_idx, 2]:
                 i_d = self.mtpf[psi_max_idx, 2]
-                i_q = np.sign(reference[0]) * np.abs(self.mtpf[psi_max_idx, 3])
+                i_q = self.invert * np.sign(reference[0]) * np.abs(self.mtpf[psi_max_idx, 3])
                 reference = np.sign(reference[0]) * t_max
             else:
                 i_d = self.i_d_inter[t_idx, psi_idx]
                 i_q = self.i_q_inter[t_idx, psi_idx]
                 if i_d > self.mtpc[psi_idx_, 1]:
                     i_d = self.mtpc[psi_idx_, 1]
-                    i_q = np.sign(reference[0]) * np.abs(self.mtpc[psi_idx_, 2])
+                    i_q = self.invert * np.sign(reference[0]) * np.abs(self.mtpc[psi_idx_, 2])
 
         # ensure that the mtpf characteristic curve is observed
         if i_d < self.mtpf[psi_max_idx, 2]:
             i_d = self.mtpf[psi_max_idx, 2]
-            i_q = np.sign(reference[0]) * np.abs(self.mtpf[psi_max_idx, 3])
-
-        # invert the i_q if necessary
-        i_q = self.invert * i_q
+            i_q = self.invert * np.sign(reference[0]) * np.abs(self.mtpf[psi_max_idx, 3])
 
         return np.array([i_d, i_q])
 
-- 
2.43.0


From e6fc2e99b8bda88009a4ba3c7b0b51785b08f2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:02 +0000
Subject: [PATCH 57/74] fix: limit the EESM torque by the flux that is actually
 available

---
 .../stages/operation_point_selection/eesm_ops.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
index 5217547..4a2bda0 100644
--- a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
@@ -251,7 +251,7 @@ class EESMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
         psi = np.clip(psi_opt, 0, psi_max)
 
-        t_max = self.t_max_psi(psi_opt)
+        t_max = self.t_max_psi(psi)
         t_ref_clip = np.clip(t_ref_clip, 0, t_max)
 
         t_idx = self._get_t_idx(t_ref_clip)
-- 
2.43.0


From a907c4b544f249e9a627f203eaa80db16a1e8405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:44 +0000
Subject: [PATCH 58/74] fix: consider the sign of the excitation current of the
 ExtExDc motor

---
 .../stages/operation_point_selection/extex_dc_ttc.py       | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/extex_dc_ttc.py b/src/gem_controllers/stages/operation_point_selection/extex_dc_ttc.py
index 6c83a46..364acd8 100644
--- a/src/gem_controllers/stages/operation_point_selection/extex_dc_ttc.py
+++ b/src/gem_controllers/stages/operation_point_selection/extex_dc_ttc.py
@@ -74,8 +74,11 @@ class ExtExDcOperationPointSelection(OperationPointSelection):
         # Select the i_e reference
         i_e_ref = self._i_e_policy(state, reference)
 
-        # Calculate the i_a reference
-        i_a_ref = reference[0] / self._cross_inductance[0] / max(state[self._i_e_idx], 1e-4)
+        # Calculate the i_a reference (avoid a division by zero)
+        i_e = state[self._i_e_idx]
+        if abs(i_e) < 1e-4:
+            i_e = 1e-4 if i_e >= 0.0 else -1e-4
+        i_a_ref = reference[0] / self._cross_inductance[0] / i_e
         return np.array([i_a_ref, i_e_ref])
 
     def tune(self, env, env_id, current_safety_margin=0.2):
-- 
2.43.0


From 54f793675420a1e1d5542d80d2c57375a69c93d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:14 +0000
Subject: [PATCH 59/74] fix: limit the first episode of a controlled
 environment to max_episode_length steps

---
 src/gem_controllers/gem_controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/gem_controller.py b/src/gem_controllers/gem_controller.py
index 8083c5e..53f4cfb 100644
--- a/src/gem_controllers/gem_controller.py
+++ b/src/gem_controllers/gem_controller.py
@@ -163,11 +163,11 @@ class GemController:
                 env.render()  # Plot the states
             action = self.control(state, reference)  # Calculate the action
             (state, reference), _, trun, done, _ = env.step(action)  # Simulate one step of the environment
+            current_episode_length = current_episode_length + 1
             if done or trun or current_episode_length >= max_episode_length:
                 # Reset the environment and controller
                 (state, reference), _ = env.reset()
                 self.reset()
                 current_episode_length = 0
-            current_episode_length = current_episode_length + 1
         if self.block_diagram:
             self.block_diagram.close()
-- 
2.43.0


From d8b74e7689470fb101dbcd56d4155502938fbbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:10 +0000
Subject: [PATCH 60/74] fix: solve the flux equation of the PMSM operating
 point with the d-axis inductance

---
 .../stages/operation_point_selection/pmsm_ops.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 80ea6ef..8dcb974 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -272,7 +272,7 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
             self.l_d**2 * self.psi_p**2
             + 4 * self.l_d * self.psi_p**2 * (self.l_d - self.l_q)
             + (self.psi_p**2 - psi**2) * (self.l_d - self.l_q) ** 2,
-            2 * self.l_q * self.psi_p**3 + 2 * (self.psi_p**2 - psi**2) * self.psi_p * (self.l_d - self.l_q),
+            2 * self.l_d * self.psi_p**3 + 2 * (self.psi_p**2 - psi**2) * self.psi_p * (self.l_d - self.l_q),
             (self.psi_p**2 - psi**2) * self.psi_p**2 + (self.l_q * 2 * torque / (3 * self.p)) ** 2,
         ]
 
-- 
2.43.0


From df546901dd60684789dcb648ce5507c5b4f6d534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:07 +0000
Subject: [PATCH 61/74] fix: solve the flux equation of the EESM operating
 point with the d-axis inductance and the whole torque term

---
 .../stages/operation_point_selection/eesm_ops.py              | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
index 4a2bda0..cdab996 100644
--- a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
@@ -100,9 +100,9 @@ class EESMOperationPointSelection(FieldOrientedControllerOperationPointSelection
             self.l_d**2 * (self.l_m * i_e) ** 2
             + 4 * self.l_d * (self.l_m * i_e) ** 2 * (self.l_d - self.l_q)
             + ((self.l_m * i_e) ** 2 - psi**2) * (self.l_d - self.l_q) ** 2,
-            2 * self.l_q * (self.l_m * i_e) ** 3
+            2 * self.l_d * (self.l_m * i_e) ** 3
             + 2 * ((self.l_m * i_e) ** 2 - psi**2) * self.l_m * i_e * (self.l_d - self.l_q),
-            ((self.l_m * i_e) ** 2 - psi**2) * (self.l_m * i_e) ** 2 + (self.l_q * torque / (3 * self.p)) ** 2,
+            ((self.l_m * i_e) ** 2 - psi**2) * (self.l_m * i_e) ** 2 + (self.l_q * 2 * torque / (3 * self.p)) ** 2,
         ]
 
         self._calculate_luts()
-- 
2.43.0


From ca29c275d0c7d0d233ca44e5676b683b8e7c749c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:35 +0000
Subject: [PATCH 62/74] fix: take the flux current of the induction machine
 that belongs to the minimal losses

---
 .../stages/operation_point_selection/scim_ops.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/scim_ops.py b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
index bf2e9b4..0e2c03a 100644
--- a/src/gem_controllers/stages/operation_point_selection/scim_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
@@ -59,7 +59,7 @@ class SCIMOperationPointSelection(FieldOrientedControllerOperationPointSelection
                 )  # Calculate losses
 
                 i_idx = np.argmin(pv)  # Minimize losses
-                i_sd_opt = i_sd[i_idx]
+                i_sd_opt = i_sd[i_idx + 1]  # losses are calculated from the second current on
                 i_sq_opt = i_sq[i_idx]
             else:
                 i_sq_opt = 0
-- 
2.43.0


From 6cbf59c63956c23b5a39a144483fceb12daa5cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:48 +0000
Subject: [PATCH 63/74] fix: limit the torque of the induction machine with the
 table entry of the selected flux

---
 .../stages/operation_point_selection/scim_ops.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/scim_ops.py b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
index 0e2c03a..c8ccaad 100644
--- a/src/gem_controllers/stages/operation_point_selection/scim_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
@@ -174,7 +174,7 @@ class SCIMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         psi_opt = min(psi_opt, psi_max)
 
         # Limit the torque
-        t_max = self.t_max_psi[0, self.psi_count - self._get_t_max(psi_opt)]
+        t_max = self.t_max_psi[0, self.psi_count - 1 - self._get_t_max(psi_opt)]
         torque = np.clip(reference[0], -np.abs(t_max), np.abs(t_max))
 
         # Control the i_sd current with a PI-Controller
-- 
2.43.0


From 38c449645e69baa361784162bea8c31e264a7cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:12 +0000
Subject: [PATCH 64/74] fix: tune the operating point selection of permanent
 magnet machines without saliency

---
 .../stages/operation_point_selection/pmsm_ops.py            | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 8dcb974..687102b 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -71,13 +71,13 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
                 else:
                     i_d = i_d_(i_q, t, self)
 
-            # Different current vectors are determined for each reference and the smallest magnitude is selected
-            i = np.power(i_d, 2) + np.power(i_q, 2)
-            min_idx = np.where(i == np.amin(i))[0][0]
             if self.l_d == self.l_q:
                 i_q_ret = i_q
                 i_d_ret = i_d
             else:
+                # Different current vectors are determined for each reference and the smallest magnitude is selected
+                i = np.power(i_d, 2) + np.power(i_q, 2)
+                min_idx = np.where(i == np.amin(i))[0][0]
                 i_q_ret = self.invert * np.sign(t) * np.abs(i_q[min_idx])
                 i_d_ret = i_d[min_idx]
 
-- 
2.43.0


From da5500d6a2f9a0dfa855c6c468a042dfc253fba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:34 +0000
Subject: [PATCH 65/74] fix: announce the references up to the maximum of a
 ramping limit margin

---
 src/gym_electric_motor/callbacks.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/gym_electric_motor/callbacks.py b/src/gym_electric_motor/callbacks.py
index 71b82d6..8cf3a62 100644
--- a/src/gym_electric_motor/callbacks.py
+++ b/src/gym_electric_motor/callbacks.py
@@ -1,5 +1,8 @@
 """This module introduces predefined callbacks for the GEM environment."""
 
+import numpy as np
+from gymnasium.spaces import Box, Tuple
+
 from gym_electric_motor.reference_generators import (
     SubepisodedReferenceGenerator,
     SwitchedReferenceGenerator,
@@ -89,6 +92,18 @@ class RampingLimitMargin(Callback):
                 sub_generator._limit_margin = self._limit_margin
         else:
             self._env.reference_generator._limit_margin = self._limit_margin
+        self._extend_reference_space()
+
+    def _extend_reference_space(self):
+        """Announces the references up to the maximum limit margin in the reference and the observation space."""
+        reference_generator = self._env.reference_generator
+        low = min(self._limit_margin[0], self._maximum_limit_margin[0])
+        high = max(self._limit_margin[1], self._maximum_limit_margin[1])
+        space = reference_generator.reference_space
+        reference_generator.reference_space = Box(
+            np.minimum(space.low, low), np.maximum(space.high, high), dtype=np.float64
+        )
+        self._env.observation_space = Tuple((self._env.observation_space[0], reference_generator.reference_space))
 
     def on_step_end(self, k, state, reference, reward, terminated):
         # See docstring of superclass
-- 
2.43.0


From ee1dbf31cda60a8f829d66d36d54d0831d75c9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:15 +0000
Subject: [PATCH 66/74] fix: keep the plot setting with the controller it was
 made for

---
 src/gem_controllers/gem_controller.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/gem_controller.py b/src/gem_controllers/gem_controller.py
index 53f4cfb..3b5340d 100644
--- a/src/gem_controllers/gem_controller.py
+++ b/src/gem_controllers/gem_controller.py
@@ -15,6 +15,9 @@ class GemController:
     controller to control a gym-electric-motor environment.
     """
 
+    #: Flag, if the references of the underlying control circuits should be plotted
+    should_plot = False
+
     @property
     def signals(self):
         """Input signals of the controller"""
@@ -61,8 +64,6 @@ class GemController:
         Returns:
             GemController: An initialized (and tuned) instance of a controller that fits to the specified environment.
         """
-        cls.should_plot = should_plot
-
         control_task = gc.utils.get_control_task(env_id)
         tuner_kwargs = dict()
 
@@ -90,6 +91,8 @@ class GemController:
         # Wrap the controller with the adapter to map the inputs and outputs to the environment
         controller = gc.GymElectricMotorAdapter(env, env_id, controller)
 
+        controller.should_plot = should_plot
+
         # Fit the controllers parameters to the environment
         controller.tune(env, env_id, **tuner_kwargs)
 
-- 
2.43.0


From 2b548bd5ffc49bfe8be7af53b0c2dc2e45165964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:24 +0000
Subject: [PATCH 67/74] fix: respect plot_references when tuning a controller

---
 src/gem_controllers/gem_adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/gem_adapter.py b/src/gem_controllers/gem_adapter.py
index 4ed6628..09c1769 100644
--- a/src/gem_controllers/gem_adapter.py
+++ b/src/gem_controllers/gem_adapter.py
@@ -112,7 +112,7 @@ class GymElectricMotorAdapter(GemController):
         self._reference_plotter.tune(
             env,
             self._controller.referenced_states,
-            plot_references=True,
+            plot_references=kwargs.get("plot_references", True),
             maximum_reference=self._controller.maximum_reference,
         )
 
-- 
2.43.0


From 866299d93e869f4d66876919bcb7e42e719372a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:05 +0000
Subject: [PATCH 68/74] fix: mean episode reward plot with empty episodes and
 after figure resets

---
 .../mean_episode_reward_plot.py                | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
index ac6c471..56b2b87 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
@@ -18,9 +18,13 @@ class MeanEpisodeRewardPlot(EpisodePlot):
 
     def initialize(self, axis):
         super().initialize(axis)
-        self._reward_data = []
-        self._y_data.append(self._reward_data)
-        self._lines.append(self._axis.plot([], self._reward_data, color=self._colors[0])[0])
+        self._y_data = [self._reward_data]
+        self._lines.append(self._axis.plot(self._x_data, self._reward_data, color=self._colors[0])[0])
+
+    def on_reset_begin(self):
+        super().on_reset_begin()
+        self._reward_sum = 0
+        self._episode_length = 0
 
     def on_step_end(self, k, state, reference, reward, terminated):
         super().on_step_end(k, state, reference, reward, terminated)
@@ -33,17 +37,19 @@ class MeanEpisodeRewardPlot(EpisodePlot):
         self._reward_range = [np.inf, -np.inf]
 
     def _set_y_data(self):
-        mean_reward = self._reward_sum / self._episode_length
+        # There is no mean reward of an episode without any steps
+        mean_reward = self._reward_sum / self._episode_length if self._episode_length > 0 else np.nan
         self._reward_data.append(mean_reward)
         if self._reward_range[0] > mean_reward:
             self._reward_range[0] = mean_reward
         if self._reward_range[1] < mean_reward:
             self._reward_range[1] = mean_reward
-        self._reward_sum = 0
-        self._episode_length = 0
         self._reset = True
 
     def _scale_y_axis(self):
+        # The range is still empty, if no episode had any steps
+        if self._reward_range[0] > self._reward_range[1]:
+            return
         if len(self._reward_data) > 1 and self._axis.get_ylim() != tuple(self._reward_range):
             spacing = 0.1 * (self._reward_range[1] - self._reward_range[0])
             self._axis.set_ylim(self._reward_range[0] - spacing, self._reward_range[1] + spacing)
-- 
2.43.0


From 7d10bf2de3d0758f8fe2867483c7d73332384bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:14 +0000
Subject: [PATCH 69/74] fix: cumulative constraint violation plot can be
 rendered after a figure reset

---
 .../cumulative_constraint_violation_plot.py                     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py
index 4a4a930..124c4a0 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py
@@ -18,7 +18,9 @@ class CumulativeConstraintViolationPlot(StepPlot):
 
     def reset_data(self):
         super().reset_data()
+        self._no_of_violations = 0
         self._violations = [0]
+        self._x_data.append(0)
 
     def on_step_end(self, k, state, reference, reward, terminated):
         super().on_step_end(k, state, reference, reward, terminated)
-- 
2.43.0


From 195b8450851ea64d0f117499f41298ee320c0ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:23 +0000
Subject: [PATCH 70/74] fix: scale_plots with plots of a single line

---
 .../visualization/motor_dashboard_plots/base_plots.py      | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py
index e203618..73ff647 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py
@@ -188,10 +188,11 @@ class TimePlot(MotorDashboardPlot):
     def _scale_y_axis(self):
         if self._scale_plots_to_data:
             # nanmin does not reraise RuntimeWarning so we to check for NaNs ourselves
-            if np.isnan(self._y_data[0]).all() or np.isnan(self._y_data[1]).all():
+            y_data = [data for data in self._y_data if not np.isnan(data).all()]
+            if len(y_data) == 0:
                 return
-            y_min = min(np.nanmin(self._y_data[0]), np.nanmin(self._y_data[1]))
-            y_max = max(np.nanmax(self._y_data[0]), np.nanmax(self._y_data[1]))
+            y_min = min(np.nanmin(data) for data in y_data)
+            y_max = max(np.nanmax(data) for data in y_data)
 
             self._axis.set_ylim(
                 y_min - np.sign(y_min) * 0.1 * y_min,
-- 
2.43.0


From 6dd291f369ad1576c4931d72c423fffeaebbd17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:34 +0000
Subject: [PATCH 71/74] fix: reward plot is updated after a figure reset

---
 .../visualization/motor_dashboard_plots/reward_plot.py           | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/reward_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/reward_plot.py
index 9bf3601..f274f6a 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/reward_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/reward_plot.py
@@ -33,6 +33,7 @@ class RewardPlot(TimePlot):
     def reset_data(self):
         super().reset_data()
         self._reward_data = np.full(shape=self._x_data.shape, fill_value=np.nan)
+        self._y_data = [self._reward_data]
 
     def on_step_end(self, k, state, reference, reward, terminated):
         idx = self.data_idx
-- 
2.43.0


From b3687295eee1ec973f95cda9fccc55787889b6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:04 +0000
Subject: [PATCH 72/74] fix: episode length plot does not show steps of an
 earlier episode after a figure reset

---
 .../motor_dashboard_plots/episode_length_plot.py             | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/episode_length_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/episode_length_plot.py
index a2ed136..fd60f2d 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/episode_length_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/episode_length_plot.py
@@ -21,6 +21,10 @@ class EpisodeLengthPlot(EpisodePlot):
         super().initialize(axis)
         self._lines.append(self._axis.plot([], [], color=self._colors[0])[0])
 
+    def on_reset_begin(self):
+        super().on_reset_begin()
+        self._episode_length = 0
+
     def on_step_end(self, k, state, reference, reward, terminated):
         self._episode_length = k
 
@@ -36,7 +40,6 @@ class EpisodeLengthPlot(EpisodePlot):
         if self._ymax < self._episode_length:
             self._ymax = self._episode_length
             self._update_lim = True
-        self._episode_length = 0
 
     def _scale_y_axis(self):
         if self._update_lim:
-- 
2.43.0


From a2f3becc41477b58cc838c5c809a572ce5bbd4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:43 +0000
Subject: [PATCH 73/74] fix: console printer reports the finished episode

---
 .../visualization/console_printer.py          | 27 +++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/gym_electric_motor/visualization/console_printer.py b/src/gym_electric_motor/visualization/console_printer.py
index df1d756..56c1136 100644
--- a/src/gym_electric_motor/visualization/console_printer.py
+++ b/src/gym_electric_motor/visualization/console_printer.py
@@ -35,13 +35,20 @@ class ConsolePrinter(ElectricMotorVisualization):
         self._num_steps = 0
         self._cum_reward = 0
         self._done = False
-        self._episode = 0
+        # There is no episode before the first reset
+        self._episode = -1
         np.set_printoptions(formatter={"float": "{:9.3f}".format})
-        self._reset = False
+        # Number, done flag, steps and cumulative reward of the finished episodes that are not printed yet
+        self._finished_episodes = []
 
     def on_reset_begin(self):
         """Gets called on environment reset. Handles internal value reset and External reset printing"""
-        self._reset = True
+        if self._episode >= 0 and self._print_freq > 0:
+            self._finished_episodes.append((self._episode, self._done, self._k, self._cum_reward))
+        self._episode += 1
+        self._done = False
+        self._k = 0
+        self._cum_reward = 0
 
     def on_reset_end(self, state, reference):
         self._reference = reference
@@ -67,16 +74,14 @@ class ConsolePrinter(ElectricMotorVisualization):
 
     def render(self):
         if self._print_freq > 0:
-            if self._reset:
+            for episode, done, k, cum_reward in self._finished_episodes:
                 print(
-                    f"\nEpisode {self._episode} ",
-                    "Constraint Violation! " if self._done else "External Reset. ",
-                    f"Number of steps: {self._k: 8d} ",
-                    f"Cumulative Reward: {self._cum_reward:7.3f}\n",
+                    f"\nEpisode {episode} ",
+                    "Constraint Violation! " if done else "External Reset. ",
+                    f"Number of steps: {k: 8d} ",
+                    f"Cumulative Reward: {cum_reward:7.3f}\n",
                 )
-                self._cum_reward = 0
-                self._reset = False
-                self._episode += 1
+            self._finished_episodes = []
 
             if self._print_freq == 2 and (self._k % self._update_freq) == 0:
                 print(
-- 
2.43.0


From c8f8f9ed4ada5fb40de17baa061333528ba66c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:09 +0000
Subject: [PATCH 74/74] fix: keep the fractions of the model constants when all
 motor parameters are whole numbers

---
 .../physical_systems/electric_motors/dc_motor.py                | 2 +-
 .../physical_systems/electric_motors/dc_series_motor.py         | 2 +-
 .../electric_motors/permanent_magnet_synchronous_motor.py       | 2 +-
 .../electric_motors/synchronous_reluctance_motor.py             | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/dc_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/dc_motor.py
index 874f0e4..bf8acfe 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/dc_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/dc_motor.py
@@ -99,7 +99,7 @@ class DcMotor(ElectricMotor):
         Called internally when the motor parameters are changed or the motor is initialized.
         """
         mp = self._motor_parameter
-        self._model_constants = np.array([[-mp["r_a"], 0, -mp["l_e_prime"], 1, 0], [0, -mp["r_e"], 0, 0, 1]])
+        self._model_constants = np.array([[-mp["r_a"], 0, -mp["l_e_prime"], 1.0, 0], [0, -mp["r_e"], 0, 0, 1.0]])
         self._model_constants[self.I_A_IDX] = self._model_constants[self.I_A_IDX] / mp["l_a"]
         self._model_constants[self.I_E_IDX] = self._model_constants[self.I_E_IDX] / mp["l_e"]
 
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/dc_series_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/dc_series_motor.py
index bb9dbfb..5e8d759 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/dc_series_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/dc_series_motor.py
@@ -68,7 +68,7 @@ class DcSeriesMotor(DcMotor):
     def _update_model(self):
         # Docstring of superclass
         mp = self._motor_parameter
-        self._model_constants = np.array([[-mp["r_a"] - mp["r_e"], -mp["l_e_prime"], 1]])
+        self._model_constants = np.array([[-mp["r_a"] - mp["r_e"], -mp["l_e_prime"], 1.0]])
         self._model_constants[self.I_IDX] = self._model_constants[self.I_IDX] / (mp["l_a"] + mp["l_e"])
 
     def torque(self, currents):
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py
index fb6f991..6c133a0 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py
@@ -113,7 +113,7 @@ class PermanentMagnetSynchronousMotor(SynchronousMotor):
             [                     0, -mp['r_s'],          0,   1,   0,                    0, mp['l_q'] * mp['p']],
             [-mp['psi_p'] * mp['p'],          0, -mp['r_s'],   0,   1, -mp['l_d'] * mp['p'],                   0],
             [               mp['p'],          0,          0,   0,   0,                    0,                   0],
-        ])
+        ], dtype=float)
         # fmt: on
         self._model_constants[self.I_SD_IDX] = self._model_constants[self.I_SD_IDX] / mp["l_d"]
         self._model_constants[self.I_SQ_IDX] = self._model_constants[self.I_SQ_IDX] / mp["l_q"]
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_reluctance_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_reluctance_motor.py
index d019794..3f4a06d 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_reluctance_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_reluctance_motor.py
@@ -124,7 +124,7 @@ class SynchronousReluctanceMotor(SynchronousMotor):
             [      0, -mp['r_s'],          0,    1,    0,                     0,   mp['l_q'] * mp['p']],
             [      0,          0, -mp['r_s'],    0,    1,  -mp['l_d'] * mp['p'],                     0],
             [mp['p'],          0,          0,    0,    0,                     0,                     0]
-        ])
+        ], dtype=float)
         # fmt: on
         self._model_constants[self.I_SD_IDX] = self._model_constants[self.I_SD_IDX] / mp["l_d"]
         self._model_constants[self.I_SQ_IDX] = self._model_constants[self.I_SQ_IDX] / mp["l_q"]
-- 
2.43.0

