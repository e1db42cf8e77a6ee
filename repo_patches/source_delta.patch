From 75b22cd36a6eeccb3f218c22d509c1f3dd51c39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 01/22] fix: do not modify the configured peaks while
 evaluating deformed sensor peaks

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 03652aa..3161f98 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -436,11 +436,11 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
                                                [middle_line_point, middle_line_point + np.array([1, m])]))[0]
 
             for idx, p in enumerate(self.__sensor_peak_function):
-                old_mu0 = p.mu0
                 if idx in self.sensor_peak_deformations.keys():
-                    p.mu0 = self.sensor_peak_deformations[idx].calc_mu(dist=dist, mu0=p.mu0)
-                    resp_sum += p.sensor_function(mu_sens)
-                    p.mu0 = old_mu0
+                    # shift a copy, so that an exception or another thread never sees a deformed configured peak
+                    deformed_peak = copy.copy(p)
+                    deformed_peak.mu0 = self.sensor_peak_deformations[idx].calc_mu(dist=dist, mu0=p.mu0)
+                    resp_sum += deformed_peak.sensor_function(mu_sens)
                 else:
                     resp_sum += p.sensor_function(mu_sens)
 
-- 
2.43.0


From 52282d099efc28e881bd113660b1ddc21c26532e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 02/22] fix: do not change the process-wide warning filters in
 the scan sensor

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 3161f98..669a85c 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -566,8 +566,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
             warnings.warn("At least one of the three responses is negative. This will probably not produce a realistic "
                           "scan! The minima of the barrier and sensor peak functions should be 0.")
 
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
+        with np.errstate(all="ignore"):
             # combine the individual response values -> they are combined like resistors in a series circuit
             numerator = sens_resp * barrier1_resp * barrier2_resp
             denominator = barrier1_resp * barrier2_resp + sens_resp * barrier1_resp + sens_resp * barrier2_resp
@@ -746,8 +745,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
             voltages_sensor = [[voltages_sensor_g1[i], voltages_sensor_g2[i]] for i in range(len(voltages_sensor_g1))]
             voltages_sensor = np.array(voltages_sensor)
 
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
+        with np.errstate(all="ignore"):
             mu_sens = (occupations.dot(self.__alpha_dot[0]) + voltages.dot(self.__alpha_gate[0]) +
                        voltages_sensor.dot(self.alpha_sensor_gate[0]) + self.offset_mu_sens[0])
             barrier1_pot = (occupations.dot(self.__alpha_dot[1]) + voltages.dot(self.__alpha_gate[1]) +
-- 
2.43.0


From 9b71dabde901b9f50090ad17491a366ea645c7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 03/22] fix: use the g2 step size for dot jumps along g2 in 1D
 scans

---
 simcats/distortions/_dot_jumps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 22b6038..04d82ea 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -343,7 +343,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
                         # insert the i-th diagonal there
                         np.fill_diagonal(lead_transitions_2d, left_charge_transitions)
             if self.axis == 0:
-                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / occupations.shape[0]
+                step_size = (volt_limits_g2[1] - volt_limits_g2[0]) / occupations.shape[0]
                 for i in range(max_jump):
                     top_occupation, top_charge_transitions = generate_csd(
                         volt_limits_g1=volt_limits_g1,
-- 
2.43.0


From a129064ec335cfff8e36fc33d7fa0a286a75e15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 04/22] fix: convert dot jump parameters with the pixel density
 of the jump axis

---
 simcats/distortions/_dot_jumps.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 04d82ea..c9966c6 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -183,15 +183,15 @@ class OccupationDotJumps(OccupationDistortionInterface):
             except AttributeError:
                 lam = self.lam
             if self.axis == 1:  # dot jumps in x direction
-                scale *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
-                lam *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
-            elif self.axis == 0:  # dot jumps in y direction
                 if len(occupations.shape) == 3:
-                    scale *= resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
-                    lam *= resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
+                    scale *= resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                    lam *= resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
                 else:
-                    scale *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
-                    lam *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
+                    scale *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                    lam *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+            elif self.axis == 0:  # dot jumps in y direction
+                scale *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
+                lam *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
             if scale < 1:
                 # smallest possible value is 1, so set to 1. As this might not be, what the user wants, warn about it
                 warnings.warn(
-- 
2.43.0


From 393fb48d33fa667f7a0ae553a4fa57a80b2c099a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 05/22] fix: convert the transition blurring width with the
 pixel density of g1

---
 simcats/distortions/_transition_blurring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simcats/distortions/_transition_blurring.py b/simcats/distortions/_transition_blurring.py
index c9550b4..ecfe396 100644
--- a/simcats/distortions/_transition_blurring.py
+++ b/simcats/distortions/_transition_blurring.py
@@ -104,7 +104,7 @@ class OccupationTransitionBlurringFermiDirac(OccupationDistortionInterface):
                 resolution = occupations.shape[0:2]
                 # rescale the sigma according to the resolution (as it's defined per volt but must be applied per pixel)
                 # sweeping always happens in x-direction
-                sigma *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                sigma *= resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
                 occupations[:, :, 0] = fermi_filter1d(occupations[:, :, 0], sigma=sigma)
                 occupations[:, :, 1] = fermi_filter1d(occupations[:, :, 1], sigma=sigma)
             if len(occupations.shape) == 2:  # 1d scan
@@ -220,7 +220,7 @@ class OccupationTransitionBlurringGaussian(OccupationDistortionInterface):
                 resolution = occupations.shape[0:2]
                 # rescale the sigma according to the resolution (as it's defined per volt but must be applied per pixel)
                 # sweeping always happens in x-direction
-                sigma *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                sigma *= resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
                 occupations[:, :, 0] = gaussian_filter1d(occupations[:, :, 0], sigma=sigma)
                 occupations[:, :, 1] = gaussian_filter1d(occupations[:, :, 1], sigma=sigma)
             if len(occupations.shape) == 2:  # 1d scan
-- 
2.43.0


From ad8e258ec660e48e4adb0eb606e631f0c4f695fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 06/22] fix: convert the RTN scale with the pixel densities of
 the matching gates

---
 simcats/distortions/_random_telegraph_noise.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simcats/distortions/_random_telegraph_noise.py b/simcats/distortions/_random_telegraph_noise.py
index 8e2fe84..61b366b 100644
--- a/simcats/distortions/_random_telegraph_noise.py
+++ b/simcats/distortions/_random_telegraph_noise.py
@@ -139,13 +139,13 @@ class RandomTelegraphNoise(DistortionInterface):
         if len(original.shape) == 2:
             resolution = original.shape
             if volt_limits_g1[0] == volt_limits_g1[1]:
-                scale *= resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
+                scale *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
             elif volt_limits_g2[0] == volt_limits_g2[1]:
-                scale *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                scale *= resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
             else:
                 scale *= np.maximum(
-                    resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1)),
-                    resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2)),
+                    resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1)),
+                    resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2)),
                 )
         else:
             resolution = (original.shape[0], original.shape[0])
-- 
2.43.0


From a26f4ed71511117330eec8c4739baa9f3700c897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 07/22] fix: random telegraph noise crashed for scales below
 one pixel

---
 simcats/distortions/_random_telegraph_noise.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/simcats/distortions/_random_telegraph_noise.py b/simcats/distortions/_random_telegraph_noise.py
index 61b366b..e96ec79 100644
--- a/simcats/distortions/_random_telegraph_noise.py
+++ b/simcats/distortions/_random_telegraph_noise.py
@@ -3,6 +3,7 @@
 @author: s.fleitmann
 """
 
+import warnings
 from typing import Union, Optional
 
 import numpy as np
@@ -152,6 +153,14 @@ class RandomTelegraphNoise(DistortionInterface):
             # sweep between starting and ending point
             scale *= resolution[0] / np.maximum(np.max(volt_limits_g1) - np.min(volt_limits_g1), np.max(volt_limits_g2) - np.min(volt_limits_g2))
 
+        if 0 < scale < 1:
+            # smallest possible block length is one pixel. As this might not be, what the user wants, warn about it
+            warnings.warn(
+                "The given scale in voltages results in a pixelwise scale of less than 1 and is thus set to 1. "
+                "That means the length of the telegraph noise blocks is always 1."
+            )
+            scale = 1
+
         try:
             std = self.std.sample_parameter()
         except AttributeError:
-- 
2.43.0


From 636ebb8ea30e785345b29ea01feffaa512936487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 08/22] fix: dot jumps crashed in 1D scans that keep the jump
 gate fixed

---
 simcats/distortions/_dot_jumps.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index c9966c6..eb3922e 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -182,6 +182,11 @@ class OccupationDotJumps(OccupationDistortionInterface):
                 lam = self.lam.sample_parameter()
             except AttributeError:
                 lam = self.lam
+            jump_limits = volt_limits_g1 if self.axis == 1 else volt_limits_g2
+            if jump_limits[0] == jump_limits[1]:
+                # the gate along which the jumps occur is not swept, so all pixels belong to the first, unshifted block
+                self.__previous_noise = np.zeros(resolution[0], dtype=int)
+                return occupations, lead_transitions
             if self.axis == 1:  # dot jumps in x direction
                 if len(occupations.shape) == 3:
                     scale *= resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
-- 
2.43.0


From b0f1d4a55fa758b86c68e4c4389cedb34f506479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 09/22] fix: dot jumps went the wrong way when several gates
 are swept from high to low

---
 simcats/distortions/_dot_jumps.py | 56 ++++++++++++++-----------------
 1 file changed, 25 insertions(+), 31 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index eb3922e..c31adb5 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -208,57 +208,51 @@ class OccupationDotJumps(OccupationDistortionInterface):
         # Dot jumps are always applied from low to high voltages because otherwise many new transition lines
         # would have to be added to be able to simulate the jumps to higher voltages regions
         # sort the voltages and with the same sorting index also the occupations and lead_transitions
-        sorted_limits_g1 = np.sort(volt_limits_g1)
-        sorted_limits_g2 = np.sort(volt_limits_g2)
         sorted_occupations = occupations
         sorted_transitions = lead_transitions
         if len(occupations.shape) == 2:  # 1d scan
-            if volt_limits_g2[0] > volt_limits_g2[1] or volt_limits_g1[0] > volt_limits_g1[1]:
-                sorted_occupations = occupations[::-1]
-                if lead_transitions is not None:
-                    sorted_transitions = lead_transitions[::-1]
+            # reverse the whole scan if the jump gate is swept from high to low, so that the voltages stay paired
+            jump_limits = volt_limits_g1 if self.axis == 1 else volt_limits_g2
+            order = slice(None, None, -1 if jump_limits[0] > jump_limits[1] else 1)
+            sorted_occupations = occupations[order]
+            if lead_transitions is not None:
+                sorted_transitions = lead_transitions[order]
             self._noise_function_1d(
                 sorted_occupations,
                 sorted_transitions,
-                sorted_limits_g1,
-                sorted_limits_g2,
+                volt_limits_g1[order],
+                volt_limits_g2[order],
                 generate_csd,
                 scale,
                 lam,
                 freeze,
             )
-            if volt_limits_g2[0] > volt_limits_g2[1] or volt_limits_g1[0] > volt_limits_g1[1]:
-                occupations = sorted_occupations[::-1]
-                if lead_transitions is not None:
-                    lead_transitions = sorted_transitions[::-1]
-        if len(occupations.shape) == 3:  # 2d scan
-            if volt_limits_g2[0] > volt_limits_g2[1]:
-                sorted_occupations = occupations[::-1, :]
-                if lead_transitions is not None:
-                    sorted_transitions = lead_transitions[::-1, :]
-            if volt_limits_g1[0] > volt_limits_g1[1]:
-                sorted_occupations = occupations[:, ::-1]
-                if lead_transitions is not None:
-                    sorted_transitions = lead_transitions[:, ::-1]
+            # bring back into original order
+            occupations = sorted_occupations[order]
+            if lead_transitions is not None:
+                lead_transitions = sorted_transitions[order]
+        elif len(occupations.shape) == 3:  # 2d scan
+            order = (
+                slice(None, None, -1 if volt_limits_g2[0] > volt_limits_g2[1] else 1),
+                slice(None, None, -1 if volt_limits_g1[0] > volt_limits_g1[1] else 1),
+            )
+            sorted_occupations = occupations[order]
+            if lead_transitions is not None:
+                sorted_transitions = lead_transitions[order]
             self._noise_function_2d(
                 sorted_occupations,
                 sorted_transitions,
-                sorted_limits_g1,
-                sorted_limits_g2,
+                np.sort(volt_limits_g1),
+                np.sort(volt_limits_g2),
                 generate_csd,
                 scale,
                 lam,
                 freeze,
             )
             # bring back into original order
-            if volt_limits_g2[0] > volt_limits_g2[1]:
-                occupations = sorted_occupations[::-1, :]
-                if lead_transitions is not None:
-                    lead_transitions = sorted_transitions[::-1, :]
-            if volt_limits_g1[0] > volt_limits_g1[1]:
-                occupations = sorted_occupations[:, ::-1]
-                if lead_transitions is not None:
-                    lead_transitions = sorted_transitions[:, ::-1]
+            occupations = sorted_occupations[order]
+            if lead_transitions is not None:
+                lead_transitions = sorted_transitions[order]
         return occupations, lead_transitions
 
     def _noise_function_1d(
-- 
2.43.0


From c6da71828dd9dc0888a3d4a5f79b3586bad49d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:14 +0000
Subject: [PATCH 10/22] fix: pass the quality multiplier on to the sensor
 distortion samplers

---
 .../_GaAs_v1_random_variations_v3_config_sampler.py           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py b/simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py
index 62366e7..0d73bcb 100644
--- a/simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py
+++ b/simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py
@@ -81,8 +81,8 @@ def sample_random_variations_v3_config(sensor_type: str = "SensorGeneric",
             f"The parameter sensor_type must be either 'SensorGeneric' or 'SensorScanSensorGeneric'. The supplied value"
             f" '{sensor_type}' is not supported.")
     config["occupation_distortions"] = sample_occupation_distortions()
-    config["sensor_potential_distortions"] = sample_sensor_potential_distortions()
-    config["sensor_response_distortions"] = sample_sensor_response_distortions()
+    config["sensor_potential_distortions"] = sample_sensor_potential_distortions(quality_multiplier=quality_multiplier)
+    config["sensor_response_distortions"] = sample_sensor_response_distortions(quality_multiplier=quality_multiplier)
     return config
 
 
-- 
2.43.0


From abea9ab262714da75a4597db091a5e22767d246b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:14 +0000
Subject: [PATCH 11/22] fix: CSD measurements without sensor voltages crashed
 if sensor voltage limits are set

---
 simcats/_simulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index 2308ef1..9bcddd9 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -183,13 +183,15 @@ class Simulation:
             )
 
         if (
-                self.__volt_limits_sensor_g1 is not None
+                volt_sensor_g1 is not None
+                and self.__volt_limits_sensor_g1 is not None
                 and (
                 volt_sensor_g1 < self.__volt_limits_sensor_g1[0]
                 or volt_sensor_g1 > self.__volt_limits_sensor_g1[1]
         )
                 or (
-                self.__volt_limits_sensor_g2 is not None
+                volt_sensor_g2 is not None
+                and self.__volt_limits_sensor_g2 is not None
                 and (
                         volt_sensor_g2 < self.__volt_limits_sensor_g2[0]
                         or volt_sensor_g2 > self.__volt_limits_sensor_g2[1]
-- 
2.43.0


From a97bf02421236df42035a6cd82e9332e0dc2c71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:14 +0000
Subject: [PATCH 12/22] fix: accept int and single-entry resolutions for 1D
 sensor scans

---
 simcats/_simulation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index 9bcddd9..a95465a 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -465,6 +465,10 @@ class Simulation:
                 f"a fixed voltage for the corresponding gate, to perform a single gate sweep."
             )
 
+        # a single resolution (1D scan) can also be supplied as array
+        if not type(resolution) == int and len(resolution) == 1:
+            resolution = int(resolution[0])
+
         if self.ideal_csd_config is None or volt_g1 is None or volt_g2 is None:
             if type(resolution) == int:
                 occupations = np.zeros((resolution, 2))
@@ -480,9 +484,6 @@ class Simulation:
                 volt_limits_g1=(volt_g1, volt_g1), volt_limits_g2=(volt_g2, volt_g2), resolution=(1)
             )
 
-            if len(resolution) == 1:
-                resolution = int(resolution[0])
-
             if type(resolution) == int:
                 occupations = np.ones((resolution, 2))
                 occupations[:, 0] = occupations[:, 0] * occupations_csd[0, 0]
-- 
2.43.0


From 4b7fe546e467fd402f11db060d5ee00ca865ae65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:14 +0000
Subject: [PATCH 13/22] fix: pass the sensor g2 range to the response
 distortions in sensor scans

---
 simcats/_simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index a95465a..21ec489 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -543,7 +543,7 @@ class Simulation:
         if self.__sensor_response_distortions is not None:
             for i in self.__sensor_response_distortions:
                 scan = i.noise_function(
-                    sensor_response=scan, volt_limits_g1=sweep_range_sensor_g1, volt_limits_g2=sweep_range_sensor_g1
+                    sensor_response=scan, volt_limits_g1=sweep_range_sensor_g1, volt_limits_g2=sweep_range_sensor_g2
                 )
 
         # create a dictionary containing all the metadata
-- 
2.43.0


From 8be845ae64eb697f15ae47c865be70fdbe81ae66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:14 +0000
Subject: [PATCH 14/22] fix: scan sensors shared lever-arms, barriers, final
 rise and deformations with the objects they were built from

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 669a85c..ad5391c 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -83,13 +83,13 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
                 is the actual deformation object used for a wavefront.
             """
         self.sensor_peak_function = sensor_peak_function
-        self.sensor_peak_deformations = sensor_peak_deformations
+        self.sensor_peak_deformations = deepcopy(sensor_peak_deformations)
         self.final_rise = final_rise
 
         if self.sensor_peak_function is not None:
             for idx, peak_func in enumerate(self.sensor_peak_function):
-                if sensor_peak_deformations is not None and idx in sensor_peak_deformations:
-                    deformation = sensor_peak_deformations[idx]
+                if self.sensor_peak_deformations is not None and idx in self.sensor_peak_deformations:
+                    deformation = self.sensor_peak_deformations[idx]
                     deformation.sensor = self
 
         self.alpha_dot = alpha_dot
@@ -160,7 +160,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
                 value is None. If None is used, no rise is added to the sensor function.
         """
         if isinstance(final_rise, SensorRiseInterface) or final_rise is None:
-            self.__final_rise = final_rise
+            self.__final_rise = deepcopy(final_rise)
         else:
             raise ValueError(
                 "The provided final_rise is not supported. Must be an implementation of the SensorPeakInterface or None."
@@ -193,7 +193,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
             self.__barrier_functions = [deepcopy(barrier_functions), deepcopy(barrier_functions)]
         elif isinstance(barrier_functions, (list, tuple)) and all(
                 isinstance(x, BarrierFunctionInterface) for x in barrier_functions) and len(barrier_functions) == 2:
-            self.__barrier_functions = barrier_functions
+            self.__barrier_functions = deepcopy(barrier_functions)
         else:
             raise ValueError(
                 "The provided barrier_functions are invalid. The barrier functions must be a tuple with two "
@@ -242,7 +242,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
                 self.__alpha_dot = np.array([alpha_dot, alpha_dot, alpha_dot])
                 return
             elif alpha_dot.shape == (3, 2):
-                self.__alpha_dot = alpha_dot
+                self.__alpha_dot = deepcopy(alpha_dot)
                 return
         elif alpha_dot is None:
             self.__alpha_dot = np.array([[0, 0], [0, 0], [0, 0]])
@@ -293,7 +293,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
                 self.__alpha_gate = np.array([alpha_gate, alpha_gate, alpha_gate])
                 return
             elif alpha_gate.shape == (3, 2):
-                self.__alpha_gate = alpha_gate
+                self.__alpha_gate = deepcopy(alpha_gate)
                 return
         elif alpha_gate is None:
             self.__alpha_gate = np.array([[0, 0], [0, 0], [0, 0]])
@@ -339,7 +339,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         """
         # check if alpha_sensor_gate is passed in an acceptable format
         if isinstance(alpha_sensor_gate, np.ndarray) and alpha_sensor_gate.shape == (3, 2):
-            self.__alpha_sensor_gate = alpha_sensor_gate
+            self.__alpha_sensor_gate = deepcopy(alpha_sensor_gate)
             return
 
         # Raise error if none of the cases for valid alpha_sensor_gate formats from before is true
@@ -373,7 +373,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         """
         # check datatype of offset_mu_sens
         if isinstance(offset_mu_sens, np.ndarray) and offset_mu_sens.shape == (3,):
-            self.__offset_mu_sens = offset_mu_sens
+            self.__offset_mu_sens = deepcopy(offset_mu_sens)
         elif isinstance(offset_mu_sens, (float, int)):
             self.__offset_mu_sens = np.array([offset_mu_sens, offset_mu_sens, offset_mu_sens])
         else:
-- 
2.43.0


From fa67409e64dc05dc57328a0cbca413c388361937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:09 +0000
Subject: [PATCH 15/22] fix: dot jumps extended the sweep with a wrong pixel
 distance

---
 simcats/distortions/_dot_jumps.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index c31adb5..fdc95d8 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -316,7 +316,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
             added_pixels = max_jump
             if self.axis == 1:
                 # generate the necessary part to the "left" of the CSD and fill into 2d csd
-                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / occupations.shape[0]
+                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / (occupations.shape[0] - 1)
                 for i in range(max_jump):
                     left_occupation, left_charge_transitions = generate_csd(
                         volt_limits_g1=(
@@ -342,7 +342,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
                         # insert the i-th diagonal there
                         np.fill_diagonal(lead_transitions_2d, left_charge_transitions)
             if self.axis == 0:
-                step_size = (volt_limits_g2[1] - volt_limits_g2[0]) / occupations.shape[0]
+                step_size = (volt_limits_g2[1] - volt_limits_g2[0]) / (occupations.shape[0] - 1)
                 for i in range(max_jump):
                     top_occupation, top_charge_transitions = generate_csd(
                         volt_limits_g1=volt_limits_g1,
@@ -464,7 +464,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
             added_pixels = max_jump
             if self.axis == 1:  # jumps in x direction
                 # generate the necessary part to the "left" of the CSD and stack to CSD
-                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / occupation.shape[1]
+                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / (occupation.shape[1] - 1)
                 left_occupation, left_charge_transitions = generate_csd(
                     volt_limits_g1=(
                         volt_limits_g1[0] - max_jump * step_size,
@@ -480,7 +480,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
                     total_charge_transitions_stacked = np.hstack((left_charge_transitions, lead_transitions))
             elif self.axis == 0:  # jumps in y direction
                 # generate the necessary part to the "top" of the CSD array and stack to CSD
-                step_size = (volt_limits_g2[1] - volt_limits_g2[0]) / occupation.shape[0]
+                step_size = (volt_limits_g2[1] - volt_limits_g2[0]) / (occupation.shape[0] - 1)
                 top_occupation, top_charge_transitions = generate_csd(
                     volt_limits_g1=volt_limits_g1,
                     volt_limits_g2=(
-- 
2.43.0


From 83b55a21b9e99bdefb2721e28275598b3f1dab22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:09 +0000
Subject: [PATCH 16/22] fix: dot jumps of more than 255 pixels wrapped around

The inner loop only rewrote pixels that were overwritten again afterwards; its
cost grows with the size of the jumps, which is not limited any more.
---
 simcats/distortions/_dot_jumps.py | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index fdc95d8..178c09f 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -602,7 +602,7 @@ def generate_dot_jumps_blockwise(
             break
 
     noise = noise[:size]
-    noise = noise.astype("uint8")
+    noise = noise.astype(int)
     return noise
 
 
@@ -654,29 +654,17 @@ def dot_jumps_blockwise(
             for j in range(cols):
                 # if there is a jump present the pixels are shifted by distortions[j]
                 # in all rows
-                for k in range(0, noise[j] + 1):
-                    if j + k >= cols:
-                        break
-                    # Nan values are used as placeholder for 1d scans, so ignore them
-                    if np.isnan(original[i, np.maximum(0, j - noise[j] + k)]):
-                        shifted[i, j + k] = original[i, j + k]
-                        continue
-                    shifted[i, j + k] = original[i, np.maximum(0, j - noise[j] + k)]
-                j = j + noise[j]
+                source = max(0, j - noise[j])
+                # Nan values are used as placeholder for 1d scans, so ignore them
+                shifted[i, j] = original[i, j] if np.isnan(original[i, source]) else original[i, source]
     elif axis == 0:
         for i in range(cols):
             for j in range(rows):
                 # if there is a jump present the pixels are shifted by distortions[j]
                 # in all columns
-                for k in range(0, noise[j] + 1):
-                    if j + k >= rows:
-                        break
-                    # Nan values are used as placeholder for 1d scans, so ignore them
-                    if np.isnan(original[np.maximum(0, j - noise[j] + k), i]):
-                        shifted[j + k, i] = original[j + k, i]
-                        continue
-                    shifted[j + k, i] = original[np.maximum(0, j - noise[j] + k), i]
-                j = j + noise[j]
+                source = max(0, j - noise[j])
+                # Nan values are used as placeholder for 1d scans, so ignore them
+                shifted[j, i] = original[j, i] if np.isnan(original[source, i]) else original[source, i]
     else:
         raise NotImplementedError("Dot jumps are only supported for 2d array. Axis should be 0 or 1.")
 
-- 
2.43.0


From 4c1037723d1dbd6e3850a29491d4ae408c643211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:09 +0000
Subject: [PATCH 17/22] fix: stacked dot jumps along one gate crashed if the
 requested data exceeded the measured range

---
 simcats/distortions/_dot_jumps.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 178c09f..b2bcb4b 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -255,6 +255,10 @@ class OccupationDotJumps(OccupationDistortionInterface):
                 lead_transitions = sorted_transitions[order]
         return occupations, lead_transitions
 
+    def _frozen_noise(self, size: int) -> np.ndarray:
+        """Helper function to fit the latest noise to requested data that is larger than the measurement it was made for."""
+        return np.pad(self.__previous_noise, (0, max(0, size - len(self.__previous_noise))), mode="edge")
+
     def _noise_function_1d(
         self,
         occupations: np.ndarray,
@@ -307,7 +311,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
             np.fill_diagonal(lead_transitions_2d, lead_transitions)
 
         if use_previous_noise:
-            noise = self.__previous_noise
+            noise = self._frozen_noise(occupations.shape[0])
         else:
             noise = generate_dot_jumps_blockwise(occupation_2d[:, :, 0].shape, scale, lam, axis=self.axis, rng=self.rng)
             self.__previous_noise = noise
@@ -455,7 +459,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
 
         """
         if use_previous_noise:
-            noise = self.__previous_noise
+            noise = self._frozen_noise(occupation.shape[self.axis])
         else:
             noise = generate_dot_jumps_blockwise(occupation[:, :, 0].shape, scale, lam, axis=self.axis, rng=self.rng)
             self.__previous_noise = noise
-- 
2.43.0


From 2c029c59a615ea3a905631b178ea98fb36968797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 18/22] fix: sensor scan labels and final rise used the g1
 voltage for g2

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index ad5391c..4f74a10 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -828,7 +828,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         fully_conductive_potential = self.sensor_potential(
             occupations=np.array((occ,)),
             volt_limits_g1=volt_limits_g1,
-            volt_limits_g2=volt_limits_g1,
+            volt_limits_g2=volt_limits_g2,
             volt_limits_sensor_g1=fully_conductive_point[0],
             volt_limits_sensor_g2=fully_conductive_point[1],
         )
-- 
2.43.0


From 8faaa6bf8cbdb9cc29f620707b87890b5ce2a2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:17 +0000
Subject: [PATCH 19/22] fix: coarse 2D CSDs near the last charge transition
 raised IndexError

The lines of the transition mask cover pixels up to half a pixel below the transition. Pixels of the last transition were
looked up in a region for which no interdot transitions are defined, although all voltages were within the limits.
---
 .../ideal_csd/geometric/_get_electron_occupation.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/simcats/ideal_csd/geometric/_get_electron_occupation.py b/simcats/ideal_csd/geometric/_get_electron_occupation.py
index 53af5db..64e4fee 100644
--- a/simcats/ideal_csd/geometric/_get_electron_occupation.py
+++ b/simcats/ideal_csd/geometric/_get_electron_occupation.py
@@ -195,6 +195,19 @@ def get_electron_occupation(
             region_pixels = np.where(csd_points_rot[:, 1] < y_vals_tct)
             csd_mask[region_pixels] = tct_value - 1
 
+    # The lines in the transition mask also cover pixels with a center slightly below the transition. For the last TCT,
+    # such pixels are assigned to the region below, as the occupations above it are undefined without another TCT.
+    if csd.ndim == 2 and len(tct_functions) > 0:
+        last_tct = max(tct_functions)
+        ids_rows, ids_cols = np.where(csd_mask == last_tct)
+        if ids_rows.size > 0 and last_tct + 1 not in bezier_coords:
+            points_rot = rotate_points(
+                points=np.vstack((col_values[ids_cols], row_values[ids_rows])).T, angle=-rotation
+            )
+            y_vals_tct = tct_functions[last_tct](x_eval=points_rot[:, 0], lut_entries=lut_entries)
+            below = points_rot[:, 1] < y_vals_tct
+            csd_mask[ids_rows[below], ids_cols[below]] = last_tct - 1
+
     # iterate over regions of the final mask & calculate occupations
     regs = np.unique(csd_mask)
     for reg in regs:
-- 
2.43.0


From fb59e4ad9835967c5a0bad22901cd5a3319dd637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:06 +0000
Subject: [PATCH 20/22] fix: pink noise with fmin above the highest frequency
 of the data was nan

---
 simcats/distortions/_pink_noise.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simcats/distortions/_pink_noise.py b/simcats/distortions/_pink_noise.py
index 294c499..57ffc58 100644
--- a/simcats/distortions/_pink_noise.py
+++ b/simcats/distortions/_pink_noise.py
@@ -123,6 +123,10 @@ def pink_gaussian_noise(
         np.ndarray: Original image distorted by pink noise.
 
     """
-    noise = cn.powerlaw_psd_gaussian(1, np.prod(original.shape), fmin=fmin, random_state=rng) * scale
+    size = np.prod(original.shape)
+    # the highest frequency of the spectrum can be smaller than 0.5 (e.g. for an odd number of pixels). Larger values of
+    # fmin than that would lead to an infinite scaling (nan values), therefore they are clipped.
+    fmin = min(fmin, np.fft.rfftfreq(size)[-1])
+    noise = cn.powerlaw_psd_gaussian(1, size, fmin=fmin, random_state=rng) * scale
     noise = np.reshape(noise, original.shape)
     return original + noise
-- 
2.43.0


From 6e030ba7f7f5097f7212fc8fc28d30aa6ed99d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:17 +0000
Subject: [PATCH 21/22] fix: a failed plot_csd call left its unfinished figure
 behind for the next plot

---
 simcats/support_functions/_plotting.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/simcats/support_functions/_plotting.py b/simcats/support_functions/_plotting.py
index 8cf202a..16b852f 100644
--- a/simcats/support_functions/_plotting.py
+++ b/simcats/support_functions/_plotting.py
@@ -3,12 +3,30 @@
 @author: f.hader
 """
 
+from contextlib import contextmanager
 from typing import Optional
 
 import numpy as np
 from matplotlib import pyplot as plt
 
 
+@contextmanager
+def _discard_unfinished_figure():
+    """Closes the figure created by a plot, if plotting or saving fails.
+
+    Otherwise, the next plot would be drawn on top of the unfinished one. Figures that were already open before are left
+    to the caller.
+    """
+    own_figure = not plt.get_fignums()
+    try:
+        yield
+    except BaseException:
+        if own_figure:
+            plt.close()
+        raise
+
+
+@_discard_unfinished_figure()
 def plot_csd(
     csd: np.ndarray,
     volt_limits_g1: np.ndarray,
-- 
2.43.0


From 4741d5bb3ff501be515083c193b9a1e3452e0087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:32 +0000
Subject: [PATCH 22/22] fix: sensor scans failed for a sensor without peak
 functions

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 4f74a10..d613ee5 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -870,6 +870,9 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         all_peaks = copy.deepcopy(self.sensor_peak_function)
         if isinstance(all_peaks, SensorPeakInterface):
             all_peaks = [all_peaks]
+        elif all_peaks is None:
+            # without peak functions, there are no Coulomb peaks to label
+            all_peaks = []
 
         # Sensor peaks are sorted according to their mu0 so that the increases in the masks function correctly
         # Peaks with a smaller mu0 overwrite the range of the previous peaks. The peaks, relating to the mu0, must
-- 
2.43.0

