From 31d64f85f7bd66be92c868a6d7644e53f9848051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:13 +0000
Subject: [PATCH 01/39] fix: accept CSD measurements without sensor voltages
 when sensor voltage limits are set

---
 simcats/_simulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index 2308ef1..9bcddd9 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -183,13 +183,15 @@ class Simulation:
             )
 
         if (
-                self.__volt_limits_sensor_g1 is not None
+                volt_sensor_g1 is not None
+                and self.__volt_limits_sensor_g1 is not None
                 and (
                 volt_sensor_g1 < self.__volt_limits_sensor_g1[0]
                 or volt_sensor_g1 > self.__volt_limits_sensor_g1[1]
         )
                 or (
-                self.__volt_limits_sensor_g2 is not None
+                volt_sensor_g2 is not None
+                and self.__volt_limits_sensor_g2 is not None
                 and (
                         volt_sensor_g2 < self.__volt_limits_sensor_g2[0]
                         or volt_sensor_g2 > self.__volt_limits_sensor_g2[1]
-- 
2.43.0


From 64cc14143d40542e0cb48391b74fc3b4efe0865f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:13 +0000
Subject: [PATCH 02/39] fix: support 1D sensor scans for every documented
 resolution format

---
 simcats/_simulation.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index 9bcddd9..9346bbf 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -468,6 +468,8 @@ class Simulation:
         if self.ideal_csd_config is None or volt_g1 is None or volt_g2 is None:
             if type(resolution) == int:
                 occupations = np.zeros((resolution, 2))
+            elif len(resolution) == 1:
+                occupations = np.zeros((int(resolution[0]), 2))
             else:
                 occupations = np.zeros((resolution[1], resolution[0], 2))
             undistorted_occupations = deepcopy(occupations)
@@ -480,11 +482,8 @@ class Simulation:
                 volt_limits_g1=(volt_g1, volt_g1), volt_limits_g2=(volt_g2, volt_g2), resolution=(1)
             )
 
-            if len(resolution) == 1:
-                resolution = int(resolution[0])
-
-            if type(resolution) == int:
-                occupations = np.ones((resolution, 2))
+            if type(resolution) == int or len(resolution) == 1:
+                occupations = np.ones((resolution if type(resolution) == int else int(resolution[0]), 2))
                 occupations[:, 0] = occupations[:, 0] * occupations_csd[0, 0]
                 occupations[:, 1] = occupations[:, 1] * occupations_csd[0, 1]
             else:
-- 
2.43.0


From ed02a467f1f7966f90f81ad8b48b9dd1c99f57ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:13 +0000
Subject: [PATCH 03/39] fix: pass the sensor gate 2 sweep range to response
 distortions of sensor scans

---
 simcats/_simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index 9346bbf..097dbf0 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -541,7 +541,7 @@ class Simulation:
         if self.__sensor_response_distortions is not None:
             for i in self.__sensor_response_distortions:
                 scan = i.noise_function(
-                    sensor_response=scan, volt_limits_g1=sweep_range_sensor_g1, volt_limits_g2=sweep_range_sensor_g1
+                    sensor_response=scan, volt_limits_g1=sweep_range_sensor_g1, volt_limits_g2=sweep_range_sensor_g2
                 )
 
         # create a dictionary containing all the metadata
-- 
2.43.0


From 182645d49207d65999e8a45cbdabaef7849f7991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:13 +0000
Subject: [PATCH 04/39] fix: report the supplied volt_g1 in the sensor scan
 warning

---
 simcats/_simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index 097dbf0..cc265f7 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -437,7 +437,7 @@ class Simulation:
             )
         if self.ideal_csd_config and ((volt_g1 is None) or (volt_g2 is None)):
             warnings.warn(
-                f"If an ideal_csd_config is specified, it is assumed that the two voltages volt_g1 ({volt_g2}) and "
+                f"If an ideal_csd_config is specified, it is assumed that the two voltages volt_g1 ({volt_g1}) and "
                 f"volt_g2 ({volt_g2}) are specified and are not equal to None. \n"
                 f"The ideal_csd_config is ignored and an occupation of 0 is assumed."
             )
-- 
2.43.0


From 5fccc5d96990d6262b58077645ea9c85bb7a2d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:13 +0000
Subject: [PATCH 05/39] fix: validate voltage limits that are supplied as a
 list

---
 simcats/_simulation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index cc265f7..ad2936d 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -585,7 +585,7 @@ class Simulation:
         """
         # check datatype of voltage limits
         if not (
-                volt_limits_g1 is None or (isinstance(volt_limits_g1, (np.ndarray, list)) and volt_limits_g1.size == 2)
+                volt_limits_g1 is None or (isinstance(volt_limits_g1, (np.ndarray, list)) and np.size(volt_limits_g1) == 2)
         ):
             raise ValueError(
                 f"The provided volt_limits_g1 configuration is not supported. Must be either None or "
@@ -614,7 +614,7 @@ class Simulation:
         """
         # check datatype of voltage limits
         if not (
-                volt_limits_g2 is None or (isinstance(volt_limits_g2, (np.ndarray, list)) and volt_limits_g2.size == 2)
+                volt_limits_g2 is None or (isinstance(volt_limits_g2, (np.ndarray, list)) and np.size(volt_limits_g2) == 2)
         ):
             raise ValueError(
                 f"The provided volt_limits_g2 configuration is not supported. Must be either None or "
@@ -644,7 +644,7 @@ class Simulation:
         # check datatype of voltage limits
         if not (
                 volt_limits_sensor_g1 is None or (
-                isinstance(volt_limits_sensor_g1, (np.ndarray, list)) and volt_limits_sensor_g1.size == 2)
+                isinstance(volt_limits_sensor_g1, (np.ndarray, list)) and np.size(volt_limits_sensor_g1) == 2)
         ):
             raise ValueError(
                 f"The provided volt_limits_sensor_g1 configuration is not supported. Must be either None or "
@@ -674,7 +674,7 @@ class Simulation:
         # check datatype of voltage limits
         if not (
                 volt_limits_sensor_g2 is None or (
-                isinstance(volt_limits_sensor_g2, (np.ndarray, list)) and volt_limits_sensor_g2.size == 2)
+                isinstance(volt_limits_sensor_g2, (np.ndarray, list)) and np.size(volt_limits_sensor_g2) == 2)
         ):
             raise ValueError(
                 f"The provided volt_limits_sensor_g2 configuration is not supported. Must be either None or "
-- 
2.43.0


From b964561f03c77fdcfe3ed61eafb087665de75d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 06/39] fix: use the occupation of the second dot for the first
 barrier's offset

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 03652aa..0a1f9c6 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -620,7 +620,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         offset1 = (gate_offset[0] +
                    self.offset_mu_sens[1] +
                    self.alpha_dot[1, 0] * occ[0] +
-                   self.alpha_dot[1, 1] * occ[0])
+                   self.alpha_dot[1, 1] * occ[1])
 
         offset2 = (gate_offset[1] +
                    self.offset_mu_sens[2] +
-- 
2.43.0


From 9829c5dfbf731d69bda8f5e10af69e8e3b9717e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 07/39] fix: use both sensor gate voltages for the barrier
 offsets of CSDs

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 0a1f9c6..6259465 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -613,7 +613,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
             voltages = np.array([self._volt_limits_g1[0], self._volt_limits_g2[0]])
             gate_offset = np.dot(self.alpha_gate[1:], voltages)
         else:
-            voltages = np.array([self._volt_limits_sensor_g1[0], self._volt_limits_sensor_g1[0]])
+            voltages = np.array([self._volt_limits_sensor_g1[0], self._volt_limits_sensor_g2[0]])
             gate_offset = np.dot(self.alpha_sensor_gate[1:], voltages)
 
         # Calculate potential offsets for both barriers
-- 
2.43.0


From d68429631eba87ac97b745add74a1192d05ecb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 08/39] fix: use the gate 2 voltage for the fully conductive
 region of sensor scan labels

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 6259465..090ce56 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -830,7 +830,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         fully_conductive_potential = self.sensor_potential(
             occupations=np.array((occ,)),
             volt_limits_g1=volt_limits_g1,
-            volt_limits_g2=volt_limits_g1,
+            volt_limits_g2=volt_limits_g2,
             volt_limits_sensor_g1=fully_conductive_point[0],
             volt_limits_sensor_g2=fully_conductive_point[1],
         )
-- 
2.43.0


From 915e25ba50917d447ee8c48b5e9766a94d90a248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 09/39] fix: accept integer plunger gate voltages for sensor
 scan labels

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 090ce56..047bf98 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -818,8 +818,8 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
 
         apply_deformations = len(self.sensor_peak_deformations) != 0
 
-        if not ((volt_limits_g1 is None or isinstance(volt_limits_g1, float)) and
-                (volt_limits_g2 is None or isinstance(volt_limits_g2, float))):
+        if not ((volt_limits_g1 is None or isinstance(volt_limits_g1, numbers.Real)) and
+                (volt_limits_g2 is None or isinstance(volt_limits_g2, numbers.Real))):
             raise ValueError("The volt limits have to be fixed values or None when sensor scan labels are generated!")
 
         fully_conductive_point = self._calc_point_from_barrier_potentials(
-- 
2.43.0


From 552bfaacd1010a2c964a8daa097d7fca2291f12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 10/39] fix: label deformed sensor peaks by their index in
 sensor_peak_function

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 047bf98..477a93d 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -881,10 +881,10 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
 
         for idx, peak, peak_id in reversed(list(peaks_sorted_with_id)):
             distorted_pot: np.ndarray
-            if idx in self.sensor_peak_deformations.keys():
-                deformation = self.sensor_peak_deformations[idx]
+            if peak_id in self.sensor_peak_deformations.keys():
+                deformation = self.sensor_peak_deformations[peak_id]
                 distorted_pot = sensor_pot + (
-                        peak.mu0 - deformation.calc_mu(dist=dist_array, mu0=self.sensor_peak_function[idx].mu0))
+                        peak.mu0 - deformation.calc_mu(dist=dist_array, mu0=peak.mu0))
             else:
                 distorted_pot = sensor_pot
 
-- 
2.43.0


From cdaf8118b8f8860dfcf0162eab9d84b5a2429016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 11/39] fix: label sensor scans of sensors without a peak
 function

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 477a93d..5f60f46 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -872,6 +872,9 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         all_peaks = copy.deepcopy(self.sensor_peak_function)
         if isinstance(all_peaks, SensorPeakInterface):
             all_peaks = [all_peaks]
+        elif all_peaks is None:
+            # linear sensor: there are no peaks to label
+            all_peaks = []
 
         # Sensor peaks are sorted according to their mu0 so that the increases in the masks function correctly
         # Peaks with a smaller mu0 overwrite the range of the previous peaks. The peaks, relating to the mu0, must
-- 
2.43.0


From f19762aeaf1c7398df5aa97062cf37a61a6176a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 12/39] fix: place the fully conductive point of the final rise
 at the offset for every mu0

---
 simcats/sensor/_sensor_rise_glf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/_sensor_rise_glf.py b/simcats/sensor/_sensor_rise_glf.py
index 42ab746..01a8a66 100644
--- a/simcats/sensor/_sensor_rise_glf.py
+++ b/simcats/sensor/_sensor_rise_glf.py
@@ -216,7 +216,7 @@ class SensorRiseGLF(SensorRiseInterface):
                    asymmetry=self.asymmetry,
                    shape_factor=self.shape_factor,
                    denominator_offset=self.denominator_offset,
-                   offset= -self.fully_conductive + offset)
+                   offset=self.mu0 - self.fully_conductive + offset)
 
     def __repr__(self):
         return (
-- 
2.43.0


From 41f3d40813cb977af27885ce2332175c9c04b01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 13/39] fix: make the representation of BarrierFunctionMultiGLF
 evaluable

---
 simcats/sensor/barrier_function/_barrier_function_multi_glf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/barrier_function/_barrier_function_multi_glf.py b/simcats/sensor/barrier_function/_barrier_function_multi_glf.py
index 8c05cc7..826e45d 100644
--- a/simcats/sensor/barrier_function/_barrier_function_multi_glf.py
+++ b/simcats/sensor/barrier_function/_barrier_function_multi_glf.py
@@ -153,5 +153,5 @@ class BarrierFunctionMultiGLF(BarrierFunctionInterface):
     def __repr__(self):
         return (
                 self.__class__.__name__
-                + f"(pinch_off={self.pinch_off}, fully_conductive={self.fully_conductive}, *params={self.__params}"
+                + f"({self.pinch_off}, {self.fully_conductive}, *{self.__params})"
         )
-- 
2.43.0


From 3ae6594b61efd9ec2d22a7e46ee29d8b74c71abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 14/39] fix: apply the quality multiplier to the distortions of
 sampled configurations

---
 .../_GaAs_v1_random_variations_v3_config_sampler.py         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py b/simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py
index 62366e7..99811f3 100644
--- a/simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py
+++ b/simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py
@@ -80,9 +80,9 @@ def sample_random_variations_v3_config(sensor_type: str = "SensorGeneric",
         raise ValueError(
             f"The parameter sensor_type must be either 'SensorGeneric' or 'SensorScanSensorGeneric'. The supplied value"
             f" '{sensor_type}' is not supported.")
-    config["occupation_distortions"] = sample_occupation_distortions()
-    config["sensor_potential_distortions"] = sample_sensor_potential_distortions()
-    config["sensor_response_distortions"] = sample_sensor_response_distortions()
+    config["occupation_distortions"] = sample_occupation_distortions(quality_multiplier=quality_multiplier)
+    config["sensor_potential_distortions"] = sample_sensor_potential_distortions(quality_multiplier=quality_multiplier)
+    config["sensor_response_distortions"] = sample_sensor_response_distortions(quality_multiplier=quality_multiplier)
     return config
 
 
-- 
2.43.0


From 4c4edb67e7c637e5c18ec194176fc3d789eea8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 15/39] fix: accept a float as horizontal line in
 is_point_below_line

---
 simcats/support_functions/_linear_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/support_functions/_linear_algebra.py b/simcats/support_functions/_linear_algebra.py
index 35f4ca5..d3f861c 100644
--- a/simcats/support_functions/_linear_algebra.py
+++ b/simcats/support_functions/_linear_algebra.py
@@ -24,7 +24,7 @@ def is_point_below_line(point: Tuple[float, float], line: Union[Tuple[float, flo
     x, y = point
 
     # If the straight line is specified as a single float, it is a horizontal line
-    if isinstance(line, int):
+    if isinstance(line, numbers.Real):
         b = line
         return y < b
     # If the straight line is specified as a tuple (m, b)
-- 
2.43.0


From fd159483381f8dee6b04a4d048aa1c301003a949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 16/39] fix: scale the transition blurring of 2D scans with the
 resolution of gate 1

---
 simcats/distortions/_transition_blurring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simcats/distortions/_transition_blurring.py b/simcats/distortions/_transition_blurring.py
index c9550b4..ecfe396 100644
--- a/simcats/distortions/_transition_blurring.py
+++ b/simcats/distortions/_transition_blurring.py
@@ -104,7 +104,7 @@ class OccupationTransitionBlurringFermiDirac(OccupationDistortionInterface):
                 resolution = occupations.shape[0:2]
                 # rescale the sigma according to the resolution (as it's defined per volt but must be applied per pixel)
                 # sweeping always happens in x-direction
-                sigma *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                sigma *= resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
                 occupations[:, :, 0] = fermi_filter1d(occupations[:, :, 0], sigma=sigma)
                 occupations[:, :, 1] = fermi_filter1d(occupations[:, :, 1], sigma=sigma)
             if len(occupations.shape) == 2:  # 1d scan
@@ -220,7 +220,7 @@ class OccupationTransitionBlurringGaussian(OccupationDistortionInterface):
                 resolution = occupations.shape[0:2]
                 # rescale the sigma according to the resolution (as it's defined per volt but must be applied per pixel)
                 # sweeping always happens in x-direction
-                sigma *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                sigma *= resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
                 occupations[:, :, 0] = gaussian_filter1d(occupations[:, :, 0], sigma=sigma)
                 occupations[:, :, 1] = gaussian_filter1d(occupations[:, :, 1], sigma=sigma)
             if len(occupations.shape) == 2:  # 1d scan
-- 
2.43.0


From d6bb833985b72fce8e0a0785c53b5efa3b1424e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 17/39] fix: assign the axes of 2D scans to the correct gates
 for random telegraph noise

---
 simcats/distortions/_random_telegraph_noise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simcats/distortions/_random_telegraph_noise.py b/simcats/distortions/_random_telegraph_noise.py
index 8e2fe84..90fd1c5 100644
--- a/simcats/distortions/_random_telegraph_noise.py
+++ b/simcats/distortions/_random_telegraph_noise.py
@@ -137,7 +137,8 @@ class RandomTelegraphNoise(DistortionInterface):
             scale = self.scale
         # rescale scale according to the resolution per voltage
         if len(original.shape) == 2:
-            resolution = original.shape
+            # axis 0 maps to gate 2 and axis 1 maps to gate 1
+            resolution = original.shape[::-1]
             if volt_limits_g1[0] == volt_limits_g1[1]:
                 scale *= resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
             elif volt_limits_g2[0] == volt_limits_g2[1]:
-- 
2.43.0


From b6ff328acc0e90bb0c3810ce125b6a7a100c52c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 18/39] fix: support random telegraph noise for scans with
 pixels larger than its scale

---
 simcats/distortions/_random_telegraph_noise.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/simcats/distortions/_random_telegraph_noise.py b/simcats/distortions/_random_telegraph_noise.py
index 90fd1c5..f53a54e 100644
--- a/simcats/distortions/_random_telegraph_noise.py
+++ b/simcats/distortions/_random_telegraph_noise.py
@@ -3,6 +3,7 @@
 @author: s.fleitmann
 """
 
+import warnings
 from typing import Union, Optional
 
 import numpy as np
@@ -152,6 +153,15 @@ class RandomTelegraphNoise(DistortionInterface):
             resolution = (original.shape[0], original.shape[0])
             # sweep between starting and ending point
             scale *= resolution[0] / np.maximum(np.max(volt_limits_g1) - np.min(volt_limits_g1), np.max(volt_limits_g2) - np.min(volt_limits_g2))
+        if 0 < scale < 1:
+            # smallest possible burst length is 1 pixel, so set to 1. As this might not be, what the user wants, warn
+            # about it
+            warnings.warn(
+                "The given scale in voltages results in a pixelwise scale of less than 1 and is thus set to 1. That "
+                "means the length of bursts is always 1. Consider using a larger scale or disabling random telegraph "
+                "noise for small scans."
+            )
+            scale = 1
 
         try:
             std = self.std.sample_parameter()
-- 
2.43.0


From 332c47b92376666a14ec8f2986ff64c1f98f96ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 19/39] fix: do not wrap around dot jumps that exceed 255
 pixels

---
 simcats/distortions/_dot_jumps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 22b6038..bd1f32a 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -603,7 +603,7 @@ def generate_dot_jumps_blockwise(
             break
 
     noise = noise[:size]
-    noise = noise.astype("uint8")
+    noise = noise.astype(int)
     return noise
 
 
@@ -737,7 +737,7 @@ def dot_jumps_pixelwise(
 
         noise = noise[:size]
         noise = noise.reshape(original.shape)
-        noise = noise.astype("uint8")
+        noise = noise.astype(int)
 
     shifted = np.empty(original.shape)
     rows = original.shape[0]
-- 
2.43.0


From e0c0c4d127ff875fa8260f4b5c5d9a82258c3fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 20/39] fix: apply dot jumps from low to high voltages if both
 gates are swept downwards

---
 simcats/distortions/_dot_jumps.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index bd1f32a..c81abe4 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -232,9 +232,9 @@ class OccupationDotJumps(OccupationDistortionInterface):
                 if lead_transitions is not None:
                     sorted_transitions = lead_transitions[::-1, :]
             if volt_limits_g1[0] > volt_limits_g1[1]:
-                sorted_occupations = occupations[:, ::-1]
+                sorted_occupations = sorted_occupations[:, ::-1]
                 if lead_transitions is not None:
-                    sorted_transitions = lead_transitions[:, ::-1]
+                    sorted_transitions = sorted_transitions[:, ::-1]
             self._noise_function_2d(
                 sorted_occupations,
                 sorted_transitions,
@@ -247,13 +247,16 @@ class OccupationDotJumps(OccupationDistortionInterface):
             )
             # bring back into original order
             if volt_limits_g2[0] > volt_limits_g2[1]:
-                occupations = sorted_occupations[::-1, :]
+                sorted_occupations = sorted_occupations[::-1, :]
                 if lead_transitions is not None:
-                    lead_transitions = sorted_transitions[::-1, :]
+                    sorted_transitions = sorted_transitions[::-1, :]
             if volt_limits_g1[0] > volt_limits_g1[1]:
-                occupations = sorted_occupations[:, ::-1]
+                sorted_occupations = sorted_occupations[:, ::-1]
                 if lead_transitions is not None:
-                    lead_transitions = sorted_transitions[:, ::-1]
+                    sorted_transitions = sorted_transitions[:, ::-1]
+            occupations = sorted_occupations
+            if lead_transitions is not None:
+                lead_transitions = sorted_transitions
         return occupations, lead_transitions
 
     def _noise_function_1d(
-- 
2.43.0


From e50d0a639005d285897691b8a8fdf557448738af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:49 +0000
Subject: [PATCH 21/39] fix: scale dot jumps of 2D scans with the resolution of
 the shifted axis

---
 simcats/distortions/_dot_jumps.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index c81abe4..5ea7086 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -183,15 +183,15 @@ class OccupationDotJumps(OccupationDistortionInterface):
             except AttributeError:
                 lam = self.lam
             if self.axis == 1:  # dot jumps in x direction
-                scale *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
-                lam *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
-            elif self.axis == 0:  # dot jumps in y direction
                 if len(occupations.shape) == 3:
-                    scale *= resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
-                    lam *= resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
+                    scale *= resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                    lam *= resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
                 else:
-                    scale *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
-                    lam *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
+                    scale *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                    lam *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+            elif self.axis == 0:  # dot jumps in y direction
+                scale *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
+                lam *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
             if scale < 1:
                 # smallest possible value is 1, so set to 1. As this might not be, what the user wants, warn about it
                 warnings.warn(
-- 
2.43.0


From 292e8574bd204cc9de1a64fea36f3ef84512aa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:49 +0000
Subject: [PATCH 22/39] fix: skip dot jumps along a gate that is kept at a
 fixed voltage in 1D scans

---
 simcats/distortions/_dot_jumps.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 5ea7086..7ef204e 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -161,6 +161,13 @@ class OccupationDotJumps(OccupationDistortionInterface):
         if freeze and not self.__activated:
             return occupations, lead_transitions
 
+        # blocks of pixels along a gate can only be shifted if this gate is swept (1D scans might keep it fixed)
+        jump_limits = volt_limits_g1 if self.axis == 1 else volt_limits_g2
+        if jump_limits[0] == jump_limits[1] and len(occupations.shape) == 2:
+            if not freeze:
+                self.__activated = False
+            return occupations, lead_transitions
+
         # only resample activation if not frozen
         if not freeze:
             if not bool(self.rng.binomial(1, self.ratio)):
-- 
2.43.0


From 915c3a2554cbd1ab2ba5718e2bce002019f847e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 23/39] fix: shift dot jumps of 1D scans along the swept line
 if the gates are swept in opposite directions

---
 simcats/distortions/_dot_jumps.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 7ef204e..3242c26 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -215,7 +215,14 @@ class OccupationDotJumps(OccupationDistortionInterface):
         sorted_occupations = occupations
         sorted_transitions = lead_transitions
         if len(occupations.shape) == 2:  # 1d scan
-            if volt_limits_g2[0] > volt_limits_g2[1] or volt_limits_g1[0] > volt_limits_g1[1]:
+            # both gates are swept simultaneously, so only the gate affected by the jumps determines if the sweep has to
+            # be reversed (gates that are swept in opposite directions must not be sorted independently)
+            reverse_sweep = jump_limits[0] > jump_limits[1]
+            sorted_limits_g1 = np.array(volt_limits_g1)
+            sorted_limits_g2 = np.array(volt_limits_g2)
+            if reverse_sweep:
+                sorted_limits_g1 = sorted_limits_g1[::-1]
+                sorted_limits_g2 = sorted_limits_g2[::-1]
                 sorted_occupations = occupations[::-1]
                 if lead_transitions is not None:
                     sorted_transitions = lead_transitions[::-1]
@@ -229,7 +236,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
                 lam,
                 freeze,
             )
-            if volt_limits_g2[0] > volt_limits_g2[1] or volt_limits_g1[0] > volt_limits_g1[1]:
+            if reverse_sweep:
                 occupations = sorted_occupations[::-1]
                 if lead_transitions is not None:
                     lead_transitions = sorted_transitions[::-1]
-- 
2.43.0


From 561a07a81fcec5e6e7133091628b0c5dfa3f0824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 24/39] fix: use the step size of gate 2 for dot jumps of 1D
 scans along gate 2

---
 simcats/distortions/_dot_jumps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 3242c26..7ed27c2 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -360,7 +360,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
                         # insert the i-th diagonal there
                         np.fill_diagonal(lead_transitions_2d, left_charge_transitions)
             if self.axis == 0:
-                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / occupations.shape[0]
+                step_size = (volt_limits_g2[1] - volt_limits_g2[0]) / occupations.shape[0]
                 for i in range(max_jump):
                     top_occupation, top_charge_transitions = generate_csd(
                         volt_limits_g1=volt_limits_g1,
-- 
2.43.0


From 3f16cd98fed9434012d0830091f4aa5a18d38551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 25/39] fix: sample the data shifted in by dot jumps at the
 pixel pitch of the scan

---
 simcats/distortions/_dot_jumps.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 7ed27c2..99554a5 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -334,7 +334,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
             added_pixels = max_jump
             if self.axis == 1:
                 # generate the necessary part to the "left" of the CSD and fill into 2d csd
-                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / occupations.shape[0]
+                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / (occupations.shape[0] - 1)
                 for i in range(max_jump):
                     left_occupation, left_charge_transitions = generate_csd(
                         volt_limits_g1=(
@@ -360,7 +360,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
                         # insert the i-th diagonal there
                         np.fill_diagonal(lead_transitions_2d, left_charge_transitions)
             if self.axis == 0:
-                step_size = (volt_limits_g2[1] - volt_limits_g2[0]) / occupations.shape[0]
+                step_size = (volt_limits_g2[1] - volt_limits_g2[0]) / (occupations.shape[0] - 1)
                 for i in range(max_jump):
                     top_occupation, top_charge_transitions = generate_csd(
                         volt_limits_g1=volt_limits_g1,
@@ -482,7 +482,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
             added_pixels = max_jump
             if self.axis == 1:  # jumps in x direction
                 # generate the necessary part to the "left" of the CSD and stack to CSD
-                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / occupation.shape[1]
+                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / (occupation.shape[1] - 1)
                 left_occupation, left_charge_transitions = generate_csd(
                     volt_limits_g1=(
                         volt_limits_g1[0] - max_jump * step_size,
@@ -498,7 +498,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
                     total_charge_transitions_stacked = np.hstack((left_charge_transitions, lead_transitions))
             elif self.axis == 0:  # jumps in y direction
                 # generate the necessary part to the "top" of the CSD array and stack to CSD
-                step_size = (volt_limits_g2[1] - volt_limits_g2[0]) / occupation.shape[0]
+                step_size = (volt_limits_g2[1] - volt_limits_g2[0]) / (occupation.shape[0] - 1)
                 top_occupation, top_charge_transitions = generate_csd(
                     volt_limits_g1=volt_limits_g1,
                     volt_limits_g2=(
-- 
2.43.0


From f0b38dcb3850ab6e58fd74a85aedf9ab5cf127bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 26/39] fix: use the occupations and lead transitions returned
 by occupation distortions

---
 simcats/_simulation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index ad2936d..ae5884b 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -251,7 +251,8 @@ class Simulation:
         # add distortions to the occupations
         if self.__occupation_distortions is not None:
             for i in self.__occupation_distortions:
-                i.noise_function(occupations, lead_transitions, sweep_range_g1, sweep_range_g2, generate_csd)
+                occupations, lead_transitions = i.noise_function(occupations, lead_transitions, sweep_range_g1,
+                                                                 sweep_range_g2, generate_csd)
 
                 def generate_csd_with_noise(volt_limits_g1, volt_limits_g2, resolution, generate_csd, noise_function):
                     """
@@ -259,9 +260,8 @@ class Simulation:
                     next distortions.
                     """
                     occupations, lead_transitions = generate_csd(volt_limits_g1, volt_limits_g2, resolution)
-                    noise_function(occupations, lead_transitions, volt_limits_g1, volt_limits_g2, generate_csd,
-                                   freeze=True)
-                    return occupations, lead_transitions
+                    return noise_function(occupations, lead_transitions, volt_limits_g1, volt_limits_g2, generate_csd,
+                                          freeze=True)
 
                 generate_csd = partial(generate_csd_with_noise, generate_csd=generate_csd,
                                        noise_function=i.noise_function)
-- 
2.43.0


From 686cc5428ec0ef894bce40f11782c7dced5a9699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 27/39] fix: evaluate the bezier curve of TCTs without
 lookup-table in a numerically stable way

The symbolic solution of the implicit equation is quadratic in y with a leading
coefficient that (almost) vanishes if the central anchor is in the middle of the
outer anchors, resulting in values like 2.7e8.
---
 simcats/ideal_csd/geometric/_tct_bezier.py | 47 +++++++++-------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/simcats/ideal_csd/geometric/_tct_bezier.py b/simcats/ideal_csd/geometric/_tct_bezier.py
index a90850f..97b4ff5 100644
--- a/simcats/ideal_csd/geometric/_tct_bezier.py
+++ b/simcats/ideal_csd/geometric/_tct_bezier.py
@@ -13,7 +13,6 @@ from typing import Union, Optional
 
 import bezier
 import numpy as np
-import sympy
 
 
 def tct_bezier(
@@ -88,10 +87,17 @@ def tct_bezier(
     if lut_entries:
         t = np.linspace(0, 1, lut_entries)
         bezier_lut = bezier_curve.evaluate_multi(t)
-    else:
-        xb, yb = sympy.symbols("x y")
-        bezier_implicit = bezier_curve.implicitize()
-        bezier_implicit_solved = sympy.solve(bezier_implicit, yb)
+
+    def eval_bezier(x: float) -> float:
+        # s is not linearly mapped to x, so that s has to be retrieved for the given x first. x(s) - x is the quadratic
+        # polynomial a*s^2 + b*s + c, which is increasing in [0, 1]. The form of the solution used here is also stable
+        # for (almost) vanishing a, i.e. if the central anchor is in the middle of the left & right anchor (in x-space)
+        a = x_vals[0] - 2 * x_vals[1] + x_vals[2]
+        b = 2 * (x_vals[1] - x_vals[0])
+        c = x_vals[0] - x
+        denominator = b + math.sqrt(max(b**2 - 4 * a * c, 0))
+        s = min(max(-2 * c / denominator, 0.0), 1.0) if denominator > 0 else 0.0
+        return bezier_curve.evaluate(s)[1, 0]
 
     # retrieve length of bezier curve & period length. Both are required to calculate the region
     # where the x-values to be evaluated are located
@@ -144,18 +150,8 @@ def tct_bezier(
                     # retrieve y-value of x-value closest to the desired x-value
                     y_res[x_id] = bezier_lut[1, np.argmin(np.abs(bezier_lut[0, :] - (x_mod_per + offset_x)))]
                 else:
-                    # use sympy to solve symbolic expression for x, because s is not linearly mapped to x
-                    temp_y = [
-                        bezier_implicit_solution.subs({xb: x_mod_per + offset_x})
-                        for bezier_implicit_solution in bezier_implicit_solved
-                    ]
-                    # might get two solutions because implicit function might be quadratic. If so, the second solution
-                    # is the positive one and selected therefore, as we assume to have only positive y-values after
-                    # rotating a signal with only positive x- & y-values by 45 degree
-                    if len(temp_y) == 2:
-                        y_res[x_id] = np.max(temp_y)
-                    elif len(temp_y) == 1:
-                        y_res[x_id] = temp_y[0]
+                    # exact evaluation of the curve
+                    y_res[x_id] = eval_bezier(x_mod_per + offset_x)
             elif x_mod_per < (bezier_length + right_lin_length):
                 # linear part starting at the end of the maxima/peak bezier curve
                 y_res[x_id] = y_vals[2] + (x_mod_per - bezier_length) * tct_params[3]
@@ -177,18 +173,11 @@ def tct_bezier(
                         + y_offset_inv_bezier
                     )
                 else:
-                    # use sympy to solve symbolic expression for x, because s is not linearly mapped to x
-                    temp_y = [
-                        bezier_implicit_solution.subs({xb: 2 * bezier_length + right_lin_length - x_mod_per + offset_x})
-                        for bezier_implicit_solution in bezier_implicit_solved
-                    ]
-                    # might get two solutions because implicit function might be quadratic. If so, the second solution
-                    # is the positive one and selected therefore, as we assume to have only positive y-values after
-                    # rotating a signal with only positive x- & y-values by 45 degree
-                    if len(temp_y) == 2:
-                        y_res[x_id] = -1 * np.max(temp_y) + y_offset_inv_bezier
-                    elif len(temp_y) == 1:
-                        y_res[x_id] = -1 * temp_y[0] + y_offset_inv_bezier
+                    # exact evaluation of the curve
+                    y_res[x_id] = (
+                        -1 * eval_bezier(2 * bezier_length + right_lin_length - x_mod_per + offset_x)
+                        + y_offset_inv_bezier
+                    )
             else:
                 # linear part ending at the beginning of the maxima/peak bezier curve
                 y_res[x_id] = (y_offset_inv_bezier - y_vals[0]) + (
-- 
2.43.0


From 474dd31540b35a3ffdf92114ce9319f723f49e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 28/39] fix: raise IndexError for 1D CSDs that exceed the last
 TCT

Pixels above the last TCT silently got zero electrons, while 2D CSDs raise an
IndexError.
---
 simcats/ideal_csd/geometric/_get_electron_occupation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simcats/ideal_csd/geometric/_get_electron_occupation.py b/simcats/ideal_csd/geometric/_get_electron_occupation.py
index 53af5db..85c07c6 100644
--- a/simcats/ideal_csd/geometric/_get_electron_occupation.py
+++ b/simcats/ideal_csd/geometric/_get_electron_occupation.py
@@ -186,6 +186,8 @@ def get_electron_occupation(
     elif csd.ndim == 1:
         csd_points = np.vstack((col_values, row_values)).T
         csd_points_rot = rotate_points(points=csd_points, angle=-rotation)
+        # pixels that are not below any of the TCTs belong to the region above the last TCT
+        csd_mask[:] = max(tct_functions, default=0)
         # iterate TCTs
         for tct_value, tct_func in sorted(tct_functions.items(), reverse=True):
             y_vals_tct = tct_func(x_eval=csd_points_rot[:, 0], lut_entries=lut_entries)
-- 
2.43.0


From a77a838eb66f239a983370b9c4721753afec759b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 29/39] fix: determine the period of TCT points consistently

math.floor(x / period) and np.mod(x, period) could disagree for points at the
end of a period, which shifted the point by one period offset.
---
 simcats/ideal_csd/geometric/_tct_bezier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simcats/ideal_csd/geometric/_tct_bezier.py b/simcats/ideal_csd/geometric/_tct_bezier.py
index 97b4ff5..2547549 100644
--- a/simcats/ideal_csd/geometric/_tct_bezier.py
+++ b/simcats/ideal_csd/geometric/_tct_bezier.py
@@ -142,8 +142,8 @@ def tct_bezier(
         # retrieve y values for given x_eval
         for x_id, x in zip(ids_wave, x_eval[ids_wave]):
             # detect position (rising/falling flank or bezier/rotated bezier)
-            x_mod_per = np.mod(x, period_length)
-            period_no = math.floor(x / period_length)
+            # (divmod ensures that both values are consistent, even if x is located directly at the end of a period)
+            period_no, x_mod_per = np.divmod(x, period_length)
             if x_mod_per < bezier_length:
                 # bezier at peak/maxima
                 if lut_entries:
-- 
2.43.0


From c2269d07aa116080588378925a5a6ca6f7ad7ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 30/39] fix: keep circular deformations with negative radius
 continuous outside of the circle

---
 simcats/sensor/deformation/_sensor_peak_deformation_circle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/deformation/_sensor_peak_deformation_circle.py b/simcats/sensor/deformation/_sensor_peak_deformation_circle.py
index ad87c97..0c04a8b 100644
--- a/simcats/sensor/deformation/_sensor_peak_deformation_circle.py
+++ b/simcats/sensor/deformation/_sensor_peak_deformation_circle.py
@@ -92,7 +92,7 @@ class SensorPeakDeformationCircle(SensorPeakDeformationInterface):
 
         # Calculation of both possible points of the circle that have the distance dist to the middle line
         temp1 = mu0 - (radius_abs - cos_angle * radius_abs) * sign_radius
-        temp2 = mu0 - radius_volt * np.sign(radius_volt)
+        temp2 = mu0 - radius_volt
 
         # Selection of the result that is closer to the output mu0
         result = np.where(dist <= radius_abs, temp1, temp2)
-- 
2.43.0


From 4447024fc7ee341ad5c0159c3742213e231af8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 31/39] fix: make the representation of a Simulation with
 voltage limits evaluable

---
 simcats/_simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index ae5884b..6da08de 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -839,5 +839,5 @@ class Simulation:
     def __repr__(self):
         return (
                 self.__class__.__name__
-                + f"(volt_limits_g1={self.volt_limits_g1}, volt_limits_g2={self.volt_limits_g2}, volt_limits_sensor_g1={self.__volt_limits_sensor_g1}, volt_limits_sensor_g2={self.__volt_limits_sensor_g2},ideal_csd_config={self.ideal_csd_config}, sensor={self.sensor}, occupation_distortions={self.occupation_distortions}, sensor_potential_distortions={self.sensor_potential_distortions}, sensor_response_distortions={self.sensor_response_distortions})"
+                + f"(volt_limits_g1={repr(self.volt_limits_g1)}, volt_limits_g2={repr(self.volt_limits_g2)}, volt_limits_sensor_g1={repr(self.__volt_limits_sensor_g1)}, volt_limits_sensor_g2={repr(self.__volt_limits_sensor_g2)},ideal_csd_config={self.ideal_csd_config}, sensor={self.sensor}, occupation_distortions={self.occupation_distortions}, sensor_potential_distortions={self.sensor_potential_distortions}, sensor_response_distortions={self.sensor_response_distortions})"
         )
-- 
2.43.0


From 7218ac4e8eb309bc13f0044ffe787790dde4ed41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 32/39] fix: sample charge transitions densely enough for 2D
 scans with elongated pixels

---
 .../ideal_csd/geometric/_generate_lead_transition_mask.py  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py b/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py
index c929d1c..7e9821c 100644
--- a/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py
+++ b/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py
@@ -101,8 +101,11 @@ def generate_lead_transition_mask_2d(
     x_c_rot = rotate_points(points=corner_points, angle=-rotation)[:, 0]
     # generate enough x-values to cover the complete range of the CSD with a
     # higher resolution than required to have a precise result after discretization
-    tct_points = np.empty(((x_res + y_res) * 4, 2))
-    tct_points[:, 0] = np.linspace(np.min(x_c_rot) - x_step, np.max(x_c_rot) + x_step, (x_res + y_res) * 4)
+    # (if the pixels are much smaller in one direction than in the other, the smaller step size determines how many are
+    # required to get lines without gaps)
+    num_points = max((x_res + y_res) * 4, int(np.ceil(4 * (np.ptp(x_c_rot) + 2 * x_step) / min(x_step, y_step))))
+    tct_points = np.empty((num_points, 2))
+    tct_points[:, 0] = np.linspace(np.min(x_c_rot) - x_step, np.max(x_c_rot) + x_step, num_points)
 
     # Insert the transition lines into the CSD
     # If the CSD is 2D, the required TCT points are sampled and discretized.
-- 
2.43.0


From e7b76bdd287b4b1a4586bfe058f6723f4fd56b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:05 +0000
Subject: [PATCH 33/39] fix: locate the final rise of scan sensors at the
 occupation and plunger gate voltages of each pixel

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 51 +++++++++----------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 5f60f46..2135e5b 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -527,35 +527,30 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
                 sens_resp = np.sum([p.sensor_function(sensor_potential) for p in self.__sensor_peak_function], axis=0)
 
             if self.final_rise is not None:
-                # Calculation of the middle point
-                g1_voltage = self._volt_limits_g1[0]
-                g2_voltage = self._volt_limits_g2[0]
-
-                if self._occupations.ndim == 2:
-                    occ = (self._occupations[0, 0], self._occupations[0, 1])
-                elif self._occupations.ndim == 3:
-                    occ = (self._occupations[0, 0, 0], self._occupations[0, 0, 1])
-                else:
-                    raise ValueError(
-                        "Invalid dimension of occupations! The dimension of the occupations must be one larger than "
-                        "the scan dimension")
-
-                fully_conductive_point = self._calc_point_from_barrier_potentials(
-                    pot_bar1=self.barrier_functions[0].fully_conductive,
-                    pot_bar2=self.barrier_functions[1].fully_conductive,
-                    sensor_swept=sensor_swept
-                )
-
-                fully_conductive_potential = self.sensor_potential(
-                    occupations=np.array((occ,)),
-                    volt_limits_g1=g1_voltage,
-                    volt_limits_g2=g2_voltage,
-                    volt_limits_sensor_g1=fully_conductive_point[0],
-                    volt_limits_sensor_g2=fully_conductive_point[1],
+                # The rise is located at the point of the sensor gate voltages where both barriers are fully conductive. It
+                # depends on the occupation and the plunger gate voltages, so that it's different for the pixels of a CSD.
+                # Calculating the potentials (without sensor gates) must not replace the stored sweep of the sensor gates.
+                volt_limits_sensor = (self._volt_limits_sensor_g1, self._volt_limits_sensor_g2)
+                potential_wo_gates, barrier1_wo_gates, barrier2_wo_gates = self.sensor_potential(
+                    occupations=self._occupations,
+                    volt_limits_g1=self._volt_limits_g1,
+                    volt_limits_g2=self._volt_limits_g2,
                 )
-
-                final_rise_resp = self.final_rise.sensor_function(sensor_potential,
-                                                                  offset=fully_conductive_potential[0])
+                self._volt_limits_sensor_g1, self._volt_limits_sensor_g2 = volt_limits_sensor
+
+                # contribution of the sensor gates to the barrier potentials at the fully conductive point
+                barrier1_gates = self.barrier_functions[0].fully_conductive - barrier1_wo_gates
+                barrier2_gates = self.barrier_functions[1].fully_conductive - barrier2_wo_gates
+                determinant = (self.alpha_sensor_gate[1, 0] * self.alpha_sensor_gate[2, 1] -
+                               self.alpha_sensor_gate[1, 1] * self.alpha_sensor_gate[2, 0])
+                fully_conductive_v1 = (barrier1_gates * self.alpha_sensor_gate[2, 1] -
+                                       barrier2_gates * self.alpha_sensor_gate[1, 1]) / determinant
+                fully_conductive_v2 = (barrier2_gates * self.alpha_sensor_gate[1, 0] -
+                                       barrier1_gates * self.alpha_sensor_gate[2, 0]) / determinant
+                fully_conductive_potential = (potential_wo_gates + self.alpha_sensor_gate[0, 0] * fully_conductive_v1 +
+                                              self.alpha_sensor_gate[0, 1] * fully_conductive_v2)
+
+                final_rise_resp = self.final_rise.sensor_function(sensor_potential, offset=fully_conductive_potential)
 
                 sens_resp = np.maximum(sens_resp, final_rise_resp)
 
-- 
2.43.0


From 0749eb3ee9dc505eacf675ae58e2b342dea91f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:13 +0000
Subject: [PATCH 34/39] fix: do not share peak deformations (and the default
 dictionary of them) between scan sensors

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 2135e5b..b8fed67 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -35,7 +35,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
             alpha_dot: np.ndarray = np.array([[0, 0], [0, 0], [0, 0]]),
             offset_mu_sens: np.ndarray = np.array([0, 0, 0]),
             final_rise: Optional[SensorRiseInterface] = None,
-            sensor_peak_deformations: Dict[int, SensorPeakDeformationInterface] = {}
+            sensor_peak_deformations: Optional[Dict[int, SensorPeakDeformationInterface]] = None
     ):
         """Initializes an object of the class for the simulation of the sensor response for a sensor scan.
 
@@ -83,14 +83,15 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
                 is the actual deformation object used for a wavefront.
             """
         self.sensor_peak_function = sensor_peak_function
-        self.sensor_peak_deformations = sensor_peak_deformations
+        # copy the deformations, because they are bound to this sensor (must not affect other sensors using the same ones)
+        self.sensor_peak_deformations = {idx: copy.copy(deformation) for idx, deformation in
+                                         (sensor_peak_deformations or {}).items()}
         self.final_rise = final_rise
 
         if self.sensor_peak_function is not None:
             for idx, peak_func in enumerate(self.sensor_peak_function):
-                if sensor_peak_deformations is not None and idx in sensor_peak_deformations:
-                    deformation = sensor_peak_deformations[idx]
-                    deformation.sensor = self
+                if idx in self.sensor_peak_deformations:
+                    self.sensor_peak_deformations[idx].sensor = self
 
         self.alpha_dot = alpha_dot
         self.alpha_gate = alpha_gate
-- 
2.43.0


From d715c75f1085b652c2e3ba0a04cfc6b402f3092d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:13 +0000
Subject: [PATCH 35/39] fix: copy the parts supplied to scan sensors, so that
 adjusting one sensor affects no other sensor

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index b8fed67..588a601 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -161,7 +161,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
                 value is None. If None is used, no rise is added to the sensor function.
         """
         if isinstance(final_rise, SensorRiseInterface) or final_rise is None:
-            self.__final_rise = final_rise
+            self.__final_rise = deepcopy(final_rise)
         else:
             raise ValueError(
                 "The provided final_rise is not supported. Must be an implementation of the SensorPeakInterface or None."
@@ -194,7 +194,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
             self.__barrier_functions = [deepcopy(barrier_functions), deepcopy(barrier_functions)]
         elif isinstance(barrier_functions, (list, tuple)) and all(
                 isinstance(x, BarrierFunctionInterface) for x in barrier_functions) and len(barrier_functions) == 2:
-            self.__barrier_functions = barrier_functions
+            self.__barrier_functions = deepcopy(barrier_functions)
         else:
             raise ValueError(
                 "The provided barrier_functions are invalid. The barrier functions must be a tuple with two "
@@ -243,7 +243,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
                 self.__alpha_dot = np.array([alpha_dot, alpha_dot, alpha_dot])
                 return
             elif alpha_dot.shape == (3, 2):
-                self.__alpha_dot = alpha_dot
+                self.__alpha_dot = deepcopy(alpha_dot)
                 return
         elif alpha_dot is None:
             self.__alpha_dot = np.array([[0, 0], [0, 0], [0, 0]])
@@ -294,7 +294,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
                 self.__alpha_gate = np.array([alpha_gate, alpha_gate, alpha_gate])
                 return
             elif alpha_gate.shape == (3, 2):
-                self.__alpha_gate = alpha_gate
+                self.__alpha_gate = deepcopy(alpha_gate)
                 return
         elif alpha_gate is None:
             self.__alpha_gate = np.array([[0, 0], [0, 0], [0, 0]])
@@ -340,7 +340,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         """
         # check if alpha_sensor_gate is passed in an acceptable format
         if isinstance(alpha_sensor_gate, np.ndarray) and alpha_sensor_gate.shape == (3, 2):
-            self.__alpha_sensor_gate = alpha_sensor_gate
+            self.__alpha_sensor_gate = deepcopy(alpha_sensor_gate)
             return
 
         # Raise error if none of the cases for valid alpha_sensor_gate formats from before is true
@@ -374,7 +374,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         """
         # check datatype of offset_mu_sens
         if isinstance(offset_mu_sens, np.ndarray) and offset_mu_sens.shape == (3,):
-            self.__offset_mu_sens = offset_mu_sens
+            self.__offset_mu_sens = deepcopy(offset_mu_sens)
         elif isinstance(offset_mu_sens, (float, int)):
             self.__offset_mu_sens = np.array([offset_mu_sens, offset_mu_sens, offset_mu_sens])
         else:
-- 
2.43.0


From 390717b722ef587a541f5de3d61c8a0d07407f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:45 +0000
Subject: [PATCH 36/39] fix: blur integer occupations without truncating the
 averages

---
 simcats/distortions/_transition_blurring.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simcats/distortions/_transition_blurring.py b/simcats/distortions/_transition_blurring.py
index ecfe396..264e811 100644
--- a/simcats/distortions/_transition_blurring.py
+++ b/simcats/distortions/_transition_blurring.py
@@ -100,6 +100,9 @@ class OccupationTransitionBlurringFermiDirac(OccupationDistortionInterface):
                 sigma = self.sigma
         self.__latest_sigma = sigma
         if sigma > 0:
+            if not np.issubdtype(occupations.dtype, np.floating):
+                # the average of integer occupations is in general no integer
+                occupations = occupations.astype(float)
             if len(occupations.shape) == 3:  # 2d scan
                 resolution = occupations.shape[0:2]
                 # rescale the sigma according to the resolution (as it's defined per volt but must be applied per pixel)
@@ -216,6 +219,9 @@ class OccupationTransitionBlurringGaussian(OccupationDistortionInterface):
                 sigma = self.sigma
         self.__latest_sigma = sigma
         if sigma > 0:
+            if not np.issubdtype(occupations.dtype, np.floating):
+                # the average of integer occupations is in general no integer
+                occupations = occupations.astype(float)
             if len(occupations.shape) == 3:  # 2d scan
                 resolution = occupations.shape[0:2]
                 # rescale the sigma according to the resolution (as it's defined per volt but must be applied per pixel)
-- 
2.43.0


From fb699a027a0712231fa1c5f0c8096a984f0538c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:05 +0000
Subject: [PATCH 37/39] fix: tct_bezier accepts integer x-values

---
 simcats/ideal_csd/geometric/_tct_bezier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simcats/ideal_csd/geometric/_tct_bezier.py b/simcats/ideal_csd/geometric/_tct_bezier.py
index 2547549..dc00cf5 100644
--- a/simcats/ideal_csd/geometric/_tct_bezier.py
+++ b/simcats/ideal_csd/geometric/_tct_bezier.py
@@ -53,8 +53,8 @@ def tct_bezier(
         x_eval = np.array([x_eval])
     else:
         single_value = False
-    # copy x_eval so that the original supplied array is not modified
-    x_eval = np.copy(x_eval)
+    # copy x_eval so that the original supplied array is not modified (integer x-values can't be shifted by the float offset)
+    x_eval = np.array(x_eval, dtype=float)
 
     # setup array for resulting y-values
     y_res = np.zeros(x_eval.shape)
-- 
2.43.0


From 3c92888e1454dca928aaa7243ae600247c3efd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:13 +0000
Subject: [PATCH 38/39] fix: tct_bezier keeps the center anchor exact for
 integer tct_params

---
 simcats/ideal_csd/geometric/_tct_bezier.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simcats/ideal_csd/geometric/_tct_bezier.py b/simcats/ideal_csd/geometric/_tct_bezier.py
index dc00cf5..a92f365 100644
--- a/simcats/ideal_csd/geometric/_tct_bezier.py
+++ b/simcats/ideal_csd/geometric/_tct_bezier.py
@@ -60,8 +60,9 @@ def tct_bezier(
     y_res = np.zeros(x_eval.shape)
 
     # setup coordinates for bezier curve nodes
-    x_vals = np.array([tct_params[4], 0, tct_params[6]])
-    y_vals = np.array([tct_params[5], 0, tct_params[7]])
+    # (always floats, because the center anchor is in general not located at integer coordinates)
+    x_vals = np.array([tct_params[4], 0, tct_params[6]], dtype=float)
+    y_vals = np.array([tct_params[5], 0, tct_params[7]], dtype=float)
     if x_vals[0] == x_vals[2] and y_vals[0] == y_vals[2]:
         # no interdot coupling region specified -> center anchor is equal to outer anchors
         x_vals[1] = x_vals[0]
-- 
2.43.0


From 062f6e6b59670a1f31be1d3069d8520d121db4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:13 +0000
Subject: [PATCH 39/39] fix: assign electrons to the correct dots without
 interdot coupling

---
 simcats/ideal_csd/geometric/_get_electron_occupation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simcats/ideal_csd/geometric/_get_electron_occupation.py b/simcats/ideal_csd/geometric/_get_electron_occupation.py
index 85c07c6..e6504df 100644
--- a/simcats/ideal_csd/geometric/_get_electron_occupation.py
+++ b/simcats/ideal_csd/geometric/_get_electron_occupation.py
@@ -206,9 +206,10 @@ def get_electron_occupation(
         # calculate reference line, given by the interdot transition where the first electron of dot 2
         # moves into the previously empty dot 1
         # the first interdot transition happens between peak 1 (first valley) of tct_bezier and
-        # peak 0 (first peak) of tct_bezier-1
+        # peak 0 (first peak) of tct_bezier-1. The line is directed so that the distances increase towards dot 1. Without
+        # interdot coupling (gamma = 0), the direction can't be deduced from the sign of gamma.
         try:
-            ref_line = np.array([[bezier_coords[int(reg) + 1][1, 1, :]], [bezier_coords[int(reg)][0, 1, :]]])
+            ref_line = np.array([[bezier_coords[int(reg)][0, 1, :]], [bezier_coords[int(reg) + 1][1, 1, :]]])
         except KeyError as e:
             raise IndexError(
                 f"bezier_coords dictionary does not contain an entry for total charge transition (TCT) {e}. "
-- 
2.43.0

