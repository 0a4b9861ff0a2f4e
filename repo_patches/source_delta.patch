From c7c125c9dd513d67b12da3ed07698f41ca1a0a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 001/149] fix: avoid NaN angle between (anti)parallel vectors

---
 src/math_physics/math/vector_template_functions.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/math_physics/math/vector_template_functions.hpp b/src/math_physics/math/vector_template_functions.hpp
index 9b99003..9ac52cd 100644
--- a/src/math_physics/math/vector_template_functions.hpp
+++ b/src/math_physics/math/vector_template_functions.hpp
@@ -143,6 +143,9 @@ Vector<N, double> Vector<N, T>::CalcNormalizedVector() const {
 template <size_t N>
 double CalcAngleTwoVectors_rad(const Vector<N, double>& v1, const Vector<N, double>& v2) {
   double cos = InnerProduct(v1, v2) / (v1.CalcNorm() * v2.CalcNorm());
+  // The rounding error can make the absolute value exceed 1.0 when the vectors are (anti)parallel
+  if (cos > 1.0) cos = 1.0;
+  if (cos < -1.0) cos = -1.0;
   return acos(cos);
 }
 
-- 
2.43.0


From 8c80fffd01e64a61eb4aa8814da246e945e8b434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 002/149] fix: keep the rotation in the Euler angle conversion
 around the singularity

---
 src/math_physics/math/quaternion.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math_physics/math/quaternion.cpp b/src/math_physics/math/quaternion.cpp
index d2f28f0..dbca8ab 100644
--- a/src/math_physics/math/quaternion.cpp
+++ b/src/math_physics/math/quaternion.cpp
@@ -189,7 +189,8 @@ Vector<3> Quaternion::ConvertToEuler(void) const {
   Vector<3> euler;
   euler[0] = atan2(dcm[1][2], dcm[2][2]);
   euler[1] = atan2(-dcm[0][2], sqrt(dcm[1][2] * dcm[1][2] + dcm[2][2] * dcm[2][2]));
-  euler[2] = atan2(dcm[0][1], dcm[0][0]);
+  // Derived from the second and third rows with the roll angle, so that it is valid also around the singularity (pitch = +-90 deg)
+  euler[2] = atan2(sin(euler[0]) * dcm[2][0] - cos(euler[0]) * dcm[1][0], cos(euler[0]) * dcm[1][1] - sin(euler[0]) * dcm[2][1]);
   return euler;
 }
 
-- 
2.43.0


From 010bad2fa091d5b7310d136675b383e276212683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 003/149] fix: handle (anti)parallel vectors in the quaternion
 from two vectors

---
 src/math_physics/math/quaternion.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/math_physics/math/quaternion.cpp b/src/math_physics/math/quaternion.cpp
index dbca8ab..508ea4e 100644
--- a/src/math_physics/math/quaternion.cpp
+++ b/src/math_physics/math/quaternion.cpp
@@ -33,20 +33,21 @@ Quaternion::Quaternion(const Vector<3>& vector_before, const Vector<3>& vector_a
   double ip = InnerProduct(normalized_v_before, normalized_v_after);
   // outer product (rotation rotation_axis for converting vector_before to vector_after)
   Vector<3> op = OuterProduct(normalized_v_before, normalized_v_after);
+  double op_norm = op.CalcNorm();
+  const double kParallelThreshold = 1e-8;  // The direction of the outer product is not reliable below this value
 
-  if (ip > 1.0 - DBL_EPSILON) {  // if theta=0, then rotation is not need
+  if (op_norm < kParallelThreshold && ip > 0.0) {  // if theta=0, then rotation is not need
     quaternion_[0] = 0.0;
     quaternion_[1] = 0.0;
     quaternion_[2] = 0.0;
     quaternion_[3] = 1.0;
-  } else if (ip < -1.0 + DBL_EPSILON) {
+  } else if (op_norm < kParallelThreshold) {
     // if theta=180deg, the rotation rotation_axis can't be defined, so rotate vector_before manually
     Vector<3> rotation_axis = GenerateOrthogonalUnitVector(vector_before);
     quaternion_[0] = rotation_axis[0], quaternion_[1] = rotation_axis[1], quaternion_[2] = rotation_axis[2], quaternion_[3] = 0.0;
   } else {
-    assert(op.CalcNorm() > 0.0);
-    Vector<3> rotation_axis = 1.0 / op.CalcNorm() * op;
-    double rotation_angle = acos(ip);
+    Vector<3> rotation_axis = 1.0 / op_norm * op;
+    double rotation_angle = atan2(op_norm, ip);
     quaternion_[0] = rotation_axis[0] * sin(0.5 * rotation_angle);
     quaternion_[1] = rotation_axis[1] * sin(0.5 * rotation_angle);
     quaternion_[2] = rotation_axis[2] * sin(0.5 * rotation_angle);
-- 
2.43.0


From 089a6ad628e336049a8c58960aeeffa745901d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 004/149] fix: refuse the axis 3 in
 InterpolationOrbit::GetPositionDataList

---
 src/math_physics/orbit/interpolation_orbit.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/orbit/interpolation_orbit.hpp b/src/math_physics/orbit/interpolation_orbit.hpp
index 8391357..0d603f5 100644
--- a/src/math_physics/orbit/interpolation_orbit.hpp
+++ b/src/math_physics/orbit/interpolation_orbit.hpp
@@ -69,7 +69,7 @@ class InterpolationOrbit {
    * @note return id=2 data when the input axis is over 3.
    */
   inline std::vector<double> GetPositionDataList(const size_t axis) const {
-    if (axis > 3) {
+    if (axis >= 3) {
       return interpolation_position_[2].GetDependentVariables();
     }
     return interpolation_position_[axis].GetDependentVariables();
-- 
2.43.0


From a7ebba316550443808f556d66c1c83cfed3d4d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 005/149] fix: keep the fraction of EpochTime smaller than one
 second

---
 src/math_physics/time_system/epoch_time.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/math_physics/time_system/epoch_time.cpp b/src/math_physics/time_system/epoch_time.cpp
index cee1a40..09e853d 100644
--- a/src/math_physics/time_system/epoch_time.cpp
+++ b/src/math_physics/time_system/epoch_time.cpp
@@ -57,7 +57,7 @@ bool EpochTime::operator<(const EpochTime& right_side) const {
 EpochTime EpochTime::operator+(const EpochTime& right_side) const {
   time_t time_s = this->time_s_ + right_side.GetTime_s();
   double fraction_s = this->fraction_s_ + right_side.GetFraction_s();
-  if (fraction_s > 1.0) {
+  if (fraction_s >= 1.0) {
     fraction_s -= 1.0;
     time_s += 1;
   }
@@ -72,6 +72,10 @@ EpochTime EpochTime::operator-(const EpochTime& right_side) const {
     fraction_s += 1.0;
     time_s -= 1;
   }
+  if (fraction_s >= 1.0) {  // The rounding error can make the fraction 1.0
+    fraction_s -= 1.0;
+    time_s += 1;
+  }
   EpochTime result(time_s, fraction_s);
   return result;
 }
-- 
2.43.0


From b54e6942fb382740fc2b04b09329c215737d8a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 006/149] fix: avoid negative seconds of the calendar date
 converted from the Julian day

---
 src/math_physics/orbit/sgp4/sgp4ext.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math_physics/orbit/sgp4/sgp4ext.cpp b/src/math_physics/orbit/sgp4/sgp4ext.cpp
index 593a93c..b903a8b 100644
--- a/src/math_physics/orbit/sgp4/sgp4ext.cpp
+++ b/src/math_physics/orbit/sgp4/sgp4ext.cpp
@@ -727,6 +727,7 @@ void invjday(double jd, int& year, int& mon, int& day, int& hr, int& minute, dou
   /* ----------------- find remaing data  ------------------------- */
   days2mdhms(year, days, mon, day, hr, minute, sec);
   sec = sec - 0.00000086400;
+  if (sec < 0.0) sec = 0.0;
 }  // end invjday
 
 // ユリウス日からDecimalYear(yearの小数点表記)の計算
-- 
2.43.0


From eb530571c7156c920a58d0fe2b7de867b57e69df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:35 +0000
Subject: [PATCH 007/149] fix: unify the decimal year as the elapsed fraction
 of the calendar year

---
 src/math_physics/atmosphere/wrapper_nrlmsise00.cpp | 9 +++------
 src/math_physics/orbit/sgp4/sgp4ext.cpp            | 3 ++-
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp b/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
index c467efe..14c984e 100644
--- a/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
+++ b/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
@@ -88,10 +88,7 @@ void ConvertDecyearToDate(double decyear, int* date) {
 
   // month day
   double days_d = reminder * days_per_year;
-  int days = (int)days_d;
-  if (days == 0) {
-    days = 1;
-  }
+  int days = (int)days_d + 1;  // January 1st is the first day
   reminder = days_d - (int)days_d;
 
   // hours
@@ -129,7 +126,7 @@ double ConvertDateToDecyear(int year, int month, int day) {
     days_month[1] = 29;
   }
 
-  double days = (double)accumulate(days_month, days_month + month - 1, 0) + (double)day;
+  double days = (double)accumulate(days_month, days_month + month - 1, 0) + (double)(day - 1);
 
   return (double)year + days / (double)days_per_year;
 }
@@ -185,7 +182,7 @@ double CalcNRLMSISE00(double decyear, double latrad, double lonrad, double alt,
 
   ConvertDecyearToDate(decyear, date);
 
-  input.doy = (int)((decyear - (int)decyear) * 365.25);
+  input.doy = (int)((decyear - (int)decyear) * (LeapYear(date[0]) ? 366 : 365)) + 1;
   input.year = 0; /* without effect */
   input.sec = date[3] * 60.0 * 60.0 + date[4] * 60.0 + date[5];
   input.alt = alt / 1000.0;
diff --git a/src/math_physics/orbit/sgp4/sgp4ext.cpp b/src/math_physics/orbit/sgp4/sgp4ext.cpp
index b903a8b..6304d59 100644
--- a/src/math_physics/orbit/sgp4/sgp4ext.cpp
+++ b/src/math_physics/orbit/sgp4/sgp4ext.cpp
@@ -751,5 +751,6 @@ void JdToDecyear(double jd, double* decyear) {
     days = temp - ((year - 1900) * 365.0 + leapyrs);
   }
 
-  *decyear = year + days / 365.25;
+  // days is 1.0 at the beginning of the year
+  *decyear = year + (days - 1.0) / ((year % 4) == 0 ? 366.0 : 365.0);
 }  // end JdToDecyear
-- 
2.43.0


From 47b6d583ba5c4e5b89cff39c064078d1f7b35474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 008/149] fix: keep the update periods and the end time of the
 simulation against rounding errors

---
 src/environment/global/simulation_time.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/environment/global/simulation_time.cpp b/src/environment/global/simulation_time.cpp
index 6438e50..3ea7538 100644
--- a/src/environment/global/simulation_time.cpp
+++ b/src/environment/global/simulation_time.cpp
@@ -131,7 +131,10 @@ void SimulationTime::UpdateTime(void) {
   log_counter_++;
   display_counter_++;
 
-  if (elapsed_time_sec_ > end_sec_) {
+  // Tolerance for the rounding errors of the accumulated time
+  const double time_tolerance_sec = 1.0e-3 * step_sec_;
+
+  if (elapsed_time_sec_ > end_sec_ + time_tolerance_sec) {
     state_.finish = true;
   }
 
@@ -141,30 +144,30 @@ void SimulationTime::UpdateTime(void) {
   ConvJDtoCalendarDay(current_jd_);
 
   attitude_update_flag_ = false;
-  if (double(attitude_update_counter_) * step_sec_ >= attitude_update_interval_sec_) {
+  if (double(attitude_update_counter_) * step_sec_ >= attitude_update_interval_sec_ - time_tolerance_sec) {
     attitude_update_counter_ = 0;
     attitude_update_flag_ = true;
   }
 
   orbit_update_flag_ = false;
-  if (double(orbit_update_counter_) * step_sec_ >= orbit_update_interval_sec_) {
+  if (double(orbit_update_counter_) * step_sec_ >= orbit_update_interval_sec_ - time_tolerance_sec) {
     orbit_update_counter_ = 0;
     orbit_update_flag_ = true;
   }
 
   thermal_update_flag_ = false;
-  if (double(thermal_update_counter_) * step_sec_ >= thermal_update_interval_sec_) {
+  if (double(thermal_update_counter_) * step_sec_ >= thermal_update_interval_sec_ - time_tolerance_sec) {
     thermal_update_counter_ = 0;
     thermal_update_flag_ = true;
   }
 
   component_update_flag_ = false;
-  if (double(component_update_counter_) * step_sec_ >= component_update_interval_sec_) {
+  if (double(component_update_counter_) * step_sec_ >= component_update_interval_sec_ - time_tolerance_sec) {
     component_update_counter_ = 0;
     component_update_flag_ = true;
   }
 
-  if (double(log_counter_) * step_sec_ >= log_output_interval_sec_) {
+  if (double(log_counter_) * step_sec_ >= log_output_interval_sec_ - time_tolerance_sec) {
     log_counter_ = 0;
     state_.log_output = true;
   }
-- 
2.43.0


From cc266424d7e2915a7eee7811a46f0e8f9d67c707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 009/149] fix: determine the quadrant of RAAN from the angular
 momentum vector

---
 src/math_physics/orbit/orbital_elements.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math_physics/orbit/orbital_elements.cpp b/src/math_physics/orbit/orbital_elements.cpp
index d02a324..c09f892 100644
--- a/src/math_physics/orbit/orbital_elements.cpp
+++ b/src/math_physics/orbit/orbital_elements.cpp
@@ -46,7 +46,7 @@ void OrbitalElements::CalcOeFromPosVel(const double gravity_constant_m3_s2, cons
 
   // inclination
   math::Vector<3> h_direction = h.CalcNormalizedVector();
-  inclination_rad_ = acos(h_direction[2]);
+  inclination_rad_ = atan2(sqrt(h_direction[0] * h_direction[0] + h_direction[1] * h_direction[1]), h_direction[2]);
 
   // RAAN
   double norm_h = sqrt(h[0] * h[0] + h[1] * h[1]);
@@ -54,7 +54,7 @@ void OrbitalElements::CalcOeFromPosVel(const double gravity_constant_m3_s2, cons
     // We cannot define raan when i = 0
     raan_rad_ = 0.0;
   } else {
-    raan_rad_ = asin(h[0] / sqrt(h[0] * h[0] + h[1] * h[1]));
+    raan_rad_ = atan2(h[0], -h[1]);
   }
   // position in plane
   double x_p_m = position_i_m[0] * cos(raan_rad_) + position_i_m[1] * sin(raan_rad_);
-- 
2.43.0


From fa374ac6bcf49d1abf26c07a4176d8595e8cf447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:03 +0000
Subject: [PATCH 010/149] fix: start the Newton iteration of the Kepler
 equation from the mean anomaly

---
 src/math_physics/orbit/kepler_orbit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/orbit/kepler_orbit.cpp b/src/math_physics/orbit/kepler_orbit.cpp
index 2f49fd5..b42db40 100644
--- a/src/math_physics/orbit/kepler_orbit.cpp
+++ b/src/math_physics/orbit/kepler_orbit.cpp
@@ -87,7 +87,7 @@ double KeplerOrbit::SolveKeplerFirstOrder(const double eccentricity, const doubl
 double KeplerOrbit::SolveKeplerNewtonMethod(const double eccentricity, const double mean_anomaly_rad, const double angle_limit_rad,
                                             const int iteration_limit) {
   double u_prev_rad = mean_anomaly_rad;
-  double u_rad = 0.0;
+  double u_rad = u_prev_rad;
 
   for (int i = 0; i < iteration_limit; i++) {
     u_rad -= (u_prev_rad - eccentricity * sin(u_prev_rad) - mean_anomaly_rad) / (1.0 - eccentricity * cos(u_prev_rad));
-- 
2.43.0


From ddb157320b8766353cc3de938ce2bcc176ba2b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 011/149] fix: add the rotation of the LVLH frame to the
 velocity of the relative orbit

---
 src/dynamics/orbit/relative_orbit.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/orbit/relative_orbit.cpp b/src/dynamics/orbit/relative_orbit.cpp
index 6f4b260..aa8e617 100644
--- a/src/dynamics/orbit/relative_orbit.cpp
+++ b/src/dynamics/orbit/relative_orbit.cpp
@@ -45,7 +45,11 @@ void RelativeOrbit::InitializeState(math::Vector<3> relative_position_lvlh_m, ma
   math::Quaternion q_i2lvlh = relative_information_->GetReferenceSatDynamics(reference_spacecraft_id_)->GetOrbit().CalcQuaternion_i2lvlh();
   math::Quaternion q_lvlh2i = q_i2lvlh.Conjugate();
   spacecraft_position_i_m_ = q_lvlh2i.FrameConversion(relative_position_lvlh_m_) + reference_sat_position_i;
-  spacecraft_velocity_i_m_s_ = q_lvlh2i.FrameConversion(relative_velocity_lvlh_m_s_) + reference_sat_velocity_i;
+  // The relative velocity is defined in the LVLH frame, which rotates with the orbital motion of the reference satellite
+  math::Vector<3> lvlh_angular_velocity_i_rad_s = OuterProduct(reference_sat_position_i, reference_sat_velocity_i);
+  lvlh_angular_velocity_i_rad_s /= InnerProduct(reference_sat_position_i, reference_sat_position_i);
+  spacecraft_velocity_i_m_s_ = q_lvlh2i.FrameConversion(relative_velocity_lvlh_m_s_) + reference_sat_velocity_i +
+                               OuterProduct(lvlh_angular_velocity_i_rad_s, spacecraft_position_i_m_ - reference_sat_position_i);
 
   initial_state_[0] = relative_position_lvlh_m[0];
   initial_state_[1] = relative_position_lvlh_m[1];
@@ -116,7 +120,11 @@ void RelativeOrbit::Propagate(const double end_time_s, const double current_time
   math::Quaternion q_lvlh2i = q_i2lvlh.Conjugate();
 
   spacecraft_position_i_m_ = q_lvlh2i.FrameConversion(relative_position_lvlh_m_) + reference_sat_position_i;
-  spacecraft_velocity_i_m_s_ = q_lvlh2i.FrameConversion(relative_velocity_lvlh_m_s_) + reference_sat_velocity_i;
+  // The relative velocity is defined in the LVLH frame, which rotates with the orbital motion of the reference satellite
+  math::Vector<3> lvlh_angular_velocity_i_rad_s = OuterProduct(reference_sat_position_i, reference_sat_velocity_i);
+  lvlh_angular_velocity_i_rad_s /= InnerProduct(reference_sat_position_i, reference_sat_position_i);
+  spacecraft_velocity_i_m_s_ = q_lvlh2i.FrameConversion(relative_velocity_lvlh_m_s_) + reference_sat_velocity_i +
+                               OuterProduct(lvlh_angular_velocity_i_rad_s, spacecraft_position_i_m_ - reference_sat_position_i);
   TransformEciToEcef();
   TransformEcefToGeodetic();
 }
-- 
2.43.0


From 5e2d9fb6f9d6c1e3956652f67642fb41057a7e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 012/149] fix: calculate the geodetic altitude correctly at the
 poles

---
 src/math_physics/geodesy/geodetic_position.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math_physics/geodesy/geodetic_position.cpp b/src/math_physics/geodesy/geodetic_position.cpp
index b72aa18..5d2947e 100644
--- a/src/math_physics/geodesy/geodetic_position.cpp
+++ b/src/math_physics/geodesy/geodetic_position.cpp
@@ -44,7 +44,8 @@ void GeodeticPosition::UpdateFromEcef(const math::Vector<3> position_ecef_m) {
     lat_tmp_rad = AcTan(position_ecef_m[2] + earth_radius_m * c * e2 * sin(phi), r_m);
   } while (fabs(lat_tmp_rad - phi) >= 1E-10);
 
-  altitude_m_ = r_m / cos(lat_tmp_rad) - c * earth_radius_m;
+  // This form is valid also at the poles, where cos(latitude) vanishes
+  altitude_m_ = r_m * cos(lat_tmp_rad) + position_ecef_m[2] * sin(lat_tmp_rad) - earth_radius_m / c;
 
   if (lat_tmp_rad > math::pi_2) lat_tmp_rad -= math::tau;
 
-- 
2.43.0


From fc4d4179350ff504e94dbb6e6ae4c716bcd98eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 013/149] fix: use the limited degree and refuse broken
 coefficients in the gravity field models

---
 src/disturbances/geopotential.cpp        | 8 ++++++--
 src/disturbances/lunar_gravity_field.cpp | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/disturbances/geopotential.cpp b/src/disturbances/geopotential.cpp
index cb6ba22..0e927d9 100644
--- a/src/disturbances/geopotential.cpp
+++ b/src/disturbances/geopotential.cpp
@@ -45,7 +45,7 @@ Geopotential::Geopotential(const int degree, const std::string file_path, const
     }
   }
   // Initialize GravityPotential
-  geopotential_ = gravity::GravityPotential(degree, c_, s_);
+  geopotential_ = gravity::GravityPotential(degree_, c_, s_);
 }
 
 bool Geopotential::ReadCoefficientsEgm96(std::string file_name) {
@@ -57,12 +57,16 @@ bool Geopotential::ReadCoefficientsEgm96(std::string file_name) {
 
   size_t num_coeff = ((degree_ + 1) * (degree_ + 2) / 2) - 3;  //-3 for C00,C10,C11
   for (size_t i = 0; i < num_coeff; i++) {
-    int n, m;
+    size_t n, m;
     double c_nm_norm, s_nm_norm;
     std::string line;
     getline(coeff_file, line);
     std::istringstream streamline(line);
     streamline >> n >> m >> c_nm_norm >> s_nm_norm;
+    if (streamline.fail() || n > degree_ || m > n) {
+      std::cerr << "File format error: Geopotential\n";
+      return false;
+    }
 
     c_[n][m] = c_nm_norm;
     s_[n][m] = s_nm_norm;
diff --git a/src/disturbances/lunar_gravity_field.cpp b/src/disturbances/lunar_gravity_field.cpp
index 182b447..e225917 100644
--- a/src/disturbances/lunar_gravity_field.cpp
+++ b/src/disturbances/lunar_gravity_field.cpp
@@ -48,7 +48,7 @@ LunarGravityField::LunarGravityField(const int degree, const std::string file_pa
     }
   }
   // Initialize GravityPotential
-  lunar_potential_ = gravity::GravityPotential(degree, c_, s_, gravity_constants_km3_s2_ * 1e9, reference_radius_km_ * 1e3);
+  lunar_potential_ = gravity::GravityPotential(degree_, c_, s_, gravity_constants_km3_s2_ * 1e9, reference_radius_km_ * 1e3);
 }
 
 bool LunarGravityField::ReadCoefficientsGrgm1200a(std::string file_name) {
-- 
2.43.0


From f1165de0704663e992fe57373ee3681bcda1da64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 014/149] fix: refuse broken lunar gravity files and do not
 copy the celestial information at every update

---
 src/disturbances/lunar_gravity_field.cpp | 10 +++++++---
 src/disturbances/lunar_gravity_field.hpp |  4 ++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/disturbances/lunar_gravity_field.cpp b/src/disturbances/lunar_gravity_field.cpp
index e225917..d48ee5f 100644
--- a/src/disturbances/lunar_gravity_field.cpp
+++ b/src/disturbances/lunar_gravity_field.cpp
@@ -71,9 +71,13 @@ bool LunarGravityField::ReadCoefficientsGrgm1200a(std::string file_name) {
   for (size_t i = 0; i < num_coeff; i++) {
     // degree
     getline(coeff_file, line, ',');
-    int n = std::stoi(line);
+    size_t n = (size_t)std::stoi(line);
     getline(coeff_file, line, ',');
-    int m = std::stoi(line);
+    size_t m = (size_t)std::stoi(line);
+    if (n > degree_ || m > n) {
+      std::cerr << "File format error: LunarGravityField\n";
+      return false;
+    }
     // coefficients
     getline(coeff_file, line, ',');
     double c_nm_norm = std::stod(line);
@@ -89,7 +93,7 @@ bool LunarGravityField::ReadCoefficientsGrgm1200a(std::string file_name) {
 }
 
 void LunarGravityField::Update(const environment::LocalEnvironment &local_environment, const dynamics::Dynamics &dynamics) {
-  const environment::CelestialInformation global_celestial_information = local_environment.GetCelestialInformation().GetGlobalInformation();
+  const environment::CelestialInformation& global_celestial_information = local_environment.GetCelestialInformation().GetGlobalInformation();
   math::Matrix<3, 3> dcm_mci2mcmf_ = global_celestial_information.GetMoonRotation().GetDcmJ2000ToMcmf();
 
   math::Vector<3> spacecraft_position_mci_m = dynamics.GetOrbit().GetPosition_i_m();
diff --git a/src/disturbances/lunar_gravity_field.hpp b/src/disturbances/lunar_gravity_field.hpp
index 04727d6..7277b16 100644
--- a/src/disturbances/lunar_gravity_field.hpp
+++ b/src/disturbances/lunar_gravity_field.hpp
@@ -66,8 +66,8 @@ class LunarGravityField : public Disturbance {
 
  private:
   gravity::GravityPotential lunar_potential_;
-  double reference_radius_km_;
-  double gravity_constants_km3_s2_;
+  double reference_radius_km_ = 0.0;
+  double gravity_constants_km3_s2_ = 0.0;
   size_t degree_;                           //!< Maximum degree setting to calculate the geo-potential
   std::vector<std::vector<double>> c_;      //!< Cosine coefficients
   std::vector<std::vector<double>> s_;      //!< Sine coefficients
-- 
2.43.0


From 7048797770663ef7fdb4a3ffb63aa2b45fc5d2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 015/149] fix: copy the rotation of the Earth and the Moon with
 the celestial information

---
 src/environment/global/celestial_information.cpp | 7 ++++++-
 src/environment/global/celestial_information.hpp | 6 +++---
 src/environment/global/moon_rotation.hpp         | 9 +++++++++
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/environment/global/celestial_information.cpp b/src/environment/global/celestial_information.cpp
index a8ffde6..a9bed77 100644
--- a/src/environment/global/celestial_information.cpp
+++ b/src/environment/global/celestial_information.cpp
@@ -74,7 +74,8 @@ CelestialInformation::CelestialInformation(const CelestialInformation& obj)
     : number_of_selected_bodies_(obj.number_of_selected_bodies_),
       inertial_frame_name_(obj.inertial_frame_name_),
       center_body_name_(obj.center_body_name_),
-      aberration_correction_setting_(obj.aberration_correction_setting_) {
+      aberration_correction_setting_(obj.aberration_correction_setting_),
+      rotation_mode_list_(obj.rotation_mode_list_) {
   unsigned int num_of_state = number_of_selected_bodies_ * 3;
 
   selected_body_ids_ = new int[number_of_selected_bodies_];
@@ -93,6 +94,9 @@ CelestialInformation::CelestialInformation(const CelestialInformation& obj)
   memcpy(celestial_body_gravity_constant_m3_s2_, obj.celestial_body_gravity_constant_m3_s2_, size_d * number_of_selected_bodies_);
   memcpy(celestial_body_mean_radius_m_, obj.celestial_body_mean_radius_m_, size_d * number_of_selected_bodies_);
   memcpy(celestial_body_planetographic_radii_m_, obj.celestial_body_planetographic_radii_m_, size_d * num_of_state);
+
+  earth_rotation_ = new EarthRotation(*obj.earth_rotation_);
+  moon_rotation_ = new MoonRotation(*this, *obj.moon_rotation_);
 }
 
 CelestialInformation::~CelestialInformation() {
@@ -103,6 +107,7 @@ CelestialInformation::~CelestialInformation() {
   delete[] celestial_body_planetographic_radii_m_;
   delete[] selected_body_ids_;
   delete earth_rotation_;
+  delete moon_rotation_;
 }
 
 void CelestialInformation::UpdateAllObjectsInformation(const SimulationTime& simulation_time) {
diff --git a/src/environment/global/celestial_information.hpp b/src/environment/global/celestial_information.hpp
index ea04e56..bcfaf7b 100644
--- a/src/environment/global/celestial_information.hpp
+++ b/src/environment/global/celestial_information.hpp
@@ -77,7 +77,7 @@ class CelestialInformation : public logger::ILoggable {
    */
   inline math::Vector<3> GetPositionFromCenter_i_m(const unsigned int id) const {
     math::Vector<3> pos(0.0);
-    if (id > number_of_selected_bodies_) return pos;
+    if (id >= number_of_selected_bodies_) return pos;
     for (int i = 0; i < 3; i++) pos[i] = celestial_body_position_from_center_i_m_[id * 3 + i];
     return pos;
   }
@@ -112,7 +112,7 @@ class CelestialInformation : public logger::ILoggable {
    */
   inline math::Vector<3> GetVelocityFromCenter_i_m_s(const unsigned int id) const {
     math::Vector<3> vel(0.0);
-    if (id > number_of_selected_bodies_) return vel;
+    if (id >= number_of_selected_bodies_) return vel;
     for (int i = 0; i < 3; i++) vel[i] = celestial_body_velocity_from_center_i_m_s_[id * 3 + i];
     return vel;
   }
@@ -164,7 +164,7 @@ class CelestialInformation : public logger::ILoggable {
    */
   inline math::Vector<3> GetRadii_m(const unsigned int id) const {
     math::Vector<3> radii(0.0);
-    if (id > number_of_selected_bodies_) return radii;
+    if (id >= number_of_selected_bodies_) return radii;
     for (int i = 0; i < 3; i++) radii[i] = celestial_body_planetographic_radii_m_[id * 3 + i];
     return radii;
   }
diff --git a/src/environment/global/moon_rotation.hpp b/src/environment/global/moon_rotation.hpp
index 1c5ea0d..59d264a 100644
--- a/src/environment/global/moon_rotation.hpp
+++ b/src/environment/global/moon_rotation.hpp
@@ -43,6 +43,15 @@ class MoonRotation {
    */
   MoonRotation(const CelestialInformation &celestial_information, MoonRotationMode mode = MoonRotationMode::kIdle);
 
+  /**
+   * @fn MoonRotation
+   * @brief Constructor to copy the rotation into another celestial information
+   * @param [in] celestial_information: Celestial information which owns this object
+   * @param [in] obj: Moon rotation to be copied
+   */
+  MoonRotation(const CelestialInformation &celestial_information, const MoonRotation &obj)
+      : mode_(obj.mode_), dcm_j2000_to_mcmf_(obj.dcm_j2000_to_mcmf_), celestial_information_(celestial_information) {}
+
   /**
    * @fn Update
    * @brief Update rotation
-- 
2.43.0


From 7029c2277754726e15cdd96b62fbe28ddc7941e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 016/149] fix: do not end the simulation by the altitude above
 the Earth when the center object is another body

---
 src/dynamics/orbit/orbit.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/orbit/orbit.cpp b/src/dynamics/orbit/orbit.cpp
index dbdcb77..b322b6c 100644
--- a/src/dynamics/orbit/orbit.cpp
+++ b/src/dynamics/orbit/orbit.cpp
@@ -44,8 +44,8 @@ void Orbit::TransformEciToEcef(void) {
 
 void Orbit::TransformEcefToGeodetic(void) {
   spacecraft_geodetic_position_.UpdateFromEcef(spacecraft_position_ecef_m_);
-  // Check altitude
-  if (spacecraft_geodetic_position_.GetAltitude_m() < 0.0) {
+  // Check altitude (the geodetic position is based on the Earth, so it cannot judge orbits around the other bodies)
+  if (celestial_information_->GetCenterBodyName() == "EARTH" && spacecraft_geodetic_position_.GetAltitude_m() < 0.0) {
     std::cout << "[Error Orbit]: The spacecraft altitude is smaller than zero." << std::endl;
     std::cout << "               The orbit or disturbance setting may have something wrong." << std::endl;
     std::exit(1);
-- 
2.43.0


From 81e454ccf7c30c0749ba1b84aa8e57c9cf1a3be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:03 +0000
Subject: [PATCH 017/149] fix: give every geomagnetic environment its own noise

---
 src/environment/local/geomagnetic_field.cpp | 16 +++++-----------
 src/environment/local/geomagnetic_field.hpp |  4 ++++
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/environment/local/geomagnetic_field.cpp b/src/environment/local/geomagnetic_field.cpp
index 8fff876..b2d6d7c 100644
--- a/src/environment/local/geomagnetic_field.cpp
+++ b/src/environment/local/geomagnetic_field.cpp
@@ -7,8 +7,6 @@
 
 #include "math_physics/geomagnetic/igrf.h"
 #include "math_physics/randomization/global_randomization.hpp"
-#include "math_physics/randomization/normal_randomization.hpp"
-#include "math_physics/randomization/random_walk.hpp"
 #include "setting_file_reader/initialize_file_access.hpp"
 
 namespace s2e::environment {
@@ -20,7 +18,9 @@ GeomagneticField::GeomagneticField(const std::string igrf_file_name, const doubl
       random_walk_standard_deviation_nT_(random_walk_srandard_deviation_nT),
       random_walk_limit_nT_(random_walk_limit_nT),
       white_noise_standard_deviation_nT_(white_noise_standard_deviation_nT),
-      igrf_file_name_(igrf_file_name) {
+      igrf_file_name_(igrf_file_name),
+      random_walk_(0.1, math::Vector<3>(random_walk_srandard_deviation_nT), math::Vector<3>(random_walk_limit_nT)),
+      white_noise_(0.0, white_noise_standard_deviation_nT, randomization::global_randomization.MakeSeed()) {
   set_file_path(igrf_file_name_.c_str());
 }
 
@@ -42,16 +42,10 @@ void GeomagneticField::CalcMagneticField(const double decimal_year, const double
 }
 
 void GeomagneticField::AddNoise(double* magnetic_field_array_i_nT) {
-  static math::Vector<3> standard_deviation(random_walk_standard_deviation_nT_);
-  static math::Vector<3> limit(random_walk_limit_nT_);
-  static randomization::RandomWalk<3> random_walk(0.1, standard_deviation, limit);
-
-  static randomization::NormalRand white_noise(0.0, white_noise_standard_deviation_nT_, randomization::global_randomization.MakeSeed());
-
   for (int i = 0; i < 3; ++i) {
-    magnetic_field_array_i_nT[i] += random_walk[i] + white_noise;
+    magnetic_field_array_i_nT[i] += random_walk_[i] + white_noise_;
   }
-  ++random_walk;  // Update random walk
+  ++random_walk_;  // Update random walk
 }
 
 std::string GeomagneticField::GetLogHeader() const {
diff --git a/src/environment/local/geomagnetic_field.hpp b/src/environment/local/geomagnetic_field.hpp
index 1f38c03..f7afe82 100644
--- a/src/environment/local/geomagnetic_field.hpp
+++ b/src/environment/local/geomagnetic_field.hpp
@@ -10,6 +10,8 @@
 #include "math_physics/geodesy/geodetic_position.hpp"
 #include "math_physics/math/quaternion.hpp"
 #include "math_physics/math/vector.hpp"
+#include "math_physics/randomization/normal_randomization.hpp"
+#include "math_physics/randomization/random_walk.hpp"
 
 namespace s2e::environment {
 
@@ -78,6 +80,8 @@ class GeomagneticField : public logger::ILoggable {
   double random_walk_limit_nT_;               //!< Limit of Random Walk [nT]
   double white_noise_standard_deviation_nT_;  //!< Standard deviation of white noise [nT]
   std::string igrf_file_name_;                //!< Path to the initialize file
+  randomization::RandomWalk<3> random_walk_;       //!< Random walk noise of this environment
+  randomization::NormalRand white_noise_;          //!< White noise of this environment
 
   /**
    * @fn AddNoise
-- 
2.43.0


From a9f2f4cbb2655e9ed7087135f928242adc631af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:03 +0000
Subject: [PATCH 018/149] fix: read the geomagnetic coefficients of the period
 of the moment

---
 src/math_physics/geomagnetic/igrf.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/math_physics/geomagnetic/igrf.cpp b/src/math_physics/geomagnetic/igrf.cpp
index 939625b..95b6dab 100644
--- a/src/math_physics/geomagnetic/igrf.cpp
+++ b/src/math_physics/geomagnetic/igrf.cpp
@@ -85,6 +85,9 @@ static double vgh[MxOD + 1][MxOD + 1], vght[MxOD + 1][MxOD + 1];
 // coeff file path
 static char coeff_file[256];
 
+// Range of the years for which the loaded coefficients are valid
+static double loaded_year_begin, loaded_year_end;
+
 static void fcalc(void);
 
 void set_file_path(const char *fname) { strcpy(coeff_file, fname); }
@@ -417,6 +420,8 @@ void gigrf(int gen, double year) {
       exit(1);
     }
   }
+  loaded_year_begin = (l == 2) ? -HUGE_VAL : (l == ncol) ? yr2 : yr1;
+  loaded_year_end = (l == ncol) ? HUGE_VAL : yr2;
   if (l == ncol)
     tzero = yr2;
   else {
@@ -468,7 +473,8 @@ int TransMagaxisToECI(const double *mag, double *pos, double lonrad, double thet
 void IgrfCalc(double decyear, double latrad, double lonrad, double alt, double side, double *mag) {
   static bool first_flg = true;
 
-  if (first_flg == true) {
+  // The coefficients are read again when the time goes out of the loaded period
+  if (first_flg == true || decyear < loaded_year_begin || loaded_year_end <= decyear) {
     // gigrf(10,decyear);	//ファイル読み込み
     // gigrf(11, decyear);
     // gigrf(12, decyear);
-- 
2.43.0


From a1e3ea25330a96864a3efa6f742f233cd3dd5f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:03 +0000
Subject: [PATCH 019/149] fix: avoid NaN of the geomagnetic field at the poles
 and the overflow of the path

---
 src/math_physics/geomagnetic/igrf.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/math_physics/geomagnetic/igrf.cpp b/src/math_physics/geomagnetic/igrf.cpp
index 95b6dab..2e68a97 100644
--- a/src/math_physics/geomagnetic/igrf.cpp
+++ b/src/math_physics/geomagnetic/igrf.cpp
@@ -90,7 +90,7 @@ static double loaded_year_begin, loaded_year_end;
 
 static void fcalc(void);
 
-void set_file_path(const char *fname) { strcpy(coeff_file, fname); }
+void set_file_path(const char *fname) { snprintf(coeff_file, sizeof(coeff_file), "%s", fname); }
 
 static void fcalc(void) /* This is an internal function */
 {
@@ -250,6 +250,9 @@ void mfldg(double alat, double alon, double ahi, double *ax, double *ay, double
     rrm = (re4 * clat2 + rp4 * slat2) / rm2;
     r = sqrt(rrm + 2. * hi * rm + hi * hi);
     cth = slat * (hi + rp2 / rm) / r;
+    /*** avoid NaN by rounding errors at the poles ***/
+    if (cth > 1.) cth = 1.;
+    if (cth < -1.) cth = -1.;
     sth = sqrt(1. - cth * cth);
     /*** force sin(colat) non-zero to avoid DIV-by-0 error ***/
     if (sth < 0.00000015) sth = 0.00000015;
-- 
2.43.0


From c844947cd14b6dfa64ba4cf0fc8175e038f1270a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:28 +0000
Subject: [PATCH 020/149] fix: rotate the angular velocity into the inertial
 frame before forming the relative velocity of celestial bodies

---
 src/environment/local/local_celestial_information.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/environment/local/local_celestial_information.cpp b/src/environment/local/local_celestial_information.cpp
index dab63ee..4624b91 100644
--- a/src/environment/local/local_celestial_information.cpp
+++ b/src/environment/local/local_celestial_information.cpp
@@ -121,7 +121,7 @@ void LocalCelestialInformation::ConvertVelocityInertialToBody(const double* posi
   }
 
   // compute cross term wxr
-  math::Vector<3> wxposition_i = OuterProduct(wb, ri);
+  math::Vector<3> wxposition_i = OuterProduct(quaternion_i2b.InverseFrameConversion(wb), ri);
   // compute dr/dt + wxr
   for (int i = 0; i < 3; i++) {
     vi[i] = vi[i] - wxposition_i[i];
-- 
2.43.0


From b3a3fb8d0582453de979260814cad767a08391ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 021/149] fix: update the TEME to ECEF rotation of the Earth
 with the sidereal angle

---
 src/environment/global/earth_rotation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/environment/global/earth_rotation.cpp b/src/environment/global/earth_rotation.cpp
index f7eedde..199c57f 100644
--- a/src/environment/global/earth_rotation.cpp
+++ b/src/environment/global/earth_rotation.cpp
@@ -154,6 +154,7 @@ void EarthRotation::Update(const double julian_date) {
     // Leave the DCM as unit Matrix(diag{1,1,1})
     return;
   }
+  dcm_teme_to_ecef_ = AxialRotation(gmst_rad);
 }
 
 math::Matrix<3, 3> EarthRotation::AxialRotation(const double gast_rad) { return math::MakeRotationMatrixZ(gast_rad); }
-- 
2.43.0


From a8e2c6ab88f6f06c49145ca8554ac0bb8c7b803f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 022/149] fix: register every configured third shadow source,
 not the first one repeatedly

---
 src/environment/local/solar_radiation_pressure_environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/environment/local/solar_radiation_pressure_environment.cpp b/src/environment/local/solar_radiation_pressure_environment.cpp
index c571f30..371d188 100644
--- a/src/environment/local/solar_radiation_pressure_environment.cpp
+++ b/src/environment/local/solar_radiation_pressure_environment.cpp
@@ -116,7 +116,7 @@ SolarRadiationPressureEnvironment InitSolarRadiationPressureEnvironment(std::str
   size_t number_of_third_shadow_source = conf.ReadInt(section, "number_of_third_shadow_source");
   std::vector<std::string> list = conf.ReadVectorString(section, "third_shadow_source_name", number_of_third_shadow_source);
   for (size_t i = 0; i < number_of_third_shadow_source; i++) {
-    srp_env.AddShadowSource(list[0]);
+    srp_env.AddShadowSource(list[i]);
   }
 
   return srp_env;
-- 
2.43.0


From 1f9768e9b7de9c5b8b3c5934aadda1f4a1d6bc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 023/149] fix: combine an annular eclipse with the shadows of
 the other bodies

---
 src/environment/local/solar_radiation_pressure_environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/environment/local/solar_radiation_pressure_environment.cpp b/src/environment/local/solar_radiation_pressure_environment.cpp
index 371d188..381c86b 100644
--- a/src/environment/local/solar_radiation_pressure_environment.cpp
+++ b/src/environment/local/solar_radiation_pressure_environment.cpp
@@ -89,7 +89,7 @@ void SolarRadiationPressureEnvironment::CalcShadowCoefficient(std::string shadow
     shadow_coefficient_ *= 0.0;
   } else if (c < fabs(a - b) && a > b)  // The occultation is partial but maximum
   {
-    shadow_coefficient_ = 1.0 - (b * b) / (a * a);
+    shadow_coefficient_ *= 1.0 - (b * b) / (a * a);
   } else if (fabs(a - b) <= c && c <= (a + b))  // spacecraft is in penumbra
   {
     double A = a * a * acos(x / a) + b * b * acos((c - x) / b) - c * y;  // The area of the occulted segment of the apparent solar disk
-- 
2.43.0


From 579944c4becd6a796cf7016d8c260f0f0a2e56ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 024/149] fix: compare the solar disc and the shadowing body as
 seen from the spacecraft

---
 .../local/solar_radiation_pressure_environment.cpp        | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/environment/local/solar_radiation_pressure_environment.cpp b/src/environment/local/solar_radiation_pressure_environment.cpp
index 381c86b..9390162 100644
--- a/src/environment/local/solar_radiation_pressure_environment.cpp
+++ b/src/environment/local/solar_radiation_pressure_environment.cpp
@@ -72,9 +72,11 @@ void SolarRadiationPressureEnvironment::CalcShadowCoefficient(std::string shadow
   const double sd_sun = asin(sun_radius_m_ / distance_sat_to_sun);                     // Apparent radius of the sun
   const double sd_source = asin(shadow_source_radius_m / r_sc2source_eci.CalcNorm());  // Apparent radius of the shadow source
 
-  // Angle of deviation from shadow source center to sun center
-  math::Vector<3> r_source2sun_eci = r_sc2sun_eci - r_sc2source_eci;
-  const double delta = acos(InnerProduct(r_sc2source_eci, r_sc2sun_eci - r_sc2source_eci) / r_sc2source_eci.CalcNorm() / r_source2sun_eci.CalcNorm());
+  // A body beyond the sun does not cast a shadow
+  if (r_sc2source_eci.CalcNorm() > distance_sat_to_sun) return;
+
+  // Angle between shadow source center and sun center seen from the spacecraft
+  const double delta = CalcAngleTwoVectors_rad(r_sc2source_eci, r_sc2sun_eci);
   // The angle between the center of the sun and the common chord
   const double x = (delta * delta + sd_sun * sd_sun - sd_source * sd_source) / (2.0 * delta);
   // The length of the common chord of the apparent solar disk and apparent telestial disk
-- 
2.43.0


From 7bd239069729b60c43a96f92dc967eb83edd691a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 025/149] fix: keep the shadow coefficient finite at the limits
 of the penumbra and below the mean radius

---
 .../local/solar_radiation_pressure_environment.cpp        | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/environment/local/solar_radiation_pressure_environment.cpp b/src/environment/local/solar_radiation_pressure_environment.cpp
index 9390162..27fdb53 100644
--- a/src/environment/local/solar_radiation_pressure_environment.cpp
+++ b/src/environment/local/solar_radiation_pressure_environment.cpp
@@ -70,7 +70,7 @@ void SolarRadiationPressureEnvironment::CalcShadowCoefficient(std::string shadow
 
   const double distance_sat_to_sun = r_sc2sun_eci.CalcNorm();
   const double sd_sun = asin(sun_radius_m_ / distance_sat_to_sun);                     // Apparent radius of the sun
-  const double sd_source = asin(shadow_source_radius_m / r_sc2source_eci.CalcNorm());  // Apparent radius of the shadow source
+  const double sd_source = asin(std::min(shadow_source_radius_m / r_sc2source_eci.CalcNorm(), 1.0));  // Apparent radius of the shadow source
 
   // A body beyond the sun does not cast a shadow
   if (r_sc2source_eci.CalcNorm() > distance_sat_to_sun) return;
@@ -86,15 +86,15 @@ void SolarRadiationPressureEnvironment::CalcShadowCoefficient(std::string shadow
   const double b = sd_source;
   const double c = delta;
 
-  if (c < fabs(a - b) && a <= b)  // The occultation is total (spacecraft is in umbra)
+  if (c <= fabs(a - b) && a <= b)  // The occultation is total (spacecraft is in umbra)
   {
     shadow_coefficient_ *= 0.0;
-  } else if (c < fabs(a - b) && a > b)  // The occultation is partial but maximum
+  } else if (c <= fabs(a - b) && a > b)  // The occultation is partial but maximum
   {
     shadow_coefficient_ *= 1.0 - (b * b) / (a * a);
   } else if (fabs(a - b) <= c && c <= (a + b))  // spacecraft is in penumbra
   {
-    double A = a * a * acos(x / a) + b * b * acos((c - x) / b) - c * y;  // The area of the occulted segment of the apparent solar disk
+    double A = a * a * acos(std::clamp(x / a, -1.0, 1.0)) + b * b * acos(std::clamp((c - x) / b, -1.0, 1.0)) - c * y;  // The area of the occulted segment of the apparent solar disk
     shadow_coefficient_ *= 1.0 - A / (math::pi * a * a);
   } else {  // no occultation takes place
     if (c < (a + b)) {
-- 
2.43.0


From 5487af57bae1feb0cb7ab917223486fb33b533ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:01 +0000
Subject: [PATCH 026/149] fix: keep the illuminated fraction within 0 and 1
 against rounding

---
 src/environment/local/solar_radiation_pressure_environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/environment/local/solar_radiation_pressure_environment.cpp b/src/environment/local/solar_radiation_pressure_environment.cpp
index 27fdb53..4499cb9 100644
--- a/src/environment/local/solar_radiation_pressure_environment.cpp
+++ b/src/environment/local/solar_radiation_pressure_environment.cpp
@@ -95,7 +95,7 @@ void SolarRadiationPressureEnvironment::CalcShadowCoefficient(std::string shadow
   } else if (fabs(a - b) <= c && c <= (a + b))  // spacecraft is in penumbra
   {
     double A = a * a * acos(std::clamp(x / a, -1.0, 1.0)) + b * b * acos(std::clamp((c - x) / b, -1.0, 1.0)) - c * y;  // The area of the occulted segment of the apparent solar disk
-    shadow_coefficient_ *= 1.0 - A / (math::pi * a * a);
+    shadow_coefficient_ *= std::clamp(1.0 - A / (math::pi * a * a), 0.0, 1.0);
   } else {  // no occultation takes place
     if (c < (a + b)) {
       std::cout << "[Error SRP Environment]: The calculation error was occurred at the shadow calculation." << std::endl;
-- 
2.43.0


From 9384ad3549d130345d54f1a3afbc5d555428d75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:22 +0000
Subject: [PATCH 027/149] fix: the simple air density at exactly 1000 km
 altitude was zero

---
 src/math_physics/atmosphere/simple_air_density_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/atmosphere/simple_air_density_model.cpp b/src/math_physics/atmosphere/simple_air_density_model.cpp
index f616f67..7b89adf 100644
--- a/src/math_physics/atmosphere/simple_air_density_model.cpp
+++ b/src/math_physics/atmosphere/simple_air_density_model.cpp
@@ -15,7 +15,7 @@ double CalcAirDensityWithSimpleModel(const double altitude_m) {
   double base_rho_kg_m3;
 
   // scale_height_km values: Ref "ミッション解析と軌道設計の基礎" (in Japanese)
-  if (altitude_km > 1000.0) {
+  if (altitude_km >= 1000.0) {
     scale_height_km = 268.0;
     base_height_km = 1000.0;
     base_rho_kg_m3 = 3.019E-15;
-- 
2.43.0


From 45d5a9a79fd05a196c70a572f228387b6799b496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:22 +0000
Subject: [PATCH 028/149] fix: the Harris-Priester density above and below its
 table read the end of the table and had the wrong unit

---
 src/math_physics/atmosphere/harris_priester_model.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/math_physics/atmosphere/harris_priester_model.cpp b/src/math_physics/atmosphere/harris_priester_model.cpp
index 6973caf..8f6080e 100644
--- a/src/math_physics/atmosphere/harris_priester_model.cpp
+++ b/src/math_physics/atmosphere/harris_priester_model.cpp
@@ -55,8 +55,15 @@ double CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition ge
   UNUSED(f10_7);  // TODO: Use F10.7 value to search coefficients
   auto min_density_itr = harris_priester_min_density_table.upper_bound(altitude_km);
   auto max_density_itr = harris_priester_max_density_table.upper_bound(altitude_km);
-  if (min_density_itr == harris_priester_min_density_table.begin()) return min_density_itr->second;
-  if (min_density_itr == harris_priester_min_density_table.end()) return (min_density_itr->second + max_density_itr->second) / 2.0;
+  // Use the first or the last interval outside of the table
+  if (min_density_itr == harris_priester_min_density_table.begin()) {
+    ++min_density_itr;
+    ++max_density_itr;
+  }
+  if (min_density_itr == harris_priester_min_density_table.end()) {
+    --min_density_itr;
+    --max_density_itr;
+  }
   min_density_itr = prev(min_density_itr);
   max_density_itr = prev(max_density_itr);
 
-- 
2.43.0


From 69ad832a1472e882562f3ee2a07d3d55a67327b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 029/149] fix: the diurnal bulge of the Harris-Priester density
 mixed the Earth-fixed position with the inertial sun direction

---
 src/environment/local/atmosphere.cpp                  | 5 ++++-
 src/math_physics/atmosphere/harris_priester_model.cpp | 6 +++---
 src/math_physics/atmosphere/harris_priester_model.hpp | 4 ++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/environment/local/atmosphere.cpp b/src/environment/local/atmosphere.cpp
index 74b2323..78590e2 100644
--- a/src/environment/local/atmosphere.cpp
+++ b/src/environment/local/atmosphere.cpp
@@ -69,7 +69,10 @@ double Atmosphere::CalcAirDensity_kg_m3(const double decimal_year, const dynamic
   } else if (model_ == "HARRIS_PRIESTER") {
     // Harris-Priester
     math::Vector<3> sun_direction_eci = local_celestial_information_->GetGlobalInformation().GetPositionFromCenter_i_m("SUN").CalcNormalizedVector();
-    air_density_kg_m3_ = atmosphere::CalcAirDensityWithHarrisPriester_kg_m3(orbit.GetGeodeticPosition(), sun_direction_eci);
+    // The position is given in the ECEF frame, and the sun direction has to be in the same frame
+    math::Vector<3> sun_direction_ecef =
+        local_celestial_information_->GetGlobalInformation().GetEarthRotation().GetDcmJ2000ToEcef() * sun_direction_eci;
+    air_density_kg_m3_ = atmosphere::CalcAirDensityWithHarrisPriester_kg_m3(orbit.GetGeodeticPosition(), sun_direction_ecef);
   } else {
     // No suitable model
     return air_density_kg_m3_ = 0.0;
diff --git a/src/math_physics/atmosphere/harris_priester_model.cpp b/src/math_physics/atmosphere/harris_priester_model.cpp
index 8f6080e..bd7c361 100644
--- a/src/math_physics/atmosphere/harris_priester_model.cpp
+++ b/src/math_physics/atmosphere/harris_priester_model.cpp
@@ -28,7 +28,7 @@ double CalcScaleHeight_km(const std::map<double, double>::const_iterator density
  */
 double CalcApexDensity_g_km3(const std::map<double, double>::const_iterator density_itr, const double altitude_km);
 
-double CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition geodetic_position, const math::Vector<3> sun_direction_eci,
+double CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition geodetic_position, const math::Vector<3> sun_direction_ecef,
                                               const double f10_7, const double exponent_parameter) {
   // Altitude
   double altitude_km = geodetic_position.GetAltitude_m() / 1000.0;
@@ -39,8 +39,8 @@ double CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition ge
   // Phi: angle between the satellite position and apex of the diurnal bulge
   double sun_ra_rad;   //!< Right ascension of the sun phi
   double sun_dec_rad;  //!< Declination of the sun theta
-  sun_ra_rad = atan2(sun_direction_eci[1], sun_direction_eci[0]);
-  sun_dec_rad = atan2(sun_direction_eci[2], sqrt(sun_direction_eci[0] * sun_direction_eci[0] + sun_direction_eci[1] * sun_direction_eci[1]));
+  sun_ra_rad = atan2(sun_direction_ecef[1], sun_direction_ecef[0]);
+  sun_dec_rad = atan2(sun_direction_ecef[2], sqrt(sun_direction_ecef[0] * sun_direction_ecef[0] + sun_direction_ecef[1] * sun_direction_ecef[1]));
   math::Vector<3> apex_direction;
   const double lag_angle_rad = 30.0 * math::deg_to_rad;
   double apex_ra_rad = sun_ra_rad + lag_angle_rad;
diff --git a/src/math_physics/atmosphere/harris_priester_model.hpp b/src/math_physics/atmosphere/harris_priester_model.hpp
index 8b64550..acb89c9 100644
--- a/src/math_physics/atmosphere/harris_priester_model.hpp
+++ b/src/math_physics/atmosphere/harris_priester_model.hpp
@@ -15,12 +15,12 @@ namespace s2e::atmosphere {
  * @fn CalcAirDensityWithHarrisPriester
  * @brief Calculate atmospheric density with Harris-Priester method
  * @param [in] geodetic_position: Spacecraft geodetic position
- * @param [in] sun_direction_eci: Sun direction unit vector in ECI frame
+ * @param [in] sun_direction_ecef: Sun direction unit vector in ECEF frame
  * @param [in] f10_7: F10.7 radiation index (not used now)
  * @param [in] exponent_parameter: n in the equation. n=2 for low inclination orbit and n=6 for polar orbit.
  * @return Atmospheric density [kg/m^3]
  */
-double CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition geodetic_position, const math::Vector<3> sun_direction_eci,
+double CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition geodetic_position, const math::Vector<3> sun_direction_ecef,
                                               const double f10_7 = 100.0, const double exponent_parameter = 4);
 
 }  // namespace s2e::atmosphere
-- 
2.43.0


From f2002ac23e2da2b36ac0ec55a3585f9aef8f04b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 030/149] fix: the configured noise of the air density never
 reached the density used by the simulation

---
 src/environment/local/atmosphere.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/environment/local/atmosphere.cpp b/src/environment/local/atmosphere.cpp
index 78590e2..26da1ff 100644
--- a/src/environment/local/atmosphere.cpp
+++ b/src/environment/local/atmosphere.cpp
@@ -78,7 +78,8 @@ double Atmosphere::CalcAirDensity_kg_m3(const double decimal_year, const dynamic
     return air_density_kg_m3_ = 0.0;
   }
 
-  return AddNoise(air_density_kg_m3_);
+  air_density_kg_m3_ = AddNoise(air_density_kg_m3_);
+  return air_density_kg_m3_;
 }
 
 double Atmosphere::AddNoise(const double rho_kg_m3) {
@@ -86,7 +87,7 @@ double Atmosphere::AddNoise(const double rho_kg_m3) {
   randomization::NormalRand nr(0.0, rho_kg_m3 * gauss_standard_deviation_rate_, randomization::global_randomization.MakeSeed());
   double nrd = nr;
 
-  return rho_kg_m3 + nrd;
+  return std::max(rho_kg_m3 + nrd, 0.0);
 }
 
 std::string Atmosphere::GetLogValue() const {
-- 
2.43.0


From 97872c9f527995642bac1819ea87add04b4c0973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 031/149] fix: the daily Ap of the space weather table lost its
 hundreds

---
 src/math_physics/atmosphere/wrapper_nrlmsise00.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp b/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
index 14c984e..99ccc44 100644
--- a/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
+++ b/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
@@ -291,7 +291,7 @@ size_t GetSpaceWeatherTable_(double decyear, double endsec, const string& filena
     line_data.year = year;
     line_data.month = month;
     line_data.day = day;
-    line_data.Ap_avg = atof(line.substr(80, 3).c_str());
+    line_data.Ap_avg = atof(line.substr(79, 3).c_str());
     line_data.F107_adj = atof(line.substr(93, 5).c_str());
     line_data.Ctr81_adj = atof(line.substr(101, 5).c_str());
     line_data.Lst81_adj = atof(line.substr(107, 5).c_str());
-- 
2.43.0


From e54593af0c579e90b36c15c01e06377f05184c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 032/149] fix: incomplete or broken lines of the space weather
 table ended the program or were read out of bounds

---
 src/environment/local/atmosphere.cpp               | 2 ++
 src/math_physics/atmosphere/wrapper_nrlmsise00.cpp | 7 +++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/environment/local/atmosphere.cpp b/src/environment/local/atmosphere.cpp
index 26da1ff..2d7cbda 100644
--- a/src/environment/local/atmosphere.cpp
+++ b/src/environment/local/atmosphere.cpp
@@ -5,6 +5,8 @@
 
 #include "atmosphere.hpp"
 
+#include <algorithm>
+
 #include "logger/log_utility.hpp"
 #include "math_physics/atmosphere/harris_priester_model.hpp"
 #include "math_physics/atmosphere/simple_air_density_model.hpp"
diff --git a/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp b/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
index 99ccc44..8ce9f1c 100644
--- a/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
+++ b/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
@@ -261,25 +261,28 @@ size_t GetSpaceWeatherTable_(double decyear, double endsec, const string& filena
 
     string year_str = line.substr(0, 4);  // first 4 char
     if (!std::all_of(year_str.cbegin(), year_str.cend(), ::isdigit) || year_str.empty()) {
-      if (year_str == "UPDA") {
+      if (year_str == "UPDA" && line.length() >= 19) {
         int year_updated = atoi(line.substr(8, 4).c_str());
         string month_updated_str = line.substr(13, 3).c_str();
         int month_updated = ConvertMonthStrToMonthNum(month_updated_str);
         int day_updated = atoi(line.substr(17, 2).c_str());
+        if (month_updated == 0) continue;
 
         // Get table update date
         double decyear_updated = ConvertDateToDecyear(year_updated, month_updated, day_updated);
 
         // After 1.5 month from the update date, the data is updated once per month. So calculate the decimal year of the date
         int days_month[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
-        decyear_monthly = decyear_updated + (days_month[month_updated] + 14) / 365.0;
+        decyear_monthly = decyear_updated + (days_month[month_updated % 12] + 14) / 365.0;
       }
       continue;
     }
 
+    if (line.length() < 130) continue;  // Incomplete line
     int year = atoi(year_str.c_str());
     int month = atoi(line.substr(5, 2).c_str());
     int day = atoi(line.substr(8, 2).c_str());
+    if (month < 1 || month > 12) continue;
     double decyear_line = ConvertDateToDecyear(year, month, day);
     // To get 1 month data, read the data before a month from the simulation starting date
     double decyear_ini_ymd = ConvertDateToDecyear(date_ini[0], date_ini[1], date_ini[2]) - 31.0 / 365.0;  // Subtract one month
-- 
2.43.0


From 535d840fd9bb0bd9231a6f268d0a2a5bde4b1209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:34 +0000
Subject: [PATCH 033/149] fix: the base density of the layer from 350 km had
 transposed digits and made the density jump upwards at 400 km

---
 src/math_physics/atmosphere/simple_air_density_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/atmosphere/simple_air_density_model.cpp b/src/math_physics/atmosphere/simple_air_density_model.cpp
index 7b89adf..109e33b 100644
--- a/src/math_physics/atmosphere/simple_air_density_model.cpp
+++ b/src/math_physics/atmosphere/simple_air_density_model.cpp
@@ -50,7 +50,7 @@ double CalcAirDensityWithSimpleModel(const double altitude_m) {
   } else if (altitude_km >= 350.0 && altitude_km < 400.0) {
     scale_height_km = 53.298;
     base_height_km = 350.0;
-    base_rho_kg_m3 = 9.158E-12;
+    base_rho_kg_m3 = 9.518E-12;
   } else if (altitude_km >= 300.0 && altitude_km < 350.0) {
     scale_height_km = 53.628;
     base_height_km = 300.0;
-- 
2.43.0


From a593ea946a3b5203bd4b4a85c6dcc7976dbb7637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:34 +0000
Subject: [PATCH 034/149] fix: the Harris-Priester density was NaN opposite to
 the diurnal bulge for odd exponents

---
 src/math_physics/atmosphere/harris_priester_model.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math_physics/atmosphere/harris_priester_model.cpp b/src/math_physics/atmosphere/harris_priester_model.cpp
index bd7c361..d402256 100644
--- a/src/math_physics/atmosphere/harris_priester_model.cpp
+++ b/src/math_physics/atmosphere/harris_priester_model.cpp
@@ -5,6 +5,7 @@
 #include "harris_priester_model.hpp"
 
 #include <cmath>
+#include <algorithm>
 #include <math_physics/math/constants.hpp>
 #include <utilities/macros.hpp>
 
@@ -49,7 +50,7 @@ double CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition ge
   apex_direction[2] = sin(sun_dec_rad);
 
   double beta_rad = math::InnerProduct(position_ecef_m.CalcNormalizedVector(), apex_direction);
-  double cos_phi = pow(0.5 + beta_rad / 2.0, exponent_parameter / 2.0);
+  double cos_phi = pow(std::max(0.5 + beta_rad / 2.0, 0.0), exponent_parameter / 2.0);
 
   // Find density coefficients from altitude
   UNUSED(f10_7);  // TODO: Use F10.7 value to search coefficients
-- 
2.43.0


From ea5a690571682c2fd61b8190e6f2a730bb6f86e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:33 +0000
Subject: [PATCH 035/149] fix: a seed that is a multiple of the modulus made
 the random generator stick at zero, and a huge one made it leave (0, 1)

---
 ...minimal_standard_linear_congruential_generator.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/math_physics/randomization/minimal_standard_linear_congruential_generator.cpp b/src/math_physics/randomization/minimal_standard_linear_congruential_generator.cpp
index c1821e9..070f197 100644
--- a/src/math_physics/randomization/minimal_standard_linear_congruential_generator.cpp
+++ b/src/math_physics/randomization/minimal_standard_linear_congruential_generator.cpp
@@ -13,16 +13,13 @@ const double MinimalStandardLcg::a_m_ = 1.0 / MinimalStandardLcg::kM;
 
 MinimalStandardLcg::MinimalStandardLcg() : seed_(0xdeadbeef) {}
 
-MinimalStandardLcg::MinimalStandardLcg(const long seed) : seed_(seed) {
-  if (seed == 0) {
-    throw std::invalid_argument("MinimalStandardLcg:: seed is 0.");
-  }
-}
+MinimalStandardLcg::MinimalStandardLcg(const long seed) { Initialize(seed); }
 void MinimalStandardLcg::Initialize(const long seed) {
-  if (seed == 0) {
+  // The state of the generator is a residue modulo kM, and it cannot leave zero
+  if (seed % kM == 0) {
     throw std::invalid_argument("MinimalStandardLcg:: seed is 0.");
   }
-  seed_ = seed;
+  seed_ = seed % kM;
 }
 
 MinimalStandardLcg::operator double() {
-- 
2.43.0


From efdcc0e81af648dae25b44e503b9d1030e128a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:33 +0000
Subject: [PATCH 036/149] fix: the shuffling generator never left the first
 place of its table, so nothing was shuffled

---
 ...mal_standard_linear_congruential_generator_with_shuffle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp b/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
index 3bdd51d..39ca1a8 100644
--- a/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
+++ b/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
@@ -17,6 +17,7 @@ void MinimalStandardLcgWithShuffle::InitSeed(const long seed) {
 }
 
 void MinimalStandardLcgWithShuffle::Initialize() {
+  table_position_ = 0;
   // Warmup of minimal_lcg_
   for (int i = 0; i < 8; i++) {
     double temp = minimal_lcg_;
@@ -31,7 +32,7 @@ void MinimalStandardLcgWithShuffle::Initialize() {
 MinimalStandardLcgWithShuffle::operator double() {
   double out = mixing_table_[table_position_];
   mixing_table_[table_position_] = minimal_lcg_;  // Compensate next random value
-  table_position_ = (size_t)out * MinimalStandardLcg::kM;
+  table_position_ = (size_t)(out * MinimalStandardLcg::kM);
   table_position_ %= kTableSize;  // y <- [0 : kTableSize-1]
 
   return out;
-- 
2.43.0


From fa902c2285d61f5e1645b9dd70420b52192335ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:33 +0000
Subject: [PATCH 037/149] fix: a normal generator kept a value of the former
 seed after it was given a new one

---
 src/math_physics/randomization/normal_randomization.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math_physics/randomization/normal_randomization.hpp b/src/math_physics/randomization/normal_randomization.hpp
index b230680..dcd2f35 100644
--- a/src/math_physics/randomization/normal_randomization.hpp
+++ b/src/math_physics/randomization/normal_randomization.hpp
@@ -94,6 +94,7 @@ class NormalRand {
     average_ = average;
     standard_deviation_ = standard_deviation;
     randomizer_.InitSeed(seed);
+    is_empty_ = true;
   }
 
  private:
-- 
2.43.0


From 75d95ab310f9a6b031131102b8d2c9f36597faea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 038/149] fix: the error about an invalid seed ended the
 program instead of reaching the caller of a normal generator

---
 src/math_physics/randomization/normal_randomization.cpp | 2 +-
 src/math_physics/randomization/normal_randomization.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math_physics/randomization/normal_randomization.cpp b/src/math_physics/randomization/normal_randomization.cpp
index b136700..a77aa7e 100644
--- a/src/math_physics/randomization/normal_randomization.cpp
+++ b/src/math_physics/randomization/normal_randomization.cpp
@@ -14,7 +14,7 @@ NormalRand::NormalRand() : average_(0.0), standard_deviation_(1.0), holder_(0.0)
 NormalRand::NormalRand(double average, double standard_deviation)
     : average_(average), standard_deviation_(standard_deviation), holder_(0.0), is_empty_(true) {}
 
-NormalRand::NormalRand(double average, double standard_deviation, long seed) throw()
+NormalRand::NormalRand(double average, double standard_deviation, long seed)
     : average_(average), standard_deviation_(standard_deviation), randomizer_(seed), holder_(0.0), is_empty_(true) {}
 
 NormalRand::operator double() {
diff --git a/src/math_physics/randomization/normal_randomization.hpp b/src/math_physics/randomization/normal_randomization.hpp
index dcd2f35..b455a4d 100644
--- a/src/math_physics/randomization/normal_randomization.hpp
+++ b/src/math_physics/randomization/normal_randomization.hpp
@@ -40,7 +40,7 @@ class NormalRand {
    * @param standard_deviation: Standard deviation of normal distribution
    * @param seed: Seed of randomization
    */
-  NormalRand(double average, double standard_deviation, long seed) throw();
+  NormalRand(double average, double standard_deviation, long seed);
 
   /**
    * @fn Cast operator to double type
-- 
2.43.0


From 539ee902c8759718ba44256489bd58399555ab45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:48 +0000
Subject: [PATCH 039/149] fix: consecutive seeds of the global randomization
 gave shifted copies of one random sequence

---
 .../randomization/global_randomization.cpp          | 13 ++++++++-----
 .../randomization/global_randomization.hpp          |  6 +++---
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/math_physics/randomization/global_randomization.cpp b/src/math_physics/randomization/global_randomization.cpp
index 5c1bdef..c4629f3 100644
--- a/src/math_physics/randomization/global_randomization.cpp
+++ b/src/math_physics/randomization/global_randomization.cpp
@@ -17,11 +17,14 @@ void GlobalRandomization::SetSeed(const long seed) {
 }
 
 long GlobalRandomization::MakeSeed() {
-  double rand = base_randomizer_;
-  long seed = (long)((rand - 0.5) * kMaxSeed);
-  if (seed == 0) {
-    seed = 0xdeadbeef;
-  }
+  // The upper and lower halves of the seed come from different draws. A seed proportional to a single draw would start a generator of the same
+  // recurrence from a state next to the one of the seed made before, and the sequences of consecutive seeds would be shifted copies of each other.
+  long seed;
+  do {
+    const double upper = base_randomizer_;
+    const double lower = base_randomizer_;
+    seed = (long)(upper * kHalfSeedRange) * kHalfSeedRange + (long)(lower * kHalfSeedRange);
+  } while (seed % MinimalStandardLcg::kM == 0);
   return seed;
 }
 
diff --git a/src/math_physics/randomization/global_randomization.hpp b/src/math_physics/randomization/global_randomization.hpp
index 5220420..c627645 100644
--- a/src/math_physics/randomization/global_randomization.hpp
+++ b/src/math_physics/randomization/global_randomization.hpp
@@ -34,9 +34,9 @@ class GlobalRandomization {
   long MakeSeed();
 
  private:
-  static const unsigned int kMaxSeed = 0xffffffff;  //!< Maximum value of seed
-  MinimalStandardLcg base_randomizer_;              //!< Base of global randomization
-  long seed_;                                       //!< Seed of global randomization
+  static const long kHalfSeedRange = 0x10000;  //!< Number of values of each half of a seed
+  MinimalStandardLcg base_randomizer_;         //!< Base of global randomization
+  long seed_;                                  //!< Seed of global randomization
 };
 
 extern GlobalRandomization global_randomization;  //!< Global randomization
-- 
2.43.0


From f51dce283c8e1d13512391c499ce3883eecb533e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:45 +0000
Subject: [PATCH 040/149] fix: propagating an attitude to the time it already
 has turned it into NaN

---
 src/dynamics/attitude/attitude_rk4.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dynamics/attitude/attitude_rk4.cpp b/src/dynamics/attitude/attitude_rk4.cpp
index e432e66..f765b85 100644
--- a/src/dynamics/attitude/attitude_rk4.cpp
+++ b/src/dynamics/attitude/attitude_rk4.cpp
@@ -41,6 +41,8 @@ void AttitudeRk4::SetParameters(const simulation::MonteCarloSimulationExecutor&
 void AttitudeRk4::Propagate(const double end_time_s) {
   if (!is_calc_enabled_) return;
 
+  if (end_time_s <= current_propagation_time_s_) return;  // No time to propagate, and no rate of the inertia tensor
+
   math::Matrix<3, 3> dot_inertia_tensor = (1.0 / (end_time_s - current_propagation_time_s_)) * (inertia_tensor_kgm2_ - previous_inertia_tensor_kgm2_);
   torque_inertia_tensor_change_b_Nm_ = dot_inertia_tensor * angular_velocity_b_rad_s_;
   inverse_inertia_tensor_ = CalcInverseMatrix(inertia_tensor_kgm2_);
-- 
2.43.0


From 86b953bf4144ca39322992df1b5ce362bfd76d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:45 +0000
Subject: [PATCH 041/149] fix: the angular velocity of a controlled attitude
 jumped when the sign of its quaternion changed

---
 src/dynamics/attitude/controlled_attitude.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamics/attitude/controlled_attitude.cpp b/src/dynamics/attitude/controlled_attitude.cpp
index e92cc13..737a407 100644
--- a/src/dynamics/attitude/controlled_attitude.cpp
+++ b/src/dynamics/attitude/controlled_attitude.cpp
@@ -171,7 +171,8 @@ void ControlledAttitude::CalcAngularVelocity(const double current_time_s) {
     double time_diff_sec = current_time_s - previous_calc_time_s_;
     math::Quaternion prev_q_b2i = previous_quaternion_i2b_.Conjugate();
     math::Quaternion q_diff = prev_q_b2i * quaternion_i2b_;
-    q_diff = (2.0 / time_diff_sec) * q_diff;
+    // q and -q are the same attitude: take the one that is the small rotation
+    q_diff = ((q_diff[3] < 0.0 ? -2.0 : 2.0) / time_diff_sec) * q_diff;
 
     math::Vector<3> angular_acc_b_rad_s2_;
     for (int i = 0; i < 3; i++) {
-- 
2.43.0


From bd0a28857dff89daeb4728e910e882a8f8e91187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:45 +0000
Subject: [PATCH 042/149] fix: a controlled attitude never calculated its
 angular momentum and kinetic energy

---
 src/dynamics/attitude/controlled_attitude.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamics/attitude/controlled_attitude.cpp b/src/dynamics/attitude/controlled_attitude.cpp
index 737a407..72a7f4f 100644
--- a/src/dynamics/attitude/controlled_attitude.cpp
+++ b/src/dynamics/attitude/controlled_attitude.cpp
@@ -73,6 +73,7 @@ void ControlledAttitude::Propagate(const double end_time_s) {
   PointingControl(main_direction_i, sub_direction_i);
   // Calc angular velocity
   CalcAngularVelocity(end_time_s);
+  CalcAngularMomentum();
   return;
 }
 
-- 
2.43.0


From 665f8e55df962a14bc982a8430aa3f4be10dad56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:45 +0000
Subject: [PATCH 043/149] fix: the attitude with a cantilever kept the inertia
 tensors of the start when the structure changed

---
 src/dynamics/attitude/attitude_with_cantilever_vibration.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp b/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
index d07cf23..b13a177 100644
--- a/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
+++ b/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
@@ -81,6 +81,9 @@ void AttitudeWithCantileverVibration::Propagate(const double end_time_s) {
   math::Vector<3> torque_inertia_tensor_b_Nm = dot_inertia_tensor * angular_velocity_b_rad_s_;
   attitude_ode_.SetTorqueInertiaTensor_b_Nm(torque_inertia_tensor_b_Nm);
   attitude_ode_.SetInverseInertiaTensor(CalcInverseMatrix(inertia_tensor_kgm2_));
+  const math::Matrix<3, 3> total_inertia_tensor_kgm2 = inertia_tensor_kgm2_ + attitude_ode_.GetInertiaTensorCantilever_kgm2();
+  attitude_ode_.SetInverseTotalInertiaTensor(CalcInverseMatrix(total_inertia_tensor_kgm2));
+  attitude_ode_.SetInverseEquivalentInertiaTensorCantilever(attitude_ode_.GetInverseInertiaTensor() * total_inertia_tensor_kgm2);
   attitude_ode_.SetTorque_b_Nm(torque_b_Nm_);
   attitude_ode_.SetAngularMomentumReactionWheel_b_Nms(angular_momentum_reaction_wheel_b_Nms_);
 
-- 
2.43.0


From f1c705501d02829e9fe9fd8bcc9e4298d031dfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 044/149] fix: the temporary attitude of the CONTROLLED
 initialize mode stayed registered, so no second simulation could be built

---
 src/dynamics/attitude/initialize_attitude.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamics/attitude/initialize_attitude.cpp b/src/dynamics/attitude/initialize_attitude.cpp
index 2119bae..f882dd4 100644
--- a/src/dynamics/attitude/initialize_attitude.cpp
+++ b/src/dynamics/attitude/initialize_attitude.cpp
@@ -48,6 +48,7 @@ Attitude* InitAttitude(std::string file_name, const orbit::Orbit* orbit, const e
                                                      inertia_tensor_kgm2, target_position, local_celestial_information, orbit, mc_name_temp);
     attitude_temp->Propagate(step_width_s);
     quaternion_i2b = attitude_temp->GetQuaternion_i2b();
+    delete attitude_temp;
     omega_b = math::Vector<3>(0.0);
     torque_b = math::Vector<3>(0.0);
   } else {
-- 
2.43.0


From d5af76090baaf6f851a986d51fcd695477907da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 045/149] fix: the last step of the cantilever attitude was
 always a full step, also when the update interval left less

---
 .../attitude/attitude_with_cantilever_vibration.cpp       | 8 +++++---
 .../numerical_integration/numerical_integrator.hpp        | 6 ++++++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp b/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
index b13a177..6e7fcc8 100644
--- a/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
+++ b/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
@@ -75,8 +75,9 @@ void AttitudeWithCantileverVibration::SetParameters(const simulation::MonteCarlo
 void AttitudeWithCantileverVibration::Propagate(const double end_time_s) {
   if (!is_calc_enabled_) return;
 
+  if (end_time_s - current_propagation_time_s_ <= 0.0) return;
+
   math::Matrix<3, 3> previous_inertia_tensor_kgm2 = attitude_ode_.GetPreviousInertiaTensor_kgm2();
-  assert(end_time_s - current_propagation_time_s_ > 1e-6);
   math::Matrix<3, 3> dot_inertia_tensor = (1.0 / (end_time_s - current_propagation_time_s_)) * (inertia_tensor_kgm2_ - previous_inertia_tensor_kgm2);
   math::Vector<3> torque_inertia_tensor_b_Nm = dot_inertia_tensor * angular_velocity_b_rad_s_;
   attitude_ode_.SetTorqueInertiaTensor_b_Nm(torque_inertia_tensor_b_Nm);
@@ -89,12 +90,13 @@ void AttitudeWithCantileverVibration::Propagate(const double end_time_s) {
 
   math::Vector<13> state = attitude_ode_.SetStateFromPhysicalQuantities(angular_velocity_b_rad_s_, angular_velocity_cantilever_rad_s_,
                                                                         quaternion_i2b_, euler_angular_cantilever_rad_);
-  numerical_integrator_.GetIntegrator()->SetState(propagation_step_s_, state);
+  numerical_integrator_.GetIntegrator()->SetState(current_propagation_time_s_, state);
+  numerical_integrator_.GetIntegrator()->SetStepWidth(propagation_step_s_);
   while (end_time_s - current_propagation_time_s_ - propagation_step_s_ > 1.0e-6) {
     numerical_integrator_.GetIntegrator()->Integrate();
     current_propagation_time_s_ += propagation_step_s_;
   }
-  numerical_integrator_.GetIntegrator()->SetState(end_time_s - current_propagation_time_s_, numerical_integrator_.GetIntegrator()->GetState());
+  numerical_integrator_.GetIntegrator()->SetStepWidth(end_time_s - current_propagation_time_s_);
   numerical_integrator_.GetIntegrator()->Integrate();
   attitude_ode_.SetPhysicalQuantitiesFromState(numerical_integrator_.GetIntegrator()->GetState(), angular_velocity_b_rad_s_,
                                                angular_velocity_cantilever_rad_s_, quaternion_i2b_, euler_angular_cantilever_rad_);
diff --git a/src/math_physics/numerical_integration/numerical_integrator.hpp b/src/math_physics/numerical_integration/numerical_integrator.hpp
index 461bfa2..2f8ca6e 100644
--- a/src/math_physics/numerical_integration/numerical_integrator.hpp
+++ b/src/math_physics/numerical_integration/numerical_integrator.hpp
@@ -50,6 +50,12 @@ class NumericalIntegrator {
     previous_state_ = state;
   }
 
+  /**
+   * @fn SetStepWidth
+   * @brief Set step width of the following integrations
+   */
+  inline void SetStepWidth(const double step_width) { step_width_ = step_width; }
+
   /**
    * @fn GetState
    * @brief Return current state vector
-- 
2.43.0


From b3882b648cf74a2732b9b17b6789e39d4413a4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:41 +0000
Subject: [PATCH 046/149] fix: use the intermediate temperatures in the thermal
 Runge-Kutta integration

---
 src/dynamics/thermal/temperature.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/dynamics/thermal/temperature.cpp b/src/dynamics/thermal/temperature.cpp
index 46a39b0..e6f6952 100644
--- a/src/dynamics/thermal/temperature.cpp
+++ b/src/dynamics/thermal/temperature.cpp
@@ -138,9 +138,6 @@ void Temperature::CalcRungeOneStep(double time_now_s, double time_step_s, const
 
 vector<double> Temperature::CalcTemperatureDifferentials(vector<double> temperatures_K, double t,
                                                          const environment::LocalCelestialInformation* local_celestial_information, size_t node_num) {
-  // TODO: consider the following unused arguments are really needed
-  UNUSED(temperatures_K);
-
   math::Vector<3> sun_direction_b = local_celestial_information->GetPositionFromSpacecraft_b_m("SUN").CalcNormalizedVector();
   vector<double> differentials_K_s(node_num);
   for (size_t i = 0; i < node_num; i++) {
@@ -167,9 +164,9 @@ vector<double> Temperature::CalcTemperatureDifferentials(vector<double> temperat
       double conductive_heat_input_W = 0;
       double radiative_heat_input_W = 0;
       for (size_t j = 0; j < node_num; j++) {
-        conductive_heat_input_W += conductance_matrix_W_K_[i][j] * (nodes_[j].GetTemperature_K() - nodes_[i].GetTemperature_K());
+        conductive_heat_input_W += conductance_matrix_W_K_[i][j] * (temperatures_K[j] - temperatures_K[i]);
         radiative_heat_input_W += environment::stefan_boltzmann_constant_W_m2K4 * radiation_matrix_m2_[i][j] *
-                                  (pow(nodes_[j].GetTemperature_K(), 4) - pow(nodes_[i].GetTemperature_K(), 4));
+                                  (pow(temperatures_K[j], 4) - pow(temperatures_K[i], 4));
       }
       double total_heat_input_W = conductive_heat_input_W + radiative_heat_input_W + total_heatload_W;
       differentials_K_s[i] = total_heat_input_W / nodes_[i].GetCapacity_J_K();
-- 
2.43.0


From 73b3c16c305d8fad9ae953f34bc556a71c0e5e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:41 +0000
Subject: [PATCH 047/149] fix: restart the internal heat load table at every
 period

---
 src/dynamics/thermal/heatload.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/dynamics/thermal/heatload.cpp b/src/dynamics/thermal/heatload.cpp
index 29b8cdb..2fe3f26 100644
--- a/src/dynamics/thermal/heatload.cpp
+++ b/src/dynamics/thermal/heatload.cpp
@@ -15,6 +15,7 @@ Heatload::Heatload(int node_id, std::vector<double> time_table_s, std::vector<do
   elapsed_time_idx_ = 0;
   solar_heatload_W_ = 0.0;
   albedo_heatload_W_ = 0.0;
+  earth_infrared_heatload_W_ = 0.0;
   internal_heatload_W_ = 0.0;
   heater_heatload_W_ = 0.0;
   total_heatload_W_ = 0.0;
@@ -22,12 +23,17 @@ Heatload::Heatload(int node_id, std::vector<double> time_table_s, std::vector<do
   AssertHeatloadParams();
 
   time_table_period_s_ = time_table_s_[time_table_s_.size() - 1];
-  residual_elapsed_time_s_ = fmod(elapsed_time_s_, time_table_period_s_);
+  SetElapsedTime_s(0.0);
 }
 
 Heatload::~Heatload() {}
 
 void Heatload::CalcInternalHeatload(void) {
+  if (time_table_s_.size() < 2) {
+    internal_heatload_W_ = internal_heatload_table_W_[0];  // constant heat load
+    return;
+  }
+
   double time_table_lower_s = time_table_s_[elapsed_time_idx_];      // Time in time_table_s_ that is below and closest to elapsed_time_s_ [s]
   double time_table_upper_s = time_table_s_[elapsed_time_idx_ + 1];  // Time in time_table_s_ that is above and closest to elapsed_time_s_ [s]
 
@@ -43,13 +49,12 @@ void Heatload::CalcInternalHeatload(void) {
 
 void Heatload::SetElapsedTime_s(double elapsed_time_s) {
   elapsed_time_s_ = elapsed_time_s;
-  residual_elapsed_time_s_ = fmod(elapsed_time_s_, time_table_period_s_);
+  residual_elapsed_time_s_ = (time_table_period_s_ > 0.0) ? fmod(elapsed_time_s_, time_table_period_s_) : 0.0;
 
-  while (residual_elapsed_time_s_ > time_table_s_[elapsed_time_idx_ + 1]) {
+  // The residual time returns to the top of the table every period
+  if (residual_elapsed_time_s_ < time_table_s_[elapsed_time_idx_]) elapsed_time_idx_ = 0;
+  while (elapsed_time_idx_ + 2 < time_table_s_.size() && residual_elapsed_time_s_ > time_table_s_[elapsed_time_idx_ + 1]) {
     elapsed_time_idx_++;
-    if (elapsed_time_idx_ > time_table_s_.size() - 1) {
-      elapsed_time_idx_ = 0;
-    }
   }
 }
 
-- 
2.43.0


From a28374fee3949eaef1f52fca6506c2693e98c77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:55 +0000
Subject: [PATCH 048/149] fix: limit the arguments of the inverse trigonometric
 functions of the thermal node view factors

---
 src/dynamics/thermal/node.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/dynamics/thermal/node.cpp b/src/dynamics/thermal/node.cpp
index c6189e5..bda4922 100644
--- a/src/dynamics/thermal/node.cpp
+++ b/src/dynamics/thermal/node.cpp
@@ -5,6 +5,7 @@
 
 #include "node.hpp"
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
 #include <environment/global/physical_constants.hpp>
@@ -15,6 +16,9 @@ using namespace s2e::math;
 
 namespace s2e::dynamics::thermal {
 
+// Limit a sine or cosine value to [-1, 1] against numerical errors
+static double LimitToUnit(const double value) { return std::max(-1.0, std::min(1.0, value)); }
+
 Node::Node(const size_t node_id, const string node_name, const NodeType node_type, const size_t heater_id, const double temperature_ini_K,
            const double capacity_J_K, const double alpha, const double epsilon, const double area_m2, math::Vector<3> normal_vector_b)
     : node_id_(node_id),
@@ -54,7 +58,7 @@ double Node::CalcAlbedoRadiation_W(math::Vector<3> earth_position_b_m, math::Vec
   math::Vector<3> vec_b = (sat2sun_direction_b - sat2earth_direction_b).CalcNormalizedVector();
 
   const double cos_theta = InnerProduct(vec_a, vec_b);
-  const double lamda = acos(InnerProduct(sat2earth_direction_b, normal_vector_b_));
+  const double lamda = acos(LimitToUnit(InnerProduct(sat2earth_direction_b, normal_vector_b_)));
   const double h = earth_position_b_m.CalcNorm() - environment::earth_equatorial_radius_m;
   const double H = earth_position_b_m.CalcNorm() / environment::earth_equatorial_radius_m;
   const double phi_m = asin(1.0 / H);
@@ -67,8 +71,9 @@ double Node::CalcAlbedoRadiation_W(math::Vector<3> earth_position_b_m, math::Vec
     if (lamda <= math::pi / 2.0 - phi_m) {
       view_factor = cos(lamda) / H / H;
     } else if (lamda <= math::pi / 2.0 + phi_m) {
-      view_factor = 1.0 / 2.0 - 1.0 / math::pi * asin(b / (H * sin(lamda))) +
-                    1.0 / (math::pi * pow(H, 2.0)) * (cos(lamda) * acos(-b / tan(lamda)) - b * sqrt(1.0 - pow(H * cos(lamda), 2.0)));
+      view_factor = 1.0 / 2.0 - 1.0 / math::pi * asin(LimitToUnit(b / (H * sin(lamda)))) +
+                    1.0 / (math::pi * pow(H, 2.0)) *
+                        (cos(lamda) * acos(LimitToUnit(-b / tan(lamda))) - b * sqrt(1.0 - pow(LimitToUnit(H * cos(lamda)), 2.0)));
     } else {
       view_factor = 0.0;
     }
@@ -98,7 +103,7 @@ double Node::CalcAlbedoRadiation_W(math::Vector<3> earth_position_b_m, math::Vec
 double Node::CalcEarthInfraredRadiation_W(math::Vector<3> earth_position_b_m, double earth_infrared_W_m2) {
   math::Vector<3> earth_direction_b = earth_position_b_m.CalcNormalizedVector();
 
-  const double lamda = acos(InnerProduct(earth_direction_b, normal_vector_b_));
+  const double lamda = acos(LimitToUnit(InnerProduct(earth_direction_b, normal_vector_b_)));
   const double h = earth_position_b_m.CalcNorm() - environment::earth_equatorial_radius_m;
   const double H = earth_position_b_m.CalcNorm() / environment::earth_equatorial_radius_m;
   const double phi_m = asin(1.0 / H);
@@ -112,8 +117,9 @@ double Node::CalcEarthInfraredRadiation_W(math::Vector<3> earth_position_b_m, do
     if (lamda <= math::pi / 2.0 - phi_m) {
       view_factor = cos(lamda) / H / H;
     } else if (lamda <= math::pi / 2.0 + phi_m) {
-      view_factor = 1.0 / 2.0 - 1.0 / math::pi * asin(b / (H * sin(lamda))) +
-                    1.0 / (math::pi * pow(H, 2.0)) * (cos(lamda) * acos(-b / tan(lamda)) - b * sqrt(1.0 - pow(H * cos(lamda), 2.0)));
+      view_factor = 1.0 / 2.0 - 1.0 / math::pi * asin(LimitToUnit(b / (H * sin(lamda)))) +
+                    1.0 / (math::pi * pow(H, 2.0)) *
+                        (cos(lamda) * acos(LimitToUnit(-b / tan(lamda))) - b * sqrt(1.0 - pow(LimitToUnit(H * cos(lamda)), 2.0)));
     } else {
       view_factor = 0.0;
     }
-- 
2.43.0


From 2540d8a29648e57b36f67521a01c5387bd6e6d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:24 +0000
Subject: [PATCH 049/149] fix: the acceleration of an orbit was not
 initialised, so the first propagation could use any value

---
 src/dynamics/orbit/orbit.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics/orbit/orbit.hpp b/src/dynamics/orbit/orbit.hpp
index c51f0dc..7380e01 100644
--- a/src/dynamics/orbit/orbit.hpp
+++ b/src/dynamics/orbit/orbit.hpp
@@ -202,7 +202,7 @@ class Orbit : public logger::ILoggable {
   math::Vector<3> spacecraft_velocity_b_m_s_;     //!< Spacecraft velocity in the body frame [m/s]
   math::Vector<3> spacecraft_velocity_ecef_m_s_;  //!< Spacecraft velocity in the ECEF frame [m/s]
 
-  math::Vector<3> spacecraft_acceleration_i_m_s2_;  //!< Spacecraft acceleration in the inertial frame [m/s2]
+  math::Vector<3> spacecraft_acceleration_i_m_s2_{0.0};  //!< Spacecraft acceleration in the inertial frame [m/s2]
                                                     //!< NOTE: Clear to zero at the end of the Propagate function
 
   // Frame Conversion TODO: consider other planet
-- 
2.43.0


From 2670cab8ee726d85b792a1290d76f54f60493966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:24 +0000
Subject: [PATCH 050/149] fix: the Kepler and Encke propagators did not set
 their propagate mode

---
 src/dynamics/orbit/encke_orbit_propagation.cpp  | 1 +
 src/dynamics/orbit/kepler_orbit_propagation.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/dynamics/orbit/encke_orbit_propagation.cpp b/src/dynamics/orbit/encke_orbit_propagation.cpp
index 5a1ae0d..9bcb931 100644
--- a/src/dynamics/orbit/encke_orbit_propagation.cpp
+++ b/src/dynamics/orbit/encke_orbit_propagation.cpp
@@ -19,6 +19,7 @@ EnckeOrbitPropagation::EnckeOrbitPropagation(const environment::CelestialInforma
       gravity_constant_m3_s2_(gravity_constant_m3_s2),
       error_tolerance_(error_tolerance),
       propagation_step_s_(propagation_step_s) {
+  propagate_mode_ = OrbitPropagateMode::kEncke;
   propagation_time_s_ = 0.0;
   Initialize(current_time_jd, position_i_m, velocity_i_m_s);
 }
diff --git a/src/dynamics/orbit/kepler_orbit_propagation.cpp b/src/dynamics/orbit/kepler_orbit_propagation.cpp
index 4e90508..53f417d 100644
--- a/src/dynamics/orbit/kepler_orbit_propagation.cpp
+++ b/src/dynamics/orbit/kepler_orbit_propagation.cpp
@@ -13,6 +13,7 @@ namespace s2e::dynamics::orbit {
 KeplerOrbitPropagation::KeplerOrbitPropagation(const environment::CelestialInformation* celestial_information, const double current_time_jd,
                                                KeplerOrbit kepler_orbit)
     : Orbit(celestial_information), KeplerOrbit(kepler_orbit) {
+  propagate_mode_ = OrbitPropagateMode::kKepler;
   UpdateState(current_time_jd);
 }
 
-- 
2.43.0


From 10eecb5f4dd2100ec63ba4bcb14464c5fecb5245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:55 +0000
Subject: [PATCH 051/149] fix: the rectification of the Encke method took the
 state of the former update for the current time and dropped the acceleration

---
 src/dynamics/orbit/encke_orbit_propagation.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/dynamics/orbit/encke_orbit_propagation.cpp b/src/dynamics/orbit/encke_orbit_propagation.cpp
index 9bcb931..9cfd33d 100644
--- a/src/dynamics/orbit/encke_orbit_propagation.cpp
+++ b/src/dynamics/orbit/encke_orbit_propagation.cpp
@@ -30,13 +30,6 @@ EnckeOrbitPropagation::~EnckeOrbitPropagation() {}
 void EnckeOrbitPropagation::Propagate(const double end_time_s, const double current_time_jd) {
   if (!is_calc_enabled_) return;
 
-  // Rectification
-  double norm_sat_position_m = spacecraft_position_i_m_.CalcNorm();
-  double norm_difference_position_m = difference_position_i_m_.CalcNorm();
-  if (norm_difference_position_m / norm_sat_position_m > error_tolerance_) {
-    Initialize(current_time_jd, spacecraft_position_i_m_, spacecraft_velocity_i_m_s_);
-  }
-
   // Update reference orbit
   reference_kepler_orbit.CalcOrbit(current_time_jd);
   reference_position_i_m_ = reference_kepler_orbit.GetPosition_i_m();
@@ -60,6 +53,13 @@ void EnckeOrbitPropagation::Propagate(const double end_time_s, const double curr
   difference_velocity_i_m_s_[2] = GetState()[5];
 
   UpdateSatOrbit();
+
+  // Rectification: the state is the one at current_time_jd here
+  double norm_sat_position_m = spacecraft_position_i_m_.CalcNorm();
+  double norm_difference_position_m = difference_position_i_m_.CalcNorm();
+  if (norm_difference_position_m / norm_sat_position_m > error_tolerance_) {
+    Initialize(current_time_jd, spacecraft_position_i_m_, spacecraft_velocity_i_m_s_);
+  }
 }
 
 // Functions for OrdinaryDifferentialEquation
@@ -87,9 +87,6 @@ void EnckeOrbitPropagation::DerivativeFunction(double t, const math::Vector<6>&
 
 // Private Functions
 void EnckeOrbitPropagation::Initialize(double current_time_jd, math::Vector<3> reference_position_i_m, math::Vector<3> reference_velocity_i_m_s) {
-  // General
-  spacecraft_acceleration_i_m_s2_.FillUp(0.0);
-
   // reference orbit
   reference_position_i_m_ = reference_position_i_m;
   reference_velocity_i_m_s_ = reference_velocity_i_m_s;
-- 
2.43.0


From 23e42ff355e2af836b68edfc63bda9edd082d65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:00 +0000
Subject: [PATCH 052/149] fix: the orbit of a time series file read behind the
 table, lagged behind and jumped to the last row near the end

---
 .../time_series_file_orbit_propagation.cpp    | 38 ++++++++++++++-----
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/dynamics/orbit/time_series_file_orbit_propagation.cpp b/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
index 5230a18..6ddf957 100644
--- a/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
+++ b/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
@@ -5,9 +5,13 @@
 
 #include "time_series_file_orbit_propagation.hpp"
 
+#include <algorithm>
+#include <cmath>
 #include <fstream>
 #include <iostream>
 #include <sstream>
+#include <stdexcept>
+#include <string>
 #include <utilities/macros.hpp>
 
 #include "logger/log_utility.hpp"
@@ -32,23 +36,35 @@ TimeSeriesFileOrbitPropagation::TimeSeriesFileOrbitPropagation(const environment
   // Read time series file
   setting_file_reader::IniAccess time_series_file(time_series_file_path);
   time_series_file.ReadCsvDoubleWithHeader(time_series_data_, 7, 1, 0);
+  if (time_series_data_.empty()) {
+    throw std::runtime_error("Time series file orbit propagation: no data in " + time_series_file_path);
+  }
+  if (number_of_interpolation_ < 1) {
+    number_of_interpolation_ = 1;
+  }
+  if (static_cast<size_t>(number_of_interpolation_) > time_series_data_.size()) {
+    number_of_interpolation_ = static_cast<int>(time_series_data_.size());
+  }
 
   // Get general info
   size_t nearest_ephemeris_time_id = SearchNearestEphemerisTimeId(current_time_jd);
 
-  const size_t half_interpolation_number = number_of_interpolation / 2;
+  const size_t half_interpolation_number = number_of_interpolation_ / 2;
   if (nearest_ephemeris_time_id >= half_interpolation_number) {
     reference_interpolation_id_ = nearest_ephemeris_time_id - half_interpolation_number;
   }
+  if (reference_interpolation_id_ + number_of_interpolation_ > time_series_data_.size()) {
+    reference_interpolation_id_ = time_series_data_.size() - number_of_interpolation_;
+  }
 
   reference_time_ = CalcEphemerisTimeData(reference_interpolation_id_);
 
   // Initialize orbit
-  orbit_position_i_m_.assign(1, s2e::orbit::InterpolationOrbit(number_of_interpolation));
-  orbit_velocity_i_m_s_.assign(1, s2e::orbit::InterpolationOrbit(number_of_interpolation));
+  orbit_position_i_m_.assign(1, s2e::orbit::InterpolationOrbit(number_of_interpolation_));
+  orbit_velocity_i_m_s_.assign(1, s2e::orbit::InterpolationOrbit(number_of_interpolation_));
 
   // Initialize interpolation
-  for (int i = 0; i < number_of_interpolation; i++) {
+  for (int i = 0; i < number_of_interpolation_; i++) {
     UpdateInterpolationInformation();
   }
   spacecraft_acceleration_i_m_s2_ *= 0.0;
@@ -60,7 +76,7 @@ TimeSeriesFileOrbitPropagation::TimeSeriesFileOrbitPropagation(const environment
 }
 
 size_t TimeSeriesFileOrbitPropagation::SearchNearestEphemerisTimeId(const double current_time_jd) {
-  size_t nearest_ephemeris_time_id = 0;
+  size_t nearest_ephemeris_time_id = time_series_data_.size();
 
   // Get start ephemeris time
   double start_ephemris_time = (current_time_jd - 2451545.0) * 86400.0;
@@ -76,7 +92,7 @@ size_t TimeSeriesFileOrbitPropagation::SearchNearestEphemerisTimeId(const double
 }
 
 double TimeSeriesFileOrbitPropagation::CalcEphemerisTimeData(const size_t ephemeris_time_id) const {
-  if (ephemeris_time_id > time_series_data_.size()) {
+  if (ephemeris_time_id >= time_series_data_.size()) {
     return 0;
   }
   return time_series_data_[ephemeris_time_id][0];
@@ -90,11 +106,13 @@ void TimeSeriesFileOrbitPropagation::Propagate(const double end_time_s, const do
   // Check interpolation update
   double current_ephemris_time = (current_time_jd - 2451545.0) * 86400.0;
   double diff_s = current_ephemris_time - reference_time_;
-  double medium_time_s = orbit_position_i_m_[0].GetTimeList()[static_cast<std::size_t>(std::round(number_of_interpolation_ / 2.0))];
-  if (diff_s > medium_time_s) {
+  const size_t medium_id =
+      std::min(static_cast<size_t>(std::round(number_of_interpolation_ / 2.0)), static_cast<size_t>(number_of_interpolation_) - 1);
+  while (reference_interpolation_id_ < time_series_data_.size() && diff_s > orbit_position_i_m_[0].GetTimeList()[medium_id]) {
     UpdateInterpolationInformation();
   }
-  if (diff_s < 0.0) {
+
+  if (current_ephemris_time < time_series_data_.front()[0]) {
     if (!is_time_range_warning_displayed_) {
       std::cout << "[WARNING] Time series file orbit propagation: Time is out of range of time series file." << std::endl;
       is_time_range_warning_displayed_ = true;
@@ -103,7 +121,7 @@ void TimeSeriesFileOrbitPropagation::Propagate(const double end_time_s, const do
       spacecraft_position_i_m_[i] = time_series_data_[0][i + 1];
       spacecraft_velocity_i_m_s_[i] = time_series_data_[0][i + 4];
     }
-  } else if (diff_s > 1e6 || reference_interpolation_id_ >= time_series_data_.size()) {
+  } else if (current_ephemris_time > time_series_data_.back()[0]) {
     if (!is_time_range_warning_displayed_) {
       std::cout << "[WARNING] Time series file orbit propagation: Time is out of range of time series file." << std::endl;
       is_time_range_warning_displayed_ = true;
-- 
2.43.0


From 8f213f639ae2a4f6e4b39c8161d2de1023df22ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 053/149] fix: the force on a surface that faces its source
 exactly was NaN when rounding pushed the cosine beyond one

---
 src/disturbances/surface_force.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/disturbances/surface_force.cpp b/src/disturbances/surface_force.cpp
index 391a782..a2a0ef1 100644
--- a/src/disturbances/surface_force.cpp
+++ b/src/disturbances/surface_force.cpp
@@ -5,6 +5,9 @@
 
 #include "surface_force.hpp"
 
+#include <algorithm>
+#include <cmath>
+
 #include "../math_physics/math/vector.hpp"
 
 namespace s2e::disturbances {
@@ -52,7 +55,7 @@ void SurfaceForce::CalcTheta(math::Vector<3>& input_direction_b) {
 
   for (size_t i = 0; i < surfaces_.size(); i++) {
     cos_theta_[i] = InnerProduct(surfaces_[i].GetNormal_b(), input_b_normal);
-    sin_theta_[i] = sqrt(1.0 - cos_theta_[i] * cos_theta_[i]);
+    sin_theta_[i] = sqrt(std::max(0.0, 1.0 - cos_theta_[i] * cos_theta_[i]));
   }
 }
 
-- 
2.43.0


From c93cbde76c0a0f188ddd1e39240396590eb62ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 054/149] fix: the speed ratio of the air drag took the
 molecular weight in g/mol for the mass of one molecule in kg

---
 src/disturbances/air_drag.cpp                 | 4 ++--
 src/environment/global/physical_constants.hpp | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disturbances/air_drag.cpp b/src/disturbances/air_drag.cpp
index 2c92540..0b0ad7d 100644
--- a/src/disturbances/air_drag.cpp
+++ b/src/disturbances/air_drag.cpp
@@ -64,8 +64,8 @@ void AirDrag::CalcCnCt(const math::Vector<3>& velocity_b_m_s) {
   double velocity_norm_m_s = velocity_b_m_s.CalcNorm();
 
   // Re-emitting speed
-  double speed =
-      sqrt(molecular_weight_g_mol_ * velocity_norm_m_s * velocity_norm_m_s / (2.0 * environment::boltzmann_constant_J_K * wall_temperature_K_));
+  const double molecular_mass_kg = molecular_weight_g_mol_ * 1.0e-3 / environment::avogadro_constant_1_mol;
+  double speed = sqrt(molecular_mass_kg * velocity_norm_m_s * velocity_norm_m_s / (2.0 * environment::boltzmann_constant_J_K * wall_temperature_K_));
   // CalcTheta(vel_b);
   for (size_t i = 0; i < surfaces_.size(); i++) {
     double speed_n = speed * cos_theta_[i];
diff --git a/src/environment/global/physical_constants.hpp b/src/environment/global/physical_constants.hpp
index c97259e..5e1d6e8 100644
--- a/src/environment/global/physical_constants.hpp
+++ b/src/environment/global/physical_constants.hpp
@@ -21,6 +21,7 @@ using enable_if_float = std::enable_if_t<std::is_floating_point_v<T>, T>;
 inline namespace physics {
 DEFINE_PHYSICAL_CONSTANT(speed_of_light_m_s, 299792458.0L)                   //!< Speed of light in vacuum [m/s]
 DEFINE_PHYSICAL_CONSTANT(boltzmann_constant_J_K, 1.380649e-23L)              //!< Boltzmann constant [J/K]
+DEFINE_PHYSICAL_CONSTANT(avogadro_constant_1_mol, 6.02214076e23L)            //!< Avogadro constant [1/mol]
 DEFINE_PHYSICAL_CONSTANT(stefan_boltzmann_constant_W_m2K4, 5.670374419e-8L)  //!< Stefan-Boltzmann constant [W/m2K4]
 DEFINE_PHYSICAL_CONSTANT(absolute_zero_degC, -273.15L)                       //!< Absolute zero [degC]
 DEFINE_PHYSICAL_CONSTANT(solar_constant_W_m2, 1.366e3L)                      //!< Solar constant [W/m2]
-- 
2.43.0


From f3f5eba9e8fbb0283bd2a043f3464b274637862e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 055/149] fix: all spacecraft shared the noise settings and
 noise sequence of one residual magnetic moment

---
 src/disturbances/magnetic_disturbance.cpp | 18 +++++++-----------
 src/disturbances/magnetic_disturbance.hpp |  4 ++++
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/disturbances/magnetic_disturbance.cpp b/src/disturbances/magnetic_disturbance.cpp
index ea00292..3213a96 100644
--- a/src/disturbances/magnetic_disturbance.cpp
+++ b/src/disturbances/magnetic_disturbance.cpp
@@ -10,13 +10,15 @@
 
 #include "../logger/log_utility.hpp"
 #include "../math_physics/randomization/global_randomization.hpp"
-#include "../math_physics/randomization/normal_randomization.hpp"
-#include "../math_physics/randomization/random_walk.hpp"
 
 namespace s2e::disturbances {
 
 MagneticDisturbance::MagneticDisturbance(const spacecraft::ResidualMagneticMoment& rmm_params, const bool is_calculation_enabled)
-    : Disturbance(is_calculation_enabled, true), residual_magnetic_moment_(rmm_params) {
+    : Disturbance(is_calculation_enabled, true),
+      residual_magnetic_moment_(rmm_params),
+      random_walk_(0.1, math::Vector<3>(rmm_params.GetRandomWalkStandardDeviation_Am2()),
+                   math::Vector<3>(rmm_params.GetRandomWalkLimit_Am2())),  // [FIXME] step width is constant
+      normal_random_(0.0, rmm_params.GetRandomNoiseStandardDeviation_Am2(), randomization::global_randomization.MakeSeed()) {
   rmm_b_Am2_ = residual_magnetic_moment_.GetConstantValue_b_Am2();
 }
 
@@ -33,17 +35,11 @@ void MagneticDisturbance::Update(const environment::LocalEnvironment& local_envi
 }
 
 void MagneticDisturbance::CalcRMM() {
-  static math::Vector<3> random_walk_std_dev(residual_magnetic_moment_.GetRandomWalkStandardDeviation_Am2());
-  static math::Vector<3> random_walk_limit(residual_magnetic_moment_.GetRandomWalkLimit_Am2());
-  static randomization::RandomWalk<3> random_walk(0.1, random_walk_std_dev, random_walk_limit);  // [FIXME] step width is constant
-  static randomization::NormalRand normal_random(0.0, residual_magnetic_moment_.GetRandomNoiseStandardDeviation_Am2(),
-                                                 randomization::global_randomization.MakeSeed());
-
   rmm_b_Am2_ = residual_magnetic_moment_.GetConstantValue_b_Am2();
   for (int i = 0; i < 3; ++i) {
-    rmm_b_Am2_[i] += random_walk[i] + normal_random;
+    rmm_b_Am2_[i] += random_walk_[i] + normal_random_;
   }
-  ++random_walk;  // Update random walk
+  ++random_walk_;  // Update random walk
 }
 
 std::string MagneticDisturbance::GetLogHeader() const {
diff --git a/src/disturbances/magnetic_disturbance.hpp b/src/disturbances/magnetic_disturbance.hpp
index f51b392..87f9527 100644
--- a/src/disturbances/magnetic_disturbance.hpp
+++ b/src/disturbances/magnetic_disturbance.hpp
@@ -10,6 +10,8 @@
 
 #include "../logger/loggable.hpp"
 #include "../math_physics/math/vector.hpp"
+#include "../math_physics/randomization/normal_randomization.hpp"
+#include "../math_physics/randomization/random_walk.hpp"
 #include "../simulation/spacecraft/structure/residual_magnetic_moment.hpp"
 #include "disturbance.hpp"
 
@@ -54,6 +56,8 @@ class MagneticDisturbance : public Disturbance {
 
   math::Vector<3> rmm_b_Am2_;                                           //!< True RMM of the spacecraft in the body frame [Am2]
   const spacecraft::ResidualMagneticMoment& residual_magnetic_moment_;  //!< RMM parameters
+  randomization::RandomWalk<3> random_walk_;                            //!< Random walk of the RMM
+  randomization::NormalRand normal_random_;                             //!< White noise of the RMM
 
   /**
    * @fn CalcRMM
-- 
2.43.0


From 1d44f2f12c07bbfb5519e22669f1b0c7d75c82ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 056/149] fix: the normal vector of a surface was not
 normalised when it was shorter than one, which scaled the forces on it

---
 src/simulation/spacecraft/structure/initialize_structure.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/spacecraft/structure/initialize_structure.cpp b/src/simulation/spacecraft/structure/initialize_structure.cpp
index 4fa2b13..475fcfa 100644
--- a/src/simulation/spacecraft/structure/initialize_structure.cpp
+++ b/src/simulation/spacecraft/structure/initialize_structure.cpp
@@ -95,9 +95,9 @@ std::vector<spacecraft::Surface> InitSurfaces(std::string file_name) {
 
     keyword = "normal_vector" + idx + "_b";
     conf.ReadVector(section, keyword.c_str(), normal);
-    if (normal.CalcNorm() > 1.0 + MIN_VAL)  // Fixme: magic word
+    if (fabs(normal.CalcNorm() - 1.0) > MIN_VAL)  // Fixme: magic word
     {
-      cout << "Surface Warning! " << keyword << ": norm is larger than 1.0.";
+      cout << "Surface Warning! " << keyword << ": norm is not 1.0.";
       cout << "The vector is normalized.\n";
       normal = normal.CalcNormalizedVector();
     }
-- 
2.43.0


From 88fa7b0737600c692c7866df47bdbe7e1bbb8dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:46 +0000
Subject: [PATCH 057/149] fix: the sun sensor judged the detection with the
 solar illuminance of its previous measurement

---
 src/components/real/aocs/sun_sensor.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/components/real/aocs/sun_sensor.cpp b/src/components/real/aocs/sun_sensor.cpp
index 3745d99..fc962c7 100644
--- a/src/components/real/aocs/sun_sensor.cpp
+++ b/src/components/real/aocs/sun_sensor.cpp
@@ -67,6 +67,7 @@ void SunSensor::Measure() {
 
   sun_direction_true_c_ = quaternion_b2c_.FrameConversion(sun_dir_b);  // Frame conversion from body to component
 
+  CalcSolarIlluminance();   // The judgement needs the illuminance of this moment
   SunDetectionJudgement();  // Judge the sun is inside the FoV
 
   if (sun_detected_flag_) {
@@ -94,8 +95,6 @@ void SunSensor::Measure() {
     alpha_rad_ = 0.0;
     beta_rad_ = 0.0;
   }
-
-  CalcSolarIlluminance();
 }
 
 void SunSensor::SunDetectionJudgement() {
-- 
2.43.0


From 954a73ac40d2ae7808a8d5988a968501efbe2521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:46 +0000
Subject: [PATCH 058/149] fix: the sun sensor lost the Sun when it was exactly
 on the boresight, where rounding gave the arc cosine a value above one

---
 src/components/real/aocs/sun_sensor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/components/real/aocs/sun_sensor.cpp b/src/components/real/aocs/sun_sensor.cpp
index fc962c7..55fe4cc 100644
--- a/src/components/real/aocs/sun_sensor.cpp
+++ b/src/components/real/aocs/sun_sensor.cpp
@@ -5,6 +5,7 @@
 
 #include "sun_sensor.hpp"
 
+#include <algorithm>
 #include <logger/log_utility.hpp>
 #include <math_physics/math/constants.hpp>
 #include <math_physics/randomization/global_randomization.hpp>
@@ -100,7 +101,7 @@ void SunSensor::Measure() {
 void SunSensor::SunDetectionJudgement() {
   math::Vector<3> sun_direction_c = sun_direction_true_c_.CalcNormalizedVector();
 
-  double sun_angle_ = acos(sun_direction_c[2]);
+  double sun_angle_ = acos(std::max(-1.0, std::min(1.0, sun_direction_c[2])));
 
   if (solar_illuminance_W_m2_ < intensity_lower_threshold_percent_ / 100.0 * srp_environment_->GetSolarConstant_W_m2()) {
     sun_detected_flag_ = false;
@@ -115,7 +116,7 @@ void SunSensor::SunDetectionJudgement() {
 
 void SunSensor::CalcSolarIlluminance() {
   math::Vector<3> sun_direction_c = sun_direction_true_c_.CalcNormalizedVector();
-  double sun_angle_ = acos(sun_direction_c[2]);
+  double sun_angle_ = acos(std::max(-1.0, std::min(1.0, sun_direction_c[2])));
 
   if (sun_angle_ > math::pi_2) {
     solar_illuminance_W_m2_ = 0.0;
-- 
2.43.0


From ea3ec239b48753f7a17b2f6eadc41a0968121f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:46 +0000
Subject: [PATCH 059/149] fix: the two angles of all sun sensors shared one
 noise sequence

---
 src/components/real/aocs/sun_sensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/aocs/sun_sensor.cpp b/src/components/real/aocs/sun_sensor.cpp
index 55fe4cc..0a5bb64 100644
--- a/src/components/real/aocs/sun_sensor.cpp
+++ b/src/components/real/aocs/sun_sensor.cpp
@@ -53,8 +53,8 @@ void SunSensor::Initialize(const double random_noise_standard_deviation_rad, con
   bias_noise_beta_rad_ += nr;
 
   // Normal Random
-  random_noise_alpha_.SetParameters(0.0, random_noise_standard_deviation_rad);  // global_randomization.MakeSeed()
-  random_noise_beta_.SetParameters(0.0, random_noise_standard_deviation_rad);   // global_randomization.MakeSeed()
+  random_noise_alpha_.SetParameters(0.0, random_noise_standard_deviation_rad, randomization::global_randomization.MakeSeed());
+  random_noise_beta_.SetParameters(0.0, random_noise_standard_deviation_rad, randomization::global_randomization.MakeSeed());
 }
 void SunSensor::MainRoutine(const int time_count) {
   UNUSED(time_count);
-- 
2.43.0


From 9d369ff8f764b3e5102e9b604bed52964ec6eea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:46 +0000
Subject: [PATCH 060/149] fix: all attitude observers shared the same noise
 sequences

---
 src/components/ideal/attitude_observer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/components/ideal/attitude_observer.cpp b/src/components/ideal/attitude_observer.cpp
index a77c1b4..f87509b 100644
--- a/src/components/ideal/attitude_observer.cpp
+++ b/src/components/ideal/attitude_observer.cpp
@@ -6,14 +6,15 @@
 #include "attitude_observer.hpp"
 
 #include <math_physics/math/constants.hpp>
+#include <math_physics/randomization/global_randomization.hpp>
 #include <setting_file_reader/initialize_file_access.hpp>
 
 namespace s2e::components {
 
 AttitudeObserver::AttitudeObserver(const int prescaler, environment::ClockGenerator* clock_generator, const double standard_deviation_rad,
                                    const dynamics::attitude::Attitude& attitude)
-    : Component(prescaler, clock_generator), angle_noise_(0.0, standard_deviation_rad), attitude_(attitude) {
-  direction_noise_.SetParameters(0.0, 1.0);
+    : Component(prescaler, clock_generator), angle_noise_(0.0, standard_deviation_rad, randomization::global_randomization.MakeSeed()), attitude_(attitude) {
+  direction_noise_.SetParameters(0.0, 1.0, randomization::global_randomization.MakeSeed());
 }
 
 void AttitudeObserver::MainRoutine(const int time_count) {
-- 
2.43.0


From ecf85ed6a78e062d5e2c405f5c452ad0fbe558b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:46 +0000
Subject: [PATCH 061/149] fix: the star sensor output a wrong attitude when its
 delay buffer wrapped around or was shorter than the delay

---
 src/components/real/aocs/star_sensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/aocs/star_sensor.cpp b/src/components/real/aocs/star_sensor.cpp
index 1ce9315..85634d5 100644
--- a/src/components/real/aocs/star_sensor.cpp
+++ b/src/components/real/aocs/star_sensor.cpp
@@ -74,7 +74,7 @@ void StarSensor::Initialize() {
 
   // Decide delay buffer size
   max_delay_ = int(output_delay_ * 2 / step_time_s_);
-  if (max_delay_ <= 0) max_delay_ = 1;
+  if (max_delay_ <= int(output_delay_)) max_delay_ = int(output_delay_) + 1;  // the delay is in steps
   vector<math::Quaternion> temp(max_delay_);
   delay_buffer_ = temp;
   // Initialize delay buffer
@@ -97,7 +97,7 @@ Quaternion StarSensor::Measure(const environment::LocalCelestialInformation* loc
   if (update_count_ == 0) {
     int hist = buffer_position_ - output_delay_ - 1;
     if (hist < 0) {
-      hist = max_delay_ - 1;
+      hist += max_delay_;
     }
     measured_quaternion_i2c_ = delay_buffer_[hist];
   }
-- 
2.43.0


From 5dd2bf9905a0ac4d13ea829659ab8a05fde89792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:46 +0000
Subject: [PATCH 062/149] fix: the star sensor put the edge of the Earth inside
 of the Earth's disc

---
 src/components/real/aocs/star_sensor.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/components/real/aocs/star_sensor.cpp b/src/components/real/aocs/star_sensor.cpp
index 85634d5..6cc0e1f 100644
--- a/src/components/real/aocs/star_sensor.cpp
+++ b/src/components/real/aocs/star_sensor.cpp
@@ -155,8 +155,7 @@ int StarSensor::SunJudgement(const math::Vector<3>& sun_b) {
 int StarSensor::EarthJudgement(const math::Vector<3>& earth_b) {
   math::Quaternion q_c2b = quaternion_b2c_.Conjugate();
   math::Vector<3> sight_b = q_c2b.FrameConversion(sight_direction_c_);
-  double earth_size_rad = atan2(environment::earth_equatorial_radius_m,
-                                earth_b.CalcNorm());                      // angles between sat<->earth_center & sat<->earth_edge
+  double earth_size_rad = asin(min(1.0, environment::earth_equatorial_radius_m / earth_b.CalcNorm()));  // angles between sat<->earth_center & sat<->earth_edge
   double earth_center_angle_rad = CalAngleVector_rad(earth_b, sight_b);   // angles between sat<->earth_center & sat_sight
   double earth_edge_angle_rad = earth_center_angle_rad - earth_size_rad;  // angles between sat<->earth_edge & sat_sight
   if (earth_edge_angle_rad < earth_forbidden_angle_rad_)
-- 
2.43.0


From 99af356d40511c5f36a6ea71e15510a333529941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:46 +0000
Subject: [PATCH 063/149] fix: the star sensor accepted a sight exactly on the
 Sun, Earth or Moon, where rounding gave the arc cosine a value above one

---
 src/components/real/aocs/star_sensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/real/aocs/star_sensor.cpp b/src/components/real/aocs/star_sensor.cpp
index 6cc0e1f..e80b70b 100644
--- a/src/components/real/aocs/star_sensor.cpp
+++ b/src/components/real/aocs/star_sensor.cpp
@@ -207,7 +207,7 @@ double StarSensor::CalAngleVector_rad(const Vector<3>& vector1, const Vector<3>&
   math::Vector<3> vect2_normal = vector2.CalcNormalizedVector();
 
   double cosTheta = InnerProduct(vect1_normal, vect2_normal);  // Calc cos value
-  double theta_rad = acos(cosTheta);
+  double theta_rad = acos(max(-1.0, min(1.0, cosTheta)));
   return theta_rad;
 }
 
-- 
2.43.0


From 7c30d074704caa0b7ab87777860e2897ea839453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:46 +0000
Subject: [PATCH 064/149] fix: the star sensor shortened delays and intervals
 that are a multiple of its step by one step because of rounding

---
 src/components/real/aocs/star_sensor.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/components/real/aocs/star_sensor.cpp b/src/components/real/aocs/star_sensor.cpp
index e80b70b..9aa95d0 100644
--- a/src/components/real/aocs/star_sensor.cpp
+++ b/src/components/real/aocs/star_sensor.cpp
@@ -5,6 +5,7 @@
 
 #include "star_sensor.hpp"
 
+#include <cmath>
 #include <environment/global/physical_constants.hpp>
 #include <logger/log_utility.hpp>
 #include <math_physics/math/constants.hpp>
@@ -232,9 +233,9 @@ StarSensor InitStarSensor(environment::ClockGenerator* clock_generator, int sens
   double standard_deviation_orthogonal_direction = STT_conf.ReadDouble(STTSection, "standard_deviation_orthogonal_direction_rad");
   double standard_deviation_sight_direction = STT_conf.ReadDouble(STTSection, "standard_deviation_sight_direction_rad");
   double output_delay_sec = STT_conf.ReadDouble(STTSection, "output_delay_s");
-  int output_delay = max(int(output_delay_sec / step_time_s), 1);
+  int output_delay = max(int(std::lround(output_delay_sec / step_time_s)), 1);
   double output_interval_sec = STT_conf.ReadDouble(STTSection, "output_interval_s");
-  int output_interval = max(int(output_interval_sec / step_time_s), 1);
+  int output_interval = max(int(std::lround(output_interval_sec / step_time_s)), 1);
   double sun_forbidden_angle_deg = STT_conf.ReadDouble(STTSection, "sun_exclusion_angle_deg");
   double sun_forbidden_angle_rad = sun_forbidden_angle_deg * math::pi / 180.0;
   double earth_forbidden_angle_deg = STT_conf.ReadDouble(STTSection, "earth_exclusion_angle_deg");
@@ -266,9 +267,9 @@ StarSensor InitStarSensor(environment::ClockGenerator* clock_generator, PowerPor
   double standard_deviation_orthogonal_direction = STT_conf.ReadDouble(STTSection, "standard_deviation_orthogonal_direction_rad");
   double standard_deviation_sight_direction = STT_conf.ReadDouble(STTSection, "standard_deviation_sight_direction_rad");
   double output_delay_sec = STT_conf.ReadDouble(STTSection, "output_delay_s");
-  int output_delay = max(int(output_delay_sec / step_time_s), 1);
+  int output_delay = max(int(std::lround(output_delay_sec / step_time_s)), 1);
   double output_interval_sec = STT_conf.ReadDouble(STTSection, "output_interval_s");
-  int output_interval = max(int(output_interval_sec / step_time_s), 1);
+  int output_interval = max(int(std::lround(output_interval_sec / step_time_s)), 1);
   double sun_forbidden_angle_deg = STT_conf.ReadDouble(STTSection, "sun_exclusion_angle_deg");
   double sun_forbidden_angle_rad = sun_forbidden_angle_deg * math::pi / 180.0;
   double earth_forbidden_angle_deg = STT_conf.ReadDouble(STTSection, "earth_exclusion_angle_deg");
-- 
2.43.0


From 9fdac9441f5e0c343c08688443ee4c254b2ef9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:44 +0000
Subject: [PATCH 065/149] fix: the jitter force of a reaction wheel could not
 be called, as it was inline without a visible definition

---
 src/components/real/aocs/reaction_wheel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/real/aocs/reaction_wheel.hpp b/src/components/real/aocs/reaction_wheel.hpp
index 39965a6..06029f9 100644
--- a/src/components/real/aocs/reaction_wheel.hpp
+++ b/src/components/real/aocs/reaction_wheel.hpp
@@ -126,7 +126,7 @@ class ReactionWheel : public Component, public logger::ILoggable {
    * @fn GetJitterForce_b_N
    * @brief Return output force by jitter in the body fixed frame [N]
    */
-  inline const math::Vector<3> GetJitterForce_b_N() const;
+  const math::Vector<3> GetJitterForce_b_N() const;
   /**
    * @fn GetDriveFlag
    * @brief Return drive flag
-- 
2.43.0


From 4cbdc6af8cf78c7df9681e1a7d41678a134150d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:36 +0000
Subject: [PATCH 066/149] fix: all reaction wheels made from files shared the
 jitter of the last one

---
 src/components/real/aocs/reaction_wheel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/real/aocs/reaction_wheel.hpp b/src/components/real/aocs/reaction_wheel.hpp
index 06029f9..47bd344 100644
--- a/src/components/real/aocs/reaction_wheel.hpp
+++ b/src/components/real/aocs/reaction_wheel.hpp
@@ -209,7 +209,7 @@ class ReactionWheel : public Component, public logger::ILoggable {
   ReactionWheelOde ode_angular_velocity_;  //!< Reaction Wheel OrdinaryDifferentialEquation
 
   // RW jitter
-  ReactionWheelJitter& rw_jitter_;     //!< RW jitter
+  ReactionWheelJitter rw_jitter_;      //!< RW jitter
   bool is_calculated_jitter_ = false;  //!< Flag for calculation of jitter
   bool is_logged_jitter_ = false;      //!< Flag for log output of jitter
 
-- 
2.43.0


From a6d28be793969d405ee40f9c3f2c633a3ba4d67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:36 +0000
Subject: [PATCH 067/149] fix: a reaction wheel without power kept the last
 torque and jitter on the body for ever while its momentum did not change

---
 src/components/real/aocs/reaction_wheel.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/components/real/aocs/reaction_wheel.cpp b/src/components/real/aocs/reaction_wheel.cpp
index 9cdbac4..9c8ab90 100644
--- a/src/components/real/aocs/reaction_wheel.cpp
+++ b/src/components/real/aocs/reaction_wheel.cpp
@@ -92,7 +92,15 @@ void ReactionWheel::MainRoutine(const int time_count) {
   CalcTorque();
 }
 
-void ReactionWheel::PowerOffRoutine() { drive_flag_ = 0; }
+void ReactionWheel::PowerOffRoutine() {
+  drive_flag_ = 0;
+  // The rotor keeps its angular velocity and outputs nothing
+  generated_angular_acceleration_rad_s2_ = 0.0;
+  output_torque_b_Nm_ *= 0.0;
+  if (is_calculated_jitter_) {
+    rw_jitter_.CalcJitter(0.0);
+  }
+}
 
 // Jitter calculation
 void ReactionWheel::FastUpdate() {
-- 
2.43.0


From e23c91720e3f662bfeee9a3d36eb9944ec4f3d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:36 +0000
Subject: [PATCH 068/149] fix: the jitter phases of the reaction wheels did not
 follow the seed of the simulation, so that runs could not be reproduced

---
 src/components/real/aocs/reaction_wheel_jitter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/aocs/reaction_wheel_jitter.cpp b/src/components/real/aocs/reaction_wheel_jitter.cpp
index c7edc49..8035ab5 100644
--- a/src/components/real/aocs/reaction_wheel_jitter.cpp
+++ b/src/components/real/aocs/reaction_wheel_jitter.cpp
@@ -6,6 +6,7 @@
 #include "reaction_wheel_jitter.hpp"
 
 #include <math_physics/math/constants.hpp>
+#include <math_physics/randomization/global_randomization.hpp>
 #include <random>
 #include <utilities/macros.hpp>
 
@@ -26,8 +27,7 @@ ReactionWheelJitter::ReactionWheelJitter(std::vector<std::vector<double>> radial
       considers_structural_resonance_(considers_structural_resonance) {
   UNUSED(structural_resonance_frequency_Hz_);  // TODO: implement algorithm to use this variable
   // Generate random number for initial rotation phase
-  std::random_device seed_gen;
-  std::default_random_engine engine(seed_gen());
+  std::default_random_engine engine((unsigned)randomization::global_randomization.MakeSeed());
   std::uniform_real_distribution<double> dist(0.0, math::tau);
   // Initialize RW rotation phase
   for (size_t i = 0; i < radial_force_harmonics_coefficients_.size(); i++) {
-- 
2.43.0


From dfeffeefc8def210419534422e839b9b7eb4a2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:36 +0000
Subject: [PATCH 069/149] fix: the direction error of a thruster was too small
 unless its thrust was orthogonal to the x axis

---
 src/components/real/propulsion/simple_thruster.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/components/real/propulsion/simple_thruster.cpp b/src/components/real/propulsion/simple_thruster.cpp
index 0a63653..e6b7f51 100644
--- a/src/components/real/propulsion/simple_thruster.cpp
+++ b/src/components/real/propulsion/simple_thruster.cpp
@@ -125,10 +125,7 @@ double SimpleThruster::CalcThrustMagnitude() {
 math::Vector<3> SimpleThruster::CalcThrustDirection() {
   math::Vector<3> thrust_dir_b_true = thrust_direction_b_;
   if (direction_noise_standard_deviation_rad_ > 0.0 + DBL_EPSILON) {
-    math::Vector<3> ex;  // Fixme: to use outer product to generate orthogonal vector
-    ex[0] = 1.0;
-    ex[1] = 0.0;
-    ex[2] = 0.0;
+    math::Vector<3> ex = math::GenerateOrthogonalUnitVector(thrust_dir_b_true);
     int flag = rand() % 2;
     double make_axis_rot_rad;
     if (flag == 0) {
-- 
2.43.0


From 2589086495b869fd44e510cbc4cffc7997aa190e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:36 +0000
Subject: [PATCH 070/149] fix: all thrusters shared the same noise sequences

---
 src/components/real/propulsion/simple_thruster.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/propulsion/simple_thruster.cpp b/src/components/real/propulsion/simple_thruster.cpp
index e6b7f51..6c23e64 100644
--- a/src/components/real/propulsion/simple_thruster.cpp
+++ b/src/components/real/propulsion/simple_thruster.cpp
@@ -55,8 +55,8 @@ SimpleThruster::SimpleThruster(const int prescaler, environment::ClockGenerator*
 SimpleThruster::~SimpleThruster() {}
 
 void SimpleThruster::Initialize(const double magnitude_standard_deviation_N, const double direction_standard_deviation_rad) {
-  magnitude_random_noise_.SetParameters(0.0, magnitude_standard_deviation_N);
-  direction_random_noise_.SetParameters(0.0, direction_standard_deviation_rad);
+  magnitude_random_noise_.SetParameters(0.0, magnitude_standard_deviation_N, randomization::global_randomization.MakeSeed());
+  direction_random_noise_.SetParameters(0.0, direction_standard_deviation_rad, randomization::global_randomization.MakeSeed());
   thrust_direction_b_ = thrust_direction_b_.CalcNormalizedVector();
 }
 
-- 
2.43.0


From 9a90ddc10ffc2a57d549ea7a3752f9947a0ead2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:36 +0000
Subject: [PATCH 071/149] fix: the direction errors of the force and torque
 generators were too small and changed the magnitude, as the rotation axis was
 not normalised

---
 src/components/ideal/force_generator.cpp  | 1 +
 src/components/ideal/torque_generator.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/components/ideal/force_generator.cpp b/src/components/ideal/force_generator.cpp
index 2104ad4..5ba0535 100644
--- a/src/components/ideal/force_generator.cpp
+++ b/src/components/ideal/force_generator.cpp
@@ -101,6 +101,7 @@ math::Quaternion ForceGenerator::GenerateDirectionNoiseQuaternion(math::Vector<3
     // No rotation error if the randomized direction is parallel to the true direction
     rotation_axis = true_direction;
   }
+  rotation_axis = rotation_axis.CalcNormalizedVector();
 
   double error_angle_rad = direction_noise_ * error_standard_deviation_rad;
   math::Quaternion error_quaternion(rotation_axis, error_angle_rad);
diff --git a/src/components/ideal/torque_generator.cpp b/src/components/ideal/torque_generator.cpp
index c64478b..ffc561b 100644
--- a/src/components/ideal/torque_generator.cpp
+++ b/src/components/ideal/torque_generator.cpp
@@ -75,6 +75,7 @@ math::Quaternion TorqueGenerator::GenerateDirectionNoiseQuaternion(math::Vector<
     // No rotation error if the randomized direction is parallel to the true direction
     rotation_axis = true_direction;
   }
+  rotation_axis = rotation_axis.CalcNormalizedVector();
 
   double error_angle_rad = direction_noise_ * error_standard_deviation_rad;
   math::Quaternion error_quaternion(rotation_axis, error_angle_rad);
-- 
2.43.0


From 7c99ce578f9e02b4f996eb7049e1aaa7873b9e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:36 +0000
Subject: [PATCH 072/149] fix: all force and torque generators shared the same
 noise sequences

---
 src/components/ideal/force_generator.cpp  | 5 +++--
 src/components/ideal/torque_generator.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/components/ideal/force_generator.cpp b/src/components/ideal/force_generator.cpp
index 5ba0535..ccb03e2 100644
--- a/src/components/ideal/force_generator.cpp
+++ b/src/components/ideal/force_generator.cpp
@@ -6,6 +6,7 @@
 #include "force_generator.hpp"
 
 #include <cfloat>
+#include <math_physics/randomization/global_randomization.hpp>
 #include <setting_file_reader/initialize_file_access.hpp>
 
 namespace s2e::components {
@@ -14,10 +15,10 @@ namespace s2e::components {
 ForceGenerator::ForceGenerator(const int prescaler, environment::ClockGenerator* clock_generator, const double magnitude_error_standard_deviation_N,
                                const double direction_error_standard_deviation_rad, const dynamics::Dynamics* dynamics)
     : Component(prescaler, clock_generator),
-      magnitude_noise_(0.0, magnitude_error_standard_deviation_N),
+      magnitude_noise_(0.0, magnitude_error_standard_deviation_N, randomization::global_randomization.MakeSeed()),
       direction_error_standard_deviation_rad_(direction_error_standard_deviation_rad),
       dynamics_(dynamics) {
-  direction_noise_.SetParameters(0.0, 1.0);
+  direction_noise_.SetParameters(0.0, 1.0, randomization::global_randomization.MakeSeed());
 }
 
 ForceGenerator::~ForceGenerator() {}
diff --git a/src/components/ideal/torque_generator.cpp b/src/components/ideal/torque_generator.cpp
index ffc561b..71dd9c2 100644
--- a/src/components/ideal/torque_generator.cpp
+++ b/src/components/ideal/torque_generator.cpp
@@ -6,6 +6,7 @@
 #include "torque_generator.hpp"
 
 #include <cfloat>
+#include <math_physics/randomization/global_randomization.hpp>
 #include <setting_file_reader/initialize_file_access.hpp>
 
 namespace s2e::components {
@@ -15,10 +16,10 @@ TorqueGenerator::TorqueGenerator(const int prescaler, environment::ClockGenerato
                                  const double magnitude_error_standard_deviation_Nm, const double direction_error_standard_deviation_rad,
                                  const dynamics::Dynamics* dynamics)
     : Component(prescaler, clock_generator),
-      magnitude_noise_(0.0, magnitude_error_standard_deviation_Nm),
+      magnitude_noise_(0.0, magnitude_error_standard_deviation_Nm, randomization::global_randomization.MakeSeed()),
       direction_error_standard_deviation_rad_(direction_error_standard_deviation_rad),
       dynamics_(dynamics) {
-  direction_noise_.SetParameters(0.0, 1.0);
+  direction_noise_.SetParameters(0.0, 1.0, randomization::global_randomization.MakeSeed());
 }
 
 TorqueGenerator::~TorqueGenerator() {}
-- 
2.43.0


From 8f504de40db2c63062fc4d5fd5063dbc2543353a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:36 +0000
Subject: [PATCH 073/149] fix: the magnetorquer took its own output for the
 next command, so that bias, noise and scale factor piled up

---
 src/components/real/aocs/magnetorquer.cpp | 2 ++
 src/components/real/aocs/magnetorquer.hpp | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/components/real/aocs/magnetorquer.cpp b/src/components/real/aocs/magnetorquer.cpp
index 0ee096e..a1e9f88 100644
--- a/src/components/real/aocs/magnetorquer.cpp
+++ b/src/components/real/aocs/magnetorquer.cpp
@@ -66,12 +66,14 @@ void Magnetorquer::MainRoutine(const int time_count) {
 }
 
 void Magnetorquer::PowerOffRoutine() {
+  commanded_magnetic_moment_c_Am2_ *= 0.0;
   torque_b_Nm_ *= 0.0;
   output_magnetic_moment_c_Am2_ *= 0.0;
   output_magnetic_moment_b_Am2_ *= 0.0;
 }
 
 math::Vector<kMtqDimension> Magnetorquer::CalcOutputTorque(void) {
+  output_magnetic_moment_c_Am2_ = commanded_magnetic_moment_c_Am2_;
   for (size_t i = 0; i < kMtqDimension; ++i) {
     // Limit Check
     if (output_magnetic_moment_c_Am2_[i] > max_magnetic_moment_c_Am2_[i]) {
diff --git a/src/components/real/aocs/magnetorquer.hpp b/src/components/real/aocs/magnetorquer.hpp
index 0ef0a5e..ed1cd91 100644
--- a/src/components/real/aocs/magnetorquer.hpp
+++ b/src/components/real/aocs/magnetorquer.hpp
@@ -108,7 +108,7 @@ class Magnetorquer : public Component, public logger::ILoggable {
    * @fn SetOutputMagneticMoment_c_Am2
    * @brief Set output magnetic moment in the component frame [Am2]
    */
-  inline void SetOutputMagneticMoment_c_Am2(const math::Vector<kMtqDimension> mag_moment_c) { output_magnetic_moment_c_Am2_ = mag_moment_c; };
+  inline void SetOutputMagneticMoment_c_Am2(const math::Vector<kMtqDimension> mag_moment_c) { commanded_magnetic_moment_c_Am2_ = mag_moment_c; };
 
   /**
    * @fn SetOutputMagneticMoment_b_Am2
@@ -126,6 +126,7 @@ class Magnetorquer : public Component, public logger::ILoggable {
   const int component_id_ = 0;                                     //!< Actuator ID
   const double kConvertNanoT2T = 1.0e-9;                           //!< Constant to convert nT to T
   math::Vector<kMtqDimension> torque_b_Nm_{0.0};                   //!< Output torque in the body fixed frame [Nm]
+  math::Vector<kMtqDimension> commanded_magnetic_moment_c_Am2_{0.0};  //!< Commanded magnetic moment in the component frame [Am2]
   math::Vector<kMtqDimension> output_magnetic_moment_c_Am2_{0.0};  //!< Output output magnetic moment in the component frame [Am2]
   math::Vector<kMtqDimension> output_magnetic_moment_b_Am2_{0.0};  //!< Output output magnetic moment in the body fixed frame [Am2]
   math::Quaternion quaternion_b2c_{0.0, 0.0, 0.0, 1.0};            //!< Quaternion from body frame to component frame
-- 
2.43.0


From a79963d6ab7b353023885aca392ad44c6eb92439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:36 +0000
Subject: [PATCH 074/149] fix: the three axes of all magnetorquers shared one
 noise sequence

---
 src/components/real/aocs/magnetorquer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/components/real/aocs/magnetorquer.cpp b/src/components/real/aocs/magnetorquer.cpp
index a1e9f88..13e16c4 100644
--- a/src/components/real/aocs/magnetorquer.cpp
+++ b/src/components/real/aocs/magnetorquer.cpp
@@ -32,7 +32,8 @@ Magnetorquer::Magnetorquer(const int prescaler, environment::ClockGenerator* clo
       random_walk_c_Am2_(random_walk_step_width_s, random_walk_standard_deviation_c_Am2, random_walk_limit_c_Am2),
       geomagnetic_field_(geomagnetic_field) {
   for (size_t i = 0; i < kMtqDimension; i++) {
-    random_noise_c_Am2_[i].SetParameters(0.0, normal_random_standard_deviation_c_Am2[i]);  // global_randomization.MakeSeed()
+    random_noise_c_Am2_[i].SetParameters(0.0, normal_random_standard_deviation_c_Am2[i],
+                                        randomization::global_randomization.MakeSeed());
   }
 }
 
@@ -55,7 +56,8 @@ Magnetorquer::Magnetorquer(const int prescaler, environment::ClockGenerator* clo
       random_walk_c_Am2_(random_walk_step_width_s, random_walk_standard_deviation_c_Am2, random_walk_limit_c_Am2),
       geomagnetic_field_(geomagnetic_field) {
   for (size_t i = 0; i < kMtqDimension; i++) {
-    random_noise_c_Am2_[i].SetParameters(0.0, normal_random_standard_deviation_c_Am2[i]);  // global_randomization.MakeSeed()
+    random_noise_c_Am2_[i].SetParameters(0.0, normal_random_standard_deviation_c_Am2[i],
+                                        randomization::global_randomization.MakeSeed());
   }
 }
 
-- 
2.43.0


From 1bdf49b20799ec0212d45a05e72bc2afbe71551e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:54 +0000
Subject: [PATCH 075/149] fix: the state of a new power port was not
 initialised

---
 src/components/ports/power_port.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/ports/power_port.hpp b/src/components/ports/power_port.hpp
index 98d0a74..c33d830 100644
--- a/src/components/ports/power_port.hpp
+++ b/src/components/ports/power_port.hpp
@@ -126,7 +126,7 @@ class PowerPort {
 
   double voltage_V_;              //!< Voltage of the power line[V]
   double current_consumption_A_;  //!< Current consumption calculated by I = P/V[A]
-  bool is_on_;                    //!< Power switch state
+  bool is_on_ = false;            //!< Power switch state
 
   /**
    * @fn Initialize
-- 
2.43.0


From 85ba335ccfe0a44877bc337f04042add3039b602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:54 +0000
Subject: [PATCH 076/149] fix: the current of a power port without load and
 without voltage was NaN when its minimum voltage was zero

---
 src/components/ports/power_port.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/ports/power_port.cpp b/src/components/ports/power_port.cpp
index 5671b94..e0b3113 100644
--- a/src/components/ports/power_port.cpp
+++ b/src/components/ports/power_port.cpp
@@ -41,7 +41,7 @@ bool PowerPort::Update(void) {
   // switching
   if (voltage_V_ >= (minimum_voltage_V_ - DBL_EPSILON)) {
     is_on_ = true;
-    current_consumption_A_ = assumed_power_consumption_W_ / voltage_V_;
+    current_consumption_A_ = (assumed_power_consumption_W_ > 0.0) ? assumed_power_consumption_W_ / voltage_V_ : 0.0;
   } else {
     current_consumption_A_ = 0.0;
     is_on_ = false;
-- 
2.43.0


From 5c24438151414f596a02b8def050cfec80823796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:54 +0000
Subject: [PATCH 077/149] fix: the charge current and the voltage of a battery
 were not initialised unless it was copied

---
 src/components/real/power/battery.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/components/real/power/battery.cpp b/src/components/real/power/battery.cpp
index 865c17b..36864bf 100644
--- a/src/components/real/power/battery.cpp
+++ b/src/components/real/power/battery.cpp
@@ -22,7 +22,10 @@ Battery::Battery(const int prescaler, environment::ClockGenerator* clock_generat
       cv_charge_voltage_V_(cv_charge_voltage_V),
       depth_of_discharge_percent_(initial_dod),
       battery_resistance_Ohm_(battery_resistance_Ohm),
-      compo_step_time_s_(component_step_time_s) {}
+      compo_step_time_s_(component_step_time_s) {
+  charge_current_A_ = 0.0;
+  UpdateBatVoltage();
+}
 
 Battery::Battery(environment::ClockGenerator* clock_generator, int number_of_series, int number_of_parallel, double cell_capacity_Ah,
                  const std::vector<double> cell_discharge_curve_coefficients, double initial_dod, double cc_charge_c_rate, double cv_charge_voltage_V,
@@ -36,7 +39,10 @@ Battery::Battery(environment::ClockGenerator* clock_generator, int number_of_ser
       cv_charge_voltage_V_(cv_charge_voltage_V),
       depth_of_discharge_percent_(initial_dod),
       battery_resistance_Ohm_(battery_resistance_Ohm),
-      compo_step_time_s_(0.1) {}
+      compo_step_time_s_(0.1) {
+  charge_current_A_ = 0.0;
+  UpdateBatVoltage();
+}
 
 Battery::Battery(const Battery& obj)
     : Component(obj),
-- 
2.43.0


From 4b20690ada7540b5e3a90eb3f6587f7b9a64f975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:08 +0000
Subject: [PATCH 078/149] fix: a load beyond the power of the battery turned
 the bus and the battery into NaN

---
 src/components/real/power/pcu_initial_study.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/components/real/power/pcu_initial_study.cpp b/src/components/real/power/pcu_initial_study.cpp
index 3925522..bdeccca 100644
--- a/src/components/real/power/pcu_initial_study.cpp
+++ b/src/components/real/power/pcu_initial_study.cpp
@@ -5,6 +5,7 @@
 
 #include "pcu_initial_study.hpp"
 
+#include <algorithm>
 #include <cmath>
 #include <components/real/power/csv_scenario_interface.hpp>
 #include <environment/global/clock_generator.hpp>
@@ -91,7 +92,7 @@ void PcuInitialStudy::UpdateChargeCurrentAndBusVoltage() {
     power_generation += sap->GetPowerGeneration_W();
   }
   const double current_temp =
-      (-bat_voltage + std::sqrt(bat_voltage * bat_voltage + 4.0 * battery_resistance_Ohm * (power_generation - power_consumption_W_))) /
+      (-bat_voltage + std::sqrt(std::max(0.0, bat_voltage * bat_voltage + 4.0 * battery_resistance_Ohm * (power_generation - power_consumption_W_)))) /
       (2.0 * battery_resistance_Ohm);
   if (current_temp >= cc_charge_current_C) {
     if (bat_voltage + cc_charge_current_C * battery_resistance_Ohm < cv_charge_voltage_V) {
-- 
2.43.0


From 1194c0d147ffba04b72bc56c7c015812d26f421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:08 +0000
Subject: [PATCH 079/149] fix: a battery above the charge voltage was
 discharged to hold that voltage, with a power that nothing consumed

---
 src/components/real/power/pcu_initial_study.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/components/real/power/pcu_initial_study.cpp b/src/components/real/power/pcu_initial_study.cpp
index bdeccca..357f214 100644
--- a/src/components/real/power/pcu_initial_study.cpp
+++ b/src/components/real/power/pcu_initial_study.cpp
@@ -94,6 +94,8 @@ void PcuInitialStudy::UpdateChargeCurrentAndBusVoltage() {
   const double current_temp =
       (-bat_voltage + std::sqrt(std::max(0.0, bat_voltage * bat_voltage + 4.0 * battery_resistance_Ohm * (power_generation - power_consumption_W_)))) /
       (2.0 * battery_resistance_Ohm);
+  // Charging stops at the latest when the battery has the charge voltage. It is not discharged to hold that voltage
+  const double cv_charge_current = std::max(0.0, (cv_charge_voltage_V - bat_voltage) / battery_resistance_Ohm);
   if (current_temp >= cc_charge_current_C) {
     if (bat_voltage + cc_charge_current_C * battery_resistance_Ohm < cv_charge_voltage_V) {
       // CC Charge
@@ -101,18 +103,18 @@ void PcuInitialStudy::UpdateChargeCurrentAndBusVoltage() {
       bus_voltage_V_ = bat_voltage + battery_resistance_Ohm * cc_charge_current_C;
     } else {
       // CV Charge
-      battery_->SetChargeCurrent((cv_charge_voltage_V - bat_voltage) / battery_resistance_Ohm);
-      bus_voltage_V_ = bat_voltage + battery_resistance_Ohm * (cv_charge_voltage_V - bat_voltage) / battery_resistance_Ohm;
+      battery_->SetChargeCurrent(cv_charge_current);
+      bus_voltage_V_ = bat_voltage + battery_resistance_Ohm * cv_charge_current;
     }
   } else {
-    if (bat_voltage + current_temp * battery_resistance_Ohm < cv_charge_voltage_V) {
+    if (current_temp <= 0.0 || bat_voltage + current_temp * battery_resistance_Ohm < cv_charge_voltage_V) {
       // Natural charge or discharge
       battery_->SetChargeCurrent(current_temp);
       bus_voltage_V_ = bat_voltage + battery_resistance_Ohm * current_temp;
     } else {
       // CV Charge
-      battery_->SetChargeCurrent((cv_charge_voltage_V - bat_voltage) / battery_resistance_Ohm);
-      bus_voltage_V_ = bat_voltage + battery_resistance_Ohm * (cv_charge_voltage_V - bat_voltage) / battery_resistance_Ohm;
+      battery_->SetChargeCurrent(cv_charge_current);
+      bus_voltage_V_ = bat_voltage + battery_resistance_Ohm * cv_charge_current;
     }
   }
 }
-- 
2.43.0


From 83ea749516fc3cdc4d3656b3319d4c6e18da0ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:43 +0000
Subject: [PATCH 080/149] fix: receiving a command at an offset wrote beyond
 the receive buffer

---
 src/components/base/uart_communication_with_obc.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/components/base/uart_communication_with_obc.cpp b/src/components/base/uart_communication_with_obc.cpp
index 74a7f92..e916e56 100644
--- a/src/components/base/uart_communication_with_obc.cpp
+++ b/src/components/base/uart_communication_with_obc.cpp
@@ -139,17 +139,17 @@ void UartCommunicationWithObc::InitializeObcComBase() {
 int UartCommunicationWithObc::ReceiveCommand(const unsigned int offset, const unsigned int rec_size) {
   if (simulation_mode_ == SimulationMode::kError) return -1;
   if (offset > rx_buffer_size_) return -1;
-  if (offset + rec_size > rx_buffer_size_) return -1;
-  rx_buffer_.resize(rec_size);
+  if (rec_size > rx_buffer_size_ - offset) return -1;
+  rx_buffer_.resize(offset + rec_size);
 
   int ret;
   switch (simulation_mode_) {
     case SimulationMode::kSils:
-      ret = obc_->ReceivedByCompo(sils_port_id_, &rx_buffer_.front(), offset, rec_size);
+      ret = obc_->ReceivedByCompo(sils_port_id_, rx_buffer_.data(), offset, rec_size);
       if (ret == 0) return 0;  // No read data
       return ParseCommand(ret);
     case SimulationMode::kHils:
-      ret = hils_port_manager_->UartReceive(hils_port_id_, &rx_buffer_.front(), offset, rec_size);
+      ret = hils_port_manager_->UartReceive(hils_port_id_, rx_buffer_.data(), offset, rec_size);
       if (ret == 0) return 0;  // No read data
       return ParseCommand(ret);
     default:
-- 
2.43.0


From 3190bbc795b6af50f30203bc779e04a526f4f920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:44 +0000
Subject: [PATCH 081/149] fix: telemetry was checked against the size of the
 receive buffer instead of the transmit buffer

---
 src/components/base/uart_communication_with_obc.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/components/base/uart_communication_with_obc.cpp b/src/components/base/uart_communication_with_obc.cpp
index e916e56..d906edd 100644
--- a/src/components/base/uart_communication_with_obc.cpp
+++ b/src/components/base/uart_communication_with_obc.cpp
@@ -161,15 +161,15 @@ int UartCommunicationWithObc::ReceiveCommand(const unsigned int offset, const un
 int UartCommunicationWithObc::SendTelemetry(const unsigned int offset) {
   if (simulation_mode_ == SimulationMode::kError) return -1;
   int tlm_size = GenerateTelemetry();
-  if (offset > rx_buffer_size_) return -1;
-  if (offset + tlm_size > rx_buffer_size_) return -1;
+  if (offset > tx_buffer_size_) return -1;
+  if (offset + tlm_size > tx_buffer_size_) return -1;
 
   switch (simulation_mode_) {
     case SimulationMode::kSils:
-      obc_->SendFromCompo(sils_port_id_, &tx_buffer_.front(), offset, tlm_size);
+      obc_->SendFromCompo(sils_port_id_, tx_buffer_.data(), offset, tlm_size);
       return 0;
     case SimulationMode::kHils:
-      hils_port_manager_->UartSend(hils_port_id_, &tx_buffer_.front(), offset, tlm_size);
+      hils_port_manager_->UartSend(hils_port_id_, tx_buffer_.data(), offset, tlm_size);
       return 0;
     default:
       // NOT REACHED
-- 
2.43.0


From c7e1d168526297f140211ebbbd41ed2bb176549c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:44 +0000
Subject: [PATCH 082/149] fix: the registers of an I2C component were read with
 address and register exchanged, and several bytes went to one register

---
 src/components/real/cdh/on_board_computer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/cdh/on_board_computer.cpp b/src/components/real/cdh/on_board_computer.cpp
index c661fc6..56a0a32 100644
--- a/src/components/real/cdh/on_board_computer.cpp
+++ b/src/components/real/cdh/on_board_computer.cpp
@@ -96,7 +96,7 @@ int OnBoardComputer::I2cComponentWriteRegister(int port_id, const unsigned char
                                                const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
   for (int i = 0; i < length; i++) {
-    i2c_port->WriteRegister(i2c_address, register_address, data[i]);
+    i2c_port->WriteRegister(i2c_address, register_address + i, data[i]);
   }
   return 0;
 }
@@ -104,7 +104,7 @@ int OnBoardComputer::I2cComponentReadRegister(int port_id, const unsigned char i
                                               const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
   for (int i = 0; i < length; i++) {
-    data[i] = i2c_port->ReadRegister(register_address, i2c_address);
+    data[i] = i2c_port->ReadRegister(i2c_address, register_address + i);
   }
   return 0;
 }
-- 
2.43.0


From a96c1e11476b9e6cf09bf37a82ab1a37ab7376dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:44 +0000
Subject: [PATCH 083/149] fix: an I2C access to a port that is not connected
 dereferenced a null pointer

---
 src/components/real/cdh/on_board_computer.cpp          | 3 +++
 src/components/real/cdh/on_board_computer_with_c2a.cpp | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/src/components/real/cdh/on_board_computer.cpp b/src/components/real/cdh/on_board_computer.cpp
index 56a0a32..9f39c08 100644
--- a/src/components/real/cdh/on_board_computer.cpp
+++ b/src/components/real/cdh/on_board_computer.cpp
@@ -95,6 +95,7 @@ int OnBoardComputer::I2cCloseComPort(int port_id) {
 int OnBoardComputer::I2cComponentWriteRegister(int port_id, const unsigned char i2c_address, const unsigned char register_address,
                                                const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
+  if (i2c_port == nullptr) return -1;
   for (int i = 0; i < length; i++) {
     i2c_port->WriteRegister(i2c_address, register_address + i, data[i]);
   }
@@ -103,6 +104,7 @@ int OnBoardComputer::I2cComponentWriteRegister(int port_id, const unsigned char
 int OnBoardComputer::I2cComponentReadRegister(int port_id, const unsigned char i2c_address, const unsigned char register_address, unsigned char* data,
                                               const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
+  if (i2c_port == nullptr) return -1;
   for (int i = 0; i < length; i++) {
     data[i] = i2c_port->ReadRegister(i2c_address, register_address + i);
   }
@@ -110,6 +112,7 @@ int OnBoardComputer::I2cComponentReadRegister(int port_id, const unsigned char i
 }
 int OnBoardComputer::I2cComponentReadCommand(int port_id, const unsigned char i2c_address, unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
+  if (i2c_port == nullptr) return -1;
   i2c_port->ReadCommand(i2c_address, data, length);
   return 0;
 }
diff --git a/src/components/real/cdh/on_board_computer_with_c2a.cpp b/src/components/real/cdh/on_board_computer_with_c2a.cpp
index 407c393..028286d 100644
--- a/src/components/real/cdh/on_board_computer_with_c2a.cpp
+++ b/src/components/real/cdh/on_board_computer_with_c2a.cpp
@@ -156,12 +156,14 @@ int ObcWithC2a::I2cCloseComPort(int port_id) {
 
 int ObcWithC2a::I2cWriteCommand(int port_id, const unsigned char i2c_address, const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   i2c_port->WriteCommand(i2c_address, data, length);
   return 0;
 }
 
 int ObcWithC2a::I2cWriteRegister(int port_id, const unsigned char i2c_address, const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
 
   if (length == 1) {
     i2c_port->WriteRegister(i2c_address, data[0]);
@@ -175,6 +177,7 @@ int ObcWithC2a::I2cWriteRegister(int port_id, const unsigned char i2c_address, c
 
 int ObcWithC2a::I2cReadRegister(int port_id, const unsigned char i2c_address, unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   for (int i = 0; i < length; i++) {
     data[i] = i2c_port->ReadRegister(i2c_address);
   }
@@ -184,6 +187,7 @@ int ObcWithC2a::I2cReadRegister(int port_id, const unsigned char i2c_address, un
 int ObcWithC2a::I2cComponentWriteRegister(int port_id, const unsigned char i2c_address, const unsigned char register_address,
                                           const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   for (unsigned char i = 0; i < length; i++) {
     i2c_port->WriteRegister(i2c_address, register_address + i, data[i]);
   }
@@ -192,6 +196,7 @@ int ObcWithC2a::I2cComponentWriteRegister(int port_id, const unsigned char i2c_a
 int ObcWithC2a::I2cComponentReadRegister(int port_id, const unsigned char i2c_address, const unsigned char register_address, unsigned char* data,
                                          const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   for (unsigned char i = 0; i < length; i++) {
     data[i] = i2c_port->ReadRegister(i2c_address, register_address + i);
   }
@@ -199,6 +204,7 @@ int ObcWithC2a::I2cComponentReadRegister(int port_id, const unsigned char i2c_ad
 }
 int ObcWithC2a::I2cComponentReadCommand(int port_id, const unsigned char i2c_address, unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   i2c_port->ReadCommand(i2c_address, data, length);
   return 0;
 }
-- 
2.43.0


From b29a8bfc5a4c44e6e20373a99d9f923889b5e305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:44 +0000
Subject: [PATCH 084/149] fix: a SLIP frame that ends within an escape sequence
 was decoded beyond its end

---
 src/utilities/slip.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utilities/slip.cpp b/src/utilities/slip.cpp
index b1f0fbb..d3ae430 100644
--- a/src/utilities/slip.cpp
+++ b/src/utilities/slip.cpp
@@ -27,6 +27,12 @@ std::vector<uint8_t> decode_slip(const std::vector<uint8_t> in) {
   while (1) {
     fesc_itr = std::find(fesc_itr, out.end(), kSlipFesc_);
     if (fesc_itr == out.end()) break;
+    // incomplete escape sequence
+    if (fesc_itr + 1 == out.end()) {
+      out.erase(fesc_itr);
+      break;
+    }
+
     // convert
     if (*(fesc_itr + 1) == kSlipTfend_) {
       *(fesc_itr + 1) = kSlipFend_;
-- 
2.43.0


From 9c5c8fdc0b93151c32dad532bf42a206fac0088e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:44 +0000
Subject: [PATCH 085/149] fix: decoding an empty SLIP frame with header removed
 a byte that does not exist

---
 src/utilities/slip.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utilities/slip.cpp b/src/utilities/slip.cpp
index d3ae430..4269337 100644
--- a/src/utilities/slip.cpp
+++ b/src/utilities/slip.cpp
@@ -50,6 +50,7 @@ std::vector<uint8_t> decode_slip(const std::vector<uint8_t> in) {
 
 std::vector<uint8_t> decode_slip_with_header(const std::vector<uint8_t> in) {
   std::vector<uint8_t> in_without_header = in;
+  if (in_without_header.empty()) return in_without_header;
   in_without_header.erase(in_without_header.begin(), in_without_header.begin() + 1);
   return decode_slip(in_without_header);
 }
-- 
2.43.0


From 199eeb944eb78a4e65b429cb6faa64163870e86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:08 +0000
Subject: [PATCH 086/149] fix: the timer count of a new clock generator was not
 initialised

---
 src/environment/global/clock_generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/environment/global/clock_generator.hpp b/src/environment/global/clock_generator.hpp
index 87361d7..a684fbd 100644
--- a/src/environment/global/clock_generator.hpp
+++ b/src/environment/global/clock_generator.hpp
@@ -56,7 +56,7 @@ class ClockGenerator {
 
  private:
   std::vector<components::ITickable*> components_;  //!< Component list fot tick
-  unsigned int timer_count_;                        //!< Timer count TODO: change to long?
+  unsigned int timer_count_ = 0;                        //!< Timer count TODO: change to long?
 };
 
 }  // namespace s2e::environment
-- 
2.43.0


From 2b2a3c08b8c7735765fbc2a48e99c673eb8b922e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:08 +0000
Subject: [PATCH 087/149] fix: a component that was created or destroyed during
 a tick invalidated the list of components being ticked

---
 src/environment/global/clock_generator.cpp | 19 ++++++++++++++-----
 src/environment/global/clock_generator.hpp |  7 +++++++
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/environment/global/clock_generator.cpp b/src/environment/global/clock_generator.cpp
index 5fd6199..0776719 100644
--- a/src/environment/global/clock_generator.cpp
+++ b/src/environment/global/clock_generator.cpp
@@ -5,6 +5,8 @@
 
 #include "clock_generator.hpp"
 
+#include <algorithm>
+
 namespace s2e::environment {
 
 ClockGenerator::~ClockGenerator() {}
@@ -22,14 +24,21 @@ void ClockGenerator::RemoveComponent(components::ITickable* tickable) {
   }
 }
 
+bool ClockGenerator::IsRegistered(const components::ITickable* tickable) const {
+  return std::find(components_.begin(), components_.end(), tickable) != components_.end();
+}
+
 void ClockGenerator::TickToComponents() {
-  // Update for each component
-  for (auto itr = components_.begin(); itr != components_.end(); ++itr) {
+  // Update for each component. The list is copied since components may be registered or removed during the update.
+  const std::vector<components::ITickable*> components = components_;
+  for (auto tickable : components) {
+    if (!IsRegistered(tickable)) continue;
     // Run MainRoutine
-    (*itr)->Tick(timer_count_);
+    tickable->Tick(timer_count_);
+    if (!IsRegistered(tickable)) continue;
     // Run FastUpdate (Processes that are executed more frequently than MainRoutine)
-    if ((*itr)->GetNeedsFastUpdate()) {
-      (*itr)->FastTick(timer_count_);
+    if (tickable->GetNeedsFastUpdate()) {
+      tickable->FastTick(timer_count_);
     }
   }
   timer_count_++;  // TODO: Consider if "timer_count" is necessary
diff --git a/src/environment/global/clock_generator.hpp b/src/environment/global/clock_generator.hpp
index a684fbd..60e2bcb 100644
--- a/src/environment/global/clock_generator.hpp
+++ b/src/environment/global/clock_generator.hpp
@@ -55,6 +55,13 @@ class ClockGenerator {
   inline void ClearTimerCount(void) { timer_count_ = 0; }
 
  private:
+  /**
+   * @fn IsRegistered
+   * @brief Return true when the target tickable component is registered
+   * @param [in] tickable: Component class
+   */
+  bool IsRegistered(const components::ITickable* tickable) const;
+
   std::vector<components::ITickable*> components_;  //!< Component list fot tick
   unsigned int timer_count_ = 0;                        //!< Timer count TODO: change to long?
 };
-- 
2.43.0


From 4515255dd3fa6f9f875836fb0f9bd1d3818fc987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:08 +0000
Subject: [PATCH 088/149] fix: assigning a component of another clock left a
 dangling registration behind when it was destroyed

---
 src/components/base/component.cpp | 13 +++++++++++++
 src/components/base/component.hpp |  5 +++++
 2 files changed, 18 insertions(+)

diff --git a/src/components/base/component.cpp b/src/components/base/component.cpp
index 469c4e9..abff9b2 100644
--- a/src/components/base/component.cpp
+++ b/src/components/base/component.cpp
@@ -32,6 +32,19 @@ Component::Component(const Component& object) {
   power_port_ = object.power_port_;
 }
 
+Component& Component::operator=(const Component& object) {
+  prescaler_ = object.prescaler_;
+  fast_prescaler_ = object.fast_prescaler_;
+  needs_fast_update_ = object.needs_fast_update_;
+  if (clock_generator_ != object.clock_generator_) {
+    clock_generator_->RemoveComponent(this);
+    clock_generator_ = object.clock_generator_;
+    clock_generator_->RegisterComponent(this);
+  }
+  power_port_ = object.power_port_;
+  return *this;
+}
+
 Component::~Component() { clock_generator_->RemoveComponent(this); }
 
 void Component::Tick(const unsigned int count) {
diff --git a/src/components/base/component.hpp b/src/components/base/component.hpp
index 2b541df..0706973 100644
--- a/src/components/base/component.hpp
+++ b/src/components/base/component.hpp
@@ -44,6 +44,11 @@ class Component : public ITickable {
    * @brief Copy constructor
    */
   Component(const Component& object);
+  /**
+   * @fn operator=
+   * @brief Copy assignment
+   */
+  Component& operator=(const Component& object);
   /**
    * @fn ~Component
    * @brief Destructor
-- 
2.43.0


From 896b922251de3e9a3731bfc15f341ff50e4bff09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 089/149] fix: a disabled logger does not copy settings files
 into the working directory

---
 src/logger/logger.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/logger/logger.cpp b/src/logger/logger.cpp
index 3bc823c..4d6491b 100644
--- a/src/logger/logger.cpp
+++ b/src/logger/logger.cpp
@@ -94,6 +94,8 @@ fs::path Logger::CreateDirectory(const fs::path &data_path, const std::string &t
 
 void Logger::CopyFileToLogDirectory(const fs::path &ini_file_name) {
   if (is_ini_save_enabled_ == false) return;
+  // A logger without log directory (disabled at the construction) does not copy anything
+  if (directory_path_.empty()) return;
   // Copy files to the directory
   fs::path to_file_name = directory_path_ / ini_file_name.filename();
 
-- 
2.43.0


From 9677cd75dd365ccfb99fbc5fa74a0be0b9885780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:22 +0000
Subject: [PATCH 090/149] fix: the radiation pressure used positions of
 celestial bodies that were not updated when the attitude is updated less
 often than the orbit

---
 src/environment/local/local_environment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/environment/local/local_environment.cpp b/src/environment/local/local_environment.cpp
index 5a1768d..057ebff 100644
--- a/src/environment/local/local_environment.cpp
+++ b/src/environment/local/local_environment.cpp
@@ -57,8 +57,8 @@ void LocalEnvironment::Update(const dynamics::Dynamics* dynamics, const Simulati
   auto& orbit = dynamics->GetOrbit();
   auto& attitude = dynamics->GetAttitude();
 
-  // Update local environments that depend on the attitude (and the position)
-  if (simulation_time->GetAttitudePropagateFlag()) {
+  // Update local environments that depend on the attitude and the position
+  if (simulation_time->GetAttitudePropagateFlag() || simulation_time->GetOrbitPropagateFlag()) {
     celestial_information_->UpdateAllObjectsInformation(orbit.GetPosition_i_m(), orbit.GetVelocity_i_m_s(), attitude.GetQuaternion_i2b(),
                                                         attitude.GetAngularVelocity_b_rad_s());
     geomagnetic_field_->CalcMagneticField(simulation_time->GetCurrentDecimalYear(), simulation_time->GetCurrentSiderealTime(),
-- 
2.43.0


From f3be1bf77e75dfd824d89db08039818f2a0aedf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:43 +0000
Subject: [PATCH 091/149] fix: the direction noise of the thruster did not
 follow the random seed of the simulation

---
 src/components/real/propulsion/simple_thruster.cpp | 9 ++-------
 src/components/real/propulsion/simple_thruster.hpp | 2 ++
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/components/real/propulsion/simple_thruster.cpp b/src/components/real/propulsion/simple_thruster.cpp
index 6c23e64..239abb6 100644
--- a/src/components/real/propulsion/simple_thruster.cpp
+++ b/src/components/real/propulsion/simple_thruster.cpp
@@ -57,6 +57,7 @@ SimpleThruster::~SimpleThruster() {}
 void SimpleThruster::Initialize(const double magnitude_standard_deviation_N, const double direction_standard_deviation_rad) {
   magnitude_random_noise_.SetParameters(0.0, magnitude_standard_deviation_N, randomization::global_randomization.MakeSeed());
   direction_random_noise_.SetParameters(0.0, direction_standard_deviation_rad, randomization::global_randomization.MakeSeed());
+  direction_axis_random_.InitSeed(randomization::global_randomization.MakeSeed());
   thrust_direction_b_ = thrust_direction_b_.CalcNormalizedVector();
 }
 
@@ -126,13 +127,7 @@ math::Vector<3> SimpleThruster::CalcThrustDirection() {
   math::Vector<3> thrust_dir_b_true = thrust_direction_b_;
   if (direction_noise_standard_deviation_rad_ > 0.0 + DBL_EPSILON) {
     math::Vector<3> ex = math::GenerateOrthogonalUnitVector(thrust_dir_b_true);
-    int flag = rand() % 2;
-    double make_axis_rot_rad;
-    if (flag == 0) {
-      make_axis_rot_rad = math::pi * (double)rand() / RAND_MAX;
-    } else {
-      make_axis_rot_rad = -math::pi * (double)rand() / RAND_MAX;
-    }
+    double make_axis_rot_rad = math::pi * (2.0 * (double)direction_axis_random_ - 1.0);
 
     math::Quaternion make_axis_rot(thrust_dir_b_true, make_axis_rot_rad);
     math::Vector<3> axis_rot = make_axis_rot.FrameConversion(ex);
diff --git a/src/components/real/propulsion/simple_thruster.hpp b/src/components/real/propulsion/simple_thruster.hpp
index c852650..397b6e4 100644
--- a/src/components/real/propulsion/simple_thruster.hpp
+++ b/src/components/real/propulsion/simple_thruster.hpp
@@ -11,6 +11,7 @@
 #include <math_physics/control_utilities/first_order_lag.hpp>
 #include <math_physics/math/quaternion.hpp>
 #include <math_physics/math/vector.hpp>
+#include <math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.hpp>
 #include <math_physics/randomization/normal_randomization.hpp>
 #include <simulation/spacecraft/structure/structure.hpp>
 
@@ -126,6 +127,7 @@ class SimpleThruster : public Component, public logger::ILoggable {
   double direction_noise_standard_deviation_rad_ = 0.0;  //!< Standard deviation of thrust direction error [rad]
   randomization::NormalRand magnitude_random_noise_;     //!< Normal random for thrust magnitude error
   randomization::NormalRand direction_random_noise_;     //!< Normal random for thrust direction error
+  randomization::MinimalStandardLcgWithShuffle direction_axis_random_;  //!< Uniform random for the axis of thrust direction error
   // Delay parameters
   const double dead_time_s_;                       //!< Dead time [s]
   const double step_width_s_;                      //!< Step width for simulation [s]
-- 
2.43.0


From 9fde60d00f765d316bba5a2f3b473eb1bea35dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:58 +0000
Subject: [PATCH 092/149] fix: a comment line longer than the line buffer of
 the INI reader was read as settings, and a longer value was cut silently

---
 ExtLibraries/inih/ini.c | 19 ++++++++++++++++++-
 ExtLibraries/inih/ini.h |  2 +-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/ExtLibraries/inih/ini.c b/ExtLibraries/inih/ini.c
index f323a17..bd6b459 100644
--- a/ExtLibraries/inih/ini.c
+++ b/ExtLibraries/inih/ini.c
@@ -97,6 +97,9 @@ int ini_parse_stream(ini_reader reader, void* stream, ini_handler handler, void*
   char* value;
   int lineno = 0;
   int error = 0;
+  int is_cut = 0;
+  size_t length;
+  char rest[64];
 
 #if !INI_USE_STACK
   line = (char*)malloc(INI_INITIAL_ALLOC);
@@ -132,6 +135,16 @@ int ini_parse_stream(ini_reader reader, void* stream, ini_handler handler, void*
 
     lineno++;
 
+    /* Skip what does not fit in the line buffer, so that it is not read as a line of its own */
+    is_cut = 0;
+    length = strlen(line);
+    if (length == (size_t)max_line - 1 && line[length - 1] != '\n') {
+      while (reader(rest, (int)sizeof(rest), stream) != NULL) {
+        if (*rest != '\r' && *rest != '\n') is_cut = 1;
+        if (strchr(rest, '\n')) break;
+      }
+    }
+
     start = line;
 #if INI_ALLOW_BOM
     if (lineno == 1 && (unsigned char)start[0] == 0xEF && (unsigned char)start[1] == 0xBB && (unsigned char)start[2] == 0xBF) {
@@ -173,8 +186,12 @@ int ini_parse_stream(ini_reader reader, void* stream, ini_handler handler, void*
         value = end + 1;
 #if INI_ALLOW_INLINE_COMMENTS
         end = find_chars_or_comment(value, NULL);
-        if (*end) *end = '\0';
+        if (*end) {
+          *end = '\0';
+          is_cut = 0; /* Only the comment is cut */
+        }
 #endif
+        if (is_cut && !error) error = lineno; /* The value is longer than the line buffer */
         value = lskip(value);
         rstrip(value);
 
diff --git a/ExtLibraries/inih/ini.h b/ExtLibraries/inih/ini.h
index 1467cd7..07e5957 100644
--- a/ExtLibraries/inih/ini.h
+++ b/ExtLibraries/inih/ini.h
@@ -102,7 +102,7 @@ int ini_parse_string(const char* string, ini_handler handler, void* user);
 /* Maximum line length for any line in INI file (stack or heap). Note that
    this must be 3 more than the longest line (due to '\r', '\n', and '\0'). */
 #ifndef INI_MAX_LINE
-#define INI_MAX_LINE 200
+#define INI_MAX_LINE 1024
 #endif
 
 /* Nonzero to allow heap line buffer to grow via realloc(), zero for a
-- 
2.43.0


From 252c88af1550729c1a60e0fc91340435f5063ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:58 +0000
Subject: [PATCH 093/149] fix: IniAccess::ReadChar did not terminate a string
 which is longer than the buffer

---
 src/setting_file_reader/initialize_file_access.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/setting_file_reader/initialize_file_access.cpp b/src/setting_file_reader/initialize_file_access.cpp
index 187b559..99ab851 100644
--- a/src/setting_file_reader/initialize_file_access.cpp
+++ b/src/setting_file_reader/initialize_file_access.cpp
@@ -149,7 +149,9 @@ void IniAccess::ReadChar(const char* section_name, const char* key_name, const i
   GetPrivateProfileStringA(section_name, key_name, 0, data, size, file_path_char_);
 #else
   std::string string_data = ReadString(section_name, key_name);
-  strncpy(data, string_data.c_str(), size);
+  if (size <= 0) return;
+  strncpy(data, string_data.c_str(), size - 1);
+  data[size - 1] = '\0';
 #endif
 }
 
-- 
2.43.0


From 5d8496d261b5a3eaf06b0448277609d2af6073db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:58 +0000
Subject: [PATCH 094/149] fix: file paths longer than 1023 characters were not
 terminated

---
 .../initialize_file_access.cpp                 | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/setting_file_reader/initialize_file_access.cpp b/src/setting_file_reader/initialize_file_access.cpp
index 99ab851..16fc00e 100644
--- a/src/setting_file_reader/initialize_file_access.cpp
+++ b/src/setting_file_reader/initialize_file_access.cpp
@@ -19,11 +19,13 @@ namespace s2e::setting_file_reader {
 #ifdef WIN32
 IniAccess::IniAccess(const std::string file_path) : file_path_(file_path) {
   // strcpy_s(file_path_char_, (size_t)_countof(file_path_char_), file_path_.c_str());
-  strncpy(file_path_char_, file_path_.c_str(), kMaxCharLength);
+  strncpy(file_path_char_, file_path_.c_str(), kMaxCharLength - 1);
+  file_path_char_[kMaxCharLength - 1] = '\0';
 }
 #else
 IniAccess::IniAccess(const std::string file_path) : file_path_(file_path), ini_reader_(file_path) {
-  strncpy(file_path_char_, file_path_.c_str(), kMaxCharLength);
+  strncpy(file_path_char_, file_path_.c_str(), kMaxCharLength - 1);
+  file_path_char_[kMaxCharLength - 1] = '\0';
 
   std::string ext = ".ini";
   if (file_path_.size() < 4 || !std::equal(std::rbegin(ext), std::rend(ext), std::rbegin(file_path_))) {
@@ -231,9 +233,9 @@ std::vector<std::string> IniAccess::Split(const std::string& input, const char d
 }
 
 void IniAccess::ReadCsvDouble(std::vector<std::vector<double>>& output_value, const size_t node_num) {
-  std::ifstream ifs(file_path_char_);
+  std::ifstream ifs(file_path_);
   if (!ifs.is_open()) {
-    std::cerr << "file open error. filename = " << file_path_char_ << std::endl;
+    std::cerr << "file open error. filename = " << file_path_ << std::endl;
   }
   std::string line;
 
@@ -251,9 +253,9 @@ void IniAccess::ReadCsvDouble(std::vector<std::vector<double>>& output_value, co
 
 void IniAccess::ReadCsvDoubleWithHeader(std::vector<std::vector<double>>& output_value, const size_t node_num, const size_t row_header_num,
                                         const size_t column_header_num) {
-  std::ifstream ifs(file_path_char_);
+  std::ifstream ifs(file_path_);
   if (!ifs.is_open()) {
-    std::cerr << "file open error. filename = " << file_path_char_ << std::endl;
+    std::cerr << "file open error. filename = " << file_path_ << std::endl;
   }
   std::string line;
   size_t line_num = 0;
@@ -275,9 +277,9 @@ void IniAccess::ReadCsvDoubleWithHeader(std::vector<std::vector<double>>& output
 }
 
 void IniAccess::ReadCsvString(std::vector<std::vector<std::string>>& output_value, const size_t node_num) {
-  std::ifstream ifs(file_path_char_);
+  std::ifstream ifs(file_path_);
   if (!ifs.is_open()) {
-    std::cerr << "file open error. filename = " << file_path_char_ << std::endl;
+    std::cerr << "file open error. filename = " << file_path_ << std::endl;
   }
   std::string line;
   output_value.reserve(node_num);
-- 
2.43.0


From 1c583bbe77289f33e766bb75d287bd9e7a1c4dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:58 +0000
Subject: [PATCH 095/149] fix: the last column of CSV files with CRLF line
 feeds had a carriage return

---
 src/setting_file_reader/initialize_file_access.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/setting_file_reader/initialize_file_access.cpp b/src/setting_file_reader/initialize_file_access.cpp
index 16fc00e..a77b8ca 100644
--- a/src/setting_file_reader/initialize_file_access.cpp
+++ b/src/setting_file_reader/initialize_file_access.cpp
@@ -241,6 +241,7 @@ void IniAccess::ReadCsvDouble(std::vector<std::vector<double>>& output_value, co
 
   output_value.reserve(node_num);
   while (getline(ifs, line)) {
+    if (!line.empty() && line.back() == '\r') line.pop_back();  // Line feed code of Windows
     std::vector<std::string> string_vector = Split(line, ',');
     std::vector<double> temp;
     temp.reserve(node_num);
@@ -261,6 +262,7 @@ void IniAccess::ReadCsvDoubleWithHeader(std::vector<std::vector<double>>& output
   size_t line_num = 0;
   output_value.reserve(node_num);
   while (getline(ifs, line)) {
+    if (!line.empty() && line.back() == '\r') line.pop_back();  // Line feed code of Windows
     if (line_num >= row_header_num) {
       std::vector<std::string> string_vector = Split(line, ',');
       std::vector<double> temp;
@@ -284,6 +286,7 @@ void IniAccess::ReadCsvString(std::vector<std::vector<std::string>>& output_valu
   std::string line;
   output_value.reserve(node_num);
   while (getline(ifs, line)) {
+    if (!line.empty() && line.back() == '\r') line.pop_back();  // Line feed code of Windows
     std::vector<std::string> temp = Split(line, ',');
     temp.reserve(node_num);
     output_value.push_back(temp);
-- 
2.43.0


From 4f8bb8ec72bc14cd87056effbaa5e2f102e7733a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:59 +0000
Subject: [PATCH 096/149] fix: QuaternionUniform of Monte-Carlo simulation
 rotated twice the angle and its results were not uniform

---
 .../initialize_monte_carlo_parameters.cpp                      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
index 967b92b..a700796 100644
--- a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
+++ b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
@@ -261,7 +261,8 @@ void InitializedMonteCarloParameters::CalcQuaternionUniform(math::Quaternion& de
   for (int i = 0; i < 3; i++) {
     first_cnv[i] = op[i];
   }
-  first_cnv[3] = cos_angle_between;
+  first_cnv[3] = 1.0 + cos_angle_between;  // Half angle of the rotation
+  first_cnv.Normalize();
 
   // Generate randomized rotation angle around the X-axis
   double rotation_angle = InitializedMonteCarloParameters::Generate1dUniform(0.0, math::tau);
-- 
2.43.0


From c37dd89bbaac181ae1fea1cdd68b912d3d678e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:59 +0000
Subject: [PATCH 097/149] fix: the seed of Monte-Carlo simulation was discarded
 at the first definition of a parameter

---
 .../initialize_monte_carlo_parameters.cpp                     | 4 +++-
 .../initialize_monte_carlo_parameters.hpp                     | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
index a700796..14ca6a8 100644
--- a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
+++ b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
@@ -13,6 +13,7 @@ namespace s2e::simulation {
 
 random_device InitializedMonteCarloParameters::randomizer_;
 mt19937 InitializedMonteCarloParameters::mt_;
+bool InitializedMonteCarloParameters::is_seed_set_ = false;
 uniform_real_distribution<>* InitializedMonteCarloParameters::uniform_distribution_;
 normal_distribution<>* InitializedMonteCarloParameters::normal_distribution_;
 
@@ -20,7 +21,7 @@ InitializedMonteCarloParameters::InitializedMonteCarloParameters() {
   // Generate object when the first execution
   static bool initial_setup_done = false;
   if (!initial_setup_done) {
-    SetSeed();
+    if (!is_seed_set_) SetSeed();
     InitializedMonteCarloParameters::uniform_distribution_ = new uniform_real_distribution<>(0.0, 1.0);
     InitializedMonteCarloParameters::normal_distribution_ = new normal_distribution<>(0.0, 1.0);
     initial_setup_done = true;
@@ -36,6 +37,7 @@ void InitializedMonteCarloParameters::SetSeed(unsigned long seed, bool is_determ
   } else {
     InitializedMonteCarloParameters::mt_.seed(InitializedMonteCarloParameters::randomizer_());
   }
+  is_seed_set_ = true;
 }
 
 void InitializedMonteCarloParameters::GetRandomizedScalar(double& destination) const {
diff --git a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.hpp b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.hpp
index e4bc346..870d38d 100644
--- a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.hpp
+++ b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.hpp
@@ -92,6 +92,7 @@ class InitializedMonteCarloParameters {
   RandomizationType randomization_type_;                           //!< Randomization type
   static std::random_device randomizer_;                           //!< Non-deterministic random number generator with time information
   static std::mt19937 mt_;                                         //!< Deterministic random number generator
+  static bool is_seed_set_;                                        //!< Flag to show the seed is already set
   static std::uniform_real_distribution<>* uniform_distribution_;  //!< Uniform random number generator
   static std::normal_distribution<>* normal_distribution_;         //!< Normal random number generator
 
-- 
2.43.0


From 2389d7d91d875f6af9ea9088a7443320c98d2db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:59 +0000
Subject: [PATCH 098/149] fix: the sequence of Monte-Carlo simulation after
 setting the seed depended on the number of normal random values drawn before

---
 .../initialize_monte_carlo_parameters.cpp                       | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
index 14ca6a8..9f662b8 100644
--- a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
+++ b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
@@ -38,6 +38,8 @@ void InitializedMonteCarloParameters::SetSeed(unsigned long seed, bool is_determ
     InitializedMonteCarloParameters::mt_.seed(InitializedMonteCarloParameters::randomizer_());
   }
   is_seed_set_ = true;
+  // Discard the value kept for the next draw
+  if (normal_distribution_ != nullptr) normal_distribution_->reset();
 }
 
 void InitializedMonteCarloParameters::GetRandomizedScalar(double& destination) const {
-- 
2.43.0


From 48e2e2883b8c521b51b886f2f1424aa45af4e25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:37 +0000
Subject: [PATCH 099/149] fix: the seed of the random numbers in the settings
 had no effect

---
 src/simulation/case/simulation_case.cpp | 21 +++++++++++++++++++++
 src/simulation/case/simulation_case.hpp |  7 +++++++
 2 files changed, 28 insertions(+)

diff --git a/src/simulation/case/simulation_case.cpp b/src/simulation/case/simulation_case.cpp
index e8cfb56..ca5d9cb 100644
--- a/src/simulation/case/simulation_case.cpp
+++ b/src/simulation/case/simulation_case.cpp
@@ -5,7 +5,9 @@
 
 #include "simulation_case.hpp"
 
+#include <chrono>
 #include <logger/initialize_log.hpp>
+#include <math_physics/randomization/global_randomization.hpp>
 #include <setting_file_reader/initialize_file_access.hpp>
 #include <string>
 
@@ -15,6 +17,9 @@ SimulationCase::SimulationCase(const std::string initialize_base_file) {
   // Initialize Log
   simulation_configuration_.main_logger_ = logger::InitLog(initialize_base_file);
 
+  // Initialize Random Seed
+  InitializeRandomSeed(initialize_base_file);
+
   // Initialize Simulation Configuration
   InitializeSimulationConfiguration(initialize_base_file);
 }
@@ -34,6 +39,12 @@ SimulationCase::SimulationCase(const std::string initialize_base_file, const Mon
     simulation_configuration_.main_logger_ =
         new logger::Logger(log_file_name, log_path, initialize_base_file, save_ini_files, monte_carlo_simulator.GetSaveLogHistoryFlag());
   }
+  // Initialize Random Seed
+  // The noises of the Monte Carlo executions have to differ from each other
+  if (!monte_carlo_simulator.IsEnabled() || monte_carlo_simulator.GetNumberOfExecutionsDone() == 0) {
+    InitializeRandomSeed(initialize_base_file);
+  }
+
   // Initialize Simulation Configuration
   InitializeSimulationConfiguration(initialize_base_file);
 }
@@ -85,6 +96,16 @@ std::string SimulationCase::GetLogValue() const {
   return str_tmp;
 }
 
+void SimulationCase::InitializeRandomSeed(const std::string initialize_base_file) {
+  setting_file_reader::IniAccess simulation_base_ini = setting_file_reader::IniAccess(initialize_base_file);
+  long seed = simulation_base_ini.ReadInt("RANDOMIZE", "rand_seed");
+  if (seed == 0) {
+    // Varied by time
+    seed = std::chrono::system_clock::now().time_since_epoch().count() % 0x7ffffffe + 1;
+  }
+  randomization::global_randomization.SetSeed(seed);
+}
+
 void SimulationCase::InitializeSimulationConfiguration(const std::string initialize_base_file) {
   // Initialize
   setting_file_reader::IniAccess simulation_base_ini = setting_file_reader::IniAccess(initialize_base_file);
diff --git a/src/simulation/case/simulation_case.hpp b/src/simulation/case/simulation_case.hpp
index 26f012d..eba014a 100644
--- a/src/simulation/case/simulation_case.hpp
+++ b/src/simulation/case/simulation_case.hpp
@@ -80,6 +80,13 @@ class SimulationCase : public logger::ILoggable {
   SimulationConfiguration simulation_configuration_;    //!< Simulation setting
   environment::GlobalEnvironment* global_environment_;  //!< Global Environment
 
+  /**
+   * @fn InitializeRandomSeed
+   * @brief Initialize seed of the global randomization
+   * @param[in] initialize_base_file: File path to initialize base file
+   */
+  void InitializeRandomSeed(const std::string initialize_base_file);
+
   /**
    * @fn InitializeSimulationConfiguration
    * @brief Initialize simulation configuration
-- 
2.43.0


From a98e5535557a40d0a9ac9f7599d00ee82c2b04ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:37 +0000
Subject: [PATCH 100/149] fix: the controlled attitude read an uninitialized
 direction when its sub mode is not a pointing mode

---
 src/dynamics/attitude/controlled_attitude.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dynamics/attitude/controlled_attitude.cpp b/src/dynamics/attitude/controlled_attitude.cpp
index 72a7f4f..b05c46d 100644
--- a/src/dynamics/attitude/controlled_attitude.cpp
+++ b/src/dynamics/attitude/controlled_attitude.cpp
@@ -42,6 +42,11 @@ void ControlledAttitude::Initialize(void) {
       is_calc_enabled_ = false;
       return;
     }
+    if (sub_mode_ == AttitudeControlMode::kInertialStabilize) {
+      std::cout << "sub mode should be a pointing mode. \n";
+      is_calc_enabled_ = false;
+      return;
+    }
     // pointing direction check
     main_target_direction_b_ = main_target_direction_b_.CalcNormalizedVector();
     sub_target_direction_b_ = sub_target_direction_b_.CalcNormalizedVector();
-- 
2.43.0


From 13ef0b89509d29658d69f68cc606353f7c96133c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:59 +0000
Subject: [PATCH 101/149] fix: reading an SP3 file of one epoch or one
 satellite accessed a second one that does not exist

---
 src/math_physics/gnss/sp3_file_reader.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index 2ae1366..02a4cd1 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -116,12 +116,6 @@ bool Sp3FileReader::ReadFile(const std::string file_name) {
     }
   }
 
-  // Test
-  time_system::DateTime test = epoch_[0];
-  test = epoch_[1];
-  std::vector<Sp3PositionClock> test_p = position_clock_[0];
-  test_p = position_clock_[1];
-
   sp3_file.close();
   return true;
 }
-- 
2.43.0


From ef90d8d3ff024c5e8865b24e7e3f4255d9cd04e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:59 +0000
Subject: [PATCH 102/149] fix: SP3 files with velocities were not recognized

---
 src/math_physics/gnss/sp3_file_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index 02a4cd1..6113726 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -156,7 +156,7 @@ size_t Sp3FileReader::ReadHeader(std::ifstream& sp3_file) {
   // Read contents
   if (line[2] == 'P') {
     header_.mode_ = Sp3Mode::kPosition;
-  } else if (line[3] == 'V') {
+  } else if (line[2] == 'V') {
     header_.mode_ = Sp3Mode::kVelocity;
   } else {
     header_.mode_ = Sp3Mode::kOther;
-- 
2.43.0


From 354b3ed3d10f80544ad8ac398824a788a70cf460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:59 +0000
Subject: [PATCH 103/149] fix: the SP3 epoch just behind the last one was read
 out of range

---
 src/math_physics/gnss/sp3_file_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index 6113726..f8a0f59 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -16,7 +16,7 @@ namespace s2e::gnss {
 Sp3FileReader::Sp3FileReader(const std::string file_name) { ReadFile(file_name); }
 
 time_system::DateTime Sp3FileReader::GetEpochData(const size_t epoch_id) const {
-  if (epoch_id > epoch_.size()) {
+  if (epoch_id >= epoch_.size()) {
     time_system::DateTime zero;
     return zero;
   }
-- 
2.43.0


From f130979a6de7fa523b499b76fd7ce90d8bdf83a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:15 +0000
Subject: [PATCH 104/149] fix: SP3 lines without the blanks at their end could
 not be read

---
 src/math_physics/gnss/sp3_file_reader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index f8a0f59..19c7cae 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -13,6 +13,8 @@
 
 namespace s2e::gnss {
 
+const size_t kSp3LineLength = 80;  //!< Length of a full SP3-d line
+
 Sp3FileReader::Sp3FileReader(const std::string file_name) { ReadFile(file_name); }
 
 time_system::DateTime Sp3FileReader::GetEpochData(const size_t epoch_id) const {
@@ -304,6 +306,9 @@ size_t Sp3FileReader::ReadHeader(std::ifstream& sp3_file) {
 Sp3PositionClock Sp3FileReader::DecodePositionClockData(std::string line) {
   Sp3PositionClock position_clock;
 
+  // Blanks at the end of the line can be omitted
+  if (line.size() < kSp3LineLength) line.resize(kSp3LineLength, ' ');
+
   // Satellite ID
   position_clock.satellite_id_ = line.substr(1, 3);
 
-- 
2.43.0


From 368709305ab5a1de62d0f97c161908fefee8381d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:15 +0000
Subject: [PATCH 105/149] fix: SP3 velocity lines without standard deviations
 could not be read, and their columns were wrong

---
 src/math_physics/gnss/sp3_file_reader.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index 19c7cae..ffec145 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -379,6 +379,9 @@ Sp3PositionClockCorrelation Sp3FileReader::DecodePositionClockCorrelation(std::s
 Sp3VelocityClockRate Sp3FileReader::DecodeVelocityClockRateData(std::string line) {
   Sp3VelocityClockRate velocity_clock_rate;
 
+  // Blanks at the end of the line can be omitted
+  if (line.size() < kSp3LineLength) line.resize(kSp3LineLength, ' ');
+
   // Satellite ID
   velocity_clock_rate.satellite_id_ = line.substr(1, 3);
 
@@ -394,10 +397,18 @@ Sp3VelocityClockRate Sp3FileReader::DecodeVelocityClockRateData(std::string line
   if (line.size() > 60) {
     math::Vector<3> velocity_standard_deviation;
     for (size_t axis = 0; axis < 3; axis++) {
-      velocity_standard_deviation[axis] = stod(line.substr(61 + axis * 2, 2));
+      try {
+        velocity_standard_deviation[axis] = stod(line.substr(61 + axis * 3, 2));
+      } catch (const std::invalid_argument&) {
+        velocity_standard_deviation[axis] = 0.0;
+      }
     }
     velocity_clock_rate.velocity_standard_deviation_ = velocity_standard_deviation;
-    velocity_clock_rate.clock_rate_standard_deviation_ = stod(line.substr(70, 3));
+    try {
+      velocity_clock_rate.clock_rate_standard_deviation_ = stod(line.substr(70, 3));
+    } catch (const std::invalid_argument&) {
+      velocity_clock_rate.clock_rate_standard_deviation_ = 0.0;
+    }
   }
 
   return velocity_clock_rate;
-- 
2.43.0


From 256ea6864ce7b1e7bcd9aaa5884d49f90895de24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:42 +0000
Subject: [PATCH 106/149] fix: the GNSS satellite just behind the last one was
 read out of range

---
 src/environment/global/gnss_satellites.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/environment/global/gnss_satellites.cpp b/src/environment/global/gnss_satellites.cpp
index 25724b5..34471ce 100644
--- a/src/environment/global/gnss_satellites.cpp
+++ b/src/environment/global/gnss_satellites.cpp
@@ -77,7 +77,7 @@ void GnssSatellites::Update(const SimulationTime& simulation_time) {
 }
 
 math::Vector<3> GnssSatellites::GetPosition_ecef_m(const size_t gnss_satellite_id, const time_system::EpochTime time) const {
-  if (gnss_satellite_id > number_of_calculated_gnss_satellites_) return math::Vector<3>(0.0);
+  if (gnss_satellite_id >= number_of_calculated_gnss_satellites_) return math::Vector<3>(0.0);
 
   time_system::EpochTime target_time;
 
@@ -95,7 +95,7 @@ math::Vector<3> GnssSatellites::GetPosition_ecef_m(const size_t gnss_satellite_i
 }
 
 double GnssSatellites::GetClock_s(const size_t gnss_satellite_id, const time_system::EpochTime time) const {
-  if (gnss_satellite_id > number_of_calculated_gnss_satellites_) return 0.0;
+  if (gnss_satellite_id >= number_of_calculated_gnss_satellites_) return 0.0;
 
   time_system::EpochTime target_time;
 
-- 
2.43.0


From 39f1d16efd50332dddc6e64a05057504ef6bb888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:35 +0000
Subject: [PATCH 107/149] fix: the GNSS satellites read behind the last SP3
 file near its end

---
 src/environment/global/gnss_satellites.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/environment/global/gnss_satellites.cpp b/src/environment/global/gnss_satellites.cpp
index 34471ce..fb25776 100644
--- a/src/environment/global/gnss_satellites.cpp
+++ b/src/environment/global/gnss_satellites.cpp
@@ -5,6 +5,8 @@
 
 #include "gnss_satellites.hpp"
 
+#include <algorithm>
+
 #include <math_physics/gnss/igs_product_name_handling.hpp>
 #include <math_physics/gnss/sp3_file_reader.hpp>
 
@@ -39,6 +41,11 @@ void GnssSatellites::Initialize(const std::vector<Sp3FileReader>& sp3_files, con
   if (nearest_epoch_id >= half_interpolation_number) {
     reference_interpolation_id_ = nearest_epoch_id - half_interpolation_number;
   }
+  // Keep all the interpolation points inside the last file
+  const size_t number_of_epoch = initial_sp3_file.GetNumberOfEpoch();
+  if (sp3_file_id_ + 1 >= sp3_files_.size() && number_of_epoch >= kNumberOfInterpolation) {
+    reference_interpolation_id_ = std::min(reference_interpolation_id_, number_of_epoch - kNumberOfInterpolation);
+  }
   reference_time_ = time_system::EpochTime(initial_sp3_file.GetEpochData(reference_interpolation_id_));
 
   // Initialize orbit
@@ -128,6 +135,8 @@ bool GnssSatellites::GetCurrentSp3File(Sp3FileReader& current_sp3_file, const ti
 }
 
 bool GnssSatellites::UpdateInterpolationInformation() {
+  if (sp3_file_id_ >= sp3_files_.size()) return false;  // No more data
+
   Sp3FileReader sp3_file = sp3_files_[sp3_file_id_];
 
   for (size_t gnss_id = 0; gnss_id < number_of_calculated_gnss_satellites_; gnss_id++) {
-- 
2.43.0


From 6558294091f73f5df3d50d8a20696392b50e6ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:43 +0000
Subject: [PATCH 108/149] fix: the interpolation of the GNSS satellites fell
 behind when the simulation step is longer than the interval of the SP3 file

---
 src/environment/global/gnss_satellites.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/environment/global/gnss_satellites.cpp b/src/environment/global/gnss_satellites.cpp
index fb25776..0effd83 100644
--- a/src/environment/global/gnss_satellites.cpp
+++ b/src/environment/global/gnss_satellites.cpp
@@ -76,8 +76,9 @@ void GnssSatellites::Update(const SimulationTime& simulation_time) {
   // Check interpolation update
   double diff_s = current_epoch_time_.GetTimeWithFraction_s() - reference_time_.GetTimeWithFraction_s();
   double medium_time_s = orbit_[0].GetTimeList()[4];
-  if (diff_s > medium_time_s) {
-    UpdateInterpolationInformation();
+  while (diff_s > medium_time_s) {
+    if (!UpdateInterpolationInformation()) break;
+    medium_time_s = orbit_[0].GetTimeList()[4];
   }
 
   return;
-- 
2.43.0


From f80e2a459abd35b54b2fdf64b71ac48f26ece0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:14 +0000
Subject: [PATCH 109/149] fix: the initial interpolation points of the GNSS
 satellites were incomplete when an SP3 file repeats the last epoch of the
 previous one

---
 src/environment/global/gnss_satellites.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/environment/global/gnss_satellites.cpp b/src/environment/global/gnss_satellites.cpp
index 0effd83..05c364f 100644
--- a/src/environment/global/gnss_satellites.cpp
+++ b/src/environment/global/gnss_satellites.cpp
@@ -57,8 +57,8 @@ void GnssSatellites::Initialize(const std::vector<Sp3FileReader>& sp3_files, con
   clock_.assign(number_of_calculated_gnss_satellites_, math::Interpolation(temp, temp));
 
   // Initialize interpolation
-  for (size_t i = 0; i < kNumberOfInterpolation; i++) {
-    UpdateInterpolationInformation();
+  while (orbit_[0].GetTimeList().front() < 0.0) {
+    if (!UpdateInterpolationInformation()) break;
   }
 
   return;
-- 
2.43.0


From ec1b38f737e04a9188796ec1a0dde361cbd13dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:14 +0000
Subject: [PATCH 110/149] fix: a simulation outside of the SP3 files ended in a
 crash after reporting the error

---
 src/environment/global/gnss_satellites.cpp | 3 +++
 src/environment/global/gnss_satellites.hpp | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/environment/global/gnss_satellites.cpp b/src/environment/global/gnss_satellites.cpp
index 05c364f..1705567 100644
--- a/src/environment/global/gnss_satellites.cpp
+++ b/src/environment/global/gnss_satellites.cpp
@@ -73,6 +73,9 @@ void GnssSatellites::Update(const SimulationTime& simulation_time) {
                                           (size_t)current_utc.minute, current_utc.second);
   current_epoch_time_ = time_system::EpochTime(current_date_time);
 
+  // No orbit data is available when the initialization failed
+  if (orbit_.empty()) return;
+
   // Check interpolation update
   double diff_s = current_epoch_time_.GetTimeWithFraction_s() - reference_time_.GetTimeWithFraction_s();
   double medium_time_s = orbit_[0].GetTimeList()[4];
diff --git a/src/environment/global/gnss_satellites.hpp b/src/environment/global/gnss_satellites.hpp
index 065dc58..9a10f77 100644
--- a/src/environment/global/gnss_satellites.hpp
+++ b/src/environment/global/gnss_satellites.hpp
@@ -116,8 +116,8 @@ class GnssSatellites : public logger::ILoggable {
   bool is_calc_enabled_ = false;  //!< Flag to manage the GNSS satellite position calculation
 
   std::vector<gnss::Sp3FileReader> sp3_files_;   //!< List of SP3 files
-  size_t number_of_calculated_gnss_satellites_;  //!< Number of calculated GNSS satellites
-  size_t sp3_file_id_;                           //!< Current SP3 file ID
+  size_t number_of_calculated_gnss_satellites_ = 0;  //!< Number of calculated GNSS satellites
+  size_t sp3_file_id_ = 0;                           //!< Current SP3 file ID
   time_system::EpochTime reference_time_;        //!< Reference start time of the SP3 handling
   size_t reference_interpolation_id_ = 0;        //!< Reference epoch ID of the interpolation
   time_system::EpochTime current_epoch_time_;    //!< The last updated time
-- 
2.43.0


From 282b8d4c6a49e657a882f4fc8285f27ae6ecc384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:10 +0000
Subject: [PATCH 111/149] fix: the relative attitude of spacecraft was composed
 in the wrong order

---
 src/simulation/multiple_spacecraft/relative_information.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/multiple_spacecraft/relative_information.cpp b/src/simulation/multiple_spacecraft/relative_information.cpp
index 3aed97e..aeb3226 100644
--- a/src/simulation/multiple_spacecraft/relative_information.cpp
+++ b/src/simulation/multiple_spacecraft/relative_information.cpp
@@ -121,7 +121,7 @@ math::Quaternion RelativeInformation::CalcRelativeAttitudeQuaternion(const size_
   // ECI frame(i) -> Target SC body frame(main_sat)
   math::Quaternion q_target_i2b = dynamics_database_.at(target_spacecraft_id)->GetAttitude().GetQuaternion_i2b();
 
-  return q_target_i2b * q_reference_b2i;
+  return q_reference_b2i * q_target_i2b;
 }
 
 math::Vector<3> RelativeInformation::CalcRelativePosition_rtn_m(const size_t target_spacecraft_id, const size_t reference_spacecraft_id) {
-- 
2.43.0


From 50f9187a60f7ac63766f64a58839c50081093b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:43 +0000
Subject: [PATCH 112/149] fix: every ground station read the settings file of
 the first one

---
 src/simulation/ground_station/ground_station.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/ground_station/ground_station.cpp b/src/simulation/ground_station/ground_station.cpp
index 2c06c7b..6b24670 100644
--- a/src/simulation/ground_station/ground_station.cpp
+++ b/src/simulation/ground_station/ground_station.cpp
@@ -27,7 +27,7 @@ GroundStation::GroundStation(const simulation::SimulationConfiguration* configur
 GroundStation::~GroundStation() {}
 
 void GroundStation::Initialize(const simulation::SimulationConfiguration* configuration, const unsigned int ground_station_id) {
-  std::string gs_ini_path = configuration->ground_station_file_list_[0];
+  std::string gs_ini_path = configuration->ground_station_file_list_[ground_station_id];
   auto conf = setting_file_reader::IniAccess(gs_ini_path);
 
   const char* section_base = "GROUND_STATION_";
-- 
2.43.0


From 747bded325da593aaa69dda78610de2799c4cb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:19 +0000
Subject: [PATCH 113/149] fix: half of the directions of an antenna radiation
 pattern got the gain of phi = 0

---
 .../real/communication/antenna_radiation_pattern.cpp     | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/components/real/communication/antenna_radiation_pattern.cpp b/src/components/real/communication/antenna_radiation_pattern.cpp
index b1a3bce..3833730 100644
--- a/src/components/real/communication/antenna_radiation_pattern.cpp
+++ b/src/components/real/communication/antenna_radiation_pattern.cpp
@@ -26,6 +26,15 @@ double AntennaRadiationPattern::GetGain_dBi(const double theta_rad, const double
   // Argument check
   double theta_rad_clipped = theta_rad;
   double phi_rad_clipped = phi_rad;
+  // A negative phi is the same direction as phi + 2pi, or (pattern with theta up to 2pi) as the direction (2pi - theta, phi + pi)
+  if (phi_rad_clipped < 0.0) {
+    if (theta_max_rad_ > 1.5 * math::pi && phi_max_rad_ < 1.5 * math::pi) {
+      theta_rad_clipped = math::tau - theta_rad_clipped;
+      phi_rad_clipped += math::pi;
+    } else {
+      phi_rad_clipped += math::tau;
+    }
+  }
   if (theta_rad_clipped < 0.0) theta_rad_clipped = 0.0;
   if (theta_rad_clipped > theta_max_rad_) theta_rad_clipped = theta_max_rad_;
   if (phi_rad_clipped < 0.0) phi_rad_clipped = 0.0;
-- 
2.43.0


From b6ada2462234e73628168a2ee1b1bf25ec0b531b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:19 +0000
Subject: [PATCH 114/149] fix: the rotations to the antenna frames were
 composed in the wrong order

---
 .../real/communication/ground_station_calculator.cpp          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/communication/ground_station_calculator.cpp b/src/components/real/communication/ground_station_calculator.cpp
index bec0c2f..18ef915 100644
--- a/src/components/real/communication/ground_station_calculator.cpp
+++ b/src/components/real/communication/ground_station_calculator.cpp
@@ -79,7 +79,7 @@ double GroundStationCalculator::CalcCn0OnGs(const dynamics::Dynamics& dynamics,
   // GS direction on SC TX antenna frame
   math::Vector<3> sc_to_gs_i = gs_pos_i - sc_pos_i;
   sc_to_gs_i = sc_to_gs_i.CalcNormalizedVector();
-  math::Quaternion q_i_to_sc_ant = spacecraft_tx_antenna.GetQuaternion_b2c() * dynamics.GetAttitude().GetQuaternion_i2b();
+  math::Quaternion q_i_to_sc_ant = dynamics.GetAttitude().GetQuaternion_i2b() * spacecraft_tx_antenna.GetQuaternion_b2c();
   math::Vector<3> gs_direction_on_sc_frame = q_i_to_sc_ant.FrameConversion(sc_to_gs_i);
   double theta_on_sc_antenna_rad = acos(gs_direction_on_sc_frame[2]);
   double phi_on_sc_antenna_rad = atan2(gs_direction_on_sc_frame[1], gs_direction_on_sc_frame[0]);
@@ -87,7 +87,7 @@ double GroundStationCalculator::CalcCn0OnGs(const dynamics::Dynamics& dynamics,
   // SC direction on GS RX antenna frame
   math::Vector<3> gs_to_sc_ecef = dynamics.GetOrbit().GetPosition_ecef_m() - ground_station.GetPosition_ecef_m();
   gs_to_sc_ecef = gs_to_sc_ecef.CalcNormalizedVector();
-  math::Quaternion q_ecef_to_gs_ant = ground_station_rx_antenna.GetQuaternion_b2c() * ground_station.GetGeodeticPosition().GetQuaternionXcxfToLtc();
+  math::Quaternion q_ecef_to_gs_ant = ground_station.GetGeodeticPosition().GetQuaternionXcxfToLtc() * ground_station_rx_antenna.GetQuaternion_b2c();
   math::Vector<3> sc_direction_on_gs_frame = q_ecef_to_gs_ant.FrameConversion(gs_to_sc_ecef);
   double theta_on_gs_antenna_rad = acos(sc_direction_on_gs_frame[2]);
   double phi_on_gs_antenna_rad = atan2(sc_direction_on_gs_frame[1], sc_direction_on_gs_frame[0]);
-- 
2.43.0


From 72884f57b72b16516c2bb155aaa80eabe80b6ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:19 +0000
Subject: [PATCH 115/149] fix: a direction exactly on the axis of an antenna
 could give an undefined gain

---
 .../real/communication/ground_station_calculator.cpp         | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/components/real/communication/ground_station_calculator.cpp b/src/components/real/communication/ground_station_calculator.cpp
index 18ef915..83e2a5d 100644
--- a/src/components/real/communication/ground_station_calculator.cpp
+++ b/src/components/real/communication/ground_station_calculator.cpp
@@ -5,6 +5,7 @@
 
 #include "ground_station_calculator.hpp"
 
+#include <algorithm>
 #include <environment/global/physical_constants.hpp>
 #include <math_physics/math/constants.hpp>
 #include <setting_file_reader/initialize_file_access.hpp>
@@ -81,7 +82,7 @@ double GroundStationCalculator::CalcCn0OnGs(const dynamics::Dynamics& dynamics,
   sc_to_gs_i = sc_to_gs_i.CalcNormalizedVector();
   math::Quaternion q_i_to_sc_ant = dynamics.GetAttitude().GetQuaternion_i2b() * spacecraft_tx_antenna.GetQuaternion_b2c();
   math::Vector<3> gs_direction_on_sc_frame = q_i_to_sc_ant.FrameConversion(sc_to_gs_i);
-  double theta_on_sc_antenna_rad = acos(gs_direction_on_sc_frame[2]);
+  double theta_on_sc_antenna_rad = acos((std::min)((std::max)(gs_direction_on_sc_frame[2], -1.0), 1.0));
   double phi_on_sc_antenna_rad = atan2(gs_direction_on_sc_frame[1], gs_direction_on_sc_frame[0]);
 
   // SC direction on GS RX antenna frame
@@ -89,7 +90,7 @@ double GroundStationCalculator::CalcCn0OnGs(const dynamics::Dynamics& dynamics,
   gs_to_sc_ecef = gs_to_sc_ecef.CalcNormalizedVector();
   math::Quaternion q_ecef_to_gs_ant = ground_station.GetGeodeticPosition().GetQuaternionXcxfToLtc() * ground_station_rx_antenna.GetQuaternion_b2c();
   math::Vector<3> sc_direction_on_gs_frame = q_ecef_to_gs_ant.FrameConversion(gs_to_sc_ecef);
-  double theta_on_gs_antenna_rad = acos(sc_direction_on_gs_frame[2]);
+  double theta_on_gs_antenna_rad = acos((std::min)((std::max)(sc_direction_on_gs_frame[2], -1.0), 1.0));
   double phi_on_gs_antenna_rad = atan2(sc_direction_on_gs_frame[1], sc_direction_on_gs_frame[0]);
 
   // Calc CN0
-- 
2.43.0


From f296cea064e29889a84663fafff723afe8ee26aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:35 +0000
Subject: [PATCH 116/149] fix: the end of the star catalogue was added as a
 star with undefined values

---
 src/environment/global/hipparcos_catalogue.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/environment/global/hipparcos_catalogue.cpp b/src/environment/global/hipparcos_catalogue.cpp
index 8888085..86ffef8 100644
--- a/src/environment/global/hipparcos_catalogue.cpp
+++ b/src/environment/global/hipparcos_catalogue.cpp
@@ -32,16 +32,15 @@ bool HipparcosCatalogue::ReadContents(const std::string& file_name, const char d
 
   std::string title;
   ifs >> title;  // Skip title
-  while (!ifs.eof()) {
+  std::string line;
+  while (ifs >> line) {
     HipparcosData hipparcos_data;
-
-    std::string line;
-    ifs >> line;
     std::replace(line.begin(), line.end(), delimiter, ' ');  // Convert delimiter as space for stringstream
     std::istringstream streamline(line);
 
     streamline >> hipparcos_data.hipparcos_id >> hipparcos_data.visible_magnitude >> hipparcos_data.right_ascension_deg >>
         hipparcos_data.declination_deg;
+    if (streamline.fail()) continue;  // Skip lines which do not have all values of a star
 
     if (hipparcos_data.visible_magnitude > max_magnitude_) {
       return true;
-- 
2.43.0


From f85c6c9bf9f94ee0c6e8ba28ec5d071c57295e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:54 +0000
Subject: [PATCH 117/149] fix: the telescope read beyond an empty star
 catalogue

---
 src/components/real/mission/telescope.cpp | 30 ++++++++++-------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/components/real/mission/telescope.cpp b/src/components/real/mission/telescope.cpp
index cf17359..888cd75 100644
--- a/src/components/real/mission/telescope.cpp
+++ b/src/components/real/mission/telescope.cpp
@@ -120,7 +120,7 @@ void Telescope::ObserveStars() {
   star_list_in_sight.clear();  // Clear first
   size_t count = 0;            // Counter for while loop
 
-  while (star_list_in_sight.size() < number_of_logged_stars_) {
+  while (star_list_in_sight.size() < number_of_logged_stars_ && count < hipparcos_->GetCatalogueSize()) {
     math::Vector<3> target_b = hipparcos_->GetStarDirection_b(count, quaternion_i2b);
     math::Vector<3> target_c = quaternion_b2c_.FrameConversion(target_b);
 
@@ -140,23 +140,19 @@ void Telescope::ObserveStars() {
     }
 
     count++;
+  }
 
-    // If read all catalogue, fill -1 and break the loop
-    if (count >= hipparcos_->GetCatalogueSize()) {
-      while (star_list_in_sight.size() < number_of_logged_stars_) {
-        Star star;
-        star.hipparcos_data.hipparcos_id = -1;
-        star.hipparcos_data.visible_magnitude = -1;
-        star.hipparcos_data.right_ascension_deg = -1;
-        star.hipparcos_data.declination_deg = -1;
-        star.position_image_sensor[0] = -1;
-        star.position_image_sensor[1] = -1;
-
-        star_list_in_sight.push_back(star);
-      }
-
-      break;
-    }
+  // If read all catalogue, fill -1
+  while (star_list_in_sight.size() < number_of_logged_stars_) {
+    Star star;
+    star.hipparcos_data.hipparcos_id = -1;
+    star.hipparcos_data.visible_magnitude = -1;
+    star.hipparcos_data.right_ascension_deg = -1;
+    star.hipparcos_data.declination_deg = -1;
+    star.position_image_sensor[0] = -1;
+    star.position_image_sensor[1] = -1;
+
+    star_list_in_sight.push_back(star);
   }
 }
 
-- 
2.43.0


From 8e21e1c208fde77525c9fd735286a0013a2ef8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:18 +0000
Subject: [PATCH 118/149] fix: the telescope saw twice the field of view given
 by its pixels

---
 src/components/real/mission/telescope.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/components/real/mission/telescope.cpp b/src/components/real/mission/telescope.cpp
index 888cd75..9d26811 100644
--- a/src/components/real/mission/telescope.cpp
+++ b/src/components/real/mission/telescope.cpp
@@ -105,9 +105,9 @@ void Telescope::Observe(math::Vector<2>& position_image_sensor, const math::Vect
   double arg_x = atan2(target_c[2], target_c[0]);  // Angle from X-axis on XZ plane in the component frame
   double arg_y = atan2(target_c[1], target_c[0]);  // Angle from X-axis on XY plane in the component frame
 
-  if (abs(arg_x) < x_field_of_view_rad && abs(arg_y) < y_field_of_view_rad) {
-    position_image_sensor[0] = x_number_of_pix_ / 2 * tan(arg_x) / tan(x_field_of_view_rad) + x_number_of_pix_ / 2;
-    position_image_sensor[1] = y_number_of_pix_ / 2 * tan(arg_y) / tan(y_field_of_view_rad) + y_number_of_pix_ / 2;
+  if (abs(arg_x) < x_field_of_view_rad / 2.0 && abs(arg_y) < y_field_of_view_rad / 2.0) {
+    position_image_sensor[0] = x_number_of_pix_ / 2 * tan(arg_x) / tan(x_field_of_view_rad / 2.0) + x_number_of_pix_ / 2;
+    position_image_sensor[1] = y_number_of_pix_ / 2 * tan(arg_y) / tan(y_field_of_view_rad / 2.0) + y_number_of_pix_ / 2;
   } else {  // Return -1 when the body is in the out of FoV
     position_image_sensor[0] = -1;
     position_image_sensor[1] = -1;
@@ -127,14 +127,14 @@ void Telescope::ObserveStars() {
     double arg_x = atan2(target_c[2], target_c[0]);  // Angle from X-axis on XZ plane in the component frame
     double arg_y = atan2(target_c[1], target_c[0]);  // Angle from X-axis on XY plane in the component frame
 
-    if (abs(arg_x) <= x_field_of_view_rad && abs(arg_y) <= y_field_of_view_rad) {
+    if (abs(arg_x) <= x_field_of_view_rad / 2.0 && abs(arg_y) <= y_field_of_view_rad / 2.0) {
       Star star;
       star.hipparcos_data.hipparcos_id = hipparcos_->GetHipparcosId(count);
       star.hipparcos_data.visible_magnitude = hipparcos_->GetVisibleMagnitude(count);
       star.hipparcos_data.right_ascension_deg = hipparcos_->GetRightAscension_deg(count);
       star.hipparcos_data.declination_deg = hipparcos_->GetDeclination_deg(count);
-      star.position_image_sensor[0] = x_number_of_pix_ / 2.0 * tan(arg_x) / tan(x_field_of_view_rad) + x_number_of_pix_ / 2.0;
-      star.position_image_sensor[1] = y_number_of_pix_ / 2.0 * tan(arg_y) / tan(y_field_of_view_rad) + y_number_of_pix_ / 2.0;
+      star.position_image_sensor[0] = x_number_of_pix_ / 2.0 * tan(arg_x) / tan(x_field_of_view_rad / 2.0) + x_number_of_pix_ / 2.0;
+      star.position_image_sensor[1] = y_number_of_pix_ / 2.0 * tan(arg_y) / tan(y_field_of_view_rad / 2.0) + y_number_of_pix_ / 2.0;
 
       star_list_in_sight.push_back(star);
     }
-- 
2.43.0


From 86eb5438a0653fa2ad7ed6733564ae1942c39af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:18 +0000
Subject: [PATCH 119/149] fix: bodies were shifted on images with an odd number
 of pixels

---
 src/components/real/mission/telescope.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/mission/telescope.cpp b/src/components/real/mission/telescope.cpp
index 9d26811..8b9bd83 100644
--- a/src/components/real/mission/telescope.cpp
+++ b/src/components/real/mission/telescope.cpp
@@ -106,8 +106,8 @@ void Telescope::Observe(math::Vector<2>& position_image_sensor, const math::Vect
   double arg_y = atan2(target_c[1], target_c[0]);  // Angle from X-axis on XY plane in the component frame
 
   if (abs(arg_x) < x_field_of_view_rad / 2.0 && abs(arg_y) < y_field_of_view_rad / 2.0) {
-    position_image_sensor[0] = x_number_of_pix_ / 2 * tan(arg_x) / tan(x_field_of_view_rad / 2.0) + x_number_of_pix_ / 2;
-    position_image_sensor[1] = y_number_of_pix_ / 2 * tan(arg_y) / tan(y_field_of_view_rad / 2.0) + y_number_of_pix_ / 2;
+    position_image_sensor[0] = x_number_of_pix_ / 2.0 * tan(arg_x) / tan(x_field_of_view_rad / 2.0) + x_number_of_pix_ / 2.0;
+    position_image_sensor[1] = y_number_of_pix_ / 2.0 * tan(arg_y) / tan(y_field_of_view_rad / 2.0) + y_number_of_pix_ / 2.0;
   } else {  // Return -1 when the body is in the out of FoV
     position_image_sensor[0] = -1;
     position_image_sensor[1] = -1;
-- 
2.43.0


From a4f48892df0c6c56fed562cfe51273bdc437b9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:18 +0000
Subject: [PATCH 120/149] fix: the ground point outside of the image of the
 telescope was reported every second time

---
 src/components/real/mission/telescope.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/components/real/mission/telescope.cpp b/src/components/real/mission/telescope.cpp
index 8b9bd83..85d1ed1 100644
--- a/src/components/real/mission/telescope.cpp
+++ b/src/components/real/mission/telescope.cpp
@@ -161,13 +161,6 @@ void Telescope::ObserveGroundPositionDeviation() {
   if (orbit_ == nullptr) {
     return;
   }
-  // Check if the ground point is in the image sensor
-  if (ground_position_x_image_sensor_ > x_number_of_pix_ || ground_position_y_image_sensor_ > y_number_of_pix_) {
-    ground_position_x_image_sensor_ = -1;
-    ground_position_y_image_sensor_ = -1;
-    return;
-  }
-
   math::Quaternion quaternion_i2b = attitude_->GetQuaternion_i2b();
   math::Vector<3> spacecraft_position_ecef_m = orbit_->GetPosition_ecef_m();
   math::Vector<3> direction_ecef = (initial_ground_position_ecef_m_ - spacecraft_position_ecef_m).CalcNormalizedVector();
@@ -181,6 +174,12 @@ void Telescope::ObserveGroundPositionDeviation() {
   ground_position_x_image_sensor_ = ground_angle_z_rad / x_fov_per_pix_;
   double ground_angle_y_rad = atan2(target_c[1], target_c[0]);
   ground_position_y_image_sensor_ = ground_angle_y_rad / y_fov_per_pix_;
+
+  // Check if the ground point is in the image sensor
+  if (std::abs(ground_position_x_image_sensor_) > x_number_of_pix_ / 2.0 || std::abs(ground_position_y_image_sensor_) > y_number_of_pix_ / 2.0) {
+    ground_position_x_image_sensor_ = -1;
+    ground_position_y_image_sensor_ = -1;
+  }
 }
 
 std::string Telescope::GetLogHeader() const {
-- 
2.43.0


From 865b733a07d59e88f6462a9dcef455ed7949e485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:07 +0000
Subject: [PATCH 121/149] fix: a blank or incomplete line of a WINGS operation
 file was read beyond its end

---
 .../real/communication/wings_command_sender_to_c2a.cpp       | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/components/real/communication/wings_command_sender_to_c2a.cpp b/src/components/real/communication/wings_command_sender_to_c2a.cpp
index ae3989f..c40e537 100644
--- a/src/components/real/communication/wings_command_sender_to_c2a.cpp
+++ b/src/components/real/communication/wings_command_sender_to_c2a.cpp
@@ -53,10 +53,12 @@ void WingsCommandSenderToC2a::ExecuteCommandLine(const std::string line) {
     tokens.push_back(token);
   }
 
+  if (tokens.empty()) return;  // Line only with spaces
+
   // Handle WINGS commands
   if (tokens[0].find("wait_sec") == 0) {
     // wait process
-    wait_s_ = std::stod(tokens[1]);
+    wait_s_ = (tokens.size() > 1) ? std::stod(tokens[1]) : 0.0;
   } else if (tokens[0].find("check_value") == 0) {
     // TODO: Support check_value
     wait_s_ = 0;
@@ -106,6 +108,7 @@ void WingsCommandSenderToC2a::AnalyzeC2aCommand(const std::vector<std::string> t
   // Read TI
   uint32_t ti = 0;
   if (command_type == "TL" || command_type == "BL") {
+    if (arguments.empty()) return;
     ti = (uint32_t)std::stoi(arguments[0]);
     arguments.erase(arguments.begin());
   }
-- 
2.43.0


From 6574c6e693097cd6cfcc0a602b8e453e9019d0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:07 +0000
Subject: [PATCH 122/149] fix: a command which is not in the database was sent
 as the command 0

---
 .../real/communication/wings_command_sender_to_c2a.cpp         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/components/real/communication/wings_command_sender_to_c2a.cpp b/src/components/real/communication/wings_command_sender_to_c2a.cpp
index c40e537..08fac2e 100644
--- a/src/components/real/communication/wings_command_sender_to_c2a.cpp
+++ b/src/components/real/communication/wings_command_sender_to_c2a.cpp
@@ -79,7 +79,7 @@ void WingsCommandSenderToC2a::AnalyzeC2aCommand(const std::vector<std::string> t
   size_t first_underscore_position = tokens[0].find('_');
   if (first_underscore_position == std::string::npos) return;
   size_t first_dot_position = tokens[0].find('.');
-  if (first_underscore_position == std::string::npos) return;
+  if (first_dot_position == std::string::npos) return;
 
   std::string target_name = tokens[0].substr(0, first_underscore_position);
   // TODO check target?
@@ -90,6 +90,7 @@ void WingsCommandSenderToC2a::AnalyzeC2aCommand(const std::vector<std::string> t
   s2e::setting_file_reader::C2aCommandInformation cmd_info = c2a_command_database_.GetCommandInformation(command_name);
   if (cmd_info.GetCommandName() == "Error") {
     // TODO: error handling
+    return;
   }
   CMD_CODE cmd_id = (CMD_CODE)cmd_info.GetCommandId();
 
-- 
2.43.0


From 2685b096508431dc468bfa8339f4ac895b0d9002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:28 +0000
Subject: [PATCH 123/149] fix: dates which could not be read had undefined
 values

---
 src/math_physics/gnss/sp3_file_reader.cpp         |  8 ++++----
 src/math_physics/gnss/sp3_file_reader.hpp         |  6 +++---
 src/math_physics/time_system/date_time_format.hpp | 12 ++++++------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index ffec145..f5105ac 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -68,8 +68,8 @@ bool Sp3FileReader::ReadFile(const std::string file_name) {
       std::cout << "[Warning] SP3 file Epoch line first character error: " << line << std::endl;
       return false;
     }
-    size_t year, month, day, hour, minute;
-    double second;
+    size_t year = 0, month = 1, day = 1, hour = 0, minute = 0;
+    double second = 0.0;
     sscanf(line.substr(3, 28).c_str(), "%zu %2zu %2zu %2zu %2zu %12lf", &year, &month, &day, &hour, &minute, &second);
     epoch_.push_back(time_system::DateTime(year, month, day, hour, minute, second));
 
@@ -164,8 +164,8 @@ size_t Sp3FileReader::ReadHeader(std::ifstream& sp3_file) {
     header_.mode_ = Sp3Mode::kOther;
     std::cout << "[Warning] SP3 file mode is undefined: " << line << std::endl;
   }
-  size_t year, month, day, hour, minute;
-  double second;
+  size_t year = 0, month = 1, day = 1, hour = 0, minute = 0;
+  double second = 0.0;
   sscanf(line.substr(3, 28).c_str(), "%zu %2zu %2zu %2zu %2zu %12lf", &year, &month, &day, &hour, &minute, &second);
   header_.start_epoch_ = time_system::DateTime(year, month, day, hour, minute, second);
   header_.number_of_epoch_ = std::stoi(line.substr(32, 7));
diff --git a/src/math_physics/gnss/sp3_file_reader.hpp b/src/math_physics/gnss/sp3_file_reader.hpp
index 4e98933..0f26ffb 100644
--- a/src/math_physics/gnss/sp3_file_reader.hpp
+++ b/src/math_physics/gnss/sp3_file_reader.hpp
@@ -51,18 +51,18 @@ enum class Sp3OrbitType {
 struct Sp3Header {
   // 1st line information
   // version -> not implemented yet
-  Sp3Mode mode_;                       //!< position or velocity
+  Sp3Mode mode_ = Sp3Mode::kOther;                       //!< position or velocity
   time_system::DateTime start_epoch_;  //!< Time of start epoch
   size_t number_of_epoch_ = 0;         //!< Number of epoch in the SP3 file
   std::string used_data_;              //!< Used data to generate the SP3 file
   std::string coordinate_system_;      //!< Coordinate system for the position and velocity data
-  Sp3OrbitType orbit_type_;            //!< Orbit type
+  Sp3OrbitType orbit_type_ = Sp3OrbitType::kOther;            //!< Orbit type
   std::string agency_name_;            //!< Agency name who generates the SP3 file
 
   // 2nd line information
   time_system::GpsTime start_gps_time_;           //!< Start time of orbit
   double epoch_interval_s_ = 1.0;                 //!< Epoch interval (0.0, 100000.0)
-  size_t start_time_mjday_;                       //!< Start time of the orbit data (44244 = 6th Jan. 1980) [Modified Julian day]
+  size_t start_time_mjday_ = 0;                       //!< Start time of the orbit data (44244 = 6th Jan. 1980) [Modified Julian day]
   double start_time_mjday_fractional_day_ = 0.0;  //!< Fractional part of the start time [0.0, 1.0) [day]
 
   // 3rd line information
diff --git a/src/math_physics/time_system/date_time_format.hpp b/src/math_physics/time_system/date_time_format.hpp
index 540c6fe..bdf886b 100644
--- a/src/math_physics/time_system/date_time_format.hpp
+++ b/src/math_physics/time_system/date_time_format.hpp
@@ -54,12 +54,12 @@ class DateTime {
   std::string GetAsString() const;
 
  private:
-  size_t year_;    //!< Year [0, -]
-  size_t month_;   //!< Month [1, 12]
-  size_t day_;     //!< Day [1 to 31]
-  size_t hour_;    //!< Hour [0 to 23]
-  size_t minute_;  //!< Minute [0 to 59]
-  double second_;  //!< Second [0.0, 60.0)
+  size_t year_ = 0;    //!< Year [0, -]
+  size_t month_ = 1;   //!< Month [1, 12]
+  size_t day_ = 1;     //!< Day [1 to 31]
+  size_t hour_ = 0;    //!< Hour [0 to 23]
+  size_t minute_ = 0;  //!< Minute [0 to 59]
+  double second_ = 0.0;  //!< Second [0.0, 60.0)
 };
 
 }  // namespace s2e::time_system
-- 
2.43.0


From 619bfcad27d81d2abf826020ce62d6b4a188804d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:28 +0000
Subject: [PATCH 124/149] fix: seconds of a date which are negative or too
 large were converted to an undefined integer

---
 src/math_physics/time_system/epoch_time.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math_physics/time_system/epoch_time.cpp b/src/math_physics/time_system/epoch_time.cpp
index 09e853d..a25a9ff 100644
--- a/src/math_physics/time_system/epoch_time.cpp
+++ b/src/math_physics/time_system/epoch_time.cpp
@@ -18,13 +18,13 @@ EpochTime::EpochTime(const DateTime date_time) {
   const size_t day = date_time.GetDay();
   const size_t hour = date_time.GetHour();
   const size_t minute = date_time.GetMinute();
-  const size_t second = (size_t)std::floor(date_time.GetSecond());
 
   // TODO: assertion
   if (year < 1970 || month < 1 || 12 < month) return;
   if (day < 1 || 32 <= day) return;
   if (60 <= minute) return;
-  if (60 <= second) return;
+  if (!(0.0 <= date_time.GetSecond() && date_time.GetSecond() < 60.0)) return;
+  const size_t second = (size_t)std::floor(date_time.GetSecond());
 
   // leap year if year%4==0 in 1901-2099
   uint64_t days = (year - 1970) * 365 + (year - 1969) / 4 + doy[month - 1] + day - 2 + (year % 4 == 0 && month >= 3 ? 1 : 0);
-- 
2.43.0


From 8574245c764ca1ca3e160cd264a11822a0bab5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:28 +0000
Subject: [PATCH 125/149] fix: the first line of an SP3 file was read beyond
 its end when it is too short

---
 src/math_physics/gnss/sp3_file_reader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index f5105ac..2d0ec8e 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -156,9 +156,10 @@ size_t Sp3FileReader::ReadHeader(std::ifstream& sp3_file) {
     std::cout << "We recommend to use SP3-d. " << std::endl;
   }
   // Read contents
-  if (line[2] == 'P') {
+  const std::string mode = line.substr(2, 1);
+  if (mode == "P") {
     header_.mode_ = Sp3Mode::kPosition;
-  } else if (line[2] == 'V') {
+  } else if (mode == "V") {
     header_.mode_ = Sp3Mode::kVelocity;
   } else {
     header_.mode_ = Sp3Mode::kOther;
-- 
2.43.0


From 3a6585703239fd0dbbf21d28607670ccf0cce0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:28 +0000
Subject: [PATCH 126/149] fix: an SP3 file which ends too early was read
 without an end or its last line was taken for all other satellites

---
 src/math_physics/gnss/sp3_file_reader.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index 2d0ec8e..eaa6587 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -63,7 +63,7 @@ bool Sp3FileReader::ReadFile(const std::string file_name) {
   for (size_t epoch_id = 0; epoch_id < header_.number_of_epoch_; epoch_id++) {
     std::string line;
     // Epoch information
-    std::getline(sp3_file, line);
+    if (!std::getline(sp3_file, line)) return false;
     if (line.find("* ") != 0) {
       std::cout << "[Warning] SP3 file Epoch line first character error: " << line << std::endl;
       return false;
@@ -75,7 +75,7 @@ bool Sp3FileReader::ReadFile(const std::string file_name) {
 
     // Orbit and Clock information
     for (size_t satellite_id = 0; satellite_id < header_.number_of_satellites_; satellite_id++) {
-      std::getline(sp3_file, line);
+      if (!std::getline(sp3_file, line)) return false;
       // Position and Clock
       if (line.find("P") != 0) {
         std::cout << "[Warning] SP3 file position and clock data first character error: " << line << std::endl;
@@ -96,7 +96,7 @@ bool Sp3FileReader::ReadFile(const std::string file_name) {
 
       // Velocity and Clock rate
       if (header_.mode_ == Sp3Mode::kVelocity) {
-        std::getline(sp3_file, line);
+        if (!std::getline(sp3_file, line)) return false;
         // Position and Clock
         if (line.find("V") != 0) {
           std::cout << "[Warning] SP3 file position and clock data first character error: " << line << std::endl;
@@ -220,7 +220,7 @@ size_t Sp3FileReader::ReadHeader(std::ifstream& sp3_file) {
       header_.satellite_ids_.push_back(line.substr(9 + i * 3, 3));
     }
     line_number++;
-    std::getline(sp3_file, line);
+    if (!std::getline(sp3_file, line)) return 0;
   }
   if (header_.satellite_ids_.size() != header_.number_of_satellites_) {
     std::cout << "[Warning] SP3 file number of satellite and size of satellite ID are incompatible." << std::endl;
@@ -241,7 +241,7 @@ size_t Sp3FileReader::ReadHeader(std::ifstream& sp3_file) {
       header_.satellite_accuracy_.push_back((uint8_t)stoi(line.substr(9 + i * 3, 3)));
     }
     line_number++;
-    std::getline(sp3_file, line);
+    if (!std::getline(sp3_file, line)) return 0;
   }
   if (header_.satellite_accuracy_.size() != header_.number_of_satellites_) {
     std::cout << "[Warning] SP3 file number of satellite and size of accuracy are incompatible." << std::endl;
@@ -297,7 +297,7 @@ size_t Sp3FileReader::ReadHeader(std::ifstream& sp3_file) {
   do {
     line_number++;
     pos = sp3_file.tellg();
-    std::getline(sp3_file, line);
+    if (!std::getline(sp3_file, line)) return 0;
   } while (line.find("/*") == 0);
 
   sp3_file.seekg(pos);
-- 
2.43.0


From af9afcd4efeaf2a1fdc90ed10e297d6da809c235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:28 +0000
Subject: [PATCH 127/149] fix: epochs which are not in an SP3 file were
 reported to be in it

---
 src/math_physics/gnss/sp3_file_reader.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index eaa6587..395c3b9 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -8,6 +8,7 @@
 
 #include "sp3_file_reader.hpp"
 
+#include <algorithm>
 #include <fstream>
 #include <iostream>
 
@@ -15,7 +16,17 @@ namespace s2e::gnss {
 
 const size_t kSp3LineLength = 80;  //!< Length of a full SP3-d line
 
-Sp3FileReader::Sp3FileReader(const std::string file_name) { ReadFile(file_name); }
+Sp3FileReader::Sp3FileReader(const std::string file_name) {
+  ReadFile(file_name);
+
+  // Only the epochs which have data of all satellites can be used
+  size_t number_of_epoch = epoch_.size();
+  for (size_t satellite_id = 0; satellite_id < header_.number_of_satellites_ && number_of_epoch > 0; satellite_id++) {
+    number_of_epoch = std::min(number_of_epoch, position_clock_[satellite_id].size());
+  }
+  epoch_.resize(number_of_epoch);
+  header_.number_of_epoch_ = number_of_epoch;
+}
 
 time_system::DateTime Sp3FileReader::GetEpochData(const size_t epoch_id) const {
   if (epoch_id >= epoch_.size()) {
-- 
2.43.0


From 913d1b93614d1b343913d03eaa3d8aa007c8febe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:28 +0000
Subject: [PATCH 128/149] fix: the search of the nearest epoch in an SP3 file
 without epochs or with gaps was out of range

---
 src/math_physics/gnss/sp3_file_reader.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index 395c3b9..ee42a3b 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -136,8 +136,8 @@ bool Sp3FileReader::ReadFile(const std::string file_name) {
 size_t Sp3FileReader::SearchNearestEpochId(const time_system::EpochTime time) {
   size_t nearest_epoch_id = 0;
 
-  // Get header info
-  const size_t num_epoch = header_.number_of_epoch_;
+  const size_t num_epoch = epoch_.size();
+  if (num_epoch == 0) return nearest_epoch_id;
   const double interval_s = header_.epoch_interval_s_;
 
   // Check range
@@ -148,7 +148,12 @@ size_t Sp3FileReader::SearchNearestEpochId(const time_system::EpochTime time) {
     nearest_epoch_id = num_epoch - 1;
   } else {  // Calc nearest point
     double diff_s = time.GetTimeWithFraction_s() - start_epoch.GetTimeWithFraction_s();
-    nearest_epoch_id = (size_t)(diff_s / interval_s + 0.5);
+    const double epoch_id = diff_s / interval_s + 0.5;
+    if (epoch_id < (double)num_epoch) {
+      nearest_epoch_id = epoch_id > 0.0 ? (size_t)epoch_id : 0;
+    } else {
+      nearest_epoch_id = num_epoch - 1;
+    }
   }
 
   return nearest_epoch_id;
-- 
2.43.0


From c8ff583121c8a5a99158c3e6c2c44727266443e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:28 +0000
Subject: [PATCH 129/149] fix: an antenna of a receiver whose serial number
 starts like a satellite number stopped the reading of the ANTEX file

---
 src/math_physics/gnss/gnss_satellite_number.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/math_physics/gnss/gnss_satellite_number.cpp b/src/math_physics/gnss/gnss_satellite_number.cpp
index 2241db8..ca88b42 100644
--- a/src/math_physics/gnss/gnss_satellite_number.cpp
+++ b/src/math_physics/gnss/gnss_satellite_number.cpp
@@ -8,6 +8,11 @@
 namespace s2e::gnss {
 
 size_t ConvertGnssSatelliteNumberToIndex(const std::string satellite_number) {
+  // The system is followed by one to three digits and blanks
+  const size_t end = satellite_number.find_last_not_of(' ');
+  if (end == std::string::npos || end < 1 || end > 3) return UINT32_MAX;
+  if (satellite_number.find_first_not_of("0123456789", 1) <= end) return UINT32_MAX;
+
   switch (satellite_number.front()) {
     case 'G':
       return stoi(satellite_number.substr(1)) + kGpsIndexBegin - 1;
-- 
2.43.0


From d492b437d3c54bbe96a19a4c6580692305d04cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:28 +0000
Subject: [PATCH 130/149] fix: an ANTEX file which ends inside of an antenna
 was read without an end

---
 src/math_physics/gnss/antex_file_reader.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/math_physics/gnss/antex_file_reader.cpp b/src/math_physics/gnss/antex_file_reader.cpp
index 4a3c74f..8c28297 100644
--- a/src/math_physics/gnss/antex_file_reader.cpp
+++ b/src/math_physics/gnss/antex_file_reader.cpp
@@ -90,8 +90,7 @@ void AntexFileReader::ReadAntexData(std::ifstream& antex_file) {
   AntexSatelliteData antex_data;
 
   std::string line;
-  while (1) {
-    std::getline(antex_file, line);
+  while (std::getline(antex_file, line)) {
 
     // Type and Serial No.
     if (line.find("TYPE / SERIAL NO") == ANTEX_LINE_TYPE_POSITION) {
@@ -121,8 +120,7 @@ AntexSatelliteData AntexFileReader::ReadAntexSatelliteData(std::ifstream& antex_
   std::vector<AntexPhaseCenterData> phase_center_data_list;
 
   std::string line;
-  while (1) {
-    std::getline(antex_file, line);
+  while (std::getline(antex_file, line)) {
 
     // End antenna data
     if (line.find("END OF ANTENNA") == ANTEX_LINE_TYPE_POSITION) {
@@ -160,8 +158,7 @@ AntexSatelliteData AntexFileReader::ReadAntexSatelliteData(std::ifstream& antex_
 AntexPhaseCenterData AntexFileReader::ReadPhaseCenterData(std::ifstream& antex_file, const AntexGridDefinition grid_information) {
   AntexPhaseCenterData phase_center_data;
   std::string line;
-  while (1) {
-    std::getline(antex_file, line);
+  while (std::getline(antex_file, line)) {
 
     // End antenna data
     if (line.find("END OF FREQUENCY") == ANTEX_LINE_TYPE_POSITION) {
-- 
2.43.0


From 5efff27c9981fef902ebe315cf2d1dc41d1405d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:28 +0000
Subject: [PATCH 131/149] fix: grids and dates of an ANTEX file which could not
 be read had undefined values

---
 src/math_physics/gnss/antex_file_reader.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math_physics/gnss/antex_file_reader.cpp b/src/math_physics/gnss/antex_file_reader.cpp
index 8c28297..e999d10 100644
--- a/src/math_physics/gnss/antex_file_reader.cpp
+++ b/src/math_physics/gnss/antex_file_reader.cpp
@@ -129,7 +129,7 @@ AntexSatelliteData AntexFileReader::ReadAntexSatelliteData(std::ifstream& antex_
     }
     // Grid angle definition
     if (line.find("ZEN1 / ZEN2 / DZEN") == ANTEX_LINE_TYPE_POSITION) {
-      double start, end, step;
+      double start = 0.0, end = 90.0, step = 10.0;
       sscanf(line.substr(0, 60).c_str(), "%lf %lf %lf", &start, &end, &step);
       grid = AntexGridDefinition(start, end, step);
     }
@@ -190,8 +190,8 @@ AntexPhaseCenterData AntexFileReader::ReadPhaseCenterData(std::ifstream& antex_f
 }
 
 time_system::DateTime AntexFileReader::ReadDateTime(std::string line) {
-  size_t year, month, day, hour, minute;
-  double second;
+  size_t year = 0, month = 1, day = 1, hour = 0, minute = 0;
+  double second = 0.0;
   sscanf(line.c_str(), "%zu %2zu %2zu %2zu %2zu %10lf", &year, &month, &day, &hour, &minute, &second);
   return time_system::DateTime(year, month, day, hour, minute, second);
 }
-- 
2.43.0


From 34f877e6f04a38562ecf0ab8fc2c56b8ae3be377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:48 +0000
Subject: [PATCH 132/149] fix: a grid of an ANTEX file without a valid range
 was converted to an undefined number of points

---
 src/math_physics/gnss/antex_file_reader.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/math_physics/gnss/antex_file_reader.cpp b/src/math_physics/gnss/antex_file_reader.cpp
index e999d10..541459d 100644
--- a/src/math_physics/gnss/antex_file_reader.cpp
+++ b/src/math_physics/gnss/antex_file_reader.cpp
@@ -14,23 +14,21 @@ namespace s2e::gnss {
 
 #define ANTEX_LINE_TYPE_POSITION (60)
 
+// Number of grid points, zero for a range and a step which do not define a grid
+static size_t CalcNumberOfGrid(const double range_deg, const double step_deg) {
+  const double number_of_steps = range_deg / step_deg;
+  if (!(step_deg > 0.0 && number_of_steps >= 0.0 && number_of_steps < 1e6)) return 0;
+  return size_t(number_of_steps) + 1;
+}
+
 AntexGridDefinition::AntexGridDefinition(const double zenith_start_angle_deg, const double zenith_end_angle_deg, const double zenith_step_angle_deg,
                                          const double azimuth_step_angle_deg)
     : zenith_start_angle_deg_(zenith_start_angle_deg),
       zenith_end_angle_deg_(zenith_end_angle_deg),
       zenith_step_angle_deg_(zenith_step_angle_deg),
       azimuth_step_angle_deg_(azimuth_step_angle_deg) {
-  if (zenith_step_angle_deg_ <= 0.0) {
-    number_of_zenith_grid_ = 0;
-  } else {
-    number_of_zenith_grid_ = size_t((zenith_end_angle_deg_ - zenith_start_angle_deg_) / zenith_step_angle_deg_) + 1;
-  }
-
-  if (azimuth_step_angle_deg_ <= 0.0) {
-    number_of_azimuth_grid_ = 0;
-  } else {
-    number_of_azimuth_grid_ = size_t(360.0 / azimuth_step_angle_deg_) + 1;
-  }
+  number_of_zenith_grid_ = CalcNumberOfGrid(zenith_end_angle_deg_ - zenith_start_angle_deg_, zenith_step_angle_deg_);
+  number_of_azimuth_grid_ = CalcNumberOfGrid(360.0, azimuth_step_angle_deg_);
 }
 
 size_t AntexGridDefinition::CalcClosestZenithIndex(const double zenith_angle_deg) {
-- 
2.43.0


From 08d3391c1eb97b7827dc3d74f9eaf7fc66c27e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:48 +0000
Subject: [PATCH 133/149] fix: phase center data of a frequency which does not
 exist was read beyond the list

---
 src/math_physics/gnss/antex_file_reader.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/gnss/antex_file_reader.hpp b/src/math_physics/gnss/antex_file_reader.hpp
index b463c5f..4da485f 100644
--- a/src/math_physics/gnss/antex_file_reader.hpp
+++ b/src/math_physics/gnss/antex_file_reader.hpp
@@ -251,7 +251,7 @@ class AntexSatelliteData {
    * @param[in] frequency_index: Frequency index start from 0
    * @return Antenna phase center data
    */
-  inline AntexPhaseCenterData GetPhaseCenterData(const size_t frequency_index) const { return phase_center_data_[frequency_index]; };
+  inline AntexPhaseCenterData GetPhaseCenterData(const size_t frequency_index) const { return phase_center_data_.at(frequency_index); };
 
  private:
   std::string antenna_type_;                             //!< Antenna type
-- 
2.43.0


From 45c36806d83dcad4c3b4109f4b48327da10d689e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:48 +0000
Subject: [PATCH 134/149] fix: a Bias-SINEX file which ends inside of a block
 was read without an end

---
 .../gnss/bias_sinex_file_reader.cpp            | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/math_physics/gnss/bias_sinex_file_reader.cpp b/src/math_physics/gnss/bias_sinex_file_reader.cpp
index b8a203c..d59db6e 100644
--- a/src/math_physics/gnss/bias_sinex_file_reader.cpp
+++ b/src/math_physics/gnss/bias_sinex_file_reader.cpp
@@ -74,8 +74,7 @@ bool BiasSinexFileReader::ReadFile(const std::string file_name) {
 
 void BiasSinexFileReader::ReadFileReference(std::ifstream& bias_sinex_file) {
   std::string line;
-  while (1) {
-    std::getline(bias_sinex_file, line);
+  while (std::getline(bias_sinex_file, line)) {
     // End of data
     if (line.find("-FILE/REFERENCE") == 0) {
       break;
@@ -86,8 +85,7 @@ void BiasSinexFileReader::ReadFileReference(std::ifstream& bias_sinex_file) {
 
 void BiasSinexFileReader::ReadFileComment(std::ifstream& bias_sinex_file) {
   std::string line;
-  while (1) {
-    std::getline(bias_sinex_file, line);
+  while (std::getline(bias_sinex_file, line)) {
     // End of data
     if (line.find("-FILE/COMMENT") == 0) {
       break;
@@ -98,8 +96,7 @@ void BiasSinexFileReader::ReadFileComment(std::ifstream& bias_sinex_file) {
 
 void BiasSinexFileReader::ReadInputAcknowledgments(std::ifstream& bias_sinex_file) {
   std::string line;
-  while (1) {
-    std::getline(bias_sinex_file, line);
+  while (std::getline(bias_sinex_file, line)) {
     // End of data
     if (line.find("-INPUT/ACKNOWLEDGMENTS") == 0) {
       break;
@@ -110,8 +107,7 @@ void BiasSinexFileReader::ReadInputAcknowledgments(std::ifstream& bias_sinex_fil
 
 void BiasSinexFileReader::ReadBiasDescription(std::ifstream& bias_sinex_file) {
   std::string line;
-  while (1) {
-    std::getline(bias_sinex_file, line);
+  while (std::getline(bias_sinex_file, line)) {
     // End of data
     if (line.find("-BIAS/DESCRIPTION") == 0) {
       break;
@@ -122,8 +118,7 @@ void BiasSinexFileReader::ReadBiasDescription(std::ifstream& bias_sinex_file) {
 
 void BiasSinexFileReader::ReadBiasReceiverInformation(std::ifstream& bias_sinex_file) {
   std::string line;
-  while (1) {
-    std::getline(bias_sinex_file, line);
+  while (std::getline(bias_sinex_file, line)) {
     // End of data
     if (line.find("-BIAS/RECEIVER_INFORMATION") == 0) {
       break;
@@ -135,8 +130,7 @@ void BiasSinexFileReader::ReadBiasReceiverInformation(std::ifstream& bias_sinex_
 void BiasSinexFileReader::ReadBiasSolution(std::ifstream& bias_sinex_file) {
   std::string line;
 
-  while (1) {
-    std::getline(bias_sinex_file, line);
+  while (std::getline(bias_sinex_file, line)) {
     // End of data
     if (line.find("-BIAS/SOLUTION") == 0) {
       break;
-- 
2.43.0


From 96df64fbef7fe51876f9ebeecf0d99684eef5dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:48 +0000
Subject: [PATCH 135/149] fix: bias data which does not exist was read beyond
 the list

---
 src/math_physics/gnss/bias_sinex_file_reader.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/gnss/bias_sinex_file_reader.hpp b/src/math_physics/gnss/bias_sinex_file_reader.hpp
index 694a9bc..c226d4f 100644
--- a/src/math_physics/gnss/bias_sinex_file_reader.hpp
+++ b/src/math_physics/gnss/bias_sinex_file_reader.hpp
@@ -134,7 +134,7 @@ class BiasSinexFileReader {
    * @param[in] index: Index of bias solution data
    * @return File read success flag
    */
-  inline BiasSolutionData GetBiasData(const size_t index) const { return solution_data_[index]; }
+  inline BiasSolutionData GetBiasData(const size_t index) const { return solution_data_.at(index); }
 
  private:
   bool is_file_read_succeeded_;                  //!< File read success flag
-- 
2.43.0


From 332ebe10c0f0694b6de6d7d315accbe25802ae84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:03 +0000
Subject: [PATCH 136/149] fix: stars which are not in the catalogue were read
 beyond its end

---
 src/environment/global/hipparcos_catalogue.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/environment/global/hipparcos_catalogue.hpp b/src/environment/global/hipparcos_catalogue.hpp
index 23dd556..8c17468 100644
--- a/src/environment/global/hipparcos_catalogue.hpp
+++ b/src/environment/global/hipparcos_catalogue.hpp
@@ -60,25 +60,25 @@ class HipparcosCatalogue : public logger::ILoggable {
    *@brief Return Hipparcos ID of a star
    *@param [in] rank: Rank of star magnitude in read catalogue
    */
-  int GetHipparcosId(size_t rank) const { return hipparcos_catalogue_[rank].hipparcos_id; }
+  int GetHipparcosId(size_t rank) const { return hipparcos_catalogue_.at(rank).hipparcos_id; }
   /**
    *@fn GetVisibleMagnitude
    *@brief Return magnitude in visible wave length of a star
    *@param [in] rank: Rank of star magnitude in read catalogue
    */
-  double GetVisibleMagnitude(size_t rank) const { return hipparcos_catalogue_[rank].visible_magnitude; }
+  double GetVisibleMagnitude(size_t rank) const { return hipparcos_catalogue_.at(rank).visible_magnitude; }
   /**
    *@fn GetRightAscension_deg
    *@brief Return right ascension of a star
    *@param [in] rank: Rank of star magnitude in read catalogue
    */
-  double GetRightAscension_deg(size_t rank) const { return hipparcos_catalogue_[rank].right_ascension_deg; }
+  double GetRightAscension_deg(size_t rank) const { return hipparcos_catalogue_.at(rank).right_ascension_deg; }
   /**
    *@fn GetDeclination_deg
    *@brief Return declination of a star
    *@param [in] rank: Rank of star magnitude in read catalogue
    */
-  double GetDeclination_deg(size_t rank) const { return hipparcos_catalogue_[rank].declination_deg; }
+  double GetDeclination_deg(size_t rank) const { return hipparcos_catalogue_.at(rank).declination_deg; }
   /**
    *@fn GetStarDir_i
    *@brief Return direction vector of a star in the inertial frame
-- 
2.43.0


From 8ea76dcad77a5305f9ad3544853bc0aeae7abcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:03 +0000
Subject: [PATCH 137/149] fix: an incomplete line of a command database was
 read beyond its end

---
 src/setting_file_reader/c2a_command_database.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/setting_file_reader/c2a_command_database.cpp b/src/setting_file_reader/c2a_command_database.cpp
index 7811b36..41f9a85 100644
--- a/src/setting_file_reader/c2a_command_database.cpp
+++ b/src/setting_file_reader/c2a_command_database.cpp
@@ -25,6 +25,9 @@ C2aCommandInformation::C2aCommandInformation(const std::string cmd_db_line) {
     tokens.push_back(token);
   }
 
+  // The lines which do not have all columns of a command are not commands
+  if (tokens.size() < 5) return;
+
   // Command name
   command_name_ = tokens[1];
   if (command_name_.empty()) return;
@@ -35,6 +38,7 @@ C2aCommandInformation::C2aCommandInformation(const std::string cmd_db_line) {
   // Arguments
   number_of_arguments_ = std::stoul(tokens[4], nullptr, 0);
   for (size_t arg_id = 0; arg_id < number_of_arguments_; arg_id++) {
+    if (5 + 2 * arg_id >= tokens.size()) break;
     std::string argment_type_name = tokens[5 + 2 * arg_id];
     argument_type_info_.push_back(ConvertArgumentType(argment_type_name));
   }
-- 
2.43.0


From f755b50fecc5f546f368b0159cf69497c66ac2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:24 +0000
Subject: [PATCH 138/149] fix: a blank line of a CSV file was read as a row
 without values

---
 src/setting_file_reader/initialize_file_access.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/setting_file_reader/initialize_file_access.cpp b/src/setting_file_reader/initialize_file_access.cpp
index a77b8ca..ce75d6c 100644
--- a/src/setting_file_reader/initialize_file_access.cpp
+++ b/src/setting_file_reader/initialize_file_access.cpp
@@ -242,6 +242,7 @@ void IniAccess::ReadCsvDouble(std::vector<std::vector<double>>& output_value, co
   output_value.reserve(node_num);
   while (getline(ifs, line)) {
     if (!line.empty() && line.back() == '\r') line.pop_back();  // Line feed code of Windows
+    if (line.find_first_not_of(" \t") == std::string::npos) continue;  // Blank line
     std::vector<std::string> string_vector = Split(line, ',');
     std::vector<double> temp;
     temp.reserve(node_num);
@@ -263,7 +264,7 @@ void IniAccess::ReadCsvDoubleWithHeader(std::vector<std::vector<double>>& output
   output_value.reserve(node_num);
   while (getline(ifs, line)) {
     if (!line.empty() && line.back() == '\r') line.pop_back();  // Line feed code of Windows
-    if (line_num >= row_header_num) {
+    if (line_num >= row_header_num && line.find_first_not_of(" \t") != std::string::npos) {  // Skip header and blank lines
       std::vector<std::string> string_vector = Split(line, ',');
       std::vector<double> temp;
       temp.reserve(node_num);
-- 
2.43.0


From 7c84e4b9cdd87ac1b08006cb6584df38a36510bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:24 +0000
Subject: [PATCH 139/149] fix: an antenna pattern file with fewer gains than
 defined was read beyond its end

---
 src/components/real/communication/antenna_radiation_pattern.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/real/communication/antenna_radiation_pattern.cpp b/src/components/real/communication/antenna_radiation_pattern.cpp
index 3833730..7d45cd5 100644
--- a/src/components/real/communication/antenna_radiation_pattern.cpp
+++ b/src/components/real/communication/antenna_radiation_pattern.cpp
@@ -46,7 +46,7 @@ double AntennaRadiationPattern::GetGain_dBi(const double theta_rad, const double
   size_t phi_idx = (size_t)(length_phi_ * phi_rad_clipped / phi_max_rad_ + 0.5);
   if (phi_idx >= length_phi_) phi_idx = length_phi_ - 1;
 
-  return gain_dBi_[theta_idx][phi_idx];
+  return gain_dBi_.at(theta_idx).at(phi_idx);
 }
 
 }  // namespace s2e::components
-- 
2.43.0


From 22089c4fa44bbaf384bd35c24dabe966cb8d6069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:25 +0000
Subject: [PATCH 140/149] fix: an incomplete line of a power scenario file was
 read beyond its end

---
 src/components/real/power/csv_scenario_interface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/components/real/power/csv_scenario_interface.cpp b/src/components/real/power/csv_scenario_interface.cpp
index 54ee31a..80d9523 100644
--- a/src/components/real/power/csv_scenario_interface.cpp
+++ b/src/components/real/power/csv_scenario_interface.cpp
@@ -82,6 +82,7 @@ std::vector<std::vector<double>> CsvScenarioInterface::ReadCsvData(const std::st
 void CsvScenarioInterface::StoreBuffer(const std::string buffer_name, const std::vector<std::vector<double>>& data) {
   auto line_num = buffer_line_id_.at(buffer_name);
   for (const auto& line : data) {
+    if (line.size() <= line_num) throw std::invalid_argument("A line of the scenario file does not have the value of " + buffer_name);
     buffers_[buffer_name][line[0]] = line[line_num];
   }
 }
-- 
2.43.0


From f6c1a2c14b48b11ac7188c035e8edc61c68b1aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:25 +0000
Subject: [PATCH 141/149] fix: the value of a power scenario before its first
 time was read before the begin of the list

---
 src/components/real/power/csv_scenario_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/real/power/csv_scenario_interface.cpp b/src/components/real/power/csv_scenario_interface.cpp
index 80d9523..0f0355c 100644
--- a/src/components/real/power/csv_scenario_interface.cpp
+++ b/src/components/real/power/csv_scenario_interface.cpp
@@ -90,8 +90,8 @@ void CsvScenarioInterface::StoreBuffer(const std::string buffer_name, const std:
 double CsvScenarioInterface::GetValueFromBuffer(const std::string buffer_name, const double time_query) {
   double output;
   auto itr = buffers_.at(buffer_name).upper_bound(time_query);
+  if (itr == buffers_.at(buffer_name).begin()) return 0;
   itr--;
-  if (itr == buffers_.at(buffer_name).end()) return 0;
   output = itr->second;
   return output;
 }
-- 
2.43.0


From 9f3cf2bd1b035f1800e229680152117697205529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:35 +0000
Subject: [PATCH 142/149] fix: an incomplete line of an orbit time series file
 was read beyond its end

---
 src/dynamics/orbit/time_series_file_orbit_propagation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dynamics/orbit/time_series_file_orbit_propagation.cpp b/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
index 6ddf957..747546c 100644
--- a/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
+++ b/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
@@ -39,6 +39,11 @@ TimeSeriesFileOrbitPropagation::TimeSeriesFileOrbitPropagation(const environment
   if (time_series_data_.empty()) {
     throw std::runtime_error("Time series file orbit propagation: no data in " + time_series_file_path);
   }
+  for (const auto& line : time_series_data_) {
+    if (line.size() < 7) {
+      throw std::runtime_error("Time series file orbit propagation: incomplete line in " + time_series_file_path);
+    }
+  }
   if (number_of_interpolation_ < 1) {
     number_of_interpolation_ = 1;
   }
-- 
2.43.0


From 3469f89071e818d789125713cdd4f0f935ad4f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:11 +0000
Subject: [PATCH 143/149] fix: the revolutions of an angle were converted to an
 integer which can be too small for them

---
 src/math_physics/orbit/sgp4/sgp4ext.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math_physics/orbit/sgp4/sgp4ext.cpp b/src/math_physics/orbit/sgp4/sgp4ext.cpp
index 6304d59..dab5bb4 100644
--- a/src/math_physics/orbit/sgp4/sgp4ext.cpp
+++ b/src/math_physics/orbit/sgp4/sgp4ext.cpp
@@ -113,11 +113,11 @@ double AcTan(double sinx, double cosx) {
 double FMod2p(double x) {
   /* Returns mod 2PI of argument */
 
-  int i;
+  double i;
   double ret_val;
 
   ret_val = x;
-  i = (int)trunc(ret_val / TWOPI);
+  i = trunc(ret_val / TWOPI);
   ret_val -= i * TWOPI;
 
   if (ret_val < 0.0) ret_val += TWOPI;
-- 
2.43.0


From eb9dbda1e77ded58c9bfc9add9d64da497f6ebf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:24 +0000
Subject: [PATCH 144/149] fix: an empty file of the thermal model was read
 beyond its end

---
 src/dynamics/thermal/temperature.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dynamics/thermal/temperature.cpp b/src/dynamics/thermal/temperature.cpp
index e6f6952..6838719 100644
--- a/src/dynamics/thermal/temperature.cpp
+++ b/src/dynamics/thermal/temperature.cpp
@@ -10,6 +10,7 @@
 #include <environment/global/physical_constants.hpp>
 #include <environment/global/simulation_time.hpp>
 #include <setting_file_reader/initialize_file_access.hpp>
+#include <stdexcept>
 #include <utilities/macros.hpp>
 
 using namespace std;
@@ -383,6 +384,7 @@ Temperature* InitTemperature(const std::string file_name, const double rk_prop_s
   /*since we don't know the number of node_list yet, set node_num=100 temporary.
     Recall that Nodes_num are given to this function only to reserve memory*/
 
+  if (heatload_str_list.empty()) throw std::runtime_error("Thermal file without data: " + filepath_heatload);
   heatload_num = heatload_str_list.size() - 1;
   auto times_itr = heatload_str_list.begin();  // First Row is Time Data
   for (auto itr = heatload_str_list.begin() + 1; itr != heatload_str_list.end(); ++itr) {
@@ -396,6 +398,7 @@ Temperature* InitTemperature(const std::string file_name, const double rk_prop_s
   /*since we don't know the number of node_list yet, set node_num=100 temporary.
     Recall that Nodes_num are given to this function only to reserve memory*/
 
+  if (node_str_list.empty()) throw std::runtime_error("Thermal file without data: " + filepath_node);
   node_num = node_str_list.size() - 1;                                             // First Row is for Header(not data)
   node_list.reserve(node_num);                                                     // reserve memory
   for (auto itr = node_str_list.begin() + 1; itr != node_str_list.end(); ++itr) {  // first row is for labels
@@ -411,6 +414,7 @@ Temperature* InitTemperature(const std::string file_name, const double rk_prop_s
   /*since we don't know the number of heater_list yet, set heater_num=100 temporary.
     Recall that heater_num are given to this function only to reserve memory*/
 
+  if (heater_str_list.empty()) throw std::runtime_error("Thermal file without data: " + filepath_heater);
   heater_num = heater_str_list.size() - 1;  // First Row is for Header(not data)
   heater_list.reserve(heater_num);          // reserve memory
   heater_controller_list.reserve(heater_num);
-- 
2.43.0


From 0333ed443ae93f086f629e44aff75332a5bdfad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:24 +0000
Subject: [PATCH 145/149] fix: rows of the thermal matrices which are too short
 were read beyond their end

---
 src/dynamics/thermal/temperature.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/thermal/temperature.cpp b/src/dynamics/thermal/temperature.cpp
index 6838719..be7cded 100644
--- a/src/dynamics/thermal/temperature.cpp
+++ b/src/dynamics/thermal/temperature.cpp
@@ -433,8 +433,10 @@ Temperature* InitTemperature(const std::string file_name, const double rk_prop_s
 
   assert(conductance_matrix.size() == node_num);                      // Dimension must be same as node_num
   assert(radiation_matrix.size() == node_num);                        // Dimension must be same as node_num
-  assert(conductance_matrix.size() == conductance_matrix[0].size());  // Must be square matrix
-  assert(radiation_matrix.size() == radiation_matrix[0].size());      // Must be square matrix
+  for (size_t i = 0; i < node_num; i++) {
+    assert(conductance_matrix.size() == conductance_matrix[i].size());  // Must be square matrix
+    assert(radiation_matrix.size() == radiation_matrix[i].size());      // Must be square matrix
+  }
 
   Temperature* temperature;
   temperature = new Temperature(conductance_matrix, radiation_matrix, node_list, heatload_list, heater_list, heater_controller_list, node_num,
-- 
2.43.0


From bf06e148d46ef1cb536d827e1f56ed86228a4451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:49 +0000
Subject: [PATCH 146/149] fix: a GPS time outside of the range of integers was
 converted to an undefined time

---
 src/math_physics/time_system/gps_time.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/math_physics/time_system/gps_time.cpp b/src/math_physics/time_system/gps_time.cpp
index 5bed942..de7ba4e 100644
--- a/src/math_physics/time_system/gps_time.cpp
+++ b/src/math_physics/time_system/gps_time.cpp
@@ -5,6 +5,8 @@
 
 #include "gps_time.hpp"
 
+#include <stdexcept>
+
 namespace s2e::time_system {
 
 const DateTime GpsTime::kEpochOfGpsTimeInDateTime_ = DateTime("1980/1/6 00:00:00.0");
@@ -18,6 +20,9 @@ void GpsTime::CalcGpsWeekTime() {
 }
 
 void GpsTime::CalcEpochTime() {
+  if (!(0.0 <= elapsed_time_from_week_s_ && elapsed_time_from_week_s_ < 1e15)) {
+    throw std::invalid_argument("GPS time: the elapsed time from the week is out of range.");
+  }
   size_t integer_time_s = (size_t)elapsed_time_from_week_s_;
   double fraction_s = elapsed_time_from_week_s_ - (double)(integer_time_s);
   time_t time_s = week_ * kSecondsInWeek_ + integer_time_s;
-- 
2.43.0


From b662796df7b174e585e56a5d3f09d21500054131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:12 +0000
Subject: [PATCH 147/149] fix: the quantization of more than 2^31 steps was
 undefined

---
 src/utilities/quantization.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utilities/quantization.cpp b/src/utilities/quantization.cpp
index 1cfd326..0e815d7 100644
--- a/src/utilities/quantization.cpp
+++ b/src/utilities/quantization.cpp
@@ -5,11 +5,13 @@
 
 #include "quantization.hpp"
 
+#include <cmath>
+
 namespace s2e::utilities {
 
 double quantization(const double continuous_number, const double resolution) {
-  int bin_num = (int)((double)continuous_number / resolution);
-  return (double)bin_num * resolution;
+  const double bin_num = std::trunc(continuous_number / resolution);
+  return bin_num * resolution;
 }
 
 float quantization_float(const double continuous_number, const double resolution) { return (float)quantization(continuous_number, resolution); }
-- 
2.43.0


From 6338499c8cd575ae002fde86190e03ebe946a947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:12 +0000
Subject: [PATCH 148/149] fix: a byte was written by a copy of no bytes

---
 src/utilities/endian.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utilities/endian.cpp b/src/utilities/endian.cpp
index 6aa2111..f8d801f 100644
--- a/src/utilities/endian.cpp
+++ b/src/utilities/endian.cpp
@@ -15,9 +15,10 @@ void *endian_memcpy(void *dst, const void *src, size_t size) {
   uint8_t *dst_ = (uint8_t *)dst;
   size_t i;
 
-  if (size > 0) {
-    size--;
+  if (size == 0) {
+    return dst;
   }
+  size--;
 
   for (i = 0; i <= size; i++) {
     *(dst_ + (size - i)) = *(src_ + i);
-- 
2.43.0


From c5219015c9d9a0844c3a2f457ae8394117dcc3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:38 +0000
Subject: [PATCH 149/149] fix: a dead time that is a multiple of the step could
 be one step short

---
 src/components/real/aocs/reaction_wheel.cpp        | 2 +-
 src/components/real/propulsion/simple_thruster.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/aocs/reaction_wheel.cpp b/src/components/real/aocs/reaction_wheel.cpp
index 9c8ab90..9fca1ef 100644
--- a/src/components/real/aocs/reaction_wheel.cpp
+++ b/src/components/real/aocs/reaction_wheel.cpp
@@ -74,7 +74,7 @@ void ReactionWheel::Initialize() {
 
   // Acceleration
   target_acceleration_rad_s2_ = 0.0;
-  size_t len_buffer = (size_t)floor(dead_time_s_ / step_width_s_) + 1;
+  size_t len_buffer = (size_t)floor(dead_time_s_ / step_width_s_ + 1.0e-6) + 1;  // The margin is for rounding
   acceleration_delay_buffer_.assign(len_buffer, 0.0);
   generated_angular_acceleration_rad_s2_ = 0.0;
 
diff --git a/src/components/real/propulsion/simple_thruster.cpp b/src/components/real/propulsion/simple_thruster.cpp
index 239abb6..67a5857 100644
--- a/src/components/real/propulsion/simple_thruster.cpp
+++ b/src/components/real/propulsion/simple_thruster.cpp
@@ -62,7 +62,7 @@ void SimpleThruster::Initialize(const double magnitude_standard_deviation_N, con
 }
 
 void SimpleThruster::InitializeDelay() {
-  size_t len_buffer = (size_t)floor(dead_time_s_ / step_width_s_) + 1;
+  size_t len_buffer = (size_t)floor(dead_time_s_ / step_width_s_ + 1.0e-6) + 1;  // The margin is for rounding
   duty_delay_buffer_.assign(len_buffer, 0.0);
 }
 
-- 
2.43.0

