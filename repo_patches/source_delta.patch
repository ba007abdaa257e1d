From 4813c1cee483367179a7781cdf056918e8c90d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:28 +0000
Subject: [PATCH 1/4] fix: join the curvature transitions of HC-RS/CC-Dubins
 correctly when their predicted states coincide

---
 .../hc_cc_state_space/paths.hpp               |  3 +++
 .../cc_dubins_state_space.cpp                 | 11 +++++++----
 .../hc_reeds_shepp_state_space.cpp            | 11 +++++++----
 src/hc_cc_state_space/paths.cpp               | 19 ++++++++++++++++++-
 4 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/include/steering_functions/hc_cc_state_space/paths.hpp b/include/steering_functions/hc_cc_state_space/paths.hpp
index be2daec..08f5d48 100644
--- a/include/steering_functions/hc_cc_state_space/paths.hpp
+++ b/include/steering_functions/hc_cc_state_space/paths.hpp
@@ -156,6 +156,9 @@ void reverse_control(Control &control);
 /** \brief Subtracts control2 from control1 */
 Control subtract_control(const Control &control1, const Control &control2);
 
+/** \brief Appends controls that are equivalent to control1 followed by the reversed control2 */
+void connect_controls(const Control &control1, Control control2, std::vector<Control> &controls);
+
 /** \brief Appends controls with 0 input */
 void empty_controls(std::vector<Control> &controls);
 
diff --git a/src/hc_cc_state_space/cc_dubins_state_space.cpp b/src/hc_cc_state_space/cc_dubins_state_space.cpp
index 92d8044..915ed5d 100644
--- a/src/hc_cc_state_space/cc_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/cc_dubins_state_space.cpp
@@ -113,8 +113,12 @@ double CC_Dubins_State_Space::get_distance(const State &state1, const State &sta
       // check if start and goal state are equal
       if (state_equal(start_state, end_state))
       {
-        Control control = subtract_control(start_control, end_control);
-        distances.push_back(fabs(control.delta_s));
+        vector<Control> controls;
+        connect_controls(start_control, end_control, controls);
+        double distance = 0.0;
+        for (const auto &control : controls)
+          distance += fabs(control.delta_s);
+        distances.push_back(distance);
       }
       // call appropriate state space
       else
@@ -166,8 +170,7 @@ vector<Control> CC_Dubins_State_Space::get_controls(const State &state1, const S
       // check if start and goal state are equal
       if (state_equal(start_state, end_state))
       {
-        Control control = subtract_control(start_control, end_control);
-        cc_dubins_controls.push_back(control);
+        connect_controls(start_control, end_control, cc_dubins_controls);
       }
       // call the appropriate state space
       else
diff --git a/src/hc_cc_state_space/hc_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc_reeds_shepp_state_space.cpp
index 16c16db..20fb15e 100644
--- a/src/hc_cc_state_space/hc_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc_reeds_shepp_state_space.cpp
@@ -108,8 +108,12 @@ double HC_Reeds_Shepp_State_Space::get_distance(const State &state1, const State
       // check if start and goal state are equal
       if (state_equal(start_state, end_state))
       {
-        Control control = subtract_control(start_control, end_control);
-        distances.push_back(fabs(control.delta_s));
+        vector<Control> controls;
+        connect_controls(start_control, end_control, controls);
+        double distance = 0.0;
+        for (const auto &control : controls)
+          distance += fabs(control.delta_s);
+        distances.push_back(distance);
       }
       // call appropriate state space
       else
@@ -161,8 +165,7 @@ vector<Control> HC_Reeds_Shepp_State_Space::get_controls(const State &state1, co
       // check if start and goal state are equal
       if (state_equal(start_state, end_state))
       {
-        Control control = subtract_control(start_control, end_control);
-        hc_rs_controls.push_back(control);
+        connect_controls(start_control, end_control, hc_rs_controls);
       }
       // call the appropriate state space
       else
diff --git a/src/hc_cc_state_space/paths.cpp b/src/hc_cc_state_space/paths.cpp
index 8cb2ff8..5ceb227 100644
--- a/src/hc_cc_state_space/paths.cpp
+++ b/src/hc_cc_state_space/paths.cpp
@@ -284,10 +284,27 @@ Control subtract_control(const Control &control1, const Control &control2)
   Control control;
   control.delta_s = control1.delta_s - control2.delta_s;
   control.kappa = control1.kappa;
-  control.sigma = control1.sigma;
+  control.sigma = sgn(control.delta_s) * sgn(control1.delta_s) * control1.sigma;
   return control;
 }
 
+void connect_controls(const Control &control1, Control control2, vector<Control> &controls)
+{
+  // both controls are part of the same clothoid
+  if (sgn(control1.delta_s) * control1.sigma == sgn(control2.delta_s) * control2.sigma)
+  {
+    controls.push_back(subtract_control(control1, control2));
+    return;
+  }
+  if (fabs(control1.delta_s) > get_epsilon())
+    controls.push_back(control1);
+  if (fabs(control2.delta_s) > get_epsilon())
+  {
+    reverse_control(control2);
+    controls.push_back(control2);
+  }
+}
+
 void empty_controls(vector<Control> &controls)
 {
   Control control;
-- 
2.43.0


From b119bc404abad71a5c3676ad3a8bf122b2268572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:28 +0000
Subject: [PATCH 2/4] fix: initialize curvature and direction of the state that
 Dubins and Reeds-Shepp interpolate returns for t <= 0

---
 src/dubins_state_space/dubins_state_space.cpp           | 2 ++
 src/reeds_shepp_state_space/reeds_shepp_state_space.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/dubins_state_space/dubins_state_space.cpp b/src/dubins_state_space/dubins_state_space.cpp
index 405e5e6..89b0848 100644
--- a/src/dubins_state_space/dubins_state_space.cpp
+++ b/src/dubins_state_space/dubins_state_space.cpp
@@ -425,6 +425,8 @@ State Dubins_State_Space::interpolate(const State &state, const vector<Control>
   state_curr.x = state.x;
   state_curr.y = state.y;
   state_curr.theta = state.theta;
+  state_curr.kappa = controls.front().kappa;
+  state_curr.d = sgn(controls.front().delta_s);
   // get arc length at t
   double s_path(0.0);
   double s_inter(0.0);
diff --git a/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp b/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
index 787dedb..b08e79d 100644
--- a/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
+++ b/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
@@ -714,6 +714,8 @@ State Reeds_Shepp_State_Space::interpolate(const State &state, const vector<Cont
   state_curr.x = state.x;
   state_curr.y = state.y;
   state_curr.theta = state.theta;
+  state_curr.kappa = controls.front().kappa;
+  state_curr.d = sgn(controls.front().delta_s);
   // get arc length at t
   double s_path(0.0);
   double s_inter(0.0);
-- 
2.43.0


From 02c38e47ad28a38f9594b0b99d28180f3907bf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:28 +0000
Subject: [PATCH 3/4] fix: make the destructor of HC_CC_State_Space virtual

---
 .../steering_functions/hc_cc_state_space/hc_cc_state_space.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/steering_functions/hc_cc_state_space/hc_cc_state_space.hpp b/include/steering_functions/hc_cc_state_space/hc_cc_state_space.hpp
index 78c938c..f11336e 100644
--- a/include/steering_functions/hc_cc_state_space/hc_cc_state_space.hpp
+++ b/include/steering_functions/hc_cc_state_space/hc_cc_state_space.hpp
@@ -33,6 +33,9 @@ public:
   /** \brief Constructor */
   HC_CC_State_Space(double kappa, double sigma, double discretization);
 
+  /** \brief Destructor */
+  virtual ~HC_CC_State_Space() = default;
+
   /** \brief Sets the parameters required by the filter */
   void set_filter_parameters(const Motion_Noise& motion_noise, const Measurement_Noise& measurement_noise,
                              const Controller& controller);
-- 
2.43.0


From e77e612b2cbec699764ffcd66acdc95cbdde3600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:05 +0000
Subject: [PATCH 4/4] fix: place the intermediate circle of TiSTcT, TcTiST and
 TcTiSTcT paths on the side that the turning direction requires

The offset of the intermediate circle perpendicular to the line of centres had
the same sign for left and right turns, so that for half of the start circles
the constructed path took a detour. Mirrored problems got paths of different
length, and paths with very large sharpness were longer than Reeds-Shepp paths.
---
 .../cc00_reeds_shepp_state_space.cpp                 | 12 ++++++++++++
 .../hc00_reeds_shepp_state_space.cpp                 | 12 ++++++++++++
 .../hc0pm_reeds_shepp_state_space.cpp                | 12 ++++++++++++
 .../hcpm0_reeds_shepp_state_space.cpp                | 12 ++++++++++++
 .../hcpmpm_reeds_shepp_state_space.cpp               | 12 ++++++++++++
 5 files changed, 60 insertions(+)

diff --git a/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
index 3ad8e05..7302ecc 100644
--- a/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
@@ -546,6 +546,10 @@ public:
     double r = c2.radius * c2.cos_mu;
     double delta_y = pow(2 * r, 2) / distance;
     double delta_x = 2 * r * sqrt(1 - delta_y / distance);
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c2.xc, c2.yc, theta, -delta_x, delta_y, &x, &y);
@@ -633,6 +637,10 @@ public:
     double r = c1.radius * c1.cos_mu;
     double delta_y = pow(2 * r, 2) / distance;
     double delta_x = 2 * r * sqrt(1 - delta_y / distance);
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, -delta_y, &x, &y);
@@ -720,6 +728,10 @@ public:
     double r = c1.radius * c1.cos_mu;
     double delta_y = pow(2 * r, 2) / distance;
     double delta_x = 2 * r * sqrt(1 - delta_y / distance);
+    if (c1.left != c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, delta_y, &x, &y);
diff --git a/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp
index c742b1d..ec218ea 100644
--- a/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp
@@ -568,6 +568,10 @@ public:
     double theta = angle;
     double delta_y = (4 * c2.radius * c2.cos_mu) / (fabs(c2.kappa) * distance);
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c2.xc, c2.yc, theta, -delta_x, delta_y, &x, &y);
@@ -659,6 +663,10 @@ public:
     double theta = angle;
     double delta_y = (4 * c2.radius * c2.cos_mu) / (fabs(c2.kappa) * distance);
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, -delta_y, &x, &y);
@@ -751,6 +759,10 @@ public:
     double theta = angle;
     double delta_y = (4 * c1.radius * c1.cos_mu) / (distance * fabs(c1.kappa));
     double delta_x = sqrt(pow(2 * c1.kappa_inv, 2) - pow(delta_y, 2));
+    if (c1.left != c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, delta_y, &x, &y);
diff --git a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
index d69eed3..46b86cf 100644
--- a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
@@ -577,6 +577,10 @@ public:
     double theta = angle;
     double delta_y = (4 * c1.radius * c1.cos_mu) / (fabs(c1.kappa) * distance);
     double delta_x = sqrt(pow(2 * c1.kappa_inv, 2) - pow(delta_y, 2));
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c2.xc, c2.yc, theta, -delta_x, delta_y, &x, &y);
@@ -669,6 +673,10 @@ public:
     double theta = angle;
     double delta_y = (4 * c1.radius * c1.cos_mu) / (fabs(c1.kappa) * distance);
     double delta_x = sqrt(pow(2 * c1.kappa_inv, 2) - pow(delta_y, 2));
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, -delta_y, &x, &y);
@@ -765,6 +773,10 @@ public:
     double theta = angle;
     double delta_y = (4 * c1.radius * c1.cos_mu) / (distance * fabs(c1.kappa));
     double delta_x = sqrt(pow(2 * c1.kappa_inv, 2) - pow(delta_y, 2));
+    if (c1.left != c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, delta_y, &x, &y);
diff --git a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
index 59b7c3b..b60a280 100644
--- a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
@@ -578,6 +578,10 @@ public:
     double theta = angle;
     double delta_y = (4 * c2.radius * c2.cos_mu) / (fabs(c2.kappa) * distance);
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c2.xc, c2.yc, theta, -delta_x, delta_y, &x, &y);
@@ -673,6 +677,10 @@ public:
     double theta = angle;
     double delta_y = (4 * c2.radius * c2.cos_mu) / (fabs(c2.kappa) * distance);
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, -delta_y, &x, &y);
@@ -765,6 +773,10 @@ public:
     double theta = angle;
     double delta_y = (4 * c2.radius * c2.cos_mu) / (distance * fabs(c2.kappa));
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
+    if (c1.left != c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, delta_y, &x, &y);
diff --git a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
index d76f184..5c07c04 100644
--- a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
@@ -589,6 +589,10 @@ public:
     double theta = angle;
     double delta_y = (4 * parent_->radius_ * parent_->cos_mu_) / (fabs(c2.kappa) * distance);
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c2.xc, c2.yc, theta, -delta_x, delta_y, &x, &y);
@@ -685,6 +689,10 @@ public:
     double theta = angle;
     double delta_y = (4 * parent_->radius_ * parent_->cos_mu_) / (fabs(c2.kappa) * distance);
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, -delta_y, &x, &y);
@@ -781,6 +789,10 @@ public:
     double theta = angle;
     double delta_y = (4 * parent_->radius_ * parent_->cos_mu_) / (distance * fabs(c1.kappa));
     double delta_x = sqrt(pow(2 * c1.kappa_inv, 2) - pow(delta_y, 2));
+    if (c1.left != c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, delta_y, &x, &y);
-- 
2.43.0

