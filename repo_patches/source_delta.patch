From ab56aca534d6b1d1edeb0492ce0e739efd1a09f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:47 +0000
Subject: [PATCH 01/32] fix: rotation_between picks the most perpendicular axis
 for antiparallel vectors

---
 projects/math/private/Quaternion.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/math/private/Quaternion.cxx b/projects/math/private/Quaternion.cxx
index dbbf871..33c5edd 100644
--- a/projects/math/private/Quaternion.cxx
+++ b/projects/math/private/Quaternion.cxx
@@ -523,7 +523,7 @@ Quaternion siren::math::rotation_between(Vector3D const & v0, Vector3D const & v
             std::abs(scalar_product(vecs[2], dir0))
         };
         // Find axis vector most perpendicular to original direction
-        size_t idx = std::distance(&(dots), std::min_element(&(dots), &(dots)+3));
+        size_t idx = std::distance(dots, std::min_element(dots, dots + 3));
         // Initialize quaternion with unit vector perpendicular to original direction and selected axis
         return Quaternion(cross_product(vecs[idx], dir0).normalized());
     } else {
-- 
2.43.0


From b78423a0d3285b70beb1145685d46cad1122b526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:47 +0000
Subject: [PATCH 02/32] fix: Matrix3DFromEulerAngles swaps alpha and gamma for
 rotating frames

---
 projects/math/public/SIREN/math/Conversions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/math/public/SIREN/math/Conversions.h b/projects/math/public/SIREN/math/Conversions.h
index a72d643..5133610 100644
--- a/projects/math/public/SIREN/math/Conversions.h
+++ b/projects/math/public/SIREN/math/Conversions.h
@@ -141,7 +141,7 @@ Matrix3D Matrix3DFromEulerAngles(EulerAngles const & euler) {
     double gamma = euler.GetGamma();
 
     if(f == EulerFrame::Rotating) {
-        std::swap(alpha, beta);
+        std::swap(alpha, gamma);
     }
 
     if(n == EulerParity::Odd) {
-- 
2.43.0


From 1381c10e3da7f0f1e1fbe7f96fccf116ddaaf924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:47 +0000
Subject: [PATCH 03/32] fix: Quaternion + scalar adds like += does

---
 projects/math/private/Quaternion.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/math/private/Quaternion.cxx b/projects/math/private/Quaternion.cxx
index 33c5edd..acda35b 100644
--- a/projects/math/private/Quaternion.cxx
+++ b/projects/math/private/Quaternion.cxx
@@ -190,7 +190,7 @@ Quaternion & Quaternion::operator+=(Quaternion const & other)
 
 Quaternion Quaternion::operator+(double factor) const
 {
-    return Quaternion(factor * x_, factor * y_, factor * z_, factor * w_);
+    return Quaternion(factor + x_, factor + y_, factor + z_, factor + w_);
 }
 
 Quaternion & Quaternion::operator+=(double factor)
-- 
2.43.0


From b6cfa7478dc853afdb7a38cc9ad734ca87afcd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:24 +0000
Subject: [PATCH 04/32] fix: invariant mass of a massless particle is not NaN
 after rounding

---
 projects/dataclasses/private/InteractionRecord.cxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/projects/dataclasses/private/InteractionRecord.cxx b/projects/dataclasses/private/InteractionRecord.cxx
index 42f820e..2ea6d09 100644
--- a/projects/dataclasses/private/InteractionRecord.cxx
+++ b/projects/dataclasses/private/InteractionRecord.cxx
@@ -291,7 +291,9 @@ void PrimaryDistributionRecord::UpdateMass() const {
     if(mass_set)
         return;
     if(energy_set and momentum_set) {
-        mass = std::sqrt(energy*energy - momentum.at(0)*momentum.at(0) - momentum.at(1)*momentum.at(1) - momentum.at(2)*momentum.at(2));
+        // Rounding can push the invariant mass squared of a (nearly) massless
+        // particle below zero
+        mass = std::sqrt(std::max(energy*energy - momentum.at(0)*momentum.at(0) - momentum.at(1)*momentum.at(1) - momentum.at(2)*momentum.at(2), 0.0));
     } else if(energy_set and kinetic_energy_set) {
         mass = energy - kinetic_energy;
     } else {
@@ -872,7 +874,9 @@ void SecondaryParticleRecord::UpdateMass() const {
     if(mass_set)
         return;
     if(energy_set and momentum_set) {
-        mass = std::sqrt(energy*energy - momentum.at(0)*momentum.at(0) - momentum.at(1)*momentum.at(1) - momentum.at(2)*momentum.at(2));
+        // Rounding can push the invariant mass squared of a (nearly) massless
+        // particle below zero
+        mass = std::sqrt(std::max(energy*energy - momentum.at(0)*momentum.at(0) - momentum.at(1)*momentum.at(1) - momentum.at(2)*momentum.at(2), 0.0));
     } else if(energy_set and kinetic_energy_set) {
         mass = energy - kinetic_energy;
     } else {
-- 
2.43.0


From a3e0b128b73daf6a15fac539dd7a19e399e12265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:04 +0000
Subject: [PATCH 05/32] fix: point of closest approach from the initial
 position steps back along the direction

---
 projects/dataclasses/private/InteractionRecord.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/projects/dataclasses/private/InteractionRecord.cxx b/projects/dataclasses/private/InteractionRecord.cxx
index 2ea6d09..7798cb0 100644
--- a/projects/dataclasses/private/InteractionRecord.cxx
+++ b/projects/dataclasses/private/InteractionRecord.cxx
@@ -423,9 +423,9 @@ void PrimaryDistributionRecord::UpdatePointOfClosestApproach() const {
         return;
     if(initial_position_set and direction_set and initial_distance_from_closest_approach_set) {
         point_of_closest_approach = {
-            initial_position.at(0) + initial_distance_from_closest_approach * direction.at(0),
-            initial_position.at(1) + initial_distance_from_closest_approach * direction.at(1),
-            initial_position.at(2) + initial_distance_from_closest_approach * direction.at(2)};
+            initial_position.at(0) - initial_distance_from_closest_approach * direction.at(0),
+            initial_position.at(1) - initial_distance_from_closest_approach * direction.at(1),
+            initial_position.at(2) - initial_distance_from_closest_approach * direction.at(2)};
     } else if(interaction_vertex_set and direction_set and vertex_distance_from_closest_approach_set) {
         point_of_closest_approach = {
             interaction_vertex.at(0) - vertex_distance_from_closest_approach * direction.at(0),
-- 
2.43.0


From 99d6b613d8693feb79b3dbc87a2313ad85136b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:04 +0000
Subject: [PATCH 06/32] fix: closest-approach distances do not read an unset
 direction

---
 projects/dataclasses/private/InteractionRecord.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/dataclasses/private/InteractionRecord.cxx b/projects/dataclasses/private/InteractionRecord.cxx
index 7798cb0..bbb24be 100644
--- a/projects/dataclasses/private/InteractionRecord.cxx
+++ b/projects/dataclasses/private/InteractionRecord.cxx
@@ -515,7 +515,7 @@ void PrimaryDistributionRecord::UpdateVertexDistanceFromClosestApproach() const
         sign = (sign > 0) ? (1) : (-1);
         magnitude = std::sqrt(difference.at(0)*difference.at(0) + difference.at(1)*difference.at(1) + difference.at(2)*difference.at(2));
         vertex_distance_from_closest_approach = magnitude * sign;
-    } else if(point_of_closest_approach_set and initial_position_set and length_set) {
+    } else if(point_of_closest_approach_set and initial_position_set and direction_set and length_set) {
         double p_dot_d = (
             (initial_position.at(0) * direction.at(0)) +
             (initial_position.at(1) * direction.at(1)) +
@@ -605,7 +605,7 @@ void PrimaryDistributionRecord::UpdateInitialDistanceFromClosestApproach() const
         sign = (sign > 0) ? (1) : (-1);
         magnitude = std::sqrt(difference.at(0)*difference.at(0) + difference.at(1)*difference.at(1) + difference.at(2)*difference.at(2));
         initial_distance_from_closest_approach = magnitude * sign;
-    } else if(point_of_closest_approach_set and interaction_vertex_set and length_set) {
+    } else if(point_of_closest_approach_set and interaction_vertex_set and direction_set and length_set) {
         double p_dot_d = (
             (interaction_vertex.at(0) * direction.at(0)) +
             (interaction_vertex.at(1) * direction.at(1)) +
-- 
2.43.0


From 73b5e236e6927d0f676bf259beeb9cec94afc31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:38 +0000
Subject: [PATCH 07/32] fix: a secondary at rest has no direction instead of a
 NaN one

---
 projects/dataclasses/private/InteractionRecord.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/projects/dataclasses/private/InteractionRecord.cxx b/projects/dataclasses/private/InteractionRecord.cxx
index bbb24be..107c042 100644
--- a/projects/dataclasses/private/InteractionRecord.cxx
+++ b/projects/dataclasses/private/InteractionRecord.cxx
@@ -1129,8 +1129,8 @@ SecondaryDistributionRecord::SecondaryDistributionRecord(InteractionRecord & rec
     mass(record.primary_mass),
     direction([](InteractionRecord const & record) -> std::array<double, 3> {
         std::array<double, 3> direction;
-        if(record.primary_momentum.at(0) != 0) {
-            double magnitude = std::sqrt(record.primary_momentum.at(1)*record.primary_momentum.at(1) + record.primary_momentum.at(2)*record.primary_momentum.at(2) + record.primary_momentum.at(3)*record.primary_momentum.at(3));
+        double magnitude = std::sqrt(record.primary_momentum.at(1)*record.primary_momentum.at(1) + record.primary_momentum.at(2)*record.primary_momentum.at(2) + record.primary_momentum.at(3)*record.primary_momentum.at(3));
+        if(magnitude > 0) {
             direction = {record.primary_momentum.at(1)/magnitude, record.primary_momentum.at(2)/magnitude, record.primary_momentum.at(3)/magnitude};
         } else {
             direction = {0, 0, 0};
@@ -1150,8 +1150,8 @@ SecondaryDistributionRecord::SecondaryDistributionRecord(InteractionRecord const
     mass(record.primary_mass),
     direction([](InteractionRecord const & record) -> std::array<double, 3> {
         std::array<double, 3> direction;
-        if(record.primary_momentum.at(0) != 0) {
-            double magnitude = std::sqrt(record.primary_momentum.at(1)*record.primary_momentum.at(1) + record.primary_momentum.at(2)*record.primary_momentum.at(2) + record.primary_momentum.at(3)*record.primary_momentum.at(3));
+        double magnitude = std::sqrt(record.primary_momentum.at(1)*record.primary_momentum.at(1) + record.primary_momentum.at(2)*record.primary_momentum.at(2) + record.primary_momentum.at(3)*record.primary_momentum.at(3));
+        if(magnitude > 0) {
             direction = {record.primary_momentum.at(1)/magnitude, record.primary_momentum.at(2)/magnitude, record.primary_momentum.at(3)/magnitude};
         } else {
             direction = {0, 0, 0};
-- 
2.43.0


From c9a902fffb5fe1c45c20d0b8b319a50dc9cce68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:38 +0000
Subject: [PATCH 08/32] fix: finalizing a secondary without a length throws
 instead of reading an unset value

---
 projects/dataclasses/private/InteractionRecord.cxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/projects/dataclasses/private/InteractionRecord.cxx b/projects/dataclasses/private/InteractionRecord.cxx
index 107c042..aac5eb2 100644
--- a/projects/dataclasses/private/InteractionRecord.cxx
+++ b/projects/dataclasses/private/InteractionRecord.cxx
@@ -1200,10 +1200,11 @@ void SecondaryDistributionRecord::Finalize(InteractionRecord & record) const {
     record.primary_mass = mass;
     record.primary_momentum = momentum;
     record.primary_helicity = helicity;
+    double const & vertex_distance = GetLength();
     record.interaction_vertex = initial_position;
-    record.interaction_vertex.at(0) += length*direction.at(0);
-    record.interaction_vertex.at(1) += length*direction.at(1);
-    record.interaction_vertex.at(2) += length*direction.at(2);
+    record.interaction_vertex.at(0) += vertex_distance*direction.at(0);
+    record.interaction_vertex.at(1) += vertex_distance*direction.at(1);
+    record.interaction_vertex.at(2) += vertex_distance*direction.at(2);
     record.interaction_time = GetInteractionTime();
 }
 
-- 
2.43.0


From 4db2110fe3755b1e2808b745182fb6bf0628c78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:43 +0000
Subject: [PATCH 09/32] fix: a copied secondary record refers to its own data,
 not to the original's

---
 .../dataclasses/private/InteractionRecord.cxx   | 17 +++++++++++++++++
 .../SIREN/dataclasses/InteractionRecord.h       |  2 +-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/projects/dataclasses/private/InteractionRecord.cxx b/projects/dataclasses/private/InteractionRecord.cxx
index aac5eb2..e515c69 100644
--- a/projects/dataclasses/private/InteractionRecord.cxx
+++ b/projects/dataclasses/private/InteractionRecord.cxx
@@ -1163,6 +1163,23 @@ SecondaryDistributionRecord::SecondaryDistributionRecord(InteractionRecord const
     initial_position(record.primary_initial_position),
     initial_time(record.primary_initial_time) {}
 
+// The reference members have to refer to the copy's own record
+SecondaryDistributionRecord::SecondaryDistributionRecord(SecondaryDistributionRecord const & other) :
+    secondary_index(other.secondary_index),
+    record(other.record),
+    id(other.id),
+    type(record.signature.primary_type),
+    mass(record.primary_mass),
+    direction(other.direction),
+    momentum(record.primary_momentum),
+    helicity(record.primary_helicity),
+    initial_position(record.primary_initial_position),
+    initial_time(record.primary_initial_time),
+    length_set(other.length_set),
+    length(other.length),
+    interaction_time_set(other.interaction_time_set),
+    interaction_time(other.interaction_time) {}
+
 size_t SecondaryDistributionRecord::GetSecondaryIndex() const {
     return secondary_index;
 }
diff --git a/projects/dataclasses/public/SIREN/dataclasses/InteractionRecord.h b/projects/dataclasses/public/SIREN/dataclasses/InteractionRecord.h
index 56dbff9..e63a432 100644
--- a/projects/dataclasses/public/SIREN/dataclasses/InteractionRecord.h
+++ b/projects/dataclasses/public/SIREN/dataclasses/InteractionRecord.h
@@ -440,7 +440,7 @@ private:
 public:
     friend std::ostream& ::operator<<(std::ostream& os, SecondaryDistributionRecord const& record);
 
-    SecondaryDistributionRecord(SecondaryDistributionRecord const & other) = default;
+    SecondaryDistributionRecord(SecondaryDistributionRecord const & other);
     SecondaryDistributionRecord & operator=(SecondaryDistributionRecord const & other) = delete;
     SecondaryDistributionRecord & operator=(SecondaryDistributionRecord && other) = delete;
 
-- 
2.43.0


From a46d77aceb510f179a1be45b70fb716823f436d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:04 +0000
Subject: [PATCH 10/32] fix: Polynom::shift releases its scratch table with
 delete[] and no longer leaks it

---
 projects/math/private/Polynomial.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/math/private/Polynomial.cxx b/projects/math/private/Polynomial.cxx
index fb658b3..beb78d1 100644
--- a/projects/math/private/Polynomial.cxx
+++ b/projects/math/private/Polynomial.cxx
@@ -75,7 +75,8 @@ void Polynom::shift(double x) {
         }
 
         for (int count = 0; count < N_; ++count)
-            delete t[count];
+            delete[] t[count];
+        delete[] t;
     }
 }
 
-- 
2.43.0


From bed7dd3e1745258060dc341cd0cb7998ebb663c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:04 +0000
Subject: [PATCH 11/32] fix: NewtonRaphson returns the root instead of NaN when
 it is hit with a vanishing derivative

---
 projects/math/private/Polynomial.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projects/math/private/Polynomial.cxx b/projects/math/private/Polynomial.cxx
index beb78d1..6587071 100644
--- a/projects/math/private/Polynomial.cxx
+++ b/projects/math/private/Polynomial.cxx
@@ -177,6 +177,10 @@ double NewtonRaphson(std::function<double(double)> func,
     df = dfunc(rts);
 
     for (int j = 1; j < MAX_STEPS; j++) {
+        if (f == 0.0) {
+            // already on the root; a Newton step would be 0/0 if df vanishes too
+            return rts;
+        }
         if ((((rts - xh) * df - f) * ((rts - xl) * df - f) > 0.0) ||
             (std::abs(2.0 * f) > std::abs(dxold * df))) {
             // use bisection if Newton method produces an x that is out of range
-- 
2.43.0


From 02b28c4618ef8e31e05306b8834cb53129752aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:23 +0000
Subject: [PATCH 12/32] fix: InverseIntegral with a constant term measures it
 from the start point, not from the axis origin

---
 .../public/SIREN/detector/CartesianAxisDensityDistribution.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/detector/public/SIREN/detector/CartesianAxisDensityDistribution.h b/projects/detector/public/SIREN/detector/CartesianAxisDensityDistribution.h
index 13b697e..dd00b6c 100644
--- a/projects/detector/public/SIREN/detector/CartesianAxisDensityDistribution.h
+++ b/projects/detector/public/SIREN/detector/CartesianAxisDensityDistribution.h
@@ -124,7 +124,7 @@ class DensityDistribution1D<CartesianAxis1D, DistributionT, typename std::enable
 
         double Ia = dist.AntiDerivative(a);
         std::function<double(double)> F = [&](double x)->double {
-            return (dist.AntiDerivative(x) - Ia) + constant*x - dist_integral;
+            return (dist.AntiDerivative(x) - Ia) + constant*(x - a) - dist_integral;
         };
 
         std::function<double(double)> dF = [&](double x)->double {
-- 
2.43.0


From c650d84d8d1d2ed649e6e79cd6d8ce70f7869c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:23 +0000
Subject: [PATCH 13/32] fix: column depth perpendicular to the axis of a
 cartesian density is not 0/0

---
 .../detector/CartesianAxisDensityDistribution.h   | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/projects/detector/public/SIREN/detector/CartesianAxisDensityDistribution.h b/projects/detector/public/SIREN/detector/CartesianAxisDensityDistribution.h
index dd00b6c..a3f1332 100644
--- a/projects/detector/public/SIREN/detector/CartesianAxisDensityDistribution.h
+++ b/projects/detector/public/SIREN/detector/CartesianAxisDensityDistribution.h
@@ -71,6 +71,8 @@ class DensityDistribution1D<CartesianAxis1D, DistributionT, typename std::enable
         math::Vector3D xj = xi + direction*distance;
         double b = axis.GetX(xj);
         double dxdt = axis.GetdX(xi, direction);
+        if(dxdt == 0) // the density does not change along the path
+            return dist.Evaluate(a) * distance;
         return (dist.AntiDerivative(b) - dist.AntiDerivative(a)) / dxdt;
     }
 
@@ -79,8 +81,11 @@ class DensityDistribution1D<CartesianAxis1D, DistributionT, typename std::enable
         double a = axis.GetX(xi);
         double b = axis.GetX(xj);
         math::Vector3D direction = xj-xi;
+        double distance = direction.magnitude();
         direction.normalize();
         double dxdt = axis.GetdX(xi, direction);
+        if(dxdt == 0) // the density does not change along the path
+            return dist.Evaluate(a) * distance;
         return (dist.AntiDerivative(b) - dist.AntiDerivative(a)) / dxdt;
     };
 
@@ -92,6 +97,11 @@ class DensityDistribution1D<CartesianAxis1D, DistributionT, typename std::enable
         double b = axis.GetX(xi + direction*max_distance);
         double dxdt = axis.GetdX(xi, direction);
 
+        if(dxdt == 0) { // the density does not change along the path
+            double distance = integral / dist.Evaluate(a);
+            return (distance > max_distance) ? -1 : distance;
+        }
+
         double dist_integral = integral * dxdt;
 
         double Ia = dist.AntiDerivative(a);
@@ -120,6 +130,11 @@ class DensityDistribution1D<CartesianAxis1D, DistributionT, typename std::enable
         double b = axis.GetX(xi + direction*max_distance);
         double dxdt = axis.GetdX(xi, direction);
 
+        if(dxdt == 0) { // the density does not change along the path
+            double distance = integral / (dist.Evaluate(a) + constant);
+            return (distance > max_distance) ? -1 : distance;
+        }
+
         double dist_integral = integral * dxdt;
 
         double Ia = dist.AntiDerivative(a);
-- 
2.43.0


From 3c89e258011a457fea7587fc3d96d376b88cb393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:32 +0000
Subject: [PATCH 14/32] fix: the cartesian density headers no longer hide each
 other behind one include guard

---
 .../detector/CartesianAxisExponentialDensityDistribution.h   | 5 +++--
 .../detector/CartesianAxisPolynomialDensityDistribution.h    | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/projects/detector/public/SIREN/detector/CartesianAxisExponentialDensityDistribution.h b/projects/detector/public/SIREN/detector/CartesianAxisExponentialDensityDistribution.h
index b2fe4d8..18e31e4 100644
--- a/projects/detector/public/SIREN/detector/CartesianAxisExponentialDensityDistribution.h
+++ b/projects/detector/public/SIREN/detector/CartesianAxisExponentialDensityDistribution.h
@@ -1,6 +1,6 @@
 #pragma once
-#ifndef SIREN_CartesianAxisDensityDistribution_H
-#define SIREN_CartesianAxisDensityDistribution_H
+#ifndef SIREN_CartesianAxisExponentialDensityDistribution_H
+#define SIREN_CartesianAxisExponentialDensityDistribution_H
 #include <cereal/cereal.hpp>
 #include <cereal/archives/json.hpp>
 #include <cereal/archives/binary.hpp>
@@ -9,6 +9,7 @@
 
 #include "SIREN/detector/Axis1D.h"
 #include "SIREN/detector/CartesianAxis1D.h"
+#include "SIREN/detector/CartesianAxisDensityDistribution.h"
 #include "SIREN/detector/DensityDistribution.h"
 #include "SIREN/detector/DensityDistribution1D.h"
 #include "SIREN/detector/ExponentialDistribution1D.h"
diff --git a/projects/detector/public/SIREN/detector/CartesianAxisPolynomialDensityDistribution.h b/projects/detector/public/SIREN/detector/CartesianAxisPolynomialDensityDistribution.h
index 4a2594d..d1c0afb 100644
--- a/projects/detector/public/SIREN/detector/CartesianAxisPolynomialDensityDistribution.h
+++ b/projects/detector/public/SIREN/detector/CartesianAxisPolynomialDensityDistribution.h
@@ -1,6 +1,6 @@
 #pragma once
-#ifndef SIREN_CartesianAxisDensityDistribution_H
-#define SIREN_CartesianAxisDensityDistribution_H
+#ifndef SIREN_CartesianAxisPolynomialDensityDistribution_H
+#define SIREN_CartesianAxisPolynomialDensityDistribution_H
 #include <cereal/cereal.hpp>
 #include <cereal/archives/json.hpp>
 #include <cereal/archives/binary.hpp>
@@ -9,6 +9,7 @@
 
 #include "SIREN/detector/Axis1D.h"
 #include "SIREN/detector/CartesianAxis1D.h"
+#include "SIREN/detector/CartesianAxisDensityDistribution.h"
 #include "SIREN/detector/DensityDistribution.h"
 #include "SIREN/detector/DensityDistribution1D.h"
 #include "SIREN/detector/PolynomialDistribution1D.h"
-- 
2.43.0


From ee0e1a009e1d66578c687ac830a4447476616c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:08 +0000
Subject: [PATCH 15/32] fix: GetTargetRadiationFraction weights the targets
 that are in the material instead of throwing

---
 projects/detector/private/MaterialModel.cxx               | 4 +++-
 projects/detector/public/SIREN/detector/MaterialModel.tcc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/projects/detector/private/MaterialModel.cxx b/projects/detector/private/MaterialModel.cxx
index 871abb5..1ac16ea 100644
--- a/projects/detector/private/MaterialModel.cxx
+++ b/projects/detector/private/MaterialModel.cxx
@@ -384,7 +384,7 @@ std::vector<double> MaterialModel::GetTargetRadiationFraction(int material_id, s
     fractions.reserve(particle_types.size());
     for(auto const & particle_type : particle_types) {
         std::pair<int, siren::dataclasses::ParticleType> key(material_id, particle_type);
-        if(material_components_by_id_.find(key) != material_components_by_id_.end()) {
+        if(material_components_by_id_.find(key) == material_components_by_id_.end()) {
             fractions.push_back(0.0);
             continue;
         }
@@ -401,6 +401,8 @@ std::vector<double> MaterialModel::GetTargetRadiationFraction(int material_id, s
         fractions.push_back(frac);
         X0inv += frac;
     }
+    if(X0inv == 0) // none of the requested targets contributes
+        return fractions;
     for(unsigned int i=0; i<fractions.size(); ++i) {
         fractions[i] /= X0inv;
     }
diff --git a/projects/detector/public/SIREN/detector/MaterialModel.tcc b/projects/detector/public/SIREN/detector/MaterialModel.tcc
index 4bb1f6a..9995eb2 100644
--- a/projects/detector/public/SIREN/detector/MaterialModel.tcc
+++ b/projects/detector/public/SIREN/detector/MaterialModel.tcc
@@ -46,7 +46,7 @@ std::vector<double> MaterialModel::GetTargetRadiationFraction(int material_id, I
     fractions.reserve(std::distance(begin, end));
     for(Iterator it = begin; it != end; ++it) {
         std::pair<int, siren::dataclasses::ParticleType> key(material_id, *it);
-        if(material_components_by_id_.find(key) != material_components_by_id_.end()) {
+        if(material_components_by_id_.find(key) == material_components_by_id_.end()) {
             fractions.push_back(0.0);
             continue;
         }
@@ -63,6 +63,8 @@ std::vector<double> MaterialModel::GetTargetRadiationFraction(int material_id, I
         fractions.push_back(frac);
         X0inv += frac;
     }
+    if(X0inv == 0) // none of the requested targets contributes
+        return fractions;
     for(unsigned int i=0; i<fractions.size(); ++i) {
         fractions[i] /= X0inv;
     }
-- 
2.43.0


From 2adc1ad14b08bdd50e195b24fdeb9df49ec8b2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:08 +0000
Subject: [PATCH 16/32] fix: redefining a material forgets the components of
 the old definition

---
 projects/detector/private/MaterialModel.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/projects/detector/private/MaterialModel.cxx b/projects/detector/private/MaterialModel.cxx
index 1ac16ea..9a6d7dd 100644
--- a/projects/detector/private/MaterialModel.cxx
+++ b/projects/detector/private/MaterialModel.cxx
@@ -185,6 +185,13 @@ void MaterialModel::AddMaterial(std::string const & material_name, std::map<int,
         }
     } else {
         material_radiation_length_[material_id] = rad_length;
+        // Forget the components of the previous definition
+        for(auto it = material_components_by_id_.begin(); it != material_components_by_id_.end(); ) {
+            if(it->first.first == material_id)
+                it = material_components_by_id_.erase(it);
+            else
+                ++it;
+        }
         // Store material components by material id and component particle type
         for(auto const & material_component : material_components) {
             material_components_by_id_[std::make_pair(material_id, material_component.component.type)] = material_component;
-- 
2.43.0


From 6308ffdb9fa52b43f729a90c41b46addb599a5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:51 +0000
Subject: [PATCH 17/32] fix: SIREN_random::PowerLaw samples inside [min,max],
 also for index -1

---
 projects/utilities/private/Random.cxx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/projects/utilities/private/Random.cxx b/projects/utilities/private/Random.cxx
index 0d268a4..f2d74c0 100644
--- a/projects/utilities/private/Random.cxx
+++ b/projects/utilities/private/Random.cxx
@@ -39,9 +39,11 @@ namespace utilities {
     double SIREN_random::PowerLaw(double min, double max, double n) {
         if(max < min)
             std::swap(min, max);
-        double range = max - min;
-        double unif = range * (this->generator(configuration)) + min;
-        
+        double unif = this->generator(configuration);
+
+        if(n == -1.0) // uniform in log space
+            return min * pow(max / min, unif);
+
         double base = (pow(max,n+1) - pow(min,n+1)) * unif + pow(min,n+1) ; 
         double exp = 1/(n+1) ; 
         return pow(base, exp);
-- 
2.43.0


From 64c5d852213592d9ea02d39591e725113a8c9057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:51 +0000
Subject: [PATCH 18/32] fix: Cone points along its axis for downward and
 unnormalised directions

---
 .../distributions/private/primary/direction/Cone.cxx     | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/projects/distributions/private/primary/direction/Cone.cxx b/projects/distributions/private/primary/direction/Cone.cxx
index 421da40..e91a975 100644
--- a/projects/distributions/private/primary/direction/Cone.cxx
+++ b/projects/distributions/private/primary/direction/Cone.cxx
@@ -22,14 +22,15 @@ namespace distributions {
 //---------------
 Cone::Cone(siren::math::Vector3D dir, double opening_angle) : dir(dir), opening_angle(opening_angle) {
     this->dir.normalize();
-    if(this->dir == siren::math::Vector3D(0,0,1)) {
+    bool along_z = this->dir.GetX() == 0 and this->dir.GetY() == 0;
+    if(along_z and this->dir.GetZ() > 0) {
         rotation = siren::math::Quaternion(0,0,0,1);
-    } else if(this->dir == siren::math::Vector3D(0,0,-1)) {
+    } else if(along_z and this->dir.GetZ() < 0) {
         rotation = siren::math::Quaternion(0,1,0,0);
     } else {
-        siren::math::Vector3D r = cross_product(siren::math::Vector3D(0, 0, 1), dir);
+        siren::math::Vector3D r = cross_product(siren::math::Vector3D(0, 0, 1), this->dir);
         rotation = siren::math::Quaternion(r);
-        rotation.SetW(1.0 + dir.GetZ());
+        rotation.SetW(1.0 + this->dir.GetZ());
         rotation.normalize();
     }
 }
-- 
2.43.0


From c403960b573ffe8ea41104d270e936696f02f76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:51 +0000
Subject: [PATCH 19/32] fix: Cone and FixedDirection order all different
 distributions

---
 .../private/primary/direction/Cone.cxx             | 14 +++++++++++++-
 .../private/primary/direction/FixedDirection.cxx   |  6 +++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/projects/distributions/private/primary/direction/Cone.cxx b/projects/distributions/private/primary/direction/Cone.cxx
index e91a975..4714119 100644
--- a/projects/distributions/private/primary/direction/Cone.cxx
+++ b/projects/distributions/private/primary/direction/Cone.cxx
@@ -2,6 +2,7 @@
 
 #include <array>                                           // for array
 #include <math.h>                                          // for acos, cos
+#include <tuple>                                           // for tie, opera...
 #include <string>                                          // for basic_string
 #include <stdlib.h>                                        // for abs
 
@@ -78,10 +79,21 @@ bool Cone::equal(WeightableDistribution const & other) const {
 
 bool Cone::less(WeightableDistribution const & other) const {
     const Cone* x = dynamic_cast<const Cone*>(&other);
+    if(opening_angle != x->opening_angle)
+        return opening_angle < x->opening_angle;
     if(abs(1.0 - siren::math::scalar_product(dir, x->dir)) < 1e-9) {
         return false;
     } else {
-        return opening_angle < x->opening_angle;
+        double X = dir.GetX();
+        double Y = dir.GetY();
+        double Z = dir.GetZ();
+        double other_X = x->dir.GetX();
+        double other_Y = x->dir.GetY();
+        double other_Z = x->dir.GetZ();
+        return
+            std::tie(X, Y, Z)
+            <
+            std::tie(other_X, other_Y, other_Z);
     }
 }
 
diff --git a/projects/distributions/private/primary/direction/FixedDirection.cxx b/projects/distributions/private/primary/direction/FixedDirection.cxx
index fd23ec0..e809abe 100644
--- a/projects/distributions/private/primary/direction/FixedDirection.cxx
+++ b/projects/distributions/private/primary/direction/FixedDirection.cxx
@@ -61,9 +61,9 @@ bool FixedDirection::less(WeightableDistribution const & other) const {
         double X = dir.GetX();
         double Y = dir.GetY();
         double Z = dir.GetZ();
-        double other_X = dir.GetX();
-        double other_Y = dir.GetY();
-        double other_Z = dir.GetZ();
+        double other_X = x->dir.GetX();
+        double other_Y = x->dir.GetY();
+        double other_Z = x->dir.GetZ();
         return
             std::tie(X, Y, Z)
             <
-- 
2.43.0


From 53a32f6b5704dfc161a98826c0877bc0133845ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:51 +0000
Subject: [PATCH 20/32] fix: PrimaryMass orders by mass

---
 projects/distributions/private/primary/mass/PrimaryMass.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/distributions/private/primary/mass/PrimaryMass.cxx b/projects/distributions/private/primary/mass/PrimaryMass.cxx
index da62235..32a508a 100644
--- a/projects/distributions/private/primary/mass/PrimaryMass.cxx
+++ b/projects/distributions/private/primary/mass/PrimaryMass.cxx
@@ -64,7 +64,7 @@ bool PrimaryMass::equal(WeightableDistribution const & other) const {
 
 bool PrimaryMass::less(WeightableDistribution const & other) const {
     const PrimaryMass* x = dynamic_cast<const PrimaryMass*>(&other);
-    return primary_mass == x->primary_mass;
+    return primary_mass < x->primary_mass;
 }
 
 } // namespace distributions
-- 
2.43.0


From 3bb0e848da7f21e335202b50a5d3adbc7003213a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:51 +0000
Subject: [PATCH 21/32] fix: a NormalizationConstant equals only another
 NormalizationConstant

---
 projects/distributions/private/Distributions.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/distributions/private/Distributions.cxx b/projects/distributions/private/Distributions.cxx
index 33f6336..1b23731 100644
--- a/projects/distributions/private/Distributions.cxx
+++ b/projects/distributions/private/Distributions.cxx
@@ -76,7 +76,7 @@ std::string NormalizationConstant::Name() const {
 }
 
 bool NormalizationConstant::equal(WeightableDistribution const & distribution) const {
-    const PhysicallyNormalizedDistribution* dist = dynamic_cast<const PhysicallyNormalizedDistribution*>(&distribution);
+    const NormalizationConstant* dist = dynamic_cast<const NormalizationConstant*>(&distribution);
     if(!dist) return false;
     return normalization==dist->GetNormalization();
 }
-- 
2.43.0


From b7d2a167bfa4939e08c2e41eaf5a4ab4d626130a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:30 +0000
Subject: [PATCH 22/32] fix: PowerLaw generates nothing outside its energy
 range

---
 projects/distributions/private/primary/energy/PowerLaw.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/projects/distributions/private/primary/energy/PowerLaw.cxx b/projects/distributions/private/primary/energy/PowerLaw.cxx
index 923dbb9..2897729 100644
--- a/projects/distributions/private/primary/energy/PowerLaw.cxx
+++ b/projects/distributions/private/primary/energy/PowerLaw.cxx
@@ -49,7 +49,11 @@ double PowerLaw::pdf(double energy) const {
 }
 
 double PowerLaw::GenerationProbability(std::shared_ptr<siren::detector::DetectorModel const> detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> interactions, siren::dataclasses::InteractionRecord const & record) const {
-    return pdf(record.primary_momentum[0]);
+    double const & energy = record.primary_momentum[0];
+    if(energy < energyMin or energy > energyMax)
+        return 0.0;
+    else
+        return pdf(energy);
 }
 
 std::string PowerLaw::Name() const {
-- 
2.43.0


From 244ef7977635b99926c6c85be7cb100d01509c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:30 +0000
Subject: [PATCH 23/32] fix: FixedDirection normalises its direction

---
 .../SIREN/distributions/primary/direction/FixedDirection.h      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/distributions/public/SIREN/distributions/primary/direction/FixedDirection.h b/projects/distributions/public/SIREN/distributions/primary/direction/FixedDirection.h
index 3ee4607..29f46d3 100644
--- a/projects/distributions/public/SIREN/distributions/primary/direction/FixedDirection.h
+++ b/projects/distributions/public/SIREN/distributions/primary/direction/FixedDirection.h
@@ -32,7 +32,7 @@ protected:
 private:
     siren::math::Vector3D dir;
 public:
-    FixedDirection(siren::math::Vector3D dir) : dir(dir) {};
+    FixedDirection(siren::math::Vector3D dir) : dir(dir.normalized()) {};
 private:
     siren::math::Vector3D SampleDirection(std::shared_ptr<siren::utilities::SIREN_random> rand, std::shared_ptr<siren::detector::DetectorModel const> detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> interactions, siren::dataclasses::PrimaryDistributionRecord & record) const override;
     virtual double GenerationProbability(std::shared_ptr<siren::detector::DetectorModel const> detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> interactions, siren::dataclasses::InteractionRecord const & record) const override;
-- 
2.43.0


From 44dc17043a1591ff88fb038a8fa5e90c14903e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:30 +0000
Subject: [PATCH 24/32] fix: GetCDFEnergyNodes reports the nodes of the CDF

---
 .../private/primary/energy/TabulatedFluxDistribution.cxx        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx b/projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx
index cfae9cc..ab9380f 100644
--- a/projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx
+++ b/projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx
@@ -141,7 +141,7 @@ void TabulatedFluxDistribution::ComputeCDF() {
 
     // declare the cdf vectors
     std::vector<double> cdf_vector;
-    std::vector<double> cdf_energy_nodes;
+    cdf_energy_nodes.clear();
 
     cdf_vector.push_back(0); // start the CDF at zero
     cdf_energy_nodes.push_back(energies[0]);
-- 
2.43.0


From d8ec59150f5a5d024a418d6e48733cc761b821f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:01 +0000
Subject: [PATCH 25/32] fix: irregular interpolation tables use their first bin
 at and below the first node

---
 projects/utilities/public/SIREN/utilities/Interpolator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/utilities/public/SIREN/utilities/Interpolator.h b/projects/utilities/public/SIREN/utilities/Interpolator.h
index 2165732..818b822 100644
--- a/projects/utilities/public/SIREN/utilities/Interpolator.h
+++ b/projects/utilities/public/SIREN/utilities/Interpolator.h
@@ -124,10 +124,10 @@ struct IndexFinderIrregular {
         // begin is the first element
         // distance(begin, pointer to y) --> y
         // therefore this function returns the index of the lower bin edge
-        unsigned int index = std::distance(data.begin(), std::lower_bound(data.begin(), data.end(), x)) - 1;
+        int index = int(std::distance(data.begin(), std::lower_bound(data.begin(), data.end(), x))) - 1;
         if(index < 0)
             index = 0;
-        else if(index >= n_points - 1)
+        else if(index >= int(n_points) - 1)
             index = n_points - 2;
         return std::tuple<unsigned int, T, T, T>(index,
                 x,
-- 
2.43.0


From 7b524fc2dcaf48ec12db83f20edc6ca78f749a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:01 +0000
Subject: [PATCH 26/32] fix: the mask of zero table values is allocated and
 follows the node order

---
 projects/utilities/public/SIREN/utilities/Interpolator.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/projects/utilities/public/SIREN/utilities/Interpolator.h b/projects/utilities/public/SIREN/utilities/Interpolator.h
index 818b822..b0a3099 100644
--- a/projects/utilities/public/SIREN/utilities/Interpolator.h
+++ b/projects/utilities/public/SIREN/utilities/Interpolator.h
@@ -397,8 +397,10 @@ public:
 
         std::vector<T> function_values(table.f.begin(), table.f.end());
         if(is_log) {
-            zero_mask.reserve(function_values.size());
-            std::transform(function_values.begin(), function_values.end(), zero_mask.begin(), [](T t)->T{return t<=0;});
+            zero_mask.assign(x.size(), false);
+            for(unsigned int i=0; i<table.x.size(); ++i) {
+                zero_mask[xmap[table.x[i]]] = function_values[i] <= 0;
+            }
             std::transform(function_values.begin(), function_values.end(), function_values.begin(), [](T t)->T{if(t > 0){return log(t);} else {return t;}});
         }
 
@@ -556,7 +558,7 @@ public:
         std::vector<T> function_values(table.f.begin(), table.f.end());
         std::vector<bool> z_mask;
         if(is_log) {
-            z_mask.reserve(function_values.size());
+            z_mask.resize(function_values.size());
             std::transform(function_values.begin(), function_values.end(), z_mask.begin(), [](T t)->T{return t<=0;});
             std::transform(function_values.begin(), function_values.end(), function_values.begin(), [](T t)->T{if(t > 0){return log(t);} else {return t;}});
             //std::transform(function_values.begin(), function_values.end(), function_values.begin(), [](T t)->T{return log(t);});
-- 
2.43.0


From 5b8449c40b2139e0f2e61d2616201a03e99b079e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:01 +0000
Subject: [PATCH 27/32] fix: logarithmic tables with zeros interpolate linearly
 between their nodes

---
 .../public/SIREN/utilities/Interpolator.h      | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/projects/utilities/public/SIREN/utilities/Interpolator.h b/projects/utilities/public/SIREN/utilities/Interpolator.h
index b0a3099..f9e8e61 100644
--- a/projects/utilities/public/SIREN/utilities/Interpolator.h
+++ b/projects/utilities/public/SIREN/utilities/Interpolator.h
@@ -432,13 +432,13 @@ public:
         if(is_log) {
             if(zero_mask[index]) {
                 if(zero_mask[index+1]) {
-                    result = fa + (fb - fa) * exp(val - xa - delta);
+                    result = fa + (fb - fa) * (exp(val - xa) - 1) / (exp(delta) - 1);
                 } else {
-                    result = fa + (exp(fb) - fa) * exp(val - xa - delta);
+                    result = fa + (exp(fb) - fa) * (exp(val - xa) - 1) / (exp(delta) - 1);
                 }
             } else {
                 if(zero_mask[index+1]) {
-                    result = exp(fa) + (fb - exp(fa)) * exp(val - xa - delta);
+                    result = exp(fa) + (fb - exp(fa)) * (exp(val - xa) - 1) / (exp(delta) - 1);
                 } else {
                     result = exp(fa + (fb - fa) * (val - xa) / delta);
                 }
@@ -632,14 +632,14 @@ public:
             bool has_zero = zaa or zab or zba or zbb;
             if(has_zero) {
                 if(indexer_x.IsLog()) {
-                    da_x = exp(da_x);
-                    db_x = exp(db_x);
-                    delta_x = exp(delta_x);
+                    delta_x = exp(delta_x) - 1;
+                    da_x = exp(da_x) - 1;
+                    db_x = delta_x - da_x;
                 }
                 if(indexer_y.IsLog()) {
-                    da_y = exp(da_y);
-                    db_y = exp(db_y);
-                    delta_y = exp(delta_y);
+                    delta_y = exp(delta_y) - 1;
+                    da_y = exp(da_y) - 1;
+                    db_y = delta_y - da_y;
                 }
                 if(!zaa)
                     faa = exp(faa);
-- 
2.43.0


From 608e0a3d2f2dc423b356a7f4b9a290a6a7ca590a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:32 +0000
Subject: [PATCH 28/32] fix: Tabulated2DFluxDistribution samples its own
 density (log-energy proposals, rejected steps)

---
 .../Tabulated2DFluxDistribution.cxx           | 34 ++++++++++++-------
 .../Tabulated2DFluxDistribution.h             |  3 ++
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx b/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx
index ad58837..e99b590 100644
--- a/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx
+++ b/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx
@@ -277,6 +277,11 @@ std::pair<double, double> Tabulated2DFluxDistribution::SampleTablePoint(std::sha
     return std::make_pair(energy, cosZenith);
 }
 
+double Tabulated2DFluxDistribution::ProposalWeight(double energy, double cosZenith) const {
+    // Target density relative to the density of SampleTablePoint, which is uniform in log-energy for log-spaced tables
+    return pdf(energy, cosZenith) * (fluxTable.IsLogX() ? energy : 1.0);
+}
+
 std::pair<double,siren::math::Vector3D> Tabulated2DFluxDistribution::SampleEnergyAndDirection(std::shared_ptr<siren::utilities::SIREN_random> rand, std::shared_ptr<siren::detector::DetectorModel const> detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> interactions, siren::dataclasses::PrimaryDistributionRecord & record) const {
 
     double energy, cosZenith, test_density;
@@ -287,26 +292,29 @@ std::pair<double,siren::math::Vector3D> Tabulated2DFluxDistribution::SampleEnerg
         energy_cosZenith = SampleTablePoint(rand);
         energy = energy_cosZenith.first;
         cosZenith = energy_cosZenith.second;
-        test_density = pdf(energy, cosZenith);
+        test_density = ProposalWeight(energy, cosZenith);
         bool accept = (MH_density <= 0) || (test_density >= MH_density) || (rand->Uniform() < test_density / MH_density);
         if(accept) {
             MH_density = test_density;
+            MH_energy = energy;
+            MH_cosZenith = cosZenith;
             MH_sampled_points++;
         }
     }
-    // Sample one point after burn-in
-    bool accept = false;
-    while(!accept) {
-        energy_cosZenith = SampleTablePoint(rand);
-        energy = energy_cosZenith.first;
-        cosZenith = energy_cosZenith.second;
-        test_density = pdf(energy, cosZenith);
-        accept = (MH_density <= 0) || (test_density >= MH_density) || (rand->Uniform() < test_density / MH_density);
-        if(accept) {
-            MH_density = test_density;
-            MH_sampled_points++;
-        }
+    // Sample one point after burn-in; a rejected proposal repeats the current point
+    energy_cosZenith = SampleTablePoint(rand);
+    energy = energy_cosZenith.first;
+    cosZenith = energy_cosZenith.second;
+    test_density = ProposalWeight(energy, cosZenith);
+    bool accept = (MH_density <= 0) || (test_density >= MH_density) || (rand->Uniform() < test_density / MH_density);
+    if(accept) {
+        MH_density = test_density;
+        MH_energy = energy;
+        MH_cosZenith = cosZenith;
     }
+    MH_sampled_points++;
+    energy = MH_energy;
+    cosZenith = MH_cosZenith;
     // Convert cos(zenith) to a 3D direction vector
     double sin_theta = sqrt(1.0 - cosZenith * cosZenith);
     double phi = rand->Uniform(-M_PI, M_PI);
diff --git a/projects/distributions/public/SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h b/projects/distributions/public/SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h
index ce422cb..aefa74d 100644
--- a/projects/distributions/public/SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h
+++ b/projects/distributions/public/SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h
@@ -35,6 +35,7 @@ protected:
     Tabulated2DFluxDistribution();
     void ComputeIntegral();
     std::pair<double, double> SampleTablePoint(std::shared_ptr<siren::utilities::SIREN_random> rand) const;
+    double ProposalWeight(double energy, double cosZenith) const;
 private:
     double energyMin;
     double energyMax;
@@ -52,6 +53,8 @@ private:
     const size_t burnin = 40;
     mutable size_t MH_sampled_points = 0;
     mutable double MH_density = 0;
+    mutable double MH_energy = 0;
+    mutable double MH_cosZenith = 0;
 
     double unnormed_pdf(double energy, double cosZenith) const;
     double pdf(double energy, double cosZenith) const;
-- 
2.43.0


From b503472409cd6db5d8c23b56aa7ed52280e57e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:10 +0000
Subject: [PATCH 29/32] fix: setting a list of distributions refuses duplicates
 like adding them one by one does

---
 projects/injection/private/Process.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/projects/injection/private/Process.cxx b/projects/injection/private/Process.cxx
index 0543f7a..c375e25 100644
--- a/projects/injection/private/Process.cxx
+++ b/projects/injection/private/Process.cxx
@@ -96,7 +96,7 @@ std::vector<std::shared_ptr<distributions::WeightableDistribution>> const & Phys
 void PhysicalProcess::SetPhysicalDistributions(std::vector<std::shared_ptr<distributions::WeightableDistribution>> const & distributions) {
     for(std::vector<std::shared_ptr<distributions::WeightableDistribution>>::const_iterator it_1 = distributions.begin(); it_1 != distributions.end(); ++it_1) {
         for(std::vector<std::shared_ptr<distributions::WeightableDistribution>>::const_iterator it_2 = it_1 + 1; it_2 != distributions.end(); ++it_2) {
-            if((*it_1) == (*it_2))
+            if((**it_1) == (**it_2))
                 throw std::runtime_error("Cannot add duplicate WeightableDistributions");
         }
     }
@@ -136,7 +136,7 @@ void PrimaryInjectionProcess::AddPrimaryInjectionDistribution(std::shared_ptr<di
 void PrimaryInjectionProcess::SetPrimaryInjectionDistributions(std::vector<std::shared_ptr<distributions::PrimaryInjectionDistribution>> const & distributions) {
     for(std::vector<std::shared_ptr<distributions::PrimaryInjectionDistribution>>::const_iterator it_1 = distributions.begin(); it_1 != distributions.end(); ++it_1) {
         for(std::vector<std::shared_ptr<distributions::PrimaryInjectionDistribution>>::const_iterator it_2 = it_1 + 1; it_2 != distributions.end(); ++it_2) {
-            if((*it_1) == (*it_2))
+            if((**it_1) == (**it_2))
                 throw std::runtime_error("Cannot add duplicate PrimaryInjectionDistributions");
         }
     }
@@ -195,7 +195,7 @@ void SecondaryInjectionProcess::AddSecondaryInjectionDistribution(std::shared_pt
 void SecondaryInjectionProcess::SetSecondaryInjectionDistributions(std::vector<std::shared_ptr<distributions::SecondaryInjectionDistribution>> const & distributions) {
     for(std::vector<std::shared_ptr<distributions::SecondaryInjectionDistribution>>::const_iterator it_1 = distributions.begin(); it_1 != distributions.end(); ++it_1) {
         for(std::vector<std::shared_ptr<distributions::SecondaryInjectionDistribution>>::const_iterator it_2 = it_1 + 1; it_2 != distributions.end(); ++it_2) {
-            if((*it_1) == (*it_2))
+            if((**it_1) == (**it_2))
                 throw std::runtime_error("Cannot add duplicate SecondaryInjectionDistributions");
         }
     }
-- 
2.43.0


From 4cf60e4449c7a7a89261593fd3701757c2674f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:10 +0000
Subject: [PATCH 30/32] fix: range and depth functions of different kinds are
 ordered by their kind

---
 .../distributions/private/primary/vertex/DepthFunction.cxx    | 4 ++--
 .../distributions/private/primary/vertex/RangeFunction.cxx    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/projects/distributions/private/primary/vertex/DepthFunction.cxx b/projects/distributions/private/primary/vertex/DepthFunction.cxx
index 74d88a1..3720ab9 100644
--- a/projects/distributions/private/primary/vertex/DepthFunction.cxx
+++ b/projects/distributions/private/primary/vertex/DepthFunction.cxx
@@ -25,10 +25,10 @@ bool DepthFunction::operator==(DepthFunction const & distribution) const {
 }
 
 bool DepthFunction::operator<(DepthFunction const & distribution) const {
-    if(typeid(this) == typeid(&distribution))
+    if(typeid(*this) == typeid(distribution))
         return this->less(distribution);
     else
-        return std::type_index(typeid(this)) < std::type_index(typeid(&distribution));
+        return std::type_index(typeid(*this)) < std::type_index(typeid(distribution));
 }
 
 } // namespace distributions
diff --git a/projects/distributions/private/primary/vertex/RangeFunction.cxx b/projects/distributions/private/primary/vertex/RangeFunction.cxx
index 737be7d..6c25241 100644
--- a/projects/distributions/private/primary/vertex/RangeFunction.cxx
+++ b/projects/distributions/private/primary/vertex/RangeFunction.cxx
@@ -24,10 +24,10 @@ bool RangeFunction::operator==(RangeFunction const & distribution) const {
 }
 
 bool RangeFunction::operator<(RangeFunction const & distribution) const {
-    if(typeid(this) == typeid(&distribution))
+    if(typeid(*this) == typeid(distribution))
         return this->less(distribution);
     else
-        return std::type_index(typeid(this)) < std::type_index(typeid(&distribution));
+        return std::type_index(typeid(*this)) < std::type_index(typeid(distribution));
 }
 
 } // namespace distributions
-- 
2.43.0


From 40c1d2426bf73059aabab313cae19cf6e16a2069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:11 +0000
Subject: [PATCH 31/32] fix: geom3::rotationBetween takes the absolute value of
 doubles, not of truncated integers

---
 vendor/rk/rk/geom3_Vector3.icc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vendor/rk/rk/geom3_Vector3.icc b/vendor/rk/rk/geom3_Vector3.icc
index 3e443fe..fc28648 100644
--- a/vendor/rk/rk/geom3_Vector3.icc
+++ b/vendor/rk/rk/geom3_Vector3.icc
@@ -292,12 +292,12 @@ namespace geom3 {
         UnitVector3 d2 = v2;
         Vector3 cross = d1.cross(d2);
         double scalar = d1.dot(d2);
-        if(abs(1.0 - scalar) < 1e-9) {
+        if(std::abs(1.0 - scalar) < 1e-9) {
             return Rotation3();
-        } else if (abs(1.0 + scalar) < 1e-9) {
-            double x = abs(v1.x());
-            double y = abs(v1.y());
-            double z = abs(v1.z());
+        } else if (std::abs(1.0 + scalar) < 1e-9) {
+            double x = std::abs(v1.x());
+            double y = std::abs(v1.y());
+            double z = std::abs(v1.z());
 
             UnitVector3 other = x < y ? (x < z ? UnitVector3::xAxis() : UnitVector3::zAxis()) : (y < z ? UnitVector3::zAxis() : UnitVector3::zAxis());
             UnitVector3 vo = v1.cross(other).direction();
-- 
2.43.0


From 5fa33c53467452fb9f7d3f88dc6a44170d686e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:15 +0000
Subject: [PATCH 32/32] fix: HNLDecay keeps the sign of the decay asymmetry of
 vector mesons

---
 projects/interactions/private/HNLDecay.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/interactions/private/HNLDecay.cxx b/projects/interactions/private/HNLDecay.cxx
index 2f33d73..ddfc6db 100644
--- a/projects/interactions/private/HNLDecay.cxx
+++ b/projects/interactions/private/HNLDecay.cxx
@@ -843,7 +843,7 @@ double HNLDecay::DifferentialDecayWidth(dataclasses::InteractionRecord const & r
       X_dir.normalize();
       double CosThetaGamma = X_dir*hnl_dir; // scalar product
       double alpha = GetAlpha(record.signature.secondary_types[X_index]);
-      alpha = std::copysign(alpha,record.primary_helicity); // 1 for RH, -1 for LH
+      alpha *= std::copysign(1.0,record.primary_helicity); // 1 for RH, -1 for LH
       alpha = (record.signature.primary_type == siren::dataclasses::ParticleType::N4) ? -1*alpha : alpha;
       return DecayWidth/2. * (1 + alpha*CosThetaGamma);
     } // end 2 body decays
@@ -925,7 +925,7 @@ void HNLDecay::SampleFinalState(dataclasses::CrossSectionDistributionRecord & re
 
       double CosTheta;
       double alpha = GetAlpha(record.signature.secondary_types[X_index]);
-      alpha = std::copysign(alpha,record.primary_helicity); // 1 for RH, -1 for LH
+      alpha *= std::copysign(1.0,record.primary_helicity); // 1 for RH, -1 for LH
       alpha = (record.signature.primary_type == siren::dataclasses::ParticleType::N4) ? -1*alpha : alpha;
       if(nature==ChiralNature::Majorana || std::abs(alpha) < 1e-12) {
         CosTheta = random->Uniform(-1,1);
-- 
2.43.0

