From 310b3e4a0510bc0cdfb4d7940fb1b483f24bd4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 01/55] fix: compare polynomials with different numbers of
 coefficients as unequal

---
 .../include/mav_trajectory_generation/polynomial.h              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h
index 6534a6f..a2b505b 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h
@@ -63,7 +63,7 @@ class Polynomial {
   int N() const { return N_; }
 
   inline bool operator==(const Polynomial& rhs) const {
-    return coefficients_ == rhs.coefficients_;
+    return N_ == rhs.N_ && coefficients_ == rhs.coefficients_;
   }
   inline bool operator!=(const Polynomial& rhs) const {
     return !operator==(rhs);
-- 
2.43.0


From 4511bfef6d658f4e290f8ab07e5748ced737f6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 02/55] fix: return all roots when Jenkins-Traub does not
 converge for some of them

---
 .../mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp b/subpackages/mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp
index e9d1240..06fe6e3 100644
--- a/subpackages/mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp
+++ b/subpackages/mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp
@@ -44,6 +44,8 @@
 #include <cmath>
 #include <cfloat>
 
+#include <unsupported/Eigen/Polynomials>
+
 #include "mav_trajectory_generation/rpoly/rpoly_ak1.h"
 
 namespace mav_trajectory_generation {
@@ -109,6 +111,15 @@ bool findRootsJenkinsTraub(const Eigen::VectorXd& coefficients_increasing,
   delete[] roots_real;
   delete[] roots_imag;
 
+  if (degree < n_coefficients - 1) {
+    // Jenkins-Traub did not converge for all roots. Get the complete set from
+    // the eigenvalues of the companion matrix instead.
+    Eigen::PolynomialSolver<double, Eigen::Dynamic> solver(
+        Eigen::VectorXd(coefficients_decreasing.reverse()));
+    *roots = solver.roots();
+    return true;
+  }
+
   if (degree > 0) {
     return true;
   } else {
-- 
2.43.0


From 885db430512b0b82720b28b5d6e30da3456202e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 03/55] fix: keep the segment times when extracting a single
 dimension of a trajectory

---
 subpackages/mav_trajectory_generation/src/trajectory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subpackages/mav_trajectory_generation/src/trajectory.cpp b/subpackages/mav_trajectory_generation/src/trajectory.cpp
index 22d6dd7..b39dc41 100644
--- a/subpackages/mav_trajectory_generation/src/trajectory.cpp
+++ b/subpackages/mav_trajectory_generation/src/trajectory.cpp
@@ -150,6 +150,7 @@ Trajectory Trajectory::getTrajectoryWithSingleDimension(int dimension) const {
   for (size_t k = 0; k < segments_.size(); ++k) {
     Segment segment(N_, 1);
     segment[0] = (segments_[k])[dimension];
+    segment.setTime(segments_[k].getTime());
     segments.push_back(segment);
   }
 
-- 
2.43.0


From 4e1ed8cd01e770f31ed43ee69287fcee801dec91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 04/55] fix: start the samples of evaluateRange at the
 requested start time

---
 subpackages/mav_trajectory_generation/src/trajectory.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/src/trajectory.cpp b/subpackages/mav_trajectory_generation/src/trajectory.cpp
index b39dc41..dbcbe49 100644
--- a/subpackages/mav_trajectory_generation/src/trajectory.cpp
+++ b/subpackages/mav_trajectory_generation/src/trajectory.cpp
@@ -113,9 +113,17 @@ void Trajectory::evaluateRange(double t_start, double t_end, double dt,
     return;
   }
 
+  // Make sure we don't go off the end of the segments (can happen if t_start is
+  // equal to trajectory max time).
+  if (i >= segments_.size()) {
+    if (segments_.empty()) return;
+    i = segments_.size() - 1;
+  }
+
   // Go back to the start of this segment.
   accumulated_time -= segments_[i].getTime();
   double time_in_segment = t_start - accumulated_time;
+  accumulated_time = t_start;
 
   // Get all the samples, incrementing the segments as we go.
   while (accumulated_time < t_end) {
-- 
2.43.0


From 3e4f6a3841a51223206efb8919c3ff529c79737e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 05/55] fix: use the time-scaled polynomials when appending
 dimensions of different order

---
 subpackages/mav_trajectory_generation/src/segment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/src/segment.cpp b/subpackages/mav_trajectory_generation/src/segment.cpp
index 8aa578e..d6c3a32 100644
--- a/subpackages/mav_trajectory_generation/src/segment.cpp
+++ b/subpackages/mav_trajectory_generation/src/segment.cpp
@@ -243,12 +243,12 @@ bool Segment::getSegmentWithAppendedDimension(const Segment& segment_to_append,
     for (int i = 0; i < new_D; i++) {
       Polynomial polynomial_to_append(new_N);
       if (i < D_) {
-        if (!polynomials_[i].getPolynomialWithAppendedCoefficients(
+        if (!current_segment[i].getPolynomialWithAppendedCoefficients(
                 new_N, &polynomial_to_append)) {
           return false;
         }
       } else {
-        if (!segment_to_append[i - D_].getPolynomialWithAppendedCoefficients(
+        if (!segment_to_append_temp[i - D_].getPolynomialWithAppendedCoefficients(
                 new_N, &polynomial_to_append)) {
           return false;
         }
-- 
2.43.0


From 2894e8debbeed0d9b40f44efa9a110c5100776e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 06/55] fix: never estimate a zero segment time between
 coinciding waypoints

---
 subpackages/mav_trajectory_generation/src/vertex.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/src/vertex.cpp b/subpackages/mav_trajectory_generation/src/vertex.cpp
index a46cdaf..cae6544 100644
--- a/subpackages/mav_trajectory_generation/src/vertex.cpp
+++ b/subpackages/mav_trajectory_generation/src/vertex.cpp
@@ -258,6 +258,11 @@ std::vector<double> estimateSegmentTimesNfabian(const Vertex::Vector& vertices,
   CHECK_GE(vertices.size(), 2);
   std::vector<double> segment_times;
   segment_times.reserve(vertices.size() - 1);
+
+  // Waypoints may coincide or lie very close to each other. The optimization
+  // needs strictly positive segment times, of at least its lower bound.
+  constexpr double kMinSegmentTime = 0.1;
+
   for (size_t i = 0; i < vertices.size() - 1; ++i) {
     Eigen::VectorXd start, end;
     vertices[i].getConstraint(derivative_order::POSITION, &start);
@@ -283,6 +288,7 @@ std::vector<double> estimateSegmentTimesNfabian(const Vertex::Vector& vertices,
     } else {
       t = distance / v_max;
     }
+    t = std::max(kMinSegmentTime, t);
     segment_times.push_back(t);
   }
   return segment_times;
-- 
2.43.0


From 48993f17616e553de38b073589335c44ce9a771c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 07/55] fix: apply time_factor in
 estimateSegmentTimesVelocityRamp

---
 subpackages/mav_trajectory_generation/src/vertex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/src/vertex.cpp b/subpackages/mav_trajectory_generation/src/vertex.cpp
index cae6544..885a0b9 100644
--- a/subpackages/mav_trajectory_generation/src/vertex.cpp
+++ b/subpackages/mav_trajectory_generation/src/vertex.cpp
@@ -245,7 +245,7 @@ std::vector<double> estimateSegmentTimesVelocityRamp(
     vertices[i].getConstraint(derivative_order::POSITION, &start);
     vertices[i + 1].getConstraint(derivative_order::POSITION, &end);
     double t = computeTimeVelocityRamp(start, end, v_max, a_max);
-    t = std::max(kMinSegmentTime, t);
+    t = std::max(kMinSegmentTime, time_factor * t);
     segment_times.push_back(t);
   }
 
-- 
2.43.0


From 0f0daa9958c3dfd1ace7451abca696dbe8134bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 08/55] fix: start the accumulated maximum below every sample

---
 .../include/mav_trajectory_generation/timing.h                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
index f30305d..651b1cd 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
@@ -42,7 +42,7 @@ class Accumulator {
         window_sum_(0),
         sum_(0),
         min_(std::numeric_limits<T>::max()),
-        max_(std::numeric_limits<T>::min()) {}
+        max_(std::numeric_limits<T>::lowest()) {}
 
   void Add(T sample) {
     if (window_samples_ < N) {
-- 
2.43.0


From 5fa45643b29a2d6f95bdbe51feac20a8fe769685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:24 +0000
Subject: [PATCH 09/55] fix: measure timer intervals with a clock that is never
 set back

---
 .../include/mav_trajectory_generation/timing.h              | 2 +-
 subpackages/mav_trajectory_generation/src/timing.cpp        | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
index 651b1cd..fb6ed1b 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
@@ -132,7 +132,7 @@ class Timer {
   bool IsTiming() const;
 
  private:
-  std::chrono::time_point<std::chrono::system_clock> time_;
+  std::chrono::time_point<std::chrono::steady_clock> time_;
 
   bool timing_;
   size_t handle_;
diff --git a/subpackages/mav_trajectory_generation/src/timing.cpp b/subpackages/mav_trajectory_generation/src/timing.cpp
index 479ad7d..0c90b15 100644
--- a/subpackages/mav_trajectory_generation/src/timing.cpp
+++ b/subpackages/mav_trajectory_generation/src/timing.cpp
@@ -89,12 +89,12 @@ Timer::~Timer() {
 
 void Timer::Start() {
   timing_ = true;
-  time_ = std::chrono::system_clock::now();
+  time_ = std::chrono::steady_clock::now();
 }
 
 void Timer::Stop() {
-  std::chrono::time_point<std::chrono::system_clock> now =
-      std::chrono::system_clock::now();
+  std::chrono::time_point<std::chrono::steady_clock> now =
+      std::chrono::steady_clock::now();
   double dt = std::chrono::duration<double>(now - time_).count();
 
   Timing::Instance().AddTime(handle_, dt);
-- 
2.43.0


From 3924c838d5285cba5e07392c8568deee395ab9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 10/55] fix: round segment times to the nearest nanosecond when
 saving

---
 .../include/mav_trajectory_generation/segment.h                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/segment.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/segment.h
index ccd5645..687d256 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/segment.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/segment.h
@@ -56,7 +56,7 @@ class Segment {
   int N() const { return N_; }
   double getTime() const { return time_; }
   uint64_t getTimeNSec() const {
-    return static_cast<uint64_t>(kNumNSecPerSec * time_);
+    return static_cast<uint64_t>(kNumNSecPerSec * time_ + 0.5);
   }
 
   void setTime(double time_sec) { time_ = time_sec; }
-- 
2.43.0


From fb16181c20d31603be2563a2e98111091554a495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 11/55] fix: report a trajectory file that could not be written

---
 subpackages/mav_trajectory_generation/src/io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/src/io.cpp b/subpackages/mav_trajectory_generation/src/io.cpp
index bfa5159..45caa6e 100644
--- a/subpackages/mav_trajectory_generation/src/io.cpp
+++ b/subpackages/mav_trajectory_generation/src/io.cpp
@@ -163,7 +163,7 @@ bool segmentsToFile(
   fout << out.c_str();
   fout.close();
 
-  return true;
+  return fout.good();
 }
 
 bool segmentsFromFile(const std::string& filename,
-- 
2.43.0


From 3e2de539ddfb45b22ac0c6222f7898b87fce6448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 12/55] fix: make room for all segment times in the sampled
 state file

---
 subpackages/mav_trajectory_generation/src/io.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/src/io.cpp b/subpackages/mav_trajectory_generation/src/io.cpp
index 45caa6e..0f4ac66 100644
--- a/subpackages/mav_trajectory_generation/src/io.cpp
+++ b/subpackages/mav_trajectory_generation/src/io.cpp
@@ -22,6 +22,7 @@
 #include "mav_trajectory_generation/trajectory_sampling.h"
 
 #include <yaml-cpp/yaml.h>
+#include <algorithm>
 #include <fstream>
 
 const std::string kSegmentsKey = "segments";
@@ -232,7 +233,11 @@ bool sampledTrajectoryStatesToFile(const std::string& filename,
   // Layout: [t, x, y, z, vx, vy, vz, jx, jy, jz, sx, sy, sz, qw, qx, qy, qz,
   // wx, wy, wz, ax, ay, az, tm]
   const unsigned int dim = 3;
-  Eigen::MatrixXd output(trajectory_points.size(), 8 * dim + 3);
+  // The last column holds one entry per segment, which may need more rows than
+  // there are samples.
+  const size_t num_rows =
+      std::max<size_t>(trajectory_points.size(), trajectory.K());
+  Eigen::MatrixXd output(num_rows, 8 * dim + 3);
   output.setZero();
   for (int i = 0; i < trajectory_points.size(); ++i) {
     const mav_msgs::EigenTrajectoryPoint state = trajectory_points[i];
@@ -275,7 +280,7 @@ bool sampledTrajectoryStatesToFile(const std::string& filename,
   }
   fs << output;
   fs.close();
-  return true;
+  return fs.good();
 }
 
 }  // namespace mav_trajectory_generation
-- 
2.43.0


From 4bcd161cb0b9b17592714506dab1e84ff6680438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 13/55] fix: refuse malformed trajectory files and documents
 instead of aborting

---
 .../include/mav_trajectory_generation/io.h    |   9 +-
 .../mav_trajectory_generation/src/io.cpp      | 146 ++++++++++--------
 2 files changed, 85 insertions(+), 70 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/io.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/io.h
index b3ca603..c4c931f 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/io.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/io.h
@@ -53,14 +53,9 @@ inline bool trajectoryToFile(
 bool segmentsFromFile(const std::string& filename,
                       mav_trajectory_generation::Segment::Vector* segments);
 
-inline bool trajectoryFromFile(
+bool trajectoryFromFile(
     const std::string& filename,
-    mav_trajectory_generation::Trajectory* trajectory) {
-  mav_trajectory_generation::Segment::Vector segments;
-  bool success = segmentsFromFile(filename, &segments);
-  trajectory->setSegments(segments);
-  return success;
-}
+    mav_trajectory_generation::Trajectory* trajectory);
 
 bool sampledTrajectoryStatesToFile(const std::string& filename,
                                    const Trajectory& trajectory);
diff --git a/subpackages/mav_trajectory_generation/src/io.cpp b/subpackages/mav_trajectory_generation/src/io.cpp
index 0f4ac66..5d0d039 100644
--- a/subpackages/mav_trajectory_generation/src/io.cpp
+++ b/subpackages/mav_trajectory_generation/src/io.cpp
@@ -23,6 +23,7 @@
 
 #include <yaml-cpp/yaml.h>
 #include <algorithm>
+#include <exception>
 #include <fstream>
 
 const std::string kSegmentsKey = "segments";
@@ -71,46 +72,84 @@ YAML::Node trajectoryToYaml(const Trajectory& trajectory) {
 bool coefficientsFromYaml(const YAML::Node& node,
                           Eigen::VectorXd* coefficients) {
   CHECK_NOTNULL(coefficients);
-  if (!node.IsSequence()) return false;
-  *coefficients = Eigen::VectorXd(node.size());
-  for (std::size_t i = 0; i < node.size(); ++i) {
-    (*coefficients)(i) = node[i].as<double>();
+  try {
+    if (!node.IsSequence()) return false;
+    Eigen::VectorXd result(node.size());
+    for (std::size_t i = 0; i < node.size(); ++i) {
+      result(i) = node[i].as<double>();
+    }
+    *coefficients = result;
+  } catch (const YAML::Exception&) {
+    return false;  // Not a list of numbers.
   }
   return true;
 }
 
 bool segmentFromYaml(const YAML::Node& node, Segment* segment) {
   CHECK_NOTNULL(segment);
+  try {
+    if (!node.IsMap()) return false;
+    if (!node[kNumCoefficientsKey]) return false;
+    if (!node[kDimKey]) return false;
+    if (!node[kSegmentTimeKey]) return false;
+    if (!node[kCoefficientsKey]) return false;
+    if (!node[kCoefficientsKey].IsSequence()) return false;
 
-  if (!node[kNumCoefficientsKey]) return false;
-  if (!node[kDimKey]) return false;
-  if (!node[kSegmentTimeKey]) return false;
-  if (!node[kCoefficientsKey]) return false;
-  if (!node[kCoefficientsKey].IsSequence()) return false;
-
-  *segment =
-      Segment(node[kNumCoefficientsKey].as<int>(), node[kDimKey].as<int>());
+    // Header.
+    const int N = node[kNumCoefficientsKey].as<int>();
+    const int D = node[kDimKey].as<int>();
+    const uint64_t time_ns = node[kSegmentTimeKey].as<uint64_t>();
+    if (N < 1 || N > Polynomial::kMaxConvolutionSize || D < 1) return false;
 
-  for (size_t i = 0; i < segment->D(); ++i) {
-    Eigen::VectorXd coeffs;
-    if (!coefficientsFromYaml(node[kCoefficientsKey][i], &coeffs)) return false;
-    (*segment)[i] = coeffs;
+    // Coefficients.
+    const YAML::Node coefficients_yaml = node[kCoefficientsKey];
+    if (coefficients_yaml.size() != static_cast<size_t>(D)) {
+      return false;  // Coefficients and dimensions do not coincide.
+    }
+    Segment result(N, D);
+    for (int i = 0; i < D; ++i) {
+      Eigen::VectorXd coeffs;
+      if (!coefficientsFromYaml(coefficients_yaml[i], &coeffs)) return false;
+      if (coeffs.size() != N) {
+        return false;  // Number of coefficients does not coincide.
+      }
+      result[i] = coeffs;
+    }
+    result.setTimeNSec(time_ns);
+    *segment = result;
+  } catch (const YAML::Exception&) {
+    return false;  // Wrong format.
   }
-
-  segment->setTimeNSec(node[kSegmentTimeKey].as<uint64_t>());
-
   return true;
 }
 
 bool segmentsFromYaml(const YAML::Node& node, Segment::Vector* segments) {
   CHECK_NOTNULL(segments);
-  if (!node.IsSequence()) return false;
+  try {
+    if (!node.IsSequence()) return false;
 
-  segments->resize(node.size(), Segment(0, 0));
-  for (size_t i = 0; i < node.size(); ++i) {
-    if (!segmentFromYaml(node[i], &(*segments)[i])) return false;
+    Segment::Vector result(node.size(), Segment(0, 0));
+    for (size_t i = 0; i < node.size(); ++i) {
+      if (!segmentFromYaml(node[i], &result[i])) return false;
+    }
+    *segments = result;
+  } catch (const YAML::Exception&) {
+    return false;  // Wrong format.
   }
+  return true;
+}
 
+static bool trajectoryFromSegments(const Segment::Vector& segments,
+                            Trajectory* trajectory) {
+  CHECK_NOTNULL(trajectory);
+  if (segments.empty()) return false;
+  for (const Segment& segment : segments) {
+    if (segment.N() != segments.front().N() ||
+        segment.D() != segments.front().D()) {
+      return false;  // The segments do not form a trajectory.
+    }
+  }
+  trajectory->setSegments(segments);
   return true;
 }
 
@@ -118,10 +157,13 @@ bool trajectoryFromYaml(const YAML::Node& node, Trajectory* trajectory) {
   CHECK_NOTNULL(trajectory);
 
   Segment::Vector segments;
-  if (!segmentsFromYaml(node[kSegmentsKey], &segments)) return false;
-  trajectory->setSegments(segments);
-
-  return true;
+  try {
+    if (!node.IsMap()) return false;
+    if (!segmentsFromYaml(node[kSegmentsKey], &segments)) return false;
+  } catch (const YAML::Exception&) {
+    return false;  // Wrong format.
+  }
+  return trajectoryFromSegments(segments, trajectory);
 }
 
 bool segmentsToFile(
@@ -176,47 +218,25 @@ bool segmentsFromFile(const std::string& filename,
   if (!in.good()) {
     return false;
   }
-  segments->clear();
 
   // Parse YAML.
-  YAML::Node node = YAML::LoadFile(filename);
-
-  if (node[kSegmentsKey]) {
-    const YAML::Node& segments_yaml = node[kSegmentsKey];
-    for (size_t i = 0; i < segments_yaml.size(); i++) {
-      if (segments_yaml[i][kNumCoefficientsKey] && segments_yaml[i][kDimKey] &&
-          segments_yaml[i][kSegmentTimeKey] &&
-          segments_yaml[i][kCoefficientsKey]) {
-        // Header.
-        int N = segments_yaml[i][kNumCoefficientsKey].as<int>();
-        int D = segments_yaml[i][kDimKey].as<int>();
-        mav_trajectory_generation::Segment segment(N, D);
-        uint64_t t = segments_yaml[i][kSegmentTimeKey].as<uint64_t>();
-        segment.setTimeNSec(t);
-        // Coefficients.
-        if (segments_yaml[i][kCoefficientsKey].size() != D) {
-          return false;  // Coefficients and dimensions do not coincide.
-        }
-        for (size_t j = 0; j < D; j++) {
-          if (segments_yaml[i][kCoefficientsKey][j].size() != N) {
-            return false;  // Number of coefficients does no coincide.
-          }
-          Eigen::VectorXd coeffs(N);
-          for (size_t k = 0; k < N; k++) {
-            coeffs(k) = segments_yaml[i][kCoefficientsKey][j][k].as<double>();
-          }
-          segment[j] = coeffs;
-        }
-        segments->push_back(segment);
-      } else {
-        return false;  // Wrong format, missing elements.
-      }
+  try {
+    const YAML::Node node = YAML::Load(in);
+    if (!node.IsMap()) {
+      return false;  // No segments element.
     }
-  } else {
-    return false;  // No segments element.
+    return segmentsFromYaml(node[kSegmentsKey], segments);
+  } catch (const std::exception&) {
+    return false;  // Not readable, or not a YAML document.
   }
+}
 
-  return true;
+bool trajectoryFromFile(const std::string& filename, Trajectory* trajectory) {
+  CHECK_NOTNULL(trajectory);
+
+  Segment::Vector segments;
+  if (!segmentsFromFile(filename, &segments)) return false;
+  return trajectoryFromSegments(segments, trajectory);
 }
 
 bool sampledTrajectoryStatesToFile(const std::string& filename,
-- 
2.43.0


From 2ce17bcf59262c9cce3cece664ac4d6b20f32df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 14/55] fix: do not accept reflections as rotation matrices

---
 .../mav_trajectory_generation/include/mav_msgs/common.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp b/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
index be02f20..6c83556 100644
--- a/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
+++ b/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
@@ -178,7 +178,7 @@ inline bool isRotationMatrix(const Eigen::Matrix3d& mat){
     return false;
   }  
   // Check that det(R) = 1
-  if (mat.determinant() - 1.0 > kSmallValueCheck){
+  if (std::abs(mat.determinant() - 1.0) > kSmallValueCheck){
     std::cerr << "[mav_msgs::common] Rotation matrix requirement violated (det(R) = 1)" << std::endl;
     return false;
   }  
-- 
2.43.0


From 695fd8721b1b60260935c53106c903bcc5861c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 15/55] fix: recover rotation vectors up to half a turn from
 rotation matrices

---
 .../include/mav_msgs/common.hpp               | 24 ++++---------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp b/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
index 6c83556..1c04110 100644
--- a/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
+++ b/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
@@ -223,26 +223,10 @@ inline bool vectorFromRotationMatrix(const Eigen::Matrix3d& mat,
     return true;
   }
   
-  // Compute cosine of angle and clamp in range [-1, 1]
-  double cos_phi = (mat.trace() - 1.0) / 2.0;
-  // double cos_phi_clamped = boost::algorithm::clamp(cos_phi, -1.0, 1.0);
-  // use not boost
-  double cos_phi_clamped = std::max(-1.0, std::min(1.0, cos_phi));
-   
-  double phi = std::acos(cos_phi_clamped);
-  
-  if (phi < kSmallValueCheck){
-    *vec = Eigen::Vector3d::Zero();
-  } else{
-    Eigen::Matrix3d vec_skew = (mat - mat.transpose()) * phi / (2.0 * std::sin(phi));
-    Eigen::Vector3d vec_unskewed;
-    if (vectorFromSkewMatrix(vec_skew, &vec_unskewed)){
-      *vec = vec_unskewed;
-    }else{
-      return false;
-    }
-    
-  }
+  // The formula above is singular at half a turn, where R is symmetric, so the
+  // angle and axis are taken from the quaternion, which is regular everywhere.
+  const Eigen::AngleAxisd angle_axis(mat);
+  *vec = angle_axis.angle() * angle_axis.axis();
   return true;
 }
 
-- 
2.43.0


From 5cc57593c527b00a91bd1da1f8492e6a81ca2998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 16/55] fix: round when converting seconds to nanoseconds

---
 .../mav_trajectory_generation/include/mav_msgs/common.hpp    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp b/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
index 1c04110..3d59533 100644
--- a/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
+++ b/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
@@ -29,6 +29,9 @@
   #include <geometry_msgs/msg/vector3.hpp>
 #endif
 
+#include <cmath>
+#include <cstdint>
+
 #include <Eigen/Geometry>
 
 namespace mav_msgs {
@@ -347,7 +350,7 @@ inline double nanosecondsToSeconds(int64_t nanoseconds) {
 
 inline int64_t secondsToNanoseconds(double seconds) {
   int64_t nanoseconds =
-      static_cast<int64_t>(seconds * kNumNanosecondsPerSecond);
+      static_cast<int64_t>(std::llround(seconds * kNumNanosecondsPerSecond));
   return nanoseconds;
 }
 
-- 
2.43.0


From 81a5eb4d07684d6b44c71eded263d777b8662ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 17/55] fix: keep the pitch angle finite at gimbal lock

---
 .../mav_trajectory_generation/include/mav_msgs/common.hpp     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp b/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
index 3d59533..3e442e5 100644
--- a/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
+++ b/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
@@ -29,6 +29,7 @@
   #include <geometry_msgs/msg/vector3.hpp>
 #endif
 
+#include <algorithm>
 #include <cmath>
 #include <cstdint>
 
@@ -148,7 +149,8 @@ inline void getEulerAnglesFromQuaternion(const Eigen::Quaternion<double>& q,
 
     *euler_angles << std::atan2(2.0 * (q.w() * q.x() + q.y() * q.z()),
                            1.0 - 2.0 * (q.x() * q.x() + q.y() * q.y())),
-        std::asin(2.0 * (q.w() * q.y() - q.z() * q.x())),
+        std::asin(std::max(
+            -1.0, std::min(1.0, 2.0 * (q.w() * q.y() - q.z() * q.x())))),
         std::atan2(2.0 * (q.w() * q.z() + q.x() * q.y()),
               1.0 - 2.0 * (q.y() * q.y() + q.z() * q.z()));
   }
-- 
2.43.0


From 1cbdd9fa1cc910ad7989d1cb8e2769bd94115bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:27 +0000
Subject: [PATCH 18/55] fix: return the true second derivative of a waypoint
 displacement

---
 include/dynamic_trajectory_generator/utils/traj_modifiers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp b/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
index 80d99da..e9ae819 100644
--- a/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
+++ b/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
@@ -62,7 +62,7 @@ public:
       value = -((t - mu_) / (sigma_squared_)) * std::exp(-((t - mu_) * (t - mu_)) / (2 * sigma_squared_));
       break;
     case 2:
-      value = ((t - mu_) / (sigma_squared_)) * ((t - mu_) / (sigma_squared_)) * std::exp(-((t - mu_) * (t - mu_)) / (2 * sigma_squared_));
+      value = (((t - mu_) / (sigma_squared_)) * ((t - mu_) / (sigma_squared_)) - 1 / sigma_squared_) * std::exp(-((t - mu_) * (t - mu_)) / (2 * sigma_squared_));
       break;
     }
     value *= increment_;
-- 
2.43.0


From 5a7b5def2c30f16159893aaeb8e7bbcb5e4de6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:27 +0000
Subject: [PATCH 19/55] fix: return no displacement instead of NaN for a
 zero-width move

---
 include/dynamic_trajectory_generator/utils/traj_modifiers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp b/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
index e9ae819..495b4c6 100644
--- a/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
+++ b/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
@@ -48,7 +48,7 @@ public:
   {
     // double max_reaction_time = MAX_REACTION_TIME;
     double max_reaction_time = 3.5 * sigma_;
-    if (std::abs(increment_) < 0.02 || std::abs(t - mu_) > max_reaction_time)
+    if (std::abs(increment_) < 0.02 || std::abs(t - mu_) > max_reaction_time || sigma_squared_ <= 0.0)
     {
       return 0;
     }
-- 
2.43.0


From 62b4a200077bdff0cda450f7df792390abb9cfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:27 +0000
Subject: [PATCH 20/55] fix: copy the width of the last move with a waypoint

---
 src/dynamic_waypoint.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamic_waypoint.cpp b/src/dynamic_waypoint.cpp
index 5d62c87..b1972b7 100644
--- a/src/dynamic_waypoint.cpp
+++ b/src/dynamic_waypoint.cpp
@@ -28,6 +28,7 @@ namespace dynamic_traj_generator
         t_assigned_(other.t_assigned_), name_(other.name_), index_(other.index_)
   {
     modifiers_ = other.modifiers_;
+    last_sigma_ = other.last_sigma_;
   }
 
   void DynamicWaypoint::setCurrentPosition(Eigen::Vector3d position, double actual_time)
-- 
2.43.0


From ed73969dfefa9a5f419528403890cb8a281312ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:07 +0000
Subject: [PATCH 21/55] fix: give a waypoint move one width instead of a
 narrower one per axis

---
 src/dynamic_waypoint.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/dynamic_waypoint.cpp b/src/dynamic_waypoint.cpp
index b1972b7..eaf9208 100644
--- a/src/dynamic_waypoint.cpp
+++ b/src/dynamic_waypoint.cpp
@@ -35,24 +35,24 @@ namespace dynamic_traj_generator
   {
 
     vertex_.addConstraint(0, position);
+    // The width is that of the whole move, the same in every axis.
+    double sigma;
+    if (actual_time > 0.0f)
+    {
+      // 99.7 % of data is between +- 3*sigma
+      sigma = (t_assigned_ - actual_time) / 3.0f;
+    }
+    else
+    {
+      sigma = last_sigma_ * SIGMA_COEFFICIENT;
+      last_sigma_ = sigma;
+    }
+
     std::array<GaussianModifier, 3> modifiers;
     for (int i = 0; i < 3; i++)
     {
       modifiers[i].setDifference(position[i] - current_position_[i]);
       modifiers[i].setModifierTime(t_assigned_);
-
-      double sigma;
-
-      if (actual_time > 0.0f)
-      {
-        // 99.7 % of data is between +- 3*sigma
-        sigma = (t_assigned_ - actual_time) / 3.0f;
-      }
-      else
-      {
-        sigma = last_sigma_ * SIGMA_COEFFICIENT;
-        last_sigma_ = sigma;
-      }
       modifiers[i].setSigma(sigma);
     }
 
-- 
2.43.0


From 85ca06d865db8f5d991216852d4e3009fd4f2394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:44 +0000
Subject: [PATCH 22/55] fix: leave the nonlinear optimisers at the best point
 found

nlopt evaluates the objective last at an arbitrary trial point, and that
point's segment times and derivatives were what the optimisers returned.
---
 .../polynomial_optimization_nonlinear_impl.h    | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
index b8bd10f..5b81e51 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
@@ -161,9 +161,13 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTime() {
     result = nlopt_->optimize(segment_times, final_cost);
   } catch (std::exception& e) {
     LOG(ERROR) << "error while running nlopt: " << e.what() << std::endl;
-    return nlopt::FAILURE;
+    result = nlopt::FAILURE;
   }
 
+  // The last point evaluated is not the best one: go back to that.
+  std::vector<double> gradient;
+  objectiveFunctionTime(segment_times, gradient, this);
+
   return result;
 }
 
@@ -220,6 +224,11 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTimeMellingerOuterLoop() {
     }
   }
 
+  // The last point evaluated is not the best one: go back to that.
+  poly_opt_.updateSegmentTimes(segment_times);
+  poly_opt_.solveLinear();
+  optimization_info_.cost_trajectory = poly_opt_.computeCost();
+
   // Scaling of segment times
   std::vector<double> relative_segment_times;
   poly_opt_.getSegmentTimes(&relative_segment_times);
@@ -516,9 +525,13 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTimeAndFreeConstraints() {
     timer_solve.Stop();
   } catch (std::exception& e) {
     LOG(ERROR) << "error while running nlopt: " << e.what() << std::endl;
-    return nlopt::FAILURE;
+    result = nlopt::FAILURE;
   }
 
+  // The last point evaluated is not the best one: go back to that.
+  std::vector<double> gradient;
+  objectiveFunctionTimeAndConstraints(initial_solution, gradient, this);
+
   return result;
 }
 
-- 
2.43.0


From a9235476953d00d6f42b86f6ba0fde1835d380e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:29 +0000
Subject: [PATCH 23/55] fix: start the optimiser from segment times at which
 the limits hold

The estimated times let the optimiser start so far above the speed limit
that its bounded soft constraints are flat, and it stayed there: most
plans exceeded the requested speed by a factor of 1.5 to 3.
---
 src/dynamic_trajectory.cpp | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 518ed2c..aa38b9f 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -30,6 +30,33 @@ namespace dynamic_traj_generator
 
   }
 
+  // Stretches the segment times until a flight through the positions of the vertices, from rest to
+  // rest, meets the speed and acceleration limits.
+  template <int N>
+  static std::vector<double> stretchSegmentTimesToLimits(
+      mav_trajectory_generation::Vertex::Vector vertices, const std::vector<double> &segment_times,
+      double v_max, double a_max, int derivative_to_optimize)
+  {
+    using namespace mav_trajectory_generation;
+    for (auto &vertex : vertices)
+    {
+      vertex.removeConstraint(derivative_order::VELOCITY);
+      vertex.removeConstraint(derivative_order::ACCELERATION);
+    }
+    for (auto *vertex : {&vertices.front(), &vertices.back()})
+    {
+      vertex->addConstraint(derivative_order::VELOCITY, Eigen::Vector3d::Zero());
+      vertex->addConstraint(derivative_order::ACCELERATION, Eigen::Vector3d::Zero());
+    }
+    PolynomialOptimization<N> opt(3);
+    opt.setupFromVertices(vertices, segment_times, derivative_to_optimize);
+    opt.solveLinear();
+    Trajectory trajectory;
+    opt.getTrajectory(&trajectory);
+    trajectory.scaleSegmentTimesToMeetConstraints(v_max, a_max);
+    return trajectory.getSegmentTimes();
+  }
+
   static double getCummulativeTime(const mav_trajectory_generation::Segment::Vector &segments,
                                    const int &waypoint_index)
   {
@@ -331,6 +358,10 @@ namespace dynamic_traj_generator
       parameters.initial_stepsize_rel = 0.1;
       // parameters.inequality_constraint_tolerance = 0.1;
       parameters.inequality_constraint_tolerance = 0.2;
+      // The soft constraints of the optimizer are bounded, so it does not come back from times at
+      // which the limits are exceeded by far. Start from times at which the limits can be met.
+      segment_times = stretchSegmentTimesToLimits<N>(vertices, segment_times, max_speed, a_max_,
+                                                     derivative_to_optimize_);
       mav_trajectory_generation::PolynomialOptimizationNonLinear<N> opt(dimension_, parameters);
       opt.setupFromVertices(vertices, segment_times, derivative_to_optimize_);
       opt.addMaximumMagnitudeConstraint(mav_trajectory_generation::derivative_order::VELOCITY,
-- 
2.43.0


From 7e1baeb8afa6c4abe0fdb6196cf3ba11f7266b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:15 +0000
Subject: [PATCH 24/55] fix: never return a worse plan than the initial guess

BOBYQA moves its starting point away from the bounds (short segment times,
derivatives at their limits) and may stop without getting back.
---
 .../polynomial_optimization_nonlinear_impl.h  | 29 ++++++++++++++-----
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
index 5b81e51..75d2392 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
@@ -157,6 +157,11 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTime() {
   double final_cost = std::numeric_limits<double>::max();
   int result;
 
+  std::vector<double> gradient;
+  const std::vector<double> initial_segment_times = segment_times;
+  const double initial_cost =
+      objectiveFunctionTime(initial_segment_times, gradient, this);
+
   try {
     result = nlopt_->optimize(segment_times, final_cost);
   } catch (std::exception& e) {
@@ -164,9 +169,11 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTime() {
     result = nlopt::FAILURE;
   }
 
-  // The last point evaluated is not the best one: go back to that.
-  std::vector<double> gradient;
-  objectiveFunctionTime(segment_times, gradient, this);
+  // The last point evaluated is not the best one: go back to that. The initial guess may be even
+  // better, as the optimizer moves its starting point away from the bounds.
+  if (!(objectiveFunctionTime(segment_times, gradient, this) <= initial_cost)) {
+    objectiveFunctionTime(initial_segment_times, gradient, this);
+  }
 
   return result;
 }
@@ -518,19 +525,27 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTimeAndFreeConstraints() {
   double final_cost = std::numeric_limits<double>::max();
   int result;
 
+  std::vector<double> gradient;
+  std::vector<double> solution = initial_solution;
+  const double initial_cost =
+      objectiveFunctionTimeAndConstraints(initial_solution, gradient, this);
+
   try {
     timing::Timer timer_solve("optimize_nonlinear_full_total_time");
 
-    result = nlopt_->optimize(initial_solution, final_cost);
+    result = nlopt_->optimize(solution, final_cost);
     timer_solve.Stop();
   } catch (std::exception& e) {
     LOG(ERROR) << "error while running nlopt: " << e.what() << std::endl;
     result = nlopt::FAILURE;
   }
 
-  // The last point evaluated is not the best one: go back to that.
-  std::vector<double> gradient;
-  objectiveFunctionTimeAndConstraints(initial_solution, gradient, this);
+  // The last point evaluated is not the best one: go back to that. The initial guess may be even
+  // better, as the optimizer moves its starting point away from the bounds.
+  if (!(objectiveFunctionTimeAndConstraints(solution, gradient, this) <=
+        initial_cost)) {
+    objectiveFunctionTimeAndConstraints(initial_solution, gradient, this);
+  }
 
   return result;
 }
-- 
2.43.0


From 3bbf7f1c8523e11794768e4d90abf67f0ca47d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:28 +0000
Subject: [PATCH 25/55] fix: bound the free derivatives the limits are given
 for

The index of a free derivative counted only the derivatives up to the
optimised one, so from the second vertex on other derivatives were
bounded.
---
 .../impl/polynomial_optimization_nonlinear_impl.h             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
index 75d2392..4b83926 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
@@ -834,7 +834,6 @@ void PolynomialOptimizationNonLinear<_N>::
 
   const size_t n_free_constraints = poly_opt_.getNumberFreeConstraints();
   const size_t dim = poly_opt_.getDimension();
-  const int derivative_to_optimize = poly_opt_.getDerivativeToOptimize();
 
   // Set all values to -inf/inf and reset only bounded opti param with values
   lower_bounds->resize(dim * n_free_constraints,
@@ -853,7 +852,8 @@ void PolynomialOptimizationNonLinear<_N>::
     const double value_hc = constraint_data->value;
 
     for (size_t v = 0; v < vertices.size(); ++v) {
-      for (int deriv = 0; deriv <= derivative_to_optimize; ++deriv) {
+      // All derivatives up to N/2 - 1 that are not constrained are free.
+      for (int deriv = 0; deriv < N / 2; ++deriv) {
         if (!vertices[v].hasConstraint(deriv)) {
           if (deriv == derivative_hc) {
             for (size_t k = 0; k < dim; ++k) {
-- 
2.43.0


From 2033ccc0c29afa3ad26fb537a93fe010b1575139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:53 +0000
Subject: [PATCH 26/55] fix: forget the free derivatives of an earlier problem

Setting up a fully constrained problem on a solver that had solved one
with free derivatives wrote past the end of a vector.
---
 .../impl/polynomial_optimization_linear_impl.h                 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h
index 4f7c6f9..389d3af 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h
@@ -232,6 +232,9 @@ void PolynomialOptimization<_N>::setupConstraintReorderingMatrix() {
 
   for (Eigen::VectorXd& df : fixed_constraints_compact_)
     df.resize(n_fixed_constraints_, Eigen::NoChange);
+  // Forget the free derivatives of a problem solved earlier.
+  for (Eigen::VectorXd& dp : free_constraints_compact_)
+    dp.setZero(n_free_constraints_);
 
   int row = 0;
   int col = 0;
-- 
2.43.0


From 0bddd8eda1189d57173b4e8bbcf5572adaeccb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:32 +0000
Subject: [PATCH 27/55] fix: scale the linear system before solving it

Its entries span many orders of magnitude between derivatives and segment
times, and the rank-revealing solver took the small ones for zero: the
result was then not the cheapest trajectory.
---
 .../impl/polynomial_optimization_linear_impl.h         | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h
index 389d3af..0ce7398 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h
@@ -365,6 +365,14 @@ bool PolynomialOptimization<_N>::solveLinear() {
   Eigen::SparseMatrix<double> Rpp =
       R.block(n_fixed_constraints_, n_fixed_constraints_, n_free_constraints_,
               n_free_constraints_);
+  // The entries differ by many orders of magnitude between derivatives and
+  // segment times. Scale them, as the solver would take the small ones for zero.
+  Eigen::VectorXd scale(n_free_constraints_);
+  for (size_t i = 0; i < n_free_constraints_; ++i) {
+    const double diagonal = Rpp.coeff(i, i);
+    scale[i] = diagonal > 0.0 ? 1.0 / std::sqrt(diagonal) : 1.0;
+  }
+  Rpp = scale.asDiagonal() * Rpp * scale.asDiagonal();
   Eigen::SparseQR<Eigen::SparseMatrix<double>, Eigen::COLAMDOrdering<int>>
       solver;
   solver.compute(Rpp);
@@ -373,8 +381,10 @@ bool PolynomialOptimization<_N>::solveLinear() {
   for (size_t dimension_idx = 0; dimension_idx < dimension_; ++dimension_idx) {
     Eigen::VectorXd df =
         -Rpf * fixed_constraints_compact_[dimension_idx];  // Rpf = Rfp^T
+    df.array() *= scale.array();
     free_constraints_compact_[dimension_idx] =
         solver.solve(df);  // dp = -Rpp^-1 * Rpf * df
+    free_constraints_compact_[dimension_idx].array() *= scale.array();
   }
 
   updateSegmentsFromCompactConstraints();
-- 
2.43.0


From 7b9285a00cc30a366633d4cb3bd8f8fdee1fe884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:26 +0000
Subject: [PATCH 28/55] fix: take out the roots at zero before balancing the
 companion matrix

---
 .../src/rpoly/rpoly_ak1.cpp                       | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp b/subpackages/mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp
index 06fe6e3..516d7f9 100644
--- a/subpackages/mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp
+++ b/subpackages/mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp
@@ -113,10 +113,17 @@ bool findRootsJenkinsTraub(const Eigen::VectorXd& coefficients_increasing,
 
   if (degree < n_coefficients - 1) {
     // Jenkins-Traub did not converge for all roots. Get the complete set from
-    // the eigenvalues of the companion matrix instead.
-    Eigen::PolynomialSolver<double, Eigen::Dynamic> solver(
-        Eigen::VectorXd(coefficients_decreasing.reverse()));
-    *roots = solver.roots();
+    // the eigenvalues of the companion matrix instead. The matrix is balanced
+    // well only without the zeros at the origin, so these are taken out first.
+    int n_zeros = 0;
+    while (coefficients_increasing(n_zeros) == 0.0) ++n_zeros;
+    *roots = Eigen::VectorXcd::Zero(n_coefficients - 1);
+    if (n_zeros < n_coefficients - 1) {
+      Eigen::PolynomialSolver<double, Eigen::Dynamic> solver(
+          Eigen::VectorXd(coefficients_increasing.segment(
+              n_zeros, n_coefficients - n_zeros)));
+      roots->tail(n_coefficients - 1 - n_zeros) = solver.roots();
+    }
     return true;
   }
 
-- 
2.43.0


From 9491849ad709b0fa2b3754534ef0f692d78ca929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:26 +0000
Subject: [PATCH 29/55] fix: do not scale for a limit that was not given

---
 .../impl/polynomial_optimization_nonlinear_impl.h            | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
index 4b83926..28c3b85 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
@@ -386,8 +386,9 @@ void PolynomialOptimizationNonLinear<_N>::scaleSegmentTimesWithViolation() {
   poly_opt_.getTrajectory(&traj);
 
   // Get constraints
-  double v_max = 0.0;
-  double a_max = 0.0;
+  // A limit which was not given never asks for more time.
+  double v_max = std::numeric_limits<double>::max();
+  double a_max = std::numeric_limits<double>::max();
   for (const auto& constraint : inequality_constraints_) {
     if (constraint->derivative == derivative_order::VELOCITY) {
       v_max = constraint->value;
-- 
2.43.0


From 854e342b7b867b015ac492fece5afa4c3b013876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:26 +0000
Subject: [PATCH 30/55] fix: report the cost of the scaled trajectory

---
 .../impl/polynomial_optimization_nonlinear_impl.h               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
index 28c3b85..ee166cb 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
@@ -234,12 +234,12 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTimeMellingerOuterLoop() {
   // The last point evaluated is not the best one: go back to that.
   poly_opt_.updateSegmentTimes(segment_times);
   poly_opt_.solveLinear();
-  optimization_info_.cost_trajectory = poly_opt_.computeCost();
 
   // Scaling of segment times
   std::vector<double> relative_segment_times;
   poly_opt_.getSegmentTimes(&relative_segment_times);
   scaleSegmentTimesWithViolation();
+  optimization_info_.cost_trajectory = poly_opt_.computeCost();
   std::vector<double> scaled_segment_times;
   poly_opt_.getSegmentTimes(&scaled_segment_times);
 
-- 
2.43.0


From f377d7b87f212460af094efb726823a5086f5a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:26 +0000
Subject: [PATCH 31/55] fix: do not go back to an initial guess that breaks the
 hard limits

---
 .../polynomial_optimization_nonlinear_impl.h  | 28 +++++++++++++++++--
 .../polynomial_optimization_nonlinear.h       |  3 ++
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
index ee166cb..7b14d8f 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
@@ -161,6 +161,7 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTime() {
   const std::vector<double> initial_segment_times = segment_times;
   const double initial_cost =
       objectiveFunctionTime(initial_segment_times, gradient, this);
+  const bool initial_within_limits = areHardLimitsMet();
 
   try {
     result = nlopt_->optimize(segment_times, final_cost);
@@ -171,8 +172,11 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTime() {
 
   // The last point evaluated is not the best one: go back to that. The initial guess may be even
   // better, as the optimizer moves its starting point away from the bounds.
-  if (!(objectiveFunctionTime(segment_times, gradient, this) <= initial_cost)) {
+  const double cost = objectiveFunctionTime(segment_times, gradient, this);
+  const bool within_limits = areHardLimitsMet();
+  if (initial_within_limits && !(within_limits && cost <= initial_cost)) {
     objectiveFunctionTime(initial_segment_times, gradient, this);
+    areHardLimitsMet();
   }
 
   return result;
@@ -530,6 +534,7 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTimeAndFreeConstraints() {
   std::vector<double> solution = initial_solution;
   const double initial_cost =
       objectiveFunctionTimeAndConstraints(initial_solution, gradient, this);
+  const bool initial_within_limits = areHardLimitsMet();
 
   try {
     timing::Timer timer_solve("optimize_nonlinear_full_total_time");
@@ -543,9 +548,12 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTimeAndFreeConstraints() {
 
   // The last point evaluated is not the best one: go back to that. The initial guess may be even
   // better, as the optimizer moves its starting point away from the bounds.
-  if (!(objectiveFunctionTimeAndConstraints(solution, gradient, this) <=
-        initial_cost)) {
+  const double cost =
+      objectiveFunctionTimeAndConstraints(solution, gradient, this);
+  const bool within_limits = areHardLimitsMet();
+  if (initial_within_limits && !(within_limits && cost <= initial_cost)) {
     objectiveFunctionTimeAndConstraints(initial_solution, gradient, this);
+    areHardLimitsMet();
   }
 
   return result;
@@ -791,6 +799,20 @@ double PolynomialOptimizationNonLinear<_N>::evaluateMaximumMagnitudeConstraint(
   return max.value - constraint_data->value;
 }
 
+template <int _N>
+bool PolynomialOptimizationNonLinear<_N>::areHardLimitsMet() const {
+  if (optimization_parameters_.use_soft_constraints) return true;
+  std::vector<double> dummy;
+  bool met = true;
+  for (const auto& constraint : inequality_constraints_) {
+    if (!(evaluateMaximumMagnitudeConstraint(dummy, dummy, constraint.get()) <=
+          optimization_parameters_.inequality_constraint_tolerance)) {
+      met = false;
+    }
+  }
+  return met;
+}
+
 template <int _N>
 double
 PolynomialOptimizationNonLinear<_N>::evaluateMaximumMagnitudeAsSoftConstraint(
diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial_optimization_nonlinear.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial_optimization_nonlinear.h
index 1ae2377..f637071 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial_optimization_nonlinear.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial_optimization_nonlinear.h
@@ -255,6 +255,9 @@ class PolynomialOptimizationNonLinear {
       const std::vector<double>& optimization_variables,
       std::vector<double>& gradient, void* data);
 
+  // Checks the maximum magnitude constraints at the current solution. Always true if they are soft.
+  bool areHardLimitsMet() const;
+
   // Does the actual optimization work for the time-only version.
   int optimizeTime();
   int optimizeTimeMellingerOuterLoop();
-- 
2.43.0


From 6e42da0123d905cd5849a926305b69056574dd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:32 +0000
Subject: [PATCH 32/55] fix: do not forget requests made while a trajectory is
 being planned

---
 src/dynamic_trajectory.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index aa38b9f..5e37c9b 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -267,13 +267,14 @@ namespace dynamic_traj_generator
     {
       if (generate_new_traj_ && checkIfTrajectoryCanBeGenerated())
       {
+        computing_new_trajectory_ = true;
         next_trajectory_waypoint_ = generateWaypointsForTheNextTrajectory();
         if (next_trajectory_waypoint_.size() == 0)
         // ||
         //   (next_trajectory_waypoint_.size() == 1 && !checkStitchTrajectory()))
         {
           DYNAMIC_LOG("No waypoints to generate a new trajectory");
-          generate_new_traj_ = false;
+          computing_new_trajectory_ = false;
           continue;
         }
         parameters_mutex_.lock();
@@ -301,7 +302,6 @@ namespace dynamic_traj_generator
           appendDronePositionWaypoint(next_trajectory_waypoint_);
         }
         generateTrajectory(next_trajectory_waypoint_, false);
-        generate_new_traj_ = false;
       }
 
       else if (waypoints_to_be_modified_.size() && !computing_new_trajectory_)
@@ -611,6 +611,8 @@ namespace dynamic_traj_generator
   {
     DYNAMIC_LOG("Generating waypoints for the next trajectory");
     const std::lock_guard<std::mutex> lock(todo_mutex);
+    // The requests made so far are all taken now. Those made from now on ask for another trajectory.
+    generate_new_traj_ = false;
     DynamicWaypoint::Deque next_trajectory_waypoints;
     if (waypoints_to_be_set_.size() == 0)
     {
@@ -707,7 +709,6 @@ namespace dynamic_traj_generator
         swapTrajectory();
         swapDynamicWaypoints();
         computing_new_trajectory_ = false;
-        generate_new_traj_ = false;
       }
     }
     return true;
-- 
2.43.0


From 9a978961d5796c82ae8b9dd539e7f35940e22731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:32 +0000
Subject: [PATCH 33/55] fix: do not cancel a pending plan when moving a
 waypoint in place

---
 src/dynamic_trajectory.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 5e37c9b..d0614c7 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -125,7 +125,10 @@ namespace dynamic_traj_generator
       iter->first = name;
       iter->second = position;
     }
-    generate_new_traj_ = generate_new_traj;
+    if (generate_new_traj)
+    {
+      generate_new_traj_ = true;
+    }
   }
   
   void DynamicTrajectory::modifyWaypoints(
-- 
2.43.0


From 3e14e43e1189b97f0b107b35e51bce3d194b3d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:32 +0000
Subject: [PATCH 34/55] fix: apply every move to exactly the waypoints
 requested before it

---
 src/dynamic_trajectory.cpp | 48 +++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index d0614c7..44d1f78 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -80,6 +80,25 @@ namespace dynamic_traj_generator
     }
   };
 
+  template <typename WaypointContainer>
+  static void resetWaypointThroughDeque(WaypointContainer &waypoints, const std::string &name,
+                                        const Eigen::Vector3d &position)
+  {
+    if (name == "")
+    {
+      return;
+    }
+    for (auto &waypoint : waypoints)
+    {
+      if (waypoint.getName() == name)
+      {
+        DYNAMIC_LOG("reseting waypoint ");
+        DYNAMIC_LOG(name);
+        waypoint.resetWaypoint(position);
+      }
+    }
+  };
+
   /******************************************************************************/
   /***************************** PUBLIC INTERFACE *******************************/
   /******************************************************************************/
@@ -125,6 +144,9 @@ namespace dynamic_traj_generator
       iter->first = name;
       iter->second = position;
     }
+    // waypoints which are waiting to be set or added are moved as well
+    resetWaypointThroughDeque(waypoints_to_be_set_, name, position);
+    resetWaypointThroughDeque(waypoints_to_be_added_, name, position);
     if (generate_new_traj)
     {
       generate_new_traj_ = true;
@@ -573,24 +595,6 @@ namespace dynamic_traj_generator
     }
   }
 
-  void resetWaypointThroughDeque(DynamicWaypoint::Deque &waypoints, const std::string &name,
-                                 const Eigen::Vector3d &position)
-  {
-    if (name == "")
-    {
-      return;
-    }
-    for (auto &waypoint : waypoints)
-    {
-      if (waypoint.getName() == name)
-      {
-        DYNAMIC_LOG("reseting waypoint ");
-        DYNAMIC_LOG(name);
-        waypoint.resetWaypoint(position);
-      }
-    }
-  };
-
   void DynamicTrajectory::filterPassedWaypoints(DynamicWaypoint::Deque &waypoints)
   {
     parameters_mutex_.lock();
@@ -627,6 +631,10 @@ namespace dynamic_traj_generator
       next_trajectory_waypoints = (dynamic_waypoints_);
       filterPassedWaypoints(next_trajectory_waypoints);
       updateDynamicWaypointsPosition(next_trajectory_waypoints);
+      for (auto &waypoint : waypoints_to_be_modified_)
+      {
+        resetWaypointThroughDeque(next_trajectory_waypoints, waypoint.first, waypoint.second);
+      }
     }
     else
     {
@@ -637,10 +645,6 @@ namespace dynamic_traj_generator
     {
       next_trajectory_waypoints.emplace_back(waypoint);
     }
-    for (auto &waypoint : waypoints_to_be_modified_)
-    {
-      resetWaypointThroughDeque(next_trajectory_waypoints, waypoint.first, waypoint.second);
-    }
     waypoints_to_be_set_.clear();
     waypoints_to_be_added_.clear();
     waypoints_to_be_modified_.clear();
-- 
2.43.0


From 5a2de57d93dc84c5128b66b88cfb4c63bee11632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:32 +0000
Subject: [PATCH 35/55] fix: wait for a computation in progress before
 destroying the members

---
 include/dynamic_trajectory_generator/dynamic_trajectory.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
index be10cfa..bac7207 100644
--- a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
+++ b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
@@ -127,6 +127,10 @@ class DynamicTrajectory {
   ~DynamicTrajectory() {
     stop_process_ = true;
     waitForGeneratingNewTraj_thread_.join();
+    // The members are still used by a computation in progress.
+    if (future_traj_.valid()) {
+      future_traj_.wait();
+    }
   }
 
   dynamic_traj_generator::DynamicWaypoint::Vector getNextTrajectoryWaypoints(){
-- 
2.43.0


From 230e4d19228c68931cdef2a0d9c9ad241fff0b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:32 +0000
Subject: [PATCH 36/55] fix: keep the waypoints that lie beyond the last
 stitching point

---
 src/dynamic_trajectory.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 44d1f78..d63242c 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -535,6 +535,7 @@ namespace dynamic_traj_generator
     // Append the previous points to generate a smooth stitching
 
     double local_eval_t = new_parameters_.last_local_time_evaluated + parameters_.t_offset;
+    double last_stitching_t = local_eval_t;
 
     for (int i_waypoints_appended = 0; i_waypoints_appended < N_WAYPOINTS_TO_APPEND;
          i_waypoints_appended++)
@@ -566,6 +567,7 @@ namespace dynamic_traj_generator
         //                      references.position);
       }
         new_waypoints.emplace_back(vertex,"stitching_point");
+        last_stitching_t = local_eval_t;
       // local_eval_t += (TIME_STITCHING_SECURITY_COEF / N_WAYPOINTS_TO_APPEND) *
       //                 computeSecurityTime(n_waypoints, new_parameters_.algorithm_time_constant);
       //
@@ -574,7 +576,8 @@ namespace dynamic_traj_generator
     }
     // append the rest of the waypoints
 
-    double global_eval_t = convertIntoGlobalTime(local_eval_t);
+    // The waypoints up to the last stitching point are on the part which is flown unchanged.
+    double global_eval_t = convertIntoGlobalTime(last_stitching_t);
     for (auto &waypoint : waypoints)
     {
       if (waypoint.getTime() < global_eval_t && waypoint.getTime() > 0.0f)
-- 
2.43.0


From 50f0fd7d769a10897d25baea50f724cf39649689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:32 +0000
Subject: [PATCH 37/55] fix: take the time compensation into account when
 deciding which waypoints are passed

---
 .../dynamic_trajectory_generator/dynamic_trajectory.hpp    | 3 ++-
 src/dynamic_trajectory.cpp                                 | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
index bac7207..d0d700c 100644
--- a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
+++ b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
@@ -138,7 +138,8 @@ class DynamicTrajectory {
     // find values that are in t > parameters.last_local_time_evaluated
     // return a vector of waypoints 
     parameters_mutex_.lock();
-    double t = parameters_.last_global_time_evaluated;
+    // time along the trajectory of the last reference
+    double t = parameters_.last_global_time_evaluated + parameters_.t_offset;
     parameters_mutex_.unlock();
     std::unique_lock<std::mutex> uniqueLock(dynamic_waypoints_mutex_);
     for (auto& waypoint : dynamic_waypoints_){
diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index d63242c..d3a41e6 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -601,11 +601,12 @@ namespace dynamic_traj_generator
   void DynamicTrajectory::filterPassedWaypoints(DynamicWaypoint::Deque &waypoints)
   {
     parameters_mutex_.lock();
-    double last_t_eval = parameters_.last_global_time_evaluated;
+    // time along the trajectory of the last reference
+    double last_t_eval = parameters_.last_global_time_evaluated + parameters_.t_offset;
     parameters_mutex_.unlock();
     for (auto it = waypoints.begin(); it != waypoints.end();)
     {
-      if (it->getTime() < last_t_eval) // && it->getTime() != 0.0f)
+      if (it->getTime() <= last_t_eval)
       {
         DYNAMIC_LOG("Removing waypoint ");
         it = waypoints.erase(it);
@@ -741,7 +742,7 @@ namespace dynamic_traj_generator
       return false;
     const std::lock_guard<std::mutex> lock(dynamic_waypoints_mutex_);
     parameters_mutex_.lock();
-    double last_t_eval = parameters_.last_global_time_evaluated;
+    double last_t_eval = parameters_.last_global_time_evaluated + parameters_.t_offset;
     parameters_mutex_.unlock();
     for (auto &waypoint : dynamic_waypoints_)
     {
-- 
2.43.0


From 47efdf8ac8c546df0775c97ef3a19b95387bb5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:32 +0000
Subject: [PATCH 38/55] fix: forget the earlier use of a waypoint that is set
 or appended again

---
 src/dynamic_trajectory.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index d3a41e6..9b08730 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -99,6 +99,14 @@ namespace dynamic_traj_generator
     }
   };
 
+  // The waypoint without what an earlier trajectory it was part of left in it.
+  static DynamicWaypoint asNewWaypoint(DynamicWaypoint waypoint)
+  {
+    waypoint.resetWaypointWithCurrentPosition();
+    waypoint.setTime(0.0f);
+    return waypoint;
+  }
+
   /******************************************************************************/
   /***************************** PUBLIC INTERFACE *******************************/
   /******************************************************************************/
@@ -113,7 +121,7 @@ namespace dynamic_traj_generator
     waypoints_to_be_set_.reserve(waypoints.size());
     for (auto &waypoint : waypoints)
     {
-      waypoints_to_be_set_.emplace_back(waypoint);
+      waypoints_to_be_set_.emplace_back(asNewWaypoint(waypoint));
     }
     generate_new_traj_ = true;
   };
@@ -121,7 +129,7 @@ namespace dynamic_traj_generator
   void DynamicTrajectory::appendWaypoint(const DynamicWaypoint &waypoint)
   {
     const std::lock_guard<std::mutex> lock(todo_mutex);
-    waypoints_to_be_added_.emplace_back(waypoint);
+    waypoints_to_be_added_.emplace_back(asNewWaypoint(waypoint));
     generate_new_traj_ = true;
   }
 
-- 
2.43.0


From 4f21e94aa00ccc1dc3c496cae8b8b506dffc6a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:32 +0000
Subject: [PATCH 39/55] fix: keep the last time evaluated when a new trajectory
 takes over

---
 src/dynamic_trajectory.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 9b08730..d882e7e 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -465,6 +465,11 @@ namespace dynamic_traj_generator
     }
 
     parameters_mutex_.lock();
+    // The time has gone on since the new trajectory was asked for.
+    new_parameters_.last_global_time_evaluated = parameters_.last_global_time_evaluated;
+    new_parameters_.last_local_time_evaluated =
+        parameters_.last_global_time_evaluated -
+        new_parameters_.global_time_last_trajectory_generated;
     parameters_ = new_parameters_;
     parameters_mutex_.unlock();
 
-- 
2.43.0


From 13ce48e48d9a13a53a1ffd690fa399df881290ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:32 +0000
Subject: [PATCH 40/55] fix: align the new trajectory without the moves that
 are already part of it

---
 src/dynamic_trajectory.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index d882e7e..427d799 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -789,16 +789,14 @@ namespace dynamic_traj_generator
     const double max_eval_time = 1.5 * TRAJECTORY_COMPUTATION_TIME;
 
     double min_time = 0.0f;
-    double global_time = min_time + new_parameters_.global_time_last_trajectory_generated;
-    auto pos = evaluateModifiedTrajectory(traj, global_time, min_time, 0);
+    // The waypoint moves made so far are part of the new trajectory.
+    Eigen::Vector3d pos = traj.evaluate(min_time, 0);
 
     double min_distance = (pos - vehicle_position).norm();
 
     for (double t = step; t < max_eval_time; t += step)
     {
-    double global_t = t + new_parameters_.global_time_last_trajectory_generated;
-    auto pos = evaluateModifiedTrajectory(traj, global_t, t, 0);
-      // pos = evaluateModifiedTrajectory(traj, global_t, t, 0);
+      pos = traj.evaluate(std::min(t, traj.getMaxTime()), 0);
       double distance = (pos - vehicle_position).norm();
       if (distance <= min_distance)
       {
-- 
2.43.0


From dc8ce5f7ee18b2a5cf604ccca28d95a5303fd56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:16 +0000
Subject: [PATCH 41/55] fix: do not lead a new trajectory through the splice
 points of the old one

---
 src/dynamic_trajectory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 427d799..e94aca8 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -619,7 +619,8 @@ namespace dynamic_traj_generator
     parameters_mutex_.unlock();
     for (auto it = waypoints.begin(); it != waypoints.end();)
     {
-      if (it->getTime() <= last_t_eval)
+      // The splice points of this trajectory are no waypoints of the next one.
+      if (it->getTime() <= last_t_eval || it->getName() == "stitching_point")
       {
         DYNAMIC_LOG("Removing waypoint ");
         it = waypoints.erase(it);
-- 
2.43.0


From e2c6c80902cc2510827d0008e31edd2c8431d6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:27 +0000
Subject: [PATCH 42/55] fix: hold the ends of a trajectory with moved waypoints
 outside its times

---
 src/dynamic_trajectory.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index e94aca8..b2254fe 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -495,13 +495,16 @@ namespace dynamic_traj_generator
     Eigen::Vector3d refs;
     if (local_time < 0.0f)
     {
+      global_time -= local_time;
       local_time = 0.0f;
       DYNAMIC_LOG("[WARN] Time out of bounds");
     }
     if (local_time > traj.getMaxTime())
     {
+      // The reference stays where the trajectory, with its moved waypoints, has ended.
+      if (order > 0) return Eigen::Vector3d::Zero();
+      global_time -= local_time - traj.getMaxTime();
       local_time = traj.getMaxTime();
-      // if (order > 0) return Eigen::Vector3d::Zero();
     }
 
     refs = traj.evaluate(local_time, order);
-- 
2.43.0


From 54aeb931ccdc6b34a9463d398f23f0f29c138d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:16 +0000
Subject: [PATCH 43/55] fix: guard the timers, which are shared by all threads

---
 .../include/mav_trajectory_generation/timing.h   |  3 +++
 .../mav_trajectory_generation/src/timing.cpp     | 16 +++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
index fb6ed1b..36b24aa 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
@@ -27,6 +27,7 @@
 #include <chrono>
 #include <limits>
 #include <map>
+#include <mutex>
 #include <string>
 #include <vector>
 
@@ -175,6 +176,8 @@ class Timing {
 
   typedef std::vector<TimerMapValue> list_t;
 
+  // The timers of all threads are kept here.
+  mutable std::recursive_mutex mutex_;
   list_t timers_;
   map_t tag_map_;
   size_t max_tag_length_;
diff --git a/subpackages/mav_trajectory_generation/src/timing.cpp b/subpackages/mav_trajectory_generation/src/timing.cpp
index 0c90b15..0097a20 100644
--- a/subpackages/mav_trajectory_generation/src/timing.cpp
+++ b/subpackages/mav_trajectory_generation/src/timing.cpp
@@ -43,6 +43,7 @@ Timing::~Timing() {}
 
 // Static functions to query the timers:
 size_t Timing::GetHandle(std::string const& tag) {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
   // Search for an existing tag.
   map_t::iterator i = Instance().tag_map_.find(tag);
   if (i == Instance().tag_map_.end()) {
@@ -61,6 +62,7 @@ size_t Timing::GetHandle(std::string const& tag) {
 }
 
 std::string Timing::GetTag(size_t handle) {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
   std::string tag;
 
   // Perform a linear search for the tag.
@@ -104,40 +106,47 @@ void Timer::Stop() {
 bool Timer::IsTiming() const { return timing_; }
 
 void Timing::AddTime(size_t handle, double seconds) {
+  std::lock_guard<std::recursive_mutex> lock(mutex_);
   timers_[handle].acc_.Add(seconds);
 }
 
 double Timing::GetTotalSeconds(size_t handle) {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
   return Instance().timers_[handle].acc_.Sum();
 }
 double Timing::GetTotalSeconds(std::string const& tag) {
   return GetTotalSeconds(GetHandle(tag));
 }
 double Timing::GetMeanSeconds(size_t handle) {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
   return Instance().timers_[handle].acc_.Mean();
 }
 double Timing::GetMeanSeconds(std::string const& tag) {
   return GetMeanSeconds(GetHandle(tag));
 }
 size_t Timing::GetNumSamples(size_t handle) {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
   return Instance().timers_[handle].acc_.TotalSamples();
 }
 size_t Timing::GetNumSamples(std::string const& tag) {
   return GetNumSamples(GetHandle(tag));
 }
 double Timing::GetVarianceSeconds(size_t handle) {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
   return Instance().timers_[handle].acc_.LazyVariance();
 }
 double Timing::GetVarianceSeconds(std::string const& tag) {
   return GetVarianceSeconds(GetHandle(tag));
 }
 double Timing::GetMinSeconds(size_t handle) {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
   return Instance().timers_[handle].acc_.Min();
 }
 double Timing::GetMinSeconds(std::string const& tag) {
   return GetMinSeconds(GetHandle(tag));
 }
 double Timing::GetMaxSeconds(size_t handle) {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
   return Instance().timers_[handle].acc_.Max();
 }
 double Timing::GetMaxSeconds(std::string const& tag) {
@@ -145,6 +154,7 @@ double Timing::GetMaxSeconds(std::string const& tag) {
 }
 
 double Timing::GetHz(size_t handle) {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
   return 1.0 / Instance().timers_[handle].acc_.RollingMean();
 }
 
@@ -157,6 +167,7 @@ std::string Timing::SecondsToTimeString(double seconds) {
 }
 
 void Timing::Print(std::ostream& out) {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
   map_t& tagMap = Instance().tag_map_;
 
   if (tagMap.empty()) {
@@ -197,7 +208,10 @@ std::string Timing::Print() {
   return ss.str();
 }
 
-void Timing::Reset() { Instance().tag_map_.clear(); }
+void Timing::Reset() {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
+  Instance().tag_map_.clear();
+}
 
 }  // namespace timing
 }  // namespace mav_trajectory_generation
-- 
2.43.0


From 2bc4fe39d43b90bf3f3747d7f65139e80272d94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:16 +0000
Subject: [PATCH 44/55] fix: lock the trajectory while it is copied or compared

---
 .../thread_safe_trajectory.hpp                | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/dynamic_trajectory_generator/thread_safe_trajectory.hpp b/include/dynamic_trajectory_generator/thread_safe_trajectory.hpp
index 9549dd0..677d472 100644
--- a/include/dynamic_trajectory_generator/thread_safe_trajectory.hpp
+++ b/include/dynamic_trajectory_generator/thread_safe_trajectory.hpp
@@ -25,6 +25,12 @@ private:
     trajectory_ptr_ = std::move(trajectory);
   }
 
+  std::shared_ptr<mav_trajectory_generation::Trajectory> get() const
+  {
+    std::lock_guard<std::mutex> lock(evaluate_mutex_);
+    return trajectory_ptr_;
+  }
+
 public:
   ThreadSafeTrajectory(){
   };
@@ -36,19 +42,19 @@ public:
   ThreadSafeTrajectory(const ThreadSafeTrajectory &other)
   {
     /* std::cout<<"ThreadSafeTrajectory copy constructor"<<std::endl; */
-    this->reset(other.trajectory_ptr_);
+    this->reset(other.get());
   };
 
   ThreadSafeTrajectory(ThreadSafeTrajectory &&other)
   {
     /* std::cout<<"ThreadSafeTrajectory move constructor"<<std::endl; */
-    this->reset(other.trajectory_ptr_);
+    this->reset(other.get());
   };
 
   ThreadSafeTrajectory &operator=(const ThreadSafeTrajectory &other)
   {
     /* std::cout<<"ThreadSafeTrajectory copy assignment"<<std::endl; */
-    this->reset(other.trajectory_ptr_);
+    this->reset(other.get());
     return *this;
   };
 
@@ -92,19 +98,19 @@ public:
 
   bool operator==(const ThreadSafeTrajectory &other) noexcept
   {
-    return other.trajectory_ptr_ == trajectory_ptr_;
+    return other.get() == get();
   }
   bool operator!=(const ThreadSafeTrajectory &other) noexcept
   {
-    return other.trajectory_ptr_ != trajectory_ptr_;
+    return other.get() != get();
   }
   bool operator==(const std::nullptr_t &other) noexcept
   {
-    return trajectory_ptr_ == nullptr;
+    return get() == nullptr;
   }
   bool operator!=(const std::nullptr_t &other) noexcept
   {
-    return trajectory_ptr_ != nullptr;
+    return get() != nullptr;
   }
 
   Eigen::VectorXd evaluate(double t, int derivative_order = 0) const
-- 
2.43.0


From 1d900afa9a59175b19776e4d78f0af0933bb88f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:16 +0000
Subject: [PATCH 45/55] fix: read the waypoints in use under their lock only

---
 include/dynamic_trajectory_generator/dynamic_trajectory.hpp | 4 ++--
 src/dynamic_trajectory.cpp                                  | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
index d0d700c..53be625 100644
--- a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
+++ b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
@@ -30,7 +30,7 @@
 // #define SECURITY_TIME_BEFORE_WAYPOINT 5.0
 
 #define TRAJECTORY_COMPUTATION_TIME \
-  ( 2 * computeSecurityTime(dynamic_waypoints_.size()))
+  ( 2 * computeSecurityTime())
 
 #define SECURITY_TIME_BEFORE_WAYPOINT \
   (SECURITY_ZONE_MULTIPLIER * TRAJECTORY_COMPUTATION_TIME)
@@ -224,7 +224,7 @@ class DynamicTrajectory {
   double time_constant_ = 0.0f;
 
   void todoThreadLoop();
-  double computeSecurityTime(int n) const {
+  double computeSecurityTime() const {
     // return time_constant_ * n; // LINEAL APROXIMATION
     std::lock_guard<std::mutex> lock(time_measure_mutex_);
     return time_constant_;  // LINEAL APROXIMATION
diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index b2254fe..adf8107 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -649,7 +649,9 @@ namespace dynamic_traj_generator
       /*   return next_trajectory_waypoints; */
 
       /* } */
+      dynamic_waypoints_mutex_.lock();
       next_trajectory_waypoints = (dynamic_waypoints_);
+      dynamic_waypoints_mutex_.unlock();
       filterPassedWaypoints(next_trajectory_waypoints);
       updateDynamicWaypointsPosition(next_trajectory_waypoints);
       for (auto &waypoint : waypoints_to_be_modified_)
-- 
2.43.0


From b1f6ea570e70de0b3c8196cb4531cb112783dc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:32 +0000
Subject: [PATCH 46/55] fix: look for waypoints to be modified under the lock
 of the requests

---
 .../dynamic_trajectory.hpp                    |  1 +
 src/dynamic_trajectory.cpp                    | 28 +++++++++++--------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
index 53be625..f38e2cd 100644
--- a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
+++ b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
@@ -230,6 +230,7 @@ class DynamicTrajectory {
     return time_constant_;  // LINEAL APROXIMATION
   }
 
+  bool applyWaypointModifications();
   bool applyWaypointModification(const std::string &name, const Eigen::Vector3d &position);
   ThreadSafeTrajectory computeTrajectory(const DynamicWaypoint::Deque &waypoints,
                                          const bool &lineal_optimization = false);
diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index adf8107..28eaeb4 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -337,17 +337,7 @@ namespace dynamic_traj_generator
         generateTrajectory(next_trajectory_waypoint_, false);
       }
 
-      else if (waypoints_to_be_modified_.size() && !computing_new_trajectory_)
-      {
-        // DYNAMIC_LOG("Modifying waypoints");
-        const std::lock_guard<std::mutex> lock(todo_mutex);
-        for (auto &modification : waypoints_to_be_modified_)
-        {
-          bool modified = applyWaypointModification(modification.first, modification.second);
-        }
-        waypoints_to_be_modified_.clear();
-      }
-      else
+      else if (computing_new_trajectory_ || !applyWaypointModifications())
       {
         std::this_thread::sleep_for(std::chrono::milliseconds(10));
       }
@@ -525,6 +515,22 @@ namespace dynamic_traj_generator
     return refs;
   }
 
+  bool DynamicTrajectory::applyWaypointModifications()
+  {
+    const std::lock_guard<std::mutex> lock(todo_mutex);
+    if (waypoints_to_be_modified_.empty())
+    {
+      return false;
+    }
+    // DYNAMIC_LOG("Modifying waypoints");
+    for (auto &modification : waypoints_to_be_modified_)
+    {
+      applyWaypointModification(modification.first, modification.second);
+    }
+    waypoints_to_be_modified_.clear();
+    return true;
+  }
+
   bool DynamicTrajectory::applyWaypointModification(const std::string &name,
                                                     const Eigen::Vector3d &position)
   {
-- 
2.43.0


From 246f3dc51d5362e636dcb1e7736a51d7fee60c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:35 +0000
Subject: [PATCH 47/55] fix: read the time of the last reference under its lock

---
 src/dynamic_trajectory.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 28eaeb4..d17ea4e 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -325,8 +325,11 @@ namespace dynamic_traj_generator
         {
           from_scratch_ = false;
           DYNAMIC_LOG("stitching new trajectory");
+          parameters_mutex_.lock();
+          double last_local_time_evaluated = new_parameters_.last_local_time_evaluated;
+          parameters_mutex_.unlock();
           next_trajectory_waypoint_ = stitchActualTrajectoryWithNewWaypoints(
-              parameters_.last_local_time_evaluated, next_trajectory_waypoint_);
+              last_local_time_evaluated, next_trajectory_waypoint_);
         }
         else
         {
@@ -556,7 +559,9 @@ namespace dynamic_traj_generator
     DynamicWaypoint::Deque new_waypoints;
     // Append the previous points to generate a smooth stitching
 
-    double local_eval_t = new_parameters_.last_local_time_evaluated + parameters_.t_offset;
+    parameters_mutex_.lock();
+    double local_eval_t = last_t_evaluated + parameters_.t_offset;
+    parameters_mutex_.unlock();
     double last_stitching_t = local_eval_t;
 
     for (int i_waypoints_appended = 0; i_waypoints_appended < N_WAYPOINTS_TO_APPEND;
-- 
2.43.0


From 94570bf842e17dffdbd0f85adb9548f52608c896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:01 +0000
Subject: [PATCH 48/55] Revert "fix: read the waypoints in use under their lock
 only"

The computing flag already orders these reads after the writes.
---
 include/dynamic_trajectory_generator/dynamic_trajectory.hpp | 4 ++--
 src/dynamic_trajectory.cpp                                  | 2 --
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
index f38e2cd..3b90102 100644
--- a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
+++ b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
@@ -30,7 +30,7 @@
 // #define SECURITY_TIME_BEFORE_WAYPOINT 5.0
 
 #define TRAJECTORY_COMPUTATION_TIME \
-  ( 2 * computeSecurityTime())
+  ( 2 * computeSecurityTime(dynamic_waypoints_.size()))
 
 #define SECURITY_TIME_BEFORE_WAYPOINT \
   (SECURITY_ZONE_MULTIPLIER * TRAJECTORY_COMPUTATION_TIME)
@@ -224,7 +224,7 @@ class DynamicTrajectory {
   double time_constant_ = 0.0f;
 
   void todoThreadLoop();
-  double computeSecurityTime() const {
+  double computeSecurityTime(int n) const {
     // return time_constant_ * n; // LINEAL APROXIMATION
     std::lock_guard<std::mutex> lock(time_measure_mutex_);
     return time_constant_;  // LINEAL APROXIMATION
diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index d17ea4e..8c1626c 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -660,9 +660,7 @@ namespace dynamic_traj_generator
       /*   return next_trajectory_waypoints; */
 
       /* } */
-      dynamic_waypoints_mutex_.lock();
       next_trajectory_waypoints = (dynamic_waypoints_);
-      dynamic_waypoints_mutex_.unlock();
       filterPassedWaypoints(next_trajectory_waypoints);
       updateDynamicWaypointsPosition(next_trajectory_waypoints);
       for (auto &waypoint : waypoints_to_be_modified_)
-- 
2.43.0


From d0a83a45b0b02068d633ccf79ea8fd8f2d5eaab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:13 +0000
Subject: [PATCH 49/55] fix: read and clear the flag of a new trajectory in one
 step

---
 src/dynamic_trajectory.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 8c1626c..e1077d8 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -270,9 +270,7 @@ namespace dynamic_traj_generator
 
   bool DynamicTrajectory::getWasTrajectoryRegenerated()
   {
-    bool value = trajectory_regenerated_;
-    trajectory_regenerated_ = false;
-    return value;
+    return trajectory_regenerated_.exchange(false);
   }
   bool DynamicTrajectory::getGenerateNewTraj() const
   {
-- 
2.43.0


From c2dc085196ecefcfee76cc5db80e896a970be98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:43 +0000
Subject: [PATCH 50/55] fix: points and odometry built from values start with
 an invalid timestamp

---
 .../include/mav_msgs/eigen_mav_msgs.hpp                     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_msgs/eigen_mav_msgs.hpp b/subpackages/mav_trajectory_generation/include/mav_msgs/eigen_mav_msgs.hpp
index a2a9ae6..04b698c 100644
--- a/subpackages/mav_trajectory_generation/include/mav_msgs/eigen_mav_msgs.hpp
+++ b/subpackages/mav_trajectory_generation/include/mav_msgs/eigen_mav_msgs.hpp
@@ -186,7 +186,8 @@ struct EigenTrajectoryPoint {
                        const Eigen::Vector3d& _angular_velocity,
                        const Eigen::Vector3d& _angular_acceleration,
                        const MavActuation& _degrees_of_freedom = MavActuation::DOF4)
-      : time_from_start_ns(_time_from_start_ns),
+      : timestamp_ns(-1),
+        time_from_start_ns(_time_from_start_ns),
         position_W(_position),
         velocity_W(_velocity),
         acceleration_W(_acceleration),
@@ -291,7 +292,8 @@ struct EigenOdometry {
                 const Eigen::Quaterniond& _orientation,
                 const Eigen::Vector3d& _velocity_body,
                 const Eigen::Vector3d& _angular_velocity)
-      : position_W(_position),
+      : timestamp_ns(-1),
+        position_W(_position),
         orientation_W_B(_orientation),
         velocity_B(_velocity_body),
         angular_velocity_B(_angular_velocity) {}
-- 
2.43.0


From 3fd4ae4a711d3daafbe7e143c789c7ea396a3697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:06 +0000
Subject: [PATCH 51/55] fix: the maximum-magnitude candidates by sampling keep
 every maximum

---
 .../impl/polynomial_optimization_linear_impl.h               | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h
index 0ce7398..9990190 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h
@@ -446,8 +446,11 @@ void PolynomialOptimization<_N>::
     auto direction_new = value_new.norm() - value_old.norm();
 
     if (std::signbit(direction) != std::signbit(direction_new)) {
+      // A turn from rising to falling is a maximum whatever the derivative at
+      // the sample: several dimensions need not stand still there.
+      const bool is_maximum = std::signbit(direction_new);
       auto value_deriv = segment.evaluate(t_old, Derivative + 1);
-      if (value_deriv.norm() < 1e-2) {
+      if (is_maximum || value_deriv.norm() < 1e-2) {
         candidates->push_back(t_old);  // extremum was at last dt
       }
     }
-- 
2.43.0


From 9ffa51a06f740201858991d749132606573a6bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:57 +0000
Subject: [PATCH 52/55] fix: magnitude extrema of vanishing derivatives and of
 dimensions that do not exist

---
 .../mav_trajectory_generation/src/segment.cpp | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/src/segment.cpp b/subpackages/mav_trajectory_generation/src/segment.cpp
index d6c3a32..47ae9f1 100644
--- a/subpackages/mav_trajectory_generation/src/segment.cpp
+++ b/subpackages/mav_trajectory_generation/src/segment.cpp
@@ -90,6 +90,18 @@ bool Segment::computeMinMaxMagnitudeCandidateTimes(
   if (dimensions.empty()) {
     LOG(WARNING) << "No dimensions specified." << std::endl;
     return false;
+  }
+  for (int dim : dimensions) {
+    if (dim < 0 || dim >= D_) {
+      LOG(WARNING) << "Specified dimensions " << dim
+                   << " are out of bounds [0.." << D_ - 1 << "]." << std::endl;
+      return false;
+    }
+  }
+  if (derivative >= N_) {
+    // The derivative is zero everywhere.
+    return Polynomial::selectMinMaxCandidatesFromRoots(
+        t_start, t_end, Eigen::VectorXcd(), candidate_times);
   } else if (dimensions.size() > 1) {
     const int n_d = N_ - derivative;
     const int n_dd = n_d - 1;
@@ -98,12 +110,6 @@ bool Segment::computeMinMaxMagnitudeCandidateTimes(
     Eigen::VectorXd convolved_coefficients(convolved_coefficients_length);
     convolved_coefficients.setZero();
     for (int dim : dimensions) {
-      if (dim < 0 || dim >= D_) {
-        LOG(WARNING) << "Specified dimensions " << dim
-                     << " are out of bounds [0.." << D_ - 1 << "]."
-                     << std::endl;
-        return false;
-      }
       // Our coefficients are INCREASING, so when you take the derivative,
       // only the lower powers of t have non-zero coefficients.
       // So we take the head.
@@ -140,8 +146,11 @@ bool Segment::computeMinMaxMagnitudeCandidates(
   CHECK_NOTNULL(candidates);
   // Find candidate times (roots + start + end).
   std::vector<double> candidate_times;
-  computeMinMaxMagnitudeCandidateTimes(derivative, t_start, t_end, dimensions,
-                                       &candidate_times);
+  if (!computeMinMaxMagnitudeCandidateTimes(derivative, t_start, t_end,
+                                            dimensions, &candidate_times)) {
+    candidates->clear();
+    return false;
+  }
 
   // Evaluate candidate times.
   candidates->resize(candidate_times.size());
-- 
2.43.0


From ea713e21b91bcdbd3494e7a003fd4d9192262281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:23 +0000
Subject: [PATCH 53/55] fix: the tightest of several limits of a derivative
 counts

---
 .../impl/polynomial_optimization_nonlinear_impl.h    | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
index 7b14d8f..564df6e 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
@@ -395,9 +395,9 @@ void PolynomialOptimizationNonLinear<_N>::scaleSegmentTimesWithViolation() {
   double a_max = std::numeric_limits<double>::max();
   for (const auto& constraint : inequality_constraints_) {
     if (constraint->derivative == derivative_order::VELOCITY) {
-      v_max = constraint->value;
+      v_max = std::min(v_max, constraint->value);
     } else if (constraint->derivative == derivative_order::ACCELERATION) {
-      a_max = constraint->value;
+      a_max = std::min(a_max, constraint->value);
     }
   }
 
@@ -881,10 +881,10 @@ void PolynomialOptimizationNonLinear<_N>::
           if (deriv == derivative_hc) {
             for (size_t k = 0; k < dim; ++k) {
               unsigned int start_idx = k * n_free_constraints;
-              lower_bounds->at(start_idx + free_deriv_counter) =
-                  -std::abs(value_hc);
-              upper_bounds->at(start_idx + free_deriv_counter) =
-                  std::abs(value_hc);
+              double& lower = lower_bounds->at(start_idx + free_deriv_counter);
+              double& upper = upper_bounds->at(start_idx + free_deriv_counter);
+              lower = std::max(lower, -std::abs(value_hc));
+              upper = std::min(upper, std::abs(value_hc));
             }
           }
           free_deriv_counter++;
-- 
2.43.0


From 811772a83df3d42b074273d2d93dedd114dc64a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:28 +0000
Subject: [PATCH 54/55] fix: roots among clusters are accurate

---
 .../src/rpoly/rpoly_ak1.cpp                   | 76 ++++++++++++++-----
 1 file changed, 56 insertions(+), 20 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp b/subpackages/mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp
index 516d7f9..f9d5c67 100644
--- a/subpackages/mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp
+++ b/subpackages/mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp
@@ -69,6 +69,55 @@ int findLastNonZeroCoeff(const Eigen::VectorXd& coefficients) {
   return last_non_zero_coefficient;
 }
 
+// Checks that the polynomial vanishes at its roots, compared to its terms.
+bool areRootsAccurate(const Eigen::VectorXd& coefficients_decreasing,
+                      const Eigen::VectorXcd& roots) {
+  constexpr double kTolerance = 1e-9;
+  for (int i = 0; i < roots.size(); ++i) {
+    std::complex<double> value = 0.0;
+    double magnitude = 0.0;
+    for (int j = 0; j < coefficients_decreasing.size(); ++j) {
+      value = value * roots[i] + coefficients_decreasing(j);
+      magnitude =
+          magnitude * std::abs(roots[i]) + std::abs(coefficients_decreasing(j));
+    }
+    if (!(std::abs(value) <= kTolerance * magnitude)) return false;
+  }
+  return true;
+}
+
+// Gets all roots from the eigenvalues of the companion matrix. The leading
+// coefficient must not be zero.
+Eigen::VectorXcd findRootsCompanionMatrix(
+    const Eigen::VectorXd& coefficients_increasing) {
+  const int degree = coefficients_increasing.size() - 1;
+  // The matrix is balanced well only without the zeros at the origin, so these
+  // are taken out first, and with roots of a size around one, so the variable
+  // is scaled (by a power of two, which is exact).
+  int n_zeros = 0;
+  while (coefficients_increasing(n_zeros) == 0.0) ++n_zeros;
+  Eigen::VectorXcd roots = Eigen::VectorXcd::Zero(degree);
+  const int n_other = degree - n_zeros;
+  if (n_other == 0) return roots;
+
+  Eigen::VectorXd coefficients = coefficients_increasing.tail(n_other + 1);
+  const int exponent = static_cast<int>(
+      std::round((std::log2(std::abs(coefficients(0))) -
+                  std::log2(std::abs(coefficients(n_other)))) /
+                 n_other));
+  int largest = std::ilogb(coefficients(0));
+  for (int i = 1; i <= n_other; ++i) {
+    if (coefficients(i) == 0.0) continue;
+    largest = std::max(largest, std::ilogb(coefficients(i)) + i * exponent);
+  }
+  for (int i = 0; i <= n_other; ++i) {
+    coefficients(i) = std::ldexp(coefficients(i), i * exponent - largest);
+  }
+  Eigen::PolynomialSolver<double, Eigen::Dynamic> solver(coefficients);
+  roots.tail(n_other) = solver.roots() * std::ldexp(1.0, exponent);
+  return roots;
+}
+
 bool findRootsJenkinsTraub(const Eigen::VectorXd& coefficients_increasing,
                            Eigen::VectorXcd* roots) {
   // Remove trailing zeros.
@@ -111,27 +160,14 @@ bool findRootsJenkinsTraub(const Eigen::VectorXd& coefficients_increasing,
   delete[] roots_real;
   delete[] roots_imag;
 
-  if (degree < n_coefficients - 1) {
-    // Jenkins-Traub did not converge for all roots. Get the complete set from
-    // the eigenvalues of the companion matrix instead. The matrix is balanced
-    // well only without the zeros at the origin, so these are taken out first.
-    int n_zeros = 0;
-    while (coefficients_increasing(n_zeros) == 0.0) ++n_zeros;
-    *roots = Eigen::VectorXcd::Zero(n_coefficients - 1);
-    if (n_zeros < n_coefficients - 1) {
-      Eigen::PolynomialSolver<double, Eigen::Dynamic> solver(
-          Eigen::VectorXd(coefficients_increasing.segment(
-              n_zeros, n_coefficients - n_zeros)));
-      roots->tail(n_coefficients - 1 - n_zeros) = solver.roots();
-    }
-    return true;
-  }
-
-  if (degree > 0) {
-    return true;
-  } else {
-    return false;
+  // Jenkins-Traub may not converge for all roots, and among clustered roots
+  // deflation may leave values that are not even close to being roots.
+  if (degree < n_coefficients - 1 ||
+      !areRootsAccurate(coefficients_decreasing, *roots)) {
+    *roots = findRootsCompanionMatrix(
+        coefficients_increasing.head(n_coefficients));
   }
+  return true;
 }
 
 namespace rpoly_impl {
-- 
2.43.0


From 11d7cc6c11da0d707d8cdb15cb093f419eef9a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:20 +0000
Subject: [PATCH 55/55] fix: the covariances of new odometry are zero

---
 .../include/mav_msgs/eigen_mav_msgs.hpp                   | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_msgs/eigen_mav_msgs.hpp b/subpackages/mav_trajectory_generation/include/mav_msgs/eigen_mav_msgs.hpp
index 04b698c..f6f6631 100644
--- a/subpackages/mav_trajectory_generation/include/mav_msgs/eigen_mav_msgs.hpp
+++ b/subpackages/mav_trajectory_generation/include/mav_msgs/eigen_mav_msgs.hpp
@@ -286,7 +286,9 @@ struct EigenOdometry {
         position_W(Eigen::Vector3d::Zero()),
         orientation_W_B(Eigen::Quaterniond::Identity()),
         velocity_B(Eigen::Vector3d::Zero()),
-        angular_velocity_B(Eigen::Vector3d::Zero()) {}
+        angular_velocity_B(Eigen::Vector3d::Zero()),
+        pose_covariance_(Eigen::Matrix<double, 6, 6>::Zero()),
+        twist_covariance_(Eigen::Matrix<double, 6, 6>::Zero()) {}
 
   EigenOdometry(const Eigen::Vector3d& _position,
                 const Eigen::Quaterniond& _orientation,
@@ -296,7 +298,9 @@ struct EigenOdometry {
         position_W(_position),
         orientation_W_B(_orientation),
         velocity_B(_velocity_body),
-        angular_velocity_B(_angular_velocity) {}
+        angular_velocity_B(_angular_velocity),
+        pose_covariance_(Eigen::Matrix<double, 6, 6>::Zero()),
+        twist_covariance_(Eigen::Matrix<double, 6, 6>::Zero()) {}
 
   EIGEN_MAKE_ALIGNED_OPERATOR_NEW
   int64_t timestamp_ns;  // Time since epoch, negative value = invalid timestamp.
-- 
2.43.0

