From 4d887334c59a93dde63003fb9abb63b757c5762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:46 +0000
Subject: [PATCH 01/28] fix: compute all interior points of a degree elevated
 Bezier segment

DegreeElevateBezierSegment left the last interior point of every segment at
zero, so that elevating the degree returned NaN or wrong control points.
---
 src/spl/spline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index 41658fb..4ac376c 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -350,7 +350,7 @@ class Spline {
     for (int i = 0; i < segment_length; ++i) {
       new_cps[cp_handler_new.Get1DIndex({0, i})] = bezier_cps[cp_handler_old.Get1DIndex({0, i})];
       new_cps[cp_handler_new.Get1DIndex({width - 1, i})] = bezier_cps[cp_handler_old.Get1DIndex({width - 2, i})];
-      for (int j = 1; j < GetDegree(dimension).get(); ++j) {
+      for (int j = 1; j < GetDegree(dimension).get() + 1; ++j) {
         new_cps[cp_handler_new.Get1DIndex({j, i})] = bezier_cps[cp_handler_old.Get1DIndex({j, i})] * (1 - alpha[j]) +
             bezier_cps[cp_handler_old.Get1DIndex({j - 1, i})] * alpha[j];
       }
-- 
2.43.0


From 5c36a1ada61692f79e46d63245f3a5884d136bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:59 +0000
Subject: [PATCH 02/28] fix: RemoveKnot only removes interior knots that exist

Removing a knot that is not in the knot vector removed another knot, and
removing the first or last knot read out of bounds.
---
 src/spl/spline.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index 4ac376c..f7f400e 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -189,6 +189,7 @@ class Spline {
   size_t RemoveKnot(ParamCoord knot, int dimension, double tolerance, size_t multiplicity = 1) {
     size_t count = 0;
     for (; count < multiplicity; ++count) {
+      if (!IsInteriorKnot(knot, dimension)) break;
       KnotSpan knot_span = GetKnotVector(dimension)->GetKnotSpan(knot);
       Degree degree = GetDegree(dimension);
       auto last = knot_span.get() - GetKnotVector(dimension)->GetMultiplicity(knot);
@@ -261,6 +262,11 @@ class Spline {
     parameter_space_->ThrowIfParametricCoordinateOutsideKnotVectorRange(param_coord);
   }
 
+  bool IsInteriorKnot(ParamCoord knot, int dimension) const {
+    return GetKnotVector(dimension)->GetMultiplicity(knot) > 0
+        && GetKnotVector(dimension)->GetKnot(0) < knot && !GetKnotVector(dimension)->IsLastKnot(knot);
+  }
+
   virtual double GetEvaluatedControlPoint(std::array<ParamCoord, DIM> param_coord,
                                           std::array<int, DIM> indices,
                                           int dimension) const = 0;
-- 
2.43.0


From d38029a939f3ffc22468cf415c5357e7a3a4788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:59 +0000
Subject: [PATCH 03/28] fix: test the remaining equation when an odd number of
 points is affected by knot removal

With i == j the points left and right of the remaining one are two different
points of the result. Their distance says nothing about whether the knot can be
removed, but knots were removed whenever they happened to be close.
---
 src/spl/b_spline.h | 2 +-
 src/spl/nurbs.h    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spl/b_spline.h b/src/spl/b_spline.h
index 9d7446c..681c57a 100644
--- a/src/spl/b_spline.h
+++ b/src/spl/b_spline.h
@@ -222,7 +222,7 @@ class BSpline : public Spline<DIM> {
         temp1[k] = temp[l * temp_length + (i - off - 1) * this->GetPointDim() + k];
         temp2[k] = temp[l * temp_length + (j - off + 1) * this->GetPointDim() + k];
       }
-      if (util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
+      if (i == j || util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
         for (int k = 0; k < this->GetPointDim(); ++k) {
           auto indices = point_handler.GetIndices();
           indices[dimension] = i;
diff --git a/src/spl/nurbs.h b/src/spl/nurbs.h
index 712e1f3..d843b13 100644
--- a/src/spl/nurbs.h
+++ b/src/spl/nurbs.h
@@ -418,7 +418,7 @@ class NURBS : public Spline<DIM> {
         temp1[k] = temp[offset + (i - off - 1) * this->GetPointDim() + k] * temp_w[w_offset + i - off - 1];
         temp2[k] = temp[offset + (j - off + 1) * this->GetPointDim() + k] * temp_w[w_offset + j - off + 1];
       }
-      if (util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
+      if (i == j || util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
         auto indices = point_handler.GetIndices();
         indices[dimension] = i;
         for (int k = 0; k < this->GetPointDim(); ++k) {
-- 
2.43.0


From 67fb2467bb59d8e5f83a6d52300d41880d5128cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:53 +0000
Subject: [PATCH 04/28] fix: compare splines over their whole parametric domain
 in AreGeometricallyEqual

The sample points started at 0 instead of the first knot, and points that are
not a number counted as equal.
---
 src/spl/spline.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index f7f400e..b391cc4 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -108,12 +108,13 @@ class Spline {
     for (int i = 0; i < point_handler.Get1DLength(); ++i, ++point_handler) {
       std::array<ParamCoord, DIM> param_coord;
       for (int dim = 0; dim < DIM; ++dim) {
-        double span = GetKnotVector(dim)->GetLastKnot().get() - GetKnotVector(dim)->GetKnot(0).get();
-        param_coord[dim] = ParamCoord(span / number * point_handler[dim]);
+        double fraction = point_handler[dim] / number;
+        param_coord[dim] = ParamCoord((1 - fraction) * GetKnotVector(dim)->GetKnot(0).get()
+                                          + fraction * GetKnotVector(dim)->GetLastKnot().get());
       }
       std::vector<double> evaluate_this = Evaluate(param_coord, dimensions);
       std::vector<double> evaluate_rhs = rhs.Evaluate(param_coord, dimensions);
-      if (util::VectorUtils<double>::ComputeDistance(evaluate_this, evaluate_rhs) > tolerance) {
+      if (!(util::VectorUtils<double>::ComputeDistance(evaluate_this, evaluate_rhs) <= tolerance)) {
         return false;
       }
     }
-- 
2.43.0


From 9722c9f0a17c6764fa945bb1e9bb2ec177f4900d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:53 +0000
Subject: [PATCH 05/28] fix: NURBSGenerator copies the knot vectors it is given

A NURBS built with the generator shared its knot vectors with the caller, who
changed the spline by changing them (BSplineGenerator has always copied them).
---
 src/spl/nurbs_generator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spl/nurbs_generator.h b/src/spl/nurbs_generator.h
index d64f65b..ce4b288 100644
--- a/src/spl/nurbs_generator.h
+++ b/src/spl/nurbs_generator.h
@@ -35,7 +35,7 @@ class NURBSGenerator : public SplineGenerator<DIM> {
     }
 
     this->physical_space_ = std::make_shared<WeightedPhysicalSpace<DIM>>(control_points, weights, number_of_points);
-    this->parameter_space_ = std::make_shared<ParameterSpace<DIM>>(knot_vector, degree);
+    this->parameter_space_ = std::make_shared<ParameterSpace<DIM>>(ParameterSpace<DIM>(knot_vector, degree));
   }
 
   NURBSGenerator(std::shared_ptr<WeightedPhysicalSpace<DIM>> weighted_physical_space,
-- 
2.43.0


From 8a566684cc2d218a908b6021a070429f2fa36e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:30 +0000
Subject: [PATCH 06/28] fix: project points on splines with any parametric
 domain

Initial values were taken relative to 0 instead of the first knot, and both
directions of a surface were clamped to the knot vector of the first.
---
 src/spl/projection.h | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/spl/projection.h b/src/spl/projection.h
index 1d24fc5..89618e9 100644
--- a/src/spl/projection.h
+++ b/src/spl/projection.h
@@ -85,10 +85,10 @@ class Projection {
     util::ElementGenerator<1> element_generator(spline);
     std::vector<util::Element> elements = element_generator.GetElementList(0);
     std::array<ParamCoord, DIM> paramCoords = {ParamCoord{0}};
-    std::vector<double> splinePhysicalCoords = spline->Evaluate({ParamCoord{(0.5 * (
-        elements[0].GetUpperBound() - elements[0].GetLowerBound()).get())}}, dimensions);
+    paramCoords[0] = ParamCoord{0.5 * (
+        elements[0].GetUpperBound() - elements[0].GetLowerBound()).get() + elements[0].GetLowerBound().get()};
+    std::vector<double> splinePhysicalCoords = spline->Evaluate({paramCoords[0]}, dimensions);
     double distance = util::VectorUtils<double>::ComputeDistance(point_phys_coords, splinePhysicalCoords);
-    paramCoords[0] = ParamCoord{{0.5 * (elements[0].GetUpperBound() - elements[0].GetLowerBound()).get()}};
     for (auto i = 1u; i < elements.size(); ++i) {
       splinePhysicalCoords = spline->Evaluate({ParamCoord{0.5 * (
           elements[i].GetUpperBound() - elements[i].GetLowerBound()).get() + elements[i].GetLowerBound().get()}},
@@ -115,8 +115,9 @@ class Projection {
     double distance = util::VectorUtils<double>::ComputeDistance(point_phys_coords, physical_coords);
     for (int i = 1; i <= scattering[0]; ++i) {
       for (int j = 1; j <= scattering[1]; ++j) {
-        ParamCoord coord1 = ParamCoord(i * (last_knot1 - first_knot1) / scattering[0]);
-        ParamCoord coord2 = ParamCoord(j * (last_knot2 - first_knot2) / scattering[1]);
+        double fraction1 = static_cast<double>(i) / scattering[0], fraction2 = static_cast<double>(j) / scattering[1];
+        ParamCoord coord1 = ParamCoord((1 - fraction1) * first_knot1 + fraction1 * last_knot1);
+        ParamCoord coord2 = ParamCoord((1 - fraction2) * first_knot2 + fraction2 * last_knot2);
         physical_coords = spline->Evaluate({coord1, coord2}, dimensions);
         double current_dist = util::VectorUtils<double>::ComputeTwoNorm(util::VectorUtils<double>::ComputeDifference(
             point_phys_coords,
@@ -140,11 +141,11 @@ class Projection {
 
   static std::array<ParamCoord, DIM> CheckParametricCoordinates(std::array<ParamCoord, DIM> param_coords,
                                                                 const std::shared_ptr<spl::Spline<DIM>> &spline) {
-    for (auto &coord : param_coords) {
-      if (coord < spline->GetKnotVector(0)->GetKnot(0)) {
-        coord = spline->GetKnotVector(0)->GetKnot(0);
-      } else if (coord > spline->GetKnotVector(0)->GetLastKnot()) {
-        coord = spline->GetKnotVector(0)->GetLastKnot();
+    for (int i = 0; i < DIM; ++i) {
+      if (param_coords[i] < spline->GetKnotVector(i)->GetKnot(0)) {
+        param_coords[i] = spline->GetKnotVector(i)->GetKnot(0);
+      } else if (param_coords[i] > spline->GetKnotVector(i)->GetLastKnot()) {
+        param_coords[i] = spline->GetKnotVector(i)->GetLastKnot();
       }
     }
     return param_coords;
-- 
2.43.0


From d7ca7d3d8a3df73389ad5bd34915a34051dbdcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:36 +0000
Subject: [PATCH 07/28] fix: StringToDouble parses all decimal numbers

Numbers without a digit before the decimal point (.5) and numbers with an
exponent but no decimal point (1e5) were parsed as inf or off by powers of ten.
---
 src/util/string_operations.h | 34 ++++++++--------------------------
 1 file changed, 8 insertions(+), 26 deletions(-)

diff --git a/src/util/string_operations.h b/src/util/string_operations.h
index acda5b9..214f741 100644
--- a/src/util/string_operations.h
+++ b/src/util/string_operations.h
@@ -17,7 +17,9 @@ You should have received a copy of the GNU Lesser General Public License along w
 
 #include <algorithm>
 #include <cmath>
+#include <locale>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -85,34 +87,14 @@ class StringOperations {
     return s;
   }
 
-  static double StringToDouble(std::string string) {
-    int sign = 1;
-    if (string[0] == '-') {
-      sign = -1;
-      string.erase(0, 1);
-    }
-    std::size_t found = string.find_first_of('.');
-    std::size_t exponent = string.find_first_of("Ee");
-    std::size_t end_of_number = (exponent == std::string::npos) ? string.length() - 1 : exponent - 1;
+  static double StringToDouble(const std::string &string) {
+    std::istringstream stream(string);
+    stream.imbue(std::locale::classic());
     double result = 0;
-    double factor = pow(10, found != std::string::npos ? found - 1 : string.length() - 1);
-    for (auto i = 0u; i <= end_of_number; ++i) {
-      if (i != found) {
-        result += std::stoi(string.substr(i, 1)) * factor;
-        factor /= 10;
-      }
-    }
-    if (exponent != std::string::npos) {
-      if (string[exponent + 1] == '-') {
-        factor = -1;
-        ++exponent;
-      } else if (string[exponent + 1] == '+') {
-        ++exponent;
-      }
-      int potency = std::stoi(string.substr(exponent + 1, string.length() - exponent));
-      result *= factor != -1 ? pow(10, potency) : 1 / pow(10, potency);
+    if (!(stream >> result) || stream.peek() != std::istringstream::traits_type::eof()) {
+      throw std::invalid_argument("The string \"" + string + "\" is not a number.");
     }
-    return sign * result;
+    return result;
   }
 };
 }  // namespace util
-- 
2.43.0


From a7ae8549801a41d4351c6253f32544dd96befc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:36 +0000
Subject: [PATCH 08/28] fix: EndsWith compares the end of the string

It compared with the first occurrence, so that "a.xml.xml" did not end with
".xml", and a string one character shorter than the suffix always matched. The
converter log relied on the latter to stop at empty lines.
---
 src/io/executables/converter_log.cc | 11 +++++++++--
 src/util/string_operations.h        |  3 ++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/io/executables/converter_log.cc b/src/io/executables/converter_log.cc
index cde04c9..9749e35 100644
--- a/src/io/executables/converter_log.cc
+++ b/src/io/executables/converter_log.cc
@@ -22,6 +22,13 @@ You should have received a copy of the GNU Lesser General Public License along w
 #include "system_operations.h"
 #include "vector_utils.h"
 
+namespace {
+bool IsEndOfEntry(const std::string &line) {
+  std::string trimmed_line = util::StringOperations::trim(line);
+  return trimmed_line.empty() || util::StringOperations::EndsWith(trimmed_line, ":");
+}
+}  // namespace
+
 io::ConverterLog::ConverterLog() : log_file_("") {}
 
 io::ConverterLog::ConverterLog(const char *log_file) : log_file_(log_file) {
@@ -39,7 +46,7 @@ io::ConverterLog::ConverterLog(const char *log_file) : log_file_(log_file) {
       getline(log, output_);
     }
     if (util::StringOperations::StartsWith(line, "options:")) {
-      while (getline(log, line) && !util::StringOperations::EndsWith(util::StringOperations::trim(line), ":")) {
+      while (getline(log, line) && !IsEndOfEntry(line)) {
         if (line == "all") {
           positions_.clear();
           positions_.emplace_back(-1);
@@ -49,7 +56,7 @@ io::ConverterLog::ConverterLog(const char *log_file) : log_file_(log_file) {
       }
     }
     if (util::StringOperations::StartsWith(line, "scattering:")) {
-      while (getline(log, line) && !util::StringOperations::EndsWith(util::StringOperations::trim(line), ":")) {
+      while (getline(log, line) && !IsEndOfEntry(line)) {
         std::vector<std::string> strings = util::StringOperations::split(line, ' ');
         scattering_.emplace_back(util::StringOperations::StringVectorToNumberVector<int>(strings));
       }
diff --git a/src/util/string_operations.h b/src/util/string_operations.h
index 214f741..9ca53b6 100644
--- a/src/util/string_operations.h
+++ b/src/util/string_operations.h
@@ -74,7 +74,8 @@ class StringOperations {
   }
 
   static bool EndsWith(const std::string &string, const std::string &end_of_string) {
-    return string.find(end_of_string) == string.length() - end_of_string.length();
+    return string.length() >= end_of_string.length()
+        && string.compare(string.length() - end_of_string.length(), std::string::npos, end_of_string) == 0;
   }
 
   static inline std::string trim(std::string s) {
-- 
2.43.0


From b1557af9bc47891da173ba106a051e96978ac99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:36 +0000
Subject: [PATCH 09/28] fix: IOConverter starts every conversion with an empty
 list of written splines

A second ConvertFile with positions wrote the splines of the first one again and
reported them as written.
---
 src/io/io_converter.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/io_converter.cc b/src/io/io_converter.cc
index a538e1f..b71f15a 100644
--- a/src/io/io_converter.cc
+++ b/src/io/io_converter.cc
@@ -97,6 +97,7 @@ void io::IOConverter::WriteFile(const std::vector<std::any> &splines, const std:
 
 void io::IOConverter::GetPositions(const std::vector<int> &positions,
                                    const std::vector<int> &possible_positions) {
+  written_.clear();
   if (positions.empty()) {
     written_ = possible_positions;
   } else {
-- 
2.43.0


From 825f66473f398c6976e088107f3d3ce20aa994a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:36 +0000
Subject: [PATCH 10/28] fix: ConverterLog reports the positions of the last
 query and accepts a log without options

Asking for the positions twice listed them twice, and a log file without
positions read the first element of an empty vector.
---
 src/io/executables/converter_log.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/io/executables/converter_log.cc b/src/io/executables/converter_log.cc
index 9749e35..af96a40 100644
--- a/src/io/executables/converter_log.cc
+++ b/src/io/executables/converter_log.cc
@@ -73,7 +73,9 @@ const char *io::ConverterLog::GetOutput() const {
 }
 
 std::vector<int> io::ConverterLog::GetPositions(std::vector<int> possible_positions) {
-  if (positions_[0] == -1) {
+  written_.clear();
+  not_written_.clear();
+  if (!positions_.empty() && positions_[0] == -1) {
     written_ = possible_positions;
   } else {
     for (const auto &pos : positions_) {
@@ -89,7 +91,7 @@ std::vector<int> io::ConverterLog::GetPositions(std::vector<int> possible_positi
 
 std::vector<std::vector<int>> io::ConverterLog::GetScattering() {
   std::vector<int> indices;
-  if (positions_[0] != -1) {
+  if (positions_.empty() || positions_[0] != -1) {
     for (int i = 0; i < static_cast<int>(positions_.size()); ++i) {
       if (std::find(written_.begin(), written_.end(), positions_[i]) != written_.end()) {
         indices.emplace_back(i);
-- 
2.43.0


From ab7036e5389a41e1ecef06fb6d34c601b08fa7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:21 +0000
Subject: [PATCH 11/28] fix: project the previous normal along the tangent
 where a swept trajectory is straight

The component along the position vector of the trajectory was removed instead of
the one along its unit tangent, which was computed but not used.
---
 src/spl/surface_generator.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spl/surface_generator.cc b/src/spl/surface_generator.cc
index 37d4ba7..3986074 100644
--- a/src/spl/surface_generator.cc
+++ b/src/spl/surface_generator.cc
@@ -147,7 +147,7 @@ double spl::SurfaceGenerator::ComputeNorm(std::array<double, 3> a) {
   return std::sqrt(norm);
 }
 
-std::array<double, 3> spl::SurfaceGenerator::ComputeNormal(std::vector<double> T,
+std::array<double, 3> spl::SurfaceGenerator::ComputeNormal(std::vector<double> /*T*/,
                                                            std::vector<double> dT,
                                                            std::vector<double> ddT,
                                                            std::array<double, 3> previous,
@@ -169,9 +169,9 @@ std::array<double, 3> spl::SurfaceGenerator::ComputeNormal(std::vector<double> T
   for (int i = 0; i < 3; ++i) {
     dT[i] /= norm_dT;
   }
-  double product = DotProduct(previous, T);
+  double product = DotProduct(previous, dT);
   for (int i = 0; i < 3; ++i) {
-    crossProduct[i] = previous[i] - product * T[i];
+    crossProduct[i] = previous[i] - product * dT[i];
   }
   norm_cross = ComputeNorm(crossProduct);
   for (int i = 0; i < 3; ++i) {
-- 
2.43.0


From f1f2a7636546547ac5d1fd310e01b22fbfe908bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:21 +0000
Subject: [PATCH 12/28] fix: sweep along trajectories with any parametric
 domain

The trajectory was sampled from 0 instead of its first knot, and the averaged
knot vector started at 0 instead of the first parameter.
---
 src/baf/knot_vector.cc       | 2 +-
 src/spl/surface_generator.cc | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/baf/knot_vector.cc b/src/baf/knot_vector.cc
index 5e14ad7..73c1b2c 100644
--- a/src/baf/knot_vector.cc
+++ b/src/baf/knot_vector.cc
@@ -33,7 +33,7 @@ baf::KnotVector::KnotVector(ConstKnotIterator begin, ConstKnotIterator end) : kn
                                                                                                              end)) {}
 baf::KnotVector::KnotVector(std::vector<ParamCoord> coords, Degree degree, int nbControlPoints) {
   for (int i = 0; i <= degree.get(); ++i) {
-    knots_.emplace_back(ParamCoord{0.0});
+    knots_.emplace_back(coords[0]);
   }
   double curParamCoord;
   for (int i = 1; i <= nbControlPoints - 1 - degree.get(); ++i) {
diff --git a/src/spl/surface_generator.cc b/src/spl/surface_generator.cc
index 3986074..d9697a8 100644
--- a/src/spl/surface_generator.cc
+++ b/src/spl/surface_generator.cc
@@ -54,7 +54,8 @@ std::shared_ptr<spl::WeightedPhysicalSpace<2>> spl::SurfaceGenerator::JoinPhysic
 spl::SurfaceGenerator::SurfaceGenerator(std::shared_ptr<spl::NURBS<1>> const &nurbs_T,
                                         std::shared_ptr<spl::NURBS<1>> const &nurbs_C,
                                         int nbInter, std::vector<std::array<double, 3>> scaling) {
-  double step_size = nurbs_T->GetKnotVectorRange(0) / (nbInter - 1);
+  double first_knot = nurbs_T->GetKnotVector(0)->GetKnot(0).get();
+  double last_knot = nurbs_T->GetKnotVector(0)->GetLastKnot().get();
   std::vector<ParamCoord> v_i;
   std::vector<double> dT_v;
   std::vector<double> ddT_v;
@@ -72,7 +73,8 @@ spl::SurfaceGenerator::SurfaceGenerator(std::shared_ptr<spl::NURBS<1>> const &nu
   std::vector<double> j_weights(nbInter * m, 0.0);
   v_i.reserve(nbInter);
   for (int i = 0; i < nbInter; ++i) {
-    v_i.emplace_back(ParamCoord{i * step_size});
+    double fraction = static_cast<double>(i) / (nbInter - 1);
+    v_i.emplace_back(ParamCoord{(1 - fraction) * first_knot + fraction * last_knot});
     t_v = nurbs_T->Evaluate(std::array<ParamCoord, 1>({v_i[i]}), dimensions);
     weight_v = nurbs_T->Evaluate(std::array<ParamCoord, 1>({v_i[i]}), std::vector<int>({3}))[0];
     dT_v = nurbs_T->EvaluateDerivative(std::array<ParamCoord, 1>({v_i[i]}), dimensions, first_derivative);
-- 
2.43.0


From 83eb3020006d4e49f8ce24ecdfaabfb5b2f39c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:31 +0000
Subject: [PATCH 13/28] fix: VTK output ends exactly at the last knot

Rounding moved the last sample behind the last knot for ranges like [-3, -0.9],
and writing the file failed with a range error.
---
 src/io/vtk_writer_utils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/vtk_writer_utils.h b/src/io/vtk_writer_utils.h
index e9d165d..20abf2f 100644
--- a/src/io/vtk_writer_utils.h
+++ b/src/io/vtk_writer_utils.h
@@ -56,7 +56,8 @@ class VTKWriterUtils {
     for (int i = 0; i < point_handler.Get1DLength(); ++point_handler, ++i) {
       std::array<ParamCoord, DIM> coords{};
       for (int j = 0; j < DIM; ++j) {
-        coords[j] = ParamCoord(knots[j] + point_handler[j] * (knots[j + DIM] - knots[j]) / scattering[j]);
+        double fraction = static_cast<double>(point_handler[j]) / scattering[j];
+        coords[j] = ParamCoord((1 - fraction) * knots[j] + fraction * knots[j + DIM]);
       }
       for (int k = 0; k < 3; ++k) {
         file << (k < spline_ptr->GetPointDim() ? spline_ptr->Evaluate(coords, {k})[0] : 0) << (k < 2 ? " " : "\n");
-- 
2.43.0


From 228b8f895c5079ed599546c8799eabc64da8422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:31 +0000
Subject: [PATCH 14/28] fix: solution output ends exactly at the last knot

Rounding moved the last sample behind the last knot for ranges like [0, 0.9], and
writing the solution failed with a range error.
---
 example/iga/src/solution_vtk_writer.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/example/iga/src/solution_vtk_writer.h b/example/iga/src/solution_vtk_writer.h
index 019e138..ffc5261 100644
--- a/example/iga/src/solution_vtk_writer.h
+++ b/example/iga/src/solution_vtk_writer.h
@@ -36,11 +36,8 @@ class SolutionVTKWriter {
     iga::SolutionSpline<DIM> sol_spl(spl, solution);
     std::shared_ptr<spl::NURBS<DIM>> solution_spl = sol_spl.GetSolutionSpline();
     int cp_dim = spl->GetPointDim();
-    std::vector<double> dxi;
     std::array<int, DIM> num_pnts{};
     for (int i = 0; i < DIM; ++i) {
-      baf::KnotVector knots = *spl->GetKnotVector(i);
-      dxi.emplace_back((knots.GetKnot(knots.GetNumberOfKnots() - 1) - knots.GetKnot(0)).get() / scattering[0][i]);
       num_pnts[i] = scattering[0][i] + 1;
     }
     std::vector<double> point_data;
@@ -48,7 +45,9 @@ class SolutionVTKWriter {
     while (true) {
       std::array<ParamCoord, DIM> param_coords{};
       for (int i = 0; i < DIM; ++i) {
-        param_coords[i] = spl->GetKnotVector(i)->GetKnot(0) + ParamCoord{mih[i] * dxi[i]};
+        double fraction = static_cast<double>(mih[i]) / scattering[0][i];
+        param_coords[i] = ParamCoord{(1 - fraction) * spl->GetKnotVector(i)->GetKnot(0).get()
+                                         + fraction * spl->GetKnotVector(i)->GetLastKnot().get()};
       }
       point_data.emplace_back(solution_spl->Evaluate(param_coords, {cp_dim})[0]);
       if (mih.Get1DIndex() == mih.Get1DLength() - 1) break;
-- 
2.43.0


From 6170b07e3bc2079dde37cf1003fc09fb21014ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:31 +0000
Subject: [PATCH 15/28] fix: apply the quotient rule to all rational basis
 functions

Only the first functions were divided by the weight function, and with the
already normalised function in place of the weighted one.
---
 example/iga/src/basis_function_handler.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/example/iga/src/basis_function_handler.h b/example/iga/src/basis_function_handler.h
index 23fef08..407de3a 100644
--- a/example/iga/src/basis_function_handler.h
+++ b/example/iga/src/basis_function_handler.h
@@ -186,8 +186,7 @@ class BasisFunctionHandler {
       if (mih.Get1DIndex() == mih.Get1DLength() - 1) break;
       ++mih;
     }
-    for (uint64_t i = 0; i < basis_functions.size(); ++i) {
-      nurbs_basis_functions[i] = nurbs_basis_functions[i] / sum_baf;
+    for (uint64_t i = 0; i < nurbs_basis_functions.size(); ++i) {
       for (int j = 0; j < DIM; ++j) {
         nurbs_basis_function_derivatives[j][i] = (nurbs_basis_function_derivatives[j][i] * sum_baf -
             nurbs_basis_functions[i] * sum_baf_ders[j]) / pow(sum_baf, 2);
-- 
2.43.0


From b156dbb8b2759bd248719285ce27265ddbcac00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:31 +0000
Subject: [PATCH 16/28] fix: boundary splines take the knot vectors and degrees
 of their own directions

The boundary splines of the first direction got the knot vector of that direction
instead of the remaining ones.
---
 example/iga/src/linear_equation_assembler.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/example/iga/src/linear_equation_assembler.h b/example/iga/src/linear_equation_assembler.h
index a563117..7691962 100644
--- a/example/iga/src/linear_equation_assembler.h
+++ b/example/iga/src/linear_equation_assembler.h
@@ -86,8 +86,8 @@ class LinearEquationAssembler {
       int m = 0;
       for (int j = 0; j < DIM; ++j) {
         if (j != i) {
-          kv_ptr[m] = spline_->GetKnotVector(m);
-          degree[m] = spline_->GetDegree(m);
+          kv_ptr[m] = spline_->GetKnotVector(j);
+          degree[m] = spline_->GetDegree(j);
           ++m;
         }
       }
-- 
2.43.0


From b17930467fcdf43fc002d03a437fd9a619418459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:31 +0000
Subject: [PATCH 17/28] fix: PoissonProblem assembles every solution from
 scratch

The matrix and right hand side of the first solution were still in place when
another one was computed.
---
 example/iga/src/poisson_problem.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/example/iga/src/poisson_problem.h b/example/iga/src/poisson_problem.h
index 481e932..a36d671 100644
--- a/example/iga/src/poisson_problem.h
+++ b/example/iga/src/poisson_problem.h
@@ -37,6 +37,8 @@ class PoissonProblem {
   }
 
   arma::dvec GetSteadyStateSolution() {
+    matA_->zeros();
+    vecB_->zeros();
     linear_equation_assembler_->GetLeftSide(rule_, matA_, *elm_itg_calc_);
     linear_equation_assembler_->GetRightSide(rule_, vecB_, *elm_itg_calc_, srcCp_);
     linear_equation_assembler_->SetZeroBC(matA_, vecB_);
@@ -50,6 +52,8 @@ class PoissonProblem {
     auto timeSteps = static_cast<int>(tEnd / dt);
     std::shared_ptr<arma::dvec> uprev = std::make_shared<arma::dvec>(static_cast<uint64_t>(num_cp_), arma::fill::zeros);
     solutions.emplace_back(uprev);
+    matA_->zeros();
+    vecB_->zeros();
     linear_equation_assembler_->GetLeftSide(rule_, matA_, *elm_itg_calc_);
     linear_equation_assembler_->GetRightSide(rule_, vecB_, *elm_itg_calc_, srcCp_);
     auto left = bdf_handler.GetBDF1LeftSide(matA_, dt);
-- 
2.43.0


From 61dcc43fdb7e99534516541e5431f058e215e50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:32 +0000
Subject: [PATCH 18/28] fix: remove knots of multiplicity p+1

---
 src/spl/b_spline.h | 3 ++-
 src/spl/nurbs.h    | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/spl/b_spline.h b/src/spl/b_spline.h
index 681c57a..a9fc664 100644
--- a/src/spl/b_spline.h
+++ b/src/spl/b_spline.h
@@ -81,7 +81,7 @@ class BSpline : public Spline<DIM> {
     std::vector<double> temp = GetTempNewControlPoints(scaling, off, last, i, j, dimension);
     auto diff = static_cast<int>(ceil((j - i) / 2.0));
     i += diff, j -= diff;
-    if (!IsKnotRemovable(scaling[i - off - 1], temp, tolerance, i, j, off, dimension)) {
+    if (!IsKnotRemovable(scaling.empty() ? 0.0 : scaling[i - off - 1], temp, tolerance, i, j, off, dimension)) {
       return false;
     }
     SetNewControlPoints(temp, last, i - off, off, dimension);
@@ -223,6 +223,7 @@ class BSpline : public Spline<DIM> {
         temp2[k] = temp[l * temp_length + (j - off + 1) * this->GetPointDim() + k];
       }
       if (i == j || util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
+        if (j == off) return false;
         for (int k = 0; k < this->GetPointDim(); ++k) {
           auto indices = point_handler.GetIndices();
           indices[dimension] = i;
diff --git a/src/spl/nurbs.h b/src/spl/nurbs.h
index d843b13..eddccb2 100644
--- a/src/spl/nurbs.h
+++ b/src/spl/nurbs.h
@@ -94,7 +94,8 @@ class NURBS : public Spline<DIM> {
     std::vector<double> temp = GetTempNewControlPoints(scaling, temp_w, off, last, i, j, dimension);
     auto diff = static_cast<int>(ceil((j - i) / 2.0));
     i += diff, j -= diff;
-    if (!IsKnotRemovable(scaling[i - off - 1], temp, temp_w, tolerance, i, j, off, dimension)) {
+    if (!IsKnotRemovable(scaling.empty() ? 0.0 : scaling[i - off - 1], temp, temp_w, tolerance,
+                         i, j, off, dimension)) {
       return false;
     }
     SetNewControlPoints(temp, last, i - off, off, dimension);
@@ -419,6 +420,7 @@ class NURBS : public Spline<DIM> {
         temp2[k] = temp[offset + (j - off + 1) * this->GetPointDim() + k] * temp_w[w_offset + j - off + 1];
       }
       if (i == j || util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
+        if (j == off) return false;
         auto indices = point_handler.GetIndices();
         indices[dimension] = i;
         for (int k = 0; k < this->GetPointDim(); ++k) {
-- 
2.43.0


From ee3906a3b3e33943737c3cb44aff363aaec55305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:08 +0000
Subject: [PATCH 19/28] fix: a knot is not removable where its removal has no
 finite result

---
 src/spl/nurbs.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spl/nurbs.h b/src/spl/nurbs.h
index eddccb2..5fa48c6 100644
--- a/src/spl/nurbs.h
+++ b/src/spl/nurbs.h
@@ -419,7 +419,7 @@ class NURBS : public Spline<DIM> {
         temp1[k] = temp[offset + (i - off - 1) * this->GetPointDim() + k] * temp_w[w_offset + i - off - 1];
         temp2[k] = temp[offset + (j - off + 1) * this->GetPointDim() + k] * temp_w[w_offset + j - off + 1];
       }
-      if (i == j || util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
+      if (i == j || !(util::VectorUtils<double>::ComputeDistance(temp1, temp2) <= tolerance)) {
         if (j == off) return false;
         auto indices = point_handler.GetIndices();
         indices[dimension] = i;
@@ -431,7 +431,7 @@ class NURBS : public Spline<DIM> {
         temp1[this->GetPointDim()] = physical_space_->GetWeight(indices);
         temp2[this->GetPointDim()] =
             alfi * temp_w[w_offset + i - off + 1] + (1 - alfi) * temp_w[w_offset + i - off - 1];
-        if (util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
+        if (!(util::VectorUtils<double>::ComputeDistance(temp1, temp2) <= tolerance)) {
           return false;
         }
       }
-- 
2.43.0


From d2d1f6fc31cd5a1c746f8788980ee3897323b9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:30 +0000
Subject: [PATCH 20/28] Revert "fix: PoissonProblem assembles every solution
 from scratch"

This reverts commit b17930467fcdf43fc002d03a437fd9a619418459.
---
 example/iga/src/poisson_problem.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/example/iga/src/poisson_problem.h b/example/iga/src/poisson_problem.h
index a36d671..481e932 100644
--- a/example/iga/src/poisson_problem.h
+++ b/example/iga/src/poisson_problem.h
@@ -37,8 +37,6 @@ class PoissonProblem {
   }
 
   arma::dvec GetSteadyStateSolution() {
-    matA_->zeros();
-    vecB_->zeros();
     linear_equation_assembler_->GetLeftSide(rule_, matA_, *elm_itg_calc_);
     linear_equation_assembler_->GetRightSide(rule_, vecB_, *elm_itg_calc_, srcCp_);
     linear_equation_assembler_->SetZeroBC(matA_, vecB_);
@@ -52,8 +50,6 @@ class PoissonProblem {
     auto timeSteps = static_cast<int>(tEnd / dt);
     std::shared_ptr<arma::dvec> uprev = std::make_shared<arma::dvec>(static_cast<uint64_t>(num_cp_), arma::fill::zeros);
     solutions.emplace_back(uprev);
-    matA_->zeros();
-    vecB_->zeros();
     linear_equation_assembler_->GetLeftSide(rule_, matA_, *elm_itg_calc_);
     linear_equation_assembler_->GetRightSide(rule_, vecB_, *elm_itg_calc_, srcCp_);
     auto left = bdf_handler.GetBDF1LeftSide(matA_, dt);
-- 
2.43.0


From b91eff640f90cfd64d7e7cf6ef358584650aa4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:30 +0000
Subject: [PATCH 21/28] Revert "fix: boundary splines take the knot vectors and
 degrees of their own directions"

This reverts commit b156dbb8b2759bd248719285ce27265ddbcac00a.
---
 example/iga/src/linear_equation_assembler.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/example/iga/src/linear_equation_assembler.h b/example/iga/src/linear_equation_assembler.h
index 7691962..a563117 100644
--- a/example/iga/src/linear_equation_assembler.h
+++ b/example/iga/src/linear_equation_assembler.h
@@ -86,8 +86,8 @@ class LinearEquationAssembler {
       int m = 0;
       for (int j = 0; j < DIM; ++j) {
         if (j != i) {
-          kv_ptr[m] = spline_->GetKnotVector(j);
-          degree[m] = spline_->GetDegree(j);
+          kv_ptr[m] = spline_->GetKnotVector(m);
+          degree[m] = spline_->GetDegree(m);
           ++m;
         }
       }
-- 
2.43.0


From 30e41051bc943e7dc901667cad3410de148418d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:30 +0000
Subject: [PATCH 22/28] Revert "fix: apply the quotient rule to all rational
 basis functions"

This reverts commit 6170b07e3bc2079dde37cf1003fc09fb21014ed0.
---
 example/iga/src/basis_function_handler.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/example/iga/src/basis_function_handler.h b/example/iga/src/basis_function_handler.h
index 407de3a..23fef08 100644
--- a/example/iga/src/basis_function_handler.h
+++ b/example/iga/src/basis_function_handler.h
@@ -186,7 +186,8 @@ class BasisFunctionHandler {
       if (mih.Get1DIndex() == mih.Get1DLength() - 1) break;
       ++mih;
     }
-    for (uint64_t i = 0; i < nurbs_basis_functions.size(); ++i) {
+    for (uint64_t i = 0; i < basis_functions.size(); ++i) {
+      nurbs_basis_functions[i] = nurbs_basis_functions[i] / sum_baf;
       for (int j = 0; j < DIM; ++j) {
         nurbs_basis_function_derivatives[j][i] = (nurbs_basis_function_derivatives[j][i] * sum_baf -
             nurbs_basis_functions[i] * sum_baf_ders[j]) / pow(sum_baf, 2);
-- 
2.43.0


From b6aa9c12f8e3a1f54e03814f10fad4c236aa4fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:30 +0000
Subject: [PATCH 23/28] Revert "fix: solution output ends exactly at the last
 knot"

This reverts commit 228b8f895c5079ed599546c8799eabc64da8422d.
---
 example/iga/src/solution_vtk_writer.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/example/iga/src/solution_vtk_writer.h b/example/iga/src/solution_vtk_writer.h
index ffc5261..019e138 100644
--- a/example/iga/src/solution_vtk_writer.h
+++ b/example/iga/src/solution_vtk_writer.h
@@ -36,8 +36,11 @@ class SolutionVTKWriter {
     iga::SolutionSpline<DIM> sol_spl(spl, solution);
     std::shared_ptr<spl::NURBS<DIM>> solution_spl = sol_spl.GetSolutionSpline();
     int cp_dim = spl->GetPointDim();
+    std::vector<double> dxi;
     std::array<int, DIM> num_pnts{};
     for (int i = 0; i < DIM; ++i) {
+      baf::KnotVector knots = *spl->GetKnotVector(i);
+      dxi.emplace_back((knots.GetKnot(knots.GetNumberOfKnots() - 1) - knots.GetKnot(0)).get() / scattering[0][i]);
       num_pnts[i] = scattering[0][i] + 1;
     }
     std::vector<double> point_data;
@@ -45,9 +48,7 @@ class SolutionVTKWriter {
     while (true) {
       std::array<ParamCoord, DIM> param_coords{};
       for (int i = 0; i < DIM; ++i) {
-        double fraction = static_cast<double>(mih[i]) / scattering[0][i];
-        param_coords[i] = ParamCoord{(1 - fraction) * spl->GetKnotVector(i)->GetKnot(0).get()
-                                         + fraction * spl->GetKnotVector(i)->GetLastKnot().get()};
+        param_coords[i] = spl->GetKnotVector(i)->GetKnot(0) + ParamCoord{mih[i] * dxi[i]};
       }
       point_data.emplace_back(solution_spl->Evaluate(param_coords, {cp_dim})[0]);
       if (mih.Get1DIndex() == mih.Get1DLength() - 1) break;
-- 
2.43.0


From c1c19977ffc1b4256abc148ca0b2e57ab21d2e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:54 +0000
Subject: [PATCH 24/28] fix: the IRIT reader treats line breaks and tabs as
 separators

---
 src/io/irit_reader.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/irit_reader.cc b/src/io/irit_reader.cc
index 9115312..3f09e16 100644
--- a/src/io/irit_reader.cc
+++ b/src/io/irit_reader.cc
@@ -14,6 +14,8 @@ You should have received a copy of the GNU Lesser General Public License along w
 
 #include "irit_reader.h"
 
+#include <algorithm>
+#include <cctype>
 #include <fstream>
 
 #include "irit_reader_utils.h"
@@ -30,7 +32,8 @@ std::vector<std::any> io::IRITReader::ReadFile(const char *filename) {
   std::string line;
   std::string file;
   while (getline(newFile, line)) {
-    file += line;
+    std::replace_if(line.begin(), line.end(), [](unsigned char ch) { return std::isspace(ch); }, ' ');
+    file += line + ' ';
   }
   std::vector<std::string> entries = util::StringOperations::split(file, ' ');
   std::vector<int> spline_positions = GetSplinePositions(entries);
-- 
2.43.0


From 1d73384d5a1d322c9a569855b419870b69164c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:54 +0000
Subject: [PATCH 25/28] fix: the IGES reader does not read past the parameters
 of a surface

---
 src/io/iges_reader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/iges_reader.cc b/src/io/iges_reader.cc
index 9082e2a..d05b984 100644
--- a/src/io/iges_reader.cc
+++ b/src/io/iges_reader.cc
@@ -120,7 +120,7 @@ std::any io::IGESReader::Create2DSpline(const std::vector<double> &parameterData
   weightsStartEnd[0] = knotsStartEnd[1][1] + 1;
   weightsStartEnd[1] = weightsStartEnd[0] - 1 + ((1 + upperSumIndex[0]) * (1 + upperSumIndex[1]));
   controlPointsStartEnd[0] = weightsStartEnd[1] + 1;
-  controlPointsStartEnd[1] = controlPointsStartEnd[0] - 1 + (3 * (1 + upperSumIndex[0]) * (1 + upperSumIndex[1])) + 2;
+  controlPointsStartEnd[1] = controlPointsStartEnd[0] - 1 + (3 * (1 + upperSumIndex[0]) * (1 + upperSumIndex[1]));
   std::array<std::vector<ParamCoord>, 2> knots;
   for (int i = knotsStartEnd[0][0]; i <= knotsStartEnd[0][1]; ++i) {
     knots[0].push_back(ParamCoord{parameterData[i]});
@@ -137,7 +137,7 @@ std::any io::IGESReader::Create2DSpline(const std::vector<double> &parameterData
   for (int i = controlPointsStartEnd[0]; i <= controlPointsStartEnd[1]; ++i) {
     controlPointCoordinates.push_back(parameterData[i]);
   }
-  for (auto i = 0u; i < controlPointCoordinates.size() - 2; i += 3) {
+  for (auto i = 0u; i < controlPointCoordinates.size(); i += 3) {
     control_points.push_back(baf::ControlPoint({controlPointCoordinates[i],
                                                 controlPointCoordinates[i + 1],
                                                 controlPointCoordinates[i + 2]}));
-- 
2.43.0


From cf9f2ad7e532286e063e624ba29c7c9d14cf589b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:03 +0000
Subject: [PATCH 26/28] fix: swept surface keeps its frame on straight
 trajectories despite rounding

---
 src/spl/surface_generator.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spl/surface_generator.cc b/src/spl/surface_generator.cc
index d9697a8..cc87255 100644
--- a/src/spl/surface_generator.cc
+++ b/src/spl/surface_generator.cc
@@ -156,7 +156,9 @@ std::array<double, 3> spl::SurfaceGenerator::ComputeNormal(std::vector<double> /
                                                            int index) {
   std::array<double, 3> crossProduct = CrossProduct(dT, std::move(ddT));
   double norm_cross = ComputeNorm(crossProduct);
-  if (norm_cross > 0.0) {
+  double norm_dT = ComputeNorm(dT);
+  // The second derivative of a straight trajectory is zero only up to rounding errors.
+  if (norm_cross > 1e-10 * norm_dT * norm_dT) {
     for (int i = 0; i < 3; ++i) {
       crossProduct[i] /= norm_cross;
     }
@@ -167,7 +169,6 @@ std::array<double, 3> spl::SurfaceGenerator::ComputeNormal(std::vector<double> /
     }
     return crossProduct;
   }
-  double norm_dT = ComputeNorm(dT);
   for (int i = 0; i < 3; ++i) {
     dT[i] /= norm_dT;
   }
-- 
2.43.0


From 417dd1c8818cca23d136d4c4b15b932414bd5fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:45 +0000
Subject: [PATCH 27/28] fix: the global section of IGES files holds valid
 strings and dates

---
 src/io/iges_writer.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/io/iges_writer.cc b/src/io/iges_writer.cc
index f793fe2..67c428c 100644
--- a/src/io/iges_writer.cc
+++ b/src/io/iges_writer.cc
@@ -66,7 +66,7 @@ std::vector<std::string> io::IGESWriter::GetGlobalSection(const std::string &fil
                                                           const std::vector<std::any> &splines) const {
   std::string contents;
   AddToContents(&contents, {GetHollerithFormat(delimiter), GetHollerithFormat(endDelimiter),
-                            GetHollerithFormat("unknown"), filename, GetHollerithFormat("SplineLib"),
+                            GetHollerithFormat("unknown"), GetHollerithFormat(filename), GetHollerithFormat("SplineLib"),
                             GetHollerithFormat("pre_release"),
                             GetString(std::numeric_limits<int>::digits),
                             GetString(std::numeric_limits<float>::max_exponent),
@@ -300,9 +300,10 @@ void io::IGESWriter::AppendToFile(std::ofstream &file, const std::vector<std::st
 
 std::string io::IGESWriter::GetTime() const {
   struct tm ptm = util::SystemOperations::GetTime();
-  std::string date = GetString((ptm.tm_year + 1900) * 10000 + (ptm.tm_mon + 1) * 100 + ptm.tm_mday);
-  std::string time = GetString(ptm.tm_hour * 10000 + ptm.tm_min * 100 + ptm.tm_sec);
-  return GetHollerithFormat(date + "." + time);
+  std::ostringstream time;
+  time << (ptm.tm_year + 1900) * 10000 + (ptm.tm_mon + 1) * 100 + ptm.tm_mday << "."
+       << std::setw(6) << std::setfill('0') << ptm.tm_hour * 10000 + ptm.tm_min * 100 + ptm.tm_sec;
+  return time.str();
 }
 
 double io::IGESWriter::GetHighestValue(std::vector<std::any> splines) const {
-- 
2.43.0


From e7dd034c73722b8c50ce95d533ee518470f12b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:45 +0000
Subject: [PATCH 28/28] fix: the IGES reader accepts exponents of double
 precision numbers

---
 src/io/iges_reader.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/iges_reader.cc b/src/io/iges_reader.cc
index d05b984..f41f84a 100644
--- a/src/io/iges_reader.cc
+++ b/src/io/iges_reader.cc
@@ -14,6 +14,7 @@ You should have received a copy of the GNU Lesser General Public License along w
 
 #include "iges_reader.h"
 
+#include <algorithm>
 #include <fstream>
 #include <sstream>
 #include <utility>
@@ -173,6 +174,8 @@ std::vector<double> io::IGESReader::ParameterSectionToVector(std::vector<std::st
   for (int i = first; i <= last; ++i) {
     temp.append(parameterSection[i]);
   }
+  // Exponents of double precision numbers are denoted by D in IGES files.
+  std::replace(temp.begin(), temp.end(), 'D', 'E');
   return util::StringOperations::DelimitedStringToVector(temp);
 }
 
-- 
2.43.0

