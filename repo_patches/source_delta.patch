From 6bd4b2bc3c1f18dbde22bd405feaf29437217292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 01/64] fix: recognise the binary minus/plus in boundary
 condition expressions

The last '-' of an expression was taken for a value negation, and the
subtraction to its left was then never looked for: 1e-3*x - 2e-3*t was
evaluated as (1e-3*x - 2)... or (a - b)*t, 5-3*-2 as (5-3)*-2, and 2-2e-1
was rejected.  Continue the search on the left of a sign that is not a
binary operator, and treat the '+' of an exponent alike.
---
 src/nimble_expression_parser.cc | 23 +++++++++++++++++++++++
 src/nimble_expression_parser.h  | 21 ++++++++-------------
 2 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/nimble_expression_parser.cc b/src/nimble_expression_parser.cc
index 14e65fb..bb91abf 100644
--- a/src/nimble_expression_parser.cc
+++ b/src/nimble_expression_parser.cc
@@ -122,6 +122,29 @@ ExpressionParsing::IsNumber(ExpressionParsing::Reader r)
   return true;
 }
 
+bool
+ExpressionParsing::FindBinarySign(ExpressionParsing::Reader& r, char sign)
+{
+  const char* f = r.first;
+  for (bool found = r << sign; found; found = (r.pos > 0 && f[r.pos] == sign)) {
+    unsigned int p = r.pos;
+    unsigned int q = p;  // one past the last character of the left operand
+    while (q > 0 && f[q - 1] == ' ') q--;
+    char c = (q > 0) ? f[q - 1] : '\0';
+    // a number directly in front, as in 1e-3 or 2.e+1: its exponent is signed
+    bool exponent = (q == p && c == 'e' && q > 1 && (IsDigit(f[q - 2]) || f[q - 2] == '.'));
+    // an operator in front, or nothing at all: the value behind is signed
+    bool operand = (q > 0 && std::strchr("+-*/^%=<>~", c) == nullptr);
+    if (operand && !exponent) return true;
+    if (sign == '+' && !exponent) return true;  // there is no unary plus
+    // continue the search on the left
+    if (p == 0) return false;
+    r.pos = p - 1;
+    while (r.pos > 0 && f[r.pos] != sign) r.Prev('(', ')');
+  }
+  return false;
+}
+
 void
 ExpressionParsing::ConvertStringToLowercase(std::string& s)
 {
diff --git a/src/nimble_expression_parser.h b/src/nimble_expression_parser.h
index 02b4274..18dd512 100644
--- a/src/nimble_expression_parser.h
+++ b/src/nimble_expression_parser.h
@@ -507,6 +507,11 @@ IsInteger(Reader r);
 bool
 IsNumber(Reader r);
 
+// Moves r.pos to the last '+' or '-' outside of parentheses that is a binary
+// operator, as opposed to a value negation or the sign of an exponent (1e-3)
+bool
+FindBinarySign(Reader& r, char sign);
+
 void
 ConvertStringToLowercase(std::string& s);
 
@@ -598,21 +603,11 @@ class EquationContext
     if (r << '%')
       return mem.New<DoubleMod>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
 
-    if (r << '+')
+    if (FindBinarySign(r, '+'))
       return mem.New<DoubleAdd>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
 
-    if (r << '-') {
-      // We need to ensure that we found a minus sign and not a value negation
-      while (r.pos > 0 && (r.first[r.pos] == '-' || r.first[r.pos] == ' ')) r.pos--;
-      if (r.pos > 0 || r.first[r.pos] != '-') {
-        char c = r.first[r.pos];
-        if (c != '*' && c != '/' && c != '^' && c != 'e' && c != '=' && c != '<' && c != '~' && c != '>') {
-          while (r.first[r.pos] != '-') r.pos++;  // Moves it back to the last minus sign
-          return mem.New<DoubleSubtract>(
-              ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
-        }
-      }
-    }
+    if (FindBinarySign(r, '-'))
+      return mem.New<DoubleSubtract>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
 
     if (r << '*')
       return mem.New<DoubleMultiply>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
-- 
2.43.0


From 2c119569e571e7085199999269340c6df3ece7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 02/64] fix: negation and empty operands in boundary condition
 expressions

The operand of '!' was read one character past its end (and '!' was looked
for anywhere in the operand), so that !(x>1)?2:3 was rejected and x>1!
recursed through memory behind the string.  An empty condition, as in
?1:2, indexed the text at length-1 of an empty range and crashed.
---
 src/nimble_expression_parser.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nimble_expression_parser.h b/src/nimble_expression_parser.h
index 18dd512..71a0c2f 100644
--- a/src/nimble_expression_parser.h
+++ b/src/nimble_expression_parser.h
@@ -634,6 +634,7 @@ class EquationContext
   ParseBooleanExpression(Reader r)
   {
     ApplyNecessaryFormatting(r);
+    if (r.IsEmpty()) throw std::invalid_argument("Can't parse empty string as boolean");
     if (r == "true") return mem.New<BooleanConstant>(true);
     if (r == "false") return mem.New<BooleanConstant>(false);
 
@@ -649,7 +650,7 @@ class EquationContext
       return mem.New<GenericAnd<bool, bool, bool>>(
           ParseBooleanExpression(r.sub(r.first, r.pos)), ParseBooleanExpression(r.sub(r.pos + 1, r.length)));
 
-    if (r << '!') return mem.New<GenericNot<bool, bool>>(ParseBooleanExpression(r.sub(r.first + 1, r.length)));
+    if (r[0] == '!') return mem.New<GenericNot<bool, bool>>(ParseBooleanExpression(r.sub(1u, r.length)));
 
     if (r << '>') {
       if (r.first[r.pos + 1] == '=')
-- 
2.43.0


From 46c1edf2ca7da4a1380dfbe6376c5161d6ffa316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 03/64] fix: spaces inside parentheses in boundary condition
 expressions

( x ), ( 2 ) and sin( t ) were rejected: after removing redundant
parentheses the text was not trimmed again.
---
 src/nimble_expression_parser.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nimble_expression_parser.cc b/src/nimble_expression_parser.cc
index bb91abf..ce06407 100644
--- a/src/nimble_expression_parser.cc
+++ b/src/nimble_expression_parser.cc
@@ -178,6 +178,8 @@ ExpressionParsing::RemoveRedundantParenthesis(ExpressionParsing::Reader& text)
       text.first++;
       text.length -= 2;
       text.pos = 0;
+      if (text.IsEmpty()) break;
+      RemoveWhitespace(text);
     } else {
       text.pos = 0;
       break;
-- 
2.43.0


From 0c4e69c1cccd65a87f17f1fca5eb76c0a6036a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 04/64] fix: condition starting with an unmatched == reads
 before the string

==)?1:2 looked at the character in front of the text and then built an
empty range of negative length.
---
 src/nimble_expression_parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_expression_parser.h b/src/nimble_expression_parser.h
index 71a0c2f..427bfd1 100644
--- a/src/nimble_expression_parser.h
+++ b/src/nimble_expression_parser.h
@@ -679,7 +679,7 @@ class EquationContext
     }*/
 
     if (r << '=') {
-      if (r.first[r.pos - 1] == '=')
+      if (r.pos > 0 && r.first[r.pos - 1] == '=')
         return mem.New<GenericEqual<bool, double, double>>(
             ParseEquation(r.sub(r.pos + 1, r.length)), ParseEquation(r.sub(r.first, r.pos - 1)));
     }
-- 
2.43.0


From 220b001cd2fa0bc85a49198e20187f5ed16536c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 05/64] fix: read node and side sets that carry no distribution
 factors

Distribution factors are optional in Exodus.  Sets whose number of
factors differed from their number of entries were read as empty, so that
boundary conditions on them were silently dropped.
---
 src/nimble_genesis_mesh.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nimble_genesis_mesh.cc b/src/nimble_genesis_mesh.cc
index a31a3bd..1a0c74c 100644
--- a/src/nimble_genesis_mesh.cc
+++ b/src/nimble_genesis_mesh.cc
@@ -176,7 +176,7 @@ GenesisMesh::ReadFile(std::string file_name)
     retval = ex_get_set_param(exodus_file_id, EX_NODE_SET, id, &num_nodes_in_ns, &num_dist_factors_in_ns);
     if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set_param");
     node_sets_[id] = std::vector<int>();
-    if (num_nodes_in_ns > 0 && num_dist_factors_in_ns == num_nodes_in_ns) {
+    if (num_nodes_in_ns > 0) {
       node_sets_[id] = std::vector<int>(num_nodes_in_ns);
       retval         = ex_get_set(exodus_file_id, EX_NODE_SET, id, &node_sets_[id][0], NULL);
       if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set");
@@ -184,7 +184,7 @@ GenesisMesh::ReadFile(std::string file_name)
       for (unsigned int j = 0; j < node_sets_[id].size(); j++) { node_sets_[id][j] -= 1; }
     }
     ns_distribution_factors_[id] = std::vector<double>();
-    if (num_nodes_in_ns > 0) {
+    if (num_dist_factors_in_ns > 0) {
       ns_distribution_factors_[id] = std::vector<double>(num_dist_factors_in_ns);
       retval = ex_get_set_dist_fact(exodus_file_id, EX_NODE_SET, id, &ns_distribution_factors_[id][0]);
       if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set_dist_fact");
@@ -217,7 +217,7 @@ GenesisMesh::ReadFile(std::string file_name)
     retval = ex_get_set_param(exodus_file_id, EX_SIDE_SET, id, &num_nodes_in_ss, &num_dist_factors_in_ss);
     if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set_param");
     side_sets_[id] = std::vector<int>();
-    if (num_nodes_in_ss > 0 && num_dist_factors_in_ss == num_nodes_in_ss) {
+    if (num_nodes_in_ss > 0) {
       side_sets_[id] = std::vector<int>(num_nodes_in_ss);
       retval         = ex_get_set(exodus_file_id, EX_SIDE_SET, id, &side_sets_[id][0], NULL);
       if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set");
@@ -225,7 +225,7 @@ GenesisMesh::ReadFile(std::string file_name)
       for (unsigned int j = 0; j < side_sets_[id].size(); j++) { side_sets_[id][j] -= 1; }
     }
     ss_distribution_factors_[id] = std::vector<double>();
-    if (num_nodes_in_ss > 0) {
+    if (num_dist_factors_in_ss > 0) {
       ss_distribution_factors_[id] = std::vector<double>(num_dist_factors_in_ss);
       retval = ex_get_set_dist_fact(exodus_file_id, EX_SIDE_SET, id, &ss_distribution_factors_[id][0]);
       if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set_dist_fact");
-- 
2.43.0


From fa96d1b9f620bc78f1b25a52309fedae40c11481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 06/64] fix: evaluate prescribed velocities of the initial
 state at the initial time

The kinematic conditions for the first output were evaluated at time zero
whatever the initial time of the run.
---
 src/integrators/explicit_time_integrator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrators/explicit_time_integrator.cc b/src/integrators/explicit_time_integrator.cc
index c3bfa32..9e45e9e 100644
--- a/src/integrators/explicit_time_integrator.cc
+++ b/src/integrators/explicit_time_integrator.cc
@@ -144,7 +144,7 @@ ExplicitTimeIntegrator::Integrate()
 
   watch_simulation.push_region("BC enforcement");
   model_data.ApplyInitialConditions(data_manager);
-  model_data.ApplyKinematicConditions(data_manager, 0.0, 0.0);
+  model_data.ApplyKinematicConditions(data_manager, initial_time, initial_time);
   watch_simulation.pop_region_and_report_time();
 
   data_manager.WriteOutput(time_current);
-- 
2.43.0


From 0343bf8ebd2c03793312ade9623ab48b909d238b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 07/64] fix: characteristic length of elements at negative
 coordinates

The bounding box started from zero, so that for elements whose coordinates
are all negative it was too large and the length depended on the position
of the mesh.
---
 src/nimble_element.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_element.cc b/src/nimble_element.cc
index 009ec5d..0067344 100644
--- a/src/nimble_element.cc
+++ b/src/nimble_element.cc
@@ -227,7 +227,7 @@ HexElement::ComputeCharacteristicLength(const double* node_coords)
   double characteristic_length, distance_squared, min_distance_squared, nx, ny, nz, mx, my, mz;
   double x_min, x_max, y_min, y_max, z_min, z_max;
 
-  x_max = y_max = z_max = 0.0;
+  x_max = y_max = z_max = std::numeric_limits<double>::lowest();
   min_distance_squared = x_min = y_min = z_min = std::numeric_limits<double>::max();
 
   for (int n = 0; n < num_nodes_; n++) {
-- 
2.43.0


From 29224409757ca8c619780426925c2c311f650db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 08/64] fix: report the critical time step of all ranks

Rank 0 printed, and compared the requested time step with, the limit of its
own elements only.
---
 src/integrators/explicit_time_integrator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/integrators/explicit_time_integrator.cc b/src/integrators/explicit_time_integrator.cc
index 9e45e9e..b552e6c 100644
--- a/src/integrators/explicit_time_integrator.cc
+++ b/src/integrators/explicit_time_integrator.cc
@@ -123,6 +123,10 @@ ExplicitTimeIntegrator::Integrate()
   model_data.ComputeLumpedMass(data_manager);
 
   double     critical_time_step = model_data.GetCriticalTimeStep();
+#ifdef NIMBLE_HAVE_MPI
+  // the limit is set by the smallest element on any rank
+  MPI_Allreduce(MPI_IN_PLACE, &critical_time_step, 1, MPI_DOUBLE, MPI_MIN, MPI_COMM_WORLD);
+#endif
   auto const lumped_mass        = model_data.GetScalarNodeData("lumped_mass");
 
   double initial_time = parser.InitialTime();
-- 
2.43.0


From 8ab8d2603cdcfc7a9bd40362877ff47820475f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:12 +0000
Subject: [PATCH 09/64] fix: output requests for integration points that do not
 exist

---
 src/nimble_kokkos_model_data.cc | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/nimble_kokkos_model_data.cc b/src/nimble_kokkos_model_data.cc
index 8f5957b..e320e76 100644
--- a/src/nimble_kokkos_model_data.cc
+++ b/src/nimble_kokkos_model_data.cc
@@ -44,6 +44,8 @@
 #include "nimble_kokkos_model_data.h"
 
 #include <Kokkos_ScatterView.hpp>
+#include <cctype>
+#include <cstdlib>
 #include <memory>
 #include <stdexcept>
 
@@ -112,6 +114,22 @@ class ExodusOutputManager
   std::map<int, std::vector<int>> full_tensor_field_ids_requiring_volume_average_;
 };
 
+namespace {
+// Splits a request for a single integration point, "iptNN_<field>", into the
+// field label and the (zero-based) index of the integration point.
+bool
+ParseIntegrationPointLabel(std::string const& requested_label, std::string& field_label, int& integration_point_index)
+{
+  if (requested_label.size() < 7 || requested_label.compare(0, 3, "ipt") != 0 || requested_label[5] != '_') return false;
+  if (!isdigit(requested_label[3]) || !isdigit(requested_label[4])) return false;
+  int integration_point = atoi(requested_label.substr(3, 2).c_str());
+  if (integration_point < 1) return false;
+  field_label             = requested_label.substr(6);
+  integration_point_index = integration_point - 1;
+  return true;
+}
+}  // namespace
+
 void
 ExodusOutputManager::SpecifyOutputFields(nimble_kokkos::ModelData& model_data, std::string const& output_command_string)
 {
@@ -204,15 +222,16 @@ ExodusOutputManager::SpecifyOutputFields(nimble_kokkos::ModelData& model_data, s
         bool        single_integration_point = false;
         bool        require_volume_average   = true;
         int         integration_point_index  = -1;
-        if (requested_label.substr(0, 3) == "ipt") {
-          field_label              = requested_label.substr(6, requested_label.size() - 6);
+        if (ParseIntegrationPointLabel(requested_label, field_label, integration_point_index)) {
           single_integration_point = true;
           require_volume_average   = false;
-          integration_point_index  = atoi(requested_label.substr(4, 2).c_str()) - 1;
         }
         if (field_label == ipt_label) {
           int iptdata_field_id = model_data.GetFieldId(ipt_label);
           int edata_field_id   = iptdata_field_id;
+          int num_int_pts =
+              model_data.GetDeviceSymTensorIntegrationPointData(block_id, iptdata_field_id, nimble::STEP_NP1).extent(1);
+          if (integration_point_index >= num_int_pts) continue;
           if (require_volume_average) {
             sym_tensor_field_ids_requiring_volume_average_[block_id].push_back(iptdata_field_id);
           }
@@ -283,16 +302,18 @@ ExodusOutputManager::SpecifyOutputFields(nimble_kokkos::ModelData& model_data, s
       bool        single_integration_point = false;
       bool        require_volume_average   = true;
       int         integration_point_index  = -1;
-      if (requested_label.substr(0, 3) == "ipt") {
-        field_label              = requested_label.substr(6, requested_label.size() - 6);
+      if (ParseIntegrationPointLabel(requested_label, field_label, integration_point_index)) {
         single_integration_point = true;
         require_volume_average   = false;
-        integration_point_index  = atoi(requested_label.substr(4, 2).c_str()) - 1;
       }
       for (auto& ipt_label : full_tensor_integration_point_data_labels) {
         if (field_label == ipt_label) {
           int iptdata_field_id = model_data.GetFieldId(ipt_label);
           int edata_field_id   = iptdata_field_id;
+          int num_int_pts =
+              model_data.GetDeviceFullTensorIntegrationPointData(block_id, iptdata_field_id, nimble::STEP_NP1)
+                  .extent(1);
+          if (integration_point_index >= num_int_pts) continue;
           if (require_volume_average) {
             full_tensor_field_ids_requiring_volume_average_[block_id].push_back(iptdata_field_id);
           }
-- 
2.43.0


From de353312ea2765f63329e1a83d724019165008f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 10/64] fix: refuse a final time before the initial time on
 every rank

---
 src/integrators/explicit_time_integrator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrators/explicit_time_integrator.cc b/src/integrators/explicit_time_integrator.cc
index b552e6c..ae55d53 100644
--- a/src/integrators/explicit_time_integrator.cc
+++ b/src/integrators/explicit_time_integrator.cc
@@ -139,7 +139,7 @@ ExplicitTimeIntegrator::Integrate()
   int    output_frequency         = parser.OutputFrequency();
   double user_specified_time_step = (final_time - initial_time) / num_load_steps;
 
-  if (my_rank == 0 && final_time < initial_time) {
+  if (final_time < initial_time) {
     std::string msg = "Final time: " + std::to_string(final_time)
         + " is less than initial time: " + std::to_string(initial_time)
         + "\n";
-- 
2.43.0


From 4729d9f82ecf148ed7ff9f7ab758533eae77b5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 11/64] fix: input decks with blank, indented-comment,
 over-long or incomplete lines

---
 src/nimble_parser.cc | 47 +++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index fd63ec9..1038a88 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -54,6 +54,17 @@
 
 namespace nimble {
 
+namespace {
+std::string
+StripWhitespace(std::string const& s)
+{
+  size_t start_pos = s.find_first_not_of(" \t");
+  if (start_pos == std::string::npos) { return std::string(); }
+  size_t end_pos = s.find_last_not_of(" \t");
+  return s.substr(start_pos, end_pos - start_pos + 1);
+}
+}  // namespace
+
 std::string
 IOFileName(
     std::string const& serial_name,
@@ -196,9 +207,6 @@ Parser::Initialize()
 void
 Parser::ReadFile()
 {
-  int         max_chars_per_line = 1000;
-  std::string delimiter(" ");
-
   std::ifstream fin;
   fin.open(file_name_.c_str());
   if (!fin.good()) {
@@ -206,33 +214,36 @@ Parser::ReadFile()
     throw std::invalid_argument(msg);
   }
 
-  while (!fin.eof()) {
-    char buf[max_chars_per_line];
-    fin.getline(buf, max_chars_per_line);
-    std::string line(buf);
-
+  std::string line;
+  while (std::getline(fin, line)) {
     // Strip out comments (# character)
     size_t pound_pos = line.find("#");
     if (pound_pos != std::string::npos) { line = line.substr(0, pound_pos); }
     // Strip out leading and trailing whitespace
-    if (line.size() > 0) {
-      size_t start_pos = line.find_first_not_of(" \t");
-      size_t end_pos   = line.find_last_not_of(" \t");
-      line             = line.substr(start_pos, end_pos - start_pos + 1);
-    }
+    line = StripWhitespace(line);
 
     if (line.size() > 0) {
       // Obtain key and value
       // Commands are delimited with a colon
-      size_t      colon_pos = line.find(":");
-      std::string key       = line.substr(0, colon_pos);
-      key                   = key.substr(key.find_first_not_of(" "), key.find_last_not_of(" ") + 1);
-      std::string value     = line.substr(colon_pos + 1, line.size());
-      value                 = value.substr(value.find_first_not_of(" "), value.find_last_not_of(" ") + 1);
+      size_t colon_pos = line.find(":");
+      if (colon_pos == std::string::npos) {
+        std::string msg = "\n**** Error in Parser::ReadFile(), expected \"key: value\" but found " + line + "\n";
+        throw std::invalid_argument(msg);
+      }
+      std::string key   = StripWhitespace(line.substr(0, colon_pos));
+      std::string value = StripWhitespace(line.substr(colon_pos + 1));
+      if (value.empty()) {
+        std::string msg = "\n**** Error in Parser::ReadFile(), no value for key " + key + "\n";
+        throw std::invalid_argument(msg);
+      }
 
       ParseKeyValue(key, value);
     }
   }
+  if (fin.bad()) {
+    std::string msg = "\n**** Error in Parser::ReadFile(), unable to read file " + file_name_ + "\n";
+    throw std::invalid_argument(msg);
+  }
 }
 
 void
-- 
2.43.0


From 2f6c407bbfea13b783375c2bc6c8a502a2841578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:35 +0000
Subject: [PATCH 12/64] fix: spacing and missing parts of element block and
 material lines

---
 src/nimble_parser.cc | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index 1038a88..7289be2 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -63,6 +63,19 @@ StripWhitespace(std::string const& s)
   size_t end_pos = s.find_last_not_of(" \t");
   return s.substr(start_pos, end_pos - start_pos + 1);
 }
+
+// Splits "<name> <properties>", whatever the number of spaces in between
+void
+SplitFirstWord(std::string const& value, std::string& name, std::string& properties)
+{
+  size_t space_pos = value.find_first_of(" \t");
+  name             = value.substr(0, space_pos);
+  properties       = (space_pos == std::string::npos) ? std::string() : StripWhitespace(value.substr(space_pos));
+  if (properties.empty()) {
+    std::string msg = "\n**** Error in Parser, nothing follows the name " + name + "\n";
+    throw std::invalid_argument(msg);
+  }
+}
 }  // namespace
 
 std::string
@@ -169,14 +182,15 @@ IOFileNameThreadSafe(
 
 BlockProperties::BlockProperties(std::string props) : block_id_(-1)
 {
-  size_t space_pos                 = props.find(" ");
-  block_name_                      = props.substr(0, space_pos);
-  material_key_                    = props.substr(space_pos + 1, props.size());
+  SplitFirstWord(props, block_name_, material_key_);
   size_t            underscore_pos = block_name_.rfind("_");
   std::string       block_id_str   = block_name_.substr(underscore_pos + 1, block_name_.size());
   std::stringstream ss;
   ss << block_id_str;
-  ss >> block_id_;
+  if (!(ss >> block_id_)) {
+    std::string msg = "\n**** Error in Parser, no block id in element block name " + block_name_ + "\n";
+    throw std::invalid_argument(msg);
+  }
 }
 
 Parser::Parser()
@@ -326,9 +340,8 @@ Parser::ParseKeyValue(const std::string& key, const std::string& value)
 
     contact_visualization_file_name_ = vals[5];
   } else if (key == "material parameters") {
-    size_t      space_pos           = value.find(" ");
-    std::string material_key        = value.substr(0, space_pos);
-    std::string material_props      = value.substr(space_pos + 1, value.size());
+    std::string material_key, material_props;
+    SplitFirstWord(value, material_key, material_props);
     material_strings_[material_key] = material_props;
   } else if (key == "element block") {
     BlockProperties block_props(value);
-- 
2.43.0


From e6a1aa508e7872122da7358d56dd8ea62e8518c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:35 +0000
Subject: [PATCH 13/64] fix: numbers of an input deck that are no numbers are
 taken as zero

---
 src/nimble_parser.cc | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index 7289be2..a865122 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -44,6 +44,7 @@
 #include "nimble_parser.h"
 
 #include <algorithm>
+#include <climits>
 #include <cstdlib>
 #include <cstring>
 #include <fstream>
@@ -76,6 +77,28 @@ SplitFirstWord(std::string const& value, std::string& name, std::string& propert
     throw std::invalid_argument(msg);
   }
 }
+
+double
+ToDouble(std::string const& key, std::string const& value)
+{
+  char*  end    = nullptr;
+  double number = std::strtod(value.c_str(), &end);
+  if (end == value.c_str() || *end != '\0') {
+    throw std::invalid_argument("\n**** Error in Parser::ReadFile(), " + key + " expects a number, found " + value + "\n");
+  }
+  return number;
+}
+
+int
+ToInt(std::string const& key, std::string const& value)
+{
+  char* end    = nullptr;
+  long  number = std::strtol(value.c_str(), &end, 10);
+  if (end == value.c_str() || *end != '\0' || number < INT_MIN || number > INT_MAX) {
+    throw std::invalid_argument("\n**** Error in Parser::ReadFile(), " + key + " expects an integer, found " + value + "\n");
+  }
+  return static_cast<int>(number);
+}
 }  // namespace
 
 std::string
@@ -300,17 +323,17 @@ Parser::ParseKeyValue(const std::string& key, const std::string& value)
   } else if (key == "time integration scheme") {
     time_integration_scheme_ = value;
   } else if (key == "nonlinear solver relative tolerance") {
-    nonlinear_solver_relative_tolerance_ = std::atof(value.c_str());
+    nonlinear_solver_relative_tolerance_ = ToDouble(key, value);
   } else if (key == "nonlinear solver maximum iterations") {
-    nonlinear_solver_max_iterations_ = std::atoi(value.c_str());
+    nonlinear_solver_max_iterations_ = ToInt(key, value);
   } else if (key == "initial time") {
-    initial_time_ = std::atof(value.c_str());
+    initial_time_ = ToDouble(key, value);
   } else if (key == "final time") {
-    final_time_ = std::atof(value.c_str());
+    final_time_ = ToDouble(key, value);
   } else if (key == "number of load steps") {
-    num_load_steps_ = std::atoi(value.c_str());
+    num_load_steps_ = ToInt(key, value);
   } else if (key == "output frequency") {
-    output_frequency_ = std::atoi(value.c_str());
+    output_frequency_ = ToInt(key, value);
   } else if (key == "contact") {
     contact_string_ = value;
   } else if (key == "contact backend") {
-- 
2.43.0


From 2a3438e40be576d5fbdc4200d4ba4f4c9991ce27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 14/64] fix: file names whose directory or stem contains .g, .e
 or a space

---
 src/nimble_parser.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index a865122..52bd540 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -112,10 +112,13 @@ IOFileName(
   if (serial_name == "none") { return serial_name; }
 
   std::string file_name = serial_name;
-  size_t      pos       = file_name.rfind(".g");
-  if (pos != std::string::npos) { file_name = file_name.substr(0, pos); }
-  pos = file_name.rfind(".e");
-  if (pos != std::string::npos) { file_name = file_name.substr(0, pos); }
+  // strip off the .g or .e suffix
+  for (std::string const suffix : {".g", ".e"}) {
+    size_t len = file_name.size();
+    if (len > suffix.size() && file_name.compare(len - suffix.size(), suffix.size(), suffix) == 0) {
+      file_name = file_name.substr(0, len - suffix.size());
+    }
+  }
   if (!label.empty()) { file_name += "." + label; }
   file_name += "." + extension;
   if (num_ranks > 1) {
@@ -128,8 +131,7 @@ IOFileName(
     ss << file_name << "." << num_ranks << ".";
     for (int i = 0; i < num_zero_padding; i++) { ss << 0; }
     ss << my_rank;
-    // file_name += ss.str(); // DJL not thread safe??
-    ss >> file_name;
+    file_name = ss.str();
   }
   return file_name;
 }
-- 
2.43.0


From 208afea1a283bae51ef4ec7275a6fa2edfa00aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 15/64] fix: boundary conditions without a valid magnitude are
 taken as zero

---
 src/nimble_boundary_condition.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nimble_boundary_condition.cc b/src/nimble_boundary_condition.cc
index e9166c0..95b9e04 100644
--- a/src/nimble_boundary_condition.cc
+++ b/src/nimble_boundary_condition.cc
@@ -111,7 +111,9 @@ BoundaryCondition::Initialize(
     expression_        = ExpressionParsing::BoundaryConditionFunctor(expression_string_);
   } else if (num_quotes == 0) {
     has_expression_ = false;
-    ss >> magnitude_;  // DJL valgrind complains about this
+    if (!(ss >> magnitude_)) {
+      throw std::invalid_argument("Error processing boundary condition, missing or invalid magnitude: " + bc_string);
+    }
   } else {
     throw std::invalid_argument("Error processing boundary condition, illegal number of quotes: " + bc_string);
   }
-- 
2.43.0


From 66b495095f81756bc1955f754334088a190d683d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 16/64] fix: material parameters without a value or with an
 invalid number

---
 src/nimble_material_factory_base.cc | 6 ++++++
 src/nimble_parser_util.h            | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/nimble_material_factory_base.cc b/src/nimble_material_factory_base.cc
index 673ba91..2e86681 100644
--- a/src/nimble_material_factory_base.cc
+++ b/src/nimble_material_factory_base.cc
@@ -78,6 +78,9 @@ MaterialFactoryBase::ParseMaterialParametersString(const std::string& material_p
   std::map<std::string, double>      material_double_parameters;
   for (; token != tokens_end; token += 2) {
     auto&& key = *token;
+    if (token + 1 == tokens_end) {
+      throw std::invalid_argument("Missing value of material parameter: '" + key + "'");
+    }
     auto&& val = *(token + 1);
     if (std::find(valid_double_parameter_names.begin(), valid_double_parameter_names.end(), key) !=
         valid_double_parameter_names.end()) {
@@ -113,6 +116,9 @@ MaterialFactoryBase::ParseMaterialParamsStringToMap(const std::string& material_
   std::map<std::string, double>      material_double_parameters;
   for (; token != tokens_end; token += 2) {
     auto&& key = *token;
+    if (token + 1 == tokens_end) {
+      throw std::invalid_argument("Missing value of material parameter: '" + key + "'");
+    }
     auto&& val = *(token + 1);
     if (std::find(valid_double_parameter_names.begin(), valid_double_parameter_names.end(), key) !=
         valid_double_parameter_names.end()) {
diff --git a/src/nimble_parser_util.h b/src/nimble_parser_util.h
index c752d7e..d7d267a 100644
--- a/src/nimble_parser_util.h
+++ b/src/nimble_parser_util.h
@@ -47,6 +47,7 @@
 #include <iostream>
 #include <limits>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -92,7 +93,7 @@ string_to_double(const std::string& s)
   std::stringstream ss;
   ss << s;
   double val = std::numeric_limits<double>::max();
-  ss >> val;
+  if (!(ss >> val) || !(ss >> std::ws).eof()) { throw std::invalid_argument("Not a number: '" + s + "'"); }
   return val;
 }
 
-- 
2.43.0


From 2583b20eaa61909c9f436d4c93d9e0a01561d3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:03 +0000
Subject: [PATCH 17/64] fix: a failing rank leaves the other ranks of a Tpetra
 run waiting

---
 src/nimble.cc | 10 ++++++++++
 src/nimble.h  |  1 +
 2 files changed, 11 insertions(+)

diff --git a/src/nimble.cc b/src/nimble.cc
index 560d38f..499580c 100644
--- a/src/nimble.cc
+++ b/src/nimble.cc
@@ -130,9 +130,11 @@ NimbleApplication::Run(int argc, char **argv) {
     status = ExecMain();
   } catch (std::exception& e) {
     std::cerr << "Standard exception: " << e.what() << std::endl;
+    AbortOtherRanks();
     return 1;
   } catch (...) {
     std::cerr << "\n !!! NimbleSM Simulation did not end correctly !!!\n\n";
+    AbortOtherRanks();
     return 1;
   }
 
@@ -236,6 +238,14 @@ Kokkos::initialize(impl_->cli_config_->ArgC(), impl_->cli_config_->ArgV());
     impl_->contact_interface_ = CreateContactInterface();
 }
 
+void NimbleApplication::AbortOtherRanks()
+{
+#ifdef NIMBLE_HAVE_MPI
+  // The other ranks may be waiting for this one
+  if (impl_->num_ranks_ > 1) MPI_Abort(MPI_COMM_WORLD, 1);
+#endif
+}
+
 void NimbleApplication::FinalizeSubsystems()
 {
 #ifdef NIMBLE_HAVE_VT
diff --git a/src/nimble.h b/src/nimble.h
index 606d37c..88ed58d 100644
--- a/src/nimble.h
+++ b/src/nimble.h
@@ -89,6 +89,7 @@ class NimbleApplication
 
   void InitializeSubsystems();
   void FinalizeSubsystems();
+  void AbortOtherRanks();
   int ExecMain();
   int MainLoop();
 
-- 
2.43.0


From e4f1a541d733a9800b9c2fe39d8f6455b874800f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:56 +0000
Subject: [PATCH 18/64] fix: mpicontext::gather splits contributions of
 different lengths correctly

---
 src/nimble.mpi.mpicontext.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nimble.mpi.mpicontext.h b/src/nimble.mpi.mpicontext.h
index e4e4e41..eaada3f 100644
--- a/src/nimble.mpi.mpicontext.h
+++ b/src/nimble.mpi.mpicontext.h
@@ -214,11 +214,11 @@ class mpicontext
 
       // Step 3: Copy data from a contiguous block into a vector of vectors.
       std::vector<std::vector<int>> result(this->get_size());
-      int *                         start_iter = destination.data(), *end_iter = destination.data() + recv_counts[0];
+      int*                          start_iter = destination.data();
       for (size_t i = 0; i < result.size(); ++i) {
-        result[i]  = std::vector<int>(start_iter, end_iter);
-        start_iter = end_iter;
-        end_iter += recv_counts[i];
+        int* end_iter = start_iter + recv_counts[i];
+        result[i]     = std::vector<int>(start_iter, end_iter);
+        start_iter    = end_iter;
       }
       // Return result
       return result;
-- 
2.43.0


From 50ebd03d7aec81a847814e3b85fdd572cec030e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:56 +0000
Subject: [PATCH 19/64] fix: mpicontext::scatter sends the contiguous data and
 returns the root's own part

---
 src/nimble.mpi.mpicontext.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/nimble.mpi.mpicontext.h b/src/nimble.mpi.mpicontext.h
index eaada3f..791f89c 100644
--- a/src/nimble.mpi.mpicontext.h
+++ b/src/nimble.mpi.mpicontext.h
@@ -247,11 +247,13 @@ class mpicontext
       // Step 2: send out data to each of the ranks.
       std::vector<int> destination(recvcount, 0);
       std::vector<int> displacements(this->get_size(), 0);
-      std::vector<int> source_made_contiguous(std::accumulate(send_counts.begin(), send_counts.end(), 0), 0);
+      std::vector<int> source_made_contiguous;
+      for (size_t i = 0; i < send_counts.size(); ++i)
+        source_made_contiguous.insert(source_made_contiguous.end(), source[i].begin(), source[i].end());
 
       std::partial_sum(send_counts.begin(), send_counts.end() - 1, displacements.data() + 1);
       MPI_Scatterv(
-          source.data(),
+          source_made_contiguous.data(),
           send_counts.data(),
           displacements.data(),
           MPI_INT,
@@ -260,6 +262,7 @@ class mpicontext
           MPI_INT,
           root,
           this->get_comm());
+      return destination;
     } else {
       int recvcount;
       MPI_Scatter(0, 0, MPI_INT, &recvcount, 1, MPI_INT, root, this->get_comm());
@@ -267,7 +270,6 @@ class mpicontext
       MPI_Scatterv(0, 0, 0, MPI_INT, recvbuff.data(), recvcount, MPI_INT, root, this->get_comm());
       return recvbuff;
     }
-    return std::vector<int>();
   }
 
   template <size_t count>
-- 
2.43.0


From b338b7f902f9a1ab21ba1933b0097d46832de076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:57 +0000
Subject: [PATCH 20/64] fix: mpicontext::sendpacked without a buffer links and
 sends the packed data

---
 src/nimble.mpi.mpicontext.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/nimble.mpi.mpicontext.h b/src/nimble.mpi.mpicontext.h
index 791f89c..8707280 100644
--- a/src/nimble.mpi.mpicontext.h
+++ b/src/nimble.mpi.mpicontext.h
@@ -61,7 +61,6 @@
 namespace nimble {
 class mpicontext
 {
-  static std::vector<int> serialization_buffer;
   static int
   get_rank(MPI_Comm comm)
   {
@@ -180,8 +179,8 @@ class mpicontext
   void
   sendpacked(const T& source, int rank, int tag) const
   {
-    int sendcount = serialization::pack_avoid_resize(source, serialization_buffer);
-    send({serialization_buffer.data(), sendcount}, rank, tag);
+    std::vector<int> buffer;
+    sendpacked(source, rank, tag, buffer);
   }
   std::vector<std::vector<int>>
   gather(const std::vector<int>& source, int root) const
-- 
2.43.0


From 81e0a84e39418aeeb9a3d8d9e6301b7dcc8c2c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:08 +0000
Subject: [PATCH 21/64] fix: compressed rows without entries are empty instead
 of aliasing row zero

---
 src/nimble_linear_solver.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/nimble_linear_solver.cc b/src/nimble_linear_solver.cc
index 0f8d83d..49011c6 100644
--- a/src/nimble_linear_solver.cc
+++ b/src/nimble_linear_solver.cc
@@ -68,10 +68,8 @@ CRSMatrixContainer::AllocateNonzeros(std::vector<int> const& i_index, std::vecto
   int current_row = -1;
   for (int i = 0; i < i_index_.size(); i++) {
     int row = i_index_[i];
-    if (row > current_row) {
-      row_first_index_[row] = i;
-      current_row           = row;
-    }
+    // rows without entries start where the next row starts
+    while (current_row < row) { row_first_index_[++current_row] = i; }
   }
   row_first_index_[num_rows_] = i_index_.size();
 }
-- 
2.43.0


From a7176f1c13cd6ab6a4c2251bc3ce8531e7fca68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:08 +0000
Subject: [PATCH 22/64] fix: looking up an entry of a row outside the matrix,
 or of its last diagonal row, reads no memory outside it

---
 src/nimble_linear_solver.cc | 4 ++++
 src/nimble_linear_solver.h  | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nimble_linear_solver.cc b/src/nimble_linear_solver.cc
index 49011c6..3a7eb30 100644
--- a/src/nimble_linear_solver.cc
+++ b/src/nimble_linear_solver.cc
@@ -91,6 +91,10 @@ CRSMatrixContainer::SetColumnValues(int col, double value)
 int
 CRSMatrixContainer::FindIndex(int i_index, int j_index) const
 {
+  if (i_index < 0 || i_index >= num_rows_ || row_first_index_[i_index] >= row_first_index_[i_index + 1]) {
+    throw std::invalid_argument("Error, CRSMatrixContainer::FindIndex() failed to find index.");
+  }
+
   int min        = row_first_index_[i_index];
   int max        = row_first_index_[i_index + 1];
   int trial      = (min + max) / 2;
diff --git a/src/nimble_linear_solver.h b/src/nimble_linear_solver.h
index 0c6ae96..2b7f4a9 100644
--- a/src/nimble_linear_solver.h
+++ b/src/nimble_linear_solver.h
@@ -133,13 +133,14 @@ class CRSMatrixContainer
     data_.resize(num_rows_);
     i_index_.resize(num_rows_);
     j_index_.resize(num_rows_);
-    row_first_index_.resize(num_rows_);
+    row_first_index_.resize(num_rows_ + 1);
     for (int i = 0; i < num_rows_; i++) {
       data_[i]            = 0.0;
       i_index_[i]         = i;
       j_index_[i]         = i;
       row_first_index_[i] = i;
     }
+    row_first_index_[num_rows_] = num_rows_;
   }
 
   void
-- 
2.43.0


From e611bab04805e73d109dd0c8e5c495a6dca86f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:08 +0000
Subject: [PATCH 23/64] fix: conjugate gradients report success exactly when
 the residual met the tolerance

---
 src/nimble_linear_solver.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nimble_linear_solver.cc b/src/nimble_linear_solver.cc
index 3a7eb30..3e6110f 100644
--- a/src/nimble_linear_solver.cc
+++ b/src/nimble_linear_solver.cc
@@ -230,8 +230,9 @@ CG_SolveSystem(
   }
 
   num_iterations = iteration;
-  bool success   = true;
-  if (iteration == max_iterations) { success = false; }
+  // the negated comparisons of the loop also end it when delta_new is not a
+  // number, and a negative one means that the matrix is not positive definite
+  bool success = (delta_new >= 0.0 && delta_new <= tolerance && std::isfinite(tolerance));
   return success;
 }
 
-- 
2.43.0


From ca0c57ab2defdb81db0671473f1c4cb08cf453a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:08 +0000
Subject: [PATCH 24/64] fix: conditions on side sets or empty node sets do not
 stop the constraint of the linear system

---
 src/nimble_boundary_condition_manager.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nimble_boundary_condition_manager.cc b/src/nimble_boundary_condition_manager.cc
index 71656ea..a37b0a6 100644
--- a/src/nimble_boundary_condition_manager.cc
+++ b/src/nimble_boundary_condition_manager.cc
@@ -88,7 +88,9 @@ BoundaryConditionManager::ModifyTangentStiffnessMatrixForKinematicBC(
     BoundaryCondition const& bc          = boundary_conditions_[i_bc];
     int                      node_set_id = bc.node_set_id_;
     int                      coordinate  = bc.coordinate_;
-    std::vector<int> const&  node_set    = node_sets_.at(node_set_id);
+    auto                     set_it      = node_sets_.find(node_set_id);
+    if (set_it == node_sets_.end()) { continue; }
+    std::vector<int> const& node_set = set_it->second;
 
     if (bc.bc_type_ == BoundaryCondition::PRESCRIBED_DISPLACEMENT ||
         bc.bc_type_ == BoundaryCondition::PRESCRIBED_VELOCITY) {
@@ -124,7 +126,9 @@ BoundaryConditionManager::ModifyRHSForKinematicBC(const int* const global_node_i
     BoundaryCondition const& bc          = boundary_conditions_[i_bc];
     int                      node_set_id = bc.node_set_id_;
     int                      coordinate  = bc.coordinate_;
-    std::vector<int> const&  node_set    = node_sets_.at(node_set_id);
+    auto                     set_it      = node_sets_.find(node_set_id);
+    if (set_it == node_sets_.end()) { continue; }
+    std::vector<int> const& node_set = set_it->second;
 
     if (bc.bc_type_ == BoundaryCondition::PRESCRIBED_DISPLACEMENT ||
         bc.bc_type_ == BoundaryCondition::PRESCRIBED_VELOCITY) {
-- 
2.43.0


From cbd3f3987dbb912e937269d13db1f1e1976f5e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:32 +0000
Subject: [PATCH 25/64] fix: the quasistatic residual covers every unknown of
 the linear system

---
 src/integrators/quasistatic_time_integrator.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/integrators/quasistatic_time_integrator.cc b/src/integrators/quasistatic_time_integrator.cc
index 2435a45..b59fb70 100644
--- a/src/integrators/quasistatic_time_integrator.cc
+++ b/src/integrators/quasistatic_time_integrator.cc
@@ -95,11 +95,13 @@ ComputeQuasistaticResidual(
   }
   bc.ModifyRHSForKinematicBC(linear_system_global_node_ids.data(), residual_vector);
 
-  double l2_norm = InnerProduct(num_nodes, residual_vector, residual_vector);
+  double l2_norm = InnerProduct(linear_system_num_unknowns, residual_vector, residual_vector);
   l2_norm        = sqrt(l2_norm);
 
   double infinity_norm(0.0);
-  for (int i = 0; i < num_nodes; i++) { infinity_norm = std::max(infinity_norm, std::abs(residual_vector[i])); }
+  for (int i = 0; i < linear_system_num_unknowns; i++) {
+    infinity_norm = std::max(infinity_norm, std::abs(residual_vector[i]));
+  }
 #ifdef NIMBLE_HAVE_MPI
   double restmp = infinity_norm;
   MPI_Allreduce(&restmp, &infinity_norm, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
-- 
2.43.0


From 3e43cc92ce9fb47e02379f1a3a06a8b1ae1eb173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:32 +0000
Subject: [PATCH 26/64] fix: a quasistatic step has converged exactly when its
 residual meets the tolerance

---
 src/integrators/quasistatic_time_integrator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/integrators/quasistatic_time_integrator.cc b/src/integrators/quasistatic_time_integrator.cc
index b59fb70..ee87d14 100644
--- a/src/integrators/quasistatic_time_integrator.cc
+++ b/src/integrators/quasistatic_time_integrator.cc
@@ -398,7 +398,8 @@ QuasistaticTimeIntegrator::Integrate()
 
     }  // while (residual > convergence_tolerance ... )
 
-    if (iteration == max_nonlinear_iterations) {
+    // the negated comparison also holds for a residual that is not a number
+    if (!(residual <= convergence_tolerance)) {
       if (my_rank == 0) {
         std::cout << "\n**** Nonlinear solver failed to converge!\n" << std::endl;
         std::cout << "**** Relevant input deck parameters for the nonlinear solver:" << std::endl;
-- 
2.43.0


From 1aec2186250b69af6c93120f4f5c2c1de7dc235f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:32 +0000
Subject: [PATCH 27/64] fix: quasistatics numbers the nodes of the linear
 system consecutively, whatever the ids of the mesh

---
 src/integrators/quasistatic_time_integrator.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/integrators/quasistatic_time_integrator.cc b/src/integrators/quasistatic_time_integrator.cc
index ee87d14..92eabe9 100644
--- a/src/integrators/quasistatic_time_integrator.cc
+++ b/src/integrators/quasistatic_time_integrator.cc
@@ -142,18 +142,16 @@ QuasistaticTimeIntegrator::Integrate()
   int        dim             = mesh.GetDim();
   int        num_nodes       = static_cast<int>(mesh.GetNumNodes());
   int        num_blocks      = static_cast<int>(mesh.GetNumBlocks());
-  const int* global_node_ids = mesh.GetNodeGlobalIds();
 
   auto& bc = *(data_manager.GetBoundaryConditionManager());
 
-  // Store various mappings from global to local node ids
+  // Store various mappings from linear-system to local node ids; the ids of the
+  // linear system are consecutive, those of the mesh need not be
   std::vector<int>                linear_system_global_node_ids;
   std::map<int, std::vector<int>> map_from_linear_system;
   for (int n = 0; n < num_nodes; ++n) {
-    int global_node_id = global_node_ids[n];
-    linear_system_global_node_ids.push_back(global_node_id);
-    map_from_linear_system[global_node_id] = std::vector<int>();
-    map_from_linear_system[global_node_id].push_back(n);
+    linear_system_global_node_ids.push_back(n);
+    map_from_linear_system[n].push_back(n);
   }
   int linear_system_num_nodes    = static_cast<int>(map_from_linear_system.size());
   int linear_system_num_unknowns = linear_system_num_nodes * dim;
-- 
2.43.0


From f7d98b5f88c73749b1ab98ee011059a034c58619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:11 +0000
Subject: [PATCH 28/64] fix: stresses of a quasistatic step belong to the
 displacement the line search accepted

---
 src/integrators/quasistatic_time_integrator.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/integrators/quasistatic_time_integrator.cc b/src/integrators/quasistatic_time_integrator.cc
index 92eabe9..ac68cfb 100644
--- a/src/integrators/quasistatic_time_integrator.cc
+++ b/src/integrators/quasistatic_time_integrator.cc
@@ -381,10 +381,20 @@ QuasistaticTimeIntegrator::Integrate()
 
       // if the alpha = 1.0 result was better, use alpha = 1.0
       if (trial_residual < residual) {
-        residual = trial_residual;
         displacement.copy(trial_displacement);
-        internal_force.copy(trial_internal_force);
-        for (int i = 0; i < linear_system_num_unknowns; i++) { residual_vector[i] = trial_residual_vector[i]; }
+        // evaluate again, so that the element data also belong to this displacement
+        residual = ComputeQuasistaticResidual(
+            mesh,
+            data_manager,
+            bc,
+            linear_system_num_unknowns,
+            linear_system_global_node_ids,
+            time_previous,
+            time_current,
+            displacement,
+            internal_force,
+            residual_vector.data(),
+            is_output_step);
       }
 
       iteration += 1;
-- 
2.43.0


From cefe03abdfd5c83b3ea781a7a11ac77ecf0a81fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:20 +0000
Subject: [PATCH 29/64] fix: overlapping conditions of a quasistatic step start
 from the displacement at its beginning

---
 src/nimble_boundary_condition_manager.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/nimble_boundary_condition_manager.h b/src/nimble_boundary_condition_manager.h
index 3c663b6..80258e9 100644
--- a/src/nimble_boundary_condition_manager.h
+++ b/src/nimble_boundary_condition_manager.h
@@ -51,6 +51,7 @@
 #include "darma.h"
 #else
 #include <map>
+#include <utility>
 #include <vector>
 #endif
 
@@ -145,6 +146,15 @@ class BoundaryConditionManager
   {
     double delta_t = time_current - time_previous;
 
+    // Quasistatic conditions move the nodes at once. Where several conditions act
+    // on the same component of a node, each starts from the beginning of the step.
+    std::map<std::pair<int, int>, double> moved;
+    auto                                  displacement_at_start = [&](int n, int coordinate) -> double {
+      double value = displacement(n, coordinate);
+      if (time_integration_scheme_ != QUASISTATIC) { return value; }
+      return moved.emplace(std::make_pair(n, coordinate), value).first->second;
+    };
+
     for (auto& bc : boundary_conditions_) {
       int                     node_set_id    = bc.node_set_id_;
       int                     coordinate     = bc.coordinate_;
@@ -160,7 +170,7 @@ class BoundaryConditionManager
               offnom_velocities[nuq](n, coordinate) = velocity_magnitude;
             }
             if (time_integration_scheme_ == QUASISTATIC) {
-              displacement(n, coordinate) += velocity_magnitude * delta_t;
+              displacement(n, coordinate) = displacement_at_start(n, coordinate) + velocity_magnitude * delta_t;
             }
           }
         } else {
@@ -176,7 +186,7 @@ class BoundaryConditionManager
               offnom_velocities[nuq](n, coordinate) = velocity_magnitude;
             }
             if (time_integration_scheme_ == QUASISTATIC) {
-              displacement(n, coordinate) += velocity_magnitude * delta_t;
+              displacement(n, coordinate) = displacement_at_start(n, coordinate) + velocity_magnitude * delta_t;
             }
           }
         }
@@ -184,7 +194,7 @@ class BoundaryConditionManager
         if (!has_expression) {
           double displacement_magnitude = bc.magnitude_;
           for (int n : node_set) {
-            velocity(n, coordinate) = (displacement_magnitude - displacement(n, coordinate)) / delta_t;
+            velocity(n, coordinate) = (displacement_magnitude - displacement_at_start(n, coordinate)) / delta_t;
             if (time_integration_scheme_ == QUASISTATIC) { displacement(n, coordinate) = displacement_magnitude; }
           }
         } else {
@@ -195,7 +205,7 @@ class BoundaryConditionManager
             if (dim_ == 3) { bc.expression_.z = reference_coordinates(n, 2); }
             bc.expression_.t              = time_current;
             double displacement_magnitude = bc.expression_.eval();
-            velocity(n, coordinate)       = (displacement_magnitude - displacement(n, coordinate)) / delta_t;
+            velocity(n, coordinate)       = (displacement_magnitude - displacement_at_start(n, coordinate)) / delta_t;
             if (time_integration_scheme_ == QUASISTATIC) { displacement(n, coordinate) = displacement_magnitude; }
           }
         }
-- 
2.43.0


From 718c889edca180671198d3b1b26173e6df4bbfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:31 +0000
Subject: [PATCH 30/64] fix: contact nodes are kept when the lowest rank that
 has them has none of their faces

---
 src/nimble_contact_manager.cc | 40 ++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/nimble_contact_manager.cc b/src/nimble_contact_manager.cc
index 49d1c5b..a325b3b 100644
--- a/src/nimble_contact_manager.cc
+++ b/src/nimble_contact_manager.cc
@@ -230,10 +230,44 @@ ContactManager::CreateContactEntities(
   myVecComm.GetPartitionBoundaryNodeLocalIds(
       partition_boundary_node_local_ids, min_rank_containing_partition_boundary_nodes);
 
+  // a node that is on the secondary surface of several processors belongs to
+  // the lowest of them (the lowest processor that has the node may not have any
+  // of the faces it belongs to)
+  std::set<int> secondary_node_local_ids;
+  for (auto const& face : secondary_skin_faces) { secondary_node_local_ids.insert(face.begin(), face.end()); }
+  std::vector<int> shared_node_local_ids;
+  std::vector<int> shared_node_global_ids;
+  for (int local_id : partition_boundary_node_local_ids) {
+    if (secondary_node_local_ids.count(local_id) > 0) {
+      shared_node_local_ids.push_back(local_id);
+      shared_node_global_ids.push_back(mesh.GetNodeGlobalIds()[local_id]);
+    }
+  }
+  std::set<int> node_global_ids_on_lower_ranks;
+#ifdef NIMBLE_HAVE_MPI
+  int              num_shared_nodes = static_cast<int>(shared_node_global_ids.size());
+  std::vector<int> num_shared_nodes_on_rank(num_ranks);
+  MPI_Allgather(&num_shared_nodes, 1, MPI_INT, num_shared_nodes_on_rank.data(), 1, MPI_INT, MPI_COMM_WORLD);
+  std::vector<int> offset_of_rank(num_ranks + 1, 0);
+  for (int i = 0; i < num_ranks; i++) { offset_of_rank[i + 1] = offset_of_rank[i] + num_shared_nodes_on_rank[i]; }
+  std::vector<int> all_shared_node_global_ids(offset_of_rank[num_ranks]);
+  MPI_Allgatherv(
+      shared_node_global_ids.data(),
+      num_shared_nodes,
+      MPI_INT,
+      all_shared_node_global_ids.data(),
+      num_shared_nodes_on_rank.data(),
+      offset_of_rank.data(),
+      MPI_INT,
+      MPI_COMM_WORLD);
+  node_global_ids_on_lower_ranks.insert(
+      all_shared_node_global_ids.begin(), all_shared_node_global_ids.begin() + offset_of_rank[mpi_rank]);
+#endif
+
   std::vector<int> ghosted_node_local_ids;
-  for (int i = 0; i < partition_boundary_node_local_ids.size(); i++) {
-    if (min_rank_containing_partition_boundary_nodes[i] != mpi_rank) {
-      ghosted_node_local_ids.push_back(partition_boundary_node_local_ids[i]);
+  for (unsigned int i = 0; i < shared_node_local_ids.size(); i++) {
+    if (node_global_ids_on_lower_ranks.count(shared_node_global_ids[i]) > 0) {
+      ghosted_node_local_ids.push_back(shared_node_local_ids[i]);
     }
   }
 
-- 
2.43.0


From 77b913f67924d34be085be5c71b49a6626244673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:31 +0000
Subject: [PATCH 31/64] fix: a block listed twice in the contact command has a
 contact surface

---
 src/nimble_contact_manager.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nimble_contact_manager.cc b/src/nimble_contact_manager.cc
index a325b3b..0eab352 100644
--- a/src/nimble_contact_manager.cc
+++ b/src/nimble_contact_manager.cc
@@ -830,7 +830,10 @@ ContactManager::SkinBlocks(
   std::map<std::vector<int>, std::vector<int>>           faces;
   std::map<std::vector<int>, std::vector<int>>::iterator face_it;
 
-  for (auto& block_id : block_ids) {
+  // a block that is listed twice is still one block
+  const std::set<int> unique_block_ids(block_ids.begin(), block_ids.end());
+
+  for (auto& block_id : unique_block_ids) {
     int                     num_elem_in_block = mesh.GetNumElementsInBlock(block_id);
     int                     num_node_per_elem = mesh.GetNumNodesPerElement(block_id);
     const int* const        conn              = mesh.GetConnectivity(block_id);
-- 
2.43.0


From e8093f2e6d6fce695ec74ba01bf691c1328cf957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:28 +0000
Subject: [PATCH 32/64] fix: scalar and vector integration point data hold a
 value per point and advance with the state

---
 src/nimble_kokkos_defs.h        | 62 ++++++++++++++++++++++++++++---
 src/nimble_kokkos_model_data.cc | 66 ++++++++++++++++++---------------
 2 files changed, 93 insertions(+), 35 deletions(-)

diff --git a/src/nimble_kokkos_defs.h b/src/nimble_kokkos_defs.h
index 052c256..fb3e152 100644
--- a/src/nimble_kokkos_defs.h
+++ b/src/nimble_kokkos_defs.h
@@ -102,7 +102,9 @@ enum class FieldType : int
   HostSymTensorElem,
   DeviceSymTensorElem,
   HostFullTensorElem,
-  DeviceFullTensorElem
+  DeviceFullTensorElem,
+  HostScalarIntPt,
+  HostVectorIntPt
 };
 
 inline std::ostream&
@@ -125,6 +127,8 @@ operator<<(std::ostream& out, const FieldType f)
     case FieldType::DeviceSymTensorElem: out << "DeviceSymTensorElem"; break;
     case FieldType::HostFullTensorElem: out << "HostFullTensorElem"; break;
     case FieldType::DeviceFullTensorElem: out << "DeviceFullTensorElem"; break;
+    case FieldType::HostScalarIntPt: out << "HostScalarIntPt"; break;
+    case FieldType::HostVectorIntPt: out << "HostVectorIntPt"; break;
   };
   return out;
 }
@@ -369,6 +373,30 @@ class Field<FieldType::DeviceFullTensorIntPt> : public FieldBase
   View data_;
 };
 
+template <>
+class Field<FieldType::HostScalarIntPt> : public FieldBase
+{
+ public:
+  // (elem, ipt, scalar)
+  using View = Kokkos::View<double* [NUM_INTEGRATION_POINTS_IN_HEX][1], kokkos_layout, kokkos_host>;
+
+  Field(const std::string& name, int num_entries)
+      : FieldBase(name, FieldType::HostScalarIntPt), data_(name, num_entries)
+  {
+  }
+
+  Field(View const& v) : FieldBase(v.label(), FieldType::HostScalarIntPt), data_(v) {}
+
+  View
+  data() const noexcept
+  {
+    return data_;
+  }
+
+ private:
+  View data_;
+};
+
 template <>
 class Field<FieldType::DeviceScalarIntPt> : public FieldBase
 {
@@ -379,11 +407,35 @@ class Field<FieldType::DeviceScalarIntPt> : public FieldBase
   using SingleEntryView = decltype(Kokkos::subview(*(View*)(0), (int)(0), (int)(0), Kokkos::ALL));
 
   Field(const std::string& name, int num_entries)
-      : FieldBase(name, FieldType::DeviceFullTensorIntPt), data_(name, num_entries)
+      : FieldBase(name, FieldType::DeviceScalarIntPt), data_(name, num_entries)
   {
   }
 
-  Field(View const& v) : FieldBase(v.label(), FieldType::DeviceFullTensorIntPt), data_(v) {}
+  Field(View const& v) : FieldBase(v.label(), FieldType::DeviceScalarIntPt), data_(v) {}
+
+  View
+  data() const noexcept
+  {
+    return data_;
+  }
+
+ private:
+  View data_;
+};
+
+template <>
+class Field<FieldType::HostVectorIntPt> : public FieldBase
+{
+ public:
+  // (elem, ipt, vector)
+  using View = Kokkos::View<double* [NUM_INTEGRATION_POINTS_IN_HEX][3], kokkos_layout, kokkos_host>;
+
+  Field(const std::string& name, int num_entries)
+      : FieldBase(name, FieldType::HostVectorIntPt), data_(name, num_entries)
+  {
+  }
+
+  Field(View const& v) : FieldBase(v.label(), FieldType::HostVectorIntPt), data_(v) {}
 
   View
   data() const noexcept
@@ -405,11 +457,11 @@ class Field<FieldType::DeviceVectorIntPt> : public FieldBase
   using SingleEntryView = decltype(Kokkos::subview(*(View*)(0), (int)(0), (int)(0), Kokkos::ALL));
 
   Field(const std::string& name, int num_entries)
-      : FieldBase(name, FieldType::DeviceFullTensorIntPt), data_(name, num_entries)
+      : FieldBase(name, FieldType::DeviceVectorIntPt), data_(name, num_entries)
   {
   }
 
-  Field(View const& v) : FieldBase(v.label(), FieldType::DeviceFullTensorIntPt), data_(v) {}
+  Field(View const& v) : FieldBase(v.label(), FieldType::DeviceVectorIntPt), data_(v) {}
 
   View
   data() const noexcept
diff --git a/src/nimble_kokkos_model_data.cc b/src/nimble_kokkos_model_data.cc
index e320e76..5fe5855 100644
--- a/src/nimble_kokkos_model_data.cc
+++ b/src/nimble_kokkos_model_data.cc
@@ -758,14 +758,14 @@ ModelData::AllocateIntegrationPointData(
 
   if (length == nimble::SCALAR) {
     device_integration_point_data_step_n_.at(block_index)
-        .emplace_back(new Field<FieldType::DeviceScalarNode>(label, num_objects));
+        .emplace_back(new Field<FieldType::DeviceScalarIntPt>(label, num_objects));
     device_integration_point_data_step_np1_.at(block_index)
-        .emplace_back(new Field<FieldType::DeviceScalarNode>(label, num_objects));
+        .emplace_back(new Field<FieldType::DeviceScalarIntPt>(label, num_objects));
   } else if (length == nimble::VECTOR) {
     device_integration_point_data_step_n_.at(block_index)
-        .emplace_back(new Field<FieldType::DeviceVectorNode>(label, num_objects));
+        .emplace_back(new Field<FieldType::DeviceVectorIntPt>(label, num_objects));
     device_integration_point_data_step_np1_.at(block_index)
-        .emplace_back(new Field<FieldType::DeviceVectorNode>(label, num_objects));
+        .emplace_back(new Field<FieldType::DeviceVectorIntPt>(label, num_objects));
   } else if (length == nimble::SYMMETRIC_TENSOR) {
     device_integration_point_data_step_n_.at(block_index)
         .emplace_back(new Field<FieldType::DeviceSymTensorIntPt>(label, num_objects));
@@ -788,48 +788,54 @@ ModelData::AllocateIntegrationPointData(
   FieldBase* d_field_step_n   = device_integration_point_data_step_n_.at(block_index).back().get();
   FieldBase* d_field_step_np1 = device_integration_point_data_step_np1_.at(block_index).back().get();
 
-  if (d_field_step_n->type() == FieldType::DeviceScalarNode) {
-    auto field_step_n = dynamic_cast<Field<FieldType::DeviceScalarNode>*>(d_field_step_n);
-    Field<FieldType::DeviceScalarNode>::View d_view_step_n = field_step_n->data();
+  if (d_field_step_n->type() == FieldType::DeviceScalarIntPt) {
+    auto field_step_n = dynamic_cast<Field<FieldType::DeviceScalarIntPt>*>(d_field_step_n);
+    Field<FieldType::DeviceScalarIntPt>::View d_view_step_n = field_step_n->data();
     auto                                     h_view_step_n = Kokkos::create_mirror_view(d_view_step_n);
     host_integration_point_data_step_n_.at(block_index)
-        .emplace_back(new Field<FieldType::HostScalarNode>(h_view_step_n));
+        .emplace_back(new Field<FieldType::HostScalarIntPt>(h_view_step_n));
 
-    auto field_step_np1 = dynamic_cast<Field<FieldType::DeviceScalarNode>*>(d_field_step_np1);
-    Field<FieldType::DeviceScalarNode>::View d_view_step_np1 = field_step_np1->data();
+    auto field_step_np1 = dynamic_cast<Field<FieldType::DeviceScalarIntPt>*>(d_field_step_np1);
+    Field<FieldType::DeviceScalarIntPt>::View d_view_step_np1 = field_step_np1->data();
     auto                                     h_view_step_np1 = Kokkos::create_mirror_view(d_view_step_np1);
     host_integration_point_data_step_np1_.at(block_index)
-        .emplace_back(new Field<FieldType::HostScalarNode>(h_view_step_np1));
+        .emplace_back(new Field<FieldType::HostScalarIntPt>(h_view_step_np1));
 
     if (set_initial_value) {
-      int num_elem = h_view_step_n.extent(0);
+      int num_elem   = h_view_step_n.extent(0);
+      int num_int_pt = h_view_step_n.extent(1);
       for (int i_elem = 0; i_elem < num_elem; ++i_elem) {
-        h_view_step_n(i_elem)   = initial_value.at(0);
-        h_view_step_np1(i_elem) = initial_value.at(0);
+        for (int i_int_pt = 0; i_int_pt < num_int_pt; ++i_int_pt) {
+          h_view_step_n(i_elem, i_int_pt, 0)   = initial_value.at(0);
+          h_view_step_np1(i_elem, i_int_pt, 0) = initial_value.at(0);
+        }
       }
       Kokkos::deep_copy(d_view_step_n, h_view_step_n);
       Kokkos::deep_copy(d_view_step_np1, h_view_step_np1);
     }
-  } else if (d_field_step_n->type() == FieldType::DeviceVectorNode) {
-    auto field_step_n = dynamic_cast<Field<FieldType::DeviceVectorNode>*>(d_field_step_n);
-    Field<FieldType::DeviceVectorNode>::View d_view_step_n = field_step_n->data();
+  } else if (d_field_step_n->type() == FieldType::DeviceVectorIntPt) {
+    auto field_step_n = dynamic_cast<Field<FieldType::DeviceVectorIntPt>*>(d_field_step_n);
+    Field<FieldType::DeviceVectorIntPt>::View d_view_step_n = field_step_n->data();
     auto                                     h_view_step_n = Kokkos::create_mirror_view(d_view_step_n);
     host_integration_point_data_step_n_.at(block_index)
-        .emplace_back(new Field<FieldType::HostVectorNode>(h_view_step_n));
+        .emplace_back(new Field<FieldType::HostVectorIntPt>(h_view_step_n));
 
-    auto field_step_np1 = dynamic_cast<Field<FieldType::DeviceVectorNode>*>(d_field_step_np1);
-    Field<FieldType::DeviceVectorNode>::View d_view_step_np1 = field_step_np1->data();
+    auto field_step_np1 = dynamic_cast<Field<FieldType::DeviceVectorIntPt>*>(d_field_step_np1);
+    Field<FieldType::DeviceVectorIntPt>::View d_view_step_np1 = field_step_np1->data();
     auto                                     h_view_step_np1 = Kokkos::create_mirror_view(d_view_step_np1);
     host_integration_point_data_step_np1_.at(block_index)
-        .emplace_back(new Field<FieldType::HostVectorNode>(h_view_step_np1));
+        .emplace_back(new Field<FieldType::HostVectorIntPt>(h_view_step_np1));
 
     if (set_initial_value) {
       int num_elem    = h_view_step_n.extent(0);
+      int num_int_pt  = h_view_step_n.extent(1);
       int num_entries = 3;
       for (int i_elem = 0; i_elem < num_elem; ++i_elem) {
-        for (int i_entry = 0; i_entry < num_entries; ++i_entry) {
-          h_view_step_n(i_elem, i_entry)   = initial_value.at(i_entry);
-          h_view_step_np1(i_elem, i_entry) = initial_value.at(i_entry);
+        for (int i_int_pt = 0; i_int_pt < num_int_pt; ++i_int_pt) {
+          for (int i_entry = 0; i_entry < num_entries; ++i_entry) {
+            h_view_step_n(i_elem, i_int_pt, i_entry)   = initial_value.at(i_entry);
+            h_view_step_np1(i_elem, i_int_pt, i_entry) = initial_value.at(i_entry);
+          }
         }
       }
       Kokkos::deep_copy(d_view_step_n, h_view_step_n);
@@ -1007,9 +1013,9 @@ ModelData::UpdateStates(const nimble::DataManager& data_manager)
     if (blocks_.at(block_id).GetMaterialPointer()->NumStateVariables() > 0) {
       if (field_ids_.state_sym_tensor >= 0) {
         auto state_sym_tensor_n =
-            GetDeviceFullTensorIntegrationPointData(block_id, field_ids_.state_sym_tensor, nimble::STEP_N);
+            GetDeviceSymTensorIntegrationPointData(block_id, field_ids_.state_sym_tensor, nimble::STEP_N);
         auto state_sym_tensor_np1 =
-            GetDeviceFullTensorIntegrationPointData(block_id, field_ids_.state_sym_tensor, nimble::STEP_NP1);
+            GetDeviceSymTensorIntegrationPointData(block_id, field_ids_.state_sym_tensor, nimble::STEP_NP1);
         Kokkos::deep_copy(state_sym_tensor_n, state_sym_tensor_np1);
       }
       //
@@ -1023,16 +1029,16 @@ ModelData::UpdateStates(const nimble::DataManager& data_manager)
       //
       if (field_ids_.state_scalar >= 0) {
         auto state_scalar_n =
-            GetDeviceFullTensorIntegrationPointData(block_id, field_ids_.state_scalar, nimble::STEP_N);
+            GetDeviceScalarIntegrationPointData(block_id, field_ids_.state_scalar, nimble::STEP_N);
         auto state_scalar_np1 =
-            GetDeviceFullTensorIntegrationPointData(block_id, field_ids_.state_scalar, nimble::STEP_NP1);
+            GetDeviceScalarIntegrationPointData(block_id, field_ids_.state_scalar, nimble::STEP_NP1);
         Kokkos::deep_copy(state_scalar_n, state_scalar_np1);
       }
       //
       if (field_ids_.state_vec3D >= 0) {
-        auto state_vector_n = GetDeviceFullTensorIntegrationPointData(block_id, field_ids_.state_vec3D, nimble::STEP_N);
+        auto state_vector_n = GetDeviceVectorIntegrationPointData(block_id, field_ids_.state_vec3D, nimble::STEP_N);
         auto state_vector_np1 =
-            GetDeviceFullTensorIntegrationPointData(block_id, field_ids_.state_vec3D, nimble::STEP_NP1);
+            GetDeviceVectorIntegrationPointData(block_id, field_ids_.state_vec3D, nimble::STEP_NP1);
         Kokkos::deep_copy(state_vector_n, state_vector_np1);
       }
     }
-- 
2.43.0


From a3cddc7ee0d6ad5acb41efafb9a72a0466ccc629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:28 +0000
Subject: [PATCH 33/64] fix: summing through a scatter view keeps the values
 already there

---
 src/nimble_kokkos_model_data.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/nimble_kokkos_model_data.cc b/src/nimble_kokkos_model_data.cc
index 5fe5855..1237b40 100644
--- a/src/nimble_kokkos_model_data.cc
+++ b/src/nimble_kokkos_model_data.cc
@@ -1742,7 +1742,6 @@ ModelData::ScatterScalarNodeDataUsingKokkosScatterView(
   auto       data              = derived_field_ptr->data();
   auto       scatter_view =
       Kokkos::Experimental::create_scatter_view(data);  // DJL it is a terrible idea to allocate this here
-  scatter_view.reset();
   Kokkos::parallel_for(
       "GatherVectorNodeData", num_elements, KOKKOS_LAMBDA(const int i_elem) {
         auto scattered_access = scatter_view.access();
-- 
2.43.0


From 3389ac505b6ec4027fde026c72d6cdd15ed4d3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:28 +0000
Subject: [PATCH 34/64] fix: state variables of the host material start from
 their initial values

---
 src/nimble_block.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_block.cc b/src/nimble_block.cc
index 3b2dff4..69ee7b2 100644
--- a/src/nimble_block.cc
+++ b/src/nimble_block.cc
@@ -179,7 +179,7 @@ Block::InitializeElementData(
     std::string ipt_label = RemoveIntegrationPointPrefix(label);
 
     double initial_value = 0.0;
-    auto   it            = state_variable_initial_values.find(label);
+    auto   it            = state_variable_initial_values.find(ipt_label);
     if (it != state_variable_initial_values.end()) { initial_value = it->second; }
 
     for (int i_elem = 0; i_elem < num_elem_in_block; ++i_elem) {
-- 
2.43.0


From fb771bf3629294d836403dd7c729b51d224f7444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:28 +0000
Subject: [PATCH 35/64] fix: a field registered under another letter case of
 its label is found by that label

---
 src/nimble_model_data.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nimble_model_data.cc b/src/nimble_model_data.cc
index 24a8210..c298c86 100644
--- a/src/nimble_model_data.cc
+++ b/src/nimble_model_data.cc
@@ -64,8 +64,12 @@ namespace nimble {
 int
 ModelData::GetFieldId(const std::string& label) const
 {
+  std::string name(label);
+  std::transform(label.begin(), label.end(), name.begin(), ::tolower);
   for (auto const& id_field_pair : data_fields_) {
-    if (id_field_pair.second.label_ == label) { return id_field_pair.first; }
+    std::string temp_name(id_field_pair.second.label_);
+    std::transform(temp_name.begin(), temp_name.end(), temp_name.begin(), ::tolower);
+    if (temp_name == name) { return id_field_pair.first; }
   }
   return -1;
 }
-- 
2.43.0


From cb2b8407879a75861a7b1315d06a37f28352692e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:43 +0000
Subject: [PATCH 36/64] fix: a contact visualisation without a contact command
 ended the run with a null pointer

---
 src/integrators/explicit_time_integrator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrators/explicit_time_integrator.cc b/src/integrators/explicit_time_integrator.cc
index ae55d53..b4d4a5a 100644
--- a/src/integrators/explicit_time_integrator.cc
+++ b/src/integrators/explicit_time_integrator.cc
@@ -74,7 +74,7 @@ ExplicitTimeIntegrator::Integrate()
   auto contact_manager = nimble::GetContactManager(contact_interface, data_manager);
 
   bool contact_enabled       = parser.HasContact();
-  bool contact_visualization = parser.ContactVisualization();
+  bool contact_visualization = contact_enabled && parser.ContactVisualization();
 
   auto                   myVectorCommunicator = data_manager.GetVectorCommunicator();
   nimble::ProfilingTimer watch_simulation;
-- 
2.43.0


From 3b399bbb42b2d2064f3ff298cdc02adcb8961c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:43 +0000
Subject: [PATCH 37/64] fix: a contact command whose penalty parameter is
 missing or is no number is refused

---
 src/nimble_contact_manager.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nimble_contact_manager.cc b/src/nimble_contact_manager.cc
index 0eab352..9de11c8 100644
--- a/src/nimble_contact_manager.cc
+++ b/src/nimble_contact_manager.cc
@@ -145,7 +145,12 @@ ParseContactCommand(
         "\"penalty_parameter\".\n");
   }
 
-  ss >> penalty_parameter;
+  std::string extra;
+  if (!(ss >> penalty_parameter) || (ss >> extra)) {
+    throw std::invalid_argument(
+        "\n**** Error processing contact command, expected one number after "
+        "\"penalty_parameter\".\n");
+  }
 }
 
 std::shared_ptr<nimble::ContactManager>
-- 
2.43.0


From 9bc428d66b16d19328ffae42c550f15a05b5d9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:45 +0000
Subject: [PATCH 38/64] fix: the logarithm of a rotation by half a turn is
 computed

---
 src/nimble_utils.h | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/nimble_utils.h b/src/nimble_utils.h
index 5942007..168074b 100644
--- a/src/nimble_utils.h
+++ b/src/nimble_utils.h
@@ -1136,26 +1136,33 @@ Log_Rotation_Pi(const ScalarT* const rotation, ScalarT* const log_rotation)
   v[1] = B[K_F_YY];
   v[2] = B[K_F_YZ];
 
-  ScalarT normal[3];
+  ScalarT w[3];
+  w[0] = B[K_F_ZX];
+  w[1] = B[K_F_ZY];
+  w[2] = B[K_F_ZZ];
+
+  // the rows of R - I are perpendicular to the axis, and one or two of them
+  // vanish or are parallel when the axis lies in a coordinate plane; take the
+  // longest of their cross products
+  ScalarT normal[3], candidate[3];
   CrossProduct(u, v, normal);
-
   ScalarT norm = normal[0] * normal[0] + normal[1] * normal[1] + normal[2] * normal[2];
-  if (norm > 0.0) { norm = std::sqrt(norm); }
-
-  if (norm < machine_epsilon) {
-    ScalarT w[3];
-    w[0] = B[K_F_ZX];
-    w[1] = B[K_F_ZY];
-    w[2] = B[K_F_ZZ];
-
-    CrossProduct(u, w, normal);
 
-    norm = normal[0] * normal[0] + normal[1] * normal[1] + normal[2] * normal[2];
-    if (norm > 0.0) { norm = std::sqrt(norm); }
-
-    NIMBLE_ASSERT(norm >= machine_epsilon, "\n**** Error in Log_Rotation_Pi(), cannot"
-                  " determine rotation vector.");
+  for (int i = 0; i < 2; i++) {
+    CrossProduct(i == 0 ? u : v, w, candidate);
+    ScalarT candidate_norm =
+        candidate[0] * candidate[0] + candidate[1] * candidate[1] + candidate[2] * candidate[2];
+    if (candidate_norm > norm) {
+      normal[0] = candidate[0];
+      normal[1] = candidate[1];
+      normal[2] = candidate[2];
+      norm = candidate_norm;
+    }
   }
+  norm = std::sqrt(norm);
+
+  NIMBLE_ASSERT(norm >= machine_epsilon, "\n**** Error in Log_Rotation_Pi(), cannot"
+                " determine rotation vector.");
 
   normal[0] /= norm;
   normal[1] /= norm;
@@ -1216,7 +1223,7 @@ Log_Rotation(const ScalarT* const rotation, ScalarT* const log_rotation)
   if (theta == 0.0) {
     Zero_Full33(log_rotation);
   } else if (std::abs(cosine + 1.0) < 10.0 * machine_epsilon) {
-    //        r = log_rotation_pi(R);
+    Log_Rotation_Pi(rotation, log_rotation);
   } else {
     // r = theta / std::sin(theta) * skew(R);
     ScalarT a = theta / std::sin(theta);
-- 
2.43.0


From 0fda62284202bf50f259c6ec0c81c06d72034d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:50 +0000
Subject: [PATCH 39/64] fix: views of strided storage act on their own
 elements, whatever the strides

---
 src/nimble_view.h | 49 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/src/nimble_view.h b/src/nimble_view.h
index 10dbea5..5d1f9eb 100644
--- a/src/nimble_view.h
+++ b/src/nimble_view.h
@@ -88,14 +88,14 @@ class Viewify
   NIMBLE_INLINE_FUNCTION typename std::enable_if<(NN == 1), Scalar>::type&
   operator()(int i)
   {
-    return data_[i];
+    return data_[i * stride_[0]];
   }
 
   template <std::size_t NN = N>
   NIMBLE_INLINE_FUNCTION typename std::enable_if<(NN == 1), const Scalar>::type
   operator()(int i) const
   {
-    return data_[i];
+    return data_[i * stride_[0]];
   }
 
   template <std::size_t NN = N>
@@ -115,15 +115,15 @@ class Viewify
   void
   zero()
   {
-    int mySize = stride_[0] * len_[0];
-    for (int ii = 0; ii < mySize; ++ii) data_[ii] = (Scalar)(0);
+    const long num = num_elements();
+    for (long ii = 0; ii < num; ++ii) data_[offset(ii)] = (Scalar)(0);
   }
 
   void
   copy(const Viewify<N>& ref)
   {
-    int mySize = stride_[0] * len_[0];
-    for (int ii = 0; ii < mySize; ++ii) data_[ii] = ref.data_[ii];
+    const long num = num_elements();
+    for (long ii = 0; ii < num; ++ii) data_[offset(ii)] = ref.data()[ref.offset(ii)];
   }
 
   Scalar*
@@ -148,6 +148,29 @@ class Viewify
     return stride_;
   }
 
+  /// \brief Number of elements of the view
+  long
+  num_elements() const
+  {
+    long num = 1;
+    for (int len : len_) num *= len;
+    return num;
+  }
+
+  /// \brief Position in the storage of an element of the view
+  ///
+  /// \param[in] ii Number of the element, where the last index runs fastest
+  long
+  offset(long ii) const
+  {
+    long pos = 0;
+    for (std::size_t d = N; d-- > 0;) {
+      pos += (ii % len_[d]) * stride_[d];
+      ii /= len_[d];
+    }
+    return pos;
+  }
+
  protected:
   Scalar*            data_;
   std::array<int, N> len_;
@@ -169,8 +192,7 @@ struct AXPYResult
   /// \param[in] rhsCoef Scalar
   /// \param[out] dest Viewify "vector" storing the result
   ///
-  /// \note The routine does not check whether A_ and dest have the same length
-  /// and the same stride.
+  /// \note The routine does not check whether A_ and dest have the same length.
   void
   assignTo(double destCoef, double rhsCoef, nimble::Viewify<N>& dest) const;
 
@@ -184,19 +206,18 @@ AXPYResult<N>::assignTo(double destCoef, double rhsCoef, nimble::Viewify<N>& des
 {
   const double prod = alpha_ * rhsCoef;
 
-  auto       len    = dest.size();
-  auto       stride = dest.stride();
-  const long isize  = len[0] * stride[0];
+  const long isize = dest.num_elements();
 
   double* data     = dest.data();
   double* rhs_data = A_.data();
 
   if (destCoef == 1.0) {
-    for (long ii = 0; ii < isize; ++ii) data[ii] += prod * rhs_data[ii];
+    for (long ii = 0; ii < isize; ++ii) data[dest.offset(ii)] += prod * rhs_data[A_.offset(ii)];
   } else if (destCoef == 0.0) {
-    for (long ii = 0; ii < isize; ++ii) data[ii] = prod * rhs_data[ii];
+    for (long ii = 0; ii < isize; ++ii) data[dest.offset(ii)] = prod * rhs_data[A_.offset(ii)];
   } else {
-    for (long ii = 0; ii < isize; ++ii) data[ii] = destCoef * data[ii] + prod * rhs_data[ii];
+    for (long ii = 0; ii < isize; ++ii)
+      data[dest.offset(ii)] = destCoef * data[dest.offset(ii)] + prod * rhs_data[A_.offset(ii)];
   }
 }
 
-- 
2.43.0


From afcef7cfaf167facbc8f6074e07e5cd7db598f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:50 +0000
Subject: [PATCH 40/64] fix: arrayview_t of a range counts elements, not bytes

---
 src/nimble.quanta.arrayview.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble.quanta.arrayview.h b/src/nimble.quanta.arrayview.h
index 6b6ee02..a192f4b 100644
--- a/src/nimble.quanta.arrayview.h
+++ b/src/nimble.quanta.arrayview.h
@@ -62,7 +62,7 @@ class arrayview_t
   arrayview_t() : addr(nullptr), count(0) {}
   arrayview_t(T* addr, size_t start, size_t count) : addr(addr + start), count(count) {}
   arrayview_t(T* addr, size_t count) : addr(addr), count(count) {}
-  arrayview_t(T* begin, T* end) : addr(begin), count((size_t)end - (size_t)begin) {}
+  arrayview_t(T* begin, T* end) : addr(begin), count(end - begin) {}
   arrayview_t(const arrayview_t& s) : addr(s.addr), count(s.count) {}
   arrayview_t(arrayview_t&& s) : addr(s.addr), count(s.count) {}
   arrayview_t(std::vector<T>& vect) : addr(vect.data()), count(vect.size()) {}
-- 
2.43.0


From 724ccf808a046d9bb73f8fc469f296c7cf81b930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:50 +0000
Subject: [PATCH 41/64] fix: spanarray can be built from section sizes and read
 when constant

---
 src/nimble.quanta.arrayview.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/nimble.quanta.arrayview.h b/src/nimble.quanta.arrayview.h
index a192f4b..0dfc7d6 100644
--- a/src/nimble.quanta.arrayview.h
+++ b/src/nimble.quanta.arrayview.h
@@ -190,8 +190,8 @@ class spanarray
  private:
   std::unique_ptr<T[]>              arr;
   std::unique_ptr<arrayview_t<T>[]> sections;
-  size_t                            elem_count;
-  size_t                            section_count;
+  size_t                            elem_count    = 0;
+  size_t                            section_count = 0;
 
  public:
   spanarray()            = default;
@@ -209,10 +209,10 @@ class spanarray
       : spanarray{(size_t)std::accumulate(sect_sizes.begin(), sect_sizes.end(), 0), sect_sizes.size()}
   {
     size_t displacement = 0;
-    T*     scan0        = data();
     for (size_t i = 0; i < section_count; ++i) {
-      size_t section_size = (size_t)sect_sizes[i];
-      sections[i]         = {scan0, displacement, section_size};
+      size_t         section_size = (size_t)sect_sizes[i];
+      arrayview_t<T> section(arr.get(), displacement, section_size);
+      swap(sections[i], section);
       displacement += section_size;
     }
   }
@@ -270,7 +270,6 @@ class spanarray
   const T&
   operator()(int_t section_index, int2_t element_index) const
   {
-    sections[0].swap(sections[1], sections[2]);
     return sections[section_index][element_index];
   }
 };
-- 
2.43.0


From d2f080aa5f000c3dbfdbce31ffce19ddd178f6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:34 +0000
Subject: [PATCH 42/64] fix: asking for help does not start a run

---
 src/nimble.cc     |  2 +-
 src/nimble_cli.cc | 10 ++++++++++
 src/nimble_cli.h  |  3 +++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/nimble.cc b/src/nimble.cc
index 499580c..0234555 100644
--- a/src/nimble.cc
+++ b/src/nimble.cc
@@ -108,7 +108,7 @@ NimbleApplication::Run(int argc, char **argv) {
 
   impl_->cli_config_->ConfigureCommandLineArguments();
   int err = impl_->cli_config_->ParseAndGetErrorCode();
-  if (err != 0)
+  if (err != 0 || impl_->cli_config_->HelpRequested())
     return err;
 
   impl_->parser_ = CreateParser();
diff --git a/src/nimble_cli.cc b/src/nimble_cli.cc
index 66c5ecb..4780242 100644
--- a/src/nimble_cli.cc
+++ b/src/nimble_cli.cc
@@ -58,6 +58,7 @@ struct CommandLineConfiguration::impl
   bool use_tpetra_ = false;
   bool use_vt_ = false;
   bool use_uq_ = false;
+  bool help_requested_ = false;
   std::string input_filename_;
 };
 
@@ -113,6 +114,9 @@ int
 CommandLineConfiguration::ParseAndGetErrorCode() {
   try {
     impl_->cli_app_.parse(impl_->argc_, impl_->argv_);
+  } catch (const CLI::CallForHelp& e) {
+    impl_->help_requested_ = true;
+    return impl_->cli_app_.exit(e);
   } catch (const CLI::ParseError& e) {
     return impl_->cli_app_.exit(e);
   }
@@ -120,6 +124,12 @@ CommandLineConfiguration::ParseAndGetErrorCode() {
   return 0;
 }
 
+bool
+CommandLineConfiguration::HelpRequested() const noexcept
+{
+  return impl_->help_requested_;
+}
+
 bool
 CommandLineConfiguration::UseTpetra() const noexcept
 {
diff --git a/src/nimble_cli.h b/src/nimble_cli.h
index 97519a2..5ecaa92 100644
--- a/src/nimble_cli.h
+++ b/src/nimble_cli.h
@@ -64,6 +64,9 @@ class CommandLineConfiguration
 
   int ParseAndGetErrorCode();
 
+  /// \brief Whether the command line asked for the help message (and nothing else is to be done)
+  bool HelpRequested() const noexcept;
+
   bool UseTpetra() const noexcept;
   bool UseVT() const noexcept;
   bool UseUQ() const noexcept;
-- 
2.43.0


From 4fa74a88a8a7602abc2ae0521fb2e45a534c0af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:46 +0000
Subject: [PATCH 43/64] fix: the components of a two-dimensional tensor have
 labels of their own

---
 src/nimble_data_utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_data_utils.cc b/src/nimble_data_utils.cc
index 79fa156..f19fa04 100644
--- a/src/nimble_data_utils.cc
+++ b/src/nimble_data_utils.cc
@@ -183,7 +183,7 @@ GetComponentLabels(std::string label, Length length, int dim)
       labels.push_back(label + "_xx");
       labels.push_back(label + "_yy");
       labels.push_back(label + "_xy");
-      labels.push_back(label + "_xy");
+      labels.push_back(label + "_yx");
     } else if (dim == 3) {
       labels.push_back(label + "_xx");
       labels.push_back(label + "_yy");
-- 
2.43.0


From 639b3f1ab9251b30176eb9ce8df060301cdab384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:46 +0000
Subject: [PATCH 44/64] fix: the components of a field of numbered length have
 labels of their own at an integration point

---
 src/nimble_data_utils.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nimble_data_utils.cc b/src/nimble_data_utils.cc
index f19fa04..18fefaf 100644
--- a/src/nimble_data_utils.cc
+++ b/src/nimble_data_utils.cc
@@ -258,6 +258,11 @@ GetComponentLabel(std::string label, Length length, int dim, int component_index
         default: throw std::invalid_argument("\nError in GetComponentLabel().\n");
       }
     }
+  } else if (length != SCALAR) {
+    if (component_index < 0 || component_index >= static_cast<int>(length)) {
+      throw std::invalid_argument("\nError in GetComponentLabel().\n");
+    }
+    label += "_" + std::to_string(component_index + 1);
   }
 
   label = AddIntegrationPointPrefix(label, ipt);
-- 
2.43.0


From 37d9e5fcf5aa5625e93bbdb45614b69180a53008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:46 +0000
Subject: [PATCH 45/64] fix: a label that merely begins with ipt has no
 integration point prefix

---
 src/nimble_data_utils.cc | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/nimble_data_utils.cc b/src/nimble_data_utils.cc
index 18fefaf..d350916 100644
--- a/src/nimble_data_utils.cc
+++ b/src/nimble_data_utils.cc
@@ -100,22 +100,11 @@ RemoveIntegrationPointPrefix(std::string label)
 {
   std::string stripped_label(label);
 
-  size_t pos = label.find("ipt");
-  if (pos == 0) {
-    // remove "ipt"
-    std::string temp = label.substr(3);
-    // strip off integers, they are the integration point number
-    // the initial value of 1 is for the trailing underscore
-    int  num_digits   = 1;
-    bool first_digits = true;
-    for (char& c : temp) {
-      if (first_digits && isdigit(c)) {
-        num_digits++;
-      } else {
-        first_digits = false;
-      }
-    }
-    stripped_label = temp.substr(num_digits);
+  // The prefix is "ipt", the integration point number, and an underscore
+  if (label.compare(0, 3, "ipt") == 0) {
+    size_t pos = 3;
+    while (pos < label.size() && isdigit(static_cast<unsigned char>(label[pos]))) { pos++; }
+    if (pos > 3 && pos < label.size() && label[pos] == '_') { stripped_label = label.substr(pos + 1); }
   }
   return stripped_label;
 }
-- 
2.43.0


From 262ef11c55371cafbf55acce8fcd11a6bf6b5d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:45 +0000
Subject: [PATCH 46/64] fix: the exported geometry of a contact entity includes
 its centroid

---
 src/nimble_contact_entity.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nimble_contact_entity.cc b/src/nimble_contact_entity.cc
index 678f192..c41e53f 100644
--- a/src/nimble_contact_entity.cc
+++ b/src/nimble_contact_entity.cc
@@ -70,6 +70,8 @@ ContactEntity::ExportGeometryInto(ContactEntity& xerox) const
   xerox.bounding_box_y_max_ = bounding_box_y_max_;
   xerox.bounding_box_z_min_ = bounding_box_z_min_;
   xerox.bounding_box_z_max_ = bounding_box_z_max_;
+
+  xerox.centroid_ = centroid_;
 }
 
 void
-- 
2.43.0


From fd15eaebc7dade366a8e944d786947b9482be021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:22 +0000
Subject: [PATCH 47/64] fix: the counts of active contact entities were those
 of outdated host copies

---
 src/nimble_contact_manager.cc | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/nimble_contact_manager.cc b/src/nimble_contact_manager.cc
index 9de11c8..dd627f6 100644
--- a/src/nimble_contact_manager.cc
+++ b/src/nimble_contact_manager.cc
@@ -730,24 +730,32 @@ ContactManager::numContactNodes() const
 size_t
 ContactManager::numActiveContactFaces() const
 {
-  std::size_t num_contacts = 0;
-  const std::size_t total_num_contact_faces = numContactFaces();
-  for (std::size_t i = 0; i < total_num_contact_faces; ++i) {
-    const auto &myface = getContactFace(i);
-    num_contacts += static_cast<size_t>(myface.contact_status());
-  }
+  // the host copies of the entities are not updated at every step
+  nimble_kokkos::DeviceContactEntityArrayView contact_faces = contact_faces_d_;
+  std::size_t                                 num_contacts  = 0;
+  Kokkos::parallel_reduce(
+      "ContactManager::numActiveContactFaces",
+      contact_faces.extent(0),
+      KOKKOS_LAMBDA(const int i, std::size_t& count) {
+        count += static_cast<std::size_t>(contact_faces(i).contact_status());
+      },
+      num_contacts);
   return num_contacts;
 }
 
 size_t
 ContactManager::numActiveContactNodes() const
 {
-  std::size_t num_contacts = 0;
-  const std::size_t total_num_contact_nodes = numContactNodes();
-  for (std::size_t i = 0; i < total_num_contact_nodes; ++i) {
-    const auto &mynode = getContactNode(i);
-    num_contacts += static_cast<size_t>(mynode.contact_status());
-  }
+  // the host copies of the entities are not updated at every step
+  nimble_kokkos::DeviceContactEntityArrayView contact_nodes = contact_nodes_d_;
+  std::size_t                                 num_contacts  = 0;
+  Kokkos::parallel_reduce(
+      "ContactManager::numActiveContactNodes",
+      contact_nodes.extent(0),
+      KOKKOS_LAMBDA(const int i, std::size_t& count) {
+        count += static_cast<std::size_t>(contact_nodes(i).contact_status());
+      },
+      num_contacts);
   return num_contacts;
 }
 
-- 
2.43.0


From 25c96581d2722f1e8d25aa62b96ef26cec5233f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:22 +0000
Subject: [PATCH 48/64] fix: the time of a region that encloses another began
 with the inner one

---
 src/nimble_profiling_timer.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/nimble_profiling_timer.h b/src/nimble_profiling_timer.h
index c7e6a9e..50cff8f 100644
--- a/src/nimble_profiling_timer.h
+++ b/src/nimble_profiling_timer.h
@@ -74,7 +74,7 @@ class ProfilingTimer
     current_region_.push(profiling_region_name);
 #ifdef NIMBLE_HAVE_KOKKOS
     Kokkos::Profiling::pushRegion("NimbleSM: " + profiling_region_name);
-    k_timer_.reset();
+    k_timers_.emplace();
 #else
     n_timer_->Start(profiling_region_name);
 #endif
@@ -85,7 +85,8 @@ class ProfilingTimer
   {
     double t = 0.0;
 #ifdef NIMBLE_HAVE_KOKKOS
-    t = k_timer_.seconds();
+    t = k_timers_.top().seconds();
+    k_timers_.pop();
     Kokkos::Profiling::popRegion();
 #else
     t = n_timer_->StopReport(current_region_.top());
@@ -99,7 +100,8 @@ class ProfilingTimer
 
   std::unique_ptr<nimble::Timer> n_timer_ = nullptr;
 #ifdef NIMBLE_HAVE_KOKKOS
-  Kokkos::Timer k_timer_;
+  // one for every region that is open
+  std::stack<Kokkos::Timer> k_timers_;
 #endif
 };
 
-- 
2.43.0


From a493ae007ccaf67d83d140949e80ed787e2c6b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:36 +0000
Subject: [PATCH 49/64] fix: the blocks of a mesh read from a text file have no
 names and are not counted

---
 src/nimble_genesis_mesh.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nimble_genesis_mesh.cc b/src/nimble_genesis_mesh.cc
index 1a0c74c..77e7483 100644
--- a/src/nimble_genesis_mesh.cc
+++ b/src/nimble_genesis_mesh.cc
@@ -385,7 +385,9 @@ GenesisMesh::ReadTextFile(std::string file_name)
       std::string       block_name;
       ss >> block_id >> block_name >> num_elem_in_block >> num_nodes_per_elem;
       block_ids_.push_back(block_id);
+      all_block_ids_.push_back(block_id);
       block_names_[block_id]              = block_name;
+      all_block_names_[block_id]          = block_name;
       block_num_nodes_per_elem_[block_id] = num_nodes_per_elem;
       block_elem_connectivity_[block_id]  = std::vector<int>(num_elem_in_block * num_nodes_per_elem);
       block_elem_global_ids_[block_id]    = std::vector<int>(num_elem_in_block);
-- 
2.43.0


From 1308362763dae55a78afb35bce3bd678e5188d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:36 +0000
Subject: [PATCH 50/64] fix: the name of the two-dimensional triangle ends with
 a colon

---
 src/nimble_genesis_mesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_genesis_mesh.cc b/src/nimble_genesis_mesh.cc
index 77e7483..62baf3d 100644
--- a/src/nimble_genesis_mesh.cc
+++ b/src/nimble_genesis_mesh.cc
@@ -487,7 +487,7 @@ GenesisMesh::GetElementType(int block_id) const
 
   if (dim == 2) {
     switch (num_node_per_elem) {
-      case 3: elem_type = "TRIANGLE:"; break;
+      case 3: elem_type = "TRIANGLE"; break;
       case 4: elem_type = "QUAD"; break;
       default: elem_type = "UNKNOWN"; break;
     }
-- 
2.43.0


From 5ce8de7b65a92e801a7129ab7ec141e27869bd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:36 +0000
Subject: [PATCH 51/64] fix: the bounding box of a two-dimensional mesh is made
 of coordinates that do not exist

---
 src/nimble_genesis_mesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_genesis_mesh.cc b/src/nimble_genesis_mesh.cc
index 62baf3d..b1c81b4 100644
--- a/src/nimble_genesis_mesh.cc
+++ b/src/nimble_genesis_mesh.cc
@@ -90,7 +90,7 @@ GenesisMesh::ReadFile(std::string file_name)
   // Node coordinates
   node_x_.resize(num_nodes);
   node_y_.resize(num_nodes);
-  if (dim_ == 3) { node_z_.resize(num_nodes); }
+  node_z_.resize(num_nodes);
   retval = ex_get_coord(exodus_file_id, &node_x_[0], &node_y_[0], &node_z_[0]);
   if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_coord");
 
-- 
2.43.0


From b0f9d835f40164330baeb7ad88e738c4bcc74099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:36 +0000
Subject: [PATCH 52/64] fix: the names of the node sets are missing from the
 output

---
 src/nimble_exodus_output.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nimble_exodus_output.cc b/src/nimble_exodus_output.cc
index 9511191..1a077cb 100644
--- a/src/nimble_exodus_output.cc
+++ b/src/nimble_exodus_output.cc
@@ -225,6 +225,12 @@ ExodusOutput::InitializeDatabase(
     set_specs.sets_dist_fact      = node_sets_dist_fact.data();
     retval                        = ex_put_concat_sets(exodus_file_id, EX_NODE_SET, &set_specs);
     if (retval != 0) ReportExodusError(retval, "InitializeDatabase", "ex_put_concat_sets");
+
+    // Write the node set names
+    std::vector<char*> set_names(num_node_sets_);
+    for (int i = 0; i < num_node_sets_; i++) { set_names[i] = const_cast<char*>(node_set_names[node_set_ids[i]].c_str()); }
+    retval = ex_put_names(exodus_file_id, EX_NODE_SET, set_names.data());
+    if (retval != 0) ReportExodusError(retval, "InitializeDatabase", "ex_put_names EX_NODE_SET");
   }
 
   // Write global data info
-- 
2.43.0


From bdabf5825cd0231a8cd14857ff936658e97e528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:39 +0000
Subject: [PATCH 53/64] fix: the vectors of a two-dimensional model are seen as
 having three components

GetVectorNodeData gave a view with three columns of memory that has two
values for each node: what is written for the last third of the nodes is
written beyond the end of the field.
---
 src/nimble_model_data.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/nimble_model_data.cc b/src/nimble_model_data.cc
index c298c86..e515106 100644
--- a/src/nimble_model_data.cc
+++ b/src/nimble_model_data.cc
@@ -544,9 +544,10 @@ ModelData::GetScalarNodeData(int field_id)
 nimble::Viewify<2>
 ModelData::GetVectorNodeData(int field_id)
 {
-  auto& field_vector = node_data_.at(field_id);
-  auto  isize        = static_cast<int>(field_vector.size()) / 3;
-  return {field_vector.data(), {isize, 3}, {3, 1}};
+  auto&     field_vector = node_data_.at(field_id);
+  const int components   = LengthToInt(VECTOR, dim_);
+  auto      isize        = static_cast<int>(field_vector.size()) / components;
+  return {field_vector.data(), {isize, components}, {components, 1}};
 }
 
 void
-- 
2.43.0


From 67cca30ac61cfd6c63afbdd764ff65b5b20119e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:26 +0000
Subject: [PATCH 54/64] fix: a Tpetra reduction of two components mixes up the
 nodes

---
 src/nimble_tpetra_utils.cc | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/nimble_tpetra_utils.cc b/src/nimble_tpetra_utils.cc
index d8681e2..74960b0 100644
--- a/src/nimble_tpetra_utils.cc
+++ b/src/nimble_tpetra_utils.cc
@@ -249,16 +249,23 @@ TpetraContainer::VectorReduction(int data_dimension, double* data)
   if (data_dimension == dim_) length = VECTOR;
 
   if (length == SCALAR) {
-    // load the data into a tpetra vector
-    Teuchos::ArrayRCP<scalar_type> vec_1d_data = vec_1d_->getDataNonConst();
-    for (unsigned int i_node = 0; i_node < global_node_ids_.size(); i_node++) { vec_1d_data[i_node] = data[i_node]; }
+    // one component after the other
+    for (int i_comp = 0; i_comp < data_dimension; i_comp++) {
+      // load the data into a tpetra vector
+      Teuchos::ArrayRCP<scalar_type> vec_1d_data = vec_1d_->getDataNonConst();
+      for (unsigned int i_node = 0; i_node < global_node_ids_.size(); i_node++) {
+        vec_1d_data[i_node] = data[i_node * data_dimension + i_comp];
+      }
 
-    // use tpetra import/export to allreduce over the vector
-    vec_1d_one_to_one_->doExport(*vec_1d_, *export_into_vec_1d_one_to_one_, Tpetra::CombineMode::ADD);
-    vec_1d_->doImport(*vec_1d_one_to_one_, *import_from_vec_1d_one_to_one_, Tpetra::CombineMode::INSERT);
+      // use tpetra import/export to allreduce over the vector
+      vec_1d_one_to_one_->doExport(*vec_1d_, *export_into_vec_1d_one_to_one_, Tpetra::CombineMode::ADD);
+      vec_1d_->doImport(*vec_1d_one_to_one_, *import_from_vec_1d_one_to_one_, Tpetra::CombineMode::INSERT);
 
-    // copy the reduced values back into the original container
-    for (unsigned int i_node = 0; i_node < global_node_ids_.size(); i_node++) { data[i_node] = vec_1d_data[i_node]; }
+      // copy the reduced values back into the original container
+      for (unsigned int i_node = 0; i_node < global_node_ids_.size(); i_node++) {
+        data[i_node * data_dimension + i_comp] = vec_1d_data[i_node];
+      }
+    }
   } else if (length == VECTOR) {
     // load the data into a tpetra vector
     Teuchos::ArrayRCP<scalar_type> vec_3d_data = vec_3d_->getDataNonConst();
-- 
2.43.0


From 84289808f606d6b71ae1ad1ab32bfa86aedfdf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:22 +0000
Subject: [PATCH 55/64] fix: names longer than a database holds overrun their
 buffers in the output

---
 src/nimble_exodus_output.cc | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/nimble_exodus_output.cc b/src/nimble_exodus_output.cc
index 1a077cb..f3bdbe1 100644
--- a/src/nimble_exodus_output.cc
+++ b/src/nimble_exodus_output.cc
@@ -61,6 +61,18 @@
 
 namespace nimble {
 
+#ifdef NIMBLE_HAVE_EXODUS
+namespace {
+// Names in the database have at most MAX_STR_LENGTH characters
+void
+CopyName(const std::string& name, char* buffer)
+{
+  const auto length = name.copy(buffer, MAX_STR_LENGTH);
+  buffer[length]    = '\0';
+}
+}  // namespace
+#endif
+
 void
 ExodusOutput::Initialize(std::string const& filename, GenesisMesh const& genesis_mesh)
 {
@@ -142,7 +154,7 @@ ExodusOutput::InitializeDatabase(
     block_names[i]               = new char[MAX_STR_LENGTH + 1];
     const int         id         = all_block_ids_[i];
     const std::string block_name = genesis_mesh.GetBlockName(id);
-    strcpy(block_names[i], block_name.c_str());
+    CopyName(block_name, block_names[i]);
   }
   retval = ex_put_names(exodus_file_id, EX_ELEM_BLOCK, block_names);
   if (retval != 0) ReportExodusError(retval, "InitializeDatabase", "ex_put_names EX_ELEM_BLOCK");
@@ -239,7 +251,7 @@ ExodusOutput::InitializeDatabase(
     global_var_names = new char*[num_global_data];
     for (int i = 0; i < num_global_data; i++) {
       global_var_names[i] = new char[MAX_STR_LENGTH + 1];
-      strcpy(global_var_names[i], global_data_names[i].c_str());
+      CopyName(global_data_names[i], global_var_names[i]);
     }
     retval = ex_put_variable_param(exodus_file_id, EX_GLOBAL, num_global_data);
     if (retval != 0) ReportExodusError(retval, "InitializeDatabase", "ex_put_variable_param");
@@ -253,7 +265,7 @@ ExodusOutput::InitializeDatabase(
     node_var_names = new char*[num_node_data];
     for (int i = 0; i < num_node_data; i++) {
       node_var_names[i] = new char[MAX_STR_LENGTH + 1];
-      strcpy(node_var_names[i], node_data_names[i].c_str());
+      CopyName(node_data_names[i], node_var_names[i]);
     }
     retval = ex_put_variable_param(exodus_file_id, EX_NODAL, num_node_data);
     if (retval != 0) ReportExodusError(retval, "InitializeDatabase", "ex_put_variable_param");
@@ -283,7 +295,7 @@ ExodusOutput::InitializeDatabase(
     element_var_names = new char*[num_element_vars];
     for (int i = 0; i < num_element_vars; i++) {
       element_var_names[i] = new char[MAX_STR_LENGTH + 1];
-      strcpy(element_var_names[i], elem_var_names[i].c_str());
+      CopyName(elem_var_names[i], element_var_names[i]);
     }
     retval = ex_put_variable_param(exodus_file_id, EX_ELEM_BLOCK, num_element_vars);
     if (retval != 0) ReportExodusError(retval, "InitializeDatabase", "ex_put_variable_param");
@@ -299,7 +311,7 @@ ExodusOutput::InitializeDatabase(
 
   // Clean up
   if (block_names != nullptr) {
-    for (int i = num_blocks_; i > 0; i--) { delete[] block_names[i - 1]; }
+    for (int i = num_global_blocks_; i > 0; i--) { delete[] block_names[i - 1]; }
     delete[] block_names;
   }
   if (global_var_names != nullptr) {
-- 
2.43.0


From 5e5376d01be3d0270fe0a6fef0d919a8fa226b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:37 +0000
Subject: [PATCH 56/64] fix: --use_uq selects the uncertainty model data and
 gives it host-side materials

The flag set the option of the VT runtime, so that a run with uncertain
parameters was an ordinary run; the model data would have been handed the
Kokkos material factory.
---
 src/nimble.cc     | 2 ++
 src/nimble_cli.cc | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nimble.cc b/src/nimble.cc
index 0234555..d5450ed 100644
--- a/src/nimble.cc
+++ b/src/nimble.cc
@@ -283,6 +283,8 @@ NimbleApplication::CreateCLI(int argc, char **argv)
 std::unique_ptr< MaterialFactoryBase >
 NimbleApplication::CreateMaterialFactory()
 {
+  // The model data of UQ runs holds host-side blocks
+  if (impl_->parser_->UseUQ()) { return std::make_unique<nimble::MaterialFactory>(); }
   return std::make_unique<nimble_kokkos::MaterialFactory>();
 }
 
diff --git a/src/nimble_cli.cc b/src/nimble_cli.cc
index 4780242..94f366b 100644
--- a/src/nimble_cli.cc
+++ b/src/nimble_cli.cc
@@ -99,7 +99,7 @@ CommandLineConfiguration::ConfigureCommandLineArguments() {
 #endif
           });
 
-  impl_->cli_app_.add_flag("--use_uq", impl_->use_vt_, "Use UQ capability")->check([](const std::string&) -> std::string {
+  impl_->cli_app_.add_flag("--use_uq", impl_->use_uq_, "Use UQ capability")->check([](const std::string&) -> std::string {
 #ifdef NIMBLE_HAVE_UQ
     return {};  // Empty string on success
 #else
-- 
2.43.0


From 5f76821baa3d4a896e4db7c5ddcd39670ecc6fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:37 +0000
Subject: [PATCH 57/64] fix: prescribed displacements hold for the samples of
 an uncertainty run

Only prescribed velocities were handed on to the samples; nodes with a
prescribed displacement moved freely in them.
---
 src/uq/nimble_uq_model_data.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/uq/nimble_uq_model_data.cc b/src/uq/nimble_uq_model_data.cc
index 58c090d..5f22957 100644
--- a/src/uq/nimble_uq_model_data.cc
+++ b/src/uq/nimble_uq_model_data.cc
@@ -139,7 +139,11 @@ ModelData::ApplyKinematicConditions(nimble::DataManager& data_manager, double ti
   auto reference_coordinate = GetVectorNodeData("reference_coordinate");
   auto displacement         = GetVectorNodeData("displacement");
   auto velocity             = GetVectorNodeData("velocity");
-  bc->ApplyKinematicBC( time_current, time_previous, reference_coordinate, displacement, velocity, velocity_views_); // applied to all 
+  bc->ApplyKinematicBC(time_current, time_previous, reference_coordinate, displacement, velocity);
+  // applied to all: where a displacement is prescribed, the velocity of a sample depends on where the sample is
+  for (size_t i = 0; i < velocity_views_.size(); i++) {
+    bc->ApplyKinematicBC(time_current, time_previous, reference_coordinate, displacement_views_[i], velocity_views_[i]);
+  }
 }
 
 void
-- 
2.43.0


From 2ba34b4367724c01498f081dbf6114306fcd0681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:37 +0000
Subject: [PATCH 58/64] fix: reduce the forces of the exact samples only

The loop went one beyond them, which is beyond the vector of the forces when
no sample is approximate.
---
 src/uq/nimble_uq_model_data.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uq/nimble_uq_model_data.cc b/src/uq/nimble_uq_model_data.cc
index 5f22957..f07138b 100644
--- a/src/uq/nimble_uq_model_data.cc
+++ b/src/uq/nimble_uq_model_data.cc
@@ -213,7 +213,7 @@ ModelData::ComputeInternalForce(
   constexpr int vector_dimension = 3;
   vector_comm->VectorReduction(vector_dimension, force.data());
   int num_exact_trajectories = uq_model_->GetNumExactSamples();
-  for(int i=0; i <= num_exact_trajectories; i++){
+  for(int i=0; i < num_exact_trajectories; i++){
     vector_comm->VectorReduction(vector_dimension,uq_model_->Forces()[i]);
   }
 
-- 
2.43.0


From ff4dc6ef87418f4a8f33af16051b9011af8a017b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:49 +0000
Subject: [PATCH 59/64] fix: every block of an uncertainty run has parameters

Blocks whose material is not uncertain, and all but one of the blocks that
share a material, had none: looking them up went beyond an empty vector.
---
 src/nimble_parser.h            |  7 +++++++
 src/uq/nimble_uq.cc            | 14 ++++++++++++++
 src/uq/nimble_uq.h             |  9 +++++++++
 src/uq/nimble_uq_model_data.cc |  5 +++++
 4 files changed, 35 insertions(+)

diff --git a/src/nimble_parser.h b/src/nimble_parser.h
index ba9cb3f..d00fa5a 100644
--- a/src/nimble_parser.h
+++ b/src/nimble_parser.h
@@ -370,6 +370,13 @@ class Parser
 #endif
 
 #ifdef NIMBLE_HAVE_UQ
+  std::string
+  GetMaterialKey(int block_id) const
+  {
+    auto block = model_blocks_.find(block_id);
+    return (block == model_blocks_.end()) ? std::string() : block->second.material_key_;
+  }
+
   std::string const&
   UqModelString() const
   {
diff --git a/src/uq/nimble_uq.cc b/src/uq/nimble_uq.cc
index 9391b74..1176455 100644
--- a/src/uq/nimble_uq.cc
+++ b/src/uq/nimble_uq.cc
@@ -143,6 +143,17 @@ UqModel::ParseBlockInput(
 }
 //===========================================================================
 void
+UqModel::AddBlock(
+    const int&                                          block_id,
+    const int&                                          block_id_with_same_material,
+    std::string const&                                  nominal_params_string,
+    const std::shared_ptr<nimble::MaterialFactoryBase>& material_factory)
+{
+  nominal_parameters_[block_id]       = material_factory->parse_material_params_string(nominal_params_string);
+  block_with_same_material_[block_id] = block_id_with_same_material;
+}
+//===========================================================================
+void
 UqModel::ReadSamples()
 {
   std::ifstream          f(samples_file_name_);
@@ -239,6 +250,9 @@ UqModel::ScaleParameters()
       double dxi = parameter_samples_[s][i];
       double p = p0 + dpdxi*dxi;
       parameters_[block_id][s][name] = p;
+      for (auto const& same : block_with_same_material_) {
+        if (same.second == block_id) { parameters_[same.first][s][name] = p; }
+      }
     }  
   }
 }
diff --git a/src/uq/nimble_uq.h b/src/uq/nimble_uq.h
index 1b1b1f6..0fd244e 100644
--- a/src/uq/nimble_uq.h
+++ b/src/uq/nimble_uq.h
@@ -76,6 +76,14 @@ class UqModel
       bool                                                block_id_present,
       std::map<int, std::shared_ptr<nimble::Block>>&      blocks);
 
+  // a block with the material of another block has its samples too
+  void
+  AddBlock(
+      const int&                                          block_id,
+      const int&                                          block_id_with_same_material,
+      std::string const&                                  nominal_params_string,
+      const std::shared_ptr<nimble::MaterialFactoryBase>& material_factory);
+
   // pre time integration
   void
   Initialize();
@@ -168,6 +176,7 @@ class UqModel
   ModelData*                       data_;
   std::string                      samples_file_name_;
   std::map<int,std::map<std::string,double>> nominal_parameters_; 
+  std::map<int,int> block_with_same_material_;
   std::map<int,std::map<std::string,double>> parameter_uncertainties_; 
   std::vector<std::pair<int,std::string>> parameter_order_;
   std::vector<std::vector<double>> parameter_samples_;  // ns,np
diff --git a/src/uq/nimble_uq_model_data.cc b/src/uq/nimble_uq_model_data.cc
index f07138b..9beba17 100644
--- a/src/uq/nimble_uq_model_data.cc
+++ b/src/uq/nimble_uq_model_data.cc
@@ -83,6 +83,11 @@ ModelData::InitializeBlocks(
     bool               block_id_present = std::find(block_ids.begin(), block_ids.end(), block_id) != block_ids.end();
     uq_model_->ParseBlockInput(uq_params_this_material, block_id, nominal_params_string, material_factory_base, block_id_present, blocks_);
   }
+  // blocks that share a material with others, or have one without uncertain parameters
+  for (int block_id : block_ids) {
+    int block_id_with_same_material = parser_.GetBlockIdFromMaterial(parser_.GetMaterialKey(block_id));
+    uq_model_->AddBlock(block_id, block_id_with_same_material, parser_.GetModelMaterialParameters(block_id), material_factory_base);
+  }
   //
   uq_model_->Initialize();
   //
-- 
2.43.0


From 36c39ddcf432dd063a45595cdabb89ae5f2bea42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:46 +0000
Subject: [PATCH 60/64] fix: refuse incomplete descriptions of uncertain
 parameters

A missing or empty file of samples, a model line without the name of the file
and a parameter without a value were read as if the missing word were there.
---
 src/uq/nimble_uq.cc | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/uq/nimble_uq.cc b/src/uq/nimble_uq.cc
index 1176455..eb9883e 100644
--- a/src/uq/nimble_uq.cc
+++ b/src/uq/nimble_uq.cc
@@ -93,14 +93,10 @@ void
 UqModel::ParseConfiguration(std::string const& line)
 {
   std::list<std::string> items = split(line);
-  std::string sampling = items.front();
-  items.pop_front();
-  if (sampling == "file") {
-    samples_file_name_ = items.front();
-    items.pop_front();
-  } else { 
-    std::cerr << " !! Error when parsing UQ parameters : !! \n";
+  if (items.size() != 2 || items.front() != "file") {
+    throw std::invalid_argument("\nError: UQ model has to be \"file\" and the name of a file, found \"" + line + "\"\n");
   }
+  samples_file_name_ = items.back();
 }
 //===========================================================================
 // parses: 
@@ -122,6 +118,8 @@ UqModel::ParseBlockInput(
   int  start_idx = GetNumParameters(); // number of parameter from previous blocks
   // collect ranges of the uncertain parameters
   std::list<std::string> items     = split(line);
+  if (block_id < 0) { throw std::invalid_argument("\nError: UQ parameters of a material that no block has\n"); }
+  if (items.size() % 2 != 0) { throw std::invalid_argument("\nError: UQ parameter without a value in \"" + line + "\"\n"); }
   while (items.size() > 0) {
       std::string pname = items.front();
       items.pop_front();
@@ -165,10 +163,16 @@ UqModel::ReadSamples()
   getline(f, line); linenumber++;
   items.clear();
   items = split(line);
+  if (!f || items.size() != 2) {
+    throw std::invalid_argument("\nError: UQ file " + samples_file_name_ + " does not begin with the numbers of exact and approximate samples\n");
+  }
   nexact_samples_ = std::stoi(items.front()); // in addition to the nominal
   items.pop_front();
   napprox_samples_ = std::stoi(items.front());
   items.pop_front();
+  if (nexact_samples_ < 0 || napprox_samples_ < 0) {
+    throw std::invalid_argument("\nError: UQ file " + samples_file_name_ + " has a negative number of samples\n");
+  }
   nsamples_ = napprox_samples_ + nexact_samples_;
 
   parameter_samples_.resize(nsamples_);
-- 
2.43.0


From 39402b1ef26ed72e963fc9d07645ece753dd33d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:13 +0000
Subject: [PATCH 61/64] fix: a functor without an expression can be assigned

---
 src/nimble_expression_parser.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/nimble_expression_parser.h b/src/nimble_expression_parser.h
index 427bfd1..efaaf5e 100644
--- a/src/nimble_expression_parser.h
+++ b/src/nimble_expression_parser.h
@@ -732,6 +732,14 @@ struct BoundaryConditionFunctor
   BoundaryConditionFunctor&
   operator=(const std::string& equation)
   {
+    if (equation == "") {
+      // As with the constructor, there is no expression
+      if (context) delete context;
+      context        = 0;
+      expression     = nullptr;
+      this->equation = equation;
+      return *this;
+    }
     EquationContext* old_context = context;
     try {
       context = new EquationContext();
-- 
2.43.0


From 600a6a0af0d2a32cc3a2d4d2a172c29d915a6ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:31 +0000
Subject: [PATCH 62/64] fix: refuse malformed and unknown uncertain parameters

---
 src/uq/nimble_uq.cc | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/uq/nimble_uq.cc b/src/uq/nimble_uq.cc
index eb9883e..b5e97f0 100644
--- a/src/uq/nimble_uq.cc
+++ b/src/uq/nimble_uq.cc
@@ -54,6 +54,7 @@
 #include "nimble_data_manager.h"
 #include "nimble_data_utils.h"
 #include "nimble_material_factory.h"
+#include "nimble_parser_util.h"
 #include "nimble_uq_block.h"
 #include "nimble_utils.h"
 
@@ -70,6 +71,19 @@ split(std::string line)
   return items;
 };
 
+//===========================================================================
+// a number of samples
+int
+string_to_count(std::string const& str)
+{
+  size_t end   = 0;
+  int    count = std::stoi(str, &end);
+  if (end != str.size() || count < 0) {
+    throw std::invalid_argument("\nError: UQ number of samples expected, found \"" + str + "\"\n");
+  }
+  return count;
+}
+
 //===========================================================================
 UqModel::UqModel(int ndims, const GenesisMesh* mesh, ModelData* data)
     : ndims_(ndims),
@@ -123,8 +137,14 @@ UqModel::ParseBlockInput(
   while (items.size() > 0) {
       std::string pname = items.front();
       items.pop_front();
-      double range = std::stod(items.front());
+      double range = string_to_double(items.front());
       items.pop_front();
+      if (pname != "bulk_modulus" && pname != "shear_modulus") {
+        throw std::invalid_argument("\nError: UQ parameter \"" + pname + "\" is none of bulk_modulus and shear_modulus\n");
+      }
+      if (parameter_uncertainties_[block_id].count(pname) != 0) {
+        throw std::invalid_argument("\nError: UQ parameter \"" + pname + "\" is given twice for the same material\n");
+      }
       parameter_uncertainties_[block_id][pname] = range;
       std::pair <int,std::string> p(block_id,pname);
       parameter_order_.push_back(p);
@@ -166,13 +186,10 @@ UqModel::ReadSamples()
   if (!f || items.size() != 2) {
     throw std::invalid_argument("\nError: UQ file " + samples_file_name_ + " does not begin with the numbers of exact and approximate samples\n");
   }
-  nexact_samples_ = std::stoi(items.front()); // in addition to the nominal
+  nexact_samples_ = string_to_count(items.front()); // in addition to the nominal
   items.pop_front();
-  napprox_samples_ = std::stoi(items.front());
+  napprox_samples_ = string_to_count(items.front());
   items.pop_front();
-  if (nexact_samples_ < 0 || napprox_samples_ < 0) {
-    throw std::invalid_argument("\nError: UQ file " + samples_file_name_ + " has a negative number of samples\n");
-  }
   nsamples_ = napprox_samples_ + nexact_samples_;
 
   parameter_samples_.resize(nsamples_);
@@ -191,7 +208,7 @@ UqModel::ReadSamples()
     for (int n = 0; n < nparameters_; n++) {
       std::string item = items.front();
       items.pop_front();
-      parameter_samples_[nsmpl].push_back(std::stod(item));  // exact samples come before the approx samples
+      parameter_samples_[nsmpl].push_back(string_to_double(item));  // exact samples come before the approx samples
     }
   }
 //std::cout << " read " << nexact_samples_ << " exact samples\n";
@@ -215,7 +232,7 @@ UqModel::ReadSamples()
     for (int n = 0; n < nparameters_; n++) {
       std::string item = items.front();
       items.pop_front();
-      parameter_samples_[nexact_samples_ + nsmpl].push_back(std::stod(item));  // approx samples come after the exact samples
+      parameter_samples_[nexact_samples_ + nsmpl].push_back(string_to_double(item));  // approx samples come after the exact samples
     }
     items.clear();
     items = split(coeffs_string);
@@ -226,7 +243,7 @@ UqModel::ReadSamples()
     for (int n = 0; n < ncoeff; n++) {
       std::string item = items.front();
       items.pop_front();
-      interpolation_coefficients_[nsmpl].push_back(std::stod(item));
+      interpolation_coefficients_[nsmpl].push_back(string_to_double(item));
     }
   }
 //std::cout << " read " << napprox_samples_ << " approximate samples\n";
-- 
2.43.0


From b812e1f24630b50ea8ff630365438ad662fe5c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:42 +0000
Subject: [PATCH 63/64] fix: refuse settings of the deck that are not finite
 numbers

"final time: nan" or "1e999" was read as a number; the run then went through
with times that are no numbers and reported success.
---
 src/nimble_parser.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index 52bd540..0bd88da 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -45,6 +45,7 @@
 
 #include <algorithm>
 #include <climits>
+#include <cmath>
 #include <cstdlib>
 #include <cstring>
 #include <fstream>
@@ -83,7 +84,7 @@ ToDouble(std::string const& key, std::string const& value)
 {
   char*  end    = nullptr;
   double number = std::strtod(value.c_str(), &end);
-  if (end == value.c_str() || *end != '\0') {
+  if (end == value.c_str() || *end != '\0' || !std::isfinite(number)) {
     throw std::invalid_argument("\n**** Error in Parser::ReadFile(), " + key + " expects a number, found " + value + "\n");
   }
   return number;
-- 
2.43.0


From 1b61adbb2804b2aeffd269885ec49aab283f6d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:36 +0000
Subject: [PATCH 64/64] fix: number the rows of the vectors with global
 ordinals, not with int

---
 src/nimble_tpetra_utils.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nimble_tpetra_utils.cc b/src/nimble_tpetra_utils.cc
index 74960b0..2235f05 100644
--- a/src/nimble_tpetra_utils.cc
+++ b/src/nimble_tpetra_utils.cc
@@ -91,7 +91,9 @@ TpetraContainer::Initialize(int d, unsigned int n, comm_type comm, std::vector<i
   local_ordinal_type               num_3d_entries = num_nodes * dim_;
   std::vector<global_ordinal_type> my_3d_entries(num_3d_entries);
   for (int i_node = 0; i_node < num_nodes; i_node++) {
-    for (int dof = 0; dof < dim_; dof++) { my_3d_entries[i_node * dim_ + dof] = global_node_ids_[i_node] * dim_ + dof; }
+    for (int dof = 0; dof < dim_; dof++) {
+      my_3d_entries[i_node * dim_ + dof] = static_cast<global_ordinal_type>(global_node_ids_[i_node]) * dim_ + dof;
+    }
   }
   Teuchos::RCP<const map_type> map_3d =
       Teuchos::rcp(new map_type(num_global_elements, my_3d_entries.data(), num_3d_entries, index_base, comm_));
-- 
2.43.0

