From 92f5611a91a27ee310efdec705c92246486a1fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:17 +0000
Subject: [PATCH 01/39] fix: predict the majority class of a decision tree
 node, not always the first

The node constructor looked for the most frequent class in its
count_per_class parameter after moving from it, so every node predicted the
first class.
---
 src/models/impl/DecisionTreeImpl.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index f93c514..f1a9ed1 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -238,10 +238,10 @@ DecisionTreeImpl::Node::Node(DecisionTreeImpl &DT,
       right(nullptr)
 {
   // Find predicted class as the maximum element in the
-  // count_per_class.
-  int idx = std::distance(count_per_class.begin(),
-                          std::max_element(count_per_class.begin(),
-                                           count_per_class.end()));
+  // count_per_class. Use the member, the parameter has been moved from.
+  const auto &counts = this->count_per_class;
+  int idx = std::distance(counts.begin(),
+                          std::max_element(counts.begin(), counts.end()));
   predicted_class = *std::next(DT.classes.begin(), idx);
 }
 
-- 
2.43.0


From 399ad52dde5406a329ff784642105f10bd0f5f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:41 +0000
Subject: [PATCH 02/39] fix: split thresholds separate adjacent and huge
 feature values

The midpoint was computed in float, so it overflowed to infinity for large
values, and it rounded to the left value for adjacent floats, which sent the
left sample to the right child.
---
 src/models/impl/DecisionTreeImpl.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index f1a9ed1..8a98b7a 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -355,7 +355,13 @@ std::tuple<float, Iterator, size_t, float> DecisionTreeImpl::split(
       min_gini = g;
       split_it = It;
       split_feature_idx = feature_idx;
-      split_threshold = (feature_val_left + feature_val_right) / 2.0;
+      // Compute in double, the float sum of large values overflows.
+      split_threshold =
+          ((double)feature_val_left + (double)feature_val_right) / 2.0;
+      // The midpoint of adjacent values may round down to the left value,
+      // which then would not be less than the threshold.
+      if (split_threshold <= feature_val_left)
+        split_threshold = feature_val_right;
     }
   }
 
-- 
2.43.0


From 8f2faf5450270085295a046c498623a68ca26513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:41 +0000
Subject: [PATCH 03/39] fix: loading or retraining a decision tree replaces its
 classes and data

Classes of an earlier training or load were kept, so that saving a loaded tree
read count_per_class out of bounds and stored data of both trees.
---
 src/models/impl/DecisionTreeImpl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 8a98b7a..fc67674 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -56,6 +56,7 @@ void DecisionTreeImpl::train(std::vector<std::vector<float>> &features,
 {
   // Assumes all feature vectors are of equal size.
   num_features = features.begin()->size();
+  classes.clear();
   classes.insert(responses.begin(), responses.end());
   data.clear();
   for (size_t i = 0, end = features.size(); i < end; ++i)
@@ -605,6 +606,10 @@ void DecisionTreeImpl::parse_tree(std::istream &is)
 {
   Parser parser(is);
 
+  // Replace any previously trained or loaded tree.
+  classes.clear();
+  data.clear();
+
   parser.getNextToken();
   parser.parseExpected("tree:");
 
-- 
2.43.0


From 005a0ffc45e1cde4867e0f1f4a036d1f2a28c749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:34 +0000
Subject: [PATCH 04/39] fix: store datasets with more than one feature so that
 they can be loaded

The feature values were written without a separating space, which the parser
takes as a single token and rejects.
---
 src/Dataset.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Dataset.cpp b/src/Dataset.cpp
index 045f92a..5588c46 100644
--- a/src/Dataset.cpp
+++ b/src/Dataset.cpp
@@ -101,8 +101,8 @@ void Apollo::Dataset::store(std::ostream &os)
     const auto &metric = d.second;
     os << "  " << idx << ": { features: [ ";
     for (auto &f : features)
-      os << float(f) << ",";
-    os << " ], ";
+      os << float(f) << ", ";
+    os << "], ";
     os << "policy: " << policy << ", ";
     os << "xtime: " << metric;
     os << " },\n";
-- 
2.43.0


From 37f02e7c0e6cb422b88355703b3210a7b27cbdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:34 +0000
Subject: [PATCH 05/39] fix: store datasets with the precision to load back the
 same values

Six digits lose features above a million, merge close ones and change the
metrics, so that a later run started from different measurements.
---
 src/Dataset.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Dataset.cpp b/src/Dataset.cpp
index 5588c46..df9e5a7 100644
--- a/src/Dataset.cpp
+++ b/src/Dataset.cpp
@@ -5,6 +5,8 @@
 
 #include "apollo/Dataset.h"
 
+#include <limits>
+
 #include "helpers/Parser.h"
 
 size_t Apollo::Dataset::size() { return data.size(); }
@@ -93,6 +95,8 @@ void Apollo::Dataset::findMinMetricPolicyByFeatures(
 
 void Apollo::Dataset::store(std::ostream &os)
 {
+  // Use enough digits to load back the exact values.
+  const auto precision = os.precision();
   os << "data: {\n";
   int idx = 0;
   for (auto &d : data) {
@@ -100,15 +104,18 @@ void Apollo::Dataset::store(std::ostream &os)
     const auto &policy = d.first.second;
     const auto &metric = d.second;
     os << "  " << idx << ": { features: [ ";
+    os.precision(std::numeric_limits<float>::max_digits10);
     for (auto &f : features)
       os << float(f) << ", ";
     os << "], ";
     os << "policy: " << policy << ", ";
+    os.precision(std::numeric_limits<double>::max_digits10);
     os << "xtime: " << metric;
     os << " },\n";
     ++idx;
   }
   os << "}\n";
+  os.precision(precision);
 }
 
 void Apollo::Dataset::load(std::istream &is)
-- 
2.43.0


From db9fd1409eda3deb2a9c190dd179da1094620616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:34 +0000
Subject: [PATCH 06/39] fix: parse subnormal numbers in stored datasets and
 models

A stored value below the normal range made the load throw out_of_range.
---
 src/helpers/Parser.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/helpers/Parser.cpp b/src/helpers/Parser.cpp
index a6f48f7..770285e 100644
--- a/src/helpers/Parser.cpp
+++ b/src/helpers/Parser.cpp
@@ -1,5 +1,8 @@
 #include "helpers/Parser.h"
 
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
 #include <cstring>
 #include <iostream>
 #include <iterator>
@@ -94,20 +97,27 @@ void Parser::parse(int &val)
   token = &buffer[pos];
 }
 
+// std::stod/std::stof throw out_of_range for subnormal values, which are valid.
 template <>
 void Parser::parse(double &val)
 {
-  std::size_t pos;
-  val = std::stod(token, &pos);
-  token = &buffer[pos];
+  char *end;
+  errno = 0;
+  val = std::strtod(token, &end);
+  if (end == token || (errno == ERANGE && std::isinf(val)))
+    error("Expected a number but parsed \"" + std::string(token) + "\"");
+  token = end;
 }
 
 template <>
 void Parser::parse(float &val)
 {
-  std::size_t pos;
-  val = std::stof(token, &pos);
-  token = &buffer[pos];
+  char *end;
+  errno = 0;
+  val = std::strtof(token, &end);
+  if (end == token || (errno == ERANGE && std::isinf(val)))
+    error("Expected a number but parsed \"" + std::string(token) + "\"");
+  token = end;
 }
 
 
-- 
2.43.0


From 6cfef85af63729175ff1f7db4baf3d7b1224fcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:34 +0000
Subject: [PATCH 07/39] fix: store tree thresholds with the precision to load
 back the same tree

Six digits move thresholds, so that a reloaded model selected other policies
than the stored one.
---
 src/models/impl/DecisionTreeImpl.cpp | 3 +++
 src/models/impl/RandomForestImpl.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index fc67674..847e3d5 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -12,6 +12,7 @@
 #include <chrono>
 #include <cstdio>
 #include <iostream>
+#include <limits>
 #include <set>
 #include <sstream>
 #include <string>
@@ -183,6 +184,8 @@ DecisionTreeImpl::~DecisionTreeImpl()
 void DecisionTreeImpl::save(const std::string &filename)
 {
   std::ofstream ofs(filename, std::ofstream::out);
+  // Use enough digits to load back the exact values.
+  ofs.precision(std::numeric_limits<float>::max_digits10);
   OutputFormatter outfmt(ofs);
   outfmt << "# DecisionTreeImpl\n";
   output_tree(outfmt, "tree");
diff --git a/src/models/impl/RandomForestImpl.cpp b/src/models/impl/RandomForestImpl.cpp
index f5fd20f..d6ddb80 100644
--- a/src/models/impl/RandomForestImpl.cpp
+++ b/src/models/impl/RandomForestImpl.cpp
@@ -8,6 +8,7 @@
 #include <cassert>
 #include <chrono>
 #include <iostream>
+#include <limits>
 #include <random>
 #include <string>
 #include <vector>
@@ -103,6 +104,8 @@ void RandomForestImpl::output_rfc(OutputFormatter &outfmt)
 void RandomForestImpl::save(const std::string &filename)
 {
   std::ofstream ofs(filename, std::ofstream::out);
+  // Use enough digits to load back the exact values.
+  ofs.precision(std::numeric_limits<float>::max_digits10);
   OutputFormatter outfmt(ofs);
   outfmt << "# RandomForestImpl\n";
   output_rfc(outfmt);
-- 
2.43.0


From 70866dadcd0491990a4e8fc6b89cb11fddcf6a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:15 +0000
Subject: [PATCH 08/39] fix: retraining or loading a random forest replaces its
 trees

The trees of the earlier training or load kept voting, and the stored forest
had more trees than its num_trees, which made loading it abort.
---
 src/models/impl/RandomForestImpl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/models/impl/RandomForestImpl.cpp b/src/models/impl/RandomForestImpl.cpp
index d6ddb80..a42a909 100644
--- a/src/models/impl/RandomForestImpl.cpp
+++ b/src/models/impl/RandomForestImpl.cpp
@@ -35,6 +35,8 @@ void RandomForestImpl::train(std::vector<std::vector<float>> &features,
   std::mt19937 generator;
   std::uniform_int_distribution<size_t> uniform_dist(0, features.size() - 1);
 
+  // Replace any previously trained or loaded forest.
+  rfc.clear();
   for (unsigned i = 0; i < num_trees; i++) {
     std::vector<std::vector<float>> sample_features;
     std::vector<int> sample_responses;
@@ -126,6 +128,9 @@ void RandomForestImpl::parse_rfc(std::ifstream &ifs)
 {
   Parser parser(ifs);
 
+  // Replace any previously trained or loaded forest.
+  rfc.clear();
+
   parser.getNextToken();
   parser.parseExpected("rfc:");
 
-- 
2.43.0


From c6d3b946980252106ff674b30fcaa769b792c021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:15 +0000
Subject: [PATCH 09/39] fix: skip single-model training when there are no
 measurements

Training a tree or forest on the empty merged dataset accessed an empty
vector.
---
 src/Apollo.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Apollo.cpp b/src/Apollo.cpp
index 106ab2b..d0216a1 100644
--- a/src/Apollo.cpp
+++ b/src/Apollo.cpp
@@ -492,6 +492,9 @@ void Apollo::train(int step, bool doCollectPendingContexts)
       merged_dataset.insert(reg->dataset);
     }
 
+    // Nothing to train on.
+    if (merged_dataset.size() <= 0) return;
+
     // TODO: Each region trains its own identical, single model. Consider
     // training the single model once and share to regions using a
     // shared_ptr.
-- 
2.43.0


From 365b1d00eac36e884a2cbac586b464dff79f7948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:15 +0000
Subject: [PATCH 10/39] fix: loading a PolicyNet rejects bad files and drops
 cached probabilities

A missing, truncated or differently shaped file was silently accepted, leaving
a partly loaded network, and features selected before the load kept the
probabilities of the previous weights.
---
 src/models/PolicyNet.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/models/PolicyNet.cpp b/src/models/PolicyNet.cpp
index 6c2d2e3..5015180 100644
--- a/src/models/PolicyNet.cpp
+++ b/src/models/PolicyNet.cpp
@@ -10,6 +10,7 @@
 #include <fstream>
 #include <iostream>
 #include <numeric>
+#include <stdexcept>
 
 #include "helpers/OutputFormatter.h"
 #include "helpers/TimeTrace.h"
@@ -660,10 +661,17 @@ void PolicyNet::load(const std::string &filename)
   std::ifstream f(filename, std::ios::binary);
 
   // Check if the file was opened successfully.
-  if (!f) {
-    std::cerr << "Could not load model from " << filename << std::endl;
-    return;
-  }
+  if (!f) throw std::runtime_error("Could not load model from " + filename);
+
+  // Check that the file holds exactly a network of this shape.
+  std::streamoff size = sizeof(double) + sizeof(int);
+  for (auto *layer : {&net->layer1, &net->layer2, &net->layer3})
+    size += sizeof(double) * ((std::streamoff)layer->inputSize + 1) *
+            layer->outputSize;
+  f.seekg(0, std::ios::end);
+  if (f.tellg() != size)
+    throw std::runtime_error("Unexpected size of model file " + filename);
+  f.seekg(0, std::ios::beg);
 
   // Load the weights and biases of each layer from the save file.
   f.read((char *)net->layer1.weights,
@@ -682,6 +690,9 @@ void PolicyNet::load(const std::string &filename)
   f.read((char *)&trainCount, sizeof(int));
 
   f.close();
+
+  // Forget probabilities evaluated with the previous weights.
+  actionProbabilityMap.clear();
 }
 
 }  // end namespace apollo.
\ No newline at end of file
-- 
2.43.0


From 4ac87861fcaea0a8e9f7c481d80860cb5d1177fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:15 +0000
Subject: [PATCH 11/39] fix: wait for the timer of a synchronous execution
 before recording its metric

An uninitialized metric was recorded when the timer was not done yet.
---
 src/Region.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Region.cpp b/src/Region.cpp
index f264251..d2727d2 100644
--- a/src/Region.cpp
+++ b/src/Region.cpp
@@ -571,7 +571,9 @@ void Apollo::Region::end(Apollo::RegionContext *context)
   context->timer->stop();
   if (context == &sync_context) {
     double metric;
-    context->timer->isDone(metric);
+    // The application may have set an asynchronous timer, wait for its metric.
+    while (!context->timer->isDone(metric))
+      ;
     collectContext(context, metric);
     return;
   }
-- 
2.43.0


From 6f06dbe28402600e363e7ccb3dd78a5cbdf3b703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:15 +0000
Subject: [PATCH 12/39] fix: define ENABLE_CUDA and ENABLE_HIP when these
 options are on

The asynchronous timers were built but beginning a region with them aborted
because the code selecting them was compiled out.
---
 CMakeLists.txt | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CMakeLists.txt b/CMakeLists.txt
index a9865b4..3396721 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -127,12 +127,13 @@ if(ENABLE_CUDA)
   # TODO: Upgrade to CUDAToolkit for better handling, requires cmake 3.17+
   find_package(CUDA REQUIRED)
   include_directories(${CUDA_INCLUDE_DIRS})
+  add_definitions(-DENABLE_CUDA)
 endif()
 
 if(ENABLE_HIP)
   find_package(hip REQUIRED)
   include_directories(${HSA_HEADER})
-  add_definitions(-D__HIP_PLATFORM_AMD__)
+  add_definitions(-D__HIP_PLATFORM_AMD__ -DENABLE_HIP)
 endif()
 
 if(ENABLE_JIT_DTREE)
-- 
2.43.0


From 50ab3e550af12b2ccc29c5f16b57f500d90abc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:15 +0000
Subject: [PATCH 13/39] fix: compile the JIT function of a decision tree that
 is loaded from a file

Selecting with a loaded tree called an uninitialized or outdated function.
---
 src/models/impl/DecisionTreeImpl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 847e3d5..65b6747 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -41,9 +41,6 @@ DecisionTreeImpl::DecisionTreeImpl(int num_classes, std::string filename)
   ++unique_counter;
   unique_id = unique_counter;
   load(filename);
-#ifdef ENABLE_JIT_DTREE
-  compile_and_link_jit_evaluate_function();
-#endif
 }
 
 DecisionTreeImpl::DecisionTreeImpl(int num_classes, unsigned max_depth)
@@ -255,6 +252,9 @@ void DecisionTreeImpl::load(const std::string &filename)
   if (!ifs) throw std::runtime_error("Error loading file: " + filename);
   parse_tree(ifs);
   ifs.close();
+#ifdef ENABLE_JIT_DTREE
+  compile_and_link_jit_evaluate_function();
+#endif
 }
 
 template <typename Iterator>
-- 
2.43.0


From be2e38745262d7bff3216eb9e1d70ee2152093ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:15 +0000
Subject: [PATCH 14/39] fix: give every JIT compiled decision tree its own
 library

Retrained trees kept the function of the first training, because dlopen returns
the library that is already loaded under the same name, and processes running
at the same time loaded each other's trees.
---
 src/models/impl/DecisionTreeImpl.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 65b6747..33083dc 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -6,6 +6,7 @@
 #include "DecisionTreeImpl.h"
 
 #include <dlfcn.h>
+#include <unistd.h>
 
 #include <algorithm>
 #include <cassert>
@@ -122,8 +123,12 @@ void DecisionTreeImpl::generate_source(Node &node, OutputFormatter &source_fmt)
 void DecisionTreeImpl::compile_and_link_jit_evaluate_function()
 {
 #ifdef ENABLE_JIT_DTREE
-  std::string function_name =
-      std::string("_jit_eval_") + std::to_string(unique_id);
+  // Use a new name for every compilation, also across processes: dlopen returns
+  // the already loaded library when the name is the same.
+  unique_id = ++unique_counter;
+  std::string function_name = std::string("_jit_eval_") +
+                              std::to_string(getpid()) + "_" +
+                              std::to_string(unique_id);
   std::string shared_library_name =
       std::string("/tmp/") + function_name + std::string(".so");
   std::stringstream sstream;
@@ -140,15 +145,14 @@ void DecisionTreeImpl::compile_and_link_jit_evaluate_function()
   source_fmt << "}\n";
   --source_fmt;
   source_fmt << "}\n";
-  std::ofstream ofs(std::string("/tmp/" + function_name + std::string(".cpp")));
-  ofs << sstream.str() << std::endl;
-  ofs.close();
   std::string command = std::string("c++ -x c++ -O0 -shared -fPIC -o ") +
                         shared_library_name + std::string(" - << EOF\n") +
                         sstream.str() + std::string("EOF\n");
   system(command.c_str());
   // pclose(popen(command.c_str(), "r"));
   void *dynamic_linker = dlopen(shared_library_name.c_str(), RTLD_NOW);
+  // The loaded library stays mapped, the file is not needed any more.
+  std::remove(shared_library_name.c_str());
   if (!dynamic_linker) {
     std::cerr << "dlopen: " << dlerror() << std::endl;
     abort();
@@ -168,12 +172,6 @@ void DecisionTreeImpl::compile_and_link_jit_evaluate_function()
 
 DecisionTreeImpl::~DecisionTreeImpl()
 {
-  std::string function_name =
-      std::string("_jit_eval_") + std::to_string(unique_id);
-  std::string shared_library_name =
-      std::string("/tmp/") + function_name + std::string(".so");
-  std::remove(shared_library_name.c_str());
-
   for (Node *node : tree_nodes)
     delete node;
 }
-- 
2.43.0


From dcbd71f76e2d0973a55dd0f3017cf098b78fc1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:15 +0000
Subject: [PATCH 15/39] fix: compile JIT decision trees with the exact
 thresholds

Thresholds were emitted with six digits and compared in double, so that the
compiled tree selected other policies than the interpreted one.
---
 src/models/impl/DecisionTreeImpl.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 33083dc..1f2633b 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -103,8 +103,8 @@ void DecisionTreeImpl::generate_source(Node &node, OutputFormatter &source_fmt)
     return;
   }
 
-  source_fmt << "if (features[" & node.feature_idx & "] < " & node.threshold &
-      ") {\n";
+  source_fmt << "if (features[" & node.feature_idx & "] < (float)" &
+      node.threshold & ") {\n";
   if (node.left) {
     ++source_fmt;
     generate_source(*node.left, source_fmt);
@@ -132,6 +132,8 @@ void DecisionTreeImpl::compile_and_link_jit_evaluate_function()
   std::string shared_library_name =
       std::string("/tmp/") + function_name + std::string(".so");
   std::stringstream sstream;
+  // Use enough digits to compile the exact thresholds.
+  sstream.precision(std::numeric_limits<float>::max_digits10);
   OutputFormatter source_fmt(sstream);
   // source_fmt << "#include <cstdio>\n";
   source_fmt << "#include <vector>\n";
-- 
2.43.0


From 5e4647ea9ff97f5b7344ef06e7bd61a8c7b02602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:15 +0000
Subject: [PATCH 16/39] fix: creating a region does not trigger period-based
 training

With persistent datasets, creating a region counted as the 0-th execution of
the global or per-region period and trained this or the other regions.
---
 src/Region.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Region.cpp b/src/Region.cpp
index d2727d2..52738a0 100644
--- a/src/Region.cpp
+++ b/src/Region.cpp
@@ -322,8 +322,9 @@ Apollo::Region::Region(const int num_features,
     ifs.close();
 
     // Check if auto-training applies: min_training_data is set and dataset
-    // size is large enough.
-    autoTrain();
+    // size is large enough. Period-based training applies to executions.
+    if (0 < min_training_data && min_training_data <= dataset.size())
+      train(idx, /* doCollectPendingContexts */ false);
   }
 
   if (model_params.count("load-dataset")) {
-- 
2.43.0


From 794b892d8c1160135339de0cfe0a04ee90888d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:15 +0000
Subject: [PATCH 17/39] fix: CSV tracing of a region whose model is loaded by
 path

The path in the model string became part of the trace file name, which aborted
because such a directory does not exist.
---
 src/Region.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Region.cpp b/src/Region.cpp
index 52738a0..da99efc 100644
--- a/src/Region.cpp
+++ b/src/Region.cpp
@@ -381,8 +381,11 @@ Apollo::Region::Region(const int num_features,
   }
 
   if (Config::APOLLO_TRACE_CSV) {
+    // The model info may contain the path of a file to load.
+    std::string trace_info = model_info;
+    std::replace(trace_info.begin(), trace_info.end(), '/', '_');
     std::string fname(Config::APOLLO_OUTPUT_DIR + "/" +
-                      Config::APOLLO_TRACES_DIR + "/trace-" + model_info +
+                      Config::APOLLO_TRACES_DIR + "/trace-" + trace_info +
                       "-region-" + name + "-rank-" +
                       std::to_string(apollo->mpiRank) + ".csv");
     std::cout << "TRACE_CSV fname " << fname << std::endl;
-- 
2.43.0


From bdcf1c60810e0c5bd8e356164b04c4ee2ca1900a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:11 +0000
Subject: [PATCH 18/39] fix: reject tree files whose nodes do not fit the
 features and classes

---
 src/models/impl/DecisionTreeImpl.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 1f2633b..dc866f0 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -21,6 +21,7 @@
 #include <utility>
 #include <vector>
 
+#include "helpers/ErrorHandling.h"
 #include "helpers/Parser.h"
 
 int DecisionTreeImpl::unique_counter = 0;
@@ -591,6 +592,14 @@ DecisionTreeImpl::Node *DecisionTreeImpl::parse_node(Parser &parser)
 
   parser.parseExpected("},");
 
+  // Reject nodes that cannot be evaluated or stored.
+  if (feature_idx < -1 || feature_idx >= (int)num_features ||
+      (feature_idx == -1) != (!left && !right) || !left != !right)
+    fatal_error("Invalid feature index or children of tree node");
+  if (!classes.count(predicted_class) ||
+      count_per_class.size() != classes.size())
+    fatal_error("Invalid classes of tree node");
+
   Node *node = new Node(*this,
                         gini,
                         num_samples,
@@ -629,6 +638,8 @@ void DecisionTreeImpl::parse_tree(std::istream &is)
     int class_idx;
     parser.parse<int>(class_idx);
     parser.parseExpected(",");
+    if (class_idx < 0 || class_idx >= (int)num_classes)
+      fatal_error("Invalid class " + std::to_string(class_idx));
     classes.insert(class_idx);
   }
 
-- 
2.43.0


From 0ec9edbf636b397ec021168957dbb0ee0ffe3990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:24 +0000
Subject: [PATCH 19/39] fix: a malformed integer in a stored file is a parse
 error

The exception left a model that was being loaded half replaced.
---
 src/helpers/Parser.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/helpers/Parser.cpp b/src/helpers/Parser.cpp
index 770285e..f431b5a 100644
--- a/src/helpers/Parser.cpp
+++ b/src/helpers/Parser.cpp
@@ -7,6 +7,7 @@
 #include <iostream>
 #include <iterator>
 #include <limits>
+#include <stdexcept>
 
 #include "helpers/ErrorHandling.h"
 
@@ -92,8 +93,12 @@ void Parser::parseExpected(const char *expected)
 template <>
 void Parser::parse(int &val)
 {
-  std::size_t pos;
-  val = std::stoi(token, &pos);
+  std::size_t pos = 0;
+  try {
+    val = std::stoi(token, &pos);
+  } catch (const std::logic_error &) {
+    error("Expected an integer but parsed \"" + std::string(token) + "\"");
+  }
   token = &buffer[pos];
 }
 
@@ -124,8 +129,12 @@ void Parser::parse(float &val)
 template <>
 void Parser::parse(unsigned int &val)
 {
-  std::size_t pos;
-  val = std::stoul(token, &pos);
+  std::size_t pos = 0;
+  try {
+    val = std::stoul(token, &pos);
+  } catch (const std::logic_error &) {
+    error("Expected an integer but parsed \"" + std::string(token) + "\"");
+  }
   token = &buffer[pos];
 }
 
@@ -133,7 +142,11 @@ void Parser::parse(unsigned int &val)
 template <>
 void Parser::parse(unsigned long &val)
 {
-  std::size_t pos;
-  val = std::stoull(token, &pos);
+  std::size_t pos = 0;
+  try {
+    val = std::stoull(token, &pos);
+  } catch (const std::logic_error &) {
+    error("Expected an integer but parsed \"" + std::string(token) + "\"");
+  }
   token = &buffer[pos];
 }
-- 
2.43.0


From 46a4188f02b25886142ec3223aff4d73487a80d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:24 +0000
Subject: [PATCH 20/39] fix: a model whose load fails keeps its state

---
 src/models/DecisionTree.cpp          | 2 +-
 src/models/RandomForest.cpp          | 2 +-
 src/models/impl/RandomForestImpl.cpp | 9 +++++++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/models/DecisionTree.cpp b/src/models/DecisionTree.cpp
index 06d72d9..6a7d04a 100644
--- a/src/models/DecisionTree.cpp
+++ b/src/models/DecisionTree.cpp
@@ -121,8 +121,8 @@ int DecisionTree::getIndex(std::vector<float> &features)
 
 void DecisionTree::load(const std::string &filename)
 {
-  trainable = false;
   dtree->load(filename);
+  trainable = false;
 }
 void DecisionTree::store(const std::string &filename) { dtree->save(filename); }
 
diff --git a/src/models/RandomForest.cpp b/src/models/RandomForest.cpp
index 4267c3c..13a3e8d 100644
--- a/src/models/RandomForest.cpp
+++ b/src/models/RandomForest.cpp
@@ -125,8 +125,8 @@ int RandomForest::getIndex(std::vector<float> &features)
 
 void RandomForest::load(const std::string &filename)
 {
-  trainable = false;
   rfc->load(filename);
+  trainable = false;
 }
 void RandomForest::store(const std::string &filename) { rfc->save(filename); }
 
diff --git a/src/models/impl/RandomForestImpl.cpp b/src/models/impl/RandomForestImpl.cpp
index a42a909..5820be4 100644
--- a/src/models/impl/RandomForestImpl.cpp
+++ b/src/models/impl/RandomForestImpl.cpp
@@ -128,8 +128,8 @@ void RandomForestImpl::parse_rfc(std::ifstream &ifs)
 {
   Parser parser(ifs);
 
-  // Replace any previously trained or loaded forest.
-  rfc.clear();
+  unsigned num_trees;
+  unsigned max_depth;
 
   parser.getNextToken();
   parser.parseExpected("rfc:");
@@ -160,6 +160,11 @@ void RandomForestImpl::parse_rfc(std::ifstream &ifs)
   parser.getNextToken();
   parser.parseExpected("[");
 
+  // Replace any previously trained or loaded forest.
+  rfc.clear();
+  this->num_trees = num_trees;
+  this->max_depth = max_depth;
+
   for (int i = 0; i < num_trees; ++i) {
     rfc.push_back(std::make_unique<DecisionTreeImpl>(num_classes, ifs));
     parser.getNextToken();
-- 
2.43.0


From d31267e5b8bb1cee98e5744d51249ef232230989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:36 +0000
Subject: [PATCH 21/39] fix: reject dataset files whose entries do not fit the
 region

---
 src/Region.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/Region.cpp b/src/Region.cpp
index da99efc..ba473b1 100644
--- a/src/Region.cpp
+++ b/src/Region.cpp
@@ -35,6 +35,19 @@ static inline bool fileExists(std::string path)
   return (stat(path.c_str(), &stbuf) == 0);
 }
 
+// Load a dataset and reject entries that cannot belong to the region.
+static void loadDataset(Apollo::Dataset &dataset,
+                        std::istream &is,
+                        int num_features,
+                        int num_policies)
+{
+  dataset.load(is);
+  for (const auto &measure : dataset.toVectorOfTuples())
+    if ((int)std::get<0>(measure).size() != num_features ||
+        std::get<1>(measure) < 0 || std::get<1>(measure) >= num_policies)
+      fatal_error("Dataset entry does not fit the features or policies");
+}
+
 void Apollo::Region::train(int step, bool doCollectPendingContexts, bool force)
 {
   if (!force)
@@ -318,7 +331,7 @@ Apollo::Region::Region(const int num_features,
                                Config::APOLLO_DATASETS_DIR + "/Dataset-" +
                                std::string(name) + ".yaml";
     std::ifstream ifs(dataset_file);
-    if (ifs) dataset.load(ifs);
+    if (ifs) loadDataset(dataset, ifs, num_features, num_policies);
     ifs.close();
 
     // Check if auto-training applies: min_training_data is set and dataset
@@ -338,7 +351,7 @@ Apollo::Region::Region(const int num_features,
       abort();
     }
 
-    dataset.load(ifs);
+    loadDataset(dataset, ifs, num_features, num_policies);
 
     if (dataset.size() <= 0) fatal_error("dataset size is 0");
 
@@ -371,7 +384,7 @@ Apollo::Region::Region(const int num_features,
       abort();
     }
 
-    dataset.load(ifs);
+    loadDataset(dataset, ifs, num_features, num_policies);
 
     ifs.close();
 
-- 
2.43.0


From 0d69f753255a08e7878ef7b347e6bdc14aadc68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:05 +0000
Subject: [PATCH 22/39] fix: Kokkos tuning ranges only yield values inside
 their bounds

The branches for open and closed lower bounds were swapped, so that integer
ranges tried values beyond their bounds, ranges with an open lower bound tried
that bound, closed upper bounds of real ranges were never tried, and all
candidates of a continuous range were its lower bound.
---
 src/connectors/kokkos/kokkos-connector.cpp | 58 ++++++++++++++--------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index d244366..35d5741 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -54,7 +54,6 @@
 using namespace Kokkos::Tools::Experimental;
 
 constexpr const int64_t slice_continuous = 100;
-constexpr const double epsilon = 1E-24;
 int flush_interval = 500;
 using valunion =
     decltype(std::declval<Kokkos::Tools::Experimental::VariableValue>().value);
@@ -70,9 +69,18 @@ struct VariableDatabaseData {
   valunion maximum;
   Kokkos::Tools::Experimental::VariableValue *candidate_values;
 };
-int64_t slice_helper(double upper, double lower, double step)
+int64_t slice_helper(double upper,
+                     double lower,
+                     double step,
+                     bool open_lower,
+                     bool open_upper)
 {
-  return ((upper - lower) / step);
+  double first = lower + (open_lower ? step : 0.0);
+  if (first > upper) return 0;
+  int64_t count = 1 + static_cast<int64_t>((upper - first) / step);
+  double last = first + (count - 1) * step;
+  if (last > upper || (open_upper && last >= upper)) --count;
+  return count;
 }
 static size_t num_unconverged_regions;
 
@@ -81,24 +89,23 @@ int64_t count_range_slices(Kokkos::Tools::Experimental::ValueRange &in,
 {
   switch (type) {
     case ValueType::kokkos_value_int64:
-      return 1 + ((((!in.openUpper) ? in.upper.int_value
-                                    : (in.upper.int_value - 1)) -
-                   ((!in.openLower) ? in.lower.int_value
-                                    : (in.lower.int_value + 1))) /
-                  in.step.int_value);
+    {
+      // The points are lower + k * step, without a bound that is open.
+      int64_t first = in.lower.int_value + (in.openLower ? in.step.int_value : 0);
+      int64_t last = in.upper.int_value - (in.openUpper ? 1 : 0);
+      return (last < first) ? 0 : 1 + (last - first) / in.step.int_value;
+    }
     case ValueType::kokkos_value_double:
       return (in.step.double_value ==
               0.0)  // intentional comparison to double value 0.0, this
                     // shouldn't be a calculated value, but a value that has
                     // been set to the literal 0.0
                  ? slice_continuous
-                 : slice_helper(in.openUpper
-                                    ? in.upper.double_value
-                                    : (in.upper.double_value - epsilon),
-                                in.openLower
-                                    ? in.lower.double_value
-                                    : (in.lower.double_value + epsilon),
-                                in.step.double_value);
+                 : slice_helper(in.upper.double_value,
+                                in.lower.double_value,
+                                in.step.double_value,
+                                in.openLower,
+                                in.openUpper);
     case ValueType::kokkos_value_string:
       // TODO: error mechanism?
       return -1;
@@ -166,19 +173,28 @@ void form_set_from_range(Kokkos::Tools::Experimental::VariableValue *fill_this,
     for (int x = 0; x < num_slices; ++x) {
       auto lower =
           (with_this.openLower
-               ? with_this.lower.int_value
-               : (with_this.lower.int_value + with_this.step.int_value));
+               ? (with_this.lower.int_value + with_this.step.int_value)
+               : with_this.lower.int_value);
       Kokkos_Tools_VariableValue_ValueUnion value;
       value.int_value = lower + (x * with_this.step.int_value);
       fill_this[x] = mvv(id, value, info);
     }
   } else if (info->type == ValueType::kokkos_value_double) {
     for (int x = 0; x < num_slices; ++x) {
-      auto lower =
-          (with_this.openLower ? with_this.lower.double_value
-                               : (with_this.lower.double_value + epsilon));
       Kokkos_Tools_VariableValue_ValueUnion value;
-      value.double_value = lower + (x * with_this.step.double_value);
+      if (with_this.step.double_value == 0.0) {
+        // The middle of each slice, as either bound may be open.
+        value.double_value =
+            with_this.lower.double_value +
+            (x + 0.5) *
+                ((with_this.upper.double_value - with_this.lower.double_value) /
+                 num_slices);
+      } else {
+        auto lower = (with_this.openLower ? (with_this.lower.double_value +
+                                             with_this.step.double_value)
+                                          : with_this.lower.double_value);
+        value.double_value = lower + (x * with_this.step.double_value);
+      }
       fill_this[x] = mvv(id, value, info);
     }
   }
-- 
2.43.0


From 7646ee7d82c57435addd0897b3d421fe7154350b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:05 +0000
Subject: [PATCH 23/39] fix: terminate long names of Kokkos variables

strncpy leaves names of 64 or more characters unterminated.
---
 src/connectors/kokkos/kokkos-connector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index 35d5741..ef096e1 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -443,6 +443,7 @@ extern "C" void kokkosp_declare_output_type(
   auto *metadata = new VariableDatabaseData();
   metadata->name = (char *)malloc(sizeof(char) * 65);
   strncpy(metadata->name, name, 64);
+  metadata->name[64] = '\0';
   info->toolProvidedInfo = metadata;
   associate_candidates(id, info);
 }
@@ -455,6 +456,7 @@ extern "C" void kokkosp_declare_input_type(
   auto *metadata = new VariableDatabaseData();
   metadata->name = (char *)malloc(sizeof(char) * 65);
   strncpy(metadata->name, name, 64);
+  metadata->name[64] = '\0';
   info->toolProvidedInfo = metadata;
 }
 
-- 
2.43.0


From 34cad39b7f32b6e87cfa58608db2238651dd1a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:05 +0000
Subject: [PATCH 24/39] fix: Kokkos connector options that are not given are
 off, not uninitialized

---
 src/connectors/kokkos/kokkos-connector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index ef096e1..46b6664 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -282,7 +282,7 @@ struct options {
 
 extern "C" void kokkosp_parse_args(int argc, char **argv)
 {
-  options parsed_options;
+  options parsed_options{};
   for (int x = 0; x < argc; ++x) {
     std::string arg(argv[x]);
     if (arg == "--disable_retrain") {
-- 
2.43.0


From 0c20d571cd25e1c76dcebf9151cafc82d95e987d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:05 +0000
Subject: [PATCH 25/39] fix: Kokkos requests that cannot be tuned leave the
 values alone

A tuning variable without candidates (unbounded or with an empty range)
divided by zero, and too many choices overflowed the number of policies.
---
 src/connectors/kokkos/kokkos-connector.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index 46b6664..019e434 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -536,8 +536,14 @@ extern "C" void kokkosp_request_values(
     auto *metadata = reinterpret_cast<VariableDatabaseData *>(
         tuningValues[x].metadata->toolProvidedInfo);
     auto set_size = metadata->candidate_set_size;
+    if (set_size <= 0) {
+      printf("Apollo Tuner: variable %s has no candidate values\n",
+             metadata->name);
+      return;
+    }
     if (choiceSpaceSize > max_choices / set_size) {
       printf("Apollo Tuner: too many choices\n");
+      return;
     }
     choiceSpaceSize *= set_size;
   }
-- 
2.43.0


From 4680d95ea6469a843ecacdd0bbaecc3b092bf191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:05 +0000
Subject: [PATCH 26/39] fix: Kokkos requests with more than 50 variables do not
 overflow the variable set

---
 src/connectors/kokkos/kokkos-connector.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index 019e434..d0d4252 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -547,6 +547,10 @@ extern "C" void kokkosp_request_values(
     }
     choiceSpaceSize *= set_size;
   }
+  if (numContextVariables + numTuningVariables > max_variables) {
+    printf("Apollo Tuner: too many variables\n");
+    return;
+  }
   variableSet tuningProblem;
   int numValidVariables = 0;
   for (int x = 0; x < numContextVariables; ++x) {
-- 
2.43.0


From 0cc6e9dddffa09d0aee52385b040ec44839a1cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:05 +0000
Subject: [PATCH 27/39] fix: Kokkos connector loads the stored model of a
 region

The file name was passed as the model string, which stops the program with an
unknown policy model.
---
 src/connectors/kokkos/kokkos-connector.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index d0d4252..0201524 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -578,6 +578,7 @@ extern "C" void kokkosp_request_values(
                                   name.c_str(),
                                   choiceSpaceSize,
                                   /* min_training_data */ 0,
+                                  "RandomForest",
                                   final_name);
     } else {
       region = new Apollo::Region(numContextVariables,
-- 
2.43.0


From 542f3a3463d0dca9d63687a9f2bb956f8d3ec283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:05 +0000
Subject: [PATCH 28/39] fix: Kokkos regions with long names keep their own
 stored models

Names were cut to 63 characters, so that tuning problems whose variable names
begin alike stored and loaded each other's models.
---
 src/connectors/kokkos/kokkos-connector.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index 0201524..99fd8cc 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -570,7 +570,11 @@ extern "C" void kokkosp_request_values(
     std::string suffix = ".yaml";
     std::string name = get_region_name(tuningProblem);
     constexpr const int apollo_user_file_length = 63;
-    name = name.substr(0, apollo_user_file_length);
+    // Keep cut names distinct: they identify the stored models.
+    if (name.size() > apollo_user_file_length) {
+      std::string id = std::to_string(std::hash<std::string>{}(name));
+      name = name.substr(0, apollo_user_file_length - 1 - id.size()) + "-" + id;
+    }
     std::string final_name = path + prefix + name + suffix;
     Apollo::Region *region;
     if (file_exists(final_name)) {
-- 
2.43.0


From 059ff35910e810ea6459d76de2eb3d4c90368fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:05 +0000
Subject: [PATCH 29/39] fix: Kokkos fences continue while regions without
 measurements are untrained

A flush trains only regions with measurements, but switched off the fences for
the later measurements of all others.
---
 src/connectors/kokkos/kokkos-connector.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index 99fd8cc..ed19bb9 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -629,6 +629,8 @@ extern "C" void kokkosp_end_context(size_t contextId)
   static int encounter;
   if ((++encounter % flush_interval) == 0) {
     apolloRuntime->flushAllRegionMeasurements(0);
-    num_unconverged_regions = 0;  // TODO: better
+    num_unconverged_regions = 0;
+    for (const auto &kv : tuning_regions)
+      if (kv.second.second->model->isTrainable()) ++num_unconverged_regions;
   }
 }
-- 
2.43.0


From 5768116032f4206599e6ea7023de07b69026c267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:45 +0000
Subject: [PATCH 30/39] fix: Kokkos connector looks for stored models in the
 configured directory

---
 src/connectors/kokkos/kokkos-connector.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index ed19bb9..b382b08 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -31,6 +31,7 @@
 */
 
 #include <apollo/Apollo.h>
+#include <apollo/Config.h>
 #include <apollo/Region.h>
 #include <sys/stat.h>
 
@@ -565,7 +566,8 @@ extern "C" void kokkosp_request_values(
   auto iter =
       tuning_regions.emplace(tuningProblem, std::make_pair("", nullptr));
   if (iter.second) {
-    std::string path = ".apollo/models/";
+    std::string path =
+        Config::APOLLO_OUTPUT_DIR + "/" + Config::APOLLO_MODELS_DIR + "/";
     std::string prefix = "RandomForest-step-0-rank-0-";
     std::string suffix = ".yaml";
     std::string name = get_region_name(tuningProblem);
-- 
2.43.0


From 29bb9eb31103b4d2452641e0bed9c421fda230f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:47 +0000
Subject: [PATCH 31/39] fix: Kokkos variables whose names differ after 64
 characters stay distinct

Regions are named after their variables, so that cut names make different
variable sets share their stored models and datasets.
---
 src/connectors/kokkos/kokkos-connector.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index b382b08..80aab2e 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -442,9 +442,7 @@ extern "C" void kokkosp_declare_output_type(
     Kokkos::Tools::Experimental::VariableInfo *info)
 {
   auto *metadata = new VariableDatabaseData();
-  metadata->name = (char *)malloc(sizeof(char) * 65);
-  strncpy(metadata->name, name, 64);
-  metadata->name[64] = '\0';
+  metadata->name = strdup(name);
   info->toolProvidedInfo = metadata;
   associate_candidates(id, info);
 }
@@ -455,9 +453,7 @@ extern "C" void kokkosp_declare_input_type(
     Kokkos::Tools::Experimental::VariableInfo *info)
 {
   auto *metadata = new VariableDatabaseData();
-  metadata->name = (char *)malloc(sizeof(char) * 65);
-  strncpy(metadata->name, name, 64);
-  metadata->name[64] = '\0';
+  metadata->name = strdup(name);
   info->toolProvidedInfo = metadata;
 }
 
-- 
2.43.0


From d9e105683c147a972a8a99a5ebc06d86b603cf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:10 +0000
Subject: [PATCH 32/39] fix: the parser does not read past the end of a
 truncated file

Incrementing a stream iterator at the end of the file dereferences a null
stream buffer.
---
 src/helpers/Parser.cpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/helpers/Parser.cpp b/src/helpers/Parser.cpp
index f431b5a..5efaf3c 100644
--- a/src/helpers/Parser.cpp
+++ b/src/helpers/Parser.cpp
@@ -24,22 +24,20 @@ const char *Parser::getNextToken()
   std::istreambuf_iterator<char> end;
 
   int idx = 0;
-  if (it != end) {
-    while (std::isspace(*it))
-      ++it;
-
-    while (*it == '#') {
-      is.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
-      while (std::isspace(*it))
-        ++it;
-    }
+  while (it != end && std::isspace(*it))
+    ++it;
 
-    while (!std::isspace(*it)) {
-      buffer[idx] = *it;
-      ++idx;
+  while (it != end && *it == '#') {
+    is.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
+    while (it != end && std::isspace(*it))
       ++it;
-      if (idx >= BUFSIZE) fatal_error("Token exceeds buffer size");
-    }
+  }
+
+  while (it != end && !std::isspace(*it)) {
+    buffer[idx] = *it;
+    ++idx;
+    ++it;
+    if (idx >= BUFSIZE) fatal_error("Token exceeds buffer size");
   }
   buffer[idx] = '\0';
 
-- 
2.43.0


From e5b6de641f88c988ec23607a2f916c8487df2185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:21 +0000
Subject: [PATCH 33/39] fix: garbage after the last number of a stored entry is
 a parse error

---
 src/Dataset.cpp                      | 1 +
 src/models/impl/DecisionTreeImpl.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/Dataset.cpp b/src/Dataset.cpp
index df9e5a7..77aba31 100644
--- a/src/Dataset.cpp
+++ b/src/Dataset.cpp
@@ -162,6 +162,7 @@ void Apollo::Dataset::load(std::istream &is)
     parser.parseExpected("xtime:");
     parser.getNextToken();
     parser.parse<double>(xtime);
+    parser.parseExpected("");
 
     parser.getNextToken();
     parser.parseExpected("},");
diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index dc866f0..6abdf06 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -535,6 +535,7 @@ void DecisionTreeImpl::parse_data(Parser &parser)
 
     parser.getNextToken();
     parser.parse(response);
+    parser.parseExpected("");
 
     data.emplace_back(std::move(features), response);
 
-- 
2.43.0


From 9cc44d175d271b03c3e28fddb914709ce9667aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:00 +0000
Subject: [PATCH 34/39] fix: JIT compile decision trees larger than a command
 line

---
 src/models/impl/DecisionTreeImpl.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 6abdf06..2ddff33 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -149,10 +149,13 @@ void DecisionTreeImpl::compile_and_link_jit_evaluate_function()
   --source_fmt;
   source_fmt << "}\n";
   std::string command = std::string("c++ -x c++ -O0 -shared -fPIC -o ") +
-                        shared_library_name + std::string(" - << EOF\n") +
-                        sstream.str() + std::string("EOF\n");
-  system(command.c_str());
-  // pclose(popen(command.c_str(), "r"));
+                        shared_library_name + std::string(" -");
+  // Pipe the source: a large tree exceeds the limit of a command line.
+  std::string source = sstream.str();
+  if (FILE *compiler = popen(command.c_str(), "w")) {
+    fwrite(source.data(), 1, source.size(), compiler);
+    pclose(compiler);
+  }
   void *dynamic_linker = dlopen(shared_library_name.c_str(), RTLD_NOW);
   // The loaded library stays mapped, the file is not needed any more.
   std::remove(shared_library_name.c_str());
-- 
2.43.0


From 7e962aeccbd707a24d2b8f36458510bec34b406e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:10 +0000
Subject: [PATCH 35/39] fix: PolicyNet training on large datasets does not
 overflow the stack

---
 src/models/PolicyNet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/PolicyNet.cpp b/src/models/PolicyNet.cpp
index 5015180..1470181 100644
--- a/src/models/PolicyNet.cpp
+++ b/src/models/PolicyNet.cpp
@@ -287,7 +287,7 @@ public:
 
     // Compute the maximum of each previous layer for each sample. This is used
     // to improve numerical stability.
-    double alpha[batchSize];
+    std::vector<double> alpha(batchSize);
     for (int i = 0; i < batchSize; ++i) {
       alpha[i] = inputs[i * outputSize];
       for (int j = 0; j < outputSize; ++j) {
-- 
2.43.0


From 1f36928161ad5b6105933faf56f4d7079a1b3bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:04 +0000
Subject: [PATCH 36/39] fix: a loaded tree or forest of another number of
 features read past the feature vector

---
 src/models/impl/DecisionTreeImpl.cpp | 6 ++++++
 src/models/impl/DecisionTreeImpl.h   | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 2ddff33..bc0590e 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -56,6 +56,7 @@ void DecisionTreeImpl::train(std::vector<std::vector<float>> &features,
 {
   // Assumes all feature vectors are of equal size.
   num_features = features.begin()->size();
+  loaded = false;
   classes.clear();
   classes.insert(responses.begin(), responses.end());
   data.clear();
@@ -195,6 +196,10 @@ void DecisionTreeImpl::save(const std::string &filename)
 
 int DecisionTreeImpl::predict(const std::vector<float> &features)
 {
+  // A loaded tree may have been trained for other features.
+  if (loaded && features.size() != num_features)
+    fatal_error("Number of features does not fit the decision tree");
+
 #ifdef ENABLE_JIT_DTREE
   return jit_evaluate_function(features);
 #else
@@ -656,4 +661,5 @@ void DecisionTreeImpl::parse_tree(std::istream &is)
 
   parser.getNextToken();
   parser.parseExpected("}");
+  loaded = true;
 }
diff --git a/src/models/impl/DecisionTreeImpl.h b/src/models/impl/DecisionTreeImpl.h
index 436855a..a471a9a 100644
--- a/src/models/impl/DecisionTreeImpl.h
+++ b/src/models/impl/DecisionTreeImpl.h
@@ -109,6 +109,7 @@ private:
   std::set<int> classes;
   Node *root;
   unsigned num_features;
+  bool loaded = false;
   unsigned max_depth;
   unsigned num_classes;
   unsigned unique_id;
-- 
2.43.0


From 2b1912dbbe8f922e7d1e8da25e1886bb66a9bf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:10 +0000
Subject: [PATCH 37/39] fix: collecting a pending execution cleared the
 region's current execution

---
 src/Region.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Region.cpp b/src/Region.cpp
index ba473b1..e910d32 100644
--- a/src/Region.cpp
+++ b/src/Region.cpp
@@ -548,8 +548,9 @@ void Apollo::Region::collectContext(Apollo::RegionContext *context,
 
   autoTrain();
 
+  // Collecting an earlier execution must not end the current one.
+  if (current_context == context) current_context = nullptr;
   destroyRegionContext(context);
-  current_context = nullptr;
 }
 
 void Apollo::Region::end(Apollo::RegionContext *context, double metric)
-- 
2.43.0


From 2f22c40dd8a2d5486b91e18460224fd53c118493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:45 +0000
Subject: [PATCH 38/39] fix: a forest over as many policies as Kokkos allows
 does not overflow the stack

---
 src/models/impl/RandomForestImpl.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/models/impl/RandomForestImpl.cpp b/src/models/impl/RandomForestImpl.cpp
index 5820be4..62c37fe 100644
--- a/src/models/impl/RandomForestImpl.cpp
+++ b/src/models/impl/RandomForestImpl.cpp
@@ -188,9 +188,7 @@ void RandomForestImpl::load(const std::string &filename)
 int RandomForestImpl::predict(const std::vector<float> &features)
 {
   // Predict by majority vote over all decision trees.
-  int count_per_class[num_classes];
-  for (size_t i = 0; i < num_classes; ++i)
-    count_per_class[i] = 0;
+  std::vector<int> count_per_class(num_classes, 0);
 
   for (auto &dtree : rfc) {
     int dtree_prediction = dtree->predict(features);
-- 
2.43.0


From d8be9c83472c2288677f1d80dd41a40105b67243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:45 +0000
Subject: [PATCH 39/39] fix: call-path identifiers of programs below
 directories with brackets

---
 src/Apollo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Apollo.cpp b/src/Apollo.cpp
index d0216a1..a484694 100644
--- a/src/Apollo.cpp
+++ b/src/Apollo.cpp
@@ -109,7 +109,7 @@ std::string Apollo::getCallpathOffset(int walk_distance)
   module_name = module_name.substr(module_name.find_last_of("/\\") + 1);
   module_name = module_name.substr(0, module_name.find_last_of('('));
   std::string addr = stack_info.substr(stack_info.find(' '));
-  unsigned start = addr.find_first_of('[') + 1;
+  unsigned start = addr.find_last_of('[') + 1;
   unsigned end = addr.find_last_of(']');
   addr = addr.substr(start, end - start);
   std::string region_id = module_name + "@" + addr;
-- 
2.43.0

