From e9e96bfaa8799a5d93e1644b2aa29aa483f6dc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:12 +0000
Subject: [PATCH 01/26] fix: initialize the state of a pool worker before
 starting its thread

The thread was declared before the atomic it polls, hence a worker could read
the pointer to the tasks before its initialization.
---
 src/header/EasyFactorGraph/structure/bases/PoolAware.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/header/EasyFactorGraph/structure/bases/PoolAware.h b/src/header/EasyFactorGraph/structure/bases/PoolAware.h
index 4577a51..fa3d812 100644
--- a/src/header/EasyFactorGraph/structure/bases/PoolAware.h
+++ b/src/header/EasyFactorGraph/structure/bases/PoolAware.h
@@ -40,9 +40,9 @@ private:
   struct Worker {
     Worker(std::size_t th_id, Context &context);
 
-    std::thread loop;
-
     std::atomic<const Tasks *> to_process = nullptr;
+
+    std::thread loop; // keep it last: it uses the other members
   };
   using WorkerPtr = std::unique_ptr<Worker>;
   std::vector<WorkerPtr> workers;
-- 
2.43.0


From e46c5a7515c2091d7e9f6d203456bf1b703d6672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:30 +0000
Subject: [PATCH 02/26] fix: forward exceptions thrown by the tasks of a pool
 to the caller

An exception on a worker terminated the process, while one on the calling
thread let parallelFor unwind when the workers were still using the tasks.
---
 .../structure/bases/PoolAware.h               |  6 +++++
 src/src/structure/bases/PoolAware.cpp         | 22 +++++++++++++++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/header/EasyFactorGraph/structure/bases/PoolAware.h b/src/header/EasyFactorGraph/structure/bases/PoolAware.h
index fa3d812..840a60d 100644
--- a/src/header/EasyFactorGraph/structure/bases/PoolAware.h
+++ b/src/header/EasyFactorGraph/structure/bases/PoolAware.h
@@ -8,6 +8,7 @@
 #pragma once
 
 #include <atomic>
+#include <exception>
 #include <functional>
 #include <mutex>
 #include <optional>
@@ -24,6 +25,8 @@ public:
   Pool(std::size_t size);
   ~Pool();
 
+  // if any task throws, (one of) the exception(s) is re-thrown here, after all
+  // the threads involved have stopped processing the passed tasks
   void parallelFor(const Tasks &tasks);
 
   std::size_t size() const { return ctxt.pool_size; }
@@ -32,6 +35,9 @@ private:
   struct Context {
     std::size_t pool_size;
     std::atomic_bool life = true;
+
+    std::mutex error_mtx;
+    std::exception_ptr error = nullptr; // first one thrown by a task
   };
   Context ctxt;
 
diff --git a/src/src/structure/bases/PoolAware.cpp b/src/src/structure/bases/PoolAware.cpp
index 151877e..4d4cb03 100644
--- a/src/src/structure/bases/PoolAware.cpp
+++ b/src/src/structure/bases/PoolAware.cpp
@@ -8,6 +8,8 @@
 #include <EasyFactorGraph/Error.h>
 #include <EasyFactorGraph/structure/bases/PoolAware.h>
 
+#include <utility>
+
 namespace EFG::strct {
 namespace {
 void process_tasks_in_parallel(const Tasks &subject,
@@ -17,13 +19,26 @@ void process_tasks_in_parallel(const Tasks &subject,
     subject[k](thread_id);
   }
 }
+
+template <typename ContextT>
+void process_tasks_and_catch(const Tasks &subject, ContextT &context,
+                             const std::size_t thread_id) {
+  try {
+    process_tasks_in_parallel(subject, context.pool_size, thread_id);
+  } catch (...) {
+    std::scoped_lock lock(context.error_mtx);
+    if (context.error == nullptr) {
+      context.error = std::current_exception();
+    }
+  }
+}
 } // namespace
 
 Pool::Worker::Worker(std::size_t th_id, Context &context)
     : loop([thread_id = th_id, &context = context, this]() {
         while (context.life.load()) {
           if (const Tasks *ptr = to_process.load(); ptr != nullptr) {
-            process_tasks_in_parallel(*ptr, context.pool_size, thread_id);
+            process_tasks_and_catch(*ptr, context, thread_id);
             to_process.store(nullptr);
           }
         }
@@ -54,7 +69,7 @@ void Pool::parallelFor(const std::vector<Task> &tasks) {
   for (auto &worker : workers) {
     worker->to_process.store(&tasks);
   }
-  process_tasks_in_parallel(tasks, ctxt.pool_size, 0);
+  process_tasks_and_catch(tasks, ctxt, 0);
   bool keep_wait;
   do {
     keep_wait = false;
@@ -65,6 +80,9 @@ void Pool::parallelFor(const std::vector<Task> &tasks) {
       }
     }
   } while (keep_wait);
+  if (auto error = std::exchange(ctxt.error, nullptr); error != nullptr) {
+    std::rethrow_exception(error);
+  }
 }
 
 PoolAware::PoolAware() { resetPool(); }
-- 
2.43.0


From 4ebc97e296c2414ddb1059f6a97f489cbf8d5afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:30 +0000
Subject: [PATCH 03/26] fix: survive failures in the creation of a pool

When a thread could not be spawned, the workers already running were destroyed
without being joined (terminate), while a failed setPoolSize left the owner
without any pool.
---
 .../structure/bases/PoolAware.h               |  2 ++
 src/src/structure/bases/PoolAware.cpp         | 21 +++++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/header/EasyFactorGraph/structure/bases/PoolAware.h b/src/header/EasyFactorGraph/structure/bases/PoolAware.h
index 840a60d..03812aa 100644
--- a/src/header/EasyFactorGraph/structure/bases/PoolAware.h
+++ b/src/header/EasyFactorGraph/structure/bases/PoolAware.h
@@ -32,6 +32,8 @@ public:
   std::size_t size() const { return ctxt.pool_size; }
 
 private:
+  void stop();
+
   struct Context {
     std::size_t pool_size;
     std::atomic_bool life = true;
diff --git a/src/src/structure/bases/PoolAware.cpp b/src/src/structure/bases/PoolAware.cpp
index 4d4cb03..50824aa 100644
--- a/src/src/structure/bases/PoolAware.cpp
+++ b/src/src/structure/bases/PoolAware.cpp
@@ -49,12 +49,20 @@ Pool::Pool(const std::size_t size) {
     throw Error{"Invalid Pool size"};
   }
   ctxt.pool_size = size;
-  for (std::size_t k = 1; k < size; ++k) {
-    workers.emplace_back(std::make_unique<Worker>(k, ctxt));
+  workers.reserve(size - 1);
+  try {
+    for (std::size_t k = 1; k < size; ++k) {
+      workers.emplace_back(std::make_unique<Worker>(k, ctxt));
+    }
+  } catch (...) {
+    stop(); // the workers already spawned
+    throw;
   }
 }
 
-Pool::~Pool() {
+Pool::~Pool() { stop(); }
+
+void Pool::stop() {
   ctxt.life.store(false);
   for (auto &worker : workers) {
     // if (worker->loop.joinable()) {
@@ -95,6 +103,11 @@ void PoolAware::setPoolSize(const std::size_t new_size) {
   if (new_size == pool->size()) {
     return;
   }
-  pool.emplace(new_size);
+  try {
+    pool.emplace(new_size);
+  } catch (...) {
+    resetPool(); // emplace left no pool
+    throw;
+  }
 }
 } // namespace EFG::strct
-- 
2.43.0


From cbdbbddde1c5f64c3148fb7e2046e1f5fd7b4c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:37 +0000
Subject: [PATCH 04/26] fix: compute messages along the right direction of a
 binary factor

The positions of the sender and of the recipient were swapped: a binary factor
that is not symmetric was used as transposed (and read out of bounds when the
two variables have different sizes).
---
 src/src/structure/SpecialFactors.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/src/structure/SpecialFactors.cpp b/src/src/structure/SpecialFactors.cpp
index d1f11a2..d470a10 100644
--- a/src/src/structure/SpecialFactors.cpp
+++ b/src/src/structure/SpecialFactors.cpp
@@ -144,8 +144,8 @@ void fill_message(const UnaryFactor &merged_unaries,
                   const Immutable &binary_factor, Function &recipient) {
   std::size_t message_pos;
   std::size_t sender_pos;
-  get_positions(binary_factor, merged_unaries.getVariable(), message_pos,
-                sender_pos);
+  get_positions(binary_factor, merged_unaries.getVariable(), sender_pos,
+                message_pos);
   std::size_t message_size =
       binary_factor.function().vars().getVariables()[message_pos]->size();
   for (std::size_t r = 0; r < message_size; ++r) {
-- 
2.43.0


From 0a8e4fe288785b8309ea07373c65a9bd7154184e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:08 +0000
Subject: [PATCH 05/26] fix: keep disabled the connections between a no more
 observed variable and the observed ones

Removing the evidence of a variable activated also the connections to variables
that are still observed: no message ever comes from them and the next query
dereferenced a null pointer.
---
 src/src/structure/EvidenceManager.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/src/structure/EvidenceManager.cpp b/src/src/structure/EvidenceManager.cpp
index c7e7a33..13a3973 100644
--- a/src/src/structure/EvidenceManager.cpp
+++ b/src/src/structure/EvidenceManager.cpp
@@ -8,6 +8,7 @@
 #include <EasyFactorGraph/Error.h>
 #include <EasyFactorGraph/misc/Visitor.h>
 #include <EasyFactorGraph/structure/EvidenceManager.h>
+#include <EasyFactorGraph/structure/SpecialFactors.h>
 #include <EasyFactorGraph/structure/bases/StateAware.h>
 
 #include <algorithm>
@@ -76,10 +77,21 @@ void EvidenceRemover::removeEvidence_(const categoric::VariablePtr &variable) {
   resetBelief();
   state.evidences.erase(evidence_it);
   auto &node = *state.nodes[variable].get();
-  while (!node.disabled_connections.empty()) {
-    auto it = node.disabled_connections.begin();
-    it->first->merged_unaries.reset();
-    Node::activate(node, *it->first, it->second.factor);
+  std::vector<std::pair<Node *, factor::ImmutablePtr>> to_activate;
+  for (auto &[connected_node, connection] : node.disabled_connections) {
+    auto connected_evidence = state.evidences.find(connected_node->variable);
+    if (connected_evidence == state.evidences.end()) {
+      to_activate.emplace_back(connected_node, connection.factor);
+    } else {
+      // keep the connection disabled, as the other node is still observed
+      connection.message = std::make_unique<factor::Evidence>(
+          *connection.factor, connected_node->variable,
+          connected_evidence->second);
+    }
+  }
+  for (auto &[connected_node, factor] : to_activate) {
+    connected_node->merged_unaries.reset();
+    Node::activate(node, *connected_node, factor);
   }
   node.merged_unaries.reset();
 }
-- 
2.43.0


From 69c4a89bd9cc6fa5d4d4533cec09f24f7fe5efa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:08 +0000
Subject: [PATCH 06/26] fix: joint distribution of a group with more than one
 evidence

The indicators of the evidences were relocated while being collected, leaving
dangling pointers among the contributions.
---
 src/src/structure/QueryManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/src/structure/QueryManager.cpp b/src/src/structure/QueryManager.cpp
index fd49c1b..6324dcb 100644
--- a/src/src/structure/QueryManager.cpp
+++ b/src/src/structure/QueryManager.cpp
@@ -115,6 +115,7 @@ QueryManager::getJointMarginalDistribution(const categoric::Group &subgroup,
 
   std::unordered_set<const factor::Immutable *> contributions;
   std::vector<factor::Indicator> indicators;
+  indicators.reserve(locations.size()); // pointers to the elements are taken
   for (auto &[node, location] : locations) {
     VisitorConst<HiddenClusters::iterator, Evidences::iterator>{
         [&node = node, &subgroup_nodes,
-- 
2.43.0


From cc758363f155849ae1d27f81949420384315f84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:09 +0000
Subject: [PATCH 07/26] fix: answers after a change of the weights

Merged unary factors and marginalized evidences computed before setWeights (or
before a factor was given the weight of the group it joined) were used also for
the queries and the gradients that followed.
---
 .../trainable/FactorsTunableManager.h           |  3 +++
 src/src/trainable/FactorsTunableManager.cpp     | 17 +++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h b/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h
index 7b23c52..afe0581 100644
--- a/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h
+++ b/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h
@@ -62,6 +62,9 @@ protected:
   virtual std::vector<float>
   getWeightsGradient_(const TrainSet::Iterator &train_set_combinations) = 0;
 
+  // to call every time the weight of a factor already inserted changes
+  void resetWeightsDependencies();
+
   std::unordered_set<FactorExponentialPtr> tunable_factors;
   Tuners tuners;
 };
diff --git a/src/src/trainable/FactorsTunableManager.cpp b/src/src/trainable/FactorsTunableManager.cpp
index 2b86e32..9ba8492 100644
--- a/src/src/trainable/FactorsTunableManager.cpp
+++ b/src/src/trainable/FactorsTunableManager.cpp
@@ -7,6 +7,7 @@
 
 #include <EasyFactorGraph/Error.h>
 #include <EasyFactorGraph/misc/Visitor.h>
+#include <EasyFactorGraph/structure/SpecialFactors.h>
 #include <EasyFactorGraph/trainable/FactorsTunableManager.h>
 #include <EasyFactorGraph/trainable/tuners/BinaryTuner.h>
 #include <EasyFactorGraph/trainable/tuners/CompositeTuner.h>
@@ -58,6 +59,21 @@ void FactorsTunableGetter::setWeights(const std::vector<float> &weights) {
   for (std::size_t k = 0; k < tuners.size(); ++k) {
     tuners[k]->setWeight(weights[k]);
   }
+  resetWeightsDependencies();
+}
+
+void FactorsTunableGetter::resetWeightsDependencies() {
+  auto &state = stateMutable();
+  for (auto &[var, node] : state.nodes) {
+    node->merged_unaries.reset();
+    for (auto &[connected_node, connection] : node->disabled_connections) {
+      auto evidence = state.evidences.find(connected_node->variable);
+      if (evidence != state.evidences.end()) {
+        connection.message = std::make_unique<factor::Evidence>(
+            *connection.factor, connected_node->variable, evidence->second);
+      }
+    }
+  }
   resetBelief();
 }
 
@@ -140,6 +156,7 @@ void FactorsTunableInserter::addTunableFactor(
         tuner_sharing.addElement(std::move(tuner));
         tuner_sharing.setWeight(tuner_sharing.getWeight());
       });
+  resetWeightsDependencies();
 }
 
 void FactorsTunableInserter::copyTunableFactor(
-- 
2.43.0


From decb29c4abd6ef7a4b41302262d16a75b450e98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:58 +0000
Subject: [PATCH 08/26] fix: evidences order in conditional random fields

setEvidences followed the order of the evidences map instead of the documented
one (getObservedVariables), and left the evidences partially changed when a value
was invalid. Gradients took the evidences from the positions the variables have
in the source of the model, which are in general different.
---
 .../model/ConditionalRandomField.h            |  3 ++-
 src/src/model/ConditionalRandomField.cpp      | 24 ++++++++++++-------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/header/EasyFactorGraph/model/ConditionalRandomField.h b/src/header/EasyFactorGraph/model/ConditionalRandomField.h
index acca867..c5346cb 100644
--- a/src/header/EasyFactorGraph/model/ConditionalRandomField.h
+++ b/src/header/EasyFactorGraph/model/ConditionalRandomField.h
@@ -84,6 +84,7 @@ private:
   void replaceIfNeeded(train::TunerPtr &container,
                        const train::BaseTuner &subject);
 
-  const std::vector<std::size_t> evidence_vars_positions;
+  // same order of getObservedVariables()
+  std::vector<std::size_t> evidence_vars_positions;
 };
 } // namespace EFG::model
diff --git a/src/src/model/ConditionalRandomField.cpp b/src/src/model/ConditionalRandomField.cpp
index 34e8154..747f5b5 100644
--- a/src/src/model/ConditionalRandomField.cpp
+++ b/src/src/model/ConditionalRandomField.cpp
@@ -30,18 +30,15 @@ find_positions(const categoric::VariablesSoup &all_vars,
 }
 } // namespace
 
-ConditionalRandomField::ConditionalRandomField(const ConditionalRandomField &o)
-    : evidence_vars_positions(
-          find_positions(o.getAllVariables(), o.getObservedVariables())) {
+ConditionalRandomField::ConditionalRandomField(
+    const ConditionalRandomField &o) {
   absorb(SourceStructure{static_cast<const strct::FactorsConstGetter *>(&o),
                          static_cast<const train::FactorsTunableGetter *>(&o)},
          false);
 }
 
 ConditionalRandomField::ConditionalRandomField(const RandomField &source,
-                                               bool copy)
-    : evidence_vars_positions(find_positions(source.getAllVariables(),
-                                             source.getObservedVariables())) {
+                                               bool copy) {
   absorb(
       SourceStructure{
           static_cast<const strct::FactorsConstGetter *>(&source),
@@ -60,6 +57,8 @@ void ConditionalRandomField::absorb(const SourceStructure &source, bool copy) {
   for (const auto &[var, val] : evidences) {
     setEvidence(findVariable(var->name()), val);
   }
+  evidence_vars_positions =
+      find_positions(getAllVariables(), getObservedVariables());
   // replace tuners of factors connected to an evidence
   for (auto &tuner : tuners) {
     train::visitTuner(
@@ -125,8 +124,17 @@ void ConditionalRandomField::setEvidences(
     throw Error::make("Expected ", std::to_string(state.evidences.size()),
                       " evidences, but got instead ", values.size());
   }
+  const auto observed = getObservedVariables();
   std::size_t k = 0;
-  for (const auto &[var, val] : state.evidences) {
+  for (const auto &var : observed) {
+    if (var->size() <= values[k]) {
+      throw Error::make(std::to_string(values[k]),
+                        " is an invalid evidence for variable ", var->name());
+    }
+    ++k;
+  }
+  k = 0;
+  for (const auto &var : observed) {
     setEvidence(var, values[k]);
     ++k;
   }
@@ -168,7 +176,7 @@ std::vector<float> ConditionalRandomField::getWeightsGradient_(
         [this, &tasks](const auto &combination) {
           {
             std::size_t var_pos = 0;
-            for (auto &[var, val] : this->state().evidences) {
+            for (const auto &var : this->getObservedVariables()) {
               this->setEvidence(
                   var, combination[this->evidence_vars_positions[var_pos]]);
               ++var_pos;
-- 
2.43.0


From 44046ccb6d210fc5daa0a2a62d09a8c97ad9e02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:26 +0000
Subject: [PATCH 09/26] fix: refused factors should leave the model unchanged

A binary factor refused because of its second variable left the first one in the
model, while a tunable factor refused because of an unknown sharing group was
inserted without being tuned.
---
 src/src/structure/bases/FactorsAware.cpp    | 6 ++++++
 src/src/trainable/FactorsTunableManager.cpp | 6 +++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/src/structure/bases/FactorsAware.cpp b/src/src/structure/bases/FactorsAware.cpp
index 05812f7..530a6da 100644
--- a/src/src/structure/bases/FactorsAware.cpp
+++ b/src/src/structure/bases/FactorsAware.cpp
@@ -88,6 +88,12 @@ void hybrid_insertion(Node *node_hidden, Node *node_evidence,
 void FactorsAware::addBinaryDistribution(
     const EFG::factor::ImmutablePtr &binary_factor) {
   const auto &vars = binary_factor->function().vars().getVariables();
+  // check everything before creating any node
+  for (const auto &var : vars) {
+    if (auto info = locate(var); info.has_value()) {
+      check_is_same_variable(var, info->node->variable);
+    }
+  }
   const auto nodeA_location = findOrMakeNode(vars.front());
   auto *nodeA = nodeA_location.node;
   const auto nodeB_location = findOrMakeNode(vars.back());
diff --git a/src/src/trainable/FactorsTunableManager.cpp b/src/src/trainable/FactorsTunableManager.cpp
index 9ba8492..e5b5563 100644
--- a/src/src/trainable/FactorsTunableManager.cpp
+++ b/src/src/trainable/FactorsTunableManager.cpp
@@ -135,6 +135,11 @@ TunerPtr FactorsTunableInserter::makeTuner(const FactorExponentialPtr &factor) {
 void FactorsTunableInserter::addTunableFactor(
     const FactorExponentialPtr &factor,
     const std::optional<categoric::VariablesSet> &group_sharing_weight) {
+  auto other_it = tuners.end();
+  if (std::nullopt != group_sharing_weight) {
+    // it throws if missing: do it before inserting the factor
+    other_it = findTuner(*group_sharing_weight);
+  }
   addDistribution(factor);
   auto tuner = makeTuner(factor);
   tunable_factors.emplace(factor);
@@ -142,7 +147,6 @@ void FactorsTunableInserter::addTunableFactor(
     tuners.emplace_back(std::move(tuner));
     return;
   }
-  auto other_it = findTuner(*group_sharing_weight);
   visitTuner(
       other_it->get(),
       [&tuner, &other_it](BaseTuner &) {
-- 
2.43.0


From f9a951bfb8ee50d54f436e7164d6571cc9707b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:47 +0000
Subject: [PATCH 10/26] fix: removal of several evidences should refuse unknown
 variables before removing any

---
 src/src/structure/EvidenceManager.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/src/structure/EvidenceManager.cpp b/src/src/structure/EvidenceManager.cpp
index 13a3973..d8ab7fd 100644
--- a/src/src/structure/EvidenceManager.cpp
+++ b/src/src/structure/EvidenceManager.cpp
@@ -110,6 +110,13 @@ void EvidenceRemover::removeEvidences(
   if (variables.empty()) {
     return;
   }
+  // check everything before removing any evidence
+  const auto &evidences = this->state().evidences;
+  for (const auto &variable : variables) {
+    if (evidences.find(variable) == evidences.end()) {
+      throw Error::make(variable->name(), " is not an evidence");
+    }
+  }
   for (const auto &variable : variables) {
     removeEvidence_(variable);
   }
-- 
2.43.0


From 61f78b4fe0773592c9117e72f97e3c110947a04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:54 +0000
Subject: [PATCH 11/26] fix: keep the weight sharing groups when absorbing
 factors on the same variables

---
 .../trainable/FactorsTunableManager.h         |  4 +++
 src/src/trainable/FactorsTunableManager.cpp   | 34 +++++++++++--------
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h b/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h
index afe0581..ae18941 100644
--- a/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h
+++ b/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h
@@ -130,6 +130,10 @@ protected:
   Tuners::iterator findTuner(const categoric::VariablesSet &tuned_vars_group);
 
 private:
+  // tuners.end() can be passed for a factor that does not share its weight
+  void insertTunableFactor(const FactorExponentialPtr &factor,
+                           Tuners::iterator group_sharing_weight);
+
   TunerPtr makeTuner(const FactorExponentialPtr &factor);
 };
 
diff --git a/src/src/trainable/FactorsTunableManager.cpp b/src/src/trainable/FactorsTunableManager.cpp
index e5b5563..c205a29 100644
--- a/src/src/trainable/FactorsTunableManager.cpp
+++ b/src/src/trainable/FactorsTunableManager.cpp
@@ -140,10 +140,15 @@ void FactorsTunableInserter::addTunableFactor(
     // it throws if missing: do it before inserting the factor
     other_it = findTuner(*group_sharing_weight);
   }
+  insertTunableFactor(factor, other_it);
+}
+
+void FactorsTunableInserter::insertTunableFactor(
+    const FactorExponentialPtr &factor, Tuners::iterator other_it) {
   addDistribution(factor);
   auto tuner = makeTuner(factor);
   tunable_factors.emplace(factor);
-  if (std::nullopt == group_sharing_weight) {
+  if (tuners.end() == other_it) {
     tuners.emplace_back(std::move(tuner));
     return;
   }
@@ -173,31 +178,30 @@ void FactorsTunableInserter::copyTunableFactor(
 void FactorsTunableInserter::absorbTunableClusters(
     const FactorsTunableGetter &source, bool copy) {
   auto insertFactor =
-      [copy = copy, this](
-          const FactorExponentialPtr &factor,
-          const std::optional<categoric::VariablesSet> &group_sharing_weight) {
+      [copy = copy, this](const FactorExponentialPtr &factor,
+                          Tuners::iterator group_sharing_weight) {
         if (copy) {
-          copyTunableFactor(*factor, group_sharing_weight);
+          insertTunableFactor(
+              std::make_shared<factor::FactorExponential>(*factor),
+              group_sharing_weight);
         } else {
-          addTunableFactor(factor, group_sharing_weight);
+          insertTunableFactor(factor, group_sharing_weight);
         }
       };
 
   for (const auto &cluster : source.getTunableClusters()) {
     try {
       VisitorConst<FactorExponentialPtr, TunableClusters>{
-          [&insertFactor](const FactorExponentialPtr &base) {
-            insertFactor(base, std::nullopt);
+          [&insertFactor, this](const FactorExponentialPtr &base) {
+            insertFactor(base, tuners.end());
           },
-          [&insertFactor](const TunableClusters &composite) {
-            auto front_factor = composite.front();
-            const auto &vars =
-                front_factor->function().vars().getVariablesSet();
-            insertFactor(front_factor, std::nullopt);
+          [&insertFactor, this](const TunableClusters &composite) {
+            insertFactor(composite.front(), tuners.end());
+            // the others should join exactly the group just created
             std::for_each(
                 composite.begin() + 1, composite.end(),
-                [&insertFactor, &vars](const FactorExponentialPtr &tuner) {
-                  insertFactor(tuner, vars);
+                [&insertFactor, this](const FactorExponentialPtr &tuner) {
+                  insertFactor(tuner, std::prev(tuners.end()));
                 });
           }}
           .visit(cluster);
-- 
2.43.0


From a75a5ab28dd742b62c1eff19dcb22a427e16c02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:02 +0000
Subject: [PATCH 12/26] fix: a query that fails half way should not leave
 incomplete results behind

---
 src/src/structure/Types.cpp             | 7 +++++--
 src/src/structure/bases/BeliefAware.cpp | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/src/structure/Types.cpp b/src/src/structure/Types.cpp
index 79ea0e5..5a93c4d 100644
--- a/src/src/structure/Types.cpp
+++ b/src/src/structure/Types.cpp
@@ -110,8 +110,9 @@ HiddenCluster::TopologyInfo::updateMessage(PropagationKind kind) {
 }
 
 void HiddenCluster::updateConnectivity() {
-  auto &topology = connectivity.reset(
-      std::make_unique<std::vector<HiddenCluster::TopologyInfo>>());
+  auto new_connectivity =
+      std::make_unique<std::vector<HiddenCluster::TopologyInfo>>();
+  auto &topology = *new_connectivity;
   for (auto *sender : nodes) {
     sender->updateMergedUnaries();
     if (sender->active_connections.empty()) {
@@ -131,6 +132,8 @@ void HiddenCluster::updateConnectivity() {
           std::vector<const Node::Connection *>{deps.begin(), deps.end()};
     }
   }
+  // cache it only when complete
+  connectivity.reset(std::move(new_connectivity));
 }
 
 namespace {
diff --git a/src/src/structure/bases/BeliefAware.cpp b/src/src/structure/bases/BeliefAware.cpp
index c019b7f..dc4707f 100644
--- a/src/src/structure/bases/BeliefAware.cpp
+++ b/src/src/structure/bases/BeliefAware.cpp
@@ -80,6 +80,7 @@ void BeliefAware::propagateBelief(PropagationKind kind) {
 
   auto &clusters = stateMutable().clusters;
   auto &pool = getPool();
+  resetBelief(); // the messages are about to be lost
   reset_messages(clusters);
 
   PropagationResult result;
-- 
2.43.0


From 862026aa9d785e0bf59b517e54bd78fd782bffa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:10 +0000
Subject: [PATCH 13/26] fix: train sets of conditional random fields for tiny
 percentages

---
 src/src/model/ConditionalRandomField.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/src/model/ConditionalRandomField.cpp b/src/src/model/ConditionalRandomField.cpp
index 747f5b5..3c85f6c 100644
--- a/src/src/model/ConditionalRandomField.cpp
+++ b/src/src/model/ConditionalRandomField.cpp
@@ -218,8 +218,9 @@ std::vector<std::vector<std::size_t>> ConditionalRandomField::makeTrainSet(
     categoric::for_each_combination(evidences_range, emplace_samples);
   } else {
     const std::size_t result_max_size = evidences_group.size();
-    const std::size_t result_size_approx =
-        static_cast<std::size_t>(floorf(result_max_size * range_percentage));
+    // at least one combination is considered
+    const std::size_t result_size_approx = std::max<std::size_t>(
+        1, static_cast<std::size_t>(floorf(result_max_size * range_percentage)));
     const std::size_t delta = result_max_size / result_size_approx;
     std::size_t k = 0;
     while (k < result_max_size) {
-- 
2.43.0


From a96bb61c2feb716f0d6927fc0d56e253d9bc8016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:10 +0000
Subject: [PATCH 14/26] fix: use different random sequences in the threads
 sampling without an explicit seed

---
 src/src/structure/GibbsSampler.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/src/structure/GibbsSampler.cpp b/src/src/structure/GibbsSampler.cpp
index 503bac7..38e2869 100644
--- a/src/src/structure/GibbsSampler.cpp
+++ b/src/src/structure/GibbsSampler.cpp
@@ -104,12 +104,12 @@ make_sampling_tasks(const std::vector<GibbsSampler::SamplerNode> &nodes,
                     std::vector<UniformSampler> &engines,
                     const std::optional<std::size_t> &seed, Pool &pool) {
   engines.resize(pool.size());
-  if (std::nullopt != seed) {
-    std::size_t s = *seed;
-    for (auto &engine : engines) {
-      engine.resetSeed(s);
-      s += 5;
-    }
+  // the engines of different threads should generate different sequences
+  std::size_t s = (std::nullopt == seed) ? static_cast<std::size_t>(time(NULL))
+                                         : *seed;
+  for (auto &engine : engines) {
+    engine.resetSeed(s);
+    s += 5;
   }
 
   std::vector<Tasks> result;
-- 
2.43.0


From 9b5be5ea1959f2bd37c873e17bc16fefb486bd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:28 +0000
Subject: [PATCH 15/26] fix: export values and weights with float accuracy

---
 src/src/io/json/Exporter.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/src/io/json/Exporter.cpp b/src/src/io/json/Exporter.cpp
index 30e1273..1ff1079 100644
--- a/src/src/io/json/Exporter.cpp
+++ b/src/src/io/json/Exporter.cpp
@@ -11,6 +11,9 @@
 
 #include "../Utils.h"
 
+#include <limits>
+#include <sstream>
+
 namespace EFG::io::json {
 void Exporter::exportToFile(const nlohmann::json &source,
                             const std::filesystem::path &out) {
@@ -19,6 +22,14 @@ void Exporter::exportToFile(const nlohmann::json &source,
 }
 
 namespace {
+// std::to_string keeps 6 decimals only
+std::string print(float value) {
+  std::stringstream stream;
+  stream.precision(std::numeric_limits<float>::max_digits10);
+  stream << value;
+  return stream.str();
+}
+
 void printVariable(const categoric::VariablePtr &var,
                    nlohmann::json &recipient) {
   recipient["name"] = var->name();
@@ -40,7 +51,7 @@ nlohmann::json &printPotential(const factor::Immutable &distr,
   distr.function().forEachNonNullCombination<false>(
       [&](const auto &comb, float img) {
         auto &Distr_val_added = Distr_val.emplace_back();
-        Distr_val_added["D"] = std::to_string(img);
+        Distr_val_added["D"] = print(img);
         auto &values = Distr_val_added["v"];
         for (const auto &v : comb) {
           values.emplace_back() = std::to_string(v);
@@ -52,7 +63,7 @@ nlohmann::json &printPotential(const factor::Immutable &distr,
 nlohmann::json &printExpPotential(const factor::FactorExponential &distr,
                                   nlohmann::json &recipient) {
   auto &pot_tag = printPotential(distr, recipient);
-  pot_tag["weight"] = std::to_string(distr.getWeight());
+  pot_tag["weight"] = print(distr.getWeight());
   return pot_tag;
 }
 } // namespace
-- 
2.43.0


From a9108521190d79618522bc645f2fe1f9238c0fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:28 +0000
Subject: [PATCH 16/26] fix: report the failures in writing a file

---
 src/src/io/Utils.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/src/io/Utils.h b/src/src/io/Utils.h
index 1fd9bce..65ef62c 100644
--- a/src/src/io/Utils.h
+++ b/src/src/io/Utils.h
@@ -37,6 +37,10 @@ void useOutStrem(const std::filesystem::path &file_name, Pred &&pred) {
   std::ofstream stream{file_name};
   detail::check_stream(stream, file_name);
   pred(stream);
+  stream.close();
+  if (!stream) {
+    throw Error::make("Can't write into ", file_name);
+  }
 }
 
 template <typename Predicate>
-- 
2.43.0


From 8a401413b909e2e3f3ca19a4332ae515a0e9e306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:28 +0000
Subject: [PATCH 17/26] fix: import names containing characters escaped in json

---
 src/src/io/json/Importer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/src/io/json/Importer.cpp b/src/src/io/json/Importer.cpp
index e78b250..d8afd46 100644
--- a/src/src/io/json/Importer.cpp
+++ b/src/src/io/json/Importer.cpp
@@ -37,8 +37,7 @@ const nlohmann::json &access(const nlohmann::json &subject,
 
 std::string to_string(const nlohmann::json &subject) {
   if (subject.is_string()) {
-    auto raw_dump = subject.dump();
-    return std::string{raw_dump, 1, raw_dump.size() - 2};
+    return subject.get<std::string>();
   }
   throw Error{"Expected a string"};
 }
-- 
2.43.0


From 4f4b8341fc0cd386471d06b786dd2c963341b53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:14 +0000
Subject: [PATCH 18/26] fix: import of sharing groups when several tunable
 factors have the same variables

---
 src/src/io/Utils.cpp                        | 8 +++++++-
 src/src/trainable/FactorsTunableManager.cpp | 7 ++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/src/io/Utils.cpp b/src/src/io/Utils.cpp
index 7757e80..8f742d5 100644
--- a/src/src/io/Utils.cpp
+++ b/src/src/io/Utils.cpp
@@ -54,7 +54,13 @@ void ImportHelper::importTunable(
     const std::optional<categoric::VariablesSet> &sharing_group) {
   if (auto ptr = std::get<train::FactorsTunableInserter *>(model); ptr) {
     if (sharing_group.has_value()) {
-      this->cumulated.push_back(TunableCluster{factor, sharing_group.value()});
+      try {
+        ptr->addTunableFactor(factor, sharing_group);
+      } catch (const Error &) {
+        // the factor owning the weight might be described later in the file
+        this->cumulated.push_back(
+            TunableCluster{factor, sharing_group.value()});
+      }
     } else {
       ptr->addTunableFactor(factor);
     }
diff --git a/src/src/trainable/FactorsTunableManager.cpp b/src/src/trainable/FactorsTunableManager.cpp
index c205a29..d859675 100644
--- a/src/src/trainable/FactorsTunableManager.cpp
+++ b/src/src/trainable/FactorsTunableManager.cpp
@@ -86,8 +86,9 @@ std::vector<float> FactorsTunableGetter::getWeightsGradient(
 
 Tuners::iterator FactorsTunableInserter::findTuner(
     const categoric::VariablesSet &tuned_vars_group) {
+  // when more than one has the same variables, the last inserted is considered
   auto tuners_it = std::find_if(
-      tuners.begin(), tuners.end(),
+      tuners.rbegin(), tuners.rend(),
       [&group = tuned_vars_group](const TunerPtr &tuner) {
         bool is_here = false;
         visitTuner(
@@ -109,10 +110,10 @@ Tuners::iterator FactorsTunableInserter::findTuner(
             });
         return is_here;
       });
-  if (tuners_it == tuners.end()) {
+  if (tuners_it == tuners.rend()) {
     throw Error{"Tuner not found"};
   }
-  return tuners_it;
+  return std::prev(tuners_it.base());
 }
 
 TunerPtr FactorsTunableInserter::makeTuner(const FactorExponentialPtr &factor) {
-- 
2.43.0


From cca92abc76bfac051da2ad30bf0a0eb14aa20944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:17 +0000
Subject: [PATCH 19/26] fix: refuse json models without the expected parts

---
 src/src/io/json/Importer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/src/io/json/Importer.cpp b/src/src/io/json/Importer.cpp
index d8afd46..f4957cf 100644
--- a/src/src/io/json/Importer.cpp
+++ b/src/src/io/json/Importer.cpp
@@ -91,7 +91,7 @@ importFactor(const nlohmann::json &subject,
 
   for (const auto &comb : access(subject, "Distr_val")) {
     std::vector<std::size_t> combination;
-    for (const auto &v : comb["v"]) {
+    for (const auto &v : access(comb, "v")) {
       combination.push_back(std::atoi(to_string(v).c_str()));
     }
     const float val =
@@ -134,7 +134,7 @@ Importer::convert(Inserters recipient, const nlohmann::json &source) {
   // import variables
   categoric::VariablesSet variables;
   std::unordered_map<std::string, std::size_t> evidences;
-  for (const auto &var : source["Variables"]) {
+  for (const auto &var : access(source, "Variables")) {
     const auto name = to_string(access(var, "name"));
     const auto size = to_string(access(var, "Size"));
     auto new_var = categoric::make_variable(std::atoi(size.c_str()), name);
@@ -151,7 +151,7 @@ Importer::convert(Inserters recipient, const nlohmann::json &source) {
   }
   // import potentials
   ImportHelper importer(recipient);
-  for (const auto &factor : source["Potentials"]) {
+  for (const auto &factor : access(source, "Potentials")) {
     importPotential(factor, variables, importer);
   }
   importer.importCumulatedTunable();
-- 
2.43.0


From 15ad79dcaf74709aee070d52ff19a03ba10dde0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:35 +0000
Subject: [PATCH 20/26] fix: refuse json models containing invalid numbers

---
 src/src/io/json/Importer.cpp | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/src/io/json/Importer.cpp b/src/src/io/json/Importer.cpp
index f4957cf..7146966 100644
--- a/src/src/io/json/Importer.cpp
+++ b/src/src/io/json/Importer.cpp
@@ -42,6 +42,25 @@ std::string to_string(const nlohmann::json &subject) {
   throw Error{"Expected a string"};
 }
 
+std::size_t to_index(const nlohmann::json &subject) {
+  const auto raw = to_string(subject);
+  if (raw.empty() ||
+      (raw.find_first_not_of("0123456789") != std::string::npos)) {
+    throw Error::make("'", raw, "' is not a valid non negative integer");
+  }
+  return static_cast<std::size_t>(std::stoi(raw));
+}
+
+float to_float(const nlohmann::json &subject) {
+  const auto raw = to_string(subject);
+  char *end = nullptr;
+  const float result = std::strtof(raw.c_str(), &end);
+  if ((end == raw.c_str()) || (*end != '\0')) {
+    throw Error::make("'", raw, "' is not a valid number");
+  }
+  return result;
+}
+
 categoric::VariablePtr findVariable(const std::string &name,
                                     const categoric::VariablesSet &variables) {
   const auto itV = std::find_if(variables.begin(), variables.end(),
@@ -92,10 +111,9 @@ importFactor(const nlohmann::json &subject,
   for (const auto &comb : access(subject, "Distr_val")) {
     std::vector<std::size_t> combination;
     for (const auto &v : access(comb, "v")) {
-      combination.push_back(std::atoi(to_string(v).c_str()));
+      combination.push_back(to_index(v));
     }
-    const float val =
-        static_cast<float>(std::atof(to_string(access(comb, "D")).c_str()));
+    const float val = to_float(access(comb, "D"));
     result->set(std::move(combination), val);
   }
 
@@ -112,8 +130,8 @@ void importPotential(const nlohmann::json &subject,
     return;
   }
 
-  auto factor = std::make_shared<factor::FactorExponential>(
-      *shape, static_cast<float>(std::atof(to_string(*w).c_str())));
+  auto factor =
+      std::make_shared<factor::FactorExponential>(*shape, to_float(*w));
   const auto *tunab = try_access(subject, "tunability");
   if ((nullptr != tunab) && (to_string(*tunab) == "Y")) {
     const auto *share_tag = try_access(subject, "Share");
@@ -136,17 +154,15 @@ Importer::convert(Inserters recipient, const nlohmann::json &source) {
   std::unordered_map<std::string, std::size_t> evidences;
   for (const auto &var : access(source, "Variables")) {
     const auto name = to_string(access(var, "name"));
-    const auto size = to_string(access(var, "Size"));
-    auto new_var = categoric::make_variable(std::atoi(size.c_str()), name);
+    auto new_var =
+        categoric::make_variable(to_index(access(var, "Size")), name);
     if (variables.find(new_var) != variables.end()) {
       throw Error::make(name, " is a multiple times specified variable ");
     }
     variables.emplace(new_var);
     const auto *obs_flag = try_access(var, "evidence");
     if (nullptr != obs_flag) {
-      const std::size_t val =
-          static_cast<std::size_t>(std::atoi(to_string(*obs_flag).c_str()));
-      evidences.emplace(name, val);
+      evidences.emplace(name, to_index(*obs_flag));
     }
   }
   // import potentials
-- 
2.43.0


From 7f0ad3d0bee7245507ad6e6a80d6d015ffd81564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:25 +0000
Subject: [PATCH 21/26] fix: import all the values of a train set, refuse files
 that can't be read till the end

---
 src/src/io/TrainSetImport.cpp |  8 ++++++--
 src/src/io/Utils.cpp          | 20 +++++++++++++-------
 src/src/io/Utils.h            |  9 ++++++---
 3 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/src/io/TrainSetImport.cpp b/src/src/io/TrainSetImport.cpp
index 529510a..cdd1ef7 100644
--- a/src/src/io/TrainSetImport.cpp
+++ b/src/src/io/TrainSetImport.cpp
@@ -17,13 +17,17 @@ train::TrainSet import_train_set(const std::string &file_name) {
     std::size_t line_numb = 0;
     std::size_t expected_size = 0;
     for_each_line(stream, [&](const std::string &line) {
-      auto &&[combination, img] = parse_combination_image(line);
+      std::vector<std::size_t> combination;
+      for (const auto &token : split(line)) {
+        combination.push_back(
+            static_cast<std::size_t>(std::atoi(token.c_str())));
+      }
       if ((expected_size != 0) && (combination.size() != expected_size)) {
         throw Error::make("Invalid combination size at line ",
                           std::to_string(line_numb));
       }
       expected_size = combination.size();
-      combinations.emplace_back(std::move(expected_size));
+      combinations.emplace_back(std::move(combination));
       ++line_numb;
     });
   });
diff --git a/src/src/io/Utils.cpp b/src/src/io/Utils.cpp
index 8f742d5..ed41f5c 100644
--- a/src/src/io/Utils.cpp
+++ b/src/src/io/Utils.cpp
@@ -10,15 +10,21 @@
 #include <sstream>
 
 namespace EFG::io {
-std::pair<std::vector<std::size_t>, float>
-parse_combination_image(const std::string &line) {
+std::vector<std::string> split(const std::string &line) {
   std::stringstream buff{line};
   std::vector<std::string> tokens;
-  {
-    std::string token;
-    while (buff >> token) {
-      tokens.emplace_back(std::move(token));
-    }
+  std::string token;
+  while (buff >> token) {
+    tokens.emplace_back(std::move(token));
+  }
+  return tokens;
+}
+
+std::pair<std::vector<std::size_t>, float>
+parse_combination_image(const std::string &line) {
+  const auto tokens = split(line);
+  if (tokens.empty()) {
+    throw Error{"Found empty line"};
   }
   std::vector<std::size_t> comb;
   std::for_each(
diff --git a/src/src/io/Utils.h b/src/src/io/Utils.h
index 65ef62c..8eef874 100644
--- a/src/src/io/Utils.h
+++ b/src/src/io/Utils.h
@@ -46,13 +46,16 @@ void useOutStrem(const std::filesystem::path &file_name, Pred &&pred) {
 template <typename Predicate>
 void for_each_line(std::istream &stream, const Predicate &pred) {
   std::string line;
-  while (!stream.eof()) {
-    line.clear();
-    std::getline(stream, line);
+  while (std::getline(stream, line)) {
     pred(line);
   }
+  if (!stream.eof()) {
+    throw Error{"Can't read till the end of the file"};
+  }
 }
 
+std::vector<std::string> split(const std::string &line);
+
 std::pair<std::vector<std::size_t>, float>
 parse_combination_image(const std::string &line);
 
-- 
2.43.0


From 68509eec987b96272297ec72da0af8fd50f6d33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:37 +0000
Subject: [PATCH 22/26] fix: do not touch the factors already sharing a weight
 when another one joins them

---
 src/src/trainable/FactorsTunableManager.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/src/trainable/FactorsTunableManager.cpp b/src/src/trainable/FactorsTunableManager.cpp
index d859675..8d01491 100644
--- a/src/src/trainable/FactorsTunableManager.cpp
+++ b/src/src/trainable/FactorsTunableManager.cpp
@@ -153,6 +153,10 @@ void FactorsTunableInserter::insertTunableFactor(
     tuners.emplace_back(std::move(tuner));
     return;
   }
+  // the others already have the shared weight and could be in use elsewhere
+  if (const float w = other_it->get()->getWeight(); factor->getWeight() != w) {
+    factor->setWeight(w);
+  }
   visitTuner(
       other_it->get(),
       [&tuner, &other_it](BaseTuner &) {
@@ -160,11 +164,9 @@ void FactorsTunableInserter::insertTunableFactor(
             std::make_unique<CompositeTuner>(std::move(*other_it),
                                              std::move(tuner));
         *other_it = std::move(new_composite);
-        other_it->get()->setWeight(other_it->get()->getWeight());
       },
       [&tuner](CompositeTuner &tuner_sharing) {
         tuner_sharing.addElement(std::move(tuner));
-        tuner_sharing.setWeight(tuner_sharing.getWeight());
       });
   resetWeightsDependencies();
 }
-- 
2.43.0


From f0dd4b9f7e7aecef75cd1a7720e91f85bd0d3433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:46 +0000
Subject: [PATCH 23/26] fix: use unrelated random sequences in the threads
 sampling from the same seed

---
 src/src/structure/GibbsSampler.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/src/structure/GibbsSampler.cpp b/src/src/structure/GibbsSampler.cpp
index 38e2869..a735d50 100644
--- a/src/src/structure/GibbsSampler.cpp
+++ b/src/src/structure/GibbsSampler.cpp
@@ -9,6 +9,8 @@
 #include <EasyFactorGraph/structure/SpecialFactors.h>
 
 #include <algorithm>
+#include <cstdint>
+#include <random>
 #include <time.h>
 
 namespace EFG::strct {
@@ -104,12 +106,15 @@ make_sampling_tasks(const std::vector<GibbsSampler::SamplerNode> &nodes,
                     std::vector<UniformSampler> &engines,
                     const std::optional<std::size_t> &seed, Pool &pool) {
   engines.resize(pool.size());
-  // the engines of different threads should generate different sequences
-  std::size_t s = (std::nullopt == seed) ? static_cast<std::size_t>(time(NULL))
-                                         : *seed;
-  for (auto &engine : engines) {
-    engine.resetSeed(s);
-    s += 5;
+  // the engines of different threads should generate unrelated sequences: seeds
+  // close to each other would lead to proportional ones
+  const std::size_t first_seed =
+      (std::nullopt == seed) ? static_cast<std::size_t>(time(NULL)) : *seed;
+  std::vector<std::uint32_t> seeds(engines.size());
+  std::seed_seq{first_seed}.generate(seeds.begin(), seeds.end());
+  seeds.front() = static_cast<std::uint32_t>(first_seed);
+  for (std::size_t k = 0; k < engines.size(); ++k) {
+    engines[k].resetSeed(seeds[k]);
   }
 
   std::vector<Tasks> result;
-- 
2.43.0


From a11a3bdc3d93bafd3cb01037ac6192158dd9e8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:22 +0000
Subject: [PATCH 24/26] fix: products of many messages exceeding the range of
 float

---
 src/src/structure/QueryManager.cpp   | 13 +++++++++----
 src/src/structure/SpecialFactors.cpp |  4 +++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/src/structure/QueryManager.cpp b/src/src/structure/QueryManager.cpp
index 6324dcb..96edba4 100644
--- a/src/src/structure/QueryManager.cpp
+++ b/src/src/structure/QueryManager.cpp
@@ -11,6 +11,8 @@
 #include <EasyFactorGraph/structure/SpecialFactors.h>
 #include <EasyFactorGraph/structure/bases/StateAware.h>
 
+#include <list>
+
 namespace EFG::strct {
 namespace {
 factor::MergedUnaries gather_incoming_messages(Node &subject) {
@@ -114,21 +116,24 @@ QueryManager::getJointMarginalDistribution(const categoric::Group &subgroup,
   }
 
   std::unordered_set<const factor::Immutable *> contributions;
+  std::list<factor::MergedUnaries> merged;
   std::vector<factor::Indicator> indicators;
   indicators.reserve(locations.size()); // pointers to the elements are taken
   for (auto &[node, location] : locations) {
     VisitorConst<HiddenClusters::iterator, Evidences::iterator>{
-        [&node = node, &subgroup_nodes,
-         &contributions](const HiddenClusters::iterator &) {
-          contributions.emplace(node->merged_unaries.get());
+        [&node = node, &subgroup_nodes, &contributions,
+         &merged](const HiddenClusters::iterator &) {
+          std::vector<const factor::Immutable *> unaries = {
+              node->merged_unaries.get()};
           for (const auto &[connected_node, connection] :
                node->active_connections) {
             if (subgroup_nodes.find(connected_node) == subgroup_nodes.end()) {
-              contributions.emplace(connection.message.get());
+              unaries.push_back(connection.message.get());
             } else {
               contributions.emplace(connection.factor.get());
             }
           }
+          contributions.emplace(&merged.emplace_back(unaries));
         },
         [&node = node, &contributions,
          &indicators](const Evidences::iterator &location) {
diff --git a/src/src/structure/SpecialFactors.cpp b/src/src/structure/SpecialFactors.cpp
index d470a10..62d366f 100644
--- a/src/src/structure/SpecialFactors.cpp
+++ b/src/src/structure/SpecialFactors.cpp
@@ -71,8 +71,10 @@ MergedUnaries::MergedUnaries(const std::vector<const Immutable *> &factors)
           factors.front()->function().vars().getVariables().front())) {
   for (const auto *factor : factors) {
     merge(*factor);
+    // done every time, as the product of many factors would exceed the range of
+    // float
+    normalize();
   }
-  normalize();
 }
 
 void MergedUnaries::merge(const Immutable &to_merge) {
-- 
2.43.0


From b987ec168030b2aae226e1fabf0997621d145460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:27 +0000
Subject: [PATCH 25/26] fix: do not hide the lack of memory when absorbing
 factors

---
 src/header/EasyFactorGraph/structure/FactorsConstManager.h   | 3 ++-
 src/header/EasyFactorGraph/trainable/FactorsTunableManager.h | 3 ++-
 src/src/trainable/FactorsTunableManager.cpp                  | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/header/EasyFactorGraph/structure/FactorsConstManager.h b/src/header/EasyFactorGraph/structure/FactorsConstManager.h
index b7d6b61..c3b2efc 100644
--- a/src/header/EasyFactorGraph/structure/FactorsConstManager.h
+++ b/src/header/EasyFactorGraph/structure/FactorsConstManager.h
@@ -7,6 +7,7 @@
 
 #pragma once
 
+#include <EasyFactorGraph/Error.h>
 #include <EasyFactorGraph/structure/bases/FactorsAware.h>
 
 namespace EFG::strct {
@@ -49,7 +50,7 @@ public:
         } else {
           addConstFactor(*it);
         }
-      } catch (...) {
+      } catch (const Error &) {
       }
     }
   }
diff --git a/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h b/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h
index ae18941..557d918 100644
--- a/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h
+++ b/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h
@@ -7,6 +7,7 @@
 
 #pragma once
 
+#include <EasyFactorGraph/Error.h>
 #include <EasyFactorGraph/structure/bases/FactorsAware.h>
 #include <EasyFactorGraph/trainable/tuners/Tuner.h>
 
@@ -111,7 +112,7 @@ public:
         } else {
           addTunableFactor(*it);
         }
-      } catch (...) {
+      } catch (const Error &) {
       }
     }
   }
diff --git a/src/src/trainable/FactorsTunableManager.cpp b/src/src/trainable/FactorsTunableManager.cpp
index 8d01491..6be603f 100644
--- a/src/src/trainable/FactorsTunableManager.cpp
+++ b/src/src/trainable/FactorsTunableManager.cpp
@@ -208,7 +208,7 @@ void FactorsTunableInserter::absorbTunableClusters(
                 });
           }}
           .visit(cluster);
-    } catch (...) {
+    } catch (const Error &) {
     }
   }
 }
-- 
2.43.0


From e50370281802666e2e98080b33642f634039431f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:09 +0000
Subject: [PATCH 26/26] fix: never sample a value having null probability

---
 src/src/structure/GibbsSampler.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/src/structure/GibbsSampler.cpp b/src/src/structure/GibbsSampler.cpp
index a735d50..a2f1a2a 100644
--- a/src/src/structure/GibbsSampler.cpp
+++ b/src/src/structure/GibbsSampler.cpp
@@ -23,13 +23,18 @@ std::size_t UniformSampler::sampleFromDiscrete(
     const std::vector<float> &distribution) const {
   float s = this->sample();
   float cumul = 0.f;
+  // never pick values having a null probability
+  std::size_t last_possible = distribution.size() - 1;
   for (std::size_t k = 0; k < distribution.size(); ++k) {
     cumul += distribution[k];
-    if (s <= cumul) {
+    if (s < cumul) {
       return k;
     }
+    if (0 < distribution[k]) {
+      last_possible = k;
+    }
   }
-  return distribution.size() - 1;
+  return last_possible; // the probabilities sum to slightly less than 1
 }
 
 void UniformSampler::resetSeed(std::size_t newSeed) {
-- 
2.43.0

