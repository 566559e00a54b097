From c08c418a07dd5e49a9335856ac3136bd4137644a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:02 +0000
Subject: [PATCH 01/25] fix: messages index the binary factor with sender and
 receiver positions swapped

---
 src/src/structure/SpecialFactors.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/src/structure/SpecialFactors.cpp b/src/src/structure/SpecialFactors.cpp
index d1f11a2..d470a10 100644
--- a/src/src/structure/SpecialFactors.cpp
+++ b/src/src/structure/SpecialFactors.cpp
@@ -144,8 +144,8 @@ void fill_message(const UnaryFactor &merged_unaries,
                   const Immutable &binary_factor, Function &recipient) {
   std::size_t message_pos;
   std::size_t sender_pos;
-  get_positions(binary_factor, merged_unaries.getVariable(), message_pos,
-                sender_pos);
+  get_positions(binary_factor, merged_unaries.getVariable(), sender_pos,
+                message_pos);
   std::size_t message_size =
       binary_factor.function().vars().getVariables()[message_pos]->size();
   for (std::size_t r = 0; r < message_size; ++r) {
-- 
2.43.0


From 4d6ca4e5aa8a4149e96e124c1ee5512cecef3a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:35 +0000
Subject: [PATCH 02/25] fix: removing an evidence re-activates connections
 toward still observed neighbours

---
 src/src/structure/EvidenceManager.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/src/structure/EvidenceManager.cpp b/src/src/structure/EvidenceManager.cpp
index c7e7a33..5670c5a 100644
--- a/src/src/structure/EvidenceManager.cpp
+++ b/src/src/structure/EvidenceManager.cpp
@@ -74,12 +74,24 @@ void EvidenceRemover::removeEvidence_(const categoric::VariablePtr &variable) {
     throw Error::make(variable->name(), " is not an evidence");
   }
   resetBelief();
+  auto &node = *state.nodes.find(variable)->second;
   state.evidences.erase(evidence_it);
-  auto &node = *state.nodes[variable].get();
-  while (!node.disabled_connections.empty()) {
-    auto it = node.disabled_connections.begin();
-    it->first->merged_unaries.reset();
-    Node::activate(node, *it->first, it->second.factor);
+  std::vector<Node *> hidden_neighbours;
+  for (auto &[connected_node, connection] : node.disabled_connections) {
+    auto neighbour_evidence = state.evidences.find(connected_node->variable);
+    if (neighbour_evidence == state.evidences.end()) {
+      hidden_neighbours.push_back(connected_node);
+    } else {
+      // this neighbour is still observed: the connection remains disabled
+      connection.message = std::make_unique<factor::Evidence>(
+          *connection.factor, connected_node->variable,
+          neighbour_evidence->second);
+    }
+  }
+  for (auto *neighbour : hidden_neighbours) {
+    neighbour->merged_unaries.reset();
+    Node::activate(node, *neighbour,
+                   node.disabled_connections.find(neighbour)->second.factor);
   }
   node.merged_unaries.reset();
 }
-- 
2.43.0


From c3082bacfa95a890b3b3fb8a6fe93f376e362652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:35 +0000
Subject: [PATCH 03/25] fix: joint marginal of 2 or more evidences reads freed
 indicators

---
 src/src/structure/QueryManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/structure/QueryManager.cpp b/src/src/structure/QueryManager.cpp
index fd49c1b..cbf7c7d 100644
--- a/src/src/structure/QueryManager.cpp
+++ b/src/src/structure/QueryManager.cpp
@@ -114,7 +114,7 @@ QueryManager::getJointMarginalDistribution(const categoric::Group &subgroup,
   }
 
   std::unordered_set<const factor::Immutable *> contributions;
-  std::vector<factor::Indicator> indicators;
+  std::list<factor::Indicator> indicators; // stable addresses
   for (auto &[node, location] : locations) {
     VisitorConst<HiddenClusters::iterator, Evidences::iterator>{
         [&node = node, &subgroup_nodes,
-- 
2.43.0


From ea973110fca858c9f583f0895ff01abe67da4294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:35 +0000
Subject: [PATCH 04/25] fix: removeEvidences leaves the model inconsistent when
 a variable is not observed

---
 src/src/structure/EvidenceManager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/src/structure/EvidenceManager.cpp b/src/src/structure/EvidenceManager.cpp
index 5670c5a..6abd31c 100644
--- a/src/src/structure/EvidenceManager.cpp
+++ b/src/src/structure/EvidenceManager.cpp
@@ -110,6 +110,11 @@ void EvidenceRemover::removeEvidences(
   if (variables.empty()) {
     return;
   }
+  for (const auto &variable : variables) {
+    if (state().evidences.find(variable) == state().evidences.end()) {
+      throw Error::make(variable->name(), " is not an evidence");
+    }
+  }
   for (const auto &variable : variables) {
     removeEvidence_(variable);
   }
-- 
2.43.0


From d5eaac3bc1a6598fe74e8f4f18b76a2031055a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:35 +0000
Subject: [PATCH 05/25] fix: asking for 0 threads destroys the pool of the
 model

---
 src/src/structure/bases/PoolAware.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/src/structure/bases/PoolAware.cpp b/src/src/structure/bases/PoolAware.cpp
index 151877e..cd748a8 100644
--- a/src/src/structure/bases/PoolAware.cpp
+++ b/src/src/structure/bases/PoolAware.cpp
@@ -77,6 +77,9 @@ void PoolAware::setPoolSize(const std::size_t new_size) {
   if (new_size == pool->size()) {
     return;
   }
+  if (0 == new_size) {
+    throw Error{"Invalid Pool size"};
+  }
   pool.emplace(new_size);
 }
 } // namespace EFG::strct
-- 
2.43.0


From 09a83821d3c75a426a76c4407dfa2d28e42b16c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:35 +0000
Subject: [PATCH 06/25] fix: makeTrainSet divides by zero for small range
 percentages

---
 src/src/model/ConditionalRandomField.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/src/model/ConditionalRandomField.cpp b/src/src/model/ConditionalRandomField.cpp
index 34e8154..6c2fb7a 100644
--- a/src/src/model/ConditionalRandomField.cpp
+++ b/src/src/model/ConditionalRandomField.cpp
@@ -210,8 +210,9 @@ std::vector<std::vector<std::size_t>> ConditionalRandomField::makeTrainSet(
     categoric::for_each_combination(evidences_range, emplace_samples);
   } else {
     const std::size_t result_max_size = evidences_group.size();
-    const std::size_t result_size_approx =
-        static_cast<std::size_t>(floorf(result_max_size * range_percentage));
+    const std::size_t result_size_approx = std::max<std::size_t>(
+        1,
+        static_cast<std::size_t>(floorf(result_max_size * range_percentage)));
     const std::size_t delta = result_max_size / result_size_approx;
     std::size_t k = 0;
     while (k < result_max_size) {
-- 
2.43.0


From 7daf14f7426bdccc237d55a557a15d050badf66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:35 +0000
Subject: [PATCH 07/25] fix: pool worker threads start before the members they
 read are initialized

---
 src/header/EasyFactorGraph/structure/bases/PoolAware.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/header/EasyFactorGraph/structure/bases/PoolAware.h b/src/header/EasyFactorGraph/structure/bases/PoolAware.h
index 4577a51..dd5cda9 100644
--- a/src/header/EasyFactorGraph/structure/bases/PoolAware.h
+++ b/src/header/EasyFactorGraph/structure/bases/PoolAware.h
@@ -40,9 +40,10 @@ private:
   struct Worker {
     Worker(std::size_t th_id, Context &context);
 
-    std::thread loop;
-
     std::atomic<const Tasks *> to_process = nullptr;
+
+    // last member: the loop accesses all the other ones
+    std::thread loop;
   };
   using WorkerPtr = std::unique_ptr<Worker>;
   std::vector<WorkerPtr> workers;
-- 
2.43.0


From 6e34d591494032ec6bd5bdad11defe111bed399c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:35 +0000
Subject: [PATCH 08/25] fix: Cache::reset binds a reference to a null pointee

---
 src/header/EasyFactorGraph/misc/Cache.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/header/EasyFactorGraph/misc/Cache.h b/src/header/EasyFactorGraph/misc/Cache.h
index 66ab345..66b4e71 100644
--- a/src/header/EasyFactorGraph/misc/Cache.h
+++ b/src/header/EasyFactorGraph/misc/Cache.h
@@ -15,7 +15,9 @@ template <typename T> class Cache : std::unique_ptr<T> {
 public:
   Cache() = default;
 
-  T &reset(std::unique_ptr<T> new_value = nullptr) {
+  void reset() { cast_().reset(); }
+
+  T &reset(std::unique_ptr<T> new_value) {
     auto &ref = cast_();
     ref = std::move(new_value);
     return *ref;
-- 
2.43.0


From ffba4f08538456dce161fcdf44f35a8e535cc99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:35 +0000
Subject: [PATCH 09/25] fix: a throwing propagation leaves the previous result
 marked as valid

---
 src/src/structure/bases/BeliefAware.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/src/structure/bases/BeliefAware.cpp b/src/src/structure/bases/BeliefAware.cpp
index c019b7f..d6fce8f 100644
--- a/src/src/structure/bases/BeliefAware.cpp
+++ b/src/src/structure/bases/BeliefAware.cpp
@@ -80,6 +80,7 @@ void BeliefAware::propagateBelief(PropagationKind kind) {
 
   auto &clusters = stateMutable().clusters;
   auto &pool = getPool();
+  resetBelief(); // restored only when the propagation succeeds
   reset_messages(clusters);
 
   PropagationResult result;
-- 
2.43.0


From 902110ba1af679bd7ff96f694639e3ec888eafee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:36 +0000
Subject: [PATCH 10/25] fix: changing weights leaves merged unaries and
 evidence messages outdated

---
 .../structure/bases/FactorsAware.h                |  6 ++++++
 src/src/structure/bases/FactorsAware.cpp          | 15 +++++++++++++++
 src/src/trainable/FactorsTunableManager.cpp       |  3 ++-
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/header/EasyFactorGraph/structure/bases/FactorsAware.h b/src/header/EasyFactorGraph/structure/bases/FactorsAware.h
index f796d7b..1ecbe38 100644
--- a/src/header/EasyFactorGraph/structure/bases/FactorsAware.h
+++ b/src/header/EasyFactorGraph/structure/bases/FactorsAware.h
@@ -21,6 +21,12 @@ public:
 protected:
   void addDistribution(const EFG::factor::ImmutablePtr &distribution);
 
+  /**
+   * @brief invalidates everything that was computed from the images of the
+   * factors. To call after changing the images of already inserted factors.
+   */
+  void resetImagesDependencies();
+
 private:
   NodeLocation findOrMakeNode(const categoric::VariablePtr &var);
 
diff --git a/src/src/structure/bases/FactorsAware.cpp b/src/src/structure/bases/FactorsAware.cpp
index 05812f7..9500095 100644
--- a/src/src/structure/bases/FactorsAware.cpp
+++ b/src/src/structure/bases/FactorsAware.cpp
@@ -37,6 +37,21 @@ void FactorsAware::addDistribution(
   factorsAll.emplace(distribution);
 }
 
+void FactorsAware::resetImagesDependencies() {
+  auto &state = stateMutable();
+  for (auto &[var, node] : state.nodes) {
+    for (auto &[connected_node, connection] : node->disabled_connections) {
+      auto evidence_it = state.evidences.find(connected_node->variable);
+      if (evidence_it != state.evidences.end()) {
+        connection.message = std::make_unique<factor::Evidence>(
+            *connection.factor, connected_node->variable, evidence_it->second);
+      }
+    }
+    node->merged_unaries.reset();
+  }
+  resetBelief();
+}
+
 namespace {
 void check_is_same_variable(const categoric::VariablePtr &a,
                             const categoric::VariablePtr &b) {
diff --git a/src/src/trainable/FactorsTunableManager.cpp b/src/src/trainable/FactorsTunableManager.cpp
index 2b86e32..44da85f 100644
--- a/src/src/trainable/FactorsTunableManager.cpp
+++ b/src/src/trainable/FactorsTunableManager.cpp
@@ -58,7 +58,7 @@ void FactorsTunableGetter::setWeights(const std::vector<float> &weights) {
   for (std::size_t k = 0; k < tuners.size(); ++k) {
     tuners[k]->setWeight(weights[k]);
   }
-  resetBelief();
+  resetImagesDependencies();
 }
 
 std::vector<float> FactorsTunableGetter::getWeightsGradient(
@@ -140,6 +140,7 @@ void FactorsTunableInserter::addTunableFactor(
         tuner_sharing.addElement(std::move(tuner));
         tuner_sharing.setWeight(tuner_sharing.getWeight());
       });
+  resetImagesDependencies();
 }
 
 void FactorsTunableInserter::copyTunableFactor(
-- 
2.43.0


From c607a3825db57aac1c13c4d0c07fe862de52866c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:36 +0000
Subject: [PATCH 11/25] fix: a tunable factor refused for its sharing group is
 left in the model without tuner

---
 src/src/trainable/FactorsTunableManager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/src/trainable/FactorsTunableManager.cpp b/src/src/trainable/FactorsTunableManager.cpp
index 44da85f..ddc98fc 100644
--- a/src/src/trainable/FactorsTunableManager.cpp
+++ b/src/src/trainable/FactorsTunableManager.cpp
@@ -119,6 +119,9 @@ TunerPtr FactorsTunableInserter::makeTuner(const FactorExponentialPtr &factor) {
 void FactorsTunableInserter::addTunableFactor(
     const FactorExponentialPtr &factor,
     const std::optional<categoric::VariablesSet> &group_sharing_weight) {
+  auto other_it = (std::nullopt == group_sharing_weight)
+                      ? tuners.end()
+                      : findTuner(*group_sharing_weight);
   addDistribution(factor);
   auto tuner = makeTuner(factor);
   tunable_factors.emplace(factor);
@@ -126,7 +129,6 @@ void FactorsTunableInserter::addTunableFactor(
     tuners.emplace_back(std::move(tuner));
     return;
   }
-  auto other_it = findTuner(*group_sharing_weight);
   visitTuner(
       other_it->get(),
       [&tuner, &other_it](BaseTuner &) {
-- 
2.43.0


From 643aec30eb899b2ccb863a7ec496bc743dfc8aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:36 +0000
Subject: [PATCH 12/25] fix: two variables with the same name and different
 sizes are accepted in a model

---
 .../EasyFactorGraph/structure/bases/FactorsAware.h    |  2 ++
 src/src/structure/bases/FactorsAware.cpp              | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/header/EasyFactorGraph/structure/bases/FactorsAware.h b/src/header/EasyFactorGraph/structure/bases/FactorsAware.h
index 1ecbe38..b462c28 100644
--- a/src/header/EasyFactorGraph/structure/bases/FactorsAware.h
+++ b/src/header/EasyFactorGraph/structure/bases/FactorsAware.h
@@ -28,6 +28,8 @@ protected:
   void resetImagesDependencies();
 
 private:
+  void checkVariable(const categoric::VariablePtr &var) const;
+
   NodeLocation findOrMakeNode(const categoric::VariablePtr &var);
 
   void addUnaryDistribution(const EFG::factor::ImmutablePtr &unary_factor);
diff --git a/src/src/structure/bases/FactorsAware.cpp b/src/src/structure/bases/FactorsAware.cpp
index 9500095..b983cc6 100644
--- a/src/src/structure/bases/FactorsAware.cpp
+++ b/src/src/structure/bases/FactorsAware.cpp
@@ -62,6 +62,14 @@ void check_is_same_variable(const categoric::VariablePtr &a,
 }
 } // namespace
 
+void FactorsAware::checkVariable(const categoric::VariablePtr &var) const {
+  for (const auto &existing : getAllVariables()) {
+    if (existing->name() == var->name()) {
+      check_is_same_variable(var, existing);
+    }
+  }
+}
+
 StateAware::NodeLocation
 FactorsAware::findOrMakeNode(const categoric::VariablePtr &var) {
   if (auto info = locate(var); info.has_value()) {
@@ -84,6 +92,7 @@ FactorsAware::findOrMakeNode(const categoric::VariablePtr &var) {
 void FactorsAware::addUnaryDistribution(
     const EFG::factor::ImmutablePtr &unary_factor) {
   const auto &var = unary_factor->function().vars().getVariables().front();
+  checkVariable(var);
   auto &&[node, _] = findOrMakeNode(var);
   node->unary_factors.push_back(unary_factor);
   node->merged_unaries.reset();
@@ -103,6 +112,8 @@ void hybrid_insertion(Node *node_hidden, Node *node_evidence,
 void FactorsAware::addBinaryDistribution(
     const EFG::factor::ImmutablePtr &binary_factor) {
   const auto &vars = binary_factor->function().vars().getVariables();
+  checkVariable(vars.front());
+  checkVariable(vars.back());
   const auto nodeA_location = findOrMakeNode(vars.front());
   auto *nodeA = nodeA_location.node;
   const auto nodeB_location = findOrMakeNode(vars.back());
-- 
2.43.0


From 0b11dfe2ce8ff5fc4aab9bb8e1ff665bd2db6e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:36 +0000
Subject: [PATCH 13/25] fix: refused binary factors leave their variables in
 the model

---
 src/src/structure/bases/FactorsAware.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/src/structure/bases/FactorsAware.cpp b/src/src/structure/bases/FactorsAware.cpp
index b983cc6..20d96e2 100644
--- a/src/src/structure/bases/FactorsAware.cpp
+++ b/src/src/structure/bases/FactorsAware.cpp
@@ -114,19 +114,25 @@ void FactorsAware::addBinaryDistribution(
   const auto &vars = binary_factor->function().vars().getVariables();
   checkVariable(vars.front());
   checkVariable(vars.back());
+  // nodes are created only after having checked the insertion is possible
+  if (auto infoA = locate(vars.front()), infoB = locate(vars.back());
+      infoA.has_value() && infoB.has_value()) {
+    auto *nodeA = infoA->node;
+    auto *nodeB = infoB->node;
+    if ((nodeA->active_connections.find(nodeB) !=
+         nodeA->active_connections.end()) ||
+        (nodeA->disabled_connections.find(nodeB) !=
+         nodeA->disabled_connections.end())) {
+      throw Error::make(nodeA->variable->name(), " and ",
+                        nodeB->variable->name(), " are already connected");
+    }
+  }
+
   const auto nodeA_location = findOrMakeNode(vars.front());
   auto *nodeA = nodeA_location.node;
   const auto nodeB_location = findOrMakeNode(vars.back());
   auto *nodeB = nodeB_location.node;
 
-  if ((nodeA->active_connections.find(nodeB) !=
-       nodeA->active_connections.end()) ||
-      (nodeA->disabled_connections.find(nodeB) !=
-       nodeA->disabled_connections.end())) {
-    throw Error::make(nodeA->variable->name(), " and ", nodeB->variable->name(),
-                      " are already connected");
-  }
-
   VisitorConst<HiddenClusters::iterator, Evidences::iterator>{
       [&](const HiddenClusters::iterator &hiddenA_location) {
         VisitorConst<HiddenClusters::iterator, Evidences::iterator>{
-- 
2.43.0


From b8a14b8b28deebd954a522808cba8d40fb808f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:36 +0000
Subject: [PATCH 14/25] fix: ConditionalRandomField::setEvidences assumes
 another order and applies invalid values partially

---
 src/src/model/ConditionalRandomField.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/src/model/ConditionalRandomField.cpp b/src/src/model/ConditionalRandomField.cpp
index 6c2fb7a..1359311 100644
--- a/src/src/model/ConditionalRandomField.cpp
+++ b/src/src/model/ConditionalRandomField.cpp
@@ -120,13 +120,21 @@ void ConditionalRandomField::replaceIfNeeded(train::TunerPtr &container,
 
 void ConditionalRandomField::setEvidences(
     const std::vector<std::size_t> &values) {
-  const auto &state = this->state();
-  if (values.size() != state.evidences.size()) {
-    throw Error::make("Expected ", std::to_string(state.evidences.size()),
+  const auto observed = getObservedVariables();
+  if (values.size() != observed.size()) {
+    throw Error::make("Expected ", std::to_string(observed.size()),
                       " evidences, but got instead ", values.size());
   }
   std::size_t k = 0;
-  for (const auto &[var, val] : state.evidences) {
+  for (const auto &var : observed) {
+    if (var->size() <= values[k]) {
+      throw Error::make(std::to_string(values[k]),
+                        " is an invalid evidence for variable ", var->name());
+    }
+    ++k;
+  }
+  k = 0;
+  for (const auto &var : observed) {
     setEvidence(var, values[k]);
     ++k;
   }
-- 
2.43.0


From 441c6d08ccfed8743481afffe51f049a3e25c06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:36 +0000
Subject: [PATCH 15/25] fix: ConditionalRandomField gradient reads evidences
 from the wrong positions of the samples

---
 .../EasyFactorGraph/model/ConditionalRandomField.h  |  3 ++-
 src/src/model/ConditionalRandomField.cpp            | 13 ++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/header/EasyFactorGraph/model/ConditionalRandomField.h b/src/header/EasyFactorGraph/model/ConditionalRandomField.h
index acca867..64375dc 100644
--- a/src/header/EasyFactorGraph/model/ConditionalRandomField.h
+++ b/src/header/EasyFactorGraph/model/ConditionalRandomField.h
@@ -84,6 +84,7 @@ private:
   void replaceIfNeeded(train::TunerPtr &container,
                        const train::BaseTuner &subject);
 
-  const std::vector<std::size_t> evidence_vars_positions;
+  // positions of getObservedVariables() in getAllVariables()
+  std::vector<std::size_t> evidence_vars_positions;
 };
 } // namespace EFG::model
diff --git a/src/src/model/ConditionalRandomField.cpp b/src/src/model/ConditionalRandomField.cpp
index 1359311..d5a6692 100644
--- a/src/src/model/ConditionalRandomField.cpp
+++ b/src/src/model/ConditionalRandomField.cpp
@@ -30,18 +30,15 @@ find_positions(const categoric::VariablesSoup &all_vars,
 }
 } // namespace
 
-ConditionalRandomField::ConditionalRandomField(const ConditionalRandomField &o)
-    : evidence_vars_positions(
-          find_positions(o.getAllVariables(), o.getObservedVariables())) {
+ConditionalRandomField::ConditionalRandomField(
+    const ConditionalRandomField &o) {
   absorb(SourceStructure{static_cast<const strct::FactorsConstGetter *>(&o),
                          static_cast<const train::FactorsTunableGetter *>(&o)},
          false);
 }
 
 ConditionalRandomField::ConditionalRandomField(const RandomField &source,
-                                               bool copy)
-    : evidence_vars_positions(find_positions(source.getAllVariables(),
-                                             source.getObservedVariables())) {
+                                               bool copy) {
   absorb(
       SourceStructure{
           static_cast<const strct::FactorsConstGetter *>(&source),
@@ -60,6 +57,8 @@ void ConditionalRandomField::absorb(const SourceStructure &source, bool copy) {
   for (const auto &[var, val] : evidences) {
     setEvidence(findVariable(var->name()), val);
   }
+  evidence_vars_positions =
+      find_positions(getAllVariables(), getObservedVariables());
   // replace tuners of factors connected to an evidence
   for (auto &tuner : tuners) {
     train::visitTuner(
@@ -176,7 +175,7 @@ std::vector<float> ConditionalRandomField::getWeightsGradient_(
         [this, &tasks](const auto &combination) {
           {
             std::size_t var_pos = 0;
-            for (auto &[var, val] : this->state().evidences) {
+            for (const auto &var : this->getObservedVariables()) {
               this->setEvidence(
                   var, combination[this->evidence_vars_positions[var_pos]]);
               ++var_pos;
-- 
2.43.0


From 7330960060dfcad8e486d75596dda07e5e740150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:22 +0000
Subject: [PATCH 16/25] fix: groups accept variables sharing the name when
 sizes differ

---
 src/src/categoric/Group.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/src/categoric/Group.cpp b/src/src/categoric/Group.cpp
index 59794c6..0b7b9ba 100644
--- a/src/src/categoric/Group.cpp
+++ b/src/src/categoric/Group.cpp
@@ -8,7 +8,28 @@
 #include <EasyFactorGraph/Error.h>
 #include <EasyFactorGraph/categoric/Group.h>
 
+#include <algorithm>
+
 namespace EFG::categoric {
+namespace {
+bool contains_name(const VariablesSoup &soup, const std::string &name) {
+  return std::any_of(
+      soup.begin(), soup.end(),
+      [&name](const VariablePtr &var) { return var->name() == name; });
+}
+
+bool has_repeated_names(const VariablesSoup &soup) {
+  VariablesSoup visited;
+  for (const auto &var : soup) {
+    if (contains_name(visited, var->name())) {
+      return true;
+    }
+    visited.push_back(var);
+  }
+  return false;
+}
+} // namespace
+
 VariablesSet to_vars_set(const VariablesSoup &soup) {
   VariablesSet result;
   for (const auto &var : soup) {
@@ -22,7 +43,7 @@ Group::Group(const VariablesSoup &group)
   if (group.empty()) {
     throw Error{"Variables group can't be empty"};
   }
-  if (group.size() != group_sorted.size()) {
+  if (has_repeated_names(group)) {
     throw Error{"Variables group with multiple variables with same name"};
   }
 }
@@ -33,8 +54,7 @@ Group::Group(const VariablePtr &var) {
 }
 
 void Group::add(const VariablePtr &var) {
-  auto it = group_sorted.find(var);
-  if (it == group_sorted.end()) {
+  if (!contains_name(group, var->name())) {
     group.push_back(var);
     group_sorted.emplace(var);
     return;
-- 
2.43.0


From 12d2fd6ea550ee987a4ad47c62a4e56f2292d595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:22 +0000
Subject: [PATCH 17/25] fix: Group::replaceVariables reads out of bounds when
 passing repeated variables

---
 src/src/categoric/Group.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/src/categoric/Group.cpp b/src/src/categoric/Group.cpp
index 0b7b9ba..4ba9088 100644
--- a/src/src/categoric/Group.cpp
+++ b/src/src/categoric/Group.cpp
@@ -65,7 +65,8 @@ void Group::add(const VariablePtr &var) {
 
 void Group::replaceVariables(const VariablesSoup &new_variables) {
   auto new_group_sorted = to_vars_set(new_variables);
-  if (new_group_sorted.size() != group.size()) {
+  if ((new_variables.size() != group.size()) ||
+      has_repeated_names(new_variables)) {
     throw Error{"Invalid new variables group"};
   }
   for (std::size_t k = 0; k < new_variables.size(); ++k) {
-- 
2.43.0


From 62f8bc20c03ae80fb1049b9b90a7714eee02d287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:22 +0000
Subject: [PATCH 18/25] fix: json importer has undefined behaviour on missing
 keys

---
 src/src/io/json/Importer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/src/io/json/Importer.cpp b/src/src/io/json/Importer.cpp
index e78b250..c9a0722 100644
--- a/src/src/io/json/Importer.cpp
+++ b/src/src/io/json/Importer.cpp
@@ -92,7 +92,7 @@ importFactor(const nlohmann::json &subject,
 
   for (const auto &comb : access(subject, "Distr_val")) {
     std::vector<std::size_t> combination;
-    for (const auto &v : comb["v"]) {
+    for (const auto &v : access(comb, "v")) {
       combination.push_back(std::atoi(to_string(v).c_str()));
     }
     const float val =
@@ -135,7 +135,7 @@ Importer::convert(Inserters recipient, const nlohmann::json &source) {
   // import variables
   categoric::VariablesSet variables;
   std::unordered_map<std::string, std::size_t> evidences;
-  for (const auto &var : source["Variables"]) {
+  for (const auto &var : access(source, "Variables")) {
     const auto name = to_string(access(var, "name"));
     const auto size = to_string(access(var, "Size"));
     auto new_var = categoric::make_variable(std::atoi(size.c_str()), name);
@@ -152,7 +152,7 @@ Importer::convert(Inserters recipient, const nlohmann::json &source) {
   }
   // import potentials
   ImportHelper importer(recipient);
-  for (const auto &factor : source["Potentials"]) {
+  for (const auto &factor : access(source, "Potentials")) {
     importPotential(factor, variables, importer);
   }
   importer.importCumulatedTunable();
-- 
2.43.0


From 30309d060b74b3ec91bf8dedf177b8fcc32021a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:22 +0000
Subject: [PATCH 19/25] fix: json importer alters the names containing escaped
 characters

---
 src/src/io/json/Importer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/src/io/json/Importer.cpp b/src/src/io/json/Importer.cpp
index c9a0722..f4957cf 100644
--- a/src/src/io/json/Importer.cpp
+++ b/src/src/io/json/Importer.cpp
@@ -37,8 +37,7 @@ const nlohmann::json &access(const nlohmann::json &subject,
 
 std::string to_string(const nlohmann::json &subject) {
   if (subject.is_string()) {
-    auto raw_dump = subject.dump();
-    return std::string{raw_dump, 1, raw_dump.size() - 2};
+    return subject.get<std::string>();
   }
   throw Error{"Expected a string"};
 }
-- 
2.43.0


From 1f1a3cb2b1fa85f476fd089179bf5879c4722620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:55 +0000
Subject: [PATCH 20/25] fix: importers accept variables sharing the name when
 sizes differ

---
 src/src/io/json/Importer.cpp | 7 ++++++-
 src/src/io/xml/Importer.cpp  | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/src/io/json/Importer.cpp b/src/src/io/json/Importer.cpp
index f4957cf..9ed2084 100644
--- a/src/src/io/json/Importer.cpp
+++ b/src/src/io/json/Importer.cpp
@@ -11,6 +11,8 @@
 
 #include "../Utils.h"
 
+#include <algorithm>
+
 namespace EFG::io::json {
 nlohmann::json
 Importer::importJsonFromFile(const std::filesystem::path &file_path) {
@@ -138,7 +140,10 @@ Importer::convert(Inserters recipient, const nlohmann::json &source) {
     const auto name = to_string(access(var, "name"));
     const auto size = to_string(access(var, "Size"));
     auto new_var = categoric::make_variable(std::atoi(size.c_str()), name);
-    if (variables.find(new_var) != variables.end()) {
+    if (std::any_of(variables.begin(), variables.end(),
+                    [&name](const categoric::VariablePtr &v) {
+                      return v->name() == name;
+                    })) {
       throw Error::make(name, " is a multiple times specified variable ");
     }
     variables.emplace(new_var);
diff --git a/src/src/io/xml/Importer.cpp b/src/src/io/xml/Importer.cpp
index 524d127..c0ed01c 100644
--- a/src/src/io/xml/Importer.cpp
+++ b/src/src/io/xml/Importer.cpp
@@ -13,6 +13,8 @@
 
 #include <XML-Parser/Parser.h>
 
+#include <algorithm>
+
 namespace EFG::io::xml {
 namespace {
 const std::string *try_access_attribute(const xmlPrs::Tag &subject,
@@ -157,7 +159,10 @@ Importer::convert(Inserters subject, const std::filesystem::path &file_path) {
         const auto &name = access_attribute(*var, "name");
         const auto &size = access_attribute(*var, "Size");
         auto new_var = categoric::make_variable(std::atoi(size.c_str()), name);
-        if (variables.find(new_var) != variables.end()) {
+        if (std::any_of(variables.begin(), variables.end(),
+                        [&name](const categoric::VariablePtr &v) {
+                          return v->name() == name;
+                        })) {
           throw Error::make(name, " is a multiple times specified variable ");
         }
         variables.emplace(new_var);
-- 
2.43.0


From 7ca42b14be88a3a1adb1f27f336906867783933c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:55 +0000
Subject: [PATCH 21/25] fix: blank lines in imported files are parsed as
 combinations

---
 src/src/io/Utils.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/src/io/Utils.h b/src/src/io/Utils.h
index 1fd9bce..2105308 100644
--- a/src/src/io/Utils.h
+++ b/src/src/io/Utils.h
@@ -45,7 +45,9 @@ void for_each_line(std::istream &stream, const Predicate &pred) {
   while (!stream.eof()) {
     line.clear();
     std::getline(stream, line);
-    pred(line);
+    if (line.find_first_not_of(" \t\r\n") != std::string::npos) {
+      pred(line);
+    }
   }
 }
 
-- 
2.43.0


From aa4f5ecb8a597f451498be1690f59937ce5a2f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:55 +0000
Subject: [PATCH 22/25] fix: imported train sets contain zeros instead of the
 read combinations

---
 src/src/io/TrainSetImport.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/src/io/TrainSetImport.cpp b/src/src/io/TrainSetImport.cpp
index 529510a..081dffe 100644
--- a/src/src/io/TrainSetImport.cpp
+++ b/src/src/io/TrainSetImport.cpp
@@ -9,6 +9,8 @@
 
 #include "Utils.h"
 
+#include <sstream>
+
 namespace EFG::io {
 
 train::TrainSet import_train_set(const std::string &file_name) {
@@ -17,13 +19,19 @@ train::TrainSet import_train_set(const std::string &file_name) {
     std::size_t line_numb = 0;
     std::size_t expected_size = 0;
     for_each_line(stream, [&](const std::string &line) {
-      auto &&[combination, img] = parse_combination_image(line);
+      std::vector<std::size_t> combination;
+      std::stringstream buff{line};
+      std::string token;
+      while (buff >> token) {
+        combination.push_back(
+            static_cast<std::size_t>(std::atoi(token.c_str())));
+      }
       if ((expected_size != 0) && (combination.size() != expected_size)) {
         throw Error::make("Invalid combination size at line ",
                           std::to_string(line_numb));
       }
       expected_size = combination.size();
-      combinations.emplace_back(std::move(expected_size));
+      combinations.emplace_back(std::move(combination));
       ++line_numb;
     });
   });
-- 
2.43.0


From 76d61ce2afef83443c7fe64487853ad41facdb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:55 +0000
Subject: [PATCH 23/25] fix: exporters truncate images and weights to 6
 decimals

---
 src/src/io/Utils.cpp         | 8 ++++++++
 src/src/io/Utils.h           | 3 +++
 src/src/io/json/Exporter.cpp | 4 ++--
 src/src/io/xml/Exporter.cpp  | 4 ++--
 4 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/src/io/Utils.cpp b/src/src/io/Utils.cpp
index 7757e80..e70e6dc 100644
--- a/src/src/io/Utils.cpp
+++ b/src/src/io/Utils.cpp
@@ -7,9 +7,17 @@
 
 #include "Utils.h"
 
+#include <limits>
 #include <sstream>
 
 namespace EFG::io {
+std::string to_lossless_string(float value) {
+  std::stringstream buff;
+  buff.precision(std::numeric_limits<float>::max_digits10);
+  buff << value;
+  return buff.str();
+}
+
 std::pair<std::vector<std::size_t>, float>
 parse_combination_image(const std::string &line) {
   std::stringstream buff{line};
diff --git a/src/src/io/Utils.h b/src/src/io/Utils.h
index 2105308..934c4d2 100644
--- a/src/src/io/Utils.h
+++ b/src/src/io/Utils.h
@@ -51,6 +51,9 @@ void for_each_line(std::istream &stream, const Predicate &pred) {
   }
 }
 
+// converts to a string that, when parsed, leads to exactly the same value
+std::string to_lossless_string(float value);
+
 std::pair<std::vector<std::size_t>, float>
 parse_combination_image(const std::string &line);
 
diff --git a/src/src/io/json/Exporter.cpp b/src/src/io/json/Exporter.cpp
index 30e1273..3631cb7 100644
--- a/src/src/io/json/Exporter.cpp
+++ b/src/src/io/json/Exporter.cpp
@@ -40,7 +40,7 @@ nlohmann::json &printPotential(const factor::Immutable &distr,
   distr.function().forEachNonNullCombination<false>(
       [&](const auto &comb, float img) {
         auto &Distr_val_added = Distr_val.emplace_back();
-        Distr_val_added["D"] = std::to_string(img);
+        Distr_val_added["D"] = to_lossless_string(img);
         auto &values = Distr_val_added["v"];
         for (const auto &v : comb) {
           values.emplace_back() = std::to_string(v);
@@ -52,7 +52,7 @@ nlohmann::json &printPotential(const factor::Immutable &distr,
 nlohmann::json &printExpPotential(const factor::FactorExponential &distr,
                                   nlohmann::json &recipient) {
   auto &pot_tag = printPotential(distr, recipient);
-  pot_tag["weight"] = std::to_string(distr.getWeight());
+  pot_tag["weight"] = to_lossless_string(distr.getWeight());
   return pot_tag;
 }
 } // namespace
diff --git a/src/src/io/xml/Exporter.cpp b/src/src/io/xml/Exporter.cpp
index b19b5ef..258769b 100644
--- a/src/src/io/xml/Exporter.cpp
+++ b/src/src/io/xml/Exporter.cpp
@@ -40,7 +40,7 @@ xmlPrs::Tag &printPotential(const factor::Immutable &distr,
       [&](const auto &comb, float img) {
         auto &comb_val = pot_tag.addNested("Distr_val");
         auto &attributes = comb_val.getAttributes();
-        attributes.emplace("D", std::to_string(img));
+        attributes.emplace("D", to_lossless_string(img));
         for (auto v : comb) {
           attributes.emplace("v", std::to_string(v));
         }
@@ -51,7 +51,7 @@ xmlPrs::Tag &printPotential(const factor::Immutable &distr,
 xmlPrs::Tag &printExpPotential(const factor::FactorExponential &distr,
                                xmlPrs::Tag &recipient) {
   auto &pot_tag = printPotential(distr, recipient);
-  pot_tag.getAttributes().emplace("weight", std::to_string(distr.getWeight()));
+  pot_tag.getAttributes().emplace("weight", to_lossless_string(distr.getWeight()));
   return pot_tag;
 }
 } // namespace
-- 
2.43.0


From c9b331a95e345cc5bf06077b7b47d62713a814bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:55 +0000
Subject: [PATCH 24/25] fix: merging unaries with all null images yields nan
 values

---
 src/src/structure/SpecialFactors.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/src/structure/SpecialFactors.cpp b/src/src/structure/SpecialFactors.cpp
index d470a10..ea99a01 100644
--- a/src/src/structure/SpecialFactors.cpp
+++ b/src/src/structure/SpecialFactors.cpp
@@ -52,7 +52,11 @@ public:
   }
 
   void normalize() {
-    float coeff = 1.f / *std::max_element(imgs_->begin(), imgs_->end());
+    const float max = *std::max_element(imgs_->begin(), imgs_->end());
+    if (max == 0) {
+      return;
+    }
+    float coeff = 1.f / max;
     for (auto &val : *imgs_) {
       val *= coeff;
     }
-- 
2.43.0


From bcf9b02efc1800aee22cbc3f91b5a3a55cddc78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:55 +0000
Subject: [PATCH 25/25] fix: binary gradient divides by zero when all the joint
 images are null

---
 src/src/trainable/tuners/BinaryTuner.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/src/trainable/tuners/BinaryTuner.cpp b/src/src/trainable/tuners/BinaryTuner.cpp
index 273a625..812eafd 100644
--- a/src/src/trainable/tuners/BinaryTuner.cpp
+++ b/src/src/trainable/tuners/BinaryTuner.cpp
@@ -55,9 +55,10 @@ float BinaryTuner::getGradientBeta() {
         probs_coeff +=
             probs.emplace_back(img * merged_a[comb[0]] * merged_b[comb[1]]);
       });
-  probs_coeff = 1.f / probs_coeff;
-  for (auto &val : probs) {
-    val *= probs_coeff;
+  if (probs_coeff != 0) {
+    for (auto &val : probs) {
+      val /= probs_coeff;
+    }
   }
   return dotProduct(probs);
 }
-- 
2.43.0

