From 6bab38a79a78e7e0d24f92eb5e30166c177abce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:13 +0000
Subject: [PATCH 01/22] fix: average the prior's log weights when shifting
 pseudo q-values

The running mean never advanced its counter, so psuedo_q_value_offset was computed from the last log weight
visited rather than from the mean log weight.
---
 src/algorithms/ments/ments_decision_node.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/algorithms/ments/ments_decision_node.cpp b/src/algorithms/ments/ments_decision_node.cpp
index dad6d88..8310ab2 100644
--- a/src/algorithms/ments/ments_decision_node.cpp
+++ b/src/algorithms/ments/ments_decision_node.cpp
@@ -55,6 +55,7 @@ namespace thts {
                     }
                     mean_log_weight *= (i-1.0) / i;
                     mean_log_weight += log_weight / i;
+                    i += 1.0;
                 }
                 psuedo_q_value_offset = thts_manager->psuedo_q_value_offset - mean_log_weight;
             }
-- 
2.43.0


From d00a70302c9534ae53f4a355e1f42d9b50513839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:38 +0000
Subject: [PATCH 02/22] fix: no uniform exploration when epsilon is zero,
 instead of NaN

With epsilon=0 and an unvisited node lambda was 0/log(1) = NaN. DENTS and EST compute the distribution in the node
constructor, so their entropies (and then their search policies) became NaN.
---
 src/algorithms/ments/ments_decision_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/ments/ments_decision_node.cpp b/src/algorithms/ments/ments_decision_node.cpp
index 8310ab2..441feaa 100644
--- a/src/algorithms/ments/ments_decision_node.cpp
+++ b/src/algorithms/ments/ments_decision_node.cpp
@@ -203,7 +203,7 @@ namespace thts {
         MentsManager& manager = (MentsManager&) *thts_manager;
         double epsilon = manager.epsilon;
         if (is_root_node() && manager.root_node_epsilon > 0.0) epsilon = manager.root_node_epsilon;
-        double lambda = epsilon / log(num_visits+1);
+        double lambda = (epsilon > 0.0) ? epsilon / log(num_visits+1) : 0.0;
         if (lambda > manager.max_explore_prob) {
             lambda = manager.max_explore_prob;
         }
-- 
2.43.0


From 415f8b32e8d0b7a6143ac024224d5c1716c80a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:38 +0000
Subject: [PATCH 03/22] fix: weight leaf nodes by their visits in DENTS entropy
 backups

DentsDNode never called EntDNode::visit_ent, so a leaf child kept an entropy backup weight of one however often it
was visited, and the chance node's subtree entropy was not the average over sampled outcomes.
---
 include/algorithms/ments/dents/dents_decision_node.h | 5 +++++
 src/algorithms/ments/dents/dents_decision_node.cpp   | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/include/algorithms/ments/dents/dents_decision_node.h b/include/algorithms/ments/dents/dents_decision_node.h
index 83aca30..fa4aedc 100644
--- a/include/algorithms/ments/dents/dents_decision_node.h
+++ b/include/algorithms/ments/dents/dents_decision_node.h
@@ -51,6 +51,11 @@ namespace thts {
              * I.e. The 'value_temp' refers to the temperature coefficient of entropy when computing (soft) values
              */
             virtual double get_value_temp() const;            
+
+            /**
+             * Implements the thts visit function for the node, calling the visit functions of dbments and EntDNode
+             */
+            virtual void visit(ThtsEnvContext& ctx);
             
             /**
              * Helper to get the soft q-value of an action. Taking into account for if we are acting as an opponent.
diff --git a/src/algorithms/ments/dents/dents_decision_node.cpp b/src/algorithms/ments/dents/dents_decision_node.cpp
index 89db0f1..047f9a7 100644
--- a/src/algorithms/ments/dents/dents_decision_node.cpp
+++ b/src/algorithms/ments/dents/dents_decision_node.cpp
@@ -46,6 +46,14 @@ namespace thts {
             visits_scale);
     }
 
+    /**
+     * Calls the dbments visit, and the entropy visit (so leaf nodes are weighted by visits in entropy backups)
+     */
+    void DentsDNode::visit(ThtsEnvContext& ctx) {
+        DBMentsDNode::visit(ctx);
+        visit_ent(is_leaf());
+    }
+
     /**
      * Gets the soft q value of a child node (as considered by this current node).
      * 
-- 
2.43.0


From 2a1090da8cb216354eeb13ed565f454afda34e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:13 +0000
Subject: [PATCH 04/22] fix: chance nodes lock shared children in a consistent
 order

With a transposition table several chance nodes share decision node children, and each locked them in the iteration
order of its own map. Two backups holding different parents could wait for each other forever.
---
 include/algorithms/common/dp_chance_node.h  |  2 +-
 include/algorithms/common/ent_chance_node.h |  2 +-
 include/thts_chance_node.h                  |  8 ++++++++
 src/thts_chance_node.cpp                    | 16 +++++++++++++---
 4 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/include/algorithms/common/dp_chance_node.h b/include/algorithms/common/dp_chance_node.h
index 4d59ccb..8058d42 100644
--- a/include/algorithms/common/dp_chance_node.h
+++ b/include/algorithms/common/dp_chance_node.h
@@ -97,7 +97,7 @@ namespace thts {
             template <typename T>
             void backup_dp(DNodeChildMap& children, double local_reward, bool is_opponent=false) {
                 std::shared_ptr<DPDNodeChildMap> dp_children = convert_child_map<T>(children);
-                for (auto pr : children) pr.second->lock();
+                lock_child_nodes(children);
                 backup_dp_impl(*dp_children, local_reward, is_opponent);
                 for (auto pr : children) pr.second->unlock();
             }
diff --git a/include/algorithms/common/ent_chance_node.h b/include/algorithms/common/ent_chance_node.h
index a92a5d5..b42ae92 100644
--- a/include/algorithms/common/ent_chance_node.h
+++ b/include/algorithms/common/ent_chance_node.h
@@ -94,7 +94,7 @@ namespace thts {
             template <typename T>
             void backup_ent(DNodeChildMap& children) {
                 std::shared_ptr<EntDNodeChildMap> ent_children = convert_child_map<T>(children);
-                for (auto pr : children) pr.second->lock();
+                lock_child_nodes(children);
                 backup_ent_impl(*ent_children);
                 for (auto pr : children) pr.second->unlock();
             }
diff --git a/include/thts_chance_node.h b/include/thts_chance_node.h
index 0cc1540..b315fa8 100644
--- a/include/thts_chance_node.h
+++ b/include/thts_chance_node.h
@@ -15,6 +15,14 @@ namespace thts {
 
     // CNodeMap type is lengthy, so typedef
     typedef std::unordered_map<std::shared_ptr<const Observation>,std::shared_ptr<ThtsDNode>> DNodeChildMap;
+
+    /**
+     * Locks all of the nodes in a children map, in an order that does not depend on the map. 
+     * 
+     * With a transposition table chance nodes can share children, so they have to lock shared children in the same 
+     * order to avoid deadlock.
+     */
+    void lock_child_nodes(const DNodeChildMap& children);
     
     /**
      * An abstract base class for Chance Nodes.
diff --git a/src/thts_chance_node.cpp b/src/thts_chance_node.cpp
index 2fc2c1b..3c679fc 100644
--- a/src/thts_chance_node.cpp
+++ b/src/thts_chance_node.cpp
@@ -4,17 +4,29 @@
 #include "thts_manager.h"
 #include "thts_types.h"
 
+#include <algorithm>
 #include <cstddef>
 #include <functional>
 #include <mutex>
 #include <tuple>
 #include <utility>
+#include <vector>
 
 using namespace std;
 using namespace thts;
 
 
 namespace thts {
+    /**
+     * Lock in address order
+     */
+    void lock_child_nodes(const DNodeChildMap& children) {
+        vector<ThtsDNode*> nodes;
+        for (auto& observation_child_pair : children) nodes.push_back(observation_child_pair.second.get());
+        sort(nodes.begin(), nodes.end(), less<ThtsDNode*>());
+        for (ThtsDNode* node : nodes) node->lock();
+    }
+
     /**
      * Constructor mostly uses initialisation list. 
      */
@@ -61,9 +73,7 @@ namespace thts {
      * Helper function to lock all children nodes.
      */
     void ThtsCNode::lock_all_children() const {
-        for (auto action_child_pair : children) {
-            action_child_pair.second->lock();
-        }
+        lock_child_nodes(children);
     }
 
     /**
-- 
2.43.0


From 1d57c7e33ede0c7c8ff5414a2bd53b01b1ce717d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:51 +0000
Subject: [PATCH 05/22] fix: split the transposition table so that each mutex
 guards its own part

With num_transposition_table_mutexes > 1 concurrent finds and inserts on one unordered_map were made under different
mutexes, which is a data race.
---
 include/thts_manager.h   | 13 +++++++------
 src/thts_chance_node.cpp |  7 ++++---
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/thts_manager.h b/include/thts_manager.h
index f791a73..d8320f8 100644
--- a/include/thts_manager.h
+++ b/include/thts_manager.h
@@ -164,13 +164,14 @@ namespace thts {
      *      is_two_player_game:
      *          If we are planning for a two player game, rather than a reward maximisation environment
      * Member variables (transposition table):
-     *      dmap:
-     *          A transposition table for decision nodes. Note that a transposition table for chance nodes is 
+     *      dmaps:
+     *          A transposition table for decision nodes, split into one table per mutex. The node with id 'dnode_id' is 
+     *          in 'dmaps[hash(dnode_id) % dmaps.size()]'. Note that a transposition table for chance nodes is 
      *          unnecessary, as an chance nodes that are transpositions, will be children of decision nodes that are 
      *          transpositions.
      *      dmap_mutexes:
-     *          A vector of mutexes to use for protection around the dmap. Accessing 'dmap[dnode_id]', should be 
-     *          protected by the 'dmap_mutexes[hash(dnode_id) % dmap_mutexes.size()]'.
+     *          A vector of mutexes to use for protection around the dmaps. Accessing 'dmaps[i]' should be protected by 
+     *          'dmap_mutexes[i]'.
      */
     class ThtsManager : public RandManager {
         public:
@@ -183,7 +184,7 @@ namespace thts {
             bool use_transposition_table;
             bool is_two_player_game;
 
-            DNodeTable dmap;
+            std::vector<DNodeTable> dmaps;
             std::vector<std::mutex> dmap_mutexes;
 
             /**
@@ -201,7 +202,7 @@ namespace thts {
                 mcts_mode(args.mcts_mode), 
                 use_transposition_table(args.use_transposition_table), 
                 is_two_player_game(args.is_two_player_game),
-                dmap(),
+                dmaps(args.num_transposition_table_mutexes),
                 dmap_mutexes(args.num_transposition_table_mutexes)
             {
             }
diff --git a/src/thts_chance_node.cpp b/src/thts_chance_node.cpp
index 3c679fc..12baa06 100644
--- a/src/thts_chance_node.cpp
+++ b/src/thts_chance_node.cpp
@@ -101,8 +101,9 @@ namespace thts {
      * If using a transposition table, we first check the transposition table to try get it from there. If it's not in 
      * the table, we make the child and insert it in children and the transposition table.
      * 
-     * Additionally, we protect accessing 'dmap[dnode_id]' with the mutex 'thts_manager->dmap_mutexes[mutex_indx]' 
-     * where 'mutex_indx = hash(dnode_id) % thts_manager->dmap_mutexes.size()', by locking it using a lock_guard.
+     * Additionally, we protect accessing 'thts_manager->dmaps[mutex_indx]' with the mutex 
+     * 'thts_manager->dmap_mutexes[mutex_indx]' where 'mutex_indx = hash(dnode_id) % thts_manager->dmap_mutexes.size()', 
+     * by locking it using a lock_guard.
      */
     shared_ptr<ThtsDNode> ThtsCNode::create_child_node_itfc(
         shared_ptr<const Observation> observation, shared_ptr<const State> next_state) 
@@ -115,7 +116,6 @@ namespace thts {
             return child_node;
         }
 
-        DNodeTable& dmap = thts_manager->dmap;
         DNodeIdTuple dnode_id = make_tuple(decision_timestep, observation);
 
         int mutex_indx = 0;
@@ -125,6 +125,7 @@ namespace thts {
         }
 
         lock_guard<mutex> lg(thts_manager->dmap_mutexes[mutex_indx]);
+        DNodeTable& dmap = thts_manager->dmaps[mutex_indx];
 
         auto iter = dmap.find(dnode_id);
         if (iter != dmap.end()) {
-- 
2.43.0


From b4e7817ca2382c1c5de7229cbcddea79a9ec4b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:51 +0000
Subject: [PATCH 06/22] fix: make a new node when a transposition table entry
 has expired

The table holds weak pointers. Searching again with the same manager after the previous tree was deleted threw
bad_weak_ptr in a worker thread.
---
 src/thts_chance_node.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/thts_chance_node.cpp b/src/thts_chance_node.cpp
index 12baa06..59fcfff 100644
--- a/src/thts_chance_node.cpp
+++ b/src/thts_chance_node.cpp
@@ -129,9 +129,12 @@ namespace thts {
 
         auto iter = dmap.find(dnode_id);
         if (iter != dmap.end()) {
-            shared_ptr<ThtsDNode> child_node = shared_ptr<ThtsDNode>(dmap[dnode_id]);
-            children[observation] = child_node;
-            return child_node;
+            // entries are weak pointers, so the node may have been deleted along with an earlier tree
+            shared_ptr<ThtsDNode> child_node = iter->second.lock();
+            if (child_node != nullptr) {
+                children[observation] = child_node;
+                return child_node;
+            }
         }
 
         shared_ptr<ThtsDNode> child_node = create_child_node_helper_itfc(observation, next_state);
-- 
2.43.0


From 376943f25f65b51be56c653b0c02d1b8b856393d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:05 +0000
Subject: [PATCH 07/22] fix: count the actions taken in an evaluation rollout

num_actions_taken was never incremented, so max_trial_length had no effect and a rollout in a problem without
reachable sinks never ended.
---
 src/mc_eval.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mc_eval.cpp b/src/mc_eval.cpp
index 0433d40..4b63294 100644
--- a/src/mc_eval.cpp
+++ b/src/mc_eval.cpp
@@ -101,6 +101,7 @@ namespace thts {
 
             thread_policy.update_step(action, obsv);
             state = next_state;
+            num_actions_taken++;
         }
 
         // store
-- 
2.43.0


From 228bcc5b1e3b13cef1ea99d65b4595969d272aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:05 +0000
Subject: [PATCH 08/22] fix: keep the context alive during an evaluation
 rollout

The rollout held a reference into a temporary shared_ptr, so the policy was given a destroyed context.
---
 src/mc_eval.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mc_eval.cpp b/src/mc_eval.cpp
index 4b63294..7578b82 100644
--- a/src/mc_eval.cpp
+++ b/src/mc_eval.cpp
@@ -87,11 +87,11 @@ namespace thts {
         int num_actions_taken = 0;
         double sample_return = 0.0;
         shared_ptr<const State> state = thts_env->get_initial_state_itfc();
-        ThtsEnvContext& context = *thts_env->sample_context_itfc(state);
+        shared_ptr<ThtsEnvContext> context = thts_env->sample_context_itfc(state);
 
         // Run trial
         while (num_actions_taken < max_trial_length && !thts_env->is_sink_state_itfc(state)) {
-            shared_ptr<const Action> action = thread_policy.get_action(state, context);
+            shared_ptr<const Action> action = thread_policy.get_action(state, *context);
             shared_ptr<const State> next_state = thts_env->sample_transition_distribution_itfc(
                 state, action, rand_manager);
             shared_ptr<const Observation> obsv = thts_env->sample_observation_distribution_itfc(
-- 
2.43.0


From 30397ece56c2581baa190bb6276305c019d04549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:05 +0000
Subject: [PATCH 09/22] fix: return the standard deviation rather than the
 variance of the rollouts

---
 src/mc_eval.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mc_eval.cpp b/src/mc_eval.cpp
index 7578b82..abffdbb 100644
--- a/src/mc_eval.cpp
+++ b/src/mc_eval.cpp
@@ -165,10 +165,10 @@ namespace thts {
     double MCEvaluator::get_stddev_return() {
         double mean = get_mean_return();
         double weight = 1.0 / (sampled_returns.size() - 1.0);
-        double stddev = 0.0;
+        double variance = 0.0;
         for (double val : sampled_returns) {
-            stddev += weight * pow(val - mean, 2.0);
+            variance += weight * pow(val - mean, 2.0);
         }
-        return stddev;
+        return sqrt(variance);
     }
 }
\ No newline at end of file
-- 
2.43.0


From 7b896664b65d6e9ac90cdb05a96705f64e496b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:07 +0000
Subject: [PATCH 10/22] fix: initialise the logger's trial and runtime counters

trials_completed was read (and incremented) without ever having been set.
---
 src/thts_logger.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/thts_logger.cpp b/src/thts_logger.cpp
index 5ec046f..3440132 100644
--- a/src/thts_logger.cpp
+++ b/src/thts_logger.cpp
@@ -27,8 +27,12 @@ namespace thts {
 
     ThtsLogger::ThtsLogger() : 
         prior_runtime(chrono::duration<double>::zero()), 
+        start_time(chrono::system_clock::now()),
+        trials_completed(0),
         trials_delta(numeric_limits<int>::max()), 
-        runtime_delta(numeric_limits<double>::max()) {}
+        last_log_num_trials(0),
+        runtime_delta(numeric_limits<double>::max()),
+        next_log_runtime_threshold(numeric_limits<double>::max()) {}
 
     void ThtsLogger::set_trials_delta(int delta) {
         trials_delta = delta;
-- 
2.43.0


From 61257dfa3b11f497b8d92c3163a3c7321c84851e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:07 +0000
Subject: [PATCH 11/22] fix: keep the logging intervals across run_trials calls

Starting another run set the number of trials at the last log to zero and the runtime threshold to one interval,
while both are compared with totals over all runs. The first trials of every later run were then logged, whatever
the configured deltas.
---
 src/thts_logger.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/thts_logger.cpp b/src/thts_logger.cpp
index 3440132..5b73363 100644
--- a/src/thts_logger.cpp
+++ b/src/thts_logger.cpp
@@ -40,6 +40,7 @@ namespace thts {
     
     void ThtsLogger::set_runtime_delta(double delta) {
         runtime_delta = chrono::duration<double>(delta);
+        next_log_runtime_threshold = prior_runtime + runtime_delta;
     }
     
     int ThtsLogger::size() const {
@@ -54,8 +55,6 @@ namespace thts {
     
     void ThtsLogger::reset_start_time() {
         start_time = chrono::system_clock::now();
-        last_log_num_trials = 0;
-        next_log_runtime_threshold = runtime_delta;
     }
     
     chrono::duration<double> ThtsLogger::get_current_total_runtime() {
-- 
2.43.0


From fc5d2bcb83c71951cb5411ec4d138c79087ac481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:07 +0000
Subject: [PATCH 12/22] fix: accumulate the logged runtime over every run

The runtime of a run was only added to the total when the number of trials completed by the pool since it was made
was equal to the budget of the current run, so not in any run but the first, and not when a time limit stopped the
run. Logged runtimes then went backwards. The check also read num_trials without holding the lock protecting it.
---
 include/thts_logger.h | 7 ++++---
 src/thts.cpp          | 4 +---
 src/thts_logger.cpp   | 5 +++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/thts_logger.h b/include/thts_logger.h
index c9e714b..20ad189 100644
--- a/include/thts_logger.h
+++ b/include/thts_logger.h
@@ -53,9 +53,9 @@ namespace thts {
      *      entries: 
      *          A vector of LoggerEntry objects, each representing a datatype
      *      prior_runtime: 
-     *          The amount of runtime logger from previous calls to ThtsPool run_trials
+     *          The amount of runtime logged up to the end of the last trial
      *      start_time: 
-     *          The time at the start of the last run_trials call in ThtsPool
+     *          The time at the end of the last trial, or at the start of the last run_trials call in ThtsPool if later
      *      trials_completed: 
      *          The number of trials completed (number of times 'trial_completed' called)
      *      trials_delta: 
@@ -147,7 +147,8 @@ namespace thts {
             virtual void log(std::shared_ptr<ThtsDNode> node);
 
             /**
-             * Call this when all trials have been run
+             * Call this at the end of each trial, to add the time since the last call (or 'reset_start_time') to the 
+             * prior runtime. Hence no runtime is lost if a run is stopped by a time limit.
              */
             void update_prior_runtime();
 
diff --git a/src/thts.cpp b/src/thts.cpp
index e6cb9c9..09c2424 100644
--- a/src/thts.cpp
+++ b/src/thts.cpp
@@ -274,9 +274,7 @@ namespace thts {
                 logger->log(root_node);
             }
 
-            if (trials_completed == num_trials) {
-                logger->update_prior_runtime();
-            }
+            logger->update_prior_runtime();
         }
     }
 
diff --git a/src/thts_logger.cpp b/src/thts_logger.cpp
index 5b73363..4f65c83 100644
--- a/src/thts_logger.cpp
+++ b/src/thts_logger.cpp
@@ -86,8 +86,9 @@ namespace thts {
     }
     
     void ThtsLogger::update_prior_runtime() {
-        chrono::duration<double> runtime = chrono::system_clock::now() - start_time;
-        prior_runtime += runtime;
+        chrono::time_point<chrono::system_clock> cur_time = chrono::system_clock::now();
+        prior_runtime += cur_time - start_time;
+        start_time = cur_time;
     }
 
     void ThtsLogger::write_to_ostream(ostream& os) {
-- 
2.43.0


From c17554dba985e0236aa00cdfbf41258c8c4b6405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:07 +0000
Subject: [PATCH 13/22] fix: store logger entries by pointer so that they are
 not sliced

The uct and ments loggers pushed their entries into a vector of the base class, losing every column it does not have.
---
 include/thts_logger.h                   |  2 +-
 src/algorithms/ments/dbments_logger.cpp |  4 ++--
 src/algorithms/ments/ments_logger.cpp   |  4 ++--
 src/algorithms/uct/uct_logger.cpp       |  4 ++--
 src/thts_logger.cpp                     | 11 +++++------
 5 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/include/thts_logger.h b/include/thts_logger.h
index 20ad189..57b4898 100644
--- a/include/thts_logger.h
+++ b/include/thts_logger.h
@@ -70,7 +70,7 @@ namespace thts {
      */
     class ThtsLogger {
         protected:
-            std::vector<LoggerEntry> entries;
+            std::vector<std::shared_ptr<LoggerEntry>> entries;
             std::chrono::duration<double> prior_runtime;
             std::chrono::time_point<std::chrono::system_clock> start_time;
 
diff --git a/src/algorithms/ments/dbments_logger.cpp b/src/algorithms/ments/dbments_logger.cpp
index 0370a0a..c2d6b43 100644
--- a/src/algorithms/ments/dbments_logger.cpp
+++ b/src/algorithms/ments/dbments_logger.cpp
@@ -36,7 +36,7 @@ namespace thts {
         MentsLogger() {}
     
     void DBMentsLogger::add_origin_entry() {
-        entries.push_back(DBMentsLoggerEntry(
+        entries.push_back(make_shared<DBMentsLoggerEntry>(
             chrono::duration<double>::zero(), 
             0,
             0,
@@ -46,7 +46,7 @@ namespace thts {
     
     void DBMentsLogger::log(shared_ptr<ThtsDNode> node) {
         DBMentsDNode& dbments_node = (DBMentsDNode&) *node;
-        entries.push_back(DBMentsLoggerEntry(
+        entries.push_back(make_shared<DBMentsLoggerEntry>(
             get_current_total_runtime(), 
             dbments_node.num_visits,
             dbments_node.MentsDNode::num_backups,
diff --git a/src/algorithms/ments/ments_logger.cpp b/src/algorithms/ments/ments_logger.cpp
index 675489e..208c3f1 100644
--- a/src/algorithms/ments/ments_logger.cpp
+++ b/src/algorithms/ments/ments_logger.cpp
@@ -34,7 +34,7 @@ namespace thts {
         ThtsLogger() {}
     
     void MentsLogger::add_origin_entry() {
-        entries.push_back(MentsLoggerEntry(
+        entries.push_back(make_shared<MentsLoggerEntry>(
             chrono::duration<double>::zero(), 
             0,
             0,
@@ -43,7 +43,7 @@ namespace thts {
     
     void MentsLogger::log(shared_ptr<ThtsDNode> node) {
         MentsDNode& ments_node = (MentsDNode&) *node;
-        entries.push_back(MentsLoggerEntry(
+        entries.push_back(make_shared<MentsLoggerEntry>(
             get_current_total_runtime(), 
             ments_node.num_visits,
             ments_node.num_backups,
diff --git a/src/algorithms/uct/uct_logger.cpp b/src/algorithms/uct/uct_logger.cpp
index 5e9d747..b57ea7b 100644
--- a/src/algorithms/uct/uct_logger.cpp
+++ b/src/algorithms/uct/uct_logger.cpp
@@ -34,7 +34,7 @@ namespace thts {
         ThtsLogger() {}
     
     void UctLogger::add_origin_entry() {
-        entries.push_back(UctLoggerEntry(
+        entries.push_back(make_shared<UctLoggerEntry>(
             chrono::duration<double>::zero(), 
             0,
             0,
@@ -43,7 +43,7 @@ namespace thts {
     
     void UctLogger::log(shared_ptr<ThtsDNode> node) {
         UctDNode& uct_node = (UctDNode&) *node;
-        entries.push_back(UctLoggerEntry(
+        entries.push_back(make_shared<UctLoggerEntry>(
             get_current_total_runtime(), 
             uct_node.num_visits,
             uct_node.num_backups,
diff --git a/src/thts_logger.cpp b/src/thts_logger.cpp
index 4f65c83..7b72f1c 100644
--- a/src/thts_logger.cpp
+++ b/src/thts_logger.cpp
@@ -48,7 +48,7 @@ namespace thts {
     }
     
     void ThtsLogger::add_origin_entry() {
-        entries.push_back(LoggerEntry(
+        entries.push_back(make_shared<LoggerEntry>(
             chrono::duration<double>::zero(), 
             0));
     }
@@ -80,7 +80,7 @@ namespace thts {
     }
     
     void ThtsLogger::log(shared_ptr<ThtsDNode> node) {
-        entries.push_back(LoggerEntry(
+        entries.push_back(make_shared<LoggerEntry>(
             get_current_total_runtime(), 
             node->num_visits));
     }
@@ -94,12 +94,11 @@ namespace thts {
     void ThtsLogger::write_to_ostream(ostream& os) {
         if (entries.size() == 0) return;
         
-        LoggerEntry& first_entry = entries[0];
-        first_entry.write_header_to_ostream(os);
+        entries[0]->write_header_to_ostream(os);
         os << "\n";
 
-        for (LoggerEntry& logger_entry : entries) {
-            logger_entry.write_to_ostream(os);
+        for (shared_ptr<LoggerEntry>& logger_entry : entries) {
+            logger_entry->write_to_ostream(os);
             os << "\n";
         }
 
-- 
2.43.0


From 01a460731a3a95655d477ec239f88b99027070e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:19 +0000
Subject: [PATCH 14/22] fix: do not lose the wake up of a joining thread when
 the time limit expires

A worker tested work_left() twice, once to decide whether to notify and once to decide whether to wait. When the time
limit expired in between, it waited without notifying and join() never returned. The same happened when the limit
expired before any worker took a trial. Workers now notify a separate condition variable every time before waiting.
---
 include/thts.h | 3 +++
 src/thts.cpp   | 9 ++++-----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/thts.h b/include/thts.h
index faa88bb..455a34d 100644
--- a/include/thts.h
+++ b/include/thts.h
@@ -29,6 +29,8 @@ namespace thts {
      *          A vector of threads (thread pool) that run the worker_fn routine.
      *      work_left_cv: 
      *          A condition variable used to coordinate when workers are working.
+     *      work_done_cv: 
+     *          A condition variable used to signal threads waiting in 'join', whenever a worker runs out of work.
      *      work_left_lock: 
      *          A mutex for 'work_left_lock', protecting variables used to decide when there is work.
      *      logging_lock: 
@@ -59,6 +61,7 @@ namespace thts {
             // multithreading variables (also protected by can_work_lock)
             std::vector<std::thread> workers;
             std::condition_variable_any work_left_cv;
+            std::condition_variable_any work_done_cv;
             std::mutex work_left_lock;
             std::mutex logging_lock;
             bool thread_pool_alive;
diff --git a/src/thts.cpp b/src/thts.cpp
index 09c2424..668400b 100644
--- a/src/thts.cpp
+++ b/src/thts.cpp
@@ -29,6 +29,7 @@ namespace thts {
         shared_ptr<ThtsLogger> logger) :
             workers(num_threads),
             work_left_cv(),
+            work_done_cv(),
             work_left_lock(),
             logging_lock(),
             thread_pool_alive(true),
@@ -285,7 +286,7 @@ namespace thts {
      * while this thts pool is 'alive' work threads perform the following (description of code from top to bottom):
      * - indicate that they have completed a trial/unit of work, by decrementing num_threads_working
      * - if can't work (run a trial): 
-     *      - notify work_left_cv to try to signal any threads waiting on workers completing
+     *      - notify work_done_cv to signal any threads waiting on workers completing
      *      - wait on work_left_cv until notified
      * - if just woken up from waiting on work_left_cv: 
      *      -check if thread_pool is still alive, and if not, exit
@@ -302,10 +303,8 @@ namespace thts {
         while (thread_pool_alive) {
             num_threads_working--;
 
-            if (!work_left()) {
-                work_left_cv.notify_all();
-            }
             while (!work_left()) {
+                work_done_cv.notify_all();
                 work_left_cv.wait(work_left_lock);
                 if (!thread_pool_alive) return;
             }
@@ -326,7 +325,7 @@ namespace thts {
     void ThtsPool::join() {
         lock_guard<mutex> lg(work_left_lock);
         while (work_left() || num_threads_working > 0) {
-            work_left_cv.wait(work_left_lock);
+            work_done_cv.wait(work_left_lock);
         }
     }
 
-- 
2.43.0


From 422f59cd9e4cc465676fb6b758eac29f492568ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:19 +0000
Subject: [PATCH 15/22] fix: refuse to change environment while trials are
 still running

set_new_env only looked at the trials left to start (without taking the lock), so it replaced the manager, root node
and logger under the feet of trials that were still in progress.
---
 src/thts.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/thts.cpp b/src/thts.cpp
index 668400b..583d5ac 100644
--- a/src/thts.cpp
+++ b/src/thts.cpp
@@ -38,7 +38,7 @@ namespace thts {
             start_time(std::chrono::system_clock::now()),
             max_run_time(0.0),
             trials_remaining(0),
-            num_threads_working(num_threads),
+            num_threads_working(0),
             trials_completed(0),
             logger(logger),
             thts_manager(thts_manager),
@@ -79,7 +79,8 @@ namespace thts {
         shared_ptr<ThtsDNode> new_root_node,
         shared_ptr<ThtsLogger> new_logger) 
     {
-        if (work_left()) {
+        lock_guard<mutex> lg(work_left_lock);
+        if (work_left() || num_threads_working > 0) {
             throw runtime_error("Tried to change root node in thts pool while it was working.");
         }
         thts_manager = new_thts_manager;
@@ -284,7 +285,6 @@ namespace thts {
      * The worker thread function.
      * 
      * while this thts pool is 'alive' work threads perform the following (description of code from top to bottom):
-     * - indicate that they have completed a trial/unit of work, by decrementing num_threads_working
      * - if can't work (run a trial): 
      *      - notify work_done_cv to signal any threads waiting on workers completing
      *      - wait on work_left_cv until notified
@@ -294,6 +294,7 @@ namespace thts {
      *      - decrement trials remaining to indicate we're going to run a trial
      *      - increment num_threads_working to indicate we're starting some work
      *      - run trial
+     *      - indicate that they have completed a trial/unit of work, by decrementing num_threads_working
      * 
      * A lock_guard is used to make sure that the work_left_lock is locked throughout the routine, except while waiting 
      * on work_left_cv, and when unlocked around running a trial.
@@ -301,8 +302,6 @@ namespace thts {
     void ThtsPool::worker_fn() {
         lock_guard<mutex> lg(work_left_lock);
         while (thread_pool_alive) {
-            num_threads_working--;
-
             while (!work_left()) {
                 work_done_cv.notify_all();
                 work_left_cv.wait(work_left_lock);
@@ -316,6 +315,7 @@ namespace thts {
             work_left_lock.unlock();
             run_thts_trial(trials_remaining_copy);
             work_left_lock.lock();
+            num_threads_working--;
         }
     }
 
-- 
2.43.0


From 2dd65704d2b25191c977d97ccc97e04911ca2467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:16 +0000
Subject: [PATCH 16/22] fix: allow negative infinity as the maximum value when
 breaking ties

If every value was -inf no key was kept, and drawing a random index from an empty vector divided by zero.
---
 src/helper_templates.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helper_templates.cc b/src/helper_templates.cc
index 7e7a759..0bc483a 100644
--- a/src/helper_templates.cc
+++ b/src/helper_templates.cc
@@ -34,8 +34,8 @@ namespace thts::helper {
         vector<T> best_keys;
         for (pair<const T,NumericT>& pr : map) {
             NumericT val = pr.second;
-            if (val < best_val) continue;
-            if (val > best_val) {
+            if (best_keys.size() > 0 && val < best_val) continue;
+            if (best_keys.size() == 0 || val > best_val) {
                 best_keys = vector<T>();
                 best_val = val;
             }
-- 
2.43.0


From 6c6a7163c487149cb272574ee78ca70edec1d299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:47 +0000
Subject: [PATCH 17/22] fix: sample from every valid distribution

Weights declared as unnormalised were divided by their sum, but then compared with the sum rather than one, so a sum
below one threw. A key without mass after the masses had added up to one threw too, and so did a random value falling
between the rounded sum of the masses and one.
---
 src/helper_templates.cc | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/helper_templates.cc b/src/helper_templates.cc
index 0bc483a..e74da40 100644
--- a/src/helper_templates.cc
+++ b/src/helper_templates.cc
@@ -58,20 +58,18 @@ namespace thts::helper {
      *      but can also be extremely unlikely to be thrown (when we would want it to be) in edge cases: consider the
      *      distribution {s1: 0.99999, s2: 0.00001, s3: 0.5}. 
      * - Secondly, if we get to the end of the routine without returning a sampled object, then the probability masses 
-     *      must have summed to less than 1.0. This exception thrown with probability (1.0-sum_weights).
+     *      must have summed to less than 1.0. This exception thrown with probability (1.0-sum_weights). If they do sum 
+     *      to 1.0, then the random value was in a gap left by rounding, and the last key (with any mass) is returned.
      */
     template <typename T>
     T sample_from_distribution(unordered_map<T,double>& distribution, RandManager& rand_manager, bool normalised) {
-        double sum_weights = 1.0;
-        if (!normalised) {
-            sum_weights = 0.0;
-            for (auto pr : distribution) {
-                sum_weights += pr.second;
-            }
+        double total_mass = 0.0;
+        for (auto& pr : distribution) {
+            total_mass += pr.second;
         }
-        
-        int i = 0;
-        int distr_size = distribution.size();
+        double sum_weights = normalised ? 1.0 : total_mass;
+        double total_prob_mass = total_mass / sum_weights;
+
         double rand_val = rand_manager.get_rand_uniform();
         double running_prob_mass = 0.0;
 
@@ -80,9 +78,8 @@ namespace thts::helper {
             running_prob_mass += pr.second / sum_weights;
 
             // error checking
-            i++;
-            bool too_much_mass = running_prob_mass > sum_weights + EPS;
-            bool complete_mass_too_early = running_prob_mass >= sum_weights && i < distr_size;
+            bool too_much_mass = running_prob_mass > 1.0 + EPS;
+            bool complete_mass_too_early = running_prob_mass >= 1.0 && total_prob_mass > 1.0 + EPS;
             if (too_much_mass || complete_mass_too_early) {
                 stringstream error_msg_ss;
                 error_msg_ss 
@@ -97,15 +94,20 @@ namespace thts::helper {
             }
         }
 
+        // if just missed out because of rounding, then return the last key that could have been sampled
+        if (total_prob_mass >= 1.0 - EPS) {
+            const T* last_key = nullptr;
+            for (const pair<const T,double>& pr : distribution) {
+                if (pr.second > 0.0) last_key = &pr.first;
+            }
+            return *last_key;
+        }
+
         stringstream error_msg_ss;
         error_msg_ss << "Probability masses sum to less than 1.0, have you forgotten to set normalised=false? "
             << "Distribution was: "
             << unordered_map_pretty_print_string(distribution);
-        double sum = 0.0;
-        for (pair<T,double> pr : distribution) { 
-            sum += pr.second;
-        }
-        cout << sum << endl;
+        cout << total_mass << endl;
         throw runtime_error(error_msg_ss.str());
     }
 
-- 
2.43.0


From d424a05dee00383aebaa1e4fe7f50d5fe92dfb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:04 +0000
Subject: [PATCH 18/22] fix: rebuild the alias table when the number of
 outcomes changes

update() compared the size of the new distribution with itself, and adding a single key never grew the table, so the
table was indexed out of bounds (or kept removed keys). Samples are drawn from the table's own size, as the table may
be waiting for its next reconstruction.
---
 src/distributions/categorical_distribution.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/distributions/categorical_distribution.cc b/src/distributions/categorical_distribution.cc
index bbe572b..5496d37 100644
--- a/src/distributions/categorical_distribution.cc
+++ b/src/distributions/categorical_distribution.cc
@@ -37,7 +37,7 @@ namespace thts {
             return helper::sample_from_distribution(*distr, rand_manager, false);
         }
 
-        int rng = rand_manager.get_rand_int(0, distr->size());
+        int rng = rand_manager.get_rand_int(0, alias_table.size());
         AliasTableEntry& alias_entry = alias_table[rng];
         if (1.0 > alias_entry.threshold && alias_entry.threshold > rand_manager.get_rand_uniform()) {
             return alias_entry.first;
@@ -57,20 +57,13 @@ namespace thts {
 
     /**
      * If using alias table, then should reconstruct it
-     * If size(distr) == size(new_distr), then call reconstruct_alias_table, which assumes size(distr) hasn't changed
-     * If distirubtion has changes in size (num outcomes), then clear alias table and construct from scratch
     */
     template <typename T>
     void CategoricalDistribution<T>::update(shared_ptr<unordered_map<T,double>> new_distr) {
         distr = new_distr;
         num_updates = 0;
         if (use_alias_method) {
-            if (new_distr->size() == distr->size()) {
-                reconstruct_alias_table(false);
-            } else {
-                alias_table.clear();
-                construct_alias_table();
-            }
+            reconstruct_alias_table();
         }
     }
     
@@ -122,6 +115,13 @@ namespace thts {
     */
     template <typename T>
     void CategoricalDistribution<T>::reconstruct_alias_table(bool just_constructed) {
+        // If the number of outcomes has changed, then need to clear the alias table and construct it from scratch
+        if (alias_table.size() != distr->size()) {
+            alias_table.clear();
+            construct_alias_table();
+            return;
+        }
+
         double sum_weights = 0.0;
         for (pair<const T,double>& kv_pair : *distr) {
             sum_weights += kv_pair.second;
-- 
2.43.0


From a74b58e374ef4274c40b6c801ce2469c1c457e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:04 +0000
Subject: [PATCH 19/22] fix: give Distribution a virtual destructor

Deleting a distribution through the interface was undefined behaviour.
---
 include/distributions/distribution.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/distributions/distribution.h b/include/distributions/distribution.h
index 270d45e..70b9c48 100644
--- a/include/distributions/distribution.h
+++ b/include/distributions/distribution.h
@@ -9,6 +9,11 @@ namespace thts {
     template <typename T>
     class Distribution {
         public:
+            /**
+             * Any classes intended to be inherited from should make destructor virtual
+             */
+            virtual ~Distribution() = default;
+
             /**
              * Samples an object of type T from the distribution and returns it.
             */
-- 
2.43.0


From 534672ec9be4c7f79f039361a43b7728fe3ecf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:33 +0000
Subject: [PATCH 20/22] fix: define the declared stream operator for
 StringAction

---
 src/thts_types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thts_types.cpp b/src/thts_types.cpp
index 7af0801..f93000a 100644
--- a/src/thts_types.cpp
+++ b/src/thts_types.cpp
@@ -429,7 +429,7 @@ namespace std {
         return os;
     }
 
-    ostream& operator<<(ostream& os, const StringAction action) {
+    ostream& operator<<(ostream& os, const StringAction& action) {
         os << action.get_pretty_print_string();
         return os;
     }
-- 
2.43.0


From 22fc4a99341c023dc908d70834f95147349a894d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:47 +0000
Subject: [PATCH 21/22] fix: print transposition tables that contain expired
 entries

---
 src/thts_types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thts_types.cpp b/src/thts_types.cpp
index f93000a..085925e 100644
--- a/src/thts_types.cpp
+++ b/src/thts_types.cpp
@@ -511,7 +511,7 @@ namespace std {
     ostream& operator<<(ostream& os, const DNodeTable& tbl) {
         unordered_map<DNodeIdTuple,shared_ptr<ThtsDNode>> shared_tbl_for_print;
         for (auto pr : tbl) {
-            shared_tbl_for_print.insert_or_assign(pr.first, shared_ptr<ThtsDNode>(pr.second));
+            shared_tbl_for_print.insert_or_assign(pr.first, pr.second.lock());
         }
         os << helper::unordered_map_pretty_print_string(shared_tbl_for_print);
         return os;
-- 
2.43.0


From 15449d83497151160b41ae8aa294702f9df6c444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:57 +0000
Subject: [PATCH 22/22] fix: use the current temperature for cached TENTS
 action values

---
 .../algorithms/ments/tents/tents_decision_node.h | 10 +++++-----
 .../ments/tents/tents_decision_node.cpp          | 16 ++++++++++------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/include/algorithms/ments/tents/tents_decision_node.h b/include/algorithms/ments/tents/tents_decision_node.h
index 9743771..af9a5fc 100644
--- a/include/algorithms/ments/tents/tents_decision_node.h
+++ b/include/algorithms/ments/tents/tents_decision_node.h
@@ -23,8 +23,8 @@ namespace thts {
      * 
      * Paper: http://proceedings.mlr.press/v139/dam21a/dam21a.pdf
      * 
-     * Maps are maintained to map between the values of 'soft_q_value/temp' (where soft_q_value is the soft value of 
-     * a child) to prevent having to sort everytime the node is visited. So action selection may use slightly outdated 
+     * Maps are maintained to map between the values of 'soft_q_value' (where soft_q_value is the soft value of 
+     * a child, divided by the current temperature when the maps are used) to prevent having to sort everytime the node is visited. So action selection may use slightly outdated 
      * q values in a multi-threaded setting, but many threads probably outweighs this consistency cost.
      * 
      * N.B. For convenience the code for tents frequently uses 'q_value' to mean the value of Q(s,a)/temp, trying to 
@@ -35,10 +35,10 @@ namespace thts {
      * 
      * Member variables:
      *      qval_to_act: 
-     *          A multi-map from qvalue/temp values to actions (note that this is sorted from smallest to largest, so 
+     *          A multi-map from qvalue values to actions (note that this is sorted from smallest to largest, so 
      *          the reverse iterator will iterate from largest to smallest)
      *      act_to_qval:
-     *          An unordered_map from action to qvalue/temp values, which is used for tents computations, and useful 
+     *          An unordered_map from action to qvalue values, which is used for tents computations, and useful 
      *          for looking up items in the qval_to_act multimap.
      *      _selected_action_key:
      *          A key to use for storing the selected action in ThtsEnvContexts 
@@ -76,7 +76,7 @@ namespace thts {
              * 
              * Args:
              *      action: The action to be updated in the maps
-             *      new_q_value: The new q_value (over temp) to be updated in the maps
+             *      new_q_value: The new q_value to be updated in the maps
             */
             void update_maps(std::shared_ptr<const Action> action, double new_q_value);
 
diff --git a/src/algorithms/ments/tents/tents_decision_node.cpp b/src/algorithms/ments/tents/tents_decision_node.cpp
index ddb5703..3652a9d 100644
--- a/src/algorithms/ments/tents/tents_decision_node.cpp
+++ b/src/algorithms/ments/tents/tents_decision_node.cpp
@@ -30,8 +30,9 @@ namespace thts {
                 decision_timestep,
                 static_pointer_cast<const MentsCNode>(parent))
     {
+        double opp_coeff = is_opponent() ? -1.0 : 1.0;
         for (shared_ptr<const Action> action : *actions) {
-            double qval = get_soft_q_value_over_temp(action);
+            double qval = get_soft_q_value(action, opp_coeff);
             qval_to_act.insert(make_pair(qval, action));
             act_to_qval.insert_or_assign(action, qval);
         }
@@ -79,8 +80,9 @@ namespace thts {
         unique_ptr<ActionVector> sparse_action_set = make_unique<ActionVector>();
         double i = 0;
         double sum_values = 0.0;
+        double temp = get_temp();
         for (auto it=qval_to_act.rbegin(); it != qval_to_act.rend(); it++) {
-            double value = it->first;
+            double value = it->first / temp;
             shared_ptr<const Action> action = it->second;
             sum_values += value;
             if (1.0 + (i+1.0)*value > sum_values) {
@@ -100,14 +102,15 @@ namespace thts {
         unique_ptr<ActionVector> sparse_action_set = get_sparse_action_set();
 
         double sum_sparse_values = 0.0;
+        double temp = get_temp();
         for (shared_ptr<const Action> action : *sparse_action_set) {
-            sum_sparse_values += act_to_qval.at(action);
+            sum_sparse_values += act_to_qval.at(action) / temp;
         }
 
         double spmax_common_term = 0.5 * pow(sum_sparse_values-1.0, 2.0) / pow(sparse_action_set->size(), 2.0);
         double spmax = 0.5;
         for (shared_ptr<const Action> action : *sparse_action_set) {
-            double action_val = act_to_qval.at(action);
+            double action_val = act_to_qval.at(action) / temp;
             spmax += pow(action_val, 2.0) / 2.0 - spmax_common_term;
         }
 
@@ -174,15 +177,16 @@ namespace thts {
     */
    void TentsDNode::backup_update_map(ThtsEnvContext& ctx) {
         shared_ptr<const Action> selected_action = ctx.get_value_ptr_const<Action>(_selected_action_key);
+        double opp_coeff = is_opponent() ? -1.0 : 1.0;
         double new_q_value;
 
         if (has_child_node(selected_action)) {
             ThtsCNode& child_node = *get_child_node(selected_action);
             child_node.lock();
-            new_q_value = get_soft_q_value_over_temp(selected_action);
+            new_q_value = get_soft_q_value(selected_action, opp_coeff);
             child_node.unlock();
         } else {
-            new_q_value = get_soft_q_value_over_temp(selected_action);
+            new_q_value = get_soft_q_value(selected_action, opp_coeff);
         }
 
         update_maps(selected_action, new_q_value);
-- 
2.43.0

