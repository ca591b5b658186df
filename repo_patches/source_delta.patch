From 7d400911e1688016e42ba8bdbdd21dee1ec1eb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:01 +0000
Subject: [PATCH 01/20] fix: average log prior weights over all actions when
 shifting pseudo q-values

The running-mean counter was never advanced, so the shift used the log weight
of whichever action came last in the map instead of the mean.
---
 src/algorithms/ments/ments_decision_node.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/algorithms/ments/ments_decision_node.cpp b/src/algorithms/ments/ments_decision_node.cpp
index dad6d88..8310ab2 100644
--- a/src/algorithms/ments/ments_decision_node.cpp
+++ b/src/algorithms/ments/ments_decision_node.cpp
@@ -55,6 +55,7 @@ namespace thts {
                     }
                     mean_log_weight *= (i-1.0) / i;
                     mean_log_weight += log_weight / i;
+                    i += 1.0;
                 }
                 psuedo_q_value_offset = thts_manager->psuedo_q_value_offset - mean_log_weight;
             }
-- 
2.43.0


From 1c49210631555b52568fd73c724b230fa86a8dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:39 +0000
Subject: [PATCH 02/20] fix: no uniform exploration instead of NaN when epsilon
 is zero at an unvisited node

epsilon / log(num_visits+1) is 0/0 at zero visits, which made every DENTS entropy
(initialised from the policy of an unvisited node) and hence every value NaN.
---
 src/algorithms/ments/ments_decision_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/ments/ments_decision_node.cpp b/src/algorithms/ments/ments_decision_node.cpp
index 8310ab2..441feaa 100644
--- a/src/algorithms/ments/ments_decision_node.cpp
+++ b/src/algorithms/ments/ments_decision_node.cpp
@@ -203,7 +203,7 @@ namespace thts {
         MentsManager& manager = (MentsManager&) *thts_manager;
         double epsilon = manager.epsilon;
         if (is_root_node() && manager.root_node_epsilon > 0.0) epsilon = manager.root_node_epsilon;
-        double lambda = epsilon / log(num_visits+1);
+        double lambda = (epsilon > 0.0) ? epsilon / log(num_visits+1) : 0.0;
         if (lambda > manager.max_explore_prob) {
             lambda = manager.max_explore_prob;
         }
-- 
2.43.0


From cf5c81f5a8038487f5749000f79487238885379a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:03 +0000
Subject: [PATCH 03/20] fix: sample_from_distribution rejects valid and
 mis-samples unnormalised distributions

- unnormalised maps compared normalised mass against the sum of weights, throwing
  whenever the weights sum to less than one
- normalised maps threw when a prefix of the masses rounds to 1.0 (e.g. trailing
  zero-probability or 1e-16 sized entries), aborting searches
- a random value in the rounding gap below 1.0 threw instead of sampling
---
 src/helper_templates.cc | 51 ++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/src/helper_templates.cc b/src/helper_templates.cc
index 7e7a759..daf1307 100644
--- a/src/helper_templates.cc
+++ b/src/helper_templates.cc
@@ -53,43 +53,37 @@ namespace thts::helper {
      * 
      * Implementation includes useful (probabilistic) error checking on distributions (which should only occur when 
      * normalised=true):
-     * - Firstly, if probability masses reach a sum of 1.0 or greater too quickly then we throw an exception. Consider 
-     *      if a distribution {s1: 1.0, s2: 0.5, s3: 0.5} is passed in. This exception will often catch these cases, 
-     *      but can also be extremely unlikely to be thrown (when we would want it to be) in edge cases: consider the
-     *      distribution {s1: 0.99999, s2: 0.00001, s3: 0.5}. 
+     * - Firstly, if probability masses sum to more than 1.0 (up to rounding) then we throw an exception. Note that a 
+     *      prefix of the masses summing to 1.0 is fine, as the remaining masses may be zero, or vanish in rounding.
      * - Secondly, if we get to the end of the routine without returning a sampled object, then the probability masses 
      *      must have summed to less than 1.0. This exception thrown with probability (1.0-sum_weights).
      */
     template <typename T>
     T sample_from_distribution(unordered_map<T,double>& distribution, RandManager& rand_manager, bool normalised) {
-        double sum_weights = 1.0;
-        if (!normalised) {
-            sum_weights = 0.0;
-            for (auto pr : distribution) {
-                sum_weights += pr.second;
-            }
+        double sum_weights = 0.0;
+        for (const pair<const T,double>& pr : distribution) {
+            sum_weights += pr.second;
         }
         
-        int i = 0;
-        int distr_size = distribution.size();
         double rand_val = rand_manager.get_rand_uniform();
+
+        // error checking
+        if (normalised && sum_weights > 1.0 + EPS) {
+            stringstream error_msg_ss;
+            error_msg_ss 
+                << "Probability masses sum to greater than 1.0, have you forgotten to set normalised=false? "
+                << "Distribution was: "<< unordered_map_pretty_print_string(distribution);
+            throw runtime_error(error_msg_ss.str());
+        }
+
+        double total_mass = normalised ? 1.0 : sum_weights;
         double running_prob_mass = 0.0;
+        const T* last_supported_key = nullptr;
 
-        for (pair<T,double> pr : distribution) {
+        for (const pair<const T,double>& pr : distribution) {
             // update mass considered
-            running_prob_mass += pr.second / sum_weights;
-
-            // error checking
-            i++;
-            bool too_much_mass = running_prob_mass > sum_weights + EPS;
-            bool complete_mass_too_early = running_prob_mass >= sum_weights && i < distr_size;
-            if (too_much_mass || complete_mass_too_early) {
-                stringstream error_msg_ss;
-                error_msg_ss 
-                    << "Probability masses sum to greater than 1.0, have you forgotten to set normalised=false? "
-                    << "Distribution was: "<< unordered_map_pretty_print_string(distribution);
-                throw runtime_error(error_msg_ss.str());
-            }
+            running_prob_mass += pr.second / total_mass;
+            if (pr.second > 0.0) last_supported_key = &pr.first;
             
             // return if its time
             if (rand_val < running_prob_mass) {
@@ -97,6 +91,11 @@ namespace thts::helper {
             }
         }
 
+        // masses sum to one, and the random value fell in the gap left by floating point rounding
+        if (last_supported_key != nullptr && running_prob_mass >= 1.0 - EPS) {
+            return *last_supported_key;
+        }
+
         stringstream error_msg_ss;
         error_msg_ss << "Probability masses sum to less than 1.0, have you forgotten to set normalised=false? "
             << "Distribution was: "
-- 
2.43.0


From 81a2a922287a4c96af3c77de54ff75d11930e59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:21 +0000
Subject: [PATCH 04/20] fix: get_max_key_break_ties_randomly crashes when every
 value is -infinity

---
 src/helper_templates.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helper_templates.cc b/src/helper_templates.cc
index daf1307..6eb32f5 100644
--- a/src/helper_templates.cc
+++ b/src/helper_templates.cc
@@ -34,8 +34,8 @@ namespace thts::helper {
         vector<T> best_keys;
         for (pair<const T,NumericT>& pr : map) {
             NumericT val = pr.second;
-            if (val < best_val) continue;
-            if (val > best_val) {
+            if (!best_keys.empty() && val < best_val) continue;
+            if (best_keys.empty() || val > best_val) {
                 best_keys = vector<T>();
                 best_val = val;
             }
-- 
2.43.0


From 6a8c5dab77518c2846ae2bce8d7dde2ff52094cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:24 +0000
Subject: [PATCH 05/20] fix: transposition table corrupted when protected by
 several mutexes or its nodes were freed

Different ids could be looked up and inserted in the one shared unordered_map at the same time under different
mutexes of dmap_mutexes. Also entries whose node has since been freed threw bad_weak_ptr.
---
 include/thts_manager.h   |  7 ++++++-
 src/thts_chance_node.cpp | 24 ++++++++++++++++--------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/include/thts_manager.h b/include/thts_manager.h
index f791a73..85380c0 100644
--- a/include/thts_manager.h
+++ b/include/thts_manager.h
@@ -171,6 +171,9 @@ namespace thts {
      *      dmap_mutexes:
      *          A vector of mutexes to use for protection around the dmap. Accessing 'dmap[dnode_id]', should be 
      *          protected by the 'dmap_mutexes[hash(dnode_id) % dmap_mutexes.size()]'.
+     *      dmap_lock:
+     *          A mutex protecting the internal structure of the dmap (ids with different dmap_mutexes still share the 
+     *          same table). Should only be held for the duration of a single find or insert in the dmap.
      */
     class ThtsManager : public RandManager {
         public:
@@ -185,6 +188,7 @@ namespace thts {
 
             DNodeTable dmap;
             std::vector<std::mutex> dmap_mutexes;
+            std::mutex dmap_lock;
 
             /**
              * Constructor. Initialises values directly other than random number generation.
@@ -202,7 +206,8 @@ namespace thts {
                 use_transposition_table(args.use_transposition_table), 
                 is_two_player_game(args.is_two_player_game),
                 dmap(),
-                dmap_mutexes(args.num_transposition_table_mutexes)
+                dmap_mutexes(args.num_transposition_table_mutexes),
+                dmap_lock()
             {
             }
 
diff --git a/src/thts_chance_node.cpp b/src/thts_chance_node.cpp
index 2fc2c1b..29ab40a 100644
--- a/src/thts_chance_node.cpp
+++ b/src/thts_chance_node.cpp
@@ -92,7 +92,11 @@ namespace thts {
      * the table, we make the child and insert it in children and the transposition table.
      * 
      * Additionally, we protect accessing 'dmap[dnode_id]' with the mutex 'thts_manager->dmap_mutexes[mutex_indx]' 
-     * where 'mutex_indx = hash(dnode_id) % thts_manager->dmap_mutexes.size()', by locking it using a lock_guard.
+     * where 'mutex_indx = hash(dnode_id) % thts_manager->dmap_mutexes.size()', by locking it using a lock_guard. As 
+     * different ids may be protected by different mutexes in 'dmap_mutexes', each find and insert also needs to be 
+     * protected by 'dmap_lock'.
+     * 
+     * The table stores weak pointers, so an entry may outlive its node. In that case the node is made again.
      */
     shared_ptr<ThtsDNode> ThtsCNode::create_child_node_itfc(
         shared_ptr<const Observation> observation, shared_ptr<const State> next_state) 
@@ -116,16 +120,20 @@ namespace thts {
 
         lock_guard<mutex> lg(thts_manager->dmap_mutexes[mutex_indx]);
 
-        auto iter = dmap.find(dnode_id);
-        if (iter != dmap.end()) {
-            shared_ptr<ThtsDNode> child_node = shared_ptr<ThtsDNode>(dmap[dnode_id]);
-            children[observation] = child_node;
-            return child_node;
+        shared_ptr<ThtsDNode> child_node;
+        {
+            lock_guard<mutex> dmap_lg(thts_manager->dmap_lock);
+            auto iter = dmap.find(dnode_id);
+            if (iter != dmap.end()) child_node = iter->second.lock();
+        }
+
+        if (child_node == nullptr) {
+            child_node = create_child_node_helper_itfc(observation, next_state);
+            lock_guard<mutex> dmap_lg(thts_manager->dmap_lock);
+            dmap[dnode_id] = child_node;
         }
 
-        shared_ptr<ThtsDNode> child_node = create_child_node_helper_itfc(observation, next_state);
         children[observation] = child_node;
-        dmap[dnode_id] = child_node;
         return child_node;
     }
 
-- 
2.43.0


From 06dd69a6d9da160b0de259e161e9c7df6b7c8f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:48 +0000
Subject: [PATCH 06/20] fix: threads deadlock locking decision nodes shared
 through the transposition table

Two chance nodes that share children locked them in the iteration order of their own maps. Lock them in address order.
---
 include/algorithms/common/dp_chance_node.h  |  2 +-
 include/algorithms/common/ent_chance_node.h |  2 +-
 include/thts_chance_node.h                  |  8 ++++++++
 src/thts_chance_node.cpp                    | 21 ++++++++++++++++++---
 4 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/include/algorithms/common/dp_chance_node.h b/include/algorithms/common/dp_chance_node.h
index 4d59ccb..eec4ca2 100644
--- a/include/algorithms/common/dp_chance_node.h
+++ b/include/algorithms/common/dp_chance_node.h
@@ -97,7 +97,7 @@ namespace thts {
             template <typename T>
             void backup_dp(DNodeChildMap& children, double local_reward, bool is_opponent=false) {
                 std::shared_ptr<DPDNodeChildMap> dp_children = convert_child_map<T>(children);
-                for (auto pr : children) pr.second->lock();
+                lock_dnodes(children);
                 backup_dp_impl(*dp_children, local_reward, is_opponent);
                 for (auto pr : children) pr.second->unlock();
             }
diff --git a/include/algorithms/common/ent_chance_node.h b/include/algorithms/common/ent_chance_node.h
index a92a5d5..cc2ba75 100644
--- a/include/algorithms/common/ent_chance_node.h
+++ b/include/algorithms/common/ent_chance_node.h
@@ -94,7 +94,7 @@ namespace thts {
             template <typename T>
             void backup_ent(DNodeChildMap& children) {
                 std::shared_ptr<EntDNodeChildMap> ent_children = convert_child_map<T>(children);
-                for (auto pr : children) pr.second->lock();
+                lock_dnodes(children);
                 backup_ent_impl(*ent_children);
                 for (auto pr : children) pr.second->unlock();
             }
diff --git a/include/thts_chance_node.h b/include/thts_chance_node.h
index 0cc1540..08b4d6b 100644
--- a/include/thts_chance_node.h
+++ b/include/thts_chance_node.h
@@ -15,6 +15,14 @@ namespace thts {
 
     // CNodeMap type is lengthy, so typedef
     typedef std::unordered_map<std::shared_ptr<const Observation>,std::shared_ptr<ThtsDNode>> DNodeChildMap;
+
+    /**
+     * Locks every decision node in a child map.
+     * 
+     * When using a transposition table decision nodes can be shared by multiple chance nodes, so the locks are always 
+     * taken in the same (address) order, to avoid a deadlock between threads that lock overlapping child maps.
+     */
+    void lock_dnodes(const DNodeChildMap& dnodes);
     
     /**
      * An abstract base class for Chance Nodes.
diff --git a/src/thts_chance_node.cpp b/src/thts_chance_node.cpp
index 29ab40a..5db0923 100644
--- a/src/thts_chance_node.cpp
+++ b/src/thts_chance_node.cpp
@@ -4,17 +4,34 @@
 #include "thts_manager.h"
 #include "thts_types.h"
 
+#include <algorithm>
 #include <cstddef>
 #include <functional>
 #include <mutex>
 #include <tuple>
 #include <utility>
+#include <vector>
 
 using namespace std;
 using namespace thts;
 
 
 namespace thts {
+    /**
+     * Locks all decision nodes in order of their addresses
+     */
+    void lock_dnodes(const DNodeChildMap& dnodes) {
+        vector<ThtsDNode*> nodes;
+        nodes.reserve(dnodes.size());
+        for (auto& observation_child_pair : dnodes) {
+            nodes.push_back(observation_child_pair.second.get());
+        }
+        sort(nodes.begin(), nodes.end(), less<ThtsDNode*>());
+        for (ThtsDNode* node : nodes) {
+            node->lock();
+        }
+    }
+
     /**
      * Constructor mostly uses initialisation list. 
      */
@@ -61,9 +78,7 @@ namespace thts {
      * Helper function to lock all children nodes.
      */
     void ThtsCNode::lock_all_children() const {
-        for (auto action_child_pair : children) {
-            action_child_pair.second->lock();
-        }
+        lock_dnodes(children);
     }
 
     /**
-- 
2.43.0


From 726086f122ad69edfb5e31a1863a0f8a505d69c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:23 +0000
Subject: [PATCH 07/20] fix: run_trials and join could wait forever when the
 time limit expires between two checks

A worker that found no work left after being woken went back to waiting without waking the thread in join.
---
 include/thts.h |  5 ++++-
 src/thts.cpp   | 10 +++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/thts.h b/include/thts.h
index faa88bb..3973a34 100644
--- a/include/thts.h
+++ b/include/thts.h
@@ -28,7 +28,9 @@ namespace thts {
      *      workers: 
      *          A vector of threads (thread pool) that run the worker_fn routine.
      *      work_left_cv: 
-     *          A condition variable used to coordinate when workers are working.
+     *          A condition variable that workers wait on until there is work.
+     *      workers_waiting_cv: 
+     *          A condition variable notified by workers before they wait for work, to wake threads in 'join'.
      *      work_left_lock: 
      *          A mutex for 'work_left_lock', protecting variables used to decide when there is work.
      *      logging_lock: 
@@ -59,6 +61,7 @@ namespace thts {
             // multithreading variables (also protected by can_work_lock)
             std::vector<std::thread> workers;
             std::condition_variable_any work_left_cv;
+            std::condition_variable_any workers_waiting_cv;
             std::mutex work_left_lock;
             std::mutex logging_lock;
             bool thread_pool_alive;
diff --git a/src/thts.cpp b/src/thts.cpp
index e6cb9c9..c04634c 100644
--- a/src/thts.cpp
+++ b/src/thts.cpp
@@ -29,6 +29,7 @@ namespace thts {
         shared_ptr<ThtsLogger> logger) :
             workers(num_threads),
             work_left_cv(),
+            workers_waiting_cv(),
             work_left_lock(),
             logging_lock(),
             thread_pool_alive(true),
@@ -287,7 +288,8 @@ namespace thts {
      * while this thts pool is 'alive' work threads perform the following (description of code from top to bottom):
      * - indicate that they have completed a trial/unit of work, by decrementing num_threads_working
      * - if can't work (run a trial): 
-     *      - notify work_left_cv to try to signal any threads waiting on workers completing
+     *      - notify workers_waiting_cv to signal any threads waiting on workers completing. This needs to be done every 
+     *          time before waiting, because max_run_time can run out between any two calls to work_left
      *      - wait on work_left_cv until notified
      * - if just woken up from waiting on work_left_cv: 
      *      -check if thread_pool is still alive, and if not, exit
@@ -304,10 +306,8 @@ namespace thts {
         while (thread_pool_alive) {
             num_threads_working--;
 
-            if (!work_left()) {
-                work_left_cv.notify_all();
-            }
             while (!work_left()) {
+                workers_waiting_cv.notify_all();
                 work_left_cv.wait(work_left_lock);
                 if (!thread_pool_alive) return;
             }
@@ -328,7 +328,7 @@ namespace thts {
     void ThtsPool::join() {
         lock_guard<mutex> lg(work_left_lock);
         while (work_left() || num_threads_working > 0) {
-            work_left_cv.wait(work_left_lock);
+            workers_waiting_cv.wait(work_left_lock);
         }
     }
 
-- 
2.43.0


From 85549e3d3d1cd53f8e43b08a850719f6d2213aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:42 +0000
Subject: [PATCH 08/20] fix: loggers lose the algorithm statistics of their
 entries

Entries of the algorithm specific loggers were sliced to LoggerEntry when stored by value, so that the written log
only had runtime and number of visits.
---
 include/thts_logger.h                   |  4 ++--
 src/algorithms/ments/dbments_logger.cpp |  4 ++--
 src/algorithms/ments/ments_logger.cpp   |  4 ++--
 src/algorithms/uct/uct_logger.cpp       |  4 ++--
 src/thts_logger.cpp                     | 10 +++++-----
 5 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/thts_logger.h b/include/thts_logger.h
index c9e714b..0dfda69 100644
--- a/include/thts_logger.h
+++ b/include/thts_logger.h
@@ -51,7 +51,7 @@ namespace thts {
      * 
      * Member variables:
      *      entries: 
-     *          A vector of LoggerEntry objects, each representing a datatype
+     *          A vector of (pointers to) LoggerEntry objects, each representing a datatype
      *      prior_runtime: 
      *          The amount of runtime logger from previous calls to ThtsPool run_trials
      *      start_time: 
@@ -70,7 +70,7 @@ namespace thts {
      */
     class ThtsLogger {
         protected:
-            std::vector<LoggerEntry> entries;
+            std::vector<std::shared_ptr<LoggerEntry>> entries;
             std::chrono::duration<double> prior_runtime;
             std::chrono::time_point<std::chrono::system_clock> start_time;
 
diff --git a/src/algorithms/ments/dbments_logger.cpp b/src/algorithms/ments/dbments_logger.cpp
index 0370a0a..c2d6b43 100644
--- a/src/algorithms/ments/dbments_logger.cpp
+++ b/src/algorithms/ments/dbments_logger.cpp
@@ -36,7 +36,7 @@ namespace thts {
         MentsLogger() {}
     
     void DBMentsLogger::add_origin_entry() {
-        entries.push_back(DBMentsLoggerEntry(
+        entries.push_back(make_shared<DBMentsLoggerEntry>(
             chrono::duration<double>::zero(), 
             0,
             0,
@@ -46,7 +46,7 @@ namespace thts {
     
     void DBMentsLogger::log(shared_ptr<ThtsDNode> node) {
         DBMentsDNode& dbments_node = (DBMentsDNode&) *node;
-        entries.push_back(DBMentsLoggerEntry(
+        entries.push_back(make_shared<DBMentsLoggerEntry>(
             get_current_total_runtime(), 
             dbments_node.num_visits,
             dbments_node.MentsDNode::num_backups,
diff --git a/src/algorithms/ments/ments_logger.cpp b/src/algorithms/ments/ments_logger.cpp
index 675489e..208c3f1 100644
--- a/src/algorithms/ments/ments_logger.cpp
+++ b/src/algorithms/ments/ments_logger.cpp
@@ -34,7 +34,7 @@ namespace thts {
         ThtsLogger() {}
     
     void MentsLogger::add_origin_entry() {
-        entries.push_back(MentsLoggerEntry(
+        entries.push_back(make_shared<MentsLoggerEntry>(
             chrono::duration<double>::zero(), 
             0,
             0,
@@ -43,7 +43,7 @@ namespace thts {
     
     void MentsLogger::log(shared_ptr<ThtsDNode> node) {
         MentsDNode& ments_node = (MentsDNode&) *node;
-        entries.push_back(MentsLoggerEntry(
+        entries.push_back(make_shared<MentsLoggerEntry>(
             get_current_total_runtime(), 
             ments_node.num_visits,
             ments_node.num_backups,
diff --git a/src/algorithms/uct/uct_logger.cpp b/src/algorithms/uct/uct_logger.cpp
index 5e9d747..b57ea7b 100644
--- a/src/algorithms/uct/uct_logger.cpp
+++ b/src/algorithms/uct/uct_logger.cpp
@@ -34,7 +34,7 @@ namespace thts {
         ThtsLogger() {}
     
     void UctLogger::add_origin_entry() {
-        entries.push_back(UctLoggerEntry(
+        entries.push_back(make_shared<UctLoggerEntry>(
             chrono::duration<double>::zero(), 
             0,
             0,
@@ -43,7 +43,7 @@ namespace thts {
     
     void UctLogger::log(shared_ptr<ThtsDNode> node) {
         UctDNode& uct_node = (UctDNode&) *node;
-        entries.push_back(UctLoggerEntry(
+        entries.push_back(make_shared<UctLoggerEntry>(
             get_current_total_runtime(), 
             uct_node.num_visits,
             uct_node.num_backups,
diff --git a/src/thts_logger.cpp b/src/thts_logger.cpp
index 5ec046f..4757a66 100644
--- a/src/thts_logger.cpp
+++ b/src/thts_logger.cpp
@@ -43,7 +43,7 @@ namespace thts {
     }
     
     void ThtsLogger::add_origin_entry() {
-        entries.push_back(LoggerEntry(
+        entries.push_back(make_shared<LoggerEntry>(
             chrono::duration<double>::zero(), 
             0));
     }
@@ -77,7 +77,7 @@ namespace thts {
     }
     
     void ThtsLogger::log(shared_ptr<ThtsDNode> node) {
-        entries.push_back(LoggerEntry(
+        entries.push_back(make_shared<LoggerEntry>(
             get_current_total_runtime(), 
             node->num_visits));
     }
@@ -90,12 +90,12 @@ namespace thts {
     void ThtsLogger::write_to_ostream(ostream& os) {
         if (entries.size() == 0) return;
         
-        LoggerEntry& first_entry = entries[0];
+        LoggerEntry& first_entry = *entries[0];
         first_entry.write_header_to_ostream(os);
         os << "\n";
 
-        for (LoggerEntry& logger_entry : entries) {
-            logger_entry.write_to_ostream(os);
+        for (shared_ptr<LoggerEntry> logger_entry : entries) {
+            logger_entry->write_to_ostream(os);
             os << "\n";
         }
 
-- 
2.43.0


From a3106c92b5443f987e34bd56f36e799bf3e3da40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:38 +0000
Subject: [PATCH 09/20] fix: logger miscounts runtime and intervals from the
 second run_trials call on

Runtime of a run was added twice (or never, if the run ended by its time limit), the trials and runtime intervals
restarted with every call, logging an extra row at its first trial, and counters were not initialised.
---
 include/thts_logger.h |  6 +++---
 src/thts.cpp          |  9 +++------
 src/thts_logger.cpp   | 16 ++++++++++------
 3 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/include/thts_logger.h b/include/thts_logger.h
index 0dfda69..ba8b1d0 100644
--- a/include/thts_logger.h
+++ b/include/thts_logger.h
@@ -53,9 +53,9 @@ namespace thts {
      *      entries: 
      *          A vector of (pointers to) LoggerEntry objects, each representing a datatype
      *      prior_runtime: 
-     *          The amount of runtime logger from previous calls to ThtsPool run_trials
+     *          The amount of runtime up to 'start_time', including previous calls to ThtsPool run_trials
      *      start_time: 
-     *          The time at the start of the last run_trials call in ThtsPool
+     *          The time that runtime has been counted up to in 'prior_runtime'
      *      trials_completed: 
      *          The number of trials completed (number of times 'trial_completed' called)
      *      trials_delta: 
@@ -147,7 +147,7 @@ namespace thts {
             virtual void log(std::shared_ptr<ThtsDNode> node);
 
             /**
-             * Call this when all trials have been run
+             * Call this when a trial has been run, so that its runtime is counted even if it was the last one 
              */
             void update_prior_runtime();
 
diff --git a/src/thts.cpp b/src/thts.cpp
index c04634c..d9e75a7 100644
--- a/src/thts.cpp
+++ b/src/thts.cpp
@@ -260,9 +260,8 @@ namespace thts {
     
     /**
     * If logging, grabs logging lock, checks if it is time to log and calls 'log' if it is, making sure to grab the
-    * lock for the root node as 'log' doesn't do that but needs to access the root node. When all trials are completed
-    * (trials_completed == num_trials), then call 'update_prior_runtime' for logger as it should be called after all
-    * trials are finished.
+    * lock for the root node as 'log' doesn't do that but needs to access the root node. Calls 'update_prior_runtime' 
+    * after every trial, because when there is a time limit any trial could be the last one.
     */
     void ThtsPool::try_log() {
         if (logger != nullptr) {
@@ -275,9 +274,7 @@ namespace thts {
                 logger->log(root_node);
             }
 
-            if (trials_completed == num_trials) {
-                logger->update_prior_runtime();
-            }
+            logger->update_prior_runtime();
         }
     }
 
diff --git a/src/thts_logger.cpp b/src/thts_logger.cpp
index 4757a66..6020d1f 100644
--- a/src/thts_logger.cpp
+++ b/src/thts_logger.cpp
@@ -27,8 +27,12 @@ namespace thts {
 
     ThtsLogger::ThtsLogger() : 
         prior_runtime(chrono::duration<double>::zero()), 
+        start_time(chrono::system_clock::now()),
+        trials_completed(0),
         trials_delta(numeric_limits<int>::max()), 
-        runtime_delta(numeric_limits<double>::max()) {}
+        last_log_num_trials(0),
+        runtime_delta(numeric_limits<double>::max()),
+        next_log_runtime_threshold(numeric_limits<double>::max()) {}
 
     void ThtsLogger::set_trials_delta(int delta) {
         trials_delta = delta;
@@ -36,6 +40,7 @@ namespace thts {
     
     void ThtsLogger::set_runtime_delta(double delta) {
         runtime_delta = chrono::duration<double>(delta);
+        next_log_runtime_threshold = prior_runtime + runtime_delta;
     }
     
     int ThtsLogger::size() const {
@@ -50,8 +55,6 @@ namespace thts {
     
     void ThtsLogger::reset_start_time() {
         start_time = chrono::system_clock::now();
-        last_log_num_trials = 0;
-        next_log_runtime_threshold = runtime_delta;
     }
     
     chrono::duration<double> ThtsLogger::get_current_total_runtime() {
@@ -65,7 +68,7 @@ namespace thts {
     
     bool ThtsLogger::should_log() {
         bool result = false;
-        if (trials_completed >= last_log_num_trials + trials_delta) {
+        if (trials_completed - last_log_num_trials >= trials_delta) {
             last_log_num_trials = trials_completed;
             result = true;
         }
@@ -83,8 +86,9 @@ namespace thts {
     }
     
     void ThtsLogger::update_prior_runtime() {
-        chrono::duration<double> runtime = chrono::system_clock::now() - start_time;
-        prior_runtime += runtime;
+        chrono::time_point<chrono::system_clock> cur_time = chrono::system_clock::now();
+        prior_runtime += cur_time - start_time;
+        start_time = cur_time;
     }
 
     void ThtsLogger::write_to_ostream(ostream& os) {
-- 
2.43.0


From 4f9e78b08c153f9bf8126a6664634e1c9008a8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:03 +0000
Subject: [PATCH 10/20] fix: printing a StringAction by reference fails to link

---
 src/thts_types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thts_types.cpp b/src/thts_types.cpp
index 7af0801..f93000a 100644
--- a/src/thts_types.cpp
+++ b/src/thts_types.cpp
@@ -429,7 +429,7 @@ namespace std {
         return os;
     }
 
-    ostream& operator<<(ostream& os, const StringAction action) {
+    ostream& operator<<(ostream& os, const StringAction& action) {
         os << action.get_pretty_print_string();
         return os;
     }
-- 
2.43.0


From aec569b8cfb4e3675610efc43b56e34b218bf9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:14 +0000
Subject: [PATCH 11/20] fix: Monte-Carlo rollouts use their environment context
 after it was freed

---
 src/mc_eval.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mc_eval.cpp b/src/mc_eval.cpp
index 0433d40..489dd73 100644
--- a/src/mc_eval.cpp
+++ b/src/mc_eval.cpp
@@ -87,7 +87,8 @@ namespace thts {
         int num_actions_taken = 0;
         double sample_return = 0.0;
         shared_ptr<const State> state = thts_env->get_initial_state_itfc();
-        ThtsEnvContext& context = *thts_env->sample_context_itfc(state);
+        shared_ptr<ThtsEnvContext> context_ptr = thts_env->sample_context_itfc(state);
+        ThtsEnvContext& context = *context_ptr;
 
         // Run trial
         while (num_actions_taken < max_trial_length && !thts_env->is_sink_state_itfc(state)) {
-- 
2.43.0


From edf6fc09ea8d16c66443f2a1e5e9a66d2b22262d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:54 +0000
Subject: [PATCH 12/20] fix: get_stddev_return returns the variance

---
 src/mc_eval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mc_eval.cpp b/src/mc_eval.cpp
index 489dd73..cb87bcd 100644
--- a/src/mc_eval.cpp
+++ b/src/mc_eval.cpp
@@ -169,6 +169,6 @@ namespace thts {
         for (double val : sampled_returns) {
             stddev += weight * pow(val - mean, 2.0);
         }
-        return stddev;
+        return sqrt(stddev);
     }
 }
\ No newline at end of file
-- 
2.43.0


From 3263811b9925af5461a6bc6b0684ddc0bd390275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:09 +0000
Subject: [PATCH 13/20] fix: Monte-Carlo rollouts ignore the maximum trial
 length

---
 src/mc_eval.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mc_eval.cpp b/src/mc_eval.cpp
index cb87bcd..1fa5333 100644
--- a/src/mc_eval.cpp
+++ b/src/mc_eval.cpp
@@ -102,6 +102,7 @@ namespace thts {
 
             thread_policy.update_step(action, obsv);
             state = next_state;
+            num_actions_taken++;
         }
 
         // store
-- 
2.43.0


From b7fdf95a589a5196babf4c4a1c252543e4df2391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:17 +0000
Subject: [PATCH 14/20] fix: replacing a categorical distribution by one of
 another size corrupts the alias table

---
 src/distributions/categorical_distribution.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distributions/categorical_distribution.cc b/src/distributions/categorical_distribution.cc
index bbe572b..df60121 100644
--- a/src/distributions/categorical_distribution.cc
+++ b/src/distributions/categorical_distribution.cc
@@ -57,7 +57,7 @@ namespace thts {
 
     /**
      * If using alias table, then should reconstruct it
-     * If size(distr) == size(new_distr), then call reconstruct_alias_table, which assumes size(distr) hasn't changed
+     * If size(alias_table) == size(new_distr), then call reconstruct_alias_table, which assumes size(distr) hasn't changed
      * If distirubtion has changes in size (num outcomes), then clear alias table and construct from scratch
     */
     template <typename T>
@@ -65,7 +65,7 @@ namespace thts {
         distr = new_distr;
         num_updates = 0;
         if (use_alias_method) {
-            if (new_distr->size() == distr->size()) {
+            if (new_distr->size() == alias_table.size()) {
                 reconstruct_alias_table(false);
             } else {
                 alias_table.clear();
-- 
2.43.0


From 9dde5902e159697bab71bf27e4885e77365c969d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:18 +0000
Subject: [PATCH 15/20] fix: alias sampling reads past its table after a new
 key is added to a categorical distribution

---
 src/distributions/categorical_distribution.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/distributions/categorical_distribution.cc b/src/distributions/categorical_distribution.cc
index df60121..23bac0c 100644
--- a/src/distributions/categorical_distribution.cc
+++ b/src/distributions/categorical_distribution.cc
@@ -37,7 +37,7 @@ namespace thts {
             return helper::sample_from_distribution(*distr, rand_manager, false);
         }
 
-        int rng = rand_manager.get_rand_int(0, distr->size());
+        int rng = rand_manager.get_rand_int(0, alias_table.size());
         AliasTableEntry& alias_entry = alias_table[rng];
         if (1.0 > alias_entry.threshold && alias_entry.threshold > rand_manager.get_rand_uniform()) {
             return alias_entry.first;
@@ -122,6 +122,13 @@ namespace thts {
     */
     template <typename T>
     void CategoricalDistribution<T>::reconstruct_alias_table(bool just_constructed) {
+        // 'update' may have added keys since the table was constructed
+        if (alias_table.size() != distr->size()) {
+            alias_table.clear();
+            construct_alias_table();
+            return;
+        }
+
         double sum_weights = 0.0;
         for (pair<const T,double>& kv_pair : *distr) {
             sum_weights += kv_pair.second;
-- 
2.43.0


From a5c89d84d546a469ffd35204bf1682904f52b1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:37 +0000
Subject: [PATCH 16/20] fix: set_new_env races with workers still finishing
 their last trial

---
 src/thts.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/thts.cpp b/src/thts.cpp
index d9e75a7..9c8f3eb 100644
--- a/src/thts.cpp
+++ b/src/thts.cpp
@@ -73,15 +73,21 @@ namespace thts {
 
     /**
      * Setter for root node, so thread pool can be reused
+     * 
+     * Workers read these members while running a trial, so wait for any worker that is still finishing its last trial
     */
     void ThtsPool::set_new_env(
         shared_ptr<ThtsManager> new_thts_manager, 
         shared_ptr<ThtsDNode> new_root_node,
         shared_ptr<ThtsLogger> new_logger) 
     {
+        lock_guard<mutex> lg(work_left_lock);
         if (work_left()) {
             throw runtime_error("Tried to change root node in thts pool while it was working.");
         }
+        while (num_threads_working > 0) {
+            workers_waiting_cv.wait(work_left_lock);
+        }
         thts_manager = new_thts_manager;
         root_node = new_root_node;
         logger = new_logger;
-- 
2.43.0


From 307e4e1e7cda64aacb7a0c21ca422128b606e1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:09 +0000
Subject: [PATCH 17/20] fix: printing a transposition table throws when a node
 in it was freed

---
 src/thts_types.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/thts_types.cpp b/src/thts_types.cpp
index f93000a..19b43f5 100644
--- a/src/thts_types.cpp
+++ b/src/thts_types.cpp
@@ -506,12 +506,14 @@ namespace std {
     }
 
     /**
-     * Override output stream << operator for DNodeTable.
+     * Override output stream << operator for DNodeTable. Nodes that have been freed since are not printed.
      */
     ostream& operator<<(ostream& os, const DNodeTable& tbl) {
         unordered_map<DNodeIdTuple,shared_ptr<ThtsDNode>> shared_tbl_for_print;
         for (auto pr : tbl) {
-            shared_tbl_for_print.insert_or_assign(pr.first, shared_ptr<ThtsDNode>(pr.second));
+            shared_ptr<ThtsDNode> node = pr.second.lock();
+            if (node == nullptr) continue;
+            shared_tbl_for_print.insert_or_assign(pr.first, node);
         }
         os << helper::unordered_map_pretty_print_string(shared_tbl_for_print);
         return os;
-- 
2.43.0


From 2f55e7573984f07204073c627523f9c7b45bb06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:20 +0000
Subject: [PATCH 18/20] fix: RENTS throws when a node is shared by roots at
 different timesteps

---
 src/algorithms/ments/rents/rents_decision_node.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithms/ments/rents/rents_decision_node.cpp b/src/algorithms/ments/rents/rents_decision_node.cpp
index 6cc4533..bc31988 100644
--- a/src/algorithms/ments/rents/rents_decision_node.cpp
+++ b/src/algorithms/ments/rents/rents_decision_node.cpp
@@ -25,12 +25,12 @@ namespace thts {
                 static_pointer_cast<const MentsCNode>(parent))
     {
         stringstream ss_n;
-        ss_n << "d_" << decision_depth;
+        ss_n << "d_" << decision_timestep;
         _node_distr_key = ss_n.str();
 
         if (decision_depth > 0) {
             stringstream ss_p;
-            ss_p << "d_" << decision_depth-1;
+            ss_p << "d_" << decision_timestep-1;
             _parent_distr_key = ss_p.str();
         }
     }
-- 
2.43.0


From d92ccf92a070cbca04f14f50910f930404e5172a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:27 +0000
Subject: [PATCH 19/20] fix: TENTS throws or backs up the wrong action when a
 node is shared by roots at different timesteps

---
 src/algorithms/ments/tents/tents_decision_node.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithms/ments/tents/tents_decision_node.cpp b/src/algorithms/ments/tents/tents_decision_node.cpp
index ddb5703..d94aa36 100644
--- a/src/algorithms/ments/tents/tents_decision_node.cpp
+++ b/src/algorithms/ments/tents/tents_decision_node.cpp
@@ -37,7 +37,7 @@ namespace thts {
         }
 
         stringstream ss;
-        ss << decision_depth;
+        ss << decision_timestep;
         _selected_action_key = ss.str();
     }
 
@@ -159,7 +159,7 @@ namespace thts {
 
     /**
      * Calls the ments implementation of select action and stores the action in the context at 
-     * "{decision_depth}" -> selected_action
+     * "{decision_timestep}" -> selected_action
      */
     shared_ptr<const Action> TentsDNode::select_action(ThtsEnvContext& ctx) {
         shared_ptr<const Action> selected_action = select_action_ments(ctx);
-- 
2.43.0


From 17d7298bd3c56311a7be6dc2446591a3e7603894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:19 +0000
Subject: [PATCH 20/20] fix: TENTS uses q values over an outdated temperature
 when the temperature decays

---
 .../algorithms/ments/tents/tents_decision_node.h | 11 ++++++-----
 .../ments/tents/tents_decision_node.cpp          | 16 ++++++++++------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/include/algorithms/ments/tents/tents_decision_node.h b/include/algorithms/ments/tents/tents_decision_node.h
index 9743771..a812ada 100644
--- a/include/algorithms/ments/tents/tents_decision_node.h
+++ b/include/algorithms/ments/tents/tents_decision_node.h
@@ -23,9 +23,10 @@ namespace thts {
      * 
      * Paper: http://proceedings.mlr.press/v139/dam21a/dam21a.pdf
      * 
-     * Maps are maintained to map between the values of 'soft_q_value/temp' (where soft_q_value is the soft value of 
+     * Maps are maintained to map between the values of 'soft_q_value' (where soft_q_value is the soft value of 
      * a child) to prevent having to sort everytime the node is visited. So action selection may use slightly outdated 
-     * q values in a multi-threaded setting, but many threads probably outweighs this consistency cost.
+     * q values in a multi-threaded setting, but many threads probably outweighs this consistency cost. The values in 
+     * the maps are not divided by the temperature, because the temperature may decay between updates of the maps.
      * 
      * N.B. For convenience the code for tents frequently uses 'q_value' to mean the value of Q(s,a)/temp, trying to 
      * avoid being verbose.
@@ -35,10 +36,10 @@ namespace thts {
      * 
      * Member variables:
      *      qval_to_act: 
-     *          A multi-map from qvalue/temp values to actions (note that this is sorted from smallest to largest, so 
+     *          A multi-map from qvalues (not over temp) to actions (note that this is sorted from smallest to largest, so 
      *          the reverse iterator will iterate from largest to smallest)
      *      act_to_qval:
-     *          An unordered_map from action to qvalue/temp values, which is used for tents computations, and useful 
+     *          An unordered_map from action to qvalues (not over temp), which is used for tents computations, and useful 
      *          for looking up items in the qval_to_act multimap.
      *      _selected_action_key:
      *          A key to use for storing the selected action in ThtsEnvContexts 
@@ -76,7 +77,7 @@ namespace thts {
              * 
              * Args:
              *      action: The action to be updated in the maps
-             *      new_q_value: The new q_value (over temp) to be updated in the maps
+             *      new_q_value: The new q_value (not over temp) to be updated in the maps
             */
             void update_maps(std::shared_ptr<const Action> action, double new_q_value);
 
diff --git a/src/algorithms/ments/tents/tents_decision_node.cpp b/src/algorithms/ments/tents/tents_decision_node.cpp
index d94aa36..1562af2 100644
--- a/src/algorithms/ments/tents/tents_decision_node.cpp
+++ b/src/algorithms/ments/tents/tents_decision_node.cpp
@@ -30,8 +30,9 @@ namespace thts {
                 decision_timestep,
                 static_pointer_cast<const MentsCNode>(parent))
     {
+        double opp_coeff = is_opponent() ? -1.0 : 1.0;
         for (shared_ptr<const Action> action : *actions) {
-            double qval = get_soft_q_value_over_temp(action);
+            double qval = get_soft_q_value(action, opp_coeff);
             qval_to_act.insert(make_pair(qval, action));
             act_to_qval.insert_or_assign(action, qval);
         }
@@ -79,8 +80,9 @@ namespace thts {
         unique_ptr<ActionVector> sparse_action_set = make_unique<ActionVector>();
         double i = 0;
         double sum_values = 0.0;
+        double temp = get_temp();
         for (auto it=qval_to_act.rbegin(); it != qval_to_act.rend(); it++) {
-            double value = it->first;
+            double value = it->first / temp;
             shared_ptr<const Action> action = it->second;
             sum_values += value;
             if (1.0 + (i+1.0)*value > sum_values) {
@@ -99,15 +101,16 @@ namespace thts {
     double TentsDNode::spmax() const {
         unique_ptr<ActionVector> sparse_action_set = get_sparse_action_set();
 
+        double temp = get_temp();
         double sum_sparse_values = 0.0;
         for (shared_ptr<const Action> action : *sparse_action_set) {
-            sum_sparse_values += act_to_qval.at(action);
+            sum_sparse_values += act_to_qval.at(action) / temp;
         }
 
         double spmax_common_term = 0.5 * pow(sum_sparse_values-1.0, 2.0) / pow(sparse_action_set->size(), 2.0);
         double spmax = 0.5;
         for (shared_ptr<const Action> action : *sparse_action_set) {
-            double action_val = act_to_qval.at(action);
+            double action_val = act_to_qval.at(action) / temp;
             spmax += pow(action_val, 2.0) / 2.0 - spmax_common_term;
         }
 
@@ -175,14 +178,15 @@ namespace thts {
    void TentsDNode::backup_update_map(ThtsEnvContext& ctx) {
         shared_ptr<const Action> selected_action = ctx.get_value_ptr_const<Action>(_selected_action_key);
         double new_q_value;
+        double opp_coeff = is_opponent() ? -1.0 : 1.0;
 
         if (has_child_node(selected_action)) {
             ThtsCNode& child_node = *get_child_node(selected_action);
             child_node.lock();
-            new_q_value = get_soft_q_value_over_temp(selected_action);
+            new_q_value = get_soft_q_value(selected_action, opp_coeff);
             child_node.unlock();
         } else {
-            new_q_value = get_soft_q_value_over_temp(selected_action);
+            new_q_value = get_soft_q_value(selected_action, opp_coeff);
         }
 
         update_maps(selected_action, new_q_value);
-- 
2.43.0

