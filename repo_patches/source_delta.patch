From 955ea51dbe28e0f6fa8cb6cc61866b679a3206fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 01/73] Verification hook: task size can be set with
 KNOR_VERIF_MIN_TASK_ROWS

---
 libman/task_queue.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libman/task_queue.hpp b/libman/task_queue.hpp
index e471c68..088988a 100644
--- a/libman/task_queue.hpp
+++ b/libman/task_queue.hpp
@@ -26,7 +26,11 @@
 
 namespace kbase = knor::base;
 
+#ifdef KNOR_VERIF_MIN_TASK_ROWS // Verification hook: smaller tasks
+#define MIN_TASK_ROWS KNOR_VERIF_MIN_TASK_ROWS
+#else
 #define MIN_TASK_ROWS 8192
+#endif
 //#define MIN_TASK_ROWS 2 // TODO: Change
 namespace knor {
 template <typename T>
-- 
2.43.0


From 83465c2071d38649ebc729442f82cbd9038412e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 02/73] fix: a coordinator can miss the last thread's
 completion signal

wait4complete() tests pending_threads and then waits while holding the
coordinator's mutex, but the last thread decremented the count and signalled
without that mutex. When both happened between the test and the wait the
coordinator slept forever.
---
 libman/fcm_coordinator.cpp         |  1 +
 libman/gmeans_coordinator.cpp      |  1 +
 libman/gmm_coordinator.cpp         |  1 +
 libman/hclust_coordinator.cpp      |  1 +
 libman/kmeans_coordinator.cpp      |  1 +
 libman/kmeans_task_coordinator.cpp |  1 +
 libman/medoid_coordinator.cpp      |  1 +
 libman/skmeans_coordinator.cpp     |  1 +
 libman/task_thread.cpp             | 14 ++------------
 libman/thread.cpp                  | 21 +++++++++++++++------
 libman/thread.hpp                  | 10 +++++++++-
 libman/xmeans_coordinator.cpp      |  1 +
 12 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/libman/fcm_coordinator.cpp b/libman/fcm_coordinator.cpp
index f70859c..975294c 100644
--- a/libman/fcm_coordinator.cpp
+++ b/libman/fcm_coordinator.cpp
@@ -66,6 +66,7 @@ void fcm_coordinator::build_thread_state() {
                     ncol, k, fuzzindex, um, centers, fn, _dist_t));
         threads[thd_id]->set_parent_cond(&cond);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
     }
 }
diff --git a/libman/gmeans_coordinator.cpp b/libman/gmeans_coordinator.cpp
index 1cfc747..eddb12a 100644
--- a/libman/gmeans_coordinator.cpp
+++ b/libman/gmeans_coordinator.cpp
@@ -68,6 +68,7 @@ void gmeans_coordinator::build_thread_state() {
                     compute_pdist));
         threads[thd_id]->set_parent_cond(&cond);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
         std::static_pointer_cast<gmeans>(threads[thd_id])
                     ->set_part_id(&part_id[0]);
diff --git a/libman/gmm_coordinator.cpp b/libman/gmm_coordinator.cpp
index d4662e4..00383ac 100644
--- a/libman/gmm_coordinator.cpp
+++ b/libman/gmm_coordinator.cpp
@@ -72,6 +72,7 @@ void gmm_coordinator::build_thread_state() {
                     thd_id, tup.first, tup.second, ncol, fn, _dist_t));
         threads[thd_id]->set_parent_cond(&cond);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
         std::static_pointer_cast<gmm>(threads[thd_id])->set_alg_metadata(
                 k, mu_k, &(sigma_k[0]), P_nk, &Pk[0],
diff --git a/libman/hclust_coordinator.cpp b/libman/hclust_coordinator.cpp
index f84921d..598349e 100644
--- a/libman/hclust_coordinator.cpp
+++ b/libman/hclust_coordinator.cpp
@@ -75,6 +75,7 @@ void hclust_coordinator::build_thread_state() {
                     cltr_active_vec));
         threads[thd_id]->set_parent_cond(&cond);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
         std::static_pointer_cast<hclust>(threads[thd_id])
                     ->set_part_id(&part_id[0]);
diff --git a/libman/kmeans_coordinator.cpp b/libman/kmeans_coordinator.cpp
index 6598064..11306b3 100644
--- a/libman/kmeans_coordinator.cpp
+++ b/libman/kmeans_coordinator.cpp
@@ -59,6 +59,7 @@ void kmeans_coordinator::build_thread_state() {
                     ncol, cltrs, &cluster_assignments[0], fn, _dist_t));
         threads[thd_id]->set_parent_cond(&cond);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
     }
 }
diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index 4fdac38..898d088 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -73,6 +73,7 @@ void kmeans_task_coordinator::build_thread_state() {
                     ncol, cltrs, &cluster_assignments[0], fn, _dist_t));
         threads[thd_id]->set_parent_cond(&cond);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
         std::static_pointer_cast<task_thread>(threads[thd_id])
             ->set_driver(this); // For computation stealing
diff --git a/libman/medoid_coordinator.cpp b/libman/medoid_coordinator.cpp
index 710dca7..4ddfe13 100644
--- a/libman/medoid_coordinator.cpp
+++ b/libman/medoid_coordinator.cpp
@@ -82,6 +82,7 @@ void medoid_coordinator::build_thread_state() {
                     fn, sample_rate));
         threads[thd_id]->set_parent_cond(&cond);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
         std::static_pointer_cast<medoid>(threads[thd_id])->set_coordinator(this);
     }
diff --git a/libman/skmeans_coordinator.cpp b/libman/skmeans_coordinator.cpp
index 55e869f..5323445 100644
--- a/libman/skmeans_coordinator.cpp
+++ b/libman/skmeans_coordinator.cpp
@@ -59,6 +59,7 @@ void skmeans_coordinator::build_thread_state() {
                     ncol, cltrs, &cluster_assignments[0], fn, _dist_t));
         threads[thd_id]->set_parent_cond(&cond);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
     }
 }
diff --git a/libman/task_thread.cpp b/libman/task_thread.cpp
index 410455e..cf0ff8e 100644
--- a/libman/task_thread.cpp
+++ b/libman/task_thread.cpp
@@ -99,26 +99,16 @@ void task_thread::lock_sleep() {
     rc = pthread_mutex_lock(&mutex);
     if (rc) perror("pthread_mutex_lock");
 
-    (*parent_pending_threads)--;
     set_thread_state(WAIT);
-
-    if (*parent_pending_threads == 0) {
-        rc = pthread_cond_signal(parent_cond); // Wake up parent thread
-        if (rc) perror("pthread_cond_signal");
-    }
+    notify_parent();
     rc = pthread_mutex_unlock(&mutex);
     if (rc) perror("pthread_mutex_unlock");
 }
 
 // Assumes caller has lock already ... or else ...
 void task_thread::sleep() {
-    (*parent_pending_threads)--;
     set_thread_state(WAIT);
-
-    if (*parent_pending_threads == 0) {
-        int rc = pthread_cond_signal(parent_cond); // Wake up parent thread
-        if (rc) perror("pthread_cond_signal");
-    }
+    notify_parent();
 }
 
 void task_thread::wait() {
diff --git a/libman/thread.cpp b/libman/thread.cpp
index 9e2d844..4ae0cd5 100644
--- a/libman/thread.cpp
+++ b/libman/thread.cpp
@@ -31,18 +31,27 @@
 
 namespace knor {
 
+void thread::notify_parent() {
+    if (--(*parent_pending_threads) != 0)
+        return;
+
+    // The parent tests the count, then waits, while holding its mutex. Taking
+    // the mutex here means we can't signal in between.
+    if (parent_mutex)
+        pthread_mutex_lock(parent_mutex);
+    int rc = pthread_cond_signal(parent_cond); // Wake up parent thread
+    if (rc) perror("pthread_cond_signal");
+    if (parent_mutex)
+        pthread_mutex_unlock(parent_mutex);
+}
+
 void thread::sleep() {
     int rc;
     rc = pthread_mutex_lock(&mutex);
     if (rc) perror("pthread_mutex_lock");
 
-    (*parent_pending_threads)--;
     set_thread_state(WAIT);
-
-    if (*parent_pending_threads == 0) {
-        rc = pthread_cond_signal(parent_cond); // Wake up parent thread
-        if (rc) perror("pthread_cond_signal");
-    }
+    notify_parent();
     pthread_mutex_unlock(&mutex);
 }
 
diff --git a/libman/thread.hpp b/libman/thread.hpp
index c4e5892..aab9599 100644
--- a/libman/thread.hpp
+++ b/libman/thread.hpp
@@ -102,6 +102,7 @@ protected:
 
     pthread_cond_t* parent_cond;
     std::atomic<unsigned>* parent_pending_threads;
+    pthread_mutex_t* parent_mutex; // Guards parent_cond. Optional
 
     metaunion meta;
     //unsigned num_changed;
@@ -121,7 +122,7 @@ protected:
             kbase::dist_t dist_metric=kbase::dist_t::EUCL) :
         node_id(node_id), thd_id(thd_id), ncol(ncol),
         start_rid(start_rid), local_clusters(nullptr), dist_metric(dist_metric),
-        preallocd_data(false) {
+        parent_mutex(NULL), preallocd_data(false) {
 
         this->cluster_assignments = cluster_assignments;
         pthread_mutexattr_init(&mutex_attr);
@@ -142,6 +143,9 @@ protected:
         set_thread_state(WAIT);
     }
 
+    // One less thread pending. The last one notifies the parent.
+    void notify_parent();
+
     void set_thread_state(knor::thread_state_t state) {
         this->state = state;
     }
@@ -237,6 +241,10 @@ public:
         parent_pending_threads = ppt;
     }
 
+    void set_parent_mutex(pthread_mutex_t* mutex) {
+        parent_mutex = mutex;
+    }
+
     void destroy_numa_mem();
 
     const size_t get_start_rid() const {
diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index 19367fc..033ca0a 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -64,6 +64,7 @@ void xmeans_coordinator::build_thread_state() {
                     compute_pdist));
         threads[thd_id]->set_parent_cond(&cond);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
         std::static_pointer_cast<xmeans>(threads[thd_id])
                     ->set_part_id(&part_id[0]);
-- 
2.43.0


From 9fe4d0a6cfbd6205ae20687f9008315ced4cee55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 03/73] fix: threads outlive the objects they use on teardown

~coordinator() and ~thread() destroyed conditions, mutexes and row data before
the threads using them had exited. Wake the threads with EXIT and join them
first. Never free row data that was never allocated.
---
 libman/coordinator.cpp |  5 ++++-
 libman/thread.cpp      | 11 ++++++++---
 libman/thread.hpp      |  2 +-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/libman/coordinator.cpp b/libman/coordinator.cpp
index d7cfab5..c7b2a36 100644
--- a/libman/coordinator.cpp
+++ b/libman/coordinator.cpp
@@ -87,6 +87,8 @@ void coordinator::wake4run(const thread_state_t state) {
 
 void coordinator::destroy_threads() {
     wake4run(EXIT);
+    for (thread_iter it = threads.begin(); it != threads.end(); ++it)
+        (*it)->join(); // Nothing a thread uses may go before it exits
 }
 
 // <Thread, within-thread-row-id>
@@ -160,6 +162,8 @@ void coordinator::run_init() {
 }
 
 coordinator::~coordinator() {
+    destroy_threads();
+
     thread_iter it = threads.begin();
     for (; it != threads.end(); ++it)
         (*it)->destroy_numa_mem();
@@ -167,7 +171,6 @@ coordinator::~coordinator() {
     pthread_cond_destroy(&cond);
     pthread_mutex_destroy(&mutex);
     pthread_mutexattr_destroy(&mutex_attr);
-    destroy_threads();
 }
 
 } // End namespace knor
diff --git a/libman/thread.cpp b/libman/thread.cpp
index 4ae0cd5..a1039de 100644
--- a/libman/thread.cpp
+++ b/libman/thread.cpp
@@ -84,16 +84,20 @@ void thread::wake(thread_state_t state) {
 
 
 void thread::destroy_numa_mem() {
-    if (!preallocd_data) {
+    if (!preallocd_data && local_data) {
 #ifdef USE_NUMA
     numa_free(local_data, get_data_size());
 #else
     delete [] local_data;
 #endif
+        local_data = NULL;
     }
 }
 
 void thread::join() {
+    if (thd_id == INVALID_THD_ID)
+        return; // Already joined
+
     void* join_status;
     int rc = pthread_join(hw_thd, &join_status);
     if (rc)
@@ -163,6 +167,9 @@ const unsigned thread::get_global_data_id(
 }
 
 thread::~thread() {
+    if (thd_id != INVALID_THD_ID)
+        join();
+
     pthread_cond_destroy(&cond);
     pthread_mutex_destroy(&mutex);
     pthread_mutexattr_destroy(&mutex_attr);
@@ -174,7 +181,5 @@ thread::~thread() {
     printf("Thread %u being destroyed\n", thd_id);
 #endif
 #endif
-    if (thd_id != INVALID_THD_ID)
-        join();
 }
 } // End namespace knor
diff --git a/libman/thread.hpp b/libman/thread.hpp
index aab9599..4461659 100644
--- a/libman/thread.hpp
+++ b/libman/thread.hpp
@@ -121,7 +121,7 @@ protected:
             const std::string fn="",
             kbase::dist_t dist_metric=kbase::dist_t::EUCL) :
         node_id(node_id), thd_id(thd_id), ncol(ncol),
-        start_rid(start_rid), local_clusters(nullptr), dist_metric(dist_metric),
+        start_rid(start_rid), local_data(NULL), local_clusters(nullptr), dist_metric(dist_metric),
         parent_mutex(NULL), preallocd_data(false) {
 
         this->cluster_assignments = cluster_assignments;
-- 
2.43.0


From 90ecdc179f4532517a6dff6d20ce60ee062443b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 04/73] fix: tasks of a pruned k-means thread leak and are
 freed uninitialised

request_task() tested an uninitialised pointer on a thread's first task and
wake() dropped the last task of the previous round.
---
 libman/kmeans_task_thread.cpp | 1 +
 libman/task_thread.cpp        | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/libman/kmeans_task_thread.cpp b/libman/kmeans_task_thread.cpp
index 4c055b2..3f87c7d 100644
--- a/libman/kmeans_task_thread.cpp
+++ b/libman/kmeans_task_thread.cpp
@@ -112,6 +112,7 @@ void kmeans_task_thread::wake(thread_state_t state) {
             state == thread_state_t::MB_EM) {
         // Threads only sleep if they AND all other threads have no tasks
         tasks->reset(); // NOTE: Only place this is reset
+        delete curr_task; // The last one of the previous round
         curr_task = tasks->get_task();
         assert(curr_task->get_nrow() <= tasks->get_nrow());
 
diff --git a/libman/task_thread.cpp b/libman/task_thread.cpp
index cf0ff8e..1adb198 100644
--- a/libman/task_thread.cpp
+++ b/libman/task_thread.cpp
@@ -36,7 +36,8 @@ task_thread::task_thread(const int node_id, const unsigned thd_id,
         const std::string fn, kbase::dist_t dist_metric):
             thread(node_id, thd_id, ncol,
             cluster_assignments, start_rid, fn, dist_metric),
-        g_clusters(g_clusters), prune_init(true), _is_numa(false) {
+        g_clusters(g_clusters), curr_task(NULL), prune_init(true),
+        _is_numa(false) {
 
                 ur_distribution =
                     std::uniform_real_distribution<double>(0.0, 1.0);
@@ -130,6 +131,7 @@ const unsigned task_thread::get_global_data_id(const unsigned row_id) const {
 }
 
 task_thread::~task_thread() {
+  delete curr_task;
   delete tasks;
 }
 } } // End namespace knor, prune
-- 
2.43.0


From 6992f37e8f4d54f7354147ff9ac5a7d9e2dd92d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 05/73] fix: a thread can start a round before wake() has set
 it up

The thread's main loop read its state without the lock, so a thread back from
one round could see the next state while wake() was still resetting its task
queue and counters, and compute on the previous round's task.
---
 libman/thread.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libman/thread.hpp b/libman/thread.hpp
index 4461659..14529e2 100644
--- a/libman/thread.hpp
+++ b/libman/thread.hpp
@@ -66,8 +66,7 @@ void* callback(void* arg) {
 #endif
 
     while (true) { // So we can receive task after task
-        if (t->get_state() == knor::WAIT)
-            t->wait();
+        t->wait(); // Tests the state holding the lock wake() sets it with
 
         if (t->get_state() == knor::EXIT) {// No more work to do
             break;
-- 
2.43.0


From 468218e0063f9bc6b1e1cd5b81ee77eb401fdd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 06/73] fix: pruned k-means used the wrong centre movement
 after its first iteration

The distance bound of a row grows by how far its centre moved, but the movement
of the first iteration was measured from the origin rather than from the
initial centres. When that is too short rows keep a centre that isn't nearest.
---
 libauto/min-tri-kmeans.cpp         | 2 +-
 libman/kmeans_task_coordinator.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libauto/min-tri-kmeans.cpp b/libauto/min-tri-kmeans.cpp
index ca7abe1..b73f149 100644
--- a/libauto/min-tri-kmeans.cpp
+++ b/libauto/min-tri-kmeans.cpp
@@ -319,10 +319,10 @@ static void EM_step(const double* matrix, kbase::prune_clusters::ptr cls,
 #endif
 #endif
 
+    cls->set_prev_means();
     if (prune_init) {
         cls->clear();
     } else {
-        cls->set_prev_means();
         cls->unfinalize_all();
     }
 
diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index 898d088..f95b328 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -130,13 +130,13 @@ void kmeans_task_coordinator::mb_iteration_end() {
 }
 
 void kmeans_task_coordinator::update_clusters(const bool prune_init) {
+    cltrs->set_prev_means();
     if (prune_init) {
 #ifndef BIND
         printf("Clearing because of init ..\n");
 #endif
         cltrs->clear();
     } else {
-        cltrs->set_prev_means();
         cltrs->unfinalize_all();
     }
 
-- 
2.43.0


From c0f7cfe53fc5790b766b57c152c1e6c089aef1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:17 +0000
Subject: [PATCH 07/73] fix: pruned k-means prunes with Euclidean bounds
 whatever the metric

With cosine or taxicab distances rows were left in a cluster that isn't their
nearest.
---
 libauto/min-tri-kmeans.cpp    | 10 +++++++---
 libman/kmeans_task_thread.cpp | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/libauto/min-tri-kmeans.cpp b/libauto/min-tri-kmeans.cpp
index b73f149..4c749eb 100644
--- a/libauto/min-tri-kmeans.cpp
+++ b/libauto/min-tri-kmeans.cpp
@@ -225,6 +225,9 @@ static void EM_step(const double* matrix, kbase::prune_clusters::ptr cls,
     for (int i = 0; i < OMP_MAX_THREADS; i++)
         pt_cl[i] = kbase::clusters::create(K, NUM_COLS);
 
+    // The centre distances pruning compares with are always Euclidean
+    const bool can_prune = g_dist_type == kbase::dist_t::EUCL;
+
 #ifdef _OPENMP
 #pragma omp parallel for firstprivate(matrix, pt_cl)\
     shared(cluster_assignments, recalculated_v, dist_v)
@@ -251,12 +254,13 @@ static void EM_step(const double* matrix, kbase::prune_clusters::ptr cls,
             recalculated_v->set(row, false);
             dist_v[row] += cls->get_prev_dist(cluster_assignments[row]);
 
-            if (dist_v[row] <= cls->get_s_val(cluster_assignments[row])) {
+            if (can_prune &&
+                    dist_v[row] <= cls->get_s_val(cluster_assignments[row])) {
                 // Skip all rows
             } else {
                 for (unsigned clust_idx = 0; clust_idx < K; clust_idx++) {
 
-                    if (dist_v[row] <= dm->get(cluster_assignments[row],
+                    if (can_prune && dist_v[row] <= dm->get(cluster_assignments[row],
                                 clust_idx)) {
                         // Skip this cluster
                         continue;
@@ -269,7 +273,7 @@ static void EM_step(const double* matrix, kbase::prune_clusters::ptr cls,
                         recalculated_v->set(row, true);
                     }
 
-                    if (dist_v[row] <= dm->get(cluster_assignments[row],
+                    if (can_prune && dist_v[row] <= dm->get(cluster_assignments[row],
                                 clust_idx)) {
                         // Skip this cluster
                         continue;
diff --git a/libman/kmeans_task_thread.cpp b/libman/kmeans_task_thread.cpp
index 3f87c7d..a1fc85a 100644
--- a/libman/kmeans_task_thread.cpp
+++ b/libman/kmeans_task_thread.cpp
@@ -183,6 +183,9 @@ void kmeans_task_thread::mb_EM_step() {
 }
 
 void kmeans_task_thread::EM_step() {
+    // The centre distances pruning compares with are always Euclidean
+    const bool can_prune = dist_metric == kbase::dist_t::EUCL;
+
     for (unsigned row = 0; row < curr_task->get_nrow(); row++) {
         unsigned true_row_id = get_global_data_id(row);
         unsigned old_clust = cluster_assignments[true_row_id];
@@ -208,14 +211,15 @@ void kmeans_task_thread::EM_step() {
             dist_v[true_row_id] +=
                 g_clusters->get_prev_dist(cluster_assignments[true_row_id]);
 
-            if (dist_v[true_row_id] <=
+            if (can_prune && dist_v[true_row_id] <=
                     g_clusters->get_s_val(cluster_assignments[true_row_id])) {
                 // Skip all rows
             } else {
                 for (unsigned clust_idx = 0;
                         clust_idx < g_clusters->get_nclust(); clust_idx++) {
 
-                    if (dist_v[true_row_id] <= dm->get(cluster_assignments
+                    if (can_prune && dist_v[true_row_id] <=
+                            dm->get(cluster_assignments
                                 [true_row_id], clust_idx)) {
                         // Skip this cluster
                         continue;
@@ -230,7 +234,7 @@ void kmeans_task_thread::EM_step() {
                         recalculated_v->set(true_row_id, true);
                     }
 
-                    if (dist_v[true_row_id] <=
+                    if (can_prune && dist_v[true_row_id] <=
                             dm->get(cluster_assignments[true_row_id], clust_idx)) {
                         // Skip this cluster
                         continue;
-- 
2.43.0


From 0007d7900888382f28530c761f0083fe0eb9f824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 08/73] fix: pruned k-means aborts for a single cluster

With k = 1 there are no centre to centre distances to store and no pruning to
do, but the distance matrix asserted k > 1.
---
 libkcommon/dist_matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkcommon/dist_matrix.cpp b/libkcommon/dist_matrix.cpp
index 6d3ab48..f875e03 100644
--- a/libkcommon/dist_matrix.cpp
+++ b/libkcommon/dist_matrix.cpp
@@ -28,7 +28,7 @@
 namespace knor { namespace prune {
 
 dist_matrix::dist_matrix(const unsigned rows) {
-    assert(rows > 1);
+    assert(rows >= 1);
 
     this->rows = rows-1;
     // Distance to everyone other than yourself
-- 
2.43.0


From 3f5f3f4003d263da55d9fe0d4bcd39c60d72eb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 09/73] fix: every thread computes the whole pairwise distance
 matrix

The loop was in a parallel region without a worksharing directive, so all
threads wrote all of the entries at once.
---
 libkcommon/dist_matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkcommon/dist_matrix.cpp b/libkcommon/dist_matrix.cpp
index f875e03..e942e74 100644
--- a/libkcommon/dist_matrix.cpp
+++ b/libkcommon/dist_matrix.cpp
@@ -124,7 +124,7 @@ void dist_matrix::compute_dist(knor::base::prune_clusters::ptr cls,
 void dist_matrix::compute_pairwise_dist(double* data,
         const size_t ncol, const knor::base::dist_t metric) {
 #ifdef _OPENMP
-#pragma omp parallel
+#pragma omp parallel for
 #endif
     for (size_t i = 0; i < rows; i++) {
         for (size_t j = i+1; j < rows+1; j++) {
-- 
2.43.0


From e5e9751e56600358155427c8d28a61c62ebcd684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 10/73] fix: OpenMP k-means runs one iteration too few

The loops counted from 1 (2 when pruned) but stopped before max_iters, so that
asking for one iteration of the unpruned engine returned unassigned rows and
zero centres.
---
 libauto/kmeans.cpp         | 4 +++-
 libauto/min-tri-kmeans.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/libauto/kmeans.cpp b/libauto/kmeans.cpp
index 576d270..99ca53a 100644
--- a/libauto/kmeans.cpp
+++ b/libauto/kmeans.cpp
@@ -397,7 +397,7 @@ kbase::cluster_t compute_kmeans(const double* matrix, double* clusters_ptr,
     if (MAX_ITERS > 0)
         iter++;
 
-    while (iter < MAX_ITERS) {
+    while (iter <= MAX_ITERS && MAX_ITERS > 0) {
         if (iter == 1)
             std::fill(cluster_assignments,
                     (cluster_assignments)+NUM_ROWS,
@@ -431,6 +431,8 @@ kbase::cluster_t compute_kmeans(const double* matrix, double* clusters_ptr,
         }
         iter++;
     }
+    if (!converged)
+        iter = MAX_ITERS;
 
     gettimeofday(&end, NULL);
 #ifndef BIND
diff --git a/libauto/min-tri-kmeans.cpp b/libauto/min-tri-kmeans.cpp
index 4c749eb..6f21a33 100644
--- a/libauto/min-tri-kmeans.cpp
+++ b/libauto/min-tri-kmeans.cpp
@@ -515,7 +515,7 @@ kbase::cluster_t compute_min_kmeans(const double* matrix, double* clusters_ptr,
     if (MAX_ITERS > 0)
         iter = 2;
 
-    while (iter < MAX_ITERS) {
+    while (iter <= MAX_ITERS && MAX_ITERS > 0) {
         // Hold cluster assignment counter
 #ifndef BIND
         printf("E-step Iteration %lu "
@@ -560,6 +560,8 @@ kbase::cluster_t compute_min_kmeans(const double* matrix, double* clusters_ptr,
         }
         iter++;
     }
+    if (!converged)
+        iter = MAX_ITERS;
 
     gettimeofday(&end, NULL);
 #ifndef BIND
-- 
2.43.0


From 493045653829be3dd8fe097997ca8ccf9fe11313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 11/73] fix: an unconverged run reports one iteration more than
 it ran

---
 libman/fcm_coordinator.cpp         | 2 ++
 libman/kmeans_coordinator.cpp      | 2 ++
 libman/kmeans_task_coordinator.cpp | 2 ++
 libman/medoid_coordinator.cpp      | 2 ++
 libman/skmeans_coordinator.cpp     | 2 ++
 5 files changed, 10 insertions(+)

diff --git a/libman/fcm_coordinator.cpp b/libman/fcm_coordinator.cpp
index 975294c..6327fd7 100644
--- a/libman/fcm_coordinator.cpp
+++ b/libman/fcm_coordinator.cpp
@@ -195,6 +195,8 @@ base::cluster_t fcm_coordinator::run(double* allocd_data,
         delete (diff);
         iter++;
     }
+    if (!converged)
+        iter = max_iters; // Not one more than we ran
 #ifdef PROFILER
     ProfilerStop();
 #endif
diff --git a/libman/kmeans_coordinator.cpp b/libman/kmeans_coordinator.cpp
index 11306b3..7ae140a 100644
--- a/libman/kmeans_coordinator.cpp
+++ b/libman/kmeans_coordinator.cpp
@@ -209,6 +209,8 @@ kbase::cluster_t kmeans_coordinator::run(
         }
         iter++;
     }
+    if (!converged)
+        iter = max_iters; // Not one more than we ran
 #ifdef PROFILER
     ProfilerStop();
 #endif
diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index f95b328..a215a1d 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -494,6 +494,8 @@ kbase::cluster_t kmeans_task_coordinator::run(
         }
         iter++;
     }
+    if (!converged)
+        iter = max_iters; // Not one more than we ran
 
     if (iter == 0 && _init_t == kbase::init_t::PLUSPLUS)
         tally_assignment_counts();
diff --git a/libman/medoid_coordinator.cpp b/libman/medoid_coordinator.cpp
index 4ddfe13..14a81dd 100644
--- a/libman/medoid_coordinator.cpp
+++ b/libman/medoid_coordinator.cpp
@@ -265,6 +265,8 @@ kbase::cluster_t medoid_coordinator::run(
         }
         iter++;
     }
+    if (!converged)
+        iter = max_iters; // Not one more than we ran
 #ifdef PROFILER
     ProfilerStop();
 #endif
diff --git a/libman/skmeans_coordinator.cpp b/libman/skmeans_coordinator.cpp
index 5323445..8e86fcc 100644
--- a/libman/skmeans_coordinator.cpp
+++ b/libman/skmeans_coordinator.cpp
@@ -247,6 +247,8 @@ kbase::cluster_t skmeans_coordinator::run(
         }
         iter++;
     }
+    if (!converged)
+        iter = max_iters; // Not one more than we ran
 #ifdef PROFILER
     ProfilerStop();
 #endif
-- 
2.43.0


From bf410a5858638ecb17e7ccbaac0a249678b3ed45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:44 +0000
Subject: [PATCH 12/73] fix: hierarchical clustering exceeds the requested
 number of clusters

---
 libman/gmeans_coordinator.cpp |  4 +---
 libman/hclust_coordinator.cpp | 16 ++++++++++------
 libman/hclust_coordinator.hpp |  5 ++++-
 libman/xmeans_coordinator.cpp |  1 +
 4 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/libman/gmeans_coordinator.cpp b/libman/gmeans_coordinator.cpp
index eddb12a..745383a 100644
--- a/libman/gmeans_coordinator.cpp
+++ b/libman/gmeans_coordinator.cpp
@@ -50,8 +50,6 @@ void gmeans_coordinator::deactivate(const unsigned id) {
 
 void gmeans_coordinator::activate(const unsigned id) {
     cltr_active_vec->check_set(id, true);
-    if (id > 0)
-        curr_nclust++;
 }
 
 void gmeans_coordinator::build_thread_state() {
@@ -152,7 +150,7 @@ void gmeans_coordinator::partition_decision() {
             // We can reuse these children ids
             ider->reclaim_id(lid);
             ider->reclaim_id(rid);
-            curr_nclust -= 2;
+            curr_nclust--;
 
             final_centroids[pid] = std::vector<double>(
                     cltrs->get_mean_rawptr(pid),
diff --git a/libman/hclust_coordinator.cpp b/libman/hclust_coordinator.cpp
index 598349e..b0a4b0f 100644
--- a/libman/hclust_coordinator.cpp
+++ b/libman/hclust_coordinator.cpp
@@ -155,6 +155,7 @@ void hclust_coordinator::forgy_init() {
                 rand_idx), 1);
     cluster_ptr->set_oneid(splits.second);
     activate(splits.second);
+    curr_nclust = 2;
 }
 
 void hclust_coordinator::none_init() {
@@ -166,6 +167,7 @@ void hclust_coordinator::none_init() {
 
     cluster_ptr->set_oneid(splits.second);
     activate(splits.second);
+    curr_nclust = 2;
 }
 
 void hclust_coordinator::run_hinit() {
@@ -209,8 +211,10 @@ void hclust_coordinator::inner_init(std::vector<unsigned>& remove_cache) {
         l0_complete = l1_complete = r0_complete = r1_complete = false;
 
         // Min cluster deactivation
-        if (cluster_assignment_counts[zeroid] < min_clust_size
-                || at_cluster_cap()) {
+        const bool split_zero =
+            cluster_assignment_counts[zeroid] >= min_clust_size &&
+            !at_cluster_cap();
+        if (!split_zero) {
             deactivate(zeroid); // So we no longer process this
             // Record this as an output
             final_centroids[zeroid] = std::vector<double>(
@@ -220,8 +224,9 @@ void hclust_coordinator::inner_init(std::vector<unsigned>& remove_cache) {
             l0_complete = l1_complete = true;
         }
 
+        // Splitting zeroid adds a cluster too
         if (cluster_assignment_counts[oneid] < min_clust_size
-                || at_cluster_cap()) {
+                || at_cluster_cap(split_zero)) {
             deactivate(oneid);
             final_centroids[oneid] = std::vector<double>(
                     hcltrs[id]->get_mean_rawptr(1),
@@ -280,6 +285,7 @@ void hclust_coordinator::spawn(const unsigned& zeroid,
         hcltrs[zeroid]->set_mean(get_thd_data(cp.l1), 1);
         activate(zero_child_ids.first);
         activate(zero_child_ids.second);
+        curr_nclust++; // Two in place of one
     }
 
     if (cp.r_splittable()) {
@@ -290,6 +296,7 @@ void hclust_coordinator::spawn(const unsigned& zeroid,
         hcltrs[oneid]->set_mean(get_thd_data(cp.r1), 1);
         activate(one_child_ids.first);
         activate(one_child_ids.second);
+        curr_nclust++;
     }
 }
 
@@ -302,7 +309,6 @@ void hclust_coordinator::init_splits() {
         hcltrs.erase(id); // Delete
         deactivate(id);
         ider->reclaim_id(id);
-        curr_nclust--;
     }
 
     // Update partition ID
@@ -324,8 +330,6 @@ void hclust_coordinator::deactivate(const unsigned id) {
 
 void hclust_coordinator::activate(const unsigned id) {
     cltr_active_vec->set(id, true);
-    if (id > 0)
-        curr_nclust++;
 }
 
 const bool hclust_coordinator::is_active(const unsigned id) const {
diff --git a/libman/hclust_coordinator.hpp b/libman/hclust_coordinator.hpp
index 2af46fe..526d484 100644
--- a/libman/hclust_coordinator.hpp
+++ b/libman/hclust_coordinator.hpp
@@ -143,7 +143,10 @@ class hclust_coordinator : public coordinator {
         virtual const bool steady_state() const;
         virtual void accumulate_cluster_counts();
         virtual void complete_final_centroids();
-        virtual bool at_cluster_cap() { return curr_nclust > k*2; }
+        // Can there be no more clusters, given some about to be added?
+        virtual bool at_cluster_cap(const size_t pending=0) {
+            return curr_nclust + pending >= k*2;
+        }
         void verify_consistency();
 };
 }
diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index 033ca0a..01ccf64 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -227,6 +227,7 @@ void xmeans_coordinator::partition_decision() {
             {
                 ider->reclaim_id(score.lid);
                 ider->reclaim_id(score.rid);
+                curr_nclust--;
                 final_centroids[score.pid] = std::vector<double>(
                         cltrs->get_mean_rawptr(score.pid),
                         cltrs->get_mean_rawptr(score.pid) + ncol);
-- 
2.43.0


From d5dcbdaa000c61a9234a2be9a791936cfcb16516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:44 +0000
Subject: [PATCH 13/73] fix: hierarchical clustering follows a null partition
 for clusters of one row

---
 libman/hclust_coordinator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libman/hclust_coordinator.cpp b/libman/hclust_coordinator.cpp
index b0a4b0f..512f0b9 100644
--- a/libman/hclust_coordinator.cpp
+++ b/libman/hclust_coordinator.cpp
@@ -37,7 +37,8 @@ hclust_coordinator::hclust_coordinator(const std::string fn, const size_t nrow,
         const unsigned min_clust_size) :
     coordinator(fn, nrow, ncol, (base::get_hclust_floor(k)/2), max_iters,
             nnodes, nthreads, centers, it, tolerance, dt),
-    min_clust_size(min_clust_size), curr_nclust(0) {
+    // A cluster of less than two can't be split
+    min_clust_size(std::max(min_clust_size, 2u)), curr_nclust(0) {
 
         ui_distribution = std::uniform_int_distribution<unsigned>(0, nrow-1);
 
-- 
2.43.0


From 77c881320b475b52e24772a843fe2c9ad99b53fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:44 +0000
Subject: [PATCH 14/73] fix: hierarchical clustering aborts on an empty child
 cluster

---
 libman/hclust_coordinator.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/libman/hclust_coordinator.cpp b/libman/hclust_coordinator.cpp
index 512f0b9..db70dec 100644
--- a/libman/hclust_coordinator.cpp
+++ b/libman/hclust_coordinator.cpp
@@ -218,7 +218,8 @@ void hclust_coordinator::inner_init(std::vector<unsigned>& remove_cache) {
         if (!split_zero) {
             deactivate(zeroid); // So we no longer process this
             // Record this as an output
-            final_centroids[zeroid] = std::vector<double>(
+            if (cluster_assignment_counts[zeroid] > 0)
+                final_centroids[zeroid] = std::vector<double>(
                     hcltrs[id]->get_mean_rawptr(0),
                     hcltrs[id]->get_mean_rawptr(0) + ncol);
             // Don't split
@@ -229,7 +230,8 @@ void hclust_coordinator::inner_init(std::vector<unsigned>& remove_cache) {
         if (cluster_assignment_counts[oneid] < min_clust_size
                 || at_cluster_cap(split_zero)) {
             deactivate(oneid);
-            final_centroids[oneid] = std::vector<double>(
+            if (cluster_assignment_counts[oneid] > 0)
+                final_centroids[oneid] = std::vector<double>(
                     hcltrs[id]->get_mean_rawptr(1),
                     hcltrs[id]->get_mean_rawptr(1) + ncol);
             // Don't split
@@ -417,12 +419,14 @@ void hclust_coordinator::complete_final_centroids() {
     auto itr = hcltrs.get_iterator();
     while (itr.has_next()) {
         auto const& c = itr.next().second;
-        final_centroids[c->get_zeroid()] =
-            std::vector<double>(c->get_mean_rawptr(0),
-                    c->get_mean_rawptr(0) + ncol);
-        final_centroids[c->get_oneid()] =
-            std::vector<double>(c->get_mean_rawptr(1),
-                    c->get_mean_rawptr(1) + ncol);
+        if (cluster_assignment_counts[c->get_zeroid()] > 0)
+            final_centroids[c->get_zeroid()] =
+                std::vector<double>(c->get_mean_rawptr(0),
+                        c->get_mean_rawptr(0) + ncol);
+        if (cluster_assignment_counts[c->get_oneid()] > 0)
+            final_centroids[c->get_oneid()] =
+                std::vector<double>(c->get_mean_rawptr(1),
+                        c->get_mean_rawptr(1) + ncol);
     }
 }
 
-- 
2.43.0


From 4b3b35902e0ce96a5cae84dac162b8f44e42bb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:44 +0000
Subject: [PATCH 15/73] fix: x-means partition means include those of earlier
 partitions

---
 libman/xmeans_coordinator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index 01ccf64..0165d64 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -74,7 +74,7 @@ void xmeans_coordinator::build_thread_state() {
 }
 
 void xmeans_coordinator::combine_partition_means() {
-    cltrs->unfinalize_all();
+    cltrs->clear(); // Partitions of earlier iterations may share IDs
 
     for (auto const& th : threads) {
         auto thd_lcltrs = th->get_local_clusters();
-- 
2.43.0


From 05ec545ccb4ca44343335386e43d799bd5da62f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:44 +0000
Subject: [PATCH 16/73] fix: hierarchical clustering never stops at convergence

---
 libman/gmeans_coordinator.cpp |  4 ++++
 libman/hclust_coordinator.cpp | 12 ++++++++++++
 libman/hclust_coordinator.hpp |  1 +
 libman/xmeans_coordinator.cpp |  4 ++++
 4 files changed, 21 insertions(+)

diff --git a/libman/gmeans_coordinator.cpp b/libman/gmeans_coordinator.cpp
index 745383a..a9ba8c4 100644
--- a/libman/gmeans_coordinator.cpp
+++ b/libman/gmeans_coordinator.cpp
@@ -240,6 +240,10 @@ base::cluster_t gmeans_coordinator::run(
 #endif
             if (compute_pdist)
                 compute_pdist = false;
+            if (all_converged()) {
+                iter++;
+                break;
+            }
         }
 
         compute_cluster_diffs();
diff --git a/libman/hclust_coordinator.cpp b/libman/hclust_coordinator.cpp
index db70dec..91dcb34 100644
--- a/libman/hclust_coordinator.cpp
+++ b/libman/hclust_coordinator.cpp
@@ -348,6 +348,14 @@ const bool hclust_coordinator::steady_state() const {
     return true; // No more clusters are active & none can be split
 }
 
+const bool hclust_coordinator::all_converged() {
+    auto itr = hcltrs.get_iterator();
+    while (itr.has_next())
+        if (!itr.next().second->has_converged())
+            return false;
+    return true;
+}
+
 void hclust_coordinator::update_clusters() {
     // clear nchanged & means
     nchanged.clear();
@@ -474,6 +482,10 @@ base::cluster_t hclust_coordinator::run(
             base::sparse_print(cluster_assignment_counts);
             printf("\n*****************************************************\n");
 #endif
+            if (all_converged()) {
+                iter++;
+                break;
+            }
         }
 
         if (at_cluster_cap()) {
diff --git a/libman/hclust_coordinator.hpp b/libman/hclust_coordinator.hpp
index 526d484..91f8029 100644
--- a/libman/hclust_coordinator.hpp
+++ b/libman/hclust_coordinator.hpp
@@ -141,6 +141,7 @@ class hclust_coordinator : public coordinator {
         virtual void activate(const unsigned id);
         virtual const bool is_active(const unsigned i) const ;
         virtual const bool steady_state() const;
+        virtual const bool all_converged(); // No partition can change
         virtual void accumulate_cluster_counts();
         virtual void complete_final_centroids();
         // Can there be no more clusters, given some about to be added?
diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index 0165d64..2cc8ffd 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -298,6 +298,10 @@ base::cluster_t xmeans_coordinator::run(
 #endif
             if (compute_pdist)
                 compute_pdist = false;
+            if (all_converged()) {
+                iter++;
+                break;
+            }
         }
 
         // Decide on split or not here
-- 
2.43.0


From 5c850d94f414aa29e893ef16f0f63ffb4432f27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:44 +0000
Subject: [PATCH 17/73] fix: off by one in thd_safe_bool_vector::check_set

---
 libkcommon/thd_safe_bool_vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkcommon/thd_safe_bool_vector.cpp b/libkcommon/thd_safe_bool_vector.cpp
index bcce2b7..5d11d9e 100644
--- a/libkcommon/thd_safe_bool_vector.cpp
+++ b/libkcommon/thd_safe_bool_vector.cpp
@@ -52,7 +52,7 @@ void thd_safe_bool_vector::set(const size_t idx, const bool val) {
 }
 
 void thd_safe_bool_vector::check_set(const size_t idx, const bool val) {
-    if (idx > size())
+    if (idx >= size())
         resize(idx+1);
 
     if (val) {
-- 
2.43.0


From be8420de309851644cc3799a2fb7507cb552d930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:44 +0000
Subject: [PATCH 18/73] fix: g-means aborts on constant projections and
 truncates sums to integers

---
 libkcommon/linalg.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libkcommon/linalg.hpp b/libkcommon/linalg.hpp
index e817b00..031bfd3 100644
--- a/libkcommon/linalg.hpp
+++ b/libkcommon/linalg.hpp
@@ -195,7 +195,7 @@ namespace knor { namespace base {
           */
         static void scale(double* v, const size_t sz) {
             // Compute mean
-            double sum = std::accumulate(v, v+sz, 0);
+            double sum = std::accumulate(v, v+sz, 0.0);
             double mean = sum / static_cast<double>(sz);
 
             // Compute std dev
@@ -206,7 +206,8 @@ namespace knor { namespace base {
             }
             stddev = std::sqrt(stddev / static_cast<double>(sz));
 
-            assert(stddev);
+            if (stddev == 0) // Constant. As scikit-learn: only centered
+                stddev = 1;
             // Subtract the mean, then divide by the stddev
             for (size_t i = 0; i < sz; i++) {
                 v[i] = ((v[i] - mean) / stddev);
-- 
2.43.0


From 87807fcea0af8acd14f0745e37bf2c5854677c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:44 +0000
Subject: [PATCH 19/73] fix: x-means split decisions race and depend on thread
 order

---
 libman/xmeans_coordinator.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index 2cc8ffd..0ac1f03 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -168,6 +168,10 @@ void xmeans_coordinator::compute_bic_scores(
     // TODO: Slow
     // Creates structures to hold cluster membership
     accumulate(cluster_assignments, memb_cltrs);
+    for (auto const& score : bic_scores) { // No insertions by many threads
+        memb_cltrs[score.lid];
+        memb_cltrs[score.rid];
+    }
 
     // Computes the bic scores for each parent, child combo
 #ifdef _OPENMP
@@ -221,17 +225,6 @@ void xmeans_coordinator::partition_decision() {
             // Deactivate pid
             deactivate(score.pid);
             remove_cache->set(i, true);
-#ifdef _OPENMP
-#pragma omp critical
-#endif
-            {
-                ider->reclaim_id(score.lid);
-                ider->reclaim_id(score.rid);
-                curr_nclust--;
-                final_centroids[score.pid] = std::vector<double>(
-                        cltrs->get_mean_rawptr(score.pid),
-                        cltrs->get_mean_rawptr(score.pid) + ncol);
-            }
         } else {
 #ifndef BIND
 #if VERBOSE
@@ -244,7 +237,15 @@ void xmeans_coordinator::partition_decision() {
 
     for (size_t i = 0; i < remove_cache->size(); i++) {
         if (remove_cache->get(i)) {
-            hcltrs.erase(bic_scores[i].pid);
+            auto const& score = bic_scores[i];
+            hcltrs.erase(score.pid);
+            // In partition order, whatever the order of the threads
+            ider->reclaim_id(score.lid);
+            ider->reclaim_id(score.rid);
+            curr_nclust--;
+            final_centroids[score.pid] = std::vector<double>(
+                    cltrs->get_mean_rawptr(score.pid),
+                    cltrs->get_mean_rawptr(score.pid) + ncol);
         }
     }
 }
-- 
2.43.0


From 110ef9367886a58cf8ab6dfeb2becfa66ca5eca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 20/73] fix: fuzzy c-means ignores NUMA-distributed data

---
 libman/fcm_coordinator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libman/fcm_coordinator.cpp b/libman/fcm_coordinator.cpp
index 6327fd7..a2a02cc 100644
--- a/libman/fcm_coordinator.cpp
+++ b/libman/fcm_coordinator.cpp
@@ -132,12 +132,12 @@ base::cluster_t fcm_coordinator::run(double* allocd_data,
     ProfilerStart("fcm_coordinator.perf");
 #endif
 
-    if (!allocd_data) {
+    if (!numa_opt && NULL == allocd_data) {
         wake4run(ALLOC_DATA);
         wait4complete();
-    } else if (allocd_data) {
+    } else if (allocd_data) { // No NUMA opt
         set_thread_data_ptr(allocd_data);
-    }
+    } // Do nothing for numa_opt .. done in binding/knori.hpp
 
     struct timeval start, end;
     gettimeofday(&start , NULL);
-- 
2.43.0


From aaba96daff678dc8ab8f767ad5bfcf83b4f27c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 21/73] fix: fuzzy c-means gives a row no membership in the
 center it equals

---
 libman/fcm.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/libman/fcm.cpp b/libman/fcm.cpp
index f8acfb4..7233611 100644
--- a/libman/fcm.cpp
+++ b/libman/fcm.cpp
@@ -17,6 +17,9 @@
  * limitations under the License.
  */
 
+#include <algorithm>
+#include <cmath>
+
 #include "fcm.hpp"
 #include "types.hpp"
 #include "dense_matrix.hpp"
@@ -45,13 +48,11 @@ void fcm::Estep() {
         for (unsigned cid = 0; cid < nclust; cid++) {
             double dist = base::dist_comp_raw<double>(&local_data[row*ncol],
                     &(centers->as_pointer()[cid*ncol]), ncol, dist_metric);
-            if (dist > 0) {
-                //TODO: Fix bad access pattern. um -> col major
-                um->set(cid, true_rid,
-                        std::pow((1.0 / dist), (1.0 / (fuzzindex-1))));
-            } else {
-                um->set(cid, true_rid, 2.2E-16);
-            }
+            // A row at a center belongs (almost) entirely to that center
+            dist = std::max(dist, 2.2E-16);
+            //TODO: Fix bad access pattern. um -> col major
+            um->set(cid, true_rid,
+                    std::pow((1.0 / dist), (1.0 / (fuzzindex-1))));
         }
     }
 }
-- 
2.43.0


From 072e2de64d3b1c249dc93f332a67a552180e9edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 22/73] fix: dense_matrix::argmax ignores values that are not
 positive

---
 libkcommon/dense_matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libkcommon/dense_matrix.hpp b/libkcommon/dense_matrix.hpp
index 7629f76..e905ac8 100644
--- a/libkcommon/dense_matrix.hpp
+++ b/libkcommon/dense_matrix.hpp
@@ -356,7 +356,7 @@ public:
         // axis = 1: row wise
         if (axis == 0) {
             idx.assign(nrow, 0);
-            vals.assign(nrow, std::numeric_limits<double>::min());
+            vals.assign(nrow, std::numeric_limits<T>::lowest());
 
             for (size_t row = 0; row < nrow; row++) {
                 for (size_t col = 0; col < ncol; col++) {
@@ -370,7 +370,7 @@ public:
         // axis = 0: col wise
         } else if (axis == 1) {
             idx.assign(ncol, 0);
-            vals.assign(ncol, std::numeric_limits<double>::min());
+            vals.assign(ncol, std::numeric_limits<T>::lowest());
 
             for (size_t row = 0; row < nrow; row++) {
                 for (size_t col = 0; col < ncol; col++) {
-- 
2.43.0


From 36bc2e6991c0788f0e79feca812707e2693b2401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 23/73] fix: spherical k-means takes zero as the maximum of a
 negative feature

---
 libman/skmeans.cpp             | 2 +-
 libman/skmeans_coordinator.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libman/skmeans.cpp b/libman/skmeans.cpp
index b87ed79..e782891 100644
--- a/libman/skmeans.cpp
+++ b/libman/skmeans.cpp
@@ -34,7 +34,7 @@ namespace knor {
                 cluster_assignments, fn, dist_metric) {
 
             min_feature_val.assign(ncol, std::numeric_limits<double>::max());
-            max_feature_val.assign(ncol, std::numeric_limits<double>::min());
+            max_feature_val.assign(ncol, std::numeric_limits<double>::lowest());
         }
 
     // Min & Max of all features
diff --git a/libman/skmeans_coordinator.cpp b/libman/skmeans_coordinator.cpp
index 8e86fcc..79c9006 100644
--- a/libman/skmeans_coordinator.cpp
+++ b/libman/skmeans_coordinator.cpp
@@ -65,7 +65,7 @@ void skmeans_coordinator::build_thread_state() {
 }
 
 void skmeans_coordinator::bounds_reduction() {
-    g_feature_max.assign(ncol, std::numeric_limits<double>::min());
+    g_feature_max.assign(ncol, std::numeric_limits<double>::lowest());
     g_feature_min.assign(ncol, std::numeric_limits<double>::max());
 
     for (auto const& th : threads) {
-- 
2.43.0


From 4b4de6d3fca85b48d3bcb284c6d8f99e902a63c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 24/73] fix: spherical k-means divides by zero for a constant
 feature

---
 libman/skmeans.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libman/skmeans.cpp b/libman/skmeans.cpp
index e782891..773c5cd 100644
--- a/libman/skmeans.cpp
+++ b/libman/skmeans.cpp
@@ -54,9 +54,10 @@ namespace knor {
        // NOTE: Only use AFTER feature_bounds_reduction AND coordinator reduce
         for (unsigned row = 0; row < nprocrows; row++) {
             for (unsigned col = 0; col < ncol; col++) {
-                local_data[row*ncol+col] =
-                    (local_data[row*ncol+col] - min_feature_val[col])/
-                    (max_feature_val[col] - min_feature_val[col]);
+                double range = max_feature_val[col] - min_feature_val[col];
+                // A constant feature carries no information
+                local_data[row*ncol+col] = range > 0 ?
+                    (local_data[row*ncol+col] - min_feature_val[col])/range : 0;
             }
         }
     }
-- 
2.43.0


From e222194920c8be1b01726d756fbcd3e63702a1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 25/73] fix: the cosine distance of a zero vector is not a
 number

---
 libkcommon/util.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libkcommon/util.hpp b/libkcommon/util.hpp
index e979b2b..63ed9a9 100644
--- a/libkcommon/util.hpp
+++ b/libkcommon/util.hpp
@@ -124,6 +124,8 @@ const double cos_dist(const T* lhs, const T* rhs,
         ldenom += a*a;
         rdenom += b*b;
     }
+    if (ldenom == 0 || rdenom == 0)
+        return 1; // A zero vector is similar to nothing
     return  1 - (numr / ((std::sqrt(ldenom)*std::sqrt(rdenom))));
 }
 
-- 
2.43.0


From 1d77c35ed9c71dad3084f4e216abec149802c80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 26/73] fix: k-medoids uses the Euclidean distance whatever the
 metric

---
 libman/medoid.cpp             | 6 ++++--
 libman/medoid.hpp             | 8 +++++---
 libman/medoid_coordinator.cpp | 2 +-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/libman/medoid.cpp b/libman/medoid.cpp
index 7d6e34f..abc3ca6 100644
--- a/libman/medoid.cpp
+++ b/libman/medoid.cpp
@@ -32,8 +32,10 @@ medoid::medoid(const int node_id, const unsigned thd_id,
         const unsigned start_rid,
         const unsigned nprocrows, const unsigned ncol,
         kbase::clusters::ptr g_clusters, unsigned* cluster_assignments,
-        const std::string fn, const double sample_rate):
-            thread(node_id, thd_id, ncol, cluster_assignments, start_rid, fn),
+        const std::string fn, const double sample_rate,
+        const kbase::dist_t dist_metric):
+            thread(node_id, thd_id, ncol, cluster_assignments, start_rid, fn,
+                    dist_metric),
             g_clusters(g_clusters), nprocrows(nprocrows),
             sample_rate(sample_rate) {
 
diff --git a/libman/medoid.hpp b/libman/medoid.hpp
index f1a66b5..eb7e0c0 100644
--- a/libman/medoid.hpp
+++ b/libman/medoid.hpp
@@ -54,7 +54,8 @@ class medoid : public thread {
                 const unsigned ncol,
                 std::shared_ptr<kbase::clusters> g_clusters,
                 unsigned* cluster_assignments,
-                const std::string fn, const double sample_rate);
+                const std::string fn, const double sample_rate,
+                const base::dist_t dist_metric);
     public:
         static thread::ptr create(
                 const int node_id, const unsigned thd_id,
@@ -62,11 +63,12 @@ class medoid : public thread {
                 const unsigned ncol,
                 std::shared_ptr<kbase::clusters> g_clusters,
                 unsigned* cluster_assignments, const std::string fn,
-                const double sample_rate) {
+                const double sample_rate,
+                const base::dist_t dist_metric=base::dist_t::EUCL) {
             return thread::ptr(
                     new medoid(node_id, thd_id, start_rid,
                         nprocrows, ncol, g_clusters,
-                        cluster_assignments, fn, sample_rate));
+                        cluster_assignments, fn, sample_rate, dist_metric));
         }
 
         void start(const thread_state_t state) override;
diff --git a/libman/medoid_coordinator.cpp b/libman/medoid_coordinator.cpp
index 14a81dd..39346e7 100644
--- a/libman/medoid_coordinator.cpp
+++ b/libman/medoid_coordinator.cpp
@@ -79,7 +79,7 @@ void medoid_coordinator::build_thread_state() {
         threads.push_back(medoid::create((thd_id % nnodes),
                     thd_id, tup.first, tup.second,
                     ncol, cltrs, &cluster_assignments[0],
-                    fn, sample_rate));
+                    fn, sample_rate, _dist_t));
         threads[thd_id]->set_parent_cond(&cond);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->set_parent_mutex(&mutex);
-- 
2.43.0


From 810579929b5085ade803f7b283ae1c8d926990d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 27/73] fix: k-means++ does not choose centers in proportion to
 their distance

---
 libauto/kmeans.cpp                 | 2 +-
 libauto/min-tri-kmeans.cpp         | 2 +-
 libdist/dist_coordinator.cpp       | 2 +-
 libdist/dist_task_coordinator.cpp  | 2 +-
 libman/gmm_coordinator.cpp         | 2 +-
 libman/kmeans_coordinator.cpp      | 2 +-
 libman/kmeans_task_coordinator.cpp | 2 +-
 libman/skmeans_coordinator.cpp     | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/libauto/kmeans.cpp b/libauto/kmeans.cpp
index 99ca53a..0759ecf 100644
--- a/libauto/kmeans.cpp
+++ b/libauto/kmeans.cpp
@@ -159,7 +159,7 @@ static void kmeanspp_init(const double* matrix, kbase::clusters::ptr clusters,
             cum_dist += dist_v[row];
         }
 
-        cum_dist = (cum_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cum_dist = cum_dist * ur_distribution(generator);
         if (++clust_idx >= K)  // No more centers needed
             break;
 
diff --git a/libauto/min-tri-kmeans.cpp b/libauto/min-tri-kmeans.cpp
index 6f21a33..0876f9f 100644
--- a/libauto/min-tri-kmeans.cpp
+++ b/libauto/min-tri-kmeans.cpp
@@ -178,7 +178,7 @@ static void kmeanspp_init(const double* matrix,
             cum_dist += dist_v[row];
         }
 
-        cum_dist = (cum_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cum_dist = cum_dist * ur_distribution(generator);
         if (++clust_idx >= K)  // No more centers needed
             break;
 
diff --git a/libdist/dist_coordinator.cpp b/libdist/dist_coordinator.cpp
index 810399b..a65ad7b 100644
--- a/libdist/dist_coordinator.cpp
+++ b/libdist/dist_coordinator.cpp
@@ -175,7 +175,7 @@ void dist_coordinator::kmeanspp_init() {
         kmpi::mpi::reduce_double(&local_cuml_dist, &cuml_dist);
 
         // All procs do this ...
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
diff --git a/libdist/dist_task_coordinator.cpp b/libdist/dist_task_coordinator.cpp
index 8876560..66c2771 100644
--- a/libdist/dist_task_coordinator.cpp
+++ b/libdist/dist_task_coordinator.cpp
@@ -158,7 +158,7 @@ void dist_task_coordinator::kmeanspp_init() {
         kmpi::mpi::reduce_double(&local_cuml_dist, &cuml_dist);
 
         // All procs do this ...
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
diff --git a/libman/gmm_coordinator.cpp b/libman/gmm_coordinator.cpp
index 00383ac..1362b53 100644
--- a/libman/gmm_coordinator.cpp
+++ b/libman/gmm_coordinator.cpp
@@ -129,7 +129,7 @@ void gmm_coordinator::kmeanspp_init() {
 // Sum the per thread cumulative dists
         double cuml_dist = reduction_on_cuml_sum();
 
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more  needed
             break;
 
diff --git a/libman/kmeans_coordinator.cpp b/libman/kmeans_coordinator.cpp
index 7ae140a..7800e3a 100644
--- a/libman/kmeans_coordinator.cpp
+++ b/libman/kmeans_coordinator.cpp
@@ -117,7 +117,7 @@ void kmeans_coordinator::kmeanspp_init() {
         wait4complete();
         double cuml_dist = reduction_on_cuml_sum(); // Sum the per thread cumulative dists
 
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index a215a1d..d06468d 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -210,7 +210,7 @@ void kmeans_task_coordinator::kmeanspp_init() {
         wait4complete();
         double cuml_dist = reduction_on_cuml_sum(); // Sum the per thread cumulative dists
 
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
diff --git a/libman/skmeans_coordinator.cpp b/libman/skmeans_coordinator.cpp
index 79c9006..b7554c5 100644
--- a/libman/skmeans_coordinator.cpp
+++ b/libman/skmeans_coordinator.cpp
@@ -152,7 +152,7 @@ void skmeans_coordinator::kmeanspp_init() {
         wait4complete();
         double cuml_dist = reduction_on_cuml_sum(); // Sum the per thread cumulative dists
 
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
-- 
2.43.0


From 02d3ab790a2b30033cc10fa25f01eb3a9888c6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 28/73] fix: the cosine distance of parallel vectors can be
 negative

---
 libkcommon/util.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libkcommon/util.hpp b/libkcommon/util.hpp
index 63ed9a9..546d80e 100644
--- a/libkcommon/util.hpp
+++ b/libkcommon/util.hpp
@@ -126,7 +126,8 @@ const double cos_dist(const T* lhs, const T* rhs,
     }
     if (ldenom == 0 || rdenom == 0)
         return 1; // A zero vector is similar to nothing
-    return  1 - (numr / ((std::sqrt(ldenom)*std::sqrt(rdenom))));
+    double dist = 1 - (numr / ((std::sqrt(ldenom)*std::sqrt(rdenom))));
+    return dist > 0 ? dist : 0; // Parallel vectors may round below 0
 }
 
 #if 0
-- 
2.43.0


From 29dc93b4b5481ee30b6b463eca52990a2ed62765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 29/73] fix: threads leak NUMA blocks they are given and free
 data they are not

---
 libman/thread.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libman/thread.cpp b/libman/thread.cpp
index a1039de..d9cb0e5 100644
--- a/libman/thread.cpp
+++ b/libman/thread.cpp
@@ -140,6 +140,8 @@ void thread::numa_alloc_mem() {
 }
 
 void thread::set_local_data_ptr(double* data, bool offset) {
+    // Data we take an offset of is the caller's, otherwise the block is ours
+    preallocd_data = offset;
     if (offset)
         local_data = &(data[start_rid*ncol]); // Grab your offset
     else
-- 
2.43.0


From 022dd0e4052fe6427ea633fb4f01efc01a882f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:24 +0000
Subject: [PATCH 30/73] fix: a distributed process without rows divides by zero

---
 libman/coordinator.cpp | 5 +++--
 libman/thread.cpp      | 4 ++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/libman/coordinator.cpp b/libman/coordinator.cpp
index c7b2a36..05718eb 100644
--- a/libman/coordinator.cpp
+++ b/libman/coordinator.cpp
@@ -34,8 +34,9 @@ coordinator::coordinator(const std::string fn,
         const double* centers, const kbase::init_t it,
         const double tolerance, const kbase::dist_t dt) : fn(fn), nrow(nrow),
     ncol(ncol), k(k), max_iters(max_iters), nnodes(nnodes),
-    nthreads(static_cast<unsigned>(std::min(
-                    static_cast<size_t>(nthreads), this->nrow))),
+    // A process of a distributed run may have no rows at all
+    nthreads(static_cast<unsigned>(std::max<size_t>(1, std::min(
+                    static_cast<size_t>(nthreads), this->nrow)))),
     _init_t(it), tolerance(tolerance), _dist_t(dt), num_changed(0),
     pending_threads(0) {
 
diff --git a/libman/thread.cpp b/libman/thread.cpp
index d9cb0e5..47874f3 100644
--- a/libman/thread.cpp
+++ b/libman/thread.cpp
@@ -124,6 +124,10 @@ void thread::close_file_handle() {
 void thread::numa_alloc_mem() {
     kbase::assert_msg(f, "File handle invalid, can only alloc once!");
     size_t blob_size = get_data_size();
+    if (blob_size == 0) { // No rows
+        close_file_handle();
+        return;
+    }
 #ifdef USE_NUMA
     local_data = static_cast<double*>(numa_alloc_onnode(blob_size, node_id));
 #else
-- 
2.43.0


From 4a3f1ebed4152ef623f401038f1d4ab205ab268f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:24 +0000
Subject: [PATCH 31/73] fix: a task queue without rows may claim to have a task

---
 libman/task_queue.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/libman/task_queue.hpp b/libman/task_queue.hpp
index 088988a..fa74eb8 100644
--- a/libman/task_queue.hpp
+++ b/libman/task_queue.hpp
@@ -117,9 +117,7 @@ class task_queue: public data_container<double>, task_queue_interface<double> {
 
         task_queue(double* data, const unsigned start_rid, const unsigned nrow,
                 const unsigned ncol): data_container(data, start_rid, nrow) {
-            if (nrow > 0)
-                _has_task = true;
-
+            _has_task = nrow > 0;
             curr_rid = 0;
             this->ncol = ncol;
         }
@@ -173,8 +171,7 @@ class task_queue: public data_container<double>, task_queue_interface<double> {
 
         void reset() {
             curr_rid = 0;
-            if (get_nrow() > 0)
-                _has_task = true;
+            _has_task = get_nrow() > 0;
         }
 };
 }
-- 
2.43.0


From c56cba2e7df8b2c792b6d9a6598f6a5375a59fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:53 +0000
Subject: [PATCH 32/73] fix: reinit() leaves no cluster assignments to write to

---
 libman/kmeans_task_coordinator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index d06468d..cd3d562 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -303,7 +303,7 @@ double kmeans_task_coordinator::compute_cluster_energy() {
 
 void kmeans_task_coordinator::reinit() {
     std::fill(&dist_v[0], &dist_v[nrow], std::numeric_limits<double>::max());
-    cluster_assignments.clear();
+    clear_cluster_assignments();
     cluster_assignment_counts.assign(k, 0);
     cltrs->clear();
     run_init();
-- 
2.43.0


From f9d8ae00590d70d729318e788ba9abf1cf47e86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:53 +0000
Subject: [PATCH 33/73] fix: mini-batch k-means reports one iteration too few
 and may use an uninitialised batch size

---
 libman/kmeans_task_coordinator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index cd3d562..6cb56d9 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -43,6 +43,7 @@ kmeans_task_coordinator::kmeans_task_coordinator(const std::string fn,
         cltrs = kbase::prune_clusters::create(k, ncol);
 
         inited = false;
+        mb_size = 1; // Until set_mini_batch_size()
         if (centers) {
             if (it == kbase::init_t::NONE) {
                 cltrs->set_mean(centers);
@@ -374,6 +375,7 @@ kbase::cluster_t kmeans_task_coordinator::mb_run(double* allocd_data) {
 
         if (frob_norm < tolerance) {
             converged = true;
+            iter++; // Count the iteration that converged
             break;
         }
     }
-- 
2.43.0


From 3ac67d5a9e89a633c7139b8c29405b05896b654b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:53 +0000
Subject: [PATCH 34/73] fix: clusters lose their finalised state on assignment
 and all but one column of a mean set from an iterator

---
 libkcommon/clusters.cpp | 1 +
 libkcommon/clusters.hpp | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/libkcommon/clusters.cpp b/libkcommon/clusters.cpp
index 5514135..ac800cd 100644
--- a/libkcommon/clusters.cpp
+++ b/libkcommon/clusters.cpp
@@ -97,6 +97,7 @@ clusters& clusters::operator=(clusters& other) {
     this->num_members_v = other.get_num_members_v();
     this->ncol = other.get_ncol();
     this->nclust = other.get_nclust();
+    this->complete_v = other.get_complete_v();
     return *this;
 }
 
diff --git a/libkcommon/clusters.hpp b/libkcommon/clusters.hpp
index cc2abc3..f7f5d53 100644
--- a/libkcommon/clusters.hpp
+++ b/libkcommon/clusters.hpp
@@ -190,7 +190,7 @@ public:
         unsigned nid = 0;
         while(it.has_next()) {
             double e = it.next();
-            means[offset+nid] = e;
+            means[offset+nid++] = e;
         }
     }
 
-- 
2.43.0


From 91cb6b15eedae73886a919fa5da02aa6014c5f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:33 +0000
Subject: [PATCH 35/73] fix: vmap reads past its end when empty and grows by
 entries that are not empty

---
 libkcommon/types.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libkcommon/types.hpp b/libkcommon/types.hpp
index ccb3ce7..259575c 100644
--- a/libkcommon/types.hpp
+++ b/libkcommon/types.hpp
@@ -118,7 +118,7 @@ class vmap {
 
         T& operator[] (const size_t idx) {
             if (idx >= size())
-                data.resize(idx+1); // TODO: Efficiency
+                data.resize(idx+1, emptyval); // TODO: Efficiency
             return data[idx];
         }
 
@@ -130,7 +130,7 @@ class vmap {
 
         T& at (const size_t idx) {
             if (idx >= size())
-                data.resize(idx+1); // TODO: Efficiency
+                data.resize(idx+1, emptyval); // TODO: Efficiency
             return (*this)[idx];
         }
 
@@ -145,7 +145,7 @@ class vmap {
         const bool empty() const { return !static_cast<bool>(size()); }
 
         const bool has_key(const size_t idx) const {
-            if (idx > size()-1)
+            if (idx >= size())
                 return false;
             return (emptyval != data[idx]);
         }
-- 
2.43.0


From e5c501d33c097b703234c6c7a86fb071e4fc5428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:58 +0000
Subject: [PATCH 36/73] fix: the cosine distance between two zero vectors is
 not zero

---
 libkcommon/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libkcommon/util.hpp b/libkcommon/util.hpp
index 546d80e..4077aa8 100644
--- a/libkcommon/util.hpp
+++ b/libkcommon/util.hpp
@@ -124,8 +124,8 @@ const double cos_dist(const T* lhs, const T* rhs,
         ldenom += a*a;
         rdenom += b*b;
     }
-    if (ldenom == 0 || rdenom == 0)
-        return 1; // A zero vector is similar to nothing
+    if (ldenom == 0 || rdenom == 0) // A zero vector is similar only to itself
+        return ldenom == rdenom ? 0 : 1;
     double dist = 1 - (numr / ((std::sqrt(ldenom)*std::sqrt(rdenom))));
     return dist > 0 ? dist : 0; // Parallel vectors may round below 0
 }
-- 
2.43.0


From 3b35e261ee53dfe3d25519cd92f7e57d18581816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:10 +0000
Subject: [PATCH 37/73] fix: mini-batch k-means ignores a batch size below the
 number of threads

---
 libman/kmeans_task_coordinator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index 6cb56d9..50d33d1 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -326,7 +326,7 @@ kbase::cluster_t kmeans_task_coordinator::mb_run(double* allocd_data) {
     ProfilerStart("mb_kmeans_task_coordinator.perf");
 #endif
 
-    if ((double)mb_size / nthreads < 1)
+    if (mb_size < 1)
         mb_size = 1;
 
     // First set the thread mini-batch size
-- 
2.43.0


From 64411b38ce8d3b17d53b67b7cd016835d416e55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:19 +0000
Subject: [PATCH 38/73] fix: pairwise squared Euclidean distances end the
 program

---
 libkcommon/dist_matrix.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libkcommon/dist_matrix.cpp b/libkcommon/dist_matrix.cpp
index e942e74..32575fc 100644
--- a/libkcommon/dist_matrix.cpp
+++ b/libkcommon/dist_matrix.cpp
@@ -150,6 +150,13 @@ void dist_matrix::compute_pairwise_dist(double* data,
                         set(i,j, dist);
                         break;
                     }
+                case (knor::base::dist_t::SQEUCL):
+                    {
+                        double dist = knor::base::dist_comp_raw<double>(
+                                &(data[i*ncol]), &(data[j*ncol]), ncol, metric);
+                        set(i,j, dist);
+                        break;
+                    }
                 default:
                     throw knor::base::parameter_exception(
                             "Unknown distance metric");
-- 
2.43.0


From ed19b6a4bc172299516caea11ef7cd698eb4190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:19 +0000
Subject: [PATCH 39/73] fix: erasing a key beyond the end of a vmap writes out
 of bounds

---
 libkcommon/types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkcommon/types.hpp b/libkcommon/types.hpp
index 259575c..02263c2 100644
--- a/libkcommon/types.hpp
+++ b/libkcommon/types.hpp
@@ -114,7 +114,7 @@ class vmap {
         }
 
         const size_t size() const { return data.size(); }
-        void erase(size_t idx) { data[idx] = emptyval; }
+        void erase(size_t idx) { if (idx < size()) data[idx] = emptyval; }
 
         T& operator[] (const size_t idx) {
             if (idx >= size())
-- 
2.43.0


From 2e87f406dc0310892a08820f6428a528f50022f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:53 +0000
Subject: [PATCH 40/73] fix: the matrix readers write past the buffer and
 accept short or malformed files

---
 libkcommon/io.hpp | 59 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 17 deletions(-)

diff --git a/libkcommon/io.hpp b/libkcommon/io.hpp
index 8d1b3d8..9527d2d 100644
--- a/libkcommon/io.hpp
+++ b/libkcommon/io.hpp
@@ -184,37 +184,56 @@ public:
         std::string line;
         size_t pos = 0;
         while (std::getline(this->f, line)) {
-            T number;
-            std::stringstream ss(line);
-
-            while (ss >> number)
-                data[pos++] = number;
-
-            this->nrow++;
+            if (parse(line, data, pos))
+                this->nrow++;
         }
+
+        if (pos != data.size())
+            throw io_exception("Too few values in '" + this->get_fn() + "'");
     }
 
     void open() override {
         this->f.open(this->get_fn(), std::ios::in);
-        assert(this->f.good());
+        if (!this->f.good())
+            throw io_exception("Cannot open '" + this->get_fn() + "'");
     }
 
     bool readline(std::vector<T>& data) override {
         assert(static_cast<bool>(data.size()));
         std::string line;
         size_t pos = 0;
-        if (std::getline(this->f, line)) {
-            T number;
-            std::stringstream ss(line);
-
-            while (ss >> number)
-                data[pos++] = number;
+        while (std::getline(this->f, line)) {
+            if (!parse(line, data, pos))
+                continue; // Blank
 
+            if (pos != data.size())
+                throw io_exception("Too few values in a line of '" +
+                        this->get_fn() + "'");
             this->nrow++;
             return true;
         }
         return false;
     }
+
+private:
+    // Put the values of `line' at `pos' onwards. Returns false if it has none
+    bool parse(const std::string& line, std::vector<T>& data, size_t& pos) {
+        std::string token;
+        std::stringstream ss(line);
+        const size_t start = pos;
+
+        while (ss >> token) {
+            if (pos == data.size())
+                throw io_exception("Too many values in '" +
+                        this->get_fn() + "'");
+
+            std::stringstream ts(token);
+            if (!(ts >> data[pos++]) || ts.peek() != EOF)
+                throw io_exception("'" + token + "' is not a number in '" +
+                        this->get_fn() + "'");
+        }
+        return pos > start;
+    }
 };
 
 template <typename T>
@@ -230,8 +249,9 @@ public:
 
     void read(std::vector<T>& data) override {
         assert(data.size() > 0);
-        this->f.read(reinterpret_cast<char*>(data.data()),
-                data.size()*sizeof(T));
+        if (!this->f.read(reinterpret_cast<char*>(data.data()),
+                data.size()*sizeof(T)))
+            throw io_exception("Too few values in '" + this->get_fn() + "'");
     }
 
     bool readline(std::vector<T>& data) override {
@@ -241,6 +261,10 @@ public:
                 this->nrow++;
                 return true;
             }
+
+            if (this->f.gcount())
+                throw io_exception("Incomplete row at the end of '" +
+                        this->get_fn() + "'");
         } else {
 #ifndef BIND
             std::cout << "ncol: " << this->ncol << "\n";
@@ -253,7 +277,8 @@ public:
 
     void open() override {
         this->f.open(this->get_fn(), std::ios::in | std::ios::binary);
-        assert(this->f.good());
+        if (!this->f.good())
+            throw io_exception("Cannot open '" + this->get_fn() + "'");
     }
 };
 
-- 
2.43.0


From 3b8fa29fdf392ffd484b8a41bb777071cdcd18bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:42 +0000
Subject: [PATCH 41/73] fix: missing and short data files go unnoticed when
 assertions are off

---
 libkcommon/io.hpp | 47 ++++++++++++++---------------------------------
 libman/thread.cpp |  8 ++------
 libman/thread.hpp |  3 ++-
 3 files changed, 18 insertions(+), 40 deletions(-)

diff --git a/libkcommon/io.hpp b/libkcommon/io.hpp
index 9527d2d..c119f63 100644
--- a/libkcommon/io.hpp
+++ b/libkcommon/io.hpp
@@ -289,6 +289,11 @@ class bin_io {
         FILE* f;
         size_t nrow, ncol;
 
+        void fread_all(T* arr, const size_t numel) {
+            if (fread(arr, sizeof(T), numel, f) != numel)
+                throw io_exception("Too few values in the file");
+        }
+
         void cat(const T* arr) {
 #ifndef BIND
             std::cout << "[ ";
@@ -302,7 +307,8 @@ class bin_io {
     public:
         bin_io(const std::string fn, const std::string mode) {
             f = fopen(fn.c_str(), mode.c_str());
-            assert(NULL != f);
+            if (NULL == f)
+                throw io_exception("Cannot open '" + fn + "'");
         }
 
         bin_io(const std::string fn, const size_t nrow,
@@ -316,11 +322,7 @@ class bin_io {
         void read_cat() {
             T arr [ncol];
             for (size_t i = 0; i < nrow; i++) {
-#ifdef NDEBUG
-                fread(&arr[0], sizeof(T)*ncol, 1, f);
-#else
-                assert(fread(&arr[0], sizeof(T)*ncol, 1, f) == 1);
-#endif
+                fread_all(&arr[0], ncol);
                 cat(arr);
             }
         }
@@ -328,48 +330,27 @@ class bin_io {
         std::vector<T> readline() {
             std::vector<T> v;
             v.resize(ncol);
-#ifdef NDEBUG
-            fread(&v[0], sizeof(T)*ncol, 1, f);
-#else
-            assert(fread(&v[0], sizeof(T)*ncol, 1, f) == 1);
-#endif
+            fread_all(&v[0], ncol);
             return v;
         }
 
         void readline(T* v) {
-#ifdef NDEBUG
-            fread(&v[0], sizeof(T)*ncol, 1, f);
-#else
-            assert(fread(&v[0], sizeof(T)*ncol, 1, f) == 1);
-#endif
+            fread_all(&v[0], ncol);
         }
 
         // Read all the data!
         void read(std::vector<T>* v) {
-#ifdef NDEBUG
-            size_t nbytes = fread(&((*v)[0]), sizeof(T)*ncol*nrow, 1, f);
-            if (nbytes != 1)
-                throw io_exception("nbytes of input incorrect!");
-#else
-            assert(fread(&((*v)[0]), sizeof(T)*ncol*nrow, 1, f) == 1);
-#endif
+            fread_all(&((*v)[0]), ncol*nrow);
         }
 
         // Read all the data!
         void read(T* v) {
-#ifdef NDEBUG
-            fread(&v[0], sizeof(T)*ncol*nrow, 1, f);
-#else
-            assert(fread(&v[0], sizeof(T)*ncol*nrow, 1, f) == 1);
-#endif
+            fread_all(&v[0], ncol*nrow);
         }
 
         void write(const T* data, const size_t numel) {
-#ifdef NDEBUG
-            fwrite(data, sizeof(T)*numel, 1, f);
-#else
-            assert(fwrite(data, sizeof(T)*numel, 1, f) == 1);
-#endif
+            if (fwrite(data, sizeof(T), numel, f) != numel)
+                throw io_exception("Write failed");
         }
 
         void write(const std::vector<T>& data, const size_t numel) {
diff --git a/libman/thread.cpp b/libman/thread.cpp
index 47874f3..60c4e1c 100644
--- a/libman/thread.cpp
+++ b/libman/thread.cpp
@@ -134,12 +134,8 @@ void thread::numa_alloc_mem() {
     local_data = new double [blob_size/sizeof(double)];
 #endif
     fseek(f, start_rid*ncol*sizeof(double), SEEK_SET); // start position
-#ifdef NDEBUG
-    size_t nread = fread(local_data, blob_size, 1, f);
-    nread = nread + 1 - 1; // Silence compiler warning
-#else
-    assert(fread(local_data, blob_size, 1, f) == 1);
-#endif
+    if (fread(local_data, blob_size, 1, f) != 1)
+        throw base::io_exception("Too few values in the data file");
     close_file_handle();
 }
 
diff --git a/libman/thread.hpp b/libman/thread.hpp
index 14529e2..2b8bd10 100644
--- a/libman/thread.hpp
+++ b/libman/thread.hpp
@@ -131,7 +131,8 @@ protected:
 
         if (!fn.empty()) {
             this->f = fopen(fn.c_str(), "rb");
-            assert(this->f);
+            if (!this->f)
+                throw base::io_exception("Cannot open '" + fn + "'");
         }
         else {
             this->f = NULL;
-- 
2.43.0


From 810a14d09af257516cd16d2a7b0cfa1d645f98ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:44 +0000
Subject: [PATCH 42/73] fix: results are not written to the output directory

---
 libkcommon/types.cpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/libkcommon/types.cpp b/libkcommon/types.cpp
index ad2e52e..04b3de0 100644
--- a/libkcommon/types.cpp
+++ b/libkcommon/types.cpp
@@ -17,6 +17,8 @@
  * limitations under the License.
  */
 
+#include <sys/stat.h>
+
 #include <fstream>
 
 #include "types.hpp"
@@ -99,29 +101,30 @@ const void cluster_t::print() const {
 #endif
 }
 
+// Make a directory and those above it that do not exist
+static void make_dirs(const std::string& dirname) {
+    for (size_t pos = 0; pos != std::string::npos;) {
+        pos = dirname.find('/', pos + 1);
+        const std::string dir = dirname.substr(0, pos);
+        mkdir(dir.c_str(), 0777); // One we still miss shows when we write
+    }
+}
+
 /**
   * A simple text readable write
   * \param dirname: the name of the dir to write to
   */
 const void cluster_t::write(const std::string dirname) const {
 
-    std::string fn = "cluster_t.yml";
-    int ret =
-        std::system((std::string("python python/util.py ")
-                    + dirname).c_str());
-    if (ret) {
-#ifndef BIND
-        fprintf(stderr, "Error with mkdir. Code: %d\n", ret);
-#endif
-    } else {
-        fn = dirname + "/" + fn;
-    }
+    make_dirs(dirname);
+    const std::string fn = dirname + "/cluster_t.yml";
 
 #ifndef BIND
     printf("Opening '%s' \n", fn.c_str());
 #endif
     std::ofstream f(fn, std::ios::out);
-    //assert_msg(f.is_open(), "Error opening file for writing!");
+    if (!f.is_open())
+        throw io_exception("Cannot open '" + fn + "'");
     f << "k: " << k << std::endl;
     f << "niter: " << iters << std::endl;
     f << "nsamples: " << nrow << std::endl;
@@ -166,6 +169,8 @@ const void cluster_t::write(const std::string dirname) const {
 
     f << "]\n";
     f.close();
+    if (!f)
+        throw io_exception("Cannot write '" + fn + "'");
 }
 
 bool cluster_t::operator==(const cluster_t& other) {
-- 
2.43.0


From 567b92c09f58375378b4b6f821f3b7002aeab6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:56 +0000
Subject: [PATCH 43/73] fix: the adjoint, and so the inverse, of a matrix
 ignores the signs of its cofactors

---
 libkcommon/linalg.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libkcommon/linalg.hpp b/libkcommon/linalg.hpp
index 031bfd3..46fe102 100644
--- a/libkcommon/linalg.hpp
+++ b/libkcommon/linalg.hpp
@@ -108,6 +108,7 @@ namespace knor { namespace base {
                 for (size_t j=0; j<N; j++) {
                     // Get cofactor of A[i][j]
                     getCofactor(A, &temp[0], i, j, N, N);
+                    sign = ((i+j) % 2 == 0) ? 1 : -1;
 
                     // sign of adj[j][i] positive if sum of row
                     // and column indexes is even.
-- 
2.43.0


From 441dbabd39ff49072325ed26b26ceeef00f2b5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:01 +0000
Subject: [PATCH 44/73] fix: the spherical projection does not scale the rows
 to unit length

---
 libkcommon/util.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libkcommon/util.cpp b/libkcommon/util.cpp
index d0d26ed..d67b4e3 100644
--- a/libkcommon/util.cpp
+++ b/libkcommon/util.cpp
@@ -60,9 +60,11 @@ void spherical_projection(double* data, const size_t nrow,
     for (unsigned row = 0; row < nrow; row++) {
         double norm2 = 0;
         for (unsigned col = 0; col < ncol; col++)
-            norm2 += (data[row]*data[row]);
+            norm2 += (data[row*ncol+col]*data[row*ncol+col]);
+        if (norm2 == 0) // A zero vector has no direction
+            continue;
         for (unsigned col = 0; col < ncol; col++)
-            data[col] = data[col]/std::sqrt(norm2);
+            data[row*ncol+col] = data[row*ncol+col]/std::sqrt(norm2);
     }
 }
 
-- 
2.43.0


From 6a29ceae87436b49eb1d976659057dba0d73ed74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:50 +0000
Subject: [PATCH 45/73] fix: comparisons of vectors leave out the last element
 or ignore the length

---
 libkcommon/util.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libkcommon/util.hpp b/libkcommon/util.hpp
index 4077aa8..e9e5878 100644
--- a/libkcommon/util.hpp
+++ b/libkcommon/util.hpp
@@ -57,7 +57,8 @@ T get_max_hnodes(const T v) {
 // Vector equal function
 template <typename T>
 bool v_eq(const T& lhs, const T& rhs) {
-    return std::equal(lhs.begin(), lhs.end(), rhs.begin());
+    return lhs.size() == rhs.size() &&
+        std::equal(lhs.begin(), lhs.end(), rhs.begin());
 }
 
 template <typename T>
@@ -70,7 +71,7 @@ const bool v_eq_const(const std::vector<T>& v, const T var) {
 
 template <typename T>
 bool eq_all(const T* v1, const T* v2, const unsigned len) {
-    return (std::equal(&v1[0], &(v1[len-1]), &v2[0]));
+    return (std::equal(&v1[0], &(v1[len]), &v2[0]));
 }
 
 template <typename T>
-- 
2.43.0


From 43dec7e8ac0f468fa714597d85fd606ee47ed890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:18 +0000
Subject: [PATCH 46/73] fix: vector helpers write past a result that is too
 short, and powers are not computed into one that exists

---
 libkcommon/linalg.hpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/libkcommon/linalg.hpp b/libkcommon/linalg.hpp
index 46fe102..2698013 100644
--- a/libkcommon/linalg.hpp
+++ b/libkcommon/linalg.hpp
@@ -143,7 +143,7 @@ namespace knor { namespace base {
 
         static void vdiff(const double* left, const double* right,
                 const size_t size, std::vector<double>& res) {
-            if (!res.size()) res.resize(size);
+            if (res.size() < size) res.resize(size);
 
             for (size_t i = 0; i < size; i++)
                 res[i] = left[i] - right[i];
@@ -217,21 +217,16 @@ namespace knor { namespace base {
 
         static void scale(std::vector<double>& v, double factor,
                 std::vector<double>& res) {
-            if (res.size() == 0) {
-                for (auto const& val : v)
-                    res.push_back(val*factor);
-            } else {
-                for (size_t i = 0; i < v.size(); i++)
-                    res[i] = v[i]*factor;
-            }
+            if (res.size() < v.size()) res.resize(v.size());
+            for (size_t i = 0; i < v.size(); i++)
+                res[i] = v[i]*factor;
         }
 
         static void pow(std::vector<double>& v,
                 std::vector<double>& res, double exp) {
-            if (!res.size()) {
-                for (double el : v)
-                    res.push_back(std::pow(el, exp));
-            }
+            if (res.size() < v.size()) res.resize(v.size());
+            for (size_t i = 0; i < v.size(); i++)
+                res[i] = std::pow(v[i], exp);
         }
     };
 } } // End namespace knor::base
-- 
2.43.0


From 02180d3bd618098ae617c0686d61c12038eb7aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:13 +0000
Subject: [PATCH 47/73] fix: subtracting a vector from a matrix that is not
 square ends the program

---
 libkcommon/dense_matrix.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/libkcommon/dense_matrix.hpp b/libkcommon/dense_matrix.hpp
index e905ac8..fb4d09e 100644
--- a/libkcommon/dense_matrix.hpp
+++ b/libkcommon/dense_matrix.hpp
@@ -124,8 +124,6 @@ public:
     }
 
     dense_matrix* operator-(std::vector<T>& v) {
-        assert(nrow == ncol);
-
         dense_matrix* ret = create(this);
         T* retp = ret->as_pointer();
 
-- 
2.43.0


From bc58097f68121128f37870a4571cf71bb8643547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:45 +0000
Subject: [PATCH 48/73] fix: divisive clustering loses data redistributed over
 NUMA nodes

---
 libman/gmeans_coordinator.cpp | 2 --
 libman/gmeans_coordinator.hpp | 5 ++++-
 libman/hclust_coordinator.cpp | 2 --
 libman/hclust_coordinator.hpp | 5 ++++-
 libman/xmeans_coordinator.cpp | 2 --
 libman/xmeans_coordinator.hpp | 5 ++++-
 6 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/libman/gmeans_coordinator.cpp b/libman/gmeans_coordinator.cpp
index a9ba8c4..d4172ed 100644
--- a/libman/gmeans_coordinator.cpp
+++ b/libman/gmeans_coordinator.cpp
@@ -201,8 +201,6 @@ base::cluster_t gmeans_coordinator::run(
     ProfilerStart("gmeans_coordinator.perf");
 #endif
 
-    build_thread_state();
-
     if (!numa_opt && NULL == allocd_data) {
         wake4run(ALLOC_DATA);
         wait4complete();
diff --git a/libman/gmeans_coordinator.hpp b/libman/gmeans_coordinator.hpp
index f8faa4d..de3a1d1 100644
--- a/libman/gmeans_coordinator.hpp
+++ b/libman/gmeans_coordinator.hpp
@@ -57,10 +57,13 @@ class gmeans_coordinator : public xmeans_coordinator {
                     init.c_str(), dist_type.c_str(), fn.c_str(), min_clust_size);
 #endif
 #endif
-            return xmeans_coordinator::ptr(
+            xmeans_coordinator::ptr coord(
                     new gmeans_coordinator(fn, nrow, ncol, k, max_iters,
                     nnodes, nthreads, centers, _init_t, tolerance, _dist_t,
                     min_clust_size, strictness));
+            // Threads must exist before their data can be redistributed
+            coord->build_thread_state();
+            return coord;
         }
 
         void build_thread_state() override;
diff --git a/libman/hclust_coordinator.cpp b/libman/hclust_coordinator.cpp
index 91dcb34..bb3b737 100644
--- a/libman/hclust_coordinator.cpp
+++ b/libman/hclust_coordinator.cpp
@@ -447,8 +447,6 @@ base::cluster_t hclust_coordinator::run(
     ProfilerStart("hclust_coordinator.perf");
 #endif
 
-    build_thread_state();
-
     if (!numa_opt && NULL == allocd_data) {
         wake4run(ALLOC_DATA);
         wait4complete();
diff --git a/libman/hclust_coordinator.hpp b/libman/hclust_coordinator.hpp
index 91f8029..4ddf563 100644
--- a/libman/hclust_coordinator.hpp
+++ b/libman/hclust_coordinator.hpp
@@ -109,10 +109,13 @@ class hclust_coordinator : public coordinator {
                     dist_type.c_str(), fn.c_str());
 #endif
 #endif
-            return coordinator::ptr(
+            coordinator::ptr coord(
                     new hclust_coordinator(fn, nrow, ncol, k, max_iters,
                     nnodes, nthreads, centers, _init_t, tolerance,
                     _dist_t, min_clust_size));
+            // Threads must exist before their data can be redistributed
+            coord->build_thread_state();
+            return coord;
         }
 
         virtual void run_hinit();
diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index 0ac1f03..2395af6 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -257,8 +257,6 @@ base::cluster_t xmeans_coordinator::run(
     ProfilerStart("xmeans_coordinator.perf");
 #endif
 
-    build_thread_state();
-
     if (!numa_opt && NULL == allocd_data) {
         wake4run(ALLOC_DATA);
         wait4complete();
diff --git a/libman/xmeans_coordinator.hpp b/libman/xmeans_coordinator.hpp
index 58cfc69..9e8cca9 100644
--- a/libman/xmeans_coordinator.hpp
+++ b/libman/xmeans_coordinator.hpp
@@ -81,10 +81,13 @@ class xmeans_coordinator : public hclust_coordinator {
                     init.c_str(), dist_type.c_str(), fn.c_str(), min_clust_size);
 #endif
 #endif
-            return hclust_coordinator::ptr(
+            hclust_coordinator::ptr coord(
                     new xmeans_coordinator(fn, nrow, ncol, k, max_iters,
                     nnodes, nthreads, centers, _init_t, tolerance, _dist_t,
                     min_clust_size));
+            // Threads must exist before their data can be redistributed
+            coord->build_thread_state();
+            return coord;
         }
 
         template <typename T>
-- 
2.43.0


From 34d648f5d60c1ebc66aa6f9da377d1531ef59275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:06 +0000
Subject: [PATCH 49/73] fix: fuzzy c-means leaks its matrices when the data
 file cannot be opened

---
 libman/fcm_coordinator.cpp | 13 +++++--------
 libman/fcm_coordinator.hpp |  6 +++---
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/libman/fcm_coordinator.cpp b/libman/fcm_coordinator.cpp
index a2a02cc..ddcd01b 100644
--- a/libman/fcm_coordinator.cpp
+++ b/libman/fcm_coordinator.cpp
@@ -44,9 +44,9 @@ fcm_coordinator::fcm_coordinator(const std::string fn, const size_t nrow,
         omp_set_num_threads(nthreads);
 #endif
 
-        this->centers = base::dense_matrix<double>::create(k, ncol);
-        this->prev_centers = base::dense_matrix<double>::create(k, ncol);
-        this->um = base::dense_matrix<double>::create(k, nrow);
+        this->centers.reset(base::dense_matrix<double>::create(k, ncol));
+        this->prev_centers.reset(base::dense_matrix<double>::create(k, ncol));
+        this->um.reset(base::dense_matrix<double>::create(k, nrow));
 
         if (centers)
             this->centers->set(centers);
@@ -63,7 +63,7 @@ void fcm_coordinator::build_thread_state() {
         threads.push_back(
                 fcm::create((thd_id % nnodes),
                     thd_id, tup.first, tup.second,
-                    ncol, k, fuzzindex, um, centers, fn, _dist_t));
+                    ncol, k, fuzzindex, um.get(), centers.get(), fn, _dist_t));
         threads[thd_id]->set_parent_cond(&cond);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->set_parent_mutex(&mutex);
@@ -72,9 +72,6 @@ void fcm_coordinator::build_thread_state() {
 }
 
 fcm_coordinator::~fcm_coordinator() {
-    delete (centers);
-    delete (prev_centers);
-    delete (um);
 }
 
 void fcm_coordinator::forgy_init() {
@@ -167,7 +164,7 @@ base::cluster_t fcm_coordinator::run(double* allocd_data,
 #endif
 #endif
         // Compute new centers
-        prev_centers->copy_from(centers);
+        prev_centers->copy_from(centers.get());
 
         wake4run(M);
         wait4complete();
diff --git a/libman/fcm_coordinator.hpp b/libman/fcm_coordinator.hpp
index 0336c5d..b78485e 100644
--- a/libman/fcm_coordinator.hpp
+++ b/libman/fcm_coordinator.hpp
@@ -28,9 +28,9 @@ class fcm_coordinator : public coordinator {
     protected:
         // Metadata
         // max index stored within each threads partition
-        base::dense_matrix<double>* centers; // k x ncol
-        base::dense_matrix<double>* prev_centers; // k x ncol
-        base::dense_matrix<double>* um; // nrow x k
+        std::unique_ptr<base::dense_matrix<double> > centers; // k x ncol
+        std::unique_ptr<base::dense_matrix<double> > prev_centers; // k x ncol
+        std::unique_ptr<base::dense_matrix<double> > um; // nrow x k
         unsigned fuzzindex;
 
         fcm_coordinator(const std::string fn, const size_t nrow,
-- 
2.43.0


From 729ac2cd18450e069fe3cbfefc3a77520630522e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:39 +0000
Subject: [PATCH 50/73] fix: assert_msg ignores errors when assertions are off

---
 libkcommon/util.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libkcommon/util.cpp b/libkcommon/util.cpp
index d67b4e3..85382d0 100644
--- a/libkcommon/util.cpp
+++ b/libkcommon/util.cpp
@@ -149,7 +149,8 @@ void assert_msg(bool expr, const std::string msg) {
 #ifndef BIND
         std::cerr << msg << std::endl;
 #endif
-        assert(0);
+        // Callers' mistakes must be caught without assertions too
+        throw parameter_exception(msg);
     }
 }
 } } // End namespace knor::base
-- 
2.43.0


From 87a6223f3754f1c266172c4f5e3bfc1a63180366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:01 +0000
Subject: [PATCH 51/73] fix: zero NUMA nodes and missing centers reach the
 clustering

---
 libman/coordinator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libman/coordinator.cpp b/libman/coordinator.cpp
index 05718eb..1d8dcc8 100644
--- a/libman/coordinator.cpp
+++ b/libman/coordinator.cpp
@@ -41,6 +41,9 @@ coordinator::coordinator(const std::string fn,
     pending_threads(0) {
 
     kbase::assert_msg(k >= 1, "[FATAL]: 'k' must be >= 1");
+    kbase::assert_msg(nnodes >= 1, "[FATAL]: 'nnodes' must be >= 1");
+    kbase::assert_msg(!(it == kbase::init_t::NONE && NULL == centers),
+            "[FATAL]: Initialization 'none' requires centers");
     cluster_assignments.resize(nrow);
     clear_cluster_assignments();
 
-- 
2.43.0


From 4481f5496b0295d43e03f3eae4ac378bdbb1ecc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:16 +0000
Subject: [PATCH 52/73] fix: fuzzy c-means accepts a fuzziness index it is
 undefined for

---
 exec/fcm.cpp               | 2 +-
 libman/fcm_coordinator.cpp | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/exec/fcm.cpp b/exec/fcm.cpp
index f2c3f6d..36d4ba1 100644
--- a/exec/fcm.cpp
+++ b/exec/fcm.cpp
@@ -62,7 +62,7 @@ int main(int argc, char* argv[]) {
             cxxopts::value<unsigned>(nthread))
       ("i,iters", "maximum number of iterations",
             cxxopts::value<unsigned>(max_iters))
-      ("z,fuzzindex", "fuzziness index [1,inf)",
+      ("z,fuzzindex", "fuzziness index [2,inf)",
             cxxopts::value<unsigned>(fuzzindex))
       ("C,centersfn", "Path to centroids on disk",
             cxxopts::value<std::string>(centersfn), "FILE")
diff --git a/libman/fcm_coordinator.cpp b/libman/fcm_coordinator.cpp
index ddcd01b..d84a8f1 100644
--- a/libman/fcm_coordinator.cpp
+++ b/libman/fcm_coordinator.cpp
@@ -40,6 +40,9 @@ fcm_coordinator::fcm_coordinator(const std::string fn, const size_t nrow,
             nnodes, nthreads, centers, it, tolerance, dt),
             fuzzindex(fuzzindex) {
 
+        // Memberships are powers with exponent 1 / (fuzzindex - 1)
+        kbase::assert_msg(fuzzindex > 1, "[FATAL]: 'fuzzindex' must be > 1");
+
 #ifdef _OPENMP
         omp_set_num_threads(nthreads);
 #endif
-- 
2.43.0


From 3f78ec64a1ae7d8a95e9b2b8c74dba2461334a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:31 +0000
Subject: [PATCH 53/73] fix: Gmeans reads out of bounds for a strictness
 without critical value

---
 libman/gmeans_coordinator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libman/gmeans_coordinator.cpp b/libman/gmeans_coordinator.cpp
index d4172ed..98206c1 100644
--- a/libman/gmeans_coordinator.cpp
+++ b/libman/gmeans_coordinator.cpp
@@ -42,6 +42,9 @@ gmeans_coordinator::gmeans_coordinator(const std::string fn,
     xmeans_coordinator(fn, nrow, ncol, k, max_iters, nnodes, nthreads,
             centers, it, tolerance, dt, min_clust_size),
             strictness(strictness) {
+    // The index of a critical value
+    base::assert_msg(strictness >= 0 && strictness <= 4,
+            "[FATAL]: 'strictness' must be in [0, 4]");
 }
 
 void gmeans_coordinator::deactivate(const unsigned id) {
-- 
2.43.0


From be06884a264a80c110da89f9741dcae373e19f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:36 +0000
Subject: [PATCH 54/73] fix: k-medoids refuses to start from given medoids

---
 libman/medoid_coordinator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libman/medoid_coordinator.cpp b/libman/medoid_coordinator.cpp
index 39346e7..c5616e6 100644
--- a/libman/medoid_coordinator.cpp
+++ b/libman/medoid_coordinator.cpp
@@ -180,8 +180,9 @@ void medoid_coordinator::forgy_init() {
 }
 
 void medoid_coordinator::run_init() {
-    if (_init_t == kbase::init_t::FORGY) {
-        forgy_init();
+    if (_init_t == kbase::init_t::FORGY || _init_t == kbase::init_t::NONE) {
+        if (_init_t == kbase::init_t::FORGY)
+            forgy_init();
         // Run one EM step to assign samples to a cluster
         wake4run(EM);
         wait4complete();
-- 
2.43.0


From a97ae369a623c019fb137e45097c838c5224acdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:56 +0000
Subject: [PATCH 55/73] fix: integer options accept letters and values out of
 range

---
 libkcommon/cxxopts/cxxopts.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libkcommon/cxxopts/cxxopts.hpp b/libkcommon/cxxopts/cxxopts.hpp
index 00b82a9..df44627 100644
--- a/libkcommon/cxxopts/cxxopts.hpp
+++ b/libkcommon/cxxopts/cxxopts.hpp
@@ -508,8 +508,12 @@ namespace cxxopts
         {
           digit = *iter - 'A' + 10;
         }
+        else
+        {
+          throw argument_incorrect_type(text);
+        }
 
-        if (umax - digit < result * base)
+        if (digit >= base || result > (umax - digit) / base)
         {
           throw argument_incorrect_type(text);
         }
-- 
2.43.0


From 88c8d4164cc790962099819abf9c73f1b03d0e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:20 +0000
Subject: [PATCH 56/73] fix: programs report success when arguments are missing

---
 exec/fcm.cpp      | 2 +-
 exec/gmeans.cpp   | 2 +-
 exec/gmm.cpp      | 2 +-
 exec/hmeans.cpp   | 2 +-
 exec/kmeanspp.cpp | 2 +-
 exec/knori.cpp    | 2 +-
 exec/mb_knori.cpp | 2 +-
 exec/skmeans.cpp  | 2 +-
 exec/xmeans.cpp   | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/exec/fcm.cpp b/exec/fcm.cpp
index 36d4ba1..b6942a7 100644
--- a/exec/fcm.cpp
+++ b/exec/fcm.cpp
@@ -89,7 +89,7 @@ int main(int argc, char* argv[]) {
     if (nargs < 5) {
         std::cout << "[ERROR]: Not enough default arguments\n";
         std::cout << options.help() << std::endl;
-        exit(EXIT_SUCCESS);
+        exit(EXIT_FAILURE);
     }
 
     kbase::assert_msg(kbase::is_file_exist(datafn.c_str()),
diff --git a/exec/gmeans.cpp b/exec/gmeans.cpp
index fae6731..d196dd6 100644
--- a/exec/gmeans.cpp
+++ b/exec/gmeans.cpp
@@ -92,7 +92,7 @@ int main(int argc, char* argv[]) {
     if (nargs < 5) {
         std::cout << "[ERROR]: Not enough default arguments\n";
         std::cout << options.help() << std::endl;
-        exit(EXIT_SUCCESS);
+        exit(EXIT_FAILURE);
     }
 
     kbase::assert_msg(kbase::is_file_exist(datafn.c_str()),
diff --git a/exec/gmm.cpp b/exec/gmm.cpp
index c715de6..a945d5b 100644
--- a/exec/gmm.cpp
+++ b/exec/gmm.cpp
@@ -90,7 +90,7 @@ int main(int argc, char* argv[]) {
         if (nargs < 5) {
             std::cout << "[ERROR]: Not enough default arguments\n";
             std::cout << options.help() << std::endl;
-            exit(EXIT_SUCCESS);
+            exit(EXIT_FAILURE);
         }
 
         kbase::assert_msg(kbase::is_file_exist(datafn.c_str()),
diff --git a/exec/hmeans.cpp b/exec/hmeans.cpp
index e743eed..da28fd0 100644
--- a/exec/hmeans.cpp
+++ b/exec/hmeans.cpp
@@ -89,7 +89,7 @@ int main(int argc, char* argv[]) {
     if (nargs < 5) {
         std::cout << "[ERROR]: Not enough default arguments\n";
         std::cout << options.help() << std::endl;
-        exit(EXIT_SUCCESS);
+        exit(EXIT_FAILURE);
     }
 
     kbase::assert_msg(kbase::is_file_exist(datafn.c_str()),
diff --git a/exec/kmeanspp.cpp b/exec/kmeanspp.cpp
index f0bf5ce..bc28794 100644
--- a/exec/kmeanspp.cpp
+++ b/exec/kmeanspp.cpp
@@ -87,7 +87,7 @@ int main(int argc, char* argv[]) {
     if (nargs < 4) {
         std::cout << "[ERROR]: Not enough default arguments\n";
         std::cout << options.help() << std::endl;
-        exit(EXIT_SUCCESS);
+        exit(EXIT_FAILURE);
     }
 
     kbase::assert_msg(kbase::is_file_exist(datafn.c_str()),
diff --git a/exec/knori.cpp b/exec/knori.cpp
index 4cc4510..d039ac5 100644
--- a/exec/knori.cpp
+++ b/exec/knori.cpp
@@ -108,7 +108,7 @@ int main(int argc, char* argv[])
     if (nargs < 5) {
         std::cout << "[ERROR]: Not enough default arguments\n";
         std::cout << options.help() << std::endl;
-        exit(EXIT_SUCCESS);
+        exit(EXIT_FAILURE);
     }
 
     kbase::assert_msg(kbase::is_file_exist(datafn.c_str()),
diff --git a/exec/mb_knori.cpp b/exec/mb_knori.cpp
index 2809b07..c88fc90 100644
--- a/exec/mb_knori.cpp
+++ b/exec/mb_knori.cpp
@@ -96,7 +96,7 @@ int main(int argc, char* argv[]) {
         if (nargs < 5) {
             std::cout << "[ERROR]: Not enough default arguments\n";
             std::cout << options.help() << std::endl;
-            exit(EXIT_SUCCESS);
+            exit(EXIT_FAILURE);
         }
 
         kbase::assert_msg(kbase::is_file_exist(datafn.c_str()),
diff --git a/exec/skmeans.cpp b/exec/skmeans.cpp
index 3c80fd6..1ec746d 100644
--- a/exec/skmeans.cpp
+++ b/exec/skmeans.cpp
@@ -86,7 +86,7 @@ int main(int argc, char* argv[]) {
     if (nargs < 5) {
         std::cout << "[ERROR]: Not enough default arguments\n";
         std::cout << options.help() << std::endl;
-        exit(EXIT_SUCCESS);
+        exit(EXIT_FAILURE);
     }
 
     kbase::assert_msg(kbase::is_file_exist(datafn.c_str()),
diff --git a/exec/xmeans.cpp b/exec/xmeans.cpp
index 3daad19..7f2f096 100644
--- a/exec/xmeans.cpp
+++ b/exec/xmeans.cpp
@@ -89,7 +89,7 @@ int main(int argc, char* argv[]) {
     if (nargs < 5) {
         std::cout << "[ERROR]: Not enough default arguments\n";
         std::cout << options.help() << std::endl;
-        exit(EXIT_SUCCESS);
+        exit(EXIT_FAILURE);
     }
 
     kbase::assert_msg(kbase::is_file_exist(datafn.c_str()),
-- 
2.43.0


From 08151080fa9ee4d50fc664dcccfef1e15f4616b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:15 +0000
Subject: [PATCH 57/73] fix: programs accept a number of rows or columns that
 is none

---
 exec/fcm.cpp        |  6 ++++--
 exec/gmeans.cpp     |  6 ++++--
 exec/gmm.cpp        |  6 ++++--
 exec/hmeans.cpp     |  6 ++++--
 exec/kmeanspp.cpp   |  6 ++++--
 exec/knori.cpp      |  6 ++++--
 exec/mb_knori.cpp   |  6 ++++--
 exec/medoids.cpp    |  6 ++++--
 exec/skmeans.cpp    |  6 ++++--
 exec/xmeans.cpp     |  6 ++++--
 libkcommon/util.cpp | 10 ++++++++++
 libkcommon/util.hpp |  4 ++++
 12 files changed, 54 insertions(+), 20 deletions(-)

diff --git a/exec/fcm.cpp b/exec/fcm.cpp
index b6942a7..97b898f 100644
--- a/exec/fcm.cpp
+++ b/exec/fcm.cpp
@@ -94,8 +94,10 @@ int main(int argc, char* argv[]) {
 
     kbase::assert_msg(kbase::is_file_exist(datafn.c_str()),
             "Data file name doesn't exit!");
-    size_t nrow = atol(options["nsamples"].as<std::string>().c_str());
-    size_t ncol = atol(options["dim"].as<std::string>().c_str());
+    size_t nrow = kbase::parse_number(
+            options["nsamples"].as<std::string>(), 1);
+    size_t ncol = kbase::parse_number(
+            options["dim"].as<std::string>(), 1);
     if (options.count("tol"))
         tolerance = std::stod(options["tol"].as<std::string>());
     if (options.count("centersfn")) {
diff --git a/exec/gmeans.cpp b/exec/gmeans.cpp
index d196dd6..a603ed1 100644
--- a/exec/gmeans.cpp
+++ b/exec/gmeans.cpp
@@ -97,8 +97,10 @@ int main(int argc, char* argv[]) {
 
     kbase::assert_msg(kbase::is_file_exist(datafn.c_str()),
             "Data file name doesn't exit!");
-    size_t nrow = atol(options["nsamples"].as<std::string>().c_str());
-    size_t ncol = atol(options["dim"].as<std::string>().c_str());
+    size_t nrow = kbase::parse_number(
+            options["nsamples"].as<std::string>(), 1);
+    size_t ncol = kbase::parse_number(
+            options["dim"].as<std::string>(), 1);
     if (options.count("tol"))
         tolerance = std::stod(options["tol"].as<std::string>());
     if (options.count("centersfn")) {
diff --git a/exec/gmm.cpp b/exec/gmm.cpp
index a945d5b..1e0822f 100644
--- a/exec/gmm.cpp
+++ b/exec/gmm.cpp
@@ -95,8 +95,10 @@ int main(int argc, char* argv[]) {
 
         kbase::assert_msg(kbase::is_file_exist(datafn.c_str()),
                 "Data file name doesn't exit!");
-        size_t nrow = atol(options["nsamples"].as<std::string>().c_str());
-        size_t ncol = atol(options["dim"].as<std::string>().c_str());
+        size_t nrow = kbase::parse_number(
+                options["nsamples"].as<std::string>(), 1);
+        size_t ncol = kbase::parse_number(
+                options["dim"].as<std::string>(), 1);
         if (options.count("tol"))
             tolerance = std::stod(options["tol"].as<std::string>());
         if (options.count("cov_reg"))
diff --git a/exec/hmeans.cpp b/exec/hmeans.cpp
index da28fd0..5b0bae2 100644
--- a/exec/hmeans.cpp
+++ b/exec/hmeans.cpp
@@ -94,8 +94,10 @@ int main(int argc, char* argv[]) {
 
     kbase::assert_msg(kbase::is_file_exist(datafn.c_str()),
             "Data file name doesn't exit!");
-    size_t nrow = atol(options["nsamples"].as<std::string>().c_str());
-    size_t ncol = atol(options["dim"].as<std::string>().c_str());
+    size_t nrow = kbase::parse_number(
+            options["nsamples"].as<std::string>(), 1);
+    size_t ncol = kbase::parse_number(
+            options["dim"].as<std::string>(), 1);
     if (options.count("tol"))
         tolerance = std::stod(options["tol"].as<std::string>());
     if (options.count("centersfn")) {
diff --git a/exec/kmeanspp.cpp b/exec/kmeanspp.cpp
index bc28794..0cd62b2 100644
--- a/exec/kmeanspp.cpp
+++ b/exec/kmeanspp.cpp
@@ -92,8 +92,10 @@ int main(int argc, char* argv[]) {
 
     kbase::assert_msg(kbase::is_file_exist(datafn.c_str()),
             "Data file name doesn't exit!");
-    size_t nrow = atol(options["nsamples"].as<std::string>().c_str());
-    size_t ncol = atol(options["dim"].as<std::string>().c_str());
+    size_t nrow = kbase::parse_number(
+            options["nsamples"].as<std::string>(), 1);
+    size_t ncol = kbase::parse_number(
+            options["dim"].as<std::string>(), 1);
 
     if (outdir.empty())
         fprintf(stderr, "\n\n**[WARNING]**: No output dir specified with '-o' "
diff --git a/exec/knori.cpp b/exec/knori.cpp
index d039ac5..b071849 100644
--- a/exec/knori.cpp
+++ b/exec/knori.cpp
@@ -113,8 +113,10 @@ int main(int argc, char* argv[])
 
     kbase::assert_msg(kbase::is_file_exist(datafn.c_str()),
             "Data file name doesn't exit!");
-    size_t nrow = atol(options["nsamples"].as<std::string>().c_str());
-    size_t ncol = atol(options["dim"].as<std::string>().c_str());
+    size_t nrow = kbase::parse_number(
+            options["nsamples"].as<std::string>(), 1);
+    size_t ncol = kbase::parse_number(
+            options["dim"].as<std::string>(), 1);
     if (options.count("tol"))
         tolerance = std::stod(options["tol"].as<std::string>());
     if (options.count("centersfn")) {
diff --git a/exec/mb_knori.cpp b/exec/mb_knori.cpp
index c88fc90..e1c5fc4 100644
--- a/exec/mb_knori.cpp
+++ b/exec/mb_knori.cpp
@@ -101,8 +101,10 @@ int main(int argc, char* argv[]) {
 
         kbase::assert_msg(kbase::is_file_exist(datafn.c_str()),
                 "Data file name doesn't exit!");
-        size_t nrow = atol(options["nsamples"].as<std::string>().c_str());
-        size_t ncol = atol(options["dim"].as<std::string>().c_str());
+        size_t nrow = kbase::parse_number(
+                options["nsamples"].as<std::string>(), 1);
+        size_t ncol = kbase::parse_number(
+                options["dim"].as<std::string>(), 1);
         if (options.count("tol"))
             tolerance = std::stod(options["tol"].as<std::string>());
         if (options.count("centersfn")) {
diff --git a/exec/medoids.cpp b/exec/medoids.cpp
index f24af3b..988d660 100644
--- a/exec/medoids.cpp
+++ b/exec/medoids.cpp
@@ -91,8 +91,10 @@ int main(int argc, char* argv[]) {
 
     kbase::assert_msg(kbase::is_file_exist(datafn.c_str()),
             "Data file name doesn't exit!");
-    size_t nrow = atol(options["nsamples"].as<std::string>().c_str());
-    size_t ncol = atol(options["dim"].as<std::string>().c_str());
+    size_t nrow = kbase::parse_number(
+            options["nsamples"].as<std::string>(), 1);
+    size_t ncol = kbase::parse_number(
+            options["dim"].as<std::string>(), 1);
     if (options.count("tol"))
         tolerance = std::stod(options["tol"].as<std::string>());
     if (options.count("srate"))
diff --git a/exec/skmeans.cpp b/exec/skmeans.cpp
index 1ec746d..b82bfa8 100644
--- a/exec/skmeans.cpp
+++ b/exec/skmeans.cpp
@@ -91,8 +91,10 @@ int main(int argc, char* argv[]) {
 
     kbase::assert_msg(kbase::is_file_exist(datafn.c_str()),
             "Data file name doesn't exit!");
-    size_t nrow = atol(options["nsamples"].as<std::string>().c_str());
-    size_t ncol = atol(options["dim"].as<std::string>().c_str());
+    size_t nrow = kbase::parse_number(
+            options["nsamples"].as<std::string>(), 1);
+    size_t ncol = kbase::parse_number(
+            options["dim"].as<std::string>(), 1);
     if (options.count("tol"))
         tolerance = std::stod(options["tol"].as<std::string>());
     if (options.count("centersfn")) {
diff --git a/exec/xmeans.cpp b/exec/xmeans.cpp
index 7f2f096..397376d 100644
--- a/exec/xmeans.cpp
+++ b/exec/xmeans.cpp
@@ -94,8 +94,10 @@ int main(int argc, char* argv[]) {
 
     kbase::assert_msg(kbase::is_file_exist(datafn.c_str()),
             "Data file name doesn't exit!");
-    size_t nrow = atol(options["nsamples"].as<std::string>().c_str());
-    size_t ncol = atol(options["dim"].as<std::string>().c_str());
+    size_t nrow = kbase::parse_number(
+            options["nsamples"].as<std::string>(), 1);
+    size_t ncol = kbase::parse_number(
+            options["dim"].as<std::string>(), 1);
     if (options.count("tol"))
         tolerance = std::stod(options["tol"].as<std::string>());
     if (options.count("centersfn")) {
diff --git a/libkcommon/util.cpp b/libkcommon/util.cpp
index 85382d0..fb7e7a3 100644
--- a/libkcommon/util.cpp
+++ b/libkcommon/util.cpp
@@ -153,4 +153,14 @@ void assert_msg(bool expr, const std::string msg) {
         throw parameter_exception(msg);
     }
 }
+
+unsigned long parse_number(const std::string& s,
+        const unsigned long min, const unsigned long max) {
+    if (s.empty() || s.find_first_not_of("0123456789") != std::string::npos)
+        throw parameter_exception("Not a number", s);
+    unsigned long number = std::stoul(s); // Throws when out of range
+    if (number < min || number > max)
+        throw parameter_exception("Number out of range", s);
+    return number;
+}
 } } // End namespace knor::base
diff --git a/libkcommon/util.hpp b/libkcommon/util.hpp
index e9e5878..a413429 100644
--- a/libkcommon/util.hpp
+++ b/libkcommon/util.hpp
@@ -255,6 +255,10 @@ bool is_file_exist(const char *fn);
 size_t filesize(const char* filename);
 
 void assert_msg(bool expr, const std::string msg);
+// The whole of s as a number in [min, max]
+unsigned long parse_number(const std::string& s,
+        const unsigned long min=0,
+        const unsigned long max=std::numeric_limits<unsigned long>::max());
 } } // End namespace knor::base
 
 namespace knor { namespace test {
-- 
2.43.0


From 74c22d7017cd210c9f3bd765e3545e63a12ac256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:21 +0000
Subject: [PATCH 58/73] fix: knord takes options that are no numbers for
 numbers

---
 exec/knord.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/exec/knord.cpp b/exec/knord.cpp
index 127becc..3ebe981 100644
--- a/exec/knord.cpp
+++ b/exec/knord.cpp
@@ -42,9 +42,10 @@ int main(int argc, char* argv[]) {
 
 	int opt;
     std::string datafn = std::string(argv[1]);
-    size_t nrow = atol(argv[2]);
-    size_t ncol = atol(argv[3]);
-    unsigned k = atol(argv[4]);
+    constexpr unsigned umax = std::numeric_limits<unsigned>::max();
+    size_t nrow = kbase::parse_number(argv[2], 1);
+    size_t ncol = kbase::parse_number(argv[3], 1);
+    unsigned k = kbase::parse_number(argv[4], 1, umax);
 
     std::string dist_type = "eucl";
     std::string centersfn = "";
@@ -65,11 +66,11 @@ int main(int argc, char* argv[]) {
 		num_opts++;
 		switch (opt) {
 			case 'l':
-				tolerance = atof(optarg);
+				tolerance = std::stod(optarg);
 				num_opts++;
 				break;
 			case 'i':
-				max_iters = atol(optarg);
+				max_iters = kbase::parse_number(optarg, 0, umax);
 				num_opts++;
 				break;
 			case 't':
@@ -77,7 +78,7 @@ int main(int argc, char* argv[]) {
 				num_opts++;
 				break;
 			case 'T':
-				nthread = atoi(optarg);
+				nthread = kbase::parse_number(optarg, 0, umax);
 				num_opts++;
 				break;
 			case 'd':
@@ -96,7 +97,7 @@ int main(int argc, char* argv[]) {
 				num_opts++;
 				break;
 			case 'N':
-				nnodes = atoi(optarg);
+				nnodes = kbase::parse_number(optarg, 0, umax);
 				num_opts++;
 				break;
 			case 'o':
-- 
2.43.0


From 7954aed306d5d51be5d0a2bedc8e71bb4081e9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:25 +0000
Subject: [PATCH 59/73] fix: knord ignores the centers when -t follows -C

---
 exec/knord.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exec/knord.cpp b/exec/knord.cpp
index 3ebe981..01d51b8 100644
--- a/exec/knord.cpp
+++ b/exec/knord.cpp
@@ -89,7 +89,6 @@ int main(int argc, char* argv[]) {
 				centersfn = std::string(optarg);
                 kbase::assert_msg(kbase::is_file_exist(centersfn.c_str()),
                         "Centers file name doesn't exit!");
-                init = "none"; // Ignore whatever you pass in
 				num_opts++;
 				break;
 			case 'P':
@@ -110,6 +109,9 @@ int main(int argc, char* argv[]) {
 		}
 	}
 
+    if (!centersfn.empty())
+        init = "none"; // Ignore whatever you pass in
+
     kbase::assert_msg(!(init=="none" && centersfn.empty()),
             "Centers file name doesn't exit!");
 
-- 
2.43.0


From be047fa23945732ea1af647fa9b8c30d5b22f41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:40 +0000
Subject: [PATCH 60/73] fix: medoids does not read the centers it is given

---
 exec/medoids.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/exec/medoids.cpp b/exec/medoids.cpp
index 988d660..52f5fff 100644
--- a/exec/medoids.cpp
+++ b/exec/medoids.cpp
@@ -115,7 +115,16 @@ int main(int argc, char* argv[]) {
     if (kbase::filesize(datafn.c_str()) != (sizeof(double)*nrow*ncol))
         throw kbase::io_exception("File size does not match input size.");
 
+    std::vector<double> centers;
     double* p_centers = NULL;
+    if (!centersfn.empty()) {
+        centers.resize(k*ncol);
+        kbase::bin_io<double> br2(centersfn, k, ncol);
+        br2.read(&centers[0]);
+        p_centers = &centers[0];
+        printf("Read centers!\n");
+    }
+
     kbase::cluster_t ret;
 
 #if 0
@@ -140,8 +149,6 @@ int main(int argc, char* argv[]) {
         ret.write(outdir);
     }
 
-    if (p_centers) delete [] p_centers;
-
   } catch (const cxxopts::OptionException& e) {
     std::cout << "error parsing options: " << e.what() << std::endl;
     exit(EXIT_FAILURE);
-- 
2.43.0


From 43530bd3efb9b4d14ee552ba59a5ad32688f4f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:37 +0000
Subject: [PATCH 61/73] fix: mb_knori ignores the size of the mini-batch given
 as its fifth argument

---
 exec/mb_knori.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exec/mb_knori.cpp b/exec/mb_knori.cpp
index e1c5fc4..38cc2fd 100644
--- a/exec/mb_knori.cpp
+++ b/exec/mb_knori.cpp
@@ -84,7 +84,8 @@ int main(int argc, char* argv[]) {
              cxxopts::value<std::string>(outdir))
             ("h,help", "Print help");
 
-        options.parse_positional({"datafn", "nsamples", "dim", "nclust"});
+        options.parse_positional({"datafn", "nsamples", "dim", "nclust",
+                "mb_size"});
         int nargs = argc;
         options.parse(argc, argv);
 
-- 
2.43.0


From f96a9fedeea495079f4b27fc0d613bba110de004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:24 +0000
Subject: [PATCH 62/73] fix: programs do not use the tolerance they document by
 default

---
 exec/knord.cpp    | 2 +-
 exec/knori.cpp    | 2 +-
 exec/mb_knori.cpp | 2 +-
 exec/medoids.cpp  | 2 +-
 exec/skmeans.cpp  | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/exec/knord.cpp b/exec/knord.cpp
index 01d51b8..bb69a58 100644
--- a/exec/knord.cpp
+++ b/exec/knord.cpp
@@ -53,7 +53,7 @@ int main(int argc, char* argv[]) {
 	std::string init = "kmeanspp";
 	unsigned nthread = kbase::get_num_omp_threads();
 	int num_opts = 0;
-	double tolerance = -1;
+	double tolerance = 1E-6;
     bool no_prune = false;
     unsigned nnodes = kbase::get_num_nodes();
     std::string outdir = "";
diff --git a/exec/knori.cpp b/exec/knori.cpp
index b071849..0024392 100644
--- a/exec/knori.cpp
+++ b/exec/knori.cpp
@@ -51,7 +51,7 @@ int main(int argc, char* argv[])
     std::string centersfn = "";
     unsigned max_iters=std::numeric_limits<unsigned>::max();
     std::string init = "kmeanspp";
-    double tolerance = -1;
+    double tolerance = 1E-6;
 
     bool no_prune = false;
     bool omp = false;
diff --git a/exec/mb_knori.cpp b/exec/mb_knori.cpp
index 38cc2fd..3e6446d 100644
--- a/exec/mb_knori.cpp
+++ b/exec/mb_knori.cpp
@@ -41,7 +41,7 @@ int main(int argc, char* argv[]) {
         std::string centersfn = "";
         unsigned max_iters=std::numeric_limits<unsigned>::max();
         std::string init = "kmeanspp";
-        double tolerance = -1;
+        double tolerance = 1E-6;
 
         bool no_prune = false;
         bool omp = false;
diff --git a/exec/medoids.cpp b/exec/medoids.cpp
index 52f5fff..3b14a5c 100644
--- a/exec/medoids.cpp
+++ b/exec/medoids.cpp
@@ -43,7 +43,7 @@ int main(int argc, char* argv[]) {
     std::string centersfn = "";
     unsigned max_iters=std::numeric_limits<unsigned>::max();
     std::string init = "forgy";
-    double tolerance = -1;
+    double tolerance = 1E-6;
     double sample_rate = .2;
 
     unsigned nnodes = kbase::get_num_nodes();
diff --git a/exec/skmeans.cpp b/exec/skmeans.cpp
index b82bfa8..6472bc2 100644
--- a/exec/skmeans.cpp
+++ b/exec/skmeans.cpp
@@ -39,7 +39,7 @@ int main(int argc, char* argv[]) {
     std::string centersfn = "";
     unsigned max_iters=std::numeric_limits<unsigned>::max();
     std::string init = "forgy";
-    double tolerance = -1;
+    double tolerance = 1E-6;
 
     unsigned nnodes = kbase::get_num_nodes();
     std::string outdir = "";
-- 
2.43.0


From 943617d5110192930db17d5f7962a4b66ab28bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:10 +0000
Subject: [PATCH 63/73] fix: g-means compared the statistic of a partition with
 the critical value for the number of partitions

---
 libman/gmeans_coordinator.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libman/gmeans_coordinator.cpp b/libman/gmeans_coordinator.cpp
index 98206c1..f324c9c 100644
--- a/libman/gmeans_coordinator.cpp
+++ b/libman/gmeans_coordinator.cpp
@@ -111,7 +111,6 @@ void gmeans_coordinator::partition_decision() {
     // Each Anderson Darling (AD) vector represents the vector for which
     //  each cluster gets its AD statistic.
     std::unordered_map<unsigned, std::vector<double>> ad_vecs;
-    std::vector<double> critical_values;
 
     // Populate the AD vectors
     assemble_ad_vecs(ad_vecs);
@@ -120,10 +119,6 @@ void gmeans_coordinator::partition_decision() {
         base::linalg::scale(&(kv.second)[0], kv.second.size());
     }
 
-    // Compute Critical values
-    base::AndersonDarling::compute_critical_values(
-            ad_vecs.size(), critical_values);
-
     // Compute AD statistics
     compute_ad_stats(ad_vecs);
 
@@ -139,6 +134,11 @@ void gmeans_coordinator::partition_decision() {
         unsigned pid = keys[i];
         auto score = ad_vecs[pid].back();
 
+        // The critical values depend on the number of rows of the partition
+        std::vector<double> critical_values;
+        base::AndersonDarling::compute_critical_values(
+                ad_vecs[pid].size() - 1, critical_values);
+
         if (score <= critical_values[strictness]) {
             unsigned lid = hcltrs[pid]->get_zeroid();
             unsigned rid = hcltrs[pid]->get_oneid();
-- 
2.43.0


From 75b252608e3ea078ebefe7622c08f09a5c58b8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:10 +0000
Subject: [PATCH 64/73] fix: critical values of fewer than four values were
 negative and always exceeded

---
 libkcommon/AndersonDarling.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libkcommon/AndersonDarling.hpp b/libkcommon/AndersonDarling.hpp
index d9d93b9..bbb64d5 100644
--- a/libkcommon/AndersonDarling.hpp
+++ b/libkcommon/AndersonDarling.hpp
@@ -21,6 +21,7 @@
 #define __KNOR_ANDERSON_DARLING_HPP__
 
 #include <cmath>
+#include <limits>
 #include <algorithm>
 #include <numeric>
 
@@ -37,7 +38,9 @@ public:
 		std::vector<double> _Avals_norm { 0.576, 0.656, 0.787, 0.918, 1.092 };
 		const double divisor = 1.0 + 4.0/N - 25.0/(N*N);
 		for (auto const& i : _Avals_norm) {
-			out.push_back(i / divisor);
+			// With too few values normality can't be rejected
+			out.push_back(divisor > 0 ? i / divisor :
+					std::numeric_limits<double>::infinity());
 		}
 	}
 
-- 
2.43.0


From 7f1fd0e140bf440effde095e8fd68a9f880eaf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:48 +0000
Subject: [PATCH 65/73] fix: the x-means score of a split depended on the unit
 of the data

---
 libman/xmeans_coordinator.cpp | 18 ++++++++----------
 libman/xmeans_coordinator.hpp |  8 ++++----
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index 2395af6..d389b01 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -131,18 +131,16 @@ void xmeans_coordinator::bic(split_score_t& score,
         double p = (cK - 1) + ncol * cK + 1;
 
         /* splitting criterion */
-        double nl = cluster_assignment_counts[score.lid];
-        double L = N * std::log(N) - nl * std::log(N) - N *
-            std::log(2.0 * M_PI) * .5 - N * ncol *
-            std::log(csigma) * .5 - (N - cK) * .5;
+        double L = 0;
+        for (auto const& id : { score.lid, score.rid }) {
+            double n = cluster_assignment_counts[id];
+            if (n > 0)
+                L += n * std::log(n) - n * std::log(N) - n *
+                    std::log(2.0 * M_PI) * .5 - n * ncol *
+                    std::log(csigma) * .5 - (n - cK) * .5;
+        }
 
         score.cscore = L - p * 0.5 * std::log(N);
-
-        double nr = cluster_assignment_counts[score.rid];
-        L = N * std::log(N) - nr * std::log(N) - N *
-            std::log(2.0 * M_PI) * .5- N * ncol *
-            std::log(csigma) * .5 - (N - cK) * .5;
-        score.cscore += L - p * .5 * std::log(N);
     }
 }
 
diff --git a/libman/xmeans_coordinator.hpp b/libman/xmeans_coordinator.hpp
index 9e8cca9..316ddc3 100644
--- a/libman/xmeans_coordinator.hpp
+++ b/libman/xmeans_coordinator.hpp
@@ -37,13 +37,13 @@ struct split_score_t {
 
     split_score_t(const unsigned pid, const unsigned lid, const unsigned rid) :
         pid(pid), lid(lid), rid(rid),
-        pscore(std::numeric_limits<double>::min()),
-        cscore(std::numeric_limits<double>::min()) {
+        pscore(std::numeric_limits<double>::lowest()),
+        cscore(std::numeric_limits<double>::lowest()) {
         }
 
     split_score_t() :
-        pscore(std::numeric_limits<double>::min()),
-        cscore(std::numeric_limits<double>::min()) {
+        pscore(std::numeric_limits<double>::lowest()),
+        cscore(std::numeric_limits<double>::lowest()) {
         }
 };
 
-- 
2.43.0


From f9b22017649a639f5bc4e701286b2f4789251d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:16 +0000
Subject: [PATCH 66/73] fix: the x-means score took Euclidean distances for
 squared ones

---
 libman/xmeans_coordinator.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index d389b01..b2b0f5b 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -102,14 +102,19 @@ void xmeans_coordinator::bic(split_score_t& score,
     double psigma = 0;
     double csigma = 0;
 
+    // The variance is that of squared distances
+    auto sq = [this](const double dist) {
+        return _dist_t == base::dist_t::EUCL ? dist * dist : dist;
+    };
+
     for (auto const& idx : memb_cltrs[score.lid]) {
-            psigma += partition_dist[idx];
-            csigma += nearest_cdist[idx];
+            psigma += sq(partition_dist[idx]);
+            csigma += sq(nearest_cdist[idx]);
     }
 
     for (auto const& idx : memb_cltrs[score.rid]) {
-            psigma += partition_dist[idx];
-            csigma += nearest_cdist[idx];
+            psigma += sq(partition_dist[idx]);
+            csigma += sq(nearest_cdist[idx]);
     }
 
     // Parent
-- 
2.43.0


From 2b6fae94a6ba5e54ff1e2d2a56fd7e37e668539f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:32 +0000
Subject: [PATCH 67/73] fix: a thread that could not be created was joined

When pthread_create fails start() throws, and destroying the coordinator
joined every thread, also those that had not been created.
---
 libman/fcm.cpp                | 1 +
 libman/gmeans.cpp             | 1 +
 libman/gmm.cpp                | 1 +
 libman/hclust.cpp             | 1 +
 libman/kmeans_task_thread.cpp | 1 +
 libman/kmeans_thread.cpp      | 1 +
 libman/medoid.cpp             | 1 +
 libman/thread.cpp             | 4 ++--
 libman/thread.hpp             | 3 ++-
 libman/xmeans.cpp             | 1 +
 10 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/libman/fcm.cpp b/libman/fcm.cpp
index 7233611..d4ca3f0 100644
--- a/libman/fcm.cpp
+++ b/libman/fcm.cpp
@@ -112,6 +112,7 @@ void fcm::start(const thread_state_t state=WAIT) {
     if (rc)
         throw kbase::thread_exception(
                 "Thread creation (pthread_create) failed!", rc);
+    started = true;
 }
 
 fcm::~fcm() {
diff --git a/libman/gmeans.cpp b/libman/gmeans.cpp
index 628bdd7..9098700 100644
--- a/libman/gmeans.cpp
+++ b/libman/gmeans.cpp
@@ -35,6 +35,7 @@ void gmeans::start(const thread_state_t state=WAIT) {
     if (rc)
         throw base::thread_exception(
                 "Thread creation (pthread_create) failed!", rc);
+    started = true;
 }
 
 void gmeans::H_split_step() {
diff --git a/libman/gmm.cpp b/libman/gmm.cpp
index d0755a0..43601a5 100644
--- a/libman/gmm.cpp
+++ b/libman/gmm.cpp
@@ -131,5 +131,6 @@ void gmm::start(const thread_state_t state=WAIT) {
     if (rc)
         throw kbase::thread_exception(
                 "Thread creation (pthread_create) failed!", rc);
+    started = true;
 }
 } // End namespace knor
diff --git a/libman/hclust.cpp b/libman/hclust.cpp
index a3a9550..92f3f60 100644
--- a/libman/hclust.cpp
+++ b/libman/hclust.cpp
@@ -76,6 +76,7 @@ void hclust::start(const thread_state_t state=WAIT) {
     if (rc)
         throw base::thread_exception(
                 "Thread creation (pthread_create) failed!", rc);
+    started = true;
 }
 
 void hclust::H_EM_step() {
diff --git a/libman/kmeans_task_thread.cpp b/libman/kmeans_task_thread.cpp
index a1fc85a..8b635d4 100644
--- a/libman/kmeans_task_thread.cpp
+++ b/libman/kmeans_task_thread.cpp
@@ -142,6 +142,7 @@ void kmeans_task_thread::start(const thread_state_t state=WAIT) {
     if (rc)
         throw kbase::thread_exception(
                 "Thread creation (pthread_create) failed!", rc);
+    started = true;
 }
 
 void kmeans_task_thread::mb_finalize_centroids(const double* eta) {
diff --git a/libman/kmeans_thread.cpp b/libman/kmeans_thread.cpp
index 0786f74..ef8ce27 100644
--- a/libman/kmeans_thread.cpp
+++ b/libman/kmeans_thread.cpp
@@ -70,6 +70,7 @@ void kmeans_thread::start(const thread_state_t state=WAIT) {
     if (rc)
         throw kbase::thread_exception(
                 "Thread creation (pthread_create) failed!", rc);
+    started = true;
 }
 
 void kmeans_thread::EM_step() {
diff --git a/libman/medoid.cpp b/libman/medoid.cpp
index abc3ca6..03d552f 100644
--- a/libman/medoid.cpp
+++ b/libman/medoid.cpp
@@ -77,6 +77,7 @@ void medoid::start(const thread_state_t state=WAIT) {
     if (rc)
         throw kbase::thread_exception(
                 "Thread creation (pthread_create) failed!", rc);
+    started = true;
 }
 
 void medoid::EM_step() {
diff --git a/libman/thread.cpp b/libman/thread.cpp
index 60c4e1c..483d92c 100644
--- a/libman/thread.cpp
+++ b/libman/thread.cpp
@@ -95,8 +95,8 @@ void thread::destroy_numa_mem() {
 }
 
 void thread::join() {
-    if (thd_id == INVALID_THD_ID)
-        return; // Already joined
+    if (!started || thd_id == INVALID_THD_ID)
+        return; // Never created or already joined
 
     void* join_status;
     int rc = pthread_join(hw_thd, &join_status);
diff --git a/libman/thread.hpp b/libman/thread.hpp
index 2b8bd10..247be4a 100644
--- a/libman/thread.hpp
+++ b/libman/thread.hpp
@@ -111,6 +111,7 @@ protected:
     double* dist_v;
     double cuml_dist;
     bool preallocd_data; // Is our data pre-allocated?
+    bool started; // Is there a thread to join?
 
     friend void* callback(void* arg);
 
@@ -121,7 +122,7 @@ protected:
             kbase::dist_t dist_metric=kbase::dist_t::EUCL) :
         node_id(node_id), thd_id(thd_id), ncol(ncol),
         start_rid(start_rid), local_data(NULL), local_clusters(nullptr), dist_metric(dist_metric),
-        parent_mutex(NULL), preallocd_data(false) {
+        parent_mutex(NULL), preallocd_data(false), started(false) {
 
         this->cluster_assignments = cluster_assignments;
         pthread_mutexattr_init(&mutex_attr);
diff --git a/libman/xmeans.cpp b/libman/xmeans.cpp
index 3dd7240..1cdc29b 100644
--- a/libman/xmeans.cpp
+++ b/libman/xmeans.cpp
@@ -54,6 +54,7 @@ void xmeans::start(const thread_state_t state=WAIT) {
     if (rc)
         throw base::thread_exception(
                 "Thread creation (pthread_create) failed!", rc);
+    started = true;
 }
 
 void xmeans::partition_mean() {
-- 
2.43.0


From cd53ad4ca966e1fd6ec474837710624dc514e412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:42 +0000
Subject: [PATCH 68/73] fix: failures of fseek and of NUMA allocations went
 unnoticed

A thread that could not move to its rows clustered the first rows of the
file, and one without memory read into a null pointer.
---
 binding/numa_reorg.hpp | 5 +++--
 libman/thread.cpp      | 7 ++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/binding/numa_reorg.hpp b/binding/numa_reorg.hpp
index 790570e..a50041d 100644
--- a/binding/numa_reorg.hpp
+++ b/binding/numa_reorg.hpp
@@ -26,7 +26,7 @@
 #include <vector>
 #include <memory>
 #include <iostream>
-#include <cassert>
+#include <new>
 
 #include "thread.hpp"
 
@@ -88,7 +88,8 @@ public:
 #endif
 
             T* numa_allocd_data = static_cast<T*>(numa_alloc_onnode(nbytes, node_id));
-            assert(numa_allocd_data);
+            if (!numa_allocd_data)
+                throw std::bad_alloc();
             std::copy(&mallocd_data[offset], &mallocd_data[offset+(nbytes/sizeof(T))],
                 numa_allocd_data); // TODO: Limit mem
             threads[tid]->set_local_data_ptr(numa_allocd_data, false);
diff --git a/libman/thread.cpp b/libman/thread.cpp
index 483d92c..7f40f0c 100644
--- a/libman/thread.cpp
+++ b/libman/thread.cpp
@@ -21,6 +21,8 @@
 #include <numa.h>
 #endif
 
+#include <new>
+
 #include "thread.hpp"
 #include "exception.hpp"
 #include "util.hpp"
@@ -133,7 +135,10 @@ void thread::numa_alloc_mem() {
 #else
     local_data = new double [blob_size/sizeof(double)];
 #endif
-    fseek(f, start_rid*ncol*sizeof(double), SEEK_SET); // start position
+    if (!local_data)
+        throw std::bad_alloc();
+    if (fseek(f, start_rid*ncol*sizeof(double), SEEK_SET) != 0) // start position
+        throw base::io_exception("Cannot position in the data file");
     if (fread(local_data, blob_size, 1, f) != 1)
         throw base::io_exception("Too few values in the data file");
     close_file_handle();
-- 
2.43.0


From 0cdee9ae7b3239fd8a6982b18983bf76e1d30053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:23 +0000
Subject: [PATCH 69/73] fix: a thread given no task for lack of memory kept a
 deleted one and its lock

---
 libman/kmeans_task_thread.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libman/kmeans_task_thread.cpp b/libman/kmeans_task_thread.cpp
index 8b635d4..8f41771 100644
--- a/libman/kmeans_task_thread.cpp
+++ b/libman/kmeans_task_thread.cpp
@@ -113,7 +113,13 @@ void kmeans_task_thread::wake(thread_state_t state) {
         // Threads only sleep if they AND all other threads have no tasks
         tasks->reset(); // NOTE: Only place this is reset
         delete curr_task; // The last one of the previous round
-        curr_task = tasks->get_task();
+        curr_task = NULL;
+        try {
+            curr_task = tasks->get_task();
+        } catch (...) { // The parent wakes us again, to exit
+            pthread_mutex_unlock(&mutex);
+            throw;
+        }
         assert(curr_task->get_nrow() <= tasks->get_nrow());
 
         // NOTE: These are exceptions to the rule & therefore not good
-- 
2.43.0


From 8214fc49701f2be26d119b9932937fe64202bbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:42 +0000
Subject: [PATCH 70/73] fix: starts drawn from no rows at all were read past
 the threads

---
 libman/coordinator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libman/coordinator.cpp b/libman/coordinator.cpp
index 1d8dcc8..b747712 100644
--- a/libman/coordinator.cpp
+++ b/libman/coordinator.cpp
@@ -97,6 +97,9 @@ void coordinator::destroy_threads() {
 
 // <Thread, within-thread-row-id>
 const double* coordinator::get_thd_data(const unsigned row_id) const {
+    if (row_id >= nrow)
+        throw kbase::oob_exception("coordinator::get_thd_data");
+
     // TODO: Cheapen
     unsigned parent_thd = std::upper_bound(thd_max_row_idx.begin(),
             thd_max_row_idx.end(), row_id) - thd_max_row_idx.begin();
-- 
2.43.0


From 65466b1c3e6dc091d25f90daedd1fe1eb89a7fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:42 +0000
Subject: [PATCH 71/73] fix: a row without a distance to any cluster was
 written out of bounds

Rows whose distances are all infinite or not a number belong to no cluster.
With assertions compiled out they were counted and added past the arrays.
---
 libauto/kmeans.cpp            |  2 +-
 libauto/min-tri-kmeans.cpp    |  3 +--
 libkcommon/util.hpp           | 10 ++++++++++
 libman/hclust.cpp             |  2 +-
 libman/kmeans_task_thread.cpp |  6 ++++--
 libman/kmeans_thread.cpp      |  2 +-
 libman/medoid.cpp             |  2 +-
 libman/xmeans.cpp             |  2 +-
 8 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/libauto/kmeans.cpp b/libauto/kmeans.cpp
index 0759ecf..2329700 100644
--- a/libauto/kmeans.cpp
+++ b/libauto/kmeans.cpp
@@ -223,7 +223,7 @@ static void EM_step(const double* matrix, kbase::clusters::ptr cls,
             }
         }
 
-        assert(asgnd_clust != kbase::INVALID_CLUSTER_ID);
+        kbase::check_assigned(asgnd_clust);
 
         if (asgnd_clust != cluster_assignments[row]) {
 #ifdef _OPENMP
diff --git a/libauto/min-tri-kmeans.cpp b/libauto/min-tri-kmeans.cpp
index 0876f9f..8187935 100644
--- a/libauto/min-tri-kmeans.cpp
+++ b/libauto/min-tri-kmeans.cpp
@@ -291,8 +291,7 @@ static void EM_step(const double* matrix, kbase::prune_clusters::ptr cls,
             }
         }
 
-        assert(cluster_assignments[row] >= 0 &&
-                cluster_assignments[row] < K);
+        kbase::check_assigned(cluster_assignments[row]);
 
         if (prune_init) {
 #ifdef _OPENMP
diff --git a/libkcommon/util.hpp b/libkcommon/util.hpp
index a413429..cfd5527 100644
--- a/libkcommon/util.hpp
+++ b/libkcommon/util.hpp
@@ -245,6 +245,16 @@ void reset(std::unordered_map<K, unsigned> map) {
 }
 
 float time_diff(struct timeval time1, struct timeval time2);
+
+/**
+  * A row that holds values like NaN has no distance to any cluster and cannot
+  *   be assigned.
+  */
+inline void check_assigned(const unsigned cluster_id) {
+    if (cluster_id == INVALID_CLUSTER_ID)
+        throw parameter_exception("A row has no distance to any cluster");
+}
+
 int get_num_omp_threads();
 unsigned get_num_nodes();
 
diff --git a/libman/hclust.cpp b/libman/hclust.cpp
index 92f3f60..5cde2f8 100644
--- a/libman/hclust.cpp
+++ b/libman/hclust.cpp
@@ -124,7 +124,7 @@ void hclust::H_EM_step() {
             }
         }
 
-        assert(asgnd_clust != base::INVALID_CLUSTER_ID);
+        base::check_assigned(asgnd_clust);
 
         if (asgnd_clust != cluster_assignments[true_row_id])
             nchanged[rpart_id]++;
diff --git a/libman/kmeans_task_thread.cpp b/libman/kmeans_task_thread.cpp
index 8f41771..209aad4 100644
--- a/libman/kmeans_task_thread.cpp
+++ b/libman/kmeans_task_thread.cpp
@@ -23,6 +23,7 @@
 #include "clusters.hpp"
 #include "thd_safe_bool_vector.hpp"
 #include "dist_matrix.hpp"
+#include "util.hpp"
 
 namespace knor { namespace prune {
 
@@ -186,6 +187,8 @@ void kmeans_task_thread::mb_EM_step() {
                 cluster_assignments[true_row_id] = clust_idx;
             }
         }
+
+        kbase::check_assigned(cluster_assignments[true_row_id]);
     }
 }
 
@@ -261,8 +264,7 @@ void kmeans_task_thread::EM_step() {
             }
         }
 
-        assert(cluster_assignments[true_row_id] >= 0 &&
-                cluster_assignments[true_row_id] < g_clusters->get_nclust());
+        kbase::check_assigned(cluster_assignments[true_row_id]);
 
         if (prune_init) {
             meta.num_changed++;
diff --git a/libman/kmeans_thread.cpp b/libman/kmeans_thread.cpp
index ef8ce27..364d84e 100644
--- a/libman/kmeans_thread.cpp
+++ b/libman/kmeans_thread.cpp
@@ -94,7 +94,7 @@ void kmeans_thread::EM_step() {
             }
         }
 
-        assert(asgnd_clust != kbase::INVALID_CLUSTER_ID);
+        kbase::check_assigned(asgnd_clust);
         unsigned true_row_id = get_global_data_id(row);
 
         if (asgnd_clust != cluster_assignments[true_row_id])
diff --git a/libman/medoid.cpp b/libman/medoid.cpp
index 03d552f..2663405 100644
--- a/libman/medoid.cpp
+++ b/libman/medoid.cpp
@@ -105,7 +105,7 @@ void medoid::EM_step() {
             }
         }
 
-        assert(asgnd_clust != kbase::INVALID_CLUSTER_ID);
+        kbase::check_assigned(asgnd_clust);
 
         if (asgnd_clust != cluster_assignments[true_rid])
             meta.num_changed++;
diff --git a/libman/xmeans.cpp b/libman/xmeans.cpp
index 1cdc29b..2758fed 100644
--- a/libman/xmeans.cpp
+++ b/libman/xmeans.cpp
@@ -129,7 +129,7 @@ void xmeans::H_EM_step() {
         }
 
         nearest_cdist[true_row_id] = best; // Update the best dist
-        assert(asgnd_clust != base::INVALID_CLUSTER_ID);
+        base::check_assigned(asgnd_clust);
 
         if (asgnd_clust != cluster_assignments[true_row_id])
             nchanged[rpart_id]++;
-- 
2.43.0


From f3d82b7b0f74d65358bb187408a78898556ba3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:08 +0000
Subject: [PATCH 72/73] fix: a thread with more than 2^32 values was given
 tasks with the wrong data

---
 libman/task_queue.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libman/task_queue.hpp b/libman/task_queue.hpp
index fa74eb8..468c695 100644
--- a/libman/task_queue.hpp
+++ b/libman/task_queue.hpp
@@ -138,7 +138,8 @@ class task_queue: public data_container<double>, task_queue_interface<double> {
 
             // TODO: Make better for when there are only
             //  a few left rows if we give away a task
-            task* t = new task(&(get_data_ptr()[curr_rid*ncol]),
+            const size_t offset = static_cast<size_t>(curr_rid)*ncol;
+            task* t = new task(&(get_data_ptr()[offset]),
                 get_start_rid()+curr_rid);
             if ((curr_rid + MIN_TASK_ROWS) < (get_nrow()-1)) {
                 t->set_nrow(MIN_TASK_ROWS);
-- 
2.43.0


From 2626408faf4dc2e0b405bd747f667ef8d16abab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:26 +0000
Subject: [PATCH 73/73] fix: OpenMP runs at the same time shared their
 parameters and counters

---
 libauto/kmeans.cpp         | 62 +++++++++++++++++++++++---------------
 libauto/min-tri-kmeans.cpp | 62 ++++++++++++++++++++++++--------------
 2 files changed, 77 insertions(+), 47 deletions(-)

diff --git a/libauto/kmeans.cpp b/libauto/kmeans.cpp
index 2329700..03f13f7 100644
--- a/libauto/kmeans.cpp
+++ b/libauto/kmeans.cpp
@@ -40,14 +40,14 @@ namespace kbase = knor::base;
 
 namespace {
 
-static size_t NUM_COLS;
-static size_t K;
-static size_t NUM_ROWS;
-short OMP_MAX_THREADS = 1;
-static size_t g_num_changed = 0;
-static struct timeval start, end;
-static kbase::init_t g_init_type;
-static kbase::dist_t g_dist_type;
+// The parameters of a run. They are not global so that runs can be concurrent
+struct run_params {
+    size_t ncol;
+    size_t k;
+    size_t nrow;
+    short max_threads;
+    kbase::dist_t dist_type;
+};
 
 /**
  * \brief This initializes clusters by randomly choosing sample
@@ -118,7 +118,12 @@ void forgy_init(const double* matrix,
  *  See: http://ilpubs.stanford.edu:8090/778/1/2006-13.pdf for algorithm
  */
 static void kmeanspp_init(const double* matrix, kbase::clusters::ptr clusters,
-        unsigned* cluster_assignments, std::vector<double>& dist_v) {
+        unsigned* cluster_assignments, std::vector<double>& dist_v,
+        const run_params& params) {
+    const size_t NUM_COLS = params.ncol;
+    const size_t K = params.k;
+    const size_t NUM_ROWS = params.nrow;
+    const kbase::dist_t g_dist_type = params.dist_type;
 
     std::default_random_engine generator;
     std::uniform_int_distribution<size_t> distribution(0, NUM_ROWS-1);
@@ -194,7 +199,13 @@ static void kmeanspp_init(const double* matrix, kbase::clusters::ptr clusters,
  *	\param cluster_assignments Which cluster each sample falls into.
  */
 static void EM_step(const double* matrix, kbase::clusters::ptr cls,
-        unsigned* cluster_assignments, knor::llong_t* cluster_assignment_counts) {
+        unsigned* cluster_assignments, knor::llong_t* cluster_assignment_counts,
+        const run_params& params, size_t& g_num_changed) {
+    const size_t NUM_COLS = params.ncol;
+    const size_t K = params.k;
+    const size_t NUM_ROWS = params.nrow;
+    const kbase::dist_t g_dist_type = params.dist_type;
+    const short OMP_MAX_THREADS = params.max_threads;
 
     std::vector<kbase::clusters::ptr> pt_cl(OMP_MAX_THREADS);
     // Per thread changed cluster count. OMP_MAX_THREADS
@@ -285,9 +296,15 @@ kbase::cluster_t compute_kmeans(const double* matrix, double* clusters_ptr,
 #ifdef PROFILER
     ProfilerStart("matrix/kmeans.perf");
 #endif
-    NUM_COLS = num_cols;
-    K = k;
-    NUM_ROWS = num_rows;
+    const size_t NUM_COLS = num_cols;
+    const size_t K = k;
+    const size_t NUM_ROWS = num_rows;
+    size_t g_num_changed = 0;
+    struct timeval start, end;
+    run_params params;
+    params.ncol = NUM_COLS;
+    params.k = K;
+    params.nrow = NUM_ROWS;
 #ifdef _OPENMP
     if (!max_threads)
         max_threads = 1;
@@ -295,7 +312,9 @@ kbase::cluster_t compute_kmeans(const double* matrix, double* clusters_ptr,
     max_threads = 1;
 #endif
 
-    OMP_MAX_THREADS = std::min(max_threads, kbase::get_num_omp_threads());
+    const short OMP_MAX_THREADS =
+        std::min(max_threads, kbase::get_num_omp_threads());
+    params.max_threads = OMP_MAX_THREADS;
 #ifdef _OPENMP
     omp_set_num_threads(OMP_MAX_THREADS);
 #endif
@@ -328,9 +347,9 @@ kbase::cluster_t compute_kmeans(const double* matrix, double* clusters_ptr,
     printf("Dist_type is %s\n", dist_type.c_str());
 #endif
     if (dist_type == "eucl") {
-        g_dist_type = kbase::dist_t::EUCL;
+        params.dist_type = kbase::dist_t::EUCL;
     } else if (dist_type == "cos") {
-        g_dist_type = kbase::dist_t::COS;
+        params.dist_type = kbase::dist_t::COS;
     } else {
         throw kbase::parameter_exception("param `dist_type` must be one of: "
                 "'eucl', 'cos'.", dist_type);
@@ -339,17 +358,12 @@ kbase::cluster_t compute_kmeans(const double* matrix, double* clusters_ptr,
     if (init == "random") {
         random_partition_init(cluster_assignments, matrix,
                 clusters, NUM_ROWS, NUM_COLS, K);
-        g_init_type = kbase::init_t::RANDOM;
         clusters->finalize_all();
     } else if (init == "forgy") {
         forgy_init(matrix, clusters, NUM_ROWS, NUM_COLS, K);
-        g_init_type = kbase::init_t::FORGY;
     } else if (init == "kmeanspp") {
-        kmeanspp_init(matrix, clusters, cluster_assignments, dist_v);
-        g_init_type = kbase::init_t::PLUSPLUS;
-    } else if (init == "none") {
-        g_init_type = kbase::init_t::NONE;
-    } else {
+        kmeanspp_init(matrix, clusters, cluster_assignments, dist_v, params);
+    } else if (init != "none") {
         throw kbase::parameter_exception("param `init` must be one of: "
             "'random', 'forgy', 'kmeanspp'", init);
     }
@@ -409,7 +423,7 @@ kbase::cluster_t compute_kmeans(const double* matrix, double* clusters_ptr,
             ". Computing cluster assignments ...\n", iter);
 #endif
         EM_step(matrix, clusters, cluster_assignments,
-                cluster_assignment_counts);
+                cluster_assignment_counts, params, g_num_changed);
 #if KM_TEST
 #ifndef BIND
         printf("Cluster assignment counts: \n");
diff --git a/libauto/min-tri-kmeans.cpp b/libauto/min-tri-kmeans.cpp
index 8187935..faa642d 100644
--- a/libauto/min-tri-kmeans.cpp
+++ b/libauto/min-tri-kmeans.cpp
@@ -42,14 +42,14 @@ namespace kbase = knor::base;
 
 namespace {
 
-static size_t NUM_COLS;
-static size_t K;
-static size_t NUM_ROWS;
-short OMP_MAX_THREADS = 1;
-static size_t g_num_changed = 0;
-static struct timeval start, end;
-static kbase::init_t g_init_type;
-static kbase::dist_t g_dist_type;
+// The parameters of a run. They are not global so that runs can be concurrent
+struct run_params {
+    size_t ncol;
+    size_t k;
+    size_t nrow;
+    short max_threads;
+    kbase::dist_t dist_type;
+};
 
 /**
  * \brief This initializes clusters by randomly choosing sample
@@ -134,7 +134,12 @@ std::string s (const double d) {
  */
 static void kmeanspp_init(const double* matrix,
         kbase::prune_clusters::ptr clusters,
-        unsigned* cluster_assignments) {
+        unsigned* cluster_assignments,
+        const run_params& params) {
+    const size_t NUM_COLS = params.ncol;
+    const size_t K = params.k;
+    const size_t NUM_ROWS = params.nrow;
+    const kbase::dist_t g_dist_type = params.dist_type;
 
     std::default_random_engine generator;
     std::uniform_int_distribution<size_t> distribution(0, NUM_ROWS-1);
@@ -216,7 +221,13 @@ static void EM_step(const double* matrix, kbase::prune_clusters::ptr cls,
         unsigned* cluster_assignments, knor::llong_t* cluster_assignment_counts,
         kbase::thd_safe_bool_vector::ptr recalculated_v,
         std::vector<double>& dist_v,
-        kprune::dist_matrix::ptr dm, const bool prune_init=false) {
+        kprune::dist_matrix::ptr dm, const run_params& params,
+        size_t& g_num_changed, const bool prune_init=false) {
+    const size_t NUM_COLS = params.ncol;
+    const size_t K = params.k;
+    const size_t NUM_ROWS = params.nrow;
+    const kbase::dist_t g_dist_type = params.dist_type;
+    const short OMP_MAX_THREADS = params.max_threads;
 
     std::vector<kbase::clusters::ptr> pt_cl(OMP_MAX_THREADS);
     // Per thread changed cluster count. OMP_MAX_THREADS
@@ -393,9 +404,15 @@ kbase::cluster_t compute_min_kmeans(const double* matrix, double* clusters_ptr,
 #ifdef PROFILER
     ProfilerStart("matrix/min-tri-kmeans.perf");
 #endif
-    NUM_COLS = num_cols;
-    K = k;
-    NUM_ROWS = num_rows;
+    const size_t NUM_COLS = num_cols;
+    const size_t K = k;
+    const size_t NUM_ROWS = num_rows;
+    size_t g_num_changed = 0;
+    struct timeval start, end;
+    run_params params;
+    params.ncol = NUM_COLS;
+    params.k = K;
+    params.nrow = NUM_ROWS;
 #ifdef _OPENMP
     if (!max_threads)
         max_threads = 1;
@@ -403,7 +420,9 @@ kbase::cluster_t compute_min_kmeans(const double* matrix, double* clusters_ptr,
     max_threads = 1;
 #endif
 
-    OMP_MAX_THREADS = std::min(max_threads, kbase::get_num_omp_threads());
+    const short OMP_MAX_THREADS =
+        std::min(max_threads, kbase::get_num_omp_threads());
+    params.max_threads = OMP_MAX_THREADS;
 
 #ifdef _OPENMP
     omp_set_num_threads(OMP_MAX_THREADS);
@@ -443,9 +462,9 @@ kbase::cluster_t compute_min_kmeans(const double* matrix, double* clusters_ptr,
     printf("Dist_type is %s \n", dist_type.c_str());
 #endif
     if (dist_type == "eucl") {
-        g_dist_type = kbase::dist_t::EUCL;
+        params.dist_type = kbase::dist_t::EUCL;
     } else if (dist_type == "cos") {
-        g_dist_type = kbase::dist_t::COS;
+        params.dist_type = kbase::dist_t::COS;
     } else {
         throw kbase::parameter_exception("param `dist_type` must be one of: "
                 "'eucl', 'cos'.", dist_type);
@@ -454,16 +473,12 @@ kbase::cluster_t compute_min_kmeans(const double* matrix, double* clusters_ptr,
     if (init == "random") {
         random_partition_init(cluster_assignments, matrix,
                 clusters, NUM_ROWS, NUM_COLS, K);
-        g_init_type = kbase::init_t::RANDOM;
         clusters->finalize_all();
     } else if (init == "forgy") {
         forgy_init(matrix, clusters, NUM_ROWS, NUM_COLS, K);
-        g_init_type = kbase::init_t::FORGY;
     } else if (init == "kmeanspp") {
-        kmeanspp_init(matrix, clusters, cluster_assignments);
-        g_init_type = kbase::init_t::PLUSPLUS;
+        kmeanspp_init(matrix, clusters, cluster_assignments, params);
     } else if (init == "none") {
-        g_init_type = kbase::init_t::NONE;
         dm->compute_dist(clusters, NUM_COLS);
     } else {
         throw kbase::parameter_exception("param `init` must be one of: "
@@ -488,7 +503,7 @@ kbase::cluster_t compute_min_kmeans(const double* matrix, double* clusters_ptr,
 #endif
         EM_step(matrix, clusters, cluster_assignments,
                 cluster_assignment_counts, recalculated_v,
-                dist_v, dm, true);
+                dist_v, dm, params, g_num_changed, true);
     }
 #if KM_TEST
 #ifndef BIND
@@ -535,7 +550,8 @@ kbase::cluster_t compute_min_kmeans(const double* matrix, double* clusters_ptr,
 #endif
 
         EM_step(matrix, clusters, cluster_assignments,
-                cluster_assignment_counts, recalculated_v, dist_v, dm);
+                cluster_assignment_counts, recalculated_v, dist_v, dm, params,
+                g_num_changed);
 #if VERBOSE
 #ifndef BIND
         printf("Before: Printing clusters:";
-- 
2.43.0

