From a5a8e9364183d4f6264711bacc200b5a80401152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 01/53] fix: LogNormalFn with a median or mean-ln location and
 an SD spread no longer recurses forever

sigma_lnX was calculated from mean_X, which for these kinds is itself derived
from sigma_lnX. Use the closed form in terms of the median.
---
 src/functions.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/functions.cpp b/src/functions.cpp
index 8d6cb87..8934712 100644
--- a/src/functions.cpp
+++ b/src/functions.cpp
@@ -349,11 +349,23 @@ namespace SLAT {
             break;
         case SIGMA_X:
             sigma_X = [this] (double x) -> double { return this->sigma_function->ValueAt(x); };
-            sigma_lnX = [this] (double x) -> double { 
-                double sd = this->sigma_X(x);
-                double mean = this->mean_X(x);
-                return sqrt(log(1.0 + (sd * sd)/(mean * mean))); 
-            };
+            if (m_type == MEAN_X) {
+                sigma_lnX = [this] (double x) -> double { 
+                    double sd = this->sigma_X(x);
+                    double mean = this->mean_X(x);
+                    return sqrt(log(1.0 + (sd * sd)/(mean * mean))); 
+                };
+            } else {
+                /*
+                 * mean_X is derived from sigma_lnX, so calculate sigma_lnX from
+                 * the median instead: with w = exp(sigma_lnX^2), 
+                 * (sd/median)^2 = w * (w - 1).
+                 */
+                sigma_lnX = [this] (double x) -> double { 
+                    double r = this->sigma_X(x) / this->median_X(x);
+                    return sqrt(log((1.0 + sqrt(1.0 + 4.0 * r * r)) / 2.0)); 
+                };
+            }
             break;
         case SIGMA_INVALID:
         default:
-- 
2.43.0


From 1f3d7d0eb02c76a53a466576894183c54ec9a793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 02/53] fix: replacing the second model of a CompoundEDP no
 longer overwrites the first

The replace callback installed on the second function assigned dependent_rate.
---
 src/relationships.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/relationships.cpp b/src/relationships.cpp
index dc212fe..2882c1a 100644
--- a/src/relationships.cpp
+++ b/src/relationships.cpp
@@ -403,7 +403,7 @@ namespace SLAT {
             },
             [this] (std::shared_ptr<ProbabilisticFn> new_dependent_rate) {
                 this->lambda.ClearCache();
-                this->dependent_rate = new_dependent_rate;
+                this->second_dependent_rate = new_dependent_rate;
                 this->notify_change();
             });
     }
-- 
2.43.0


From c8fd57a869af6f49b2984cd112c0c1bcb0f9cf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 03/53] fix: the rate of an EDP whose mean and SD are both
 unbounded is no longer NaN

The integrand at infinite intensity evaluated a distribution with infinite
mean and SD; like zero intensity, it contributes nothing.
---
 src/relationships.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/relationships.cpp b/src/relationships.cpp
index 2882c1a..03529fd 100644
--- a/src/relationships.cpp
+++ b/src/relationships.cpp
@@ -275,7 +275,7 @@ namespace SLAT {
         result =  Integration::MAQ(
             [this, min_y] (double x2) -> double {
                 double result;
-                if (x2 == 0) {
+                if (x2 == 0 || std::isinf(x2)) {
                     result = 0;
                 } else {
                     double d = this->base_rate->DerivativeAt(x2);
-- 
2.43.0


From 29c65b660ac65ee8f71b8963814173459c0f6f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:25 +0000
Subject: [PATCH 04/53] fix: Replaceable::replace keeps the replacement's own
 clients, and client ids stay unique

---
 src/replaceable.h | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/replaceable.h b/src/replaceable.h
index a61bbb9..87cc8f4 100644
--- a/src/replaceable.h
+++ b/src/replaceable.h
@@ -11,6 +11,7 @@
  */
 #ifndef _REPLACEABLE_H_
 #define _REPLACEABLE_H_
+#include <atomic>
 #include <map>
 #include <memory>
 #include <iostream>
@@ -67,24 +68,26 @@ namespace SLAT {
         std::map<int, callback_struct> callbacks;
 
         /**
-         * id_counter is used as the key for clients. It is incremented by
-         * add_callbacks().  Client ids do not need to be sequential; just
-         * unique. This is an easy way to ensure that, but other mechanisms
-         * could be used without affecting anything outside this template.
+         * next_id() supplies the keys for clients. Client ids do not need to be
+         * sequential; just unique. Since replace() moves clients from one
+         * object to another, they need to be unique among all the objects of
+         * the class.
          */
-        int id_counter;
+        static int next_id(void) {
+            static std::atomic<int> id_counter(0);
+            return ++id_counter;
+        }
     public:
         Replaceable()  { 
-            id_counter = 0;
             omp_init_lock(&lock);
         };
         
         int add_callbacks(std::function<void (void)> changed,
                           std::function<void (std::shared_ptr<T>)> replace)
         {
+            int result = next_id();
             omp_set_lock(&lock);
-            int result = ++id_counter;
-            callbacks[id_counter] = {changed, replace};
+            callbacks[result] = {changed, replace};
             omp_unset_lock(&lock);
             return result;
         }
@@ -103,14 +106,25 @@ namespace SLAT {
             omp_unset_lock(&lock);
         }
 
+        /**
+         * Move all clients to 'replacement' (alongside any it already has),
+         * and invoke their replace_cb. The clients' ids remain valid.
+         */
         void replace(std::shared_ptr<T> replacement) {
+            std::map<int, callback_struct> clients;
+
             omp_set_lock(&lock);
-            replacement->callbacks = callbacks;
-            for (auto it=callbacks.begin(); it != callbacks.end();) {
+            clients.swap(callbacks);
+            omp_unset_lock(&lock);
+
+            Replaceable<T> &target = *replacement;
+            omp_set_lock(&target.lock);
+            target.callbacks.insert(clients.begin(), clients.end());
+            omp_unset_lock(&target.lock);
+
+            for (auto it=clients.begin(); it != clients.end(); it++) {
                 it->second.replace_cb(replacement);
-                it = callbacks.erase(it);
             }
-            omp_unset_lock(&lock);
         }
     };
 }
-- 
2.43.0


From 50992432451b0a6d06ff2955357b65f680814472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:25 +0000
Subject: [PATCH 05/53] fix: clearing, exceptions and recalculation of cached
 values are safe while a calculation is under way

---
 src/caching.h | 172 ++++++++++++++++++++++++++------------------------
 1 file changed, 88 insertions(+), 84 deletions(-)

diff --git a/src/caching.h b/src/caching.h
index df6ee91..a804c94 100644
--- a/src/caching.h
+++ b/src/caching.h
@@ -21,6 +21,7 @@
 
 #include <unordered_map>
 #include <functional>
+#include <memory>
 #include <iostream>
 #include <iomanip>
 #include <string>
@@ -174,45 +175,35 @@ namespace SLAT {
                      * doesn't already exist.
                      */
                     bool cached = cache.count(v) != 0;
+                    if (cached) hits++; // Record cache hit
 
-                    if (!cached) {
+                    while (!cached) {
                         /*
                          * The value isn't cached, so we need to calculate
                          * it. For efficiency, we only want to calculate it
                          * once. We use a map 'in_process' to record which
                          * values are being actively calculated at a given
-                         * time. Each entry in 'in_process' has a lock and a
-                         * count.
+                         * time. Each entry in 'in_process' has a lock, held
+                         * while the calculation is being performed.
                          */
-                        bool happening = in_process.count(v) != 0;
-                        if (happening) {
+                        if (in_process.count(v) != 0) {
                             /*
-                             *  The calculation is already being
-                             *  performed. Increment the count, release the lock
-                             *  for this object, and then take corresponding
-                             *  'in_process' lock.
+                             *  The calculation is already being performed.
+                             *  Release the lock for this object, and wait for
+                             *  the corresponding 'in_process' lock.
                              */
-                            in_process[v].count++;
-                            omp_lock_t *calc_lock = &in_process[v].lock;
+                            std::shared_ptr<WAITING> waiting = in_process[v];
                             omp_unset_lock(&lock);
-                            omp_set_lock(calc_lock);
+                            omp_set_lock(&waiting->lock);
+                            omp_unset_lock(&waiting->lock); // Release for anyone else who's waiting
+                            omp_set_lock(&lock);
 
                             /*
-                             * Once we have calc_lock, we know the value is in
-                             * the cache. Wait for the object lock, then
-                             * decrement the 'in_process' count for the
-                             * requested value. If it isn't zero, there's
-                             * someone else waiting, so release the lock. If
-                             * we're the last one, erase the appropriate
-                             * 'in_process' element.
+                             * The value is normally in the cache now. It isn't
+                             * if the calculation failed, or if the cache was
+                             * cleared in the meantime; try again then.
                              */
-                            omp_set_lock(&lock);
-                            in_process[v].count--;
-                            if (in_process[v].count > 0) {
-                                omp_unset_lock(&in_process[v].lock);
-                            } else {
-                                in_process.erase(v);
-                            }
+                            cached = cache.count(v) != 0;
                         } else {
                             /*
                              * We're the first one to request this
@@ -220,45 +211,36 @@ namespace SLAT {
                              * release the object while the calculation is
                              * performed.
                              */
-                            omp_init_lock(&in_process[v].lock);
-                            omp_set_lock(&in_process[v].lock);
-                            in_process[v].count = 0;
+                            std::shared_ptr<WAITING> waiting = std::make_shared<WAITING>();
+                            omp_set_lock(&waiting->lock);
+                            in_process[v] = waiting;
+                            unsigned int started = clear_count;
                             omp_unset_lock(&lock);
 
-                            T result = func(v);  // Perform calculation
+                            try {
+                                T result = func(v);  // Perform calculation
                             
-                            omp_set_lock(&lock); // Get object lock
-                            
-                            /*
-                             * This is a sanity check. If when we get here, the
-                             * value is in the cache already, something is wrong
-                             * with the synchronisation in this code. That is,
-                             * somebody else wanted the same result, and
-                             * calculated it instead of waiting for us.
-                             */
-                            if (cache.count(v) != 0) {
-                                std::cout << "DUPLICATE (f): " << name << " at " << v << std::endl;
-                                std::cout << in_process[v].count << std::endl;
-                                raise(SIGINT);
-                            }
-
-                            cache[v] = result; // Save the result
-
-                            /*
-                             * If no one else is interested in the result,
-                             * remove the 'in_process' entry; otherwise, release
-                             * the 'in_process' lock to signal other interested
-                             * parties.
-                             */
-                            if (in_process[v].count == 0) {
+                                /*
+                                 * Save the result, unless the cache has been
+                                 * cleared since we started: it may be out of
+                                 * date. Then remove the 'in_process' entry, and
+                                 * signal other interested parties.
+                                 */
+                                omp_set_lock(&lock); // Get object lock
+                                if (started == clear_count) cache[v] = result;
                                 in_process.erase(v);
-                            } else {
-                                omp_unset_lock(&in_process[v].lock);
+                                omp_unset_lock(&waiting->lock);
+                                omp_unset_lock(&lock);
+                                return result;
+                            } catch (...) {
+                                // The calculation failed; let anyone waiting know.
+                                omp_set_lock(&lock);
+                                in_process.erase(v);
+                                omp_unset_lock(&waiting->lock);
+                                omp_unset_lock(&lock);
+                                throw;
                             }
                         }
-                    } else {
-                        // Record cache hit
-                        hits++;
                     }
                     
                     /*
@@ -285,7 +267,10 @@ namespace SLAT {
              * Clear the cache for just this object.
              */
             void ClearCache(void) {
+                omp_set_lock(&lock);
                 cache.clear(); 
+                clear_count++;
+                omp_unset_lock(&lock);
             };
         private:
             /// This will perform the calculation that we're caching.
@@ -302,12 +287,16 @@ namespace SLAT {
 
             /// Structure for recording calcuations in process.
             struct WAITING {
-                omp_lock_t lock; ///< Lock for this record
-                int count;       ///< Count of waiting clients
+                omp_lock_t lock; ///< Held until the calculation is over
+                WAITING() { omp_init_lock(&lock); };
+                ~WAITING() { omp_destroy_lock(&lock); };
             };
 
             /// Map of calculations in process.
-            std::unordered_map<V, struct WAITING> in_process;
+            std::unordered_map<V, std::shared_ptr<WAITING>> in_process;
+
+            /// Number of times the cache has been cleared.
+            unsigned int clear_count = 0;
 
             /// OpenMP lock for this object
             omp_lock_t lock;
@@ -357,6 +346,8 @@ namespace SLAT {
             T cached_value;  ///< The result of the calculation
 
             bool cache_valid; ///< Is the stored result valid?
+
+            unsigned int clear_count = 0; ///< Number of times the cache has been cleared
             
             int hits;        ///< Hit counter (for development)
             int total_calls; ///< Count of total calls (for development)
@@ -385,7 +376,6 @@ namespace SLAT {
                  * only once.
                  */
                 omp_init_lock(&waiting_lock);
-                omp_set_lock(&waiting_lock);
 
                 // Set member variables:
                 in_process = false; 
@@ -430,11 +420,14 @@ namespace SLAT {
                  * calculate it; if the calculation is already in process, wait
                  * for it to finish.
                  */
-                if (!cache_valid) {
+                if (cache_valid) hits++; // Already cached; no need to calculate
+
+                while (!cache_valid) {
                     /*
                      * The calculating is being performed. Release the object
                      * lock, then wait for the 'waiting_lock' to indicate the
-                     * calculation has been completed.
+                     * calculation has been completed. If it failed, or the
+                     * cache was cleared in the meantime, try again.
                      */
                     if (in_process) {
                         omp_unset_lock(&lock);
@@ -446,29 +439,37 @@ namespace SLAT {
                          * This is the first request--calculate the value.
                          */
                         in_process = true;
+                        omp_set_lock(&waiting_lock); // Anyone else will have to wait
+                        unsigned int started = clear_count;
                         omp_unset_lock(&lock); // Release the lock while calculating
                         
-                        T result = func();
+                        try {
+                            T result = func();
                         
-                        omp_set_lock(&lock); // Lock before saving to cache
-                        /*
-                         * Sanity check--if cache_valid is set, the calculation
-                         * has been performed more than once.
-                         */
-                        if (cache_valid) {
-                            std::cout << "DUPLICATE (v): " << name << std::endl;
-                            raise(SIGINT);
+                            /*
+                             * Save the result, unless the cache has been
+                             * cleared since we started: it may be out of
+                             * date. Then release the 'waiting_lock' to anyone
+                             * waiting.
+                             */
+                            omp_set_lock(&lock); // Lock before saving to cache
+                            if (started == clear_count) {
+                                cached_value = result;
+                                cache_valid = true;
+                            }
+                            in_process = false;
+                            omp_unset_lock(&waiting_lock);
+                            omp_unset_lock(&lock);
+                            return result;
+                        } catch (...) {
+                            // The calculation failed.
+                            omp_set_lock(&lock);
+                            in_process = false;
+                            omp_unset_lock(&waiting_lock);
+                            omp_unset_lock(&lock);
+                            throw;
                         }
-                        
-                        // Save the result, and release the 'waiting_lock' to anyone waiting
-                        cached_value = result;
-                        cache_valid = true;
-                        in_process = false;
-                        omp_unset_lock(&waiting_lock);
-                    }                        
-                } else {
-                    // Already cached; no need to calculate
-                    hits++;
+                    }
                 }
 
                 /*
@@ -485,7 +486,10 @@ namespace SLAT {
              * Clear the cache for just this object.
              */
             void ClearCache(void) {
+                omp_set_lock(&lock);
                 cache_valid = false;
+                clear_count++;
+                omp_unset_lock(&lock);
             };
         };
     }
-- 
2.43.0


From affdf6b85b7f22f379e1dc780efac8c968653db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:25 +0000
Subject: [PATCH 06/53] fix: collapse and demolition rates are recalculated
 when the hazard curve or the collapse distribution changes

---
 src/relationships.cpp | 4 ++++
 src/relationships.h   | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/relationships.cpp b/src/relationships.cpp
index 03529fd..8f94941 100644
--- a/src/relationships.cpp
+++ b/src/relationships.cpp
@@ -49,10 +49,14 @@ namespace SLAT {
         f = func;
         callback_id = f->add_callbacks(
             [this] (void) {
+                this->CollapseRate.ClearCache();
+                this->DemolitionRate.ClearCache();
                 this->notify_change();
             },
             [this] (std::shared_ptr<DeterministicFn> new_f) {
                 this->f = new_f;
+                this->CollapseRate.ClearCache();
+                this->DemolitionRate.ClearCache();
                 this->notify_change();
             });
     }
diff --git a/src/relationships.h b/src/relationships.h
index 96fd2ff..cb5696a 100644
--- a/src/relationships.h
+++ b/src/relationships.h
@@ -74,6 +74,7 @@ namespace SLAT {
         void SetCollapse(std::shared_ptr<LogNormalDist> new_collapse)
         {
             CollapseRate.ClearCache();
+            DemolitionRate.ClearCache(); // Also depends on pCollapse()
             collapse = new_collapse;
             notify_change();
         }
@@ -81,6 +82,7 @@ namespace SLAT {
         void SetCollapse(LogNormalDist new_collapse)
         {
             CollapseRate.ClearCache();
+            DemolitionRate.ClearCache(); // Also depends on pCollapse()
             collapse = std::make_shared<LogNormalDist>(new_collapse);
             notify_change();
         }
-- 
2.43.0


From 6df70213f001a82f8252a288c62b4582e9bec901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:25 +0000
Subject: [PATCH 07/53] fix: component groups pass changes on to the structures
 using them

---
 src/comp_group.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/comp_group.cpp b/src/comp_group.cpp
index 6df2b7a..3ff0941 100644
--- a/src/comp_group.cpp
+++ b/src/comp_group.cpp
@@ -93,6 +93,7 @@ namespace SLAT {
                 this->cost_EDP_dist.ClearCache();
                 this->delay_EDP_dist.ClearCache();
                 this->Rate.ClearCache();
+                this->notify_change();
             },
             [this] (std::shared_ptr<EDP> new_edp) {
                 this->E_cost_IM.ClearCache();
@@ -105,6 +106,7 @@ namespace SLAT {
                 this->delay_EDP_dist.ClearCache();
                 this->Rate.ClearCache();
                 this->edp = new_edp;
+                this->notify_change();
             });
         /*
          * When the fragility changes or is replaced, clear the cached values.
@@ -120,6 +122,7 @@ namespace SLAT {
                 this->cost_EDP_dist.ClearCache();
                 this->delay_EDP_dist.ClearCache();
                 this->Rate.ClearCache();
+                this->notify_change();
             },
             [this] (std::shared_ptr<FragilityFn> new_frag_fn) {
                 this->E_cost_IM.ClearCache();
@@ -132,6 +135,7 @@ namespace SLAT {
                 this->delay_EDP_dist.ClearCache();
                 this->Rate.ClearCache();
                 this->frag_fn = new_frag_fn;
+                this->notify_change();
             });
         /*
          * When the cost changes or is replaced, clear the cached values.
@@ -146,6 +150,7 @@ namespace SLAT {
                     this->cost_EDP_dist.ClearCache();
                     this->delay_EDP_dist.ClearCache();
                     this->Rate.ClearCache();
+                    this->notify_change();
                 },
                 [this] (std::shared_ptr<LossFn> new_cost_fn) {
                     this->E_cost_IM.ClearCache();
@@ -156,6 +161,7 @@ namespace SLAT {
                     this->delay_EDP_dist.ClearCache();
                     this->Rate.ClearCache();
                     this->cost_fn = new_cost_fn;
+                    this->notify_change();
                 });
         }
 
@@ -168,12 +174,14 @@ namespace SLAT {
                     this->E_delay_IM.ClearCache();
                     this->SD_ln_delay_IM.ClearCache();
                     this->delay_EDP_dist.ClearCache();
+                    this->notify_change();
                 },
                 [this] (std::shared_ptr<LossFn> new_delay_fn) {
                     this->E_delay_IM.ClearCache();
                     this->SD_ln_delay_IM.ClearCache();
                     this->delay_EDP_dist.ClearCache();
                     this->delay_fn = new_delay_fn;
+                    this->notify_change();
                 });
         }
     };
-- 
2.43.0


From 94160810c0027ad7b3b79677a3cb8cfaae922769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 08/53] fix: a structure's annual cost follows its groups and
 costs, and its callbacks are removed with it

---
 src/structure.cpp | 14 ++++++++++++--
 src/structure.h   |  7 ++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/structure.cpp b/src/structure.cpp
index 76ccb87..dfccf14 100644
--- a/src/structure.cpp
+++ b/src/structure.cpp
@@ -24,6 +24,14 @@ namespace SLAT {
     {
         this->name = name;
     };
+
+    Structure::~Structure()
+    {
+        if (im) im->remove_callbacks(im_callback_id);
+        for (size_t i=0; i < components.size(); i++) {
+            components[i]->first->remove_callbacks(components[i]->second);
+        }
+    }
     
     const std::vector<std::shared_ptr<CompGroup>> Structure::Components(void)
     {
@@ -43,8 +51,9 @@ namespace SLAT {
     void  Structure::AddCompGroup(std::shared_ptr<CompGroup> cg)
     {
         if (components.size() == 0) {
+            if (im) im->remove_callbacks(im_callback_id);
             im = cg->getIM();
-            im->add_callbacks(
+            im_callback_id = im->add_callbacks(
                 [this] (void) {
                     this->Clear_Cache();
                 },
@@ -73,8 +82,9 @@ namespace SLAT {
     {
         for (size_t i=0; i < components.size(); i++) {
             if (components[i]->first == cg) {
-                std::cout << "REMOVING " << components[i]->first << std::endl;
+                cg->remove_callbacks(components[i]->second);
                 components.erase(components.begin()+i);
+                this->Clear_Cache();
                 break;
             }
         }
diff --git a/src/structure.h b/src/structure.h
index 31187a2..1ca314a 100644
--- a/src/structure.h
+++ b/src/structure.h
@@ -20,7 +20,7 @@ namespace SLAT {
     class Structure : public Replaceable<Structure> {
     public:
         Structure(std::string name);
-        ~Structure() {};
+        ~Structure(); /**< Destructor; unregister callbacks */
 
         void AddCompGroup(std::shared_ptr<CompGroup> cg);
         void RemoveCompGroup(std::shared_ptr<CompGroup> cg);
@@ -39,10 +39,10 @@ namespace SLAT {
         COSTS CostsByFate(double im);
         Caching::CachedValue<LogNormalDist> AnnualCost;
         std::pair<LogNormalDist, LogNormalDist> DeaggregatedCost(double im);
-        void setRebuildCost(LogNormalDist dist) { rebuild_cost = dist; };
+        void setRebuildCost(LogNormalDist dist) { rebuild_cost = dist; Clear_Cache(); };
         const std::vector<std::shared_ptr<CompGroup>> Components(void);
         LogNormalDist getRebuildCost(void) { return rebuild_cost; };
-        void setDemolitionCost(LogNormalDist dist) { demolition_cost = dist; };
+        void setDemolitionCost(LogNormalDist dist) { demolition_cost = dist; Clear_Cache(); };
         LogNormalDist getDemolitionCost(void) { return demolition_cost; };
         std::string get_Name(void) const { return name; };
 
@@ -55,6 +55,7 @@ namespace SLAT {
         typedef std::pair<std::shared_ptr<CompGroup>, int> CG_ENTRY;
         std::vector<std::shared_ptr<CG_ENTRY>> components;
         std::shared_ptr<IM> im;
+        int im_callback_id;
         LogNormalDist rebuild_cost;
         LogNormalDist demolition_cost;
     };
-- 
2.43.0


From 2637d9aa24efc8df57b2a5705e6617e47430a09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:25 +0000
Subject: [PATCH 09/53] fix: changing the integration settings clears cached
 results, as documented; define the two missing defaults

---
 src/maq.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/maq.cpp b/src/maq.cpp
index dfca708..f739994 100644
--- a/src/maq.cpp
+++ b/src/maq.cpp
@@ -19,6 +19,7 @@
 #include <gsl/gsl_deriv.h>
 #include "maq.h"
 #include "context.h"
+#include "caching.h"
 
 using namespace SLAT;
 using namespace SLAT::Integration;
@@ -104,6 +105,7 @@ namespace SLAT {
             IntegrationSettings::integration_eval_limit = INTEGRATION_EVAL_LIMIT_DEFAULT;
             IntegrationSettings::integration_search_limit = INTEGRATION_SEARCH_LIMIT_DEFAULT;
             IntegrationSettings::integration_method = METHOD_DEFAULT;
+            Caching::Clear_Caches();
         }
 
         unsigned int IntegrationSettings::Get_Integration_Eval_Limit(void)
@@ -129,17 +131,32 @@ namespace SLAT {
         void IntegrationSettings::Use_Default_Tolerance() 
         {
             tolerance = TOLERANCE_DEFAULT;
+            Caching::Clear_Caches();
         }
 
         void IntegrationSettings::Use_Default_Integration_Eval_Limit() 
         {
             integration_eval_limit = INTEGRATION_EVAL_LIMIT_DEFAULT;
+            Caching::Clear_Caches();
+        }
+
+        void IntegrationSettings::Use_Default_Integration_Search_Limit() 
+        {
+            integration_search_limit = INTEGRATION_SEARCH_LIMIT_DEFAULT;
+            Caching::Clear_Caches();
+        }
+
+        void IntegrationSettings::Use_Default_Method() 
+        {
+            integration_method = METHOD_DEFAULT;
+            Caching::Clear_Caches();
         }
 
         void IntegrationSettings::Set_Tolerance(double tol) 
         {
             if (tol > 0.0) {
                 tolerance = tol;
+                Caching::Clear_Caches();
             } else {
                 BOOST_LOG_TRIVIAL(info) << "Can't set tolerance to " << tol
                                         << "; must be > 0.0.";
@@ -150,6 +167,7 @@ namespace SLAT {
         {
             if (evals > 0) {
                 integration_eval_limit = evals;
+                Caching::Clear_Caches();
             } else {
                 BOOST_LOG_TRIVIAL(info) << "Can't set integration eval limit to " << evals
                                         << "; must be > 0.0.";
@@ -160,6 +178,7 @@ namespace SLAT {
         {
             if (evals > 0) {
                 integration_search_limit = evals;
+                Caching::Clear_Caches();
             } else {
                 BOOST_LOG_TRIVIAL(info) << "Can't set integration search limit to " << evals
                                         << "; must be > 0.0.";
@@ -169,6 +188,7 @@ namespace SLAT {
         void IntegrationSettings::Set_Integration_Method(METHOD_TYPE method)
         {
             IntegrationSettings::integration_method = method;
+            Caching::Clear_Caches();
         }
 /*
  * Functions for mapping between the x and t domains:
-- 
2.43.0


From ecf9c51ef73ba3567b625c21cafc78c149c04a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 10/53] fix: the diagnostic context copes with teams of growing
 size and initialises its lock before use

---
 src/context.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index 2c5e880..28baea6 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -23,13 +23,14 @@ namespace SLAT {
 
      std::shared_ptr<Context> Context::LockContext()
      {
+        std::shared_ptr<Context> instance = GetInstance(); // Initialises the lock
         omp_set_lock(&Context::lock);
-        std::shared_ptr<Context> instance = GetInstance();
         
         if (omp_get_active_level() > 0) {
             for (int i=0; i <= omp_get_active_level(); i++) {
                 int thread_num = omp_get_ancestor_thread_num(i);
-                if (instance->threads.size() == 0) {
+                if (instance->threads.size() <= (size_t)thread_num) {
+                    // The team may be larger than the last one
                     instance->threads.resize(omp_get_team_size(i));
                 }
                 if (instance->threads[thread_num] == NULL) {
@@ -172,7 +173,7 @@ namespace SLAT {
 
         for (int i=0; i <= omp_get_active_level(); i++) {
             separator = separator + "/";
-            if (instance->threads.size() == 0) break;
+            if (instance->threads.size() <= (size_t)omp_get_ancestor_thread_num(i)) break;
             instance = instance->threads[omp_get_ancestor_thread_num(i)];
             if (instance == NULL) break;
             
-- 
2.43.0


From df937a8478b133aa6b72d0695c2d0165d4626629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:26 +0000
Subject: [PATCH 11/53] fix: the cost of a structure that cannot collapse does
 not need a rebuild cost

---
 src/structure.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/structure.cpp b/src/structure.cpp
index dfccf14..3102b44 100644
--- a/src/structure.cpp
+++ b/src/structure.cpp
@@ -109,6 +109,7 @@ namespace SLAT {
             std::vector<LogNormalDist> dists = { nc_dist, rebuild_cost };
             if (this->im != NULL) {
                 double pCollapse = this->im->pCollapse(im);
+                if (pCollapse == 0) return nc_dist;
                 std::vector<double> weights = { 1.0 - pCollapse, pCollapse };
             
                 LogNormalDist c_dist = LogNormalDist::AddWeightedDistributions(dists, weights); 
-- 
2.43.0


From 8ef25ad2563916c7c700fa5ac501d7ee662316b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:26 +0000
Subject: [PATCH 12/53] fix: rounding no longer makes the spread of an almost
 certain total cost NaN

---
 src/structure.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/structure.cpp b/src/structure.cpp
index 3102b44..5749c43 100644
--- a/src/structure.cpp
+++ b/src/structure.cpp
@@ -154,7 +154,8 @@ namespace SLAT {
         }
         
         double var_cost = E_sq_cost - E_cost * E_cost;
-        double sigma_cost = sqrt(var_cost);
+        // Rounding may take the variance just below zero:
+        double sigma_cost = sqrt(var_cost < 0 ? 0 : var_cost);
         return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(E_cost, sigma_cost);
     }
 
-- 
2.43.0


From 318c6b8853f43b9d5b539d699cc4e3087cd7cc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:26 +0000
Subject: [PATCH 13/53] fix: the present value of losses is right for a zero or
 very small discount rate

---
 src/structure.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/structure.cpp b/src/structure.cpp
index 5749c43..f30320e 100644
--- a/src/structure.cpp
+++ b/src/structure.cpp
@@ -161,7 +161,8 @@ namespace SLAT {
 
     double Structure::E_cost(int year, double discount_rate)
     {
-        return ((1.0 - exp(-discount_rate * year)) / discount_rate) * AnnualCost().get_mean_X();
+        double factor = discount_rate == 0 ? year : -expm1(-discount_rate * year) / discount_rate;
+        return factor * AnnualCost().get_mean_X();
     }
 
     std::vector<double> Structure::E_cost(std::vector<int> years, double discount_rate)
-- 
2.43.0


From d314f0d9b1de8c99eeae56292ed750d27b8aa26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:27 +0000
Subject: [PATCH 14/53] fix: nested teams inside a single-threaded region keep
 separate diagnostic contexts

---
 src/context.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index 28baea6..5520afb 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -27,7 +27,7 @@ namespace SLAT {
         omp_set_lock(&Context::lock);
         
         if (omp_get_active_level() > 0) {
-            for (int i=0; i <= omp_get_active_level(); i++) {
+            for (int i=0; i <= omp_get_level(); i++) {
                 int thread_num = omp_get_ancestor_thread_num(i);
                 if (instance->threads.size() <= (size_t)thread_num) {
                     // The team may be larger than the last one
@@ -171,7 +171,7 @@ namespace SLAT {
             result << separator;
         }
 
-        for (int i=0; i <= omp_get_active_level(); i++) {
+        for (int i=0; i <= omp_get_level(); i++) {
             separator = separator + "/";
             if (instance->threads.size() <= (size_t)omp_get_ancestor_thread_num(i)) break;
             instance = instance->threads[omp_get_ancestor_thread_num(i)];
-- 
2.43.0


From e27f3adb70f16ecc48d580be2e35947cef349740 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:39:36 +0000
Subject: [PATCH 15/53] fix: an error in the library raises a Python exception
 instead of ending the process

---
 src/comp_group.cpp | 17 +++++++++++++++--
 src/pyslatcore.i   | 16 ++++++++++++++++
 src/structure.cpp  | 10 +++++++++-
 3 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/src/comp_group.cpp b/src/comp_group.cpp
index 3ff0941..2d63f61 100644
--- a/src/comp_group.cpp
+++ b/src/comp_group.cpp
@@ -11,6 +11,7 @@
  */
 
 #include "comp_group.h"
+#include <exception>
 #include <vector>
 #include <gsl/gsl_deriv.h>
 #include <gsl/gsl_integration.h>
@@ -272,17 +273,29 @@ namespace SLAT {
      */
     LogNormalDist CompGroup::CostDist_IM(double im) {
         double E = NAN, sd_ln = NAN;
+        std::exception_ptr error; // An exception can't leave a parallel region
 #pragma omp parallel sections
         {
 #pragma omp section
             {
-                E = E_cost_IM(im);
+                try {
+                    E = E_cost_IM(im);
+                } catch (...) {
+#pragma omp critical (comp_group_error)
+                    error = std::current_exception();
+                }
             }
 #pragma omp section
             {
-                sd_ln = SD_ln_cost_IM(im);
+                try {
+                    sd_ln = SD_ln_cost_IM(im);
+                } catch (...) {
+#pragma omp critical (comp_group_error)
+                    error = std::current_exception();
+                }
             }
         }
+        if (error) std::rethrow_exception(error);
 
         return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(E, sd_ln);
     }
diff --git a/src/pyslatcore.i b/src/pyslatcore.i
index 1718d62..1f2ff87 100644
--- a/src/pyslatcore.i
+++ b/src/pyslatcore.i
@@ -8,6 +8,22 @@
 %include <std_vector.i>
 %include <std_list.i>
 %include <std_map.i>
+%include <exception.i>
+
+/*
+ * Report errors from the library as Python exceptions, instead of terminating
+ * the interpreter.
+ */
+%exception {
+    try {
+        $action
+    } catch (const std::invalid_argument &e) {
+        SWIG_exception(SWIG_ValueError, e.what());
+    } catch (const std::exception &e) {
+        SWIG_exception(SWIG_RuntimeError, e.what());
+    }
+}
+
 namespace std{
     %template(VectorDouble) std::vector<double>;
     %template(VectorLogNormal_p) std::vector<LogNormalDist *>;
diff --git a/src/structure.cpp b/src/structure.cpp
index f30320e..f1204bd 100644
--- a/src/structure.cpp
+++ b/src/structure.cpp
@@ -10,6 +10,7 @@
  * ©2015 Canterbury University
  */
 
+#include <exception>
 #include <memory>
 #include <algorithm>
 #include <iostream>
@@ -94,10 +95,17 @@ namespace SLAT {
     {
         std::vector<LogNormalDist> dists(components.size());
         const size_t N = components.size();
+        std::exception_ptr error; // An exception can't leave a parallel region
 #pragma omp parallel for
         for (size_t i=0; i < N; i++) {
-            dists[i] = components[i]->first->CostDist_IM(im);
+            try {
+                dists[i] = components[i]->first->CostDist_IM(im);
+            } catch (...) {
+#pragma omp critical (structure_error)
+                error = std::current_exception();
+            }
         }
+        if (error) std::rethrow_exception(error);
         return LogNormalDist::AddDistributions(dists);
     }
 
-- 
2.43.0


From 79c458678ec2612fd8bcd27157388a2cc836c960 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:39:36 +0000
Subject: [PATCH 16/53] fix: the costs of a structure without component groups
 are undefined instead of a crash

---
 src/structure.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/structure.cpp b/src/structure.cpp
index f1204bd..e76ab16 100644
--- a/src/structure.cpp
+++ b/src/structure.cpp
@@ -45,6 +45,8 @@ namespace SLAT {
     
     double Structure::pdf(double im) 
     {
+        if (this->im == NULL) return NAN;
+
         return TotalCost(im).get_mean_X() * std::abs(this->im->DerivativeAt(im));
     };
 
@@ -111,6 +113,8 @@ namespace SLAT {
 
     LogNormalDist Structure::Cost(double im, bool consider_collapse)
     {
+        if (this->im == NULL) return LogNormalDist();
+
         LogNormalDist nc_dist = CostNC(im);
 
         if (consider_collapse) {
@@ -132,6 +136,8 @@ namespace SLAT {
 
     LogNormalDist Structure::TotalCost(double im)
     {
+        if (this->im == NULL) return LogNormalDist();
+
         LogNormalDist cost_repair = CostNC(im);
         LogNormalDist cost_demolition = demolition_cost;
         LogNormalDist cost_collapse = rebuild_cost;
@@ -185,6 +191,8 @@ namespace SLAT {
 
     std::pair<LogNormalDist, LogNormalDist> Structure::DeaggregatedCost(double im)
     {
+        if (this->im == NULL) return std::make_pair(LogNormalDist(), LogNormalDist());
+
         LogNormalDist cost_nc = CostNC(im);
         LogNormalDist cost_c = rebuild_cost;
         LogNormalDist cost_demo = demolition_cost;
-- 
2.43.0


From 78b3659394955f3426ff2ccff4f68b0dceb546b2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:39:36 +0000
Subject: [PATCH 17/53] fix: a deterministic function with missing, surplus or
 disordered data is refused

---
 src/pyslatcore.cpp | 50 +++++++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/pyslatcore.cpp b/src/pyslatcore.cpp
index daaf4d1..a708cc5 100644
--- a/src/pyslatcore.cpp
+++ b/src/pyslatcore.cpp
@@ -4,6 +4,7 @@
 #include "context.h"
 #include "loss_functions.h"
 #include <iostream>
+#include <stdexcept>
 #include <set>
 #include <boost/log/sinks/text_ostream_backend.hpp>
 #include <boost/log/utility/setup/console.hpp>
@@ -104,32 +105,30 @@ DeterministicFn *factory3(FUNCTION_TYPE t, std::vector<double>x, std::vector<dou
 {
     std::shared_ptr<SLAT::DeterministicFn> result;
     
-    switch (t) {
-    case PLC:
-    case NLH:
-        std::cout << "Must have exactly one list of data." << std::endl;
-        break;
+    if (t == PLC || t == NLH) {
+        throw std::invalid_argument("Must have exactly one list of data.");
+    }
+    if (x.size() < 2 || x.size() != y.size()) {
+        throw std::invalid_argument("Data lists must be same size, greater than 1.");
+    }
+    for (size_t i=0; i < x.size(); i++) {
+        if (std::isnan(x[i]) || (i > 0 && x[i] <= x[i - 1])) {
+            throw std::invalid_argument("The x values must be strictly increasing.");
+        }
+    }
+    if (t == LOGLOG && x[0] < 0) {
+        throw std::invalid_argument("The x values must not be negative.");
+    }
 
+    switch (t) {
     case LIN:
-    {
-        if (x.size() < 2 || x.size() != y.size()) {
-            std::cout << "Data lists must be same size, greater than 1." << std::endl;
-            break;
-        }
-            
         result = std::make_shared<SLAT::LinearInterpolatedFn>(x.data(), y.data(), x.size());
         break;
-    }
     case LOGLOG:
-        if (x.size() < 2 || x.size() != y.size()) {
-            std::cout << "Data lists must be same size, greater than 1." << std::endl;
-            break;
-        }
-            
         result = std::make_shared<SLAT::LogLogInterpolatedFn>(x.data(), y.data(), x.size());
         break;
     default:
-        std::cout << "Unrecognised function type" << std::endl;
+        throw std::invalid_argument("Unrecognised function type");
     }
     return new DeterministicFn(result);
 }
@@ -143,6 +142,13 @@ DeterministicFn *factory2(FUNCTION_TYPE t, std::vector<double> params)
     //     std::cout << *i << ", ";
     // }
     // std::cout << ")" << std::endl;
+    if (t == LIN || t == LOGLOG) {
+        throw std::invalid_argument("Must have exactly two lists of data.");
+    }
+    if (params.size() != (t == PLC ? 2 : 3)) {
+        throw std::invalid_argument("Wrong number of parameters.");
+    }
+
     switch (t) {
     case PLC:
     {
@@ -160,14 +166,8 @@ DeterministicFn *factory2(FUNCTION_TYPE t, std::vector<double> params)
         result = std::make_shared<SLAT::NonLinearHyperbolicLaw>(v_asy, IM_asy, alpha);
         break;
     }
-    case LIN:
-        std::cout << "Must have exactly two lists of data." << std::endl;
-        break;
-    case LOGLOG:
-        std::cout << "Must have exactly two lists of data." << std::endl;
-        break;
     default:
-        std::cout << "Unrecognised function type" << std::endl;
+        throw std::invalid_argument("Unrecognised function type");
     }
     return new DeterministicFn(result);
 }
-- 
2.43.0


From c2e30d2bdeab5e688b61dcfebfea33d3b86e12ed Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:39:36 +0000
Subject: [PATCH 18/53] fix: the parameters of a hyperbolic function are v_asy,
 IM_asy, alpha, as documented

---
 src/pyslatcore.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyslatcore.cpp b/src/pyslatcore.cpp
index a708cc5..53aa566 100644
--- a/src/pyslatcore.cpp
+++ b/src/pyslatcore.cpp
@@ -160,9 +160,9 @@ DeterministicFn *factory2(FUNCTION_TYPE t, std::vector<double> params)
     case NLH:
     {
         // std::cout << "[NLH]" << std::endl;
-        double alpha = params[0];
+        double v_asy = params[0];
         double IM_asy = params[1];
-        double v_asy = params[2];
+        double alpha = params[2];
         result = std::make_shared<SLAT::NonLinearHyperbolicLaw>(v_asy, IM_asy, alpha);
         break;
     }
-- 
2.43.0


From bfd565798fd09338d4f39254f121a5b26515d48e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:39:36 +0000
Subject: [PATCH 19/53] fix: an unsupported combination of mu and sigma is
 refused instead of undefined

---
 src/pyslatcore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyslatcore.cpp b/src/pyslatcore.cpp
index 53aa566..34a5866 100644
--- a/src/pyslatcore.cpp
+++ b/src/pyslatcore.cpp
@@ -543,7 +543,7 @@ LogNormalDist *MakeLogNormalDist(double mu, LOGNORMAL_MU_TYPE mu_type,
     } else if (mu_type == MEAN_X && sigma_type == SD_X) {
         dist = SLAT::LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(mu, sigma);
     } else {
-        std::cout << "Unsupported combination of mu and sigma." << std::endl;
+        throw std::invalid_argument("Unsupported combination of mu and sigma.");
     }
 
     std::shared_ptr<SLAT::LogNormalDist> temp = std::make_shared<SLAT::LogNormalDist>(dist);
-- 
2.43.0


From af5e96e361a4b5475f7c109387ebb4f84c12705e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:40:32 +0000
Subject: [PATCH 20/53] fix: the values of a probabilistic function are
 available in Python

---
 src/pyslatcore.i | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pyslatcore.i b/src/pyslatcore.i
index 1f2ff87..33250b2 100644
--- a/src/pyslatcore.i
+++ b/src/pyslatcore.i
@@ -64,6 +64,17 @@ public:
 DeterministicFn *factory3(FUNCTION_TYPE t, std::vector<double>x, std::vector<double> y);
 DeterministicFn *factory2(FUNCTION_TYPE t, std::vector<double> params);
 
+class ProbabilisticFn {
+public:
+    double P_exceedence(double x, double min_y);
+    double X_at_exceedence(double x, double p);
+    double Mean(double x);
+    double MeanLn(double x);
+    double Median(double x);
+    double SD_ln(double x);
+    double SD(double x);
+};
+
 ProbabilisticFn *MakeLogNormalProbabilisticFn(const DeterministicFn &mu_function,
                                                   LOGNORMAL_MU_TYPE mu_type,
                                                   const DeterministicFn &sigma_function,
-- 
2.43.0


From f94b7255867ab28cea94bb2ed36c2727d832d5ec Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:40:32 +0000
Subject: [PATCH 21/53] fix: an EDP accepts a list for all its statistics

---
 src/pyslat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 618a1fc..4d0ecef 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -778,7 +778,7 @@ class edp:
     #  @param x The IM value at which to calculate mean(ln(x)).
     def MeanLn(self, x):
         if type(x) == list:
-            result = list(self._func.MeanLn(x))
+            result = list(self._func.bulk_MeanLn(x))
         else:
             result = self._func.MeanLn(x)
         return result
@@ -787,7 +787,7 @@ class edp:
     #  @param x The IM value at which to calculate median(x).
     def Median(self, x):
         if type(x) == list:
-            result = list(self._func.Median(x))
+            result = list(self._func.bulk_Median(x))
         else:
             result = self._func.Median(x)
         return result
@@ -805,7 +805,7 @@ class edp:
     #  @param x The IM value at which to calculate standard deviation(x).
     def SD(self, x):
         if type(x) == list:
-            result = list(self._func.SD(x))
+            result = list(self._func.bulk_SD(x))
         else:
             result = self._func.SD(x)
         return result
-- 
2.43.0


From 0b1cedb08e698b37c79db603edde7ef6608e06e3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:40:32 +0000
Subject: [PATCH 22/53] fix: a damage state with a loss of zero does not make
 the cost undefined

---
 src/pyslat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 4d0ecef..efa3d13 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1016,7 +1016,7 @@ class simplelossfn(lossfn):
 
         params = []
         for d in data:
-            if d[0]:
+            if d[0] != None:
                 params.append(MakeLogNormalDist(d[0], options['mu'], d[1], options['sd']))
             else:
                 params.append(DefaultLogNormalDist())
-- 
2.43.0


From 4de5525b4c04b3520c7a9c98109e08fc3d30d127 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:40:50 +0000
Subject: [PATCH 23/53] fix: redefining a function takes effect everywhere it
 is used

---
 src/pyslat.py      | 14 +++++++++-----
 src/pyslatcore.cpp | 10 ++++++++++
 src/pyslatcore.h   |  2 ++
 src/pyslatcore.i   |  2 ++
 4 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index efa3d13..77971bb 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -396,6 +396,9 @@ class detfn:
             self._func = factory2(fntype, parameters)
 
         if id != None:
+            old = detfn.lookup(id)
+            if old:
+                detfn.defs[id]._func.replace(self._func)
             detfn.defs[id] = self
 
     ## Return the detfn object with the corresponding id.
@@ -467,7 +470,9 @@ class probfn:
     # indicating the attribute the second element--a deterministic
     # function--describes.
     def __init__(self, id, type, mu_func, sigma_func):
-        
+        if not(type == 'lognormal'):
+            raise ValueError("Invalid type '{}' for probfn '{}'.".format(type, id))
+
         self._id = id
         self._type = type
         self._mu_func = mu_func
@@ -477,12 +482,11 @@ class probfn:
                                                   sigma_func[1].function(),
                                                   sigma_func[0]) 
         if id != None:
+            old = probfn.lookup(id)
+            if old:
+                probfn.defs[id]._func.replace(self._func)
             probfn.defs[id] = self
-        
-        if not(type == 'lognormal'):
-            raise ValueError("Invalid type '" + type + "' for probfn '" + id + "'.")
 
-    
     ## Return the probfn object with the corresponding id.
     # @param id The identifier provided to the constructor of a probfn object.
     def lookup(id):
diff --git a/src/pyslatcore.cpp b/src/pyslatcore.cpp
index 34a5866..08fe2e5 100644
--- a/src/pyslatcore.cpp
+++ b/src/pyslatcore.cpp
@@ -101,6 +101,11 @@ double DeterministicFn::ValueAt(double v)
     return function->ValueAt(v);
 }
 
+void DeterministicFn::replace(DeterministicFn *f)
+{
+    function->replace(f->function);
+}
+
 DeterministicFn *factory3(FUNCTION_TYPE t, std::vector<double>x, std::vector<double> y)
 {
     std::shared_ptr<SLAT::DeterministicFn> result;
@@ -206,6 +211,11 @@ double ProbabilisticFn::SD(double x) {
     return function->SD(x);
 };
 
+void ProbabilisticFn::replace(ProbabilisticFn *f)
+{
+    function->replace(f->function);
+}
+
 ProbabilisticFn *MakeLogNormalProbabilisticFn(const DeterministicFn &mu_function,
                                               LOGNORMAL_MU_TYPE mu_type,
                                               const DeterministicFn &sigma_function,
diff --git a/src/pyslatcore.h b/src/pyslatcore.h
index 097c289..69f9cfc 100644
--- a/src/pyslatcore.h
+++ b/src/pyslatcore.h
@@ -34,6 +34,7 @@ public:
     DeterministicFn();
     DeterministicFn(std::shared_ptr<SLAT::DeterministicFn> f);
     double ValueAt(double v);
+    void replace(DeterministicFn *f);
     std::shared_ptr<SLAT::DeterministicFn> function;
 };
 
@@ -51,6 +52,7 @@ public:
     double Median(double x);
     double SD_ln(double x);
     double SD(double x);
+    void replace(ProbabilisticFn *f);
 private:
     std::shared_ptr<SLAT::ProbabilisticFn> function;
     friend EDP *MakeEDP(IM base_wrate, ProbabilisticFn dependent_rate, std::string name);
diff --git a/src/pyslatcore.i b/src/pyslatcore.i
index 33250b2..ae016c2 100644
--- a/src/pyslatcore.i
+++ b/src/pyslatcore.i
@@ -59,6 +59,7 @@ enum INTEGRATION_TYPE { BINARY_SUBDIVISION,
 class DeterministicFn {
 public:
     double ValueAt(double v);
+    void replace(DeterministicFn *f);
 };
 
 DeterministicFn *factory3(FUNCTION_TYPE t, std::vector<double>x, std::vector<double> y);
@@ -73,6 +74,7 @@ public:
     double Median(double x);
     double SD_ln(double x);
     double SD(double x);
+    void replace(ProbabilisticFn *f);
 };
 
 ProbabilisticFn *MakeLogNormalProbabilisticFn(const DeterministicFn &mu_function,
-- 
2.43.0


From d9bd870fc635c089e857558c3aec0330f8bf15b8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:41:13 +0000
Subject: [PATCH 24/53] fix: what refers to a redefined object sees its new
 definition

---
 src/pyslat.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 77971bb..ea96275 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -20,6 +20,22 @@ def eprint(*args, **kwargs):
 
 pyslatcore.Initialise()
 
+## Record a new definition in a dictionary of definitions.
+# If 'id' is already defined, anything holding the object it refers to (a
+# recorder, or another definition) will see the new definition from now on.
+# @param defs The dictionary.
+# @param id The identifier.
+# @param new The new object.
+def _define(defs, id, new):
+    if id != None:
+        old = defs.get(id)
+        if old:
+            state = new.__dict__
+            new.__dict__ = old.__dict__
+            new.__dict__.clear()
+            new.__dict__.update(state)
+        defs[id] = new
+
 def ClearCaches():
     detfn.defs = dict()
     probfn.defs = dict()
@@ -399,7 +415,7 @@ class detfn:
             old = detfn.lookup(id)
             if old:
                 detfn.defs[id]._func.replace(self._func)
-            detfn.defs[id] = self
+            _define(detfn.defs, id, self)
 
     ## Return the detfn object with the corresponding id.
     # @param id The identifier provided to the constructor of a detfn object.
@@ -485,7 +501,7 @@ class probfn:
             old = probfn.lookup(id)
             if old:
                 probfn.defs[id]._func.replace(self._func)
-            probfn.defs[id] = self
+            _define(probfn.defs, id, self)
 
     ## Return the probfn object with the corresponding id.
     # @param id The identifier provided to the constructor of a probfn object.
@@ -595,7 +611,7 @@ class im:
             old = im.lookup(id)
             if old:
                 im.defs[id]._func.replace(self._func)
-            im.defs[id] = self
+            _define(im.defs, id, self)
 
     ## Return the 'max' value, which is used by the GUI as a hint
     ## for plotting IM-related functions.
@@ -734,7 +750,7 @@ class edp:
             old = edp.lookup(id)
             if old:
                 edp.defs[id]._func.replace(self._func)
-        edp.defs[id] = self
+            _define(edp.defs, id, self)
 
     ## Return the edp object with the corresponding id.
     #  @param id The identifier provided to the constructor of a edp object.
@@ -875,7 +891,7 @@ class fragfn:
             old = fragfn.lookup(id)
             if old:
                 fragfn.defs[id]._func.replace(self._func)
-            fragfn.defs[id] = self
+            _define(fragfn.defs, id, self)
             
 
     ## Return the fragfn object with the corresponding id.
@@ -989,7 +1005,7 @@ class lossfn:
             old = lossfn.lookup(id)
             if old:
                 lossfn.defs[id]._func.replace(self._func)
-            lossfn.defs[id] = self
+            _define(lossfn.defs, id, self)
             
             
     ## Return the lossfn object with the corresponding id.
@@ -1129,7 +1145,7 @@ class compgroup:
             old = compgroup.lookup(id)
             if old:
                 compgroup.defs[id]._func.replace(self._func)
-            compgroup.defs[id] = self
+            _define(compgroup.defs, id, self)
 
     ## Return the compgroup object with the corresponding id.
     #  @param id The identifier provided to the constructor of a compgroup object.
@@ -1269,8 +1285,7 @@ class structure:
         super().__init__()
         self._structure = MakeStructure()
         self._im = None
-        if id != None:
-            structure.defs[id] = self
+        _define(structure.defs, id, self)
 
     ## Return the structure object with the corresponding id.
     #  @param id The identifier provided to the constructor of a structure object.
-- 
2.43.0


From 85f258908e53b0b59cabf9aa877c74d9d74b4b43 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:41:13 +0000
Subject: [PATCH 25/53] fix: every EDP has a plotting hint

---
 src/pyslat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index ea96275..199f928 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -745,7 +745,7 @@ class edp:
             self._func = MakeCompoundEDP(im.function(), fn.function(), 
                                          fn2.function(), "{}".format(id))
 
-            self._plot_max = None
+        self._plot_max = None
         if id != None:
             old = edp.lookup(id)
             if old:
-- 
2.43.0


From 4de7f0bb7bec459ece8552552c41d49722251ded Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:41:13 +0000
Subject: [PATCH 26/53] fix: a component group may have no cost function or no
 delay function

---
 src/pyslat.py    | 6 ++++--
 src/pyslatcore.h | 1 +
 src/pyslatcore.i | 1 +
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 199f928..4ffec85 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -239,14 +239,16 @@ def MakeBiLevelLossFn(parameters):
 # components, and the name of the component group.
 # @param edp The EDP driving the components
 # @param frag_fn The fragility function of the component
-# @param cost_fn A loss function representing the repair cost
+# @param cost_fn An (optional) loss function representing the repair cost
 # @param delay_fn An (optional) loss funtion representing the time
 #                 to repair the component
 # @param count The number of components
 # @param name  The name of the component group
 def MakeCompGroup(edp, frag_fn, cost_fn, delay_fn, count, cost_adjustment_factor, delay_adjustment_factor, name):
+    if (cost_fn == None):
+        cost_fn = pyslatcore.LossFn()
     if (delay_fn == None):
-        delay_fn = MakeSimpleLossFn([DefaultLogNormalDist()])
+        delay_fn = pyslatcore.LossFn()
     return pyslatcore.MakeCompGroup(edp, frag_fn, cost_fn, delay_fn, count, 
                                     cost_adjustment_factor,
                                     delay_adjustment_factor,
diff --git a/src/pyslatcore.h b/src/pyslatcore.h
index 69f9cfc..0e99780 100644
--- a/src/pyslatcore.h
+++ b/src/pyslatcore.h
@@ -188,6 +188,7 @@ FragilityFn *MakeFragilityFn(std::vector<LogNormalDist *> distributions);
 
 class LossFn {
 public:
+    LossFn() {};
     LossFn(std::shared_ptr<SLAT::LossFn> function);
     int n_states();
     void replace(LossFn *lossfn);
diff --git a/src/pyslatcore.i b/src/pyslatcore.i
index ae016c2..3cd13b9 100644
--- a/src/pyslatcore.i
+++ b/src/pyslatcore.i
@@ -158,6 +158,7 @@ FragilityFn *MakeFragilityFn(std::vector<LogNormalDist *> distributions);
 
 class LossFn {
 public:
+    LossFn();
     LossFn(std::shared_ptr<SLAT::LossFn> function);
     int n_states();
     void replace(LossFn *lossfn);
-- 
2.43.0


From 6f50184c0e57057f686764de58d67c414365c28d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:41:13 +0000
Subject: [PATCH 27/53] fix: a component group can be added to a structure
 after its IM was redefined

---
 src/pyslat.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 4ffec85..0d91a46 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1317,14 +1317,12 @@ class structure:
     #
     # @todo Test that IM mis-matches are handled correctly.
     def AddCompGroup(self, group):
-        self._structure.AddCompGroup(group.function())
-        if self._im == None:
-            self._im = group.get_IM()
-        else:
-            if not(self._im == group.get_IM()):
-                raise ValueError("Component group tied to wrong IM " +
-                                 "(expected " + self._im + "; got " + 
-                                 group.get_IM() << ")");
+        try:
+            self._structure.AddCompGroup(group.function())
+        except ValueError:
+            raise ValueError("Component group '{}' tied to wrong IM (expected '{}'; got '{}')".format(
+                group.id(), self._im.id(), group.get_IM().id()))
+        self._im = group.get_IM()
 
     ## Remove a component group from the structure.
     #
-- 
2.43.0


From 10c20d56df1e5cc87fcfa6bfbd4ea53586a7cee5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:41:13 +0000
Subject: [PATCH 28/53] fix: the expected cost of a component group over a
 number of years is available

---
 src/pyslatcore.cpp | 6 ++++++
 src/pyslatcore.i   | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/pyslatcore.cpp b/src/pyslatcore.cpp
index 08fe2e5..5b9f8aa 100644
--- a/src/pyslatcore.cpp
+++ b/src/pyslatcore.cpp
@@ -696,6 +696,12 @@ double CompGroup::E_annual_cost(void)
     return wrapper->E_annual_cost();
 };
 
+double CompGroup::E_cost(int years, double discount_rate)
+{
+    double factor = discount_rate == 0 ? years : -expm1(-discount_rate * years) / discount_rate;
+    return factor * wrapper->E_annual_cost();
+};
+
 double CompGroup::lambda_cost(double cost)
 {
     return wrapper->lambda_cost(cost); 
diff --git a/src/pyslatcore.i b/src/pyslatcore.i
index 3cd13b9..cd8efe8 100644
--- a/src/pyslatcore.i
+++ b/src/pyslatcore.i
@@ -186,6 +186,7 @@ public:
     double E_Cost_IM(double edp);
     double SD_ln_Cost_IM(double edp);
     double E_annual_cost(void);
+    double E_cost(int years, double discount_rate);
     double E_Delay_EDP(double edp);
     double SD_ln_Delay_EDP(double edp);
     double E_Delay_IM(double edp);
-- 
2.43.0


From 671e546e065f98c28542f3252577f18b80a05360 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:41:13 +0000
Subject: [PATCH 29/53] fix: the description of a deterministic function names
 it

---
 src/pyslat.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 0d91a46..1aca127 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -440,10 +440,10 @@ class detfn:
     ## Return a string describing the detfn object.
     #  Used for debugging, warning, and error messages.
     def __str__(self):
-        return("Deterministic Function '{}', of type '{}', " +
-               "from parameters {}.".format(self._id, 
-                                            self._type,
-                                            self._parameters))
+        return(("Deterministic Function '{}', of type '{}', " +
+                "from parameters {}.").format(self._id, 
+                                              self._type,
+                                              self._parameters))
 
 ## Represents a probabilistic function.
 #
@@ -706,7 +706,7 @@ class im:
     #  Used for debugging, warning, and error messages.
     def __str__(self):
         if self._collapse:
-            return("Intensity measure '{}', based on the deterministic function '{}', with {}".format(self._id, self._detfn, self._collapse))
+            return("Intensity measure '{}', based on the deterministic function '{}', with {}".format(self._id, self._detfn.id(), self._collapse))
         else:
             return("Intensity measure '{}', based on the deterministic function '{}'.".format(self._id, self._detfn.id()))
 
-- 
2.43.0


From 3a4f68bfa12e1b56e7f757555cb4786d2d67b5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:41:13 +0000
Subject: [PATCH 30/53] fix: a range of values has the requested number of
 values, even if that is one

---
 src/pyslat.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 1aca127..bcf83eb 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -98,6 +98,8 @@ def frange(start, stop, step):
 # @param stop The ending value.
 # @param step The increment.
 def logrange(start, end, count):
+    if count == 1:
+        return [start]
     return(list(map(math.exp, 
              math.log(start) + np.arange(0, count, 1)
              * math.log(end/start)/(count - 1))))
@@ -107,7 +109,14 @@ def logrange(start, end, count):
 # @param stop The ending value.
 # @param step The increment.
 def linrange(start, end, count):
-    return(list(frange(start, end, (end - start)/(count - 1))))
+    if count == 1:
+        return [start]
+    result = []
+    x = start
+    for i in range(count):
+        result.append(x)
+        x += (end - start)/(count - 1)
+    return result
 
 
 ## Deterministic function types
-- 
2.43.0


From dacc3491c8560cfb4343c8f00b330d03c7dab731 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:42:12 +0000
Subject: [PATCH 31/53] fix: a recorder without a file name writes to the
 standard output

---
 src/pyslat.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index bcf83eb..8becf29 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1709,13 +1709,14 @@ class recorder:
     #  as required.
     def run(self):
         #print("RUN {}".format(self))
-        destination = full_output_path(self._options.get('filename'))
+        destination = self._options.get('filename')
         if destination != None:
+            destination = full_output_path(destination)
             if self._options.get('append'):
                 f = open(destination, "a")
             else:
                 f = open(destination, "w")
-            with redirect_stdout(f):
+            with f, redirect_stdout(f):
                 self.generate_output()
 
         else:
-- 
2.43.0


From 2745dbdeacf7bad52489372e92c4a185155eb28e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:42:12 +0000
Subject: [PATCH 32/53] fix: the deagg recorder reports the deaggregated costs

---
 src/pyslat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 8becf29..61bf914 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1628,11 +1628,11 @@ class recorder:
                         loss_rate = self._function.lambda_cost(x)
                         line = "{}{:>15.6}".format(line, loss_rate)
                     elif self._type == 'deagg':
-                        values = self._function.DeaggregatedLoss(x)
+                        values = self._function.DeaggregatedCost(x)
                         nc = values[0]
                         c = values[1]
                         line = "{}{:>15.6}{:>15.6}{:>15.6}{:>15.6}".format(
-                            x, 
+                            line,
                             nc.get_mean_X(), nc.get_sigma_lnX(), 
                             c.get_mean_X(), c.get_sigma_lnX())
                     elif not self._columns == None:
-- 
2.43.0


From 9e9929e7428091783cb0e9961969ee4006027b2a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:42:12 +0000
Subject: [PATCH 33/53] fix: the structcost recorder accepts mean_ln_x and
 median_x columns

---
 src/pyslat.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 61bf914..e49ddba 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1823,9 +1823,9 @@ class StructcostRecorder(recorder):
                     for y in self._columns:
                         if y == 'mean_x':
                             yval = dist.mean()
-                        elif y== 'mean_ln':
+                        elif y == 'mean_ln_x':
                             yval = dist.mean_ln()
-                        elif y== 'median':
+                        elif y == 'median_x':
                             yval = dist.median()
                         elif y == 'sd_ln_x':
                             yval = dist.sd_ln()
@@ -1871,9 +1871,9 @@ class StructcostRecorder(recorder):
                     for y in self._columns:
                         if y == 'mean_x':
                             yval = dist.mean()
-                        elif y== 'mean_ln':
+                        elif y == 'mean_ln_x':
                             yval = dist.mean_ln()
-                        elif y== 'median':
+                        elif y == 'median_x':
                             yval = dist.median()
                         elif y == 'sd_ln_x':
                             yval = dist.sd_ln()
@@ -1912,9 +1912,9 @@ class StructcostRecorder(recorder):
                     for y in self._columns:
                         if y == 'mean_x':
                             yval = dist.mean()
-                        elif y== 'mean_ln':
+                        elif y == 'mean_ln_x':
                             yval = dist.mean_ln()
-                        elif y== 'median':
+                        elif y == 'median_x':
                             yval = dist.median()
                         elif y == 'sd_ln_x':
                             yval = dist.sd_ln()
-- 
2.43.0


From 905e9083c9227f1e343efddc1da202c1b3b58d44 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:42:13 +0000
Subject: [PATCH 34/53] fix: the dsedp and dsim recorders write the damage
 states asked for

---
 src/pyslat.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index e49ddba..f4f61fe 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1484,11 +1484,10 @@ class recorder:
            and at==None:
             raise ValueError('MUST PROVIDE ''AT'' CLAUSE')
 
-        if (type =='dsedp' or type == 'dsim') and columns == None:
-            columns = []
-            for i in range(function.size()):
-                columns.append("DS{}".format(i + 1))
-            columns.append("E(DS)")
+        if type =='dsedp' or type == 'dsim':
+            for y in columns or []:
+                if not isinstance(y, int) or y < 1 or y > function.size():
+                    raise ValueError("Invalid damage state for recorder '{}': {}".format(id, y))
         elif (type == 'probfn' or type == 'edpim') and columns == None:
             columns = ['mean_ln_x', 'sd_ln_x']
         elif (type == 'costedp' or type =='costim' \
@@ -1568,7 +1567,13 @@ class recorder:
                     x_label = self._function.get_IM().id()
             y_label = labels[self._type][1]
 
-            if y_label:
+            if self._type == 'dsedp' or self._type == 'dsim':
+                if self._columns == None:
+                    states = range(1, self._function.size() + 1)
+                    y_label = ["DS{}".format(y) for y in states] + ["E(DS)"]
+                else:
+                    y_label = ["DS{}".format(y) for y in self._columns]
+            elif y_label:
                 if not isinstance(y_label, list):
                     y_label = [y_label];
             else:
@@ -1615,15 +1620,9 @@ class recorder:
                 for x in self._at:
                     line = "{:>15.6}".format(x)
                     if self._type == 'dsedp':
-                        yvals = self._function.fragfn().pExceeded(x)
-                        for y in yvals:
-                            line = "{}{:>15.6}".format(line, y)
-                        line = "{}{:>15.6}".format(line, sum(yvals))
+                        line = line + self._damage_states(self._function.fragfn().pExceeded(x))
                     elif self._type == 'dsim':
-                        yvals = self._function.pDS_IM(x)
-                        for y in yvals:
-                            line = "{}{:>15.6}".format(line, y)
-                        line = "{}{:>15.6}".format(line, sum(yvals))
+                        line = line + self._damage_states(self._function.pDS_IM(x))
                     elif self._type == 'costrate':
                         loss_rate = self._function.lambda_cost(x)
                         line = "{}{:>15.6}".format(line, loss_rate)
@@ -1704,6 +1703,15 @@ class recorder:
                         line = "{}{:>15.6}".format(line, yval)
                     print(line)
 
+    ## Format the columns of a 'dsedp' or 'dsim' recorder.
+    # @param yvals The probability for each damage state.
+    def _damage_states(self, yvals):
+        if self._columns == None:
+            yvals = list(yvals) + [sum(yvals)]
+        else:
+            yvals = [yvals[y - 1] for y in self._columns]
+        return "".join(["{:>15.6}".format(y) for y in yvals])
+
     ## Run the recorder.
     #  This invokes generate_output(), redirecting the output to a file
     #  as required.
-- 
2.43.0


From 072fa237b16b162ceed4e6eb455aa46f7fb143cf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:42:13 +0000
Subject: [PATCH 35/53] fix: the heading of the pdf recorder names the IM in
 full

---
 src/pyslat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index f4f61fe..b9c5233 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1957,7 +1957,7 @@ class PdfRecorder(recorder):
     ## Print the IM identifier and pdf
     #  including column headers.
     def generate_output(self):
-        print("{:>15.6}{:>15.6}".format(self._function.get_IM().id(), "pdf"))
+        print("{:>15}{:>15}".format(self._function.get_IM().id(), "pdf"))
         results = []
         max_pdf = 0
         for im in self._at:
-- 
2.43.0


From 8ed07d427b257ae63905245081004bc1752e87fc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:42:13 +0000
Subject: [PATCH 36/53] fix: the edpim recorder accepts probabilities as
 columns

---
 src/pyslat.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyslat.py b/src/pyslat.py
index b9c5233..f2c375d 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1607,6 +1607,10 @@ class recorder:
                         yvals.append(self._function.SD_ln(self._at))
                     elif y == 'sd_x':
                         yvals.append(self._function.SD(self._at))
+                    elif isinstance(y, numbers.Number):
+                        yvals.append([self._function.X_at_exceedence(x, y) for x in self._at])
+                    else:
+                        raise ValueError("Invalid column for an edpim recorder: {}".format(y))
                 for x, y in zip(self._at, map(list, zip(*yvals))):
                     line = "{:>15.6}".format(x)
                     for yval in y:
-- 
2.43.0


From 48c824b1cd37425a488a3f049bb8ddfb1ed1b12d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:42:13 +0000
Subject: [PATCH 37/53] fix: an imported function may have a single row of data

---
 src/pyslat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index f2c375d..516008b 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -2000,7 +2000,7 @@ def MakeRecorder(id, type, function, options, columns, at):
 # @return A pyslat.probfn constructed using the data in the file.
 def ImportProbFn(id, filename):
     filename = full_input_path(filename)
-    data = np.loadtxt(filename, skiprows=2)
+    data = np.loadtxt(filename, skiprows=2, ndmin=2)
     # Add a point at 0, 0 to support interpolation down to zero
     x = [0]
     mu = [0]
@@ -2038,7 +2038,7 @@ def ImportProbFn(id, filename):
 # @return A pyslat.im constructed using the data in the file.
 def ImportIMFn(id, filename):
     filename = full_input_path(filename)
-    data = np.loadtxt(filename, skiprows=2)
+    data = np.loadtxt(filename, skiprows=2, ndmin=2)
     x = []
     y = []
     for d in data:
-- 
2.43.0


From 562772d4758754de769059c360d9685d5b14bce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:00 +0000
Subject: [PATCH 38/53] fix: the loglog and linear functions can be used in a
 SLAT script

---
 src/SlatInterpreter.py | 24 ++++++++++++------------
 src/slatLexer.g4       |  2 +-
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index f9b4b35..c825d15 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -88,7 +88,7 @@ class SlatInterpreter(slatParserListener):
             type = 'loglog'
             fntype = pyslat.FUNCTION_TYPE.LOGLOG
         elif ctx.linear_args():
-            type = 'lin'
+            type = 'linear'
             fntype = pyslat.FUNCTION_TYPE.LIN
         else:
             raise ValueError("Unhandled DETFN type.")
@@ -96,10 +96,7 @@ class SlatInterpreter(slatParserListener):
 
         id = ctx.ID().getText()
         print(type)
-        if type == 'loglog' or type == 'lin':
-            pyslat.detfn(id, type, value[0], value[1])
-        else:
-            pyslat.detfn(id, type, value)
+        pyslat.detfn(id, type, value)
 
     ## Enter a parse tree produced by slatParser#loglog
     def enterLoglog_args(self, ctx:slatParser.Loglog_argsContext):
@@ -108,13 +105,16 @@ class SlatInterpreter(slatParserListener):
     ## Exit a parse tree produced by slatParser#loglog
     def exitLoglog_args(self, ctx:slatParser.Loglog_argsContext):
         values = self._pop_stack()
-        # Put x and y values into separate lists:
-        x_values = []
-        y_values = []
-        for pair in values:
-            x_values.append(pair[0])
-            y_values.append(pair[1])
-        self._stack.append([x_values, y_values])
+        self._stack.append(values)
+
+    ## Enter a parse tree produced by slatParser#linear_args
+    def enterLinear_args(self, ctx:slatParser.Linear_argsContext):
+        self._push_stack()
+
+    ## Exit a parse tree produced by slatParser#linear_args
+    def exitLinear_args(self, ctx:slatParser.Linear_argsContext):
+        values = self._pop_stack()
+        self._stack.append(values)
 
     ## Exit a parse tree produced by slatParser#scalar.
     def exitScalar(self, ctx:slatParser.ScalarContext):
diff --git a/src/slatLexer.g4 b/src/slatLexer.g4
index 2ceee88..21cc4f0 100644
--- a/src/slatLexer.g4
+++ b/src/slatLexer.g4
@@ -86,7 +86,7 @@ STRING : SINGLE_QUOTED_STRING | DOUBLE_QUOTED_STRING ;
 
 HYPERBOLIC: 'hyperbolic';
 POWERLAW: 'powerlaw';
-LOGLOG: ' loglog';
+LOGLOG: 'loglog';
 LINEAR: 'linear';
 LINFLAG: '--linear';
 LOGFLAG: '--log';
-- 
2.43.0


From df04980944562a2b80b4a7fe0f9c1da53e0ff6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:00 +0000
Subject: [PATCH 39/53] fix: the --mu and --sd options have the documented
 defaults

---
 src/SlatInterpreter.py | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index c825d15..b118e71 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -280,8 +280,8 @@ class SlatInterpreter(slatParserListener):
             else:
                 raise ValueError("Unhandled Lognormal option")
         else:
-            mu = None
-
+            # By default, the parameters describe the log of the distribution
+            mu = pyslat.LOGNORMAL_MU_TYPE.MEAN_LN_X
 
         if ctx.sd_option():
             if ctx.sd_option().SD_X():
@@ -293,8 +293,8 @@ class SlatInterpreter(slatParserListener):
             else:
                 raise ValueError("Unhandled Lognormal option")
         else:
-            sd = None
-            
+            sd = pyslat.LOGNORMAL_SIGMA_TYPE.SD_LN_X
+
         self._stack.append({"mu": mu, "sd":sd})
 
     ## Exit a parse tree produced by slatParser#lossfn_command.
@@ -579,23 +579,20 @@ class SlatInterpreter(slatParserListener):
                 
             elif ctx.ANNUAL_FLAG():
                 options['structcost-type'] = 'annual'
-                cols = []
-                for key, value in self._stack.pop().items():
-                    if key == 'mu':
-                        if value == pyslat.LOGNORMAL_MU_TYPE.MEAN_LN_X:
-                            c = "mean_ln_x"
-                        elif value == pyslat.LOGNORMAL_MU_TYPE.MEAN_X:
-                            c = "mean_x"
-                        elif value == pyslat.LOGNORMAL_MU_TYPE.MEDIAN_X:
-                            c = "median_x"
-                        cols.append(c)
-                    elif key == 'sd':
-                        if value == pyslat.LOGNORMAL_SIGMA_TYPE.SD_LN_X:
-                            c = "sd_ln_x"
-                        elif value == pyslat.LOGNORMAL_SIGMA_TYPE.SD_X:
-                            c = "sd_x"
-                        cols.append(c)
-                cols.sort()
+                self._stack.pop()
+                # By default, report mean_x and sd_ln_x
+                mu = ctx.lognormal_options().mu_option()
+                sd = ctx.lognormal_options().sd_option()
+                if mu and mu.MEAN_LN_X():
+                    cols = ["mean_ln_x"]
+                elif mu and mu.MEDIAN_X():
+                    cols = ["median_x"]
+                else:
+                    cols = ["mean_x"]
+                if sd and sd.SD_X():
+                    cols.append("sd_x")
+                else:
+                    cols.append("sd_ln_x")
                 
         id = ctx.ID().getText()
 
-- 
2.43.0


From 1bb3fdcaa216d14d8b929d7ac0047df8fe6b5a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:00 +0000
Subject: [PATCH 40/53] fix: the integration command accepts variables and
 expressions for its limits

---
 src/SlatInterpreter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index b118e71..4b98586 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -491,6 +491,7 @@ class SlatInterpreter(slatParserListener):
                                  ctx.integration_search_option().getText())
             pyslat.Set_Integration_Method(search_method)
 
+            # The last value on the stack, unless it is an integer constant
             if ctx.integration_search_option().INTEGER():
                 pyslat.Set_Integration_Search_Limit(ctx.integration_search_option().INTEGER().getText())
             else:
@@ -501,12 +502,13 @@ class SlatInterpreter(slatParserListener):
             methodstring = "MAQ"
         else:
             raise ValueError("Unhandled integration type")
-        precision = self._stack.pop()
-        
+        # The precision precedes the number of iterations on the stack
         if ctx.INTEGER():
             iterations = int(ctx.INTEGER().getText())
         else:
             iterations = self._stack.pop()
+        precision = self._stack.pop()
+
         # TODO: Implement choice of methods
         pyslat.IntegrationSettings(precision, iterations);
         
-- 
2.43.0


From 42b2705c74da530f605ad140ba2e1c7a063ecf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:00 +0000
Subject: [PATCH 41/53] fix: quotes and backslashes in strings are preserved

---
 src/SlatInterpreter.py | 5 +++--
 src/slatLexer.g4       | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index 4b98586..17f3a4b 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -19,9 +19,10 @@ from contextlib import redirect_stdout
 
 ## Pre-process input string
 #
-#  Escape quotes.
+#  Remove the enclosing quotes, and replace the escape sequences for quotes and
+#  backslashes.
 def preprocess_string(s):        
-    return s.strip('\'"').replace('\\\"', '\"').replace('\\\'', '\'').replace('\\\\', '\\')
+    return re.sub(r'''\\(["'\\])''', r'\1', s[1:-1])
 
 ## Interpreter class
 #
diff --git a/src/slatLexer.g4 b/src/slatLexer.g4
index 21cc4f0..f3439cd 100644
--- a/src/slatLexer.g4
+++ b/src/slatLexer.g4
@@ -134,7 +134,7 @@ fragment
 SINGLE_QUOTE : '\'';
 
 fragment
-SQ_UNESCAPED_CHAR : ~['];
+SQ_UNESCAPED_CHAR : ~[\\'];
 
 fragment
 SQ_ESCAPED_CHAR : '\\\'' | '\\\\';
-- 
2.43.0


From b608711d32310021be0b2fa97b141d5e4bfdc8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:00 +0000
Subject: [PATCH 42/53] fix: the keys of a dictionary in a SLAT script are
 strings

---
 src/SlatInterpreter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index 17f3a4b..25f7163 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -193,7 +193,10 @@ class SlatInterpreter(slatParserListener):
 
     ## Exit a parse tree produced by slatParser#dictionary_entry.
     def exitDictionary_entry(self, ctx:slatParser.Dictionary_entryContext):
-        key = (ctx.ID() or preprocess_string(ctx.STRING()).getText())
+        if ctx.ID():
+            key = ctx.ID().getText()
+        else:
+            key = preprocess_string(ctx.STRING().getText())
         value = self._stack.pop()
         self._stack.append([key, value])
 
-- 
2.43.0


From 2465012aee3eb083a69609d30936678eb30afa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:18 +0000
Subject: [PATCH 43/53] fix: a SLAT script that refers to something undefined
 is refused

---
 src/SlatInterpreter.py | 63 +++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 26 deletions(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index 25f7163..66f3d71 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -24,6 +24,17 @@ from contextlib import redirect_stdout
 def preprocess_string(s):        
     return re.sub(r'''\\(["'\\])''', r'\1', s[1:-1])
 
+## Find a defined object
+#
+#  @param kind The class of object to look for.
+#  @param id The object's identifier.
+#  @return The object; if there isn't one, raise a ValueError.
+def lookup(kind, id):
+    result = kind.lookup(id)
+    if result is None:
+        raise ValueError("There is no {} called '{}'.".format(kind.__name__, id))
+    return result
+
 ## Interpreter class
 #
 # Based on the slatParserListener class, created by antlr.
@@ -210,13 +221,13 @@ class SlatInterpreter(slatParserListener):
         mu = options['mu']
         sd = options['sd']
 
-        pyslat.probfn(id, 'lognormal', [mu, pyslat.detfn.lookup(mufn)], [sd, pyslat.detfn.lookup(sigmafn)])
+        pyslat.probfn(id, 'lognormal', [mu, lookup(pyslat.detfn, mufn)], [sd, lookup(pyslat.detfn, sigmafn)])
 
     ## Exit a parse tree produced by slatParser#im_command.
     def exitIm_command(self, ctx:slatParser.Im_commandContext):
         im_id = ctx.ID(0).getText()
         fn_id = ctx.ID(1).getText()
-        pyslat.im(im_id, pyslat.detfn.lookup(fn_id))
+        pyslat.im(im_id, lookup(pyslat.detfn, fn_id))
 
     def exitCollapse_command(self, ctx:slatParser.Collapse_commandContext):
         id = ctx.ID().getText()
@@ -226,7 +237,7 @@ class SlatInterpreter(slatParserListener):
         sd = params[1]
 
         dist = pyslat.MakeLogNormalDist(mu, options['mu'], sd, options['sd'])
-        pyslat.im.lookup(id).SetCollapse(dist)
+        lookup(pyslat.im, id).SetCollapse(dist)
 
     def exitDemolition_command(self, ctx:slatParser.Demolition_commandContext):
         id = ctx.ID().getText()
@@ -236,14 +247,14 @@ class SlatInterpreter(slatParserListener):
         sd = params[1]
 
         dist = pyslat.MakeLogNormalDist(mu, options['mu'], sd, options['sd'])
-        pyslat.im.lookup(id).SetDemolition(dist)
+        lookup(pyslat.im, id).SetDemolition(dist)
 
     ## Exit a parse tree produced by slatParser#edp_command.
     def exitEdp_command(self, ctx:slatParser.Edp_commandContext):
         edp_id = ctx.ID(0).getText()
         im_id = ctx.ID(1).getText()
         fn_id = ctx.ID(2).getText()
-        pyslat.edp(edp_id, pyslat.im.lookup(im_id), pyslat.probfn.lookup(fn_id))
+        pyslat.edp(edp_id, lookup(pyslat.im, im_id), lookup(pyslat.probfn, fn_id))
 
     ## Exit a parse tree produced by slatParser#fragfn_command.
     def exitFragfn_command(self, ctx:slatParser.Fragfn_commandContext):
@@ -363,10 +374,10 @@ class SlatInterpreter(slatParserListener):
             delay_adj_factor = float(floats[1].getText())
 
         pyslat.compgroup(compgroup_id,
-                         pyslat.edp.lookup(edp_id),
-                         pyslat.fragfn.lookup(frag_id),
-                         pyslat.lossfn.lookup(cost_id),
-                         delay_id and pyslat.lossfn.lookup(delay_id),
+                         lookup(pyslat.edp, edp_id),
+                         lookup(pyslat.fragfn, frag_id),
+                         lookup(pyslat.lossfn, cost_id),
+                         delay_id and lookup(pyslat.lossfn, delay_id),
                          count,
                          cost_adj_factor,
                          delay_adj_factor)
@@ -379,7 +390,7 @@ class SlatInterpreter(slatParserListener):
         groups = []
         for g in ctx.id_list().ID():
             groups.append(g.getText())
-            s.AddCompGroup(pyslat.compgroup.lookup(g.getText()))
+            s.AddCompGroup(lookup(pyslat.compgroup, g.getText()))
         print("Create structure {} from {}.".format(id, groups));
         
     ## Exit a parse tree prodcued by slatParser#rebuild_cost_command.
@@ -389,7 +400,7 @@ class SlatInterpreter(slatParserListener):
         params = self._stack.pop()
         mu = params[0]
         sd = params[1]
-        pyslat.structure.lookup(id).setRebuildCost(pyslat.MakeLogNormalDist(mu, options['mu'], sd, options['sd']))
+        lookup(pyslat.structure, id).setRebuildCost(pyslat.MakeLogNormalDist(mu, options['mu'], sd, options['sd']))
 
     def exitDemolitioncost_command(self, ctx:slatParser.Demolitioncost_commandContext):
         id = ctx.ID().getText()
@@ -397,7 +408,7 @@ class SlatInterpreter(slatParserListener):
         params = self._stack.pop()
         mu = params[0]
         sd = params[1]
-        pyslat.structure.lookup(id).setDemolitionCost(pyslat.MakeLogNormalDist(mu, options['mu'], sd, options['sd']))
+        lookup(pyslat.structure, id).setDemolitionCost(pyslat.MakeLogNormalDist(mu, options['mu'], sd, options['sd']))
         
     
     ## Exit a parse tree produced by slatParser#print_command.
@@ -414,19 +425,19 @@ class SlatInterpreter(slatParserListener):
             
             fntype = ctx.print_function()
             if fntype.DETFN():
-                object = pyslat.detfn.lookup(id)
+                object = lookup(pyslat.detfn, id)
             elif fntype.PROBFN():
-                object = pyslat.probfn.lookup(id)
+                object = lookup(pyslat.probfn, id)
             elif fntype.IM():
-                object = pyslat.im.lookup(id)
+                object = lookup(pyslat.im, id)
             elif fntype.EDP():
-                object = pyslat.edp.lookup(id)
+                object = lookup(pyslat.edp, id)
             elif fntype.FRAGFN():
-                object = pyslat.fragfn.lookup(id)
+                object = lookup(pyslat.fragfn, id)
             elif fntype.LOSSFN():
-                object = pyslat.lossfn.lookup(id)
+                object = lookup(pyslat.lossfn, id)
             elif fntype.COMPGROUP():
-                object = pyslat.compgroup.lookup(id)
+                object = lookup(pyslat.compgroup, id)
             else:
                 object = 'unknown'
         elif ctx.print_title():
@@ -603,22 +614,22 @@ class SlatInterpreter(slatParserListener):
         id = ctx.ID().getText()
 
         if type == "dsrate" or type == 'dsedp' or type == 'dsim':
-            function = pyslat.compgroup.lookup(id)
+            function = lookup(pyslat.compgroup, id)
         elif type == 'detfn':
-            function = pyslat.detfn.lookup(id)
+            function = lookup(pyslat.detfn, id)
         elif type == 'probfn':
-            function = pyslat.probfn.lookup(id)
+            function = lookup(pyslat.probfn, id)
         elif type == 'imrate' or type == 'collapse' or type == 'collrate':
-            function = pyslat.im.lookup(id)
+            function = lookup(pyslat.im, id)
         elif type == 'edpim' or type == 'edprate':
-            function = pyslat.edp.lookup(id)
+            function = lookup(pyslat.edp, id)
         elif type == 'lossds' or type == 'costedp' or type == 'costim' \
              or type == 'delayedp' or type == 'delayim' \
              or type == 'anncost' \
              or type == 'costrate':
-            function = pyslat.compgroup.lookup(id)
+            function = lookup(pyslat.compgroup, id)
         elif type == 'structcost' or type == 'deagg' or type == 'totalcost' or type == 'pdf':
-            function = pyslat.structure.lookup(id)
+            function = lookup(pyslat.structure, id)
         else:
             raise ValueError("Unhandled recorder type")
 
-- 
2.43.0


From 3189134f98ad5fe3818afe86e474b54745e84219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:18 +0000
Subject: [PATCH 44/53] fix: a list of columns in a variable is accepted by
 --cols

---
 src/SlatInterpreter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index 66f3d71..3b51c07 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -683,7 +683,13 @@ class SlatInterpreter(slatParserListener):
 
     ## Exit a parse tree produced by slatParser#recorder_cols.
     def exitRecorder_cols(self, ctx:slatParser.Recorder_colsContext):
-        values = self._pop_stack()
+        values = []
+        for value in self._pop_stack():
+            # A variable or expression may stand for several columns
+            if isinstance(value, (list, tuple, np.ndarray)):
+                values.extend(value)
+            else:
+                values.append(value)
         self._stack.append(values)
 
     ## Exit a parse tree produced by slatParser#python_script.
-- 
2.43.0


From e76ab6655ee65cd25e74494d54261deb736fc288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:18 +0000
Subject: [PATCH 45/53] fix: a number may start with a decimal point

---
 src/slatLexer.g4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/slatLexer.g4 b/src/slatLexer.g4
index f3439cd..29288fe 100644
--- a/src/slatLexer.g4
+++ b/src/slatLexer.g4
@@ -157,8 +157,8 @@ Digit : [0-9];
 
 INTEGER : [0-9]+;
     
-ID :   Nondigit (Nondigit | Digit)*;
 FLOAT_VAL: SIGN? FRACTION EXPONENT?;
+ID :   Nondigit (Nondigit | Digit)*;
 
 fragment
 SIGN: '-' | '+';
-- 
2.43.0


From 051124b7c68a0777ee01961002018bf5c0b228d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:31 +0000
Subject: [PATCH 46/53] fix: the functions of a probfn can be named by
 variables

---
 src/SlatInterpreter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index 3b51c07..0c06e26 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -215,9 +215,10 @@ class SlatInterpreter(slatParserListener):
     def exitProbfn_command(self, ctx:slatParser.Probfn_commandContext):
         id = ctx.ID().getText()
         refs = ctx.function_ref()
-        mufn = (refs[0].ID() or refs[0].var_ref()).getText() 
-        sigmafn = (refs[1].ID() or refs[1].var_ref()).getText()
         options = self._stack.pop()
+        # The values of variables are on the stack
+        sigmafn = refs[1].ID().getText() if refs[1].ID() else self._stack.pop()
+        mufn = refs[0].ID().getText() if refs[0].ID() else self._stack.pop()
         mu = options['mu']
         sd = options['sd']
 
-- 
2.43.0


From 90f841c055aa0e707fa796e47e97fa2ee9cb087b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:35 +0000
Subject: [PATCH 47/53] fix: the data of an interpolated function in a SLAT
 script is split into x and y values

---
 src/SlatInterpreter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index 0c06e26..14654b7 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -117,7 +117,9 @@ class SlatInterpreter(slatParserListener):
     ## Exit a parse tree produced by slatParser#loglog
     def exitLoglog_args(self, ctx:slatParser.Loglog_argsContext):
         values = self._pop_stack()
-        self._stack.append(values)
+        # Put x and y values into separate lists:
+        self._stack.append([[pair[0] for pair in values],
+                            [pair[1] for pair in values]])
 
     ## Enter a parse tree produced by slatParser#linear_args
     def enterLinear_args(self, ctx:slatParser.Linear_argsContext):
@@ -126,7 +128,9 @@ class SlatInterpreter(slatParserListener):
     ## Exit a parse tree produced by slatParser#linear_args
     def exitLinear_args(self, ctx:slatParser.Linear_argsContext):
         values = self._pop_stack()
-        self._stack.append(values)
+        # Put x and y values into separate lists:
+        self._stack.append([[pair[0] for pair in values],
+                            [pair[1] for pair in values]])
 
     ## Exit a parse tree produced by slatParser#scalar.
     def exitScalar(self, ctx:slatParser.ScalarContext):
-- 
2.43.0


From 8b2c1b490669c8319f26f2f1e62940896e65ae83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:27 +0000
Subject: [PATCH 48/53] fix: a recorder accepts an array of values

---
 src/pyslat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 516008b..7928af1 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1476,12 +1476,12 @@ class recorder:
         self._function = function
         self._options = options
         self._at = at
-        if at != None:
+        if at is not None:
             self._at = list(at)
 
         if not type == 'dsrate' and not type == 'collrate' \
            and not type == 'structcost' \
-           and at==None:
+           and at is None:
             raise ValueError('MUST PROVIDE ''AT'' CLAUSE')
 
         if type =='dsedp' or type == 'dsim':
@@ -1764,7 +1764,7 @@ class StructcostRecorder(recorder):
         print("columns: ", columns)
         print("at: ", at)
         if  (not options['structcost-type'] == 'annual') \
-            and at==None:
+            and at is None:
             raise ValueError('MUST PROVIDE ''AT'' CLAUSE')
 
         if columns == None or len(columns) == 0:
-- 
2.43.0


From 2750bca38ac09c4eb1a79855fc203a42b3e667c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:36 +0000
Subject: [PATCH 49/53] fix: a recorder accepts values that are integers

---
 src/pyslat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyslat.py b/src/pyslat.py
index 7928af1..6509f59 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1478,6 +1478,8 @@ class recorder:
         self._at = at
         if at is not None:
             self._at = list(at)
+            if options.get('structcost-type') != 'npv':
+                self._at = [float(x) for x in self._at]
 
         if not type == 'dsrate' and not type == 'collrate' \
            and not type == 'structcost' \
-- 
2.43.0


From 82edf9e9504415528097374d6f7e217be1263594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:44 +0000
Subject: [PATCH 50/53] fix: a pdf that is zero everywhere can be normalised

---
 src/pyslat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 6509f59..6afd6a3 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1973,7 +1973,7 @@ class PdfRecorder(recorder):
                 max_pdf = pdf
 
         if self._options.get('normalise', None):
-            divisor = max_pdf
+            divisor = max_pdf or 1.0
         else:
             divisor = 1.0
 
-- 
2.43.0


From 029f64f21a9f9e74a07de9823b6e4b4708b2d801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:11 +0000
Subject: [PATCH 51/53] fix: a SLAT script with characters that are not part of
 the language is refused

---
 src/SlatInterpreter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index 14654b7..e239a5f 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -7,6 +7,7 @@ import sys
 import io
 import re
 from antlr4 import *
+from antlr4.error.ErrorListener import ErrorListener
 from slatLexer import slatLexer
 from slatParser import slatParser
 from slatParserListener import slatParserListener
@@ -751,6 +752,11 @@ class SlatInterpreter(slatParserListener):
         filename = (ctx.file_spec().FILE_NAME() or ctx.file_spec().ID()).getText().strip('\'"')
         pyslat.set_output_directory(filename)
         
+## Refuses characters that are not part of the language.
+class RefuseInput(ErrorListener):
+    def syntaxError(self, recognizer, offendingSymbol, line, column, msg, e):
+        raise ValueError("line {}:{} {}".format(line, column, msg))
+
 def main(argv):
     for file in argv[1:]:
         print("File:", file)
@@ -760,6 +766,8 @@ def main(argv):
 
         input = InputStream(text)
         lexer = slatLexer(input)
+        lexer.removeErrorListeners()
+        lexer.addErrorListener(RefuseInput())
         stream = CommonTokenStream(lexer)
         parser = slatParser(stream)
         parser._errHandler = BailErrorStrategy()
-- 
2.43.0


From 3a320b810fecace6870aec65300de95fc245fa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:27 +0000
Subject: [PATCH 52/53] fix: a reference to a variable that was never set is
 refused

---
 src/SlatInterpreter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index e239a5f..6983b13 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -157,8 +157,9 @@ class SlatInterpreter(slatParserListener):
     ## Exit a parse tree produced by slatParser#var_ref.
     def exitVar_ref(self, ctx:slatParser.Var_refContext):
         variable = ctx.ID().getText()
-        value = self._variables.get(variable)
-        self._stack.append(value)
+        if not variable in self._variables:
+            raise ValueError("There is no variable called '{}'.".format(variable))
+        self._stack.append(self._variables[variable])
 
     ## Exit a parse tree produced by slatParser#numerical_scalar.
     def exitNumerical_scalar(self, ctx:slatParser.Numerical_scalarContext):
-- 
2.43.0


From 5ec33c43758c284b40e3fa4d0aae63649c1197d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:27 +0000
Subject: [PATCH 53/53] fix: the headings of a recorder's columns are kept
 apart

---
 src/pyslat.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 6afd6a3..1de9495 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1583,7 +1583,7 @@ class recorder:
                       
             line = "{:>15}".format(x_label)
             for y in y_label:
-                    line = "{}{:>15}".format(line, y)
+                    line = "{} {:>14}".format(line, y)
             print(line)
 
 
@@ -1790,7 +1790,7 @@ class StructcostRecorder(recorder):
             line2 = ""
             annual_loss = self._function.AnnualCost()
             for y_label in self._columns:
-                line1 = "{}{:>15}".format(line1, y_label)
+                line1 = "{} {:>14}".format(line1, y_label)
                 if y_label=='mean_x':
                     value = annual_loss.mean()
                 elif y_label=='mean_ln_x':
@@ -1819,7 +1819,7 @@ class StructcostRecorder(recorder):
             line = "{:>15}".format(x_label)
             for c in categories:
                 for y in y_label:
-                    line = "{}{:>15}".format(line, "{}.{}".format(c, y))
+                    line = "{} {:>14}".format(line, "{}.{}".format(c, y))
             print(line)
 
             for x in self._at:
@@ -1867,7 +1867,7 @@ class StructcostRecorder(recorder):
             line = "{:>15}".format(x_label)
             for c in categories:
                 for y in y_label:
-                    line = "{}{:>20}".format(line, "{}.{}".format(c, y))
+                    line = "{} {:>19}".format(line, "{}.{}".format(c, y))
             print(line)
 
             for x in self._at:
@@ -1908,7 +1908,7 @@ class StructcostRecorder(recorder):
             line = "{:>15}".format(x_label)
             for f in fates:
                 for y in y_label:
-                    line = "{}{:>15}".format(line, "{}.{}".format(f, y))
+                    line = "{} {:>14}".format(line, "{}.{}".format(f, y))
             print(line)
 
             for x in self._at:
@@ -1963,7 +1963,7 @@ class PdfRecorder(recorder):
     ## Print the IM identifier and pdf
     #  including column headers.
     def generate_output(self):
-        print("{:>15}{:>15}".format(self._function.get_IM().id(), "pdf"))
+        print("{:>15} {:>14}".format(self._function.get_IM().id(), "pdf"))
         results = []
         max_pdf = 0
         for im in self._at:
-- 
2.43.0

