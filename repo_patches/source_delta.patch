From e13c1d66a6ea1762266442839597cf718501254e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 01/31] fix: caches wait for, survive failure of, and don't
 keep stale calculations in process

Once a CachedValue had been cleared, callers arriving while it was being
recalculated got the old value instead of waiting for the new one. If the
calculation threw an exception, the next request for the same value waited
for ever. ClearCache() didn't take the lock, and a calculation already in
process when the cache was cleared was saved as if it were up to date.
---
 src/caching.h | 291 ++++++++++++++++++++++++++------------------------
 1 file changed, 154 insertions(+), 137 deletions(-)

diff --git a/src/caching.h b/src/caching.h
index df6ee91..e418c24 100644
--- a/src/caching.h
+++ b/src/caching.h
@@ -21,11 +21,11 @@
 
 #include <unordered_map>
 #include <functional>
+#include <memory>
 #include <iostream>
 #include <iomanip>
 #include <string>
 #include <omp.h>
-#include <signal.h>
 #include <cmath>
 #include <boost/log/trivial.hpp>
 #include <sstream>
@@ -162,57 +162,51 @@ namespace SLAT {
                  * template with a non-numeric parameter type.
                  */
                 if (cache_active && !std::isnan(v)) {
+                    while (true) {
+                        /*
+                         * Use find() to check whether the value we're after
+                         * has been cached. If we just try to look up the value
+                         * instead (e.g., refer to cache[v]), it will be
+                         * inserted if it doesn't already exist.
+                         */
+                        auto cached = cache.find(v);
+                        if (cached != cache.end()) {
+                            // Record cache hit
+                            hits++;
+                            T result = cached->second;
+                            omp_unset_lock(&lock);
+                            return result;
+                        }
 
-                    /*
-                     * It may look like this code could be shortened, but the
-                     * use of temporary variables are necessary to correctly
-                     * support parallel processing.
-                     *
-                     * Use count() to check whether the value we're after has
-                     * been cached. If we just try to look up the value instead
-                     * (e.g., refer to cache[v]), it will be inserted if it
-                     * doesn't already exist.
-                     */
-                    bool cached = cache.count(v) != 0;
-
-                    if (!cached) {
                         /*
                          * The value isn't cached, so we need to calculate
                          * it. For efficiency, we only want to calculate it
                          * once. We use a map 'in_process' to record which
                          * values are being actively calculated at a given
-                         * time. Each entry in 'in_process' has a lock and a
-                         * count.
+                         * time. Each entry in 'in_process' has a lock, which
+                         * is held until the calculation is complete.
                          */
-                        bool happening = in_process.count(v) != 0;
-                        if (happening) {
+                        auto happening = in_process.find(v);
+                        if (happening != in_process.end()) {
                             /*
                              *  The calculation is already being
-                             *  performed. Increment the count, release the lock
-                             *  for this object, and then take corresponding
+                             *  performed. Release the lock for this object,
+                             *  and then wait for the corresponding
                              *  'in_process' lock.
                              */
-                            in_process[v].count++;
-                            omp_lock_t *calc_lock = &in_process[v].lock;
+                            std::shared_ptr<WAITING> entry = happening->second;
                             omp_unset_lock(&lock);
-                            omp_set_lock(calc_lock);
+                            omp_set_lock(&entry->lock);
+                            omp_unset_lock(&entry->lock); // Release for anyone else who's waiting
 
+                            if (entry->done) {
+                                return entry->result;
+                            }
                             /*
-                             * Once we have calc_lock, we know the value is in
-                             * the cache. Wait for the object lock, then
-                             * decrement the 'in_process' count for the
-                             * requested value. If it isn't zero, there's
-                             * someone else waiting, so release the lock. If
-                             * we're the last one, erase the appropriate
-                             * 'in_process' element.
+                             * The calculation failed (it threw an exception);
+                             * start again.
                              */
                             omp_set_lock(&lock);
-                            in_process[v].count--;
-                            if (in_process[v].count > 0) {
-                                omp_unset_lock(&in_process[v].lock);
-                            } else {
-                                in_process.erase(v);
-                            }
                         } else {
                             /*
                              * We're the first one to request this
@@ -220,55 +214,23 @@ namespace SLAT {
                              * release the object while the calculation is
                              * performed.
                              */
-                            omp_init_lock(&in_process[v].lock);
-                            omp_set_lock(&in_process[v].lock);
-                            in_process[v].count = 0;
+                            std::shared_ptr<WAITING> entry = std::make_shared<WAITING>();
+                            omp_set_lock(&entry->lock);
+                            in_process[v] = entry;
                             omp_unset_lock(&lock);
 
-                            T result = func(v);  // Perform calculation
-                            
-                            omp_set_lock(&lock); // Get object lock
-                            
-                            /*
-                             * This is a sanity check. If when we get here, the
-                             * value is in the cache already, something is wrong
-                             * with the synchronisation in this code. That is,
-                             * somebody else wanted the same result, and
-                             * calculated it instead of waiting for us.
-                             */
-                            if (cache.count(v) != 0) {
-                                std::cout << "DUPLICATE (f): " << name << " at " << v << std::endl;
-                                std::cout << in_process[v].count << std::endl;
-                                raise(SIGINT);
-                            }
-
-                            cache[v] = result; // Save the result
-
-                            /*
-                             * If no one else is interested in the result,
-                             * remove the 'in_process' entry; otherwise, release
-                             * the 'in_process' lock to signal other interested
-                             * parties.
-                             */
-                            if (in_process[v].count == 0) {
-                                in_process.erase(v);
-                            } else {
-                                omp_unset_lock(&in_process[v].lock);
+                            try {
+                                entry->result = func(v);  // Perform calculation
+                                entry->done = true;
+                            } catch (...) {
+                                // Allow others to try, and let our caller know
+                                Finish(v, entry);
+                                throw;
                             }
+                            Finish(v, entry);
+                            return entry->result;
                         }
-                    } else {
-                        // Record cache hit
-                        hits++;
                     }
-                    
-                    /*
-                     * At this point, the value is in the cache; grab it before
-                     * releasing the object lock, then return the value.
-                     */
-                    T result = cache[v];
-                    omp_unset_lock(&lock);
-                    //Context::PopText();
-                    return result;
                 } else {
                     /*
                      *  Cache disabled, or parameter is NAN; always evaluate
@@ -285,7 +247,14 @@ namespace SLAT {
              * Clear the cache for just this object.
              */
             void ClearCache(void) {
+                omp_set_lock(&lock);
                 cache.clear(); 
+                /*
+                 * Calculations currently in process may be based on data which
+                 * is no longer valid, so forget about them as well.
+                 */
+                in_process.clear();
+                omp_unset_lock(&lock);
             };
         private:
             /// This will perform the calculation that we're caching.
@@ -302,12 +271,35 @@ namespace SLAT {
 
             /// Structure for recording calcuations in process.
             struct WAITING {
-                omp_lock_t lock; ///< Lock for this record
-                int count;       ///< Count of waiting clients
+                WAITING() : done(false) { omp_init_lock(&lock); };
+                ~WAITING() { omp_destroy_lock(&lock); };
+                WAITING(const WAITING &) = delete;
+                WAITING &operator=(const WAITING &) = delete;
+                omp_lock_t lock; ///< Held until the calculation is complete
+                bool done;       ///< Was the calculation successful?
+                T result;        ///< Result of the calculation
             };
 
             /// Map of calculations in process.
-            std::unordered_map<V, struct WAITING> in_process;
+            std::unordered_map<V, std::shared_ptr<WAITING>> in_process;
+
+            /**
+             * A calculation has finished. Save the result (unless the
+             * calculation failed, or the cache has been cleared since it
+             * started), and wake up anyone waiting for it.
+             */
+            void Finish(V v, std::shared_ptr<WAITING> entry) {
+                omp_set_lock(&lock);
+                auto current = in_process.find(v);
+                if (current != in_process.end() && current->second == entry) {
+                    if (entry->done) {
+                        cache[v] = entry->result;
+                    }
+                    in_process.erase(current);
+                }
+                omp_unset_lock(&entry->lock);
+                omp_unset_lock(&lock);
+            };
 
             /// OpenMP lock for this object
             omp_lock_t lock;
@@ -345,10 +337,36 @@ namespace SLAT {
          */
         template <class T> class CachedValue {
         private:
-            bool in_process; ///< Flag indicating the value is being calculated
+            /// Structure for recording a calculation in process.
+            struct WAITING {
+                WAITING() : done(false) { omp_init_lock(&lock); };
+                ~WAITING() { omp_destroy_lock(&lock); };
+                WAITING(const WAITING &) = delete;
+                WAITING &operator=(const WAITING &) = delete;
+                omp_lock_t lock; ///< Held until the calculation is complete
+                bool done;       ///< Was the calculation successful?
+                T result;        ///< Result of the calculation
+            };
 
-            /// Lock for clients waiting for the calculation to finish:
-            omp_lock_t waiting_lock;
+            std::shared_ptr<WAITING> in_process; ///< The calculation in process, if any
+
+            /**
+             * A calculation has finished. Save the result (unless the
+             * calculation failed, or the cache has been cleared since it
+             * started), and wake up anyone waiting for it.
+             */
+            void Finish(std::shared_ptr<WAITING> entry) {
+                omp_set_lock(&lock);
+                if (in_process == entry) {
+                    if (entry->done) {
+                        cached_value = entry->result;
+                        cache_valid = true;
+                    }
+                    in_process.reset();
+                }
+                omp_unset_lock(&entry->lock);
+                omp_unset_lock(&lock);
+            };
 
             omp_lock_t lock; ///< Lock for this object
 
@@ -380,15 +398,7 @@ namespace SLAT {
 
                 omp_init_lock(&lock); // Initialise the lock for this object
 
-                /**
-                 * Set up the lock that's used to ensure the value is calculated
-                 * only once.
-                 */
-                omp_init_lock(&waiting_lock);
-                omp_set_lock(&waiting_lock);
-
                 // Set member variables:
-                in_process = false; 
                 this->name = name;
                 cache_valid = false;
                 total_calls = 0;     
@@ -425,67 +435,74 @@ namespace SLAT {
                 omp_set_lock(&lock);
                 total_calls++;  // For development diagnostics
                 
-                /*
-                 * If the value hasn't been yet been calculated, we need to
-                 * calculate it; if the calculation is already in process, wait
-                 * for it to finish.
-                 */
-                if (!cache_valid) {
+                while (true) {
+                    if (cache_valid) {
+                        // Already cached; no need to calculate
+                        hits++;
+                        T result = cached_value;
+                        omp_unset_lock(&lock);
+                        return result;
+                    }
+
                     /*
-                     * The calculating is being performed. Release the object
-                     * lock, then wait for the 'waiting_lock' to indicate the
-                     * calculation has been completed.
+                     * If the value hasn't been yet been calculated, we need to
+                     * calculate it; if the calculation is already in process,
+                     * wait for it to finish.
                      */
                     if (in_process) {
+                        /*
+                         * The calculating is being performed. Release the
+                         * object lock, then wait for the 'in_process' lock to
+                         * indicate the calculation has been completed.
+                         */
+                        std::shared_ptr<WAITING> entry = in_process;
                         omp_unset_lock(&lock);
-                        omp_set_lock(&waiting_lock);
-                        omp_unset_lock(&waiting_lock); // Release for anyone else who's waiting
-                        omp_set_lock(&lock); // Re-take the lock before returning the value
+                        omp_set_lock(&entry->lock);
+                        omp_unset_lock(&entry->lock); // Release for anyone else who's waiting
+
+                        if (entry->done) {
+                            return entry->result;
+                        }
+                        /*
+                         * The calculation failed (it threw an exception);
+                         * start again.
+                         */
+                        omp_set_lock(&lock);
                     } else {
                         /*
                          * This is the first request--calculate the value.
                          */
-                        in_process = true;
+                        std::shared_ptr<WAITING> entry = std::make_shared<WAITING>();
+                        omp_set_lock(&entry->lock);
+                        in_process = entry;
                         omp_unset_lock(&lock); // Release the lock while calculating
-                        
-                        T result = func();
-                        
-                        omp_set_lock(&lock); // Lock before saving to cache
-                        /*
-                         * Sanity check--if cache_valid is set, the calculation
-                         * has been performed more than once.
-                         */
-                        if (cache_valid) {
-                            std::cout << "DUPLICATE (v): " << name << std::endl;
-                            raise(SIGINT);
+
+                        try {
+                            entry->result = func();
+                            entry->done = true;
+                        } catch (...) {
+                            // Allow others to try, and let our caller know
+                            Finish(entry);
+                            throw;
                         }
-                        
-                        // Save the result, and release the 'waiting_lock' to anyone waiting
-                        cached_value = result;
-                        cache_valid = true;
-                        in_process = false;
-                        omp_unset_lock(&waiting_lock);
-                    }                        
-                } else {
-                    // Already cached; no need to calculate
-                    hits++;
+                        Finish(entry);
+                        return entry->result;
+                    }
                 }
-
-                /*
-                 * At this point, we have the lock, and the value is stored in
-                 * the cache. Release the lock and return the cached value.
-                 */
-                T result = cached_value;
-                omp_unset_lock(&lock);
-                //Context::PopText();
-                return result;
             }
 
             /**
              * Clear the cache for just this object.
              */
             void ClearCache(void) {
+                omp_set_lock(&lock);
                 cache_valid = false;
+                /*
+                 * A calculation currently in process may be based on data which
+                 * is no longer valid, so forget about it as well.
+                 */
+                in_process.reset();
+                omp_unset_lock(&lock);
             };
         };
     }
-- 
2.43.0


From 5dfbd4d8f43cf7009adf03a0951eb0f4b2a91cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 02/31] fix: replacing an object doesn't lose or mix up the
 clients of either

replace() overwrote the clients the replacement already had, and as client
ids were only unique to one object, a client moved to the replacement could
be overwritten (or removed) by one registered there later.
---
 src/replaceable.h | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/replaceable.h b/src/replaceable.h
index a61bbb9..8d09555 100644
--- a/src/replaceable.h
+++ b/src/replaceable.h
@@ -11,6 +11,7 @@
  */
 #ifndef _REPLACEABLE_H_
 #define _REPLACEABLE_H_
+#include <atomic>
 #include <map>
 #include <memory>
 #include <iostream>
@@ -67,15 +68,18 @@ namespace SLAT {
         std::map<int, callback_struct> callbacks;
 
         /**
-         * id_counter is used as the key for clients. It is incremented by
-         * add_callbacks().  Client ids do not need to be sequential; just
-         * unique. This is an easy way to ensure that, but other mechanisms
-         * could be used without affecting anything outside this template.
+         * next_id() provides keys for clients. replace() moves clients from one
+         * object to another, so a key needs to be unique across all the objects
+         * of a class--not just the object it was issued by. Otherwise, it could
+         * clash with that of a client the other object already has (or is yet
+         * to be given).
          */
-        int id_counter;
+        static int next_id(void) {
+            static std::atomic<int> id_counter(0);
+            return ++id_counter;
+        }
     public:
         Replaceable()  { 
-            id_counter = 0;
             omp_init_lock(&lock);
         };
         
@@ -83,8 +87,8 @@ namespace SLAT {
                           std::function<void (std::shared_ptr<T>)> replace)
         {
             omp_set_lock(&lock);
-            int result = ++id_counter;
-            callbacks[id_counter] = {changed, replace};
+            int result = next_id();
+            callbacks[result] = {changed, replace};
             omp_unset_lock(&lock);
             return result;
         }
@@ -104,8 +108,14 @@ namespace SLAT {
         }
 
         void replace(std::shared_ptr<T> replacement) {
+            if (replacement.get() == static_cast<T *>(this)) {
+                // Clients already have this object; there's nothing to replace.
+                notify_change();
+                return;
+            }
             omp_set_lock(&lock);
-            replacement->callbacks = callbacks;
+            // The replacement may already have clients of its own; keep them:
+            replacement->callbacks.insert(callbacks.begin(), callbacks.end());
             for (auto it=callbacks.begin(); it != callbacks.end();) {
                 it->second.replace_cb(replacement);
                 it = callbacks.erase(it);
-- 
2.43.0


From b9d4b20067d5236edec85d2f0f889a06f22ded44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:44 +0000
Subject: [PATCH 03/31] fix: IM and CompoundEDP bring everything up to date
 after a change

The collapse and demolition rates weren't recalculated when the hazard
function changed, nor the demolition rate when the probability of collapse
did. Replacing the second function of a CompoundEDP replaced the first.
---
 src/relationships.cpp |  6 +++++-
 src/relationships.h   | 10 ++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/relationships.cpp b/src/relationships.cpp
index dc212fe..8cab089 100644
--- a/src/relationships.cpp
+++ b/src/relationships.cpp
@@ -49,10 +49,14 @@ namespace SLAT {
         f = func;
         callback_id = f->add_callbacks(
             [this] (void) {
+                this->CollapseRate.ClearCache();
+                this->DemolitionRate.ClearCache();
                 this->notify_change();
             },
             [this] (std::shared_ptr<DeterministicFn> new_f) {
                 this->f = new_f;
+                this->CollapseRate.ClearCache();
+                this->DemolitionRate.ClearCache();
                 this->notify_change();
             });
     }
@@ -403,7 +407,7 @@ namespace SLAT {
             },
             [this] (std::shared_ptr<ProbabilisticFn> new_dependent_rate) {
                 this->lambda.ClearCache();
-                this->dependent_rate = new_dependent_rate;
+                this->second_dependent_rate = new_dependent_rate;
                 this->notify_change();
             });
     }
diff --git a/src/relationships.h b/src/relationships.h
index 96fd2ff..63ad146 100644
--- a/src/relationships.h
+++ b/src/relationships.h
@@ -73,15 +73,17 @@ namespace SLAT {
 
         void SetCollapse(std::shared_ptr<LogNormalDist> new_collapse)
         {
-            CollapseRate.ClearCache();
             collapse = new_collapse;
+            CollapseRate.ClearCache();
+            DemolitionRate.ClearCache(); // Depends on the probability of collapse
             notify_change();
         }
 
         void SetCollapse(LogNormalDist new_collapse)
         {
-            CollapseRate.ClearCache();
             collapse = std::make_shared<LogNormalDist>(new_collapse);
+            CollapseRate.ClearCache();
+            DemolitionRate.ClearCache(); // Depends on the probability of collapse
             notify_change();
         }
 
@@ -105,15 +107,15 @@ namespace SLAT {
 
         void SetDemolition(std::shared_ptr<LogNormalDist> new_demolition)
         {
-            DemolitionRate.ClearCache();
             demolition = new_demolition;
+            DemolitionRate.ClearCache();
             notify_change();
         }
 
         void SetDemolition(LogNormalDist new_demolition)
         {
-            DemolitionRate.ClearCache();
             demolition = std::make_shared<LogNormalDist>(new_demolition);
+            DemolitionRate.ClearCache();
             notify_change();
         }
 
-- 
2.43.0


From 65c4475b336fd1480180b4c2c9bf57289e57dcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 04/31] fix: printing a component group without a cost or delay
 function doesn't crash

---
 src/comp_group.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/comp_group.cpp b/src/comp_group.cpp
index 6df2b7a..0314612 100644
--- a/src/comp_group.cpp
+++ b/src/comp_group.cpp
@@ -649,9 +649,19 @@ namespace SLAT {
             << ": " << o.count 
             << ", " << *(o.edp)
             << ", " << *(o.frag_fn)
-            << ", " << *(o.cost_fn)
-            << ", " << *(o.delay_fn)
-            << std::endl;
+            << ", ";
+        if (o.cost_fn) {
+            out << *(o.cost_fn);
+        } else {
+            out << "no cost function";
+        }
+        out << ", ";
+        if (o.delay_fn) {
+            out << *(o.delay_fn);
+        } else {
+            out << "no delay function";
+        }
+        out << std::endl;
         return out;
     }
 
-- 
2.43.0


From d9ac8fa7d7be0aadf3e6626e6367997f3050698d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 05/31] fix: component groups pass changes on to the structures
 they belong to

A structure's annual cost wasn't recalculated after a change to an EDP,
fragility function, or loss function.
---
 src/comp_group.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/comp_group.cpp b/src/comp_group.cpp
index 0314612..f03a32a 100644
--- a/src/comp_group.cpp
+++ b/src/comp_group.cpp
@@ -93,6 +93,7 @@ namespace SLAT {
                 this->cost_EDP_dist.ClearCache();
                 this->delay_EDP_dist.ClearCache();
                 this->Rate.ClearCache();
+                this->notify_change();
             },
             [this] (std::shared_ptr<EDP> new_edp) {
                 this->E_cost_IM.ClearCache();
@@ -105,6 +106,7 @@ namespace SLAT {
                 this->delay_EDP_dist.ClearCache();
                 this->Rate.ClearCache();
                 this->edp = new_edp;
+                this->notify_change();
             });
         /*
          * When the fragility changes or is replaced, clear the cached values.
@@ -120,6 +122,7 @@ namespace SLAT {
                 this->cost_EDP_dist.ClearCache();
                 this->delay_EDP_dist.ClearCache();
                 this->Rate.ClearCache();
+                this->notify_change();
             },
             [this] (std::shared_ptr<FragilityFn> new_frag_fn) {
                 this->E_cost_IM.ClearCache();
@@ -132,6 +135,7 @@ namespace SLAT {
                 this->delay_EDP_dist.ClearCache();
                 this->Rate.ClearCache();
                 this->frag_fn = new_frag_fn;
+                this->notify_change();
             });
         /*
          * When the cost changes or is replaced, clear the cached values.
@@ -146,6 +150,7 @@ namespace SLAT {
                     this->cost_EDP_dist.ClearCache();
                     this->delay_EDP_dist.ClearCache();
                     this->Rate.ClearCache();
+                    this->notify_change();
                 },
                 [this] (std::shared_ptr<LossFn> new_cost_fn) {
                     this->E_cost_IM.ClearCache();
@@ -156,6 +161,7 @@ namespace SLAT {
                     this->delay_EDP_dist.ClearCache();
                     this->Rate.ClearCache();
                     this->cost_fn = new_cost_fn;
+                    this->notify_change();
                 });
         }
 
@@ -168,12 +174,14 @@ namespace SLAT {
                     this->E_delay_IM.ClearCache();
                     this->SD_ln_delay_IM.ClearCache();
                     this->delay_EDP_dist.ClearCache();
+                    this->notify_change();
                 },
                 [this] (std::shared_ptr<LossFn> new_delay_fn) {
                     this->E_delay_IM.ClearCache();
                     this->SD_ln_delay_IM.ClearCache();
                     this->delay_EDP_dist.ClearCache();
                     this->delay_fn = new_delay_fn;
+                    this->notify_change();
                 });
         }
     };
-- 
2.43.0


From 6f86d37dd3889dea6e6ac20aeed0fd3f90d69621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:01 +0000
Subject: [PATCH 06/31] fix: structures forget about component groups which
 have been removed, and update costs

A structure never unregistered its callbacks, so they could be called after
it had been destroyed. Removing a component group, or changing the rebuild or
demolition cost, didn't cause the annual cost to be recalculated.
---
 src/structure.cpp | 20 +++++++++++++++++++-
 src/structure.h   |  7 ++++---
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/structure.cpp b/src/structure.cpp
index 76ccb87..7d95abd 100644
--- a/src/structure.cpp
+++ b/src/structure.cpp
@@ -24,6 +24,19 @@ namespace SLAT {
     {
         this->name = name;
     };
+
+    /*
+     * Unregister callbacks on destruction.
+     */
+    Structure::~Structure()
+    {
+        for (size_t i=0; i < components.size(); i++) {
+            components[i]->first->remove_callbacks(components[i]->second);
+        }
+        if (im) {
+            im->remove_callbacks(im_callback_id);
+        }
+    };
     
     const std::vector<std::shared_ptr<CompGroup>> Structure::Components(void)
     {
@@ -43,8 +56,11 @@ namespace SLAT {
     void  Structure::AddCompGroup(std::shared_ptr<CompGroup> cg)
     {
         if (components.size() == 0) {
+            if (im) {
+                im->remove_callbacks(im_callback_id);
+            }
             im = cg->getIM();
-            im->add_callbacks(
+            im_callback_id = im->add_callbacks(
                 [this] (void) {
                     this->Clear_Cache();
                 },
@@ -74,7 +90,9 @@ namespace SLAT {
         for (size_t i=0; i < components.size(); i++) {
             if (components[i]->first == cg) {
                 std::cout << "REMOVING " << components[i]->first << std::endl;
+                cg->remove_callbacks(components[i]->second);
                 components.erase(components.begin()+i);
+                this->Clear_Cache();
                 break;
             }
         }
diff --git a/src/structure.h b/src/structure.h
index 31187a2..e8360f5 100644
--- a/src/structure.h
+++ b/src/structure.h
@@ -20,7 +20,7 @@ namespace SLAT {
     class Structure : public Replaceable<Structure> {
     public:
         Structure(std::string name);
-        ~Structure() {};
+        ~Structure();
 
         void AddCompGroup(std::shared_ptr<CompGroup> cg);
         void RemoveCompGroup(std::shared_ptr<CompGroup> cg);
@@ -39,10 +39,10 @@ namespace SLAT {
         COSTS CostsByFate(double im);
         Caching::CachedValue<LogNormalDist> AnnualCost;
         std::pair<LogNormalDist, LogNormalDist> DeaggregatedCost(double im);
-        void setRebuildCost(LogNormalDist dist) { rebuild_cost = dist; };
+        void setRebuildCost(LogNormalDist dist) { rebuild_cost = dist; Clear_Cache(); };
         const std::vector<std::shared_ptr<CompGroup>> Components(void);
         LogNormalDist getRebuildCost(void) { return rebuild_cost; };
-        void setDemolitionCost(LogNormalDist dist) { demolition_cost = dist; };
+        void setDemolitionCost(LogNormalDist dist) { demolition_cost = dist; Clear_Cache(); };
         LogNormalDist getDemolitionCost(void) { return demolition_cost; };
         std::string get_Name(void) const { return name; };
 
@@ -55,6 +55,7 @@ namespace SLAT {
         typedef std::pair<std::shared_ptr<CompGroup>, int> CG_ENTRY;
         std::vector<std::shared_ptr<CG_ENTRY>> components;
         std::shared_ptr<IM> im;
+        int im_callback_id;
         LogNormalDist rebuild_cost;
         LogNormalDist demolition_cost;
     };
-- 
2.43.0


From d61b1ac537e73132260ca71291a1ac45aa31fdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:01 +0000
Subject: [PATCH 07/31] fix: structure costs for an empty structure, no
 discounting, and certain outcomes

With no component groups, TotalCost() and others dereferenced a null pointer;
with a discount rate of zero E_cost() was NAN; and the total cost could be NAN
when rounding errors made its variance negative.
---
 src/structure.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/structure.cpp b/src/structure.cpp
index 7d95abd..c1c5db5 100644
--- a/src/structure.cpp
+++ b/src/structure.cpp
@@ -49,6 +49,9 @@ namespace SLAT {
     
     double Structure::pdf(double im) 
     {
+        if (this->im == NULL) {
+            return NAN;
+        }
         return TotalCost(im).get_mean_X() * std::abs(this->im->DerivativeAt(im));
     };
 
@@ -131,6 +134,9 @@ namespace SLAT {
 
     LogNormalDist Structure::TotalCost(double im)
     {
+        if (this->im == NULL) {
+            return LogNormalDist();
+        }
         LogNormalDist cost_repair = CostNC(im);
         LogNormalDist cost_demolition = demolition_cost;
         LogNormalDist cost_collapse = rebuild_cost;
@@ -161,12 +167,18 @@ namespace SLAT {
         }
         
         double var_cost = E_sq_cost - E_cost * E_cost;
+        if (var_cost < 0) {
+            var_cost = 0; // Rounding error
+        }
         double sigma_cost = sqrt(var_cost);
         return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(E_cost, sigma_cost);
     }
 
     double Structure::E_cost(int year, double discount_rate)
     {
+        if (discount_rate == 0) {
+            return year * AnnualCost().get_mean_X();
+        }
         return ((1.0 - exp(-discount_rate * year)) / discount_rate) * AnnualCost().get_mean_X();
     }
 
@@ -182,6 +194,9 @@ namespace SLAT {
 
     std::pair<LogNormalDist, LogNormalDist> Structure::DeaggregatedCost(double im)
     {
+        if (this->im == NULL) {
+            return std::make_pair(LogNormalDist(), LogNormalDist());
+        }
         LogNormalDist cost_nc = CostNC(im);
         LogNormalDist cost_c = rebuild_cost;
         LogNormalDist cost_demo = demolition_cost;
-- 
2.43.0


From 89c7ed2a0930e2bf03dd40d855cdb7555e1ad031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:01 +0000
Subject: [PATCH 08/31] fix: threads don't share the accelerator of an
 interpolated function

Looking up a value changes the accelerator, so it can't be shared by threads
without synchronisation.
---
 src/functions.cpp |  8 ++------
 src/functions.h   | 12 ------------
 2 files changed, 2 insertions(+), 18 deletions(-)

diff --git a/src/functions.cpp b/src/functions.cpp
index 8d6cb87..2609de4 100644
--- a/src/functions.cpp
+++ b/src/functions.cpp
@@ -194,7 +194,6 @@ namespace SLAT {
     LinearInterpolatedFn::LinearInterpolatedFn(double x[], double y[], size_t size) :
         InterpolatedFn(x, y, size)
     {
-        accel = gsl_interp_accel_alloc();
         interp = gsl_spline_alloc (gsl_interp_linear, size);
         gsl_spline_init(interp, x, y, size);
     }
@@ -207,7 +206,6 @@ namespace SLAT {
     LinearInterpolatedFn::~LinearInterpolatedFn()
     {
         gsl_spline_free(interp);
-        gsl_interp_accel_free(accel);
     }
 
     double LinearInterpolatedFn::Evaluate(double x) const
@@ -221,7 +219,7 @@ namespace SLAT {
             //std::cout << "CLIPPED at " << x << std::endl;
             y = max_x.second;
         } else {
-            (void)gsl_spline_eval_e(interp, x, accel, &y);
+            (void)gsl_spline_eval_e(interp, x, NULL, &y);
         }
         return y;
     }
@@ -234,7 +232,6 @@ namespace SLAT {
     LogLogInterpolatedFn::LogLogInterpolatedFn(double x[], double y[], size_t size) :
         InterpolatedFn(x, y, size)
     {
-        accel = gsl_interp_accel_alloc();
         interp = gsl_spline_alloc (gsl_interp_linear, size);
 
         // Make a copy of the data in log scale for the interpolator:
@@ -255,7 +252,6 @@ namespace SLAT {
     LogLogInterpolatedFn::~LogLogInterpolatedFn()
     {
         gsl_spline_free(interp);
-        gsl_interp_accel_free(accel);
     }
 
 /*
@@ -270,7 +266,7 @@ namespace SLAT {
         } else if (x > max_x.first) {
             y = max_x.second;
         } else {
-            (void)gsl_spline_eval_e(interp, log(x), accel, &y);
+            (void)gsl_spline_eval_e(interp, log(x), NULL, &y);
             y = exp(y);
 
         }
diff --git a/src/functions.h b/src/functions.h
index def8cfa..e58e9cf 100644
--- a/src/functions.h
+++ b/src/functions.h
@@ -249,12 +249,6 @@ namespace SLAT {
          * maintained for the lifetime of the object.
          */
         gsl_spline *interp;
-
-        /**
-         * GSL interpolation accelator. This is allocated in the constructor, and
-         * maintained for the lifetime of the object.
-         */
-        gsl_interp_accel *accel;
     };
 
 /**
@@ -294,12 +288,6 @@ namespace SLAT {
          * maintained for the lifetime of the object.
          */
         gsl_spline *interp;
-
-        /**
-         * GSL interpolation accelator. This is allocated in the constructor, and
-         * maintained for the lifetime of the object.
-         */
-        gsl_interp_accel *accel;
     };
 
 /**
-- 
2.43.0


From a0f8a6268b33d842543df067b7a8d23731db6b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:01 +0000
Subject: [PATCH 09/31] fix: infinite recursion in lognormal functions with an
 sd of X, but not a mean of X

---
 src/functions.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/functions.cpp b/src/functions.cpp
index 2609de4..02bbe05 100644
--- a/src/functions.cpp
+++ b/src/functions.cpp
@@ -345,11 +345,23 @@ namespace SLAT {
             break;
         case SIGMA_X:
             sigma_X = [this] (double x) -> double { return this->sigma_function->ValueAt(x); };
-            sigma_lnX = [this] (double x) -> double { 
-                double sd = this->sigma_X(x);
-                double mean = this->mean_X(x);
-                return sqrt(log(1.0 + (sd * sd)/(mean * mean))); 
-            };
+            if (m_type == MEAN_X) {
+                sigma_lnX = [this] (double x) -> double { 
+                    double sd = this->sigma_X(x);
+                    double mean = this->mean_X(x);
+                    return sqrt(log(1.0 + (sd * sd)/(mean * mean))); 
+                };
+            } else {
+                /*
+                 * We can't use mean_X(), as that depends on sigma_lnX(). Use
+                 * the median instead, by solving
+                 *     (sd/median)^2 = exp(sigma_lnX^2) * (exp(sigma_lnX^2) - 1)
+                 */
+                sigma_lnX = [this] (double x) -> double { 
+                    double ratio = this->sigma_X(x) / this->median_X(x);
+                    return sqrt(log((1.0 + sqrt(1.0 + 4.0 * ratio * ratio)) / 2.0));
+                };
+            }
             break;
         case SIGMA_INVALID:
         default:
-- 
2.43.0


From f59d9c759abd4b0abf80b067a9e520019420badf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:01 +0000
Subject: [PATCH 10/31] fix: contexts for larger teams and nested parallel
 regions, and initial locking

A context's list of threads kept the size of the first team to use it, so was
overrun by a larger one. Levels weren't matched up with threads correctly
where an outer parallel region had only one thread. When it hadn't been
initialised, the context's lock was initialised while it was in use.
---
 src/context.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index 2c5e880..551ae25 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -23,13 +23,18 @@ namespace SLAT {
 
      std::shared_ptr<Context> Context::LockContext()
      {
-        omp_set_lock(&Context::lock);
+        // GetInstance() initialises the lock, so needs to be called first:
         std::shared_ptr<Context> instance = GetInstance();
+        omp_set_lock(&Context::lock);
         
-        if (omp_get_active_level() > 0) {
-            for (int i=0; i <= omp_get_active_level(); i++) {
+        if (omp_get_level() > 0) {
+            for (int i=0; i <= omp_get_level(); i++) {
                 int thread_num = omp_get_ancestor_thread_num(i);
-                if (instance->threads.size() == 0) {
+                /*
+                 * This may have been sized for a smaller team than the current
+                 * one.
+                 */
+                if (instance->threads.size() < (size_t)omp_get_team_size(i)) {
                     instance->threads.resize(omp_get_team_size(i));
                 }
                 if (instance->threads[thread_num] == NULL) {
@@ -170,9 +175,9 @@ namespace SLAT {
             result << separator;
         }
 
-        for (int i=0; i <= omp_get_active_level(); i++) {
+        for (int i=0; i <= omp_get_level(); i++) {
             separator = separator + "/";
-            if (instance->threads.size() == 0) break;
+            if (instance->threads.size() <= (size_t)omp_get_ancestor_thread_num(i)) break;
             instance = instance->threads[omp_get_ancestor_thread_num(i)];
             if (instance == NULL) break;
             
-- 
2.43.0


From 620c7b574f411979e944629e20cbccdc86c8b37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:01 +0000
Subject: [PATCH 11/31] fix: integration search limits and statistics, and
 undefined settings functions

The subdivision searches could go on past the search limit; the statistics for
successful searches and integrations included unsuccessful ones, and were read
without synchronisation; and two settings functions were never defined.
---
 src/maq.cpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/maq.cpp b/src/maq.cpp
index dfca708..c13f8be 100644
--- a/src/maq.cpp
+++ b/src/maq.cpp
@@ -136,6 +136,16 @@ namespace SLAT {
             integration_eval_limit = INTEGRATION_EVAL_LIMIT_DEFAULT;
         }
 
+        void IntegrationSettings::Use_Default_Integration_Search_Limit() 
+        {
+            integration_search_limit = INTEGRATION_SEARCH_LIMIT_DEFAULT;
+        }
+
+        void IntegrationSettings::Use_Default_Method() 
+        {
+            integration_method = METHOD_DEFAULT;
+        }
+
         void IntegrationSettings::Set_Tolerance(double tol) 
         {
             if (tol > 0.0) {
@@ -201,7 +211,7 @@ namespace SLAT {
             {
                 long int intervals = 4;
                 while (evaluations < integration_eval_limit && fc <= std::numeric_limits<double>::epsilon()) {
-                    for (int i=1; i < intervals; i += 2) {
+                    for (int i=1; i < intervals && evaluations < integration_eval_limit; i += 2) {
                         c = float(i)/intervals;
                         fc = f(x_from_t(c));
                         
@@ -243,7 +253,7 @@ namespace SLAT {
             {
                 long int intervals = 4;
                 while (evaluations < integration_eval_limit && fc <= std::numeric_limits<double>::epsilon()) {
-                    for (int i=1; i < intervals; i += 2) {
+                    for (int i=1; i < intervals && evaluations < integration_eval_limit; i += 2) {
                         c = 1.0 - float(i)/intervals;
                         fc = f(x_from_t(c));
                         
@@ -286,7 +296,7 @@ namespace SLAT {
             {
                 long int intervals = 4;
                 while (evaluations < integration_eval_limit/2 && fc <= std::numeric_limits<double>::epsilon()) {
-                    for (int i=1; i < intervals/2; i += 2) {
+                    for (int i=1; i < intervals/2 && evaluations < integration_eval_limit/2; i += 2) {
                         c = 1.0 - float(i)/intervals;
                         fc = f(x_from_t(c));
                         
@@ -303,7 +313,7 @@ namespace SLAT {
 
                 intervals = 4;
                 while (evaluations < integration_eval_limit && fc <= std::numeric_limits<double>::epsilon()) {
-                    for (int i=1 + intervals/2; i < intervals; i += 2) {
+                    for (int i=1 + intervals/2; i < intervals && evaluations < integration_eval_limit; i += 2) {
                         c = 1.0 - float(i)/intervals;
                         fc = f(x_from_t(c));
                         
@@ -601,9 +611,11 @@ namespace SLAT {
                 }
 #pragma omp critical
                 stats.total_search_evals += r.evaluations;
-                if (stats.max_successful_search < r.evaluations) {
+                if (!std::isnan(r.a)) {
 #pragma omp critical
-                    stats.max_successful_search = r.evaluations;
+                    if (stats.max_successful_search < r.evaluations) {
+                        stats.max_successful_search = r.evaluations;
+                    }
                 }
                 if (std::isnan(r.a)) {
 #pragma omp critical
@@ -744,9 +756,11 @@ namespace SLAT {
                     region_stack.push({c, b, e, fc, fb , fe, r3});
                 }
             }
-            if (counter > stats.max_successful_integration) {
+            if (success) {
 #pragma omp critical
-                stats.max_successful_integration = counter;
+                if (counter > stats.max_successful_integration) {
+                    stats.max_successful_integration = counter;
+                }
             }
             if (success) {
 #pragma omp critical
-- 
2.43.0


From d93d328ca77dfd28fa96bbc659aa558539771ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 12/31] fix: demand rate where the hazard vanishes and the
 demand isn't defined

---
 src/relationships.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/relationships.cpp b/src/relationships.cpp
index 8cab089..3e559dc 100644
--- a/src/relationships.cpp
+++ b/src/relationships.cpp
@@ -283,6 +283,14 @@ namespace SLAT {
                     result = 0;
                 } else {
                     double d = this->base_rate->DerivativeAt(x2);
+                    if (d == 0) {
+                        /*
+                         * Don't consider the demand where there's no hazard; it
+                         * may not be defined there (e.g., as x2 approaches
+                         * infinity).
+                         */
+                        return 0;
+                    }
                     double p = this->P_exceedence(x2, min_y);
                     result = (p * base_rate->pRepair(x2) + 
                               (1.0 - base_rate->pRepair(x2))) * std::abs(d);
-- 
2.43.0


From 0e9c6fae7f739f397ce1ebce13aa148e63e790ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 13/31] fix: probability of demolition is never negative

---
 src/relationships.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/relationships.h b/src/relationships.h
index 63ad146..2546397 100644
--- a/src/relationships.h
+++ b/src/relationships.h
@@ -121,7 +121,13 @@ namespace SLAT {
 
         double pDemolition(double im) {
             if (demolition) {
-                return demolition->p_at_most(im) - pCollapse(im);
+                /*
+                 * The demolition distribution includes the structures which
+                 * have collapsed. Where it doesn't cover all of them there are
+                 * none left to demolish.
+                 */
+                double p = demolition->p_at_most(im) - pCollapse(im);
+                return p < 0 ? 0 : p;
             } else {
                 return 0;
             }
-- 
2.43.0


From e584791dbccab38fef442c6cb95a28c57e7bc3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:54 +0000
Subject: [PATCH 14/31] fix: integration doesn't succeed when the search for a
 start meets undefined values

---
 src/maq.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/maq.cpp b/src/maq.cpp
index c13f8be..8d91ac7 100644
--- a/src/maq.cpp
+++ b/src/maq.cpp
@@ -592,25 +592,39 @@ namespace SLAT {
             double a, b;
             {
                 search_result_t r = {0, 0, 0};
+                bool undefined = false;
+                std::function<double (double)> watched = [&integrand, &undefined] (double x) {
+                    double y = integrand(x);
+                    if (std::isnan(y)) undefined = true;
+                    return y;
+                };
                 switch (IntegrationSettings::Get_Integration_Method()) {
                 case IntegrationSettings::BINARY_SUBDIVISION:
-                    r = binary_subdivision(integrand, bineval);
+                    r = binary_subdivision(watched, bineval);
                     break;
                 case IntegrationSettings::REVERSE_BINARY_SUBDIVISION:
-                    r = reverse_binary_subdivision(integrand, bineval);
+                    r = reverse_binary_subdivision(watched, bineval);
                     break;
                 case IntegrationSettings::LOW_FIRST_REVERSE_BINARY_SUBDIVISION:
-                    r = low_first_reverse_binary_subdivision(integrand, bineval);
+                    r = low_first_reverse_binary_subdivision(watched, bineval);
                     break;
                 case IntegrationSettings::SCATTERED:
-                    r = scattered_search(integrand, bineval);
+                    r = scattered_search(watched, bineval);
                     break;
                 case IntegrationSettings::DIRECTED:
-                    r = directed_search(integrand, bineval);
+                    r = directed_search(watched, bineval);
                     break;
                 }
 #pragma omp critical
                 stats.total_search_evals += r.evaluations;
+                if (undefined) {
+                    BOOST_LOG_TRIVIAL(fatal) << Context::GetText() << "; NAN found in search";
+#pragma omp critical
+                    stats.nans++;
+#pragma omp critical
+                    stats.total_integrations_evals += r.evaluations;
+                    return {NAN, false, r.evaluations};
+                }
                 if (!std::isnan(r.a)) {
 #pragma omp critical
                     if (stats.max_successful_search < r.evaluations) {
-- 
2.43.0


From 67d36979afbe01be76d22722b5394b71d163056b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:43 +0000
Subject: [PATCH 15/31] fix: a structure with no groups left doesn't keep their
 intensity measure

---
 src/structure.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/structure.cpp b/src/structure.cpp
index c1c5db5..6c39ae1 100644
--- a/src/structure.cpp
+++ b/src/structure.cpp
@@ -95,6 +95,11 @@ namespace SLAT {
                 std::cout << "REMOVING " << components[i]->first << std::endl;
                 cg->remove_callbacks(components[i]->second);
                 components.erase(components.begin()+i);
+                if (components.size() == 0 && im) {
+                    // The intensity measure was that of the groups
+                    im->remove_callbacks(im_callback_id);
+                    im = NULL;
+                }
                 this->Clear_Cache();
                 break;
             }
-- 
2.43.0


From 5af080ef213a545da23f0a9ec7ba2012f1a0e137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 16/31] fix: caching is initialised once, whichever thread is
 first

---
 src/caching.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/caching.cpp b/src/caching.cpp
index 36cb2ff..647cc52 100644
--- a/src/caching.cpp
+++ b/src/caching.cpp
@@ -34,11 +34,12 @@ namespace SLAT {
              */
             void Init_Caching(void)
             {
-                static bool first_call = true;
-                if (first_call) {
+                // Initialised exactly once, even if several threads get here first:
+                static bool initialised = [] (void) {
                     omp_init_lock(&lock);
-                };
-                first_call = false;
+                    return true;
+                }();
+                (void)initialised;
             }
 
             /**
@@ -66,6 +67,7 @@ namespace SLAT {
          * Clear all (registered) function caches.
          */
         void Clear_Caches(void) {
+            Private::Init_Caching();
             omp_set_lock(&Private::lock);
             for (auto it=Private::caches.begin(); it != Private::caches.end(); it++) {
                 it->second();
-- 
2.43.0


From 9c1b82bf1f5ef633e188e2463c1a1d81c538a14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 17/31] fix: interpolated functions refuse data which can't be
 interpolated

The GSL's error handler aborted the program when there was only one point,
or the points weren't in order.
---
 src/functions.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/functions.cpp b/src/functions.cpp
index 02bbe05..18c6065 100644
--- a/src/functions.cpp
+++ b/src/functions.cpp
@@ -13,6 +13,7 @@
 #include <cmath>
 #include <vector>
 #include <functional>
+#include <stdexcept>
 #include <gsl/gsl_deriv.h>
 #include <omp.h>
 #include <boost/log/trivial.hpp>
@@ -177,6 +178,15 @@ namespace SLAT {
     InterpolatedFn::InterpolatedFn(double x[], double y[], size_t size) : 
         DeterministicFn()
     {
+        if (size < 2) {
+            throw std::invalid_argument("interpolation requires at least two points");
+        }
+        for (size_t i=1; i < size; i++) {
+            if (!(x[i] > x[i - 1])) {
+                throw std::invalid_argument("interpolation requires x to be increasing");
+            }
+        }
+
         min_x = std::pair<double, double>(x[0], y[0]);
         max_x = std::pair<double, double>(x[size - 1], y[size - 1]);
         
@@ -232,6 +242,9 @@ namespace SLAT {
     LogLogInterpolatedFn::LogLogInterpolatedFn(double x[], double y[], size_t size) :
         InterpolatedFn(x, y, size)
     {
+        if (x[0] < 0) {
+            throw std::invalid_argument("log-log interpolation requires x to be positive");
+        }
         interp = gsl_spline_alloc (gsl_interp_linear, size);
 
         // Make a copy of the data in log scale for the interpolator:
-- 
2.43.0


From ac401d3ce0d443080898cd55cbeb1f59bf009fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:27 +0000
Subject: [PATCH 18/31] fix: an exception in a parallel region reaches the
 caller

It ended the program, if (say) the number of states of a loss function didn't
match that of the fragility function.
---
 src/comp_group.cpp | 18 ++++++++++++++++--
 src/structure.cpp  | 25 +++++++++++++++++++++++--
 2 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/comp_group.cpp b/src/comp_group.cpp
index f03a32a..9dd1d63 100644
--- a/src/comp_group.cpp
+++ b/src/comp_group.cpp
@@ -12,6 +12,7 @@
 
 #include "comp_group.h"
 #include <vector>
+#include <exception>
 #include <gsl/gsl_deriv.h>
 #include <gsl/gsl_integration.h>
 
@@ -272,17 +273,30 @@ namespace SLAT {
      */
     LogNormalDist CompGroup::CostDist_IM(double im) {
         double E = NAN, sd_ln = NAN;
+
+        // Exceptions can't be passed out of a parallel region
+        std::exception_ptr E_error, sd_ln_error;
 #pragma omp parallel sections
         {
 #pragma omp section
             {
-                E = E_cost_IM(im);
+                try {
+                    E = E_cost_IM(im);
+                } catch (...) {
+                    E_error = std::current_exception();
+                }
             }
 #pragma omp section
             {
-                sd_ln = SD_ln_cost_IM(im);
+                try {
+                    sd_ln = SD_ln_cost_IM(im);
+                } catch (...) {
+                    sd_ln_error = std::current_exception();
+                }
             }
         }
+        if (E_error) std::rethrow_exception(E_error);
+        if (sd_ln_error) std::rethrow_exception(sd_ln_error);
 
         return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(E, sd_ln);
     }
diff --git a/src/structure.cpp b/src/structure.cpp
index 6c39ae1..459ab48 100644
--- a/src/structure.cpp
+++ b/src/structure.cpp
@@ -11,6 +11,7 @@
  */
 
 #include <memory>
+#include <exception>
 #include <algorithm>
 #include <iostream>
 #include <iomanip>
@@ -110,9 +111,19 @@ namespace SLAT {
     {
         std::vector<LogNormalDist> dists(components.size());
         const size_t N = components.size();
+
+        // Exceptions can't be passed out of a parallel region
+        std::vector<std::exception_ptr> errors(N);
 #pragma omp parallel for
         for (size_t i=0; i < N; i++) {
-            dists[i] = components[i]->first->CostDist_IM(im);
+            try {
+                dists[i] = components[i]->first->CostDist_IM(im);
+            } catch (...) {
+                errors[i] = std::current_exception();
+            }
+        }
+        for (size_t i=0; i < N; i++) {
+            if (errors[i]) std::rethrow_exception(errors[i]);
         }
         return LogNormalDist::AddDistributions(dists);
     }
@@ -190,9 +201,19 @@ namespace SLAT {
     std::vector<double> Structure::E_cost(std::vector<int> years, double discount_rate)
     {
         std::vector<double> result(years.size());
+
+        // Exceptions can't be passed out of a parallel region
+        std::vector<std::exception_ptr> errors(years.size());
 #pragma omp parallel for
         for (size_t i=0; i < years.size(); i++) {
-            result[i] = E_cost(years[i], discount_rate);
+            try {
+                result[i] = E_cost(years[i], discount_rate);
+            } catch (...) {
+                errors[i] = std::current_exception();
+            }
+        }
+        for (size_t i=0; i < years.size(); i++) {
+            if (errors[i]) std::rethrow_exception(errors[i]);
         }
         return result;
     }
-- 
2.43.0


From d03dc3d2ad4b03ee9e64f1291e7aa4ad6e77f951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:25 +0000
Subject: [PATCH 19/31] fix: invalid arguments from Python are refused, and
 raise exceptions there

Invalid data gave an object which crashed when it was used; exceptions raised
by the library ended the program.
---
 src/pyslatcore.cpp | 28 +++++++++++++++-------------
 src/pyslatcore.i   | 15 +++++++++++++++
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/pyslatcore.cpp b/src/pyslatcore.cpp
index daaf4d1..72eb6f6 100644
--- a/src/pyslatcore.cpp
+++ b/src/pyslatcore.cpp
@@ -5,6 +5,7 @@
 #include "loss_functions.h"
 #include <iostream>
 #include <set>
+#include <stdexcept>
 #include <boost/log/sinks/text_ostream_backend.hpp>
 #include <boost/log/utility/setup/console.hpp>
 using namespace std;
@@ -107,14 +108,12 @@ DeterministicFn *factory3(FUNCTION_TYPE t, std::vector<double>x, std::vector<dou
     switch (t) {
     case PLC:
     case NLH:
-        std::cout << "Must have exactly one list of data." << std::endl;
-        break;
+        throw std::invalid_argument("Must have exactly one list of data.");
 
     case LIN:
     {
         if (x.size() < 2 || x.size() != y.size()) {
-            std::cout << "Data lists must be same size, greater than 1." << std::endl;
-            break;
+            throw std::invalid_argument("Data lists must be same size, greater than 1.");
         }
             
         result = std::make_shared<SLAT::LinearInterpolatedFn>(x.data(), y.data(), x.size());
@@ -122,14 +121,13 @@ DeterministicFn *factory3(FUNCTION_TYPE t, std::vector<double>x, std::vector<dou
     }
     case LOGLOG:
         if (x.size() < 2 || x.size() != y.size()) {
-            std::cout << "Data lists must be same size, greater than 1." << std::endl;
-            break;
+            throw std::invalid_argument("Data lists must be same size, greater than 1.");
         }
             
         result = std::make_shared<SLAT::LogLogInterpolatedFn>(x.data(), y.data(), x.size());
         break;
     default:
-        std::cout << "Unrecognised function type" << std::endl;
+        throw std::invalid_argument("Unrecognised function type");
     }
     return new DeterministicFn(result);
 }
@@ -146,6 +144,9 @@ DeterministicFn *factory2(FUNCTION_TYPE t, std::vector<double> params)
     switch (t) {
     case PLC:
     {
+        if (params.size() != 2) {
+            throw std::invalid_argument("A power law has two parameters.");
+        }
         double a = params[0];
         double b = params[1];
         result = std::make_shared<SLAT::PowerLawParametricCurve>(a, b);
@@ -154,6 +155,9 @@ DeterministicFn *factory2(FUNCTION_TYPE t, std::vector<double> params)
     case NLH:
     {
         // std::cout << "[NLH]" << std::endl;
+        if (params.size() != 3) {
+            throw std::invalid_argument("A hyperbolic function has three parameters.");
+        }
         double alpha = params[0];
         double IM_asy = params[1];
         double v_asy = params[2];
@@ -161,13 +165,11 @@ DeterministicFn *factory2(FUNCTION_TYPE t, std::vector<double> params)
         break;
     }
     case LIN:
-        std::cout << "Must have exactly two lists of data." << std::endl;
-        break;
+        throw std::invalid_argument("Must have exactly two lists of data.");
     case LOGLOG:
-        std::cout << "Must have exactly two lists of data." << std::endl;
-        break;
+        throw std::invalid_argument("Must have exactly two lists of data.");
     default:
-        std::cout << "Unrecognised function type" << std::endl;
+        throw std::invalid_argument("Unrecognised function type");
     }
     return new DeterministicFn(result);
 }
@@ -543,7 +545,7 @@ LogNormalDist *MakeLogNormalDist(double mu, LOGNORMAL_MU_TYPE mu_type,
     } else if (mu_type == MEAN_X && sigma_type == SD_X) {
         dist = SLAT::LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(mu, sigma);
     } else {
-        std::cout << "Unsupported combination of mu and sigma." << std::endl;
+        throw std::invalid_argument("Unsupported combination of mu and sigma.");
     }
 
     std::shared_ptr<SLAT::LogNormalDist> temp = std::make_shared<SLAT::LogNormalDist>(dist);
diff --git a/src/pyslatcore.i b/src/pyslatcore.i
index 1718d62..75ea737 100644
--- a/src/pyslatcore.i
+++ b/src/pyslatcore.i
@@ -8,6 +8,21 @@
 %include <std_vector.i>
 %include <std_list.i>
 %include <std_map.i>
+%include <exception.i>
+
+/*
+ * Pass exceptions on to Python, rather than letting them end the program.
+ */
+%exception {
+    try {
+        $action
+    } catch (const std::invalid_argument &e) {
+        SWIG_exception(SWIG_ValueError, e.what());
+    } catch (const std::exception &e) {
+        SWIG_exception(SWIG_RuntimeError, e.what());
+    }
+}
+
 namespace std{
     %template(VectorDouble) std::vector<double>;
     %template(VectorLogNormal_p) std::vector<LogNormalDist *>;
-- 
2.43.0


From d6b1d4a80c0278637e38dc4e87ea9379f595e50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 20/31] fix: bi-level losses don't overflow with extreme counts

---
 src/loss_functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loss_functions.cpp b/src/loss_functions.cpp
index 3d5f4fc..58ea2da 100644
--- a/src/loss_functions.cpp
+++ b/src/loss_functions.cpp
@@ -109,7 +109,7 @@ namespace SLAT {
         } else if (count >= count_max) {
             mean = cost_at_max;
         } else {
-            mean = cost_at_min + double(count - count_min)/(count_max - count_min) * (cost_at_max - cost_at_min);
+            mean = cost_at_min + (double(count) - count_min)/(double(count_max) - count_min) * (cost_at_max - cost_at_min);
         }
         return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(mean, dispersion);
     }
-- 
2.43.0


From f7b0d463e45ff7fab08829005c7cc9f71ffef710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:55 +0000
Subject: [PATCH 21/31] fix: demands take lists in every query, and always have
 a plotting hint

---
 src/pyslat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 618a1fc..8369028 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -725,7 +725,7 @@ class edp:
             self._func = MakeCompoundEDP(im.function(), fn.function(), 
                                          fn2.function(), "{}".format(id))
 
-            self._plot_max = None
+        self._plot_max = None
         if id != None:
             old = edp.lookup(id)
             if old:
@@ -778,7 +778,7 @@ class edp:
     #  @param x The IM value at which to calculate mean(ln(x)).
     def MeanLn(self, x):
         if type(x) == list:
-            result = list(self._func.MeanLn(x))
+            result = list(self._func.bulk_MeanLn(x))
         else:
             result = self._func.MeanLn(x)
         return result
@@ -787,7 +787,7 @@ class edp:
     #  @param x The IM value at which to calculate median(x).
     def Median(self, x):
         if type(x) == list:
-            result = list(self._func.Median(x))
+            result = list(self._func.bulk_Median(x))
         else:
             result = self._func.Median(x)
         return result
@@ -805,7 +805,7 @@ class edp:
     #  @param x The IM value at which to calculate standard deviation(x).
     def SD(self, x):
         if type(x) == list:
-            result = list(self._func.SD(x))
+            result = list(self._func.bulk_SD(x))
         else:
             result = self._func.SD(x)
         return result
-- 
2.43.0


From 81dfafb4c74fbeeb84e547a591e7454dde5f7910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:16 +0000
Subject: [PATCH 22/31] fix: functions redefined from Python replace the old,
 and probabilistic ones can be queried

---
 src/pyslat.py      | 13 +++++++++----
 src/pyslatcore.cpp | 10 ++++++++++
 src/pyslatcore.h   |  2 ++
 src/pyslatcore.i   | 13 +++++++++++++
 4 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 8369028..2e183bf 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -396,6 +396,9 @@ class detfn:
             self._func = factory2(fntype, parameters)
 
         if id != None:
+            old = detfn.lookup(id)
+            if old:
+                old._func.replace(self._func)
             detfn.defs[id] = self
 
     ## Return the detfn object with the corresponding id.
@@ -467,7 +470,9 @@ class probfn:
     # indicating the attribute the second element--a deterministic
     # function--describes.
     def __init__(self, id, type, mu_func, sigma_func):
-        
+        if not(type == 'lognormal'):
+            raise ValueError("Invalid type '{}' for probfn '{}'.".format(type, id))
+
         self._id = id
         self._type = type
         self._mu_func = mu_func
@@ -477,10 +482,10 @@ class probfn:
                                                   sigma_func[1].function(),
                                                   sigma_func[0]) 
         if id != None:
+            old = probfn.lookup(id)
+            if old:
+                old._func.replace(self._func)
             probfn.defs[id] = self
-        
-        if not(type == 'lognormal'):
-            raise ValueError("Invalid type '" + type + "' for probfn '" + id + "'.")
 
     
     ## Return the probfn object with the corresponding id.
diff --git a/src/pyslatcore.cpp b/src/pyslatcore.cpp
index 72eb6f6..90e66a5 100644
--- a/src/pyslatcore.cpp
+++ b/src/pyslatcore.cpp
@@ -101,6 +101,11 @@ double DeterministicFn::ValueAt(double v)
     return function->ValueAt(v);
 }
 
+void DeterministicFn::replace(DeterministicFn *f)
+{
+    function->replace(f->function);
+}
+
 DeterministicFn *factory3(FUNCTION_TYPE t, std::vector<double>x, std::vector<double> y)
 {
     std::shared_ptr<SLAT::DeterministicFn> result;
@@ -208,6 +213,11 @@ double ProbabilisticFn::SD(double x) {
     return function->SD(x);
 };
 
+void ProbabilisticFn::replace(ProbabilisticFn *f)
+{
+    function->replace(f->function);
+}
+
 ProbabilisticFn *MakeLogNormalProbabilisticFn(const DeterministicFn &mu_function,
                                               LOGNORMAL_MU_TYPE mu_type,
                                               const DeterministicFn &sigma_function,
diff --git a/src/pyslatcore.h b/src/pyslatcore.h
index 097c289..69f9cfc 100644
--- a/src/pyslatcore.h
+++ b/src/pyslatcore.h
@@ -34,6 +34,7 @@ public:
     DeterministicFn();
     DeterministicFn(std::shared_ptr<SLAT::DeterministicFn> f);
     double ValueAt(double v);
+    void replace(DeterministicFn *f);
     std::shared_ptr<SLAT::DeterministicFn> function;
 };
 
@@ -51,6 +52,7 @@ public:
     double Median(double x);
     double SD_ln(double x);
     double SD(double x);
+    void replace(ProbabilisticFn *f);
 private:
     std::shared_ptr<SLAT::ProbabilisticFn> function;
     friend EDP *MakeEDP(IM base_wrate, ProbabilisticFn dependent_rate, std::string name);
diff --git a/src/pyslatcore.i b/src/pyslatcore.i
index 75ea737..9f3662d 100644
--- a/src/pyslatcore.i
+++ b/src/pyslatcore.i
@@ -58,6 +58,19 @@ enum INTEGRATION_TYPE { BINARY_SUBDIVISION,
 class DeterministicFn {
 public:
     double ValueAt(double v);
+    void replace(DeterministicFn *f);
+};
+
+class ProbabilisticFn {
+public:
+    double P_exceedence(double x, double min_y);
+    double X_at_exceedence(double x, double p);
+    double Mean(double x);
+    double MeanLn(double x);
+    double Median(double x);
+    double SD_ln(double x);
+    double SD(double x);
+    void replace(ProbabilisticFn *f);
 };
 
 DeterministicFn *factory3(FUNCTION_TYPE t, std::vector<double>x, std::vector<double> y);
-- 
2.43.0


From 8a8ebf1aee907853a65796cab01e0281c088bb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:30 +0000
Subject: [PATCH 23/31] fix: cost and delay functions are optional from Python,
 and zero isn't a missing value

---
 src/pyslat.py      | 6 ++----
 src/pyslatcore.cpp | 6 +++---
 src/pyslatcore.h   | 9 ++++++---
 src/pyslatcore.i   | 2 +-
 4 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 2e183bf..7e1fc6a 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -223,14 +223,12 @@ def MakeBiLevelLossFn(parameters):
 # components, and the name of the component group.
 # @param edp The EDP driving the components
 # @param frag_fn The fragility function of the component
-# @param cost_fn A loss function representing the repair cost
+# @param cost_fn An (optional) loss function representing the repair cost
 # @param delay_fn An (optional) loss funtion representing the time
 #                 to repair the component
 # @param count The number of components
 # @param name  The name of the component group
 def MakeCompGroup(edp, frag_fn, cost_fn, delay_fn, count, cost_adjustment_factor, delay_adjustment_factor, name):
-    if (delay_fn == None):
-        delay_fn = MakeSimpleLossFn([DefaultLogNormalDist()])
     return pyslatcore.MakeCompGroup(edp, frag_fn, cost_fn, delay_fn, count, 
                                     cost_adjustment_factor,
                                     delay_adjustment_factor,
@@ -1021,7 +1019,7 @@ class simplelossfn(lossfn):
 
         params = []
         for d in data:
-            if d[0]:
+            if d[0] is not None:
                 params.append(MakeLogNormalDist(d[0], options['mu'], d[1], options['sd']))
             else:
                 params.append(DefaultLogNormalDist())
diff --git a/src/pyslatcore.cpp b/src/pyslatcore.cpp
index 90e66a5..dfc2e11 100644
--- a/src/pyslatcore.cpp
+++ b/src/pyslatcore.cpp
@@ -727,7 +727,7 @@ bool CompGroup::AreSame(const CompGroup &other)
     return this->wrapper == other.wrapper;
 }
 
-CompGroup *MakeCompGroup(EDP edp, FragilityFn frag_fn, LossFn cost_fn, LossFn delay_fn, int count, 
+CompGroup *MakeCompGroup(EDP edp, FragilityFn frag_fn, LossFn *cost_fn, LossFn *delay_fn, int count, 
                          double cost_adjustment_factor,
                          double delay_adjustment_factor,
                          std::string name)
@@ -735,8 +735,8 @@ CompGroup *MakeCompGroup(EDP edp, FragilityFn frag_fn, LossFn cost_fn, LossFn de
     return new CompGroup(std::make_shared<SLAT::CompGroup>( 
                              edp.relationship, 
                              frag_fn.fragility,
-                             cost_fn.loss,
-                             delay_fn.loss, 
+                             cost_fn ? cost_fn->loss : NULL,
+                             delay_fn ? delay_fn->loss : NULL,
                              count, 
                              cost_adjustment_factor,
                              delay_adjustment_factor,
diff --git a/src/pyslatcore.h b/src/pyslatcore.h
index 69f9cfc..55e8d0c 100644
--- a/src/pyslatcore.h
+++ b/src/pyslatcore.h
@@ -177,7 +177,7 @@ public:
 private:
     std::shared_ptr<SLAT::FragilityFn> fragility;
     friend CompGroup *MakeCompGroup(EDP edp, FragilityFn frag_fn,
-                                    LossFn cost_fn, LossFn delay_fn,
+                                    LossFn *cost_fn, LossFn *delay_fn,
                                     int count,
                                     double cost_adjustment_factor,
                                     double delay_adjustment_factor,
@@ -194,7 +194,7 @@ public:
 private:
     std::shared_ptr<SLAT::LossFn> loss;
     friend CompGroup *MakeCompGroup(EDP edp, FragilityFn frag_fn,
-                                    LossFn cost_fn, LossFn delay_fn, int count, 
+                                    LossFn *cost_fn, LossFn *delay_fn, int count, 
                                     double cost_adjustment_factor,
                                     double delay_adjustment_factor,
                                     std::string name);
@@ -227,7 +227,10 @@ private:
     friend class Structure;
 };
 
-CompGroup *MakeCompGroup(EDP edp, FragilityFn frag_fn, LossFn cost_fn, LossFn delay_fn, int count, 
+/*
+ * The cost and delay functions are optional; they may be NULL.
+ */
+CompGroup *MakeCompGroup(EDP edp, FragilityFn frag_fn, LossFn *cost_fn, LossFn *delay_fn, int count, 
                          double cost_adjustment_factor,
                          double delay_adjustment_factor,
                          std::string name);
diff --git a/src/pyslatcore.i b/src/pyslatcore.i
index 9f3662d..260ee25 100644
--- a/src/pyslatcore.i
+++ b/src/pyslatcore.i
@@ -200,7 +200,7 @@ private:
     friend class Structure;
 };
 
-CompGroup *MakeCompGroup(EDP edp, FragilityFn frag_fn, LossFn cost_fn, LossFn delay_fn, int count, 
+CompGroup *MakeCompGroup(EDP edp, FragilityFn frag_fn, LossFn *cost_fn, LossFn *delay_fn, int count, 
                          double cost_adjustment_factor, double delay_adjustment_factor,
                          std::string name);
 
-- 
2.43.0


From 9552bd409310ab43df44254a5a6b9c93df6d190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:46 +0000
Subject: [PATCH 24/31] fix: queries of groups and structures which Python
 documents but didn't provide

---
 src/pyslat.py      | 4 +++-
 src/pyslatcore.cpp | 9 +++++++++
 src/pyslatcore.i   | 1 +
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 7e1fc6a..88a72a2 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1384,7 +1384,9 @@ class structure:
     #          The first represents the cost of non-collapse (repair and
     #          demolition); the second represents the cost due to collapse.
     def DeaggregatedCost(self, im):
-        return self._structure.DeaggregatedCost(im)
+        result = self._structure.DeaggregatedCost(im)
+        return [lognormaldist(result[0]),
+                lognormaldist(result[1])]
 
     ## Return the components, grouped by EDP.
     #  @return A list, each item of which is list of component groups with 
diff --git a/src/pyslatcore.cpp b/src/pyslatcore.cpp
index dfc2e11..9fe05ea 100644
--- a/src/pyslatcore.cpp
+++ b/src/pyslatcore.cpp
@@ -3,6 +3,7 @@
 #include "pyslatcore.h"
 #include "context.h"
 #include "loss_functions.h"
+#include <cmath>
 #include <iostream>
 #include <set>
 #include <stdexcept>
@@ -698,6 +699,14 @@ double CompGroup::E_annual_cost(void)
     return wrapper->E_annual_cost();
 };
 
+double CompGroup::E_cost(int years, double discount_rate)
+{
+    if (discount_rate == 0) {
+        return years * E_annual_cost();
+    }
+    return ((1.0 - exp(-discount_rate * years)) / discount_rate) * E_annual_cost();
+}
+
 double CompGroup::lambda_cost(double cost)
 {
     return wrapper->lambda_cost(cost); 
diff --git a/src/pyslatcore.i b/src/pyslatcore.i
index 260ee25..61ebf0b 100644
--- a/src/pyslatcore.i
+++ b/src/pyslatcore.i
@@ -184,6 +184,7 @@ public:
     double E_Cost_IM(double edp);
     double SD_ln_Cost_IM(double edp);
     double E_annual_cost(void);
+    double E_cost(int years, double discount_rate);
     double E_Delay_EDP(double edp);
     double SD_ln_Delay_EDP(double edp);
     double E_Delay_IM(double edp);
-- 
2.43.0


From 1141787428dcabbb313744c8793295875a8fae74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:22 +0000
Subject: [PATCH 25/31] fix: structures and groups follow redefinitions from
 Python, and refused groups aren't half added

---
 src/pyslat.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 88a72a2..823aad3 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -20,6 +20,14 @@ def eprint(*args, **kwargs):
 
 pyslatcore.Initialise()
 
+## Return the latest definition of an object.
+# An object which has been redefined (that is, whose name has been used again)
+# has been replaced wherever the library uses it.
+def _latest(obj):
+    while getattr(obj, '_replaced_by', None) is not None:
+        obj = obj._replaced_by
+    return obj
+
 def ClearCaches():
     detfn.defs = dict()
     probfn.defs = dict()
@@ -594,6 +602,7 @@ class im:
             old = im.lookup(id)
             if old:
                 im.defs[id]._func.replace(self._func)
+                old._replaced_by = self
             im.defs[id] = self
 
     ## Return the 'max' value, which is used by the GUI as a hint
@@ -733,6 +742,7 @@ class edp:
             old = edp.lookup(id)
             if old:
                 edp.defs[id]._func.replace(self._func)
+                old._replaced_by = self
         edp.defs[id] = self
 
     ## Return the edp object with the corresponding id.
@@ -762,7 +772,7 @@ class edp:
 
     ## Return the IM driving the EDP.
     def get_IM(self):
-        return self._im
+        return _latest(self._im)
 
     ## Return the probabilitic function describing the EDP|IM relationship.
     def function(self):
@@ -874,6 +884,7 @@ class fragfn:
             old = fragfn.lookup(id)
             if old:
                 fragfn.defs[id]._func.replace(self._func)
+                old._replaced_by = self
             fragfn.defs[id] = self
             
 
@@ -1128,6 +1139,7 @@ class compgroup:
             old = compgroup.lookup(id)
             if old:
                 compgroup.defs[id]._func.replace(self._func)
+                old._replaced_by = self
             compgroup.defs[id] = self
 
     ## Return the compgroup object with the corresponding id.
@@ -1143,15 +1155,15 @@ class compgroup:
 
     ## Return the im driving the EDP affecting the components.
     def get_IM(self):
-        return self._edp.get_IM()
+        return _latest(self._edp).get_IM()
 
     ## Return the fragility function.
     def fragfn(self):
-        return self._frag
+        return _latest(self._frag)
 
     ## Return the number of damage states.
     def size(self):
-        return self._frag.size()
+        return self.fragfn().size()
         
     ## Return the underlying pyslatcore::CompGroup.
     def function(self):
@@ -1283,7 +1295,7 @@ class structure:
 
     ## Return the im connected to the structure.
     def get_IM(self):
-        return self._im
+        return _latest(self._im)
 
     ## Return the pdf|im for the structure:
     def pdf(self, im):
@@ -1299,14 +1311,9 @@ class structure:
     #
     # @todo Test that IM mis-matches are handled correctly.
     def AddCompGroup(self, group):
+        # The library raises an error if the group is tied to the wrong IM
         self._structure.AddCompGroup(group.function())
-        if self._im == None:
-            self._im = group.get_IM()
-        else:
-            if not(self._im == group.get_IM()):
-                raise ValueError("Component group tied to wrong IM " +
-                                 "(expected " + self._im + "; got " + 
-                                 group.get_IM() << ")");
+        self._im = group.get_IM()
 
     ## Remove a component group from the structure.
     #
-- 
2.43.0


From 7580a047dbf7b59e454289bba4374f153b6761c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:01 +0000
Subject: [PATCH 26/31] fix: missing and empty objects from Python are refused,
 not dereferenced

---
 src/pyslatcore.cpp |  9 +++++++++
 src/pyslatcore.i   | 14 ++++++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/pyslatcore.cpp b/src/pyslatcore.cpp
index 9fe05ea..5190299 100644
--- a/src/pyslatcore.cpp
+++ b/src/pyslatcore.cpp
@@ -605,6 +605,9 @@ FragilityFn *MakeFragilityFn(std::vector<LogNormalDist *> distributions)
 {
     std::vector<SLAT::LogNormalDist> slat_distributions(distributions.size());
     for (size_t i=0; i < distributions.size(); i++) {
+        if (distributions[i] == NULL) {
+            throw std::invalid_argument("Missing distribution.");
+        }
         slat_distributions[i] = *(distributions[i]->dist);
     };
     return new FragilityFn(std::make_shared<SLAT::FragilityFn>(slat_distributions));
@@ -630,6 +633,9 @@ LossFn *MakeSimpleLossFn(std::vector<LogNormalDist *> distributions)
 {
     std::vector<SLAT::LogNormalDist> slat_distributions(distributions.size());
     for (size_t i=0; i < distributions.size(); i++) {
+        if (distributions[i] == NULL) {
+            throw std::invalid_argument("Missing distribution.");
+        }
         slat_distributions[i] = *(distributions[i]->dist);
     };
     return new LossFn(std::make_shared<SLAT::SimpleLossFn>(slat_distributions));
@@ -649,6 +655,9 @@ LossFn *MakeBiLevelLossFn(std::vector<BiLevelLoss *> losses)
 {
     std::vector<std::shared_ptr<SLAT::BiLevelLoss>> slat_losses(losses.size());
     for (size_t i=0; i < losses.size(); i++) {
+        if (losses[i] == NULL) {
+            throw std::invalid_argument("Missing bi-level loss.");
+        }
         slat_losses[i] = losses[i]->loss;
     };
     return new LossFn(std::make_shared<SLAT::BiLevelLossFn>(slat_losses));
diff --git a/src/pyslatcore.i b/src/pyslatcore.i
index 61ebf0b..faed9a7 100644
--- a/src/pyslatcore.i
+++ b/src/pyslatcore.i
@@ -9,6 +9,7 @@
 %include <std_list.i>
 %include <std_map.i>
 %include <exception.i>
+%include <constraints.i>
 
 /*
  * Pass exceptions on to Python, rather than letting them end the program.
@@ -23,6 +24,17 @@
     }
 }
 
+/*
+ * Objects which can't be NULL: there's nothing to replace them with.
+ */
+%apply Pointer NONNULL { DeterministicFn *f, ProbabilisticFn *f, IM *im, EDP *edp,
+                         FragilityFn *fragfn, LossFn *lossfn, CompGroup *cg };
+
+/*
+ * Objects are made by the factory functions; others would be empty.
+ */
+%nodefaultctor;
+
 namespace std{
     %template(VectorDouble) std::vector<double>;
     %template(VectorLogNormal_p) std::vector<LogNormalDist *>;
@@ -100,7 +112,6 @@ LogNormalDist * MakeLogNormalDist(void);
 
 class IM {
 public:
-    IM();
     double get_lambda(double x);
     std::vector<double> get_lambda(std::vector<double> x);
     void SetCollapse(LogNormalDist c);
@@ -120,7 +131,6 @@ IM *MakeIM(DeterministicFn f);
 
 class EDP {
 public:
-    EDP();
     double get_lambda(double x);
     std::vector<double> get_lambda(std::vector<double> x);
     double P_exceedence(double x, double y);
-- 
2.43.0


From cb02ca64a680d8a97d7fbca312095daa87d6248b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 27/31] fix: recorders print the columns and points they were
 asked for, of the latest definitions

Numeric columns of edpim were skipped, and requested columns of dsedp and dsim
only changed the headings; unknown columns printed stale or misaligned values.
Whole numbers as points, deagg, and recorders without a file weren't possible.
Long headings ran into one another.
---
 src/pyslat.py | 220 +++++++++++++++++++++++++++-----------------------
 1 file changed, 120 insertions(+), 100 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 823aad3..be75f9f 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -405,6 +405,7 @@ class detfn:
             old = detfn.lookup(id)
             if old:
                 old._func.replace(self._func)
+                old._replaced_by = self
             detfn.defs[id] = self
 
     ## Return the detfn object with the corresponding id.
@@ -428,8 +429,8 @@ class detfn:
     ## Return a string describing the detfn object.
     #  Used for debugging, warning, and error messages.
     def __str__(self):
-        return("Deterministic Function '{}', of type '{}', " +
-               "from parameters {}.".format(self._id, 
+        return(("Deterministic Function '{}', of type '{}', " +
+               "from parameters {}.").format(self._id, 
                                             self._type,
                                             self._parameters))
 
@@ -491,6 +492,7 @@ class probfn:
             old = probfn.lookup(id)
             if old:
                 old._func.replace(self._func)
+                old._replaced_by = self
             probfn.defs[id] = self
 
     
@@ -1460,12 +1462,14 @@ class recorder:
         self._function = function
         self._options = options
         self._at = at
-        if at != None:
+        if at is not None:
             self._at = list(at)
+            if options.get('structcost-type') != 'npv':
+                self._at = list(map(float, self._at))
 
         if not type == 'dsrate' and not type == 'collrate' \
            and not type == 'structcost' \
-           and at==None:
+           and at is None:
             raise ValueError('MUST PROVIDE ''AT'' CLAUSE')
 
         if (type =='dsedp' or type == 'dsim') and columns == None:
@@ -1511,13 +1515,28 @@ class recorder:
 
         return "Recorder: {} {} {} {} {}".format(self._type, self._function, self._options, self._columns, atprint)
 
+    ## The value to print for a damage state column.
+    #  @param column 'DS1', 'DS2', ..., the (one-based) number of a damage state,
+    #         or 'E(DS)', the sum of them all.
+    #  @param values A value for each damage state.
+    def _damage_state(self, column, values):
+        if column == 'E(DS)':
+            return sum(values)
+        n = column
+        if isinstance(column, str) and column.startswith('DS') and column[2:].isdigit():
+            n = int(column[2:])
+        if isinstance(n, int) and 1 <= n <= len(values):
+            return values[n - 1]
+        raise ValueError("Invalid column: {}".format(column))
+
     ## Generate the output for the recorder. 
     # The output is sent to stdout; the calling function ('run()') will 
     # redirect it as necessary.
     def generate_output(self):
         #print(self)
+        function = _latest(self._function)
         if self._type == 'dsrate':
-            rates = self._function.Rate()
+            rates = function.Rate()
             line1 = ""
             line2 = ""
             for i in range(len(rates)):
@@ -1546,10 +1565,10 @@ class recorder:
 
             x_label = labels[self._type][0]
             if x_label == 'IM':
-                if isinstance(self._function, im):
-                    x_label = self._function.id()
+                if isinstance(function, im):
+                    x_label = function.id()
                 else:
-                    x_label = self._function.get_IM().id()
+                    x_label = function.get_IM().id()
             y_label = labels[self._type][1]
 
             if y_label:
@@ -1560,38 +1579,42 @@ class recorder:
                       
             line = "{:>15}".format(x_label)
             for y in y_label:
-                    line = "{}{:>15}".format(line, y)
+                    line = "{} {:>14}".format(line, y)
             print(line)
 
 
             if self._type == 'imrate':
-                yvals = self._function.getlambda(self._at)
+                yvals = function.getlambda(self._at)
                 for x, y in zip(self._at, yvals):
                     print("{:>15.6}{:>15.6}".format(x, y))
             elif self._type == 'collapse':
-                yvals_demo = self._function.pDemolition(self._at)
-                yvals_coll = self._function.pCollapse(self._at)
+                yvals_demo = function.pDemolition(self._at)
+                yvals_coll = function.pCollapse(self._at)
                 for x, demo, coll in zip(self._at, yvals_demo, yvals_coll):
                     print("{:>15.6}{:>15.6}{:>15.6}".format(x, demo, coll))
             elif self._type == 'edpim':
                 yvals = []
                 for y in self._columns:
-                    if y == 'mean_x':
-                        yvals.append(self._function.Mean(self._at))
+                    if isinstance(y, numbers.Number):
+                        yvals.append([function.X_at_exceedence(x, y) for x in self._at])
+                    elif y == 'mean_x':
+                        yvals.append(function.Mean(self._at))
                     elif y == 'mean_ln_x':
-                        yvals.append(self._function.MeanLn(self._at))
+                        yvals.append(function.MeanLn(self._at))
                     elif y == 'median_x':
-                        yvals.append(self._function.Median(self._at))
+                        yvals.append(function.Median(self._at))
                     elif y == 'sd_ln_x':
-                        yvals.append(self._function.SD_ln(self._at))
+                        yvals.append(function.SD_ln(self._at))
                     elif y == 'sd_x':
-                        yvals.append(self._function.SD(self._at))
+                        yvals.append(function.SD(self._at))
+                    else:
+                        raise ValueError("Invalid column: {}".format(y))
                 for x, y in zip(self._at, map(list, zip(*yvals))):
                     line = "{:>15.6}".format(x)
                     for yval in y:
                         line = "{}{:>15.6}".format(line, yval)
                     print(line)
-#            elif type(self._function) == edp:
+#            elif type(function) == edp:
 #                print(self._type)
 #                print(self._columns)
 #                raise ValueError("EDP: " + self._type)
@@ -1599,90 +1622,84 @@ class recorder:
                 for x in self._at:
                     line = "{:>15.6}".format(x)
                     if self._type == 'dsedp':
-                        yvals = self._function.fragfn().pExceeded(x)
-                        for y in yvals:
-                            line = "{}{:>15.6}".format(line, y)
-                        line = "{}{:>15.6}".format(line, sum(yvals))
+                        yvals = function.fragfn().pExceeded(x)
+                        for y in self._columns:
+                            line = "{}{:>15.6}".format(line, self._damage_state(y, yvals))
                     elif self._type == 'dsim':
-                        yvals = self._function.pDS_IM(x)
-                        for y in yvals:
-                            line = "{}{:>15.6}".format(line, y)
-                        line = "{}{:>15.6}".format(line, sum(yvals))
+                        yvals = function.pDS_IM(x)
+                        for y in self._columns:
+                            line = "{}{:>15.6}".format(line, self._damage_state(y, yvals))
                     elif self._type == 'costrate':
-                        loss_rate = self._function.lambda_cost(x)
+                        loss_rate = function.lambda_cost(x)
                         line = "{}{:>15.6}".format(line, loss_rate)
                     elif self._type == 'deagg':
-                        values = self._function.DeaggregatedLoss(x)
-                        nc = values[0]
-                        c = values[1]
+                        nc, c = function.DeaggregatedCost(x)
                         line = "{}{:>15.6}{:>15.6}{:>15.6}{:>15.6}".format(
-                            x, 
-                            nc.get_mean_X(), nc.get_sigma_lnX(), 
-                            c.get_mean_X(), c.get_sigma_lnX())
-                    elif not self._columns == None:
+                            line,
+                            nc.mean(), nc.sd_ln(),
+                            c.mean(), c.sd_ln())
+                    elif not self._columns == None and labels[self._type][1] is None:
                         line = "{:>15.6}".format(x)
                         for y in self._columns:
                             if isinstance(y, numbers.Number):
-                                if isinstance(self._function, probfn):
-                                    yval = self._function.function().X_at_exceedence(x, y)
-                                elif isinstance(self._function, edp):
-                                    yval = self._function.X_at_exceedence(x, y)
+                                if isinstance(function, probfn):
+                                    yval = function.X_at_exceedence(x, y)
+                                elif isinstance(function, edp):
+                                    yval = function.X_at_exceedence(x, y)
                                 else:
                                     yval = "----"
                             elif y == 'mean_x':
                                 if self._type == 'costedp':
-                                    yval = self._function.E_Cost_EDP(x)
+                                    yval = function.E_Cost_EDP(x)
                                 elif self._type == 'costim':
-                                    yval = self._function.E_Cost_IM(x)
+                                    yval = function.E_Cost_IM(x)
                                 elif self._type == 'delayim':
-                                    yval = self._function.E_Delay_IM(x)
+                                    yval = function.E_Delay_IM(x)
                                 elif self._type == 'delayedp':
-                                    yval = self._function.E_Delay_EDP(x)
+                                    yval = function.E_Delay_EDP(x)
                                 elif self._type == 'totalcost':
-                                    yval = self._function.TotalCost(x).mean()
+                                    yval = function.TotalCost(x).mean()
                                 else:
-                                    yval = self._function.Mean(x)
+                                    yval = function.Mean(x)
                             elif y == 'mean_ln_x':
                                 if self._type == 'totalcost':
-                                    yval = self._function.TotalCost(x).mean_ln()
+                                    yval = function.TotalCost(x).mean_ln()
                                 else:
-                                    yval = self._function.MeanLn(x)
+                                    yval = function.MeanLn(x)
                             elif y == 'median_x':
                                 if self._type == 'totalcost':
-                                    yval = self._function.TotalCost(x).median()
+                                    yval = function.TotalCost(x).median()
                                 else:
-                                    yval = self._function.Median(x)
+                                    yval = function.Median(x)
                             elif y == 'sd_ln_x':
                                 if self._type == 'costedp':
-                                    yval = self._function.SD_ln_Cost_EDP(x)
+                                    yval = function.SD_ln_Cost_EDP(x)
                                 elif self._type == 'costim':
-                                    yval = self._function.SD_ln_Cost_IM(x)
+                                    yval = function.SD_ln_Cost_IM(x)
                                 elif self._type == 'delayim':
-                                    yval = self._function.SD_ln_Delay_IM(x)
+                                    yval = function.SD_ln_Delay_IM(x)
                                 elif self._type == 'delayedp':
-                                    yval = self._function.SD_ln_Delay_EDP(x)
+                                    yval = function.SD_ln_Delay_EDP(x)
                                 elif self._type == 'totalcost':
-                                    yval = self._function.TotalCost(x).sd_ln()
+                                    yval = function.TotalCost(x).sd_ln()
                                 else:
-                                    yval = self._function.SD_ln(x)
+                                    yval = function.SD_ln(x)
                             elif y == 'sd_x':
                                 if self._type == 'totalcost':
-                                    yval = self._function.TotalCost(x).sd()
+                                    yval = function.TotalCost(x).sd()
                                 else:
-                                    yval = self._function.SD(x)
+                                    yval = function.SD(x)
                             else:
                                 yval = "+++++++++"
                             line = "{}{:>15.6}".format(line, yval)
                     else:
-                        if isinstance(self._function, detfn):
-                            yval = self._function.ValueAt(x)
-                        elif (isinstance(self._function, im) or
-                              isinstance(self._function, edp) or
-                              isinstance(self._function, IM) or
-                              isinstance(self._function, EDP)):
-                              yval = self._function.getlambda(x)
-                        elif isinstance(self._function, compgroup):
-                              yval = self._function.E_Cost_EDP(x)
+                        if isinstance(function, detfn):
+                            yval = function.ValueAt(x)
+                        elif (isinstance(function, im) or
+                              isinstance(function, edp)):
+                              yval = function.getlambda(x)
+                        elif isinstance(function, compgroup):
+                              yval = function.E_Cost_EDP(x)
                         else:
                             yval = "*****"
                         line = "{}{:>15.6}".format(line, yval)
@@ -1693,13 +1710,11 @@ class recorder:
     #  as required.
     def run(self):
         #print("RUN {}".format(self))
-        destination = full_output_path(self._options.get('filename'))
+        destination = self._options.get('filename')
         if destination != None:
-            if self._options.get('append'):
-                f = open(destination, "a")
-            else:
-                f = open(destination, "w")
-            with redirect_stdout(f):
+            destination = full_output_path(destination)
+            mode = "a" if self._options.get('append') else "w"
+            with open(destination, mode) as f, redirect_stdout(f):
                 self.generate_output()
 
         else:
@@ -1719,8 +1734,9 @@ class CollRateRecorder(recorder):
     #  including column headers.
     def generate_output(self):
         print("{:>15}{:>30}{:>30}".format("IM", "rate(Demolition)", "rate(Collapse)"))
-        print("{:>15}{:>30}{:>30}".format(self._function.id(), self._function.DemolitionRate(),
-                                          self._function.CollapseRate()))
+        function = _latest(self._function)
+        print("{:>15}{:>30}{:>30}".format(function.id(), function.DemolitionRate(),
+                                          function.CollapseRate()))
 ## Structure Cost Recorder
 #  This subclass represents the ''structcost' recorder.
 #  It handles all the variations of 'structcost' supported by the SLAT language.
@@ -1735,7 +1751,7 @@ class StructcostRecorder(recorder):
         print("columns: ", columns)
         print("at: ", at)
         if  (not options['structcost-type'] == 'annual') \
-            and at==None:
+            and at is None:
             raise ValueError('MUST PROVIDE ''AT'' CLAUSE')
 
         if columns == None or len(columns) == 0:
@@ -1754,12 +1770,13 @@ class StructcostRecorder(recorder):
     #       
     #  @todo Refactor code for 'by-*' cases.
     def generate_output(self):
+        function = _latest(self._function)
         if self._options['structcost-type'] == 'annual':
             line1 = ""
             line2 = ""
-            annual_loss = self._function.AnnualCost()
+            annual_loss = function.AnnualCost()
             for y_label in self._columns:
-                line1 = "{}{:>15}".format(line1, y_label)
+                line1 = "{} {:>14}".format(line1, y_label)
                 if y_label=='mean_x':
                     value = annual_loss.mean()
                 elif y_label=='mean_ln_x':
@@ -1770,16 +1787,18 @@ class StructcostRecorder(recorder):
                     value = annual_loss.sd_ln()
                 elif y_label=='sd_x':
                     value = annual_loss.sd()
+                else:
+                    raise ValueError("Invalid column: {}".format(y_label))
                 line2 = "{}{:>15.6}".format(line2, value)
             print(line1)
             print(line2)
         elif self._options['structcost-type'] == 'by-edp':
-            components = self._function.ComponentsByEDP();
+            components = function.ComponentsByEDP();
             groups = dict()
             for c in components:
                 groups[edp.lookup(c[0].get_EDP()).id()] = c
 
-            x_label = self._function.get_IM().id()
+            x_label = function.get_IM().id()
             y_label = self._columns
             categories = list(groups.keys())
             categories.sort()
@@ -1788,7 +1807,7 @@ class StructcostRecorder(recorder):
             line = "{:>15}".format(x_label)
             for c in categories:
                 for y in y_label:
-                    line = "{}{:>15}".format(line, "{}.{}".format(c, y))
+                    line = "{} {:>14}".format(line, "{}.{}".format(c, y))
             print(line)
 
             for x in self._at:
@@ -1806,28 +1825,28 @@ class StructcostRecorder(recorder):
                     for y in self._columns:
                         if y == 'mean_x':
                             yval = dist.mean()
-                        elif y== 'mean_ln':
+                        elif y == 'mean_ln_x' or y == 'mean_ln':
                             yval = dist.mean_ln()
-                        elif y== 'median':
+                        elif y == 'median_x' or y == 'median':
                             yval = dist.median()
                         elif y == 'sd_ln_x':
                             yval = dist.sd_ln()
                         elif y == 'sd_x':
                             yval = dist.sd()
                         else:
-                            yval = None
+                            raise ValueError("Invalid column: {}".format(y))
                         
                         line = "{}{:>15.6}".format(line, yval)
                 print(line)
             
                 
         elif self._options['structcost-type'] == 'by-frag':
-            components = self._function.ComponentsByFragility();
+            components = function.ComponentsByFragility();
             groups = dict()
             for c in components:
                 groups[compgroup.lookup(c[0]).fragfn().id()] = c
 
-            x_label = self._function.get_IM().id()
+            x_label = function.get_IM().id()
             y_label = self._columns
             categories = list(groups.keys())
             categories.sort()
@@ -1836,7 +1855,7 @@ class StructcostRecorder(recorder):
             line = "{:>15}".format(x_label)
             for c in categories:
                 for y in y_label:
-                    line = "{}{:>20}".format(line, "{}.{}".format(c, y))
+                    line = "{} {:>19}".format(line, "{}.{}".format(c, y))
             print(line)
 
             for x in self._at:
@@ -1854,57 +1873,57 @@ class StructcostRecorder(recorder):
                     for y in self._columns:
                         if y == 'mean_x':
                             yval = dist.mean()
-                        elif y== 'mean_ln':
+                        elif y == 'mean_ln_x' or y == 'mean_ln':
                             yval = dist.mean_ln()
-                        elif y== 'median':
+                        elif y == 'median_x' or y == 'median':
                             yval = dist.median()
                         elif y == 'sd_ln_x':
                             yval = dist.sd_ln()
                         elif y == 'sd_x':
                             yval = dist.sd()
                         else:
-                            yval = None
+                            raise ValueError("Invalid column: {}".format(y))
                         
                         line = "{}{:>20.6}".format(line, yval)
                 print(line)
                 
 
         elif self._options['structcost-type'] == 'by-fate':
-            x_label = self._function.get_IM().id()
+            x_label = function.get_IM().id()
             y_label = self._columns
             fates = ['repair', 'demo', 'coll']
 
             line = "{:>15}".format(x_label)
             for f in fates:
                 for y in y_label:
-                    line = "{}{:>15}".format(line, "{}.{}".format(f, y))
+                    line = "{} {:>14}".format(line, "{}.{}".format(f, y))
             print(line)
 
             for x in self._at:
                 line = "{:>15.6}".format(x)
                 for f in fates:
                     if f == 'repair':
-                        dist = self._function.CostsByFate(x)[0]
+                        dist = function.CostsByFate(x)[0]
                     elif f == 'demo':
-                        dist = self._function.CostsByFate(x)[1]
+                        dist = function.CostsByFate(x)[1]
                     elif f == 'coll':
-                        dist = self._function.CostsByFate(x)[2]
+                        dist = function.CostsByFate(x)[2]
                     else:
                         dist = None
 
                     for y in self._columns:
                         if y == 'mean_x':
                             yval = dist.mean()
-                        elif y== 'mean_ln':
+                        elif y == 'mean_ln_x' or y == 'mean_ln':
                             yval = dist.mean_ln()
-                        elif y== 'median':
+                        elif y == 'median_x' or y == 'median':
                             yval = dist.median()
                         elif y == 'sd_ln_x':
                             yval = dist.sd_ln()
                         elif y == 'sd_x':
                             yval = dist.sd()
                         else:
-                            yval = None
+                            raise ValueError("Invalid column: {}".format(y))
                         
                         line = "{}{:>15.6}".format(line, yval)
                 print(line)
@@ -1913,7 +1932,7 @@ class StructcostRecorder(recorder):
             print("{:>15}{:>15}".format("Year", "E[ALt]"))
             for year in self._at:
                 line = "{:>15}".format(year)
-                e = self._function.E_cost(year, discount_rate)
+                e = function.E_cost(year, discount_rate)
                 line = "{}{:>15.6}".format(line, e)
                 print(line)
         else:
@@ -1932,11 +1951,12 @@ class PdfRecorder(recorder):
     ## Print the IM identifier and pdf
     #  including column headers.
     def generate_output(self):
-        print("{:>15.6}{:>15.6}".format(self._function.get_IM().id(), "pdf"))
+        function = _latest(self._function)
+        print("{:>15}{:>15}".format(function.get_IM().id(), "pdf"))
         results = []
         max_pdf = 0
         for im in self._at:
-            pdf = self._function.pdf(im)
+            pdf = function.pdf(im)
             results.append(pdf)
             if (pdf > max_pdf):
                 max_pdf = pdf
-- 
2.43.0


From 315a882103d11a3721168764710be0f390c22ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:28 +0000
Subject: [PATCH 28/31] fix: SLAT scripts: interpolated functions, defaults,
 escapes, dictionaries, and undefined names

Interpolated functions couldn't be defined; omitted --mu and --sd options
weren't the documented defaults; nested quotes lost their ends; dictionaries
and function names from variables failed, and integration settings from
variables were mixed up. Undefined names (e.g. of a delay function) and
characters which aren't part of the language were silently ignored, and an
increment of zero never ended.
---
 src/SlatInterpreter.py | 197 +++++++++++++++++++++++------------------
 src/pyslat.py          |   2 +
 src/slatLexer.g4       |   4 +-
 3 files changed, 115 insertions(+), 88 deletions(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index f9b4b35..75d952f 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -7,6 +7,7 @@ import sys
 import io
 import re
 from antlr4 import *
+from antlr4.error.ErrorListener import ErrorListener
 from slatLexer import slatLexer
 from slatParser import slatParser
 from slatParserListener import slatParserListener
@@ -21,7 +22,21 @@ from contextlib import redirect_stdout
 #
 #  Escape quotes.
 def preprocess_string(s):        
-    return s.strip('\'"').replace('\\\"', '\"').replace('\\\'', '\'').replace('\\\\', '\\')
+    return re.sub(r'\\(["\'\\])', r'\1', s[1:-1])
+
+## Find an object which has been defined.
+#  @param cls The pyslat class of the object.
+#  @param id The identifier the object was given.
+def find(cls, id):
+    result = cls.lookup(id)
+    if result is None:
+        raise ValueError("Undefined {}: '{}'".format(cls.__name__, id))
+    return result
+
+## Reports characters which aren't part of the language.
+class LexerErrorListener(ErrorListener):
+    def syntaxError(self, recognizer, offendingSymbol, line, column, msg, e):
+        raise ValueError("line {}:{} {}".format(line, column, msg))
 
 ## Interpreter class
 #
@@ -88,7 +103,7 @@ class SlatInterpreter(slatParserListener):
             type = 'loglog'
             fntype = pyslat.FUNCTION_TYPE.LOGLOG
         elif ctx.linear_args():
-            type = 'lin'
+            type = 'linear'
             fntype = pyslat.FUNCTION_TYPE.LIN
         else:
             raise ValueError("Unhandled DETFN type.")
@@ -96,10 +111,7 @@ class SlatInterpreter(slatParserListener):
 
         id = ctx.ID().getText()
         print(type)
-        if type == 'loglog' or type == 'lin':
-            pyslat.detfn(id, type, value[0], value[1])
-        else:
-            pyslat.detfn(id, type, value)
+        pyslat.detfn(id, type, value)
 
     ## Enter a parse tree produced by slatParser#loglog
     def enterLoglog_args(self, ctx:slatParser.Loglog_argsContext):
@@ -116,6 +128,14 @@ class SlatInterpreter(slatParserListener):
             y_values.append(pair[1])
         self._stack.append([x_values, y_values])
 
+    ## Enter a parse tree produced by slatParser#linear
+    def enterLinear_args(self, ctx:slatParser.Linear_argsContext):
+        self.enterLoglog_args(ctx)
+
+    ## Exit a parse tree produced by slatParser#linear
+    def exitLinear_args(self, ctx:slatParser.Linear_argsContext):
+        self.exitLoglog_args(ctx)
+
     ## Exit a parse tree produced by slatParser#scalar.
     def exitScalar(self, ctx:slatParser.ScalarContext):
         if ctx.STRING():
@@ -140,7 +160,9 @@ class SlatInterpreter(slatParserListener):
     ## Exit a parse tree produced by slatParser#var_ref.
     def exitVar_ref(self, ctx:slatParser.Var_refContext):
         variable = ctx.ID().getText()
-        value = self._variables.get(variable)
+        if variable not in self._variables:
+            raise ValueError("Undefined variable: '{}'".format(variable))
+        value = self._variables[variable]
         self._stack.append(value)
 
     ## Exit a parse tree produced by slatParser#numerical_scalar.
@@ -192,7 +214,10 @@ class SlatInterpreter(slatParserListener):
 
     ## Exit a parse tree produced by slatParser#dictionary_entry.
     def exitDictionary_entry(self, ctx:slatParser.Dictionary_entryContext):
-        key = (ctx.ID() or preprocess_string(ctx.STRING()).getText())
+        if ctx.ID():
+            key = ctx.ID().getText()
+        else:
+            key = preprocess_string(ctx.STRING().getText())
         value = self._stack.pop()
         self._stack.append([key, value])
 
@@ -200,46 +225,32 @@ class SlatInterpreter(slatParserListener):
     def exitProbfn_command(self, ctx:slatParser.Probfn_commandContext):
         id = ctx.ID().getText()
         refs = ctx.function_ref()
-        mufn = (refs[0].ID() or refs[0].var_ref()).getText() 
-        sigmafn = (refs[1].ID() or refs[1].var_ref()).getText()
-        options = self._stack.pop()
-        mu = options['mu']
-        sd = options['sd']
+        mu, sd = self._pop_lognormal_options()
+        sigmafn = self._stack.pop() if refs[1].var_ref() else refs[1].ID().getText()
+        mufn = self._stack.pop() if refs[0].var_ref() else refs[0].ID().getText()
 
-        pyslat.probfn(id, 'lognormal', [mu, pyslat.detfn.lookup(mufn)], [sd, pyslat.detfn.lookup(sigmafn)])
+        pyslat.probfn(id, 'lognormal', [mu, find(pyslat.detfn, mufn)], [sd, find(pyslat.detfn, sigmafn)])
 
     ## Exit a parse tree produced by slatParser#im_command.
     def exitIm_command(self, ctx:slatParser.Im_commandContext):
         im_id = ctx.ID(0).getText()
         fn_id = ctx.ID(1).getText()
-        pyslat.im(im_id, pyslat.detfn.lookup(fn_id))
+        pyslat.im(im_id, find(pyslat.detfn, fn_id))
 
     def exitCollapse_command(self, ctx:slatParser.Collapse_commandContext):
         id = ctx.ID().getText()
-        options = self._stack.pop()
-        params = self._stack.pop()
-        mu = params[0]
-        sd = params[1]
-
-        dist = pyslat.MakeLogNormalDist(mu, options['mu'], sd, options['sd'])
-        pyslat.im.lookup(id).SetCollapse(dist)
+        find(pyslat.im, id).SetCollapse(self._pop_lognormal_dist())
 
     def exitDemolition_command(self, ctx:slatParser.Demolition_commandContext):
         id = ctx.ID().getText()
-        options = self._stack.pop()
-        params = self._stack.pop()
-        mu = params[0]
-        sd = params[1]
-
-        dist = pyslat.MakeLogNormalDist(mu, options['mu'], sd, options['sd'])
-        pyslat.im.lookup(id).SetDemolition(dist)
+        find(pyslat.im, id).SetDemolition(self._pop_lognormal_dist())
 
     ## Exit a parse tree produced by slatParser#edp_command.
     def exitEdp_command(self, ctx:slatParser.Edp_commandContext):
         edp_id = ctx.ID(0).getText()
         im_id = ctx.ID(1).getText()
         fn_id = ctx.ID(2).getText()
-        pyslat.edp(edp_id, pyslat.im.lookup(im_id), pyslat.probfn.lookup(fn_id))
+        pyslat.edp(edp_id, find(pyslat.im, im_id), find(pyslat.probfn, fn_id))
 
     ## Exit a parse tree produced by slatParser#fragfn_command.
     def exitFragfn_command(self, ctx:slatParser.Fragfn_commandContext):
@@ -250,10 +261,10 @@ class SlatInterpreter(slatParserListener):
             pyslat.fragfn_db(id, db_params)
         else:
             params = ctx.fragfn_user_defined_params()
-            options = self._stack.pop()
+            mu, sd = self._pop_lognormal_options()
             scalars = self._stack.pop()
 
-            pyslat.fragfn_user(id, options, scalars)
+            pyslat.fragfn_user(id, {'mu': mu, 'sd': sd}, scalars)
 
     ## Exit a parse tree produced by slatParser#fragfn_db_params.
     def exitFragfn_db_params(self, ctx:slatParser.Fragfn_db_paramsContext):
@@ -297,17 +308,35 @@ class SlatInterpreter(slatParserListener):
             
         self._stack.append({"mu": mu, "sd":sd})
 
+    ## Pop the options of a lognormal distribution from the stack.
+    #  Unless otherwise specified, the parameters are the mean and standard
+    #  deviation of the log of the distribution.
+    #  @return The types of mu and sigma.
+    def _pop_lognormal_options(self):
+        options = self._stack.pop()
+        mu = options['mu']
+        sd = options['sd']
+        if mu is None:
+            mu = pyslat.LOGNORMAL_MU_TYPE.MEAN_LN_X
+        if sd is None:
+            sd = pyslat.LOGNORMAL_SIGMA_TYPE.SD_LN_X
+        return mu, sd
+
+    ## Pop a lognormal distribution from the stack.
+    def _pop_lognormal_dist(self):
+        mu, sd = self._pop_lognormal_options()
+        params = self._stack.pop()
+        return pyslat.MakeLogNormalDist(params[0], mu, params[1], sd)
+
     ## Exit a parse tree produced by slatParser#lossfn_command.
     def exitLossfn_command(self, ctx:slatParser.Lossfn_commandContext):
         print("--> exitLossfn_command()")
         id = ctx.ID().getText()
         print(ctx)
         if ctx.simple_loss_command():
-            options = self._stack.pop()
+            mu, sd = self._pop_lognormal_options()
             data = self._stack.pop()
-            print(options)
-            print(data)
-            pyslat.simplelossfn(id, options, data)
+            pyslat.simplelossfn(id, {'mu': mu, 'sd': sd}, data)
         elif ctx.bilevel_loss_command():
             data = self._stack.pop()
             pyslat.bilevellossfn(id, data)
@@ -359,10 +388,10 @@ class SlatInterpreter(slatParserListener):
             delay_adj_factor = float(floats[1].getText())
 
         pyslat.compgroup(compgroup_id,
-                         pyslat.edp.lookup(edp_id),
-                         pyslat.fragfn.lookup(frag_id),
-                         pyslat.lossfn.lookup(cost_id),
-                         delay_id and pyslat.lossfn.lookup(delay_id),
+                         find(pyslat.edp, edp_id),
+                         find(pyslat.fragfn, frag_id),
+                         find(pyslat.lossfn, cost_id),
+                         delay_id and find(pyslat.lossfn, delay_id),
                          count,
                          cost_adj_factor,
                          delay_adj_factor)
@@ -371,29 +400,21 @@ class SlatInterpreter(slatParserListener):
     ## Exit a parse tree prodcued by slatParser#structure_command.
     def exitStructure_command(self, ctx:slatParser.Structure_commandContext):
         id = ctx.ID().getText();
+        groups = [g.getText() for g in ctx.id_list().ID()]
+        compgroups = [find(pyslat.compgroup, g) for g in groups]
         s = pyslat.structure(id)
-        groups = []
-        for g in ctx.id_list().ID():
-            groups.append(g.getText())
-            s.AddCompGroup(pyslat.compgroup.lookup(g.getText()))
+        for g in compgroups:
+            s.AddCompGroup(g)
         print("Create structure {} from {}.".format(id, groups));
         
     ## Exit a parse tree prodcued by slatParser#rebuild_cost_command.
     def exitRebuildcost_command(self, ctx:slatParser.Rebuildcost_commandContext):
         id = ctx.ID().getText()
-        options = self._stack.pop()
-        params = self._stack.pop()
-        mu = params[0]
-        sd = params[1]
-        pyslat.structure.lookup(id).setRebuildCost(pyslat.MakeLogNormalDist(mu, options['mu'], sd, options['sd']))
+        find(pyslat.structure, id).setRebuildCost(self._pop_lognormal_dist())
 
     def exitDemolitioncost_command(self, ctx:slatParser.Demolitioncost_commandContext):
         id = ctx.ID().getText()
-        options = self._stack.pop()
-        params = self._stack.pop()
-        mu = params[0]
-        sd = params[1]
-        pyslat.structure.lookup(id).setDemolitionCost(pyslat.MakeLogNormalDist(mu, options['mu'], sd, options['sd']))
+        find(pyslat.structure, id).setDemolitionCost(self._pop_lognormal_dist())
         
     
     ## Exit a parse tree produced by slatParser#print_command.
@@ -410,19 +431,19 @@ class SlatInterpreter(slatParserListener):
             
             fntype = ctx.print_function()
             if fntype.DETFN():
-                object = pyslat.detfn.lookup(id)
+                object = find(pyslat.detfn, id)
             elif fntype.PROBFN():
-                object = pyslat.probfn.lookup(id)
+                object = find(pyslat.probfn, id)
             elif fntype.IM():
-                object = pyslat.im.lookup(id)
+                object = find(pyslat.im, id)
             elif fntype.EDP():
-                object = pyslat.edp.lookup(id)
+                object = find(pyslat.edp, id)
             elif fntype.FRAGFN():
-                object = pyslat.fragfn.lookup(id)
+                object = find(pyslat.fragfn, id)
             elif fntype.LOSSFN():
-                object = pyslat.lossfn.lookup(id)
+                object = find(pyslat.lossfn, id)
             elif fntype.COMPGROUP():
-                object = pyslat.compgroup.lookup(id)
+                object = find(pyslat.compgroup, id)
             else:
                 object = 'unknown'
         elif ctx.print_title():
@@ -436,12 +457,9 @@ class SlatInterpreter(slatParserListener):
 
         destination = options and options.get('filename')
         if destination != None:
-            if options.get('append'):
-                f = open(destination, "a")
-            else:
-                f = open(destination, "w")
-            with redirect_stdout(f):
-                print(message)
+            mode = "a" if options.get('append') else "w"
+            with open(destination, mode) as f:
+                print(message, file=f)
         else:
             print(message)
 
@@ -489,27 +507,26 @@ class SlatInterpreter(slatParserListener):
             else:
                 raise ValueError("Unrecognised search algorithm: " +
                                  ctx.integration_search_option().getText())
-            pyslat.Set_Integration_Method(search_method)
-
             if ctx.integration_search_option().INTEGER():
-                pyslat.Set_Integration_Search_Limit(ctx.integration_search_option().INTEGER().getText())
+                search_limit = int(ctx.integration_search_option().INTEGER().getText())
             else:
-                pyslat.Set_Integration_Search_Limit(self._stack.pop())
+                search_limit = self._stack.pop()
 
         method = ctx.integration_method()
         if method.MAQ():
             methodstring = "MAQ"
         else:
             raise ValueError("Unhandled integration type")
-        precision = self._stack.pop()
-        
         if ctx.INTEGER():
             iterations = int(ctx.INTEGER().getText())
         else:
             iterations = self._stack.pop()
+        precision = self._stack.pop()
         # TODO: Implement choice of methods
         pyslat.IntegrationSettings(precision, iterations);
-        
+        if (ctx.integration_search_option()):
+            pyslat.Set_Integration_Search_Limit(search_limit)
+            pyslat.Set_Integration_Method(search_method)
 
     ## Exit a parse tree produced by slatParser#recorder_command.
     def exitRecorder_command(self, ctx:slatParser.Recorder_commandContext):
@@ -579,7 +596,7 @@ class SlatInterpreter(slatParserListener):
                 
             elif ctx.ANNUAL_FLAG():
                 options['structcost-type'] = 'annual'
-                cols = []
+                annual_cols = []
                 for key, value in self._stack.pop().items():
                     if key == 'mu':
                         if value == pyslat.LOGNORMAL_MU_TYPE.MEAN_LN_X:
@@ -588,34 +605,38 @@ class SlatInterpreter(slatParserListener):
                             c = "mean_x"
                         elif value == pyslat.LOGNORMAL_MU_TYPE.MEDIAN_X:
                             c = "median_x"
-                        cols.append(c)
+                        else:
+                            continue
+                        annual_cols.append(c)
                     elif key == 'sd':
                         if value == pyslat.LOGNORMAL_SIGMA_TYPE.SD_LN_X:
                             c = "sd_ln_x"
                         elif value == pyslat.LOGNORMAL_SIGMA_TYPE.SD_X:
                             c = "sd_x"
-                        cols.append(c)
-                cols.sort()
+                        else:
+                            continue
+                        annual_cols.append(c)
+                cols = sorted(annual_cols) + (cols or [])
                 
         id = ctx.ID().getText()
 
         if type == "dsrate" or type == 'dsedp' or type == 'dsim':
-            function = pyslat.compgroup.lookup(id)
+            function = find(pyslat.compgroup, id)
         elif type == 'detfn':
-            function = pyslat.detfn.lookup(id)
+            function = find(pyslat.detfn, id)
         elif type == 'probfn':
-            function = pyslat.probfn.lookup(id)
+            function = find(pyslat.probfn, id)
         elif type == 'imrate' or type == 'collapse' or type == 'collrate':
-            function = pyslat.im.lookup(id)
+            function = find(pyslat.im, id)
         elif type == 'edpim' or type == 'edprate':
-            function = pyslat.edp.lookup(id)
+            function = find(pyslat.edp, id)
         elif type == 'lossds' or type == 'costedp' or type == 'costim' \
              or type == 'delayedp' or type == 'delayim' \
              or type == 'anncost' \
              or type == 'costrate':
-            function = pyslat.compgroup.lookup(id)
+            function = find(pyslat.compgroup, id)
         elif type == 'structcost' or type == 'deagg' or type == 'totalcost' or type == 'pdf':
-            function = pyslat.structure.lookup(id)
+            function = find(pyslat.structure, id)
         else:
             raise ValueError("Unhandled recorder type")
 
@@ -661,6 +682,9 @@ class SlatInterpreter(slatParserListener):
             self._stack.append(ctx.placement_type().getText())
         elif ctx.spread_type():
             self._stack.append(ctx.spread_type().getText())
+        elif isinstance(self._stack[-1], list):
+            # A variable or Python expression can provide several columns
+            self._stack.extend(self._stack.pop())
         # else scalar is already on the stack
 
     ## Enter a parse tree produced by slatParser#recorder_cols.
@@ -675,7 +699,7 @@ class SlatInterpreter(slatParserListener):
     ## Exit a parse tree produced by slatParser#python_script.
     def exitPython_script(self, ctx:slatParser.Python_scriptContext):
         expression =  ctx.python_expression().getText()
-        value = eval(expression, {"__builtins__": {}}, {"math":math, "numpy": np, "list":list, "map": map, "pyslat": pyslat})
+        value = eval(expression, {"__builtins__": {}, "math":math, "numpy": np, "list":list, "map": map, "pyslat": pyslat})
         #print("Evaluatate the Python expression '{}' --> {})".format(expression, value))
         self._stack.append(value)
         #print(self._stack)
@@ -735,6 +759,7 @@ def main(argv):
 
         input = InputStream(text)
         lexer = slatLexer(input)
+        lexer.addErrorListener(LexerErrorListener())
         stream = CommonTokenStream(lexer)
         parser = slatParser(stream)
         parser._errHandler = BailErrorStrategy()
diff --git a/src/pyslat.py b/src/pyslat.py
index be75f9f..5873e49 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -80,6 +80,8 @@ def full_output_path(path):
 # @param stop The ending value.
 # @param step The increment.
 def frange(start, stop, step):
+    if not step > 0:
+        raise ValueError("The increment must be positive: {}".format(step))
     i = start
     while i <= stop + step/2:
         yield i
diff --git a/src/slatLexer.g4 b/src/slatLexer.g4
index 2ceee88..79740f8 100644
--- a/src/slatLexer.g4
+++ b/src/slatLexer.g4
@@ -86,7 +86,7 @@ STRING : SINGLE_QUOTED_STRING | DOUBLE_QUOTED_STRING ;
 
 HYPERBOLIC: 'hyperbolic';
 POWERLAW: 'powerlaw';
-LOGLOG: ' loglog';
+LOGLOG: 'loglog';
 LINEAR: 'linear';
 LINFLAG: '--linear';
 LOGFLAG: '--log';
@@ -134,7 +134,7 @@ fragment
 SINGLE_QUOTE : '\'';
 
 fragment
-SQ_UNESCAPED_CHAR : ~['];
+SQ_UNESCAPED_CHAR : ~[\\'] | '\\' ~[\\'];
 
 fragment
 SQ_ESCAPED_CHAR : '\\\'' | '\\\\';
-- 
2.43.0


From 50639489807d3783a3de088f8020d3febb04bf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:34 +0000
Subject: [PATCH 29/31] fix: a refused collapse or demolition doesn't change a
 measure's description

---
 src/pyslat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 5873e49..f6942ac 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -665,8 +665,8 @@ class im:
     # @param collapse A deterministic function representing the 
     #        probability of collapse given IM.
     def SetCollapse(self, collapse):
-        self._collapse = collapse
         self._func.SetCollapse(collapse)
+        self._collapse = collapse
 
     ## Return the rate of collapse
     # Returns the rate of collapse of the underlying im object, 
@@ -687,8 +687,8 @@ class im:
     # @param collapse A deterministic function representing the 
     #        probability of demolition given IM.
     def SetDemolition(self, demolition):
-        self._demolition = demolition
         self._func.SetDemolition(demolition)
+        self._demolition = demolition
 
     ## Return the rate of demolition
     # Returns the rate of demolition of the underlying im object, 
-- 
2.43.0


From 909a92967a6f9f04cdda0d8a8923f53048dfc12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:45 +0000
Subject: [PATCH 30/31] fix: discounting at rates so low that they make almost
 no difference

---
 src/pyslatcore.cpp | 2 +-
 src/structure.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyslatcore.cpp b/src/pyslatcore.cpp
index 5190299..a9debdd 100644
--- a/src/pyslatcore.cpp
+++ b/src/pyslatcore.cpp
@@ -713,7 +713,7 @@ double CompGroup::E_cost(int years, double discount_rate)
     if (discount_rate == 0) {
         return years * E_annual_cost();
     }
-    return ((1.0 - exp(-discount_rate * years)) / discount_rate) * E_annual_cost();
+    return (-expm1(-discount_rate * years) / discount_rate) * E_annual_cost();
 }
 
 double CompGroup::lambda_cost(double cost)
diff --git a/src/structure.cpp b/src/structure.cpp
index 459ab48..022937d 100644
--- a/src/structure.cpp
+++ b/src/structure.cpp
@@ -195,7 +195,7 @@ namespace SLAT {
         if (discount_rate == 0) {
             return year * AnnualCost().get_mean_X();
         }
-        return ((1.0 - exp(-discount_rate * year)) / discount_rate) * AnnualCost().get_mean_X();
+        return (-expm1(-discount_rate * year) / discount_rate) * AnnualCost().get_mean_X();
     }
 
     std::vector<double> Structure::E_cost(std::vector<int> years, double discount_rate)
-- 
2.43.0


From 1e403e9532688908df68dbd01224ad7c80fd01dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:41 +0000
Subject: [PATCH 31/31] fix: Python never deleted the objects it made, nor
 those in the lists of component groups

The factory functions, CompGroup::get_EDP(), ComponentsByEDP() and
ComponentsByFragility() return new objects, which nothing deleted; a session
which makes and discards models grew without limit.
---
 src/pyslatcore.i | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/pyslatcore.i b/src/pyslatcore.i
index faed9a7..8783043 100644
--- a/src/pyslatcore.i
+++ b/src/pyslatcore.i
@@ -31,9 +31,24 @@
                          FragilityFn *fragfn, LossFn *lossfn, CompGroup *cg };
 
 /*
- * Objects are made by the factory functions; others would be empty.
+ * Objects are made by the factory functions; others would be empty. Python owns
+ * what they make, and deletes it when it's no longer used.
  */
 %nodefaultctor;
+%newobject factory2;
+%newobject factory3;
+%newobject MakeLogNormalProbabilisticFn;
+%newobject MakeLogNormalDist;
+%newobject MakeIM;
+%newobject MakeEDP;
+%newobject MakeCompoundEDP;
+%newobject MakeFragilityFn;
+%newobject MakeBiLevelLoss;
+%newobject MakeSimpleLossFn;
+%newobject MakeBiLevelLossFn;
+%newobject MakeCompGroup;
+%newobject CompGroup::get_EDP;
+%newobject MakeStructure;
 
 namespace std{
     %template(VectorDouble) std::vector<double>;
@@ -44,6 +59,23 @@ namespace std{
     %template(VectorBiLevelLoss) std::vector<BiLevelLoss *>;
  }
 
+/*
+ * The lists of component groups hold new objects, too.
+ */
+%typemap(out) std::list<std::list<CompGroup *>> {
+    const std::list<std::list<CompGroup *>> &lists = $1;
+    Py_ssize_t i = 0;
+    $result = PyTuple_New(lists.size());
+    for (std::list<CompGroup *> list : lists) {
+        PyObject *tuple = PyTuple_New(list.size());
+        Py_ssize_t j = 0;
+        for (CompGroup *group : list) {
+            PyTuple_SET_ITEM(tuple, j++, SWIG_NewPointerObj(group, SWIGTYPE_p_CompGroup, SWIG_POINTER_OWN));
+        }
+        PyTuple_SET_ITEM($result, i++, tuple);
+    }
+}
+
 
 void IntegrationSettings(double tolerance, unsigned int max_evals);
 void Set_Integration_Tolerance(double tolerance);
-- 
2.43.0

