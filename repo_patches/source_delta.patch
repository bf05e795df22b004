From 8736abe250c34e777fe1593c12aaa9b51637e37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 01/43] fix: Replaceable::replace keeps the replacement's own
 clients

replace() overwrote the callbacks already registered with the replacement
object, client ids (counted per object) could collide once clients moved
to another object, and replacing an object by itself dropped its clients.
---
 src/replaceable.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/replaceable.h b/src/replaceable.h
index a61bbb9..7170655 100644
--- a/src/replaceable.h
+++ b/src/replaceable.h
@@ -11,6 +11,7 @@
  */
 #ifndef _REPLACEABLE_H_
 #define _REPLACEABLE_H_
+#include <atomic>
 #include <map>
 #include <memory>
 #include <iostream>
@@ -69,13 +70,13 @@ namespace SLAT {
         /**
          * id_counter is used as the key for clients. It is incremented by
          * add_callbacks().  Client ids do not need to be sequential; just
-         * unique. This is an easy way to ensure that, but other mechanisms
-         * could be used without affecting anything outside this template.
+         * unique. They must be unique among all the objects which can replace
+         * each other, because replace() moves clients to another object, so
+         * the counter is shared.
          */
-        int id_counter;
+        static std::atomic<int> id_counter;
     public:
         Replaceable()  { 
-            id_counter = 0;
             omp_init_lock(&lock);
         };
         
@@ -84,7 +85,7 @@ namespace SLAT {
         {
             omp_set_lock(&lock);
             int result = ++id_counter;
-            callbacks[id_counter] = {changed, replace};
+            callbacks[result] = {changed, replace};
             omp_unset_lock(&lock);
             return result;
         }
@@ -104,8 +105,15 @@ namespace SLAT {
         }
 
         void replace(std::shared_ptr<T> replacement) {
+            // An object can be replaced by itself; its clients stay with it.
+            Replaceable<T> *successor = replacement.get();
+            if (successor == this) return;
+
             omp_set_lock(&lock);
-            replacement->callbacks = callbacks;
+            // The replacement keeps the clients it already has.
+            omp_set_lock(&successor->lock);
+            successor->callbacks.insert(callbacks.begin(), callbacks.end());
+            omp_unset_lock(&successor->lock);
             for (auto it=callbacks.begin(); it != callbacks.end();) {
                 it->second.replace_cb(replacement);
                 it = callbacks.erase(it);
@@ -113,5 +121,7 @@ namespace SLAT {
             omp_unset_lock(&lock);
         }
     };
+
+    template <class T> std::atomic<int> Replaceable<T>::id_counter(0);
 }
 #endif
-- 
2.43.0


From 944feb8907961057b016c4d2da48ec7c31a033ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 02/43] fix: CompoundEDP follows a replacement of its second
 function

The callback stored the new function in dependent_rate, overwriting the
first function and leaving the replaced one in use.
---
 src/relationships.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/relationships.cpp b/src/relationships.cpp
index dc212fe..2882c1a 100644
--- a/src/relationships.cpp
+++ b/src/relationships.cpp
@@ -403,7 +403,7 @@ namespace SLAT {
             },
             [this] (std::shared_ptr<ProbabilisticFn> new_dependent_rate) {
                 this->lambda.ClearCache();
-                this->dependent_rate = new_dependent_rate;
+                this->second_dependent_rate = new_dependent_rate;
                 this->notify_change();
             });
     }
-- 
2.43.0


From f9cb4d3468ee42d446c06cf723a26f4b1cd2e54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 03/43] fix: IM forgets cached rates when its function or
 collapse changes

A change or replacement of the IM's function left CollapseRate and
DemolitionRate as they were, and so did SetCollapse() for DemolitionRate,
which depends on the probability of collapse.
---
 src/relationships.cpp | 4 ++++
 src/relationships.h   | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/relationships.cpp b/src/relationships.cpp
index 2882c1a..c05fbce 100644
--- a/src/relationships.cpp
+++ b/src/relationships.cpp
@@ -49,9 +49,13 @@ namespace SLAT {
         f = func;
         callback_id = f->add_callbacks(
             [this] (void) {
+                this->CollapseRate.ClearCache();
+                this->DemolitionRate.ClearCache();
                 this->notify_change();
             },
             [this] (std::shared_ptr<DeterministicFn> new_f) {
+                this->CollapseRate.ClearCache();
+                this->DemolitionRate.ClearCache();
                 this->f = new_f;
                 this->notify_change();
             });
diff --git a/src/relationships.h b/src/relationships.h
index 96fd2ff..f8833bf 100644
--- a/src/relationships.h
+++ b/src/relationships.h
@@ -74,6 +74,7 @@ namespace SLAT {
         void SetCollapse(std::shared_ptr<LogNormalDist> new_collapse)
         {
             CollapseRate.ClearCache();
+            DemolitionRate.ClearCache();
             collapse = new_collapse;
             notify_change();
         }
@@ -81,6 +82,7 @@ namespace SLAT {
         void SetCollapse(LogNormalDist new_collapse)
         {
             CollapseRate.ClearCache();
+            DemolitionRate.ClearCache();
             collapse = std::make_shared<LogNormalDist>(new_collapse);
             notify_change();
         }
-- 
2.43.0


From cbd3604106ec69f7fbc32f7f999b2f04c187e96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 04/43] fix: CompGroup tells its clients when a function it
 uses changes

CompGroup cleared its own caches but never notified its clients, so
Structure::AnnualCost stayed as it was.
---
 src/comp_group.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/comp_group.cpp b/src/comp_group.cpp
index 6df2b7a..3ff0941 100644
--- a/src/comp_group.cpp
+++ b/src/comp_group.cpp
@@ -93,6 +93,7 @@ namespace SLAT {
                 this->cost_EDP_dist.ClearCache();
                 this->delay_EDP_dist.ClearCache();
                 this->Rate.ClearCache();
+                this->notify_change();
             },
             [this] (std::shared_ptr<EDP> new_edp) {
                 this->E_cost_IM.ClearCache();
@@ -105,6 +106,7 @@ namespace SLAT {
                 this->delay_EDP_dist.ClearCache();
                 this->Rate.ClearCache();
                 this->edp = new_edp;
+                this->notify_change();
             });
         /*
          * When the fragility changes or is replaced, clear the cached values.
@@ -120,6 +122,7 @@ namespace SLAT {
                 this->cost_EDP_dist.ClearCache();
                 this->delay_EDP_dist.ClearCache();
                 this->Rate.ClearCache();
+                this->notify_change();
             },
             [this] (std::shared_ptr<FragilityFn> new_frag_fn) {
                 this->E_cost_IM.ClearCache();
@@ -132,6 +135,7 @@ namespace SLAT {
                 this->delay_EDP_dist.ClearCache();
                 this->Rate.ClearCache();
                 this->frag_fn = new_frag_fn;
+                this->notify_change();
             });
         /*
          * When the cost changes or is replaced, clear the cached values.
@@ -146,6 +150,7 @@ namespace SLAT {
                     this->cost_EDP_dist.ClearCache();
                     this->delay_EDP_dist.ClearCache();
                     this->Rate.ClearCache();
+                    this->notify_change();
                 },
                 [this] (std::shared_ptr<LossFn> new_cost_fn) {
                     this->E_cost_IM.ClearCache();
@@ -156,6 +161,7 @@ namespace SLAT {
                     this->delay_EDP_dist.ClearCache();
                     this->Rate.ClearCache();
                     this->cost_fn = new_cost_fn;
+                    this->notify_change();
                 });
         }
 
@@ -168,12 +174,14 @@ namespace SLAT {
                     this->E_delay_IM.ClearCache();
                     this->SD_ln_delay_IM.ClearCache();
                     this->delay_EDP_dist.ClearCache();
+                    this->notify_change();
                 },
                 [this] (std::shared_ptr<LossFn> new_delay_fn) {
                     this->E_delay_IM.ClearCache();
                     this->SD_ln_delay_IM.ClearCache();
                     this->delay_EDP_dist.ClearCache();
                     this->delay_fn = new_delay_fn;
+                    this->notify_change();
                 });
         }
     };
-- 
2.43.0


From 6e06de72c832418e0f937ae56baa9911ba06cc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 05/43] fix: Structure recalculates AnnualCost after a setting
 changes

setRebuildCost(), setDemolitionCost() and RemoveCompGroup() left the
cached annual cost as it was.
---
 src/structure.cpp | 1 +
 src/structure.h   | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/structure.cpp b/src/structure.cpp
index 76ccb87..8246946 100644
--- a/src/structure.cpp
+++ b/src/structure.cpp
@@ -75,6 +75,7 @@ namespace SLAT {
             if (components[i]->first == cg) {
                 std::cout << "REMOVING " << components[i]->first << std::endl;
                 components.erase(components.begin()+i);
+                this->Clear_Cache();
                 break;
             }
         }
diff --git a/src/structure.h b/src/structure.h
index 31187a2..ce3042d 100644
--- a/src/structure.h
+++ b/src/structure.h
@@ -39,10 +39,10 @@ namespace SLAT {
         COSTS CostsByFate(double im);
         Caching::CachedValue<LogNormalDist> AnnualCost;
         std::pair<LogNormalDist, LogNormalDist> DeaggregatedCost(double im);
-        void setRebuildCost(LogNormalDist dist) { rebuild_cost = dist; };
+        void setRebuildCost(LogNormalDist dist) { rebuild_cost = dist; Clear_Cache(); };
         const std::vector<std::shared_ptr<CompGroup>> Components(void);
         LogNormalDist getRebuildCost(void) { return rebuild_cost; };
-        void setDemolitionCost(LogNormalDist dist) { demolition_cost = dist; };
+        void setDemolitionCost(LogNormalDist dist) { demolition_cost = dist; Clear_Cache(); };
         LogNormalDist getDemolitionCost(void) { return demolition_cost; };
         std::string get_Name(void) const { return name; };
 
-- 
2.43.0


From 5b8d947dcb599acbfc3c83fb81083de1daca09d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 06/43] fix: Structure unregisters its callbacks

Callbacks capturing a structure stayed with the IM and the component groups
after the structure was destroyed (or the group removed), and were then
called on freed memory; refilling an emptied structure registered twice.
---
 src/structure.cpp | 15 ++++++++++++++-
 src/structure.h   |  3 ++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/structure.cpp b/src/structure.cpp
index 8246946..bb4e154 100644
--- a/src/structure.cpp
+++ b/src/structure.cpp
@@ -24,6 +24,17 @@ namespace SLAT {
     {
         this->name = name;
     };
+
+    /*
+     * Unregister callbacks on destruction.
+     */
+    Structure::~Structure()
+    {
+        for (size_t i=0; i < components.size(); i++) {
+            components[i]->first->remove_callbacks(components[i]->second);
+        }
+        if (im) im->remove_callbacks(im_callback_id);
+    };
     
     const std::vector<std::shared_ptr<CompGroup>> Structure::Components(void)
     {
@@ -43,8 +54,9 @@ namespace SLAT {
     void  Structure::AddCompGroup(std::shared_ptr<CompGroup> cg)
     {
         if (components.size() == 0) {
+            if (im) im->remove_callbacks(im_callback_id);
             im = cg->getIM();
-            im->add_callbacks(
+            im_callback_id = im->add_callbacks(
                 [this] (void) {
                     this->Clear_Cache();
                 },
@@ -74,6 +86,7 @@ namespace SLAT {
         for (size_t i=0; i < components.size(); i++) {
             if (components[i]->first == cg) {
                 std::cout << "REMOVING " << components[i]->first << std::endl;
+                cg->remove_callbacks(components[i]->second);
                 components.erase(components.begin()+i);
                 this->Clear_Cache();
                 break;
diff --git a/src/structure.h b/src/structure.h
index ce3042d..e8360f5 100644
--- a/src/structure.h
+++ b/src/structure.h
@@ -20,7 +20,7 @@ namespace SLAT {
     class Structure : public Replaceable<Structure> {
     public:
         Structure(std::string name);
-        ~Structure() {};
+        ~Structure();
 
         void AddCompGroup(std::shared_ptr<CompGroup> cg);
         void RemoveCompGroup(std::shared_ptr<CompGroup> cg);
@@ -55,6 +55,7 @@ namespace SLAT {
         typedef std::pair<std::shared_ptr<CompGroup>, int> CG_ENTRY;
         std::vector<std::shared_ptr<CG_ENTRY>> components;
         std::shared_ptr<IM> im;
+        int im_callback_id;
         LogNormalDist rebuild_cost;
         LogNormalDist demolition_cost;
     };
-- 
2.43.0


From 625b842579796b027a709bb2df5814f5685c5b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 07/43] fix: caches can be cleared while other threads use them

ClearCache() changed the cache without its lock. After a clear, threads
waiting for CachedValue did not wait for the new calculation (waiting_lock
was only set once), and a thread waiting for CachedFunction stored and
returned a default value if the cache was cleared before it woke up.
---
 src/caching.h | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/caching.h b/src/caching.h
index df6ee91..c96dcf3 100644
--- a/src/caching.h
+++ b/src/caching.h
@@ -213,6 +213,15 @@ namespace SLAT {
                             } else {
                                 in_process.erase(v);
                             }
+
+                            /*
+                             * The cache may have been cleared before we got
+                             * the object lock; do the calculation ourselves.
+                             */
+                            if (cache.count(v) == 0) {
+                                omp_unset_lock(&lock);
+                                return func(v);
+                            }
                         } else {
                             /*
                              * We're the first one to request this
@@ -285,7 +294,9 @@ namespace SLAT {
              * Clear the cache for just this object.
              */
             void ClearCache(void) {
+                omp_set_lock(&lock);
                 cache.clear(); 
+                omp_unset_lock(&lock);
             };
         private:
             /// This will perform the calculation that we're caching.
@@ -385,7 +396,6 @@ namespace SLAT {
                  * only once.
                  */
                 omp_init_lock(&waiting_lock);
-                omp_set_lock(&waiting_lock);
 
                 // Set member variables:
                 in_process = false; 
@@ -441,11 +451,21 @@ namespace SLAT {
                         omp_set_lock(&waiting_lock);
                         omp_unset_lock(&waiting_lock); // Release for anyone else who's waiting
                         omp_set_lock(&lock); // Re-take the lock before returning the value
+
+                        /*
+                         * The cache may have been cleared before we got the
+                         * lock; do the calculation ourselves.
+                         */
+                        if (!cache_valid) {
+                            omp_unset_lock(&lock);
+                            return func();
+                        }
                     } else {
                         /*
                          * This is the first request--calculate the value.
                          */
                         in_process = true;
+                        omp_set_lock(&waiting_lock); // Make the others wait
                         omp_unset_lock(&lock); // Release the lock while calculating
                         
                         T result = func();
@@ -485,7 +505,9 @@ namespace SLAT {
              * Clear the cache for just this object.
              */
             void ClearCache(void) {
+                omp_set_lock(&lock);
                 cache_valid = false;
+                omp_unset_lock(&lock);
             };
         };
     }
-- 
2.43.0


From b31a2ecb7e56eb1f659206569a1b8319cc9d5709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 08/43] fix: an exception in a cached calculation does not
 block later calls

The entry stayed marked as being calculated, with its lock held, so the
next call for the same value waited forever.
---
 src/caching.h | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/caching.h b/src/caching.h
index c96dcf3..3ac7091 100644
--- a/src/caching.h
+++ b/src/caching.h
@@ -234,7 +234,21 @@ namespace SLAT {
                             in_process[v].count = 0;
                             omp_unset_lock(&lock);
 
-                            T result = func(v);  // Perform calculation
+                            // Perform calculation
+                            T result;
+                            try {
+                                result = func(v);
+                            } catch (...) {
+                                // Let anyone waiting do the calculation
+                                omp_set_lock(&lock);
+                                if (in_process[v].count == 0) {
+                                    in_process.erase(v);
+                                } else {
+                                    omp_unset_lock(&in_process[v].lock);
+                                }
+                                omp_unset_lock(&lock);
+                                throw;
+                            }
                             
                             omp_set_lock(&lock); // Get object lock
                             
@@ -468,7 +482,17 @@ namespace SLAT {
                         omp_set_lock(&waiting_lock); // Make the others wait
                         omp_unset_lock(&lock); // Release the lock while calculating
                         
-                        T result = func();
+                        T result;
+                        try {
+                            result = func();
+                        } catch (...) {
+                            // Let anyone waiting do the calculation
+                            omp_set_lock(&lock);
+                            in_process = false;
+                            omp_unset_lock(&waiting_lock);
+                            omp_unset_lock(&lock);
+                            throw;
+                        }
                         
                         omp_set_lock(&lock); // Lock before saving to cache
                         /*
-- 
2.43.0


From cb27ea5c5e5370f843a6d947b35ca2ff342bdfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 09/43] fix: interpolated functions can be evaluated by several
 threads at once

---
 src/functions.cpp |  8 ++------
 src/functions.h   | 12 ------------
 2 files changed, 2 insertions(+), 18 deletions(-)

diff --git a/src/functions.cpp b/src/functions.cpp
index 8d6cb87..2609de4 100644
--- a/src/functions.cpp
+++ b/src/functions.cpp
@@ -194,7 +194,6 @@ namespace SLAT {
     LinearInterpolatedFn::LinearInterpolatedFn(double x[], double y[], size_t size) :
         InterpolatedFn(x, y, size)
     {
-        accel = gsl_interp_accel_alloc();
         interp = gsl_spline_alloc (gsl_interp_linear, size);
         gsl_spline_init(interp, x, y, size);
     }
@@ -207,7 +206,6 @@ namespace SLAT {
     LinearInterpolatedFn::~LinearInterpolatedFn()
     {
         gsl_spline_free(interp);
-        gsl_interp_accel_free(accel);
     }
 
     double LinearInterpolatedFn::Evaluate(double x) const
@@ -221,7 +219,7 @@ namespace SLAT {
             //std::cout << "CLIPPED at " << x << std::endl;
             y = max_x.second;
         } else {
-            (void)gsl_spline_eval_e(interp, x, accel, &y);
+            (void)gsl_spline_eval_e(interp, x, NULL, &y);
         }
         return y;
     }
@@ -234,7 +232,6 @@ namespace SLAT {
     LogLogInterpolatedFn::LogLogInterpolatedFn(double x[], double y[], size_t size) :
         InterpolatedFn(x, y, size)
     {
-        accel = gsl_interp_accel_alloc();
         interp = gsl_spline_alloc (gsl_interp_linear, size);
 
         // Make a copy of the data in log scale for the interpolator:
@@ -255,7 +252,6 @@ namespace SLAT {
     LogLogInterpolatedFn::~LogLogInterpolatedFn()
     {
         gsl_spline_free(interp);
-        gsl_interp_accel_free(accel);
     }
 
 /*
@@ -270,7 +266,7 @@ namespace SLAT {
         } else if (x > max_x.first) {
             y = max_x.second;
         } else {
-            (void)gsl_spline_eval_e(interp, log(x), accel, &y);
+            (void)gsl_spline_eval_e(interp, log(x), NULL, &y);
             y = exp(y);
 
         }
diff --git a/src/functions.h b/src/functions.h
index def8cfa..e58e9cf 100644
--- a/src/functions.h
+++ b/src/functions.h
@@ -249,12 +249,6 @@ namespace SLAT {
          * maintained for the lifetime of the object.
          */
         gsl_spline *interp;
-
-        /**
-         * GSL interpolation accelator. This is allocated in the constructor, and
-         * maintained for the lifetime of the object.
-         */
-        gsl_interp_accel *accel;
     };
 
 /**
@@ -294,12 +288,6 @@ namespace SLAT {
          * maintained for the lifetime of the object.
          */
         gsl_spline *interp;
-
-        /**
-         * GSL interpolation accelator. This is allocated in the constructor, and
-         * maintained for the lifetime of the object.
-         */
-        gsl_interp_accel *accel;
     };
 
 /**
-- 
2.43.0


From ea9b7af75c27e89615ac47137f224df5b0c6ef52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 10/43] fix: threads can't lower the recorded maximum
 evaluations

---
 src/maq.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/maq.cpp b/src/maq.cpp
index dfca708..9a82900 100644
--- a/src/maq.cpp
+++ b/src/maq.cpp
@@ -600,10 +600,11 @@ namespace SLAT {
                     break;
                 }
 #pragma omp critical
-                stats.total_search_evals += r.evaluations;
-                if (stats.max_successful_search < r.evaluations) {
-#pragma omp critical
-                    stats.max_successful_search = r.evaluations;
+                {
+                    stats.total_search_evals += r.evaluations;
+                    if (stats.max_successful_search < r.evaluations) {
+                        stats.max_successful_search = r.evaluations;
+                    }
                 }
                 if (std::isnan(r.a)) {
 #pragma omp critical
@@ -744,8 +745,8 @@ namespace SLAT {
                     region_stack.push({c, b, e, fc, fb , fe, r3});
                 }
             }
-            if (counter > stats.max_successful_integration) {
 #pragma omp critical
+            if (counter > stats.max_successful_integration) {
                 stats.max_successful_integration = counter;
             }
             if (success) {
-- 
2.43.0


From 3f7a676969453ef2ea83f1f698fcfca880f7c14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 11/43] fix: define the functions restoring the default search
 limit and method

---
 src/maq.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/maq.cpp b/src/maq.cpp
index 9a82900..5e25a7b 100644
--- a/src/maq.cpp
+++ b/src/maq.cpp
@@ -136,6 +136,16 @@ namespace SLAT {
             integration_eval_limit = INTEGRATION_EVAL_LIMIT_DEFAULT;
         }
 
+        void IntegrationSettings::Use_Default_Integration_Search_Limit() 
+        {
+            integration_search_limit = INTEGRATION_SEARCH_LIMIT_DEFAULT;
+        }
+
+        void IntegrationSettings::Use_Default_Method() 
+        {
+            integration_method = METHOD_DEFAULT;
+        }
+
         void IntegrationSettings::Set_Tolerance(double tol) 
         {
             if (tol > 0.0) {
-- 
2.43.0


From 8ea2986230d5a57bbed52951e71fbf2713860e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 12/43] fix: binary searches stop at the search limit

---
 src/maq.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/maq.cpp b/src/maq.cpp
index 5e25a7b..cd3b15e 100644
--- a/src/maq.cpp
+++ b/src/maq.cpp
@@ -211,7 +211,7 @@ namespace SLAT {
             {
                 long int intervals = 4;
                 while (evaluations < integration_eval_limit && fc <= std::numeric_limits<double>::epsilon()) {
-                    for (int i=1; i < intervals; i += 2) {
+                    for (int i=1; i < intervals && evaluations < integration_eval_limit; i += 2) {
                         c = float(i)/intervals;
                         fc = f(x_from_t(c));
                         
@@ -253,7 +253,7 @@ namespace SLAT {
             {
                 long int intervals = 4;
                 while (evaluations < integration_eval_limit && fc <= std::numeric_limits<double>::epsilon()) {
-                    for (int i=1; i < intervals; i += 2) {
+                    for (int i=1; i < intervals && evaluations < integration_eval_limit; i += 2) {
                         c = 1.0 - float(i)/intervals;
                         fc = f(x_from_t(c));
                         
@@ -296,7 +296,7 @@ namespace SLAT {
             {
                 long int intervals = 4;
                 while (evaluations < integration_eval_limit/2 && fc <= std::numeric_limits<double>::epsilon()) {
-                    for (int i=1; i < intervals/2; i += 2) {
+                    for (int i=1; i < intervals/2 && evaluations < integration_eval_limit; i += 2) {
                         c = 1.0 - float(i)/intervals;
                         fc = f(x_from_t(c));
                         
@@ -313,7 +313,7 @@ namespace SLAT {
 
                 intervals = 4;
                 while (evaluations < integration_eval_limit && fc <= std::numeric_limits<double>::epsilon()) {
-                    for (int i=1 + intervals/2; i < intervals; i += 2) {
+                    for (int i=1 + intervals/2; i < intervals && evaluations < integration_eval_limit; i += 2) {
                         c = 1.0 - float(i)/intervals;
                         fc = f(x_from_t(c));
                         
-- 
2.43.0


From 56f4995c4a30f89ab7d1c98a9fafb5107fe54618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 13/43] fix: the lock on the list of caches is initialised
 once, before use

---
 src/caching.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/caching.cpp b/src/caching.cpp
index 36cb2ff..2bb163a 100644
--- a/src/caching.cpp
+++ b/src/caching.cpp
@@ -34,11 +34,9 @@ namespace SLAT {
              */
             void Init_Caching(void)
             {
-                static bool first_call = true;
-                if (first_call) {
-                    omp_init_lock(&lock);
-                };
-                first_call = false;
+                // Initialisation of a local static is thread-safe
+                static bool initialised = (omp_init_lock(&lock), true);
+                (void)initialised;
             }
 
             /**
@@ -66,6 +64,7 @@ namespace SLAT {
          * Clear all (registered) function caches.
          */
         void Clear_Caches(void) {
+            Private::Init_Caching();
             omp_set_lock(&Private::lock);
             for (auto it=Private::caches.begin(); it != Private::caches.end(); it++) {
                 it->second();
-- 
2.43.0


From b90dc08cfb7d09b46134f777314b510992ad3161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 14/43] fix: Context initialises its lock before use, and copes
 with larger teams

---
 src/context.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index 2c5e880..949b603 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -13,24 +13,28 @@ namespace SLAT {
 
     std::shared_ptr<Context> Context::GetInstance()
     {
+        std::shared_ptr<Context> result;
         #pragma omp critical
-        if (instance == NULL) {
-            omp_init_lock(&Context::lock);
-            instance = std::make_shared<Context>();
+        {
+            if (instance == NULL) {
+                omp_init_lock(&Context::lock);
+                instance = std::make_shared<Context>();
+            }
+            result = instance;
         }
-        return instance;
+        return result;
     }
 
      std::shared_ptr<Context> Context::LockContext()
      {
-        omp_set_lock(&Context::lock);
         std::shared_ptr<Context> instance = GetInstance();
+        omp_set_lock(&Context::lock);
         
         if (omp_get_active_level() > 0) {
             for (int i=0; i <= omp_get_active_level(); i++) {
                 int thread_num = omp_get_ancestor_thread_num(i);
-                if (instance->threads.size() == 0) {
-                    instance->threads.resize(omp_get_team_size(i));
+                if (instance->threads.size() <= (size_t)thread_num) {
+                    instance->threads.resize(thread_num + 1);
                 }
                 if (instance->threads[thread_num] == NULL) {
                     instance->threads[thread_num] = std::make_shared<Context>();
@@ -172,8 +176,9 @@ namespace SLAT {
 
         for (int i=0; i <= omp_get_active_level(); i++) {
             separator = separator + "/";
-            if (instance->threads.size() == 0) break;
-            instance = instance->threads[omp_get_ancestor_thread_num(i)];
+            size_t thread_num = omp_get_ancestor_thread_num(i);
+            if (instance->threads.size() <= thread_num) break;
+            instance = instance->threads[thread_num];
             if (instance == NULL) break;
             
             // std::cerr << "GetText -----> " << instance->text_stack.size() << std::endl;
-- 
2.43.0


From 6c3fc58143d21608aa8aacdc93fa4a3c9b79dfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 15/43] fix: LogNormalFn can combine a median or mean of ln(X)
 with an SD of X

---
 src/functions.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/functions.cpp b/src/functions.cpp
index 2609de4..da6cf84 100644
--- a/src/functions.cpp
+++ b/src/functions.cpp
@@ -345,11 +345,20 @@ namespace SLAT {
             break;
         case SIGMA_X:
             sigma_X = [this] (double x) -> double { return this->sigma_function->ValueAt(x); };
-            sigma_lnX = [this] (double x) -> double { 
-                double sd = this->sigma_X(x);
-                double mean = this->mean_X(x);
-                return sqrt(log(1.0 + (sd * sd)/(mean * mean))); 
-            };
+            if (m_type == MEAN_X) {
+                sigma_lnX = [this] (double x) -> double { 
+                    double sd = this->sigma_X(x);
+                    double mean = this->mean_X(x);
+                    return sqrt(log(1.0 + (sd * sd)/(mean * mean))); 
+                };
+            } else {
+                // The mean is found from sigma_lnX, so work from the median
+                sigma_lnX = [this] (double x) -> double { 
+                    double sd = this->sigma_X(x);
+                    double median = this->median_X(x);
+                    return sqrt(log((1.0 + sqrt(1.0 + 4.0 * (sd * sd)/(median * median))) / 2.0));
+                };
+            }
             break;
         case SIGMA_INVALID:
         default:
-- 
2.43.0


From f6004604eb07732128507e3864122268f3fef031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 16/43] fix: a CompGroup without a cost or delay function can
 be printed

---
 src/comp_group.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/comp_group.cpp b/src/comp_group.cpp
index 3ff0941..210da37 100644
--- a/src/comp_group.cpp
+++ b/src/comp_group.cpp
@@ -656,10 +656,11 @@ namespace SLAT {
         out << "CompGroup " << o.get_Name() 
             << ": " << o.count 
             << ", " << *(o.edp)
-            << ", " << *(o.frag_fn)
-            << ", " << *(o.cost_fn)
-            << ", " << *(o.delay_fn)
-            << std::endl;
+            << ", " << *(o.frag_fn);
+        // The cost and delay functions are optional
+        if (o.cost_fn) out << ", " << *(o.cost_fn);
+        if (o.delay_fn) out << ", " << *(o.delay_fn);
+        out << std::endl;
         return out;
     }
 
-- 
2.43.0


From 94f635bc6ada332490d3ff8948c0bc8e6262155c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 17/43] fix: costs of a Structure without component groups are
 undefined, not a crash

---
 src/structure.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/structure.cpp b/src/structure.cpp
index bb4e154..85e0d32 100644
--- a/src/structure.cpp
+++ b/src/structure.cpp
@@ -47,6 +47,7 @@ namespace SLAT {
     
     double Structure::pdf(double im) 
     {
+        if (this->im == NULL) return NAN;
         return TotalCost(im).get_mean_X() * std::abs(this->im->DerivativeAt(im));
     };
 
@@ -127,6 +128,8 @@ namespace SLAT {
 
     LogNormalDist Structure::TotalCost(double im)
     {
+        if (this->im == NULL) return LogNormalDist();
+
         LogNormalDist cost_repair = CostNC(im);
         LogNormalDist cost_demolition = demolition_cost;
         LogNormalDist cost_collapse = rebuild_cost;
@@ -178,6 +181,8 @@ namespace SLAT {
 
     std::pair<LogNormalDist, LogNormalDist> Structure::DeaggregatedCost(double im)
     {
+        if (this->im == NULL) return std::make_pair(LogNormalDist(), LogNormalDist());
+
         LogNormalDist cost_nc = CostNC(im);
         LogNormalDist cost_c = rebuild_cost;
         LogNormalDist cost_demo = demolition_cost;
-- 
2.43.0


From 0be2ecb15f08cb12339b96244f157a59b5809aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 18/43] fix: C++ exceptions are raised in Python instead of
 ending the process

---
 src/pyslatcore.i | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pyslatcore.i b/src/pyslatcore.i
index 1718d62..041659a 100644
--- a/src/pyslatcore.i
+++ b/src/pyslatcore.i
@@ -8,6 +8,16 @@
 %include <std_vector.i>
 %include <std_list.i>
 %include <std_map.i>
+%include <exception.i>
+%exception {
+    try {
+        $action
+    } catch (const std::invalid_argument &e) {
+        SWIG_exception(SWIG_ValueError, e.what());
+    } catch (const std::exception &e) {
+        SWIG_exception(SWIG_RuntimeError, e.what());
+    }
+}
 namespace std{
     %template(VectorDouble) std::vector<double>;
     %template(VectorLogNormal_p) std::vector<LogNormalDist *>;
-- 
2.43.0


From 146a3901ca9c474bf10ca151e286d5fcf5aac5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 19/43] fix: LogToStdErr remembers the sink it adds

---
 src/pyslatcore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyslatcore.cpp b/src/pyslatcore.cpp
index daaf4d1..417a869 100644
--- a/src/pyslatcore.cpp
+++ b/src/pyslatcore.cpp
@@ -31,7 +31,7 @@ void LogToStdErr(bool flag)
 {
     if (flag) {
         if (std_error_sink == NULL) {
-            boost::shared_ptr<logging::sinks::sink> k = logging::add_console_log(std::cerr);
+            std_error_sink = logging::add_console_log(std::cerr);
         }
     } else {
         if (std_error_sink != NULL) {
-- 
2.43.0


From b7fcb6d199ec3a5c9f92b71f68e646b7ae760786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 20/43] fix: the function factories reject data they can't use

---
 src/pyslatcore.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyslatcore.cpp b/src/pyslatcore.cpp
index 417a869..8decf0c 100644
--- a/src/pyslatcore.cpp
+++ b/src/pyslatcore.cpp
@@ -131,6 +131,7 @@ DeterministicFn *factory3(FUNCTION_TYPE t, std::vector<double>x, std::vector<dou
     default:
         std::cout << "Unrecognised function type" << std::endl;
     }
+    if (result == NULL) throw std::invalid_argument("Can't make the function.");
     return new DeterministicFn(result);
 }
 
@@ -146,6 +147,7 @@ DeterministicFn *factory2(FUNCTION_TYPE t, std::vector<double> params)
     switch (t) {
     case PLC:
     {
+        if (params.size() != 2) throw std::invalid_argument("Must have two parameters.");
         double a = params[0];
         double b = params[1];
         result = std::make_shared<SLAT::PowerLawParametricCurve>(a, b);
@@ -153,6 +155,7 @@ DeterministicFn *factory2(FUNCTION_TYPE t, std::vector<double> params)
     }
     case NLH:
     {
+        if (params.size() != 3) throw std::invalid_argument("Must have three parameters.");
         // std::cout << "[NLH]" << std::endl;
         double alpha = params[0];
         double IM_asy = params[1];
@@ -169,6 +172,7 @@ DeterministicFn *factory2(FUNCTION_TYPE t, std::vector<double> params)
     default:
         std::cout << "Unrecognised function type" << std::endl;
     }
+    if (result == NULL) throw std::invalid_argument("Can't make the function.");
     return new DeterministicFn(result);
 }
 
-- 
2.43.0


From 1fffe3f5bf2a84f5c30a194381a8fb87265466f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 21/43] fix: detfn describes itself

---
 src/pyslat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 618a1fc..bd39db5 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -419,10 +419,10 @@ class detfn:
     ## Return a string describing the detfn object.
     #  Used for debugging, warning, and error messages.
     def __str__(self):
-        return("Deterministic Function '{}', of type '{}', " +
-               "from parameters {}.".format(self._id, 
-                                            self._type,
-                                            self._parameters))
+        return(("Deterministic Function '{}', of type '{}', " +
+                "from parameters {}.").format(self._id, 
+                                              self._type,
+                                              self._parameters))
 
 ## Represents a probabilistic function.
 #
-- 
2.43.0


From 79309d48073d1a6eeebfcc90eb3afea6fdcbfb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 22/43] fix: edp evaluates lists with the list functions

---
 src/pyslat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index bd39db5..7386a11 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -778,7 +778,7 @@ class edp:
     #  @param x The IM value at which to calculate mean(ln(x)).
     def MeanLn(self, x):
         if type(x) == list:
-            result = list(self._func.MeanLn(x))
+            result = list(self._func.bulk_MeanLn(x))
         else:
             result = self._func.MeanLn(x)
         return result
@@ -787,7 +787,7 @@ class edp:
     #  @param x The IM value at which to calculate median(x).
     def Median(self, x):
         if type(x) == list:
-            result = list(self._func.Median(x))
+            result = list(self._func.bulk_Median(x))
         else:
             result = self._func.Median(x)
         return result
@@ -805,7 +805,7 @@ class edp:
     #  @param x The IM value at which to calculate standard deviation(x).
     def SD(self, x):
         if type(x) == list:
-            result = list(self._func.SD(x))
+            result = list(self._func.bulk_SD(x))
         else:
             result = self._func.SD(x)
         return result
-- 
2.43.0


From 19556efa576ac0da8ad94550231ed04350c5565e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 23/43] fix: compound and anonymous edps can be created

---
 src/pyslat.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 7386a11..c1de41f 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -722,15 +722,17 @@ class edp:
             self._func = MakeEDP(im.function(), fn.function(), "{}".format(id))
         else:
             self._fn2 = fn2
-            self._func = MakeCompoundEDP(im.function(), fn.function(), 
-                                         fn2.function(), "{}".format(id))
+            self._func = MakeCompoundEDP(im.function(),
+                                         MakeEDP(im.function(), fn.function(), "{}".format(id)),
+                                         MakeEDP(im.function(), fn2.function(), "{}".format(id)),
+                                         "{}".format(id))
 
-            self._plot_max = None
+        self._plot_max = None
         if id != None:
             old = edp.lookup(id)
             if old:
                 edp.defs[id]._func.replace(self._func)
-        edp.defs[id] = self
+            edp.defs[id] = self
 
     ## Return the edp object with the corresponding id.
     #  @param id The identifier provided to the constructor of a edp object.
-- 
2.43.0


From 21bf9212e8fe93d2644620e809c28d5b9b6f1974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 24/43] fix: structure reports a component group with the wrong
 IM before adding it

---
 src/pyslat.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index c1de41f..e2b7e0e 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1298,14 +1298,13 @@ class structure:
     #
     # @todo Test that IM mis-matches are handled correctly.
     def AddCompGroup(self, group):
+        if self._im != None and self._im.id() != group.get_IM().id():
+            raise ValueError("Component group tied to wrong IM " +
+                             "(expected {}; got {})".format(self._im.id(),
+                                                            group.get_IM().id()))
         self._structure.AddCompGroup(group.function())
         if self._im == None:
             self._im = group.get_IM()
-        else:
-            if not(self._im == group.get_IM()):
-                raise ValueError("Component group tied to wrong IM " +
-                                 "(expected " + self._im + "; got " + 
-                                 group.get_IM() << ")");
 
     ## Remove a component group from the structure.
     #
-- 
2.43.0


From a055b9bae9e8183e8da8218ff22a9a55b3252a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 25/43] fix: the recorder uses names which exist

---
 src/pyslat.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index e2b7e0e..6893838 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1601,11 +1601,11 @@ class recorder:
                         loss_rate = self._function.lambda_cost(x)
                         line = "{}{:>15.6}".format(line, loss_rate)
                     elif self._type == 'deagg':
-                        values = self._function.DeaggregatedLoss(x)
+                        values = self._function.DeaggregatedCost(x)
                         nc = values[0]
                         c = values[1]
                         line = "{}{:>15.6}{:>15.6}{:>15.6}{:>15.6}".format(
-                            x, 
+                            line, 
                             nc.get_mean_X(), nc.get_sigma_lnX(), 
                             c.get_mean_X(), c.get_sigma_lnX())
                     elif not self._columns == None:
@@ -1666,9 +1666,7 @@ class recorder:
                         if isinstance(self._function, detfn):
                             yval = self._function.ValueAt(x)
                         elif (isinstance(self._function, im) or
-                              isinstance(self._function, edp) or
-                              isinstance(self._function, IM) or
-                              isinstance(self._function, EDP)):
+                              isinstance(self._function, edp)):
                               yval = self._function.getlambda(x)
                         elif isinstance(self._function, compgroup):
                               yval = self._function.E_Cost_EDP(x)
-- 
2.43.0


From 2f480451bf79899dc5e1fb763c6cca94fa59e35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 26/43] fix: structcost recorders recognise mean_ln_x and
 median_x

---
 src/pyslat.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 6893838..d80a407 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1793,9 +1793,9 @@ class StructcostRecorder(recorder):
                     for y in self._columns:
                         if y == 'mean_x':
                             yval = dist.mean()
-                        elif y== 'mean_ln':
+                        elif y== 'mean_ln_x':
                             yval = dist.mean_ln()
-                        elif y== 'median':
+                        elif y== 'median_x':
                             yval = dist.median()
                         elif y == 'sd_ln_x':
                             yval = dist.sd_ln()
@@ -1841,9 +1841,9 @@ class StructcostRecorder(recorder):
                     for y in self._columns:
                         if y == 'mean_x':
                             yval = dist.mean()
-                        elif y== 'mean_ln':
+                        elif y== 'mean_ln_x':
                             yval = dist.mean_ln()
-                        elif y== 'median':
+                        elif y== 'median_x':
                             yval = dist.median()
                         elif y == 'sd_ln_x':
                             yval = dist.sd_ln()
@@ -1882,9 +1882,9 @@ class StructcostRecorder(recorder):
                     for y in self._columns:
                         if y == 'mean_x':
                             yval = dist.mean()
-                        elif y== 'mean_ln':
+                        elif y== 'mean_ln_x':
                             yval = dist.mean_ln()
-                        elif y== 'median':
+                        elif y== 'median_x':
                             yval = dist.median()
                         elif y == 'sd_ln_x':
                             yval = dist.sd_ln()
-- 
2.43.0


From fc8376093d2e6d99cfcf65da43391bb081e06110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 27/43] fix: recorders without a file write to the standard
 output

---
 src/pyslat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyslat.py b/src/pyslat.py
index d80a407..c0943b5 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -59,6 +59,9 @@ def set_output_directory(path):
         os.makedirs(_Output_directory)    
 
 def full_output_path(path):
+    if path == None:
+        return None
+
     if not os.path.dirname(path):
         path = os.path.join(_Output_directory or _DEFAULT_OUTPUT_DIRECTORY, path)
 
-- 
2.43.0


From 1c25d6d0adc26682ed218bb432214f9b4c6e7597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 28/43] fix: a probfn with an invalid type is not registered

---
 src/pyslat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index c0943b5..a39997c 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -479,11 +479,11 @@ class probfn:
                                                   mu_func[0],
                                                   sigma_func[1].function(),
                                                   sigma_func[0]) 
+        if not(type == 'lognormal'):
+            raise ValueError("Invalid type '{}' for probfn '{}'.".format(type, id))
+
         if id != None:
             probfn.defs[id] = self
-        
-        if not(type == 'lognormal'):
-            raise ValueError("Invalid type '" + type + "' for probfn '" + id + "'.")
 
     
     ## Return the probfn object with the corresponding id.
-- 
2.43.0


From 6768c379fccb1928bdb600fca969010a3f748ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 29/43] fix: scripts can define linear and loglog functions

---
 src/SlatInterpreter.py | 22 +++++++++++++++++-----
 src/slatLexer.g4       |  2 +-
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index f9b4b35..5967a76 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -88,7 +88,7 @@ class SlatInterpreter(slatParserListener):
             type = 'loglog'
             fntype = pyslat.FUNCTION_TYPE.LOGLOG
         elif ctx.linear_args():
-            type = 'lin'
+            type = 'linear'
             fntype = pyslat.FUNCTION_TYPE.LIN
         else:
             raise ValueError("Unhandled DETFN type.")
@@ -96,10 +96,7 @@ class SlatInterpreter(slatParserListener):
 
         id = ctx.ID().getText()
         print(type)
-        if type == 'loglog' or type == 'lin':
-            pyslat.detfn(id, type, value[0], value[1])
-        else:
-            pyslat.detfn(id, type, value)
+        pyslat.detfn(id, type, value)
 
     ## Enter a parse tree produced by slatParser#loglog
     def enterLoglog_args(self, ctx:slatParser.Loglog_argsContext):
@@ -116,6 +113,21 @@ class SlatInterpreter(slatParserListener):
             y_values.append(pair[1])
         self._stack.append([x_values, y_values])
 
+    # Enter a parse tree produced by slatParser#linear_args.
+    def enterLinear_args(self, ctx:slatParser.Linear_argsContext):
+        self._push_stack()
+
+    # Exit a parse tree produced by slatParser#linear_args.
+    def exitLinear_args(self, ctx:slatParser.Linear_argsContext):
+        values = self._pop_stack()
+        # Put x and y values into separate lists:
+        x_values = []
+        y_values = []
+        for pair in values:
+            x_values.append(pair[0])
+            y_values.append(pair[1])
+        self._stack.append([x_values, y_values])
+
     ## Exit a parse tree produced by slatParser#scalar.
     def exitScalar(self, ctx:slatParser.ScalarContext):
         if ctx.STRING():
diff --git a/src/slatLexer.g4 b/src/slatLexer.g4
index 2ceee88..21cc4f0 100644
--- a/src/slatLexer.g4
+++ b/src/slatLexer.g4
@@ -86,7 +86,7 @@ STRING : SINGLE_QUOTED_STRING | DOUBLE_QUOTED_STRING ;
 
 HYPERBOLIC: 'hyperbolic';
 POWERLAW: 'powerlaw';
-LOGLOG: ' loglog';
+LOGLOG: 'loglog';
 LINEAR: 'linear';
 LINFLAG: '--linear';
 LOGFLAG: '--log';
-- 
2.43.0


From 8fc4768110f70a45777a02caab8eff19c22b737b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 30/43] fix: integration command doesn't swap precision and
 iterations

---
 src/SlatInterpreter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index 5967a76..590c039 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -513,12 +513,12 @@ class SlatInterpreter(slatParserListener):
             methodstring = "MAQ"
         else:
             raise ValueError("Unhandled integration type")
-        precision = self._stack.pop()
-        
+        # The iterations follow the precision, so they're at the top of the stack
         if ctx.INTEGER():
             iterations = int(ctx.INTEGER().getText())
         else:
             iterations = self._stack.pop()
+        precision = self._stack.pop()
         # TODO: Implement choice of methods
         pyslat.IntegrationSettings(precision, iterations);
         
-- 
2.43.0


From 81cfc2222ad689766ea4914269080454124acedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 31/43] fix: dictionary keys are strings

---
 src/SlatInterpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index 590c039..819962e 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -204,7 +204,7 @@ class SlatInterpreter(slatParserListener):
 
     ## Exit a parse tree produced by slatParser#dictionary_entry.
     def exitDictionary_entry(self, ctx:slatParser.Dictionary_entryContext):
-        key = (ctx.ID() or preprocess_string(ctx.STRING()).getText())
+        key = ctx.ID().getText() if ctx.ID() else preprocess_string(ctx.STRING().getText())
         value = self._stack.pop()
         self._stack.append([key, value])
 
-- 
2.43.0


From e81c9e723ead6944161b6402707c4b39b0b477b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 32/43] fix: probfn command can refer to functions through
 variables

---
 src/SlatInterpreter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index 819962e..1d87621 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -212,9 +212,10 @@ class SlatInterpreter(slatParserListener):
     def exitProbfn_command(self, ctx:slatParser.Probfn_commandContext):
         id = ctx.ID().getText()
         refs = ctx.function_ref()
-        mufn = (refs[0].ID() or refs[0].var_ref()).getText() 
-        sigmafn = (refs[1].ID() or refs[1].var_ref()).getText()
         options = self._stack.pop()
+        # The values of variables are on the stack
+        sigmafn = refs[1].ID().getText() if refs[1].ID() else self._stack.pop()
+        mufn = refs[0].ID().getText() if refs[0].ID() else self._stack.pop()
         mu = options['mu']
         sd = options['sd']
 
-- 
2.43.0


From 80ee24a82ccf18c5f477c1ade1a3d13c65959daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 33/43] fix: annual cost recorder without options uses the
 default column

---
 src/SlatInterpreter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index 1d87621..d5fdf12 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -594,6 +594,8 @@ class SlatInterpreter(slatParserListener):
                 options['structcost-type'] = 'annual'
                 cols = []
                 for key, value in self._stack.pop().items():
+                    if value == None:
+                        continue
                     if key == 'mu':
                         if value == pyslat.LOGNORMAL_MU_TYPE.MEAN_LN_X:
                             c = "mean_ln_x"
-- 
2.43.0


From 9b0d0f27bdecc7a3a05770a90788a9c0883af1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 34/43] fix: define and expose CompGroup::E_cost

---
 src/pyslatcore.cpp | 5 +++++
 src/pyslatcore.i   | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/pyslatcore.cpp b/src/pyslatcore.cpp
index 8decf0c..bf497a8 100644
--- a/src/pyslatcore.cpp
+++ b/src/pyslatcore.cpp
@@ -690,6 +690,11 @@ double CompGroup::E_annual_cost(void)
     return wrapper->E_annual_cost();
 };
 
+double CompGroup::E_cost(int years, double discount_rate)
+{
+    return ((1.0 - exp(-discount_rate * years)) / discount_rate) * wrapper->E_annual_cost();
+}
+
 double CompGroup::lambda_cost(double cost)
 {
     return wrapper->lambda_cost(cost); 
diff --git a/src/pyslatcore.i b/src/pyslatcore.i
index 041659a..f60dede 100644
--- a/src/pyslatcore.i
+++ b/src/pyslatcore.i
@@ -166,6 +166,7 @@ public:
     double E_Cost_IM(double edp);
     double SD_ln_Cost_IM(double edp);
     double E_annual_cost(void);
+    double E_cost(int years, double discount_rate);
     double E_Delay_EDP(double edp);
     double SD_ln_Delay_EDP(double edp);
     double E_Delay_IM(double edp);
-- 
2.43.0


From fa39fe1382958e1b046e47613349cb4a70efc0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 35/43] fix: an object can't be replaced with None

---
 src/pyslatcore.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyslatcore.cpp b/src/pyslatcore.cpp
index bf497a8..206745c 100644
--- a/src/pyslatcore.cpp
+++ b/src/pyslatcore.cpp
@@ -377,6 +377,7 @@ std::vector<double> IM::pRepair(std::vector<double> im)
 
 void IM::replace(IM *im)
 {
+    if (im == NULL) throw std::invalid_argument("Can't replace an object with None.");
     relationship->replace(im->relationship);
 }
 
@@ -501,6 +502,7 @@ bool EDP::AreSame(const EDP &other)
 
 void EDP::replace(EDP *edp)
 {
+    if (edp == NULL) throw std::invalid_argument("Can't replace an object with None.");
     relationship->replace(edp->relationship);
 }
 
@@ -589,6 +591,7 @@ std::vector<double> FragilityFn::pHighest(double edp)
 
 void FragilityFn::replace(FragilityFn *frag)
 {
+    if (frag == NULL) throw std::invalid_argument("Can't replace an object with None.");
     fragility->replace(frag->fragility);
 }
 
@@ -614,6 +617,7 @@ int LossFn::n_states()
 
 void LossFn::replace(LossFn *lossfn)
 {
+    if (lossfn == NULL) throw std::invalid_argument("Can't replace an object with None.");
     loss->replace(lossfn->loss);
 }
 
@@ -652,6 +656,7 @@ CompGroup::CompGroup(std::shared_ptr<SLAT::CompGroup> group)
 
 void CompGroup::replace(CompGroup *cg)
 {
+    if (cg == NULL) throw std::invalid_argument("Can't replace an object with None.");
     wrapper->replace(cg->wrapper);
 }
 
-- 
2.43.0


From dbc00a12ff7388bed93921051982d60c906e28dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:39 +0000
Subject: [PATCH 36/43] fix: probabilistic functions can be evaluated from
 Python

---
 src/pyslatcore.i | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pyslatcore.i b/src/pyslatcore.i
index f60dede..038a2dc 100644
--- a/src/pyslatcore.i
+++ b/src/pyslatcore.i
@@ -58,6 +58,17 @@ public:
 DeterministicFn *factory3(FUNCTION_TYPE t, std::vector<double>x, std::vector<double> y);
 DeterministicFn *factory2(FUNCTION_TYPE t, std::vector<double> params);
 
+class ProbabilisticFn {
+public:
+    double P_exceedence(double x, double min_y);
+    double X_at_exceedence(double x, double p);
+    double Mean(double x);
+    double MeanLn(double x);
+    double Median(double x);
+    double SD_ln(double x);
+    double SD(double x);
+};
+
 ProbabilisticFn *MakeLogNormalProbabilisticFn(const DeterministicFn &mu_function,
                                                   LOGNORMAL_MU_TYPE mu_type,
                                                   const DeterministicFn &sigma_function,
-- 
2.43.0


From 2a57133352e4e828f34a61c87f9555d28f5f4466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 37/43] fix: lossds recorder without columns has a label

---
 src/pyslat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index a39997c..297d4e2 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1526,7 +1526,7 @@ class recorder:
                       'edprate': ['EDP', 'lambda'],
                       'dsedp': ['EDP', None],
                       'dsim': ['IM', None],
-                      'lossds': ['DS', None],
+                      'lossds': ['DS', 'E(cost)'],
                       'costedp': ['EDP', None],
                       'costim': ['IM', None],
                       'delayedp': ['EDP', None],
-- 
2.43.0


From f34285c22d346b734bb6eb150f20ac20d499a3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:34 +0000
Subject: [PATCH 38/43] fix: the default delay function has as many states as
 the fragility function

---
 src/pyslat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 297d4e2..f3e07ef 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -233,7 +233,7 @@ def MakeBiLevelLossFn(parameters):
 # @param name  The name of the component group
 def MakeCompGroup(edp, frag_fn, cost_fn, delay_fn, count, cost_adjustment_factor, delay_adjustment_factor, name):
     if (delay_fn == None):
-        delay_fn = MakeSimpleLossFn([DefaultLogNormalDist()])
+        delay_fn = MakeSimpleLossFn([DefaultLogNormalDist() for i in range(frag_fn.n_states())])
     return pyslatcore.MakeCompGroup(edp, frag_fn, cost_fn, delay_fn, count, 
                                     cost_adjustment_factor,
                                     delay_adjustment_factor,
-- 
2.43.0


From 4cd9e56d8959f180d3c1f8b166d60c6f93a9f979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 39/43] fix: exceptions raised while costs are calculated in
 parallel reach the caller

---
 src/comp_group.cpp | 17 +++++++++++++++--
 src/structure.cpp  | 23 +++++++++++++++++++++--
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/comp_group.cpp b/src/comp_group.cpp
index 210da37..7ccdde4 100644
--- a/src/comp_group.cpp
+++ b/src/comp_group.cpp
@@ -10,6 +10,7 @@
  * ©2015 Canterbury University
  */
 
+#include <exception>
 #include "comp_group.h"
 #include <vector>
 #include <gsl/gsl_deriv.h>
@@ -272,17 +273,29 @@ namespace SLAT {
      */
     LogNormalDist CompGroup::CostDist_IM(double im) {
         double E = NAN, sd_ln = NAN;
+        // An exception can't leave a parallel region, so pass it on afterwards
+        std::exception_ptr E_error, sd_error;
 #pragma omp parallel sections
         {
 #pragma omp section
             {
-                E = E_cost_IM(im);
+                try {
+                    E = E_cost_IM(im);
+                } catch (...) {
+                    E_error = std::current_exception();
+                }
             }
 #pragma omp section
             {
-                sd_ln = SD_ln_cost_IM(im);
+                try {
+                    sd_ln = SD_ln_cost_IM(im);
+                } catch (...) {
+                    sd_error = std::current_exception();
+                }
             }
         }
+        if (E_error) std::rethrow_exception(E_error);
+        if (sd_error) std::rethrow_exception(sd_error);
 
         return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(E, sd_ln);
     }
diff --git a/src/structure.cpp b/src/structure.cpp
index 85e0d32..3e9094d 100644
--- a/src/structure.cpp
+++ b/src/structure.cpp
@@ -12,6 +12,7 @@
 
 #include <memory>
 #include <algorithm>
+#include <exception>
 #include <iostream>
 #include <iomanip>
 #include <utility>
@@ -99,9 +100,18 @@ namespace SLAT {
     {
         std::vector<LogNormalDist> dists(components.size());
         const size_t N = components.size();
+        // An exception can't leave a parallel region, so pass it on afterwards
+        std::vector<std::exception_ptr> errors(N);
 #pragma omp parallel for
         for (size_t i=0; i < N; i++) {
-            dists[i] = components[i]->first->CostDist_IM(im);
+            try {
+                dists[i] = components[i]->first->CostDist_IM(im);
+            } catch (...) {
+                errors[i] = std::current_exception();
+            }
+        }
+        for (size_t i=0; i < N; i++) {
+            if (errors[i]) std::rethrow_exception(errors[i]);
         }
         return LogNormalDist::AddDistributions(dists);
     }
@@ -172,9 +182,18 @@ namespace SLAT {
     std::vector<double> Structure::E_cost(std::vector<int> years, double discount_rate)
     {
         std::vector<double> result(years.size());
+        // An exception can't leave a parallel region, so pass it on afterwards
+        std::vector<std::exception_ptr> errors(years.size());
 #pragma omp parallel for
         for (size_t i=0; i < years.size(); i++) {
-            result[i] = E_cost(years[i], discount_rate);
+            try {
+                result[i] = E_cost(years[i], discount_rate);
+            } catch (...) {
+                errors[i] = std::current_exception();
+            }
+        }
+        for (size_t i=0; i < years.size(); i++) {
+            if (errors[i]) std::rethrow_exception(errors[i]);
         }
         return result;
     }
-- 
2.43.0


From d2fe5b532463244fcc788d173785f741fbaa1ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:52 +0000
Subject: [PATCH 40/43] fix: annual cost, rates and delays are undefined, not
 zero, when integration fails

---
 src/comp_group.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/comp_group.cpp b/src/comp_group.cpp
index 7ccdde4..985e1fd 100644
--- a/src/comp_group.cpp
+++ b/src/comp_group.cpp
@@ -421,7 +421,7 @@ namespace SLAT {
             if (result.successful) {
                 return result.integral;
             } else {
-                return 0;
+                return NAN;
             }
         } else {
             return 0;
@@ -448,7 +448,7 @@ namespace SLAT {
             if (result.successful) {
                 return result.integral;
             } else {
-                return 0;
+                return NAN;
             }
         } else {
             return 0;
@@ -490,7 +490,7 @@ namespace SLAT {
             if (result.successful) {
                 return result.integral;
             } else {
-                return 0;
+                return NAN;
             };
         } else {
             return 0;
@@ -550,7 +550,7 @@ namespace SLAT {
                 if (mean_x == 0) sigma_lnx = 0; //sigma_x;
                 return sigma_lnx;
             } else {
-                return 0;
+                return NAN;
             };
         } else {
             return 0;
@@ -621,7 +621,7 @@ namespace SLAT {
         if (result.successful) {
             return result.integral;
         } else {
-            return 0;
+            return NAN;
         };
     }
 
-- 
2.43.0


From 7fb90b3c0890ebad829ec5e62f2b3d50e57e51f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:59 +0000
Subject: [PATCH 41/43] fix: interpolated functions refuse tables the
 interpolator can't use

---
 src/functions.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/functions.cpp b/src/functions.cpp
index da6cf84..9060c85 100644
--- a/src/functions.cpp
+++ b/src/functions.cpp
@@ -177,6 +177,12 @@ namespace SLAT {
     InterpolatedFn::InterpolatedFn(double x[], double y[], size_t size) : 
         DeterministicFn()
     {
+        // The interpolator ends the process if it can't use the data
+        if (size < 2) throw std::invalid_argument("size");
+        for (size_t i=1; i < size; i++) {
+            if (!(x[i - 1] < x[i])) throw std::invalid_argument("x");
+        }
+
         min_x = std::pair<double, double>(x[0], y[0]);
         max_x = std::pair<double, double>(x[size - 1], y[size - 1]);
         
-- 
2.43.0


From 76908fb05ae32dc533ad4031efb9d359f546b38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:43 +0000
Subject: [PATCH 42/43] fix: edpim recorders report the values at given
 probabilities

---
 src/pyslat.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index f3e07ef..b1bc59e 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1568,7 +1568,9 @@ class recorder:
             elif self._type == 'edpim':
                 yvals = []
                 for y in self._columns:
-                    if y == 'mean_x':
+                    if isinstance(y, numbers.Number):
+                        yvals.append([self._function.X_at_exceedence(x, y) for x in self._at])
+                    elif y == 'mean_x':
                         yvals.append(self._function.Mean(self._at))
                     elif y == 'mean_ln_x':
                         yvals.append(self._function.MeanLn(self._at))
-- 
2.43.0


From 46f744f27dbd77d85aaea255597edbe9cc631a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:55 +0000
Subject: [PATCH 43/43] fix: files of one row can be imported

---
 src/pyslat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index b1bc59e..ebacdf0 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1963,7 +1963,7 @@ def MakeRecorder(id, type, function, options, columns, at):
 # @return A pyslat.probfn constructed using the data in the file.
 def ImportProbFn(id, filename):
     filename = full_input_path(filename)
-    data = np.loadtxt(filename, skiprows=2)
+    data = np.loadtxt(filename, skiprows=2, ndmin=2)
     # Add a point at 0, 0 to support interpolation down to zero
     x = [0]
     mu = [0]
@@ -2001,7 +2001,7 @@ def ImportProbFn(id, filename):
 # @return A pyslat.im constructed using the data in the file.
 def ImportIMFn(id, filename):
     filename = full_input_path(filename)
-    data = np.loadtxt(filename, skiprows=2)
+    data = np.loadtxt(filename, skiprows=2, ndmin=2)
     x = []
     y = []
     for d in data:
-- 
2.43.0

