From 5ba462a0559cb223167fb128cd702c518b114dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:56 +0000
Subject: [PATCH 01/45] fix: do not execute a downstream reaction directly when
 it is already queued

A reaction with a single upstream reaction is executed immediately after
that reaction instead of going through the reaction queue. If another
trigger (for example, a timer) had already put it on the queue at the
same tag, it was executed twice at that tag.
---
 core/reactor_common.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index 358480e..3f55367 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -756,7 +756,10 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
               // avoids acquiring a mutex lock.
               // FIXME: Check the earliest deadline on the reaction queue.
               // This optimization could violate EDF scheduling otherwise.
-              if (num_downstream_reactions == 1 && downstream_reaction->last_enabling_reaction == reaction) {
+              // The downstream reaction must not already be queued at this tag because of some other trigger;
+              // otherwise, it would be executed again when it is taken from the queue.
+              if (num_downstream_reactions == 1 && downstream_reaction->last_enabling_reaction == reaction &&
+                  downstream_reaction->status == inactive) {
                 // So far, this downstream reaction is a candidate to execute now.
                 downstream_to_execute_now = downstream_reaction;
               } else {
-- 
2.43.0


From a997b2b57a4ac014fb5fda7f9446bf6c315c1894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:56 +0000
Subject: [PATCH 02/45] fix: record a port only once when it is set more than
 once at a tag

Setting a port of a multiport again at the same tag appended its channel
to the sparse record again, so that iterating over the multiport
returned the same channel more than once.
---
 core/reactor.c                   | 3 +++
 core/threaded/reactor_threaded.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/core/reactor.c b/core/reactor.c
index 6e2fd24..8270a2f 100644
--- a/core/reactor.c
+++ b/core/reactor.c
@@ -47,6 +47,9 @@ extern bool keepalive_specified;
 void lf_set_present(lf_port_base_t* port) {
   if (!port->source_reactor)
     return;
+  // If the port has already been set at this tag, then it has already been recorded.
+  if (port->is_present)
+    return;
   environment_t* env = port->source_reactor->environment;
   bool* is_present_field = &port->is_present;
   if (env->is_present_fields_abbreviated_size < env->is_present_fields_size) {
diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index 82dd2b6..69e7f71 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -174,6 +174,9 @@ int _lf_wait_on_tag_barrier(environment_t* env, tag_t proposed_tag) {
 void lf_set_present(lf_port_base_t* port) {
   if (!port->source_reactor)
     return;
+  // If the port has already been set at this tag, then it has already been recorded.
+  if (port->is_present)
+    return;
   environment_t* env = port->source_reactor->environment;
   bool* is_present_field = &port->is_present;
   int ipfas = lf_atomic_fetch_add(&env->is_present_fields_abbreviated_size, 1);
-- 
2.43.0


From 1509161acec2c843377ec0273544cbc23b2cac72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:08 +0000
Subject: [PATCH 03/45] fix: release the token that a new template token
 replaces

_lf_get_token returned a new token without making it the template token
and without releasing the previous one, contrary to its documentation.
The new token kept a reference that nothing ever released, so payloads
of actions that are scheduled again while an earlier event is pending
(and of ports whose previous token is still in use) were never freed.
---
 core/lf_token.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/lf_token.c b/core/lf_token.c
index b97a3b3..4eaac0b 100644
--- a/core/lf_token.c
+++ b/core/lf_token.c
@@ -247,9 +247,12 @@ lf_token_t* _lf_get_token(token_template_t* tmplt) {
     return tmplt->token;
   }
   LF_CRITICAL_SECTION_EXIT(GLOBAL_ENVIRONMENT);
-  // If we get here, we need a new token.
+  // If we get here, we need a new token. It becomes the template token, so the
+  // template no longer needs the previous one.
   lf_token_t* result = _lf_new_token((token_type_t*)tmplt, NULL, 0);
   result->ref_count = 1;
+  _lf_done_using(tmplt->token);
+  tmplt->token = result;
   return result;
 }
 
-- 
2.43.0


From d789c8c01cb9726bf106062ac899cd31583f3bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:09 +0000
Subject: [PATCH 04/45] fix: release the token of an event that is discarded
 past the stop tag

When a conflict with a pending event pushed a new event past the stop
tag, the event was recycled without releasing its token.
---
 core/reactor_common.c | 1 +
 lib/schedule.c        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index 3f55367..dcf5317 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -546,6 +546,7 @@ trigger_handle_t _lf_schedule_at_tag(environment_t* env, trigger_t* trigger, tag
       if (lf_is_tag_after_stop_tag(env, (tag_t){.time = tag.time, .microstep = tag.microstep})) {
         // Scheduling e will incur a microstep after the stop tag,
         // which is illegal.
+        _lf_done_using(token);
         lf_recycle_event(env, e);
         return 0;
       }
diff --git a/lib/schedule.c b/lib/schedule.c
index 1683523..b68cd87 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -212,6 +212,7 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
         LF_PRINT_DEBUG("Attempt to schedule an event after stop_tag was rejected.");
         // Scheduling an event will incur a microstep
         // after the stop tag.
+        _lf_done_using(token);
         lf_recycle_event(env, e);
         return 0;
       }
-- 
2.43.0


From f225ffad84fa2f0fd30745de560f1694aadc55f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:46 +0000
Subject: [PATCH 05/45] fix: schedule physical actions strictly after the
 current tag

A physical action scheduled at microstep m > 0 while physical time equals
the time of the current tag got the tag (t, 0), which is in the past; the
program was then terminated with an error. Scheduling it twice at (t, 0)
put two events for the same action at (t, 1), one of which was lost.
---
 lib/schedule.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/schedule.c b/lib/schedule.c
index b68cd87..75c1052 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -171,6 +171,10 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
     // Get the current physical time and assign it as the intended time.
     intended_tag.time = lf_time_physical() + delay;
     intended_tag.microstep = 0;
+    // The event has to occur strictly after the current tag.
+    if (lf_tag_compare(intended_tag, env->current_tag) <= 0) {
+      intended_tag = (tag_t){.time = env->current_tag.time, .microstep = env->current_tag.microstep + 1};
+    }
   } else {
 // FIXME: We need to verify that we are executing within a reaction?
 // See reactor_threaded.
-- 
2.43.0


From 927e09786aef20eb9a43c88000a69b4b6ba0322f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:37 +0000
Subject: [PATCH 06/45] fix: release a reference when an event's token is
 replaced by itself

lf_schedule_trigger and _lf_schedule_at_tag count a reference to the
token before they look for a conflicting event. If that event already
carried the same token, the additional reference was never released.
---
 core/reactor_common.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index dcf5317..239aa53 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -471,10 +471,9 @@ event_t* _lf_create_dummy_events(environment_t* env, tag_t tag) {
 }
 
 void lf_replace_token(event_t* event, lf_token_t* token) {
-  if (event->token != token) {
-    // Free the existing token, if any.
-    _lf_done_using(event->token);
-  }
+  // Release the existing token, if any. The caller has already counted the
+  // reference to the new token, even if it is the same one.
+  _lf_done_using(event->token);
   // Replace the token with ours.
   event->token = token;
 }
@@ -525,9 +524,7 @@ trigger_handle_t _lf_schedule_at_tag(environment_t* env, trigger_t* trigger, tag
   if (found != NULL) {
     switch (trigger->policy) {
     case drop:
-      if (found->token != token) {
-        _lf_done_using(token);
-      }
+      _lf_done_using(token);
       lf_recycle_event(env, e);
       return (0);
       break;
-- 
2.43.0


From 7f166f1e17f12263fe514a80d506343c59600f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:17 +0000
Subject: [PATCH 07/45] fix: hold the reactor mutex while executing a violation
 handler

A watchdog handler and a deadline (or STP) violation handler of the same
reactor could run at the same time, because only the regular body of a
reaction was executed holding the mutex of the reactor.
---
 core/reactor_common.c            | 20 ++++++++++++++++++--
 core/threaded/reactor_threaded.c |  4 ++--
 include/core/reactor_common.h    | 12 ++++++++++++
 3 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index 239aa53..b7dddbe 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -701,6 +701,22 @@ void _lf_invoke_reaction(environment_t* env, reaction_t* reaction, int worker) {
 #endif
 }
 
+void _lf_invoke_handler(reaction_t* reaction, reaction_function_t handler) {
+#if !defined(LF_SINGLE_THREADED)
+  if (((self_base_t*)reaction->self)->reactor_mutex != NULL) {
+    LF_MUTEX_LOCK((lf_mutex_t*)((self_base_t*)reaction->self)->reactor_mutex);
+  }
+#endif
+
+  (*handler)(reaction->self);
+
+#if !defined(LF_SINGLE_THREADED)
+  if (((self_base_t*)reaction->self)->reactor_mutex != NULL) {
+    LF_MUTEX_UNLOCK((lf_mutex_t*)((self_base_t*)reaction->self)->reactor_mutex);
+  }
+#endif
+}
+
 /**
  * For the specified reaction, if it has produced outputs, insert the
  * resulting triggered reactions into the reaction queue.
@@ -814,7 +830,7 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
         // to downstream reactions.
         violation = true;
         LF_PRINT_LOG("Invoke tardiness handler.");
-        (*handler)(downstream_to_execute_now->self);
+        _lf_invoke_handler(downstream_to_execute_now, handler);
 
         // If the reaction produced outputs, put the resulting
         // triggered reactions into the queue or execute them directly if possible.
@@ -841,7 +857,7 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
         tracepoint_reaction_starts(env, downstream_to_execute_now, worker);
         if (handler != NULL) {
           // Assume the mutex is still not held.
-          (*handler)(downstream_to_execute_now->self);
+          _lf_invoke_handler(downstream_to_execute_now, handler);
 
           // If the reaction produced outputs, put the resulting
           // triggered reactions into the queue or execute them directly if possible.
diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index 69e7f71..be38a81 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -696,7 +696,7 @@ bool _lf_worker_handle_deadline_violation_for_reaction(environment_t* env, int w
       reaction_function_t handler = reaction->deadline_violation_handler;
       if (handler != NULL) {
         LF_PRINT_LOG("Worker %d: Deadline violation. Invoking deadline handler.", worker_number);
-        (*handler)(reaction->self);
+        _lf_invoke_handler(reaction, handler);
 
         // If the reaction produced outputs, put the resulting
         // triggered reactions into the queue or execute them directly if possible.
@@ -747,7 +747,7 @@ bool _lf_worker_handle_STP_violation_for_reaction(environment_t* env, int worker
       LF_PRINT_LOG("Worker %d: Invoking STP violation handler.", worker_number);
       // There is a violation
       violation_occurred = true;
-      (*handler)(reaction->self);
+      _lf_invoke_handler(reaction, handler);
 
       // Reset the STP violation flag because it has been dealt with.
       // Downstream handlers should not be invoked.
diff --git a/include/core/reactor_common.h b/include/core/reactor_common.h
index 8086ed7..87c0e92 100644
--- a/include/core/reactor_common.h
+++ b/include/core/reactor_common.h
@@ -264,6 +264,18 @@ void _lf_advance_tag(environment_t* env, tag_t next_tag);
 void _lf_pop_events(environment_t* env);
 
 void _lf_invoke_reaction(environment_t* env, reaction_t* reaction, int worker);
+
+/**
+ * @brief Invoke a deadline or STP violation handler of the given reaction.
+ * @ingroup Internal
+ *
+ * Like the reaction itself, the handler is executed while holding the mutex of its reactor,
+ * if there is one, so that it excludes the watchdog handlers of that reactor.
+ *
+ * @param reaction The reaction that has the violation.
+ * @param handler The handler to invoke (not NULL).
+ */
+void _lf_invoke_handler(reaction_t* reaction, reaction_function_t handler);
 void schedule_output_reactions(environment_t* env, reaction_t* reaction, int worker);
 int process_args(int argc, const char* argv[]);
 
-- 
2.43.0


From 671f313b4da7b139681ba79a6af5a71b25cd0da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:17 +0000
Subject: [PATCH 08/45] fix: allow a reactor to have more than one watchdog

The mutex of a reactor was initialized again for each of its watchdogs,
possibly while the thread of another watchdog was holding it, and it was
freed once per watchdog on termination.
---
 core/reactor_common.c    | 2 ++
 core/threaded/watchdog.c | 8 +++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index b7dddbe..df1098b 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -1222,6 +1222,8 @@ void termination(void) {
     for (int i = 0; i < env->watchdogs_size; i++) {
       if (env->watchdogs[i]->base->reactor_mutex != NULL) {
         free(env->watchdogs[i]->base->reactor_mutex);
+        // The reactor may have more than one watchdog.
+        env->watchdogs[i]->base->reactor_mutex = NULL;
       }
     }
 #endif
diff --git a/core/threaded/watchdog.c b/core/threaded/watchdog.c
index 3240fc3..1f41da6 100644
--- a/core/threaded/watchdog.c
+++ b/core/threaded/watchdog.c
@@ -29,7 +29,13 @@ static void* watchdog_thread_main(void* arg);
 void _lf_initialize_watchdogs(environment_t* env) {
   for (int i = 0; i < env->watchdogs_size; i++) {
     watchdog_t* watchdog = env->watchdogs[i];
-    if (watchdog->base->reactor_mutex != NULL) {
+    // Initialize the mutex only once for a reactor that has more than one watchdog.
+    // It may already be in use by the thread of a previous watchdog of that reactor.
+    bool initialized = false;
+    for (int j = 0; j < i; j++) {
+      initialized = initialized || env->watchdogs[j]->base == watchdog->base;
+    }
+    if (watchdog->base->reactor_mutex != NULL && !initialized) {
       LF_MUTEX_INIT((lf_mutex_t*)(watchdog->base->reactor_mutex));
     }
     LF_COND_INIT(&watchdog->cond, watchdog->base->reactor_mutex);
-- 
2.43.0


From 20e4fc9aba2bef8bda28325501413576bab3a406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:57 +0000
Subject: [PATCH 09/45] fix: wake up a watchdog that is restarted with an
 earlier expiration

A running watchdog that was restarted with a shorter timeout kept
sleeping until its previous, later expiration.
---
 core/threaded/watchdog.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/threaded/watchdog.c b/core/threaded/watchdog.c
index 1f41da6..e1cf2e0 100644
--- a/core/threaded/watchdog.c
+++ b/core/threaded/watchdog.c
@@ -149,10 +149,12 @@ void lf_watchdog_start(watchdog_t* watchdog, interval_t additional_timeout) {
   // Assumes reactor mutex is already held.
   self_base_t* base = watchdog->base;
   watchdog->terminate = false;
+  instant_t previous = watchdog->expiration;
   watchdog->expiration = base->environment->current_tag.time + watchdog->min_expiration + additional_timeout;
 
   // If the watchdog is inactive, signal it to start waiting.
-  if (!watchdog->active) {
+  // If it is already waiting for a later expiration, signal it to wait for the new one instead.
+  if (!watchdog->active || watchdog->expiration < previous) {
     LF_COND_SIGNAL(&watchdog->cond);
   }
 }
-- 
2.43.0


From 728261902cd5883fa96991b2e6d3cc2840adcd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:28 +0000
Subject: [PATCH 10/45] fix: do not use the token of an action's struct for
 events that are scheduled

lf_schedule_copy, lf_schedule_int and lf_schedule_value reused the token
of the action struct. A reaction that reads the action refers that struct
to the token of the current event without holding a lock, so the token
of an event that was just being scheduled by another thread could be
recycled and the event would later carry the value of another one.
---
 core/lf_token.c         | 12 ++++++++++++
 include/core/lf_token.h | 12 ++++++++++++
 lib/schedule.c          |  4 ++--
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/core/lf_token.c b/core/lf_token.c
index 4eaac0b..c2512fe 100644
--- a/core/lf_token.c
+++ b/core/lf_token.c
@@ -306,6 +306,18 @@ lf_token_t* _lf_initialize_token(token_template_t* tmplt, size_t length) {
   return result;
 }
 
+lf_token_t* _lf_new_token_with_value(token_template_t* tmplt, void* value, size_t length) {
+  assert(tmplt != NULL);
+  lf_token_t* result = _lf_new_token((token_type_t*)tmplt, value, length);
+// Count allocations to issue a warning if this is never freed.
+#if !defined NDEBUG
+  LF_CRITICAL_SECTION_ENTER(GLOBAL_ENVIRONMENT);
+  _lf_count_payload_allocations++;
+  LF_CRITICAL_SECTION_EXIT(GLOBAL_ENVIRONMENT);
+#endif
+  return result;
+}
+
 void _lf_free_all_tokens() {
   // Free template tokens.
   LF_CRITICAL_SECTION_ENTER(GLOBAL_ENVIRONMENT);
diff --git a/include/core/lf_token.h b/include/core/lf_token.h
index 49069fa..f571b92 100644
--- a/include/core/lf_token.h
+++ b/include/core/lf_token.h
@@ -293,6 +293,18 @@ lf_token_t* _lf_initialize_token_with_value(token_template_t* tmplt, void* value
  */
 lf_token_t* _lf_initialize_token(token_template_t* tmplt, size_t length);
 
+/**
+ * Return a new token with the specified value and a reference count of 0.
+ * Unlike _lf_initialize_token_with_value, this does not use or replace the
+ * token of the template, which the reactions of the reactor may be using
+ * while another thread schedules an action.
+ * @param tmplt The token template, which provides the type (must not be NULL).
+ * @param value The value of the array.
+ * @param length The length of the array, or 1 if it is not an array.
+ * @return A new or recycled token.
+ */
+lf_token_t* _lf_new_token_with_value(token_template_t* tmplt, void* value, size_t length);
+
 /**
  * @brief Free all tokens.
  * Free tokens on the _lf_token_recycling_bin hashset and all
diff --git a/lib/schedule.c b/lib/schedule.c
index 75c1052..b1116a6 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -56,7 +56,7 @@ trigger_handle_t lf_schedule_copy(void* action, interval_t offset, void* value,
   }
   LF_CRITICAL_SECTION_ENTER(env);
   // Initialize token with an array size of length and a reference count of 0.
-  lf_token_t* token = _lf_initialize_token(template, length);
+  lf_token_t* token = _lf_new_token_with_value(template, calloc(length, template->type.element_size), length);
   // Copy the value into the newly allocated memory.
   memcpy(token->value, value, template->type.element_size * length);
   // The schedule function will increment the reference count.
@@ -77,7 +77,7 @@ trigger_handle_t lf_schedule_value(void* action, interval_t extra_delay, void* v
   token_template_t* template = (token_template_t*)action;
   environment_t* env = ((lf_action_base_t*)action)->parent->environment;
   LF_CRITICAL_SECTION_ENTER(env);
-  lf_token_t* token = _lf_initialize_token_with_value(template, value, length);
+  lf_token_t* token = _lf_new_token_with_value(template, value, length);
   int return_value = lf_schedule_trigger(env, ((lf_action_base_t*)action)->trigger, extra_delay, token);
   // Notify the main thread in case it is waiting for physical time to elapse.
   lf_notify_of_event(env);
-- 
2.43.0


From 11316ffe47c472c196afd3f5777cac0e5c399f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:07 +0000
Subject: [PATCH 11/45] fix: parse the RTI's command-line arguments that follow
 the clock sync arguments

---
 core/federated/RTI/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/federated/RTI/main.c b/core/federated/RTI/main.c
index 17d73e9..6db3b11 100644
--- a/core/federated/RTI/main.c
+++ b/core/federated/RTI/main.c
@@ -253,7 +253,8 @@ int process_args(int argc, const char* argv[]) {
         return 0;
       }
       i++;
-      i += process_clock_sync_args((argc - i), &argv[i]);
+      // Skip only the arguments that were processed as clock sync arguments. This loop increments i.
+      i += process_clock_sync_args((argc - i), &argv[i]) - 1;
     } else if (strcmp(argv[i], "-a") == 0 || strcmp(argv[i], "--auth") == 0) {
 #ifndef __RTI_AUTH__
       lf_print_error("--auth requires the RTI to be built with the -DAUTH=ON option.");
-- 
2.43.0


From 8b708332bb006303b48fcb9c57421f9344b735b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:49 +0000
Subject: [PATCH 12/45] fix: check that a tag advance grant is not redundant
 after waiting for the start time to be sent

---
 core/federated/RTI/rti_remote.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 3daaeff..0c489a7 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -179,16 +179,17 @@ static int create_rti_server(uint16_t port, socket_type_t socket_type) {
 }
 
 void notify_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
-  if (e->state == NOT_CONNECTED || lf_tag_compare(tag, e->last_granted) <= 0 ||
-      lf_tag_compare(tag, e->last_provisionally_granted) < 0) {
-    return;
-  }
   // Need to make sure that the destination federate's thread has already
   // sent the starting MSG_TYPE_TIMESTAMP message.
   while (e->state == PENDING) {
     // Need to wait here.
     lf_cond_wait(&sent_start_time);
   }
+  // Check this after waiting because the mutex is released while waiting.
+  if (e->state == NOT_CONNECTED || lf_tag_compare(tag, e->last_granted) <= 0 ||
+      lf_tag_compare(tag, e->last_provisionally_granted) < 0) {
+    return;
+  }
   size_t message_length = 1 + sizeof(int64_t) + sizeof(uint32_t);
   unsigned char buffer[message_length];
   buffer[0] = MSG_TYPE_TAG_ADVANCE_GRANT;
@@ -212,16 +213,17 @@ void notify_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
 }
 
 void notify_provisional_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
-  if (e->state == NOT_CONNECTED || lf_tag_compare(tag, e->last_granted) <= 0 ||
-      lf_tag_compare(tag, e->last_provisionally_granted) <= 0) {
-    return;
-  }
   // Need to make sure that the destination federate's thread has already
   // sent the starting MSG_TYPE_TIMESTAMP message.
   while (e->state == PENDING) {
     // Need to wait here.
     lf_cond_wait(&sent_start_time);
   }
+  // Check this after waiting because the mutex is released while waiting.
+  if (e->state == NOT_CONNECTED || lf_tag_compare(tag, e->last_granted) <= 0 ||
+      lf_tag_compare(tag, e->last_provisionally_granted) <= 0) {
+    return;
+  }
   size_t message_length = 1 + sizeof(int64_t) + sizeof(uint32_t);
   unsigned char buffer[message_length];
   buffer[0] = MSG_TYPE_PROVISIONAL_TAG_ADVANCE_GRANT;
-- 
2.43.0


From 62709b92b24d626f11266690a53fe5f6936eefaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:49 +0000
Subject: [PATCH 13/45] fix: do not send a stop request to a federate before
 its start time

---
 core/federated/RTI/rti_remote.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 0c489a7..1bd9931 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -628,6 +628,15 @@ void handle_stop_request_message(federate_info_t* fed) {
   // message is in transport or being used to determine a TAG.
   LF_MUTEX_LOCK(&rti_mutex);
 
+  // Need to make sure that the starting MSG_TYPE_TIMESTAMP message has been sent
+  // to every federate before a MSG_TYPE_STOP_REQUEST message is.
+  for (int i = 0; i < rti_remote->base.number_of_scheduling_nodes; i++) {
+    federate_info_t* f = GET_FED_INFO(i);
+    while (f->enclave.state == PENDING) {
+      lf_cond_wait(&sent_start_time);
+    }
+  }
+
   // Check whether we have already received a stop_tag
   // from this federate
   if (fed->requested_stop) {
-- 
2.43.0


From 644f9e09487aabdda00dce3fc00de549035217b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:49 +0000
Subject: [PATCH 14/45] fix: grant a stop request when a federate leaves
 without replying to it

---
 core/federated/RTI/rti_remote.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 1bd9931..3361123 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1017,6 +1017,11 @@ static void handle_federate_failed(federate_info_t* my_fed) {
   // We can now safely close the socket.
   close(my_fed->socket); //  from unistd.h
 
+  // A federate that has left will not reply to a pending stop request.
+  if (rti_remote->stop_in_progress) {
+    mark_federate_requesting_stop(my_fed);
+  }
+
   // Check downstream federates to see whether they should now be granted a TAG.
   // To handle cycles, need to create a boolean array to keep
   // track of which upstream federates have been visited.
@@ -1070,6 +1075,11 @@ static void handle_federate_resign(federate_info_t* my_fed) {
   // We can now safely close the socket.
   close(my_fed->socket); //  from unistd.h
 
+  // A federate that has left will not reply to a pending stop request.
+  if (rti_remote->stop_in_progress) {
+    mark_federate_requesting_stop(my_fed);
+  }
+
   // Check downstream federates to see whether they should now be granted a TAG.
   // To handle cycles, need to create a boolean array to keep
   // track of which upstream federates have been visited.
-- 
2.43.0


From f4366fd50a3b35e033a360e87965b539c4e40226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:49 +0000
Subject: [PATCH 15/45] fix: compare the whole federation ID of a federate that
 joins

---
 core/federated/RTI/rti_remote.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 3361123..4c54409 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1250,7 +1250,7 @@ static int32_t receive_and_check_fed_id_message(int* socket_id, struct sockaddr_
       tracepoint_rti_from_federate(receive_FED_ID, fed_id, NULL);
     }
     // Compare the received federation ID to mine.
-    if (strncmp(rti_remote->federation_id, federation_id_received, federation_id_length) != 0) {
+    if (strcmp(rti_remote->federation_id, federation_id_received) != 0) {
       // Federation IDs do not match. Send back a MSG_TYPE_REJECT message.
       lf_print_warning("Federate from another federation %s attempted to connect to RTI in federation %s.",
                        federation_id_received, rti_remote->federation_id);
-- 
2.43.0


From ec8e14c850a90cca2bb1464a187c1454f84a43c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:49 +0000
Subject: [PATCH 16/45] fix: limit next event tags received after a stop has
 been granted to the stop tag

---
 core/federated/RTI/rti_remote.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 4c54409..feea72c 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -40,6 +40,12 @@ static rti_remote_t* rti_remote;
 
 bool _lf_federate_reports_error = false;
 
+/**
+ * Boolean used to prevent the RTI from sending the
+ * MSG_TYPE_STOP_GRANTED message multiple times.
+ */
+bool stop_granted_already_sent_to_federates = false;
+
 // A convenient macro for getting the `federate_info_t *` at index `_idx`
 // and casting it.
 #define GET_FED_INFO(_idx) (federate_info_t*)rti_remote->base.scheduling_nodes[_idx]
@@ -280,6 +286,11 @@ void update_federate_next_event_tag_locked(uint16_t federate_id, tag_t next_even
   if (lf_tag_compare(min_in_transit_tag, next_event_tag) < 0) {
     next_event_tag = min_in_transit_tag;
   }
+  // Once a stop has been granted, the next event is no later than the stop tag, even
+  // if the federate sent its next event tag before being informed of the stop tag.
+  if (stop_granted_already_sent_to_federates && lf_tag_compare(next_event_tag, rti_remote->base.max_stop_tag) > 0) {
+    next_event_tag = rti_remote->base.max_stop_tag;
+  }
   update_scheduling_node_next_event_tag_locked(&(fed->enclave), next_event_tag);
 }
 
@@ -520,12 +531,6 @@ void handle_next_event_tag(federate_info_t* fed) {
 
 /////////////////// STOP functions ////////////////////
 
-/**
- * Boolean used to prevent the RTI from sending the
- * MSG_TYPE_STOP_GRANTED message multiple times.
- */
-bool stop_granted_already_sent_to_federates = false;
-
 /**
  * Once the RTI has seen proposed tags from all connected federates,
  * it will broadcast a MSG_TYPE_STOP_GRANTED carrying the _RTI.max_stop_tag.
-- 
2.43.0


From c8fed2366c97fe7f702aa860a60de6cdde094cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:49 +0000
Subject: [PATCH 17/45] fix: do not access federates in termination() before
 they have been created

---
 core/federated/RTI/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/federated/RTI/main.c b/core/federated/RTI/main.c
index 6db3b11..3b62871 100644
--- a/core/federated/RTI/main.c
+++ b/core/federated/RTI/main.c
@@ -101,7 +101,8 @@ static void send_failed_signal(federate_info_t* fed) {
  */
 void termination() {
   if (!normal_termination) {
-    for (int i = 0; i < rti.base.number_of_scheduling_nodes; i++) {
+    // There are no federates if processing the command-line arguments failed.
+    for (int i = 0; rti.base.scheduling_nodes != NULL && i < rti.base.number_of_scheduling_nodes; i++) {
       federate_info_t* f = (federate_info_t*)rti.base.scheduling_nodes[i];
       if (!f || f->enclave.state == NOT_CONNECTED)
         continue;
-- 
2.43.0


From 158cefc1e59965c7e39d286d2369fddf3983abd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:24 +0000
Subject: [PATCH 18/45] fix: grant a PTAG to federates that a PTAG waits for as
 soon as this becomes possible

---
 core/federated/RTI/rti_common.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/core/federated/RTI/rti_common.c b/core/federated/RTI/rti_common.c
index 3a1b16f..7620f6c 100644
--- a/core/federated/RTI/rti_common.c
+++ b/core/federated/RTI/rti_common.c
@@ -280,6 +280,21 @@ void notify_advance_grant_if_safe(scheduling_node_t* e) {
       notify_tag_advance_grant(e, grant.tag);
     }
   }
+  // A downstream node that has been granted a PTAG may be waiting for this node to report absent outputs.
+  // When that PTAG was sent, it may not have been possible to send one to this node. It may be possible now.
+  for (int i = 0; i < e->num_downstream; i++) {
+    scheduling_node_t* downstream = rti_common->scheduling_nodes[e->downstream[i]];
+    tag_t tag = downstream->last_provisionally_granted;
+    if (lf_tag_compare(tag, downstream->last_granted) > 0         // The PTAG has not been followed by a TAG
+        && lf_tag_compare(tag, downstream->completed) > 0         // and its tag has not been completed.
+        && is_in_zero_delay_cycle(e)                              // This node may be needed to complete it.
+        && lf_tag_compare(tag, e->last_granted) > 0               // The grant is not redundant.
+        && lf_tag_compare(tag, e->last_provisionally_granted) > 0 // The grant is not redundant.
+        && lf_tag_compare(earliest_future_incoming_message_tag(e), tag) == 0 &&
+        lf_tag_compare(eimt_strict(e), tag) > 0) {
+      notify_provisional_tag_advance_grant(e, tag);
+    }
+  }
 }
 
 // Local function used recursively to find minimum delays upstream.
-- 
2.43.0


From a679b1648baa80364bcacccd15dbdb9b51484b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:12 +0000
Subject: [PATCH 19/45] fix: do not send a PTAG to federates with a delayed
 connection to a federate that is granted one

---
 core/federated/RTI/rti_remote.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index feea72c..2357881 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -266,6 +266,12 @@ void notify_provisional_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
       if (upstream->state == NOT_CONNECTED)
         continue;
 
+      // Ignore this federate if there is a delay on the connection because then its outputs at this tag
+      // are not needed to complete this tag, and a federate that is granted a PTAG without having asked
+      // for it does not send a NET for that tag, which this federate may need.
+      if (e->upstream_delay[j] != NEVER)
+        continue;
+
       tag_t earliest = earliest_future_incoming_message_tag(upstream);
       tag_t strict_earliest = eimt_strict(upstream); // Non-ZDC version.
 
-- 
2.43.0


From ff1894ecf651e1e46f82013ead57d04c93da0369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:12 +0000
Subject: [PATCH 20/45] fix: do not forward messages to a federate that
 resigned while waiting for its start time to be sent

---
 core/federated/RTI/rti_remote.c | 34 +++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 2357881..15bc761 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -320,9 +320,17 @@ void handle_port_absent_message(federate_info_t* sending_federate, unsigned char
   // issue a TAG before this message has been forwarded.
   LF_MUTEX_LOCK(&rti_mutex);
 
+  federate_info_t* fed = GET_FED_INFO(federate_id);
+
+  // Need to make sure that the destination federate's thread has already
+  // sent the starting MSG_TYPE_TIMESTAMP message.
+  while (fed->enclave.state == PENDING) {
+    // Need to wait here.
+    lf_cond_wait(&sent_start_time);
+  }
+
   // If the destination federate is no longer connected, issue a warning
   // and return.
-  federate_info_t* fed = GET_FED_INFO(federate_id);
   if (fed->enclave.state == NOT_CONNECTED) {
     LF_MUTEX_UNLOCK(&rti_mutex);
     lf_print_warning("RTI: Destination federate %d is no longer connected. Dropping message.", federate_id);
@@ -340,13 +348,6 @@ void handle_port_absent_message(federate_info_t* sending_federate, unsigned char
 
   LF_PRINT_LOG("RTI forwarding port absent message for port %u to federate %u.", reactor_port_id, federate_id);
 
-  // Need to make sure that the destination federate's thread has already
-  // sent the starting MSG_TYPE_TIMESTAMP message.
-  while (fed->enclave.state == PENDING) {
-    // Need to wait here.
-    lf_cond_wait(&sent_start_time);
-  }
-
   if (rti_remote->base.tracing_enabled) {
     tracepoint_rti_to_federate(send_PORT_ABS, federate_id, &tag);
   }
@@ -405,9 +406,17 @@ void handle_timed_message(federate_info_t* sending_federate, unsigned char* buff
   // issue a TAG before this message has been forwarded.
   LF_MUTEX_LOCK(&rti_mutex);
 
+  federate_info_t* fed = GET_FED_INFO(federate_id);
+
+  // Need to make sure that the destination federate's thread has already
+  // sent the starting MSG_TYPE_TIMESTAMP message.
+  while (fed->enclave.state == PENDING) {
+    // Need to wait here.
+    lf_cond_wait(&sent_start_time);
+  }
+
   // If the destination federate is no longer connected, issue a warning,
   // remove the message from the socket and return.
-  federate_info_t* fed = GET_FED_INFO(federate_id);
   if (fed->enclave.state == NOT_CONNECTED) {
     lf_print_warning("RTI: Destination federate %d is no longer connected. Dropping message.", federate_id);
     LF_PRINT_LOG("Fed status: next_event " PRINTF_TAG ", "
@@ -437,13 +446,6 @@ void handle_timed_message(federate_info_t* sending_federate, unsigned char* buff
   LF_PRINT_DEBUG("RTI forwarding message to port %d of federate %hu of length %zu.", reactor_port_id, federate_id,
                  length);
 
-  // Need to make sure that the destination federate's thread has already
-  // sent the starting MSG_TYPE_TIMESTAMP message.
-  while (fed->enclave.state == PENDING) {
-    // Need to wait here.
-    lf_cond_wait(&sent_start_time);
-  }
-
   if (rti_remote->base.tracing_enabled) {
     tracepoint_rti_to_federate(send_TAGGED_MSG, federate_id, &intended_tag);
   }
-- 
2.43.0


From 4dd0159ffa55720820139995484183d2e5e485ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:02 +0000
Subject: [PATCH 21/45] fix: consider delayed connections from federates in
 other zero-delay cycles when granting a PTAG

---
 core/federated/RTI/rti_common.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/federated/RTI/rti_common.c b/core/federated/RTI/rti_common.c
index 7620f6c..6ce4bcd 100644
--- a/core/federated/RTI/rti_common.c
+++ b/core/federated/RTI/rti_common.c
@@ -127,8 +127,9 @@ tag_t eimt_strict(scheduling_node_t* e) {
   tag_t t_d = FOREVER_TAG;
   for (int i = 0; i < e->num_upstream; i++) {
     scheduling_node_t* upstream = rti_common->scheduling_nodes[e->upstream[i]];
-    // Skip this node if it is part of a zero-delay cycle.
-    if (is_in_zero_delay_cycle(upstream))
+    // Skip this node if it is part of a zero-delay cycle, unless the connection from it has a delay
+    // and hence is not part of that cycle.
+    if (is_in_zero_delay_cycle(upstream) && e->upstream_delay[i] == NEVER)
       continue;
     // If we haven't heard from the upstream node, then assume it can send an event at the start time.
     if (lf_tag_compare(upstream->next_event, NEVER_TAG) == 0) {
-- 
2.43.0


From 13bc44ae804a49f7a15c9d9854f19c70592f62e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:08 +0000
Subject: [PATCH 22/45] fix: do not lose events deferred to a microstep that is
 taken

_lf_schedule_at_tag, used for messages from other federates, put a conflicting event one
microstep later without checking whether that tag is taken too, so that of three messages
for the same tag only two took effect.
---
 core/reactor_common.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index df1098b..641c8bd 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -520,8 +520,9 @@ trigger_handle_t _lf_schedule_at_tag(environment_t* env, trigger_t* trigger, tag
   e->intended_tag = trigger->intended_tag;
 #endif
 
-  event_t* found = (event_t*)pqueue_tag_find_equal_same_tag(env->event_q, (pqueue_tag_element_t*)e);
-  if (found != NULL) {
+  // Under the default policy, events that were deferred earlier may have taken the next microsteps as well.
+  event_t* found = NULL;
+  while ((found = (event_t*)pqueue_tag_find_equal_same_tag(env->event_q, (pqueue_tag_element_t*)e)) != NULL) {
     switch (trigger->policy) {
     case drop:
       _lf_done_using(token);
-- 
2.43.0


From 45129979ff11e4c5aba4972582a14d1c83dd8a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:08 +0000
Subject: [PATCH 23/45] fix: a federate waiting for a grant must not announce a
 later next event

At the start tag (and whenever the tag waited for has no event on the queue) a message for a
later tag made the federate send a NET for that tag, on which the RTI granted downstream
federates too much.
---
 core/federated/federate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 9be45fd..8ac0046 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -2454,7 +2454,8 @@ tag_t lf_send_next_event_tag(environment_t* env, tag_t tag, bool wait_for_reply)
         if (lf_tag_compare(_fed.last_TAG, next_tag) >= 0 || lf_tag_compare(_fed.last_TAG, tag) >= 0) {
           return _fed.last_TAG;
         }
-        if (lf_tag_compare(next_tag, tag) != 0) {
+        // The tag waited for stays pending (at the start, it has no event on the queue), so only an earlier one does.
+        if (lf_tag_compare(next_tag, tag) < 0) {
           send_tag(MSG_TYPE_NEXT_EVENT_TAG, next_tag);
           _fed.last_sent_NET = next_tag;
           LF_PRINT_LOG("Sent next event tag (NET) " PRINTF_TAG " to RTI from loop.", next_tag.time - lf_time_start(),
-- 
2.43.0


From 5a1e8863018cc8b3ad47509fb2279f3afb9e24b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:14 +0000
Subject: [PATCH 24/45] fix: do not directly execute a downstream reaction of
 an inactive mode

---
 core/reactor_common.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index 641c8bd..bdd5bdf 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -762,6 +762,12 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
               LF_PRINT_DEBUG("Passing is_STP_violated of %d to the downstream reaction: %s",
                              downstream_reaction->is_STP_violated, downstream_reaction->name);
             }
+#endif
+#ifdef MODAL_REACTORS
+            // Reactions in inactive modes are not triggered, and must not be executed directly either.
+            if (downstream_reaction != NULL && !_lf_mode_is_active(downstream_reaction->mode)) {
+              continue;
+            }
 #endif
             if (downstream_reaction != NULL && downstream_reaction != downstream_to_execute_now) {
               num_downstream_reactions++;
-- 
2.43.0


From b77943411c3e85c992862d2f8f90d788b89eda1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:52 +0000
Subject: [PATCH 25/45] fix: start a pending one-shot timer only once when its
 mode is reset

---
 core/modal_models/modes.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/modal_models/modes.c b/core/modal_models/modes.c
index 42c35a6..4138a0a 100644
--- a/core/modal_models/modes.c
+++ b/core/modal_models/modes.c
@@ -385,7 +385,8 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
           event_t* event = suspended_event->event;
           if (event != NULL && event->trigger != NULL && event->trigger->mode == state->next_mode) {
             if (state->mode_change == reset_transition) { // Reset transition
-              if (event->trigger->is_timer) {             // Only reset timers
+              // Only reset timers. Timers with a period of 0 have been scheduled above already.
+              if (event->trigger->is_timer && event->trigger->period != 0) {
                 trigger_t* timer = event->trigger;
 
                 LF_PRINT_DEBUG("Modes: Re-enqueuing reset timer.");
-- 
2.43.0


From dd7968db0431e350879d8ee4ad2e3391fdfd86bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:17 +0000
Subject: [PATCH 26/45] fix: keep the payloads of events suspended in a mode,
 and release those dropped by a reset

---
 core/modal_models/modes.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/core/modal_models/modes.c b/core/modal_models/modes.c
index 4138a0a..0655866 100644
--- a/core/modal_models/modes.c
+++ b/core/modal_models/modes.c
@@ -408,12 +408,23 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
               LF_PRINT_DEBUG("Modes: Re-enqueuing event with a suspended delay of " PRINTF_TIME
                              " (previous TTH: " PRINTF_TIME ", Mode suspended at: " PRINTF_TIME ").",
                              local_remaining_delay, event->base.tag.time, state->next_mode->deactivation_time);
-              tag_t schedule_tag = {.time = current_logical_tag.time + local_remaining_delay,
-                                    .microstep = (local_remaining_delay == 0 ? current_logical_tag.microstep + 1 : 0)};
-              _lf_schedule_at_tag(env, event->trigger, schedule_tag, event->token);
+              // The event itself is put back, with its payload. Events of the same trigger that were suspended at
+              // consecutive microsteps do not replace each other.
+              event->base.tag = (tag_t){.time = current_logical_tag.time + local_remaining_delay,
+                                        .microstep = (local_remaining_delay == 0 ? current_logical_tag.microstep + 1 : 0)};
+              while (pqueue_tag_find_equal_same_tag(env->event_q, (pqueue_tag_element_t*)event) != NULL) {
+                event->base.tag.microstep++;
+              }
+              if (!lf_is_tag_after_stop_tag(env, event->base.tag)) {
+                pqueue_tag_insert(env->event_q, (pqueue_tag_element_t*)event);
+                event = NULL;
+              }
+            }
+            if (event != NULL) {
+              // The event has been dropped (or was recreated by schedule), hence, release its payload and recycle it
+              _lf_done_using(event->token);
+              lf_recycle_event(env, event);
             }
-            // A fresh event was created by schedule, hence, recycle old one
-            lf_recycle_event(env, event);
 
             // Remove suspended event and continue
             suspended_event = _lf_remove_suspended_event(suspended_event);
-- 
2.43.0


From aa0a9cea6376b8697e003aadca8cfeb4f56bdc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:17 +0000
Subject: [PATCH 27/45] fix: reactivate events suspended in a mode in their
 order

---
 core/modal_models/modes.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/modal_models/modes.c b/core/modal_models/modes.c
index 0655866..785486d 100644
--- a/core/modal_models/modes.c
+++ b/core/modal_models/modes.c
@@ -84,10 +84,15 @@ void _lf_add_suspended_event(event_t* event) {
   }
 
   new_suspended_event->event = event;
-  new_suspended_event->next = _lf_suspended_events_head; // prepend
   _lf_suspended_events_num++;
 
-  _lf_suspended_events_head = new_suspended_event;
+  // Keep the events ordered by tag, so that events of the same trigger do not overtake each other when reactivated.
+  _lf_suspended_event_t** position = &_lf_suspended_events_head;
+  while (*position != NULL && lf_tag_compare((*position)->event->base.tag, event->base.tag) <= 0) {
+    position = &(*position)->next;
+  }
+  new_suspended_event->next = *position;
+  *position = new_suspended_event;
 }
 
 /**
-- 
2.43.0


From 0bd4850ea23f04392c7026bfa849bc8cd131d9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:49 +0000
Subject: [PATCH 28/45] fix: suspend and reactivate the events of modes nested
 in a mode that is left and re-entered

---
 core/modal_models/modes.c | 65 ++++++++++++++++++++++++++++++---------
 1 file changed, 51 insertions(+), 14 deletions(-)

diff --git a/core/modal_models/modes.c b/core/modal_models/modes.c
index 785486d..0cecf78 100644
--- a/core/modal_models/modes.c
+++ b/core/modal_models/modes.c
@@ -176,6 +176,23 @@ bool _lf_mode_is_active_fallback(reactor_mode_t* mode) {
   return true;
 }
 
+/**
+ * Return true if the given mode will be active after the pending transitions.
+ * This includes checking all enclosing modes.
+ *
+ * @param mode The mode instance to check.
+ */
+static bool _lf_mode_will_be_active(reactor_mode_t* mode) {
+  while (mode != NULL) {
+    reactor_mode_state_t* state = mode->state;
+    if ((state->next_mode != NULL ? state->next_mode : state->current_mode) != mode) {
+      return false;
+    }
+    mode = state->parent_mode;
+  }
+  return true;
+}
+
 /**
  * Initialize internal data structures and caches for modes.
  * Must be invoked only once before any execution.
@@ -384,12 +401,24 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
           }
         }
 
+      }
+
+      // The mode that is entered in this step. Without a transition in this reactor, this is its current mode if that
+      // becomes active because an enclosing mode is entered with history.
+      reactor_mode_t* entered_mode = state->next_mode;
+      if (entered_mode == NULL && !_lf_mode_is_active(state->current_mode)) {
+        entered_mode = state->current_mode;
+      }
+      bool is_reset = state->next_mode != NULL && state->mode_change == reset_transition;
+
+      // Events stay suspended as long as an enclosing mode is inactive
+      if (entered_mode != NULL && (is_reset || _lf_mode_will_be_active(entered_mode))) {
         // Reset/Reactivate previously suspended events of next state
         _lf_suspended_event_t* suspended_event = _lf_suspended_events_head;
         while (suspended_event != NULL) {
           event_t* event = suspended_event->event;
-          if (event != NULL && event->trigger != NULL && event->trigger->mode == state->next_mode) {
-            if (state->mode_change == reset_transition) { // Reset transition
+          if (event != NULL && event->trigger != NULL && event->trigger->mode == entered_mode) {
+            if (is_reset) { // Reset transition
               // Only reset timers. Timers with a period of 0 have been scheduled above already.
               if (event->trigger->is_timer && event->trigger->period != 0) {
                 trigger_t* timer = event->trigger;
@@ -401,18 +430,18 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
               }
               // No further processing; drops all events upon reset (timer event was recreated by schedule and original
               // can be removed here)
-            } else if (state->next_mode != state->current_mode &&
+            } else if (!_lf_mode_is_active(entered_mode) &&
                        event->trigger != NULL) { // History transition to a different mode
               // Remaining time that the event would have been waiting before mode was left
               instant_t local_remaining_delay =
                   event->base.tag.time -
-                  (state->next_mode->deactivation_time != 0 ? state->next_mode->deactivation_time : lf_time_start());
+                  (entered_mode->deactivation_time != 0 ? entered_mode->deactivation_time : lf_time_start());
               tag_t current_logical_tag = env->current_tag;
 
               // Reschedule event with original local delay
               LF_PRINT_DEBUG("Modes: Re-enqueuing event with a suspended delay of " PRINTF_TIME
                              " (previous TTH: " PRINTF_TIME ", Mode suspended at: " PRINTF_TIME ").",
-                             local_remaining_delay, event->base.tag.time, state->next_mode->deactivation_time);
+                             local_remaining_delay, event->base.tag.time, entered_mode->deactivation_time);
               // The event itself is put back, with its payload. Events of the same trigger that were suspended at
               // consecutive microsteps do not replace each other.
               event->base.tag = (tag_t){.time = current_logical_tag.time + local_remaining_delay,
@@ -450,21 +479,16 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
       if (state != NULL) {
         // Clear cached active flag on active state, because
         // parent activity might have changed or active state may change.
-        state->current_mode->flags &= ~_LF_MODE_FLAG_MASK_ACTIVE;
+        reactor_mode_t* previous_mode = state->current_mode;
+        bool was_active = _lf_mode_is_active(previous_mode);
+        bool is_reset = state->next_mode != NULL && state->mode_change == reset_transition;
+        previous_mode->flags &= ~_LF_MODE_FLAG_MASK_ACTIVE;
 
         // Apply transition effect
         if (state->next_mode != NULL) {
-          // Save time when mode was left to handle suspended events in the future
-          state->current_mode->deactivation_time = lf_time_logical(env);
-
           // Apply transition
           state->current_mode = state->next_mode;
 
-          // Trigger startup reactions if entered first time
-          if (!(state->current_mode->flags & _LF_MODE_FLAG_MASK_HAD_STARTUP)) {
-            state->current_mode->flags |= _LF_MODE_FLAG_MASK_NEEDS_STARTUP;
-          }
-
           // Trigger reset reactions
           if (state->mode_change == reset_transition) {
             state->current_mode->flags |= _LF_MODE_FLAG_MASK_NEEDS_RESET;
@@ -484,11 +508,24 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
           // then set active flag on active mode
           state->current_mode->flags |= _LF_MODE_FLAG_MASK_ACTIVE;
 
+          // Trigger startup reactions if active for the first time
+          if (!(state->current_mode->flags & _LF_MODE_FLAG_MASK_HAD_STARTUP)) {
+            state->current_mode->flags |= _LF_MODE_FLAG_MASK_NEEDS_STARTUP;
+          }
+
           // Register execution of special triggers
           // This is not done when setting the flag because actual triggering
           // might be delayed by parent mode inactivity.
           env->modes->triggered_reactions_request |=
               state->current_mode->flags & (_LF_MODE_FLAG_MASK_NEEDS_STARTUP | _LF_MODE_FLAG_MASK_NEEDS_RESET);
+        } else if (is_reset) {
+          // Timers that start over wait for the enclosing mode
+          state->current_mode->deactivation_time = lf_time_logical(env);
+        }
+
+        // Save time when a mode became inactive to handle suspended events in the future
+        if (was_active && !_lf_mode_is_active(previous_mode)) {
+          previous_mode->deactivation_time = lf_time_logical(env);
         }
       }
     }
-- 
2.43.0


From 5bb0607ab738d4e80588aafe3c2586ef906ca255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:22 +0000
Subject: [PATCH 29/45] fix: restart timers without a pending event when their
 mode is reset

---
 core/modal_models/modes.c | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/core/modal_models/modes.c b/core/modal_models/modes.c
index 0cecf78..bd0e8b3 100644
--- a/core/modal_models/modes.c
+++ b/core/modal_models/modes.c
@@ -389,13 +389,13 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
             }
           }
 
-          // Handle timers that have a period of 0. These timers will only trigger
-          // once and will not be on the event_q after their initial triggering.
-          // Therefore, the logic above cannot handle these timers. We need
-          // to trigger these timers manually if there is a reset transition.
+          // Start all timers of the mode over. Their suspended events, if any, are dropped below.
+          // There may be none: timers that have a period of 0 will only trigger once and will
+          // not be on the event_q after their initial triggering, and the next event of any
+          // timer is not put on the event_q if it is after the stop tag.
           for (int j = 0; j < timer_triggers_size; j++) {
             trigger_t* timer = timer_triggers[j];
-            if (timer->period == 0 && timer->mode == state->next_mode) {
+            if (timer->mode == state->next_mode && (timer->period == 0 || !_lf_mode_is_active(state->next_mode))) {
               lf_schedule_trigger(env, timer, timer->offset, NULL);
             }
           }
@@ -418,20 +418,8 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
         while (suspended_event != NULL) {
           event_t* event = suspended_event->event;
           if (event != NULL && event->trigger != NULL && event->trigger->mode == entered_mode) {
-            if (is_reset) { // Reset transition
-              // Only reset timers. Timers with a period of 0 have been scheduled above already.
-              if (event->trigger->is_timer && event->trigger->period != 0) {
-                trigger_t* timer = event->trigger;
-
-                LF_PRINT_DEBUG("Modes: Re-enqueuing reset timer.");
-                // Reschedule the timer with no additional delay.
-                // This will take care of super dense time when offset is 0.
-                lf_schedule_trigger(env, timer, event->trigger->offset, NULL);
-              }
-              // No further processing; drops all events upon reset (timer event was recreated by schedule and original
-              // can be removed here)
-            } else if (!_lf_mode_is_active(entered_mode) &&
-                       event->trigger != NULL) { // History transition to a different mode
+            // A reset drops all events (timers have been scheduled above already)
+            if (!is_reset && !_lf_mode_is_active(entered_mode)) { // History transition to a different mode
               // Remaining time that the event would have been waiting before mode was left
               instant_t local_remaining_delay =
                   event->base.tag.time -
-- 
2.43.0


From 6bea0475e587b345299e1c2af498836107f62b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:18 +0000
Subject: [PATCH 30/45] fix: do not clear the STP violation of a reaction when
 another of its triggers is on time

---
 core/reactor_common.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index bdd5bdf..e668792 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -757,8 +757,9 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
             reaction_t* downstream_reaction = trigger->reactions[k];
 #ifdef FEDERATED_DECENTRALIZED // Only pass down tardiness for federated LF programs
             // Set the is_STP_violated for the downstream reaction
-            if (downstream_reaction != NULL) {
-              downstream_reaction->is_STP_violated = inherited_STP_violation;
+            // (without clearing a violation that it has because of another trigger).
+            if (downstream_reaction != NULL && inherited_STP_violation) {
+              downstream_reaction->is_STP_violated = true;
               LF_PRINT_DEBUG("Passing is_STP_violated of %d to the downstream reaction: %s",
                              downstream_reaction->is_STP_violated, downstream_reaction->name);
             }
-- 
2.43.0


From 04e69bcd4874defdfe2dac2666a74ae2f4658ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:18 +0000
Subject: [PATCH 31/45] fix: an STP violation that a directly executed reaction
 has handled is not passed downstream

---
 core/reactor_common.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index e668792..30b5069 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -840,14 +840,14 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
         LF_PRINT_LOG("Invoke tardiness handler.");
         _lf_invoke_handler(downstream_to_execute_now, handler);
 
-        // If the reaction produced outputs, put the resulting
-        // triggered reactions into the queue or execute them directly if possible.
-        schedule_output_reactions(env, downstream_to_execute_now, worker);
-
         // Reset the tardiness because it has been dealt with in the
-        // STP handler
+        // STP handler. Downstream handlers should not be invoked.
         downstream_to_execute_now->is_STP_violated = false;
         LF_PRINT_DEBUG("Reset reaction's is_STP_violated field to false: %s", downstream_to_execute_now->name);
+
+        // If the reaction produced outputs, put the resulting
+        // triggered reactions into the queue or execute them directly if possible.
+        schedule_output_reactions(env, downstream_to_execute_now, worker);
       }
     }
 #endif
-- 
2.43.0


From 8d483674380f96a91410e1da86518d7ea9011c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:18 +0000
Subject: [PATCH 32/45] fix: an STP violation does not outlast the tag at which
 a deadline violation was handled

---
 core/threaded/reactor_threaded.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index be38a81..0ba139e 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -790,6 +790,10 @@ bool _lf_worker_handle_violations(environment_t* env, int worker_number, reactio
 
   violation = _lf_worker_handle_deadline_violation_for_reaction(env, worker_number, reaction) ||
               _lf_worker_handle_STP_violation_for_reaction(env, worker_number, reaction);
+  if (violation) {
+    // Whatever was late at this tag has been dealt with.
+    reaction->is_STP_violated = false;
+  }
   return violation;
 }
 
-- 
2.43.0


From 0d90fc2b8bed86e46080b003f97f0e061c02c054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:27 +0000
Subject: [PATCH 33/45] fix: a late absent message does not make a port known
 at the current tag

---
 core/federated/federate.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 8ac0046..742af94 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -725,7 +725,10 @@ static int handle_port_absent_message(int* socket, int fed_id) {
   _lf_get_environments(&env);
 
   LF_MUTEX_LOCK(&env->mutex);
-  update_last_known_status_on_input_port(env, intended_tag, port_id);
+  // If this message is late, then it says nothing about the current tag, at which a message may still arrive.
+  if (lf_tag_compare(intended_tag, env->current_tag) >= 0) {
+    update_last_known_status_on_input_port(env, intended_tag, port_id);
+  }
   LF_MUTEX_UNLOCK(&env->mutex);
 
   return 0;
-- 
2.43.0


From b7f8a62103c05c262400233c481a313ed6bcbf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:33 +0000
Subject: [PATCH 34/45] fix: a message for the start tag that arrives before
 execution starts is not tardy

---
 core/federated/federate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 742af94..2469a24 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -640,7 +640,8 @@ static int handle_tagged_message(int* socket, int fed_id) {
 #ifdef FEDERATED_DECENTRALIZED
     // For tardy messages in decentralized coordination, we need to figure out what the actual tag will be.
     // (Centralized coordination errors out with tardy messages).
-    if (lf_tag_compare(intended_tag, env->current_tag) <= 0) {
+    // A message for the start tag that arrives before execution starts is not.
+    if (lf_tag_compare(intended_tag, env->current_tag) <= 0 && env->execution_started) {
       // Message is tardy.
       actual_tag = env->current_tag;
       actual_tag.microstep++;
-- 
2.43.0


From 4faee913c8fd7273a03e7fe8bf95bcf1d6c01637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:25 +0000
Subject: [PATCH 35/45] fix: scheduling a message does not change the intended
 tag that a running reaction reads

---
 core/environment.c         |  1 +
 core/federated/federate.c  | 10 +++++-----
 core/reactor_common.c      |  4 +++-
 include/core/environment.h |  1 +
 lib/schedule.c             |  7 ++++---
 5 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/core/environment.c b/core/environment.c
index d24de4b..0f7960f 100644
--- a/core/environment.c
+++ b/core/environment.c
@@ -121,6 +121,7 @@ static void environment_init_federated(environment_t* env, int num_is_present_fi
   env->need_to_send_LTC = false;
   (void)num_is_present_fields;
 #elif defined(FEDERATED_DECENTRALIZED)
+  env->message_intended_tag = NULL;
   if (num_is_present_fields > 0) {
     env->_lf_intended_tag_fields = (tag_t**)calloc(num_is_present_fields, sizeof(tag_t*));
     LF_ASSERT_NON_NULL(env->_lf_intended_tag_fields);
diff --git a/core/federated/federate.c b/core/federated/federate.c
index 2469a24..5c78de7 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -361,9 +361,9 @@ static trigger_handle_t schedule_message_received_from_network_locked(environmen
   // in the future relative to the tag of this
   // federate. By default, assume it is not.
   bool message_tag_is_in_the_future = lf_tag_compare(tag, env->current_tag) > 0;
-  // Assign the intended tag temporarily to restore later.
-  tag_t previous_intended_tag = trigger->intended_tag;
-  trigger->intended_tag = tag;
+  // The event gets the intended tag. Do not use the trigger for this because a reaction to a previous
+  // message may be executing, and it reads the intended tag of that message there.
+  env->message_intended_tag = &tag;
 
   // Calculate the extra_delay required to be passed
   // to the schedule function.
@@ -383,7 +383,7 @@ static trigger_handle_t schedule_message_received_from_network_locked(environmen
     // Set the delay back to 0
     extra_delay = 0LL;
     LF_PRINT_LOG("Calling schedule with 0 delay and intended tag " PRINTF_TAG ".",
-                 trigger->intended_tag.time - start_time, trigger->intended_tag.microstep);
+                 tag.time - start_time, tag.microstep);
     return_value = lf_schedule_trigger(env, trigger, extra_delay, token);
 #endif
   } else {
@@ -394,7 +394,7 @@ static trigger_handle_t schedule_message_received_from_network_locked(environmen
                  extra_delay, tag.microstep - env->current_tag.microstep);
     return_value = _lf_schedule_at_tag(env, trigger, tag, token);
   }
-  trigger->intended_tag = previous_intended_tag;
+  env->message_intended_tag = NULL;
   // Notify the main thread in case it is waiting for physical time to elapse.
   LF_PRINT_DEBUG("Broadcasting notification that event queue changed.");
   lf_cond_broadcast(&env->event_q_changed);
diff --git a/core/reactor_common.c b/core/reactor_common.c
index 30b5069..b190506 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -517,7 +517,9 @@ trigger_handle_t _lf_schedule_at_tag(environment_t* env, trigger_t* trigger, tag
 
 #ifdef FEDERATED_DECENTRALIZED
   // Set the intended tag
-  e->intended_tag = trigger->intended_tag;
+  if (env->message_intended_tag != NULL) {
+    e->intended_tag = *env->message_intended_tag;
+  }
 #endif
 
   // Under the default policy, events that were deferred earlier may have taken the next microsteps as well.
diff --git a/include/core/environment.h b/include/core/environment.h
index 9f3960a..c06159a 100644
--- a/include/core/environment.h
+++ b/include/core/environment.h
@@ -88,6 +88,7 @@ typedef struct environment_t {
   tag_t** _lf_intended_tag_fields;
   int _lf_intended_tag_fields_size;
   bool need_to_send_LTC;
+  const tag_t* message_intended_tag; // While scheduling a message from the network, its tag (protected by mutex).
 #endif             // FEDERATED
 #ifdef LF_ENCLAVES // TODO: Consider dropping #ifdef
   enclave_info_t* enclave_info;
diff --git a/lib/schedule.c b/lib/schedule.c
index b1116a6..c396c79 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -195,9 +195,10 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
   }
 
 #ifdef FEDERATED_DECENTRALIZED
-  // Event inherits the original intended_tag of the trigger
-  // set by the network stack (or the default, which is (NEVER,0))
-  e->intended_tag = trigger->intended_tag;
+  // Event gets the intended tag of the message, if it is one (or else the default, which is (NEVER,0))
+  if (env->message_intended_tag != NULL) {
+    e->intended_tag = *env->message_intended_tag;
+  }
 #endif
 
   // Check for conflicts (a queued event with the same trigger and tag).
-- 
2.43.0


From e6131089b70ea86b503aaad5b556e1f8150e5653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:09 +0000
Subject: [PATCH 36/45] fix: a watchdog started by its own handler was stopped
 when the handler returned

---
 core/threaded/watchdog.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/threaded/watchdog.c b/core/threaded/watchdog.c
index e1cf2e0..4f8dc20 100644
--- a/core/threaded/watchdog.c
+++ b/core/threaded/watchdog.c
@@ -133,9 +133,10 @@ static void* watchdog_thread_main(void* arg) {
 
       // If we reach here, the watchdog actually timed out. Handle it.
       LF_PRINT_DEBUG("Watchdog %p timed out", (void*)watchdog);
+      // The handler may start the watchdog again, so mark it as stopped before invoking the handler.
+      watchdog->expiration = NEVER;
       watchdog_function_t watchdog_func = watchdog->watchdog_function;
       (*watchdog_func)(base);
-      watchdog->expiration = NEVER;
     }
   }
 
-- 
2.43.0


From 750b42d9d9f6de4670b33d9c468ff5c8021a8425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:09 +0000
Subject: [PATCH 37/45] fix: a handler that starts a watchdog at the end of
 execution kept its thread alive for ever

---
 core/threaded/watchdog.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/threaded/watchdog.c b/core/threaded/watchdog.c
index 4f8dc20..ea3c9ab 100644
--- a/core/threaded/watchdog.c
+++ b/core/threaded/watchdog.c
@@ -149,7 +149,11 @@ static void* watchdog_thread_main(void* arg) {
 void lf_watchdog_start(watchdog_t* watchdog, interval_t additional_timeout) {
   // Assumes reactor mutex is already held.
   self_base_t* base = watchdog->base;
-  watchdog->terminate = false;
+
+  // A watchdog that has been terminated at the end of execution cannot be started again.
+  if (watchdog->terminate) {
+    return;
+  }
   instant_t previous = watchdog->expiration;
   watchdog->expiration = base->environment->current_tag.time + watchdog->min_expiration + additional_timeout;
 
-- 
2.43.0


From 4a5b7147fceeee349fc5bc7796277b02a1dfb7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:45 +0000
Subject: [PATCH 38/45] fix: vector_at makes the elements that it adds NULL

---
 core/utils/vector.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/utils/vector.c b/core/utils/vector.c
index 2124f12..45c3155 100644
--- a/core/utils/vector.c
+++ b/core/utils/vector.c
@@ -101,6 +101,7 @@ void* vector_pop(vector_t* v) {
  * @return A pointer to the element at 'idx', which is itself a pointer.
  */
 void** vector_at(vector_t* v, size_t idx) {
+  size_t old_size = vector_size(v);
   void** vector_position = v->start + idx;
   if ((vector_position + 1) > v->next) {
     v->next = vector_position + 1;
@@ -114,6 +115,10 @@ void** vector_at(vector_t* v, size_t idx) {
     }
     vector_resize(v, new_size);
   }
+  // Elements that were added are NULL until they are set.
+  for (size_t i = old_size; i <= idx; i++) {
+    v->start[i] = NULL;
+  }
   // Note: Can't re-use vector_position because v->start can move after
   // resizing.
   return v->start + idx;
-- 
2.43.0


From 68c9599b9235ea502126b43e79c8067e7afdfd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:45 +0000
Subject: [PATCH 39/45] fix: RTI sets the start time before clock
 synchronization can read it

---
 core/federated/RTI/rti_remote.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 15bc761..a7c2310 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -821,6 +821,9 @@ void handle_timestamp(federate_info_t* my_fed) {
   }
   if (rti_remote->num_feds_proposed_start == rti_remote->base.number_of_scheduling_nodes) {
     // All federates have proposed a start time.
+    // Add an offset to the largest of them to get everyone starting together.
+    // This has to be set before anyone waiting below or in clock_synchronization_thread() can proceed.
+    start_time = rti_remote->max_start_time + DELAY_START;
     lf_cond_broadcast(&received_start_times);
   } else {
     // Some federates have not yet proposed a start time.
@@ -837,8 +840,6 @@ void handle_timestamp(federate_info_t* my_fed) {
   // message.
   unsigned char start_time_buffer[MSG_TYPE_TIMESTAMP_LENGTH];
   start_time_buffer[0] = MSG_TYPE_TIMESTAMP;
-  // Add an offset to this start time to get everyone starting together.
-  start_time = rti_remote->max_start_time + DELAY_START;
   lf_tracing_set_start_time(start_time);
   encode_int64(swap_bytes_if_big_endian_int64(start_time), &start_time_buffer[1]);
 
-- 
2.43.0


From 06f9409e94197b594a186622d341877de5aae486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:45 +0000
Subject: [PATCH 40/45] fix: lf_time_add detects overflow before it happens

---
 core/tag.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/core/tag.c b/core/tag.c
index c5f8f88..884283a 100644
--- a/core/tag.c
+++ b/core/tag.c
@@ -46,16 +46,15 @@ instant_t lf_time_add(instant_t a, interval_t b) {
   if (a == FOREVER || b == FOREVER) {
     return FOREVER;
   }
-  instant_t res = a + b;
-  // Check for overflow
-  if (res < a && b > 0) {
+  // Check for overflow (before adding because signed overflow is undefined behavior)
+  if (b > 0 && a > FOREVER - b) {
     return FOREVER;
   }
   // Check for underflow
-  if (res > a && b < 0) {
+  if (b < 0 && a < NEVER - b) {
     return NEVER;
   }
-  return res;
+  return a + b;
 }
 
 tag_t lf_tag_add(tag_t a, tag_t b) {
-- 
2.43.0


From 584277be47262d83868456a13794e8c2a78521f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:45 +0000
Subject: [PATCH 41/45] fix: lf_delay_strict subtracts nothing for a negative
 delay

---
 core/tag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/tag.c b/core/tag.c
index 884283a..4119cdd 100644
--- a/core/tag.c
+++ b/core/tag.c
@@ -116,7 +116,7 @@ tag_t lf_delay_tag(tag_t tag, interval_t interval) {
 
 tag_t lf_delay_strict(tag_t tag, interval_t interval) {
   tag_t result = lf_delay_tag(tag, interval);
-  if (interval != 0 && interval != NEVER && interval != FOREVER && result.time != NEVER && result.time != FOREVER) {
+  if (interval > 0 && interval != FOREVER && result.time != NEVER && result.time != FOREVER) {
     result.time -= 1;
     result.microstep = UINT_MAX;
   }
-- 
2.43.0


From 3623b1c96222dcecd8e44dd0bcbced301d743e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:35 +0000
Subject: [PATCH 42/45] fix: last known status of an input does not wrap to an
 earlier tag

---
 core/federated/federate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 5c78de7..d78735b 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -265,7 +265,8 @@ static void update_last_known_status_on_input_port(environment_t* env, tag_t tag
     tag = env->current_tag;
   trigger_t* input_port_action = action_for_port(port_id)->trigger;
   int comparison = lf_tag_compare(tag, input_port_action->last_known_status_tag);
-  if (comparison == 0)
+  // Do not let the microstep wrap around, which would make the status go back to an earlier tag.
+  if (comparison == 0 && tag.microstep < UINT_MAX)
     tag.microstep++;
   if (comparison >= 0) {
     LF_PRINT_LOG("Updating the last known status tag of port %d from " PRINTF_TAG " to " PRINTF_TAG ".", port_id,
-- 
2.43.0


From 9bf5a8e3ece445b581d65af0160d7a0a7a064951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:58 +0000
Subject: [PATCH 43/45] fix: an absent message that only repeats what is known
 about an input does not make the next microstep known

---
 core/federated/federate.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index d78735b..02436e0 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -728,7 +728,9 @@ static int handle_port_absent_message(int* socket, int fed_id) {
 
   LF_MUTEX_LOCK(&env->mutex);
   // If this message is late, then it says nothing about the current tag, at which a message may still arrive.
-  if (lf_tag_compare(intended_tag, env->current_tag) >= 0) {
+  // And if it says only what is known or has been assumed already, then it says nothing about the next microstep.
+  if (lf_tag_compare(intended_tag, env->current_tag) >= 0 &&
+      lf_tag_compare(intended_tag, action_for_port(port_id)->trigger->last_known_status_tag) > 0) {
     update_last_known_status_on_input_port(env, intended_tag, port_id);
   }
   LF_MUTEX_UNLOCK(&env->mutex);
-- 
2.43.0


From 9c115daf5db3b1ddbec58b66090df5f47e6dfd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:25 +0000
Subject: [PATCH 44/45] fix: RTI goes on with clock synchronization after a
 message of it has been lost

---
 core/federated/RTI/rti_remote.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index a7c2310..6719450 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -942,6 +942,8 @@ void* clock_synchronization_thread(void* noargs) {
       } else if (!fed->clock_synchronization_enabled) {
         continue;
       }
+      // A federate that fails to reply is still connected and may reply in the next round.
+      any_federates_connected = true;
       // Send the RTI's current physical time to the federate
       // Send on UDP.
       LF_PRINT_DEBUG("RTI sending T1 message to initiate clock sync round.");
@@ -956,7 +958,10 @@ void* clock_synchronization_thread(void* noargs) {
       int remaining_attempts = 5;
       while (remaining_attempts > 0) {
         remaining_attempts--;
-        int read_failed = read_from_socket(rti_remote->socket_descriptor_UDP, message_size, buffer);
+        // Do not use read_from_socket() here because it tries again for ever when the read times out,
+        // which it does if the T1 or the T3 message has been lost.
+        int read_failed =
+            recv(rti_remote->socket_descriptor_UDP, buffer, message_size, 0) != (ssize_t)message_size;
         // If any errors occur, either discard the message or the clock sync round.
         if (!read_failed) {
           if (buffer[0] == MSG_TYPE_CLOCK_SYNC_T3) {
@@ -988,9 +993,6 @@ void* clock_synchronization_thread(void* noargs) {
           remaining_attempts = -1;
         }
       }
-      if (remaining_attempts > 0) {
-        any_federates_connected = true;
-      }
     }
   }
   return NULL;
-- 
2.43.0


From 018ea8c25e17d97dd2128be3a0b259f579988e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:38:47 +0000
Subject: [PATCH 45/45] fix: pqueue_tag_remove_up_to removes items with tag
 FOREVER when it is told to remove all

---
 core/utils/pqueue_tag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/utils/pqueue_tag.c b/core/utils/pqueue_tag.c
index c1abe35..6e13a75 100644
--- a/core/utils/pqueue_tag.c
+++ b/core/utils/pqueue_tag.c
@@ -152,7 +152,7 @@ void pqueue_tag_remove(pqueue_tag_t* q, pqueue_tag_element_t* e) { pqueue_remove
 
 void pqueue_tag_remove_up_to(pqueue_tag_t* q, tag_t t) {
   tag_t head = pqueue_tag_peek_tag(q);
-  while (lf_tag_compare(head, FOREVER_TAG) < 0 && lf_tag_compare(head, t) <= 0) {
+  while (pqueue_tag_size(q) > 0 && lf_tag_compare(head, t) <= 0) {
     pqueue_tag_pop_tag(q);
     head = pqueue_tag_peek_tag(q);
   }
-- 
2.43.0

