From 84672a5e7b90e779a6b79aee47dd8be12308b57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:49 +0000
Subject: [PATCH 01/60] fix: lost update when a hash table entry is replaced
 during a concurrent resize

chash_copy_table copied the value of an in-use slot and only then marked the
slot as moved.  A concurrent chash_put could take the slot from in-use to
busy and back to in-use in between so its update was lost.
---
 src/hash.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/hash.c b/src/hash.c
index 5af46e5..3d0578e 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -583,6 +583,13 @@ static void chash_copy_table(chash_tab_t *from, chash_tab_t *to)
             continue;
          case INUSE_MARKER:
             {
+               // Must CAS to busy here to avoid losing a concurrent
+               // update between copying the value and marking the slot
+               // as moved
+               void *busy = tag_pointer(key, BUSY_MARKER);
+               if (!atomic_cas(&(from->slots[i].tagged_key), tagged_key, busy))
+                  continue;
+
                for (int j = hash_slot(to->size, key);;
                     j = (j + 1) & (to->size - 1)) {
                   void *exist = load_acquire(&(to->slots[j].tagged_key));
@@ -594,19 +601,23 @@ static void chash_copy_table(chash_tab_t *from, chash_tab_t *to)
                   else
                      assert(exist != tagged_key);
                }
+
+               void *moved = tag_pointer(key, MOVED_MARKER);
+               store_release(&(from->slots[i].tagged_key), moved);
             }
             break;
          case FREE_MARKER:
+            {
+               void *moved = tag_pointer(key, MOVED_MARKER);
+               if (!atomic_cas(&(from->slots[i].tagged_key), tagged_key, moved))
+                  continue;   // Raced to move free slot
+            }
             break;
          default:
             should_not_reach_here();
          }
 
-         void *moved = tag_pointer(key, MOVED_MARKER);
-         if (atomic_cas(&(from->slots[i].tagged_key), tagged_key, moved))
-            break;
-         else
-            assert(marker == FREE_MARKER);   // Raced to move free slot
+         break;
       }
    }
 }
-- 
2.43.0


From 967b53636587e8270cbab01fc85992e4b0c8da85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 02/60] fix: hash table never grows when keys are inserted by
 compare-and-swap

---
 src/hash.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hash.c b/src/hash.c
index 3d0578e..1957fa5 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -737,6 +737,8 @@ static bool chash_try_cas(chash_t *h, const void *key, void *cmp, void **value)
                   tab->slots[i].value = new;
                void *inuse = tag_pointer(key, INUSE_MARKER);
                store_release(&tab->slots[i].tagged_key, inuse);
+               if (marker == FREE_MARKER)
+                  relaxed_add(&h->members, 1);
                return true;
             }
             else {
-- 
2.43.0


From 6719d5ce7ccdad4c39ebac5eda19c7ada5312c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 03/60] fix: wakeup of a sleeping worker could be lost when a
 task is queued

---
 src/thread.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/thread.c b/src/thread.c
index d21350f..6294927 100644
--- a/src/thread.c
+++ b/src/thread.c
@@ -1099,7 +1099,9 @@ static void *worker_thread(void *arg)
       else {
          platform_mutex_lock(&wakelock);
          {
-            if (!relaxed_load(&should_stop))
+            // Must check for new tasks again with the lock held to avoid
+            // missing a wakeup from create_workers
+            if (!relaxed_load(&should_stop) && globalq_unlocked_empty(&globalq))
                platform_cond_wait(&wake_workers, &wakelock);
          }
          platform_mutex_unlock(&wakelock);
@@ -1125,7 +1127,11 @@ static void create_workers(int needed)
       thread_start(thread);
    }
 
-   platform_cond_broadcast(&wake_workers);
+   platform_mutex_lock(&wakelock);
+   {
+      platform_cond_broadcast(&wake_workers);
+   }
+   platform_mutex_unlock(&wakelock);
 }
 
 void workq_start(workq_t *wq)
@@ -1229,13 +1235,17 @@ void async_do(task_fn_t fn, void *context, void *arg)
       (*fn)(context, arg);   // Single CPU
    else {
       const int npending = atomic_add(&async_pending, 1);
-      create_workers(npending + 1 /* Do not count main thread */);
 
       task_t tasks[1] = {
          { fn, context, arg, NULL }
       };
-      SCOPED_LOCK(globalq.lock);
+      nvc_lock(&globalq.lock);
       globalq_put(&globalq, tasks, 1);
+      nvc_unlock(&globalq.lock);
+
+      // Must be after the task is queued as an idle worker only wakes up
+      // if it finds something to do
+      create_workers(npending + 1 /* Do not count main thread */);
    }
 }
 
-- 
2.43.0


From 1ec8511297c4e2020393fa56fa34e16d553ad118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:07 +0000
Subject: [PATCH 04/60] fix: crash in garbage collector when an exited thread's
 ID is reused

---
 src/rt/mspace.c | 2 +-
 src/thread.c    | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rt/mspace.c b/src/rt/mspace.c
index b987836..8387f5e 100644
--- a/src/rt/mspace.c
+++ b/src/rt/mspace.c
@@ -172,7 +172,7 @@ void mspace_destroy(mspace_t *m)
 
 void mspace_stack_limit(void *limit)
 {
-   assert(limit != NULL);
+   // A null pointer means this thread cannot have any GC roots
    atomic_store(&(stack_limit[thread_id()]), limit);
 }
 
diff --git a/src/thread.c b/src/thread.c
index 6294927..1b315aa 100644
--- a/src/thread.c
+++ b/src/thread.c
@@ -573,6 +573,9 @@ static void *thread_wrapper(void *arg)
    // Avoid races with stop_world
    SCOPED_LOCK(stop_lock);
 
+   // The thread ID may be reused by a new thread with a different stack
+   mspace_stack_limit(NULL);
+
    assert(threads[my_thread->id] == my_thread);
    atomic_store(&(threads[my_thread->id]),  NULL);
 
-- 
2.43.0


From 7eb516b93339ed5101c662ed33abb9842cf8585d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 05/60] fix: setting the initial value of a signal is not an
 event

---
 src/rt/model.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rt/model.c b/src/rt/model.c
index fc5bd30..84f0c5e 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -2440,6 +2440,12 @@ void model_reset(rt_model_t *m)
       calculate_effective_value(m, n);
    }
 
+   // Setting the initial value of a signal is not an event
+   for (rt_nexus_t *n = m->nexuses; n != NULL; n = n->chain) {
+      n->last_event = TIME_HIGH;
+      memcpy(nexus_last_value(n), nexus_effective(n), n->size * n->width);
+   }
+
    tlab_reset(thread->tlab);   // No allocations can be live past here
 
    global_event(m, RT_END_OF_INITIALISATION);
-- 
2.43.0


From 070cfd6fe982a3b808fe6c22a60ec97fc52b8c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 06/60] fix: driver value changed before the update cycle with
 the fast driver path

---
 src/rt/model.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 84f0c5e..cc8d514 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -2615,7 +2615,6 @@ static void sched_driver(rt_model_t *m, rt_nexus_t *n, uint64_t after,
       assert(n->n_sources == 1);
 
       waveform_t *w = &d->u.driver.waveforms;
-      w->when = m->now;
       assert(w->next == NULL);
 
       rt_signal_t *signal = n->signal;
@@ -2628,6 +2627,7 @@ static void sched_driver(rt_model_t *m, rt_nexus_t *n, uint64_t after,
          d->fastqueued = 1;
       }
       else if (cmp_bytes(value, value_ptr(n, &w->value), n->width * n->size)) {
+         w->when = m->now;
          m->next_is_delta = true;
          d->was_active = (n->active_delta == m->iteration);
          n->active_delta = m->iteration + 1;
@@ -2658,8 +2658,14 @@ static void sched_driver(rt_model_t *m, rt_nexus_t *n, uint64_t after,
          w0->next  = NULL;
          w0->value = alloc_value(m, n);
 
-         const uint8_t *prev = value_ptr(n, &(d->u.driver.waveforms.value));
-         copy_value_ptr(n, &w0->value, prev);
+         rt_value_t *cur = &(d->u.driver.waveforms.value);
+         copy_value_ptr(n, &w0->value, value_ptr(n, cur));
+
+         // The value of the driver does not change until the next cycle
+         if (n->flags & NET_F_EFFECTIVE)
+            copy_value_ptr(n, cur, nexus_driving(n));
+         else
+            copy_value_ptr(n, cur, nexus_effective(n));
 
          assert(d->u.driver.waveforms.next == NULL);
          d->u.driver.waveforms.next = w0;
@@ -3040,6 +3046,7 @@ static void fast_update_driver(rt_model_t *m, rt_nexus_t *nexus)
       assert(src->tag == SOURCE_DRIVER);
       assert(src->u.driver.waveforms.next == NULL);
 
+      src->u.driver.waveforms.when = m->now;
       update_driving(m, nexus, false);
    }
    else
-- 
2.43.0


From 2d7f738c9b32125c7c9146a6c12d3f2f1ec780a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 07/60] fix: wrong source values for split composite signals
 passed to resolution function

---
 src/rt/model.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index cc8d514..4d89958 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1722,14 +1722,15 @@ static void copy_sub_signal_sources(rt_scope_t *scope, void *buf, int stride)
    for (int i = 0; i < scope->signals.count; i++) {
       rt_signal_t *s = scope->signals.items[i];
       rt_nexus_t *n = &(s->nexus);
-      for (unsigned i = 0; i < s->n_nexus; i++) {
+      for (unsigned i = 0; i < s->n_nexus; i++, n = n->chain) {
          unsigned o = 0;
          for (rt_source_t *src = &(n->sources); src; src = src->chain_input) {
             const void *data = source_value(n, src);
             if (data == NULL)
                continue;
 
-            memcpy(buf + s->offset + (o++ * stride), data, n->size * n->width);
+            memcpy(buf + s->offset + n->offset + (o++ * stride), data,
+                   n->size * n->width);
          }
       }
    }
-- 
2.43.0


From ba27c444eeba661e13fe41a4f2fd3d71d277166f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 08/60] fix: value of 'driving_value lost when procedure
 suspends

---
 src/rt/model.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 4d89958..0cd78a3 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -4367,7 +4367,9 @@ void *x_driving_value(sig_shared_t *ss, uint32_t offset, int32_t count)
          return nexus_effective(n);
    }
 
-   void *result = tlab_alloc(model_thread(m)->tlab, s->shared.size);
+   // A process suspended inside a procedure has its own private TLAB
+   tlab_t *tlab = proc->tlab ?: model_thread(m)->tlab;
+   void *result = tlab_alloc(tlab, s->shared.size);
 
    uint8_t *p = result;
    for (; count > 0; n = n->chain) {
-- 
2.43.0


From 91e4e54af6f886fec8d30993fc7ae3fbfe25bb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 09/60] fix: wait sensitivity omits prefix of 'last_event,
 'last_active and 'last_value

---
 src/common.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/common.c b/src/common.c
index 1e5df95..3c284aa 100644
--- a/src/common.c
+++ b/src/common.c
@@ -2287,9 +2287,17 @@ void build_wait(tree_t expr, build_wait_fn_t fn, void *ctx)
 
    case T_ATTR_REF:
       {
-         const attr_kind_t predef = tree_subkind(expr);
-         if (predef == ATTR_EVENT || predef == ATTR_ACTIVE)
+         switch (tree_subkind(expr)) {
+         case ATTR_EVENT:
+         case ATTR_ACTIVE:
+         case ATTR_LAST_EVENT:
+         case ATTR_LAST_ACTIVE:
+         case ATTR_LAST_VALUE:
             build_wait(tree_name(expr), fn, ctx);
+            break;
+         default:
+            break;
+         }
 
          const int nparams = tree_params(expr);
          for (int i = 0; i < nparams; i++)
-- 
2.43.0


From f963a7b1bdb7161c9fa830b276f593c76e245ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 10/60] fix: inertial delay pulse rejection and null
 transactions

---
 src/rt/model.c   | 115 ++++++++++++++++++++++++++++++++++++-----------
 src/rt/structs.h |   3 ++
 2 files changed, 93 insertions(+), 25 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 0cd78a3..24aa93a 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1149,13 +1149,14 @@ static void copy_value_ptr(rt_nexus_t *n, rt_value_t *v, const void *p)
       memcpy(v->ext, p, valuesz);
 }
 
-static inline bool cmp_values(rt_nexus_t *n, rt_value_t a, rt_value_t b)
+static inline bool waveform_is_null(const waveform_t *w)
 {
-   const size_t valuesz = n->width * n->size;
-   if (valuesz <= sizeof(rt_value_t))
-      return a.qword == b.qword;
-   else
-      return cmp_bytes(a.ext, b.ext, valuesz);
+   return !!(w->when & WAVEFORM_NULL);
+}
+
+static inline uint64_t waveform_when(const waveform_t *w)
+{
+   return w->when & ~WAVEFORM_NULL;
 }
 
 static inline bool is_pseudo_source(source_kind_t kind)
@@ -1532,8 +1533,9 @@ static void clone_source(rt_model_t *m, rt_nexus_t *nexus,
 
             split_value(nexus, &w_new->value, &w_old->value, offset);
 
-            assert(w_old->when >= m->now);
-            deltaq_insert_driver(m, w_new->when - m->now, new);
+            const uint64_t when = waveform_when(w_old);
+            assert(when >= m->now);
+            deltaq_insert_driver(m, when - m->now, new);
          }
       }
       break;
@@ -2567,30 +2569,91 @@ static rt_source_t *find_driver(rt_nexus_t *nexus, rt_proc_t *proc)
    return NULL;
 }
 
+static bool reject_transaction(rt_nexus_t *n, waveform_t *last, waveform_t *it,
+                               waveform_t *end, waveform_t *w)
+{
+   // The rules for pulse rejection apply separately to each scalar
+   // subelement: a transaction is only kept if its value and that of
+   // all transactions between it and the new transaction are the same
+   // as the new value, see LRM 08 section 10.5.2.2
+
+   if (waveform_is_null(w)) {
+      for (waveform_t *p = it; p != end; p = p->next) {
+         if (!waveform_is_null(p))
+            return true;
+      }
+
+      return false;
+   }
+
+   for (waveform_t *p = it; p != end; p = p->next) {
+      if (waveform_is_null(p))
+         return true;
+   }
+
+   unsigned nreject = 0;
+   uint8_t *cur = value_ptr(n, &it->value);
+   const uint8_t *new = value_ptr(n, &w->value), *prev = NULL;
+
+   if (!waveform_is_null(last))
+      prev = value_ptr(n, &last->value);
+
+   for (unsigned i = 0; i < n->width; i++) {
+      const ptrdiff_t off = i * n->size;
+      for (waveform_t *p = it; p != end; p = p->next) {
+         if (memcmp(value_ptr(n, &p->value) + off, new + off, n->size) != 0) {
+            nreject++;
+            break;
+         }
+      }
+   }
+
+   if (nreject == 0 || nreject == n->width || prev == NULL)
+      return nreject > 0;
+
+   // Only some of the elements change value at this time
+   for (unsigned i = 0; i < n->width; i++) {
+      const ptrdiff_t off = i * n->size;
+      for (waveform_t *p = it; p != end; p = p->next) {
+         if (memcmp(value_ptr(n, &p->value) + off, new + off, n->size) != 0) {
+            memcpy(cur + off, prev + off, n->size);
+            break;
+         }
+      }
+   }
+
+   return false;
+}
+
 static inline bool insert_transaction(rt_model_t *m, rt_nexus_t *nexus,
                                       rt_source_t *source, waveform_t *w,
                                       uint64_t when, uint64_t reject)
 {
    waveform_t *last = &(source->u.driver.waveforms);
    waveform_t *it   = last->next;
-   while (it != NULL && it->when < when) {
-      // If the current transaction is within the pulse rejection interval
-      // and the value is different to that of the new transaction then
-      // delete the current transaction
-      assert(it->when >= m->now);
-      if (it->when >= when - reject
-          && !cmp_values(nexus, it->value, w->value)) {
-         waveform_t *next = it->next;
+
+   // Transactions before the pulse rejection interval are not affected
+   for (; it != NULL && waveform_when(it) + reject < when; it = it->next)
+      last = it;
+
+   waveform_t *end = it;
+   while (end != NULL && waveform_when(end) < when)
+      end = end->next;
+
+   while (it != end) {
+      assert(waveform_when(it) >= m->now);
+      waveform_t *next = it->next;
+      if (reject_transaction(nexus, last, it, end, w)) {
          last->next = next;
          free_value(nexus, it->value);
          free_waveform(m, it);
-         it = next;
       }
-      else {
+      else
          last = it;
-         it = it->next;
-      }
+
+      it = next;
    }
+
    last->next = w;
 
    // Delete all transactions later than this
@@ -2600,7 +2663,7 @@ static inline bool insert_transaction(rt_model_t *m, rt_nexus_t *nexus,
    bool already_scheduled = false;
    for (waveform_t *next; it != NULL; it = next) {
       next = it->next;
-      already_scheduled |= (it->when == when);
+      already_scheduled |= (waveform_when(it) == when);
       free_value(nexus, it->value);
       free_waveform(m, it);
    }
@@ -2698,9 +2761,9 @@ static void sched_disconnect(rt_model_t *m, rt_nexus_t *nexus, uint64_t after,
    nexus->flags &= ~NET_F_FAST_DRIVER;
 
    waveform_t *w = alloc_waveform(m);
-   w->when = -when;   // Use sign bit to represent null
+   w->when = when | WAVEFORM_NULL;
    w->next = NULL;
-   w->value.qword = 0;
+   w->value = alloc_value(m, nexus);
 
    if (!insert_transaction(m, nexus, d, w, when, reject))
       deltaq_insert_driver(m, after, d);
@@ -3028,8 +3091,10 @@ static void update_driver(rt_model_t *m, rt_nexus_t *n, rt_source_t *source)
       source->disconnected = 0;
       update_driving(m, n, false);
    }
-   else if (unlikely(w_next != NULL && w_next->when == -m->now)) {
+   else if (unlikely(w_next != NULL
+                     && w_next->when == (m->now | WAVEFORM_NULL))) {
       // Disconnect source due to null transaction
+      free_value(n, w_now->value);
       *w_now = *w_next;
       free_waveform(m, w_next);
       source->disconnected = 1;
@@ -3706,7 +3771,7 @@ static bool nexus_active(rt_model_t *m, rt_nexus_t *nexus)
             }
          }
          else if (s->tag == SOURCE_DRIVER
-                  && s->u.driver.waveforms.when == m->now) {
+                  && waveform_when(&s->u.driver.waveforms) == m->now) {
             if (nexus->active_delta == m->iteration)
                return true;
             else if (nexus->active_delta == m->iteration + 1 && s->was_active)
diff --git a/src/rt/structs.h b/src/rt/structs.h
index e5f28ab..7a9783b 100644
--- a/src/rt/structs.h
+++ b/src/rt/structs.h
@@ -97,6 +97,9 @@ typedef union {
 
 STATIC_ASSERT(sizeof(rt_value_t) == 8);
 
+// Sign bit of waveform time marks a null transaction
+#define WAVEFORM_NULL (UINT64_C(1) << 63)
+
 struct waveform {
    uint64_t    when;
    waveform_t *next;
-- 
2.43.0


From e2d34dda3119d564435452d52869318014de120d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 11/60] fix: crash splitting a signal with implicit signals
 attached

---
 src/rt/model.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 24aa93a..1afb187 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1610,11 +1610,15 @@ static rt_nexus_t *clone_nexus(rt_model_t *m, rt_nexus_t *old, int offset)
          new->outputs = old_o;
          add_conversion_input(m, old_o->u.port.conv_func, new);
       }
+      else if (old_o->tag == SOURCE_IMPLICIT) {
+         rt_source_t *s = add_source(m, old_o->u.pseudo.nexus, SOURCE_IMPLICIT);
+         s->u.port.input = new;
+         s->chain_output = new->outputs;
+         new->outputs = s;
+      }
       else {
          rt_nexus_t *out_n;
-         if (old_o->tag == SOURCE_IMPLICIT)
-            out_n = old_o->u.port.output;
-         else if (old_o->u.port.output->width == offset)
+         if (old_o->u.port.output->width == offset)
             out_n = old_o->u.port.output->chain;   // Cycle breaking
          else {
             RT_LOCK(old_o->u.port.output->signal->lock);
-- 
2.43.0


From da6cfb847b8a11fd79c96c764194ee658f09aa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 12/60] fix: activity without event not propagated to implicit
 signals through ports

---
 src/rt/model.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 1afb187..7f3cc5d 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -108,6 +108,7 @@ typedef struct _rt_model {
    int                iteration;
    uint64_t           now;
    bool               can_create_delta;
+   bool               track_active;
    bool               next_is_delta;
    bool               force_stop;
    unsigned           n_signals;
@@ -3057,8 +3058,10 @@ static void update_driving(rt_model_t *m, rt_nexus_t *n, bool safe)
       calculate_driving_value(m, n);
 
       // Update outputs if the effective value must be calculated
-      // separately or there was an event on this signal
+      // separately, there was an event on this signal, or some implicit
+      // signal may depend on the activity of the outputs
       const bool update_outputs = !!(n->flags & NET_F_EFFECTIVE)
+         || m->track_active
          || (n->event_delta == m->iteration && n->last_event == m->now);
 
       if (update_outputs) {
@@ -4321,6 +4324,7 @@ void x_map_implicit(sig_shared_t *src_ss, uint32_t src_offset,
       n->outputs = src;
 
       n->flags |= NET_F_EFFECTIVE;   // Update outputs when active
+      m->track_active = true;
       n->flags &= ~NET_F_FAST_DRIVER;
    }
 }
-- 
2.43.0


From b632bbcb4ad566dfe92dd081c7d7d950ae365959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 13/60] fix: wrong folding of x * x and 0 - x

---
 src/mir/mir-node.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/mir/mir-node.c b/src/mir/mir-node.c
index 9328d96..7cab9ba 100644
--- a/src/mir/mir-node.c
+++ b/src/mir/mir-node.c
@@ -1034,9 +1034,7 @@ static mir_value_t mir_build_sub_op(mir_unit_t *mu, mir_op_t op,
    const bool lconst = mir_get_const(mu, left, &lval);
    const bool rconst = mir_get_const(mu, right, &rval);
 
-   if (lconst && lval == 0)
-      return right;
-   else if (rconst && rval == 0)
+   if (rconst && rval == 0)
       return left;
    else if (lconst && rconst && !__builtin_sub_overflow(lval, rval, &cval))
       return mir_const(mu, type, cval);
@@ -1048,9 +1046,7 @@ static mir_value_t mir_build_sub_op(mir_unit_t *mu, mir_op_t op,
    const bool lconst_real = mir_get_const_real(mu, left, &lreal);
    const bool rconst_real = mir_get_const_real(mu, right, &rreal);
 
-   if (lconst_real && (lreal == 0.0 || lreal == -0.0))
-      return right;
-   else if (rconst_real && (rreal == 0.0 || rreal == -0.0))
+   if (rconst_real && (rreal == 0.0 || rreal == -0.0))
       return left;
    else if (lconst_real && rconst_real)
       return mir_const_real(mu, type, lreal - rreal);
@@ -1160,7 +1156,7 @@ mir_value_t mir_build_trap_mul(mir_unit_t *mu, mir_type_t type,
                                mir_value_t left, mir_value_t right,
                                mir_value_t locus)
 {
-   return mir_build_sub_op(mu, MIR_OP_TRAP_MUL, type, left, right, locus);
+   return mir_build_mul_op(mu, MIR_OP_TRAP_MUL, type, left, right, locus);
 }
 
 mir_value_t mir_build_div(mir_unit_t *mu, mir_type_t type, mir_value_t left,
-- 
2.43.0


From 6e5b6836e80b876705efc83dc6d7b28aa5d144c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 14/60] fix: S'event true for elements without event when a
 signal is split

---
 src/rt/model.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rt/model.c b/src/rt/model.c
index 7f3cc5d..08c98df 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1596,6 +1596,14 @@ static rt_nexus_t *clone_nexus(rt_model_t *m, rt_nexus_t *old, int offset)
       new->pending = tag_pointer(new_p, 0);
    }
 
+   // Only the parts that changed value had an event
+   if (cmp_bytes(nexus_effective(old), nexus_last_value(old),
+                 old->width * old->size))
+      old->last_event = TIME_HIGH;
+   else if (cmp_bytes(nexus_effective(new), nexus_last_value(new),
+                      new->width * new->size))
+      new->last_event = TIME_HIGH;
+
    if (new->chain == NULL)
       m->nexus_tail = &(new->chain);
 
-- 
2.43.0


From 24d761c0e1d870c788e070966ab5194a5ded092a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 15/60] fix: activity of assignment of the current value not
 propagated through ports

---
 src/rt/model.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 08c98df..798cab3 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -2703,7 +2703,9 @@ static void sched_driver(rt_model_t *m, rt_nexus_t *n, uint64_t after,
          assert(m->next_is_delta);
          d->fastqueued = 1;
       }
-      else if (cmp_bytes(value, value_ptr(n, &w->value), n->width * n->size)) {
+      else if (!m->track_active
+               && cmp_bytes(value, value_ptr(n, &w->value),
+                            n->width * n->size)) {
          w->when = m->now;
          m->next_is_delta = true;
          d->was_active = (n->active_delta == m->iteration);
-- 
2.43.0


From 4d3f4b099bb67cfeb8c4e798faf1e1741e68ebf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 16/60] fix: S'last_active wrong after null transaction

---
 src/rt/model.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 798cab3..a7efeb2 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -3819,9 +3819,11 @@ static uint64_t nexus_last_active(rt_model_t *m, rt_nexus_t *nexus)
                }
             }
          }
-         else if (s->tag == SOURCE_DRIVER
-                  && s->u.driver.waveforms.when <= m->now)
-            last = MIN(last, m->now - s->u.driver.waveforms.when);
+         else if (s->tag == SOURCE_DRIVER) {
+            const uint64_t when = waveform_when(&s->u.driver.waveforms);
+            if (when <= m->now)
+               last = MIN(last, m->now - when);
+         }
       }
    }
 
-- 
2.43.0


From cc70494a5bdebeb9217f574f01e8f8b4e7d798c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 17/60] fix: S'driving_value wrong for inout ports

---
 src/rt/model.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index a7efeb2..169e8a3 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -4464,7 +4464,9 @@ void *x_driving_value(sig_shared_t *ss, uint32_t offset, int32_t count)
                  "for %s", istr(proc->name), istr(tree_ident(s->where)));
 
       const uint8_t *driving;
-      if (n->flags & NET_F_FAST_DRIVER)
+      if ((n->flags & NET_F_FAST_DRIVER) && (n->flags & NET_F_EFFECTIVE))
+         driving = nexus_driving(n);
+      else if (n->flags & NET_F_FAST_DRIVER)
          driving = nexus_effective(n);
       else
          driving = value_ptr(n, &(src->u.driver.waveforms.value));
-- 
2.43.0


From b539e3cf71d0e00db94c299678cfe7870b75e9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 18/60] fix: zero-delay update lost or not cancelled when
 followed by a delayed or null transaction

---
 src/rt/model.c | 66 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 22 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 169e8a3..c52c138 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -2684,6 +2684,48 @@ static inline bool insert_transaction(rt_model_t *m, rt_nexus_t *nexus,
    return already_scheduled;
 }
 
+static void clear_fast_driver(rt_model_t *m, rt_nexus_t *n, rt_source_t *d)
+{
+   if (!(n->flags & NET_F_FAST_DRIVER))
+      return;
+
+   n->flags &= ~NET_F_FAST_DRIVER;
+
+   rt_value_t *cur = &(d->u.driver.waveforms.value);
+
+   const bool same_value = !d->fastqueued
+      && d->u.driver.waveforms.when == m->now
+      && n->active_delta == m->iteration + 1;
+
+   if (!d->fastqueued && !same_value)
+      return;
+
+   // An update to this driver in the next delta cycle was already
+   // scheduled without creating a transaction
+   waveform_t *w0 = alloc_waveform(m);
+   w0->when  = m->now;
+   w0->next  = NULL;
+   w0->value = alloc_value(m, n);
+
+   copy_value_ptr(n, &w0->value, value_ptr(n, cur));
+
+   assert(d->u.driver.waveforms.next == NULL);
+   d->u.driver.waveforms.next = w0;
+
+   if (same_value) {
+      // Not active in the next cycle if this transaction is deleted
+      n->active_delta = d->was_active ? m->iteration : DELTA_CYCLE_MAX;
+      deltaq_insert_driver(m, 0, d);
+   }
+   else {
+      // The value of the driver does not change until the next cycle
+      if (n->flags & NET_F_EFFECTIVE)
+         copy_value_ptr(n, cur, nexus_driving(n));
+      else
+         copy_value_ptr(n, cur, nexus_effective(n));
+   }
+}
+
 static void sched_driver(rt_model_t *m, rt_nexus_t *n, uint64_t after,
                          uint64_t reject, const void *value, rt_proc_t *proc)
 {
@@ -2730,27 +2772,7 @@ static void sched_driver(rt_model_t *m, rt_nexus_t *n, uint64_t after,
       rt_source_t *d = find_driver(n, proc);
       assert(d != NULL);
 
-      if ((n->flags & NET_F_FAST_DRIVER) && d->fastqueued) {
-         // A fast update to this driver is already scheduled
-         waveform_t *w0 = alloc_waveform(m);
-         w0->when  = m->now;
-         w0->next  = NULL;
-         w0->value = alloc_value(m, n);
-
-         rt_value_t *cur = &(d->u.driver.waveforms.value);
-         copy_value_ptr(n, &w0->value, value_ptr(n, cur));
-
-         // The value of the driver does not change until the next cycle
-         if (n->flags & NET_F_EFFECTIVE)
-            copy_value_ptr(n, cur, nexus_driving(n));
-         else
-            copy_value_ptr(n, cur, nexus_effective(n));
-
-         assert(d->u.driver.waveforms.next == NULL);
-         d->u.driver.waveforms.next = w0;
-      }
-
-      n->flags &= ~NET_F_FAST_DRIVER;
+      clear_fast_driver(m, n, d);
 
       waveform_t *w = alloc_waveform(m);
       w->when  = m->now + after;
@@ -2773,7 +2795,7 @@ static void sched_disconnect(rt_model_t *m, rt_nexus_t *nexus, uint64_t after,
    const uint64_t when = m->now + after;
 
    // Need update_driver to clear disconnected flag
-   nexus->flags &= ~NET_F_FAST_DRIVER;
+   clear_fast_driver(m, nexus, d);
 
    waveform_t *w = alloc_waveform(m);
    w->when = when | WAVEFORM_NULL;
-- 
2.43.0


From 1442ad839b4868e3f55d4879e4c081c91452e66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 19/60] fix: S'active wrong after the current value is assigned
 twice

---
 src/rt/model.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index c52c138..ce498b3 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -2748,9 +2748,13 @@ static void sched_driver(rt_model_t *m, rt_nexus_t *n, uint64_t after,
       else if (!m->track_active
                && cmp_bytes(value, value_ptr(n, &w->value),
                             n->width * n->size)) {
+         if (w->when != m->now)
+            d->was_active = 0;
+         else if (n->active_delta != m->iteration + 1)
+            d->was_active = (n->active_delta == m->iteration);
+
          w->when = m->now;
          m->next_is_delta = true;
-         d->was_active = (n->active_delta == m->iteration);
          n->active_delta = m->iteration + 1;
          return;
       }
-- 
2.43.0


From 8dc330f25964cc2563c4a0967b9223de2ff639bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 20/60] fix: driver value confused with resolved value with the
 fast driver path

---
 src/rt/model.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rt/model.c b/src/rt/model.c
index ce498b3..1361303 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -4664,6 +4664,12 @@ void x_resolve_signal(sig_shared_t *ss, jit_handle_t handle, void *context,
       for (int i = 0; i < s->n_nexus; i++, n = n->chain)
          n->flags |= NET_F_R_IDENT;
    }
+   else {
+      // The value of the driver may be different to the driving value
+      rt_nexus_t *n = &(s->nexus);
+      for (int i = 0; i < s->n_nexus; i++, n = n->chain)
+         n->flags &= ~NET_F_FAST_DRIVER;
+   }
 }
 
 void x_process_init(jit_handle_t handle, tree_t where)
-- 
2.43.0


From a5e0ed7a07f1e5c0f8aecf9693bbc72e74f50dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 21/60] fix: pending update of signal lost when it is forced or
 released in the same cycle

---
 src/rt/model.c | 87 ++++++++++++++++++++++++++------------------------
 1 file changed, 45 insertions(+), 42 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 1361303..de97c43 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1943,6 +1943,48 @@ static void call_resolution(rt_model_t *m, rt_nexus_t *n, res_memo_t *r,
    }
 }
 
+static void clear_fast_driver(rt_model_t *m, rt_nexus_t *n, rt_source_t *d)
+{
+   if (!(n->flags & NET_F_FAST_DRIVER))
+      return;
+
+   n->flags &= ~NET_F_FAST_DRIVER;
+
+   rt_value_t *cur = &(d->u.driver.waveforms.value);
+
+   const bool same_value = !d->fastqueued
+      && d->u.driver.waveforms.when == m->now
+      && n->active_delta == m->iteration + 1;
+
+   if (!d->fastqueued && !same_value)
+      return;
+
+   // An update to this driver in the next delta cycle was already
+   // scheduled without creating a transaction
+   waveform_t *w0 = alloc_waveform(m);
+   w0->when  = m->now;
+   w0->next  = NULL;
+   w0->value = alloc_value(m, n);
+
+   copy_value_ptr(n, &w0->value, value_ptr(n, cur));
+
+   assert(d->u.driver.waveforms.next == NULL);
+   d->u.driver.waveforms.next = w0;
+
+   if (same_value) {
+      // Not active in the next cycle if this transaction is deleted
+      n->active_delta = d->was_active ? m->iteration : DELTA_CYCLE_MAX;
+      deltaq_insert_driver(m, 0, d);
+   }
+   else {
+      // The value of the driver does not change until the next cycle
+      if (n->flags & NET_F_EFFECTIVE)
+         copy_value_ptr(n, cur, nexus_driving(n));
+      else
+         copy_value_ptr(n, cur, nexus_effective(n));
+   }
+}
+
 static rt_source_t *get_pseudo_source(rt_model_t *m, rt_nexus_t *n,
                                       source_kind_t kind)
 {
@@ -1953,6 +1995,9 @@ static rt_source_t *get_pseudo_source(rt_model_t *m, rt_nexus_t *n,
          if (s->tag == kind)
             return s;
       }
+
+      if (n->sources.tag == SOURCE_DRIVER)
+         clear_fast_driver(m, n, &(n->sources));
    }
 
    return add_source(m, n, kind);
@@ -2684,48 +2729,6 @@ static inline bool insert_transaction(rt_model_t *m, rt_nexus_t *nexus,
    return already_scheduled;
 }
 
-static void clear_fast_driver(rt_model_t *m, rt_nexus_t *n, rt_source_t *d)
-{
-   if (!(n->flags & NET_F_FAST_DRIVER))
-      return;
-
-   n->flags &= ~NET_F_FAST_DRIVER;
-
-   rt_value_t *cur = &(d->u.driver.waveforms.value);
-
-   const bool same_value = !d->fastqueued
-      && d->u.driver.waveforms.when == m->now
-      && n->active_delta == m->iteration + 1;
-
-   if (!d->fastqueued && !same_value)
-      return;
-
-   // An update to this driver in the next delta cycle was already
-   // scheduled without creating a transaction
-   waveform_t *w0 = alloc_waveform(m);
-   w0->when  = m->now;
-   w0->next  = NULL;
-   w0->value = alloc_value(m, n);
-
-   copy_value_ptr(n, &w0->value, value_ptr(n, cur));
-
-   assert(d->u.driver.waveforms.next == NULL);
-   d->u.driver.waveforms.next = w0;
-
-   if (same_value) {
-      // Not active in the next cycle if this transaction is deleted
-      n->active_delta = d->was_active ? m->iteration : DELTA_CYCLE_MAX;
-      deltaq_insert_driver(m, 0, d);
-   }
-   else {
-      // The value of the driver does not change until the next cycle
-      if (n->flags & NET_F_EFFECTIVE)
-         copy_value_ptr(n, cur, nexus_driving(n));
-      else
-         copy_value_ptr(n, cur, nexus_effective(n));
-   }
-}
-
 static void sched_driver(rt_model_t *m, rt_nexus_t *n, uint64_t after,
                          uint64_t reject, const void *value, rt_proc_t *proc)
 {
-- 
2.43.0


From a92fa2ed90ff2e66af6ecf690434b6230118c50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:48 +0000
Subject: [PATCH 22/60] fix: resolution function applied again to ports of mode
 in and 'delayed

---
 src/lower.c | 14 ++++++++++----
 src/rt/rt.h |  1 +
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index 9b35f29..67517b4 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -7717,7 +7717,7 @@ static void lower_sub_signals(lower_unit_t *lu, type_t type, type_t var_type,
                               vcode_reg_t bounds_reg)
 {
    bool has_scope = false;
-   if (resolution == VCODE_INVALID_REG)
+   if (resolution == VCODE_INVALID_REG && !(flags & SIG_F_UNRESOLVED))
       resolution = lower_resolution_func(lu, type, &has_scope);
 
    if (type_is_scalar(type)) {
@@ -7739,7 +7739,7 @@ static void lower_sub_signals(lower_unit_t *lu, type_t type, type_t var_type,
       if (wk == W_IEEE_ULOGIC || wk == W_IEEE_LOGIC)
          flags |= SIG_F_STD_LOGIC;
 
-      vcode_reg_t flags_reg = emit_const(voffset, flags);
+      vcode_reg_t flags_reg = emit_const(voffset, flags & ~SIG_F_UNRESOLVED);
       vcode_reg_t sig = emit_init_signal(vtype, len_reg, size_reg, init_reg,
                                          flags_reg, locus, null_reg);
 
@@ -7776,7 +7776,7 @@ static void lower_sub_signals(lower_unit_t *lu, type_t type, type_t var_type,
       if (wk == W_IEEE_ULOGIC_VECTOR || wk == W_IEEE_LOGIC_VECTOR)
          flags |= SIG_F_STD_LOGIC;
 
-      vcode_reg_t flags_reg = emit_const(voffset, flags);
+      vcode_reg_t flags_reg = emit_const(voffset, flags & ~SIG_F_UNRESOLVED);
       vcode_reg_t sig = emit_init_signal(vtype, len_reg, size_reg, init_reg,
                                          flags_reg, locus, null_reg);
 
@@ -8208,7 +8208,8 @@ static void lower_implicit_decl(lower_unit_t *parent, tree_t decl)
 
          lower_sub_signals(parent, type, type, type, decl, NULL, var,
                            VCODE_INVALID_REG, init_reg, VCODE_INVALID_REG,
-                           VCODE_INVALID_REG, 0, VCODE_INVALID_REG);
+                           VCODE_INVALID_REG, SIG_F_UNRESOLVED,
+                           VCODE_INVALID_REG);
 
          object_t *obj = tree_to_object(decl);
          ident_t name = ident_prefix(parent->name, tree_ident(decl), '.');
@@ -12184,6 +12185,11 @@ static void lower_port_signal(lower_unit_t *lu, tree_t port,
    if (mode == PORT_INOUT)
       flags |= NET_F_EFFECTIVE | NET_F_INOUT;
 
+   // The value of a port of mode in is always the effective value of
+   // the actual without applying the resolution function again
+   if (mode == PORT_IN)
+      flags |= SIG_F_UNRESOLVED;
+
    lower_sub_signals(lu, type, type, value_type, port, view, var,
                      VCODE_INVALID_REG, init_reg, VCODE_INVALID_REG,
                      VCODE_INVALID_REG, flags, bounds_reg);
diff --git a/src/rt/rt.h b/src/rt/rt.h
index b48d098..6d9546b 100644
--- a/src/rt/rt.h
+++ b/src/rt/rt.h
@@ -62,6 +62,7 @@ typedef uint8_t net_flags_t;
 #define SIG_F_CACHE_EVENT  (1 << 10)
 #define SIG_F_EVENT_FLAG   (1 << 11)
 #define SIG_F_REGISTER     (1 << 12)
+#define SIG_F_UNRESOLVED   (1 << 13)
 typedef uint32_t sig_flags_t;
 
 typedef enum {
-- 
2.43.0


From f4b5edab215eaa1bca7d2ba59185c9f017a555d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:56 +0000
Subject: [PATCH 23/60] fix: library unusable after a crash while it is being
 saved

---
 src/lib.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/lib.c b/src/lib.c
index c102fef..28772df 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -1060,12 +1060,31 @@ ident_t lib_name(lib_t lib)
    return lib->name;
 }
 
+static void lib_replace_file(lib_t lib, const char *from, const char *to)
+{
+   // Replace the file in one step so the library stays usable if this
+   // process is interrupted while writing
+
+   LOCAL_TEXT_BUF from_path = lib_file_path(lib, from);
+   LOCAL_TEXT_BUF to_path = lib_file_path(lib, to);
+
+#ifdef __MINGW32__
+   remove(tb_get(to_path));
+#endif
+
+   if (rename(tb_get(from_path), tb_get(to_path)) != 0)
+      fatal_errno("failed to create %s", tb_get(to_path));
+}
+
 static void lib_save_unit(lib_t lib, lib_unit_t *unit)
 {
    LOCAL_TEXT_BUF tb = tb_new();
    lib_encode_file_name(unit->name, tb);
 
-   fbuf_t *f = lib_fbuf_open(lib, tb_get(tb), FBUF_OUT, FBUF_CS_ADLER32);
+   LOCAL_TEXT_BUF tmp = tb_new();
+   tb_printf(tmp, "%s.tmp", tb_get(tb));
+
+   fbuf_t *f = lib_fbuf_open(lib, tb_get(tmp), FBUF_OUT, FBUF_CS_ADLER32);
    if (f == NULL)
       fatal("failed to create %s in library %s", tb_get(tb), istr(lib->name));
 
@@ -1094,6 +1113,8 @@ static void lib_save_unit(lib_t lib, lib_unit_t *unit)
    uint32_t checksum;
    fbuf_close(f, &checksum);
 
+   lib_replace_file(lib, tb_get(tmp), tb_get(tb));
+
    arena_set_checksum(arena, checksum);
 
    assert(unit->dirty);
@@ -1135,7 +1156,7 @@ void lib_save(lib_t lib)
 
    int index_sz = lib_index_size(lib);
 
-   fbuf_t *f = lib_fbuf_open(lib, "_index", FBUF_OUT, FBUF_CS_NONE);
+   fbuf_t *f = lib_fbuf_open(lib, "_index.tmp", FBUF_OUT, FBUF_CS_NONE);
    if (f == NULL)
       fatal_errno("failed to create library %s index", istr(lib->name));
 
@@ -1152,6 +1173,8 @@ void lib_save(lib_t lib)
    ident_write_end(ictx);
    fbuf_close(f, NULL);
 
+   lib_replace_file(lib, "_index.tmp", "_index");
+
    if (!get_file_info(tb_get(index_path), &info))
       fatal_errno("%s", tb_get(index_path));
 
-- 
2.43.0


From dc65d6fb29332b359f79212ce9eeb20f20108d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:57 +0000
Subject: [PATCH 24/60] fix: corrupt library file is parsed before its checksum
 is verified

Also check the sizes in the header, which the checksum does not cover.
---
 src/fbuf.c | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/fbuf.c b/src/fbuf.c
index c4cbeee..0638526 100644
--- a/src/fbuf.c
+++ b/src/fbuf.c
@@ -318,17 +318,23 @@ static void fbuf_update_header(fbuf_t *f, uint32_t checksum)
 
 static void fbuf_decompress_fastlz(fbuf_t *f, uint8_t *rmap, size_t bufsz)
 {
-   for (uint8_t *dst = f->rbuf, *src = rmap; dst < f->rbuf + f->origsz;) {
+   uint8_t *const src_end = rmap + bufsz, *const dst_end = f->rbuf + f->origsz;
+
+   for (uint8_t *dst = f->rbuf, *src = rmap; dst < dst_end;) {
+      if (src_end - src < sizeof(uint32_t))
+         fatal("read past end of compressed file %s", f->fname);
+
       const uint32_t blksz = UNPACK_BE32(src);
       if (blksz > SPILL_SIZE)
          fatal("file %s has invalid compression format", f->fname);
 
       src += sizeof(uint32_t);
 
-      if (src + blksz > (uint8_t *)rmap + bufsz)
-         fatal_trace("read past end of compressed file %s", f->fname);
+      if (src_end - src < blksz)
+         fatal("read past end of compressed file %s", f->fname);
 
-      const int ret = fastlz_decompress(src, blksz, dst, SPILL_SIZE);
+      const int ret = fastlz_decompress(src, blksz, dst,
+                                        MIN(dst_end - dst, SPILL_SIZE));
       if (ret == 0)
          fatal("file %s has invalid compression format", f->fname);
 
@@ -399,6 +405,9 @@ static void fbuf_decompress(fbuf_t *f)
       fatal("%s has inconsistent compressed size %u vs file size %zu",
             f->fname, filesz, info.size);
 
+   if (header_sz + (uint64_t)userheader > filesz)
+      fatal("%s has inconsistent header size", f->fname);
+
    uint8_t *rmap = map_file(fileno(f->file), filesz);
 
    f->origsz = len;
@@ -413,6 +422,10 @@ static void fbuf_decompress(fbuf_t *f)
       fbuf_decompress_fastlz(f, payload, payloadsz);
       break;
    case FBUF_ZIP_NONE:
+      if (f->origsz > payloadsz)
+         fatal("%s inconsistent size %zu vs %zu", f->fname, payloadsz,
+               f->origsz);
+
       memcpy(f->rbuf, payload, f->origsz);
       checksum_update(&(f->checksum), f->rbuf, f->origsz);
       break;
@@ -425,6 +438,12 @@ static void fbuf_decompress(fbuf_t *f)
    }
 
    unmap_file(rmap, filesz);
+
+   // Do not let the reader see corrupt data
+   const uint32_t cs = checksum_finish(&(f->checksum));
+   if (cs != f->checksum.expect)
+      fatal("%s: incorrect checksum %08x, expected %08x",
+            f->fname, cs, f->checksum.expect);
 }
 
 fbuf_t *fbuf_open(const char *file, fbuf_mode_t mode, fbuf_cs_t csum)
@@ -549,10 +568,6 @@ void fbuf_close(fbuf_t *f, uint32_t *checksum)
 
    const uint32_t cs = checksum_finish(&(f->checksum));
 
-   if (f->mode == FBUF_IN && cs != f->checksum.expect)
-      fatal("%s: incorrect checksum %08x, expected %08x",
-            f->fname, cs, f->checksum.expect);
-
    if (checksum != NULL)
       *checksum = cs;
 
-- 
2.43.0


From ddaa2b83f1719608b4e7c7232c14e0ced14ae571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:49 +0000
Subject: [PATCH 25/60] fix: internal error when the JIT pack was not
 completely written

A pack of zero bytes, left when elaboration was interrupted, made
map_file fail with a stack trace.
---
 src/jit/jit-pack.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jit/jit-pack.c b/src/jit/jit-pack.c
index 67fbdb3..92bef2f 100644
--- a/src/jit/jit-pack.c
+++ b/src/jit/jit-pack.c
@@ -675,6 +675,9 @@ jit_pack_t *jit_read_pack(FILE *f)
    if (!get_handle_info(fileno(f), &info))
       fatal("cannot get info for pack file");
 
+   if (info.size < sizeof(pack_header_t))
+      fatal("JIT pack file is truncated");
+
    jp->mmap = map_file(fileno(f), info.size);
    jp->map_size = info.size;
 
-- 
2.43.0


From 109b514a41b5a564c57d8e229ee788d5e837f152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:03 +0000
Subject: [PATCH 26/60] fix: errors closing a library file were ignored

A unit, index or coverage database that could not be written completely
because the disk was full was reported as success.
---
 src/fbuf.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fbuf.c b/src/fbuf.c
index 0638526..60a2ad4 100644
--- a/src/fbuf.c
+++ b/src/fbuf.c
@@ -22,6 +22,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <assert.h>
+#include <errno.h>
 #include <sys/types.h>
 #include <sys/stat.h>
 #include <fcntl.h>
@@ -579,8 +580,6 @@ void fbuf_close(fbuf_t *f, uint32_t *checksum)
       free(f->wbuf);
    }
 
-   fclose(f->file);
-
    if (f->prev == NULL) {
       assert(f == open_list);
       if (f->next != NULL)
@@ -593,6 +592,13 @@ void fbuf_close(fbuf_t *f, uint32_t *checksum)
          f->next->prev = f->prev;
    }
 
+   if (fclose(f->file) != 0 && f->mode == FBUF_OUT) {
+      const int saved = errno;
+      remove(f->fname);
+      errno = saved;
+      fatal_errno("%s: fclose", f->fname);
+   }
+
    if (checksum != NULL)
       *checksum = checksum_finish(&(f->checksum));
 
-- 
2.43.0


From 2d5c296554c247409045b2507879f354ffd8790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:26 +0000
Subject: [PATCH 27/60] fix: errors writing the JIT pack were ignored

---
 src/cgen.c         | 9 ++++++++-
 src/jit/jit-pack.c | 9 +++++++--
 src/util.c         | 2 +-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/cgen.c b/src/cgen.c
index a203334..0b6a49b 100644
--- a/src/cgen.c
+++ b/src/cgen.c
@@ -32,6 +32,7 @@
 #include "type.h"
 #include "vlog/vlog-node.h"
 
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 #include <limits.h>
@@ -371,7 +372,13 @@ static void cgen_jit_pack(ident_t name, jit_t *jit, unit_list_t *units)
       fatal_errno("fopen: %s", fname);
 
    jit_write_pack(jit, units->items, units->count, f);
-   fclose(f);
+
+   if (fclose(f) != 0) {
+      const int saved = errno;
+      lib_delete(lib_work(), fname);
+      errno = saved;
+      fatal_errno("%s: fclose", fname);
+   }
 
    progress("writing JIT pack");
 }
diff --git a/src/jit/jit-pack.c b/src/jit/jit-pack.c
index 92bef2f..29443a7 100644
--- a/src/jit/jit-pack.c
+++ b/src/jit/jit-pack.c
@@ -651,8 +651,12 @@ void jit_write_pack(jit_t *j, const ident_t *units, size_t count, FILE *f)
          write_fully(func->cpool, func->cpoolsz, f);
    }
 
+   const long strtab = ftell(f);
+   if (strtab == -1)
+      fatal_errno("ftell");
+
    memcpy(header.magic, PACK_MAGIC, sizeof(header.magic));
-   header.strtab = ftell(f);
+   header.strtab = strtab;
 
    const char *tab;
    size_t size;
@@ -660,7 +664,8 @@ void jit_write_pack(jit_t *j, const ident_t *units, size_t count, FILE *f)
 
    write_fully(tab, size, f);
 
-   rewind(f);
+   if (fseek(f, 0, SEEK_SET) != 0)
+      fatal_errno("fseek");
 
    write_fully(&header, sizeof(header), f);
 
diff --git a/src/util.c b/src/util.c
index 9ecc958..3f0047b 100644
--- a/src/util.c
+++ b/src/util.c
@@ -1905,7 +1905,7 @@ void *map_file(int fd, size_t size)
 #else
    void *ptr = mmap(NULL, size, PROT_READ, MAP_PRIVATE, fd, 0);
    if (ptr == MAP_FAILED)
-      fatal_trace("mmap failed to map %zu byte file", size);
+      fatal_errno("failed to map %zu byte file", size);
 #endif
    return ptr;
 }
-- 
2.43.0


From c2a7223ebd449e6b5d4a07a618ac11d0e9e327ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:35 +0000
Subject: [PATCH 28/60] fix: errors writing and reading VHDL files were ignored

Errors closing or flushing a file were not reported, including for files
still open at the end of the simulation, ENDFILE returned true after a
read error, and FILE_SIZE and FILE_CANSEEK crashed for closed files.
---
 src/nvc.c       |  3 +++
 src/rt/fileio.c | 50 ++++++++++++++++++++++++++++++++++++++-----------
 src/rt/fileio.h |  1 +
 3 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/src/nvc.c b/src/nvc.c
index 7c9f548..5d5b752 100644
--- a/src/nvc.c
+++ b/src/nvc.c
@@ -27,6 +27,7 @@
 #include "option.h"
 #include "phase.h"
 #include "rt/assert.h"
+#include "rt/fileio.h"
 #include "rt/model.h"
 #include "rt/mspace.h"
 #include "rt/rt.h"
@@ -987,6 +988,8 @@ static int run_cmd(int argc, char **argv, cmd_state_t *state)
 
    const int rc = model_exit_status(state->model);
 
+   clear_file_handles();
+
    if (dumper != NULL)
       wave_dumper_free(dumper);
 
diff --git a/src/rt/fileio.c b/src/rt/fileio.c
index e039f5f..7b90e4f 100644
--- a/src/rt/fileio.c
+++ b/src/rt/fileio.c
@@ -147,15 +147,21 @@ static void drop_handle(file_handle_t handle)
    if (slot == NULL)
       return;
 
-   if (slot->kind == FILE_USER)
-      fclose(slot->file);
-
-   free(slot->name);
+   FILE *f = slot->file;
+   char *name LOCAL = slot->name;
 
    slot->file = NULL;
+   slot->name = NULL;
    slot->generation++;
 
    free_hint = slot - handles;
+
+   if (slot->kind != FILE_USER)
+      return;
+
+   if (fclose(f) != 0 && slot->mode != FILE_READ)
+      jit_msg(NULL, DIAG_FATAL, "failed to close %s: %s", name,
+              strerror(errno));
 }
 
 bool file_mode(file_handle_t fh, file_mode_t *mode)
@@ -180,8 +186,22 @@ bool file_logical_name(file_handle_t fh, const char **name)
 
 void clear_file_handles(void)
 {
+   // Close files that were still open when the simulation ended
+
    for (int i = 0; i < num_handles; i++) {
+      file_slot_t *slot = &(handles[i]);
+      if (slot->file == NULL || slot->kind != FILE_USER)
+         continue;
+
+      FILE *f = slot->file;
+      char *name LOCAL = slot->name;
 
+      slot->file = NULL;
+      slot->name = NULL;
+      slot->generation++;
+
+      if (fclose(f) != 0 && slot->mode != FILE_READ)
+         fatal_errno("failed to close %s", name);
    }
 }
 
@@ -203,8 +223,12 @@ void __nvc_endfile(jit_scalar_t *args)
       jit_msg(NULL, DIAG_FATAL, "ENDFILE called on closed file");
 
    int c = fgetc(slot->file);
-   if (c == EOF)
+   if (c == EOF) {
+      if (ferror(slot->file))
+         jit_msg(NULL, DIAG_FATAL, "read from file failed");
+
       args[0].integer = 1;
+   }
    else {
       ungetc(c, slot->file);
       args[0].integer = 0;
@@ -220,7 +244,8 @@ void __nvc_flush(jit_scalar_t *args)
    if (slot == NULL)
       jit_msg(NULL, DIAG_FATAL, "FLUSH called on closed file");
 
-   fflush(slot->file);
+   if (fflush(slot->file) != 0)
+      jit_msg(NULL, DIAG_FATAL, "FLUSH failed: %s", strerror(errno));
 }
 
 DLLEXPORT
@@ -232,7 +257,8 @@ void __nvc_rewind(jit_scalar_t *args)
    if (slot == NULL)
       jit_msg(NULL, DIAG_FATAL, "FILE_REWIND called on closed file");
 
-   rewind(slot->file);
+   if (fseeko(slot->file, 0, SEEK_SET) < 0)
+      jit_msg(NULL, DIAG_FATAL, "FILE_REWIND failed: %s", strerror(errno));
 }
 
 DLLEXPORT
@@ -264,7 +290,8 @@ void __nvc_truncate(jit_scalar_t *args)
    if (slot == NULL)
       jit_msg(NULL, DIAG_FATAL, "FILE_TRUNCATE called on closed file");
 
-   fflush(slot->file);
+   if (fflush(slot->file) != 0)
+      goto failed;
 
 #ifdef __MINGW32__
    HANDLE os_handle = (HANDLE)_get_osfhandle(_fileno(slot->file));
@@ -368,10 +395,11 @@ void __nvc_file_size(jit_scalar_t *args)
    file_handle_t *handle = args[1].pointer;
 
    file_slot_t *slot = decode_handle(*handle);
-   if (slot->file == NULL)
+   if (slot == NULL)
       jit_msg(NULL, DIAG_FATAL, "FILE_SIZE called on closed file");
 
-   fflush(slot->file);
+   if (fflush(slot->file) != 0)
+      jit_msg(NULL, DIAG_FATAL, "FILE_SIZE failed: %s", strerror(errno));
 
    file_info_t info;
    if (!get_handle_info(fileno(slot->file), &info))
@@ -386,7 +414,7 @@ void __nvc_file_canseek(jit_scalar_t *args)
    file_handle_t *handle = args[1].pointer;
 
    file_slot_t *slot = decode_handle(*handle);
-   if (slot->file == NULL)
+   if (slot == NULL)
       jit_msg(NULL, DIAG_FATAL, "FILE_CANSEEK called on closed file");
 
    args[0].integer = fseek(slot->file, 0, SEEK_CUR) == 0;
diff --git a/src/rt/fileio.h b/src/rt/fileio.h
index dc4714a..acece41 100644
--- a/src/rt/fileio.h
+++ b/src/rt/fileio.h
@@ -31,5 +31,6 @@ typedef uint32_t file_handle_t;
 
 bool file_mode(file_handle_t fh, file_mode_t *mode);
 bool file_logical_name(file_handle_t fh, const char **name);
+void clear_file_handles(void);
 
 #endif  // _RT_FILEIO_H
-- 
2.43.0


From c5869b16da913b25d4592cd8fa320b133a98caf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:48 +0000
Subject: [PATCH 29/60] fix: library treated as empty when its index cannot be
 opened

---
 src/lib.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.c b/src/lib.c
index 28772df..b358c24 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -191,6 +191,8 @@ static void lib_read_index(lib_t lib)
       ident_read_end(ictx);
       fbuf_close(f, NULL);
    }
+   else if (lib->path != NULL && errno != ENOENT)
+      fatal_errno("cannot read index of library %s", istr(lib->name));
 }
 
 static uint32_t lib_name_hash(const void *key)
-- 
2.43.0


From 19dbde8e8556fa0f7a4bd250f3d91d2c4cf64db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:18 +0000
Subject: [PATCH 30/60] fix: errors writing coverage databases and reports were
 ignored

---
 src/cov/cov-report.c |  8 ++++++--
 src/nvc.c            | 14 ++++++++++++--
 src/util.c           | 11 +++++++++++
 src/util.h           |  2 ++
 4 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/cov/cov-report.c b/src/cov/cov-report.c
index b641189..ba3e082 100644
--- a/src/cov/cov-report.c
+++ b/src/cov/cov-report.c
@@ -1412,7 +1412,7 @@ static void cover_report_hier(cover_rpt_hier_ctx_t *ctx,
 
    cover_print_timestamp(f);
 
-   fclose(f);
+   checked_fclose(f, hier);
 }
 
 static void cover_report_hier_children(cover_rpt_hier_ctx_t *ctx,
@@ -1678,6 +1678,8 @@ static void cover_report_per_file(FILE *top_f, cover_data_t *data, char *subdir)
 
       cover_print_timestamp(f);
 
+      checked_fclose(f, file_path);
+
       // Print top table summary
       cover_print_summary_table_row(top_f, data, &(ctx->stats), base_name_id, base_name_id,
                                     0, true, false);
@@ -1725,6 +1727,8 @@ void cover_report(const char *path, cover_data_t *data, int item_limit)
 
    char *top LOCAL = xasprintf("%s/index.html", path);
    FILE *f = fopen(top, "w");
+   if (f == NULL)
+      fatal_errno("failed to open report file: %s", top);
 
    cover_print_html_header(f);
 
@@ -1741,5 +1745,5 @@ void cover_report(const char *path, cover_data_t *data, int item_limit)
 
    cover_print_timestamp(f);
 
-   fclose(f);
+   checked_fclose(f, top);
 }
diff --git a/src/nvc.c b/src/nvc.c
index 5d5b752..37ff056 100644
--- a/src/nvc.c
+++ b/src/nvc.c
@@ -559,6 +559,10 @@ static int elaborate(int argc, char **argv, cmd_state_t *state)
 
    if (cover != NULL) {
       fbuf_t *covdb = fbuf_open(meta.cover_file, FBUF_OUT, FBUF_CS_NONE);
+      if (covdb == NULL)
+         fatal_errno("failed to create coverage database: %s",
+                     meta.cover_file);
+
       cover_dump_items(cover, covdb, COV_DUMP_ELAB, NULL);
       fbuf_close(covdb, NULL);
 
@@ -1679,6 +1683,9 @@ static int coverage_cmd(int argc, char **argv, cmd_state_t *state)
    if (out_db) {
       progress("Saving merged coverage database to: %s", out_db);
       fbuf_t *f = fbuf_open(out_db, FBUF_OUT, FBUF_CS_NONE);
+      if (f == NULL)
+         fatal_errno("failed to create coverage database: %s", out_db);
+
       cover_dump_items(cover, f, COV_DUMP_PROCESSING, NULL);
       fbuf_close(f, NULL);
    }
@@ -1701,7 +1708,7 @@ static int coverage_cmd(int argc, char **argv, cmd_state_t *state)
          fatal_errno("cannot open %s", export_file);
 
       cover_export_cobertura(cover, f, NULL);
-      fclose(f);
+      checked_fclose(f, export_file);
    }
 
    return 0;
@@ -1921,7 +1928,7 @@ static int cover_export_cmd(int argc, char **argv, cmd_state_t *state)
    }
 
    if (file != stdout)
-      fclose(file);
+      checked_fclose(file, output);
 
    argc -= next_cmd - 1;
    argv += next_cmd - 1;
@@ -2045,6 +2052,9 @@ static int cover_merge_cmd(int argc, char **argv, cmd_state_t *state)
    progress("saving merged coverage database to %s", out_db);
 
    fbuf_t *f = fbuf_open(out_db, FBUF_OUT, FBUF_CS_NONE);
+   if (f == NULL)
+      fatal_errno("failed to create coverage database: %s", out_db);
+
    cover_dump_items(cover, f, COV_DUMP_PROCESSING, NULL);
    fbuf_close(f, NULL);
 
diff --git a/src/util.c b/src/util.c
index 3f0047b..c671fe4 100644
--- a/src/util.c
+++ b/src/util.c
@@ -632,6 +632,17 @@ void fatal_errno(const char *fmt, ...)
    fatal_exit(EXIT_FAILURE);
 }
 
+void checked_fclose(FILE *f, const char *name)
+{
+   // Close a file that was written, reporting any earlier error too
+   const bool failed = ferror(f);
+
+   if (fclose(f) != 0)
+      fatal_errno("failed to close %s", name);
+   else if (failed)
+      fatal("failed to write %s", name);
+}
+
 const char *last_os_error(void)
 {
 #ifdef __MINGW32__
diff --git a/src/util.h b/src/util.h
index 9dbe87c..ccd4f7f 100644
--- a/src/util.h
+++ b/src/util.h
@@ -281,6 +281,8 @@ bool isupper_iso88591(unsigned char ch);
 bool isalpha_iso88591(unsigned char ch);
 bool isalnum_iso88591(unsigned char ch);
 
+void checked_fclose(FILE *f, const char *name);
+
 int checked_sprintf(char *buf, int len, const char *fmt, ...)
    __attribute__((format(printf, 3, 4)));
 
-- 
2.43.0


From 962259c61d49061176ffe7a9c2fe447c8dee84a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:34 +0000
Subject: [PATCH 31/60] fix: errors writing waveform files were ignored

---
 src/rt/wave.c       | 21 ++++++++++-----
 thirdparty/fstapi.c | 64 ++++++++++++++++++++++++++++++++++-----------
 thirdparty/fstapi.h |  2 +-
 3 files changed, 65 insertions(+), 22 deletions(-)

diff --git a/src/rt/wave.c b/src/rt/wave.c
index 71766a9..01768d5 100644
--- a/src/rt/wave.c
+++ b/src/rt/wave.c
@@ -98,6 +98,7 @@ typedef struct {
 
 typedef struct {
    FILE       *file;
+   char       *filename;
    int         colour;
    text_buf_t *hier;
    bool        end_of_record;
@@ -109,6 +110,7 @@ typedef struct _wave_dumper {
    rt_model_t    *model;
    gtkw_writer_t *gtkw;
    FILE          *vcdfile;
+   char          *filename;
    char          *tmpfst;
    uint64_t       last_time;
    jit_t         *jit;
@@ -146,7 +148,9 @@ static void fst_close(rt_model_t *m, void *arg)
    wave_dumper_t *wd = arg;
 
    fstWriterEmitTimeChange(wd->fst_ctx, model_now(m, NULL));
-   fstWriterClose(wd->fst_ctx);
+
+   if (fstWriterClose(wd->fst_ctx) != 0)
+      fatal("failed to write %s", wd->tmpfst ?: wd->filename);
 
    if (wd->vcdfile) {
       void *xc = fstReaderOpen(wd->tmpfst);
@@ -158,10 +162,11 @@ static void fst_close(rt_model_t *m, void *arg)
          fatal("fstReaderProcessHier failed");
 
       fstReaderSetFacProcessMaskAll(xc);
-      fstReaderIterBlocks(xc, NULL, NULL, wd->vcdfile);
+      if (!fstReaderIterBlocks(xc, NULL, NULL, wd->vcdfile))
+         fatal("failed to write %s", wd->filename);
 
       fstReaderClose(xc);
-      fclose(wd->vcdfile);
+      checked_fclose(wd->vcdfile, wd->filename);
       wd->vcdfile = NULL;
 
       if (unlink(wd->tmpfst) != 0)
@@ -1068,7 +1073,8 @@ void wave_dumper_restart(wave_dumper_t *wd, rt_model_t *m, jit_t *jit)
    fst_walk_packages(wd);
 
    if (wd->gtkw != NULL) {
-      fclose(wd->gtkw->file);
+      checked_fclose(wd->gtkw->file, wd->gtkw->filename);
+      free(wd->gtkw->filename);
       tb_free(wd->gtkw->hier);
       free(wd->gtkw);
       wd->gtkw = NULL;
@@ -1089,6 +1095,7 @@ wave_dumper_t *wave_dumper_new(const char *file, const char *gtkw_file,
 {
    wave_dumper_t *wd = xcalloc(sizeof(wave_dumper_t));
    wd->top       = top;
+   wd->filename  = xstrdup(file);
    wd->last_time = UINT64_MAX;
    wd->typecache = hash_new(128);
 
@@ -1131,8 +1138,9 @@ wave_dumper_t *wave_dumper_new(const char *file, const char *gtkw_file,
       if ((wd->gtkw->file = fopen(gtkw_file, "w")) == NULL)
          fatal_errno("%s", gtkw_file);
 
-      wd->gtkw->hier   = tb_new();
-      wd->gtkw->colour = 3;
+      wd->gtkw->filename = xstrdup(gtkw_file);
+      wd->gtkw->hier     = tb_new();
+      wd->gtkw->colour   = 3;
    }
 
    return wd;
@@ -1145,6 +1153,7 @@ void wave_dumper_free(wave_dumper_t *wd)
    ACLEAR(wd->dumped);
 
    hash_free(wd->typecache);
+   free(wd->filename);
    free(wd);
 }
 
diff --git a/thirdparty/fstapi.c b/thirdparty/fstapi.c
index a94464d..1f181a0 100644
--- a/thirdparty/fstapi.c
+++ b/thirdparty/fstapi.c
@@ -1844,8 +1844,10 @@ void fstWriterFlushContext(fstWriterContext *xc)
 /*
  * close out FST file
  */
-void fstWriterClose(fstWriterContext *xc)
+int fstWriterClose(fstWriterContext *xc)
 {
+    int failed = 0;
+
 #ifdef FST_WRITER_PARALLEL
     if (xc) {
         pthread_mutex_lock(&xc->mutex);
@@ -2106,6 +2108,11 @@ void fstWriterClose(fstWriterContext *xc)
         fstWriterUint64(xc->handle, xc->secnum);
         fflush(xc->handle);
 
+        /* errors are sticky so this covers all earlier writes too */
+        failed = ferror(xc->handle) || ferror(xc->tchn_handle) || ferror(xc->curval_handle) ||
+                 ferror(xc->valpos_handle) || ferror(xc->geom_handle) ||
+                 (xc->hier_handle && ferror(xc->hier_handle)) || xc->fseek_failed;
+
         tmpfile_close(&xc->tchn_handle, &xc->tchn_handle_nam);
         free(xc->vchg_mem);
         xc->vchg_mem = NULL;
@@ -2129,7 +2136,7 @@ void fstWriterClose(fstWriterContext *xc)
 
                 if (fp) {
                     gzFile dsth;
-                    int zfd;
+                    int zfd, ok = 1;
                     char gz_membuf[FST_GZIO_LEN];
 
                     fstWriterFseeko(xc, xc->handle, 0, SEEK_END);
@@ -2147,32 +2154,39 @@ void fstWriterClose(fstWriterContext *xc)
                         for (offpnt = 0; offpnt < uclen; offpnt += FST_GZIO_LEN) {
                             size_t this_len =
                                 ((uclen - offpnt) > FST_GZIO_LEN) ? FST_GZIO_LEN : (uclen - offpnt);
-                            fstFread(gz_membuf, this_len, 1, xc->handle);
-                            gzwrite(dsth, gz_membuf, this_len);
+                            ok &= fstFread(gz_membuf, this_len, 1, xc->handle) == 1;
+                            ok &= gzwrite(dsth, gz_membuf, this_len) == (int)this_len;
                         }
-                        gzclose(dsth);
+                        ok &= gzclose(dsth) == Z_OK;
                     } else {
                         close(zfd);
+                        ok = 0;
                     }
                     fstWriterFseeko(xc, fp, 0, SEEK_END);
                     offpnt = ftello(fp);
                     fstWriterFseeko(xc, fp, 1, SEEK_SET);
                     fstWriterUint64(fp, offpnt - 1);
-                    fclose(fp);
-                    fclose(xc->handle);
+                    ok &= !ferror(fp);
+                    ok &= fclose(fp) == 0;
+                    failed |= fclose(xc->handle) != 0;
                     xc->handle = NULL;
 
-                    unlink(xc->filename);
-                    rename(hf, xc->filename);
+                    if (ok) {
+                        unlink(xc->filename);
+                        failed |= rename(hf, xc->filename) != 0;
+                    } else {
+                        /* keep the file that is not repacked */
+                        unlink(hf);
+                    }
                 } else {
                     xc->repack_on_close = 0;
-                    fclose(xc->handle);
+                    failed |= fclose(xc->handle) != 0;
                     xc->handle = NULL;
                 }
 
                 free(hf);
             } else {
-                fclose(xc->handle);
+                failed |= fclose(xc->handle) != 0;
                 xc->handle = NULL;
             }
         }
@@ -2206,6 +2220,8 @@ void fstWriterClose(fstWriterContext *xc)
         xc->filename = NULL;
         free(xc);
     }
+
+    return failed;
 }
 
 /*
@@ -3323,6 +3339,7 @@ struct fstReaderContext
 #ifndef FST_WRITEX_DISABLE
     int writex_pos;
     int writex_fd;
+    int writex_failed;
     unsigned char writex_buf[FST_WRITEX_MAX];
 #endif
 
@@ -3346,6 +3363,23 @@ int fstReaderFseeko(struct fstReaderContext *xc, FILE *stream, fst_off_t offset,
 }
 
 #ifndef FST_WRITEX_DISABLE
+static void fstWritexRaw(struct fstReaderContext *xc, const unsigned char *s, uint32_t len)
+{
+    while (len) {
+        int rc = write(xc->writex_fd, s, len);
+
+        if (rc <= 0) {
+            if (rc < 0 && errno == EINTR)
+                continue;
+            xc->writex_failed = 1;
+            break;
+        }
+
+        s += rc;
+        len -= rc;
+    }
+}
+
 static void fstWritex(struct fstReaderContext *xc,
                       void *v,
                       uint32_t len) /* TALOS-2023-1793: change len to unsigned */
@@ -3362,13 +3396,11 @@ static void fstWritex(struct fstReaderContext *xc,
             xc->writex_pos += len;
         } else {
             fstWritex(xc, NULL, 0);
-            if (write(xc->writex_fd, s, len)) {
-            };
+            fstWritexRaw(xc, s, len);
         }
     } else {
         if (xc->writex_pos) {
-            if (write(xc->writex_fd, xc->writex_buf, xc->writex_pos)) {
-            };
+            fstWritexRaw(xc, xc->writex_buf, xc->writex_pos);
             xc->writex_pos = 0;
         }
     }
@@ -5908,6 +5940,8 @@ int fstReaderIterBlocks2(fstReaderContext *ctx,
 #ifndef FST_WRITEX_DISABLE
     if (fv) {
         fstWritex(xc, NULL, 0);
+        if (xc->writex_failed)
+            return (0);
     }
 #endif
 
diff --git a/thirdparty/fstapi.h b/thirdparty/fstapi.h
index 97dbd2e..b802de8 100644
--- a/thirdparty/fstapi.h
+++ b/thirdparty/fstapi.h
@@ -373,7 +373,7 @@ struct fstETab
 
 typedef struct fstWriterContext fstWriterContext;
 
-void fstWriterClose(fstWriterContext *ctx);
+int fstWriterClose(fstWriterContext *ctx);
 fstWriterContext *fstWriterCreate(const char *nam, int use_compressed_hier);
 fstEnumHandle fstWriterCreateEnumTable(fstWriterContext *ctx,
                                         const char *name,
-- 
2.43.0


From 4e81f0ccadd39e32bb2994a2921ba74cc7ca87a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:31 +0000
Subject: [PATCH 32/60] fix: concurrent changes to the library index were lost

---
 src/lib.c | 36 ++++++++++--------------------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/src/lib.c b/src/lib.c
index b358c24..59683c5 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -72,8 +72,6 @@ struct _lib {
    ghash_t      *lookup;
    lib_unit_t   *units;
    lib_index_t  *index;
-   uint64_t      index_mtime;
-   off_t         index_size;
    int           lock_fd;
    bool          readonly;
 };
@@ -147,10 +145,6 @@ static void lib_read_index(lib_t lib)
 {
    fbuf_t *f = lib_fbuf_open(lib, "_index", FBUF_IN, FBUF_CS_NONE);
    if (f != NULL) {
-      file_info_t info;
-      if (!get_handle_info(fbuf_file_handle(f), &info))
-         fatal_errno("%s", fbuf_file_name(f));
-
       const uint32_t magic = read_u32(f);
       if (magic != INDEX_FILE_MAGIC) {
          warnf("ignoring library index %s from an old version of " PACKAGE,
@@ -158,9 +152,6 @@ static void lib_read_index(lib_t lib)
          return;
       }
 
-      lib->index_mtime = info.mtime;
-      lib->index_size  = info.size;
-
       ident_rd_ctx_t ictx = ident_read_begin(f);
       lib_index_t **insert = &(lib->index);
 
@@ -174,7 +165,11 @@ static void lib_read_index(lib_t lib)
             insert = &((*insert)->next);
 
          if (*insert && (*insert)->name == name) {
-            (*insert)->kind = kind;
+            // A unit analysed but not yet saved by this process is newer
+            const lib_unit_t *lu = ghash_get(lib->lookup, name);
+            if (lu == NULL || !lu->dirty)
+               (*insert)->kind = kind;
+
             insert = &((*insert)->next);
          }
          else {
@@ -1133,6 +1128,11 @@ void lib_save(lib_t lib)
 
    freeze_global_arena();
 
+   // The library may have been updated concurrently: re-read the index
+   // while we have the lock as the time and size of the file may not have
+   // changed
+   lib_read_index(lib);
+
    for (lib_unit_t *lu = lib->units; lu; lu = lu->next) {
       if (lu->dirty) {
          if (lu->error)
@@ -1146,16 +1146,6 @@ void lib_save(lib_t lib)
       }
    }
 
-   LOCAL_TEXT_BUF index_path = lib_file_path(lib, "_index");
-   file_info_t info;
-   if (get_file_info(tb_get(index_path), &info)) {
-      if (info.mtime != lib->index_mtime || info.size != lib->index_size) {
-         // Library was updated concurrently: re-read the index while we
-         // have the lock
-         lib_read_index(lib);
-      }
-   }
-
    int index_sz = lib_index_size(lib);
 
    fbuf_t *f = lib_fbuf_open(lib, "_index.tmp", FBUF_OUT, FBUF_CS_NONE);
@@ -1177,12 +1167,6 @@ void lib_save(lib_t lib)
 
    lib_replace_file(lib, "_index.tmp", "_index");
 
-   if (!get_file_info(tb_get(index_path), &info))
-      fatal_errno("%s", tb_get(index_path));
-
-   lib->index_mtime = info.mtime;
-   lib->index_size  = info.size;
-
    file_unlock(lib->lock_fd);
 }
 
-- 
2.43.0


From b00dcfbfc10e8a8f62ebbc813d78f5a215b4cee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:08 +0000
Subject: [PATCH 33/60] fix: crash when the same unit is elaborated twice
 concurrently

---
 src/cgen.c | 13 +++++++++----
 src/lib.c  |  2 +-
 src/lib.h  |  1 +
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/cgen.c b/src/cgen.c
index 0b6a49b..c4ebae1 100644
--- a/src/cgen.c
+++ b/src/cgen.c
@@ -367,19 +367,24 @@ static void cgen_jit_pack(ident_t name, jit_t *jit, unit_list_t *units)
 {
    const char *fname LOCAL = xasprintf("_%s.pack", istr(name));
 
-   FILE *f = lib_fopen(lib_work(), fname, "wb");
+   // Another process may elaborate the same unit or have the pack mapped
+   const char *tmp LOCAL = xasprintf("%s.%d", fname, (int)getpid());
+
+   FILE *f = lib_fopen(lib_work(), tmp, "wb");
    if (f == NULL)
-      fatal_errno("fopen: %s", fname);
+      fatal_errno("fopen: %s", tmp);
 
    jit_write_pack(jit, units->items, units->count, f);
 
    if (fclose(f) != 0) {
       const int saved = errno;
-      lib_delete(lib_work(), fname);
+      lib_delete(lib_work(), tmp);
       errno = saved;
-      fatal_errno("%s: fclose", fname);
+      fatal_errno("%s: fclose", tmp);
    }
 
+   lib_replace_file(lib_work(), tmp, fname);
+
    progress("writing JIT pack");
 }
 
diff --git a/src/lib.c b/src/lib.c
index 59683c5..fab5a5a 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -1057,7 +1057,7 @@ ident_t lib_name(lib_t lib)
    return lib->name;
 }
 
-static void lib_replace_file(lib_t lib, const char *from, const char *to)
+void lib_replace_file(lib_t lib, const char *from, const char *to)
 {
    // Replace the file in one step so the library stays usable if this
    // process is interrupted while writing
diff --git a/src/lib.h b/src/lib.h
index d29a49d..86de792 100644
--- a/src/lib.h
+++ b/src/lib.h
@@ -45,6 +45,7 @@ void lib_save(lib_t lib);
 void lib_add_search_path(const char *path);
 void lib_add_map(const char *name, const char *path);
 void lib_delete(lib_t lib, const char *name);
+void lib_replace_file(lib_t lib, const char *from, const char *to);
 void lib_print_search_paths(text_buf_t *tb);
 void lib_search_paths_to_diag(diag_t *d);
 
-- 
2.43.0


From addb2bfe75c20586fbf8f8d676bc9b05802c9958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:16 +0000
Subject: [PATCH 34/60] fix: the generation of a file handle must not wrap
 around

After the same slot was used 65535 times the generation wrapped around to
zero, and with slot zero the handle itself was zero and the file appeared
to be closed.
---
 src/rt/fileio.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rt/fileio.c b/src/rt/fileio.c
index 7b90e4f..d5a6b33 100644
--- a/src/rt/fileio.c
+++ b/src/rt/fileio.c
@@ -109,7 +109,8 @@ static file_handle_t handle_for(FILE *f, const char *name, file_kind_t kind,
    assert(f != NULL);
 
    uint32_t index = free_hint;
-   if (index >= num_handles || handles[index].file != NULL) {
+   if (index >= num_handles || handles[index].file != NULL
+       || handles[index].generation == HANDLE_MAX_INDEX) {
       for (index = 0; index < num_handles; index++) {
          if (handles[index].file == NULL
              && handles[index].generation < HANDLE_MAX_INDEX)
-- 
2.43.0


From 9a6d08beecb497ea446d11f1eb96ba46902034a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:11 +0000
Subject: [PATCH 35/60] fix: report errors writing buffered data in
 FILE_POSITION and FILE_CANSEEK

Both move the position of the stream, which writes out what has been
buffered.  When that failed the data was silently lost.
---
 src/rt/fileio.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/rt/fileio.c b/src/rt/fileio.c
index d5a6b33..6d30768 100644
--- a/src/rt/fileio.c
+++ b/src/rt/fileio.c
@@ -378,9 +378,15 @@ void __nvc_file_position(jit_scalar_t *args)
       break;
    case FILE_ORIGIN_END:
       {
-         fseeko(slot->file, 0, SEEK_END);
-         off_t end = ftello(slot->file);
-         fseeko(slot->file, off, SEEK_SET);
+         // Seeking writes out buffered data which may fail
+         off_t end = -1;
+         if (fseeko(slot->file, 0, SEEK_END) == 0)
+            end = ftello(slot->file);
+
+         if (end < 0 || fseeko(slot->file, off, SEEK_SET) != 0)
+            jit_msg(NULL, DIAG_FATAL, "FILE_POSITION failed: %s",
+                    strerror(errno));
+
          args[0].integer = end - off;
       }
       break;
@@ -418,7 +424,9 @@ void __nvc_file_canseek(jit_scalar_t *args)
    if (slot == NULL)
       jit_msg(NULL, DIAG_FATAL, "FILE_CANSEEK called on closed file");
 
-   args[0].integer = fseek(slot->file, 0, SEEK_CUR) == 0;
+   // Do not use fseek here as it would discard the error if buffered data
+   // cannot be written
+   args[0].integer = lseek(fileno(slot->file), 0, SEEK_CUR) != -1;
 }
 
 void x_file_open(int8_t *status, void **_fp, const uint8_t *name_bytes,
-- 
2.43.0


From 9aa9af00550569a870870dc47adb3498ae519926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:09 +0000
Subject: [PATCH 36/60] fix: release objects of a subprogram after evaluating
 its result

A file or object of protected type declared in a function was closed or
freed before the expression of the return statement that refers to it was
evaluated.
---
 src/lower.c | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index 67517b4..46eae85 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -6370,30 +6370,29 @@ static void lower_return(lower_unit_t *lu, tree_t stmt)
 {
    lower_stmt_coverage(lu, stmt);
 
-   if (is_subprogram(lu->container))
-      lower_leave_subprogram(lu);
-
+   vcode_reg_t result_reg = VCODE_INVALID_REG;
    if (tree_has_value(stmt)) {
       tree_t value = tree_value(stmt);
       type_t type = tree_type(value);
 
-      vcode_reg_t value_reg = lower_rvalue(lu, value);
+      result_reg = lower_rvalue(lu, value);
 
-      if (type_is_scalar(type)) {
-         lower_check_scalar_bounds(lu, value_reg, type, value, NULL);
-         emit_return(value_reg);
-      }
+      if (type_is_scalar(type))
+         lower_check_scalar_bounds(lu, result_reg, type, value, NULL);
       else if (type_is_access(type)) {
          type_t access = type_designated(type);
-         emit_return(lower_incomplete_access(value_reg, access));
+         result_reg = lower_incomplete_access(result_reg, access);
       }
       else if (type_is_array(type))
-         emit_return(lower_coerce_arrays(lu, type, tree_type(stmt), value_reg));
-      else
-         emit_return(value_reg);
+         result_reg =
+            lower_coerce_arrays(lu, type, tree_type(stmt), result_reg);
    }
-   else
-      emit_return(VCODE_INVALID_REG);
+
+   // The expression may refer to objects that are released here
+   if (is_subprogram(lu->container))
+      lower_leave_subprogram(lu);
+
+   emit_return(result_reg);
 }
 
 static void lower_pcall(lower_unit_t *lu, tree_t pcall)
-- 
2.43.0


From 4720b0ba2fee8d4bdad8e382defa9f87b344a8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:49 +0000
Subject: [PATCH 37/60] fix: crash on an aggregate with an allocator for a
 recursive access type

---
 src/lower.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lower.c b/src/lower.c
index 46eae85..a52c99b 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -161,6 +161,7 @@ static vcode_reg_t lower_get_type_bounds(lower_unit_t *lu, type_t type);
 static vcode_reg_t lower_attr_prefix(lower_unit_t *lu, tree_t prefix);
 static void lower_subprogram_ports(lower_unit_t *lu, tree_t body,
                                    bool params_as_vars);
+static vcode_reg_t lower_incomplete_access(vcode_reg_t in_reg, type_t type);
 static vcode_type_t lower_func_result_type(type_t result);
 static vcode_reg_t lower_context_for_call(lower_unit_t *lu, ident_t unit_name);
 static void lower_driver_field_cb(lower_unit_t *lu, tree_t field,
@@ -3553,6 +3554,11 @@ static vcode_reg_t lower_record_aggregate(lower_unit_t *lu, tree_t expr,
          }
          else if (type_is_record(ftype))
             emit_copy(ptr_reg, vals[i], VCODE_INVALID_REG);
+         else if (type_is_access(ftype)) {
+            type_t designated = type_designated(ftype);
+            vcode_reg_t src_reg = lower_incomplete_access(vals[i], designated);
+            emit_store_indirect(src_reg, ptr_reg);
+         }
          else
             emit_store_indirect(vals[i], ptr_reg);
       }
-- 
2.43.0


From 4a8553f8b6219da5b122cbd7f9245c58439fcf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:08 +0000
Subject: [PATCH 38/60] fix: wrong choice of a case with a constant expression
 and a range choice

---
 src/simp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simp.c b/src/simp.c
index 540a285..b5b7963 100644
--- a/src/simp.c
+++ b/src/simp.c
@@ -909,6 +909,7 @@ static bool simp_match_case_choice(tree_t alt, int64_t ival)
             else if (ival >= low && ival <= high)
                return true;
          }
+         break;
 
       case A_OTHERS:
          return true;
-- 
2.43.0


From 65a970bccce419cee46b7c682dbeae94ebae9c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:03 +0000
Subject: [PATCH 39/60] fix: wrong value of elements when filling a small array
 with a negative constant

---
 src/jit/jit-optim.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jit/jit-optim.c b/src/jit/jit-optim.c
index 56de995..3479641 100644
--- a/src/jit/jit-optim.c
+++ b/src/jit/jit-optim.c
@@ -878,8 +878,8 @@ static void jit_lvn_memset(jit_ir_t *ir, lvn_state_t *state)
          0xff, 0xffff, 0xffffffff, 0xffffffffffffffff
       };
 
-      uint64_t bits = value;
-      if (value == 0) {
+      uint64_t bits = value & mask[ir->size];
+      if (bits == 0) {
          ir->op = MACRO_BZERO;
          ir->size = JIT_SZ_UNSPEC;
          ir->arg2.kind = JIT_VALUE_INVALID;
-- 
2.43.0


From adcf104244fdbfc8d22e05302c684f7bb8118df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:44 +0000
Subject: [PATCH 40/60] fix: crash assigning an unconstrained variable of an
 enclosing region

---
 src/lower.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index a52c99b..686b46e 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -2697,12 +2697,12 @@ static vcode_reg_t lower_var_ref(lower_unit_t *lu, tree_t decl, expr_ctx_t ctx)
       ptr_reg = emit_var_upref(hops, var);
 
    if (ptr_reg != VCODE_INVALID_REG) {
-      if (ctx == EXPR_LVALUE)
+      if (have_uarray_ptr(ptr_reg))
+         return emit_load_indirect(ptr_reg);
+      else if (ctx == EXPR_LVALUE)
          return ptr_reg;
       else if (type_is_scalar(type))
          return emit_load_indirect(ptr_reg);
-      else if (have_uarray_ptr(ptr_reg))
-         return emit_load_indirect(ptr_reg);
       else
          return ptr_reg;
    }
-- 
2.43.0


From aa7af7d1f8e4ae06dc43f8c647fa513db3730563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:41 +0000
Subject: [PATCH 41/60] fix: spurious overflow error after folding checked
 arithmetic in the JIT

---
 src/jit/jit-optim.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/jit/jit-optim.c b/src/jit/jit-optim.c
index 3479641..4e06a93 100644
--- a/src/jit/jit-optim.c
+++ b/src/jit/jit-optim.c
@@ -347,6 +347,12 @@ static inline bool lvn_can_fold(jit_ir_t *ir, lvn_state_t *state,
 
 static void lvn_convert_mov(jit_ir_t *ir, lvn_state_t *state, jit_value_t value)
 {
+   if (ir->cc == JIT_CC_O || ir->cc == JIT_CC_C) {
+      // The result is known not to overflow and the move does not set
+      // the flags which the following jump tests
+      state->regvn[state->func->nregs] = 0;
+   }
+
    ir->op        = J_MOV;
    ir->size      = JIT_SZ_UNSPEC;
    ir->cc        = JIT_CC_NONE;
@@ -607,7 +613,8 @@ static void jit_lvn_sub(jit_ir_t *ir, lvn_state_t *state)
    if (lvn_can_fold(ir, state, &lhs, &rhs)) {
 #define FOLD_SUB(type) do {                                             \
          type result;                                                   \
-         if (!__builtin_sub_overflow(lhs, rhs, &result)) {              \
+         if (!__builtin_sub_overflow(lhs, rhs, &result)                 \
+             && (ir->cc != JIT_CC_C || result >= 0)) {                  \
             lvn_convert_mov(ir, state, LVN_CONST(result));              \
             return;                                                     \
          }                                                              \
-- 
2.43.0


From 672e3337d28ab2aa3dc05b913fc6c59d3384a678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:00 +0000
Subject: [PATCH 42/60] fix: check the value of a return statement against the
 result subtype

---
 src/lower.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lower.c b/src/lower.c
index 686b46e..b74003f 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -6384,7 +6384,8 @@ static void lower_return(lower_unit_t *lu, tree_t stmt)
       result_reg = lower_rvalue(lu, value);
 
       if (type_is_scalar(type))
-         lower_check_scalar_bounds(lu, result_reg, type, value, NULL);
+         lower_check_scalar_bounds(lu, result_reg, tree_type(stmt),
+                                   value, NULL);
       else if (type_is_access(type)) {
          type_t access = type_designated(type);
          result_reg = lower_incomplete_access(result_reg, access);
-- 
2.43.0


From 1fa9f2b1c1b69f91346c1424f0316a34fe66ce4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:13 +0000
Subject: [PATCH 43/60] fix: crash on a real constant that is not a number

---
 src/mir/mir-type.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mir/mir-type.c b/src/mir/mir-type.c
index 931d6e7..3928c44 100644
--- a/src/mir/mir-type.c
+++ b/src/mir/mir-type.c
@@ -924,6 +924,9 @@ mir_stamp_t mir_int_stamp(mir_unit_t *mu, int64_t low, int64_t high)
 
 mir_stamp_t mir_real_stamp(mir_unit_t *mu, double low, double high)
 {
+   if (isnan(low) || isnan(high))
+      return MIR_NULL_STAMP;   // Not a number, such as 0.0 / 0.0
+
    assert(low <= high);
 
    const stamp_data_t sd = {
-- 
2.43.0


From 75a66b24d957bdfadec93ab6e479b3aa738bd792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:31 +0000
Subject: [PATCH 44/60] fix: wrong fill value of sra and sla

---
 src/vhdl/vhdl-predef.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/vhdl/vhdl-predef.c b/src/vhdl/vhdl-predef.c
index 3fe340b..691407c 100644
--- a/src/vhdl/vhdl-predef.c
+++ b/src/vhdl/vhdl-predef.c
@@ -78,27 +78,35 @@ static void predef_bit_shift(mir_unit_t *mu, tree_t decl,
    mir_block_t body_bb = mir_add_block(mu);
    mir_block_t exit_bb = mir_add_block(mu);
 
+   mir_value_t shift_cast = mir_build_cast(mu, t_offset, shift);
+   mir_value_t shift_is_neg = mir_build_cmp(mu, MIR_CMP_LT, shift_cast, zero);
+
    mir_value_t def_val = MIR_NULL_VALUE;
    switch (kind) {
    case S_SLL: case S_SRL: case S_ROL: case S_ROR:
       def_val = zero;
       break;
-   case S_SRA:
+   case S_SRA: case S_SLA:
       {
+         // The leftmost element is repeated when shifting right and the
+         // rightmost when shifting left
          mir_value_t len_minus_1 = mir_build_sub(mu, t_offset, len, one);
-         mir_value_t last_ptr = mir_build_array_ref(mu, data, len_minus_1);
-         def_val = mir_build_load(mu, last_ptr);
+         mir_value_t def_idx;
+         if (kind == S_SRA)
+            def_idx = mir_build_select(mu, t_offset, shift_is_neg,
+                                       len_minus_1, zero);
+         else
+            def_idx = mir_build_select(mu, t_offset, shift_is_neg,
+                                       zero, len_minus_1);
+
+         mir_value_t def_ptr = mir_build_array_ref(mu, data, def_idx);
+         def_val = mir_build_load(mu, def_ptr);
       }
       break;
-   case S_SLA:
-      def_val = mir_build_load(mu, data);
-      break;
    default:
       should_not_reach_here();
    }
 
-   mir_value_t shift_cast = mir_build_cast(mu, t_offset, shift);
-   mir_value_t shift_is_neg = mir_build_cmp(mu, MIR_CMP_LT, shift_cast, zero);
    mir_build_jump(mu, cmp_bb);
 
    mir_set_cursor(mu, cmp_bb, MIR_APPEND);
-- 
2.43.0


From 6659f4f12653a6ba11ef734b1a20de90acd102ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:31 +0000
Subject: [PATCH 45/60] fix: crash when shifting a bit vector by a very large
 distance

---
 src/vhdl/vhdl-predef.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/vhdl/vhdl-predef.c b/src/vhdl/vhdl-predef.c
index 691407c..648541b 100644
--- a/src/vhdl/vhdl-predef.c
+++ b/src/vhdl/vhdl-predef.c
@@ -79,6 +79,19 @@ static void predef_bit_shift(mir_unit_t *mu, tree_t decl,
    mir_block_t exit_bb = mir_add_block(mu);
 
    mir_value_t shift_cast = mir_build_cast(mu, t_offset, shift);
+
+   // Limit the distance so the calculations below cannot overflow
+   if (kind == S_ROL || kind == S_ROR)
+      shift_cast = mir_build_mod(mu, t_offset, shift_cast, len);
+   else {
+      mir_value_t min = mir_build_neg(mu, t_offset, len);
+      mir_value_t above = mir_build_cmp(mu, MIR_CMP_GT, shift_cast, len);
+      mir_value_t below = mir_build_cmp(mu, MIR_CMP_LT, shift_cast, min);
+
+      shift_cast = mir_build_select(mu, t_offset, above, len, shift_cast);
+      shift_cast = mir_build_select(mu, t_offset, below, min, shift_cast);
+   }
+
    mir_value_t shift_is_neg = mir_build_cmp(mu, MIR_CMP_LT, shift_cast, zero);
 
    mir_value_t def_val = MIR_NULL_VALUE;
-- 
2.43.0


From 92ee8fb491cbe24e278332b801ea7118b06b885e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:19 +0000
Subject: [PATCH 46/60] fix: overflow subtracting from zero was not detected

---
 src/vcode.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vcode.c b/src/vcode.c
index 8bb0a8f..c5e3ffc 100644
--- a/src/vcode.c
+++ b/src/vcode.c
@@ -4106,6 +4106,8 @@ static vcode_reg_t emit_sub_op(vcode_op_t op, vcode_reg_t lhs, vcode_reg_t rhs,
       return emit_const(vcode_reg_type(lhs), lconst - rconst);
    else if (r_is_const && rconst == 0)
       return lhs;
+   else if (l_is_const && lconst == 0 && op == VCODE_OP_TRAP_SUB)
+      return emit_trap_neg(rhs, locus);
    else if (l_is_const && lconst == 0)
       return emit_neg(rhs);
 
-- 
2.43.0


From 1e6acf46bba7a39795f9254877a42360ba05c0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:12 +0000
Subject: [PATCH 47/60] fix: overflow message truncated the operands to 32 bits

---
 src/jit/jit-exits.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jit/jit-exits.c b/src/jit/jit-exits.c
index ce6c13a..e8c2a6f 100644
--- a/src/jit/jit-exits.c
+++ b/src/jit/jit-exits.c
@@ -557,8 +557,8 @@ void __nvc_do_exit(jit_exit_t which, jit_anchor_t *anchor, jit_scalar_t *args,
 
    case JIT_EXIT_OVERFLOW:
       {
-         int32_t lhs   = args[0].integer;
-         int32_t rhs   = args[1].integer;
+         int64_t lhs   = args[0].integer;
+         int64_t rhs   = args[1].integer;
          tree_t  where = args[2].pointer;
 
          x_overflow(lhs, rhs, where);
-- 
2.43.0


From 05dfddbe8ceee1ddb4f721aa501bf3a7abc26a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:58 +0000
Subject: [PATCH 48/60] fix: check the operand of a qualified expression
 against its subtype

---
 src/lower.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index b74003f..ace723d 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -5059,10 +5059,21 @@ static vcode_reg_t lower_qualified(lower_unit_t *lu, tree_t expr)
 
    vcode_reg_t value_reg = lower_rvalue(lu, value);
 
-   if (type_is_array(to_type))
+   if (type_is_array(to_type)) {
+      if (!type_is_unconstrained(to_type)) {
+         vcode_reg_t locus = lower_debug_locus(expr);
+         lower_check_array_sizes(lu, to_type, from_type, VCODE_INVALID_REG,
+                                 value_reg, locus);
+      }
+
       return lower_coerce_arrays(lu, from_type, to_type, value_reg);
-   else
+   }
+   else {
+      if (type_is_scalar(to_type))
+         lower_check_scalar_bounds(lu, value_reg, to_type, expr, NULL);
+
       return value_reg;
+   }
 }
 
 static vcode_reg_t lower_cond_value(lower_unit_t *lu, tree_t expr)
-- 
2.43.0


From 126228108e3530f1a3046d54a43dd6b07455f89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:55 +0000
Subject: [PATCH 49/60] fix: missing range check when dividing by a negative
 constant

---
 src/vcode.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vcode.c b/src/vcode.c
index c5e3ffc..9f7eb35 100644
--- a/src/vcode.c
+++ b/src/vcode.c
@@ -3963,7 +3963,10 @@ vcode_reg_t emit_div(vcode_reg_t lhs, vcode_reg_t rhs)
 
    if (bl->kind == VCODE_TYPE_INT && r_is_const && rconst != 0) {
       reg_t *rr = vcode_reg_data(reg);
-      rr->bounds = vtype_int(bl->low / rconst, bl->high / rconst);
+      if (rconst > 0)
+         rr->bounds = vtype_int(bl->low / rconst, bl->high / rconst);
+      else if (rconst < -1 || bl->low > INT64_MIN)
+         rr->bounds = vtype_int(bl->high / rconst, bl->low / rconst);
    }
    else if (bl->kind == VCODE_TYPE_REAL) {
       reg_t *rr = vcode_reg_data(reg);
-- 
2.43.0


From 83ba626aef1d77fee4a9af7d892a65e87533ad38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:08 +0000
Subject: [PATCH 50/60] fix: crash dividing the smallest integer by minus one

---
 src/jit/jit-interp.c | 10 ++++++++--
 src/jit/jit-llvm.c   | 27 +++++++++++++++++++++++++--
 src/jit/jit-optim.c  |  4 ++--
 src/mir/mir-node.c   |  2 +-
 src/vcode.c          |  3 ++-
 5 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/jit/jit-interp.c b/src/jit/jit-interp.c
index 69ec3f9..5f137fa 100644
--- a/src/jit/jit-interp.c
+++ b/src/jit/jit-interp.c
@@ -313,7 +313,10 @@ static void interp_div(jit_interp_t *state, jit_ir_t *ir)
    const int64_t arg1 = interp_get_int(state, ir->arg1);
    const int64_t arg2 = interp_get_int(state, ir->arg2);
 
-   state->regs[ir->result].integer = arg1 / arg2;
+   if (unlikely(arg2 == -1))
+      state->regs[ir->result].integer = -(uint64_t)arg1;
+   else
+      state->regs[ir->result].integer = arg1 / arg2;
 }
 
 static void interp_fdiv(jit_interp_t *state, jit_ir_t *ir)
@@ -574,7 +577,10 @@ static void interp_rem(jit_interp_t *state, jit_ir_t *ir)
    const int64_t x = interp_get_int(state, ir->arg1);
    const int64_t y = interp_get_int(state, ir->arg2);
 
-   state->regs[ir->result].integer = x - (x / y) * y;
+   if (unlikely(y == -1))
+      state->regs[ir->result].integer = 0;
+   else
+      state->regs[ir->result].integer = x - (x / y) * y;
 }
 
 static void interp_clamp(jit_interp_t *state, jit_ir_t *ir)
diff --git a/src/jit/jit-llvm.c b/src/jit/jit-llvm.c
index 256c5a5..0d10085 100644
--- a/src/jit/jit-llvm.c
+++ b/src/jit/jit-llvm.c
@@ -1621,8 +1621,22 @@ static void cgen_op_div(llvm_obj_t *obj, cgen_block_t *cgb, jit_ir_t *ir)
    LLVMValueRef arg1 = cgen_get_value(obj, cgb, ir->arg1);
    LLVMValueRef arg2 = cgen_get_value(obj, cgb, ir->arg2);
 
-   cgb->outregs[ir->result] = LLVMBuildSDiv(obj->builder, arg1, arg2,
-                                            cgen_reg_name(ir->result));
+   if (LLVMIsConstant(arg2))
+      cgb->outregs[ir->result] = LLVMBuildSDiv(obj->builder, arg1, arg2,
+                                               cgen_reg_name(ir->result));
+   else {
+      // The quotient of the smallest integer and minus one overflows
+      LLVMValueRef minus1 = llvm_int64(obj, -1);
+      LLVMValueRef is_minus1 =
+         LLVMBuildICmp(obj->builder, LLVMIntEQ, arg2, minus1, "");
+      LLVMValueRef safe = LLVMBuildSelect(obj->builder, is_minus1,
+                                          llvm_int64(obj, 1), arg2, "");
+      LLVMValueRef quot = LLVMBuildSDiv(obj->builder, arg1, safe, "");
+      LLVMValueRef neg = LLVMBuildNeg(obj->builder, arg1, "");
+      cgb->outregs[ir->result] = LLVMBuildSelect(obj->builder, is_minus1, neg,
+                                                 quot,
+                                                 cgen_reg_name(ir->result));
+   }
 }
 
 static void cgen_op_rem(llvm_obj_t *obj, cgen_block_t *cgb, jit_ir_t *ir)
@@ -1630,6 +1644,15 @@ static void cgen_op_rem(llvm_obj_t *obj, cgen_block_t *cgb, jit_ir_t *ir)
    LLVMValueRef arg1 = cgen_get_value(obj, cgb, ir->arg1);
    LLVMValueRef arg2 = cgen_get_value(obj, cgb, ir->arg2);
 
+   if (!LLVMIsConstant(arg2)) {
+      // The remainder of any number and minus one is zero
+      LLVMValueRef minus1 = llvm_int64(obj, -1);
+      LLVMValueRef is_minus1 =
+         LLVMBuildICmp(obj->builder, LLVMIntEQ, arg2, minus1, "");
+      arg2 = LLVMBuildSelect(obj->builder, is_minus1, llvm_int64(obj, 1),
+                             arg2, "");
+   }
+
    cgb->outregs[ir->result] = LLVMBuildSRem(obj->builder, arg1, arg2,
                                             cgen_reg_name(ir->result));
 }
diff --git a/src/jit/jit-optim.c b/src/jit/jit-optim.c
index 4e06a93..2bfb887 100644
--- a/src/jit/jit-optim.c
+++ b/src/jit/jit-optim.c
@@ -556,8 +556,8 @@ static void jit_lvn_div(jit_ir_t *ir, lvn_state_t *state)
       lvn_kill_flags(state);
 
    int64_t lhs, rhs;
-   if (lvn_can_fold(ir, state, &lhs, &rhs) && rhs != 0) {
-      // XXX: potential bug here with INT_MIN/-1
+   if (lvn_can_fold(ir, state, &lhs, &rhs) && rhs != 0
+       && (rhs != -1 || lhs != INT64_MIN)) {
 #define FOLD_DIV(type) do {                                             \
          type result = (type)lhs / (type)rhs;                           \
          lvn_convert_mov(ir, state, LVN_CONST(result));                 \
diff --git a/src/mir/mir-node.c b/src/mir/mir-node.c
index 7cab9ba..72766e9 100644
--- a/src/mir/mir-node.c
+++ b/src/mir/mir-node.c
@@ -1166,7 +1166,7 @@ mir_value_t mir_build_div(mir_unit_t *mu, mir_type_t type, mir_value_t left,
    const bool lconst = mir_get_const(mu, left, &lval);
    const bool rconst = mir_get_const(mu, right, &rval);
 
-   if (lconst && rconst && rval != 0)
+   if (lconst && rconst && rval != 0 && (rval != -1 || lval != INT64_MIN))
       return mir_const(mu, type, lval / rval);
    else if (rconst && rval == 1)
       return left;
diff --git a/src/vcode.c b/src/vcode.c
index 9f7eb35..3b4e673 100644
--- a/src/vcode.c
+++ b/src/vcode.c
@@ -3952,7 +3952,8 @@ vcode_reg_t emit_div(vcode_reg_t lhs, vcode_reg_t rhs)
    int64_t lconst, rconst;
    const bool l_is_const = vcode_reg_const(lhs, &lconst);
    const bool r_is_const = vcode_reg_const(rhs, &rconst);
-   if (l_is_const && r_is_const && rconst != 0)
+   if (l_is_const && r_is_const && rconst != 0
+       && (rconst != -1 || lconst != INT64_MIN))
       return emit_const(vcode_reg_type(lhs), lconst / rconst);
    else if (r_is_const && rconst == 1)
       return lhs;
-- 
2.43.0


From 0ecc708fa95b83f7ed45a77d87cbf96a67216972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:39 +0000
Subject: [PATCH 51/60] fix: wrong result comparing two null arrays with < or
 >=

---
 src/lower.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lower.c b/src/lower.c
index ace723d..e3a0ea2 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -10337,7 +10337,17 @@ static void lower_array_cmp_inner(lower_unit_t *lu,
       vcode_block_t check_r_len_bb = emit_block();
 
       vcode_reg_t len_ge_l = emit_cmp(VCODE_CMP_GEQ, i_loaded, left_len);
-      emit_cond(len_ge_l, exit_bb, check_r_len_bb);
+
+      if (pred == VCODE_CMP_LT) {
+         // The only equal arrays that get here are two null arrays
+         vcode_block_t prefix_bb = emit_block();
+         emit_cond(len_ge_l, prefix_bb, check_r_len_bb);
+
+         vcode_select_block(prefix_bb);
+         emit_cond(len_eq, fail_bb, exit_bb);
+      }
+      else
+         emit_cond(len_ge_l, exit_bb, check_r_len_bb);
 
       vcode_select_block(check_r_len_bb);
 
-- 
2.43.0


From 8983143adef3a1690d82f7b9e32658e7d07ac7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:35 +0000
Subject: [PATCH 52/60] fix: arrays with different dimensions could compare
 equal

---
 src/lower.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/lower.c b/src/lower.c
index e3a0ea2..00cfc34 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -10318,6 +10318,21 @@ static void lower_array_cmp_inner(lower_unit_t *lu,
 
    vcode_reg_t len_eq = emit_cmp(VCODE_CMP_EQ, left_len, right_len);
 
+   if (ndims > 1) {
+      // The lengths must match in every dimension unless both are null
+      vcode_reg_t dims_eq = len_eq;
+      for (int i = 0; i < ndims; i++) {
+         vcode_reg_t l_dim = lower_array_len(lu, left_type, i, lhs_array);
+         vcode_reg_t r_dim = lower_array_len(lu, right_type, i, rhs_array);
+         dims_eq = emit_and(dims_eq, emit_cmp(VCODE_CMP_EQ, l_dim, r_dim));
+      }
+
+      vcode_reg_t zero_reg = emit_const(voffset, 0);
+      vcode_reg_t l_null = emit_cmp(VCODE_CMP_EQ, left_len, zero_reg);
+      vcode_reg_t r_null = emit_cmp(VCODE_CMP_EQ, right_len, zero_reg);
+      len_eq = emit_or(dims_eq, emit_and(l_null, r_null));
+   }
+
    if (pred == VCODE_CMP_EQ)
       emit_cond(len_eq, test_bb, fail_bb);
    else
-- 
2.43.0


From 5d9f9ac49bc8673c73a6ca9d7e5a2348d9cb9fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:09 +0000
Subject: [PATCH 53/60] fix: race allocating the private data pointer of a
 package or instance

---
 src/jit/jit-core.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/jit/jit-core.c b/src/jit/jit-core.c
index 1c59b45..90309af 100644
--- a/src/jit/jit-core.c
+++ b/src/jit/jit-core.c
@@ -490,10 +490,19 @@ void *jit_link(jit_t *j, jit_handle_t handle)
 
 void **jit_get_privdata_ptr(jit_t *j, jit_func_t *f)
 {
-   if (f->privdata == MPTR_INVALID)
-      f->privdata = mptr_new(j->mspace, "privdata");
+   mptr_t ptr = load_acquire(&f->privdata);
+   if (ptr == MPTR_INVALID) {
+      // May be called concurrently by a background compilation
+      mptr_t new = mptr_new(j->mspace, "privdata");
+      if (atomic_cas(&f->privdata, MPTR_INVALID, new))
+         ptr = new;
+      else {
+         mptr_free(j->mspace, &new);
+         ptr = load_acquire(&f->privdata);
+      }
+   }
 
-   return mptr_get(f->privdata);
+   return mptr_get(ptr);
 }
 
 void *jit_get_frame_var(jit_t *j, jit_handle_t handle, ident_t name)
-- 
2.43.0


From 1ad3be52d771e96d2644ce22f02af95d95f48d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:09 +0000
Subject: [PATCH 54/60] fix: crash on loop that always returns in a procedure
 that may wait

---
 src/lower.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index 00cfc34..0c76e5e 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -6621,18 +6621,18 @@ static void lower_for(lower_unit_t *lu, tree_t stmt, loop_stack_t *loops)
       vcode_select_block(this.test_bb);
    }
 
-   vcode_reg_t rightn_reg = right_reg;
-   if (right_var != VCODE_INVALID_VAR)
-      rightn_reg = emit_load(right_var);
+   if (!vcode_block_finished()) {
+      vcode_reg_t rightn_reg = right_reg;
+      if (right_var != VCODE_INVALID_VAR)
+         rightn_reg = emit_load(right_var);
 
-   vcode_reg_t stepn_reg = step_reg;
-   if (step_var != VCODE_INVALID_VAR)
-      stepn_reg = emit_load(step_var);
+      vcode_reg_t stepn_reg = step_reg;
+      if (step_var != VCODE_INVALID_VAR)
+         stepn_reg = emit_load(step_var);
 
-   if (ireg == VCODE_INVALID_REG)
-      ireg = emit_load(ivar);
+      if (ireg == VCODE_INVALID_REG)
+         ireg = emit_load(ivar);
 
-   if (!vcode_block_finished()) {
       vcode_reg_t next_reg = emit_add(ireg, stepn_reg);
       emit_store(next_reg, ivar);
 
-- 
2.43.0


From 0e1044cac5a3348238876eb329954e1bea82f142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:59 +0000
Subject: [PATCH 55/60] fix: arrays of different element subtypes could share
 bounds in vcode

---
 src/vcode.c | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/vcode.c b/src/vcode.c
index 3b4e673..813cb9f 100644
--- a/src/vcode.c
+++ b/src/vcode.c
@@ -2430,6 +2430,36 @@ void vcode_dump(void)
    vcode_dump_with_mark(-1, NULL, NULL);
 }
 
+static bool vtype_same(vcode_type_t a, vcode_type_t b)
+{
+   // Like vtype_eq but the bounds of array elements must match as well
+
+   if (a == b)
+      return true;
+   else if (!vtype_eq(a, b))
+      return false;
+
+   const vtype_t *at = vcode_type_data(a);
+   const vtype_t *bt = vcode_type_data(b);
+
+   switch (at->kind) {
+   case VCODE_TYPE_CARRAY:
+   case VCODE_TYPE_UARRAY:
+      return vtype_same(at->elem, bt->elem)
+         && vtype_same(at->bounds, bt->bounds);
+   case VCODE_TYPE_POINTER:
+   case VCODE_TYPE_ACCESS:
+      return vtype_same(at->pointed, bt->pointed);
+   case VCODE_TYPE_RESOLUTION:
+   case VCODE_TYPE_CLOSURE:
+   case VCODE_TYPE_SIGNAL:
+   case VCODE_TYPE_FILE:
+      return vtype_same(at->base, bt->base);
+   default:
+      return true;
+   }
+}
+
 static vcode_type_t vtype_new(vtype_t *new)
 {
    int index = active_unit->types.count - 1;
@@ -2437,7 +2467,7 @@ static vcode_type_t vtype_new(vtype_t *new)
 
    for (int i = 0; i < index; i++) {
       vcode_type_t this = MAKE_HANDLE(active_unit->depth, i);
-      if (vtype_eq(this, type)) {
+      if (vtype_same(this, type)) {
          active_unit->types.count--;
          return this;
       }
-- 
2.43.0


From 429f8eebc64fe9e845ea8b29462ae384ce56c0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:14 +0000
Subject: [PATCH 56/60] fix: race between background and ahead-of-time
 compilation of a function

---
 src/jit/jit-llvm.c  |  6 ++++--
 src/jit/jit-optim.c | 42 ++++++++++++++++++++++++++----------------
 src/jit/jit-priv.h  |  2 ++
 3 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/jit/jit-llvm.c b/src/jit/jit-llvm.c
index 0d10085..013b439 100644
--- a/src/jit/jit-llvm.c
+++ b/src/jit/jit-llvm.c
@@ -2970,7 +2970,9 @@ static void cgen_function(llvm_obj_t *obj, cgen_func_t *func)
    cgen_frame_anchor(obj, func);
    cgen_cache_args(obj, func);
 
-   jit_cfg_t *cfg = func->cfg = jit_get_cfg(func->source);
+   // The function may be compiled by several threads at once so this must
+   // not use the cached CFG in the source function
+   jit_cfg_t *cfg = func->cfg = jit_build_cfg(func->source);
    cgen_reexecute_guard(obj, func, cfg);
    cgen_basic_blocks(obj, func, cfg);
 
@@ -3101,7 +3103,7 @@ static void cgen_function(llvm_obj_t *obj, cgen_func_t *func)
    LLVMPositionBuilderAtEnd(obj->builder, entry_bb);
    LLVMBuildBr(obj->builder, func->blocks[0].bbref);
 
-   jit_free_cfg(func->source);
+   jit_destroy_cfg(cfg);
    func->cfg = cfg = NULL;
 
    mask_free(&(func->ptr_mask));
diff --git a/src/jit/jit-optim.c b/src/jit/jit-optim.c
index 2bfb887..d3c7f4d 100644
--- a/src/jit/jit-optim.c
+++ b/src/jit/jit-optim.c
@@ -158,11 +158,8 @@ static void cfg_liveness(jit_cfg_t *cfg, jit_func_t *f)
    mask_free(&tmp);
 }
 
-jit_cfg_t *jit_get_cfg(jit_func_t *f)
+jit_cfg_t *jit_build_cfg(jit_func_t *f)
 {
-   if (f->cfg != NULL)
-      return f->cfg;
-
    int nb = 1;
    for (int i = 0, first = 0; i < f->nirs; i++) {
       jit_ir_t *ir = &(f->irbuf[i]);
@@ -218,23 +215,36 @@ jit_cfg_t *jit_get_cfg(jit_func_t *f)
 
    cfg_liveness(cfg, f);
 
-   return (f->cfg = cfg);
+   return cfg;
+}
+
+void jit_destroy_cfg(jit_cfg_t *cfg)
+{
+   for (int i = 0; i < cfg->nblocks; i++) {
+      jit_block_t *b = &(cfg->blocks[i]);
+      mask_free(&b->livein);
+      mask_free(&b->liveout);
+      mask_free(&b->varkill);
+
+      if (b->in.max > 4) free(b->in.u.external);
+      if (b->out.max > 4) free(b->out.u.external);
+   }
+
+   free(cfg);
+}
+
+jit_cfg_t *jit_get_cfg(jit_func_t *f)
+{
+   if (f->cfg == NULL)
+      f->cfg = jit_build_cfg(f);
+
+   return f->cfg;
 }
 
 void jit_free_cfg(jit_func_t *f)
 {
    if (f->cfg != NULL) {
-      for (int i = 0; i < f->cfg->nblocks; i++) {
-         jit_block_t *b = &(f->cfg->blocks[i]);
-         mask_free(&b->livein);
-         mask_free(&b->liveout);
-         mask_free(&b->varkill);
-
-         if (b->in.max > 4) free(b->in.u.external);
-         if (b->out.max > 4) free(b->out.u.external);
-      }
-
-      free(f->cfg);
+      jit_destroy_cfg(f->cfg);
       f->cfg = NULL;
    }
 }
diff --git a/src/jit/jit-priv.h b/src/jit/jit-priv.h
index 7bbb269..db4d945 100644
--- a/src/jit/jit-priv.h
+++ b/src/jit/jit-priv.h
@@ -381,6 +381,8 @@ int32_t *jit_get_cover_ptr(jit_t *j, jit_value_t addr);
 jit_entry_fn_t jit_bind_intrinsic(ident_t name);
 jit_thread_local_t *jit_attach_thread(jit_anchor_t *anchor);
 
+jit_cfg_t *jit_build_cfg(jit_func_t *f);
+void jit_destroy_cfg(jit_cfg_t *cfg);
 jit_cfg_t *jit_get_cfg(jit_func_t *f);
 void jit_free_cfg(jit_func_t *f);
 jit_block_t *jit_block_for(jit_cfg_t *cfg, int pos);
-- 
2.43.0


From a36b47172fb5a2e8289adddab1bd3ecf3f4f6f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:10 +0000
Subject: [PATCH 57/60] fix: result of a scalar out parameter not checked
 against the actual

---
 src/lower.c | 83 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 83 insertions(+)

diff --git a/src/lower.c b/src/lower.c
index 0c76e5e..cf9e609 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -6413,6 +6413,46 @@ static void lower_return(lower_unit_t *lu, tree_t stmt)
    emit_return(result_reg);
 }
 
+static bool lower_copy_out_param(tree_t port, tree_t value)
+{
+   // Scalar out and inout parameters are passed by reference unless the
+   // actual could hold a value which does not belong to the formal subtype
+   // or the other way around
+
+   if (tree_class(port) != C_VARIABLE || tree_subkind(port) == PORT_IN)
+      return false;
+
+   switch (tree_kind(value)) {
+   case T_REF:
+   case T_ARRAY_REF:
+   case T_RECORD_REF:
+   case T_ALL:
+      break;
+   default:
+      return false;
+   }
+
+   type_t formal = tree_type(port);
+   type_t actual = tree_type(value);
+
+   if (!type_is_scalar(formal) || formal == actual)
+      return false;
+
+   tree_t fr = range_of(formal, 0);
+   tree_t ar = range_of(actual, 0);
+
+   int64_t flow, fhigh, alow, ahigh;
+   if (folded_bounds(fr, &flow, &fhigh) && folded_bounds(ar, &alow, &ahigh))
+      return flow != alow || fhigh != ahigh;
+
+   double frlow, frhigh, arlow, arhigh;
+   if (folded_bounds_real(fr, &frlow, &frhigh)
+       && folded_bounds_real(ar, &arlow, &arhigh))
+      return frlow != arlow || frhigh != arhigh;
+
+   return true;
+}
+
 static void lower_pcall(lower_unit_t *lu, tree_t pcall)
 {
    lower_stmt_coverage(lu, pcall);
@@ -6458,11 +6498,44 @@ static void lower_pcall(lower_unit_t *lu, tree_t pcall)
    else
       APUSH(args, lower_context_for_call(lu, name));
 
+   typedef struct {
+      vcode_var_t  var;
+      vcode_reg_t  ptr;
+      tree_t       value;
+   } copy_out_t;
+
+   int ncopies = 0;
+   copy_out_t *copies LOCAL = NULL;
+
    const int arg0 = args.count;
    for (int i = 0; i < nparams; i++) {
       vcode_reg_t arg_reg = lower_subprogram_arg(lu, pcall, i);
       if (!use_fcall)
          vcode_heap_allocate(arg_reg);
+      else {
+         tree_t port = tree_port(decl, i);
+         tree_t value = tree_value(tree_param(pcall, i));
+
+         if (lower_copy_out_param(port, value)) {
+            type_t type = tree_type(port);
+
+            if (copies == NULL)
+               copies = xcalloc_array(nparams, sizeof(copy_out_t));
+
+            copy_out_t *c = &(copies[ncopies++]);
+            c->var   = lower_temp_var(lu, "copy", lower_type(type),
+                                      lower_bounds(type));
+            c->ptr   = arg_reg;
+            c->value = value;
+
+            if (tree_subkind(port) == PORT_OUT)
+               emit_store(lower_scalar_type_left(lu, type), c->var);
+            else
+               emit_store(emit_load_indirect(arg_reg), c->var);
+
+            arg_reg = emit_index(c->var, VCODE_INVALID_REG);
+         }
+      }
 
       APUSH(args, arg_reg);
    }
@@ -6478,6 +6551,16 @@ static void lower_pcall(lower_unit_t *lu, tree_t pcall)
       emit_resume(name);
    }
 
+   // Copy back scalar out parameters with a different subtype
+   for (int i = 0; i < ncopies; i++) {
+      const copy_out_t *c = &(copies[i]);
+      vcode_reg_t value_reg = emit_load(c->var);
+      lower_check_scalar_bounds(lu, value_reg, tree_type(c->value),
+                                c->value, NULL);
+      emit_store_indirect(value_reg, c->ptr);
+      lower_release_temp(lu, c->var);
+   }
+
    // Copy any out parameters passed as aggregates
    const int nports = tree_ports(decl);
    for (int i = 0; i < nports; i++) {
-- 
2.43.0


From a1a899ab5f21c8c175c59eb6162e524e3b777ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:34 +0000
Subject: [PATCH 58/60] fix: overflow of constants folded while generating code
 was not detected

An arithmetic operation whose operands became constant only during
lowering, for example through a variable with a known value, was folded
without checking that the result fits in the type.
---
 src/mir/mir-node.c | 24 +++++++++++++++++++++---
 src/vcode.c        | 18 +++++++++++++++---
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/mir/mir-node.c b/src/mir/mir-node.c
index 72766e9..b9cdbfe 100644
--- a/src/mir/mir-node.c
+++ b/src/mir/mir-node.c
@@ -980,6 +980,21 @@ static mir_value_t mir_build_arith(mir_unit_t *mu, mir_op_t op, mir_type_t type,
    return result;
 }
 
+static bool mir_const_fits(mir_unit_t *mu, mir_type_t type, int64_t value)
+{
+   switch (mir_get_repr(mu, type)) {
+   case MIR_REPR_U1:  return value >= 0 && value <= 1;
+   case MIR_REPR_U8:  return value >= 0 && value <= UINT8_MAX;
+   case MIR_REPR_U16: return value >= 0 && value <= UINT16_MAX;
+   case MIR_REPR_U32: return value >= 0 && value <= UINT32_MAX;
+   case MIR_REPR_U64: return value >= 0;
+   case MIR_REPR_I8:  return value >= INT8_MIN && value <= INT8_MAX;
+   case MIR_REPR_I16: return value >= INT16_MIN && value <= INT16_MAX;
+   case MIR_REPR_I32: return value >= INT32_MIN && value <= INT32_MAX;
+   default:           return true;
+   }
+}
+
 static mir_value_t mir_build_add_op(mir_unit_t *mu, mir_op_t op,
                                     mir_type_t type, mir_value_t left,
                                     mir_value_t right, mir_value_t locus)
@@ -992,7 +1007,8 @@ static mir_value_t mir_build_add_op(mir_unit_t *mu, mir_op_t op,
       return right;
    else if (rconst && rval == 0)
       return left;
-   else if (lconst && rconst && !__builtin_add_overflow(lval, rval, &cval))
+   else if (lconst && rconst && !__builtin_add_overflow(lval, rval, &cval)
+            && (op != MIR_OP_TRAP_ADD || mir_const_fits(mu, type, cval)))
       return mir_const(mu, type, cval);
 
    double lreal, rreal;
@@ -1036,7 +1052,8 @@ static mir_value_t mir_build_sub_op(mir_unit_t *mu, mir_op_t op,
 
    if (rconst && rval == 0)
       return left;
-   else if (lconst && rconst && !__builtin_sub_overflow(lval, rval, &cval))
+   else if (lconst && rconst && !__builtin_sub_overflow(lval, rval, &cval)
+            && (op != MIR_OP_TRAP_SUB || mir_const_fits(mu, type, cval)))
       return mir_const(mu, type, cval);
    else if (mir_equals(left, right))
       return mir_get_class(mu, type) == MIR_TYPE_REAL
@@ -1129,7 +1146,8 @@ static mir_value_t mir_build_mul_op(mir_unit_t *mu, mir_op_t op,
       return left;
    else if (rconst && rval == 0)
       return right;
-   else if (lconst && rconst && !__builtin_mul_overflow(lval, rval, &cval))
+   else if (lconst && rconst && !__builtin_mul_overflow(lval, rval, &cval)
+            && (op != MIR_OP_TRAP_MUL || mir_const_fits(mu, type, cval)))
       return mir_const(mu, type, cval);
 
    double lreal, rreal;
diff --git a/src/vcode.c b/src/vcode.c
index 813cb9f..1e70174 100644
--- a/src/vcode.c
+++ b/src/vcode.c
@@ -3903,13 +3903,21 @@ static vcode_reg_t emit_arith(vcode_op_t kind, vcode_reg_t lhs, vcode_reg_t rhs,
    return op->result;
 }
 
+static bool vcode_const_fits(vcode_reg_t reg, int64_t value)
+{
+   int64_t low = value, high = value;
+   return vtype_clamp_to_repr(vtype_repr(vcode_reg_type(reg)), &low, &high);
+}
+
 static vcode_reg_t emit_mul_op(vcode_op_t op, vcode_reg_t lhs, vcode_reg_t rhs,
                                vcode_reg_t locus)
 {
    int64_t lconst, rconst;
    const bool l_is_const = vcode_reg_const(lhs, &lconst);
    const bool r_is_const = vcode_reg_const(rhs, &rconst);
-   if (l_is_const && r_is_const)
+   if (l_is_const && r_is_const
+       && (op != VCODE_OP_TRAP_MUL
+           || vcode_const_fits(lhs, smul64(lconst, rconst))))
       return emit_const(vcode_reg_type(lhs), lconst * rconst);
    else if (r_is_const && rconst == 1)
       return lhs;
@@ -4080,7 +4088,9 @@ static vcode_reg_t emit_add_op(vcode_op_t op, vcode_reg_t lhs, vcode_reg_t rhs,
    int64_t lconst, rconst;
    const bool l_is_const = vcode_reg_const(lhs, &lconst);
    const bool r_is_const = vcode_reg_const(rhs, &rconst);
-   if (l_is_const && r_is_const)
+   if (l_is_const && r_is_const
+       && (op != VCODE_OP_TRAP_ADD
+           || vcode_const_fits(lhs, sadd64(lconst, rconst))))
       return emit_const(vcode_reg_type(lhs), lconst + rconst);
    else if (r_is_const && rconst == 0)
       return lhs;
@@ -4136,7 +4146,9 @@ static vcode_reg_t emit_sub_op(vcode_op_t op, vcode_reg_t lhs, vcode_reg_t rhs,
    int64_t lconst, rconst;
    const bool l_is_const = vcode_reg_const(lhs, &lconst);
    const bool r_is_const = vcode_reg_const(rhs, &rconst);
-   if (l_is_const && r_is_const)
+   if (l_is_const && r_is_const
+       && (op != VCODE_OP_TRAP_SUB
+           || vcode_const_fits(lhs, ssub64(lconst, rconst))))
       return emit_const(vcode_reg_type(lhs), lconst - rconst);
    else if (r_is_const && rconst == 0)
       return lhs;
-- 
2.43.0


From 5a31ca7545dec1605d2cfacf10986774bbde3096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:32 +0000
Subject: [PATCH 59/60] fix: operand of a short-circuit operator evaluated
 although it may fail

The right operand of and, or, nand and nor was evaluated unconditionally
when it contains only built-in operators, conversions and qualified
expressions, although these may fail a range or overflow check.
---
 src/lower.c | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index cf9e609..30b30c8 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -1906,7 +1906,8 @@ static void lower_logic_expr_coverage(lower_unit_t *lu, tree_t fcall,
 
 static bool lower_side_effect_free(tree_t expr)
 {
-   // True if expression is side-effect free with no function calls
+   // True if expression is side-effect free with no function calls and
+   // its evaluation cannot fail
    switch (tree_kind(expr)) {
    case T_REF:
    case T_LITERAL:
@@ -1914,12 +1915,25 @@ static bool lower_side_effect_free(tree_t expr)
       return true;
    case T_FCALL:
       {
-         const subprogram_kind_t kind = tree_subkind(tree_ref(expr));
-         if (kind == S_DIV || kind == S_DIV_PR || kind == S_DIV_RI
-             || kind == S_REM || kind == S_MOD)
-            return false;
-         else if (kind == S_USER || !is_open_coded_builtin(kind))
+         switch (tree_subkind(tree_ref(expr))) {
+         case S_IDENTITY:
+         case S_SCALAR_LT:
+         case S_SCALAR_LE:
+         case S_SCALAR_GT:
+         case S_SCALAR_GE:
+         case S_SCALAR_EQ:
+         case S_SCALAR_NEQ:
+         case S_SCALAR_AND:
+         case S_SCALAR_OR:
+         case S_SCALAR_NOT:
+         case S_SCALAR_NAND:
+         case S_SCALAR_NOR:
+         case S_SCALAR_XOR:
+         case S_SCALAR_XNOR:
+            break;
+         default:
             return false;
+         }
 
          const int nparams = tree_params(expr);
          for (int i = 0; i < nparams; i++) {
@@ -1931,9 +1945,12 @@ static bool lower_side_effect_free(tree_t expr)
       }
       break;
    case T_RECORD_REF:
+      return lower_side_effect_free(tree_value(expr));
    case T_QUALIFIED:
    case T_TYPE_CONV:
-      return lower_side_effect_free(tree_value(expr));
+      // The value may not belong to the subtype
+      return type_kind(tree_type(expr)) == T_ENUM
+         && lower_side_effect_free(tree_value(expr));
    case T_ATTR_REF:
       {
          const attr_kind_t kind = tree_subkind(expr);
-- 
2.43.0


From e588b78a0348a6cb2cbfe1db0555ed415f76b74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:26 +0000
Subject: [PATCH 60/60] fix: value of a static qualified expression not checked
 against its subtype

---
 src/common.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/common.c b/src/common.c
index 3c284aa..b9ee46c 100644
--- a/src/common.c
+++ b/src/common.c
@@ -79,7 +79,18 @@ bool folded_int(tree_t t, int64_t *l)
          return false;
       }
    case T_QUALIFIED:
-      return folded_int(tree_value(t), l);
+      {
+         if (!folded_int(tree_value(t), l))
+            return false;
+
+         // Leave it to a run-time check if the value is not in the subtype
+         type_t type = tree_type(t);
+         int64_t low, high;
+         if (type_is_scalar(type) && folded_bounds(range_of(type, 0), &low, &high))
+            return *l >= low && *l <= high;
+
+         return true;
+      }
    case T_REF:
       if (tree_has_ref(t)) {
          tree_t decl = tree_ref(t);
-- 
2.43.0

