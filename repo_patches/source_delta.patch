From 6acf35529d816c47b544c894492a1a61dbcbf048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:34 +0000
Subject: [PATCH 01/54] fix: wake every caller of iot_threadpool_wait, not just
 one, when the pool becomes idle

---
 src/c/threadpool.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/threadpool.c b/src/c/threadpool.c
index 42b590e..d4de189 100644
--- a/src/c/threadpool.c
+++ b/src/c/threadpool.c
@@ -116,7 +116,7 @@ static void * iot_threadpool_thread (void * arg)
       {
         pool->front = NULL;
         pool->rear = NULL;
-        pthread_cond_signal (&pool->work_cond); // Signal no jobs in queue
+        pthread_cond_broadcast (&pool->work_cond); // Signal no jobs in queue
       }
       if ((pool->jobs + 1) == pool->max_jobs)
       {
@@ -136,7 +136,7 @@ static void * iot_threadpool_thread (void * arg)
       iot_component_lock (comp);
       if (--pool->working == 0)
       {
-        pthread_cond_signal (&pool->work_cond); // Signal when no threads working
+        pthread_cond_broadcast (&pool->work_cond); // Signal when no threads working
       }
     }
     else
-- 
2.43.0


From 0bbd9b1171cce74876ca7c270d2083e423a18f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:15 +0000
Subject: [PATCH 02/54] fix: scheduler thread must take its wake time from the
 queue as it is when it starts to wait

The wake time was computed before the lock was released, so a schedule added
or reset (or a stop and start) between that point and the timed wait was not
noticed until the previously computed time.
---
 src/c/scheduler.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index 892e838..9c07076 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -154,15 +154,19 @@ static void * schedule_fn (void * data)
 static void * iot_scheduler_thread (void * arg)
 {
   iot_component_state_t state;
-  uint64_t next = iot_time_nsecs ();
+  uint64_t next;
   iot_scheduler_t * scheduler = (iot_scheduler_t*) arg;
   iot_data_t * queue = scheduler->queue;
 
-  nsToTimespec (next, &scheduler->schd_time);
   while (true)
   {
     state = iot_component_wait_and_lock (&scheduler->component, (uint32_t) IOT_COMPONENT_DELETED | (uint32_t) IOT_COMPONENT_RUNNING); // State wait
     if (state == IOT_COMPONENT_DELETED) break; // Exit thread on deletion
+
+    /* Calculate next execution time with the lock held, as the queue may have changed since it was last examined */
+    iot_schedule_t * current = iot_schedule_queue_next (queue);
+    next = current ? current->start : (iot_time_nsecs () + IOT_SCHEDULER_DEFAULT_WAKE);
+    nsToTimespec (next, &scheduler->schd_time);
     pthread_cond_timedwait (&scheduler->component.cond, &scheduler->component.mutex, &scheduler->schd_time); // Schedule wait
     state = scheduler->component.state;
     if (state != IOT_COMPONENT_RUNNING)
@@ -174,7 +178,7 @@ static void * iot_scheduler_thread (void * arg)
     }
 
     /* Get the schedule at the front of the queue */
-    iot_schedule_t * current = iot_schedule_queue_next (queue);
+    current = iot_schedule_queue_next (queue);
     if (current && current->start < iot_time_nsecs ()) // If a schedule and ready to run
     {
       bool valid_current = atomic_load (&current->scheduled);
@@ -250,10 +254,7 @@ static void * iot_scheduler_thread (void * arg)
       {
         iot_log_trace (scheduler->logger, "Current schedule deleted");
       }
-      current = iot_schedule_queue_next (queue);
     }
-    next = current ? current->start : (iot_time_nsecs () + IOT_SCHEDULER_DEFAULT_WAKE);
-    nsToTimespec (next, &scheduler->schd_time); /* Calculate next execution time */
     iot_component_unlock (&scheduler->component);
   }
   iot_component_unlock (&scheduler->component);
-- 
2.43.0


From cc7b8ef9d97abb8765d81dbef199661d6c0a4513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:15 +0000
Subject: [PATCH 03/54] fix: schedule removed by its run callback stays removed
 when its thread cannot be created

---
 src/c/scheduler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index 9c07076..44531a4 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -214,7 +214,7 @@ static void * iot_scheduler_thread (void * arg)
             {
               iot_log_warn (scheduler->logger, "Scheduled event dropped for schedule #%" PRIu64, current->id);
             }
-            valid_current = atomic_load (&current->refs) > 1u && atomic_load (&current->scheduled);;
+            valid_current = atomic_load (&current->refs) > 1u && atomic_load (&current->scheduled);
             iot_schedule_free (current);
           }
         }
@@ -223,7 +223,7 @@ static void * iot_scheduler_thread (void * arg)
           iot_log_trace (scheduler->logger, "Running schedule #%" PRIu64 " as thread", current->id);
           if (!iot_thread_create (NULL, schedule_fn, current, current->priority, IOT_THREAD_NO_AFFINITY, scheduler->logger))
           {
-            valid_current = atomic_load (&current->refs) > 1u;
+            valid_current = atomic_load (&current->refs) > 1u && atomic_load (&current->scheduled);
             iot_schedule_free (current);
           }
         }
-- 
2.43.0


From 7521f8e68674c0f75790d54787e75330bc58ddd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:22 +0000
Subject: [PATCH 04/54] fix: iot_scheduler_free waits for its thread before
 releasing what the thread uses

A run or abort callback, or a synchronous schedule, that took longer than the
fixed wait left the thread running on freed memory.
---
 src/c/scheduler.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index 44531a4..25a4c75 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -49,6 +49,7 @@ struct iot_scheduler_t
   iot_data_t * idle;              /* Map of idle schedules, keyed by unique schedule id */
   iot_logger_t * logger;          /* Optional logger */
   struct timespec schd_time;      /* Time for next schedule */
+  _Atomic bool active;            /* Whether the scheduler thread is using the scheduler */
 };
 
 static inline void iot_schedule_add_ref (iot_schedule_t * schedule)
@@ -258,6 +259,7 @@ static void * iot_scheduler_thread (void * arg)
     iot_component_unlock (&scheduler->component);
   }
   iot_component_unlock (&scheduler->component);
+  atomic_store (&scheduler->active, false); // Last access to the scheduler by the thread
   return NULL;
 }
 
@@ -270,7 +272,11 @@ iot_scheduler_t * iot_scheduler_alloc (int priority, int affinity, iot_logger_t
   scheduler->queue = iot_data_alloc_map (IOT_DATA_UINT64);
   iot_logger_add_ref (logger);
   iot_log_info (logger, "iot_scheduler_alloc (priority: %d affinity: %d)", priority, affinity);
-  iot_thread_create (NULL, iot_scheduler_thread, scheduler, priority, affinity, logger);
+  atomic_store (&scheduler->active, true);
+  if (! iot_thread_create (NULL, iot_scheduler_thread, scheduler, priority, affinity, logger))
+  {
+    atomic_store (&scheduler->active, false);
+  }
   return scheduler;
 }
 
@@ -443,7 +449,11 @@ void iot_scheduler_free (iot_scheduler_t * scheduler)
     iot_component_set_stopped (&scheduler->component); // Break schedule thread out of schedule wait
     iot_wait_usecs (500u);
     iot_component_set_deleted (&scheduler->component); // Break schedule thread out of state wait
-    iot_wait_usecs (500u);
+    do
+    {
+      iot_wait_usecs (500u);
+    }
+    while (atomic_load (&scheduler->active)); // Thread may be running a callback or a synchronous schedule
     iot_scheduler_free_schedules (scheduler->queue);
     iot_scheduler_free_schedules (scheduler->idle);
     iot_logger_free (scheduler->logger);
-- 
2.43.0


From ceda1f8863fd728ab7321bfa3b90fbee4a9a02cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:09 +0000
Subject: [PATCH 05/54] fix: list, vector and array iterators report no next
 element for an empty container

---
 src/c/data.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 6f6b451..26f866e 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -907,7 +907,7 @@ bool iot_data_list_iter_next (iot_data_list_iter_t * iter)
 bool iot_data_list_iter_has_next (const iot_data_list_iter_t * iter)
 {
   assert (iter);
-  return ((iter->_element == NULL) ||  iter->_element->next);
+  return (iter->_element) ? (iter->_element->next != NULL) : (iter->_list->tail != NULL);
 }
 
 bool iot_data_list_iter_prev (iot_data_list_iter_t * iter)
@@ -2403,7 +2403,7 @@ bool iot_data_array_iter_next (iot_data_array_iter_t * iter)
 bool iot_data_array_iter_has_next (const iot_data_array_iter_t * iter)
 {
   assert (iter);
-  return ((iter->_index == iter->_array->length) || (iter->_index + 1 < iter->_array->length));
+  return (iter->_index == iter->_array->length) ? (iter->_array->length != 0u) : (iter->_index + 1 < iter->_array->length);
 }
 
 bool iot_data_array_iter_prev (iot_data_array_iter_t * iter)
@@ -2441,7 +2441,7 @@ bool iot_data_vector_iter_next (iot_data_vector_iter_t * iter)
 
 bool iot_data_vector_iter_has_next (const iot_data_vector_iter_t * iter)
 {
-  return ((iter->_index == iter->_vector->size) || (iter->_index + 1 < iter->_vector->size));
+  return (iter->_index == iter->_vector->size) ? (iter->_vector->size != 0u) : (iter->_index + 1 < iter->_vector->size);
 }
 
 bool iot_data_vector_iter_prev (iot_data_vector_iter_t * iter)
-- 
2.43.0


From 92766a6076f5a92d78709d40dbea0c98d552525d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:09 +0000
Subject: [PATCH 06/54] fix: iot_data_map_iter_has_next predicts the next entry
 also after stepping back

---
 src/c/data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index 26f866e..614e471 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2299,7 +2299,7 @@ bool iot_data_map_iter_next (iot_data_map_iter_t * iter)
 bool iot_data_map_iter_has_next (const iot_data_map_iter_t * iter)
 {
   assert (iter && iter->_map);
-  return (iter->_count < iter->_map->size);
+  return (iter->_node) ? (iot_node_next (iter->_node) != NULL) : (iter->_map->tree != NULL);
 }
 
 static inline iot_node_t * iot_node_end (iot_node_t * node)
-- 
2.43.0


From 77647b24dfa1f5c2c771f789fa9eed4a860f7713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:16 +0000
Subject: [PATCH 07/54] fix: copy of a constant list is a list of its own

---
 src/c/data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index 614e471..5e9d71d 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2622,7 +2622,7 @@ iot_data_t * iot_data_copy (const iot_data_t * data)
   iot_data_t * ret = NULL;
 
   if (data == NULL) return ret;
-  if (data->constant) return (iot_data_t*) data;
+  if (data->constant && (data->type != IOT_DATA_LIST)) return (iot_data_t*) data; // A constant list can be changed, so is copied
 
   switch (data->type)
   {
-- 
2.43.0


From 0efad11d404285b555a88f7420e432b3ebe52f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:16 +0000
Subject: [PATCH 08/54] fix: iot_data_array_transform reads beyond the end of
 the array

---
 src/c/data.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 5e9d71d..ff6f670 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -736,8 +736,9 @@ iot_data_t * iot_data_array_transform (const iot_data_t * array, iot_data_type_t
     iot_data_array_iter (array, &iter);
     while (iot_data_array_iter_next (&iter))
     {
-      const iot_data_union_t * element = iot_data_array_iter_value (&iter);
-      if (iot_data_cast_val (*element, ptr, array->element_type, type))
+      iot_data_union_t element = { 0 };
+      memcpy (&element, iot_data_array_iter_value (&iter), iot_data_type_sizes[array->element_type]); // Element may be smaller than union
+      if (iot_data_cast_val (element, ptr, array->element_type, type))
       {
         ptr += esize;
         asize++;
-- 
2.43.0


From c48951ff9da055ba26bcc8cb00c4bccc34235896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:16 +0000
Subject: [PATCH 09/54] fix: iot_data_binary_take copies all bytes and leaves
 an empty array with the hash of one

---
 src/c/data.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index ff6f670..d089fe0 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1539,10 +1539,11 @@ extern void * iot_data_binary_take (iot_data_t * data, uint32_t * len)
     ret = array->data;
     array->data = NULL;
     array->length = 0u;
+    array->base.hash = 0u;
   }
   else
   {
-    ret = malloc (array->length);
+    ret = malloc (*len);
     memcpy (ret, array->data, *len);
   }
   return ret;
-- 
2.43.0


From 7ff85894e34a487a01fe4fea88fdf8f5c88c511d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:16 +0000
Subject: [PATCH 10/54] fix: an array of no elements frees a buffer it takes
 and hashes like any other empty array

---
 src/c/data.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/c/data.c b/src/c/data.c
index d089fe0..3fd53db 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1584,6 +1584,11 @@ extern iot_data_t * iot_data_alloc_array (void * data, uint32_t length, iot_data
   assert ((type <= IOT_DATA_BOOL) && ((length > 0 && data != NULL) || length == 0));
   iot_data_array_t * array = iot_data_block_alloc_data (IOT_DATA_ARRAY);
   size_t size = iot_data_type_sizes[type] * length;
+  if (length == 0u)
+  {
+    if (ownership == IOT_DATA_TAKE) free (data);
+    data = NULL;
+  }
   array->base.element_type = type;
   array->data = length ? data : NULL;
   array->length = length;
-- 
2.43.0


From f9e2630b0edb64fe5a87489cff62134a57edd270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:58 +0000
Subject: [PATCH 11/54] fix: resizing a vector to the size it has keeps a
 pending hash update pending

---
 src/c/data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index 3fd53db..7b5b11d 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2056,7 +2056,7 @@ void iot_data_vector_resize (iot_data_t * vector, uint32_t size)
     vec->values = realloc (vec->values, size * sizeof (iot_data_t*));
     memset (&vec->values[vec->size], 0, (size - vec->size) * sizeof (iot_data_t*));
   }
-  vector->rehash = vec->size != size;
+  if (vec->size != size) vector->rehash = true;
   vec->size = size;
 }
 
-- 
2.43.0


From ea5f7ef7fcf7a526d1a31a4dbf0bc355ae6e45b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:58 +0000
Subject: [PATCH 12/54] fix: replacing a map value through an iterator or by
 its decoded array updates the hash of the map

---
 src/c/data.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index 7b5b11d..a12390d 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1829,6 +1829,7 @@ bool iot_data_map_base64_to_array (const iot_data_t * map, const iot_data_t * ke
     {
       iot_data_free (node->value);
       node->value = array;
+      ((iot_data_map_t*) map)->base.rehash = true;
     }
   }
   return (array != NULL);
@@ -2365,7 +2366,11 @@ iot_data_t * iot_data_map_iter_replace_value (const iot_data_map_iter_t * iter,
 {
   assert (iter && iter->_map && value && (iter->_map->base.element_type == IOT_DATA_MULTI || iter->_map->base.element_type == value->type));
   iot_data_t * res = (iter->_node) ? iter->_node->value : NULL;
-  if (res) iter->_node->value = value;
+  if (res)
+  {
+    ((iot_data_map_t*) iter->_map)->base.rehash = true;
+    iter->_node->value = value;
+  }
   return res;
 }
 
-- 
2.43.0


From a35c80dff300c19c751b75d894616e944002cc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:58 +0000
Subject: [PATCH 13/54] fix: hash of a container follows changes of the
 containers in it

---
 src/c/data.c | 60 ++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 47 insertions(+), 13 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index a12390d..e2fce7f 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -287,12 +287,30 @@ extern void iot_data_block_free (void  * ptr)
 #endif
 }
 
-static inline void iot_data_map_hash (iot_data_t * map, const iot_data_t * key, const iot_data_t * value)
+static inline uint32_t iot_data_hash_pair (const iot_data_t * key, const iot_data_t * value)
 {
   uint32_t key_hash = iot_data_hash (key);
   uint32_t val_hash = iot_data_hash (value);
-  map->hash ^= key_hash;
-  if (val_hash != key_hash) map->hash ^= val_hash; // Only apply value hash if different from key hash or hashes cancel out
+  return (val_hash != key_hash) ? (key_hash ^ val_hash) : key_hash; // Only apply value hash if different from key hash or hashes cancel out
+}
+
+/* A composed member can be changed after it was added, so the hash of its container cannot be kept */
+
+static inline bool iot_data_hash_varies (const iot_data_t * member)
+{
+  return (member && member->composed);
+}
+
+static inline void iot_data_hash_add (iot_data_t * data, const iot_data_t * member)
+{
+  if (iot_data_hash_varies (member))
+  {
+    data->rehash = true;
+  }
+  else
+  {
+    data->hash ^= iot_data_hash (member);
+  }
 }
 
 uint32_t iot_data_hash (const iot_data_t * data)
@@ -300,15 +318,17 @@ uint32_t iot_data_hash (const iot_data_t * data)
   iot_data_t * da = (iot_data_t*) data;
   if (da && da->rehash)
   {
-    da->hash = 0;
-    da->rehash = false;
+    uint32_t hash = 0u;
+    bool varies = false;
     if (da->type == IOT_DATA_VECTOR)
     {
       iot_data_vector_iter_t iter;
       iot_data_vector_iter (da, &iter);
       while (iot_data_vector_iter_next (&iter))
       {
-        da->hash ^= iot_data_hash (iot_data_vector_iter_value (&iter));
+        const iot_data_t * value = iot_data_vector_iter_value (&iter);
+        hash ^= iot_data_hash (value);
+        varies = varies || iot_data_hash_varies (value);
       }
     }
     else if (da->type == IOT_DATA_LIST)
@@ -317,7 +337,9 @@ uint32_t iot_data_hash (const iot_data_t * data)
       iot_data_list_iter (da, &iter);
       while (iot_data_list_iter_next (&iter))
       {
-        da->hash ^= iot_data_hash (iot_data_list_iter_value (&iter));
+        const iot_data_t * value = iot_data_list_iter_value (&iter);
+        hash ^= iot_data_hash (value);
+        varies = varies || iot_data_hash_varies (value);
       }
     }
     else // IOT_DATA_MAP
@@ -326,9 +348,14 @@ uint32_t iot_data_hash (const iot_data_t * data)
       iot_data_map_iter (da, &iter);
       while (iot_data_map_iter_next (&iter))
       {
-        iot_data_map_hash (da, iot_data_map_iter_key (&iter), iot_data_map_iter_value (&iter));
+        const iot_data_t * key = iot_data_map_iter_key (&iter);
+        const iot_data_t * value = iot_data_map_iter_value (&iter);
+        hash ^= iot_data_hash_pair (key, value);
+        varies = varies || iot_data_hash_varies (key) || iot_data_hash_varies (value);
       }
     }
+    da->hash = hash;
+    if (! varies) da->rehash = false;
   }
   return da ? da->hash : 0u;
 }
@@ -979,7 +1006,7 @@ void iot_data_list_tail_push (iot_data_t * list, iot_data_t * value)
     impl->head = impl->tail;
   }
   impl->head->length++;
-  list->hash ^= iot_data_hash (value);
+  iot_data_hash_add (list, value);
 }
 
 iot_data_t * iot_data_list_tail_pop (iot_data_t * list)
@@ -1025,7 +1052,7 @@ void iot_data_list_head_push (iot_data_t * list, iot_data_t * value)
     impl->tail = impl->head;
     impl->head->length = 1;
   }
-  list->hash ^= iot_data_hash (value);
+  iot_data_hash_add (list, value);
 }
 
 iot_data_t * iot_data_list_head_pop (iot_data_t * list)
@@ -2020,7 +2047,7 @@ void iot_data_vector_add (iot_data_t * vector, uint32_t index, iot_data_t * val)
   }
   else
   {
-    vector->hash ^= iot_data_hash (val);
+    iot_data_hash_add (vector, val);
   }
   arr->values[index] = val;
 }
@@ -2503,7 +2530,7 @@ iot_data_t * iot_data_vector_iter_replace_value (const iot_data_vector_iter_t *
     }
     else
     {
-      if (value) vector->base.hash ^= iot_data_hash (value);
+      iot_data_hash_add (&vector->base, value);
     }
     vector->values[iter->_index] = value;
   }
@@ -3209,7 +3236,14 @@ static bool iot_node_add (iot_data_map_t * map, iot_data_t * key, iot_data_t * v
   else
   {
     iot_node_insert (map, key, value);
-    iot_data_map_hash (&map->base, key, value);
+    if (iot_data_hash_varies (key) || iot_data_hash_varies (value))
+    {
+      map->base.rehash = true;
+    }
+    else
+    {
+      map->base.hash ^= iot_data_hash_pair (key, value);
+    }
   }
   return (node == NULL);
 }
-- 
2.43.0


From 3cbdad9fe42bc3b5f53a50cb952a48042ba2a1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:58 +0000
Subject: [PATCH 14/54] fix: incrementing or decrementing a value updates its
 hash

---
 src/c/data.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index e2fce7f..25eef28 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1274,16 +1274,16 @@ static void iot_data_inc_dec (iot_data_t * data, bool inc)
   iot_data_union_t * val = &((iot_data_value_t*) data)->value;
   switch (data->type)
   {
-    case IOT_DATA_INT8: inc ? val->i8++ : val->i8--; break;
-    case IOT_DATA_UINT8: inc ? val->ui8++ : val->ui8--; break;
-    case IOT_DATA_INT16: inc ? val->i16++ : val->i16--; break;
-    case IOT_DATA_UINT16: inc ? val->ui16++ : val->ui16--; break;
-    case IOT_DATA_INT32: inc ? val->i32++ : val->i32--; break;
-    case IOT_DATA_UINT32: inc ? val->ui32++ : val->ui32--; break;
-    case IOT_DATA_INT64: inc ? val->i64++ : val->i64--; break;
-    case IOT_DATA_UINT64: inc ? val->ui64++ : val->ui64--; break;
-    case IOT_DATA_FLOAT32: inc ? val->f32++ : val->f32--; break;
-    case IOT_DATA_FLOAT64: inc ? val->f64++ : val->f64--; break;
+    case IOT_DATA_INT8: inc ? val->i8++ : val->i8--; data->hash = (uint32_t) val->i8; break;
+    case IOT_DATA_UINT8: inc ? val->ui8++ : val->ui8--; data->hash = (uint32_t) val->ui8; break;
+    case IOT_DATA_INT16: inc ? val->i16++ : val->i16--; data->hash = (uint32_t) val->i16; break;
+    case IOT_DATA_UINT16: inc ? val->ui16++ : val->ui16--; data->hash = (uint32_t) val->ui16; break;
+    case IOT_DATA_INT32: inc ? val->i32++ : val->i32--; data->hash = (uint32_t) val->i32; break;
+    case IOT_DATA_UINT32: inc ? val->ui32++ : val->ui32--; data->hash = (uint32_t) val->ui32; break;
+    case IOT_DATA_INT64: inc ? val->i64++ : val->i64--; data->hash = (uint32_t) val->i64; break;
+    case IOT_DATA_UINT64: inc ? val->ui64++ : val->ui64--; data->hash = (uint32_t) val->ui64; break;
+    case IOT_DATA_FLOAT32: inc ? val->f32++ : val->f32--; data->hash = (uint32_t) val->f32; break;
+    case IOT_DATA_FLOAT64: inc ? val->f64++ : val->f64--; data->hash = (uint32_t) val->f64; break;
     default: break;
   }
 }
-- 
2.43.0


From fbc367e625fe80b29c4a18939ffb09ed10fe5914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:00 +0000
Subject: [PATCH 15/54] fix: iot_data_get_at returns NULL when the path does
 not match the data

---
 src/c/data.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 25eef28..6621f29 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2810,14 +2810,23 @@ extern const iot_data_t * iot_data_get_at (const iot_data_t * data, const iot_da
 {
   assert (data && path);
   const iot_data_t * result = data;
-  if (iot_data_list_length (path) > 0)
+  iot_data_list_iter_t iter;
+  iot_data_list_iter (path, &iter);
+  while (result && iot_data_list_iter_prev (&iter))
   {
-    assert (data->type == IOT_DATA_MAP || data->type == IOT_DATA_VECTOR);
-    iot_data_t * p = iot_data_copy (path);
-    iot_data_t * index = iot_data_list_head_pop (p);
-    result = (data->type == IOT_DATA_MAP) ? iot_data_get_at (iot_data_map_get (data, index), p) : iot_data_get_at (iot_data_vector_get (data, iot_data_ui32 (index)), p);
-    iot_data_free (index);
-    iot_data_free (p);
+    const iot_data_t * index = iot_data_list_iter_value (&iter);
+    if (result->type == IOT_DATA_MAP)
+    {
+      result = iot_data_map_get (result, index);
+    }
+    else if ((result->type == IOT_DATA_VECTOR) && (index->type == IOT_DATA_UINT32) && (iot_data_ui32 (index) < iot_data_vector_size (result)))
+    {
+      result = iot_data_vector_get (result, iot_data_ui32 (index));
+    }
+    else
+    {
+      result = NULL; // Path does not match data
+    }
   }
   return result;
 }
-- 
2.43.0


From fddf94f338c578fc0cedd921a7d4d6a1d95a9edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:00 +0000
Subject: [PATCH 16/54] fix: iot_data_add_at can add where there is nothing yet

---
 src/c/data.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index 6621f29..61a26b3 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2839,10 +2839,11 @@ extern void iot_data_list_empty (iot_data_t * list)
 
 extern iot_data_t * iot_data_add_at (const iot_data_t * data, const iot_data_t * path, iot_data_t * val)
 {
-  assert (data && path && val);
+  assert (path && val);
   iot_data_t * result;
   if (iot_data_list_length (path) > 0)
   {
+    assert (data);
     assert (data->type == IOT_DATA_MAP || data->type == IOT_DATA_VECTOR);
     iot_data_t * p = iot_data_copy (path);
     iot_data_t * index = iot_data_list_head_pop (p);
-- 
2.43.0


From 23ea3d5310d34874472fec11962c4a421b387878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:00 +0000
Subject: [PATCH 17/54] fix: iot_data_compress skips vector elements that are
 not set

---
 src/c/data.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c/data.c b/src/c/data.c
index 61a26b3..7fd2388 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1104,6 +1104,7 @@ bool iot_data_is_nan (const iot_data_t * data)
 
 static void iot_data_cache_add (iot_data_t * cache, iot_data_t ** data)
 {
+  if (*data == NULL) return; // Vector element not set
   iot_data_t * cached = (iot_data_t*) iot_data_map_get (cache, *data);
   if (cached)
   {
-- 
2.43.0


From bb75f5dd28b8bace212867eb531954ca62699bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:59 +0000
Subject: [PATCH 18/54] fix: iot_data_compare_value orders negative values
 before unsigned ones

---
 src/c/data.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 7fd2388..65cabea 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -565,9 +565,10 @@ static int iot_data_cmp (const iot_data_t * v1, const iot_data_t * v2, bool by_v
       if (IOT_DATA_IS_SIGNED_TYPE (v1->type))
       {
         if (IOT_DATA_IS_SIGNED_TYPE (v2->type)) return (uv1.i64 == uv2.i64) ? 0 : ((uv1.i64 < uv2.i64) ? -1 : 1);
-        return (uv1.i64 == uv2.ui64) ? 0 : ((uv1.i64 < uv2.ui64) ? -1 : 1);
+        if (uv1.i64 < 0) return -1; // Negative is less than any unsigned value
+        return (uv1.ui64 == uv2.ui64) ? 0 : ((uv1.ui64 < uv2.ui64) ? -1 : 1);
       }
-      if (IOT_DATA_IS_SIGNED_TYPE (v2->type)) return (uv1.ui64 == uv2.i64) ? 0 : ((uv1.ui64 < uv2.i64) ? -1 : 1);
+      if (IOT_DATA_IS_SIGNED_TYPE (v2->type) && (uv2.i64 < 0)) return 1;
       return (uv1.ui64 == uv2.ui64) ? 0 : ((uv1.ui64 < uv2.ui64) ? -1 : 1);
     }
     return (v1->type < v2->type) ? -1 : 1;
-- 
2.43.0


From 479cb9480e6f96612aa7e8fb9bd946a9db315228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:21 +0000
Subject: [PATCH 19/54] fix: copy of a data item has metadata of its own

---
 src/c/data.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 65cabea..3ac8f9b 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2720,9 +2720,7 @@ iot_data_t * iot_data_copy (const iot_data_t * data)
     }
     case IOT_DATA_POINTER:
     {
-      ret = (iot_data_t*) data;
-      iot_data_add_ref (ret);
-      break;
+      return iot_data_add_ref (data); // Same item, so already has its metadata
     }
     default: // basic types
     {
@@ -2732,7 +2730,7 @@ iot_data_t * iot_data_copy (const iot_data_t * data)
       ret = (iot_data_t*) val;
     }
   }
-  ret->base.meta = iot_data_add_ref (data->base.meta);
+  ret->base.meta = iot_data_copy (data->base.meta);
   return ret;
 }
 
-- 
2.43.0


From e885c6338b864904e3d5bfc98a01161efd3184d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:01 +0000
Subject: [PATCH 20/54] fix: iot_data_vector_dimensions overruns its result for
 vectors of mixed depth and mistakes empty ones

---
 src/c/data.c | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 3ac8f9b..04c75cb 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2150,24 +2150,18 @@ static uint32_t iot_data_vector_depth (const iot_data_t * vector)
   return depth + 1u;
 }
 
-static bool iot_data_vector_dims (const iot_data_t * vector, uint32_t * dims, uint32_t * total)
+static bool iot_data_vector_dims (const iot_data_t * vector, uint32_t * dims, uint32_t depth)
 {
   uint32_t size = iot_data_vector_size (vector);
-  uint32_t vecs = iot_data_vector_element_count (vector, IOT_DATA_VECTOR, false);
-  if (*dims == 0)
-  {
-    *dims = size;
-    *total = *total ? *total * size : size;
-  }
+  if (*dims == UINT32_MAX) *dims = size; // Dimension not yet set
   bool ok = (*dims == size);
-  if (ok && (size == vecs)) // Only regard as multidimensional vector if all elements also vectors
+  if (ok && (depth > 1u)) // All elements are also vectors
   {
-    dims++;
     iot_data_vector_iter_t iter;
     iot_data_vector_iter (vector, &iter);
     while (ok && iot_data_vector_iter_next (&iter))
     {
-      ok = iot_data_vector_dims (iot_data_vector_iter_value (&iter), dims, total);
+      ok = iot_data_vector_dims (iot_data_vector_iter_value (&iter), dims + 1, depth - 1u);
     }
   }
   return ok;
@@ -2178,16 +2172,18 @@ iot_data_t * iot_data_vector_dimensions (const iot_data_t * vector, uint32_t * t
   assert (total && vector && (vector->type == IOT_DATA_VECTOR));
   iot_data_t * dimarray = NULL;
   uint32_t depth = iot_data_vector_depth (vector);
-  uint32_t * dims = calloc (depth, sizeof (uint32_t));
+  uint32_t * dims = malloc (depth * sizeof (uint32_t));
+  memset (dims, 0xff, depth * sizeof (uint32_t));
   *total = 0u;
-  if (iot_data_vector_dims (vector, dims, total))
+  if (iot_data_vector_dims (vector, dims, depth))
   {
+    *total = 1u;
+    for (uint32_t i = 0u; i < depth; i++) *total *= dims[i];
     dimarray = iot_data_alloc_array (dims, depth, IOT_DATA_UINT32, IOT_DATA_TAKE);
   }
   else
   {
     free (dims);
-    *total = 0u;
   }
   return dimarray;
 }
-- 
2.43.0


From 5a40fbf1fdb360ffe35b97efe61326110a2e4685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:01 +0000
Subject: [PATCH 21/54] fix: cast to an integer refuses values just above the
 64 bit ranges and NaN

---
 src/c/data.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/c/data.c b/src/c/data.c
index 04c75cb..370293b 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -522,6 +522,9 @@ static bool iot_data_cast_val (const iot_data_union_t in, void * out, iot_data_t
   }
   // Check value within max/min for target type
   if ((out_type < IOT_DATA_FLOAT64) && (VALUE () > max_vals[out_type] || VALUE () < min_vals[out_type])) return false;
+  // Maximum values of 64 bit integers are not exact as double, and NaN is not an integer
+  if (dfloat && (out_type <= IOT_DATA_UINT64) && !(uval.f64 < ((out_type == IOT_DATA_INT64) ? 0x1p63 : 0x1p64))) return false;
+  if (usign && (out_type == IOT_DATA_INT64) && (uval.ui64 > INT64_MAX)) return false;
 
   // Cast to target type
   switch (out_type)
-- 
2.43.0


From 7405da5592fc898cb6e524ee461ca820c9dd1758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:14 +0000
Subject: [PATCH 22/54] fix: a number read from a string is refused, not
 wrapped, when it does not fit its type

---
 src/c/data.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 370293b..15e18d1 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -8,6 +8,7 @@
 #include "iot/base64.h"
 #include "iot/hash.h"
 #include "iot/uuid.h"
+#include <errno.h>
 #include <stdarg.h>
 #include <float.h>
 
@@ -1242,15 +1243,33 @@ void iot_data_free (iot_data_t * data)
   }
 }
 
+static bool iot_data_int_from_string (iot_data_type_t type, const char * value, iot_data_union_t * un)
+{
+  iot_data_union_t in = { 0 };
+  char * end = NULL;
+  errno = 0;
+  if (IOT_DATA_IS_SIGNED_TYPE (type))
+  {
+    in.i64 = strtoll (value, &end, 10);
+  }
+  else
+  {
+    in.ui64 = strtoull (value, &end, 10);
+    if (in.ui64 && memchr (value, '-', (size_t) (end - value))) return false; // Negative value out of range
+  }
+  return (end != value) && (errno != ERANGE) && iot_data_cast_val (in, un, IOT_DATA_IS_SIGNED_TYPE (type) ? IOT_DATA_INT64 : IOT_DATA_UINT64, type);
+}
+
 iot_data_t * iot_data_alloc_from_string (iot_data_type_t type, const char * value)
 {
-  static const char * fmt [] =  { "%"SCNd8,"%"SCNu8,"%"SCNd16,"%"SCNu16,"%"SCNd32,"%"SCNu32,"%"SCNd64,"%"SCNu64,"%f","%lf" };
   assert (value && ((type == IOT_DATA_STRING) || strlen (value)));
 
   if (type < IOT_DATA_BOOL)
   {
     iot_data_union_t un = { 0 };
-    if (sscanf (value, fmt[type], &un) == 1)
+    bool parsed = (type == IOT_DATA_FLOAT32) ? (sscanf (value, "%f", &un.f32) == 1) :
+      (type == IOT_DATA_FLOAT64) ? (sscanf (value, "%lf", &un.f64) == 1) : iot_data_int_from_string (type, value, &un);
+    if (parsed)
     {
       switch (type)
       {
-- 
2.43.0


From ae47c4848ace4f778e66503c8621442a6a6cb6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 23/54] fix: cyclic component reference during container
 initialisation created a component twice

---
 src/c/container.c | 70 +++++++++++++++++++++++------------------------
 1 file changed, 35 insertions(+), 35 deletions(-)

diff --git a/src/c/container.c b/src/c/container.c
index 188c38e..0001f90 100644
--- a/src/c/container.c
+++ b/src/c/container.c
@@ -168,20 +168,38 @@ static bool iot_container_typed_load (iot_container_t * cont, const char * cname
   bool result = iot_container_find_component_locked (cont, cname);
   if (!result)
   {
-    const iot_component_factory_t *factory = iot_component_factory_find (ctype);
-    if (factory)
+    iot_load_in_progress_t this = {cname, iot_load_in_progress};
+    const iot_load_in_progress_t *loading = iot_load_in_progress;
+
+    // Check for cycles
+    while (loading)
     {
-      char * config = (iot_config->load) (cname, iot_config->uri);
-      if (config)
-      {
-        iot_component_create (cont, cname, factory, config);
-        free (config);
-      }
-      result = true;
+      if (strcmp (loading->name, cname) == 0) break;
+      loading = loading->next;
+    }
+    if (loading)
+    {
+      iot_log_error (cont->logger, "Invalid configuration, cyclic component reference for component %s", cname);
     }
     else
     {
-      iot_log_warn (cont->logger, "Failed to find factory for type: %s", ctype);
+      const iot_component_factory_t *factory = iot_component_factory_find (ctype);
+      if (factory)
+      {
+        iot_load_in_progress = &this;
+        char * config = (iot_config->load) (cname, iot_config->uri);
+        if (config)
+        {
+          iot_component_create (cont, cname, factory, config);
+          free (config);
+        }
+        iot_load_in_progress = this.next;
+        result = true;
+      }
+      else
+      {
+        iot_log_warn (cont->logger, "Failed to find factory for type: %s", ctype);
+      }
     }
   }
   return result;
@@ -193,35 +211,17 @@ static bool iot_container_load_locked (iot_container_t * cont, const char * cnam
 
   if (! result)
   {
-    iot_load_in_progress_t this = {cname, iot_load_in_progress};
-    iot_load_in_progress_t *loading = iot_load_in_progress;
     assert (iot_config && cont);
+    char * config = (iot_config->load) (cont->name, iot_config->uri);
+    iot_data_t * map = iot_component_config_to_map (config, cont->logger);
+    free (config);
 
-    // Check for cycles
-    while (loading)
+    if (map)
     {
-      if (strcmp (loading->name, cname) == 0) break;
-      loading = loading->next;
-    }
-    if (!loading)
-    {
-      iot_load_in_progress = &this;
-      char * config = (iot_config->load) (cont->name, iot_config->uri);
-      iot_data_t * map = iot_component_config_to_map (config, cont->logger);
-      free (config);
-
-      if (map)
-      {
-        const char * ctype = iot_data_string_map_get_string (map, cname);
-        if (ctype) result = iot_container_typed_load (cont, cname, ctype);
-      }
-      iot_data_free (map);
-      iot_load_in_progress = this.next;
-    }
-    else
-    {
-      iot_log_error (cont->logger, "Invalid configuration, cyclic component reference for component %s", cname);
+      const char * ctype = iot_data_string_map_get_string (map, cname);
+      if (ctype) result = iot_container_typed_load (cont, cname, ctype);
     }
+    iot_data_free (map);
   }
   return result;
 }
-- 
2.43.0


From 571eef3651314ffdd348b97c092ad210ecb547ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 24/54] fix: listing components of a category fails for a
 component without one

---
 src/c/container.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/container.c b/src/c/container.c
index 0001f90..4789c32 100644
--- a/src/c/container.c
+++ b/src/c/container.c
@@ -452,7 +452,7 @@ iot_data_t * iot_container_list_components (iot_container_t * cont, const char *
   while (iot_data_list_iter_next (&iter))
   {
     const iot_component_t * comp = iot_data_list_iter_pointer_value (&iter);
-    if ((category == NULL) || (strcmp (category, comp->factory->category) == 0)) // Filter on category if set
+    if ((category == NULL) || (comp->factory->category && (strcmp (category, comp->factory->category) == 0))) // Filter on category if set
     {
       iot_data_list_tail_push (list, iot_component_read ((iot_component_t*) comp));
     }
-- 
2.43.0


From e4c2df50e5c1c7fb4cdb4b20ebb58690ae95df00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 25/54] fix: container configuration with a component type that
 is not a string

---
 src/c/container.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c/container.c b/src/c/container.c
index 4789c32..9ce5a10 100644
--- a/src/c/container.c
+++ b/src/c/container.c
@@ -270,6 +270,7 @@ bool iot_container_init (iot_container_t * cont)
     {
       cname = iot_data_map_iter_string_key (&iter);
       ctype = iot_data_map_iter_string_value (&iter);
+      if (ctype == NULL) continue; // Type is not a string
       config = (iot_config->load) (cname, iot_config->uri);
 
       if ((iot_component_factory_find (ctype) == NULL) && config)
@@ -284,7 +285,7 @@ bool iot_container_init (iot_container_t * cont)
     {
       cname = iot_data_map_iter_string_key (&iter);
       ctype = iot_data_map_iter_string_value (&iter);
-      iot_container_typed_load (cont, cname, ctype);
+      if (ctype) iot_container_typed_load (cont, cname, ctype);
     }
     iot_data_free (map);
   }
-- 
2.43.0


From 66c0fbad44e2bcf23390ccd03bee341c1e129abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 26/54] fix: component found by two threads at once was created
 twice

---
 src/c/container.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/c/container.c b/src/c/container.c
index 9ce5a10..6f1c07e 100644
--- a/src/c/container.c
+++ b/src/c/container.c
@@ -40,10 +40,36 @@ static iot_load_in_progress_t * iot_load_in_progress = NULL;
 
 #ifdef __ZEPHYR__
   static PTHREAD_MUTEX_DEFINE (iot_container_mutex);
+  static PTHREAD_COND_DEFINE (iot_container_cond);
 #else
   static pthread_mutex_t iot_container_mutex = PTHREAD_MUTEX_INITIALIZER;
+  static pthread_cond_t iot_container_cond = PTHREAD_COND_INITIALIZER;
 #endif
 
+/* Only one thread at a time loads components, loading a component can load others */
+
+static pthread_t iot_container_loader;
+static unsigned iot_container_loading = 0u;
+
+static void iot_container_load_begin (void)
+{
+  pthread_mutex_lock (&iot_container_mutex);
+  while (iot_container_loading && ! pthread_equal (iot_container_loader, pthread_self ()))
+  {
+    pthread_cond_wait (&iot_container_cond, &iot_container_mutex);
+  }
+  iot_container_loader = pthread_self ();
+  iot_container_loading++;
+  pthread_mutex_unlock (&iot_container_mutex);
+}
+
+static void iot_container_load_end (void)
+{
+  pthread_mutex_lock (&iot_container_mutex);
+  if (--iot_container_loading == 0u) pthread_cond_signal (&iot_container_cond);
+  pthread_mutex_unlock (&iot_container_mutex);
+}
+
 static void iot_component_free (void * ptr)
 {
   iot_component_t * component = ptr;
@@ -165,6 +191,7 @@ static const iot_component_factory_t * iot_container_try_load_component (iot_con
 
 static bool iot_container_typed_load (iot_container_t * cont, const char * cname, const char * ctype)
 {
+  iot_container_load_begin ();
   bool result = iot_container_find_component_locked (cont, cname);
   if (!result)
   {
@@ -202,6 +229,7 @@ static bool iot_container_typed_load (iot_container_t * cont, const char * cname
       }
     }
   }
+  iot_container_load_end ();
   return result;
 }
 
-- 
2.43.0


From fb74992a413d03ad44415deb6896f00d90a52045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:08 +0000
Subject: [PATCH 27/54] fix: logger stopped or started twice, or set while
 stopped, loses its level

---
 src/c/logger.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index 5ff1ef0..4e4f360 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -91,7 +91,8 @@ void iot_log__log (iot_logger_t * l, iot_loglevel_t level, ...)
 void iot_logger_set_level (iot_logger_t * logger, iot_loglevel_t level)
 {
   assert (logger);
-  logger->level = level;
+  ((iot_logger_impl_t*) logger)->save = level;
+  if (logger->component.state != IOT_COMPONENT_STOPPED) logger->level = level; // Otherwise takes effect when started
 }
 
 iot_logger_t * iot_logger_alloc_custom (const char * name, iot_loglevel_t level, bool start, iot_logger_t * next, iot_log_function_t impl, void * ctx, iot_log_free_fn_t freectx)
@@ -144,9 +145,7 @@ void iot_logger_start (iot_logger_t * logger)
 void iot_logger_stop (iot_logger_t * logger)
 {
   assert (logger);
-  iot_logger_impl_t * impl = (iot_logger_impl_t*) logger;
   iot_component_set_stopped (&logger->component);
-  impl->save = logger->level;
   logger->level = IOT_LOG_NONE;
 }
 
@@ -332,7 +331,7 @@ static iot_component_t * iot_logger_config (iot_container_t * cont, const iot_da
 static bool iot_logger_reconfig (iot_component_t * comp, iot_container_t * cont, const iot_data_t * map)
 {
   (void) cont;
-  ((iot_logger_t*) comp)->level = iot_logger_config_level (map);
+  iot_logger_set_level ((iot_logger_t*) comp, iot_logger_config_level (map));
   return true;
 }
 
-- 
2.43.0


From 9980155cb99f02928af7258814e5427b5056f98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:08 +0000
Subject: [PATCH 28/54] fix: log record longer than its buffer is sent from
 beyond it and loses its new line

---
 src/c/logger.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index 4e4f360..33e6128 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -155,7 +155,13 @@ static inline size_t iot_logger_format_log (iot_logger_impl_t * logger, iot_logl
 #ifdef IOT_HAS_PRCTL
   prctl (PR_GET_NAME, tname);
 #endif
-  return (size_t) snprintf (logger->buff, sizeof (logger->buff), "[%s:%" PRIu64 ":%s:%s] %s\n", tname, timestamp, logger->name, iot_log_levels[level], message);
+  size_t len = (size_t) snprintf (logger->buff, sizeof (logger->buff), "[%s:%" PRIu64 ":%s:%s] %s\n", tname, timestamp, logger->name, iot_log_levels[level], message);
+  if (len >= sizeof (logger->buff)) // Truncated, record still ends with a new line
+  {
+    len = sizeof (logger->buff) - 1u;
+    logger->buff[len - 1u] = '\n';
+  }
+  return len;
 }
 
 static inline void iot_logger_log_to_fd (iot_logger_impl_t * logger, FILE * fd, iot_loglevel_t level, uint64_t timestamp, const char *message)
-- 
2.43.0


From c8f33577626b3e2ae227ae20235aa8342d72a04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:08 +0000
Subject: [PATCH 29/54] fix: long host name in configuration of UDP logger
 overflows a buffer

---
 src/c/logger.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index 33e6128..9d0d0bd 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -319,7 +319,8 @@ static iot_component_t * iot_logger_config (iot_container_t * cont, const iot_da
       const char * sep = strchr (to, ':');
       if (sep)
       {
-        strncpy (target, to, (size_t) (sep - to));
+        size_t len = (size_t) (sep - to);
+        strncpy (target, to, (len < sizeof (target)) ? len : sizeof (target) - 1u);
         host = target;
         to = sep + 1;
       }
-- 
2.43.0


From 852e272168c307bf13ff9e62d89da5f3ad5f0c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:41 +0000
Subject: [PATCH 30/54] fix: default logger set up by two threads at once loses
 messages or fails

---
 src/c/logger.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index 9d0d0bd..e808cdd 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -53,18 +53,18 @@ static iot_logger_impl_t iot_logger_dfl;
 
 static void iot_log_console (iot_logger_t * logger, iot_loglevel_t level, uint64_t timestamp, const char * message, const void *ctx);
 
+static void iot_logger_default_init (void)
+{
+  iot_component_init (&iot_logger_dfl.base.component, IOT_LOGGER_FACTORY, (iot_component_start_fn_t) iot_logger_start, (iot_component_stop_fn_t) iot_logger_stop);
+  iot_logger_dfl.base.level = iot_logger_dfl.save = IOT_LOGLEVEL_DEFAULT;
+  iot_logger_dfl.impl = iot_log_console;
+}
+
 iot_logger_t * iot_logger_default (void)
 {
-  static iot_logger_t * logger = NULL;
-  if (logger == NULL)
-  {
-    logger = &iot_logger_dfl.base;
-    memset (&iot_logger_dfl, 0, sizeof (iot_logger_dfl));
-    iot_component_init (&logger->component, IOT_LOGGER_FACTORY, (iot_component_start_fn_t) iot_logger_start, (iot_component_stop_fn_t) iot_logger_stop);
-    iot_logger_dfl.base.level = iot_logger_dfl.save = IOT_LOGLEVEL_DEFAULT;
-    iot_logger_dfl.impl = iot_log_console;
-  }
-  return logger;
+  static pthread_once_t once = PTHREAD_ONCE_INIT;
+  pthread_once (&once, iot_logger_default_init);
+  return &iot_logger_dfl.base;
 }
 
 void iot_log__va_log (iot_logger_t * l, iot_loglevel_t level, const char* fmt, va_list args)
-- 
2.43.0


From 7dcd4c1abb838a0d3e0fc5b21d2fc94499a74290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:11 +0000
Subject: [PATCH 31/54] fix: JSON escape of a character outside ASCII wrote
 before its string in the C locale

---
 src/c/data-json.c | 52 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 6 deletions(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index 2d2306d..4252d36 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -8,7 +8,6 @@
 #include "iot/base64.h"
 #include "data-impl.h"
 #include <math.h>
-#include <uchar.h>
 
 #define IOT_JSON_BUFF_SIZE 512u
 #define IOT_VAL_BUFF_SIZE 31u
@@ -193,6 +192,41 @@ extern char * iot_data_to_json_with_buffer (const iot_data_t * data, char * buff
   return holder.str;
 }
 
+static uint32_t iot_data_json_hex4 (const char * str)
+{
+  char hex[5] = { str[0], str[1], str[2], str[3], '\0' };
+  return (uint32_t) strtoul (hex, NULL, 16);
+}
+
+/* Write code point as UTF-8, whatever the locale, returning its length */
+static size_t iot_data_json_utf8 (char * dst, uint32_t wc)
+{
+  if (wc < 0x80u)
+  {
+    dst[0] = (char) wc;
+    return 1u;
+  }
+  if (wc < 0x800u)
+  {
+    dst[0] = (char) (0xc0u | (wc >> 6));
+    dst[1] = (char) (0x80u | (wc & 0x3fu));
+    return 2u;
+  }
+  if (wc < 0x10000u)
+  {
+    if (wc >= 0xd800u && wc <= 0xdfffu) wc = 0xfffdu; // Unpaired surrogate
+    dst[0] = (char) (0xe0u | (wc >> 12));
+    dst[1] = (char) (0x80u | ((wc >> 6) & 0x3fu));
+    dst[2] = (char) (0x80u | (wc & 0x3fu));
+    return 3u;
+  }
+  dst[0] = (char) (0xf0u | (wc >> 18));
+  dst[1] = (char) (0x80u | ((wc >> 12) & 0x3fu));
+  dst[2] = (char) (0x80u | ((wc >> 6) & 0x3fu));
+  dst[3] = (char) (0x80u | (wc & 0x3fu));
+  return 4u;
+}
+
 static char * iot_data_string_from_json_token (const char * json, const iot_json_tok_t * token)
 {
   size_t len = (size_t) (token->end - token->start);
@@ -215,12 +249,18 @@ static char * iot_data_string_from_json_token (const char * json, const iot_json
           case 'u':
             if (src + 4 < json + token->start + len)
             {
-              char32_t wc;
-              mbstate_t ps = { 0 };
-              sscanf (++src, "%4" SCNx32, &wc);
-              size_t charsz = c32rtomb (dst, wc, &ps);
-              if (charsz > 0) dst += charsz;
+              uint32_t wc = iot_data_json_hex4 (++src);
               src += 3;
+              if ((wc & 0xfc00u) == 0xd800u && src + 6 < json + token->start + len && src[1] == '\\' && src[2] == 'u')
+              {
+                uint32_t low = iot_data_json_hex4 (src + 3);
+                if ((low & 0xfc00u) == 0xdc00u) // Surrogate pair
+                {
+                  wc = 0x10000u + ((wc & 0x3ffu) << 10) + (low & 0x3ffu);
+                  src += 6;
+                }
+              }
+              dst += iot_data_json_utf8 (dst, wc);
             }
             break;
           default:
-- 
2.43.0


From d457c4d5ff11ffefe5f13a21b48d1fed309d8ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:11 +0000
Subject: [PATCH 32/54] fix: JSON object with a key without value, or with an
 invalid value, read beyond its tokens or failed

---
 src/c/data-json.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index 4252d36..6624be1 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -343,9 +343,18 @@ static iot_data_t * iot_data_map_from_json (iot_json_tok_t ** tokens, const char
   (*tokens)++;
   while  (elements--)
   {
-    iot_data_t * key = iot_data_string_from_json (tokens, json, cache);
+    bool valid = (*tokens)->size > 0u; // Key has a value
+    iot_data_t * key = valid ? iot_data_string_from_json (tokens, json, cache) : NULL;
+    iot_data_t * value = valid ? iot_data_value_from_json (tokens, json, ordered, cache) : NULL;
+    if (value == NULL)
+    {
+      iot_data_free (key);
+      iot_data_free (ordering);
+      iot_data_free (map);
+      return NULL;
+    }
     if (ordered) iot_data_vector_add (ordering, i++, iot_data_add_ref (key));
-    iot_data_map_add (map, key, iot_data_value_from_json (tokens, json, ordered, cache));
+    iot_data_map_add (map, key, value);
   }
   if (ordered) iot_data_set_metadata (map, ordering,IOT_DATA_STATIC (&iot_data_order));
   return map;
@@ -360,7 +369,13 @@ static iot_data_t * iot_data_vector_from_json (iot_json_tok_t ** tokens, const c
   (*tokens)++;
   while (elements--)
   {
-    iot_data_vector_add (vector, index++, iot_data_value_from_json (tokens, json, ordered, cache));
+    iot_data_t * value = iot_data_value_from_json (tokens, json, ordered, cache);
+    if (value == NULL)
+    {
+      iot_data_free (vector);
+      return NULL;
+    }
+    iot_data_vector_add (vector, index++, value);
   }
   return vector;
 }
-- 
2.43.0


From 40e3e55f39aaad50ce46e650187ba009bd1f6d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:11 +0000
Subject: [PATCH 33/54] fix: key repeated in an ordered JSON object was output
 twice

---
 src/c/data-json.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index 6624be1..d9edd07 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -353,9 +353,10 @@ static iot_data_t * iot_data_map_from_json (iot_json_tok_t ** tokens, const char
       iot_data_free (map);
       return NULL;
     }
-    if (ordered) iot_data_vector_add (ordering, i++, iot_data_add_ref (key));
+    if (ordered && iot_data_map_get (map, key) == NULL) iot_data_vector_add (ordering, i++, iot_data_add_ref (key));
     iot_data_map_add (map, key, value);
   }
+  if (ordered) iot_data_vector_resize (ordering, i); // May be smaller if had duplicate keys
   if (ordered) iot_data_set_metadata (map, ordering,IOT_DATA_STATIC (&iot_data_order));
   return map;
 }
-- 
2.43.0


From 4e511c4f58bf73d3c9c587df309e86c2d4154e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:11 +0000
Subject: [PATCH 34/54] fix: JSON integer beyond 64 bits was read as the
 nearest 64 bit integer

---
 src/c/data-json.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index d9edd07..d5dea7b 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -8,6 +8,7 @@
 #include "iot/base64.h"
 #include "data-impl.h"
 #include <math.h>
+#include <errno.h>
 
 #define IOT_JSON_BUFF_SIZE 512u
 #define IOT_VAL_BUFF_SIZE 31u
@@ -301,6 +302,7 @@ static iot_data_t * iot_data_string_from_json (iot_json_tok_t ** tokens, const c
 static iot_data_t * iot_data_primitive_from_json (iot_json_tok_t ** tokens, const char * json)
 {
   iot_data_t * ret = NULL;
+  char * end;
   char * str = iot_data_string_from_json_token (json, *tokens);
   (*tokens)++;
   switch (str[0])
@@ -316,12 +318,20 @@ static iot_data_t * iot_data_primitive_from_json (iot_json_tok_t ** tokens, cons
       else if (strchr (str, '-'))
       {
         int64_t i64;
-        if (sscanf (str,"%"SCNd64, &i64) == 1) ret = iot_data_alloc_i64 (i64);
+        errno = 0;
+        i64 = strtoll (str, &end, 10);
+        if (end != str) ret = (errno == ERANGE) ? iot_data_alloc_f64 (strtod (str, NULL)) : iot_data_alloc_i64 (i64);
       }
       else
       {
         uint64_t ui64;
-        if (sscanf (str,"%"SCNu64, &ui64) == 1)
+        errno = 0;
+        ui64 = strtoull (str, &end, 10);
+        if (end != str && errno == ERANGE)
+        {
+          ret = iot_data_alloc_f64 (strtod (str, NULL));
+        }
+        else if (end != str)
         {
           ret = (ui64 <= INT64_MAX) ? iot_data_alloc_i64 ((int64_t) ui64) : iot_data_alloc_ui64 (ui64);
         }
-- 
2.43.0


From 2b4c1102d81f3cc32d31e400e3348f1d0e1e0368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:11 +0000
Subject: [PATCH 35/54] fix: JSON output of a vector with an unset element
 failed

---
 src/c/data-json.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index d5dea7b..a880981 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -76,6 +76,11 @@ static void iot_data_dump_json_ptr (iot_string_holder_t * holder, const void * p
 
 static void iot_data_dump_json (iot_string_holder_t * holder, const iot_data_t * data)
 {
+  if (data == NULL) // Unset vector element
+  {
+    iot_data_strcat (holder, "null");
+    return;
+  }
   switch (data->type)
   {
     case IOT_DATA_STRING:
-- 
2.43.0


From 7897aa124916b74cbb0aa88d34dad15416546ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:11 +0000
Subject: [PATCH 36/54] fix: JSON output of negative infinity lost its sign

---
 src/c/data-json.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index a880981..51f3c93 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -65,9 +65,9 @@ static void iot_data_dump_json_ptr (iot_string_holder_t * holder, const void * p
     case IOT_DATA_INT64: snprintf (buff, IOT_VAL_BUFF_SIZE, "%" PRId64, *(const int64_t *) ptr); break;
     case IOT_DATA_UINT64: snprintf (buff, IOT_VAL_BUFF_SIZE, "%" PRIu64, *(const uint64_t *) ptr); break;
     case IOT_DATA_FLOAT32:
-      (fpclassify (*(const float*) ptr) == FP_INFINITE) ? snprintf (buff, IOT_VAL_BUFF_SIZE, "1e400") : snprintf (buff, IOT_VAL_BUFF_SIZE, "%.8e", *(const float*) ptr); break;
+      (fpclassify (*(const float*) ptr) == FP_INFINITE) ? snprintf (buff, IOT_VAL_BUFF_SIZE, (*(const float*) ptr < 0) ? "-1e400" : "1e400") : snprintf (buff, IOT_VAL_BUFF_SIZE, "%.8e", *(const float*) ptr); break;
     case IOT_DATA_FLOAT64:
-      (fpclassify (*(const double*) ptr) == FP_INFINITE) ? snprintf (buff, IOT_VAL_BUFF_SIZE, "1e800") : snprintf (buff, IOT_VAL_BUFF_SIZE, "%.16e", *(const double*) ptr); break;
+      (fpclassify (*(const double*) ptr) == FP_INFINITE) ? snprintf (buff, IOT_VAL_BUFF_SIZE, (*(const double*) ptr < 0) ? "-1e800" : "1e800") : snprintf (buff, IOT_VAL_BUFF_SIZE, "%.16e", *(const double*) ptr); break;
     case IOT_DATA_NULL: strncpy (buff, "null", IOT_VAL_BUFF_SIZE); break;
     default: strncpy (buff, (*(const bool*) ptr) ? "true" : "false", IOT_VAL_BUFF_SIZE); break;
   }
-- 
2.43.0


From 49c6c8f7f2d6d8a851c8df860f058163000f8636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:11 +0000
Subject: [PATCH 37/54] fix: CBOR output of a vector with an unset element
 failed

---
 src/c/data-cbor.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/c/data-cbor.c b/src/c/data-cbor.c
index 609f549..353544e 100644
--- a/src/c/data-cbor.c
+++ b/src/c/data-cbor.c
@@ -101,6 +101,12 @@ static void iot_data_dump_cbor_ptr (iot_cbor_holder_t * holder, const void * ptr
 
 static void iot_data_dump_cbor (iot_cbor_holder_t * holder, const iot_data_t * data)
 {
+  if (data == NULL) // Unset vector element
+  {
+    iot_cbor_holder_check_size (holder, 1);
+    holder->data[holder->index++] = 0xf6;
+    return;
+  }
   switch (data->type)
   {
     case IOT_DATA_UINT8:
-- 
2.43.0


From 340b496d8553bd308ea72c20e7121946f607d785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:11 +0000
Subject: [PATCH 38/54] fix: CBOR output of zero and other floating point
 values with few bits was not that number

---
 src/c/data-cbor.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/c/data-cbor.c b/src/c/data-cbor.c
index 353544e..1351d5b 100644
--- a/src/c/data-cbor.c
+++ b/src/c/data-cbor.c
@@ -78,6 +78,24 @@ static void iot_data_cbor_write_int (iot_cbor_holder_t * holder, int64_t value)
   iot_data_cbor_write_uint (holder, value < 0 ? -value : value, value < 0 ? 0x20 : 0);
 }
 
+/* Floating point numbers have a fixed size, whatever the value of their bits */
+
+static void iot_data_cbor_write_f32 (iot_cbor_holder_t * holder, uint32_t bits)
+{
+  bits = htobe32 (bits);
+  iot_cbor_holder_check_size (holder, 5);
+  holder->data[holder->index++] = 0xfa;
+  iot_data_cbor_write_bytes (holder, &bits, sizeof (bits));
+}
+
+static void iot_data_cbor_write_f64 (iot_cbor_holder_t * holder, uint64_t bits)
+{
+  bits = htobe64 (bits);
+  iot_cbor_holder_check_size (holder, 9);
+  holder->data[holder->index++] = 0xfb;
+  iot_data_cbor_write_bytes (holder, &bits, sizeof (bits));
+}
+
 static void iot_data_dump_cbor_ptr (iot_cbor_holder_t * holder, const void * ptr, const iot_data_type_t type)
 {
   switch (type)
@@ -90,8 +108,8 @@ static void iot_data_dump_cbor_ptr (iot_cbor_holder_t * holder, const void * ptr
     case IOT_DATA_UINT32: iot_data_cbor_write_uint (holder, *(const uint32_t *) ptr, 0); break;
     case IOT_DATA_INT64: iot_data_cbor_write_int (holder, *(const int64_t *) ptr); break;
     case IOT_DATA_UINT64: iot_data_cbor_write_uint (holder, *(const uint64_t *) ptr, 0); break;
-    case IOT_DATA_FLOAT32: iot_data_cbor_write_uint (holder, *(const uint32_t *) ptr, 0xe0); break;
-    case IOT_DATA_FLOAT64: iot_data_cbor_write_uint (holder, *(const uint64_t *) ptr, 0xe0); break;
+    case IOT_DATA_FLOAT32: iot_data_cbor_write_f32 (holder, *(const uint32_t *) ptr); break;
+    case IOT_DATA_FLOAT64: iot_data_cbor_write_f64 (holder, *(const uint64_t *) ptr); break;
     case IOT_DATA_NULL:
       iot_cbor_holder_check_size (holder, 1); holder->data[holder->index++] = 0xf6; break;
     default:
@@ -138,7 +156,7 @@ static void iot_data_dump_cbor (iot_cbor_holder_t * holder, const iot_data_t * d
       uint32_t v;
       float f = iot_data_f32 (data);
       memcpy (&v, &f, sizeof (v));
-      iot_data_cbor_write_uint (holder, v, 0xe0);
+      iot_data_cbor_write_f32 (holder, v);
       break;
     }
     case IOT_DATA_FLOAT64:
@@ -146,7 +164,7 @@ static void iot_data_dump_cbor (iot_cbor_holder_t * holder, const iot_data_t * d
       uint64_t v;
       double d = iot_data_f64 (data);
       memcpy (&v, &d, sizeof (v));
-      iot_data_cbor_write_uint (holder, v, 0xe0);
+      iot_data_cbor_write_f64 (holder, v);
       break;
     }
     case IOT_DATA_BOOL:
-- 
2.43.0


From 90ef52cd1d53f2e63ed020275e8313f812e9f394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:11 +0000
Subject: [PATCH 39/54] fix: base64 text that ends in the middle of a byte was
 accepted

---
 src/c/base64.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c/base64.c b/src/c/base64.c
index 2d6d18a..e76d0c1 100644
--- a/src/c/base64.c
+++ b/src/c/base64.c
@@ -78,6 +78,7 @@ bool iot_b64_decode (const char *in, void *outv, size_t *outLen)
       iter = 0;
     }
   }
+  if (iter == 1) { return false; } // truncated, no whole byte
   if (iter == 3)
   {
     if ((len += 2) > *outLen) { return false; } // buffer overflow
-- 
2.43.0


From 19ed3849dc35f82383d782e5d5dce4602e924be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:11 +0000
Subject: [PATCH 40/54] fix: YAML integer at or beyond the 64 bit ranges was
 read as another type or value

---
 src/c/data-yaml.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/c/data-yaml.c b/src/c/data-yaml.c
index b6d4c4d..fc57005 100644
--- a/src/c/data-yaml.c
+++ b/src/c/data-yaml.c
@@ -6,6 +6,7 @@
 #include "iot/data.h"
 #include "data-impl.h"
 #include <math.h>
+#include <errno.h>
 #include <yaml.h>
 
 static iot_data_t * iot_data_map_from_yaml (yaml_parser_t *parser, iot_data_t **exception);
@@ -38,18 +39,20 @@ static iot_data_t * iot_data_value_from_yaml (const yaml_event_t *event)
       char *e;
       if (*val == '-')
       {
+        errno = 0;
         long long ll = strtoll (val, &e, 0);
-        if (*e == '\0')
+        if (*e == '\0' && errno != ERANGE)
         {
           ret = iot_data_alloc_i64 (ll);
         }
       }
-      if (ret == NULL)
+      else
       {
+        errno = 0;
         unsigned long long ull = strtoull (val, &e, 0);
-        if (*e == '\0')
+        if (*e == '\0' && errno != ERANGE)
         {
-          ret = ull < INT64_MAX ? iot_data_alloc_i64 (ull) : iot_data_alloc_ui64 (ull);
+          ret = ull <= INT64_MAX ? iot_data_alloc_i64 (ull) : iot_data_alloc_ui64 (ull);
         }
       }
       if (ret == NULL)
-- 
2.43.0


From 819352a1c6d475bf49a278fef730f7013530effc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:26 +0000
Subject: [PATCH 41/54] fix: XML content before a child element was lost

---
 src/c/data-xml.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/c/data-xml.c b/src/c/data-xml.c
index 37b7a1e..0c27438 100644
--- a/src/c/data-xml.c
+++ b/src/c/data-xml.c
@@ -28,7 +28,10 @@ static iot_data_t * iot_data_map_from_xml (bool root, yxml_t * x, iot_string_hol
     {
       case YXML_ELEMSTART:
       {
+        char * text = holder->str[strspn (holder->str, " \t\r\n")] ? strdup (holder->str) : NULL; // Content before child, other than white space
         iot_data_t * child = iot_data_map_from_xml (false, x, holder, str);
+        if (text) iot_data_strcat_escape (holder, text, false);
+        free (text);
         if (child)
         {
           if (root)
-- 
2.43.0


From 49fca88cb45967fa69908bc5958a431c083aefa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:26 +0000
Subject: [PATCH 42/54] fix: XML document that ends early or has more than one
 root was accepted

---
 src/c/data-xml.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/c/data-xml.c b/src/c/data-xml.c
index 0c27438..c6d025a 100644
--- a/src/c/data-xml.c
+++ b/src/c/data-xml.c
@@ -116,6 +116,16 @@ iot_data_t * iot_data_from_xml (const char * xml)
   holder.free = YXML_BUFF_SIZE - 1; // Allowing for string terminator
   yxml_init (x, x+1, YXML_PARSER_BUFF_SIZE);
   result = iot_data_map_from_xml (true, x, &holder, &xml);
+  bool ok = true;
+  while (ok && result && *xml) // Rest of document after root element
+  {
+    ok = yxml_parse (x, *xml++) >= 0;
+  }
+  if (result && (!ok || yxml_eof (x) < 0)) // Not well formed or incomplete
+  {
+    iot_data_free (result);
+    result = NULL;
+  }
   free (x);
   free (holder.str);
   return result;
-- 
2.43.0


From c28a4a091e789fa7b75bb0fc530d12c4c5d90f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:11 +0000
Subject: [PATCH 43/54] fix: YAML alias was skipped, so that the rest of its
 map or sequence was misread

---
 src/c/data-yaml.c | 74 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 48 insertions(+), 26 deletions(-)

diff --git a/src/c/data-yaml.c b/src/c/data-yaml.c
index fc57005..a457b0f 100644
--- a/src/c/data-yaml.c
+++ b/src/c/data-yaml.c
@@ -9,7 +9,7 @@
 #include <errno.h>
 #include <yaml.h>
 
-static iot_data_t * iot_data_map_from_yaml (yaml_parser_t *parser, iot_data_t **exception);
+static iot_data_t * iot_data_node_from_yaml (yaml_parser_t *parser, const yaml_event_t *event, iot_data_t *anchors, iot_data_t **exception);
 
 static iot_data_t * iot_data_string_from_yaml (const yaml_event_t *event)
 {
@@ -72,7 +72,12 @@ static iot_data_t * iot_data_value_from_yaml (const yaml_event_t *event)
   return ret;
 }
 
-static iot_data_t * iot_data_vector_from_yaml (yaml_parser_t *parser, iot_data_t **exception)
+static void iot_data_anchor_from_yaml (iot_data_t *anchors, const yaml_char_t *anchor, iot_data_t *elem)
+{
+  if (anchor && elem) iot_data_map_add (anchors, iot_data_alloc_string ((const char *)anchor, IOT_DATA_COPY), iot_data_add_ref (elem));
+}
+
+static iot_data_t * iot_data_vector_from_yaml (yaml_parser_t *parser, iot_data_t *anchors, iot_data_t **exception)
 {
   yaml_event_t event;
   bool done = false;
@@ -89,19 +94,11 @@ static iot_data_t * iot_data_vector_from_yaml (yaml_parser_t *parser, iot_data_t
     }
     switch (event.type)
     {
-      case YAML_SCALAR_EVENT:
-        elem = iot_data_value_from_yaml (&event);
-        break;
-      case YAML_MAPPING_START_EVENT:
-        elem = iot_data_map_from_yaml (parser, exception);
-        break;
-      case YAML_SEQUENCE_START_EVENT:
-        elem = iot_data_vector_from_yaml (parser, exception);
-        break;
       case YAML_SEQUENCE_END_EVENT:
         done = true;
         break;
       default:
+        elem = iot_data_node_from_yaml (parser, &event, anchors, exception);
         break;
     }
     if (elem)
@@ -122,7 +119,7 @@ static iot_data_t * iot_data_vector_from_yaml (yaml_parser_t *parser, iot_data_t
   }
 }
 
-static iot_data_t * iot_data_map_from_yaml (yaml_parser_t *parser, iot_data_t **exception)
+static iot_data_t * iot_data_map_from_yaml (yaml_parser_t *parser, iot_data_t *anchors, iot_data_t **exception)
 {
   yaml_event_t event;
   bool done = false;
@@ -141,23 +138,24 @@ static iot_data_t * iot_data_map_from_yaml (yaml_parser_t *parser, iot_data_t **
       case YAML_SCALAR_EVENT:
         if (name)
         {
-          elem = iot_data_value_from_yaml (&event);
+          elem = iot_data_node_from_yaml (parser, &event, anchors, exception);
         }
         else
         {
           name = iot_data_string_from_yaml (&event);
+          iot_data_anchor_from_yaml (anchors, event.data.scalar.anchor, name);
         }
         break;
-      case YAML_MAPPING_START_EVENT:
-        elem = iot_data_map_from_yaml (parser, exception);
-        break;
-      case YAML_SEQUENCE_START_EVENT:
-        elem = iot_data_vector_from_yaml (parser, exception);
-        break;
       case YAML_MAPPING_END_EVENT:
         done = true;
         break;
       default:
+        elem = iot_data_node_from_yaml (parser, &event, anchors, exception);
+        if (name == NULL && elem && event.type == YAML_ALIAS_EVENT && iot_data_type (elem) == IOT_DATA_STRING) // Alias as key
+        {
+          name = elem;
+          elem = NULL;
+        }
         break;
     }
     if (elem)
@@ -188,6 +186,33 @@ static iot_data_t * iot_data_map_from_yaml (yaml_parser_t *parser, iot_data_t **
   }
 }
 
+static iot_data_t * iot_data_node_from_yaml (yaml_parser_t *parser, const yaml_event_t *event, iot_data_t *anchors, iot_data_t **exception)
+{
+  iot_data_t *elem = NULL;
+  switch (event->type)
+  {
+    case YAML_SCALAR_EVENT:
+      elem = iot_data_value_from_yaml (event);
+      iot_data_anchor_from_yaml (anchors, event->data.scalar.anchor, elem);
+      break;
+    case YAML_MAPPING_START_EVENT:
+      elem = iot_data_map_from_yaml (parser, anchors, exception);
+      iot_data_anchor_from_yaml (anchors, event->data.mapping_start.anchor, elem);
+      break;
+    case YAML_SEQUENCE_START_EVENT:
+      elem = iot_data_vector_from_yaml (parser, anchors, exception);
+      iot_data_anchor_from_yaml (anchors, event->data.sequence_start.anchor, elem);
+      break;
+    case YAML_ALIAS_EVENT:
+      elem = iot_data_add_ref (iot_data_string_map_get (anchors, (const char *)event->data.alias.anchor));
+      if (elem == NULL) *exception = iot_data_alloc_string_fmt ("Unknown alias %s at line %zu", event->data.alias.anchor, parser->mark.line);
+      break;
+    default:
+      break;
+  }
+  return elem;
+}
+
 iot_data_t * iot_data_from_yaml (const char * yaml, iot_data_t **exception)
 {
   assert (yaml);
@@ -195,6 +220,7 @@ iot_data_t * iot_data_from_yaml (const char * yaml, iot_data_t **exception)
   yaml_parser_t parser;
   yaml_event_t event;
   bool done = false;
+  iot_data_t *anchors = iot_data_alloc_map (IOT_DATA_STRING);
   *exception = NULL;
   yaml_parser_initialize (&parser);
   yaml_parser_set_input_string (&parser, (const yaml_char_t *)yaml, strlen (yaml));
@@ -208,15 +234,10 @@ iot_data_t * iot_data_from_yaml (const char * yaml, iot_data_t **exception)
     switch (event.type)
     {
       case YAML_SCALAR_EVENT:
-        result = iot_data_value_from_yaml (&event);
-        done = true;
-        break;
       case YAML_MAPPING_START_EVENT:
-        result = iot_data_map_from_yaml (&parser, exception);
-        done = true;
-        break;
       case YAML_SEQUENCE_START_EVENT:
-        result = iot_data_vector_from_yaml (&parser, exception);
+      case YAML_ALIAS_EVENT:
+        result = iot_data_node_from_yaml (&parser, &event, anchors, exception);
         done = true;
         break;
       case YAML_STREAM_END_EVENT:
@@ -229,5 +250,6 @@ iot_data_t * iot_data_from_yaml (const char * yaml, iot_data_t **exception)
   } while (!done);
 
   yaml_parser_delete (&parser);
+  iot_data_free (anchors);
   return result;
 }
-- 
2.43.0


From f44a5b3671eced3ea37ab81a8d2d08f2d5f1e63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:31 +0000
Subject: [PATCH 44/54] fix: XML end tag of the root element with space before
 '>' was refused

---
 src/c/yxml.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/c/yxml.c b/src/c/yxml.c
index 7007a5f..a04f1c8 100644
--- a/src/c/yxml.c
+++ b/src/c/yxml.c
@@ -641,8 +641,9 @@ yxml_ret_t yxml_parse(yxml_t *x, int _ch) {
 		if(yxml_isName(ch))
 			return yxml_elemclose(x, ch);
 		if(yxml_isSP(ch)) {
+			yxml_ret_t ret = yxml_elemcloseend(x);
 			x->state = YXMLS_etag2;
-			return yxml_elemcloseend(x);
+			return ret;
 		}
 		if(ch == (unsigned char)'>') {
 			x->state = YXMLS_misc2;
@@ -653,7 +654,7 @@ yxml_ret_t yxml_parse(yxml_t *x, int _ch) {
 		if(yxml_isSP(ch))
 			return YXML_OK;
 		if(ch == (unsigned char)'>') {
-			x->state = YXMLS_misc2;
+			x->state = x->stacklen ? YXMLS_misc2 : YXMLS_misc3;
 			return YXML_OK;
 		}
 		break;
-- 
2.43.0


From 62899c7a5eb256b6a4f8fb123c263c09919a32c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:31 +0000
Subject: [PATCH 45/54] fix: XML character references to U+E000..U+E7FD were
 refused and surrogates accepted

---
 src/c/yxml.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/yxml.c b/src/c/yxml.c
index a04f1c8..1ac9c47 100644
--- a/src/c/yxml.c
+++ b/src/c/yxml.c
@@ -316,7 +316,7 @@ static yxml_ret_t yxml_refend(yxml_t *x, yxml_ret_t ret) {
 	}
 
 	/* Codepoints not allowed in the XML 1.1 definition of a Char */
-	if(!ch || ch > 0x10FFFF || ch == 0xFFFE || ch == 0xFFFF || (ch-0xDFFF) < 0x7FF)
+	if(!ch || ch > 0x10FFFF || ch == 0xFFFE || ch == 0xFFFF || (ch-0xD800) < 0x800)
 		return YXML_EREF;
 	yxml_setutf8(x->data, ch);
 	return ret;
-- 
2.43.0


From 72da121dcf84f5cfd5fa988e420f5d2b9bcb2faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:06 +0000
Subject: [PATCH 46/54] fix: iot_file_write reports failure to flush or to
 replace the file

The results of fclose and rename were ignored: with the disk full a truncated file replaced the old one, and true was returned although nothing had been written.
---
 src/c/file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/file.c b/src/c/file.c
index b1c4445..abf1be5 100644
--- a/src/c/file.c
+++ b/src/c/file.c
@@ -116,8 +116,8 @@ bool iot_file_write_binary (const char * path, const uint8_t * binary, size_t le
   if (fd)
   {
     ok = (fwrite (binary, len, 1u, fd) == 1u);
-    fclose (fd);
-    if (ok) rename (tmp_path, path);
+    if (fclose (fd) != 0) ok = false; // Buffered data could not be written
+    if (ok) ok = (rename (tmp_path, path) == 0);
   }
   return ok;
 }
-- 
2.43.0


From 2d0768d1370fce839961e73226582c6fbd5f59dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:06 +0000
Subject: [PATCH 47/54] fix: iot_file_read_binary returns NULL if the file
 cannot be read

Reading a directory, or a read error, ran into an assertion, or without assertions returned uninitialized memory or wrote through NULL.
---
 src/c/file.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/c/file.c b/src/c/file.c
index abf1be5..aaee460 100644
--- a/src/c/file.c
+++ b/src/c/file.c
@@ -87,16 +87,22 @@ uint8_t * iot_file_read_binary (const char * path, size_t * len)
   FILE * fd = fopen (path, "r");
   if (fd)
   {
-    fseek (fd, 0, SEEK_END);
-    size = ftell (fd);
-    if (size) // Return NULL if file empty
+    long end = (fseek (fd, 0, SEEK_END) == 0) ? ftell (fd) : 0;
+    if (end > 0) // Return NULL if file empty
     {
+      size = (size_t) end;
       rewind (fd);
       ret = malloc (size + 1); // Allocate extra byte so can be NULL terminated if a string
-      size_t items = fread (ret, size, 1u, fd);
-      assert (items == 1);
-      (void) items;
-      ret[size] = 0; // String NULL terminator
+      if (ret && fread (ret, size, 1u, fd) == 1u)
+      {
+        ret[size] = 0; // String NULL terminator
+      }
+      else // Not readable (a directory for example)
+      {
+        free (ret);
+        ret = NULL;
+        size = 0;
+      }
     }
     fclose (fd);
   }
-- 
2.43.0


From d10344cf53c05f8ec4bd8a73e9a2a520ed72f53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:06 +0000
Subject: [PATCH 48/54] fix: iot_file_list closes the directory if the regular
 expression is invalid

---
 src/c/file.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/c/file.c b/src/c/file.c
index aaee460..9c78421 100644
--- a/src/c/file.c
+++ b/src/c/file.c
@@ -146,7 +146,11 @@ iot_data_t * iot_file_list (const char * directory, const char * regex_str)
   DIR *d = opendir (directory);
   if (!d) goto DONE;
   regex_t regex;
-  if (regex_str && regcomp (&regex, regex_str, REG_NOSUB) != 0) goto DONE;
+  if (regex_str && regcomp (&regex, regex_str, REG_NOSUB) != 0)
+  {
+    closedir (d);
+    goto DONE;
+  }
   list = iot_data_alloc_list ();
   const struct dirent *dir;
   while ((dir = readdir (d)))
-- 
2.43.0


From 03f91bd6117e317f74da2877be4fef5379db15d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:06 +0000
Subject: [PATCH 49/54] fix: iot_store_config_list lists only names that end
 with .json

The dot of the regular expression matched any character, so that a file myjson was listed as configuration m.
---
 src/c/store.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/store.c b/src/c/store.c
index 87cf2ac..29c21ff 100644
--- a/src/c/store.c
+++ b/src/c/store.c
@@ -96,14 +96,14 @@ bool iot_store_config_delete (const char * name, const char * uri)
 iot_data_t * iot_store_config_list (const char * directory)
 {
 #ifndef _AZURESPHERE_
-  static const char extension_regex[] = ".json$";
+  static const char extension_regex[] = "\\.json$";
   iot_data_t * file_list = iot_file_list (directory, extension_regex);
   iot_data_list_iter_t list_iter;
   iot_data_list_iter (file_list, &list_iter);
   while (iot_data_list_iter_next (&list_iter))
   {
     const char *full_name = iot_data_list_iter_string_value (&list_iter);
-    const char *new_name = strndup (full_name, strlen (full_name) - (sizeof (extension_regex) - 2));
+    const char *new_name = strndup (full_name, strlen (full_name) - (sizeof (extension_regex) - 3));
     iot_data_t *old_iot = iot_data_list_iter_replace (&list_iter, iot_data_alloc_string (new_name, IOT_DATA_TAKE));
     iot_data_free (old_iot);
   }
-- 
2.43.0


From d423bb2ffd54276847746149ca7c97c7b20eeb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:06 +0000
Subject: [PATCH 50/54] fix: iot_store_config_list returns NULL if there is no
 such directory

---
 src/c/store.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c/store.c b/src/c/store.c
index 29c21ff..afd51e5 100644
--- a/src/c/store.c
+++ b/src/c/store.c
@@ -98,6 +98,7 @@ iot_data_t * iot_store_config_list (const char * directory)
 #ifndef _AZURESPHERE_
   static const char extension_regex[] = "\\.json$";
   iot_data_t * file_list = iot_file_list (directory, extension_regex);
+  if (file_list == NULL) return NULL; // No such directory
   iot_data_list_iter_t list_iter;
   iot_data_list_iter (file_list, &list_iter);
   while (iot_data_list_iter_next (&list_iter))
-- 
2.43.0


From 7a5a6c21eb1f98685e29591bbddd127b8146f481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 51/54] fix: iot_file_write_binary refuses a path too long for
 its temporary file

The path of the temporary file was truncated instead, so that a file of another name could be overwritten.
---
 src/c/file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/file.c b/src/c/file.c
index 9c78421..264983d 100644
--- a/src/c/file.c
+++ b/src/c/file.c
@@ -115,8 +115,8 @@ bool iot_file_write_binary (const char * path, const uint8_t * binary, size_t le
   assert (path && binary);
   bool ok = false;
   char tmp_path[PATH_MAX];
-  strncpy (tmp_path, path, PATH_MAX - 5);
-  tmp_path[PATH_MAX-5] = '\0';
+  if (strlen (path) > PATH_MAX - 5) return false; // No room for temporary file name
+  strcpy (tmp_path, path);
   strcat (tmp_path, ".new");
   FILE *fd = fopen (tmp_path, "w");
   if (fd)
-- 
2.43.0


From f5653bcfd035e563829de34032f67697e4a44f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 52/54] fix: iot_config number and bool getters log to the
 default logger if none is given

---
 src/c/config.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c/config.c b/src/c/config.c
index 78df114..63d19e5 100644
--- a/src/c/config.c
+++ b/src/c/config.c
@@ -34,6 +34,7 @@ static bool iot_config_cast (const iot_data_t * map, const char * key, void * va
   bool ret = (data && iot_data_cast (data, type, val));
   if (! ret)
   {
+    if (logger == NULL) logger = iot_logger_default ();
     iot_log_error (logger, "Failed to resolve %s configuration value for: %s", iot_data_type_string (type), key);
   }
   return ret;
-- 
2.43.0


From e0e30423cf7f9191e5af4cb550edac62cd8f6cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:08 +0000
Subject: [PATCH 53/54] fix: thread created without attributes, as those were
 refused, is detached too

---
 src/c/thread.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c/thread.c b/src/c/thread.c
index f5d779b..69c922f 100644
--- a/src/c/thread.c
+++ b/src/c/thread.c
@@ -113,6 +113,7 @@ bool iot_thread_create (pthread_t * tid, iot_thread_fn_t func, void * arg, int p
   if (ret != 0)
   {
     ret = pthread_create (tid, NULL, func, arg);
+    if (ret == 0) pthread_detach (*tid); // As would have been with attributes
     if (ret != 0) iot_log_error (logger, "pthread_create failed ret: %d", ret);
   }
   pthread_attr_destroy (&attr);
-- 
2.43.0


From 7cfc900144bebc9ffb169e8f84e1b63caf5ac308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:08 +0000
Subject: [PATCH 54/54] fix: priority range seen half set by a second thread
 made valid priorities invalid

---
 src/c/thread.c | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/c/thread.c b/src/c/thread.c
index 69c922f..6b8f6ae 100644
--- a/src/c/thread.c
+++ b/src/c/thread.c
@@ -35,14 +35,7 @@ static void * zephyr_func_wrapper (void * data)
 
 bool iot_thread_priority_valid (int priority)
 {
-  static int max_priority = -2;
-  static int min_priority = -2;
-  if (max_priority == -2)
-  {
-    max_priority = sched_get_priority_max (SCHED_FIFO);
-    min_priority = sched_get_priority_min (SCHED_FIFO);
-  }
-  return (priority >= min_priority && priority <= max_priority);
+  return (priority >= sched_get_priority_min (SCHED_FIFO) && priority <= sched_get_priority_max (SCHED_FIFO));
 }
 
 bool iot_thread_create (pthread_t * tid, iot_thread_fn_t func, void * arg, int priority, int affinity, iot_logger_t * logger)
-- 
2.43.0

