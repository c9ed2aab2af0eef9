From 918c3b376848205185d63042cfeca7d68b1113e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 01/73] fix: keep arrays usable when appending moves them

An append beyond the capacity reallocates the block, but the caller (and every
array kept in a struct field) went on using the freed one, losing elements and
freeing it twice. Growing from a capacity of 0, as $copy() of an empty array and
an empty rangeing() leave it, wrote behind the block.
---
 include/arrays.h | 27 ++++++++++++++-------------
 src/arrays.c     | 14 +++++++++-----
 src/events.c     |  2 ++
 3 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/include/arrays.h b/include/arrays.h
index 9463abe..4ae25d3 100644
--- a/include/arrays.h
+++ b/include/arrays.h
@@ -199,10 +199,10 @@ C_API array_t array(void);
 C_API array_t arrays(size_t, ...);
 C_API array_t data_ex(size_t, va_list);
 C_API array_t data_copy(array_t des, array_t src);
-C_API void data_append(array_t, void *);
+C_API array_t data_append(array_t, void *);
 C_API values_t data_pop(array_t arr);
 C_API values_t data_shift(array_t arr);
-C_API void data_append_item(array_t arr, ...);
+C_API array_t data_append_item(array_t arr, ...);
 C_API void data_delete(array_t);
 C_API void data_remove(array_t, size_t);
 
@@ -212,7 +212,7 @@ C_API tuple_t data_tuple(array_t);
 C_API array_t data_reset(array_t);
 C_API size_t data_size(array_t);
 C_API size_t data_capacity(array_t);
-C_API void data_reserve(array_t, size_t);
+C_API array_t data_reserve(array_t, size_t);
 C_API atomic_spinlock *data_lock(array_t);
 C_API size_t data_queue_size(void);
 C_API data_types data_type(void *self);
@@ -246,17 +246,18 @@ C_API range_t range(int start, int stop);
 C_API range_t range_char(const char *text);
 
 #ifndef $append
+/* NOTE: growing may move the `array`, so these assign the current address back to `arr`. */
 /* Collect references for global cleanup. */
 #define $gc(ptr) 						data_gc((void *)ptr)
-#define $append(arr, value) 			data_append((array_t)arr, (void *)value)
-#define $append_double(arr, value) 		data_append_item((array_t)arr, DATA_DOUBLE, (double)value)
-#define $append_unsigned(arr, value)	data_append_item((array_t)arr, DATA_MAXSIZE, (size_t)value)
-#define $append_signed(arr, value) 		data_append_item((array_t)arr, DATA_LLONG, (int64_t)value)
-#define $append_string(arr, value) 		data_append_item((array_t)arr, DATA_STRING, (char *)value)
-#define $append_func(arr, value) 		data_append_item((array_t)arr, DATA_FUNC, (data_func_t)value)
-#define $append_char(arr, value) 		data_append_item((array_t)arr, DATA_CHAR, (char)value)
-#define $append_bool(arr, value) 		data_append_item((array_t)arr, DATA_BOOL, (bool)value)
-#define $append_short(arr, value) 		data_append_item((array_t)arr, DATA_SHORT, (short)value)
+#define $append(arr, value) 			((arr) = data_append((array_t)(arr), (void *)value))
+#define $append_double(arr, value) 		((arr) = data_append_item((array_t)(arr), DATA_DOUBLE, (double)value))
+#define $append_unsigned(arr, value)	((arr) = data_append_item((array_t)(arr), DATA_MAXSIZE, (size_t)value))
+#define $append_signed(arr, value) 		((arr) = data_append_item((array_t)(arr), DATA_LLONG, (int64_t)value))
+#define $append_string(arr, value) 		((arr) = data_append_item((array_t)(arr), DATA_STRING, (char *)value))
+#define $append_func(arr, value) 		((arr) = data_append_item((array_t)(arr), DATA_FUNC, (data_func_t)value))
+#define $append_char(arr, value) 		((arr) = data_append_item((array_t)(arr), DATA_CHAR, (char)value))
+#define $append_bool(arr, value) 		((arr) = data_append_item((array_t)(arr), DATA_BOOL, (bool)value))
+#define $append_short(arr, value) 		((arr) = data_append_item((array_t)(arr), DATA_SHORT, (short)value))
 #define $copy(des, src) 				data_copy((array_t)des, (array_t)src)
 #define $remove(arr, index) 			data_remove((array_t)arr, index)
 #define $pop(arr) 						data_pop((array_t)arr)
@@ -267,7 +268,7 @@ C_API range_t range_char(const char *text);
 #define $delete(arr) 					data_delete((array_t)arr)
 #define $capacity(arr) 					data_capacity((array_t)arr)
 #define $lock(arr) 						data_lock((array_t)arr)
-#define $reserve(arr, cap)				data_reserve((array_t)arr, (size_t)cap)
+#define $reserve(arr, cap)				((arr) = data_reserve((array_t)(arr), (size_t)(cap)))
 #endif
 
 #define trim_at(str, pos) (char *)((uintptr_t)(str) + (pos))
diff --git a/src/arrays.c b/src/arrays.c
index cc0ff10..260de9e 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -124,9 +124,11 @@ EVENTS_INLINE atomic_spinlock *data_lock(array_t v) {
 	return &array_mutex(v);
 }
 
-EVENTS_INLINE void data_reserve(array_t v, size_t capacity) {
+EVENTS_INLINE array_t data_reserve(array_t v, size_t capacity) {
 	if (v && capacity)
 		array_reserve(v, capacity);
+
+	return v;
 }
 
 EVENTS_INLINE void data_remove(array_t arr, size_t i) {
@@ -150,18 +152,19 @@ EVENTS_INLINE void data_delete(array_t arr) {
 	}
 }
 
-EVENTS_INLINE void data_append(array_t arr, void *value) {
+EVENTS_INLINE array_t data_append(array_t arr, void *value) {
 	if (array_type(arr) == DATA_TUPLE)
 		throw(logic_error);
 
 	size_t size, cv_cap__ = array_cap(arr);
 	if (cv_cap__ <= array_length(arr)) {
-		size = cv_cap__ << 1;
+		size = cv_cap__ ? cv_cap__ << 1 : 1;
 		array_grow(arr, size);
 	}
 
 	arr[array_length(arr)].object = value;
 	array_set_size(arr, array_length(arr) + 1);
+	return arr;
 }
 
 EVENTS_INLINE values_t data_pop(array_t arr) {
@@ -194,7 +197,7 @@ EVENTS_INLINE values_t data_shift(array_t arr) {
 	return data_values_empty->value;
 }
 
-void data_append_item(array_t arr, ...) {
+array_t data_append_item(array_t arr, ...) {
 	if (array_type(arr) == DATA_TUPLE)
 		throw(logic_error);
 
@@ -202,7 +205,7 @@ void data_append_item(array_t arr, ...) {
 	data_types n = DATA_INVALID;
 	size_t size, cv_cap__ = array_cap(arr), index = array_length(arr);
 	if (cv_cap__ <= index) {
-		size = cv_cap__ << 1;
+		size = cv_cap__ ? cv_cap__ << 1 : 1;
 		array_grow(arr, size);
 	}
 
@@ -229,6 +232,7 @@ void data_append_item(array_t arr, ...) {
 	}
 	va_end(ap);
 	array_set_size(arr, index + 1);
+	return arr;
 }
 
 EVENTS_INLINE array_t data_copy(array_t des, array_t src) {
diff --git a/src/events.c b/src/events.c
index f988d59..d545f21 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2210,6 +2210,8 @@ array_t waitfor(waitgroup_t wg) {
 		t->group_active = false;
 		t->group_finish = true;
 		wgr = array();
+		/* shared with the pool threads, must not move while they append */
+		$reserve(wgr, $size(wg->group));
 		wg->results = wgr;
 		tasks_poster(wg);
 		foreach(co in wg->group) {
-- 
2.43.0


From d0ac491d5fba30939551d0fb69c4a4eccf46cc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 02/73] fix: range() with stop below start is empty

---
 src/arrays.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arrays.c b/src/arrays.c
index 260de9e..318d067 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -90,7 +90,7 @@ range_t rangeing(int start, int stop, int steps) {
 
 range_t range(int start, int stop) {
 	range_t arr = array();
-	int i, n = stop - start;
+	int i, n = stop > start ? stop - start : 0;
 	array_grow((arr), (n + 1));
 	for (i = start; i < stop; i++)
 		$append(arr, (intptr_t)i);
-- 
2.43.0


From 66b7266adc3c065ae245c479a16861124b232ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 03/73] fix: waiting on a task group keeps the run queue and
 task count intact

---
 src/events.c | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/src/events.c b/src/events.c
index d545f21..35c8908 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2146,7 +2146,6 @@ static void __thrd_waitfor(events_deque_t *q) {
 	waitgroup_t wg = q->tasks;
 	tasklist_t *l = __thrd()->run_queue;
 	array_t wgr = wg->results;
-	bool is_sleeping = false;
 	q->tasks = NULL;
 
 	foreach(task in q->jobs) {
@@ -2166,7 +2165,7 @@ static void __thrd_waitfor(events_deque_t *q) {
 	yield();
 	while ($size(q->jobs) > 0) {
 		foreach(group in q->jobs) {
-			co = (tasks_t *)task.object;
+			co = (tasks_t *)group.object;
 			if (task_is_terminated(co)) {
 				$remove(q->jobs, igroup);
 				if (co->results != NULL)
@@ -2175,10 +2174,8 @@ static void __thrd_waitfor(events_deque_t *q) {
 				co->waiting = false;
 				task_delete(co);
 			} else {
-				if (co->status == TASK_NORMAL) {
-					enqueue(l, co);
-				} else if (co->status == TASK_SLEEPING) {
-					is_sleeping = true;
+				/* otherwise, already in `run queue`, or waiting on I/O */
+				if (co->status == TASK_SLEEPING) {
 					co->sleeping = __thrd()->running;
 					suspend();
 				}
@@ -2190,7 +2187,6 @@ static void __thrd_waitfor(events_deque_t *q) {
 		igroup = 0;
 	}
 
-	__thrd()->task_count--;
 	atomic_lock($lock(wg->group));
 	wg->count--;
 	atomic_unlock($lock(wg->group));
@@ -2205,7 +2201,6 @@ array_t waitfor(waitgroup_t wg) {
 	tasks_t *worker, *t = active_task();
 	tasklist_t *l = __thrd()->run_queue;
 	array_t wgr = NULL;
-	bool is_sleeping = false;
 	if (t->group_active && t->task_group == wg && t->task_group->threaded) {
 		t->group_active = false;
 		t->group_finish = true;
@@ -2240,10 +2235,8 @@ array_t waitfor(waitgroup_t wg) {
 					worker->waiting = false;
 					task_delete(worker);
 				} else {
-					if (worker->status == TASK_NORMAL) {
-						enqueue(l, worker);
-					} else if (worker->status == TASK_SLEEPING) {
-						is_sleeping = true;
+					/* otherwise, already in `run queue`, or waiting on I/O */
+					if (worker->status == TASK_SLEEPING) {
 						worker->sleeping = __thrd()->running;
 						suspend();
 					}
@@ -2270,8 +2263,6 @@ array_t waitfor(waitgroup_t wg) {
 		wg->group = NULL;
 		memset(wg, DATA_INVALID, sizeof(data_types));
 		events_free(wg);
-		if (!is_sleeping)
-			__thrd()->task_count--;
 	}
 
 	return wgr;
@@ -2284,9 +2275,7 @@ array_t tasks_wait(task_group_t *wg) {
 	}
 
 	tasks_t *worker, *t = active_task();
-	tasklist_t *l = __thrd()->run_queue;
 	array_t wgr = NULL;
-	bool is_sleeping = false;
 	if (t->group_active && t->task_group == wg && !t->task_group->threaded) {
 		t->group_active = false;
 		t->group_finish = true;
@@ -2303,10 +2292,8 @@ array_t tasks_wait(task_group_t *wg) {
 					worker->waiting = false;
 					task_delete(worker);
 				} else {
-					if (worker->status == TASK_NORMAL) {
-						enqueue(l, worker);
-					} else if (worker->status == TASK_SLEEPING) {
-						is_sleeping = true;
+					/* otherwise, already in `run queue`, or waiting on I/O */
+					if (worker->status == TASK_SLEEPING) {
 						worker->sleeping = __thrd()->running;
 						suspend();
 					}
@@ -2329,8 +2316,6 @@ array_t tasks_wait(task_group_t *wg) {
 		wg->group = NULL;
 		memset(wg, DATA_INVALID, sizeof(data_types));
 		events_free(wg);
-		if (!is_sleeping)
-			__thrd()->task_count--;
 	}
 
 	return wgr;
-- 
2.43.0


From d92049657318e81421351a376658a09bb68e0caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 04/73] fix: wait groups with fewer members than capacity

---
 src/events.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 35c8908..b04119d 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1660,6 +1660,7 @@ static results_data_t tasks_create_result(void) {
 	result->is_terminated = false;
 	result->is_canceled = false;
 	result->id = id;
+	result->tid = __thrd()->thrd_id;
 	result->result.object = NULL;
 	result->type = DATA_RESULT;
 	results[id] = result;
@@ -2027,7 +2028,7 @@ static void tasks_poster(waitgroup_t wg) {
 			for (i = 0; i < $size(sys_event.tasks_cpu_idx); i++) {
 				k = sys_event.tasks_cpu_idx[i].u_int;
 				events_deque_t *q = sys_event.local[k];
-				for (c = 0; c < wg->capacity; c++) {
+				for (c = 0; c < wg->capacity && $size(wg->group) > 0; c++) {
 					tasks_t *t = (tasks_t *)$pop(wg->group).object;
 					t->tid = k;
 					$append(q->jobs, t);
-- 
2.43.0


From b5737994aba741d1084366c22e0f405f1fbfc8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:06 +0000
Subject: [PATCH 05/73] fix: waiting tasks no longer keep sleeping tasks from
 waking up

---
 src/events.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/events.c b/src/events.c
index b04119d..ae58471 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1311,9 +1311,8 @@ static void *task_wait_system(void *v) {
 #ifdef _WIN32
 		__thrd()->active_timer++;
 #endif
-		/* let everyone else run */
-		while (task_yielding_active() > 0)
-			;
+		/* let everyone else run, once, they might be waiting on a sleeping task */
+		task_yielding_active();
 #ifdef _WIN32
 		__thrd()->active_timer--;
 #endif
-- 
2.43.0


From 54f9d212866ed9f445f82b96abcea832a21616d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:06 +0000
Subject: [PATCH 06/73] fix: durations above 2147 ms (timers) and 4294 ms
 (delay result) overflowed

---
 src/events.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/events.c b/src/events.c
index ae58471..249f4f0 100644
--- a/src/events.c
+++ b/src/events.c
@@ -889,7 +889,7 @@ static actor_t *events_actor_timeout(events_t *loop, int ms, actor_cb timer, voi
 		: timeout;
 
 	if (actor_running != NULL) {
-		when = (size_t)(events_nsec() + ms * 1000000);
+		when = (size_t)(events_nsec() + (int64_t)ms * 1000000);
 		for (t = loop->timers->head; t != NULL && t->alarmtime < when; t = t->next)
 			;
 
@@ -1390,7 +1390,7 @@ EVENTS_INLINE uint32_t delay(uint32_t ms) {
 	add_timeout(__thrd()->running, __thrd()->running, ms, now);
 	task_switch(__thrd()->current_handle);
 
-	return (uint32_t)(events_nsec() - now) / 1000000;
+	return (uint32_t)((events_nsec() - now) / 1000000);
 }
 
 static void wait_cb(fds_t fd, int event, void *arg) {
-- 
2.43.0


From e8411f9d740a99f4766dafdbb6b629c9e4d103a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 07/73] fix: generators: first use no longer drops ready tasks,
 last value survives the end of the generator

---
 src/events.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/events.c b/src/events.c
index 249f4f0..cc50de3 100644
--- a/src/events.c
+++ b/src/events.c
@@ -305,6 +305,8 @@ EVENTS_INLINE void events_deinit(void) {
 			foreach_back(t in sys_event.gc) {
 				if (is_data(t.object))
 					$delete(t.object);
+				else if (data_type(t.object) == DATA_GENERATOR)
+					events_free(t.object);
 				else if (is_ptr_usable(t.object)
 					&& ((tasks_t *)t.object)->magic_number == TASK_MAGIC_NUMBER) {
 #if defined(_WIN32) && defined(USE_FIBER)
@@ -1596,8 +1598,8 @@ generator_t generator(param_func_t fn, size_t num_of, ...) {
 			gen->type = DATA_GENERATOR;
 			t->generator = gen;
 			t->is_generator = true;
-			t->garbage = array();
-			$append(t->garbage, gen);
+			/* used by both sides, whichever ends last */
+			data_gc(gen);
 		}
 	}
 
@@ -1622,17 +1624,12 @@ values_t yielded(generator_t gen) {
 	if (data_type(gen) != DATA_GENERATOR)
 		return data_values_empty->value;
 
-	while (!gen->is_ready && !gen->context->halt) {
-		if (gen->context->status == TASK_SUSPENDED) {
-			tasklist_t *l = __thrd()->run_queue;
-			enqueue(l, gen->context);
-		}
-
+	while (!gen->is_ready && !is_empty(gen->context)) {
 		active_info();
 		yield();
 	}
 
-	if (data_type(gen) != DATA_GENERATOR || (gen->context->halt && !gen->is_ready))
+	if (!gen->is_ready)
 		return data_values_empty->value;
 
 	active_task()->gen_id = gen->rid;
@@ -2420,6 +2417,9 @@ static int tasks_schedulering(bool do_io) {
 			--__thrd()->task_count;
 		}
 
+		if (t->is_generator)
+			t->generator->context = NULL;
+
 		if (!t->waiting && !t->referenced) {
 			task_delete(t);
 		} else if (t->referenced) {
-- 
2.43.0


From 37cba06535dd2d453e4055f3257bb5d16e0d8586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:39 +0000
Subject: [PATCH 08/73] fix: a task waiting on a sleeping group member is woken
 once per wait

task_wait_system cleared the 'sleeping' link of the waiter instead of that of the
sleeper, so a member sleeping twice queued its waiter twice.
---
 src/events.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/events.c b/src/events.c
index cc50de3..29f7417 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1342,9 +1342,10 @@ static void *task_wait_system(void *v) {
 				t->ready = true;
 				enqueue(l, t);
 				if (t->sleeping != NULL) {
-					t = t->sleeping;
-					t->ready = true;
+					tasks_t *waiter = t->sleeping;
 					t->sleeping = NULL;
+					t = waiter;
+					t->ready = true;
 					enqueue(l, t);
 				}
 			}
-- 
2.43.0


From a5e3ccfd6c112ed7352d635b8e08bdd8414afbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:13 +0000
Subject: [PATCH 09/73] fix: timeouts disarmed inside a timeout callback no
 longer fire, and none fires early after a long turn

---
 src/events.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/events.c b/src/events.c
index 29f7417..6012c22 100644
--- a/src/events.c
+++ b/src/events.c
@@ -431,7 +431,8 @@ EVENTS_INLINE void events_set_timeout(fds_t sfd, int secs) {
 		target->timeout_idx = EVENTS_TIMEOUT_IDX_UNUSED;
 	}
 	if (secs != 0) {
-		delta = (loop->now + secs - loop->timeout.base_time)
+		/* `loop->now` is the time of the last turn, which may be long ago */
+		delta = (time(NULL) + secs - loop->timeout.base_time)
 			/ loop->timeout.resolution;
 		if (delta >= EVENTS_TIMEOUT_VEC_SIZE) {
 			delta = EVENTS_TIMEOUT_VEC_SIZE - 1;
@@ -790,12 +791,15 @@ EVENTS_INLINE void events_handle_timeout_internal(events_t *loop) {
 			if (vv != 0) {
 				for (j = i * EVENTS_SHORT_BITS; vv != 0; j++, vv <<= 1) {
 					if (vv < 0) {
+						/* a callback may have disarmed the others of this step by now */
 						short v = vec[j];
-						assert(v != 0);
 						for (k = j * EVENTS_SHORT_BITS; v != 0; k++, v <<= 1) {
 							if (v < 0) {
 								events_fd_t *fd = events_target(k);
-								assert(fd->loop_id == loop->loop_id);
+								if (fd->loop_id != loop->loop_id
+									|| fd->timeout_idx != loop->timeout.base_idx)
+									continue;
+
 								fd->timeout_idx = EVENTS_TIMEOUT_IDX_UNUSED;
 								events_id_t loop_id = loop->loop_id;
 								(*fd->callback)(k, EVENTS_TIMEOUT, fd->cb_arg);
-- 
2.43.0


From b777ba49aee364515362f7c3d346b14dd544e6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:39 +0000
Subject: [PATCH 10/73] fix: adding a registered descriptor again counts it
 once and drops its old timeout

---
 src/events.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 6012c22..a5e9204 100644
--- a/src/events.c
+++ b/src/events.c
@@ -585,7 +585,12 @@ int events_add(events_t *loop, fds_t sfd, int event, int timeout_in_secs,
 		target->is_iodispatch = true;
 	}
 #endif
-	//assert(target->loop_id == 0);
+	/* adding a registered descriptor again replaces its registration */
+	if (EVENTS_FD_BELONGS_TO_LOOP(loop, fd)) {
+		events_set_timeout(fd, 0);
+		loop->active_descriptors--;
+	}
+
 	target->callback = callback;
 	target->cb_arg = cb_arg;
 	target->loop = loop;
-- 
2.43.0


From df44a74027f3e236e8f96fd2a7b19c14fc0ffe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:28 +0000
Subject: [PATCH 11/73] fix: events collected for an older registration or a
 direction no longer registered are not delivered

---
 src/epoll.c           | 22 ++++++++++++++--------
 src/events.c          |  1 +
 src/events_internal.h |  1 +
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/epoll.c b/src/epoll.c
index 09a33f0..ca1dad7 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -105,7 +105,7 @@ int events_update_internal(events_t *_loop, int fd, int event) {
 		? (EPOLLIN | EPOLLET)
 		: (((event & EVENTS_READ) != 0 ? EPOLLIN : 0)
 			| ((event & EVENTS_WRITE) != 0 ? EPOLLOUT : 0)));
-	ev.data.fd = fd;
+	ev.data.u64 = ((uint64_t)target->generation << 32) | (uint32_t)fd;
 
 #define SET(op, check_error) do {		    \
     epoll_ret = epoll_ctl(loop->epfd, op, fd2socket(fd), &ev); \
@@ -157,32 +157,38 @@ int events_poll_once_internal(events_t *_loop, int max_wait) {
 	}
 	for (i = 0; i < nevents; ++i) {
 		struct epoll_event *event = loop->events + i;
-		events_fd_t *target = events_target(event->data.fd);
+		int fd = (int)(uint32_t)event->data.u64;
+		events_fd_t *target = events_target(fd);
 		if (loop->loop.loop_id == target->loop_id
 			&& (target->events & EVENTS_READWRITE) != 0) {
-			int revents = ((event->events & EPOLLIN) != 0 ? EVENTS_READ : 0)
-				| ((event->events & EPOLLOUT) != 0 ? EVENTS_WRITE : 0)
+			/* registered anew by an earlier callback of this turn: the event is of the old registration */
+			if (target->generation != (unsigned int)(event->data.u64 >> 32))
+				continue;
+
+			/* only the directions it is registered for by now */
+			int revents = ((((event->events & EPOLLIN) != 0 ? EVENTS_READ : 0)
+				| ((event->events & EPOLLOUT) != 0 ? EVENTS_WRITE : 0)) & target->events)
 				| ((event->events & EPOLLHUP) != 0 ? EVENTS_CLOSED : 0);
 			if (target->is_pathwatcher) {
 				char *buffer = events_malloc(Kb(8) + sizeof(inotify_t));
 				if (!is_empty(buffer)) {
-					if ((len = read(event->data.fd, buffer, Kb(8) + sizeof(inotify_t))) < 0) {
+					if ((len = read(fd, buffer, Kb(8) + sizeof(inotify_t))) < 0) {
 						events_free(buffer);
 						return -1;
 					}
 
-					async_task(inotify_task, 5, casting(event->data.fd), buffer, casting(len), target->callback, target->cb_arg);
+					async_task(inotify_task, 5, casting(fd), buffer, casting(len), target->callback, target->cb_arg);
 					return 0;
 				}
 
 				return -1;
 			} else if (revents != 0) {
-				(*target->callback)(event->data.fd, revents, target->cb_arg);
+				(*target->callback)(fd, revents, target->cb_arg);
 			}
 		} else {
 #if EVENTS_EPOLL_DEFER_DELETES
 			event->events = 0;
-			epoll_ctl(loop->epfd, EPOLL_CTL_DEL, event->data.fd, event);
+			epoll_ctl(loop->epfd, EPOLL_CTL_DEL, fd, event);
 #endif
 		}
 	}
diff --git a/src/events.c b/src/events.c
index a5e9204..8b81624 100644
--- a/src/events.c
+++ b/src/events.c
@@ -596,6 +596,7 @@ int events_add(events_t *loop, fds_t sfd, int event, int timeout_in_secs,
 	target->loop = loop;
 	target->loop_id = loop->loop_id;
 	target->events = 0;
+	target->generation++;
 	target->timeout_idx = EVENTS_TIMEOUT_IDX_UNUSED;
 	if (is_io) {
 		events_update_polling(loop, fd, event | EVENTS_ADD);
diff --git a/src/events_internal.h b/src/events_internal.h
index 8c55633..d97d124 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -229,6 +229,7 @@ struct events_fd_s {
 	events_id_t loop_id;
 	char events;
 	unsigned char timeout_idx; /* EVENTS_TIMEOUT_IDX_UNUSED if not used */
+	unsigned int generation; /* changes with every registration */
 	int signal_idx;
 	bool signal_set;
 	bool is_iodispatch;
-- 
2.43.0


From cb0ae13d3b7ab5db767232424560d770fe049cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:58 +0000
Subject: [PATCH 12/73] fix: timers stop when cleared or not armed again,
 without leaving the loop's list or count wrong

---
 src/events.c          | 23 ++++++++++++++++++++---
 src/events_internal.h |  3 ++-
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/events.c b/src/events.c
index 8b81624..3460955 100644
--- a/src/events.c
+++ b/src/events.c
@@ -928,20 +928,34 @@ static actor_t *events_actor_timeout(events_t *loop, int ms, actor_cb timer, voi
 		else
 			loop->timers->tail = t;
 
+		t->armed = 1;
 		loop->active_timers++;
 	}
 
 	return t;
 }
 
+static void events_actor_disarm(actor_t *actor) {
+	timerlist_t *l = actor->loop->timers;
+	if (actor->armed) {
+		dequeue(l, actor);
+		actor->armed = 0;
+	}
+}
+
 EVENTS_INLINE actor_t *events_repeat_actor(actor_t *actor, int ms) {
-	actor->repeating = 1;
+	events_actor_disarm(actor);
 	actor->loop->active_timers--;
 	return events_actor_timeout(actor->loop, ms, actor->actor, actor->args, actor);
 }
 
 EVENTS_INLINE void events_clear_actor(actor_t *actor) {
-	actor->repeating = 0;
+	events_actor_disarm(actor);
+	/* inside its own function it's freed after that returns */
+	if (!actor->running) {
+		actor->loop->active_timers--;
+		events_free(actor);
+	}
 }
 
 EVENTS_INLINE actor_t *events_actor(events_t *loop, int ms, actor_cb timer, void *args) {
@@ -975,8 +989,11 @@ static int events_execute(events_t *loop, int max_wait) {
 	l = loop->timers;
 	while ((t = l->head) && now >= t->alarmtime) {
 		dequeue(l, t);
+		t->armed = 0;
+		t->running = 1;
 		t->actor(t, t->args);
-		if (!t->repeating) {
+		t->running = 0;
+		if (!t->armed) {
 			events_free(t);
 			loop->active_timers--;
 		}
diff --git a/src/events_internal.h b/src/events_internal.h
index d97d124..35f2c52 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -294,7 +294,8 @@ struct sys_events_s {
 };
 
 struct actors_s {
-	int repeating;
+	int armed;		/* in the loop's list of timers */
+	int running;	/* its function is being called */
 	size_t alarmtime;
 	actor_cb actor;
 	void *args;
-- 
2.43.0


From a24c7a2e956b04b3cf71dbf0e13814f771de717d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 13/73] fix: signals can be removed outside their callback,
 registered again, and arrive while another one is handled

---
 src/events.c  |  9 ++++++---
 src/os_unix.c | 12 ++++++++++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/events.c b/src/events.c
index 3460955..3fde163 100644
--- a/src/events.c
+++ b/src/events.c
@@ -555,11 +555,13 @@ int events_add(events_t *loop, fds_t sfd, int event, int timeout_in_secs,
 #endif
 	target = events_target(fd);
 	if (event == EVENTS_SIGNAL) {
+		if (target->signal_set && events_signals()[target->signal_idx].loop == loop)
+			loop->active_signals--;
+
 		if ((sig_idx = events_add_signal(fd, callback, cb_arg)) >= 0) {
 			loop->signal_handlers = events_signals();
 			loop->active_signals++;
 			loop->signal_handlers[sig_idx].loop = loop;
-			target->loop = loop;
 			target->signal_idx = sig_idx;
 			target->signal_set = true;
 			return 0;
@@ -623,11 +625,12 @@ int events_del(fds_t sfd) {
 	target = events_target(fd);
 	if (target->signal_set) {
 		signal_handlers = events_signals();
+		/* signals and descriptors share numbers: a descriptor goes first, except inside the signal's callback */
 		if (signal_handlers[target->signal_idx].sig == fd
-			&& signal_handlers[target->signal_idx].is_running) {
+			&& (signal_handlers[target->signal_idx].is_running || target->loop_id == 0)) {
+			signal_handlers[target->signal_idx].loop->active_signals--;
 			events_del_signal(fd, target->signal_idx);
 			target->signal_set = false;
-			target->loop->active_signals--;
 			return 0;
 		}
 	}
diff --git a/src/os_unix.c b/src/os_unix.c
index d37cd46..a3e7670 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -689,10 +689,17 @@ sys_signal_t *events_signals(void) {
 int events_add_signal(int sig, sig_cb proc, void *data) {
 	int i;
 	for (i = 0; i < max_event_sig; i++) {
-		if (!events_sig[i].proc || events_sig[i].sig == sig)
+		if (events_sig[i].proc && events_sig[i].sig == sig)
 			break;
 	}
 
+	if (i == max_event_sig) {
+		for (i = 0; i < max_event_sig; i++) {
+			if (!events_sig[i].proc)
+				break;
+		}
+	}
+
 	if (i == max_event_sig) {
 		cerr("Cannot install exception handler for signal no (%d), "
 			"too many signal exception handlers installed (max %d)"CLR_LN,
@@ -706,7 +713,8 @@ int events_add_signal(int sig, sig_cb proc, void *data) {
 	 */
 	events_sig_sa.sa_handler = events_sig_handler;
 	events_sig_sa.sa_flags = SA_RESTART;
-	if (sigemptyset(&events_sig_sa.sa_mask) != 0) {
+	/* other signals wait until the handler is through */
+	if (sigfillset(&events_sig_sa.sa_mask) != 0) {
 		cerr("Cannot setup handler for signal no (%d)"CLR_LN, sig);
 		events_sigunblock;
 		return -1;
-- 
2.43.0


From 1537c4cf1da91306fc30ab0ea408b9e79dbef878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 14/73] fix: a signal during the wait for events does not fail
 the turn

---
 src/epoll.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/epoll.c b/src/epoll.c
index ca1dad7..10d392d 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -153,7 +153,8 @@ int events_poll_once_internal(events_t *_loop, int max_wait) {
 	nevents = epoll_wait(loop->epfd, loop->events, sizeof(loop->events) / sizeof(loop->events[0]),
 		(ffd > 0 ? 0 : max_wait * 1000));
 	if (nevents == -1) {
-		return -1;
+		/* a signal ended the wait: a turn without descriptors */
+		return errno == EINTR ? 0 : -1;
 	}
 	for (i = 0; i < nevents; ++i) {
 		struct epoll_event *event = loop->events + i;
-- 
2.43.0


From f2c5f0e2d2ea93e29229c90f6981ee7333f4be03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:15 +0000
Subject: [PATCH 15/73] fix: a registered signal no longer hides the loop of
 the descriptor with the same number

---
 src/events.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 3fde163..889c6c1 100644
--- a/src/events.c
+++ b/src/events.c
@@ -968,7 +968,7 @@ EVENTS_INLINE actor_t *events_actor(events_t *loop, int ms, actor_cb timer, void
 EVENTS_INLINE events_t *events_loop(fds_t sfd) {
 	assert(EVENTS_IS_INITD_AND_FD_IN_RANGE(socket2fd(sfd)));
 	events_fd_t *target = events_target(socket2fd(sfd));
-	return (target->signal_set)
+	return (target->signal_set && target->loop_id == 0)
 		? events_signals()[target->signal_idx].loop : target->loop;
 }
 
-- 
2.43.0


From 6a191ef13014d8ea9fd5df4e0f68c4cc74be7191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 16/73] fix: a catch_if section that leaves the exception
 unhandled runs once, and its finally section runs

---
 src/except.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/except.c b/src/except.c
index 794e5b0..c3cd59b 100644
--- a/src/except.c
+++ b/src/except.c
@@ -937,7 +937,7 @@ bool try_next(ex_error_t *err, ex_context_t *ex_err) {
 bool try_catching(char *type, ex_error_t *err, ex_context_t *ex_err) {
     /* check if this CATCH block can handle current exception */
     bool status = false;
-    if (ex_err->state == ex_throw_st) {
+    if (ex_err->state == ex_throw_st && err->stage == ex_throw_st) {
         try_updating_err(err, ex_err);
         if (str_is("_if", type)) {
             status = true;
-- 
2.43.0


From 194a275f64f6b73a666fa7555a39e0208596a538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 17/73] fix: caught() and try_message() are about the exception
 being handled, not the last one seen by the thread

---
 src/except.c | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/except.c b/src/except.c
index c3cd59b..64af05f 100644
--- a/src/except.c
+++ b/src/except.c
@@ -964,27 +964,25 @@ EVENTS_INLINE bool try_finallying(ex_error_t *err, ex_context_t *ex_err) {
 
 bool try_caught(const char *err) {
 	ex_memory_t *scope = scope_local();
-	if (!is_empty(scope)) {
-		const char *exception = !is_empty(scope->_panic) ? scope->_panic : scope->err;
-		if ((scope->is_recovered = str_is(err, exception)))
-			ex_local()->state = ex_catch_st;
-
-		return scope->is_recovered;
-	}
-
+	/* the exception of the innermost `try` block, not the last one this thread has seen */
 	const char *exception = !is_empty(ex_local()->_panic) ? ex_local()->_panic : ex_local()->ex;
-	if (str_is(err, exception)) {
+	bool is_caught = str_is(err, exception);
+	if (!is_empty(scope))
+		scope->is_recovered = is_caught;
+
+	if (is_caught)
 		ex_local()->state = ex_catch_st;
-		return true;
-	}
 
-	return false;
+	return is_caught;
 }
 
 EVENTS_INLINE const char *try_message(void) {
+	const char *exception = (const char *)(!is_empty(ex_init()->_panic) ? ex_local()->_panic : ex_local()->ex);
+	if (!is_empty((void *)exception))
+		return exception;
+
 	ex_memory_t *scope = get_scope();
-	const char *exception = (const char *)(!is_empty(scope->_panic) ? scope->_panic : scope->err);
-	return exception == NULL ? ex_local()->ex : exception;
+	return (const char *)(!is_empty(scope->_panic) ? scope->_panic : scope->err);
 }
 
 EVENTS_INLINE ex_memory_t *scope_local(void) {
-- 
2.43.0


From e71f5fc88aa36ddda3d2ae08ad70715f935563bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 18/73] fix: fence() is released with its scope; its object's
 content is not taken for a protected pointer

---
 src/except.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/except.c b/src/except.c
index 64af05f..6caceca 100644
--- a/src/except.c
+++ b/src/except.c
@@ -1104,11 +1104,7 @@ void *fence(void *ptr, func_t func) {
 	if (is_empty(ptr))
 		return null;
 
-	ex_memory_t *scope = get_scope();
-	ex_protect_ptr(scope->protector, ptr, func);
-	scope->is_protected = true;
-	scope_deferred(scope, func, ptr);
-
+	deferred(func, ptr, true);
 	return ptr;
 }
 
-- 
2.43.0


From 7de78adb1a255135026d51a0a7fcd536d1f52e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 19/73] fix: a protected pointer that is null or static does
 not keep older ones from being released

---
 src/except.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/except.c b/src/except.c
index 6caceca..d92eabf 100644
--- a/src/except.c
+++ b/src/except.c
@@ -167,15 +167,13 @@ static void ex_unwind_stack(ex_context_t *ctx) {
 		scope_unwind(ctx->data);
     } else {
 		while (p && p->type == DATA_EXCEPT_PROTECTED) {
-            if ((got_uncaught_exception = (temp == *p->ptr) || !is_ptr_usable(*p->ptr)))
-                break;
-
-            if (*p->ptr) {
+			/* an object protected twice in a row is released once */
+			if (*p->ptr && *p->ptr != temp) {
+				temp = *p->ptr;
 				p->type = DATA_INVALID;
-                p->func(*p->ptr);
-            }
+				p->func(temp);
+			}
 
-            temp = *p->ptr;
             p = p->next;
         }
     }
-- 
2.43.0


From 32d0acf51c565ac960ffbe56e36e3e27cda09d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 20/73] fix: try blocks and guard sections belong to the task
 that opened them

---
 src/events.c          |  4 ++++
 src/events_internal.h | 14 ++++++++++++++
 src/except.c          | 34 ++++++++++++++++++++++++++++++++++
 3 files changed, 52 insertions(+)

diff --git a/src/events.c b/src/events.c
index 889c6c1..2d9687f 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1467,6 +1467,7 @@ tasks_t *task_derive(void *memory, size_t heapsize, bool is_thread) {
 
 void task_switch(tasks_t *handle) {
 	tasks_t *coro_previous_handle = __thrd()->active_handle;
+	ex_task_switch(coro_previous_handle->except, handle->except);
 	__thrd()->active_handle = handle;
 	__thrd()->active_handle->status = TASK_RUNNING;
 	__thrd()->current_handle = coro_previous_handle;
@@ -1487,6 +1488,7 @@ static void _spring_board(int ignored) {
 void task_switch(tasks_t *co) {
 	if (!sigsetjmp(((coroutine_t *)active_task())->sig_ctx, 0)) {
 		tasks_t *task_previous_handle = __thrd()->active_handle;
+		ex_task_switch(task_previous_handle->except, co->except);
 		__thrd()->active_handle = co;
 		__thrd()->active_handle->status = TASK_RUNNING;
 		__thrd()->current_handle = task_previous_handle;
@@ -1564,6 +1566,7 @@ tasks_t *task_derive(void *co, size_t stack_size, bool is_thread) {
 /* Switch to specified coroutine. */
 void task_switch(tasks_t *co) {
 	tasks_t *task_previous_handle = __thrd()->active_handle;
+	ex_task_switch(task_previous_handle->except, co->except);
 	__thrd()->active_handle = co;
 	__thrd()->active_handle->status = TASK_RUNNING;
 	__thrd()->current_handle = task_previous_handle;
@@ -1580,6 +1583,7 @@ EVENTS_INLINE void task_switch(tasks_t *co) {
 #else
 	tasks_t *task_previous_handle = __thrd()->active_handle;
 #endif
+	ex_task_switch(task_previous_handle->except, co->except);
 	__thrd()->active_handle = co;
 	__thrd()->active_handle->status = TASK_RUNNING;
 	__thrd()->current_handle = task_previous_handle;
diff --git a/src/events_internal.h b/src/events_internal.h
index 35f2c52..b4025de 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -410,6 +410,16 @@ struct ucontext_s {
 };
 #endif
 
+/* Innermost `try` block and `guard` section of an coroutine. */
+typedef struct ex_task_s {
+	ex_context_t *context;
+	ex_ptr_t *stack;
+	void *arena;
+	data_types status;
+	ex_setup_func setup;
+	ex_unwind_func unwind;
+} ex_task_t;
+
 /* Extended events coroutine context. */
 struct events_task_s {
 #if defined(USE_UCONTEXT)
@@ -455,6 +465,7 @@ struct events_task_s {
 	generator_t generator;
 	task_group_t *task_group;
 	ex_memory_t *scope;
+	ex_task_t except[1];
 	array_t garbage;
 	data_func_t func;
 	void *args;
@@ -574,6 +585,9 @@ tasks_t *task_derive(void *memory, size_t heapsize, bool is_thread);
 /* Delete specified coroutine. */
 void task_delete(tasks_t *co);
 void task_switch(tasks_t *co);
+
+/* internal: `try` blocks and `guard` sections belong to the coroutine that opened them */
+void ex_task_switch(ex_task_t *from, ex_task_t *to);
 uint32_t task_push(tasks_t *t, bool has_result);
 tasks_t *create_task(size_t heapsize, data_func_t func, void *args, bool is_thread, bool is_skipping);
 int results_tid(uint32_t rid);
diff --git a/src/except.c b/src/except.c
index d92eabf..7121e4a 100644
--- a/src/except.c
+++ b/src/except.c
@@ -408,6 +408,40 @@ void ex_update(ex_context_t *context) {
 #endif
 }
 
+static ex_context_t *ex_root(ex_context_t *ctx) {
+#ifdef emulate_tls
+	while (!is_empty(ctx) && !is_empty(ctx->next))
+		ctx = ctx->next;
+
+	return ctx;
+#else
+	return is_empty(ctx) ? null : &events_except_buffer;
+#endif
+}
+
+void ex_task_switch(ex_task_t *from, ex_task_t *to) {
+	ex_memory_t *scope = scope_local();
+	ex_context_t *root = ex_root(ex_local());
+	from->context = ex_local();
+	if (!is_empty(root)) {
+		from->stack = root->stack;
+		root->stack = to->stack;
+	}
+
+	from->setup = guard_setup_func;
+	from->unwind = guard_unwind_func;
+	if (!is_empty(scope)) {
+		from->arena = scope->arena;
+		from->status = scope->status;
+		scope->arena = to->arena;
+		scope->status = is_empty(to->arena) ? DATA_UNGUARDED_STATUS : to->status;
+	}
+
+	guard_setup_func = to->setup;
+	guard_unwind_func = to->unwind;
+	ex_update(is_empty(to->context) ? root : to->context);
+}
+
 char *ex_strerror(int error_code) {
 	ex_memory_t *local = get_scope();
 	char *buf = local->scrape;
-- 
2.43.0


From e5e80647c35a25f4fb44f692b6f46b47b137b0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 21/73] fix: deferred functions of a guard that ends normally
 see no exception handled inside it

---
 src/except.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/except.c b/src/except.c
index 7121e4a..eaa18b4 100644
--- a/src/except.c
+++ b/src/except.c
@@ -1222,6 +1222,10 @@ void guard_set(ex_context_t *ctx, const char *ex, const char *message) {
 void guard_reset(ex_guard_t *block, void *scope, ex_setup_func set, ex_unwind_func unwind) {
 	if (!is_empty(block) && data_type(block) == DATA_GUARD) {
 		block->type = DATA_INVALID;
+		/* an exception handled inside is not one the deferred functions could recover from */
+		if (!(ex_local()->state & ex_throw_st))
+			block->scope->err = null, block->scope->_panic = null;
+
 		scope_unwind(block->scope);
 		if (is_empty(scope))
 			scope_local()->status = DATA_UNGUARDED_STATUS;
-- 
2.43.0


From ef7b73ee91a22c621d167a186fce1fab1d9d8475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 22/73] fix: functions deferred by a thread outside of tasks
 run when it exits

---
 src/events.c | 3 ++-
 src/except.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/events.c b/src/events.c
index 2d9687f..3f5d37b 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1927,7 +1927,8 @@ static int _defer_init(void *ptr) {
 		return TASK_ERRED;
 
 	ex_memory_t *scope = null;
-	if (tasks_is_active()) {
+	/* outside of coroutines it is the thread that exits */
+	if (tasks_is_active() && (!is_empty(__thrd()->running) || active_task() != __thrd()->active_buffer)) {
 		tasks_t *t = null;
 		if (!is_empty(__thrd()->running))
 			t = __thrd()->running;
diff --git a/src/except.c b/src/except.c
index eaa18b4..7da1a8e 100644
--- a/src/except.c
+++ b/src/except.c
@@ -1039,7 +1039,8 @@ ex_memory_t *scope_init(void) {
 		memset(scope->protector, 0, sizeof(ex_ptr_t));
 		scope->status = DATA_RAII;
 
-		ex_context_t *ctx = ex_init();
+		/* the scope of the thread, whichever `try` block is open now */
+		ex_context_t *ctx = ex_root(ex_init());
 		ctx->data = (void *)scope;
 		ctx->prev = (void *)scope;
 		ctx->is_scoped = true;
-- 
2.43.0


From 78e707a008903f568108b2bd3c28817dab9c33a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 23/73] fix: trying() frees its value with the allocator it
 came from

---
 src/except.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/except.c b/src/except.c
index 7da1a8e..f4fbe53 100644
--- a/src/except.c
+++ b/src/except.c
@@ -1251,7 +1251,9 @@ EVENTS_INLINE int exit_scope(void) {
 /* General error handling for any condition, passing callbacks.
 Guaranteed to return `value` as ~union~, similar to https://ziglang.org/documentation/master/#try */
 values_t *trying(void *with, data_func_t tryFunc, data_func_t catchFunc, launch_func_t finalFunc) {
-	values_t *value = fence(calloc(1, sizeof(values_t)), events_free);
+	/* sets the allocator, that also frees */
+	ex_signal_setup();
+	values_t *value = fence(events_calloc(1, sizeof(values_t)), events_free);
 	if (!is_empty(value)) {
 		try {
 			value->object = tryFunc(with);
-- 
2.43.0


From e916a9c9f0c033e4d5340641c80ab452bca496ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 24/73] fix: taking from a queue that never held an item does
 not read before it

---
 src/deque.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/deque.c b/src/deque.c
index 94daaf3..feb2262 100644
--- a/src/deque.c
+++ b/src/deque.c
@@ -21,8 +21,9 @@ static bool deque_thread_set = false;
  * Programming Parallel Applications in Cilk
  */
 void deque_init(events_deque_t *q, int size_hint) {
-	atomic_init(&q->top, 0);
-	atomic_init(&q->bottom, 0);
+	/* Starting at 1 keeps `bottom - 1` in `deque_take` from wrapping around. */
+	atomic_init(&q->top, 1);
+	atomic_init(&q->bottom, 1);
 	atomic_init(&q->available, 0);
 	deque_array_t *a = events_calloc(1, _mem_align_up((sizeof(deque_array_t) + sizeof(tasks_t *) * size_hint), 2));
 	if (a == NULL)
-- 
2.43.0


From b6092dfa0f346a5a63e7aef221e186049d293ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 25/73] fix: the owner of a queue does not take items that were
 stolen meanwhile

---
 src/deque.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/deque.c b/src/deque.c
index feb2262..8563c5f 100644
--- a/src/deque.c
+++ b/src/deque.c
@@ -75,11 +75,12 @@ void deque_resize(events_deque_t *q) {
 }
 
 tasks_t *deque_take(events_deque_t *q) {
-	size_t b = atomic_load_explicit(&q->bottom, memory_order_relaxed) - 1;
-	size_t t = atomic_load_explicit(&q->top, memory_order_relaxed);
+	size_t t, b = atomic_load_explicit(&q->bottom, memory_order_relaxed) - 1;
 	deque_array_t *a = (deque_array_t *)atomic_load_explicit(&q->array, memory_order_relaxed);
 	atomic_store_explicit(&q->bottom, b, memory_order_relaxed);
 	atomic_thread_fence(memory_order_seq_cst);
+	/* Only after `bottom` is lowered, or items thieves took meanwhile are taken again. */
+	t = atomic_load_explicit(&q->top, memory_order_relaxed);
 	tasks_t *x;
 	if (t <= b) {
 		/* Non-empty queue */
-- 
2.43.0


From a76b80bde26826ebc51ad557a7bd2ad3ad9d7de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 26/73] fix: arrays a queue outgrew stay valid for the threads
 still reading them

---
 src/deque.c           | 11 +++++++----
 src/events_internal.h |  3 ++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/deque.c b/src/deque.c
index 8563c5f..cc6aec5 100644
--- a/src/deque.c
+++ b/src/deque.c
@@ -56,6 +56,7 @@ void deque_resize(events_deque_t *q) {
 	for (i = t; i < b; i++)
 		new->buffer[i % new_size] = a->buffer[i % old_size];
 
+	new->older = a;
 	atomic_store_explicit(&q->array, new, memory_order_relaxed);
 	/* The question arises as to the appropriate timing for releasing memory
 	 * associated with the previous array denoted by *a. In the original Chase
@@ -69,9 +70,8 @@ void deque_resize(events_deque_t *q) {
 	 * resulting in memory leakage. It is worth noting that our expansion
 	 * strategy for these queues involves consistent doubling of their size;
 	 * this design choice ensures that any leaked memory remains bounded by the
-	 * memory actively employed by the functional queues.
+	 * memory actively employed by the functional queues, `deque_free` releases it.
 	 */
-	events_free(a);
 }
 
 tasks_t *deque_take(events_deque_t *q) {
@@ -134,12 +134,15 @@ tasks_t *deque_steal(events_deque_t *q) {
 }
 
 void deque_free(events_deque_t *q) {
-	deque_array_t *a = NULL;
+	deque_array_t *older, *a = NULL;
 	if (q != NULL) {
 		a = atomic_get(deque_array_t *, &q->array);
 		if (a != NULL) {
 			atomic_store(&q->array, NULL);
-			events_free((void *)a);
+			for (; a != NULL; a = older) {
+				older = a->older;
+				events_free((void *)a);
+			}
 		}
 
 		memset(q, 0, sizeof(*q));
diff --git a/src/events_internal.h b/src/events_internal.h
index b4025de..2506f24 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -148,7 +148,8 @@ enum {
 typedef char events_cacheline_t[__ATOMIC_CACHE_LINE];
 
 make_atomic(tasks_t *, atomic_tasks_t)
-typedef struct {
+typedef struct deque_array_s {
+	struct deque_array_s *older;
 	atomic_size_t size;
 	atomic_tasks_t buffer[];
 } deque_array_t;
-- 
2.43.0


From 87670de0d054613e919935a36690581c9d2bacea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 27/73] fix: pseudo descriptors are taken and given back under
 a lock

---
 src/os_unix.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index a3e7670..99299ee 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -54,6 +54,7 @@ typedef struct {
 
 static int ioTableSize = 256;
 static FD_TABLE *fdTable = NULL;
+static atomic_spinlock fdTable_lock = 0; /* slots are taken and given back by any thread */
 static int hIoCompPort = -1;
 #if __APPLE__ && __MACH__
 static int hIoCompPort_token = -1;
@@ -344,6 +345,13 @@ int os_read(int fd, char *buf, size_t len) {
 	return read(fd, buf, len);
 }
 
+static void release_fd(int pseudo) {
+	atomic_lock(&fdTable_lock);
+	fdTable[pseudo].fd = TASK_ERRED;
+	fdTable[pseudo].type = (fd_types)FD_UNUSED;
+	atomic_unlock(&fdTable_lock);
+}
+
 EVENTS_INLINE int os_close(int fd) {
 	if (fd == -1) return 0;
 	int r, can_clear = events_valid_fd(fd);
@@ -351,10 +359,8 @@ EVENTS_INLINE int os_close(int fd) {
 		events_free_fd(fd);
 
 	r = close(events_get_fd(fd));
-	if (can_clear) {
-		fdTable[fd].type = (fd_types)FD_UNUSED;
-		fdTable[fd].fd = TASK_ERRED;
-	}
+	if (can_clear)
+		release_fd(fd);
 
 	return r;
 }
@@ -393,6 +399,7 @@ int events_new_fd(FILE_TYPE type, int fd, int desiredFd) {
 	int i, index = -1;
 	events_fd_t *target = events_target(fd);
 	acquire_lock(fd);
+	atomic_lock(&fdTable_lock);
 	while (target->loop && target->loop->active_descriptors >= ioTableSize)
 		grow_ioTable();
 
@@ -449,6 +456,7 @@ int events_new_fd(FILE_TYPE type, int fd, int desiredFd) {
 		fdTable[index].process->ps = DATA_INVALID;
 	}
 
+	atomic_unlock(&fdTable_lock);
 	release_lock(fd);
 	if (index == -1)
 		errno = EINVAL;
@@ -1345,8 +1353,7 @@ int inotify_close(int fd) {
 	if (events_valid_fd(fd)) {
 		foreach(watch in fdTable[fd].inotify_wd) {
 			events_free_fd(watch.integer);
-			fdTable[watch.integer].type = FD_UNUSED;
-			fdTable[watch.integer].fd = TASK_ERRED;
+			release_fd(watch.integer);
 			$remove(fdTable[fd].inotify_wd, iwatch);
 		}
 
@@ -1432,8 +1439,7 @@ EVENTS_INLINE int __inotify_rm_watch(int fd, int wd) {
 
 	if (events_valid_fd(wd)) {
 		events_free_fd(wd);
-		fdTable[wd].type = FD_UNUSED;
-		fdTable[wd].fd = TASK_ERRED;
+		release_fd(wd);
 	}
 
 	return inotify_rm_watch(realFd, realWd);
-- 
2.43.0


From daa2db6eb6e1e11d9dabae64e69a89f390102724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 28/73] fix: os_close() closes neither the descriptor numbered
 like a process nor the one a watch is mapped to

---
 src/os_unix.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 99299ee..a38fda7 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -355,10 +355,16 @@ static void release_fd(int pseudo) {
 EVENTS_INLINE int os_close(int fd) {
 	if (fd == -1) return 0;
 	int r, can_clear = events_valid_fd(fd);
+#if defined(__linux__)
+	/* `fd` is a real descriptor, that happens to have the number of a watch */
+	if (can_clear && fdTable[fd].type == FD_MONITOR_SYNC)
+		return close(fd);
+#endif
 	if (can_clear)
 		events_free_fd(fd);
 
-	r = close(events_get_fd(fd));
+	/* the object of a child is its process id */
+	r = can_clear && fdTable[fd].type == FD_CHILD ? 0 : close(events_get_fd(fd));
 	if (can_clear)
 		release_fd(fd);
 
-- 
2.43.0


From f94bf807292a16a2178b1b63d59be27499c4a278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:10 +0000
Subject: [PATCH 29/73] fix: requests whose size overflows are refused

rpmalloc, rpcalloc, the aligned allocations and the reallocations handed out
a tiny block for a size near SIZE_MAX (the arguments were never validated),
a reallocation that is too large gave back the block with its old size.
---
 src/rpmalloc.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/rpmalloc.c b/src/rpmalloc.c
index ca12460..9076a1a 100644
--- a/src/rpmalloc.c
+++ b/src/rpmalloc.c
@@ -93,7 +93,7 @@
 #endif
 #ifndef ENABLE_VALIDATE_ARGS
 //! Enable validation of args to public entry points
-#define ENABLE_VALIDATE_ARGS      0
+#define ENABLE_VALIDATE_ARGS      1
 #endif
 #ifndef ENABLE_ASSERTS
 //! Enable asserts
@@ -2202,6 +2202,13 @@ static void *_rpmalloc_allocate(heap_t *heap, size_t size) {
 }
 
 static void *_rpmalloc_aligned_allocate(heap_t *heap, size_t alignment, size_t size) {
+#if ENABLE_VALIDATE_ARGS
+	if (size >= MAX_ALLOC_SIZE) {
+		errno = EINVAL;
+		return 0;
+	}
+#endif
+
 	if (alignment <= SMALL_GRANULARITY)
 		return _rpmalloc_allocate(heap, size);
 
@@ -2979,7 +2986,7 @@ extern RPMALLOC_ALLOCATOR void *rprealloc(void *ptr, size_t size) {
 #if ENABLE_VALIDATE_ARGS
 	if (size >= MAX_ALLOC_SIZE) {
 		errno = EINVAL;
-		return ptr;
+		return 0;
 	}
 #endif
 	heap_t *heap = get_thread_heap();
@@ -2990,7 +2997,7 @@ extern RPMALLOC_ALLOCATOR void *
 rpaligned_realloc(void *ptr, size_t alignment, size_t size, size_t oldsize,
 	unsigned int flags) {
 #if ENABLE_VALIDATE_ARGS
-	if ((size + alignment < size) || (alignment > _memory_page_size)) {
+	if ((size >= MAX_ALLOC_SIZE) || (alignment >= _memory_span_size)) {
 		errno = EINVAL;
 		return 0;
 	}
-- 
2.43.0


From 4a8b9d56d6f92d6aa9dc7fe7f4469dac2fd60e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:10 +0000
Subject: [PATCH 30/73] fix: rpmemalign, rpaligned_calloc, rpposix_memalign and
 rpmalloc_thread_collect can be linked

---
 src/rpmalloc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rpmalloc.c b/src/rpmalloc.c
index 9076a1a..617aec9 100644
--- a/src/rpmalloc.c
+++ b/src/rpmalloc.c
@@ -3012,7 +3012,7 @@ rpaligned_alloc(size_t alignment, size_t size) {
 	return _rpmalloc_aligned_allocate(heap, alignment, size);
 }
 
-extern inline RPMALLOC_ALLOCATOR void *
+extern RPMALLOC_ALLOCATOR void *
 rpaligned_calloc(size_t alignment, size_t num, size_t size) {
 	size_t total;
 #if ENABLE_VALIDATE_ARGS
@@ -3038,11 +3038,11 @@ rpaligned_calloc(size_t alignment, size_t num, size_t size) {
 	return block;
 }
 
-extern inline RPMALLOC_ALLOCATOR void *rpmemalign(size_t alignment, size_t size) {
+extern RPMALLOC_ALLOCATOR void *rpmemalign(size_t alignment, size_t size) {
 	return rpaligned_alloc(alignment, size);
 }
 
-extern inline int rpposix_memalign(void **memptr, size_t alignment, size_t size) {
+extern int rpposix_memalign(void **memptr, size_t alignment, size_t size) {
 	if (memptr)
 		*memptr = rpaligned_alloc(alignment, size);
 	else
@@ -3075,7 +3075,7 @@ extern size_t rpmalloc_usable_size(void *ptr) {
 	return 0;
 }
 
-extern inline void
+extern void
 rpmalloc_thread_collect(void) {}
 
 void
-- 
2.43.0


From 2502e2d6b5bf83bfb85565e21b71d67ec2fd44cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:10 +0000
Subject: [PATCH 31/73] fix: a guard in one thread does not take the hooks of a
 guard in another

guard_setup_func and guard_unwind_func were one for the whole process: leaving
a guard reset them under the feet of every other thread inside one, whose next
exception was then taken for a recovered one, or ran the wrong unwinding.
---
 include/except.h | 4 ++--
 src/except.c     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/except.h b/include/except.h
index b215fde..93a50b2 100644
--- a/include/except.h
+++ b/include/except.h
@@ -429,8 +429,8 @@ C_API ex_unwind_func exception_unwind_func;
 C_API ex_terminate_func exception_terminate_func;
 C_API ex_terminate_func exception_ctrl_c_func;
 
-C_API ex_setup_func guard_setup_func;
-C_API ex_unwind_func guard_unwind_func;
+C_API thread_local ex_setup_func guard_setup_func;
+C_API thread_local ex_unwind_func guard_unwind_func;
 C_API ex_terminate_func guard_ctrl_c_func;
 C_API ex_terminate_func guard_terminate_func;
 
diff --git a/src/except.c b/src/except.c
index f4fbe53..63ae19c 100644
--- a/src/except.c
+++ b/src/except.c
@@ -78,8 +78,8 @@ ex_terminate_func exception_terminate_func = null;
 static bool exception_signal_set = false;
 static ex_memory_t *atexit_ctr_c_unwind = null;
 
-ex_setup_func guard_setup_func = null;
-ex_unwind_func guard_unwind_func = null;
+thread_local ex_setup_func guard_setup_func = null;
+thread_local ex_unwind_func guard_unwind_func = null;
 ex_terminate_func guard_ctrl_c_func = null;
 ex_terminate_func guard_terminate_func = null;
 
-- 
2.43.0


From b921316cbaa130781a753fe6d74b1793a0a01ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:10 +0000
Subject: [PATCH 32/73] fix: the exception of a thread is its own, not its
 starter's

It was kept in the scope of the task that started the thread: results of other
threads started there raised it, too, and starting a thread wiped it.
---
 src/events_internal.h |  3 +++
 src/future.c          | 18 +++++++++++-------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/events_internal.h b/src/events_internal.h
index 2506f24..72cbdfb 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -191,6 +191,9 @@ struct _promise {
 	param_func_t func;
 	data_values_t result[1];
 	ex_memory_t *scope;
+	/* exception the function ended with, if any */
+	const char *ex;
+	const char *panic;
 	atomic_spinlock mutex;
 	atomic_flag done;
 };
diff --git a/src/future.c b/src/future.c
index d291fc5..3f0059a 100644
--- a/src/future.c
+++ b/src/future.c
@@ -25,8 +25,8 @@ static EVENTS_INLINE data_values_t *promise_get(promise *p) {
 
 void promise_erred(promise *p, ex_context_t err) {
 	atomic_lock(&p->mutex);
-	p->scope->err = (void *)err.ex;
-	p->scope->_panic = err._panic;
+	p->ex = err.ex;
+	p->panic = err._panic;
 	atomic_unlock(&p->mutex);
 	atomic_flag_test_and_set(&p->done);
 }
@@ -100,7 +100,8 @@ static int _thrd_wrapper(void *arg) {
 #endif
 
 	scope_init()->local = (void *)f->promise->args;
-	f->promise->scope->err = null;
+	f->promise->ex = null;
+	f->promise->panic = null;
 	f->promise->erred = 0;
 
 	guard {
@@ -134,6 +135,11 @@ future_t thrd_async(thrd_func_t fn, size_t num_of_args, ...) {
 	return f;
 }
 
+static void future_rethrow(promise *p) {
+	if (!is_empty(p->ex))
+		ex_throw(p->ex, "unknown", 0, "_thrd_wrapper", p->panic, p->scope->backtrace);
+}
+
 values_t thrd_get(future_t f) {
 	if (data_type(f) == DATA_FUTURE) {
 		data_values_t *r = promise_get(f->promise);
@@ -147,10 +153,7 @@ values_t thrd_get(future_t f) {
 			if (f->promise->erred)
 				errno = f->promise->erred;
 
-			if (!is_empty(f->promise->scope->err)) {
-				ex_throw(f->promise->scope->err,
-					"unknown", 0, "_thrd_wrapper", f->promise->scope->_panic, f->promise->scope->backtrace);
-			}
+			future_rethrow(f->promise);
 		}
 
 		if (f->promise->result->is_array)
@@ -160,6 +163,7 @@ values_t thrd_get(future_t f) {
 	}
 
 	if (data_type(f) == DATA_RESULT) {
+		future_rethrow(f->promise);
 		if (f->promise->result->is_array)
 			return *((array_t)f->promise->result->value.object);
 		else
-- 
2.43.0


From 66481e59c075a96cd7cac7c8efc5d77874b5c6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:10 +0000
Subject: [PATCH 33/73] fix: thrd_get waits for the thread it asks to end

The thread reports its result before it ends; joining it without waiting failed
in between, and then its exception was dropped and the thread never joined.
---
 src/future.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/future.c b/src/future.c
index 3f0059a..d59c7e9 100644
--- a/src/future.c
+++ b/src/future.c
@@ -143,7 +143,7 @@ static void future_rethrow(promise *p) {
 values_t thrd_get(future_t f) {
 	if (data_type(f) == DATA_FUTURE) {
 		data_values_t *r = promise_get(f->promise);
-		if (os_join(f->thread, 0, NULL) == 0) {
+		if (os_join(f->thread, INFINITE, NULL) == 0) {
 			f->type = DATA_RESULT;
 			atomic_flag_clear(&f->promise->mutex);
 			atomic_flag_clear(&f->promise->done);
-- 
2.43.0


From 4b5b1b8d64a1af3c18ae2de5dc5d96b0b5ff1018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:05 +0000
Subject: [PATCH 34/73] fix: promise_work() left half of the previous
 function's result in a reused promise

---
 src/future.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/future.c b/src/future.c
index d59c7e9..32aab9a 100644
--- a/src/future.c
+++ b/src/future.c
@@ -299,7 +299,7 @@ promise *promise_work(promise *f, param_func_t fn, size_t num_args, ...) {
 			f->args = args;
 			f->func = fn;
 			f->result->extended = null;
-			f->result->value.integer = 0;
+			f->result->value.object = null;
 			f->result->is_array = false;
 			atomic_flag_clear(&f->mutex);
 			atomic_flag_clear(&f->done);
-- 
2.43.0


From 089204e77e1ef5a777bf8adf7d12f90ff17d3b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:05 +0000
Subject: [PATCH 35/73] fix: worker thread used a promise after it was done,
 when its asker already released it

---
 src/events.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/events.c b/src/events.c
index 3f5d37b..573dda1 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2664,11 +2664,14 @@ static int __future_wrapper(void *arg) {
 			promise *worker = (promise *)$shift(queue->jobs).object;
 			atomic_unlock(&work->mutex);
 
-			if (worker && worker->func)
-				res->object = worker->func(worker->args);
+			/* once it is done, the promise belongs to whoever asks for it */
+			param_t args = worker->args;
+			worker->args = NULL;
+			if (worker->func)
+				res->object = worker->func(args);
 			promise_set(worker, res->object);
 
-			$delete(worker->args);
+			$delete(args);
 			if (is_data(res->object) && is_empty(scope_local()->local))
 				$delete(res->object);
 
-- 
2.43.0


From 197a92498da7a0ded7b61955c5f7ad1d96219dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:05 +0000
Subject: [PATCH 36/73] fix: queue_work()'s task looked at a promise that
 queue_get() or queue_wait() already released

---
 src/events_internal.h |  2 ++
 src/future.c          | 24 +++++++++++++++++++-----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/events_internal.h b/src/events_internal.h
index 72cbdfb..becbb05 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -196,6 +196,8 @@ struct _promise {
 	const char *panic;
 	atomic_spinlock mutex;
 	atomic_flag done;
+	/* the task that handed it to a worker still looks at it */
+	atomic_flag watched;
 };
 
 struct future_s {
diff --git a/src/future.c b/src/future.c
index 32aab9a..eea2287 100644
--- a/src/future.c
+++ b/src/future.c
@@ -56,8 +56,13 @@ void promise_set(promise *p, void *res) {
 	atomic_flag_test_and_set(&p->done);
 }
 
+/* Done, and nobody else is going to look at it. */
+static EVENTS_INLINE bool promise_ready(promise *p) {
+	return atomic_flag_load(&p->done) && !atomic_flag_load(&p->watched);
+}
+
 EVENTS_INLINE values_t promise_wait(promise *p) {
-	while (is_promise(p) && !atomic_flag_load(&p->done))
+	while (is_promise(p) && !promise_ready(p))
 		yield_active_info();
 
 	return p->result->value;
@@ -65,6 +70,9 @@ EVENTS_INLINE values_t promise_wait(promise *p) {
 
 EVENTS_INLINE void promise_clean(promise *p) {
 	if (is_promise(p) && atomic_flag_load(&p->done)) {
+		while (!promise_ready(p))
+			yield_active_info();
+
 		if (is_data(p->args)) {
 			$delete(p->args);
 			p->args = null;
@@ -267,6 +275,8 @@ static void queue_work_handler(param_t args) {
 
 	if (job->erred)
 		errno = job->erred;
+
+	atomic_flag_clear(&job->watched);
 }
 
 promise *alloc_promise(void) {
@@ -277,6 +287,7 @@ promise *alloc_promise(void) {
 		f->result->value.integer = 0;
 		atomic_flag_clear(&f->mutex);
 		atomic_flag_clear(&f->done);
+		atomic_flag_clear(&f->watched);
 		f->type = DATA_PROMISE;
 	}
 
@@ -319,7 +330,9 @@ promise *promise_work(promise *f, param_func_t fn, size_t num_args, ...) {
 
 			array_t data = arrays(2, thrd, f);
 			tasks_t *t = create_task(Kb(32), (data_func_t)queue_work_handler, data, false, true);
+			atomic_flag_test_and_set(&f->watched);
 			if (task_push(t, false) == TASK_ERRED) {
+				atomic_flag_clear(&f->watched);
 				promise_clean(f);
 				if (!is_empty(data))
 					$delete(data);
@@ -371,6 +384,7 @@ promise *queue_work(future *thrd, param_func_t fn, size_t num_args, ...) {
 
 			array_t data = arrays(2, thrd, f);
 			tasks_t *t = create_task(Kb(32), (data_func_t)queue_work_handler, data, false, true);
+			atomic_flag_test_and_set(&f->watched);
 			if (task_push(t, false) == TASK_ERRED) {
 				events_free(f);
 				$delete(args);
@@ -398,10 +412,10 @@ void queue_wait(array_t work, then_cb then) {
 	if (is_data(work)) {
 		while ($size(work) > 0) {
 			foreach(worker in work) {
-				if (!queue_is_valid(worker.object)) {
-					if (!is_empty(then)) {
+				promise *value = (promise *)worker.object;
+				if (!is_promise(value) || promise_ready(value)) {
+					if (!is_empty(then) && is_promise(value)) {
 						defer_free(worker.object);
-						promise *value = (promise *)worker.object;
 						if (value->result->is_array == 1) {
 							tuple_t result = (tuple_t)value->result->value.object;
 							then(result);
@@ -434,7 +448,7 @@ values_t queue_get(void *self) {
 	}
 
 	if (!is_empty(p)) {
-		while (!atomic_flag_load(&p->done))
+		while (!promise_ready(p))
 			yield_active_info();
 
 		if (p->result->is_array == 1) {
-- 
2.43.0


From 10874f3b3ea675f35648a36154e4a597bf0ed917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:05 +0000
Subject: [PATCH 37/73] fix: an exception in a function of queue_work() ended
 the process, it and errno are now given to whoever asks

---
 src/events.c |  9 ++++++---
 src/future.c | 28 +++++++++++++++++++++++-----
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/events.c b/src/events.c
index 573dda1..6a61b51 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2667,9 +2667,12 @@ static int __future_wrapper(void *arg) {
 			/* once it is done, the promise belongs to whoever asks for it */
 			param_t args = worker->args;
 			worker->args = NULL;
-			if (worker->func)
-				res->object = worker->func(args);
-			promise_set(worker, res->object);
+			res->object = NULL;
+			guard {
+				if (worker->func)
+					res->object = worker->func(args);
+				promise_set(worker, res->object);
+			} guarded_exception(worker);
 
 			$delete(args);
 			if (is_data(res->object) && is_empty(scope_local()->local))
diff --git a/src/future.c b/src/future.c
index eea2287..b511661 100644
--- a/src/future.c
+++ b/src/future.c
@@ -61,10 +61,20 @@ static EVENTS_INLINE bool promise_ready(promise *p) {
 	return atomic_flag_load(&p->done) && !atomic_flag_load(&p->watched);
 }
 
+/* The error or exception the function ended with is raised for whoever asks. */
+static void promise_outcome(promise *p) {
+	if (p->erred)
+		errno = p->erred;
+
+	if (!is_empty(p->ex))
+		ex_throw(p->ex, "unknown", 0, "queue_work", p->panic, get_scope()->backtrace);
+}
+
 EVENTS_INLINE values_t promise_wait(promise *p) {
 	while (is_promise(p) && !promise_ready(p))
 		yield_active_info();
 
+	promise_outcome(p);
 	return p->result->value;
 }
 
@@ -263,7 +273,8 @@ static void queue_work_handler(param_t args) {
 	promise *job = args[1].object;
 	job->id = task_id();
 	job->erred = 0;
-	job->scope = get_scope();
+	job->ex = null;
+	job->panic = null;
 
 	task_name("queue_work #%d", job->id);
 	enqueue_promise(thrd, job);
@@ -273,9 +284,6 @@ static void queue_work_handler(param_t args) {
 	while (!atomic_flag_load(&job->done))
 		yield_active_info();
 
-	if (job->erred)
-		errno = job->erred;
-
 	atomic_flag_clear(&job->watched);
 }
 
@@ -414,7 +422,8 @@ void queue_wait(array_t work, then_cb then) {
 			foreach(worker in work) {
 				promise *value = (promise *)worker.object;
 				if (!is_promise(value) || promise_ready(value)) {
-					if (!is_empty(then) && is_promise(value)) {
+					/* an exception is left for `queue_get()` to raise */
+					if (!is_empty(then) && is_promise(value) && is_empty(value->ex)) {
 						defer_free(worker.object);
 						if (value->result->is_array == 1) {
 							tuple_t result = (tuple_t)value->result->value.object;
@@ -451,6 +460,15 @@ values_t queue_get(void *self) {
 		while (!promise_ready(p))
 			yield_active_info();
 
+		if (!is_empty(p->ex) && p->result->is_array != DATA_INVALID) {
+			p->result->is_array = DATA_INVALID;
+			defer_free(p);
+			promise_outcome(p);
+		}
+
+		if (p->erred)
+			errno = p->erred;
+
 		if (p->result->is_array == 1) {
 			defer_free(p);
 			defer_free(p->result->value.object);
-- 
2.43.0


From 1047064f3de56b768e28df712c3f2d51b2998f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:45 +0000
Subject: [PATCH 38/73] fix: results were lost and released memory was used
 when several threads made tasks

---
 src/events.c          | 39 ++++++++++++++++++++++++++++-----------
 src/events_internal.h |  2 ++
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/events.c b/src/events.c
index 6a61b51..2a2edcb 100644
--- a/src/events.c
+++ b/src/events.c
@@ -262,6 +262,7 @@ int events_init(int max_fd) {
 	sys_event.tasks_cpu_idx = NULL;
 	sys_event.future_cpu_idx = NULL;
 	sys_event.gc = NULL;
+	sys_event.results_size = 0;
 	sys_event.cpu_count = thrd_cpu_count();
 	sys_event.queue_size = data_queue_size();
 	sys_event.local = NULL;
@@ -353,7 +354,12 @@ EVENTS_INLINE void events_deinit(void) {
 			events_free(r[i]);
 
 		atomic_init(&sys_event.results, NULL);
-		events_free((void *)r);
+		sys_event.results_size = 0;
+		while (r != NULL) {
+			results_data_t *older = (results_data_t *)r[-1];
+			events_free((void *)(r - 1));
+			r = older;
+		}
 	}
 
 	if (events_fsevents_tasks != null) {
@@ -1181,7 +1187,6 @@ static EVENTS_INLINE void tasks_result_set(tasks_t *co, void *data) {
 			results[co->rid]->is_terminated = true;
 			co->status = TASK_FINISH;
 		}
-		atomic_store_explicit(&sys_event.results, results, memory_order_release);
 	}
 }
 
@@ -1680,22 +1685,36 @@ static EVENTS_INLINE void task_yielding(tasks_t *co) {
 }
 
 static results_data_t tasks_create_result(void) {
-	results_data_t result, *results;
-	size_t id = atomic_fetch_add(&sys_event.result_id_generate, 1);
+	results_data_t result, *results, *grown;
+	size_t id, size;
 	result = (results_data_t)events_malloc(sizeof(_results_data_t));
-	results = (results_data_t *)atomic_load_explicit(&sys_event.results, memory_order_acquire);
-	if (id % sys_event.queue_size == 0 || results == NULL)
-		results = events_realloc(results, (id + sys_event.queue_size) * sizeof(results[0]));
-
 	result->is_ready = false;
 	result->is_terminated = false;
 	result->is_canceled = false;
-	result->id = id;
 	result->tid = __thrd()->thrd_id;
 	result->result.object = NULL;
 	result->type = DATA_RESULT;
+
+	atomic_lock(&sys_event.lock);
+	id = atomic_load(&sys_event.result_id_generate);
+	results = (results_data_t *)atomic_load_explicit(&sys_event.results, memory_order_acquire);
+	if (id == sys_event.results_size) {
+		/* other threads still look into the smaller ones, each starts with the one before it */
+		size = results == NULL ? sys_event.queue_size : id * 2;
+		grown = (results_data_t *)events_malloc((size + 1) * sizeof(results[0])) + 1;
+		grown[-1] = (results_data_t)results;
+		if (id > 0)
+			memcpy(grown, results, id * sizeof(results[0]));
+
+		results = grown;
+		sys_event.results_size = size;
+	}
+
+	result->id = id;
 	results[id] = result;
 	atomic_store_explicit(&sys_event.results, results, memory_order_release);
+	atomic_fetch_add(&sys_event.result_id_generate, 1);
+	atomic_unlock(&sys_event.lock);
 	return result;
 }
 
@@ -1812,7 +1831,6 @@ uint32_t task_push(tasks_t *t, bool has_result) {
 			if (has_result) {
 				results_data_t *results = (results_data_t *)atomic_load_explicit(&sys_event.results, memory_order_acquire);
 				results[t->rid]->tid = t->tid;
-				atomic_store_explicit(&sys_event.results, results, memory_order_release);
 			}
 
 			enqueue_tasks(t);
@@ -1864,7 +1882,6 @@ EVENTS_INLINE void task_set_canceled(uint32_t id) {
 	if ((int)id > 0 && id < (uint32_t)atomic_load(&sys_event.result_id_generate)) {
 		results_data_t *results = (results_data_t *)atomic_load_explicit(&sys_event.results, memory_order_acquire);
 		results[id]->is_canceled = true;
-		atomic_store_explicit(&sys_event.results, results, memory_order_release);
 	}
 }
 
diff --git a/src/events_internal.h b/src/events_internal.h
index becbb05..fb8901c 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -276,6 +276,8 @@ struct sys_events_s {
 	array_t future_cpu_idx;
 	/* `tasks` thread id index for `run queue` pool */
 	array_t tasks_cpu_idx;
+	/* space in `results` */
+	size_t results_size;
 	events_deque_t **local;
 	events_cacheline_t pad;
 	atomic_spinlock lock;
-- 
2.43.0


From 44ee50299414d246b471584ae64c3baa902dc156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:45 +0000
Subject: [PATCH 39/73] fix: tasks sent to a pool thread by two threads at once
 were lost, and looked at after the thread released them

---
 src/events.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/events.c b/src/events.c
index 2a2edcb..5c7ed54 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1802,12 +1802,15 @@ tasks_t *create_task(size_t heapsize, data_func_t func, void *args, bool is_thre
 }
 
 uint32_t task_push(tasks_t *t, bool has_result) {
+	uint32_t id = t == NULL ? TASK_ERRED : (has_result ? t->rid : t->cid);
 	if (t && t->status == TASK_SUSPENDED && t->cid == DATA_INVALID) {
 		tasks_t *c = active_task();
 		bool is_group = false;
 		t->cid = (uint32_t)atomic_fetch_add(&sys_event.id_generate, 1) + 1;
 		t->rid = (has_result) ? tasks_create_result()->id : NO_RESULT;
 		t->taken = false;
+		/* another thread might have finished with it, once it's added */
+		id = has_result ? t->rid : t->cid;
 
 		/* keep track of tasks in waitgroup */
 		if (c->group_active && c->task_group != NULL && !c->group_finish) {
@@ -1837,7 +1840,7 @@ uint32_t task_push(tasks_t *t, bool has_result) {
 		}
 	}
 
-	return (t == NULL) ? TASK_ERRED : (has_result ? t->rid : t->cid);
+	return id;
 }
 
 static void accept_client_handler(param_t args) {
@@ -1857,8 +1860,6 @@ EVENTS_INLINE void accept_handler(client_cb connected, int client) {
 		tasks_t *t = create_task(Kb(32), (data_func_t)accept_client_handler, params, true, true);
 		if (!is_empty(t)) {
 			task_push(t, false);
-			events_deque_t *q = sys_event.local[t->tid];
-			atomic_flag_test_and_set(&q->started);
 			yield();
 		} else {
 			$delete(params);
@@ -2127,8 +2128,6 @@ void go_guard(size_t stacksize, guarded_func_t fn, defer_cb cleanup, void *any)
 		tasks_t *t = create_task(stacksize, (data_func_t)_os_guarded, params, true, true);
 		if (!is_empty(t)) {
 			task_push(t, false);
-			events_deque_t *q = sys_event.local[t->tid];
-			atomic_flag_test_and_set(&q->started);
 			yield();
 		} else {
 			$delete(params);
@@ -2522,9 +2521,11 @@ static void enqueue_tasks(tasks_t *t) {
 	atomic_thread_fence(memory_order_seq_cst);
 	atomic_lock(&sys_event.lock);
 	events_deque_t *queue = sys_event.local[t->tid];
-	atomic_unlock(&sys_event.lock);
+	/* any thread can add tasks, but only one at a time */
 	deque_push(queue, t);
 	atomic_fetch_add(&queue->available, 1);
+	atomic_flag_test_and_set(&queue->started);
+	atomic_unlock(&sys_event.lock);
 }
 
 static void __tasks_pool_main(param_t args) {
-- 
2.43.0


From 3a74728db68d9f850c792b093bcefaae8adbec5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:45 +0000
Subject: [PATCH 40/73] fix: two threads creating a task at once ended the
 process with SIGUSR1

---
 src/events.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/events.c b/src/events.c
index 5c7ed54..4c614f5 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1505,6 +1505,9 @@ void task_switch(tasks_t *co) {
 	}
 }
 
+/* there is one signal handler for all threads */
+static atomic_spinlock task_derive_lock = {0};
+
 tasks_t *task_derive(void *co, size_t stack_size, bool is_thread) {
 	(void)is_thread;
 	coroutine_t *contxt = (coroutine_t *)co;
@@ -1528,6 +1531,7 @@ tasks_t *task_derive(void *co, size_t stack_size, bool is_thread) {
 			sigemptyset(&handler.sa_mask);
 			__thrd()->active_sig_handle = (tasks_t *)co;
 
+			atomic_lock(&task_derive_lock);
 			if (!sigaction(SIGUSR1, &handler, &old_handler)) {
 				if (!raise(SIGUSR1)) {
 					contxt->sig_func = task_func;
@@ -1536,6 +1540,7 @@ tasks_t *task_derive(void *co, size_t stack_size, bool is_thread) {
 				sigaltstack(&old_stack, 0);
 				sigaction(SIGUSR1, &old_handler, 0);
 			}
+			atomic_unlock(&task_derive_lock);
 		}
 
 		if (contxt->sig_func != task_func) {
-- 
2.43.0


From 193e1778a03daf7c4d1ef1b41abacdc67c4eef00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:45 +0000
Subject: [PATCH 41/73] fix: waitfor() never returned from a second group, or
 one of a pool thread, and released a group still used

---
 src/events.c          | 27 ++++++++++++++++++++++-----
 src/events_internal.h |  2 ++
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/events.c b/src/events.c
index 4c614f5..e6d0524 100644
--- a/src/events.c
+++ b/src/events.c
@@ -263,6 +263,7 @@ int events_init(int max_fd) {
 	sys_event.future_cpu_idx = NULL;
 	sys_event.gc = NULL;
 	sys_event.results_size = 0;
+	sys_event.posted = NULL;
 	sys_event.cpu_count = thrd_cpu_count();
 	sys_event.queue_size = data_queue_size();
 	sys_event.local = NULL;
@@ -2073,13 +2074,15 @@ EVENTS_INLINE task_group_t *task_group(void) {
 	return t->task_group;
 }
 
-static void tasks_poster(waitgroup_t wg) {
+/* Shares the group with the pool threads, that is one group at a time, and from main thread only. */
+static bool tasks_poster(waitgroup_t wg) {
 	atomic_thread_fence(memory_order_seq_cst);
 	if (__thrd()->is_main) {
 		tasks_t *t = active_task();
 		int c, i, k;
-		if (t->group_finish && t->task_group && !t->task_group->taken && t->task_group->threaded) {
+		if (is_empty(sys_event.posted) && t->group_finish && t->task_group && !t->task_group->taken && t->task_group->threaded) {
 			t->task_group->taken = true;
+			sys_event.posted = wg;
 			for (i = 0; i < $size(sys_event.tasks_cpu_idx); i++) {
 				k = sys_event.tasks_cpu_idx[i].u_int;
 				events_deque_t *q = sys_event.local[k];
@@ -2095,8 +2098,12 @@ static void tasks_poster(waitgroup_t wg) {
 				events_deque_t *q = sys_event.local[(sys_event.tasks_cpu_idx[i].u_int)];
 				atomic_flag_test_and_set(&q->started);
 			}
+
+			return true;
 		}
 	}
+
+	return false;
 }
 
 uint32_t go(param_func_t fn, size_t num_of_args, ...) {
@@ -2255,6 +2262,7 @@ array_t waitfor(waitgroup_t wg) {
 	tasks_t *worker, *t = active_task();
 	tasklist_t *l = __thrd()->run_queue;
 	array_t wgr = NULL;
+	bool posted;
 	if (t->group_active && t->task_group == wg && t->task_group->threaded) {
 		t->group_active = false;
 		t->group_finish = true;
@@ -2262,7 +2270,7 @@ array_t waitfor(waitgroup_t wg) {
 		/* shared with the pool threads, must not move while they append */
 		$reserve(wgr, $size(wg->group));
 		wg->results = wgr;
-		tasks_poster(wg);
+		posted = tasks_poster(wg);
 		foreach(co in wg->group) {
 			worker = (tasks_t *)co.object;
 			worker->ready = true;
@@ -2302,8 +2310,17 @@ array_t waitfor(waitgroup_t wg) {
 			itask = 0;
 		}
 
-		while ((int)wg->count > 0)
-			yield();
+		if (posted) {
+			/* the last thread is done with the group, only after it gives the lock back */
+			atomic_lock($lock(wg->group));
+			while ((int)wg->count > 0) {
+				atomic_unlock($lock(wg->group));
+				yield();
+				atomic_lock($lock(wg->group));
+			}
+			atomic_unlock($lock(wg->group));
+			sys_event.posted = NULL;
+		}
 
 		if ($size(wgr) == 0) {
 			$delete(wgr);
diff --git a/src/events_internal.h b/src/events_internal.h
index fb8901c..f4e7a1a 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -276,6 +276,8 @@ struct sys_events_s {
 	array_t future_cpu_idx;
 	/* `tasks` thread id index for `run queue` pool */
 	array_t tasks_cpu_idx;
+	/* the `waitgroup` shared with the `tasks` pool */
+	waitgroup_t posted;
 	/* space in `results` */
 	size_t results_size;
 	events_deque_t **local;
-- 
2.43.0


From eafe606f8cd911c7a8e2ca0c089d1d68bf2250fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:45 +0000
Subject: [PATCH 42/73] fix: a waitgroup's member waited forever for a task
 sent to its own thread

---
 src/events.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/events.c b/src/events.c
index e6d0524..de83272 100644
--- a/src/events.c
+++ b/src/events.c
@@ -117,6 +117,7 @@ static void task_sleep_switch(void);
 static int tasks_schedulering(bool do_io);
 static void *task_wait_system(void *v);
 static void enqueue_tasks(tasks_t *t);
+static bool task_take(events_deque_t *queue);
 
 #include "deque.c"
 #include "asm.c"
@@ -2242,6 +2243,8 @@ static void __thrd_waitfor(events_deque_t *q) {
 				}
 
 				tasks_info(t, 1);
+				/* it might be waiting for one of those sent here */
+				task_take(q);
 				yield();
 			}
 		}
-- 
2.43.0


From 37915e49ac72df3d7f5029dd54973caee3393b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:47 +0000
Subject: [PATCH 43/73] fix: fs_close() refused a descriptor number that had
 been used before

---
 src/async_io.c | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 7f891c7..d140693 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -599,9 +599,7 @@ static EVENTS_INLINE void *_os_mkdir(param_t args) {
 }
 
 EVENTS_INLINE int fs_open(const char *path, int flag, int mode) {
-	future *thrd = futures_pool();
-	thrd->last_fd = TASK_DEAD;
-	return queue_get(queue_work(thrd, _os_open, 3, path, casting(flag), casting(mode))).integer;
+	return queue_get(queue_work(futures_pool(), _os_open, 3, path, casting(flag), casting(mode))).integer;
 }
 
 EVENTS_INLINE int fs_read(int fd, void *buf, uint32_t count) {
@@ -618,17 +616,7 @@ EVENTS_INLINE ssize_t fs_sendfile(int fd_out, int fd_in, off_t *offset, size_t l
 }
 
 EVENTS_INLINE int fs_close(int fd) {
-	future *thrd = futures_pool();
-	if (thrd->last_fd == fd) {
-		thrd->last_fd = TASK_ERRED;
-		return TASK_ERRED;
-	}
-
-	int r = queue_get(queue_work(thrd, _os_close, 1, casting(fd))).integer;
-	thrd->last_fd = fd;
-	fd = TASK_ERRED;
-
-	return r;
+	return queue_get(queue_work(futures_pool(), _os_close, 1, casting(fd))).integer;
 }
 
 EVENTS_INLINE int fs_unlink(const char *path) {
-- 
2.43.0


From da384d55135121d671dccfd60ccf48f08d9d9af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:47 +0000
Subject: [PATCH 44/73] fix: fs_writefile() and fs_touch() took a file that
 could not be opened for one that was

---
 src/async_io.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index d140693..5799bb3 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -682,7 +682,7 @@ EVENTS_INLINE int fs_copyfile(const char *oldfile, const char *newfile) {
 
 int fs_writefile(const char *path, char *text) {
 	int len, fd;
-	if ((fd = fs_open(path, O_WRONLY | O_CREAT, S_IRUSR | S_IWUSR)) > 0) {
+	if ((fd = fs_open(path, O_WRONLY | O_CREAT, S_IRUSR | S_IWUSR)) >= 0) {
 		if ((len = (int)strlen(text)) > 0)
 			len = fs_write(fd, text, len);
 
@@ -690,14 +690,14 @@ int fs_writefile(const char *path, char *text) {
 			return len;
 	}
 
-	return task_code();
+	return TASK_ERRED;
 }
 
 char *fs_readfile(const char *path) {
 	char *buffer = null;
 	int fd = 0;
 	size_t len = fs_filesize(path);
-	if (len > 0 && (fd = fs_open(path, O_RDONLY, 0)) > 0) {
+	if (len > 0 && (fd = fs_open(path, O_RDONLY, 0)) >= 0) {
 		if (defer_free(buffer = events_calloc(1, _mem_align_up(len + 1, 2)))) {
 			fs_read(fd, buffer, len);
 			fs_close(fd);
-- 
2.43.0


From f73d4c9f015eed5a369e6929fa3cce70229c2b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:47 +0000
Subject: [PATCH 45/73] fix: fs_copyfile() skipped or repeated bytes when
 sendfile sent less, and never ended on a shortened file

---
 src/os_unix.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index a38fda7..acda95f 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -1486,10 +1486,12 @@ int copyfile(const char *source, const char *destination) {
 	result = fstat(input, &file_stat);
 	off_t copied = 0;
 	while (result == 0 && copied < file_stat.st_size) {
+		/* moves `copied` on by what it has written, nothing is left if the file was cut meanwhile */
 		ssize_t written = sendfile(output, input, &copied, SSIZE_MAX);
-		copied += written;
 		if (written == -1) {
 			result = -1;
+		} else if (written == 0) {
+			break;
 		}
 	}
 
-- 
2.43.0


From 9e7c73c205c59c94c7ce4ec1e1fd5f9e8c88c03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:47 +0000
Subject: [PATCH 46/73] fix: the result of a large read, write or copy was
 taken for a pointer

---
 src/async_io.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 5799bb3..83a4b0c 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -519,6 +519,10 @@ EVENTS_INLINE int async_getaddrinfo(const char *name,
 	return queue_get(queue_work(futures_pool(), os_getaddrinfo, 4, name, service, hints, result)).integer;
 }
 
+/* A greater result would be taken for a pointer, see `is_ptr_usable()`. */
+#define IO_COUNT_MAX 0x20000000
+#define io_count(n) ((n) > IO_COUNT_MAX ? IO_COUNT_MAX : (n))
+
 static EVENTS_INLINE void *_os_open(param_t args) {
 #ifdef _WIN32
 	int r, flags = args[1].integer, mode = args[2].integer;
@@ -538,18 +542,18 @@ static EVENTS_INLINE void *_os_open(param_t args) {
 
 static EVENTS_INLINE void *_os_read(param_t args) {
 #ifdef _WIN32
-	int r = _read(args[0].integer, args[1].object, args[2].u_int);
+	int r = _read(args[0].integer, args[1].object, io_count(args[2].u_int));
 #else
-	int r = read(args[0].integer, args[1].object, args[2].u_int);
+	int r = read(args[0].integer, args[1].object, io_count(args[2].u_int));
 #endif
 	return casting(r);
 }
 
 static EVENTS_INLINE void *_os_write(param_t args) {
 #ifdef _WIN32
-	int r = _write(args[0].integer, args[1].const_char_ptr, args[2].u_int);
+	int r = _write(args[0].integer, args[1].const_char_ptr, io_count(args[2].u_int));
 #else
-	int r = write(args[0].integer, args[1].const_char_ptr, args[2].u_int);
+	int r = write(args[0].integer, args[1].const_char_ptr, io_count(args[2].u_int));
 #endif
 	return casting(r);
 }
@@ -561,7 +565,7 @@ static EVENTS_INLINE void *_os_sendfile(param_t args) {
 	return casting(sendfile(args[0].integer, args[1].integer, (off_t)args[2].long_long,
 		(off_t *)args[3].long_long_ptr, NULL, 0, 0));
 #else
-	return casting(sendfile(args[0].integer, args[1].integer, (off_t *)args[2].long_long_ptr, args[3].max_size));
+	return casting(sendfile(args[0].integer, args[1].integer, (off_t *)args[2].long_long_ptr, io_count(args[3].max_size)));
 #endif
 }
 
-- 
2.43.0


From 0b0a2cee35d73d1df3fc060145a9cfebf43170f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:47 +0000
Subject: [PATCH 47/73] fix: fs_gets() read memory before the caller's buffer

---
 src/async_io.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 83a4b0c..050d36b 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -1043,11 +1043,12 @@ EVENTS_INLINE int fs_fgetc(FILE *stream) {
 }
 
 static EVENTS_INLINE void *_os_fgets(param_t args) {
-	return fgets(args[0].char_ptr, args[1].integer, (FILE *)args[2].object);
+	/* what precedes the buffer is not to be looked at, as for an array */
+	return casting(fgets(args[0].char_ptr, args[1].integer, (FILE *)args[2].object) != NULL);
 }
 
 EVENTS_INLINE char *fs_fgets(char *buf, int count, FILE *stream) {
-	return queue_get(queue_work(futures_pool(), _os_fgets, 3, buf, casting(count), stream)).char_ptr;
+	return queue_get(queue_work(futures_pool(), _os_fgets, 3, buf, casting(count), stream)).integer ? buf : NULL;
 }
 
 EVENTS_INLINE int promise_read(promise *p, int fd, void *buf, uint32_t count) {
@@ -1055,7 +1056,7 @@ EVENTS_INLINE int promise_read(promise *p, int fd, void *buf, uint32_t count) {
 }
 
 EVENTS_INLINE char *promise_fgets(promise *p, char *buf, int count, FILE *stream) {
-	return promise_wait(promise_work(p, _os_fgets, 3, buf, casting(count), stream)).char_ptr;
+	return promise_wait(promise_work(p, _os_fgets, 3, buf, casting(count), stream)).integer ? buf : NULL;
 }
 
 EVENTS_INLINE int promise_fgetc(promise *p, FILE *stream) {
-- 
2.43.0


From 38096107d615769d9a8a3776298c0da9194f7ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:47 +0000
Subject: [PATCH 48/73] fix: of two tasks waiting for one descriptor the first
 was never woken

---
 src/events.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/events.c b/src/events.c
index de83272..47cd8fb 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1434,16 +1434,21 @@ EVENTS_INLINE uint32_t delay(uint32_t ms) {
 }
 
 static void wait_cb(fds_t fd, int event, void *arg) {
-	tasks_t *t = (tasks_t *)arg;
+	tasks_t *next, *t = (tasks_t *)arg;
 	tasklist_t *l = __thrd()->run_queue;
-	t->ready = true;
-	enqueue(l, t);
+	for (; t != NULL; t = next) {
+		next = t->next;
+		t->ready = true;
+		enqueue(l, t);
+	}
 	events_del(fd);
 	events_target(fd)->events = event;
 }
 
 void async_wait(int fd, int rw) {
 	int bits = 0;
+	events_t *loop = __thrd()->loop;
+	tasks_t *t = __thrd()->running;
 	switch (rw) {
 		case 'r':
 			bits |= EVENTS_READ;
@@ -1453,7 +1458,14 @@ void async_wait(int fd, int rw) {
 			break;
 	}
 
-	events_add(__thrd()->loop, fd, bits, 0, wait_cb, (void *)__thrd()->running);
+	/* other tasks wait for it, too: all of them are woken, each looks for itself */
+	t->next = NULL;
+	if (EVENTS_FD_BELONGS_TO_LOOP(loop, fd) && events_target(fd)->callback == wait_cb) {
+		bits |= events_target(fd)->events & EVENTS_READWRITE;
+		t->next = (tasks_t *)events_target(fd)->cb_arg;
+	}
+
+	events_add(loop, fd, bits, 0, wait_cb, (void *)t);
 	task_switch(__thrd()->current_handle);
 }
 
-- 
2.43.0


From ae23e3c0a9f992abd4617eb69ad16b2066a86eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 49/73] fix: a writer was never told that a pipe's reader had
 left

---
 src/epoll.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/epoll.c b/src/epoll.c
index 10d392d..8cefc13 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -167,8 +167,8 @@ int events_poll_once_internal(events_t *_loop, int max_wait) {
 				continue;
 
 			/* only the directions it is registered for by now */
-			int revents = ((((event->events & EPOLLIN) != 0 ? EVENTS_READ : 0)
-				| ((event->events & EPOLLOUT) != 0 ? EVENTS_WRITE : 0)) & target->events)
+			int revents = ((((event->events & (EPOLLIN | EPOLLERR)) != 0 ? EVENTS_READ : 0)
+				| ((event->events & (EPOLLOUT | EPOLLERR)) != 0 ? EVENTS_WRITE : 0)) & target->events)
 				| ((event->events & EPOLLHUP) != 0 ? EVENTS_CLOSED : 0);
 			if (target->is_pathwatcher) {
 				char *buffer = events_malloc(Kb(8) + sizeof(inotify_t));
-- 
2.43.0


From ad6a4277c6ebb3888dd4d19635a1e68a357d8755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 50/73] fix: waiting for a descriptor that cannot be polled
 aborted the process or never ended

---
 src/epoll.c  | 10 ++++++----
 src/events.c |  8 +++++++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/epoll.c b/src/epoll.c
index 8cefc13..c781bd3 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -120,10 +120,12 @@ int events_update_internal(events_t *_loop, int fd, int event) {
 		SET(EPOLL_CTL_DEL, 1);
 	} else {
 		SET(EPOLL_CTL_MOD, 0);
-		if (epoll_ret != 0) {
-			assert(errno == ENOENT);
-			SET(EPOLL_CTL_ADD, 1);
-		}
+		if (epoll_ret != 0 && errno == ENOENT)
+			SET(EPOLL_CTL_ADD, 0);
+
+		/* closed, or nothing that can be waited for */
+		if (epoll_ret != 0)
+			return -1;
 	}
 
 #else
diff --git a/src/events.c b/src/events.c
index 47cd8fb..62cd967 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1458,6 +1458,9 @@ void async_wait(int fd, int rw) {
 			break;
 	}
 
+	if (!EVENTS_IS_INITD_AND_FD_IN_RANGE(fd))
+		return;
+
 	/* other tasks wait for it, too: all of them are woken, each looks for itself */
 	t->next = NULL;
 	if (EVENTS_FD_BELONGS_TO_LOOP(loop, fd) && events_target(fd)->callback == wait_cb) {
@@ -1465,7 +1468,10 @@ void async_wait(int fd, int rw) {
 		t->next = (tasks_t *)events_target(fd)->cb_arg;
 	}
 
-	events_add(loop, fd, bits, 0, wait_cb, (void *)t);
+	/* what cannot be waited for is left to the operation itself to report */
+	if (events_add(loop, fd, bits, 0, wait_cb, (void *)t) == -1)
+		return;
+
 	task_switch(__thrd()->current_handle);
 }
 
-- 
2.43.0


From 6c22a9a7c5a7178f2a3cb875d3077a310be4b8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:47 +0000
Subject: [PATCH 51/73] fix: of two tasks accepting on one socket one was told
 of an error when the other took the connection

---
 src/async_io.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/async_io.c b/src/async_io.c
index 050d36b..7a36fcf 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -182,7 +182,13 @@ fds_t async_accept(fds_t fd, char *server, int *port) {
 	async_wait(fd, 'r');
 	len = is_unix ? sizeof(s_usa->sun)
 		: (s_usa->sa.sa_family == AF_INET6 ? sizeof(s_usa->sin6) : sizeof(s_usa->sin));
-	if ((cfd = accept(fd, (is_unix ? (struct sockaddr *)&usa.sun : (struct sockaddr *)&usa.sa), &len)) < 0) {
+	/* another task may have taken the connection that was told of */
+	while ((cfd = accept(fd, (is_unix ? (struct sockaddr *)&usa.sun : (struct sockaddr *)&usa.sa), &len)) < 0
+		&& os_geterror() == EAGAIN) {
+		async_wait(fd, 'r');
+	}
+
+	if (cfd < 0) {
 		errno = os_geterror();
 		return -1;
 	}
-- 
2.43.0


From 3bdb755e3763b61da26513736e04df1324aa8741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:29 +0000
Subject: [PATCH 52/73] fix: receiving a datagram overflowed a task's stack and
 cut off longer ones

---
 src/async_udp.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/async_udp.c b/src/async_udp.c
index d0dee28..58685ae 100644
--- a/src/async_udp.c
+++ b/src/async_udp.c
@@ -95,13 +95,17 @@ int async_recvfrom(int fd, void *buf, int n, unsigned int flags) {
 udp_t udp_recv(int fd) {
 	int m;
 	uchar *ip;
-	char buf[Kb(48)] = {0}, buf1[64] = {0};
+	char *buf;
 	udp_t client = null, packet = events_target(fd)->udp;
 	packet->addr = events_get_sockaddr(fd2socket(fd));
 	u_saddr_t *usa = packet->addr;
 	socklen_t client_len = usa->sa.sa_family == AF_INET6 ? sizeof(usa->sin6) : sizeof(usa->sin);
 
-	while ((m = recvfrom(socket2fd(fd), buf, sizeof(buf), packet->flags, &usa->sa, &client_len)) < 0
+	/* as long as a datagram can be, more than a task's stack holds */
+	if (is_empty(buf = events_malloc(Kb(64))))
+		return null;
+
+	while ((m = recvfrom(socket2fd(fd), buf, Kb(64), packet->flags, &usa->sa, &client_len)) < 0
 		&& os_geterror() == EAGAIN) {
 		async_wait(fd, 'r');
 	}
@@ -130,11 +134,12 @@ udp_t udp_recv(int fd) {
 					events_free(client->addr);
 
 				events_free(client);
-				return null;
+				client = null;
 			}
 		}
 	}
 
+	events_free(buf);
 	return client;
 }
 
-- 
2.43.0


From 9070d6039e96a945fcfaf8c812ea237a64a24306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:29 +0000
Subject: [PATCH 53/73] fix: an empty datagram was reported as a failure to
 receive

---
 src/async_udp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/async_udp.c b/src/async_udp.c
index 58685ae..849a1c5 100644
--- a/src/async_udp.c
+++ b/src/async_udp.c
@@ -110,7 +110,7 @@ udp_t udp_recv(int fd) {
 		async_wait(fd, 'r');
 	}
 
-	if (m > 0) {
+	if (m >= 0) {
 		errno = ENOMEM;
 		client = events_calloc(1, sizeof(struct udp_packet_s));
 		if (!is_empty(client)) {
-- 
2.43.0


From ad724f01104eb60b0b6e50fcbed526a0408af620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:29 +0000
Subject: [PATCH 54/73] fix: an answer to a datagram went to whoever sent the
 last one

---
 src/async_udp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/async_udp.c b/src/async_udp.c
index 849a1c5..463c808 100644
--- a/src/async_udp.c
+++ b/src/async_udp.c
@@ -69,7 +69,7 @@ int async_sendto(int fd, void *buf, int n) {
 
 int udp_send(udp_t packet, void *buf, int n) {
 	int m;
-	u_saddr_t *addr = events_get_sockaddr(fd2socket(packet->socket));
+	u_saddr_t *addr = packet->addr;
 	socklen_t client_len = addr->sa.sa_family == AF_INET6 ? sizeof(addr->sin6) : sizeof(addr->sin);
 
 	while ((m = sendto(fd2socket(packet->socket), (const char *)buf, n,
-- 
2.43.0


From 19a8cc0f4a96d77e9b9c0b96c00c374da94667e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:29 +0000
Subject: [PATCH 55/73] fix: a received datagram was freed while its receiver
 still used it

---
 src/async_udp.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/async_udp.c b/src/async_udp.c
index 463c808..4225599 100644
--- a/src/async_udp.c
+++ b/src/async_udp.c
@@ -124,7 +124,6 @@ udp_t udp_recv(int fd) {
 				memcpy(client->message, buf, m);
 				client->message_set = true;
 				client->type = DATA_UDP;
-				events_target(fd)->udp = client;
 				errno = 0;
 			} else {
 				if (!is_empty(client->message))
-- 
2.43.0


From 59fd1b80c1b921d24cc068e051c6076fca9432ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:29 +0000
Subject: [PATCH 56/73] fix: a waiting datagram send changed its destination
 when another task used the socket

---
 src/async_udp.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/async_udp.c b/src/async_udp.c
index 4225599..f0f3856 100644
--- a/src/async_udp.c
+++ b/src/async_udp.c
@@ -58,9 +58,16 @@ void udp_to(int fd, char *addr, unsigned int flags) {
 int async_sendto(int fd, void *buf, int n) {
 	int m;
 	udp_t packet = events_target(fd)->udp;
+	u_saddr_t to, *addr = null;
 	socklen_t client_len = sizeof(sockaddr_t);
 
-	while ((m = sendto(socket2fd(fd), (const char *)buf, n, packet->flags, (sockaddr_t *)packet->addr, client_len)) < 0
+	/* where it is aimed at now, others may change that while this one waits */
+	if (!is_empty(packet->addr)) {
+		memcpy(&to.storage, &packet->addr->storage, sizeof(to.storage));
+		addr = &to;
+	}
+
+	while ((m = sendto(socket2fd(fd), (const char *)buf, n, packet->flags, (sockaddr_t *)addr, client_len)) < 0
 		&& os_geterror() == EAGAIN) {
 		async_wait(fd, 'w');
 	}
@@ -97,9 +104,10 @@ udp_t udp_recv(int fd) {
 	uchar *ip;
 	char *buf;
 	udp_t client = null, packet = events_target(fd)->udp;
-	packet->addr = events_get_sockaddr(fd2socket(fd));
-	u_saddr_t *usa = packet->addr;
-	socklen_t client_len = usa->sa.sa_family == AF_INET6 ? sizeof(usa->sin6) : sizeof(usa->sin);
+	/* not the socket's, others may wait or send by it, too */
+	u_saddr_t from, *usa = &from;
+	socklen_t client_len = sizeof(from.storage);
+	memset(&from, 0, sizeof(from));
 
 	/* as long as a datagram can be, more than a task's stack holds */
 	if (is_empty(buf = events_malloc(Kb(64))))
@@ -113,6 +121,8 @@ udp_t udp_recv(int fd) {
 	if (m >= 0) {
 		errno = ENOMEM;
 		client = events_calloc(1, sizeof(struct udp_packet_s));
+		packet->addr = events_get_sockaddr(fd2socket(fd));
+		memcpy(&packet->addr->storage, &usa->storage, sizeof(usa->storage));
 		if (!is_empty(client)) {
 			client->socket = fd;
 			client->flags = packet->flags;
-- 
2.43.0


From 45faddcc4559e31d8d9a1a5a1e81a83d68fbf346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:29 +0000
Subject: [PATCH 57/73] fix: parsing an address read memory already freed

---
 src/arrays.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arrays.c b/src/arrays.c
index 318d067..dc2c2a8 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -1164,6 +1164,7 @@ char *str_parseip(char *name, uint32_t *ip, int *port, bool autofree) {
 			i = snprintf(buf, ARRAY_SIZE, "%s", tmp[0]);
 			events_free(tmp);
 			tmp = null;
+			name = buf;
 			if (i)
 				tmp = (char **)str_dup_ex(buf);
 		}
-- 
2.43.0


From e5a4191f8ed1bfe8cc039702bd3d084a98abba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:29 +0000
Subject: [PATCH 58/73] fix: memory given to defer_free was told apart from an
 array by its content

---
 src/events.c          | 55 +++++++++++++++++++------------------------
 src/events_internal.h |  8 +++++++
 src/except.c          | 10 ++++----
 src/future.c          |  6 ++---
 4 files changed, 41 insertions(+), 38 deletions(-)

diff --git a/src/events.c b/src/events.c
index 62cd967..20a9496 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1141,11 +1141,13 @@ void task_delete(tasks_t *co) {
 void deferred_unwind(array_t garbage) {
 	if (is_data(garbage)) {
 		foreach_back(arr in garbage) {
-			if (is_ptr_usable(arr.object)) {
+			if (defer_is_memory(arr.object)) {
+				events_free(defer_of(arr.object));
+			} else if (defer_is_array(arr.object)) {
+				$delete(defer_of(arr.object));
+			} else if (is_ptr_usable(arr.object)) {
 				data_types type = data_type(arr.object);
-				if (is_data(arr.object)) {
-					$delete(arr.object);
-				} else if (type == DATA_DEFER) {
+				if (type == DATA_DEFER) {
 					defer_t *clean = (defer_t *)arr.object;
 					clean->type = DATA_INVALID;
 					if (clean->is_ptr)
@@ -1940,36 +1942,19 @@ EVENTS_INLINE values_t results_for(uint32_t id) {
 	return data_values_empty->value;
 }
 
-bool defer_free(void *data) {
-	tasks_t *t = NULL;
-	if (data == NULL)
-		return false;
-
-	if (tasks_is_active()) {
-		if (!is_empty(__thrd()->running))
-			t = __thrd()->running;
-		else
-			t = active_task();
-
-		if (is_empty(t->garbage))
-			t->garbage = array();
-
-		$append(t->garbage, data);
-		return true;
-	}
-
-	ex_memory_t *scope = get_scope();
-	atomic_lock($lock(scope->defer_arr));
-	$append(scope->defer_arr, data);
-	atomic_unlock($lock(scope->defer_arr));
-	return true;
-}
-
 static int _defer_init(void *ptr) {
 	if (is_empty(ptr))
 		return TASK_ERRED;
 
 	ex_memory_t *scope = null;
+	if (scope_is_guarded()) {
+		scope = scope_local()->arena;
+		atomic_lock($lock(scope->defer_arr));
+		$append(scope->defer_arr, ptr);
+		atomic_unlock($lock(scope->defer_arr));
+		return $size(scope->defer_arr);
+	}
+
 	/* outside of coroutines it is the thread that exits */
 	if (tasks_is_active() && (!is_empty(__thrd()->running) || active_task() != __thrd()->active_buffer)) {
 		tasks_t *t = null;
@@ -2000,6 +1985,14 @@ static int _defer_init(void *ptr) {
 	return $size(scope->defer_arr);
 }
 
+bool defer_free(void *data) {
+	return data == NULL ? false : _defer_init(defer_as_memory(data)) > 0;
+}
+
+bool defer_data(array_t data) {
+	return data == NULL ? false : _defer_init(defer_as_array(data)) > 0;
+}
+
 int deferred(func_t func, void *data, bool is_ptr) {
 	if (is_empty(func))
 		return TASK_ERRED;
@@ -2347,7 +2340,7 @@ array_t waitfor(waitgroup_t wg) {
 			$delete(wgr);
 			wgr = NULL;
 		} else {
-			defer_free(wgr);
+			defer_data(wgr);
 		}
 
 		$delete(wg->group);
@@ -2401,7 +2394,7 @@ array_t tasks_wait(task_group_t *wg) {
 			$delete(wgr);
 			wgr = NULL;
 		} else {
-			defer_free(wgr);
+			defer_data(wgr);
 		}
 
 		$delete(wg->group);
diff --git a/src/events_internal.h b/src/events_internal.h
index f4e7a1a..05b11ba 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -642,6 +642,14 @@ int fsevents_stop(uint32_t rid);
 bool scope_is_guarded(void);
 int scope_deferred(ex_memory_t *scope, func_t func, void *data);
 void deferred_unwind(array_t garbage);
+/* Defer deletion of an `array`, LIFO. */
+bool defer_data(array_t data);
+/* What to do with something deferred is noted in its address, content can be anything. */
+#define defer_as_memory(ptr) (void *)((uintptr_t)(ptr) | 1)
+#define defer_as_array(ptr) (void *)((uintptr_t)(ptr) | 2)
+#define defer_is_memory(ptr) (((uintptr_t)(ptr) & 1) != 0)
+#define defer_is_array(ptr) (((uintptr_t)(ptr) & 2) != 0)
+#define defer_of(ptr) (void *)((uintptr_t)(ptr) & ~(uintptr_t)3)
 
 char *str_parseip(char *name, uint32_t *ip, int *port, bool autofree);
 #ifdef __cplusplus
diff --git a/src/except.c b/src/except.c
index 63ae19c..7bb73c7 100644
--- a/src/except.c
+++ b/src/except.c
@@ -1080,11 +1080,13 @@ void scope_unwind(ex_memory_t *scope) {
 
 	scope->is_recovered = is_empty(scope->err);
 	foreach_back(arr in scope->defer_arr) {
-		if (is_ptr_usable(arr.object)) {
+		if (defer_is_memory(arr.object)) {
+			events_free(defer_of(arr.object));
+		} else if (defer_is_array(arr.object)) {
+			$delete(defer_of(arr.object));
+		} else if (is_ptr_usable(arr.object)) {
 			data_types type = data_type(arr.object);
-			if (is_data(arr.object)) {
-				$delete(arr.object);
-			} else if (type == DATA_DEFER) {
+			if (type == DATA_DEFER) {
 				defer_ran = true;
 				defer_t *clean = (defer_t *)arr.object;
 				clean->type = DATA_INVALID;
diff --git a/src/future.c b/src/future.c
index b511661..e54c637 100644
--- a/src/future.c
+++ b/src/future.c
@@ -123,7 +123,7 @@ static int _thrd_wrapper(void *arg) {
 	f->promise->erred = 0;
 
 	guard {
-		defer_free(f->promise->args);
+		defer_data(f->promise->args);
 		res->object = f->promise->func(f->promise->args);
 		promise_set(f->promise, res->object);
 	} guarded_exception(f->promise);
@@ -166,7 +166,7 @@ values_t thrd_get(future_t f) {
 			atomic_flag_clear(&f->promise->mutex);
 			atomic_flag_clear(&f->promise->done);
 			if (f->promise->result->is_array)
-				defer_free(f->promise->result->value.object);
+				defer_data((array_t)f->promise->result->value.object);
 
 			if (f->promise->erred)
 				errno = f->promise->erred;
@@ -471,7 +471,7 @@ values_t queue_get(void *self) {
 
 		if (p->result->is_array == 1) {
 			defer_free(p);
-			defer_free(p->result->value.object);
+			defer_data((array_t)p->result->value.object);
 			p->result->is_array = DATA_INVALID;
 			return *(tuple_t)(p->result->value.object);
 		}
-- 
2.43.0


From 58af24949a9dd61b885c43a34bad4f22d08831af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:47 +0000
Subject: [PATCH 59/73] fix: output of a spawned program was lost or stalled,
 and handed over by another thread

---
 src/async_io.c | 39 ++++++++++++++++++++++++++++-----------
 src/os_unix.c  |  5 ++++-
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 7a36fcf..c1baf64 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -739,18 +739,25 @@ EVENTS_INLINE int fs_events_cancel(uint32_t rid) {
 	return fsevents_stop(rid);
 }
 
+#ifdef _WIN32
 static void spawn_io(fds_t fd, int events, void *arg) {
 	execinfo_t *info = (execinfo_t *)arg;
 	spawn_cb func = info->io_func;
-#ifndef _WIN32
-	char data[Kb(32)] = {0};
-	int count;
-	if ((count = read((fds_t)info->read_output[0], data, sizeof(data))) > 0)
-		func((fds_t)info->write_input[1], count, data);
-#else
 	func((fds_t)info->write_input[1], (size_t)events, info->buffer);
-#endif
 }
+#else
+/* Hand over some of what the child has written, `false` when there is nothing now. */
+static bool spawn_io(execinfo_t *info) {
+	char data[Kb(32) + 1];
+	int count = read((fds_t)info->read_output[0], data, sizeof(data) - 1);
+	if (count <= 0)
+		return false;
+
+	data[count] = 0;
+	info->io_func((fds_t)info->write_input[1], count, data);
+	return true;
+}
+#endif
 
 static void *spawning(param_t args) {
 	process_t pid;
@@ -764,9 +771,7 @@ static void *spawning(param_t args) {
 	task_name("spawn #%d", task_id());
 	pid = exec((const char *)command, args[1].const_char_ptr, info);
 	if (info->io_func) {
-#ifndef _WIN32
-		status = events_add(futures_pool()->queue->loop, (fds_t)info->read_output[1], EVENTS_WRITE, 0, spawn_io, info);
-#else
+#ifdef _WIN32
 		status = -1;
 		if (events_assign_fd(info->read_output[0], (intptr_t)pid)) {
 			status = events_add(futures_pool()->queue->loop, (fds_t)pid, EVENTS_READ, 0, spawn_io, info);
@@ -779,14 +784,22 @@ static void *spawning(param_t args) {
 		info->context = t;
 		yield();
 		while (exec_wait(pid, 0, &status) && os_geterror() == ETIMEDOUT) {
+#ifndef _WIN32
+			if (info->io_func)
+				spawn_io(info);
+#endif
 			tasks_info(t, 1);
 			yield();
 		}
 
+#ifndef _WIN32
+		/* what it has written before it ended */
+		while (info->io_func && spawn_io(info))
+			;
+#endif
 		info->context = NULL;
 		if (info->io_func) {
 #ifndef _WIN32
-			events_del((fds_t)info->read_output[1]);
 			close((uintptr_t)info->read_output[0]);
 			close((uintptr_t)info->read_output[1]);
 			close((uintptr_t)info->write_input[0]);
@@ -801,6 +814,10 @@ static void *spawning(param_t args) {
 
 		if (info->exit_func)
 			info->exit_func(status, status);
+
+#ifndef _WIN32
+		os_close((intptr_t)pid);
+#endif
 	} else {
 		cerr("Process launch failed with: %s"CLR_LN, strerror(os_geterror()));
 	}
diff --git a/src/os_unix.c b/src/os_unix.c
index acda95f..a0640c2 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -656,7 +656,10 @@ int exec_wait(process_t ps, uint32_t timeout_ms, int *exit_code) {
 			*exit_code = -s.si_status;
 	}
 
-	os_close((intptr_t)ps);
+	/* of what has been spawned there is output left to hand over */
+	if (!fdTable[(intptr_t)ps].process->is_spawn)
+		os_close((intptr_t)ps);
+
 	return 0;
 }
 
-- 
2.43.0


From 518807c9a16156aa5a324e393dcb7d37078514f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:47 +0000
Subject: [PATCH 60/73] fix: a spawned program's own ends of its pipes were
 nonblocking

---
 src/async_io.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index c1baf64..f165645 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -894,17 +894,21 @@ static execinfo_t *spawn_ex(const char *command, const char *args, const char *e
 			events_set_nonblocking(info->error[1]);
 		}
 #else
-		if (pipe2(_2fd(info->write_input), O_NONBLOCK)
-			|| pipe2(_2fd(info->read_output), O_NONBLOCK)) {
+		/* only this side's ends are nonblocking, and no other child gets them */
+		if (pipe2(_2fd(info->write_input), O_CLOEXEC)
+			|| pipe2(_2fd(info->read_output), O_CLOEXEC)) {
 			perror("pipe2");
 			return NULL;
 		}
+		events_set_nonblocking(info->write_input[1]);
+		events_set_nonblocking(info->read_output[0]);
 
 		if (!is_empty(env)) {
-			if (pipe2(_2fd(info->error), O_NONBLOCK)) {
+			if (pipe2(_2fd(info->error), O_CLOEXEC)) {
 				perror("pipe2");
 				return NULL;
 			}
+			events_set_nonblocking(info->error[0]);
 		}
 #endif
 	}
-- 
2.43.0


From a628060d994d262e67fd07efc83d67a1baf01754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:47 +0000
Subject: [PATCH 61/73] fix: exit status and signal of a spawned program were
 mixed up

---
 src/async_io.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/async_io.c b/src/async_io.c
index f165645..a33ea5a 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -813,7 +813,11 @@ static void *spawning(param_t args) {
 		}
 
 		if (info->exit_func)
+#ifndef _WIN32
+			info->exit_func(status < 0 ? 0 : status, status < 0 ? -status : 0);
+#else
 			info->exit_func(status, status);
+#endif
 
 #ifndef _WIN32
 		os_close((intptr_t)pid);
-- 
2.43.0


From 281f7a6c3cf8afad39d84d1f1b37150046681a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:47 +0000
Subject: [PATCH 62/73] fix: a program started without an environment of its
 own had none

---
 src/os_unix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index a0640c2..9c49e26 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -584,7 +584,7 @@ static inline process_t os_exec_info(const char *filename, execinfo_t *info) {
 	if (info->workdir != NULL && 0 != chdir(info->workdir))
 		goto end;
 
-	execve(filename, (char **)info->argv, (char **)info->env);
+	execve(filename, (char **)info->argv, is_empty(info->env) ? environ : (char **)info->env);
 
 end:
 	_exit(255);
-- 
2.43.0


From 7ca35dcdabdfb74f720e41f40a6a17bcf3b04d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:47 +0000
Subject: [PATCH 63/73] fix: a program started without arguments got an empty
 one

---
 src/os_unix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 9c49e26..cee0968 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -617,7 +617,7 @@ EVENTS_INLINE execinfo_t *exec_info(const char *env, bool is_detached,
 }
 
 EVENTS_INLINE process_t exec(const char *command, const char *args, execinfo_t *info) {
-	char *cmd_arg = str_cat_ex((args == NULL ? 2 : 3), command, ",", args);
+	char *cmd_arg = args == NULL ? str_cat_ex(1, command) : str_cat_ex(3, command, ",", args);
 	if (info == NULL)
 		info = exec_info(NULL, false, inherit, inherit, inherit);
 
-- 
2.43.0


From 830fc9cd6b52bf1dc17a69c9e46d26ac0ea81f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:47 +0000
Subject: [PATCH 64/73] fix: exec_addenv() result was not terminated and long
 values read past its buffer

---
 src/async_io.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index a33ea5a..5f8fa4e 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -830,20 +830,20 @@ static void *spawning(param_t args) {
 }
 
 char *exec_addenv(char *env, size_t *size, uint32_t num_pairs, ...) {
-	char *k, *v, buf[Kb(2)] = {0}, *data = env;
+	char *k, *v, *data = env;
 	int i, len;
 	va_list ap;
 
 	if (num_pairs > 0) {
 		va_start(ap, num_pairs);
 		for (i = 0; i < num_pairs; i++) {
-			/* Copy VARIABLE=VALUE;\0 string into the free space */
+			/* Copy VARIABLE=VALUE; into the free space, always a string */
 			k = va_arg(ap, char *);
 			v = va_arg(ap, char *);
-			len = snprintf(buf, sizeof(buf), "%s=%s;", k, v);
+			len = (int)(strlen(k) + strlen(v) + 2);
+			data = events_realloc(data, *size + len + 1);
+			snprintf(data + *size, len + 1, "%s=%s;", k, v);
 			*size += len;
-			data = events_realloc(data, *size);
-			memcpy(data + (*size - len), buf, len);
 		}
 		va_end(ap);
 	}
-- 
2.43.0


From 3078d2b7dada691dd07bbcc398600e4226bbe72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:47 +0000
Subject: [PATCH 65/73] fix: failing to start a process was reported as its
 success

---
 src/os_unix.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/os_unix.c b/src/os_unix.c
index cee0968..989e377 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -536,6 +536,14 @@ static inline process_t os_exec_info(const char *filename, execinfo_t *info) {
 		info->ps = p;
 		info->argv = NULL;
 		info->env = NULL;
+		if (p < 0) {
+			int err = errno;
+			fdTable[info->fd].fd = 0;
+			os_close(info->fd);
+			errno = err;
+			return p;
+		}
+
 		return (process_t)info->fd;
 	}
 
-- 
2.43.0


From f2078b26e1a186e7ce275ea86e7b9d852608a39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:47 +0000
Subject: [PATCH 66/73] fix: pipes of spawned programs were left open

---
 src/async_io.c | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 5f8fa4e..42fa66e 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -759,6 +759,25 @@ static bool spawn_io(execinfo_t *info) {
 }
 #endif
 
+#ifndef _WIN32
+/* Close what `spawn_ex()` opened. */
+static void spawn_close(execinfo_t *info) {
+	int i;
+	for (i = 0; i < 2; i++) {
+		if (info->write_input[i] != inherit)
+			close(info->write_input[i]);
+
+		if (info->read_output[i] != inherit)
+			close(info->read_output[i]);
+
+		if (info->error[i] != inherit)
+			close(info->error[i]);
+
+		info->write_input[i] = info->read_output[i] = info->error[i] = inherit;
+	}
+}
+#endif
+
 static void *spawning(param_t args) {
 	process_t pid;
 	execinfo_t *info = (execinfo_t *)args[2].object;
@@ -798,19 +817,16 @@ static void *spawning(param_t args) {
 			;
 #endif
 		info->context = NULL;
-		if (info->io_func) {
 #ifndef _WIN32
-			close((uintptr_t)info->read_output[0]);
-			close((uintptr_t)info->read_output[1]);
-			close((uintptr_t)info->write_input[0]);
-			close((uintptr_t)info->write_input[1]);
+		spawn_close(info);
 #else
+		if (info->io_func) {
 			CloseHandle(ioThread);
 			CloseHandle(info->write_input[1]);
 			events_del((fds_t)pid);
 			close((intptr_t)pid);
-#endif
 		}
+#endif
 
 		if (info->exit_func)
 #ifndef _WIN32
@@ -824,6 +840,9 @@ static void *spawning(param_t args) {
 #endif
 	} else {
 		cerr("Process launch failed with: %s"CLR_LN, strerror(os_geterror()));
+#ifndef _WIN32
+		spawn_close(info);
+#endif
 	}
 
 	return 0;
-- 
2.43.0


From c5dcf12d418b62692b167167fc08d6e548b5c2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:32 +0000
Subject: [PATCH 67/73] fix: directory watches were never told of changes

---
 src/epoll.c           | 19 +++++---------
 src/events_internal.h |  2 ++
 src/os_unix.c         | 60 ++++++++++++++++++++++++++++++++++++++-----
 3 files changed, 62 insertions(+), 19 deletions(-)

diff --git a/src/epoll.c b/src/epoll.c
index c781bd3..5a56ed7 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -97,6 +97,10 @@ int events_update_internal(events_t *_loop, int fd, int event) {
 	memset(&ev, 0, sizeof(ev));
 	assert(EVENTS_FD_BELONGS_TO_LOOP(&loop->loop, fd));
 
+	/* a watch is read from */
+	if ((event & EVENTS_PATHWATCH) != 0)
+		event |= EVENTS_READ;
+
 	if ((event & EVENTS_READWRITE) == target->events) {
 		return 0;
 	}
@@ -150,7 +154,7 @@ intptr_t events_backend_fd(events_t *_loop) {
 
 int events_poll_once_internal(events_t *_loop, int max_wait) {
 	events_epoll *loop = (events_epoll *)_loop;
-	int i, len, nevents, ffd = 0;
+	int i, nevents, ffd = 0;
 
 	nevents = epoll_wait(loop->epfd, loop->events, sizeof(loop->events) / sizeof(loop->events[0]),
 		(ffd > 0 ? 0 : max_wait * 1000));
@@ -173,18 +177,7 @@ int events_poll_once_internal(events_t *_loop, int max_wait) {
 				| ((event->events & (EPOLLOUT | EPOLLERR)) != 0 ? EVENTS_WRITE : 0)) & target->events)
 				| ((event->events & EPOLLHUP) != 0 ? EVENTS_CLOSED : 0);
 			if (target->is_pathwatcher) {
-				char *buffer = events_malloc(Kb(8) + sizeof(inotify_t));
-				if (!is_empty(buffer)) {
-					if ((len = read(fd, buffer, Kb(8) + sizeof(inotify_t))) < 0) {
-						events_free(buffer);
-						return -1;
-					}
-
-					async_task(inotify_task, 5, casting(fd), buffer, casting(len), target->callback, target->cb_arg);
-					return 0;
-				}
-
-				return -1;
+				inotify_ready(fd);
 			} else if (revents != 0) {
 				(*target->callback)(fd, revents, target->cb_arg);
 			}
diff --git a/src/events_internal.h b/src/events_internal.h
index 05b11ba..103a614 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -614,6 +614,8 @@ void deque_destroy(void);
 int inotify_del_monitor(int wd);
 int inotify_close(int fd);
 void *inotify_task(param_t args);
+/* There are events to read, `fd` is the real descriptor. */
+void inotify_ready(int fd);
 
 #ifdef _WIN32
 int inotify_wd(int pseudo);
diff --git a/src/os_unix.c b/src/os_unix.c
index 989e377..338db84 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -1298,20 +1298,56 @@ EVENTS_INLINE const char *fs_events_path(int wd) {
 	return (const char *)fdTable[wd].path;
 }
 
+/* The slot of an `inotify` descriptor. */
+static int inotify_slot(int fd) {
+	int i;
+	for (i = 0; i < ioTableSize; ++i) {
+		if (fdTable[i].type == FD_MONITOR_ASYNC && fdTable[i].fd == fd)
+			return i;
+	}
+
+	return TASK_ERRED;
+}
+
+/* Still what it was when `serial` was given to it, handlers may have closed it. */
+static bool inotify_is_open(int pseudo, int serial) {
+	return fdTable[pseudo].type == FD_MONITOR_ASYNC && fdTable[pseudo].offset == serial;
+}
+
+/* Reports all there is, one task at a time for each `inotify` descriptor, so that it is done in order. */
 void *inotify_task(param_t args) {
-	inotify_t *event = (inotify_t *)args[1].object;
-	inotify_handler(args[0].integer, event, args[2].integer, (watch_cb)args[3].func, args[4].object);
-	events_free((void *)event);
+	int len, fd = args[0].integer, serial = args[1].integer;
+	watch_cb handler = (watch_cb)args[2].func;
+	void *filter = args[3].object;
+	char *buffer = events_malloc(Kb(8) + sizeof(inotify_t));
 
+	while (!is_empty(buffer) && inotify_is_open(fd, serial)
+		&& (len = read(fdTable[fd].fd, buffer, Kb(8) + sizeof(inotify_t))) > 0)
+		inotify_handler(fd, (inotify_t *)buffer, len, handler, filter);
+
+	if (inotify_is_open(fd, serial))
+		fdTable[fd].flags = false;
+
+	events_free(buffer);
 	return 0;
 }
 
+void inotify_ready(int fd) {
+	events_fd_t *target = events_target(fd);
+	int pseudo = inotify_slot(fd);
+	if (pseudo >= 0 && !fdTable[pseudo].flags) {
+		fdTable[pseudo].flags = true;
+		async_task(inotify_task, 4, casting(pseudo), casting(fdTable[pseudo].offset), target->callback, target->cb_arg);
+	}
+}
+
 void inotify_handler(int fd, inotify_t *event, int len, watch_cb handler, void *filter) {
 	char subpath[PATH_MAX] = {0};
 	char *buffer = (char *)event;
 	char *p = buffer;
+	int serial = fdTable[fd].offset;
 
-	while (p < buffer + len) {
+	while (p < buffer + len && inotify_is_open(fd, serial)) {
 		events_monitors action = WATCH_INVALID;
 		int mask = (WATCH_MODIFIED | WATCH_REMOVED | WATCH_ADDED | WATCH_MOVED);
 		inotify_t *evt = (inotify_t *)p;
@@ -1336,13 +1372,25 @@ void inotify_handler(int fd, inotify_t *event, int len, watch_cb handler, void *
 	}
 }
 
+static int inotify_new(int realfd) {
+	static atomic_size_t serial = 0;
+	int pseudo = events_new_fd(FD_MONITOR_ASYNC, realfd, realfd);
+	if (pseudo != -1) {
+		/* a slot's number is not always the descriptor's */
+		fdTable[pseudo].fd = realfd;
+		fdTable[pseudo].offset = (int)atomic_fetch_add(&serial, 1) + 1;
+	}
+
+	return pseudo;
+}
+
 EVENTS_INLINE int __inotify_init(void) {
 	events_init(256);
 	int realfd = inotify_init();
 	if (realfd == -1)
 		return realfd;
 
-	return events_new_fd(FD_MONITOR_ASYNC, realfd, realfd);
+	return inotify_new(realfd);
 }
 
 EVENTS_INLINE int __inotify_init1(int flags) {
@@ -1351,7 +1399,7 @@ EVENTS_INLINE int __inotify_init1(int flags) {
 	if (realfd == -1)
 		return realfd;
 
-	return events_new_fd(FD_MONITOR_ASYNC, realfd, realfd);
+	return inotify_new(realfd);
 }
 
 int inotify_del_monitor(int wd) {
-- 
2.43.0


From 85c9306b2111912ee8bfd73338cd115c469a0fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:32 +0000
Subject: [PATCH 68/73] fix: changes were taken for those of another watch with
 the same number

---
 src/os_unix.c | 86 +++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 67 insertions(+), 19 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 338db84..9d01060 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -56,6 +56,7 @@ static int ioTableSize = 256;
 static FD_TABLE *fdTable = NULL;
 static atomic_spinlock fdTable_lock = 0; /* slots are taken and given back by any thread */
 static int hIoCompPort = -1;
+static atomic_spinlock inotify_lock = 0; /* directories are added to watches by other threads */
 #if __APPLE__ && __MACH__
 static int hIoCompPort_token = -1;
 #endif
@@ -503,8 +504,7 @@ void events_free_fd(int pseudo) {
 	if ((pseudo >= 0) && (pseudo < ioTableSize)
 		&& fdTable[pseudo].type != FD_UNUSED) {
 		acquire_lock(pseudo);
-		if (fdTable[pseudo].type == FD_MONITOR_ASYNC
-			|| fdTable[pseudo].type == FD_MONITOR_SYNC)
+		if (fdTable[pseudo].type == FD_MONITOR_ASYNC)
 			fdTable[pseudo].inUse = fdTable[pseudo].event_fd;
 		else if (fdTable[pseudo].type != FD_PIPE_ASYNC)
 			close(fdTable[pseudo].event_fd);
@@ -1314,6 +1314,57 @@ static bool inotify_is_open(int pseudo, int serial) {
 	return fdTable[pseudo].type == FD_MONITOR_ASYNC && fdTable[pseudo].offset == serial;
 }
 
+/* The slot of the watch that has number `wd` with this `inotify` descriptor, each descriptor has its own numbers. */
+static int inotify_watch_of(int fd, int wd) {
+	int pseudo = TASK_ERRED;
+	atomic_lock(&inotify_lock);
+	if (fdTable[fd].inotify_wd != NULL) {
+		foreach(watch in fdTable[fd].inotify_wd) {
+			if (fdTable[watch.integer].fd == wd) {
+				pseudo = watch.integer;
+				break;
+			}
+		}
+	}
+
+	atomic_unlock(&inotify_lock);
+	return pseudo;
+}
+
+/* A slot for a watch, that is no number of some other descriptor. */
+static int inotify_new_watch(int fd, int wd, const char *path) {
+	int event_fd, pseudo = inotify_watch_of(fd, wd);
+	if (pseudo >= 0)
+		return pseudo;
+
+	/* directories further down are found by a thread without a loop */
+	if (!events_is_active() && fdTable[fd].inotify_wd == NULL) {
+		/* its user finds the same number in the events it reads */
+		if ((pseudo = events_new_fd(FD_MONITOR_SYNC, wd, wd)) >= 0)
+			fdTable[pseudo].event_fd = TASK_ERRED;
+	} else if ((event_fd = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK)) >= 0
+		&& (pseudo = events_new_fd(FD_MONITOR_SYNC, event_fd, -1)) < 0) {
+		close(event_fd);
+	}
+
+	if (pseudo < 0)
+		return TASK_ERRED;
+
+	fdTable[pseudo].fd = wd;
+	fdTable[pseudo]._fd = fd;
+	if (events_is_active() || fdTable[fd].inotify_wd != NULL) {
+		fdTable[pseudo].path = str_dup_ex(path);
+		atomic_lock(&inotify_lock);
+		if (fdTable[fd].inotify_wd == NULL)
+			fdTable[fd].inotify_wd = array();
+
+		$append_signed(fdTable[fd].inotify_wd, pseudo);
+		atomic_unlock(&inotify_lock);
+	}
+
+	return pseudo;
+}
+
 /* Reports all there is, one task at a time for each `inotify` descriptor, so that it is done in order. */
 void *inotify_task(param_t args) {
 	int len, fd = args[0].integer, serial = args[1].integer;
@@ -1345,7 +1396,7 @@ void inotify_handler(int fd, inotify_t *event, int len, watch_cb handler, void *
 	char subpath[PATH_MAX] = {0};
 	char *buffer = (char *)event;
 	char *p = buffer;
-	int serial = fdTable[fd].offset;
+	int wd, serial = fdTable[fd].offset;
 
 	while (p < buffer + len && inotify_is_open(fd, serial)) {
 		events_monitors action = WATCH_INVALID;
@@ -1361,11 +1412,12 @@ void inotify_handler(int fd, inotify_t *event, int len, watch_cb handler, void *
 			else if (evt->mask & (IN_MODIFY | IN_ATTRIB))
 				action = WATCH_MODIFIED;
 
-			if (action) {
-				if (!fdTable[evt->wd].changes)
-					snprintf(subpath, PATH_MAX, "%s%s%s", fdTable[evt->wd].path, SYS_DIRSEP, evt->name);
+			/* not of a watch that has been removed meanwhile */
+			if (action && (wd = inotify_watch_of(fd, evt->wd)) >= 0) {
+				if (!fdTable[wd].changes)
+					snprintf(subpath, PATH_MAX, "%s%s%s", fdTable[wd].path, SYS_DIRSEP, evt->name);
 
-				handler(evt->wd, action | ~mask, (const char *)(fdTable[evt->wd].changes ? evt->name : subpath), filter);
+				handler(wd, action | ~mask, (const char *)(fdTable[wd].changes ? evt->name : subpath), filter);
 			}
 		}
 		p += sizeof(inotify_t) + evt->len;
@@ -1446,10 +1498,10 @@ static void inotify_recursive(int fd, const char *path, uint32_t mask, char *sub
 				if (wd == -1)
 					continue;
 
-				int pseudo = events_new_fd(FD_MONITOR_SYNC, wd, wd);
-				$append_signed(fdTable[fd].inotify_wd, pseudo);
-				fdTable[pseudo]._fd = fd;
-				fdTable[pseudo].path = str_dup_ex(subpath);
+				int pseudo = inotify_new_watch(fd, wd, subpath);
+				if (pseudo < 0)
+					continue;
+
 				inotify_recursive(fd, (const char *)fdTable[pseudo].path, mask, subpath, path_max);
 			}
 		}
@@ -1473,15 +1525,9 @@ int __inotify_add_watch(int fd, const char *name, uint32_t mask) {
 	if (wd == -1)
 		return wd;
 
-	int pseudo = events_new_fd(FD_MONITOR_SYNC, wd, wd);
-	if (events_is_active()) {
-		if (fdTable[fd].inotify_wd == NULL)
-			fdTable[fd].inotify_wd = array();
-
-		$append_signed(fdTable[fd].inotify_wd, pseudo);
-		fdTable[pseudo]._fd = fd;
+	int pseudo = inotify_new_watch(fd, wd, name);
+	if (pseudo >= 0 && events_is_active()) {
 		fdTable[pseudo].changes = 1;
-		fdTable[pseudo].path = str_dup_ex(name);
 		queue_get(queue_work(futures_pool(), _inotify_recursive, 5, casting(fd), fdTable[pseudo].path, casting(mask), subpath, sizeof(subpath)));
 	}
 
@@ -1494,12 +1540,14 @@ EVENTS_INLINE int __inotify_rm_watch(int fd, int wd) {
 
 	int realFd = events_get_fd(fd), realWd = events_get_fd(wd);
 	if (events_is_active() && events_valid_fd(wd)) {
+		atomic_lock(&inotify_lock);
 		foreach(watch in fdTable[fd].inotify_wd) {
 			if (watch.integer == wd) {
 				$remove(fdTable[fd].inotify_wd, iwatch);
 				break;
 			}
 		}
+		atomic_unlock(&inotify_lock);
 	}
 
 	if (events_valid_fd(wd)) {
-- 
2.43.0


From fe6645a07cd5a8d2d9c4404c7513949f29c0890b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:33 +0000
Subject: [PATCH 69/73] fix: all watches of a loop shared one handler, and
 one's end ended the others

---
 src/events.c          | 30 +++++++++++++++++++++---------
 src/events_internal.h |  2 ++
 src/os_unix.c         | 36 ++++++++++++++++++++++++------------
 3 files changed, 47 insertions(+), 21 deletions(-)

diff --git a/src/events.c b/src/events.c
index 20a9496..54df14a 100644
--- a/src/events.c
+++ b/src/events.c
@@ -482,15 +482,17 @@ EVENTS_INLINE bool events_is_watching(int inotify) {
 	return events_watch_count(inotify) > 0;
 }
 
+static int events_watch_by(events_t *loop, int *inotify, const char *name, watch_cb handler, void *filter);
 static void *fsevents_task(param_t args) {
 	events_t *loop = event_loop();
-	int fd = events_watch(loop, args[0].const_char_ptr, (watch_cb)args[1].func, args[2].object);
+	/* its own, so that its end is not that of others */
+	int inotify = DATA_INVALID, fd = events_watch_by(loop, &inotify, args[0].const_char_ptr, (watch_cb)args[1].func, args[2].object);
 	while (events_is_watching(fd) && !task_is_canceled()) {
 		active_info();
 		yield();
 	}
 
-	(void)events_del_watch(loop);
+	(void)inotify_close(inotify);
 	return 0;
 }
 
@@ -529,22 +531,32 @@ int fsevents_stop(uint32_t rid) {
 	return found;
 }
 
-EVENTS_INLINE int events_watch(events_t *loop, const char *name, watch_cb handler, void *filter) {
-	if (loop->inotify_fd == DATA_INVALID)
-		if ((loop->inotify_fd = inotify_init1(IN_NONBLOCK)) < 0)
+static int events_watch_by(events_t *loop, int *inotify, const char *name, watch_cb handler, void *filter) {
+	if (*inotify == DATA_INVALID)
+		if ((*inotify = inotify_init1(IN_NONBLOCK)) < 0)
 			return -1;
 
 #if __FreeBSD__ || __NetBSD__ || __OpenBSD__ || __DragonFly__ || __APPLE__ || __MACH__
 	kqueue_watch_init(loop, handler, filter);
-	if (inotify_add_watch(loop->inotify_fd, name, IN_ALL_EVENTS) < 0)
+	if (inotify_add_watch(*inotify, name, IN_ALL_EVENTS) < 0)
+		return -1;
+#elif defined(__linux__)
+	/* each watch has its own handler */
+	if ((inotify_watch(*inotify, name, IN_ALL_EVENTS, handler, filter) < 0)
+		|| (!events_is_registered(loop, events_get_fd(*inotify))
+			&& events_add(loop, *inotify, EVENTS_PATHWATCH, 0, (events_cb)handler, filter) < 0))
 		return -1;
 #else
-	if ((inotify_add_watch(loop->inotify_fd, name, IN_ALL_EVENTS) < 0)
-		|| (events_add(loop, loop->inotify_fd, EVENTS_PATHWATCH, 0, (events_cb)handler, filter) < 0))
+	if ((inotify_add_watch(*inotify, name, IN_ALL_EVENTS) < 0)
+		|| (events_add(loop, *inotify, EVENTS_PATHWATCH, 0, (events_cb)handler, filter) < 0))
 		return -1;
 #endif
 
-	return loop->inotify_fd;
+	return *inotify;
+}
+
+EVENTS_INLINE int events_watch(events_t *loop, const char *name, watch_cb handler, void *filter) {
+	return events_watch_by(loop, &loop->inotify_fd, name, handler, filter);
 }
 
 int events_add(events_t *loop, fds_t sfd, int event, int timeout_in_secs,
diff --git a/src/events_internal.h b/src/events_internal.h
index 103a614..eb7958b 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -616,6 +616,8 @@ int inotify_close(int fd);
 void *inotify_task(param_t args);
 /* There are events to read, `fd` is the real descriptor. */
 void inotify_ready(int fd);
+/* Same as `inotify_add_watch()`, what is reported for it goes to `handler`. */
+int inotify_watch(int fd, const char *name, uint32_t mask, watch_cb handler, void *filter);
 
 #ifdef _WIN32
 int inotify_wd(int pseudo);
diff --git a/src/os_unix.c b/src/os_unix.c
index 9d01060..b367054 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -1332,10 +1332,13 @@ static int inotify_watch_of(int fd, int wd) {
 }
 
 /* A slot for a watch, that is no number of some other descriptor. */
-static int inotify_new_watch(int fd, int wd, const char *path) {
+static int inotify_new_watch(int fd, int wd, const char *path, watch_cb handler, void *filter) {
 	int event_fd, pseudo = inotify_watch_of(fd, wd);
-	if (pseudo >= 0)
+	if (pseudo >= 0) {
+		fdTable[pseudo].proc = (os_cb)handler;
+		fdTable[pseudo].data = filter;
 		return pseudo;
+	}
 
 	/* directories further down are found by a thread without a loop */
 	if (!events_is_active() && fdTable[fd].inotify_wd == NULL) {
@@ -1352,6 +1355,8 @@ static int inotify_new_watch(int fd, int wd, const char *path) {
 
 	fdTable[pseudo].fd = wd;
 	fdTable[pseudo]._fd = fd;
+	fdTable[pseudo].proc = (os_cb)handler;
+	fdTable[pseudo].data = filter;
 	if (events_is_active() || fdTable[fd].inotify_wd != NULL) {
 		fdTable[pseudo].path = str_dup_ex(path);
 		atomic_lock(&inotify_lock);
@@ -1417,7 +1422,10 @@ void inotify_handler(int fd, inotify_t *event, int len, watch_cb handler, void *
 				if (!fdTable[wd].changes)
 					snprintf(subpath, PATH_MAX, "%s%s%s", fdTable[wd].path, SYS_DIRSEP, evt->name);
 
-				handler(wd, action | ~mask, (const char *)(fdTable[wd].changes ? evt->name : subpath), filter);
+				if (fdTable[wd].proc != NULL)
+					((watch_cb)fdTable[wd].proc)(wd, action | ~mask, (const char *)(fdTable[wd].changes ? evt->name : subpath), fdTable[wd].data);
+				else
+					handler(wd, action | ~mask, (const char *)(fdTable[wd].changes ? evt->name : subpath), filter);
 			}
 		}
 		p += sizeof(inotify_t) + evt->len;
@@ -1481,11 +1489,11 @@ int inotify_close(int fd) {
 	return TASK_ERRED;
 }
 
-static void inotify_recursive(int fd, const char *path, uint32_t mask, char *subpath, size_t path_max) {
+static void inotify_recursive(int fd, int parent, uint32_t mask, char *subpath, size_t path_max) {
 	DIR *dir;				/* dir structure we are reading */
 	struct dirent *entry;	/* directory entry currently being processed */
 
-	dir = opendir(path);
+	dir = opendir(fdTable[parent].path);
 	if (NULL == dir)
 		return;
 
@@ -1493,16 +1501,16 @@ static void inotify_recursive(int fd, const char *path, uint32_t mask, char *sub
 		if (entry->d_type == DT_DIR) {
 			if (str_is("..", entry->d_name) || str_is(".", entry->d_name)) {
 				continue;
-			} else if (snprintf(subpath, path_max, "%s%s%s", path, SYS_DIRSEP, entry->d_name)) {
+			} else if (snprintf(subpath, path_max, "%s%s%s", fdTable[parent].path, SYS_DIRSEP, entry->d_name)) {
 				int wd = inotify_add_watch(events_get_fd(fd), subpath, mask);
 				if (wd == -1)
 					continue;
 
-				int pseudo = inotify_new_watch(fd, wd, subpath);
+				int pseudo = inotify_new_watch(fd, wd, subpath, (watch_cb)fdTable[parent].proc, fdTable[parent].data);
 				if (pseudo < 0)
 					continue;
 
-				inotify_recursive(fd, (const char *)fdTable[pseudo].path, mask, subpath, path_max);
+				inotify_recursive(fd, pseudo, mask, subpath, path_max);
 			}
 		}
 	}
@@ -1511,12 +1519,16 @@ static void inotify_recursive(int fd, const char *path, uint32_t mask, char *sub
 }
 
 static EVENTS_INLINE void *_inotify_recursive(param_t args) {
-	inotify_recursive(args[0].integer, args[1].const_char_ptr, args[2].u_int,
+	inotify_recursive(args[0].integer, args[1].integer, args[2].u_int,
 		args[3].char_ptr, args[4].max_size);
 	return 0;
 }
 
-int __inotify_add_watch(int fd, const char *name, uint32_t mask) {
+EVENTS_INLINE int __inotify_add_watch(int fd, const char *name, uint32_t mask) {
+	return inotify_watch(fd, name, mask, NULL, NULL);
+}
+
+int inotify_watch(int fd, const char *name, uint32_t mask, watch_cb handler, void *filter) {
 	char subpath[PATH_MAX];	/* buffer for building complete subdir and file names */
 	mask = (events_is_active()
 		? (IN_ONLYDIR | IN_ACCESS | IN_MODIFY | IN_ATTRIB | IN_MOVE | IN_CREATE | IN_DELETE | IN_DELETE_SELF | IN_MOVE_SELF)
@@ -1525,10 +1537,10 @@ int __inotify_add_watch(int fd, const char *name, uint32_t mask) {
 	if (wd == -1)
 		return wd;
 
-	int pseudo = inotify_new_watch(fd, wd, name);
+	int pseudo = inotify_new_watch(fd, wd, name, handler, filter);
 	if (pseudo >= 0 && events_is_active()) {
 		fdTable[pseudo].changes = 1;
-		queue_get(queue_work(futures_pool(), _inotify_recursive, 5, casting(fd), fdTable[pseudo].path, casting(mask), subpath, sizeof(subpath)));
+		queue_get(queue_work(futures_pool(), _inotify_recursive, 5, casting(fd), casting(pseudo), casting(mask), subpath, sizeof(subpath)));
 	}
 
 	return pseudo;
-- 
2.43.0


From 3348d4e2960b12539c880f46c79fca052bd52739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:33 +0000
Subject: [PATCH 70/73] fix: watches of removed directories, and closed ones,
 were left behind

---
 src/os_unix.c | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index b367054..6507c24 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -923,7 +923,7 @@ EVENTS_INLINE int os_geterror(void) {
 }
 
 EVENTS_INLINE int events_watch_count(int inotify) {
-	return is_data(fdTable[inotify].inotify_wd) ? $size(fdTable[inotify].inotify_wd) : 0;
+	return events_valid_fd(inotify) && is_data(fdTable[inotify].inotify_wd) ? $size(fdTable[inotify].inotify_wd) : 0;
 }
 
 #if __FreeBSD__ || __NetBSD__ || __OpenBSD__ || __DragonFly__ || __APPLE__ || __MACH__
@@ -1407,7 +1407,11 @@ void inotify_handler(int fd, inotify_t *event, int len, watch_cb handler, void *
 		events_monitors action = WATCH_INVALID;
 		int mask = (WATCH_MODIFIED | WATCH_REMOVED | WATCH_ADDED | WATCH_MOVED);
 		inotify_t *evt = (inotify_t *)p;
-		if (evt->len) {
+		if (evt->mask & IN_IGNORED) {
+			/* the directory is no more */
+			if ((wd = inotify_watch_of(fd, evt->wd)) >= 0)
+				inotify_del_monitor(wd);
+		} else if (evt->len) {
 			if (evt->mask & (IN_CREATE | IN_MOVED_TO))
 				action = WATCH_ADDED;
 			else if (evt->mask & (IN_DELETE | IN_DELETE_SELF | IN_MOVED_FROM))
@@ -1462,11 +1466,19 @@ EVENTS_INLINE int __inotify_init1(int flags) {
 	return inotify_new(realfd);
 }
 
+/* No more to be read. */
+static int inotify_unregister(int fd) {
+	int real = events_get_fd(fd);
+	events_t *loop = events_target(real)->loop;
+	return loop != NULL && events_is_registered(loop, real) ? events_del(real) : 0;
+}
+
 int inotify_del_monitor(int wd) {
-	if (fdTable[wd].type == FD_MONITOR_SYNC) {
-		__inotify_rm_watch(fdTable[wd]._fd, wd);
-		if ($size(fdTable[fdTable[wd]._fd].inotify_wd) == 0)
-			return events_del(fdTable[wd]._fd);
+	if (events_valid_fd(wd) && fdTable[wd].type == FD_MONITOR_SYNC) {
+		int fd = fdTable[wd]._fd;
+		__inotify_rm_watch(fd, wd);
+		if (events_watch_count(fd) == 0)
+			return inotify_unregister(fd);
 
 		return 0;
 	}
@@ -1476,12 +1488,14 @@ int inotify_del_monitor(int wd) {
 
 int inotify_close(int fd) {
 	if (events_valid_fd(fd)) {
-		foreach(watch in fdTable[fd].inotify_wd) {
-			events_free_fd(watch.integer);
-			release_fd(watch.integer);
-			$remove(fdTable[fd].inotify_wd, iwatch);
+		if (fdTable[fd].inotify_wd != NULL) {
+			foreach(watch in fdTable[fd].inotify_wd) {
+				events_free_fd(watch.integer);
+				release_fd(watch.integer);
+			}
 		}
 
+		inotify_unregister(fd);
 		os_close(fd);
 		return 0;
 	}
-- 
2.43.0


From a301b58aee422f2fa58f7db13094a65c658ae6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:33 +0000
Subject: [PATCH 71/73] fix: inotify_next() lost all events but the first

---
 src/os_unix.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 6507c24..13bca90 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -313,7 +313,7 @@ void *inotify_task(param_t args) {
 
 int os_read(int fd, char *buf, size_t len) {
 	if (events_valid_fd(fd)) {
-		int ret;
+		int i, ret;
 #if __FreeBSD__ || __NetBSD__ || __OpenBSD__ || __DragonFly__ || __APPLE__ || __MACH__
 		if (fdTable[fd].type == FD_MONITOR_ASYNC)
 			ret = kevent(fdTable[fd].fd, NULL, 0, (inotify_t *)buf, fdTable[fd].changes, NULL);
@@ -336,6 +336,15 @@ int os_read(int fd, char *buf, size_t len) {
 #else
 		ret = read(fdTable[fd].fd, buf, len);
 		if (fdTable[fd].type != FD_CHILD) {
+			/* what another one read has been replaced */
+			if (fdTable[fd].type == FD_MONITOR_ASYNC && ret > 0) {
+				for (i = 0; i < ioTableSize; ++i) {
+					if (fdTable[i].type == FD_MONITOR_ASYNC && fdTable[i].buf != NULL
+						&& fdTable[i].buf < buf + ret && buf < fdTable[i].buf + (int)fdTable[i].process->rid)
+						fdTable[i].buf = NULL;
+				}
+			}
+
 			fdTable[fd].buf = buf;
 			fdTable[fd].process->rid = ret;
 		}
@@ -1283,11 +1292,10 @@ EVENTS_INLINE uint32_t inotify_length(inotify_t *event) {
 EVENTS_INLINE inotify_t *inotify_next(inotify_t *event) {
 	int i;
 	for (i = 0; i < ioTableSize; ++i) {
-		if (fdTable[i].type == FD_MONITOR_SYNC && fdTable[i].buf == (char *)event) {
-			char *buf = fdTable[i].buf;
-			size_t numRead = fdTable[i].process->rid;
-			event += sizeof(inotify_t) + event->len;
-			return ((char *)event < buf + numRead) ? event : NULL;
+		char *p = (char *)event, *end = fdTable[i].buf + (int)fdTable[i].process->rid;
+		if (fdTable[i].type == FD_MONITOR_ASYNC && fdTable[i].buf != NULL && p >= fdTable[i].buf && p < end) {
+			p += sizeof(inotify_t) + event->len;
+			return p < end ? (inotify_t *)p : NULL;
 		}
 	}
 
-- 
2.43.0


From c89ec0a73fd23e1cc1a29e5feef1a53923156355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:27 +0000
Subject: [PATCH 72/73] fix: a closing watch's slot was found for another
 descriptor that got its number

---
 src/os_unix.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 13bca90..33c9cce 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -1495,6 +1495,7 @@ int inotify_del_monitor(int wd) {
 }
 
 int inotify_close(int fd) {
+	int realfd;
 	if (events_valid_fd(fd)) {
 		if (fdTable[fd].inotify_wd != NULL) {
 			foreach(watch in fdTable[fd].inotify_wd) {
@@ -1504,7 +1505,11 @@ int inotify_close(int fd) {
 		}
 
 		inotify_unregister(fd);
-		os_close(fd);
+		/* once it is closed, another thread may be given the same number */
+		realfd = fdTable[fd].fd;
+		events_free_fd(fd);
+		release_fd(fd);
+		close(realfd);
 		return 0;
 	}
 
-- 
2.43.0


From 67024dd7059a20e3ecf3f7772f09b484e475c563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:02 +0000
Subject: [PATCH 73/73] fix: freeing a watch's slot closed the descriptor with
 the watch's number

---
 src/os_unix.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 33c9cce..2d35f21 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -513,7 +513,8 @@ void events_free_fd(int pseudo) {
 	if ((pseudo >= 0) && (pseudo < ioTableSize)
 		&& fdTable[pseudo].type != FD_UNUSED) {
 		acquire_lock(pseudo);
-		if (fdTable[pseudo].type == FD_MONITOR_ASYNC)
+		if (fdTable[pseudo].type == FD_MONITOR_ASYNC
+			|| (fdTable[pseudo].type == FD_MONITOR_SYNC && !fdTable[pseudo].inUse))
 			fdTable[pseudo].inUse = fdTable[pseudo].event_fd;
 		else if (fdTable[pseudo].type != FD_PIPE_ASYNC)
 			close(fdTable[pseudo].event_fd);
@@ -1341,7 +1342,7 @@ static int inotify_watch_of(int fd, int wd) {
 
 /* A slot for a watch, that is no number of some other descriptor. */
 static int inotify_new_watch(int fd, int wd, const char *path, watch_cb handler, void *filter) {
-	int event_fd, pseudo = inotify_watch_of(fd, wd);
+	int event_fd = TASK_ERRED, pseudo = inotify_watch_of(fd, wd);
 	if (pseudo >= 0) {
 		fdTable[pseudo].proc = (os_cb)handler;
 		fdTable[pseudo].data = filter;
@@ -1351,8 +1352,7 @@ static int inotify_new_watch(int fd, int wd, const char *path, watch_cb handler,
 	/* directories further down are found by a thread without a loop */
 	if (!events_is_active() && fdTable[fd].inotify_wd == NULL) {
 		/* its user finds the same number in the events it reads */
-		if ((pseudo = events_new_fd(FD_MONITOR_SYNC, wd, wd)) >= 0)
-			fdTable[pseudo].event_fd = TASK_ERRED;
+		pseudo = events_new_fd(FD_MONITOR_SYNC, wd, wd);
 	} else if ((event_fd = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK)) >= 0
 		&& (pseudo = events_new_fd(FD_MONITOR_SYNC, event_fd, -1)) < 0) {
 		close(event_fd);
@@ -1363,6 +1363,7 @@ static int inotify_new_watch(int fd, int wd, const char *path, watch_cb handler,
 
 	fdTable[pseudo].fd = wd;
 	fdTable[pseudo]._fd = fd;
+	fdTable[pseudo].inUse = event_fd >= 0;
 	fdTable[pseudo].proc = (os_cb)handler;
 	fdTable[pseudo].data = filter;
 	if (events_is_active() || fdTable[fd].inotify_wd != NULL) {
-- 
2.43.0

