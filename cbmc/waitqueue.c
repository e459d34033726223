/* contracts for the wait queues (real text of src/common/waitqueue.c); lists of up to 4 elements */
#include <lighttpd/settings.h>
#include "vp.h"
#include "vp_spec.h"
size_t li_vk, li_vk2; unsigned char li_vb, li_vb2; li_ghost_t li_g;
#include <lighttpd/waitqueue.h>
static double vp_now, armed; static gboolean active; static int stops, arms;
#undef li_event_get_loop
#undef li_event_active
#undef li_event_stop
#undef li_event_clear
#define li_event_get_loop(w) ((void) (w), (liEventLoop*) 0)
#define li_event_now(l) ((void) (l), vp_now)
#define li_event_active(w) ((void) (w), active)
#define li_event_stop(w) ((void) (w), stops++, active = FALSE)
#define li_event_clear(w) ((void) (w), stops++, active = FALSE)
#define li_event_timer_once(w, t) ((void) (w), arms++, armed = (t), active = TRUE)
#define li_event_timer_init(l, n, w, cb) ((void) (l), (void) (n), (void) (cb), active = FALSE)
#include "src/common/waitqueue.c"
#ifndef VP_T
#define VP_T 1000000
#endif
#define M 4
static liWaitQueueElem el[M + 1]; static liWaitQueueElem *ord[M + 2]; static int n; static liWaitQueue q;
static double ts0[M + 1];
static void mk(void) {
	int i; n = nondet_int(); __CPROVER_assume(n >= 0 && n <= M);
	vp_now = nondet_int(); q.delay = nondet_int(); __CPROVER_assume(vp_now >= 0 && vp_now <= VP_T && q.delay >= 0 && q.delay <= VP_T);
	for (i = 0; i < M + 1; i++) {
		double t = nondet_int(); __CPROVER_assume(t >= 0 && t <= vp_now && (i == 0 || i >= n || t >= el[i - 1].ts));
		el[i].ts = ts0[i] = i < n ? t : 0; el[i].queued = i < n; el[i].data = (gpointer) (gsize) (i + 1);
		el[i].prev = i > 0 && i < n ? &el[i - 1] : i >= n ? nondet_ptr() : NULL; el[i].next = i + 1 < n ? &el[i + 1] : i >= n ? nondet_ptr() : NULL;
		ord[i] = &el[i];
	}
	q.head = n ? &el[0] : NULL; q.tail = n ? &el[n - 1] : NULL; q.length = n;
	active = n ? TRUE : nondet_bool();
}
/* the queue is exactly ord[from..to) */
static void expect(int from, int to) {
	int i;
	VP_ENSURES(q.length == (guint) (to - from), "length counts the queued elements");
	VP_ENSURES(q.head == (from < to ? ord[from] : NULL) && q.tail == (from < to ? ord[to - 1] : NULL), "head and tail");
	for (i = 0; i < M + 2; i++) if (i >= from && i < to) {
		VP_ENSURES(ord[i]->queued, "queued flag of queued elements");
		VP_ENSURES(ord[i]->prev == (i > from ? ord[i - 1] : NULL) && ord[i]->next == (i + 1 < to ? ord[i + 1] : NULL), "links in order");
		VP_ENSURES(i == from || ord[i]->ts >= ord[i - 1]->ts, "elements in order of their time");
	}
}
static void move_last(int i) { liWaitQueueElem *e = ord[i]; int j; for (j = 0; j < M; j++) if (j >= i && j + 1 < n) ord[j] = ord[j + 1]; ord[n - 1] = e; }
void h_push(void) {
	mk(); gboolean a0 = active; int i = nondet_int(); __CPROVER_assume(i >= 0 && i <= n && i <= M);
	li_waitqueue_push(&q, &el[i]);
	VP_ENSURES(el[i].ts == vp_now, "pushed element waits from now on");
	if (i < n) { move_last(i); expect(0, n); VP_REACH("moved to the end"); } else { expect(0, n + 1); VP_REACH("appended"); }
	VP_ENSURES(active, "a non-empty queue has a running timer"); VP_ENSURES(a0 ? arms == 0 : (arms == 1 && armed == q.delay), "timer started when needed only");
}
void h_remove(void) {
	mk(); gboolean a0 = active; int i = nondet_int(), j; __CPROVER_assume(i >= 0 && i <= n && i <= M);
	li_waitqueue_remove(&q, &el[i]);
	VP_ENSURES(!el[i].queued, "removed element is not queued");
	if (i < n) { for (j = 0; j < M; j++) if (j >= i && j + 1 < n) ord[j] = ord[j + 1]; expect(0, n - 1); VP_ENSURES(n > 1 ? active == a0 : !active, "timer stopped exactly with the last element"); VP_REACH("removed"); }
	else { expect(0, n); VP_ENSURES(active == a0, "nothing happens"); }
}
void h_pop(void) {
	mk(); gboolean force = nondet_bool(); liWaitQueueElem *e = force ? li_waitqueue_pop_force(&q) : li_waitqueue_pop(&q);
	if (n && (force || ts0[0] + q.delay <= vp_now)) { VP_ENSURES(e == &el[0] && !e->queued, "first element popped"); expect(1, n); VP_REACH("popped"); }
	else { VP_ENSURES(e == NULL, "nothing popped before its time"); expect(0, n); VP_REACH("not ready"); }
}
void h_ready(void) {
	mk(); liWaitQueueElem *h = (liWaitQueueElem*) &q, *e; int k = 0, i; guint r;
	for (i = 0; i < M; i++) if (i < n && k == i && ts0[i] + q.delay <= vp_now) k++;
	r = li_waitqueue_pop_ready(&q, &h);
	VP_ENSURES(r == (guint) k, "exactly the elements whose time has come");
	expect(k, n);
	VP_ENSURES(h == (k ? &el[0] : NULL), "list of popped elements");
	for (i = 0; i < M; i++) if (i < k) { VP_ENSURES(!el[i].queued && el[i].next == (i + 1 < k ? &el[i + 1] : NULL), "popped elements form a terminated list"); }
	if (k && k < n) VP_REACH("some popped"); if (!k) VP_REACH("none popped");
}
void h_update(void) {
	mk(); gboolean a0 = active; gboolean set = nondet_bool(); double d = nondet_int(); __CPROVER_assume(d >= 0 && d <= VP_T);
	if (set) { li_waitqueue_set_delay(&q, d); VP_ENSURES(q.delay == d, "delay set"); } else li_waitqueue_update(&q);
	expect(0, n);
	if (set && !a0) VP_ENSURES(arms == 0 && !active, "inactive timer stays off");
	else if (n) { double w = ts0[0] + q.delay - vp_now; if (w < 0.05) w = 0.05; VP_ENSURES(active && arms == 1 && armed == w, "timer fires when the first element is due"); VP_REACH("rearmed"); }
	else VP_ENSURES(!active, "timer off for an empty queue");
}
