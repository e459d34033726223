/* executable contract of C10: wait queues against an array model, with simulated time */
#include <lighttpd/base.h>
#include <lighttpd/waitqueue.h>
#include "vn.h"
static double now = 100;
double __wrap_ev_now(struct ev_loop *l) { (void) l; return now; }
#define N 24
static liWaitQueueElem el[N]; static int ord[N]; static double ts[N]; static int n; static GString *hist;
#define F(...) do { vn_setcase("%s", hist->str); vn_fail(__VA_ARGS__); } while (0)
#define H(...) do { if (hist->len < 7000) g_string_append_printf(hist, __VA_ARGS__); vn_setcase("%s", hist->str); } while (0)
static void cb(liWaitQueue *q, gpointer d) { (void) q; (void) d; }
static void cut(int i) { int k = ord[i]; memmove(ord + i, ord + i + 1, (n - i - 1) * sizeof(int)); memmove(ts + i, ts + i + 1, (n - i - 1) * sizeof(double)); n--; (void) k; }
static void check(liWaitQueue *q) {
	int i; liWaitQueueElem *e = q->head, *p = NULL;
	for (i = 0; i < n; i++, p = e, e = e->next) { if (e != &el[ord[i]]) F("position %d is %d, expected %d", i, e ? (int)(e - el) : -1, ord[i]); if (e->prev != p) F("prev link of position %d", i); if (!e->queued) F("queued element not marked"); if (e->ts != ts[i]) F("time of position %d", i); }
	if (e) F("more elements than expected"); if (q->tail != p) F("tail"); if ((int) q->length != n) F("length %u, expected %d", q->length, n);
	for (i = 0; i < N; i++) { int j, in = 0; for (j = 0; j < n; j++) in |= ord[j] == i; if (!!el[i].queued != in) F("queued flag of element %d", i); }
	if (n && !li_event_active(&q->timer)) F("timer not running while elements wait");
}
int main(int argc, char **argv) {
	liEventLoop loop; hist = g_string_new(""); vn_init(argc, argv); li_event_loop_init(&loop, ev_loop_new(0));
	while (vn_more(1.0)) {
		liWaitQueue q; int steps = 1 + vn_r(60), i, k; double delay = vn_r(3) ? vn_r(8) : vn_r(20) * 0.5; memset(&q, 0, sizeof(q)); memset(el, 0, sizeof(el)); n = 0; g_string_truncate(hist, 0); vn_evals++;
		li_waitqueue_init(&q, &loop, "vn", cb, delay, &q); H("delay %g; ", delay);
		while (steps--) {
			i = vn_r(vn_r(3) ? N : 5);
			switch (vn_r(11)) {
			case 0: case 1: case 2: H("push %d; ", i); li_waitqueue_push(&q, &el[i]); for (k = 0; k < n; k++) if (ord[k] == i) { cut(k); vn_nontriv++; break; } ord[n] = i; ts[n++] = now; break;
			case 3: H("remove %d; ", i); li_waitqueue_remove(&q, &el[i]); for (k = 0; k < n; k++) if (ord[k] == i) { cut(k); if (!n && li_event_active(&q.timer)) F("timer running for an empty queue"); break; } break;
			case 4: case 5: { liWaitQueueElem *e; int ex = n && ts[0] + delay <= now ? ord[0] : -1; H("pop; "); e = li_waitqueue_pop(&q); if (e != (ex < 0 ? NULL : &el[ex])) F("pop returned %d, expected %d", e ? (int)(e - el) : -1, ex); if (ex >= 0) cut(0); break; }
			case 6: { liWaitQueueElem *e; int ex = n ? ord[0] : -1; if (vn_r(3)) break; H("pop_force; "); e = li_waitqueue_pop_force(&q); if (e != (ex < 0 ? NULL : &el[ex])) F("pop_force returned %d", e ? (int)(e - el) : -1); if (n) cut(0); break; }
			case 7: { liWaitQueueElem *h = (void*) 1; guint r, c = 0; H("pop_ready; "); r = li_waitqueue_pop_ready(&q, &h); while (n && ts[0] + delay <= now) { if (h != &el[ord[0]]) F("popped list element %u is %d", c, h ? (int)(h - el) : -1); h = h->next; c++; cut(0); } if (h) F("popped list not terminated"); if (r != c) F("pop_ready returned %u, expected %u", r, c); if (c) vn_nontriv++; break; }
			case 8: H("update; "); li_waitqueue_update(&q); if (n) { double w = ts[0] + delay - now; if (w < 0.05) w = 0.05; if (!li_event_active(&q.timer) || q.timer.libevmess.timer.repeat > w + 1e-9 || q.timer.libevmess.timer.repeat < w - 1e-9) F("timer armed for %g, first element is due in %g", q.timer.libevmess.timer.repeat, w); } else if (li_event_active(&q.timer)) F("timer running for an empty queue"); break;
			case 9: delay = vn_r(8); H("delay %g; ", delay); li_waitqueue_set_delay(&q, delay); break;
			default: now += vn_r(2) ? vn_r(4) : vn_r(4) * 0.25; H("time +; "); break;
			}
			if (li_event_active(&q.timer) || !n) check(&q); else check(&q);
		}
		if (n > 2) vn_sample("%s", hist->str);
		li_waitqueue_stop(&q);
	}
	return vn_done("random histories of wait queue operations under simulated time, compared with an array after each step; non-trivial: re-pushed or popped elements");
}
