/* C21: token buckets (real text of src/main/throttle.c) */
#include <lighttpd/base.h>
#include <lighttpd/throttle.h>
#include <math.h>
#include "vp.h"
#include "vp_spec.h"
#include "vp_force.h"
size_t li_vk, li_vk2; unsigned char li_vb, li_vb2; li_ghost_t li_g;
static double vp_now(void);
#undef li_cur_ts
#define li_cur_ts(w) vp_now()
#undef g_ptr_array_index
#define g_ptr_array_index(a, i) vp_pool_state((a), (i))
#undef g_atomic_int_get
#define g_atomic_int_get(p) (*(p))
#undef g_atomic_int_set
#define g_atomic_int_set(p, v) ((void) (*(p) = (v)))
#undef g_atomic_int_inc
#define g_atomic_int_inc(p) ((void) (*(p))++)
#undef g_atomic_int_add
#define g_atomic_int_add(p, v) vp_add((p), (v))
#undef g_mutex_lock
#define g_mutex_lock(m) vp_lock(1)
#undef g_mutex_unlock
#define g_mutex_unlock(m) vp_lock(0)
static void *vp_pool_state(GPtrArray *a, guint i); static gint vp_add(gint *p, gint v); static void vp_lock(int on);
/* vp_k: the account of the connection with pool number li_vk (arbitrary), vp_o: with any other pool */
extern struct liThrottlePoolState vp_k, vp_o;
static gint vp_start, vp_kmag; static guint vp_n, vp_conn;
# define LI_SPEC_POOLS_ASKED vp_k, vp_o, vp_kmag
# define LI_SPEC_POOLS_TAKEN vp_k.magazine, vp_o
# define LI_SPEC_POOLS_SUPPLIED vp_k, vp_o, vp_n
# define LI_SPEC_POOL_ASKED(i, fill, pf) (pf <= fill && vp_k.pool == &poolk && vp_k.magazine == vp_kmag && vp_kmag >= vp_start && vp_kmag <= 1 << 29 && (i <= li_vk ? vp_kmag == vp_start : (pf <= vp_kmag && (fill <= vp_kmag || vp_k.pool_link.data != NULL))))
# define LI_SPEC_POOL_TAKEN(i, pf) (vp_k.pool == &poolk && vp_k.magazine == (i > li_vk ? vp_kmag - pf : vp_kmag))
# define LI_SPEC_POOL_SUPPLIED(supply) (vp_n <= vp_conn && vp_k.magazine == (vp_n > li_vk ? vp_start + supply : vp_start) && (vp_n > li_vk ? vp_k.pool_link.data == NULL : vp_k.pool_link.data != NULL))
extern struct liThrottlePool poolk, poolo;
#include "src/main/throttle.c"
struct liThrottlePoolState vp_k, vp_o; struct liThrottlePool poolk, poolo;
static liThrottlePoolWorkerState wk[3], wo[3]; static liWorker wrk; static liServer srv; static double now; static guint nowms; static liThrottleState st; static GPtrArray pools; static int pushed, locked; static int cbdata;
static double vp_now(void) { return now; }
/* msec_timestamp() of the current time: an arbitrary number of milliseconds */
guint vp_msec(li_tstamp t) { return nowms; }
static void *vp_pool_state(GPtrArray *a, guint i) {
	VP_CALLPRE(a == &pools && i < pools.len, "a pool of the connection");
	if (i == li_vk) return &vp_k;
	vp_o.magazine = nondet_int(); __CPROVER_assume(vp_o.magazine >= -(1 << 28) && vp_o.magazine <= 1 << 29); vp_o.pool = &poolo; vp_o.pool_link.data = nondet_bool() ? &wo[1].waiting : NULL; return &vp_o;
}
void vp_register(liThrottlePoolWorkerState *w, liThrottlePoolState *p) { VP_CALLPRE((p == &vp_k && w == &wk[1]) || (p == &vp_o && w == &wo[1]), "waits in the list of its worker"); p->pool_link.data = &w->waiting; }
void vp_rearm(liWorker *w, liThrottlePool *p, guint t) {
	VP_CALLPRE(w == &wrk && t == nowms && (p == &poolk || p == &poolo), "the pool");
	liThrottlePoolState *s = p == &poolk ? &vp_k : &vp_o;
	VP_CALLPRE(s->pool_link.data != NULL, "the connection waits for credit (so the pool has somebody to divide by)");
	if (nondet_bool()) { gint more = nondet_int(); __CPROVER_assume(more >= 0 && more <= (1 << 29) - s->magazine); s->magazine += more; if (more) s->pool_link.data = NULL; }
	if (s == &vp_k) vp_kmag = vp_k.magazine;
}
void li_waitqueue_push(liWaitQueue *q, liWaitQueueElem *e) { VP_CALLPRE(q == &wrk.throttle_queue && e == &st.wqueue_elem && e->data == &cbdata, "waits to be notified"); pushed++; e->queued = TRUE; }
static void notify(liThrottleState *s, gpointer d) { }
# if VP_QUERY
static gint vp_add(gint *p, gint v) { VP_CALLPRE(0, "not reached"); return 0; }
static void vp_lock(int on) { }
void h_query(void) {
	pushed = 0; guint want = nondet_uint(), np = nondet_uint(); nowms = nondet_uint(); li_vk = nondet_uint(); wrk.ndx = 1; wrk.srv = &srv;
	pools.len = np; st.pools = &pools; poolk.workers = wk; poolo.workers = wo; vp_k.pool = &poolk;
	vp_k.magazine = nondet_int(); __CPROVER_assume(vp_k.magazine >= -(1 << 28) && vp_k.magazine <= 1 << 29); vp_kmag = vp_start = vp_k.magazine; vp_k.pool_link.data = nondet_bool() ? &wk[1].waiting : NULL;
	st.magazine = nondet_int(); __CPROVER_assume(st.magazine >= -(1 << 20) && st.magazine <= 1 << 20);
	st.single_rate = nondet_uint(); st.single_burst = nondet_uint(); st.single_magazine = nondet_int(); st.single_last_rearm = nondet_uint(); __CPROVER_assume(st.single_rate <= 512u << 20 && st.single_burst <= 512u << 20 && st.single_magazine >= 0 && (guint) st.single_magazine <= st.single_burst);
	int q0 = nondet_bool(); st.wqueue_elem.queued = q0;
	gint m0 = st.magazine, s0 = st.single_magazine; guint r0 = st.single_last_rearm, dt = nowms - r0;
#if VP_SMALL
	__CPROVER_assume(st.single_rate <= 127 && dt <= 1023);
	guint64 due = (((guint64) st.single_rate) * dt) / 1000u;
#endif
	guint r = li_throttle_query(&wrk, &st, want, notify, &cbdata);
	gint taken = st.magazine - m0;
	VP_ENSURES(r <= want && r <= 64 * 1024, "not more than asked for");
	VP_ENSURES(taken >= 0 && (gint) r <= MAX(0, st.magazine + 8192), "allows what the connection has, and 8 KiB in advance");
	VP_ENSURES(taken == 0 || st.magazine <= 64 * 1024 , "takes only what it wants to use");
	VP_ENSURES(r > 0 || want == 0 || (st.wqueue_elem.data == &cbdata && st.notify_callback == notify && st.interested > 0 && (q0 || pushed == 1)), "a connection without credit waits to be notified");
	VP_ENSURES(r == 0 || want == 0 || st.notify_callback == NULL, "no notification otherwise");
	if (st.single_rate) {
		VP_ENSURES(st.single_magazine >= 0 && (guint) st.single_magazine <= st.single_burst, "the bucket is never overdrawn and never above the burst");
#if VP_SMALL
		VP_ENSURES((gint64) st.single_magazine + taken <= (gint64) s0 + (gint64) (st.single_last_rearm != r0 || dt >= LI_THROTTLE_GRANULARITY ? due : 0), "the bucket is filled with the rate, and everything taken is missing in it");
#endif
		VP_ENSURES(st.single_last_rearm == r0 || st.single_last_rearm == nowms, "time counts once"); VP_ENSURES(st.single_last_rearm == nowms || st.single_magazine + taken == s0, "no credit without time");
	}
	if (li_vk < np) {
		VP_ENSURES(vp_k.magazine == vp_kmag - taken, "everything taken is missing in the account with the pool");
		VP_ENSURES(taken == 0 || vp_k.magazine >= 0, "the account with the pool is never overdrawn");
		if (taken > 0 && vp_kmag != vp_start && st.single_rate != 0) VP_REACH("taken after a refill");
		if (r == 0 && want > 0 && vp_k.pool_link.data != NULL) VP_REACH("waits");
	}
	if (taken > 0 && (guint) st.single_magazine + taken == st.single_burst && np == 0) VP_REACH("full bucket");
}
# endif
# if VP_REARM
/* real times (milliseconds, 64 bit): of the worker, of the last refill and of one that another worker may do in between */
static guint64 tnow, tlast, tother, wlast; static int fills; static guint N; static gint mag0;
static gint vp_add(gint *p, gint v) { VP_CALLPRE(p == &wk[1].magazine, "the credit of the worker"); gint o = *p; *p = (gint) ((guint) o + (guint) v); return o; }
static void vp_lock(int on) { VP_CALLPRE(locked == !on, "lock and unlock pair up"); locked = on; if (on && nondet_bool()) { tlast = tother; poolk.last_rearm = (guint) tother; } }
void vp_fill(liThrottlePool *p, guint workers, guint diff) {
	VP_CALLPRE(p == &poolk && workers == 3 && locked, "refills under the lock");
	VP_CALLPRE(tlast < tnow, "no time passed since another worker refilled the pool"); VP_CALLPRE(diff <= tnow - tlast, "not more than the time that passed"); fills++;
}
GList *g_queue_pop_head_link(GQueue *q) {
	VP_CALLPRE(q == &wk[1].waiting, "the list of the worker");
	if (vp_n >= N) return NULL;
	vp_n++;
	return vp_n - 1 == li_vk ? &vp_k.pool_link : (vp_o.magazine = 0, &vp_o.pool_link);
}
void h_rearm(void) {
	locked = fills = 0; vp_n = 0;
	tlast = nondet_ulong(); tother = nondet_ulong(); tnow = nondet_ulong(); __CPROVER_assume(tlast > 1u << 20 && tnow > 1u << 20 && tother >= tlast && tlast < (guint64) 1 << 60 && tnow < (guint64) 1 << 60 && tother < (guint64) 1 << 60);
	__CPROVER_assume(tlast < tnow + 60000 && tother < tnow + 60000 && (tnow < tlast || tnow - tlast < 0xffff0000u)); /* the clocks of the workers differ by less than a minute */
	wlast = nondet_ulong(); __CPROVER_assume(wlast <= tnow && tlast < wlast + 0xffff0000u && wlast < tlast + 60000 && tother < wlast + 0xffff0000u);
	nowms = (guint) tnow; poolk.last_rearm = (guint) tlast; poolk.workers = wk; wk[1].last_rearm = (guint) wlast; wrk.ndx = 1; wrk.srv = &srv; srv.worker_count = 3;
	N = vp_conn = nondet_uint(); __CPROVER_assume(N >= 1 && N <= 1u << 20); wk[1].connections = N; mag0 = nondet_int(); __CPROVER_assume(mag0 >= 0 && mag0 <= 1 << 30);
#if VP_SMALL
	__CPROVER_assume(N <= 7 && mag0 <= 255);
#endif
	wk[1].magazine = mag0;
	li_vk = nondet_uint(); __CPROVER_assume(li_vk < N); vp_k.magazine = nondet_int(); __CPROVER_assume(vp_k.magazine >= -(1 << 28) && vp_k.magazine <= 1 << 29); vp_start = vp_k.magazine; vp_k.pool_link.data = &wk[1].waiting;
	guint64 tl0 = tlast; guint64 last0 = tlast;
	throttle_pool_rearm(&wrk, &poolk, nowms);
	VP_ENSURES(!locked && fills <= 1, "one refill");
	VP_ENSURES(fills ? poolk.last_rearm == nowms : poolk.last_rearm == (guint) tlast, "the time of a refill is remembered, and only that");
	VP_ENSURES(!(tnow >= tlast + LI_THROTTLE_GRANULARITY && tlast == tl0) || fills == 1, "refills when it is time");
	gint supply = vp_k.magazine - vp_start;
	if (vp_n == 0) { VP_ENSURES(wk[1].connections == N && vp_k.magazine == vp_start && vp_k.pool_link.data != NULL, "nothing handed out"); VP_ENSURES(wk[1].last_rearm == (guint) wlast ? wk[1].magazine == mag0 : wk[1].last_rearm == nowms, "credit is kept"); VP_ENSURES(wk[1].last_rearm == nowms || !(wlast < last0), "credit is handed out after a refill, also when the milliseconds wrap"); }
	else { VP_ENSURES(vp_n == N && wk[1].connections == 0, "everybody who waits gets something"); VP_ENSURES(vp_k.pool_link.data == NULL && wk[1].last_rearm == nowms, "also this connection");
#if VP_SMALL
		VP_ENSURES(supply > 0 && supply * (gint) N <= mag0 && mag0 < (supply + 1) * (gint) N, "equal shares of the credit"); VP_ENSURES(wk[1].magazine == (gint) ((guint) mag0 - (guint) supply * N), "what is handed out is missing in the credit of the worker");
#endif
	}
	if (fills && vp_n > 1 && nowms < 1000 && tl0 < tnow) VP_REACH("wrapped");
	else if (tlast != tl0 && fills == 0) VP_REACH("lost the race");
}
# endif
# if VP_FILL
static gint added[3]; static int adds[3];
static gint vp_add(gint *p, gint v) { int i = p == &wk[0].magazine ? 0 : p == &wk[1].magazine ? 1 : 2; VP_CALLPRE(p == &wk[i].magazine, "the credit of a worker"); added[i] = v; adds[i]++; return 0; }
static void vp_lock(int on) { }
void h_fill(void) {
	guint i, n = nondet_uint(), dt = nondet_uint(); __CPROVER_assume(n >= 1 && n <= 3); gint64 total = 0;
	poolk.workers = wk; poolk.rate = nondet_uint(); poolk.burst = nondet_uint(); __CPROVER_assume(poolk.rate <= 255 && poolk.burst <= 63);
	for (i = 0; i < 3; i++) { wk[i].connections = nondet_uint(); __CPROVER_assume(wk[i].connections < 4); if (i < n) total += wk[i].connections; }
	guint diff = MIN(dt, 1000); guint64 bytes = ((guint64) poolk.rate * diff) / 1000u; gint64 fill = MIN((guint64) poolk.burst, bytes);
	S_throttle_pool_rearm_workers(&poolk, n, dt);
	for (i = 0; i < 3; i++) {
		if (i >= n || wk[i].connections == 0) VP_ENSURES(adds[i] == 0, "no credit for workers without connections");
		else VP_ENSURES(adds[i] == 1 && added[i] == (gint) ((fill * (gint64) wk[i].connections) / total), "the share of the worker: fill * own connections / all connections");
	}
	if (n == 3 && adds[0] && adds[1] && adds[2]) VP_REACH("three workers");
}
# endif
