/* C18: connection and request limits (real text of src/modules/mod_limit.c) */
#include <glib.h>
#include <gmodule.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/stat.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdlib.h>
#include <lua.h>
#define union struct /* the verifier can not follow pointers stored in one member of a union and read from another: all members are set instead */
#include <lighttpd/base.h>
#include <lighttpd/radix.h>
#include "vp.h"
#include "vp_spec.h"
#include "vp_force.h"
size_t li_vk, li_vk2; unsigned char li_vb, li_vb2; li_ghost_t li_g;
#undef VR_DEBUG
#define VR_DEBUG(vr, ...) ((void) 0)
#undef g_ptr_array_index
#define g_ptr_array_index(a, i) (*(gpointer*) vp_pidx((a), (i)))
#undef g_atomic_int_add
#define g_atomic_int_add(p, v) vp_add((p), (v))
#undef g_atomic_int_inc
#define g_atomic_int_inc(p) ((void) (*(p))++)
#undef g_atomic_int_dec_and_test
#define g_atomic_int_dec_and_test(p) (--(*(p)) == 0)
#undef g_slice_new0
#define g_slice_new0(t) ((t*) vp_new(sizeof(t)))
#undef g_slice_free
#define g_slice_free(t, p) vp_sfree(p)
#undef g_ptr_array_sized_new
#define g_ptr_array_sized_new(n) vp_anew()
#undef g_ptr_array_add
#define g_ptr_array_add vp_aadd
#undef g_ptr_array_free
#define g_ptr_array_free vp_afree
#undef g_mutex_lock
#define g_mutex_lock(m) vp_lock(m, 1)
#undef g_mutex_unlock
#define g_mutex_unlock(m) vp_lock(m, 0)
#undef g_mutex_free
#define g_mutex_free(m) ((void) 0)
#undef li_cur_ts
#define li_cur_ts(w) vp_now()
static gpointer *vp_pidx(GPtrArray *a, guint i); static gint vp_add(gint *p, gint v); static void *vp_new(size_t n); static void vp_sfree(gpointer p); static GPtrArray *vp_anew(void); static void vp_aadd(GPtrArray *a, gpointer p); static void vp_afree(GPtrArray *a, gboolean f); static void vp_lock(GMutex *m, int on); static double vp_now(void);
static int steps; static guint k0; static void stepdone(void);
#define LI_SPEC_LIMIT_STEP(i, n) do { if (steps == 0) { VP_ENSURES((i) == 0, "starts with the first context"); guint k_ = nondet_uint(); __CPROVER_assume(k_ < (n)); (i) = k_; k0 = k_; } else { VP_ENSURES((i) == k0 + 1, "then the next context"); stepdone(); __CPROVER_assume(0); } steps++; } while (0)
#include "src/modules/mod_limit.c"
#undef union
static mod_limit_context ctx; static liPlugin plug; static liVRequest vr; static liWorker wrk; static liServer srv; static liConInfo ci; static GPtrArray pctx, arr; static gpointer arrp, elem; static int newarr, added, locked, locks, entered, direct, handled, afreed, cfreed;
static GMutex *const MTX = (GMutex*) 0x40; static liRadixTree *const TREE = (liRadixTree*) 0x80; static struct sockaddr_in6 sa; static struct sockaddr_in sa4; static int fam; static mod_limit_req_ip_data rid, fresh; static gpointer stored; static int inserts, removes, wpush, ridnew; static mod_limit_data mld; static liWaitQueue wq[2]; static liAction act; static double now; static gint cnt0; static liSocketAddress dupaddr;
static gpointer *vp_pidx(GPtrArray *a, guint i) { if (a == &pctx) { VP_CALLPRE(i == 3, "the slot of the module"); return &arrp; } VP_CALLPRE(a == &arr && i < arr.len && i == k0, "a context of the request"); return &elem; }
static gint vp_add(gint *p, gint v) { gint o = *p; VP_CALLPRE(p == &ctx.pool.con && (v == 1 || v == -1), "the counter"); *p = o + v; return o; }
static void *vp_new(size_t n) { VP_CALLPRE(n == sizeof(mod_limit_req_ip_data), "record"); ridnew++; return &fresh; }
static void vp_sfree(gpointer p) { VP_CALLPRE(p == &ctx || p == &rid, "freed"); if (p == &ctx) cfreed++; }
static GPtrArray *vp_anew(void) { newarr++; return &arr; }
static void vp_aadd(GPtrArray *a, gpointer p) { VP_CALLPRE(a == &arr && p == &ctx, "remembers the context"); added++; }
static void vp_afree(GPtrArray *a, gboolean f) { VP_CALLPRE(a == &arr, "own list"); afreed++; }
static void vp_lock(GMutex *m, int on) { VP_CALLPRE(m == MTX && locked == !on, "lock and unlock pair up"); locked = on; locks += on; }
static double vp_now(void) { return now; }
#define KEYOK(a, b) (fam == AF_INET ? (b) == 32 && (a) == (const void*) &sa4.sin_addr.s_addr : (b) == 128 && (a) == (const void*) &sa.sin6_addr.s6_addr)
gpointer li_radixtree_lookup_exact(liRadixTree *t, const void *a, guint32 b) { VP_CALLPRE(t == TREE && locked && KEYOK(a, b), "the address of the client, under the lock"); return stored; }
gpointer li_radixtree_insert(liRadixTree *t, const void *a, guint32 b, gpointer d) { VP_CALLPRE(t == TREE && locked && KEYOK(a, b) && d != NULL, "the address of the client, under the lock"); gpointer o = stored; stored = d; inserts++; return o; }
gpointer li_radixtree_remove(liRadixTree *t, const void *a, guint32 b) { VP_CALLPRE(t == TREE && locked && KEYOK(a, b), "the address of the client, under the lock"); gpointer o = stored; stored = NULL; removes++; return o; }
void li_radixtree_free(liRadixTree *t, GFunc f, gpointer u) { }
liSocketAddress li_sockaddr_dup(liSocketAddress s) { dupaddr = s; return s; }
void li_waitqueue_push(liWaitQueue *q, liWaitQueueElem *e) { VP_CALLPRE(q == &wq[1] && e == &fresh.timeout_elem && e->data == &fresh, "forgotten by the timer of this worker"); wpush++; }
gboolean li_vrequest_is_handled(liVRequest *v) { return handled; }
gboolean li_vrequest_handle_direct(liVRequest *v) { VP_CALLPRE(v == &vr, "the request"); direct++; return TRUE; }
void li_action_enter(liVRequest *v, liAction *a) { VP_CALLPRE(v == &vr && a == &act, "the configured action"); entered++; }
void li_action_release(liServer *s, liAction *a) { }
static mod_limit_context_type ty; static gint lim, ref0; static int tsold;
static void setup(void) {
	unsigned t = nondet_uint(); int f = nondet_int(); __CPROVER_assume(t <= ML_TYPE_REQ_IP); ty = t; fam = f == 0 ? AF_INET : f == 1 ? AF_INET6 : AF_UNIX;
	sa.sin6_family = sa4.sin_family = (sa_family_t) fam; ci.remote_addr.addr_up.plain = (struct sockaddr*) &sa; ci.remote_addr.addr_up.ipv4 = &sa4; ci.remote_addr.addr_up.ipv6 = &sa; vr.coninfo = &ci; vr.wrk = &wrk; wrk.srv = &srv; wrk.ndx = 1; vr.plugin_ctx = &pctx; plug.id = 3; plug.data = &mld; mld.timeout_queues = wq;
	ctx.type = ty; lim = nondet_int(); __CPROVER_assume(lim > 0); ctx.limit = lim; ref0 = nondet_int(); __CPROVER_assume(ref0 >= 1 && ref0 < 1 << 30); ctx.refcount = ref0; ctx.mutex = MTX; ctx.plugin = &plug; ctx.action_limit_reached = nondet_bool() ? &act : NULL; ctx.pool.con_ip = ctx.pool.req_ip = TREE;
	arrp = nondet_bool() ? &arr : NULL; handled = nondet_bool();
}
/* a request comes in: cnt0 of at most lim are in use */
void h_handle(void) {
	setup(); cnt0 = nondet_int(); __CPROVER_assume(cnt0 >= 0 && cnt0 <= lim && cnt0 < 1 << 30); tsold = nondet_bool();
	ctx.pool.con = cnt0; if (ty == ML_TYPE_CON_IP) stored = cnt0 ? GINT_TO_POINTER(cnt0) : NULL; ctx.pool.req.num = cnt0; ctx.pool.req.ts = 1000; now = tsold ? 1001.5 : 1000.25; rid.requests = cnt0 ? cnt0 : 1; rid.ctx = &ctx; int known = nondet_bool(); if (ty == ML_TYPE_REQ_IP) { stored = known ? &rid : NULL; cnt0 = known ? rid.requests : 0; }
	if (ty == ML_TYPE_REQ && nondet_bool()) { gint over = nondet_int(); __CPROVER_assume(over >= cnt0 && over < 1 << 30); cnt0 = ctx.pool.req.num = over; }
	if (ty == ML_TYPE_REQ && tsold) cnt0 = 0;
	gpointer c = NULL; liHandlerResult r = mod_limit_action_handle(&vr, &ctx, &c);
	VP_ENSURES(locked == 0, "no lock is kept");
	if (handled) { VP_ENSURES(r == LI_HANDLER_GO_ON && added == 0 && entered == 0 && direct == 0 && inserts == 0, "requests that are handled already are not counted"); VP_REACH("handled"); return; }
	if (fam == AF_UNIX && (ty == ML_TYPE_CON_IP || ty == ML_TYPE_REQ_IP)) { VP_ENSURES(r == LI_HANDLER_ERROR && added == 0, "needs an ip address"); return; }
	int ok = cnt0 < lim; VP_ENSURES(r == LI_HANDLER_GO_ON, "decided"); VP_ENSURES(ty == ML_TYPE_CON || locks == 1, "the counter is only touched under its lock");
	VP_ENSURES(added == ok && ctx.refcount == ref0 + ok && arrp == &arr, "the request holds its place exactly if the limit is not reached");
	if (ok) { VP_ENSURES(entered == 0 && direct == 0, "goes on"); VP_REACH("admitted"); }
	else { VP_ENSURES(ctx.action_limit_reached ? entered == 1 && direct == 0 : entered == 0 && direct == 1 && vr.response.http_status == 503, "the configured action, or 503"); VP_REACH("refused"); }
	switch (ty) {
	case ML_TYPE_CON: VP_ENSURES(ctx.pool.con == cnt0 + ok, "counted once"); break;
	case ML_TYPE_CON_IP: VP_ENSURES(stored == (cnt0 + ok ? GINT_TO_POINTER(cnt0 + ok) : NULL), "counted once for this client"); VP_REACH("per client"); break;
	case ML_TYPE_REQ: VP_ENSURES(tsold ? ctx.pool.req.num == 1 && ctx.pool.req.ts == 1001 : ctx.pool.req.num == cnt0 + 1 && ctx.pool.req.ts == 1000, "counted in the current second"); if (tsold) VP_REACH("new second"); break;
	case ML_TYPE_REQ_IP: VP_ENSURES(known ? stored == &rid && rid.requests == cnt0 + ok && wpush == 0 && ridnew == 0 : stored == &fresh && fresh.requests == 1 && wpush == 1 && ridnew == 1 && fresh.ctx == &ctx, "counted for this client"); break;
	}
}
/* the request ends: every place it holds is given back once */
static guint n0;
static void stepdone(void) {
	if (ty == ML_TYPE_CON) VP_ENSURES(ctx.pool.con == cnt0 - 1, "the place is given back"); else VP_ENSURES(ctx.pool.con == cnt0, "only what was taken is given back");
	if (ty == ML_TYPE_CON_IP) { VP_ENSURES(stored == (cnt0 > 1 ? GINT_TO_POINTER(cnt0 - 1) : NULL), "the place of this client is given back"); VP_REACH("client"); } else VP_ENSURES(inserts + removes == 0, "only what was taken is given back");
	VP_ENSURES(locked == 0 && ctx.refcount == ref0 - 1 && cfreed == (ref0 == 1), "reference"); VP_REACH("step");
}
void h_close(void) {
	setup(); __CPROVER_assume(!(fam == AF_UNIX && ty == ML_TYPE_CON_IP)); n0 = nondet_uint(); __CPROVER_assume(n0 < 1u << 30); arr.len = n0; elem = &ctx; cnt0 = nondet_int(); __CPROVER_assume(cnt0 >= 1 && cnt0 <= lim); ctx.pool.con = cnt0; stored = GINT_TO_POINTER(cnt0); int have = arrp != NULL;
	mod_limit_vrclose(&vr, &plug);
	VP_ENSURES(afreed == have, "list is released"); VP_ENSURES(steps == (have && n0 > 0), "every context of the request is visited");
	if (steps) { VP_ENSURES(k0 + 1 == n0, "until the last"); stepdone(); } else VP_REACH("none");
}
/* the second of a client is over: its record is forgotten */
static int pops, updates, cleared;
liWaitQueueElem *li_waitqueue_pop(liWaitQueue *q) { VP_CALLPRE(q == &wq[1] && locked == 0, "the queue"); return pops++ == 0 ? &rid.timeout_elem : NULL; }
void li_waitqueue_update(liWaitQueue *q) { VP_CALLPRE(q == &wq[1], "the queue"); updates++; }
void li_sockaddr_clear(liSocketAddress *a) { VP_CALLPRE(a == &rid.ip && !locked, "its address"); cleared++; }
void h_expire(void) {
	setup(); __CPROVER_assume(fam != AF_UNIX); rid.timeout_elem.data = &rid; rid.ctx = &ctx; rid.ip = ci.remote_addr; stored = &rid;
	mod_limit_timeout_callback(&wq[1], NULL);
	VP_ENSURES(stored == NULL && removes == 1 && locks == 1 && locked == 0 && cleared == 1, "the client starts again from zero"); VP_ENSURES(pops == 2 && updates == 1, "all records that are due, and the timer goes on"); VP_REACH("expired");
}
