/* C17: running actions (real text of src/main/actions.c): one step from an arbitrary stack */
#include <glib.h>
#include <gmodule.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/stat.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdlib.h>
#include <lua.h>
#define union struct /* the verifier can not follow pointers stored in one member of a union and read from another: all members are set instead */
#include <lighttpd/base.h>
#include <lighttpd/plugin_core.h>
#include "vp.h"
#include "vp_spec.h"
#include "vp_force.h"
size_t li_vk, li_vk2; unsigned char li_vb, li_vb2; li_ghost_t li_g;
#undef VR_ERROR
#define VR_ERROR(vr, ...) ((void) 0)
#undef g_array_index
#define g_array_index(a, t, i) (*(t*) vp_slot((a), (i), sizeof(t)))
#undef g_array_append_vals
#define g_array_append_vals vp_push
#undef g_array_set_size
#define g_array_set_size vp_resize
#undef g_string_free
#define g_string_free vp_sfree
#undef g_atomic_int_inc
#define g_atomic_int_inc(p) ((void) (*(p))++)
static void *vp_slot(GArray *a, guint i, size_t size); static GArray *vp_push(GArray *a, gconstpointer d, guint n); static GArray *vp_resize(GArray *a, guint n); static gchar *vp_sfree(GString *s, gboolean f);
static int steps; static void done(void);
#define LI_SPEC_ACTION_STEP() do { if (steps++) { done(); __CPROVER_assume(0); } } while (0)
#include "src/main/actions.c"
#undef union
/* the stack has n0 entries; only its top (index n0 - 1) and entries above it may be touched. Pushing may move the array: a pointer into the old one is stale */
static GArray stk, rxs, bks, lst; static action_stack_element top0, top1, above, below; static int gen; static guint n0, rl0; static liAction act, sub[3], *entry; static liActionRegexStackElement re; static GString res_; static GMatchInfo *const MI = (GMatchInfo*) 0x80;
static liVRequest vr; static liWorker wrk; static liServer srv; static liOptionValue opts[4]; static liOptionPtrValue ov[2], *optp[4]; static liCondition cond; static int prm, ctx, ctx2;
static int released, acquired, funcs, cleanups, conds, selects, finishes, resets, sfrees, mfrees, orel, bpushed, lists; static liAction *pushed; static liHandlerResult fr; static gboolean condres, handled, grew, fpush; static gpointer gotctx;
static liActionType ty; static gboolean fin0; static guint pos0, len0; static gboolean rxp0; static guint32 ndx; static liOptionValue val0; static int o_same; static gboolean bfin0, ctxset;
static void *vp_slot(GArray *a, guint i, size_t size) {
	if (a == &stk) { if (n0 >= 2 && stk.len == n0 - 1 && i == n0 - 2) return &below; VP_CALLPRE(size == sizeof(action_stack_element) && i < stk.len && i >= n0 - 1 && i <= n0, "the top of the stack"); if (i == n0) return &above; if (gen) return &top1; return &top0; }
	if (a == &rxs) { VP_CALLPRE(size == sizeof(liActionRegexStackElement) && rxs.len > 0 && i == rxs.len - 1, "the last captures"); return &re; }
	VP_CALLPRE(a == &lst && size == sizeof(liAction*) && i < lst.len && i == pos0, "the next entry of the list"); lists++; return &entry;
}
static GArray *vp_push(GArray *a, gconstpointer d, guint n) {
	VP_CALLPRE(n == 1, "one element");
	if (a == &bks) { bpushed++; return a; }
	VP_CALLPRE(a == &stk && a->len == n0 && gen == 0, "pushed onto the stack");
	const action_stack_element *e = d; pushed = e->act; VP_CALLPRE(!e->finished && e->data.pos == 0, "starts at the beginning");
	top1 = top0; above = *e; top0.finished = nondet_bool(); top0.data.pos = nondet_uint(); top0.data.regex_pushed = nondet_bool(); top0.act = &sub[2];
	gen = 1; a->len++; return a;
}
static GArray *vp_resize(GArray *a, guint n) { VP_CALLPRE((a == &stk || a == &rxs) && n < a->len && n + 1 == a->len, "one element is removed"); a->len = n; return a; }
static gchar *vp_sfree(GString *s, gboolean f) { VP_CALLPRE(s == &res_, "text of the captures"); sfrees++; return NULL; }
void g_match_info_free(GMatchInfo *m) { VP_CALLPRE(m == MI, "the captures"); mfrees++; }
void vp_release(liServer *s, liAction *a) { VP_CALLPRE(s == &srv && a == &act, "releases the action it ran"); released++; }
void vp_acquire(liAction *a) { VP_CALLPRE(a != NULL, "an action"); acquired++; }
void vp_reset(liVRequest *v, liActionStack *as) { VP_CALLPRE(v == &vr && as == &vr.action_stack, "the stack"); resets++; stk.len = 0; }
void li_release_optionptr(liServer *s, liOptionPtrValue *o) { VP_CALLPRE(s == &srv && o == &ov[0], "the old value"); orel++; }
gboolean li_vrequest_is_handled(liVRequest *v) { return handled; }
gboolean li_vrequest_handle_direct(liVRequest *v) { VP_CALLPRE(0, "nothing failed"); return FALSE; }
liHandlerResult li_condition_check(liVRequest *v, liCondition *c, gboolean *r) { VP_CALLPRE(v == &vr && c == &cond && conds == 0, "the configured condition"); conds++; *r = condres; if (fr == LI_HANDLER_GO_ON && grew) rxs.len++; return fr; }
static liHandlerResult f_func(liVRequest *v, gpointer p, gpointer *c) { VP_CALLPRE(v == &vr && p == &prm && c == &top0.data.context && funcs == 0, "called with its parameter and its context"); funcs++; if (fpush) li_action_enter(v, &sub[0]); return fr; }
static liHandlerResult f_clean(liVRequest *v, gpointer p, gpointer c) { VP_CALLPRE(v == &vr && p == &prm && c == &ctx, "its context"); cleanups++; return LI_HANDLER_GO_ON; }
static liHandlerResult f_select(liVRequest *v, gboolean b, gpointer p, gpointer *c) { VP_CALLPRE(v == &vr && p == &prm && c == &top0.data.context && selects == 0, "called with its parameter and its context"); selects++; if (fpush) li_action_enter(v, &sub[0]); return fr; }
static liHandlerResult f_fall(liVRequest *v, gboolean b, gpointer p, gpointer *c, liBackendError e) { VP_CALLPRE(0, "nothing failed"); return LI_HANDLER_ERROR; }
static liHandlerResult f_fin(liVRequest *v, gpointer p, gpointer c) { VP_CALLPRE(v == &vr && p == &prm && c == (ctxset ? (gpointer) &ctx : NULL), "its context"); finishes++; return LI_HANDLER_GO_ON; }
static int returned; static liHandlerResult rr;
#define POPPED (stk.len == n0 - 1 && gen == 0 && (returned ? stk.len == 0 && rr == LI_HANDLER_GO_ON : 1))
#define TOP (gen ? top1 : top0)
#define QUIET(x) VP_ENSURES(x, "nothing else is done")
static void done(void) {
	/* after one step: either the loop goes on or it returned rr */
	int isfun = ty == LI_ACTION_TFUNCTION;
	QUIET(rxs.len == rl0 - sfrees + (!fin0 && ty == LI_ACTION_TCONDITION && fr == LI_HANDLER_GO_ON && grew));
	QUIET(mfrees == sfrees && mfrees == (fin0 && ty == LI_ACTION_TCONDITION && rxp0 && rl0 > 0));
	if (fin0) {
		if (ty == LI_ACTION_TBALANCER && vr.state == LI_VRS_HANDLE_REQUEST_HEADERS) { VP_ENSURES(returned && rr == LI_HANDLER_ERROR, "no backend found"); return; }
		if (ty == LI_ACTION_TBALANCER && vr.state < LI_VRS_HANDLE_RESPONSE_HEADERS) { VP_ENSURES(returned && rr == LI_HANDLER_WAIT_FOR_EVENT && stk.len == n0, "waits for the backend"); return; }
		VP_ENSURES(POPPED, "an action that was run is left"); VP_REACH("finished");
		VP_ENSURES(funcs == 0 && conds == 0 && selects == 0, "an action is not run again");
		if (ty == LI_ACTION_TBALANCER && !bfin0) VP_ENSURES(bpushed == 1 && released == 0 && finishes == 0, "balancers are finished later");
		else VP_ENSURES(released == 1 && bpushed == 0 && finishes == (ty == LI_ACTION_TBALANCER) && cleanups == (isfun && ctxset), "its resources are released once");
		return;
	}
	QUIET(!(resets && rr != LI_HANDLER_ERROR));
	switch (ty) {
	case LI_ACTION_TNOTHING: VP_ENSURES(POPPED && released == 1, "left"); break;
	case LI_ACTION_TSETTING: VP_ENSURES(POPPED && released == 1 && opts[ndx].number == val0.number, "the option has the configured value"); VP_REACH("option"); break;
	case LI_ACTION_TSETTINGPTR: VP_ENSURES(POPPED && released == 1 && optp[ndx] == &ov[1], "the option has the configured value"); VP_ENSURES(ov[1].refcount == 5 + !o_same && orel == !o_same, "references"); break;
	case LI_ACTION_TFUNCTION: case LI_ACTION_TBALANCER: {
		int skip = !isfun && handled;
		VP_ENSURES(skip ? funcs + selects == 0 : isfun ? funcs == 1 && selects == 0 : funcs == 0 && selects == 1, "run exactly once, balancers only while nobody handles the request");
		if (skip) { VP_ENSURES(TOP.finished && stk.len == n0 && !returned, "skipped"); VP_REACH("skipped"); break; }
		if (fr == LI_HANDLER_GO_ON) { VP_ENSURES(TOP.finished && TOP.act == &act && stk.len == n0 + !!fpush && !returned, "not run again"); VP_REACH("ran"); }
		if (fr == LI_HANDLER_ERROR) VP_ENSURES(returned && rr == LI_HANDLER_ERROR && resets == 1, "errors end it");
		if (fr == LI_HANDLER_COMEBACK) VP_ENSURES(returned && rr == fr && !TOP.finished, "comes back");
		if (fr == LI_HANDLER_WAIT_FOR_EVENT) { if (isfun && fpush) { VP_ENSURES(!returned && !TOP.finished, "the pushed action is run first, then this again"); VP_REACH("rerun"); } else VP_ENSURES(returned && rr == fr && !TOP.finished && resets == 0, "waits and is run again"); }
		break; }
	case LI_ACTION_TCONDITION:
		VP_ENSURES(conds == 1, "condition is checked once");
		if (fr == LI_HANDLER_GO_ON) {
			liAction *t = condres ? act.data.condition.target : act.data.condition.target_else;
			VP_ENSURES(TOP.finished && !!TOP.data.regex_pushed == grew, "remembers whether there are captures to remove");
			VP_ENSURES(t ? stk.len == n0 + 1 && pushed == t && acquired == 1 : stk.len == n0 && acquired == 0, "exactly the branch the condition selects"); VP_ENSURES(!returned, "goes on"); VP_REACH("branch");
		} else VP_ENSURES(returned && rr == fr && acquired == 0 && (fr == LI_HANDLER_ERROR ? resets == 1 : !TOP.finished && resets == 0), "not decided yet");
		break;
	case LI_ACTION_TLIST:
		if (pos0 < len0) { VP_ENSURES(stk.len == n0 + 1 && lists == 1 && pushed == entry && acquired == 1 && TOP.data.pos == pos0 + 1 && !TOP.finished, "the next entry of the list"); VP_REACH("list"); }
		else VP_ENSURES(POPPED && released == 1 && lists == 0, "end of the list");
	}
}
void h_step(void) {
	unsigned t = nondet_uint(), hr = nondet_uint(), st = nondet_uint();
	__CPROVER_assume(t == LI_ACTION_TNOTHING || t == LI_ACTION_TSETTING || t == LI_ACTION_TSETTINGPTR || t == LI_ACTION_TFUNCTION || t == LI_ACTION_TCONDITION || t == LI_ACTION_TLIST || t == LI_ACTION_TBALANCER);
	__CPROVER_assume(hr == LI_HANDLER_GO_ON || hr == LI_HANDLER_COMEBACK || hr == LI_HANDLER_WAIT_FOR_EVENT || hr == LI_HANDLER_ERROR); __CPROVER_assume(st <= LI_VRS_ERROR);
	ty = t; fr = hr; vr.state = st; vr.wrk = &wrk; wrk.srv = &srv; vr.options = opts; vr.optionptrs = optp; vr.action_stack.stack = &stk; vr.action_stack.regex_stack = &rxs; vr.action_stack.backend_stack = &bks; vr.action_stack.backend_failed = FALSE; bfin0 = vr.action_stack.backend_finished = nondet_bool();
	n0 = nondet_uint(); rl0 = nondet_uint(); __CPROVER_assume(n0 >= 1 && n0 < 1u << 30 && rl0 < 1u << 30); stk.len = n0; rxs.len = rl0; re.string = &res_; re.match_info = MI;
	handled = nondet_bool() ? TRUE : FALSE; condres = nondet_bool() ? TRUE : FALSE; grew = nondet_bool(); fpush = nondet_bool();
	ndx = nondet_uint(); __CPROVER_assume(ndx < 4); o_same = nondet_bool(); optp[0] = optp[1] = optp[2] = optp[3] = o_same ? &ov[1] : &ov[0]; ov[1].refcount = 5; val0.number = nondet_long();
	act.type = ty; act.refcount = 1; act.data.setting.ndx = ndx; act.data.setting.value = val0; act.data.settingptr.ndx = ndx; act.data.settingptr.value = &ov[1]; act.data.condition.cond = &cond; act.data.condition.target = nondet_bool() ? &sub[0] : NULL; act.data.condition.target_else = nondet_bool() ? &sub[1] : NULL;
	act.data.function.func = f_func; act.data.function.cleanup = f_clean; act.data.function.param = &prm; act.data.balancer.select = f_select; act.data.balancer.fallback = f_fall; act.data.balancer.finished = f_fin; act.data.balancer.param = &prm; act.data.balancer.provide_backlog = nondet_bool(); act.data.list = &lst; len0 = nondet_uint(); lst.len = len0; entry = &sub[1];
	fin0 = nondet_bool() ? TRUE : FALSE; pos0 = nondet_uint(); rxp0 = nondet_bool() ? TRUE : FALSE; ctxset = nondet_bool(); VP_REQUIRES(pos0 < 0xffffffffu);
	top0.act = &act; top0.finished = fin0; top0.data.pos = pos0; top0.data.regex_pushed = rxp0; top0.data.context = ctxset ? &ctx : NULL; top0.backlog_provided = nondet_bool();
	rr = li_action_execute(&vr); returned = 1; done();
}
