/* C23: patterns and the actions using them (real text of src/main/pattern.c, plugin_core.c, mod_rewrite.c, mod_redirect.c) */
#ifdef VP_CORE
# define _LIGHTTPD_BASE_H_GUARD
#endif
#include <lighttpd/base.h>
#include <lighttpd/encoding.h>
#include <lighttpd/pattern.h>
#include <lighttpd/plugin_core.h>
#include "vp.h"
#include "vp_spec.h"
#include "vp_force.h"
size_t li_vk, li_vk2; unsigned char li_vb, li_vb2; li_ghost_t li_g;
#undef VR_DEBUG
#define VR_DEBUG(vr, ...) ((void) 0)
#undef CORE_OPTION
#define CORE_OPTION(idx) (vp_opt)
#undef _OPTION
#define _OPTION(vr, p, idx) (vp_opt)
static liOptionValue vp_opt;
#undef g_string_append
#define g_string_append vp_append
#undef g_string_truncate
#define g_string_truncate vp_truncate
#undef g_string_free
#define g_string_free vp_sfree
#undef g_string_sized_new
#define g_string_sized_new vp_snew
#undef g_array_index
#define g_array_index(a, t, i) (*(t*) vp_slot((a), (i), sizeof(t)))
static GString *vp_append(GString *s, const gchar *v); static GString *vp_truncate(GString *s, gsize n); static gchar *vp_sfree(GString *s, gboolean f); static GString *vp_snew(gsize n); static void *vp_slot(GArray *a, guint i, size_t size);
static GString dest, tmp; static char destb[8], tmpb[8];

#if VP_CB
/* the callbacks for $n and %n: li_g.out counts the indices handled, li_g.flag is set between fetching a value and appending it */
# include "src/main/pattern.c"
static GArray arr; static GString sa, sb; static char sab[1], sbb[1]; static GString *slot0, *slota, *slotb;
static guint from0, to0, hi; static gboolean up; static guint cnt;
# define EXPECT ((guint) (up ? from0 + li_g.out : hi - li_g.out))
static void *vp_slot(GArray *a, guint i, size_t size) {
	VP_CALLPRE(a == &arr && size == sizeof(GString*) && i < cnt, "an entry of the array"); VP_CALLPRE(li_g.flag == 0, "the previous value was appended"); VP_CALLPRE(i == EXPECT, "the next index of the range");
	li_g.out++;
	if (nondet_bool()) return &slot0;
	if (nondet_bool()) { li_g.flag = 1; return &slota; }
	li_g.flag = 2; return &slotb;
}
static GMatchInfo *const MI = (GMatchInfo*) 0x40; static char subject[1];
gint g_match_info_get_match_count(const GMatchInfo *m) { VP_CALLPRE(m == MI, "the match"); return (gint) cnt; }
const gchar *g_match_info_get_string(const GMatchInfo *m) { VP_CALLPRE(m == MI, "the match"); return subject; }
gboolean g_match_info_fetch_pos(const GMatchInfo *m, gint n, gint *s, gint *e) {
	VP_CALLPRE(m == MI && li_g.flag == 0, "the previous group was appended"); VP_CALLPRE((guint) n == EXPECT, "the next group of the range");
	li_g.out++;
	if (nondet_bool()) return FALSE;
	guint a = nondet_uint(), l = nondet_uint(); __CPROVER_assume(a < 1u << 30 && l < 1u << 30);
	*s = (gint) a; *e = (gint) (a + l); li_g.in = ((size_t) a << 32) | l; li_g.flag = 3; return TRUE;
}
GString *li_g_string_append_len(GString *s, const gchar *v, gssize l) {
	VP_CALLPRE(s == &dest, "appends to the result");
	if (li_g.flag == 3) VP_CALLPRE(l >= 0 && (size_t) l == (li_g.in & 0xffffffffu) && v == subject + (li_g.in >> 32), "the text of the group");
	else VP_CALLPRE((li_g.flag == 1 && v == sa.str && (gsize) l == sa.len) || (li_g.flag == 2 && v == sb.str && (gsize) l == sb.len), "the text of the entry");
	li_g.flag = 0; return s;
}
static GString *vp_append(GString *s, const gchar *v) { VP_CALLPRE(0, "not used"); return s; } static GString *vp_truncate(GString *s, gsize n) { VP_CALLPRE(0, "not used"); return s; } static gchar *vp_sfree(GString *s, gboolean f) { VP_CALLPRE(0, "not used"); return NULL; } static GString *vp_snew(gsize n) { VP_CALLPRE(0, "not used"); return NULL; }
static size_t spec_count(void) { guint m = cnt - 1; guint a = up ? from0 : to0, b = up ? to0 : from0; if (b > m) b = m; return (cnt == 0 || a > b) ? 0 : (size_t) b - a + 1; }
static void setup(void) {
	from0 = nondet_uint(); to0 = nondet_uint(); up = from0 <= to0; cnt = nondet_uint(); sa.str = sab; sb.str = sbb; sa.len = nondet_size(); sb.len = nondet_size();
	slot0 = NULL; slota = &sa; slotb = &sb; hi = from0; if (cnt > 0 && hi > cnt - 1) hi = cnt - 1; li_g.in = 0; li_g.out = 0; li_g.flag = 0;
}
void h_array(void) {
	setup(); arr.len = cnt; gboolean none = nondet_bool();
	li_pattern_array_cb(&dest, from0, to0, none ? NULL : &arr);
	VP_ENSURES(li_g.flag == 0, "every present entry is appended"); VP_ENSURES(li_g.out == (none ? 0 : spec_count()), "exactly the indices of the range that exist");
	if (li_g.out > 3 && up) VP_REACH("ascending"); if (li_g.out > 3 && !up) VP_REACH("descending"); if (none) VP_REACH("none");
}
void h_regex(void) {
	setup(); VP_REQUIRES(cnt <= 1u << 30); gboolean none = nondet_bool(); gint c2 = nondet_int();
	li_pattern_regex_cb(&dest, from0, to0, none ? NULL : MI);
	VP_ENSURES(li_g.flag == 0, "every participating group is appended"); VP_ENSURES(li_g.out == (none ? 0 : spec_count()), "exactly the groups of the range that exist");
	if (li_g.out > 3 && up) VP_REACH("ascending"); if (li_g.out > 3 && !up) VP_REACH("descending"); if (none) VP_REACH("none");
}
#endif

#if VP_EVAL
/* li_pattern_eval: li_g.out parts handled, li_g.flag = what is still to be done for the current one, li_g.in = temporary string in use */
# include "src/main/pattern.c"
static GArray arr; static liPatternPart parts[5]; static GString ps; static char psb[1]; static liConditionLValue lv; static liVRequest vr; static guint rf, rt; static char datan, datap; static gboolean cbn, cbp, novr; static char valstr[1];
static void *vp_slot(GArray *a, guint i, size_t size) {
	VP_CALLPRE(a == &arr && size == sizeof(liPatternPart) && i < arr.len, "a part of the pattern"); VP_CALLPRE(li_g.flag == 0, "the previous part was put into the result"); VP_CALLPRE(i == li_g.out, "the next part");
	li_g.out++;
	unsigned t = nondet_uint(); __CPROVER_assume(t < 5);
	li_g.flag = t == 0 ? 1 : t == 1 ? (cbn ? 2 : 0) : t == 2 ? (cbp ? 3 : 0) : novr ? 0 : t == 3 ? 4 : 5;
	return &parts[t];
}
GString *li_g_string_append_len(GString *s, const gchar *v, gssize l) { VP_CALLPRE(s == &dest && li_g.flag == 1 && v == ps.str && (gsize) l == ps.len, "the literal text"); li_g.flag = 0; return s; }
static void cb_nth(GString *s, guint f, guint t, gpointer d) { VP_CALLPRE(s == &dest && li_g.flag == 2 && f == rf && t == rt && d == &datan, "the range of $"); li_g.flag = 0; }
static void cb_prev(GString *s, guint f, guint t, gpointer d) { VP_CALLPRE(s == &dest && li_g.flag == 3 && f == rf && t == rt && d == &datap, "the range of %"); li_g.flag = 0; }
liHandlerResult li_condition_get_value(GString *t, liVRequest *v, liConditionLValue *l, liConditionValue *res, liConditionValueType prefer) {
	VP_CALLPRE((li_g.flag == 4 || li_g.flag == 5) && v == &vr && l == &lv && t != NULL && li_g.in != 0 && res != NULL && prefer == LI_COND_VALUE_HINT_STRING, "the variable");
	int r = nondet_int(); if (r == LI_HANDLER_GO_ON) li_g.flag += 2; else li_g.flag = 0; return r;
}
const gchar *li_condition_value_to_string(GString *t, liConditionValue *v) { VP_CALLPRE((li_g.flag == 6 || li_g.flag == 7) && t != NULL && li_g.in != 0, "the value just read"); return valstr; }
GString *li_string_encode_append(const gchar *v, GString *s, liEncoding e) { VP_CALLPRE(li_g.flag == 7 && v == valstr && s == &dest && e == LI_ENCODING_URI, "the value, encoded"); li_g.flag = 0; return s; }
static GString *vp_append(GString *s, const gchar *v) { VP_CALLPRE(li_g.flag == 6 && v == valstr && s == &dest, "the value"); li_g.flag = 0; return s; }
static GString *vp_truncate(GString *s, gsize n) { VP_CALLPRE(0, "not used"); return s; }
static gchar *vp_sfree(GString *s, gboolean f) { VP_CALLPRE(s != NULL && li_g.in != 0 && f, "frees its temporary string"); li_g.in = 0; return NULL; }
static GString *vp_snew(gsize n) { VP_CALLPRE(li_g.in == 0, "one temporary string"); li_g.in = 1; return &tmp; }
void h_eval(void) {
	arr.len = nondet_uint(); ps.str = psb; ps.len = nondet_size(); rf = nondet_uint(); rt = nondet_uint(); cbn = nondet_bool(); cbp = nondet_bool(); novr = nondet_bool(); dest.str = destb; tmp.str = tmpb;
	parts[0].type = PATTERN_STRING; parts[0].data.str = &ps; parts[1].type = PATTERN_NTH; parts[1].data.range.from = rf; parts[1].data.range.to = rt; parts[2].type = PATTERN_NTH_PREV; parts[2].data.range.from = rf; parts[2].data.range.to = rt;
	parts[3].type = PATTERN_VAR; parts[3].data.lvalue = &lv; parts[4].type = PATTERN_VAR_ENCODED; parts[4].data.lvalue = &lv; li_g.in = li_g.out = 0; li_g.flag = 0;
	li_pattern_eval(novr ? NULL : &vr, &dest, (liPattern*) &arr, cbn ? cb_nth : NULL, &datan, cbp ? cb_prev : NULL, &datap);
	VP_ENSURES(li_g.out == arr.len && li_g.flag == 0, "every part, in order"); VP_ENSURES(li_g.in == 0, "the temporary string is freed");
	if (li_g.out > 3) VP_REACH("parts");
}
#endif

#if VP_CORE
/* $n in docroot/alias: the labels of the host name, counted from the end */
# undef g_strsplit_set
# define g_strsplit_set vp_split
# undef g_free
# define g_free vp_free
static gchar **vp_split(const gchar *s, const gchar *d, gint max); static void vp_free(gpointer p);
# include "src/main/plugin_core.c"
# ifndef VP_L
#  define VP_L 31
# endif
static GString host; static char hostb[4] = "abc"; static gchar *lab[VP_L + 1]; static char labb[VP_L][2]; static unsigned nl, ne, freed; static unsigned char full[VP_L];
static guint a0, b0; static unsigned nout; static int dot, whole;
static gchar **vp_split(const gchar *s, const gchar *d, gint max) {
	VP_CALLPRE(s == hostb && d[0] == '.' && d[1] == 0 && max > 0 && max <= 31, "splits the host name at the dots");
	nl = nondet_uint(); __CPROVER_assume(nl >= 1 && nl <= (unsigned) max && nl <= VP_L); ne = 0;
	for (unsigned i = 0; i < VP_L; i++) { labb[i][0] = nondet_uchar(); labb[i][1] = 0; if (i < nl) { lab[i] = labb[i]; if (labb[i][0]) full[ne++] = i; } }
	lab[nl] = NULL; return lab;
}
static void vp_free(gpointer p) { VP_CALLPRE(((char*) p)[0] == 0, "only empty labels are dropped"); freed++; }
GString *li_g_string_append_len(GString *s, const gchar *v, gssize l) {
	VP_CALLPRE(s == &dest && !dot, "appends to the result");
	if (v == hostb) { VP_CALLPRE((a0 == 0 || b0 == 0) && (gsize) l == host.len && !whole && nout == 0, "a range with 0 gives the host name"); whole = 1; }
	else { VP_CALLPRE(l == 1 && v[0] == '.' && nout > 0, "a dot between labels"); dot = 1; }
	return s;
}
static GString *vp_append(GString *s, const gchar *v) {
	guint a = a0 > ne ? ne : a0, b = b0 > ne ? ne : b0; unsigned k = b <= a ? b + nout : b - nout; /* k-th label from the end, starting with the second number of the range */
	VP_CALLPRE(s == &dest && a0 && b0 && !whole && dot == (nout > 0), "labels are joined by single dots"); VP_CALLPRE(k >= 1 && k <= ne && v == labb[full[ne - k]], "the labels of the range, none empty");
	dot = 0; nout++; return s;
}
static void *vp_slot(GArray *a, guint i, size_t size) { static liPattern *p; return &p; } static GString *vp_truncate(GString *s, gsize n) { return s; } static gchar *vp_sfree(GString *s, gboolean f) { return NULL; } static GString *vp_snew(gsize n) { return NULL; }
void h_docroot(void) {
	docroot_split c; c.hostname = &host; c.splits = NULL; c.split_len = 0; host.str = hostb; host.len = nondet_size(); a0 = nondet_uint(); b0 = nondet_uint();
	core_docroot_nth_cb(&dest, a0, b0, &c);
	guint a = a0 > ne ? ne : a0, b = b0 > ne ? ne : b0; unsigned want = ne == 0 ? 0 : (a > b ? a - b : b - a) + 1;
	VP_ENSURES(!dot, "no trailing dot");
	if (host.len == 0) VP_ENSURES(!whole && nout == 0, "no host, nothing");
	else if (!a0 || !b0) VP_ENSURES(whole && nout == 0, "the host name");
	else { VP_ENSURES(!whole && nout == want, "exactly the labels of the range"); VP_ENSURES(c.split_len == ne && lab[ne] == NULL && freed == nl - ne, "the list owns the other labels"); }
	if (nout > 3 && a > b) VP_REACH("range"); if (nout > 3 && a < b) VP_REACH("reversed"); if (whole) VP_REACH("whole");
}
#endif

#if VP_RULES
/* rewrite and redirect: the first matching rule, and only that one */
static GArray rules; static liVRequest vr; static liWorker wrk; static GString path, query, raw; static char pathb[2] = "/", queryb[2], rawb[2]; static gboolean hasq, handled, direct; static struct { GArray *rules; liPlugin *p; } rdata;
static void *vp_slot_base(void); static size_t vp_slot_size(void);
static void *vp_slot(GArray *a, guint i, size_t size) { VP_CALLPRE(a == &rules && i < rules.len && i == li_g.out && li_g.flag == 0 && size == vp_slot_size(), "the next rule, as long as none matched"); return vp_slot_base(); }
# define M 1
# define QT 2
# define QA 4
# define PT 8
# define PA 16
# define PS 32
# define RE 64
# define RQ 128
# define RR 256
# define F li_g.flag
# define SET(pre, bit, msg) do { VP_CALLPRE((F & M) && (F & (pre)) == (pre) && !(F & (bit)), msg); F |= (bit); } while (0)
# define ALLP (PT | PA | PS)
# define ALLQ (hasq ? (QT | QA) : 0)
# if VP_RULES == 1
#  include "src/modules/mod_rewrite.c"
static rewrite_rule rl;
static GString dq; static char dqb[1];
gboolean vp_internal(liVRequest *v, GString *dp, GString *d, rewrite_rule *r, gchar *p) { VP_CALLPRE(v == &vr && dp == &tmp && d == &dq && r == &rl && p == pathb && F == 0, "tries the rule on the path"); li_g.out++; if (nondet_bool()) return FALSE; F = M; return TRUE; }
static GString *vp_truncate(GString *s, gsize n) { VP_CALLPRE(n == 0, "empties"); if (s == &query) { VP_CALLPRE(hasq, "rule with a query"); SET(0, QT, "query replaced"); } else { VP_CALLPRE(s == &path, "path"); SET(0, PT, "path replaced"); } return s; }
GString *li_g_string_append_len(GString *s, const gchar *v, gssize l) {
	if (s == &query) { VP_CALLPRE(v == dq.str && (gsize) l == dq.len, "the new query"); SET(QT, QA, "query replaced"); }
	else if (s == &path) { VP_CALLPRE(v == tmp.str && (gsize) l == tmp.len, "the new path"); SET(PT, PA, "path replaced"); }
	else { VP_CALLPRE(s == &raw && query.len > 0, "raw path with a query"); if (l == 1 && v[0] == '?' && v != query.str) SET(RE, RQ, "question mark after the path"); else { VP_CALLPRE(v == query.str && (gsize) l == query.len, "the query"); SET(RQ | ALLQ, RR, "the query after the question mark"); } }
	return s;
}
void li_path_simplify(GString *s) { VP_CALLPRE(s == &path, "path"); SET(PA, PS, "the new path is simplified"); }
GString *li_string_encode(const gchar *s, GString *d, liEncoding e) { VP_CALLPRE(s == pathb && d == &raw && e == LI_ENCODING_URI, "the encoded path"); SET(ALLP, RE, "raw path from the new path"); return d; }
static gchar *vp_sfree(GString *s, gboolean f) { VP_CALLPRE(s == &dq && f, "frees its string"); return NULL; } static GString *vp_snew(gsize n) { return &dq; } static GString *vp_append(GString *s, const gchar *v) { VP_CALLPRE(0, "not used"); return s; }
static void *vp_slot_base(void) { return &rl; } static size_t vp_slot_size(void) { return sizeof(rewrite_rule); }
void h_rewrite(void) {
	gpointer ctx = NULL; hasq = nondet_bool(); rl.querystring = hasq ? (liPattern*) 0x40 : NULL; rl.path = (liPattern*) 0x80; rules.len = nondet_uint(); rewrite_data rd; rd.rules = &rules; rd.p = NULL; vr.wrk = &wrk; wrk.tmp_str = &tmp; tmp.str = tmpb; tmp.len = nondet_size();
	vr.request.uri.path = &path; vr.request.uri.query = &query; vr.request.uri.raw_path = &raw; path.str = pathb; path.len = nondet_size(); query.str = queryb; query.len = nondet_size(); raw.str = rawb; dq.str = dqb; dq.len = nondet_size(); li_g.in = li_g.out = 0; F = 0;
	liHandlerResult r = rewrite(&vr, &rd, &ctx);
	VP_ENSURES(r == LI_HANDLER_GO_ON, "the next action runs");
	if (!(F & M)) VP_ENSURES(li_g.out == rules.len && F == 0, "no rule matched: nothing changes");
	else VP_ENSURES(F == (M | ALLQ | ALLP | RE | (query.len ? RQ | RR : 0)), "the first match replaces path, query and raw path");
	if (F && li_g.out > 2 && query.len) VP_REACH("match"); if (!F && li_g.out > 2) VP_REACH("no match");
}
# else
#  include "src/modules/mod_redirect.c"
static redirect_rule rl; static liHttpHeaders hd;
gboolean vp_internal(liVRequest *v, GString *d, redirect_rule *r) { VP_CALLPRE(v == &vr && d == &tmp && r == &rl && F == 0, "tries the rule"); li_g.out++; if (nondet_bool()) return FALSE; F = M; return TRUE; }
gboolean li_vrequest_is_handled(liVRequest *v) { return handled; }
gboolean li_vrequest_handle_direct(liVRequest *v) { SET(0, QT, "takes the request over"); return direct; }
void li_http_header_overwrite(liHttpHeaders *h, const gchar *k, size_t kl, const gchar *v, size_t vl) { VP_CALLPRE(h == &hd && kl == 8 && k[0] == 'L' && k[7] == 'n' && v == tmp.str && vl == tmp.len, "Location: the target"); SET(QT, PA, "location set once"); }
GString *li_g_string_append_len(GString *s, const gchar *v, gssize l) { VP_CALLPRE(0, "not used"); return s; } static GString *vp_truncate(GString *s, gsize n) { VP_CALLPRE(0, "not used"); return s; }
static gchar *vp_sfree(GString *s, gboolean f) { VP_CALLPRE(0, "not used"); return NULL; } static GString *vp_snew(gsize n) { VP_CALLPRE(0, "not used"); return NULL; } static GString *vp_append(GString *s, const gchar *v) { VP_CALLPRE(0, "not used"); return s; }
static void *vp_slot_base(void) { return &rl; } static size_t vp_slot_size(void) { return sizeof(redirect_rule); }
void h_redirect(void) {
	gpointer ctx = NULL; rules.len = nondet_uint(); redirect_data rd; rd.rules = &rules; rd.p = NULL; vr.wrk = &wrk; wrk.tmp_str = &tmp; tmp.str = tmpb; tmp.len = nondet_size(); vr.response.headers = &hd; gint st = vr.response.http_status = nondet_int(); handled = nondet_bool(); direct = nondet_bool(); li_g.in = li_g.out = 0; F = 0;
	liHandlerResult r = redirect(&vr, &rd, &ctx);
	if (handled) VP_ENSURES(r == LI_HANDLER_GO_ON && li_g.out == 0 && F == 0 && vr.response.http_status == st, "a handled request stays as it is");
	else if (!F) VP_ENSURES(r == LI_HANDLER_GO_ON && li_g.out == rules.len && vr.response.http_status == st, "no rule matched: nothing changes");
	else if (direct) VP_ENSURES(r == LI_HANDLER_GO_ON && F == (M | QT | PA) && vr.response.http_status == 301, "the first match answers with 301 and the location");
	else VP_ENSURES(r == LI_HANDLER_ERROR, "error");
	if (F && li_g.out > 2 && direct) VP_REACH("match"); if (!F && li_g.out > 2) VP_REACH("no match");
}
# endif
#endif
