/* C17: conditions (real text of src/main/condition.c) */
#include <glib.h>
#include <gmodule.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/stat.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdlib.h>
#include <lua.h>
#define union struct /* the verifier can not follow pointers stored in one member of a union and read from another: all members are set instead */
#include <lighttpd/base.h>
#include <lighttpd/plugin_core.h>
#undef union
#include "vp.h"
#include "vp_spec.h"
#include "vp_force.h"
size_t li_vk, li_vk2; unsigned char li_vb, li_vb2; li_ghost_t li_g;
#undef VR_ERROR
#define VR_ERROR(vr, ...) (errors++)
#undef ERROR
#define ERROR(srv, ...) (errors++)
static int errors;
#undef ntohs
#define ntohs(x) ((guint16) (0xffffu & (((x) >> 8) | ((x) << 8))))
#undef g_str_equal
#define g_str_equal vp_streq
#undef g_str_has_prefix
#define g_str_has_prefix vp_prefix
#undef g_str_has_suffix
#define g_str_has_suffix vp_suffix
#undef g_string_new
#define g_string_new vp_snew
#undef g_string_free
#define g_string_free vp_sfree
#undef g_array_append_vals
#define g_array_append_vals vp_push
static gboolean vp_streq(const char *a, const char *b); static gboolean vp_prefix(const char *a, const char *b); static gboolean vp_suffix(const char *a, const char *b); static GString *vp_snew(const gchar *s); static gchar *vp_sfree(GString *s, gboolean f); static GArray *vp_push(GArray *a, gconstpointer d, guint n);
#include "src/main/condition.c"
static liVRequest vr; static liWorker wrk; static liConInfo ci; static GString tmp; static char tmpb[4];
static liConditionLValue lv;

#if VP_CHECK
static liCondition c; static GString rstr; static char rstrb[4]; static GRegex *const RX = (GRegex*) 0x40; static GMatchInfo *const MI = (GMatchInfo*) 0x80;
static liConditionValue v0; static liHandlerResult r0; static int asked, compared; static gboolean verdict; static int kind; static char valb[4]; static GString copy; static int copies, freed, mfreed, pushed, matched; static GArray rs; static gint64 parsed; static int strtolls, parsefail; static liConditionRValue pip; static int netcalls; static const char *text; static struct sockaddr_in s4; static struct sockaddr_in6 s6; static struct sockaddr sun;
liHandlerResult vp_get(GString *t, liVRequest *v, liConditionLValue *l, liConditionValue *res, liConditionValueType prefer) {
	VP_CALLPRE(t == &tmp && v == &vr && l == &lv, "the variable of the condition"); asked++;
	if (c.rvalue.type == LI_COND_VALUE_STRING || c.rvalue.type == LI_COND_VALUE_REGEXP) VP_CALLPRE(prefer == LI_COND_VALUE_HINT_STRING, "as text");
	if (c.rvalue.type == LI_COND_VALUE_SOCKET_IPV4 || c.rvalue.type == LI_COND_VALUE_SOCKET_IPV6) VP_CALLPRE(prefer != LI_COND_VALUE_HINT_STRING, "as address");
	*res = v0; return r0;
}
gchar const *vp_tostr(GString *t, liConditionValue *v) { VP_CALLPRE(t == &tmp && v->match_type == v0.match_type, "the value"); if (v->match_type == LI_COND_VALUE_HINT_ANY || v->match_type == LI_COND_VALUE_HINT_STRING) return v->data.str; return tmpb; }
static gboolean cmp(const char *a, const char *b, int k) { VP_CALLPRE(a == text && b == rstrb, "the value is compared with the configured text"); compared++; kind = k; return verdict; }
static gboolean vp_streq(const char *a, const char *b) { VP_CALLPRE((a == text && b == rstrb) || (a == rstrb && b == text), "the value is compared with the configured text"); compared++; kind = 1; return verdict; }
static gboolean vp_prefix(const char *a, const char *b) { return cmp(a, b, 2); } static gboolean vp_suffix(const char *a, const char *b) { return cmp(a, b, 3); }
static GString *vp_snew(const gchar *s) { VP_CALLPRE(s == text, "copy of the value"); copies++; return &copy; }
static gchar *vp_sfree(GString *s, gboolean f) { VP_CALLPRE(s == &copy && !pushed && !freed, "the copy is released once, and not while it is used"); freed++; return NULL; }
gboolean g_regex_match(const GRegex *re, const gchar *s, GRegexMatchFlags o, GMatchInfo **mi) { VP_CALLPRE(re == RX && s == copy.str && o == 0 && mi != NULL, "the configured regex on the copy"); compared++; kind = 4; matched = verdict; *mi = MI; return verdict; }
void g_match_info_free(GMatchInfo *m) { VP_CALLPRE(m == MI && !pushed && !mfreed, "released once"); mfreed++; }
static GArray *vp_push(GArray *a, gconstpointer d, guint n) { const liActionRegexStackElement *e = d; VP_CALLPRE(a == &rs && n == 1 && e->string == &copy && e->match_info == MI && !freed && !mfreed, "the match and the text it refers to are pushed"); pushed++; a->len++; return a; }
gint64 g_ascii_strtoll(const gchar *s, gchar **e, guint base) { VP_CALLPRE(s == valb && base == 10, "decimal"); strtolls++; return parsed; }
gboolean li_parse_ipv4(const char *s, guint32 *ip, guint32 *mask, guint16 *port) { VP_CALLPRE(s == valb && ip != NULL, "address"); if (parsefail & 1) return FALSE; VP_CALLPRE(mask == NULL && port == NULL, "a plain address"); *ip = pip.ipv4.addr; return TRUE; }
gboolean li_parse_ipv6(const char *s, guint8 *ip, guint *net, guint16 *port) { VP_CALLPRE(s == valb && ip != NULL, "address"); if (parsefail & 2) return FALSE; VP_CALLPRE(net == NULL && port == NULL, "a plain address"); int i; for (i = 0; i < 16; i++) ip[i] = pip.ipv6.addr[i]; return TRUE; }
static int same6(const guint8 *a, const guint8 *b) { int i, r = 1; for (i = 0; i < 16; i++) r = r && a[i] == b[i]; return r; }
static guint32 want4; static const guint8 *want6;
gboolean li_ipv4_in_ipv4_net(guint32 t, guint32 m, guint32 nm) { VP_CALLPRE(t == want4 && m == c.rvalue.ipv4.addr && nm == c.rvalue.ipv4.networkmask && c.rvalue.type == LI_COND_VALUE_SOCKET_IPV4, "the address and the configured network"); netcalls++; return verdict; }
gboolean li_ipv6_in_ipv6_net(const unsigned char *t, const guint8 *m, guint n) { VP_CALLPRE(same6(t, want6) && same6(m, c.rvalue.ipv6.addr) && n == c.rvalue.ipv6.network && c.rvalue.type == LI_COND_VALUE_SOCKET_IPV6, "the address and the configured network"); netcalls++; return verdict; }
void h_check(void) {
	unsigned op = nondet_uint(), ty = nondet_uint(), vt = nondet_uint(), hr = nondet_uint(); int i;
	__CPROVER_assume(op <= LI_CONFIG_COND_LE + 20u && ty <= LI_COND_VALUE_SOCKET_IPV6 && vt <= LI_COND_VALUE_HINT_SOCKADDR && hr <= LI_HANDLER_ERROR + 3u);
	__CPROVER_assume(op == LI_CONFIG_COND_EQ || op == LI_CONFIG_COND_NE || op == LI_CONFIG_COND_PREFIX || op == LI_CONFIG_COND_NOPREFIX || op == LI_CONFIG_COND_SUFFIX || op == LI_CONFIG_COND_NOSUFFIX || op == LI_CONFIG_COND_MATCH || op == LI_CONFIG_COND_NOMATCH || op == LI_CONFIG_COND_IP || op == LI_CONFIG_COND_NOTIP || op == LI_CONFIG_COND_GT || op == LI_CONFIG_COND_GE || op == LI_CONFIG_COND_LT || op == LI_CONFIG_COND_LE);
	__CPROVER_assume(hr == LI_HANDLER_GO_ON || hr == LI_HANDLER_COMEBACK || hr == LI_HANDLER_WAIT_FOR_EVENT || hr == LI_HANDLER_ERROR);
	c.op = op; c.lvalue = &lv; c.rvalue.type = ty; r0 = hr; verdict = nondet_bool() ? TRUE : FALSE; parsed = nondet_long(); parsefail = nondet_int() & 3;
	int rx = op == LI_CONFIG_COND_MATCH || op == LI_CONFIG_COND_NOMATCH, ipop = op == LI_CONFIG_COND_IP || op == LI_CONFIG_COND_NOTIP;
	int ord = op == LI_CONFIG_COND_GT || op == LI_CONFIG_COND_GE || op == LI_CONFIG_COND_LT || op == LI_CONFIG_COND_LE;
	/* conditions the constructors build */
	switch (ty) {
	case LI_COND_VALUE_BOOL: VP_REQUIRES(op == LI_CONFIG_COND_EQ); break;
	case LI_COND_VALUE_NUMBER: VP_REQUIRES(ord || op == LI_CONFIG_COND_EQ || op == LI_CONFIG_COND_NE); break;
	case LI_COND_VALUE_STRING: VP_REQUIRES(!ord && !rx && !ipop); break;
	case LI_COND_VALUE_REGEXP: VP_REQUIRES(rx); break;
	default: VP_REQUIRES(ipop);
	}
	c.rvalue.b = nondet_bool() ? TRUE : FALSE; c.rvalue.i = nondet_long(); c.rvalue.string = &rstr; rstr.str = rstrb; c.rvalue.regex = RX; c.rvalue.ipv4.addr = nondet_uint(); c.rvalue.ipv4.networkmask = nondet_uint(); c.rvalue.ipv6.network = nondet_uint();
	for (i = 0; i < 16; i++) { c.rvalue.ipv6.addr[i] = nondet_uchar(); pip.ipv6.addr[i] = nondet_uchar(); s6.sin6_addr.s6_addr[i] = nondet_uchar(); } pip.ipv4.addr = nondet_uint(); s4.sin_addr.s_addr = nondet_uint();
	v0.match_type = vt; valb[0] = (char) nondet_uchar(); v0.data.str = valb; v0.data.number = nondet_long(); v0.data.bool = nondet_bool() ? TRUE : FALSE;
	int fam = nondet_int() & 3; sun.sa_family = fam == 0 ? AF_INET : fam == 1 ? AF_INET6 : AF_UNIX; v0.data.addr.addr_up.plain = &sun; v0.data.addr.addr_up.ipv4 = &s4; v0.data.addr.addr_up.ipv6 = &s6; s4.sin_family = s6.sin6_family = sun.sa_family;
	text = vt == LI_COND_VALUE_HINT_ANY || vt == LI_COND_VALUE_HINT_STRING ? valb : tmpb;
	vr.wrk = &wrk; wrk.tmp_str = &tmp; tmp.str = tmpb; copy.str = valb; vr.action_stack.regex_stack = &rs; guint rl = nondet_uint(); __CPROVER_assume(rl < 1000); rs.len = rl;
	int have4 = 0, have6 = 0;
	if (vt == LI_COND_VALUE_HINT_ANY) { if (!(parsefail & 1)) { have4 = 1; want4 = pip.ipv4.addr; } else if (!(parsefail & 2)) { have6 = 1; want6 = pip.ipv6.addr; } }
	else if (vt == LI_COND_VALUE_HINT_SOCKADDR) { if (fam == 0) { have4 = 1; want4 = s4.sin_addr.s_addr; } else if (fam == 1) { have6 = 1; want6 = s6.sin6_addr.s6_addr; } }
	gboolean res = nondet_int(), b; liHandlerResult r = li_condition_check(&vr, &c, &res); b = !!res;
	VP_ENSURES(asked == 1, "the variable is read once");
	VP_ENSURES(rs.len == rl + pushed && pushed == (r0 == LI_HANDLER_GO_ON && rx && matched), "captures are pushed exactly if the regex matched");
	VP_ENSURES(copies == pushed + freed && (!copies || mfreed + pushed == 1), "what is not pushed is released");
	if (r0 != LI_HANDLER_GO_ON) { VP_ENSURES(r == r0, "waiting and errors are passed on"); VP_REACH("not ready"); return; }
	switch (ty) {
	case LI_COND_VALUE_BOOL: {
		int val = vt == LI_COND_VALUE_HINT_BOOL ? v0.data.bool : vt == LI_COND_VALUE_HINT_NUMBER ? v0.data.number != 0 : vt == LI_COND_VALUE_HINT_SOCKADDR ? 1 : valb[0] != 0;
		VP_ENSURES(r == LI_HANDLER_GO_ON && b == (val == !!c.rvalue.b), "truth of the value"); VP_REACH("bool"); break; }
	case LI_COND_VALUE_NUMBER:
		if (vt == LI_COND_VALUE_HINT_ANY || vt == LI_COND_VALUE_HINT_NUMBER) {
			gint64 x = vt == LI_COND_VALUE_HINT_ANY ? parsed : v0.data.number, y = c.rvalue.i;
			VP_ENSURES(r == LI_HANDLER_GO_ON, "decided"); VP_REACH("number");
			VP_ENSURES(b == (op == LI_CONFIG_COND_EQ ? x == y : op == LI_CONFIG_COND_NE ? x != y : op == LI_CONFIG_COND_LT ? x < y : op == LI_CONFIG_COND_LE ? x <= y : op == LI_CONFIG_COND_GT ? x > y : x >= y), "the configured comparison of numbers");
		}
		break;
	case LI_COND_VALUE_STRING: case LI_COND_VALUE_REGEXP: {
		int neg = op == LI_CONFIG_COND_NE || op == LI_CONFIG_COND_NOPREFIX || op == LI_CONFIG_COND_NOSUFFIX || op == LI_CONFIG_COND_NOMATCH;
		VP_ENSURES(r == LI_HANDLER_GO_ON && compared == 1 && b == (neg ? !verdict : verdict), "the configured comparison of texts, negated for the ! operators");
		VP_ENSURES(kind == (rx ? 4 : op == LI_CONFIG_COND_EQ || op == LI_CONFIG_COND_NE ? 1 : op == LI_CONFIG_COND_PREFIX || op == LI_CONFIG_COND_NOPREFIX ? 2 : 3), "the configured operator"); if (rx) VP_REACH("regex"); else VP_REACH("text"); break; }
	default:
		if (vt == LI_COND_VALUE_HINT_ANY || vt == LI_COND_VALUE_HINT_SOCKADDR) {
			int in = ((ty == LI_COND_VALUE_SOCKET_IPV4 && have4) || (ty == LI_COND_VALUE_SOCKET_IPV6 && have6)) && verdict;
			if ((ty == LI_COND_VALUE_SOCKET_IPV4 && have4) || (ty == LI_COND_VALUE_SOCKET_IPV6 && have6)) { VP_ENSURES(netcalls == 1, "network looked at"); VP_REACH("net"); }
			VP_ENSURES(r == LI_HANDLER_GO_ON && b == (op == LI_CONFIG_COND_IP ? in : !in), "in the network, of the same address family"); VP_REACH("ip");
		}
	}
}
#endif

#if VP_VALUE
static gboolean vp_streq(const char *a, const char *b) { VP_CALLPRE(0, "not used"); return 0; } static gboolean vp_prefix(const char *a, const char *b) { return 0; } static gboolean vp_suffix(const char *a, const char *b) { return 0; } static GString *vp_snew(const gchar *s) { return NULL; } static gchar *vp_sfree(GString *s, gboolean f) { return NULL; } static GArray *vp_push(GArray *a, gconstpointer d, guint n) { return a; }
static GString f[12], key, envv; static char fb[12][2], keyb[2], envb[2]; static liHttpHeaders rqh, rsh; static struct sockaddr_in l4, r4; static struct sockaddr_in6 l6, r6; static struct sockaddr lp, rp; static int handled, hgets; static liHttpHeaders *hfrom; static liHandlerResult sr; static struct stat sst; static int stats; static gboolean haveenv;
gboolean li_vrequest_is_handled(liVRequest *v) { VP_CALLPRE(v == &vr, "the request"); return handled; }
void li_http_header_get_all(GString *d, liHttpHeaders *h, const gchar *k, size_t kl) { VP_CALLPRE(d == &tmp && k == keyb && kl == key.len, "the configured header"); hgets++; hfrom = h; }
GString *li_environment_get(liEnvironment *e, const gchar *k, size_t kl) { VP_CALLPRE(e == &vr.env && k == keyb && kl == key.len, "the configured variable"); return haveenv ? &envv : NULL; }
liHandlerResult li_stat_cache_get(liVRequest *v, GString *p, struct stat *st, int *err, int *fd) { VP_CALLPRE(v == &vr && p == &f[6] && fd == NULL, "the physical path"); stats++; if (sr == LI_HANDLER_GO_ON) *st = sst; return sr; }
static int port(struct sockaddr_in *a, struct sockaddr_in6 *b, int fam) { unsigned x = fam == 0 ? a->sin_port : b->sin6_port; return fam > 1 ? -1 : (int) (((x >> 8) | (x << 8)) & 0xffffu); }
void h_value(void) {
	int i, lf = nondet_int() & 3, rf = nondet_int() & 3; unsigned ty = nondet_uint(), pr = nondet_uint(), hr = nondet_uint(), state = nondet_uint(); liConditionValue v;
	for (i = 0; i < 12; i++) { f[i].str = fb[i]; f[i].len = nondet_size(); fb[i][0] = (char) nondet_uchar(); }
	__CPROVER_assume(ty < LI_COMP_UNKNOWN + 40u && pr <= LI_COND_VALUE_HINT_SOCKADDR && state <= LI_VRS_ERROR + 1u);
	__CPROVER_assume(hr == LI_HANDLER_GO_ON || hr == LI_HANDLER_WAIT_FOR_EVENT || hr == LI_HANDLER_ERROR); sr = hr;
	lv.type = ty; lv.key = &key; key.str = keyb; key.len = nondet_size(); envv.str = envb; haveenv = nondet_bool(); tmp.str = tmpb;
	vr.wrk = &wrk; vr.coninfo = &ci; vr.state = state; ci.local_addr_str = &f[0]; ci.remote_addr_str = &f[1]; vr.request.uri.path = &f[2]; vr.request.uri.raw_path = &f[3]; vr.request.uri.host = &f[4]; vr.request.uri.query = &f[5]; vr.physical.path = &f[6]; vr.physical.doc_root = &f[7]; vr.physical.pathinfo = &f[8]; vr.request.http_method_str = &f[9]; vr.request.uri.raw = &f[10]; vr.request.uri.raw_orig_path = &f[11];
	ci.is_ssl = nondet_bool(); vr.request.content_length = nondet_long(); vr.response.http_status = nondet_int(); vr.request.headers = &rqh; vr.response.headers = &rsh; handled = nondet_bool() ? TRUE : FALSE; sst.st_size = nondet_long(); sst.st_mode = nondet_uint();
	lp.sa_family = lf == 0 ? AF_INET : lf == 1 ? AF_INET6 : AF_UNIX; rp.sa_family = rf == 0 ? AF_INET : rf == 1 ? AF_INET6 : AF_UNIX; l4.sin_port = (guint16) nondet_uint(); r4.sin_port = (guint16) nondet_uint(); l6.sin6_port = (guint16) nondet_uint(); r6.sin6_port = (guint16) nondet_uint();
	ci.local_addr.addr_up.plain = &lp; ci.local_addr.addr_up.ipv4 = &l4; ci.local_addr.addr_up.ipv6 = &l6; ci.remote_addr.addr_up.plain = &rp; ci.remote_addr.addr_up.ipv4 = &r4; ci.remote_addr.addr_up.ipv6 = &r6;
	liHandlerResult r = li_condition_get_value(&tmp, &vr, &lv, &v, pr);
	const gchar *s = NULL; int num = 0, bo = 0; gint64 n = 0; gboolean t = FALSE, plain = FALSE;
	switch (ty) {
	case LI_COMP_REQUEST_LOCALIP: case LI_COMP_REQUEST_REMOTEIP: {
		int l = ty == LI_COMP_REQUEST_LOCALIP; VP_ENSURES(r == LI_HANDLER_GO_ON, "available");
		if (pr == LI_COND_VALUE_HINT_STRING) { s = l ? f[0].str : f[1].str; } else { VP_ENSURES(v.match_type == LI_COND_VALUE_HINT_SOCKADDR && v.data.addr.addr_up.plain == (l ? &lp : &rp), "the address"); return; }
		break; }
	case LI_COMP_REQUEST_LOCALPORT: num = 1; n = port(&l4, &l6, lf); break;
	case LI_COMP_REQUEST_REMOTEPORT: num = 1; n = port(&r4, &r6, rf); break;
	case LI_COMP_REQUEST_PATH: s = fb[2]; break;
	case LI_COMP_REQUEST_RAW_PATH: s = fb[3]; break;
	case LI_COMP_REQUEST_HOST: s = fb[4]; break;
	case LI_COMP_REQUEST_SCHEME: VP_ENSURES(r == LI_HANDLER_GO_ON && v.match_type == LI_COND_VALUE_HINT_STRING && v.data.str[0] == 'h' && v.data.str[1] == 't' && v.data.str[2] == 't' && v.data.str[3] == 'p' && v.data.str[4] == (ci.is_ssl ? 's' : 0) && (!ci.is_ssl || v.data.str[5] == 0), "https exactly for encrypted connections"); return;
	case LI_COMP_REQUEST_QUERY_STRING: s = fb[5]; plain = TRUE; break;
	case LI_COMP_REQUEST_METHOD: s = fb[9]; break;
	case LI_COMP_REQUEST_CONTENT_LENGTH: num = 1; n = vr.request.content_length; break;
	case LI_COMP_REQUEST_IS_HANDLED: bo = 1; t = handled; break;
	case LI_COMP_PHYSICAL_PATH: s = fb[6]; break;
	case LI_COMP_PHYSICAL_EXISTS: case LI_COMP_PHYSICAL_ISDIR: case LI_COMP_PHYSICAL_ISFILE: case LI_COMP_PHYSICAL_SIZE:
		if (f[6].len > 0) VP_ENSURES(stats == 1, "the file is looked at");
		if (f[6].len > 0 && sr == LI_HANDLER_WAIT_FOR_EVENT) { VP_ENSURES(r == LI_HANDLER_WAIT_FOR_EVENT, "waits for the file system"); VP_REACH("wait for stat"); return; }
		{ int ok = f[6].len > 0 && sr == LI_HANDLER_GO_ON;
		if (ty == LI_COMP_PHYSICAL_SIZE) { num = 1; n = ok ? sst.st_size : -1; }
		else { bo = 1; t = ok && (ty == LI_COMP_PHYSICAL_EXISTS || (ty == LI_COMP_PHYSICAL_ISDIR ? S_ISDIR(sst.st_mode) : S_ISREG(sst.st_mode))); } }
		break;
	case LI_COMP_PHYSICAL_DOCROOT: s = fb[7]; break;
	case LI_COMP_PHYSICAL_PATHINFO: s = fb[8]; break;
	case LI_COMP_REQUEST_HEADER: s = tmpb; VP_ENSURES(hgets == 1 && hfrom == &rqh, "headers of the request"); break;
	case LI_COMP_ENVIRONMENT: if (!haveenv) { VP_ENSURES(r == LI_HANDLER_GO_ON && v.match_type == LI_COND_VALUE_HINT_STRING && v.data.str[0] == 0, "empty if not set"); VP_REACH("no variable"); return; } s = envb; break;
	case LI_COMP_RESPONSE_STATUS: case LI_COMP_RESPONSE_HEADER:
		if (state == LI_VRS_HANDLE_REQUEST_HEADERS) { VP_ENSURES(r == LI_HANDLER_ERROR, "no response to wait for"); return; }
		if (state < LI_VRS_HANDLE_RESPONSE_HEADERS) { VP_ENSURES(r == LI_HANDLER_WAIT_FOR_EVENT, "waits for the response"); VP_REACH("wait for response"); return; }
		if (ty == LI_COMP_RESPONSE_STATUS) { num = 1; n = vr.response.http_status; } else { s = tmpb; VP_ENSURES(hgets == 1 && hfrom == &rsh, "headers of the response"); }
		break;
	default: VP_ENSURES(r == LI_HANDLER_ERROR, "unknown variable"); return;
	}
	VP_ENSURES(r == LI_HANDLER_GO_ON, "available");
	if (num) { VP_ENSURES(v.match_type == LI_COND_VALUE_HINT_NUMBER && v.data.number == n, "the number the variable stands for"); VP_REACH("number"); }
	else if (bo) { VP_ENSURES(v.match_type == LI_COND_VALUE_HINT_BOOL && v.data.bool == t, "the truth value the variable stands for"); VP_REACH("bool"); }
	else { VP_ENSURES(v.match_type == (plain ? LI_COND_VALUE_HINT_ANY : LI_COND_VALUE_HINT_STRING) && v.data.str == s, "the text the variable stands for"); VP_REACH("text"); }
}
#endif
