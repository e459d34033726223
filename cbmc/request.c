/* C06: li_request_validate_header (real text of src/main/request.c) against the framing rules */
#define _LIGHTTPD_BASE_H_GUARD
#include <lighttpd/base.h>
#include <lighttpd/plugin_core.h>
#include "vp.h"
#include "vp_spec.h"
size_t li_vk, li_vk2; unsigned char li_vb, li_vb2; li_ghost_t li_g;
#undef VR_ERROR
#define VR_ERROR(vr, ...) ((void) 0)
#undef _VR_DEBUG
#define _VR_DEBUG(srv, vr, ...) ((void) 0)
#undef _CORE_OPTION
#define _CORE_OPTION(vr, idx) (vp_opt[(idx) == LI_CORE_OPTION_STRICT_POST_CONTENT_LENGTH])
static liOptionValue vp_opt[2];
#undef g_string_free
#define g_string_free(s, x) ((void) 0)
#undef g_ascii_isdigit
#define g_ascii_isdigit(c) ((c) >= 48 && (c) <= 57)
#define g_ascii_strtoll vp_strtoll
#define g_ascii_strcasecmp vp_strcasecmp
static gint64 vp_strtoll(const gchar *s, gchar **end, guint base);
static gint vp_strcasecmp(const gchar *a, const gchar *b);
#include "vp_force.h"
#include "src/main/request.c"

#define N 3
/* one list of up to N entries per header name; a value is a class */
enum { K_HOST, K_CL, K_TE, K_EX, K_N };
static GList links[K_N][N]; static liHttpHeader hdr[K_N][N]; static GString str[K_N][N]; static char buf[K_N][N][4]; static int cnt[K_N];
static struct { int first_digit, clean; gint64 v; int range; } cl[N]; static int te[N], ex[N];
static int kof(const gchar *k, size_t l) { return l == 4 && k[0] == 'h' ? K_HOST : l == 14 && k[0] == 'c' ? K_CL : l == 17 && k[0] == 't' ? K_TE : l == 6 && k[0] == 'e' ? K_EX : -1; }
static int conn_keep, conn_close;
GList *li_http_header_find_first(liHttpHeaders *h, const gchar *k, size_t l) { int i = kof(k, l); VP_CALLPRE(i >= 0, "known header"); return i >= 0 && cnt[i] > 0 ? &links[i][0] : NULL; }
GList *li_http_header_find_next(GList *p, const gchar *k, size_t l) { int i = kof(k, l), j; VP_CALLPRE(i >= 0, "known header"); for (j = 0; j + 1 < N; j++) if (i >= 0 && p == &links[i][j] && j + 1 < cnt[i]) return &links[i][j + 1]; return NULL; }
liHttpHeader *li_http_header_lookup(liHttpHeaders *h, const gchar *k, size_t l) { int i = kof(k, l); VP_CALLPRE(i >= 0, "known header"); return i >= 0 && cnt[i] > 0 ? &hdr[i][cnt[i] - 1] : NULL; }
gboolean li_http_header_is(liHttpHeaders *h, const gchar *k, size_t kl, const gchar *v, size_t vl) { VP_CALLPRE(kl == 10 && (vl == 10 || vl == 5), "connection header"); return vl == 10 ? conn_keep : conn_close; }
static int which(const gchar *p, int k) { int j; for (j = 0; j < N; j++) if (p == buf[k][j]) return j; VP_CALLPRE(0, "value of that header"); return 0; }
static char e0 = 0, e1 = 'x';
int *__errno_location(void) { static int e; return &e; }
static gint64 vp_strtoll(const gchar *s, gchar **end, guint base) {
	int j = which(s, K_CL); VP_CALLPRE(base == 10, "decimal");
	*end = cl[j].clean ? &e0 : &e1;
	if (cl[j].range) errno = ERANGE;
	return cl[j].v;
}
static int lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static gint vp_strcasecmp(const gchar *a, const gchar *b) {
	int j;
	if (lower(b[0]) == 'i') return te[which(a, K_TE)] != 0;
	if (lower(b[0]) == 'c') return te[which(a, K_TE)] != 1;
	return ex[which(a, K_EX)] != 1;
}
static liConnection con; static liVRequest vr; static GString s_scheme, s_auth, s_host, s_raw, s_path, s_query, s_rp, s_rop; static char hostb[5], dummy[2]; static liHttpHeaders hs;
static int n_auth, url_ok, host_ok;
GString *vp_append_len(GString *s, const gchar *v, gssize l) { VP_CALLPRE(s == &s_scheme || s == &s_auth || s == &s_rop, "string"); s->len += l; return s; }
/* url parsing and its effect on authority / host are other functions' contracts */
gboolean vp_parse_url(liVRequest *v) { return url_ok; }
gboolean li_parse_hostname(liRequestUri *u) { if (host_ok) { s_host.len = nondet_size(); __CPROVER_assume(s_host.len <= 4); } return host_ok; }
gboolean li_parse_raw_url(liRequestUri *u) { return url_ok; }
void h_validate(void) {
	int i, j, err = 0, chunked = 0, has_cl = 0, e100 = 0; gint64 v = -1; gboolean r;
	con.mainvr = &vr; vr.request.headers = &hs; vr.request.content_length = -1;
	vr.request.uri.scheme = &s_scheme; vr.request.uri.authority = &s_auth; vr.request.uri.host = &s_host; vr.request.uri.raw = &s_raw; vr.request.uri.path = &s_path; vr.request.uri.query = &s_query; vr.request.uri.raw_path = &s_rp; vr.request.uri.raw_orig_path = &s_rop;
	s_host.str = hostb; s_scheme.str = s_auth.str = s_raw.str = s_path.str = s_query.str = s_rp.str = s_rop.str = dummy;
	s_scheme.len = s_auth.len = s_host.len = 0; s_raw.len = nondet_size(); __CPROVER_assume(s_raw.len < 100000);
	for (i = 0; i < 4; i++) hostb[i] = nondet_bool() ? '.' : 'a';
	vr.request.http_version = nondet_int(); __CPROVER_assume(vr.request.http_version == LI_HTTP_VERSION_1_0 || vr.request.http_version == LI_HTTP_VERSION_1_1 || vr.request.http_version == LI_HTTP_VERSION_UNSET);
	vr.request.http_method = nondet_int(); __CPROVER_assume((int) vr.request.http_method >= LI_HTTP_METHOD_UNSET && vr.request.http_method <= LI_HTTP_METHOD_UNLOCK + 2);
	vp_opt[1].boolean = nondet_bool(); con.info.is_ssl = nondet_bool(); con.info.keep_alive = TRUE; con.expect_100_cont = FALSE; vr.response.http_status = 0;
	url_ok = nondet_bool(); host_ok = nondet_bool(); conn_keep = nondet_bool(); conn_close = nondet_bool();
	for (i = 0; i < K_N; i++) {
		cnt[i] = nondet_int(); __CPROVER_assume(cnt[i] >= 0 && cnt[i] <= N);
		for (j = 0; j < N; j++) { links[i][j].data = &hdr[i][j]; hdr[i][j].data = &str[i][j]; hdr[i][j].keylen = 0; str[i][j].str = buf[i][j] - 2; str[i][j].len = 5; buf[i][j][0] = 'x'; buf[i][j][1] = 0; }
	}
	for (j = 0; j < N; j++) {
		int big = nondet_bool(); cl[j].first_digit = nondet_bool(); cl[j].clean = nondet_bool(); cl[j].range = 0;
		cl[j].v = nondet_long();
		if (cl[j].first_digit) __CPROVER_assume(cl[j].v >= 0); /* digits only give no negative number */
		if (big) { cl[j].range = 1; __CPROVER_assume(cl[j].v == G_MAXINT64 || (cl[j].v == G_MININT64 && !cl[j].first_digit)); }
		buf[K_CL][j][0] = cl[j].first_digit ? '0' + (nondet_uchar() & 7) : nondet_bool() ? '+' : nondet_bool() ? '-' : nondet_bool() ? ' ' : 'x';
		te[j] = nondet_int(); __CPROVER_assume(te[j] >= 0 && te[j] <= 2); /* identity, chunked, other */
		ex[j] = nondet_bool();
	}
	*__errno_location() = nondet_bool() ? ERANGE : 0;
	/* --- specification --- */
	if (vr.request.http_version == LI_HTTP_VERSION_UNSET || s_raw.len == 0 || cnt[K_HOST] > 1 || !url_ok) err = 1;
	if (vr.request.http_version == LI_HTTP_VERSION_1_1 && cnt[K_HOST] == 0) err = 1;
	if (cnt[K_HOST] == 1 && !host_ok) err = 1;
	for (j = 0; j < cnt[K_CL] && j < N; j++) {
		if (!cl[j].first_digit || !cl[j].clean || cl[j].range) err = 1; /* not a number, or too large */
		if (has_cl && cl[j].v != v) err = 1;                              /* conflicting */
		has_cl = 1; v = cl[j].v;
	}
	for (j = 0; j < cnt[K_TE] && j < N; j++) { if (te[j] == 2 || (te[j] == 1 && chunked)) err = 1; if (te[j] == 1) chunked = 1; }
	for (j = 0; j < cnt[K_EX] && j < N; j++) { if (!ex[j]) err = 1; else e100 = 1; }
	if (e100 && vr.request.http_version == LI_HTTP_VERSION_1_0) err = 1;
	if (vr.request.http_method == LI_HTTP_METHOD_GET || vr.request.http_method == LI_HTTP_METHOD_HEAD) { if ((has_cl && v > 0 && !chunked) || chunked) err = 1; }
	if (vr.request.http_method == LI_HTTP_METHOD_POST && !has_cl && !chunked && vp_opt[1].boolean) err = 1;

	r = li_request_validate_header(&con);
	VP_REACH("returns"); if (r) VP_REACH("valid"); if (r && chunked) VP_REACH("chunked"); if (r && has_cl && v > 0 && !chunked) VP_REACH("content-length");
	VP_ENSURES(!!r == !err, "requests are refused exactly when their framing is invalid or ambiguous");
	VP_ENSURES(r || (vr.response.http_status >= 400 && vr.response.http_status < 600), "refused with an error status");
	VP_ENSURES(r || !con.info.keep_alive, "refused requests close the connection");
	VP_ENSURES(!r || vr.request.content_length == (chunked ? -1 : has_cl ? v : 0), "body length: -1 for chunked, otherwise content-length or 0");
	VP_ENSURES(!r || !!con.expect_100_cont == e100, "100-continue expected only if asked for");
	VP_ENSURES(!r || !!con.info.keep_alive == (vr.request.http_version == LI_HTTP_VERSION_1_0 ? conn_keep : !conn_close), "keep-alive: 1.1 unless close, 1.0 only if asked for");
	VP_ENSURES(!r || s_host.len == 0 || hostb[s_host.len - 1] != '.', "no trailing dot in the host");
	VP_ENSURES(!r || s_scheme.len == (con.info.is_ssl ? 5 : 4), "scheme");
}
