/* C01: executable contract of percent-decoding, path normalisation and the URL entry points */
#include <lighttpd/base.h>
#include <lighttpd/url_parser.h>
#include "vn.h"

static int hexv(unsigned char c) { return (c >= '0' && c <= '9') ? c - '0' : (c >= 'a' && c <= 'f') ? c - 'a' + 10 : (c >= 'A' && c <= 'F') ? c - 'A' + 10 : -1; }
static size_t ref_decode(const unsigned char *s, size_t n, unsigned char *d) {
	size_t i, o = 0;
	for (i = 0; i < n; ) {
		unsigned char c = s[i];
		if (c == '%') {
			if (i + 2 >= n) break;
			int a = hexv(s[i+1]), b = hexv(s[i+2]);
			i += 3;
			if (a < 0 || b < 0) continue;
			c = a * 16 + b;
		} else i++;
		if (c < 32 || c == 127) c = '_';
		d[o++] = c;
	}
	return o;
}
static size_t ref_simplify(const char *s, size_t n, char *d) {
	size_t i = 0, o = 0; int trail = 1;
	size_t stack[4096], sp = 0;
	while (i < n && s[i] == ' ') i++;
	if (i < n && s[i] == '/') i++;
	while (i <= n) {
		size_t e = i; while (e < n && s[e] != '/') e++;
		size_t l = e - i;
		trail = 1;
		if (l == 0 || (l == 1 && s[i] == '.')) {}
		else if (l == 2 && s[i] == '.' && s[i+1] == '.') { if (sp) o = stack[--sp]; }
		else { if (sp < 4096) stack[sp++] = o; d[o++] = '/'; memcpy(d + o, s + i, l); o += l; trail = 0; }
		i = e + 1;
	}
	if (trail) d[o++] = '/';
	return o;
}
static void check_norm(const char *who, const GString *p, const char *in, size_t n) {
	size_t i;
	if (p->len < 1 || p->str[0] != '/') vn_fail("%s: result \"%s\" of \"%s\" does not start with /", who, vn_q(p->str, p->len), vn_q(in, n));
	if (p->str[p->len] || strlen(p->str) != p->len) vn_fail("%s: NUL inside the result \"%s\" of \"%s\"", who, vn_q(p->str, p->len), vn_q(in, n));
	for (i = 0; i < p->len; i++) {
		size_t e;
		if (p->str[i] != '/') continue;
		for (e = i + 1; e < p->len && p->str[e] != '/'; e++) ;
		size_t l = e - i - 1;
		if ((l == 0 && e < p->len) || (l == 1 && p->str[i+1] == '.') || (l == 2 && p->str[i+1] == '.' && p->str[i+2] == '.'))
			vn_fail("%s: result \"%s\" of \"%s\" has a \"\", . or .. segment", who, vn_q(p->str, p->len), vn_q(in, n));
	}
}
static GString *mkstr(const char *s, size_t n) { /* exact allocation so that ASan sees any overrun */
	GString *g = g_malloc(sizeof(*g)); g->allocated_len = n + 1 < 2 ? 2 : n + 1; g->str = g_malloc(g->allocated_len); memcpy(g->str, s, n); g->str[n] = 0; g->len = n; return g;
}
static void one(const char *s, size_t n) {
	static char d[8192]; static unsigned char d2[8192]; size_t l;
	GString *g;
	vn_setcase("path bytes \"%s\"", vn_q(s, n));
	vn_evals++;
	g = mkstr(s, n);
	li_path_simplify(g);
	l = ref_simplify(s, n, d);
	if (memchr(s, '%', n) || strstr(s, "..")) vn_nontriv++;
	check_norm("path_simplify", g, s, n);
	if (g->len != l || memcmp(g->str, d, l)) vn_fail("path_simplify(\"%s\") = \"%s\", expected \"%s\"", vn_q(s, n), vn_q(g->str, g->len), vn_q(d, l));
	g_string_free(g, TRUE);
	g = mkstr(s, n);
	li_url_decode(g);
	l = ref_decode((const unsigned char*) s, n, d2);
	if (g->len != l || memcmp(g->str, d2, l) || g->str[l]) vn_fail("url_decode(\"%s\") = \"%s\", expected \"%s\"", vn_q(s, n), vn_q(g->str, g->len), vn_q(d2, l));
	li_path_simplify(g);
	check_norm("decode+simplify", g, s, n);
	{ size_t i; for (i = 0; i < g->len; i++) if ((unsigned char)g->str[i] < 32 || g->str[i] == 127) vn_fail("control byte in \"%s\" from \"%s\"", vn_q(g->str, g->len), vn_q(s, n)); }
	g_string_free(g, TRUE);
}
static liVRequest vr; static liConnection con; static liServer srv; static liWorker wrk; static liOptionValue opts[64]; static liOptionPtrValue *optptrs[64];
static void url(const char *s, size_t n) {
	liRequestUri *u = &vr.request.uri;
	GString in; static unsigned char d2[8192]; static char d[8192];
	vn_setcase("raw url \"%s\"", vn_q(s, n));
	vn_evals++;
	/* full entry: request line url of a request */
	li_request_reset(&vr.request);
	vr.request.http_method = LI_HTTP_METHOD_GET; vr.request.http_version = LI_HTTP_VERSION_1_0;
	con.info.keep_alive = TRUE; con.info.is_ssl = FALSE;
	g_string_append_len(u->raw, s, n);
	if (li_request_validate_header(&con)) {
		vn_nontriv++;
		check_norm("request", u->path, s, n);
		{ size_t i; for (i = 0; i < u->path->len; i++) if ((unsigned char)u->path->str[i] < 32 || u->path->str[i] == 127) vn_fail("control byte in request path"); }
		if (s[0] == '/') {
			const char *q, *h = memchr(s, '#', n); size_t pl, l;
			if (h) n = h - s; /* the fragment is not part of path or query */
			q = memchr(s, '?', n); pl = q ? (size_t)(q - s) : n;
			l = ref_decode((const unsigned char*) s, pl, d2);
			l = ref_simplify((char*) d2, l, d);
			if (u->path->len != l || memcmp(u->path->str, d, l)) vn_fail("request url \"%s\": path \"%s\", expected \"%s\"", vn_q(s, n), vn_q(u->path->str, u->path->len), vn_q(d, l));
			if (q && (u->query->len != n - pl - 1 || memcmp(u->query->str, q + 1, u->query->len))) vn_fail("request url \"%s\": query \"%s\"", vn_q(s, n), vn_q(u->query->str, u->query->len));
			if (!q && u->query->len) vn_fail("request url \"%s\": query \"%s\"", vn_q(s, n), vn_q(u->query->str, u->query->len));
		}
	}
	/* entry used by rewrite targets / X-Sendfile style raw paths */
	in.str = (char*) s; in.len = n; in.allocated_len = n + 1;
	g_string_truncate(u->path, 0);
	if (li_parse_raw_path(u, &in)) check_norm("raw_path", u->path, s, n);
}
int main(int argc, char **argv) {
	static const char A[] = "/.a%2f";  /* exhaustive alphabet */
	static const char *frag[] = { "/", "..", ".", "%2e", "%2E", "%2f", "%2F", "%", "%4", "%zz", "a", "bc", "//", "/../", "/./", "%00", "%7f", "\x80", "\xff", " ", "%25", "%:0", "%3:", "...", "x.", ".x", "~", "%5c", "\\", "?", "q=1", "%1f", "%20", "#", "#x" };
	char b[512]; size_t n, i;
	vn_init(argc, argv);
	memset(&vr, 0, sizeof vr); memset(&con, 0, sizeof con);
	li_request_init(&vr.request);
	con.mainvr = &vr; con.srv = &srv; con.wrk = &wrk; vr.wrk = &wrk; vr.coninfo = &con.info; vr.options = opts; vr.optionptrs = optptrs;
	for (n = 0; n <= 7; n++) {
		size_t tot = 1, k; for (i = 0; i < n; i++) tot *= sizeof(A) - 1;
		for (k = 0; k < tot; k++) { size_t x = k; for (i = 0; i < n; i++) { b[i] = A[x % (sizeof(A)-1)]; x /= sizeof(A)-1; } b[n] = 0; one(b, n); }
		vn_sample("exhaustive: every string of length %d over /.a%%2f", (int) n);
	}
	while (vn_more(1.0)) {
		unsigned parts = vn_r(14);
		n = 0; b[0] = 0;
		if (vn_r(8)) { b[n++] = '/'; b[n] = 0; }
		for (i = 0; i < parts && n < 480; i++) {
			if (vn_r(9) == 0) { char c = 1 + vn_r(255); b[n++] = c; b[n] = 0; }
			else { const char *f = frag[vn_r(sizeof(frag)/sizeof(*frag))]; strcpy(b + n, f); n += strlen(f); }
		}
		one(b, n); url(b, n);
		if (vn_r(6) == 0) { char c[600]; int l = snprintf(c, sizeof c, "http%s://h%s%s", vn_r(2) ? "s" : "", vn_r(2) ? ":80" : "", b); url(c, l); }
		if (vn_evals % 7919 == 0) vn_sample("random: \"%s\"", vn_q(b, n));
	}
	return vn_done("all strings of length <= 7 over a 6-letter path alphabet, then random concatenations of path fragments and raw bytes; non-trivial: contains an escape or '..', or was accepted as request url");
}
