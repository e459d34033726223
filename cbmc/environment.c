/* C14: CGI variables of a request (real text of src/main/environment.c) */
#include <glib.h>
#include <gmodule.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/stat.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdlib.h>
#include <lua.h>
#ifdef VP_CBMC
#define union struct /* the verifier can not follow pointers stored in one member of a union and read from another: all members are set instead */
#endif
#include <lighttpd/base.h>
#include <lighttpd/plugin_core.h>
#undef union
#include "vp.h"
#include "vp_spec.h"
size_t li_vk, li_vk2; unsigned char li_vb, li_vb2; li_ghost_t li_g;
#undef g_ascii_isalpha
#undef g_ascii_isdigit
#undef g_ascii_toupper
#define g_ascii_isalpha(c) (((c) >= 'a' && (c) <= 'z') || ((c) >= 'A' && (c) <= 'Z'))
#define g_ascii_isdigit(c) ((c) >= '0' && (c) <= '9')
#define g_ascii_toupper(c) ((char) ((c) >= 'a' && (c) <= 'z' ? (c) - 32 : (c)))
#undef g_string_truncate
#define g_string_truncate vp_truncate
static GString *vp_truncate(GString *s, gsize n) { VP_CALLPRE(n <= s->len, "truncate"); s->len = n; s->str[n] = 0; return s; }
#undef g_string_free
#define g_string_free(s, x) ((void) 0)
#undef htons
#define htons(x) (0xffffu & (((x) >> 8) | ((x) << 8)))
#include "src/main/environment.c"
void h_fix(void) {
	GString s; size_t n = nondet_size(); __CPROVER_assume(VP_SIZE_OK(n, 1 << 20));
	s.str = malloc(n + 1); __CPROVER_assume(s.str != NULL); s.len = n; s.allocated_len = n + 1; s.str[n] = 0;
	li_vk = nondet_size(); __CPROVER_assume(li_vk <= n); li_vb = (unsigned char) s.str[li_vk];
	cgi_fix_header_name(&s); VP_REACH("returns");
	VP_ENSURES(s.len == n && s.str[n] == 0, "same length");
	if (li_vk < n) VP_ENSURES((unsigned char) s.str[li_vk] == li_spec_cgi_char(li_vb), "letters become upper case, digits stay, everything else becomes _");
}
static liEnvironmentDup edup; static GString cval; static int have, sel, left; static char ww[4]; static GString lk, lv;
/* ---- all variables of a request */
enum { V_CL, V_SOFT, V_NAME, V_GW, V_SPORT, V_SADDR, V_RPORT, V_RADDR, V_SCRIPT, V_PI, V_PT, V_SF, V_DR, V_URI, V_RURI, V_QS, V_METH, V_RST, V_PROTO, V_HTTPS, V_SCHEME, V_N };
static const char *const names[V_N] = { "CONTENT_LENGTH", "SERVER_SOFTWARE", "SERVER_NAME", "GATEWAY_INTERFACE", "SERVER_PORT", "SERVER_ADDR", "REMOTE_PORT", "REMOTE_ADDR", "SCRIPT_NAME", "PATH_INFO", "PATH_TRANSLATED", "SCRIPT_FILENAME", "DOCUMENT_ROOT", "REQUEST_URI", "REDIRECT_URI", "QUERY_STRING", "REQUEST_METHOD", "REDIRECT_STATUS", "SERVER_PROTOCOL", "HTTPS", "REQUEST_SCHEME" };
static const unsigned char nlen[V_N] = { 14, 15, 11, 17, 11, 11, 11, 11, 11, 9, 15, 15, 13, 11, 12, 12, 14, 15, 15, 5, 14 };
static int seen[V_N], first = -1; static const gchar *val[V_N]; static size_t vlen[V_N]; static long printed; static long pval[V_N];
static liVRequest vr; static liConInfo ci; static liWorker wrk; static GString tmp, fld[12]; static char tmpb[64], fb[12][4];
static liHttpHeaders hs; static GList hl[2]; static liHttpHeader hh[2]; static GString hd[2]; static char hb[2][12]; static int nh, hcalls[2], configured[2], indup[2]; static char hname[2][18]; static const gchar *hval[2]; static size_t hvl[2]; static int cfg0[2]; static size_t hnlen[2];
static liOptionPtrValue tag; static liOptionPtrValue *opts[64]; static int eqraw, freed; static struct sockaddr_in6 l4, r4;
static int which(void) { char c = tmpb[0] == 'H' && tmpb[1] == 'T' ? tmpb[5] : tmpb[0]; VP_CALLPRE(nh > 0 && (c == 'A' || c == 'B'), "name of a header"); return c == 'B' && nh > 1; }
static int var(const gchar *k, size_t kl) { int i, r = -1; for (i = 0; i < V_N; i++) if (kl == nlen[i] && 0 == memcmp(k, names[i], nlen[i])) r = i; return r; }
static int lcalls;
GString *vp_pop(liEnvironmentDup *d, const gchar *k, size_t l) {
	int i; VP_CALLPRE(d == &edup, "own copy");
	if (k == tmpb) { i = which(); if (indup[i]) { indup[i] = 0; return &cval; } return NULL; }
	return sel >= 0 && var(k, l) == sel ? &cval : NULL;
}
void vp_cb(gpointer p, const gchar *k, size_t kl, const gchar *v, size_t vl) {
	int i, j; VP_CALLPRE(p == &have, "argument");
	if (k == lk.str) { lcalls++; VP_CALLPRE(kl == lk.len && v == lv.str && vl == lv.len, "configured variable"); return; }
	if (k == tmpb) {
		i = which(); hcalls[i]++; hnlen[i] = kl; for (j = 0; j < 18; j++) hname[i][j] = tmpb[j]; hval[i] = v; hvl[i] = vl; return;
	}
	i = var(k, kl); VP_CALLPRE(i >= 0, "known variable"); if (i < 0) return;
	if (first < 0) first = i; seen[i]++; val[i] = v; vlen[i] = vl; pval[i] = v == tmpb ? printed : -1;
}
void g_string_printf(GString *s, const gchar *f, ...) { va_list a; VP_CALLPRE(s == &tmp, "scratch string"); va_start(a, f); printed = f[1] == 'u' ? (long) va_arg(a, guint) : va_arg(a, long); va_end(a); tmp.len = 3; }
GString *li_g_string_append_len(GString *s, const gchar *v, gssize n) {
	int i; VP_CALLPRE(s == &tmp && n >= 0, "scratch string"); printed = -2;
	if (n <= 12 && tmp.len + n < 60) for (i = 0; i < 12; i++) if (i < n) tmpb[tmp.len + i] = v[i];
	tmp.len += n; return s;
}
gboolean g_string_equal(const GString *a, const GString *b) { return eqraw; }
gboolean li_strncase_equal(const GString *a, const gchar *s, guint n) { VP_CALLPRE(n == 12, "content-type"); return a->len == 12; }
GString *vp_get(liEnvironment *e, const gchar *k, size_t l) { VP_CALLPRE(e == &vr.env && k == tmpb, "name of the header"); return configured[which()] ? &cval : NULL; }
gpointer g_hash_table_lookup(GHashTable *t, gconstpointer k) { VP_CALLPRE(k == &tmp, "name of the header"); return indup[which()] ? &cval : NULL; }
void g_hash_table_iter_init(GHashTableIter *i, GHashTable *t) { }
gboolean g_hash_table_iter_next(GHashTableIter *i, gpointer *k, gpointer *v) { if (left <= 0) return FALSE; left--; *k = &lk; *v = &lv; return TRUE; }
void vp_free(liEnvironmentDup *d) { freed++; }
#define CFG(v) (sel == (v))
#define CFGOK(v) VP_ENSURES(val[v] == ww && vlen[v] == cval.len, "configured variables win")
static void eqf(int v, GString *f, const char *m) { if (CFG(v)) { VP_ENSURES(seen[v] == 1, "once"); CFGOK(v); return; } VP_ENSURES(seen[v] == 1 && val[v] == f->str && vlen[v] == f->len, "variable has the value of the request"); }
#define EQS(v, s) if (CFG(v)) { VP_ENSURES(seen[v] == 1, "once"); CFGOK(v); } else VP_ENSURES(seen[v] == 1 && vlen[v] == sizeof(s) - 1 && 0 == memcmp(val[v], s, sizeof(s) - 1), "constant variable")
void h_all(void) {
	int i, lf = nondet_int(), rf = nondet_int(), left0; unsigned char lp0, lp1, rp0, rp1; unsigned lp, rp;
	for (i = 0; i < 12; i++) { fld[i].str = fb[i]; fld[i].len = nondet_size(); __CPROVER_assume(fld[i].len < 1000); }
	tmp.str = tmpb; tmp.len = 5; wrk.tmp_str = &tmp; vr.wrk = &wrk; vr.coninfo = &ci; vr.request.headers = &hs;
	vr.request.content_length = nondet_long(); vr.request.http_version = nondet_bool() ? LI_HTTP_VERSION_1_1 : LI_HTTP_VERSION_1_0; ci.is_ssl = nondet_bool(); eqraw = nondet_bool();
	vr.optionptrs = opts; for (i = 0; i < 22; i++) opts[i] = &tag; tag.data.string = &fld[0]; tag.refcount = 1;
	vr.request.uri.host = &fld[1]; ci.local_addr_str = &fld[2]; ci.remote_addr_str = &fld[3]; vr.request.uri.path = &fld[4]; vr.physical.pathinfo = &fld[5]; vr.physical.path = &fld[6]; vr.physical.doc_root = &fld[7];
	vr.request.uri.raw_orig_path = &fld[8]; vr.request.uri.raw_path = &fld[9]; vr.request.uri.query = &fld[10]; vr.request.http_method_str = &fld[11];
	lp0 = nondet_uchar(); lp1 = nondet_uchar(); rp0 = nondet_uchar(); rp1 = nondet_uchar(); lp = lp0 * 256u + lp1; rp = rp0 * 256u + rp1;
	__CPROVER_assume(lf >= 0 && lf <= 2 && rf >= 0 && rf <= 2);
	l4.sin6_family = lf == 0 ? AF_INET : lf == 1 ? AF_INET6 : AF_UNIX; r4.sin6_family = rf == 0 ? AF_INET : rf == 1 ? AF_INET6 : AF_UNIX;
	l4.sin6_port = lp0 + 256 * lp1; r4.sin6_port = rp0 + 256 * rp1; /* same place for both families */
	ci.local_addr.addr_up.ipv6 = &l4; ci.remote_addr.addr_up.ipv6 = &r4; ci.local_addr.addr_up.ipv4 = (struct sockaddr_in*) &l4; ci.remote_addr.addr_up.ipv4 = (struct sockaddr_in*) &r4; ci.local_addr.addr_up.plain = (struct sockaddr*) &l4; ci.remote_addr.addr_up.plain = (struct sockaddr*) &r4;
#ifdef VP_HDR
	nh = nondet_int(); __CPROVER_assume(nh >= 0 && nh <= 2 && lf == 2 && rf == 2 && eqraw && vr.request.content_length < 0 && !ci.is_ssl && fld[5].len == 0);
#else
	nh = 0;
#endif
	 hs.entries.head = nh ? &hl[0] : NULL; hl[0].next = nh > 1 ? &hl[1] : NULL; hl[1].next = NULL;
	for (i = 0; i < 2; i++) {
		int j; hl[i].data = &hh[i]; hh[i].data = &hd[i]; hd[i].str = hb[i]; hh[i].keylen = nondet_uint(); __CPROVER_assume((hh[i].keylen >= 1 && hh[i].keylen <= 4) || hh[i].keylen == 12);
		hd[i].len = nondet_size(); __CPROVER_assume(hd[i].len >= hh[i].keylen + 2 && hd[i].len < 1000); for (j = 0; j < 12; j++) hb[i][j] = nondet_uchar(); hb[i][0] = nondet_bool() ? 'a' + i : 'A' + i;
		configured[i] = nondet_bool(); indup[i] = nondet_bool(); if (!configured[i]) indup[i] = 0; cfg0[i] = configured[i] ? 1 + indup[i] : 0;
	}
	cval.str = ww; cval.len = nondet_size(); lk.str = "x"; lk.len = 1; lv.str = "y"; lv.len = nondet_size(); sel = nondet_int();
#ifdef VP_HDR
	sel = -1;
#endif
	__CPROVER_assume(sel >= -1 && sel < V_N); left0 = left = 2;
	li_environment_dup2cgi(&vr, &edup, vp_cb, &have);
	VP_REACH("returns");
	VP_ENSURES(seen[V_CL] == (vr.request.content_length >= 0), "content length if known"); if (seen[V_CL]) VP_ENSURES(first == V_CL && (CFG(V_CL) || pval[V_CL] == vr.request.content_length), "content length first, exact");
	eqf(V_SOFT, &fld[0], ""); eqf(V_NAME, &fld[1], ""); eqf(V_SADDR, &fld[2], ""); eqf(V_RADDR, &fld[3], ""); eqf(V_SCRIPT, &fld[4], ""); eqf(V_PI, &fld[5], ""); eqf(V_SF, &fld[6], ""); eqf(V_DR, &fld[7], ""); eqf(V_URI, &fld[8], ""); eqf(V_QS, &fld[10], ""); eqf(V_METH, &fld[11], "");
	VP_ENSURES(seen[V_RURI] == !eqraw, "redirect uri exactly if the path was rewritten"); if (seen[V_RURI]) eqf(V_RURI, &fld[9], "");
	VP_ENSURES(seen[V_PT] == (fld[5].len > 0), "path translated exactly if there is a path info"); if (seen[V_PT] && !CFG(V_PT)) VP_ENSURES(vlen[V_PT] == fld[7].len + fld[5].len, "document root and path info");
	VP_ENSURES(seen[V_SPORT] == (lf != 2 && lp != 0), "server port"); if (seen[V_SPORT] && !CFG(V_SPORT)) VP_ENSURES(pval[V_SPORT] == (long) lp, "server port");
	VP_ENSURES(seen[V_RPORT] == (rf != 2 && rp != 0), "remote port"); if (seen[V_RPORT] && !CFG(V_RPORT)) VP_ENSURES(pval[V_RPORT] == (long) rp, "remote port");
	EQS(V_GW, "CGI/1.1"); EQS(V_RST, "200");
	if (vr.request.http_version == LI_HTTP_VERSION_1_1) { EQS(V_PROTO, "HTTP/1.1"); } else { EQS(V_PROTO, "HTTP/1.0"); }
	VP_ENSURES(seen[V_HTTPS] == !!ci.is_ssl, "https"); if (ci.is_ssl) { EQS(V_SCHEME, "https"); EQS(V_HTTPS, "on"); } else { EQS(V_SCHEME, "http"); }
	for (i = 0; i < nh && i < 2; i++) {
		int ct = hh[i].keylen == 12, j; size_t off = ct ? 0 : 5;
		VP_ENSURES(hcalls[i] == (cfg0[i] != 1), "one variable per header, unless a configured one was sent already");
		if (!hcalls[i]) continue;
		VP_ENSURES(hnlen[i] == off + hh[i].keylen && (ct || (hname[i][0] == 'H' && hname[i][1] == 'T' && hname[i][2] == 'T' && hname[i][3] == 'P' && hname[i][4] == '_')), "HTTP_ name, but for the content type");
		for (j = 0; j < 12; j++) if (j < (int) hh[i].keylen) VP_ENSURES((unsigned char) hname[i][off + j] == li_spec_cgi_char((unsigned char) hb[i][j]), "name of the header");
		if (cfg0[i] == 2) VP_ENSURES(hval[i] == ww && hvl[i] == cval.len, "configured variables win");
		else VP_ENSURES(hval[i] == hb[i] + hh[i].keylen + 2 && hvl[i] == hd[i].len - hh[i].keylen - 2, "value of the header, complete");
	}
	VP_ENSURES(lcalls == left0 && left == 0, "the remaining configured variables, each once"); VP_ENSURES(freed == 1, "copy is freed");
}
