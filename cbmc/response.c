/* C07: li_response_send_headers (real text of src/main/response.c): head and framing of every response */
#define _LIGHTTPD_BASE_H_GUARD
#include <lighttpd/base.h>
#include <lighttpd/plugin_core.h>
#include <stdarg.h>
#include "vp.h"
#include "vp_spec.h"
size_t li_vk, li_vk2; unsigned char li_vb, li_vb2; li_ghost_t li_g;
#undef VR_ERROR
#define VR_ERROR(vr, ...) ((void) 0)
#undef CORE_OPTIONPTR
#define CORE_OPTIONPTR(idx) (vp_ov.data)
static liOptionPtrValue vp_ov;
#define g_string_printf vp_printf
#define g_string_sized_new vp_sized_new
static void vp_printf(GString *s, const char *fmt, ...); static GString *vp_sized_new(gsize n);
#include "src/main/response.c"
#include "src/main/lighttpd_glue.c"
GList *g_queue_peek_head_link(GQueue *q) { return q->head; }
#define NH 3
static liVRequest vr; static liWorker wrk; static liConInfo ci; static liHttpHeaders rsh; static liChunkQueue raw, body, tmpq; static GString tmp, head, html, tag, date; static char tmpb[2], bufb[2], tagb[2], dateb[2];
static goffset tmp_num; static int n_sized, tmpq_live;
/* the framing headers: count and value (-1: whatever the application set) */
static int ncl; static goffset clv; static int nte;
/* other headers in the list, as printed */
static GList hl[NH]; static liHttpHeader hh[NH]; static GString hs[NH]; static char hb[NH][2]; static int hk[NH], nh; /* 0 other 1 connection 2 date 3 server */
static int kof(const gchar *k, size_t l) { return l == 14 && (k[8] == 'L' || k[8] == 'l') ? 1 : l == 17 && (k[0] | 32) == 't' ? 2 : 0; }
gboolean li_http_header_remove(liHttpHeaders *h, const gchar *k, size_t l) { VP_CALLPRE(h == &rsh, "response header"); if (kof(k, l) == 1) ncl = 0; if (kof(k, l) == 2) nte = 0; return TRUE; }
static goffset val(const gchar *v, size_t vl) { if (v == tmp.str) { VP_CALLPRE(vl == tmp.len, "value"); return tmp_num; } return vl == 1 && v[0] == '0' ? 0 : -2; }
void li_http_header_insert(liHttpHeaders *h, const gchar *k, size_t kl, const gchar *v, size_t vl) { VP_CALLPRE(h == &rsh, "response header"); if (kof(k, kl) == 1) { ncl++; clv = val(v, vl); } if (kof(k, kl) == 2) { VP_CALLPRE(vl == 7 && v[0] == 'c', "chunked"); nte++; } }
void li_http_header_append(liHttpHeaders *h, const gchar *k, size_t kl, const gchar *v, size_t vl) { VP_CALLPRE(kof(k, kl) != 1 || ncl == 0, "content-length is not a list"); li_http_header_insert(h, k, kl, v, vl); }
void li_http_header_overwrite(liHttpHeaders *h, const gchar *k, size_t kl, const gchar *v, size_t vl) { VP_CALLPRE(h == &rsh, "response header"); if (kof(k, kl) == 1) { if (!ncl) ncl = 1; clv = val(v, vl); } if (kof(k, kl) == 2) { VP_CALLPRE(vl == 7 && v[0] == 'c', "chunked"); nte = 1; } }
static GList vp_link;
GList *li_http_header_find_first(liHttpHeaders *h, const gchar *k, size_t l) { return (kof(k, l) == 1 && ncl) || (kof(k, l) == 2 && nte) ? &vp_link : NULL; }
GList *li_http_header_find_last(liHttpHeaders *h, const gchar *k, size_t l) { return li_http_header_find_first(h, k, l); }
gboolean li_http_header_key_is(liHttpHeader *h, const gchar *k, size_t l) { int j; for (j = 0; j < NH; j++) if (h == &hh[j]) return hk[j] == (l == 10 ? 1 : l == 4 ? 2 : l == 6 ? 3 : -1); return FALSE; }
/* the printed head */
static int sol, ended, lines, ver, conn, dates, servers, printed, bad, stpos; static char st[3];
void vp_len_add(GString *s, gsize n) { s->len += n; }
GString *vp_append_len(GString *s, const gchar *v, gssize n) {
	VP_CALLPRE(s == &head || s == &html, "head or error page");
	s->len += n;
	if (s != &head) return s;
	VP_CALLPRE(!ended, "nothing behind the empty line");
	if (n == 2 && v[0] == '\r' && v[1] == '\n') { if (sol) ended = 1; else { sol = 1; lines++; } return s; }
	if (lines == 0 && stpos == 0) { VP_CALLPRE(n == 9 && v[0] == 'H' && v[4] == '/' && v[5] == '1' && v[6] == '.' && v[8] == ' ', "status line first"); ver = v[7]; stpos = 1; sol = 0; return s; }
	if (stpos == 1) { VP_CALLPRE(n >= 3, "status code"); st[0] = v[0]; st[1] = v[1]; st[2] = v[2]; VP_CALLPRE(n == 3 || v[3] == ' ', "space behind it"); stpos = 2; return s; }
	if (sol && v != hb[0] && v != hb[1] && v != hb[2]) {
		if (v[0] == 'C') { VP_CALLPRE(conn == 0, "one connection header"); conn = v[12]; VP_CALLPRE(n > 14 && v[n - 2] == '\r' && v[n - 1] == '\n', "whole line"); lines++; return s; }
		if (v[0] == 'D') { dates++; VP_CALLPRE(n == 6, "Date"); }
		else if (v[0] == 'S') { servers++; VP_CALLPRE(n == 8, "Server"); }
		else VP_CALLPRE(0, "known line");
	} else if (sol) {
		int j; for (j = 0; j < NH; j++) if (v == hb[j]) { if (hk[j] == 1) bad = 1; if (hk[j] == 2) dates++; if (hk[j] == 3) servers++; VP_CALLPRE(n == hs[j].len, "whole header"); }
		printed++;
	}
	sol = 0; /* anything else continues the line */
	return s;
}
static GString *vp_sized_new(gsize n) { GString *s = n_sized == 0 ? &head : &html; n_sized++; VP_CALLPRE(n_sized <= 2, "two strings"); s->len = 0; return s; }
static void vp_printf(GString *s, const char *fmt, ...) { va_list a; va_start(a, fmt); VP_CALLPRE(s == &tmp, "temporary string"); tmp_num = va_arg(a, goffset); tmp.len = 7; va_end(a); }
GString *li_worker_current_timestamp(liWorker *w, liTimeFunc f, guint i) { return &date; }
#undef assert
/* queues: lengths only (contracts of C03) */
static goffset head_at; static int head_app;
liChunkQueue *li_chunkqueue_new(void) { VP_CALLPRE(!tmpq_live, "one temporary queue"); tmpq_live = 1; tmpq.length = 0; tmpq.is_closed = FALSE; return &tmpq; }
void li_chunkqueue_free(liChunkQueue *q) { VP_CALLPRE(q == &tmpq && tmpq_live == 1, "frees its own queue"); tmpq_live = 2; }
void li_chunkqueue_append_string(liChunkQueue *q, GString *s) { if (s == &head) { VP_CALLPRE(q == &raw && ended && head_app == 0, "complete head"); head_app = 1; head_at = q->length; } else VP_CALLPRE(s == &html && q != &raw, "page is not put before the head"); q->length += s->len; }
goffset li_chunkqueue_skip_all(liChunkQueue *q) { goffset n = q->length; q->length = 0; return n; }
goffset li_chunkqueue_steal_all(liChunkQueue *o, liChunkQueue *i) { goffset n = i->length; VP_CALLPRE(o == &raw && head_app, "behind the head"); o->length += n; i->length = 0; return n; }
#define NOBODY(s) (((s) >= 100 && (s) < 200) || (s) == 204 || (s) == 205 || (s) == 304)
void h_send(void) {
	int j, s0 = nondet_int(), ka0 = nondet_bool(), havebody = nondet_bool(), up = nondet_bool(), ncl0 = nondet_int(), page, is_head, v11, wrong, closed0; goffset len0, raw0; int s;
	vr.wrk = &wrk; wrk.tmp_str = &tmp; vr.coninfo = &ci; vr.response.headers = &rsh;
	tmp.str = tmpb; head.str = bufb; html.str = bufb; tag.str = tagb; tag.len = nondet_size(); date.str = dateb; date.len = 29; __CPROVER_assume(tag.len < 1000);
	vp_ov.data.string = &tag;
	vr.response.http_status = s0; vr.response.transfer_encoding = LI_HTTP_TRANSFER_ENCODING_IDENTITY; ci.keep_alive = ka0;
	vr.request.http_method = nondet_int(); vr.request.http_version = nondet_int(); __CPROVER_assume(vr.request.http_version == LI_HTTP_VERSION_1_0 || vr.request.http_version == LI_HTTP_VERSION_1_1 || vr.request.http_version == LI_HTTP_VERSION_UNSET);
	is_head = vr.request.http_method == LI_HTTP_METHOD_HEAD; v11 = vr.request.http_version == LI_HTTP_VERSION_1_1;
	body.length = len0 = nondet_long(); body.is_closed = closed0 = nondet_bool(); raw.length = raw0 = nondet_long(); raw.is_closed = FALSE;
	__CPROVER_assume(len0 >= 0 && len0 < ((goffset) 1 << 62) && raw0 >= 0 && raw0 < ((goffset) 1 << 61) && ncl0 >= 0 && ncl0 <= 2);
	if (up) __CPROVER_assume(s0 == 101 && !havebody && !ka0); /* how mainvr_connection_upgrade calls it */
	/* without a body stream it is called for refused requests only */
	if (!up && !havebody) __CPROVER_assume(s0 >= 400 && s0 < 600);
	ncl = ncl0; clv = -1; nte = 0;
	nh = nondet_int(); __CPROVER_assume(nh >= 0 && nh <= NH);
	for (j = 0; j < NH; j++) { hl[j].data = &hh[j]; hl[j].next = j + 1 < nh ? &hl[j + 1] : NULL; hh[j].data = &hs[j]; hs[j].str = hb[j]; hs[j].len = nondet_size(); __CPROVER_assume(hs[j].len >= 3 && hs[j].len < 10000); hk[j] = nondet_int(); __CPROVER_assume(hk[j] >= 0 && hk[j] <= 3); }
	rsh.entries.head = nh ? &hl[0] : NULL; rsh.entries.tail = nh ? &hl[nh - 1] : NULL; rsh.entries.length = nh;
	sol = ended = lines = ver = conn = dates = servers = printed = bad = stpos = n_sized = tmpq_live = head_app = 0;

	li_response_send_headers(&vr, &raw, havebody ? &body : NULL, up);

	s = vr.response.http_status; wrong = s0 < 100 || s0 > 999;
	page = s >= 400 && s < 600 && (wrong || !havebody || (len0 == 0 && closed0));
	VP_REACH("returns"); if (nte) VP_REACH("chunked"); if (page) VP_REACH("error page"); if (up) VP_REACH("upgraded"); if (ncl && clv == len0 && len0 > 0) VP_REACH("length");
	VP_ENSURES(s == (wrong ? 500 : s0), "status between 100 and 999, otherwise 500");
	VP_ENSURES(!wrong || !ci.keep_alive, "internal errors close the connection");
	VP_ENSURES(head_app == 1 && head_at == raw0, "exactly one head, before anything of the body");
	VP_ENSURES(ver == (v11 ? '1' : '0'), "version of the request");
	VP_ENSURES(st[0] == '0' + s / 100 && st[1] == '0' + s / 10 % 10 && st[2] == '0' + s % 10, "status code in the status line");
	VP_ENSURES(up ? conn == 'U' : v11 ? conn == (ci.keep_alive ? 0 : 'c') : conn == (ci.keep_alive ? 'k' : 0), "connection header tells exactly whether the connection stays open");
	VP_ENSURES(!bad, "connection headers of backends are dropped");
	VP_ENSURES(dates >= 1, "has a date");
	{ int j2, other = 0; for (j2 = 0; j2 < nh && j2 < NH; j2++) if (hk[j2] != 1) other++; VP_ENSURES(printed == other, "all other headers are sent"); }
	VP_ENSURES(!ci.keep_alive || ka0, "keep-alive is never switched on");
	/* framing */
	VP_ENSURES(!(nte && ncl), "never both transfer-encoding and content-length");
	VP_ENSURES(nte <= 1, "chunked once");
	VP_ENSURES(!!(vr.response.transfer_encoding & LI_HTTP_TRANSFER_ENCODING_CHUNKED) == !!nte, "announced as chunked exactly if it will be encoded");
	if (NOBODY(s)) {
		VP_ENSURES(!nte && (s == 304 || ncl == (s == 205)) && (s != 205 || clv == 0), "bodyless status: no length but 0 for 205");
		VP_ENSURES(up || raw.is_closed, "bodyless: response is complete");
		VP_ENSURES(!havebody || body.length == 0, "bodyless: body is dropped");
	} else if (page) {
		VP_ENSURES(raw.is_closed, "the error page is the complete response");
		VP_ENSURES(ncl == 1 && clv == html.len && !nte, "length of the error page");
		VP_ENSURES(raw.length == raw0 + head.len + (is_head ? 0 : html.len), "head and page are sent, nothing else");
	} else if (closed0) {
		VP_ENSURES(!nte && ((ncl == 1 && clv == len0) || (is_head && len0 == 0)), "complete response: its exact length, once");
		VP_ENSURES(ci.keep_alive == ka0, "complete response: connection may stay open");
	} else if (ka0 && v11) {
		VP_ENSURES(is_head || (nte == 1 && ncl == 0), "unknown length: chunked");
		VP_ENSURES(ci.keep_alive, "chunked response: connection may stay open");
	} else {
		VP_ENSURES(!nte && !ci.keep_alive, "unknown length and no chunked encoding: ends with the connection");
	}
	VP_ENSURES(!ci.keep_alive || is_head || NOBODY(s) || nte == 1 || (ncl == 1 && clv >= 0), "connection stays open: client can tell where the body ends");
	if (!page) VP_ENSURES(raw.length == raw0 + head.len, "only the head is sent here");
	if (is_head) VP_ENSURES((up || raw.is_closed) && (!havebody || wrong || page || body.length == 0), "HEAD: no body");
	if (!page && !NOBODY(s) && !is_head) VP_ENSURES(!raw.is_closed && (!havebody || body.length == len0), "body is left for the encoder");
	VP_ENSURES(tmpq_live != 1, "temporary queue freed");
}
