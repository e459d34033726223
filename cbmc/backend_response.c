/* C07: framing of backend responses (real text of src/main/stream_http_response.c) */
#define _LIGHTTPD_BASE_H_GUARD
#include <lighttpd/base.h>
#include "vp.h"
#include "vp_spec.h"
size_t li_vk, li_vk2; unsigned char li_vb, li_vb2; li_ghost_t li_g;
#undef VR_ERROR
#define VR_ERROR(vr, ...) ((void) 0)
#undef VR_DEBUG
#define VR_DEBUG(vr, ...) ((void) 0)
#undef g_string_free
#define g_string_free(s, x) ((void) 0)
#undef g_ascii_isdigit
#define g_ascii_isdigit(c) ((c) >= 48 && (c) <= 57)
#undef g_assert
#define g_assert(c) __CPROVER_assert(c, "assertion in the code")
#define g_ascii_strtoll vp_strtoll
#define g_ascii_strcasecmp vp_strcasecmp
static gint64 vp_strtoll(const gchar *s, gchar **end, guint base);
static gint vp_strcasecmp(const gchar *a, const gchar *b);
#include "vp_force.h"
#include "src/main/stream_http_response.c"
#define N 3
enum { K_CL, K_TE, K_UP, K_N };
static GList links[K_N][N]; static liHttpHeader hdr[K_N][N]; static GString str[K_N][N]; static char buf[K_N][N][4]; static int cnt[K_N];
static struct { int first_digit, clean; gint64 v; int range; } cl[N]; static int te[N];
static int kof(const gchar *k, size_t l) { return l == 14 && (k[0] | 32) == 'c' ? K_CL : l == 17 && (k[0] | 32) == 't' ? K_TE : l == 7 && (k[0] | 32) == 'u' ? K_UP : -1; }
static int conn_keep, conn_close, conn_up;
GList *li_http_header_find_first(liHttpHeaders *h, const gchar *k, size_t l) { int i = kof(k, l); VP_CALLPRE(i >= 0, "known header"); return i >= 0 && cnt[i] > 0 ? &links[i][0] : NULL; }
GList *li_http_header_find_next(GList *p, const gchar *k, size_t l) { int i = kof(k, l), j; VP_CALLPRE(i >= 0, "known header"); for (j = 0; j + 1 < N; j++) if (i >= 0 && p == &links[i][j] && j + 1 < cnt[i]) return &links[i][j + 1]; return NULL; }
liHttpHeader *li_http_header_lookup(liHttpHeaders *h, const gchar *k, size_t l) { int i = kof(k, l); VP_CALLPRE(i >= 0, "known header"); return i >= 0 && cnt[i] > 0 ? &hdr[i][cnt[i] - 1] : NULL; }
gboolean li_http_header_remove(liHttpHeaders *h, const gchar *k, size_t l) { int i = kof(k, l); VP_CALLPRE(i >= 0, "known header"); if (i >= 0) cnt[i] = 0; return TRUE; }
gboolean li_http_header_is(liHttpHeaders *h, const gchar *k, size_t kl, const gchar *v, size_t vl) { VP_CALLPRE(kl == 10 && (vl == 10 || vl == 5), "connection header"); return vl == 10 ? conn_keep : conn_close; }
static int which(const gchar *p, int k) { int j; for (j = 0; j < N; j++) if (p == buf[k][j]) return j; VP_CALLPRE(0, "value of that header"); return 0; }
static char e0 = 0, e1 = 'x'; static GString tok; static char tokb[2]; static int toks;
GString *g_string_sized_new(gsize n) { tok.str = tokb; return &tok; }
void li_http_header_tokenizer_start(liHttpHeaderTokenizer *t, liHttpHeaders *h, const gchar *k, size_t kl) { VP_CALLPRE(kl == 10, "connection"); toks = 0; }
gboolean li_http_header_tokenizer_next(liHttpHeaderTokenizer *t, GString *s) { return toks++ < 1; }
int *__errno_location(void) { static int e; return &e; }
static gint64 vp_strtoll(const gchar *s, gchar **end, guint base) {
	int j = which(s, K_CL); VP_CALLPRE(base == 10, "decimal");
	*end = cl[j].clean ? &e0 : &e1;
	if (cl[j].range) errno = ERANGE;
	return cl[j].v;
}
static gint vp_strcasecmp(const gchar *a, const gchar *b) {
	if (a == tokb) { VP_CALLPRE((b[0] | 32) == 'u', "upgrade token"); return !conn_up; }
	if ((b[0] | 32) == 'i') return te[which(a, K_TE)] != 0;
	return te[which(a, K_TE)] != 1;
}
static liStreamHttpResponse shr; static liVRequest vr; static liHttpHeaders hs; static liStream drain, src; static liChunkQueue dq, sq, oq; static int n_err, n_ready, n_up, n_reset, n_disc, n_notify;
void li_vrequest_error(liVRequest *v) { n_err++; }
void li_vrequest_indirect_headers_ready(liVRequest *v) { n_ready++; }
void li_vrequest_connection_upgrade(liVRequest *v, liStream *d, liStream *s) { VP_CALLPRE(v == &vr && d == &drain && s == &shr.stream, "upgrade"); n_up++; }
void li_stream_release(liStream *s) { }
void li_stream_reset(liStream *s) { n_reset++; }
void li_stream_disconnect(liStream *s) { VP_CALLPRE(s == &shr.stream, "own stream"); n_disc++; s->source = NULL; }
void li_stream_notify(liStream *s) { n_notify++; }
static void mk(void) {
	int i, j;
	shr.vr = &vr; vr.response.headers = &hs; vr.backend_drain = &drain; drain.out = &dq; shr.stream.out = &oq; shr.stream.source = &src; src.out = &sq;
	shr.keepalive = nondet_bool(); shr.response_headers_finished = FALSE; n_err = n_ready = n_up = n_reset = n_disc = 0;
	vr.response.http_status = nondet_int(); vr.request.http_method = nondet_int();
	shr.parse_response_ctx.http_version = nondet_int(); __CPROVER_assume(shr.parse_response_ctx.http_version == LI_HTTP_VERSION_1_0 || shr.parse_response_ctx.http_version == LI_HTTP_VERSION_1_1 || shr.parse_response_ctx.http_version == LI_HTTP_VERSION_UNSET);
	conn_keep = nondet_bool(); conn_close = nondet_bool(); conn_up = nondet_bool();
	for (i = 0; i < K_N; i++) {
		cnt[i] = nondet_int(); __CPROVER_assume(cnt[i] >= 0 && cnt[i] <= N);
		for (j = 0; j < N; j++) { links[i][j].data = &hdr[i][j]; hdr[i][j].data = &str[i][j]; hdr[i][j].keylen = 0; str[i][j].str = buf[i][j] - 2; str[i][j].len = 5; buf[i][j][0] = 'x'; buf[i][j][1] = 0; }
	}
	for (j = 0; j < N; j++) {
		int big = nondet_bool(); cl[j].first_digit = nondet_bool(); cl[j].clean = nondet_bool(); cl[j].range = 0; cl[j].v = nondet_long();
		if (cl[j].first_digit) __CPROVER_assume(cl[j].v >= 0);
		if (big) { cl[j].range = 1; __CPROVER_assume(cl[j].v == G_MAXINT64 || (cl[j].v == G_MININT64 && !cl[j].first_digit)); }
		buf[K_CL][j][0] = cl[j].first_digit ? '0' + (nondet_uchar() & 7) : nondet_bool() ? '+' : nondet_bool() ? '-' : nondet_bool() ? ' ' : 'x';
		te[j] = nondet_int(); __CPROVER_assume(te[j] >= 0 && te[j] <= 2);
	}
	*__errno_location() = nondet_bool() ? ERANGE : 0;
}
void h_check(void) {
	int j, err = 0, chunked = 0, up = 0, nobody, wait = 0, ncl; gint64 v = -1;
	mk(); ncl = cnt[K_CL]; up = cnt[K_UP] > 0; nobody = vr.request.http_method == LI_HTTP_METHOD_HEAD || vr.response.http_status == 204 || vr.response.http_status == 304;
	for (j = 0; j < cnt[K_TE] && j < N; j++) { if (te[j] == 2 || (te[j] == 1 && chunked)) err = 1; if (te[j] == 1) chunked = 1; }
	if (up && (vr.response.http_status != 101 || chunked || !conn_up)) err = 1;
	if (!up && !chunked && shr.keepalive) {
		for (j = 0; j < ncl && j < N; j++) {
			if (!cl[j].first_digit || !cl[j].clean || cl[j].range || (v >= 0 && cl[j].v != v)) err = 1;
			v = cl[j].v;
		}
		if (ncl == 0) { /* only the end of the connection is left */
			wait = 1;
			if (shr.parse_response_ctx.http_version == LI_HTTP_VERSION_UNSET || (shr.parse_response_ctx.http_version == LI_HTTP_VERSION_1_0 && conn_keep)) err = 1;
		}
	}
	if (!shr.keepalive && !chunked) wait = 1;

	check_response_header(&shr);
	VP_REACH("returns"); if (n_ready && shr.transfer_encoding_chunked) VP_REACH("chunked"); if (n_ready && shr.content_length > 0) VP_REACH("length"); if (n_up) VP_REACH("upgraded"); if (n_ready && shr.wait_for_close) VP_REACH("until close");
	VP_ENSURES(n_err == err && n_ready + n_up == !err, "headers are passed on exactly if the framing is valid and unambiguous");
	VP_ENSURES(n_up == (up && !err), "upgrade only with 101 and connection: upgrade");
	if (n_ready) {
		VP_ENSURES(shr.response_headers_finished, "headers done");
		VP_ENSURES(cnt[K_TE] == 0, "transfer-encoding of the backend is not passed on");
		VP_ENSURES(!chunked || cnt[K_CL] == 0, "content-length is void with transfer-encoding");
		VP_ENSURES(!!shr.transfer_encoding_chunked == (chunked && !nobody), "body is decoded exactly if it is chunked");
		if (nobody) VP_ENSURES(shr.wait_for_close, "no body: nothing is waited for");
		else if (!chunked && shr.keepalive && ncl) VP_ENSURES(!shr.wait_for_close && shr.content_length == v, "body of content-length bytes");
		else if (!chunked) VP_ENSURES(shr.wait_for_close && wait, "body ends with the connection");
	}
}
/* ---- body */
static goffset moved; static int dec_ok, dec_done;
goffset li_chunkqueue_steal_all(liChunkQueue *o, liChunkQueue *i) { VP_CALLPRE(o == &oq && i == &sq, "from the backend to the response"); moved += i->length; o->length += i->length; i->length = 0; return moved; }
goffset li_chunkqueue_steal_len(liChunkQueue *o, liChunkQueue *i, goffset n) { VP_CALLPRE(o == &oq && i == &sq && n >= 0, "from the backend to the response"); if (n > i->length) n = i->length; moved += n; o->length += n; i->length -= n; return n; }
/* contract of C02 */
gboolean li_filter_chunked_decode(liVRequest *v, liChunkQueue *o, liChunkQueue *i, liFilterChunkedDecodeState *s) {
	VP_CALLPRE(o == &oq && i == &sq && s == &shr.chunked_decode_state, "from the backend to the response");
	dec_ok = nondet_bool(); dec_done = nondet_bool(); if (!dec_ok) return FALSE;
	if (i->is_closed) __CPROVER_assume(dec_done); /* a body that ends early is an error */
	if (dec_done) o->is_closed = TRUE;
	return TRUE;
}
void h_data(void) {
	goffset cl0, s0; int sclosed, mode = nondet_int();
	mk(); shr.response_headers_finished = TRUE; dec_ok = 1; dec_done = 0; moved = 0;
	if (nondet_bool()) shr.vr = NULL;
	shr.transfer_encoding_chunked = mode == 0; shr.wait_for_close = mode == 1; if (mode == 0) shr.wait_for_close = nondet_bool();
	shr.content_length = cl0 = nondet_long(); __CPROVER_assume(mode <= 1 || cl0 >= 0);
	sq.length = s0 = nondet_long(); oq.length = nondet_long(); __CPROVER_assume(s0 >= 0 && s0 < ((goffset) 1 << 61) && oq.length >= 0 && oq.length < ((goffset) 1 << 61));
	sq.is_closed = sclosed = nondet_bool(); oq.is_closed = FALSE;
	__CPROVER_assume(mode >= 0 && mode <= 2);
	stream_http_response_data(&shr);
	VP_REACH("returns"); if (mode == 2 && oq.is_closed) VP_REACH("length complete"); if (n_err) VP_REACH("error");
	{ int bad = n_err + n_reset; gboolean fin = mode == 0 ? dec_ok && dec_done : mode == 1 ? sclosed : s0 >= cl0;
	VP_ENSURES(!!oq.is_closed == !!fin, "the body is complete exactly when all of it arrived");
	VP_ENSURES(bad == (mode == 0 ? !dec_ok : mode == 1 ? 0 : sclosed && s0 < cl0), "a body that is cut short or malformed is an error");
	VP_ENSURES(mode == 0 || moved == (mode == 1 ? s0 : s0 < cl0 ? s0 : cl0), "never passes on more than the body");
	VP_ENSURES(mode != 2 || shr.content_length == cl0 - moved, "counts what is missing");
	VP_ENSURES(!oq.is_closed || mode == 0 || n_disc == 1, "leaves the backend when done");
	VP_ENSURES(n_reset == 0 || shr.vr == NULL, "reports errors to the request"); }
}
