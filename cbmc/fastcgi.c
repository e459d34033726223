/* C14: FastCGI records written and read (real text of src/modules/fastcgi_stream.c) */
#include <lighttpd/base.h>
#include <lighttpd/plugin_core.h>
#include "vp.h"
#include "vp_spec.h"
size_t li_vk, li_vk2; unsigned char li_vb, li_vb2; li_ghost_t li_g; li_fc_t li_fc; li_fc0_t li_fc0; li_fd_t li_fd;
static liIOStream ios;
#define LI_SPEC_FCGI_IOSTREAM (&ios)
#define LI_SPEC_FCGI_CON (&ccon)
#include "vp_force.h"
#undef ERROR
#undef WARNING
#define ERROR(s, ...) ((void) 0)
#define WARNING(s, ...) ((void) 0)
#undef g_string_free
#define g_string_free(s, x) ((void) 0)
#undef g_string_new
#define g_string_new(x) (&vp_str)
static GString vp_str;
#define li_worker_from_iostream vp_worker
static liWorker *vp_worker(liIOStream *s);
struct liFastCGIBackendConnection_p; static struct liFastCGIBackendConnection_p ccon;
#include "src/modules/fastcgi_stream.c"
static liWorker wrk; static liWorker *vp_worker(liIOStream *s) { return &wrk; }
#undef li_worker_from_iostream
/* ---- byte arrays: up to 64 bytes by value; longer appends by pointer */
static GByteArray arr[2]; static int narr; static guint8 mem[2][64]; static const guint8 *ptr[4]; static guint plen[4]; static int nptr; static guint freed;
static liChunkQueue oq, iq; static GByteArray *queued[4]; static int nq;
#ifdef VP_BIG
GByteArray *g_byte_array_sized_new(guint n) { return &arr[0]; }
#else
GByteArray *g_byte_array_sized_new(guint n) { GByteArray *a = &arr[narr < 1 ? narr : 1]; narr++; a->data = mem[a - arr]; a->len = 0; return a; }
#endif
GByteArray *g_byte_array_set_size(GByteArray *a, guint n) { VP_CALLPRE(n <= 64, "small"); a->len = n; return a; }
guint8 *g_byte_array_free(GByteArray *a, gboolean x) { freed++; return NULL; }
#ifndef VP_BIG
GByteArray *g_byte_array_append(GByteArray *a, const guint8 *p, guint n) {
	guint i; if (nptr < 4) { ptr[nptr] = p; plen[nptr] = n; } nptr++;
#ifndef VP_BYTEARR
	if (n <= 8) for (i = 0; i < 8; i++) if (i < n && a->len + i < 64) a->data[a->len + i] = p[i];
#endif
	a->len += n; return a;
}
void li_chunkqueue_append_bytearr(liChunkQueue *q, GByteArray *a) { VP_CALLPRE(q == &oq, "output queue"); if (nq < 4) queued[nq] = a; nq++; q->length += a->len; }
#endif
static unsigned u16(const guint8 *p) { return p[0] * 256u + p[1]; }
#ifdef VP_RECORD
void h_record(void) {
	guint8 type = nondet_uchar(), pad; guint16 id = nondet_uint(), len = nondet_uint(); const guint8 *b;
	pad = stream_send_fcgi_record(&oq, type, id, len); VP_REACH("returns");
	VP_ENSURES(nq == 1 && queued[0] == &arr[0] && arr[0].len == 8, "exactly one 8 byte header is queued");
	b = mem[0];
	VP_ENSURES(b[0] == 1 && b[1] == type && u16(b + 2) == id && u16(b + 4) == len && b[6] == pad && b[7] == 0, "header: version, type, id, content length, padding length");
	VP_ENSURES(pad < 8 && (len + pad) % 8 == 0, "records are padded to 8 bytes");
}
void h_begin(void) {
	const guint8 *b = mem[0]; int i;
	stream_send_begin(&oq, 1); VP_REACH("returns");
	VP_ENSURES(nq == 1 && arr[0].len == 16, "one 16 byte record");
	VP_ENSURES(b[0] == 1 && b[1] == 1 && u16(b + 2) == 1 && u16(b + 4) == 8 && b[6] == 0 && b[7] == 0 && u16(b + 8) == 1 && b[10] == 0, "begin request, responder, no keep-alive");
	for (i = 11; i < 16; i++) VP_ENSURES(b[i] == 0, "reserved bytes are 0");
}
void h_kv(void) {
	GByteArray a; guint8 m[64]; char k[1], v[1]; size_t kl = nondet_size(), vl = nondet_size(); gboolean ok; guint l0, n = 0, i; unsigned long w; size_t ls[2];
	a.data = m; a.len = 0; ls[0] = kl; ls[1] = vl; nptr = 0;
	__CPROVER_assume(kl > 8 && vl > 8); /* small ones: h_kv_small */
	ok = append_key_value_pair(&a, k, kl, v, vl); VP_REACH("returns");
	VP_ENSURES(!!ok == (kl <= 0x7fffffff && vl <= 0x7fffffff), "pairs are refused only if a length needs more than 31 bits");
	if (!ok) { VP_REACH("too long"); return; }
	for (i = 0; i < 2; i++) {
		if (ls[i] < 128) { VP_ENSURES(m[n] == ls[i], "short length: one byte"); n++; }
		else { w = ((unsigned long) (m[n] & 127) << 24) | (m[n + 1] << 16) | (m[n + 2] << 8) | m[n + 3]; VP_ENSURES((m[n] & 128) && w == ls[i], "long length: four bytes, big endian, top bit"); n += 4; }
	}
	VP_ENSURES(nptr == 4 && (const char*) ptr[2] == k && plen[2] == kl && (const char*) ptr[3] == v && plen[3] == vl, "name, then value, each exactly once and complete");
	VP_ENSURES(a.len == (guint) (n + kl + vl), "nothing else");
}
void h_kv_small(void) {
	GByteArray a; guint8 m[64]; guint8 k[8], v[8]; size_t kl = nondet_size(), vl = nondet_size(), i;
	__CPROVER_assume(kl <= 8 && vl <= 8); a.data = m; a.len = 0;
	VP_ENSURES(append_key_value_pair(&a, (char*) k, kl, (char*) v, vl), "accepted"); VP_REACH("returns");
	VP_ENSURES(a.len == 2 + kl + vl && m[0] == kl && m[1] == vl, "lengths");
	for (i = 0; i < 8; i++) { if (i < kl) VP_ENSURES(m[2 + i] == k[i], "name"); if (i < vl) VP_ENSURES(m[2 + kl + i] == v[i], "value"); }
}
#endif
#ifdef VP_BYTEARR
static guint8 xtype; static guint16 xid; static char dd[1]; static int big, recs; static guint announced, n0;
void vp_send_data(liChunkQueue *o, guint8 type, guint16 id, const gchar *d, size_t n) { VP_CALLPRE(o == &oq && type == xtype && id == xid && d == dd && n == n0 && !big && !recs, "all data, once"); big++; }
guint8 vp_rec(liChunkQueue *o, guint8 type, guint16 id, guint16 len) { VP_CALLPRE(o == &oq && type == xtype && id == xid && !big && !recs, "one record"); recs++; announced = len; return (8 - len % 8) % 8; }
void h_bytearr(void) {
	GByteArray a; n0 = nondet_uint(); a.data = (guint8*) dd; a.len = n0; xtype = nondet_uchar(); xid = nondet_uint();
	__CPROVER_assume(n0 > 0 && n0 < 0xfffffff0u);
	stream_send_bytearr(&oq, xtype, xid, &a); VP_REACH("returns"); if (big) VP_REACH("several records");
	VP_ENSURES(big + recs == 1, "sent exactly once");
	if (big) VP_ENSURES(freed == 1 && nq == 0, "the array is freed");
	else VP_ENSURES(announced == n0 && freed == 0 && nq == 1 && queued[0] == &a && nptr == 1 && ptr[0] == (const guint8*) __padding && plen[0] == (8 - n0 % 8) % 8 && a.len == n0 + plen[0], "one record announcing all data, then the data and its padding");
}
#endif
#ifdef VP_BIG
/* contract of stream_send_fcgi_record (unit fcgi_record) */
static const guint8 *dp; static guint dn, pn; static guint8 xtype; static guint16 xid; static GByteArray *cur;
guint8 vp_rec(liChunkQueue *o, guint8 type, guint16 id, guint16 len) {
	VP_CALLPRE(o == &oq && type == xtype && id == xid, "same stream"); VP_CALLPRE(li_fc.want == 0 && li_fc.pad == 0, "previous record is complete"); VP_CALLPRE(len > 0, "an empty record would end the stream");
	li_fc.want = len; li_fc.pad = (8 - len % 8) % 8; li_fc.records++; return li_fc.pad;
}
GByteArray *g_byte_array_append(GByteArray *a, const guint8 *p, guint n) {
	if (p == (const guint8*) __padding) { VP_CALLPRE(n == li_fc.pad, "padding length as announced"); li_fc.pad -= n; li_fc.padded = 1; }
	else { VP_CALLPRE(li_fc.want == n && (const char*) p == li_fc0.base + li_fc.sent, "the next bytes, as many as announced"); li_fc.got = n; li_fc.padded = 0; }
	return a;
}
void li_chunkqueue_append_bytearr(liChunkQueue *q, GByteArray *a) { VP_CALLPRE(q == &oq && li_fc.got == li_fc.want && li_fc.padded && li_fc.pad == 0, "complete record"); li_fc.sent += li_fc.want; li_fc.want = 0; li_fc.got = 0; }
void h_send_data(void) {
	size_t n = nondet_size(); static char d[1]; __CPROVER_assume(n <= 0xffffffffu);
#ifdef VP_BOUNDED
	__CPROVER_assume(n <= 3 * 65535);
#endif
	xtype = nondet_uchar(); xid = nondet_uint(); li_fc0.base = d; li_fc0.total = n; li_fc.sent = 0; li_fc.want = li_fc.pad = 0; li_fc.padded = li_fc.got = 0;
	stream_send_data(&oq, xtype, xid, d, n); VP_REACH("returns");
	VP_ENSURES(li_fc.sent == n && li_fc.want == 0 && li_fc.pad == 0, "all data in complete records, once and in order");
}
goffset li_chunkqueue_steal_len(liChunkQueue *o, liChunkQueue *i, goffset n) {
	VP_CALLPRE(o == &oq && i == &iq && n == li_fc.want && n <= i->length, "the announced bytes");
	i->length -= n; li_fc.sent += n; li_fc.want = 0; return n;
}
void li_chunkqueue_append_mem(liChunkQueue *o, gconstpointer p, gssize n) { VP_CALLPRE(o == &oq && p == __padding && n == li_fc.pad && li_fc.want == 0, "padding as announced, behind the data"); li_fc.pad = 0; }
void h_send_chunks(void) {
	goffset n = nondet_long(); __CPROVER_assume(n >= 0);
#ifdef VP_BOUNDED
	__CPROVER_assume(n <= 3 * 65535);
#endif
	xtype = nondet_uchar(); xid = nondet_uint(); iq.length = n; li_fc0.total = n; li_fc.sent = 0; li_fc.want = li_fc.pad = 0;
	stream_send_chunks(&oq, xtype, xid, &iq); VP_REACH("returns");
	VP_ENSURES(li_fc.sent == (size_t) n && iq.length == 0 && li_fc.want == 0 && li_fc.pad == 0, "the whole body in complete records");
}
#endif
#ifdef VP_DECODE
void abort(void) { VP_CALLPRE(0, "never aborts"); __CPROVER_assume(0); }
static liFastCGIBackendContext ctx; static liFastCGIBackendPool_p pool; static liChunkQueue inq, outq; static liFastCGIBackendCallbacks cbs; static int n_close;
void vp_reset(liFastCGIBackendContext *c) { VP_CALLPRE(c == &ctx, "own context"); li_fd.reset = 1; c->iostream = NULL; }
gboolean li_chunkqueue_extract_to_memory(liChunkQueue *q, goffset n, void *m, GError **e) {
	VP_CALLPRE(q == &inq && n == 8 && n <= q->length, "8 bytes are there");
#define P(i) li_fd.peek[i] = nondet_uchar(); ((unsigned char*) m)[i] = li_fd.peek[i];
	P(0) P(1) P(2) P(3) P(4) P(5) P(6) P(7)
	li_fd.peekn = 8; return TRUE;
}
gboolean li_chunkqueue_extract_to(liChunkQueue *q, goffset n, GString *s, GError **e) { VP_CALLPRE(q == &inq && n <= q->length && s == &vp_str && li_fd.type == 7 && n <= li_fd.content, "bytes of the stderr record"); return TRUE; }
goffset li_chunkqueue_skip(liChunkQueue *q, goffset n) {
	VP_CALLPRE(q == &inq && n >= 0, "input");
	if (n == 0) return 0;
	if (li_fd.content > 0) {
		VP_CALLPRE(li_fd.type != 6, "stdout data is never dropped"); VP_CALLPRE(n <= li_fd.content, "not beyond the record");
		if (n > q->length) n = q->length; q->length -= n; li_fd.content -= n;
		if (li_fd.type == 3) { VP_CALLPRE(li_fd.peekn == 8 && n == 8, "end request record was read"); li_fd.peekn = 0; if (li_fd.peek[4] == 0) li_fd.done = li_fd.eof = 1; }
	} else if (li_fd.pad > 0) {
		VP_CALLPRE(n <= li_fd.pad, "not beyond the padding"); if (n > q->length) n = q->length; q->length -= n; li_fd.pad -= n;
	} else {
		VP_CALLPRE(n == 8 && li_fd.peekn == 8 && q->length >= 8, "record header was read"); q->length -= 8; li_fd.peekn = 0;
		li_fd.type = li_fd.peek[1]; li_fd.clen = li_fd.content = u16(li_fd.peek + 4); li_fd.pad = li_fd.peek[6];
		if (li_fd.peek[0] == 1 && li_fd.type == 6) { if (li_fd.content == 0) li_fd.eof = 1; else li_fd.stdout_in += li_fd.content; }
	}
	return n;
}
goffset li_chunkqueue_steal_len(liChunkQueue *o, liChunkQueue *q, goffset n) {
	VP_CALLPRE(o == &outq && q == &inq && li_fd.type == 6 && n <= li_fd.content && n >= 0, "only content of stdout records becomes the response");
	VP_CALLPRE(!li_fd.eof, "nothing behind the end of stdout");
	if (n > q->length) n = q->length; q->length -= n; li_fd.content -= n; li_fd.stdout_out += n; return n;
}
void li_stream_notify_later(liStream *s) { VP_CALLPRE(s == &ctx.fcgi_in, "own stream"); }
void li_stream_simple_socket_close(liIOStream *s, gboolean a) { VP_CALLPRE(s == &ios, "own stream"); n_close++; }
void vp_end_cb(liVRequest *v, liFastCGIBackendPool *p, liFastCGIBackendConnection *c, guint32 s) { VP_CALLPRE(c == &ccon.public, "this request"); li_fd.ends++; ctx.currentcon = NULL; if (nondet_bool()) ctx.iostream = NULL; }
void vp_err_cb(liVRequest *v, liFastCGIBackendPool *p, liFastCGIBackendConnection *c, GString *s) { VP_CALLPRE(li_fd.type == 7 && s == &vp_str, "stderr record"); }
#ifdef VP_BOUNDED
#define MAXIN 16
#else
#define MAXIN ((goffset) 1 << 60)
#endif
void h_decode(void) {
	goffset l; int closed, c0;
	ctx.pool = &pool; pool.callbacks = &cbs; cbs.end_request_cb = vp_end_cb; cbs.fastcgi_stderr_cb = vp_err_cb; ctx.iostream = &ios; ios.stream_in.out = &inq; ctx.fcgi_in.out = &outq; ctx.currentcon = nondet_bool() ? &ccon : NULL; li_fc0.cur = ctx.currentcon != NULL;
	inq.length = l = nondet_long(); __CPROVER_assume(l >= 0 && l <= MAXIN); inq.is_closed = closed = nondet_bool();
	li_fd.type = nondet_uchar(); li_fd.clen = nondet_int(); li_fd.content = nondet_int(); li_fd.pad = nondet_int(); li_fd.eof = nondet_bool(); li_fd.done = nondet_bool(); li_fd.reset = 0; li_fd.peekn = 0; n_close = 0; li_fd.ends = 0; li_fc0.total = l; li_fc0.done = li_fd.done;
	li_fd.stdout_out = nondet_size(); li_fd.stdout_in = li_fd.stdout_out + (li_fd.type == 6 ? li_fd.content : 0);
	ctx.type = li_fd.type; ctx.contentLength = li_fd.clen; ctx.remainingContent = li_fd.content; ctx.remainingPadding = li_fd.pad; ctx.stdout_closed = li_fd.eof; ctx.stderr_closed = nondet_bool(); ctx.request_done = outq.is_closed = li_fd.done;
	if (li_fd.done) { ctx.currentcon = NULL; li_fc0.cur = 0; }
	VP_REQUIRES(LI_SPEC_FCGI_DECODE(&ctx, &inq));
	if (li_fd.done) __CPROVER_assume(ctx.stderr_closed);
	c0 = li_fd.done;
	fastcgi_decode(&ctx);
	VP_REACH("returns"); if (li_fd.reset) VP_REACH("reset"); if (li_fd.done && !c0) VP_REACH("end of the request"); if (closed && outq.is_closed && !li_fd.done) VP_REACH("end of the connection");
	VP_ENSURES(inq.length <= l, "never reads more than there is");
	if (outq.is_closed && !li_fd.done) VP_ENSURES(closed && li_fd.eof && inq.length == 0 && !li_fd.reset, "without end request the response is complete only if stdout ended and the connection was closed behind it");
	if (li_fd.done && !li_fd.reset && ctx.iostream) VP_ENSURES(outq.is_closed, "the end of the request ends the response");
	if (!li_fd.reset) VP_ENSURES(li_fd.stdout_out + (li_fd.type == 6 ? li_fd.content : 0) == li_fd.stdout_in, "every byte of the stdout records so far is in the response or still announced");
	if (!li_fd.reset && ctx.iostream) VP_ENSURES(inq.length == 0 || (li_fd.content == 0 && li_fd.pad == 0 && inq.length < 8) || (li_fd.type == 3 && inq.length < 8), "everything there is was used");
	if (closed && !li_fd.reset && ctx.iostream && !(li_fd.type == 3 && li_fd.content == 8)) VP_ENSURES(ctx.request_done, "a closed connection never leaves the request pending");
	if (li_fd.reset) VP_ENSURES(outq.is_closed == c0 || li_fd.done, "a broken stream is never passed on as complete");
	if (!c0 && li_fd.done && li_fc0.cur) VP_ENSURES(li_fd.ends == 1, "the end is reported once");
}
#endif
