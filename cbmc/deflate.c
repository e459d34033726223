/* C19: compressed responses (real text of src/modules/mod_deflate.c) */
#include <glib.h>
#include <gmodule.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/stat.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <lua.h>
#include <zlib.h>
#include <bzlib.h>
#include <lighttpd/base.h>
#include "vp.h"
#include "vp_spec.h"
#include "vp_force.h"
size_t li_vk, li_vk2; unsigned char li_vb, li_vb2; li_ghost_t li_g;
#undef VR_DEBUG
#define VR_DEBUG(vr, ...) ((void) 0)
#undef VR_ERROR
#define VR_ERROR(vr, ...) ((void) 0)
#undef ERROR
#define ERROR(srv, ...) ((void) 0)
#include <lighttpd/plugin_core.h>
#undef CORE_OPTION
#define CORE_OPTION(i) (*vp_opt())
#undef _OPTION
#define _OPTION(vr, p, n) (*vp_opt())
#undef g_error_free
#define g_error_free(e) ((void) 0)
static liOptionValue *vp_opt(void); static liChunkIter vp_iter(liChunkQueue *cq);
#define li_chunkqueue_iter vp_iter
/* ghost state: bytes taken out of the source (g_in), given to the compressor (g_fed), covered by the checksum (g_crc), written by the compressor (g_prod) and passed on (g_app) */
static guint64 g_in, g_in0, g_fed, g_crc, g_prod, g_app, total; static unsigned long crcv; static int gzip, ended, finishing, broken, headers, footers, steps_r, steps_x, steps_f, inrun, resets, disconnects, skips_all; static unsigned char *bufp; static guint buflen; static char *datap; static off_t readlen;
static liChunkQueue qin, qout;
#define NB(z) ((guint64) buflen - (z)->avail_out)
#define ROOM(z) ((z)->avail_out > 0 && (z)->avail_out <= buflen && (void*) (z)->next_out == (void*) (bufp + NB(z)) && g_prod == g_app + NB(z))
#define INV(z) (ROOM(z) && g_fed == g_in && (!gzip || g_crc == g_in) && g_in + (guint64) qin.length == total && qin.length >= 0 && !ended && !broken && footers == 0)
static void havoc_out(void) { g_prod = nondet_ulong(); g_app = nondet_ulong(); crcv = nondet_ulong(); __CPROVER_assume(g_app < (guint64) 1 << 60); }
#define HAVOC_BUF(z) do { havoc_out(); guint a_ = nondet_uint(); __CPROVER_assume(a_ > 0 && a_ <= buflen); (z)->avail_out = a_; (z)->next_out = (void*) (bufp + (buflen - a_)); __CPROVER_assume(ROOM(z)); } while (0)
static unsigned long *crcp; static guint64 tot_in(void); static void set_tot(void);
#define LI_SPEC_DEFLATE_READ(f, z, l) do { VP_ENSURES(INV(z) && (guint64) (l) == g_in - g_in0 && crc_ok(), "the loop keeps: everything read was compressed, everything compressed is passed on or in the buffer"); if (steps_r++ == 0) { guint64 i_ = nondet_ulong(); __CPROVER_assume(i_ >= g_in && i_ <= total && i_ - g_in0 < (guint64) max_compress); g_in = g_fed = i_; g_crc = gzip ? i_ : g_crc; qin.length = (goffset) (total - i_); (l) = (off_t) (i_ - g_in0); HAVOC_BUF(z); set_crc(); set_tot(); __CPROVER_assume(INV(z)); l0 = (l); } else { VP_ENSURES((l) > l0, "progress"); VP_REACH("next block"); __CPROVER_assume(0); } } while (0)
#define LI_SPEC_DEFLATE_RUN(z, len) do { VP_ENSURES(RUNINV(z, len), "the compressor gets the block without gaps"); if (steps_x++ == 0) { guint v_ = nondet_uint(); __CPROVER_assume(v_ > 0 && v_ <= (len)); (z)->avail_in = v_; (z)->next_in = (void*) (datap + ((len) - v_)); g_fed = g_in + (guint64) ((len) - v_); HAVOC_BUF(z); set_crc(); set_tot(); } else { VP_REACH("rest of a block"); __CPROVER_assume(0); } } while (0)
#define RUNINV(z, len) (ROOM(z) && (len) == readlen && (z)->avail_in > 0 && (z)->avail_in <= (len) && (void*) (z)->next_in == (void*) (datap + ((len) - (z)->avail_in)) && g_fed == g_in + (guint64) ((len) - (z)->avail_in) && (!gzip || g_crc == g_in + (guint64) (len)) && crc_ok() && !ended && !broken)
#define LI_SPEC_DEFLATE_FINISH(z) do { VP_ENSURES(INV(z) && qin.length == 0 && qin.is_closed && g_in == total && crc_ok(), "the end is only announced to the compressor after everything"); if (steps_f++ == 0) { HAVOC_BUF(z); set_crc(); finishing = 1; } else { VP_REACH("more output"); __CPROVER_assume(0); } } while (0)
static int crc_ok(void); static void set_crc(void); static off_t l0;
#include "src/modules/mod_deflate.c"
static liOptionValue opt; static liOptionValue *vp_opt(void) { return &opt; }
static deflate_context_zlib zc; static deflate_context_bzip2 bc; static GByteArray ba; static liVRequest vr; static liFilter f; static int isbz;
static int crc_ok(void) { return isbz || (zc.z.total_in == g_fed && (!gzip || zc.crc == crcv)); }
static void set_crc(void) { zc.crc = crcv; }
static void set_tot(void) { zc.z.total_in = g_fed; }
/* the source: at least one byte of what is there, at most the requested amount, or an error */
static liChunkIter vp_iter(liChunkQueue *cq) { liChunkIter i; VP_CALLPRE(cq == &qin, "reads the source"); i.element = NULL; return i; }
liHandlerResult li_chunkiter_read(liChunkIter i, off_t start, off_t length, char **d, off_t *dl, GError **err) {
	VP_CALLPRE(start == 0 && length > 0 && length <= G_MAXUINT32 && qin.length > 0 && g_fed == g_in, "reads the next bytes"); VP_CALLPRE(*err == NULL, "no error yet");
	off_t n = nondet_long(); __CPROVER_assume(n >= 0 && n <= length && n <= qin.length); if (n == 0) { broken = 1; return nondet_bool() ? LI_HANDLER_ERROR : LI_HANDLER_WAIT_FOR_EVENT; }
	datap = malloc((size_t) n); __CPROVER_assume(datap != NULL); readlen = n; *d = datap; *dl = n; return LI_HANDLER_GO_ON;
}
goffset li_chunkqueue_skip(liChunkQueue *cq, goffset n) { VP_CALLPRE(cq == &qin && n == readlen && n <= qin.length && g_fed == g_in + (guint64) n, "removes what was compressed, and only that"); qin.length -= n; g_in += (guint64) n; return n; }
goffset li_chunkqueue_skip_all(liChunkQueue *cq) { VP_CALLPRE(cq == &qin && qout.is_closed, "data is only dropped once the receiver is gone"); skips_all++; qin.length = 0; return 0; }
void li_stream_disconnect(liStream *s) { VP_CALLPRE(s == &f.stream && qout.is_closed, "only once the receiver is gone"); disconnects++; }
void li_stream_reset(liStream *s) { VP_CALLPRE(s == &f.stream, "own stream"); resets++; }
void li_chunkqueue_append_mem(liChunkQueue *cq, const void *mem, gssize len) {
	VP_CALLPRE(cq == &qout && !qout.is_closed && !broken, "passed on to the receiver");
	if (mem == bufp) { VP_CALLPRE(len >= 0 && (guint64) len == g_prod - g_app && (!gzip || headers == 1) && footers == 0, "everything that is in the buffer, once"); g_app = g_prod; }
	else if (gzip && headers == 0) { const unsigned char *h = mem; headers++; VP_CALLPRE(len == 10 && g_app == 0 && h[0] == 0x1f && h[1] == 0x8b && h[2] == 8 && h[3] == 0, "gzip header first"); }
	else { const unsigned char *c = mem; VP_CALLPRE(gzip && ended && g_app == g_prod && footers == 0 && len == 8, "gzip footer last"); footers++;
		VP_CALLPRE((c[0] | (unsigned) c[1] << 8 | (unsigned) c[2] << 16 | (unsigned) c[3] << 24) == (unsigned) crcv && (c[4] | (unsigned) c[5] << 8 | (unsigned) c[6] << 16 | (unsigned) c[7] << 24) == (unsigned) g_fed, "checksum and length of the content"); }
}
/* the compressors */
static guint eat(guint avail_in, const void *next_in) { VP_CALLPRE(avail_in > 0 && next_in == (void*) (datap + (readlen - avail_in)) && g_fed == g_in + (guint64) (readlen - avail_in), "the next bytes"); guint c = nondet_uint(); __CPROVER_assume(c <= avail_in); g_fed += c; return c; }
static guint put(guint avail_out, const void *next_out) { VP_CALLPRE(!ended && avail_out > 0 && avail_out <= buflen && next_out == (void*) (bufp + (buflen - avail_out)), "room in the buffer"); guint w = nondet_uint(); __CPROVER_assume(w <= avail_out); g_prod += w; return w; }
int deflate(z_stream *z, int flush) {
	VP_CALLPRE(z == &zc.z && !isbz && !broken && (!gzip || headers == 1), "own state"); VP_CALLPRE(flush == Z_NO_FLUSH || z->avail_in == 0, "flushed only after everything was given");
	guint w = put(z->avail_out, z->next_out), c = flush == Z_NO_FLUSH ? eat(z->avail_in, z->next_in) : 0;
	z->avail_in -= c; z->next_in += c; z->avail_out -= w; z->next_out += w; z->total_in += c;
	if (nondet_bool()) { broken = 1; return nondet_bool() ? Z_STREAM_ERROR : Z_BUF_ERROR; }
	if (flush == Z_FINISH) { VP_CALLPRE(finishing, "order"); if (nondet_bool()) { ended = 1; return Z_STREAM_END; } __CPROVER_assume(w > 0); return Z_OK; }
	VP_CALLPRE(flush == Z_NO_FLUSH || (flush == Z_SYNC_FLUSH && !qin.is_closed && g_fed == g_in), "flushed only while more is expected");
	return Z_OK;
}
unsigned long crc32(unsigned long o, const unsigned char *d, uInt n) {
	if (d == NULL) { VP_CALLPRE(o == 0 && g_in == 0 && headers == 1, "starts with the content"); crcv = 0; return 0; }
	VP_CALLPRE(o == crcv && g_crc == g_in && d == (void*) datap && n == readlen, "checksum over the content, block by block"); g_crc += n; crcv = nondet_ulong(); return crcv;
}
int deflateInit2_(z_stream *z, int level, int method, int wb, int ml, int st, const char *v, int ss) { return Z_OK; }
int deflateEnd(z_stream *z) { return Z_OK; }
int BZ2_bzCompress(bz_stream *z, int action) {
	VP_CALLPRE(z == &bc.bz && isbz && !broken, "own state"); VP_CALLPRE(action == BZ_RUN || z->avail_in == 0, "finished only after everything was given");
	guint w = put(z->avail_out, z->next_out), c = action == BZ_RUN ? eat(z->avail_in, z->next_in) : 0;
	z->avail_in -= c; z->next_in += c; z->avail_out -= w; z->next_out += w;
	if (nondet_bool()) { broken = 1; return BZ_SEQUENCE_ERROR; }
	if (action == BZ_FINISH) { VP_CALLPRE(finishing, "order"); if (nondet_bool()) { ended = 1; return BZ_STREAM_END; } return BZ_FINISH_OK; }
	VP_CALLPRE(action == BZ_RUN, "no flush"); return BZ_RUN_OK;
}
static guint64 app0; static int havein, outclosed0;
static void setup(void) {
	buflen = nondet_uint(); __CPROVER_assume(buflen > 0); bufp = malloc(buflen); __CPROVER_assume(bufp != NULL); ba.data = bufp; ba.len = buflen;
	f.in = (havein = nondet_bool()) ? &qin : NULL; f.out = &qout; f.vr = nondet_bool() ? &vr : NULL; qin.length = nondet_long(); __CPROVER_assume(qin.length >= 0 && qin.length < (goffset) 1 << 60); qin.is_closed = nondet_bool(); qout.is_closed = outclosed0 = nondet_bool();
	g_in = nondet_ulong(); __CPROVER_assume(g_in < (guint64) 1 << 60); g_in0 = g_fed = g_in; total = g_in + (guint64) qin.length; havoc_out(); datap = malloc(1); readlen = 0;
}
static void done(liHandlerResult r) {
	if (!havein) { VP_ENSURES(r == LI_HANDLER_GO_ON && g_app == app0 && footers == 0 && (outclosed0 || !isbz || (resets == 1 && !qout.is_closed)), "an aborted source: nothing is added that could make the result look complete"); VP_REACH("aborted"); return; }
	if (outclosed0) { VP_ENSURES(r == LI_HANDLER_GO_ON && g_app == app0 && footers == 0, "nothing behind the end"); return; }
	if (broken) { VP_ENSURES(r != LI_HANDLER_GO_ON && footers == 0, "a failure is reported"); return; }
	VP_ENSURES(r == (qin.length == 0 ? LI_HANDLER_GO_ON : LI_HANDLER_COMEBACK), "comes back for the rest"); VP_ENSURES(g_fed == g_in && g_in + (guint64) qin.length == total, "everything taken was compressed");
	if (qin.length == 0 && qin.is_closed) { VP_ENSURES(qout.is_closed && ended && g_app == g_prod && footers == gzip && headers == gzip, "complete: all of the content and the end of the encoding were passed on"); VP_REACH("complete"); }
	else { VP_ENSURES(!qout.is_closed && !ended && footers == 0, "not complete as long as content is missing"); VP_ENSURES(qin.length > 0 || g_app == g_prod, "what is there is passed on"); VP_REACH("more to come"); }
}
void h_zlib(void) {
	setup(); f.param = &zc; gzip = nondet_bool(); zc.buf = &ba; zc.is_gzip = gzip; zc.conf.blocksize = nondet_uint(); __CPROVER_assume(zc.conf.blocksize > 0); zc.gzip_header = headers = gzip ? nondet_bool() : 0;
	zc.z.avail_out = nondet_uint(); __CPROVER_assume(zc.z.avail_out > 0 && zc.z.avail_out <= buflen); zc.z.next_out = bufp + (buflen - zc.z.avail_out); zc.z.avail_in = 0; __CPROVER_assume(g_prod == g_app + NB(&zc.z)); zc.z.total_in = g_in; zc.crc = crcv; g_crc = g_in; app0 = g_app;
	if (gzip && !headers) __CPROVER_assume(g_in == 0 && g_app == 0 && NB(&zc.z) == 0);
	liHandlerResult r = deflate_filter_zlib(f.vr, &f);
	if (havein && !outclosed0 && !broken) { if (!ended) VP_ENSURES(ROOM(&zc.z) && zc.z.avail_in == 0 && crc_ok() && (!gzip || (g_crc == g_in && headers == 1 && zc.gzip_header)), "ready for the next call"); }
	done(r);
}
void h_bzip2(void) {
	isbz = 1; setup(); f.param = &bc; bc.buf = &ba; bc.conf.blocksize = nondet_uint(); __CPROVER_assume(bc.conf.blocksize > 0);
	bc.bz.avail_out = nondet_uint(); __CPROVER_assume(bc.bz.avail_out > 0 && bc.bz.avail_out <= buflen); bc.bz.next_out = (char*) bufp + (buflen - bc.bz.avail_out); bc.bz.avail_in = 0; __CPROVER_assume(g_prod == g_app + NB(&bc.bz)); app0 = g_app;
	liHandlerResult r = deflate_filter_bzip2(f.vr, &f);
	if (havein && !outclosed0 && !broken && !ended) VP_ENSURES(ROOM(&bc.bz) && bc.bz.avail_in == 0, "ready for the next call");
	done(r);
}

/* Accept-Encoding: elements, parameters */
static char str[10];
static int ends(char c) { return c == 0 || c == ',' || c == ';' || c == ' ' || c == '\t'; }
size_t strspn(const char *a, const char *set) { size_t n = 0; for (; a[n]; n++) { int in = 0; for (int k = 0; k < 4 && set[k]; k++) in |= a[n] == set[k]; if (!in) break; } return n; }
size_t strcspn(const char *a, const char *set) { size_t n = 0; for (; a[n]; n++) { int in = 0; for (int k = 0; k < 5 && set[k]; k++) in |= a[n] == set[k]; if (in) break; } return n; }
static char low(char c) { return c >= 'A' && c <= 'Z' ? (char) (c + 32) : c; }
gint g_ascii_strncasecmp(const gchar *a, const gchar *b, gsize n) { for (gsize i = 0; i < n; i++) { if (low(a[i]) != low(b[i])) return 1; if (!a[i]) return 0; } return 0; }
void h_mask(void) {
	unsigned n = nondet_uint(); __CPROVER_assume(n < sizeof(str)); for (unsigned i = 0; i < sizeof(str); i++) { char c = (char) nondet_uchar(); if (i < n) __CPROVER_assume(c != 0); else c = 0; str[i] = c; }
	static const char *const names[] = { "bzip2", "x-bzip2", "gzip", "x-gzip", "deflate", "compress" }; static const unsigned char nl[] = { 5, 7, 4, 6, 7, 8 };
	unsigned k = nondet_uint(); __CPROVER_assume(k < 6); int want = 0;
	for (unsigned p = 0; p < n; p++) if (p == 0 || str[p - 1] == ',') {
		unsigned q = p; while (str[q] == ' ' || str[q] == '\t') q++;
		int eq = 1; unsigned i; for (i = 0; i < nl[k]; i++) { if (low(str[q + i]) != names[k][i]) { eq = 0; break; } }
		if (!eq || !ends(str[q + i])) continue;
		unsigned r = q + i; while (str[r] == ' ' || str[r] == '\t' || str[r] == ';') r++;
		int refused = 0; if (low(str[r]) == 'q' && str[r + 1] == '=') { r += 2; while (str[r] == '0' || str[r] == '.') r++; refused = ends(str[r]); }
		if (!refused) want = 1;
	}
	guint m = header_to_encoding_mask(str);
	VP_ENSURES(((m >> (k + 1)) & 1) == (guint) want, "an encoding is accepted exactly if an element names it and does not refuse it"); VP_ENSURES((m & ~0x7eu) == 0, "known encodings only");
	if (want) VP_REACH("accepted"); else VP_REACH("not accepted");
}
/* the decision */
static liHttpHeaders reqh, resh; static GList lce, lte, let, let2, lae[2]; static int hce, hte, het, hae, seen[2], vary, ceins, clrem, etagm, filters, nullf, made, mk304, frees; static guint msk[2], cw; static liHttpHeader hdr, hdet; static liFilter nf; static const char *cename; static deflate_config cfg; static liFilterHandlerCB fcb;
#define IS(s) (keylen == sizeof(s) - 1 && 0 == vp_cmp(key, s, sizeof(s) - 1))
static int vp_cmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) if (low(a[i]) != low(b[i])) return 1; return 0; }
GList* li_http_header_find_first(liHttpHeaders *h, const gchar *key, size_t keylen) {
	if (h == &reqh) { VP_CALLPRE(IS("accept-encoding"), "header of the request"); return hae > 0 ? &lae[0] : NULL; }
	VP_CALLPRE(h == &resh, "headers of the response");
	if (IS("content-encoding")) return hce ? &lce : NULL; if (IS("transfer-encoding")) return hte ? &lte : NULL; if (IS("etag")) return het ? &let : NULL;
	VP_CALLPRE(0, "known header"); return NULL;
}
GList* li_http_header_find_next(GList *l, const gchar *key, size_t keylen) { if (l == &lae[0]) return hae > 1 ? &lae[1] : NULL; if (l == &let) return het > 1 ? &let2 : NULL; VP_CALLPRE(l == &lae[1], "own list"); return NULL; }
void li_http_header_append(liHttpHeaders *h, const gchar *key, size_t keylen, const gchar *val, size_t vl) { VP_CALLPRE(h == &resh && IS("vary") && vl == 15, "Vary: Accept-Encoding"); vary++; }
void li_http_header_insert(liHttpHeaders *h, const gchar *key, size_t keylen, const gchar *val, size_t vl) { VP_CALLPRE(h == &resh && IS("content-encoding"), "Content-Encoding"); ceins++; cename = val; }
gboolean li_http_header_remove(liHttpHeaders *h, const gchar *key, size_t keylen) { VP_CALLPRE(h == &resh && IS("content-length"), "Content-Length"); clrem++; return TRUE; }
guint vp_mask(const gchar *s) { guint k = cw++; __CPROVER_assume(k < 2); return msk[k]; }
gboolean vp_etag(liVRequest *v, gboolean d, liHttpHeader *e, const char *n) { VP_CALLPRE(v == &vr && e == (het ? &hdet : NULL), "the entity tag"); etagm++; cename = n; if (e && nondet_bool()) { mk304 = 1; vr.response.http_status = 304; return TRUE; } return FALSE; }
deflate_context_zlib *vp_zcreate(liVRequest *v, deflate_config *c, gboolean gz) { VP_CALLPRE(c == &cfg, "own options"); zc.is_gzip = gz; return nondet_bool() ? (made = 1, &zc) : NULL; }
deflate_context_bzip2 *vp_bcreate(liVRequest *v, deflate_config *c) { VP_CALLPRE(c == &cfg, "own options"); return nondet_bool() ? (made = 2, &bc) : NULL; }
liFilter* li_vrequest_add_filter_out(liVRequest *v, liFilterHandlerCB cb, liFilterFreeCB fr, liFilterEventCB ev, gpointer param) { VP_CALLPRE(v == &vr, "the request"); filters++; fcb = cb; nf.out = &qout; if (cb == deflate_filter_null) nullf++; else VP_CALLPRE(param == (cb == deflate_filter_zlib ? (gpointer) &zc : (gpointer) &bc) && made, "with its state"); return &nf; }
void h_decide(void) {
	vr.state = nondet_int(); __CPROVER_assume(vr.state >= LI_VRS_HANDLE_RESPONSE_HEADERS); vr.request.headers = &reqh; vr.response.headers = &resh; gint st = nondet_int(); vr.response.http_status = st; int head = nondet_bool(); vr.request.http_method = head ? LI_HTTP_METHOD_HEAD : LI_HTTP_METHOD_GET; opt.boolean = nondet_bool();
	hce = nondet_bool(); hte = nondet_bool(); het = nondet_int(); __CPROVER_assume(het >= 0 && het <= 2); hae = nondet_int(); __CPROVER_assume(hae >= 0 && hae <= 2); static GString gs; gs.str = str; gs.len = 9; hdr.data = &gs; hdet.data = &gs; lae[0].data = lae[1].data = &hdr; let.data = &hdet; msk[0] = nondet_uint(); msk[1] = nondet_uint(); __CPROVER_assume((msk[0] & ~0x7eu) == 0 && (msk[1] & ~0x7eu) == 0); cfg.allowed_encodings = nondet_uint();
	gpointer c = NULL; liHandlerResult r = deflate_handle(&vr, &cfg, &c);
	VP_ENSURES(r == LI_HANDLER_GO_ON, "the response goes on");
	int nobody = st == 100 || st == 101 || st == 204 || st == 205 || st == 206 || st == 304; guint acc = ((hae > 0 ? msk[0] : 0) | (hae > 1 ? msk[1] : 0)) & cfg.allowed_encodings;
	if (nobody || hce || hte) { VP_ENSURES(filters == 0 && ceins == 0 && clrem == 0 && etagm == 0, "partial, empty and already encoded responses stay as they are"); VP_REACH("untouched"); return; }
	VP_ENSURES(vary == 1, "caches learn that the response depends on Accept-Encoding");
	if (ceins == 0) { VP_ENSURES(filters == 0 && clrem == 0, "not encoded, not changed"); VP_ENSURES(mk304 || het > 1 || (acc & 0x3e) == 0 || etagm == 1, "encoded if possible"); VP_REACH("plain"); return; }
	VP_ENSURES(ceins == 1 && clrem == 1 && filters == 1 && etagm == 1 && !mk304, "encoded once, without the old length");
	unsigned k = nondet_uint(); __CPROVER_assume(k < 7); if (cename == encoding_names[k]) {
		VP_ENSURES((acc >> k) & 1, "only with an encoding the client accepts and the configuration allows"); VP_ENSURES(k >= 1 && k <= 5, "only with an encoding there is a filter for");
		if (head) VP_ENSURES(fcb == deflate_filter_null && qout.is_closed, "no body for HEAD"); else if (k <= 2) VP_ENSURES(fcb == deflate_filter_bzip2 && made == 2, "filter matches the announced encoding"); else VP_ENSURES(fcb == deflate_filter_zlib && made == 1 && zc.is_gzip == (k != 5), "filter matches the announced encoding");
		VP_REACH("encoded");
	}
}
