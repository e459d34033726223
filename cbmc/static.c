/* C04: core_handle_static (real text of src/main/plugin_core.c): what is put into the response for every sequence of parsed ranges */
#define _LIGHTTPD_BASE_H_GUARD
#include <lighttpd/base.h>
#include <lighttpd/plugin_core.h>
#include <lighttpd/http_range_parser.h>
#include "vp.h"
#include "vp_spec.h"
size_t li_vk, li_vk2; unsigned char li_vb, li_vb2; li_ghost_t li_g;
#undef VR_ERROR
#define VR_ERROR(vr, ...) ((void) 0)
#undef VR_DEBUG
#define VR_DEBUG(vr, ...) ((void) 0)
#undef CORE_OPTION
#define CORE_OPTION(idx) (vp_opt[(idx) == LI_CORE_OPTION_STATIC_RANGE_REQUESTS])
#undef CORE_OPTIONPTR
#define CORE_OPTIONPTR(idx) (vp_ov.data)
static liOptionValue vp_opt[2]; static liOptionPtrValue vp_ov;
#define g_string_printf vp_printf
#define g_string_append_printf vp_aprintf
#define g_string_sized_new vp_sized_new
#define close vp_close
static void vp_printf(GString *s, const char *fmt, ...); static void vp_aprintf(GString *s, const char *fmt, ...); static GString *vp_sized_new(gsize n); static int vp_close(int fd);
#include "src/main/plugin_core.c"
#define N 3
static liVRequest vr; static liWorker wrk; static liChunkQueue out; static liHttpHeaders rqh, rsh; static GString path, tmp, sub; static char pathb[4] = "/a"; static liHttpHeader hrange; static GString hrs; static char hrb[16]; static GString mime; static liChunkFile *const CF = (liChunkFile*) 0x40;
static int n_ok, term; static goffset st_[N], en_[N]; static int pos; static int parser_live; static int has_range; static off_t fsize;
static int handled, direct_ok, cachable_, statres, stmode, sfd, want_direct, ndirect;
static int fd_used, cf_refs; /* how often the descriptor was handed on or closed */
/* the response body: file pieces, with or without a part header before them */
static int np; static goffset pst[N + 2], pln[N + 2]; static int hdr_before[N + 2]; static int pending_str, nstr, resets;
static int ct_set, cr_set, cr_star, ar_set; static const void *ct_from; static int last_fmt; static goffset fa, fb, fc_;
gboolean li_vrequest_is_handled(liVRequest *v) { return handled; }
gboolean li_vrequest_handle_direct(liVRequest *v) { ndirect++; return direct_ok; }
liHandlerResult li_stat_cache_get(liVRequest *v, GString *p, struct stat *st, int *err, int *fd) {
	if (statres == LI_HANDLER_GO_ON) { st->st_mode = stmode; st->st_size = fsize; *fd = sfd; } else { *err = nondet_int(); if (nondet_bool()) *fd = sfd; }
	if (*fd == -1) fd_used = 1; /* none to hand on */
	return statres;
}
static int vp_close(int fd) { VP_CALLPRE(fd == sfd, "closes its own descriptor"); fd_used++; return 0; }
void li_etag_set_header(liVRequest *v, struct stat *st, gboolean *c) { *c = cachable_; }
liChunkFile *li_chunkfile_new(GString *name, int fd, gboolean del) { VP_CALLPRE(fd == sfd && !del, "chunkfile of that descriptor"); fd_used++; cf_refs = 1; return CF; }
void li_chunkfile_release(liChunkFile *cf) { VP_CALLPRE(cf == CF && cf_refs == 1, "released once"); cf_refs--; }
const GString *li_mimetype_get(liVRequest *v, GString *f) { return nondet_bool() ? &mime : NULL; }
liHttpHeader *li_http_header_lookup(liHttpHeaders *h, const gchar *k, size_t l) { VP_CALLPRE(h == &rqh && l == 5 && k[0] == 'r', "looks for the range header"); return has_range ? &hrange : NULL; }
void li_http_header_overwrite(liHttpHeaders *h, const gchar *k, size_t kl, const gchar *v, size_t vl) {
	VP_CALLPRE(h == &rsh, "response header");
	if (kl == 13 && k[0] == 'A') ar_set++;
	else if (kl == 13 && k[8] == 'R') { cr_set++; VP_CALLPRE(v == tmp.str, "content-range value"); cr_star = last_fmt == 1; if (last_fmt == 0) VP_CALLPRE(pos >= 1 && pos <= N && fa == st_[pos - 1] && fb == en_[pos - 1] && fc_ == fsize, "content-range names the range"); else VP_CALLPRE(fa == fsize, "content-range names the size"); }
	else if (kl == 12) ct_set++;
}
/* the three formats used for content-range, recognised by their number of arguments */
#include <stdarg.h>
static void vp_printf(GString *s, const char *fmt, ...) {
	va_list a; va_start(a, fmt);
	VP_CALLPRE(s == &tmp, "temporary string");
	if (fmt[0] == 'b' && fmt[6] == '*') { last_fmt = 1; fa = va_arg(a, goffset); }
	else if (fmt[0] == 'b') { last_fmt = 0; fa = va_arg(a, goffset); fb = va_arg(a, goffset); fc_ = va_arg(a, goffset); }
	else last_fmt = 2;
	va_end(a);
}
static void vp_aprintf(GString *s, const char *fmt, ...) { VP_CALLPRE(s == &sub, "part header"); }
static GString *vp_sized_new(gsize n) { return &sub; }
void li_parse_http_range_init(liParseHttpRangeState *s, const GString *str, goffset limit) { VP_CALLPRE(str->str == hrb + 7 && limit == fsize, "parses the header against the size of the file"); parser_live++; pos = 0; }
static int single; int vp_single(void) { return single; }
liParseHttpRangeResult li_parse_http_range_next(liParseHttpRangeState *s) {
	if (pos < n_ok) { s->range_start = st_[pos]; s->range_end = en_[pos]; s->range_length = en_[pos] - st_[pos] + 1; s->last_range = (pos + 1 == n_ok) && (n_ok > 1 || term != LI_PARSE_HTTP_RANGE_INVALID) ? (n_ok == 1 ? vp_single() : nondet_bool()) : FALSE; if (term == LI_PARSE_HTTP_RANGE_INVALID) s->last_range = FALSE; pos++; return LI_PARSE_HTTP_RANGE_OK; }
	return term;
}
void li_parse_http_range_clear(liParseHttpRangeState *s) { parser_live--; }
void li_chunkqueue_append_string(liChunkQueue *cq, GString *s) { VP_CALLPRE(cq == &out && s == &sub, "part header"); pending_str = 1; nstr++; }
void li_chunkqueue_append_chunkfile(liChunkQueue *cq, liChunkFile *f, off_t start, off_t length) { VP_CALLPRE(cq == &out && f == CF && cf_refs == 1, "response queue and file"); if (np < N + 2) { pst[np] = start; pln[np] = length; hdr_before[np] = pending_str; } pending_str = 0; np++; }
void li_chunkqueue_reset(liChunkQueue *cq) { VP_CALLPRE(cq == &out, "response queue"); np = 0; nstr = 0; pending_str = 0; resets++; cq->is_closed = FALSE; }
void h_static(void) {
	int i, no_fail = nondet_bool(), range_on; liHandlerResult r; gpointer ctx = NULL;
	vr.wrk = &wrk; wrk.tmp_str = &tmp; vr.direct_out = &out; vr.request.headers = &rqh; vr.response.headers = &rsh; vr.physical.path = &path; path.str = pathb; path.len = 2; hrange.data = &hrs; hrange.keylen = 5; hrs.str = hrb; hrs.len = 12;
	vr.request.http_method = LI_HTTP_METHOD_GET; vr.response.http_status = 0; vp_ov.data.list = NULL;
	handled = nondet_bool(); direct_ok = nondet_bool(); cachable_ = nondet_bool(); statres = nondet_bool() ? LI_HANDLER_GO_ON : nondet_bool() ? LI_HANDLER_ERROR : LI_HANDLER_WAIT_FOR_EVENT; stmode = nondet_bool() ? S_IFREG : nondet_bool() ? S_IFDIR : S_IFIFO; sfd = nondet_int(); VP_REQUIRES(sfd >= 0);
	has_range = nondet_bool(); fsize = nondet_long(); VP_REQUIRES(fsize >= 0); vp_opt[1].boolean = range_on = nondet_bool(); vp_opt[0].boolean = FALSE; single = nondet_bool();
	n_ok = nondet_int(); VP_REQUIRES(n_ok >= 0 && n_ok <= N); term = nondet_bool() ? LI_PARSE_HTTP_RANGE_INVALID : n_ok ? LI_PARSE_HTTP_RANGE_DONE : LI_PARSE_HTTP_RANGE_NOT_SATISFIABLE;
	for (i = 0; i < N; i++) { st_[i] = nondet_long(); en_[i] = nondet_long(); if (i < n_ok) VP_REQUIRES(0 <= st_[i] && st_[i] <= en_[i] && en_[i] < fsize); }
	out.is_closed = TRUE;
	r = core_handle_static(&vr, GINT_TO_POINTER(no_fail), &ctx);
	VP_REACH("returns");
	if (handled) { VP_ENSURES(ndirect == 0 && np == 0 && vr.response.http_status == 0, "a handled request is left alone"); return; }
	if (statres == LI_HANDLER_WAIT_FOR_EVENT) { VP_ENSURES(r == LI_HANDLER_WAIT_FOR_EVENT && np == 0, "waits for the file"); return; }
	VP_ENSURES(fd_used == 1, "the descriptor is closed or handed on exactly once");
	VP_ENSURES(parser_live == 0 && cf_refs == 0, "nothing is leaked");
	if (statres != LI_HANDLER_GO_ON || stmode != S_IFREG) { VP_ENSURES(np == 0, "only regular files are sent"); return; }
	if (!direct_ok) { VP_ENSURES(r == LI_HANDLER_ERROR, "handler error"); return; }
	if (cachable_) { VP_REACH("304"); VP_ENSURES(vr.response.http_status == 304 && np == 0 && nstr == 0, "304 without a body"); return; }
	if (!range_on || !has_range || term == LI_PARSE_HTTP_RANGE_INVALID) {
		VP_REACH("whole file");
		VP_ENSURES(vr.response.http_status == 200 && np == 1 && pst[0] == 0 && pln[0] == fsize && nstr == 0, "without (valid) ranges the whole file and nothing else is sent");
		VP_ENSURES(cr_set == 0, "no content-range in a 200"); VP_ENSURES(ct_set == 1, "content-type");
	} else if (term == LI_PARSE_HTTP_RANGE_NOT_SATISFIABLE) {
		VP_REACH("416");
		VP_ENSURES(vr.response.http_status == 416 && np == 0 && nstr == 0 && cr_set == 1 && cr_star, "416 without a body, naming the size");
	} else {
		int multi = n_ok > 1 || !single;
		VP_REACH("206");
		VP_ENSURES(vr.response.http_status == 206 && np == n_ok, "206 with one piece per range");
		for (i = 0; i < n_ok && i < N; i++) { VP_ENSURES(pst[i] == st_[i] && pln[i] == en_[i] - st_[i] + 1, "exactly the bytes of the ranges, in order"); VP_ENSURES(hdr_before[i] == multi, "each part of a multipart response has its header, a single range has none"); }
		VP_ENSURES(nstr == (multi ? n_ok + 1 : 0) && cr_set == (multi ? 0 : 1) && !cr_star && ct_set == 1, "multipart has part headers and a final boundary, a single range a content-range");
	}
	VP_ENSURES(ar_set == (range_on ? 1 : 0), "accept-ranges");
}
