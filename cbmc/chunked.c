/* C02: chunked transfer coding; real text of src/main/filter_chunked.c against a byte-wise specification automaton */
#define _LIGHTTPD_BASE_H_GUARD
#include <lighttpd/base.h>
#include "vp.h"
#include "vp_spec.h"
size_t li_vk, li_vk2; unsigned char li_vb, li_vb2; li_ghost_t li_g;

/* ---- specification of the decoder (RFC 9112 7.1 without chunk extensions) */
enum { S_LEN, S_LENLF, S_DATA, S_DCR, S_DLF, S_LINE, S_TEXT, S_TEXTLF, S_ENDLF, S_END, S_ERR };
typedef struct { int ph; gboolean digits; gint64 len; /* value read / data bytes left */ } spec_t;
static void spec_char(spec_t *s, gchar c) {
	int d = (c >= '0' && c <= '9') ? c - '0' : (c >= 'a' && c <= 'f') ? c - 'a' + 10 : (c >= 'A' && c <= 'F') ? c - 'A' + 10 : -1;
	switch (s->ph) {
	case S_LEN:
		if (d >= 0) {
			if (s->digits && s->len > ((gint64) 0x07ffffffffffffffLL)) s->ph = S_ERR; /* does not fit 63 bits */
			else { s->len = (s->digits ? s->len << 4 : 0) | d; s->digits = TRUE; }
		} else s->ph = (c == '\r' && s->digits) ? S_LENLF : S_ERR;
		break;
	case S_LENLF: s->ph = c != '\n' ? S_ERR : s->len > 0 ? S_DATA : S_LINE; break;
	case S_DCR: s->ph = c == '\r' ? S_DLF : S_ERR; break;
	case S_DLF: if (c == '\n') { s->ph = S_LEN; s->digits = FALSE; s->len = 0; } else s->ph = S_ERR; break;
	case S_LINE: s->ph = c == '\r' ? S_ENDLF : S_TEXT; break;      /* trailer section: lines until an empty one */
	case S_TEXT: s->ph = c == '\r' ? S_TEXTLF : S_TEXT; break;
	case S_TEXTLF: s->ph = c == '\n' ? S_LINE : c == '\r' ? S_TEXTLF : S_TEXT; break;
	case S_ENDLF: s->ph = c == '\n' ? S_END : c == '\r' ? S_TEXTLF : S_TEXT; break;
	default: break;
	}
}
struct vp_ghost { spec_t sp; goffset seen; gboolean stale; } vg; /* seen: bytes given to the automaton and not yet removed from the queue */
gboolean vp_drained, vp_ioerr, vp_skipall, vp_prepared;
liFilterChunkedDecodeState vp_state;
liChunkQueue vp_in, vp_out; liVRequest vp_vr;
gboolean vp_inclosed; /* entry value */

/* relation between the state kept by the decoder and the automaton */
#define ST vp_state.parse_state
#define REL ( \
 (ST == 0 && vg.sp.ph == S_LEN && !vg.sp.digits) || \
 (ST == 1 && vg.sp.ph == S_LEN && (vg.sp.digits ? vp_state.cur_chunklen == vg.sp.len && vg.sp.len >= 0 : vp_state.cur_chunklen == -1)) || \
 (ST == 2 && vg.sp.ph == S_LENLF && vp_state.cur_chunklen == vg.sp.len && vg.sp.len >= 0) || \
 (ST == 3 && ((vg.sp.ph == S_DATA && vp_state.cur_chunklen == vg.sp.len && vg.sp.len > 0) || (vg.sp.ph == S_DCR && vp_state.cur_chunklen == 0))) || \
 (ST == 4 && vg.sp.ph == S_DLF) || (ST == 10 && vg.sp.ph == S_TEXT) || (ST == 11 && vg.sp.ph == S_TEXTLF) || \
 (ST == 12 && vg.sp.ph == S_LINE) || (ST == 13 && vg.sp.ph == S_ENDLF) || (ST == 14 && vg.sp.ph == S_END) || \
 (ST == 20 && vg.sp.ph == S_ERR))

#define LI_CHUNKED_READ_STATE vg, vp_drained, vp_ioerr
#define LI_CHUNKED_READ_OK (ctx.bytes_in == vg.seen && vp_keep(&vg) && !vp_drained && !vp_ioerr && !vp_skipall)
#define LI_CHUNKED_STATE vp_state, vg, vp_drained, vp_ioerr, vp_skipall, vp_in, vp_out
#define LI_CHUNKED_OK (REL && (ST == 3 || (ctx.bytes_in == vg.seen && (!vg.stale || p == NULL))) && ctx.bytes_in >= 0 && ctx.bytes_in <= ((goffset)1 << 60) && vg.seen >= 0 && (ST != 3 || vg.seen == 0) && !vp_drained && !vp_ioerr && !vp_skipall && !vp_out.is_closed && vp_in.is_closed == vp_inclosed)
#define LI_CHUNKED_CHAR(c) vp_char(c)
/* nothing but the parser position changes while waiting for input */
#define vp_keep(g) 1
static void vp_char(gchar c) {
	__CPROVER_assert(!vg.stale, "bytes are read at the current position of the queue");
	__CPROVER_assert(vg.sp.ph != S_DATA && vg.sp.ph != S_END && vg.sp.ph != S_ERR, "no data byte or byte behind the body is parsed");
	spec_char(&vg.sp, c); vg.seen++;
}
#undef VR_ERROR
#define VR_ERROR(vr, ...) ((void) 0)
#include "vp_force.h"
#define li_chunk_parser_reset vp_parser_reset
#define li_chunk_parser_init vp_parser_init
#define li_chunk_parser_prepare vp_parser_prepare
#define li_chunk_parser_next vp_parser_next
#define li_chunk_parser_done vp_parser_done
#define li_chunkqueue_steal_len vp_steal_len
#define li_chunkqueue_skip vp_skip
#define li_chunkqueue_skip_all vp_skip_all
#define li_chunkqueue_steal_all vp_steal_all
#define li_chunkqueue_append_mem vp_append_mem
#define li_chunkqueue_append_bytearr vp_append_bytearr
static void vp_parser_init(liChunkParserCtx *ctx, liChunkQueue *cq);
static void vp_parser_reset(liChunkParserCtx *ctx);
static liHandlerResult vp_parser_prepare(liChunkParserCtx *ctx);
static liHandlerResult vp_parser_next(liChunkParserCtx *ctx, char **p, char **pe, GError **err);
static void vp_parser_done(liChunkParserCtx *ctx, goffset len);
static goffset vp_steal_len(liChunkQueue *out, liChunkQueue *in, goffset len);
static goffset vp_steal_all(liChunkQueue *out, liChunkQueue *in);
static goffset vp_skip(liChunkQueue *in, goffset len);
static goffset vp_skip_all(liChunkQueue *in);
static void vp_append_mem(liChunkQueue *cq, const void *mem, gssize len);
static void vp_append_bytearr(liChunkQueue *cq, GByteArray *mem);
/* the prepared iterator is what next() reads from */
static liChunkParserCtx *vp_ctx;
#ifndef VP_BOUNDED
# undef LI_CHUNKED_OK
# define LI_CHUNKED_OK (REL && (ST == 3 || (ctx.bytes_in == vg.seen && vp_prepared && (!vg.stale || p == NULL))) && ctx.bytes_in >= 0 && ctx.bytes_in <= ((goffset)1 << 60) && vg.seen >= 0 && (ST != 3 || vg.seen == 0) && !vp_drained && !vp_ioerr && !vp_skipall && vp_out.is_closed == vp_outclosed && vp_in.is_closed == vp_inclosed)
# undef LI_CHUNKED_READ_OK
# define LI_CHUNKED_READ_OK (ctx.bytes_in == vg.seen && vp_prepared && !vp_drained && !vp_ioerr && !vp_skipall && vg.stale == vp_rstale)
# undef LI_CHUNKED_READ_STATE
# define LI_CHUNKED_READ_STATE vg.stale, vp_drained, vp_ioerr
# undef LI_CHUNKED_STATE
# define LI_CHUNKED_STATE vp_state, vg, vp_drained, vp_ioerr, vp_skipall, vp_in, vp_out, vp_prepared
#endif
gboolean vp_outclosed, vp_rstale;
#undef LI_CHUNKED_READ_OK
#define LI_CHUNKED_READ_OK (ctx.bytes_in == vg.seen && vp_prepared && !vp_drained && !vp_ioerr && !vp_skipall && (!vg.stale || p == NULL))
#include "src/main/filter_chunked.c"

void g_error_free(GError *e) { }

#ifndef VP_BOUNDED
/* ---------- contracts of the callees ---------- */
static char vp_buf[16];
static void vp_parser_init(liChunkParserCtx *ctx, liChunkQueue *cq) { VP_CALLPRE(cq == &vp_in, "parses the input queue"); vp_ctx = ctx; vp_parser_reset(ctx); }
static void vp_parser_reset(liChunkParserCtx *ctx) { ctx->bytes_in = 0; ctx->start = 0; ctx->length = 0; ctx->buf = NULL; vg.stale = TRUE; vp_prepared = FALSE; }
static liHandlerResult vp_parser_prepare(liChunkParserCtx *ctx) { vp_prepared = TRUE; return nondet_bool() ? LI_HANDLER_GO_ON : LI_HANDLER_WAIT_FOR_EVENT; }
static liHandlerResult vp_parser_next(liChunkParserCtx *ctx, char **p, char **pe, GError **err) {
	int k = nondet_int(), n = nondet_int(); __CPROVER_assume(n >= 1 && n <= 16);
	VP_CALLPRE(vp_prepared, "parser prepared after reset");
	VP_CALLPRE(ctx->bytes_in == vg.seen, "parser position = bytes parsed and not yet removed");
	VP_CALLPRE(err && !*err, "error unset");
	if (k == 0) { vp_drained = TRUE; return LI_HANDLER_WAIT_FOR_EVENT; }
	if (k == 1) { vp_ioerr = TRUE; return LI_HANDLER_ERROR; }
	vg.stale = FALSE;
	*p = vp_buf; *pe = vp_buf + n;
	return LI_HANDLER_GO_ON;
}
static void vp_parser_done(liChunkParserCtx *ctx, goffset len) { VP_CALLPRE(len == 1, "one byte at a time"); __CPROVER_assume(ctx->bytes_in < ((goffset)1 << 60)); ctx->bytes_in += len; ctx->start += len; }
static goffset vp_steal_len(liChunkQueue *out, liChunkQueue *in, goffset len) {
	goffset r = nondet_long();
	VP_CALLPRE(out == &vp_out && in == &vp_in, "input to output");
	VP_CALLPRE(vg.seen == 0, "parsed bytes were removed before data is taken");
	VP_CALLPRE(vg.sp.ph == S_DATA && len > 0 && len == vg.sp.len, "takes exactly the data bytes of the chunk");
	__CPROVER_assume(r >= 0 && r <= len);
	if (r < len) vp_drained = TRUE;
	vg.sp.len -= r; vg.stale = TRUE; vp_prepared = FALSE;
	if (vg.sp.len == 0) vg.sp.ph = S_DCR;
	return r;
}
static goffset vp_skip(liChunkQueue *in, goffset len) {
	VP_CALLPRE(in == &vp_in, "skips input");
	VP_CALLPRE(len == vg.seen, "removes exactly the parsed bytes");
	vg.seen = 0; vg.stale = TRUE; vp_prepared = FALSE;
	return len;
}
static goffset vp_skip_all(liChunkQueue *in) { VP_CALLPRE(in == &vp_in, "skips input"); vp_skipall = TRUE; return 0; }

void h_decode(void) {
	gboolean r; struct vp_ghost g0; liFilterChunkedDecodeState s0;
	vg = g0; vp_state = s0; vp_inclosed = nondet_bool(); vp_outclosed = nondet_bool();
	vg.seen = 0; vg.stale = FALSE; vp_drained = vp_ioerr = vp_skipall = vp_prepared = FALSE;
	__CPROVER_assume((vg.sp.digits == 0 || vg.sp.digits == 1));
	vp_in.is_closed = vp_inclosed; vp_out.is_closed = vp_outclosed;
	VP_REQUIRES(REL);
	gboolean fresh_closed = vp_outclosed;
	r = li_filter_chunked_decode(&vp_vr, &vp_out, &vp_in, &vp_state);
	VP_REACH("returns");
	if (r) { VP_REACH("ok"); if (vg.sp.ph == S_DATA) VP_REACH("inside data"); if (vg.sp.ph == S_END) VP_REACH("end"); } else VP_REACH("error");
	VP_ENSURES(!r || REL, "decoder state and automaton agree");
	VP_ENSURES(!r || vg.seen == 0, "all parsed bytes were removed from the input");
	VP_ENSURES(!r || vg.sp.ph != S_ERR, "malformed coding is an error");
	VP_ENSURES(!r || vp_drained || vg.sp.ph == S_END, "stops only at the end of the input or of the body");
	VP_ENSURES(!r || !vp_inclosed || vg.sp.ph == S_END, "end of input inside the body is an error");
	VP_ENSURES(!r || vp_out.is_closed == (fresh_closed || vg.sp.ph == S_END), "output is closed exactly at the end of the body");
	VP_ENSURES(!r || !vp_skipall, "no input dropped");
	VP_ENSURES(r || vg.sp.ph == S_ERR || vp_ioerr || (vp_drained && vp_inclosed), "well-formed input is never refused");
	VP_ENSURES(r || (vp_out.is_closed && vp_skipall && ST == 20), "after an error everything is closed for good");
}
#else
/* ---------- bounded: up to VP_BOUND bytes, from every state in between ---------- */
#define N VP_BOUND
static char data[N + 1], outd[N + 1]; static int total, avail, pos, outn;
static void vp_parser_init(liChunkParserCtx *ctx, liChunkQueue *cq) { vp_parser_reset(ctx); }
static void vp_parser_reset(liChunkParserCtx *ctx) { ctx->bytes_in = 0; ctx->start = 0; ctx->length = 0; ctx->buf = NULL; ctx->cs = 0; }
static liHandlerResult vp_parser_prepare(liChunkParserCtx *ctx) { ctx->cs = 1; return LI_HANDLER_GO_ON; }
static liHandlerResult vp_parser_next(liChunkParserCtx *ctx, char **p, char **pe, GError **err) {
	int a = pos + (int) ctx->bytes_in;
	VP_CALLPRE(ctx->cs == 1, "prepared");
	if (a >= avail) return LI_HANDLER_WAIT_FOR_EVENT;
	*p = data + a; *pe = data + avail;
	return LI_HANDLER_GO_ON;
}
static void vp_parser_done(liChunkParserCtx *ctx, goffset len) { ctx->bytes_in += len; ctx->start += len; }
static goffset vp_steal_len(liChunkQueue *out, liChunkQueue *in, goffset len) { goffset i; for (i = 0; i < N && i < len && pos < avail; i++) outd[outn++] = data[pos++]; return i; }
static goffset vp_skip(liChunkQueue *in, goffset len) { goffset n = len < avail - pos ? len : avail - pos; pos += n; return n; }
static goffset vp_skip_all(liChunkQueue *in) { pos = avail; return 0; }
void h_decode(void) {
	int i, en = 0, endpos = -1; char e[N + 1]; spec_t s; gboolean r, closed; struct vp_ghost g0; liFilterChunkedDecodeState s0;
	vg = g0; vp_state = s0; __CPROVER_assume((vg.sp.digits == 0 || vg.sp.digits == 1));
	__CPROVER_assume(REL && vg.sp.ph != S_END);
	s = vg.sp; 
	total = nondet_int(); __CPROVER_assume(total >= 0 && total <= N);
	for (i = 0; i < N; i++) data[i] = nondet_uchar();
	avail = total;
	for (i = 0; i < N && i < total; i++) {
		if (s.ph == S_ERR || s.ph == S_END) break;
		if (s.ph == S_DATA) { e[en++] = data[i]; if (--s.len == 0) s.ph = S_DCR; } else spec_char(&s, data[i]);
		if (s.ph == S_END) endpos = i + 1;
	}
	vp_in.is_closed = closed = nondet_bool();
	r = li_filter_chunked_decode(&vp_vr, &vp_out, &vp_in, &vp_state);
	VP_REACH("returns"); VP_REACH("returns"); VP_REACH("returns"); VP_REACH("returns"); VP_REACH("returns");
	VP_ENSURES(r == (s.ph == S_END || (s.ph != S_ERR && !closed)), "malformed or truncated coding is an error, everything else is not");
	VP_ENSURES(!r || outn == en, "decoded length");
	i = nondet_int(); __CPROVER_assume(i >= 0 && i < N && i < en);
	VP_ENSURES(!r || outd[i] == e[i], "decoded bytes");
	VP_ENSURES(vp_out.is_closed == (!r || s.ph == S_END), "output is closed exactly at the end of the body");
	VP_ENSURES(!r || pos == (endpos >= 0 ? endpos : total), "consumed input");
	vg.sp = s;
	VP_ENSURES(!r || REL, "decoder state and automaton agree");
}
#endif

/* ---------- encoder: output recorded as a sequence of events ---------- */
static unsigned char eb[64]; static GByteArray ea = { eb, 0 };
static int nev; static struct { int kind; const void *p; gssize len; } ev[8]; static unsigned char evb[8][32];
GByteArray *g_byte_array_sized_new(guint n) { ea.data = eb; ea.len = 0; return &ea; }
GByteArray *g_byte_array_set_size(GByteArray *a, guint n) { VP_CALLPRE(n <= 32, "array size"); a->len = n; return a; }
GByteArray *g_byte_array_append(GByteArray *a, const guint8 *d, guint n) { guint i; VP_CALLPRE(a->len <= 40 && n <= 8, "array append"); for (i = 0; i < n && i < 8; i++) a->data[a->len + i] = d[i]; a->len += n; return a; }
static void vp_append_bytearr(liChunkQueue *cq, GByteArray *a) { guint i; VP_CALLPRE(cq == &vp_out, "to output"); if (nev < 8) { ev[nev].kind = 1; ev[nev].len = a->len; for (i = 0; i < 32; i++) evb[nev][i] = i < a->len ? a->data[i] : 0; } nev++; }
static void vp_append_mem(liChunkQueue *cq, const void *mem, gssize len) { gssize i; VP_CALLPRE(cq == &vp_out, "to output"); VP_CALLPRE(len >= 0 && len < 8, "short constant"); if (nev < 8) { ev[nev].kind = 2; ev[nev].len = len; for (i = 0; i < 8 && i < len; i++) evb[nev][i] = ((const unsigned char*) mem)[i]; } nev++; }
static goffset vp_steal_all(liChunkQueue *out, liChunkQueue *in) { VP_CALLPRE(out == &vp_out && in == &vp_in, "input to output"); if (nev < 8) { ev[nev].kind = 3; ev[nev].len = in->length; } nev++; in->length = 0; return 0; }
void h_encode(void) {
	goffset len = nondet_long(); gboolean ic = nondet_bool(), oc = nondet_bool(); int i, k = 0, nd = 0;
	VP_REQUIRES(len >= 0);
	memset(&vp_in, 0, sizeof vp_in); memset(&vp_out, 0, sizeof vp_out);
	vp_in.length = len; vp_in.is_closed = ic; vp_out.is_closed = oc;
	nev = 0;
	VP_ENSURES(li_filter_chunked_encode(&vp_vr, &vp_out, &vp_in) == LI_HANDLER_GO_ON, "never fails");
	VP_REACH("returns"); if (len > 0 && ic) VP_REACH("data and end");
	/* flatten header written in front of the data */
	unsigned char all[64]; int n = 0, seen_data = 0, dpos = -1;
	for (k = 0; k < 8; k++) if (k < nev) {
		if (ev[k].kind == 3) { VP_ENSURES(ev[k].len == len && !seen_data, "all data once"); seen_data = 1; dpos = n; }
		else for (i = 0; i < 32; i++) if (i < ev[k].len && n < 64) all[n++] = evb[k][i];
	}
	VP_ENSURES(nev <= 8, "bounded number of pieces");
	VP_ENSURES(seen_data == (len > 0) || (len == 0 && seen_data), "data is passed on");
	int x = 0;
	if (len > 0) {
		guint64 v = 0;
		VP_ENSURES(dpos >= 3 && dpos <= 18, "chunk header before the data");
		for (i = 0; i < 16; i++) if (i < dpos - 2) {
			unsigned char c = all[i]; int d = (c >= '0' && c <= '9') ? c - '0' : (c >= 'a' && c <= 'f') ? c - 'a' + 10 : (c >= 'A' && c <= 'F') ? c - 'A' + 10 : -1;
			VP_ENSURES(d >= 0, "hex digit"); v = (v << 4) | d; }
		VP_ENSURES(v == (guint64) len, "chunk header is the length in hex");
		VP_ENSURES(all[dpos-2] == '\r' && all[dpos-1] == '\n', "chunk header ends with CRLF");
		VP_ENSURES(all[dpos] == '\r' && all[dpos+1] == '\n', "data is followed by CRLF");
		x = dpos + 2;
	}
	if (ic && !oc) {
		VP_ENSURES(n == x + 5 && all[x] == '0' && all[x+1] == '\r' && all[x+2] == '\n' && all[x+3] == '\r' && all[x+4] == '\n', "last chunk");
		VP_ENSURES(vp_out.is_closed, "output closed");
	} else {
		VP_ENSURES(n == x, "nothing but the chunk");
		VP_ENSURES(vp_out.is_closed == oc, "output stays open");
	}
}
