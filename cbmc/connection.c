/* C07: request body / response / keep-alive steps of a connection (real text of src/main/connection.c) */
#define _LIGHTTPD_BASE_H_GUARD
#include <lighttpd/base.h>
#include <lighttpd/throttle.h>
#include <lighttpd/plugin_core.h>
#include "vp.h"
#include "vp_spec.h"
size_t li_vk, li_vk2; unsigned char li_vb, li_vb2; li_ghost_t li_g;
#undef VR_ERROR
#define VR_ERROR(vr, ...) ((void) 0)
#undef VR_DEBUG
#define VR_DEBUG(vr, ...) ((void) 0)
#undef VR_INFO
#define VR_INFO(vr, ...) ((void) 0)
#undef CORE_OPTION
#define CORE_OPTION(idx) (vp_opt[(idx) == LI_CORE_OPTION_MAX_KEEP_ALIVE_IDLE])
static liOptionValue vp_opt[2];
#undef g_atomic_int_get
#define g_atomic_int_get(p) (*(p))
#include "vp_force.h"
#include "src/main/connection.c"
static liConnection con; static liVRequest vr; static liServer srv; static liWorker wrk; static liStream ssrc, osrc; static liChunkQueue raw_in, in, raw_out, out;
static int n_keep, n_reset, n_shut, n_close, n_plug, n_err, n_notify, n_cclose;
void vp_reset_keep_alive(liConnection *c) { VP_CALLPRE(c == &con, "same connection"); n_keep++; }
void vp_shutdown(liConnection *c) { n_shut++; }
void vp_connection_close(liConnection *c) { n_cclose++; }
void vp_con_reset(liConnection *c) { n_reset++; }
void vp_con_error(liConnection *c) { n_err++; }
void li_plugins_handle_close(liConnection *c) { n_plug++; }
void vp_io_wait(liConnection *c) { }
void h_done(void) {
	con.mainvr = &vr; con.srv = &srv; con.in.out = &in; con.con_sock.data = nondet_bool() ? &srv : NULL; srv.dest_state = nondet_int();
	con.state = nondet_int(); __CPROVER_assume(con.state >= LI_CON_STATE_DEAD && con.state <= LI_CON_STATE_UPGRADED);
	con.info.keep_alive = nondet_bool(); in.is_closed = nondet_bool(); vp_opt[0].boolean = FALSE;
	int dead = con.state == LI_CON_STATE_CLOSE || con.state == LI_CON_STATE_DEAD;
	li_connection_request_done(&con);
	VP_REACH("returns"); if (n_keep) VP_REACH("kept"); if (n_reset) VP_REACH("closed");
	VP_ENSURES(n_keep == (!dead && con.info.keep_alive && in.is_closed && (srv.dest_state == LI_SERVER_RUNNING || srv.dest_state == LI_SERVER_WARMUP) && con.con_sock.data != NULL), "the connection is reused exactly if keep-alive is on and the request was read completely");
	VP_ENSURES(n_keep + n_reset == !dead && n_shut == n_reset, "otherwise it is shut down");
	VP_ENSURES(n_plug == !dead, "end of the request is announced once");
}
/* request body */
static goffset moved; static int n_dec, dec_ok, dec_done; static goffset dec_bytes;
goffset li_chunkqueue_steal_len(liChunkQueue *o, liChunkQueue *i, goffset n) { VP_CALLPRE(o == &in && i == &raw_in && n >= 0, "from the socket to the request body"); if (n > i->length) n = i->length; moved += n; o->length += n; o->bytes_in += n; i->length -= n; return n; }
goffset li_chunkqueue_steal_all(liChunkQueue *o, liChunkQueue *i) { goffset n = i->length; VP_CALLPRE((o == &in && i == &raw_in) || (o == &raw_out && i == &out), "streams of this connection"); moved += n; o->length += n; o->bytes_in += n; i->length = 0; return n; }
gboolean li_filter_chunked_decode(liVRequest *v, liChunkQueue *o, liChunkQueue *i, liFilterChunkedDecodeState *s) {
	VP_CALLPRE(v == &vr && o == &in && i == &raw_in && s == &con.in_chunked_decode_state, "decodes this request body"); n_dec++;
	dec_ok = nondet_bool(); dec_done = nondet_bool(); dec_bytes = nondet_long(); __CPROVER_assume(dec_bytes >= 0 && dec_bytes <= i->length);
	o->length += dec_bytes; o->bytes_in += dec_bytes; if (dec_ok && dec_done) o->is_closed = TRUE;
	return dec_ok;
}
void li_stream_notify(liStream *s) { n_notify++; }
void h_in_body(void) {
	goffset cl0, got, avail; int closed0, ev = nondet_int(), st;
	con.mainvr = &vr; con.in.out = &in; con.in.source = nondet_bool() ? &ssrc : NULL; ssrc.out = &raw_in;
	con.state = st = nondet_int(); __CPROVER_assume(st == LI_CON_STATE_HANDLE_MAINVR || st == LI_CON_STATE_WRITE || st == LI_CON_STATE_UPGRADED);
	vr.request.content_length = cl0 = nondet_long(); __CPROVER_assume(cl0 >= -1);
	in.bytes_in = got = nondet_long(); in.length = nondet_long(); in.is_closed = closed0 = nondet_bool(); raw_in.length = avail = nondet_long(); raw_in.is_closed = nondet_bool();
	__CPROVER_assume(got >= 0 && got < ((goffset) 1 << 61) && in.length >= 0 && in.length <= got && avail >= 0 && avail < ((goffset) 1 << 61) && (cl0 == -1 || got <= cl0));
	__CPROVER_assume(!closed0 || cl0 == got); /* closed only by this function, at the end of the body */
	vp_opt[0].boolean = FALSE;
	_connection_http_in_cb(&con.in, LI_STREAM_NEW_DATA);
	VP_REACH("returns"); if (moved) VP_REACH("moves"); if (n_dec) VP_REACH("decodes"); if (n_err) VP_REACH("error");
	if (con.in.source == NULL || raw_in.is_closed || avail == 0) VP_ENSURES(moved == 0 && n_dec == 0 && n_cclose == (con.in.source != NULL && raw_in.is_closed), "nothing to read; end of input closes the connection");
	else if (st == LI_CON_STATE_UPGRADED) VP_ENSURES(moved == avail && n_dec == 0, "upgraded: everything is passed on");
	else if (closed0) VP_ENSURES(moved == 0 && n_dec == 0 && raw_in.length == avail, "bytes behind the request body stay for the next request");
	else if (cl0 >= 0) {
		VP_ENSURES(moved == (avail < cl0 - got ? avail : cl0 - got) && n_dec == 0, "reads at most the rest of the body");
		VP_ENSURES(raw_in.length == avail - moved, "bytes behind the request body stay for the next request");
		VP_ENSURES(!!in.is_closed == (got + moved == cl0), "body complete exactly at content-length");
	} else {
		VP_ENSURES(n_dec == 1 && moved == 0, "chunked body is decoded");
		VP_ENSURES(n_err == !dec_ok, "malformed chunked body is an error");
		VP_ENSURES(!dec_ok || !!in.is_closed == dec_done, "body complete exactly at the last chunk");
		VP_ENSURES(!dec_ok || !dec_done || vr.request.content_length == in.bytes_in, "length is known then");
	}
}
/* response */
static int n_head, n_enc, n_disc, head_close, enc_close; static int te_after; static int head_first;
void li_response_send_headers(liVRequest *v, liChunkQueue *ro, liChunkQueue *b, gboolean up) {
	VP_CALLPRE(v == &vr && ro == &raw_out && b == (con.out.source ? &out : NULL) && !up, "head of this response"); VP_CALLPRE(n_enc == 0 && moved == 0, "head before the body");
	n_head++; ro->length += 100; if (head_close) ro->is_closed = TRUE; v->response.transfer_encoding = te_after;
}
liHandlerResult li_filter_chunked_encode(liVRequest *v, liChunkQueue *o, liChunkQueue *i) { VP_CALLPRE(o == &raw_out && i == &out, "encodes this response"); n_enc++; i->length = 0; if (i->is_closed) o->is_closed = TRUE; return LI_HANDLER_GO_ON; }
void li_stream_disconnect(liStream *s) { VP_CALLPRE(s == &con.out, "own stream"); n_disc++; s->source = NULL; }
void h_out(void) {
	int st, sent, all0, src, te0; goffset olen, oclosed;
	con.mainvr = &vr; con.out.out = &raw_out; con.out.source = (src = nondet_bool()) ? &osrc : NULL; osrc.out = &out;
	con.state = st = nondet_int(); __CPROVER_assume(st >= LI_CON_STATE_KEEP_ALIVE && st <= LI_CON_STATE_WRITE);
	con.response_headers_sent = sent = nondet_bool(); con.out_has_all_data = all0 = nondet_bool(); __CPROVER_assume(!all0 || sent);
	out.length = olen = nondet_long(); out.is_closed = oclosed = nondet_bool(); raw_out.length = nondet_long(); raw_out.is_closed = FALSE; __CPROVER_assume(olen >= 0 && olen < ((goffset) 1 << 61) && raw_out.length >= 0 && raw_out.length < ((goffset) 1 << 61));
	head_close = nondet_bool(); te_after = nondet_bool() ? LI_HTTP_TRANSFER_ENCODING_CHUNKED : 0; vr.response.transfer_encoding = te0 = nondet_bool() ? LI_HTTP_TRANSFER_ENCODING_CHUNKED : 0; if (sent) { te_after = te0; head_close = 0; }
	vp_opt[0].boolean = FALSE; vp_opt[1].number = nondet_long(); con.info.keep_alive = nondet_bool();
	int started = st >= LI_CON_STATE_HANDLE_MAINVR && (src || st != LI_CON_STATE_HANDLE_MAINVR);
	_connection_http_out_cb(&con.out, LI_STREAM_NEW_DATA);
	VP_REACH("returns"); if (n_enc) VP_REACH("chunked"); if (moved) VP_REACH("plain");
	VP_ENSURES(n_head == (started && !sent), "the head is sent once, when the response is ready");
	if (!started) VP_ENSURES(moved == 0 && n_enc == 0, "no data without a response");
	else {
		int body = !all0 && !head_close && src;
		VP_ENSURES(n_enc == (body && te_after) && moved == (body && !te_after ? olen : 0), "the body is sent once, chunked exactly if announced so");
		VP_ENSURES(!!con.out_has_all_data == (all0 || head_close || !src || oclosed), "complete exactly when the body is");
		VP_ENSURES(!raw_out.is_closed || !con.out_has_all_data, "the socket stays open for keep-alive");
		VP_ENSURES(con.out_has_all_data == 0 || con.state >= LI_CON_STATE_WRITE, "state");
		VP_ENSURES(n_disc == (con.out_has_all_data && src), "leaves the handler when done");
		VP_ENSURES(sent || vp_opt[1].number != 0 || !con.info.keep_alive, "keep-alive can be switched off");
	}
}
