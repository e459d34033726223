/* C06: executable contract: request heads through the real parser (in arbitrary pieces) and li_request_validate_header, against reference framing rules */
#include <lighttpd/base.h>
#include <lighttpd/plugin_core.h>
#include <lighttpd/http_request_parser.h>
#include <lighttpd/url_parser.h>
#include "vn.h"
static liVRequest vr; static liConnection con; static liServer srv; static liWorker wrk; static liOptionValue opts[64]; static liOptionPtrValue *optptrs[64];
static liHttpRequestCtx ctx; static liChunkQueue *cq;
typedef struct { const char *raw, *val; int kind; gint64 num; } cls; /* kind: 0 ok, 1 bad, ... */
static const cls CL[] = { {"0","0",0,0}, {"5","5",0,5}, {"05","05",0,5}, {"42","42",0,42}, {"9223372036854775807","9223372036854775807",0,G_MAXINT64}, {"9223372036854775808","9223372036854775808",1,0},
	{"99999999999999999999999","99999999999999999999999",1,0}, {"-1","-1",1,0}, {"+5","+5",1,0}, {"","",1,0}, {"5 5","5 5",1,0}, {"5,5","5,5",1,0}, {"5, 6","5, 6",1,0}, {"0x5","0x5",1,0}, {"5x","5x",1,0}, {"abc","abc",1,0}, {"-9223372036854775809","-9223372036854775809",1,0}, {"1e3","1e3",1,0}, {"18446744073709551621","18446744073709551621",1,0}, {"4294967301","4294967301",0,4294967301ll}, {"5   ","5",0,5}, {"\t 5","5",0,5}, {"-0","-0",1,0}, {"5\r\n 5","5 5",1,0}, {"5\r\n ","5",0,5} };
static const cls TE[] = { {"chunked","chunked",1,0}, {"Chunked","Chunked",1,0}, {"CHUNKED  ","CHUNKED",1,0}, {"identity","identity",0,0}, {"Identity","Identity",0,0}, {"gzip","gzip",2,0}, {"gzip, chunked","gzip, chunked",2,0}, {"chunked, chunked","chunked, chunked",2,0}, {"","",2,0}, {"xchunked","xchunked",2,0}, {"chunkedx","chunkedx",2,0}, {"chunke","chunke",2,0}, {"chunked,","chunked,",2,0}, {"chunked\r\n ","chunked",1,0}, {"\tchunked", "chunked",1,0}, {"\"chunked\"", "\"chunked\"",2,0}, {"identity, chunked", "identity, chunked",2,0} };
static const cls EX[] = { {"100-continue","100-continue",0,0}, {"100-Continue","100-Continue",0,0}, {"100","100",1,0}, {"200-ok","200-ok",1,0}, {"100-continue2","100-continue2",1,0} };
static const cls CO[] = { {"close","close",1,0}, {"Close","Close",1,0}, {"keep-alive","keep-alive",2,0}, {"Keep-Alive ","Keep-Alive",2,0}, {"upgrade","upgrade",0,0}, {"closed","closed",0,0}, {"keep","keep",0,0} };
static const struct { const char *raw; int ok; const char *host; } HO[] = { {"example.com",1,"example.com"}, {"EXAMPLE.com:80",1,"example.com"}, {"a.b.",1,"a.b"}, {"a...",1,"a"}, {"...",1,""}, {"127.0.0.1",1,"127.0.0.1"}, {"[::1]:8080",1,"[::1]"}, {"a b",0,0}, {"a/b",0,0}, {"a:b",0,0}, {"u@h",0,0}, {"",2,0}, {"a/../../etc",0,0}, {"../x",0,0}, {"a\\b",0,0}, {"a?b",0,0}, {"x_y",1,"x_y"}, {"h:",0,0}, {":80",0,0}, {"a,b",1,"a,b"}, {"/",0,0}, {"[::1",0,0}, {"[v1.x]",1,"[v1.x]"}, {"h\r\n x",0,0} };
static const struct { const char *raw; int ok; const char *host; const char *scheme; } UR[] = { {"/",1,0,0}, {"/a?b",1,0,0}, {"http://h2/x",1,"h2","http"}, {"https://H3.:81/y?z",1,"h3","https"}, {"*",2,0,0}, {"foo",0,0,0}, {"ftp://h/x",0,0,0}, {"http:/x",0,0,0}, {"http://h4",0,0,0}, {"/x#f",1,0,0}, {"http://u:p@h5/",1,"h5","http"} };
static const struct { const char *s; liHttpMethod m; } ME[] = { {"GET",LI_HTTP_METHOD_GET}, {"HEAD",LI_HTTP_METHOD_HEAD}, {"POST",LI_HTTP_METHOD_POST}, {"PUT",LI_HTTP_METHOD_PUT}, {"OPTIONS",LI_HTTP_METHOD_OPTIONS}, {"DELETE",LI_HTTP_METHOD_DELETE}, {"CONNECT",LI_HTTP_METHOD_CONNECT}, {"FOO",LI_HTTP_METHOD_UNSET}, {"get",LI_HTTP_METHOD_UNSET}, {"GETX",LI_HTTP_METHOD_UNSET}, {"LOCK",LI_HTTP_METHOD_LOCK}, {"PROPFIND",LI_HTTP_METHOD_PROPFIND} };
static const struct { const char *s; int v; } VE[] = { {"HTTP/1.1",LI_HTTP_VERSION_1_1}, {"HTTP/1.1",LI_HTTP_VERSION_1_1}, {"HTTP/1.0",LI_HTTP_VERSION_1_0}, {"HTTP/2.0",LI_HTTP_VERSION_UNSET}, {"HTTP/1.10",LI_HTTP_VERSION_UNSET}, {"HTTP/1.2",LI_HTTP_VERSION_UNSET}, {"HTTP/0.9",LI_HTTP_VERSION_UNSET}, {"HTTP/11.1",LI_HTTP_VERSION_UNSET} };
static GString *msg; static char want[64][2][160]; static int nwant;
static void name(const char *n) { for (; *n; n++) g_string_append_c(msg, vn_r(5) ? *n : vn_r(2) ? g_ascii_toupper(*n) : g_ascii_tolower(*n)); }
static void line(const char *n, const char *raw, const char *val) {
	gsize at = msg->len; name(n); snprintf(want[nwant][0], 160, "%.*s", (int) (msg->len - at), msg->str + at); snprintf(want[nwant][1], 160, "%s", val); nwant++;
	g_string_append(msg, ":"); if (vn_r(8)) g_string_append(msg, vn_r(5) ? " " : "  "); g_string_append(msg, raw); g_string_append(msg, vn_r(6) ? "\r\n" : "\n");
}
static void feed(const char *s, gsize n) { if (!n) return; switch (vn_r(3)) { case 0: li_chunkqueue_append_mem(cq, s, n); break; case 1: li_chunkqueue_append_string(cq, g_string_new_len(s, n)); break; default: li_chunkqueue_append_bytearr(cq, g_byte_array_append(g_byte_array_new(), (const guint8*) s, n)); } }
static liHandlerResult drive(int mode) {
	gsize at = 0; liHandlerResult r = LI_HANDLER_WAIT_FOR_EVENT;
	li_request_reset(&vr.request); memset(&vr.response, 0, sizeof vr.response); con.info.keep_alive = TRUE; con.expect_100_cont = FALSE;
	li_chunkqueue_reset(cq); li_http_request_parser_reset(&ctx);
	while (at < msg->len) {
		gsize k = mode == 0 ? msg->len : mode == 1 ? 1 : vn_r(4) ? 1 + vn_r(6) : 1 + vn_r(60); if (k > msg->len - at) k = msg->len - at;
		feed(msg->str + at, k); at += k;
		if (mode == 2 && vn_r(3) == 0) continue;
		r = li_http_request_parse(&vr, &ctx);
		if (r != LI_HANDLER_WAIT_FOR_EVENT) break;
	}
	if (at == msg->len && r == LI_HANDLER_WAIT_FOR_EVENT) r = li_http_request_parse(&vr, &ctx);
	if (r == LI_HANDLER_GO_ON) feed(msg->str + at, msg->len - at); /* what the client sent behind it */
	return r;
}
static const char *rname[] = { "accepted", "comeback", "needs more data", "refused by the parser" };
int main(int argc, char **argv) {
	vn_init(argc, argv); msg = g_string_sized_new(4096); cq = li_chunkqueue_new();
	con.mainvr = &vr; con.srv = &srv; con.wrk = &wrk; wrk.srv = &srv; wrk.tmp_str = g_string_sized_new(255); vr.wrk = &wrk; vr.coninfo = &con.info; vr.options = opts; vr.optionptrs = optptrs;
	li_request_init(&vr.request); li_http_request_parser_init(&ctx, &vr.request, cq);
	while (vn_more(1.0)) {
		int i, n, u, m, v, ssl, strict, mode, err = 0, perr = 0, chunked = 0, has = 0, e100 = 0, keep = 0, close_ = 0, nhost = 0, big; gint64 num = 0; const char *host = NULL; gsize head; liHandlerResult r; gboolean ok; GList *l; GString *tail;
		vn_evals++; g_string_truncate(msg, 0); nwant = 0;
		if (vn_r(6) == 0) g_string_append(msg, vn_r(2) ? "\r\n" : "\n");
		m = vn_r(3) ? vn_r(4) : vn_r(G_N_ELEMENTS(ME)); v = vn_r(4) ? vn_r(3) : vn_r(G_N_ELEMENTS(VE)); u = vn_r(4) ? vn_r(2) : vn_r(G_N_ELEMENTS(UR)); strict = vn_r(2); ssl = vn_r(2);
		g_string_append_printf(msg, "%s %s %s%s", ME[m].s, UR[u].raw, VE[v].s, vn_r(5) ? "\r\n" : "\n");
		if (VE[v].v == LI_HTTP_VERSION_UNSET || UR[u].ok == 0 || (UR[u].ok == 2 && ME[m].m != LI_HTTP_METHOD_OPTIONS)) err = 1;
		n = vn_r(8); nhost = 0;
		if (vn_r(8)) n++;
		for (i = 0; i < n; i++) {
			int k = i == 0 && vn_r(8) ? 0 : vn_r(7), j;
			switch (k) {
			case 0: j = vn_r(4) ? vn_r(3) : vn_r(G_N_ELEMENTS(HO)); if (nhost && vn_r(6)) break; line("Host", HO[j].raw, strchr(HO[j].raw, '\r') ? "h x" : HO[j].raw); nhost++; host = HO[j].host;
				if (HO[j].ok == 0 && !UR[u].host) err = 1;
				if (HO[j].ok == 2 && VE[v].v == LI_HTTP_VERSION_1_1) err = 1;
				if (nhost > 1) err = 1;
				break;
			case 1: case 2: if (has && vn_r(3)) break; j = vn_r(3) ? vn_r(4) : vn_r(G_N_ELEMENTS(CL)); line("Content-Length", CL[j].raw, CL[j].val); if (CL[j].kind || (has && CL[j].num != num)) err = 1; has = 1; num = CL[j].num; break;
			case 3: if (vn_r(3)) break; j = vn_r(3) ? vn_r(5) : vn_r(G_N_ELEMENTS(TE)); line("Transfer-Encoding", TE[j].raw, TE[j].val); if (TE[j].kind == 2 || (TE[j].kind == 1 && chunked)) err = 1; if (TE[j].kind == 1) chunked = 1; break;
			case 4: if (vn_r(3)) break; j = vn_r(3) ? vn_r(2) : vn_r(G_N_ELEMENTS(EX)); line("Expect", EX[j].raw, EX[j].val); if (EX[j].kind) err = 1; else e100 = 1; break;
			case 5: j = vn_r(G_N_ELEMENTS(CO)); line("Connection", CO[j].raw, CO[j].val); if (CO[j].kind == 1) close_ = 1; if (CO[j].kind == 2) keep = 1; break;
			case 6: switch (vn_r(20)) {
				case 0: g_string_append(msg, "Content-Length : 5\r\n"); perr = 1; break;
				case 1: g_string_append(msg, "Foo\r\n"); perr = 1; break;
				case 2: g_string_append(msg, "X-Y: a\001b\r\n"); perr = 1; break;
				case 3: g_string_append(msg, "X Y: a\r\n"); perr = 1; break;
				case 4: g_string_append_len(msg, "X-Y: a\0b\r\n", 10); perr = 1; break;
				case 5: g_string_append(msg, "X-Y: a\rb\r\n"); perr = 1; break;
				case 6: g_string_append(msg, ": v\r\n"); perr = 1; break;
				case 7: line("X-Folded", "a\r\n\t b", "a b"); break;
				case 8: line("X-Content-Length", "7", "7"); break;
				case 9: line("Content-Lengt", "7", "7"); break;
				case 10: line("Transfer-Encodings", "chunked", "chunked"); break;
				case 11: line("Hos", "other", "other"); break;
				default: { char b[20]; snprintf(b, sizeof b, "v%u", vn_r(1000)); line("X-Some", b, b); } }
			}
		}
		big = 0;
		if (!perr && vn_r(400) == 0) { /* head of 64k +- 2 bytes */
			gsize total = 65536 - 2 + vn_r(5), pad = total - msg->len - 7; char *s = g_malloc(pad + 1); memset(s, 'x', pad); s[pad] = 0;
			g_string_append(msg, "Z: "); g_string_append(msg, s); g_string_append(msg, "\r\n\r\n"); g_free(s); big = 1; if (msg->len != total) abort(); if (total > 65536) big = 2; mode = vn_r(2) * 2; }
		else g_string_append(msg, vn_r(6) ? "\r\n" : "\n");
		head = msg->len;
		tail = g_string_new(""); n = vn_r(12); for (i = 0; i < n; i++) g_string_append_c(tail, "GET /\r\nab01:"[vn_r(12)]);
		g_string_append_len(msg, tail->str, tail->len);
		if (VE[v].v == LI_HTTP_VERSION_1_1 && !nhost) err = 1;
		if (e100 && VE[v].v == LI_HTTP_VERSION_1_0) err = 1;
		if ((ME[m].m == LI_HTTP_METHOD_GET || ME[m].m == LI_HTTP_METHOD_HEAD) && (chunked || (has && num > 0))) err = 1;
		if (ME[m].m == LI_HTTP_METHOD_POST && !has && !chunked && strict) err = 1;
		opts[LI_CORE_OPTION_STRICT_POST_CONTENT_LENGTH].boolean = strict; con.info.is_ssl = ssl;
		if (!big) mode = vn_r(3);
		vn_setcase("request \"%s\" (strict post: %d; delivery: %s)", vn_q(msg->str, msg->len), strict, mode == 0 ? "at once" : mode == 1 ? "byte by byte" : "random pieces");
		if (vn_evals % 4001 == 0) vn_sample("%s", vn_case);
		r = drive(mode);
		if (perr) { if (r != LI_HANDLER_ERROR) vn_fail("malformed header line %s", rname[r]); }
		else if (big == 2) { if (r != LI_HANDLER_ERROR || vr.response.http_status != 413) vn_fail("request head of %ld bytes: %s, status %d", (long) head, rname[r], vr.response.http_status); }
		else {
			if (r != LI_HANDLER_GO_ON) vn_fail("well-formed head %s", rname[r]);
			if (cq->length != (goffset) tail->len) vn_fail("%ld bytes left behind the head, expected %ld", (long) cq->length, (long) tail->len);
			if (strcmp(vr.request.http_method_str->str, ME[m].s) || vr.request.http_method != ME[m].m) vn_fail("method");
			if ((int) vr.request.http_version != VE[v].v) vn_fail("version"); if (strcmp(vr.request.uri.raw->str, UR[u].raw)) vn_fail("target");
			for (i = 0, l = vr.request.headers->entries.head; l; l = l->next, i++) {
				liHttpHeader *h = l->data;
				if (big && i == nwant && h->data->str[0] == 'Z') { i--; big = 3; continue; }
				if (i >= nwant) vn_fail("additional header \"%s\"", h->data->str);
				if (h->keylen != strlen(want[i][0]) || strncmp(h->data->str, want[i][0], h->keylen) || strcmp(h->data->str + h->keylen + 2, want[i][1])) vn_fail("header %d is \"%s\", expected \"%s: %s\"", i, vn_q(h->data->str, h->data->len), want[i][0], want[i][1]);
			}
			if (i != nwant) vn_fail("%d headers, expected %d", i, nwant);
			ok = li_request_validate_header(&con);
			if (ok != !err) vn_fail(ok ? "a request whose framing is invalid or ambiguous was accepted (body length %ld)" : "a valid request was refused (status %ld)", ok ? (long) vr.request.content_length : (long) vr.response.http_status);
			if (!ok && (vr.response.http_status < 400 || vr.response.http_status > 599)) vn_fail("refused with status %d", vr.response.http_status);
			if (!ok && con.info.keep_alive) vn_fail("refused, but the connection stays open");
			if (ok) {
				const char *eh = UR[u].host ? UR[u].host : nhost && host ? host : "";
				vn_nontriv++;
				if (vr.request.content_length != (chunked ? -1 : has ? num : 0)) vn_fail("body length %ld, expected %ld", (long) vr.request.content_length, (long) (chunked ? -1 : has ? num : 0));
				if (con.expect_100_cont != e100) vn_fail("100-continue: %d, expected %d", con.expect_100_cont, e100);
				if (con.info.keep_alive != (VE[v].v == LI_HTTP_VERSION_1_0 ? keep : !close_)) vn_fail("keep-alive: %d", con.info.keep_alive);
				if (strcmp(vr.request.uri.host->str, eh)) vn_fail("host \"%s\", expected \"%s\"", vr.request.uri.host->str, eh);
				if (strcmp(vr.request.uri.scheme->str, UR[u].scheme ? UR[u].scheme : ssl ? "https" : "http")) vn_fail("scheme \"%s\"", vr.request.uri.scheme->str);
			}
		}
		g_string_free(tail, TRUE);
	}
	return vn_done("random request heads built from valid, invalid and ambiguous framing headers, delivered at once, byte by byte or in random pieces; non-trivial: accepted requests");
}
