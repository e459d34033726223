/* executable contract of C02 */
#include <lighttpd/base.h>
#include "vn.h"
#include <fcntl.h>
/* reference decoder: whole body at once; returns -1 malformed, 0 incomplete, 1 complete, 2 unspecified */
static int ref(const GString *in, GString *out, gsize *used) {
	gsize i = 0;
	g_string_truncate(out, 0);
	for (;;) {
		guint64 v = 0; int nd = 0;
		for (;; i++) {
			int d;
			if (i >= in->len) return 0;
			d = g_ascii_xdigit_value(in->str[i]);
			if (d < 0) break;
			if (v > (G_MAXINT64 >> 4)) return -1;
			v = v * 16 + d; nd++;
		}
		if (!nd || in->str[i] != '\r') return -1;
		if (++i >= in->len) return 0;
		if (in->str[i] != '\n') return -1;
		i++;
		if (v == 0) break;
		if (v > in->len - i) { g_string_append_len(out, in->str + i, in->len - i); return 0; }
		g_string_append_len(out, in->str + i, v); i += v;
		if (i >= in->len) return 0;
		if (in->str[i] != '\r') return -1;
		if (++i >= in->len) return 0;
		if (in->str[i] != '\n') return -1;
		i++;
	}
	for (i -= 2; i + 4 <= in->len; i++) /* trailer section: up to the first empty line; its first line starts right behind the last chunk */
		if (0 == memcmp(in->str + i, "\r\n\r\n", 4)) { *used = i + 4; return 1; }
	return 0;
}
static GString *drain(liChunkQueue *q) { GString *s = g_string_new(""); if (q->length > 0 && !li_chunkqueue_extract_to(q, q->length, s, NULL)) vn_fail("extract failed"); return s; }
static void put(liChunkQueue *q, const char *d, gsize n) {
	switch (vn_r(4)) {
	case 0: li_chunkqueue_append_mem(q, d, n); break;
	case 1: li_chunkqueue_append_string(q, g_string_new_len(d, n)); break;
	case 2: if (n) { liBuffer *b = li_buffer_new_slice(n + 4); memcpy(b->addr, d, n); b->used = n; li_chunkqueue_append_buffer(q, b); } break;
	default: { static int k; char fn[64]; int fd; GString *s;
		if (vn_r(20) || !n) { li_chunkqueue_append_mem(q, d, n); break; }
		snprintf(fn, sizeof fn, "c02.%d", k++ & 63); fd = open(fn, O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd < 0 || write(fd, d, n) != (ssize_t) n) _exit(3);
		s = g_string_new(fn); li_chunkqueue_append_file_fd(q, s, 0, n, fd); g_string_free(s, TRUE); }
	}
}
static void decode_case(GString *in) {
	static liVRequest vr; GString *exp = g_string_new(""), *got; gsize used = 0, pos = 0; int r = ref(in, exp, &used), calls = 0; gboolean ok = TRUE;
	liChunkQueue *qi = li_chunkqueue_new(), *qo = li_chunkqueue_new(); liFilterChunkedDecodeState st; memset(&st, 0, sizeof st);
	GString *splits = g_string_new("");
	int closeit = vn_r(2), early = vn_r(3) == 0, mode = vn_r(3);
	vn_evals++;
	if (r == 1) vn_nontriv++;
	while (ok && !qo->is_closed) {
		gsize n = mode == 0 ? 1 : mode == 1 ? in->len - pos : vn_r(12);
		if (n > in->len - pos) n = in->len - pos;
		if (pos == in->len) { if (qi->is_closed || !closeit) break; qi->is_closed = TRUE; }
		else { gsize a = vn_r(3) ? n : vn_r(n + 1); put(qi, in->str + pos, a); if (a < n) put(qi, in->str + pos + a, n - a); pos += n; if (pos == in->len && closeit && early) qi->is_closed = TRUE; }
		g_string_append_printf(splits, "%u%s ", (unsigned) n, qi->is_closed ? "C" : "");
		vn_setcase("chunked body \"%s\" in pieces %s", vn_q(in->str, in->len), splits->str);
		ok = li_filter_chunked_decode(&vr, qo, qi, &st);
		if (ok && !qo->is_closed && qi->length != 0) vn_fail("decoder stopped with %ld bytes unread", (long) qi->length);
		if (++calls > 100000) vn_fail("no progress");
	}
	got = drain(qo);

	if (r == 1) {
		if (!ok || !qo->is_closed) vn_fail("complete body not accepted (ok=%d closed=%d)", ok, qo->is_closed);
		if (!g_string_equal(got, exp)) vn_fail("decoded \"%s\" instead of \"%s\"", vn_q(got->str, got->len), vn_q(exp->str, exp->len));
		{ GString *rest = drain(qi); if (rest->len != pos - used || memcmp(rest->str, in->str + used, rest->len)) vn_fail("bytes behind the body: \"%s\" instead of %u bytes", vn_q(rest->str, rest->len), (unsigned) (pos - used)); g_string_free(rest, TRUE); }
		if (!li_filter_chunked_decode(&vr, qo, qi, &st) || !qo->is_closed) vn_fail("finished decoder fails");
		if ((goffset) exp->len != qo->bytes_in) vn_fail("output after the end of the body");
	} else if (r < 0 || closeit) {
		if (ok) vn_fail("%s body accepted", r < 0 ? "malformed" : "truncated");
		if (!qo->is_closed) vn_fail("output not closed after error");
		if (got->len > exp->len || memcmp(got->str, exp->str, got->len)) vn_fail("garbage output \"%s\"", vn_q(got->str, got->len));
		put(qi, "1\r\nX\r\n0\r\n\r\n", 11);
		if (li_filter_chunked_decode(&vr, qo, qi, &st)) vn_fail("decoder recovers after an error");
		if (qo->bytes_in != (goffset) got->len) vn_fail("output after an error");
	} else {
		if (!ok || qo->is_closed) vn_fail("incomplete body: ok=%d closed=%d", ok, qo->is_closed);
		if (!g_string_equal(got, exp)) vn_fail("decoded \"%s\" instead of \"%s\"", vn_q(got->str, got->len), vn_q(exp->str, exp->len));
	}
out:
	if (r == 1 && exp->len > 3) vn_sample("%s", vn_case);
	g_string_free(got, TRUE); g_string_free(exp, TRUE); g_string_free(splits, TRUE);
	li_chunkqueue_free(qi); li_chunkqueue_free(qo);
}
static void encode_case(void) { /* pieces -> encoder -> reference decoder gives the pieces back */
	liChunkQueue *qi = li_chunkqueue_new(), *qo = li_chunkqueue_new(); static liVRequest vr; GString *all = g_string_new(""), *wire, *dec = g_string_new(""); gsize used = 0; int i, n = vn_r(6), r; gboolean closed_with = vn_r(2);
	vn_evals++;
	for (i = 0; i < n; i++) {
		int k = vn_r(3);
		while (k--) { char b[300]; gsize j, l = vn_r(vn_r(4) ? 20 : 300); for (j = 0; j < l; j++) b[j] = vn_rand() >> 9; put(qi, b, l); g_string_append_len(all, b, l); }
		if (closed_with && i == n - 1) qi->is_closed = TRUE;
		if (li_filter_chunked_encode(&vr, qo, qi) != LI_HANDLER_GO_ON) vn_fail("encode fails");
		if (qi->length) vn_fail("encoder leaves input");
		if (!!qo->is_closed != !!qi->is_closed) vn_fail("closed state of encoder output");
	}
	if (!qi->is_closed) { qi->is_closed = TRUE; li_filter_chunked_encode(&vr, qo, qi); }
	if (vn_r(2)) li_filter_chunked_encode(&vr, qo, qi); /* called again after the end */
	wire = drain(qo);
	vn_setcase("encoded \"%s\"", vn_q(wire->str, wire->len));
	r = ref(wire, dec, &used);
	if (r != 1 || used != wire->len) vn_fail("encoder output is not one complete body (%d, %u of %u)", r, (unsigned) used, (unsigned) wire->len);
	if (!g_string_equal(dec, all)) vn_fail("encoder changed the data");
	g_string_free(wire, TRUE); g_string_free(dec, TRUE); g_string_free(all, TRUE); li_chunkqueue_free(qi); li_chunkqueue_free(qo);
}
static void encode_len(goffset len) { /* sizes far beyond memory: file chunk of that length */
	liChunkQueue *qi = li_chunkqueue_new(), *qo = li_chunkqueue_new(); static liVRequest vr; GString *s = g_string_new("/nonexistent"); char e[40], g[40] = ""; goffset hl; liChunkIter it; gsize l;
	vn_evals++;
	li_chunkqueue_append_file(qi, s, 0, len); g_string_free(s, TRUE);
	li_filter_chunked_encode(&vr, qo, qi);
	hl = qo->length - len - 2; vn_setcase("encode chunk of length %ld", (long) len);
	snprintf(e, sizeof e, "%lx\r\n", (long) len);
	if (hl < 3 || hl > 20) vn_fail("header of %ld bytes", (long) hl);
	{ GString *h = g_string_new(""); if (!li_chunkqueue_extract_to(qo, hl, h, NULL)) vn_fail("extract"); if (g_ascii_strcasecmp(h->str, e)) { const char *x = h->str; while (*x == '0') x++; if (g_ascii_strcasecmp(x, e)) vn_fail("header \"%s\" instead of \"%s\"", vn_q(h->str, h->len), vn_q(e, strlen(e))); } g_string_free(h, TRUE); }
	li_chunkqueue_free(qi); li_chunkqueue_free(qo); (void) it; (void) g; (void) l;
}
static void gen(GString *s) {
	static const char *junk[] = { "\r", "\n", "\r\n", "0", "0\r\n\r\n", " ", ";", ";x=y", "a", "F", "g", "-1", "+1", "0x1", "7fffffffffffffff", "8000000000000000", "ffffffffffffffff", "10000000000000001", "fffffffffffffff", "00000000000000000005", "\r\n\r\n", ":", "\t" };
	int n = vn_r(5), i, j; g_string_truncate(s, 0);
	for (i = 0; i < n; i++) {
		gsize l = vn_r(6) ? 1 + vn_r(20) : 1 + vn_r(400);
		g_string_append_printf(s, vn_r(3) ? "%lx\r\n" : vn_r(2) ? "%lX\r\n" : "000%lx\r\n", (long) l);
		for (j = 0; j < (int) l; j++) g_string_append_c(s, vn_r(4) ? 'a' + vn_r(26) : (char) "\r\n0;x\0\xff"[vn_r(7)]);
		g_string_append(s, "\r\n");
	}
	g_string_append(s, vn_r(5) ? "0\r\n" : "000\r\n");
	n = vn_r(3) ? 0 : vn_r(3);
	for (i = 0; i < n; i++) g_string_append(s, vn_r(2) ? "X-Tr: v\r\n" : vn_r(2) ? "Y:\n z 1\r\n" : vn_r(2) ? "\rX\r\r\n" : "\r\r\n");
	g_string_append(s, "\r\n");
	if (vn_r(3) == 0) g_string_append(s, "GET / HTTP/1.1\r\n\r\n");
	switch (vn_r(3)) { /* damage */
	case 0: { int k = 1 + vn_r(2); while (k--) { gsize p = vn_r(s->len + 1); const char *t = junk[vn_r(G_N_ELEMENTS(junk))]; if (vn_r(2) && p < s->len) g_string_erase(s, p, 1); if (vn_r(2)) g_string_insert(s, p, t); else if (p < s->len) s->str[p] = vn_rand() >> 7; } break; }
	case 1: if (vn_r(2)) g_string_truncate(s, vn_r(s->len + 1)); break;
	}
	if (vn_r(40) == 0) { g_string_truncate(s, 0); for (i = vn_r(8); i > 0; i--) g_string_append(s, junk[vn_r(G_N_ELEMENTS(junk))]); }
}
int main(int argc, char **argv) {
	GString *s = g_string_new(""); int i; goffset l;
	vn_init(argc, argv);
	for (i = 0; i < 63; i++) for (l = -1; l <= 1; l++) { goffset x = ((goffset) 1 << i) + l; if (x > 0 && x < G_MAXINT64 - 100) encode_len(x); }
	encode_len(G_MAXINT64 - 100);
	while (vn_more(1.0)) { gen(s); decode_case(s); if (vn_r(4) == 0) encode_case(); if (vn_r(50) == 0) encode_len(1 + (vn_rand() >> (2 + vn_r(60)))); }
	return vn_done("chunked bodies (valid, damaged, truncated, with pipelined rest) in random pieces vs a reference decoder; encoder output decoded again; non-trivial: complete bodies");
}
