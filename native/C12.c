/* executable contract of C12: encodings and decimal output */
#include <lighttpd/base.h>
#include <lighttpd/encoding.h>
#include "vn.h"
static void ref(GString *o, const unsigned char *s, int enc) {
	for (; *s; s++) { unsigned char c = *s; int e = 0;
		if (enc == LI_ENCODING_HEX) g_string_append_printf(o, "%02x", c);
		else if (enc == LI_ENCODING_HTML) { e = c < 32 || c == 127 || strchr("&<>\"'", c); if (e) g_string_append_printf(o, "&#x%02x;", c); else g_string_append_c(o, c); }
		else { e = !(g_ascii_isalnum(c) || strchr("!()*-./_", c)); if (e) g_string_append_printf(o, "%%%02x", c); else g_string_append_c(o, c); } } }
int main(int argc, char **argv) {
	vn_init(argc, argv);
	while (vn_more(1.0)) {
		int n = vn_r(4) ? vn_r(9) : vn_r(300), i, enc = (int[]) { LI_ENCODING_HTML, LI_ENCODING_HEX, LI_ENCODING_URI }[vn_r(3)]; char *s = malloc(n + 1); GString *e = g_string_new(""), *d = vn_r(4) ? g_string_new("old content") : NULL, *r; int app = vn_r(2);
		for (i = 0; i < n; i++) s[i] = vn_r(3) ? 1 + vn_r(255) : "<>&\"'%/a .\n\x7f\x80"[vn_r(13)]; s[n] = 0; vn_evals++; vn_nontriv += n > 2;
		vn_setcase("encoding %d of \"%s\" %s", enc, vn_q(s, n), !d ? "(new string)" : app ? "(append)" : "");
		if (app && d) g_string_append_len(e, d->str, d->len); ref(e, (void*) s, enc);
		r = app ? li_string_encode_append(s, d, enc) : li_string_encode(s, d, enc);
		if (d && r != d) vn_fail("other string returned");
		if (r->len != e->len || memcmp(r->str, e->str, e->len + 1)) vn_fail("encoded as \"%s\" (length %d), expected \"%s\"", vn_q(r->str, strlen(r->str)), (int) r->len, vn_q(e->str, e->len));
		if (enc == LI_ENCODING_URI) { GString *u = g_string_new(""); ref(u, (void*) s, enc); char *t = strdup(s); int ok = 1; for (i = 0; i < n; i++) if ((unsigned char) s[i] < 32 || s[i] == 127) ok = 0; li_url_decode(u); if (ok && (u->len != (gsize) n || memcmp(u->str, t, n))) vn_fail("does not decode back"); g_string_free(u, TRUE); free(t); }
		vn_sample("%s", vn_case); g_string_free(r, TRUE); g_string_free(e, TRUE); free(s);
		{ gint64 v = vn_r(3) ? (gint64)(vn_rand() >> vn_r(64)) : (gint64) vn_r(12) * (vn_r(2) ? 1 : 10) ; char x[40]; GString *g = g_string_new(""); if (v == G_MININT64) v = 0; if (vn_r(4) == 0) v = -v; if (vn_r(10) == 0) v = G_MAXINT64 - vn_r(3); if (vn_r(10) == 0) { v = 1; for (i = vn_r(18); i > 0; i--) v *= 10; v -= vn_r(2); }
		  vn_setcase("number %lld", (long long) v); if (vn_r(2)) g_string_append(g, "ab"); sprintf(x, "%s%lld", g->str, (long long) v); li_string_append_int(g, v); if (g->len != strlen(x) || strcmp(g->str, x)) vn_fail("%lld printed as \"%s\" (length %d)", (long long) v, vn_q(g->str, strlen(g->str)), (int) g->len); g_string_free(g, TRUE); }
	}
	return vn_done("random strings in all encodings against a reference, numbers against printf; non-trivial: more than two bytes");
}
