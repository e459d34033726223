/* contracts for the text encodings (real text of src/common/encoding.c) */
#include <lighttpd/settings.h>
#include "vp.h"
#include "vp_spec.h"
size_t li_vk, li_vk2; unsigned char li_vb, li_vb2; li_ghost_t li_g;
#define L 5
static char store[8 + 6 * L];
static GString res;
GString *vp_set_size(GString *s, gsize n) { VP_CALLPRE(n < sizeof(store), "size"); s->len = n; s->str[n] = 0; return s; }
GString *vp_sized_new(gsize n) { VP_CALLPRE(n < sizeof(store), "size"); res.str = store; res.len = 0; store[0] = 0; res.allocated_len = n + 1; return &res; }
GString *vp_truncate(GString *s, gsize n) { if (n < s->len) s->len = n; s->str[s->len] = 0; return s; }
#undef g_string_sized_new
#undef g_string_set_size
#undef g_string_truncate
#define g_string_sized_new vp_sized_new
#define g_string_set_size vp_set_size
#define g_string_truncate vp_truncate
#include "src/common/encoding.c"
static gboolean plain_uri(guchar c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '!' || c == '(' || c == ')' || c == '*' || c == '-' || c == '.' || c == '/' || c == '_'; }
static gboolean plain_html(guchar c) { return c >= 32 && c != 127 && c != '<' && c != '>' && c != '&' && c != '"' && c != '\''; }
static char hx(int v) { return v < 10 ? '0' + v : 'a' + v - 10; }
void h_encode(void) {
	char s[L + 1]; int n = nondet_int(), i, o; liEncoding e = (liEncoding) nondet_int(); gboolean given = nondet_bool(), app = nondet_bool(); GString *r; char x[8 + 6 * L];
	__CPROVER_assume(n >= 0 && n <= L && (e == LI_ENCODING_HTML || e == LI_ENCODING_HEX || e == LI_ENCODING_URI));
	for (i = 0; i < L; i++) { s[i] = nondet_uchar(); __CPROVER_assume(i >= n || s[i] != 0); } s[n] = 0;
	res.str = store; res.len = 2; store[0] = 'o'; store[1] = 'l'; store[2] = 0;
	o = 0; if (given && app) { x[o++] = 'o'; x[o++] = 'l'; }
	for (i = 0; i < L; i++) if (i < n) { guchar c = s[i];
		if (e == LI_ENCODING_HEX) { x[o++] = hx(c >> 4); x[o++] = hx(c & 15); }
		else if (e == LI_ENCODING_HTML && !plain_html(c)) { x[o++] = '&'; x[o++] = '#'; x[o++] = 'x'; x[o++] = hx(c >> 4); x[o++] = hx(c & 15); x[o++] = ';'; }
		else if (e == LI_ENCODING_URI && !plain_uri(c)) { x[o++] = '%'; x[o++] = hx(c >> 4); x[o++] = hx(c & 15); }
		else x[o++] = c; }
	r = app ? li_string_encode_append(s, given ? &res : NULL, e) : li_string_encode(s, given ? &res : NULL, e);
	VP_ENSURES(r == &res && r->len == (gsize) o && r->str[r->len] == 0, "length and terminator of the encoded string");
	li_vk = nondet_size(); __CPROVER_assume(li_vk < (size_t) o);
	VP_ENSURES(r->str[li_vk] == x[li_vk], "every byte encoded exactly"); VP_REACH("encoded");
}
