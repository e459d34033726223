/* executable contract of C05: header table vs a list model */
#include <lighttpd/base.h>
#include "vn.h"
typedef struct { char *k; GString *v; } ent;
static ent m[64]; static int n;
static void unfold(GString *o, const char *s, gsize l) { gsize i; gboolean f = FALSE; for (i = 0; i < l; i++) { char c = s[i]; if (c == '\r' || c == '\n') f = TRUE; else if ((c == ' ' || c == '\t')) { if (!f) g_string_append_c(o, c); } else { if (f) g_string_append_c(o, ' '); f = FALSE; g_string_append_c(o, c); } } }
static GString *hist;
#define F(...) do { vn_setcase("%s", hist->str); vn_fail(__VA_ARGS__); } while (0)
static int is(int i, const char *k, gsize kl) { return strlen(m[i].k) == kl && 0 == g_ascii_strncasecmp(m[i].k, k, kl); }
static int last(const char *k, gsize kl) { int i; for (i = n; i-- > 0; ) if (is(i, k, kl)) return i; return -1; }
static int firstfrom(int i, const char *k, gsize kl) { for (; i < n; i++) if (is(i, k, kl)) return i; return n; }
static void add(const char *k, gsize kl, GString *v) { m[n].k = g_strndup(k, kl); m[n].v = g_string_new_len(v->str, v->len); n++; }
static void compare(liHttpHeaders *h) {
	GList *l; int i = 0;
	for (l = g_queue_peek_head_link(&h->entries); l; l = l->next, i++) {
		liHttpHeader *e = l->data; gsize kl;
		if (i >= n) F("more entries than expected");
		kl = strlen(m[i].k);
		if (e->keylen != kl || e->data->len != kl + 2 + m[i].v->len || memcmp(e->data->str, m[i].k, kl) || memcmp(e->data->str + kl, ": ", 2) || memcmp(e->data->str + kl + 2, m[i].v->str, m[i].v->len) || e->data->str[e->data->len])
			F("entry %d is \"%s\", expected \"%s: %s\"", i, vn_q(e->data->str, e->data->len), m[i].k, vn_q(m[i].v->str, m[i].v->len));
		if (memchr(e->data->str + kl, '\r', m[i].v->len + 2) || memchr(e->data->str + kl, '\n', m[i].v->len + 2)) F("CR/LF in a stored value");
	}
	if (i != n || (int) h->entries.length != n) F("%d entries, expected %d", i, n);
}
static const char *keys[] = { "A", "a", "b", "Ab", "aB", "abc", "Host", "host", "HOST", "X-Foo", "x-foo", "x-fo", "x-fop", "", "z", "Z", "@", "`", "[", "{" };
int main(int argc, char **argv) {
	long rounds = 0; hist = g_string_new(""); vn_init(argc, argv);
	while (vn_more(1.0)) {
		liHttpHeaders *h = li_http_headers_new(); int steps = 1 + vn_r(25); n = 0; g_string_truncate(hist, 0); vn_evals++;
		while (steps--) {
			const char *k = keys[vn_r(G_N_ELEMENTS(keys))]; gsize kl = strlen(k), i, vl = vn_r(4) ? vn_r(6) : vn_r(60); char v[64]; int j; GString *u = g_string_new("");
			for (i = 0; i < vl; i++) v[i] = "abc,\" \t\r\n:\\x\r\n Z\x80"[vn_r(18)];
			v[vl] = 'Q'; /* not terminated */
			switch (vn_r(9)) {
			case 0: case 1: if (n > 60) break; g_string_append_printf(hist, "insert(%s,%s) ", k, vn_q(v, vl)); li_http_header_insert(h, k, kl, v, vl); unfold(u, v, vl); add(k, kl, u); break;
			case 2: case 3: if (n > 60) break; g_string_append_printf(hist, "append(%s,%s) ", k, vn_q(v, vl)); li_http_header_append(h, k, kl, v, vl); j = last(k, kl);
				if (j < 0) { unfold(u, v, vl); add(k, kl, u); } else { GString *t = g_string_new_len(m[j].v->str, m[j].v->len); g_string_append(t, ", "); g_string_append_len(t, v, vl); unfold(u, t->str, t->len); g_string_free(m[j].v, TRUE); m[j].v = g_string_new_len(u->str, u->len); g_string_free(t, TRUE); vn_nontriv++; } break;
			case 4: case 5: if (n > 60) break; g_string_append_printf(hist, "overwrite(%s,%s) ", k, vn_q(v, vl)); li_http_header_overwrite(h, k, kl, v, vl); j = last(k, kl); unfold(u, v, vl);
				if (j < 0) add(k, kl, u); else { g_string_free(m[j].v, TRUE); m[j].v = g_string_new_len(u->str, u->len); vn_nontriv++; } break;
			case 6: { gboolean r, e = FALSE; int a, b = 0; if (vn_r(2)) break; g_string_append_printf(hist, "remove(%s) ", k); r = li_http_header_remove(h, k, kl);
				for (a = 0; a < n; a++) if (is(a, k, kl)) { e = TRUE; g_free(m[a].k); g_string_free(m[a].v, TRUE); } else m[b++] = m[a];
				n = b; if (!!r != !!e) F("remove returns %d", r); break; }
			case 7: { GString *d = g_string_new("old"), *e = g_string_new(""); int a; g_string_append_printf(hist, "getall(%s) ", k); li_http_header_get_all(d, h, k, kl);
				for (a = 0; a < n; a++) if (is(a, k, kl)) { if (e->len) g_string_append(e, ", "); g_string_append_len(e, m[a].v->str, m[a].v->len); }
				if (!g_string_equal(d, e)) F("get_all(%s) = \"%s\", expected \"%s\"", k, vn_q(d->str, d->len), vn_q(e->str, e->len)); g_string_free(d, TRUE); g_string_free(e, TRUE); break; }
			case 8: { int a, e = FALSE; const char *val = vn_r(2) && n ? m[vn_r(n)].v->str : "close"; g_string_append_printf(hist, "is(%s,%s) ", k, val); for (a = 0; a < n; a++) if (is(a, k, kl) && m[a].v->len == strlen(val) && 0 == g_ascii_strcasecmp(m[a].v->str, val)) e = TRUE;
				if (!!li_http_header_is(h, k, kl, val, strlen(val)) != e) F("is(%s,%s) expected %d", k, val, e); break; }
			}
			compare(h);
			{ GList *l = li_http_header_find_first(h, k, kl); int a = firstfrom(0, k, kl); liHttpHeader *lk = li_http_header_lookup(h, k, kl); int la = last(k, kl);
			  if (lk != (la < 0 ? NULL : g_queue_peek_nth(&h->entries, la))) F("lookup(%s)", k);
			  if (li_http_header_find_last(h, k, kl) != (la < 0 ? NULL : g_queue_peek_nth_link(&h->entries, la))) F("find_last(%s)", k);
			  while (l || a < n) { if (!l || a >= n || l != g_queue_peek_nth_link(&h->entries, a)) F("find first/next(%s) wrong at %d", k, a); l = li_http_header_find_next(l, k, kl); a = firstfrom(a + 1, k, kl); } }
			g_string_free(u, TRUE);
		}
		if (n > 3) vn_sample("%s", hist->str);
		if (vn_r(2)) { li_http_headers_reset(h); { int a; for (a = 0; a < n; a++) { g_free(m[a].k); g_string_free(m[a].v, TRUE); } } n = 0; compare(h); li_http_headers_free(h); }
		else { int a; for (a = 0; a < n; a++) { g_free(m[a].k); g_string_free(m[a].v, TRUE); } li_http_headers_free(h); }
		rounds++;
	}
	return vn_done("random sequences of header operations compared with a list model after each step; non-trivial: append/overwrite of an existing header");
}
