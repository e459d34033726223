/* C05: header table (real text of src/main/http_headers.c) */
#define _LIGHTTPD_BASE_H_GUARD
#include <lighttpd/base.h>
#include "vp.h"
#include "vp_spec.h"
size_t li_vk, li_vk2; unsigned char li_vb, li_vb2; li_ghost_t li_g;
#define MAXN (1u << 20)
static void vp_foreach__header_queue_free(GQueue *q, gpointer d) { }
#define g_queue_foreach(q, f, d) vp_foreach_##f(q, d)
#undef g_string_free
#define g_string_free(s, x) ((void) 0)
#undef g_slice_new0
#define g_slice_new0(T) ((T*) vp_new())
static liHttpHeader vp_hdr; static int vp_news;
static void *vp_new(void) { vp_news++; memset(&vp_hdr, 0, sizeof vp_hdr); return &vp_hdr; }
#undef g_slice_free
#define g_slice_free(T, p) ((void) 0)
#include "vp_force.h"
#include "src/main/http_headers.c"

/* --- glib (assumed) --- */
static size_t vp_cap; /* size of the string buffer */
static GString vp_s;
GString *g_string_sized_new(gsize n) { vp_s.len = 0; vp_s.str[0] = 0; return &vp_s; }
/* keeps min(old, new) bytes; the buffer is large enough here (moving it is glib's business) */
GString *g_string_set_size(GString *s, gsize n) { VP_CALLPRE(s == &vp_s, "own string"); VP_CALLPRE(n < vp_cap, "size"); s->len = n; s->str[n] = 0; return s; }
#undef g_string_truncate
GString *g_string_truncate(GString *s, gsize n) { if (n < s->len) s->len = n; s->str[s->len] = 0; return s; }

static void mk(void) {
	size_t n = nondet_size(); vp_cap = nondet_size();
	__CPROVER_assume(VP_SIZE_OK(n, MAXN) && vp_cap > n && vp_cap <= 8 * MAXN);
#if VP_BOUND
	__CPROVER_assume(vp_cap <= 4 * VP_BOUND + 8);
#endif
	vp_s.str = malloc(vp_cap); __CPROVER_assume(vp_s.str != NULL);
	vp_s.len = n; vp_s.allocated_len = vp_cap; vp_s.str[n] = 0;
	li_vk = nondet_size(); li_vk2 = nondet_size(); __CPROVER_assume(li_vk < 16 * MAXN && li_vk2 < 16 * MAXN);
}
void h_sanitize(void) {
	liHttpHeader h; size_t n, k; int clean = 1;
	mk(); n = vp_s.len;
	h.data = &vp_s; __CPROVER_assume(n >= 2 && h.keylen <= n - 2);
	k = h.keylen + 2;
	li_vb2 = li_vk2 < n ? vp_s.str[li_vk2] : 0;
	li_g.out = k; li_g.flag = 0; li_g.byte = li_vk < n ? vp_s.str[li_vk] : 0;
#ifdef VP_BOUNDED
	unsigned char b0 = li_g.byte; char copy[VP_BOUND + 1]; size_t i;
	for (i = 0; i < n; i++) copy[i] = vp_s.str[i];
	for (i = k; i < n; i++) { if (copy[i] == '\r' || copy[i] == '\n') clean = 0; li_spec_unfold_step(copy[i]); }
	_http_header_sanitize(&h);
	VP_REACH("returns");
	VP_ENSURES(vp_s.len == li_g.out, "length of the unfolded value");
	VP_ENSURES(li_vk >= vp_s.len || (unsigned char) vp_s.str[li_vk] == (li_vk < k ? b0 : li_g.byte), "unfolded value");
#else
	unsigned char b1 = li_vb = li_g.byte;
	_http_header_sanitize(&h);
	VP_REACH("returns");
	/* the value up to the first CR/LF is untouched; from there on the loop runs the specification, see li_spec_unfold_step */
	if (vp_s.len == n) VP_REACH("nothing to do"); else VP_REACH("unfolded");
	VP_ENSURES(li_vk >= vp_s.len || li_vk >= k || (unsigned char) vp_s.str[li_vk] == b1, "name untouched");
#endif
	VP_ENSURES(li_vk < k || li_vk >= vp_s.len || LI_SPEC_NO_CRLF(vp_s.str[li_vk]), "no CR or LF in the value");
	VP_ENSURES(vp_s.len >= k && vp_s.len <= n, "never grows"); VP_ENSURES(vp_s.str[vp_s.len] == 0, "terminated"); VP_ENSURES(h.keylen + 2 == k, "name length kept");
}

/* ---- entries: sanitizer and lookup replaced by their contracts. What is written where is observed at every
 * position li_vk: (source, index in the source) of the byte that ends up there. */
enum { O_NONE, O_OLD, O_KEY, O_VAL, O_LIT };
static struct { int src; size_t idx; char lit; } vp_obs, vp_sobs;
static int vp_sanitized; static size_t vp_slen;
static char vp_ebuf[1], vp_key[1], vp_val[1]; static size_t vp_kl, vp_vl;
void vp_sanitize(liHttpHeader *h) {
	VP_CALLPRE(h == &vp_hdr && h->data == &vp_s && (size_t) h->keylen + 2 <= vp_s.len, "complete entry");
	vp_sanitized++; vp_slen = vp_s.len; vp_sobs = vp_obs;
}
static GList vp_link; static gboolean vp_found;
GList *vp_find_last(liHttpHeaders *headers, const gchar *key, size_t keylen) { VP_CALLPRE(key == vp_key && keylen == vp_kl, "looks for the name"); return vp_found ? &vp_link : NULL; }
void *vp_memcpy(void *d, const void *s, size_t n) {
	size_t off = LI_PTR_OFF(d), so = LI_PTR_OFF(s);
	VP_CALLPRE(__CPROVER_same_object(d, vp_ebuf) && off + n <= vp_s.len, "copies into the entry");
	VP_CALLPRE(!__CPROVER_same_object(s, vp_key) || so + n <= vp_kl, "within the name");
	VP_CALLPRE(!__CPROVER_same_object(s, vp_val) || so + n <= vp_vl, "within the value");
	if (li_vk >= off && li_vk - off < n) {
		vp_obs.idx = so + (li_vk - off);
		vp_obs.src = __CPROVER_same_object(s, vp_key) ? O_KEY : __CPROVER_same_object(s, vp_val) ? O_VAL : O_LIT;
		if (vp_obs.src == O_LIT) { VP_CALLPRE(n <= 2, "short literal"); vp_obs.lit = ((const char*) s)[li_vk - off]; }
	}
	return d;
}
GString *vp_set_size(GString *s, gsize n) { VP_CALLPRE(s == &vp_s, "own string"); s->len = n; return s; }
GString *vp_sized_new(gsize n) { vp_s.len = 0; vp_obs.src = O_NONE; return &vp_s; }
static int vp_pushed;
void g_queue_push_tail(GQueue *q, gpointer d) { VP_CALLPRE(d == &vp_hdr, "pushes the new entry"); vp_pushed++; }
#define IS(s_, i_) (vp_sobs.src == (s_) && vp_sobs.idx == (i_))
#define LIT(c) (vp_sobs.src == O_LIT && vp_sobs.lit == (c))
#define VALUE_AT(k) (li_vk < (k) || li_vk >= (k) + vp_vl || IS(O_VAL, li_vk - (k)))
void h_entry(void) {
	liHttpHeaders hs; int op = nondet_int(); size_t n0;
	vp_kl = nondet_size(); vp_vl = nondet_size(); n0 = nondet_size(); li_vk = nondet_size();
	VP_REQUIRES(vp_kl <= MAXN && vp_vl <= 512 * (size_t) MAXN && n0 <= 512 * (size_t) MAXN && n0 >= vp_kl + 2);
	vp_s.str = vp_ebuf; vp_s.len = n0;
	vp_found = nondet_bool(); vp_sanitized = vp_pushed = vp_news = 0;
	vp_hdr.data = &vp_s; vp_hdr.keylen = vp_kl; vp_link.data = &vp_hdr;
	vp_obs.src = li_vk < n0 ? O_OLD : O_NONE; vp_obs.idx = li_vk;
	switch (op) {
	case 0: vp_found = FALSE; li_http_header_insert(&hs, vp_key, vp_kl, vp_val, vp_vl); break;
	case 1: li_http_header_append(&hs, vp_key, vp_kl, vp_val, vp_vl); break;
	default: li_http_header_overwrite(&hs, vp_key, vp_kl, vp_val, vp_vl); break;
	}
	if (op == 0) VP_REACH("insert"); if (op == 1 && vp_found) VP_REACH("append"); if (op == 2 && vp_found) VP_REACH("overwrite");
	VP_ENSURES(vp_sanitized == 1, "value is sanitized, after it was completed");
	VP_ENSURES(vp_sobs.src == vp_obs.src && vp_sobs.idx == vp_obs.idx && vp_slen == vp_s.len, "nothing is written after the entry was sanitized");
	VP_ENSURES(vp_hdr.data == &vp_s && vp_hdr.keylen == vp_kl, "entry has that name");
	if (!vp_found) {
		VP_ENSURES(vp_slen == vp_kl + 2 + vp_vl, "entry is name, colon, space, value");
		VP_ENSURES(li_vk >= vp_kl || IS(O_KEY, li_vk), "name"); VP_ENSURES(li_vk != vp_kl || LIT(':'), "colon"); VP_ENSURES(li_vk != vp_kl + 1 || LIT(' '), "space");
		VP_ENSURES(VALUE_AT(vp_kl + 2), "value");
		VP_ENSURES(vp_pushed == 1 && vp_news == 1, "added once");
	} else {
		VP_ENSURES(vp_pushed == 0 && vp_news == 0, "last entry with that name is changed");
		if (op == 1) {
			VP_ENSURES(vp_slen == n0 + 2 + vp_vl, "appended length");
			VP_ENSURES(li_vk >= n0 || IS(O_OLD, li_vk), "old value kept"); VP_ENSURES(li_vk != n0 || LIT(','), "comma"); VP_ENSURES(li_vk != n0 + 1 || LIT(' '), "space");
			VP_ENSURES(VALUE_AT(n0 + 2), "value appended");
		} else {
			VP_ENSURES(vp_slen == vp_kl + 2 + vp_vl, "new length");
			VP_ENSURES(li_vk >= vp_kl + 2 || IS(O_OLD, li_vk), "name kept"); VP_ENSURES(VALUE_AT(vp_kl + 2), "value replaced");
		}
	}
}
/* ---- lookup over lists (bounded: up to 4 entries) */
#define NE 3
static GList L[NE]; static liHttpHeader H[NE]; static GString S[NE]; static char C[NE][4]; static int nl; static char kk[3];
static GList *vp_at(int i) { return i >= 0 && i < nl ? &L[i] : NULL; }
GList *g_queue_peek_head_link(GQueue *q) { return vp_at(0); }
GList *g_queue_peek_tail_link(GQueue *q) { return vp_at(nl - 1); }
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
gint g_ascii_strncasecmp(const gchar *a, const gchar *b, gsize n) { gsize i; for (i = 0; i < n && i < 2; i++) { int d = lc(a[i]) - lc(b[i]); if (d) return d; if (!a[i]) return 0; } return 0; }
static int deleted[NE];
void g_queue_delete_link(GQueue *q, GList *l) {
	int i; for (i = 0; i < NE; i++) if (l == &L[i]) { VP_CALLPRE(!deleted[i], "entry removed once"); deleted[i] = 1; if (l->prev) l->prev->next = l->next; if (l->next) l->next->prev = l->prev; l->prev = l->next = NULL; l->data = NULL; }
}
static int match(int i, size_t kl) { size_t j; if (H[i].keylen != kl) return 0; for (j = 0; j < kl && j < 2; j++) if (lc(C[i][j]) != lc(kk[j])) return 0; return 1; }
void h_lookup(void) {
	liHttpHeaders hs; int i, first = -1, last = -1, nm = 0; size_t kl = nondet_size(); __CPROVER_assume(kl <= 2);
	nl = nondet_int(); __CPROVER_assume(nl >= 0 && nl <= NE);
	kk[0] = nondet_uchar(); kk[1] = nondet_uchar();  __CPROVER_assume(kk[0] && kk[1]);
	for (i = 0; i < NE; i++) {
		size_t l = nondet_size(); __CPROVER_assume(l <= 2); H[i].keylen = l; H[i].data = &S[i]; S[i].str = C[i]; S[i].len = l + 2;
		C[i][0] = l > 0 ? nondet_uchar() : ':'; C[i][1] = l > 1 ? nondet_uchar() : l > 0 ? ':' : ' ';
		L[i].data = &H[i]; L[i].next = i + 1 < nl ? &L[i + 1] : NULL; L[i].prev = i > 0 ? &L[i - 1] : NULL;
		if (i < nl && match(i, kl)) { if (first < 0) first = i; last = i; nm++; }
	}
#ifndef VP_OP
# define VP_OP nondet_int()
#endif
	int op = VP_OP;
	VP_REACH("lookup"); if (nm > 1) VP_REACH("several");
	if (op == 0) VP_ENSURES(li_http_header_find_first(&hs, kk, kl) == vp_at(first), "first entry with that name, ignoring case");
	else if (op == 1) { VP_ENSURES(li_http_header_find_last(&hs, kk, kl) == vp_at(last), "last entry with that name"); }
	else if (op == 2) VP_ENSURES(li_http_header_lookup(&hs, kk, kl) == (last < 0 ? NULL : &H[last]), "lookup is the last one");
	else { int j, e = -1; i = nondet_int(); __CPROVER_assume(i >= 0 && i < nl); for (j = NE - 1; j >= 0; j--) if (j > i && j < nl && match(j, kl)) e = j; VP_ENSURES(li_http_header_find_next(&L[i], kk, kl) == vp_at(e), "next entry with that name"); }
}
/* remove, lookups replaced by their contract; NR entries */
#define NR 6
static GList R[NR]; static liHttpHeader RH[NR]; static int rm[NR], rdel[NR];
GList *vp_r_from(int i) { for (; i < NR; i++) if (rm[i]) { VP_CALLPRE(!rdel[i], "entry still there"); return &R[i]; } return NULL; }
GList *vp_r_first(liHttpHeaders *h, const gchar *key, size_t kl) { return vp_r_from(0); }
GList *vp_r_next(GList *l, const gchar *key, size_t kl) { int i; for (i = 0; i < NR; i++) if (l == &R[i]) { VP_CALLPRE(!rdel[i], "link still valid"); return vp_r_from(i + 1); } return NULL; }
void vp_r_remove(liHttpHeaders *h, GList *l) { int i; for (i = 0; i < NR; i++) if (l == &R[i]) { VP_CALLPRE(!rdel[i], "removed once"); rdel[i] = 1; } }
void h_remove(void) {
	liHttpHeaders hs; int i, any = 0;
	for (i = 0; i < NR; i++) { rm[i] = nondet_bool(); rdel[i] = 0; any |= rm[i]; R[i].data = &RH[i]; }
	VP_ENSURES(!!li_http_header_remove(&hs, "x", 1) == any, "remove tells whether there was one");
	VP_REACH("removed");
	for (i = 0; i < NR; i++) VP_ENSURES(rdel[i] == rm[i], "removes all entries with that name and no other");
}
