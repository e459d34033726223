/* contracts for li_url_decode / li_path_simplify (real text of src/common/utils.c) */
#include <lighttpd/settings.h>
#include "vp.h"
#include "vp_spec.h"
size_t li_vk, li_vk2; unsigned char li_vb, li_vb2;
li_ghost_t li_g;
#include "src/common/utils.c"

/* ---- glib model (assumed contracts) ---- */
/* g_string_set_size(s, len): keeps the first len bytes, sets length and terminator; may move the buffer */
GString *g_string_set_size(GString *s, gsize len) {
	if (len >= s->allocated_len) {
		char *n = malloc(len + 1);
		size_t i;
		__CPROVER_assume(n != NULL);
		/* only the observed indices are copied explicitly, the others are unconstrained */
		n[0] = s->str[0];
		if (li_vk < s->allocated_len && li_vk < len) n[li_vk] = s->str[li_vk];
		if (li_vk + 1 < s->allocated_len && li_vk + 1 < len) n[li_vk + 1] = s->str[li_vk + 1];
		if (li_vk + 2 < s->allocated_len && li_vk + 2 < len) n[li_vk + 2] = s->str[li_vk + 2];
		if (li_vk + 3 < s->allocated_len && li_vk + 3 < len) n[li_vk + 3] = s->str[li_vk + 3];
		s->str = n;
		s->allocated_len = len + 1;
	}
	s->len = len;
	s->str[len] = 0;
	return s;
}
GString *g_string_truncate(GString *s, gsize len) { if (len < s->len) { s->len = len; s->str[len] = 0; } return s; }
GString *g_string_assign(GString *s, const gchar *v) {
	VP_CALLPRE(v[0] == 0 || v[1] == 0, "model covers short literals");
	s->len = v[0] ? 1 : 0;
	s->str[0] = v[0];
	s->str[s->len] = 0;
	return s;
}

static void mk(GString *s) {
	size_t n = nondet_size(), al = nondet_size();
	__CPROVER_assume(VP_SIZE_OK(n, 1u << 20) && al > n && al >= 2 && al <= (1u << 21));
#if VP_BOUND
	__CPROVER_assume(al <= VP_BOUND + 2);
#endif
	s->str = malloc(al);
	__CPROVER_assume(s->str != NULL);
	s->len = n; s->allocated_len = al;
	s->str[n] = 0;
	li_vk = nondet_size();
	__CPROVER_assume(li_vk < (1u << 22));
}

void h_path_simplify(void) {
	GString s, *path = &s;
	mk(path);
	char *buf = s.str;
	li_path_simplify(path);
	VP_ENSURES(path->len >= 1 && path->str[0] == '/', "path starts with /");
	VP_ENSURES(path->str[path->len] == 0 && path->len < path->allocated_len, "string well formed");
	VP_ENSURES(li_vk >= path->len || !LI_SPEC_BAD_SEGMENT(path->str, path->len, li_vk), "no empty, . or .. segment");
	VP_REACH("path_simplify returns");
}

void h_url_decode(void) {
	GString s, *path = &s;
	mk(path);
	size_t n0 = s.len;
	li_g.in = li_g.out = 0; li_g.byte = 0;
#ifdef VP_BOUNDED
	/* specification by stepping over a copy */
	char *copy = malloc(VP_BOUND + 3); 
	for (size_t i = 0; i <= n0; i++) copy[i] = s.str[i];
	while (copy[li_g.in]) { size_t a = li_g.in; li_spec_urldecode_step((unsigned char*)copy + a); if (li_g.in == a) break; }
#endif
	char *buf = s.str;
	li_url_decode(path);
	VP_ENSURES(path->len == li_g.out, "decoded length");
	VP_ENSURES(li_vk >= path->len || (unsigned char) path->str[li_vk] == li_g.byte, "decoded bytes");
	VP_ENSURES(li_vk >= path->len || !LI_SPEC_CTRL(path->str[li_vk]), "no control byte");
	VP_ENSURES(path->str[path->len] == 0 && path->len <= n0 && path->str == buf, "in place, shrinks, terminated");
	VP_REACH("url_decode returns");
}
