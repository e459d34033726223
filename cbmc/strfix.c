/* contracts for li_string_prefix / li_string_suffix (real text of src/common/utils.c) */
#include <lighttpd/settings.h>
#include "vp.h"
#include "vp_spec.h"
size_t li_vk, li_vk2; unsigned char li_vb, li_vb2; li_ghost_t li_g;
#include "src/common/utils.c"
#define N 6
void h_fix(void) {
	char a[N + 1], b[N + 1]; size_t n = nondet_size(), m = nondet_size(), i; GString s; gboolean pre = TRUE, suf = TRUE, want = nondet_bool(), r;
	__CPROVER_assume(n <= N && m <= N);
	for (i = 0; i < N; i++) { a[i] = nondet_uchar(); b[i] = nondet_uchar(); __CPROVER_assume((i >= n || a[i]) && (i >= m || b[i])); }
	a[n] = 0; b[m] = 0; s.str = a; s.len = n; s.allocated_len = n + 1;
	if (m > n) pre = suf = FALSE;
	else for (i = 0; i < N; i++) if (i < m) { if (a[i] != b[i]) pre = FALSE; if (a[n - m + i] != b[i]) suf = FALSE; }
	r = want ? li_string_prefix(&s, b, m) : li_string_suffix(&s, b, m);
	VP_ENSURES(!r == !(want ? pre : suf), "exactly the strings starting / ending with it");
	if (r && m > 2 && want) VP_REACH("prefix"); if (r && m > 2 && !want) VP_REACH("suffix");
}
