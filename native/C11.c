/* executable contract of C11: id lists against a set */
#include <lighttpd/idlist.h>
#include "vn.h"
static unsigned char in[20000];
int main(int argc, char **argv) {
	vn_init(argc, argv);
	while (vn_more(1.0)) {
		int max = vn_r(3) ? 1 + vn_r(200) : vn_r(2) ? (int[]) { 1, 63, 64, 65, 127, 128, 129, 192 }[vn_r(8)] : 1 + vn_r(10000), steps = 50 + vn_r(600), used = 0, bias = vn_r(10), i, big = vn_r(4) == 0; long st = 0;
		liIDList *l = li_idlist_new(max); memset(in, 0, sizeof(in)); vn_evals++; uint64_t s0 = vn_state;
		if (big) steps += max;
		while (steps--) {
			st++; vn_setcase("max_ids %d, state %llu, step %ld", max, (unsigned long long) s0, st);
			if (vn_r(20) == 0) bias = vn_r(11);
			if (big && used < max && st < max) bias = 10;
			if ((int) vn_r(10) < bias) { int r = li_idlist_get(l);
				if (used == max) { if (r != -1) vn_fail("id %d although all %d are in use", r, max); vn_nontriv++; }
				else { if (r < 0 || r >= max) vn_fail("id %d out of range (%d of %d in use)", r, used, max); if (in[r]) vn_fail("id %d is already in use", r); in[r] = 1; used++; } }
			else { i = vn_r(max); if (vn_r(2)) for (i = vn_r(max); i < max && !in[i]; i++) ; if (i < max && in[i]) { li_idlist_put(l, i); in[i] = 0; used--; } }
			i = (int) vn_r(max + 200) - 50; if (!!li_idlist_is_used(l, i) != (i >= 0 && i < max && in[i])) vn_fail("is_used(%d) is wrong", i);
			if ((int) l->used_ids != used) vn_fail("%u ids in use, expected %d", l->used_ids, used);
		}
		for (i = 0; i < max; i++) if (!!li_idlist_is_used(l, i) != in[i]) vn_fail("is_used(%d) is wrong", i);
		if (used > 3) vn_sample("max %d: %ld steps, %d in use", max, st, used);
		li_idlist_free(l);
	}
	return vn_done("random get/put histories; non-trivial: requests for an id while all are in use");
}
