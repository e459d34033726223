/* contracts for id lists (real text of src/common/idlist.c) */
#include <lighttpd/settings.h>
#include "vp.h"
#include "vp_spec.h"
size_t li_vk, li_vk2; unsigned char li_vb, li_vb2; li_ghost_t li_g;
#undef g_assert
#define g_assert(x) __CPROVER_assert(x, "assertion of the code: " #x)
#undef g_bit_nth_lsf
#undef g_array_set_size
#ifndef WD
#define WD 2 /* words: up to 128 ids */
#endif
static gulong store[WD + 1];
GArray *vp_set_size(GArray *a, guint n);
gint vp_nth_lsf(gulong mask, gint nth) { gint i; for (i = 0; i < 64; i++) if (i > nth && ((mask >> i) & 1)) return i; return -1; }
#define g_bit_nth_lsf vp_nth_lsf
#define g_array_set_size vp_set_size
#include "src/common/idlist.c"
GArray *vp_set_size(GArray *a, guint n) { guint i; VP_CALLPRE(n <= WD + 1, "array size"); for (i = 0; i < WD + 1; i++) if (i >= a->len && i < n) store[i] = 0; a->len = n; return a; }
static GArray arr; static liIDList l;
static gboolean used(gint i) { return i >= 0 && (guint) i / 64 < arr.len && ((store[i / 64] >> (i % 64)) & 1); }
static guint pop(gulong x) { x = x - ((x >> 1) & 0x5555555555555555ul); x = (x & 0x3333333333333333ul) + ((x >> 2) & 0x3333333333333333ul); x = (x + (x >> 4)) & 0x0f0f0f0f0f0f0f0ful; return (x * 0x0101010101010101ul) >> 56; }
static guint count(void) { guint i, c = 0; for (i = 0; i < WD + 1; i++) if (i < arr.len) c += pop(store[i]); return c; }
/* word i below id k: all bits below k set? */
static gboolean full_below(gint k) { gint i; for (i = 0; i < WD + 1; i++) { if (k >= 64 * (i + 1)) { if ((guint) i >= arr.len || store[i] != ~0ul) return FALSE; } else if (k > 64 * i) { gulong m = (1ul << (k - 64 * i)) - 1; if ((guint) i >= arr.len || (store[i] & m) != m) return FALSE; } } return TRUE; }
/* the representation invariant documented in idlist.h */
static gboolean inv(void) {
	return l.used_ids == count() && l.used_ids <= l.max_ids &&
	       (l.next_free_id < 0 ? (l.next_free_id == -1 && full_below(l.used_ids)) : full_below(l.next_free_id));
}
static void mk(void) {
	int i; arr.data = (gchar*) store; arr.len = nondet_uint(); __CPROVER_assume(arr.len <= WD);
	for (i = 0; i < WD + 1; i++) store[i] = (guint) i < arr.len ? nondet_ulong() : 0;
	l.bitvector = &arr; l.max_ids = nondet_uint(); l.used_ids = nondet_uint(); l.next_free_id = nondet_int();
	__CPROVER_assume(l.max_ids >= 1 && l.max_ids <= 64 * WD && l.next_free_id <= 64 * WD);
	__CPROVER_assume(inv());
	/* no id at or above max_ids is in use */
	for (i = 0; i < WD; i++) __CPROVER_assume(l.max_ids >= (guint) 64 * (i + 1) || ((guint) i < arr.len ? (l.max_ids <= (guint) 64 * i ? store[i] == 0 : (store[i] >> (l.max_ids - 64 * i)) == 0) : TRUE));
}
void h_get(void) {
	mk(); gint o = nondet_int(); __CPROVER_assume(o >= 0 && o < 64 * WD);
	gboolean ou = used(o); guint u0 = l.used_ids; gint r = li_idlist_get(&l);
	if (u0 >= l.max_ids) { VP_ENSURES(r == -1, "no id if all are in use"); VP_ENSURES(used(o) == ou && l.used_ids == u0, "nothing changes"); VP_REACH("exhausted"); }
	else {
		VP_ENSURES(r >= 0 && (guint) r < l.max_ids, "id in range");
		VP_ENSURES(o == r ? (!ou && used(o)) : used(o) == ou, "id was free, is used now, no other id changes");
		VP_ENSURES(l.used_ids == u0 + 1, "count");
		VP_REACH("got an id");
	}
	VP_ENSURES(inv(), "representation invariant");
}
void h_put(void) {
	mk(); gint o = nondet_int(), i = nondet_int(); __CPROVER_assume(o >= 0 && o < 64 * WD); __CPROVER_assume(i >= 0 && i < 64 * WD); __CPROVER_assume(used(i));
	gboolean ou = used(o); guint u0 = l.used_ids; li_idlist_put(&l, i);
	VP_ENSURES(o == i ? !used(o) : used(o) == ou, "exactly this id becomes free");
	VP_ENSURES(l.used_ids == u0 - 1 && inv(), "representation invariant"); VP_REACH("put");
}
void h_used(void) { mk(); gint i = nondet_int(); VP_ENSURES(!!li_idlist_is_used(&l, i) == (i >= 0 && i < 64 * WD && used(i)), "is_used tells exactly"); VP_REACH("used"); }
