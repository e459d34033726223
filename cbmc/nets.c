/* network membership (real text of src/common/utils.c) */
#include <lighttpd/settings.h>
#include "vp.h"
#include "vp_spec.h"
size_t li_vk, li_vk2; unsigned char li_vb, li_vb2; li_ghost_t li_g;
#include "src/common/utils.c"
static int bit(const guint8 *a, guint i) { return (a[i / 8] >> (7 - i % 8)) & 1; }
static gboolean same(const guint8 *a, const guint8 *b, guint n) { guint i; for (i = 0; i < 128; i++) if (i < n && bit(a, i) != bit(b, i)) return FALSE; return TRUE; }
static guint32 mask(guint n) { guint8 o[4]; guint i; guint32 r; for (i = 0; i < 4; i++) o[i] = n >= 8 * (i + 1) ? 255 : n <= 8 * i ? 0 : (guint8) (0xff00 >> (n - 8 * i)); memcpy(&r, o, 4); return r; }
void h_nets(void) {
	guint8 a[16], b[16]; guint n = nondet_uint(), n4 = nondet_uint(); guint32 x = nondet_uint(), y = nondet_uint(); guint8 mp[16] = { 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255 };
	for (int i = 0; i < 16; i++) { a[i] = nondet_uchar(); b[i] = nondet_uchar(); }
	__CPROVER_assume(n <= 128 && n4 <= 32);
	VP_ENSURES(!!li_ipv6_in_ipv6_net(a, b, n) == same(a, b, n), "ipv6 network membership");
	VP_ENSURES(!!li_ipv4_in_ipv4_net(x, y, mask(n4)) == ((x & mask(n4)) == (y & mask(n4))), "ipv4 network membership");
	VP_ENSURES(!!li_ipv6_in_ipv4_net(a, y, mask(n4)) == (same(a, mp, 96) && ((*(guint32*) (a + 12)) & mask(n4)) == (y & mask(n4))), "mapped ipv6 in ipv4 network");
	memcpy(mp + 12, &x, 4);
	VP_ENSURES(!!li_ipv4_in_ipv6_net(x, b, n) == same(mp, b, n), "ipv4 in mapped ipv6 network");
	VP_REACH("nets");
}
