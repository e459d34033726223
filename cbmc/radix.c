/* contracts for the prefix tables (real text of src/common/radix.c) and the network membership functions */
#include <lighttpd/settings.h>
#include "vp.h"
#include "vp_spec.h"
size_t li_vk, li_vk2; unsigned char li_vb, li_vb2; li_ghost_t li_g;
#include <string.h>
/* byte-wise models: lengths are symbolic */
void *vp_memcpy(void *d, const void *s, size_t n) { size_t i; for (i = 0; i < n; i++) ((char*) d)[i] = ((const char*) s)[i]; return d; }
void *vp_memset(void *d, int c, size_t n) { size_t i; for (i = 0; i < n; i++) ((char*) d)[i] = c; return d; }
#define memcpy vp_memcpy
#define memset vp_memset
#include "src/common/radix.c"
#undef memcpy
#undef memset

#define W 2 /* words per key */
#ifndef N
#define N 7
#endif
static liRadixNode node[N];
static liRadixTree tree;
/* the abstract content of the table: node i is the prefix full[i]/bits[i] */
static guint32 full[N][W]; static guint32 bits[N]; static guint32 layer[N]; static gboolean there[N];
static liRadixNode pool[W + 2]; static guint npool, nfreed; static liRadixNode *freed[4];
gpointer g_slice_alloc0(gsize n) { VP_CALLPRE(n == sizeof(liRadixNode) && npool < W + 2, "node allocation"); liRadixNode z = { 0 }; pool[npool] = z; return &pool[npool++]; }
gpointer g_slice_alloc(gsize n) { return g_slice_alloc0(n); }
void g_slice_free1(gsize n, gpointer p) { VP_CALLPRE(nfreed < 4, "frees"); freed[nfreed++] = p; }
/* contract of rdx_get_input, see h_input: the key in host order, padded with zero bytes */
static guint32 K[W]; static const void *Kp; static guint32 Kb;
void vp_get_input(rdxBase *dest, const void *key, guint32 b) { VP_CALLPRE(key == Kp && b == Kb, "key as given"); dest[0] = K[0]; if (b > 32) dest[1] = K[1]; }
static void use(const void *p, const guint32 *k, guint32 b) { Kp = p; Kb = b; K[0] = k[0]; K[1] = k[1]; }
static guint32 msk(guint32 w) { return w == 0 ? 0 : w >= 32 ? 0xffffffffu : ~(0xffffffffu >> w); }
static gboolean pfx(const guint32 *a, const guint32 *b, guint32 n) { return ((a[0] ^ b[0]) & msk(n)) == 0 && (n <= 32 || ((a[1] ^ b[1]) & msk(n - 32)) == 0); }

/* data structure invariant */
static void mktree(void) {
	int i;
	for (i = 0; i < N; i++) {
		node[i].key = nondet_uint(); node[i].width = nondet_uint(); node[i].data = (gpointer) (gsize) (nondet_bool() ? i + 1 : 0);
		node[i].left = node[i].right = NULL; there[i] = nondet_bool();
		__CPROVER_assume(node[i].width <= 32 && (node[i].key & ~msk(node[i].width)) == 0);
		if (i == 0) { layer[0] = 0; }
		else {
			int p = (i - 1) / 2; gboolean right = (i & 1) == 0;
			if (!there[p]) there[i] = FALSE;
			if (!there[i]) continue;
			layer[i] = layer[p] + (node[p].width == 32);
			__CPROVER_assume(layer[i] < W);
			if (node[p].width == 32) __CPROVER_assume(node[i].width >= 1 && (node[i].key >> 31) == right);
			else __CPROVER_assume(node[i].width > node[p].width && ((node[i].key ^ node[p].key) & msk(node[p].width)) == 0 && ((node[i].key >> (31 - node[p].width)) & 1) == right);
			if (right) node[p].right = &node[i]; else node[p].left = &node[i];
			full[i][0] = layer[i] ? (layer[p] ? full[p][0] : node[p].key) : node[i].key;
		}
		if (i == 0) full[0][0] = node[0].key;
		full[i][1] = layer[i] ? node[i].key : 0;
		bits[i] = 32 * layer[i] + node[i].width;
	}
	tree.zero = there[0] ? &node[0] : NULL;
}
static gpointer s_exact(const guint32 *k, guint32 b) { int i; gpointer r = NULL; for (i = 0; i < N; i++) if (there[i] && bits[i] == b && pfx(full[i], k, b)) r = node[i].data; return r; }
static gpointer s_lpm(const guint32 *k, guint32 b, guint32 *len) { int i; gpointer r = NULL; *len = 0; for (i = 0; i < N; i++) if (there[i] && node[i].data && bits[i] <= b && pfx(full[i], k, bits[i]) && (!r || bits[i] > *len)) { r = node[i].data; *len = bits[i]; } return r; }
static void mkkey(guint32 *k, guint32 *b) { k[0] = nondet_uint(); k[1] = nondet_uint(); *b = nondet_uint(); __CPROVER_assume(*b <= 32 * W); }

void h_lookup(void) {
	guint32 k[W], b, l; char c; mktree(); mkkey(k, &b); use(&c, k, b);
	gpointer e = s_exact(k, b), m = s_lpm(k, b, &l);
	VP_ENSURES(li_radixtree_lookup(&tree, &c, b) == m, "lookup returns the data of the longest matching prefix");
	VP_ENSURES(li_radixtree_lookup_exact(&tree, &c, b) == e, "exact lookup finds exactly the stored prefix");
	VP_REACH("lookup done"); if (m && !e) VP_REACH("shorter prefix found");
}
void h_insert(void) {
	guint32 k[W], b, k2[W], b2, l; char c, d; gpointer data = nondet_bool() ? (gpointer) 99 : NULL; mktree(); mkkey(k, &b); mkkey(k2, &b2);
	gpointer e = s_exact(k, b), e2 = s_exact(k2, b2), m2 = s_lpm(k2, b2, &l);
	use(&c, k, b);
	gpointer r = li_radixtree_insert(&tree, &c, b, data);
	VP_ENSURES(r == (data ? e : NULL), "insert returns the replaced data");
	use(&d, k2, b2);
#ifndef VP_LPM
	VP_ENSURES(li_radixtree_lookup_exact(&tree, &d, b2) == (data && b == b2 && pfx(k, k2, b) ? data : e2), "insert changes exactly one prefix");
#else
	VP_ENSURES(li_radixtree_lookup(&tree, &d, b2) == (data && b <= b2 && pfx(k, k2, b) && (!m2 || b >= l) ? data : m2), "longest prefix after insert");
#endif
	VP_REACH("insert done");
}
void h_remove(void) {
	guint32 k[W], b, k2[W], b2; char c, d; mktree(); mkkey(k, &b); mkkey(k2, &b2);
	gpointer e = s_exact(k, b), e2 = s_exact(k2, b2);
	use(&c, k, b);
	gpointer r = li_radixtree_remove(&tree, &c, b);
	VP_ENSURES(r == e, "remove returns the removed data");
	use(&d, k2, b2);
	VP_ENSURES(li_radixtree_lookup_exact(&tree, &d, b2) == (b == b2 && pfx(k, k2, b) ? NULL : e2), "remove deletes exactly one prefix");
	VP_ENSURES(nfreed < 2 || freed[0] != freed[1], "no node freed twice");
	if (e) VP_REACH("something removed");
}
void h_input(void) {
	guint32 b = nondet_uint(); guint8 key[32]; rdxBase in[8]; __CPROVER_assume(b <= 256);
	rdx_get_input(in, key, b);
	li_vk = nondet_size(); __CPROVER_assume(li_vk < (b ? (b + 31) / 32 * 4 : 4));
	VP_ENSURES(((in[li_vk / 4] >> (24 - 8 * (li_vk % 4))) & 255) == (li_vk < (b + 7) / 8 ? key[li_vk] : 0), "key bytes in order, zero padded");
	VP_REACH("input");
}
