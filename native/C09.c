/* executable contract of C09: address parsing, network membership and longest-prefix tables */
#include <lighttpd/base.h>
#include <lighttpd/radix.h>
#include <lighttpd/ip_parsers.h>
#include <ctype.h>
#include "vn.h"
#define F(...) vn_fail(__VA_ARGS__)
/* ---- reference parsers: work on [s, s+n), n = up to the first whitespace / NUL ---- */
static int r_dec(const char *s, size_t n, long max) { size_t i; long v = 0; if (!n) return -1; for (i = 0; i < n; i++) { if (s[i] < '0' || s[i] > '9') return -1; v = v * 10 + (s[i] - '0'); if (v > 1000000) v = 1000000; } return v > max ? -1 : (int) v; }
static int r_v4(const char *s, size_t n, unsigned char o[4]) { int k; for (k = 0; k < 4; k++) { const char *e = k < 3 ? memchr(s, '.', n) : s + n; int v; if (!e) return 0; v = r_dec(s, e - s, 255); if (v < 0) return 0; o[k] = v; if (k < 3) { n -= e + 1 - s; s = e + 1; } } return 1; }
static int r_groups(const char *s, size_t n, unsigned char *o) { /* -> number of 16 bit groups or -1; n == 0 -> 0 */
	int g = 0; if (!n) return 0;
	for (;;) { const char *e = memchr(s, ':', n); size_t l = e ? (size_t)(e - s) : n, i; unsigned v = 0;
		if (g >= 8) return -1;
		if (!e && memchr(s, '.', n)) { if (g > 6 || !r_v4(s, n, o + 2 * g)) return -1; return g + 2; }
		if (!l || l > 4) return -1;
		for (i = 0; i < l; i++) { if (!g_ascii_isxdigit(s[i])) return -1; v = v * 16 + g_ascii_xdigit_value(s[i]); }
		o[2 * g] = v >> 8; o[2 * g + 1] = v & 255; g++;
		if (!e) return g;
		n -= l + 1; s = e + 1; } }
static int r_v6(const char *s, size_t n, unsigned char o[16]) {
	size_t i; unsigned char a[20], b[20]; int x, y;
	for (i = 0; i + 1 < n; i++) if (s[i] == ':' && s[i + 1] == ':') {
		x = r_groups(s, i, a); y = r_groups(s + i + 2, n - i - 2, b);
		if (i && memchr(s, '.', i)) return 0; /* ipv4 only at the end */
		if (x < 0 || y < 0 || x + y > 7) return 0;
		memset(o, 0, 16); memcpy(o, a, 2 * x); memcpy(o + 16 - 2 * y, b, 2 * y); return 1; }
	x = r_groups(s, n, a); if (x != 8) return 0; memcpy(o, a, 16); return 1; }
static int r_full4(const char *s, size_t n, int cidr, int wport, unsigned char o[4], int *net, int *port) {
	const char *e; *net = 32; *port = 0;
	if (wport && (e = memchr(s, ':', n))) { if ((*port = r_dec(e + 1, s + n - e - 1, 65535)) < 0) return 0; n = e - s; }
	if (cidr && (e = memchr(s, '/', n))) { if ((*net = r_dec(e + 1, s + n - e - 1, 32)) < 0) return 0; n = e - s; }
	return r_v4(s, n, o); }
static int r_full6(const char *s, size_t n, int cidr, int wport, unsigned char o[16], int *net, int *port) {
	const char *e; *net = 128; *port = 0;
	if (n && s[0] == '[') {
		const char *t = memchr(s, ']', n), *r; size_t rn; int have = 0; if (!t) return 0; r = t + 1; rn = s + n - r; s++; n = t - s;
		if (cidr && (e = memchr(s, '/', n))) { if ((*net = r_dec(e + 1, s + n - e - 1, 128)) < 0) return 0; n = e - s; have = 1; }
		if (wport && (e = memchr(r, ':', rn))) { if ((*port = r_dec(e + 1, r + rn - e - 1, 65535)) < 0) return 0; rn = e - r; }
		if (rn) { if (!cidr || have || r[0] != '/' || (*net = r_dec(r + 1, rn - 1, 128)) < 0) return 0; }
		return r_v6(s, n, o); }
	if (cidr && (e = memchr(s, '/', n))) { if ((*net = r_dec(e + 1, s + n - e - 1, 128)) < 0) return 0; n = e - s; }
	return r_v6(s, n, o); }
static void parse_case(const char *s) {
	size_t n = 0; int m; char *q = strdup(s); /* exact allocation: reads behind the terminator are seen */
	while (q[n] && !isspace((unsigned char) q[n])) n++;
	vn_setcase("parse \"%s\"", vn_q(s, strlen(s)));
	for (m = 0; m < 4; m++) {
		unsigned char o[16], got[16]; guint32 ip = 0, nm = 0; guint16 port = 7; guint net = 7; int en, ep, e, r;
		e = r_full4(q, n, m & 1, m & 2, o, &en, &ep); r = li_parse_ipv4(q, &ip, m & 1 ? &nm : NULL, m & 2 ? &port : NULL);
		if (!!r != e) F("li_parse_ipv4 (%s%s) %s \"%s\"", m & 1 ? "cidr " : "", m & 2 ? "port" : "", r ? "accepts" : "refuses", s);
		if (r) { vn_nontriv++; if (memcmp(&ip, o, 4)) F("li_parse_ipv4(\"%s\") = %08x", s, ntohl(ip)); if ((m & 1) && ntohl(nm) != (en ? 0xffffffffu << (32 - en) : 0)) F("netmask of \"%s\" is %08x", s, ntohl(nm)); if ((m & 2) && port != ep) F("port of \"%s\" is %d", s, port); }
		memset(got, 0xee, 16);
		e = r_full6(q, n, m & 1, m & 2, o, &en, &ep); r = li_parse_ipv6(q, got, m & 1 ? &net : NULL, m & 2 ? &port : NULL);
		if (!!r != e) F("li_parse_ipv6 (%s%s) %s \"%s\"", m & 1 ? "cidr " : "", m & 2 ? "port" : "", r ? "accepts" : "refuses", s);
		if (r) { vn_nontriv++; if (memcmp(got, o, 16)) F("li_parse_ipv6(\"%s\") is wrong: %s", s, vn_q(got, 16)); if ((m & 1) && (int) net != en) F("network of \"%s\" is %d", s, net); if ((m & 2) && port != ep) F("port of \"%s\" is %d", s, port); }
	}
	free(q); vn_evals++;
}
static void gen(char *b) { /* address-like strings */
	int i, n, k; char *p = b; static const char *v4[] = { "0", "1", "10", "127", "255", "256", "260", "300", "025", "00000001", "2555", "99", "4294967297", "" };
	switch (vn_r(5)) {
	case 0: n = vn_r(8) ? 4 : 1 + vn_r(6); for (i = 0; i < n; i++) p += sprintf(p, "%s%s", i ? "." : "", vn_r(4) ? v4[vn_r(6) % 5] : v4[vn_r(14)]); break;
	case 4: n = vn_r(14); for (i = 0; i < n; i++) *p++ = "0123456789abfF:::...[]/ x"[vn_r(25)]; *p = 0; break;
	default: if (vn_r(3) == 0) *p++ = '[';
		n = vn_r(9) + (vn_r(4) == 0); k = vn_r(3) ? (int) vn_r(n + 1) : -1; if (vn_r(4) == 0) n = 8;
		for (i = 0; i < n; i++) { if (i == k) p += sprintf(p, "::"); else if (i) *p++ = ':'; p += sprintf(p, vn_r(3) ? "%x" : vn_r(2) ? "%04X" : "%03x", vn_r(6) ? (unsigned) vn_rand() & (vn_r(2) ? 0xffff : 0xff) : vn_r(20) ? 0 : 0x12345); }
		if (k == n) p += sprintf(p, "::"); if (vn_r(4) == 0) p += sprintf(p, "%s%d.%d.%d.%d", vn_r(8) ? (k == n ? "" : ":") : "", vn_r(256), vn_r(258), vn_r(256), vn_r(256));
		if (vn_r(20) == 0) *p++ = ':'; *p = 0; break;
	}
	{ int br = strchr(b, '[') != NULL; if (br && vn_r(3)) *p++ = ']'; 
	  if (vn_r(2)) p += sprintf(p, "/%d", vn_r(3) ? vn_r(140) : vn_r(10) * 100000001); if (br && vn_r(3) == 0) *p++ = ']'; 
	  if (vn_r(3) == 0) p += sprintf(p, ":%u", vn_r(3) ? vn_r(66000) : (unsigned) vn_rand());
	  if (vn_r(10) == 0) p += sprintf(p, "%s", vn_r(2) ? " x" : vn_r(2) ? "\t" : "x"); }
	*p = 0;
}
static int bit(const unsigned char *k, int i) { return (k[i / 8] >> (7 - i % 8)) & 1; }
static void nets(void) {
	unsigned char a[16], b[16]; int i, net = vn_r(129), e; guint32 x = vn_rand(), y, m4; int n4 = vn_r(33);
	for (i = 0; i < 16; i++) a[i] = b[i] = vn_rand(); if (vn_r(2)) memcpy(a, "\0\0\0\0\0\0\0\0\0\0\xff\xff", 12), memcpy(b, a, 16);
	if (vn_r(4)) { i = vn_r(3) ? (net + (int) vn_r(5) - 2 + 128) % 128 : vn_r(128); b[i / 8] ^= 128 >> (i % 8); } if (vn_r(2) == 0) for (i = net; i < 128; i++) if (vn_r(2)) b[i / 8] ^= 128 >> (i % 8);
	for (e = 1, i = 0; i < net; i++) if (bit(a, i) != bit(b, i)) e = 0;
	vn_setcase("%s in %s/%d", vn_q(a, 16), vn_q(b, 16), net); vn_evals++;
	if (!!li_ipv6_in_ipv6_net(a, b, net) != e) F("li_ipv6_in_ipv6_net(%s, %s/%d) expected %d", vn_q(a, 16), vn_q(b, 16), net, e);
	y = x; if (vn_r(4)) y ^= 1u << vn_r(32); m4 = htonl(n4 ? 0xffffffffu << (32 - n4) : 0); for (e = 1, i = 0; i < n4; i++) if (bit((void*) &x, i) != bit((void*) &y, i)) e = 0;
	if (!!li_ipv4_in_ipv4_net(x, y, m4) != e) F("li_ipv4_in_ipv4_net(%08x, %08x/%d) expected %d", ntohl(x), ntohl(y), n4, e);
	memcpy(&x, a + 12, 4); if (vn_r(2)) { y = x; if (vn_r(2)) y ^= 1u << vn_r(32); }
	for (e = !memcmp(a, "\0\0\0\0\0\0\0\0\0\0\xff\xff", 12), i = 0; i < n4; i++) if (bit((void*) &x, i) != bit((void*) &y, i)) e = 0;
	if (!!li_ipv6_in_ipv4_net(a, y, m4) != e) F("li_ipv6_in_ipv4_net(%s, %08x/%d) expected %d", vn_q(a, 16), ntohl(y), n4, e);
	{ unsigned char mp[16] = { 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff }; memcpy(mp + 12, &x, 4); for (e = 1, i = 0; i < net; i++) if (bit(mp, i) != bit(b, i)) e = 0; if (!!li_ipv4_in_ipv6_net(x, b, net) != e) F("li_ipv4_in_ipv6_net"); }
	{ struct sockaddr_in s4; struct sockaddr_in6 s6; liSocketAddress sa, r; GString *t = vn_r(2) ? g_string_new("previous content of the string, quite long ........................................") : NULL; memset(&s4, 0, sizeof(s4)); memset(&s6, 0, sizeof(s6)); char ref[100], ip[60];
	  s4.sin_family = AF_INET; s4.sin_addr.s_addr = x; s4.sin_port = htons(1 + vn_r(65535)); if (vn_r(3) == 0) { unsigned char *o = (void*) &s4.sin_addr.s_addr; for (i = 0; i < 4; i++) o[i] = (int[]) { 0, 9, 10, 99, 100, 255, 1 }[vn_r(7)]; }
	  s6.sin6_family = AF_INET6; memcpy(&s6.sin6_addr, a, 16); for (i = 0; i < 16; i++) if (vn_r(3) == 0) ((unsigned char*) &s6.sin6_addr)[i] = 0; s6.sin6_port = s4.sin_port;
	  int v6 = vn_r(2), sp = vn_r(2); if (v6) { sa.len = sizeof(s6); sa.addr_up.ipv6 = &s6; } else { sa.len = sizeof(s4); sa.addr_up.ipv4 = &s4; }
	  inet_ntop(v6 ? AF_INET6 : AF_INET, v6 ? (void*) &s6.sin6_addr : (void*) &s4.sin_addr, ip, sizeof(ip)); sprintf(ref, !sp ? "%s" : v6 ? "[%s]:%d" : "%s:%d", ip, ntohs(s4.sin_port));
	  t = li_sockaddr_to_string(sa, t, sp); if (strcmp(t->str, ref) || t->len != strlen(ref)) F("address printed as \"%s\" instead of \"%s\"", t->str, ref);
	  r = li_sockaddr_from_string(t, ntohs(s4.sin_port)); if (r.len != sa.len || memcmp(r.addr_up.raw, sa.addr_up.raw, r.len)) F("\"%s\" does not parse back", t->str); 
	  if (!li_equal_sockaddr(&r, &sa) || li_hash_sockaddr(&r) != li_hash_sockaddr(&sa)) F("equal addresses of \"%s\" differ", t->str);
	  { liSocketAddress d = li_sockaddr_dup(r); if (!li_equal_sockaddr(&d, &r) || d.addr_up.raw == r.addr_up.raw) F("dup"); ((char*) d.addr_up.raw)[4 + vn_r(4)] ^= 1; if (!v6 && li_equal_sockaddr(&d, &r)) F("different addresses are equal"); li_sockaddr_clear(&d); if (d.addr_up.raw || d.len) F("clear"); }
	  li_sockaddr_clear(&r); g_string_free(t, TRUE); }
}
/* ---- radix ---- */
typedef struct { unsigned char k[32]; int bits; int used; } ent;
static ent E[300]; static int en;
static int pfx(const unsigned char *a, const unsigned char *b, int bits) { int i; for (i = 0; i < bits / 8; i++) if (a[i] != b[i]) return 0; return !(bits % 8) || !((a[bits / 8] ^ b[bits / 8]) & (0xff00 >> (bits % 8)) & 255); }
static int cnt, seen[300]; static void each(gpointer d, gpointer u) { int i = GPOINTER_TO_INT(d) - 1; if (i < 0 || i >= en || !E[i].used || seen[i]) F("foreach: element %d", i); seen[i] = 1; cnt++; }
static int freed; static void fr(gpointer d, gpointer u) { freed++; }
static GString *hist; 
static void rkey(unsigned char *k, int *bits, int maxbits) {
	int i, mode = vn_r(4), w = vn_r(3);
	for (i = 0; i < 32; i++) k[i] = w == 0 ? 0 : w == 1 ? 0xff : 0x5a;
	*bits = vn_r(5) ? vn_r(maxbits + 1) : (int[]) { 0, 1, 8, 31, 32, 33, 63, 64, 65, 96, 127, 128, maxbits }[vn_r(13)]; if (*bits > maxbits) *bits = maxbits;
	if (en && mode) { ent *e = &E[vn_r(en)]; memcpy(k, e->k, 32); if (mode == 1) *bits = e->bits; if (mode == 2) { *bits = e->bits + (int) vn_r(5) - 2; if (*bits < 0) *bits = 0; if (*bits > maxbits) *bits = maxbits; } }
	for (i = vn_r(3); i > 0; i--) { int b = vn_r(2) && *bits ? vn_r(*bits) : vn_r(maxbits); k[b / 8] ^= 128 >> (b % 8); }
}
static void radix(void) {
	liRadixTree *t = li_radixtree_new(); int steps = vn_r(4) ? 1 + vn_r(20) : vn_r(200), maxbits = (int[]) { 32, 32, 128, 128, 40, 256 }[vn_r(6)], i; en = 0; g_string_truncate(hist, 0); vn_evals++;
	while (steps-- > 0) {
		unsigned char k[32]; int bits, x = -1, best = -1; gpointer r; unsigned char *kk; rkey(k, &bits, maxbits);
		kk = malloc((bits + 7) / 8 + 1); memcpy(kk, k, (bits + 7) / 8); /* exact size */
		for (i = 0; i < en; i++) if (E[i].used) { if (E[i].bits == bits && pfx(E[i].k, k, bits)) x = i; if (E[i].bits <= bits && pfx(E[i].k, k, E[i].bits) && (best < 0 || E[i].bits > E[best].bits)) best = i; }
		switch (vn_r(6)) {
		case 0: case 1: if (en >= 290) break;
			if (hist->len < 6000) g_string_append_printf(hist, "insert(%s/%d) ", vn_q(k, (bits + 7) / 8), bits); vn_setcase("%s", hist->str);
			r = li_radixtree_insert(t, kk, bits, GINT_TO_POINTER(en + 1)); if (r != GINT_TO_POINTER(x + 1)) F("insert returned %d, expected %d", GPOINTER_TO_INT(r), x + 1);
			if (x >= 0) { E[x].used = 0; vn_nontriv++; } memcpy(E[en].k, k, 32); E[en].bits = bits; E[en].used = 1; en++; break;
		case 2: if (hist->len < 6000) g_string_append_printf(hist, "remove(%s/%d) ", vn_q(k, (bits + 7) / 8), bits); vn_setcase("%s", hist->str);
			r = li_radixtree_remove(t, kk, bits); if (r != GINT_TO_POINTER(x + 1)) F("remove returned %d, expected %d", GPOINTER_TO_INT(r), x + 1); if (x >= 0) { E[x].used = 0; vn_nontriv++; } break;
		default: if (hist->len < 6000) g_string_append_printf(hist, "lookup(%s/%d) ", vn_q(k, (bits + 7) / 8), bits); vn_setcase("%s", hist->str);
			r = li_radixtree_lookup(t, kk, bits); if (r != GINT_TO_POINTER(best + 1)) F("lookup returned %d, longest matching prefix is %d", GPOINTER_TO_INT(r), best + 1);
			r = li_radixtree_lookup_exact(t, kk, bits); if (r != GINT_TO_POINTER(x + 1)) F("lookup_exact returned %d, expected %d", GPOINTER_TO_INT(r), x + 1); }
		free(kk);
	}
	if (en > 3) vn_sample("%s", hist->str);
	{ int live = 0; memset(seen, 0, sizeof(seen)); cnt = 0; for (i = 0; i < en; i++) live += E[i].used; li_radixtree_foreach(t, each, NULL); if (cnt != live) F("foreach saw %d of %d elements", cnt, live);
	  freed = 0; li_radixtree_free(t, fr, NULL); if (freed != live) F("free called for %d of %d elements", freed, live); }
}
int main(int argc, char **argv) {
	char b[400]; static const char *fix[] = { "::", "::1", "1::", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7::", "::2:3:4:5:6:7:8", "1::2:", "::1:", "1:2:3:4:5:6:1.2.3.4", "::ffff:1.2.3.4", "1:2:3:4:5:6:7:1.2.3.4", ":::", "1:::2", ":", "", "[", "[]", "[::]", "[::]:80", "[::/64]:80", "[::]/64:80", "[::/64]/64", "::/129", "::/128", "::/0", "1.2.3.4/0", "1.2.3.4/32", "1.2.3.4/33", "1.2.3.4/24:80", "1.2.3.4:80/24", "1.2.3.4:65536", "1.2.3.4:65535", "1.2.3.4:", "1.2.3.4/", "1.2.3", "1.2.3.4.5", "1.2.3.256", "12345::", "::1.2.3.4", "1.2.3.4::", "::1.2.3.4:5", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "::1 x", "::1\t", "::1\nfoo" };
	unsigned i; hist = g_string_new(""); vn_init(argc, argv);
	for (i = 0; i < G_N_ELEMENTS(fix); i++) parse_case(fix[i]);
	while (vn_more(1.0)) { for (i = 0; i < 50; i++) { gen(b); parse_case(b); nets(); } radix(); radix(); }
	return vn_done("address-like strings against a reference parser, random networks, random histories of prefix tables against a list; non-trivial: accepted addresses, replaced or removed prefixes");
}
