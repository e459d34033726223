/* C04: executable contract of the Range header parser: reference parser, exhaustive short headers, random long ones */
#include <lighttpd/base.h>
#include <lighttpd/http_range_parser.h>
#include "vn.h"
typedef struct { goffset a, b; int last; } rg;
static rg exp_[600]; static int nexp, eterm;
static int ws(char c) { return c == ' ' || c == '\t'; }
static int dg(char c) { return c >= '0' && c <= '9'; }
#define END do { eterm = nexp ? LI_PARSE_HTTP_RANGE_DONE : LI_PARSE_HTTP_RANGE_NOT_SATISFIABLE; return; } while (0)
#define BAD do { eterm = LI_PARSE_HTTP_RANGE_INVALID; return; } while (0)
static int number(const char *s, gsize n, gsize *i, goffset *v) { *v = 0; for (; *i < n && dg(s[*i]); (*i)++) { if (*v > (G_MAXINT64 - 10) / 10) return 0; *v = *v * 10 + (s[*i] - '0'); } return 1; }
static void ref(const char *s, gsize n, goffset limit) {
	gsize i = 0, k; nexp = 0;
	while (i < n && ws(s[i])) i++;
	for (k = 0; k < 5; k++, i++) { if (i >= n) END; if (s[i] != "bytes"[k]) BAD; }
	while (i < n && ws(s[i])) i++;
	if (i >= n) END; if (s[i++] != '=') BAD;
	for (;;) {
		goffset a, b;
		while (i < n && (ws(s[i]) || s[i] == ',')) i++;
		if (i >= n) END;
		if (dg(s[i])) {
			if (!number(s, n, &i, &a)) BAD;
			while (i < n && ws(s[i])) i++;
			if (i >= n) END; if (s[i++] != '-') BAD;
			while (i < n && ws(s[i])) i++;
			b = limit - 1;
			if (i < n && dg(s[i])) { if (!number(s, n, &i, &b)) BAD; }
		} else if (s[i] == '-') {
			i++; while (i < n && ws(s[i])) i++;
			if (i >= n) END; if (!dg(s[i])) BAD;
			if (!number(s, n, &i, &a)) BAD;
			a = limit - a; b = limit - 1;
		} else BAD;
		while (i < n && ws(s[i])) i++;
		if (i < n && s[i] != ',') BAD;
		if (i < n) i++;
		if (b >= limit) b = limit - 1; if (a < 0) a = 0;
		if (a <= b && nexp < 600) { exp_[nexp].a = a; exp_[nexp].b = b; exp_[nexp].last = i >= n; nexp++; }
	}
}
static const char *rn[] = { "range", "done", "invalid", "not satisfiable" };
static void one(const char *s, gsize n, goffset limit) {
	liParseHttpRangeState st; GString g = { (char*) s, n, n + 1 }; int k = 0; liParseHttpRangeResult r;
	vn_evals++; vn_setcase("Range: \"%s\", file size %ld", vn_q(s, n), (long) limit);
	ref(s, n, limit);
	li_parse_http_range_init(&st, &g, limit);
	for (;; k++) {
		r = li_parse_http_range_next(&st);
		if (r != LI_PARSE_HTTP_RANGE_OK) break;
		if (st.range_start < 0 || st.range_end >= limit || st.range_start > st.range_end || st.range_length != st.range_end - st.range_start + 1) vn_fail("range %ld-%ld (length %ld) is not a part of the file", (long) st.range_start, (long) st.range_end, (long) st.range_length);
		if (k >= nexp) vn_fail("reports range %ld-%ld, expected %s", (long) st.range_start, (long) st.range_end, rn[eterm]);
		if (st.range_start != exp_[k].a || st.range_end != exp_[k].b) vn_fail("reports range %ld-%ld, expected %ld-%ld", (long) st.range_start, (long) st.range_end, (long) exp_[k].a, (long) exp_[k].b);
		if (!st.last_range != !exp_[k].last) vn_fail("last_range %d", st.last_range);
	}
	if (k != nexp || (int) r != eterm) vn_fail("%d ranges, then %s; expected %d, then %s", k, rn[r], nexp, rn[eterm]);
	if (nexp) vn_nontriv++;
	if (r == LI_PARSE_HTTP_RANGE_INVALID && li_parse_http_range_next(&st) != r) vn_fail("continues behind an error");
	li_parse_http_range_clear(&st);
}
int main(int argc, char **argv) {
	static const char A[] = "09-, x5"; static const goffset lim[] = { 0, 1, 6, 50, 1000, G_MAXINT64 }; char b[400]; gsize n, i; unsigned long k, tot;
	vn_init(argc, argv);
	for (n = 0; n <= 6; n++) for (tot = 1, i = 0; i < n; i++) tot *= 7; 
	for (n = 0; n <= 5; n++) { for (tot = 1, i = 0; i < n; i++) tot *= 7; for (k = 0; k < tot; k++) { unsigned long x = k; memcpy(b, "bytes=", 6); for (i = 0; i < n; i++) { b[6 + i] = A[x % 7]; x /= 7; } b[6 + n] = 0; for (i = 0; i < G_N_ELEMENTS(lim); i++) one(b, 6 + n, lim[i]); } }
	vn_sample("exhaustive: \"bytes=\" + every string of length <= 5 over \"%s\" for 6 file sizes", A);
	while (vn_more(1.0)) {
		static const char *pre[] = { "bytes=", "bytes=", "bytes=", " bytes\t=", "byte=", "Bytes=", "bytes", "", "bytess=", "bits=" };
		static const char *num[] = { "0", "1", "5", "99", "100", "101", "007", "9223372036854775807", "9223372036854775808", "922337203685477579", "922337203685477580", "922337203685477581", "9223372036854775799", "99999999999999999999", "4294967296" };
		goffset limit = vn_r(3) ? vn_r(120) : vn_r(2) ? (goffset) (vn_rand() >> (1 + vn_r(60))) : G_MAXINT64; int parts = vn_r(vn_r(5) ? 5 : 30), p;
		n = sprintf(b, "%s", pre[vn_r(10)]);
		for (p = 0; p < parts && n < 300; p++) {
			int t = vn_r(6);
			if (p && vn_r(12)) b[n++] = ',';
			while (vn_r(5) == 0) b[n++] = " \t,"[vn_r(3)];
			if (t != 1) { n += vn_r(3) ? sprintf(b + n, "%u", vn_r(130)) : sprintf(b + n, "%s", num[vn_r(G_N_ELEMENTS(num))]); while (vn_r(8) == 0) b[n++] = ' '; }
			if (vn_r(25)) b[n++] = '-';
			while (vn_r(8) == 0) b[n++] = ' ';
			if (t != 0) n += vn_r(3) ? sprintf(b + n, "%u", vn_r(130)) : sprintf(b + n, "%s", num[vn_r(G_N_ELEMENTS(num))]);
			while (vn_r(8) == 0) b[n++] = " \t"[vn_r(2)];
			if (vn_r(40) == 0) b[n++] = "x\0\xff=-b"[vn_r(6)];
		}
		while (vn_r(6) == 0) b[n++] = ",, \t"[vn_r(4)];
		b[n] = 0; one(b, n, limit);
		if (vn_evals % 20011 == 0) vn_sample("%s", vn_case);
	}
	return vn_done("all headers 'bytes=' + string of length <= 5 over an alphabet of 7 for 6 file sizes, then random headers; non-trivial: at least one satisfiable range");
}
