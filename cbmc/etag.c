/* C08: validators and conditional requests (real text of src/main/etag.c) */
#define _LIGHTTPD_BASE_H_GUARD
#include <lighttpd/base.h>
#include <lighttpd/plugin_core.h>
#include "vp.h"
#include "vp_spec.h"
size_t li_vk, li_vk2; unsigned char li_vb, li_vb2; li_ghost_t li_g;
#undef VR_DEBUG
#define VR_DEBUG(vr, ...) ((void) 0)
#undef CORE_OPTION
#define CORE_OPTION(idx) (vp_opt[(idx) == LI_CORE_OPTION_ETAG_FLAGS])
static liOptionValue vp_opt[2];
static liVRequest vr; static liWorker wrk; static liHttpHeaders rqh, rsh; static GString tmp; static char tmpb[300];
/* ---- library functions by contract */
static char *vp_strstr(const char *h, const char *n); static char *vp_strptime(const char *s, const char *f, struct tm *tm); static time_t vp_mktime(struct tm *tm); static struct tm *vp_gmtime(const time_t *t, struct tm *tm); static size_t vp_strftime(char *s, size_t n, const char *f, const struct tm *tm);
#define strstr vp_strstr
#define strptime vp_strptime
#define mktime vp_mktime
#define gmtime_r vp_gmtime
#define strftime vp_strftime
#define g_string_set_size vp_set_size
#undef g_string_truncate
#define g_string_truncate vp_truncate
static GString *vp_set_size(GString *s, gsize n) { VP_CALLPRE(s == &tmp && n < sizeof(tmpb), "string size"); s->len = n; s->str[n] = 0; return s; }
static int appended_kind[8]; static gint64 appended_int[8]; static int nap;
static GString *vp_truncate(GString *s, gsize n) { VP_CALLPRE(s == &tmp && n == 0, "emptied"); s->len = 0; nap = 0; return s; }
#define strncpy vp_strncpy
static char *vp_strncpy(char *d, const char *s, size_t n) { for (size_t i = 0; i < n; i++) d[i] = s[i]; return d; }
#define memset vp_memset
static void *vp_memset(void *d, int c, size_t n) { if (n == sizeof(struct tm)) { *(struct tm*) d = (struct tm){0}; } return d; }
#include "src/main/etag.c"

/* ---- header lookups */
#define N 3
static GString hstr[N + 1]; static char hb[N + 1][56]; static liHttpHeader hh[N + 1]; static GList hl[N]; static int nh; static int resp_has; static int want_key; /* 13 If-None-Match, 17 If-Modified-Since */
GList *li_http_header_find_first(liHttpHeaders *h, const gchar *k, size_t l) { VP_CALLPRE(h == &rqh && (int) l == want_key && (k[3] == (l == 13 ? 'N' : 'M')), "looks for its header in the request"); return nh ? &hl[0] : NULL; }
GList *li_http_header_find_next(GList *x, const gchar *k, size_t l) { VP_CALLPRE((int) l == want_key, "same header"); int i = x - hl; return i + 1 < nh ? &hl[i + 1] : NULL; }
liHttpHeader *li_http_header_lookup(liHttpHeaders *h, const gchar *k, size_t l) { VP_CALLPRE(h == &rsh && (int) l == (want_key == 13 ? 4 : 13), "own validator"); return resp_has ? &hh[N] : NULL; }
static int nover, over_etag, over_lm, nremove; static const char *over_v[2]; static gsize over_l[2];
void li_http_header_overwrite(liHttpHeaders *h, const gchar *k, size_t kl, const gchar *v, size_t vl) { VP_CALLPRE(h == &rsh && v == tmp.str && vl == tmp.len, "response header from the computed string"); if (kl == 4) over_etag++; else if (kl == 13 && k[0] == 'L') over_lm++; else nover++; }
gboolean li_http_header_remove(liHttpHeaders *h, const gchar *k, size_t l) { VP_CALLPRE(h == &rsh && l == 4, "removes the etag"); nremove++; return TRUE; }

static int match[N]; static const char *needle;
static char *vp_strstr(const char *h, const char *n) {
	VP_CALLPRE(n == needle, "searches the validator of the response");
	for (int i = 0; i < nh; i++) if (h == hb[i] + want_key + 2) return match[i] ? (char*) h : NULL;
	VP_CALLPRE(0, "searches in a header value"); return NULL;
}
static void setup(int keylen) {
	want_key = keylen; nh = nondet_int(); VP_REQUIRES(nh >= 0 && nh <= N);
	for (int i = 0; i <= N; i++) { hh[i].data = &hstr[i]; hstr[i].str = hb[i]; hh[i].keylen = i < N ? keylen : keylen == 13 ? 4 : 13; if (i < N) hl[i].data = &hh[i]; match[i < N ? i : 0] = nondet_bool(); }
	resp_has = nondet_bool(); vr.request.headers = &rqh; vr.response.headers = &rsh; vr.wrk = &wrk; wrk.tmp_str = &tmp; tmp.str = tmpb; tmp.allocated_len = sizeof(tmpb);
}
void h_inm(void) {
	setup(13);
	GString et; char etb[4] = "\"1\""; et.str = etb; et.len = 3; int own = nondet_bool();
	needle = own ? etb : hb[N] + 6; int any = 0, has = own || resp_has;
	for (int i = 0; i < nh; i++) any |= match[i];
	liTristate r = li_http_response_handle_cachable_etag(&vr, own ? &et : NULL);
	VP_ENSURES(r == (nh == 0 ? LI_TRIMAYBE : has && any ? LI_TRITRUE : LI_TRIFALSE), "If-None-Match: no opinion without it, else exactly whether a listed tag matches");
	if (r == LI_TRITRUE) VP_REACH("match"); if (r == LI_TRIFALSE) VP_REACH("no match"); if (r == LI_TRIMAYBE) VP_REACH("absent");
}
/* If-Modified-Since */
static int hdr_ok, nparse; static time_t t_hdr, t_own; static const char *own_p;
static char *vp_strptime(const char *s, const char *f, struct tm *tm) {
	int own = s == own_p;
	if (!own) { for (int i = 0; i < 31; i++) { VP_CALLPRE(s[i] == 0 || s[i] == hb[0][19 + i], "parses the given date"); if (!s[i]) { VP_CALLPRE(hb[0][19 + i] == 0 || hb[0][19 + i] == ';', "up to its end"); break; } } }
	nparse++; tm->tm_sec = own ? 1 : 2; return own || hdr_ok ? (char*) s : NULL;
}
static time_t vp_mktime(struct tm *tm) { return tm->tm_sec == 1 ? t_own : t_hdr; }
void h_ims(void) {
	setup(17);
	GString lm; char lmb[30]; int own = nondet_bool(); size_t used = 0; lm.str = lmb; lm.len = 29;
	char *p = own ? lmb : hb[N] + 15; own_p = p;
	for (int i = 0; i < 29; i++) { p[i] = nondet_uchar(); VP_REQUIRES(p[i] != 0 && p[i] != ';'); } p[29] = 0;
	for (int i = 19; i < 52; i++) hb[0][i] = nondet_uchar();
	hb[0][52] = 0;
	char *v = hb[0] + 19; while (v[used] && v[used] != ';') used++;
	hdr_ok = nondet_bool(); t_hdr = nondet_long(); t_own = nondet_long();
	int same = 1; for (size_t i = 0; i < used; i++) if (i >= 29 || v[i] != p[i]) { same = 0; break; }
	int has = own || resp_has;
	liTristate r = li_http_response_handle_cachable_modified(&vr, own ? &lm : NULL), want;
	if (nh == 0) want = LI_TRIMAYBE;
	else if (nh > 1 || !has) want = LI_TRIFALSE;
	else if (same) want = used == 29 ? LI_TRITRUE : LI_TRIFALSE;
	else want = used < 30 && hdr_ok && t_own <= t_hdr ? LI_TRITRUE : LI_TRIFALSE;
	VP_ENSURES(r == want, "If-Modified-Since: exactly whether the response is not newer than the single given date");
	if (r == LI_TRITRUE && same) VP_REACH("same date"); if (r == LI_TRITRUE && !same) VP_REACH("later date"); if (r == LI_TRIFALSE) VP_REACH("modified");
}
/* li_etag_set_header over the contracts of the two above */
#ifdef VP_SETHDR
static int r_inm, r_ims, c_inm, c_ims, mutated; static struct stat st;
liTristate vp_inm(liVRequest *v, GString *e) { VP_CALLPRE(e == &tmp && mutated && over_etag == 1, "compares the new tag"); c_inm++; return r_inm; }
liTristate vp_ims(liVRequest *v, GString *e) { VP_CALLPRE(e == &tmp && over_lm == 1, "compares the new date"); c_ims++; return r_ims; }
void vp_mutate(GString *m, GString *e) { unsigned fl = (unsigned) vp_opt[1].number; int i = 0, n = !!(fl & LI_ETAG_USE_INODE) + !!(fl & LI_ETAG_USE_SIZE) + !!(fl & LI_ETAG_USE_MTIME);
	VP_CALLPRE(m == &tmp && e == &tmp && nap == 2 * n - 1, "tag made from the selected attributes, separated");
	if (fl & LI_ETAG_USE_INODE) { VP_CALLPRE(appended_int[i] == (gint64) st.st_ino, "inode"); i += 2; }
	if (fl & LI_ETAG_USE_SIZE) { VP_CALLPRE(appended_int[i] == st.st_size, "size"); i += 2; }
	if (fl & LI_ETAG_USE_MTIME) { VP_CALLPRE(appended_int[i] == st.st_mtime, "mtime"); i += 2; }
	for (int k = 0; k < nap; k++) VP_CALLPRE(appended_kind[k] == !(k & 1), "separators between numbers");
	mutated++; m->len = 3; }
void li_string_append_int(GString *s, gint64 v) { VP_CALLPRE(s == &tmp && nap < 8, "into the tag"); appended_kind[nap] = 1; appended_int[nap++] = v; s->len += 3; }
GString *li_g_string_append_len(GString *s, const gchar *v, gssize l) { VP_CALLPRE(s == &tmp && l == 1 && v[0] == '-' && nap < 8, "separator"); appended_kind[nap++] = 0; s->len += 1; return s; }
static struct tm *vp_gmtime(const time_t *t, struct tm *tm) { VP_CALLPRE(t == &st.st_mtime || *t == st.st_mtime, "time of modification"); return nondet_bool() ? tm : NULL; }
static size_t vp_strftime(char *s, size_t n, const char *f, const struct tm *tm) { VP_CALLPRE(s == tmp.str && n < sizeof(tmpb), "room for the date"); return 29; }
void h_set(void) {
	setup(13); vp_opt[1].number = nondet_ulong() & (LI_ETAG_USE_INODE | LI_ETAG_USE_SIZE | LI_ETAG_USE_MTIME); 
	st.st_ino = nondet_ulong(); st.st_size = nondet_long(); st.st_mtime = nondet_long();
	r_inm = nondet_int(); r_ims = nondet_int(); VP_REQUIRES((r_inm == LI_TRIFALSE || r_inm == LI_TRIMAYBE || r_inm == LI_TRITRUE) && (r_ims == LI_TRIFALSE || r_ims == LI_TRIMAYBE || r_ims == LI_TRITRUE));
	gboolean c = nondet_int(); int ask = nondet_bool();
	li_etag_set_header(&vr, &st, ask ? &c : NULL);
	VP_ENSURES(vp_opt[1].number ? over_etag == 1 && !nremove : over_etag == 0 && nremove == 1, "etag header exactly if any attribute is selected");
	VP_ENSURES(!nover && over_lm <= 1, "no other header");
	int e = vp_opt[1].number ? r_inm : LI_TRIMAYBE, m = over_lm ? r_ims : LI_TRIMAYBE;
	if (ask) VP_ENSURES(!!c == (e != LI_TRIFALSE && m != LI_TRIFALSE && (e == LI_TRITRUE || m == LI_TRITRUE)), "not modified exactly if every given condition says so");
	else VP_ENSURES(!c_inm && !c_ims, "not asked");
	if (ask && c) VP_REACH("304"); if (ask && !c) VP_REACH("200");
}
#else
static struct tm *vp_gmtime(const time_t *t, struct tm *tm) { return NULL; }
static size_t vp_strftime(char *s, size_t n, const char *f, const struct tm *tm) { return 0; }
static int k_inm, k_ims;
liTristate vp_inm2(liVRequest *v, GString *e) { return k_inm; }
liTristate vp_ims2(liVRequest *v, GString *e) { return k_ims; }
void h_both(void) {
	k_inm = nondet_int(); k_ims = nondet_int(); VP_REQUIRES((k_inm == LI_TRIFALSE || k_inm == LI_TRIMAYBE || k_inm == LI_TRITRUE) && (k_ims == LI_TRIFALSE || k_ims == LI_TRIMAYBE || k_ims == LI_TRITRUE));
	gboolean c = li_http_response_handle_cachable(&vr);
	VP_ENSURES(!!c == (k_inm != LI_TRIFALSE && k_ims != LI_TRIFALSE && (k_inm == LI_TRITRUE || k_ims == LI_TRITRUE)), "not modified exactly if every given condition says so");
	if (c) VP_REACH("304"); else VP_REACH("200");
}
/* the tag: quoted, a function of the bytes */
static int q, ints; static gint64 val;
GString *li_g_string_append_len(GString *s, const gchar *v, gssize l) { VP_CALLPRE(s == &tmp && l == 1 && v[0] == '"', "quote"); q++; VP_CALLPRE(q == 1 ? !ints : ints == 1, "quotes around the number"); return s; }
void li_string_append_int(GString *s, gint64 v) { VP_CALLPRE(s == &tmp && q == 1, "number behind the quote"); ints++; val = v; }
void h_mutate(void) {
	tmp.str = tmpb; tmp.len = nondet_size(); VP_REQUIRES(tmp.len <= 12); guint32 h = 0;
	for (int i = 0; i < 12; i++) tmpb[i] = nondet_uchar();
	for (guint i = 0; i < tmp.len; i++) h = (h << 5) ^ (h >> 27) ^ tmpb[i];
	li_etag_mutate(&tmp, &tmp);
	VP_ENSURES(q == 2 && ints == 1 && val == (gint64) (guint64) h, "tag is the quoted hash of the whole string");
	VP_REACH("tag");
}
#endif
