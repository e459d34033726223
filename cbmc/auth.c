/* C16: mod_auth (real text of src/modules/mod_auth.c) */
#include <lighttpd/base.h>
#include <lighttpd/encoding.h>
#include <lighttpd/plugin_core.h>
#include "vp.h"
#include "vp_spec.h"
size_t li_vk, li_vk2; unsigned char li_vb, li_vb2; li_ghost_t li_g;
#undef VR_DEBUG
#define VR_DEBUG(vr, ...) ((void) 0)
#undef ERROR
#define ERROR(srv, ...) ((void) 0)
#undef CORE_OPTION
#define CORE_OPTION(idx) (vp_opt)
#undef _OPTION
#define _OPTION(vr, p, idx) (vp_opt)
static liOptionValue vp_opt;
#undef g_string_truncate
#define g_string_truncate vp_truncate
#undef g_string_append_c
#define g_string_append_c vp_append_c
#undef g_str_has_prefix
#define g_str_has_prefix vp_has_prefix
#undef g_strcmp0
#define g_strcmp0 vp_cmp
#undef g_str_equal
#define g_str_equal(a, b) (0 == vp_cmp((const char*) (a), (const char*) (b)))
#undef strcmp
#define strcmp vp_cmp
#undef strchr
#define strchr vp_strchr
#undef memchr
#define memchr vp_memchr
#undef g_free
#define g_free vp_free
#undef g_slice_new
#define g_slice_new(T) ((T*) vp_slice())
#undef g_slice_free
#define g_slice_free(T, p) vp_slice_free(p)
#undef g_atomic_int_get
#define g_atomic_int_get(p) (*(p))
#undef g_atomic_int_inc
#define g_atomic_int_inc(p) ((void) ++*(p))
#undef g_atomic_int_dec_and_test
#define g_atomic_int_dec_and_test(p) (--*(p) == 0)
#undef g_hash_table_insert
#define g_hash_table_insert vp_insert
#define stat(p, s) vp_stat(p, s)
struct stat; static int vp_stat(const char *p, struct stat *s);
static GString *vp_truncate(GString *s, gsize n); static GString *vp_append_c(GString *s, gchar c); static int vp_cmp(const char *a, const char *b); static gboolean vp_has_prefix(const char *s, const char *p);
static char *vp_strchr(const char *s, int c); static void *vp_memchr(const void *s, int c, size_t n); static void vp_free(void *p); static void *vp_slice(void); static void vp_slice_free(void *p); static gboolean vp_insert(GHashTable *t, gpointer k, gpointer v);
#include "src/modules/mod_auth.c"
static liVRequest vr; static liWorker wrk; static GString tmp; static char tmpb[8]; static liPlugin plugin; static AuthBasicData bd; static AuthFile af; static AuthFileData afd, afd2; static GString realm, user, pass; static liHttpHeaders rqh, rsh;
static gboolean vp_has_prefix(const char *s, const char *p) { for (unsigned i = 0; p[i]; i++) if (s[i] != p[i]) return FALSE; return TRUE; }
static int tp[8], ntp; enum { T_BASIC, T_REALM, T_QUOTE, T_USER, T_COLON, T_BAD };
static GString *vp_truncate(GString *s, gsize n) { VP_CALLPRE(s == &tmp && n == 0, "temporary string"); ntp = 0; return s; }
static void add(int t) { if (ntp < 8) tp[ntp] = t; ntp++; }
static char userb[2], realmb[2], passb[2];
GString *li_g_string_append_len(GString *s, const gchar *v, gssize n) {
	VP_CALLPRE(s == &tmp, "temporary string");
	if (v == realmb && (size_t) n == realm.len) add(T_REALM); else if (v == userb && (size_t) n == user.len) add(T_USER);
	else if (n == 13 && v[0] == 'B' && v[6] == 'r' && v[12] == '"') add(T_BASIC); else if (n == 1 && v[0] == ':') add(T_COLON); else if (n == 1 && v[0] == '"') add(T_QUOTE); else add(T_BAD);
	return s;
}
GString *li_string_assign_len(GString *s, const gchar *v, gssize n) { ntp = 0; return li_g_string_append_len(s, v, n); }
static GString *vp_append_c(GString *s, gchar c) { VP_CALLPRE(s == &tmp, "temporary string"); add(c == '"' ? T_QUOTE : c == ':' ? T_COLON : T_BAD); return s; }
static void setup(void) {
	tmp.str = tmpb; tmp.len = 1; tmp.allocated_len = 8; wrk.tmp_str = &tmp; vr.wrk = &wrk; vr.request.headers = &rqh; vr.response.headers = &rsh; realm.str = realmb; realm.len = nondet_size(); user.str = userb; user.len = nondet_size(); pass.str = passb; pass.len = nondet_size();
	__CPROVER_assume(realm.len > 1 && realm.len < 100000 && user.len > 1 && user.len < 100000); bd.p = &plugin; bd.realm = &realm; bd.data = &af; vp_opt.boolean = nondet_bool();
}
#ifndef VP_FILE
/* --- auth_basic: the header is split exactly, only an accepted pair gets through --- */
static char *dec; static size_t declen, colon, nul; static int has_hdr, decodes, handled, direct_ok, ndirect, backends, acc, freed, env_user, env_type, wwwauth; static liHttpHeader hdr; static GString hd; static char hdb[32];
#ifdef VP_BASIC
gboolean li_vrequest_is_handled(liVRequest *v) { return handled; }
gboolean li_vrequest_handle_direct(liVRequest *v) { VP_CALLPRE(v == &vr, "this request"); ndirect++; return direct_ok; }
liHttpHeader *li_http_header_lookup(liHttpHeaders *h, const gchar *k, size_t l) { VP_CALLPRE(h == &rqh && l == 13 && (k[0] | 32) == 'a' && (k[3] | 32) == 'h' && (k[12] | 32) == 'n', "looks for authorization in the request"); return has_hdr ? &hdr : NULL; }
guchar *g_base64_decode(const gchar *t, gsize *n) { VP_CALLPRE(t == hdb + 15 + 6, "what follows Basic"); if (!decodes) return NULL; *n = declen; return (guchar*) dec; }
static char *vp_strchr(const char *s, int c) { VP_CALLPRE(s == dec && !freed && c == ':', "first colon"); return colon < declen && colon < nul ? dec + colon : NULL; }
static void *vp_memchr(const void *s, int c, size_t n) { VP_CALLPRE(s == dec && !freed && n == declen && (c == 0 || c == ':'), "in the decoded bytes"); return c ? (colon < n ? dec + colon : NULL) : nul < n ? dec + nul : NULL; }
static void vp_free(void *p) { if (p) { VP_CALLPRE(p == dec && !freed, "freed once"); freed++; } }
static int vp_cmp(const char *a, const char *b) { return nondet_int(); }
void li_environment_set(liEnvironment *e, const gchar *k, size_t kl, const gchar *v, size_t vl) {
	VP_CALLPRE(e == &vr.env && !freed, "environment of the request");
	if (kl == 11 && k[0] == 'R') { VP_CALLPRE(v == dec && vl == colon, "REMOTE_USER is the user name"); env_user++; } else { VP_CALLPRE(kl == 9 && k[0] == 'A' && vl == 5 && v[0] == 'B', "AUTH_TYPE Basic"); env_type++; }
}
void li_http_header_overwrite(liHttpHeaders *h, const gchar *k, size_t kl, const gchar *v, size_t vl) {
	VP_CALLPRE(h == &rsh && kl == 16 && k[0] == 'W' && v == tmp.str && vl == tmp.len, "challenge"); VP_CALLPRE(ntp == 3 && tp[0] == T_BASIC && tp[1] == T_REALM && tp[2] == T_QUOTE, "names the realm"); wwwauth++;
}
static gboolean backend(liVRequest *v, const GString *u, const GString *p, AuthBasicData *b, gboolean d) {
	VP_CALLPRE(v == &vr && b == &bd && !freed, "this request"); VP_CALLPRE(u->str == dec && u->len == colon && dec[colon] == 0, "user: what is before the first colon, terminated");
	VP_CALLPRE(p->str == dec + colon + 1 && p->len == declen - colon - 1, "password: everything behind it"); backends++; return acc;
}
void h_basic(void) {
	setup(); declen = nondet_size(); colon = nondet_size(); nul = nondet_size(); __CPROVER_assume(declen < (1u << 20)); dec = malloc(declen + 1); __CPROVER_assume(dec);
	dec[declen] = 0; if (colon < declen) dec[colon] = ':'; if (nul < declen) { __CPROVER_assume(nul != colon); dec[nul] = 0; }
	has_hdr = nondet_bool(); decodes = nondet_bool(); handled = nondet_bool(); direct_ok = nondet_bool(); acc = nondet_bool(); hdr.data = &hd; hdr.keylen = 13; hd.str = hdb; hd.len = 31; { char e[32]; memcpy(hdb, e, 32); } hdb[31] = 0; bd.backend = backend;
	int s0 = vr.response.http_status = nondet_int(); gpointer ctx = NULL;
	liHandlerResult r = auth_basic(&vr, &bd, &ctx); VP_REACH("returns");
	char *v = hdb + 15; int basic = has_hdr && v[0] == 'B' && v[1] == 'a' && v[2] == 's' && v[3] == 'i' && v[4] == 'c' && v[5] == ' ';
	int valid = basic && decodes && colon < declen && nul >= declen;
	if (handled) { VP_ENSURES(r == LI_HANDLER_GO_ON && !backends && !ndirect && !env_user && vr.response.http_status == s0, "handled requests are left alone"); return; }
	VP_ENSURES(backends == !!valid, "the backend decides about every well-formed pair, once"); VP_ENSURES(freed == (basic && decodes), "no leak"); VP_ENSURES(wwwauth == 1, "challenge set");
	if (valid && acc) { VP_REACH("let in"); VP_ENSURES(r == LI_HANDLER_GO_ON && ndirect == 0 && vr.response.http_status == s0 && env_user == 1 && env_type == 1, "accepted: request goes on with the user known"); }
	else { VP_ENSURES(ndirect == 1 && !env_user && !env_type, "refused: the request is handled here, no user is set"); if (direct_ok) { VP_REACH("refused"); VP_ENSURES(r == LI_HANDLER_GO_ON && vr.response.http_status == 401, "401"); } else VP_ENSURES(r == LI_HANDLER_ERROR, "not silently let through"); }
}
#else
/* --- the backends: TRUE exactly if the stored entry of that user matches --- */
static int found, same, released, hashed, md5parts, md5p[8], fin, sumfreed, cmps; static char entry[10]; static GChecksum *SUM; enum { H_APR = 1, H_SHA, H_CRYPT }; static int crypt_ok; static char digest[2];
static AuthFileData *vp_get(liWorker *w, AuthFile *f) { VP_CALLPRE(w == &wrk && f == &af, "its user file"); return nondet_bool() ? &afd : NULL; }
AuthFileData *vp_get1(liWorker *w, AuthFile *f) { AuthFileData *d = vp_get(w, f); if (d) released = 0; else { released = 1; found = 0; } return d; }
void vp_rel(AuthFileData *d) { VP_CALLPRE(d == &afd && !released, "released once"); released = 1; }
static int keyok;
gpointer g_hash_table_lookup(GHashTable *t, gconstpointer k) {
	VP_CALLPRE(!released && t == afd.users, "table of the file");
	if (keyok) VP_CALLPRE(k == tmpb && ntp == 3 && tp[0] == T_USER && tp[1] == T_COLON && tp[2] == T_REALM, "key is user:realm"); else VP_CALLPRE(k == userb, "key is the user name");
	return found ? entry : NULL;
}
static int vp_cmp(const char *a, const char *b) {
	const char *o = a == entry ? b : a; VP_CALLPRE(!released && (a == entry) != (b == entry), "compares with the stored entry"); cmps++;
#ifdef VP_PLAIN
	VP_CALLPRE(o == passb, "the password");
#elif defined(VP_DIGEST)
	VP_CALLPRE(o == digest && fin, "the finished digest");
#else
	VP_CALLPRE(o == tmpb && hashed, "the hash of the password");
#endif
	return same ? 0 : nondet_bool() ? 1 : -1;
}
static char *vp_strchr(const char *s, int c) { return NULL; } static void *vp_memchr(const void *s, int c, size_t n) { return NULL; } static void vp_free(void *p) { }
void li_apr_md5_crypt(GString *d, const GString *p, const GString *s) { VP_CALLPRE(d == &tmp && p == &pass && s->str == entry && s->len == strlen(entry), "hash of the password with the stored salt"); hashed = H_APR; }
void li_apr_sha1_base64(GString *d, const GString *p) { VP_CALLPRE(d == &tmp && p == &pass, "hash of the password"); hashed = H_SHA; }
gboolean li_safe_crypt(GString *d, const GString *p, const GString *s) { VP_CALLPRE(d == &tmp && p == &pass && s->str == entry && s->len == strlen(entry), "hash of the password with the stored salt"); hashed = H_CRYPT; return crypt_ok; }
GChecksum *g_checksum_new(GChecksumType t) { VP_CALLPRE(t == G_CHECKSUM_MD5 && !SUM, "md5"); SUM = (GChecksum*) digest; return SUM; }
void g_checksum_update(GChecksum *c, const guchar *d, gssize n) {
	VP_CALLPRE(c == SUM && !fin, "own digest"); int t = T_BAD;
	if ((const char*) d == passb && (size_t) n == pass.len) t = T_BASIC; else if ((const char*) d == userb && (size_t) n == user.len) t = T_USER; else if ((const char*) d == realmb && (size_t) n == realm.len) t = T_REALM; else if (n == 1 && d[0] == ':') t = T_COLON;
	else if ((const char*) d == tmpb && (gsize) n == tmp.len) { for (int i = 0; i < 3; i++) { if (md5parts < 8) md5p[md5parts] = tp[i]; md5parts++; } return; }
	if (md5parts < 8) md5p[md5parts] = t; md5parts++;
}
const gchar *g_checksum_get_string(GChecksum *c) { VP_CALLPRE(c == SUM && !sumfreed, "own digest"); fin = 1; VP_CALLPRE(md5parts == 5 && md5p[0] == T_USER && md5p[1] == T_COLON && md5p[2] == T_REALM && md5p[3] == T_COLON && md5p[4] == T_BASIC, "md5(user:realm:password)"); return digest; }
void g_checksum_free(GChecksum *c) { VP_CALLPRE(c == SUM && !sumfreed, "freed once"); sumfreed = 1; }
void h_backend(void) {
	setup(); found = nondet_bool(); same = nondet_bool(); released = 1; crypt_ok = nondet_bool(); { char e[10]; memcpy(entry, e, 10); } entry[9] = 0; gboolean r; tmp.len = 30;
#ifdef VP_PLAIN
	r = auth_backend_plain(&vr, &user, &pass, &bd, nondet_bool()); VP_ENSURES(!!r == (found && same), "exactly the stored password"); VP_ENSURES(!r || cmps, "was compared");
#elif defined(VP_DIGEST)
	keyok = 1; r = auth_backend_htdigest(&vr, &user, &pass, &bd, nondet_bool()); VP_ENSURES(!!r == (found && same), "exactly the stored digest"); VP_ENSURES(!r || (cmps && fin), "was compared"); VP_ENSURES(!SUM || sumfreed, "no leak");
#else
	r = auth_backend_htpasswd(&vr, &user, &pass, &bd, nondet_bool());
	int k = vp_has_prefix(entry, "$apr1$") ? H_APR : vp_has_prefix(entry, "{SHA}") ? H_SHA : H_CRYPT;
	VP_ENSURES(!!r == (found && entry[0] && same && (k != H_CRYPT || crypt_ok)), "exactly if the hash of the password is the stored one"); if (r) { VP_ENSURES(hashed == k && cmps, "hashed by the method of the entry"); }
#endif
	VP_REACH("returns"); if (r) VP_REACH("accepted"); VP_ENSURES(released, "user file released");
}
#endif
/* --- auth_file_get_data: the users of the current file, kept if the new one is broken --- */
#else
static char contents0[VP_FILE + 1], *cont; static int nins, inserted_k[VP_FILE + 1], inserted_v[VP_FILE + 1], readable, destroyed, cfreed; static GHashTable *TAB; static char path[2]; static GString paths;
static int vp_cmp(const char *a, const char *b) { return nondet_int(); } static char *vp_strchr(const char *s, int c) { return NULL; } static void *vp_memchr(const void *s, int c, size_t n) { return NULL; }
static void vp_free(void *p) { VP_CALLPRE(p == cont && !cfreed, "contents freed once"); cfreed++; }
static void *vp_slice(void) { return &afd; } static void vp_slice_free(void *p) { }
gboolean g_file_get_contents(const gchar *f, gchar **c, gsize *n, GError **e) { VP_CALLPRE(f == path, "its path"); if (!readable) { static GError er; *e = &er; return FALSE; } *c = cont; return TRUE; }
void g_error_free(GError *e) { }
GHashTable *g_hash_table_new(GHashFunc h, GEqualFunc e) { TAB = (GHashTable*) path; return TAB; }
void g_hash_table_destroy(GHashTable *t) { VP_CALLPRE(t == TAB && !destroyed, "table destroyed once"); destroyed++; }
static gboolean vp_insert(GHashTable *t, gpointer k, gpointer v) { VP_CALLPRE(t == TAB && (char*) k >= cont && (char*) k <= cont + VP_FILE && (char*) v >= cont && (char*) v <= cont + VP_FILE, "strings of this file"); if (nins <= VP_FILE) { inserted_k[nins] = (int) ((char*) k - cont); inserted_v[nins] = (int) ((char*) v - cont); } nins++; return TRUE; }
#define NL(c) ((c) == '\n' || (c) == '\r')
void h_load(void) {
	cont = malloc(VP_FILE + 1); __CPROVER_assume(cont); cont[VP_FILE] = 0; for (int i = 0; i <= VP_FILE; i++) contents0[i] = cont[i];
	af.path = &paths; paths.str = path; af.has_realm = nondet_bool(); readable = nondet_bool(); liServer srv;
	AuthFileData *d = auth_file_load(&srv, &af); VP_REACH("returns");
	/* specification: records are separated by line ends; in each the first (second, with realms) colon ends the key */
	int ok = readable, n = 0, i = 0;
	if (readable) {
		for (int rec = 0; rec <= VP_FILE; rec++) {
			if (!contents0[i]) break;
			int start = i, colons = 0, sep = -1;
			for (; i <= VP_FILE && contents0[i] && !NL(contents0[i]); i++) if (contents0[i] == ':') { colons++; if (colons == (af.has_realm ? 2 : 1)) sep = i; }
			if (sep < 0) { ok = 0; break; }
			if (d) { VP_ENSURES(n < nins && inserted_k[n] == start && inserted_v[n] == sep + 1 && cont[sep] == 0 && cont[i] == 0, "every record: key and password, terminated"); int j = start + (int) (nondet_uchar() % (VP_FILE + 1)); if (j < i && j != sep) VP_ENSURES(cont[j] == contents0[j], "bytes unchanged"); }
			n++; for (; i < VP_FILE && NL(contents0[i]); i++) ;
		}
	}
	VP_ENSURES((d != NULL) == ok, "loaded exactly if every line is well-formed");
	if (d) { if (n > 1) VP_REACH("two users"); VP_ENSURES(nins == n && d == &afd && d->refcount == 1 && d->users == TAB && d->contents == cont && !destroyed && !cfreed, "all records, nothing else"); } else if (readable) VP_ENSURES(destroyed == 1 && cfreed == 1, "no leak");
}
static int vp_stat(const char *p, struct stat *s) { return -1; }
#endif
#ifndef VP_FILE
static void *vp_slice(void) { return NULL; } static void vp_slice_free(void *p) { } static gboolean vp_insert(GHashTable *t, gpointer k, gpointer v) { return TRUE; }
static int locked, statr, loads, load_ok, rel_old, newer; static time_t mt; static double now_;
static int vp_stat(const char *p, struct stat *s) { s->st_mtime = mt; return statr; }
void g_mutex_lock(GMutex *m) { VP_CALLPRE(!locked, "not locked twice"); locked = 1; } void g_mutex_unlock(GMutex *m) { VP_CALLPRE(locked, "locked"); locked = 0; }
li_tstamp vp_now(liWorker *w) { return now_; } ev_tstamp ev_now(struct ev_loop *l) { return now_; }
AuthFileData *vp_load(liServer *s, AuthFile *f) { VP_CALLPRE(f == &af && !locked, "loads without the lock"); loads++; return load_ok ? &afd2 : NULL; }
void vp_rel2(AuthFileData *d) { VP_CALLPRE(d == &afd && locked, "releases the old users under the lock"); rel_old++; }
void h_get(void) {
	af.ttl = nondet_int(); af.next_check = nondet_double(); af.last_stat = nondet_double(); now_ = nondet_double(); mt = nondet_long(); statr = nondet_bool() ? 0 : -1; load_ok = nondet_bool(); static GString ps; af.path = &ps; af.data = &afd;
	__CPROVER_assume(af.ttl >= 0 && af.ttl < 1000000 && now_ > 0 && now_ < 1e12 && af.next_check >= 0 && af.next_check < 1e12 && af.last_stat >= 0 && af.last_stat < 1e12 && mt > -1000000000000 && mt < 1000000000000);
	afd.refcount = 1 + (nondet_uchar() & 15); afd2.refcount = 1; int r0 = afd.refcount; double ls = af.last_stat, nc = af.next_check;
	AuthFileData *d = auth_file_get_data(&wrk, &af); VP_REACH("returns");
	int due = af.ttl != 0 && now_ >= nc; int changed = due && statr == 0 && (double) mt >= ls - 1;
	VP_ENSURES(!locked, "lock released"); VP_ENSURES(loads == changed, "loaded exactly if due and changed");
	if (changed && load_ok) { VP_REACH("reloaded"); VP_ENSURES(d == &afd2 && af.data == &afd2 && rel_old == 1 && afd2.refcount == 2, "the new users, one reference for the caller"); }
	else VP_ENSURES(d == &afd && af.data == &afd && rel_old == 0 && afd.refcount == r0 + 1, "the old users stay, one reference for the caller");
	if (due) VP_ENSURES(af.last_stat == now_ && af.next_check == now_ + af.ttl, "next check after the ttl"); else VP_ENSURES(af.last_stat == ls && af.next_check == nc, "no check before");
}
#endif
