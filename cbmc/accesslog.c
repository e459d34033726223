/* C20: access log lines (real text of src/modules/mod_accesslog.c) */
#include <glib.h>
#include <gmodule.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/stat.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <lua.h>
#define union struct /* the verifier can not follow pointers stored in one member of a union and read from another: all members are set instead */
#include <lighttpd/base.h>
#include <lighttpd/plugin_core.h>
#include "vp.h"
#include "vp_spec.h"
#include "vp_force.h"
size_t li_vk, li_vk2; unsigned char li_vb, li_vb2; li_ghost_t li_g;
#undef ERROR
#define ERROR(srv, ...) ((void) 0)
#undef g_string_append_c
#define g_string_append_c(s, c) vp_appc((s), (c))
#undef li_g_string_append_len
#define li_g_string_append_len vp_append
#undef g_string_sized_new
#define g_string_sized_new vp_snew
#undef g_array_index
#define g_array_index(a, t, i) (*vp_entry((a), (i)))
#undef CORE_OPTIONPTR
#define CORE_OPTIONPTR(i) (nameopt.data)
#undef OPTIONPTR
#define OPTIONPTR(i) (alopt[(i) & 1].data)
#undef li_cur_ts
#define li_cur_ts(w) vp_now()
static void vp_appc(GString *s, char c); static void vp_append(GString *s, const char *d, gssize n); static GString *vp_snew(gsize n); static double vp_now(void); static liOptionPtrValue nameopt, alopt[2];

static int steps; static guint k0; static char out[8]; static unsigned outn; static unsigned char byte; static GString logs, src;
static void escdone(void); static void stepdone(void);
#define LI_SPEC_LOG_ESCAPE(l, s, i) do { VP_ENSURES((l) == &logs && (s) == &src, "same strings"); if (steps == 0) { VP_ENSURES((i) == 0 && outn == 0, "starts with the first byte"); guint k_ = nondet_uint(); __CPROVER_assume(k_ < (s)->len); (i) = k_; k0 = k_; byte = (unsigned char) (s)->str[k_]; } else { VP_ENSURES((i) == k0 + 1, "then the next byte"); escdone(); __CPROVER_assume(0); } steps++; } while (0)
#define LI_SPEC_LOG_STEP(i, n) do { if (steps == 0) { VP_ENSURES((i) == 0, "starts with the first entry"); guint k_ = nondet_uint(); __CPROVER_assume(k_ < (n)); (i) = k_; k0 = k_; } else { VP_ENSURES((i) == k0 + 1, "then the next entry"); stepdone(); __CPROVER_assume(0); } steps++; } while (0)
struct al_format_entry_; static void *vp_entry_(GArray *a, guint i);
#define vp_entry(a, i) ((al_format_entry*) vp_entry_((a), (i)))
#include "src/modules/mod_accesslog.c"
#undef union
/* what is written in the step */
static int esc, raws, chars, ints; static const char *rawp[3]; static gsize rawn[3]; static GString *escs; static char chr_; static gint64 intv; static unsigned order[6], on; static int escape_mode;
static void vp_appc(GString *s, char c) { VP_CALLPRE(s == &logs, "the line"); if (escape_mode) { VP_CALLPRE(outn < 8, "at most 4 bytes per byte"); out[outn++] = c; } else { chars++; chr_ = c; if (on < 6) order[on++] = 1; } }
static void vp_append(GString *s, const char *d, gssize n) { VP_CALLPRE(s == &logs && n >= 0, "the line"); if (escape_mode) { VP_CALLPRE(n <= 4 && outn + (unsigned) n <= 8, "at most 4 bytes per byte"); for (int i = 0; i < 4; i++) if (i < n) out[outn++] = d[i]; } else { if (raws < 3) { rawp[raws] = d; rawn[raws] = (gsize) n; } raws++; if (on < 6) order[on++] = 2; } }
static GString *vp_snew(gsize n) { return &logs; }
static liEnvironment *theenv; static GString envval, tmp, uname_, tstamp, host, path, fpath, query, rawpath, meth, la, ra, key, sname; static int haveenv, envkey, hdrs; static liHttpHeaders reqh, resh;
#define HEX(c) ((c) >= '0' && (c) <= '9' ? (c) - '0' : (c) - 'A' + 10)
#define ISHEX(c) (((c) >= '0' && (c) <= '9') || ((c) >= 'A' && (c) <= 'F'))
static void escdone(void) {
	VP_ENSURES(outn >= 1 && outn <= 4, "every byte is written"); for (unsigned i = 0; i < 4; i++) if (i < outn) VP_ENSURES(out[i] >= ' ' && out[i] <= '~', "only printable characters: no line breaks");
	if (outn == 1) { VP_ENSURES((unsigned char) out[0] == byte && byte != '"' && byte != '\\', "plain characters as they are, quotes and backslashes never"); VP_REACH("plain"); }
	else { VP_ENSURES(out[0] == '\\', "escape"); if (outn == 2) { char c = out[1]; VP_ENSURES(byte == (c == '"' ? '"' : c == '\\' ? '\\' : c == 'b' ? '\b' : c == 'n' ? '\n' : c == 'r' ? '\r' : c == 't' ? '\t' : c == 'v' ? '\v' : 256), "decodes to the byte"); VP_REACH("short"); } else { VP_ENSURES(outn == 4 && out[1] == 'x' && ISHEX(out[2]) && ISHEX(out[3]) && HEX(out[2]) * 16 + HEX(out[3]) == byte, "decodes to the byte"); VP_REACH("hex"); } }
}
void h_escape(void) {
	escape_mode = 1; gsize n = nondet_size(); __CPROVER_assume(n < (gsize) 1 << 31); src.str = malloc(n + 1); __CPROVER_assume(src.str != NULL); src.len = n;
	al_append_escaped(&logs, &src);
	VP_ENSURES(steps == (n > 0), "every byte is visited"); if (steps) { VP_ENSURES(k0 + 1 == n, "up to the last one"); escdone(); } else { VP_ENSURES(outn == 0, "nothing"); VP_REACH("empty"); }
}
/* one entry of the format */
static al_format_entry ent; static liVRequest vr; static liConInfo ci; static liWorker wrk; static liStream resp; static liChunkQueue cq; static al_data ald; static struct sockaddr_in sa4; static struct sockaddr_in6 sa6; static struct sockaddr sap; static GArray fmt; static guint vlen; static const char *const VER = "HTTP/1.1"; static double now;
static void *vp_entry_(GArray *a, guint i) { VP_CALLPRE(a == &fmt && i == k0 && i < a->len, "the entry"); return &ent; }
static double vp_now(void) { return now; }
void vp_esc(GString *s, GString *v) { VP_CALLPRE(s == &logs && v != NULL && !escape_mode, "the line"); esc++; escs = v; if (on < 6) order[on++] = 3; }
void li_string_append_int(GString *s, gint64 v) { VP_CALLPRE(s == &logs, "the line"); ints++; intv = v; }
GString* li_environment_get(liEnvironment *e, const gchar *k, size_t n) { VP_CALLPRE(e == &vr.env, "environment of the request"); if (k == key.str) { VP_CALLPRE(n == key.len, "the key"); envkey = 1; } else { VP_CALLPRE(n == 11 && k[0] == 'R' && k[7] == 'U' && k[10] == 'R', "REMOTE_USER"); envkey = 2; } return haveenv ? &envval : NULL; }
void li_http_header_get_all(GString *d, liHttpHeaders *h, const gchar *k, size_t n) { VP_CALLPRE(d == &tmp && k == key.str && n == key.len, "the header"); hdrs = h == &reqh ? 1 : h == &resh ? 2 : 3; d->len = nondet_size(); __CPROVER_assume(d->len < (gsize) 1 << 40); }
GString *li_worker_current_timestamp(liWorker *w, liTimeFunc f, guint n) { VP_CALLPRE(w == &wrk && n == ald.ts_ndx, "the time"); return &tstamp; }
gchar *li_http_version_string(liHttpVersion v, guint *len) { VP_CALLPRE(v == vr.request.http_version, "version of the request"); *len = 8; return (gchar*) VER; }
#define ONLY(e_, r_, c_, i_) (esc == (e_) && raws == (r_) && chars == (c_) && ints == (i_))
#define RAW(k, g) (rawp[k] == (g).str && rawn[k] == (g).len)
#define DASH (ONLY(0, 0, 1, 0) && chr_ == '-')
static char skey[1], shost[1], spath[1], sfp[1], sq[1], srp[1], sm[1], sla[1], sra[1], sts[1], senv[1], stmp[1], ssn[1];
static void str(GString *g, char *b) { g->str = b; g->len = nondet_size(); __CPROVER_assume(g->len < (gsize) 1 << 40); }
static void stepdone(void) {
	if (ent.type == AL_ENTRY_STRING) { VP_ENSURES(ONLY(0, 1, 0, 0) && RAW(0, key), "text of the format"); VP_REACH("text"); return; }
	switch (ent.format.type) {
	case AL_FORMAT_PERCENT: VP_ENSURES(ONLY(0, 0, 1, 0) && chr_ == '%', "percent"); break;
	case AL_FORMAT_REMOTE_ADDR: VP_ENSURES(ONLY(0, 1, 0, 0) && RAW(0, ra), "address of the client"); break;
	case AL_FORMAT_LOCAL_ADDR: VP_ENSURES(ONLY(0, 1, 0, 0) && RAW(0, la), "own address"); break;
	case AL_FORMAT_STATUS_CODE: VP_ENSURES(ONLY(0, 0, 0, 1) && intv == vr.response.http_status, "status"); break;
	case AL_FORMAT_METHOD: VP_ENSURES(ONLY(0, 1, 0, 0) && RAW(0, meth), "method (a token)"); break;
	case AL_FORMAT_FIRST_LINE: VP_ENSURES(ONLY(1, 2, 2, 0) && RAW(0, meth) && escs == &rawpath && rawp[1] == VER && rawn[1] == 8 && chr_ == ' ' && order[0] == 2 && order[1] == 1 && order[2] == 3 && order[3] == 1, "request line, target escaped"); VP_REACH("request line"); break;
	case AL_FORMAT_REQUEST_HEADER: VP_ENSURES(hdrs == 1 && (tmp.len ? ONLY(1, 0, 0, 0) && escs == &tmp : DASH), "request header, escaped"); VP_REACH("header"); break;
	case AL_FORMAT_RESPONSE_HEADER: VP_ENSURES(hdrs == 2 && (tmp.len ? ONLY(1, 0, 0, 0) && escs == &tmp : DASH), "response header, escaped"); break;
	case AL_FORMAT_ENV: VP_ENSURES(envkey == 1 && (haveenv ? ONLY(1, 0, 0, 0) && escs == &envval : DASH), "environment, escaped"); break;
	case AL_FORMAT_AUTHED_USER: VP_ENSURES(envkey == 2 && (haveenv ? ONLY(1, 0, 0, 0) && escs == &envval : DASH), "user, escaped"); VP_REACH("user"); break;
	case AL_FORMAT_FILENAME: VP_ENSURES(fpath.len ? ONLY(1, 0, 0, 0) && escs == &fpath : DASH, "file name, escaped"); break;
	case AL_FORMAT_PATH: VP_ENSURES(ONLY(1, 0, 0, 0) && escs == &path, "decoded path, escaped"); VP_REACH("path"); break;
	case AL_FORMAT_QUERY_STRING: VP_ENSURES(query.len ? ONLY(1, 0, 0, 0) && escs == &query : DASH, "query string, escaped"); break;
	case AL_FORMAT_TIME: VP_ENSURES(ONLY(0, 1, 0, 0) && RAW(0, tstamp), "time"); break;
	case AL_FORMAT_HOSTNAME: VP_ENSURES(host.len ? (ONLY(0, 1, 0, 0) && RAW(0, host)) || (ONLY(1, 0, 0, 0) && escs == &host) : DASH, "host (checked by the request parser)"); break;
	case AL_FORMAT_SERVER_NAME: VP_ENSURES(ONLY(0, 1, 0, 0) ? (nameopt.data.string ? RAW(0, sname) : RAW(0, host)) : ONLY(1, 0, 0, 0) && escs == (nameopt.data.string ? &sname : &host), "configured name or host"); break;
	case AL_FORMAT_CONNECTION_STATUS: VP_ENSURES(ONLY(0, 0, 1, 0) && chr_ == (ci.aborted ? 'X' : ci.keep_alive ? '+' : '-'), "connection status"); break;
	case AL_FORMAT_BYTES_IN: VP_ENSURES(ONLY(0, 0, 0, 1) && (guint64) intv == ci.stats.bytes_in, "bytes received"); break;
	case AL_FORMAT_BYTES_OUT: VP_ENSURES(ONLY(0, 0, 0, 1) && (guint64) intv == ci.stats.bytes_out, "bytes sent"); break;
	default: VP_ENSURES(esc == 0 && raws == 0 && ints + chars == 1, "a number or one character"); break;
	}
}
void h_line(void) {
	str(&key, skey); str(&host, shost); str(&path, spath); str(&fpath, sfp); str(&query, sq); str(&rawpath, srp); str(&meth, sm); str(&la, sla); str(&ra, sra); str(&tstamp, sts); str(&envval, senv); str(&tmp, stmp); str(&sname, ssn);
	vr.coninfo = &ci; vr.wrk = &wrk; wrk.tmp_str = &tmp; ci.remote_addr_str = &ra; ci.local_addr_str = &la; ci.aborted = nondet_bool(); ci.keep_alive = nondet_bool(); ci.stats.bytes_in = nondet_ulong(); ci.stats.bytes_out = nondet_ulong(); ci.resp = nondet_bool() ? &resp : NULL; resp.out = &cq; cq.bytes_out = nondet_long();
	sap.sa_family = (sa_family_t) nondet_uint(); ci.local_addr.addr_up.plain = &sap; ci.local_addr.addr_up.ipv4 = &sa4; ci.local_addr.addr_up.ipv6 = &sa6;
	vr.request.headers = &reqh; vr.response.headers = &resh; vr.response.http_status = nondet_int(); vr.request.http_method_str = &meth; vr.request.uri.query = &query; vr.request.uri.raw_orig_path = &rawpath; vr.request.uri.path = &path; vr.request.uri.host = &host; vr.physical.path = &fpath; nameopt.data.string = nondet_bool() ? &sname : NULL; haveenv = nondet_bool(); vr.request.http_version = nondet_int(); vr.ts_started = 5; now = 7.5; ald.ts_ndx = nondet_uint();
	int t = nondet_int(); __CPROVER_assume(t >= AL_FORMAT_UNSUPPORTED && t <= AL_FORMAT_BYTES_OUT); ent.format.type = t; ent.type = nondet_bool() ? AL_ENTRY_FORMAT : AL_ENTRY_STRING; ent.key = &key; fmt.len = nondet_uint();
	GString *r = al_format_log(&vr, &ald, &fmt);
	VP_ENSURES(r == &logs, "the line"); VP_ENSURES(steps == (fmt.len > 0), "every entry is written"); if (steps) { VP_ENSURES(k0 + 1 == fmt.len, "up to the last one"); stepdone(); } else { VP_ENSURES(ONLY(0, 0, 0, 0), "empty format"); VP_REACH("empty"); }
}
/* one line per answered request */
static int lines, fmts; static GString target; static GArray fmt2;
GString *vp_format(liVRequest *v, al_data *a, GArray *f) { VP_CALLPRE(v == &vr && f == &fmt2, "the configured format"); fmts++; return &logs; }
gboolean li_log_write_direct(liServer *srv, liWorker *w, GString *p, GString *m) { VP_CALLPRE(w == &wrk && p == &target && m == &logs && fmts == 1, "the line to the configured log"); lines++; return TRUE; }
void h_close(void) {
	static liPlugin plug; plug.data = &ald; vr.wrk = &wrk; vr.state = nondet_int(); vr.response.http_status = nondet_int(); alopt[0].data.ptr = nondet_bool() ? &target : NULL; alopt[1].data.ptr = nondet_bool() ? &fmt2 : NULL;
	al_handle_vrclose(&vr, &plug);
	int want = vr.state != LI_VRS_CLEAN && vr.response.http_status != 0 && alopt[0].data.ptr && alopt[1].data.ptr; VP_ENSURES(lines == want, "exactly one line for every answered request"); if (want) VP_REACH("line"); else VP_REACH("no line");
}
