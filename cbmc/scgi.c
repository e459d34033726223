/* C14: SCGI request head (real text of src/modules/mod_scgi.c) */
#include <lighttpd/base.h>
#include <lighttpd/plugin_core.h>
#include "vp.h"
#include "vp_spec.h"
size_t li_vk, li_vk2; unsigned char li_vb, li_vb2; li_ghost_t li_g;
#include "src/modules/mod_scgi.c"
static GByteArray arr; static liChunkQueue oq; static liVRequest vr; static liWorker wrk; static GString tmp, cval; static char tmpb[8], cvb[4], kb[4], vb[4]; static liEnvironmentDup edup;
enum { P_K, P_V, P_Z, P_COMMA, P_SCGI, P_ONE, P_CV };
static int part[8], nparts, queued, popped, conf, npairs; static size_t kl, vl, total; static unsigned printed; static int headsent;
GByteArray *g_byte_array_sized_new(guint n) { arr.len = 0; return &arr; }
GByteArray *g_byte_array_append(GByteArray *a, const guint8 *p, guint n) {
	int t = -1; VP_CALLPRE(a == &arr, "own array");
	if ((const char*) p == kb) { t = P_K; VP_CALLPRE(n == kl, "whole name"); } else if ((const char*) p == vb) { t = P_V; VP_CALLPRE(n == vl, "whole value"); }
	else if ((const char*) p == cvb) { t = P_CV; VP_CALLPRE(n == cval.len, "whole value"); }
	else if (n == 1) t = p[0] == 0 ? P_Z : p[0] == ',' ? P_COMMA : p[0] == '1' ? P_ONE : -1;
	else if (n == 4) t = p[0] == 'S' && p[1] == 'C' && p[2] == 'G' && p[3] == 'I' ? P_SCGI : -1;
	VP_CALLPRE(t >= 0, "known part"); if (nparts < 16) { if (t != P_COMMA) total += n; if (nparts < 8) part[nparts] = t; } nparts++; a->len += n; return a;
}
void li_chunkqueue_append_mem(liChunkQueue *q, gconstpointer p, gssize n) { VP_CALLPRE(q == &oq && p == tmpb && !queued, "length in front"); headsent++; }
void li_chunkqueue_append_bytearr(liChunkQueue *q, GByteArray *a) { VP_CALLPRE(q == &oq && a == &arr && headsent == 1, "headers behind the length"); queued++; }
void g_string_printf(GString *s, const gchar *f, ...) { va_list a; VP_CALLPRE(s == &tmp && f[0] == '%' && f[1] == 'u' && f[2] == ':' && !f[3], "netstring length"); va_start(a, f); printed = va_arg(a, guint); va_end(a); }
liEnvironmentDup *li_environment_make_dup(liEnvironment *e) { VP_CALLPRE(e == &vr.env, "environment of the request"); return &edup; }
GString *li_environment_dup_pop(liEnvironmentDup *d, const gchar *k, size_t l) { VP_CALLPRE(d == &edup && l == 4 && k[0] == 'S', "SCGI"); popped++; return conf ? &cval : NULL; }
void li_environment_dup2cgi(liVRequest *v, liEnvironmentDup *d, liAddEnvironmentCB cb, gpointer p) { VP_CALLPRE(v == &vr && d == &edup && popped && !npairs, "variables of the request, once"); npairs++; cb(p, kb, kl, vb, vl); }
void h_env(void) {
	kl = nondet_size(); vl = nondet_size(); __CPROVER_assume(kl < 100000 && vl < 100000); conf = nondet_bool(); cval.str = cvb; cval.len = nondet_size(); __CPROVER_assume(cval.len < 100000);
	tmp.str = tmpb; tmp.len = 3; wrk.tmp_str = &tmp; vr.wrk = &wrk; vr.request.content_length = nondet_long(); __CPROVER_assume(vr.request.content_length >= 0);
	scgi_send_env(&vr, &oq); VP_REACH("returns"); if (conf) VP_REACH("configured SCGI");
	VP_ENSURES(npairs == 1 && nparts == 9 && part[0] == P_K && part[1] == P_Z && part[2] == P_V && part[3] == P_Z, "name NUL value NUL");
	VP_ENSURES(part[4] == P_SCGI && part[5] == P_Z && part[6] == (conf ? P_CV : P_ONE) && part[7] == P_Z, "SCGI variable");
	VP_ENSURES(printed == total && arr.len == total + 1, "the length covers the variables, a comma follows");
	VP_ENSURES(headsent == 1 && queued == 1, "one netstring");
}
