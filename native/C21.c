/* executable contract of C21: token buckets of several workers, whose clocks differ slightly, against the configured limits */
#include <lighttpd/base.h>
#include <lighttpd/throttle.h>
#include "vn.h"
static double clk[4], glob; static GString *hist;
#define li_cur_ts(w) clk[(w)->ndx]
#define li_event_time() glob
#define li_waitqueue_push(q, e) ((e)->queued = TRUE)
#define li_waitqueue_remove(q, e) ((e)->queued = FALSE)
#define li_server_register_prepare_cb(s, cb, d) cb(s, d, FALSE)
#include "src/main/throttle.c"
#define F(...) do { vn_setcase("%s", hist->str); vn_fail(__VA_ARGS__); } while (0)
#define H(...) do { if (hist->len < 7000) g_string_append_printf(hist, __VA_ARGS__); vn_setcase("%s", hist->str); } while (0)
#define NC 12
static liWorker wrk[4]; static liServer srv; static liThrottleState *st[NC]; static int wof[NC], inp[NC], alive[NC]; static guint rate[NC], burst[NC]; static double lvl[NC], lts[NC], t0[NC], used[NC], total[NC], pu[2], pn[2], pt0; static guint prate[2], pburst[2]; static liThrottlePool *pool[2]; static int W, np;
static double maxclk(void) { double m = 0; int i; for (i = 0; i < W; i++) if (clk[i] > m) m = clk[i]; return m > glob ? m : glob; }
static void cb(liThrottleState *s, gpointer d) { (void) s; (void) d; }
static guint use(int c, guint want, int all) {
	guint g = li_throttle_query(&wrk[wof[c]], st[c], want, cb, &st[c]), u; int p;
	if (g > want) F("connection %d asked for %u, got %u", c, want, g);
	if (g > 64 * 1024) F("got %u at once", g);
	u = all ? g : vn_r(4) ? g : vn_r(g + 1); if (u) li_throttle_update(st[c], u);
	H("w%d c%d +%u/%u @%.3f; ", wof[c], c, u, want, clk[wof[c]] - pt0);
	used[c] += u; total[c] += u; for (p = 0; p < np; p++) if (inp[c] & 1 << p) pu[p] += u;
	if (rate[c] && used[c] > burst[c] + rate[c] * (clk[wof[c]] - t0[c] + 0.002) + 8192) F("connection %d was allowed %.0f bytes within %.3f s: rate %u, burst %u", c, used[c], clk[wof[c]] - t0[c], rate[c], burst[c]);
	if (rate[c]) { /* the same for every period: a bucket that never holds more than the burst (and what the connection took out in advance) */
		double now = clk[wof[c]], cap = burst[c] + 65536 + rate[c] * 0.203; /* credit of up to 200 ms is added late */ lvl[c] += rate[c] * (now - lts[c]); if (lvl[c] > cap) lvl[c] = cap; lts[c] = now; lvl[c] -= u;
		if (lvl[c] < -8192) F("connection %d was allowed %.0f bytes too many within a short time: rate %u, burst %u", c, -8192 - lvl[c], rate[c], burst[c]);
	}
	for (p = 0; p < np; p++) if (pu[p] > pburst[p] + prate[p] * (maxclk() - pt0 + 0.002) + 8192 * pn[p]) F("the %.0f connections of a pool were allowed %.0f bytes within %.3f s: rate %u, burst %u", pn[p], pu[p], maxclk() - pt0, prate[p], pburst[p]);
	return u;
}
static void tick(int w, double skew) { double n = glob - skew; if (n > clk[w]) clk[w] = n; }
int main(int argc, char **argv) {
	hist = g_string_new(""); vn_init(argc, argv);
	while (vn_more(1.0)) {
		int i, k, n = 1 + vn_r(NC), steps = 20 + vn_r(300); W = 1 + vn_r(4); np = vn_r(3); g_string_truncate(hist, 0); vn_evals++;
		glob = vn_r(4) ? 1.79e9 + vn_r(1000000) * 0.001 : 4294967.296 * 416 - vn_r(3000) * 0.001; pt0 = glob; srv.worker_count = W;
		for (i = 0; i < W; i++) { wrk[i].ndx = i; wrk[i].srv = &srv; clk[i] = glob - vn_r(20) * 0.001; }
		for (i = 0; i < np; i++) { prate[i] = 8192 + vn_r(vn_r(2) ? 100000 : 10000000); pburst[i] = vn_r(2) ? prate[i] : prate[i] / 5 + 1 + vn_r(prate[i]); pool[i] = li_throttle_pool_new(&srv, prate[i], pburst[i]); pu[i] = pn[i] = 0; H("pool rate %u burst %u; ", prate[i], pburst[i]); }
		for (i = 0; i < n; i++) {
			st[i] = li_throttle_new(); wof[i] = vn_r(W); used[i] = total[i] = 0; inp[i] = 0; rate[i] = 0; alive[i] = 1;
			for (k = 0; k < np; k++) if (vn_r(4)) { if (!li_throttle_add_pool(&wrk[wof[i]], st[i], pool[k])) F("pool not added"); if (li_throttle_add_pool(&wrk[wof[i]], st[i], pool[k])) F("pool added twice"); inp[i] |= 1 << k; pn[k]++; }
			if (vn_r(2)) { rate[i] = 8192 + vn_r(vn_r(2) ? 100000 : 10000000); burst[i] = vn_r(2) ? 2 * rate[i] : rate[i] / 5 + 1 + vn_r(rate[i]); li_throttle_set(&wrk[wof[i]], st[i], rate[i], burst[i]); t0[i] = lts[i] = clk[wof[i]]; lvl[i] = burst[i] + rate[i] * 0.002; H("c%d rate %u burst %u; ", i, rate[i], burst[i]); }
		}
		while (steps--) {
			int c = vn_r(n); if (vn_r(3) == 0) glob += vn_r(10) ? vn_r(60) * 0.001 : vn_r(3000) * 0.001;
			if (!alive[c]) continue;
			if (vn_r(3)) tick(wof[c], vn_r(12) * 0.001);
			if (vn_r(60) == 0) { li_throttle_free(&wrk[wof[c]], st[c]); alive[c] = 0; H("c%d gone; ", c); continue; }
			if (vn_r(60) == 0 && np) { k = vn_r(np); li_throttle_remove_pool(&wrk[wof[c]], st[c], pool[k]); inp[c] &= ~(1 << k); H("c%d leaves pool %d; ", c, k); }
			use(c, vn_r(3) ? 65536 : vn_r(300000), 0); if (np && rate[c]) vn_nontriv++;
		}
		/* nobody starves */
		for (i = 0; i < n; i++) total[i] = 0;
		for (k = 0; k < 80; k++) { glob += 0.5; for (i = 0; i < W; i++) tick(i, 0); for (i = 0; i < n; i++) if (alive[i]) use(i, 65536, 1); }
		for (i = 0; i < n; i++) if (alive[i] && total[i] < 8192) F("connection %d got only %.0f bytes within 40 s", i, total[i]);
		for (i = 0; i < np; i++) { GList *l; int w; for (w = 0; w < W; w++) { int c = 0; for (l = pool[i]->workers[w].waiting.head; l; l = l->next) c++; if (c != (int) pool[i]->workers[w].connections) F("%u connections counted, %d wait", pool[i]->workers[w].connections, c); } }
		vn_sample("%.500s", hist->str);
		for (i = 0; i < n; i++) if (alive[i]) li_throttle_free(&wrk[wof[i]], st[i]);
		for (i = 0; i < np; i++) { if (pool[i]->refcount != 1) F("%d references left to a pool", pool[i]->refcount); li_throttle_pool_release(pool[i], &srv); }
	}
	return vn_done("queries of connections limited by a pool and a rate of their own");
}
