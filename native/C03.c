/* C03 executable contract: random histories over chunkqueues against a byte-string model */
#include "vn.h"
#include <lighttpd/base.h>
#include <fcntl.h>
#define NQ 4
typedef struct { liChunkQueue *cq; GString *m; goffset in, out; } Q;
static Q q[NQ]; static liCQLimit *lim[2]; static int limof[NQ]; /* -1 none */
static GString *hist;
static gboolean notified[2]; 
static void notify_cb(gpointer ctx, gboolean locked) { notified[GPOINTER_TO_INT(ctx)] = locked; }
static char fname[300]; static int ffd; static char fcontent[70000];
static goffset chunk_mem(liChunk *c) { return c->type == STRING_CHUNK ? c->data.str->len : c->type == MEM_CHUNK ? c->mem->len : c->type == BUFFER_CHUNK ? c->data.buffer.length : 0; }
static void setcase(void) { size_t o = hist->len > 3000 ? hist->len - 3000 : 0; vn_setcase("history (last ops): %s", hist->str + o); }
#define F(...) do { setcase(); vn_fail(__VA_ARGS__); } while (0)
static void check(int full) {
	int i, j; goffset cur[2] = { 0, 0 };
	for (i = 0; i < NQ; i++) {
		goffset len = 0, mem = 0; GList *l; guint n = 0;
		for (l = q[i].cq->queue.head; l; l = l->next) { liChunk *c = l->data; goffset x = li_chunk_length(c); if (x < 0) F("negative chunk length"); len += x; mem += chunk_mem(c); n++; if (l->next && l->next->prev != l) F("broken queue links"); if (!l->next && q[i].cq->queue.tail != l) F("broken queue tail"); }
		if (n != q[i].cq->queue.length) F("queue %d counts %u chunks, has %u", i, q[i].cq->queue.length, n);
		if (q[i].cq->length != len) F("queue %d length %ld, chunks sum up to %ld", i, (long) q[i].cq->length, (long) len);
		if (len != (goffset) q[i].m->len) F("queue %d holds %ld bytes, expected %ld", i, (long) len, (long) q[i].m->len);
		if (q[i].cq->mem_usage != mem) F("queue %d mem_usage %ld, chunks use %ld", i, (long) q[i].cq->mem_usage, (long) mem);
		if (q[i].cq->bytes_in != q[i].in || q[i].cq->bytes_out != q[i].out) F("queue %d bytes_in/out %ld/%ld expected %ld/%ld", i, (long) q[i].cq->bytes_in, (long) q[i].cq->bytes_out, (long) q[i].in, (long) q[i].out);
		if (limof[i] >= 0) cur[limof[i]] += mem;
		if (full) {
			GString *d = g_string_new("junk"); GError *err = NULL; static char buf[1 << 20];
			if (!li_chunkqueue_extract_to(q[i].cq, len, d, &err)) F("extract failed %s", err ? err->message : "");
			if (d->len != q[i].m->len || memcmp(d->str, q[i].m->str, d->len)) F("queue %d content differs", i);
			if (len) { goffset k = vn_r(len + 1); 
				if (!li_chunkqueue_extract_to(q[i].cq, k, d, NULL) || d->len != (gsize) k || memcmp(d->str, q[i].m->str, k)) F("queue %d: extract of %ld bytes differs", i, (long) k);
				if (len <= (goffset) sizeof(buf)) { memset(buf, 0x55, len); if (!li_chunkqueue_extract_to_memory(q[i].cq, k, buf, NULL) || memcmp(buf, q[i].m->str, k) || (k < len && buf[k] != 0x55)) F("extract to memory"); } 
				GByteArray *ba = g_byte_array_new(); if (!li_chunkqueue_extract_to_bytearr(q[i].cq, k, ba, NULL) || ba->len != k || (k && memcmp(ba->data, q[i].m->str, k))) F("extract to bytearr"); g_byte_array_free(ba, TRUE); }
			if (li_chunkqueue_extract_to(q[i].cq, len + 1, d, NULL)) F("extracted more than available");
			g_string_free(d, TRUE);
			{ /* same bytes by iterating with mmap reads of odd sizes */
				liChunkIter it = li_chunkqueue_iter(q[i].cq); gsize pos = 0;
				for (; it.element; li_chunkiter_next(&it)) { goffset o = 0, cl = li_chunkiter_length(it);
					while (o < cl) { char *p; off_t n2, want = 1 + vn_r(vn_r(4) ? 9000 : 200); GError *e2 = NULL;
						if (LI_HANDLER_GO_ON != (vn_r(2) ? li_chunkiter_read_mmap : li_chunkiter_read)(it, o, want, &p, &n2, &e2)) F("read failed");
						if (n2 <= 0 || n2 > want || o + n2 > cl) F("read returned %ld bytes of %ld wanted", (long) n2, (long) want);
						if (memcmp(p, q[i].m->str + pos, n2)) F("queue %d: read at %ld differs", i, (long) pos);
						pos += n2; o += n2; } }
			}
			{ liChunkParserCtx ctx; char *p = NULL, *pe = NULL; gsize pos = 0; li_chunk_parser_init(&ctx, q[i].cq); li_chunk_parser_prepare(&ctx);
				while (LI_HANDLER_GO_ON == li_chunk_parser_next(&ctx, &p, &pe, NULL)) { goffset n2 = 1 + vn_r(pe - p); if (n2 > pe - p) n2 = pe - p;
					if (pe <= p || pos + (pe - p) > q[i].m->len || memcmp(p, q[i].m->str + pos, pe - p)) F("parser sees other bytes"); pos += n2; li_chunk_parser_done(&ctx, n2); if (vn_r(50) == 0 && 0) break; }
				if (pos != q[i].m->len || ctx.bytes_in != (goffset) pos) F("parser saw %ld of %ld bytes", (long) pos, (long) q[i].m->len); }
		}
	}
	for (j = 0; j < 2; j++) {
		gboolean lk = lim[j]->limit > 0 && lim[j]->current >= lim[j]->limit;
		if (lim[j]->current != cur[j]) F("limit %d counts %ld bytes, its queues use %ld", j, (long) lim[j]->current, (long) cur[j]);
		if (!!lim[j]->locked != lk) F("limit %d locked=%d at %ld of %ld", j, lim[j]->locked, (long) lim[j]->current, (long) lim[j]->limit);
		if (!!notified[j] != lk) F("limit %d: last notification says locked=%d, at %ld of %ld", j, notified[j], (long) lim[j]->current, (long) lim[j]->limit);
	}
	for (i = 0; i < NQ; i++) { goffset av = li_chunkqueue_limit_available(q[i].cq), ex; liCQLimit *l = q[i].cq->limit; ex = !l || l->limit <= 0 ? -1 : l->current >= l->limit ? 0 : l->limit - l->current; if (av != ex) F("limit available %ld expected %ld", (long) av, (long) ex); }
}
static void fillrand(char *b, gsize n) { gsize i; for (i = 0; i < n; i++) b[i] = vn_rand() >> 11; }
static void app(int i, const char *d, gsize n) { g_string_append_len(q[i].m, d, n); q[i].in += n; }
static void op(void) {
	int i = vn_r(NQ), j = vn_r(NQ); gsize n = vn_r(vn_r(6) ? 40 : 5000), k; static char b[8192]; goffset r, w;
	vn_evals++;
	if (vn_r(12) == 0) n = 0;
	if (q[i].m->len > 200000) { li_chunkqueue_skip_all(q[i].cq); q[i].out += q[i].m->len; g_string_truncate(q[i].m, 0); g_string_append_printf(hist, "skipall(%d) ", i); return; }
	switch (vn_r(20)) {
	case 0: fillrand(b, n); g_string_append_printf(hist, "string(%d,%u) ", i, (unsigned) n); li_chunkqueue_append_string(q[i].cq, g_string_new_len(b, n)); app(i, b, n); break;
	case 1: { GByteArray *a = g_byte_array_new(); fillrand(b, n); g_byte_array_append(a, (guint8*) b, n); g_string_append_printf(hist, "bytearr(%d,%u) ", i, (unsigned) n); li_chunkqueue_append_bytearr(q[i].cq, a); app(i, b, n); break; }
	case 2: { liBuffer *x = vn_r(2) ? li_buffer_new(n + vn_r(100)) : li_buffer_new_slice(n + 1 + vn_r(100)); fillrand(b, n); memcpy(x->addr, b, n); x->used = n; g_string_append_printf(hist, "buffer(%d,%u) ", i, (unsigned) n); li_chunkqueue_append_buffer(q[i].cq, x); app(i, b, n); break; }
	case 3: { liBuffer *x = li_buffer_new_slice(n + 1); gsize o; fillrand(b, n); memcpy(x->addr, b, n); x->used = n; o = vn_r(n + 1); k = vn_r(n - o + 1); if (vn_r(3) == 0) k = n - o; g_string_append_printf(hist, "buffer2(%d,%u,%u) ", i, (unsigned) o, (unsigned) k);
		if (vn_r(2)) { li_buffer_acquire(x); li_chunkqueue_append_buffer2(q[j].cq, x, 0, n); app(j, b, n); }
		li_chunkqueue_append_buffer2(q[i].cq, x, o, k); app(i, b + o, k); break; }
	case 4: fillrand(b, n); g_string_append_printf(hist, "mem(%d,%u) ", i, (unsigned) n); li_chunkqueue_append_mem(q[i].cq, b, n); app(i, b, n); break;
	case 5: case 6: { gsize o = vn_r(sizeof(fcontent)); n = vn_r(sizeof(fcontent) - o + 1); if (vn_r(2)) n = MIN(n, 3000); g_string_append_printf(hist, "file(%d,%u,%u) ", i, (unsigned) o, (unsigned) n);
		switch (vn_r(3)) {
		case 0: { GString *s = g_string_new(fname); li_chunkqueue_append_file(q[i].cq, s, o, n); g_string_free(s, TRUE); break; }
		case 1: { GString *s = g_string_new(fname); li_chunkqueue_append_file_fd(q[i].cq, s, o, n, dup(ffd)); g_string_free(s, TRUE); break; }
		default: { GString *s = g_string_new(fname); liChunkFile *cf = li_chunkfile_new(s, dup(ffd), FALSE); li_chunkqueue_append_chunkfile(q[i].cq, cf, o, n); if (cf->refcount != (n ? 2 : 1)) F("chunkfile refcount"); li_chunkfile_release(cf); g_string_free(s, TRUE); }
		}
		app(i, fcontent + o, n); break; }
	case 7: case 8: case 9:
		if (i == j) break;
		w = vn_r(q[i].m->len + 10); if (vn_r(4) == 0) w = vn_r(30);
		g_string_append_printf(hist, "steal_len(%d<-%d,%ld) ", j, i, (long) w);
		r = li_chunkqueue_steal_len(q[j].cq, q[i].cq, w);
		if (r != MIN(w, (goffset) q[i].m->len)) F("steal_len moved %ld, expected %ld", (long) r, (long) MIN(w, (goffset) q[i].m->len));
		app(j, q[i].m->str, r); q[i].out += r; g_string_erase(q[i].m, 0, r); vn_nontriv++; break;
	case 10:
		if (i == j) break;
		g_string_append_printf(hist, "steal_all(%d<-%d) ", j, i);
		r = li_chunkqueue_steal_all(q[j].cq, q[i].cq);
		if (r != (goffset) q[i].m->len) F("steal_all moved %ld", (long) r);
		app(j, q[i].m->str, r); q[i].out += r; g_string_erase(q[i].m, 0, r); vn_nontriv++; break;
	case 11: { liChunk *c;
		if (i == j) break;
		c = li_chunkqueue_first_chunk(q[i].cq); w = li_chunk_length(c);
		g_string_append_printf(hist, "steal_chunk(%d<-%d) ", j, i);
		r = li_chunkqueue_steal_chunk(q[j].cq, q[i].cq);
		if (r != w) F("steal_chunk moved %ld", (long) r);
		app(j, q[i].m->str, r); q[i].out += r; g_string_erase(q[i].m, 0, r); vn_nontriv++; break; }
	case 12: case 13: case 14:
		w = vn_r(q[i].m->len + 10); if (vn_r(4) == 0) w = vn_r(30);
		g_string_append_printf(hist, "skip(%d,%ld) ", i, (long) w);
		r = li_chunkqueue_skip(q[i].cq, w);
		if (r != MIN(w, (goffset) q[i].m->len)) F("skip skipped %ld", (long) r);
		q[i].out += r; g_string_erase(q[i].m, 0, r); break;
	case 15:
		if (vn_r(3)) break;
		if (vn_r(2)) { g_string_append_printf(hist, "skip_all(%d) ", i); r = li_chunkqueue_skip_all(q[i].cq); if (r != (goffset) q[i].m->len) F("skip_all %ld", (long) r); q[i].out += r; }
		else { g_string_append_printf(hist, "reset(%d) ", i); q[i].cq->is_closed = vn_r(2); li_chunkqueue_reset(q[i].cq); q[i].in = q[i].out = 0; if (q[i].cq->is_closed) F("reset keeps closed"); }
		g_string_truncate(q[i].m, 0); break;
	case 16: { liBuffer *x; guint sp = vn_r(60);
		x = li_chunkqueue_get_last_buffer(q[i].cq, sp);
		if (x) { n = vn_r(sp + 1); fillrand(b, n); if (x->alloc_size - x->used < sp || x->refcount != 1) F("last buffer without space"); memcpy(x->addr + x->used, b, n); g_string_append_printf(hist, "extend(%d,%u) ", i, (unsigned) n); li_chunkqueue_update_last_buffer_size(q[i].cq, n); app(i, b, n); vn_nontriv++; }
		break; }
	case 17: k = vn_r(2); w = vn_r(5) ? vn_r(8000) : (goffset) vn_r(3) - 1; g_string_append_printf(hist, "limit(%u,%ld) ", (unsigned) k, (long) w); li_cqlimit_set_limit(lim[k], w); break;
	case 18: { int nl = (int) vn_r(3) - 1; g_string_append_printf(hist, "set_limit(%d,%d) ", i, nl); li_chunkqueue_set_limit(q[i].cq, nl < 0 ? NULL : lim[nl]); limof[i] = nl; break; }
	case 19: if (vn_r(20)) break; g_string_append_printf(hist, "free(%d) ", i); li_chunkqueue_free(q[i].cq); q[i].cq = li_chunkqueue_new(); g_string_truncate(q[i].m, 0); q[i].in = q[i].out = 0; limof[i] = -1; break;
	}
}
int main(int argc, char **argv) {
	int i, k; long round = 0;
	vn_init(argc, argv);
	snprintf(fname, sizeof fname, "%s/C03.file", getenv("VP_SCRATCH") ? getenv("VP_SCRATCH") : "."); fillrand(fcontent, sizeof fcontent);
	ffd = open(fname, O_RDWR | O_CREAT | O_TRUNC, 0600); if (ffd < 0 || write(ffd, fcontent, sizeof fcontent) != (ssize_t) sizeof fcontent) return 3;
	hist = g_string_new("");
	for (i = 0; i < NQ; i++) { q[i].cq = li_chunkqueue_new(); q[i].m = g_string_new(""); limof[i] = -1; }
	for (i = 0; i < 2; i++) { lim[i] = li_cqlimit_new(); lim[i]->notify = notify_cb; lim[i]->context = GINT_TO_POINTER(i); }
	while (vn_more(1.0)) {
		g_string_append(hist, "; ");
		for (k = 0; k < 8; k++) { setcase(); op(); check(0); }
		setcase(); check(1);
		if (hist->len > 8000) g_string_erase(hist, 0, 4000);
		if (round++ < 3) vn_sample("%s", hist->str);
		if (round % 50 == 0) { /* fresh start: everything released */
			for (i = 0; i < NQ; i++) { li_chunkqueue_free(q[i].cq); g_string_truncate(q[i].m, 0); }
			for (i = 0; i < 2; i++) { if (lim[i]->current != 0) F("limit %d still counts %ld bytes after all its queues are gone", i, (long) lim[i]->current); if (lim[i]->refcount != 1) F("limit refcount %d", lim[i]->refcount); }
			for (i = 0; i < NQ; i++) { q[i].cq = li_chunkqueue_new(); q[i].in = q[i].out = 0; limof[i] = -1; if (vn_r(2)) { limof[i] = vn_r(2); li_chunkqueue_set_limit(q[i].cq, lim[limof[i]]); } }
			g_string_assign(hist, "");
		}
	}
	unlink(fname);
	return vn_done("random operation sequences over 4 queues and 2 shared limits compared with a byte-string model after every operation; non-trivial: moves between queues / buffer extension");
}
