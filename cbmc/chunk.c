/* C03: chunkqueue accounting and order; real text of src/main/chunk.c, glib queue/alloc modelled.
 * The queue a function consumes from is represented by its head chunk (li_cq_head, contents arbitrary) and the
 * ghost sums over all its chunks; consuming the head makes the next chunk arbitrary again. So every loop is proved
 * for queues of any length. */
#define _LIGHTTPD_BASE_H_GUARD
#include <lighttpd/base.h>
#include "vp.h"
#include "vp_spec.h"
size_t li_vk, li_vk2; unsigned char li_vb, li_vb2;
li_ghost_t li_g;

struct { goffset want, in_len0, in_mem0, out_len0, out_mem0; } li_cq0; /* entry values */
struct {
	goffset taken, taken_mem; guint64 in_count;    /* bytes / -memory taken from the source queue; chunks left */
	gboolean attached;        /* li_cq_head is the current first chunk */
	gboolean popped;          /* head was popped and not pushed anywhere yet */
	goffset hlen, hoff, hmem; /* snapshot of the head when it became first */
	int htype;
} li_cq;
struct {
	goffset added, added_mem; /* appended to the destination */
	gboolean newpending;      /* li_cq_new allocated, not yet in a queue */
	guint64 pushes;
} li_cqo;
liChunk li_cq_head, li_cq_new;
GString li_cq_hs; GByteArray li_cq_hm, li_cq_nm; liBuffer li_cq_hb; liChunkFile li_cq_hf;
const void *li_cq_nm_src; goffset li_cq_nm_len;
char vp_sdata[1], vp_mdata[1], vp_bdata[1], vp_ndata[1];
liChunkQueue vp_in, vp_out; liCQLimit vp_lim, vp_lim2;
#ifdef VP_BOUNDED
#define MAXL ((goffset)VP_MAXL)
#else
#define MAXL ((goffset)1 << 40)
#endif

#define CH_LEN(c) ((c).type == STRING_CHUNK ? (goffset)((c).data.str->len) - (c).offset : (c).type == MEM_CHUNK ? (goffset)((c).mem->len) - (c).offset : \
  (c).type == FILE_CHUNK ? (c).data.file.length - (c).offset : (c).type == BUFFER_CHUNK ? (goffset)((c).data.buffer.length) - (c).offset : 0)
#define CH_MEM(c) ((c).type == STRING_CHUNK ? (goffset)((c).data.str->len) : (c).type == MEM_CHUNK ? (goffset)((c).mem->len) : \
  (c).type == BUFFER_CHUNK ? (goffset)((c).data.buffer.length) : 0)
#define LIH li_cq_head
#define H_LEN (LIH.type == STRING_CHUNK ? (goffset)(li_cq_hs.len) - LIH.offset : LIH.type == MEM_CHUNK ? (goffset)(li_cq_hm.len) - LIH.offset : \
  LIH.type == FILE_CHUNK ? LIH.data.file.length - LIH.offset : LIH.type == BUFFER_CHUNK ? (goffset)(LIH.data.buffer.length) - LIH.offset : 0)
#define H_MEM (LIH.type == STRING_CHUNK ? (goffset)(li_cq_hs.len) : LIH.type == MEM_CHUNK ? (goffset)(li_cq_hm.len) : \
  LIH.type == BUFFER_CHUNK ? (goffset)(LIH.data.buffer.length) : 0)
/* well-formed first chunk */
#define LI_CQ_HEAD_WF (LIH.cq_link.data == &LIH && LIH.offset >= 0 && LIH.offset <= MAXL && \
  (LIH.type == UNUSED_CHUNK || LIH.type == STRING_CHUNK || LIH.type == MEM_CHUNK || LIH.type == FILE_CHUNK || LIH.type == BUFFER_CHUNK) && \
  (LIH.type != STRING_CHUNK || (LIH.data.str == &li_cq_hs && li_cq_hs.str == vp_sdata && li_cq_hs.len < ((gsize)1 << 31))) && \
  (LIH.type != MEM_CHUNK || (LIH.mem == &li_cq_hm && li_cq_hm.data == (guint8*)vp_mdata)) && \
  (LIH.type == MEM_CHUNK || LIH.mem == NULL) && \
  (LIH.type != FILE_CHUNK || (LIH.data.file.file == &li_cq_hf && LIH.data.file.length >= 0 && LIH.data.file.length <= MAXL && LIH.data.file.start >= 0 && LIH.data.file.start <= MAXL && LIH.data.file.mmap.data == MAP_FAILED && li_cq_hf.refcount > 0 && li_cq_hf.refcount < 2000000)) && \
  (LIH.type != BUFFER_CHUNK || (LIH.data.buffer.buffer == &li_cq_hb && li_cq_hb.addr == vp_bdata && li_cq_hb.refcount > 0 && li_cq_hb.refcount < 2000000 && LIH.data.buffer.length <= MAXL && LIH.data.buffer.offset <= MAXL && LIH.data.buffer.length + LIH.data.buffer.offset <= li_cq_hb.used)) && \
  H_LEN >= 0)
#define IN_LEN (li_cq0.in_len0 - li_cq.taken)   /* sums over the chunks left in the source */
#define IN_MEM (li_cq0.in_mem0 + li_cq.taken_mem)
#define OUT_LEN (li_cq0.out_len0 + li_cqo.added)
#define OUT_MEM (li_cq0.out_mem0 + li_cqo.added_mem)
#define LI_CQ_SUMS_OK (!li_cq.popped && !li_cqo.newpending && li_cq.taken >= 0 && li_cq.taken <= li_cq0.in_len0 && li_cq.taken_mem <= 0 && li_cq.taken_mem >= - li_cq0.in_mem0 && li_cq.in_count <= ((guint64)1 << 40) && \
  (li_cq.in_count != 0 || (li_cq.taken == li_cq0.in_len0 && IN_MEM == 0)))
/* what is known about the first chunk when it becomes first */
#define HEAD_NEW_OK (LI_CQ_HEAD_WF && li_cq.in_count > 0 && H_LEN <= IN_LEN && H_MEM <= IN_MEM && (li_cq.in_count > 1 || (H_LEN == IN_LEN && H_MEM == IN_MEM)))
/* a first chunk that was already looked at: only after a part of it was taken */
#define LI_CQ_HEAD_OK (LI_CQ_SUMS_OK && (!li_cq.attached || (LI_CQ_HEAD_WF && li_cq.in_count > 0 && LIH.offset >= li_cq.hoff && H_LEN > 0)))
#define LI_CQ_TAKEN (li_cq.attached ? li_cq.taken + (LIH.offset - li_cq.hoff) : li_cq.taken)
#define LI_CQ_REF_OK (!li_cq.attached || ((LIH.type != FILE_CHUNK || li_cq_hf.refcount < 1000000) && (LIH.type != BUFFER_CHUNK || li_cq_hb.refcount < 1000000)))
#define LI_CQ_MAXMEM (4 * MAXL)
#define LI_CQ_STATE li_cq, li_cq_head, li_cq_hs, li_cq_hm, li_cq_hb, li_cq_hf
#define LI_CQ_OUT_STATE li_cqo, li_cq_new, li_cq_nm, li_cq_nm_src, li_cq_nm_len
#define LI_CQ_LIMIT_STATE vp_lim.current, vp_lim.locked
#define LI_LOCK_OK(cql) ((cql).current >= 0 && (!!(cql).locked == ((cql).limit > 0 && (cql).current >= (cql).limit)))
#define LI_CQ_LIMIT_OK(cq) ((cq)->mem_usage >= 0 && ((cq)->limit != &vp_lim || ((cq)->mem_usage + vp_other == vp_lim.current && LI_LOCK_OK(vp_lim))))
gboolean vp_notified;
static void vp_notify(gpointer ctx, gboolean locked) { __CPROVER_assert(ctx == &vp_lim ? !!vp_lim.locked == !!locked : !!vp_lim2.locked == !!locked, "notify reports the lock state"); }
goffset vp_other, vp_other2; /* usage of other queues sharing the limit */
/* no function pointer to the callback: g_queue_foreach(q, f, d) calls the model for that callback */
static void vp_foreach___chunk_free(GQueue *q, gpointer d);
#define g_queue_foreach(q, f, d) vp_foreach_##f(q, d)
#undef g_string_free
#define g_string_free(s, x) vp_string_free(s)
static void vp_string_free(GString *s) { }
#include "vp_force.h"
#include "src/main/chunk.c"

/* ---- assumed contracts: glib, events, buffers ---- */
void __atomic_thread_fence(int x) { }
void li_fatal(const char *f, unsigned int l, const char *fn, const gchar *msg) { __CPROVER_assert(0, "LI_FORCE_ASSERT can not fail"); __CPROVER_assume(0); }
static void settle(void) { /* account for bytes the code took from the head by advancing its offset */
	if (li_cq.attached) { li_cq.taken += LIH.offset - li_cq.hoff; li_cq.hlen = H_LEN; li_cq.hoff = LIH.offset; }
}
/* sets the pointers to the value the invariant says they have */
static void relink(void) {
	LIH.cq_link.data = &LIH;
	LIH.mem = LIH.type == MEM_CHUNK ? &li_cq_hm : NULL;
	if (LIH.type == STRING_CHUNK) LIH.data.str = &li_cq_hs;
	if (LIH.type == FILE_CHUNK) { LIH.data.file.file = &li_cq_hf; LIH.data.file.mmap.data = MAP_FAILED; }
	if (LIH.type == BUFFER_CHUNK) LIH.data.buffer.buffer = &li_cq_hb;
	li_cq_hs.str = vp_sdata; li_cq_hm.data = (guint8*) vp_mdata; li_cq_hb.addr = vp_bdata;
}
static liChunk *first(void) {
	liChunk any; GString s; GByteArray m; liBuffer b; liChunkFile f;
	settle();
	if (li_cq.attached) { relink(); return &LIH; }
	if (0 == li_cq.in_count) return NULL;
	li_cq_hs = s; li_cq_hm = m; li_cq_hb = b; li_cq_hf = f;
	LIH = any; LIH.cq_link.data = &LIH;
	relink();
	li_cq.attached = TRUE; li_cq.hlen = H_LEN; li_cq.hoff = LIH.offset; li_cq.hmem = H_MEM; li_cq.htype = LIH.type;
	__CPROVER_assume(HEAD_NEW_OK && LI_CQ_REF_OK);
	return &LIH;
}
static void detach(void) {
	VP_CALLPRE(li_cq.attached, "only the first chunk is taken");
	VP_CALLPRE(li_cq.in_count > 0, "queue not empty");
	settle();
	li_cq.taken += H_LEN; li_cq.taken_mem -= H_MEM; li_cq.in_count--;
	li_cq.attached = FALSE;
}
gpointer g_queue_peek_head(GQueue *q) { VP_CALLPRE(q == &vp_in.queue, "reads the source queue"); return first(); }
GList *g_queue_peek_head_link(GQueue *q) { VP_CALLPRE(q == &vp_in.queue, "reads the source queue"); liChunk *c = first(); return c ? &c->cq_link : NULL; }
void g_queue_init(GQueue *q) { VP_CALLPRE(q != &vp_in.queue || li_cq.in_count == 0, "queue is only cleared when empty"); }
GList *g_queue_pop_head_link(GQueue *q) {
	VP_CALLPRE(q == &vp_in.queue, "pops from the source queue");
	if (!first()) return NULL;
	detach(); li_cq.popped = TRUE;
	return &LIH.cq_link;
}
void g_queue_unlink(GQueue *q, GList *l) { VP_CALLPRE(q == &vp_in.queue && l == &LIH.cq_link, "unlinks the first chunk"); detach(); }
void g_queue_push_tail_link(GQueue *q, GList *l) {
	VP_CALLPRE(q == &vp_out.queue, "appends to the destination");
	li_cqo.pushes++;
	if (l == &LIH.cq_link) { /* whole chunk moved, contents untouched */
		VP_CALLPRE(li_cq.popped, "chunk is in one queue only");
		VP_CALLPRE(H_LEN == li_cq.hlen && LIH.offset == li_cq.hoff && (int)LIH.type == li_cq.htype && H_MEM == li_cq.hmem, "moved chunk is unchanged");
		li_cq.popped = FALSE;
		li_cqo.added += li_cq.hlen; li_cqo.added_mem += li_cq.hmem;
	} else {
		VP_CALLPRE(l == &li_cq_new.cq_link && li_cqo.newpending && l->data == &li_cq_new, "pushes a new chunk");
		li_cqo.newpending = FALSE;
		goffset len = CH_LEN(li_cq_new);
		VP_CALLPRE(len > 0 && li_cq_new.offset == 0, "new chunk is not empty");
		if (li_cq.attached) { /* split of the first chunk: the new one must hold exactly its first len bytes */
			VP_CALLPRE(len <= li_cq.hlen && LIH.offset == li_cq.hoff + len, "split removes what it copies");
			switch (LIH.type) {
			case STRING_CHUNK: VP_CALLPRE(li_cq_new.type == MEM_CHUNK && li_cq_nm_src == vp_sdata + li_cq.hoff && li_cq_nm_len == len && li_cq_nm.len == len, "split copies the first bytes"); break;
			case MEM_CHUNK: VP_CALLPRE(li_cq_new.type == MEM_CHUNK && li_cq_nm_src == vp_mdata + li_cq.hoff && li_cq_nm_len == len && li_cq_nm.len == len, "split copies the first bytes"); break;
			case FILE_CHUNK: VP_CALLPRE(li_cq_new.type == FILE_CHUNK && li_cq_new.data.file.file == LIH.data.file.file && li_cq_new.data.file.start == LIH.data.file.start + li_cq.hoff && li_cq_new.mem == NULL && li_cq_new.data.file.mmap.data == MAP_FAILED, "split refers to the same file range"); break;
			case BUFFER_CHUNK: VP_CALLPRE(li_cq_new.type == BUFFER_CHUNK && li_cq_new.data.buffer.buffer == LIH.data.buffer.buffer && li_cq_new.data.buffer.offset == LIH.data.buffer.offset + li_cq.hoff, "split refers to the same buffer range"); break;
			default: VP_CALLPRE(0, "split of an empty chunk");
			}
		}
		li_cqo.added += len; li_cqo.added_mem += CH_MEM(li_cq_new);
	}
}
gpointer g_slice_alloc(gsize n) { return g_slice_alloc0(n); }
gpointer g_slice_alloc0(gsize n) {
	if (n == sizeof(liChunk)) {
		liChunk z = { 0 };
		VP_CALLPRE(!li_cqo.newpending, "one pending new chunk");
		li_cq_new = z; li_cqo.newpending = TRUE;
		return &li_cq_new;
	}
	return &vp_lim2; /* li_cqlimit_new */
}
void g_slice_free1(gsize n, gpointer p) { if (p == &li_cq_new) li_cqo.newpending = FALSE; else VP_CALLPRE(p == &LIH && !li_cq.attached && !li_cq.popped || p == &vp_lim || p == &vp_lim2 || p == &vp_in || p == &li_cq_hf, "frees an unlinked chunk"); }
GByteArray *g_byte_array_sized_new(guint n) { li_cq_nm.len = 0; li_cq_nm.data = (guint8*) vp_ndata; return &li_cq_nm; }
GByteArray *g_byte_array_append(GByteArray *a, const guint8 *d, guint len) { VP_CALLPRE(a == &li_cq_nm && a->len == 0, "append to new"); li_cq_nm_src = d; li_cq_nm_len = len; a->len = len; return a; }
GByteArray *g_byte_array_set_size(GByteArray *a, guint len) { a->len = len; return a; }
guint8 *g_byte_array_free(GByteArray *a, gboolean x) { return NULL; }
GString *g_string_new_len(const gchar *i, gssize l) { return NULL; }
void li_buffer_acquire(liBuffer *b) { VP_CALLPRE(b->refcount > 0, "buffer alive"); b->refcount++; }
void li_buffer_release(liBuffer *b) { VP_CALLPRE(b->refcount > 0, "buffer alive"); b->refcount--; }
void li_event_io_add_events(liEventIO *io, int e) { }
void li_event_io_rem_events(liEventIO *io, int e) { }
void li_g_queue_merge(GQueue *d, GQueue *s) { /* proved in unit queue_merge */
	VP_CALLPRE(d == &vp_out.queue && s == &vp_in.queue, "merges source into destination");
	settle();
	li_cqo.added += IN_LEN; li_cqo.added_mem += IN_MEM;
	li_cq.taken = li_cq0.in_len0; li_cq.taken_mem = -li_cq0.in_mem0; li_cq.in_count = 0; li_cq.attached = FALSE;
}
static void vp_foreach___chunk_free(GQueue *q, gpointer d) {
	VP_CALLPRE(q == &vp_in.queue, "frees all chunks of the queue");
	while (li_cq.in_count != 0)
#ifdef LI_VERIFY
	__CPROVER_assigns(LI_CQ_STATE, vp_in.mem_usage, LI_CQ_LIMIT_STATE)
	__CPROVER_loop_invariant(LI_CQ_SUMS_OK && !li_cq.attached)
	__CPROVER_loop_invariant(IN_MEM == vp_in.mem_usage && LI_CQ_LIMIT_OK(&vp_in))
	__CPROVER_decreases(li_cq.in_count)
#endif
	{ first(); __chunk_free(&LIH, d); }
}
int close(int fd) { return 0; }
int unlink(const char *n) { return 0; }
int munmap(void *a, size_t l) { return 0; }

/* ---- start states ---- */
static void mkq(liChunkQueue *q, goffset len, goffset mem) {
	q->length = len; q->mem_usage = mem;
	q->bytes_in = nondet_long(); q->bytes_out = nondet_long();
	__CPROVER_assume(q->bytes_out >= 0 && q->bytes_out <= MAXL * 16 && q->bytes_in == q->bytes_out + len);
	q->limit = NULL;
}
static void mklim(liCQLimit *l, goffset used, goffset *other) {
	*other = nondet_long(); __CPROVER_assume(*other >= 0 && *other <= MAXL);
	l->limit = nondet_long(); __CPROVER_assume(l->limit >= -1 && l->limit <= MAXL);
	l->current = used + *other; l->refcount = 2; l->io_watcher = NULL; l->notify = nondet_bool() ? vp_notify : NULL; l->context = l;
	l->locked = l->limit > 0 && l->current >= l->limit;
}
static void start(void) {
	li_cq0.in_len0 = nondet_long(); li_cq0.in_mem0 = nondet_long(); li_cq.in_count = nondet_ulong();
	__CPROVER_assume(li_cq0.in_len0 >= 0 && li_cq0.in_mem0 >= 0 && li_cq0.in_len0 <= MAXL && li_cq0.in_mem0 <= MAXL);
#ifdef VP_BOUNDED
	__CPROVER_assume(li_cq.in_count <= VP_BOUND);
#endif
	li_cq.taken = li_cq.taken_mem = 0; li_cqo.added = li_cqo.added_mem = 0;
	li_cq.attached = li_cq.popped = li_cqo.newpending = FALSE; li_cqo.pushes = 0;
	__CPROVER_assume(LI_CQ_HEAD_OK);
	li_cq0.out_len0 = nondet_long(); li_cq0.out_mem0 = nondet_long();
	__CPROVER_assume(li_cq0.out_len0 >= 0 && li_cq0.out_len0 <= MAXL && li_cq0.out_mem0 >= 0 && li_cq0.out_mem0 <= MAXL);
	mkq(&vp_in, li_cq0.in_len0, li_cq0.in_mem0);
	mkq(&vp_out, li_cq0.out_len0, li_cq0.out_mem0);
}
/* limits: shared / separate / none */
static int limkind;
static void limits(void) {
	limkind = nondet_int();
	if (limkind == 1) { mklim(&vp_lim, vp_in.mem_usage, &vp_other); vp_in.limit = &vp_lim; mklim(&vp_lim2, vp_out.mem_usage, &vp_other2); vp_out.limit = &vp_lim2; }
	if (limkind == 2) { mklim(&vp_lim, vp_in.mem_usage + vp_out.mem_usage, &vp_other); vp_in.limit = &vp_lim; vp_out.limit = &vp_lim; }
	if (limkind == 3) { mklim(&vp_lim, vp_in.mem_usage, &vp_other); vp_in.limit = &vp_lim; }
	if (limkind == 4) { mklim(&vp_lim2, vp_out.mem_usage, &vp_other2); vp_out.limit = &vp_lim2; }
}
static void check(void) {
	settle();
	VP_ENSURES(vp_in.length == IN_LEN, "source: length is the sum over its chunks");
	VP_ENSURES(vp_out.length == OUT_LEN, "destination: length is the sum over its chunks");
	VP_ENSURES(vp_in.mem_usage == IN_MEM, "source: memory usage is the sum over its chunks");
	VP_ENSURES(vp_out.mem_usage == OUT_MEM, "destination: memory usage is the sum over its chunks");
	VP_ENSURES(vp_in.bytes_in - vp_in.bytes_out == vp_in.length && vp_out.bytes_in - vp_out.bytes_out == vp_out.length, "bytes in - bytes out = length");
	VP_ENSURES(!li_cq.popped && !li_cqo.newpending, "no chunk lost");
	if (limkind == 1) { VP_ENSURES(vp_lim.current == vp_in.mem_usage + vp_other && vp_lim2.current == vp_out.mem_usage + vp_other2, "limits count the usage of their queues"); VP_ENSURES(LI_LOCK_OK(vp_lim) && LI_LOCK_OK(vp_lim2), "locked iff usage reached the limit"); }
	if (limkind == 2) { VP_ENSURES(vp_lim.current == vp_in.mem_usage + vp_out.mem_usage + vp_other, "shared limit counts both queues"); VP_ENSURES(LI_LOCK_OK(vp_lim), "locked iff usage reached the limit"); }
	if (limkind == 3) { VP_ENSURES(vp_lim.current == vp_in.mem_usage + vp_other && LI_LOCK_OK(vp_lim), "limit of the source"); }
	if (limkind == 4) { VP_ENSURES(vp_lim2.current == vp_out.mem_usage + vp_other2 && LI_LOCK_OK(vp_lim2), "limit of the destination"); }
}

void h_steal_len(void) {
	start(); limits();
	goffset want = nondet_long(); __CPROVER_assume(want >= 0 && want <= 2 * MAXL);
	li_cq0.want = want;
	goffset bi = vp_out.bytes_in, bo = vp_in.bytes_out;
	goffset r = li_chunkqueue_steal_len(&vp_out, &vp_in, want);
	VP_ENSURES(r == (want < li_cq0.in_len0 ? want : li_cq0.in_len0), "moves exactly min(want, available) bytes");
	check();
	VP_ENSURES(vp_out.bytes_in == bi + r && vp_in.bytes_out == bo + r && vp_out.length == li_cq0.out_len0 + r, "counted once in both queues");
	VP_REACH("steal_len returns");
}
void h_skip(void) {
	start();
	int kind = nondet_int();
	if (kind == 1) { mklim(&vp_lim, vp_in.mem_usage, &vp_other); vp_in.limit = &vp_lim; }
	goffset want = nondet_long(); __CPROVER_assume(want >= 0 && want <= 2 * MAXL);
	li_cq0.want = want;
	goffset bo = vp_in.bytes_out;
	goffset r = li_chunkqueue_skip(&vp_in, want);
	VP_ENSURES(r == (want < li_cq0.in_len0 ? want : li_cq0.in_len0), "skips exactly min(want, available) bytes");
	limkind = 0; check();
	VP_ENSURES(LI_CQ_LIMIT_OK(&vp_in), "limit follows the usage");
	VP_ENSURES(vp_in.bytes_out == bo + r && vp_out.length == li_cq0.out_len0, "counted once");
	VP_REACH("skip returns");
}
void h_steal_all(void) {
	start(); limits();
	__CPROVER_assume(li_cq0.in_len0 > 0 || li_cq.in_count == 0);
	goffset r = li_chunkqueue_steal_all(&vp_out, &vp_in);
	VP_ENSURES(r == li_cq0.in_len0 && vp_in.length == 0 && vp_out.length == li_cq0.out_len0 + r, "moves everything");
	check();
	VP_REACH("steal_all returns");
}
void h_steal_chunk(void) {
	start(); limits();
	goffset r = li_chunkqueue_steal_chunk(&vp_out, &vp_in);
	VP_ENSURES(r >= 0 && r <= li_cq0.in_len0 && vp_out.length == li_cq0.out_len0 + r, "moves one chunk");
	check();
	VP_REACH("steal_chunk returns");
}
void h_skip_all(void) {
	start();
	int kind = nondet_int();
	if (kind == 1) { mklim(&vp_lim, vp_in.mem_usage, &vp_other); vp_in.limit = &vp_lim; }
	goffset bo = vp_in.bytes_out, bi = vp_in.bytes_in;
	if (nondet_bool()) {
		goffset r = li_chunkqueue_skip_all(&vp_in);
		VP_ENSURES(r == li_cq0.in_len0 && vp_in.bytes_out == bo + r, "skips everything");
	} else {
		vp_in.is_closed = nondet_bool();
		li_chunkqueue_reset(&vp_in);
		VP_ENSURES(!vp_in.is_closed && vp_in.bytes_in == 0 && vp_in.bytes_out == 0, "reset to a new queue");
	}
	VP_ENSURES(vp_in.length == 0 && vp_in.mem_usage == 0 && li_cq.in_count == 0, "queue is empty");
	VP_ENSURES(LI_CQ_LIMIT_OK(&vp_in), "limit follows the usage");
	VP_REACH("skip_all returns");
}
void h_append(void) {
	start(); limits();
	goffset len = nondet_long(), add = 0; __CPROVER_assume(len >= 0 && len <= MAXL);
	li_cq.in_count = 0; li_cq0.in_len0 = li_cq0.in_mem0 = 0; vp_in.length = 0; vp_in.bytes_in = vp_in.bytes_out; 
	__CPROVER_assume(limkind == 0 || limkind == 4); vp_in.mem_usage = 0;
	GString s; GByteArray m; liBuffer b; liChunkFile f;
	s.len = len; s.str = vp_sdata; m.len = (guint) len; m.data = (guint8*) vp_mdata; b.used = len; b.alloc_size = len; b.addr = vp_bdata; b.refcount = 1; f.refcount = 1; f.fd = -1; f.name = NULL;
	switch (nondet_int()) {
	case 0: li_chunkqueue_append_string(&vp_out, &s); add = len; if (len) VP_ENSURES(li_cq_new.type == STRING_CHUNK && li_cq_new.data.str == &s, "appends the string"); break;
	case 1: li_chunkqueue_append_bytearr(&vp_out, &m); add = m.len; if (m.len) VP_ENSURES(li_cq_new.type == MEM_CHUNK && li_cq_new.mem == &m, "appends the bytes"); break;
	case 2: li_chunkqueue_append_buffer(&vp_out, &b); add = len; if (len) VP_ENSURES(li_cq_new.type == BUFFER_CHUNK && li_cq_new.data.buffer.buffer == &b && li_cq_new.data.buffer.offset == 0, "appends the buffer"); break;
	case 3: { gsize o = nondet_size(), l = nondet_size(); __CPROVER_assume(o <= (gsize)len && l <= (gsize)len - o); li_chunkqueue_append_buffer2(&vp_out, &b, o, l); add = l;
		if (l) VP_ENSURES(li_cq_new.type == BUFFER_CHUNK && li_cq_new.data.buffer.buffer == &b && li_cq_new.data.buffer.offset == o && li_cq_new.data.buffer.length == l, "appends the buffer range"); break; }
	case 4: __CPROVER_assume(len < 0x7fffffff); li_chunkqueue_append_mem(&vp_out, vp_sdata, len); add = len; if (len) VP_ENSURES(li_cq_nm_src == vp_sdata && li_cq_nm_len == len, "copies the memory"); break;
	case 5: { off_t st = nondet_long(); __CPROVER_assume(st >= 0 && st <= MAXL); li_chunkqueue_append_chunkfile(&vp_out, &f, st, len); add = len;
		VP_ENSURES(f.refcount == (len ? 2 : 1), "one reference taken"); if (len) VP_ENSURES(li_cq_new.type == FILE_CHUNK && li_cq_new.data.file.file == &f && li_cq_new.data.file.start == st, "appends the file range"); break; }
	}
	VP_ENSURES(vp_out.length == li_cq0.out_len0 + add && li_cqo.added == add, "appends exactly the given bytes");
	VP_ENSURES(li_cqo.pushes == (add ? 1 : 0), "one chunk, none if empty");
	check();
	VP_REACH("append returns");
}
void h_limit(void) {
	start(); limits();
	__CPROVER_assume(limkind == 3 || limkind == 0);
	goffset l = nondet_long(); __CPROVER_assume(l >= -1 && l <= MAXL);
	if (nondet_bool() && limkind == 3) {
		li_cqlimit_set_limit(&vp_lim, l);
		VP_ENSURES(vp_lim.limit == l, "limit set");
	} else {
		mklim(&vp_lim2, 0, &vp_other2);
		goffset c2 = vp_lim2.current;
		li_chunkqueue_set_limit(&vp_in, &vp_lim2);
		VP_ENSURES(vp_in.limit == &vp_lim2 && vp_lim2.current == c2 + vp_in.mem_usage && LI_LOCK_OK(vp_lim2), "usage moves to the new limit");
		VP_ENSURES(limkind == 0 || (vp_lim.current == vp_other && LI_LOCK_OK(vp_lim)), "usage removed from the old limit");
		limkind = 0;
	}
	check();
	goffset av = li_chunkqueue_limit_available(&vp_in);
	if (vp_in.limit) VP_ENSURES(vp_in.limit->limit <= 0 ? av == -1 : (av >= 0 && (av == 0) == (vp_in.limit->current >= vp_in.limit->limit)), "available");
	VP_REACH("limit returns");
}
