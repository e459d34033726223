from core import Unit
LEVEL = "proof"
TR = ["glib: GQueue link operations, g_slice, GByteArray, GString behave as documented (modelled in cbmc/chunk.c)", "lengths up to 2^40 bytes, chunk counts up to 2^40"]
B = dict(defines=["-DVP_BOUND=2", "-DVP_MAXL=60"], unwind=5, timeout=300)
def U(n, f, **k):
    k.setdefault("bounded", B); k.setdefault("trusted", TR)
    return Unit("chunkqueue_" + n, "chunk.c", "h_" + n, f, loops=True, solver="cadical", **k)
UNITS = [
    U("steal_len", ["li_chunkqueue_steal_len", "li_chunk_length", "cqlimit_update", "chunk_new", "chunk_free", "li_chunkfile_acquire", "li_chunkfile_release"]),
    U("skip", ["li_chunkqueue_skip", "cqlimit_update", "cqlimit_lock", "cqlimit_unlock"]),
    U("steal_all", ["li_chunkqueue_steal_all"]),
    U("steal_chunk", ["li_chunkqueue_steal_chunk"]),
    U("skip_all", ["li_chunkqueue_skip_all", "li_chunkqueue_reset", "__chunk_free"]),
    U("append", ["li_chunkqueue_append_string", "li_chunkqueue_append_bytearr", "li_chunkqueue_append_buffer", "li_chunkqueue_append_buffer2", "li_chunkqueue_append_mem", "li_chunkqueue_append_chunkfile"]),
    U("limit", ["li_cqlimit_set_limit", "li_chunkqueue_set_limit", "li_chunkqueue_limit_available"]),
]
ASSUMPTIONS = ["glib queue and string functions follow their documentation", "single-threaded use of one queue (as in the code base)", "the content of reads and extracts is compared with a model on generated sequences only (not proved)"]
NATIVE = dict(prog="C03.c", which=("common", "main"), seconds={"quick": 12, "thorough": 240})
