from core import Unit
LEVEL = "other"
L = "deflate.c"
UNITS = [
    Unit("deflate_zlib", L, "h_zlib", ["deflate_filter_zlib"], defines=["-DLI_VERIFY=1"], unwind=2, vacuity=6, solver="cadical", trusted=["zlib (deflate, crc32)", "li_chunkiter_read, li_chunkqueue_* (C02, C03)"]),
    Unit("deflate_bzip2", L, "h_bzip2", ["deflate_filter_bzip2"], defines=["-DLI_VERIFY=1"], unwind=2, vacuity=6, solver="cadical", trusted=["libbz2 (BZ2_bzCompress)", "li_chunkiter_read, li_chunkqueue_* (C02, C03)"]),
    Unit("deflate_decide", L, "h_decide", ["deflate_handle"], defines=["-DLI_VERIFY=1"], unwind=19, vacuity=3, replace=[("header_to_encoding_mask", "vp_mask"), ("cached_handle_etag", "vp_etag"), ("deflate_context_zlib_create", "vp_zcreate"), ("deflate_context_bzip2_create", "vp_bcreate")], is_bounded="up to 2 Accept-Encoding headers", trusted=["header functions (C05)", "li_vrequest_add_filter_out"]),
    Unit("accept_encoding", L, "h_mask", ["header_to_encoding_mask"], loops=False, unwind=11, vacuity=2, solver="cadical", is_bounded="header values of up to 9 bytes"),
]
ASSUMPTIONS = ["zlib and libbz2 produce a correct encoding of the bytes they are given (their documented interface)"]
NATIVE = None
E2E = dict(prog="C19.py", modules=["deflate", "proxy"], seconds={"quick": 12, "thorough": 120})
