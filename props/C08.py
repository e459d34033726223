from core import Unit
LEVEL = "other"
TR = ["header lookups (contract of C05)", "strstr, strptime, mktime, gmtime_r, strftime (libc; dates compare as their mktime values)"]
M = "li_http_response_handle_cachable"
UNITS = [
    Unit("if_none_match", "etag.c", "h_inm", [M + "_etag"], unwind=5, vacuity=3, trusted=TR, is_bounded="up to 3 If-None-Match headers"),
    Unit("if_modified_since", "etag.c", "h_ims", [M + "_modified"], unwind=36, vacuity=3, trusted=TR, is_bounded="header values up to 33 bytes (a date has 29)"),
    Unit("etag_set_header", "etag.c", "h_set", ["li_etag_set_header"], unwind=9, vacuity=2, defines=["-DVP_SETHDR=1"], replace=[(M + "_etag", "vp_inm"), (M + "_modified", "vp_ims"), ("li_etag_mutate", "vp_mutate")], trusted=TR),
    Unit("cachable", "etag.c", "h_both", [M], unwind=3, vacuity=2, replace=[(M + "_etag", "vp_inm2"), (M + "_modified", "vp_ims2")]),
    Unit("etag_mutate", "etag.c", "h_mutate", ["li_etag_mutate"], unwind=14, vacuity=1, timeout=60, is_bounded="strings up to 12 bytes"),
]
ASSUMPTIONS = ["file attributes with equal 32-bit hashes get the same tag (hash of the source; not claimed collision free)"]
NATIVE = None
E2E = dict(prog="C08.py", modules=["deflate"], seconds={"quick": 10, "thorough": 120})
