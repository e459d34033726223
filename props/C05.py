from core import Unit
LEVEL = "proof"
TR = ["glib: GString set_size/truncate, g_ascii_strncasecmp, GQueue"]
B = dict(defines=["-DVP_BOUND=7"], unwind=10, timeout=300)
PC = ["--pointer-check", "--bounds-check"]
UNITS = [
    Unit("header_sanitize", "headers.c", "h_sanitize", ["_http_header_sanitize"], loops=True, checks=PC, trusted=TR, bounded=B),
    Unit("header_entry", "headers.c", "h_entry", ["_http_header_new", "li_http_header_insert", "li_http_header_append", "li_http_header_overwrite"], vacuity=3, unwind=4, trusted=TR,
         defines=["-Dmemcpy=vp_memcpy"], replace=[("g_string_set_size", "vp_set_size"), ("g_string_sized_new", "vp_sized_new"), ("_http_header_sanitize", "vp_sanitize"), ("li_http_header_find_last", "vp_find_last")], bounded=dict(unwind=12)),
] + [
    Unit("header_" + n, "headers.c", "h_lookup", [f], unwind=6, vacuity=2, solver="cadical", defines=["-DVP_OP=%d" % o], trusted=TR, is_bounded="lists of up to 3 headers, names of up to 2 bytes")
    for o, n, f in ((0, "find_first", "li_http_header_find_first"), (1, "find_last", "li_http_header_find_last"), (3, "find_next", "li_http_header_find_next"))
] + [
    Unit("header_remove", "headers.c", "h_remove", ["li_http_header_remove"], unwind=9, trusted=TR, is_bounded="lists of up to 6 headers",
         replace=[("li_http_header_find_first", "vp_r_first"), ("li_http_header_find_next", "vp_r_next"), ("li_http_header_remove_link", "vp_r_remove")]),
]
ASSUMPTIONS = ["lookup functions: bounded lists in the verifier, longer ones in the executable contract"]
NATIVE = dict(prog="C05.c", which=("common", "main"), seconds={"quick": 10, "thorough": 200})
