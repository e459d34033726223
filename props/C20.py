from core import Unit
LEVEL = "other"
L = "accesslog.c"
D = ["-DLI_VERIFY=1"]
UNITS = [
    Unit("log_escape", L, "h_escape", ["al_append_escaped"], defines=D, unwind=6, vacuity=4),
    Unit("log_entry", L, "h_line", ["al_format_log"], defines=D, unwind=3, vacuity=6, replace=[("al_append_escaped", "vp_esc")], trusted=["header, environment and timestamp functions (C05)"]),
    Unit("log_request", L, "h_close", ["al_handle_vrclose"], defines=D, unwind=3, vacuity=2, replace=[("al_format_log", "vp_format")], trusted=["li_log_write_direct"]),
]
ASSUMPTIONS = ["the method and the host of a request contain no quotes and no control characters (request parser and host parser; observed in the running server)"]
NATIVE = None
E2E = dict(prog="C20.py", modules=["accesslog"], seconds={"quick": 12, "thorough": 120})
