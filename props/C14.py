from core import Unit
LEVEL = "other"
F = "fastcgi.c"
R = dict(defines=["-DVP_RECORD=1"], unwind=9)
S = dict(defines=["-DVP_BIG=1"], loops=True, replace=[("stream_send_fcgi_record", "vp_rec")], bounded=dict(unwind=5))
E = ["li_environment_dup2cgi", "add_env_var", "cgi_fix_header_name"]
EV = dict(unwind=23, replace=[("li_environment_dup_pop", "vp_pop"), ("li_environment_get", "vp_get"), ("li_environment_dup_free", "vp_free")], trusted=["GHashTable (glib): a map", "g_string_printf"])
UNITS = [
    Unit("fcgi_record", F, "h_record", ["stream_send_fcgi_record", "stream_build_fcgi_record"], **R),
    Unit("fcgi_begin", F, "h_begin", ["stream_send_begin"], **R),
    Unit("fcgi_pair", F, "h_kv", ["append_key_value_pair", "_append_ba_len"], vacuity=2, **R),
    Unit("fcgi_pair_small", F, "h_kv_small", ["append_key_value_pair"], **R),
    Unit("fcgi_send_data", F, "h_send_data", ["stream_send_data"], **S),
    Unit("fcgi_send_chunks", F, "h_send_chunks", ["stream_send_chunks"], **S),
    Unit("fcgi_send_bytearr", F, "h_bytearr", ["stream_send_bytearr"], vacuity=2, defines=["-DVP_BYTEARR=1"], unwind=3, replace=[("stream_send_fcgi_record", "vp_rec"), ("stream_send_data", "vp_send_data")]),
    Unit("fcgi_decode", F, "h_decode", ["fastcgi_decode"], vacuity=4, loops=True, defines=["-DVP_DECODE=1"], replace=[("fastcgi_reset", "vp_reset")], unwind=9, bounded=dict(unwind=9)),
    Unit("cgi_header_name", "environment.c", "h_fix", ["cgi_fix_header_name"], loops=True, bounded=dict(defines=["-DVP_BOUND=12"], unwind=14)),
    Unit("cgi_variables", "environment.c", "h_all", E, is_bounded="no headers, one configured variable with a known name", **EV),
    Unit("cgi_headers", "environment.c", "h_all", E, defines=["-DVP_HDR=1"], is_bounded="up to 2 headers with names of up to 4 (or 12) bytes", **EV),
    Unit("scgi_env", "scgi.c", "h_env", ["scgi_send_env", "append_key_value_pair"], unwind=5, vacuity=2, trusted=["li_environment_dup2cgi (unit cgi_variables)", "g_string_printf"]),
]
ASSUMPTIONS = ["the two headers have names starting with a and b"]
NATIVE = None
E2E = dict(prog="C14.py", modules=["proxy", "scgi", "fastcgi"], seconds={"quick": 15, "thorough": 150})
