from core import Unit
LEVEL = "other"
A = "auth.c"
G = dict(replace=[("auth_file_get_data", "vp_get1"), ("auth_file_data_release", "vp_rel")], vacuity=2, unwind=12)
UNITS = [
    Unit("auth_basic", A, "h_basic", ["auth_basic"], defines=["-DVP_BASIC=1"], unwind=8, vacuity=3, trusted=["g_base64_decode, strchr, memchr (libc/glib)"]),
    Unit("auth_plain", A, "h_backend", ["auth_backend_plain"], defines=["-DVP_PLAIN=1"], trusted=["GHashTable (glib): a map"], **G),
    Unit("auth_htpasswd", A, "h_backend", ["auth_backend_htpasswd"], trusted=["li_apr_md5_crypt, li_apr_sha1_base64, crypt(3): checked by e2e/C16.py"], **G),
    Unit("auth_htdigest", A, "h_backend", ["auth_backend_htdigest"], defines=["-DVP_DIGEST=1"], trusted=["GChecksum (glib)"], **G),
    Unit("auth_reload", A, "h_get", ["auth_file_get_data"], defines=["-DVP_BASIC=1"], vacuity=2, unwind=3, replace=[("auth_file_load", "vp_load"), ("auth_file_data_release", "vp_rel2")]),
    Unit("auth_file", A, "h_load", ["auth_file_load"], defines=["-DVP_FILE=9"], vacuity=2, unwind=12, is_bounded="files of up to 9 bytes"),
]
ASSUMPTIONS = ["stored htpasswd entries of up to 9 bytes represent all (only the prefix and the pointers matter)"]
NATIVE = None
E2E = dict(prog="C16.py", modules=["auth"], seconds={"quick": 12, "thorough": 120})
