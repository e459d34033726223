from core import Unit
LEVEL = "other"
L = "limit.c"
UNITS = [
    Unit("limit_handle", L, "h_handle", ["mod_limit_action_handle"], defines=["-DLI_VERIFY=1"], unwind=2, vacuity=5, trusted=["li_radixtree_* (C09)", "li_waitqueue_push (C10)", "g_atomic_int_*"]),
    Unit("limit_close", L, "h_close", ["mod_limit_vrclose"], defines=["-DLI_VERIFY=1"], unwind=3, vacuity=3, trusted=["li_radixtree_* (C09)", "g_atomic_int_*"]),
    Unit("limit_expire", L, "h_expire", ["mod_limit_timeout_callback"], defines=["-DLI_VERIFY=1"], unwind=3, vacuity=1, trusted=["li_waitqueue_pop (C10)"]),
]
ASSUMPTIONS = ["atomic operations and mutexes as specified by glib; the interleavings of several workers are not explored"]
NATIVE = None
E2E = dict(prog="C18.py", modules=["limit", "proxy"], seconds={"quick": 12, "thorough": 120})
