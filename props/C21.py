from core import Unit, REPO
LEVEL = "other"
L = "throttle.c"
D = ["-DLI_VERIFY=1"]
UNITS = [
    Unit("throttle_query", L, "h_query", ["li_throttle_query"], defines=D + ["-DVP_QUERY=1"], vacuity=3, loops=True, replace=[("throttle_register", "vp_register"), ("throttle_pool_rearm", "vp_rearm"), ("msec_timestamp", "vp_msec")], trusted=["li_waitqueue_push (C10)"]),
    Unit("throttle_refill", L, "h_query", ["li_throttle_query"], defines=D + ["-DVP_QUERY=1", "-DVP_SMALL=1"], vacuity=1, loops=True, is_bounded="rates up to 127, up to 1 s", replace=[("throttle_register", "vp_register"), ("throttle_pool_rearm", "vp_rearm"), ("msec_timestamp", "vp_msec")], trusted=["li_waitqueue_push (C10)"]),
    Unit("throttle_rearm", L, "h_rearm", ["throttle_pool_rearm", "msec_elapsed"], defines=D + ["-DVP_REARM=1"], vacuity=2, loops=True, replace=[("S_throttle_pool_rearm_workers", "vp_fill")], trusted=["g_queue_pop_head_link", "g_atomic_int_*, g_mutex_*"]),
    Unit("throttle_share", L, "h_rearm", ["throttle_pool_rearm", "msec_elapsed"], defines=D + ["-DVP_REARM=1", "-DVP_SMALL=1"], vacuity=2, loops=True, is_bounded="up to 7 waiting connections, 255 bytes", replace=[("S_throttle_pool_rearm_workers", "vp_fill")], trusted=["g_queue_pop_head_link", "g_atomic_int_*, g_mutex_*"]),
    Unit("throttle_fill", L, "h_fill", ["S_throttle_pool_rearm_workers"], defines=D + ["-DVP_FILL=1"], unwind=5, vacuity=1, is_bounded="up to 3 workers with 3 connections each, rates up to 255", trusted=["g_atomic_int_*"]),
]
ASSUMPTIONS = ["integer division: the shares fill * c_i / sum(c) add up to at most fill, (m / n) * n is at most m", "cached clocks of the workers differ by less than a minute"]
NATIVE = dict(prog="C21.c", which=("common", "main"), exclude=("throttle.c",), cflags=["-I" + REPO], seconds={"quick": 8, "thorough": 120})
