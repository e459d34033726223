from core import Unit
LEVEL = "other"
B = dict(unwind=7, is_bounded="queues of up to 4 elements (covers every aliasing case of the constant time operations), integral times", trusted=["libev timers: armed / stopped as asked"])
UNITS = [
    Unit("wq_push", "waitqueue.c", "h_push", ["li_waitqueue_push"], vacuity=2, **B),
    Unit("wq_remove", "waitqueue.c", "h_remove", ["li_waitqueue_remove"], **B),
    Unit("wq_pop", "waitqueue.c", "h_pop", ["li_waitqueue_pop", "li_waitqueue_pop_force"], vacuity=2, **B),
    Unit("wq_pop_ready", "waitqueue.c", "h_ready", ["li_waitqueue_pop_ready"], vacuity=2, defines=["-DVP_T=15"], **B),
    Unit("wq_update", "waitqueue.c", "h_update", ["li_waitqueue_update", "li_waitqueue_set_delay"], defines=["-DVP_T=15"], **B),
]
ASSUMPTIONS = []
NATIVE = dict(prog="C10.c", which=("common", "main"), seconds={"quick": 8, "thorough": 120}, ldflags=["-Wl,--wrap=ev_now"])
