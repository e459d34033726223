from core import Unit
LEVEL = "other"
B = dict(unwind=6, unwindset=["vp_nth_lsf.0:66"], solver="cadical", checks=["--bounds-check", "--pointer-check"], is_bounded="up to 128 ids (2 words), every state of the representation", trusted=["glib: g_bit_nth_lsf, g_array_set_size"])
UNITS = [
    Unit("id_get", "idlist.c", "h_get", ["li_idlist_get", "mark_bit", "idlist_reserve"], vacuity=2, **B),
    Unit("id_put", "idlist.c", "h_put", ["li_idlist_put", "clear_bit"], **B),
    Unit("id_used", "idlist.c", "h_used", ["li_idlist_is_used"], **B),
]
ASSUMPTIONS = []
NATIVE = dict(prog="C11.c", which=("common",), seconds={"quick": 5, "thorough": 60})
