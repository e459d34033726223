from core import Unit
LEVEL = "other"
def B(n): return "tables of up to %d nodes, keys of up to 64 bits, all widths and keys" % n
R = dict(replace=[("rdx_get_input", "vp_get_input")], trusted=["glib: g_slice_alloc0 / g_slice_free1"], timeout=400)
INS = dict(unwindset=["li_radixtree_insert.0:34", "li_radixtree_insert.1:34"])
UNITS = [
    Unit("radix_lookup", "radix.c", "h_lookup", ["li_radixtree_lookup", "li_radixtree_lookup_exact"], vacuity=2, unwind=6, defines=["-DN=5"], is_bounded=B(5), **R),
    Unit("radix_insert", "radix.c", "h_insert", ["li_radixtree_insert"], defines=["-DN=1"], unwind=5, unwindset=["li_radixtree_insert.1:34"], is_bounded=B(1), **R),
    Unit("radix_insert_lpm", "radix.c", "h_insert", ["li_radixtree_insert"], defines=["-DN=1", "-DVP_LPM"], unwind=5, unwindset=["li_radixtree_insert.1:34"], is_bounded=B(1), **R),
    Unit("radix_insert3", "radix.c", "h_insert", ["li_radixtree_insert"], defines=["-DN=3"], unwind=6, unwindset=["li_radixtree_insert.1:34"], is_bounded=B(3), tiers=("thorough",), **R),
    Unit("radix_insert_lpm3", "radix.c", "h_insert", ["li_radixtree_insert"], defines=["-DN=3", "-DVP_LPM"], unwind=6, unwindset=["li_radixtree_insert.1:34"], is_bounded=B(3), tiers=("thorough",), **R),
    Unit("radix_remove", "radix.c", "h_remove", ["li_radixtree_remove", "radixtree_remove", "node_compact"], defines=["-DN=3"], unwind=5, unwindset=["radixtree_remove:6"], is_bounded=B(3), **R),
    Unit("radix_input", "radix.c", "h_input", ["rdx_get_input"], unwind=9, unwindset=["vp_memcpy.0:34", "vp_memset.0:6"]),
    Unit("nets", "nets.c", "h_nets", ["li_ipv4_in_ipv4_net", "li_ipv6_in_ipv6_net", "li_ipv6_in_ipv4_net", "li_ipv4_in_ipv6_net"], unwind=18, unwindset=["same.0:130"]),
]
ASSUMPTIONS = ["the generated address parser is covered by the executable contract (reference parser, generated strings) only", "mod_access and conditions on addresses run in the real server (loopback addresses)"]
NATIVE = dict(prog="C09.c", which=("common", "main"), seconds={"quick": 8, "thorough": 200})
E2E = dict(prog="C09.py", modules=["access"], seconds={"quick": 10, "thorough": 120})
