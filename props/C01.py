from core import Unit
LEVEL = "proof"
GLIB = ["glib GString: g_string_set_size / g_string_assign keep and terminate the string as documented (modelled in cbmc/utils_path.c)"]
B = dict(defines=["-DVP_BOUND=7"], unwind=10, timeout=300)
PC = ["--pointer-check", "--bounds-check"]
UNITS = [
    Unit("path_simplify", "utils_path.c", "h_path_simplify", ["li_path_simplify"], loops=True, trusted=GLIB, bounded=B),
    Unit("path_simplify_mem", "utils_path.c", "h_path_simplify", ["li_path_simplify"], loops=True, checks=PC, trusted=GLIB, bounded=B, defines=["-DVP_MEM_ONLY"]),
    Unit("url_decode", "utils_path.c", "h_url_decode", ["li_url_decode", "hex2int"], loops=True, checks=PC, trusted=GLIB, bounded=B),
]
ASSUMPTIONS = []
NATIVE = dict(prog="C01.c", which=("common", "main"), seconds={"quick": 15, "thorough": 240})
