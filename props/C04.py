from core import Unit
LEVEL = "other"
TR = ["ragel 6 (the verified C text is its table driven output -F0 for http_range_parser.rl; the server uses -G2)"]
L = "li_parse_http_range_next"
UNITS = [
    Unit("range_next", "range.c", "h_safe", [L], unwind=5, unwindset=[L + ".0:4", L + ".1:5", L + ".2:4", L + ".3:3"], vacuity=2, solver="cadical", ragel=[("src/main/http_range_parser.rl", "-F0")], trusted=TR, defines=["-DVP_TAIL=3"],
         is_bounded="from every parser state, up to 3 following bytes; every file size"),
    Unit("static_response", "static.c", "h_static", ["core_handle_static"], unwind=6, vacuity=5, trusted=["header, chunk queue and etag functions (contracts of C03, C05, C08)", "range parser (contract of unit range_next)"], is_bounded="up to 3 ranges"),
]
ASSUMPTIONS = []
NATIVE = dict(prog="C04.c", which=("common", "main"), seconds={"quick": 8, "thorough": 120})
E2E = dict(prog="C04.py", seconds={"quick": 10, "thorough": 120})
