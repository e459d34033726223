from core import Unit
LEVEL = "other"
TR = ["header lookup (contract of C05)", "g_ascii_strtoll / g_ascii_strcasecmp", "url and host parsers (own grammar; exercised by the executable contract)"]
UNITS = [
    Unit("request_validate", "request.c", "h_validate", ["li_request_validate_header", "bad_request"], unwind=6, vacuity=4, trusted=TR, replace=[("request_parse_url", "vp_parse_url"), ("li_g_string_append_len", "vp_append_len")],
      is_bounded="up to 3 headers of each framing related name; values abstracted to (is a number, fits, value)"),
]
ASSUMPTIONS = []
NATIVE = dict(prog="C06.c", which=("common", "main"), seconds={"quick": 12, "thorough": 200})
