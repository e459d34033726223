from core import Unit
LEVEL = "other"
P = "pattern.c"
UNITS = [
    Unit("pat_array", P, "h_array", ["li_pattern_array_cb"], defines=["-DVP_CB=1"], loops=True, unwind=2, vacuity=3),
    Unit("pat_regex", P, "h_regex", ["li_pattern_regex_cb"], defines=["-DVP_CB=1"], loops=True, unwind=2, vacuity=3, trusted=["g_match_info_* (glib)"]),
    Unit("pat_eval", P, "h_eval", ["li_pattern_eval"], defines=["-DVP_EVAL=1"], loops=True, unwind=2, vacuity=1, trusted=["li_condition_get_value"]),
    Unit("pat_docroot", P, "h_docroot", ["core_docroot_nth_cb"], defines=["-DVP_CORE=1", "-DVP_L=10"], unwind=13, is_bounded="host names of up to 10 labels", vacuity=3, trusted=["g_strsplit_set (glib): at most 31 labels"]),
    Unit("rewrite", P, "h_rewrite", ["rewrite"], defines=["-DVP_RULES=1"], loops=True, unwind=2, vacuity=2, replace=[("rewrite_internal", "vp_internal")]),
    Unit("redirect", P, "h_redirect", ["redirect"], defines=["-DVP_RULES=2"], loops=True, unwind=2, vacuity=2, replace=[("redirect_internal", "vp_internal")]),
]
ASSUMPTIONS = ["li_pattern_eval: one part of every kind with arbitrary contents stands for all parts of that kind",
    "compilation of patterns and regexes (li_pattern_new, glib's GRegex) and the vhost/userdir lookups are compared with a model on sampled inputs only (e2e/C23.py)"]
NATIVE = None
E2E = dict(prog="C23.py", modules=["rewrite", "redirect", "vhost", "userdir"], seconds={"quick": 12, "thorough": 120})
