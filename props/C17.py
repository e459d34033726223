from core import Unit
LEVEL = "other"
C, A = "condition.c", "actions.c"
UNITS = [
    Unit("cond_check", C, "h_check", ["li_condition_check", "li_condition_check_eval_bool", "li_condition_check_eval_string", "li_condition_check_eval_int", "li_condition_check_eval_ip", "ip_in_net", "condition_parse_ip", "condition_ip_from_socket"], defines=["-DVP_CHECK=1"], unwind=18, vacuity=7, replace=[("li_condition_get_value", "vp_get"), ("li_condition_value_to_string", "vp_tostr")], trusted=["g_str_equal, g_str_has_prefix, g_str_has_suffix, g_regex_match, g_ascii_strtoll (glib)"]),
    Unit("cond_value", C, "h_value", ["li_condition_get_value"], defines=["-DVP_VALUE=1"], unwind=14, vacuity=6, trusted=["li_stat_cache_get"]),
    Unit("action_step", A, "h_step", ["li_action_execute", "li_action_enter", "action_stack_top", "action_stack_pop", "action_stack_element_release"], defines=["-DLI_VERIFY=1"], unwind=3, vacuity=7, replace=[("li_action_release", "vp_release"), ("li_action_acquire", "vp_acquire"), ("li_action_stack_reset", "vp_reset")], trusted=["GArray (glib)"]),
]
ASSUMPTIONS = ["action_step: no backend failed (balancer fallback only in the running server); a callback pushes at most one action",
    "glib's string comparison, regex matching and GArray as documented",
    "parsing of conditions and their compilation to nested conditions (ragel) is compared with a model on sampled configurations only (e2e/C17.py)"]
NATIVE = None
E2E = dict(prog="C17.py", modules=[], seconds={"quick": 12, "thorough": 120})
