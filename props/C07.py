from core import Unit
LEVEL = "proof"
TR = ["chunk queue operations (contracts of C03)", "header table operations (contracts of C05)"]
UNITS = [
    Unit("response_send_headers", "response.c", "h_send", ["li_response_send_headers", "li_response_send_error_page", "li_response_error_description", "li_http_status_to_str", "li_http_status_string"], unwind=6, vacuity=5, trusted=TR,
         replace=[("li_g_string_append_len", "vp_append_len")], is_bounded="list of up to 3 other headers (the head is otherwise unbounded: any status, method, lengths)"),
]
ASSUMPTIONS = []
NATIVE = None
E2E = dict(prog="C07.py", modules=["proxy", "scgi"], seconds={"quick": 15, "thorough": 200})
UNITS += [
    Unit("backend_headers", "backend_response.c", "h_check", ["check_response_header"], unwind=6, vacuity=5, trusted=TR, is_bounded="up to 3 headers of each framing related name; values abstracted to (is a number, fits, value)"),
    Unit("backend_body", "backend_response.c", "h_data", ["stream_http_response_data"], unwind=6, vacuity=3, trusted=TR + ["li_filter_chunked_decode (contract of C02)"]),
]
CR = [("li_connection_reset_keep_alive", "vp_reset_keep_alive"), ("con_iostream_shutdown", "vp_shutdown"), ("connection_close", "vp_connection_close"), ("li_connection_reset", "vp_con_reset"), ("li_connection_error", "vp_con_error"), ("li_connection_update_io_wait", "vp_io_wait")]
UNITS += [
    Unit("connection_done", "connection.c", "h_done", ["li_connection_request_done"], unwind=4, vacuity=3, trusted=TR, replace=CR),
    Unit("connection_body", "connection.c", "h_in_body", ["_connection_http_in_cb"], unwind=4, vacuity=4, trusted=TR + ["request head parsing (C06)"], replace=CR, nobody=["g_queue_delete_link", "li_event_stop", "li_event_stop_", "li_chunkqueue_reset", "li_vrequest_start", "li_http_request_parse", "li_counter_format", "li_stream_again", "li_request_validate_header", "li_chunkqueue_append_mem", "li_action_enter", "li_vrequest_handle_request_headers"]),
    Unit("connection_out", "connection.c", "h_out", ["_connection_http_out_cb"], unwind=4, vacuity=3, trusted=TR, replace=CR),
]
