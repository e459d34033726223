/* C04: li_parse_http_range_next (generated from src/main/http_range_parser.rl) */
#include <lighttpd/base.h>
#include <lighttpd/http_range_parser.h>
#include "vp.h"
#include "vp_spec.h"
size_t li_vk, li_vk2; unsigned char li_vb, li_vb2; li_ghost_t li_g;
#include "F0_http_range_parser.c"
#ifndef VP_TAIL
#define VP_TAIL 6
#endif
static char buf[7 + VP_TAIL]; static GString str;
/* any parser state, any (up to VP_TAIL) following bytes: whatever is reported lies inside the file */
void h_safe(void) {
	liParseHttpRangeState s; liParseHttpRangeResult r; size_t n = nondet_size(), i; goffset limit = nondet_long(); int fv = nondet_bool();
	VP_REQUIRES(n <= VP_TAIL && limit >= 0);
	for (i = 0; i < VP_TAIL; i++) buf[i] = nondet_uchar();
	buf[n] = 0; str.str = buf; str.len = n; str.allocated_len = 1 + n;
	s.data = &str; s.data_pos = buf; s.limit = limit; s.last_range = FALSE; s.found_valid_range = fv; s.cs = nondet_int(); s.range_start = nondet_long(); s.range_end = nondet_long();
	VP_REQUIRES(s.cs >= 0 && s.cs <= 18);
	/* the start of a range is a number (or not set yet) */
	VP_REQUIRES(s.range_start >= 0);
	r = li_parse_http_range_next(&s);
	VP_REACH("returns");
	if (r == LI_PARSE_HTTP_RANGE_OK) {
		VP_REACH("range");
		VP_ENSURES(0 <= s.range_start && s.range_start <= s.range_end && s.range_end < limit, "a reported range is a non-empty part of the file");
		VP_ENSURES(s.range_length == s.range_end - s.range_start + 1, "length of a reported range");
		VP_ENSURES(!!s.last_range == (s.data_pos >= buf + n), "last_range exactly at the end of the header");
		VP_ENSURES(s.found_valid_range, "remembers that there was a satisfiable range");
	} else {
		VP_ENSURES(r != LI_PARSE_HTTP_RANGE_DONE || fv, "done only after a satisfiable range");
		VP_ENSURES(r != LI_PARSE_HTTP_RANGE_NOT_SATISFIABLE || !fv, "not satisfiable only if there was none");
		VP_ENSURES(r != LI_PARSE_HTTP_RANGE_INVALID || s.cs == http_range_parser_error, "an invalid header stays invalid");
	}
	VP_ENSURES(s.data_pos >= buf && s.data_pos <= buf + n, "stays inside the header");
}
