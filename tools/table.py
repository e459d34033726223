def A(files, mech, state=(), obs=()):
    d = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: d["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs: d["observe_at"] = list(obs)
    d["hook_needed"] = None
    return d
def Q(over, text): return {"over": over, "text": text}
T = "contract-based deductive verification (CBMC function + loop contracts on the real source), executable contracts on the running code for replay"
P = []
NA = []
def prop(id, title, statement, q, why, anchors, level="proof", note="", technique=T):
    P.append(dict(id=id, title=title, statement=statement, quantifier=q, why_tests_cant=why, anchors=anchors, level=level, level_note=note, technique=technique))
def na(id, title, statement, q, why, anchors, reason):
    NA.append(dict(id=id, title=title, statement=statement, quantifier=q, why_tests_cant=why, anchors=anchors, reason=reason))

prop("C01", "Request paths are decoded once and never contain empty, . or .. segments",
 "For every request target the server accepts, the decoded path it works with starts with '/', contains no empty (but for the last), '.' or '..' segment and no control byte, so it can never name something above the document root. Decoding is exact and done once: each valid %XX becomes that byte (control bytes become '_'), invalid escapes are dropped, a truncated escape ends the path, everything else is kept; path and query are the parts before and after the first '?', the fragment is ignored.",
 Q(["inputs"], "every byte string as request target / raw path, of any length"),
 "tests sample a handful of urls; traversal bugs sit in rare combinations of escapes, dots and slashes at the ends of the string",
 A(["src/common/utils.c", "src/main/request.c", "src/main/url_parser.rl"], [("li_url_decode", "src/common/utils.c"), ("li_path_simplify", "src/common/utils.c"), ("request_parse_url", "src/main/request.c")], obs=["vr->request.uri.path"]),
 note="li_url_decode (exact functional spec) and li_path_simplify (shape + memory safety) proved for all strings up to 1 MB by loop contracts; equality of simplify with the reference and the url parser glue is exercised by the executable contract")

prop("C03", "Chunk queues neither lose, duplicate nor reorder bytes, and their accounting is exact",
 "The server moves all request and response data through chunk queues. For every sequence of append, steal (n bytes, a chunk, everything), skip, reset, read and extract operations on any number of queues: the bytes readable from a queue are exactly the bytes put in minus those taken out at the front, in order; length = bytes_in - bytes_out; a steal or skip of n moves exactly min(n, length) bytes; memory usage of a queue is the memory held by its chunks, a (shared) queue limit counts exactly the memory of the queues using it and is locked - its reader paused and the owner notified - exactly while the limit is reached.",
 Q(["inputs", "histories"], "every operation sequence over string, memory, buffer and file chunks of any size and queues of any length, with and without shared limits"),
 "accounting drift shows only after particular sequences (partial steals of a file chunk between queues with the same limit, empty chunks, ...)",
 A(["src/main/chunk.c", "include/lighttpd/chunk.h"], [("li_chunkqueue_steal_len", "src/main/chunk.c"), ("li_chunkqueue_skip", "src/main/chunk.c"), ("cqlimit_update", "src/main/chunk.c")],
   state=[("liChunkQueue", "length/bytes_in/bytes_out/mem_usage", "include/lighttpd/chunk.h")], obs=["li_chunkqueue_* api"]),
 note="all modifying operations proved for queues of any length (loop contracts); byte contents of reads/extracts checked by the executable contract")
prop("C02", "Chunked transfer coding is decoded and encoded exactly",
 "For every byte stream and every way it is cut into pieces, decoding a chunked body yields exactly the concatenated chunk data, ends exactly behind the trailer section, i.e. the first empty line behind the last chunk (bytes behind it stay in the queue for the next request) and closes the output exactly there. Anything malformed (bad or missing hex length, length beyond 63 bits, chunk extension, missing CRLF) and a body that ends early is an error, after which nothing more is ever output. The encoder emits for every non-empty piece of any length its hex length, CRLF, the data, CRLF, and exactly one last-chunk when the input is closed.",
 Q(["inputs", "schedules"], "every byte stream, every split into reads, every piece length below 2^63"),
 "request smuggling bugs sit in rare inputs (sizes near 2^63, splits between CR and LF, truncation inside a chunk)",
 A(["src/main/filter_chunked.c"], [("li_filter_chunked_decode", "src/main/filter_chunked.c"), ("li_filter_chunked_encode", "src/main/filter_chunked.c")], obs=["output queue", "return value"]),
 note="decoder proved equal to a byte-wise specification automaton for unbounded input (loop contract); encoder proved for all lengths")
prop("C05", "Header tables are exact and header values can never inject lines",
 "For every sequence of header operations: insert adds 'name: value' at the end, append adds ', value' to the last header with that name (or inserts it), overwrite replaces the value of the last one (or inserts it), remove deletes exactly all headers with that name, lookup / find / is / get_all see exactly those entries; names compare case-insensitively and by full length. No stored value ever contains CR or LF, whatever the operation it came from: each run of CR, LF, space and tab starting with CR or LF becomes a single space (nothing at the end of the value).",
 Q(["inputs", "histories"], "all names and values (any bytes, any length), all operation sequences"),
 "response splitting needs a value with CR/LF arriving over the one operation that does not clean it",
 A(["src/main/http_headers.c"], [("_http_header_sanitize", "src/main/http_headers.c"), ("li_http_header_append", "src/main/http_headers.c"), ("li_http_header_overwrite", "src/main/http_headers.c")], obs=["liHttpHeaders entries"]),
 note="sanitizer and entry construction proved for all lengths; list lookups bounded (3 entries) in the verifier and compared with a model on random sequences")
prop("C06", "Request heads are framed unambiguously, however they arrive",
 "For every request head and every way it is cut into reads, the server sees the same method, target, version and header list, and leaves exactly the bytes behind the head in the connection. It then accepts the request only if its body length is unambiguous: a version other than 1.0/1.1, no or several Host headers where one is needed, an invalid host or target, a Content-Length that is not a plain decimal number below 2^63 or conflicts with another one, a transfer coding other than a single chunked, a body on GET/HEAD, an unknown expectation (or one from HTTP/1.0), malformed header lines or a head above 64 KiB are refused with an error status and close the connection. For accepted requests the body length is chunked if announced, else the Content-Length, else 0; keep-alive is the default for 1.1 unless 'close', for 1.0 only with 'keep-alive'; the host has no trailing dots.",
 Q(["inputs", "schedules"], "every combination of framing headers, values and methods; every split of the head into reads"),
 "request smuggling uses the rare combination (duplicate lengths, signs, overflow, coding names that almost match)",
 A(["src/main/request.c", "src/main/http_request_parser.rl", "src/main/url_parser.rl"], [("li_request_validate_header", "src/main/request.c"), ("li_http_request_parse", "src/main/http_request_parser.rl")], obs=["vr->request", "con->info.keep_alive", "vr->response.http_status"]), level="other",
 note="li_request_validate_header checked against a functional specification for all values but lists of up to 3 headers per name (bounded); the generated parser is covered by the executable contract only")
prop("C04", "Static files are sent byte-exactly, whole or by range",
 "A GET for a regular file is answered with exactly its bytes (200), or, with a well-formed Range header, with exactly the requested bytes (206): every range is clipped to the file, ranges that select nothing are skipped, the others are sent in order, a single one with its Content-Range, several as multipart/byteranges with one part each; if none is satisfiable the answer is 416 naming the size, a malformed header (bad character, number beyond 63 bits) is ignored. No answer ever contains bytes from outside the file, HEAD has no body, nothing but regular files is sent, and the file descriptor is closed or handed on exactly once on every path.",
 Q(["inputs"], "every Range header of any length and every file size (including 0 and sizes near 2^63)"),
 "off-by-one and overflow errors sit at the borders (size 0, last byte, suffix longer than the file, 19 digit numbers)",
 A(["src/main/http_range_parser.rl", "src/main/plugin_core.c"], [("li_parse_http_range_next", "src/main/http_range_parser.rl"), ("core_handle_static", "src/main/plugin_core.c")], obs=["response of static files"]), level="other",
 note="core_handle_static checked against its contract for all sizes and up to 3 ranges, the range parser from every state for 3 following bytes (bounded); exactness of whole headers by the executable contracts (exhaustive short headers, running server)")
prop("C07", "Every response is framed unambiguously and connections never get out of sync",
 "For every request, every handler or backend result and every order and size of reads: the client gets exactly one head followed by exactly the response body, and can tell where it ends. Never both Content-Length and Transfer-Encoding, never more than one Content-Length; Content-Length is the exact body length; responses to HEAD and with status 1xx, 204, 205 or 304 have no body; a response of unknown length is chunked (HTTP/1.1 keep-alive) or ends with the connection. Connection headers say exactly whether the connection stays open. A backend body that is cut short, malformed or has invalid or conflicting lengths is never passed on as complete, surplus backend data never reaches the client. The next request on a connection starts exactly behind the body of the previous one: bytes of a request body, read or not, are never taken for a request, and nothing of one connection leaks into another.",
 Q(["inputs", "schedules", "histories"], "all statuses, methods, versions, body lengths, backend responses, pipelined requests, splits into reads"),
 "desynchronisation needs particular combinations: a backend length with a streamed body, a response that overtakes the request body, a reused connection object",
 A(["src/main/response.c", "src/main/connection.c", "src/main/stream_http_response.c", "src/main/filter_chunked.c"], [("li_response_send_headers", "src/main/response.c"), ("_connection_http_in_cb", "src/main/connection.c"), ("_connection_http_out_cb", "src/main/connection.c"), ("li_connection_request_done", "src/main/connection.c"), ("check_response_header", "src/main/stream_http_response.c"), ("stream_http_response_data", "src/main/stream_http_response.c")], obs=["bytes on the client connection"]),
 note="head, framing decision, request body, response body and keep-alive step proved as function contracts over the contracts of C02/C03/C05 (header lists bounded to 3 entries); their composition runs in the real server against generated backends")
prop("C09", "Addresses are parsed exactly and access rules use the longest matching prefix",
 "An IPv4/IPv6 address text (with optional CIDR length and port where allowed) is accepted exactly if it is well formed - every number in range, at most one '::', eight groups in total, nothing behind it but white space - and yields exactly that address, prefix length and port; printing and parsing are inverse. Network membership compares exactly the leading prefix-length bits, for every length from 0 to 32/128. Prefix tables behave like a map from (prefix, length): for every history of inserts and removes, exact lookup finds exactly what was stored, lookup returns the entry with the longest prefix matching the key. So access.check and address conditions decide every client by its most specific rule.",
 Q(["inputs", "histories"], "all address texts, all addresses, all prefix lengths, all insert/remove histories"),
 "wrong results need a particular length (1, 31, 33, 64) or a split/compaction at a particular bit",
 A(["src/common/ip_parsers.rl", "src/common/radix.c", "src/common/utils.c", "src/modules/mod_access.c", "src/main/condition.c"], [("li_parse_ipv4", "src/common/ip_parsers.rl"), ("li_parse_ipv6", "src/common/ip_parsers.rl"), ("li_radixtree_lookup", "src/common/radix.c"), ("li_radixtree_insert", "src/common/radix.c"), ("li_radixtree_remove", "src/common/radix.c"), ("access_check", "src/modules/mod_access.c")], obs=["return values", "403 responses"]), level="other",
 note="membership functions and key conversion proved for all inputs; table operations against an abstract map from every well-formed tree of bounded size; parsers, long histories and the module by executable contracts")
prop("C10", "Timeout queues release every element exactly once, in order and when it is due",
 "Wait queues drive all timeouts (io, keep-alive, backends, throttling, caches). For every history of push, re-push, remove and pop at any times: the queue holds exactly the pushed and not yet popped or removed elements ordered by their push time, a pushed element restarts its waiting time, pop returns the oldest element exactly when its delay has passed (never earlier) and pop_ready all of those as one terminated list; a non-empty queue always has a running timer, and after an update it fires when the oldest element is due.",
 Q(["histories", "schedules"], "all operation sequences and time advances"),
 "broken links show only after particular sequences (re-push of the head, removing the tail, popping a part of the queue)",
 A(["src/common/waitqueue.c"], [("li_waitqueue_push", "src/common/waitqueue.c"), ("li_waitqueue_pop", "src/common/waitqueue.c"), ("li_waitqueue_pop_ready", "src/common/waitqueue.c"), ("li_waitqueue_remove", "src/common/waitqueue.c"), ("li_waitqueue_update", "src/common/waitqueue.c")], obs=["queue contents", "timer"]), level="other",
 note="contracts checked from every queue of up to 4 elements (all aliasing cases of the constant time operations); long histories under simulated time by the executable contract")
prop("C11", "Request ids are unique while in use",
 "For every history of requests and releases: an id handed out (angel calls, FastCGI style multiplexing) is not in use by anyone else and within [0, max), there is one as long as fewer than max are in use and none (-1) otherwise; releasing an id frees exactly that id.",
 Q(["histories"], "all get/put sequences, any number of ids"),
 "the search hint only goes wrong after particular sequences around word boundaries",
 A(["src/common/idlist.c"], [("li_idlist_get", "src/common/idlist.c"), ("li_idlist_put", "src/common/idlist.c"), ("li_idlist_is_used", "src/common/idlist.c")], state=[("liIDList", "bit vector, next_free_id, used_ids", "include/lighttpd/idlist.h")], obs=["return values"]), level="other",
 note="representation invariant preserved and postconditions proved from every state with up to 128 ids (inductive, bounded size); larger lists by the executable contract")
prop("C12", "Names and request data in generated text are encoded exactly and cannot change its structure",
 "HTML, URI and hex encoding map every byte string of any length exactly: bytes outside the safe set become their escape, all others stay, nothing is lost or added, and URI encoding is undone by url decoding. Directory listings show exactly the visible entries of the directory (according to the hide/exclude options) once each, as links that lead to that very entry; no name or path can break out of the markup. The redirect for a directory without trailing slash names exactly that directory with its query. Numbers in headers and pages are printed exactly.",
 Q(["inputs"], "all byte strings, all file and directory names, all 64 bit numbers"),
 "injection needs a name with exactly the one byte that is not encoded in that place",
 A(["src/common/encoding.c", "src/common/utils.c", "src/modules/mod_dirlist.c", "src/main/virtualrequest.c"], [("li_string_encode_append", "src/common/encoding.c"), ("li_string_append_int", "src/common/utils.c"), ("dirlist", "src/modules/mod_dirlist.c"), ("li_vrequest_redirect_directory", "src/main/virtualrequest.c")], obs=["generated pages", "Location header"]), level="other",
 note="encoder checked against its specification for all strings of up to 5 bytes (bytes are independent), longer ones and the pages by executable contracts")
prop("C08", "Validators identify the version of a file and conditional requests are answered by them",
 "Every static file response carries Last-Modified, the exact time of modification of the file, and (unless etag.use is empty) one quoted ETag that is a function of exactly the selected attributes among inode, size and mtime: unchanged files keep their tag, files differing in a selected attribute get another one (up to collisions of its 32-bit hash), a compressed variant has a tag of its own. A request is answered with 304 and no body exactly if it has at least one condition and all of them say the client is up to date: If-None-Match lists the tag; the only If-Modified-Since equals Last-Modified or is a later date. An invalid, repeated, overlong or earlier date, or a list without the tag, always gets the full response; 304 and 200 carry the same validators.",
 Q(["inputs"], "all file attributes, all values, repetitions and combinations of the conditional headers"),
 "a stale or wrong 304 needs a particular combination of headers (one condition true, the other false) or of file attributes",
 A(["src/main/etag.c", "src/main/plugin_core.c", "src/modules/mod_deflate.c"], [("li_etag_set_header", "src/main/etag.c"), ("li_http_response_handle_cachable", "src/main/etag.c"), ("core_handle_static", "src/main/plugin_core.c")], obs=["status, ETag and Last-Modified of static responses"]), level="other",
 note="decision functions checked over all results of header lookup and date parsing (lists of 3 headers, date values of 33 bytes: bounded); set_header and the combination without bound")

prop("C14", "Backends get exactly the request, their answer is passed on exactly",
 "For every request handed to a FastCGI, SCGI or HTTP backend, the backend gets: every request header exactly once under its name (as HTTP_* variable, the content type without prefix; the proxy leaves out hop-by-hop headers and adds X-Forwarded-*), the CGI variables with the values of this request, every configured environment variable exactly once and instead of a value from the request; then exactly the request body, in well-formed records, however it arrived. Of the answer of a FastCGI backend exactly the content of its stdout records, in order, is the response, however they are cut and padded; stderr and unknown records never are. A backend stream that is truncated, malformed or refused is never passed on as a complete response and the client never hangs.",
 Q(["inputs", "schedules"], "all requests and header names, all configured variables, all backend streams, record sizes, paddings and splits"),
 "lost or duplicated bytes need particular record borders; shadowed variables need header names that collide after translation",
 A(["src/main/environment.c", "src/modules/fastcgi_stream.c", "src/modules/mod_scgi.c", "src/modules/mod_proxy.c"], [("li_environment_dup2cgi", "src/main/environment.c"), ("fastcgi_decode", "src/modules/fastcgi_stream.c"), ("stream_send_chunks", "src/modules/fastcgi_stream.c"), ("scgi_send_env", "src/modules/mod_scgi.c")], obs=["bytes on the backend and client connection"]), level="other",
 note="record writer and reader proved for unbounded streams (loop contracts against a record automaton), length encoding for all lengths, header name translation for all names; lists of 2 headers (bounded); everything together, and the proxy, in the running server")

prop("C16", "Only clients with credentials from the user file get through authentication",
 "A request to a resource behind auth.plain / auth.htpasswd / auth.htdigest is let through exactly if its last Authorization header is 'Basic ' plus base64 of user:password (split at the first colon, no NUL bytes) and the user file has an entry for that user (and realm) that this password matches in full: by comparison, by apr1-md5, {SHA} or crypt hash, or by md5(user:realm:password). Otherwise the answer is 401 with the challenge naming the configured realm and nothing of the resource is sent (403 for auth.deny). REMOTE_USER and AUTH_TYPE are set exactly for requests let through, to the user who logged in. A user file is one record per line; changes are followed within the ttl, a broken or unreadable new file leaves the old users in place, and no user data is used after it was replaced.",
 Q(["inputs", "histories"], "all user files, all header values and credentials (any bytes, any length), all sequences of file changes and requests"),
 "the tests use one user file and a few passwords; bypasses sit in delimiters, embedded NULs, empty entries, realms, line ends and reloads",
 A(["src/modules/mod_auth.c", "src/common/utils.c"], [("auth_basic", "src/modules/mod_auth.c"), ("auth_file_load", "src/modules/mod_auth.c"), ("auth_file_get_data", "src/modules/mod_auth.c"), ("auth_backend_htpasswd", "src/modules/mod_auth.c"), ("auth_backend_htdigest", "src/modules/mod_auth.c")], obs=["status, WWW-Authenticate and body of responses", "REMOTE_USER"]), level="other",
 note="decision, the three backends and the reload proved for all inputs against the contracts of the hash functions; file parser bounded (9 bytes); hash functions and everything together in the running server")

prop("C23", "Rewrites, redirects, document roots and user directories are computed from the configured patterns",
 "The path, query, Location, document root and physical path the server works with are exactly what the configured patterns say: the first rule whose regex matches the path applies and no other; literals are copied, $n / %n / $[a-b] stand for exactly the existing groups of the current / previous match in the order of the range, for host name labels counted from the end (never empty ones, joined by single dots) in docroot and alias, %{var} for the variable; a rewritten path is simplified and its raw form rebuilt; a request no rule matches stays as it is; a vhost map picks the entry of the host name, a userdir is entered only for valid names and never for root where home directories are looked up.",
 Q(["inputs"], "all patterns and rules, all paths, queries and host names, all match results and ranges"),
 "the tests cover a handful of rules; ranges that are reversed, open or beyond the match, empty labels, nested conditions and rules with queries combine freely",
 A(["src/main/pattern.c", "src/main/plugin_core.c", "src/modules/mod_rewrite.c", "src/modules/mod_redirect.c", "src/modules/mod_vhost.c", "src/modules/mod_userdir.c"], [("li_pattern_eval", "src/main/pattern.c"), ("li_pattern_regex_cb", "src/main/pattern.c"), ("core_docroot_nth_cb", "src/main/plugin_core.c"), ("rewrite", "src/modules/mod_rewrite.c"), ("redirect", "src/modules/mod_redirect.c")], obs=["REQUEST_URI, SCRIPT_FILENAME and DOCUMENT_ROOT seen by a backend, Location header, file served"]), level="other",
 note="pattern evaluation, range callbacks and first-match loops of rewrite and redirect proved for unbounded patterns, ranges and rule lists; host name labels bounded (10); pattern parsing, vhost and userdir compared with a model in the running server")

prop("C17", "Actions run exactly as configured: conditions, branches, captures and options",
 "For every configuration and request the actions of the configuration run in order and exactly once, and exactly the branch a condition selects is entered: a condition compares the current value of its variable (request, physical file, response, environment) with the configured operator and operand - text, regex, number, truth value or network of the same address family - and 'and', 'or', 'not', 'else', named blocks and maps combine them as documented; the captures of a matching regex are visible inside the block and for its else branches as documented, and never outside; an action that has to wait is resumed where it stopped, an error ends the request; options have the configured value afterwards.",
 Q(["inputs", "histories"], "all trees of actions and conditions of any depth, all values of all variables, all results of condition and action callbacks"),
 "a test runs a few conditions; the action stack, its captures and resumption depend on nesting, on what callbacks push and on where they wait",
 A(["src/main/actions.c", "src/main/condition.c", "src/main/config_parser.rl", "src/main/plugin_core.c"], [("li_action_execute", "src/main/actions.c"), ("action_stack_pop", "src/main/actions.c"), ("li_condition_check", "src/main/condition.c"), ("li_condition_get_value", "src/main/condition.c")], obs=["which actions left their trace in the response (headers, status, body, environment), and with which captures"]), level="other",
 note="every step of the action machine from an arbitrary stack, every condition check and every variable proved; parsing and compilation of condition trees, maps and the fallback of balancers compared with a model in the running server")
prop("C18", "Limits admit exactly as many requests as configured and every place is given back",
 "limit.con and limit.con_ip never admit more requests at the same time than configured (altogether, or per client address), limit.req and limit.req_ip not more per second; a request is refused only while the limit is reached, with the configured action or 503; every admitted request gives its places back exactly once, however it ends (finished, aborted by the client, lost backend), and only those it holds.",
 Q(["inputs", "histories"], "all limits, client addresses and histories of requests that begin and end"),
 "there are no tests for limits; a lost or doubled decrement shows only after a history of refused and aborted requests, as a server that refuses everybody or nobody",
 A(["src/modules/mod_limit.c"], [("mod_limit_action_handle", "src/modules/mod_limit.c"), ("mod_limit_vrclose", "src/modules/mod_limit.c"), ("mod_limit_timeout_callback", "src/modules/mod_limit.c")], obs=["requests that reach the backend, status of refused requests"]), level="other",
 note="admission, release and expiry proved for arbitrary counters, limits and numbers of held places; concurrency of workers is not explored; whole histories compared with a model in the running server")
prop("C19", "Compressed responses decode to exactly the original, and only clients that accept an encoding get it",
 "With mod_deflate a client that decodes the body according to Content-Encoding gets exactly the bytes of the original response, for every body, split into pieces, block size, output buffer and compression level; a response is encoded only with an encoding which the configuration allows and the client lists in Accept-Encoding without refusing it (q=0), gets a changed entity tag and keeps no Content-Length of the original, and every response that could have been encoded is marked with Vary; responses without a body of their own (206, 304, ...) or with an encoding already stay untouched; a response whose source was cut off never decodes as a complete one.",
 Q(["inputs", "schedules"], "all response bodies, all splits into pieces and all fill levels of the output buffer, all Accept-Encoding values and options"),
 "there are no tests for mod_deflate; lost or doubled output depends on how the compressor's output meets the end of the buffer and on which piece ends the body",
 A(["src/modules/mod_deflate.c"], [("deflate_filter_zlib", "src/modules/mod_deflate.c"), ("deflate_filter_bzip2", "src/modules/mod_deflate.c"), ("deflate_handle", "src/modules/mod_deflate.c"), ("header_to_encoding_mask", "src/modules/mod_deflate.c")], obs=["response headers and the decoded body"]), level="other",
 note="both filters proved for arbitrary call states, block sizes and buffers against the interface of zlib and libbz2; the choice of the encoding for up to 2 Accept-Encoding headers, their parsing for up to 9 bytes (bounded); whole responses decoded and compared in the running server")

prop("C20", "Every answered request leaves exactly one access log line that the client can not forge",
 "With accesslog configured every request whose head can be parsed and that gets an answer (with any status, also when the client goes away while it is sent) leaves exactly one line, made of the entries of accesslog.format in their order; whatever a client or backend can choose (request line, path, query, file name, headers, environment, user) appears in it only as printable ASCII without quotes and without line ends: quotes and backslashes are escaped with a backslash and other bytes as \\xHH, so that every value decodes back to exactly the original and one request can neither end its line nor its quoted field; an absent value is '-'.",
 Q(["inputs", "histories"], "all log formats, all bytes of all values of requests and responses, all ways a request ends"),
 "there are no tests for the access log; a forged line needs particular bytes in particular fields, a lost or doubled one a particular end of the request",
 A(["src/modules/mod_accesslog.c"], [("al_append_escaped", "src/modules/mod_accesslog.c"), ("al_format_log", "src/modules/mod_accesslog.c"), ("al_handle_vrclose", "src/modules/mod_accesslog.c")], obs=["lines of the access log"]), level="other",
 note="escaping proved for strings of any length, every kind of entry in formats of any length, one line per closed request; formats and hostile requests compared with a model in the running server")

prop("C21", "Throttled connections never get more than their rate, burst and pools allow, and none of them starves",
 "With io.throttle a connection is never allowed to send more than burst + rate * time (since the limit was set) + 8 KiB, and within any other period 64 KiB and what the rate gives in 0.2 s more than that; connections that share a pool (io.throttle_pool, io.throttle_ip) together never more than burst + rate * time (since the pool exists) + 8 KiB each, no matter how many workers serve them, how their cached clocks differ and in which order they ask: what is granted is deducted from the connection and from each of its pools, elapsed time is turned into credit once, and credit handed out is missing in the pool. A connection that gets nothing waits to be notified and gets its share after the next refill, also when the millisecond counter wraps.",
 Q(["inputs", "schedules", "histories"], "all rates, bursts, numbers of pools, workers and connections, all histories of queries and clocks"),
 "there are no tests for throttling; limits are exceeded or connections starve only for particular interleavings of workers, clock differences and counter values",
 A(["src/main/throttle.c"], [("li_throttle_query", "src/main/throttle.c"), ("throttle_pool_rearm", "src/main/throttle.c"), ("S_throttle_pool_rearm_workers", "src/main/throttle.c")], obs=["number of bytes a connection may send, notification of waiting connections"]), level="other",
 note="query and distribution of credit proved for any number of pools and waiting connections, all clocks (including a refill by another worker in between); amounts and shares bounded (small rates, 3 workers); random histories of several workers natively; that a socket write stays within its grant is not claimed")

# --- text for DESIGN.md: how the property is decided
D = {
"C01": "`li_url_decode` against a byte-wise specification of percent decoding run in lock step as ghost code (`li_spec_urldecode_step`), for an arbitrary output index; `li_path_simplify` for an arbitrary index: no segment starting there is empty, `.` or `..`, plus memory safety in a second pass (content part of the invariant dropped). Strings up to 1 MB (size_t arithmetic never wraps; no unrolling). The url parser glue and equality of the simplified path with a reference implementation run in native/C01.c (exhaustive short strings over the critical alphabet, then random).",
"C02": "The decoder's loop carries the state of a specification automaton fed with the same byte (ghost); the invariant ties the C state machine to the automaton for unbounded input, every split is covered because the loop starts from an arbitrary reachable state. The encoder is checked for every length below 2^63. native/C02.c replays against a reference parser with random splits.",
"C03": "Queues are lists of unknown length: the loop contracts carry bytes moved, chunk count and limit accounting; the list operations are stubs with the contract of GQueue over an abstract list. Postconditions: length, bytes_in/out, mem_usage and the shared limit for each operation. Contents of reads are compared in native/C03.c (random histories with files, several queues, shared limits, ASan).",
"C04": "`core_handle_static` with file attributes, ranges, stat results arbitrary: chunk ranges appended to the response, headers and fd ownership are recorded by the stubs and compared with the RFC semantics. The range parser (table driven ragel output of the same grammar) from every state. native/C04.c: exhaustive short Range values, sizes near 2^63; e2e/C04.py: real files.",
"C05": "The sanitizer loop against a ghost automaton for all lengths; entries constructed from sanitised values for all lengths; lookups on bounded lists. native/C05.c compares random operation histories with a model.",
"C06": "`li_request_validate_header` against a functional specification of accept/refuse and the resulting framing, with header values abstracted to what strtoll/strcasecmp report; the parser itself (ragel, goto driven) in native/C06.c with all splits, grammar based heads and a reference parser.",
"C07": "Contracts of the six functions that frame messages, each against the contracts of C02/C03/C05; composition is executed by e2e/C07.py: random pipelined requests and generated backend responses (lengths, chunked, truncated, garbage) cut at random places, every byte on the client connection compared with a reference.",
"C08": "Decision functions over all combinations of header lookups and date parse results; `li_etag_set_header` hash inputs recorded; e2e changes files (size, mtime, inode) and compares tags and status with a model. Cost 20 s.",
"C09": "Radix operations from every well-formed tree of bounded size against an abstract map (arbitrary probe key); network membership functions loop free, all inputs. native/C09.c: reference address parser, random histories; e2e/C09.py: access rules and remote-ip conditions.",
"C10": "Each operation from every queue of up to 4 elements: the constant time operations touch only neighbours, so all aliasing cases occur. native/C10.c: long histories with a simulated clock.",
"C11": "Representation invariant (bit set = used, hint below first free, count) preserved from every state with up to 128 ids.",
"C12": "The encoders against the table of safe bytes; e2e/C12.py parses generated pages and compares names and links with the directory; native/C12.c round trips.",
"C14": "FastCGI writer: ghost record automaton (announced, sent, padding) in the loop contracts of `stream_send_data` / `stream_send_chunks`; reader: `fastcgi_decode` for any queue length and any reachable state against a ghost record automaton (header consumed, content left, padding left, stdout ended, request done), every callee call checked: only stdout content reaches the response, nothing is read past a record, a response is complete only after an end request record or an orderly close, a closed connection never leaves the request pending. CGI variables: `li_environment_dup2cgi` over an abstract request. e2e/C14.py: FastCGI, SCGI and HTTP backends written in python compare everything they get, and answer with random records.",
}
D["C16"] = "`auth_basic` with decoded credentials of any length and any position of the first colon and NUL: the backend gets exactly the two parts, its answer alone decides; each backend compares exactly the stored entry with the password / the hash of the password made with the stored salt; `auth_file_get_data` for all times, mtimes and load results; the parser against a line-based specification. e2e/C16.py has its own apr1 / sha / htdigest implementation and rewrites files while the server runs."
D["C23"] = "Loop contracts on the real loops of `li_pattern_array_cb`, `li_pattern_regex_cb` (ghost counter: the k-th index handled is from+k / from-k, the number is that of existing indices in the range), `li_pattern_eval` (every part once, in order, callee chosen by the part) and of `rewrite` / `redirect` (no rule after the first match, the whole effect of a match and none without). `core_docroot_nth_cb` bounded by the number of labels. e2e/C23.py: random rules, conditions, hosts and paths against a Python model (re module), read back with a respond pattern naming the request and physical paths."
D["C17"] = "`li_action_execute`: one iteration of the real loop from an arbitrary stack (any depth, any action on top, any callback results; a ghost hook at the loop head ends the step at the second iteration, so the proof is inductive over iterations without bound); pushing may move the array, a stale pointer into the old one fails an obligation. `li_condition_check` with all operators and value types, `li_condition_get_value` for every variable. The step with a failed backend (balancer fallback) and compilation of condition trees by the parser are only compared in e2e/C17.py: random trees of if/else/and/or/not, blocks, maps, environment changes, respond and set_status against a Python model, trace of actions with captures in response headers."
D["C18"] = "`mod_limit_action_handle` for an arbitrary counter, limit, type and address family: counter, list of places, reference count, lock and refusal; `mod_limit_vrclose`: one iteration for an arbitrary index of an arbitrary number of places (ghost hook at the loop head havocs the index: inductive), `mod_limit_timeout_callback`. e2e/C18.py: random histories with a held backend (finish, client abort, lost backend, keep-alive reuse, several addresses); admission above the limit fails at once, a refusal while the model has free places only if it persists for 5 s."
D["C19"] = "`deflate_filter_zlib` and `deflate_filter_bzip2` from an arbitrary call state: ghost counters say how many bytes were taken, compressed, covered by the checksum, produced and passed on; three hooks per filter (read loop, compression loop, finishing loop) check the invariant, havoc the state to an arbitrary one satisfying it and check it again after one iteration (induction, no bound). Postconditions: everything taken was compressed once and in order, the buffer is passed on completely and once, gzip header first and footer (checksum, length) last, the receiver sees the end only behind the end of the encoding. `deflate_handle`: statuses, existing encodings, HEAD, entity tag and the match of filter and announced encoding; `header_to_encoding_mask` against the grammar (bounded). e2e/C19.py: random bodies, pieces, framings, aborted backends, files that shrink, options and Accept-Encoding values; decoded with Python's zlib and bz2."
D["C20"] = "`al_append_escaped`: loop contract over a string of any length with a ghost automaton of the decoder (plain, after backslash, in hex digits): what was written so far decodes to what was read, and no byte written is a quote, a control character or above 0x7e except as the announced escape. `al_format_log`: one entry of an arbitrary format and an arbitrary request (ghost hook at the loop head, inductive): each kind of entry appends the right value, values under control of clients only through the escaping function. `al_handle_vrclose`: exactly one line, only for answered requests. e2e/C20.py: random formats, requests with arbitrary bytes in paths, queries, headers, aborted and failing requests; the log is parsed and decoded and compared with what was sent. Not claimed: `%b` / `%B` count the response header too (the documentation says otherwise); requests refused while parsing (400) leave no line. Cost 40 s."
D["C21"] = "`li_throttle_query`: loop contracts on both loops over the pools (any number; one arbitrary pool is tracked, all others are arbitrary at each access): what is taken is the same for the bucket of the connection and for the account with every pool, none is overdrawn, a connection that gets nothing is registered with each pool that ran short and queued for notification. `throttle_pool_rearm`: real times are 64 bit ghosts, the code sees their low 32 bits; another worker may refill before the lock is taken (arbitrary interleaving of the one shared decision); the refill never counts time twice, the list of waiting connections (any length, loop contract) is emptied and each gets the share. Arithmetic of amounts (nonlinear) with small rates (bounded) and in native/C21.c: random histories of 1 to 4 workers with skewed clocks around the wrap of the counter. Cost 40 s."
SEEDS = {
's01-trailing-dot': 'contract units of C01 and its replay against the running code',
's02-chunklen-overflow': 'contract units of C02 and its replay against the running code',
's03-steal-string-twice': 'contract units of C03 and its replay against the running code',
's04-invalid-tail': 'e2e/C04.py',
's05-append-first': 'contract units of C05 and its replay against the running code',
's06-cl-over-te': 'contract units of C06 and its replay against the running code',
's07-10-keepalive': 'e2e/C07.py',
's08-ims-clock': 'contract of the cachable decision and e2e/C08.py',
's09-layer-compact': 'contract units of C09 and its replay against the running code',
's10-repush-tail': 'contract units of C10 and its replay against the running code',
's11-put-second-last': 'contract units of C11 and its replay against the running code',
's12-exclude-short': 'e2e/C12.py (missed at first: generated names and exclude rules were extended)',
's14-big-params': 'contract units of C14 and its replay against the running code',
's14-split-padding': 'contract units of C14 and its replay against the running code',
's16-cr': 'contract units of C16 and its replay against the running code',
's16-reload-broken': 'contract units of C16 and its replay against the running code',
's16-sha-prefix': 'contract units of C16 and its replay against the running code',
's17-big-file': 'unit cond_value and e2e/C17.py',
's17-keep-first': 'contract units of C17 and its replay against the running code',
's17-unix-notip': 'unit cond_check',
's18-refused-holds': 'contract units of C18 and its replay against the running code',
's18-refused-leak': 'contract units of C18 and its replay against the running code',
's19-bz-finish': 'contract units of C19 and its replay against the running code',
's19-crc-call': 'contract units of C19 and its replay against the running code',
's19-finish-once': 'contract units of C19 and its replay against the running code',
's19-range': 'contract units of C19 and its replay against the running code',
's20-aborted': 'unit log_request (no failing input: the client side sees nothing)',
's20-backslash': 'contract units of C20 and its replay against the running code',
's20-hex-digit': 'contract units of C20 and its replay against the running code',
's20-resp-raw': 'contract units of C20 and its replay against the running code',
's21-burst-cap': 'units throttle_query and throttle_refill, native/C21.c (missed by the native part at first: only totals were compared)',
's21-early-stamp': 'unit throttle_rearm and native/C21.c',
's21-last-pool': 'unit throttle_query and native/C21.c',
's23-empty-query': 'contract units of C23 and its replay against the running code',
's23-label-order': 'e2e/C23.py',
}
