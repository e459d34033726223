From f79906b55c5aca24f7cb3542f4c5e95bc145c8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:17 +0000
Subject: [PATCH 01/67] fix: url decode: only accept real hex digits in %XX
 escapes

hex2int() returned values other than -1 for characters below '0' (negative
numbers) and for ':' .. '?' (10 .. 15), so e.g. "%:0" decoded to 0xa0 and
"%2 " decoded to 0xf0.
---
 src/common/utils.c | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/common/utils.c b/src/common/utils.c
index 1ab5ce0..ac93c2e 100644
--- a/src/common/utils.c
+++ b/src/common/utils.c
@@ -310,20 +310,11 @@ gint li_receive_fd(gint s, gint *fd) { /* read fd from unix socket s */
  * returns -1 on invalid input.
  */
 static int hex2int(unsigned char hex) {
-	int res;
-	if (hex >= 'A') { /* 'A' < 'a': hex >= 'A' --> hex >= 'a' */
-		if (hex >= 'a') {
-			res = hex - 'a' + 10;
-		} else {
-			res = hex - 'A' + 10;
-		}
-	} else {
-		res = hex - '0';
-	}
-	if (res > 15)
-		res = -1;
+	if (hex >= '0' && hex <= '9') return hex - '0';
+	if (hex >= 'a' && hex <= 'f') return hex - 'a' + 10;
+	if (hex >= 'A' && hex <= 'F') return hex - 'A' + 10;
 
-	return res;
+	return -1;
 }
 
 void li_url_decode(GString *path) {
-- 
2.43.0


From feb1b9f5056e9efbe9fd88b75b5bdb6079e5719a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:17 +0000
Subject: [PATCH 02/67] fix: url decode: don't leave undecoded tail after
 truncated escape

A truncated %-escape at the end of the string returned without truncating the
(in-place decoded) string: "%41%4" became "A41%4" instead of "A".
---
 src/common/utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/utils.c b/src/common/utils.c
index ac93c2e..263fece 100644
--- a/src/common/utils.c
+++ b/src/common/utils.c
@@ -332,8 +332,8 @@ void li_url_decode(GString *path) {
 				}
 				src += 2;
 			} else {
-				/* end of string */
-				return;
+				/* truncated escape at end of string: drop it */
+				break;
 			}
 		} else {
 			if (c < 32 || c == 127) c = '_';
-- 
2.43.0


From 885d41ed235186a1d88b59be69a233bd5d6258c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:17 +0000
Subject: [PATCH 03/67] fix: path simplify: empty path becomes "/" without
 embedded NUL

For an empty (or blank) path the code read one byte past the terminating NUL
and produced a string of length 2: '/' followed by a NUL byte.
---
 src/common/utils.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/common/utils.c b/src/common/utils.c
index 263fece..684e9ef 100644
--- a/src/common/utils.c
+++ b/src/common/utils.c
@@ -365,6 +365,12 @@ void li_path_simplify(GString *path) {
 		walk++;
 	}
 
+	if (*walk == '\0') {
+		/* empty path */
+		g_string_assign(path, "/");
+		return;
+	}
+
 	pre1 = *(walk++);
 	c    = *(walk++);
 	pre  = pre1;
@@ -374,11 +380,6 @@ void li_path_simplify(GString *path) {
 	}
 	*(out++) = pre1;
 
-	if (pre1 == '\0') {
-		g_string_set_size(path, out - start);
-		return;
-	}
-
 	while (1) {
 		if (c == '/' || c == '\0') {
 			toklen = out - slash;
-- 
2.43.0


From 72a9666ba547962049af31cb1234e5db9100f9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:31 +0000
Subject: [PATCH 04/67] fix: url parser: '#' starts the fragment, don't
 duplicate the path

'#' was allowed inside path and query ("delims"), which made the grammar
ambiguous: the path/query was saved when reaching the '#' and again at the end
of the input, so "/a#b" resulted in the path "/a/a#b" and "/a?x#y" in the
query "xx#y".
---
 src/main/url_parser.rl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/url_parser.rl b/src/main/url_parser.rl
index 37de7cb..ebbdef8 100644
--- a/src/main/url_parser.rl
+++ b/src/main/url_parser.rl
@@ -42,7 +42,8 @@
 	unreserved  = alpha | digit | "-" | "." | "_" | "~";
 
 	# many clients don't encode these, e.g. curl, wget, ...
-	delims      = "<" | ">" | "#" | "%" | '"';
+	# ('#' is not part of this: it always starts the fragment)
+	delims      = "<" | ">" | "%" | '"';
 	unwise      = " " | "{" | "}" | "|" | "\\" | "^" | "[" | "]" | "`";
 
 	pchar = unreserved | pct_encoded | sub_delims | ":" | "@" | delims | unwise;
@@ -70,7 +71,7 @@
 	authority   = ( userinfo "@" )? (host >mark_host %save_host) ( ":" port )?;
 
 	query = ( pchar | "/" | "?" )* >mark %save_query;
-	fragment = ( pchar | "/" | "?" )*;
+	fragment = ( pchar | "/" | "?" | "#" )*;
 
 	URI_path = (path ( "?" query )?) ( "#" fragment )?;
 
-- 
2.43.0


From d5bb8f20dc4d1409c3808f2039434395fa0b3e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:42 +0000
Subject: [PATCH 05/67] verification hooks: loop contracts for url decode /
 path simplify (guard LI_VERIFY)

---
 include/lighttpd/settings.h | 12 ++++++++++++
 src/common/utils.c          | 35 +++++++++++++++++++++++++++++++----
 2 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/include/lighttpd/settings.h b/include/lighttpd/settings.h
index 6bb02af..739d1de 100644
--- a/include/lighttpd/settings.h
+++ b/include/lighttpd/settings.h
@@ -177,6 +177,18 @@
 
 #define INLINE static HEDLEY_INLINE
 
+/* verification hooks: loop contracts and ghost code. LI_VERIFY is only defined by
+ * the deductive verifier (which provides li_verify.h); in all builds they expand to nothing.
+ */
+#ifdef LI_VERIFY
+# include <li_verify.h>
+#else
+# define LI_LOOP_ASSIGNS(...)
+# define LI_LOOP_INVARIANT(...)
+# define LI_LOOP_DECREASES(...)
+# define LI_GHOST(...)
+#endif
+
 #ifdef PACKAGE_NO_BUILD_DATE
 # undef PACKAGE_BUILD_DATE
 # define PACKAGE_BUILD_DATE "(build date not available)"
diff --git a/src/common/utils.c b/src/common/utils.c
index 684e9ef..f2315b4 100644
--- a/src/common/utils.c
+++ b/src/common/utils.c
@@ -320,7 +320,15 @@ static int hex2int(unsigned char hex) {
 void li_url_decode(GString *path) {
 	unsigned char *src, *dst, c;
 	src = dst = (unsigned char*) path->str;
-	for ( ; *src; src++) {
+	for ( ; *src; src++)
+		LI_LOOP_ASSIGNS(src, dst, c, LI_OBJECT(path->str), li_g)
+		LI_LOOP_INVARIANT(LI_PTR_IN(src, path->str, path->len) && LI_PTR_IN(dst, path->str, LI_PTR_OFF(src)))
+		LI_LOOP_INVARIANT(path->str[path->len] == '\0')
+		LI_LOOP_INVARIANT(li_g.in == LI_PTR_OFF(src) && li_g.out == LI_PTR_OFF(dst))
+		LI_LOOP_INVARIANT(li_vk >= LI_PTR_OFF(dst) || ((unsigned char) path->str[li_vk] == li_g.byte && !LI_SPEC_CTRL(li_g.byte)))
+		LI_LOOP_DECREASES(path->len - LI_PTR_OFF(src))
+	{
+		LI_GHOST(li_spec_urldecode_step(src));
 		c = *src;
 		if (c == '%') {
 			if (src[1] && src[2]) {
@@ -361,7 +369,11 @@ void li_path_simplify(GString *path) {
 		return;
 
 	walk = start = out = slash = path->str;
-	while (*walk == ' ') {
+	while (*walk == ' ')
+		LI_LOOP_ASSIGNS(walk)
+		LI_LOOP_INVARIANT(LI_PTR_IN(walk, start, path->len))
+		LI_LOOP_DECREASES(path->len - LI_PTR_OFF(walk))
+	{
 		walk++;
 	}
 
@@ -380,14 +392,29 @@ void li_path_simplify(GString *path) {
 	}
 	*(out++) = pre1;
 
-	while (1) {
+	/* [start, slash]: simplified prefix ending in '/'; (slash, out): current segment without '/' */
+	while (1)
+		LI_LOOP_ASSIGNS(toklen, c, pre1, slash, walk, out, pre, LI_OBJECT(path->str))
+		LI_LOOP_INVARIANT(LI_PTR_IN(out, start, path->len + 1) && LI_PTR_IN(slash, start, LI_PTR_OFF(out)) && LI_PTR_OFF(slash) < LI_PTR_OFF(out) && LI_PTR_IN(walk, start, path->len + 1) && LI_PTR_OFF(out) <= LI_PTR_OFF(walk))
+		LI_LOOP_INVARIANT(c == '\0' || (LI_PTR_OFF(walk) <= path->len && path->str[path->len] == '\0'))
+		LI_LOOP_INVARIANT(*start == '/' && *slash == '/')
+		LI_LOOP_INVARIANT(li_vk >= LI_PTR_OFF(slash) || !LI_SPEC_BAD_SEGMENT(start, LI_PTR_OFF(slash) + 1, li_vk))
+		LI_LOOP_INVARIANT(LI_NO_SLASH_AT(li_vk) && LI_NO_SLASH_AT(li_vk + 1) && LI_NO_SLASH_AT(li_vk + 2) && LI_NO_SLASH_AT(li_vk + 3))
+		LI_LOOP_INVARIANT((pre & 0xff) == (unsigned char) out[-1])
+		LI_LOOP_INVARIANT(LI_PTR_OFF(out) < LI_PTR_OFF(slash) + 2 || (out[-1] & 0x80) || (pre >> 8) == (unsigned char) out[-2])
+		LI_LOOP_DECREASES(2 * (path->len + 2 - LI_PTR_OFF(walk)) + (c != '\0'))
+	{
 		if (c == '/' || c == '\0') {
 			toklen = out - slash;
 			if (toklen == 3 && pre == (('.' << 8) | '.')) {
 				out = slash;
 				if (out > start) {
 					out--;
-					while (out > start && *out != '/') {
+					while (out > start && *out != '/')
+						LI_LOOP_ASSIGNS(out)
+						LI_LOOP_INVARIANT(LI_PTR_IN(out, start, LI_PTR_OFF(slash)) && LI_PTR_OFF(out) < LI_PTR_OFF(slash))
+						LI_LOOP_DECREASES(LI_PTR_OFF(out))
+					{
 						out--;
 					}
 				}
-- 
2.43.0


From 7c39c8430c281867309d98da2b8dfe74053d6331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:54 +0000
Subject: [PATCH 06/67] fix: radix tree: remove of keys longer than 32 bits

When descending to the next 32-bit layer the child was still selected by the
first bit of the previous layer, so entries with long keys (IPv6 addresses)
often were not found and never removed.
---
 src/common/radix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/radix.c b/src/common/radix.c
index c86b718..107c77a 100644
--- a/src/common/radix.c
+++ b/src/common/radix.c
@@ -211,7 +211,7 @@ static gpointer radixtree_remove(liRadixNode **nodeptr, rdxBase *input, guint32
 
 	if (mask & 0x1) {
 		/* next "layer" */
-		input++;
+		current = *(++input);
 		bits -= RDXBITS;
 		nextnode = (current & RDX_BIT(0)) ? &node->right : &node->left;
 	} else {
-- 
2.43.0


From 99ab61c1732292ec7cada7d9738c0210fbeec5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:54 +0000
Subject: [PATCH 07/67] fix: idlist: start search for a free id at the correct
 bit

The bit index inside an array entry is id % UL_BITS, not id / UL_BITS; with
more than 64*64 ids in use the search started behind the free bit (assertion
or a wrong id).
---
 src/common/idlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/idlist.c b/src/common/idlist.c
index 7504c53..ed244ed 100644
--- a/src/common/idlist.c
+++ b/src/common/idlist.c
@@ -77,7 +77,7 @@ gint li_idlist_get(liIDList *l) {
 	}
 
 	/* array entry != -1, search for free bit */
-	if (fndx == ndx) bndx = (l->next_free_id / UL_BITS) - 1;
+	if (fndx == ndx) bndx = (gint) (l->next_free_id % UL_BITS) - 1;
 	else bndx = -1;
 	bndx = g_bit_nth_lsf(~u, bndx);
 
-- 
2.43.0


From 1a467be55379ab743017493912bbd5638b09ecc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:54 +0000
Subject: [PATCH 08/67] fix: ip parser: store the result of uncompressed ipv6
 addresses

li_parse_ipv6() returned TRUE without ever writing the address for all
addresses not using the "::" notation.
---
 src/common/ip_parsers.rl | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/ip_parsers.rl b/src/common/ip_parsers.rl
index aef15e6..f26e0cb 100644
--- a/src/common/ip_parsers.rl
+++ b/src/common/ip_parsers.rl
@@ -134,7 +134,11 @@ gboolean li_parse_ipv6(const char *str, guint8 *ip, guint *network, guint16 *por
 	%% write exec noend;
 
 	if (!res || cs < ipv6_parser_first_final) return FALSE;
-	if (!compressed) return (prec == 8);
+	if (!compressed) {
+		if (prec != 8) return FALSE;
+		memcpy(ip, predata, 16);
+		return TRUE;
+	}
 	if (prec + postc > 7) return FALSE;
 	for ( ; prec < 8-postc; prec++) predata[prec] = 0;
 	for (postc = 0 ; prec < 8; prec++, postc++ ) predata[prec] = postdata[postc];
-- 
2.43.0


From 5c6010d3d97f5e48b7cb0b2847bd09d3d9a5b075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:54 +0000
Subject: [PATCH 09/67] fix: ip parser: decimal numbers must not wrap around

The value of a decimal number overflowed (undefined behaviour) and could wrap
into the allowed range: "4294967297.0.0.1" was parsed as 1.0.0.1.
---
 src/common/ip_parsers.rl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/ip_parsers.rl b/src/common/ip_parsers.rl
index f26e0cb..cd03f73 100644
--- a/src/common/ip_parsers.rl
+++ b/src/common/ip_parsers.rl
@@ -5,7 +5,7 @@
 	machine ipv4_parser;
 
 	action dc_start { tmpval = 0; }
-	action dc_step { tmpval = 10*tmpval + (fc - '0'); }
+	action dc_step { if (tmpval < 100000) tmpval = 10*tmpval + (fc - '0'); /* all limits are below */ }
 
 	decint = (digit digit**) >dc_start $dc_step;
 	octet = decint %{
@@ -58,7 +58,7 @@ gboolean li_parse_ipv4(const char *str, guint32 *ip, guint32 *netmask, guint16 *
 	action mark { mark = fpc; }
 
 	action dc_start { tmpval = 0; }
-	action dc_step { tmpval = 10*tmpval + (fc - '0'); }
+	action dc_step { if (tmpval < 100000) tmpval = 10*tmpval + (fc - '0'); /* all limits are below */ }
 
 	decint = (digit digit**) >dc_start $dc_step;
 	octet = decint %{
-- 
2.43.0


From 1b6c1104390ad6fe645442b6875d1a66b3183102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:41 +0000
Subject: [PATCH 10/67] fix: chunked encoding: chunk length needs up to 16 hex
 digits

lengths >= 2**32 lost their high digits.
---
 src/main/filter_chunked.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/filter_chunked.c b/src/main/filter_chunked.c
index e165788..75f3d39 100644
--- a/src/main/filter_chunked.c
+++ b/src/main/filter_chunked.c
@@ -8,7 +8,7 @@ static void http_chunk_append_len(liChunkQueue *cq, size_t len) {
 
 	a = g_byte_array_sized_new(sizeof(len) * 2 + 2);
 
-	for (i = 0; i < 8 && len; i++) {
+	for (i = 0; i < 2 * sizeof(len) && len; i++) {
 		len >>= 4;
 	}
 
-- 
2.43.0


From b1abf7308e65ffa0419fb5ef22802f737a1a3af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:41 +0000
Subject: [PATCH 11/67] fix: chunked decoding: truncated chunk data is an error

---
 src/main/filter_chunked.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/filter_chunked.c b/src/main/filter_chunked.c
index 75f3d39..6fb961a 100644
--- a/src/main/filter_chunked.c
+++ b/src/main/filter_chunked.c
@@ -141,6 +141,7 @@ gboolean li_filter_chunked_decode(liVRequest *vr, liChunkQueue *out, liChunkQueu
 					state->parse_state = 20;
 				}
 			} else {
+				if (in->is_closed) goto error; /* truncated chunk */
 				/* wait for more data for the current chunk */
 				return TRUE;
 			}
-- 
2.43.0


From 0b22ae328931d884bcc7c5171f5bdd5a78f7b48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:41 +0000
Subject: [PATCH 12/67] fix: chunkqueue steal chunk: move memory usage between
 queues sharing a limit

otherwise the next update of the source queue hits the mem_usage assertion.
---
 src/main/chunk.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main/chunk.c b/src/main/chunk.c
index 3308d9e..e601ea1 100644
--- a/src/main/chunk.c
+++ b/src/main/chunk.c
@@ -762,6 +762,14 @@ goffset li_chunkqueue_steal_chunk(liChunkQueue *out, liChunkQueue *in) {
 			cqlimit_update(out, c->data.buffer.length);
 			cqlimit_update(in, - (goffset)c->data.buffer.length);
 		}
+	} else {
+		/* shared limit: only move the usage between the queues */
+		goffset mem = 0;
+		if (c->type == STRING_CHUNK) mem = c->data.str->len;
+		else if (c->type == MEM_CHUNK) mem = c->mem->len;
+		else if (c->type == BUFFER_CHUNK) mem = c->data.buffer.length;
+		out->mem_usage += mem;
+		in->mem_usage -= mem;
 	}
 	return length;
 }
-- 
2.43.0


From 32e7d43e7b1baee50e6b058efe74dc41e7ee022b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:41 +0000
Subject: [PATCH 13/67] fix: chunkqueue extract to memory: dest isn't a
 GByteArray

---
 src/main/chunk.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/main/chunk.c b/src/main/chunk.c
index e601ea1..aad478e 100644
--- a/src/main/chunk.c
+++ b/src/main/chunk.c
@@ -876,7 +876,6 @@ gboolean li_chunkqueue_extract_to_memory(liChunkQueue *cq, goffset len, void *de
 	return TRUE;
 
 error:
-	g_byte_array_set_size(dest, 0);
 	return FALSE;
 }
 
-- 
2.43.0


From 314a6b8e7cfde716220ab02975516ee09d9148d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:41 +0000
Subject: [PATCH 14/67] fix: waitqueue pop ready: unlink popped elements from
 both sides

if nothing is ready don't return the (still queued) head.
---
 src/common/waitqueue.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/waitqueue.c b/src/common/waitqueue.c
index 966b9d6..6980317 100644
--- a/src/common/waitqueue.c
+++ b/src/common/waitqueue.c
@@ -167,8 +167,11 @@ guint li_waitqueue_pop_ready(liWaitQueue *queue, liWaitQueueElem **head) {
 
 			if (elem->prev) {
 				elem->prev->next = NULL;
+				elem->prev = NULL;
 			}
 
+			if (0 == i) *head = NULL;
+
 			return i;
 		}
 
-- 
2.43.0


From 279bdc0052372459dcfdfdaa17ef9f5ba7efedf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:41 +0000
Subject: [PATCH 15/67] fix: http headers: remove CR/LF from values on append
 and overwrite too

---
 src/main/http_headers.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/http_headers.c b/src/main/http_headers.c
index 9d6b0ae..9fe226d 100644
--- a/src/main/http_headers.c
+++ b/src/main/http_headers.c
@@ -140,6 +140,7 @@ void li_http_header_append(liHttpHeaders *headers, const gchar *key, size_t keyl
 		s = h->data->str + oldlen;
 		memcpy(s, ", ", 2);
 		memcpy(s+2, val, valuelen);
+		_http_header_sanitize(h);
 	}
 }
 
@@ -156,6 +157,7 @@ void li_http_header_overwrite(liHttpHeaders *headers, const gchar *key, size_t k
 		g_string_set_size(h->data, keylen + 2 + valuelen);
 		/* only overwrite value */
 		memcpy(h->data->str + keylen + 2, val, valuelen);
+		_http_header_sanitize(h);
 	}
 }
 
-- 
2.43.0


From 5a19f21977a411048777ec73ad7ac43bbd7299f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:41 +0000
Subject: [PATCH 16/67] fix: request: reject GET/HEAD with chunked request body

the body was handled as next request on the connection.
---
 src/main/request.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/request.c b/src/main/request.c
index 86a0cbb..a55af6d 100644
--- a/src/main/request.c
+++ b/src/main/request.c
@@ -281,7 +281,7 @@ gboolean li_request_validate_header(liConnection *con) {
 	case LI_HTTP_METHOD_GET:
 	case LI_HTTP_METHOD_HEAD:
 		/* content-length is forbidden for those */
-		if (con->mainvr->request.content_length > 0) {
+		if (con->mainvr->request.content_length > 0 || transfer_encoding_chunked) {
 			VR_ERROR(con->mainvr, "%s", "GET/HEAD with content-length -> 400");
 
 			bad_request(con, 400); /* bad request */
-- 
2.43.0


From 8a34d0fa17ebc82423196c458ed6b7723366af36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:41 +0000
Subject: [PATCH 17/67] fix: request: only accept digits and no conflicting
 values in content-length

---
 src/main/request.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/main/request.c b/src/main/request.c
index a55af6d..e38c145 100644
--- a/src/main/request.c
+++ b/src/main/request.c
@@ -188,14 +188,17 @@ gboolean li_request_validate_header(liConnection *con) {
 	}
 
 	/* content-length */
-	hh = li_http_header_lookup(req->headers, CONST_STR_LEN("content-length"));
-	if (hh) {
-		const gchar *val = LI_HEADER_VALUE(hh);
+	for (l = li_http_header_find_first(req->headers, CONST_STR_LEN("content-length")); l; l = li_http_header_find_next(l, CONST_STR_LEN("content-length"))) {
+		const gchar *val;
 		gint64 r;
 		char *err;
 
+		hh = (liHttpHeader*) l->data;
+		val = LI_HEADER_VALUE(hh);
+
+		errno = 0;
 		r = g_ascii_strtoll(val, &err, 10);
-		if (*err != '\0') {
+		if (!g_ascii_isdigit(*val) || *err != '\0') {
 			_VR_DEBUG(con->srv, con->mainvr, "content-length is not a number: %s (Status: 400)", err);
 			bad_request(con, 400); /* bad request */
 			return FALSE;
@@ -220,6 +223,12 @@ gboolean li_request_validate_header(liConnection *con) {
 			}
 		}
 
+		if (con->mainvr->request.content_length != -1 && con->mainvr->request.content_length != r) {
+			/* conflicting "content-length" headers */
+			bad_request(con, 400); /* bad request */
+			return FALSE;
+		}
+
 		con->mainvr->request.content_length = r;
 	}
 
-- 
2.43.0


From 43f622f8b03135a702ec956c122f2133cf9900f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:41 +0000
Subject: [PATCH 18/67] fix: url parser: scheme of an absolute URI replaces the
 default scheme

---
 src/main/url_parser.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/url_parser.rl b/src/main/url_parser.rl
index ebbdef8..4f8d6dc 100644
--- a/src/main/url_parser.rl
+++ b/src/main/url_parser.rl
@@ -29,7 +29,7 @@
 		li_g_string_append_len(uri->raw_path, mark-1, fpc - mark+1); /* include '?' in append */
 	}
 	action save_scheme {
-		li_g_string_append_len(uri->scheme, mark, fpc - mark);
+		li_string_assign_len(uri->scheme, mark, fpc - mark);
 	}
 
 	pct_encoded = "%" xdigit xdigit;
-- 
2.43.0


From b1395eb3a63f318965f0d34f57ccbc80a72dd1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:41 +0000
Subject: [PATCH 19/67] fix: pattern: reverse ranges of split results access
 one element too much

---
 src/main/pattern.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/pattern.c b/src/main/pattern.c
index d82ff9f..967ee6e 100644
--- a/src/main/pattern.c
+++ b/src/main/pattern.c
@@ -320,7 +320,7 @@ void li_pattern_array_cb(GString *pattern_result, guint from, guint to, gpointer
 		}
 	} else {
 		from = MIN(from, a->len - 1); /* => from+1 is defined */
-		for (i = from + 1; i-- >= to; ) {
+		for (i = from + 1; i-- > to; ) {
 			GString *str = g_array_index(a, GString*, i);
 			if (NULL != str) {
 				li_g_string_append_len(pattern_result, GSTR_LEN(str));
-- 
2.43.0


From b358081678e71ec981515392a8de8978b5b01608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:41 +0000
Subject: [PATCH 20/67] fix: pattern: ranges of regex captures have to
 terminate

reverse ranges down to 0 never ended, open ranges took 2**31 steps.
---
 src/main/pattern.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/main/pattern.c b/src/main/pattern.c
index 967ee6e..6e1e081 100644
--- a/src/main/pattern.c
+++ b/src/main/pattern.c
@@ -332,20 +332,24 @@ void li_pattern_array_cb(GString *pattern_result, guint from, guint to, gpointer
 void li_pattern_regex_cb(GString *pattern_result, guint from, guint to, gpointer data) {
 	GMatchInfo *match_info = data;
 	guint i;
-	gint start_pos, end_pos;
+	gint start_pos, end_pos, count;
 
 	if (NULL == match_info) return;
 
+	/* also needed to terminate in reasonable time for open ranges */
+	count = g_match_info_get_match_count(match_info);
+	if (count <= 0) return;
+
 	if (HEDLEY_LIKELY(from <= to)) {
-		to = MIN(to, G_MAXINT);
+		to = MIN(to, (guint) count - 1);
 		for (i = from; i <= to; i++) {
 			if (g_match_info_fetch_pos(match_info, (gint) i, &start_pos, &end_pos)) {
 				li_g_string_append_len(pattern_result, g_match_info_get_string(match_info) + start_pos, end_pos - start_pos);
 			}
 		}
 	} else {
-		from = MIN(from, G_MAXINT); /* => from+1 is defined */
-		for (i = from + 1; --i >= to; ) {
+		from = MIN(from, (guint) count - 1); /* => from+1 is defined */
+		for (i = from + 1; i-- > to; ) {
 			if (g_match_info_fetch_pos(match_info, (gint) i, &start_pos, &end_pos)) {
 				li_g_string_append_len(pattern_result, g_match_info_get_string(match_info) + start_pos, end_pos - start_pos);
 			}
-- 
2.43.0


From ceb8c2aca147dad1332b35989176f918ff3c2374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:15 +0000
Subject: [PATCH 21/67] fix: mod_userdir: check the digit itself for $1 - $9

---
 src/modules/mod_userdir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/mod_userdir.c b/src/modules/mod_userdir.c
index b587a04..0b3e9fc 100644
--- a/src/modules/mod_userdir.c
+++ b/src/modules/mod_userdir.c
@@ -197,7 +197,7 @@ static liAction* userdir_create(liServer *srv, liWorker *wrk, liPlugin* p, liVal
 			c_last = c+1;
 			part.type = USERDIR_PART_USERNAME;
 			g_array_append_val(parts, part);
-		} else if (*c == '$' && *(c+1) >= '1' && *(c+2) <= '9') {
+		} else if (*c == '$' && *(c+1) >= '1' && *(c+1) <= '9') {
 			/* letter */
 			if (c - c_last > 0) {
 				/* push last string */
-- 
2.43.0


From a6721358563fd9da21c897fc5666a57538e0b462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:15 +0000
Subject: [PATCH 22/67] fix: angel connection: don't keep failed calls in the
 call table

also don't drop the id of a running call if sending it again fails.
---
 src/common/angel_connection.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/common/angel_connection.c b/src/common/angel_connection.c
index 691a7b4..26d8b35 100644
--- a/src/common/angel_connection.c
+++ b/src/common/angel_connection.c
@@ -630,11 +630,11 @@ gboolean li_angel_send_call(
 	GString *buf = NULL;
 	gboolean queue_was_empty;
 
-	if (err && *err) goto error;
+	if (err && *err) goto error_before_new_id;
 
 	if (-1 == acon->fd) {
 		g_set_error(err, LI_ANGEL_CONNECTION_ERROR, LI_ANGEL_CONNECTION_CLOSED, "connection already closed");
-		goto error;
+		goto error_before_new_id;
 	}
 
 	g_mutex_lock(acon->mutex);
@@ -677,7 +677,10 @@ gboolean li_angel_send_call(
 
 error:
 	if (-1 != call->id) {
-		li_idlist_put(acon->call_id_list, call->id);
+		g_mutex_lock(acon->mutex);
+			g_ptr_array_index(acon->call_table, call->id) = NULL;
+			li_idlist_put(acon->call_id_list, call->id);
+		g_mutex_unlock(acon->mutex);
 		call->id = -1;
 		call->acon = NULL;
 	}
-- 
2.43.0


From a25ed9ea3e966e70f7a271dfe519ee2459e72571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:15 +0000
Subject: [PATCH 23/67] fix: mod_limit: limit.con allowed one connection too
 much

---
 src/modules/mod_limit.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_limit.c b/src/modules/mod_limit.c
index 76eaef9..f77ad27 100644
--- a/src/modules/mod_limit.c
+++ b/src/modules/mod_limit.c
@@ -235,13 +235,13 @@ static liHandlerResult mod_limit_action_handle(liVRequest *vr, gpointer param, g
 #ifdef GLIB_VERSION_2_30
 		/* since 2.30 g_atomic_int_add does the same as g_atomic_int_exchange_and_add,
 		 * before it didn't return the old value. this fixes the deprecation warning. */
-		if (g_atomic_int_add(&ctx->pool.con, 1) > ctx->limit) {
+		if (g_atomic_int_add(&ctx->pool.con, 1) >= ctx->limit) {
 			g_atomic_int_add(&ctx->pool.con, -1);
 			limit_reached = TRUE;
 			VR_DEBUG(vr, "limit.con: limit reached (%d active connections)", ctx->limit);
 		}
 #else
-		if (g_atomic_int_exchange_and_add(&ctx->pool.con, 1) > ctx->limit) {
+		if (g_atomic_int_exchange_and_add(&ctx->pool.con, 1) >= ctx->limit) {
 			g_atomic_int_add(&ctx->pool.con, -1);
 			limit_reached = TRUE;
 			VR_DEBUG(vr, "limit.con: limit reached (%d active connections)", ctx->limit);
-- 
2.43.0


From dfdb37f5e2640ad4a105de0817fa9304ddb2ec5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:15 +0000
Subject: [PATCH 24/67] fix: mod_limit: limit.req needs a mutex

---
 src/modules/mod_limit.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/mod_limit.c b/src/modules/mod_limit.c
index f77ad27..522293e 100644
--- a/src/modules/mod_limit.c
+++ b/src/modules/mod_limit.c
@@ -73,6 +73,7 @@ static mod_limit_context* mod_limit_context_new(mod_limit_context_type type, gin
 	case ML_TYPE_REQ:
 		ctx->pool.req.num = 0;
 		ctx->pool.req.ts = 0;
+		ctx->mutex = g_mutex_new();
 		break;
 	case ML_TYPE_REQ_IP:
 		ctx->pool.req_ip = li_radixtree_new();
-- 
2.43.0


From 0d50e4591a4126aeb69a2fb3bbdddbded173dc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:28 +0000
Subject: [PATCH 25/67] verification hooks: loop contracts for chunkqueue
 steal/skip (guard LI_VERIFY)

---
 src/main/chunk.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/main/chunk.c b/src/main/chunk.c
index aad478e..94c03fd 100644
--- a/src/main/chunk.c
+++ b/src/main/chunk.c
@@ -633,7 +633,15 @@ goffset li_chunkqueue_steal_len(liChunkQueue *out, liChunkQueue *in, goffset len
 	goffset bytes = 0, meminbytes = 0, memoutbytes = 0;
 	goffset we_have;
 
-	while ( (NULL != (c = li_chunkqueue_first_chunk(in))) && length > 0 ) {
+	while ( (NULL != (c = li_chunkqueue_first_chunk(in))) && length > 0 )
+		LI_LOOP_ASSIGNS(c, cnew, l, bytes, meminbytes, memoutbytes, we_have, length, LI_CQ_STATE, LI_CQ_OUT_STATE)
+		LI_LOOP_INVARIANT(LI_CQ_HEAD_OK && (!li_cq.attached || length == 0))
+		LI_LOOP_INVARIANT(bytes >= 0 && bytes <= li_cq0.in_len0 && length >= 0 && bytes + length == li_cq0.want)
+		LI_LOOP_INVARIANT(LI_CQ_TAKEN == bytes && li_cqo.added == bytes)
+		LI_LOOP_INVARIANT(li_cq.taken_mem == meminbytes && li_cqo.added_mem == memoutbytes)
+		LI_LOOP_INVARIANT(meminbytes <= 0 && memoutbytes >= 0 && (li_cq.attached ? memoutbytes <= LI_CQ_MAXMEM : memoutbytes <= - meminbytes))
+		LI_LOOP_DECREASES(li_cq.in_count, length)
+	{
 		we_have = li_chunk_length(c);
 		if (!we_have) { /* remove empty chunks */
 			if (c->type == STRING_CHUNK) meminbytes -= c->data.str->len;
@@ -780,7 +788,13 @@ goffset li_chunkqueue_skip(liChunkQueue *cq, goffset length) {
 	goffset bytes = 0;
 	goffset we_have;
 
-	while ( (NULL != (c = li_chunkqueue_first_chunk(cq))) && (0 == (we_have = li_chunk_length(c)) || length > 0) ) {
+	while ( (NULL != (c = li_chunkqueue_first_chunk(cq))) && (0 == (we_have = li_chunk_length(c)) || length > 0) )
+		LI_LOOP_ASSIGNS(c, bytes, we_have, length, LI_CQ_STATE, cq->mem_usage, LI_CQ_LIMIT_STATE)
+		LI_LOOP_INVARIANT(LI_CQ_HEAD_OK && (!li_cq.attached || length == 0))
+		LI_LOOP_INVARIANT(bytes >= 0 && bytes <= li_cq0.in_len0 && length >= 0 && bytes + length == li_cq0.want)
+		LI_LOOP_INVARIANT(LI_CQ_TAKEN == bytes && li_cq0.in_mem0 + li_cq.taken_mem == cq->mem_usage && LI_CQ_LIMIT_OK(cq))
+		LI_LOOP_DECREASES(li_cq.in_count, length)
+	{
 		if (we_have <= length) {
 			/* skip (delete) complete chunk */
 			if (c->type == STRING_CHUNK) cqlimit_update(cq, - (goffset)c->data.str->len);
-- 
2.43.0


From ea4e3ab955ca6575717bc6466934ba499a31cd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:31 +0000
Subject: [PATCH 26/67] fix: chunk iterator: don't mix up data of read and
 read_mmap

li_chunkiter_read stored its data in c->mem, but li_chunkiter_read_mmap expects
mmap.offset/length to describe c->mem; also handle short reads in the fallback.
---
 src/main/chunk.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/main/chunk.c b/src/main/chunk.c
index 94c03fd..c119723 100644
--- a/src/main/chunk.c
+++ b/src/main/chunk.c
@@ -115,6 +115,12 @@ liHandlerResult li_chunkiter_read(liChunkIter iter, off_t start, off_t length, c
 
 		if (length > MAX_MMAP_CHUNK) length = MAX_MMAP_CHUNK;
 
+		/* c->mem replaces the mapped range of li_chunkiter_read_mmap */
+		if (MAP_FAILED != c->data.file.mmap.data) {
+			munmap(c->data.file.mmap.data, c->data.file.mmap.length);
+			c->data.file.mmap.data = MAP_FAILED;
+		}
+
 		if (!c->mem) {
 			c->mem = g_byte_array_sized_new(length);
 		} else {
@@ -145,6 +151,8 @@ read_chunk:
 			length = we_have;
 			g_byte_array_set_size(c->mem, length);
 		}
+		c->data.file.mmap.offset = our_start;
+		c->data.file.mmap.length = length;
 		*data_start = (char*) c->mem->data;
 		*data_len = length;
 		break;
@@ -238,8 +246,15 @@ read_chunk:
 				} else if (we_have != we_want) {
 					/* may return less than requested bytes due to signals */
 					/* CON_TRACE(srv, "read return unexpected number of bytes"); */
+					if (we_have <= our_offset) {
+						g_set_error(err, LI_CHUNK_ERROR, 0, "li_chunkiter_read_mmap: pread returned not enough bytes for '%s' (fd = %i): unexpected end of file?",
+							GSTR_SAFE_STR(c->data.file.file->name), c->data.file.file->fd);
+						g_byte_array_free(c->mem, TRUE);
+						c->mem = NULL;
+						return LI_HANDLER_ERROR;
+					}
 					we_want = we_have;
-					if (length > we_have) length = we_have;
+					if (length > we_have - our_offset) length = we_have - our_offset;
 					c->data.file.mmap.length = we_want;
 					g_byte_array_set_size(c->mem, we_want);
 				}
-- 
2.43.0


From e5902ea9c709a58f8695915773b65142bd13a12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:27 +0000
Subject: [PATCH 27/67] fix: mempool: empty allocations crashed with a division
 by zero

li_buffer_new(0) is used by the lua memcached bindings for empty values.
---
 src/common/mempool.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/mempool.c b/src/common/mempool.c
index f01458f..fd3bbdf 100644
--- a/src/common/mempool.c
+++ b/src/common/mempool.c
@@ -396,6 +396,7 @@ liMempoolPtr li_mempool_alloc(gsize size) {
 		mempool_init();
 	}
 
+	if (HEDLEY_UNLIKELY(0 == size)) size = 1; /* need a non-empty chunk */
 	size = mp_align_size(size);
 
 	/* mp_alloc_page fallback */
-- 
2.43.0


From 38a24004d3fd25f7fc75766e22c316ae9b101b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:29 +0000
Subject: [PATCH 28/67] verification hooks: loop contracts for chunked decoding
 (guard LI_VERIFY)

---
 src/main/filter_chunked.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/main/filter_chunked.c b/src/main/filter_chunked.c
index 6fb961a..e732c4a 100644
--- a/src/main/filter_chunked.c
+++ b/src/main/filter_chunked.c
@@ -43,8 +43,11 @@ liHandlerResult li_filter_chunked_encode(liVRequest *vr, liChunkQueue *out, liCh
 	return LI_HANDLER_GO_ON;
 }
 
-#define read_char(c) do { \
-	while (!p || p >= pe) { \
+#define read_char(c) G_STMT_START { \
+	while (!p || p >= pe) \
+	LI_LOOP_ASSIGNS(p, pe, ctx, LI_CHUNKED_READ_STATE) \
+	LI_LOOP_INVARIANT(LI_CHUNKED_READ_OK) \
+	{ \
 		GError *err = NULL; \
 		liHandlerResult res = li_chunk_parser_next(&ctx, &p, &pe, &err); \
 		if (NULL != err) { \
@@ -57,7 +60,8 @@ liHandlerResult li_filter_chunked_encode(liVRequest *vr, liChunkQueue *out, liCh
 		if (res != LI_HANDLER_GO_ON) goto leave; \
 	} \
 	c = *p++; \
-} while(0);
+	LI_GHOST(LI_CHUNKED_CHAR(c);) \
+} G_STMT_END
 
 
 gboolean li_filter_chunked_decode(liVRequest *vr, liChunkQueue *out, liChunkQueue *in, liFilterChunkedDecodeState *state) {
@@ -69,7 +73,10 @@ gboolean li_filter_chunked_decode(liVRequest *vr, liChunkQueue *out, liChunkQueu
 	li_chunk_parser_init(&ctx, in);
 	li_chunk_parser_prepare(&ctx);
 
-	for (;;) {
+	for (;;)
+	LI_LOOP_ASSIGNS(p, pe, c, digit, ctx, LI_CHUNKED_STATE)
+	LI_LOOP_INVARIANT(LI_CHUNKED_OK)
+	{
 		 /* 0: start new chunklen, 1: reading chunklen, 2: found \r, 3: copying content, 4: found \r,
 		  * 10: wait for \r\n\r\n, 11: wait for \n\r\n, 12: wait for \r\n, 13: wait for \n, 14: eof,
 		  * 20: error
-- 
2.43.0


From f4a77cae4cfc13d52a85687ed64e6b2bc7d2221b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:41 +0000
Subject: [PATCH 29/67] verification hooks: loop contracts for header
 sanitizing (guard LI_VERIFY)

---
 src/main/http_headers.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/main/http_headers.c b/src/main/http_headers.c
index 9fe226d..bf28a06 100644
--- a/src/main/http_headers.c
+++ b/src/main/http_headers.c
@@ -12,7 +12,11 @@ static void _http_header_sanitize(liHttpHeader *h) {
 	guint i, j, len = h->data->len;
 	gboolean folding = FALSE;
 	char *str = h->data->str;
-	for (i = h->keylen + 2; i < len; ++i) {
+	for (i = h->keylen + 2; i < len; ++i)
+	LI_LOOP_ASSIGNS(i)
+	LI_LOOP_INVARIANT(i >= h->keylen + 2 && i <= len && (li_vk < h->keylen + 2 || li_vk >= i || LI_SPEC_NO_CRLF(str[li_vk])))
+	LI_LOOP_DECREASES(len - i)
+	{
 		switch (str[i]) {
 		case '\r':
 		case '\n':
@@ -24,7 +28,17 @@ static void _http_header_sanitize(liHttpHeader *h) {
 	return;
 
 cleanup:
-	for (j = i; i < len; ++i) {
+	LI_GHOST(li_g.out = i; li_g.flag = 0;)
+	for (j = i; i < len; ++i)
+	LI_LOOP_ASSIGNS(i, j, folding, LI_OBJECT(str), li_g)
+	LI_LOOP_INVARIANT(i <= len && h->keylen + 2 <= j && j <= i && j + (folding ? 1 : 0) <= i && (folding == TRUE || folding == FALSE))
+	LI_LOOP_INVARIANT(li_g.out == j && (!folding) == (!li_g.flag))
+	LI_LOOP_INVARIANT(li_vk < h->keylen + 2 || li_vk >= j || LI_SPEC_NO_CRLF(str[li_vk]))
+	LI_LOOP_INVARIANT((li_vk >= j || (unsigned char) str[li_vk] == li_g.byte) && (li_vk >= h->keylen + 2 || li_g.byte == li_vb))
+	LI_LOOP_INVARIANT(li_vk2 < i || li_vk2 >= len || (unsigned char) str[li_vk2] == li_vb2)
+	LI_LOOP_DECREASES(len - i)
+	{
+		LI_GHOST(li_spec_unfold_step(str[i]));
 		switch (str[i]) {
 		case '\r':
 		case '\n':
-- 
2.43.0


From ad5160cf8929ad5d3de5f2c5c33bbcc85de58c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:02 +0000
Subject: [PATCH 30/67] fix: chunked decoding: a CR before the final CRLFs must
 not hide the end of the trailers

---
 src/main/filter_chunked.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/filter_chunked.c b/src/main/filter_chunked.c
index e732c4a..89cffb9 100644
--- a/src/main/filter_chunked.c
+++ b/src/main/filter_chunked.c
@@ -173,7 +173,7 @@ gboolean li_filter_chunked_decode(liVRequest *vr, liChunkQueue *out, liChunkQueu
 		case 11: /* \n\r\n */
 			read_char(c);
 			li_chunk_parser_done(&ctx, 1);
-			state->parse_state = (c == '\n') ? 12 : 10;
+			state->parse_state = (c == '\n') ? 12 : (c == '\r') ? 11 : 10;
 			break;
 		case 12: /* \r\n */
 			read_char(c);
@@ -183,7 +183,7 @@ gboolean li_filter_chunked_decode(liVRequest *vr, liChunkQueue *out, liChunkQueu
 		case 13: /* \n */
 			read_char(c);
 			li_chunk_parser_done(&ctx, 1);
-			state->parse_state = (c == '\n') ? 14 : 10;
+			state->parse_state = (c == '\n') ? 14 : (c == '\r') ? 11 : 10;
 			break;
 		case 14:
 			out->is_closed = TRUE;
-- 
2.43.0


From 1b75856d04c0d177332100e515173c7bb9bdb3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:55 +0000
Subject: [PATCH 31/67] fix: connection: don't keep the connection alive if the
 request body wasn't read completely

The remaining body was parsed as the next request.
---
 src/main/connection.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/connection.c b/src/main/connection.c
index 12ec924..5693429 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -562,7 +562,8 @@ void li_connection_request_done(liConnection *con) {
 	li_plugins_handle_close(con);
 
 	s = g_atomic_int_get(&con->srv->dest_state);
-	if (con->info.keep_alive &&  (LI_SERVER_RUNNING == s || LI_SERVER_WARMUP == s) && NULL != con->con_sock.data) {
+	/* don't reuse the connection if the request body isn't complete: the remaining body must not be parsed as next request */
+	if (con->info.keep_alive && con->in.out->is_closed && (LI_SERVER_RUNNING == s || LI_SERVER_WARMUP == s) && NULL != con->con_sock.data) {
 		li_connection_reset_keep_alive(con);
 	} else {
 		con->state = LI_CON_STATE_CLOSE;
-- 
2.43.0


From 075eba406b7d5f6b01ec575deafc139c166d79a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:11 +0000
Subject: [PATCH 32/67] fix: response: never send conflicting framing

* don't send content-length together with transfer-encoding: chunked
* replace all content-length headers if the real length is known
* no content-length in 1xx and 204 responses; 205 has length 0 (a client
  would wait for the announced or unknown body otherwise)
* an error page is the complete body: after an invalid response status the
  body of the backend followed it
---
 src/main/response.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/main/response.c b/src/main/response.c
index 09eb87a..10a51c6 100644
--- a/src/main/response.c
+++ b/src/main/response.c
@@ -54,17 +54,24 @@ void li_response_send_headers(liVRequest *vr, liChunkQueue *raw_out, liChunkQueu
 	     vr->response.http_status == 304) {
 		/* They never have a content-body/length */
 		if (NULL != response_body) li_chunkqueue_skip_all(response_body);
+		if (vr->response.http_status != 304) li_http_header_remove(vr->response.headers, CONST_STR_LEN("Content-Length"));
+		/* clients expect a body for 205 unless told otherwise */
+		if (vr->response.http_status == 205) li_http_header_insert(vr->response.headers, CONST_STR_LEN("Content-Length"), CONST_STR_LEN("0"));
 		if (!upgraded) raw_out->is_closed = TRUE;
 	} else if (response_complete) {
 		if (vr->request.http_method != LI_HTTP_METHOD_HEAD || response_body->length > 0) {
 			/* do not send content-length: 0 if backend already skipped content generation for HEAD */
 			g_string_printf(vr->wrk->tmp_str, "%"LI_GOFFSET_FORMAT, response_body->length);
-			li_http_header_overwrite(vr->response.headers, CONST_STR_LEN("Content-Length"), GSTR_LEN(vr->wrk->tmp_str));
+			li_http_header_remove(vr->response.headers, CONST_STR_LEN("Content-Length"));
+			li_http_header_insert(vr->response.headers, CONST_STR_LEN("Content-Length"), GSTR_LEN(vr->wrk->tmp_str));
 		}
 	} else if (vr->coninfo->keep_alive && vr->request.http_version == LI_HTTP_VERSION_1_1) {
-		/* TODO: maybe someone set a content length header? */
-		if (!(vr->response.transfer_encoding & LI_HTTP_TRANSFER_ENCODING_CHUNKED)) {
+		if (vr->request.http_method == LI_HTTP_METHOD_HEAD && NULL != li_http_header_find_first(vr->response.headers, CONST_STR_LEN("Content-Length"))) {
+			/* no body is sent: keep the length the backend announced */
+		} else if (!(vr->response.transfer_encoding & LI_HTTP_TRANSFER_ENCODING_CHUNKED)) {
 			vr->response.transfer_encoding |= LI_HTTP_TRANSFER_ENCODING_CHUNKED;
+			/* must not send both */
+			li_http_header_remove(vr->response.headers, CONST_STR_LEN("Content-Length"));
 			li_http_header_append(vr->response.headers, CONST_STR_LEN("Transfer-Encoding"), CONST_STR_LEN("chunked"));
 		}
 	} else {
@@ -148,6 +155,8 @@ void li_response_send_headers(liVRequest *vr, liChunkQueue *raw_out, liChunkQueu
 	if (NULL != tmp_cq) {
 		li_chunkqueue_steal_all(raw_out, tmp_cq);
 		li_chunkqueue_free(tmp_cq);
+		/* the error page is the complete response */
+		raw_out->is_closed = TRUE;
 	}
 }
 
-- 
2.43.0


From 6a29570ecb4858850c982c503aea827abff2579e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:13 +0000
Subject: [PATCH 33/67] fix: backend response: only accept digits and no
 conflicting values in content-length

---
 src/main/stream_http_response.c | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/main/stream_http_response.c b/src/main/stream_http_response.c
index 2981f0c..97f7c36 100644
--- a/src/main/stream_http_response.c
+++ b/src/main/stream_http_response.c
@@ -101,8 +101,6 @@ static void check_response_header(liStreamHttpResponse* shr) {
 		 * we need to check for content-length or "connection: close" indications.
 		 * otherwise we won't know when the response is done
 		 */
-		liHttpHeader *hh;
-
 		switch (shr->parse_response_ctx.http_version) {
 		case LI_HTTP_VERSION_1_0:
 			if (!li_http_header_is(shr->vr->response.headers, CONST_STR_LEN("connection"), CONST_STR_LEN("keep-alive")))
@@ -117,25 +115,23 @@ static void check_response_header(liStreamHttpResponse* shr) {
 		}
 
 		/* content-length */
-		hh = li_http_header_lookup(shr->vr->response.headers, CONST_STR_LEN("content-length"));
-		if (hh) {
+		for (l = li_http_header_find_first(resp->headers, CONST_STR_LEN("content-length")); l; l = li_http_header_find_next(l, CONST_STR_LEN("content-length"))) {
+			liHttpHeader *hh = (liHttpHeader*) l->data;
 			const gchar *val = LI_HEADER_VALUE(hh);
 			gint64 r;
 			char *err;
 
-			r = g_ascii_strtoll(val, &err, 10);
-			if (*err != '\0') {
-				VR_ERROR(shr->vr, "Backend response: content-length is not a number: %s", err);
+			/* only digits: don't accept leading whitespace or a sign */
+			if (!g_ascii_isdigit(*val)) {
+				VR_ERROR(shr->vr, "Backend response: content-length is not a number: %s", val);
 				li_vrequest_error(shr->vr);
 				return;
 			}
 
-			/**
-			 * negative content-length is not supported
-			 * and is a bad request
-			 */
-			if (r < 0) {
-				VR_ERROR(shr->vr, "%s", "Backend response: content-length is negative");
+			errno = 0;
+			r = g_ascii_strtoll(val, &err, 10);
+			if (*err != '\0') {
+				VR_ERROR(shr->vr, "Backend response: content-length is not a number: %s", err);
 				li_vrequest_error(shr->vr);
 				return;
 			}
@@ -151,6 +147,12 @@ static void check_response_header(liStreamHttpResponse* shr) {
 				}
 			}
 
+			if (shr->content_length >= 0 && shr->content_length != r) {
+				VR_ERROR(shr->vr, "%s", "Backend response: conflicting content-length headers");
+				li_vrequest_error(shr->vr);
+				return;
+			}
+
 			shr->content_length = r;
 			shr->wait_for_close = FALSE;
 		}
-- 
2.43.0


From 09bad6654d02fdc386dc62da7a8332bbbee7a8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:06 +0000
Subject: [PATCH 34/67] fix: backend response: body shorter than content-length
 is an error, HEAD/204/304 have no body

* the client waited forever for the missing part
* responses to HEAD with transfer-encoding: chunked failed, as there were no chunks
---
 src/main/stream_http_response.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/main/stream_http_response.c b/src/main/stream_http_response.c
index 97f7c36..16fd73a 100644
--- a/src/main/stream_http_response.c
+++ b/src/main/stream_http_response.c
@@ -170,6 +170,12 @@ static void check_response_header(liStreamHttpResponse* shr) {
 		}
 	}
 
+	if (LI_HTTP_METHOD_HEAD == shr->vr->request.http_method || 204 == resp->http_status || 304 == resp->http_status) {
+		/* these never have a body, whatever the headers announce */
+		shr->transfer_encoding_chunked = FALSE;
+		shr->wait_for_close = TRUE;
+	}
+
 	shr->response_headers_finished = TRUE;
 	li_vrequest_indirect_headers_ready(shr->vr);
 
@@ -227,6 +233,13 @@ static void stream_http_response_data(liStreamHttpResponse* shr) {
 		if (shr->content_length == 0) {
 			shr->stream.out->is_closed = TRUE;
 			li_stream_disconnect(&shr->stream);
+		} else if (shr->stream.source->out->is_closed) {
+			if (NULL != shr->vr) {
+				VR_ERROR(shr->vr, "%s", "Backend response body shorter than content-length");
+				li_vrequest_error(shr->vr);
+			} else {
+				li_stream_reset(&shr->stream);
+			}
 		}
 	}
 	li_stream_notify(&shr->stream);
-- 
2.43.0


From 317f86eb501bccd21f35078d6380dbb97861598f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:54 +0000
Subject: [PATCH 35/67] fix: connection: reset chunked decoding state with the
 connection

A connection object reused for another client continued with the state of
the last chunked request body of the previous client.
---
 src/main/connection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/connection.c b/src/main/connection.c
index 5693429..1795151 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -762,6 +762,7 @@ static void li_connection_reset2(liConnection *con) {
 	li_vrequest_reset(con->mainvr, FALSE);
 
 	li_http_request_parser_reset(&con->req_parser_ctx);
+	memset(&con->in_chunked_decode_state, 0, sizeof(con->in_chunked_decode_state));
 
 	g_string_truncate(con->info.remote_addr_str, 0);
 	li_sockaddr_clear(&con->info.remote_addr);
-- 
2.43.0


From 63bb036a40d138453c966f9e23f1318b028b1c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:12 +0000
Subject: [PATCH 36/67] fix: ip parser: don't accept a single colon at the end
 of compressed ipv6 addresses

---
 src/common/ip_parsers.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/ip_parsers.rl b/src/common/ip_parsers.rl
index cd03f73..b12019c 100644
--- a/src/common/ip_parsers.rl
+++ b/src/common/ip_parsers.rl
@@ -98,7 +98,7 @@ gboolean li_parse_ipv4(const char *str, guint32 *ip, guint32 *netmask, guint16 *
 		postc += 2;
 	};
 
-	ipv6_data = ((pregroup ":")+ | ":") ((":" @ { compressed = TRUE; } (postgroup ":")* (postgroup | post_ipv4)?) | (pregroup | pre_ipv4));
+	ipv6_data = ((pregroup ":")+ | ":") ((":" @ { compressed = TRUE; } ((postgroup ":")* (postgroup | post_ipv4))?) | (pregroup | pre_ipv4));
 
 	# so we don't need pe/eof vars
 	end = (space | 0) @{ cs = ipv6_parser_first_final; fbreak; };
-- 
2.43.0


From a9bd920033ed870a8d31ca7a399ad1973d82c3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:12 +0000
Subject: [PATCH 37/67] fix: ip parser: signed overflow in the netmask of /1
 networks

---
 src/common/ip_parsers.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/ip_parsers.rl b/src/common/ip_parsers.rl
index b12019c..fc04b51 100644
--- a/src/common/ip_parsers.rl
+++ b/src/common/ip_parsers.rl
@@ -15,7 +15,7 @@
 	ipv4_data = octet "." octet "." octet "." octet;
 	netmask = "/" decint %{
 		if (tmpval > 32) { res = FALSE; fbreak; }
-		*netmask = htonl(tmpval ? ~((1 << (32-tmpval)) - 1) : 0);
+		*netmask = htonl(tmpval ? ~(((guint32) 1 << (32-tmpval)) - 1) : 0);
 	};
 	port = ":" decint %{
 		if (tmpval > 65535) { res = FALSE; fbreak; }
-- 
2.43.0


From 2487fb3e421fa0c1694b37cbb1661970bdfb2359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:17 +0000
Subject: [PATCH 38/67] fix: encoding: encode quotes in html

The html encoding is used in attribute values too (mod_status).
---
 src/common/encoding.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/encoding.c b/src/common/encoding.c
index 899a483..b9cba5a 100644
--- a/src/common/encoding.c
+++ b/src/common/encoding.c
@@ -33,7 +33,7 @@ static const gchar encode_map_html[] = {
 	*/
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, /* 00 - 0F control chars */
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, /* 10 - 1F */
-	0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, /* 20 - 2F & */
+	0, 0, 1, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, /* 20 - 2F " & ' */
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, /* 30 - 3F < > */
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, /* 40 - 40 */
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, /* 50 - 50 */
-- 
2.43.0


From 1058118aed117d1cc2602895789b99b8f69b9c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:17 +0000
Subject: [PATCH 39/67] fix: encoding: set the length of newly allocated
 strings

---
 src/common/encoding.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/encoding.c b/src/common/encoding.c
index b9cba5a..651fa16 100644
--- a/src/common/encoding.c
+++ b/src/common/encoding.c
@@ -112,6 +112,7 @@ GString *li_string_encode_append(const gchar *str, GString *dest, liEncoding enc
 		pos = (guchar*) result->str + oldlen;
 	} else {
 		result = g_string_sized_new(new_len);
+		g_string_set_size(result, new_len);
 		pos = (guchar*) result->str;
 	}
 
-- 
2.43.0


From f83dd9134df28b8251167c8c388a347b340bf181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:17 +0000
Subject: [PATCH 40/67] fix: mod_dirlist: html encode the request path

---
 src/modules/mod_dirlist.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_dirlist.c b/src/modules/mod_dirlist.c
index 2a99e6b..36d59a4 100644
--- a/src/modules/mod_dirlist.c
+++ b/src/modules/mod_dirlist.c
@@ -431,7 +431,8 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 		}
 
 		listing = g_string_sized_new(4*1024-1);
-		g_string_append_printf(listing, html_header_start, vr->request.uri.path->str);
+		li_string_encode(vr->request.uri.path->str, encoded, LI_ENCODING_HTML);
+		g_string_append_printf(listing, html_header_start, encoded->str);
 
 		if (dd->css) {
 			/* custom css */
@@ -446,7 +447,8 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 
 		try_append_file(vr, &listing, "HEADER.txt", dd->encode_header);
 
-		g_string_append_printf(listing, html_table_start, vr->request.uri.path->str);
+		li_string_encode(vr->request.uri.path->str, encoded, LI_ENCODING_HTML);
+		g_string_append_printf(listing, html_table_start, encoded->str);
 
 		if (0 != strcmp("/", vr->request.uri.path->str)) {
 			g_string_append_printf(listing, html_table_row, '0', "../",
-- 
2.43.0


From 97a300e13112d1ccb4f35deeb00680e254d64866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:17 +0000
Subject: [PATCH 41/67] fix: mod_dirlist: make include/hide options for
 HEADER.txt and README.txt work

---
 src/modules/mod_dirlist.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modules/mod_dirlist.c b/src/modules/mod_dirlist.c
index 36d59a4..522c153 100644
--- a/src/modules/mod_dirlist.c
+++ b/src/modules/mod_dirlist.c
@@ -421,9 +421,9 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 				if (dd->hide_directories) continue;
 				g_array_append_val(directories, i);
 			} else {
-				if ((dd->include_header || dd->hide_header) && g_str_equal(sced->path, "HEADER.txt")) {
+				if ((dd->include_header || dd->hide_header) && g_str_equal(sced->path->str, "HEADER.txt")) {
 					if (dd->hide_header) continue;
-				} else if ((dd->include_readme || dd->hide_readme) && g_str_equal(sced->path, "README.txt")) {
+				} else if ((dd->include_readme || dd->hide_readme) && g_str_equal(sced->path->str, "README.txt")) {
 					if (dd->hide_readme) continue;
 				}
 				g_array_append_val(files, i);
@@ -445,7 +445,7 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 		}
 		li_g_string_append_len(listing, CONST_STR_LEN(html_header_end));
 
-		try_append_file(vr, &listing, "HEADER.txt", dd->encode_header);
+		if (dd->include_header) try_append_file(vr, &listing, "HEADER.txt", dd->encode_header);
 
 		li_string_encode(vr->request.uri.path->str, encoded, LI_ENCODING_HTML);
 		g_string_append_printf(listing, html_table_start, encoded->str);
@@ -528,7 +528,7 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 
 		li_g_string_append_len(listing, CONST_STR_LEN(html_table_end));
 
-		try_append_file(vr, &listing, "README.txt", dd->encode_readme);
+		if (dd->include_readme) try_append_file(vr, &listing, "README.txt", dd->encode_readme);
 
 		if (dd->include_sort) {
 			li_g_string_append_len(listing, CONST_STR_LEN(javascript_sort));
-- 
2.43.0


From f7aa1adc5ba943fe193f075071d42333d4bc7b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:24 +0000
Subject: [PATCH 42/67] fix: environment variables overwrite all request
 headers with their name, not only the first one

---
 src/main/environment.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/environment.c b/src/main/environment.c
index 2fcc9d7..b854f5b 100644
--- a/src/main/environment.c
+++ b/src/main/environment.c
@@ -189,6 +189,10 @@ void li_environment_dup2cgi(liVRequest *vr, liEnvironmentDup *envdup, liAddEnvir
 			li_g_string_append_len(tmp, h->data->str, h->keylen);
 			cgi_fix_header_name(tmp);
 
+			/* variables in the environment overwrite all headers with the same name, not only the first */
+			if (NULL != li_environment_get(&vr->env, GSTR_LEN(tmp)) &&
+				NULL == g_hash_table_lookup(envdup->table, tmp)) continue;
+
 			add_env_var(envdup, callback, param, GSTR_LEN(tmp), h->data->str + h->keylen+2, h->data->len - (h->keylen+2));
 		}
 	}
-- 
2.43.0


From 48487be349ea3dc24f06b30ad2b6ef17bf508db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:24 +0000
Subject: [PATCH 43/67] fix: fastcgi: finish requests if the backend closes the
 connection after the end of stdout

---
 src/modules/fastcgi_stream.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/modules/fastcgi_stream.c b/src/modules/fastcgi_stream.c
index 346d215..7d68b18 100644
--- a/src/modules/fastcgi_stream.c
+++ b/src/modules/fastcgi_stream.c
@@ -628,7 +628,13 @@ static void fastcgi_decode(liFastCGIBackendContext *ctx) {
 		} else {
 			ctx->stdin_closed = ctx->stdout_closed = ctx->stderr_closed = ctx->request_done = TRUE;
 			ctx->fcgi_in.out->is_closed = TRUE;
+			li_stream_notify_later(&ctx->fcgi_in);
 			li_stream_simple_socket_close(ctx->iostream, FALSE);
+
+			if (ctx->currentcon) {
+				const liFastCGIBackendCallbacks *callbacks = ctx->pool->callbacks;
+				callbacks->end_request_cb(ctx->currentcon->vr, &ctx->pool->public, &ctx->currentcon->public, 0);
+			}
 		}
 	}
 }
-- 
2.43.0


From 59803b91c26a6a79309fc3b921c580fad8adbae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:24 +0000
Subject: [PATCH 44/67] fix: abort requests whose backend disconnected before
 the response headers were handled

---
 src/main/virtualrequest.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/virtualrequest.c b/src/main/virtualrequest.c
index 6e932f3..72e792c 100644
--- a/src/main/virtualrequest.c
+++ b/src/main/virtualrequest.c
@@ -540,6 +540,11 @@ void li_vrequest_state_machine(liVRequest *vr) {
 
 			/* connect out-queue to signal that the headers are ready */
 			if (NULL != vr->direct_out) vr->direct_out->is_closed = TRUE; /* make sure this is closed for direct responses */
+			if (NULL == vr->backend_source->source && !vr->backend_source->out->is_closed) {
+				/* backend aborted before we connected it; there is nothing left to tell us about it */
+				li_vrequest_error(vr);
+				return;
+			}
 			if (NULL != vr->filters_out_last) {
 				li_stream_connect(vr->backend_source, vr->filters_out_first);
 				li_stream_connect(vr->filters_out_last, vr->coninfo->resp);
-- 
2.43.0


From 11f07fe8424e2922f53015251a847c91bbd5287c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:22 +0000
Subject: [PATCH 45/67] verification hooks: fastcgi records, cgi header names

---
 src/main/environment.c       |  7 ++++++-
 src/modules/fastcgi_stream.c | 18 +++++++++++++++---
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/main/environment.c b/src/main/environment.c
index b854f5b..2b237f8 100644
--- a/src/main/environment.c
+++ b/src/main/environment.c
@@ -86,7 +86,12 @@ static void add_env_var(liEnvironmentDup *envdup, liAddEnvironmentCB callback, g
 static void cgi_fix_header_name(GString *str) {
 	guint i, len = str->len;
 	gchar *s = str->str;
-	for (i = 0; i < len; i++) {
+	for (i = 0; i < len; i++)
+		LI_LOOP_ASSIGNS(i, LI_OBJECT(s))
+		LI_LOOP_INVARIANT(i <= len && s[len] == 0)
+		LI_LOOP_INVARIANT(s[li_vk] == (char) (li_vk < i ? li_spec_cgi_char(li_vb) : li_vb))
+		LI_LOOP_DECREASES(len - i)
+	{
 		if (g_ascii_isalpha(s[i])) {
 			s[i] = g_ascii_toupper(s[i]);
 		} else if (!g_ascii_isdigit(s[i])) {
diff --git a/src/modules/fastcgi_stream.c b/src/modules/fastcgi_stream.c
index 7d68b18..7309c9a 100644
--- a/src/modules/fastcgi_stream.c
+++ b/src/modules/fastcgi_stream.c
@@ -334,7 +334,11 @@ static guint8 stream_send_fcgi_record(liChunkQueue *out, guint8 type, guint16 re
 }
 
 static void stream_send_data(liChunkQueue *out, guint8 type, guint16 requestid, const gchar *data, size_t datalen) {
-	while (datalen > 0) {
+	while (datalen > 0)
+		LI_LOOP_ASSIGNS(data, datalen, li_fc)
+		LI_LOOP_INVARIANT(LI_SPEC_FCGI_SENT(data, datalen))
+		LI_LOOP_DECREASES(datalen)
+	{
 		guint16 tosend = (datalen > G_MAXUINT16) ? G_MAXUINT16 : datalen;
 		guint8 padlen = stream_send_fcgi_record(out, type, requestid, tosend);
 		GByteArray *tmpa = g_byte_array_sized_new(tosend + padlen);
@@ -359,7 +363,11 @@ static void stream_send_bytearr(liChunkQueue *out, guint8 type, guint16 requesti
 }
 
 static void stream_send_chunks(liChunkQueue *out, guint8 type, guint16 requestid, liChunkQueue *in) {
-	while (in->length > 0) {
+	while (in->length > 0)
+		LI_LOOP_ASSIGNS(in->length, out->length, li_fc)
+		LI_LOOP_INVARIANT(LI_SPEC_FCGI_MOVED(in))
+		LI_LOOP_DECREASES(in->length)
+	{
 		guint16 tosend = (in->length > G_MAXUINT16) ? G_MAXUINT16 : in->length;
 		guint8 padlen = stream_send_fcgi_record(out, type, requestid, tosend);
 		li_chunkqueue_steal_len(out, in, tosend);
@@ -478,7 +486,11 @@ static void fastcgi_decode(liFastCGIBackendContext *ctx) {
 	in = ctx->iostream->stream_in.out;
 	wrk = li_worker_from_iostream(ctx->iostream);
 
-	while (NULL != ctx->iostream && 0 < in->length) {
+	while (NULL != ctx->iostream && 0 < in->length)
+		LI_LOOP_ASSIGNS(LI_SPEC_FCGI_STATE(ctx), in->length, ctx->fcgi_in.out->length, ctx->fcgi_in.out->is_closed, li_fd)
+		LI_LOOP_INVARIANT(LI_SPEC_FCGI_DECODE(ctx, in))
+		LI_LOOP_DECREASES(in->length)
+	{
 		gboolean newdata = FALSE;
 
 		if (0 == ctx->remainingContent && 0 == ctx->remainingPadding) {
-- 
2.43.0


From fd9e2ac6a484c7d8f72341598e0887d5341741c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:07 +0000
Subject: [PATCH 46/67] fix: mod_auth: credentials with embedded NUL bytes were
 compared only up to the NUL

---
 src/modules/mod_auth.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_auth.c b/src/modules/mod_auth.c
index 89c66e8..fd434b3 100644
--- a/src/modules/mod_auth.c
+++ b/src/modules/mod_auth.c
@@ -364,8 +364,8 @@ static liHandlerResult auth_basic(liVRequest *vr, gpointer param, gpointer *cont
 		size_t len;
 		/* auth_info contains username:password encoded in base64 */
 		if (NULL != (decoded = (gchar*)g_base64_decode(LI_HEADER_VALUE(hdr) + sizeof("Basic ") - 1, &len))) {
-			/* bogus data? */
-			if (NULL != (password = strchr(decoded, ':'))) {
+			/* bogus data? (backends compare \0 terminated strings) */
+			if (NULL == memchr(decoded, '\0', len) && NULL != (password = strchr(decoded, ':'))) {
 				*password = '\0';
 				password++;
 				username = decoded;
-- 
2.43.0


From 3d59cc56215988874b59b2ca8c5d2dd5a6135d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:21 +0000
Subject: [PATCH 47/67] fix: mod_auth: htdigest users with entries for several
 realms could only log into the last one, and entries ran over line ends

---
 src/modules/mod_auth.c | 56 ++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 32 deletions(-)

diff --git a/src/modules/mod_auth.c b/src/modules/mod_auth.c
index fd434b3..990b85e 100644
--- a/src/modules/mod_auth.c
+++ b/src/modules/mod_auth.c
@@ -36,7 +36,7 @@ typedef struct AuthFileData AuthFileData;
 struct AuthFileData {
 	int refcount;
 
-	GHashTable *users; /* doesn't use own strings, the strings are in contents */
+	GHashTable *users; /* user (or "user:realm") => password; doesn't use own strings, the strings are in contents */
 	gchar *contents;
 };
 
@@ -81,31 +81,32 @@ static AuthFileData* auth_file_load(liServer *srv, AuthFile *f) {
 			if ('\n' == *c || '\r' == *c) {
 				*c = '\0';
 				found_newline = TRUE;
-			} else if (':' == *c) {
-				if (NULL == password) {
+			} else if (found_newline) {
+				break;
+			} else if (':' == *c && NULL == password) {
+				if (f->has_realm && !found_realm) {
+					/* "user:realm" is the key; a user can be in more than one realm */
+					found_realm = TRUE;
+				} else {
 					password = c+1;
 					*c = '\0';
-				} else {
-					found_realm = TRUE;
 				}
-			} else if (found_newline) {
-				break;
 			}
 		}
 
-		if (!password) {
-			/* missing delimiter for user:pass => bogus file */
-			ERROR(srv, "failed to parse auth file \"%s\", missing user:password delimiter", f->path->str);
-			goto cleanup_fail;
-		}
-
 		/* file is of type htdigest (user:realm:pass) */
-		if (f->has_realm && !found_realm) {
+		if (!password && found_realm) {
 			/* missing delimiter for realm:pass => bogus file */
 			ERROR(srv, "failed to parse auth file \"%s\", missing realm:password delimiter", f->path->str);
 			goto cleanup_fail;
 		}
 
+		if (!password) {
+			/* missing delimiter for user:pass => bogus file */
+			ERROR(srv, "failed to parse auth file \"%s\", missing user:password delimiter", f->path->str);
+			goto cleanup_fail;
+		}
+
 		g_hash_table_insert(users, username, password);
 	}
 
@@ -286,37 +287,28 @@ out:
 }
 
 static gboolean auth_backend_htdigest(liVRequest *vr, const GString *username, const GString *password, AuthBasicData *bdata, gboolean debug) {
-	const char *pass, *realm;
+	const char *pass;
 	AuthFileData *afd = auth_file_get_data(vr->wrk, bdata->data);
+	GString *key = vr->wrk->tmp_str;
 	GChecksum *md5sum;
 	gboolean res = FALSE;
 
 	if (NULL == afd) return FALSE;
 
-	/* unknown user? */
-	if (!(pass = g_hash_table_lookup(afd->users, username->str))) {
-		if (debug) {
-			VR_DEBUG(vr, "User \"%s\" not found", username->str);
-		}
-		goto out;
-	}
+	li_string_assign_len(key, GSTR_LEN(username));
+	li_g_string_append_len(key, CONST_STR_LEN(":"));
+	li_g_string_append_len(key, GSTR_LEN(bdata->realm));
 
-	realm = pass;
-	pass = strchr(pass, ':');
-
-	/* no realm/wrong realm? */
-	if (NULL == pass || 0 != strncmp(realm, bdata->realm->str, bdata->realm->len)) {
+	/* unknown user? */
+	if (!(pass = g_hash_table_lookup(afd->users, key->str))) {
 		if (debug) {
-			VR_DEBUG(vr, "Realm for user \"%s\" doesn't match", username->str);
+			VR_DEBUG(vr, "User \"%s\" not found in realm \"%s\"", username->str, bdata->realm->str);
 		}
 		goto out;
 	}
-	pass++;
 
 	md5sum = g_checksum_new(G_CHECKSUM_MD5);
-	g_checksum_update(md5sum, GUSTR_LEN(username));
-	g_checksum_update(md5sum, CONST_USTR_LEN(":"));
-	g_checksum_update(md5sum, GUSTR_LEN(bdata->realm));
+	g_checksum_update(md5sum, GUSTR_LEN(key));
 	g_checksum_update(md5sum, CONST_USTR_LEN(":"));
 	g_checksum_update(md5sum, GUSTR_LEN(password));
 
-- 
2.43.0


From 2ef2839aa6967576e0b84fe26d2cbfdf9274f6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:11 +0000
Subject: [PATCH 48/67] fix: docroot/alias patterns: a host name with empty
 labels ("...a") gave ".." for a range of labels

---
 src/main/plugin_core.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/main/plugin_core.c b/src/main/plugin_core.c
index e916202..2f1c18f 100644
--- a/src/main/plugin_core.c
+++ b/src/main/plugin_core.c
@@ -122,8 +122,18 @@ static void core_docroot_nth_cb(GString *pattern_result, guint to, guint from, g
 	}
 
 	if (NULL == ctx->splits) {
+		gchar **label;
 		ctx->splits = g_strsplit_set(ctx->hostname->str, ".", 31);
-		ctx->split_len = g_strv_length(ctx->splits);
+		/* drop empty labels: a range of them would be joined to ".." */
+		ctx->split_len = 0;
+		for (label = ctx->splits; NULL != *label; label++) {
+			if ('\0' != **label) {
+				ctx->splits[ctx->split_len++] = *label;
+			} else {
+				g_free(*label);
+			}
+		}
+		ctx->splits[ctx->split_len] = NULL;
 	}
 
 	if (0 == ctx->split_len) return;
-- 
2.43.0


From 2df2848f6447b5fb22086db93b6894603ead4a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:37 +0000
Subject: [PATCH 49/67] fix: mod_vhost: configuration errors in vhost.map_regex
 freed the wrong structure and used freed memory

---
 src/modules/mod_vhost.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/modules/mod_vhost.c b/src/modules/mod_vhost.c
index 90a073d..d3cb118 100644
--- a/src/modules/mod_vhost.c
+++ b/src/modules/mod_vhost.c
@@ -216,7 +216,7 @@ static liAction* vhost_map_regex_create(liServer *srv, liWorker *wrk, liPlugin*
 
 		if (LI_VALUE_ACTION != li_value_type(entryValue)) {
 			ERROR(srv, "vhost.map_regex expects a hashtable/key-value list with action values as parameter, %s value given", li_value_type_string(entryValue));
-			vhost_map_free(srv, mrd);
+			vhost_map_regex_free(srv, mrd);
 			return NULL;
 		}
 
@@ -232,7 +232,7 @@ static liAction* vhost_map_regex_create(liServer *srv, liWorker *wrk, liPlugin*
 		if (NULL == entryKeyStr) {
 			if (NULL != mrd->default_action) {
 				ERROR(srv, "%s", "vhost.map_regex: already have a default action");
-				vhost_map_free(srv, mrd);
+				vhost_map_regex_free(srv, mrd);
 				return NULL;
 			}
 			mrd->default_action = li_value_extract(entryValue);
@@ -241,16 +241,17 @@ static liAction* vhost_map_regex_create(liServer *srv, liWorker *wrk, liPlugin*
 			vhost_map_regex_entry map_entry;
 
 			map_entry.regex = g_regex_new(entryKeyStr->str, G_REGEX_RAW | G_REGEX_OPTIMIZE, 0, &err);
-			g_string_free(entryKeyStr, TRUE);
 
 			if (NULL == map_entry.regex) {
 				LI_FORCE_ASSERT(NULL != err);
 				vhost_map_regex_free(srv, mrd);
 				ERROR(srv, "vhost.map_regex: error compiling regex \"%s\": %s", entryKeyStr->str, err->message);
 				g_error_free(err);
+				g_string_free(entryKeyStr, TRUE);
 				return NULL;
 			}
 			LI_FORCE_ASSERT(NULL == err);
+			g_string_free(entryKeyStr, TRUE);
 
 			map_entry.action = li_value_extract(entryValue);
 
-- 
2.43.0


From 6052f4bb9520be4d005b82051f485753d6cf3ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:37 +0000
Subject: [PATCH 50/67] fix: alias with host name labels in the path leaked
 them on every request

---
 src/main/plugin_core.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/plugin_core.c b/src/main/plugin_core.c
index 2f1c18f..1f1dac7 100644
--- a/src/main/plugin_core.c
+++ b/src/main/plugin_core.c
@@ -316,6 +316,7 @@ static liHandlerResult core_handle_alias(liVRequest *vr, gpointer _param, gpoint
 
 			g_string_truncate(vr->physical.doc_root, 0);
 			li_pattern_eval(vr, vr->physical.doc_root, ac.path, core_docroot_nth_cb, &dsplit, li_pattern_regex_cb, match_info);
+			g_strfreev(dsplit.splits);
 
 			/* prefix matched */
 			if (CORE_OPTION(LI_CORE_OPTION_DEBUG_REQUEST_HANDLING).boolean) {
-- 
2.43.0


From 62ee7185379ffc766213795b9e70fe417db89132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:53 +0000
Subject: [PATCH 51/67] verification hooks: pattern callbacks

---
 src/main/pattern.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/main/pattern.c b/src/main/pattern.c
index 6e1e081..283eb3e 100644
--- a/src/main/pattern.c
+++ b/src/main/pattern.c
@@ -312,7 +312,10 @@ void li_pattern_array_cb(GString *pattern_result, guint from, guint to, gpointer
 
 	if (HEDLEY_LIKELY(from <= to)) {
 		to = MIN(to, a->len - 1);
-		for (i = from; i <= to; i++) {
+		for (i = from; i <= to; i++)
+			LI_LOOP_ASSIGNS(i, li_g)
+			LI_LOOP_INVARIANT(i >= from && (i == from || i <= to + 1) && li_g.out == i - from && li_g.flag == 0)
+		{
 			GString *str = g_array_index(a, GString*, i);
 			if (NULL != str) {
 				li_g_string_append_len(pattern_result, GSTR_LEN(str));
@@ -320,7 +323,10 @@ void li_pattern_array_cb(GString *pattern_result, guint from, guint to, gpointer
 		}
 	} else {
 		from = MIN(from, a->len - 1); /* => from+1 is defined */
-		for (i = from + 1; i-- > to; ) {
+		for (i = from + 1; i-- > to; )
+			LI_LOOP_ASSIGNS(i, li_g)
+			LI_LOOP_INVARIANT(i <= from + 1 && (from < to || i >= to) && li_g.out == from + 1 - i && li_g.flag == 0)
+		{
 			GString *str = g_array_index(a, GString*, i);
 			if (NULL != str) {
 				li_g_string_append_len(pattern_result, GSTR_LEN(str));
@@ -342,14 +348,20 @@ void li_pattern_regex_cb(GString *pattern_result, guint from, guint to, gpointer
 
 	if (HEDLEY_LIKELY(from <= to)) {
 		to = MIN(to, (guint) count - 1);
-		for (i = from; i <= to; i++) {
+		for (i = from; i <= to; i++)
+			LI_LOOP_ASSIGNS(i, start_pos, end_pos, li_g)
+			LI_LOOP_INVARIANT(i >= from && (i == from || i <= to + 1) && li_g.out == i - from && li_g.flag == 0)
+		{
 			if (g_match_info_fetch_pos(match_info, (gint) i, &start_pos, &end_pos)) {
 				li_g_string_append_len(pattern_result, g_match_info_get_string(match_info) + start_pos, end_pos - start_pos);
 			}
 		}
 	} else {
 		from = MIN(from, (guint) count - 1); /* => from+1 is defined */
-		for (i = from + 1; i-- > to; ) {
+		for (i = from + 1; i-- > to; )
+			LI_LOOP_ASSIGNS(i, start_pos, end_pos, li_g)
+			LI_LOOP_INVARIANT(i <= from + 1 && (from < to || i >= to) && li_g.out == from + 1 - i && li_g.flag == 0)
+		{
 			if (g_match_info_fetch_pos(match_info, (gint) i, &start_pos, &end_pos)) {
 				li_g_string_append_len(pattern_result, g_match_info_get_string(match_info) + start_pos, end_pos - start_pos);
 			}
-- 
2.43.0


From 3ab1b0d5db644633ffacc106bb5df3f9cf6a75ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:06 +0000
Subject: [PATCH 52/67] verification hooks: pattern_eval, rewrite, redirect

---
 src/main/pattern.c         | 5 ++++-
 src/modules/mod_redirect.c | 5 ++++-
 src/modules/mod_rewrite.c  | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/main/pattern.c b/src/main/pattern.c
index 283eb3e..0ddf3c3 100644
--- a/src/main/pattern.c
+++ b/src/main/pattern.c
@@ -262,7 +262,10 @@ void li_pattern_eval(liVRequest *vr, GString *dest, liPattern *pattern, liPatter
 	GArray *arr = (GArray*) pattern;
 	GString *tmpstr = NULL;
 
-	for (i = 0; i < arr->len; i++) {
+	for (i = 0; i < arr->len; i++)
+		LI_LOOP_ASSIGNS(i, encoded, res, cond_val, tmpstr, li_g)
+		LI_LOOP_INVARIANT(i <= arr->len && li_g.out == i && li_g.flag == 0 && (tmpstr == NULL) == (li_g.in == 0))
+	{
 		liPatternPart *part = &g_array_index(arr, liPatternPart, i);
 		encoded = FALSE;
 
diff --git a/src/modules/mod_redirect.c b/src/modules/mod_redirect.c
index 48fe8db..782c579 100644
--- a/src/modules/mod_redirect.c
+++ b/src/modules/mod_redirect.c
@@ -159,7 +159,10 @@ static liHandlerResult redirect(liVRequest *vr, gpointer param, gpointer *contex
 
 	if (li_vrequest_is_handled(vr)) return LI_HANDLER_GO_ON;
 
-	for (i = 0; i < rd->rules->len; i++) {
+	for (i = 0; i < rd->rules->len; i++)
+		LI_LOOP_ASSIGNS(i, rule, li_g)
+		LI_LOOP_INVARIANT(i <= rd->rules->len && li_g.out == i && li_g.flag == 0)
+	{
 		rule = &g_array_index(rd->rules, redirect_rule, i);
 
 		if (redirect_internal(vr, dest, rule)) {
diff --git a/src/modules/mod_rewrite.c b/src/modules/mod_rewrite.c
index a5c806b..d128f52 100644
--- a/src/modules/mod_rewrite.c
+++ b/src/modules/mod_rewrite.c
@@ -167,7 +167,10 @@ static liHandlerResult rewrite(liVRequest *vr, gpointer param, gpointer *context
 	gchar *path = vr->request.uri.path->str;
 	UNUSED(context);
 
-	for (i = 0; i < rd->rules->len; i++) {
+	for (i = 0; i < rd->rules->len; i++)
+		LI_LOOP_ASSIGNS(i, rule, li_g)
+		LI_LOOP_INVARIANT(i <= rd->rules->len && li_g.out == i && li_g.flag == 0)
+	{
 		GString *dest_path = vr->wrk->tmp_str;
 
 		rule = &g_array_index(rd->rules, rewrite_rule, i);
-- 
2.43.0


From 293288ae50bdef5b08e38c42904a61d6d8b9a249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:05 +0000
Subject: [PATCH 53/67] fix: a regex condition that did not match removed the
 captures of the enclosing one

---
 src/main/actions.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main/actions.c b/src/main/actions.c
index cb326ab..94af845 100644
--- a/src/main/actions.c
+++ b/src/main/actions.c
@@ -8,6 +8,7 @@ struct action_stack_element {
 	union {
 		gpointer context;
 		guint pos;
+		gboolean regex_pushed;
 	} data;
 	gboolean finished, backlog_provided;
 };
@@ -177,10 +178,9 @@ static void action_stack_element_release(liServer *srv, liVRequest *vr, action_s
 		}
 		break;
 	case LI_ACTION_TCONDITION:
-		if (a->data.condition.cond->rvalue.type == LI_COND_VALUE_REGEXP) {
+		if (ase->data.regex_pushed) {
 			/* pop regex stack */
 			GArray *rs = vr->action_stack.regex_stack;
-			/* cheap check to prevent segfault if condition errored without pushing onto stack; whole stack gets cleaned anyways */
 			if (rs->len) {
 				liActionRegexStackElement *arse = &g_array_index(rs, liActionRegexStackElement, rs->len - 1);
 				if (arse->string)
@@ -293,6 +293,7 @@ liHandlerResult li_action_execute(liVRequest *vr) {
 	guint ase_ndx;
 	liHandlerResult res;
 	gboolean condres;
+	guint regex_len;
 	liServer *srv = vr->wrk->srv;
 
 	while (NULL != (ase = action_stack_top(as))) {
@@ -383,10 +384,13 @@ liHandlerResult li_action_execute(liVRequest *vr) {
 			break;
 		case LI_ACTION_TCONDITION:
 			condres = FALSE;
+			regex_len = as->regex_stack->len;
 			res = li_condition_check(vr, a->data.condition.cond, &condres);
 			switch (res) {
 			case LI_HANDLER_GO_ON:
 				ase->finished = TRUE;
+				/* only matching regexes are on the stack */
+				ase->data.regex_pushed = (as->regex_stack->len > regex_len);
 				if (condres) {
 					if (a->data.condition.target) li_action_enter(vr, a->data.condition.target);
 				}
-- 
2.43.0


From 65bb5321b17c7be847a088437d0b6b0cc818187a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:50 +0000
Subject: [PATCH 54/67] fix: config: 'and' binds stronger than 'or' in
 conditions, as documented

---
 src/main/config_parser.rl | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index a0a6bc1..086f051 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -1741,24 +1741,30 @@ static gboolean p_condition_expr(liConditionTree **tree, liConfigToken preOp, li
 
 	for (;;) {
 		gboolean negated = FALSE;
-		NEXT(token);
-		if (TK_NOT == token) {
-			negated = TRUE;
-			NEXT(token);
-		}
 
-		if (TK_PARA_OPEN == token) {
-			if (!p_condition_expr(&leave, TK_ERROR, ctx, error)) goto error;
+		if (NULL != result) {
+			/* right side of op: includes operators which bind stronger than op */
+			if (!p_condition_expr(&leave, op, ctx, error)) goto error;
+		} else {
 			NEXT(token);
-			if (TK_PARA_CLOSE != token) {
-				parse_error(ctx, error, "expected ')'");
-				goto error;
+			if (TK_NOT == token) {
+				negated = TRUE;
+				NEXT(token);
 			}
-		} else {
-			REMEMBER(token);
-			if (!p_condition_value(&leave, ctx, error)) goto error;
+
+			if (TK_PARA_OPEN == token) {
+				if (!p_condition_expr(&leave, TK_ERROR, ctx, error)) goto error;
+				NEXT(token);
+				if (TK_PARA_CLOSE != token) {
+					parse_error(ctx, error, "expected ')'");
+					goto error;
+				}
+			} else {
+				REMEMBER(token);
+				if (!p_condition_value(&leave, ctx, error)) goto error;
+			}
+			if (negated) leave->negated = !leave->negated;
 		}
-		if (negated) leave->negated = !leave->negated;
 
 		if (result == NULL) {
 			result = leave;
-- 
2.43.0


From c40ee362b9b76a129e0503629809abc76beb702e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:21 +0000
Subject: [PATCH 55/67] fix: map: every key of a list key needs its own copy of
 the action

---
 src/main/plugin_core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/plugin_core.c b/src/main/plugin_core.c
index 1f1dac7..309c635 100644
--- a/src/main/plugin_core.c
+++ b/src/main/plugin_core.c
@@ -1899,7 +1899,7 @@ static liAction* core_map(liServer *srv, liWorker *wrk, liPlugin* p, liValue *va
 					return NULL;
 				}
 
-				g_hash_table_insert(md->hash, li_value_extract_string(v2), li_value_extract(r));
+				g_hash_table_insert(md->hash, li_value_extract_string(v2), li_value_copy(r));
 			LI_VALUE_END_FOREACH()
 		}
 	LI_VALUE_END_FOREACH()
-- 
2.43.0


From ab4a2121af3d55fa9c96f48c60cf8c434befb14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:02 +0000
Subject: [PATCH 56/67] fix: config: negative numbers were read as positive
 ones

---
 src/main/config_parser.rl | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index 086f051..28a8fa4 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -214,8 +214,10 @@ GQuark li_config_error_quark(void) {
 		ctx->token_number = 0;
 		ctx->suffix_factor = 1;
 	}
-	action int_negative {
+	action int_negative_start {
 		ctx->negative = TRUE;
+		ctx->token_number = 0;
+		ctx->suffix_factor = 1;
 	}
 	action dec_digit {
 		gint64 digit = fc - '0';
@@ -316,12 +318,13 @@ GQuark li_config_error_quark(void) {
 		| 'days'    %{ ctx->suffix_factor = G_GINT64_CONSTANT(24)*3600; }
 		);
 	integer_suffix = ( integer_suffix_bytes | integer_suffix_bits | integer_suffix_seconds ) %integer_suffix;
-	integer_base = ('-'@int_negative)?
+	integer_digits =
 		( ([1-9] [0-9]*)$dec_digit
 		| '0'
 		| '0' ([0-9]+)$oct_digit
 		| '0x' (xdigit+)$hex_digit
-		)>int_start;
+		);
+	integer_base = ( integer_digits >int_start | '-' @int_negative_start integer_digits );
 	# noise_char only matches after integer_suffix, as noise matches all noise chars greedy
 	integer = (integer_base noise integer_suffix?)%integer (noise_char | operator_char);
 
-- 
2.43.0


From d3c160b65ada31826e88d2c67d03152aadfdfdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:02 +0000
Subject: [PATCH 57/67] verification hooks: steps of the action machine and of
 mod_limit

---
 src/main/actions.c      | 1 +
 src/modules/mod_limit.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/main/actions.c b/src/main/actions.c
index 94af845..743fc12 100644
--- a/src/main/actions.c
+++ b/src/main/actions.c
@@ -297,6 +297,7 @@ liHandlerResult li_action_execute(liVRequest *vr) {
 	liServer *srv = vr->wrk->srv;
 
 	while (NULL != (ase = action_stack_top(as))) {
+		LI_GHOST(LI_SPEC_ACTION_STEP();)
 		if (as->backend_failed) {
 			/* set by li_vrequest_backend_error */
 			vr->state = LI_VRS_HANDLE_REQUEST_HEADERS;
diff --git a/src/modules/mod_limit.c b/src/modules/mod_limit.c
index 522293e..246f51b 100644
--- a/src/modules/mod_limit.c
+++ b/src/modules/mod_limit.c
@@ -151,6 +151,7 @@ static void mod_limit_vrclose(liVRequest *vr, liPlugin *p) {
 		return;
 
 	for (i = 0; i < arr->len; i++) {
+		LI_GHOST(LI_SPEC_LIMIT_STEP(i, arr->len);)
 		ctx = g_ptr_array_index(arr, i);
 
 		switch (ctx->type) {
-- 
2.43.0


From 1f1714e02479c87c5d4b08a3ebd1411f034bd561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:16 +0000
Subject: [PATCH 58/67] fix: mod_deflate: encodings the client refuses with q=0
 were used

---
 src/modules/mod_deflate.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/modules/mod_deflate.c b/src/modules/mod_deflate.c
index 4c77772..9c9cb18 100644
--- a/src/modules/mod_deflate.c
+++ b/src/modules/mod_deflate.c
@@ -502,13 +502,25 @@ static gboolean cached_handle_etag(liVRequest *vr, gboolean debug, liHttpHeader
 	return FALSE;
 }
 
+/* bitmask of the encodings listed in s; entries refused with a zero quality value ("gzip;q=0") don't count */
 static guint header_to_encoding_mask(const gchar *s) {
 	guint encoding_mask = 0, i;
 
-	for (i = 1; encoding_names[i]; i++) {
-		const gchar *p = strstr(s, encoding_names[i]);
-		if (NULL != p && (p == s || p[-1] == ' ' || p[-1] == ',')) {
-			encoding_mask |= 1 << i;
+	for (s += strspn(s, ", \t"); '\0' != *s; s += strcspn(s, ","), s += strspn(s, ", \t")) {
+		const gsize len = strcspn(s, ",; \t");
+		const gchar *q = s + len;
+
+		q += strspn(q, " \t;");
+		if (('q' == q[0] || 'Q' == q[0]) && '=' == q[1]) {
+			q += 2;
+			q += strspn(q, "0.");
+			if ('\0' == *q || NULL != strchr(",; \t", *q)) continue;
+		}
+
+		for (i = 1; encoding_names[i]; i++) {
+			if (len == strlen(encoding_names[i]) && 0 == g_ascii_strncasecmp(s, encoding_names[i], len)) {
+				encoding_mask |= 1 << i;
+			}
 		}
 	}
 
-- 
2.43.0


From ee9a04b6f0d71d176bb6f151b2841413bf287252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:16 +0000
Subject: [PATCH 59/67] verification hooks: steps of the compression filters

---
 src/modules/mod_deflate.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/modules/mod_deflate.c b/src/modules/mod_deflate.c
index 9c9cb18..6fca0f6 100644
--- a/src/modules/mod_deflate.c
+++ b/src/modules/mod_deflate.c
@@ -199,6 +199,7 @@ static liHandlerResult deflate_filter_zlib(liVRequest *vr, liFilter *f) {
 		liChunkIter ci;
 		GError *err = NULL;
 
+		LI_GHOST(LI_SPEC_DEFLATE_READ(f, z, l);)
 		if (0 == f->in->length) break;
 
 		ci = li_chunkqueue_iter(f->in);
@@ -219,6 +220,7 @@ static liHandlerResult deflate_filter_zlib(liVRequest *vr, liFilter *f) {
 		z->avail_in = len;
 
 		do {
+			LI_GHOST(LI_SPEC_DEFLATE_RUN(z, len);)
 			if (Z_OK != deflate(z, Z_NO_FLUSH)) {
 				f->out->is_closed = TRUE;
 				if (NULL != vr) VR_ERROR(vr, "deflate error: %s", z->msg);
@@ -238,6 +240,7 @@ static liHandlerResult deflate_filter_zlib(liVRequest *vr, liFilter *f) {
 
 	if (0 == f->in->length && f->in->is_closed) {
 		do {
+			LI_GHOST(LI_SPEC_DEFLATE_FINISH(z);)
 			rc = deflate(z, Z_FINISH);
 			if (rc != Z_OK && rc != Z_STREAM_END) {
 				f->out->is_closed = TRUE;
@@ -398,6 +401,7 @@ static liHandlerResult deflate_filter_bzip2(liVRequest *vr, liFilter *f) {
 		liChunkIter ci;
 		GError *err = NULL;
 
+		LI_GHOST(LI_SPEC_DEFLATE_READ(f, bz, l);)
 		if (0 == f->in->length) break;
 
 		ci = li_chunkqueue_iter(f->in);
@@ -414,6 +418,7 @@ static liHandlerResult deflate_filter_bzip2(liVRequest *vr, liFilter *f) {
 		bz->avail_in = len;
 
 		do {
+			LI_GHOST(LI_SPEC_DEFLATE_RUN(bz, len);)
 			rc = BZ2_bzCompress(bz, BZ_RUN);
 			if (rc != BZ_RUN_OK) {
 				f->out->is_closed = TRUE;
@@ -434,6 +439,7 @@ static liHandlerResult deflate_filter_bzip2(liVRequest *vr, liFilter *f) {
 
 	if (0 == f->in->length && f->in->is_closed) {
 		do {
+			LI_GHOST(LI_SPEC_DEFLATE_FINISH(bz);)
 			rc = BZ2_bzCompress(bz, BZ_FINISH);
 			if (rc != BZ_RUN_OK && rc != BZ_STREAM_END && rc != BZ_FINISH_OK) {
 				f->out->is_closed = TRUE;
-- 
2.43.0


From edc938568f456ae74da5b348f4bd2d5e7e307b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:26 +0000
Subject: [PATCH 60/67] fix: a filter failing while it gets connected crashed
 the server

---
 src/main/virtualrequest.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/virtualrequest.c b/src/main/virtualrequest.c
index 72e792c..29dcd77 100644
--- a/src/main/virtualrequest.c
+++ b/src/main/virtualrequest.c
@@ -547,6 +547,8 @@ void li_vrequest_state_machine(liVRequest *vr) {
 			}
 			if (NULL != vr->filters_out_last) {
 				li_stream_connect(vr->backend_source, vr->filters_out_first);
+				/* a filter may have failed with the data already available, and the request is gone */
+				if (LI_VRS_WRITE_CONTENT != vr->state) return;
 				li_stream_connect(vr->filters_out_last, vr->coninfo->resp);
 			} else {
 				/* no filters */
-- 
2.43.0


From b394562bc47595f34ec2fb664b36c66e6479fcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:26 +0000
Subject: [PATCH 61/67] fix: mod_deflate: gzip failed with output buffers of up
 to 10 bytes

---
 src/modules/mod_deflate.c | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/modules/mod_deflate.c b/src/modules/mod_deflate.c
index 6fca0f6..b980269 100644
--- a/src/modules/mod_deflate.c
+++ b/src/modules/mod_deflate.c
@@ -177,20 +177,11 @@ static liHandlerResult deflate_filter_zlib(liVRequest *vr, liFilter *f) {
 	if (ctx->is_gzip && !ctx->gzip_header) {
 		ctx->gzip_header = TRUE;
 
-		/* as the buffer is unused it really should be big enough */
-		if (z->avail_out < sizeof(gzip_header)) {
-			f->out->is_closed = TRUE;
-			VR_ERROR(vr, "deflate error: %s", z->msg);
-			return LI_HANDLER_ERROR;
-		}
-
-		/* copy gzip header into output buffer */
-		memcpy(z->next_out, gzip_header, sizeof(gzip_header));
+		/* not into the output buffer: it can be smaller than the header, and zlib needs space there */
+		li_chunkqueue_append_mem(f->out, gzip_header, sizeof(gzip_header));
 
 		/* initialize crc32 */
 		ctx->crc = crc32(0L, Z_NULL, 0);
-		z->next_out += sizeof(gzip_header);
-		z->avail_out -= sizeof(gzip_header);
 	}
 
 	while (l < max_compress) {
-- 
2.43.0


From 9692316738fb0c617bee00fab227c4a6e4722405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:10 +0000
Subject: [PATCH 62/67] fix: mod_accesslog: bytes above 0x7f were escaped
 wrongly, even to unescaped quotes

---
 src/modules/mod_accesslog.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_accesslog.c b/src/modules/mod_accesslog.c
index 8b34e33..50c08b8 100644
--- a/src/modules/mod_accesslog.c
+++ b/src/modules/mod_accesslog.c
@@ -124,9 +124,9 @@ static void al_append_escaped(GString *log, GString *str) {
 			} else {
 				/* non printable char => \xHH */
 				gchar hh[5] = {'\\','x',0,0,0};
-				gchar h = str->str[i] / 16;
+				guchar h = (guchar) str->str[i] / 16;
 				hh[2] = (h > 9) ? (h - 10 + 'A') : (h + '0');
-				h = str->str[i] % 16;
+				h = (guchar) str->str[i] % 16;
 				hh[3] = (h > 9) ? (h - 10 + 'A') : (h + '0');
 				li_g_string_append_len(log, &hh[0], 4);
 			}
-- 
2.43.0


From d4d8bd477c5274a4cab476e5f06d0db3ca8f3400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:10 +0000
Subject: [PATCH 63/67] fix: mod_accesslog: escape path, filename and user

---
 src/modules/mod_accesslog.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modules/mod_accesslog.c b/src/modules/mod_accesslog.c
index 50c08b8..17a075d 100644
--- a/src/modules/mod_accesslog.c
+++ b/src/modules/mod_accesslog.c
@@ -251,7 +251,7 @@ static GString *al_format_log(liVRequest *vr, al_data *ald, GArray *format) {
 				break;
 			case AL_FORMAT_FILENAME:
 				if (phys->path->len)
-					li_g_string_append_len(str, GSTR_LEN(phys->path));
+					al_append_escaped(str, phys->path);
 				else
 					g_string_append_c(str, '-');
 				break;
@@ -309,12 +309,12 @@ static GString *al_format_log(liVRequest *vr, al_data *ald, GArray *format) {
 			case AL_FORMAT_AUTHED_USER:
 				tmp_gstr2 = li_environment_get(&vr->env, CONST_STR_LEN("REMOTE_USER"));
 				if (tmp_gstr2)
-					li_g_string_append_len(str, GSTR_LEN(tmp_gstr2));
+					al_append_escaped(str, tmp_gstr2);
 				else
 					g_string_append_c(str, '-');
 				break;
 			case AL_FORMAT_PATH:
-				li_g_string_append_len(str, GSTR_LEN(req->uri.path));
+				al_append_escaped(str, req->uri.path);
 				break;
 			case AL_FORMAT_SERVER_NAME:
 				if (CORE_OPTIONPTR(LI_CORE_OPTION_SERVER_NAME).string)
-- 
2.43.0


From 074c308029db7e93280959b6fe1eb2fdaa88a058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:10 +0000
Subject: [PATCH 64/67] verification hooks: steps of the access log

---
 src/modules/mod_accesslog.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/mod_accesslog.c b/src/modules/mod_accesslog.c
index 17a075d..3fee93f 100644
--- a/src/modules/mod_accesslog.c
+++ b/src/modules/mod_accesslog.c
@@ -109,6 +109,7 @@ static void al_append_escaped(GString *log, GString *str) {
 	/* replaces non-printable chars with \xHH where HH is the hex representation of the byte */
 	/* exceptions: " => \", \ => \\, whitespace chars => \n \t etc. */
 	for (guint i = 0; i < str->len; i++) {
+		LI_GHOST(LI_SPEC_LOG_ESCAPE(log, str, i);)
 		switch (str->str[i]) {
 		case '"': li_g_string_append_len(log, CONST_STR_LEN("\\\"")); break;
 		case '\\': li_g_string_append_len(log, CONST_STR_LEN("\\\\")); break;
@@ -218,6 +219,7 @@ static GString *al_format_log(liVRequest *vr, al_data *ald, GArray *format) {
 		gchar *tmp_str = NULL;
 		guint len = 0;
 
+		LI_GHOST(LI_SPEC_LOG_STEP(i, format->len);)
 		al_format_entry *e = &g_array_index(format, al_format_entry, i);
 		if (e->type == AL_ENTRY_FORMAT) {
 			switch (e->format.type) {
-- 
2.43.0


From 4f8f195c11737c23fdfb9f01e9cecda9a1a1fa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:46 +0000
Subject: [PATCH 65/67] fix: throttle pools: rate exceeded when the clock of
 another worker was ahead, starvation when milliseconds wrap

A worker whose (cached) time was slightly behind the last rearm by another worker
computed a huge time difference and refilled the pool for a whole second; after the
32-bit millisecond timestamp wrapped credit was never handed out to connections again.
---
 src/main/throttle.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/main/throttle.c b/src/main/throttle.c
index e5147a9..9c3f1de 100644
--- a/src/main/throttle.c
+++ b/src/main/throttle.c
@@ -69,6 +69,12 @@ static guint msec_timestamp(li_tstamp now) {
 	return (1000u * (guint64) floor(now)) + (guint64)(1000.0 * fmod(now, 1.0));
 }
 
+/* milliseconds from last until now; last may come from another worker whose clock is slightly ahead */
+static guint msec_elapsed(guint last, guint now) {
+	guint diff = now - last;
+	return (diff > G_MAXUINT32 - 60u*1000u) ? 0 : diff;
+}
+
 static void S_throttle_pool_rearm_workers(liThrottlePool *pool, guint worker_count, guint time_diff) {
 	guint i;
 	gint64 connections = 0;
@@ -101,13 +107,13 @@ static void S_throttle_pool_rearm_workers(liThrottlePool *pool, guint worker_cou
 static void throttle_pool_rearm(liWorker *wrk, liThrottlePool *pool, guint now) {
 	liThrottlePoolWorkerState *wpool = &pool->workers[wrk->ndx];
 	guint last = g_atomic_int_get((gint*) &pool->last_rearm);
-	guint time_diff = now - last;
+	guint time_diff = msec_elapsed(last, now);
 
 	if (HEDLEY_UNLIKELY(time_diff >= LI_THROTTLE_GRANULARITY)) {
 		g_mutex_lock(pool->rearm_mutex);
 			/* check again */
 			last = g_atomic_int_get((gint*) &pool->last_rearm);
-			time_diff = now - last;
+			time_diff = msec_elapsed(last, now);
 			if (HEDLEY_LIKELY(time_diff >= LI_THROTTLE_GRANULARITY)) {
 				S_throttle_pool_rearm_workers(pool, wrk->srv->worker_count, time_diff);
 				g_atomic_int_set((gint*) &pool->last_rearm, now);
@@ -115,7 +121,7 @@ static void throttle_pool_rearm(liWorker *wrk, liThrottlePool *pool, guint now)
 		g_mutex_unlock(pool->rearm_mutex);
 	}
 
-	if (HEDLEY_UNLIKELY(wpool->last_rearm < last)) {
+	if (HEDLEY_UNLIKELY(msec_elapsed(wpool->last_rearm, last) > 0)) {
 		/* distribute wpool->magazine */
 		GList *lnk;
 		guint connections = wpool->connections;
-- 
2.43.0


From 26298fa8516f89a047d0be818ca8bcdd090ad0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 66/67] fix: throttled connections hung when exactly a multiple
 of 4 GiB was left to send

---
 src/main/stream_simple_socket.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/stream_simple_socket.c b/src/main/stream_simple_socket.c
index 269af98..f281fa5 100644
--- a/src/main/stream_simple_socket.c
+++ b/src/main/stream_simple_socket.c
@@ -124,7 +124,8 @@ static void stream_simple_socket_write(liIOStream *stream) {
 
 		write_max = MAX(WRITE_MAX, raw_out->length);
 		if (NULL != stream->throttle_out) {
-			write_max = li_throttle_query(wrk, stream->throttle_out, write_max, stream_simple_socket_write_throttle_notify, stream);
+			/* the length may not fit into a guint */
+			write_max = li_throttle_query(wrk, stream->throttle_out, MIN(write_max, WRITE_MAX), stream_simple_socket_write_throttle_notify, stream);
 			if (0 == write_max) {
 				stream->throttled_out = TRUE;
 				return;
-- 
2.43.0


From b9acc983bf2c7f81dfb016c729e19d84edf54030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 67/67] verification hooks: loops of the token buckets

---
 src/main/throttle.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/main/throttle.c b/src/main/throttle.c
index 9c3f1de..02dcea9 100644
--- a/src/main/throttle.c
+++ b/src/main/throttle.c
@@ -15,6 +15,8 @@
 #define STRINGIFY(x) #x
 #define _STRINGIFY(x) STRINGIFY(x)
 #define throttle_debug(...) fprintf(stderr, "throttle.c:" _STRINGIFY(__LINE__) ": " __VA_ARGS__)
+#elif defined(LI_VERIFY)
+#define throttle_debug(...) ((void) 0)
 #else
 #define throttle_debug(...) do { } while (0)
 #endif
@@ -136,7 +138,10 @@ static void throttle_pool_rearm(liWorker *wrk, liThrottlePool *pool, guint now)
 		if (0 == supply) return;
 
 		g_atomic_int_set((gint*) &wpool->connections, 0);
-		while (NULL != (lnk = g_queue_pop_head_link(&wpool->waiting))) {
+		while (NULL != (lnk = g_queue_pop_head_link(&wpool->waiting)))
+			LI_LOOP_ASSIGNS(lnk, LI_SPEC_POOLS_SUPPLIED)
+			LI_LOOP_INVARIANT(LI_SPEC_POOL_SUPPLIED(supply))
+		{
 			liThrottlePoolState *pstate = LI_CONTAINER_OF(lnk, liThrottlePoolState, pool_link);
 			pstate->magazine += supply;
 			lnk->data = NULL;
@@ -193,7 +198,11 @@ guint li_throttle_query(liWorker *wrk, liThrottleState *state, guint interested,
 
 	/* pool_fill <= fill in the loop */
 	pool_fill = fill;
-	for (i = 0, len = state->pools->len; i < len; ++i) {
+	for (i = 0, len = state->pools->len; i < len; ++i)
+		LI_LOOP_ASSIGNS(i, pool_fill, LI_SPEC_POOLS_ASKED)
+		LI_LOOP_INVARIANT(i <= len && LI_SPEC_POOL_ASKED(i, fill, pool_fill))
+		LI_LOOP_DECREASES(len - i)
+	{
 		liThrottlePoolState *pstate = g_ptr_array_index(state->pools, i);
 		liThrottlePool *pool = pstate->pool;
 		liThrottlePoolWorkerState *pwstate = &pool->workers[wrk->ndx];
@@ -216,7 +225,11 @@ guint li_throttle_query(liWorker *wrk, liThrottleState *state, guint interested,
 		if (state->single_rate != 0) {
 			state->single_magazine -= pool_fill;
 		}
-		for (i = 0, len = state->pools->len; i < len; ++i) {
+		for (i = 0, len = state->pools->len; i < len; ++i)
+			LI_LOOP_ASSIGNS(i, LI_SPEC_POOLS_TAKEN)
+			LI_LOOP_INVARIANT(i <= len && LI_SPEC_POOL_TAKEN(i, pool_fill))
+			LI_LOOP_DECREASES(len - i)
+		{
 			liThrottlePoolState *pstate = g_ptr_array_index(state->pools, i);
 			pstate->magazine -= pool_fill;
 		}
-- 
2.43.0

