/* specification vocabulary: shared by loop annotations, contracts and native replay */
#ifndef VP_SPEC_H
#define VP_SPEC_H
#include <stddef.h>
#include <stdint.h>

#ifdef VP_CBMC
# define LI_OBJECT(p) __CPROVER_object_whole(p)
# define LI_PTR_OFF(p) ((size_t) __CPROVER_POINTER_OFFSET(p))
# define LI_PTR_IN(p, base, max) (__CPROVER_same_object(p, base) && LI_PTR_OFF(p) <= (size_t)(max))
#endif

/* arbitrary but fixed index: a statement proved for li_vk is proved for every index */
extern size_t li_vk;
/* general purpose ghost record */
typedef struct { size_t in, out; unsigned char byte; int flag; } li_ghost_t;
extern li_ghost_t li_g;
/* second arbitrary index and the byte that was there on entry */
extern size_t li_vk2;
extern unsigned char li_vb, li_vb2; /* bytes on entry */

/* --- C01: path segments. A segment starting behind the '/' at index k is bad if it is "." or ".." or
 * (but for the last one) empty */
#ifdef VP_MEM_ONLY /* memory safety pass: drop the content part of the invariant */
#define LI_SPEC_BAD_SEGMENT(s, len, k) 0
#define LI_NO_SLASH_AT(i) 1
#else
#define LI_SPEC_BAD_SEGMENT(s, len, k) \
  ((s)[k] == '/' && (k) + 1 < (size_t)(len) && ((s)[(k)+1] == '/' || ((s)[(k)+1] == '.' && \
    ((k) + 2 == (size_t)(len) || (s)[(k)+2] == '/' || ((s)[(k)+2] == '.' && ((k) + 3 == (size_t)(len) || (s)[(k)+3] == '/'))))))
#define LI_NO_SLASH_AT(i) ((i) <= LI_PTR_OFF(slash) || (i) >= LI_PTR_OFF(out) || start[i] != '/')
#endif
#define LI_SPEC_CTRL(c) ((unsigned char)(c) < 32 || (unsigned char)(c) == 127)

static inline int li_spec_hex(unsigned char c) {
	return (c >= '0' && c <= '9') ? c - '0' : (c >= 'a' && c <= 'f') ? c - 'a' + 10 : (c >= 'A' && c <= 'F') ? c - 'A' + 10 : -1;
}
/* one step of the percent-decoding specification, reading the input at s */
static inline void li_spec_urldecode_step(const unsigned char *s) {
	unsigned char b = s[0];
	if (b == '%') {
		if (!s[1] || !s[2]) return; /* truncated escape ends the result */
		li_g.in += 3;
		if (li_spec_hex(s[1]) < 0 || li_spec_hex(s[2]) < 0) return; /* broken escapes are dropped */
		b = (unsigned char)(16 * li_spec_hex(s[1]) + li_spec_hex(s[2]));
	} else {
		li_g.in += 1;
	}
	if (LI_SPEC_CTRL(b)) b = '_';
	if (li_g.out == li_vk) li_g.byte = b;
	li_g.out++;
}
/* --- C05: header values: a run of CR/LF/space/tab that starts with CR or LF becomes one space, or nothing at the end */
#define LI_SPEC_NO_CRLF(c) ((c) != '\r' && (c) != '\n')
static inline void li_spec_emit(unsigned char b) { if (li_g.out == li_vk) li_g.byte = b; li_g.out++; }
static inline void li_spec_unfold_step(unsigned char c) {
	if (c == '\r' || c == '\n') { li_g.flag = 1; return; }
	if (c == ' ' || c == '\t') { if (!li_g.flag) li_spec_emit(c); return; }
	if (li_g.flag) { li_spec_emit(' '); li_g.flag = 0; }
	li_spec_emit(c);
}
/* --- C14: FastCGI records. li_fc: records being written, li_fd: records being read */
typedef struct { size_t sent; unsigned want, pad, got; int padded; int records; } li_fc_t;
typedef struct { int type, content, pad, clen, peekn, eof, done, reset, ends; unsigned char peek[8]; size_t stdout_in, stdout_out; } li_fd_t;
typedef struct { size_t total; const char *base; int done, cur; } li_fc0_t; /* constants */
extern li_fc0_t li_fc0; extern li_fc_t li_fc; extern li_fd_t li_fd;
#define LI_SPEC_FCGI_SENT(d, n) (li_fc.want == 0 && li_fc.pad == 0 && li_fc.got == 0 && li_fc.sent <= li_fc0.total && (n) == li_fc0.total - li_fc.sent && (d) == li_fc0.base + li_fc.sent)
#define LI_SPEC_FCGI_MOVED(in) (li_fc.want == 0 && li_fc.pad == 0 && (in)->length >= 0 && li_fc.sent <= li_fc0.total && (size_t) (in)->length == li_fc0.total - li_fc.sent)
#define LI_SPEC_FCGI_STATE(c) (c)->currentcon, (c)->iostream, (c)->version, (c)->type, (c)->requestID, (c)->contentLength, (c)->paddingLength, (c)->remainingContent, (c)->remainingPadding, (c)->stdin_closed, (c)->stdout_closed, (c)->stderr_closed, (c)->request_done
#define LI_SPEC_FCGI_DECODE(c, in) ((in)->length >= 0 && (size_t) (in)->length <= li_fc0.total && (li_fc0.done ? li_fd.done : 1) && (c)->currentcon == (li_fc0.cur && !li_fd.done ? LI_SPEC_FCGI_CON : 0) && li_fd.ends == (li_fc0.cur && !li_fc0.done && li_fd.done) && ((c)->iostream == LI_SPEC_FCGI_IOSTREAM || (c)->iostream == 0) && li_fd.peekn == 0 && (li_fd.reset == 0 || (c)->iostream == 0) \
  && (c)->remainingContent == li_fd.content && (c)->remainingPadding == li_fd.pad && (c)->type == li_fd.type && (c)->contentLength == li_fd.clen \
  && li_fd.content >= 0 && li_fd.content <= li_fd.clen && li_fd.clen <= 65535 && li_fd.pad >= 0 && li_fd.pad <= 255 \
  && (li_fd.type != 3 || li_fd.content == 0 || (li_fd.content == 8 && li_fd.clen == 8)) && (li_fd.type != 6 || li_fd.content == 0 || !li_fd.eof) \
  && !!(c)->stdout_closed == !!li_fd.eof && !!(c)->fcgi_in.out->is_closed == !!li_fd.done && !!(c)->request_done == !!li_fd.done && (!li_fd.done || li_fd.eof) \
  && li_fd.stdout_out + (li_fd.type == 6 ? li_fd.content : 0) == li_fd.stdout_in)
#define li_spec_cgi_char(c) ((c) >= 'a' && (c) <= 'z' ? (c) - 32 : ((c) >= 'A' && (c) <= 'Z') || ((c) >= '0' && (c) <= '9') ? (c) : '_')
#endif
