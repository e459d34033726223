/* contract harness macros */
#ifndef VP_H
#define VP_H
#define VP_REQUIRES(c) __CPROVER_assume(c)
#define VP_ENSURES(c, msg) __CPROVER_assert(c, "ensures: " msg)
#define VP_CALLPRE(c, msg) __CPROVER_assert(c, "callee requires: " msg)
#define VP_REACH(msg) __CPROVER_assert(0, "VACUITY " msg)
#ifndef VP_BOUND
# define VP_BOUND 0
#endif
#if VP_BOUND
# define VP_SIZE_OK(n, max) ((n) <= (size_t)(VP_BOUND))
#else
# define VP_SIZE_OK(n, max) ((n) <= (size_t)(max))
#endif
extern size_t nondet_size(void); extern int nondet_int(void); extern unsigned char nondet_uchar(void);
extern unsigned nondet_uint(void); extern long nondet_long(void); extern unsigned long nondet_ulong(void); extern void *nondet_ptr(void);
extern _Bool nondet_bool(void); extern double nondet_double(void);
#endif
