/* Included by <lighttpd/settings.h> when LI_VERIFY is defined (verifier only).
 * Loop contract macros, ghost state and the specification vocabulary used by the
 * in-place annotations. */
#ifndef LI_VERIFY_H
#define LI_VERIFY_H
#include <stddef.h>
#include <stdint.h>

#define LI_LOOP_ASSIGNS(...) __CPROVER_assigns(__VA_ARGS__)
#define LI_LOOP_INVARIANT(...) __CPROVER_loop_invariant(__VA_ARGS__)
#ifdef VP_NO_DECREASES
# define LI_LOOP_DECREASES(...)
#else
# define LI_LOOP_DECREASES(...) __CPROVER_decreases(__VA_ARGS__)
#endif
#define LI_GHOST(...) __VA_ARGS__

#include "vp_spec.h"
#endif
