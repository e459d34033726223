/* include after utils.h: LI_FORCE_ASSERT becomes a proof obligation (loop free, so it may sit inside annotated loops) */
#undef LI_FORCE_ASSERT
#define LI_FORCE_ASSERT(x) (__CPROVER_assert((x), "LI_FORCE_ASSERT(" #x ") can not fail"), __CPROVER_assume(x))
#undef G_STMT_START
#undef G_STMT_END
#define G_STMT_START if (1)
#define G_STMT_END else (void) 0
