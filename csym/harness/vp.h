/* Harness support: symbolic inputs under CBMC, replayed values natively. */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#ifdef VP_CBMC
uint64_t nondet_vp_u64 (void);
uint64_t __nd_log;
static inline uint64_t ND (void) { uint64_t __v = nondet_vp_u64 (); __nd_log = __v; return __v; }
# define ASSUME(c) __CPROVER_assume (c)
# define CHECK(c, msg) __CPROVER_assert ((c), msg)
# ifdef NOWIT
#  define WITNESS() do {} while (0)
# else
#  define WITNESS() __CPROVER_assert (0, "VP_WITNESS")
# endif
#else
extern int __nd_n, __nd_i; extern uint64_t *__nd_v;
static inline uint64_t ND (void) { return __nd_i < __nd_n ? __nd_v[__nd_i++] : 0; }
static inline void vp_say (const char *a, const char *b) { write (2, a, strlen (a)); write (2, b, strlen (b)); write (2, "\n", 1); }
# define ASSUME(c) do { if (!(c)) { vp_say ("VP_ASSUME ", #c); _exit (77); } } while (0)
# define CHECK(c, msg) do { if (!(c)) { vp_say ("VP_ASSERT ", msg " (" #c ")"); _exit (3); } } while (0)
# define WITNESS() do {} while (0)
#endif
#define ND_RANGE(lo, hi) ({ int64_t __x = (int64_t) ND (); ASSUME (__x >= (int64_t) (lo) && __x <= (int64_t) (hi)); __x; })
#define ND_BOOL() ((ND () & 1) != 0)
#endif
