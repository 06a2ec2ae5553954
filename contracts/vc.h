/* Shared by every contract file.  The same file is compiled in two modes:

   VCBMC    goto-cc: inputs are nondeterministic, contracts are enforced or
            replaced by goto-instrument --dfcc, obligations go to cbmc.
   VNATIVE  gcc + AddressSanitizer: inputs are read back, in execution order,
            from a counterexample extracted from a cbmc trace, and the real
            code is run on them (replay).

   A contract file includes the REAL source file(s) from /repo, unmodified. */

#ifndef VC_H
#define VC_H

#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#ifdef VCBMC

int nondet_vc_int(void);
unsigned int nondet_vc_uint(void);
unsigned char nondet_vc_uchar(void);
double nondet_vc_double(void);

#define IN_INT(tag)    ({ int vc_v = nondet_vc_int(); __CPROVER_input(tag, vc_v); vc_v; })
#define IN_UINT(tag)   ({ unsigned int vc_v = nondet_vc_uint(); __CPROVER_input(tag, vc_v); vc_v; })
#define IN_UCHAR(tag)  ({ unsigned char vc_v = nondet_vc_uchar(); __CPROVER_input(tag, vc_v); vc_v; })
#define IN_DOUBLE(tag) ({ double vc_v = nondet_vc_double(); __CPROVER_input(tag, vc_v); vc_v; })
/* an int in lo..hi (a random search draws from the range) */
#define IN_INT_R(tag, lo, hi) ({ int vc_v = nondet_vc_int(); __CPROVER_assume(vc_v >= (lo) && vc_v <= (hi)); __CPROVER_input(tag, vc_v); vc_v; })

#define ASSUME(c)      __CPROVER_assume(c)
/* in a unit that enforces a contract (dfcc) the ensures clause is the obligation;
   in a plain harness unit the CHECK is */
#ifdef VC_DFCC
#define CHECK(c, msg)  ((void)0)
#else
#define CHECK(c, msg)  __CPROVER_assert(c, "CHECK " msg)
#endif
/* reachability marker: must be reported as FAILURE, otherwise the unit is vacuous */
#ifdef VC_CEX
#define REACH(msg)     ((void)0)
#else
#define REACH(msg)     __CPROVER_assert(0, "REACH " msg)
#endif

#define REQUIRES(x) __CPROVER_requires(x)
#define ENSURES(x)  __CPROVER_ensures(x)
#define ASSIGNS(...) __CPROVER_assigns(__VA_ARGS__)
#define RET __CPROVER_return_value
#define OLD(x) __CPROVER_old(x)

#else /* VNATIVE */

long long vc_next_int(const char *tag);
double vc_next_double(const char *tag);
void vc_assume_failed(const char *what, int line);
void vc_check_failed(const char *what, int line);
void vc_reach(const char *what);

#define IN_INT(tag)    ((int)vc_next_int(tag))
#define IN_UINT(tag)   ((unsigned int)vc_next_int(tag))
#define IN_UCHAR(tag)  ((unsigned char)vc_next_int(tag))
#define IN_DOUBLE(tag) vc_next_double(tag)
int vc_next_range(const char *tag, int lo, int hi);
#define IN_INT_R(tag, lo, hi) vc_next_range(tag, lo, hi)

#define ASSUME(c)      do { if (!(c)) vc_assume_failed(#c, __LINE__); } while (0)
#define CHECK(c, msg)  do { if (!(c)) vc_check_failed(msg, __LINE__); } while (0)
#define REACH(msg)     vc_reach(msg)

#define REQUIRES(x)
#define ENSURES(x)
#define ASSIGNS(...)
#endif

#define IN_RANGE(v, lo, hi) ((v) >= (lo) && (v) <= (hi))

/* logical implication */
#define IMPLIES(a, b) (!(a) || (b))

#endif
