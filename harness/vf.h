/* Contract harness vocabulary, shared by the prover (CBMC) and the native replay.
 *
 *   INPUT(T, in_x)      a contract variable, universally quantified by HAVOC(T, in_x)
 *   REQUIRES(p)         precondition of the function under contract
 *   ENSURES(p, "text")  postcondition / invariant; one named proof obligation
 *   REACHED("text")     vacuity guard: the prover must be able to get here
 *
 * With -DNATIVE the same text is an ordinary program: the inputs get the values of
 * the prover's counterexample and the real functions run on them.
 */
#ifndef VF_H
#define VF_H
#include <stdbool.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <math.h>
#define INPUT(T, x) T x
#ifdef NATIVE
# define HAVOC(T, x) ((void) 0)
# define REQUIRES(p) do { if(!(p)) { fprintf(stderr, "VF-PRECONDITION-NOT-MET: %s\n", #p); exit(77); } } while(0)
# define ENSURES(p, text) do { if(!(p)) { fprintf(stderr, "VF-OBLIGATION-FAILED: %s\n", text); exit(66); } } while(0)
# define REACHED(text) ((void) 0)
# define ASSUMED(p) REQUIRES(p)
#else
# define HAVOC(T, x) do { T vf_nondet_value; x = vf_nondet_value; } while(0)
# define REQUIRES(p) __CPROVER_assume(p)
# define ENSURES(p, text) __CPROVER_assert(p, text)
# define REACHED(text) __CPROVER_assert(0, "REACH: " text)
# define ASSUMED(p) __CPROVER_assume(p)
#endif
/* REAL: double is the mathematical reals (see lib/vf.py), so equality is exact there;
 * the native replay compares with a tolerance far above rounding and far below any real difference of interest. */
#ifdef NATIVE
# define EQ(a, b) (fabs((double)(a) - (double)(b)) <= 1e-9 * (1.0 + fabs((double)(b))))
# define LE(a, b) ((double)(a) <= (double)(b) + 1e-12)
# define LT(a, b) ((double)(a) < (double)(b))
#else
# define EQ(a, b) ((a) == (b))
# define LE(a, b) ((a) <= (b))
# define LT(a, b) ((a) < (b))
#endif
#define IMPLIES(a, b) (!(a) || (b))
#endif
