// Harness-side API of the symbolic engine. A harness is a C++ file defining
//   extern "C" void harness();
// compiled with the same instrumentation as the code under test.
#pragma once
extern "C" {
// arbitrary real in [lo,hi] (Real mode) / arbitrary finite double in [lo,hi] (FP mode)
double sym_double(const char *name, double lo, double hi);
// log(u) of an arbitrary real u in [lo,hi], 0<lo: log-domain inputs
double sym_logdouble(const char *name, double scale, double lo, double hi);
// arbitrary integer: every value of [lo,hi] is explored
int sym_int(const char *name, int lo, int hi);
int sym_bool(const char *name);
// path condition; a path where cond is false is discarded
void sym_assume(int cond);
// the property
void sym_assert(int cond, const char *msg);
// reachability witness: the run fails vacuity if a declared cover is never hit
void sym_cover(const char *label);
// value compared between the encoding and a concrete run of the same path
void sym_observe(const char *name, double v);
void sym_observe_int(const char *name, long v);
int sym_is_symbolic(double v);
// one solver query: |a-b| <= tol  (no path split into above/below on success)
int sym_near(double a, double b, double tol);
// evaluate a<=b as one decision
int sym_le(double a, double b);
}
#define SYM_NEAR(a, b, tol, msg) sym_assert(sym_near((a), (b), (tol)), msg)
#include <cmath>
// finite arbitrary value, or one of the IEEE special values, chosen by the solver
static inline double sym_anydouble(const char *name, double lo, double hi) {
  switch (sym_int(name, 0, 3)) {
  case 1: return NAN;
  case 2: return INFINITY;
  case 3: return -INFINITY;
  default: return sym_double(name, lo, hi);
  }
}
