//@ src: common/mutex.cpp
//@ quick: DN=9 DF=6 deadline=120
//@ thorough: DN=9 DF=8 deadline=700
//@ cover: odd even fast mean
//@ bounds: lists of 1 to N arbitrary reals through the public median (odd sizes to 9; even sizes to F, quick 6, thorough 8), lists of up to F through the selection used above 1000 values
//@ assumes: real arithmetic; the large-list selection algorithm is driven directly on short lists
#include <algorithm>
#include <vector>
#include "sym.h"
#include "RedshiftLibrary/common/datatypes.h"
#define private public
#include "RedshiftLibrary/common/median.h"
#include "RedshiftLibrary/common/mean.h"
#undef private
#include <string>
using namespace NSEpic;
static std::string nm(const char *p, int a) { return std::string(p) + std::to_string(a); }
extern "C" void harness() {
  const int what = sym_int("what", 0, 2);
  const int n = sym_int("n", 1, N);
  if (what == 1 ? n > F : what == 0 && n % 2 == 0 && n > F) return;
  TFloat64List v;
  for (int i = 0; i < n; i++) v.push_back(sym_double(nm("v", i).c_str(), -100, 100));
  const TFloat64List o = v;
  if (what == 2) {
    CMean<Float64> op;
    double s = 0;
    for (double x : o) s += x;
    SYM_NEAR(op.Find(v) * n, s, 1e-9, "mean");
    sym_cover("mean");
    return;
  }
  CMedian<Float64> op;
  double m = what == 0 ? op.Find(v) : op.FastFind(v.begin(), v.end());
  for (int i = 0; i < n; i++) sym_assert(v[i] == o[i], "input unchanged");
  double le = 0, ge = 0, mem = 0;
  for (double x : o) { le += x <= m ? 1. : 0.; ge += x >= m ? 1. : 0.; mem = x == m ? 1. : mem; }
  if (what == 1) {
    sym_assert(mem > 0.5, "selected value is one of the list");
    sym_assert(2 * le > n - .5 && 2 * ge > n - .5, "selected value has the middle rank");
    sym_cover("fast");
  } else if (n % 2) {
    sym_assert(mem > 0.5, "median of an odd list is one of its values");
    sym_assert(2 * le > n + .5 && 2 * ge > n + .5, "half of the values lie on each side of the median");
    sym_cover("odd");
  } else {
    // the mean of the two middle values
    double lo = -1e9, hi = 1e9;
    for (double x : o) { int b = 0, a = 0; for (double y : o) { b += y <= x; a += y >= x; } if (2 * b >= n && 2 * a >= n) { if (lo < -1e8) lo = hi = x; else { if (x < lo) lo = x; if (x > hi) hi = x; } } }
    SYM_NEAR(m, (lo + hi) / 2, 1e-9, "median of an even list is the mean of its middle values");
    sym_cover("even");
  }
}
