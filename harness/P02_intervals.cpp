//@ src: common/mutex.cpp
//@ quick: DN=4 deadline=60
//@ thorough: DN=7 deadline=600
//@ cover: closed enclosing enclosing3 none lower closer upper join
//@ bounds: strictly increasing lists of 1..N arbitrary reals (quick 4, thorough 7), arbitrary interval and value; unions of up to 3 intervals
#include "sym.h"
#include "RedshiftLibrary/common/exception.h"
#include "RedshiftLibrary/common/indexing.h"
#include "RedshiftLibrary/common/range.h"
#include <string>
using namespace NSEpic;
static TFloat64List grid(int n) {
  TFloat64List v;
  for (int i = 0; i < n; i++) {
    v.push_back(sym_double(("g" + std::to_string(i)).c_str(), -10, 10));
    if (i) sym_assume(v[i - 1] < v[i]);
  }
  return v;
}
extern "C" void harness() {
  int what = sym_int("what", 0, 6);
  if (what == 6) {
    TFloat64RangeList rs;
    int n = sym_int("nr", 1, 3);
    for (int i = 0; i < n; i++) {
      double b = sym_double(("b" + std::to_string(i)).c_str(), -10, 10), e = sym_double(("e" + std::to_string(i)).c_str(), -10, 10);
      sym_assume(b <= e);
      rs.push_back(TFloat64Range(b, e));
    }
    auto out = TFloat64Range::joinIntersections(rs);
    double p = sym_double("p", -11, 11);
    bool in1 = false, in2 = false;
    for (auto &r : rs) in1 |= p >= r.GetBegin() && p <= r.GetEnd();
    for (auto &r : out) in2 |= p >= r.GetBegin() && p <= r.GetEnd();
    sym_assert(in1 == in2, "joined intervals cover the same points");
    for (size_t i = 1; i < out.size(); i++) sym_assert(out[i - 1].GetEnd() < out[i].GetBegin(), "joined intervals disjoint and ordered");
    sym_cover("join");
    return;
  }
  int n = sym_int("n", 1, N);
  TFloat64List v = grid(n);
  if (what <= 2) {
    double b = sym_double("b", -10, 10), e = sym_double("e", -10, 10);
    sym_assume(b <= e);
    TFloat64Range r(b, e);
    Int32 lo = -7, hi = -7;
    bool thrown = false;
    if (what == 0) {
      bool any = false;
      for (double x : v) any |= x >= b && x <= e;
      try { r.getClosedIntervalIndices(v, lo, hi); } catch (const AmzException &) { thrown = true; }
      sym_assert(thrown == !any, "rejects exactly the intervals holding no sample");
      if (thrown) { sym_cover("none"); return; }
      sym_assert(lo >= 0 && lo <= hi && hi < n, "indices in range");
      for (int i = 0; i < n; i++) sym_assert((i >= lo && i <= hi) == (v[i] >= b && v[i] <= e), "exactly the samples inside the closed interval");
      sym_cover("closed");
    } else {
      bool ok = b >= v.front() && e <= v.back();
      double val = 0;
      if (what == 2) { val = sym_double("val", -10, 10); ok = ok && val >= b && val <= e; }
      try { if (what == 1) r.getEnclosingIntervalIndices(v, lo, hi); else r.getEnclosingIntervalIndices(v, val, lo, hi); } catch (const AmzException &) { thrown = true; }
      sym_assert(thrown == !ok, "rejects exactly the intervals not enclosed by the list");
      if (thrown) return;
      sym_assert(lo >= 0 && lo <= hi && hi < n, "enclosing indices in range");
      sym_assert(v[lo] <= b && v[hi] >= e, "enclosing samples surround the interval");
      sym_assert((lo == n - 1 || v[lo + 1] > b) && (hi == 0 || v[hi - 1] < e), "enclosure is the tightest");
      sym_cover(what == 1 ? "enclosing" : "enclosing3");
    }
    return;
  }
  double z = sym_double("z", -11, 11);
  Int32 i = -7;
  if (what == 3) {
    bool ok = TFloat64Index::getClosestLowerIndex(v, z, i);
    sym_assert(ok == (z >= v.front()), "lower index exists iff a sample is not above the value");
    if (ok) sym_assert(i >= 0 && i < n && v[i] <= z && (i == n - 1 || v[i + 1] > z), "closest lower sample");
    sym_cover("lower");
  } else if (what == 4) {
    bool ok = TFloat64Index::getClosestUpperIndex(v, z, i);
    sym_assert(ok == (z <= v.back()), "upper index exists iff a sample is not below the value");
    if (ok) sym_assert(i >= 0 && i < n && v[i] >= z && (i == 0 || v[i - 1] < z), "closest upper sample");
    sym_cover("upper");
  } else {
    i = TFloat64Index::getCloserIndex(v, z);
    sym_assert(i >= 0 && i < n, "closer index in range");
    double d = v[i] > z ? v[i] - z : z - v[i];
    for (double x : v) sym_assert(d <= (x > z ? x - z : z - x), "no sample is closer");
    sym_cover("closer");
  }
}
