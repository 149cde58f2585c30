//@ src: common/flag.cpp common/mutex.cpp extremum/extremum.cpp log/handler.cpp log/log.cpp
//@ quick: DN=5 deadline=60
//@ thorough: DN=7 deadline=700
//@ cover: peaks plateau two nan
//@ bounds: N grid points (quick 5, thorough 7), merit values arbitrary reals in [-8,8] in every weak ordering, optionally undefined at both ends, maxima or minima searched, border peaks allowed or not
#include "sym.h"
#include "RedshiftLibrary/common/exception.h"
#include "RedshiftLibrary/extremum/extremum.h"
#include <string>
using namespace NSEpic;
extern "C" void harness() {
  TFloat64List x, y;
  const int inv = sym_bool("invert"), border = sym_bool("border");
  const int f = sym_int("nanfirst", 0, 1), l = N - 1 - sym_int("nanlast", 0, 1);
  for (int i = 0; i < N; i++) {
    x.push_back(0.5 * i);
    y.push_back(i < f || i > l ? NAN : sym_double(("y" + std::to_string(i)).c_str(), -8, 8));
  }
  if (f) sym_cover("nan");
  const double s = inv ? -1.0 : 1.0;
  CExtremum ext(10, 0.0, -1, inv, border);
  TPointList r = ext.Find(x, y, false);
  std::vector<bool> hit(N, false);
  auto top = [&](int k, int &a, int &b) { // plateau holding k is a local maximum
    a = b = k;
    while (a > f && y[a - 1] == y[k]) a--;
    while (b < l && y[b + 1] == y[k]) b++;
    return (a == f || s * y[a - 1] < s * y[k]) && (b == l || s * y[b + 1] < s * y[k]);
  };
  for (auto &p : r) {
    int k = (int)(p.X / 0.5 + 0.25);
    sym_assert(k >= f && k <= l && x[k] == p.X, "candidate is on the grid");
    sym_assert(p.Y == y[k], "candidate value is the merit at its abscissa");
    int a, b;
    bool t = top(k, a, b);
    if (b > a) sym_cover("plateau");
    sym_assert(t, "candidate is a local maximum");
    if (!border) sym_assert(a > f && b < l, "border candidates excluded on request");
    for (int i = a; i <= b; i++) { sym_assert(!hit[i], "one candidate per peak"); hit[i] = true; }
    sym_cover("peaks");
  }
  if (r.size() > 1) sym_cover("two");
  for (size_t i = 1; i < r.size(); i++) sym_assert(s * r[i - 1].Y >= s * r[i].Y, "candidates sorted by decreasing merit");
  for (int k = f; k <= l; k++)
    if (!hit[k]) { int a, b; bool t = top(k, a, b); if (t) sym_assert(!border && (a == f || b == l), "no local maximum is missed"); }
}
