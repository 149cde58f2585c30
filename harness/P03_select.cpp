//@ src: common/flag.cpp common/mutex.cpp extremum/extremum.cpp log/handler.cpp log/log.cpp
//@ quick: DN=5 deadline=60
//@ thorough: DN=7 deadline=700
//@ cover: sep cut count best
//@ bounds: N arbitrary strictly increasing redshifts in [0,6] (quick 5, thorough 7), arbitrary merits, separation 0 or 0.25, merit cut off or 2, 1 to 3 candidates kept
//@ assumes: no pair of peaks lies within 1e-9 of the separation limit (rounding decides there)
#include "sym.h"
#include "RedshiftLibrary/common/exception.h"
#include "RedshiftLibrary/extremum/extremum.h"
#include <string>
using namespace NSEpic;
extern "C" void harness() {
  TFloat64List x, y;
  for (int i = 0; i < N; i++) {
    x.push_back(sym_double(("x" + std::to_string(i)).c_str(), 0, 6));
    if (i) sym_assume(x[i] > x[i - 1]);
    // alternate peaks and dips; heights of the peaks are arbitrary
    y.push_back(i % 2 ? -9.0 : sym_double(("y" + std::to_string(i)).c_str(), -8, 8));
  }
  const double sep = sym_bool("sep") ? 0.25 : 0.0, cut = sym_bool("cut") ? 2.0 : -1.0;
  const int maxn = sym_int("maxn", 1, 3);
  // a pair exactly on the separation limit is decided by rounding: excluded
  if (sep > 0)
    for (int i = 0; i < N; i += 2)
      for (int j = i + 2; j < N; j += 2) {
        double ov = (x[j] - sep / 2 * (1 + x[j])) - (x[i] + sep / 2 * (1 + x[i]));
        sym_assume(!sym_near(ov, 0, 1e-9));
      }
  CExtremum ext(maxn, sep, cut, false, true);
  TPointList r = ext.Find(x, y, false);
  sym_assert(!r.empty() && (int)r.size() <= maxn, "at least one and at most the requested number of candidates");
  double best = y[0];
  for (int i = 2; i < N; i += 2) if (y[i] > best) best = y[i];
  sym_assert(r[0].Y == best, "best peak comes first");
  sym_cover("best");
  auto close = [&](double a, double b) { // windows [z +- sep/2 (1+z)] of a<b overlap
    return (b - sep / 2 * (1 + b)) - (a + sep / 2 * (1 + a)) < 0;
  };
  for (size_t i = 0; i < r.size(); i++) {
    int k = -1;
    for (int j = 0; j < N; j++) if (x[j] == r[i].X) k = j;
    sym_assert(k >= 0 && y[k] == r[i].Y, "candidate is a grid sample");
    if (i) sym_assert(r[i - 1].Y >= r[i].Y, "selected candidates sorted by decreasing merit");
    if (cut > 0) sym_assert(best - r[i].Y <= cut, "merit cut applied");
    if (sep > 0) for (size_t j = 0; j < i; j++) {
      double a = r[i].X < r[j].X ? r[i].X : r[j].X, b = r[i].X < r[j].X ? r[j].X : r[i].X;
      sym_assert((b - sep / 2 * (1 + b)) - (a + sep / 2 * (1 + a)) >= -1e-9, "candidates separated");
    }
  }
  // every peak left out is explained
  for (int k = 0; k < N; k += 2) {
    bool in = false;
    for (auto &p : r) in |= p.X == x[k];
    if (in) continue;
    if ((int)r.size() == maxn && r.back().Y >= y[k]) { sym_cover("count"); continue; }
    if (cut > 0 && best - y[k] > cut) { sym_cover("cut"); continue; }
    bool near = false;
    if (sep > 0) for (auto &p : r) if (p.Y >= y[k]) {
      double a = p.X < x[k] ? p.X : x[k], b = p.X < x[k] ? x[k] : p.X;
      near |= (b - sep / 2 * (1 + b)) - (a + sep / 2 * (1 + a)) <= 1e-9;
    }
    if (near) sym_cover("sep");
    sym_assert(near, "a rejected peak is too close to a better candidate");
  }
}
