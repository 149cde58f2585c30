//@ src: common/mutex.cpp log/handler.cpp log/log.cpp operator/operator.cpp statistics/pdfcandidatesz.cpp
//@ quick: DN=2 deadline=40
//@ quick: DN=3 deadline=60
//@ thorough: DN=2 deadline=60
//@ thorough: DN=3 deadline=400
//@ cover: kept split duplicate default clipped
//@ bounds: 2 and 3 candidates with arbitrary distinct redshifts inside an arbitrary redshift range in [0,10], arbitrary uncertainties in [1e-6,2] or unset, arbitrary probabilities
#include "sym.h"
#include "RedshiftLibrary/common/exception.h"
#include "RedshiftLibrary/statistics/pdfcandidatesz.h"
#include "RedshiftLibrary/statistics/pdfcandidateszresult.h"
#include <string>
#include <algorithm>
using namespace NSEpic;
static std::string nm(const char *p, int a) { return std::string(p) + std::to_string(a); }
extern "C" void harness() {
  double lo = sym_double("lo", 0, 10), hi = sym_double("hi", 0, 10);
  sym_assume(hi > lo + 1e-3);
  TCandidateZbyID cands;
  double z[N], dz[N], v[N];
  bool deft = false;
  for (int i = 0; i < N; i++) { // ids unrelated to the redshift order: z[] decreasing, ids increasing
    z[i] = sym_double(nm("z", i).c_str(), 0, 10);
    sym_assume(z[i] >= lo); sym_assume(z[i] <= hi);
    if (i) sym_assume(z[i] > z[i - 1] + 1e-6);
  }
  const int perm = sym_int("order", 0, 1);
  for (int i = 0; i < N; i++) {
    auto c = std::make_shared<TCandidateZ>();
    c->Redshift = z[i];
    if (i == 0 && sym_bool("unset")) { c->Deltaz = -1; dz[i] = 1e-3 * (1 + z[i]); sym_cover("default"); }
    else dz[i] = c->Deltaz = sym_double(nm("dz", i).c_str(), 1e-6, 2);
    v[i] = c->ValProba = sym_double(nm("p", i).c_str(), -100, 0);
    cands[nm("EXT", perm ? N - i : i)] = c;
  }
  CPdfCandidatesZ op(cands);
  TCandidateZRangebyID r;
  TStringList dup = op.SetIntegrationRanges(TFloat64Range(lo, hi), r);
  bool kept[N]; double b[N], e[N], fb[N], fe[N];
  int nk = 0;
  for (int i = 0; i < N; i++) {
    std::string id = nm("EXT", perm ? N - i : i);
    kept[i] = std::find(dup.begin(), dup.end(), id) == dup.end();
    nk += kept[i];
    b[i] = r[id].GetBegin(); e[i] = r[id].GetEnd();
    fb[i] = std::max(lo, z[i] - 3 * dz[i]); fe[i] = std::min(hi, z[i] + 3 * dz[i]);
    if (fb[i] == lo) sym_cover("clipped");
    if (!kept[i]) continue;
    sym_cover("kept");
    sym_assert(b[i] <= z[i] && z[i] <= e[i], "window contains its candidate");
    sym_assert(b[i] >= fb[i] - 1e-9 && e[i] <= fe[i] + 1e-9, "window inside the redshift range and no wider than three uncertainties");
  }
  sym_assert(nk >= 1, "one candidate kept");
  for (int i = 0; i + 1 < N; i++) if (kept[i] && kept[i + 1]) {
    sym_assert(e[i] <= b[i + 1] + 1e-9, "windows of neighbouring candidates do not overlap");
    if (fe[i] > fb[i + 1]) {
      sym_cover("split");
      sym_assert(sym_near(e[i], b[i + 1], 1e-9), "a shared zone is split, not lost");
      sym_assert(sym_near(e[i], (fe[i] + fb[i + 1]) / 2, 1e-9), "a shared zone is split in the middle");
    } else sym_assert(sym_near(e[i], fe[i], 1e-9) && sym_near(b[i + 1], fb[i + 1], 1e-9), "separate windows keep their width");
  }
  if (N > 2 && kept[0] && kept[N - 1]) sym_assert(e[0] <= b[N - 1] + 1e-9, "windows do not overlap across a dropped candidate");
  for (int i = 0; i < N; i++) if (!kept[i]) {
    sym_cover("duplicate");
    bool ok = false;
    for (int j = 0; j < N; j++) {
      if (j == i) continue;
      int l = std::min(i, j), h = std::max(i, j);
      double ov = fe[l] - fb[h];
      // a previous trimming can only shorten the windows
      bool heavy = ov > 0 && (N > 2 || ov >= 0.3 * (fe[l] - fb[l]) - 1e-9 || ov >= 0.3 * (fe[h] - fb[h]) - 1e-9);
      ok |= heavy && v[j] >= v[i];
    }
    sym_assert(ok, "a dropped candidate largely overlaps a candidate at least as probable");
  }
}
