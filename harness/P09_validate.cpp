//@ src: common/flag.cpp common/mutex.cpp continuum/irregularsamplingmedian.cpp line/airvacuum.cpp log/handler.cpp log/log.cpp spectrum/axis.cpp spectrum/fluxaxis.cpp spectrum/noiseaxis.cpp spectrum/rebin/rebin.cpp spectrum/rebin/rebinLinear.cpp spectrum/spectralaxis.cpp spectrum/spectrum.cpp
//@ quick: DN=3 DCORR=0 deadline=60
//@ quick: DN=3 DCORR=1 deadline=60
//@ thorough: DN=4 DCORR=0 deadline=400
//@ thorough: DN=4 DCORR=1 deadline=400
//@ cover: accepted refused empty corrected allzero nothing
//@ bounds: N samples (quick 3, thorough 4) at fixed wavelengths, arbitrary finite flux or NaN/infinite, noise arbitrary positive, null, negative, NaN or infinite, arbitrary wavelength range; correction on or off
//@ assumes: finite noise magnitudes in [1e-3,1e3] or special values
#include "sym.h"
#include "RedshiftLibrary/common/exception.h"
#include "RedshiftLibrary/spectrum/spectrum.h"
#include <string>
using namespace NSEpic;
static std::string nm(const char *p, int a) { return std::string(p) + std::to_string(a); }
extern "C" void harness() {
  TFloat64List x, f, e;
  bool ok[N];
  double a = sym_double("lo", 90, 150), b = sym_double("hi", 90, 150);
  sym_assume(a <= b);
  for (int i = 0; i < N; i++) {
    x.push_back(100 + 10 * i);
    double fv = sym_double(nm("f", i).c_str(), -100, 100), ev = sym_double(nm("e", i).c_str(), 1e-3, 1e3);
    const int kind = sym_int(nm("kind", i).c_str(), 0, 7);
    ok[i] = kind == 0;
    switch (kind) {
    case 1: fv = NAN; break;
    case 2: fv = INFINITY; break;
    case 3: fv = -INFINITY; break;
    case 4: ev = NAN; break;
    case 5: ev = INFINITY; break;
    case 6: ev = 0; break;
    case 7: ev = -ev; break;
    }
    f.push_back(fv); e.push_back(ev);
  }
  CSpectrum s(CSpectrumSpectralAxis(x), CSpectrumFluxAxis(f.data(), N, e.data(), N));
  double lo = a > x[0] ? a : x[0], hi = b < x[N - 1] ? b : x[N - 1];
  bool thrown = false;
  try { s.ValidateSpectrum(TFloat64Range(a, b), CORR); } catch (const AmzException &) { thrown = true; }
  const TFloat64List &F = s.GetFluxAxis().GetSamplesVector(), &E = s.GetErrorAxis().GetSamplesVector();
  if (!(a < b && lo < hi)) { sym_assert(thrown, "a range without intersection is refused"); sym_cover("empty"); return; }
  bool in[N], allok = true, any = false, nonzero = false;
  for (int i = 0; i < N; i++) in[i] = x[i] >= lo && x[i] <= hi;
  double minf = 1e9, maxe = -1;
  for (int i = 0; i < N; i++) if (in[i]) {
    allok &= ok[i]; any |= ok[i];
    if (ok[i]) { double g = fabs(f[i]); if (g < minf) minf = g; if (e[i] > maxe) maxe = e[i]; }
    if (f[i] != 0) nonzero = true;
  }
  if (!CORR) {
    sym_assert(thrown == !(allok && nonzero), "accepted exactly when every sample of the range is usable and some flux is not null");
    if (thrown) { sym_cover("refused"); if (allok) sym_cover("allzero"); } else sym_cover("accepted");
    if (!any) sym_cover("nothing");
    for (int i = 0; i < N; i++) if (ok[i]) sym_assert(F[i] == f[i] && E[i] == e[i], "validation changes nothing");
    if (nonzero && !allok) sym_cover("corrected");
    return;
  }
  if (!any) { sym_assert(thrown, "nothing usable in the range is refused"); sym_cover("nothing"); sym_cover("refused"); return; }
  nonzero = minf > 0;
  for (int i = 0; i < N; i++) if (in[i] && ok[i] && f[i] != 0) nonzero = true;
  sym_assert(thrown == !nonzero, "a corrected spectrum is accepted unless all null");
  if (thrown) { sym_cover("allzero"); return; }
  sym_cover("accepted");
  for (int i = 0; i < N; i++)
    if (ok[i]) sym_assert(F[i] == f[i] && E[i] == e[i], "usable samples are kept");
    else if (in[i]) {
      sym_cover("corrected");
      SYM_NEAR(F[i] * 10, minf, 1e-9, "a bad flux becomes a tenth of the smallest usable flux");
      SYM_NEAR(E[i], 10 * maxe, 1e-9, "a bad noise becomes ten times the largest usable noise");
    } else sym_assert((E[i] == e[i] || e[i] != e[i]) && (F[i] == f[i] || f[i] != f[i]), "samples outside the range are kept");
}
