//@ src: common/flag.cpp common/mutex.cpp continuum/irregularsamplingmedian.cpp line/airvacuum.cpp log/handler.cpp log/log.cpp spectrum/axis.cpp spectrum/fluxaxis.cpp spectrum/noiseaxis.cpp spectrum/rebin/rebin.cpp spectrum/rebin/rebinFineGrid.cpp spectrum/rebin/rebinLinear.cpp spectrum/rebin/rebinNgp.cpp spectrum/rebin/rebinSpline.cpp spectrum/spectralaxis.cpp spectrum/spectrum.cpp
//@ quick: DOPS=2 deadline=60
//@ thorough: DOPS=3 deadline=300
//@ cover: fine lin spline ngp amplitude invert flux axis type method continuum manual copy assign both
//@ bounds: a spectrum of 3 samples with arbitrary flux, every history of OPS (quick 2, thorough 3) modifications each possibly preceded by a rebin, then a rebin by each of the four interpolations at the three source wavelengths
//@ assumes: real arithmetic; continuum methods raw, zero and manual
#include "sym.h"
#include "RedshiftLibrary/common/exception.h"
#include "RedshiftLibrary/spectrum/spectrum.h"
#include <string>
using namespace NSEpic;
static std::string nm(const char *p, int a) { return std::string(p) + std::to_string(a); }
extern "C" void harness() {
  TFloat64List x{1, 1.1, 1.3}, f, c(3, 0.);
  for (int i = 0; i < 3; i++) f.push_back(sym_double(nm("f", i).c_str(), -100, 100));
  CSpectrum s0{CSpectrumSpectralAxis(x), CSpectrumFluxAxis(f)}, s1;
  CSpectrum *s = &s0;
  s->SetContinuumEstimationMethod("zero");
  const char *names[] = {"preComputedFineGrid", "lin", "spline", "ngp"};
  int cur = sym_int("interp", 0, 1), type = 1, method = 1;
  s->setRebinInterpMethod(names[cur]);
  auto comp = [&](int i) { double k = method == 0 ? f[i] : method == 1 ? 0 : c[i]; return type == 1 ? f[i] : type == 2 ? k : f[i] - k; };
  auto check = [&](const char *tag) {
    CSpectrum r; CMask m;
    s->Rebin(TFloat64Range(x[0], x[2]), CSpectrumSpectralAxis(x), r, m, "no");
    for (int i = 0; i < 3; i++) { sym_assert(m[i] == 1, "flagged"); SYM_NEAR(r.GetFluxAxis()[i], comp(i), 1e-6, "rebinned onto its own axis, a spectrum keeps its current flux"); }
    sym_cover(tag);
  };
  for (int k = 0; k < OPS; k++) {
    if (sym_bool(nm("use", k).c_str())) {
      CSpectrum r; CMask m;
      s->Rebin(TFloat64Range(x[0], x[2]), CSpectrumSpectralAxis(x), r, m, "no");
    }
    switch (sym_int(nm("op", k).c_str(), 0, 9)) {
    case 0: { if (method == 2) s->GetContinuumFluxAxis(); double a = sym_double(nm("amp", k).c_str(), -4, 4); s->ApplyAmplitude(a); for (double &v : f) v *= a; for (double &v : c) v *= a; sym_cover("amplitude"); break; }
    case 1: if (method == 2) s->GetContinuumFluxAxis(); s->InvertFlux(); for (double &v : f) v = -v; for (double &v : c) v = -v; sym_cover("invert"); break;
    case 2: {
      if (method == 2) break; // a manual continuum is dropped with the flux it belongs to
      for (int i = 0; i < 3; i++) f[i] = sym_double((nm("g", k) + nm("_", i)).c_str(), -100, 100);
      if (sym_bool(nm("move", k).c_str())) s->SetFluxAxis(CSpectrumFluxAxis(f)); else { CSpectrumFluxAxis q(f); s->SetFluxAxis(q); }
      type = 1; sym_cover("flux"); break; }
    case 3: { x = TFloat64List{2, 2.3, 2.5}; CSpectrumSpectralAxis q(x); if (sym_bool(nm("move", k).c_str())) s->SetSpectralAxis(std::move(q)); else s->SetSpectralAxis(q); sym_cover("axis"); break; }
    case 4: type = sym_int(nm("type", k).c_str(), 1, 3); s->SetType((CSpectrum::EType)type); sym_cover("type"); break;
    case 5: cur = sym_int(nm("interp", k).c_str(), 0, 3); s->setRebinInterpMethod(names[cur]); sym_cover("method"); break;
    case 6: method = sym_int(nm("cont", k).c_str(), 0, 1); s->SetContinuumEstimationMethod(method ? "zero" : "raw"); sym_cover("continuum"); break;
    case 7: for (int i = 0; i < 3; i++) c[i] = sym_double((nm("c", k) + nm("_", i)).c_str(), -100, 100);
      method = 2; s->SetContinuumEstimationMethod(CSpectrumFluxAxis(c)); sym_cover("manual"); break;
    case 8: { if (sym_bool(nm("assign", k).c_str())) { s1 = *s; s = &s1; sym_cover("assign"); } else { auto *t = new CSpectrum(*s); s = t; sym_cover("copy"); } break; }
    case 9: {
      if (method == 2) break;
      for (int i = 0; i < 3; i++) f[i] = sym_double((nm("h", k) + nm("_", i)).c_str(), -100, 100);
      x = TFloat64List{3, 3.2, 3.6};
      s->SetSpectralAndFluxAxes(CSpectrumSpectralAxis(x), CSpectrumFluxAxis(f)); type = 1; sym_cover("both"); break; }
    }
  }
  const char *tags[] = {"fine", "lin", "spline", "ngp"};
  check(tags[cur]);
  if (cur != 0) { s->setRebinInterpMethod(names[0]); check("fine"); }
}
