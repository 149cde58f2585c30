// Instrumented stand-ins for the GSL routines the library calls: GSL itself is
// not instrumented, so its arithmetic could not be followed symbolically.
// Each one computes the mathematical result the GSL manual documents.
// Routines that are not listed trap as "unsupported".
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <gsl/gsl_errno.h>
#include <gsl/gsl_fit.h>
#include <gsl/gsl_interp.h>
#include <gsl/gsl_matrix.h>
#include <gsl/gsl_multifit.h>
#include <gsl/gsl_spline.h>
#include <gsl/gsl_vector.h>
#include <vector>
extern "C" {
gsl_error_handler_t *gsl_set_error_handler(gsl_error_handler_t *h) {
  static gsl_error_handler_t *cur = nullptr;
  auto *o = cur; cur = h; return o;
}
gsl_error_handler_t *gsl_set_error_handler_off(void) { return gsl_set_error_handler(nullptr); }
const char *gsl_strerror(const int) { return "gsl error"; }
// ---- vectors / matrices
gsl_vector *gsl_vector_alloc(const size_t n) {
  auto *v = (gsl_vector *)malloc(sizeof(gsl_vector));
  v->size = n; v->stride = 1; v->data = (double *)calloc(n ? n : 1, sizeof(double)); v->block = nullptr; v->owner = 1;
  return v;
}
gsl_vector *gsl_vector_calloc(const size_t n) { return gsl_vector_alloc(n); }
void gsl_vector_free(gsl_vector *v) { if (!v) return; if (v->owner) free(v->data); free(v); }
double gsl_vector_get(const gsl_vector *v, const size_t i) { if (i >= v->size) abort(); return v->data[i * v->stride]; }
void gsl_vector_set(gsl_vector *v, const size_t i, double x) { if (i >= v->size) abort(); v->data[i * v->stride] = x; }
gsl_vector_view gsl_vector_view_array(double *b, size_t n) {
  gsl_vector_view w; w.vector.size = n; w.vector.stride = 1; w.vector.data = b; w.vector.block = nullptr; w.vector.owner = 0; return w;
}
gsl_matrix *gsl_matrix_alloc(const size_t a, const size_t b) {
  auto *m = (gsl_matrix *)malloc(sizeof(gsl_matrix));
  m->size1 = a; m->size2 = b; m->tda = b; m->data = (double *)calloc(a * b ? a * b : 1, sizeof(double)); m->block = nullptr; m->owner = 1;
  return m;
}
gsl_matrix *gsl_matrix_calloc(const size_t a, const size_t b) { return gsl_matrix_alloc(a, b); }
void gsl_matrix_free(gsl_matrix *m) { if (!m) return; if (m->owner) free(m->data); free(m); }
double gsl_matrix_get(const gsl_matrix *m, const size_t i, const size_t j) { if (i >= m->size1 || j >= m->size2) abort(); return m->data[i * m->tda + j]; }
void gsl_matrix_set(gsl_matrix *m, const size_t i, const size_t j, const double x) { if (i >= m->size1 || j >= m->size2) abort(); m->data[i * m->tda + j] = x; }
// ---- weighted straight-line fit
int gsl_fit_wlinear(const double *x, const size_t xs, const double *w, const size_t ws, const double *y, const size_t ys, const size_t n,
                    double *c0, double *c1, double *cov00, double *cov01, double *cov11, double *chisq) {
  double W = 0, wm_x = 0, wm_y = 0, wdx2 = 0, wdxdy = 0;
  for (size_t i = 0; i < n; i++) if (w[i * ws] > 0) { W += w[i * ws]; wm_x += x[i * xs] * w[i * ws]; wm_y += y[i * ys] * w[i * ws]; }
  wm_x = wm_x / W; wm_y = wm_y / W;
  for (size_t i = 0; i < n; i++) if (w[i * ws] > 0) { double dx = x[i * xs] - wm_x, dy = y[i * ys] - wm_y; wdx2 += w[i * ws] * dx * dx; wdxdy += w[i * ws] * dx * dy; }
  wdx2 = wdx2 / W; wdxdy = wdxdy / W;
  double b = wdxdy / wdx2, a = wm_y - wm_x * b, d2 = 0;
  *c0 = a; *c1 = b;
  *cov00 = (1 / W) * (1 + wm_x * wm_x / wdx2); *cov11 = 1 / (W * wdx2); *cov01 = -wm_x / (W * wdx2);
  for (size_t i = 0; i < n; i++) if (w[i * ws] > 0) { double d = (y[i * ys] - wm_y) - b * (x[i * xs] - wm_x); d2 += w[i * ws] * d * d; }
  *chisq = d2;
  return 0;
}
// ---- weighted multi-parameter fit: normal equations, Gaussian elimination on a positive definite matrix
gsl_multifit_linear_workspace *gsl_multifit_linear_alloc(const size_t, const size_t) { return (gsl_multifit_linear_workspace *)calloc(1, sizeof(gsl_multifit_linear_workspace)); }
void gsl_multifit_linear_free(gsl_multifit_linear_workspace *w) { free(w); }
int gsl_multifit_wlinear(const gsl_matrix *X, const gsl_vector *w, const gsl_vector *y, gsl_vector *c, gsl_matrix *cov, double *chisq, gsl_multifit_linear_workspace *) {
  size_t n = X->size1, p = X->size2;
  std::vector<std::vector<double>> A(p, std::vector<double>(2 * p + 1, 0.0));
  for (size_t a = 0; a < p; a++) {
    for (size_t b = 0; b < p; b++) { double s = 0; for (size_t i = 0; i < n; i++) s += gsl_vector_get(w, i) * gsl_matrix_get(X, i, a) * gsl_matrix_get(X, i, b); A[a][b] = s; }
    A[a][p + a] = 1.0;
    double s = 0; for (size_t i = 0; i < n; i++) s += gsl_vector_get(w, i) * gsl_matrix_get(X, i, a) * gsl_vector_get(y, i);
    A[a][2 * p] = s;
  }
  std::vector<char> dead(p, 0);
  for (size_t k = 0; k < p; k++) {
    double piv = A[k][k];
    if (!(piv > 0)) { dead[k] = 1; continue; } // null direction: coefficient 0 (minimum norm for diagonal deficiency)
    for (size_t j = 0; j <= 2 * p; j++) A[k][j] = A[k][j] / piv;
    for (size_t r = 0; r < p; r++) if (r != k) { double f = A[r][k]; if (f == 0) continue; for (size_t j = 0; j <= 2 * p; j++) A[r][j] = A[r][j] - f * A[k][j]; }
  }
  for (size_t a = 0; a < p; a++) {
    gsl_vector_set(c, a, dead[a] ? 0.0 : A[a][2 * p]);
    for (size_t b = 0; b < p; b++) gsl_matrix_set(cov, a, b, (dead[a] || dead[b]) ? 0.0 : A[a][p + b]);
  }
  double s = 0;
  for (size_t i = 0; i < n; i++) { double d = gsl_vector_get(y, i); for (size_t a = 0; a < p; a++) d -= gsl_matrix_get(X, i, a) * gsl_vector_get(c, a); s += gsl_vector_get(w, i) * d * d; }
  *chisq = s;
  return 0;
}
// ---- interpolation
static const gsl_interp_type T_lin = {"linear", 2, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr};
static const gsl_interp_type T_csp = {"cspline", 3, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr};
const gsl_interp_type *gsl_interp_linear = &T_lin;
const gsl_interp_type *gsl_interp_cspline = &T_csp;
gsl_interp_accel *gsl_interp_accel_alloc(void) { return (gsl_interp_accel *)calloc(1, sizeof(gsl_interp_accel)); }
void gsl_interp_accel_free(gsl_interp_accel *a) { free(a); }
gsl_interp *gsl_interp_alloc(const gsl_interp_type *T, size_t n) {
  if (n < T->min_size) abort();
  auto *i = (gsl_interp *)calloc(1, sizeof(gsl_interp)); i->type = T; i->size = n; i->state = nullptr; return i;
}
void gsl_interp_free(gsl_interp *i) { if (i) { free(i->state); free(i); } }
int gsl_interp_init(gsl_interp *I, const double *x, const double *y, size_t n) {
  I->size = n; I->xmin = x[0]; I->xmax = x[n - 1];
  for (size_t i = 1; i < n; i++) if (!(x[i - 1] < x[i])) abort(); // GSL: x must be strictly increasing
  if (I->type == &T_csp) { // natural spline second-derivative/2 coefficients
    double *c = (double *)calloc(n, sizeof(double));
    free(I->state); I->state = c;
    if (n > 2) {
      size_t m = n - 2; std::vector<double> d(m), o(m), g(m);
      for (size_t i = 0; i < m; i++) {
        double h0 = x[i + 1] - x[i], h1 = x[i + 2] - x[i + 1];
        o[i] = h1; d[i] = 2.0 * (h1 + h0);
        g[i] = 3.0 * ((y[i + 2] - y[i + 1]) / h1 - (y[i + 1] - y[i]) / h0);
      }
      for (size_t i = 1; i < m; i++) { double f = o[i - 1] / d[i - 1]; d[i] = d[i] - f * o[i - 1]; g[i] = g[i] - f * g[i - 1]; }
      for (size_t i = m; i-- > 0;) { double r = g[i]; if (i + 1 < m) r = r - o[i] * c[i + 2]; c[i + 1] = r / d[i]; }
    }
  }
  return 0;
}
static size_t bs(const double *x, size_t n, double v) { size_t lo = 0, hi = n - 1; while (hi > lo + 1) { size_t i = (hi + lo) / 2; if (x[i] > v) hi = i; else lo = i; } return lo; }
double gsl_interp_eval(const gsl_interp *I, const double *x, const double *y, double v, gsl_interp_accel *) {
  if (v < I->xmin || v > I->xmax) abort(); // GSL: GSL_EDOM error handler
  size_t k = bs(x, I->size, v);
  double dx = x[k + 1] - x[k], dy = y[k + 1] - y[k], t = v - x[k];
  if (I->type == &T_lin) return y[k] + t / dx * dy;
  double *c = (double *)I->state;
  double b = dy / dx - dx * (c[k + 1] + 2.0 * c[k]) / 3.0, d = (c[k + 1] - c[k]) / (3.0 * dx);
  return y[k] + t * (b + t * (c[k] + t * d));
}
struct SplState { double *x, *y; };
gsl_spline *gsl_spline_alloc(const gsl_interp_type *T, size_t n) {
  auto *s = (gsl_spline *)calloc(1, sizeof(gsl_spline)); s->interp = gsl_interp_alloc(T, n); s->x = (double *)calloc(n, 8); s->y = (double *)calloc(n, 8); s->size = n; return s;
}
int gsl_spline_init(gsl_spline *s, const double *x, const double *y, size_t n) { memcpy(s->x, x, n * 8); memcpy(s->y, y, n * 8); return gsl_interp_init(s->interp, x, y, n); }
double gsl_spline_eval(const gsl_spline *s, double v, gsl_interp_accel *a) { return gsl_interp_eval(s->interp, s->x, s->y, v, a); }
void gsl_spline_free(gsl_spline *s) { if (!s) return; gsl_interp_free(s->interp); free(s->x); free(s->y); free(s); }
}
