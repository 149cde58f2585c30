// Runtime of the symbolic engine: expression DAG, path conditions, fork-based
// exploration, z3 queries. Not instrumented. See DESIGN.md ("Engine").
#include <cfloat>
#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <errno.h>
#include <exception>
#include <execinfo.h>
#include <fcntl.h>
#include <map>
#include <regex>
#include <sstream>
#include <set>
#include <semaphore.h>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_map>
#include <vector>
#include <z3.h>

typedef uint64_t u64;
typedef uint32_t u32;
extern "C" void harness();

// ------------------------------------------------------------------ boxing
static inline u64 bits(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static inline double mkd(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static const u64 TAG = 0x7FFA;
static inline bool isbox(double d) { return (bits(d) >> 48) == TAG; }
static inline u32 idof(double d) { return (u32)bits(d); }
static inline double box(u32 id) { return mkd((TAG << 48) | id); }

// ------------------------------------------------------------------ nodes
enum Op : uint8_t { CONST, VAR, ADD, SUB, MUL, DIV, NEG, SQRT, EXP, LOG, ITE, UF1, UF2,
  FFLOOR, FCEIL, FTRUNC, FROUND, FRINT, FABSOP, BLT, BLE, BEQ, BNAN };
struct Node { uint8_t op; bool nl; uint16_t fid; u32 a, b, c; double cst, lo, hi; };
struct Key { u64 x, y; u64 z; bool operator==(const Key &o) const { return x==o.x&&y==o.y&&z==o.z; } };
struct KeyH { size_t operator()(const Key &k) const {
  u64 h = k.x*0x9E3779B97F4A7C15ull ^ (k.y+0x7F4A7C15)*0xC2B2AE3D27D4EB4Full ^ k.z*0x165667B19E3779F9ull;
  return h ^ (h>>29); } };
static std::vector<Node> N;
static std::unordered_map<Key, u32, KeyH> H;
static std::vector<std::string> ufnames;
static std::vector<std::string> varnames; // by N[id].fid for VAR
static bool FPMODE = false, NOITE = false;
typedef u32 Lit; // node<<1 | neg
static const Lit LTRUE = 0xFFFFFFFE, LFALSE = 0xFFFFFFFF;
static inline Lit neg(Lit l) { return l ^ 1; }

static double up(double x) { return std::nextafter(x, INFINITY); }
static double dn(double x) { return std::nextafter(x, -INFINITY); }
static u32 mk(uint8_t op, u32 a, u32 b, u32 c, double cst, uint16_t fid, double lo, double hi, bool nl) {
  Key k{((u64)op << 48) | ((u64)fid << 32) | a, ((u64)b << 32) | c, bits(cst)};
  auto it = H.find(k);
  if (it != H.end()) return it->second;
  if (std::isnan(lo)) lo = -INFINITY;
  if (std::isnan(hi)) hi = INFINITY;
  N.push_back({op, nl, fid, a, b, c, cst, lo, hi});
  u32 id = N.size() - 1;
  H[k] = id;
  return id;
}
static u32 K(double c) { if (c == 0 && !FPMODE) c = 0; return mk(CONST, 0, 0, 0, c, 0, c, c, false); }
static bool isK(u32 n) { return N[n].op == CONST; }
static bool isK(u32 n, double v) { return N[n].op == CONST && N[n].cst == v; }
static u32 of(double d) { return isbox(d) ? idof(d) : K(d); }
static double out(u32 n) { return isK(n) ? N[n].cst : box(n); }

static u32 Add(u32 a, u32 b), Sub(u32 a, u32 b), Mul(u32 a, u32 b), Div(u32 a, u32 b), Neg(u32 a), Ite(Lit c, u32 t, u32 e), Exp(u32 a), Log(u32 a), Sqrt(u32 a), Powi(u32 a, int k);

static u32 Add(u32 a, u32 b) {
  if (!FPMODE) {
    if (isK(a, 0)) return b;
    if (isK(b, 0)) return a;
    if (N[b].op == NEG) return Sub(a, N[b].a);
    if (N[a].op == NEG) return Sub(b, N[a].a);
    if (isK(a)) std::swap(a, b);
    if (isK(b) && N[a].op == ADD && isK(N[a].b)) { // fold when exact
      return Add(N[a].a, K(N[N[a].b].cst + N[b].cst));
    }
    if (N[a].op == SUB && N[a].b == b) return N[a].a;
    if (N[b].op == SUB && N[b].b == a) return N[b].a;
    if (N[a].op == DIV && N[b].op == DIV && N[a].b == N[b].b) return Div(Add(N[a].a, N[b].a), N[a].b);
  }
  return mk(ADD, a, b, 0, 0, 0, dn(N[a].lo + N[b].lo), up(N[a].hi + N[b].hi), N[a].nl || N[b].nl);
}
static u32 Sub(u32 a, u32 b) {
  if (!FPMODE) {
    if (a == b) return K(0);
    if (isK(b, 0)) return a;
    if (isK(a, 0)) return Neg(b);
    if (N[b].op == NEG) return Add(a, N[b].a);
    if (isK(b)) return Add(a, K(-N[b].cst));
    if (N[a].op == ADD) { if (N[a].a == b) return N[a].b; if (N[a].b == b) return N[a].a; }
    if (N[b].op == SUB && N[b].a == a) return N[b].b;
  }
  return mk(SUB, a, b, 0, 0, 0, dn(N[a].lo - N[b].hi), up(N[a].hi - N[b].lo), N[a].nl || N[b].nl);
}
static u32 Neg(u32 a) {
  if (isK(a)) return K(-N[a].cst);
  if (N[a].op == NEG) return N[a].a;
  if (!FPMODE && N[a].op == SUB) return Sub(N[a].b, N[a].a);
  if (!FPMODE && N[a].op == MUL && isK(N[a].b)) return Mul(N[a].a, K(-N[N[a].b].cst));
  return mk(NEG, a, 0, 0, 0, 0, -N[a].hi, -N[a].lo, N[a].nl);
}
static double m0(double x, double y) { return (x == 0 || y == 0) ? 0 : x * y; }
static bool exactmul(double x, double y, double &r) { r = x * y; return std::isfinite(r) && std::fma(x, y, -r) == 0; }
static u32 Mul(u32 a, u32 b) {
  if (!FPMODE) {
    if (isK(a)) std::swap(a, b);
    if (isK(b, 0)) return b;
    if (isK(b, 1)) return a;
    if (isK(b, -1)) return Neg(a);
    if (isK(b)) {
      if (N[a].op == NEG) return Mul(N[a].a, K(-N[b].cst));
      if (N[a].op == MUL && isK(N[a].b)) return Mul(N[a].a, K(N[N[a].b].cst * N[b].cst));
    } else {
      if (N[a].op == DIV && N[a].b == b) return N[a].a;
      if (N[b].op == DIV && N[b].b == a) return N[b].a;
      if (N[a].op == SQRT && a == b) return N[a].a;
      if (b < a) std::swap(a, b);
    }
  }
  double p[4] = {m0(N[a].lo, N[b].lo), m0(N[a].lo, N[b].hi), m0(N[a].hi, N[b].lo), m0(N[a].hi, N[b].hi)};
  double lo = dn(*std::min_element(p, p + 4)), hi = up(*std::max_element(p, p + 4));
  if (a == b && lo < 0) lo = 0;
  if (N[a].lo >= 0 && N[b].lo >= 0 && lo < 0) lo = 0;
  return mk(MUL, a, b, 0, 0, 0, lo, hi, N[a].nl || N[b].nl || !(isK(a) || isK(b)));
}
static u32 Div(u32 a, u32 b) {
  if (!FPMODE) {
    if (isK(b, 1)) return a;
    if (isK(b, -1)) return Neg(a);
    if (isK(a, 0)) return a;
    if (a == b) return K(1);
    if (isK(b)) { double r = 1.0 / N[b].cst; int e; if (std::frexp(N[b].cst, &e) == 0.5 || std::frexp(N[b].cst, &e) == -0.5) return Mul(a, K(r)); }
    if (N[a].op == MUL) { if (N[a].a == b) return N[a].b; if (N[a].b == b) return N[a].a; }
    if (N[a].op == DIV) return Div(N[a].a, Mul(N[a].b, b));
    if (N[b].op == DIV) return Div(Mul(a, N[b].b), N[b].a);
  }
  double lo = -INFINITY, hi = INFINITY;
  if (N[b].lo > 0 || N[b].hi < 0) {
    double x[4] = {N[a].lo / N[b].lo, N[a].lo / N[b].hi, N[a].hi / N[b].lo, N[a].hi / N[b].hi};
    bool bad = false; for (double q : x) if (std::isnan(q)) bad = true;
    if (!bad) { lo = dn(*std::min_element(x, x + 4)); hi = up(*std::max_element(x, x + 4)); }
    if (N[a].lo >= 0 && N[b].lo > 0 && lo < 0) lo = 0;
  }
  return mk(DIV, a, b, 0, 0, 0, lo, hi, N[a].nl || N[b].nl || !isK(b));
}
static u32 Sqrt(u32 a) {
  if (!FPMODE && N[a].op == MUL && N[a].a == N[a].b) {
    u32 x = N[a].a;
    if (N[x].lo >= 0) return x;
    if (N[x].hi <= 0) return Neg(x);
  }
  double lo = N[a].lo > 0 ? dn(std::sqrt(N[a].lo)) : 0, hi = N[a].hi > 0 ? up(std::sqrt(N[a].hi)) : 0;
  return mk(SQRT, a, 0, 0, 0, 0, FPMODE ? -INFINITY : std::max(lo, 0.0), FPMODE ? INFINITY : hi, true);
}
// ---- log-linear forms:  n = sum coef*log(arg) + k
struct LL { bool ok = false; std::map<u32, double> t, at; double k = 0; }; // at: other terms
static LL loglin(u32 n, int depth = 0) {
  LL r;
  if (depth > 200) return r;
  const Node x = N[n];
  switch (x.op) {
  case CONST: r.ok = std::isfinite(x.cst); r.k = x.cst; return r;
  case LOG: r.ok = true; r.t[x.a] = 1; return r;
  case ADD: case SUB: {
    LL a = loglin(x.a, depth + 1); if (!a.ok) return r;
    LL b = loglin(x.b, depth + 1); if (!b.ok) return r;
    double s = x.op == ADD ? 1 : -1;
    for (auto &p : b.t) { a.t[p.first] += s * p.second; if (a.t[p.first] == 0) a.t.erase(p.first); }
    for (auto &p : b.at) { a.at[p.first] += s * p.second; if (a.at[p.first] == 0) a.at.erase(p.first); }
    a.k += s * b.k; return a;
  }
  case NEG: { LL a = loglin(x.a, depth + 1); if (!a.ok) return r; for (auto &p : a.t) p.second = -p.second; for (auto &p : a.at) p.second = -p.second; a.k = -a.k; return a; }
  case MUL: case DIV: {
    if (!isK(x.b)) { r.ok = true; r.at[n] = 1; return r; }
    LL a = loglin(x.a, depth + 1); if (!a.ok) return r;
    double s = x.op == MUL ? N[x.b].cst : 1.0 / N[x.b].cst;
    for (auto &p : a.t) p.second *= s;
    for (auto &p : a.at) p.second *= s;
    a.k *= s; return a;
  }
  default: r.ok = true; r.at[n] = 1; return r;
  }
}
static bool haslog(u32 n) { LL l = loglin(n); return l.ok && !l.t.empty(); }
static bool isint(double d) { return d == std::floor(d) && std::fabs(d) <= 16; }
// prod of args^|coef| over terms with sign s ; all coefs must be integers
static u32 prodside(const LL &l, int s) {
  u32 p = K(1);
  for (auto &t : l.t) if (t.second * s > 0) p = Mul(p, Powi(t.first, (int)std::fabs(t.second)));
  return p;
}
static bool scaleint(LL &l, double &f, bool any = true) {
  std::vector<double> ss{1.0, 2.0, 4.0, 3.0, 6.0, 8.0};
  if (any) { double m = 0; for (auto &t : l.t) if (m == 0 || std::fabs(t.second) < m) m = std::fabs(t.second); if (m > 0) ss.insert(ss.begin(), 1.0 / m); }
  for (double s : ss) {
    bool ok = true;
    for (auto &t : l.t) { double c = t.second * s; if (std::fabs(c - std::round(c)) > 1e-14 * std::fabs(c) || std::round(c) == 0 || std::fabs(c) > 16) ok = false; }
    if (ok) { for (auto &t : l.t) t.second = std::round(t.second * s); l.k *= s; f = s; return true; }
  }
  return false;
}
static u32 simp(u32 n);
static double snap(double r) { // real arithmetic: exp(log(c)) is c
  int e; double m = std::frexp(r, &e);
  double q = std::ldexp(std::round(std::ldexp(m, 26)), -26);
  return std::fabs(q - m) <= 1e-15 ? std::ldexp(q, e) : r;
}
static u32 Exp(u32 a) {
  if (isK(a)) return K(FPMODE ? std::exp(N[a].cst) : snap(std::exp(N[a].cst)));
  if (N[a].op == LOG) return N[a].a;
  LL l = loglin(a);
  if (l.t.empty() && l.at.empty()) return K(snap(std::exp(l.k)));
  if (!FPMODE && N[a].op == ITE && (haslog(N[a].a) || haslog(N[a].b))) { u32 t = N[a].a, e = N[a].b; Lit c = N[a].c; u32 x = Exp(t), y = Exp(e); return Ite(c, x, y); }
  if (l.ok && !l.t.empty()) {
    double f;
    LL l2 = l;
    if (scaleint(l2, f, false) && (f == 1 || f == 2 || f == 4)) {
      u32 num = prodside(l2, 1), den = prodside(l2, -1);
      u32 r = simp(Div(num, den));
      if (f == 2) r = Sqrt(r);
      if (f == 4) r = Sqrt(Sqrt(r));
      if (!l.at.empty()) {
        u32 e = K(0);
        for (auto &p : l.at) e = Add(e, Mul(p.first, K(p.second)));
        r = Mul(r, Exp(e));
      }
      if (l.k != 0) r = Mul(r, K(snap(std::exp(l.k))));
      return r;
    }
  }
  return mk(EXP, a, 0, 0, 0, 0, std::max(0.0, dn(dn(std::exp(N[a].lo)))), up(up(std::exp(N[a].hi))), true);
}
static u32 Log(u32 a) {
  if (isK(a)) return K(std::log(N[a].cst));
  if (N[a].op == EXP) return N[a].a;
  if (!FPMODE && (N[a].op == DIV || N[a].op == MUL)) { // exp(x)*c/exp(y)
    u32 p = N[a].a, q = N[a].b; bool d = N[a].op == DIV;
    auto ex = [](u32 n) { return N[n].op == EXP || (isK(n) && N[n].cst > 0) || ((N[n].op == DIV || N[n].op == MUL) && ((N[N[n].a].op == EXP && isK(N[n].b)) || (N[N[n].b].op == EXP && isK(N[n].a)) || (N[N[n].a].op == EXP && N[N[n].b].op == EXP))); };
    if (ex(p) && ex(q) && N[p].lo >= 0 && N[q].lo >= 0) return d ? Sub(Log(p), Log(q)) : Add(Log(p), Log(q));
  }
  return mk(LOG, a, 0, 0, 0, 0, N[a].lo > 0 ? dn(dn(std::log(N[a].lo))) : -INFINITY, N[a].hi > 0 ? up(up(std::log(N[a].hi))) : INFINITY, true);
}
static u32 Powi(u32 a, int k) {
  if (k == 0) return K(1);
  if (k < 0) return Div(K(1), Powi(a, -k));
  if (k == 1) return a;
  u32 h = Powi(a, k / 2);
  u32 r = Mul(h, h);
  return (k & 1) ? Mul(r, a) : r;
}
static u32 Ite(Lit c, u32 t, u32 e) {
  if (t == e) return t;
  if (c == LTRUE) return t;
  if (c == LFALSE) return e;
  if (c & 1) { c ^= 1; std::swap(t, e); }
  if (!FPMODE) {
    // keep logs outermost so that exp()/comparisons can cancel them
    if (N[t].op == LOG && N[e].op == LOG) return Log(Ite(c, N[t].a, N[e].a));
    if ((N[t].op == MUL) && (N[e].op == MUL) && isK(N[t].b) && N[t].b == N[e].b) return Mul(Ite(c, N[t].a, N[e].a), N[t].b);
    if (N[t].op == NEG && N[e].op == NEG) return Neg(Ite(c, N[t].a, N[e].a));
    if (haslog(t) && haslog(e)) {
      LL lt = loglin(t), le = loglin(e);
      if (lt.at == le.at) {
        u32 at = K(0);
        for (auto &p : lt.at) at = Add(at, Mul(p.first, K(p.second)));
        lt.at.clear(); le.at.clear();
        double f, f2; LL a = lt, b = le;
        if (scaleint(a, f, false) && scaleint(b, f2, false) && f == 1 && f2 == 1) {
          auto ex = [](LL &l) { u32 r = Div(prodside(l, 1), prodside(l, -1)); return l.k != 0 ? Mul(r, K(snap(std::exp(l.k)))) : r; };
          u32 x = ex(a), y = ex(b);
          return Add(Log(Ite(c, x, y)), at);
        }
      }
    }
  }
  double lo = std::min(N[t].lo, N[e].lo), hi = std::max(N[t].hi, N[e].hi);
  // interval refinement for min/max/abs patterns
  const Node &cn = N[c >> 1];
  if (!FPMODE && cn.op == BLT) {
    if (cn.a == e && cn.b == t) { lo = std::max(N[t].lo, N[e].lo); }            // e<t ? t : e  = max
    else if (cn.a == t && cn.b == e) { hi = std::min(N[t].hi, N[e].hi); }       // min
    else if (isK(cn.b, 0) && cn.a == e && N[t].op == NEG && N[t].a == e) { lo = std::max(lo, 0.0); } // |e|
  }
  return mk(ITE, t, e, c, 0, 0, lo, hi, N[t].nl || N[e].nl || N[c >> 1].nl);
}
static uint16_t ufid(const char *n) {
  for (size_t i = 0; i < ufnames.size(); i++) if (ufnames[i] == n) return i;
  ufnames.push_back(n); return ufnames.size() - 1;
}
// ---- literals
static Lit Lt(u32 a, u32 b) {
  if (isK(a) && isK(b)) return N[a].cst < N[b].cst ? LTRUE : LFALSE;
  if (!FPMODE) {
    if (a == b) return LFALSE;
    if (N[a].hi < N[b].lo) return LTRUE;
    if (N[a].lo >= N[b].hi) return LFALSE;
    if (haslog(a) || haslog(b)) {
      u32 d = Sub(a, b); LL l = loglin(d); double f;
      if (l.ok && l.t.empty() && l.at.empty()) return l.k < 0 ? LTRUE : LFALSE;
      if (l.ok && l.at.empty() && std::fabs(l.k) < 600 && scaleint(l, f)) { // sum c log u + k < 0
        u32 p = prodside(l, 1), q = prodside(l, -1);
        if (l.k > 0) p = Mul(p, K(snap(std::exp(l.k)))); else if (l.k < 0) q = Mul(q, K(snap(std::exp(-l.k))));
        return Lt(p, q);
      }
    }
    if (N[a].op == EXP && N[b].op == EXP) return Lt(N[a].a, N[b].a);
    if (N[a].op == SQRT && N[b].op == SQRT) return Lt(N[a].a, N[b].a);
    // x*c < y*c / x/c<y/c / x+c<y+c simplifications
    if (N[a].op == ADD && N[b].op == ADD && N[a].b == N[b].b) return Lt(N[a].a, N[b].a);
    if (N[a].op == ADD && N[b].op == ADD && N[a].a == N[b].a) return Lt(N[a].b, N[b].b);
    if (N[a].op == DIV && N[b].op == DIV && N[a].b == N[b].b) {
      if (N[N[a].b].lo > 0) return Lt(N[a].a, N[b].a);
      if (N[N[a].b].hi < 0) return Lt(N[b].a, N[a].a);
    }
    if (isK(b, 0) && N[a].op == NEG) return Lt(b, N[a].a);
    if (isK(a, 0) && N[b].op == NEG) return Lt(N[b].a, a);
    if (isK(b, 0) || isK(a, 0)) { // sign of a product or ratio with a part of known sign
      u32 z = isK(b, 0) ? b : a, x = isK(b, 0) ? a : b;
      if (N[x].op == MUL || N[x].op == DIV) {
        u32 p = N[x].a, q = N[x].b; int sp = N[p].lo > 0 ? 1 : N[p].hi < 0 ? -1 : 0, sq = N[q].lo > 0 ? 1 : N[q].hi < 0 ? -1 : 0;
        u32 r = sq ? p : q; int sg = sq ? sq : sp;
        if (sg) return (z == b) == (sg > 0) ? Lt(r, K(0)) : Lt(K(0), r);
      }
    }
    if (isK(b, 0) && N[a].op == SUB) return Lt(N[a].a, N[a].b);
    if (isK(a, 0) && N[b].op == SUB) return Lt(N[b].b, N[b].a);
    if (N[a].op == NEG && N[b].op == NEG) return Lt(N[b].a, N[a].a);
  }
  return mk(BLT, a, b, 0, 0, 0, 0, 1, N[a].nl || N[b].nl) << 1;
}
static Lit Le(u32 a, u32 b) {
  if (!FPMODE) return neg(Lt(b, a));
  if (isK(a) && isK(b)) return N[a].cst <= N[b].cst ? LTRUE : LFALSE;
  return mk(BLE, a, b, 0, 0, 0, 0, 1, false) << 1;
}
static Lit Eq(u32 a, u32 b) {
  if (isK(a) && isK(b)) return N[a].cst == N[b].cst ? LTRUE : LFALSE;
  if (!FPMODE) {
    if (a == b) return LTRUE;
    if (N[a].hi < N[b].lo || N[a].lo > N[b].hi) return LFALSE;
    if (haslog(a) || haslog(b)) {
      u32 d = Sub(a, b); LL l = loglin(d); double f;
      if (l.ok && l.t.empty() && l.at.empty()) return l.k == 0 ? LTRUE : LFALSE;
      if (l.ok && l.at.empty() && std::fabs(l.k) < 600 && scaleint(l, f)) {
        u32 p = prodside(l, 1), q = prodside(l, -1);
        if (l.k > 0) p = Mul(p, K(snap(std::exp(l.k)))); else if (l.k < 0) q = Mul(q, K(snap(std::exp(-l.k))));
        return Eq(p, q);
      }
    }
    if (isK(b, 0) && N[a].op == NEG) return Eq(N[a].a, b);
    if (isK(b, 0) && N[a].op == MUL) { if (N[N[a].a].lo > 0 || N[N[a].a].hi < 0) return Eq(N[a].b, b); if (N[N[a].b].lo > 0 || N[N[a].b].hi < 0) return Eq(N[a].a, b); }
    if (isK(b, 0) && N[a].op == DIV) return Eq(N[a].a, b);
    if (isK(b, 0) && N[a].op == SUB) return Eq(N[a].a, N[a].b);
    if (b < a) std::swap(a, b);
  }
  return mk(BEQ, a, b, 0, 0, 0, 0, 1, N[a].nl || N[b].nl) << 1;
}
static Lit IsNan(u32 a) {
  if (!FPMODE) return LFALSE;
  if (isK(a)) return std::isnan(N[a].cst) ? LTRUE : LFALSE;
  return mk(BNAN, a, 0, 0, 0, 0, 0, 1, false) << 1;
}

// ------------------------------------------------------------------ shared state
struct FnRec { char name[200]; };
struct Shared {
  sem_t tokens;
  std::atomic<long> paths, pruned, forks, q_sat, q_unsat, q_unk, q_model, q_ival, asserts, viols, hangs, unsupported, aborted_deadline, solver_ns, samples, violspur, nodes_max, depth_max, fpto, procs_started, procs_ended;
  std::atomic<int> stop, known;
  std::atomic<int> nfn, ncov, nass;
  std::atomic<int> lock;
  double deadline;
  FnRec fn[6000];
  char cov[256][64]; std::atomic<long> covn[256];
  char ass[256][160]; std::atomic<long> assn[256];
  char unsup[64][160]; std::atomic<int> nunsup;
};
static Shared *S;
static void lockS() { int e; do { e = 0; if (S->lock.compare_exchange_strong(e, 1)) return; usleep(10);} while (1); }
static void unlockS() { S->lock = 0; }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static bool concrete = false;
static std::vector<std::pair<std::string, std::string>> replayIn; static size_t replayPos = 0;
static std::string outdir;
static long RLIMIT = 3000000; static int MAXVIOL = 3, SAMPLES = 40; static double PATHSEC = 60; static bool VERBOSE = false; static double SLOW = 0;

// inputs of this path in order
struct Input { std::string name; int kind; long ival; u32 node; double scale; };
static std::vector<Input> inputs;
struct Obs { std::string name; double v; };
static std::vector<Obs> obs;
static std::vector<pid_t> kids;
static bool haveToken = true;
static int depth = 0;
static std::vector<Lit> PC;
static std::unordered_map<Lit, bool> known; // literals decided on this path
static std::vector<std::vector<u32>> leafcache; static std::vector<char> leafdone;
static bool busyZ3 = false;

// ------------------------------------------------------------------ z3
static Z3_context C;
static Z3_sort RS, FS; static Z3_ast RM, RMZ, RMP, RMN, RMA;
static std::vector<Z3_ast> Z; // translation cache (arith or bool node)
static std::vector<Z3_ast> leafval; // model value per leaf node (exact numeral) or null
static bool valsOK = true;
static void z3err(Z3_context, Z3_error_code e) { fprintf(stderr, "z3 error %s\n", Z3_get_error_msg(C, e)); }
static void initz3() {
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context(cfg);
  Z3_set_error_handler(C, z3err);
  RS = Z3_mk_real_sort(C);
  FS = Z3_mk_fpa_sort_double(C);
  Z3_inc_ref(C, (Z3_ast)RS); Z3_inc_ref(C, (Z3_ast)FS);
  RM = Z3_mk_fpa_rne(C); RMZ = Z3_mk_fpa_rtz(C); RMP = Z3_mk_fpa_rtp(C); RMN = Z3_mk_fpa_rtn(C); RMA = Z3_mk_fpa_rna(C);
  for (Z3_ast r : {RM, RMZ, RMP, RMN, RMA}) Z3_inc_ref(C, r);
}
static Z3_ast numeral(double d) {
  if (FPMODE) return Z3_mk_fpa_numeral_double(C, d, FS);
  int e; double m = std::frexp(d, &e);
  long long mi = (long long)std::ldexp(m, 53); e -= 53;
  if (mi == 0) return Z3_mk_numeral(C, "0", RS);
  while (!(mi & 1)) { mi >>= 1; e++; }
  char buf[64]; snprintf(buf, sizeof buf, "%lld", mi);
  if (e == 0) return Z3_mk_numeral(C, buf, RS);
  // 2^|e| as a decimal string
  std::string dec = "1";
  for (int i = 0, k = std::abs(e); i < k; i++) { int c = 0; for (size_t j = dec.size(); j-- > 0;) { int v = (dec[j] - '0') * 2 + c; dec[j] = '0' + v % 10; c = v / 10; } if (c) dec.insert(dec.begin(), '0' + c); }
  Z3_ast p = Z3_mk_numeral(C, dec.c_str(), RS);
  Z3_ast mm = Z3_mk_numeral(C, buf, RS);
  Z3_ast args[2] = {mm, p};
  return Z3_simplify(C, e > 0 ? Z3_mk_mul(C, 2, args) : Z3_mk_div(C, mm, p));
}
static Z3_ast tr(u32 n);
static Z3_ast trl(Lit l) {
  if (l == LTRUE) return Z3_mk_true(C);
  if (l == LFALSE) return Z3_mk_false(C);
  Z3_ast a = tr(l >> 1);
  return (l & 1) ? Z3_mk_not(C, a) : a;
}
// ---- rational normal form: numerator node, denominator = product of factor nodes of known positive sign
typedef std::vector<std::pair<u32, int>> Fac;
struct RF { u32 num; Fac den; };
static std::unordered_map<u32, RF> rfcache;
static void facadd(Fac &f, u32 n, int k) {
  for (auto &p : f) if (p.first == n) { p.second += k; return; }
  f.push_back({n, k});
}
static void facsplit(Fac &f, u32 n, int k, double &c) { // n = c * product
  const Node x = N[n];
  if (x.op == CONST) { for (int i = 0; i < k; i++) c *= x.cst; return; }
  if (x.op == MUL) { facsplit(f, x.a, k, c); facsplit(f, x.b, k, c); return; }
  if (x.op == NEG) { if (k & 1) c = -c; facsplit(f, x.a, k, c); return; }
  facadd(f, n, k);
}
static u32 facmul(u32 n, const Fac &f) { for (auto &p : f) n = Mul(n, Powi(p.first, p.second)); return n; }
static Fac faclcm(const Fac &a, const Fac &b) { Fac r = a; for (auto &p : b) { bool h = false; for (auto &q : r) if (q.first == p.first) { q.second = std::max(q.second, p.second); h = true; } if (!h) r.push_back(p); } return r; }
static Fac facdiff(const Fac &l, const Fac &a) { Fac r; for (auto p : l) { for (auto &q : a) if (q.first == p.first) p.second -= q.second; if (p.second > 0) r.push_back(p); } return r; }
static RF rfnorm(u32 num, Fac den) { // cancel product factors of the numerator
  if (den.empty() || isK(num, 0)) return {num, {}};
  Fac nf; double c = 1; facsplit(nf, num, 1, c);
  bool hit = false;
  for (auto &p : nf) for (auto &q : den) if (p.first == q.first) { int m = std::min(p.second, q.second); if (m > 0) { p.second -= m; q.second -= m; hit = true; } }
  if (!hit) return {num, den};
  RF r{K(c), {}};
  for (auto &p : nf) if (p.second) r.num = Mul(r.num, Powi(p.first, p.second));
  for (auto &q : den) if (q.second) r.den.push_back(q);
  return r;
}
static RF rf(u32 n) {
  Node x = N[n];
  if (!(x.op == ADD || x.op == SUB || x.op == MUL || x.op == DIV || x.op == NEG)) return {n, {}};
  if (!x.nl) return {n, {}};
  auto it = rfcache.find(n); if (it != rfcache.end()) return it->second;
  RF r{n, {}};
  RF A = rf(x.a);
  if (x.op == NEG) r = {Neg(A.num), A.den};
  else {
    RF B = rf(x.b);
    if (x.op == ADD || x.op == SUB) {
      Fac l = faclcm(A.den, B.den);
      u32 p = facmul(A.num, facdiff(l, A.den)), q = facmul(B.num, facdiff(l, B.den));
      r = rfnorm(x.op == ADD ? Add(p, q) : Sub(p, q), l);
    } else if (x.op == MUL) {
      RF A2 = rfnorm(A.num, B.den), B2 = rfnorm(B.num, A.den);
      Fac l = B2.den; for (auto &p : A2.den) facadd(l, p.first, p.second);
      r = {Mul(A2.num, B2.num), l};
    } else { // DIV
      if (isK(B.num) && B.den.empty()) { r = {isK(B.num) ? Div(A.num, B.num) : n, A.den}; }
      else {
        int sg = (N[x.b].lo > 0 || N[B.num].lo > 0) ? 1 : (N[x.b].hi < 0 || N[B.num].hi < 0) ? -1 : 0;
        if (sg) {
          Fac bf; double c = 1; facsplit(bf, B.num, 1, c);
          // every factor must have a known sign; otherwise keep the product whole
          bool ok = true;
          for (auto &p : bf) if (!(N[p.first].lo > 0)) ok = false;
          Fac l = A.den;
          RF T{facmul(A.num, B.den), {}};
          if (ok && c != 0) {
            if (c != 1) T.num = Div(T.num, K(c));
            for (auto &p : bf) facadd(l, p.first, p.second);
          } else { if (sg < 0) T.num = Neg(T.num); facadd(l, sg < 0 ? Neg(B.num) : B.num, 1); }
          r = rfnorm(T.num, l);
        }
      }
    }
  }
  rfcache[n] = r;
  return r;
}
static u32 simp(u32 n) {
  RF r = rf(n);
  return r.den.empty() ? r.num : Div(r.num, facmul(K(1), r.den));
}
// ---- polynomials over atoms; coefficients are doubles, cancellation below 1e-13 of the magnitude is zero
typedef std::vector<u32> Mono;
struct Poly { bool ok = true; std::map<Mono, std::pair<double, double>> t; };
static std::unordered_map<u32, Poly> polycaches[2];
static int expsplit = 0; // exp(p+q) = exp(p)exp(q) in the normal form
static const size_t PCAP = 1200;
static long polywork = 0;
static void padd(Poly &r, const Poly &o, double s) {
  for (auto &p : o.t) { auto &q = r.t[p.first]; q.first += s * p.second.first; q.second = std::max(q.second, std::fabs(s) * p.second.second); if (std::fabs(q.first) <= 1e-13 * q.second) r.t.erase(p.first); }
  if (r.t.size() > PCAP) r.ok = false;
}
static Poly pmul(const Poly &a, const Poly &b) {
  Poly r;
  if (!a.ok || !b.ok || a.t.size() * b.t.size() > 60000) { r.ok = false; return r; }
  polywork += a.t.size() * b.t.size();
  for (auto &p : a.t) for (auto &q : b.t) {
    Mono m; m.reserve(p.first.size() + q.first.size());
    std::merge(p.first.begin(), p.first.end(), q.first.begin(), q.first.end(), std::back_inserter(m));
    if (m.size() > 24) { r.ok = false; return r; }
    auto &x = r.t[m]; double v = p.second.first * q.second.first;
    x.first += v; x.second = std::max({x.second, std::fabs(v), 0.0});
  }
  for (auto i = r.t.begin(); i != r.t.end();) { if (std::fabs(i->second.first) <= 1e-13 * i->second.second) i = r.t.erase(i); else ++i; }
  if (r.t.size() > PCAP) r.ok = false;
  return r;
}
static u32 canonarg(u32 a);
static const Poly &poly(u32 n) {
  auto &polycache = polycaches[expsplit];
  auto it = polycache.find(n); if (it != polycache.end()) return it->second;
  Node x = N[n]; Poly r;
  switch (x.op) {
  case CONST: if (x.cst != 0) r.t[{}] = {x.cst, std::fabs(x.cst)}; break;
  case ADD: case SUB: { r = poly(x.a); const Poly &b = poly(x.b); r.ok &= b.ok; if (r.ok) padd(r, b, x.op == ADD ? 1 : -1); break; }
  case NEG: { Poly z; z.ok = poly(x.a).ok; if (z.ok) padd(z, poly(x.a), -1); r = z; break; }
  case MUL: r = pmul(poly(x.a), poly(x.b)); break;
  case DIV: if (isK(x.b)) { Poly z; z.ok = poly(x.a).ok; if (z.ok) padd(z, poly(x.a), 1.0 / N[x.b].cst); r = z; break; }
  case UF1: { // canonical argument
    if (!expsplit) { r.t[{n}] = {1, 1}; break; }
    u32 s = canonarg(x.a);
    r.t[{mk(UF1, s, 0, 0, 0, x.fid, x.lo, x.hi, true)}] = {1, 1};
    break;
  }
  default: r.t[{n}] = {1, 1};
  }
  // sqrt(a)^2 = a
  if (r.ok) for (int guard = 0; guard < 8; guard++) {
    Mono hit; u32 sq = 0; bool f = false;
    for (auto &p : r.t) { for (size_t i = 0; i + 1 < p.first.size(); i++) if (p.first[i] == p.first[i + 1] && N[p.first[i]].op == SQRT) { hit = p.first; sq = p.first[i]; f = true; break; } if (f) break; }
    if (!f) break;
    auto cf = r.t[hit]; r.t.erase(hit);
    Mono rest; int drop = 2; for (u32 a : hit) { if (a == sq && drop) { drop--; continue; } rest.push_back(a); }
    Poly one; one.t[rest] = cf;
    Poly m = pmul(one, poly(N[sq].a));
    if (!m.ok) { r.ok = false; break; }
    padd(r, m, 1);
  }
  return polycache[n] = r;
}
static double round12(double v) { char t[40]; snprintf(t, sizeof t, "%.12g", v); return atof(t); }
// the same value written as a sum of monomials over a common denominator, coefficients to 12 digits
static u32 canonarg(u32 a) {
  RF R = rf(a); Poly A = poly(R.num);
  if (!A.ok || A.t.size() > 40) return a;
  for (auto &f : R.den) while (f.second > 0 && !A.t.empty()) { // common factors
    bool all = true;
    for (auto &q : A.t) all = all && std::binary_search(q.first.begin(), q.first.end(), f.first);
    if (!all) break;
    Poly B;
    for (auto &q : A.t) { Mono m = q.first; m.erase(std::lower_bound(m.begin(), m.end(), f.first)); B.t[m] = q.second; }
    A = B; f.second--;
  }
  R.den.erase(std::remove_if(R.den.begin(), R.den.end(), [](auto &f) { return f.second <= 0; }), R.den.end());
  std::sort(R.den.begin(), R.den.end());
  u32 s = K(0);
  for (auto &q : A.t) { u32 e = K(round12(q.second.first)); for (u32 at : q.first) e = Mul(e, at); s = Add(s, e); }
  return R.den.empty() ? s : Div(s, facmul(K(1), R.den));
}
// one exponential per monomial
static void expmerge(Poly &P) {
  Poly Q;
  for (auto &p : P.t) {
    Mono m; u32 s = K(0); bool any = false;
    for (u32 v : p.first) if (N[v].op == EXP) { s = any ? Add(s, N[v].a) : N[v].a; any = true; } else m.push_back(v);
    Poly one;
    if (any) {
      u32 e = canonarg(s);
      if (!isK(e)) { m.push_back(mk(EXP, e, 0, 0, 0, 0, std::max(0.0, dn(dn(std::exp(N[e].lo)))), up(up(std::exp(N[e].hi))), true)); std::sort(m.begin(), m.end()); one.t[m] = p.second; }
      else one.t[m] = {p.second.first * std::exp(N[e].cst), p.second.second * std::exp(N[e].cst)};
    } else one.t[m] = p.second;
    padd(Q, one, 1);
  }
  P = Q;
}
// sign-preserving polynomial of a-b ; false when too large
static bool diffpoly(u32 a, u32 b, Poly &P) {
  RF A = rf(a), B = rf(b);
  Fac l = faclcm(A.den, B.den);
  u32 d = Sub(facmul(A.num, facdiff(l, A.den)), facmul(B.num, facdiff(l, B.den)));
  P = poly(d);
  if (!P.ok) return false;
  if (P.t.empty()) return true;
  // strip common positive atoms
  Mono common = P.t.begin()->first;
  for (auto &p : P.t) { Mono o; std::set_intersection(common.begin(), common.end(), p.first.begin(), p.first.end(), std::back_inserter(o)); common.swap(o); if (common.empty()) break; }
  Mono pos; for (u32 c : common) if (N[c].lo > 0) pos.push_back(c);
  if (!pos.empty()) {
    Poly Q;
    for (auto &p : P.t) { Mono o; std::set_difference(p.first.begin(), p.first.end(), pos.begin(), pos.end(), std::back_inserter(o)); Q.t[o] = p.second; }
    P = Q;
  }
  return true;
}
// linear normal form over non-linear atoms, coefficients rounded to double
struct Lin { std::map<u32, std::pair<double, double>> t; double k = 0, km = 0; };
static std::unordered_map<u32, Lin> lincache;
static const Lin &lin(u32 n) {
  auto it = lincache.find(n); if (it != lincache.end()) return it->second;
  Node x = N[n]; Lin r;
  auto addto = [&](const Lin &o, double s) {
    for (auto &p : o.t) { auto &q = r.t[p.first]; q.first += s * p.second.first; q.second = std::max(q.second, std::fabs(s) * p.second.second); }
    r.k += s * o.k; r.km = std::max(r.km, std::fabs(s) * o.km);
  };
  switch (x.op) {
  case CONST: r.k = x.cst; r.km = std::fabs(x.cst); break;
  case ADD: addto(lin(x.a), 1); addto(lin(x.b), 1); break;
  case SUB: addto(lin(x.a), 1); addto(lin(x.b), -1); break;
  case NEG: addto(lin(x.a), -1); break;
  case MUL: if (lin(x.b).t.empty()) { double k = lin(x.b).k; addto(lin(x.a), k); } else r.t[n] = {1, 1}; break;
  case DIV: if (lin(x.b).t.empty() && lin(x.b).k != 0) { double k = lin(x.b).k; addto(lin(x.a), 1.0 / k); } else r.t[n] = {1, 1}; break;
  default: r.t[n] = {1, 1};
  }
  for (auto i = r.t.begin(); i != r.t.end();) { if (std::fabs(i->second.first) <= 1e-15 * i->second.second) i = r.t.erase(i); else ++i; }
  if (std::fabs(r.k) <= 1e-15 * r.km && std::fabs(r.k) < 1e-12) r.k = 0;
  return lincache[n] = r;
}
static Z3_ast atom(u32 n);
static Z3_ast linast(const Lin &l, bool withk) {
  std::vector<Z3_ast> ts;
  for (auto &p : l.t) {
    Z3_ast a = atom(p.first);
    if (p.second.first == 1) ts.push_back(a);
    else { Z3_ast m[2] = {numeral(p.second.first), a}; ts.push_back(Z3_mk_mul(C, 2, m)); }
  }
  if (withk && l.k != 0) ts.push_back(numeral(l.k));
  if (ts.empty()) return numeral(0);
  return ts.size() == 1 ? ts[0] : Z3_mk_add(C, ts.size(), ts.data());
}
static Z3_ast tr(u32 n) {
  if (!FPMODE && n < N.size()) {
    uint8_t o = N[n].op;
    if (o == ADD || o == SUB || o == NEG || ((o == MUL || o == DIV) && isK(N[n].b))) {
      if (n < Z.size() && Z[n]) return Z[n];
      Z3_ast r = linast(lin(n), true); Z3_inc_ref(C, r);
      if (n >= Z.size()) Z.resize(N.size() + 1024, nullptr);
      return Z[n] = r;
    }
  }
  return atom(n);
}
static Z3_ast atom(u32 n) {
  if (n >= Z.size()) Z.resize(N.size() + 1024, nullptr);
  if (Z[n]) return Z[n];
  Node x = N[n];
  Z3_ast r = nullptr, a, b;
  char nm[64];
  switch (x.op) {
  case CONST: r = numeral(x.cst); break;
  case VAR: snprintf(nm, sizeof nm, "v%u", n); r = Z3_mk_const(C, Z3_mk_string_symbol(C, nm), FPMODE ? FS : RS); break;
  case ADD: case SUB: case MUL: {
    a = tr(x.a); b = tr(x.b); Z3_ast ar[2] = {a, b};
    if (FPMODE) r = x.op == ADD ? Z3_mk_fpa_add(C, RM, a, b) : x.op == SUB ? Z3_mk_fpa_sub(C, RM, a, b) : Z3_mk_fpa_mul(C, RM, a, b);
    else r = x.op == ADD ? Z3_mk_add(C, 2, ar) : x.op == SUB ? Z3_mk_sub(C, 2, ar) : Z3_mk_mul(C, 2, ar);
    break;
  }
  case DIV: a = tr(x.a); b = tr(x.b); r = FPMODE ? Z3_mk_fpa_div(C, RM, a, b) : Z3_mk_div(C, a, b); break;
  case NEG: r = FPMODE ? Z3_mk_fpa_neg(C, tr(x.a)) : Z3_mk_unary_minus(C, tr(x.a)); break;
  case SQRT: if (FPMODE) { r = Z3_mk_fpa_sqrt(C, RM, tr(x.a)); break; } // fallthrough
  case EXP: case LOG: case UF1: case UF2:
    snprintf(nm, sizeof nm, "u%u", n); r = Z3_mk_const(C, Z3_mk_string_symbol(C, nm), FPMODE ? FS : RS); break;
  case ITE: a = tr(x.a); b = tr(x.b); r = Z3_mk_ite(C, trl(x.c), a, b); break;
  case FABSOP: r = Z3_mk_fpa_abs(C, tr(x.a)); break;
  case FFLOOR: r = Z3_mk_fpa_round_to_integral(C, RMN, tr(x.a)); break;
  case FCEIL: r = Z3_mk_fpa_round_to_integral(C, RMP, tr(x.a)); break;
  case FTRUNC: r = Z3_mk_fpa_round_to_integral(C, RMZ, tr(x.a)); break;
  case FROUND: r = Z3_mk_fpa_round_to_integral(C, RMA, tr(x.a)); break;
  case FRINT: r = Z3_mk_fpa_round_to_integral(C, RM, tr(x.a)); break;
  case BLT: case BEQ:
    if (FPMODE) { r = x.op == BLT ? Z3_mk_fpa_lt(C, tr(x.a), tr(x.b)) : Z3_mk_fpa_eq(C, tr(x.a), tr(x.b)); break; }
    if (x.nl) {
      Poly P;
      if (diffpoly(x.a, x.b, P)) {
        double k = 0; auto c0 = P.t.find({}); if (c0 != P.t.end()) { k = c0->second.first; P.t.erase(c0); }
        if (P.t.empty()) { r = (x.op == BLT ? k < 0 : k == 0) ? Z3_mk_true(C) : Z3_mk_false(C); break; }
        std::set<u32> exs;
        for (auto &p : P.t) for (u32 v : p.first) if (N[v].op == EXP || N[v].op == UF1) exs.insert(v);
        if (exs.size() > 1) {
          Poly Q; expsplit = 1; bool okq = diffpoly(x.a, x.b, Q); if (okq) expmerge(Q); expsplit = 0;
          bool same = okq, strict = false; int sg = 0; // all terms of the same known sign
          if (okq) for (auto &q : Q.t) {
            bool st = true;
            for (size_t i = 0; i < q.first.size(); i++) {
              u32 v = q.first[i];
              if (N[v].lo > 0) continue;
              st = false;
              if (N[v].lo >= 0) continue;
              if (i + 1 < q.first.size() && q.first[i + 1] == v) i++; else same = false;
            }
            int s1 = q.second.first > 0 ? 1 : -1;
            if (sg && s1 != sg) same = false;
            sg = s1; strict = strict || st;
          }
          if (same && (strict || Q.t.empty())) { r = (x.op == BLT ? sg < 0 : sg == 0) ? Z3_mk_true(C) : Z3_mk_false(C); break; }
          if (same && sg >= 0 && x.op == BLT) { r = Z3_mk_false(C); break; }
        }
        std::vector<Z3_ast> ts;
        bool lin1 = true;
        for (auto &p : P.t) { if (p.first.size() > 1) lin1 = false; for (u32 v : p.first) if (N[v].nl && N[v].op != SQRT) lin1 = false; }
        if (lin1) N[n].nl = false; // the comparison is linear after normalisation
        for (auto &p : P.t) {
          std::vector<Z3_ast> f;
          if (p.second.first != 1) f.push_back(numeral(p.second.first));
          for (u32 v : p.first) f.push_back(atom(v));
          ts.push_back(f.size() == 1 ? f[0] : Z3_mk_mul(C, f.size(), f.data()));
        }
        a = ts.size() == 1 ? ts[0] : Z3_mk_add(C, ts.size(), ts.data()); b = numeral(-k);
      } else {
        RF A = rf(x.a), B = rf(x.b); Fac l = faclcm(A.den, B.den);
        u32 df = Sub(facmul(A.num, facdiff(l, A.den)), facmul(B.num, facdiff(l, B.den)));
        if (isK(df)) { r = (x.op == BLT ? N[df].cst < 0 : N[df].cst == 0) ? Z3_mk_true(C) : Z3_mk_false(C); break; }
        const Lin &L = lin(df); a = linast(L, false); b = numeral(-L.k);
      }
    } else { u32 df = Sub(x.a, x.b);
      if (isK(df)) { r = (x.op == BLT ? N[df].cst < 0 : N[df].cst == 0) ? Z3_mk_true(C) : Z3_mk_false(C); break; }
      const Lin &L = lin(df); a = linast(L, false); b = numeral(-L.k); }
    r = x.op == BLT ? Z3_mk_lt(C, a, b) : Z3_mk_eq(C, a, b);
    break;
  case BLE: r = Z3_mk_fpa_leq(C, tr(x.a), tr(x.b)); break;
  case BNAN: r = Z3_mk_fpa_is_nan(C, tr(x.a)); break;
  }
  Z3_inc_ref(C, r);
  if (n >= Z.size()) Z.resize(N.size() + 1024, nullptr);
  Z[n] = r;
  return r;
}
static bool isleaf(const Node &x) { return x.op == VAR || (!FPMODE && (x.op == SQRT || x.op == EXP || x.op == LOG)) || x.op == UF1 || x.op == UF2; }
// leaves (VAR and UF nodes, transitively through UF arguments)
static const std::vector<u32> &leaves(u32 n) {
  if (n >= leafdone.size()) { leafdone.resize(N.size() + 256, 0); leafcache.resize(N.size() + 256); }
  if (leafdone[n]) return leafcache[n];
  Node x = N[n];
  std::vector<u32> r;
  auto merge = [&](u32 k) { const auto &o = leaves(k); std::vector<u32> t; std::set_union(r.begin(), r.end(), o.begin(), o.end(), std::back_inserter(t)); r.swap(t); };
  switch (x.op) {
  case CONST: break;
  case VAR: r.push_back(n); break;
  case ITE: merge(x.a); merge(x.b); merge(x.c >> 1); break;
  case NEG: case SQRT: case EXP: case LOG: case UF1: case BNAN: case FFLOOR: case FCEIL: case FTRUNC: case FROUND: case FRINT: case FABSOP: merge(x.a); break;
  default: merge(x.a); merge(x.b);
  }
  if (isleaf(x) && x.op != VAR) { std::vector<u32> t{n}, u; std::set_union(r.begin(), r.end(), t.begin(), t.end(), std::back_inserter(u)); r.swap(u); }
  if (n >= leafdone.size()) { leafdone.resize(N.size() + 256, 0); leafcache.resize(N.size() + 256); }
  leafcache[n] = r; leafdone[n] = 1;
  return leafcache[n];
}
static void axioms(const std::vector<u32> &lv, std::vector<Z3_ast> &out) {
  auto num = [&](const char *s) { return Z3_mk_numeral(C, s, RS); };
  std::vector<u32> ex, lg;
  std::map<int, std::vector<u32>> uf;
  for (u32 n : lv) {
    Node x = N[n];
    Z3_ast v = tr(n);
    if (FPMODE) {
      if (x.op == VAR) {
        if (x.cst == 0) { if (std::isfinite(x.lo)) out.push_back(Z3_mk_fpa_leq(C, numeral(x.lo), v)); if (std::isfinite(x.hi)) out.push_back(Z3_mk_fpa_leq(C, v, numeral(x.hi))); }
      }
      continue;
    }
    if (std::isfinite(x.lo)) out.push_back(Z3_mk_le(C, numeral(x.lo), v));
    if (std::isfinite(x.hi)) out.push_back(Z3_mk_le(C, v, numeral(x.hi)));
    if (x.op == SQRT) {
      Z3_ast m[2] = {v, v};
      out.push_back(Z3_mk_ge(C, v, num("0")));
      out.push_back(Z3_mk_eq(C, Z3_mk_mul(C, 2, m), tr(x.a)));
    } else if (x.op == EXP) ex.push_back(n);
    else if (x.op == LOG) lg.push_back(n);
    else if (x.op == UF1) uf[x.fid].push_back(n);
  }
  for (u32 n : ex) {
    Z3_ast e = tr(n), a = tr(N[n].a);
    Z3_ast s[2] = {a, num("1")};
    out.push_back(Z3_mk_gt(C, e, num("0")));
    out.push_back(Z3_mk_ge(C, e, Z3_mk_add(C, 2, s)));
    out.push_back(Z3_mk_iff(C, Z3_mk_lt(C, a, num("0")), Z3_mk_lt(C, e, num("1"))));
    out.push_back(Z3_mk_iff(C, Z3_mk_eq(C, a, num("0")), Z3_mk_eq(C, e, num("1"))));
  }
  if (ex.size() <= 12) for (size_t i = 0; i < ex.size(); i++) for (size_t j = i + 1; j < ex.size(); j++) {
    out.push_back(Z3_mk_iff(C, Z3_mk_lt(C, tr(N[ex[i]].a), tr(N[ex[j]].a)), Z3_mk_lt(C, tr(ex[i]), tr(ex[j]))));
    out.push_back(Z3_mk_iff(C, Z3_mk_eq(C, tr(N[ex[i]].a), tr(N[ex[j]].a)), Z3_mk_eq(C, tr(ex[i]), tr(ex[j]))));
  }
  for (u32 n : lg) {
    Z3_ast l = tr(n), a = tr(N[n].a);
    Z3_ast s[2] = {a, num("1")};
    out.push_back(Z3_mk_le(C, l, Z3_mk_sub(C, 2, s)));
    out.push_back(Z3_mk_iff(C, Z3_mk_lt(C, a, num("1")), Z3_mk_lt(C, l, num("0"))));
    out.push_back(Z3_mk_iff(C, Z3_mk_eq(C, a, num("1")), Z3_mk_eq(C, l, num("0"))));
  }
  if (lg.size() <= 12) for (size_t i = 0; i < lg.size(); i++) for (size_t j = i + 1; j < lg.size(); j++) {
    out.push_back(Z3_mk_iff(C, Z3_mk_lt(C, tr(N[lg[i]].a), tr(N[lg[j]].a)), Z3_mk_lt(C, tr(lg[i]), tr(lg[j]))));
    out.push_back(Z3_mk_iff(C, Z3_mk_eq(C, tr(N[lg[i]].a), tr(N[lg[j]].a)), Z3_mk_eq(C, tr(lg[i]), tr(lg[j]))));
  }
  for (auto &f : uf) {
    const std::string &nm = ufnames[f.first];
    bool mono = nm == "erf" || nm == "atan" || nm == "tanh" || nm == "cbrt" || nm == "sinh";
    bool anti = nm == "erfc";
    auto &v = f.second;
    for (u32 n : v) {
      if (nm == "erf" || nm == "tanh" || nm == "atan" || nm == "sinh" || nm == "cbrt") {
        out.push_back(Z3_mk_iff(C, Z3_mk_lt(C, tr(N[n].a), num("0")), Z3_mk_lt(C, tr(n), num("0"))));
        out.push_back(Z3_mk_iff(C, Z3_mk_gt(C, tr(N[n].a), num("0")), Z3_mk_gt(C, tr(n), num("0"))));
      }
    }
    if ((mono || anti) && v.size() <= 12)
      for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++) {
        Z3_ast l = Z3_mk_le(C, tr(N[v[i]].a), tr(N[v[j]].a));
        out.push_back(Z3_mk_iff(C, l, mono ? Z3_mk_le(C, tr(v[i]), tr(v[j])) : Z3_mk_ge(C, tr(v[i]), tr(v[j]))));
      }
    else if (v.size() <= 12) // congruence
      for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++)
        out.push_back(Z3_mk_implies(C, Z3_mk_eq(C, tr(N[v[i]].a), tr(N[v[j]].a)), Z3_mk_eq(C, tr(v[i]), tr(v[j]))));
  }
}
static void dumpnode(u32 n, int d) {
  static const char *nm[] = {"CONST", "VAR", "ADD", "SUB", "MUL", "DIV", "NEG", "SQRT", "EXP", "LOG", "ITE", "UF1", "UF2"};
  const Node &x = N[n];
  if (x.op == CONST) { fprintf(stderr, "%.17g", x.cst); return; }
  if (x.op == VAR) { fprintf(stderr, "v%u", n); return; }
  if (d == 0 || x.op > UF2) { fprintf(stderr, "#%u", n); return; }
  fprintf(stderr, "(%s:%u ", nm[x.op], n); dumpnode(x.a, d - 1);
  if (x.op == ADD || x.op == SUB || x.op == MUL || x.op == DIV || x.op == ITE || x.op == UF2) { fputc(' ', stderr); dumpnode(x.b, d - 1); }
  fputc(')', stderr);
}
static std::vector<u32> slice(const std::vector<u32> &seed, std::vector<Lit> &lits) {
  std::vector<u32> cur = seed;
  std::vector<char> in(PC.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < PC.size(); i++) if (!in[i]) {
      const auto &l = leaves(PC[i] >> 1);
      bool hit = false;
      for (size_t p = 0, q = 0; p < l.size() && q < cur.size();) { if (l[p] == cur[q]) { hit = true; break; } if (l[p] < cur[q]) p++; else q++; }
      if (hit) { in[i] = 1; ch = true; lits.push_back(PC[i]); std::vector<u32> t; std::set_union(cur.begin(), cur.end(), l.begin(), l.end(), std::back_inserter(t)); cur.swap(t); }
    }
  }
  return cur;
}
// returns 1 sat,0 unsat,-1 unknown; on sat fills model values
static int solve(const std::vector<Z3_ast> &fs, bool nl, const std::vector<u32> &lv, std::vector<std::pair<u32, Z3_ast>> *model, long rl = 0) {
  if (!rl) rl = RLIMIT;
  busyZ3 = true;
  double t0 = now();
  int res = -1;
  for (int attempt = 0; attempt < 2 && res < 0; attempt++) {
    Z3_solver s;
    if (FPMODE) { if (attempt) break; s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_FP")); }
    else if (!nl) { if (attempt) break; s = Z3_mk_simple_solver(C); }
    else if (attempt == 0) s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_NRA"));
    else s = Z3_mk_simple_solver(C);
    Z3_solver_inc_ref(C, s);
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "rlimit"), (unsigned)(attempt ? rl / 2 : rl));
    if (nl) Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), (unsigned)(PATHSEC * 1000 / 5)); // the resource limit does not stop every step of the non-linear solver
    Z3_solver_set_params(C, s, p);
    for (auto f : fs) Z3_solver_assert(C, s, f);
    Z3_lbool r = Z3_solver_check(C, s);
    if (r == Z3_L_UNDEF && VERBOSE) fprintf(stderr, "UNKNOWN %s\n%s\n", Z3_solver_get_reason_unknown(C, s), Z3_solver_to_string(C, s));
    if (r == Z3_L_FALSE) res = 0;
    else if (r == Z3_L_TRUE) {
      res = 1;
      if (model) {
        Z3_model m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, m);
        model->clear();
        for (u32 n : lv) { Z3_ast v = nullptr; if (Z3_model_eval(C, m, tr(n), true, &v)) { Z3_inc_ref(C, v); model->push_back({n, v}); } }
        Z3_model_dec_ref(C, m);
      }
    }
    Z3_params_dec_ref(C, p);
    Z3_solver_dec_ref(C, s);
  }
  S->solver_ns += (long)((now() - t0) * 1e9);
  if (const char *dq = getenv("SYM_DUMPQ")) { char pn[300]; static int qn = 0; snprintf(pn, sizeof pn, "%s/q-%d-%d-%s.smt2", dq, (int)getpid(), qn++, res == 1 ? "sat" : res == 0 ? "unsat" : "unk"); if (FILE *qf = fopen(pn, "w")) { Z3_solver s = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, s); for (auto f : fs) Z3_solver_assert(C, s, f); fprintf(qf, "%s(check-sat)\n", Z3_solver_to_string(C, s)); fclose(qf); Z3_solver_dec_ref(C, s); } }
  if (SLOW > 0 && now() - t0 > SLOW) { fprintf(stderr, "SLOW %.2fs res=%d nl=%d\n", now() - t0, res, (int)nl); for (auto f : fs) fprintf(stderr, "  %s\n", Z3_ast_to_string(C, f)); for (u32 n : lv) if (N[n].op != VAR) { fprintf(stderr, "  leaf u%u = ", n); dumpnode(n, 6); fputc('\n', stderr); } }
  if (res == 1) S->q_sat++; else if (res == 0) S->q_unsat++; else S->q_unk++;
  busyZ3 = false;
  return res;
}
static int quickDecide(Lit l);
static int checkLits(const std::vector<Lit> &extra, std::vector<std::pair<u32, Z3_ast>> *model, long rl = 0) {
  for (Lit l : extra) if (quickDecide(l) == 0) return 0;
  std::vector<u32> seed;
  for (Lit l : extra) { const auto &o = leaves(l >> 1); std::vector<u32> t; std::set_union(seed.begin(), seed.end(), o.begin(), o.end(), std::back_inserter(t)); seed.swap(t); }
  std::vector<Lit> lits;
  auto lv = slice(seed, lits);
  bool nl = false;
  std::vector<Z3_ast> fs;
  for (Lit l : lits) { fs.push_back(trl(l)); nl |= N[l >> 1].nl; }
  for (Lit l : extra) { fs.push_back(trl(l)); nl |= N[l >> 1].nl; }
  for (u32 n : lv) nl |= N[n].op == SQRT;
  axioms(lv, fs);
  return solve(fs, nl, lv, model, rl);
}
static void setval(u32 n, Z3_ast v) {
  if (n >= leafval.size()) leafval.resize(N.size() + 64, nullptr);
  leafval[n] = v;
}
static Z3_ast defval(u32 n) {
  const Node &x = N[n];
  double lo = std::isfinite(x.lo) ? x.lo : -1, hi = std::isfinite(x.hi) ? x.hi : lo + 2;
  if (hi < lo) lo = hi;
  double v = x.op == VAR ? lo + (hi - lo) / 2 : lo;
  Z3_ast r = numeral(v); Z3_inc_ref(C, r); return r;
}
// 1 true 0 false -1 unknown, under the current model values
static int evalLit(Lit l) {
  if (!valsOK) return -1;
  const auto &lv = leaves(l >> 1);
  std::vector<Z3_ast> from, to;
  for (u32 n : lv) {
    if (n < leafval.size() && leafval[n]) {}
    else if (N[n].op == VAR) setval(n, defval(n));
    else return -1;
    from.push_back(tr(n)); to.push_back(leafval[n]);
  }
  busyZ3 = true;
  Z3_ast r = Z3_simplify(C, Z3_substitute(C, trl(l), from.size(), from.data(), to.data()));
  busyZ3 = false;
  Z3_lbool b = Z3_get_bool_value(C, r);
  return b == Z3_L_TRUE ? 1 : b == Z3_L_FALSE ? 0 : -1;
}

// ------------------------------------------------------------------ double evaluation
static std::map<u32, double> leafd;
static std::unordered_map<u32, double> evc;
static double evd(u32 n);
static bool evl(Lit l) {
  if (l == LTRUE) return true; if (l == LFALSE) return false;
  Node x = N[l >> 1]; bool r;
  if (x.op == BLT) r = evd(x.a) < evd(x.b); else if (x.op == BLE) r = evd(x.a) <= evd(x.b); else if (x.op == BEQ) r = evd(x.a) == evd(x.b); else r = std::isnan(evd(x.a));
  return r ^ (l & 1);
}
static double evd(u32 n) {
  Node x = N[n];
  if (x.op == CONST) return x.cst;
  auto it = evc.find(n); if (it != evc.end()) return it->second;
  double r = 0;
  switch (x.op) {
  case VAR: r = leafd[n]; break;
  case ADD: r = evd(x.a) + evd(x.b); break;
  case SUB: r = evd(x.a) - evd(x.b); break;
  case MUL: r = evd(x.a) * evd(x.b); break;
  case DIV: r = evd(x.a) / evd(x.b); break;
  case NEG: r = -evd(x.a); break;
  case SQRT: r = std::sqrt(evd(x.a)); break;
  case EXP: r = std::exp(evd(x.a)); break;
  case LOG: r = std::log(evd(x.a)); break;
  case ITE: r = evl(x.c) ? evd(x.a) : evd(x.b); break;
  case FFLOOR: r = std::floor(evd(x.a)); break;
  case FCEIL: r = std::ceil(evd(x.a)); break;
  case FTRUNC: r = std::trunc(evd(x.a)); break;
  case FROUND: r = std::round(evd(x.a)); break;
  case FRINT: r = std::rint(evd(x.a)); break;
  case FABSOP: r = std::fabs(evd(x.a)); break;
  case UF1: { const std::string &f = ufnames[x.fid]; double a = evd(x.a);
    r = f == "erf" ? erf(a) : f == "erfc" ? erfc(a) : f == "sin" ? sin(a) : f == "cos" ? cos(a) : f == "tan" ? tan(a) : f == "atan" ? atan(a) : f == "asin" ? asin(a) : f == "acos" ? acos(a) : f == "tanh" ? tanh(a) : f == "sinh" ? sinh(a) : f == "cosh" ? cosh(a) : f == "cbrt" ? cbrt(a) : NAN; break; }
  case UF2: r = ufnames[x.fid] == "pow" ? pow(evd(x.a), evd(x.b)) : atan2(evd(x.a), evd(x.b)); break;
  default: r = NAN;
  }
  evc[n] = r; return r;
}
static double astToDouble(Z3_ast v) {
  if (FPMODE) {
    if (Z3_fpa_is_numeral_nan(C, v)) return NAN;
    Z3_ast iv = Z3_simplify(C, Z3_mk_fpa_to_ieee_bv(C, v));
    uint64_t u; if (Z3_get_numeral_uint64(C, iv, &u)) return mkd(u);
    return 0;
  }
  if (Z3_is_algebraic_number(C, v)) { Z3_ast lo = Z3_get_algebraic_number_lower(C, v, 60); v = lo; }
  std::string s = Z3_get_numeral_string(C, v); // p/q
  // correctly rounded enough: use long double division of decimal strings
  size_t sl = s.find('/');
  if (sl == std::string::npos) return strtod(s.c_str(), nullptr);
  const char *ds = Z3_get_numeral_decimal_string(C, v, 40);
  std::string d = ds; if (!d.empty() && d.back() == '?') d.pop_back();
  double r = strtod(d.c_str(), nullptr);
  if (std::fabs(r) < 1e-15) { long double p = strtold(s.substr(0, sl).c_str(), nullptr), q = strtold(s.substr(sl + 1).c_str(), nullptr); r = (double)(p / q); }
  return r;
}

// ------------------------------------------------------------------ path end
static void writeInputs(FILE *f) {
  for (auto &i : inputs) {
    if (i.kind == 0) { double v = leafd.count(i.node) ? leafd[i.node] : NAN; if (i.scale != 0) v = i.scale * std::log(v); fprintf(f, "in %s %a %.17g\n", i.name.c_str(), v, v); }
    else fprintf(f, "in %s %ld\n", i.name.c_str(), i.ival);
  }
}
// a model of the whole path condition in doubles; margin>0 strengthens last literal
static bool fullModel(bool nice) {
  std::vector<u32> lv; bool nl = false; std::vector<Z3_ast> base;
  for (Lit l : PC) { base.push_back(trl(l)); nl |= N[l >> 1].nl; const auto &o = leaves(l >> 1); std::vector<u32> t; std::set_union(lv.begin(), lv.end(), o.begin(), o.end(), std::back_inserter(t)); lv.swap(t); }
  for (auto &i : inputs) if (i.kind == 0) { std::vector<u32> one{i.node}, t; std::set_union(lv.begin(), lv.end(), one.begin(), one.end(), std::back_inserter(t)); lv.swap(t); }
  for (u32 n : lv) nl |= N[n].op == SQRT;
  axioms(lv, base);
  std::vector<std::pair<u32, Z3_ast>> m;
  int r = -1;
  if (nice && !FPMODE && !PC.empty()) {
    Lit l = PC.back(); Node x = N[l >> 1];
    if (x.op == BLT) for (double mg : {0.125, 1.0 / 1024, 1e-6}) {
      auto fs = base;
      u32 big = (l & 1) ? x.a : x.b, small = (l & 1) ? x.b : x.a;
      u32 q = Lt(Add(small, K(mg)), big); if (q == LFALSE) continue;
      fs.push_back(trl(q));
      r = solve(fs, nl, lv, &m, RLIMIT / 3);
      if (r == 1) { base = fs; break; }
    }
    if (x.op == BEQ && (l & 1)) for (double mg : {0.125, 1.0 / 1024, 1e-6}) {
      auto fs = base; Z3_ast a = tr(x.a), b = tr(x.b), k = numeral(mg);
      Z3_ast d1[2] = {a, k}, d2[2] = {b, k};
      Z3_ast o[2] = {Z3_mk_lt(C, Z3_mk_add(C, 2, d1), b), Z3_mk_lt(C, Z3_mk_add(C, 2, d2), a)};
      fs.push_back(Z3_mk_or(C, 2, o));
      r = solve(fs, nl, lv, &m);
      if (r == 1) { base = fs; break; }
    }
  }
  if (r != 1) r = solve(base, nl, lv, &m);
  if (r != 1) return false;
  if (nice && !FPMODE) {
    int budget = 60;
    for (size_t k = 0; k < m.size() && budget > 0; k++) {
      u32 n = m[k].first; if (N[n].op != VAR) continue;
      double d = astToDouble(m[k].second);
      bool fixed = false;
      for (double q : {1.0, 1.0 / 16, 1.0 / 1024, 1.0 / 1048576}) {
        double c = std::round(d / q) * q;
        if (c < N[n].lo || c > N[n].hi) continue;
        auto fs = base; fs.push_back(Z3_mk_eq(C, tr(n), numeral(c)));
        std::vector<std::pair<u32, Z3_ast>> m2;
        budget--;
        if (solve(fs, nl, lv, &m2, RLIMIT / 4) == 1) { base = fs; m = m2; fixed = true; break; }
        if (budget <= 0) break;
      }
      (void)fixed;
    }
  }
  leafd.clear(); evc.clear();
  for (auto &p : m) leafd[p.first] = astToDouble(p.second);
  return true;
}
static void finish(int) __attribute__((noreturn));
static void finish(int) {
  if (haveToken) { sem_post(&S->tokens); haveToken = false; }
  S->procs_ended++;
  for (pid_t p : kids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
  _exit(0);
}
static void checkStop() {
  if (S->stop) finish(0);
  if (now() > S->deadline) { S->aborted_deadline++; finish(0); }
}
// runs the harness concretely on a candidate counterexample
static bool confirmed(const char *path) {
  pid_t p = fork();
  if (p == 0) {
    setenv("SYM_PATHSEC", "20", 1);
    int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2);
    execl("/proc/self/exe", "x", "--replay", path, (char *)nullptr);
    _exit(99);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (!WIFEXITED(st)) return true;
  int c = WEXITSTATUS(st);
  return c == 3 || c == 4 || c == 5;
}
// messages of the findings already recorded: kept apart so that they do not end the exploration
static bool isknown(const char *msg) {
  const char *e = getenv("SYM_KNOWN");
  if (!e || !*e) return false;
  std::istringstream is(e);
  for (std::string l; std::getline(is, l);)
    if (!l.empty() && std::regex_search(msg, std::regex(l))) return true;
  return false;
}
static void violation(const char *kind, const char *msg) {
  const bool kn = isknown(msg);
  if (kn && S->known++ >= 3) return;
  if (S->viols >= MAXVIOL * 4) { S->stop = 1; return; }
  if (S->violspur > 200) { S->violspur++; return; }
  for (int attempt = 0; attempt < 2; attempt++) {
    if (attempt && S->violspur > 12) break;
    if (!fullModel(attempt == 1)) continue;
    char path[512], fin[512]; snprintf(path, sizeof path, "%s/try-%d.txt", outdir.c_str(), (int)getpid());
    FILE *f = fopen(path, "w");
    if (!f) return;
    fprintf(f, "kind %s\nmsg %s\n", kind, msg);
    writeInputs(f);
    fclose(f);
    if (!confirmed(path)) { if (VERBOSE) { fprintf(stderr, "SPURIOUS %s\n", msg); if (!PC.empty()) { const Node &x = N[PC.back() >> 1]; fprintf(stderr, " last literal %s", (PC.back() & 1) ? "not " : ""); dumpnode(x.a, 12); fprintf(stderr, " op%d ", x.op); dumpnode(x.b, 12); fprintf(stderr, "\n"); } } if (VERBOSE) { std::string k = std::string(path) + ".spur"; rename(path, k.c_str()); } else unlink(path); continue; }
    long v = kn ? 1000000 + getpid() : S->viols++;
    snprintf(fin, sizeof fin, "%s/viol-%ld.txt", outdir.c_str(), v);
    rename(path, fin);
    if (kn) return;
    if (S->viols >= MAXVIOL) S->stop = 1;
    return;
  }
  S->violspur++;
}
static void endPath() {
  long k = S->paths++;
  if ((long)N.size() > S->nodes_max) S->nodes_max = N.size();
  if (depth > S->depth_max) S->depth_max = depth;
  bool take = k < SAMPLES / 2 || ((k * 2654435761u) % 997) < 5;
  if (take && S->samples < SAMPLES) {
    if (fullModel(false)) {
      long id = S->samples++;
      char path[512]; snprintf(path, sizeof path, "%s/sample-%ld.txt", outdir.c_str(), id);
      FILE *f = fopen(path, "w");
      if (f) {
        writeInputs(f);
        for (auto &o : obs) { double v = isbox(o.v) ? evd(idof(o.v)) : o.v; fprintf(f, "obs %s %.17g\n", o.name.c_str(), v); }
        fclose(f);
      }
    }
  }
  finish(0);
}
static void unsupported(const char *what) {
  if (concrete) return;
  S->unsupported++;
  lockS(); int i; for (i = 0; i < S->nunsup; i++) if (!strncmp(S->unsup[i], what, 159)) break;
  if (i == S->nunsup && i < 64) { strncpy(S->unsup[i], what, 159); S->nunsup++; }
  unlockS();
  if (VERBOSE) { fprintf(stderr, "UNSUPPORTED %s\n", what); void *bt[40]; int n = backtrace(bt, 40); backtrace_symbols_fd(bt, n, 2); }
  finish(0);
}
// ------------------------------------------------------------------ forking
static void armTimer() { itimerval t{}; t.it_value.tv_sec = (long)PATHSEC; setitimer(ITIMER_PROF, &t, nullptr); }
// returns true in the child
static bool forkPath() {
  checkStop();
  bool tok = sem_trywait(&S->tokens) == 0;
  S->forks++; S->procs_started++;
  pid_t p = fork();
  if (p < 0) { unsupported("fork failed"); }
  if (p == 0) {
    kids.clear(); depth++;
    if (!tok) {} // inherits the waiting parent's slot
    haveToken = tok ? true : haveToken;
    if (!tok) haveToken = false; // slot is returned by the ancestor that owns it
    armTimer();
    return true;
  }
  if (tok) kids.push_back(p);
  else { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} armTimer(); checkStop(); }
  depth++;
  return false;
}
// bounds of single atoms implied by the path condition; they settle most
// comparisons without a solver call, with a margin far above rounding
static std::unordered_map<u32, std::pair<double, double>> dyn;
// the comparison as the solver sees it: sum < 0 or sum == 0
static std::unordered_map<u32, Lin> cmpcache;
static const Lin *cmpform(u32 n) {
  auto it = cmpcache.find(n);
  if (it == cmpcache.end()) {
    Node x = N[n]; Lin L; bool ok = true;
    if (x.nl) {
      Poly P;
      if (diffpoly(x.a, x.b, P)) {
        for (auto &p : P.t) {
          if (p.first.empty()) L.k = p.second.first;
          else if (p.first.size() == 1) L.t[p.first[0]] = p.second;
          else ok = false;
        }
      } else ok = false;
    } else { u32 d = Sub(x.a, x.b); if (isK(d)) ok = false; else L = lin(d); }
    if (!ok) { L.t.clear(); L.k = NAN; }
    it = cmpcache.emplace(n, L).first;
  }
  return std::isnan(it->second.k) ? nullptr : &it->second;
}
struct Exact { double lo = -INFINITY, hi = INFINITY; bool los = false, his = false; };
static std::unordered_map<u32, Exact> dynx; // bounds from literals +-v < k: exact
static void atomBounds(u32 n, double &lo, double &hi) {
  lo = N[n].lo; hi = N[n].hi;
  if (std::isnan(lo)) lo = -INFINITY;
  if (std::isnan(hi)) hi = INFINITY;
  auto it = dyn.find(n);
  if (it != dyn.end()) { lo = std::max(lo, it->second.first); hi = std::min(hi, it->second.second); }
}
static void learn(Lit l) {
  if (FPMODE || l <= 1) return;
  Node x = N[l >> 1];
  if ((x.op != BLT && x.op != BEQ) || (x.op == BEQ && (l & 1))) return;
  const Lin *pL = cmpform(l >> 1);
  if (!pL) return;
  const Lin &L = *pL;
  if (L.t.size() != 1) return;
  u32 v = L.t.begin()->first; double a = L.t.begin()->second.first, th = -L.k / a; // a*v + k  <,>=,=  0
  if (!std::isfinite(th) || a == 0) return;
  double lo, hi; atomBounds(v, lo, hi);
  if (std::fma(th, a, L.k) == 0) {
    auto it = dynx.find(v); if (it == dynx.end()) { Exact z; if (std::isfinite(N[v].lo)) z.lo = N[v].lo; if (std::isfinite(N[v].hi)) z.hi = N[v].hi; it = dynx.emplace(v, z).first; }
    Exact &z = it->second;
    bool strict = x.op == BLT && !(l & 1);
    bool upx = (x.op == BEQ) || ((a > 0) != bool(l & 1)), lox = x.op == BEQ || !upx;
    if (upx && (th < z.hi || (th == z.hi && strict))) { z.hi = th; z.his = strict; }
    if (lox && (th > z.lo || (th == z.lo && strict))) { z.lo = th; z.los = strict; }
  }
  bool up = (x.op == BEQ) || ((a > 0) != bool(l & 1)); // upper bound
  double e = 1e-13 * (1 + std::fabs(th));
  if (up) hi = std::min(hi, th + e);
  if (!up || x.op == BEQ) lo = std::max(lo, th - e);
  dyn[v] = {lo, hi};
}
static int quickDecide(Lit l) {
  if (FPMODE || l <= 1) return -1;
  Node x = N[l >> 1];
  if (x.op != BLT && x.op != BEQ) return -1;
  const Lin *pL = cmpform(l >> 1);
  if (!pL) return -1;
  const Lin &L = *pL;
  if (L.t.size() > 6) return -1;
  if (L.t.empty()) { S->q_ival++; return (x.op == BLT ? L.k < 0 : L.k == 0) ^ int(l & 1); }
  if (L.t.size() == 1) {
    u32 v = L.t.begin()->first; double a = L.t.begin()->second.first;
    auto it = dynx.find(v);
    if (it != dynx.end() && std::fma(-L.k / a, a, L.k) == 0) {
      const Exact &z = it->second; double th = -L.k / a; int r = -1;
      if (x.op == BEQ) { if (th < z.lo || th > z.hi || (th == z.lo && z.los) || (th == z.hi && z.his)) r = 0; }
      else if (a > 0) { if (z.hi < th || (z.hi == th && z.his)) r = 1; else if (z.lo >= th) r = 0; } // v < th
      else { if (z.lo > th || (z.lo == th && z.los)) r = 1; else if (z.hi <= th) r = 0; }            // v > th
      if (r >= 0) { S->q_ival++; return r ^ int(l & 1); }
    }
  }
  double lo = L.k, hi = L.k, mag = std::fabs(L.k);
  for (auto &p : L.t) {
    if (!isleaf(N[p.first])) return -1;
    double a, b; atomBounds(p.first, a, b);
    if (!std::isfinite(a) || !std::isfinite(b)) return -1;
    double c = p.second.first;
    lo += c > 0 ? c * a : c * b; hi += c > 0 ? c * b : c * a; mag += std::fabs(c) * std::max(std::fabs(a), std::fabs(b));
  }
  double e = 1e-11 * (1 + mag);
  int r = -1;
  if (x.op == BLT) { if (hi < -e) r = 1; else if (lo > e) r = 0; }
  else if (hi < -e || lo > e) r = 0;
  if (r >= 0) S->q_ival++;
  return r < 0 ? -1 : r ^ int(l & 1);
}
static void addPC(Lit l) { PC.push_back(l); known[l] = true; known[neg(l)] = false; learn(l); }
static bool branch(Lit l) {
  if (l == LTRUE) return true;
  if (l == LFALSE) return false;
  if (!FPMODE && N[l >> 1].nl && (N[l >> 1].op == BLT || N[l >> 1].op == BEQ)) {
    Z3_lbool b = Z3_get_bool_value(C, tr(l >> 1));
    if (b != Z3_L_UNDEF) return (b == Z3_L_TRUE) ^ (l & 1);
  }
  auto it = known.find(l);
  if (it != known.end()) return it->second;
  int qd = quickDecide(l);
  if (qd >= 0) { known[l] = qd; known[neg(l)] = !qd; return qd; }
  checkStop();
  int mv = evalLit(l);
  std::vector<std::pair<u32, Z3_ast>> m;
  if (mv < 0) {
    int a = checkLits({l}, &m);
    if (a == 0) { known[l] = false; known[neg(l)] = true; return false; }
    std::vector<std::pair<u32, Z3_ast>> m2;
    int b = checkLits({neg(l)}, &m2);
    if (b == 0) { known[l] = true; known[neg(l)] = false; if (a == 1) { for (auto &p : m) setval(p.first, p.second); } return true; }
    if (a == 1 && b == 1) {
      if (forkPath()) { addPC(neg(l)); for (auto &p : m2) setval(p.first, p.second); return false; }
      addPC(l); for (auto &p : m) setval(p.first, p.second); return true;
    }
    // at least one side unknown
    if (a == 1) { addPC(l); for (auto &p : m) setval(p.first, p.second); return true; }
    if (b == 1) { addPC(neg(l)); for (auto &p : m2) setval(p.first, p.second); return false; }
    addPC(l); valsOK = false; return true;
  }
  Lit t = mv ? l : neg(l);
  int r = checkLits({neg(t)}, &m);
  if (r == 0) { known[t] = true; known[neg(t)] = false; return mv; }
  if (r < 0) { addPC(t); return mv; } // unexplored side counted in q_unk
  if (forkPath()) { addPC(neg(t)); for (auto &p : m) setval(p.first, p.second); return !mv; }
  addPC(t);
  return mv;
}

// ------------------------------------------------------------------ signal / crash handling
static void crash(const char *kind, const char *msg) {
  if (concrete) { printf("CRASH %s %s\n", kind, msg); fflush(stdout); _exit(4); }
  violation(kind, msg);
  S->paths++;
  finish(0);
}
static bool inHandler = false;
static void onSig(int s) {
  if (s == SIGPROF) {
    if (concrete) _exit(5);
    S->hangs++;
    if (busyZ3 || inHandler) { finish(0); }
    inHandler = true;
    violation("hang", "path exceeded its CPU budget");
    finish(0);
  }
  if (concrete) { printf("CRASH signal %d\n", s); fflush(stdout); _exit(4); }
  if (inHandler || busyZ3) { S->unsupported++; S->procs_ended++; if (haveToken) sem_post(&S->tokens); _exit(0); }
  inHandler = true;
  if (VERBOSE) { void *bt[60]; int n = backtrace(bt, 60); backtrace_symbols_fd(bt, n, 2); }
  char m[64]; snprintf(m, sizeof m, "signal %d (%s)", s, strsignal(s));
  crash("crash", m);
}
static void onTerminate() {
  std::string what = "uncaught exception";
  try { if (auto e = std::current_exception()) std::rethrow_exception(e); else what = "terminate"; }
  catch (const std::exception &e) { what = std::string("uncaught exception: ") + e.what(); }
  catch (...) {}
  for (auto &c : what) if (c == '\n') c = ' ';
  crash("exception", what.c_str());
}

// ------------------------------------------------------------------ API
extern "C" {
static const std::string &nextIn(const char *name) {
  static std::string dflt = "0";
  if (replayPos >= replayIn.size()) { printf("REPLAY-EXHAUSTED %s\n", name); fflush(stdout); _exit(6); }
  auto &p = replayIn[replayPos++];
  if (p.first != name) { printf("REPLAY-MISMATCH %s vs %s\n", p.first.c_str(), name); fflush(stdout); _exit(6); }
  return p.second;
}
double sym_double(const char *name, double lo, double hi) {
  if (concrete) return strtod(nextIn(name).c_str(), nullptr);
  varnames.push_back(name);
  u32 n = mk(VAR, varnames.size(), 0, 0, 0, (uint16_t)varnames.size(), lo, hi, false);
  inputs.push_back({name, 0, 0, n, 0});
  return box(n);
}
double sym_logdouble(const char *name, double scale, double lo, double hi) {
  if (concrete) return strtod(nextIn(name).c_str(), nullptr);
  varnames.push_back(name);
  u32 n = mk(VAR, varnames.size(), 0, 0, 0, (uint16_t)varnames.size(), lo, hi, false);
  inputs.push_back({name, 0, 0, n, scale});
  return out(Mul(Log(n), K(scale)));
}
int sym_int(const char *name, int lo, int hi) {
  if (concrete) return atoi(nextIn(name).c_str());
  int v = lo;
  for (; v < hi; v++) if (forkPath()) break;
  inputs.push_back({name, 1, v, 0, 0});
  return v;
}
int sym_bool(const char *name) { return sym_int(name, 0, 1); }
void sym_assume(int c) {
  if (c) return;
  if (concrete) { printf("ASSUME-FAILED\n"); fflush(stdout); _exit(7); }
  S->pruned++; finish(0);
}
static int labelIdx(char (*tab)[64], std::atomic<int> &n, const char *l) {
  for (int i = 0; i < n; i++) if (!strncmp(tab[i], l, 63)) return i;
  lockS(); int i; for (i = 0; i < n; i++) if (!strncmp(tab[i], l, 63)) { unlockS(); return i; }
  if (n < 256) { strncpy(tab[n], l, 63); n++; }
  unlockS(); return i < 256 ? i : 255;
}
void sym_assert(int c, const char *msg) {
  if (concrete) { if (!c) { printf("ASSERT-FAILED %s\n", msg); fflush(stdout); _exit(3); } return; }
  S->asserts++;
  int i; for (i = 0; i < S->nass; i++) if (!strncmp(S->ass[i], msg, 159)) break;
  if (i == S->nass) { lockS(); for (i = 0; i < S->nass; i++) if (!strncmp(S->ass[i], msg, 159)) break; if (i == S->nass && i < 256) { strncpy(S->ass[i], msg, 159); S->nass++; } unlockS(); }
  if (i < 256) S->assn[i]++;
  if (!c) { violation("assert", msg); S->paths++; finish(0); }
}
void sym_cover(const char *l) { if (concrete) return; int i = labelIdx(S->cov, S->ncov, l); S->covn[i]++; }
void sym_observe(const char *n, double v) { if (concrete) printf("OBS %s %.17g\n", n, v); else obs.push_back({n, v}); }
void sym_observe_int(const char *n, long v) { sym_observe(n, (double)v); }
int sym_is_symbolic(double v) { return isbox(v); }

int __sym_fcmp_l(int pred, u32 a, u32 b) {
  switch (pred) {
  case 0: return 0;
  case 1: return branch(Eq(a, b));
  case 2: return branch(Lt(b, a));
  case 3: return branch(Le(b, a));
  case 4: return branch(Lt(a, b));
  case 5: return branch(Le(a, b));
  case 6: if (!FPMODE) return !branch(Eq(a, b)); return branch(Lt(a, b)) || branch(Lt(b, a));
  case 7: return !(branch(IsNan(a)) || branch(IsNan(b)));
  case 8: return branch(IsNan(a)) || branch(IsNan(b));
  case 9: if (!FPMODE) return branch(Eq(a, b)); return !(branch(Lt(a, b)) || branch(Lt(b, a)));
  case 10: return !branch(Le(a, b));
  case 11: return !branch(Lt(a, b));
  case 12: return !branch(Le(b, a));
  case 13: return !branch(Lt(b, a));
  case 14: return !branch(Eq(a, b));
  default: return 1;
  }
}
static int ncmp(int pred, double a, double b) {
  bool un = std::isnan(a) || std::isnan(b);
  switch (pred) {
  case 0: return 0; case 1: return a == b; case 2: return a > b; case 3: return a >= b; case 4: return a < b; case 5: return a <= b;
  case 6: return !un && a != b; case 7: return !un; case 8: return un; case 9: return un || a == b; case 10: return un || a > b; case 11: return un || a >= b;
  case 12: return un || a < b; case 13: return un || a <= b; case 14: return un || a != b; default: return 1;
  }
}
static inline bool special(double d) { return !isbox(d) && !std::isfinite(d); }
int __sym_fcmp(int pred, double a, double b) {
  if (!isbox(a) && !isbox(b)) return ncmp(pred, a, b);
  if (!FPMODE) {
    if (special(a) || special(b)) return ncmp(pred, isbox(a) ? 0.0 : a, isbox(b) ? 0.0 : b);
  }
  return __sym_fcmp_l(pred, of(a), of(b));
}
double __sym_fsel(int pred, double a, double b, double t, double f) {
  if (!isbox(a) && !isbox(b)) return ncmp(pred, a, b) ? t : f;
  if (bits(t) == bits(f)) return t;
  if (!FPMODE && (special(a) || special(b))) return __sym_fcmp(pred, a, b) ? t : f;
  if (!FPMODE && (special(t) || special(f))) return __sym_fcmp(pred, a, b) ? t : f;
  u32 x = of(a), y = of(b); Lit l;
  bool ng = false;
  switch (pred) {
  case 1: l = Eq(x, y); break;
  case 2: l = Lt(y, x); break;
  case 3: l = Le(y, x); break;
  case 4: l = Lt(x, y); break;
  case 5: l = Le(x, y); break;
  case 14: l = neg(Eq(x, y)); break;
  case 10: l = neg(Le(x, y)); break;
  case 11: l = neg(Lt(x, y)); break;
  case 12: l = neg(Le(y, x)); break;
  case 13: l = neg(Lt(y, x)); break;
  case 6: if (!FPMODE) { l = neg(Eq(x, y)); break; } // fallthrough
  default:
    if (!FPMODE && pred == 9) { l = Eq(x, y); break; }
    if (pred == 8 || pred == 7) { if (!FPMODE) return pred == 8 ? f : t; }
    return __sym_fcmp(pred, a, b) ? t : f;
  }
  (void)ng;
  if (l == LTRUE) return t;
  if (l == LFALSE) return f;
  auto it = known.find(l); if (it != known.end()) return it->second ? t : f;
  u32 tn = of(t), fn_ = of(f);
  if (NOITE || (!FPMODE && haslog(tn) != haslog(fn_))) return branch(l) ? t : f;
  return out(Ite(l, tn, fn_));
}
int __sym_signbit(double a) {
  if (!isbox(a)) return std::signbit(a);
  return branch(Lt(of(a), K(0)));
}
static int fpclassFinite(u32 n, int fin) { // finite value: which of -normal -sub 0 +sub +normal
  const bool zeros = (fin & 0x60) == 0x60, none = (fin & 0x60) == 0;
  if (!zeros && !none) { unsupported("is_fpclass signed zero"); return 0; }
  if (branch(Eq(n, K(0)))) return zeros;
  const bool neg = branch(Lt(n, K(0)));
  const bool sub = neg ? (fin & 16) != 0 : (fin & 128) != 0, nor = neg ? (fin & 8) != 0 : (fin & 256) != 0;
  if (sub == nor) return sub;
  const bool tiny = neg ? branch(Lt(K(-DBL_MIN), n)) : branch(Lt(n, K(DBL_MIN)));
  return tiny ? sub : nor;
}
int __sym_isfpclass(double x, int mask) {
  // bits: 0 snan 1 qnan 2 -inf 3 -normal 4 -subnormal 5 -0 6 +0 7 +sub 8 +normal 9 +inf
  if (!isbox(x)) {
    bool s = std::signbit(x); int c;
    if (std::isnan(x)) c = 2 | 1; else if (std::isinf(x)) c = s ? 4 : 512;
    else if (x == 0) c = s ? 32 : 64; else if (std::fpclassify(x) == FP_SUBNORMAL) c = s ? 16 : 128; else c = s ? 8 : 256;
    return (mask & c) != 0;
  }
  if (!FPMODE) {
    int fin = mask & 0x1F8;
    if (fin == 0x1F8) return 1;
    if (fin == 0) return 0;
    if (fin == 0x60) return branch(Eq(of(x), K(0)));
    if (fin == (0x1F8 & ~0x60)) return !branch(Eq(of(x), K(0)));
    return fpclassFinite(of(x), fin);
  }
  u32 n = of(x);
  bool isn = branch(IsNan(n));
  if (isn) return (mask & 3) != 0;
  if (branch(Eq(n, K(INFINITY)))) return (mask & 512) != 0;
  if (branch(Eq(n, K(-INFINITY)))) return (mask & 4) != 0;
  int fin = mask & 0x1F8;
  if (fin == 0x1F8) return 1;
  if (fin == 0) return 0;
  return fpclassFinite(n, fin);
}
static int signOf(double a) { // forks
  if (!isbox(a)) return a > 0 ? 1 : a < 0 ? -1 : 0;
  u32 n = of(a);
  if (branch(Lt(K(0), n))) return 1;
  return branch(Lt(n, K(0))) ? -1 : 0;
}
// b != 0 on this path; when the path condition forces its sign, record it (ratios then compare without division)
static void learnSign(u32 b) {
  if (N[b].lo >= 0 || N[b].hi <= 0 || N[b].op == CONST) { if (N[b].lo == 0) N[b].lo = 5e-324; if (N[b].hi == 0) N[b].hi = -5e-324; return; }
  if (N[b].nl) return;
  Lit lp = Lt(K(0), b), ln = Lt(b, K(0));
  if (lp == LTRUE || ln == LFALSE) { N[b].lo = 5e-324; return; }
  if (lp == LFALSE || ln == LTRUE) { N[b].hi = -5e-324; return; }
  int p = evalLit(lp);
  if (p < 0) return;
  std::vector<std::pair<u32, Z3_ast>> m;
  if (checkLits({p ? ln : lp}, &m) == 0) { if (p) N[b].lo = 5e-324; else N[b].hi = -5e-324; }
}
double __sym_fadd(double a, double b) {
  if (!isbox(a) && !isbox(b)) return a + b;
  if (!FPMODE && (special(a) || special(b))) return (isbox(a) ? 0.0 : a) + (isbox(b) ? 0.0 : b);
  return out(Add(of(a), of(b)));
}
double __sym_fsub(double a, double b) {
  if (!isbox(a) && !isbox(b)) return a - b;
  if (!FPMODE && (special(a) || special(b))) return (isbox(a) ? 0.0 : a) - (isbox(b) ? 0.0 : b);
  return out(Sub(of(a), of(b)));
}
double __sym_fmul(double a, double b) {
  if (!isbox(a) && !isbox(b)) return a * b;
  if (!FPMODE && (special(a) || special(b))) {
    double x = isbox(a) ? (double)signOf(a) : a, y = isbox(b) ? (double)signOf(b) : b; return x * y; }
  return out(Mul(of(a), of(b)));
}
double __sym_fdiv(double a, double b) {
  if (!isbox(a) && !isbox(b)) return a / b;
  if (!FPMODE) {
    if (special(a) || special(b)) { double x = isbox(a) ? (double)signOf(a) : a, y = isbox(b) ? (double)signOf(b) : b; return x / y; }
    if (isbox(b)) { if (branch(Eq(of(b), K(0)))) { return (double)signOf(a) / 0.0; } }
    else if (b == 0) return (double)signOf(a) / b;
    if (isbox(b)) learnSign(of(b));
  }
  return out(Div(of(a), of(b)));
}
double __sym_fneg(double a) { if (!isbox(a)) return -a; return out(Neg(of(a))); }
double __sym_fabs(double a) {
  if (!isbox(a)) return std::fabs(a);
  u32 n = of(a);
  if (FPMODE) return out(mk(FABSOP, n, 0, 0, 0, 0, -INFINITY, INFINITY, false));
  if (N[n].lo >= 0) return a;
  if (N[n].hi <= 0) return out(Neg(n));
  return out(Ite(Lt(n, K(0)), Neg(n), n));
}
double __sym_sqrt(double a) {
  if (!isbox(a)) return std::sqrt(a);
  u32 n = of(a);
  if (!FPMODE) {
    if (branch(Lt(n, K(0)))) return NAN;
    if (N[n].op == MUL && N[n].a == N[n].b) return __sym_fabs(out(N[n].a));
    // sqrt(x*x*...)/perfect shapes are left to the solver
  }
  return out(Sqrt(n));
}
double __sym_exp(double a) { if (!isbox(a)) return std::exp(a); if (FPMODE) { unsupported("exp fp"); } return out(Exp(of(a))); }
double __sym_log(double a) {
  if (!isbox(a)) return std::log(a);
  if (FPMODE) unsupported("log fp");
  u32 n = of(a);
  if (branch(Eq(n, K(0)))) return -INFINITY;
  if (branch(Lt(n, K(0)))) return NAN;
  if (N[n].lo <= 0) N[n].lo = 5e-324; // holds on this path
  return out(Log(n));
}
double __sym_log10(double a) { if (!isbox(a)) return std::log10(a); return __sym_fmul(__sym_log(a), 1.0 / M_LN10); }
double __sym_log2(double a) { if (!isbox(a)) return std::log2(a); return __sym_fmul(__sym_log(a), 1.0 / M_LN2); }
double __sym_log1p(double a) { if (!isbox(a)) return std::log1p(a); return __sym_log(__sym_fadd(a, 1.0)); }
double __sym_expm1(double a) { if (!isbox(a)) return std::expm1(a); return __sym_fsub(__sym_exp(a), 1.0); }
double __sym_exp2(double a) { if (!isbox(a)) return std::exp2(a); return __sym_exp(__sym_fmul(a, M_LN2)); }
double __sym_exp10(double a) { if (!isbox(a)) return ::exp10(a); return __sym_exp(__sym_fmul(a, M_LN10)); }
double __sym_powi(double a, int k) { if (!isbox(a)) return std::pow(a, k); if (k < 0) return __sym_fdiv(1.0, out(Powi(of(a), -k))); return out(Powi(of(a), k)); }
double __sym_pow(double a, double b) {
  if (!isbox(a) && !isbox(b)) return std::pow(a, b);
  if (FPMODE) unsupported("pow fp");
  if (!isbox(b)) {
    if (isint(b)) return __sym_powi(a, (int)b);
    if (b == 0.5) return __sym_sqrt(a);
    if (b == 1.5) return __sym_fmul(a, __sym_sqrt(a));
    if (b == -0.5) return __sym_fdiv(1.0, __sym_sqrt(a));
  }
  if (!isbox(a) && a > 0) return __sym_exp(__sym_fmul(b, std::log(a)));
  // general: exp(b*log a), a>0
  if (branch(Lt(K(0), of(a)))) return __sym_exp(__sym_fmul(b, __sym_log(a)));
  unsupported("pow of non-positive symbolic base"); return 0;
}
static double uf1(const char *n, double a, double lo, double hi) {
  u32 x = of(a);
  if (FPMODE) unsupported(n);
  double l = lo, h = hi;
  if (!strcmp(n, "erf") || !strcmp(n, "atan") || !strcmp(n, "tanh")) {
    double (*f)(double) = !strcmp(n, "erf") ? (double (*)(double))erf : !strcmp(n, "atan") ? (double (*)(double))atan : (double (*)(double))tanh;
    if (std::isfinite(N[x].lo)) l = std::max(l, f(N[x].lo) - 1e-15);
    if (std::isfinite(N[x].hi)) h = std::min(h, f(N[x].hi) + 1e-15);
  }
  return out(mk(UF1, x, 0, 0, 0, ufid(n), l, h, true));
}
#define U1(nm, lo, hi) double __sym_##nm(double a) { if (!isbox(a)) return ::nm(a); return uf1(#nm, a, lo, hi); }
U1(sin, -1, 1) U1(cos, -1, 1) U1(tan, -INFINITY, INFINITY) U1(asin, -1.6, 1.6) U1(acos, 0, 3.2) U1(atan, -1.6, 1.6)
U1(sinh, -INFINITY, INFINITY) U1(cosh, 1, INFINITY) U1(tanh, -1, 1) U1(erf, -1, 1) U1(erfc, 0, 2) U1(cbrt, -INFINITY, INFINITY) U1(tgamma, -INFINITY, INFINITY) U1(lgamma, -INFINITY, INFINITY)
double __sym_atan2(double a, double b) { if (!isbox(a) && !isbox(b)) return ::atan2(a, b); unsupported("atan2"); return 0; }
double __sym_hypot(double a, double b) { if (!isbox(a) && !isbox(b)) return ::hypot(a, b); return __sym_sqrt(__sym_fadd(__sym_fmul(a, a), __sym_fmul(b, b))); }
double __sym_remainder(double a, double b) { if (!isbox(a) && !isbox(b)) return ::remainder(a, b); unsupported("remainder"); return 0; }
double __sym_nextafter(double a, double b) { if (!isbox(a) && !isbox(b)) return ::nextafter(a, b); unsupported("nextafter"); return 0; }
double __sym_fmin(double a, double b) {
  if (!isbox(a) && !isbox(b)) return ::fmin(a, b);
  if (!isbox(a) && std::isnan(a)) return b; if (!isbox(b) && std::isnan(b)) return a;
  return __sym_fsel(4, b, a, b, a);
}
double __sym_fmax(double a, double b) {
  if (!isbox(a) && !isbox(b)) return ::fmax(a, b);
  if (!isbox(a) && std::isnan(a)) return b; if (!isbox(b) && std::isnan(b)) return a;
  return __sym_fsel(4, a, b, b, a);
}
double __sym_fdim(double a, double b) { if (!isbox(a) && !isbox(b)) return ::fdim(a, b); return __sym_fmax(__sym_fsub(a, b), 0.0); }
double __sym_copysign(double a, double b) {
  if (!isbox(a) && !isbox(b)) return std::copysign(a, b);
  double x = __sym_fabs(a); return __sym_signbit(b) ? __sym_fneg(x) : x;
}
// integer part decisions: forks over the feasible integers k with k<=x<k+1
static double modelApprox(u32 n) {
  // value of n under the current model, if any
  leafd.clear(); evc.clear();
  for (u32 l : leaves(n)) {
    if (!(l < leafval.size() && leafval[l])) { if (N[l].op != VAR) continue; setval(l, defval(l)); }
    leafd[l] = astToDouble(leafval[l]);
  }
  return evd(n);
}
static double floorSym(u32 n) {
  S->fpto++;
  double k = NAN;
  for (int it = 0; it < 4000; it++) {
    if (std::isnan(k)) k = std::floor(modelApprox(n));
    if (!std::isfinite(k)) unsupported("floor: no model value");
    if (k < std::floor(N[n].lo)) k = std::floor(N[n].lo);
    if (k > std::floor(N[n].hi)) k = std::floor(N[n].hi);
    if (!branch(Le(K(k), n))) { k -= 1; continue; }
    if (branch(Lt(n, K(k + 1)))) return k;
    k += 1;
  }
  unsupported("floor: too many integers"); return 0;
}
double __sym_floor(double a) { if (!isbox(a)) return std::floor(a); if (FPMODE) return out(mk(FFLOOR, of(a), 0, 0, 0, 0, -INFINITY, INFINITY, false)); return floorSym(of(a)); }
double __sym_ceil(double a) { if (!isbox(a)) return std::ceil(a); if (FPMODE) return out(mk(FCEIL, of(a), 0, 0, 0, 0, -INFINITY, INFINITY, false)); return -floorSym(Neg(of(a))); }
double __sym_trunc(double a) { if (!isbox(a)) return std::trunc(a); if (FPMODE) return out(mk(FTRUNC, of(a), 0, 0, 0, 0, -INFINITY, INFINITY, false)); return branch(Lt(of(a), K(0))) ? __sym_ceil(a) : __sym_floor(a); }
double __sym_round(double a) { if (!isbox(a)) return std::round(a); if (FPMODE) return out(mk(FROUND, of(a), 0, 0, 0, 0, -INFINITY, INFINITY, false));
  if (branch(Lt(of(a), K(0)))) return -floorSym(Add(Neg(of(a)), K(0.5))); return floorSym(Add(of(a), K(0.5))); }
double __sym_rint(double a) { if (!isbox(a)) return std::rint(a); if (FPMODE) return out(mk(FRINT, of(a), 0, 0, 0, 0, -INFINITY, INFINITY, false));
  double k = floorSym(of(a)); u32 h = K(k + 0.5); if (branch(Lt(of(a), h))) return k; if (branch(Lt(h, of(a)))) return k + 1; return std::rint(k + 0.5); }
double __sym_nearbyint(double a) { return __sym_rint(a); }
static long toLong(double x) { if (std::isnan(x) || x >= 9.3e18 || x < -9.3e18) return INT64_MIN; return (long)x; }
long __sym_fptosi(double a) {
  if (!isbox(a)) return toLong(a);
  if (FPMODE) {
    u32 n = of(a);
    if (branch(IsNan(n))) return INT64_MIN;
    if (!branch(Lt(n, K(9.2e18))) || !branch(Lt(K(-9.2e18), n))) return INT64_MIN;
    double k = std::trunc(modelApprox(n));
    for (int it = 0; it < 4000; it++) {
      Lit lo = k > 0 ? Le(K(k), n) : Lt(K(k - 1), n), hi = k >= 0 ? Lt(n, K(k + 1)) : Le(n, K(k));
      if (!branch(lo)) { k -= 1; continue; }
      if (branch(hi)) return (long)k;
      k += 1;
    }
    unsupported("fptosi"); return 0;
  }
  return (long)__sym_trunc(a);
}
unsigned long __sym_fptoui(double a) { if (!isbox(a)) { if (std::isnan(a)) return 0x8000000000000000ull; if (a < 0) return (unsigned long)toLong(a); if (a >= 1.8446744073709552e19) return ~0ull; return (unsigned long)a; } return (unsigned long)__sym_fptosi(a); }
long __sym_lround(double a) { if (!isbox(a)) return ::lround(a); return __sym_fptosi(__sym_round(a)); }
long __sym_llround(double a) { return __sym_lround(a); }
long __sym_lrint(double a) { if (!isbox(a)) return ::lrint(a); return __sym_fptosi(__sym_rint(a)); }
long __sym_llrint(double a) { return __sym_lrint(a); }
double __sym_fmod(double a, double b) {
  if (!isbox(a) && !isbox(b)) return ::fmod(a, b);
  double q = __sym_trunc(__sym_fdiv(a, b));
  return __sym_fsub(a, __sym_fmul(q, b));
}
double __sym_frem(double a, double b) { return __sym_fmod(a, b); }
void __sym_extchk(double a, const char *what) { if (isbox(a)) { std::string m = std::string("symbolic value reaches ") + what; unsupported(m.c_str()); } }
void __sym_trap(const char *n) { if (concrete) { printf("CRASH trap %s\n", n); fflush(stdout); _exit(6); } std::string m = std::string("call of unmodelled ") + n; unsupported(m.c_str()); }
void __sym_fn(char *flag, const char *name) {
  if (*flag) return;
  *flag = 1;
  if (concrete || !S) return;
  int n = S->nfn;
  for (int i = 0; i < n; i++) if (!strncmp(S->fn[i].name, name, 199)) return;
  lockS();
  n = S->nfn;
  for (int i = 0; i < n; i++) if (!strncmp(S->fn[i].name, name, 199)) { unlockS(); return; }
  if (n < 6000) { strncpy(S->fn[n].name, name, 199); S->nfn++; }
  unlockS();
}
int sym_near(double a, double b, double tol) {
  if (!isbox(a) && !isbox(b)) { if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); if (std::isinf(a) || std::isinf(b)) return a == b; return std::fabs(a - b) <= tol; }
  if (special(a) || special(b)) return 0;
  u32 d = Sub(of(a), of(b));
  if (!branch(Le(d, K(tol)))) return 0;
  return branch(Le(K(-tol), d));
}
int sym_le(double a, double b) { return __sym_fcmp(5, a, b); }
} // extern C

// ------------------------------------------------------------------ main
static double envd(const char *n, double d) { const char *s = getenv(n); return s && *s ? atof(s) : d; }
int main(int argc, char **argv) {
  FPMODE = envd("SYM_FP", 0) != 0;
  NOITE = envd("SYM_NOITE", 0) != 0;
  N.reserve(1 << 16);
  static char altstack[1 << 23];
  stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_handler = onSig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF}) sigaction(s, &sa, nullptr);
  std::set_terminate(onTerminate);
  PATHSEC = envd("SYM_PATHSEC", 60);
  VERBOSE = envd("SYM_VERBOSE", 0) != 0; SLOW = envd("SYM_SLOW", 0);
  rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
  if (argc >= 3 && !strcmp(argv[1], "--replay")) {
    concrete = true;
    FILE *f = fopen(argv[2], "r"); char line[4096];
    while (f && fgets(line, sizeof line, f)) { char n[1024], v[1024]; if (sscanf(line, "in %1023s %1023s", n, v) == 2) replayIn.push_back({n, v}); }
    if (f) fclose(f);
    armTimer();
    harness();
    printf("REPLAY-OK\n"); fflush(stdout);
    _exit(0);
  }
  outdir = argc > 1 ? argv[1] : ".";
  RLIMIT = (long)envd("SYM_RLIMIT", 3000000);
  MAXVIOL = (int)envd("SYM_MAXVIOL", 3);
  SAMPLES = (int)envd("SYM_SAMPLES", 40);
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sem_init(&S->tokens, 1, (int)envd("SYM_JOBS", 8) - 1);
  double t0 = now();
  S->deadline = t0 + envd("SYM_DEADLINE", 100);
  fflush(stdout);
  S->procs_started++;
  pid_t p = fork();
  if (p == 0) {
    initz3();
    armTimer();
    harness();
    endPath();
  }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  // a process killed from outside (memory) leaves the exploration incomplete
  std::string path = outdir + "/stats.txt";
  FILE *f = fopen(path.c_str(), "w");
  if (!f) return 2;
#define P(x) fprintf(f, #x " %ld\n", (long)S->x)
  P(paths); P(pruned); P(forks); P(q_sat); P(q_ival); P(q_unsat); P(q_unk); P(asserts); P(viols); P(hangs); P(unsupported); P(aborted_deadline); P(solver_ns); P(samples); P(violspur); P(nodes_max); P(depth_max); P(stop); P(procs_started); P(procs_ended);
  fprintf(f, "exit_status %d\n", st);
  fprintf(f, "wall %f\n", now() - t0);
  for (int i = 0; i < S->ncov; i++) fprintf(f, "cover %ld %s\n", (long)S->covn[i], S->cov[i]);
  for (int i = 0; i < S->nass; i++) fprintf(f, "assert %ld %s\n", (long)S->assn[i], S->ass[i]);
  for (int i = 0; i < S->nunsup; i++) fprintf(f, "unsup %s\n", S->unsup[i]);
  for (int i = 0; i < S->nfn; i++) fprintf(f, "fn %s\n", S->fn[i].name);
  fclose(f);
  return 0;
}
