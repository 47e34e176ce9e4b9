// C13: PolynomialFit and solveLinearSystem against long double least squares (orthogonalised, centred) and residuals.
#include "pbt.h"
#include "src/position_postprocessor/polynomial_fit.h"
using namespace navigine::navigation_core;
using pbt::G;
typedef long double LD;
// least-squares polynomial of the given degree through (x,y), evaluated at t; condition measured by the returned leverage
static LD lsq(const std::vector<LD>& x, const std::vector<LD>& y, int deg, LD t, LD& leverage) {
  size_t n = x.size();
  LD c = 0, s = 0;
  for (LD v : x) c += v;
  c /= n;
  for (LD v : x) s = std::max(s, fabsl(v - c));
  if (s == 0) s = 1;
  // discrete orthogonal polynomials on the points (Stieltjes), evaluated also at t
  std::vector<LD> pm(n, 0), p(n, 1), u(n);
  LD tm = 0, tp = 1, out = 0, prevNorm = 1;
  for (size_t i = 0; i < n; i++) u[i] = (x[i] - c) / s;
  LD ut = (t - c) / s;
  leverage = 0;
  for (int k = 0; k <= deg; k++) {
    LD nn = 0, dot = 0, xa = 0;
    for (size_t i = 0; i < n; i++) { nn += p[i] * p[i]; dot += p[i] * y[i]; xa += u[i] * p[i] * p[i]; }
    out += dot / nn * tp;
    leverage += fabsl(tp) / sqrtl(nn);
    LD a = xa / nn, b = k ? nn / prevNorm : 0;
    for (size_t i = 0; i < n; i++) { LD q = (u[i] - a) * p[i] - b * pm[i]; pm[i] = p[i]; p[i] = q; }
    LD q = (ut - a) * tp - b * tm; tm = tp; tp = q;
    prevNorm = nn;
  }
  return out;
}
// forward error bound of solving the normal equations in double precision
static LD gramError(const std::vector<LD>& x, const std::vector<LD>& y, int deg, LD t) {
  int n = deg + 1;
  std::vector<LD> N(n * n, 0), I(n * n, 0), b(n, 0);
  for (size_t i = 0; i < x.size(); i++) for (int r = 0; r < n; r++) { b[r] += powl(x[i], r) * fabsl(y[i]); for (int c = 0; c < n; c++) N[r * n + c] += powl(x[i], r + c); }
  LD na = 0, ni = 0, bm = 0, pt = 0;
  for (int r = 0; r < n; r++) { LD s = 0; for (int c = 0; c < n; c++) s += fabsl(N[r * n + c]); na = std::max(na, s); bm = std::max(bm, b[r]); pt += powl(std::max<LD>(1, fabsl(t)), r); I[r * n + r] = 1; }
  for (int c = 0; c < n; c++) {
    int p = c; for (int r = c; r < n; r++) if (fabsl(N[r * n + c]) > fabsl(N[p * n + c])) p = r;
    if (fabsl(N[p * n + c]) < 1e-14 * na) return 1e30;
    for (int k = 0; k < n; k++) { std::swap(N[p * n + k], N[c * n + k]); std::swap(I[p * n + k], I[c * n + k]); }
    LD d = N[c * n + c];
    for (int k = 0; k < n; k++) { N[c * n + k] /= d; I[c * n + k] /= d; }
    for (int r = 0; r < n; r++) if (r != c) { LD q = N[r * n + c]; for (int k = 0; k < n; k++) { N[r * n + k] -= q * N[c * n + k]; I[r * n + k] -= q * I[c * n + k]; } }
  }
  for (int r = 0; r < n; r++) { LD s = 0; for (int c = 0; c < n; c++) s += fabsl(I[r * n + c]); ni = std::max(ni, s); }
  return 1e-14 * na * ni * ni * bm * pt;
}
static LD lagrange(const std::vector<LD>& x, const std::vector<LD>& y, LD t) {
  LD r = 0;
  for (size_t i = 0; i < x.size(); i++) { LD m = y[i]; for (size_t j = 0; j < x.size(); j++) if (i != j) m *= (t - x[j]) / (x[i] - x[j]); r += m; }
  return r;
}
static void fit(G& g) {
  int deg = g.weighted({1, 6, 2, 1});
  double interval = g.pick({2.0, 1.0, 5.0, 0.5, 10.0}), shift = g.pick({0.0, 0.7, 0.2, 1.0}), w = g.pick({1.0, 0.2, 0.5, 0.0, 0.8});
  PolynomialFit f(deg, interval, shift, w);
  int shape = (int)g.draw(4);   // constant, polynomial, random, stairs, jump then standing
  std::vector<double> c; for (int i = 0; i <= deg; i++) c.push_back(g.real(-3, 3));
  double x = g.pick({0.0, 0.0, 1.0, 50.0}), last = 0, level = g.real(-50, 50), x0 = x;
  std::vector<LD> X, Y;
  int n = 1 + g.sized(60, 500), reals = 0, ill = 0, equal = 0; bool haveLast = false;
  NOTE(g, "degree " << deg << ", interval " << interval << ", shift " << shift << ", weight " << w << ", shape " << shape);
  double step = g.pick({0.1, 0.02, 0.4, 1.5});
  for (int i = 0; i < n; i++) {
    if (i) x += g.chance(1, 15) ? interval * g.real(0.2, 3) + 0.013 : step * g.real(0.5, 1.5);
    double y = level;
    if (shape == 1) { y = 0; for (int k = deg; k >= 0; k--) y = y * (x - x0) / 10 + c[k]; }
    if (shape == 2) y = g.real(-20, 20);
    if (shape == 3) { if (g.chance(1, 5)) level += g.real(-10, 10); y = level; }
    if (shape == 4) y = i < 2 ? level + 5 * i : level + 5;
    if (g.chance(1, 50)) { f.clear(); X.clear(); Y.clear(); NOTE(g, "clear"); }
    f.addSequencePoint(x, y);
    if (!Y.empty() && (double)Y.back() == y) equal++;
    X.push_back(x); Y.push_back(y);
    size_t drop = 0;
    for (size_t k = 0; k < X.size(); k++) { if (fabsl((LD)x - X[k] - interval) < 1e-9) g.discard(); if ((LD)x - X[k] > interval) drop = k + 1; }
    X.erase(X.begin(), X.begin() + drop); Y.erase(Y.begin(), Y.begin() + drop);
    double want; LD lev = 1, scale = 1; bool fitted = false;
    for (LD v : Y) scale = std::max(scale, fabsl(v));
    if (X.size() == 1 || (int)X.size() < deg + 1) {
      // not enough points for the degree: the polynomial through all of them
      want = (double)lagrange(X, Y, (LD)x - shift);
      for (size_t k = 0; k < X.size(); k++) { LD m = 1; for (size_t j = 0; j < X.size(); j++) if (j != k) m *= fabsl(((LD)x - shift - X[j]) / (X[k] - X[j])); lev += m; }
    } else {
      LD raw = lsq(X, Y, deg, (LD)x - shift, lev);
      // conditioning of the problem itself: spread of the points against their distance from the origin
      LD span = X.back() - X.front(); if (deg && span < 1e-6) g.discard();
      want = (double)(raw * w + (haveLast ? (LD)last : 0) * (1 - (LD)w));
      fitted = true;
    }
    double got = f.predict(x);
    NOTE(g, "point (" << x << ", " << y << ") window " << X.size() << " -> " << got);
    LD tol = 1e-9 * scale * (1 + lev);
    if ((int)X.size() >= deg + 1 && X.size() > 1) tol += gramError(X, Y, deg, (LD)x - shift);
    if (tol > 0.01 * scale) { last = got; haveLast = true; ill++; continue; }   // too ill-conditioned to tell
    REQUIRE("prediction", fabsl((LD)got - want) <= tol, "point " << i << " (" << x << "," << y << "), " << X.size() << " points in the window: predicted " << got << " instead of " << want);
    last = got; haveLast = true; reals += fitted;
  }
  g.nontrivial(reals >= 3);
  g.label("repeated values", equal > 0);
  g.label("some prediction too ill-conditioned to judge", ill > 0);
}
// uniform motion and constants, as long into a session as it takes
static void session(G& g) {
  double interval = g.pick({1.0, 2.0, 5.0}), shift = g.pick({0.0, 0.5, 1.0}), w = g.pick({1.0, 0.5});
  PolynomialFit f(1, interval, shift, w);
  double x = g.pick({0.0, 600.0, 3600.0, 36000.0, 100000.0}), v = g.pick({0.0, 1.3, -0.7}), y0 = g.real(-50, 50), worst = 0;
  int n = 10 + g.small(60); double x0 = x;
  for (int i = 0; i < n; i++) {
    x += g.pick({0.1, 0.2, 0.5});
    double y = y0 + v * (x - x0);
    f.addSequencePoint(x, y);
    double got = f.predict(x), want = y - v * shift;
    // with weight below one the output trails the motion
    double lag = w < 1 ? std::fabs(v) * 4 : 0;
    if (i >= 2) { worst = std::max(worst, std::fabs(got - want)); REQUIRE("long session", std::isfinite(got) && std::fabs(got - want) < 0.02 + lag, "point " << i << " at " << x << " s into the session: " << got << " instead of " << want); }
  }
  NOTE(g, "from " << x0 << " s, speed " << v << ", shift " << shift << ", weight " << w << ": worst deviation " << worst);
  g.nontrivial(v != 0);
}
static void linear(G& g) {
  int n = 1 + (int)g.draw(5), kind = (int)g.draw(3);
  std::vector<double> A(n * n), b(n), x(n), e(n);
  // kinds: orthogonal-ish random, permutation-like with zeros, diagonally dominant, normal equations
  if (kind == 1) { auto p = g.permutation(n); for (int i = 0; i < n; i++) { A[i * n + p[i]] = g.pick({1.0, -2.0, 3.0}); for (int j = 0; j < i; j++) if (g.chance(1, 4)) A[i * n + p[j]] += (double)g.range(-2, 2); } }
  else if (kind == 3) { std::vector<double> B(n * n); for (auto& q : B) q = g.real(-2, 2); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { for (int k = 0; k < n; k++) A[i * n + j] += B[k * n + i] * B[k * n + j]; if (i == j) A[i * n + j] += 1; } }
  else for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A[i * n + j] = g.real(-2, 2) + (kind == 2 && i == j ? 5 * n : 0);
  if (g.chance(1, 4)) { double s = g.pick({1e-8, 1e-5, 1e6}); for (auto& q : A) q *= s; }   // other units
  for (int i = 0; i < n; i++) { e[i] = (double)g.range(-20, 20); }
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) b[i] += A[i * n + j] * e[j];
  // condition: inverse by Gauss-Jordan with full pivoting in long double
  std::vector<LD> M(n * n), I(n * n, 0); LD na = 0, ni = 0;
  for (int i = 0; i < n * n; i++) M[i] = A[i];
  for (int i = 0; i < n; i++) I[i * n + i] = 1;
  for (int c = 0; c < n; c++) {
    int p = c; for (int r = c; r < n; r++) if (fabsl(M[r * n + c]) > fabsl(M[p * n + c])) p = r;
    if (fabsl(M[p * n + c]) < 1e-18) g.discard();
    for (int k = 0; k < n; k++) { std::swap(M[p * n + k], M[c * n + k]); std::swap(I[p * n + k], I[c * n + k]); }
    LD d = M[c * n + c];
    for (int k = 0; k < n; k++) { M[c * n + k] /= d; I[c * n + k] /= d; }
    for (int r = 0; r < n; r++) if (r != c) { LD q = M[r * n + c]; for (int k = 0; k < n; k++) { M[r * n + k] -= q * M[c * n + k]; I[r * n + k] -= q * I[c * n + k]; } }
  }
  for (int i = 0; i < n; i++) { LD ra = 0, ri = 0; for (int j = 0; j < n; j++) { ra += fabsl(A[i * n + j]); ri += fabsl(I[i * n + j]); } na = std::max(na, ra); ni = std::max(ni, ri); }
  LD cond = na * ni;
  if (cond > 1e6) g.discard();
  std::vector<double> A0 = A, b0 = b;
  solveLinearSystem(A, b, x, n);
  std::ostringstream o; for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) o << A[i * n + j] << " "; o << "| " << b[i] << "; "; }
  NOTE(g, "system " << o.str());
  g.nontrivial(n >= 2);
  REQUIRE("inputs untouched", A == A0 && b == b0, "the system was modified");
  for (int i = 0; i < n; i++) REQUIRE("solution", fabsl((LD)x[i] - e[i]) <= 1e-12 * cond * 100, "x[" << i << "] = " << x[i] << " instead of " << e[i] << " for " << o.str());
}
static std::vector<pbt::Sub> subs() { return {{"fit", fit, 120000, 1500000}, {"session", session, 40000, 200000}, {"linear", linear, 100000, 1500000}}; }
PBT_MAIN(subs)
