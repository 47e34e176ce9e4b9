// C29: vectors, rotations, graphs and identifiers (core and standalone versions) obey their algebra.
#include "pbt.h"
#include <array>
#include <cmath>
#include <navigine/navigation-core/graph.h>
#include <navigine/navigation-core/level_collector.h>
#include <navigine/navigation-core/vector3d.h>
#include "src/sensor_fusion/quaternion.h"
#define navigation_core sa_filter
#include "standalone_algorithms/complementary_filter/include/vector3d.h"
#include "standalone_algorithms/complementary_filter/include/quaternion.h"
#undef navigation_core
#define navigation_core sa_pedometer
#include "standalone_algorithms/pedometer/include/vector3d.h"
#undef navigation_core
using pbt::G;
namespace core = navigine::navigation_core;
namespace sf = navigine::sa_filter;
namespace sp = navigine::sa_pedometer;
typedef long double LD;
typedef std::array<LD, 3> V;
static double comp(G& g) { int m = (int)g.draw(7); return m == 0 ? 0 : m == 1 ? g.pick({1.0, -1.0, 9.80665, 0.5}) : m == 2 ? g.real(-1e6, 1e6) : m == 3 ? g.real(-1e-6, 1e-6) : g.real(-20, 20); }
template <class T> static V v(const T& a) { return {a.x, a.y, a.z}; }
static LD len(const V& a) { return sqrtl(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); }
static LD dist(const V& a, const V& b) { return len({a[0] - b[0], a[1] - b[1], a[2] - b[2]}); }
static V cross(const V& a, const V& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static LD dot(const V& a, const V& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static std::string str(const V& a) { std::ostringstream o; o << std::setprecision(17) << "(" << (double)a[0] << "," << (double)a[1] << "," << (double)a[2] << ")"; return o.str(); }
#define SAME(key, got, want, scale) REQUIRE(key, dist(v(got), want) <= 1e-14L * (scale) + 1e-300L, who << ": " << str(v(got)) << " instead of " << str(want))

// what all three versions offer
template <class T> static void common(const char* who, const T& a, const T& b, double k) {
  V A = v(a), B = v(b); LD s = len(A) + len(B), K = k;
  SAME("sum", a + b, (V{A[0] + B[0], A[1] + B[1], A[2] + B[2]}), s);
  SAME("difference", a - b, (V{A[0] - B[0], A[1] - B[1], A[2] - B[2]}), s);
  SAME("multiple", a * k, (V{A[0] * K, A[1] * K, A[2] * K}), s * fabsl(K));
  SAME("multiple", k * a, (V{A[0] * K, A[1] * K, A[2] * K}), s * fabsl(K));
  if (k != 0) SAME("quotient", a / k, (V{A[0] / K, A[1] / K, A[2] / K}), s / fabsl(K));
  LD m = len(A);
  REQUIRE("length", fabsl(a.magnitude() - m) <= 1e-14L * m, who << ": length of " << str(A) << " is " << (double)a.magnitude());
  T n = a.normalized();
  REQUIRE("unchanged", v(a) == A, who << ": changed by normalized()");
  if (m > 1e-15L) {
    REQUIRE("unit length", fabsl(len(v(n)) - 1) < 1e-14L, who << ": normalized() of " << str(A) << " has length " << (double)len(v(n)));
    SAME("unit direction", n, (V{A[0] / m, A[1] / m, A[2] / m}), 1);
  } else if (m == 0) REQUIRE("null vector", v(n) == A, who << ": the null vector becomes " << str(v(n)));
  T c = a;
  T& r1 = (c += b); SAME("in place", c, v(a + b), 0); REQUIRE("in place", &r1 == &c, who << ": += returns another object");
  c = a; c -= b; SAME("in place", c, v(a - b), 0);
  c = a; c *= k; SAME("in place", c, v(a * k), 0);
  if (k != 0) { c = a; c /= k; SAME("in place", c, v(a / k), 0); }
  c = a; c += c; SAME("with itself", c, v(a + a), 0);
  c = a; c -= c; REQUIRE("with itself", len(v(c)) == 0, who << ": a - a is " << str(v(c)));
  REQUIRE("null", a.isNull() == (A[0] == 0 && A[1] == 0 && A[2] == 0), who << ": isNull of " << str(A));
}
template <class T> static void products(const char* who, const T& a, const T& b) {
  V A = v(a), B = v(b); LD s = len(A) * len(B);
  REQUIRE("dot product", fabsl(T::dotProduct(a, b) - dot(A, B)) <= 1e-14L * s, who << ": " << str(A) << " . " << str(B) << " = " << T::dotProduct(a, b));
  T c = T::crossProduct(a, b);
  SAME("cross product", c, cross(A, B), s);
  REQUIRE("orthogonal", fabsl(dot(v(c), A)) <= 1e-13L * s * len(A) && fabsl(dot(v(c), B)) <= 1e-13L * s * len(B), who << ": the cross product of " << str(A) << " and " << str(B) << " is not orthogonal to them");
  T d = T::crossProduct(b, a);
  REQUIRE("antisymmetric", dist(v(c), {-(LD)d.x, -(LD)d.y, -(LD)d.z}) <= 1e-14L * s, who << ": a x b is not -(b x a)");
}
static void vectors(G& g) {
  double a[3], b[3]; for (auto& x : a) x = comp(g); for (auto& x : b) x = comp(g); double k = comp(g);
  NOTE(g, "(" << a[0] << "," << a[1] << "," << a[2] << ") (" << b[0] << "," << b[1] << "," << b[2] << ") " << k);
  core::Vector3d ca(a[0], a[1], a[2]), cb(b[0], b[1], b[2]); sf::Vector3d fa(a[0], a[1], a[2]), fb(b[0], b[1], b[2]); sp::Vector3d pa(a[0], a[1], a[2]), pb(b[0], b[1], b[2]);
  common("core", ca, cb, k); common("standalone filter", fa, fb, k); common("standalone pedometer", pa, pb, k);
  products("core", ca, cb); products("standalone filter", fa, fb); products("standalone pedometer", pa, pb);
  core::Vector3d n = ca; core::Vector3d& r = n.normalize(); REQUIRE("normalize", &r == &n && dist(v(n), v(ca.normalized())) < 1e-15L, "normalize() gives " << str(v(n)) << ", normalized() " << str(v(ca.normalized())));
  n = -ca; REQUIRE("negative", n.x == -a[0] && n.y == -a[1] && n.z == -a[2], "-a is " << str(v(n)));
  core::Vector3d z; REQUIRE("default", z.isNull() && z.magnitude() == 0, "a new vector is not null");
  // equality within 1e-8 in every component
  int i = (int)g.draw(2); double e = g.pick({0.0, 3e-9, 9e-9, 2e-8, 1e-3, 5.0}) * (g.boolean() ? 1 : -1); core::Vector3d o = ca; (i == 0 ? o.x : i == 1 ? o.y : o.z) += e;
  double got = i == 0 ? o.x - a[0] : i == 1 ? o.y - a[1] : o.z - a[2];
  if (std::fabs(std::fabs(got) - 1e-8) > 1e-10) REQUIRE("equality", (ca == o) == (std::fabs(got) < 1e-8) && (ca != o) == !(ca == o) && (o == ca) == (ca == o), str(v(ca)) << " == " << str(v(o)) << " is " << (ca == o));
  g.nontrivial(len(v(ca)) > 0 && len(v(cb)) > 0 && k != 0);
}
// ------------------------------------------------------------------ rotations
typedef std::array<LD, 4> Q4;
static Q4 mulq(const Q4& p, const Q4& q) { V a{p[1], p[2], p[3]}, b{q[1], q[2], q[3]}, c = cross(a, b); return {p[0] * q[0] - dot(a, b), p[0] * b[0] + q[0] * a[0] + c[0], p[0] * b[1] + q[0] * a[1] + c[1], p[0] * b[2] + q[0] * a[2] + c[2]}; }
template <class Q> static Q4 q4(const Q& q) { return {q.w, q.x, q.y, q.z}; }
static LD qlen(const Q4& a) { return sqrtl(a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3]); }
static LD qdist(const Q4& a, const Q4& b) { return qlen({a[0] - b[0], a[1] - b[1], a[2] - b[2], a[3] - b[3]}); }
static std::string str(const Q4& a) { std::ostringstream o; o << std::setprecision(17); for (auto x : a) o << (double)x << " "; return o.str(); }
#define QSAME(key, got, want, scale) REQUIRE(key, qdist(q4(got), want) <= 1e-14L * (scale) + 1e-300L, who << ": " << str(q4(got)) << "instead of " << str(want))
template <class Q, class T> static void rotations(const char* who, const double* a, const double* b, double k, double roll, double pitch, double yaw, const double* vec) {
  Q p(a[0], a[1], a[2], a[3]), q(b[0], b[1], b[2], b[3]); Q4 P = q4(p), R = q4(q); LD s = qlen(P) + qlen(R), K = k;
  REQUIRE("parts", p.w == a[0] && p.x == a[1] && p.y == a[2] && p.z == a[3], who << ": parts in another order");
  Q one; QSAME("identity", one, (Q4{1, 0, 0, 0}), 0); QSAME("identity", p * one, P, qlen(P)); QSAME("identity", one * p, P, qlen(P));
  QSAME("sum", p + q, (Q4{P[0] + R[0], P[1] + R[1], P[2] + R[2], P[3] + R[3]}), s); QSAME("difference", p - q, (Q4{P[0] - R[0], P[1] - R[1], P[2] - R[2], P[3] - R[3]}), s);
  QSAME("multiple", p * k, (Q4{P[0] * K, P[1] * K, P[2] * K, P[3] * K}), s * fabsl(K)); QSAME("multiple", k * p, (Q4{P[0] * K, P[1] * K, P[2] * K, P[3] * K}), s * fabsl(K));
  QSAME("product", p * q, mulq(P, R), 4 * qlen(P) * qlen(R));
  Q c = p; c *= q; QSAME("in place", c, q4(p * q), 0); c = p; c *= c; QSAME("with itself", c, q4(p * p), 0); c = p; c += q; QSAME("in place", c, q4(p + q), 0); c = p; c -= q; QSAME("in place", c, q4(p - q), 0); c = p; c *= k; QSAME("in place", c, q4(p * k), 0);
  QSAME("conjugate", p.conj(), (Q4{P[0], -P[1], -P[2], -P[3]}), 0);
  Q pc = p * p.conj(); QSAME("norm", pc, (Q4{qlen(P) * qlen(P), 0, 0, 0}), 4 * qlen(P) * qlen(P));
  Q n = p.normalized(); REQUIRE("unchanged", q4(p) == P, who << ": changed by normalized()");
  if (qlen(P) > 1e-15L) QSAME("unit", n, (Q4{P[0] / qlen(P), P[1] / qlen(P), P[2] / qlen(P), P[3] / qlen(P)}), 1); else if (qlen(P) == 0) QSAME("unit", n, P, 0);
  T u(vec[0], vec[1], vec[2]); Q e(u); QSAME("vector", e, (Q4{0, vec[0], vec[1], vec[2]}), 0); QSAME("vector", Q(vec[0], vec[1], vec[2]), (Q4{0, vec[0], vec[1], vec[2]}), 0);
  REQUIRE("vector", dist(v(p.toVector3d()), V{P[1], P[2], P[3]}) == 0, who << ": vector part " << str(v(p.toVector3d())));
  // angles: yaw about z, then pitch about y, then roll about x
  Q qr(std::cos(roll / 2), std::sin(roll / 2), 0, 0), qp(std::cos(pitch / 2), 0, std::sin(pitch / 2), 0), qy(std::cos(yaw / 2), 0, 0, std::sin(yaw / 2));
  Q all = qy * qp * qr; double r, t, w; std::tie(r, t, w) = all.toEuler();
  if (std::fabs(pitch) < 1.5) {
    auto d = [](double x, double y) { double z = std::fabs(x - y); return std::min(z, std::fabs(2 * M_PI - z)); };
    REQUIRE("angles", d(r, roll) < 1e-9 && d(t, pitch) < 1e-9 && d(w, yaw) < 1e-9, who << ": angles " << r << " " << t << " " << w << " instead of " << roll << " " << pitch << " " << yaw);
  } else REQUIRE("upright", std::fabs(t) <= M_PI / 2 + 1e-12 && std::fabs(t - pitch) < 1e-6, who << ": pitch " << t << " instead of " << pitch);
  // rotating a vector keeps its length and equals the rotations about the axes one after the other
  Q rot = all * Q(u) * all.conj(); LD L = len(v(u));
  REQUIRE("rotated length", fabsl(len(v(rot.toVector3d())) - L) <= 1e-13L * L && std::fabs(rot.w) <= 1e-13L * L, who << ": a rotation changes the length");
  LD x = vec[0], y = vec[1], z = vec[2], x1, y1, z1;
  y1 = y * cosl(roll) - z * sinl(roll); z1 = y * sinl(roll) + z * cosl(roll); y = y1; z = z1;
  x1 = x * cosl(pitch) + z * sinl(pitch); z1 = -x * sinl(pitch) + z * cosl(pitch); x = x1; z = z1;
  x1 = x * cosl(yaw) - y * sinl(yaw); y1 = x * sinl(yaw) + y * cosl(yaw); x = x1; y = y1;
  REQUIRE("rotated", dist(v(rot.toVector3d()), V{x, y, z}) <= 1e-13L * L, who << ": rotated to " << str(v(rot.toVector3d())) << " instead of " << str(V{x, y, z}));
}
static void quaternions(G& g) {
  double a[4], b[4], vec[3]; for (auto& x : a) x = comp(g); for (auto& x : b) x = comp(g); for (auto& x : vec) x = comp(g); double k = comp(g);
  double roll = g.real(-M_PI, M_PI), pitch = g.real(-M_PI / 2, M_PI / 2), yaw = g.real(-M_PI, M_PI);
  NOTE(g, "(" << a[0] << " " << a[1] << " " << a[2] << " " << a[3] << ") (" << b[0] << " " << b[1] << " " << b[2] << " " << b[3] << ") " << k << ", angles " << roll << " " << pitch << " " << yaw << ", vector " << vec[0] << " " << vec[1] << " " << vec[2]);
  rotations<core::Quaternion, core::Vector3d>("core", a, b, k, roll, pitch, yaw, vec);
  rotations<sf::Quaternion, sf::Vector3d>("standalone", a, b, k, roll, pitch, yaw, vec);
  g.nontrivial(a[0] != 0 && b[0] != 0 && std::fabs(roll) > 0.1 && std::fabs(pitch) > 0.1);
}
// ------------------------------------------------------------------ graphs
static void graphs(G& g) {
  typedef core::Graph<core::XYPoint> Gr; Gr gr; std::vector<core::XYPoint> vs; std::set<std::pair<int, int>> es; int refused = 0;
  auto check = [&](const Gr& q, const char* what) {
    REQUIRE("vertices", (size_t)(q.vertexEnd() - q.vertexBegin()) == vs.size(), what << ": " << (q.vertexEnd() - q.vertexBegin()) << " vertices instead of " << vs.size());
    size_t i = 0; for (auto it = q.vertexBegin(); it != q.vertexEnd(); ++it, i++) REQUIRE("vertices", it->id == (int)i && it->point.x == vs[i].x && it->point.y == vs[i].y && q.vertex((int)i).id == (int)i && q.getVertex((int)i).point.x == vs[i].x, what << ": vertex " << i);
    std::set<std::pair<int, int>> got; size_t n = 0; for (auto it = q.edgesBegin(); it != q.edgesEnd(); ++it, n++) got.insert({std::min(it->first, it->second), std::max(it->first, it->second)});
    REQUIRE("edges", n == got.size() && got == es, what << ": " << n << " edges instead of " << es.size() << ", or others");
  };
  int n = 1 + g.small(30);
  for (int i = 0; i < n; i++) {
    int op = (int)g.draw(3);
    if (op == 0 || vs.empty()) {
      core::XYPoint p(g.real(-10, 10), g.real(-10, 10)); auto w = gr.addVertex(p); vs.push_back(p);
      NOTE(g, "vertex " << vs.size() - 1);
      REQUIRE("new vertex", w.id == (int)vs.size() - 1 && w.point.x == p.x && w.point.y == p.y, "added vertex " << vs.size() - 1 << " has id " << w.id);
    } else {
      int a = (int)g.range(-2, (long long)vs.size() + 1), b = (int)g.range(-1, (long long)vs.size()); if (g.chance(3, 4)) { a = (int)g.draw(vs.size() - 1); b = (int)g.draw(vs.size() - 1); }
      auto in = [&](int k) { return k >= 0 && k < (int)vs.size(); };
      REQUIRE("has vertex", gr.hasVertex(a) == in(a) && gr.hasVertex(b) == in(b), "hasVertex of " << a << " and " << b << " among " << vs.size());
      bool threw = false; try { gr.addEdge(a, b); } catch (std::logic_error&) { threw = true; }
      NOTE(g, "edge " << a << "-" << b);
      REQUIRE("edge of nothing", threw == !(in(a) && in(b)), "edge " << a << "-" << b << " among " << vs.size() << " vertices " << (threw ? "refused" : "accepted"));
      if (!threw) es.insert({std::min(a, b), std::max(a, b)}); else refused++;
      if (!in(a)) { bool t = false; try { gr.vertex(a); } catch (std::out_of_range&) { t = true; } REQUIRE("no such vertex", t, "vertex " << a << " of " << vs.size() << " is given out"); }
    }
    if (g.chance(1, 6)) { Gr copy = gr; copy.addVertex(core::XYPoint(0, 0)); copy.addEdge(0, (int)vs.size()); check(gr, "after changing a copy"); }
    check(gr, "graph");
  }
  g.nontrivial(es.size() >= 2); g.label("refused edges", refused > 0);
}
// ------------------------------------------------------------------ identifiers
template <class I, class H> static void ids(const char* who, const std::vector<std::string>& s) {
  H h;
  REQUIRE("invalid", !I().isValid() && I().value.empty() && I() == I(""), who << ": a new identifier is valid");
  std::map<I, int> m; for (auto& x : s) m[I(x)]++;
  std::set<std::string> d(s.begin(), s.end());
  REQUIRE("as key", m.size() == d.size(), who << ": " << m.size() << " keys for " << d.size() << " different identifiers");
  for (auto& x : s) {
    REQUIRE("valid", I(x).isValid() == !x.empty() && I(x).value == x, who << ": '" << x << "'");
    for (auto& y : s) REQUIRE("order", (I(x) == I(y)) == (x == y) && (I(x) != I(y)) == (x != y) && (I(x) < I(y)) == (x < y) && (x != y || h(I(x)) == h(I(y))), who << ": '" << x << "' and '" << y << "' compare wrongly");
  }
}
static void identifiers(G& g) {
  std::vector<std::string> s; int n = 1 + g.small(8);
  for (int i = 0; i < n; i++) { std::string x = s.empty() || g.boolean() ? "" : g.pick(s); for (int k = g.small(5); k > 0; k--) x += (char)g.pick({'a', 'b', '0', ' ', '\0', '\xff', '('}); s.push_back(x); }
  if (g.wantNote) for (auto& x : s) NOTE(g, "'" << x << "'");
  ids<core::LevelId, core::HasherLevelId>("level", s); ids<core::TransmitterId, core::HasherTransmitterId>("transmitter", s); ids<core::ReferencePointId, core::HasherReferencePointId>("reference point", s);
  g.nontrivial(std::set<std::string>(s.begin(), s.end()).size() >= 2);
}
static std::vector<pbt::Sub> subs() { return {{"vectors", vectors, 60000, 2000000}, {"quaternions", quaternions, 60000, 2000000}, {"graphs", graphs, 20000, 200000}, {"identifiers", identifiers, 20000, 200000}}; }
PBT_MAIN(subs)
