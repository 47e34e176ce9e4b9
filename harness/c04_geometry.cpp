// C04: plane geometry primitives against exact integer/rational arithmetic and long-double definitions.
#include "pbt.h"
#include <algorithm>
#include <string>
#include <vector>
#include <cmath>
#include <navigine/navigation-core/level.h>
#include <navigine/navigation-core/point.h>
#include "src/geometry.h"
using namespace navigine::navigation_core;
using pbt::G;
typedef __int128 I;
typedef long double LD;
struct P2 { long long x, y; };
static int sgn(I v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
static I cr(P2 a, P2 b, P2 c) { return (I)(b.x - a.x) * (c.y - a.y) - (I)(b.y - a.y) * (c.x - a.x); }
static P2 ipt(G& g, int m) { return {g.range(-m, m), g.range(-m, m)}; }
static bool eq(double a, LD b, double scale = 1) { return std::fabs(a - b) <= 1e-9 * std::max<LD>(1, std::max<LD>(scale, std::fabs(b))); }
static LocationPoint lp(P2 p, const char* l = "L") { return LocationPoint{LevelId(l), (double)p.x, (double)p.y}; }
static std::string S(P2 p) { return "(" + std::to_string(p.x) + "," + std::to_string(p.y) + ")"; }

// every case also runs on a finer grid: coordinates times a power of two (exact), results scaled back
static double U = 1;
static double gDist(double ax, double ay, double bx, double by) { return GetDist(ax * U, ay * U, bx * U, by * U) / U; }
static LocationPoint lpU(LocationPoint p) { p.x *= U; p.y *= U; return p; }
static double gDist(const LocationPoint& a, const LocationPoint& b) { return GetDist(lpU(a), lpU(b)) / U; }
static double gDist(const LocationPoint& a, const LocationPoint& b, const LocationPoint& c) { return GetDist(lpU(a), lpU(b), lpU(c)) / U; }
static double gArea(double ax, double ay, double bx, double by, double cx, double cy) { return GetArea(ax * U, ay * U, bx * U, by * U, cx * U, cy * U) / (U * U); }
static double gArea(const LocationPoint& a, const LocationPoint& b, const LocationPoint& c) { return GetArea(lpU(a), lpU(b), lpU(c)) / (U * U); }
static double gProj(double ax, double ay, double bx, double by, double ox, double oy, double* px, double* py) { double k = GetProjection(ax * U, ay * U, bx * U, by * U, ox * U, oy * U, px, py); if (px) *px /= U; if (py) *py /= U; return k; }
static double gSeg(XYPoint a, XYPoint b, XYPoint p) { return SegmentPointDist(XYPoint(a.x * U, a.y * U), XYPoint(b.x * U, b.y * U), XYPoint(p.x * U, p.y * U)) / U; }
static bool gCross(double ax, double ay, double bx, double by, double cx, double cy, double dx, double dy) { return CheckIntersection(ax * U, ay * U, bx * U, by * U, cx * U, cy * U, dx * U, dy * U); }
static double gInter(double ax, double ay, double bx, double by, double cx, double cy, double dx, double dy, double* ox, double* oy) { double k = GetIntersection(ax * U, ay * U, bx * U, by * U, cx * U, cy * U, dx * U, dy * U, ox, oy); if (ox) *ox /= U; if (oy) *oy /= U; return k; }
static bool gOn(double x, double y, double ax, double ay, double bx, double by) { return PointOnLine(x * U, y * U, ax * U, ay * U, bx * U, by * U); }
static bool gRay(double x, double y, double ax, double ay, double bx, double by) { return XRayIntersectsLine(x * U, y * U, ax * U, ay * U, bx * U, by * U); }
static void scale(G& g) { U = std::ldexp(1.0, -(int)g.pick({0, 0, 3, 6, 9})); NOTE(g, "all coordinates times " << U); g.label("centimetre grid", U < 0.05); }

static void crossing(G& g) {
  scale(g);
  int m = g.pick({3, 10, 1000});
  P2 a = ipt(g, m), b = ipt(g, m), c = ipt(g, m), d = ipt(g, m);
  if (g.chance(1, 3)) { if (g.boolean()) b.y = a.y; else b.x = a.x; }
  if (g.chance(1, 3)) { if (g.boolean()) d.x = c.x; else d.y = c.y; }
  int s1 = sgn(cr(a, b, c)), s2 = sgn(cr(a, b, d)), s3 = sgn(cr(c, d, a)), s4 = sgn(cr(c, d, b));
  bool proper = s1 * s2 < 0 && s3 * s4 < 0;
  auto on = [](P2 a, P2 b, P2 p) { return cr(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y); };
  bool touch = proper || on(a, b, c) || on(a, b, d) || on(c, d, a) || on(c, d, b);
  NOTE(g, "AB=" << S(a) << S(b) << " CD=" << S(c) << S(d) << " proper=" << proper << " touch=" << touch);
  g.nontrivial(proper);
  g.label("axis-parallel proper", proper && (a.x == b.x || a.y == b.y || c.x == d.x || c.y == d.y));
  bool got = gCross(a.x, a.y, b.x, b.y, c.x, c.y, d.x, d.y);
  if (proper) REQUIRE("crossing-missed", got, "segments " << S(a) << S(b) << " and " << S(c) << S(d) << " cross but are reported apart");
  if (!touch) REQUIRE("crossing-phantom", !got, "segments " << S(a) << S(b) << " and " << S(c) << S(d) << " are apart but reported crossing");
  REQUIRE("crossing-symmetry", got == gCross(b.x, b.y, a.x, a.y, c.x, c.y, d.x, d.y) && got == gCross(c.x, c.y, d.x, d.y, a.x, a.y, b.x, b.y) && got == gCross(a.x, a.y, b.x, b.y, d.x, d.y, c.x, c.y),
          "crossing of " << S(a) << S(b) << " and " << S(c) << S(d) << " depends on end point order");
  P2 t = ipt(g, 500);
  REQUIRE("crossing-translation", got == gCross(a.x + t.x, a.y + t.y, b.x + t.x, b.y + t.y, c.x + t.x, c.y + t.y, d.x + t.x, d.y + t.y), "crossing changes under translation by " << S(t));
  // GetIntersection of PQ = ab with segment cd
  double ox = 12345, oy = 54321;
  double k = gInter(a.x, a.y, b.x, b.y, c.x, c.y, d.x, d.y, &ox, &oy);
  I det = (I)(b.x - a.x) * (d.y - c.y) - (I)(b.y - a.y) * (d.x - c.x);
  if (det == 0) { REQUIRE("intersection", std::isnan(k), "parallel segments intersect at " << k); return; }
  I kn = (I)(c.x - a.x) * (d.y - c.y) - (I)(c.y - a.y) * (d.x - c.x), ln = (I)(c.x - a.x) * (b.y - a.y) - (I)(c.y - a.y) * (b.x - a.x);
  if (det < 0) { det = -det; kn = -kn; ln = -ln; }
  bool hit = kn >= 0 && kn <= det && ln >= 0 && ln <= det;
  bool rim = kn == 0 || kn == det || ln == 0 || ln == det;
  g.label("intersects", hit);
  if (!hit) REQUIRE("intersection", std::isnan(k), "segments " << S(a) << S(b) << " and " << S(c) << S(d) << " do not meet, reported at " << k);
  else {
    LD e = (LD)kn / (LD)det;
    if (std::isnan(k) && rim && kn != 0 && ln != 0) return;   // rounding at the far end of a segment
    REQUIRE("intersection", eq(k, e) && eq(ox, a.x + e * (b.x - a.x), m) && eq(oy, a.y + e * (b.y - a.y), m),
            "intersection of " << S(a) << S(b) << " and " << S(c) << S(d) << " reported k=" << k << " at (" << ox << "," << oy << "), expected k=" << (double)e);
    REQUIRE("intersection", eq(gInter(a.x, a.y, b.x, b.y, c.x, c.y, d.x, d.y, nullptr, nullptr), k), "result depends on output pointers");
  }
}

static void measures(G& g) {
  scale(g);
  int m = g.pick({2, 20, 100000});
  P2 a = ipt(g, m), b = ipt(g, m), c = ipt(g, m);
  if (g.chance(1, 8)) b = a;
  if (g.chance(1, 8)) c = b;
  bool degen = a.x == b.x && a.y == b.y;
  g.nontrivial(!degen && cr(a, b, c) != 0);
  NOTE(g, "A=" << S(a) << " B=" << S(b) << " C=" << S(c));
  LD ab = hypotl(a.x - b.x, a.y - b.y);
  REQUIRE("distance", eq(gDist(a.x, a.y, b.x, b.y), ab) && eq(gDist(lp(a), lp(b)), ab), "distance " << gDist(a.x, a.y, b.x, b.y) << " expected " << (double)ab);
  REQUIRE("distance", std::isnan(gDist(lp(a, "L"), lp(b, "M"))), "distance across levels is a number");
  LD area = (LD)cr(a, b, c) / 2;
  REQUIRE("area", eq(gArea(a.x, a.y, b.x, b.y, c.x, c.y), area) && eq(gArea(lp(a), lp(b), lp(c)), area), "area " << gArea(a.x, a.y, b.x, b.y, c.x, c.y) << " expected " << (double)area);
  REQUIRE("area", std::isnan(gArea(lp(a), lp(b, "M"), lp(c))) && std::isnan(gArea(lp(a), lp(b), lp(c, "M"))), "area across levels is a number");
  double ld = gDist(lp(a), lp(b), lp(c));
  if (degen) REQUIRE("line-distance", std::isnan(ld), "distance to a degenerate line is " << ld);
  else REQUIRE("line-distance", eq(ld, std::fabs((LD)cr(a, b, c)) / ab), "distance to line " << ld << " expected " << (double)(std::fabs((LD)cr(a, b, c)) / ab));
  REQUIRE("line-distance", std::isnan(gDist(lp(a, "M"), lp(b), lp(c))) && std::isnan(gDist(lp(a), lp(b), lp(c, "M"))), "line distance across levels is a number");
  // projection
  double px = 7e7, py = 7e7;
  double k = gProj(a.x, a.y, b.x, b.y, c.x, c.y, &px, &py);
  I dot = (I)(c.x - a.x) * (b.x - a.x) + (I)(c.y - a.y) * (b.y - a.y), len = (I)(b.x - a.x) * (b.x - a.x) + (I)(b.y - a.y) * (b.y - a.y);
  LD ek = degen ? 0 : (LD)dot / (LD)len;
  REQUIRE("projection", eq(k, ek) && eq(px, a.x + ek * (b.x - a.x), m) && eq(py, a.y + ek * (b.y - a.y), m), "projection k=" << k << " at (" << px << "," << py << ") expected k=" << (double)ek);
  REQUIRE("projection", eq(gProj(a.x, a.y, b.x, b.y, c.x, c.y, nullptr, nullptr), k), "projection depends on output pointers");
  // segment distance
  LD t = std::min<LD>(1, std::max<LD>(0, ek));
  LD sd = hypotl(a.x + t * (b.x - a.x) - c.x, a.y + t * (b.y - a.y) - c.y);
  double gd = gSeg(XYPoint(a.x, a.y), XYPoint(b.x, b.y), XYPoint(c.x, c.y));
  REQUIRE("segment-distance", eq(gd, sd), "distance to segment " << gd << " expected " << (double)sd);
  REQUIRE("segment-distance", eq(gSeg(XYPoint(b.x, b.y), XYPoint(a.x, a.y), XYPoint(c.x, c.y)), gd), "distance to segment depends on end point order");
  // point on segment
  bool on = cr(a, b, c) == 0 && std::min(a.x, b.x) <= c.x && c.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= c.y && c.y <= std::max(a.y, b.y);
  g.label("point on segment", on);
  REQUIRE("point-on-segment", gOn(c.x, c.y, a.x, a.y, b.x, b.y) == on && gOn(c.x, c.y, b.x, b.y, a.x, a.y) == on, "point " << S(c) << " on " << S(a) << S(b) << ": expected " << on);
  P2 mid{(a.x + b.x) / 2, (a.y + b.y) / 2};
  if (2 * mid.x == a.x + b.x && 2 * mid.y == a.y + b.y) REQUIRE("point-on-segment", gOn(mid.x, mid.y, a.x, a.y, b.x, b.y), "midpoint not on its segment");
  // ray to +x
  if (c.y != a.y && c.y != b.y && cr(a, b, c) != 0) {
    bool crosses = (a.y > c.y) != (b.y > c.y);
    if (crosses) { LD x = a.x + (LD)(c.y - a.y) * (b.x - a.x) / (LD)(b.y - a.y); crosses = x > c.x; }
    REQUIRE("ray", gRay(c.x, c.y, a.x, a.y, b.x, b.y) == crosses && gRay(c.x, c.y, b.x, b.y, a.x, a.y) == crosses, "ray from " << S(c) << " over " << S(a) << S(b) << " expected " << crosses);
  }
}

static void generic(G& g) {   // real coordinates: definitions with tolerance
  double M = g.pick({1.0, 50.0, 5000.0});
  double v[6]; for (double& x : v) x = g.uniform(-M, M);
  LD ax = v[0], ay = v[1], bx = v[2], by = v[3], cx = v[4], cy = v[5];
  LD len = hypotl(bx - ax, by - ay);
  if (len < 1e-2) g.discard();
  g.nontrivial();
  NOTE(g, "A=(" << v[0] << "," << v[1] << ") B=(" << v[2] << "," << v[3] << ") C=(" << v[4] << "," << v[5] << ")");
  LD t = ((cx - ax) * (bx - ax) + (cy - ay) * (by - ay)) / (len * len);
  double px, py, k = GetProjection(v[0], v[1], v[2], v[3], v[4], v[5], &px, &py);
  REQUIRE("projection", std::fabs(k - t) < 1e-6 * (1 + std::fabs(t)) && std::fabs(px - (ax + t * (bx - ax))) < 1e-6 * M && std::fabs(py - (ay + t * (by - ay))) < 1e-6 * M, "projection k=" << k << " expected " << (double)t);
  t = std::min<LD>(1, std::max<LD>(0, t));
  LD sd = hypotl(ax + t * (bx - ax) - cx, ay + t * (by - ay) - cy);
  REQUIRE("segment-distance", std::fabs(SegmentPointDist(XYPoint(v[0], v[1]), XYPoint(v[2], v[3]), XYPoint(v[4], v[5])) - sd) < 1e-7 * M, "segment distance expected " << (double)sd);
  LD det = (bx - ax) * (cy - ay) - (by - ay) * (cx - ax);
  REQUIRE("area", std::fabs(GetArea(v[0], v[1], v[2], v[3], v[4], v[5]) - det / 2) < 1e-9 * M * M, "area expected " << (double)(det / 2));
}

static void determinants(G& g) {
  long long m[9];
  for (auto& x : m) x = g.range(-50, 50);
  g.nontrivial();
  NOTE(g, "matrix " << m[0] << " " << m[1] << " " << m[2] << " / " << m[3] << " " << m[4] << " " << m[5] << " / " << m[6] << " " << m[7] << " " << m[8]);
  long long d2 = m[0] * m[3] - m[1] * m[2];
  REQUIRE("determinant", Determinant(m[0], m[1], m[2], m[3]) == d2, "2x2 determinant expected " << d2);
  long long d3 = m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]);
  double r = Determinant(m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8]);
  REQUIRE("determinant", r == d3, "3x3 determinant " << r << " expected " << d3);
}
// Even-odd parity of the ray over a whole polygon decides inside/outside, also when the ray passes through corners or along edges.
static void parity(G& g) {
  U = g.pick({1.0, 0.25, 4.0});
  int m = g.pick({3, 6, 20});
  std::vector<P2> v;
  for (int k = g.range(3, 9); k > 0; k--) { P2 p = ipt(g, m); if (p.x || p.y) v.push_back(p); }
  auto half = [](P2 p) { return p.y < 0 || (p.y == 0 && p.x < 0); };
  std::sort(v.begin(), v.end(), [&](P2 a, P2 b) { if (half(a) != half(b)) return half(a) < half(b); return (I)a.x * b.y - (I)a.y * b.x > 0; });
  v.erase(std::unique(v.begin(), v.end(), [&](P2 a, P2 b) { return half(a) == half(b) && (I)a.x * b.y - (I)a.y * b.x == 0; }), v.end());
  if (v.size() < 3) g.discard();
  size_t n = v.size();
  for (size_t i = 0; i < n; i++) { P2 a = v[i], b = v[(i + 1) % n]; if ((I)a.x * b.y - (I)a.y * b.x <= 0) g.discard(); }   // simple and counter-clockwise around the origin
  long long dx = g.range(-50, 50), dy = g.range(-50, 50);
  if (g.boolean()) for (P2& p : v) std::swap(p.x, p.y);
  for (P2& p : v) { p.x += dx; p.y += dy; }
  P2 q;
  if (g.chance(2, 3)) { q.y = v[g.draw(n - 1)].y; q.x = dx + g.range(-m - 2, m + 2); } else q = P2{dx + g.range(-m - 2, m + 2), dy + g.range(-m - 2, m + 2)};
  int winding = 0; bool rim = false, corner = false;
  for (size_t i = 0; i < n; i++) {
    P2 a = v[i], b = v[(i + 1) % n]; I c = cr(a, b, q);
    if (c == 0 && std::min(a.x, b.x) <= q.x && q.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= q.y && q.y <= std::max(a.y, b.y)) rim = true;
    if (a.y <= q.y && b.y > q.y && c > 0) winding++;
    if (b.y <= q.y && a.y > q.y && c < 0) winding--;
    if (a.y == q.y && a.x > q.x) corner = true;
  }
  if (rim) g.discard();
  bool inside = winding != 0, got = false;
  std::string poly; for (P2 p : v) poly += S(p);
  NOTE(g, "polygon " << poly << " times " << U << ", point " << S(q) << ", inside=" << inside);
  for (size_t i = 0; i < n; i++) { P2 a = v[i], b = v[(i + 1) % n]; if (gRay(q.x, q.y, a.x, a.y, b.x, b.y)) got = !got; }
  g.nontrivial(corner || inside);
  g.label("ray through a corner", corner); g.label("inside", inside);
  REQUIRE("ray-parity", got == inside, "counting the edges the ray from " << S(q) << " meets says inside=" << got << " for polygon " << poly);
}

static std::vector<pbt::Sub> subs() { return {{"crossing", crossing, 400000, 6000000}, {"measures", measures, 400000, 6000000}, {"generic", generic, 200000, 3000000}, {"determinants", determinants, 100000, 1000000}, {"parity", parity, 200000, 3000000}}; }
PBT_MAIN(subs)
