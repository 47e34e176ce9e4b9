// C03: LevelGeometry::isPathTouchesBarriers against exact rational plane geometry (grid coordinates) and, for generic
// coordinates, against a long-double model that abstains within a margin of every contact.
#include "mapgen.h"
using namespace mg;
typedef __int128 I;
struct Q { I n, d; };   // rational, d > 0
static Q mk(I n, I d) { if (d < 0) { n = -n; d = -d; } return {n, d}; }
static bool lt(const Q& a, const Q& b) { return a.n * b.d < b.n * a.d; }
struct P2 { long long x, y; };
static I cross(P2 a, P2 b, P2 c) { return (I)(b.x - a.x) * (c.y - a.y) - (I)(b.y - a.y) * (c.x - a.x); }
static int sgn(I v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
static bool onSeg(P2 a, P2 b, P2 p) { return cross(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y); }
static bool segInt(P2 a, P2 b, P2 c, P2 d) {
  int s1 = sgn(cross(a, b, c)), s2 = sgn(cross(a, b, d)), s3 = sgn(cross(c, d, a)), s4 = sgn(cross(c, d, b));
  if (s1 * s2 < 0 && s3 * s4 < 0) return true;
  return onSeg(a, b, c) || onSeg(a, b, d) || onSeg(c, d, a) || onSeg(c, d, b);
}
// point with rational coordinates (x/k, y/k); 1 inside, 0 boundary, -1 outside
static int where(const std::vector<P2>& r, I X, I Y, I k) {
  bool in = false;
  size_t n = r.size();
  for (size_t i = 0, j = n - 1; i < n; j = i++) {
    I ax = r[j].x * k, ay = r[j].y * k, bx = r[i].x * k, by = r[i].y * k;
    I c = (bx - ax) * (Y - ay) - (by - ay) * (X - ax);
    if (c == 0 && std::min(ax, bx) <= X && X <= std::max(ax, bx) && std::min(ay, by) <= Y && Y <= std::max(ay, by)) return 0;
    if ((ay > Y) != (by > Y)) { bool left = by > ay ? c > 0 : c < 0; if (left) in = !in; }
  }
  return in ? 1 : -1;
}
static bool segCovered(const std::vector<P2>& r, P2 p, P2 q) {
  std::vector<Q> t{{0, 1}, {1, 1}};
  size_t n = r.size();
  for (size_t i = 0, j = n - 1; i < n; j = i++) {
    P2 a = r[j], b = r[i];
    I dx = q.x - p.x, dy = q.y - p.y, ex = b.x - a.x, ey = b.y - a.y, den = dx * ey - dy * ex;
    if (den != 0) {
      I num = (I)(a.x - p.x) * ey - (I)(a.y - p.y) * ex;
      Q v = mk(num, den);
      if (!lt(v, {0, 1}) && !lt({1, 1}, v)) t.push_back(v);
    } else {
      for (P2 e : {a, b}) if (cross(p, q, e) == 0) { Q v = dx != 0 ? mk(e.x - p.x, dx) : mk(e.y - p.y, dy); if (!lt(v, {0, 1}) && !lt({1, 1}, v)) t.push_back(v); }
    }
  }
  std::sort(t.begin(), t.end(), lt);
  for (size_t i = 0; i < t.size(); i++) {
    Q u = t[i];
    if (where(r, (I)p.x * u.d + u.n * (q.x - p.x), (I)p.y * u.d + u.n * (q.y - p.y), u.d) < 0) return false;
    if (i + 1 < t.size() && lt(t[i], t[i + 1])) {
      Q m = mk(t[i].n * t[i + 1].d + t[i + 1].n * t[i].d, 2 * t[i].d * t[i + 1].d);
      if (where(r, (I)p.x * m.d + m.n * (q.x - p.x), (I)p.y * m.d + m.n * (q.y - p.y), m.d) < 0) return false;
    }
  }
  return true;
}
static bool segTouches(const std::vector<P2>& r, P2 p, P2 q) {
  if (where(r, p.x, p.y, 1) >= 0 || where(r, q.x, q.y, 1) >= 0) return true;
  for (size_t i = 0, j = r.size() - 1; i < r.size(); j = i++) if (segInt(p, q, r[j], r[i])) return true;
  return false;
}
struct IPoly { std::vector<P2> outer; std::vector<std::vector<P2>> inners; };
static bool oracle(const std::vector<IPoly>& area, const std::vector<P2>& path) {
  bool inside = false;
  for (auto& p : area) {
    bool all = true;
    for (size_t i = 0; i + 1 < path.size() && all; i++) all = segCovered(p.outer, path[i], path[i + 1]);
    inside = inside || all;
  }
  if (!inside) return true;
  for (auto& p : area) for (auto& r : p.inners) for (size_t i = 0; i + 1 < path.size(); i++) if (segTouches(r, path[i], path[i + 1])) return true;
  return false;
}
static std::vector<P2> irect(int x0, int y0, int x1, int y1) { return {{x0, y0}, {x0, y1}, {x1, y1}, {x1, y0}}; }
static std::vector<P2> shape(G& g, int x0, int y0, int w, int h) {   // rectilinear simple polygon within a w x h cell
  switch (g.draw(3)) {
    case 0: return irect(x0, y0, x0 + w, y0 + h);
    case 1: { int a = 1 + (int)g.draw(w - 2), b = 1 + (int)g.draw(h - 2); return {{x0, y0}, {x0, y0 + h}, {x0 + a, y0 + h}, {x0 + a, y0 + b}, {x0 + w, y0 + b}, {x0 + w, y0}}; }          // L
    case 2: { int a = 1 + (int)g.draw(w - 3), b = a + 1 + (int)g.draw(w - a - 2), c = 1 + (int)g.draw(h - 2); return {{x0, y0}, {x0, y0 + h}, {x0 + a, y0 + h}, {x0 + a, y0 + c}, {x0 + b, y0 + c}, {x0 + b, y0 + h}, {x0 + w, y0 + h}, {x0 + w, y0}}; }   // U
    default: { int a = 1 + (int)g.draw(w - 2); return {{x0, y0}, {x0 + a, y0 + h}, {x0 + w, y0}}; }   // triangle
  }
}
static Polygon toPoly(G& g, const IPoly& p, double sc, double ox, double oy) {
  auto put = [&](const std::vector<P2>& r) { PRing o; for (auto& q : r) o.push_back({ox + sc * q.x, oy + sc * q.y}); orientRing(g, o); return o; };
  Polygon o;
  for (auto& q : put(p.outer)) o.outer().push_back(Point(q.first, q.second));
  for (auto& r : p.inners) { o.inners().push_back({}); for (auto& q : put(r)) o.inners().back().push_back(Point(q.first, q.second)); }
  return o;
}
static std::string show(const std::vector<P2>& r) { std::string s; for (auto& p : r) s += "(" + std::to_string(p.x) + "," + std::to_string(p.y) + ")"; return s; }

static void grid(G& g) {
  std::vector<IPoly> area;
  int np = 1 + (int)g.draw(2);
  for (int i = 0; i < np; i++) {
    IPoly p;
    int w = 6 + (int)g.draw(14), h = 6 + (int)g.draw(14), x0 = (int)g.draw(10) + (g.boolean() ? 0 : 12 * i), y0 = (int)g.draw(6);
    p.outer = shape(g, x0, y0, w, h);
    int nh = g.small(6);
    for (int k = 0; k < nh; k++) {
      int hx = x0 + 1 + (int)g.draw(w - 4), hy = y0 + 1 + (int)g.draw(h - 4), hw = 1 + (int)g.draw(2), hh = 1 + (int)g.draw(2);
      std::vector<P2> r = g.chance(1, 3) ? std::vector<P2>{{hx, hy}, {hx + 1, hy + 2}, {hx + 2, hy}} : irect(hx, hy, hx + hw, hy + hh);
      p.inners.push_back(r);
    }
    area.push_back(p);
  }
  std::vector<P2> path;
  int n = 2 + g.small(4);
  for (int i = 0; i < n; i++) {
    P2 q;
    if (i == 0 && g.chance(3, 4)) { P2 a = area[0].outer[0]; q = {a.x + 1 + (long long)g.draw(8), a.y + 1 + (long long)g.draw(8)}; }
    else if (i == 0 || g.chance(1, 6)) q = {(long long)g.draw(30), (long long)g.draw(24)};
    else { q = path.back(); int d = (int)g.range(-4, 4); if (g.chance(1, 3)) { q.x += d; q.y += (int)g.range(-3, 3); } else if (g.boolean()) q.x += d; else q.y += d; }
    if (i == 0 || q.x != path.back().x || q.y != path.back().y) path.push_back(q);
  }
  if (path.size() < 2) path.push_back({path[0].x + 1, path[0].y});
  bool exp = oracle(area, path);
  bool inside = false;
  for (auto& p : area) { bool all = true; for (size_t i = 0; i + 1 < path.size() && all; i++) all = segCovered(p.outer, path[i], path[i + 1]); inside |= all; }
  g.nontrivial(inside);
  g.label("inside+hits obstacle", inside && exp); g.label("free", !exp); g.label("outside", !inside);
  for (auto& p : area) { NOTE(g, "outer " << show(p.outer)); for (auto& r : p.inners) NOTE(g, "  obstacle " << show(r)); }
  NOTE(g, "path " << show(path) << " touches=" << exp);
  double sc = g.pick({1.0, 0.5, 4.0}), ox = g.pick({0.0, -16.0, 1024.0}), oy = g.pick({0.0, -8.0});
  std::list<Polygon> polys;
  for (auto& p : area) polys.push_back(toPoly(g, p, sc, ox, oy));
  Linestring ls, rev;
  for (auto& p : path) ls.push_back(Point(ox + sc * p.x, oy + sc * p.y));
  rev.assign(ls.rbegin(), ls.rend());
  LevelGeometry geo = getGeometry(polys);
  bool got = geo.isPathTouchesBarriers(ls);
  REQUIRE("decision", got == exp, "path " << show(path) << " reported " << (got ? "touching" : "free") << ", exact geometry says " << (exp ? "touching" : "free"));
  REQUIRE("direction", geo.isPathTouchesBarriers(rev) == got, "reversed path gives a different answer");
  polys.reverse();
  for (auto& p : polys) std::reverse(p.inners().begin(), p.inners().end());
  REQUIRE("order", getGeometry(polys).isPathTouchesBarriers(ls) == got, "order of polygons changes the answer");
}

// generic coordinates: long double oracle with margins
typedef long double LD;
static LD pd(XY a, XY b, XY p) {
  LD vx = b.first - a.first, vy = b.second - a.second, wx = p.first - a.first, wy = p.second - a.second, l = vx * vx + vy * vy;
  LD t = l > 0 ? std::min<LD>(1, std::max<LD>(0, (vx * wx + vy * wy) / l)) : 0;
  return hypotl(wx - t * vx, wy - t * vy);
}
static bool crossLD(XY a, XY b, XY c, XY d) {
  auto cr = [](XY a, XY b, XY c) { return ((LD)b.first - a.first) * ((LD)c.second - a.second) - ((LD)b.second - a.second) * ((LD)c.first - a.first); };
  return (cr(a, b, c) > 0) != (cr(a, b, d) > 0) && (cr(c, d, a) > 0) != (cr(c, d, b) > 0);
}
static LD segDist(XY a, XY b, XY c, XY d) { if (crossLD(a, b, c, d)) return 0; return std::min(std::min(pd(a, b, c), pd(a, b, d)), std::min(pd(c, d, a), pd(c, d, b))); }
static bool pin(const PRing& r, XY p) { bool in = false; for (size_t i = 0, j = r.size() - 1; i < r.size(); j = i++) if ((r[i].second > p.second) != (r[j].second > p.second) && p.first < (LD)(r[j].first - r[i].first) * (p.second - r[i].second) / (r[j].second - r[i].second) + r[i].first) in = !in; return in; }

static void generic(G& g) {
  std::vector<PolySpec> area;
  int np = 1 + (int)g.draw(2);
  for (int i = 0; i < np; i++) {
    PolySpec p;
    double cx = g.uniform(-30, 30), cy = g.uniform(-30, 30);
    p.outer = star(g, cx, cy, 15, 40, g.chance(1, 12) ? 30 + (int)g.draw(90) : 3 + (int)g.draw(9));
    int nh = g.chance(1, 5) ? 17 + (int)g.draw(50) : g.small(12);
    double hr = nh > 12 ? 1.2 : 4;
    for (int k = 0; k < nh; k++) p.inners.push_back(star(g, cx + g.uniform(-18, 18), cy + g.uniform(-18, 18), 0.3, hr, g.chance(1, 20) ? 30 + (int)g.draw(90) : 3 + (int)g.draw(3)));
    area.push_back(p);
  }
  PRing path;
  int n = 2 + g.small(4);
  for (int i = 0; i < n; i++) {
    if (i == 0) { XY c0 = area[0].outer[0]; double u = g.uniform(0, 1); XY m = area[0].outer[area[0].outer.size() / 2]; path.push_back(g.chance(1, 4) ? XY(g.uniform(-40, 40), g.uniform(-40, 40)) : XY(c0.first + u * (m.first - c0.first) + g.uniform(-3, 3), c0.second + u * (m.second - c0.second) + g.uniform(-3, 3))); }
    else path.push_back({path.back().first + g.uniform(-9, 9), path.back().second + g.uniform(-9, 9)});
  }
  bool inside = false, hit = false; LD margin = 1e9;
  for (auto& p : area) {
    bool c = true;
    for (auto& q : path) c = c && pin(p.outer, q);
    for (size_t i = 0; i + 1 < path.size(); i++) for (size_t a = 0, b = p.outer.size() - 1; a < p.outer.size(); b = a++) {
      LD d = segDist(path[i], path[i + 1], p.outer[b], p.outer[a]);
      if (d == 0) c = false; else margin = std::min(margin, d);
      margin = std::min(margin, std::min(pd(path[i], path[i + 1], p.outer[a]), std::min(pd(p.outer[a], p.outer[b], path[i]), pd(p.outer[a], p.outer[b], path[i + 1]))));
    }
    inside |= c;
    for (auto& r : p.inners) {
      for (auto& q : path) hit = hit || pin(r, q);
      for (size_t i = 0; i + 1 < path.size(); i++) for (size_t a = 0, b = r.size() - 1; a < r.size(); b = a++) {
        LD d = segDist(path[i], path[i + 1], r[b], r[a]);
        if (d == 0) hit = true; else margin = std::min(margin, d);
        margin = std::min(margin, std::min(pd(path[i], path[i + 1], r[a]), std::min(pd(r[a], r[b], path[i]), pd(r[a], r[b], path[i + 1]))));
      }
    }
  }
  if (margin < 1e-6) g.discard();
  bool exp = !inside || hit;
  g.nontrivial(inside);
  g.label("inside+hits obstacle", inside && hit); g.label("free", !exp); g.label("outside", !inside);
  NOTE(g, np << " star polygons, path of " << n << " points, inside=" << inside << " hit=" << hit);
  std::list<Polygon> polys;
  for (auto& p : area) {
    Polygon o; PRing r = p.outer; orientRing(g, r);
    for (auto& q : r) o.outer().push_back(Point(q.first, q.second));
    for (auto in : p.inners) { orientRing(g, in); o.inners().push_back({}); for (auto& q : in) o.inners().back().push_back(Point(q.first, q.second)); }
    polys.push_back(o);
  }
  Linestring ls; for (auto& q : path) ls.push_back(Point(q.first, q.second));
  bool got = getGeometry(polys).isPathTouchesBarriers(ls);
  REQUIRE("decision", got == exp, "path reported " << (got ? "touching" : "free") << ", geometry says inside=" << inside << " hits obstacle=" << hit << " (nearest contact " << (double)margin << " m)");
}
static std::vector<pbt::Sub> subs() { return {{"grid", grid, 60000, 800000}, {"generic", generic, 60000, 800000}}; }
PBT_MAIN(subs)
