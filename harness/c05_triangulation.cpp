// C05: TriangulateVertices against a brute-force Delaunay oracle (long double predicates), plus per-level triangulate().
#include "mapgen.h"
#include "src/knn/knn_utils.h"
#include "src/triangulation.h"
#include <functional>
using namespace mg;
typedef long double LD;
typedef std::array<int, 3> Tri;
static LD orient(XY a, XY b, XY c) { return ((LD)b.first - a.first) * ((LD)c.second - a.second) - ((LD)b.second - a.second) * ((LD)c.first - a.first); }
static LD incircle(XY a, XY b, XY c, XY d) {
  LD ax = (LD)a.first - d.first, ay = (LD)a.second - d.second, bx = (LD)b.first - d.first, by = (LD)b.second - d.second, cx = (LD)c.first - d.first, cy = (LD)c.second - d.second;
  return (ax * ax + ay * ay) * (bx * cy - by * cx) - (bx * bx + by * by) * (ax * cy - ay * cx) + (cx * cx + cy * cy) * (ax * by - ay * bx);
}
static LD dist(XY a, XY b) { return hypotl((LD)a.first - b.first, (LD)a.second - b.second); }
struct Del { std::set<Tri> all, inBox; };   // Delaunay triangles; those whose circumcircle stays inside the bounding box + 10 m
// the same for many points: from one edge of the triangulation to the next
static bool delaunayMany(const std::vector<XY>& p, Del& out, std::vector<Tri>& ts) {
  int n = (int)p.size(), j = 1; for (int i = 1; i < n; i++) if (dist(p[0], p[i]) < dist(p[0], p[j])) j = i;
  std::set<std::pair<int, int>> done; std::vector<std::pair<int, int>> todo{{0, j}, {j, 0}}; std::set<Tri> seen;
  while (!todo.empty()) {
    auto e = todo.back(); todo.pop_back(); if (!done.insert(e).second) continue;
    int c = -1;
    for (int m = 0; m < n; m++) if (m != e.first && m != e.second && orient(p[e.first], p[e.second], p[m]) > 1e-6L && (c < 0 || incircle(p[e.first], p[e.second], p[c], p[m]) > 0)) c = m;
    if (c < 0) continue;
    done.insert({e.second, c}); done.insert({c, e.first}); todo.push_back({c, e.second}); todo.push_back({e.first, c});
    Tri t{e.first, e.second, c}; std::sort(t.begin(), t.end()); if (seen.insert(t).second) ts.push_back(t);
  }
  for (auto& t : ts) {
    if (fabsl(orient(p[t[0]], p[t[1]], p[t[2]])) < 1e-2) return false;
    for (int m = 0; m < n; m++) if (m != t[0] && m != t[1] && m != t[2]) { LD c = incircle(p[t[0]], p[t[1]], p[t[2]], p[m]); if (fabsl(c) < 1e-2) return false; }
  }
  return true;
}
static bool delaunay(const std::vector<XY>& p, Del& out) {
  int n = (int)p.size();
  LD x0 = 1e18, x1 = -1e18, y0 = 1e18, y1 = -1e18;
  for (auto& q : p) { x0 = std::min<LD>(x0, q.first); x1 = std::max<LD>(x1, q.first); y0 = std::min<LD>(y0, q.second); y1 = std::max<LD>(y1, q.second); }
  std::vector<Tri> many; if (n > 24 && !delaunayMany(p, out, many)) return false;
  auto add = [&](const Tri& t) {
    int i = t[0], j = t[1], k = t[2]; out.all.insert(t);
    LD ax = p[i].first, ay = p[i].second, bx = p[j].first - ax, by = p[j].second - ay, cx = p[k].first - ax, cy = p[k].second - ay;
    LD D = 2 * (bx * cy - by * cx), ux = (cy * (bx * bx + by * by) - by * (cx * cx + cy * cy)) / D, uy = (bx * (cx * cx + cy * cy) - cx * (bx * bx + by * by)) / D;
    LD r = hypotl(ux, uy); ux += ax; uy += ay;
    if (ux - r > x0 - 9.99 && ux + r < x1 + 9.99 && uy - r > y0 - 9.99 && uy + r < y1 + 9.99) out.inBox.insert(t);
  };
  for (auto& t : many) add(t);
  if (n <= 24) for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) for (int k = j + 1; k < n; k++) {
    LD o = orient(p[i], p[j], p[k]);
    if (fabsl(o) < 1e-2) return false;
    bool empty = true;
    for (int m = 0; m < n; m++) {
      if (m == i || m == j || m == k) continue;
      LD c = incircle(p[i], p[j], p[k], p[m]);
      if (fabsl(c) < 1e-2) return false;   // too close to cocircular to decide in double precision
      if ((c > 0) == (o > 0)) empty = false;
    }
    if (!empty) continue;
    add({i, j, k});
  }
  return true;
}
static std::vector<XY> genPoints(G& g, int n, double W, double H) {
  std::vector<XY> p;
  int kind = (int)g.draw(4);
  double ox = g.pick({0.0, 0.0, 100.0, -300.0}), oy = g.pick({0.0, 0.0, 50.0, -200.0});
  int cols = std::max(2, (int)std::ceil(std::sqrt((double)n)));
  for (int i = 0; i < n; i++) {
    double x, y;
    switch (kind) {
      case 0: x = g.uniform(0, W); y = g.uniform(0, H); break;
      case 1: x = W * (i % cols) / cols + g.uniform(-0.3, 0.3); y = H * (i / cols) / cols + g.uniform(-0.3, 0.3); break;   // survey grid
      case 2: x = W * i / n + g.uniform(-0.2, 0.2); y = (i % 2 ? 1.5 : 0) + g.uniform(-0.2, 0.2); break;                   // corridor
      case 3: { double a = 2 * PI_ * i / n; x = W / 2 + 0.4 * W * std::cos(a) + g.uniform(-0.4, 0.4); y = H / 2 + 0.4 * H * std::sin(a) + g.uniform(-0.4, 0.4); break; }   // ring
      default: { double cx = (g.draw(2)) * W / 2, cy = (g.draw(1)) * H; x = cx + g.uniform(-3, 3); y = cy + g.uniform(-3, 3); }   // clusters
    }
    p.push_back({ox + x, oy + y});
  }
  return p;
}
static std::set<Tri> run(const std::vector<XY>& p, const std::vector<int>& order, const std::vector<int>& nameOf, double maxedge, const std::function<std::string(int)>& idOf = [](int i) { return "rp" + std::to_string(i); }) {
  std::vector<TriangleVertex> v;
  for (int i : order) v.emplace_back(p[i].first, p[i].second, ReferencePointId(idOf(nameOf[i])));
  std::map<std::string, int> back;
  for (size_t i = 0; i < p.size(); i++) back[idOf(nameOf[i])] = (int)i;
  std::set<Tri> out;
  for (auto& t : TriangulateVertices(v, maxedge)) {
    Tri k; int n = 0;
    for (auto& q : {t.getA(), t.getB(), t.getC()}) {
      auto it = back.find(q.id.value);
      REQUIRE("input vertex", it != back.end(), "triangle vertex '" << q.id.value << "' is not an input point");
      REQUIRE("vertex coordinates", p[it->second].first == q.x && p[it->second].second == q.y, "vertex " << q.id.value << " moved to (" << q.x << "," << q.y << ")");
      k[n++] = it->second;
    }
    std::sort(k.begin(), k.end());
    REQUIRE("distinct vertices", k[0] != k[1] && k[1] != k[2], "degenerate triangle " << k[0] << "," << k[1] << "," << k[2]);
    REQUIRE("duplicate triangle", out.insert(k).second, "triangle " << k[0] << "," << k[1] << "," << k[2] << " reported twice");
  }
  return out;
}
static void points(G& g) {
  int n = 3 + g.small(g.chance(1, 8) ? 17 : 9); if (g.chance(1, 400)) n = g.chance(1, 4) ? 200 + (int)g.draw(80) : 40 + (int)g.draw(120);
  double W = g.pick({12.0, 30.0, 80.0}), H = g.pick({10.0, 25.0, 60.0});
  auto p = genPoints(g, n, W, H);
  double maxedge = g.chance(1, 3) ? 1e9 : g.uniform(3, 100);
  Del d;
  if (!delaunay(p, d)) g.discard();
  std::vector<int> order(n), name = g.permutation(n);
  std::iota(order.begin(), order.end(), 0);
  for (int i = 0; i < n; i++) NOTE(g, "point " << i << " (" << p[i].first << ", " << p[i].second << ") id rp" << name[i]);
  NOTE(g, "max edge " << maxedge << ", " << d.all.size() << " Delaunay triangles, " << d.inBox.size() << " clear of the border");
  g.nontrivial(n >= 5 && d.inBox.size() >= 3);
  auto got = run(p, order, name, maxedge);
  auto longest = [&](const Tri& t) { return std::max(dist(p[t[0]], p[t[1]]), std::max(dist(p[t[1]], p[t[2]]), dist(p[t[0]], p[t[2]]))); };
  int cut = 0;
  for (auto& t : got) {
    REQUIRE("delaunay", d.all.count(t), "triangle " << t[0] << "," << t[1] << "," << t[2] << " contains another point in its circumscribed circle");
    REQUIRE("max edge", longest(t) <= (LD)maxedge * (1 + 1e-12L), "triangle " << t[0] << "," << t[1] << "," << t[2] << " has an edge of " << (double)longest(t) << " > " << maxedge);
  }
  for (auto& t : d.inBox) {
    LD l = longest(t);
    if (fabsl(l - maxedge) < 1e-9) continue;
    if (l > maxedge) { cut++; continue; }
    REQUIRE("missing triangle", got.count(t), "Delaunay triangle " << t[0] << "," << t[1] << "," << t[2] << " (longest edge " << (double)l << ") is missing");
  }
  g.label("some triangles cut by max edge", cut > 0);
  Namer namer(g); bool tricky = g.chance(1, 4);
  auto perm = g.permutation(n), name2 = g.permutation(n);
  REQUIRE("order", run(p, perm, name2, maxedge, [&](int i) { return tricky ? "super" + std::to_string(i) : namer("rp", i); }) == got, "order or naming of the points changes the triangulation");
  if (maxedge < 1e8) {
    auto full = run(p, order, name, 1e9);
    std::set<Tri> f;
    for (auto& t : full) if (longest(t) <= maxedge) f.insert(t);
    REQUIRE("edge filter", f == got || [&] { for (auto& t : full) if (fabsl(longest(t) - maxedge) < 1e-9) return true; return false; }(), "maximum edge length removes or adds other triangles");
  }
}
// points surveyed on a regular grid: every cell is covered by two triangles, whatever the pitch, the direction and the order
static void grid(G& g) {
  int c = 2 + g.small(6), r = 2 + g.small(6); if (g.chance(1, 300)) { c = 10; r = 5 + (int)g.draw(8); }
  double p = g.pick({1.0, 2.5, 0.1, 3.7, 1.0 / 3, 5.0, g.real(0.5, 6)}), q = g.chance(1, 3) ? g.pick({1.0, 2.0, 0.7, 3.0}) : p, a = g.pick({0.0, 0.0, PI_ / 4, 0.3, g.real(0, 2)}), ox = g.pick({0.0, 137.3, -20.0}), noise = g.pick({0.0, 0.0, 1e-12, 1e-10, 1e-9});
  std::vector<XY> v; for (int i = 0; i < c; i++) for (int j = 0; j < r; j++) { double x = i * p, y = j * q; v.push_back({ox + x * std::cos(a) - y * std::sin(a) + noise * g.real(-1, 1), x * std::sin(a) + y * std::cos(a) + noise * g.real(-1, 1)}); }
  NOTE(g, "grid of " << c << " x " << r << " points, pitch " << p << " x " << q << ", turned by " << a << ", starting at " << ox << ", noise " << noise);
  auto got = run(v, g.permutation(c * r), g.permutation(c * r), 1e9);
  std::map<std::pair<int, int>, LD> cell; LD total = 0;
  for (auto& t : got) {
    LD s = fabsl(orient(v[t[0]], v[t[1]], v[t[2]])) / 2; if (s < 1e-6L * p * q) continue;   // slivers along the border have no area
    total += s;
    int i0 = std::min(t[0] / r, std::min(t[1] / r, t[2] / r)), i1 = std::max(t[0] / r, std::max(t[1] / r, t[2] / r)), j0 = std::min(t[0] % r, std::min(t[1] % r, t[2] % r)), j1 = std::max(t[0] % r, std::max(t[1] % r, t[2] % r));
    REQUIRE("cell", i1 - i0 == 1 && j1 - j0 == 1, "triangle " << t[0] << "," << t[1] << "," << t[2] << " is not half a cell");
    cell[{i0, j0}] += s;
  }
  for (auto& kv : cell) REQUIRE("covered once", fabsl(kv.second - (LD)p * q) < 1e-6L * p * q, "cell " << kv.first.first << "," << kv.first.second << " is covered by " << (double)kv.second << " instead of " << p * q);
  REQUIRE("all covered", (int)cell.size() == (c - 1) * (r - 1), cell.size() << " of " << (c - 1) * (r - 1) << " cells are covered");
  g.nontrivial(c > 2 && r > 2);
}
static void levels(G& g) {
  int nl = 1 + (int)g.draw(3); Namer namer(g);
  std::vector<LevelSpec> L;
  int with = 0;
  for (int i = 0; i < nl; i++) {
    LevelSpec l;
    l.id = std::string(1, "QADZ"[i]) + std::to_string(i);
    l.lat0 = 55.0 + 0.01 * i; l.lon0 = 37;
    l.W = g.uniform(10, 80); l.H = g.uniform(10, 80);
    l.area.push_back({rect(0, 0, l.W, l.H), {}});
    int n = g.chance(1, 4) ? (int)g.draw(3) : 4 + g.small(7);
    std::vector<XY> p;
    // reference points may be far apart compared with the level box (no triangle survives) or all inside
    double s = g.chance(1, 4) ? 12 : 1;
    for (int k = 0; k < n; k++) p.push_back({g.uniform(0, l.W * s), g.uniform(0, l.H * s)});
    Del d;
    if (n >= 3 && !delaunay(p, d)) g.discard();
    for (int k = 0; k < n; k++) l.rps.push_back({namer("r", i, k), p[k].first, p[k].second, {}});
    L.push_back(l);
    if (n > 3) with++;
  }
  auto lc = std::make_shared<LevelCollector>();
  for (auto& l : L) lc->addGeoLevel(toGeoLevel(l));
  auto tri = triangulate(lc);
  int nonEmpty = 0, emptyLv = 0;
  for (auto& l : L) {
    if (l.rps.size() <= 3) continue;
    double maxedge = std::max(l.W, l.H);
    Del d;
    std::vector<XY> p; std::map<std::string, int> back;
    for (auto& r : l.rps) { back[r.id] = (int)p.size(); p.push_back({r.x, r.y}); }
    if (!delaunay(p, d)) g.discard();
    std::set<Tri> got;
    auto it = tri.find(LevelId(l.id));
    if (it != tri.end()) for (auto& t : it->second) {
      Tri k{0, 0, 0}; int n = 0;
      for (auto& q : {t.rp1, t.rp2, t.rp3}) { REQUIRE("level vertex", back.count(q.value), "level " << l.id << " has triangle vertex " << q.value << " of another level"); k[n++] = back[q.value]; }
      std::sort(k.begin(), k.end());
      got.insert(k);
    }
    auto longest = [&](const Tri& t) { return std::max(dist(p[t[0]], p[t[1]]), std::max(dist(p[t[1]], p[t[2]]), dist(p[t[0]], p[t[2]]))); };
    NOTE(g, "level " << l.id << " " << l.W << "x" << l.H << " with " << l.rps.size() << " reference points: " << got.size() << " triangles");
    for (auto& t : got) {
      REQUIRE("level delaunay", d.all.count(t), "level " << l.id << ": triangle is not Delaunay");
      REQUIRE("level max edge", longest(t) < maxedge + 1e-3, "level " << l.id << ": edge " << (double)longest(t) << " longer than the level (" << maxedge << ")");
    }
    for (auto& t : d.inBox) if (longest(t) < maxedge - 1e-3) REQUIRE("level triangles", got.count(t), "level " << l.id << ": Delaunay triangle " << t[0] << "," << t[1] << "," << t[2] << " missing (" << got.size() << " triangles present)");
    (got.empty() ? emptyLv : nonEmpty)++;
  }
  g.nontrivial(with >= 2 && nonEmpty >= 1);
  g.label("a level without triangles among levels with", emptyLv > 0 && nonEmpty > 0);
}
static std::vector<pbt::Sub> subs() { return {{"points", points, 60000, 1500000}, {"grid", grid, 8000, 160000}, {"levels", levels, 8000, 200000}}; }
PBT_MAIN(subs)
