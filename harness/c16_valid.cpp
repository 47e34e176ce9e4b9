// C16: every output of the whole client is well-formed and on the map; graph projection, clamping, rounding; both azimuth conventions.
#include "e2e.h"
#include "src/position_postprocessor/position_postprocessor.h"
using namespace e2e;
struct Seg { XY a, b; };
static std::vector<Seg> segs(const LevelSpec& l) { std::vector<Seg> r; for (auto& e : l.edges) r.push_back({l.vertices[e.first], l.vertices[e.second]}); return r; }
static double graphDist(const std::vector<Seg>& s, double x, double y) { long double d = 1e300L; for (auto& q : s) d = std::min(d, Area::distSeg(x, y, q.a, q.b)); return (double)d; }

static void valid(G& g) {
  World w = genWorld(g); NavigationSettings s = genSettings(g, w); auto& c = s.commonSettings;
  auto m = genStream(g, w);
  if (m.empty()) g.discard();
  auto lc = collect(w);
  auto out = run(lc, s, m);
  note(g, w); NOTE(g, show(s)); note(g, m, out);
  // one output per message that is not older than the one before it
  std::vector<long long> acc; long long last = m[0].ts;
  for (auto& x : m) if (x.ts >= last) { last = x.ts; acc.push_back(x.ts); }
  REQUIRE("one output per message", out.size() == acc.size(), out.size() << " outputs for " << acc.size() << " accepted messages");
  int ok = 0, projected = 0, raw = 0; bool seenSat = false;
  for (size_t i = 0; i < out.size(); i++) {
    auto& o = out[i];
    if (auto q = boost::get<SensorMeasurementData>(&m[i].data)) seenSat = seenSat || q->type == ST::LOCATION;
    if (o.status != NavigationStatus::OK) {
      REQUIRE("error status", o.status == NavigationStatus::NAVIGATION_ERROR || o.status == NavigationStatus::NO_SOLUTION || o.status == NavigationStatus::NO_RPS || o.status == NavigationStatus::NO_LEVEL, "message " << i << ": status " << (int)o.status);
      REQUIRE("no position with an error", !o.posLevel.isValid() && o.posLatitude == 0 && o.posLongitude == 0 && o.posAltitude == 0, "message " << i << ": error status with position " << o.posLatitude << "," << o.posLongitude << " on level '" << o.posLevel.value << "'");
      continue;
    }
    ok++;
    REQUIRE("provider", o.provider == Provider::GNSS || o.provider == Provider::INDOOR || o.provider == Provider::FUSED, "message " << i << ": provider " << (int)o.provider);
    if (!seenSat) REQUIRE("provider without satellites", o.provider == Provider::INDOOR, "message " << i << ": provider " << (int)o.provider << " without any satellite fix");
    REQUIRE("radius", std::isfinite(o.posR) && o.posR >= 0, "message " << i << ": radius " << o.posR);
    if (o.provider == Provider::GNSS) REQUIRE("satellite radius", o.posR >= c.minGpsDeviation, "message " << i << ": satellite position with radius " << o.posR << ", below the minimum " << c.minGpsDeviation);
    REQUIRE("orientation", o.posOrientation >= -PI_ && o.posOrientation < PI_ + 1e-12, "message " << i << ": orientation " << o.posOrientation);
    const LevelSpec* l = find(w, o.posLevel.value);
    REQUIRE("level", l && lc->hasLevel(o.posLevel), "message " << i << ": level '" << o.posLevel.value << "'");
    REQUIRE("coordinates", std::isfinite(o.posLatitude) && std::isfinite(o.posLongitude) && std::fabs(o.posLatitude) <= 90 && o.posLongitude > -180 && o.posLongitude <= 180, "message " << i << ": " << show(o));
    const Level& lv = lc->level(o.posLevel);
    double x, y; toLocal(lv.bindingPoint().latitude, lv.bindingPoint().longitude, o.posLatitude, o.posLongitude, x, y);
    double ox, oy; toLocal(l->lat0, l->lon0, o.posLatitude, o.posLongitude, ox, oy);   // in the level's description
    bool free = c.useGpsOutsideMap && o.provider == Provider::GNSS;
    Area a; a.polys = l->area; a.box();
    if (!free) REQUIRE("inside the level", ox >= a.x0 - 0.0051 && ox <= a.x1 + 0.0051 && oy >= a.y0 - 0.0051 && oy <= a.y1 + 0.0051, "message " << i << ": (" << ox << "," << oy << ") is outside level " << l->id);
    if (o.provider == Provider::GNSS) { raw++; continue; }   // may be the satellite fix itself
    REQUIRE("centimetres", std::fabs(x * 100 - std::round(x * 100)) < 1e-4 && std::fabs(y * 100 - std::round(y * 100)) < 1e-4, "message " << i << ": local position (" << std::setprecision(10) << x << "," << y << ")");
    auto sg = segs(*l);
    if (c.useGraphProjection && !sg.empty() && !c.useStops) {
      double d = graphDist(sg, ox, oy);
      bool edge = ox < a.x0 + 0.006 || ox > a.x1 - 0.006 || oy < a.y0 + 0.006 || oy > a.y1 - 0.006;   // moved into the box after the projection was decided
      if (!edge) REQUIRE("on the graph", d < 0.0075 || d >= c.graphProjDist - 0.0075, "message " << i << ": (" << ox << "," << oy << ") is " << d << " m off the route graph, projection distance " << c.graphProjDist);
      projected += d < 0.0075;
    }
  }
  g.nontrivial(ok >= 2);
  g.label("on the graph", projected > 0); g.label("satellite positions", raw > 0);
}
static void azimuth(G& g) {
  World w = genWorld(g); NavigationSettings s = genSettings(g, w), n = s;
  auto m = genStream(g, w);
  if (m.empty()) g.discard();
  auto lc = collect(w);
  s.commonSettings.useEnuAzimuth = true; n.commonSettings.useEnuAzimuth = false;
  auto e = run(lc, s, m), o = run(lc, n, m);
  note(g, w); NOTE(g, show(s)); note(g, m, e);
  int ok = 0, turned = 0;
  REQUIRE("number of outputs", e.size() == o.size(), e.size() << " and " << o.size());
  for (size_t i = 0; i < e.size(); i++) {
    REQUIRE("convention changes the rest", e[i].status == o[i].status && e[i].posLevel == o[i].posLevel && e[i].posLatitude == o[i].posLatitude && e[i].posLongitude == o[i].posLongitude, "message " << i << ": " << show(e[i]) << " with east-based azimuth, " << show(o[i]) << " with north-based");
    if (e[i].status != NavigationStatus::OK) continue;
    ok++;
    double d = std::remainder(e[i].posOrientation + o[i].posOrientation - PI_ / 2, 2 * PI_);
    REQUIRE("mirrored", std::fabs(d) < 1e-9, "message " << i << " (" << show(m[i]) << "): east-based " << e[i].posOrientation << ", north-based " << o[i].posOrientation);
    turned += std::fabs(std::remainder(o[i].posOrientation - PI_ / 2, 2 * PI_)) > 0.01;
  }
  g.nontrivial(ok >= 2 && turned >= 1);
}
// the last stage alone: nearest graph edge, box, centimetres, dead reckoning, bounding box test
static void post(G& g) {
  NavigationSettings s; auto& c = s.commonSettings;
  c.useSmoothing = c.useTimeSmoothing = c.useStops = false;
  c.useGraphProjection = g.chance(2, 3); c.graphProjDist = g.pick({5.0, 1.0, 0.0, 1000.0, 12.5}); c.useGpsOutsideMap = g.chance(1, 4); c.deadReckoningTime = g.pick({5.0, 0.5, 30.0});
  Area area = pm::genArea(g); Level lev = pm::makeLevel("A", area);
  std::vector<XY> vs; std::vector<Seg> sg; Graph<XYPoint> gr;
  if (!g.chance(1, 6)) {
    int nv = 1 + g.sized(7, 60);
    for (int i = 0; i < nv; i++) { XY p{g.real(area.x0 - 3, area.x1 + 3), g.real(area.y0 - 3, area.y1 + 3)}; if (i && g.chance(1, 8)) p = vs.back(); vs.push_back(p); gr.addVertex(XYPoint(p.first, p.second)); }
    int ne = g.sized(8, 100);
    for (int i = 0; i < ne && nv > 1; i++) { int a = (int)g.draw(nv - 1), b = (int)g.draw(nv - 1); gr.addEdge(a, b); sg.push_back({vs[a], vs[b]}); NOTE(g, "edge (" << vs[a].first << "," << vs[a].second << ")-(" << vs[b].first << "," << vs[b].second << ")"); }
    lev.setGraph(gr);
  }
  NOTE(g, "box " << area.x0 << "," << area.y0 << " - " << area.x1 << "," << area.y1 << " projection " << c.useGraphProjection << " within " << c.graphProjDist << " outside map " << c.useGpsOutsideMap << " dead reckoning " << c.deadReckoningTime);
  PositionPostprocessor pp(std::make_shared<LevelCollector>(), s);
  long long now = g.pick({100000LL, 1700000000000LL}), dr = (long long)(1000 * c.deadReckoningTime);
  int n = 1 + g.small(15), proj = 0, clamped = 0, refused = 0;
  for (int i = 0; i < n; i++) {
    now += 1 + (long long)g.draw(3000);
    long long age = g.chance(1, 4) ? std::max(0LL, dr + (long long)g.range(-1, 1)) : g.chance(1, 4) ? (long long)g.draw(2 * dr) : 0;
    double x = g.real(area.x0 - 4, area.x1 + 4), y = g.real(area.y0 - 4, area.y1 + 4);
    if (g.chance(2, 3)) { x = g.real(area.x0, area.x1); y = g.real(area.y0, area.y1); }
    if (!sg.empty() && g.chance(1, 3)) { auto& q = g.pick(sg); double t = g.real(-0.2, 1.2); x = q.a.first + t * (q.b.first - q.a.first) + g.real(-6, 6); y = q.a.second + t * (q.b.second - q.a.second) + g.real(-6, 6); }
    Position p(x, y, LevelId("A"), g.real(0.5, 9), now - age, g.chance(1, 20), g.boolean() ? Provider::GNSS : Provider::FUSED, 0.0);
    Position r = pp.getProcessedPosition(p, now, MotionInfo(), lev);
    NOTE(g, "now " << now << " position (" << x << "," << y << ") " << age << " ms old" << (p.isEmpty ? " empty" : "") << " -> " << (r.isEmpty ? "none" : "") << " (" << r.x << "," << r.y << ") dev " << r.deviationM << " ts " << r.ts);
    bool in = x >= area.x0 && x <= area.x1 && y >= area.y0 && y <= area.y1;
    if (p.isEmpty || age >= dr || (!in && !c.useGpsOutsideMap)) { refused++; REQUIRE("refused", r.isEmpty, "a position that is " << (p.isEmpty ? "empty" : age >= dr ? "too old" : "outside the level") << " was reported"); continue; }
    REQUIRE("reported", !r.isEmpty && r.levelId == p.levelId && r.provider == p.provider && r.ts == now, "valid position not reported");
    REQUIRE("satellite radius", r.deviationM == p.deviationM, "radius " << r.deviationM << " instead of " << p.deviationM);
    // candidates: nearest points of all edges (ties allowed), or the point itself
    std::vector<XY> cand; long double best = 1e300L;
    if (c.useGraphProjection) for (auto& q : sg) best = std::min(best, Area::distSeg(x, y, q.a, q.b));
    if (c.useGraphProjection && best < c.graphProjDist + 1e-9 && !sg.empty()) for (auto& q : sg) if (Area::distSeg(x, y, q.a, q.b) <= best + 1e-9) {
      long double dx = (long double)q.b.first - q.a.first, dy = (long double)q.b.second - q.a.second, l = dx * dx + dy * dy, t = l > 0 ? ((x - q.a.first) * dx + (y - q.a.second) * dy) / l : 0;
      t = std::max(0.0L, std::min(1.0L, t)); cand.push_back({(double)(q.a.first + t * dx), (double)(q.a.second + t * dy)}); proj++;
    }
    if (!c.useGraphProjection || sg.empty() || best > c.graphProjDist - 1e-9) cand.push_back({x, y});
    bool hit = false; std::ostringstream o;
    for (auto& q : cand) { double qx = std::min(std::max(q.first, area.x0), area.x1), qy = std::min(std::max(q.second, area.y0), area.y1); clamped += qx != q.first || qy != q.second; hit = hit || (std::fabs(qx - r.x) < 0.01001 && std::fabs(qy - r.y) < 0.01001); o << " (" << qx << "," << qy << ")"; }
    REQUIRE("reported point", hit, "reported (" << r.x << "," << r.y << ") instead of" << o.str());
    REQUIRE("centimetres", std::fabs(r.x * 100 - std::round(r.x * 100)) < 1e-6 && std::fabs(r.y * 100 - std::round(r.y * 100)) < 1e-6, "reported (" << std::setprecision(12) << r.x << "," << r.y << ")");
  }
  g.nontrivial(proj + clamped > 0);
  g.label("projected", proj > 0); g.label("clamped", clamped > 0); g.label("refused", refused > 0);
}
static std::vector<pbt::Sub> subs() { return {{"valid", valid, 16000, 300000}, {"azimuth", azimuth, 6000, 100000}, {"post", post, 60000, 1000000}}; }
PBT_MAIN(subs)
