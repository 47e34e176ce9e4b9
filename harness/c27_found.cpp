// C27: end to end through the public client: who stays at a surveyed place is reported there, on its level; satellite fixes come back as given.
#include "e2e.h"
#include "knn_world.h"
using namespace e2e;
typedef e2e::World EWorld;
struct Place { const LevelSpec* l; std::map<std::string, double> r; std::vector<XY> at; };   // readings and the local positions accepted for them
static EWorld cleanWorld(G& g) {
  EWorld w = genWorld(g);
  std::set<std::string> seen;
  for (auto& l : w.L) { std::vector<TxSpec> t; for (auto& x : l.txs) if (seen.insert(x.id).second) { x.type = TransmitterType::BEACON; t.push_back(x); } l.txs = t; }
  return w;
}
static NavigationSettings cleanSettings(G& g, const EWorld& w) {
  NavigationSettings s = genSettings(g, w); auto& c = s.commonSettings;
  c.useAlgorithm = g.chance(3, 4) ? CommonSettings::UseAlgorithm::KNN : CommonSettings::UseAlgorithm::ZONES;
  c.useBarometer = false; c.useGraphProjection = false; c.useGpsOutsideMap = false; c.sigCutOffRss = -100; c.signalsToUse = CommonSettings::SignalsToUse::BOTH; c.useStops = c.useSmoothing = c.useTimeSmoothing = false;
  c.sigAveragingTime = g.pick({1.0, 2.0, 0.5, 3.0, 1.5}); c.sigWindowShift = g.pick({0.0, 0.5, 1.0, 0.3}); c.deadReckoningTime = g.pick({5.0, 30.0}); c.noSignalTimeThreshold = 35; c.useAltitude = false;
  c.numClosestAps = 3 + (unsigned)g.draw(3);
  if (c.useAlgorithm != CommonSettings::UseAlgorithm::KNN) c.useRadiomap = false;
  return s;
}
// a place to stay: the readings of a reference point (or of any place, in zone mode) and where they should put the user
static bool findPlace(G& g, const EWorld& w, const std::shared_ptr<LevelCollector>& lc, const Triangles& tris, const CommonSettings& c, Place& p) {
  const LevelSpec& l = g.pick(w.L); p.l = &l; p.r.clear(); p.at.clear();
  bool zone = c.useAlgorithm != CommonSettings::UseAlgorithm::KNN;
  if (!l.rps.empty() && (!zone || g.boolean())) for (auto& kv : g.pick(l.rps).fp) p.r[kv.first] = kv.second.mean;
  else { double x = g.uniform(0, l.W), y = g.uniform(0, l.H); for (auto& t : l.txs) p.r[t.id] = e2e::sim(t, x, y) + g.normal(); }
  for (auto& kv : p.r) if (kv.second > -1 || kv.second < -99) return false;
  if (p.r.empty()) return false;
  std::vector<std::pair<double, std::string>> v; for (auto& kv : p.r) v.push_back({kv.second, kv.first});
  std::sort(v.rbegin(), v.rend());
  for (size_t i = 1; i < v.size(); i++) if (v[i - 1].first - v[i].first < 1e-6) return false;
  if (c.useClosestAps && v.size() > c.numClosestAps) v.resize(c.numClosestAps);
  RadioMeasurementsData m; for (auto& q : v) { RadioMeasurementData d; d.type = RT::BEACON; d.id = TransmitterId(q.second); d.rssi = q.first; m.push_back(d); }
  if (c.useRadiomap && v.size() < 3) return false;   // levels told apart by their fingerprints
  const Level& level = lc->level(LevelId(l.id));
  if (zone) { for (auto& t : l.txs) if (t.id == v[0].second) p.at.push_back({t.x, t.y}); }
  else { Expected e = expectPosition(l, level, tris, m, c); if (!e.solution) return false; p.at = e.accept; }
  for (auto& a : p.at) if (a.first < 0 || a.second < 0) return false;
  return true;
}
static void emit(G& g, std::vector<Measurement>& m, long long ts, const Place& p, const CommonSettings& c, bool sensors, bool anyOrder) {
  std::vector<Measurement> t; for (auto& kv : p.r) t.push_back(radio(ts, kv.first, kv.second));
  std::vector<int> pm; if (anyOrder) pm = g.permutation((int)t.size()); else for (size_t i = 0; i < t.size(); i++) pm.push_back((int)i);   // without overlap of the windows the first reading of a scan belongs to the scan before: the order must not vary
  for (int i : pm) { m.push_back(t[i]); if (sensors && g.chance(1, 5)) m.push_back(sensor(ts, ST::ACCELEROMETER, 0.1, 0.1, 9.8)); }
  if (!c.useClosestAps && g.chance(1, 6)) m.push_back(radio(ts, "stranger", -60));
}
static void judge(G& g, const Place& p, const Measurement& m, const NavigationOutput& o, size_t i) {
  REQUIRE("found", o.status == NavigationStatus::OK, "message " << i << " (" << show(m) << "): " << show(o) << " although the user has been at one place long enough");
  REQUIRE("level", o.posLevel.value == p.l->id && o.provider == Provider::INDOOR, "message " << i << ": " << show(o) << " for a user on level " << p.l->id);
  double x, y; toLocal(p.l->lat0, p.l->lon0, o.posLatitude, o.posLongitude, x, y);
  bool ok = false; for (auto& a : p.at) ok = ok || (std::fabs(a.first - x) < 0.0062 && std::fabs(a.second - y) < 0.0062);
  REQUIRE("place", ok, "message " << i << " (" << show(m) << "): reported at (" << x << "," << y << ") of level " << p.l->id << " instead of (" << p.at[0].first << "," << p.at[0].second << ")");
}
static std::string show(const Place& p) { std::ostringstream o; o << "level " << p.l->id << " at (" << p.at[0].first << "," << p.at[0].second << "):"; for (auto& kv : p.r) o << " " << kv.first << "=" << kv.second; return o.str(); }
static void survey(G& g) {
  EWorld w = cleanWorld(g); NavigationSettings s = cleanSettings(g, w); auto& c = s.commonSettings;
  auto lc = collect(w); auto tris = triangulate(lc);
  bool standing = g.chance(1, 3);
  if (standing) { c.useStops = g.boolean(); c.useSmoothing = g.chance(3, 4); c.useTimeSmoothing = g.boolean(); c.useBarriers = g.chance(1, 5); }
  int n = standing ? 1 : 1 + g.small(4);
  long long ts = g.pick({100000LL, 1700000000000LL}), tick = g.pick({500LL, 200LL, 1000LL, 350LL});
  long long avg = (long long)std::llround(1000 * c.sigAveragingTime), shift = (long long)std::llround(1000 * c.sigWindowShift); if (shift == 0 || shift > avg) shift = avg;
  long long settle = 2 * avg + 8 * (std::max(shift, tick) + tick);
  note(g, w); NOTE(g, show(s) << " closest " << (c.useClosestAps ? (int)c.numClosestAps : 0) << " k " << c.kNeighbors << " triangles " << c.useTriangles << " diff " << c.useDiffMode << ", a scan every " << tick << " ms");
  auto cl = createNavigationClient(lc, s);
  int judged = 0, levels = 0; std::string lastLevel; bool sensors = g.boolean(), moved = false; XY prev{1e9, 1e9};
  for (int k = 0; k < n; k++) {
    Place p; bool got = false;
    for (int a = 0; a < 6 && !got; a++) got = findPlace(g, w, lc, tris, c, p);
    if (!got) { if (k == 0) g.discard(); break; }
    NOTE(g, "from " << ts << " " << show(p));
    if (lastLevel != p.l->id) { levels++; lastLevel = p.l->id; }
    moved = moved || (prev.first < 1e8 && std::hypot(prev.first - p.at[0].first, prev.second - p.at[0].second) > 1); prev = p.at[0];
    long long start = ts, end = ts + settle + 4 * tick + (long long)g.draw(3000);
    size_t i = 0;
    while (ts < end) {
      std::vector<Measurement> m; emit(g, m, ts, p, c, sensors, avg > shift);
      auto o = cl->navigate(m);
      REQUIRE("one output each", o.size() == m.size(), o.size() << " outputs for " << m.size() << " messages");
      for (size_t j = 0; j < m.size(); j++, i++) if (ts - start >= settle) { NOTE(g, show(m[j]) << " -> " << show(o[j])); judge(g, p, m[j], o[j], i); judged++; }
      ts += tick;
    }
  }
  g.nontrivial(judged >= 3);
  g.label(standing ? "standing" : "moving on"); g.label("several levels", levels > 1); g.label("several places", moved); g.label(c.useAlgorithm == CommonSettings::UseAlgorithm::KNN ? "fingerprints" : "zones");
}
static void satellite(G& g) {
  EWorld w = cleanWorld(g); NavigationSettings s = cleanSettings(g, w); auto& c = s.commonSettings;
  c.useGpsSigmaFilter = false; c.useEnuAzimuth = g.boolean();
  auto lc = collect(w); auto cl = createNavigationClient(lc, s);
  long long ts = g.pick({100000LL, 1700000000000LL}); int n = 1 + g.small(20), ok = 0, out = 0;
  note(g, w); NOTE(g, "accuracy " << c.minGpsDeviation << ".." << c.maxGpsDeviation);
  for (int i = 0; i < n; i++) {
    ts += g.chance(1, 60) ? farGap(g) : 200 + (long long)g.draw(5000);
    const LevelSpec& l = g.pick(w.L);
    double x = g.uniform(-0.2, 1.2) * l.W, y = g.uniform(-0.2, 1.2) * l.H, z = g.pick({3.0, 8.0, 1.0, 25.0, 40.0}), lat, lon;
    toGeo(l.lat0, l.lon0, x, y, lat, lon);
    const LevelSpec* in = nullptr; bool edge = false;   // the first level whose box holds the fix
    for (auto& q : w.L) { double u, v, W = q.W, H = q.H; if (q.area.size() > 1) W = std::max(W, q.area[1].outer[2].first); toLocal(q.lat0, q.lon0, lat, lon, u, v); for (double e : {u, v, u - W, v - H}) edge = edge || std::fabs(e) < 1e-4; if (!in && u > 0 && v > 0 && u < W && v < H) in = &q; }
    if (edge) continue;
    auto o = cl->navigate({sensor(ts, ST::LOCATION, lat, lon, z)});
    NOTE(g, ts << " fix " << std::setprecision(10) << lat << "," << lon << " +-" << z << " -> " << (o.empty() ? "nothing" : show(o[0])));
    REQUIRE("one output each", o.size() == 1, o.size() << " outputs for one fix");
    if (in && std::max(z, c.minGpsDeviation) <= c.maxGpsDeviation) {
      ok++;
      REQUIRE("fix reported", o[0].status == NavigationStatus::OK && o[0].provider == Provider::GNSS && o[0].posLevel.value == in->id, "fix on level " << in->id << " without any radio reading: " << show(o[0]));
      double u, v; toLocal(in->lat0, in->lon0, o[0].posLatitude, o[0].posLongitude, u, v); double a, b; toLocal(in->lat0, in->lon0, lat, lon, a, b);
      REQUIRE("fix place", std::hypot(u - a, v - b) < 0.011, "fix reported " << std::hypot(u - a, v - b) << " m off");
      REQUIRE("fix radius", o[0].posR == std::max(z, c.minGpsDeviation), "radius " << o[0].posR << " for accuracy " << z);
    } else { out++; REQUIRE("fix refused", o[0].status != NavigationStatus::OK || ok > 0, "fix outside every level or too inaccurate, reported " << show(o[0])); }
  }
  g.nontrivial(ok >= 1); g.label("refused", out > 0);
}
static std::vector<pbt::Sub> subs() { return {{"survey", survey, 8000, 160000}, {"satellite", satellite, 20000, 300000}}; }
PBT_MAIN(subs)
