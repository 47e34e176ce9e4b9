// C20: zone positioning against its definition, through the estimator and through the whole client.
#include "pbt.h"
#include "e2e.h"
#include "src/position_estimator/position_estimator_zone.h"
using namespace e2e;

static double radius(const LevelSettings& s, double rssi) { return std::sqrt(std::exp((s.normalModeA - rssi) / s.normalModeB)) + 1.0; }

static LevelSettings genLevelSettings(G& g) { LevelSettings s; if (g.chance(2, 3)) { s.normalModeA = g.pick({-82.0, -60.0, -40.0, -90.5}); s.normalModeB = g.pick({3.0, 5.0, 10.0, 22.5}); } return s; }

static void estimator(G& g) {
  World w = genWorld(g);
  note(g, w);
  auto lc = collect(w);
  NavigationSettings s;
  s.commonSettings.useAlgorithm = CommonSettings::UseAlgorithm::ZONES;
  s.commonSettings.useTxPower = g.boolean();
  for (auto& l : w.L) if (!g.chance(1, 10)) s.levelsSettings[LevelId(l.id)] = genLevelSettings(g);
  PositionEstimatorZone est(lc, s);
  int rounds = 1 + (int)g.draw(4);
  bool some = false, foreignStrongest = false;
  for (int r = 0; r < rounds; r++) {
    const LevelSpec& l = g.pick(w.L);
    const Level& level = lc->level(LevelId(l.id));
    RadioMeasurementsData msr;
    std::vector<double> used;
    bool tie = false;
    auto add = [&](const std::string& id) {
      RadioMeasurementData d; d.id = TransmitterId(id); d.type = g.pick({RT::BEACON, RT::WIFI, RT::EDDYSTONE, RT::WIFI_RTT});
      d.rssi = g.chance(1, 4) ? -40.0 - (double)g.draw(50) : -30 - g.uniform(0, 70);
      d.power = g.chance(1, 4) ? g.uniform(-80, 20) : 0; d.distance = g.chance(1, 3) ? g.uniform(0.1, 50) : 0; d.stddev = g.chance(1, 4) ? 3 : 0;
      msr.push_back(d);
    };
    for (auto& q : w.L) for (auto& t : q.txs) if (g.chance(1, 2)) add(t.id);
    if (g.chance(1, 4)) add("stranger");
    msr = [&] { RadioMeasurementsData q; for (int i : g.permutation((int)msr.size())) q.push_back(msr[i]); return q; }();
    long long ts = 1000 + (long long)g.draw(1000000);
    NOTE(g, "level " << l.id << " at " << ts << " readings" << [&] { std::ostringstream o; for (auto& m : msr) o << " " << m.id.value << ":" << m.rssi; return o.str(); }());
    const TxSpec* best = nullptr; double bestRssi = -1e9, overall = -1e9;
    for (auto& m : msr) {
      overall = std::max(overall, m.rssi);
      for (auto& t : l.txs) if (t.id == m.id.value) { if (best && m.rssi == bestRssi && best->id != t.id) tie = true; if (!best || m.rssi > bestRssi) { best = &t; bestRssi = m.rssi; tie = false; } break; }
    }
    NavigationStatus st = NavigationStatus::NAVIGATION_ERROR;
    Position p = est.calculatePosition(level, ts, msr, MotionInfo(), st);
    if (!best) {
      g.label("no reading of the level");
      REQUIRE("no solution", p.isEmpty && st == NavigationStatus::NO_SOLUTION, "no reading of level " << l.id << " but status " << (int)st << " empty " << p.isEmpty);
      continue;
    }
    some = true; foreignStrongest |= overall > bestRssi;
    REQUIRE("status", st == NavigationStatus::OK && !p.isEmpty, "reading of " << best->id << " gives status " << (int)st << " empty " << p.isEmpty);
    REQUIRE("stamp", p.ts == ts && p.levelId.value == l.id && p.provider == Provider::INDOOR, "position stamped " << p.ts << " on " << p.levelId.value << " provider " << (int)p.provider);
    auto it = s.levelsSettings.find(LevelId(l.id));
    double R = radius(it == s.levelsSettings.end() ? LevelSettings() : it->second, bestRssi);
    if (R < 1e100) REQUIRE("radius", pbt::close(p.deviationM, R, 1e-9), "radius " << p.deviationM << " expected " << R);
    if (!tie) REQUIRE("position", std::fabs(p.x - best->x) < 1e-6 && std::fabs(p.y - best->y) < 1e-6, "position (" << p.x << "," << p.y << ") but strongest is " << best->id << " at (" << best->x << "," << best->y << ")");
    // order and readings of other levels do not matter
    RadioMeasurementsData own;
    for (auto& m : msr) for (auto& t : l.txs) if (t.id == m.id.value) { own.push_back(m); break; }
    std::reverse(own.begin(), own.end());
    Position q = est.calculatePosition(level, ts, own, MotionInfo(), st);
    REQUIRE("other levels", st == NavigationStatus::OK && q.deviationM == p.deviationM && (tie || (q.x == p.x && q.y == p.y)), "only the level's readings, reversed: (" << q.x << "," << q.y << ") r " << q.deviationM << " instead of (" << p.x << "," << p.y << ") r " << p.deviationM);
  }
  g.nontrivial(some);
  g.label("another level's reading is stronger", foreignStrongest);
}

// through the client: one level, no averaging, so every valid reading is a vector of its own
static void client(G& g) {
  WorldOpt wo; wo.maxLevels = 1;
  World w = genWorld(g, wo);
  note(g, w);
  auto lc = collect(w);
  const LevelSpec& l = w.L[0];
  NavigationSettings s;
  s.commonSettings.useAlgorithm = g.pick({CommonSettings::UseAlgorithm::ZONES, CommonSettings::UseAlgorithm::ZONES, CommonSettings::UseAlgorithm::GRAPH, CommonSettings::UseAlgorithm::PF_PDR});
  s.commonSettings.sigAveragingTime = 0; s.commonSettings.useSmoothing = false; s.commonSettings.minNumSats = 0;
  if (g.chance(3, 4)) s.levelsSettings[LevelId(l.id)] = genLevelSettings(g);
  LevelSettings ls = s.levelsSettings.count(LevelId(l.id)) ? s.levelsSettings[LevelId(l.id)] : LevelSettings();
  auto c = createNavigationClient(lc, s);
  long long ts = 100000;
  std::vector<Measurement> m; std::vector<const TxSpec*> who; std::vector<double> rs;
  int n = 1 + g.sized(25, 300);
  for (int i = 0; i < n; i++) {
    ts += g.chance(1, 60) ? farGap(g) : g.pick({0LL, 1LL, 100LL, 900LL});
    const TxSpec& t = g.pick(l.txs);
    double r = -45 - g.uniform(0, 50);
    bool valid = t.type != TransmitterType::LOCATOR;
    m.push_back(radio(ts, t.id, r)); who.push_back(valid ? &t : nullptr); rs.push_back(r);
  }
  auto o = c->navigate(m);
  REQUIRE("outputs", o.size() == m.size(), o.size() << " outputs for " << m.size() << " messages");
  bool seen = false;
  for (size_t i = 0; i < m.size(); i++) {
    NOTE(g, show(m[i]) << " -> " << show(o[i]));
    if (!who[i]) continue;
    seen = true;
    REQUIRE("client position", o[i].status == NavigationStatus::OK && o[i].posLevel.value == l.id, "reading of " << who[i]->id << " reported as " << show(o[i]));
    double a, b; toGeo(l.lat0, l.lon0, who[i]->x, who[i]->y, a, b);
    REQUIRE("client position", std::fabs(o[i].posLatitude - a) < 1.2e-7 && std::fabs(o[i].posLongitude - b) < 2e-7, "reading of " << who[i]->id << " at " << a << "," << b << " reported as " << show(o[i]));
    double R = radius(ls, rs[i]);
    if (R < 1e100) REQUIRE("client radius", pbt::close(o[i].posR, R, 1e-9), "radius " << o[i].posR << " expected " << R);
  }
  g.nontrivial(seen);
}
static std::vector<pbt::Sub> subs() { return {{"estimator", estimator, 60000, 1500000}, {"client", client, 15000, 400000}}; }
PBT_MAIN(subs)
