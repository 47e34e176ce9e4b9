// C06: PositionEstimatorKnn against an independent weighted-centroid model.
#include "knn_world.h"
#include "src/position_estimator/position_estimator_knn.h"
using namespace mg;
static void positions(G& g) {
  World w = world(g);
  NavigationSettings s;
  auto& c = s.commonSettings;
  c.useAlgorithm = CommonSettings::UseAlgorithm::KNN;
  c.useTriangles = g.boolean(); c.useDiffMode = !w.positive && g.boolean(); c.kNeighbors = g.sized(10, 200, 20); c.minNumOfMeasurementsForPositionCalculation = (unsigned)g.sized(5, 40, 20);
  PositionEstimatorKnn est(w.lc, s);
  auto tris = triangulate(w.lc);
  int calls = 1 + g.small(5);
  Position last; last.isEmpty = true;
  long long ts = 1000;
  NOTE(g, (c.useTriangles ? "triangles" : "k nearest") << " diff=" << c.useDiffMode << " k=" << c.kNeighbors << " min=" << c.minNumOfMeasurementsForPositionCalculation);
  int solved = 0;
  for (int q = 0; q < calls; q++) {
    const LevelSpec& l = g.pick(w.L);
    const Level& level = w.lc->level(LevelId(l.id));
    auto msr = reading(g, w, l);
    std::vector<int> pm = g.permutation((int)msr.size());
    RadioMeasurementsData shuffled;
    for (int i : pm) shuffled.push_back(msr[i]);
    ts += g.chance(1, 60) ? farGap(g) : (long long)g.draw(3000);
    Expected E = expectPosition(l, level, tris, msr, c);
    bool expectSolution = E.solution;
    auto& accept = E.accept;
    NavigationStatus st = NavigationStatus::OK;
    Position p = est.calculatePosition(level, ts, shuffled, MotionInfo(), st);
    NOTE(g, "level " << l.id << " " << l.rps.size() << " rps, readings " << showMsr(shuffled) << "-> status " << st << " (" << p.x << "," << p.y << ") empty=" << p.isEmpty);
    if (expectSolution) {
      REQUIRE("solution", st == NavigationStatus::OK && !p.isEmpty, "a position was expected but status is " << st);
      bool ok = false;
      for (auto& a : accept) ok = ok || std::hypot(a.first - p.x, a.second - p.y) < 1e-6;
      REQUIRE("position", ok, "position (" << p.x << "," << p.y << ") instead of (" << accept[0].first << "," << accept[0].second << ")");
      REQUIRE("stamp", p.ts == ts && p.levelId.value == l.id && p.provider == Provider::INDOOR, "position stamped " << p.ts << " on level " << p.levelId.value);
      REQUIRE("deviation", std::isfinite(p.deviationM) && p.deviationM >= 0, "deviation " << p.deviationM);
      solved++;
      last = p;
    } else {
      REQUIRE("no solution status", st != NavigationStatus::OK, "no usable reading or reference point, but status OK with position (" << p.x << "," << p.y << ")");
      REQUIRE("no invented position", p.isEmpty == last.isEmpty && (p.isEmpty || (p.x == last.x && p.y == last.y && p.levelId == last.levelId && p.ts == last.ts)),
              "without a solution the estimate changed to (" << p.x << "," << p.y << ") ts " << p.ts);
    }
    g.label(expectSolution ? "solution" : "no solution");
  }
  g.nontrivial(solved >= 1);
}
// readings identical to one fingerprint that differs clearly from all others select it, whatever else is measured
static void exact(G& g) {
  LevelSpec l;
  l.id = "L"; l.lat0 = 1; l.lon0 = 1; l.W = 40; l.H = 30;
  l.area.push_back({rect(0, 0, 40, 30), {}});
  int nt = 4 + g.small(4), nr = 4 + g.small(6);
  for (int k = 0; k < nt; k++) l.txs.push_back({"t" + std::to_string(k), g.uniform(0, 40), g.uniform(0, 30), 0, -55, 8, 0, TransmitterType::BEACON});
  int target = (int)g.draw(nr - 1);
  for (int k = 0; k < nr; k++) {
    RpSpec r; r.id = "r" + std::to_string(k); r.x = g.uniform(1, 39); r.y = g.uniform(1, 29);
    for (auto& t : l.txs) { SignalStatistics s; s.type = TransmitterType::BEACON; s.variance = 1; s.nMeasurements = 5; s.mean = -40 - (double)g.draw(50); r.fp[t.id] = s; }
    l.rps.push_back(r);
  }
  bool diff = g.boolean();
  RadioMeasurementsData m;
  for (auto& kv : l.rps[target].fp) { RadioMeasurementData d; d.type = RadioMeasurementData::Type::BEACON; d.id = TransmitterId(kv.first); d.rssi = kv.second.mean; m.push_back(d); }
  double shift = diff ? (double)g.range(-5, 5) : 0;   // differential mode cancels a common receiver offset
  for (auto& d : m) d.rssi += shift;
  for (int k = 0; k < nr; k++) if (k != target) {     // clearly different: the two strongest transmitters differ by at least 4 dB, also differentially
    std::vector<std::pair<double, std::string>> v; for (auto& d : m) v.push_back({d.rssi, d.id.value}); std::sort(v.rbegin(), v.rend());
    double a = l.rps[k].fp[v[0].second].mean - l.rps[target].fp[v[0].second].mean, b = l.rps[k].fp[v[1].second].mean - l.rps[target].fp[v[1].second].mean;
    if (std::fabs(diff ? a - b : a) < 4) g.discard();
    if (v[0].first - v[2].first > 20) g.discard();
  }
  auto lc = std::make_shared<LevelCollector>(); lc->addGeoLevel(toGeoLevel(l));
  NavigationSettings s; auto& c = s.commonSettings;
  c.useAlgorithm = CommonSettings::UseAlgorithm::KNN; c.useTriangles = false; c.useDiffMode = diff; c.kNeighbors = 1; c.minNumOfMeasurementsForPositionCalculation = 3;
  PositionEstimatorKnn est(lc, s);
  NavigationStatus st = NavigationStatus::OK;
  Position p = est.calculatePosition(lc->level(LevelId("L")), 5, m, MotionInfo(), st);
  NOTE(g, nr << " reference points, target r" << target << " at (" << l.rps[target].x << "," << l.rps[target].y << "), diff=" << diff << " offset " << shift << ": " << showMsr(m));
  g.nontrivial();
  REQUIRE("exact fingerprint", st == NavigationStatus::OK && std::hypot(p.x - l.rps[target].x, p.y - l.rps[target].y) < 1e-4, "readings equal to fingerprint r" << target << " give (" << p.x << "," << p.y << ")");
}
static std::vector<pbt::Sub> subs() { return {{"positions", positions, 60000, 1500000}, {"exact", exact, 40000, 600000}}; }
PBT_MAIN(subs)
