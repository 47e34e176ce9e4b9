// C15: PositionEstimatorOutdoor against a model that decides every fix from the whole history of fixes.
#include "post_model.h"
#include "src/position_estimator/position_estimator_outdoor.h"
using namespace pm;
static std::string show(const Position& p) { std::ostringstream o; o << std::setprecision(12); if (p.isEmpty) o << "none"; else o << "(" << p.x << "," << p.y << ") dev " << p.deviationM << " level '" << p.levelId.value << "' ts " << p.ts; return o.str(); }
static void outdoor(G& g) {
  NavigationSettings s; auto& c = s.commonSettings;
  c.useGpsOutsideMap = g.chance(1, 5); c.useGpsSigmaFilter = g.chance(1, 2); c.sigmaFilterWindow = (unsigned)g.sized(7, 60); c.sigmaFilterDelta = g.pick({0.0, 0.5, 3.0});
  c.minNumSats = (unsigned)g.pick({20, 5, 0, 8}); c.minGpsDeviation = g.pick({5.0, 1.0, 0.0, 12.0}); c.maxGpsDeviation = g.pick({std::numeric_limits<double>::infinity(), 30.0, 10.0, 100.0}); c.gpsValidTimeWindowSec = g.pick({1.0, 3.0, 0.0, 10.0});
  // levels next to each other, overlapping or far away
  std::vector<LevelSpec> L(1 + g.draw(2));
  for (size_t i = 0; i < L.size(); i++) {
    LevelSpec& l = L[i];
    l.id = std::string(1, (char)('A' + i)); l.lat0 = 50 + i * g.pick({0.0, 0.0002, 0.01}); l.lon0 = 10 + i * g.pick({0.0, 0.0003, 0.02});
    l.W = 20 + 10.0 * g.draw(6); l.H = 20 + 10.0 * g.draw(6); l.area.push_back({rect(0, 0, l.W, l.H), {}});
  }
  auto lc = std::make_shared<LevelCollector>();
  for (auto& l : L) lc->addGeoLevel(toGeoLevel(l));
  NOTE(g, L.size() << " levels, outside map " << c.useGpsOutsideMap << ", sigma " << c.useGpsSigmaFilter << " window " << c.sigmaFilterWindow << " delta " << c.sigmaFilterDelta << ", min sats " << c.minNumSats << ", accuracy " << c.minGpsDeviation << ".." << c.maxGpsDeviation << ", valid " << c.gpsValidTimeWindowSec << " s");
  PositionEstimatorOutdoor est(lc, s);
  long long ts = g.pick({100000LL, 1700000000000LL}), valid = (long long)(1000 * c.gpsValidTimeWindowSec);
  Walk w{g.real(0, L[0].W), g.real(0, L[0].H)};
  Position last; std::deque<std::pair<double, double>> buf; const LevelSpec* bufLevel = nullptr; int across = 0; NmeaMeasurement nm{}; nm.ts = ts;
  int n = 2 + g.sized(40, 400), accepted = 0, rejSigma = 0, rejSats = 0, rejDev = 0, rejMap = 0, repeated = 0, expired = 0;
  bool reuse = false; SensorMeasurement sm{};
  for (int i = 0; i < n; i++) {
    long long dt = 0;
    switch (g.draw(4)) { case 0: dt = 1000; break; case 1: dt = 100 + (long long)g.draw(900); break; case 2: dt = std::max(0LL, valid + (long long)g.range(-1, 1) - (last.isEmpty ? 0 : ts - last.ts)); break; case 3: dt = (long long)g.draw(3); break; default: dt = (long long)g.draw(5000); }
    if (i && g.chance(1, 60)) dt = farGap(g);
    ts += dt;
    bool fix = g.chance(3, 5), flag = g.chance(1, 10);
    if (g.chance(1, 4)) { nm.data.sentenceNumber = g.pick({1, 1, 2, 0}); nm.data.satellitesNumber = g.pick({0, (int)c.minNumSats, (int)c.minNumSats - 1, (int)c.minNumSats + 1, 3, 30}); if (nm.data.satellitesNumber < 0) nm.data.satellitesNumber = 0; nm.ts = ts; }
    double lat = 0, lon = 0, z = 0;
    if (fix) {
      w.step(g, dt / 1000.0, L[0].W, L[0].H);
      if (g.chance(1, 10)) { w.x = g.real(-100, 3000); w.y = g.real(-100, 2000); }
      else if (g.chance(1, 12)) { const LevelSpec& t = g.pick(L); toLocal(L[0].lat0, L[0].lon0, t.lat0, t.lon0, w.x, w.y); w.x += g.real(0, t.W); w.y += g.real(0, t.H); }
      toGeo(L[0].lat0, L[0].lon0, w.x + g.real(-1, 1), w.y + g.real(-1, 1), lat, lon);
      z = g.pick({3.0, 8.0, 0.0, c.minGpsDeviation, c.maxGpsDeviation < 1e9 ? c.maxGpsDeviation : 50.0, 25.0}) + g.pick({0.0, 0.0, 0.5, 10.0});
      sm.data.type = SensorMeasurementData::Type::LOCATION; sm.data.values = Vector3d(lat, lon, z); sm.ts = ts;
    } else { sm.data.type = g.pick({SensorMeasurementData::Type::ACCELEROMETER, SensorMeasurementData::Type::BAROMETER, SensorMeasurementData::Type::ORIENTATION, SensorMeasurementData::Type::GYROSCOPE}); sm.data.values = Vector3d(1, 2, 9); sm.ts = ts; }
    Position got = est.calculatePosition(ts, sm, nm, flag);
    std::ostringstream o; if (fix) o << "fix " << std::setprecision(10) << lat << "," << lon << " +-" << z; else o << "no fix";
    NOTE(g, "now " << ts << " " << o.str() << " satellites " << nm.data.sentenceNumber << "/" << nm.data.satellitesNumber << (flag ? " indoor" : "") << " -> " << show(got));
    // the last accepted position, while it is valid
    bool lastOk = !last.isEmpty && ts - last.ts <= valid;
    auto sameAsLast = [&] { return got.x == last.x && got.y == last.y && got.levelId == last.levelId && got.deviationM == last.deviationM && got.ts == last.ts && got.provider == last.provider; };
    if (flag || (fix && std::max(z, c.minGpsDeviation) > c.maxGpsDeviation)) buf.clear();
    if (!fix) {
      if (lastOk) { repeated++; REQUIRE("repeat", !got.isEmpty && sameAsLast(), "no fix " << ts - last.ts << " ms after " << show(last) << ", reported " << show(got)); }
      else { expired += !last.isEmpty; REQUIRE("expired", got.isEmpty, "no fix and " << (last.isEmpty ? std::string("none accepted before") : "the last one is " + std::to_string(ts - last.ts) + " ms old") << ", reported " << show(got)); }
      continue;
    }
    bool reject = false; const char* why = "";
    if (std::max(z, c.minGpsDeviation) > c.maxGpsDeviation) { reject = true; why = "accuracy beyond the maximum"; rejDev++; }
    const LevelSpec* lv = nullptr; double x = 0, y = 0;
    if (!reject) {
      for (auto& l : L) {
        toLocal(l.lat0, l.lon0, lat, lon, x, y);
        for (double e : {x, y, x - l.W, y - l.H}) if (std::fabs(e) < 1e-4) g.discard();
        if (c.useGpsOutsideMap || (x > 0 && x < l.W && y > 0 && y < l.H)) { lv = &l; break; }
      }
      if (!lv) { reject = true; why = "outside every level"; rejMap++; }
    }
    if (!reject) {
      bool okSigma = true;
      if (last.isEmpty || ts != last.ts) {
        if (c.useGpsSigmaFilter) {
          okSigma = false;
          if (buf.size() == std::max(1u, c.sigmaFilterWindow)) {
            LD mx = 0, my = 0, vx = 0, vy = 0, n = buf.size();
            std::vector<std::pair<LD, LD>> pts;   // preceding fixes in the coordinate system of this one's level
            for (auto& q : buf) { double px, py; toLocal(lv->lat0, lv->lon0, q.first, q.second, px, py); pts.push_back({px, py}); }
            for (auto& q : pts) { mx += q.first / n; my += q.second / n; }
            for (auto& q : pts) { vx += (q.first - mx) * (q.first - mx) / n; vy += (q.second - my) * (q.second - my) / n; }
            LD ax = fabsl(x - mx) - 3 * sqrtl(vx) - c.sigmaFilterDelta, ay = fabsl(y - my) - 3 * sqrtl(vy) - c.sigmaFilterDelta;
            if (fabsl(ax) < 1e-5 || fabsl(ay) < 1e-5) g.discard();
            okSigma = ax < 0 && ay < 0;
            buf.pop_front();
          }
          buf.push_back({lat, lon}); across += bufLevel && bufLevel != lv; bufLevel = lv;
        }
      }
      if (!okSigma) { reject = true; why = "outside the sigma window"; rejSigma++; }
      else if (nm.data.sentenceNumber == 1 && nm.data.satellitesNumber != 0 && nm.data.satellitesNumber < (int)c.minNumSats) { reject = true; why = "too few satellites"; rejSats++; }
    }
    if (reject) { REQUIRE("rejected fix", got.isEmpty || (lastOk && sameAsLast()), "fix to be rejected (" << why << "), last accepted " << show(last) << ", reported " << show(got)); continue; }
    accepted++;
    REQUIRE("accepted fix", !got.isEmpty && got.provider == Provider::GNSS && got.ts == ts && got.levelId == LevelId(lv->id), "fix to be accepted on level " << lv->id << ", reported " << show(got));
    REQUIRE("point", std::fabs(got.x - x) < 1e-5 && std::fabs(got.y - y) < 1e-5, "reported " << show(got) << " instead of (" << x << "," << y << ")");
    REQUIRE("radius", got.deviationM == std::max(z, c.minGpsDeviation), "radius " << got.deviationM << " for accuracy " << z);
    last = got;
  }
  g.nontrivial(accepted >= 2);
  g.label("repeated", repeated > 0); g.label("expired", expired > 0); g.label("rejected: sigma", rejSigma > 0); g.label("sigma window over several levels", across > 0); g.label("rejected: satellites", rejSats > 0); g.label("rejected: accuracy", rejDev > 0); g.label("rejected: map", rejMap > 0);
}
static std::vector<pbt::Sub> subs() { return {{"outdoor", outdoor, 120000, 1500000}}; }
PBT_MAIN(subs)
